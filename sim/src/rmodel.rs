//! Reference schema model: built independently of opg, convertible to opg's types and to the expected document tree.

use opg::*;

use crate::rt::*;
use crate::val::{s, Val};

#[derive(Clone, Debug, PartialEq)]
pub struct RModel {
    pub description: Option<String>,
    pub data: RData,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RData {
    Single(bool, RType),
    OneOf(Vec<RRef>),
    AllOf(Vec<RRef>),
    AnyOf(Vec<RRef>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RType {
    Str(Option<Vec<String>>, Option<String>, Option<String>),
    Num(Option<String>, Option<String>),
    Int(Option<String>, Option<String>),
    Bool,
    Array(Box<RRef>),
    Object { props: Vec<(String, RRef)>, additional: Option<Box<RRef>>, required: Vec<String> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum RRef {
    Link(String),
    Inline(Box<RModel>),
    Any,
}

impl RModel {
    pub fn to_opg(&self) -> Model {
        Model {
            description: self.description.clone(),
            data: match &self.data {
                RData::Single(nullable, t) => {
                    ModelData::Single(ModelType { nullable: *nullable, type_description: t.to_opg() })
                }
                RData::OneOf(items) => ModelData::OneOf(ModelOneOf { one_of: items.iter().map(RRef::to_opg).collect() }),
                RData::AllOf(items) => ModelData::AllOf(ModelAllOf { all_of: items.iter().map(RRef::to_opg).collect() }),
                RData::AnyOf(items) => ModelData::AnyOf(ModelAnyOf { any_of: items.iter().map(RRef::to_opg).collect() }),
            },
        }
    }

    pub fn to_val(&self) -> Val {
        let mut entries = Vec::new();
        if let Some(d) = &self.description {
            entries.push(("description".to_owned(), s(d.clone())));
        }
        let refs = |items: &[RRef]| Val::Seq(items.iter().map(RRef::to_val).collect());
        match &self.data {
            RData::Single(nullable, t) => {
                if *nullable {
                    entries.push(("nullable".to_owned(), Val::Bool(true)));
                }
                t.entries(&mut entries);
            }
            RData::OneOf(items) => entries.push(("oneOf".to_owned(), refs(items))),
            RData::AllOf(items) => entries.push(("allOf".to_owned(), refs(items))),
            RData::AnyOf(items) => entries.push(("anyOf".to_owned(), refs(items))),
        }
        Val::Map(entries)
    }

    pub fn links(&self, out: &mut Vec<String>) {
        match &self.data {
            RData::Single(_, RType::Array(item)) => item.links(out),
            RData::Single(_, RType::Object { props, additional, .. }) => {
                props.iter().for_each(|(_, r)| r.links(out));
                additional.iter().for_each(|r| r.links(out));
            }
            RData::Single(..) => {}
            RData::OneOf(items) | RData::AllOf(items) | RData::AnyOf(items) => items.iter().for_each(|r| r.links(out)),
        }
    }
}

impl RType {
    fn to_opg(&self) -> ModelTypeDescription {
        let simple = |f: &Option<String>, e: &Option<String>| ModelSimple { format: f.clone(), example: e.clone() };
        match self {
            RType::Str(v, f, e) => ModelTypeDescription::String(ModelString { variants: v.clone(), data: simple(f, e) }),
            RType::Num(f, e) => ModelTypeDescription::Number(simple(f, e)),
            RType::Int(f, e) => ModelTypeDescription::Integer(simple(f, e)),
            RType::Bool => ModelTypeDescription::Boolean,
            RType::Array(item) => ModelTypeDescription::Array(ModelArray { items: Box::new(item.to_opg()) }),
            RType::Object { props, additional, required } => ModelTypeDescription::Object(ModelObject {
                properties: props.iter().map(|(k, v)| (k.clone(), v.to_opg())).collect(),
                additional_properties: additional.as_ref().map(|r| Box::new(r.to_opg())),
                required: required.clone(),
            }),
        }
    }

    fn entries(&self, out: &mut Vec<(String, Val)>) {
        let mut simple = |kind: &str, f: &Option<String>, e: &Option<String>| {
            out.push(("type".to_owned(), s(kind)));
            if let Some(f) = f {
                out.push(("format".to_owned(), s(f.clone())));
            }
            if let Some(e) = e {
                out.push(("example".to_owned(), s(e.clone())));
            }
        };
        match self {
            RType::Str(v, f, e) => {
                simple("string", f, e);
                if let Some(v) = v {
                    out.push(("enum".to_owned(), Val::Seq(v.iter().map(|x| s(x.clone())).collect())));
                }
            }
            RType::Num(f, e) => simple("number", f, e),
            RType::Int(f, e) => simple("integer", f, e),
            RType::Bool => simple("boolean", &None, &None),
            RType::Array(item) => {
                simple("array", &None, &None);
                out.push(("items".to_owned(), item.to_val()));
            }
            RType::Object { props, additional, required } => {
                simple("object", &None, &None);
                if !props.is_empty() {
                    let props = props.iter().map(|(k, v)| (k.clone(), v.to_val())).collect();
                    out.push(("properties".to_owned(), Val::Map(props)));
                }
                if let Some(r) = additional {
                    out.push(("additionalProperties".to_owned(), r.to_val()));
                }
                if !required.is_empty() {
                    out.push(("required".to_owned(), Val::Seq(required.iter().map(|x| s(x.clone())).collect())));
                }
            }
        }
    }
}

pub fn link_val(name: &str) -> Val {
    Val::Map(vec![("$ref".to_owned(), s(format!("#/components/schemas/{}", name)))])
}

impl RRef {
    pub fn to_opg(&self) -> ModelReference {
        match self {
            RRef::Link(name) => ModelReference::Link(name.clone()),
            RRef::Inline(model) => ModelReference::Inline(model.to_opg()),
            RRef::Any => ModelReference::Any,
        }
    }

    pub fn to_val(&self) -> Val {
        match self {
            RRef::Link(name) => link_val(name),
            RRef::Inline(model) => model.to_val(),
            RRef::Any => Val::Map(Vec::new()),
        }
    }

    pub fn links(&self, out: &mut Vec<String>) {
        match self {
            RRef::Link(name) => out.push(name.clone()),
            RRef::Inline(model) => model.links(out),
            RRef::Any => {}
        }
    }
}

/// Texts that stress escaping and quoting.
pub fn text() -> String {
    const TEXTS: [&str; 20] = [
        "a",
        "text",
        "",
        "Two words",
        "ünïcode ✓ 日本",
        "\"quoted\" \\ back/slash",
        "line\nbreak\ttab",
        "{curly} ${x}",
        "null",
        "true",
        "- item: value",
        "# not a comment",
        "$ref",
        "0123",
        "~0~1/#",
        "   spaces   ",
        "\u{0}\u{7f}",
        "a: b",
        "'single'",
        "very long text very long text very long text very long text very long text very long text very long text",
    ];
    let i = draw(TEXTS.len() + 3);
    match TEXTS.get(i) {
        Some(t) => (*t).to_owned(),
        None if i == TEXTS.len() && chance(30) => {
            let n = [65, 130, 260, 520, 1100, 5000][draw(6)];
            pick(&["x", "é", "ab ", "日"]).repeat(n)
        }
        None => format!("t{}", draw(1000)),
    }
}

pub fn opt<T>(percent: u32, f: impl FnOnce() -> T) -> Option<T> {
    if chance(percent) {
        Some(f())
    } else {
        None
    }
}

/// A random schema whose links come from `names`.
pub fn gen_model(depth: usize, names: &[String]) -> RModel {
    let description = opt(30, text);
    let kind = draw(if depth == 0 { 4 } else { 9 });
    let data = match kind {
        0 => RData::Single(chance(20), RType::Str(opt(25, || (0..draw(4)).map(|_| text()).collect()), opt(30, text), opt(30, text))),
        1 => RData::Single(chance(20), RType::Int(opt(30, text), opt(30, text))),
        2 => RData::Single(chance(20), RType::Num(opt(30, text), opt(30, text))),
        3 => RData::Single(chance(20), RType::Bool),
        4 => RData::Single(chance(20), RType::Array(Box::new(gen_ref(depth - 1, names)))),
        5 => {
            let n = draw(4);
            let props = (0..n)
                .map(|i| {
                    let name = match draw(8) {
                        7 => "$ref".to_owned(),
                        6 => format!("ключ {}", i),
                        _ => format!("p{}", i),
                    };
                    (name, gen_ref(depth - 1, names))
                })
                .collect::<std::collections::BTreeMap<_, _>>();
            let props = props.into_iter().collect::<Vec<_>>();
            let required = props.iter().filter(|_| chance(50)).map(|p| p.0.clone()).collect();
            RData::Single(chance(20), RType::Object { props, additional: opt(40, || Box::new(gen_ref(depth - 1, names))), required })
        }
        6 => RData::OneOf((0..draw(4)).map(|_| gen_ref(depth - 1, names)).collect()),
        7 => RData::AllOf((0..draw(4)).map(|_| gen_ref(depth - 1, names)).collect()),
        _ => RData::AnyOf((0..draw(4)).map(|_| gen_ref(depth - 1, names)).collect()),
    };
    RModel { description, data }
}

pub fn gen_ref(depth: usize, names: &[String]) -> RRef {
    match draw(8) {
        0 => RRef::Any,
        1 | 2 | 3 if !names.is_empty() => RRef::Link(pick(names).clone()),
        _ => RRef::Inline(Box::new(gen_model(depth, names))),
    }
}

/// `inner` below `depth` nested schemas.
pub fn tower(depth: usize, inner: RRef) -> RModel {
    let mut at = inner;
    for i in 0..depth {
        let data = match draw(6) {
            0 => RData::Single(false, RType::Array(Box::new(at))),
            1 => RData::Single(false, RType::Object { props: vec![(format!("p{}", i), at)], additional: None, required: vec![] }),
            2 => RData::Single(false, RType::Object { props: vec![], additional: Some(Box::new(at)), required: vec![] }),
            3 => RData::OneOf(vec![at]),
            4 => RData::AllOf(vec![at]),
            _ => RData::AnyOf(vec![RRef::Any, at]),
        };
        at = RRef::Inline(Box::new(RModel { description: None, data }));
    }
    match at {
        RRef::Inline(model) => *model,
        at => RModel { description: None, data: RData::AllOf(vec![at]) },
    }
}

/// Mostly what `small` says, now and then much more.
pub fn size(small: usize, big: &[usize]) -> usize {
    if chance(3) {
        count("situation.big_run");
        *pick(big)
    } else {
        small
    }
}
