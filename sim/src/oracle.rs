//! Schemas and references computed without the library: what a type's own schema is and what a use of it should give.

use std::collections::BTreeMap;
use std::sync::OnceLock;

use crate::rmodel::*;
use crate::val::Val;
use crate::zoo_derive::{self, Use, THROUGH};
use crate::zoo_node::*;

/// Per-use parameters on an inlined schema.
pub fn apply(mut model: RModel, p: &Params) -> RModel {
    if p.description.is_some() {
        model.description = p.description.clone();
    }
    let over = |own: &mut Option<String>, new: &Option<String>| {
        if new.is_some() {
            *own = new.clone();
        }
    };
    if let RData::Single(nullable, t) = &mut model.data {
        if let Some(n) = p.nullable {
            *nullable = n;
        }
        match t {
            RType::Str(variants, format, example) => {
                if p.variants.is_some() {
                    *variants = p.variants.clone();
                }
                over(format, &p.format);
                over(example, &p.example);
            }
            RType::Num(format, example) | RType::Int(format, example) => {
                over(format, &p.format);
                over(example, &p.example);
            }
            _ => {}
        }
    }
    model
}

pub fn null_model() -> RModel {
    RModel { description: Some("Always `null`".to_owned()), data: RData::Single(true, RType::Str(None, Some("null".to_owned()), None)) }
}

fn inline(model: RModel) -> RRef {
    RRef::Inline(Box::new(model))
}

fn nullable() -> Params {
    Params { nullable: Some(true), ..Params::default() }
}

/// A type at the bottom of wrappers.
trait Leaf {
    fn own(&self) -> RModel;
    /// its name, if uses that do not ask for inlining link to it
    fn name(&self) -> Option<String>;
}

fn mention(leaf: &dyn Leaf, w: &W, inlined: bool, p: &Params) -> RRef {
    match w {
        W::T => match leaf.name() {
            Some(name) if !inlined => RRef::Link(name),
            _ => inline(apply(leaf.own(), p)),
        },
        W::Same(x) => mention(leaf, x, inlined, p),
        W::Opt(x) => match mention(leaf, x, inlined, p) {
            RRef::Link(name) => inline(RModel {
                description: p.description.clone(),
                data: RData::OneOf(vec![RRef::Link(name), inline(null_model())]),
            }),
            RRef::Inline(model) => inline(apply(apply(*model, &nullable()), p)),
            RRef::Any => RRef::Any,
        },
        W::Cont(_) | W::Dict(_) | W::Plain(_) => inline(apply(own(leaf, w), p)),
    }
}

/// The schema of the wrapped type itself.
fn own(leaf: &dyn Leaf, w: &W) -> RModel {
    let item = |x: &W| mention(leaf, x, false, &Params::default());
    let single = |t: RType| RModel { description: None, data: RData::Single(false, t) };
    match w {
        W::T => leaf.own(),
        W::Plain(b'S') => single(RType::Str(None, None, None)),
        W::Plain(b'I') => single(RType::Int(Some("int64".to_owned()), None)),
        W::Plain(b'B') => single(RType::Bool),
        W::Plain(_) => null_model(),
        W::Same(x) => own(leaf, x),
        W::Opt(x) => apply(own(leaf, x), &nullable()),
        W::Cont(items) if items.len() == 1 => single(RType::Array(Box::new(item(&items[0])))),
        W::Cont(items) => {
            let one_of = RModel { description: None, data: RData::OneOf(items.iter().map(item).collect()) };
            single(RType::Array(Box::new(inline(one_of))))
        }
        W::Dict(items) => single(RType::Object { props: vec![], additional: Some(Box::new(item(&items[0]))), required: vec![] }),
    }
}

struct NodeLeaf<'a>(&'a Universe, &'a Edge);

impl Leaf for NodeLeaf<'_> {
    fn own(&self) -> RModel {
        node_model(self.0, self.1.node)
    }
    fn name(&self) -> Option<String> {
        if self.1.inline_kind {
            None
        } else {
            self.0.nodes[self.1.node].name.clone()
        }
    }
}

/// The schema of a node itself.
pub fn node_model(universe: &Universe, node: usize) -> RModel {
    let spec = &universe.nodes[node];
    let visit = |e: &Edge| if e.newtype { inline(edge_schema(universe, e)) } else { edge_reference(universe, e) };
    let data = match &spec.shape {
        Shape::Prim(model) => return model.clone(),
        Shape::Newtype(e) => return edge_schema(universe, e),
        Shape::Object { props, additional } => RData::Single(
            spec.nullable,
            RType::Object {
                props: props.iter().map(|(n, e, _)| (n.clone(), visit(e))).collect(),
                additional: additional.as_ref().map(|e| Box::new(visit(e))),
                required: props.iter().filter(|p| p.2).map(|p| p.0.clone()).collect(),
            },
        ),
        Shape::Array(e) => RData::Single(spec.nullable, RType::Array(Box::new(visit(e)))),
        Shape::OneOf(e) => RData::OneOf(e.iter().map(visit).collect()),
        Shape::AllOf(e) => RData::AllOf(e.iter().map(visit).collect()),
        Shape::AnyOf(e) => RData::AnyOf(e.iter().map(visit).collect()),
    };
    RModel { description: spec.description.clone(), data }
}

/// What mentioning the edge should hand back.
pub fn edge_reference(universe: &Universe, e: &Edge) -> RRef {
    mention(&NodeLeaf(universe, e), wrapper(e.wrapper), e.inline, &e.params)
}

fn edge_schema(universe: &Universe, e: &Edge) -> RModel {
    apply(own(&NodeLeaf(universe, e), wrapper(e.wrapper)), &e.params)
}

/// Read a schema back from its emitted form.
pub fn parse_model(val: &Val) -> RModel {
    let text = |k: &str| match val.get(k) {
        Some(Val::Str(t)) => Some(t.clone()),
        _ => None,
    };
    let seq = |k: &str| match val.get(k) {
        Some(Val::Seq(items)) => Some(items.clone()),
        _ => None,
    };
    let strings = |k: &str| {
        seq(k).map(|items| {
            items
                .iter()
                .map(|i| match i {
                    Val::Str(t) => t.clone(),
                    other => panic!("{:?}", other),
                })
                .collect::<Vec<_>>()
        })
    };
    let refs = |k: &str| seq(k).map(|items| items.iter().map(parse_ref).collect::<Vec<_>>());
    let data = match text("type").as_deref() {
        None => match (refs("oneOf"), refs("allOf"), refs("anyOf")) {
            (Some(r), None, None) => RData::OneOf(r),
            (None, Some(r), None) => RData::AllOf(r),
            (None, None, Some(r)) => RData::AnyOf(r),
            _ => panic!("not a schema: {:?}", val),
        },
        Some(kind) => RData::Single(
            val.get("nullable") == Some(&Val::Bool(true)),
            match kind {
                "string" => RType::Str(strings("enum"), text("format"), text("example")),
                "number" => RType::Num(text("format"), text("example")),
                "integer" => RType::Int(text("format"), text("example")),
                "boolean" => RType::Bool,
                "array" => RType::Array(Box::new(parse_ref(val.get("items").expect("items")))),
                "object" => RType::Object {
                    props: val.get("properties").map(|p| p.entries().iter().map(|(k, v)| (k.clone(), parse_ref(v))).collect()).unwrap_or_default(),
                    additional: val.get("additionalProperties").map(|v| Box::new(parse_ref(v))),
                    required: strings("required").unwrap_or_default(),
                },
                other => panic!("unknown type {:?}", other),
            },
        ),
    };
    RModel { description: text("description"), data }
}

fn parse_ref(val: &Val) -> RRef {
    match (val.entries(), val.get("$ref")) {
        ([], _) => RRef::Any,
        (_, Some(Val::Str(link))) => RRef::Link(link.strip_prefix("#/components/schemas/").expect("a schema link").to_owned()),
        _ => inline(parse_model(val)),
    }
}

/// The schemas of the derived types, written down in `golden/derived.json` and reviewed by hand.
pub fn golden(name: &str) -> &'static RModel {
    static GOLDEN: OnceLock<BTreeMap<String, RModel>> = OnceLock::new();
    GOLDEN
        .get_or_init(|| {
            let all = serde_json::from_str::<Val>(include_str!("../golden/derived.json")).expect("golden/derived.json");
            all.entries().iter().map(|(k, v)| (k.clone(), parse_model(v))).collect()
        })
        .get(name)
        .unwrap_or_else(|| panic!("no golden schema for {}", name))
}

struct DerivedLeaf(&'static zoo_derive::TypeInfo);

impl Leaf for DerivedLeaf {
    fn own(&self) -> RModel {
        golden(self.0.name).clone()
    }
    fn name(&self) -> Option<String> {
        if self.0.named {
            Some(self.0.name.to_owned())
        } else {
            None
        }
    }
}

/// What mentioning a derived type should hand back.
pub fn use_reference(u: &Use) -> RRef {
    let w = if u.through == 0 { W::T } else { parse_wrapper(THROUGH[u.through - 1]) };
    mention(&DerivedLeaf(&zoo_derive::TYPES[u.ty]), &w, u.inline, &u.params)
}
