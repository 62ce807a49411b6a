//! C06: link verification. C11: composing object schemas.

use super::*;

const LINKS: [&str; 12] = ["A", "B", "a", "A ", "AA", "#/components/schemas/A", "", "A/B", "Ä", "b", "C", "a.A"];

fn links_of(registry: &BTreeMap<String, RModel>) -> BTreeSet<String> {
    let mut out = Vec::new();
    registry.values().for_each(|m| m.links(&mut out));
    out.into_iter().filter(|l| !registry.contains_key(l)).collect()
}

fn verify(what: &str, cx: &Components, open: &BTreeSet<String>) {
    let before = to_val(cx);
    let result = expect_ok("verify_schemas", || cx.verify_schemas());
    match &result {
        Ok(()) if open.is_empty() => count("situation.verified"),
        Err(link) if open.contains(link) => count("situation.dangling_reported"),
        _ => fail("verification", format!("{}: verify_schemas gives {:?}, dangling links are {:?}", what, result, open)),
    }
    if to_val(cx) != before {
        fail("modified", format!("{}: verification changed the registry", what));
    }
}

/// Replace one reference somewhere inside the model by a link to `name`.
fn plant(model: &mut RModel, name: &str) -> bool {
    fn in_ref(r: &mut RRef, name: &str) -> bool {
        if let RRef::Inline(m) = r {
            if chance(60) && plant(m, name) {
                return true;
            }
        }
        *r = RRef::Link(name.to_owned());
        true
    }
    match &mut model.data {
        RData::Single(_, RType::Array(item)) => in_ref(item, name),
        RData::Single(_, RType::Object { props, additional, .. }) => {
            let n = props.len() + additional.is_some() as usize;
            if n == 0 {
                return false;
            }
            match draw(n) {
                i if i < props.len() => in_ref(&mut props[i].1, name),
                _ => in_ref(additional.as_mut().unwrap(), name),
            }
        }
        RData::Single(..) => false,
        RData::OneOf(items) | RData::AllOf(items) | RData::AnyOf(items) => {
            if items.is_empty() {
                return false;
            }
            let i = draw(items.len());
            in_ref(&mut items[i], name)
        }
    }
}

fn c06() {
    // which names links may go to: few, so that registries are often closed
    let n = 1 + draw(5);
    let start = draw(LINKS.len());
    let pool = (0..n).map(|i| LINKS[(start + i * (1 + draw(3))) % LINKS.len()].to_owned()).collect::<Vec<_>>();
    let shared = SimMutex::new((Components::new(), BTreeMap::<String, RModel>::new()));
    let tasks = 1 + draw(3);
    let steps = 1 + draw(6);
    let jobs = (0..tasks)
        .map(|_| {
            let (shared, pool) = (&shared, &pool);
            Box::new(move || {
                for _ in 0..steps {
                    let mut guard = shared.lock();
                    let (cx, model) = &mut *guard;
                    let name = pick(pool).clone();
                    let what = match draw(7) {
                        6 => {
                            // the names of security schemes are their own
                            cx.mention_security_scheme(name.clone(), &HttpSecurityScheme::Basic { description: None });
                            format!("a security scheme {:?}", name)
                        }
                        0 => {
                            cx.schemas.remove(&name);
                            model.remove(&name);
                            format!("removing {:?}", name)
                        }
                        1 => {
                            let m = gen_model(3, pool);
                            cx.schemas.insert(name.clone(), m.to_opg());
                            model.insert(name.clone(), m);
                            format!("replacing {:?}", name)
                        }
                        _ => {
                            let m = gen_model(4, pool);
                            cx.add_model(&name, m.to_opg());
                            model.entry(name.clone()).or_insert(m);
                            format!("adding {:?}", name)
                        }
                    };
                    note(&what);
                    verify(&what, cx, &links_of(model));
                    nontrivial();
                }
            }) as Job
        })
        .collect();
    par(jobs);
    let (mut cx, mut model) = shared.into_inner();
    // many more names, so that the dangling one is one of many
    for i in 0..size(0, &[20, 70, 150, 300]) {
        let m = tower(draw(2), gen_ref(1, &pool));
        let name = format!("big {}", i);
        cx.add_model(&name, m.to_opg());
        model.insert(name, m);
    }
    // close it, then open it at a single place
    for name in links_of(&model) {
        let m = gen_model(2, &model.keys().cloned().collect::<Vec<_>>());
        cx.add_model(&name, m.to_opg());
        model.insert(name, m);
    }
    verify("a closed registry", &cx, &links_of(&model));
    for _ in 0..3 {
        let names = model.keys().cloned().collect::<Vec<_>>();
        let mut m = gen_model(5, &names);
        let ghost = {
            let near = names.get(draw(names.len())).cloned().unwrap_or_default();
            let candidates = [format!("{}x", near), near.to_lowercase(), near.to_uppercase(), near.trim().to_owned(), format!("{}{}", PREFIX, near), "Ghost".to_owned()];
            candidates[draw(candidates.len())].clone()
        };
        if model.contains_key(&ghost) || !plant(&mut m, &ghost) {
            continue;
        }
        if chance(10) {
            // far down
            count("situation.deep_schema");
            m = tower([8, 16, 33, 64, 100, 130, 200][draw(7)], RRef::Inline(Box::new(m)));
        }
        let host = format!("{} {}", pick(&["~last", " first", "M"]), model.len());
        cx.add_model(&host, m.to_opg());
        model.insert(host.clone(), m);
        note(format!("one dangling link {:?} in {:?}", ghost, host));
        if chance(15) {
            count("situation.scheme_named_like_the_link");
            let scheme = ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: ghost.clone(), description: None };
            cx.mention_security_scheme(ghost.clone(), &scheme);
        }
        verify("one dangling link", &cx, &links_of(&model));
        if chance(50) {
            cx.schemas.remove(&host);
            model.remove(&host);
        } else {
            let fix = gen_model(0, &[]);
            cx.add_model(&ghost, fix.to_opg());
            model.insert(ghost, fix);
        }
        verify("the dangling link is gone", &cx, &links_of(&model));
    }
    // what mentions leave behind is closed, until a name is taken out by hand
    if chance(40) {
        let mut cx = Components::new();
        for _ in 0..1 + draw(3) {
            let u = zoo_derive::gen_use();
            note(format!("mention {}", u.text()));
            quiet(|| u.mention(&mut cx));
        }
        verify("after mentions", &cx, &BTreeSet::new());
        let names = cx.schemas.keys().cloned().collect::<Vec<_>>();
        if !names.is_empty() {
            let gone = pick(&names);
            cx.schemas.remove(gone);
            let mut out = Vec::new();
            refs(&to_val(&cx), &mut out);
            let used = out.iter().any(|r| r.strip_prefix(PREFIX) == Some(gone));
            let open = if used { Some(gone.clone()) } else { None };
            verify("a mentioned schema was removed", &cx, &open.into_iter().collect());
        }
    }
    sample(format!("names {:?}; final registry {}", pool, to_val(&cx).text()));
}

pub const C06: Prop = Prop {
    id: "C06",
    run: c06,
    quick: 56_000,
    thorough: 1_200_000,
    rule: "runs in which a registry was verified after at least one change, distinct by the hash of the full step trace",
    probes: &[],
};

#[derive(Clone, Debug, PartialEq)]
struct RObject {
    props: BTreeMap<String, RRef>,
    required: Vec<String>,
    additional: Option<RRef>,
}

impl RObject {
    fn gen(max: usize) -> RObject {
        let n = draw(max + 1);
        let mut props = BTreeMap::new();
        for _ in 0..n {
            props.insert(prop_name(), gen_ref(1, &["X".to_owned()]));
        }
        let mut required = props.keys().filter(|_| chance(40)).cloned().collect::<Vec<_>>();
        if chance(15) {
            // a name that is required without being declared as a property
            let name = if chance(50) { format!("only required {}", draw(9)) } else { prop_name() };
            if !required.contains(&name) {
                required.insert(draw(required.len() + 1), name);
            }
        }
        RObject { props, required, additional: None }
    }
    /// A name can become required twice; whether it is then listed twice is left open.
    fn repeats(&self) -> bool {
        self.required.iter().collect::<BTreeSet<_>>().len() != self.required.len()
    }
    fn to_opg(&self) -> ModelObject {
        ModelObject {
            properties: self.props.iter().map(|(k, v)| (k.clone(), v.to_opg())).collect(),
            additional_properties: self.additional.as_ref().map(|r| Box::new(r.to_opg())),
            required: self.required.clone(),
        }
    }
    fn to_val(&self) -> Val {
        let mut required = self.required.clone();
        required.sort();
        required.dedup();
        let t = RType::Object {
            props: self.props.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            additional: self.additional.clone().map(Box::new),
            required,
        };
        RModel { description: None, data: RData::Single(false, t) }.to_val().canon()
    }
}

fn prop_name() -> String {
    match draw(12) {
        10 => "Поле".to_owned(),
        11 => String::new(),
        i => ["a", "b", "c", "A", "m", "z", "aa", "zz", "B", "y"][i].to_owned(),
    }
}

fn object_val(object: &ModelObject, dedup: bool) -> Val {
    let mut object = object.clone();
    object.required.sort();
    if dedup {
        object.required.dedup();
    }
    to_val(&Model { description: None, data: ModelData::Single(ModelType { nullable: false, type_description: object.into() }) }).canon()
}

struct Target {
    model: Model,
    reference: RObject,
}

fn c11() {
    let n = 1 + draw(3);
    let targets = (0..n)
        .map(|i| {
            let mut reference = RObject::gen(4);
            reference.additional = opt(30, || gen_ref(1, &[]));
            let model = Model {
                description: Some(format!("target {}", i)),
                data: ModelData::Single(ModelType { nullable: chance(30), type_description: reference.to_opg().into() }),
            };
            SimMutex::new(Target { model, reference })
        })
        .collect::<Vec<_>>();
    let tasks = 1 + draw(3);
    let steps = 2 + draw(8);
    let jobs = (0..tasks)
        .map(|_| {
            let targets = &targets;
            Box::new(move || {
                for _ in 0..steps {
                    let i = draw(targets.len());
                    let mut target = targets[i].lock();
                    let before = to_val(&target.model);
                    let mut reference = target.reference.clone();
                    let merge_into = |reference: &mut RObject, other: &RObject| -> bool {
                        if other.props.keys().any(|k| reference.props.contains_key(k)) {
                            return false;
                        }
                        reference.props.extend(other.props.clone());
                        reference.required.extend(other.required.clone());
                        true
                    };
                    // other: conflicting on one property of a known position, or on none, or random
                    let gen_other = |reference: &RObject| -> RObject {
                        let mut other = RObject::gen(5);
                        other.additional = opt(20, || gen_ref(1, &[]));
                        match draw(3) {
                            0 => other.props.retain(|k, _| !reference.props.contains_key(k)),
                            1 if !reference.props.is_empty() => {
                                other.props.retain(|k, _| !reference.props.contains_key(k));
                                let clash = reference.props.keys().nth(draw(reference.props.len())).unwrap().clone();
                                // sometimes even an identical property
                                let value = if chance(30) { reference.props[&clash].clone() } else { gen_ref(1, &[]) };
                                other.props.insert(clash, value);
                            }
                            _ => {}
                        }
                        other
                    };
                    let (what, expected, actual);
                    let kind = draw(4);
                    if kind == 2 && chance(3) {
                        // very many properties, the conflict on any of them
                        count("situation.big_run");
                        let n = [20, 60, 140][draw(3)];
                        let mut other = RObject { props: BTreeMap::new(), required: vec![], additional: None };
                        for k in 0..n {
                            let name = format!("{}{}", pick(&["", "m", "~"]), 1000 + k);
                            if !reference.props.contains_key(&name) {
                                other.props.insert(name, gen_ref(0, &[]));
                            }
                        }
                        if chance(50) && !reference.props.is_empty() {
                            let clash = reference.props.keys().nth(draw(reference.props.len())).unwrap().clone();
                            other.props.insert(clash, gen_ref(0, &[]));
                        }
                        other.required = other.props.keys().filter(|_| chance(40)).cloned().collect();
                        what = format!("merge of {} properties", other.props.len());
                        expected = merge_into(&mut reference, &other);
                        let object = as_object(&mut target.model);
                        actual = expect_ok("merge", || object.merge(other.to_opg())).is_ok();
                    } else {
                    match kind {
                        0 | 1 => {
                            let (name, value, required) = (prop_name(), gen_ref(1, &["X".to_owned()]), chance(50));
                            what = format!("add_property {:?}", name);
                            expected = !reference.props.contains_key(&name);
                            if expected {
                                reference.props.insert(name.clone(), value.clone());
                                if required {
                                    reference.required.push(name.clone());
                                }
                            }
                            let object = as_object(&mut target.model);
                            actual = expect_ok("add_property", || object.add_property(name, value.to_opg(), required)).is_ok();
                        }
                        2 => {
                            let other = gen_other(&reference);
                            what = format!("merge {:?}", other.props.keys().collect::<Vec<_>>());
                            expected = merge_into(&mut reference, &other);
                            let object = as_object(&mut target.model);
                            actual = expect_ok("merge", || object.merge(other.to_opg())).is_ok();
                        }
                        _ => {
                            if chance(25) {
                                // not an object
                                let other = loop {
                                    let m = gen_model(2, &[]);
                                    if !matches!(m.data, RData::Single(_, RType::Object { .. })) {
                                        break m;
                                    }
                                };
                                if chance(50) {
                                    what = "try_merge of something else".to_owned();
                                    expected = false;
                                    actual = expect_ok("try_merge", || target.model.try_merge(other.to_opg())).is_ok();
                                } else {
                                    what = "try_merge into something else".to_owned();
                                    expected = false;
                                    let mut model = other.to_opg();
                                    let addition = target.model.clone();
                                    actual = expect_ok("try_merge", || model.try_merge(addition)).is_ok();
                                    if to_val(&model).canon() != other.to_val().canon() {
                                        fail("modified", "a refused try_merge changed a schema that is no object");
                                    }
                                }
                            } else {
                                let other = gen_other(&reference);
                                what = format!("try_merge {:?}", other.props.keys().collect::<Vec<_>>());
                                expected = merge_into(&mut reference, &other);
                                let model = Model {
                                    description: opt(50, text),
                                    data: ModelData::Single(ModelType { nullable: chance(50), type_description: other.to_opg().into() }),
                                };
                                actual = expect_ok("try_merge", || target.model.try_merge(model)).is_ok();
                            }
                        }
                    }
                    }
                    note(format!("target {} {} -> {}", i, what, actual));
                    if actual != expected {
                        fail("verdict", format!("{} on properties {:?}: success is {}, expected {}", what, target.reference.props.keys(), actual, expected));
                    }
                    let after = to_val(&target.model);
                    if !actual {
                        count("fault.conflict");
                        if after != before {
                            fail("modified", format!("{} failed and changed the target: {}", what, after.diff(&before, "").unwrap_or_default()));
                        }
                        nontrivial();
                    } else {
                        for key in ["description", "nullable"] {
                            if after.get(key) != before.get(key) {
                                fail("modified", format!("{} changed the target's {}", what, key));
                            }
                        }
                    }
                    target.reference = reference;
                    let repeats = target.reference.repeats();
                    let now = object_val(as_object(&mut target.model), repeats);
                    let should = target.reference.to_val();
                    if now != should {
                        fail("content", format!("after {}: {}", what, now.diff(&should, "").unwrap_or_default()));
                    }
                }
            }) as Job
        })
        .collect();
    par(jobs);
}

fn as_object(model: &mut Model) -> &mut ModelObject {
    match &mut model.data {
        ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(object), .. }) => object,
        _ => fail("modified", "the target is no object any more"),
    }
}

pub const C11: Prop = Prop {
    id: "C11",
    run: c11,
    quick: 72_000,
    thorough: 1_600_000,
    rule: "runs with at least one refused composition, distinct by the hash of the full step trace",
    probes: &[],
};
