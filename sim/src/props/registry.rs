//! C02, C03, C04, C05, C10, C13: the schema registry under interleaved callers and crashing user code.

use std::cell::Cell;

use super::*;
use crate::doc::*;
use crate::templates;
use crate::zoo_derive::{self, limit_ticks, ticks};

/// One call on a shared registry.
#[derive(Clone, Debug)]
enum Call {
    Mention(Mention),
    Model(String, RModel),
    Scheme(String, RScheme),
    Builder(Vec<(usize, String)>),
}

impl Call {
    fn text(&self) -> String {
        match self {
            Call::Mention(m) => format!("mention {}", m.text()),
            Call::Model(n, _) => format!("add_model {:?}", n),
            Call::Scheme(n, _) => format!("mention_security_scheme {:?}", n),
            Call::Builder(_) => "operation builder".to_owned(),
        }
    }
}

/// Builder calls on an operation: a crashed one must leave it as it was.
fn builder_call(steps: &[(usize, String)], crash: i64) -> bool {
    let mut operation = Operation::default();
    let mut expected: [Option<String>; 3] = Default::default();
    for (i, (field, text)) in steps.iter().enumerate() {
        let after = if crash == i as i64 { 0 } else { -1 };
        let noisy = Noisy(text.clone());
        let outcome = faulty("builder", after, || {
            match field {
                0 => operation.with_summary(&noisy),
                1 => operation.with_operation_id(&noisy),
                _ => operation.with_description(&noisy),
            };
        });
        if let Outcome::Done(()) = outcome {
            expected[*field] = Some(text.clone());
        }
        let actual = [operation.summary.clone(), operation.operation_id.clone(), operation.description.clone()];
        if actual != expected {
            fail("builder", format!("after {} builder calls the operation has {:?}, expected {:?}", i + 1, actual, expected));
        }
    }
    true
}

fn gen_calls(universe: &Universe, style: &Style, n: usize) -> Vec<Call> {
    (0..n)
        .map(|i| match draw(8) {
            5 => Call::Model(format!("Manual{}", i), gen_model(2, &[])),
            6 => Call::Scheme(format!("scheme{}", i), RScheme::gen(&i.to_string())),
            7 => Call::Builder((0..1 + draw(3)).map(|_| (draw(3), text())).collect()),
            _ => Call::Mention(Mention::gen(universe, style)),
        })
        .collect()
}

/// Equal, or `actual` gives up (`{}`) where user code recovered from a crash.
fn lenient(actual: &Val, canon: &Val) -> bool {
    match (actual, canon) {
        (Val::Map(a), _) if a.is_empty() => true,
        (Val::Map(a), Val::Map(c)) => a.len() == c.len() && a.iter().zip(c).all(|(x, y)| x.0 == y.0 && lenient(&x.1, &y.1)),
        (Val::Seq(a), Val::Seq(c)) => a.len() == c.len() && a.iter().zip(c).all(|(x, y)| lenient(x, y)),
        (a, c) => a == c,
    }
}

fn deal<T>(items: Vec<T>, n: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = (0..n).map(|_| Vec::new()).collect();
    for item in items {
        out[draw(n)].push(item);
    }
    out
}

fn c02() {
    let style = Style { catch: chance(25), ..Style::default() };
    let universe = Arc::new(gen_universe(&style));
    let n = 2 + draw(7);
    let calls = gen_calls(&universe, &style, n);
    sample(format!("{}; calls: {:?}", universe.text(), calls.iter().map(Call::text).collect::<Vec<_>>()));
    let canon = Canon::of(&universe).with_derived();
    // names inserted by hand, and with what
    let manual = calls
        .iter()
        .filter_map(|c| match c {
            Call::Model(n, m) => Some((n.clone(), m.to_val().canon())),
            _ => None,
        })
        .collect::<BTreeMap<_, _>>();
    let sides = universe.side_schemes().map(|(n, s)| (n.clone(), s.to_val().canon())).collect::<BTreeMap<_, _>>();
    let registry = SimMutex::new(Components::new());
    let crashes = Cell::new(0u64);
    let attempt = |cx: &mut Components, call: &Call, crash: i64| -> bool {
        let before = (schemas(cx), schemes(cx));
        note(format!("{} crash {}", call.text(), crash));
        let outcome = match call {
            Call::Mention(m) => faulty("mention_schema", crash, || {
                m.make(&universe, cx);
            }),
            Call::Model(name, model) => faulty("add_model", crash, || cx.add_model(Noisy(name.clone()), model.to_opg())),
            Call::Scheme(name, scheme) => faulty("mention_security_scheme", crash, || {
                cx.mention_security_scheme(name.clone(), &NoisyScheme(scheme.clone()));
            }),
            Call::Builder(steps) => {
                builder_call(steps, crash);
                Outcome::Done(())
            }
        };
        let after = (schemas(cx), schemes(cx));
        for (name, schema) in &before.0 {
            if after.0.get(name) != Some(schema) {
                fail("prior-entry", format!("{}: schema {:?} recorded before the call changed or vanished", call.text(), name));
            }
        }
        for (name, scheme) in &before.1 {
            if after.1.get(name) != Some(scheme) {
                fail("prior-entry", format!("{}: security scheme {:?} recorded before the call changed or vanished", call.text(), name));
            }
        }
        for (name, schema) in &after.0 {
            let expected = match canon.schemas.get(name).or_else(|| manual.get(name)) {
                Some(x) => x,
                None => fail("unknown-entry", format!("{}: schema {:?} appeared", call.text(), name)),
            };
            let same = if style.catch { lenient(&schema.canon(), expected) } else { schema.canon() == *expected };
            if !same {
                fail(
                    "incomplete-entry",
                    format!("{}: schema {:?} is not the type's own: {}", call.text(), name, schema.canon().diff(expected, "").unwrap_or_default()),
                );
            }
        }
        check_closed(&call.text(), &after.0);
        match outcome {
            Outcome::Done(()) => {
                if let Call::Scheme(name, scheme) = call {
                    if after.1.get(name).map(Val::canon) != Some(scheme.to_val().canon()) {
                        fail("scheme", format!("security scheme {:?} was not recorded", name));
                    }
                }
                true
            }
            Outcome::Crashed => {
                crashes.set(crashes.get() + 1);
                count("situation.call_crashed");
                for (name, scheme) in after.1.iter().filter(|s| !before.1.contains_key(s.0)) {
                    // schema code that ran to the end of its own scheme mention may have left that, complete
                    if !matches!(call, Call::Mention(_)) || sides.get(name) != Some(&scheme.canon()) {
                        fail("scheme", "a crashed call left a security scheme behind");
                    }
                }
                false
            }
        }
    };
    let left = SimMutex::new(Vec::new());
    let tasks = 1 + draw(3);
    let jobs = deal(calls.clone(), tasks)
        .into_iter()
        .map(|calls| {
            let (registry, left, attempt) = (&registry, &left, &attempt);
            Box::new(move || {
                for call in calls {
                    let mut tries = 0;
                    loop {
                        let crash = if tries < 3 { gen_crash(60) } else { -1 };
                        let done = attempt(&mut registry.lock(), &call, crash);
                        if done {
                            break;
                        }
                        tries += 1;
                        if chance(40) {
                            // another caller, or nobody, retries later
                            left.lock().push(call);
                            break;
                        }
                    }
                }
            }) as Job
        })
        .collect();
    par(jobs);
    let mut left = left.into_inner();
    let mut cx = registry.into_inner();
    shuffle(&mut left);
    for call in &left {
        if !attempt(&mut cx, call, -1) {
            fail("panic", "a call crashed without a fault");
        }
    }
    if crashes.get() > 0 {
        nontrivial();
    }
    // the faults are gone: the result of a history without faults
    let mut expect = Expect::new(&universe);
    calls.iter().for_each(|c| {
        if let Call::Mention(m) = c {
            expect.mention(m)
        }
    });
    let mut names = expect.names();
    names.extend(manual.keys().cloned());
    let after = schemas(&cx);
    if style.catch {
        if let Some(name) = after.keys().find(|n| !names.contains(*n)) {
            fail("registered-names", format!("schema {:?} was never mentioned", name));
        }
    } else {
        check_names("after all calls succeeded", &after, &names);
    }
    let mut expected_schemes = calls
        .iter()
        .filter_map(|c| match c {
            Call::Scheme(n, s) => Some((n.clone(), s.to_val().canon())),
            _ => None,
        })
        .collect::<BTreeMap<_, _>>();
    let mut actual = schemes(&cx).into_iter().map(|(k, v)| (k, v.canon())).collect::<BTreeMap<_, _>>();
    if style.catch {
        // user code that recovers may have been kept from mentioning them
        actual.retain(|k, v| sides.get(k) != Some(v));
    } else {
        expected_schemes.extend(expect.node.schemes);
    }
    if actual != expected_schemes {
        fail("scheme", format!("security schemes are {:?}", actual.keys()));
    }
}

pub const C02: Prop = Prop {
    id: "C02",
    run: c02,
    quick: 56_000,
    thorough: 1_200_000,
    rule: "runs in which at least one call was crashed inside user code, distinct by the hash of the full step trace",
    probes: &[],
};

fn c03() {
    let style = Style::default();
    let universe = Arc::new(gen_universe(&style));
    let n = size(1 + draw(8), &[30, 60]);
    let mentions = (0..n).map(|_| Mention::gen(&universe, &style)).collect::<Vec<_>>();
    sample(format!("{}; mentions: {:?}", universe.text(), mentions.iter().map(Mention::text).collect::<Vec<_>>()));
    let canon = Canon::reference(&universe);
    let solo = mentions.iter().map(|m| m.reference(&universe)).collect::<Vec<_>>();
    let mut expect = Expect::new(&universe);
    mentions.iter().for_each(|m| expect.mention(m));
    let names = expect.names();
    for round in 0..2 {
        let mut order = (0..n).collect::<Vec<_>>();
        shuffle(&mut order);
        // some are made again by someone else
        for _ in 0..draw(3) {
            order.push(draw(n));
        }
        let registry = SimMutex::new(Components::new());
        let tasks = 1 + draw(4);
        let jobs = deal(order, tasks)
            .into_iter()
            .map(|mine| {
                let (registry, mentions, solo, universe) = (&registry, &mentions, &solo, &universe);
                Box::new(move || {
                    for i in mine {
                        let reference = expect_ok("mention_schema", || mentions[i].make(universe, &mut registry.lock()));
                        let val = to_val(&reference).canon();
                        note(format!("mention {}", mentions[i].text()));
                        if val != solo[i] {
                            fail(
                                "reference",
                                format!("mention {} returned another reference than the type and the use site call for: {}", mentions[i].text(), val.diff(&solo[i], "").unwrap_or_default()),
                            );
                        }
                    }
                }) as Job
            })
            .collect();
        par(jobs);
        let cx = registry.into_inner();
        let after = schemas(&cx);
        let what = format!("round {}", round);
        check_names(&what, &after, &names);
        canon.check(&what, &after, &BTreeSet::new());
        if schemes(&cx).into_iter().map(|(k, v)| (k, v.canon())).collect::<BTreeMap<_, _>>() != expect.node.schemes {
            fail("schemes", format!("{}: security schemes are {:?}", what, schemes(&cx).keys()));
        }
    }
    if n > 1 {
        nontrivial();
    }
}

pub const C03: Prop = Prop {
    id: "C03",
    run: c03,
    quick: 48_000,
    thorough: 800_000,
    rule: "runs with at least two mentions (each made in two random orders and interleavings), distinct by the hash of the full step trace",
    probes: &[],
};

fn doc_closed(what: &str, opg: &Opg) {
    let bytes = crate::sinks::emit_bytes(opg, crate::sinks::Format::Json);
    let doc = match serde_json::from_slice::<Val>(&bytes) {
        Ok(doc) => doc,
        Err(e) => fail("unreadable", format!("{}: the document does not parse: {}", what, e)),
    };
    let empty = Val::Map(vec![]);
    let schemas = doc.get("components").and_then(|c| c.get("schemas")).unwrap_or(&empty);
    let names = schemas.entries().iter().map(|(k, _)| (k.clone(), ())).collect::<BTreeMap<_, _>>();
    if let Some(link) = dangling(&doc, &names) {
        fail("dangling-link", format!("{}: the emitted document contains {:?}, its schemas are {:?}", what, link, names.keys()));
    }
}

fn c04() {
    if chance(30) {
        // whole descriptions
        let v = templates::gen_values();
        let jobs = (0..1 + draw(3))
            .map(|_| {
                let v = &v;
                Box::new(move || {
                    let t = draw(templates::TEMPLATES);
                    let crash = gen_crash(30);
                    note(format!("template {} crash {}", t, crash));
                    if let Outcome::Done((opg, _)) = faulty("describe_api", crash, || templates::build(t, v)) {
                        doc_closed(&format!("template {}", t), &opg);
                        nontrivial();
                    }
                }) as Job
            })
            .collect();
        par(jobs);
        return;
    }
    let style = Style { catch: chance(25), ..Style::default() };
    let universe = Arc::new(gen_universe(&style));
    let n = 1 + draw(8);
    let mentions = (0..n).map(|_| Mention::gen(&universe, &style)).collect::<Vec<_>>();
    sample(format!("{}; mentions: {:?}", universe.text(), mentions.iter().map(Mention::text).collect::<Vec<_>>()));
    let shared = SimMutex::new(Opg::default());
    let crashy = chance(60);
    let jobs = deal(mentions, 1 + draw(3))
        .into_iter()
        .map(|mine| {
            let (shared, universe) = (&shared, &universe);
            Box::new(move || {
                for (i, mention) in mine.into_iter().enumerate() {
                    let mut opg = shared.lock();
                    let crash = if crashy { gen_crash(50) } else { -1 };
                    note(format!("mention {} crash {}", mention.text(), crash));
                    let outcome = faulty("mention_schema", crash, || mention.make(universe, &mut opg.components));
                    let registry = schemas(&opg.components);
                    check_closed(&format!("after mention {}", mention.text()), &registry);
                    match outcome {
                        Outcome::Done(reference) => {
                            if let Some(link) = dangling(&to_val(&reference), &registry) {
                                fail("dangling-link", format!("mention {} returned a reference to {:?}", mention.text(), link));
                            }
                            // use it
                            let mut value = PathValue::default();
                            let mut operation = Operation::default();
                            operation.responses.insert(200, Response { description: String::new(), schema: Some(reference.clone()) });
                            operation.parameters.insert(
                                "p".to_owned(),
                                OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(reference.clone()) },
                            );
                            operation.with_request_body(RequestBody { description: Some(String::new()), required: true, schema: reference });
                            value.operations.insert(method(i % 8), operation);
                            opg.paths.push((opg::Path(vec![PathElement::Path(format!("p{}", i))]), value));
                            nontrivial();
                        }
                        Outcome::Crashed => count("situation.call_crashed"),
                    }
                    doc_closed(&format!("after mention {}", mention.text()), &opg);
                }
            }) as Job
        })
        .collect();
    par(jobs);
}

pub const C04: Prop = Prop {
    id: "C04",
    run: c04,
    quick: 96_000,
    thorough: 800_000,
    rule: "runs in which at least one mention or build returned and its registry, reference and document were checked, distinct by the hash of the full step trace",
    probes: &[],
};

fn c05() {
    let style = Style { nodes: 5, side: 1, ..Style::default() };
    // two universes whose types have equal names and different schemas
    let a = Arc::new(gen_universe(&Style { tag: 1, ..style }));
    let b = Arc::new(gen_universe(&Style { tag: 2, ..style }));
    let canons = [Canon::of(&a), Canon::of(&b)];
    let universes = [a, b];
    let mut pool = vec!["N0".to_owned(), "N1".to_owned(), "N2".to_owned(), "Other".to_owned(), "n0".to_owned(), "".to_owned(), "N0 ".to_owned()];
    for u in &universes {
        pool.extend(u.names().into_iter().flatten());
    }
    pool.sort();
    pool.dedup();
    let mut start = (Components::new(), BTreeMap::<String, Val>::new(), BTreeMap::<String, Val>::new());
    // much is bound already
    let many = size(0, &[15, 40, 130, 300]);
    for i in 0..many {
        let name = format!("{} {}", pick(&["M", "a", "~"]), i);
        let mut model = gen_model(1, &[]);
        model.description = Some(format!("many {}", i));
        let scheme = RScheme::gen(&i.to_string());
        quiet(|| {
            start.0.add_model(name.clone(), model.to_opg());
            start.0.mention_security_scheme(name.clone(), &NoisyScheme(scheme.clone()));
        });
        start.1.insert(name.clone(), model.to_val().canon());
        start.2.insert(name.clone(), scheme.to_val().canon());
        if chance(30) {
            pool.push(name);
        }
    }
    let shared = SimMutex::new(start);
    let serial = Cell::new(0u64);
    let crashy = chance(40);
    let tasks = 1 + draw(4);
    let per_task = 2 + draw(6);
    let jobs = (0..tasks)
        .map(|_| {
            let (shared, universes, canons, pool, serial, style) = (&shared, &universes, &canons, &pool, &serial, &style);
            Box::new(move || {
                for _ in 0..per_task {
                    let mut guard = shared.lock();
                    let (cx, model, scheme_model) = &mut *guard;
                    let crash = if crashy { gen_crash(30) } else { -1 };
                    serial.set(serial.get() + 1);
                    let mut what;
                    match draw(9) {
                        0..=2 => {
                            let name = pick(pool).clone();
                            let mut rmodel = gen_model(1, &[]);
                            if chance(85) {
                                rmodel.description = Some(format!("manual {}", serial.get()));
                            }
                            what = format!("add_model {:?}", name);
                            note(format!("{} crash {}", what, crash));
                            let outcome = faulty("add_model", crash, || cx.add_model(Noisy(name.clone()), rmodel.to_opg()));
                            if let Outcome::Done(()) = outcome {
                                if model.contains_key(&name) {
                                    count("situation.insertion_lost");
                                }
                                model.entry(name).or_insert_with(|| rmodel.to_val().canon());
                            }
                        }
                        3..=5 => {
                            let which = draw(2);
                            let universe = &universes[which];
                            let mut edge = gen_edge(&universe.names(), None, style, false);
                            edge.newtype = false;
                            what = format!("mention {} of universe {}", edge.text(), which + 1);
                            note(format!("{} crash {}", what, crash));
                            let mut expect = Expect::knowing(universe, model);
                            let mention = Mention::Node(edge.clone());
                            expect.mention(&mention);
                            let outcome = faulty("mention_schema", crash, || mention.make(universe, cx));
                            let actual = schemas(cx);
                            match outcome {
                                Outcome::Done(_) => check_names(&what, &actual, &expect.node.registered),
                                Outcome::Crashed => {
                                    count("situation.call_crashed");
                                    if let Some(name) = actual.keys().find(|n| !expect.node.registered.contains(*n)) {
                                        fail("registered-names", format!("{}: {:?} appeared", what, name));
                                    }
                                }
                            }
                            for name in actual.keys() {
                                if !model.contains_key(name) {
                                    model.insert(name.clone(), canons[which].schemas[name].clone());
                                }
                            }
                        }
                        6 | 7 => {
                            let name = pick(pool).clone();
                            let rscheme = RScheme::gen(&serial.get().to_string());
                            what = format!("mention_security_scheme {:?}", name);
                            note(format!("{} crash {}", what, crash));
                            let outcome = faulty("mention_security_scheme", crash, || cx.mention_security_scheme(name.clone(), &NoisyScheme(rscheme.clone())));
                            if let Outcome::Done(back) = outcome {
                                if back != name {
                                    fail("scheme-name", format!("{} returned {:?}", what, back));
                                }
                                scheme_model.entry(name).or_insert_with(|| rscheme.to_val().canon());
                            }
                        }
                        _ => {
                            what = "read".to_owned();
                            note("read");
                            let _ = cx.verify_schemas();
                            crate::sinks::emit_bytes(cx, crate::sinks::Format::Json);
                        }
                    }
                    for (name, schema) in schemas(cx) {
                        match model.get(&name) {
                            Some(bound) if *bound == schema.canon() => {}
                            Some(bound) => fail(
                                "binding",
                                format!("after {}: {:?} is bound to another schema than the first one: {}", what, name, schema.canon().diff(bound, "").unwrap_or_default()),
                            ),
                            None => fail("binding", format!("after {}: {:?} is bound though nothing bound it", what, name)),
                        }
                    }
                    for name in model.keys() {
                        if !cx.schemas.contains_key(name) {
                            fail("binding", format!("after {}: {:?} lost its binding", what, name));
                        }
                    }
                    let actual = schemes(cx).into_iter().map(|(k, v)| (k, v.canon())).collect::<BTreeMap<_, _>>();
                    if actual != *scheme_model {
                        fail("scheme-binding", format!("after {}: security schemes are {:?}, expected {:?}", what, actual, scheme_model));
                    }
                    what.push_str(", membership");
                    for name in pool {
                        if cx.contains_model(name) != model.contains_key(name) {
                            fail("membership", format!("{}: contains_model({:?}) is {}", what, name, cx.contains_model(name)));
                        }
                    }
                    drop(guard);
                }
            }) as Job
        })
        .collect();
    par(jobs);
    let (cx, model, _) = shared.into_inner();
    // emission agrees with the map
    let emitted = to_val(&cx).canon();
    let listed = emitted.get("schemas").map(|s| s.entries().iter().cloned().collect::<BTreeMap<_, _>>()).unwrap_or_default();
    if listed != model {
        fail("emission", format!("emitted schemas {:?}, bound {:?}", listed.keys(), model.keys()));
    }
    let mut links = Vec::new();
    model.values().for_each(|m| refs(m, &mut links));
    let open = links.iter().any(|l| l.strip_prefix(PREFIX).map_or(true, |n| !model.contains_key(n)));
    if cx.verify_schemas().is_err() != open {
        fail("verification", format!("verify_schemas gives {:?}, links {:?}", cx.verify_schemas(), links));
    }
    if tasks > 1 || per_task > 2 {
        nontrivial();
    }
    sample(format!("{} callers x {} calls on names {:?}; bound at the end: {:?}", tasks, per_task, pool, model.keys().collect::<Vec<_>>()));
}

pub const C05: Prop = Prop {
    id: "C05",
    run: c05,
    quick: 60_000,
    thorough: 1_000_000,
    rule: "runs with more than one caller or more than two calls on a shared registry, distinct by the hash of the full step trace",
    probes: &[],
};

fn c10() {
    let style = Style { cyclic: true, ..Style::default() };
    let universe = Arc::new(gen_universe(&style));
    let n = 1 + draw(6);
    let mentions = (0..n).map(|_| Mention::gen(&universe, &style)).collect::<Vec<_>>();
    sample(format!("{}; mentions: {:?}", universe.text(), mentions.iter().map(Mention::text).collect::<Vec<_>>()));
    let registry = SimMutex::new(Components::new());
    let crashy = chance(60);
    let jobs = deal(mentions, 1 + draw(3))
        .into_iter()
        .map(|mine| {
            let (registry, universe) = (&registry, &universe);
            Box::new(move || {
                for mention in mine {
                    let mut tries = 0;
                    loop {
                        let mut cx = registry.lock();
                        let mut expect = Expect::knowing(universe, &cx.schemas);
                        expect.mention(&mention);
                        let bound = 4 * (expect.node.total + expect.derived.total) + 16;
                        let crash = if crashy && tries < 3 { gen_crash(60) } else { -1 };
                        note(format!("mention {} crash {} bound {}", mention.text(), crash, bound));
                        limit_ticks(bound);
                        let outcome = faulty("mention_schema", crash, || match &mention {
                            Mention::Node(edge) => activate(universe, |active| {
                                active.limit.set(bound);
                                edge.mention(&mut cx)
                            }),
                            Mention::Derived(u) => u.mention(&mut cx),
                        });
                        limit_ticks(u64::MAX);
                        // both walk the whole, possibly cyclic, registry
                        let _ = cx.verify_schemas();
                        let mut sink = Vec::new();
                        let _ = crate::sinks::emit(&*cx, crate::sinks::Format::Json, &mut sink);
                        if let Outcome::Done(_) = outcome {
                            break;
                        }
                        count("situation.call_crashed");
                        tries += 1;
                    }
                }
            }) as Job
        })
        .collect();
    par(jobs);
    // a link back to a node that is being registered
    let cyclic = (0..universe.nodes.len()).any(|i| {
        let mut seen = BTreeSet::new();
        let mut todo = vec![i];
        let mut first = true;
        while let Some(at) = todo.pop() {
            if !first && at == i {
                return true;
            }
            first = false;
            if seen.insert(at) || at == i {
                todo.extend(universe.nodes[at].shape.edges().iter().map(|e| e.node).filter(|t| !seen.contains(t) || *t == i));
            }
        }
        false
    });
    if cyclic {
        nontrivial();
        count("situation.cyclic_type_graph");
    }
}

pub const C10: Prop = Prop {
    id: "C10",
    run: c10,
    quick: 120_000,
    thorough: 800_000,
    rule: "runs over a type graph with at least one cycle, distinct by the hash of the full step trace",
    probes: &[],
};

fn c13() {
    // only the number of evaluations matters, the texts may be anything
    let texts = if chance(50) { 0 } else { zoo_derive::ODD + draw(5) };
    if chance(35) {
        let v = templates::gen_values();
        let jobs = (0..1 + draw(3))
            .map(|_| {
                let v = &v;
                Box::new(move || {
                    let t = draw(templates::TEMPLATES);
                    note(format!("template {}", t));
                    let ((_, counts), ran) = ticks(|| zoo_derive::salted(texts, || expect_ok("describe_api", || templates::build(t, v))));
                    let expected = templates::expressions(t);
                    for name in expected.iter().chain(counts.keys()) {
                        let n = counts.get(name).copied().unwrap_or(0);
                        if n != 1 || !expected.contains(name) {
                            fail("expression-count", format!("template {}: expression {:?} was evaluated {} times", t, name, n));
                        }
                    }
                    let types = templates::ticks_of(t);
                    if ran != types {
                        fail("schema-code-count", format!("template {}: schema code ran {:?}, expected {:?}", t, ran, types));
                    }
                    nontrivial();
                }) as Job
            })
            .collect();
        par(jobs);
        return;
    }
    let style = Style::default();
    let universe = Arc::new(gen_universe(&style));
    let n = size(1 + draw(8), &[30, 60]);
    let mut mentions = (0..n).map(|_| Mention::gen(&universe, &style)).collect::<Vec<_>>();
    // popular ones
    for _ in 0..draw(4) {
        let again = pick(&mentions).clone();
        mentions.push(again);
    }
    shuffle(&mut mentions);
    sample(format!("{}; mentions: {:?}", universe.text(), mentions.iter().map(Mention::text).collect::<Vec<_>>()));
    let mut expect = Expect::new(&universe);
    mentions.iter().for_each(|m| expect.mention(m));
    let registry = SimMutex::new(Components::new());
    let total = SimMutex::new((vec![[0u64; 2]; NODES], BTreeMap::<&'static str, u64>::new()));
    let jobs = deal(mentions.clone(), 1 + draw(3))
        .into_iter()
        .map(|mine| {
            let (registry, universe, total) = (&registry, &universe, &total);
            Box::new(move || {
                for mention in mine {
                    let mut cx = registry.lock();
                    let mut step = Expect::knowing(universe, &cx.schemas);
                    step.mention(&mention);
                    note(format!("mention {}", mention.text()));
                    let (calls, ran) = expect_ok("mention_schema", || {
                        ticks(|| {
                            activate(universe, |active| {
                                match &mention {
                                    Mention::Node(edge) => edge.mention(&mut cx),
                                    Mention::Derived(u) => zoo_derive::salted(texts, || u.mention(&mut cx)),
                                };
                                active.calls.borrow().clone()
                            })
                        })
                    });
                    if calls != step.node.calls {
                        fail(
                            "schema-code-count",
                            format!("mention {}: schema code of the nodes ran {:?} times, expected {:?}", mention.text(), calls, step.node.calls),
                        );
                    }
                    if ran != step.derived.ticks {
                        fail("schema-code-count", format!("mention {}: example expressions ran {:?}, expected {:?}", mention.text(), ran, step.derived.ticks));
                    }
                    drop(cx);
                    let mut total = total.lock();
                    for (i, c) in calls.iter().enumerate() {
                        total.0[i][0] += c[0];
                        total.0[i][1] += c[1];
                    }
                    for (k, v) in ran {
                        *total.1.entry(k).or_insert(0) += v;
                    }
                }
            }) as Job
        })
        .collect();
    par(jobs);
    let total = total.into_inner();
    if total.0 != expect.node.calls || total.1 != expect.derived.ticks {
        fail("schema-code-count", format!("over all callers schema code ran {:?} and {:?}", total.0, total.1));
    }
    if n > 1 {
        nontrivial();
    }
}

pub const C13: Prop = Prop {
    id: "C13",
    run: c13,
    quick: 120_000,
    thorough: 800_000,
    rule: "runs with at least two mentions or one whole description whose evaluations were counted, distinct by the hash of the full step trace",
    probes: &[],
};
