//! C07, C08, C09, C14: whole builds - several in one process, under several environments, against a reference document,
//! again and again.

use super::*;
use crate::doc::*;
use crate::env;
use crate::sinks::*;
use crate::templates::{self, Values};
use crate::zoo_derive::{salted, RIVALS};

/// One step of building a description, and the number that the examples evaluated in it carry.
#[derive(Clone)]
struct Step(Kind, usize);

#[derive(Clone)]
enum Kind {
    Mention(Arc<Universe>, Mention),
    Declare(Decl),
    Template(usize, Values),
    /// another instantiation of a generic type, inlined or not
    Rival(usize, bool),
}

/// A description under construction, with every reference handed back on the way.
#[derive(Clone, Default)]
struct Live {
    opg: Opg,
    handed: Vec<Val>,
    parts: Vec<Opg>,
}

impl Live {
    fn step(&mut self, step: &Step) {
        salted(step.1, || self.apply(&step.0))
    }

    fn apply(&mut self, kind: &Kind) {
        match kind {
            Kind::Mention(universe, mention) => {
                let reference = mention.make(universe, &mut self.opg.components);
                self.handed.push(to_val(&reference));
            }
            Kind::Declare(decl) => decl.apply(&mut self.opg, &mut |_| {}),
            Kind::Rival(k, inline) => {
                let reference = RIVALS[*k](&mut self.opg.components, *inline, &Default::default());
                self.handed.push(to_val(&reference));
            }
            Kind::Template(t, v) => self.parts.push(templates::build(*t, v).0),
        }
    }

    fn bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        for format in [Format::Json, Format::Yaml, Format::Cbor] {
            out.extend(emit_bytes(&self.opg, format));
            for part in &self.parts {
                out.extend(emit_bytes(part, format));
            }
        }
        out.extend(format!("{:?}", self.opg.components.verify_schemas()).into_bytes());
        for val in &self.handed {
            out.extend(val.text().into_bytes());
        }
        out
    }
}

fn gen_steps(universe: &Arc<Universe>, style: &Style, n: usize, base: usize, salt: usize) -> Vec<Step> {
    // now and then very many of one kind
    let flood = if chance(6) {
        count("situation.flood_of_declarations");
        let kind = [0, 1, 2, 5, 6][draw(5)];
        (0..12 + draw(30)).map(|i| Kind::Declare(gen_decl_of(kind, base + 1000 + i, &["Leaf".to_owned()]))).collect()
    } else {
        vec![]
    };
    let steps = (0..n)
        .map(|i| match draw(8) {
            7 => Kind::Rival(draw(RIVALS.len()), chance(30)),
            0..=3 => Kind::Mention(universe.clone(), Mention::gen(universe, style)),
            6 => Kind::Template(draw(templates::TEMPLATES), templates::gen_values()),
            _ => Kind::Declare(gen_decl(base + i, &["Leaf".to_owned()])),
        })
        .collect::<Vec<_>>();
    steps.into_iter().chain(flood).map(|kind| Step(kind, salt)).collect()
}

fn steps_text(steps: &[Step]) -> String {
    steps
        .iter()
        .map(|s| match &s.0 {
            Kind::Mention(_, m) => format!("mention {}", m.text()),
            Kind::Declare(d) => {
                let d = format!("{:?}", d);
                d.split('(').next().unwrap_or("").to_owned()
            }
            Kind::Template(t, _) => format!("template {}", t),
            Kind::Rival(k, inline) => format!("rival {}{}", k, if *inline { " inline" } else { "" }),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn run_steps(steps: &[Step]) -> Live {
    let mut live = Live::default();
    steps.iter().for_each(|s| live.step(s));
    live
}

/// How many builds came before on this thread.
fn gen_storm() -> usize {
    if chance(25) {
        if chance(4) { 1100 } else { [1, 3, 20, 70, 150, 300][draw(6)] }
    } else {
        0
    }
}

fn c07() {
    // universes with equal names and different schemas
    let n = 2 + draw(3);
    let builds = (0..n)
        .map(|i| {
            let style = Style { tag: i, nodes: 4, ..Style::default() };
            let universe = Arc::new(gen_universe(&style));
            let n = 1 + draw(4);
            gen_steps(&universe, &style, n, 0, i)
        })
        .collect::<Vec<_>>();
    sample(builds.iter().map(|b| steps_text(b)).collect::<Vec<_>>().join(" | "));
    // each alone, in a process of its own
    let alone = builds.iter().map(|b| isolated(|| run_steps(b).bytes())).collect::<Vec<_>>();
    // a common ancestor and what continues from a clone of it
    let cut = draw(builds[0].len() + 1);
    let forked = builds[0][..cut].iter().chain(&builds[1]).cloned().collect::<Vec<_>>();
    let forked_alone = isolated(|| run_steps(&forked).bytes());
    let same = |what: &str, actual: &[u8], expected: &[u8]| {
        if actual != expected {
            fail("influence", format!("{} differs from the same build alone: {}", what, first_difference(actual, expected)));
        }
    };
    let jobs = (0..1 + draw(4))
        .map(|_| {
            let (builds, alone, forked_alone, same) = (&builds, &alone, &forked_alone, &same);
            Box::new(move || {
                let i = draw(builds.len());
                let many = gen_storm();
                let k = draw(builds.len());
                storm("a build", many, || drop(run_steps(&builds[k])));
                match draw(5) {
                    0 => {
                        note(format!("build {}", i));
                        let live = expect_ok("a build", || run_steps(&builds[i]));
                        same("a build interleaved with others", &live.bytes(), &alone[i]);
                    }
                    1 => {
                        // abandoned at some point, then again
                        let crash = gen_crash(90);
                        note(format!("build {} abandoned at {}", i, crash));
                        if let Outcome::Crashed = faulty("a build", crash, || run_steps(&builds[i])) {
                            count("situation.build_abandoned");
                        }
                        let live = expect_ok("a build", || run_steps(&builds[i]));
                        same("a build after an abandoned one", &live.bytes(), &alone[i]);
                    }
                    2 | 3 => {
                        // another build inside the user code of this one
                        let k = draw(builds.len());
                        let crash = gen_crash(30);
                        note(format!("build {} with build {} in its user code", i, k));
                        let inner = std::cell::RefCell::new(None);
                        let after = draw(12) as u64;
                        let live = {
                            nest(
                                after,
                                Box::new(|| {
                                    if let Outcome::Done(live) = faulty("a nested build", crash, || run_steps(&builds[k])) {
                                        *inner.borrow_mut() = Some(live);
                                    }
                                }),
                            );
                            let live = expect_ok("a build", || run_steps(&builds[i]));
                            unnest();
                            live
                        };
                        same("a build with another inside its user code", &live.bytes(), &alone[i]);
                        if let Some(inner) = inner.into_inner() {
                            same("a build inside the user code of another", &inner.bytes(), &alone[k]);
                        }
                    }
                    _ => {
                        note(format!("build 0 cloned after {} steps", cut));
                        let mut live = expect_ok("a build", || run_steps(&builds[0][..cut]));
                        let mut clone = live.clone();
                        let mut rest = builds[0][cut..].iter();
                        let mut other = builds[1].iter();
                        loop {
                            let (a, b) = if chance(50) { (rest.next(), None) } else { (None, other.next()) };
                            let (a, b) = match (a, b) {
                                (None, None) => (rest.next(), other.next()),
                                x => x,
                            };
                            if a.is_none() && b.is_none() {
                                break;
                            }
                            expect_ok("a build", || {
                                if let Some(s) = a {
                                    live.step(s);
                                }
                                if let Some(s) = b {
                                    clone.step(s);
                                }
                            });
                        }
                        count("situation.cloned");
                        same("a build that was cloned midway", &live.bytes(), &alone[0]);
                        same("a build that continued from a clone", &clone.bytes(), forked_alone);
                    }
                }
                nontrivial();
            }) as Job
        })
        .collect();
    par(jobs);
    // and once more when all others are over
    let i = draw(builds.len());
    let live = expect_ok("a build", || run_steps(&builds[i]));
    same("a build after all others", &live.bytes(), &alone[i]);
}

pub const C07: Prop = Prop {
    id: "C07",
    run: c07,
    quick: 24_000,
    thorough: 500_000,
    rule: "runs in which at least one build ran beside, inside or after others and was compared with the same build alone in a fresh process, distinct by the hash of the full step trace",
    probes: &[],
};

/// Allocations that shift every later address.
fn heap_noise() -> Vec<Vec<u8>> {
    let mut blocks = (0..draw(8)).map(|_| vec![1u8; 16 << draw(10)]).collect::<Vec<_>>();
    if chance(40) {
        // holes of the sizes that come next, in no order
        let mut holes = (0..draw(150)).map(|_| vec![1u8; 24 + draw(1500)]).collect::<Vec<_>>();
        shuffle(&mut holes);
        blocks.extend(holes.into_iter().enumerate().filter(|(i, _)| i % 3 != 0).map(|(_, b)| b));
    }
    blocks
}

/// Run `f` in a destructor that runs because of a panic.
pub fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Guard<'a, R, F: FnOnce() -> R>(Option<F>, &'a mut Option<R>);
    impl<R, F: FnOnce() -> R> Drop for Guard<'_, R, F> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                *self.1 = Some(expect_ok("a build in a destructor", f));
            }
        }
    }
    let mut result = None;
    let outcome = faulty("unwinding", -1, || {
        let _guard = Guard(Some(f), &mut result);
        std::panic::panic_any(SimPanic(2));
    });
    let _: Outcome<()> = outcome;
    result.unwrap_or_else(|| harness_error("the destructor did not run"))
}

fn c08() {
    let style = Style { nodes: 5, ..Style::default() };
    let universe = Arc::new(gen_universe(&style));
    let n = 1 + draw(6);
    let steps = gen_steps(&universe, &style, n, 0, 0);
    sample(steps_text(&steps));
    let dummy = gen_steps(&universe, &style, 2, 50, 7);
    let reads = |_: ()| env::READS.iter().map(|r| r.load(std::sync::atomic::Ordering::SeqCst)).collect::<Vec<_>>();
    let before = reads(());
    let first = isolated(|| run_steps(&steps).bytes());
    let same = |what: &str, actual: &[u8]| {
        if actual != &first[..] {
            fail("bytes-differ", format!("the same description gives other bytes {}: {}", what, first_difference(actual, &first)));
        }
    };
    for _ in 0..1 + draw(2) {
        let seed = draw(1 << 20) as u64;
        let bytes = isolated(|| {
            env::become_another_process(seed);
            env::enter(seed);
            // new threads draw their own hash seeds
            let bytes = std::thread::scope(|s| {
                let thread = std::thread::Builder::new().name(format!("worker-{}", seed)).stack_size(8 << 20 << seed % 3);
                thread
                    .spawn_scoped(s, || {
                        env::enter(seed);
                        quiet(|| run_steps(&steps).bytes())
                    })
                    .expect("spawn")
                    .join()
            });
            bytes.unwrap_or_default()
        });
        count("fault.environment_of_another_process");
        same("in another process", &bytes);
    }
    let jobs = (0..1 + draw(4))
        .map(|_| {
            let (steps, dummy, same) = (&steps, &dummy, &same);
            Box::new(move || {
                for _ in 0..1 + draw(2) {
                    let seed = draw(1 << 20) as u64;
                    env::enter(seed);
                    count("fault.environment_changed");
                    let noise = heap_noise();
                    for _ in 0..draw(3) {
                        count("situation.earlier_build");
                        let _ = faulty("a build", gen_crash(40), || run_steps(dummy));
                    }
                    let many = gen_storm();
                    storm("a build", many, || drop(run_steps(dummy)));
                    note(format!("build in environment {}", seed));
                    let live = if chance(15) {
                        count("situation.built_while_unwinding");
                        while_unwinding(|| run_steps(steps))
                    } else {
                        expect_ok("a build", || run_steps(steps))
                    };
                    if chance(30) {
                        env::enter(seed ^ 1);
                        count("fault.environment_changed_before_emission");
                    }
                    let bytes = if chance(15) {
                        count("situation.emitted_while_unwinding");
                        while_unwinding(|| live.bytes())
                    } else {
                        live.bytes()
                    };
                    same("in another environment", &bytes);
                    drop(noise);
                    env::leave();
                    nontrivial();
                }
            }) as Job
        })
        .collect();
    par(jobs);
    for ((name, a), b) in ["getrandom", "clock", "getpid", "getenv", "machine"].iter().zip(reads(())).zip(before) {
        count_n(&format!("ambient_reads.{}", name), a - b);
    }
}

pub const C08: Prop = Prop {
    id: "C08",
    run: c08,
    quick: 20_000,
    thorough: 500_000,
    rule: "runs in which the same description was built and emitted in at least three environments (hash seeds, clocks, environment variables, pid, thread, heap, history), distinct by the hash of the full step trace",
    probes: &[],
};

/// Emit as JSON through a sink that fails a few times, then parse what arrived.
fn emit_with_retries(opg: &Opg) -> Val {
    let whole = loop {
        let at = draw(6000);
        let fault = match draw(4) {
            0 | 1 => Fault::None,
            2 => Fault::Error(at, libc::EIO),
            _ => Fault::Panic(at),
        };
        let chop = if chance(40) { 1 + draw(1 << 20) as u64 } else { 0 };
        let mut writer = FaultyWriter::new(fault, chop, [0, 0, 9][draw(3)]);
        match faulty("emission", -1, || emit(opg, Format::Json, &mut writer)) {
            Outcome::Done(Ok(())) => break writer.accepted,
            _ if fault == Fault::None => fail("emit-error", "emission failed without a fault"),
            _ => count("fault.emission_retried"),
        }
    };
    match serde_json::from_slice::<Val>(&whole) {
        Ok(val) => val,
        Err(e) => fail("unreadable", format!("the document does not parse: {}", e)),
    }
}

fn c09() {
    if chance(35) {
        let jobs = (0..1 + draw(3))
            .map(|_| {
                Box::new(move || {
                    let v = templates::gen_values();
                    let t = draw(templates::TEMPLATES);
                    let opg = loop {
                        let crash = gen_crash(25);
                        note(format!("template {} crash {}", t, crash));
                        if let Outcome::Done((opg, _)) = faulty("describe_api", crash, || templates::build(t, &v)) {
                            break opg;
                        }
                        count("situation.build_abandoned");
                    };
                    compare_docs(&format!("template {}", t), &emit_with_retries(&opg), &templates::expected(t, &v));
                    nontrivial();
                }) as Job
            })
            .collect();
        par(jobs);
        return;
    }
    struct World {
        opg: Opg,
        done: Vec<Decl>,
        uses: Vec<Use>,
        tried: Vec<Use>, // mentions of attempts that crashed: may or may not have registered something
    }
    let n = size(1 + draw(7), &[25, 60, 120]);
    let mut decls = vec![Decl::Info(text(), opt(50, text), text())];
    decls.extend((0..n).map(|i| gen_decl(i, &["Leaf".to_owned(), "Manual1".to_owned()])));
    let world = SimMutex::new(World { opg: Opg::default(), done: vec![], uses: vec![], tried: vec![] });
    let check = |what: &str, world: &World| {
        let actual = emit_with_retries(&world.opg);
        let expected = expected_doc(&world.done, &world.uses);
        if world.tried.is_empty() {
            compare_docs(what, &actual, &expected);
            return;
        }
        // what crashed attempts mentioned may be there as well, complete
        let mut eval = DEval::default();
        world.tried.iter().for_each(|u| eval.mention(u));
        let empty = Val::Map(vec![]);
        let listed = |doc: &Val| doc.get("components").and_then(|c| c.get("schemas")).unwrap_or(&empty).entries().iter().cloned().collect::<Vec<_>>();
        let wanted = listed(&expected).into_iter().map(|e| e.0).collect::<BTreeSet<_>>();
        let mut extra = BTreeSet::new();
        for (name, schema) in listed(&actual) {
            if !wanted.contains(&name) && eval.registered.contains(&name[..]) && schema.canon() == crate::oracle::golden(&name).to_val().canon() {
                extra.insert(name);
            }
        }
        let mut actual = actual;
        if let Val::Map(doc) = &mut actual {
            for (key, value) in doc.iter_mut().filter(|e| e.0 == "components") {
                let _ = key;
                if let Val::Map(components) = value {
                    for (_, value) in components.iter_mut().filter(|e| e.0 == "schemas") {
                        if let Val::Map(schemas) = value {
                            schemas.retain(|e| !extra.contains(&e.0));
                        }
                    }
                    components.retain(|e| e.0 != "schemas" || !e.1.entries().is_empty());
                }
            }
        }
        compare_docs(what, &actual, &expected);
    };
    let crashy = chance(60);
    let jobs = {
        let mut dealt: Vec<Vec<Decl>> = (0..1 + draw(3)).map(|_| vec![]).collect();
        for d in decls {
            let k = draw(dealt.len());
            dealt[k].push(d);
        }
        dealt
    }
    .into_iter()
    .map(|mine| {
        let (world, check) = (&world, &check);
        Box::new(move || {
            for decl in mine {
                for _ in 0..3 {
                    let mut guard = world.lock();
                    let World { opg, done, uses, tried } = &mut *guard;
                    let crash = if crashy { gen_crash(40) } else { -1 };
                    let short = format!("{:?}", decl);
                    let short = short.split('(').next().unwrap_or("").to_owned();
                    note(format!("declare {} crash {}", short, crash));
                    let outcome = faulty("a declaration", crash, || decl.apply(opg, &mut |u| uses.push(u.clone())));
                    match outcome {
                        Outcome::Done(()) => {
                            done.push(decl.clone());
                            if n < 20 || chance(5) {
                                check(&format!("after declaring {}", short), &guard);
                            }
                            break;
                        }
                        Outcome::Crashed => {
                            count("situation.call_crashed");
                            decl.uses(&mut |u| tried.push(u.clone()));
                            if n < 20 || chance(5) {
                                check(&format!("after a failed declaration of {}", short), &guard);
                            }
                        }
                    }
                }
            }
        }) as Job
    })
    .collect();
    par(jobs);
    let world = world.into_inner();
    check("at the end", &world);
    if world.done.len() > 1 {
        nontrivial();
    }
    sample(to_val(&world.opg).text());
}

/// Two parameters of one operation with the same name at different locations.
fn same_name_parameters() {
    let opg = describe_api! {
        info: { title: "t", version: "v" },
        paths: { ("p"): { GET: { parameters: { (header "id"), (query id: u32) }, 200: None } } },
    };
    let doc = to_val(&opg);
    let list = doc.get("paths").and_then(|p| p.get("/p")).and_then(|p| p.get("get")).and_then(|g| g.get("parameters"));
    let n = match list {
        Some(Val::Seq(items)) => items.len(),
        _ => 0,
    };
    if n != 2 {
        fail("document-content", format!("header parameter `id` and query parameter `id` are declared, {} parameter(s) emitted", n));
    }
}

pub const C09: Prop = Prop {
    id: "C09",
    run: c09,
    quick: 32_000,
    thorough: 600_000,
    rule: "runs with at least two declarations or one whole description compared with the reference document, distinct by the hash of the full step trace",
    probes: &[(
        "same-name-parameters",
        same_name_parameters,
        "of two parameters with one name and different locations only the later one is emitted",
    )],
};

/// One of the things that a cycle of C14 repeats.
struct Effort {
    build: usize,
    crash: i64,
    clone_at: Option<usize>,
    emit: Option<(Option<Format>, Fault, u64)>,
    thread: bool,
}

impl Effort {
    fn gen(builds: usize) -> Effort {
        let at = draw(4000);
        let fault = match draw(6) {
            0 | 1 => Fault::None,
            2 => Fault::Error(at, libc::ENOSPC),
            3 => Fault::Zero(at),
            _ => Fault::Panic(at),
        };
        let format = if chance(60) { Some(FORMATS[draw(FORMATS.len())]) } else { None };
        Effort {
            build: draw(builds),
            crash: if chance(60) { draw(24) as i64 } else { -1 },
            clone_at: opt(30, || draw(4)),
            emit: opt(60, || (format, fault, draw(300) as u64)),
            thread: chance(10),
        }
    }

    fn text(&self) -> String {
        format!("build {} crash {} clone {:?} emit {:?} thread {}", self.build, self.crash, self.clone_at, self.emit, self.thread)
    }

    /// Returns how many panics and sink failures there were.
    fn run(&self, builds: &[Vec<Step>]) -> (u64, u64) {
        if self.thread {
            return std::thread::scope(|s| s.spawn(|| self.run_here(builds)).join()).unwrap_or_else(|_| harness_error("a thread died"));
        }
        self.run_here(builds)
    }

    fn run_here(&self, builds: &[Vec<Step>]) -> (u64, u64) {
        let (mut panics, mut failures) = (0, 0);
        let steps = &builds[self.build];
        let mut live = Live::default();
        let mut clone = None;
        let outcome = stormy("a build", self.crash, || {
            for (i, s) in steps.iter().enumerate() {
                if self.clone_at == Some(i) {
                    clone = Some(live.clone());
                }
                live.step(s);
                if let Some(clone) = &mut clone {
                    clone.step(s);
                }
            }
        });
        panics += matches!(outcome, Outcome::Crashed) as u64;
        if let Some((format, fault, at)) = &self.emit {
            let outcome = match format {
                Some(format) => {
                    let mut writer = FaultyWriter::new(*fault, 0, 0);
                    stormy("an emission", -1, || emit(&live.opg, *format, &mut writer).is_ok())
                }
                None => {
                    let trouble = match fault {
                        Fault::None => crate::val::Trouble::None,
                        Fault::Panic(_) => crate::val::Trouble::Panic(*at),
                        _ => crate::val::Trouble::Error(*at),
                    };
                    let rec = crate::val::Rec::new(trouble, 0, false);
                    stormy("an emission", -1, || serde::Serialize::serialize(&live.opg, rec).is_ok())
                }
            };
            match outcome {
                Outcome::Done(true) => {}
                _ => failures += 1,
            }
        }
        (panics, failures)
    }
}

fn c14() {
    let builds = (0..1 + draw(3))
        .map(|i| {
            let style = Style { tag: i, nodes: 4, ..Style::default() };
            let universe = Arc::new(gen_universe(&style));
            let n = 1 + draw(5);
            gen_steps(&universe, &style, n, 0, i)
        })
        .collect::<Vec<_>>();
    sample(builds.iter().map(|b| steps_text(b)).collect::<Vec<_>>().join(" | "));
    let efforts = (0..1 + draw(6)).map(|_| Effort::gen(builds.len())).collect::<Vec<_>>();
    for effort in &efforts {
        note(effort.text());
    }
    let cycles = [4, 4, 4, 12, 40][draw(5)];
    let (mut panics, mut failures) = (0, 0);
    let mut cycle = || {
        for effort in &efforts {
            let (p, f) = effort.run(&builds);
            panics += p;
            failures += f;
        }
    };
    // what is kept once and for all is there after a few rounds
    (0..3).for_each(|_| cycle());
    let before = crate::heap::live();
    (0..cycles).for_each(|_| cycle());
    let after = crate::heap::live();
    if after > before {
        fail(
            "memory-grows",
            format!("{} more rounds of the same builds and emissions left {} bytes in {} blocks behind", cycles, after.0 - before.0, after.1 - before.1),
        );
    }
    count_n("fault.panic_in_user_code.storm", panics);
    count_n("fault.sink_failure", failures);
    count_n("situation.storm_of_builds", (efforts.len() * (3 + cycles)) as u64);
    if panics + failures > 0 {
        nontrivial();
    }
}

pub const C14: Prop = Prop {
    id: "C14",
    run: c14,
    quick: 20_000,
    thorough: 400_000,
    rule: "runs in which at least one of the repeated builds or emissions failed, distinct by the hash of the full step trace",
    probes: &[],
};
