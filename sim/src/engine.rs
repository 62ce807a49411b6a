//! Forking runner, search, minimisation, replay and evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::rt::*;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub probes: &'static [(&'static str, fn(), &'static str)],
}

pub struct RunResult {
    pub status: u32,
    pub class: String,
    pub message: String,
    pub choices: Vec<u32>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub trace: Vec<String>,
}

pub struct Runner {
    shared: *mut Shared,
}

pub enum Input<'a> {
    Seed(u64),
    Script(&'a [u32]),
}

impl Runner {
    pub fn new() -> Runner {
        let shared = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        if shared == libc::MAP_FAILED {
            eprintln!("mmap failed");
            std::process::exit(2);
        }
        Runner { shared: shared as *mut Shared }
    }

    pub fn run(&self, body: fn(), input: Input<'_>, trace: bool) -> RunResult {
        let result = self.run_mode(body, &input, trace, false);
        if result.class == "blocked" {
            // A task may have been descheduled while the code under test held a lock of its own.
            // Only a run that blocks without any descheduling counts.
            let script = result.choices.clone();
            let serial = self.run_mode(body, &Input::Script(&script), trace, true);
            if serial.status == 1 {
                return RunResult { status: 4, ..result };
            }
            return RunResult { class: "deadlock".to_owned(), ..result };
        }
        result
    }

    fn run_mode(&self, body: fn(), input: &Input<'_>, trace: bool, serial: bool) -> RunResult {
        unsafe {
            let shared = &mut *self.shared;
            shared.status = 0;
            shared.nontrivial = 0;
            shared.steps = 0;
            shared.switches = 0;
            shared.sim_ns = 0;
            shared.trace_hash = 0;
            shared.sched_hash = 0;
            shared.n_choices = 0;
            shared.text_len = 0;
        }
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            unsafe {
                let limit = |what, n| {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(what, &l);
                };
                limit(libc::RLIMIT_CORE as _, 0);
                limit(libc::RLIMIT_CPU as _, 20);
                limit(libc::RLIMIT_AS as _, 4 << 30);
                libc::alarm(40);
                if !trace {
                    // a dying run must not clutter the output
                    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    if null >= 0 {
                        libc::dup2(null, 2);
                    }
                }
            }
            let source = match input {
                Input::Seed(seed) => Source::Seeded(Prng::new(*seed)),
                Input::Script(script) => Source::Script(script.to_vec(), 0),
            };
            execute(self.shared, source, RunOptions { budget: 60_000, trace, serial }, body);
        }
        let mut status = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut status, 0) };
            if r == pid || r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                break;
            }
        }
        let shared = unsafe { &*self.shared };
        let mut result = RunResult {
            status: shared.status,
            class: String::new(),
            message: String::new(),
            choices: shared.choices[..shared.n_choices as usize].to_vec(),
            steps: shared.steps,
            switches: shared.switches,
            sim_ns: shared.sim_ns,
            trace_hash: shared.trace_hash,
            sched_hash: shared.sched_hash,
            nontrivial: shared.nontrivial != 0,
            counters: BTreeMap::new(),
            samples: Vec::new(),
            trace: Vec::new(),
        };
        if shared.status == 0 {
            result.status = 2;
            if libc::WIFSIGNALED(status) {
                let signal = libc::WTERMSIG(status);
                let (class, message) = match signal {
                    libc::SIGALRM => ("blocked", "the run blocked"),
                    libc::SIGXCPU | libc::SIGKILL => ("hang", "the run did not end"),
                    libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS => ("process-death", "the process died (stack overflow or abort)"),
                    _ => ("process-death", "the process died"),
                };
                result.class = class.to_owned();
                result.message = format!("{}, signal {}", message, signal);
            } else {
                result.class = "process-death".to_owned();
                result.message = format!("the process exited unexpectedly with status {}", libc::WEXITSTATUS(status));
            }
            return result;
        }
        if let Ok(text) = serde_json::from_slice::<Value>(&shared.text[..shared.text_len as usize]) {
            result.class = text["class"].as_str().unwrap_or("").to_owned();
            result.message = text["message"].as_str().unwrap_or("").to_owned();
            if let Some(counters) = text["counters"].as_object() {
                result.counters = counters.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect();
            }
            let strings = |v: &Value| {
                v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_owned)).collect()).unwrap_or_default()
            };
            result.samples = strings(&text["samples"]);
            result.trace = strings(&text["trace"]);
        } else if result.status == 2 {
            result.class = "unreadable".to_owned();
        }
        result
    }
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(&[seed, hash_str(prop), index])
}

fn strip(mut choices: Vec<u32>) -> Vec<u32> {
    while choices.last() == Some(&0) {
        choices.pop();
    }
    choices
}

/// Shrink a failing choice sequence, keeping the violation class.
pub fn minimise(runner: &Runner, body: fn(), first: &RunResult, limit: Duration) -> (Vec<u32>, u64) {
    let start = Instant::now();
    let mut best = strip(first.choices.clone());
    let mut tries = 0u64;
    let class = first.class.clone();
    if class == "deadlock" || class == "hang" {
        return (best, 0);
    }
    let attempt = |candidate: &[u32], best: &mut Vec<u32>, tries: &mut u64| -> bool {
        *tries += 1;
        let result = runner.run(body, Input::Script(candidate), false);
        if result.status == 2 && result.class == class {
            let used = strip(result.choices);
            let smaller = |a: &[u32], b: &[u32]| {
                (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>())
            };
            if smaller(&used, best) {
                *best = used;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let out_of_time = || start.elapsed() > limit;
        // shorten
        let mut cut = best.len() / 2;
        while cut > 0 && !out_of_time() {
            let candidate = best[..best.len() - cut.min(best.len())].to_vec();
            if !attempt(&candidate, &mut best, &mut tries) {
                cut /= 2;
            } else {
                cut = cut.min(best.len());
            }
        }
        // delete chunks
        let mut size = (best.len() / 4).max(1);
        while size > 0 && !out_of_time() {
            let mut at = 0;
            while at < best.len() && !out_of_time() {
                let mut candidate = best.clone();
                candidate.drain(at..(at + size).min(best.len()));
                if !attempt(&candidate, &mut best, &mut tries) {
                    at += size;
                }
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        while size > 0 && !out_of_time() {
            let mut at = 0;
            while at < best.len() && !out_of_time() {
                let mut candidate = best.clone();
                let end = (at + size).min(best.len());
                if candidate[at..end].iter().any(|x| *x != 0) {
                    candidate[at..end].iter_mut().for_each(|x| *x = 0);
                    attempt(&candidate, &mut best, &mut tries);
                }
                at += size;
            }
            size /= 2;
        }
        // lower values
        let mut at = 0;
        while at < best.len() && !out_of_time() {
            for step in [2u32, 1] {
                while at < best.len() && best[at] > 0 && !out_of_time() {
                    let mut candidate = best.clone();
                    candidate[at] = if step == 2 { best[at] / 2 } else { best[at] - 1 };
                    if candidate[at] == best[at] || !attempt(&candidate, &mut best, &mut tries) {
                        break;
                    }
                }
            }
            at += 1;
        }
        if out_of_time() || best == before {
            return (best, tries);
        }
    }
}

#[derive(Default)]
pub struct Tally {
    pub runs: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub rerun: u64,
    pub rerun_mismatch: u64,
    pub blocked: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub traces: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub multi: u64,
}

impl Tally {
    fn add(&mut self, r: &RunResult) {
        self.runs += 1;
        self.steps += r.steps;
        self.switches += r.switches;
        self.sim_ns += r.sim_ns;
        for (k, v) in &r.counters {
            *self.counters.entry(k.clone()).or_insert(0) += v;
        }
        if r.nontrivial {
            self.traces.insert(r.trace_hash);
            if self.samples.len() < 4 && self.runs % 17 == 3 {
                self.samples.extend(r.samples.iter().take(2).cloned());
            }
        }
        if r.switches > 2 {
            self.multi += 1;
            self.schedules.insert(mix(&[r.sched_hash, r.trace_hash]));
        }
    }

    fn to_json(&self) -> Value {
        json!({
            "runs": self.runs, "steps": self.steps, "switches": self.switches, "sim_ns": self.sim_ns,
            "rerun": self.rerun, "rerun_mismatch": self.rerun_mismatch, "blocked": self.blocked,
            "multi": self.multi, "counters": self.counters, "samples": self.samples,
            "traces": self.traces.iter().collect::<Vec<_>>(),
            "schedules": self.schedules.iter().collect::<Vec<_>>(),
        })
    }

    fn merge(&mut self, v: &Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += n("runs");
        self.steps += n("steps");
        self.switches += n("switches");
        self.sim_ns += n("sim_ns");
        self.rerun += n("rerun");
        self.rerun_mismatch += n("rerun_mismatch");
        self.blocked += n("blocked");
        self.multi += n("multi");
        if let Some(c) = v["counters"].as_object() {
            for (k, x) in c {
                *self.counters.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
        for x in v["samples"].as_array().into_iter().flatten() {
            if self.samples.len() < 8 {
                self.samples.push(x.as_str().unwrap_or("").to_owned());
            }
        }
        for x in v["traces"].as_array().into_iter().flatten() {
            self.traces.insert(x.as_u64().unwrap_or(0));
        }
        for x in v["schedules"].as_array().into_iter().flatten() {
            self.schedules.insert(x.as_u64().unwrap_or(0));
        }
    }
}

/// Worker process: runs indices offset, offset+stride, ... below `total`; writes its tally to `out`.
pub fn worker(prop: &Prop, seed: u64, total: u64, offset: u64, stride: u64, seconds: u64, out: &Path) {
    let runner = Runner::new();
    let mut tally = Tally::default();
    let start = Instant::now();
    let mut violation = Value::Null;
    let mut index = offset;
    while index < total && start.elapsed() < Duration::from_secs(seconds) {
        let run = run_seed(seed, prop.id, index);
        let result = runner.run(prop.run, Input::Seed(run), false);
        match result.status {
            1 => tally.add(&result),
            4 => tally.blocked += 1,
            3 => {
                violation = json!({"harness": result.message, "index": index, "seed": run});
                break;
            }
            _ => {
                violation = json!({
                    "index": index, "seed": run, "class": result.class, "message": result.message,
                    "choices": result.choices,
                });
                break;
            }
        }
        if index % 64 == 7 {
            // one seed is one execution: seed and choice log must both repeat it exactly
            let again = runner.run(prop.run, Input::Seed(run), false);
            let script = runner.run(prop.run, Input::Script(&result.choices), false);
            tally.rerun += 2;
            for other in [&again, &script] {
                if other.trace_hash != result.trace_hash || other.choices != result.choices || other.status != result.status {
                    tally.rerun_mismatch += 1;
                }
            }
        }
        index += stride;
    }
    let mut report = tally.to_json();
    report["violation"] = violation;
    std::fs::write(out, report.to_string()).expect("write tally");
}

fn known(root: &Path) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (id, rest) = l.split_once(' ')?;
            let key = rest.strip_prefix("finding=")?.split(' ').next()?;
            Some((id.to_owned(), key.to_owned()))
        })
        .collect()
}

pub fn write_replay(root: &Path, prop: &str, seed: u64, index: i64, class: &str, message: &str, choices: &[u32], trace: &[String], extra: Value) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let tag = mix(&[hash_str(class), choices.iter().fold(7, |a, c| mix(&[a, *c as u64]))]) as u32;
    let path = dir.join(format!("{}-{:08x}.json", prop, tag));
    let value = json!({
        "property": prop, "run_seed": seed, "run_index": index, "class": class, "message": message,
        "choices": choices, "trace": trace, "how_to_replay": format!("bash /verif/check.sh replay {}", path.display()), "more": extra,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&value).unwrap());
    path
}

pub fn check(prop: &Prop, tier: &str, seed: u64, root: &Path, runs: Option<u64>, jobs: u64) -> i32 {
    let start = Instant::now();
    let runner = Runner::new();
    let mut violations = 0;
    let mut findings = Vec::new();
    let known = known(root);
    // directed probes for recorded findings
    for (key, body, what) in prop.probes {
        let result = runner.run(*body, Input::Script(&[]), false);
        match result.status {
            1 => {}
            2 if known.iter().any(|(id, k)| id == prop.id && k == key) => {
                println!("KNOWN-FINDING: property={} finding={} {} ({})", prop.id, key, what, result.message);
                findings.push(key.to_string());
            }
            2 => {
                let traced = runner.run(*body, Input::Script(&[]), true);
                let path = write_replay(root, prop.id, 0, -1, &format!("probe:{}", key), &result.message, &[], &traced.trace, Value::Null);
                println!("{}: {}", result.class, result.message);
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                violations += 1;
            }
            _ => {
                eprintln!("probe {} failed: {}", key, result.message);
                return 2;
            }
        }
    }
    let (total, seconds) = match tier {
        "thorough" => (runs.unwrap_or(prop.thorough), 840),
        _ => (runs.unwrap_or(prop.quick), 240),
    };
    let scratch = std::env::temp_dir().join(format!("opgsim-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    let mut children = (0..jobs)
        .map(|offset| {
            let out = scratch.join(format!("w{}.json", offset));
            let child = std::process::Command::new(&exe)
                .args(["worker", prop.id, &seed.to_string(), &total.to_string(), &offset.to_string(), &jobs.to_string(), &seconds.to_string()])
                .arg(&out)
                .spawn()
                .expect("spawn worker");
            (child, out, false)
        })
        .collect::<Vec<_>>();
    let mut tally = Tally::default();
    let mut found: Vec<Value> = Vec::new();
    let mut harness: Option<String> = None;
    while children.iter().any(|c| !c.2) {
        for (child, out, done) in children.iter_mut() {
            if *done {
                continue;
            }
            if let Ok(Some(status)) = child.try_wait() {
                *done = true;
                match std::fs::read_to_string(&*out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                    Some(report) => {
                        tally.merge(&report);
                        let v = &report["violation"];
                        if let Some(h) = v["harness"].as_str() {
                            harness = Some(format!("run {}: {}", v["index"], h));
                        } else if !v.is_null() {
                            found.push(v.clone());
                        }
                    }
                    None if !found.is_empty() => {}
                    None => harness = Some(format!("worker ended with {}", status)),
                }
            }
        }
        if !found.is_empty() || harness.is_some() {
            // one violation is enough
            for (child, _, done) in children.iter_mut().filter(|c| !c.2) {
                if start.elapsed() > Duration::from_secs(2) {
                    let _ = child.kill();
                    let _ = child.wait();
                    *done = true;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(message) = harness {
        if found.is_empty() {
            eprintln!("harness error: {}", message);
            return 2;
        }
    }
    found.sort_by_key(|v| v["index"].as_u64());
    let mut violation_note = Value::Null;
    if let Some(v) = found.first() {
        let choices = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect::<Vec<_>>();
        let first = runner.run(prop.run, Input::Script(&choices), false);
        let reproduced = first.status == 2 && first.class == v["class"].as_str().unwrap_or("");
        let (best, tries) = if reproduced {
            minimise(&runner, prop.run, &first, Duration::from_secs(if tier == "thorough" { 90 } else { 45 }))
        } else {
            (choices.clone(), 0)
        };
        let traced = runner.run(prop.run, Input::Script(&best), true);
        let again = runner.run(prop.run, Input::Script(&best), true);
        let exact = traced.trace_hash == again.trace_hash && traced.status == 2;
        let (class, message) = if traced.status == 2 {
            (traced.class.clone(), traced.message.clone())
        } else {
            (v["class"].as_str().unwrap_or("").to_owned(), v["message"].as_str().unwrap_or("").to_owned())
        };
        let extra = json!({
            "first_seen": {"index": v["index"], "seed": v["seed"], "choices": choices.len()},
            "minimised_to_choices": best.len(), "minimisation_runs": tries, "replays_exactly": exact,
        });
        let path = write_replay(
            root,
            prop.id,
            v["seed"].as_u64().unwrap_or(0),
            v["index"].as_i64().unwrap_or(0),
            &class,
            &message,
            &best,
            &traced.trace,
            extra.clone(),
        );
        println!("{}: {}", class, message);
        println!("first seen at run {} (seed {}), minimised from {} to {} choices, replays exactly: {}", v["index"], v["seed"], choices.len(), best.len(), exact);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        violations += 1;
        violation_note = extra;
    }
    let wall = start.elapsed().as_secs_f64();
    let faults = tally.counters.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>();
    let probes = tally.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>();
    let evidence = json!({
        "property": prop.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tally.runs,
            "distinct_nontrivial": tally.traces.len(),
            "rule": prop.rule,
            "samples": tally.samples,
            "runs_per_hour": (tally.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": tally.sim_ns as f64 / 1e9,
            "scheduler_steps": tally.steps,
            "context_switches": tally.switches,
            "runs_with_interleaving": tally.multi,
            "distinct_interleavings": tally.schedules.len(),
            "distinct_interleavings_measure": "hash of the sequence of (task, site) steps and of the positions and targets of all context switches, over runs with more than 2 switches",
            "faults_injected": faults,
            "situations_reached": probes,
            "repeat_runs_for_determinism": tally.rerun,
            "repeat_runs_that_differed": tally.rerun_mismatch,
            "runs_blocked_inconclusive": tally.blocked,
            "known_findings_reproduced": findings,
            "violation": violation_note,
            "real_code": if prop.id == "C12" { "opg_derive, syn, quote, proc_macro and rustc's macro expander (a real rustc process per compilation), opg as a dependency" } else { "opg (Components, models, macros, serde impls), opg_derive's generated code, serde, serde_json, serde_yaml, ciborium, std collections and panics" },
            "stubbed": if prop.id == "C12" { "serde's derive (an empty one, so that its attributes are known), getrandom of the compiler process, clock_gettime/gettimeofday/time/getpid/getenv as seen by the derive macro" } else { "user code called by the library (OpgModel impls, example expressions, ToString/Clone/From), io::Write/Serializer sinks, the callers' lock and scheduler, getrandom/clock_gettime/getenv/getpid" },
        },
        "assumptions": ["callers share a registry only behind a lock (its methods take &mut self)", "user code is deterministic given the run's universe unless a fault is injected"],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} distinct interleavings, {:.1} s, {} violation(s)",
        prop.id,
        tier,
        tally.runs,
        tally.traces.len(),
        tally.schedules.len(),
        wall,
        violations
    );
    if violations > 0 {
        1
    } else if tally.runs == 0 {
        2
    } else {
        0
    }
}

pub fn replay(props: &[Prop], path: &Path) -> i32 {
    let value: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    let id = value["property"].as_str().unwrap_or("");
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 2,
    };
    let class = value["class"].as_str().unwrap_or("");
    let choices = value["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect::<Vec<_>>()).unwrap_or_default();
    let body = match class.strip_prefix("probe:") {
        Some(key) => prop.probes.iter().find(|p| p.0 == key).map(|p| p.1).unwrap_or(prop.run),
        None => prop.run,
    };
    let result = Runner::new().run(body, Input::Script(&choices), true);
    for line in &result.trace {
        println!("{}", line);
    }
    if result.status == 2 {
        println!("{}: {}", result.class, result.message);
        println!("VIOLATION property={} replay={}", id, path.display());
        1
    } else {
        println!("not reproduced on this tree");
        0
    }
}
