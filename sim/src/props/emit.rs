//! C01: emission into sinks that misbehave.

use serde::Serialize;

use super::*;
use crate::doc::*;
use crate::sinks::*;
use crate::templates;
use crate::val::{Rec, Trouble, INJECTED};

/// What is emitted: the description or a part of it.
enum Part {
    Whole(Opg),
    Components(Components),
    Schema(Model),
    Path(PathValue),
    Operation(Operation),
    Reference(ModelReference),
}

impl Serialize for Part {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Part::Whole(x) => x.serialize(s),
            Part::Components(x) => x.serialize(s),
            Part::Schema(x) => x.serialize(s),
            Part::Path(x) => x.serialize(s),
            Part::Operation(x) => x.serialize(s),
            Part::Reference(x) => x.serialize(s),
        }
    }
}

pub fn gen_opg() -> Opg {
    let mut opg = Opg::default();
    let names = ["Leaf".to_owned()];
    quiet(|| {
        Decl::Info(text(), opt(50, text), text()).apply(&mut opg, &mut |_| {});
        for i in 0..size(draw(5), &[20, 40]) {
            gen_decl(i, &names).apply(&mut opg, &mut |_| {});
        }
    });
    opg
}

fn gen_part() -> Part {
    let mut opg = if chance(20) {
        let v = templates::gen_values();
        let t = draw(templates::TEMPLATES);
        quiet(|| templates::build(t, &v).0)
    } else {
        gen_opg()
    };
    match draw(8) {
        1 => Part::Components(opg.components),
        2 if !opg.components.schemas.is_empty() => {
            let n = draw(opg.components.schemas.len());
            Part::Schema(opg.components.schemas.into_iter().nth(n).unwrap().1)
        }
        3 if !opg.paths.is_empty() => {
            let n = draw(opg.paths.len());
            Part::Path(opg.paths.swap_remove(n).1)
        }
        4 if opg.paths.iter().any(|p| !p.1.operations.is_empty()) => {
            let operations = opg.paths.into_iter().flat_map(|p| p.1.operations.into_iter().map(|o| o.1)).collect::<Vec<_>>();
            let n = draw(operations.len());
            Part::Operation(operations[n].clone())
        }
        5 => Part::Reference(gen_ref(3, &["Leaf".to_owned()]).to_opg()),
        _ => Part::Whole(opg),
    }
}

const ERRNOS: [i32; 6] = [libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EBADF, libc::EDQUOT];

fn c01() {
    let part = gen_part();
    let clean = FORMATS.iter().map(|f| emit_bytes(&part, *f)).collect::<Vec<_>>();
    let (full_log, total) = {
        let rec = Rec::new(Trouble::None, 0, true);
        let state = rec.0.clone();
        if let Err(e) = part.serialize(rec) {
            fail("emit-error", format!("emission without faults failed: {}", e));
        }
        let state = state.borrow();
        if !state.bad_lengths.is_empty() {
            fail("announced-length", format!("announced lengths are wrong: {:?}", state.bad_lengths));
        }
        (state.log.clone(), state.events)
    };
    // the formats agree on the content
    let tree = to_val(&part);
    let parsed = serde_json::from_slice::<Val>(&clean[0]).unwrap_or_else(|e| fail("unreadable", format!("the JSON output does not parse: {}", e)));
    let cbor = ciborium::from_reader::<Val, _>(&clean[2][..]).unwrap_or_else(|e| fail("unreadable", format!("the CBOR output does not parse: {}", e)));
    for (name, other) in [("JSON", parsed), ("CBOR", cbor)] {
        if other != tree {
            fail("formats", format!("{} output differs from the serialized tree: {}", name, other.diff(&tree, "").unwrap_or_default()));
        }
    }
    sample(format!("{} bytes of JSON, {} serializer calls: {}", clean[0].len(), total, String::from_utf8_lossy(&clean[0])));
    let tasks = 1 + draw(3);
    let jobs = (0..tasks)
        .map(|_| {
            let (part, clean, full_log) = (&part, &clean, &full_log);
            Box::new(move || {
                if chance(4) {
                    fail_often(part, total);
                }
                if chance(6) {
                    // emitted by a destructor that runs because of a panic
                    let f = draw(FORMATS.len());
                    let at = draw(clean[f].len() + 1);
                    let fault = if chance(50) { Fault::None } else { Fault::Error(at, libc::EIO) };
                    let (ok, accepted) = super::build::while_unwinding(|| {
                        let mut writer = FaultyWriter::new(fault, 0, 0);
                        let ok = emit(part, FORMATS[f], &mut writer).is_ok();
                        (ok, writer.accepted)
                    });
                    count("situation.emitted_while_unwinding");
                    if if ok { accepted != clean[f] } else { fault == Fault::None || !clean[f].starts_with(&accepted) } {
                        fail("modified", format!("{:?} output from within a destructor differs", FORMATS[f]));
                    }
                }
                for _ in 0..1 + draw(5) {
                    let reentrant = chance(25);
                    if reentrant {
                        // the sink emits the same description elsewhere before it takes the item
                        nest(
                            draw(40) as u64,
                            Box::new(|| {
                                let f = draw(FORMATS.len());
                                if emit_bytes(part, FORMATS[f]) != clean[f] {
                                    fail("modified", format!("{:?} output from within a sink differs", FORMATS[f]));
                                }
                                match draw(3) {
                                    0 => attempt_writer(part, clean, false),
                                    1 => attempt_serializer(part, full_log, total, false),
                                    _ => {}
                                }
                            }),
                        );
                    }
                    if chance(50) {
                        attempt_writer(part, clean, reentrant);
                    } else {
                        attempt_serializer(part, full_log, total, reentrant);
                    }
                    if reentrant && unnest() {
                        count("situation.emission_inside_a_sink");
                    }
                }
            }) as Job
        })
        .collect();
    par(jobs);
    for (i, format) in FORMATS.iter().enumerate() {
        if emit_bytes(&part, *format) != clean[i] {
            fail("modified", format!("{:?} output changed after the faulty emissions", format));
        }
    }
}

/// Many failed emissions in a row.
fn fail_often(part: &Part, total: u64) {
    let times = [10, 40, 140, 300][draw(4)];
    let stride = 1 + draw(11) as u64;
    note(format!("{} failing emissions", times));
    let mut panicked = 0;
    let outcome = faulty("emissions", -1, || {
        for i in 0..times {
            let at = (total + i * stride - i % (total + 1)) % (total + 1);
            let trouble = if i % 5 == 4 { Trouble::Panic(at) } else { Trouble::Error(at) };
            let rec = Rec::new(trouble, 0, false);
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| part.serialize(rec).is_ok())).is_err() {
                panicked += 1;
            }
        }
    });
    if let Outcome::Crashed = outcome {
        fail("panic", "an emission panicked outside the sink");
    }
    count_n("fault.serializer_error.storm", times - panicked);
    count_n("fault.serializer_panic.storm", panicked);
}

fn attempt_writer(part: &Part, clean: &[Vec<u8>], reentrant: bool) {
    let f = draw(FORMATS.len());
    let format = FORMATS[f];
    let whole = &clean[f];
    let at = match draw(4) {
        0 => draw(whole.len() + 2),
        1 => whole.len().saturating_sub(draw(8)),
        2 => draw(12),
        _ => draw(whole.len() + 1),
    };
    let fault = match draw(5) {
        0 => Fault::None,
        1 | 2 => Fault::Error(at, *pick(&ERRNOS)),
        3 => Fault::Zero(at),
        _ => Fault::Panic(at),
    };
    let chop = if chance(50) { 1 + draw(1 << 20) as u64 } else { 0 };
    let mut writer = FaultyWriter::new(fault, chop, if reentrant { 1 } else { [0, 0, 1, 7, 40][draw(5)] });
    let outcome = faulty("emission", -1, || emit(part, format, &mut writer));
    let fails = match fault {
        Fault::None => false,
        // a fault right at the end is met only if something more is written
        Fault::Error(at, _) | Fault::Zero(at) | Fault::Panic(at) => at < whole.len(),
    };
    if fails {
        nontrivial();
        count(match fault {
            Fault::Error(_, libc::ENOSPC) => "fault.device_full",
            Fault::Error(..) => "fault.write_error",
            Fault::Zero(_) => "fault.write_zero",
            _ => "fault.sink_panic",
        });
    }
    count_n("fault.short_write", writer.shorts);
    count_n("fault.interrupted_write", writer.interrupts);
    note(format!("emit {:?} {:?} chop {} accepted {}", format, fault, chop, writer.accepted.len()));
    let what = format!("{:?} into a sink with {:?}", format, fault);
    if !whole.starts_with(&writer.accepted) {
        fail("not-a-prefix", format!("{}: what the sink accepted is no prefix of the output: {}", what, first_difference(&writer.accepted, whole)));
    }
    if writer.writes_after_failure > 0 {
        fail("continued", format!("{}: {} more writes after the sink failed", what, writer.writes_after_failure));
    }
    match outcome {
        Outcome::Done(Ok(())) => {
            if writer.accepted != *whole {
                fail("false-success", format!("{}: success reported, the sink got {} of {} bytes", what, writer.accepted.len(), whole.len()));
            }
        }
        Outcome::Done(Err(e)) => {
            if !fails {
                fail("false-failure", format!("{}: failed with {} though the sink took everything", what, e.text));
            }
            match fault {
                Fault::Error(_, errno) if format != Format::Yaml => {
                    if e.errno != Some(errno) {
                        fail("another-error", format!("{}: reported {:?}", what, e));
                    }
                }
                Fault::Zero(_) if format != Format::Yaml => {
                    if e.kind != Some(std::io::ErrorKind::WriteZero) {
                        fail("another-error", format!("{}: reported {:?}", what, e));
                    }
                }
                Fault::Panic(_) => fail("another-error", format!("{}: the sink's panic became the error {:?}", what, e)),
                _ => {}
            }
        }
        Outcome::Crashed => {
            if !matches!(fault, Fault::Panic(_)) {
                fail("panic", format!("{}: panic without a panicking sink", what));
            }
        }
    }
    if chance(30) {
        if emit_bytes(part, format) != *whole {
            fail("modified", format!("{}: the next output differs", what));
        }
    }
}

fn attempt_serializer(part: &Part, full_log: &[String], total: u64, reentrant: bool) {
    let at = match draw(3) {
        0 => draw(total as usize + 1) as u64,
        1 => total.saturating_sub(draw(4) as u64),
        _ => draw(total as usize + 1) as u64,
    };
    let trouble = match draw(4) {
        0 => Trouble::None,
        3 => Trouble::Panic(at),
        _ => Trouble::Error(at),
    };
    let rec = Rec::new(trouble, if reentrant { 1 } else { [0, 1, 5][draw(3)] }, true);
    let state = rec.0.clone();
    let outcome = faulty("emission", -1, || part.serialize(rec));
    let state = state.borrow();
    note(format!("emit into a serializer with {:?}, {} calls", trouble, state.events));
    let what = format!("a serializer with {:?}", trouble);
    if state.failed {
        nontrivial();
        count(match trouble {
            Trouble::Panic(_) => "fault.serializer_panic",
            _ => "fault.serializer_error",
        });
    }
    if !full_log.starts_with(&state.log) {
        fail("not-a-prefix", format!("{}: the calls made are no prefix of those of a fault-free emission", what));
    }
    if state.events_after_failure > 0 {
        fail("continued", format!("{}: {} more calls after it failed", what, state.events_after_failure));
    }
    if !state.bad_lengths.is_empty() && !state.failed {
        fail("announced-length", format!("{}: {:?}", what, state.bad_lengths));
    }
    match outcome {
        Outcome::Done(Ok(_)) => {
            if state.failed || state.log.len() != full_log.len() {
                fail("false-success", format!("{}: success reported after {} of {} calls", what, state.log.len(), full_log.len()));
            }
        }
        Outcome::Done(Err(e)) => {
            if !state.failed {
                fail("false-failure", format!("{}: failed with {}", what, e));
            }
            if e.0 != INJECTED {
                fail("another-error", format!("{}: reported {:?}", what, e.0));
            }
        }
        Outcome::Crashed => {
            if !matches!(trouble, Trouble::Panic(_)) {
                fail("panic", format!("{}: panic without a panicking sink", what));
            }
        }
    }
}

pub const C01: Prop = Prop {
    id: "C01",
    run: c01,
    quick: 56_000,
    thorough: 700_000,
    rule: "runs in which at least one emission met a failing or panicking sink, distinct by the hash of the full step trace",
    probes: &[],
};
