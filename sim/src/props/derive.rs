//! C12: the derive macro inside a real compiler process whose surroundings are chosen by the run.

use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

use super::*;

/// Where the pieces are; written by check.sh after building.
struct Tools {
    rustc: String,
    deps: String,
    opg: String,
    derive: String,
    ser: String,
    chaos: String,
    scratch: String,
}

fn tools() -> Tools {
    let path = concat!(env!("CARGO_MANIFEST_DIR"), "/target/c12.paths");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut lines = text.lines().map(str::to_owned);
    let mut next = || lines.next().unwrap_or_else(|| harness_error("target/c12.paths is missing, run check.sh"));
    Tools { rustc: next(), deps: next(), opg: next(), derive: next(), ser: next(), chaos: next(), scratch: next() }
}

/// One compilation: which types, in which order, where in the file, in which surroundings.
struct Program<'a> {
    types: Vec<&'a (String, String)>,
    pads: Vec<usize>,
    seed: u64,
    file: &'static str,
}

const FILES: [&str; 5] = ["a.rs", "another_file.rs", "deep/er/lib.rs", "x y.rs", "main.rs"];

impl<'a> Program<'a> {
    fn gen(types: Vec<&'a (String, String)>) -> Program<'a> {
        let pads = types.iter().map(|_| [0, 0, 1, 3, 17][draw(5)]).collect();
        Program { types, pads, seed: draw(1 << 16) as u64, file: FILES[draw(FILES.len())] }
    }

    fn text(&self) -> String {
        format!(
            "[{}] in {:?}, surroundings {}",
            self.types.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join(", "),
            self.file,
            self.seed
        )
    }

    /// Expand it: the generated code of each type, or what the compiler said.
    fn expand(&self, tools: &Tools) -> Result<BTreeMap<String, String>, String> {
        let mut source = String::from("#![allow(warnings)]\npub struct Other; pub struct Leaf; pub struct Gen<A, B>(A, B); pub fn f(n: u32) -> u32 { n }\n");
        for ((name, text), pad) in self.types.iter().zip(&self.pads) {
            for _ in 0..*pad {
                source.push_str("\n");
            }
            // the definition may start at any column, too
            source.push_str(&format!("mod {} {{\nuse super::*;\n{}{}\n}}\n", name, " ".repeat(pad * 2), text));
        }
        let dir = PathBuf::from(&tools.scratch).join(format!("{}", unsafe { libc::syscall(libc::SYS_getpid) }));
        let scratch = dir;
        // compiled from another folder, with other things in it
        let h = mix(&[self.seed, 0xd12]);
        let dir = scratch.join(["", "a", "crates/with-a-longer-name/x", "src", "target/debug/build"][(h % 5) as usize]);
        let file = dir.join(self.file);
        let reads = scratch.join("reads");
        let written = std::fs::create_dir_all(file.parent().unwrap())
            .and_then(|_| std::fs::File::create(&file))
            .and_then(|mut f| f.write_all(source.as_bytes()));
        if let Err(e) = written {
            harness_error(format!("cannot write {}: {}", file.display(), e));
        }
        for (i, (name, text)) in [("Cargo.toml", "[package]\nname = \"generated\"\nversion = \"1.2.3\"\n"), ("opg.toml", "inline = true\n"), ("openapi.yaml", "openapi: 3.0.3\n")].iter().enumerate() {
            if h >> (8 + i) & 3 == 0 {
                let _ = std::fs::write(dir.join(name), text);
            }
        }
        let mut command = Command::new(&tools.rustc);
        command
            .current_dir(&dir)
            .env_clear()
            .env("RUSTC_BOOTSTRAP", "1")
            .env("LD_PRELOAD", &tools.chaos)
            .env("OPGSIM_SEED", self.seed.to_string())
            .env("OPGSIM_READS", &reads)
            .env("PATH", "/usr/local/bin:/usr/bin:/bin")
            .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "generated", "-Zunpretty=expanded", "--cap-lints", "allow", "-L"])
            .arg(format!("dependency={}", tools.deps))
            .args(["--extern", &format!("opg={}", tools.opg)])
            .args(["--extern", &format!("opg_derive={}", tools.derive)])
            .args(["--extern", &format!("ser={}", tools.ser)])
            .arg(self.file)
            .stdin(Stdio::null());
        for (i, name) in ["HOME", "USER", "LANG", "TZ", "SOURCE_DATE_EPOCH", "HOSTNAME", "DEBUG", "PROFILE"].iter().enumerate() {
            let h = mix(&[self.seed, i as u64]);
            if h % 2 == 0 {
                command.env(name, format!("v{}", h % 1000));
            }
        }
        unsafe {
            command.pre_exec(|| {
                libc::personality(0x0040000); // ADDR_NO_RANDOMIZE: the shim moves the heap instead
                Ok(())
            });
        }
        let output = command.output();
        if let Ok(text) = std::fs::read_to_string(&reads) {
            for (name, n) in ["randomness", "clock", "process_id", "environment"].iter().zip(text.split_whitespace()) {
                count_n(&format!("ambient.{}_read_by_derive", name), n.parse().unwrap_or(0));
            }
        }
        let _ = std::fs::remove_dir_all(&scratch);
        let output = output.unwrap_or_else(|e| harness_error(format!("cannot run rustc: {}", e)));
        count("situation.compilations");
        if output.status.code().is_none() {
            inconclusive("rustc was killed");
        }
        if !output.status.success() {
            return Err(String::from_utf8_lossy(&output.stderr).into_owned());
        }
        let text = String::from_utf8_lossy(&output.stdout).into_owned();
        let mut out = BTreeMap::new();
        let mut current: Option<(String, String)> = None;
        for line in text.lines() {
            match &mut current {
                None => {
                    if let Some(name) = line.strip_prefix("mod ").and_then(|l| l.strip_suffix(" {")) {
                        current = Some((name.to_owned(), String::new()));
                    }
                }
                Some(_) if line == "}" => {
                    let (name, body) = current.take().unwrap();
                    out.insert(name, tokens(&body));
                }
                Some((_, body)) => {
                    body.push_str(line);
                    body.push('\n');
                }
            }
        }
        if out.len() != self.types.len() {
            harness_error(format!("{} of {} types found in the expansion", out.len(), self.types.len()));
        }
        Ok(out)
    }
}

/// Without the whitespace between tokens, which the printer takes from the source's layout.
fn tokens(code: &str) -> String {
    let mut out = String::new();
    let mut chars = code.chars();
    let mut in_text = false;
    while let Some(c) = chars.next() {
        if in_text {
            out.push(c);
            match c {
                '\\' => out.extend(chars.next()),
                '"' => in_text = false,
                _ => {}
            }
        } else if c.is_whitespace() {
            if out.ends_with(|l: char| l.is_alphanumeric() || l == '_') {
                out.push(' ');
            }
        } else {
            if out.ends_with(' ') && !(c.is_alphanumeric() || c == '_') {
                out.pop();
            }
            in_text = c == '"';
            out.push(c);
        }
    }
    out
}

const WORDS: [&str; 10] = ["some text", "kebab-case", "a", "Ünïcode", "snake_case", "x-y", "CamelCase", "42", "with \\\"quotes\\\"", "id"];
const RULES: [&str; 8] = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];
const PARAMS: [&str; 6] = ["T", "U", "Key", "Val", "A", "B"];

fn words() -> &'static str {
    WORDS[draw(WORDS.len())]
}

fn join(mut parts: Vec<String>, key: &str) -> String {
    if parts.is_empty() {
        return String::new();
    }
    shuffle(&mut parts);
    if parts.len() > 1 && chance(30) {
        // as attributes of their own
        return parts.iter().map(|p| format!("#[{}({})] ", key, p)).collect();
    }
    format!("#[{}({})] ", key, parts.join(", "))
}

fn opg_attrs(field: bool, container: bool) -> String {
    let mut parts = Vec::new();
    if chance(30) {
        parts.push(format!("\"{}\"", words()));
    }
    if chance(20) {
        parts.push(format!("format = \"{}\"", words()));
    }
    if chance(20) {
        parts.push(if chance(50) { format!("example = \"{}\"", words()) } else { "example_with = \"f(1)\"".to_owned() });
    }
    if chance(15) {
        parts.push("inline".to_owned());
    }
    if (field || container) && chance(15) {
        parts.push("nullable".to_owned());
    }
    if container && chance(6) {
        parts.push(["string", "integer", "number", "boolean"][draw(4)].to_owned());
    }
    if field && chance(20) {
        parts.push("optional".to_owned());
    }
    if field && chance(15) {
        parts.push(["string", "integer", "number", "boolean", "any"][draw(5)].to_owned());
    }
    join(parts, "opg")
}

fn rename_all() -> String {
    let rule = RULES[draw(8)];
    if chance(70) {
        format!("rename_all = \"{}\"", rule)
    } else {
        format!("rename_all(serialize = \"{}\", deserialize = \"lowercase\")", rule)
    }
}

fn serde_attrs(variant: bool, field: bool) -> String {
    let mut parts = Vec::new();
    if chance(20) {
        parts.push(if chance(50) { format!("rename = \"{}\"", words()) } else { format!("rename(serialize = \"{}\", deserialize = \"d\")", words()) });
    }
    if variant && chance(20) {
        parts.push(rename_all());
    }
    if (variant || field) && chance(8) {
        parts.push(if chance(50) { "skip" } else { "skip_serializing" }.to_owned());
    }
    if field && chance(15) {
        parts.push("skip_serializing_if = \"Option::is_none\"".to_owned());
    }
    if field && chance(8) {
        parts.push("flatten".to_owned());
    }
    if chance(10) {
        parts.push("default".to_owned());
    }
    join(parts, "serde")
}

fn gen_ty(params: &[&str], depth: usize) -> String {
    if depth == 0 || chance(45) {
        if !params.is_empty() && chance(60) {
            let p = pick(params);
            return if chance(20) { format!("{}::{}", p, ["Item", "Output", "Error"][draw(3)]) } else { (*p).to_owned() };
        }
        return (*pick(&["String", "u32", "bool", "super::Other", "std::time::Duration", "()", "char", "Leaf"])).to_owned();
    }
    let inner = |d: usize| gen_ty(params, d);
    match draw(9) {
        0 => format!("Vec<{}>", inner(depth - 1)),
        1 => format!("Option<{}>", inner(depth - 1)),
        2 => format!("std::collections::HashMap<{}, {}>", inner(0), inner(depth - 1)),
        3 => format!("({}, {})", inner(depth - 1), inner(depth - 1)),
        4 => format!("[{}; 3]", inner(depth - 1)),
        5 => format!("Box<{}>", inner(depth - 1)),
        6 => format!("std::marker::PhantomData<{}>", inner(0)),
        7 => format!("super::Gen<{}, {}>", inner(depth - 1), inner(depth - 1)),
        _ => format!("Result<{}, {}>", inner(depth - 1), inner(0)),
    }
}

/// Up to `max`, sometimes far more.
fn many(max: usize) -> usize {
    if chance(12) {
        return 6 + draw(14);
    }
    1 + draw(max)
}

fn gen_fields(params: &[&str], max: usize) -> String {
    let n = many(max);
    (0..n)
        .map(|i| {
            let name = ["first_field", "b", "r#type", "CamelField", "x1", "long_name_with_parts"][i % 6];
            let name = if i < 6 { name.to_owned() } else { format!("{}_{}", name.trim_start_matches("r#"), i / 6) };
            format!("    {}{}{}: {},\n", serde_attrs(false, true), opg_attrs(true, false), name, gen_ty(params, 3))
        })
        .collect()
}

fn gen_tuple(params: &[&str], n: usize) -> String {
    (0..n).map(|_| format!("{}{}, ", opg_attrs(true, false), gen_ty(params, 2))).collect()
}

const NAMES: [&str; 6] = ["Plain", "Another", "lower", "HTTPThing", "Very_Odd", "X"];

/// A definition with mistakes in it.
fn gen_malformed() -> String {
    let wrong = |n: usize| {
        let all = [
            "opg(unknown)", "opg(format = 5)", "opg(format = \"a\", format = \"b\")", "opg(\"a\", \"b\")", "opg(string, integer)", "opg(inline, inline)",
            "opg(example_with = \"(((\")", "opg(other(3))", "opg = 3", "serde(rename_all = \"odd\")", "serde(rename = 3)", "opg(nullable = true)",
            "serde(rename(serialize = \"a\", serialize = \"b\"))", "opg(example = \"a\", example_with = \"b\")", "opg(optional, optional)",
        ];
        (0..n).map(|_| format!("#[{}] ", pick(&all))).collect::<String>()
    };
    let field = |name: &str| format!("{}{}: String, ", wrong(draw(3)), name);
    match draw(6) {
        0 => format!("{}union X {{ a: u8, b: i8 }}", wrong(1)),
        1 => format!("{}pub enum X {{ {}A = 1, {}B, C(u8) }}", wrong(1), wrong(1), wrong(draw(2))),
        2 => format!("{}pub struct X;", wrong(1 + draw(2))),
        3 => format!("{}#[serde(untagged)] pub enum X {{ {}A, {}B(String, u8) }}", wrong(draw(2)), wrong(draw(2)), wrong(draw(2))),
        _ => format!("{}pub struct X {{ {}{}{} }}", wrong(1 + draw(3)), field("a"), field("b"), field("c")),
    }
}

/// A random definition that the derive macro supports.
fn gen_type(i: usize, name: &str) -> (String, String) {
    let n = [0, 0, 1, 2, 3, 4][draw(6)];
    let start = draw(PARAMS.len());
    let params = (0..n).map(|i| PARAMS[(start + i) % PARAMS.len()]).collect::<Vec<_>>();
    let mut generics = Vec::new();
    if chance(15) {
        generics.push("'a".to_owned());
    }
    let defaults = chance(15);
    for p in &params {
        let bound = if chance(20) { ": Iterator + Clone" } else { "" };
        let default = if defaults { " = String" } else { "" };
        generics.push(format!("{}{}{}", p, bound, default));
    }
    let generics = if generics.is_empty() { String::new() } else { format!("<{}>", generics.join(", ")) };
    let bound = if !params.is_empty() && chance(25) { format!(" where {}: Clone", params[0]) } else { String::new() };
    let mut serde = Vec::new();
    if chance(40) {
        serde.push(rename_all());
    }
    if chance(15) {
        serde.push(if chance(60) { format!("rename = \"{}\"", words()) } else { format!("rename(serialize = \"{}\")", words()) });
    }
    if chance(6) {
        serde.push((*pick(&["transparent", "deny_unknown_fields", "bound = \"\"", "default"])).to_owned());
    }
    let derive = "#[derive(ser::Serialize, opg_derive::OpgModel)]\n";
    let text = match draw(9) {
        0..=2 => format!("{}pub struct {}{}{} {{\n{}}}", opg_attrs(false, true), name, generics, bound, gen_fields(&params, 6)),
        3 => format!("{}pub struct {}{}({}){};", opg_attrs(false, true), name, generics, gen_ty(&params, 3), bound),
        4 => {
            let n = 1 + many(3);
            format!("{}pub struct {}{}({}){};", opg_attrs(false, true), name, generics, gen_tuple(&params, n), bound)
        }
        5 => {
            // unit variants only
            let repr = chance(40);
            let variants = (0..many(4))
                .map(|i| {
                    let disc = if repr { format!(" = {}", i as i32 * 3 - 1) } else { String::new() };
                    format!("    {}{}V{}{},\n", serde_attrs(false, false), opg_attrs(false, false), i, disc)
                })
                .collect::<String>();
            format!("{}{}pub enum {} {{\n{}}}", if repr { "#[repr(i8)]\n" } else { "" }, opg_attrs(false, true), name, variants)
        }
        kind => {
            let style = if kind == 8 { 3 } else { draw(4) };
            match style {
                1 => serde.push("tag = \"kind\"".to_owned()),
                2 => serde.push("tag = \"kind\", content = \"body\"".to_owned()),
                3 => serde.push("untagged".to_owned()),
                _ => {}
            }
            let mut variants = String::new();
            for i in 0..many(4) {
                let kind = if i == 0 { 1 + draw(2) } else { draw(4) };
                let kind = match (style, kind) {
                    (1, 3) | (3, 3) | (3, 0) => 1, // not supported
                    (_, k) => k,
                };
                let body = match kind {
                    0 => String::new(),
                    1 => format!("({})", gen_tuple(&params, 1)),
                    2 => format!(" {{\n{}}}", gen_fields(&params, 3)),
                    _ => format!("({})", gen_tuple(&params, 2)),
                };
                variants.push_str(&format!("    {}{}Variant{}{},\n", serde_attrs(true, false), opg_attrs(false, false), i, body));
            }
            format!("{}pub enum {}{}{} {{\n{}}}", opg_attrs(false, true), name, generics, bound, variants)
        }
    };
    (format!("m{}", i), format!("{}{}{}", derive, join(serde, "serde"), text))
}

/// What the macro has to say about malformed definitions does not depend on the surroundings either.
fn c12_malformed(tools: &Tools) {
    let definition = ("m0".to_owned(), format!("#[derive(ser::Serialize, opg_derive::OpgModel)]\n{}", gen_malformed()));
    sample(definition.1.clone());
    let mut first: Option<(Result<BTreeMap<String, String>, String>, u64)> = None;
    for _ in 0..2 + draw(2) {
        let program = Program { types: vec![&definition], pads: vec![0], seed: draw(1 << 16) as u64, file: FILES[0] };
        note(format!("compile {}", program.text()));
        let outcome = program.expand(tools);
        note(format!("{:x}", hash_str(&format!("{:?}", outcome))));
        if outcome.is_err() {
            count("situation.malformed_definition_rejected");
        }
        match &first {
            None => first = Some((outcome, program.seed)),
            Some((other, seed)) => {
                nontrivial();
                count("fault.other_hash_seed_clock_pid_environment");
                if *other != outcome {
                    let (a, b) = (format!("{:?}", outcome), format!("{:?}", other));
                    let difference = first_difference(a.as_bytes(), b.as_bytes());
                    fail(
                        "diagnostics",
                        format!("what the macro makes of\n{}\ndiffers between surroundings {} and {}: {}", definition.1, seed, program.seed, difference),
                    );
                }
            }
        }
    }
}

fn c12() {
    let tools = tools();
    if chance(10) {
        return c12_malformed(&tools);
    }
    let n = if chance(5) { 10 + draw(50) } else { 1 + draw(6) };
    let mut all: Vec<(String, String)> = Vec::new();
    for i in 0..n {
        let name = NAMES[draw(NAMES.len())];
        let next = if i > 0 && chance(12) { (format!("m{}", i), pick(&all).1.clone()) } else { gen_type(i, name) };
        all.push(next);
    }
    sample(format!("{}", all[0].1));
    let mut first: BTreeMap<String, (String, String)> = BTreeMap::new();
    for round in 0..2 + draw(2) {
        let mut types = all.iter().collect::<Vec<_>>();
        if round > 0 {
            shuffle(&mut types);
            types.truncate(1 + draw(types.len()));
        }
        let program = Program::gen(types);
        note(format!("compile {}", program.text()));
        if round > 0 {
            count("fault.other_company_order_or_location");
            count("fault.other_hash_seed_clock_pid_environment");
        }
        match program.expand(&tools) {
            Ok(expansions) => {
                for (name, code) in expansions {
                    note(format!("{} {:x}", name, hash_str(&code)));
                    if let Some((other, place)) = first.get(&name) {
                        nontrivial();
                        if *other != code {
                            let definition = &all.iter().find(|t| t.0 == name).unwrap().1;
                            fail(
                                "expansion",
                                format!(
                                    "the code generated for\n{}\ndiffers between compiling {} and compiling {}: {}",
                                    definition,
                                    place,
                                    program.text(),
                                    first_difference(code.as_bytes(), other.as_bytes())
                                ),
                            );
                        }
                    } else {
                        first.insert(name, (code, program.text()));
                    }
                }
            }
            Err(message) => {
                // does it depend on the company or the surroundings?
                let rejected = program.types.iter().filter(|t| Program { types: vec![t], pads: vec![0], seed: 1, file: FILES[0] }.expand(&tools).is_err()).count();
                if rejected == 0 {
                    fail("expansion", format!("compiling {} fails though each type alone expands: {}", program.text(), message));
                }
                count("situation.definition_rejected");
                note(format!("rejected {}", message));
                if round == 0 {
                    return;
                }
            }
        }
    }
}

pub const C12: Prop = Prop {
    id: "C12",
    run: c12,
    quick: 3_000,
    thorough: 60_000,
    rule: "runs in which at least one definition was expanded in two compilations, distinct by the hash of the full step trace",
    probes: &[],
};
