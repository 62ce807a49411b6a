//! The properties: one run function each, plus what they share.

mod build;
mod compose;
mod derive;
mod emit;
mod registry;

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use opg::*;

use crate::engine::Prop;
use crate::rmodel::*;
use crate::rt::*;
use crate::val::{to_val, Val};
use crate::zoo_derive::{self, DEval, Use};
use crate::zoo_node::*;

pub fn all() -> Vec<Prop> {
    vec![
        emit::C01,
        registry::C02,
        registry::C03,
        registry::C04,
        registry::C05,
        compose::C06,
        build::C07,
        build::C08,
        build::C09,
        registry::C10,
        compose::C11,
        derive::C12,
        registry::C13,
        build::C14,
    ]
}

/// The schema registry as it would be emitted, by name.
pub fn schemas(cx: &Components) -> BTreeMap<String, Val> {
    cx.schemas.iter().map(|(name, model)| (name.clone(), to_val(model))).collect()
}

pub fn schemes(cx: &Components) -> BTreeMap<String, Val> {
    cx.security_schemes.iter().map(|(name, scheme)| (name.clone(), to_val(scheme))).collect()
}

pub const PREFIX: &str = "#/components/schemas/";

/// All `$ref` values of a tree.
pub fn refs(val: &Val, out: &mut Vec<String>) {
    match val {
        Val::Seq(items) => items.iter().for_each(|x| refs(x, out)),
        Val::Map(entries) => {
            for (key, value) in entries {
                match value {
                    Val::Str(text) if key == "$ref" => out.push(text.clone()),
                    other => refs(other, out),
                }
            }
        }
        _ => {}
    }
}

/// First link of a tree that does not resolve among `names`.
pub fn dangling<V>(val: &Val, names: &BTreeMap<String, V>) -> Option<String> {
    let mut out = Vec::new();
    refs(val, &mut out);
    out.into_iter().find(|r| r.strip_prefix(PREFIX).map_or(true, |name| !names.contains_key(name)))
}

pub fn check_closed(what: &str, registry: &BTreeMap<String, Val>) {
    for (name, schema) in registry {
        if let Some(link) = dangling(schema, registry) {
            fail("dangling-link", format!("{}: schema {:?} links to {:?}, registered are {:?}", what, name, link, registry.keys()));
        }
    }
}

/// What a schema name should be bound to, whoever mentions it.
pub struct Canon {
    pub schemas: BTreeMap<String, Val>,
}

impl Canon {
    /// Schemas of the named nodes and of all derived types, each computed alone in a fresh registry.
    pub fn of(universe: &Arc<Universe>) -> Canon {
        let mut schemas = BTreeMap::new();
        quiet(|| {
            for (i, node) in universe.nodes.iter().enumerate() {
                if let Some(name) = &node.name {
                    let val = match &node.shape {
                        // known without asking the library
                        Shape::Prim(model) => model.to_val().canon(),
                        _ => activate(universe, |_| to_val(&Edge::plain(i).schema(&mut Components::new()))).canon(),
                    };
                    schemas.insert(name.clone(), val);
                }
            }
        });
        schemas.extend(universe.side_models().map(|(n, m)| (n.clone(), m.to_val().canon())));
        Canon { schemas }
    }

    pub fn with_derived(mut self) -> Canon {
        for info in zoo_derive::TYPES.iter().filter(|t| t.named) {
            self.schemas.insert(info.name.to_owned(), crate::doc::canonical_derived(info.name).canon());
        }
        self
    }

    /// The same, computed without the library.
    pub fn reference(universe: &Universe) -> Canon {
        let mut schemas = BTreeMap::new();
        for (i, node) in universe.nodes.iter().enumerate() {
            if let Some(name) = &node.name {
                schemas.insert(name.clone(), crate::oracle::node_model(universe, i).to_val().canon());
            }
        }
        schemas.extend(universe.side_models().map(|(n, m)| (n.clone(), m.to_val().canon())));
        for info in zoo_derive::TYPES.iter().filter(|t| t.named) {
            schemas.insert(info.name.to_owned(), crate::oracle::golden(info.name).to_val().canon());
        }
        Canon { schemas }
    }

    /// Every entry of the registry must be bound to its canonical schema.
    pub fn check(&self, what: &str, registry: &BTreeMap<String, Val>, except: &BTreeSet<String>) {
        for (name, schema) in registry {
            if except.contains(name) {
                continue;
            }
            match self.schemas.get(name) {
                Some(canon) if *canon == schema.canon() => {}
                Some(canon) => fail(
                    "schema-content",
                    format!("{}: schema {:?} is not that of the type: {}", what, name, schema.canon().diff(canon, "").unwrap_or_default()),
                ),
                None => fail("schema-name", format!("{}: schema {:?} was never mentioned", what, name)),
            }
        }
    }
}

/// A mention by a caller: of a node of the run's universe or of a derived type.
#[derive(Clone, Debug)]
pub enum Mention {
    Node(Edge),
    Derived(Use),
}

impl Mention {
    pub fn gen(universe: &Universe, style: &Style) -> Mention {
        if chance(35) {
            Mention::Derived(zoo_derive::gen_use())
        } else {
            let mut edge = gen_edge(&universe.names(), None, style, false);
            edge.newtype = false;
            edge.catch = false;
            Mention::Node(edge)
        }
    }

    /// Make the mention. The node universe is active, `limit` bounds the schema code it may run.
    pub fn make(&self, universe: &Arc<Universe>, cx: &mut Components) -> ModelReference {
        match self {
            Mention::Node(edge) => activate(universe, |_| edge.mention(cx)),
            Mention::Derived(u) => u.mention(cx),
        }
    }

    /// What the mention should hand back, computed without the library.
    pub fn reference(&self, universe: &Universe) -> Val {
        match self {
            Mention::Node(edge) => crate::oracle::edge_reference(universe, edge).to_val(),
            Mention::Derived(u) => crate::oracle::use_reference(u).to_val(),
        }
        .canon()
    }

    pub fn text(&self) -> String {
        match self {
            Mention::Node(edge) => edge.text(),
            Mention::Derived(u) => u.text(),
        }
    }
}

/// Names and schema code runs a history of mentions should give.
#[derive(Clone)]
pub struct Expect<'a> {
    pub node: Eval<'a>,
    pub derived: DEval,
}

impl<'a> Expect<'a> {
    pub fn new(universe: &'a Universe) -> Self {
        let mut node = Eval::new(universe);
        node.cap = 20_000;
        Expect { node, derived: DEval::default() }
    }

    /// Start from a registry that holds `names` already.
    pub fn knowing<V>(universe: &'a Universe, names: &BTreeMap<String, V>) -> Self {
        let mut x = Expect::new(universe);
        x.node.registered = names.keys().cloned().collect();
        x.derived.registered = zoo_derive::TYPES.iter().filter(|t| names.contains_key(t.name)).map(|t| t.name).collect();
        x
    }

    pub fn mention(&mut self, mention: &Mention) {
        match mention {
            Mention::Node(edge) => {
                if self.node.mention(edge).is_err() {
                    harness_error("the reference evaluator ran out of bounds");
                }
            }
            Mention::Derived(u) => self.derived.mention(u),
        }
    }

    pub fn names(&self) -> BTreeSet<String> {
        let mut names = self.node.registered.clone();
        names.extend(self.derived.registered.iter().map(|n| (*n).to_owned()));
        names
    }
}

pub fn check_names(what: &str, registry: &BTreeMap<String, Val>, expected: &BTreeSet<String>) {
    let actual = registry.keys().cloned().collect::<BTreeSet<_>>();
    if actual != *expected {
        fail(
            "registered-names",
            format!(
                "{}: missing {:?}, unexpected {:?}",
                what,
                expected.difference(&actual).collect::<Vec<_>>(),
                actual.difference(expected).collect::<Vec<_>>()
            ),
        );
    }
}

/// Where a call is crashed: at its n-th user-code point, if at all.
pub fn gen_crash(percent: u32) -> i64 {
    if chance(percent) {
        [0, 1, 2, 3, 4, 6, 9, 14][draw(8)]
    } else {
        -1
    }
}

/// Run `f` in a process of its own, forked from this one. Only for the root task while no other task runs.
pub fn isolated(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        harness_error("pipe failed");
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        harness_error("fork failed");
    }
    if pid == 0 {
        let bytes = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| quiet(f))) {
            Ok(bytes) => bytes,
            Err(_) => unsafe { libc::_exit(3) },
        };
        let mut at = 0;
        while at < bytes.len() {
            let n = unsafe { libc::write(fds[1], bytes[at..].as_ptr() as *const _, bytes.len() - at) };
            if n <= 0 {
                unsafe { libc::_exit(4) };
            }
            at += n as usize;
        }
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut out = Vec::new();
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len()) };
        if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
            continue;
        }
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    unsafe { libc::close(fds[0]) };
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    if status != 0 || out.is_empty() {
        fail("alone", format!("a build running alone died, status {}", status));
    }
    out
}

/// A text for messages that shows where two outputs differ.
pub fn first_difference(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or_else(|| a.len().min(b.len()));
    let show = |x: &[u8]| String::from_utf8_lossy(&x[at.saturating_sub(60)..x.len().min(at + 60)]).into_owned();
    format!("at byte {} ({} and {} bytes): ...{}... and ...{}...", at, a.len(), b.len(), show(a), show(b))
}
