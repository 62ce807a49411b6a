//! Random type graphs. `NodeD<I>`/`NodeI<I>` are hand-written `OpgModel` impls whose schema is decided by the run's
//! universe; they are used through every built-in container. `NodeD` keeps the trait's default `select_reference`,
//! `NodeI` overrides it the way derived `inline` types do.

use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use opg::*;

use crate::doc::{Noisy, NoisyScheme, RScheme};
use crate::rmodel::*;
use crate::rt::*;

pub const NODES: usize = 40;
/// Nodes used through every wrapper; the others only through those of `FEW`.
pub const RICH: usize = 7;
const FEW: [usize; 5] = [0, 1, 9, 13, 22];

pub struct NodeD<const I: usize>;
pub struct NodeI<const I: usize>;

#[derive(Clone, Debug, Default)]
pub struct Params {
    pub description: Option<String>,
    pub nullable: Option<bool>,
    pub variants: Option<Vec<String>>,
    pub format: Option<String>,
    pub example: Option<String>,
}

impl Params {
    pub fn to_opg(&self) -> ContextParams {
        ContextParams {
            description: self.description.clone(),
            nullable: self.nullable,
            variants: self.variants.clone(),
            format: self.format.clone(),
            example: self.example.clone(),
        }
    }
}

/// One use of a type: which node, through which wrapper, inlined or not, with which per-use parameters.
#[derive(Clone, Debug)]
pub struct Edge {
    pub node: usize,
    pub inline_kind: bool, // NodeI instead of NodeD
    pub wrapper: usize,
    pub inline: bool,
    pub params: Params,
    pub newtype: bool, // get_schema_with_params instead of mention_schema
    pub catch: bool,   // user code survives a crash of this mention and uses `any` instead
}

#[derive(Clone, Debug)]
pub enum Shape {
    Prim(RModel),
    Object { props: Vec<(String, Edge, bool)>, additional: Option<Edge> },
    Array(Edge),
    OneOf(Vec<Edge>),
    AllOf(Vec<Edge>),
    AnyOf(Vec<Edge>),
    Newtype(Edge),
}

impl Shape {
    pub fn edges(&self) -> Vec<&Edge> {
        match self {
            Shape::Prim(_) => vec![],
            Shape::Object { props, additional } => props.iter().map(|p| &p.1).chain(additional.iter()).collect(),
            Shape::Array(e) | Shape::Newtype(e) => vec![e],
            Shape::OneOf(e) | Shape::AllOf(e) | Shape::AnyOf(e) => e.iter().collect(),
        }
    }
}

/// What schema code does with the registry besides mentioning types.
#[derive(Clone, Debug)]
pub enum Side {
    Model(String, RModel),
    Scheme(String, RScheme),
    Read,
}

fn gen_side(style: &Style, node: usize) -> Vec<Side> {
    if style.side == 0 || !chance(12) {
        return vec![];
    }
    (0..1 + draw(2))
        .map(|k| match draw(if style.side == 1 { 2 } else { 3 }) {
            0 => Side::Read,
            1 => {
                let mut model = gen_model(1, &[]);
                model.description = Some(format!("side {} of node {} of universe {}", k, node, style.tag));
                Side::Model(format!("Side{}.{}", node, k), model)
            }
            _ => Side::Scheme(format!("side{}.{}", node, k), RScheme::gen(&format!("{} {} {}", style.tag, node, k))),
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct NodeSpec {
    pub side: Vec<Side>,
    pub name: Option<String>, // None: NodeD of this index is anonymous
    pub description: Option<String>,
    pub nullable: bool,
    pub shape: Shape,
}

#[derive(Clone, Debug)]
pub struct Universe {
    pub nodes: Vec<NodeSpec>,
}

pub struct Active {
    pub universe: Arc<Universe>,
    /// get_schema calls per (node, inline kind)
    pub calls: RefCell<Vec<[u64; 2]>>,
    pub total: Cell<u64>,
    pub limit: Cell<u64>,
}

thread_local! {
    static ACTIVE: RefCell<Vec<Rc<Active>>> = const { RefCell::new(Vec::new()) };
}

pub fn active() -> Rc<Active> {
    ACTIVE.with(|a| a.borrow().last().cloned()).expect("no universe active")
}

pub fn activate<R>(universe: &Arc<Universe>, f: impl FnOnce(&Rc<Active>) -> R) -> R {
    let active = Rc::new(Active {
        universe: universe.clone(),
        calls: RefCell::new(vec![[0; 2]; NODES]),
        total: Cell::new(0),
        limit: Cell::new(u64::MAX),
    });
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            ACTIVE.with(|a| a.borrow_mut().pop());
        }
    }
    ACTIVE.with(|a| a.borrow_mut().push(active.clone()));
    let _pop = Pop;
    f(&active)
}

fn schema(index: usize, inline_kind: bool, cx: &mut Components) -> Model {
    let active = active();
    active.calls.borrow_mut()[index][inline_kind as usize] += 1;
    active.total.set(active.total.get() + 1);
    if active.total.get() > active.limit.get() {
        fail(
            "unbounded-work",
            format!("schema code ran {} times, more than the {} the type graph needs", active.total.get(), active.limit.get()),
        );
    }
    let spec = active.universe.nodes[index].clone();
    user_point(&format!("get_schema:{}", index));
    for side in &spec.side {
        match side {
            Side::Model(name, model) => cx.add_model(Noisy(name.clone()), model.to_opg()),
            Side::Scheme(name, scheme) => {
                cx.mention_security_scheme(name.clone(), &NoisyScheme(scheme.clone()));
            }
            Side::Read => {
                let _ = (cx.verify_schemas(), cx.contains_model("N0"), crate::val::to_val(&*cx));
            }
        }
        user_point(&format!("side:{}", index));
    }
    let mut visit = |edge: &Edge| {
        let reference = if edge.catch {
            match catch_unwind(AssertUnwindSafe(|| edge.reference(cx))) {
                Ok(reference) => reference,
                Err(payload) if payload.is::<SimPanic>() => {
                    count("fault.recovered_by_user_code");
                    ModelReference::Any
                }
                Err(payload) => resume_unwind(payload),
            }
        } else {
            edge.reference(cx)
        };
        user_point(&format!("after_edge:{}", index));
        reference
    };
    let data = match &spec.shape {
        Shape::Prim(model) => return model.to_opg(),
        Shape::Newtype(edge) => return edge.schema(cx),
        Shape::Object { props, additional } => {
            let mut object = ModelObject::default();
            let mut other = ModelObject::default();
            // some are put together from two objects
            let first = if index % 2 == 1 { props.len() / 2 } else { props.len() };
            for (k, (name, edge, required)) in props.iter().enumerate() {
                let reference = visit(edge);
                let part = if k < first { &mut object } else { &mut other };
                if part.add_property(name.clone(), reference, *required).is_err() {
                    fail("add_property", "adding a new property was refused");
                }
            }
            if first < props.len() && object.merge(other).is_err() {
                fail("merge", "merging new properties was refused");
            }
            if let Some(edge) = additional {
                object.additional_properties = Some(Box::new(visit(edge)));
            }
            ModelData::Single(ModelType { nullable: spec.nullable, type_description: object.into() })
        }
        Shape::Array(edge) => ModelData::Single(ModelType {
            nullable: spec.nullable,
            type_description: ModelArray { items: Box::new(visit(edge)) }.into(),
        }),
        Shape::OneOf(edges) => ModelOneOf { one_of: edges.iter().map(visit).collect() }.into(),
        Shape::AllOf(edges) => ModelAllOf { all_of: edges.iter().map(visit).collect() }.into(),
        Shape::AnyOf(edges) => ModelAnyOf { any_of: edges.iter().map(visit).collect() }.into(),
    };
    Model { description: spec.description.clone(), data }
}

impl<const I: usize> OpgModel for NodeD<I> {
    fn get_schema(cx: &mut Components) -> Model {
        schema(I, false, cx)
    }
    fn type_name() -> Option<Cow<'static, str>> {
        let active = active();
        user_point(&format!("type_name:{}", I));
        active.universe.nodes[I].name.clone().map(Cow::Owned)
    }
}

impl<const I: usize> OpgModel for NodeI<I> {
    fn get_schema(cx: &mut Components) -> Model {
        schema(I, true, cx)
    }
    fn type_name() -> Option<Cow<'static, str>> {
        None
    }
    fn select_reference(cx: &mut Components, _: bool, params: &ContextParams) -> ModelReference {
        ModelReference::Inline(Self::get_schema(cx).apply_params(params))
    }
}

/// Structure of a wrapper type around `T`.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    T,
    Same(Box<W>),
    Opt(Box<W>),
    Cont(Vec<W>), // array of one item type, or tuple
    Dict(Vec<W>),
    Plain(u8), // a built-in type: S(tring), I(nteger), B(oolean), U(nit)
}

type MentionFn = fn(&mut Components, bool, &ContextParams) -> ModelReference;
type SchemaFn = fn(&mut Components, &ContextParams) -> Model;

fn mention_as<M: OpgModel + ?Sized>(cx: &mut Components, inline: bool, params: &ContextParams) -> ModelReference {
    cx.mention_schema::<M>(inline, params)
}
fn schema_as<M: OpgModel + ?Sized>(cx: &mut Components, params: &ContextParams) -> Model {
    <M as OpgModel>::get_schema_with_params(cx, params)
}

macro_rules! wrapper_table {
    ($( [$desc:literal, $ty:ty] )+) => {
        pub const WRAPPERS: &[&str] = &[$($desc),+];
        pub const WRAPPER_TYPES: &[&str] = &[$(stringify!($ty)),+];
        fn table<T: OpgModel + 'static>() -> Vec<(MentionFn, SchemaFn)> {
            vec![$((mention_as::<$ty> as MentionFn, schema_as::<$ty> as SchemaFn)),+]
        }
    };
}

wrapper_table! {
    ["T", T]
    ["s(T)", Box<T>]
    ["s(T)", Rc<T>]
    ["s(T)", Arc<T>]
    ["s(T)", Cell<T>]
    ["s(T)", RefCell<T>]
    ["s(T)", &'static T]
    ["s(T)", &'static mut T]
    ["s(T)", (T,)]
    ["o(T)", Option<T>]
    ["o(s(T))", Option<Box<T>>]
    ["s(o(T))", Box<Option<T>>]
    ["o(o(T))", Option<Option<T>>]
    ["c(T)", Vec<T>]
    ["c(T)", HashSet<T>]
    ["c(T)", LinkedList<T>]
    ["c(T)", VecDeque<T>]
    ["c(T)", BinaryHeap<T>]
    ["c(T)", [T; 3]]
    ["c(T)", [T; 0]]
    ["s(c(T))", Box<[T]>]
    ["s(c(T))", &'static [T]]
    ["d(T)", HashMap<String, T>]
    ["d(T)", BTreeMap<u32, T>]
    ["c(TT)", (T, T)]
    ["c(TTT)", (T, T, T)]
    ["c(TTTT)", (T, T, T, T)]
    ["c(TTTTT)", (T, T, T, T, T)]
    ["c(TTTTTT)", (T, T, T, T, T, T)]
    ["c(TTTTTTT)", (T, T, T, T, T, T, T)]
    ["c(TTTTTTTT)", (T, T, T, T, T, T, T, T)]
    ["c(TTTTTTTTT)", (T, T, T, T, T, T, T, T, T)]
    ["c(TTTTTTTTTT)", (T, T, T, T, T, T, T, T, T, T)]
    ["c(o(T))", Vec<Option<T>>]
    ["o(c(T))", Option<Vec<T>>]
    ["c(c(T))", Vec<Vec<T>>]
    ["d(c(T))", HashMap<String, Vec<T>>]
    ["c(d(T))", Vec<BTreeMap<String, T>>]
    ["c(s(T))", Vec<Box<T>>]
    ["s(s(T))", Rc<RefCell<T>>]
    ["o(s(s(T)))", Option<Arc<Box<T>>>]
    ["c(To(T))", (T, Option<T>)]
    ["c(o(T)T)", (Option<T>, T)]
    ["c(Tc(T))", (T, Vec<T>)]
    ["o(c(TT))", Option<(T, T)>]
    ["s(c(s(o(T))))", Box<[Rc<Option<T>>]>]
    ["c(c(TTT))", [(T, T, T); 2]]
    ["d(o(s(T)))", BTreeMap<String, Option<Box<T>>>]
    ["c(o(T))", [Option<T>; 1]]
    ["c(c(T))", [[T; 2]; 2]]
    ["c(T)", [T; 1]]
    ["c(T)", [T; 32]]
    ["c(T)", [T; 33]]
    ["c(T)", [T; 1000]]
    ["c(ST)", (String, T)]
    ["c(TI)", (T, i64)]
    ["c(STBT)", (String, T, bool, T)]
    ["c(UT)", ((), T)]
    ["c(SSo(S)To(T))", (String, String, Option<String>, T, Option<T>)]
    ["c(c(T)d(T)o(T))", (Vec<T>, HashMap<String, T>, Option<T>)]
    ["c(c(TT)T)", ((T, T), T)]
    ["d(d(T))", BTreeMap<String, HashMap<String, T>>]
    ["d(c(TS))", HashMap<i64, (T, String)>]
    ["d(T)", HashMap<bool, T>]
    ["d(T)", BTreeMap<(u8, char), T>]
    ["c(c(c(c(T))))", Vec<Vec<Vec<Vec<T>>>>]
    ["o(o(o(s(s(T)))))", Option<Option<Option<Box<Rc<T>>>>>]
    ["o(d(T))", Option<HashMap<String, T>>]
    ["s(o(c(T)))", Box<Option<VecDeque<T>>>]
    ["o(s(T))", Option<(T,)>]
    ["s(c(T))", (Vec<T>,)]
    ["s(s(s(s(s(T)))))", Box<Rc<Arc<Cell<RefCell<T>>>>>]
    ["d(o(d(o(T))))", BTreeMap<String, Option<BTreeMap<String, Option<T>>>>]
    ["c(o(c(o(T))))", Vec<Option<Vec<Option<T>>>>]
    ["o(c(o(T)S))", Option<(Option<T>, String)>]
}

pub fn parse_wrapper(desc: &str) -> W {
    fn parse(chars: &[u8], pos: &mut usize) -> W {
        let c = chars[*pos];
        *pos += 1;
        match c {
            b'T' => W::T,
            kind @ (b'S' | b'I' | b'B' | b'U') => W::Plain(kind),
            kind => {
                *pos += 1; // (
                let mut inner = Vec::new();
                while chars[*pos] != b')' {
                    inner.push(parse(chars, pos));
                }
                *pos += 1;
                match kind {
                    b's' => W::Same(Box::new(inner.remove(0))),
                    b'o' => W::Opt(Box::new(inner.remove(0))),
                    b'd' => W::Dict(inner),
                    _ => W::Cont(inner),
                }
            }
        }
    }
    parse(desc.as_bytes(), &mut 0)
}

struct Tables {
    functions: Vec<[Vec<(MentionFn, SchemaFn)>; 2]>,
    poor: Vec<[Vec<(MentionFn, SchemaFn)>; 2]>,
    wrappers: Vec<W>,
}

/// The wrappers of `FEW`.
fn few<T: OpgModel + 'static>() -> Vec<(MentionFn, SchemaFn)> {
    vec![
        (mention_as::<T>, schema_as::<T>),
        (mention_as::<Box<T>>, schema_as::<Box<T>>),
        (mention_as::<Option<T>>, schema_as::<Option<T>>),
        (mention_as::<Vec<T>>, schema_as::<Vec<T>>),
        (mention_as::<HashMap<String, T>>, schema_as::<HashMap<String, T>>),
    ]
}

macro_rules! poor_nodes {
    ($($i:literal)+) => { vec![$([few::<NodeD<$i>>(), few::<NodeI<$i>>()]),+] };
}

fn tables() -> &'static Tables {
    static TABLES: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    TABLES.get_or_init(|| Tables {
        functions: vec![
            [table::<NodeD<0>>(), table::<NodeI<0>>()],
            [table::<NodeD<1>>(), table::<NodeI<1>>()],
            [table::<NodeD<2>>(), table::<NodeI<2>>()],
            [table::<NodeD<3>>(), table::<NodeI<3>>()],
            [table::<NodeD<4>>(), table::<NodeI<4>>()],
            [table::<NodeD<5>>(), table::<NodeI<5>>()],
            [table::<NodeD<6>>(), table::<NodeI<6>>()],
        ],
        poor: poor_nodes![7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39],
        wrappers: WRAPPERS.iter().map(|d| parse_wrapper(d)).collect(),
    })
}

pub fn wrapper(index: usize) -> &'static W {
    &tables().wrappers[index]
}

impl Edge {
    pub fn plain(node: usize) -> Edge {
        Edge { node, inline_kind: false, wrapper: 0, inline: false, params: Params::default(), newtype: false, catch: false }
    }

    fn reference(&self, cx: &mut Components) -> ModelReference {
        if self.newtype {
            ModelReference::Inline(self.schema(cx))
        } else {
            self.mention(cx)
        }
    }

    fn functions(&self) -> (MentionFn, SchemaFn) {
        let tables = tables();
        match self.node.checked_sub(RICH) {
            None => tables.functions[self.node][self.inline_kind as usize][self.wrapper],
            Some(i) => {
                let at = FEW.iter().position(|w| *w == self.wrapper).expect("a wrapper of the few");
                tables.poor[i][self.inline_kind as usize][at]
            }
        }
    }

    pub fn mention(&self, cx: &mut Components) -> ModelReference {
        let f = self.functions().0;
        f(cx, self.inline, &self.params.to_opg())
    }

    pub fn schema(&self, cx: &mut Components) -> Model {
        let f = self.functions().1;
        f(cx, &self.params.to_opg())
    }

    pub fn text(&self) -> String {
        let node = format!("Node{}<{}>", if self.inline_kind { "I" } else { "D" }, self.node);
        let text = {
            let source = WRAPPER_TYPES[self.wrapper];
            let mut out = String::new();
            let chars: Vec<char> = source.chars().collect();
            for (i, c) in chars.iter().enumerate() {
                let before = i > 0 && chars[i - 1].is_alphanumeric();
                let after = chars.get(i + 1).map_or(false, |c| c.is_alphanumeric());
                if *c == 'T' && !before && !after {
                    out.push_str(&node);
                } else {
                    out.push(*c);
                }
            }
            out
        };
        format!("{}{}{}", text, if self.inline { " inline" } else { "" }, if self.newtype { " newtype" } else { "" })
    }
}

/// Reference evaluator: which names a mention registers, and how often it runs each node's schema code.
#[derive(Clone)]
pub struct Eval<'a> {
    pub universe: &'a Universe,
    pub registered: BTreeSet<String>,
    pub schemes: BTreeMap<String, crate::val::Val>,
    pub calls: Vec<[u64; 2]>,
    pub total: u64,
    pub cap: u64,
    depth: usize,
}

pub struct TooBig;

impl<'a> Eval<'a> {
    pub fn new(universe: &'a Universe) -> Self {
        Eval { universe, registered: BTreeSet::new(), schemes: BTreeMap::new(), calls: vec![[0; 2]; NODES], total: 0, cap: 400, depth: 0 }
    }

    fn run(&mut self, node: usize, inline_kind: bool) -> Result<(), TooBig> {
        self.calls[node][inline_kind as usize] += 1;
        self.total += 1;
        if self.total > self.cap || self.depth > 100 {
            return Err(TooBig);
        }
        self.depth += 1;
        for side in &self.universe.nodes[node].side {
            match side {
                Side::Model(name, _) => {
                    self.registered.insert(name.clone());
                }
                Side::Scheme(name, scheme) => {
                    self.schemes.insert(name.clone(), scheme.to_val().canon());
                }
                Side::Read => {}
            }
        }
        let edges = self.universe.nodes[node].shape.edges();
        let newtype = matches!(self.universe.nodes[node].shape, Shape::Newtype(_));
        for edge in edges {
            if newtype || edge.newtype {
                self.expand(edge, wrapper(edge.wrapper))?;
            } else {
                self.mention(edge)?;
            }
        }
        self.depth -= 1;
        Ok(())
    }

    pub fn mention(&mut self, edge: &Edge) -> Result<(), TooBig> {
        self.walk(edge, wrapper(edge.wrapper), edge.inline)
    }

    fn walk(&mut self, edge: &Edge, w: &W, inline: bool) -> Result<(), TooBig> {
        match w {
            W::T => {
                let name = if edge.inline_kind || inline { None } else { self.universe.nodes[edge.node].name.clone() };
                match name {
                    Some(name) => {
                        if self.registered.insert(name) {
                            self.run(edge.node, false)?;
                        }
                        Ok(())
                    }
                    None => self.run(edge.node, edge.inline_kind),
                }
            }
            W::Plain(_) => Ok(()),
            W::Same(x) | W::Opt(x) => self.walk(edge, x, inline),
            W::Cont(items) | W::Dict(items) => items.iter().try_for_each(|x| self.walk(edge, x, false)),
        }
    }

    pub fn expand(&mut self, edge: &Edge, w: &W) -> Result<(), TooBig> {
        match w {
            W::T => self.run(edge.node, edge.inline_kind),
            W::Plain(_) => Ok(()),
            W::Same(x) | W::Opt(x) => self.expand(edge, x),
            W::Cont(items) | W::Dict(items) => items.iter().try_for_each(|x| self.walk(edge, x, false)),
        }
    }
}

/// How a universe may look.
#[derive(Clone, Copy)]
pub struct Style {
    pub cyclic: bool,
    pub catch: bool,
    pub nodes: usize,
    pub tag: usize, // distinguishes universes with equal names
    pub full_params: bool,
    pub side: u8,     // schema code does more than mention: 1 inserts models, 2 schemes as well
    pub chains: bool, // now and then a long chain of types
}

impl Default for Style {
    fn default() -> Self {
        Style { cyclic: true, catch: false, nodes: RICH, tag: 0, full_params: true, side: 2, chains: true }
    }
}

pub fn gen_params(full: bool) -> Params {
    if !chance(if full { 35 } else { 10 }) {
        return Params::default();
    }
    Params {
        description: opt(50, text),
        nullable: opt(30, || chance(60)),
        variants: opt(15, || vec![text(), text()]),
        format: opt(30, text),
        example: opt(30, text),
    }
}

/// Does a use of `w` run the node's schema code even if its name is registered?
fn expands(w: &W, inline: bool, always: bool) -> bool {
    match w {
        W::T => inline || always,
        W::Plain(_) => false,
        W::Same(x) | W::Opt(x) => expands(x, inline, always),
        W::Cont(items) | W::Dict(items) => items.iter().any(|x| expands(x, false, always)),
    }
}

pub fn gen_edge(specs: &[Option<String>], from: Option<usize>, style: &Style, newtype: bool) -> Edge {
    let n = specs.len();
    for _ in 0..20 {
        let node = draw(n);
        let inline_kind = chance(15);
        let wrapper_index = match chance(65) {
            true if node < RICH => draw(WRAPPERS.len()),
            true => *pick(&FEW),
            false => 0,
        };
        let inline = chance(20);
        let edge = Edge {
            node,
            inline_kind,
            wrapper: wrapper_index,
            inline,
            params: gen_params(style.full_params),
            newtype: newtype || chance(6),
            catch: style.catch && chance(30),
        };
        let from = match from {
            None => return edge,
            Some(from) => from,
        };
        if !style.cyclic && node <= from {
            continue;
        }
        let always = inline_kind || specs[node].is_none();
        let w = wrapper(wrapper_index);
        let expanding = if edge.newtype {
            fn direct(w: &W, always: bool) -> bool {
                match w {
                    W::T => true,
                    W::Plain(_) => false,
                    W::Same(x) | W::Opt(x) => direct(x, always),
                    W::Cont(items) | W::Dict(items) => items.iter().any(|x| expands(x, false, always)),
                }
            }
            direct(w, always)
        } else {
            expands(w, inline, always)
        };
        if expanding && node <= from {
            continue;
        }
        return edge;
    }
    // a plain mention of a named node, or of the last one
    let named = (0..n).filter(|i| specs[*i].is_some() && (style.cyclic || Some(*i) > from)).collect::<Vec<_>>();
    if named.is_empty() || newtype {
        Edge::plain(n - 1)
    } else {
        Edge::plain(*pick(&named))
    }
}

/// Many types, each leading to the next, some back to earlier ones.
fn gen_chain(style: &Style) -> Universe {
    count("situation.long_type_chain");
    let n = [9, 17, 24, 33, NODES][draw(5)];
    let inlined = chance(30);
    let nodes = (0..n)
        .map(|i| {
            let description = Some(format!("node {} of universe {}", i, style.tag));
            let nullable = chance(15);
            let name = Some(format!("N{}", i));
            if i + 1 == n {
                let mut model = gen_model(0, &[]);
                model.description = description.clone();
                return NodeSpec { side: vec![], name, description, nullable, shape: Shape::Prim(model) };
            }
            let next = Edge { wrapper: *pick(&FEW), inline: inlined && chance(80), catch: style.catch && chance(10), ..Edge::plain(i + 1) };
            let mut edges = vec![next];
            if style.cyclic && chance(30) {
                edges.insert(draw(2), Edge { wrapper: *pick(&FEW), ..Edge::plain(draw(i + 1)) });
            }
            let shape = match draw(5) {
                0 if edges.len() == 1 => Shape::Array(edges.remove(0)),
                1 => Shape::OneOf(edges),
                2 => Shape::AllOf(edges),
                3 => Shape::AnyOf(edges),
                _ => Shape::Object {
                    props: edges.into_iter().enumerate().map(|(k, e)| (format!("p{}", k), e, chance(50))).collect(),
                    additional: None,
                },
            };
            NodeSpec { side: gen_side(style, i), name, description, nullable, shape }
        })
        .collect();
    Universe { nodes }
}

pub fn gen_universe(style: &Style) -> Universe {
    if style.chains && chance(4) {
        return gen_chain(style);
    }
    let n = 1 + draw(style.nodes);
    let mut names = (0..n)
        .map(|i| {
            if chance(88) {
                // the last ones are close to the name of a neighbour
                Some(match draw(16) {
                    10 => format!("{}{}", if i % 2 == 0 { "X" } else { "x" }, i / 2),
                    11 => format!("S{}{}", i / 2, if i % 2 == 0 { "" } else { " " }),
                    12 => format!("{}{}", "L".repeat(130), i),
                    8 => format!("Тип {}", i),
                    13 => format!("crate::api::N{}", i),
                    14 => format!("n-{}_{}.x", i, i),
                    15 => format!("%4{}#{}$\"{{}}\\", i, i),
                    9 => format!("mod.N{}<a/b>", i),
                    _ => format!("N{}", i),
                })
            } else {
                None
            }
        })
        .collect::<Vec<_>>();
    // the node of highest index is the target of last resort
    if names[n - 1].is_none() {
        names[n - 1] = Some(format!("N{}", n - 1));
    }
    for attempt in 0..4 {
        let nodes = (0..n)
            .map(|i| {
                let last = i + 1 == n;
                let kind = if last && !style.cyclic || attempt == 3 { 0 } else { draw(9) };
                let edge = |newtype: bool| gen_edge(&names, Some(i), style, newtype);
                let shape = match kind {
                    0 => Shape::Prim(gen_model(0, &[])),
                    1..=3 => Shape::Object {
                        props: (0..draw(4)).map(|k| (format!("p{}", k), edge(false), chance(50))).collect(),
                        additional: opt(25, || edge(false)),
                    },
                    4 => Shape::Array(edge(false)),
                    5 => Shape::OneOf((0..1 + draw(3)).map(|_| edge(false)).collect()),
                    6 => Shape::AllOf((0..1 + draw(3)).map(|_| edge(false)).collect()),
                    7 => Shape::AnyOf((0..1 + draw(3)).map(|_| edge(false)).collect()),
                    _ if !last => Shape::Newtype(edge(true)),
                    _ => Shape::Prim(gen_model(0, &[])),
                };
                // unique per node (and universe), so schemas cannot be confused
                let description = Some(format!("node {} of universe {}", i, style.tag));
                let shape = match shape {
                    Shape::Prim(mut model) => {
                        model.description = description.clone();
                        Shape::Prim(model)
                    }
                    other => other,
                };
                NodeSpec { side: gen_side(style, i), name: names[i].clone(), description, nullable: chance(15), shape }
            })
            .collect::<Vec<_>>();
        let universe = Universe { nodes };
        // every use of every node must be affordable
        let affordable = (0..n).all(|i| {
            (0..2).all(|kind| {
                let mut eval = Eval::new(&universe);
                let edge = Edge { inline_kind: kind == 1, inline: true, ..Edge::plain(i) };
                eval.mention(&edge).is_ok()
            })
        });
        if affordable {
            return universe;
        }
    }
    harness_error("could not generate a universe")
}

impl Universe {
    /// What schema code inserts by hand.
    pub fn side_models(&self) -> impl Iterator<Item = (&String, &RModel)> {
        self.nodes.iter().flat_map(|n| &n.side).filter_map(|s| match s {
            Side::Model(name, model) => Some((name, model)),
            _ => None,
        })
    }

    pub fn side_schemes(&self) -> impl Iterator<Item = (&String, &RScheme)> {
        self.nodes.iter().flat_map(|n| &n.side).filter_map(|s| match s {
            Side::Scheme(name, scheme) => Some((name, scheme)),
            _ => None,
        })
    }

    pub fn names(&self) -> Vec<Option<String>> {
        self.nodes.iter().map(|n| n.name.clone()).collect()
    }

    pub fn text(&self) -> String {
        self.nodes
            .iter()
            .enumerate()
            .map(|(i, n)| {
                let edges = match &n.shape {
                    Shape::Prim(_) => "prim".to_owned(),
                    Shape::Newtype(e) => format!("newtype({})", e.text()),
                    Shape::Array(e) => format!("array({})", e.text()),
                    Shape::Object { props, additional } => format!(
                        "object({}{})",
                        props.iter().map(|p| format!("{}: {}, ", p.0, p.1.text())).collect::<String>(),
                        additional.iter().map(|e| format!("*: {}", e.text())).collect::<String>()
                    ),
                    Shape::OneOf(e) | Shape::AllOf(e) | Shape::AnyOf(e) => {
                        format!("of({})", e.iter().map(|e| e.text() + ", ").collect::<String>())
                    }
                };
                format!("{}{:?}={}{}", i, n.name, edges, if n.side.is_empty() { "" } else { " and more" })
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
}
