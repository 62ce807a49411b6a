//! Uses of the description macro in every form it supports, with counted expressions and the expected document.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use opg::*;

use crate::doc::*;
use crate::rmodel::*;
use crate::rt::*;
use crate::val::Val;
use crate::zoo_derive::*;

#[path = "templates_gen.rs"]
mod generated;

const WRITTEN: usize = 7;
pub const TEMPLATES: usize = WRITTEN + generated::COUNT;
const TEXTS: usize = 64;

/// Values the expressions of a template evaluate to.
#[derive(Clone, Debug)]
pub struct Values {
    pub texts: Vec<String>,
    pub bools: Vec<bool>,
    pub schemes: Vec<RScheme>,
}

pub fn gen_values() -> Values {
    // even ones are unique: they may serve as keys
    let texts = (0..TEXTS).map(|i| if i % 2 == 0 { format!("{} ~{}", text(), i) } else { text() }).collect();
    Values { texts, bools: (0..16).map(|_| chance(50)).collect(), schemes: (0..4).map(|i| RScheme::gen(&i.to_string())).collect() }
}

thread_local! {
    static CURRENT: RefCell<Vec<(Values, BTreeMap<String, u64>)>> = const { RefCell::new(Vec::new()) };
}

fn hit(what: String) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        let top = c.last_mut().expect("a template is running");
        *top.1.entry(what.clone()).or_insert(0) += 1;
    });
    user_point(&format!("expr:{}", what));
}

fn e(i: usize) -> String {
    hit(format!("text {}", i));
    CURRENT.with(|c| c.borrow().last().unwrap().0.texts[i].clone())
}

fn b(i: usize) -> bool {
    hit(format!("bool {}", i));
    CURRENT.with(|c| c.borrow().last().unwrap().0.bools[i])
}

/// A value whose conversion to text is user code, too.
struct Conv(usize);

impl std::fmt::Display for Conv {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&e(self.0))
    }
}

fn scheme(i: usize) -> NoisyScheme {
    CURRENT.with(|c| NoisyScheme(c.borrow().last().unwrap().0.schemes[i].clone()))
}

/// Build template `t`; also returns how often each of its expressions ran.
pub fn build(t: usize, v: &Values) -> (Opg, BTreeMap<String, u64>) {
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            if std::thread::panicking() {
                CURRENT.with(|c| c.borrow_mut().pop());
            }
        }
    }
    CURRENT.with(|c| c.borrow_mut().push((v.clone(), BTreeMap::new())));
    let pop = Pop;
    let opg = match t {
        0 => t0(),
        1 => t1(),
        2 => t2(),
        3 => t3(),
        4 => t4(),
        5 => t5(),
        6 => t6(),
        _ => generated::BUILD[t - WRITTEN](),
    };
    std::mem::forget(pop);
    let counts = CURRENT.with(|c| c.borrow_mut().pop()).unwrap().1;
    (opg, counts)
}

fn t0() -> Opg {
    let url = e(20);
    let about = e(21);
    let url2 = e(22);
    let mut opg = describe_api! {
        info: { title: e(0), version: Conv(1), description: e(2) },
        tags: { alpha, beta(e(4)), gamma(Conv(5)), },
        servers: { "http://first", url(about), "http://third"("third server"), url2 },
        security_schemes: {
            (http "basicScheme"): { scheme: Basic, description: e(6) },
            (http "bearerScheme"): { scheme: Bearer, bearer_format: e(7), description: Conv(8) },
            (http "bareScheme"): { scheme: Bearer },
            (apiKey e(10)): { parameter_in: Cookie, name: e(11), description: e(12) },
            (apiKey "keyScheme"): { name: Conv(13) },
            (apiKey "queryScheme"): { parameter_in: Query, name: e(14) },
        },
        paths: {
            ("only"): { GET: { 200: None, security: { "basicScheme", "bearerScheme" && "keyScheme" } } },
        },
    };
    let linked = "Described";
    opg.components.add_model(
        "Described",
        describe_type!(object => {
            description: "an object"
            properties: {
                text[required]: (string => { description: "a text" format: "f" example: "x" variants: ["x", "y"] })
                number: (number => { format: "double" example: "1.5" })
                integer[required]: (integer => { description: "i" format: "int" example: "1" })
                boolean: (boolean => { description: "b" })
                list: (array => { description: "l" items: (link => "Described") })
                other: (link => linked)
                nested: (object => { properties: { inner: (boolean => {}) } })
            }
        }),
    );
    opg
}

fn x0(v: &Values) -> Vec<Decl> {
    let t = |i: usize| v.texts[i].clone();
    let some = |i: usize| Some(t(i));
    let sc = |n: &str| vec![(n.to_owned(), vec![])];
    let get = ROperation {
        responses: vec![(200, "OK".into(), None)],
        security: vec![sc("basicScheme"), vec![("bearerScheme".into(), vec![]), ("keyScheme".into(), vec![])]],
        ..Default::default()
    };
    let simple = |t: RType, d: Option<&str>| RRef::Inline(Box::new(RModel { description: d.map(Into::into), data: RData::Single(false, t) }));
    let st = |x: &str| Some(x.to_owned());
    let object = |props: Vec<(String, RRef)>, required: Vec<String>| RType::Object { props, additional: None, required };
    let described = RModel {
        description: st("an object"),
        data: RData::Single(
            false,
            object(
                vec![
                    ("text".into(), simple(RType::Str(Some(vec!["x".into(), "y".into()]), st("f"), st("x")), Some("a text"))),
                    ("number".into(), simple(RType::Num(st("double"), st("1.5")), None)),
                    ("integer".into(), simple(RType::Int(st("int"), st("1")), Some("i"))),
                    ("boolean".into(), simple(RType::Bool, Some("b"))),
                    ("list".into(), simple(RType::Array(Box::new(RRef::Link("Described".into()))), Some("l"))),
                    ("other".into(), RRef::Link("Described".into())),
                    ("nested".into(), simple(object(vec![("inner".into(), simple(RType::Bool, None))], vec![]), None)),
                ],
                vec!["text".into(), "integer".into()],
            ),
        ),
    };
    vec![
        Decl::Info(t(0), some(2), t(1)),
        Decl::Tag("alpha".into(), None),
        Decl::Tag("beta".into(), some(4)),
        Decl::Tag("gamma".into(), some(5)),
        Decl::Server("http://first".into(), None),
        Decl::Server(t(20), some(21)),
        Decl::Server("http://third".into(), Some("third server".into())),
        Decl::Server(t(22), None),
        Decl::Scheme("basicScheme".into(), RScheme::Basic(some(6))),
        Decl::Scheme("bearerScheme".into(), RScheme::Bearer(some(7), some(8))),
        Decl::Scheme("bareScheme".into(), RScheme::Bearer(None, None)),
        Decl::Scheme(t(10), RScheme::ApiKey(3, t(11), some(12))),
        Decl::Scheme("keyScheme".into(), RScheme::ApiKey(1, t(13), None)),
        Decl::Scheme("queryScheme".into(), RScheme::ApiKey(0, t(14), None)),
        Decl::Path(vec![(false, "only".into())], RPathValue { ops: vec![(0, get)], ..Default::default() }),
        Decl::Schema("Described".into(), described),
    ]
}

fn t1() -> Opg {
    describe_api! {
        info: { title: "Literal", version: e(0) },
        paths: {
            ("plain"): {
                summary: "path summary",
                description: "path description",
                GET: { 200: None },
                PUT: { 200: None },
                POST: { 200: None },
                DELETE: { 200: None },
                OPTIONS: { 200: None },
                HEAD: { 200: None },
                PATCH: { 200: None },
                TRACE: { 200: None },
            },
            ("a" / {id: i32} / "b" / Leaf / crate::zoo_derive::StrEnum): {
                parameters: {
                    (header e(2)): { description: e(3), required: b(0), deprecated: b(1), schema: Plain },
                    (header Conv(4)),
                    (query page: u32),
                    (query filter: StrEnum): { description: Conv(5), required: b(2), deprecated: b(3) }
                },
                GET: {
                    parameters: {
                        (query deep: Vec<Plain>): { schema: Leaf },
                        (header e(6)): { required: b(4) },
                    },
                    200("fine"): Plain,
                    404: None,
                },
            },
            ({only: MutA}): { DELETE: { 204: () } },
            ("z"): { },
            ("a"): { TRACE: { 299: None, 418: None, 503("down"): Option<Leaf> } },
        },
    }
}

fn use_of(name: &str, through: usize) -> RSchema {
    RSchema::Typed(Use { through, ..Use::plain(TYPES.iter().position(|t| t.name == name).expect("known type")) })
}

fn of(name: &str) -> RSchema {
    use_of(name, 0)
}

fn string_schema() -> RSchema {
    RSchema::Raw(RRef::Inline(Box::new(RModel { description: None, data: RData::Single(false, RType::Str(None, None, None)) })))
}

fn int_schema(format: &str) -> RSchema {
    let data = RData::Single(false, RType::Int(Some(format.to_owned()), None));
    RSchema::Raw(RRef::Inline(Box::new(RModel { description: None, data })))
}

fn null_schema() -> RSchema {
    RSchema::Raw(RRef::Inline(Box::new(crate::oracle::null_model())))
}

const OPT: usize = 1;
const VEC: usize = 3;

fn param(at: usize, required: bool, schema: RSchema) -> RParam {
    RParam { description: None, at, required, deprecated: false, schema: Some(schema) }
}

fn response(code: u16, description: &str, schema: Option<RSchema>) -> (u16, String, Option<RSchema>) {
    (code, description.to_owned(), schema)
}

fn lit(parts: &[&str]) -> RPath {
    parts.iter().map(|p| (p.starts_with('{'), p.trim_matches(|c| c == '{' || c == '}').to_owned())).collect()
}

fn op(responses: Vec<(u16, String, Option<RSchema>)>) -> ROperation {
    ROperation { responses, ..Default::default() }
}

fn x1(v: &Values) -> (Vec<Decl>, Vec<&'static str>) {
    let t = |i: usize| v.texts[i].clone();
    let plain = RPathValue {
        summary: Some("path summary".into()),
        description: Some("path description".into()),
        ops: (0..8).map(|m| (m, op(vec![response(200, "OK", None)]))).collect(),
        params: vec![],
    };
    let get = ROperation {
        params: vec![
            ("deep".into(), param(0, false, of("Leaf"))),
            (t(6), param(1, v.bools[4], string_schema())),
        ],
        responses: vec![response(200, "fine", Some(of("Plain"))), response(404, "Not Found", None)],
        ..Default::default()
    };
    let long = RPathValue {
        params: vec![
            ("id".into(), param(2, true, int_schema("int32"))),
            ("leaf".into(), param(2, true, of("Leaf"))),
            ("strEnum".into(), param(2, true, of("StrEnum"))),
            (t(2), RParam { description: Some(t(3)), at: 1, required: v.bools[0], deprecated: v.bools[1], schema: Some(of("Plain")) }),
            (t(4), param(1, true, string_schema())),
            ("page".into(), param(0, false, int_schema("uint32"))),
            ("filter".into(), RParam { description: Some(t(5)), at: 0, required: v.bools[2], deprecated: v.bools[3], schema: Some(of("StrEnum")) }),
        ],
        ops: vec![(0, get)],
        ..Default::default()
    };
    let only = RPathValue {
        params: vec![("only".into(), param(2, true, of("MutA")))],
        ops: vec![(3, op(vec![response(204, "No Content", Some(null_schema()))]))],
        ..Default::default()
    };
    let last = op(vec![
        response(299, "", None),
        response(418, "I'm a teapot", None),
        response(503, "down", Some(use_of("Leaf", OPT))),
    ]);
    let decls = vec![
        Decl::Info("Literal".into(), None, t(0)),
        Decl::Path(lit(&["plain"]), plain),
        Decl::Path(lit(&["a", "{id}", "b", "{leaf}", "{strEnum}"]), long),
        Decl::Path(lit(&["{only}"]), only),
        Decl::Path(lit(&["z"]), RPathValue::default()),
        Decl::Path(lit(&["a"]), RPathValue { ops: vec![(7, last)], ..Default::default() }),
    ];
    (decls, vec!["Leaf", "StrEnum", "Plain", "MutA"])
}

fn t2() -> Opg {
    let mine = scheme(0);
    let other = scheme(1);
    describe_api! {
        tags: { alpha },
        info: { description: Conv(1), version: "v", title: e(0) },
        paths: {
            ("things" / {thing_id: Leaf}): {
                summary: "things",
                POST: {
                    summary: &e(3),
                    operationId: &Conv(5),
                    description: &e(7),
                    deprecated: b(0),
                    tags: { alpha, beta },
                    parameters: { (header e(2)) },
                    security: { "literal", mine && "second", other, mine && other },
                    body: { description: "the body", schema: NewTy, required: false },
                    callbacks: {
                        onEvent: {
                            ("cb" / {cid: String}): { POST: { body: MutA, 200: None } }
                        },
                        "literal name": {
                            ("x"): { summary: "x", GET: { 200("ok x"): Plain } },
                            ("y"): {
                                parameters: { (header e(4)): { description: e(9) } },
                                PUT: { security: { other }, body: { schema: Vec<StrEnum> }, 201: None },
                                DELETE: { summary: &e(11), 200: ReprEnum },
                            }
                        }
                    },
                    200("all good"): UsesInl,
                    201: None,
                    204: (),
                    404("nope"): Vec<Plain>,
                    999: Option<Leaf>,
                },
                PUT: { body: Gen<Leaf>, 200: SelfRef, deprecated: b(1) },
                GET: { tags: { gamma }, 200: Vec<Option<Leaf>>, 500("broken"): String },
            },
            ("things"): {
                POST: { security: { mine }, 200: None, summary: "a literal", description: &Conv(13), operationId: "op" },
            },
        },
    }
}

fn sec(names: &[&str]) -> Vec<(String, Vec<String>)> {
    names.iter().map(|n| ((*n).to_owned(), vec![])).collect()
}

fn x2(v: &Values) -> (Vec<Decl>, Vec<&'static str>) {
    let t = |i: usize| v.texts[i].clone();
    let some = |i: usize| Some(t(i));
    let body = |schema| Some((String::new(), true, schema));
    let on_event = RPathValue {
        params: vec![("cid".into(), param(2, true, string_schema()))],
        ops: vec![(2, ROperation { body: body(of("MutA")), ..op(vec![response(200, "OK", None)]) })],
        ..Default::default()
    };
    let x = RPathValue { summary: Some("x".into()), ops: vec![(0, op(vec![response(200, "ok x", Some(of("Plain")))]))], ..Default::default() };
    let y = RPathValue {
        params: vec![(t(4), RParam { description: some(9), ..param(1, true, string_schema()) })],
        ops: vec![
            (1, ROperation { security: vec![sec(&["other"])], body: body(use_of("StrEnum", VEC)), ..op(vec![response(201, "Created", None)]) }),
            (3, ROperation { summary: some(11), ..op(vec![response(200, "OK", Some(of("ReprEnum")))]) }),
        ],
        ..Default::default()
    };
    let post = ROperation {
        again: false,
        tags: vec!["alpha".into(), "beta".into()],
        summary: some(3),
        operation_id: some(5),
        description: some(7),
        deprecated: v.bools[0],
        security: vec![sec(&["literal"]), sec(&["mine", "second"]), sec(&["other"]), sec(&["mine", "other"])],
        body: Some(("the body".into(), false, of("NewTy"))),
        responses: vec![
            response(200, "all good", Some(of("UsesInl"))),
            response(201, "Created", None),
            response(204, "No Content", Some(null_schema())),
            response(404, "nope", Some(use_of("Plain", VEC))),
            response(999, "", Some(use_of("Leaf", OPT))),
        ],
        params: vec![(t(2), param(1, true, string_schema()))],
        callbacks: vec![
            ("onEvent".into(), vec![(lit(&["cb", "{cid}"]), on_event)]),
            ("literal name".into(), vec![(lit(&["x"]), x), (lit(&["y"]), y)]),
        ],
    };
    let put = ROperation { body: body(of("Gen")), deprecated: v.bools[1], ..op(vec![response(200, "OK", Some(of("SelfRef")))]) };
    let get = ROperation {
        tags: vec!["gamma".into()],
        ..op(vec![response(200, "OK", Some(use_of("Leaf", 6))), response(500, "broken", Some(string_schema()))])
    };
    let things = RPathValue {
        summary: Some("things".into()),
        params: vec![("thing_id".into(), param(2, true, of("Leaf")))],
        ops: vec![(2, post), (1, put), (0, get)],
        ..Default::default()
    };
    let post2 = ROperation {
        security: vec![sec(&["mine"])],
        summary: Some("a literal".into()),
        description: some(13),
        operation_id: Some("op".into()),
        ..op(vec![response(200, "OK", None)])
    };
    let decls = vec![
        Decl::Tag("alpha".into(), None),
        Decl::Info(t(0), some(1), "v".into()),
        Decl::Scheme("mine".into(), v.schemes[0].clone()),
        Decl::Scheme("other".into(), v.schemes[1].clone()),
        Decl::Path(lit(&["things", "{thing_id}"]), things),
        Decl::Path(lit(&["things"]), RPathValue { ops: vec![(2, post2)], ..Default::default() }),
    ];
    (decls, vec!["Leaf", "NewTy", "MutA", "Plain", "StrEnum", "ReprEnum", "UsesInl", "Gen", "SelfRef"])
}

fn t3() -> Opg {
    describe_api! {
        info: { title: e(0), version: e(1) },
        servers: { "b", "a", "c"("d") },
        paths: {
            ("z" / MutB): { GET: { 200: Diamond, 400: CycC } },
            ("m" / {x: NewOpt}): { POST: { body: UsesEnums, 200: Untagged, 201: AdjEnum } },
            ("a"): { PUT: { body: Deep, 200: RecEnum }, PATCH: { body: { schema: UsesInlEnum }, 200: InlEnum } },
            ("b"): { GET: { 200: Tup, 201: NewVec, 202: NewNew, 203: NewInl, 204: NewStr, 205: Fields, 206: Std } },
            ("c"): { GET: { 200: CycA, 201: CycB, 202: CycC, 203: MutA, 204: MutB, 205: ExtEnum, 206: Vec<IntEnum>, 207: Box<CycA> } },
        },
    }
}

fn x3(v: &Values) -> (Vec<Decl>, Vec<&'static str>) {
    let t = |i: usize| v.texts[i].clone();
    let ok = |code: u16, name: &str| {
        let reason = match code {
            200 => "OK",
            201 => "Created",
            202 => "Accepted",
            203 => "Non Authoritative Information",
            204 => "No Content",
            205 => "Reset Content",
            206 => "Partial Content",
            207 => "Multi-Status",
            _ => "Bad Request",
        };
        response(code, reason, Some(of(name)))
    };
    let body = |name: &str| Some((String::new(), true, of(name)));
    let with = |ops: Vec<(usize, ROperation)>, params: RParams| RPathValue { ops, params, ..Default::default() };
    let mut multi = op(vec![ok(200, "CycA"), ok(201, "CycB"), ok(202, "CycC"), ok(203, "MutA"), ok(204, "MutB"), ok(205, "ExtEnum")]);
    multi.responses.push(response(206, "Partial Content", Some(use_of("IntEnum", VEC))));
    multi.responses.push(response(207, "Multi-Status", Some(use_of("CycA", 2))));
    let decls = vec![
        Decl::Info(t(0), None, t(1)),
        Decl::Server("b".into(), None),
        Decl::Server("a".into(), None),
        Decl::Server("c".into(), Some("d".into())),
        Decl::Path(
            lit(&["z", "{mutB}"]),
            with(vec![(0, op(vec![ok(200, "Diamond"), ok(400, "CycC")]))], vec![("mutB".into(), param(2, true, of("MutB")))]),
        ),
        Decl::Path(
            lit(&["m", "{x}"]),
            with(
                vec![(2, ROperation { body: body("UsesEnums"), ..op(vec![ok(200, "Untagged"), ok(201, "AdjEnum")]) })],
                vec![("x".into(), param(2, true, of("NewOpt")))],
            ),
        ),
        Decl::Path(
            lit(&["a"]),
            with(
                vec![
                    (1, ROperation { body: body("Deep"), ..op(vec![ok(200, "RecEnum")]) }),
                    (6, ROperation { body: body("UsesInlEnum"), ..op(vec![ok(200, "InlEnum")]) }),
                ],
                vec![],
            ),
        ),
        Decl::Path(
            lit(&["b"]),
            with(
                vec![(
                    0,
                    op(vec![ok(200, "Tup"), ok(201, "NewVec"), ok(202, "NewNew"), ok(203, "NewInl"), ok(204, "NewStr"), ok(205, "Fields"), ok(206, "Std")]),
                )],
                vec![],
            ),
        ),
        Decl::Path(lit(&["c"]), with(vec![(0, multi)], vec![])),
    ];
    let uses = vec![
        "Diamond", "CycC", "MutB", "NewOpt", "UsesEnums", "Untagged", "AdjEnum", "Deep", "RecEnum", "UsesInlEnum", "InlEnum", "Tup", "NewVec",
        "NewNew", "NewInl", "NewStr", "Fields", "Std", "CycA", "CycB", "MutA", "ExtEnum", "IntEnum",
    ];
    (decls, uses)
}

/// Nothing but what is left out: every section at its default.
fn t4() -> Opg {
    describe_api! {
        paths: {
            ("q"): { GET: { 200: Leaf } },
            ("q2"): { parameters: { (query one: Leaf), (query two: Option<Plain>) }, },
        },
        info: { version: e(0), title: e(1) },
    }
}

fn x4(v: &Values) -> (Vec<Decl>, Vec<&'static str>) {
    let decls = vec![
        Decl::Info(v.texts[1].clone(), None, v.texts[0].clone()),
        Decl::Path(lit(&["q"]), RPathValue { ops: vec![(0, op(vec![response(200, "OK", Some(of("Leaf")))]))], ..Default::default() }),
        Decl::Path(
            lit(&["q2"]),
            RPathValue {
                params: vec![("one".into(), param(0, false, of("Leaf"))), ("two".into(), param(0, false, use_of("Plain", OPT)))],
                ..Default::default()
            },
        ),
    ];
    (decls, vec!["Leaf", "Plain"])
}

/// A schema given as an expression.
fn direct(i: usize) -> ModelReference {
    hit(format!("direct {}", i));
    direct_schema(i).to_opg()
}

fn direct_schema(i: usize) -> RRef {
    match i {
        0 => RRef::Link("Leaf".into()),
        1 => RRef::Any,
        _ => RRef::Inline(Box::new(RModel { description: None, data: RData::OneOf(vec![RRef::Link("Leaf".into()), RRef::Any]) })),
    }
}

/// Empty sections, properties in unusual orders, repeated sections, schemas given as expressions, callbacks in callbacks.
fn t5() -> Opg {
    let mine = scheme(2);
    let late = scheme(3);
    describe_api! {
        info: { version: e(0), title: Conv(1), description: e(2), },
        tags: {},
        servers: {},
        security_schemes: {},
        paths: {
            ("one" / "two" / crate::zoo_derive::StrEnum / "three" / {list: Vec<Leaf>}): {
                parameters: {},
                description: "only described",
                GET: {
                    200: { Some(direct(0)) },
                    201("said so"): { None },
                    202("by hand"): { Some(direct(1)) },
                    404: { Some(direct(2)) },
                    tags: { alpha },
                    security: {},
                    parameters: { (query q: NewNum), (header "X-Plain"), (query r: Option<InlStr>): { deprecated: b(0) } },
                    tags: { beta, },
                    callbacks: {},
                    parameters: { (header e(4)): { schema: Transp, deprecated: b(1) } },
                    security: { "after" },
                    tags: {},
                },
                POST: { body: { required: false, schema: RecUse }, 200: InlInt },
                PUT: { 200: None, body: { schema: InlAdj, description: "later" }, deprecated: b(2) },
                PATCH: { body: { required: true, description: "body first", schema: InlUn, }, 200("patched"): Opt2, },
                OPTIONS: {},
            },
            ("one" / "two"): {
                POST: {
                    callbacks: {
                        outer: {
                            ("o" / Leaf): {
                                PUT: {
                                    security: { mine, "text" && late },
                                    callbacks: {
                                        inner: {
                                            ("i" / {id: i64}): {
                                                GET: { operationId: &e(6), 200: Mixed<'static, i32, [Leaf]>, security: { late } },
                                                HEAD: { 200: None }
                                            }
                                        },
                                        "inner two": { ("j"): { TRACE: { 500: InlRepr, body: InlNew } } }
                                    },
                                    200: None,
                                }
                            }
                        },
                        empty: {}
                    },
                    deprecated: b(3),
                    200: Vec<NewNum>,
                },
                GET: { deprecated: false, security: { mine && late && "third" }, 200("same code"): None },
                summary: "summary last",
            },
        },
    }
}

fn x5(v: &Values) -> (Vec<Decl>, Vec<&'static str>) {
    let t = |i: usize| v.texts[i].clone();
    let some = |i: usize| Some(t(i));
    let raw = |i: usize| Some(RSchema::Raw(direct_schema(i)));
    let body = |description: &str, required: bool, schema| Some((description.to_owned(), required, schema));
    let get = ROperation {
        tags: vec!["alpha".into(), "beta".into()],
        security: vec![sec(&["after"])],
        params: vec![
            ("q".into(), param(0, false, of("NewNum"))),
            ("X-Plain".into(), param(1, true, string_schema())),
            ("r".into(), RParam { deprecated: v.bools[0], ..param(0, false, use_of("InlStr", OPT)) }),
            (t(4), RParam { deprecated: v.bools[1], ..param(1, true, of("Transp")) }),
        ],
        ..op(vec![response(200, "OK", raw(0)), response(201, "said so", None), response(202, "by hand", raw(1)), response(404, "Not Found", raw(2))])
    };
    let post = ROperation { body: body("", false, of("RecUse")), ..op(vec![response(200, "OK", Some(of("InlInt")))]) };
    let put = ROperation { body: body("later", true, of("InlAdj")), deprecated: v.bools[2], ..op(vec![response(200, "OK", None)]) };
    let patch = ROperation { body: body("body first", true, of("InlUn")), ..op(vec![response(200, "patched", Some(of("Opt2")))]) };
    let first = RPathValue {
        description: Some("only described".into()),
        params: vec![("strEnum".into(), param(2, true, of("StrEnum"))), ("list".into(), param(2, true, use_of("Leaf", VEC)))],
        ops: vec![(0, get), (2, post), (1, put), (6, patch), (4, op(vec![]))],
        ..Default::default()
    };
    let inner = RPathValue {
        params: vec![("id".into(), param(2, true, int_schema("int64")))],
        ops: vec![
            (0, ROperation { operation_id: some(6), security: vec![sec(&["late"])], ..op(vec![response(200, "OK", Some(of("Mixed")))]) }),
            (5, op(vec![response(200, "OK", None)])),
        ],
        ..Default::default()
    };
    let two = RPathValue {
        ops: vec![(7, ROperation { body: body("", true, of("InlNew")), ..op(vec![response(500, "Internal Server Error", Some(of("InlRepr")))]) })],
        ..Default::default()
    };
    let outer = RPathValue {
        params: vec![("leaf".into(), param(2, true, of("Leaf")))],
        ops: vec![(
            1,
            ROperation {
                security: vec![sec(&["mine"]), sec(&["late", "text"])],
                callbacks: vec![("inner".into(), vec![(lit(&["i", "{id}"]), inner)]), ("inner two".into(), vec![(lit(&["j"]), two)])],
                ..op(vec![response(200, "OK", None)])
            },
        )],
        ..Default::default()
    };
    let second = RPathValue {
        summary: Some("summary last".into()),
        ops: vec![
            (
                2,
                ROperation {
                    callbacks: vec![("outer".into(), vec![(lit(&["o", "{leaf}"]), outer)]), ("empty".into(), vec![])],
                    deprecated: v.bools[3],
                    ..op(vec![response(200, "OK", Some(use_of("NewNum", VEC)))])
                },
            ),
            (0, ROperation { security: vec![sec(&["late", "mine", "third"])], ..op(vec![response(200, "same code", None)]) }),
        ],
        ..Default::default()
    };
    let decls = vec![
        Decl::Info(t(1), some(2), t(0)),
        Decl::Scheme("mine".into(), v.schemes[2].clone()),
        Decl::Scheme("late".into(), v.schemes[3].clone()),
        Decl::Path(lit(&["one", "two", "{strEnum}", "three", "{list}"]), first),
        Decl::Path(lit(&["one", "two"]), second),
    ];
    let uses = vec![
        "StrEnum", "Leaf", "NewNum", "InlStr", "Transp", "RecUse", "InlInt", "InlAdj", "InlUn", "Opt2", "Leaf", "Mixed", "InlNew", "InlRepr", "NewNum",
    ];
    (decls, uses)
}

/// Types described by hand, in every sparse form.
fn t6() -> Opg {
    let model = describe_type!(string => {});
    let data = ModelData::AllOf(ModelAllOf { all_of: vec![ModelReference::Link("A".to_owned()), direct(1)] });
    let data2 = ModelData::Single(ModelType { nullable: true, type_description: ModelTypeDescription::Boolean });
    let name = e(0);
    let mut opg = describe_api! { info: { title: e(2), version: "" } };
    opg.components.add_model("A", describe_type!(raw_model => model));
    opg.components.add_model("B", describe_type!(raw_type => { description: "by hand" ident: data }));
    opg.components.add_model("C", describe_type!(raw_type => { ident: data2 }));
    opg.components.add_model("D", describe_type!(string => { example: "e" variants: [] }));
    opg.components.add_model("E", describe_type!(string => { format: "f" }));
    opg.components.add_model("F", describe_type!(number => { description: "d" }));
    opg.components.add_model("G", describe_type!(integer => { example: "9" }));
    opg.components.add_model("H", describe_type!(array => { items: (array => { description: "inner" items: (boolean => { description: "bit" }) }) }));
    opg.components.add_model("I", describe_type!(object => { properties: {} }));
    let all = describe_type!(object => {
        description: "everything required"
        properties: {
            b[required]: (link => "A")
            a[required]: (object => { description: "o" properties: { deep[required]: (array => { items: (link => "I") }) } })
            c[required]: (number => {})
        }
    });
    opg.components.add_model(&name, describe_type!(array => { items: (raw_model => all) }));
    opg
}

fn x6(v: &Values) -> (Vec<Decl>, Vec<&'static str>) {
    let st = |x: &str| Some(x.to_owned());
    let single = |d: Option<String>, t: RType| RModel { description: d, data: RData::Single(false, t) };
    let object = |props: Vec<(String, RRef)>, required: Vec<String>| RType::Object { props, additional: None, required };
    let boxed = |m: RModel| RRef::Inline(Box::new(m));
    let array = |r: RRef| RType::Array(Box::new(r));
    let link = |n: &str| RRef::Link(n.to_owned());
    let deep = object(vec![("deep".into(), boxed(single(None, array(link("I")))))], vec!["deep".into()]);
    let all = single(
        st("everything required"),
        object(
            vec![
                ("b".into(), link("A")),
                ("a".into(), boxed(single(st("o"), deep))),
                ("c".into(), boxed(single(None, RType::Num(None, None)))),
            ],
            vec!["b".into(), "a".into(), "c".into()],
        ),
    );
    let bits = single(st("inner"), array(boxed(single(st("bit"), RType::Bool))));
    let models = vec![
        ("A", single(None, RType::Str(None, None, None))),
        ("B", RModel { description: st("by hand"), data: RData::AllOf(vec![link("A"), RRef::Any]) }),
        ("C", RModel { description: None, data: RData::Single(true, RType::Bool) }),
        ("D", single(None, RType::Str(Some(vec![]), None, st("e")))),
        ("E", single(None, RType::Str(None, st("f"), None))),
        ("F", single(st("d"), RType::Num(None, None))),
        ("G", single(None, RType::Int(None, st("9")))),
        ("H", single(None, array(boxed(bits)))),
        ("I", single(None, object(vec![], vec![]))),
    ];
    let mut decls = vec![Decl::Info(v.texts[2].clone(), None, String::new())];
    decls.extend(models.into_iter().map(|(n, m)| Decl::Schema(n.into(), m)));
    decls.push(Decl::Schema(v.texts[0].clone(), single(None, array(boxed(all)))));
    (decls, vec![])
}

fn parts(t: usize, v: &Values) -> (Vec<Decl>, Vec<Use>) {
    let (decls, types) = match t {
        0 => (x0(v), vec![]),
        1 => x1(v),
        2 => x2(v),
        3 => x3(v),
        4 => x4(v),
        5 => x5(v),
        6 => x6(v),
        _ => (generated::DECLS[t - WRITTEN](v), generated::USES[t - WRITTEN].to_vec()),
    };
    let uses = types.iter().map(|n| Use::plain(TYPES.iter().position(|t| t.name == *n).expect("known"))).collect::<Vec<_>>();
    (decls, uses)
}

/// The document template `t` should give.
pub fn expected(t: usize, v: &Values) -> Val {
    let (decls, uses) = parts(t, v);
    expected_doc(&decls, &uses)
}

/// How often building template `t` should run the example expressions of derived types.
pub fn ticks_of(t: usize) -> BTreeMap<&'static str, u64> {
    let v = Values { texts: vec![String::new(); TEXTS], bools: vec![false; 16], schemes: vec![RScheme::Basic(None); 4] };
    let mut eval = DEval::default();
    parts(t, &v).1.iter().for_each(|u| eval.mention(u));
    eval.ticks
}

/// The expressions embedded in template `t`.
pub fn expressions(t: usize) -> BTreeSet<String> {
    if t >= WRITTEN {
        return generated::EXPRS[t - WRITTEN].iter().map(|x| (*x).to_owned()).collect();
    }
    let (texts, bools, direct): (&[usize], usize, &[usize]) = match t {
        0 => (&[20, 21, 22, 0, 1, 2, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14], 0, &[]),
        1 => (&[0, 2, 3, 4, 5, 6], 5, &[]),
        2 => (&[0, 1, 3, 5, 7, 2, 4, 9, 11, 13], 2, &[]),
        5 => (&[0, 1, 2, 4, 6], 4, &[0, 1, 2]),
        6 => (&[0, 2], 0, &[1]),
        _ => (&[0, 1], 0, &[]),
    };
    let texts = texts.iter().map(|i| format!("text {}", i));
    texts.chain((0..bools).map(|i| format!("bool {}", i))).chain(direct.iter().map(|i| format!("direct {}", i))).collect()
}
