// Written by tools/gen_templates.py; do not edit.
use super::*;

pub const COUNT: usize = 48;

#[allow(unused_variables, clippy::all)]
fn t0() -> Opg {
    describe_api! {
        paths: {  },
        security_schemes: { (http "http 2"): { scheme: Basic } },
        info: { title: "literal 1", version: e(21), description: e(1).as_str(), },
        tags: {  },
    }
}

#[allow(unused_variables)]
fn x0(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), Some(v.texts[1].clone()), v.texts[21].clone()),
        Decl::Scheme("http 2".to_owned(), RScheme::Basic(None)),
    ]
}
const U0: &[&str] = &[];
const E0: &[&str] = &["text 21", "text 1"];

#[allow(unused_variables, clippy::all)]
fn t1() -> Opg {
    let scheme19 = scheme(0);
    let scheme20 = scheme(1);
    let local26 = e(37);
    let local27 = e(1);
    describe_api! {
        servers: { "http://13"("server 14") },
        info: { title: if true { e(21) } else { String::new() }, version: &e(47), description: e(25), },
        paths: { ("p2" / "y.z" / "a b"): { parameters: { (header "literal 4") }, description: "path 3", }, ("x" / "a b" / {id7: std::collections::HashMap<String, NewTy>} / "p6"): { TRACE: { security: {  }, description: &format!("{}", e(57)), deprecated: !!b(6) }, HEAD: { operationId: e(19).as_str(), 404("response 10"): UsesInlEnum, 500("response 9"): (), 204: std::collections::HashMap<String, crate::zoo_derive::BigExt>, security: {  }, deprecated: !!b(13) }, summary: "path 8", DELETE: { 204: crate::zoo_derive::Transp, 503: None, 500("response 11"): Vec<UnMore>, callbacks: { cb12: {  } }, deprecated: true, security: {  }, 200: { None }, parameters: {  }, security: { "lit1", "lit0" }, }, }, },
        paths: { ("p16" / NewMap): { parameters: { (header e(18)): {  }, (query q18: Vec<Option<NewInt>>): {  }, (query id7: Option<NewStr>): {  } }, DELETE: { 403: i64, 2000: None, tags: { alpha, delta }, parameters: { (header "newMap"), (query q21: crate::zoo_derive::StrEnum): { description: e(11) } }, deprecated: b(8), parameters: {  }, security: { scheme19 && "lit1" && scheme20 }, body: { schema: InlUn }, tags: {  }, operationId: e(17).as_str(), }, description: "path 17" }, ("p23"): { summary: "path 24", POST: { parameters: {  }, body: { description: "body 25", schema: Vec<Option<crate::zoo_derive::IntEnum>> }, parameters: { (header "q21"), (header "newMap"): { schema: NewInl, deprecated: true, required: false }, (header "id7") }, summary: &{ let x = e(55); x }, 200: () }, } },
        servers: { local26, local27, },
    }
}

#[allow(unused_variables)]
fn x1(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[21].clone(), Some(v.texts[25].clone()), v.texts[47].clone()),
        Decl::Path(lit(&["p2", "y.z", "a b"]), RPathValue { description: Some("path 3".to_owned()), ops: vec![], params: vec![("literal 4".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Path(lit(&["x", "a b", "{id7}", "p6"]), RPathValue { summary: Some("path 8".to_owned()), ops: vec![(5, ROperation { operation_id: Some(v.texts[19].clone()), deprecated: v.bools[13], tags: vec![], security: vec![], params: vec![], responses: vec![response(404, "response 10", Some(use_of("UsesInlEnum", 0))), response(500, "response 9", Some(null_schema())), response(204, "No Content", Some(use_of("BigExt", 4)))], callbacks: vec![], ..Default::default() }), (3, ROperation { deprecated: true, tags: vec![], security: vec![sec(&["lit1"]), sec(&["lit0"])], params: vec![], responses: vec![response(204, "No Content", Some(use_of("Transp", 0))), response(503, "Service Unavailable", None), response(500, "response 11", Some(use_of("UnMore", 3))), response(200, "OK", None)], callbacks: vec![("cb12".to_owned(), vec![])], ..Default::default() }), (7, ROperation { description: Some(v.texts[57].clone()), deprecated: v.bools[6], tags: vec![], security: vec![], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("id7".to_owned(), param(2, true, use_of("NewTy", 4)))], ..Default::default() }),
        Decl::Server("http://13".to_owned(), Some("server 14".to_owned())),
        Decl::Path(lit(&["p16", "{newMap}"]), RPathValue { description: Some("path 17".to_owned()), ops: vec![(3, ROperation { operation_id: Some(v.texts[17].clone()), deprecated: v.bools[8], body: Some((String::new(), true, use_of("InlUn", 0))), tags: vec!["alpha".to_owned(), "delta".to_owned()], security: vec![sec(&["lit1", "scheme19", "scheme20"])], params: vec![("newMap".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q21".to_owned(), RParam { description: Some(v.texts[11].clone()), at: 0, required: false, deprecated: false, schema: Some(use_of("StrEnum", 0)) })], responses: vec![response(403, "Forbidden", Some(int_schema("int64"))), response(2000, "", None)], callbacks: vec![], ..Default::default() })], params: vec![("newMap".to_owned(), param(2, true, of("NewMap"))), (v.texts[18].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q18".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewInt", 6)) }), ("id7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewStr", 1)) })], ..Default::default() }),
        Decl::Path(lit(&["p23"]), RPathValue { summary: Some("path 24".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[55].clone()), body: Some(("body 25".to_owned(), true, use_of("IntEnum", 6))), tags: vec![], security: vec![], params: vec![("q21".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("newMap".to_owned(), RParam { description: None, at: 1, required: false, deprecated: true, schema: Some(use_of("NewInl", 0)) }), ("id7".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(200, "OK", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Server(v.texts[37].clone(), None),
        Decl::Server(v.texts[1].clone(), None),
        Decl::Scheme("scheme19".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme20".to_owned(), v.schemes[1].clone()),
    ]
}
const U1: &[&str] = &["NewTy", "BigExt", "UsesInlEnum", "UnMore", "Transp", "NewMap", "NewInt", "NewStr", "InlUn", "StrEnum", "IntEnum", "NewInl"];
const E1: &[&str] = &["text 21", "text 47", "text 25", "text 19", "bool 13", "text 57", "bool 6", "text 18", "text 17", "bool 8", "text 11", "text 55", "text 37", "text 1"];

#[allow(unused_variables, clippy::all)]
fn t2() -> Opg {
    let scheme14 = scheme(0);
    let scheme15 = scheme(1);
    let scheme21 = scheme(2);
    let local45 = e(31);
    describe_api! {
        tags: { tag2(if true { e(39) } else { String::new() }), tag3("literal 4"), tag5(e(11).as_str()) },
        servers: { "http://43"("server 44"), local45("server 46") },
        paths: { ("p7"): { POST: { summary: &{ let x = e(25); x }, callbacks: {  }, 409("response 12"): ExTup, parameters: { (query q10: Box<NewTy>), (query q11: StrEnum): { description: &e(9), required: !!b(2) } }, parameters: { (query q9: Option<UsesEnums>) } }, TRACE: { summary: &{ let x = e(27); x }, 999: Box<CycB>, deprecated: b(9), 1("response 8"): None, parameters: {  }, tags: {  }, }, OPTIONS: { security: { scheme14, scheme15 }, 404: { None }, parameters: { (header &e(20)) }, 100("response 18"): (), 500: { Some(direct(2)) }, summary: "literal 13", parameters: { (header "literal 16"), (header "q9"): { required: true, schema: i64 }, (query q17: MutB) }, description: &format!("{}", e(21)), security: { "lit1" }, deprecated: b(14), }, }, ("p20" / "v1" / "a b" / "x"): { parameters: {  }, GET: { 409("response 30"): None, parameters: { (query q26: Vec<NewObj>), (header e(32)) }, callbacks: { "cb31": { ("c33" / {id34: Vec<Option<Mixed<'static, i32, [Leaf]>>>} / "v1"): { DELETE: { tags: { beta }, security: {  }, 299("response 36"): String, summary: e(23).as_str(), tags: { gamma, beta }, parameters: { (query q35: u8): { description: e(45), deprecated: { b(11) }, required: true, schema: Option<Box<Transp>> } } }, parameters: { (query q28: Vec<InlAdj>): { required: !!b(5) } } }, ("c38" / "x" / "x" / {id39: ChainAdN} / {id40: Vec<Option<Gen<Leaf>>>}): { description: "path 42", summary: "path 41" } } }, parameters: { (query q27: Vec<Option<Diamond>>): {  }, (query q28: u32), (query q24: crate::zoo_derive::NewObj) }, summary: "", 403: { None }, 202("response 29"): (), 204: std::collections::HashMap<String, NewUn8>, description: &e(1) }, OPTIONS: { parameters: { (header { let x = e(6); x }), (header "q11") }, body: { schema: Option<Box<CycC>>, required: false }, parameters: { (header { let x = e(34); x }): { required: b(12), description: "literal 22", schema: Option<InlTup>, deprecated: { b(0) } }, (query q23: Option<Box<InlExt>>): { schema: Box<Diamond> }, (query q24: u32) }, 2000: i64, security: { "lit0" }, 301("response 25"): None, security: { scheme14 && scheme21 }, 999: std::collections::HashMap<String, crate::zoo_derive::NewObj>, description: &Conv(35), tags: { gamma } } } },
        info: { description: { let x = e(41); x }, title: "literal 1", version: Conv(49) },
    }
}

#[allow(unused_variables)]
fn x2(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), Some(v.texts[41].clone()), v.texts[49].clone()),
        Decl::Tag("tag2".to_owned(), Some(v.texts[39].clone())),
        Decl::Tag("tag3".to_owned(), Some("literal 4".to_owned())),
        Decl::Tag("tag5".to_owned(), Some(v.texts[11].clone())),
        Decl::Path(lit(&["p7"]), RPathValue { ops: vec![(7, ROperation { summary: Some(v.texts[27].clone()), deprecated: v.bools[9], tags: vec![], security: vec![], params: vec![], responses: vec![response(999, "", Some(use_of("CycB", 2))), response(1, "response 8", None)], callbacks: vec![], ..Default::default() }), (2, ROperation { summary: Some(v.texts[25].clone()), tags: vec![], security: vec![], params: vec![("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewTy", 2)) }), ("q11".to_owned(), RParam { description: Some(v.texts[9].clone()), at: 0, required: v.bools[2], deprecated: false, schema: Some(use_of("StrEnum", 0)) }), ("q9".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("UsesEnums", 1)) })], responses: vec![response(409, "response 12", Some(use_of("ExTup", 0)))], callbacks: vec![], ..Default::default() }), (4, ROperation { summary: Some("literal 13".to_owned()), description: Some(v.texts[21].clone()), deprecated: v.bools[14], tags: vec![], security: vec![sec(&["scheme14"]), sec(&["scheme15"]), sec(&["lit1"])], params: vec![(v.texts[20].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("literal 16".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q9".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(int_schema("int64")) }), ("q17".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("MutB", 0)) })], responses: vec![response(404, "Not Found", None), response(100, "response 18", Some(null_schema())), response(500, "Internal Server Error", Some(RSchema::Raw(direct_schema(2))))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p20", "v1", "a b", "x"]), RPathValue { ops: vec![(4, ROperation { description: Some(v.texts[35].clone()), body: Some((String::new(), false, use_of("CycC", 5))), tags: vec!["gamma".to_owned()], security: vec![sec(&["lit0"]), sec(&["scheme14", "scheme21"])], params: vec![(v.texts[6].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q11".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[34].clone(), RParam { description: Some("literal 22".to_owned()), at: 1, required: v.bools[12], deprecated: v.bools[0], schema: Some(use_of("InlTup", 1)) }), ("q23".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Diamond", 2)) }), ("q24".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("uint32")) })], responses: vec![response(2000, "", Some(int_schema("int64"))), response(301, "response 25", None), response(999, "", Some(use_of("NewObj", 4)))], callbacks: vec![], ..Default::default() }), (0, ROperation { summary: Some("".to_owned()), description: Some(v.texts[1].clone()), tags: vec![], security: vec![], params: vec![("q26".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewObj", 3)) }), (v.texts[32].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q27".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Diamond", 6)) }), ("q28".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("uint32")) }), ("q24".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewObj", 0)) })], responses: vec![response(409, "response 30", None), response(403, "Forbidden", None), response(202, "response 29", Some(null_schema())), response(204, "No Content", Some(use_of("NewUn8", 4)))], callbacks: vec![("cb31".to_owned(), vec![(lit(&["c33", "{id34}", "v1"]), RPathValue { ops: vec![(3, ROperation { summary: Some(v.texts[23].clone()), tags: vec!["beta".to_owned(), "gamma".to_owned(), "beta".to_owned()], security: vec![], params: vec![("q35".to_owned(), RParam { description: Some(v.texts[45].clone()), at: 0, required: true, deprecated: v.bools[11], schema: Some(use_of("Transp", 5)) })], responses: vec![response(299, "response 36", Some(string_schema()))], callbacks: vec![], ..Default::default() })], params: vec![("id34".to_owned(), param(2, true, use_of("Mixed", 6))), ("q28".to_owned(), RParam { description: None, at: 0, required: v.bools[5], deprecated: false, schema: Some(use_of("InlAdj", 3)) })], ..Default::default() }), (lit(&["c38", "x", "x", "{id39}", "{id40}"]), RPathValue { summary: Some("path 41".to_owned()), description: Some("path 42".to_owned()), ops: vec![], params: vec![("id39".to_owned(), param(2, true, use_of("ChainAdN", 0))), ("id40".to_owned(), param(2, true, use_of("Gen", 6)))], ..Default::default() })])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Server("http://43".to_owned(), Some("server 44".to_owned())),
        Decl::Server(v.texts[31].clone(), Some("server 46".to_owned())),
        Decl::Scheme("scheme14".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme15".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme21".to_owned(), v.schemes[2].clone()),
    ]
}
const U2: &[&str] = &["CycB", "UsesEnums", "NewTy", "StrEnum", "ExTup", "MutB", "CycC", "InlTup", "InlExt", "Diamond", "NewObj", "NewObj", "Diamond", "NewObj", "NewUn8", "Mixed", "InlAdj", "Transp", "ChainAdN", "Gen"];
const E2: &[&str] = &["text 49", "text 41", "text 39", "text 11", "text 27", "bool 9", "text 25", "text 9", "bool 2", "text 21", "bool 14", "text 20", "direct 2", "text 35", "text 6", "text 34", "bool 12", "bool 0", "text 1", "text 32", "bool 5", "text 23", "text 45", "bool 11", "text 31"];

#[allow(unused_variables, clippy::all)]
fn t3() -> Opg {
    let scheme7 = scheme(0);
    let scheme8 = scheme(1);
    describe_api! {
        tags: { tag1(&e(35)), tag2, },
        security_schemes: {  },
        tags: {  },
        paths: { ("p4"): { PUT: { 409("response 12"): Option<ReprEnum>, 201("response 11"): Option<Box<ChainSt>>, security: { "lit2" && scheme7, scheme8 && scheme7 }, 401: None, 202: Vec<Plain>, parameters: { (query q9: NewMap): { description: &e(57), schema: Box<crate::zoo_derive::UnMore>, required: { b(3) } }, (query q10: std::collections::HashMap<String, InlAdj>), (header e(24).as_str()) }, operationId: &Conv(59), }, summary: "path 5", description: "path 6" } },
        info: { title: { let x = e(39); x }, version: if true { e(3) } else { String::new() } }
    }
}

#[allow(unused_variables)]
fn x3(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[39].clone(), None, v.texts[3].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[35].clone())),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Path(lit(&["p4"]), RPathValue { summary: Some("path 5".to_owned()), description: Some("path 6".to_owned()), ops: vec![(1, ROperation { operation_id: Some(v.texts[59].clone()), tags: vec![], security: vec![sec(&["lit2", "scheme7"]), sec(&["scheme7", "scheme8"])], params: vec![("q9".to_owned(), RParam { description: Some(v.texts[57].clone()), at: 0, required: v.bools[3], deprecated: false, schema: Some(use_of("UnMore", 2)) }), ("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlAdj", 4)) }), (v.texts[24].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(409, "response 12", Some(use_of("ReprEnum", 1))), response(201, "response 11", Some(use_of("ChainSt", 5))), response(401, "Unauthorized", None), response(202, "Accepted", Some(use_of("Plain", 3)))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme7".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme8".to_owned(), v.schemes[1].clone()),
    ]
}
const U3: &[&str] = &["NewMap", "UnMore", "InlAdj", "ChainSt", "Plain", "ReprEnum"];
const E3: &[&str] = &["text 39", "text 3", "text 35", "text 59", "text 57", "bool 3", "text 24"];

#[allow(unused_variables, clippy::all)]
fn t4() -> Opg {
    let scheme5 = scheme(0);
    let scheme6 = scheme(1);
    let scheme22 = scheme(2);
    let scheme23 = scheme(3);
    describe_api! {
        paths: { (DiamondSide / "v1" / "p3" / "x"): { GET: { security: {  }, parameters: { (query q7: Vec<IntBody>): { required: { b(13) }, description: "literal 8" }, (query diamondSide: i64), (header Conv(60)): { schema: CycC, required: b(8) } }, security: { "lit2", "lit0" && scheme5 && scheme6 }, 409("response 10"): Option<MutB>, parameters: { (query q9: Std): { description: Conv(51), required: { b(5) }, deprecated: { b(15) } }, (header e(40)): { description: { let x = e(17); x }, deprecated: false } }, 418: None, 999("response 11"): Vec<NewNum>, callbacks: { "cb12/{$request.body#/url}": { ("c14" / {id15: ExTup} / ExtEnum): { parameters: { (header if true { e(28) } else { String::new() }): {  }, (header "q7"): { deprecated: { b(4) }, required: b(6), schema: Box<CycC>, description: e(53) } }, summary: "path 16", GET: { parameters: {  }, deprecated: true, summary: e(29).as_str(), 204("response 17"): { Some(direct(2)) }, security: {  }, tags: {  }, tags: { delta } }, }, ("c19" / "a b" / "x"): { description: "path 20", parameters: { (header { let x = e(62); x }): { description: "", schema: BigObj, required: !!b(3), deprecated: false }, (query q21: crate::zoo_derive::NewTy): {  }, (header e(42)) }, HEAD: { description: &e(9), body: { schema: ExExt }, summary: &Conv(43), 429: { Some(direct(0)) }, 599: Option<NewTy>, 301: ChainTu, parameters: {  }, 204("response 25"): Vec<Option<ChainExT>>, security: { scheme22, scheme23, scheme22 }, operationId: &e(27), parameters: { (header "literal 24"): {  } }, }, } }, cb26: { ("c28" / NewVecUn / "x" / "y.z"): { TRACE: { deprecated: true, operationId: "", parameters: { (query q9: Vec<BigInt>): { deprecated: { b(14) }, schema: Option<crate::zoo_derive::IntEnum> }, (query q30: Vec<Option<StrEnum>>): {  }, (header "q7") }, tags: { gamma } }, description: "path 29", PUT: { deprecated: true, security: { "lit0" }, 401: crate::zoo_derive::InlAdj, 500: Vec<ExUn>, security: { "lit0" && scheme22 && scheme6, scheme23 && scheme22 && scheme5, "lit2" }, body: { schema: String, required: false }, summary: e(15).as_str(), parameters: { (header Conv(44)), (query newVecUn: u32): { required: false, deprecated: true, schema: crate::zoo_derive::MutB }, (header "literal 31") }, 200: Untagged, 301: { Some(direct(1)) } }, parameters: { (query extEnum: InlTup) } } } }, 400: { None } }, PUT: { description: "literal 36", deprecated: { b(7) }, 404: None, operationId: &e(11), parameters: {  }, tags: { beta, gamma }, 403: None, summary: &Conv(37), 204: Option<Mixed<'static, i32, [Leaf]>>, tags: { delta, beta }, }, summary: "path 4", OPTIONS: { parameters: { (header e(20).as_str()): { required: false, description: "literal 33", schema: UnMore }, (query q34: BigUn): { required: { b(0) }, description: if true { e(45) } else { String::new() }, deprecated: true }, (header &e(4)): { description: Conv(55), schema: UsesEnums, required: true } }, parameters: { (header { let x = e(56); x }): { required: true, deprecated: !!b(2), description: &e(19) } }, 301: { None }, security: { "lit0", scheme23 }, 201: Vec<NewInl>, body: { schema: ChainAdN, description: "body 32", required: true }, callbacks: { cb35: {  } } } }, ("p38" / {id39: RecEnum} / {id40: i64}): { summary: "path 41", PUT: { tags: { gamma }, operationId: "", tags: { gamma }, callbacks: {  }, parameters: {  }, body: ExAdj }, }, },
        tags: {  },
        info: { title: &e(49), description: e(33), version: "literal 1" },
        security_schemes: { (apiKey { let x = e(8); x }): { name: { let x = e(61); x }, parameter_in: Path }, (apiKey Conv(30)): { name: e(41) } }
    }
}

#[allow(unused_variables)]
fn x4(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[49].clone(), Some(v.texts[33].clone()), "literal 1".to_owned()),
        Decl::Scheme(v.texts[8].clone(), RScheme::ApiKey(2, v.texts[61].clone(), None)),
        Decl::Scheme(v.texts[30].clone(), RScheme::ApiKey(1, v.texts[41].clone(), None)),
        Decl::Path(lit(&["{diamondSide}", "v1", "p3", "x"]), RPathValue { summary: Some("path 4".to_owned()), ops: vec![(0, ROperation { tags: vec![], security: vec![sec(&["lit2"]), sec(&["lit0", "scheme5", "scheme6"])], params: vec![("q7".to_owned(), RParam { description: Some("literal 8".to_owned()), at: 0, required: v.bools[13], deprecated: false, schema: Some(use_of("IntBody", 3)) }), ("diamondSide".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("int64")) }), (v.texts[60].clone(), RParam { description: None, at: 1, required: v.bools[8], deprecated: false, schema: Some(use_of("CycC", 0)) }), ("q9".to_owned(), RParam { description: Some(v.texts[51].clone()), at: 0, required: v.bools[5], deprecated: v.bools[15], schema: Some(use_of("Std", 0)) }), (v.texts[40].clone(), RParam { description: Some(v.texts[17].clone()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(409, "response 10", Some(use_of("MutB", 1))), response(418, "I'm a teapot", None), response(999, "response 11", Some(use_of("NewNum", 3))), response(400, "Bad Request", None)], callbacks: vec![("cb12/{$request.body#/url}".to_owned(), vec![(lit(&["c14", "{id15}", "{extEnum}"]), RPathValue { summary: Some("path 16".to_owned()), ops: vec![(0, ROperation { summary: Some(v.texts[29].clone()), deprecated: true, tags: vec!["delta".to_owned()], security: vec![], params: vec![], responses: vec![response(204, "response 17", Some(RSchema::Raw(direct_schema(2))))], callbacks: vec![], ..Default::default() })], params: vec![("id15".to_owned(), param(2, true, use_of("ExTup", 0))), ("extEnum".to_owned(), param(2, true, of("ExtEnum"))), (v.texts[28].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q7".to_owned(), RParam { description: Some(v.texts[53].clone()), at: 1, required: v.bools[6], deprecated: v.bools[4], schema: Some(use_of("CycC", 2)) })], ..Default::default() }), (lit(&["c19", "a b", "x"]), RPathValue { description: Some("path 20".to_owned()), ops: vec![(5, ROperation { summary: Some(v.texts[43].clone()), operation_id: Some(v.texts[27].clone()), description: Some(v.texts[9].clone()), body: Some((String::new(), true, use_of("ExExt", 0))), tags: vec![], security: vec![sec(&["scheme22"]), sec(&["scheme23"]), sec(&["scheme22"])], params: vec![("literal 24".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(429, "Too Many Requests", Some(RSchema::Raw(direct_schema(0)))), response(599, "", Some(use_of("NewTy", 1))), response(301, "Moved Permanently", Some(use_of("ChainTu", 0))), response(204, "response 25", Some(use_of("ChainExT", 6)))], callbacks: vec![], ..Default::default() })], params: vec![(v.texts[62].clone(), RParam { description: Some("".to_owned()), at: 1, required: v.bools[3], deprecated: false, schema: Some(use_of("BigObj", 0)) }), ("q21".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewTy", 0)) }), (v.texts[42].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() })]), ("cb26".to_owned(), vec![(lit(&["c28", "{newVecUn}", "x", "y.z"]), RPathValue { description: Some("path 29".to_owned()), ops: vec![(7, ROperation { operation_id: Some("".to_owned()), deprecated: true, tags: vec!["gamma".to_owned()], security: vec![], params: vec![("q9".to_owned(), RParam { description: None, at: 0, required: false, deprecated: v.bools[14], schema: Some(use_of("IntEnum", 1)) }), ("q30".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("StrEnum", 6)) }), ("q7".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() }), (1, ROperation { summary: Some(v.texts[15].clone()), deprecated: true, body: Some((String::new(), false, string_schema())), tags: vec![], security: vec![sec(&["lit0"]), sec(&["lit0", "scheme22", "scheme6"]), sec(&["scheme22", "scheme23", "scheme5"]), sec(&["lit2"])], params: vec![(v.texts[44].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("newVecUn".to_owned(), RParam { description: None, at: 0, required: false, deprecated: true, schema: Some(use_of("MutB", 0)) }), ("literal 31".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(401, "Unauthorized", Some(use_of("InlAdj", 0))), response(500, "Internal Server Error", Some(use_of("ExUn", 3))), response(200, "OK", Some(use_of("Untagged", 0))), response(301, "Moved Permanently", Some(RSchema::Raw(direct_schema(1))))], callbacks: vec![], ..Default::default() })], params: vec![("newVecUn".to_owned(), param(2, true, of("NewVecUn"))), ("extEnum".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlTup", 0)) })], ..Default::default() })])], ..Default::default() }), (4, ROperation { body: Some(("body 32".to_owned(), true, use_of("ChainAdN", 0))), tags: vec![], security: vec![sec(&["lit0"]), sec(&["scheme23"])], params: vec![(v.texts[20].clone(), RParam { description: Some("literal 33".to_owned()), at: 1, required: false, deprecated: false, schema: Some(use_of("UnMore", 0)) }), ("q34".to_owned(), RParam { description: Some(v.texts[45].clone()), at: 0, required: v.bools[0], deprecated: true, schema: Some(use_of("BigUn", 0)) }), (v.texts[4].clone(), RParam { description: Some(v.texts[55].clone()), at: 1, required: true, deprecated: false, schema: Some(use_of("UsesEnums", 0)) }), (v.texts[56].clone(), RParam { description: Some(v.texts[19].clone()), at: 1, required: true, deprecated: v.bools[2], schema: Some(string_schema()) })], responses: vec![response(301, "Moved Permanently", None), response(201, "Created", Some(use_of("NewInl", 3)))], callbacks: vec![("cb35".to_owned(), vec![])], ..Default::default() }), (1, ROperation { summary: Some(v.texts[37].clone()), operation_id: Some(v.texts[11].clone()), description: Some("literal 36".to_owned()), deprecated: v.bools[7], tags: vec!["beta".to_owned(), "gamma".to_owned(), "delta".to_owned(), "beta".to_owned()], security: vec![], params: vec![], responses: vec![response(404, "Not Found", None), response(403, "Forbidden", None), response(204, "No Content", Some(use_of("Mixed", 1)))], callbacks: vec![], ..Default::default() })], params: vec![("diamondSide".to_owned(), param(2, true, of("DiamondSide")))], ..Default::default() }),
        Decl::Path(lit(&["p38", "{id39}", "{id40}"]), RPathValue { summary: Some("path 41".to_owned()), ops: vec![(1, ROperation { operation_id: Some("".to_owned()), body: Some((String::new(), true, use_of("ExAdj", 0))), tags: vec!["gamma".to_owned(), "gamma".to_owned()], security: vec![], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("id39".to_owned(), param(2, true, use_of("RecEnum", 0))), ("id40".to_owned(), param(2, true, int_schema("int64")))], ..Default::default() }),
        Decl::Scheme("scheme5".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme6".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme22".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme23".to_owned(), v.schemes[3].clone()),
    ]
}
const U4: &[&str] = &["DiamondSide", "IntBody", "CycC", "Std", "MutB", "NewNum", "ExTup", "ExtEnum", "CycC", "BigObj", "NewTy", "ExExt", "ChainTu", "ChainExT", "NewTy", "NewVecUn", "InlTup", "BigInt", "IntEnum", "StrEnum", "MutB", "ExUn", "Untagged", "InlAdj", "ChainAdN", "UnMore", "BigUn", "UsesEnums", "NewInl", "Mixed", "RecEnum", "ExAdj"];
const E4: &[&str] = &["text 49", "text 33", "text 8", "text 61", "text 30", "text 41", "bool 13", "text 60", "bool 8", "text 51", "bool 5", "bool 15", "text 40", "text 17", "text 28", "bool 4", "bool 6", "text 53", "text 29", "direct 2", "text 62", "bool 3", "text 42", "text 43", "text 27", "text 9", "direct 0", "bool 14", "text 15", "text 44", "direct 1", "text 20", "bool 0", "text 45", "text 4", "text 55", "text 56", "bool 2", "text 19", "text 37", "text 11", "bool 7"];

#[allow(unused_variables, clippy::all)]
fn t5() -> Opg {
    let scheme7 = scheme(0);
    let scheme8 = scheme(1);
    let scheme12 = scheme(2);
    let scheme38 = scheme(3);
    describe_api! {
        paths: { ("p5"): { GET: { tags: {  }, operationId: &format!("{}", e(17)), callbacks: { "cb16": { ("c18"): { summary: "path 19", PUT: { 999("response 25"): { Some(direct(1)) }, 401: (), operationId: "literal 20", 299("response 24"): { Some(direct(2)) }, tags: { gamma, beta }, parameters: { (query q21: i64), (query q14: ExExt): { description: "literal 22", schema: Option<Box<CycC>> } }, parameters: { (query q23: u8): { description: if true { e(21) } else { String::new() }, required: { b(14) }, schema: Vec<Option<crate::zoo_derive::InlEnum>>, deprecated: b(4) }, (header "q9"): { required: b(2), schema: NewObj } }, summary: &Conv(55) }, parameters: {  } }, ("c27" / "y.z" / "y.z" / {id28: Option<NewTy>}): { PATCH: { body: { description: "body 29", schema: Vec<crate::zoo_derive::Std>, required: true }, 2000: { Some(direct(0)) }, parameters: {  }, 201("response 32"): { None }, deprecated: b(1), parameters: { (header "literal 30"): { required: true, schema: ChainUnS }, (header { let x = e(14); x }): { description: "literal 31", schema: Vec<Option<ExInt>>, required: true, deprecated: false } }, security: {  }, security: { "lit0" }, 400: Gen<Leaf> }, } }, cb33: { ("c35"): { summary: "path 36", DELETE: { deprecated: true, parameters: { (header e(34)): { deprecated: true, description: "literal 42", schema: Option<Box<crate::zoo_derive::UsesEnums>>, required: !!b(10) }, (header "q14"): { required: !!b(0), schema: Exs, description: "literal 43", deprecated: { b(7) } } }, tags: {  }, tags: { delta, beta }, summary: &Conv(11), operationId: "literal 41" }, GET: { security: { scheme38 }, 201: { None }, summary: "literal 37", body: Option<Box<GenRef<'static, Plain, StrEnum>>>, security: { scheme7 && scheme12 }, 204: None, parameters: { (header "literal 39"): { required: true, schema: MutB } }, 2000("response 40"): None, 599: { None } }, HEAD: { 404: { None }, security: {  }, tags: { alpha, beta }, 200: { None }, parameters: { (header "q9"), (header e(20).as_str()) }, security: { "lit1" && scheme8 }, 403("response 44"): String, description: &Conv(9) } }, ("c46" / "x" / {id47: u32} / "x" / {id47: u32}): { parameters: {  }, description: "path 48", POST: { summary: &e(13), 401: (), parameters: { (query q23: Vec<Option<BigAdj>>) }, description: &{ let x = e(27); x }, 599: InlStr, parameters: { (header "q9"), (header Conv(54)), (header e(36)): {  } }, 299: () }, } } }, tags: {  }, body: Option<Box<DiamondSide>> }, HEAD: { 429: None, 301("response 15"): { None }, summary: "literal 10", body: { schema: String }, 1: Option<Box<NewVecUn>>, security: { scheme7, "lit1" && scheme8, scheme12 }, deprecated: { b(3) }, parameters: { (query q13: Exs): { schema: Vec<Wide>, required: !!b(12), deprecated: b(15) }, (query q14: Box<InlInt>): { deprecated: { b(13) }, required: false, schema: Vec<BigExt>, description: "" } }, operationId: "literal 11" }, parameters: {  }, description: "path 6", OPTIONS: { summary: "", parameters: { (query q9: Option<crate::zoo_derive::CycA>): {  } }, security: { scheme7 && "lit1", scheme7 && scheme8, "lit2" && "lit0" }, deprecated: !!b(5), 401: std::collections::HashMap<String, Wide>, operationId: &format!("{}", e(5)), } }, },
        info: { title: { let x = e(47); x }, version: Conv(61) },
        tags: { tag1({ let x = e(7); x }), tag2(e(29)), tag3(Conv(31)) },
        servers: { "http://49", },
        paths: { ("p51"): { summary: "path 52" }, ("v1" / "p54" / RecUse / "x" / "x"): { DELETE: { operationId: &format!("{}", e(15)), tags: {  }, deprecated: !!b(8), parameters: { (header e(42).as_str()): { schema: String, required: true, deprecated: !!b(11) }, (header { let x = e(40); x }): { required: { b(6) }, description: { let x = e(33); x }, deprecated: { b(9) }, schema: Option<Box<ChainAdN>> }, (query q55: GenRef<'static, Plain, StrEnum>) }, summary: &format!("{}", e(3)), 304("response 56"): (), security: { scheme38 && scheme12, scheme38, "lit0" } } } },
        servers: {  }
    }
}

#[allow(unused_variables)]
fn x5(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[47].clone(), None, v.texts[61].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[7].clone())),
        Decl::Tag("tag2".to_owned(), Some(v.texts[29].clone())),
        Decl::Tag("tag3".to_owned(), Some(v.texts[31].clone())),
        Decl::Path(lit(&["p5"]), RPathValue { description: Some("path 6".to_owned()), ops: vec![(4, ROperation { summary: Some("".to_owned()), operation_id: Some(v.texts[5].clone()), deprecated: v.bools[5], tags: vec![], security: vec![sec(&["lit1", "scheme7"]), sec(&["scheme7", "scheme8"]), sec(&["lit0", "lit2"])], params: vec![("q9".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("CycA", 1)) })], responses: vec![response(401, "Unauthorized", Some(use_of("Wide", 4)))], callbacks: vec![], ..Default::default() }), (5, ROperation { summary: Some("literal 10".to_owned()), operation_id: Some("literal 11".to_owned()), deprecated: v.bools[3], body: Some((String::new(), true, string_schema())), tags: vec![], security: vec![sec(&["scheme7"]), sec(&["lit1", "scheme8"]), sec(&["scheme12"])], params: vec![("q13".to_owned(), RParam { description: None, at: 0, required: v.bools[12], deprecated: v.bools[15], schema: Some(use_of("Wide", 3)) }), ("q14".to_owned(), RParam { description: Some("".to_owned()), at: 0, required: false, deprecated: v.bools[13], schema: Some(use_of("BigExt", 3)) })], responses: vec![response(429, "Too Many Requests", None), response(301, "response 15", None), response(1, "", Some(use_of("NewVecUn", 5)))], callbacks: vec![], ..Default::default() }), (0, ROperation { operation_id: Some(v.texts[17].clone()), body: Some((String::new(), true, use_of("DiamondSide", 5))), tags: vec![], security: vec![], params: vec![], responses: vec![], callbacks: vec![("cb16".to_owned(), vec![(lit(&["c18"]), RPathValue { summary: Some("path 19".to_owned()), ops: vec![(1, ROperation { summary: Some(v.texts[55].clone()), operation_id: Some("literal 20".to_owned()), tags: vec!["gamma".to_owned(), "beta".to_owned()], security: vec![], params: vec![("q21".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("int64")) }), ("q14".to_owned(), RParam { description: Some("literal 22".to_owned()), at: 0, required: false, deprecated: false, schema: Some(use_of("CycC", 5)) }), ("q23".to_owned(), RParam { description: Some(v.texts[21].clone()), at: 0, required: v.bools[14], deprecated: v.bools[4], schema: Some(use_of("InlEnum", 6)) }), ("q9".to_owned(), RParam { description: None, at: 1, required: v.bools[2], deprecated: false, schema: Some(use_of("NewObj", 0)) })], responses: vec![response(999, "response 25", Some(RSchema::Raw(direct_schema(1)))), response(401, "Unauthorized", Some(null_schema())), response(299, "response 24", Some(RSchema::Raw(direct_schema(2))))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }), (lit(&["c27", "y.z", "y.z", "{id28}"]), RPathValue { ops: vec![(6, ROperation { deprecated: v.bools[1], body: Some(("body 29".to_owned(), true, use_of("Std", 3))), tags: vec![], security: vec![sec(&["lit0"])], params: vec![("literal 30".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("ChainUnS", 0)) }), (v.texts[14].clone(), RParam { description: Some("literal 31".to_owned()), at: 1, required: true, deprecated: false, schema: Some(use_of("ExInt", 6)) })], responses: vec![response(2000, "", Some(RSchema::Raw(direct_schema(0)))), response(201, "response 32", None), response(400, "Bad Request", Some(use_of("Gen", 0)))], callbacks: vec![], ..Default::default() })], params: vec![("id28".to_owned(), param(2, true, use_of("NewTy", 1)))], ..Default::default() })]), ("cb33".to_owned(), vec![(lit(&["c35"]), RPathValue { summary: Some("path 36".to_owned()), ops: vec![(0, ROperation { summary: Some("literal 37".to_owned()), body: Some((String::new(), true, use_of("GenRef", 5))), tags: vec![], security: vec![sec(&["scheme38"]), sec(&["scheme12", "scheme7"])], params: vec![("literal 39".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("MutB", 0)) })], responses: vec![response(201, "Created", None), response(204, "No Content", None), response(2000, "response 40", None), response(599, "", None)], callbacks: vec![], ..Default::default() }), (3, ROperation { summary: Some(v.texts[11].clone()), operation_id: Some("literal 41".to_owned()), deprecated: true, tags: vec!["delta".to_owned(), "beta".to_owned()], security: vec![], params: vec![(v.texts[34].clone(), RParam { description: Some("literal 42".to_owned()), at: 1, required: v.bools[10], deprecated: true, schema: Some(use_of("UsesEnums", 5)) }), ("q14".to_owned(), RParam { description: Some("literal 43".to_owned()), at: 1, required: v.bools[0], deprecated: v.bools[7], schema: Some(use_of("Exs", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() }), (5, ROperation { description: Some(v.texts[9].clone()), tags: vec!["alpha".to_owned(), "beta".to_owned()], security: vec![sec(&["lit1", "scheme8"])], params: vec![("q9".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[20].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(404, "Not Found", None), response(200, "OK", None), response(403, "response 44", Some(string_schema()))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }), (lit(&["c46", "x", "{id47}", "x", "{id47}"]), RPathValue { description: Some("path 48".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[13].clone()), description: Some(v.texts[27].clone()), tags: vec![], security: vec![], params: vec![("q23".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("BigAdj", 6)) }), ("q9".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[54].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[36].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(401, "Unauthorized", Some(null_schema())), response(599, "", Some(use_of("InlStr", 0))), response(299, "", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![("id47".to_owned(), param(2, true, int_schema("uint32")))], ..Default::default() })])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Server("http://49".to_owned(), None),
        Decl::Path(lit(&["p51"]), RPathValue { summary: Some("path 52".to_owned()), ops: vec![], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["v1", "p54", "{recUse}", "x", "x"]), RPathValue { ops: vec![(3, ROperation { summary: Some(v.texts[3].clone()), operation_id: Some(v.texts[15].clone()), deprecated: v.bools[8], tags: vec![], security: vec![sec(&["scheme12", "scheme38"]), sec(&["scheme38"]), sec(&["lit0"])], params: vec![(v.texts[42].clone(), RParam { description: None, at: 1, required: true, deprecated: v.bools[11], schema: Some(string_schema()) }), (v.texts[40].clone(), RParam { description: Some(v.texts[33].clone()), at: 1, required: v.bools[6], deprecated: v.bools[9], schema: Some(use_of("ChainAdN", 5)) }), ("q55".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("GenRef", 0)) })], responses: vec![response(304, "response 56", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![("recUse".to_owned(), param(2, true, of("RecUse")))], ..Default::default() }),
        Decl::Scheme("scheme7".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme8".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme12".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme38".to_owned(), v.schemes[3].clone()),
    ]
}
const U5: &[&str] = &["CycA", "Wide", "Exs", "Wide", "InlInt", "BigExt", "NewVecUn", "DiamondSide", "ExExt", "CycC", "InlEnum", "NewObj", "NewTy", "Std", "ChainUnS", "ExInt", "Gen", "GenRef", "MutB", "UsesEnums", "Exs", "BigAdj", "InlStr", "RecUse", "ChainAdN", "GenRef"];
const E5: &[&str] = &["text 47", "text 61", "text 7", "text 29", "text 31", "text 5", "bool 5", "bool 3", "bool 12", "bool 15", "bool 13", "text 17", "text 55", "text 21", "bool 14", "bool 4", "bool 2", "direct 2", "direct 1", "bool 1", "text 14", "direct 0", "text 11", "text 34", "bool 10", "bool 0", "bool 7", "text 9", "text 20", "text 13", "text 27", "text 54", "text 36", "text 3", "text 15", "bool 8", "text 42", "bool 11", "text 40", "bool 6", "text 33", "bool 9"];

#[allow(unused_variables, clippy::all)]
fn t6() -> Opg {
    let scheme13 = scheme(0);
    let scheme14 = scheme(1);
    let scheme15 = scheme(2);
    let local19 = e(43);
    describe_api! {
        servers: { "http://17", },
        paths: { ("p5" / {id6: Vec<NewVec>}): {  }, ("p8" / BigInt / {id9: NewObj} / crate::zoo_derive::BigInt / {id10: Inl}): { PATCH: { body: { schema: Option<Box<UsesMore>>, description: "body 12" }, tags: { beta }, callbacks: {  }, security: { scheme14 && "lit0", scheme15 }, tags: {  }, deprecated: b(12), parameters: { (header { let x = e(42); x }), (query q16: ExTup): {  }, (header e(44).as_str()) }, security: { "lit2", "lit1" && scheme13 && "lit0", scheme14 } }, TRACE: { parameters: {  }, 201: { Some(direct(0)) }, description: "literal 11" } }, },
        servers: { "http://18"(local19), },
        paths: {  },
        tags: { tag2(Conv(3)), tag3(Conv(41)), },
        info: { description: "literal 1", version: Conv(39), title: { let x = e(57); x } }
    }
}

#[allow(unused_variables)]
fn x6(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[57].clone(), Some("literal 1".to_owned()), v.texts[39].clone()),
        Decl::Tag("tag2".to_owned(), Some(v.texts[3].clone())),
        Decl::Tag("tag3".to_owned(), Some(v.texts[41].clone())),
        Decl::Path(lit(&["p5", "{id6}"]), RPathValue { ops: vec![], params: vec![("id6".to_owned(), param(2, true, use_of("NewVec", 3)))], ..Default::default() }),
        Decl::Path(lit(&["p8", "{bigInt}", "{id9}", "{bigInt}", "{id10}"]), RPathValue { ops: vec![(7, ROperation { description: Some("literal 11".to_owned()), tags: vec![], security: vec![], params: vec![], responses: vec![response(201, "Created", Some(RSchema::Raw(direct_schema(0))))], callbacks: vec![], ..Default::default() }), (6, ROperation { deprecated: v.bools[12], body: Some(("body 12".to_owned(), true, use_of("UsesMore", 5))), tags: vec!["beta".to_owned()], security: vec![sec(&["lit0", "scheme14"]), sec(&["scheme15"]), sec(&["lit2"]), sec(&["lit0", "lit1", "scheme13"]), sec(&["scheme14"])], params: vec![(v.texts[42].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q16".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExTup", 0)) }), (v.texts[44].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("bigInt".to_owned(), param(2, true, of("BigInt"))), ("id9".to_owned(), param(2, true, use_of("NewObj", 0))), ("id10".to_owned(), param(2, true, use_of("Inl", 0)))], ..Default::default() }),
        Decl::Server("http://17".to_owned(), None),
        Decl::Server("http://18".to_owned(), Some(v.texts[43].clone())),
        Decl::Scheme("scheme13".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme14".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme15".to_owned(), v.schemes[2].clone()),
    ]
}
const U6: &[&str] = &["NewVec", "BigInt", "NewObj", "BigInt", "Inl", "UsesMore", "ExTup"];
const E6: &[&str] = &["text 57", "text 39", "text 3", "text 41", "direct 0", "bool 12", "text 42", "text 44", "text 43"];

#[allow(unused_variables, clippy::all)]
fn t7() -> Opg {
    describe_api! {
        info: { version: "literal 1", title: &e(53), description: Conv(27) },
        paths: {  },
        paths: { ("p3"): { description: "path 4", }, ("p6"): { OPTIONS: { parameters: { (query q8: Option<NewVecUn>): { deprecated: true, required: !!b(3) }, (header e(32).as_str()): {  }, (header &e(42)): { description: e(45).as_str(), deprecated: { b(0) }, schema: MutB, required: true } }, tags: { beta }, 418: None, 2000: None, tags: { beta, beta }, operationId: &e(7), 403: None }, summary: "path 7" }, ("p10"): { parameters: { (query q8: Option<InlRepr>) } } },
        tags: {  },
    }
}

#[allow(unused_variables)]
fn x7(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[53].clone(), Some(v.texts[27].clone()), "literal 1".to_owned()),
        Decl::Path(lit(&["p3"]), RPathValue { description: Some("path 4".to_owned()), ops: vec![], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p6"]), RPathValue { summary: Some("path 7".to_owned()), ops: vec![(4, ROperation { operation_id: Some(v.texts[7].clone()), tags: vec!["beta".to_owned(), "beta".to_owned(), "beta".to_owned()], security: vec![], params: vec![("q8".to_owned(), RParam { description: None, at: 0, required: v.bools[3], deprecated: true, schema: Some(use_of("NewVecUn", 1)) }), (v.texts[32].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[42].clone(), RParam { description: Some(v.texts[45].clone()), at: 1, required: true, deprecated: v.bools[0], schema: Some(use_of("MutB", 0)) })], responses: vec![response(418, "I'm a teapot", None), response(2000, "", None), response(403, "Forbidden", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p10"]), RPathValue { ops: vec![], params: vec![("q8".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlRepr", 1)) })], ..Default::default() }),
    ]
}
const U7: &[&str] = &["NewVecUn", "MutB", "InlRepr"];
const E7: &[&str] = &["text 53", "text 27", "text 7", "bool 3", "text 32", "text 42", "text 45", "bool 0"];

#[allow(unused_variables, clippy::all)]
fn t8() -> Opg {
    let scheme8 = scheme(0);
    let scheme27 = scheme(1);
    describe_api! {
        security_schemes: {  },
        tags: { tag1, tag2(e(21).as_str()), },
        tags: { tag3, tag4, },
        info: { title: { let x = e(19); x }, description: { let x = e(23); x } },
        paths: { ("p6"): { parameters: {  }, POST: { summary: "literal 7", 500: Vec<Option<ExTup>>, security: { scheme8, "lit1" && scheme8 && "lit2", scheme8 }, 599("response 9"): BigUn, callbacks: { "cb11 x": { ("c13" / {id14: Option<ExAdj>} / "a b" / {id15: ChainSt} / {id16: Vec<Option<StrEnum>>}): { TRACE: { tags: {  }, parameters: { (header "literal 20"): { schema: Vec<AdjEnum>, deprecated: true, description: e(7) }, (query q21: BigUn), (header e(2).as_str()): {  } }, tags: { alpha, beta }, body: { description: "body 19", schema: Option<Box<MutB>> }, }, parameters: { (query q18: CycA), (header { let x = e(14); x }) }, description: "path 17", PATCH: { deprecated: !!b(11), 301: Vec<Option<IntBody>>, 599: Mixed<'static, i32, [Leaf]>, body: { schema: Option<crate::zoo_derive::UsesMore>, required: true }, description: &{ let x = e(5); x }, security: {  } } } }, cb22: { ("c24"): { GET: { body: { schema: IntBody }, tags: { alpha }, parameters: { (header &e(10)): { description: Conv(31), schema: String, deprecated: { b(4) } }, (query q30: Vec<Wide>): { required: { b(10) } } }, parameters: { (query q29: Vec<Option<CycB>>): { schema: InlAdj, description: e(1), deprecated: b(12), required: false } }, operationId: "literal 28", tags: { gamma }, 418("response 31"): { None }, }, POST: { security: { "lit1" && scheme27 }, summary: &e(29), tags: { gamma }, operationId: e(43).as_str(), tags: { alpha, beta }, description: e(27).as_str() }, description: "path 26", summary: "path 25", parameters: {  } }, ("c33"): { DELETE: { body: { description: "body 35", schema: Vec<Opt2> }, 2000: Option<Box<crate::zoo_derive::ChainUnS>>, tags: { delta, gamma }, parameters: { (query q36: crate::zoo_derive::IntEnum): { description: e(13), deprecated: false, schema: Option<Box<UsesInlEnum>>, required: b(8) }, (header "q29"): { schema: MutA, deprecated: b(6) } }, tags: {  }, 401: { Some(direct(2)) }, 299("response 37"): std::collections::HashMap<String, ExExt>, 100("response 38"): i64, parameters: { (header "id15"): { deprecated: true, schema: Std, required: true, description: { let x = e(57); x } }, (header &e(18)) } }, summary: "path 34" } } }, tags: { delta }, 2000("response 10"): Option<Box<BigObj>>, deprecated: true } } },
    }
}

#[allow(unused_variables)]
fn x8(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[19].clone(), Some(v.texts[23].clone()), String::new()),
        Decl::Tag("tag1".to_owned(), None),
        Decl::Tag("tag2".to_owned(), Some(v.texts[21].clone())),
        Decl::Tag("tag3".to_owned(), None),
        Decl::Tag("tag4".to_owned(), None),
        Decl::Path(lit(&["p6"]), RPathValue { ops: vec![(2, ROperation { summary: Some("literal 7".to_owned()), deprecated: true, tags: vec!["delta".to_owned()], security: vec![sec(&["scheme8"]), sec(&["lit1", "lit2", "scheme8"]), sec(&["scheme8"])], params: vec![], responses: vec![response(500, "Internal Server Error", Some(use_of("ExTup", 6))), response(599, "response 9", Some(use_of("BigUn", 0))), response(2000, "response 10", Some(use_of("BigObj", 5)))], callbacks: vec![("cb11 x".to_owned(), vec![(lit(&["c13", "{id14}", "a b", "{id15}", "{id16}"]), RPathValue { description: Some("path 17".to_owned()), ops: vec![(7, ROperation { body: Some(("body 19".to_owned(), true, use_of("MutB", 5))), tags: vec!["alpha".to_owned(), "beta".to_owned()], security: vec![], params: vec![("literal 20".to_owned(), RParam { description: Some(v.texts[7].clone()), at: 1, required: true, deprecated: true, schema: Some(use_of("AdjEnum", 3)) }), ("q21".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("BigUn", 0)) }), (v.texts[2].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() }), (6, ROperation { description: Some(v.texts[5].clone()), deprecated: v.bools[11], body: Some((String::new(), true, use_of("UsesMore", 1))), tags: vec![], security: vec![], params: vec![], responses: vec![response(301, "Moved Permanently", Some(use_of("IntBody", 6))), response(599, "", Some(use_of("Mixed", 0)))], callbacks: vec![], ..Default::default() })], params: vec![("id14".to_owned(), param(2, true, use_of("ExAdj", 1))), ("id15".to_owned(), param(2, true, use_of("ChainSt", 0))), ("id16".to_owned(), param(2, true, use_of("StrEnum", 6))), ("q18".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("CycA", 0)) }), (v.texts[14].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() })]), ("cb22".to_owned(), vec![(lit(&["c24"]), RPathValue { summary: Some("path 25".to_owned()), description: Some("path 26".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[29].clone()), operation_id: Some(v.texts[43].clone()), description: Some(v.texts[27].clone()), tags: vec!["gamma".to_owned(), "alpha".to_owned(), "beta".to_owned()], security: vec![sec(&["lit1", "scheme27"])], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() }), (0, ROperation { operation_id: Some("literal 28".to_owned()), body: Some((String::new(), true, use_of("IntBody", 0))), tags: vec!["alpha".to_owned(), "gamma".to_owned()], security: vec![], params: vec![(v.texts[10].clone(), RParam { description: Some(v.texts[31].clone()), at: 1, required: true, deprecated: v.bools[4], schema: Some(string_schema()) }), ("q30".to_owned(), RParam { description: None, at: 0, required: v.bools[10], deprecated: false, schema: Some(use_of("Wide", 3)) }), ("q29".to_owned(), RParam { description: Some(v.texts[1].clone()), at: 0, required: false, deprecated: v.bools[12], schema: Some(use_of("InlAdj", 0)) })], responses: vec![response(418, "response 31", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }), (lit(&["c33"]), RPathValue { summary: Some("path 34".to_owned()), ops: vec![(3, ROperation { body: Some(("body 35".to_owned(), true, use_of("Opt2", 3))), tags: vec!["delta".to_owned(), "gamma".to_owned()], security: vec![], params: vec![("q36".to_owned(), RParam { description: Some(v.texts[13].clone()), at: 0, required: v.bools[8], deprecated: false, schema: Some(use_of("UsesInlEnum", 5)) }), ("q29".to_owned(), RParam { description: None, at: 1, required: true, deprecated: v.bools[6], schema: Some(use_of("MutA", 0)) }), ("id15".to_owned(), RParam { description: Some(v.texts[57].clone()), at: 1, required: true, deprecated: true, schema: Some(use_of("Std", 0)) }), (v.texts[18].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(2000, "", Some(use_of("ChainUnS", 5))), response(401, "Unauthorized", Some(RSchema::Raw(direct_schema(2)))), response(299, "response 37", Some(use_of("ExExt", 4))), response(100, "response 38", Some(int_schema("int64")))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme8".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme27".to_owned(), v.schemes[1].clone()),
    ]
}
const U8: &[&str] = &["BigUn", "BigObj", "ExTup", "ExAdj", "ChainSt", "StrEnum", "CycA", "MutB", "AdjEnum", "BigUn", "UsesMore", "IntBody", "Mixed", "IntBody", "CycB", "InlAdj", "Wide", "Opt2", "Std", "IntEnum", "UsesInlEnum", "MutA", "ExExt", "ChainUnS"];
const E8: &[&str] = &["text 19", "text 23", "text 21", "text 14", "text 7", "text 2", "text 5", "bool 11", "text 29", "text 43", "text 27", "text 1", "bool 12", "text 10", "text 31", "bool 4", "bool 10", "text 57", "text 18", "text 13", "bool 8", "bool 6", "direct 2"];

#[allow(unused_variables, clippy::all)]
fn t9() -> Opg {
    let scheme23 = scheme(0);
    let scheme24 = scheme(1);
    let scheme30 = scheme(2);
    let scheme31 = scheme(3);
    describe_api! {
        info: { title: "literal 1", description: &e(57), version: "literal 2" },
        tags: { tag3, tag4({ let x = e(7); x }) },
        paths: { ("p6"): { summary: "path 7", DELETE: { summary: &e(9), 999: (), body: { required: false, schema: CycC } } }, ("p9"): { parameters: { (header e(40)) }, summary: "path 10" }, ("p12" / {id13: Option<Box<Untagged>>} / "y.z" / {id14: Box<InlAdj>}): { POST: { 503("response 16"): (), parameters: { (header e(14)): { description: e(17).as_str(), required: !!b(6), schema: Vec<ChainUnS>, deprecated: { b(1) } }, (header "literal 15"): { description: Conv(21), required: false, schema: InlText } }, security: { "lit1" }, tags: { delta, gamma }, tags: {  }, 404("response 17"): crate::zoo_derive::BigObj, 100: crate::zoo_derive::RecUse, callbacks: {  }, 409: crate::zoo_derive::Fields, callbacks: { "cb18": { (ExUn / {id21: std::collections::HashMap<String, BigExt>} / "c20"): { OPTIONS: { summary: &{ let x = e(47); x }, parameters: { (header if true { e(6) } else { String::new() }): { required: true }, (query q32: Plain), (header &e(30)): {  } }, body: { schema: Option<ReprEnum>, required: true }, security: { scheme23, "lit2" && scheme30, scheme24 }, security: { "lit2" && scheme31 && scheme30 }, description: &format!("{}", e(19)), }, TRACE: { parameters: { (query q29: ExInt): { schema: std::collections::HashMap<String, crate::zoo_derive::NewMap> } }, parameters: { (query q28: i64): {  }, (header "exUn"): { description: &e(41) }, (header { let x = e(22); x }) }, tags: { alpha }, security: {  }, operationId: &format!("{}", e(51)) }, GET: { 1: i64, security: { scheme24 && scheme23 && "lit1", scheme24 }, 204("response 27"): Vec<Option<Exs>>, parameters: { (header &e(60)): { required: { b(11) }, deprecated: b(7), schema: Vec<Option<InlEnum>> }, (header "id13"): { deprecated: { b(4) }, schema: MutA, description: Conv(27), required: !!b(0) }, (query q26: crate::zoo_derive::ChainAdN): { schema: Plain } }, deprecated: b(5), 599: { None }, 304: Std, security: { scheme23, scheme23, scheme24 }, parameters: { (query q25: Option<Box<ExExt>>): {  }, (query exUn: String) }, }, description: "path 22" } }, cb33: {  } } } }, },
        tags: {  },
        paths: { ("a b" / Inl / "x" / "x" / "p35"): { summary: "path 36" }, ("p38" / {id39: std::collections::HashMap<String, InlExt>} / {id40: String} / ExAdj): { POST: { operationId: "literal 43", security: {  }, 400: { Some(direct(2)) }, 403: BigUn, }, description: "path 42", summary: "path 41", TRACE: { tags: { gamma }, parameters: { (header if true { e(10) } else { String::new() }): { schema: String, description: if true { e(45) } else { String::new() } }, (header { let x = e(42); x }): { description: "", deprecated: false } }, tags: {  }, } }, ("p45"): { parameters: {  }, PUT: { parameters: { (header "q28"): { schema: IntBody, deprecated: { b(2) }, required: false, description: if true { e(39) } else { String::new() } } }, description: "literal 46", operationId: &{ let x = e(3); x }, tags: { delta }, security: {  }, deprecated: !!b(14) }, }, }
    }
}

#[allow(unused_variables)]
fn x9(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), Some(v.texts[57].clone()), "literal 2".to_owned()),
        Decl::Tag("tag3".to_owned(), None),
        Decl::Tag("tag4".to_owned(), Some(v.texts[7].clone())),
        Decl::Path(lit(&["p6"]), RPathValue { summary: Some("path 7".to_owned()), ops: vec![(3, ROperation { summary: Some(v.texts[9].clone()), body: Some((String::new(), false, use_of("CycC", 0))), tags: vec![], security: vec![], params: vec![], responses: vec![response(999, "", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p9"]), RPathValue { summary: Some("path 10".to_owned()), ops: vec![], params: vec![(v.texts[40].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Path(lit(&["p12", "{id13}", "y.z", "{id14}"]), RPathValue { ops: vec![(2, ROperation { tags: vec!["delta".to_owned(), "gamma".to_owned()], security: vec![sec(&["lit1"])], params: vec![(v.texts[14].clone(), RParam { description: Some(v.texts[17].clone()), at: 1, required: v.bools[6], deprecated: v.bools[1], schema: Some(use_of("ChainUnS", 3)) }), ("literal 15".to_owned(), RParam { description: Some(v.texts[21].clone()), at: 1, required: false, deprecated: false, schema: Some(use_of("InlText", 0)) })], responses: vec![response(503, "response 16", Some(null_schema())), response(404, "response 17", Some(use_of("BigObj", 0))), response(100, "Continue", Some(use_of("RecUse", 0))), response(409, "Conflict", Some(use_of("Fields", 0)))], callbacks: vec![("cb18".to_owned(), vec![(lit(&["{exUn}", "{id21}", "c20"]), RPathValue { description: Some("path 22".to_owned()), ops: vec![(0, ROperation { deprecated: v.bools[5], tags: vec![], security: vec![sec(&["lit1", "scheme23", "scheme24"]), sec(&["scheme24"]), sec(&["scheme23"]), sec(&["scheme23"]), sec(&["scheme24"])], params: vec![(v.texts[60].clone(), RParam { description: None, at: 1, required: v.bools[11], deprecated: v.bools[7], schema: Some(use_of("InlEnum", 6)) }), ("id13".to_owned(), RParam { description: Some(v.texts[27].clone()), at: 1, required: v.bools[0], deprecated: v.bools[4], schema: Some(use_of("MutA", 0)) }), ("q26".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Plain", 0)) }), ("q25".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExExt", 5)) }), ("exUn".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(1, "", Some(int_schema("int64"))), response(204, "response 27", Some(use_of("Exs", 6))), response(599, "", None), response(304, "Not Modified", Some(use_of("Std", 0)))], callbacks: vec![], ..Default::default() }), (7, ROperation { operation_id: Some(v.texts[51].clone()), tags: vec!["alpha".to_owned()], security: vec![], params: vec![("q29".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewMap", 4)) }), ("q28".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("int64")) }), ("exUn".to_owned(), RParam { description: Some(v.texts[41].clone()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[22].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() }), (4, ROperation { summary: Some(v.texts[47].clone()), description: Some(v.texts[19].clone()), body: Some((String::new(), true, use_of("ReprEnum", 1))), tags: vec![], security: vec![sec(&["scheme23"]), sec(&["lit2", "scheme30"]), sec(&["scheme24"]), sec(&["lit2", "scheme30", "scheme31"])], params: vec![(v.texts[6].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q32".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Plain", 0)) }), (v.texts[30].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("exUn".to_owned(), param(2, true, of("ExUn"))), ("id21".to_owned(), param(2, true, use_of("BigExt", 4)))], ..Default::default() })]), ("cb33".to_owned(), vec![])], ..Default::default() })], params: vec![("id13".to_owned(), param(2, true, use_of("Untagged", 5))), ("id14".to_owned(), param(2, true, use_of("InlAdj", 2)))], ..Default::default() }),
        Decl::Path(lit(&["a b", "{inl}", "x", "x", "p35"]), RPathValue { summary: Some("path 36".to_owned()), ops: vec![], params: vec![("inl".to_owned(), param(2, true, of("Inl")))], ..Default::default() }),
        Decl::Path(lit(&["p38", "{id39}", "{id40}", "{exAdj}"]), RPathValue { summary: Some("path 41".to_owned()), description: Some("path 42".to_owned()), ops: vec![(2, ROperation { operation_id: Some("literal 43".to_owned()), tags: vec![], security: vec![], params: vec![], responses: vec![response(400, "Bad Request", Some(RSchema::Raw(direct_schema(2)))), response(403, "Forbidden", Some(use_of("BigUn", 0)))], callbacks: vec![], ..Default::default() }), (7, ROperation { tags: vec!["gamma".to_owned()], security: vec![], params: vec![(v.texts[10].clone(), RParam { description: Some(v.texts[45].clone()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[42].clone(), RParam { description: Some("".to_owned()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("id39".to_owned(), param(2, true, use_of("InlExt", 4))), ("id40".to_owned(), param(2, true, string_schema())), ("exAdj".to_owned(), param(2, true, of("ExAdj")))], ..Default::default() }),
        Decl::Path(lit(&["p45"]), RPathValue { ops: vec![(1, ROperation { operation_id: Some(v.texts[3].clone()), description: Some("literal 46".to_owned()), deprecated: v.bools[14], tags: vec!["delta".to_owned()], security: vec![], params: vec![("q28".to_owned(), RParam { description: Some(v.texts[39].clone()), at: 1, required: false, deprecated: v.bools[2], schema: Some(use_of("IntBody", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme23".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme24".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme30".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme31".to_owned(), v.schemes[3].clone()),
    ]
}
const U9: &[&str] = &["CycC", "Untagged", "InlAdj", "ChainUnS", "InlText", "RecUse", "Fields", "BigObj", "ExUn", "BigExt", "ExExt", "InlEnum", "MutA", "ChainAdN", "Plain", "Exs", "Std", "ExInt", "NewMap", "ReprEnum", "Plain", "Inl", "InlExt", "ExAdj", "BigUn", "IntBody"];
const E9: &[&str] = &["text 57", "text 7", "text 9", "text 40", "text 14", "text 17", "bool 6", "bool 1", "text 21", "bool 5", "text 60", "bool 11", "bool 7", "bool 4", "text 27", "bool 0", "text 51", "text 41", "text 22", "text 47", "text 19", "text 6", "text 30", "direct 2", "text 10", "text 45", "text 42", "text 3", "bool 14", "bool 2", "text 39"];

#[allow(unused_variables, clippy::all)]
fn t10() -> Opg {
    let scheme5 = scheme(0);
    let scheme16 = scheme(1);
    let scheme17 = scheme(2);
    let scheme18 = scheme(3);
    describe_api! {
        security_schemes: {  },
        info: { title: Conv(37), version: { let x = e(33); x }, },
        paths: { ("p2"): { OPTIONS: { 503("response 9"): Box<NewVecUn>, security: { "lit0", "lit1", "lit2" }, 100: None, tags: {  }, callbacks: { cb10: {  }, cb11: {  } }, 404: { None }, operationId: &format!("{}", e(57)), callbacks: { "cb12": { ("c14" / Tup): { parameters: { (query q7: crate::zoo_derive::InlAdj) }, POST: { operationId: &format!("{}", e(59)), deprecated: b(8), 429("response 21"): crate::zoo_derive::ChainTu, body: { required: false, description: "body 20", schema: GenRef<'static, Plain, StrEnum> }, security: { "lit1" && scheme17 && "lit2" }, security: { scheme18 && scheme17 && "lit2" }, description: &format!("{}", e(39)) }, GET: { parameters: { (query q4: Box<InlInt>): { required: b(1), schema: Untagged, description: { let x = e(55); x } }, (header "q6"): { deprecated: b(12), description: Conv(7) } }, body: Option<Untagged>, 429("response 19"): crate::zoo_derive::ChainAdN, security: { scheme16 && scheme17, scheme18 }, parameters: { (query tup: Exs): { deprecated: !!b(14), required: { b(10) }, description: e(17) }, (header "q7"): { schema: Vec<InlNew> } }, tags: { delta }, tags: { gamma, beta } }, description: "path 15" } }, "cb22/{$request.body#/url}": {  } }, 202: AdjEnum, body: Option<InlStr>, description: &format!("{}", e(53)) }, POST: { parameters: { (header e(6).as_str()): { deprecated: b(3) }, (query q3: Option<Exs>), (query q4: Option<Box<crate::zoo_derive::ReprEnum>>) }, parameters: {  }, tags: { beta }, operationId: e(11).as_str(), tags: { beta }, }, TRACE: { 404: { Some(direct(2)) }, parameters: { (query q3: crate::zoo_derive::Deep), (query q6: String): {  }, (query q7: Vec<Mixed<'static, i32, [Leaf]>>): { schema: Option<Box<CycA>>, deprecated: b(9), required: false, description: Conv(9) } }, 100: Option<Box<Fields>>, 200("response 8"): None, security: {  }, security: { "lit0" && "lit1" && "lit2", "lit2", scheme5 }, operationId: &format!("{}", e(63)), }, }, ("p24" / "a b" / {id25: NewVec} / ChainSt / "x"): { parameters: {  } } },
    }
}

#[allow(unused_variables)]
fn x10(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[37].clone(), None, v.texts[33].clone()),
        Decl::Path(lit(&["p2"]), RPathValue { ops: vec![(2, ROperation { operation_id: Some(v.texts[11].clone()), tags: vec!["beta".to_owned(), "beta".to_owned()], security: vec![], params: vec![(v.texts[6].clone(), RParam { description: None, at: 1, required: true, deprecated: v.bools[3], schema: Some(string_schema()) }), ("q3".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Exs", 1)) }), ("q4".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ReprEnum", 5)) })], responses: vec![], callbacks: vec![], ..Default::default() }), (7, ROperation { operation_id: Some(v.texts[63].clone()), tags: vec![], security: vec![sec(&["lit0", "lit1", "lit2"]), sec(&["lit2"]), sec(&["scheme5"])], params: vec![("q3".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Deep", 0)) }), ("q6".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(string_schema()) }), ("q7".to_owned(), RParam { description: Some(v.texts[9].clone()), at: 0, required: false, deprecated: v.bools[9], schema: Some(use_of("CycA", 5)) })], responses: vec![response(404, "Not Found", Some(RSchema::Raw(direct_schema(2)))), response(100, "Continue", Some(use_of("Fields", 5))), response(200, "response 8", None)], callbacks: vec![], ..Default::default() }), (4, ROperation { operation_id: Some(v.texts[57].clone()), description: Some(v.texts[53].clone()), body: Some((String::new(), true, use_of("InlStr", 1))), tags: vec![], security: vec![sec(&["lit0"]), sec(&["lit1"]), sec(&["lit2"])], params: vec![], responses: vec![response(503, "response 9", Some(use_of("NewVecUn", 2))), response(100, "Continue", None), response(404, "Not Found", None), response(202, "Accepted", Some(use_of("AdjEnum", 0)))], callbacks: vec![("cb10".to_owned(), vec![]), ("cb11".to_owned(), vec![]), ("cb12".to_owned(), vec![(lit(&["c14", "{tup}"]), RPathValue { description: Some("path 15".to_owned()), ops: vec![(0, ROperation { body: Some((String::new(), true, use_of("Untagged", 1))), tags: vec!["delta".to_owned(), "gamma".to_owned(), "beta".to_owned()], security: vec![sec(&["scheme16", "scheme17"]), sec(&["scheme18"])], params: vec![("q4".to_owned(), RParam { description: Some(v.texts[55].clone()), at: 0, required: v.bools[1], deprecated: false, schema: Some(use_of("Untagged", 0)) }), ("q6".to_owned(), RParam { description: Some(v.texts[7].clone()), at: 1, required: true, deprecated: v.bools[12], schema: Some(string_schema()) }), ("tup".to_owned(), RParam { description: Some(v.texts[17].clone()), at: 0, required: v.bools[10], deprecated: v.bools[14], schema: Some(use_of("Exs", 0)) }), ("q7".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("InlNew", 3)) })], responses: vec![response(429, "response 19", Some(use_of("ChainAdN", 0)))], callbacks: vec![], ..Default::default() }), (2, ROperation { operation_id: Some(v.texts[59].clone()), description: Some(v.texts[39].clone()), deprecated: v.bools[8], body: Some(("body 20".to_owned(), false, use_of("GenRef", 0))), tags: vec![], security: vec![sec(&["lit1", "lit2", "scheme17"]), sec(&["lit2", "scheme17", "scheme18"])], params: vec![], responses: vec![response(429, "response 21", Some(use_of("ChainTu", 0)))], callbacks: vec![], ..Default::default() })], params: vec![("tup".to_owned(), param(2, true, of("Tup"))), ("q7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlAdj", 0)) })], ..Default::default() })]), ("cb22/{$request.body#/url}".to_owned(), vec![])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p24", "a b", "{id25}", "{chainSt}", "x"]), RPathValue { ops: vec![], params: vec![("id25".to_owned(), param(2, true, use_of("NewVec", 0))), ("chainSt".to_owned(), param(2, true, of("ChainSt")))], ..Default::default() }),
        Decl::Scheme("scheme5".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme16".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme17".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme18".to_owned(), v.schemes[3].clone()),
    ]
}
const U10: &[&str] = &["Exs", "ReprEnum", "Deep", "Mixed", "CycA", "Fields", "InlStr", "AdjEnum", "NewVecUn", "Tup", "InlAdj", "Untagged", "Exs", "InlNew", "InlInt", "Untagged", "ChainAdN", "GenRef", "ChainTu", "NewVec", "ChainSt"];
const E10: &[&str] = &["text 37", "text 33", "text 11", "text 6", "bool 3", "text 63", "bool 9", "text 9", "direct 2", "text 57", "text 53", "bool 14", "bool 10", "text 17", "bool 1", "text 55", "bool 12", "text 7", "text 59", "text 39", "bool 8"];

#[allow(unused_variables, clippy::all)]
fn t11() -> Opg {
    describe_api! {
        paths: {  },
        info: { title: "literal 1", version: { let x = e(7); x } },
        tags: { tag2, tag3("literal 4"), }
    }
}

#[allow(unused_variables)]
fn x11(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), None, v.texts[7].clone()),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Tag("tag3".to_owned(), Some("literal 4".to_owned())),
    ]
}
const U11: &[&str] = &[];
const E11: &[&str] = &["text 7"];

#[allow(unused_variables, clippy::all)]
fn t12() -> Opg {
    let scheme8 = scheme(0);
    let scheme9 = scheme(1);
    let scheme16 = scheme(2);
    let scheme17 = scheme(3);
    describe_api! {
        paths: {  },
        info: { version: e(35), description: "literal 1", title: { let x = e(31); x } },
        paths: { ("p3" / {id4: u8} / {id5: crate::zoo_derive::Diamond} / {id4: u8}): { parameters: { (header Conv(16)): {  }, (query q7: NewStr): { schema: Option<RecUse>, required: !!b(2), deprecated: false } }, OPTIONS: { security: { "lit0" && scheme8, scheme8, scheme9 }, 429: Gen<Leaf>, operationId: &{ let x = e(45); x }, 299: Box<Plain>, security: { "lit0" && "lit2" && scheme8, "lit1" && scheme8 && scheme9 }, body: { schema: NewInl, required: true }, parameters: {  }, deprecated: true, 201("response 10"): { None }, 2000: Option<UsesNew> }, description: "path 6" }, ("p12" / "v1" / "x" / {id13: InlNew} / "x"): { OPTIONS: { summary: &Conv(23), body: { description: "body 15", schema: Vec<ExUn> }, operationId: &{ let x = e(5); x }, callbacks: {  }, security: { scheme9 && scheme16 && "lit1", "lit0", "lit0" && scheme17 }, callbacks: { "cb18 x": { ("c20"): { description: "path 21", } } }, deprecated: !!b(15), }, description: "path 14" } },
    }
}

#[allow(unused_variables)]
fn x12(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[31].clone(), Some("literal 1".to_owned()), v.texts[35].clone()),
        Decl::Path(lit(&["p3", "{id4}", "{id5}", "{id4}"]), RPathValue { description: Some("path 6".to_owned()), ops: vec![(4, ROperation { operation_id: Some(v.texts[45].clone()), deprecated: true, body: Some((String::new(), true, use_of("NewInl", 0))), tags: vec![], security: vec![sec(&["lit0", "scheme8"]), sec(&["scheme8"]), sec(&["scheme9"]), sec(&["lit0", "lit2", "scheme8"]), sec(&["lit1", "scheme8", "scheme9"])], params: vec![], responses: vec![response(429, "Too Many Requests", Some(use_of("Gen", 0))), response(299, "", Some(use_of("Plain", 2))), response(201, "response 10", None), response(2000, "", Some(use_of("UsesNew", 1)))], callbacks: vec![], ..Default::default() })], params: vec![("id4".to_owned(), param(2, true, int_schema("uint8"))), ("id5".to_owned(), param(2, true, use_of("Diamond", 0))), (v.texts[16].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q7".to_owned(), RParam { description: None, at: 0, required: v.bools[2], deprecated: false, schema: Some(use_of("RecUse", 1)) })], ..Default::default() }),
        Decl::Path(lit(&["p12", "v1", "x", "{id13}", "x"]), RPathValue { description: Some("path 14".to_owned()), ops: vec![(4, ROperation { summary: Some(v.texts[23].clone()), operation_id: Some(v.texts[5].clone()), deprecated: v.bools[15], body: Some(("body 15".to_owned(), true, use_of("ExUn", 3))), tags: vec![], security: vec![sec(&["lit1", "scheme16", "scheme9"]), sec(&["lit0"]), sec(&["lit0", "scheme17"])], params: vec![], responses: vec![], callbacks: vec![("cb18 x".to_owned(), vec![(lit(&["c20"]), RPathValue { description: Some("path 21".to_owned()), ops: vec![], params: vec![], ..Default::default() })])], ..Default::default() })], params: vec![("id13".to_owned(), param(2, true, use_of("InlNew", 0)))], ..Default::default() }),
        Decl::Scheme("scheme8".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme9".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme16".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme17".to_owned(), v.schemes[3].clone()),
    ]
}
const U12: &[&str] = &["Diamond", "NewStr", "RecUse", "NewInl", "Gen", "Plain", "UsesNew", "InlNew", "ExUn"];
const E12: &[&str] = &["text 31", "text 35", "text 16", "bool 2", "text 45", "text 23", "text 5", "bool 15"];

#[allow(unused_variables, clippy::all)]
fn t13() -> Opg {
    let scheme16 = scheme(0);
    let scheme27 = scheme(1);
    let scheme28 = scheme(2);
    let scheme32 = scheme(3);
    describe_api! {
        info: { title: e(15), description: &e(57), version: e(29) },
        paths: { ("p2"): { parameters: {  }, POST: { callbacks: { "cb4 x": { ("c6" / {id7: Transp} / InlUn / "a b" / "y.z"): { parameters: { (query q3: std::collections::HashMap<String, UsesEnums>): { schema: Option<crate::zoo_derive::BigInt>, required: b(4), description: "", deprecated: false }, (header if true { e(8) } else { String::new() }), (query q8: i64): { deprecated: { b(0) }, schema: Option<Box<crate::zoo_derive::CycA>> } }, HEAD: { 1("response 10"): Vec<Option<StrEnum>>, 418: Box<MutA>, 100: u8, tags: { alpha, alpha }, 202("response 11"): Option<BigUn>, body: { description: "body 9", schema: SelfRef }, summary: e(37).as_str() } } }, "cb12": { ("c14" / Std / "a b" / UsesInlEnum / {id15: BigAdj}): { TRACE: { operationId: &{ let x = e(23); x }, tags: {  }, body: u8, parameters: { (header "inlUn"): { required: false, description: e(19).as_str(), schema: Vec<ChainSt> } }, description: &e(1), tags: { gamma }, 409("response 21"): { Some(direct(0)) }, 100: Vec<Option<Std>>, summary: "", security: { scheme16, "lit2" }, parameters: { (query q17: Option<BigExt>): { deprecated: b(14), schema: Vec<Option<InlEnum>>, required: { b(15) } }, (query q18: std::collections::HashMap<String, Exs>): { deprecated: b(12), required: false, description: { let x = e(45); x } }, (header "literal 19"): { required: { b(10) }, deprecated: b(3) } }, 403("response 20"): { None }, }, parameters: { (query id7: u8) } } } }, 204: UsesEnums, body: crate::zoo_derive::NewOpt, parameters: { (header e(62)): { deprecated: b(5), description: e(11), required: true } }, parameters: { (query q3: InlText): { schema: Option<Diamond>, deprecated: b(8) }, (header &e(34)) } }, }, ("p23" / CycA / UsesNew): { GET: { security: { "lit0" && "lit1", scheme27 && scheme28 }, description: &{ let x = e(25); x }, security: { "lit1" && "lit2" && scheme16 }, summary: &e(59), callbacks: {  }, body: Option<Box<crate::zoo_derive::ExUn>>, operationId: &{ let x = e(5); x } }, DELETE: { 100: { None }, 599: None, 503: None, callbacks: { "cb26": {  } }, operationId: &{ let x = e(17); x }, body: { required: false, description: "body 25", schema: std::collections::HashMap<String, GenRef<'static, Plain, StrEnum>> }, }, description: "path 24", }, ("p30"): { summary: "path 31", parameters: {  }, TRACE: { security: { scheme32, scheme16 }, body: { description: "body 43", required: true, schema: Vec<NewMap> }, security: { scheme16, scheme32 && scheme27 }, parameters: { (query usesInlEnum: Option<Mixed<'static, i32, [Leaf]>>), (query q44: crate::zoo_derive::Opt2) }, }, GET: { 304("response 33"): InlNew, security: { scheme32 && scheme16 }, parameters: {  }, 200("response 34"): { None }, description: "", 503: None, security: { scheme27 } }, DELETE: { callbacks: { "cb37 x": { ("c39"): { TRACE: { tags: { alpha, gamma }, 204: { None }, 404("response 41"): Option<Box<NewVecUn>>, description: &format!("{}", e(61)), 299: Plain, 403: NewVec }, description: "path 40" } }, cb42: {  } }, security: {  }, 503: NewNum, body: String, tags: { gamma }, deprecated: { b(6) }, 301: { Some(direct(2)) }, 400: DiamondSide, security: { "lit2" }, parameters: { (header "id15"): {  }, (query q35: NewStr): { required: !!b(11), deprecated: b(9) }, (query id7: UnMore): { required: false } }, 429("response 36"): (), tags: { gamma, gamma }, } } },
    }
}

#[allow(unused_variables)]
fn x13(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[15].clone(), Some(v.texts[57].clone()), v.texts[29].clone()),
        Decl::Path(lit(&["p2"]), RPathValue { ops: vec![(2, ROperation { body: Some((String::new(), true, use_of("NewOpt", 0))), tags: vec![], security: vec![], params: vec![(v.texts[62].clone(), RParam { description: Some(v.texts[11].clone()), at: 1, required: true, deprecated: v.bools[5], schema: Some(string_schema()) }), ("q3".to_owned(), RParam { description: None, at: 0, required: false, deprecated: v.bools[8], schema: Some(use_of("Diamond", 1)) }), (v.texts[34].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(204, "No Content", Some(use_of("UsesEnums", 0)))], callbacks: vec![("cb4 x".to_owned(), vec![(lit(&["c6", "{id7}", "{inlUn}", "a b", "y.z"]), RPathValue { ops: vec![(5, ROperation { summary: Some(v.texts[37].clone()), body: Some(("body 9".to_owned(), true, use_of("SelfRef", 0))), tags: vec!["alpha".to_owned(), "alpha".to_owned()], security: vec![], params: vec![], responses: vec![response(1, "response 10", Some(use_of("StrEnum", 6))), response(418, "I'm a teapot", Some(use_of("MutA", 2))), response(100, "Continue", Some(int_schema("uint8"))), response(202, "response 11", Some(use_of("BigUn", 1)))], callbacks: vec![], ..Default::default() })], params: vec![("id7".to_owned(), param(2, true, use_of("Transp", 0))), ("inlUn".to_owned(), param(2, true, of("InlUn"))), ("q3".to_owned(), RParam { description: Some("".to_owned()), at: 0, required: v.bools[4], deprecated: false, schema: Some(use_of("BigInt", 1)) }), (v.texts[8].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q8".to_owned(), RParam { description: None, at: 0, required: false, deprecated: v.bools[0], schema: Some(use_of("CycA", 5)) })], ..Default::default() })]), ("cb12".to_owned(), vec![(lit(&["c14", "{std}", "a b", "{usesInlEnum}", "{id15}"]), RPathValue { ops: vec![(7, ROperation { summary: Some("".to_owned()), operation_id: Some(v.texts[23].clone()), description: Some(v.texts[1].clone()), body: Some((String::new(), true, int_schema("uint8"))), tags: vec!["gamma".to_owned()], security: vec![sec(&["scheme16"]), sec(&["lit2"])], params: vec![("inlUn".to_owned(), RParam { description: Some(v.texts[19].clone()), at: 1, required: false, deprecated: false, schema: Some(use_of("ChainSt", 3)) }), ("q17".to_owned(), RParam { description: None, at: 0, required: v.bools[15], deprecated: v.bools[14], schema: Some(use_of("InlEnum", 6)) }), ("q18".to_owned(), RParam { description: Some(v.texts[45].clone()), at: 0, required: false, deprecated: v.bools[12], schema: Some(use_of("Exs", 4)) }), ("literal 19".to_owned(), RParam { description: None, at: 1, required: v.bools[10], deprecated: v.bools[3], schema: Some(string_schema()) })], responses: vec![response(409, "response 21", Some(RSchema::Raw(direct_schema(0)))), response(100, "Continue", Some(use_of("Std", 6))), response(403, "response 20", None)], callbacks: vec![], ..Default::default() })], params: vec![("std".to_owned(), param(2, true, of("Std"))), ("usesInlEnum".to_owned(), param(2, true, of("UsesInlEnum"))), ("id15".to_owned(), param(2, true, use_of("BigAdj", 0))), ("id7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("uint8")) })], ..Default::default() })])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p23", "{cycA}", "{usesNew}"]), RPathValue { description: Some("path 24".to_owned()), ops: vec![(3, ROperation { operation_id: Some(v.texts[17].clone()), body: Some(("body 25".to_owned(), false, use_of("GenRef", 4))), tags: vec![], security: vec![], params: vec![], responses: vec![response(100, "Continue", None), response(599, "", None), response(503, "Service Unavailable", None)], callbacks: vec![("cb26".to_owned(), vec![])], ..Default::default() }), (0, ROperation { summary: Some(v.texts[59].clone()), operation_id: Some(v.texts[5].clone()), description: Some(v.texts[25].clone()), body: Some((String::new(), true, use_of("ExUn", 5))), tags: vec![], security: vec![sec(&["lit0", "lit1"]), sec(&["scheme27", "scheme28"]), sec(&["lit1", "lit2", "scheme16"])], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("cycA".to_owned(), param(2, true, of("CycA"))), ("usesNew".to_owned(), param(2, true, of("UsesNew")))], ..Default::default() }),
        Decl::Path(lit(&["p30"]), RPathValue { summary: Some("path 31".to_owned()), ops: vec![(0, ROperation { description: Some("".to_owned()), tags: vec![], security: vec![sec(&["scheme16", "scheme32"]), sec(&["scheme27"])], params: vec![], responses: vec![response(304, "response 33", Some(use_of("InlNew", 0))), response(200, "response 34", None), response(503, "Service Unavailable", None)], callbacks: vec![], ..Default::default() }), (3, ROperation { deprecated: v.bools[6], body: Some((String::new(), true, string_schema())), tags: vec!["gamma".to_owned(), "gamma".to_owned(), "gamma".to_owned()], security: vec![sec(&["lit2"])], params: vec![("id15".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q35".to_owned(), RParam { description: None, at: 0, required: v.bools[11], deprecated: v.bools[9], schema: Some(use_of("NewStr", 0)) }), ("id7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("UnMore", 0)) })], responses: vec![response(503, "Service Unavailable", Some(use_of("NewNum", 0))), response(301, "Moved Permanently", Some(RSchema::Raw(direct_schema(2)))), response(400, "Bad Request", Some(use_of("DiamondSide", 0))), response(429, "response 36", Some(null_schema()))], callbacks: vec![("cb37 x".to_owned(), vec![(lit(&["c39"]), RPathValue { description: Some("path 40".to_owned()), ops: vec![(7, ROperation { description: Some(v.texts[61].clone()), tags: vec!["alpha".to_owned(), "gamma".to_owned()], security: vec![], params: vec![], responses: vec![response(204, "No Content", None), response(404, "response 41", Some(use_of("NewVecUn", 5))), response(299, "", Some(use_of("Plain", 0))), response(403, "Forbidden", Some(use_of("NewVec", 0)))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })]), ("cb42".to_owned(), vec![])], ..Default::default() }), (7, ROperation { body: Some(("body 43".to_owned(), true, use_of("NewMap", 3))), tags: vec![], security: vec![sec(&["scheme32"]), sec(&["scheme16"]), sec(&["scheme16"]), sec(&["scheme27", "scheme32"])], params: vec![("usesInlEnum".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Mixed", 1)) }), ("q44".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Opt2", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme16".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme27".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme28".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme32".to_owned(), v.schemes[3].clone()),
    ]
}
const U13: &[&str] = &["NewOpt", "InlText", "Diamond", "UsesEnums", "Transp", "InlUn", "UsesEnums", "BigInt", "CycA", "SelfRef", "MutA", "StrEnum", "BigUn", "Std", "UsesInlEnum", "BigAdj", "BigExt", "InlEnum", "Exs", "ChainSt", "Std", "CycA", "UsesNew", "GenRef", "ExUn", "InlNew", "NewStr", "UnMore", "DiamondSide", "NewNum", "NewVecUn", "Plain", "NewVec", "NewMap", "Mixed", "Opt2"];
const E13: &[&str] = &["text 15", "text 29", "text 57", "bool 8", "text 34", "text 62", "bool 5", "text 11", "bool 4", "text 8", "bool 0", "text 37", "text 23", "text 1", "bool 14", "bool 15", "bool 12", "text 45", "bool 10", "bool 3", "text 19", "direct 0", "text 17", "text 59", "text 5", "text 25", "bool 6", "bool 11", "bool 9", "direct 2", "text 61"];

#[allow(unused_variables, clippy::all)]
fn t14() -> Opg {
    describe_api! {
        tags: { tag1(Conv(15)), tag2(&e(63)), },
        info: { title: { let x = e(1); x }, version: e(11).as_str(), description: if true { e(53) } else { String::new() } },
        paths: {  },
    }
}

#[allow(unused_variables)]
fn x14(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[1].clone(), Some(v.texts[53].clone()), v.texts[11].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[15].clone())),
        Decl::Tag("tag2".to_owned(), Some(v.texts[63].clone())),
    ]
}
const U14: &[&str] = &[];
const E14: &[&str] = &["text 1", "text 11", "text 53", "text 15", "text 63"];

#[allow(unused_variables, clippy::all)]
fn t15() -> Opg {
    let local10 = e(55);
    let local12 = e(51);
    let local13 = e(39);
    describe_api! {
        servers: { "http://9", local10("server 11"), },
        info: { title: e(11) },
        paths: { ("p2" / crate::zoo_derive::NewVecUn): { parameters: { (header if true { e(54) } else { String::new() }) }, OPTIONS: { 301("response 6"): None, parameters: { (query q3: DiamondSide), (query newVecUn: NewUn8): {  }, (header "literal 4"): { schema: Box<BigInt>, required: !!b(7), description: e(49).as_str(), deprecated: !!b(15) } }, body: BigExt, description: &e(61), tags: { alpha, alpha }, tags: {  }, 202("response 5"): None, callbacks: { cb7: {  }, "cb8/{$request.body#/url}": {  } } } } },
        servers: { local12, local13 },
        paths: {  },
    }
}

#[allow(unused_variables)]
fn x15(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[11].clone(), None, String::new()),
        Decl::Path(lit(&["p2", "{newVecUn}"]), RPathValue { ops: vec![(4, ROperation { description: Some(v.texts[61].clone()), body: Some((String::new(), true, use_of("BigExt", 0))), tags: vec!["alpha".to_owned(), "alpha".to_owned()], security: vec![], params: vec![("q3".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("DiamondSide", 0)) }), ("newVecUn".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewUn8", 0)) }), ("literal 4".to_owned(), RParam { description: Some(v.texts[49].clone()), at: 1, required: v.bools[7], deprecated: v.bools[15], schema: Some(use_of("BigInt", 2)) })], responses: vec![response(301, "response 6", None), response(202, "response 5", None)], callbacks: vec![("cb7".to_owned(), vec![]), ("cb8/{$request.body#/url}".to_owned(), vec![])], ..Default::default() })], params: vec![("newVecUn".to_owned(), param(2, true, of("NewVecUn"))), (v.texts[54].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Server("http://9".to_owned(), None),
        Decl::Server(v.texts[55].clone(), Some("server 11".to_owned())),
        Decl::Server(v.texts[51].clone(), None),
        Decl::Server(v.texts[39].clone(), None),
    ]
}
const U15: &[&str] = &["NewVecUn", "BigExt", "DiamondSide", "NewUn8", "BigInt"];
const E15: &[&str] = &["text 11", "text 54", "text 61", "bool 7", "text 49", "bool 15", "text 55", "text 51", "text 39"];

#[allow(unused_variables, clippy::all)]
fn t16() -> Opg {
    let scheme10 = scheme(0);
    let scheme11 = scheme(1);
    let scheme24 = scheme(2);
    let scheme25 = scheme(3);
    let local2 = e(9);
    describe_api! {
        security_schemes: {  },
        paths: { ("p4" / "v1" / "x" / {id5: u8}): { GET: { 204: std::collections::HashMap<String, InlText>, body: { schema: crate::zoo_derive::IntBody, required: false }, 201: ExExt, summary: "literal 6", parameters: { (header "literal 7"): { deprecated: { b(6) }, schema: Vec<Option<NewObj>>, description: "literal 8" } }, 404: u8, 304: Vec<Option<NewVecUn>>, }, PUT: { parameters: {  }, security: { scheme10 && "lit1", scheme11 }, parameters: { (query id5: std::collections::HashMap<String, GenRef<'static, Plain, StrEnum>>), (header &e(60)): { required: true, schema: NewInl, deprecated: true } }, callbacks: { "cb12 x": { ("c14" / "y.z" / {id15: String}): { TRACE: { description: &Conv(29), body: NewOpt, 299: u8, parameters: { (query id15: Mixed<'static, i32, [Leaf]>): { schema: Box<NewOpt> }, (header &e(48)), (header e(20)) }, summary: "literal 16", tags: { beta }, 500: None } }, ("c18" / {id19: CycC} / "a b" / "v1" / "x"): { TRACE: { parameters: { (query q21: crate::zoo_derive::IntBody), (header "literal 22"): { required: { b(3) } }, (header { let x = e(38); x }): { schema: NewNum, required: false, deprecated: b(10), description: "literal 23" } }, 201: Vec<Deep>, 429: NewInt, tags: { delta }, parameters: { (header &e(0)) }, body: std::collections::HashMap<String, Fields>, 500: Option<crate::zoo_derive::ExInt>, tags: {  } }, GET: { parameters: { (header &e(62)), (header "id15"): { schema: crate::zoo_derive::ExExt, required: { b(12) } } }, 500: { Some(direct(2)) }, 403: Tup, security: { scheme24 && "lit1", scheme25 }, parameters: { (query q26: Vec<Option<MutA>>) }, 999: i64, tags: { gamma }, 204: (), security: { scheme24 && "lit1" && "lit0", "lit2" && scheme24 } }, summary: "path 20" } }, "cb27": { ("c29" / "y.z" / ChainSt / {id30: Vec<InlEnum>} / "v1"): { GET: { tags: {  }, 429: Vec<Option<InlText>>, 299("response 32"): i64, operationId: &e(35), parameters: { (header { let x = e(8); x }), (query q31: ChainUnS): { deprecated: b(11), description: &e(15), schema: Vec<Option<UsesMore>>, required: !!b(0) }, (header if true { e(16) } else { String::new() }): { required: b(7), description: Conv(19), schema: Vec<InlRepr> } }, security: {  }, 100: Vec<Option<crate::zoo_derive::Fields>> }, }, ("c34" / "a b"): { PUT: { body: { schema: Option<Box<NewInl>>, description: "body 39" }, 403: CycC, 404: Option<Box<UsesNew>>, 429: NewMap, description: &e(5), }, parameters: { (query q35: ExUn): { schema: std::collections::HashMap<String, crate::zoo_derive::InlAdj>, deprecated: { b(13) }, description: "literal 36" }, (query q37: crate::zoo_derive::NewMap): { schema: MutB, description: if true { e(23) } else { String::new() }, deprecated: { b(2) }, required: b(14) }, (query q38: u32): { deprecated: !!b(9), required: b(15) } } } } }, deprecated: true, description: "literal 9", tags: {  }, tags: { alpha }, security: { scheme10, "lit1" && "lit0" }, body: Vec<ChainTu> }, }, ("p41" / "y.z"): { PUT: { 401: BigAdj, parameters: { (header "q31"): { deprecated: { b(1) }, required: true, schema: BigObj, description: &e(43) }, (header e(34)), (query id19: i64) }, 403: ReprEnum, deprecated: true, callbacks: { "cb45 x": {  } }, 500("response 44"): None, body: { description: "body 43", schema: Option<Box<InlTup>> }, }, description: "path 42" }, },
        info: { description: if true { e(53) } else { String::new() }, version: { let x = e(49); x }, title: Conv(33), },
        servers: { "http://1"(local2) },
    }
}

#[allow(unused_variables)]
fn x16(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[33].clone(), Some(v.texts[53].clone()), v.texts[49].clone()),
        Decl::Server("http://1".to_owned(), Some(v.texts[9].clone())),
        Decl::Path(lit(&["p4", "v1", "x", "{id5}"]), RPathValue { ops: vec![(0, ROperation { summary: Some("literal 6".to_owned()), body: Some((String::new(), false, use_of("IntBody", 0))), tags: vec![], security: vec![], params: vec![("literal 7".to_owned(), RParam { description: Some("literal 8".to_owned()), at: 1, required: true, deprecated: v.bools[6], schema: Some(use_of("NewObj", 6)) })], responses: vec![response(204, "No Content", Some(use_of("InlText", 4))), response(201, "Created", Some(use_of("ExExt", 0))), response(404, "Not Found", Some(int_schema("uint8"))), response(304, "Not Modified", Some(use_of("NewVecUn", 6)))], callbacks: vec![], ..Default::default() }), (1, ROperation { description: Some("literal 9".to_owned()), deprecated: true, body: Some((String::new(), true, use_of("ChainTu", 3))), tags: vec!["alpha".to_owned()], security: vec![sec(&["lit1", "scheme10"]), sec(&["scheme11"]), sec(&["scheme10"]), sec(&["lit0", "lit1"])], params: vec![("id5".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("GenRef", 4)) }), (v.texts[60].clone(), RParam { description: None, at: 1, required: true, deprecated: true, schema: Some(use_of("NewInl", 0)) })], responses: vec![], callbacks: vec![("cb12 x".to_owned(), vec![(lit(&["c14", "y.z", "{id15}"]), RPathValue { ops: vec![(7, ROperation { summary: Some("literal 16".to_owned()), description: Some(v.texts[29].clone()), body: Some((String::new(), true, use_of("NewOpt", 0))), tags: vec!["beta".to_owned()], security: vec![], params: vec![("id15".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewOpt", 2)) }), (v.texts[48].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[20].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(299, "", Some(int_schema("uint8"))), response(500, "Internal Server Error", None)], callbacks: vec![], ..Default::default() })], params: vec![("id15".to_owned(), param(2, true, string_schema()))], ..Default::default() }), (lit(&["c18", "{id19}", "a b", "v1", "x"]), RPathValue { summary: Some("path 20".to_owned()), ops: vec![(7, ROperation { body: Some((String::new(), true, use_of("Fields", 4))), tags: vec!["delta".to_owned()], security: vec![], params: vec![("q21".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("IntBody", 0)) }), ("literal 22".to_owned(), RParam { description: None, at: 1, required: v.bools[3], deprecated: false, schema: Some(string_schema()) }), (v.texts[38].clone(), RParam { description: Some("literal 23".to_owned()), at: 1, required: false, deprecated: v.bools[10], schema: Some(use_of("NewNum", 0)) }), (v.texts[0].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(201, "Created", Some(use_of("Deep", 3))), response(429, "Too Many Requests", Some(use_of("NewInt", 0))), response(500, "Internal Server Error", Some(use_of("ExInt", 1)))], callbacks: vec![], ..Default::default() }), (0, ROperation { tags: vec!["gamma".to_owned()], security: vec![sec(&["lit1", "scheme24"]), sec(&["scheme25"]), sec(&["lit0", "lit1", "scheme24"]), sec(&["lit2", "scheme24"])], params: vec![(v.texts[62].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("id15".to_owned(), RParam { description: None, at: 1, required: v.bools[12], deprecated: false, schema: Some(use_of("ExExt", 0)) }), ("q26".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("MutA", 6)) })], responses: vec![response(500, "Internal Server Error", Some(RSchema::Raw(direct_schema(2)))), response(403, "Forbidden", Some(use_of("Tup", 0))), response(999, "", Some(int_schema("int64"))), response(204, "No Content", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![("id19".to_owned(), param(2, true, use_of("CycC", 0)))], ..Default::default() })]), ("cb27".to_owned(), vec![(lit(&["c29", "y.z", "{chainSt}", "{id30}", "v1"]), RPathValue { ops: vec![(0, ROperation { operation_id: Some(v.texts[35].clone()), tags: vec![], security: vec![], params: vec![(v.texts[8].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q31".to_owned(), RParam { description: Some(v.texts[15].clone()), at: 0, required: v.bools[0], deprecated: v.bools[11], schema: Some(use_of("UsesMore", 6)) }), (v.texts[16].clone(), RParam { description: Some(v.texts[19].clone()), at: 1, required: v.bools[7], deprecated: false, schema: Some(use_of("InlRepr", 3)) })], responses: vec![response(429, "Too Many Requests", Some(use_of("InlText", 6))), response(299, "response 32", Some(int_schema("int64"))), response(100, "Continue", Some(use_of("Fields", 6)))], callbacks: vec![], ..Default::default() })], params: vec![("chainSt".to_owned(), param(2, true, of("ChainSt"))), ("id30".to_owned(), param(2, true, use_of("InlEnum", 3)))], ..Default::default() }), (lit(&["c34", "a b"]), RPathValue { ops: vec![(1, ROperation { description: Some(v.texts[5].clone()), body: Some(("body 39".to_owned(), true, use_of("NewInl", 5))), tags: vec![], security: vec![], params: vec![], responses: vec![response(403, "Forbidden", Some(use_of("CycC", 0))), response(404, "Not Found", Some(use_of("UsesNew", 5))), response(429, "Too Many Requests", Some(use_of("NewMap", 0)))], callbacks: vec![], ..Default::default() })], params: vec![("q35".to_owned(), RParam { description: Some("literal 36".to_owned()), at: 0, required: false, deprecated: v.bools[13], schema: Some(use_of("InlAdj", 4)) }), ("q37".to_owned(), RParam { description: Some(v.texts[23].clone()), at: 0, required: v.bools[14], deprecated: v.bools[2], schema: Some(use_of("MutB", 0)) }), ("q38".to_owned(), RParam { description: None, at: 0, required: v.bools[15], deprecated: v.bools[9], schema: Some(int_schema("uint32")) })], ..Default::default() })])], ..Default::default() })], params: vec![("id5".to_owned(), param(2, true, int_schema("uint8")))], ..Default::default() }),
        Decl::Path(lit(&["p41", "y.z"]), RPathValue { description: Some("path 42".to_owned()), ops: vec![(1, ROperation { deprecated: true, body: Some(("body 43".to_owned(), true, use_of("InlTup", 5))), tags: vec![], security: vec![], params: vec![("q31".to_owned(), RParam { description: Some(v.texts[43].clone()), at: 1, required: true, deprecated: v.bools[1], schema: Some(use_of("BigObj", 0)) }), (v.texts[34].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("id19".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("int64")) })], responses: vec![response(401, "Unauthorized", Some(use_of("BigAdj", 0))), response(403, "Forbidden", Some(use_of("ReprEnum", 0))), response(500, "response 44", None)], callbacks: vec![("cb45 x".to_owned(), vec![])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme10".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme11".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme24".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme25".to_owned(), v.schemes[3].clone()),
    ]
}
const U16: &[&str] = &["IntBody", "NewObj", "ExExt", "InlText", "NewVecUn", "ChainTu", "GenRef", "NewInl", "NewOpt", "Mixed", "NewOpt", "CycC", "Fields", "IntBody", "NewNum", "Deep", "NewInt", "ExInt", "ExExt", "MutA", "Tup", "ChainSt", "InlEnum", "ChainUnS", "UsesMore", "InlRepr", "InlText", "Fields", "ExUn", "InlAdj", "NewMap", "MutB", "NewInl", "CycC", "NewMap", "UsesNew", "InlTup", "BigObj", "ReprEnum", "BigAdj"];
const E16: &[&str] = &["text 33", "text 49", "text 53", "text 9", "bool 6", "text 60", "text 29", "text 48", "text 20", "text 0", "bool 3", "text 38", "bool 10", "text 62", "bool 12", "direct 2", "text 35", "text 8", "bool 11", "text 15", "bool 0", "text 16", "bool 7", "text 19", "bool 13", "text 23", "bool 2", "bool 14", "bool 9", "bool 15", "text 5", "bool 1", "text 43", "text 34"];

#[allow(unused_variables, clippy::all)]
fn t17() -> Opg {
    let scheme9 = scheme(0);
    let scheme12 = scheme(1);
    let scheme13 = scheme(2);
    describe_api! {
        info: { title: "literal 1", description: e(15), version: Conv(31), },
        tags: {  },
        security_schemes: { (http "http 4"): { description: &e(55), scheme: Basic } },
        paths: { ("p6"): { POST: { security: { scheme9 }, tags: { alpha, delta }, tags: { beta }, body: IntBody, 2000("response 10"): (), summary: "literal 8", security: { "lit0" }, parameters: {  }, description: e(23).as_str(), 1("response 11"): InlEnum }, description: "path 7", DELETE: { description: &e(33), parameters: { (query q14: InlAdj): { required: false }, (query q15: i64): {  }, (query q16: Transp) }, security: {  }, callbacks: { "cb17": {  } }, security: { "lit1" && scheme12 && "lit2", scheme12 && "lit2", "lit0" && scheme13 && scheme12 } }, PUT: { body: { required: true, schema: crate::zoo_derive::CycA }, operationId: "literal 18", parameters: { (query q14: UsesNew): { deprecated: !!b(1), required: false, description: e(57).as_str(), schema: Box<NewTy> }, (header "q16"): { description: e(29) }, (query q15: Transp): { description: e(49), deprecated: !!b(7) } }, }, }, },
        servers: { "http://2"("server 3") }
    }
}

#[allow(unused_variables)]
fn x17(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), Some(v.texts[15].clone()), v.texts[31].clone()),
        Decl::Server("http://2".to_owned(), Some("server 3".to_owned())),
        Decl::Scheme("http 4".to_owned(), RScheme::Basic(Some(v.texts[55].clone()))),
        Decl::Path(lit(&["p6"]), RPathValue { description: Some("path 7".to_owned()), ops: vec![(2, ROperation { summary: Some("literal 8".to_owned()), description: Some(v.texts[23].clone()), body: Some((String::new(), true, use_of("IntBody", 0))), tags: vec!["alpha".to_owned(), "delta".to_owned(), "beta".to_owned()], security: vec![sec(&["scheme9"]), sec(&["lit0"])], params: vec![], responses: vec![response(2000, "response 10", Some(null_schema())), response(1, "response 11", Some(use_of("InlEnum", 0)))], callbacks: vec![], ..Default::default() }), (3, ROperation { description: Some(v.texts[33].clone()), tags: vec![], security: vec![sec(&["lit1", "lit2", "scheme12"]), sec(&["lit2", "scheme12"]), sec(&["lit0", "scheme12", "scheme13"])], params: vec![("q14".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlAdj", 0)) }), ("q15".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("int64")) }), ("q16".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Transp", 0)) })], responses: vec![], callbacks: vec![("cb17".to_owned(), vec![])], ..Default::default() }), (1, ROperation { operation_id: Some("literal 18".to_owned()), body: Some((String::new(), true, use_of("CycA", 0))), tags: vec![], security: vec![], params: vec![("q14".to_owned(), RParam { description: Some(v.texts[57].clone()), at: 0, required: false, deprecated: v.bools[1], schema: Some(use_of("NewTy", 2)) }), ("q16".to_owned(), RParam { description: Some(v.texts[29].clone()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q15".to_owned(), RParam { description: Some(v.texts[49].clone()), at: 0, required: false, deprecated: v.bools[7], schema: Some(use_of("Transp", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme9".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme12".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[2].clone()),
    ]
}
const U17: &[&str] = &["IntBody", "InlEnum", "InlAdj", "Transp", "CycA", "UsesNew", "NewTy", "Transp"];
const E17: &[&str] = &["text 31", "text 15", "text 55", "text 23", "text 33", "bool 1", "text 57", "text 29", "text 49", "bool 7"];

#[allow(unused_variables, clippy::all)]
fn t18() -> Opg {
    describe_api! {
        paths: {  },
        security_schemes: {  },
        servers: { "http://2"("server 3"), "http://4" },
        info: { version: "literal 1" },
    }
}

#[allow(unused_variables)]
fn x18(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(String::new(), None, "literal 1".to_owned()),
        Decl::Server("http://2".to_owned(), Some("server 3".to_owned())),
        Decl::Server("http://4".to_owned(), None),
    ]
}
const U18: &[&str] = &[];
const E18: &[&str] = &[];

#[allow(unused_variables, clippy::all)]
fn t19() -> Opg {
    let scheme10 = scheme(0);
    let scheme40 = scheme(1);
    let scheme45 = scheme(2);
    let scheme65 = scheme(3);
    describe_api! {
        info: { version: e(55).as_str() },
        tags: {  },
        paths: { ("p2"): { description: "path 3", POST: { 599: crate::zoo_derive::UsesNew, operationId: &Conv(39), callbacks: {  }, body: UnMore }, }, ("p5" / {id6: NewObj}): { HEAD: { 100("response 8"): Exs, description: &{ let x = e(9); x }, 503: None, 404: Diamond, security: {  }, 1: BigUn, body: { required: false, description: "body 7", schema: Option<Box<CycC>> }, parameters: { (query id6: Option<Box<BigAdj>>): { schema: Diamond, description: e(43).as_str(), required: false, deprecated: true } }, parameters: {  } }, OPTIONS: { operationId: "literal 9", 301: Option<InlRepr>, 202: crate::zoo_derive::Tup, callbacks: { "cb15/{$request.body#/url}": { ("c17" / "x" / "a b"): { HEAD: { 200("response 22"): InlStr, 401("response 23"): (), operationId: &Conv(7), 999: UsesEnums, parameters: { (header "q11"): { description: e(57).as_str(), required: true, schema: crate::zoo_derive::RecUse }, (query q21: crate::zoo_derive::Opt2): { schema: std::collections::HashMap<String, NewNum>, description: e(35).as_str(), required: !!b(5), deprecated: { b(4) } }, (header &e(14)): { required: { b(7) }, description: if true { e(59) } else { String::new() } } } }, POST: { tags: { beta, gamma }, description: &e(3), body: Vec<InlRepr>, tags: { alpha } }, DELETE: { 409: None, tags: { gamma, gamma }, 202("response 18"): None, 200("response 20"): None, 429("response 19"): String, } } } }, 1: Box<BigAdj>, tags: { delta }, security: { scheme10 }, 401("response 14"): NewNew, tags: {  }, parameters: { (query q11: BigObj): { description: e(37).as_str(), required: true, schema: InlNew, deprecated: false }, (query q12: Option<CycB>): {  }, (query q13: i64): { description: Conv(11), required: true } } }, PATCH: { callbacks: { cb27: { ("c29" / {id30: crate::zoo_derive::CycC} / {id31: crate::zoo_derive::BigExt}): { summary: "path 32", POST: { parameters: { (query q34: Option<BigUn>): { required: { b(8) } }, (query q35: Vec<NewMap>), (query q36: RecEnum) }, deprecated: !!b(10), operationId: &Conv(27), security: {  }, 599("response 38"): CycA, security: { "lit1", "lit1" }, 1("response 37"): Option<NewStr>, tags: {  }, tags: {  } }, parameters: { (header "literal 33"): { schema: ChainAdN, required: b(1) } }, DELETE: { security: {  }, description: &format!("{}", e(51)), operationId: &format!("{}", e(63)), 299: Vec<InlNew>, 202: { Some(direct(0)) }, parameters: {  }, deprecated: { b(2) }, }, TRACE: { parameters: { (header "q36"): { description: e(23), schema: BigInt, deprecated: b(6), required: b(15) }, (header "literal 41"), (header "q21") }, security: { scheme10, scheme40, scheme40 }, parameters: { (header "id31") }, 404: UsesEnums, tags: { alpha, gamma }, summary: "literal 39", operationId: &{ let x = e(47); x }, 999: () } }, (UsesNew / "y.z" / UsesNew / "c43"): { summary: "path 44", DELETE: { 404: (), tags: { beta }, 200: { None }, tags: { gamma }, parameters: { (header { let x = e(38); x }): { required: false, description: e(29), schema: InlAdj, deprecated: false } }, security: { "lit0" }, 202: { None }, security: { "lit0" && scheme10, scheme45 && scheme40 }, 1: None }, OPTIONS: { 202: std::collections::HashMap<String, NewObj>, description: e(1).as_str(), 503: Vec<Option<UnMore>>, 500: { Some(direct(1)) }, parameters: {  }, body: { schema: Deep }, }, } } }, 599("response 25"): BigExt, summary: "literal 24", 202("response 26"): Mixed<'static, i32, [Leaf]>, 1: Untagged, 304: (), parameters: { (header e(36)) }, } }, ("p47" / NewInl): { POST: { 299: Option<Fields>, body: { schema: Box<InlRepr>, required: false }, 500: (), summary: "", }, parameters: { (header e(48)): { required: !!b(0), description: &e(19), schema: IntEnum, deprecated: { b(13) } } } }, },
        paths: { ({id50: MutA} / "v1" / "p49" / "x" / "x"): { summary: "path 51", parameters: { (header "literal 53") }, HEAD: { parameters: {  }, tags: { gamma, beta }, 429: InlExt, tags: { delta }, operationId: e(21).as_str(), callbacks: { "cb54 x": { (NewUn8 / "c56" / {id57: Vec<CycA>} / {id58: Box<Wide>}): { parameters: { (header "q34"): { description: "literal 59", deprecated: !!b(12) }, (query q35: StrEnum), (header "id31"): { description: "literal 60" } }, } }, cb61: { ("c63"): { HEAD: { security: { scheme65 && "lit0", "lit2", "lit1" && scheme65 && scheme45 }, body: InlNew, parameters: { (header "newUn8") }, security: {  } }, summary: "path 64", }, ("y.z" / "c67" / {id68: Option<NewTy>} / crate::zoo_derive::InlInt / "y.z"): { summary: "path 69", OPTIONS: { parameters: {  }, body: { description: "body 70", schema: Leaf, required: true }, tags: { delta, alpha }, tags: {  }, description: &{ let x = e(45); x }, 401: Option<Box<CycC>> } } } }, callbacks: {  }, 500: Box<NewVec>, }, description: "path 52" } },
    }
}

#[allow(unused_variables)]
fn x19(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(String::new(), None, v.texts[55].clone()),
        Decl::Path(lit(&["p2"]), RPathValue { description: Some("path 3".to_owned()), ops: vec![(2, ROperation { operation_id: Some(v.texts[39].clone()), body: Some((String::new(), true, use_of("UnMore", 0))), tags: vec![], security: vec![], params: vec![], responses: vec![response(599, "", Some(use_of("UsesNew", 0)))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p5", "{id6}"]), RPathValue { ops: vec![(5, ROperation { description: Some(v.texts[9].clone()), body: Some(("body 7".to_owned(), false, use_of("CycC", 5))), tags: vec![], security: vec![], params: vec![("id6".to_owned(), RParam { description: Some(v.texts[43].clone()), at: 0, required: false, deprecated: true, schema: Some(use_of("Diamond", 0)) })], responses: vec![response(100, "response 8", Some(use_of("Exs", 0))), response(503, "Service Unavailable", None), response(404, "Not Found", Some(use_of("Diamond", 0))), response(1, "", Some(use_of("BigUn", 0)))], callbacks: vec![], ..Default::default() }), (4, ROperation { operation_id: Some("literal 9".to_owned()), tags: vec!["delta".to_owned()], security: vec![sec(&["scheme10"])], params: vec![("q11".to_owned(), RParam { description: Some(v.texts[37].clone()), at: 0, required: true, deprecated: false, schema: Some(use_of("InlNew", 0)) }), ("q12".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("CycB", 1)) }), ("q13".to_owned(), RParam { description: Some(v.texts[11].clone()), at: 0, required: true, deprecated: false, schema: Some(int_schema("int64")) })], responses: vec![response(301, "Moved Permanently", Some(use_of("InlRepr", 1))), response(202, "Accepted", Some(use_of("Tup", 0))), response(1, "", Some(use_of("BigAdj", 2))), response(401, "response 14", Some(use_of("NewNew", 0)))], callbacks: vec![("cb15/{$request.body#/url}".to_owned(), vec![(lit(&["c17", "x", "a b"]), RPathValue { ops: vec![(3, ROperation { tags: vec!["gamma".to_owned(), "gamma".to_owned()], security: vec![], params: vec![], responses: vec![response(409, "Conflict", None), response(202, "response 18", None), response(200, "response 20", None), response(429, "response 19", Some(string_schema()))], callbacks: vec![], ..Default::default() }), (5, ROperation { operation_id: Some(v.texts[7].clone()), tags: vec![], security: vec![], params: vec![("q11".to_owned(), RParam { description: Some(v.texts[57].clone()), at: 1, required: true, deprecated: false, schema: Some(use_of("RecUse", 0)) }), ("q21".to_owned(), RParam { description: Some(v.texts[35].clone()), at: 0, required: v.bools[5], deprecated: v.bools[4], schema: Some(use_of("NewNum", 4)) }), (v.texts[14].clone(), RParam { description: Some(v.texts[59].clone()), at: 1, required: v.bools[7], deprecated: false, schema: Some(string_schema()) })], responses: vec![response(200, "response 22", Some(use_of("InlStr", 0))), response(401, "response 23", Some(null_schema())), response(999, "", Some(use_of("UsesEnums", 0)))], callbacks: vec![], ..Default::default() }), (2, ROperation { description: Some(v.texts[3].clone()), body: Some((String::new(), true, use_of("InlRepr", 3))), tags: vec!["beta".to_owned(), "gamma".to_owned(), "alpha".to_owned()], security: vec![], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() }), (6, ROperation { summary: Some("literal 24".to_owned()), tags: vec![], security: vec![], params: vec![(v.texts[36].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(599, "response 25", Some(use_of("BigExt", 0))), response(202, "response 26", Some(use_of("Mixed", 0))), response(1, "", Some(use_of("Untagged", 0))), response(304, "Not Modified", Some(null_schema()))], callbacks: vec![("cb27".to_owned(), vec![(lit(&["c29", "{id30}", "{id31}"]), RPathValue { summary: Some("path 32".to_owned()), ops: vec![(2, ROperation { operation_id: Some(v.texts[27].clone()), deprecated: v.bools[10], tags: vec![], security: vec![sec(&["lit1"]), sec(&["lit1"])], params: vec![("q34".to_owned(), RParam { description: None, at: 0, required: v.bools[8], deprecated: false, schema: Some(use_of("BigUn", 1)) }), ("q35".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewMap", 3)) }), ("q36".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("RecEnum", 0)) })], responses: vec![response(599, "response 38", Some(use_of("CycA", 0))), response(1, "response 37", Some(use_of("NewStr", 1)))], callbacks: vec![], ..Default::default() }), (7, ROperation { summary: Some("literal 39".to_owned()), operation_id: Some(v.texts[47].clone()), tags: vec!["alpha".to_owned(), "gamma".to_owned()], security: vec![sec(&["scheme10"]), sec(&["scheme40"]), sec(&["scheme40"])], params: vec![("q36".to_owned(), RParam { description: Some(v.texts[23].clone()), at: 1, required: v.bools[15], deprecated: v.bools[6], schema: Some(use_of("BigInt", 0)) }), ("literal 41".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q21".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("id31".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(404, "Not Found", Some(use_of("UsesEnums", 0))), response(999, "", Some(null_schema()))], callbacks: vec![], ..Default::default() }), (3, ROperation { operation_id: Some(v.texts[63].clone()), description: Some(v.texts[51].clone()), deprecated: v.bools[2], tags: vec![], security: vec![], params: vec![], responses: vec![response(299, "", Some(use_of("InlNew", 3))), response(202, "Accepted", Some(RSchema::Raw(direct_schema(0))))], callbacks: vec![], ..Default::default() })], params: vec![("id30".to_owned(), param(2, true, use_of("CycC", 0))), ("id31".to_owned(), param(2, true, use_of("BigExt", 0))), ("literal 33".to_owned(), RParam { description: None, at: 1, required: v.bools[1], deprecated: false, schema: Some(use_of("ChainAdN", 0)) })], ..Default::default() }), (lit(&["{usesNew}", "y.z", "{usesNew}", "c43"]), RPathValue { summary: Some("path 44".to_owned()), ops: vec![(4, ROperation { description: Some(v.texts[1].clone()), body: Some((String::new(), true, use_of("Deep", 0))), tags: vec![], security: vec![], params: vec![], responses: vec![response(202, "Accepted", Some(use_of("NewObj", 4))), response(503, "Service Unavailable", Some(use_of("UnMore", 6))), response(500, "Internal Server Error", Some(RSchema::Raw(direct_schema(1))))], callbacks: vec![], ..Default::default() }), (3, ROperation { tags: vec!["beta".to_owned(), "gamma".to_owned()], security: vec![sec(&["lit0"]), sec(&["lit0", "scheme10"]), sec(&["scheme40", "scheme45"])], params: vec![(v.texts[38].clone(), RParam { description: Some(v.texts[29].clone()), at: 1, required: false, deprecated: false, schema: Some(use_of("InlAdj", 0)) })], responses: vec![response(404, "Not Found", Some(null_schema())), response(200, "OK", None), response(202, "Accepted", None), response(1, "", None)], callbacks: vec![], ..Default::default() })], params: vec![("usesNew".to_owned(), param(2, true, of("UsesNew")))], ..Default::default() })])], ..Default::default() })], params: vec![("id6".to_owned(), param(2, true, use_of("NewObj", 0)))], ..Default::default() }),
        Decl::Path(lit(&["p47", "{newInl}"]), RPathValue { ops: vec![(2, ROperation { summary: Some("".to_owned()), body: Some((String::new(), false, use_of("InlRepr", 2))), tags: vec![], security: vec![], params: vec![], responses: vec![response(299, "", Some(use_of("Fields", 1))), response(500, "Internal Server Error", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![("newInl".to_owned(), param(2, true, of("NewInl"))), (v.texts[48].clone(), RParam { description: Some(v.texts[19].clone()), at: 1, required: v.bools[0], deprecated: v.bools[13], schema: Some(use_of("IntEnum", 0)) })], ..Default::default() }),
        Decl::Path(lit(&["{id50}", "v1", "p49", "x", "x"]), RPathValue { summary: Some("path 51".to_owned()), description: Some("path 52".to_owned()), ops: vec![(5, ROperation { operation_id: Some(v.texts[21].clone()), tags: vec!["gamma".to_owned(), "beta".to_owned(), "delta".to_owned()], security: vec![], params: vec![], responses: vec![response(429, "Too Many Requests", Some(use_of("InlExt", 0))), response(500, "Internal Server Error", Some(use_of("NewVec", 2)))], callbacks: vec![("cb54 x".to_owned(), vec![(lit(&["{newUn8}", "c56", "{id57}", "{id58}"]), RPathValue { ops: vec![], params: vec![("id57".to_owned(), param(2, true, use_of("CycA", 3))), ("id58".to_owned(), param(2, true, use_of("Wide", 2))), ("newUn8".to_owned(), param(2, true, of("NewUn8"))), ("q34".to_owned(), RParam { description: Some("literal 59".to_owned()), at: 1, required: true, deprecated: v.bools[12], schema: Some(string_schema()) }), ("q35".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("StrEnum", 0)) }), ("id31".to_owned(), RParam { description: Some("literal 60".to_owned()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() })]), ("cb61".to_owned(), vec![(lit(&["c63"]), RPathValue { summary: Some("path 64".to_owned()), ops: vec![(5, ROperation { body: Some((String::new(), true, use_of("InlNew", 0))), tags: vec![], security: vec![sec(&["lit0", "scheme65"]), sec(&["lit2"]), sec(&["lit1", "scheme45", "scheme65"])], params: vec![("newUn8".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }), (lit(&["y.z", "c67", "{id68}", "{inlInt}", "y.z"]), RPathValue { summary: Some("path 69".to_owned()), ops: vec![(4, ROperation { description: Some(v.texts[45].clone()), body: Some(("body 70".to_owned(), true, use_of("Leaf", 0))), tags: vec!["delta".to_owned(), "alpha".to_owned()], security: vec![], params: vec![], responses: vec![response(401, "Unauthorized", Some(use_of("CycC", 5)))], callbacks: vec![], ..Default::default() })], params: vec![("id68".to_owned(), param(2, true, use_of("NewTy", 1))), ("inlInt".to_owned(), param(2, true, of("InlInt")))], ..Default::default() })])], ..Default::default() })], params: vec![("id50".to_owned(), param(2, true, use_of("MutA", 0))), ("literal 53".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Scheme("scheme10".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme40".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme45".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme65".to_owned(), v.schemes[3].clone()),
    ]
}
const U19: &[&str] = &["UnMore", "UsesNew", "NewObj", "CycC", "BigAdj", "Diamond", "Exs", "Diamond", "BigUn", "BigObj", "InlNew", "CycB", "InlRepr", "Tup", "BigAdj", "NewNew", "RecUse", "Opt2", "NewNum", "UsesEnums", "InlStr", "InlRepr", "BigExt", "Mixed", "Untagged", "CycC", "BigExt", "ChainAdN", "BigUn", "NewMap", "RecEnum", "NewStr", "CycA", "BigInt", "UsesEnums", "InlNew", "UsesNew", "UsesNew", "Deep", "NewObj", "UnMore", "InlAdj", "NewInl", "IntEnum", "InlRepr", "Fields", "MutA", "NewVec", "InlExt", "CycA", "Wide", "NewUn8", "StrEnum", "InlNew", "NewTy", "InlInt", "Leaf", "CycC"];
const E19: &[&str] = &["text 55", "text 39", "text 9", "text 43", "text 37", "text 11", "text 7", "text 57", "text 35", "bool 5", "bool 4", "text 14", "bool 7", "text 59", "text 3", "text 36", "bool 1", "text 27", "bool 10", "bool 8", "text 47", "text 23", "bool 6", "bool 15", "text 63", "text 51", "bool 2", "direct 0", "text 1", "direct 1", "text 38", "text 29", "text 48", "bool 0", "text 19", "bool 13", "text 21", "bool 12", "text 45"];

#[allow(unused_variables, clippy::all)]
fn t20() -> Opg {
    let scheme19 = scheme(0);
    let scheme20 = scheme(1);
    let local8 = e(55);
    let local11 = e(17);
    let local21 = e(51);
    let local22 = e(47);
    describe_api! {
        servers: { local8("server 9"), "http://10"(local11), "http://12" },
        info: { version: "literal 2", title: "literal 1" },
        servers: { local21(local22) },
        tags: { tag3(e(7).as_str()), tag4, },
        paths: {  },
        tags: { tag5(if true { e(1) } else { String::new() }), tag6, tag7 },
        paths: { (BigObj / "p14" / crate::zoo_derive::ExUn / {id15: NewVec}): { PUT: { security: { "lit1" && "lit2", scheme19, "lit2" && scheme19 && scheme20 }, body: ExtEnum, operationId: &Conv(13), tags: { beta } }, HEAD: { tags: { delta }, callbacks: {  }, 100: Inl, parameters: { (query q18: u32): { deprecated: b(12) }, (query bigObj: Option<CycA>) }, operationId: &format!("{}", e(57)), parameters: { (header "exUn"): { description: &e(3), required: false, schema: Option<crate::zoo_derive::UsesInl>, deprecated: b(2) } }, deprecated: true, security: {  } }, POST: { 100("response 16"): (), 1: { None }, 500: { None }, tags: { gamma }, tags: { alpha, beta }, 599: NewUn8, callbacks: { "cb17/{$request.body#/url}": {  } }, } }, }
    }
}

#[allow(unused_variables)]
fn x20(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), None, "literal 2".to_owned()),
        Decl::Tag("tag3".to_owned(), Some(v.texts[7].clone())),
        Decl::Tag("tag4".to_owned(), None),
        Decl::Tag("tag5".to_owned(), Some(v.texts[1].clone())),
        Decl::Tag("tag6".to_owned(), None),
        Decl::Tag("tag7".to_owned(), None),
        Decl::Server(v.texts[55].clone(), Some("server 9".to_owned())),
        Decl::Server("http://10".to_owned(), Some(v.texts[17].clone())),
        Decl::Server("http://12".to_owned(), None),
        Decl::Path(lit(&["{bigObj}", "p14", "{exUn}", "{id15}"]), RPathValue { ops: vec![(2, ROperation { tags: vec!["gamma".to_owned(), "alpha".to_owned(), "beta".to_owned()], security: vec![], params: vec![], responses: vec![response(100, "response 16", Some(null_schema())), response(1, "", None), response(500, "Internal Server Error", None), response(599, "", Some(use_of("NewUn8", 0)))], callbacks: vec![("cb17/{$request.body#/url}".to_owned(), vec![])], ..Default::default() }), (5, ROperation { operation_id: Some(v.texts[57].clone()), deprecated: true, tags: vec!["delta".to_owned()], security: vec![], params: vec![("q18".to_owned(), RParam { description: None, at: 0, required: false, deprecated: v.bools[12], schema: Some(int_schema("uint32")) }), ("bigObj".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("CycA", 1)) }), ("exUn".to_owned(), RParam { description: Some(v.texts[3].clone()), at: 1, required: false, deprecated: v.bools[2], schema: Some(use_of("UsesInl", 1)) })], responses: vec![response(100, "Continue", Some(use_of("Inl", 0)))], callbacks: vec![], ..Default::default() }), (1, ROperation { operation_id: Some(v.texts[13].clone()), body: Some((String::new(), true, use_of("ExtEnum", 0))), tags: vec!["beta".to_owned()], security: vec![sec(&["lit1", "lit2"]), sec(&["scheme19"]), sec(&["lit2", "scheme19", "scheme20"])], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("exUn".to_owned(), param(2, true, of("ExUn"))), ("id15".to_owned(), param(2, true, use_of("NewVec", 0))), ("bigObj".to_owned(), param(2, true, of("BigObj")))], ..Default::default() }),
        Decl::Server(v.texts[51].clone(), Some(v.texts[47].clone())),
        Decl::Scheme("scheme19".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme20".to_owned(), v.schemes[1].clone()),
    ]
}
const U20: &[&str] = &["ExUn", "NewVec", "BigObj", "NewUn8", "CycA", "UsesInl", "Inl", "ExtEnum"];
const E20: &[&str] = &["text 7", "text 1", "text 55", "text 17", "text 57", "bool 12", "text 3", "bool 2", "text 13", "text 51", "text 47"];

#[allow(unused_variables, clippy::all)]
fn t21() -> Opg {
    let scheme16 = scheme(0);
    let scheme17 = scheme(1);
    let scheme18 = scheme(2);
    let local4 = e(31);
    describe_api! {
        servers: { "http://3", local4 },
        tags: { tag1({ let x = e(41); x }) },
        info: { title: e(45).as_str(), version: if true { e(5) } else { String::new() } },
        security_schemes: { (apiKey "literal 5"): { description: Conv(47), name: e(57) }, (apiKey { let x = e(18); x }): { name: &e(35), description: { let x = e(7); x } } },
        tags: { tag2 },
        paths: { ("p7"): { parameters: { (query q8: i64): { schema: Vec<Option<Untagged>>, required: b(1), description: e(59).as_str(), deprecated: false }, (header "literal 9"): { required: true, deprecated: !!b(2) } } }, ("p11" / InlUn / "v1"): { summary: "path 12", parameters: { (query q13: crate::zoo_derive::ChainExT) }, PUT: { operationId: "literal 15", 429: Option<Box<NewInl>>, summary: "literal 14", 100: Vec<Option<UsesInl>>, 202: None, security: { scheme16 && scheme17 && scheme18, scheme17, scheme16 && scheme18 }, parameters: { (header e(48)) }, 301: None } }, ("p20"): { OPTIONS: { body: { required: false, description: "body 23", schema: InlTup }, callbacks: { cb26: {  } }, 503("response 24"): std::collections::HashMap<String, SelfRef>, 304: Untagged, description: e(11).as_str(), 204("response 25"): NewInl, parameters: {  }, callbacks: {  }, parameters: { (header "q13") }, 418: { Some(direct(2)) } }, description: "path 21", parameters: { (query q22: UsesNew) } } },
    }
}

#[allow(unused_variables)]
fn x21(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[45].clone(), None, v.texts[5].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[41].clone())),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Server("http://3".to_owned(), None),
        Decl::Server(v.texts[31].clone(), None),
        Decl::Scheme("literal 5".to_owned(), RScheme::ApiKey(1, v.texts[57].clone(), Some(v.texts[47].clone()))),
        Decl::Scheme(v.texts[18].clone(), RScheme::ApiKey(1, v.texts[35].clone(), Some(v.texts[7].clone()))),
        Decl::Path(lit(&["p7"]), RPathValue { ops: vec![], params: vec![("q8".to_owned(), RParam { description: Some(v.texts[59].clone()), at: 0, required: v.bools[1], deprecated: false, schema: Some(use_of("Untagged", 6)) }), ("literal 9".to_owned(), RParam { description: None, at: 1, required: true, deprecated: v.bools[2], schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Path(lit(&["p11", "{inlUn}", "v1"]), RPathValue { summary: Some("path 12".to_owned()), ops: vec![(1, ROperation { summary: Some("literal 14".to_owned()), operation_id: Some("literal 15".to_owned()), tags: vec![], security: vec![sec(&["scheme16", "scheme17", "scheme18"]), sec(&["scheme17"]), sec(&["scheme16", "scheme18"])], params: vec![(v.texts[48].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(429, "Too Many Requests", Some(use_of("NewInl", 5))), response(100, "Continue", Some(use_of("UsesInl", 6))), response(202, "Accepted", None), response(301, "Moved Permanently", None)], callbacks: vec![], ..Default::default() })], params: vec![("inlUn".to_owned(), param(2, true, of("InlUn"))), ("q13".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ChainExT", 0)) })], ..Default::default() }),
        Decl::Path(lit(&["p20"]), RPathValue { description: Some("path 21".to_owned()), ops: vec![(4, ROperation { description: Some(v.texts[11].clone()), body: Some(("body 23".to_owned(), false, use_of("InlTup", 0))), tags: vec![], security: vec![], params: vec![("q13".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(503, "response 24", Some(use_of("SelfRef", 4))), response(304, "Not Modified", Some(use_of("Untagged", 0))), response(204, "response 25", Some(use_of("NewInl", 0))), response(418, "I'm a teapot", Some(RSchema::Raw(direct_schema(2))))], callbacks: vec![("cb26".to_owned(), vec![])], ..Default::default() })], params: vec![("q22".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("UsesNew", 0)) })], ..Default::default() }),
        Decl::Scheme("scheme16".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme17".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme18".to_owned(), v.schemes[2].clone()),
    ]
}
const U21: &[&str] = &["Untagged", "InlUn", "ChainExT", "UsesInl", "NewInl", "UsesNew", "InlTup", "SelfRef", "Untagged", "NewInl"];
const E21: &[&str] = &["text 45", "text 5", "text 41", "text 31", "text 57", "text 47", "text 18", "text 35", "text 7", "bool 1", "text 59", "bool 2", "text 48", "text 11", "direct 2"];

#[allow(unused_variables, clippy::all)]
fn t22() -> Opg {
    describe_api! {
        servers: {  },
        security_schemes: {  },
        paths: { ("p2" / {id3: u32} / "y.z" / "v1"): { parameters: { (query q4: ChainTu): {  } } }, ({id7: Vec<InlExt>} / "p6" / "v1"): { parameters: { (header { let x = e(52); x }): { deprecated: false, schema: u32, required: true, description: { let x = e(11); x } } } }, ("p9"): { description: "path 11", TRACE: { tags: { gamma }, tags: {  }, 403("response 12"): Std, 429("response 13"): None }, summary: "path 10", } },
        info: { title: e(51).as_str(), version: if true { e(13) } else { String::new() }, description: &e(5), },
    }
}

#[allow(unused_variables)]
fn x22(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[51].clone(), Some(v.texts[5].clone()), v.texts[13].clone()),
        Decl::Path(lit(&["p2", "{id3}", "y.z", "v1"]), RPathValue { ops: vec![], params: vec![("id3".to_owned(), param(2, true, int_schema("uint32"))), ("q4".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ChainTu", 0)) })], ..Default::default() }),
        Decl::Path(lit(&["{id7}", "p6", "v1"]), RPathValue { ops: vec![], params: vec![("id7".to_owned(), param(2, true, use_of("InlExt", 3))), (v.texts[52].clone(), RParam { description: Some(v.texts[11].clone()), at: 1, required: true, deprecated: false, schema: Some(int_schema("uint32")) })], ..Default::default() }),
        Decl::Path(lit(&["p9"]), RPathValue { summary: Some("path 10".to_owned()), description: Some("path 11".to_owned()), ops: vec![(7, ROperation { tags: vec!["gamma".to_owned()], security: vec![], params: vec![], responses: vec![response(403, "response 12", Some(use_of("Std", 0))), response(429, "response 13", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
    ]
}
const U22: &[&str] = &["ChainTu", "InlExt", "Std"];
const E22: &[&str] = &["text 51", "text 13", "text 5", "text 52", "text 11"];

#[allow(unused_variables, clippy::all)]
fn t23() -> Opg {
    let scheme29 = scheme(0);
    let scheme30 = scheme(1);
    let scheme31 = scheme(2);
    let scheme50 = scheme(3);
    describe_api! {
        paths: { ("p3"): { summary: "path 4", POST: { summary: &{ let x = e(17); x }, parameters: {  }, parameters: { (query q5: ExtEnum): { description: "literal 6", deprecated: true }, (header if true { e(0) } else { String::new() }) }, 201: crate::zoo_derive::NewVec, tags: { delta }, 2000: None, 301: { None }, operationId: &e(43), tags: { delta } } }, ("p8" / {id9: Option<Box<BigExt>>} / "x" / "y.z" / "x"): { HEAD: { 100: { None }, 418: None, operationId: &Conv(49), 500: Vec<Option<InlRepr>>, deprecated: false, 404("response 65"): Option<Box<CycC>>, tags: {  }, parameters: { (query q64: NewUn8) }, }, OPTIONS: { deprecated: false, parameters: { (header "literal 15") }, parameters: { (header "literal 12"): { deprecated: { b(0) }, schema: std::collections::HashMap<String, NewInt>, description: "literal 13", required: !!b(1) }, (query q5: ChainUnS), (query q14: DiamondSide2) }, description: "literal 11", callbacks: { cb40: { (ExtEnum / "c42"): { PATCH: { 400: { None }, 2000: None, description: "literal 43", 409: DiamondSide2, tags: { delta }, 100("response 44"): Vec<Option<NewInl>>, parameters: { (header "q5") }, summary: &e(13), body: ExTup, } }, ({id47: MutA} / "c46" / UnMore): { summary: "path 48", description: "path 49", DELETE: { security: { "lit1" && "lit2" && scheme31, "lit2" && "lit0", scheme50 && scheme29 && "lit2" }, security: { scheme50 && scheme30 && "lit0", "lit0" && "lit2" && scheme50, "lit2" && "lit0" }, 429: { None }, parameters: {  }, parameters: {  }, description: &e(31), }, } }, cb51: { ("c53" / {id54: Vec<BigExt>} / {id54: Vec<BigExt>} / "v1"): { TRACE: { 409: None, 2000("response 62"): None, parameters: { (header if true { e(12) } else { String::new() }): { schema: Gen<Leaf>, required: { b(5) }, description: "literal 58", deprecated: !!b(2) }, (query q59: crate::zoo_derive::NewNew): { schema: NewVec }, (header { let x = e(24); x }) }, operationId: e(21).as_str(), 200("response 61"): crate::zoo_derive::InlAdj, security: {  }, body: Vec<Option<Gen<Leaf>>>, security: { "lit0", "lit2", "lit0" }, parameters: { (query q60: Option<Box<ExInt>>): {  }, (header "q5"): { required: false, schema: crate::zoo_derive::CycB, description: Conv(35), deprecated: false } }, summary: "literal 57", }, parameters: { (header "q26"), (header e(6).as_str()): {  }, (query q55: Option<Box<NewUn8>>) }, PUT: { security: { "lit1", scheme31 && scheme50 && scheme29 }, summary: &format!("{}", e(41)), security: { scheme30 && scheme31 }, operationId: e(53).as_str(), parameters: { (query q63: Option<Plain>): { deprecated: true, description: &e(25), required: !!b(7) }, (header e(22)): {  } }, body: { required: true, schema: std::collections::HashMap<String, crate::zoo_derive::ChainSt> }, }, POST: { summary: "literal 56", security: { scheme29 && scheme30 }, deprecated: false, parameters: {  } }, } } }, callbacks: { "cb16": { ("c18"): { PUT: { parameters: { (header e(28)): { required: { b(6) } }, (query q21: u8) }, operationId: "", 429("response 22"): None, deprecated: false, summary: "literal 20", tags: { gamma }, 418: CycC, 404: { Some(direct(1)) }, }, summary: "path 19" }, ("c24" / crate::zoo_derive::NewInl / "a b" / "a b" / InlEnum): { summary: "path 25", GET: { security: {  }, parameters: { (query q26: std::collections::HashMap<String, NewVecUn>): {  }, (header Conv(2)), (query q27: NewInl) }, 418("response 28"): MutB, tags: { alpha, alpha }, tags: { beta, delta }, security: {  }, 429: { None }, 299: None, }, TRACE: { tags: { alpha }, parameters: { (header "literal 32"): { deprecated: !!b(12), required: b(9), schema: Option<Box<Transp>>, description: e(7).as_str() } }, 1("response 33"): { Some(direct(0)) }, security: { scheme31 }, security: { scheme29, scheme30 && scheme29, "lit0" } } } }, "cb34": { ("c36" / "v1" / {id37: RecEnum} / {id38: std::collections::HashMap<String, Exs>}): { description: "path 39", } } }, }, GET: { parameters: {  }, description: &Conv(15) }, description: "path 10" } },
        info: { version: "literal 1", title: e(19).as_str(), description: e(39), },
        servers: { "http://66"("server 67") }
    }
}

#[allow(unused_variables)]
fn x23(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[19].clone(), Some(v.texts[39].clone()), "literal 1".to_owned()),
        Decl::Path(lit(&["p3"]), RPathValue { summary: Some("path 4".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[17].clone()), operation_id: Some(v.texts[43].clone()), tags: vec!["delta".to_owned(), "delta".to_owned()], security: vec![], params: vec![("q5".to_owned(), RParam { description: Some("literal 6".to_owned()), at: 0, required: false, deprecated: true, schema: Some(use_of("ExtEnum", 0)) }), (v.texts[0].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(201, "Created", Some(use_of("NewVec", 0))), response(2000, "", None), response(301, "Moved Permanently", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p8", "{id9}", "x", "y.z", "x"]), RPathValue { description: Some("path 10".to_owned()), ops: vec![(4, ROperation { description: Some("literal 11".to_owned()), deprecated: false, tags: vec![], security: vec![], params: vec![("literal 15".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("literal 12".to_owned(), RParam { description: Some("literal 13".to_owned()), at: 1, required: v.bools[1], deprecated: v.bools[0], schema: Some(use_of("NewInt", 4)) }), ("q5".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ChainUnS", 0)) }), ("q14".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("DiamondSide2", 0)) })], responses: vec![], callbacks: vec![("cb40".to_owned(), vec![(lit(&["{extEnum}", "c42"]), RPathValue { ops: vec![(6, ROperation { summary: Some(v.texts[13].clone()), description: Some("literal 43".to_owned()), body: Some((String::new(), true, use_of("ExTup", 0))), tags: vec!["delta".to_owned()], security: vec![], params: vec![("q5".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(400, "Bad Request", None), response(2000, "", None), response(409, "Conflict", Some(use_of("DiamondSide2", 0))), response(100, "response 44", Some(use_of("NewInl", 6)))], callbacks: vec![], ..Default::default() })], params: vec![("extEnum".to_owned(), param(2, true, of("ExtEnum")))], ..Default::default() }), (lit(&["{id47}", "c46", "{unMore}"]), RPathValue { summary: Some("path 48".to_owned()), description: Some("path 49".to_owned()), ops: vec![(3, ROperation { description: Some(v.texts[31].clone()), tags: vec![], security: vec![sec(&["lit1", "lit2", "scheme31"]), sec(&["lit0", "lit2"]), sec(&["lit2", "scheme29", "scheme50"]), sec(&["lit0", "scheme30", "scheme50"]), sec(&["lit0", "lit2", "scheme50"]), sec(&["lit0", "lit2"])], params: vec![], responses: vec![response(429, "Too Many Requests", None)], callbacks: vec![], ..Default::default() })], params: vec![("unMore".to_owned(), param(2, true, of("UnMore"))), ("id47".to_owned(), param(2, true, use_of("MutA", 0)))], ..Default::default() })]), ("cb51".to_owned(), vec![(lit(&["c53", "{id54}", "{id54}", "v1"]), RPathValue { ops: vec![(2, ROperation { summary: Some("literal 56".to_owned()), deprecated: false, tags: vec![], security: vec![sec(&["scheme29", "scheme30"])], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() }), (7, ROperation { summary: Some("literal 57".to_owned()), operation_id: Some(v.texts[21].clone()), body: Some((String::new(), true, use_of("Gen", 6))), tags: vec![], security: vec![sec(&["lit0"]), sec(&["lit2"]), sec(&["lit0"])], params: vec![(v.texts[12].clone(), RParam { description: Some("literal 58".to_owned()), at: 1, required: v.bools[5], deprecated: v.bools[2], schema: Some(use_of("Gen", 0)) }), ("q59".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewVec", 0)) }), (v.texts[24].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q60".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExInt", 5)) }), ("q5".to_owned(), RParam { description: Some(v.texts[35].clone()), at: 1, required: false, deprecated: false, schema: Some(use_of("CycB", 0)) })], responses: vec![response(409, "Conflict", None), response(2000, "response 62", None), response(200, "response 61", Some(use_of("InlAdj", 0)))], callbacks: vec![], ..Default::default() }), (1, ROperation { summary: Some(v.texts[41].clone()), operation_id: Some(v.texts[53].clone()), body: Some((String::new(), true, use_of("ChainSt", 4))), tags: vec![], security: vec![sec(&["lit1"]), sec(&["scheme29", "scheme31", "scheme50"]), sec(&["scheme30", "scheme31"])], params: vec![("q63".to_owned(), RParam { description: Some(v.texts[25].clone()), at: 0, required: v.bools[7], deprecated: true, schema: Some(use_of("Plain", 1)) }), (v.texts[22].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("id54".to_owned(), param(2, true, use_of("BigExt", 3))), ("q26".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[6].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q55".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewUn8", 5)) })], ..Default::default() })]), ("cb16".to_owned(), vec![(lit(&["c18"]), RPathValue { summary: Some("path 19".to_owned()), ops: vec![(1, ROperation { summary: Some("literal 20".to_owned()), operation_id: Some("".to_owned()), deprecated: false, tags: vec!["gamma".to_owned()], security: vec![], params: vec![(v.texts[28].clone(), RParam { description: None, at: 1, required: v.bools[6], deprecated: false, schema: Some(string_schema()) }), ("q21".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("uint8")) })], responses: vec![response(429, "response 22", None), response(418, "I'm a teapot", Some(use_of("CycC", 0))), response(404, "Not Found", Some(RSchema::Raw(direct_schema(1))))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }), (lit(&["c24", "{newInl}", "a b", "a b", "{inlEnum}"]), RPathValue { summary: Some("path 25".to_owned()), ops: vec![(0, ROperation { tags: vec!["alpha".to_owned(), "alpha".to_owned(), "beta".to_owned(), "delta".to_owned()], security: vec![], params: vec![("q26".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewVecUn", 4)) }), (v.texts[2].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q27".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewInl", 0)) })], responses: vec![response(418, "response 28", Some(use_of("MutB", 0))), response(429, "Too Many Requests", None), response(299, "", None)], callbacks: vec![], ..Default::default() }), (7, ROperation { tags: vec!["alpha".to_owned()], security: vec![sec(&["scheme31"]), sec(&["scheme29"]), sec(&["scheme29", "scheme30"]), sec(&["lit0"])], params: vec![("literal 32".to_owned(), RParam { description: Some(v.texts[7].clone()), at: 1, required: v.bools[9], deprecated: v.bools[12], schema: Some(use_of("Transp", 5)) })], responses: vec![response(1, "response 33", Some(RSchema::Raw(direct_schema(0))))], callbacks: vec![], ..Default::default() })], params: vec![("newInl".to_owned(), param(2, true, of("NewInl"))), ("inlEnum".to_owned(), param(2, true, of("InlEnum")))], ..Default::default() })]), ("cb34".to_owned(), vec![(lit(&["c36", "v1", "{id37}", "{id38}"]), RPathValue { description: Some("path 39".to_owned()), ops: vec![], params: vec![("id37".to_owned(), param(2, true, use_of("RecEnum", 0))), ("id38".to_owned(), param(2, true, use_of("Exs", 4)))], ..Default::default() })])], ..Default::default() }), (5, ROperation { operation_id: Some(v.texts[49].clone()), deprecated: false, tags: vec![], security: vec![], params: vec![("q64".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewUn8", 0)) })], responses: vec![response(100, "Continue", None), response(418, "I'm a teapot", None), response(500, "Internal Server Error", Some(use_of("InlRepr", 6))), response(404, "response 65", Some(use_of("CycC", 5)))], callbacks: vec![], ..Default::default() }), (0, ROperation { description: Some(v.texts[15].clone()), tags: vec![], security: vec![], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("id9".to_owned(), param(2, true, use_of("BigExt", 5)))], ..Default::default() }),
        Decl::Server("http://66".to_owned(), Some("server 67".to_owned())),
        Decl::Scheme("scheme29".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme30".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme31".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme50".to_owned(), v.schemes[3].clone()),
    ]
}
const U23: &[&str] = &["ExtEnum", "NewVec", "BigExt", "NewInt", "ChainUnS", "DiamondSide2", "CycC", "NewInl", "InlEnum", "NewVecUn", "NewInl", "MutB", "Transp", "RecEnum", "Exs", "ExtEnum", "ExTup", "DiamondSide2", "NewInl", "UnMore", "MutA", "BigExt", "BigExt", "NewUn8", "Gen", "Gen", "NewNew", "NewVec", "ExInt", "CycB", "InlAdj", "ChainSt", "Plain", "NewUn8", "CycC", "InlRepr"];
const E23: &[&str] = &["text 19", "text 39", "text 17", "text 43", "text 0", "bool 0", "bool 1", "text 28", "bool 6", "direct 1", "text 2", "bool 12", "bool 9", "text 7", "direct 0", "text 13", "text 31", "text 6", "text 21", "text 12", "bool 5", "bool 2", "text 24", "text 35", "text 41", "text 53", "text 25", "bool 7", "text 22", "text 49", "text 15"];

#[allow(unused_variables, clippy::all)]
fn t24() -> Opg {
    let scheme11 = scheme(0);
    let scheme12 = scheme(1);
    let scheme13 = scheme(2);
    let scheme14 = scheme(3);
    describe_api! {
        info: { title: { let x = e(7); x }, description: Conv(43), version: "literal 1", },
        security_schemes: { (apiKey &e(44)): { name: e(29).as_str(), description: "literal 2", parameter_in: Cookie }, (http "http 3"): { scheme: Bearer, bearer_format: "literal 4", description: { let x = e(15); x } }, (http "http 5"): { scheme: Basic } },
        paths: { ("p7" / Tup / {id8: Vec<Option<crate::zoo_derive::ExTup>>}): { PATCH: { 999: std::collections::HashMap<String, Untagged>, callbacks: { cb17: { ("c19"): { parameters: { (header { let x = e(12); x }), (query q10: std::collections::HashMap<String, ExTup>): { deprecated: b(1), schema: i64 } }, DELETE: { 404: { Some(direct(2)) }, deprecated: { b(13) }, operationId: &Conv(53), 418: Tup, 2000: Box<InlNew>, }, OPTIONS: { tags: {  }, security: { scheme11 && scheme13 }, 304: None, 404: u8, parameters: { (header e(0).as_str()), (query id8: Vec<NewMap>), (query q21: InlInt) }, 418("response 22"): Fields, security: { scheme12 && "lit1" && "lit0", "lit0" }, body: crate::zoo_derive::Opt2, }, summary: "path 20", } } }, parameters: { (query q15: String), (header "literal 16") }, 204: None, security: {  }, security: { scheme11 && scheme12, scheme13 && scheme14 }, 202: crate::zoo_derive::ChainUnS, 299: None }, parameters: { (query q9: Option<crate::zoo_derive::NewStr>): {  }, (query q10: std::collections::HashMap<String, NewObj>) }, }, ("p24"): { POST: { parameters: { (query q26: std::collections::HashMap<String, InlExt>): { description: { let x = e(31); x }, required: false, deprecated: !!b(7), schema: std::collections::HashMap<String, UsesMore> }, (header e(28)): { description: e(3), required: true, deprecated: b(10) } }, 409: crate::zoo_derive::InlAdj, 401: None, 201: Vec<CycA>, security: {  }, 999: Gen<Leaf>, tags: { beta } }, TRACE: { parameters: { (query q10: Box<InlRepr>), (query q41: InlEnum) }, operationId: &Conv(55), 418: { None }, tags: {  }, security: { "lit0" && "lit1", scheme14 }, tags: {  }, security: {  }, parameters: { (header &e(50)): {  } }, 409: None }, HEAD: { 2000("response 27"): Option<BigExt>, description: &e(13), callbacks: { "cb28": { ("c30" / crate::zoo_derive::Wide / "a b" / {id31: UsesInl} / "a b"): { summary: "path 32", description: "path 33", TRACE: { security: { scheme11 && scheme13 }, operationId: "literal 35", parameters: { (header "q10"): { schema: Box<NewVec> }, (header e(6)): {  } }, 100: Vec<Option<Inl>>, 418("response 36"): BigUn, 401: Vec<CycA> }, PUT: { 1: (), parameters: { (query q34: i64): { required: !!b(12), schema: RecUse, description: Conv(19) }, (header "q15") }, 200: { Some(direct(0)) }, operationId: &e(57), 500: Box<ExAdj>, security: { scheme12 && "lit1" }, summary: &e(35), parameters: {  } }, }, ("c38" / "y.z" / {id39: u8} / "a b"): { OPTIONS: { security: { scheme12, "lit0", scheme13 && scheme12 }, 404: u32, security: { "lit0", "lit2" && scheme13, scheme12 && "lit0" && "lit1" }, tags: {  }, parameters: { (header &e(36)): { schema: Option<ExTup> } }, tags: {  }, 599: std::collections::HashMap<String, crate::zoo_derive::BigExt>, body: { required: false, schema: u8, description: "body 40" } } } } }, summary: &Conv(9), 301: { None }, security: { scheme13 }, tags: { beta, beta }, tags: {  } }, description: "path 25", } },
    }
}

#[allow(unused_variables)]
fn x24(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[7].clone(), Some(v.texts[43].clone()), "literal 1".to_owned()),
        Decl::Scheme(v.texts[44].clone(), RScheme::ApiKey(3, v.texts[29].clone(), Some("literal 2".to_owned()))),
        Decl::Scheme("http 3".to_owned(), RScheme::Bearer(Some("literal 4".to_owned()), Some(v.texts[15].clone()))),
        Decl::Scheme("http 5".to_owned(), RScheme::Basic(None)),
        Decl::Path(lit(&["p7", "{tup}", "{id8}"]), RPathValue { ops: vec![(6, ROperation { tags: vec![], security: vec![sec(&["scheme11", "scheme12"]), sec(&["scheme13", "scheme14"])], params: vec![("q15".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(string_schema()) }), ("literal 16".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(999, "", Some(use_of("Untagged", 4))), response(204, "No Content", None), response(202, "Accepted", Some(use_of("ChainUnS", 0))), response(299, "", None)], callbacks: vec![("cb17".to_owned(), vec![(lit(&["c19"]), RPathValue { summary: Some("path 20".to_owned()), ops: vec![(4, ROperation { body: Some((String::new(), true, use_of("Opt2", 0))), tags: vec![], security: vec![sec(&["scheme11", "scheme13"]), sec(&["lit0", "lit1", "scheme12"]), sec(&["lit0"])], params: vec![(v.texts[0].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("id8".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewMap", 3)) }), ("q21".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlInt", 0)) })], responses: vec![response(304, "Not Modified", None), response(404, "Not Found", Some(int_schema("uint8"))), response(418, "response 22", Some(use_of("Fields", 0)))], callbacks: vec![], ..Default::default() }), (3, ROperation { operation_id: Some(v.texts[53].clone()), deprecated: v.bools[13], tags: vec![], security: vec![], params: vec![], responses: vec![response(404, "Not Found", Some(RSchema::Raw(direct_schema(2)))), response(418, "I'm a teapot", Some(use_of("Tup", 0))), response(2000, "", Some(use_of("InlNew", 2)))], callbacks: vec![], ..Default::default() })], params: vec![(v.texts[12].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: v.bools[1], schema: Some(int_schema("int64")) })], ..Default::default() })])], ..Default::default() })], params: vec![("tup".to_owned(), param(2, true, of("Tup"))), ("id8".to_owned(), param(2, true, use_of("ExTup", 6))), ("q9".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewStr", 1)) }), ("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewObj", 4)) })], ..Default::default() }),
        Decl::Path(lit(&["p24"]), RPathValue { description: Some("path 25".to_owned()), ops: vec![(2, ROperation { tags: vec!["beta".to_owned()], security: vec![], params: vec![("q26".to_owned(), RParam { description: Some(v.texts[31].clone()), at: 0, required: false, deprecated: v.bools[7], schema: Some(use_of("UsesMore", 4)) }), (v.texts[28].clone(), RParam { description: Some(v.texts[3].clone()), at: 1, required: true, deprecated: v.bools[10], schema: Some(string_schema()) })], responses: vec![response(409, "Conflict", Some(use_of("InlAdj", 0))), response(401, "Unauthorized", None), response(201, "Created", Some(use_of("CycA", 3))), response(999, "", Some(use_of("Gen", 0)))], callbacks: vec![], ..Default::default() }), (5, ROperation { summary: Some(v.texts[9].clone()), description: Some(v.texts[13].clone()), tags: vec!["beta".to_owned(), "beta".to_owned()], security: vec![sec(&["scheme13"])], params: vec![], responses: vec![response(2000, "response 27", Some(use_of("BigExt", 1))), response(301, "Moved Permanently", None)], callbacks: vec![("cb28".to_owned(), vec![(lit(&["c30", "{wide}", "a b", "{id31}", "a b"]), RPathValue { summary: Some("path 32".to_owned()), description: Some("path 33".to_owned()), ops: vec![(1, ROperation { summary: Some(v.texts[35].clone()), operation_id: Some(v.texts[57].clone()), tags: vec![], security: vec![sec(&["lit1", "scheme12"])], params: vec![("q34".to_owned(), RParam { description: Some(v.texts[19].clone()), at: 0, required: v.bools[12], deprecated: false, schema: Some(use_of("RecUse", 0)) }), ("q15".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(1, "", Some(null_schema())), response(200, "OK", Some(RSchema::Raw(direct_schema(0)))), response(500, "Internal Server Error", Some(use_of("ExAdj", 2)))], callbacks: vec![], ..Default::default() }), (7, ROperation { operation_id: Some("literal 35".to_owned()), tags: vec![], security: vec![sec(&["scheme11", "scheme13"])], params: vec![("q10".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("NewVec", 2)) }), (v.texts[6].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(100, "Continue", Some(use_of("Inl", 6))), response(418, "response 36", Some(use_of("BigUn", 0))), response(401, "Unauthorized", Some(use_of("CycA", 3)))], callbacks: vec![], ..Default::default() })], params: vec![("wide".to_owned(), param(2, true, of("Wide"))), ("id31".to_owned(), param(2, true, use_of("UsesInl", 0)))], ..Default::default() }), (lit(&["c38", "y.z", "{id39}", "a b"]), RPathValue { ops: vec![(4, ROperation { body: Some(("body 40".to_owned(), false, int_schema("uint8"))), tags: vec![], security: vec![sec(&["scheme12"]), sec(&["lit0"]), sec(&["scheme12", "scheme13"]), sec(&["lit0"]), sec(&["lit2", "scheme13"]), sec(&["lit0", "lit1", "scheme12"])], params: vec![(v.texts[36].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("ExTup", 1)) })], responses: vec![response(404, "Not Found", Some(int_schema("uint32"))), response(599, "", Some(use_of("BigExt", 4)))], callbacks: vec![], ..Default::default() })], params: vec![("id39".to_owned(), param(2, true, int_schema("uint8")))], ..Default::default() })])], ..Default::default() }), (7, ROperation { operation_id: Some(v.texts[55].clone()), tags: vec![], security: vec![sec(&["lit0", "lit1"]), sec(&["scheme14"])], params: vec![("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlRepr", 2)) }), ("q41".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlEnum", 0)) }), (v.texts[50].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(418, "I'm a teapot", None), response(409, "Conflict", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme11".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme12".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme14".to_owned(), v.schemes[3].clone()),
    ]
}
const U24: &[&str] = &["Tup", "ExTup", "NewStr", "NewObj", "Untagged", "ChainUnS", "ExTup", "Opt2", "NewMap", "InlInt", "Fields", "InlNew", "Tup", "InlExt", "UsesMore", "Gen", "CycA", "InlAdj", "BigExt", "Wide", "UsesInl", "RecUse", "ExAdj", "NewVec", "CycA", "Inl", "BigUn", "ExTup", "BigExt", "InlRepr", "InlEnum"];
const E24: &[&str] = &["text 7", "text 43", "text 44", "text 29", "text 15", "text 12", "bool 1", "text 0", "text 53", "bool 13", "direct 2", "text 31", "bool 7", "text 28", "text 3", "bool 10", "text 9", "text 13", "text 35", "text 57", "bool 12", "text 19", "direct 0", "text 6", "text 36", "text 55", "text 50"];

#[allow(unused_variables, clippy::all)]
fn t25() -> Opg {
    let scheme10 = scheme(0);
    let scheme11 = scheme(1);
    let scheme12 = scheme(2);
    let scheme14 = scheme(3);
    describe_api! {
        info: { title: &e(59), version: { let x = e(11); x } },
        paths: { ("p2" / "y.z" / "y.z" / "a b"): { parameters: {  }, OPTIONS: { body: { description: "body 3", schema: Opt2, required: true }, parameters: { (header Conv(36)), (header Conv(32)): { description: Conv(47), schema: String } }, description: e(63).as_str(), } } },
        paths: { ("p5" / "v1" / {id6: Option<ChainAdN>} / {id7: InlUn}): { summary: "path 8", PUT: { deprecated: { b(0) }, 599: { Some(direct(2)) }, security: { "lit0", scheme12 && scheme10 }, tags: { alpha }, 500: Vec<Option<StrEnum>>, parameters: {  }, security: { scheme10, "lit2" && "lit0" && scheme12, "lit1" }, tags: { beta, delta }, parameters: { (header e(12)), (header e(44)): { description: &e(33), required: true, schema: Box<BigAdj>, deprecated: true } } }, POST: { security: { scheme14, scheme10 && scheme14 }, security: { "lit0", scheme14 && "lit2", "lit0" }, parameters: { (query id7: IntBody), (header &e(50)): { required: false, deprecated: { b(5) }, schema: Vec<Option<Fields>> } } }, parameters: {  }, TRACE: { security: { "lit2" && scheme10 && scheme11, scheme10, scheme10 && scheme12 }, description: &format!("{}", e(15)), summary: &e(43), parameters: { (query q13: Vec<Option<Wide>>): { required: !!b(10), description: e(35), schema: UsesMore, deprecated: b(1) } }, body: { required: true, schema: Vec<Option<CycA>>, description: "body 9" } }, }, ({id17: InlRepr} / NewInl / "p16"): {  }, ("p19"): { PUT: { security: { "lit2" && scheme14 && "lit1", "lit2" }, security: { "lit1" && scheme11 } } }, }
    }
}

#[allow(unused_variables)]
fn x25(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[59].clone(), None, v.texts[11].clone()),
        Decl::Path(lit(&["p2", "y.z", "y.z", "a b"]), RPathValue { ops: vec![(4, ROperation { description: Some(v.texts[63].clone()), body: Some(("body 3".to_owned(), true, use_of("Opt2", 0))), tags: vec![], security: vec![], params: vec![(v.texts[36].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[32].clone(), RParam { description: Some(v.texts[47].clone()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p5", "v1", "{id6}", "{id7}"]), RPathValue { summary: Some("path 8".to_owned()), ops: vec![(7, ROperation { summary: Some(v.texts[43].clone()), description: Some(v.texts[15].clone()), body: Some(("body 9".to_owned(), true, use_of("CycA", 6))), tags: vec![], security: vec![sec(&["lit2", "scheme10", "scheme11"]), sec(&["scheme10"]), sec(&["scheme10", "scheme12"])], params: vec![("q13".to_owned(), RParam { description: Some(v.texts[35].clone()), at: 0, required: v.bools[10], deprecated: v.bools[1], schema: Some(use_of("UsesMore", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() }), (2, ROperation { tags: vec![], security: vec![sec(&["scheme14"]), sec(&["scheme10", "scheme14"]), sec(&["lit0"]), sec(&["lit2", "scheme14"]), sec(&["lit0"])], params: vec![("id7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("IntBody", 0)) }), (v.texts[50].clone(), RParam { description: None, at: 1, required: false, deprecated: v.bools[5], schema: Some(use_of("Fields", 6)) })], responses: vec![], callbacks: vec![], ..Default::default() }), (1, ROperation { deprecated: v.bools[0], tags: vec!["alpha".to_owned(), "beta".to_owned(), "delta".to_owned()], security: vec![sec(&["lit0"]), sec(&["scheme10", "scheme12"]), sec(&["scheme10"]), sec(&["lit0", "lit2", "scheme12"]), sec(&["lit1"])], params: vec![(v.texts[12].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[44].clone(), RParam { description: Some(v.texts[33].clone()), at: 1, required: true, deprecated: true, schema: Some(use_of("BigAdj", 2)) })], responses: vec![response(599, "", Some(RSchema::Raw(direct_schema(2)))), response(500, "Internal Server Error", Some(use_of("StrEnum", 6)))], callbacks: vec![], ..Default::default() })], params: vec![("id6".to_owned(), param(2, true, use_of("ChainAdN", 1))), ("id7".to_owned(), param(2, true, use_of("InlUn", 0)))], ..Default::default() }),
        Decl::Path(lit(&["{id17}", "{newInl}", "p16"]), RPathValue { ops: vec![], params: vec![("id17".to_owned(), param(2, true, use_of("InlRepr", 0))), ("newInl".to_owned(), param(2, true, of("NewInl")))], ..Default::default() }),
        Decl::Path(lit(&["p19"]), RPathValue { ops: vec![(1, ROperation { tags: vec![], security: vec![sec(&["lit1", "lit2", "scheme14"]), sec(&["lit2"]), sec(&["lit1", "scheme11"])], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme10".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme11".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme12".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme14".to_owned(), v.schemes[3].clone()),
    ]
}
const U25: &[&str] = &["Opt2", "ChainAdN", "InlUn", "CycA", "Wide", "UsesMore", "IntBody", "Fields", "BigAdj", "StrEnum", "InlRepr", "NewInl"];
const E25: &[&str] = &["text 59", "text 11", "text 63", "text 36", "text 32", "text 47", "text 43", "text 15", "bool 10", "text 35", "bool 1", "text 50", "bool 5", "bool 0", "text 12", "text 44", "text 33", "direct 2"];

#[allow(unused_variables, clippy::all)]
fn t26() -> Opg {
    let scheme6 = scheme(0);
    let scheme10 = scheme(1);
    describe_api! {
        paths: { ("p4"): { HEAD: { summary: &format!("{}", e(63)), 204: u32, deprecated: false, parameters: { (header e(40)) }, 500: Box<ChainAdN>, description: &{ let x = e(45); x }, security: { scheme6 }, }, description: "path 5", TRACE: { 301: IntBody, deprecated: !!b(2), 201: { None }, body: { schema: std::collections::HashMap<String, InlTup>, required: false }, parameters: {  }, parameters: { (query q7: DiamondSide2): { schema: u8 }, (header "literal 8") } }, PATCH: { security: {  }, summary: e(5).as_str(), parameters: { (header { let x = e(48); x }): { description: { let x = e(57); x } } }, security: { "lit1", scheme10, scheme10 }, 500: None, 304: crate::zoo_derive::BigInt, parameters: { (query q7: DiamondSide2), (header { let x = e(22); x }) }, 401: Tup, deprecated: { b(9) }, operationId: &e(31), 202: { None }, body: { required: true, schema: Exs, description: "body 9" } }, }, ("p12"): { parameters: { (query q13: StrEnum): {  }, (query q7: MutA): {  } }, PUT: { body: { required: false, description: "body 15", schema: crate::zoo_derive::DiamondSide2 }, description: &format!("{}", e(37)), tags: {  }, parameters: {  }, summary: "literal 14", callbacks: { cb17: {  }, "cb18/{$request.body#/url}": { ("c20" / "a b" / "x"): {  } } }, security: { scheme10 }, parameters: { (query q7: Diamond): { description: "literal 16", schema: std::collections::HashMap<String, ReprEnum>, deprecated: !!b(10), required: true } }, callbacks: { "cb21 x": {  }, "cb22 x": {  } }, } }, ("p24" / "a b" / InlEnum / {id25: Box<CycB>}): { parameters: {  }, summary: "path 26", DELETE: { 1: Box<crate::zoo_derive::BigUn>, parameters: { (header if true { e(58) } else { String::new() }): { schema: u32, required: b(7) }, (query q27: MutA) }, tags: { gamma }, 2000: { None }, 201: None, body: Box<InlStr>, }, } },
        tags: { tag1(e(25).as_str()), tag2("") },
        info: { version: "", },
        paths: {  }
    }
}

#[allow(unused_variables)]
fn x26(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(String::new(), None, "".to_owned()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[25].clone())),
        Decl::Tag("tag2".to_owned(), Some("".to_owned())),
        Decl::Path(lit(&["p4"]), RPathValue { description: Some("path 5".to_owned()), ops: vec![(5, ROperation { summary: Some(v.texts[63].clone()), description: Some(v.texts[45].clone()), deprecated: false, tags: vec![], security: vec![sec(&["scheme6"])], params: vec![(v.texts[40].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(204, "No Content", Some(int_schema("uint32"))), response(500, "Internal Server Error", Some(use_of("ChainAdN", 2)))], callbacks: vec![], ..Default::default() }), (7, ROperation { deprecated: v.bools[2], body: Some((String::new(), false, use_of("InlTup", 4))), tags: vec![], security: vec![], params: vec![("q7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("uint8")) }), ("literal 8".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(301, "Moved Permanently", Some(use_of("IntBody", 0))), response(201, "Created", None)], callbacks: vec![], ..Default::default() }), (6, ROperation { summary: Some(v.texts[5].clone()), operation_id: Some(v.texts[31].clone()), deprecated: v.bools[9], body: Some(("body 9".to_owned(), true, use_of("Exs", 0))), tags: vec![], security: vec![sec(&["lit1"]), sec(&["scheme10"]), sec(&["scheme10"])], params: vec![(v.texts[48].clone(), RParam { description: Some(v.texts[57].clone()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("DiamondSide2", 0)) }), (v.texts[22].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(500, "Internal Server Error", None), response(304, "Not Modified", Some(use_of("BigInt", 0))), response(401, "Unauthorized", Some(use_of("Tup", 0))), response(202, "Accepted", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p12"]), RPathValue { ops: vec![(1, ROperation { summary: Some("literal 14".to_owned()), description: Some(v.texts[37].clone()), body: Some(("body 15".to_owned(), false, use_of("DiamondSide2", 0))), tags: vec![], security: vec![sec(&["scheme10"])], params: vec![("q7".to_owned(), RParam { description: Some("literal 16".to_owned()), at: 0, required: true, deprecated: v.bools[10], schema: Some(use_of("ReprEnum", 4)) })], responses: vec![], callbacks: vec![("cb17".to_owned(), vec![]), ("cb18/{$request.body#/url}".to_owned(), vec![(lit(&["c20", "a b", "x"]), RPathValue { ops: vec![], params: vec![], ..Default::default() })]), ("cb21 x".to_owned(), vec![]), ("cb22 x".to_owned(), vec![])], ..Default::default() })], params: vec![("q13".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("StrEnum", 0)) }), ("q7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("MutA", 0)) })], ..Default::default() }),
        Decl::Path(lit(&["p24", "a b", "{inlEnum}", "{id25}"]), RPathValue { summary: Some("path 26".to_owned()), ops: vec![(3, ROperation { body: Some((String::new(), true, use_of("InlStr", 2))), tags: vec!["gamma".to_owned()], security: vec![], params: vec![(v.texts[58].clone(), RParam { description: None, at: 1, required: v.bools[7], deprecated: false, schema: Some(int_schema("uint32")) }), ("q27".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("MutA", 0)) })], responses: vec![response(1, "", Some(use_of("BigUn", 2))), response(2000, "", None), response(201, "Created", None)], callbacks: vec![], ..Default::default() })], params: vec![("inlEnum".to_owned(), param(2, true, of("InlEnum"))), ("id25".to_owned(), param(2, true, use_of("CycB", 2)))], ..Default::default() }),
        Decl::Scheme("scheme6".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme10".to_owned(), v.schemes[1].clone()),
    ]
}
const U26: &[&str] = &["ChainAdN", "InlTup", "DiamondSide2", "IntBody", "Exs", "DiamondSide2", "Tup", "BigInt", "StrEnum", "MutA", "DiamondSide2", "Diamond", "ReprEnum", "InlEnum", "CycB", "InlStr", "MutA", "BigUn"];
const E26: &[&str] = &["text 25", "text 63", "text 45", "text 40", "bool 2", "text 5", "text 31", "bool 9", "text 48", "text 57", "text 22", "text 37", "bool 10", "text 58", "bool 7"];

#[allow(unused_variables, clippy::all)]
fn t27() -> Opg {
    let scheme11 = scheme(0);
    let scheme12 = scheme(1);
    let scheme13 = scheme(2);
    describe_api! {
        info: { title: &e(13), version: if true { e(5) } else { String::new() } },
        paths: { ("p4"): { POST: { parameters: {  }, callbacks: { "cb8": { ("c10"): { GET: { security: {  }, summary: &format!("{}", e(39)), operationId: &format!("{}", e(3)), parameters: { (header Conv(22)): { required: b(2) }, (header &e(58)) }, security: { scheme13 } }, HEAD: { deprecated: false, security: { scheme11 && scheme12, scheme12 && scheme11 }, security: {  }, 100: { Some(direct(2)) }, tags: { alpha, delta }, operationId: e(31).as_str(), summary: e(47).as_str() } } } }, 2000: { Some(direct(0)) }, 999("response 7"): Vec<BigExt>, 100: None, callbacks: { cb14: { ("a b" / CycB / "c16" / {id17: NewOpt}): { summary: "path 18", POST: { tags: { gamma }, security: {  }, 500: Vec<Inl>, 403: GenRef<'static, Plain, StrEnum>, security: {  }, tags: { gamma, delta }, parameters: { (query q19: ExExt), (query q20: Option<Box<Mixed<'static, i32, [Leaf]>>>), (query q21: std::collections::HashMap<String, NewOpt>): { description: e(1).as_str(), schema: u8, required: b(5) } }, 409("response 22"): UsesEnums, 304: { None }, operationId: &Conv(61), deprecated: { b(7) }, description: &e(55) }, } } }, parameters: { (query q6: ExUn): { required: !!b(14), deprecated: true, description: e(53).as_str(), schema: ExAdj } }, operationId: "literal 5", 418: crate::zoo_derive::NewVec, tags: { alpha } }, }, ("p24" / "x" / "x" / crate::zoo_derive::ExAdj / "y.z"): { OPTIONS: { parameters: { (query q25: u32) }, callbacks: {  }, 201: None, parameters: { (header Conv(6)): { schema: Opt2, deprecated: !!b(13) } }, callbacks: {  }, description: &Conv(41), body: { schema: IntEnum }, deprecated: !!b(15), tags: { gamma, alpha } }, }, },
        tags: { tag1, tag2 }
    }
}

#[allow(unused_variables)]
fn x27(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[13].clone(), None, v.texts[5].clone()),
        Decl::Tag("tag1".to_owned(), None),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Path(lit(&["p4"]), RPathValue { ops: vec![(2, ROperation { operation_id: Some("literal 5".to_owned()), tags: vec!["alpha".to_owned()], security: vec![], params: vec![("q6".to_owned(), RParam { description: Some(v.texts[53].clone()), at: 0, required: v.bools[14], deprecated: true, schema: Some(use_of("ExAdj", 0)) })], responses: vec![response(2000, "", Some(RSchema::Raw(direct_schema(0)))), response(999, "response 7", Some(use_of("BigExt", 3))), response(100, "Continue", None), response(418, "I'm a teapot", Some(use_of("NewVec", 0)))], callbacks: vec![("cb8".to_owned(), vec![(lit(&["c10"]), RPathValue { ops: vec![(5, ROperation { summary: Some(v.texts[47].clone()), operation_id: Some(v.texts[31].clone()), deprecated: false, tags: vec!["alpha".to_owned(), "delta".to_owned()], security: vec![sec(&["scheme11", "scheme12"]), sec(&["scheme11", "scheme12"])], params: vec![], responses: vec![response(100, "Continue", Some(RSchema::Raw(direct_schema(2))))], callbacks: vec![], ..Default::default() }), (0, ROperation { summary: Some(v.texts[39].clone()), operation_id: Some(v.texts[3].clone()), tags: vec![], security: vec![sec(&["scheme13"])], params: vec![(v.texts[22].clone(), RParam { description: None, at: 1, required: v.bools[2], deprecated: false, schema: Some(string_schema()) }), (v.texts[58].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })]), ("cb14".to_owned(), vec![(lit(&["a b", "{cycB}", "c16", "{id17}"]), RPathValue { summary: Some("path 18".to_owned()), ops: vec![(2, ROperation { operation_id: Some(v.texts[61].clone()), description: Some(v.texts[55].clone()), deprecated: v.bools[7], tags: vec!["gamma".to_owned(), "gamma".to_owned(), "delta".to_owned()], security: vec![], params: vec![("q19".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExExt", 0)) }), ("q20".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Mixed", 5)) }), ("q21".to_owned(), RParam { description: Some(v.texts[1].clone()), at: 0, required: v.bools[5], deprecated: false, schema: Some(int_schema("uint8")) })], responses: vec![response(500, "Internal Server Error", Some(use_of("Inl", 3))), response(403, "Forbidden", Some(use_of("GenRef", 0))), response(409, "response 22", Some(use_of("UsesEnums", 0))), response(304, "Not Modified", None)], callbacks: vec![], ..Default::default() })], params: vec![("id17".to_owned(), param(2, true, use_of("NewOpt", 0))), ("cycB".to_owned(), param(2, true, of("CycB")))], ..Default::default() })])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p24", "x", "x", "{exAdj}", "y.z"]), RPathValue { ops: vec![(4, ROperation { description: Some(v.texts[41].clone()), deprecated: v.bools[15], body: Some((String::new(), true, use_of("IntEnum", 0))), tags: vec!["gamma".to_owned(), "alpha".to_owned()], security: vec![], params: vec![("q25".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("uint32")) }), (v.texts[6].clone(), RParam { description: None, at: 1, required: true, deprecated: v.bools[13], schema: Some(use_of("Opt2", 0)) })], responses: vec![response(201, "Created", None)], callbacks: vec![], ..Default::default() })], params: vec![("exAdj".to_owned(), param(2, true, of("ExAdj")))], ..Default::default() }),
        Decl::Scheme("scheme11".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme12".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[2].clone()),
    ]
}
const U27: &[&str] = &["ExUn", "ExAdj", "BigExt", "NewVec", "NewOpt", "CycB", "ExExt", "Mixed", "NewOpt", "UsesEnums", "GenRef", "Inl", "ExAdj", "IntEnum", "Opt2"];
const E27: &[&str] = &["text 13", "text 5", "bool 14", "text 53", "direct 0", "text 47", "text 31", "direct 2", "text 39", "text 3", "text 22", "bool 2", "text 58", "text 61", "text 55", "bool 7", "text 1", "bool 5", "text 41", "bool 15", "text 6", "bool 13"];

#[allow(unused_variables, clippy::all)]
fn t28() -> Opg {
    let scheme13 = scheme(0);
    let scheme14 = scheme(1);
    let local18 = e(25);
    let local19 = e(57);
    let local20 = e(13);
    let local24 = e(11);
    describe_api! {
        info: { title: if true { e(1) } else { String::new() } },
        servers: { local18(local19), local20 },
        tags: {  },
        servers: { "http://21"("server 22"), "http://23", local24("server 25"), },
        paths: { ("p6" / {id7: Option<Box<InlNew>>}): { parameters: { (query q10: Option<Box<Leaf>>): { required: { b(6) }, description: e(35) }, (query q11: Mixed<'static, i32, [Leaf]>): { deprecated: { b(15) }, required: true } }, POST: { parameters: { (header e(50).as_str()), (query q15: CycA), (header { let x = e(22); x }): { schema: Option<Box<crate::zoo_derive::RecEnum>>, description: { let x = e(61); x }, required: { b(5) } } }, summary: &format!("{}", e(5)), 999("response 16"): Option<Box<UsesEnums>>, callbacks: {  }, 400: Option<Box<Opt2>>, 201: { Some(direct(0)) }, parameters: { (query id7: std::collections::HashMap<String, ReprEnum>) }, 202("response 17"): Option<Box<Tup>>, security: { scheme13, scheme14, scheme13 }, body: { required: true, description: "body 12", schema: Option<IntBody> }, deprecated: true, }, description: "path 9", summary: "path 8" } },
        paths: {  },
        tags: { tag1, tag2, tag3("literal 4") },
    }
}

#[allow(unused_variables)]
fn x28(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[1].clone(), None, String::new()),
        Decl::Tag("tag1".to_owned(), None),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Tag("tag3".to_owned(), Some("literal 4".to_owned())),
        Decl::Path(lit(&["p6", "{id7}"]), RPathValue { summary: Some("path 8".to_owned()), description: Some("path 9".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[5].clone()), deprecated: true, body: Some(("body 12".to_owned(), true, use_of("IntBody", 1))), tags: vec![], security: vec![sec(&["scheme13"]), sec(&["scheme14"]), sec(&["scheme13"])], params: vec![(v.texts[50].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q15".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("CycA", 0)) }), (v.texts[22].clone(), RParam { description: Some(v.texts[61].clone()), at: 1, required: v.bools[5], deprecated: false, schema: Some(use_of("RecEnum", 5)) }), ("id7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ReprEnum", 4)) })], responses: vec![response(999, "response 16", Some(use_of("UsesEnums", 5))), response(400, "Bad Request", Some(use_of("Opt2", 5))), response(201, "Created", Some(RSchema::Raw(direct_schema(0)))), response(202, "response 17", Some(use_of("Tup", 5)))], callbacks: vec![], ..Default::default() })], params: vec![("id7".to_owned(), param(2, true, use_of("InlNew", 5))), ("q10".to_owned(), RParam { description: Some(v.texts[35].clone()), at: 0, required: v.bools[6], deprecated: false, schema: Some(use_of("Leaf", 5)) }), ("q11".to_owned(), RParam { description: None, at: 0, required: true, deprecated: v.bools[15], schema: Some(use_of("Mixed", 0)) })], ..Default::default() }),
        Decl::Server(v.texts[25].clone(), Some(v.texts[57].clone())),
        Decl::Server(v.texts[13].clone(), None),
        Decl::Server("http://21".to_owned(), Some("server 22".to_owned())),
        Decl::Server("http://23".to_owned(), None),
        Decl::Server(v.texts[11].clone(), Some("server 25".to_owned())),
        Decl::Scheme("scheme13".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme14".to_owned(), v.schemes[1].clone()),
    ]
}
const U28: &[&str] = &["InlNew", "Leaf", "Mixed", "IntBody", "ReprEnum", "CycA", "RecEnum", "UsesEnums", "Opt2", "Tup"];
const E28: &[&str] = &["text 1", "bool 6", "text 35", "bool 15", "text 5", "text 50", "text 22", "text 61", "bool 5", "direct 0", "text 25", "text 57", "text 13", "text 11"];

#[allow(unused_variables, clippy::all)]
fn t29() -> Opg {
    describe_api! {
        info: { version: { let x = e(51); x }, title: "" },
        tags: { tag1(e(13).as_str()), tag2(e(61)), },
        paths: { ("a b" / "a b" / "p4"): { summary: "path 5", PUT: { parameters: { (query q9: Option<Box<UsesEnums>>): { schema: NewInt, deprecated: true, required: { b(2) } }, (query q10: Option<Box<crate::zoo_derive::ChainExT>>): { description: "", required: true } }, 999: { None }, tags: { beta }, parameters: { (query q6: NewInl): { required: false }, (query q7: InlStr): { required: b(5), schema: CycC, deprecated: { b(6) }, description: Conv(23) }, (header if true { e(48) } else { String::new() }): { schema: Mixed<'static, i32, [Leaf]>, deprecated: { b(10) }, description: "literal 8", required: true } }, 403: Option<Box<Transp>>, tags: { delta, gamma }, 599: Option<Box<ExUn>>, body: { schema: Vec<Wide> }, 404: Diamond, } }, },
    }
}

#[allow(unused_variables)]
fn x29(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("".to_owned(), None, v.texts[51].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[13].clone())),
        Decl::Tag("tag2".to_owned(), Some(v.texts[61].clone())),
        Decl::Path(lit(&["a b", "a b", "p4"]), RPathValue { summary: Some("path 5".to_owned()), ops: vec![(1, ROperation { body: Some((String::new(), true, use_of("Wide", 3))), tags: vec!["beta".to_owned(), "delta".to_owned(), "gamma".to_owned()], security: vec![], params: vec![("q9".to_owned(), RParam { description: None, at: 0, required: v.bools[2], deprecated: true, schema: Some(use_of("NewInt", 0)) }), ("q10".to_owned(), RParam { description: Some("".to_owned()), at: 0, required: true, deprecated: false, schema: Some(use_of("ChainExT", 5)) }), ("q6".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewInl", 0)) }), ("q7".to_owned(), RParam { description: Some(v.texts[23].clone()), at: 0, required: v.bools[5], deprecated: v.bools[6], schema: Some(use_of("CycC", 0)) }), (v.texts[48].clone(), RParam { description: Some("literal 8".to_owned()), at: 1, required: true, deprecated: v.bools[10], schema: Some(use_of("Mixed", 0)) })], responses: vec![response(999, "", None), response(403, "Forbidden", Some(use_of("Transp", 5))), response(599, "", Some(use_of("ExUn", 5))), response(404, "Not Found", Some(use_of("Diamond", 0)))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
    ]
}
const U29: &[&str] = &["Wide", "NewInl", "InlStr", "CycC", "Mixed", "UsesEnums", "NewInt", "ChainExT", "Diamond", "ExUn", "Transp"];
const E29: &[&str] = &["text 51", "text 13", "text 61", "bool 5", "bool 6", "text 23", "text 48", "bool 10", "bool 2"];

#[allow(unused_variables, clippy::all)]
fn t30() -> Opg {
    let local9 = e(53);
    let local11 = e(29);
    let local12 = e(17);
    let local13 = e(31);
    let local14 = e(1);
    describe_api! {
        info: { description: "literal 1", title: &e(61), version: e(35).as_str(), },
        paths: { ("p6"): { description: "path 7", parameters: { (query q8: ReprEnum): { required: false, deprecated: true, description: &e(15) } } }, },
        tags: { tag2(e(21)), tag3, tag4(e(33)) },
        servers: { local9("server 10"), local11(local12), local13(local14) },
    }
}

#[allow(unused_variables)]
fn x30(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[61].clone(), Some("literal 1".to_owned()), v.texts[35].clone()),
        Decl::Tag("tag2".to_owned(), Some(v.texts[21].clone())),
        Decl::Tag("tag3".to_owned(), None),
        Decl::Tag("tag4".to_owned(), Some(v.texts[33].clone())),
        Decl::Path(lit(&["p6"]), RPathValue { description: Some("path 7".to_owned()), ops: vec![], params: vec![("q8".to_owned(), RParam { description: Some(v.texts[15].clone()), at: 0, required: false, deprecated: true, schema: Some(use_of("ReprEnum", 0)) })], ..Default::default() }),
        Decl::Server(v.texts[53].clone(), Some("server 10".to_owned())),
        Decl::Server(v.texts[29].clone(), Some(v.texts[17].clone())),
        Decl::Server(v.texts[31].clone(), Some(v.texts[1].clone())),
    ]
}
const U30: &[&str] = &["ReprEnum"];
const E30: &[&str] = &["text 61", "text 35", "text 21", "text 33", "text 15", "text 53", "text 29", "text 17", "text 31", "text 1"];

#[allow(unused_variables, clippy::all)]
fn t31() -> Opg {
    let scheme10 = scheme(0);
    let scheme16 = scheme(1);
    let scheme23 = scheme(2);
    let scheme24 = scheme(3);
    describe_api! {
        security_schemes: { (apiKey e(48)): { name: e(41).as_str(), description: Conv(25) }, (apiKey { let x = e(26); x }): { name: if true { e(63) } else { String::new() }, parameter_in: Path } },
        tags: { tag1("literal 2"), tag3, },
        servers: { "http://4", },
        paths: { ("p6" / {id7: Diamond} / "y.z" / InlAdj / crate::zoo_derive::InlAdj): { summary: "path 8", HEAD: { operationId: &Conv(13), 429: u32, 301("response 18"): Vec<Option<InlInt>>, 400("response 19"): { Some(direct(0)) }, security: {  }, security: { scheme10 && "lit1", scheme16 }, parameters: { (header { let x = e(6); x }): {  }, (header "literal 17") }, body: { schema: String, description: "body 15" }, 100: crate::zoo_derive::NewNum, summary: e(29).as_str(), }, description: "path 9", PATCH: { tags: { beta }, 403("response 13"): None, 1("response 11"): { Some(direct(2)) }, security: { "lit0" && scheme10 }, tags: { alpha }, 404("response 12"): Tup }, TRACE: { 202: Box<crate::zoo_derive::NewTy>, summary: &e(55), tags: { delta, alpha }, tags: {  }, parameters: {  }, callbacks: { "cb14": {  } }, body: { schema: IntEnum } } }, ("p21"): { POST: { 404: None, summary: &e(9), security: { "lit1", "lit2" && "lit0", scheme24 }, operationId: &format!("{}", e(57)), security: { scheme16, "lit2", scheme23 && "lit0" }, 299("response 25"): None, 599: DiamondSide2, body: i64, description: &e(23) }, description: "path 22", HEAD: { parameters: { (query id7: crate::zoo_derive::NewUn8), (header { let x = e(52); x }): { required: !!b(6) } }, tags: { beta, gamma }, operationId: &{ let x = e(59); x }, description: &e(3), parameters: { (query q26: BigUn), (header Conv(22)): {  }, (query inlAdj: Transp): {  } }, callbacks: { cb27: {  }, cb28: {  } }, tags: { alpha }, summary: &{ let x = e(5); x }, security: { scheme23 && "lit0", "lit0" && scheme10, "lit2" && scheme10 } } }, },
        info: { description: Conv(49), version: Conv(51) }
    }
}

#[allow(unused_variables)]
fn x31(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(String::new(), Some(v.texts[49].clone()), v.texts[51].clone()),
        Decl::Tag("tag1".to_owned(), Some("literal 2".to_owned())),
        Decl::Tag("tag3".to_owned(), None),
        Decl::Server("http://4".to_owned(), None),
        Decl::Scheme(v.texts[48].clone(), RScheme::ApiKey(1, v.texts[41].clone(), Some(v.texts[25].clone()))),
        Decl::Scheme(v.texts[26].clone(), RScheme::ApiKey(2, v.texts[63].clone(), None)),
        Decl::Path(lit(&["p6", "{id7}", "y.z", "{inlAdj}", "{inlAdj}"]), RPathValue { summary: Some("path 8".to_owned()), description: Some("path 9".to_owned()), ops: vec![(6, ROperation { tags: vec!["beta".to_owned(), "alpha".to_owned()], security: vec![sec(&["lit0", "scheme10"])], params: vec![], responses: vec![response(403, "response 13", None), response(1, "response 11", Some(RSchema::Raw(direct_schema(2)))), response(404, "response 12", Some(use_of("Tup", 0)))], callbacks: vec![], ..Default::default() }), (7, ROperation { summary: Some(v.texts[55].clone()), body: Some((String::new(), true, use_of("IntEnum", 0))), tags: vec!["delta".to_owned(), "alpha".to_owned()], security: vec![], params: vec![], responses: vec![response(202, "Accepted", Some(use_of("NewTy", 2)))], callbacks: vec![("cb14".to_owned(), vec![])], ..Default::default() }), (5, ROperation { summary: Some(v.texts[29].clone()), operation_id: Some(v.texts[13].clone()), body: Some(("body 15".to_owned(), true, string_schema())), tags: vec![], security: vec![sec(&["lit1", "scheme10"]), sec(&["scheme16"])], params: vec![(v.texts[6].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("literal 17".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(429, "Too Many Requests", Some(int_schema("uint32"))), response(301, "response 18", Some(use_of("InlInt", 6))), response(400, "response 19", Some(RSchema::Raw(direct_schema(0)))), response(100, "Continue", Some(use_of("NewNum", 0)))], callbacks: vec![], ..Default::default() })], params: vec![("id7".to_owned(), param(2, true, use_of("Diamond", 0))), ("inlAdj".to_owned(), param(2, true, of("InlAdj")))], ..Default::default() }),
        Decl::Path(lit(&["p21"]), RPathValue { description: Some("path 22".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[9].clone()), operation_id: Some(v.texts[57].clone()), description: Some(v.texts[23].clone()), body: Some((String::new(), true, int_schema("int64"))), tags: vec![], security: vec![sec(&["lit1"]), sec(&["lit0", "lit2"]), sec(&["scheme24"]), sec(&["scheme16"]), sec(&["lit2"]), sec(&["lit0", "scheme23"])], params: vec![], responses: vec![response(404, "Not Found", None), response(299, "response 25", None), response(599, "", Some(use_of("DiamondSide2", 0)))], callbacks: vec![], ..Default::default() }), (5, ROperation { summary: Some(v.texts[5].clone()), operation_id: Some(v.texts[59].clone()), description: Some(v.texts[3].clone()), tags: vec!["beta".to_owned(), "gamma".to_owned(), "alpha".to_owned()], security: vec![sec(&["lit0", "scheme23"]), sec(&["lit0", "scheme10"]), sec(&["lit2", "scheme10"])], params: vec![("id7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewUn8", 0)) }), (v.texts[52].clone(), RParam { description: None, at: 1, required: v.bools[6], deprecated: false, schema: Some(string_schema()) }), ("q26".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("BigUn", 0)) }), (v.texts[22].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("inlAdj".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Transp", 0)) })], responses: vec![], callbacks: vec![("cb27".to_owned(), vec![]), ("cb28".to_owned(), vec![])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Scheme("scheme10".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme16".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme23".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme24".to_owned(), v.schemes[3].clone()),
    ]
}
const U31: &[&str] = &["Diamond", "InlAdj", "InlAdj", "Tup", "IntEnum", "NewTy", "NewNum", "InlInt", "DiamondSide2", "BigUn", "Transp", "NewUn8"];
const E31: &[&str] = &["text 51", "text 49", "text 48", "text 41", "text 25", "text 26", "text 63", "direct 2", "text 55", "text 29", "text 13", "text 6", "direct 0", "text 9", "text 57", "text 23", "text 5", "text 59", "text 3", "text 22", "text 52", "bool 6"];

#[allow(unused_variables, clippy::all)]
fn t32() -> Opg {
    describe_api! {
        tags: { tag4(&e(55)) },
        info: { version: if true { e(33) } else { String::new() }, title: Conv(19) },
        tags: { tag1(if true { e(59) } else { String::new() }), tag2(e(3)), tag3(Conv(25)) },
        paths: { ("p6"): { OPTIONS: { 1("response 10"): None, parameters: { (header e(12).as_str()), (header Conv(56)): { description: "literal 8", schema: i64, deprecated: b(14) }, (header Conv(20)) }, 999: { None }, deprecated: true, 202("response 9"): None, body: { description: "body 7", required: true, schema: NewNum }, 429: None, }, PUT: { 299: (), summary: &Conv(47), callbacks: { cb12: { ("c14"): { parameters: { (query q15: Wide): {  }, (query q16: DiamondSide2): { description: { let x = e(7); x }, schema: Fields }, (query q17: std::collections::HashMap<String, ChainAdN>): { schema: AdjEnum, required: !!b(6), deprecated: true } }, TRACE: { body: Option<Box<ExInt>>, description: &e(1), summary: &format!("{}", e(21)), deprecated: b(4), tags: { alpha }, 1("response 23"): (), tags: { gamma, gamma }, parameters: { (header Conv(22)): { required: b(7), deprecated: false, schema: Vec<Option<NewNew>>, description: "literal 20" }, (query q21: String), (query q22: Option<InlUn>): { description: { let x = e(57); x }, deprecated: false, schema: crate::zoo_derive::CycC, required: false } } }, PATCH: { deprecated: !!b(11) }, GET: { body: BigObj, 201: NewInl, parameters: { (header "literal 19") }, operationId: "literal 18", parameters: {  }, tags: { beta } } }, ("c25" / "a b" / {id26: u32}): { summary: "path 27", } } }, tags: {  }, 429: Gen<Leaf>, deprecated: true, callbacks: { cb28: { ("c30" / {id31: u8} / {id31: u8}): { description: "path 32", HEAD: { body: Box<ChainTu>, summary: &e(61), 2000: Option<IntEnum>, tags: {  }, tags: { beta, delta }, description: &Conv(13), }, PUT: { tags: { beta, gamma }, parameters: { (header "literal 36"): { schema: Option<Mixed<'static, i32, [Leaf]>>, required: b(2) }, (query q37: Option<Box<InlStr>>): {  } }, 418: NewUn8, 202("response 38"): None, parameters: { (header if true { e(14) } else { String::new() }): {  }, (query id31: crate::zoo_derive::CycA) }, tags: { delta, gamma }, 404: { None }, 500: { None }, operationId: "literal 35" }, DELETE: { operationId: "literal 33", parameters: { (query q34: InlStr): { description: { let x = e(15); x }, required: { b(3) } }, (header Conv(26)): {  } }, 200: { Some(direct(2)) }, summary: &{ let x = e(45); x }, parameters: {  }, body: std::collections::HashMap<String, Mixed<'static, i32, [Leaf]>>, 301: AdjEnum, } }, ("c40"): { POST: { 401("response 42"): ChainTu, body: i64, summary: &{ let x = e(49); x }, tags: {  }, operationId: &{ let x = e(11); x }, }, description: "path 41", PUT: { 400: None, parameters: { (header "q21") }, tags: { gamma, gamma }, parameters: { (query q43: Box<UsesMore>): { description: e(23) }, (query q44: ChainAdN): { schema: Option<ReprEnum>, deprecated: false, description: Conv(31), required: b(15) }, (header "id26"): { required: false, description: e(63) } }, summary: &Conv(39), tags: {  } }, } } }, security: {  }, 409: { Some(direct(0)) }, tags: {  }, security: {  }, }, GET: { parameters: {  }, 204: crate::zoo_derive::InlStr, summary: &{ let x = e(35); x }, operationId: e(17).as_str(), tags: {  }, 999("response 11"): (), } } },
        paths: { ("p46" / crate::zoo_derive::UnMore / "a b"): { TRACE: { tags: { delta, gamma }, tags: {  }, 404: None, body: { schema: Vec<Option<AdjEnum>> }, callbacks: { "cb48 x": { ("c50"): { GET: { description: &format!("{}", e(5)), operationId: "literal 52", body: { schema: Std }, summary: &{ let x = e(41); x }, deprecated: false, security: { "lit1" } }, summary: "path 51" } } }, parameters: { (header { let x = e(42); x }): { description: Conv(37), schema: ChainAdN, deprecated: !!b(13) } }, 201("response 47"): crate::zoo_derive::Transp } } },
    }
}

#[allow(unused_variables)]
fn x32(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[19].clone(), None, v.texts[33].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[59].clone())),
        Decl::Tag("tag2".to_owned(), Some(v.texts[3].clone())),
        Decl::Tag("tag3".to_owned(), Some(v.texts[25].clone())),
        Decl::Tag("tag4".to_owned(), Some(v.texts[55].clone())),
        Decl::Path(lit(&["p6"]), RPathValue { ops: vec![(4, ROperation { deprecated: true, body: Some(("body 7".to_owned(), true, use_of("NewNum", 0))), tags: vec![], security: vec![], params: vec![(v.texts[12].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[56].clone(), RParam { description: Some("literal 8".to_owned()), at: 1, required: true, deprecated: v.bools[14], schema: Some(int_schema("int64")) }), (v.texts[20].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(1, "response 10", None), response(999, "", None), response(202, "response 9", None), response(429, "Too Many Requests", None)], callbacks: vec![], ..Default::default() }), (0, ROperation { summary: Some(v.texts[35].clone()), operation_id: Some(v.texts[17].clone()), tags: vec![], security: vec![], params: vec![], responses: vec![response(204, "No Content", Some(use_of("InlStr", 0))), response(999, "response 11", Some(null_schema()))], callbacks: vec![], ..Default::default() }), (1, ROperation { summary: Some(v.texts[47].clone()), deprecated: true, tags: vec![], security: vec![], params: vec![], responses: vec![response(299, "", Some(null_schema())), response(429, "Too Many Requests", Some(use_of("Gen", 0))), response(409, "Conflict", Some(RSchema::Raw(direct_schema(0))))], callbacks: vec![("cb12".to_owned(), vec![(lit(&["c14"]), RPathValue { ops: vec![(0, ROperation { operation_id: Some("literal 18".to_owned()), body: Some((String::new(), true, use_of("BigObj", 0))), tags: vec!["beta".to_owned()], security: vec![], params: vec![("literal 19".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(201, "Created", Some(use_of("NewInl", 0)))], callbacks: vec![], ..Default::default() }), (7, ROperation { summary: Some(v.texts[21].clone()), description: Some(v.texts[1].clone()), deprecated: v.bools[4], body: Some((String::new(), true, use_of("ExInt", 5))), tags: vec!["alpha".to_owned(), "gamma".to_owned(), "gamma".to_owned()], security: vec![], params: vec![(v.texts[22].clone(), RParam { description: Some("literal 20".to_owned()), at: 1, required: v.bools[7], deprecated: false, schema: Some(use_of("NewNew", 6)) }), ("q21".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(string_schema()) }), ("q22".to_owned(), RParam { description: Some(v.texts[57].clone()), at: 0, required: false, deprecated: false, schema: Some(use_of("CycC", 0)) })], responses: vec![response(1, "response 23", Some(null_schema()))], callbacks: vec![], ..Default::default() }), (6, ROperation { deprecated: v.bools[11], tags: vec![], security: vec![], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("q15".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Wide", 0)) }), ("q16".to_owned(), RParam { description: Some(v.texts[7].clone()), at: 0, required: false, deprecated: false, schema: Some(use_of("Fields", 0)) }), ("q17".to_owned(), RParam { description: None, at: 0, required: v.bools[6], deprecated: true, schema: Some(use_of("AdjEnum", 0)) })], ..Default::default() }), (lit(&["c25", "a b", "{id26}"]), RPathValue { summary: Some("path 27".to_owned()), ops: vec![], params: vec![("id26".to_owned(), param(2, true, int_schema("uint32")))], ..Default::default() })]), ("cb28".to_owned(), vec![(lit(&["c30", "{id31}", "{id31}"]), RPathValue { description: Some("path 32".to_owned()), ops: vec![(3, ROperation { summary: Some(v.texts[45].clone()), operation_id: Some("literal 33".to_owned()), body: Some((String::new(), true, use_of("Mixed", 4))), tags: vec![], security: vec![], params: vec![("q34".to_owned(), RParam { description: Some(v.texts[15].clone()), at: 0, required: v.bools[3], deprecated: false, schema: Some(use_of("InlStr", 0)) }), (v.texts[26].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(200, "OK", Some(RSchema::Raw(direct_schema(2)))), response(301, "Moved Permanently", Some(use_of("AdjEnum", 0)))], callbacks: vec![], ..Default::default() }), (5, ROperation { summary: Some(v.texts[61].clone()), description: Some(v.texts[13].clone()), body: Some((String::new(), true, use_of("ChainTu", 2))), tags: vec!["beta".to_owned(), "delta".to_owned()], security: vec![], params: vec![], responses: vec![response(2000, "", Some(use_of("IntEnum", 1)))], callbacks: vec![], ..Default::default() }), (1, ROperation { operation_id: Some("literal 35".to_owned()), tags: vec!["beta".to_owned(), "gamma".to_owned(), "delta".to_owned(), "gamma".to_owned()], security: vec![], params: vec![("literal 36".to_owned(), RParam { description: None, at: 1, required: v.bools[2], deprecated: false, schema: Some(use_of("Mixed", 1)) }), ("q37".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlStr", 5)) }), (v.texts[14].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("id31".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("CycA", 0)) })], responses: vec![response(418, "I'm a teapot", Some(use_of("NewUn8", 0))), response(202, "response 38", None), response(404, "Not Found", None), response(500, "Internal Server Error", None)], callbacks: vec![], ..Default::default() })], params: vec![("id31".to_owned(), param(2, true, int_schema("uint8")))], ..Default::default() }), (lit(&["c40"]), RPathValue { description: Some("path 41".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[49].clone()), operation_id: Some(v.texts[11].clone()), body: Some((String::new(), true, int_schema("int64"))), tags: vec![], security: vec![], params: vec![], responses: vec![response(401, "response 42", Some(use_of("ChainTu", 0)))], callbacks: vec![], ..Default::default() }), (1, ROperation { summary: Some(v.texts[39].clone()), tags: vec!["gamma".to_owned(), "gamma".to_owned()], security: vec![], params: vec![("q21".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q43".to_owned(), RParam { description: Some(v.texts[23].clone()), at: 0, required: false, deprecated: false, schema: Some(use_of("UsesMore", 2)) }), ("q44".to_owned(), RParam { description: Some(v.texts[31].clone()), at: 0, required: v.bools[15], deprecated: false, schema: Some(use_of("ReprEnum", 1)) }), ("id26".to_owned(), RParam { description: Some(v.texts[63].clone()), at: 1, required: false, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(400, "Bad Request", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p46", "{unMore}", "a b"]), RPathValue { ops: vec![(7, ROperation { body: Some((String::new(), true, use_of("AdjEnum", 6))), tags: vec!["delta".to_owned(), "gamma".to_owned()], security: vec![], params: vec![(v.texts[42].clone(), RParam { description: Some(v.texts[37].clone()), at: 1, required: true, deprecated: v.bools[13], schema: Some(use_of("ChainAdN", 0)) })], responses: vec![response(404, "Not Found", None), response(201, "response 47", Some(use_of("Transp", 0)))], callbacks: vec![("cb48 x".to_owned(), vec![(lit(&["c50"]), RPathValue { summary: Some("path 51".to_owned()), ops: vec![(0, ROperation { summary: Some(v.texts[41].clone()), operation_id: Some("literal 52".to_owned()), description: Some(v.texts[5].clone()), deprecated: false, body: Some((String::new(), true, use_of("Std", 0))), tags: vec![], security: vec![sec(&["lit1"])], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() })], params: vec![("unMore".to_owned(), param(2, true, of("UnMore")))], ..Default::default() }),
    ]
}
const U32: &[&str] = &["NewNum", "InlStr", "Gen", "Wide", "DiamondSide2", "Fields", "ChainAdN", "AdjEnum", "BigObj", "NewInl", "ExInt", "NewNew", "InlUn", "CycC", "Mixed", "InlStr", "AdjEnum", "ChainTu", "IntEnum", "Mixed", "InlStr", "CycA", "NewUn8", "ChainTu", "UsesMore", "ChainAdN", "ReprEnum", "UnMore", "AdjEnum", "ChainAdN", "Transp", "Std"];
const E32: &[&str] = &["text 19", "text 33", "text 59", "text 3", "text 25", "text 55", "text 12", "text 56", "bool 14", "text 20", "text 35", "text 17", "text 47", "direct 0", "text 7", "bool 6", "text 21", "text 1", "bool 4", "text 22", "bool 7", "text 57", "bool 11", "text 45", "text 15", "bool 3", "text 26", "direct 2", "text 61", "text 13", "bool 2", "text 14", "text 49", "text 11", "text 39", "text 23", "text 31", "bool 15", "text 63", "text 42", "text 37", "bool 13", "text 41", "text 5"];

#[allow(unused_variables, clippy::all)]
fn t33() -> Opg {
    let scheme12 = scheme(0);
    let scheme13 = scheme(1);
    let scheme14 = scheme(2);
    let scheme15 = scheme(3);
    describe_api! {
        info: { title: e(49).as_str(), version: e(41) },
        paths: { ("p4" / crate::zoo_derive::InlExt / {id5: Fields}): { description: "path 6", TRACE: { 204: { None }, 200: InlUn, parameters: { (header "literal 7"): { required: b(15), description: &e(43), schema: Box<NewObj> }, (header "literal 8"): { schema: Option<Box<crate::zoo_derive::ChainTu>>, description: { let x = e(45); x }, required: true, deprecated: { b(4) } } }, body: Box<BigObj>, 304: { Some(direct(2)) }, callbacks: {  } }, }, ("p10" / "x" / BigObj): { OPTIONS: { description: e(51).as_str(), security: { scheme14, scheme15 }, deprecated: true, tags: { beta }, security: { scheme12, scheme13 }, callbacks: { "cb18/{$request.body#/url}": {  } }, summary: &format!("{}", e(25)), parameters: { (header "bigObj"): {  }, (query q16: Opt2): { schema: crate::zoo_derive::UsesInl, description: &e(35), deprecated: b(13), required: { b(10) } }, (query id5: BigAdj) }, callbacks: { cb19: { ("c21" / {id22: Vec<Option<InlAdj>>}): { PUT: { tags: { beta }, 202: Option<crate::zoo_derive::ChainTu>, 201("response 24"): u8, 409: None, tags: {  }, 100("response 25"): Gen<Leaf>, }, parameters: {  }, GET: { 2000: { None }, summary: &e(9), tags: { alpha }, body: { description: "body 26", schema: BigAdj, required: true }, parameters: { (header if true { e(16) } else { String::new() }): { required: false, description: { let x = e(29); x }, schema: Option<DiamondSide2>, deprecated: false } }, 429("response 27"): IntEnum, 304: Option<Box<ReprEnum>>, tags: { alpha, alpha }, description: "" }, PATCH: { description: "literal 23", tags: {  }, tags: { delta }, security: { scheme13 && scheme15, "lit0", scheme12 && scheme13 }, security: {  }, parameters: { (header &e(30)): { required: false, description: if true { e(53) } else { String::new() } } }, summary: &format!("{}", e(47)), body: { schema: Option<DiamondSide2> } } } } }, 100("response 17"): None, }, description: "path 11" }, },
        tags: { tag1({ let x = e(13); x }) },
        paths: { ("p29" / "v1"): { OPTIONS: { operationId: &Conv(37), parameters: {  }, tags: {  }, callbacks: {  }, callbacks: { "cb35/{$request.body#/url}": { ("c37" / "v1"): { description: "path 38", PATCH: { 599: None, operationId: &Conv(33), security: { scheme14 && scheme15 && scheme12, "lit2" && scheme12, scheme15 } }, } } }, description: &Conv(3), deprecated: false, }, POST: { callbacks: {  }, parameters: { (header e(36).as_str()), (query q32: Vec<Option<NewNew>>): { deprecated: false }, (query id22: Opt2): { description: "", schema: String } }, 409("response 33"): ExUn, operationId: e(27).as_str(), tags: {  }, description: e(7).as_str(), 100: (), security: {  }, }, parameters: { (header "q16"): { deprecated: true, required: b(3) }, (query q30: Option<Untagged>): { deprecated: !!b(5), required: b(1) }, (query q31: u32): {  } }, GET: { 201: { Some(direct(0)) }, 299: u32, summary: &Conv(19), security: {  }, security: { scheme13 && "lit2", "lit1" && scheme13, scheme14 && scheme12 }, description: &format!("{}", e(5)), operationId: "literal 34", callbacks: {  } } }, ("p40"): { parameters: {  }, POST: { 202: None, 599: None, security: { scheme12 }, 304("response 42"): Transp, parameters: { (header { let x = e(32); x }): { deprecated: !!b(9), description: Conv(1), schema: MutA, required: { b(14) } }, (query id5: Vec<Mixed<'static, i32, [Leaf]>>): {  }, (header Conv(22)): { required: !!b(7), schema: Option<Box<UnMore>>, deprecated: { b(2) } } }, 503("response 41"): (), parameters: { (query q31: crate::zoo_derive::Leaf): { required: b(8), deprecated: !!b(6), schema: ExtEnum } }, body: { schema: u8 }, operationId: &e(15), security: { scheme14 && "lit0", "lit0" }, } }, ("p44" / "x" / "x" / {id45: Leaf}): { HEAD: { 404: { Some(direct(1)) }, tags: { gamma }, operationId: "literal 46", security: { "lit2" }, 201: Option<Box<NewInt>>, description: e(55).as_str(), security: { scheme14, scheme14 }, tags: { beta, beta }, 400("response 47"): { None }, parameters: { (query id45: InlRepr), (header "q16") } }, TRACE: { tags: { alpha }, 503("response 48"): ChainUnS, 418("response 49"): BigUn, callbacks: {  }, 201: (), deprecated: !!b(12), tags: { beta, beta }, parameters: { (query id5: Box<ExExt>), (query q30: Option<Box<NewUn8>>): { description: { let x = e(63); x }, schema: Vec<Option<Mixed<'static, i32, [Leaf]>>> }, (header "q32") } }, }, },
        tags: { tag2, }
    }
}

#[allow(unused_variables)]
fn x33(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[49].clone(), None, v.texts[41].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[13].clone())),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Path(lit(&["p4", "{inlExt}", "{id5}"]), RPathValue { description: Some("path 6".to_owned()), ops: vec![(7, ROperation { body: Some((String::new(), true, use_of("BigObj", 2))), tags: vec![], security: vec![], params: vec![("literal 7".to_owned(), RParam { description: Some(v.texts[43].clone()), at: 1, required: v.bools[15], deprecated: false, schema: Some(use_of("NewObj", 2)) }), ("literal 8".to_owned(), RParam { description: Some(v.texts[45].clone()), at: 1, required: true, deprecated: v.bools[4], schema: Some(use_of("ChainTu", 5)) })], responses: vec![response(204, "No Content", None), response(200, "OK", Some(use_of("InlUn", 0))), response(304, "Not Modified", Some(RSchema::Raw(direct_schema(2))))], callbacks: vec![], ..Default::default() })], params: vec![("inlExt".to_owned(), param(2, true, of("InlExt"))), ("id5".to_owned(), param(2, true, use_of("Fields", 0)))], ..Default::default() }),
        Decl::Path(lit(&["p10", "x", "{bigObj}"]), RPathValue { description: Some("path 11".to_owned()), ops: vec![(4, ROperation { summary: Some(v.texts[25].clone()), description: Some(v.texts[51].clone()), deprecated: true, tags: vec!["beta".to_owned()], security: vec![sec(&["scheme14"]), sec(&["scheme15"]), sec(&["scheme12"]), sec(&["scheme13"])], params: vec![("bigObj".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q16".to_owned(), RParam { description: Some(v.texts[35].clone()), at: 0, required: v.bools[10], deprecated: v.bools[13], schema: Some(use_of("UsesInl", 0)) }), ("id5".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("BigAdj", 0)) })], responses: vec![response(100, "response 17", None)], callbacks: vec![("cb18/{$request.body#/url}".to_owned(), vec![]), ("cb19".to_owned(), vec![(lit(&["c21", "{id22}"]), RPathValue { ops: vec![(6, ROperation { summary: Some(v.texts[47].clone()), description: Some("literal 23".to_owned()), body: Some((String::new(), true, use_of("DiamondSide2", 1))), tags: vec!["delta".to_owned()], security: vec![sec(&["scheme13", "scheme15"]), sec(&["lit0"]), sec(&["scheme12", "scheme13"])], params: vec![(v.texts[30].clone(), RParam { description: Some(v.texts[53].clone()), at: 1, required: false, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() }), (1, ROperation { tags: vec!["beta".to_owned()], security: vec![], params: vec![], responses: vec![response(202, "Accepted", Some(use_of("ChainTu", 1))), response(201, "response 24", Some(int_schema("uint8"))), response(409, "Conflict", None), response(100, "response 25", Some(use_of("Gen", 0)))], callbacks: vec![], ..Default::default() }), (0, ROperation { summary: Some(v.texts[9].clone()), description: Some("".to_owned()), body: Some(("body 26".to_owned(), true, use_of("BigAdj", 0))), tags: vec!["alpha".to_owned(), "alpha".to_owned(), "alpha".to_owned()], security: vec![], params: vec![(v.texts[16].clone(), RParam { description: Some(v.texts[29].clone()), at: 1, required: false, deprecated: false, schema: Some(use_of("DiamondSide2", 1)) })], responses: vec![response(2000, "", None), response(429, "response 27", Some(use_of("IntEnum", 0))), response(304, "Not Modified", Some(use_of("ReprEnum", 5)))], callbacks: vec![], ..Default::default() })], params: vec![("id22".to_owned(), param(2, true, use_of("InlAdj", 6)))], ..Default::default() })])], ..Default::default() })], params: vec![("bigObj".to_owned(), param(2, true, of("BigObj")))], ..Default::default() }),
        Decl::Path(lit(&["p29", "v1"]), RPathValue { ops: vec![(2, ROperation { operation_id: Some(v.texts[27].clone()), description: Some(v.texts[7].clone()), tags: vec![], security: vec![], params: vec![(v.texts[36].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q32".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewNew", 6)) }), ("id22".to_owned(), RParam { description: Some("".to_owned()), at: 0, required: false, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(409, "response 33", Some(use_of("ExUn", 0))), response(100, "Continue", Some(null_schema()))], callbacks: vec![], ..Default::default() }), (0, ROperation { summary: Some(v.texts[19].clone()), operation_id: Some("literal 34".to_owned()), description: Some(v.texts[5].clone()), tags: vec![], security: vec![sec(&["lit2", "scheme13"]), sec(&["lit1", "scheme13"]), sec(&["scheme12", "scheme14"])], params: vec![], responses: vec![response(201, "Created", Some(RSchema::Raw(direct_schema(0)))), response(299, "", Some(int_schema("uint32")))], callbacks: vec![], ..Default::default() }), (4, ROperation { operation_id: Some(v.texts[37].clone()), description: Some(v.texts[3].clone()), deprecated: false, tags: vec![], security: vec![], params: vec![], responses: vec![], callbacks: vec![("cb35/{$request.body#/url}".to_owned(), vec![(lit(&["c37", "v1"]), RPathValue { description: Some("path 38".to_owned()), ops: vec![(6, ROperation { operation_id: Some(v.texts[33].clone()), tags: vec![], security: vec![sec(&["scheme12", "scheme14", "scheme15"]), sec(&["lit2", "scheme12"]), sec(&["scheme15"])], params: vec![], responses: vec![response(599, "", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() })], params: vec![("q16".to_owned(), RParam { description: None, at: 1, required: v.bools[3], deprecated: true, schema: Some(string_schema()) }), ("q30".to_owned(), RParam { description: None, at: 0, required: v.bools[1], deprecated: v.bools[5], schema: Some(use_of("Untagged", 1)) }), ("q31".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("uint32")) })], ..Default::default() }),
        Decl::Path(lit(&["p40"]), RPathValue { ops: vec![(2, ROperation { operation_id: Some(v.texts[15].clone()), body: Some((String::new(), true, int_schema("uint8"))), tags: vec![], security: vec![sec(&["scheme12"]), sec(&["lit0", "scheme14"]), sec(&["lit0"])], params: vec![(v.texts[32].clone(), RParam { description: Some(v.texts[1].clone()), at: 1, required: v.bools[14], deprecated: v.bools[9], schema: Some(use_of("MutA", 0)) }), ("id5".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Mixed", 3)) }), (v.texts[22].clone(), RParam { description: None, at: 1, required: v.bools[7], deprecated: v.bools[2], schema: Some(use_of("UnMore", 5)) }), ("q31".to_owned(), RParam { description: None, at: 0, required: v.bools[8], deprecated: v.bools[6], schema: Some(use_of("ExtEnum", 0)) })], responses: vec![response(202, "Accepted", None), response(599, "", None), response(304, "response 42", Some(use_of("Transp", 0))), response(503, "response 41", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p44", "x", "x", "{id45}"]), RPathValue { ops: vec![(5, ROperation { operation_id: Some("literal 46".to_owned()), description: Some(v.texts[55].clone()), tags: vec!["gamma".to_owned(), "beta".to_owned(), "beta".to_owned()], security: vec![sec(&["lit2"]), sec(&["scheme14"]), sec(&["scheme14"])], params: vec![("id45".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlRepr", 0)) }), ("q16".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(404, "Not Found", Some(RSchema::Raw(direct_schema(1)))), response(201, "Created", Some(use_of("NewInt", 5))), response(400, "response 47", None)], callbacks: vec![], ..Default::default() }), (7, ROperation { deprecated: v.bools[12], tags: vec!["alpha".to_owned(), "beta".to_owned(), "beta".to_owned()], security: vec![], params: vec![("id5".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExExt", 2)) }), ("q30".to_owned(), RParam { description: Some(v.texts[63].clone()), at: 0, required: false, deprecated: false, schema: Some(use_of("Mixed", 6)) }), ("q32".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(503, "response 48", Some(use_of("ChainUnS", 0))), response(418, "response 49", Some(use_of("BigUn", 0))), response(201, "Created", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![("id45".to_owned(), param(2, true, use_of("Leaf", 0)))], ..Default::default() }),
        Decl::Scheme("scheme12".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme14".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme15".to_owned(), v.schemes[3].clone()),
    ]
}
const U33: &[&str] = &["InlExt", "Fields", "BigObj", "NewObj", "ChainTu", "InlUn", "BigObj", "Opt2", "UsesInl", "BigAdj", "InlAdj", "DiamondSide2", "ChainTu", "Gen", "BigAdj", "DiamondSide2", "IntEnum", "ReprEnum", "Untagged", "NewNew", "Opt2", "ExUn", "MutA", "Mixed", "UnMore", "Leaf", "ExtEnum", "Transp", "Leaf", "InlRepr", "NewInt", "ExExt", "NewUn8", "Mixed", "ChainUnS", "BigUn"];
const E33: &[&str] = &["text 49", "text 41", "text 13", "bool 15", "text 43", "text 45", "bool 4", "direct 2", "text 25", "text 51", "text 35", "bool 13", "bool 10", "text 47", "text 30", "text 53", "text 9", "text 16", "text 29", "bool 3", "bool 5", "bool 1", "text 27", "text 7", "text 36", "text 19", "text 5", "direct 0", "text 37", "text 3", "text 33", "text 15", "text 32", "bool 9", "text 1", "bool 14", "text 22", "bool 7", "bool 2", "bool 8", "bool 6", "text 55", "direct 1", "bool 12", "text 63"];

#[allow(unused_variables, clippy::all)]
fn t34() -> Opg {
    let scheme16 = scheme(0);
    let scheme17 = scheme(1);
    let scheme19 = scheme(2);
    let scheme20 = scheme(3);
    describe_api! {
        tags: { tag1(""), },
        paths: { ("p3" / ExExt / ExExt): { PATCH: { tags: { gamma }, 204: None, summary: "literal 4", callbacks: { cb8: { ("c10" / UsesMore / UsesMore / "a b" / NewVecUn): { parameters: { (header "exExt") }, DELETE: { 200: { Some(direct(2)) }, parameters: { (header "q7"): { required: false, description: e(9).as_str(), schema: InlNew }, (header "newVecUn") }, 503: u32, 400: Box<crate::zoo_derive::Inl>, 599: { None } } }, ("c12" / "y.z" / {id13: Vec<Gen<Leaf>>} / "y.z"): { TRACE: { 401: Box<BigInt>, security: {  }, security: { scheme19, scheme20 && scheme16 }, operationId: "", 201: { Some(direct(0)) }, summary: e(29).as_str(), 2000("response 21"): Option<UsesMore>, body: Vec<Option<GenRef<'static, Plain, StrEnum>>> }, OPTIONS: { 202: { Some(direct(1)) }, security: { scheme16, scheme17, "lit0" && scheme17 }, parameters: { (header { let x = e(24); x }): { deprecated: { b(4) }, description: if true { e(39) } else { String::new() } }, (header &e(42)): { deprecated: true, required: b(2), description: "literal 18" } }, 429: Leaf, tags: { gamma }, body: String, }, PATCH: { 500: Option<BigExt>, summary: "literal 14", 403: (), 400("response 15"): std::collections::HashMap<String, Fields>, parameters: { (query id13: DiamondSide), (header e(44).as_str()) }, 200: Vec<Mixed<'static, i32, [Leaf]>> }, parameters: {  }, } } }, parameters: { (query q6: NewOpt), (query q7: BigObj): {  } }, body: { schema: String, description: "body 5" }, } }, ("p23"): { description: "path 25", HEAD: { tags: {  }, 404: Option<InlRepr>, security: {  }, parameters: { (query q26: Option<Box<InlRepr>>): { description: { let x = e(63); x }, deprecated: true, schema: Option<Box<Gen<Leaf>>>, required: b(10) } }, callbacks: { cb27: { ("c29" / "v1"): { parameters: {  }, description: "path 31", TRACE: { deprecated: true, operationId: e(23).as_str(), summary: &format!("{}", e(45)), }, summary: "path 30", }, ("c33"): { parameters: { (header { let x = e(58); x }): { schema: Diamond, required: true, deprecated: { b(9) }, description: e(3) }, (query q35: ExtEnum), (query q36: InlNew): {  } }, summary: "path 34" } } }, body: NewNew, 999: NewVec, 418: None }, summary: "path 24" }, },
        info: { version: e(35), title: if true { e(55) } else { String::new() } },
        servers: { "http://37", },
    }
}

#[allow(unused_variables)]
fn x34(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[55].clone(), None, v.texts[35].clone()),
        Decl::Tag("tag1".to_owned(), Some("".to_owned())),
        Decl::Path(lit(&["p3", "{exExt}", "{exExt}"]), RPathValue { ops: vec![(6, ROperation { summary: Some("literal 4".to_owned()), body: Some(("body 5".to_owned(), true, string_schema())), tags: vec!["gamma".to_owned()], security: vec![], params: vec![("q6".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewOpt", 0)) }), ("q7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("BigObj", 0)) })], responses: vec![response(204, "No Content", None)], callbacks: vec![("cb8".to_owned(), vec![(lit(&["c10", "{usesMore}", "{usesMore}", "a b", "{newVecUn}"]), RPathValue { ops: vec![(3, ROperation { tags: vec![], security: vec![], params: vec![("q7".to_owned(), RParam { description: Some(v.texts[9].clone()), at: 1, required: false, deprecated: false, schema: Some(use_of("InlNew", 0)) }), ("newVecUn".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(200, "OK", Some(RSchema::Raw(direct_schema(2)))), response(503, "Service Unavailable", Some(int_schema("uint32"))), response(400, "Bad Request", Some(use_of("Inl", 2))), response(599, "", None)], callbacks: vec![], ..Default::default() })], params: vec![("usesMore".to_owned(), param(2, true, of("UsesMore"))), ("newVecUn".to_owned(), param(2, true, of("NewVecUn"))), ("exExt".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }), (lit(&["c12", "y.z", "{id13}", "y.z"]), RPathValue { ops: vec![(6, ROperation { summary: Some("literal 14".to_owned()), tags: vec![], security: vec![], params: vec![("id13".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("DiamondSide", 0)) }), (v.texts[44].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(500, "Internal Server Error", Some(use_of("BigExt", 1))), response(403, "Forbidden", Some(null_schema())), response(400, "response 15", Some(use_of("Fields", 4))), response(200, "OK", Some(use_of("Mixed", 3)))], callbacks: vec![], ..Default::default() }), (4, ROperation { body: Some((String::new(), true, string_schema())), tags: vec!["gamma".to_owned()], security: vec![sec(&["scheme16"]), sec(&["scheme17"]), sec(&["lit0", "scheme17"])], params: vec![(v.texts[24].clone(), RParam { description: Some(v.texts[39].clone()), at: 1, required: true, deprecated: v.bools[4], schema: Some(string_schema()) }), (v.texts[42].clone(), RParam { description: Some("literal 18".to_owned()), at: 1, required: v.bools[2], deprecated: true, schema: Some(string_schema()) })], responses: vec![response(202, "Accepted", Some(RSchema::Raw(direct_schema(1)))), response(429, "Too Many Requests", Some(use_of("Leaf", 0)))], callbacks: vec![], ..Default::default() }), (7, ROperation { summary: Some(v.texts[29].clone()), operation_id: Some("".to_owned()), body: Some((String::new(), true, use_of("GenRef", 6))), tags: vec![], security: vec![sec(&["scheme19"]), sec(&["scheme16", "scheme20"])], params: vec![], responses: vec![response(401, "Unauthorized", Some(use_of("BigInt", 2))), response(201, "Created", Some(RSchema::Raw(direct_schema(0)))), response(2000, "response 21", Some(use_of("UsesMore", 1)))], callbacks: vec![], ..Default::default() })], params: vec![("id13".to_owned(), param(2, true, use_of("Gen", 3)))], ..Default::default() })])], ..Default::default() })], params: vec![("exExt".to_owned(), param(2, true, of("ExExt")))], ..Default::default() }),
        Decl::Path(lit(&["p23"]), RPathValue { summary: Some("path 24".to_owned()), description: Some("path 25".to_owned()), ops: vec![(5, ROperation { body: Some((String::new(), true, use_of("NewNew", 0))), tags: vec![], security: vec![], params: vec![("q26".to_owned(), RParam { description: Some(v.texts[63].clone()), at: 0, required: v.bools[10], deprecated: true, schema: Some(use_of("Gen", 5)) })], responses: vec![response(404, "Not Found", Some(use_of("InlRepr", 1))), response(999, "", Some(use_of("NewVec", 0))), response(418, "I'm a teapot", None)], callbacks: vec![("cb27".to_owned(), vec![(lit(&["c29", "v1"]), RPathValue { summary: Some("path 30".to_owned()), description: Some("path 31".to_owned()), ops: vec![(7, ROperation { summary: Some(v.texts[45].clone()), operation_id: Some(v.texts[23].clone()), deprecated: true, tags: vec![], security: vec![], params: vec![], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }), (lit(&["c33"]), RPathValue { summary: Some("path 34".to_owned()), ops: vec![], params: vec![(v.texts[58].clone(), RParam { description: Some(v.texts[3].clone()), at: 1, required: true, deprecated: v.bools[9], schema: Some(use_of("Diamond", 0)) }), ("q35".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExtEnum", 0)) }), ("q36".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlNew", 0)) })], ..Default::default() })])], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Server("http://37".to_owned(), None),
        Decl::Scheme("scheme16".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme17".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme19".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme20".to_owned(), v.schemes[3].clone()),
    ]
}
const U34: &[&str] = &["ExExt", "ExExt", "NewOpt", "BigObj", "UsesMore", "UsesMore", "NewVecUn", "InlNew", "Inl", "Gen", "DiamondSide", "BigExt", "Mixed", "Fields", "Leaf", "GenRef", "BigInt", "UsesMore", "NewNew", "InlRepr", "Gen", "InlRepr", "NewVec", "Diamond", "ExtEnum", "InlNew"];
const E34: &[&str] = &["text 55", "text 35", "text 9", "direct 2", "text 44", "text 24", "bool 4", "text 39", "text 42", "bool 2", "direct 1", "text 29", "direct 0", "text 63", "bool 10", "text 45", "text 23", "text 58", "bool 9", "text 3"];

#[allow(unused_variables, clippy::all)]
fn t35() -> Opg {
    let scheme11 = scheme(0);
    let scheme12 = scheme(1);
    let scheme13 = scheme(2);
    let scheme27 = scheme(3);
    let local16 = e(43);
    let local29 = e(35);
    let local31 = e(21);
    describe_api! {
        info: { title: &e(55), version: e(17), description: &e(45), },
        paths: { ("p4" / "y.z" / {id5: Std} / "x"): { parameters: { (query q6: u8): { description: e(27).as_str(), required: { b(6) } }, (query q7: Option<InlRepr>) }, }, ("p9"): { PUT: { tags: { delta }, security: { scheme11 && scheme12 && scheme13 }, 1("response 15"): None, 200: { Some(direct(1)) }, 301: None, body: { schema: Vec<SelfRef>, description: "body 10", required: true }, parameters: { (query q6: crate::zoo_derive::Wide): {  }, (header "literal 14"): { required: { b(13) }, description: &e(49), deprecated: false } } } }, },
        tags: { tag1(Conv(13)), tag2, },
        servers: { local16, "http://17"("server 18") },
        paths: { ("p20"): { parameters: {  } }, ("p22"): {  }, ("p24"): { parameters: { (query q25: Opt2): { description: e(9).as_str(), schema: Vec<crate::zoo_derive::ExExt>, deprecated: b(3) }, (header { let x = e(18); x }): { schema: Vec<NewVecUn>, required: b(2), description: e(11), deprecated: !!b(12) }, (header "literal 26"): {  } }, HEAD: { security: { scheme13 && "lit0" && "lit1" }, security: { scheme27 && scheme12 && "lit0" }, parameters: { (header &e(62)): {  }, (header "q25"): { schema: Option<crate::zoo_derive::ChainUnS> }, (query q28: Vec<Option<NewMap>>) }, summary: &{ let x = e(37); x }, operationId: &{ let x = e(31); x } } } },
        servers: { local29, "http://30"(local31), "http://32"("server 33"), }
    }
}

#[allow(unused_variables)]
fn x35(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[55].clone(), Some(v.texts[45].clone()), v.texts[17].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[13].clone())),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Path(lit(&["p4", "y.z", "{id5}", "x"]), RPathValue { ops: vec![], params: vec![("id5".to_owned(), param(2, true, use_of("Std", 0))), ("q6".to_owned(), RParam { description: Some(v.texts[27].clone()), at: 0, required: v.bools[6], deprecated: false, schema: Some(int_schema("uint8")) }), ("q7".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("InlRepr", 1)) })], ..Default::default() }),
        Decl::Path(lit(&["p9"]), RPathValue { ops: vec![(1, ROperation { body: Some(("body 10".to_owned(), true, use_of("SelfRef", 3))), tags: vec!["delta".to_owned()], security: vec![sec(&["scheme11", "scheme12", "scheme13"])], params: vec![("q6".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Wide", 0)) }), ("literal 14".to_owned(), RParam { description: Some(v.texts[49].clone()), at: 1, required: v.bools[13], deprecated: false, schema: Some(string_schema()) })], responses: vec![response(1, "response 15", None), response(200, "OK", Some(RSchema::Raw(direct_schema(1)))), response(301, "Moved Permanently", None)], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() }),
        Decl::Server(v.texts[43].clone(), None),
        Decl::Server("http://17".to_owned(), Some("server 18".to_owned())),
        Decl::Path(lit(&["p20"]), RPathValue { ops: vec![], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p22"]), RPathValue { ops: vec![], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p24"]), RPathValue { ops: vec![(5, ROperation { summary: Some(v.texts[37].clone()), operation_id: Some(v.texts[31].clone()), tags: vec![], security: vec![sec(&["lit0", "lit1", "scheme13"]), sec(&["lit0", "scheme12", "scheme27"])], params: vec![(v.texts[62].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q25".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("ChainUnS", 1)) }), ("q28".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewMap", 6)) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("q25".to_owned(), RParam { description: Some(v.texts[9].clone()), at: 0, required: false, deprecated: v.bools[3], schema: Some(use_of("ExExt", 3)) }), (v.texts[18].clone(), RParam { description: Some(v.texts[11].clone()), at: 1, required: v.bools[2], deprecated: v.bools[12], schema: Some(use_of("NewVecUn", 3)) }), ("literal 26".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Server(v.texts[35].clone(), None),
        Decl::Server("http://30".to_owned(), Some(v.texts[21].clone())),
        Decl::Server("http://32".to_owned(), Some("server 33".to_owned())),
        Decl::Scheme("scheme11".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme12".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme27".to_owned(), v.schemes[3].clone()),
    ]
}
const U35: &[&str] = &["Std", "InlRepr", "SelfRef", "Wide", "Opt2", "ExExt", "NewVecUn", "ChainUnS", "NewMap"];
const E35: &[&str] = &["text 55", "text 17", "text 45", "text 13", "text 27", "bool 6", "bool 13", "text 49", "direct 1", "text 43", "text 9", "bool 3", "text 18", "bool 2", "text 11", "bool 12", "text 37", "text 31", "text 62", "text 35", "text 21"];

#[allow(unused_variables, clippy::all)]
fn t36() -> Opg {
    let local3 = e(25);
    describe_api! {
        paths: {  },
        tags: { tag1(&e(27)), },
        info: { title: &e(19), description: e(55) },
        servers: { "http://2"(local3), "http://4" }
    }
}

#[allow(unused_variables)]
fn x36(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[19].clone(), Some(v.texts[55].clone()), String::new()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[27].clone())),
        Decl::Server("http://2".to_owned(), Some(v.texts[25].clone())),
        Decl::Server("http://4".to_owned(), None),
    ]
}
const U36: &[&str] = &[];
const E36: &[&str] = &["text 19", "text 55", "text 27", "text 25"];

#[allow(unused_variables, clippy::all)]
fn t37() -> Opg {
    let scheme5 = scheme(0);
    let scheme6 = scheme(1);
    let scheme7 = scheme(2);
    let scheme30 = scheme(3);
    describe_api! {
        paths: { ("p2" / crate::zoo_derive::NewObj / "a b"): { TRACE: { callbacks: { cb4: {  } }, parameters: { (header Conv(4)): { description: &e(37), deprecated: { b(14) }, required: !!b(11), schema: Option<Box<crate::zoo_derive::InlStr>> }, (header "literal 3"): {  } } }, HEAD: { 301: NewMap, 418: UsesInlEnum, 304: i64, 299: crate::zoo_derive::NewStr, parameters: { (query q13: Std): { description: "literal 14", required: { b(9) } } } }, DELETE: { 418("response 8"): None, callbacks: {  }, 400: { Some(direct(0)) }, summary: &format!("{}", e(11)), security: { "lit0" && scheme5 }, callbacks: { "cb9": { ("c11"): { POST: { security: {  }, deprecated: !!b(1), 299: Vec<Std> }, description: "path 12", } } }, deprecated: { b(12) }, tags: { beta }, security: { scheme6, "lit2", scheme7 && "lit0" } }, parameters: {  } }, ("p16" / {id17: Vec<RecEnum>} / {id18: Option<Box<crate::zoo_derive::CycB>>} / UsesEnums): { POST: { 100("response 21"): i64, summary: e(41).as_str(), tags: { delta }, parameters: { (header "id18") }, body: { schema: crate::zoo_derive::InlInt, required: false, description: "body 20" }, tags: { beta }, callbacks: { "cb22/{$request.body#/url}": { ("c24" / InlNew / {id25: Box<UsesEnums>} / "x"): {  } }, cb26: { (crate::zoo_derive::DiamondSide / "c28" / "a b" / "y.z"): { summary: "path 29", HEAD: { parameters: {  }, body: Vec<IntBody>, tags: {  }, 403("response 32"): std::collections::HashMap<String, BigAdj>, 999("response 33"): (), 299: MutB, 429: Box<crate::zoo_derive::Wide> }, OPTIONS: { parameters: {  }, 299: None, description: &Conv(27), security: { "lit2", scheme30 && scheme5, scheme30 && "lit2" }, parameters: { (query q31: std::collections::HashMap<String, DiamondSide2>): { description: e(21), required: true, schema: u8, deprecated: true } } } } } } }, description: "path 19" }, ("p35" / {id36: ExInt} / RecEnum / {id37: ChainSt}): {  }, },
        info: { description: { let x = e(51); x }, version: e(19).as_str() },
    }
}

#[allow(unused_variables)]
fn x37(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(String::new(), Some(v.texts[51].clone()), v.texts[19].clone()),
        Decl::Path(lit(&["p2", "{newObj}", "a b"]), RPathValue { ops: vec![(7, ROperation { tags: vec![], security: vec![], params: vec![(v.texts[4].clone(), RParam { description: Some(v.texts[37].clone()), at: 1, required: v.bools[11], deprecated: v.bools[14], schema: Some(use_of("InlStr", 5)) }), ("literal 3".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![("cb4".to_owned(), vec![])], ..Default::default() }), (3, ROperation { summary: Some(v.texts[11].clone()), deprecated: v.bools[12], tags: vec!["beta".to_owned()], security: vec![sec(&["lit0", "scheme5"]), sec(&["scheme6"]), sec(&["lit2"]), sec(&["lit0", "scheme7"])], params: vec![], responses: vec![response(418, "response 8", None), response(400, "Bad Request", Some(RSchema::Raw(direct_schema(0))))], callbacks: vec![("cb9".to_owned(), vec![(lit(&["c11"]), RPathValue { description: Some("path 12".to_owned()), ops: vec![(2, ROperation { deprecated: v.bools[1], tags: vec![], security: vec![], params: vec![], responses: vec![response(299, "", Some(use_of("Std", 3)))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() }), (5, ROperation { tags: vec![], security: vec![], params: vec![("q13".to_owned(), RParam { description: Some("literal 14".to_owned()), at: 0, required: v.bools[9], deprecated: false, schema: Some(use_of("Std", 0)) })], responses: vec![response(301, "Moved Permanently", Some(use_of("NewMap", 0))), response(418, "I'm a teapot", Some(use_of("UsesInlEnum", 0))), response(304, "Not Modified", Some(int_schema("int64"))), response(299, "", Some(use_of("NewStr", 0)))], callbacks: vec![], ..Default::default() })], params: vec![("newObj".to_owned(), param(2, true, of("NewObj")))], ..Default::default() }),
        Decl::Path(lit(&["p16", "{id17}", "{id18}", "{usesEnums}"]), RPathValue { description: Some("path 19".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[41].clone()), body: Some(("body 20".to_owned(), false, use_of("InlInt", 0))), tags: vec!["delta".to_owned(), "beta".to_owned()], security: vec![], params: vec![("id18".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(100, "response 21", Some(int_schema("int64")))], callbacks: vec![("cb22/{$request.body#/url}".to_owned(), vec![(lit(&["c24", "{inlNew}", "{id25}", "x"]), RPathValue { ops: vec![], params: vec![("inlNew".to_owned(), param(2, true, of("InlNew"))), ("id25".to_owned(), param(2, true, use_of("UsesEnums", 2)))], ..Default::default() })]), ("cb26".to_owned(), vec![(lit(&["{diamondSide}", "c28", "a b", "y.z"]), RPathValue { summary: Some("path 29".to_owned()), ops: vec![(4, ROperation { description: Some(v.texts[27].clone()), tags: vec![], security: vec![sec(&["lit2"]), sec(&["scheme30", "scheme5"]), sec(&["lit2", "scheme30"])], params: vec![("q31".to_owned(), RParam { description: Some(v.texts[21].clone()), at: 0, required: true, deprecated: true, schema: Some(int_schema("uint8")) })], responses: vec![response(299, "", None)], callbacks: vec![], ..Default::default() }), (5, ROperation { body: Some((String::new(), true, use_of("IntBody", 3))), tags: vec![], security: vec![], params: vec![], responses: vec![response(403, "response 32", Some(use_of("BigAdj", 4))), response(999, "response 33", Some(null_schema())), response(299, "", Some(use_of("MutB", 0))), response(429, "Too Many Requests", Some(use_of("Wide", 2)))], callbacks: vec![], ..Default::default() })], params: vec![("diamondSide".to_owned(), param(2, true, of("DiamondSide")))], ..Default::default() })])], ..Default::default() })], params: vec![("id17".to_owned(), param(2, true, use_of("RecEnum", 3))), ("id18".to_owned(), param(2, true, use_of("CycB", 5))), ("usesEnums".to_owned(), param(2, true, of("UsesEnums")))], ..Default::default() }),
        Decl::Path(lit(&["p35", "{id36}", "{recEnum}", "{id37}"]), RPathValue { ops: vec![], params: vec![("id36".to_owned(), param(2, true, use_of("ExInt", 0))), ("recEnum".to_owned(), param(2, true, of("RecEnum"))), ("id37".to_owned(), param(2, true, use_of("ChainSt", 0)))], ..Default::default() }),
        Decl::Scheme("scheme5".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme6".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme7".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme30".to_owned(), v.schemes[3].clone()),
    ]
}
const U37: &[&str] = &["NewObj", "InlStr", "Std", "Std", "UsesInlEnum", "NewMap", "NewStr", "RecEnum", "CycB", "UsesEnums", "InlInt", "InlNew", "UsesEnums", "DiamondSide", "DiamondSide2", "IntBody", "BigAdj", "MutB", "Wide", "ExInt", "RecEnum", "ChainSt"];
const E37: &[&str] = &["text 19", "text 51", "text 4", "text 37", "bool 14", "bool 11", "text 11", "bool 12", "direct 0", "bool 1", "bool 9", "text 41", "text 27", "text 21"];

#[allow(unused_variables, clippy::all)]
fn t38() -> Opg {
    describe_api! {
        paths: {  },
        info: { title: "literal 1", version: e(9).as_str(), },
        paths: {  },
    }
}

#[allow(unused_variables)]
fn x38(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), None, v.texts[9].clone()),
    ]
}
const U38: &[&str] = &[];
const E38: &[&str] = &["text 9"];

#[allow(unused_variables, clippy::all)]
fn t39() -> Opg {
    let scheme12 = scheme(0);
    let scheme13 = scheme(1);
    let scheme24 = scheme(2);
    let scheme25 = scheme(3);
    describe_api! {
        info: { title: if true { e(29) } else { String::new() }, version: &e(5), },
        paths: {  },
        paths: { ("p5" / {id6: Vec<NewVec>} / {id6: Vec<NewVec>} / "x"): {  }, ("a b" / crate::zoo_derive::NewNew / "p8"): { summary: "path 9", parameters: { (header e(2)), (header "literal 10"): { schema: u32 } }, OPTIONS: { parameters: { (header "newNew"), (query q14: i64): {  }, (query q15: Option<MutB>): { required: b(12), description: Conv(1) } }, callbacks: { "cb18 x": { ("c20" / {id21: Vec<Option<Inl>>} / "v1"): { summary: "path 22", description: "path 23", PATCH: { parameters: { (query q26: Std), (query id6: InlInt): { schema: Vec<NewMap> }, (header &e(16)) }, security: {  }, summary: e(21).as_str(), tags: {  }, security: { "lit0" && scheme12, scheme24 && scheme25 && scheme12, "lit1" }, operationId: &Conv(59), parameters: {  }, body: { schema: u8 } }, PUT: { summary: &e(61), deprecated: !!b(0), security: { "lit2", "lit2" && scheme13 && "lit1", scheme25 }, body: { schema: ChainExT }, parameters: {  }, 500: NewVec, 503: std::collections::HashMap<String, AdjEnum>, security: { scheme12 && scheme25, scheme13, "lit0" && scheme12 && scheme25 }, description: &{ let x = e(9); x } } } } }, security: {  }, 999: None, 503("response 17"): Inl, 403("response 16"): Option<ChainExT>, body: { schema: Box<StrEnum>, description: "body 11" }, security: { scheme12 && "lit2", scheme13 && "lit2", "lit1" }, deprecated: { b(7) } } }, ({id29: NewTy} / {id29: NewTy} / "p28" / "x" / "a b"): { PATCH: { callbacks: { cb60: {  } }, summary: "literal 59", tags: { beta, alpha }, deprecated: false, }, POST: { 429: None, 202: InlRepr, parameters: { (header e(12).as_str()): { deprecated: { b(6) }, required: false } }, deprecated: true, operationId: "literal 30", callbacks: { cb31: { ("c33"): { OPTIONS: { parameters: { (query q14: crate::zoo_derive::NewStr): { deprecated: true, schema: NewTy, required: { b(2) } } }, 100: (), 401: { None }, deprecated: b(8), description: &e(35), 301: Option<Box<AdjEnum>> }, TRACE: { 100: None, 403("response 38"): { Some(direct(2)) }, description: "literal 37", summary: "literal 36", 418: () }, DELETE: { 599("response 35"): MutA, description: &format!("{}", e(33)), parameters: { (query q26: Vec<Option<ChainTu>>) }, 401("response 34"): Vec<NewTy>, 200: GenRef<'static, Plain, StrEnum>, 304: None, tags: { beta, gamma }, operationId: &{ let x = e(53); x }, tags: { alpha, delta }, } } } }, parameters: { (header if true { e(48) } else { String::new() }) }, security: { scheme24 } }, PUT: { operationId: e(7).as_str(), callbacks: { cb40: { ("c42" / {id43: CycB}): { HEAD: { deprecated: false, 409("response 45"): { None }, operationId: e(41).as_str() }, parameters: { (query id29: Tup): { deprecated: true, schema: String }, (header "literal 44") }, }, ("c47" / crate::zoo_derive::InlAdj / "x"): { GET: { parameters: { (query q51: BigObj), (header "literal 52"): { deprecated: !!b(11) }, (header &e(46)) }, parameters: { (header e(36)): {  }, (header "inlAdj"), (header Conv(22)): { description: Conv(45), required: b(13), schema: SelfRef, deprecated: !!b(1) } }, description: "literal 50", 599("response 53"): { Some(direct(1)) }, 401: None, 1: Option<Box<InlExt>>, security: { "lit0", "lit0", scheme24 && scheme25 && "lit0" }, }, PATCH: { parameters: { (query q49: Option<BigAdj>), (header "inlAdj") }, parameters: { (header { let x = e(20); x }): { schema: Vec<DiamondSide2>, required: false, deprecated: true }, (query id6: String): {  } }, tags: {  }, tags: { beta }, body: String, }, description: "path 48", } }, cb54: { ("c56" / "a b" / "x" / "a b"): { POST: { operationId: &{ let x = e(19); x }, parameters: { (header Conv(28)), (query q58: UsesMore) }, security: { "lit1" && scheme12, scheme12 }, }, summary: "path 57", } } }, description: &Conv(25), 401: None, tags: {  }, summary: "literal 39" }, }, },
        tags: { tag1, tag2, tag3 }
    }
}

#[allow(unused_variables)]
fn x39(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[29].clone(), None, v.texts[5].clone()),
        Decl::Tag("tag1".to_owned(), None),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Tag("tag3".to_owned(), None),
        Decl::Path(lit(&["p5", "{id6}", "{id6}", "x"]), RPathValue { ops: vec![], params: vec![("id6".to_owned(), param(2, true, use_of("NewVec", 3)))], ..Default::default() }),
        Decl::Path(lit(&["a b", "{newNew}", "p8"]), RPathValue { summary: Some("path 9".to_owned()), ops: vec![(4, ROperation { deprecated: v.bools[7], body: Some(("body 11".to_owned(), true, use_of("StrEnum", 2))), tags: vec![], security: vec![sec(&["lit2", "scheme12"]), sec(&["lit2", "scheme13"]), sec(&["lit1"])], params: vec![("newNew".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q14".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(int_schema("int64")) }), ("q15".to_owned(), RParam { description: Some(v.texts[1].clone()), at: 0, required: v.bools[12], deprecated: false, schema: Some(use_of("MutB", 1)) })], responses: vec![response(999, "", None), response(503, "response 17", Some(use_of("Inl", 0))), response(403, "response 16", Some(use_of("ChainExT", 1)))], callbacks: vec![("cb18 x".to_owned(), vec![(lit(&["c20", "{id21}", "v1"]), RPathValue { summary: Some("path 22".to_owned()), description: Some("path 23".to_owned()), ops: vec![(6, ROperation { summary: Some(v.texts[21].clone()), operation_id: Some(v.texts[59].clone()), body: Some((String::new(), true, int_schema("uint8"))), tags: vec![], security: vec![sec(&["lit0", "scheme12"]), sec(&["scheme12", "scheme24", "scheme25"]), sec(&["lit1"])], params: vec![("q26".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Std", 0)) }), ("id6".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewMap", 3)) }), (v.texts[16].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() }), (1, ROperation { summary: Some(v.texts[61].clone()), description: Some(v.texts[9].clone()), deprecated: v.bools[0], body: Some((String::new(), true, use_of("ChainExT", 0))), tags: vec![], security: vec![sec(&["lit2"]), sec(&["lit1", "lit2", "scheme13"]), sec(&["scheme25"]), sec(&["scheme12", "scheme25"]), sec(&["scheme13"]), sec(&["lit0", "scheme12", "scheme25"])], params: vec![], responses: vec![response(500, "Internal Server Error", Some(use_of("NewVec", 0))), response(503, "Service Unavailable", Some(use_of("AdjEnum", 4)))], callbacks: vec![], ..Default::default() })], params: vec![("id21".to_owned(), param(2, true, use_of("Inl", 6)))], ..Default::default() })])], ..Default::default() })], params: vec![("newNew".to_owned(), param(2, true, of("NewNew"))), (v.texts[2].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("literal 10".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(int_schema("uint32")) })], ..Default::default() }),
        Decl::Path(lit(&["{id29}", "{id29}", "p28", "x", "a b"]), RPathValue { ops: vec![(2, ROperation { operation_id: Some("literal 30".to_owned()), deprecated: true, tags: vec![], security: vec![sec(&["scheme24"])], params: vec![(v.texts[12].clone(), RParam { description: None, at: 1, required: false, deprecated: v.bools[6], schema: Some(string_schema()) }), (v.texts[48].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(429, "Too Many Requests", None), response(202, "Accepted", Some(use_of("InlRepr", 0)))], callbacks: vec![("cb31".to_owned(), vec![(lit(&["c33"]), RPathValue { ops: vec![(3, ROperation { operation_id: Some(v.texts[53].clone()), description: Some(v.texts[33].clone()), tags: vec!["beta".to_owned(), "gamma".to_owned(), "alpha".to_owned(), "delta".to_owned()], security: vec![], params: vec![("q26".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ChainTu", 6)) })], responses: vec![response(599, "response 35", Some(use_of("MutA", 0))), response(401, "response 34", Some(use_of("NewTy", 3))), response(200, "OK", Some(use_of("GenRef", 0))), response(304, "Not Modified", None)], callbacks: vec![], ..Default::default() }), (7, ROperation { summary: Some("literal 36".to_owned()), description: Some("literal 37".to_owned()), tags: vec![], security: vec![], params: vec![], responses: vec![response(100, "Continue", None), response(403, "response 38", Some(RSchema::Raw(direct_schema(2)))), response(418, "I'm a teapot", Some(null_schema()))], callbacks: vec![], ..Default::default() }), (4, ROperation { description: Some(v.texts[35].clone()), deprecated: v.bools[8], tags: vec![], security: vec![], params: vec![("q14".to_owned(), RParam { description: None, at: 0, required: v.bools[2], deprecated: true, schema: Some(use_of("NewTy", 0)) })], responses: vec![response(100, "Continue", Some(null_schema())), response(401, "Unauthorized", None), response(301, "Moved Permanently", Some(use_of("AdjEnum", 5)))], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() }), (1, ROperation { summary: Some("literal 39".to_owned()), operation_id: Some(v.texts[7].clone()), description: Some(v.texts[25].clone()), tags: vec![], security: vec![], params: vec![], responses: vec![response(401, "Unauthorized", None)], callbacks: vec![("cb40".to_owned(), vec![(lit(&["c42", "{id43}"]), RPathValue { ops: vec![(5, ROperation { operation_id: Some(v.texts[41].clone()), deprecated: false, tags: vec![], security: vec![], params: vec![], responses: vec![response(409, "response 45", None)], callbacks: vec![], ..Default::default() })], params: vec![("id43".to_owned(), param(2, true, use_of("CycB", 0))), ("id29".to_owned(), RParam { description: None, at: 0, required: false, deprecated: true, schema: Some(string_schema()) }), ("literal 44".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }), (lit(&["c47", "{inlAdj}", "x"]), RPathValue { description: Some("path 48".to_owned()), ops: vec![(6, ROperation { body: Some((String::new(), true, string_schema())), tags: vec!["beta".to_owned()], security: vec![], params: vec![("q49".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("BigAdj", 1)) }), ("inlAdj".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[20].clone(), RParam { description: None, at: 1, required: false, deprecated: true, schema: Some(use_of("DiamondSide2", 3)) }), ("id6".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(string_schema()) })], responses: vec![], callbacks: vec![], ..Default::default() }), (0, ROperation { description: Some("literal 50".to_owned()), tags: vec![], security: vec![sec(&["lit0"]), sec(&["lit0"]), sec(&["lit0", "scheme24", "scheme25"])], params: vec![("q51".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("BigObj", 0)) }), ("literal 52".to_owned(), RParam { description: None, at: 1, required: true, deprecated: v.bools[11], schema: Some(string_schema()) }), (v.texts[46].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[36].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("inlAdj".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[22].clone(), RParam { description: Some(v.texts[45].clone()), at: 1, required: v.bools[13], deprecated: v.bools[1], schema: Some(use_of("SelfRef", 0)) })], responses: vec![response(599, "response 53", Some(RSchema::Raw(direct_schema(1)))), response(401, "Unauthorized", None), response(1, "", Some(use_of("InlExt", 5)))], callbacks: vec![], ..Default::default() })], params: vec![("inlAdj".to_owned(), param(2, true, of("InlAdj")))], ..Default::default() })]), ("cb54".to_owned(), vec![(lit(&["c56", "a b", "x", "a b"]), RPathValue { summary: Some("path 57".to_owned()), ops: vec![(2, ROperation { operation_id: Some(v.texts[19].clone()), tags: vec![], security: vec![sec(&["lit1", "scheme12"]), sec(&["scheme12"])], params: vec![(v.texts[28].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q58".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("UsesMore", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![], ..Default::default() })])], ..Default::default() }), (6, ROperation { summary: Some("literal 59".to_owned()), deprecated: false, tags: vec!["beta".to_owned(), "alpha".to_owned()], security: vec![], params: vec![], responses: vec![], callbacks: vec![("cb60".to_owned(), vec![])], ..Default::default() })], params: vec![("id29".to_owned(), param(2, true, use_of("NewTy", 0)))], ..Default::default() }),
        Decl::Scheme("scheme12".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme24".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme25".to_owned(), v.schemes[3].clone()),
    ]
}
const U39: &[&str] = &["NewVec", "NewVec", "NewNew", "StrEnum", "MutB", "ChainExT", "Inl", "Inl", "Std", "InlInt", "NewMap", "ChainExT", "AdjEnum", "NewVec", "NewTy", "NewTy", "InlRepr", "ChainTu", "NewTy", "GenRef", "MutA", "NewStr", "NewTy", "AdjEnum", "CycB", "Tup", "InlAdj", "BigAdj", "DiamondSide2", "BigObj", "SelfRef", "InlExt", "UsesMore"];
const E39: &[&str] = &["text 29", "text 5", "text 2", "bool 7", "bool 12", "text 1", "text 21", "text 59", "text 16", "text 61", "text 9", "bool 0", "text 48", "text 12", "bool 6", "text 53", "text 33", "direct 2", "text 35", "bool 8", "bool 2", "text 7", "text 25", "text 41", "text 20", "bool 11", "text 46", "text 36", "text 22", "text 45", "bool 13", "bool 1", "direct 1", "text 19", "text 28"];

#[allow(unused_variables, clippy::all)]
fn t40() -> Opg {
    describe_api! {
        info: { description: "", title: if true { e(19) } else { String::new() }, version: Conv(61) },
        servers: { "http://11", "http://12", "http://13"("server 14") },
        tags: { tag1(&e(59)), tag2(if true { e(13) } else { String::new() }), },
        paths: { ("p4" / NewStr / "x" / ChainAdN / "v1"): { PUT: { 429("response 7"): (), parameters: { (header "literal 5"): {  }, (header "literal 6") }, summary: &format!("{}", e(15)), deprecated: !!b(7) } }, ("p9" / InlUn / crate::zoo_derive::ExtEnum): { description: "path 10" }, },
    }
}

#[allow(unused_variables)]
fn x40(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[19].clone(), Some("".to_owned()), v.texts[61].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[59].clone())),
        Decl::Tag("tag2".to_owned(), Some(v.texts[13].clone())),
        Decl::Path(lit(&["p4", "{newStr}", "x", "{chainAdN}", "v1"]), RPathValue { ops: vec![(1, ROperation { summary: Some(v.texts[15].clone()), deprecated: v.bools[7], tags: vec![], security: vec![], params: vec![("literal 5".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("literal 6".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(429, "response 7", Some(null_schema()))], callbacks: vec![], ..Default::default() })], params: vec![("newStr".to_owned(), param(2, true, of("NewStr"))), ("chainAdN".to_owned(), param(2, true, of("ChainAdN")))], ..Default::default() }),
        Decl::Path(lit(&["p9", "{inlUn}", "{extEnum}"]), RPathValue { description: Some("path 10".to_owned()), ops: vec![], params: vec![("inlUn".to_owned(), param(2, true, of("InlUn"))), ("extEnum".to_owned(), param(2, true, of("ExtEnum")))], ..Default::default() }),
        Decl::Server("http://11".to_owned(), None),
        Decl::Server("http://12".to_owned(), None),
        Decl::Server("http://13".to_owned(), Some("server 14".to_owned())),
    ]
}
const U40: &[&str] = &["NewStr", "ChainAdN", "InlUn", "ExtEnum"];
const E40: &[&str] = &["text 19", "text 61", "text 59", "text 13", "text 15", "bool 7"];

#[allow(unused_variables, clippy::all)]
fn t41() -> Opg {
    describe_api! {
        paths: { ("p5" / "a b" / "a b"): { GET: { tags: { delta }, summary: &Conv(21), 429("response 10"): None, 418: std::collections::HashMap<String, UsesNew>, 401: Option<InlNew>, tags: { alpha }, description: e(23).as_str(), 304: std::collections::HashMap<String, Untagged> }, OPTIONS: { description: &e(41), tags: { alpha }, 404("response 9"): i64, summary: "literal 6", deprecated: false, tags: { alpha, alpha }, parameters: { (header &e(42)): { description: "literal 7" }, (header "literal 8"), (header Conv(62)) }, 2000: { Some(direct(1)) } }, parameters: { (header e(40).as_str()): { description: if true { e(43) } else { String::new() }, schema: BigExt, deprecated: false } } } },
        tags: {  },
        info: { title: "literal 1", description: "literal 3", version: "literal 2" },
        tags: {  },
        paths: {  },
    }
}

#[allow(unused_variables)]
fn x41(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info("literal 1".to_owned(), Some("literal 3".to_owned()), "literal 2".to_owned()),
        Decl::Path(lit(&["p5", "a b", "a b"]), RPathValue { ops: vec![(4, ROperation { summary: Some("literal 6".to_owned()), description: Some(v.texts[41].clone()), deprecated: false, tags: vec!["alpha".to_owned(), "alpha".to_owned(), "alpha".to_owned()], security: vec![], params: vec![(v.texts[42].clone(), RParam { description: Some("literal 7".to_owned()), at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("literal 8".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[62].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(404, "response 9", Some(int_schema("int64"))), response(2000, "", Some(RSchema::Raw(direct_schema(1))))], callbacks: vec![], ..Default::default() }), (0, ROperation { summary: Some(v.texts[21].clone()), description: Some(v.texts[23].clone()), tags: vec!["delta".to_owned(), "alpha".to_owned()], security: vec![], params: vec![], responses: vec![response(429, "response 10", None), response(418, "I'm a teapot", Some(use_of("UsesNew", 4))), response(401, "Unauthorized", Some(use_of("InlNew", 1))), response(304, "Not Modified", Some(use_of("Untagged", 4)))], callbacks: vec![], ..Default::default() })], params: vec![(v.texts[40].clone(), RParam { description: Some(v.texts[43].clone()), at: 1, required: true, deprecated: false, schema: Some(use_of("BigExt", 0)) })], ..Default::default() }),
    ]
}
const U41: &[&str] = &["BigExt", "InlNew", "UsesNew", "Untagged"];
const E41: &[&str] = &["text 40", "text 43", "text 41", "text 42", "text 62", "direct 1", "text 21", "text 23"];

#[allow(unused_variables, clippy::all)]
fn t42() -> Opg {
    let scheme8 = scheme(0);
    let scheme9 = scheme(1);
    describe_api! {
        paths: { ("p4" / NewStr / crate::zoo_derive::NewStr / crate::zoo_derive::NewNew / {id5: i64}): { description: "path 6", parameters: { (header "literal 7"): { schema: Option<Box<Opt2>>, required: !!b(1), description: Conv(5) }, (header e(36).as_str()): { required: !!b(5), deprecated: { b(14) } } }, DELETE: { body: Vec<Option<StrEnum>>, 400: { Some(direct(1)) }, tags: { alpha }, 201: { Some(direct(0)) }, 401: crate::zoo_derive::StrEnum, callbacks: {  }, }, HEAD: { 401: None, security: {  }, parameters: { (query q10: String): {  } }, operationId: &e(33), 200: ExUn, security: { scheme8, scheme9, scheme9 }, parameters: {  }, 418: Option<crate::zoo_derive::InlExt>, summary: &e(41) } } },
        tags: { tag2(&e(49)) },
        tags: { tag1, },
        info: { title: e(35), }
    }
}

#[allow(unused_variables)]
fn x42(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[35].clone(), None, String::new()),
        Decl::Tag("tag1".to_owned(), None),
        Decl::Tag("tag2".to_owned(), Some(v.texts[49].clone())),
        Decl::Path(lit(&["p4", "{newStr}", "{newStr}", "{newNew}", "{id5}"]), RPathValue { description: Some("path 6".to_owned()), ops: vec![(3, ROperation { body: Some((String::new(), true, use_of("StrEnum", 6))), tags: vec!["alpha".to_owned()], security: vec![], params: vec![], responses: vec![response(400, "Bad Request", Some(RSchema::Raw(direct_schema(1)))), response(201, "Created", Some(RSchema::Raw(direct_schema(0)))), response(401, "Unauthorized", Some(use_of("StrEnum", 0)))], callbacks: vec![], ..Default::default() }), (5, ROperation { summary: Some(v.texts[41].clone()), operation_id: Some(v.texts[33].clone()), tags: vec![], security: vec![sec(&["scheme8"]), sec(&["scheme9"]), sec(&["scheme9"])], params: vec![("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(401, "Unauthorized", None), response(200, "OK", Some(use_of("ExUn", 0))), response(418, "I'm a teapot", Some(use_of("InlExt", 1)))], callbacks: vec![], ..Default::default() })], params: vec![("newStr".to_owned(), param(2, true, of("NewStr"))), ("newNew".to_owned(), param(2, true, of("NewNew"))), ("id5".to_owned(), param(2, true, int_schema("int64"))), ("literal 7".to_owned(), RParam { description: Some(v.texts[5].clone()), at: 1, required: v.bools[1], deprecated: false, schema: Some(use_of("Opt2", 5)) }), (v.texts[36].clone(), RParam { description: None, at: 1, required: v.bools[5], deprecated: v.bools[14], schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Scheme("scheme8".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme9".to_owned(), v.schemes[1].clone()),
    ]
}
const U42: &[&str] = &["NewStr", "NewStr", "NewNew", "Opt2", "StrEnum", "StrEnum", "InlExt", "ExUn"];
const E42: &[&str] = &["text 35", "text 49", "bool 1", "text 5", "text 36", "bool 5", "bool 14", "direct 0", "direct 1", "text 41", "text 33"];

#[allow(unused_variables, clippy::all)]
fn t43() -> Opg {
    describe_api! {
        paths: {  },
        tags: { tag1(if true { e(35) } else { String::new() }) },
        info: { description: { let x = e(21); x }, title: e(5).as_str(), },
        security_schemes: { (http "http 2"): { description: "literal 3", scheme: Basic }, (http "http 4"): { scheme: Bearer, description: e(41) }, (apiKey if true { e(32) } else { String::new() }): { name: { let x = e(29); x }, parameter_in: Header } },
    }
}

#[allow(unused_variables)]
fn x43(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[5].clone(), Some(v.texts[21].clone()), String::new()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[35].clone())),
        Decl::Scheme("http 2".to_owned(), RScheme::Basic(Some("literal 3".to_owned()))),
        Decl::Scheme("http 4".to_owned(), RScheme::Bearer(None, Some(v.texts[41].clone()))),
        Decl::Scheme(v.texts[32].clone(), RScheme::ApiKey(1, v.texts[29].clone(), None)),
    ]
}
const U43: &[&str] = &[];
const E43: &[&str] = &["text 5", "text 21", "text 35", "text 41", "text 32", "text 29"];

#[allow(unused_variables, clippy::all)]
fn t44() -> Opg {
    let local5 = e(47);
    describe_api! {
        servers: { local5 },
        tags: { tag1("literal 2"), tag3, tag4(e(45).as_str()) },
        paths: {  },
        info: { title: Conv(61), description: Conv(29) }
    }
}

#[allow(unused_variables)]
fn x44(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[61].clone(), Some(v.texts[29].clone()), String::new()),
        Decl::Tag("tag1".to_owned(), Some("literal 2".to_owned())),
        Decl::Tag("tag3".to_owned(), None),
        Decl::Tag("tag4".to_owned(), Some(v.texts[45].clone())),
        Decl::Server(v.texts[47].clone(), None),
    ]
}
const U44: &[&str] = &[];
const E44: &[&str] = &["text 61", "text 29", "text 45", "text 47"];

#[allow(unused_variables, clippy::all)]
fn t45() -> Opg {
    let scheme15 = scheme(0);
    let scheme16 = scheme(1);
    let scheme17 = scheme(2);
    let scheme18 = scheme(3);
    let local1 = e(25);
    describe_api! {
        security_schemes: { (apiKey "literal 2"): { parameter_in: Cookie, description: e(23).as_str(), name: &e(39) }, (http "http 3"): { bearer_format: &e(37), scheme: Bearer } },
        servers: { local1, },
        info: { title: Conv(59), version: e(13).as_str(), description: if true { e(19) } else { String::new() }, },
        paths: { ("p5"): {  }, ("p7"): { parameters: { (query q10: MutB): { deprecated: false } }, GET: { security: { "lit0" && scheme17, scheme16, "lit2" && scheme16 && scheme17 }, 403: NewOpt, callbacks: { cb24: { ("c26" / InlAdj): { summary: "path 27", parameters: { (header "q21"): { deprecated: b(6) }, (header e(52)): { schema: Option<Fields> }, (query q10: IntBody) }, PATCH: { parameters: { (query q32: RecUse): { description: if true { e(29) } else { String::new() }, schema: ChainUnS }, (header "q12") }, 429: std::collections::HashMap<String, NewInl>, 401: Option<Box<MutB>>, body: { required: true, schema: crate::zoo_derive::Tup }, 999("response 33"): { Some(direct(1)) }, parameters: { (query q30: crate::zoo_derive::Deep), (query q31: Option<Box<ExAdj>>) } }, description: "path 28", HEAD: { 599: { Some(direct(0)) }, 200: BigObj, summary: &e(45), security: {  }, parameters: { (header e(2).as_str()): {  } }, tags: {  }, 404: crate::zoo_derive::Fields, tags: { delta }, 304("response 35"): { Some(direct(2)) }, body: { schema: NewStr, description: "body 34" }, security: { scheme18 && scheme15 && scheme17, scheme17, scheme18 && "lit2" }, }, DELETE: { security: { "lit0" && scheme15, scheme18, scheme18 }, parameters: { (query q29: crate::zoo_derive::AdjEnum): {  } }, security: { "lit2", scheme16 && scheme15, scheme16 && scheme18 } }, }, ("c37" / {id38: crate::zoo_derive::InlExt} / RecUse / InlUn / {id39: Option<Box<InlTup>>}): { description: "path 40" } } }, description: &{ let x = e(1); x }, parameters: { (header { let x = e(48); x }): { required: true, schema: Plain, description: if true { e(47) } else { String::new() } } }, security: {  } }, description: "path 9", POST: { 301: Box<crate::zoo_derive::ExtEnum>, parameters: { (header Conv(14)): { deprecated: { b(13) } } }, 404("response 14"): ExtEnum, 429("response 13"): None, body: { schema: InlTup, description: "body 11", required: true }, parameters: { (header "q10"), (query q12: Vec<UsesInlEnum>) }, 200: u32, deprecated: true }, summary: "path 8", PATCH: { parameters: { (query q19: crate::zoo_derive::NewNum), (query q20: Box<Exs>): {  }, (query q21: i64): { required: false, schema: DiamondSide, deprecated: false, description: e(41) } }, parameters: { (header { let x = e(20); x }), (query q22: std::collections::HashMap<String, Fields>): { required: b(7), description: if true { e(15) } else { String::new() }, schema: Leaf, deprecated: { b(4) } }, (query q23: IntEnum) }, summary: e(57).as_str(), 304: (), operationId: &Conv(21), security: { scheme15, scheme16 && "lit2" && scheme17, scheme16 && scheme18 && scheme15 }, } }, ("p42" / "v1" / "x" / "v1"): { OPTIONS: { 400: { None }, 202: { None }, tags: {  }, 418: (), 200: RecEnum }, description: "path 43", parameters: { (header e(50).as_str()), (header { let x = e(4); x }): {  } } } }
    }
}

#[allow(unused_variables)]
fn x45(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[59].clone(), Some(v.texts[19].clone()), v.texts[13].clone()),
        Decl::Server(v.texts[25].clone(), None),
        Decl::Scheme("literal 2".to_owned(), RScheme::ApiKey(3, v.texts[39].clone(), Some(v.texts[23].clone()))),
        Decl::Scheme("http 3".to_owned(), RScheme::Bearer(Some(v.texts[37].clone()), None)),
        Decl::Path(lit(&["p5"]), RPathValue { ops: vec![], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p7"]), RPathValue { summary: Some("path 8".to_owned()), description: Some("path 9".to_owned()), ops: vec![(2, ROperation { deprecated: true, body: Some(("body 11".to_owned(), true, use_of("InlTup", 0))), tags: vec![], security: vec![], params: vec![(v.texts[14].clone(), RParam { description: None, at: 1, required: true, deprecated: v.bools[13], schema: Some(string_schema()) }), ("q10".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q12".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("UsesInlEnum", 3)) })], responses: vec![response(301, "Moved Permanently", Some(use_of("ExtEnum", 2))), response(404, "response 14", Some(use_of("ExtEnum", 0))), response(429, "response 13", None), response(200, "OK", Some(int_schema("uint32")))], callbacks: vec![], ..Default::default() }), (6, ROperation { summary: Some(v.texts[57].clone()), operation_id: Some(v.texts[21].clone()), tags: vec![], security: vec![sec(&["scheme15"]), sec(&["lit2", "scheme16", "scheme17"]), sec(&["scheme15", "scheme16", "scheme18"])], params: vec![("q19".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewNum", 0)) }), ("q20".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Exs", 2)) }), ("q21".to_owned(), RParam { description: Some(v.texts[41].clone()), at: 0, required: false, deprecated: false, schema: Some(use_of("DiamondSide", 0)) }), (v.texts[20].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q22".to_owned(), RParam { description: Some(v.texts[15].clone()), at: 0, required: v.bools[7], deprecated: v.bools[4], schema: Some(use_of("Leaf", 0)) }), ("q23".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("IntEnum", 0)) })], responses: vec![response(304, "Not Modified", Some(null_schema()))], callbacks: vec![], ..Default::default() }), (0, ROperation { description: Some(v.texts[1].clone()), tags: vec![], security: vec![sec(&["lit0", "scheme17"]), sec(&["scheme16"]), sec(&["lit2", "scheme16", "scheme17"])], params: vec![(v.texts[48].clone(), RParam { description: Some(v.texts[47].clone()), at: 1, required: true, deprecated: false, schema: Some(use_of("Plain", 0)) })], responses: vec![response(403, "Forbidden", Some(use_of("NewOpt", 0)))], callbacks: vec![("cb24".to_owned(), vec![(lit(&["c26", "{inlAdj}"]), RPathValue { summary: Some("path 27".to_owned()), description: Some("path 28".to_owned()), ops: vec![(3, ROperation { tags: vec![], security: vec![sec(&["lit0", "scheme15"]), sec(&["scheme18"]), sec(&["scheme18"]), sec(&["lit2"]), sec(&["scheme15", "scheme16"]), sec(&["scheme16", "scheme18"])], params: vec![("q29".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("AdjEnum", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() }), (6, ROperation { body: Some((String::new(), true, use_of("Tup", 0))), tags: vec![], security: vec![], params: vec![("q32".to_owned(), RParam { description: Some(v.texts[29].clone()), at: 0, required: false, deprecated: false, schema: Some(use_of("ChainUnS", 0)) }), ("q12".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q30".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("Deep", 0)) }), ("q31".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExAdj", 5)) })], responses: vec![response(429, "Too Many Requests", Some(use_of("NewInl", 4))), response(401, "Unauthorized", Some(use_of("MutB", 5))), response(999, "response 33", Some(RSchema::Raw(direct_schema(1))))], callbacks: vec![], ..Default::default() }), (5, ROperation { summary: Some(v.texts[45].clone()), body: Some(("body 34".to_owned(), true, use_of("NewStr", 0))), tags: vec!["delta".to_owned()], security: vec![sec(&["scheme15", "scheme17", "scheme18"]), sec(&["scheme17"]), sec(&["lit2", "scheme18"])], params: vec![(v.texts[2].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], responses: vec![response(599, "", Some(RSchema::Raw(direct_schema(0)))), response(200, "OK", Some(use_of("BigObj", 0))), response(404, "Not Found", Some(use_of("Fields", 0))), response(304, "response 35", Some(RSchema::Raw(direct_schema(2))))], callbacks: vec![], ..Default::default() })], params: vec![("inlAdj".to_owned(), param(2, true, of("InlAdj"))), ("q21".to_owned(), RParam { description: None, at: 1, required: true, deprecated: v.bools[6], schema: Some(string_schema()) }), (v.texts[52].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("Fields", 1)) }), ("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("IntBody", 0)) })], ..Default::default() }), (lit(&["c37", "{id38}", "{recUse}", "{inlUn}", "{id39}"]), RPathValue { description: Some("path 40".to_owned()), ops: vec![], params: vec![("id38".to_owned(), param(2, true, use_of("InlExt", 0))), ("recUse".to_owned(), param(2, true, of("RecUse"))), ("inlUn".to_owned(), param(2, true, of("InlUn"))), ("id39".to_owned(), param(2, true, use_of("InlTup", 5)))], ..Default::default() })])], ..Default::default() })], params: vec![("q10".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("MutB", 0)) })], ..Default::default() }),
        Decl::Path(lit(&["p42", "v1", "x", "v1"]), RPathValue { description: Some("path 43".to_owned()), ops: vec![(4, ROperation { tags: vec![], security: vec![], params: vec![], responses: vec![response(400, "Bad Request", None), response(202, "Accepted", None), response(418, "I'm a teapot", Some(null_schema())), response(200, "OK", Some(use_of("RecEnum", 0)))], callbacks: vec![], ..Default::default() })], params: vec![(v.texts[50].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), (v.texts[4].clone(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Scheme("scheme15".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme16".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme17".to_owned(), v.schemes[2].clone()),
        Decl::Scheme("scheme18".to_owned(), v.schemes[3].clone()),
    ]
}
const U45: &[&str] = &["MutB", "InlTup", "UsesInlEnum", "ExtEnum", "ExtEnum", "NewNum", "Exs", "DiamondSide", "Fields", "Leaf", "IntEnum", "Plain", "NewOpt", "InlAdj", "Fields", "IntBody", "AdjEnum", "Tup", "Deep", "ExAdj", "RecUse", "ChainUnS", "NewInl", "MutB", "NewStr", "BigObj", "Fields", "InlExt", "RecUse", "InlUn", "InlTup", "RecEnum"];
const E45: &[&str] = &["text 59", "text 13", "text 19", "text 25", "text 39", "text 23", "text 37", "text 14", "bool 13", "text 57", "text 21", "text 41", "text 20", "bool 7", "text 15", "bool 4", "text 1", "text 48", "text 47", "bool 6", "text 52", "text 29", "direct 1", "text 45", "text 2", "direct 2", "direct 0", "text 50", "text 4"];

#[allow(unused_variables, clippy::all)]
fn t46() -> Opg {
    let scheme11 = scheme(0);
    let scheme12 = scheme(1);
    let scheme13 = scheme(2);
    let local3 = e(55);
    let local4 = e(45);
    describe_api! {
        servers: { "http://2"(local3), local4("server 5") },
        paths: { ("p7" / "a b" / InlText / BigInt): { POST: { security: { scheme11, scheme11 && scheme12 && scheme13 }, parameters: {  }, 299: BigObj, body: RecEnum, summary: &{ let x = e(61); x } }, parameters: { (header "literal 10"): { schema: std::collections::HashMap<String, crate::zoo_derive::MutA>, description: Conv(23), required: b(4) }, (header { let x = e(56); x }): { required: { b(15) }, deprecated: true, description: Conv(37) } }, description: "path 9", summary: "path 8", }, ("p15" / "v1"): {  }, ("p17" / {id18: Option<Box<NewVecUn>>} / {id18: Option<Box<NewVecUn>>} / {id19: ExExt}): {  }, },
        info: { title: if true { e(31) } else { String::new() }, version: e(17).as_str(), description: { let x = e(15); x } },
        security_schemes: { (apiKey if true { e(58) } else { String::new() }): { description: &e(19), name: "" } },
        tags: { tag1(if true { e(43) } else { String::new() }), },
    }
}

#[allow(unused_variables)]
fn x46(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(v.texts[31].clone(), Some(v.texts[15].clone()), v.texts[17].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[43].clone())),
        Decl::Server("http://2".to_owned(), Some(v.texts[55].clone())),
        Decl::Server(v.texts[45].clone(), Some("server 5".to_owned())),
        Decl::Scheme(v.texts[58].clone(), RScheme::ApiKey(1, "".to_owned(), Some(v.texts[19].clone()))),
        Decl::Path(lit(&["p7", "a b", "{inlText}", "{bigInt}"]), RPathValue { summary: Some("path 8".to_owned()), description: Some("path 9".to_owned()), ops: vec![(2, ROperation { summary: Some(v.texts[61].clone()), body: Some((String::new(), true, use_of("RecEnum", 0))), tags: vec![], security: vec![sec(&["scheme11"]), sec(&["scheme11", "scheme12", "scheme13"])], params: vec![], responses: vec![response(299, "", Some(use_of("BigObj", 0)))], callbacks: vec![], ..Default::default() })], params: vec![("inlText".to_owned(), param(2, true, of("InlText"))), ("bigInt".to_owned(), param(2, true, of("BigInt"))), ("literal 10".to_owned(), RParam { description: Some(v.texts[23].clone()), at: 1, required: v.bools[4], deprecated: false, schema: Some(use_of("MutA", 4)) }), (v.texts[56].clone(), RParam { description: Some(v.texts[37].clone()), at: 1, required: v.bools[15], deprecated: true, schema: Some(string_schema()) })], ..Default::default() }),
        Decl::Path(lit(&["p15", "v1"]), RPathValue { ops: vec![], params: vec![], ..Default::default() }),
        Decl::Path(lit(&["p17", "{id18}", "{id18}", "{id19}"]), RPathValue { ops: vec![], params: vec![("id18".to_owned(), param(2, true, use_of("NewVecUn", 5))), ("id19".to_owned(), param(2, true, use_of("ExExt", 0)))], ..Default::default() }),
        Decl::Scheme("scheme11".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme12".to_owned(), v.schemes[1].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[2].clone()),
    ]
}
const U46: &[&str] = &["InlText", "BigInt", "MutA", "RecEnum", "BigObj", "NewVecUn", "NewVecUn", "ExExt"];
const E46: &[&str] = &["text 31", "text 17", "text 15", "text 43", "text 55", "text 45", "text 58", "text 19", "text 23", "bool 4", "text 56", "bool 15", "text 37", "text 61"];

#[allow(unused_variables, clippy::all)]
fn t47() -> Opg {
    let scheme12 = scheme(0);
    let scheme13 = scheme(1);
    let local5 = e(55);
    describe_api! {
        tags: { tag4(e(35).as_str()), },
        security_schemes: { (http "http 6"): { scheme: Basic, description: "" }, (http "http 7"): { description: { let x = e(31); x }, scheme: Basic } },
        servers: { local5 },
        tags: { tag1({ let x = e(49); x }), tag2, tag3 },
        info: { description: if true { e(59) } else { String::new() }, version: { let x = e(9); x } },
        paths: { ("p9" / "x" / CycB / "y.z"): { parameters: {  }, summary: "path 10", PATCH: { parameters: {  }, 202: Vec<InlText>, body: { required: true, schema: Vec<ChainTu> }, description: &{ let x = e(53); x }, }, PUT: { 299: Option<Box<NewOpt>>, security: { scheme12, scheme12 && scheme13 }, body: { schema: Transp, description: "body 11" }, 2000("response 17"): NewTy, callbacks: { "cb18": { ({id21: ChainExT} / "c20" / {id21: ChainExT} / NewObj): { TRACE: { parameters: { (query q23: Option<ExTup>), (header e(14).as_str()): { deprecated: b(12), required: { b(2) }, schema: DiamondSide2 } }, parameters: {  }, tags: { gamma, delta }, body: { description: "body 22", required: true, schema: Mixed<'static, i32, [Leaf]> } } } } }, summary: &format!("{}", e(43)), parameters: { (header "literal 15"), (query q16: crate::zoo_derive::NewInt): {  }, (header e(50).as_str()): { deprecated: true, required: { b(6) } } }, security: {  }, parameters: { (header "literal 14"): { schema: crate::zoo_derive::InlNew } }, } }, ("p25" / {id26: u32}): {  } }
    }
}

#[allow(unused_variables)]
fn x47(v: &Values) -> Vec<Decl> {
    vec![
        Decl::Info(String::new(), Some(v.texts[59].clone()), v.texts[9].clone()),
        Decl::Tag("tag1".to_owned(), Some(v.texts[49].clone())),
        Decl::Tag("tag2".to_owned(), None),
        Decl::Tag("tag3".to_owned(), None),
        Decl::Tag("tag4".to_owned(), Some(v.texts[35].clone())),
        Decl::Server(v.texts[55].clone(), None),
        Decl::Scheme("http 6".to_owned(), RScheme::Basic(Some("".to_owned()))),
        Decl::Scheme("http 7".to_owned(), RScheme::Basic(Some(v.texts[31].clone()))),
        Decl::Path(lit(&["p9", "x", "{cycB}", "y.z"]), RPathValue { summary: Some("path 10".to_owned()), ops: vec![(6, ROperation { description: Some(v.texts[53].clone()), body: Some((String::new(), true, use_of("ChainTu", 3))), tags: vec![], security: vec![], params: vec![], responses: vec![response(202, "Accepted", Some(use_of("InlText", 3)))], callbacks: vec![], ..Default::default() }), (1, ROperation { summary: Some(v.texts[43].clone()), body: Some(("body 11".to_owned(), true, use_of("Transp", 0))), tags: vec![], security: vec![sec(&["scheme12"]), sec(&["scheme12", "scheme13"])], params: vec![("literal 15".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(string_schema()) }), ("q16".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("NewInt", 0)) }), (v.texts[50].clone(), RParam { description: None, at: 1, required: v.bools[6], deprecated: true, schema: Some(string_schema()) }), ("literal 14".to_owned(), RParam { description: None, at: 1, required: true, deprecated: false, schema: Some(use_of("InlNew", 0)) })], responses: vec![response(299, "", Some(use_of("NewOpt", 5))), response(2000, "response 17", Some(use_of("NewTy", 0)))], callbacks: vec![("cb18".to_owned(), vec![(lit(&["{id21}", "c20", "{id21}", "{newObj}"]), RPathValue { ops: vec![(7, ROperation { body: Some(("body 22".to_owned(), true, use_of("Mixed", 0))), tags: vec!["gamma".to_owned(), "delta".to_owned()], security: vec![], params: vec![("q23".to_owned(), RParam { description: None, at: 0, required: false, deprecated: false, schema: Some(use_of("ExTup", 1)) }), (v.texts[14].clone(), RParam { description: None, at: 1, required: v.bools[2], deprecated: v.bools[12], schema: Some(use_of("DiamondSide2", 0)) })], responses: vec![], callbacks: vec![], ..Default::default() })], params: vec![("id21".to_owned(), param(2, true, use_of("ChainExT", 0))), ("newObj".to_owned(), param(2, true, of("NewObj")))], ..Default::default() })])], ..Default::default() })], params: vec![("cycB".to_owned(), param(2, true, of("CycB")))], ..Default::default() }),
        Decl::Path(lit(&["p25", "{id26}"]), RPathValue { ops: vec![], params: vec![("id26".to_owned(), param(2, true, int_schema("uint32")))], ..Default::default() }),
        Decl::Scheme("scheme12".to_owned(), v.schemes[0].clone()),
        Decl::Scheme("scheme13".to_owned(), v.schemes[1].clone()),
    ]
}
const U47: &[&str] = &["CycB", "ChainTu", "InlText", "Transp", "InlNew", "NewInt", "NewOpt", "NewTy", "ChainExT", "NewObj", "ChainExT", "Mixed", "ExTup", "DiamondSide2"];
const E47: &[&str] = &["text 9", "text 59", "text 49", "text 35", "text 55", "text 31", "text 53", "text 43", "text 50", "bool 6", "text 14", "bool 12", "bool 2"];

pub const BUILD: [fn() -> Opg; COUNT] = [t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18, t19, t20, t21, t22, t23, t24, t25, t26, t27, t28, t29, t30, t31, t32, t33, t34, t35, t36, t37, t38, t39, t40, t41, t42, t43, t44, t45, t46, t47];
pub const DECLS: [fn(&Values) -> Vec<Decl>; COUNT] = [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31, x32, x33, x34, x35, x36, x37, x38, x39, x40, x41, x42, x43, x44, x45, x46, x47];
pub const USES: [&[&str]; COUNT] = [U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U11, U12, U13, U14, U15, U16, U17, U18, U19, U20, U21, U22, U23, U24, U25, U26, U27, U28, U29, U30, U31, U32, U33, U34, U35, U36, U37, U38, U39, U40, U41, U42, U43, U44, U45, U46, U47];
pub const EXPRS: [&[&str]; COUNT] = [E0, E1, E2, E3, E4, E5, E6, E7, E8, E9, E10, E11, E12, E13, E14, E15, E16, E17, E18, E19, E20, E21, E22, E23, E24, E25, E26, E27, E28, E29, E30, E31, E32, E33, E34, E35, E36, E37, E38, E39, E40, E41, E42, E43, E44, E45, E46, E47];
