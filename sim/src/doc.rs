//! Reference description documents, built through opg's public types and, independently, as the expected tree.

use opg::*;

use crate::oracle;
use crate::rmodel::*;
use crate::rt::*;
use crate::val::{s, to_val, Val};
use crate::zoo_derive::{self, Use};

/// A text whose conversion is user code.
pub struct Noisy(pub String);

impl std::fmt::Display for Noisy {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        user_point("to_string");
        f.write_str(&self.0)
    }
}

#[derive(Clone, Debug)]
pub enum RScheme {
    Basic(Option<String>),
    Bearer(Option<String>, Option<String>),
    ApiKey(usize, String, Option<String>),
}

pub const LOCATIONS: [&str; 4] = ["query", "header", "path", "cookie"];

pub fn location(i: usize) -> ParameterIn {
    [ParameterIn::Query, ParameterIn::Header, ParameterIn::Path, ParameterIn::Cookie][i]
}

impl RScheme {
    pub fn gen(tag: &str) -> RScheme {
        match draw(3) {
            0 => RScheme::Basic(opt(60, || format!("{} {}", tag, text()))),
            1 => RScheme::Bearer(opt(50, text), opt(60, || format!("{} {}", tag, text()))),
            _ => RScheme::ApiKey(draw(4), format!("{} {}", tag, text()), opt(50, text)),
        }
    }
    pub fn to_opg(&self) -> SecurityScheme {
        match self.clone() {
            RScheme::Basic(description) => SecurityScheme::Http(HttpSecurityScheme::Basic { description }),
            RScheme::Bearer(format, description) => SecurityScheme::Http(HttpSecurityScheme::Bearer { format, description }),
            RScheme::ApiKey(at, name, description) => {
                SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: location(at), name, description })
            }
        }
    }
    pub fn to_val(&self) -> Val {
        let mut e = Vec::new();
        let mut put = |k: &str, v: &Option<String>| {
            if let Some(v) = v {
                e.push((k.to_owned(), s(v.clone())));
            }
        };
        let some = |t: &str| Some(t.to_owned());
        match self {
            RScheme::Basic(d) => {
                put("type", &some("http"));
                put("scheme", &some("basic"));
                put("description", d);
            }
            RScheme::Bearer(f, d) => {
                put("type", &some("http"));
                put("scheme", &some("bearer"));
                put("bearerFormat", f);
                put("description", d);
            }
            RScheme::ApiKey(at, name, d) => {
                put("type", &some("apiKey"));
                put("in", &some(LOCATIONS[*at]));
                put("name", &some(name));
                put("description", d);
            }
        }
        Val::Map(e)
    }
}

/// A security scheme type of the user's own: cloning and converting it is user code.
pub struct NoisyScheme(pub RScheme);

impl Clone for NoisyScheme {
    fn clone(&self) -> Self {
        user_point("scheme.clone");
        NoisyScheme(self.0.clone())
    }
}

impl From<NoisyScheme> for SecurityScheme {
    fn from(scheme: NoisyScheme) -> SecurityScheme {
        user_point("scheme.into");
        scheme.0.to_opg()
    }
}

/// A schema at a use site: given as is, or by mentioning a derived type.
#[derive(Clone, Debug)]
pub enum RSchema {
    Raw(RRef),
    Typed(Use),
}

impl RSchema {
    pub fn gen(names: &[String]) -> RSchema {
        if chance(40) {
            RSchema::Typed(zoo_derive::gen_use())
        } else {
            RSchema::Raw(gen_ref(2, names))
        }
    }
    /// Build it; every successful mention is reported to `ack`.
    pub fn make(&self, cx: &mut Components, ack: &mut dyn FnMut(&Use)) -> ModelReference {
        match self {
            RSchema::Raw(r) => r.to_opg(),
            RSchema::Typed(u) => {
                let reference = u.mention(cx);
                ack(u);
                reference
            }
        }
    }
    pub fn to_val(&self) -> Val {
        match self {
            RSchema::Raw(r) => r.to_val(),
            RSchema::Typed(u) => oracle::use_reference(u).to_val(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct RParam {
    pub description: Option<String>,
    pub at: usize,
    pub required: bool,
    pub deprecated: bool,
    pub schema: Option<RSchema>,
}

impl RParam {
    fn gen(names: &[String]) -> RParam {
        RParam {
            description: opt(50, text),
            at: draw(4),
            required: chance(50),
            deprecated: chance(30),
            schema: opt(70, || RSchema::gen(names)),
        }
    }
    fn make(&self, cx: &mut Components, ack: &mut dyn FnMut(&Use)) -> OperationParameter {
        OperationParameter {
            description: self.description.clone(),
            parameter_in: location(self.at),
            required: self.required,
            deprecated: self.deprecated,
            schema: self.schema.as_ref().map(|x| x.make(cx, ack)),
        }
    }
    fn to_val(&self, name: &str) -> Val {
        let mut e = vec![("name".to_owned(), s(name)), ("in".to_owned(), s(LOCATIONS[self.at]))];
        if let Some(d) = &self.description {
            e.push(("description".to_owned(), s(d.clone())));
        }
        if self.required {
            e.push(("required".to_owned(), Val::Bool(true)));
        }
        if self.deprecated {
            e.push(("deprecated".to_owned(), Val::Bool(true)));
        }
        if let Some(x) = &self.schema {
            e.push(("schema".to_owned(), x.to_val()));
        }
        Val::Map(e)
    }
}

pub type RParams = Vec<(String, RParam)>;

/// A few, seldom many.
fn some(few: usize) -> usize {
    if chance(1) {
        count("situation.many_parts");
        [12, 13, 30][draw(3)]
    } else {
        draw(few)
    }
}

fn gen_params(names: &[String]) -> RParams {
    (0..some(4)).map(|i| (format!("{}{}", ["q", "x-", "Ю", "id"][draw(4)], i), RParam::gen(names))).collect()
}

fn params_val(params: &RParams) -> Val {
    // a list without order: sorted by name for comparison
    let mut params = params.clone();
    params.sort_by(|a, b| a.0.cmp(&b.0));
    Val::Seq(params.iter().map(|(n, p)| p.to_val(n)).collect())
}

pub const METHODS: [&str; 8] = ["get", "put", "post", "delete", "options", "head", "patch", "trace"];

pub fn method(i: usize) -> HttpMethod {
    [
        HttpMethod::GET,
        HttpMethod::PUT,
        HttpMethod::POST,
        HttpMethod::DELETE,
        HttpMethod::OPTIONS,
        HttpMethod::HEAD,
        HttpMethod::PATCH,
        HttpMethod::TRACE,
    ][i]
    .clone()
}

pub type RPath = Vec<(bool, String)>; // (is parameter, text)

pub fn path_text(path: &RPath) -> String {
    path.iter().map(|(p, t)| if *p { format!("/{{{}}}", t) } else { format!("/{}", t) }).collect()
}

fn path_opg(path: &RPath) -> opg::Path {
    opg::Path(path.iter().map(|(p, t)| if *p { PathElement::Parameter(t.clone()) } else { PathElement::Path(t.clone()) }).collect())
}

fn gen_path(unique: &str) -> RPath {
    let mut path = vec![(false, format!("{}{}", ["p", "путь", "a.b"][draw(3)], unique))];
    for _ in 0..draw(3) {
        path.push((chance(50), ["id", "some name", "x{y}", "z", "", "~1", "%7Bid%7D", ":id", "Id"][draw(9)].to_owned()));
    }
    path
}

#[derive(Clone, Debug, Default)]
pub struct ROperation {
    pub tags: Vec<String>,
    pub summary: Option<String>,
    pub operation_id: Option<String>,
    pub description: Option<String>,
    /// every builder function is called with something else first
    pub again: bool,
    pub deprecated: bool,
    pub security: Vec<Vec<(String, Vec<String>)>>,
    pub body: Option<(String, bool, RSchema)>,
    pub responses: Vec<(u16, String, Option<RSchema>)>,
    pub params: RParams,
    pub callbacks: Vec<(String, Vec<(RPath, RPathValue)>)>,
}

#[derive(Clone, Debug, Default)]
pub struct RPathValue {
    pub summary: Option<String>,
    pub description: Option<String>,
    pub ops: Vec<(usize, ROperation)>,
    pub params: RParams,
}

fn content(schema: &RSchema) -> Val {
    Val::Map(vec![(
        "application/json".to_owned(),
        Val::Map(vec![("schema".to_owned(), schema.to_val())]),
    )])
}

impl ROperation {
    pub fn gen(names: &[String], depth: usize) -> ROperation {
        let mut codes = [200u16, 201, 204, 400, 404, 500, 999, 100].to_vec();
        shuffle(&mut codes);
        let mut responses = some(4);
        if responses > 4 || chance(3) {
            codes.extend([0, 1, 99, 299, 599, 600, 1000, 20_000, u16::MAX]);
            codes.extend(401..404);
            codes.extend(405..430);
            shuffle(&mut codes);
            responses = responses.max(3);
        }
        ROperation {
            tags: (0..some(3)).map(|_| text()).collect(),
            summary: opt(50, text),
            operation_id: opt(50, text),
            description: opt(50, text),
            again: chance(12),
            deprecated: chance(30),
            security: (0..some(3))
                .map(|_| (0..some(3)).map(|i| (format!("{}{}", ["sec", "Sec", "a/b ~"][draw(3)], i), (0..some(3)).map(|_| text()).collect())).collect())
                .collect(),
            body: opt(50, || (text(), chance(50), RSchema::gen(names))),
            responses: codes[..responses].iter().map(|c| (*c, text(), opt(60, || RSchema::gen(names)))).collect(),
            params: gen_params(names),
            callbacks: if depth == 0 {
                vec![]
            } else {
                (0..some(3))
                    .map(|i| {
                        let paths = (0..some(3)).map(|k| (gen_path(&format!("cb{}", k)), RPathValue::gen(names, depth - 1))).collect();
                        (format!("{}{}", ["cb ", "Cb", "{$request.body#/url}"][draw(3)], i), paths)
                    })
                    .collect()
            },
        }
    }

    /// Build it with the library's builder functions; conversions of texts are user code.
    pub fn make(&self, cx: &mut Components, ack: &mut dyn FnMut(&Use)) -> Operation {
        let mut operation = Operation::default();
        if self.again {
            count("situation.operation_described_again");
            if self.summary.is_some() {
                operation.with_summary("an earlier summary");
            }
            if self.operation_id.is_some() {
                operation.with_operation_id("earlier");
            }
            if self.description.is_some() {
                operation.with_description("an earlier description");
            }
            operation.mark_deprecated(!self.deprecated);
            if let Some((_, required, _)) = &self.body {
                let schema = ModelReference::Inline(describe_type!(array => { description: "an earlier body" items: (string => { format: "earlier" }) }));
                operation.with_request_body(RequestBody { description: Some("an earlier body".to_owned()), required: !required, schema });
            }
        }
        if let Some(x) = &self.summary {
            operation.with_summary(&Noisy(x.clone()));
        }
        if let Some(x) = &self.operation_id {
            operation.with_operation_id(&Noisy(x.clone()));
        }
        if let Some(x) = &self.description {
            operation.with_description(&Noisy(x.clone()));
        }
        operation.mark_deprecated(self.deprecated);
        if let Some((description, required, schema)) = &self.body {
            let body = RequestBody { description: Some(description.clone()), required: *required, schema: schema.make(cx, ack) };
            operation.with_request_body(body);
        }
        operation.tags = self.tags.clone();
        for security in &self.security {
            operation.security.push(security.iter().cloned().collect());
        }
        for (code, description, schema) in &self.responses {
            let schema = schema.as_ref().map(|x| x.make(cx, ack));
            operation.responses.insert(*code, Response { description: description.clone(), schema });
        }
        for (name, param) in &self.params {
            operation.parameters.insert(name.clone(), param.make(cx, ack));
        }
        for (name, paths) in &self.callbacks {
            let mut callback = CallbackObject::default();
            for (path, value) in paths {
                callback.paths.push((path_opg(path), value.make(cx, ack)));
            }
            operation.callbacks.insert(name.clone(), callback);
        }
        operation
    }

    pub fn to_val(&self) -> Val {
        let mut e: Vec<(String, Val)> = Vec::new();
        let mut put = |k: &str, v: Val| e.push((k.to_owned(), v));
        if !self.tags.is_empty() {
            put("tags", Val::Seq(self.tags.iter().map(|t| s(t.clone())).collect()));
        }
        for (k, v) in [("summary", &self.summary), ("operationId", &self.operation_id), ("description", &self.description)] {
            if let Some(v) = v {
                put(k, s(v.clone()));
            }
        }
        if self.deprecated {
            put("deprecated", Val::Bool(true));
        }
        if !self.security.is_empty() {
            let security = self
                .security
                .iter()
                .map(|x| {
                    Val::Map(x.iter().map(|(n, roles)| (n.clone(), Val::Seq(roles.iter().map(|r| s(r.clone())).collect()))).collect())
                })
                .collect();
            put("security", Val::Seq(security));
        }
        if let Some((description, required, schema)) = &self.body {
            let mut body = vec![("description".to_owned(), s(description.clone())), ("content".to_owned(), content(schema))];
            if *required {
                body.push(("required".to_owned(), Val::Bool(true)));
            }
            put("requestBody", Val::Map(body));
        }
        let responses = self
            .responses
            .iter()
            .map(|(code, description, schema)| {
                let mut r = vec![("description".to_owned(), s(description.clone()))];
                if let Some(schema) = schema {
                    r.push(("content".to_owned(), content(schema)));
                }
                (code.to_string(), Val::Map(r))
            })
            .collect();
        put("responses", Val::Map(responses));
        if !self.params.is_empty() {
            put("parameters", params_val(&self.params));
        }
        if !self.callbacks.is_empty() {
            let callbacks = self
                .callbacks
                .iter()
                .map(|(name, paths)| {
                    let paths = paths.iter().map(|(p, v)| (path_text(p), v.to_val())).collect();
                    (name.clone(), Val::Map(paths))
                })
                .collect();
            put("callbacks", Val::Map(callbacks));
        }
        Val::Map(e)
    }
}

impl RPathValue {
    pub fn gen(names: &[String], depth: usize) -> RPathValue {
        let mut methods = (0..8).collect::<Vec<_>>();
        shuffle(&mut methods);
        RPathValue {
            summary: opt(40, text),
            description: opt(40, text),
            ops: methods[..draw(4)].iter().map(|m| (*m, ROperation::gen(names, depth))).collect(),
            params: gen_params(names),
        }
    }
    pub fn make(&self, cx: &mut Components, ack: &mut dyn FnMut(&Use)) -> PathValue {
        let mut value = PathValue { summary: self.summary.clone(), description: self.description.clone(), ..Default::default() };
        for (m, op) in &self.ops {
            value.operations.insert(method(*m), op.make(cx, ack));
        }
        for (name, param) in &self.params {
            value.parameters.insert(name.clone(), param.make(cx, ack));
        }
        value
    }
    pub fn to_val(&self) -> Val {
        let mut e = Vec::new();
        for (k, v) in [("summary", &self.summary), ("description", &self.description)] {
            if let Some(v) = v {
                e.push((k.to_owned(), s(v.clone())));
            }
        }
        for (m, op) in &self.ops {
            e.push((METHODS[*m].to_owned(), op.to_val()));
        }
        if !self.params.is_empty() {
            e.push(("parameters".to_owned(), params_val(&self.params)));
        }
        Val::Map(e)
    }
}

#[derive(Clone, Debug)]
pub enum Decl {
    Info(String, Option<String>, String),
    Tag(String, Option<String>),
    Server(String, Option<String>),
    Path(RPath, RPathValue),
    Schema(String, RModel),
    Scheme(String, RScheme),
    Mention(Use),
}

pub fn gen_decl(index: usize, names: &[String]) -> Decl {
    gen_decl_of(draw(8), index, names)
}

pub fn gen_decl_of(kind: usize, index: usize, names: &[String]) -> Decl {
    match kind {
        0 => Decl::Tag(format!("{} {}", text(), index), opt(60, text)),
        1 => Decl::Server(format!("http://{}/{}", text(), index), opt(60, text)),
        2 | 3 | 4 => Decl::Path(gen_path(&index.to_string()), RPathValue::gen(names, 1)),
        5 => Decl::Schema(format!("Manual{}", index), gen_model(3, names)),
        6 => Decl::Scheme(format!("scheme{}", index), RScheme::gen(&index.to_string())),
        _ => Decl::Mention(zoo_derive::gen_use()),
    }
}

impl RSchema {
    fn uses(&self, f: &mut dyn FnMut(&Use)) {
        if let RSchema::Typed(u) = self {
            f(u)
        }
    }
}

impl RPathValue {
    fn uses(&self, f: &mut dyn FnMut(&Use)) {
        self.params.iter().for_each(|p| p.1.schema.iter().for_each(|s| s.uses(f)));
        for (_, op) in &self.ops {
            op.body.iter().for_each(|b| b.2.uses(f));
            op.responses.iter().for_each(|r| r.2.iter().for_each(|s| s.uses(f)));
            op.params.iter().for_each(|p| p.1.schema.iter().for_each(|s| s.uses(f)));
            op.callbacks.iter().for_each(|c| c.1.iter().for_each(|p| p.1.uses(f)));
        }
    }
}

impl Decl {
    /// All mentions this declaration makes.
    pub fn uses(&self, f: &mut dyn FnMut(&Use)) {
        match self {
            Decl::Path(_, value) => value.uses(f),
            Decl::Mention(u) => f(u),
            _ => {}
        }
    }

    /// Declare it in the description. `ack` is told of mentions that succeeded on the way.
    pub fn apply(&self, opg: &mut Opg, ack: &mut dyn FnMut(&Use)) {
        match self {
            Decl::Info(title, description, version) => {
                opg.info = Info { title: title.clone(), description: description.clone(), version: version.clone() };
            }
            Decl::Tag(name, description) => {
                let description = description.as_ref().map(|d| Noisy(d.clone()).to_string());
                opg.tags.insert(name.clone(), Tag { description });
            }
            Decl::Server(url, description) => {
                let description = description.as_ref().map(|d| Noisy(d.clone()).to_string());
                opg.servers.push(Server { url: url.clone(), description });
            }
            Decl::Path(path, value) => {
                let value = value.make(&mut opg.components, ack);
                opg.paths.push((path_opg(path), value));
            }
            Decl::Schema(name, model) => opg.components.add_model(Noisy(name.clone()), model.to_opg()),
            Decl::Scheme(name, scheme) => {
                let back = opg.components.mention_security_scheme(name.clone(), &NoisyScheme(scheme.clone()));
                if back != *name {
                    fail("scheme-name", format!("mention_security_scheme({:?}) returned {:?}", name, back));
                }
            }
            Decl::Mention(u) => {
                u.mention(&mut opg.components);
                ack(u);
            }
        }
    }
}

/// The registry the acknowledged declarations should have produced, as an expected tree.
pub fn expected_components(decls: &[Decl], uses: &[Use]) -> Val {
    let mut eval = zoo_derive::DEval::default();
    uses.iter().for_each(|u| eval.mention(u));
    let mut schemas = Vec::new();
    for name in &eval.registered {
        schemas.push(((*name).to_owned(), oracle::golden(name).to_val()));
    }
    let mut schemes = Vec::new();
    for decl in decls {
        match decl {
            Decl::Schema(name, model) => schemas.push((name.clone(), model.to_val())),
            Decl::Scheme(name, scheme) => schemes.push((name.clone(), scheme.to_val())),
            _ => {}
        }
    }
    let mut e = Vec::new();
    if !schemas.is_empty() {
        e.push(("schemas".to_owned(), Val::Map(schemas)));
    }
    if !schemes.is_empty() {
        e.push(("securitySchemes".to_owned(), Val::Map(schemes)));
    }
    Val::Map(e)
}

/// The schema of a derived type itself, computed alone in a fresh registry.
pub fn canonical_derived(name: &str) -> Val {
    quiet(|| to_val(&(zoo_derive::find(name).schema)(&mut Components::new())))
}

pub fn expected_doc(decls: &[Decl], uses: &[Use]) -> Val {
    let mut e = vec![("openapi".to_owned(), s("3.0.3"))];
    let mut info = (String::new(), None, String::new());
    let mut tags = std::collections::BTreeMap::new();
    let mut servers = Vec::new();
    let mut paths = Vec::new();
    for decl in decls {
        match decl {
            Decl::Info(t, d, v) => info = (t.clone(), d.clone(), v.clone()),
            Decl::Tag(n, d) => {
                tags.insert(n.clone(), d.clone());
            }
            Decl::Server(u, d) => servers.push((u.clone(), d.clone())),
            Decl::Path(p, v) => paths.push((path_text(p), v.to_val())),
            _ => {}
        }
    }
    let named = |k: &str, n: &String, d: &Option<String>| {
        let mut m = vec![(k.to_owned(), s(n.clone()))];
        if let Some(d) = d {
            m.push(("description".to_owned(), s(d.clone())));
        }
        Val::Map(m)
    };
    let mut i = vec![("title".to_owned(), s(info.0)), ("version".to_owned(), s(info.2))];
    if let Some(d) = info.1 {
        i.push(("description".to_owned(), s(d)));
    }
    e.push(("info".to_owned(), Val::Map(i)));
    if !tags.is_empty() {
        e.push(("tags".to_owned(), Val::Seq(tags.iter().map(|(n, d)| named("name", n, d)).collect())));
    }
    if !servers.is_empty() {
        e.push(("servers".to_owned(), Val::Seq(servers.iter().map(|(n, d)| named("url", n, d)).collect())));
    }
    if !paths.is_empty() {
        e.push(("paths".to_owned(), Val::Map(paths)));
    }
    e.push(("components".to_owned(), expected_components(decls, uses)));
    Val::Map(e)
}

/// Bring a document tree into the form expected trees are compared in: maps sorted by key, lists that carry no
/// order (tags, parameters) sorted by name.
pub fn normal(val: &Val) -> Val {
    fn sort_named(v: &mut Val) {
        match v {
            Val::Seq(items) => items.iter_mut().for_each(sort_named),
            Val::Map(entries) => {
                for (key, value) in entries.iter_mut() {
                    sort_named(value);
                    if key == "parameters" {
                        if let Val::Seq(items) = value {
                            items.sort_by(|a, b| a.get("name").cmp(&b.get("name")));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut val = val.canon();
    sort_named(&mut val);
    if let Val::Map(entries) = &mut val {
        for (key, value) in entries.iter_mut() {
            if let (true, Val::Seq(items)) = (key == "tags", value) {
                items.sort_by(|a, b| a.get("name").cmp(&b.get("name")));
            }
        }
    }
    val
}

/// Paths and servers in document order.
pub fn order(val: &Val) -> (Vec<String>, Vec<String>) {
    let paths = val.get("paths").map(|p| p.entries().iter().map(|e| e.0.clone()).collect()).unwrap_or_default();
    let servers = match val.get("servers") {
        Some(Val::Seq(items)) => items.iter().filter_map(|i| i.get("url").map(Val::text)).collect(),
        _ => vec![],
    };
    (paths, servers)
}

pub fn compare_docs(what: &str, actual: &Val, expected: &Val) {
    if order(actual) != order(expected) {
        fail("document-order", format!("{}: paths/servers {:?}, declared {:?}", what, order(actual), order(expected)));
    }
    let (a, e) = (normal(actual), normal(expected));
    if a != e {
        fail("document-content", format!("{}: emitted vs declared differ {}", what, a.diff(&e, "").unwrap_or_default()));
    }
}
