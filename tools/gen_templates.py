#!/usr/bin/env python3
"""Writes sim/src/templates_gen.rs: random uses of describe_api! with the document each should give."""
import random, sys
N = int(sys.argv[1]) if len(sys.argv) > 1 else 48
R = random.Random(20261118)
TYPES = {  # name -> Rust type
 n: n for n in """Leaf Plain Inl UsesInl SelfRef MutA MutB CycA CycB CycC NewTy NewStr NewOpt NewVec NewNew NewInl Tup StrEnum
 ReprEnum ExtEnum IntEnum IntBody AdjEnum Untagged Fields Std Deep UsesEnums RecEnum InlEnum UsesInlEnum Diamond DiamondSide
 DiamondSide2 NewNum Transp InlNew InlStr InlRepr InlInt RecUse InlAdj InlUn Opt2 InlExt InlTup UnMore UsesMore Wide Exs NewInt InlText BigAdj BigExt BigInt BigObj BigUn ChainAdN ChainExT ChainSt ChainTu ChainUnS NewMap NewObj NewUn8 NewVecUn UsesNew ExTup ExExt ExAdj ExUn ExInt""".split()}
TYPES["Gen"] = "Gen<Leaf>"
TYPES["GenRef"] = "GenRef<'static, Plain, StrEnum>"
TYPES["Mixed"] = "Mixed<'static, i32, [Leaf]>"
WRAP = ["%s", "Option<%s>", "Box<%s>", "Vec<%s>", "std::collections::HashMap<String, %s>", "Option<Box<%s>>", "Vec<Option<%s>>"]
METHODS = ["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"]
REASONS = {100: "Continue", 200: "OK", 201: "Created", 202: "Accepted", 204: "No Content", 301: "Moved Permanently", 304: "Not Modified",
           400: "Bad Request", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 409: "Conflict", 418: "I'm a teapot",
           429: "Too Many Requests", 500: "Internal Server Error", 503: "Service Unavailable", 299: "", 599: "", 999: "", 1: "", 2000: ""}
PRIMS = {"String": "string_schema()", "u32": 'int_schema("uint32")', "i64": 'int_schema("int64")', "u8": 'int_schema("uint8")'}

def q(s): return '"%s"' % s

class T:
    def __init__(self):
        self.texts = list(range(64)); R.shuffle(self.texts)
        self.keys = [i for i in self.texts if i % 2 == 0]; self.free = [i for i in self.texts if i % 2]
        self.bools = list(range(16)); R.shuffle(self.bools)
        self.directs = [0, 1, 2]; R.shuffle(self.directs)
        self.used = []; self.uses = []; self.n = 0; self.schemes = {}; self.literals = 0; self.locals = []; self.names = []
    def uniq(self, p): self.n += 1; return "%s%d" % (p, self.n)
    def text_index(self, key):
        l = self.keys if key or not self.free else self.free
        if not l: return None
        i = l.pop(); self.used.append("text %d" % i); return i
    def string(self, by_ref=False, key=False):
        """an expression that gives a text, and the text"""
        i = self.text_index(key) if R.random() < 0.75 else None
        if i is None:
            t = self.uniq("literal ") if key or R.random() < 0.8 else ""
            return q(t), q(t) + ".to_owned()"
        val = "v.texts[%d].clone()" % i
        if by_ref:
            x = R.choice(["&e(%d)", "&Conv(%d)", "e(%d).as_str()", "&format!(\"{}\", e(%d))", "&{ let x = e(%d); x }"])
        else:
            x = R.choice(["e(%d)", "Conv(%d)", "&e(%d)", "{ let x = e(%d); x }", "if true { e(%d) } else { String::new() }", "e(%d).as_str()"])
        return x % i, val
    def boolean(self):
        if self.bools and R.random() < 0.6:
            i = self.bools.pop(); self.used.append("bool %d" % i)
            return R.choice(["b(%d)", "!!b(%d)", "{ b(%d) }"]) % i, "v.bools[%d]" % i
        x = R.choice(["true", "false"]); return x, x
    def type(self, paths=False):
        """a type and its schema"""
        if R.random() < 0.15:
            k = R.choice(list(PRIMS)); return k, PRIMS[k]
        n = R.choice(list(TYPES)); w = 0 if R.random() < 0.55 else R.randrange(1, len(WRAP))
        self.uses.append(n)
        ty = TYPES[n]
        if ty == n and R.random() < 0.15: ty = "crate::zoo_derive::" + n
        return WRAP[w] % ty, "use_of(%s, %d)" % (q(n), w)
    def scheme(self):
        if self.schemes and (len(self.schemes) == 4 or R.random() < 0.5): return R.choice(list(self.schemes))
        n = self.uniq("scheme"); self.schemes[n] = len(self.schemes); return n
    def security(self):
        names = []; toks = []
        for _ in range(R.choice([1, 1, 2, 3])):
            if R.random() < 0.4:
                n = "lit%d" % R.randrange(3); t = q(n)
            else:
                n = self.scheme(); t = n
            if n in names: continue
            names.append(n); toks.append(t)
        return " && ".join(toks), "sec(&[%s])" % ", ".join(map(q, sorted(names)))
    def params(self, scope):
        """parameters; other scopes may have used their names"""
        toks = []; exp = []
        for _ in range(R.choice([0, 1, 2, 3])):
            again = [n for n in self.names if n not in scope]
            if again and R.random() < 0.35:
                n = R.choice(again); scope.append(n); name = q(n) + ".to_owned()"
                if R.random() < 0.5:
                    head = "(header %s)" % q(n); at, req, schema = 1, "true", "string_schema()"
                else:
                    ty, schema = self.type(); head = "(query %s: %s)" % (n, ty); at, req = 0, "false"
            elif R.random() < 0.5:
                x, name = self.string(key=True); head = "(header %s)" % x; at, req, schema = 1, "true", "string_schema()"
            else:
                n = self.uniq("q"); self.names.append(n); scope.append(n); ty, schema = self.type(); head = "(query %s: %s)" % (n, ty); name = q(n) + ".to_owned()"; at, req = 0, "false"
            desc, dep = "None", "false"
            props = []
            if R.random() < 0.6:
                kinds = R.sample(["description", "required", "deprecated", "schema"], R.randrange(0, 5))
                for k in kinds:
                    if k == "description":
                        x, val = self.string(); desc = "Some(%s)" % val
                    elif k == "required": x, req = self.boolean()
                    elif k == "deprecated": x, dep = self.boolean()
                    else: x, schema = self.type()
                    props.append("%s: %s" % (k, x))
                head += ": { %s }" % ", ".join(props)
            toks.append(head)
            exp.append("(%s, RParam { description: %s, at: %d, required: %s, deprecated: %s, schema: Some(%s) })" % (name, desc, at, req, dep, schema))
        return ", ".join(toks), exp
    def body(self):
        ty, schema = self.type()
        if R.random() < 0.4: return ty, 'Some((String::new(), true, %s))' % schema
        props = ["schema: " + ty]; desc, req = "String::new()", "true"
        if R.random() < 0.5: n = self.uniq("body "); desc = q(n) + ".to_owned()"; props.append("description: " + q(n))
        if R.random() < 0.5: req = R.choice(["true", "false"]); props.append("required: " + req)
        R.shuffle(props)
        return "{ %s }" % ", ".join(props), "Some((%s, %s, %s))" % (desc, req, schema)
    def operation(self, depth):
        scope = []; props = []; f = {}; lists = {"tags": [], "security": [], "params": [], "responses": [], "callbacks": []}
        for k, fld in [("summary", "summary"), ("operationId", "operation_id"), ("description", "description")]:
            if R.random() < 0.35:
                x, val = self.string(by_ref=True); props.append("%s: %s" % (k, x)); f[fld] = "Some(%s)" % val
        if R.random() < 0.3:
            x, val = self.boolean(); props.append("deprecated: " + x); f["deprecated"] = val
        if R.random() < 0.4:
            x, val = self.body(); props.append("body: " + x); f["body"] = val
        later = []  # lists keep the order of their sections
        for _ in range(R.choice([0, 0, 1, 2])):
            n = [R.choice(["alpha", "beta", "gamma", "delta"]) for _ in range(R.randrange(0, 3))]
            later.append(("tags", "tags: { %s }" % ", ".join(n), ["%s.to_owned()" % q(x) for x in n]))
        for _ in range(R.choice([0, 0, 1, 2])):
            alts = [self.security() for _ in range(R.randrange(0, 4))]
            later.append(("security", "security: { %s }" % ", ".join(a for a, _ in alts), [b for _, b in alts]))
        for _ in range(R.choice([0, 1, 1, 2])):
            t, x = self.params(scope); later.append(("params", "parameters: { %s }" % t, x))
        for c in R.sample(sorted(REASONS), R.randrange(0, 5)):
            reason = REASONS[c]; head = str(c)
            if R.random() < 0.3: reason = self.uniq("response "); head += "(%s)" % q(reason)
            k = R.random()
            if k < 0.15: x, s = "None", "None"
            elif k < 0.25: x, s = "()", "Some(null_schema())"
            elif k < 0.35: x, s = "{ None }", "None"
            elif k < 0.45 and self.directs:
                i = self.directs.pop(); self.used.append("direct %d" % i)
                x, s = "{ Some(direct(%d)) }" % i, "Some(RSchema::Raw(direct_schema(%d)))" % i
            else:
                x, s = self.type(); s = "Some(%s)" % s
            later.append(("responses", "%s: %s" % (head, x), ["response(%d, %s, %s)" % (c, q(reason), s)]))
        if depth and R.random() < 0.4:
            for _ in range(R.choice([1, 1, 2])):
                toks, exps = [], []
                for _ in range(R.randrange(0, 3)):
                    name = self.uniq("cb"); lit = R.random() < 0.5
                    if lit: name += R.choice(["", " x", "/{$request.body#/url}"])
                    paths = [self.path(depth - 1, "c") for _ in range(R.randrange(0, 3))]
                    toks.append("%s: { %s }" % (q(name) if lit else name, ", ".join(p for p, _, _ in paths)))
                    exps.append("(%s.to_owned(), vec![%s])" % (q(name), ", ".join("(%s, %s)" % (b, c) for _, b, c in paths)))
                later.append(("callbacks", "callbacks: { %s }" % ", ".join(toks), exps))
        props = [(None, p, []) for p in props] + later
        R.shuffle(props)
        for k, _, xs in props:
            if k: lists[k] += xs
        for k, xs in lists.items(): f[k] = "vec![%s]" % ", ".join(xs)
        t = ", ".join(p for _, p, _ in props)
        if props and R.random() < 0.4: t += ","
        return t, "ROperation { %s, ..Default::default() }" % ", ".join("%s: %s" % kv for kv in f.items())
    def path(self, depth, prefix):
        segs = [(q(self.uniq(prefix)),) * 2]; toks = []; exp = []; params = []; seen = {}; named = []
        segs = []
        n = self.uniq(prefix); toks.append(q(n)); exp.append(n)
        for _ in range(R.choice([0, 0, 1, 2, 3, 4])):
            k = R.random()
            if k < 0.35:
                n = R.choice(["x", "y.z", "v1", "a b"]); toks.append(q(n)); exp.append(n)
            elif k < 0.6:
                name = R.choice([x for x in TYPES if TYPES[x] == x and (x.startswith("Inl") or R.random() < 0.6)]); ty = name
                if seen and R.random() < 0.5: name = R.choice(sorted(seen.values())); ty = name
                if R.random() < 0.3: ty = "crate::zoo_derive::" + name
                low = name[0].lower() + name[1:]
                again = low in seen
                seen[low] = name; self.uses.append(name); toks.append(ty); exp.append("{%s}" % low)
                if not again: params.append("(%s.to_owned(), param(2, true, of(%s)))" % (q(low), q(name)))
            elif named and R.random() < 0.4:
                n, ty, uses = R.choice(named); self.uses += uses; toks.append("{%s: %s}" % (n, ty)); exp.append("{%s}" % n)
            else:
                before = len(self.uses)
                n = self.uniq("id"); ty, schema = self.type(); toks.append("{%s: %s}" % (n, ty)); exp.append("{%s}" % n)
                named.append((n, ty, self.uses[before:]))
                params.append("(%s.to_owned(), param(2, true, %s))" % (q(n), schema))
        self.names += sorted(set(seen) - set(self.names)) + [n for n, _, _ in named if n not in self.names]
        if R.random() < 0.3: toks, exp = self.rotate(toks, exp)
        props = []; f = {}
        for k in ("summary", "description"):
            if R.random() < 0.3:
                n = self.uniq("path "); props.append("%s: %s" % (k, q(n))); f[k] = "Some(%s.to_owned())" % q(n)
        if R.random() < 0.4:
            t, x = self.params(sorted(seen) + [n for n, _, _ in named]); props.append("parameters: { %s }" % t); params += x
        ops = []
        for m in R.sample(range(8), R.choice([0, 1, 1, 2, 3])):
            t, x = self.operation(depth); props.append("%s: { %s }" % (METHODS[m], t)); ops.append("(%d, %s)" % (m, x))
        R.shuffle(props)
        f["ops"] = "vec![%s]" % ", ".join(ops); f["params"] = "vec![%s]" % ", ".join(params)
        t = ", ".join(props)
        if props and R.random() < 0.3: t += ","
        return "(%s): { %s }" % (" / ".join(toks), t), "lit(&[%s])" % ", ".join(map(q, exp)), "RPathValue { %s, ..Default::default() }" % ", ".join("%s: %s" % kv for kv in f.items())
    def rotate(self, toks, exp):
        k = R.randrange(len(toks)); return toks[k:] + toks[:k], exp[k:] + exp[:k]
    def sections(self):
        out = []; decls = []
        info = []; vals = {}
        for k in ("title", "version", "description"):
            if k == "description" and R.random() < 0.5: vals[k] = "None"; continue
            if k != "description" and R.random() < 0.1: vals[k] = "String::new()"; continue
            x, val = self.string(); info.append("%s: %s" % (k, x)); vals[k] = "Some(%s)" % val if k == "description" else val
        R.shuffle(info)
        decls.append("Decl::Info(%s, %s, %s)" % (vals["title"], vals["description"], vals["version"]))
        if info: out.append("info: { %s }" % self.comma(info))
        for _ in range(R.choice([0, 1, 1, 2])):
            toks = []
            for _ in range(R.randrange(0, 4)):
                n = self.uniq("tag"); d = "None"; t = n
                if R.random() < 0.6: x, val = self.string(); t += "(%s)" % x; d = "Some(%s)" % val
                toks.append(t); decls.append("Decl::Tag(%s.to_owned(), %s)" % (q(n), d))
            out.append("tags: { %s }" % self.comma(toks))
        return out, decls
    def comma(self, items):
        return ", ".join(items) + ("," if items and R.random() < 0.4 else "")
    def rest(self, kind):
        decls = []
        if kind == "servers":
            toks = []
            for _ in range(R.randrange(0, 4)):
                def one(p):
                    i = self.text_index(False) if R.random() < 0.5 else None
                    if i is None:
                        n = self.uniq(p); return q(n), q(n) + ".to_owned()"
                    n = self.uniq("local"); self.locals.append("let %s = e(%d);" % (n, i)); return n, "v.texts[%d].clone()" % i
                t, u = one("http://"); d = "None"
                if R.random() < 0.5: x, val = one("server "); t += "(%s)" % x; d = "Some(%s)" % val
                toks.append(t); decls.append("Decl::Server(%s, %s)" % (u, d))
            return "servers: { %s }" % self.comma(toks), decls
        if kind == "security_schemes":
            toks = []
            for _ in range(R.randrange(0, 4)):
                desc = "None"; props = []
                def describe():
                    nonlocal desc
                    if R.random() < 0.5: x, val = self.string(); desc = "Some(%s)" % val; props.append("description: " + x)
                if R.random() < 0.5:
                    n = self.uniq("http "); kind2 = R.choice(["Basic", "Bearer"]); props.append("scheme: " + kind2); fmt = "None"
                    describe()
                    if kind2 == "Bearer" and R.random() < 0.5: x, val = self.string(); fmt = "Some(%s)" % val; props.append("bearer_format: " + x)
                    R.shuffle(props)
                    toks.append("(http %s): { %s }" % (q(n), ", ".join(props)))
                    decls.append("Decl::Scheme(%s.to_owned(), %s)" % (q(n), "RScheme::Basic(%s)" % desc if kind2 == "Basic" else "RScheme::Bearer(%s, %s)" % (fmt, desc)))
                else:
                    x, key = self.string(key=True); at = 1
                    nx, name = self.string(); props.append("name: " + nx)
                    if R.random() < 0.6: at = R.randrange(4); props.append("parameter_in: " + ["Query", "Header", "Path", "Cookie"][at])
                    describe(); R.shuffle(props)
                    toks.append("(apiKey %s): { %s }" % (x, ", ".join(props)))
                    decls.append("Decl::Scheme(%s, RScheme::ApiKey(%d, %s, %s))" % (key, at, name, desc))
            return "security_schemes: { %s }" % ", ".join(toks), decls
        toks = []
        for _ in range(R.randrange(0, 4)):
            t, p, x = self.path(1, "p"); toks.append(t); decls.append("Decl::Path(%s, %s)" % (p, x))
        return "paths: { %s }" % self.comma(toks), decls

out = ["// Written by tools/gen_templates.py; do not edit.", "use super::*;", "", "pub const COUNT: usize = %d;" % N, ""]
for k in range(N):
    t = T(); secs, decls = t.sections()
    for kind in R.choice([["paths"], ["paths", "servers"], ["paths", "paths"], ["security_schemes", "paths"], ["servers", "security_schemes", "paths"], ["paths", "servers", "paths", "servers"]]):
        s, d = t.rest(kind); secs.append(s); decls += d
    # sections in any order; servers and paths keep theirs among themselves
    order = list(range(len(secs))); R.shuffle(order)
    for kind in ("servers", "paths"):
        pos = [i for i, s in enumerate(order) if secs[s].startswith(kind)]; vals = sorted(order[i] for i in pos)
        for i, s in zip(pos, vals): order[i] = s
    secs = [secs[i] for i in order]
    for n, i in t.schemes.items(): decls.append("Decl::Scheme(%s.to_owned(), v.schemes[%d].clone())" % (q(n), i))
    out.append("#[allow(unused_variables, clippy::all)]\nfn t%d() -> Opg {" % k)
    out += ["    let %s = scheme(%d);" % (n, i) for n, i in t.schemes.items()] + ["    " + l for l in t.locals]
    out.append("    describe_api! {\n        %s%s\n    }\n}" % (",\n        ".join(secs), R.choice(["", ","])))
    out.append("\n#[allow(unused_variables)]\nfn x%d(v: &Values) -> Vec<Decl> {\n    vec![\n        %s,\n    ]\n}" % (k, ",\n        ".join(decls)))
    out.append("const U%d: &[&str] = &[%s];" % (k, ", ".join(map(q, t.uses))))
    out.append("const E%d: &[&str] = &[%s];\n" % (k, ", ".join(map(q, t.used))))
def table(name, ty, p): return "pub const %s: [%s; COUNT] = [%s];" % (name, ty, ", ".join("%s%d" % (p, k) for k in range(N)))
out += [table("BUILD", "fn() -> Opg", "t"), table("DECLS", "fn(&Values) -> Vec<Decl>", "x"), table("USES", "&[&str]", "U"), table("EXPRS", "&[&str]", "E")]
open("/verif/sim/src/templates_gen.rs", "w").write("\n".join(out) + "\n")
