#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, otext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": otext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                  "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
M, X, L, D = "opg/src/models.rs", "opg/src/macros.rs", "opg/src/lib.rs", "opg_derive/src/opg.rs"
REG = ("schemas", "name -> schema registry that becomes components.schemas", "Components::schemas in " + M)
SEC = ("security_schemes", "name -> security scheme registry", "Components::security_schemes in " + M)

# ---- claimed: there is a schedule, a fault sequence, a crash point or an environment in the quantifier ----
p("C01", "Emission to a failing sink: success means complete, failure means a prefix",
  "Emitting a description (or any part of it) into a sink that misbehaves - write errors, short or interrupted writes, a full device, a serializer that rejects an item, a sink that panics - reports success only if the sink received the whole document, and otherwise reports the sink's error and sends nothing further, so that what the sink accepted is a prefix of the fault-free output. Element counts announced to the sink match the elements delivered. No attempt changes the description: emitting it again, or concurrently to another sink, yields exactly the fault-free output.",
  ["fault_sequences", "crash_points", "inputs", "schedules"],
  "every document, every sink, every position and kind of sink fault, every interleaving of concurrent emissions",
  "The tests only ever serialize a few documents into an in-memory String; no serializer call ever fails, so no error path is executed.",
  [M],
  [("serialize_ordered_entries / serialize_tags / serialize_parameters / serialize_path_elements", M),
   ("Serialize for RequestBody, Response, HttpMethod; serialize_model_reference_link / _any", M)],
  observe=["the serde::Serializer and std::io::Write the caller passes in"])
p("C02", "A registration that dies midway leaves nothing broken behind",
  "If user code that runs inside a registration or builder call (a hand-written schema, an example expression, a conversion of a name, text or security scheme) panics at any point, everything recorded before the call is unchanged, and nothing incomplete, and no entry linking to an unregistered name, is left behind. Repeating the calls once the fault is gone gives exactly the result of a history without faults.",
  ["crash_points", "histories", "fault_sequences", "schedules"],
  "every panic position inside every registration, for every sequence and interleaving of registrations, followed by retries",
  "No test panics inside a registration; the crash position and the history before and after it are unbounded.",
  [M, X, D],
  [("Components::mention_schema builds the schema before it publishes it", M),
   ("Components::add_model / mention_security_scheme convert before they insert", M),
   ("Operation::with_* convert before they assign", M)],
  [REG, SEC], ["Components::schemas and security_schemes after catch_unwind", "serialized Operation after catch_unwind"])
p("C03", "The registry does not depend on the order or interleaving of mentions",
  "For any set of mentions of types with distinct names, the resulting schema registry and the references handed back are the same in whatever order and interleaving callers make those mentions: the registry holds exactly the named types reachable through non-inlined mentions, each with the schema of the type itself. How a type is mentioned - optionally, boxed, inlined, in a container, with a per-use description, nullability, format or example - never alters the shared schema.",
  ["schedules", "histories", "programs"],
  "every set of types and mentions, every order and interleaving",
  "Each test performs its mentions in the one order written in the source and compares a single final text.",
  [M, X, L, D],
  [("Components::mention_schema / OpgModel::select_reference", M), ("impl_opg_model! generic_simple / generic_array / generic_dictionary / generic_tuple", X),
   ("field_model_reference, implement_type", D)],
  [REG], ["Components::schemas", "the ModelReference returned by mention_schema"])
p("C04", "Every schema link resolves, at every point of every history",
  "Whenever a mention or a whole API description build has returned - successfully or not - every schema link in the registry, in the reference handed back by a successful mention and in the emitted document has the form `#/components/schemas/<name>` with <name> present among the emitted schemas. This holds for types used through every built-in container and every derived type shape, for any interleaving of callers and after any number of failed attempts.",
  ["schedules", "histories", "crash_points", "programs"],
  "every type graph, every order of mentions, every interleaving, every failed attempt in between",
  "Tests inspect the registry of one API; they never look at it between mentions, after a failure, or through most containers.",
  [M, X, L, D],
  [("mention_schema registers what select_reference links to", M), ("container impls mention their element type", X + ", " + L),
   ("generated get_schema mentions every field type", D), ("serialize_model_reference_link", M)],
  [REG], ["$ref strings in the emitted document vs. its components.schemas"])
p("C05", "The first binding of a name wins and never changes",
  "Once a name is bound in the schema registry or in the security-scheme registry, no later mention or manual insertion by any caller changes or removes that binding, and an unbound name is bound by the first successful one. Every call behaves exactly like the same call on a first-writer-wins map, in the order in which callers got access; membership queries, verification and emission agree with that map and change nothing.",
  ["schedules", "histories", "fault_sequences"],
  "every history of mentions, manual insertions, scheme mentions and reads by any number of callers sharing one registry",
  "Tests insert each name once; no test has two callers competing for a name or reads between insertions.",
  [M],
  [("contains_key guard in mention_schema and mention_security_scheme, Entry::Vacant in add_model", M), ("contains_model", M)],
  [REG, SEC], ["Components::schemas, security_schemes, contains_model, returned names"])
p("C06", "Link verification is exact after any history",
  "At any point of any history, verifying the schemas succeeds if and only if every schema link anywhere in the registered schemas - at any nesting depth, in properties, additional properties, array items, oneOf/allOf/anyOf and inside inlined schemas - names a registered schema; when it fails it names one of the dangling links. Verification never changes the registry.",
  ["histories", "schedules", "inputs"],
  "every sequence of insertions and mentions, including those that create and later resolve forward links",
  "Two tests: one link that resolves and one top-level link that does not.",
  [M], [("Components::verify_schemas and the traverse methods", M)], [REG], ["Components::verify_schemas"])
p("C07", "Builds in one process are isolated from each other",
  "Registries and descriptions built in one process never influence each other: each yields exactly the result it yields when built alone, whether the builds are interleaved on several threads, nested inside each other's user code, forked from a common ancestor by cloning, or abandoned halfway by a panic.",
  ["schedules", "crash_points", "histories"],
  "every interleaving and nesting of any number of builds, every abandoned build",
  "Every test builds its own registry sequentially to completion in its own thread; interleaving inside a build needs control over user code that runs within it.",
  [M, X, D], [("all state lives in the Components / Opg value passed in; no globals", M), ("generated code keeps no state", D)],
  [REG, SEC], ["each build's registry and emitted document"])
p("C08", "Same description, same bytes: nothing ambient leaks into the document",
  "The emitted document is a function of what was described: building and emitting the same description again gives identical bytes whatever the hash-map seeds, wall and monotonic clock, environment variables, process and thread ids, thread schedule and number of earlier builds in the process.",
  ["configurations", "schedules", "histories"],
  "every value of every ambient source of nondeterminism, every schedule",
  "A test run sees one clock, one environment, and hash seeds it cannot choose; a one-in-a-thousand dependency looks like a pass.",
  [M, X, L, D], [("BTreeMap / Vec only: ordered containers in every emitted position", M)], [], ["bytes of YAML, JSON and CBOR emission, event stream of the serializer"])
p("C09", "The document holds exactly what was declared, exactly once",
  "After any history of declarations - by one or several interleaved callers, through the description macro or the public builder types, with failed attempts in between, and emitted through a sink that needs retries - the emitted document contains every successfully declared tag, server, path, operation, parameter, request body, response, callback, security requirement, security scheme and schema exactly once, at its place and with its declared content, and nothing that was not declared. Paths and servers keep declaration order.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every sequence of declarations with distinct identities, every interleaving of callers, every failed attempt",
  "One API test compares one document against one golden text.",
  [M, X],
  [("describe_api! rules", X), ("Serialize impls and skip_serializing_if conditions", M)],
  [], ["parsed JSON/YAML of the emitted document vs. a reference model of the acknowledged declarations"])
p("C10", "Registering recursive types finishes in bounded work",
  "Registering named types finishes after an amount of work bounded by the size of their type graph even when types refer to themselves or to each other in cycles (through at least one reference that is not inlined), under any interleaving of callers, and within the same bound when repeated after attempts that failed midway. It never overflows the stack.",
  ["programs", "schedules", "crash_points", "histories"],
  "every finite type graph including cyclic ones, every interleaving, every crash-and-retry history",
  "The only recursive type in the tests sits in a function that is not a test.",
  [M, X, D], [("mention_schema links to a name whose schema is still being built", M), ("implement_type", D)], [REG],
  ["number of user-code invocations until mention_schema returns"])
p("C11", "Composing object schemas is all-or-nothing",
  "Adding a property to an object schema or merging another object schema into it either succeeds and the target then has exactly its own plus the added properties and required names, or reports an error and leaves the target exactly as it was. This holds after every step of any history of successful and failing compositions by any number of callers, whichever property the conflict is on.",
  ["histories", "fault_sequences", "schedules"],
  "every history of add/merge calls with conflicts injected at any position",
  "No test ever makes a merge or an insertion fail.",
  [M], [("ModelObject::add_property, ModelObject::merge, Model::try_merge", M)], [], ["serialized target before and after each call"])
p("C12", "Derive expansion is reproducible",
  "The code generated by the derive macro for a type is a function of that type's definition alone: it does not change with the compiler process's hash seeds, clock or process id, nor with which other types are derived in the same compilation or in what order.",
  ["configurations", "schedules", "programs"],
  "every set and order of derive invocations, every hash seed of the compiler process",
  "Tests see whatever one compilation produced; a hash-order dependency only shows up when two compilations with different seeds are compared.",
  [D, "opg_derive/src/bound.rs", "opg_derive/src/dummy.rs", "opg_derive/src/ast.rs", "opg_derive/src/attr.rs"],
  [("with_bound uses hash sets for membership only and follows declaration order", "opg_derive/src/bound.rs"), ("wrap_in_const derives its name from the type only", "opg_derive/src/dummy.rs")],
  [], ["expanded source text of each type"])
p("C13", "User expressions and schema code run exactly once",
  "In a fault-free history, building a description evaluates every expression embedded in it exactly once, and a registry runs the schema code of a named type exactly once however often, by however many callers and in whatever order the type is mentioned; inlined uses run it once per use. No schema code or example expression runs for a non-inlined mention of a name that is already registered.",
  ["schedules", "histories", "programs"],
  "every description, every mention history, every interleaving",
  "Tests use pure expressions, for which evaluating twice or not at all is invisible.",
  [X, M, D], [("each macro rule uses its expression once", X), ("contains_key guard before get_schema in mention_schema", M)], [REG],
  ["counts of evaluations of instrumented expressions and schema functions"])

p("C14", "Finished and abandoned work does not accumulate in memory",
  "Repeating a history of mentions, description builds, clones and emissions - completed, or abandoned at any point by a panic in user code or by a failing sink - any number of times in one process does not make its live memory grow, once all that was built has been dropped. What the library keeps for good, if anything, is bounded independently of how often it is used.",
  ["histories", "crash_points", "fault_sequences"],
  "every history, repeated any number of times, with failures at any point",
  "Tests build each description once and never look at memory.",
  [M, X, D], [("no process-wide state; everything is owned by the description", M), ("macros build plain values", X)], [REG],
  ["live heap bytes and blocks of the process after each round"])

# ---- not claimed: pure functions of their input, no schedule, fault, clock or history in them ----
p("N01", "A derived schema describes what serde actually emits",
  "For every type deriving both the schema and serde serialization, and every supported attribute combination, each value's serialized form is valid against the derived schema.",
  ["programs", "inputs"], "every type definition, every value of it", "Tests compare golden texts for about fifteen types and never serialize a value.",
  [D, "opg_derive/src/attr.rs", "opg_derive/src/ast.rs"], [("serialize_* functions", D)])
p("N02", "Renaming agrees with serde",
  "For every identifier and every rename or rename_all attribute, the documented name equals the name serde uses.",
  ["inputs", "programs"], "every identifier and rule", "Tests cover four identifiers per rule.",
  ["opg_derive/src/case.rs", "opg_derive/src/attr.rs"], [("RenameRule, Name", "opg_derive/src/case.rs")])
p("N03", "Bad derive input is diagnosed, never ignored and never a macro panic",
  "Every malformed, unknown, duplicated or contradictory schema attribute and every unsupported type shape is rejected with a compile error that points at it.",
  ["programs"], "every derive input", "There are no compile-fail tests.",
  ["opg_derive/src/attr.rs", "opg_derive/src/parsing_context.rs", "opg_derive/src/ast.rs"], [("ParsingContext", "opg_derive/src/parsing_context.rs")])
p("N04", "Built-in types map to their documented schema",
  "Every standard-library, uuid and chrono type with built-in support has the schema type, format and nullability that matches its serialized form.",
  ["inputs"], "every built-in type", "Tests touch a handful of them.", [L, X], [("impl_opg_model! invocations", L)])
p("N05", "Every emitted document is valid OpenAPI 3.0.3",
  "Every document emitted for a description with well-formed inputs conforms to the OpenAPI 3.0.3 schema.",
  ["inputs"], "every description", "No validator is run.", [M, X], [("Serialize impls", M)])
p("N06", "Per-use overrides win over the type's own metadata, field before container",
  "A description, format, example, nullability or enum override given at a use site replaces the type's own value in the inlined schema and affects nothing else; field attributes win over variant and container attributes.",
  ["inputs", "programs"], "every combination of overrides", "Tests cover two combinations.", [M, D], [("apply_params", M), ("ContextParams::or", D)])
p("N07", "Derive bounds exactly the type parameters that need it",
  "The generated implementation compiles for every instantiation whose serialized fields support schemas and requires nothing of parameters used only in skipped or phantom fields.",
  ["programs"], "every generic definition", "Tests have two generic structs.", ["opg_derive/src/bound.rs"], [("with_bound", "opg_derive/src/bound.rs")])
p("N08", "Optional and nullable are documented as serialized",
  "A property is listed as required exactly if it is always present in the serialized object, and nullable exactly if it can be null.",
  ["programs", "inputs"], "every field type and attribute combination", "Tests cover three fields.", [D, X], [("object_type_description", D), ("generic_simple(nullable)", X)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
