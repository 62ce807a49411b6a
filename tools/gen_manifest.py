#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SIM = "deterministic simulation with fault injection: "
checks = {
 "C01": ("seeded sink faults and interleaved emissions of random documents, prefix/completeness oracle",
         "Random documents and parts of them go through real serde_json/serde_yaml/ciborium and a recording serializer into sinks that fail, panic, write short, return zero or EINTR at seeded positions, or emit something themselves. Trusts serde_json, serde_yaml and ciborium; yaml errors are not compared by errno."),
 "C02": ("seeded panics at user-code points inside registrations and builder calls, interleaved callers, retries",
         "Crash at the n-th user-code point of a call, checked against canonical schemas, closure of links and the fault-free result after retries. Schemas are computed by an independent oracle (random graphs) or a reviewed golden file (derived types)."),
 "C03": ("seeded orders and interleavings of mentions over random type graphs, reference reachability model",
         "Registered names, schema content and references come from an independent evaluator of the type graph and a reviewed golden file. Types with equal names are excluded by the property."),
 "C04": ("seeded histories with crashes, link closure invariant after every call",
         "Every reference, registry and emitted document is searched for links after each call and after whole description-macro builds."),
 "C05": ("seeded competing callers, step-by-step comparison with a first-writer-wins map",
         "Callers compete for few names under a lock; refinement of a small reference map, including reads and crashed attempts."),
 "C06": ("seeded histories of registry changes with verification in between, independent link analysis",
         "Links planted at random depth in every schema position; the oracle walks an independent model tree."),
 "C07": ("seeded interleaved, nested, cloned and crashed builds compared with builds in a process of their own",
         "The build alone runs in a forked process; state leaking between builds of one process shows as a difference."),
 "C08": ("the same description under seeded hash seeds, clocks, environment, pid and schedules, byte comparison",
         "Ambient inputs are interposed libc symbols; a dependency on something outside them (e.g. cpuid) is not covered."),
 "C09": ("seeded declaration histories by interleaved callers with crashes and sink retries, reference document model",
         "Builder-type declarations are random; the description macro is covered by 7 written and 48 generated templates with random values. One known finding is reported."),
 "C10": ("seeded cyclic type graphs with crashes and retries, step bound from a reference evaluator, stack and process death detected",
         "Bounded work is measured in schema-code invocations; a run also fails if the process dies or exceeds its step budget."),
 "C11": ("seeded histories of compositions with injected conflicts, reference map",
         "Target state is compared with the reference after every call, successful or not."),
 "C12": ("derive expansion in real compiler processes under seeded hash seed, clock, pid, environment, company and order",
         "Random supported type definitions are expanded by rustc in two or three compilations and compared token by token. For definitions the macro rejects, the diagnostics are compared."),
 "C13": ("seeded mention histories and description builds with counted expressions, reference evaluator",
         "Counts of user-code runs are compared per call and in total with an independent evaluator."),
 "C14": ("seeded rounds of builds and emissions that fail at seeded points, live heap measured by a counting allocator",
         "Heap memory only, measured after three warm-up rounds. Rounds run one after another, on the main and on fresh threads, not interleaved with each other."),
}
pure = "A pure function of a type definition or value: no schedule, fault, crash point, clock or shared history is in its quantifier, so a simulator has nothing to vary. "
na = {
 "N01": pure + "It needs generation of types and values against a schema validator, not simulation.",
 "N02": pure + "It is a comparison of two string functions.",
 "N03": pure + "It is about diagnostics for one derive input at a time. Known gaps are listed in DESIGN.md.",
 "N04": pure + "It is a finite table of types.",
 "N05": pure + "It needs a document validator over inputs; C04 and C09 cover the parts that depend on histories.",
 "N06": pure + "C03 covers the part that depends on history (an override must not reach the shared schema).",
 "N07": pure + "It is decided by the type checker per definition.",
 "N08": pure + "C03 covers the part that depends on history (optional mentions must not alter the shared schema).",
}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert sorted(props) == sorted(list(checks) + list(na))
json.dump({
 "version": 1,
 "setup_cmd": "bash check.sh setup",
 "checks": [{"property": k, "quick_cmd": "bash check.sh %s quick" % k, "thorough_cmd": "bash check.sh %s thorough" % k,
             "technique": SIM + t, "level": "exploration",
             "level_note": "Seeded search, no exhaustiveness. " + n} for k, (t, n) in checks.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in na.items()],
 "notes": "No hooks in /repo: all seams are public traits or libc symbols interposed in the simulator. See DESIGN.md.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
