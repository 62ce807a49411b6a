#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs which the checks missed when they were planted, and what was added for them
missed = {
    "b38": "required names that are no properties", "b64": "names with module paths", "b72": "additional properties in merges",
    "b74": "repeated path parameters of inlined types", "b79": "definitions with many variants", "b82": "examples with odd texts",
    "b87": "floods of declarations and holes in the heap", "b91": "long chains of newtypes and of every other shape",
    "b100": "operations described again", "b105": "emissions while unwinding", "b106": "templates which repeat parameter names",
    "b108": "schemes named like links", "b110": "compilations from other folders", "b114": "clocks of stalled processes",
}
missed.update(json.load(open(os.path.join(root, "tools/missed.json"))) if os.path.exists(os.path.join(root, "tools/missed.json")) else {})
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    key = d.split("-")[0]
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {('at first missed; added: ' + missed[key]) if key in missed else ''} |")
text = f"""## Planted bugs

`seeded/` holds {len(rows)} changes, each with a demonstration; every one is caught by the quick check of its own property
(`tools/try_bugs.sh`). Those which a check missed when they were planted led to the additions named in the last column.
Properties overlap (a dangling link breaks C04 and usually C02 or C03), so most are also caught by other checks.

| change | caught by | needs | |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
s = s[: s.index("## Planted bugs")] + text
open(path, "w").write(s)
