#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, and how each is decided."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
COMMON = "TLA+ specification checked with TLC; every recorded execution of the real code is checked by TLC against it"
T = {
 "C01": "TLC-enumerated and random catalogues: the specification's PO reader must read the written text as the catalogue, and the code must read it back equal",
 "C02": "texts enumerated by TLC from the layout specification (all layouts, all reader options), plus seeded layouts; the code must read what the specification's reader reads",
 "C03": "token sequences and truncations enumerated by TLC, mutations and random bytes; acceptance must agree with the specification's reader",
 "C04": "TLC-enumerated and random catalogues x option settings (independence of the options is model-checked); the specification's reader of the written text must give the catalogue that the options specify",
 "C05": "TLC-enumerated and random catalogues: the specification's MO reader decodes the written file; the code must read it back",
 "C06": "TLC-enumerated and random catalogues: sorted tables, hash table and alignment of the written file, looked up by the specification's model of the gettext runtime",
 "C07": "MO files written by the specification in every layout, cut and damaged (TLC-enumerated), truncated, corrupted and random files; errors and strings must agree with the specification's MO reader",
}
claimed = json.load(open(os.path.join(V, "tools", "claimed.json")))
T.update(claimed)
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
            "technique": COMMON + ": " + T[p],
            "level": "model_checking",
            "level_note": "the specification is model-checked on small constants; the code is bound to it by trace validation, so the guarantee covers the executions explored, not all inputs"})
    else:
        m["not_applicable"].append({"property": p, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
