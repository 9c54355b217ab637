#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing the table)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique=None, note=None, na=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, na=na, observe=observe, hook=hook))


SYM = "concolic symbolic execution of the real Rust code over SMT finite-field terms (z3 QF_FF)"
SYMNOTE = ("Bounded solver verdict over all field values: the code runs on a symbolic BN254 scalar-field type, every "
           "branch on a symbolic value is a path condition, the solver proves each obligation on each path and that no "
           "input lies outside the explored paths. Trusts z3's finite-field theory, the symbolic field type, and that "
           "the code is generic in the field; sizes are bounded as the evidence file lists.")
TESTS = "The unit tests run a few random values at fixed sizes; "

exec(open(os.path.join(HERE, "tools", "table.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        if p["hook"]:
            a["hook_needed"] = p["hook"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
if HOOKS:
    m["hooks"] = HOOKS
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 run.py {p['id']}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
                            "technique": p["technique"] or SYM, "level": "model_checking",
                            "level_note": p["note"] or SYMNOTE})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
