#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), check=None, na=None):
    assert len(title) <= 80, title
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                   _check=check, _na=na))


exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PR:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang-18 --version >/dev/null && gcc --version >/dev/null", checks=[], not_applicable=[],
           notes="Contracts live in contracts/, the verification-condition generator in vc/, native replay harnesses in native/. No hooks in /repo.")
for p in PR:
    c = p["_check"]
    if c and os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")):
        man["checks"].append(dict(property=p["id"], quick_cmd="python3-vt check.py %s" % p["id"], thorough_cmd="python3-vt check.py %s --thorough" % p["id"],
                                  evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c.get("level", "proof"), level_note=c["note"]))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason=p["_na"] or "check not built yet"))
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PR), "properties,", len(man["checks"]), "checks")
