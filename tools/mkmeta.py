#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (keeps the two in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/boost/astronomy/"
P = []   # (id, title, statement, over, qtext, why, files, mechanism[(name, where)], observe, check or None, technique, note/reason)


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, na=na, state=state))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

lines, checks, na = [], [], []
for p in P:
    a = {"files": [I + f for f in p["files"]], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                             "why_tests_cant": p["why"], "anchors": a}))
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: checks compile witness units against /repo's headers with clang, extract value graphs from LLVM IR (or query the compiler's accept/reject verdict, "
                    "AST and symbol tables) and decide the obligations on those; nothing from /repo is executed."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "claimed", len(na), "not applicable")
