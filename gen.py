#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the LLVM IR extracted from /repo (vf: symbolic weakest-precondition style executor, inductive loop invariants, callee contracts, z3)"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, level="proof", observe=None, tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, observe=observe, tech=tech))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NA.append((id, reason))


exec(open(os.path.join(HERE, "proplist.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"],
                                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                "observe_at": p["observe"] or ["public API, compiled from the working tree"], "hook_needed": None}}) + "\n")
    nas = {a for a, b in NA}
    checks = [{"property": p["id"], "quick_cmd": "python3-vt check.py %s" % p["id"], "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
               "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] not in nas]
    m = {"version": 1, "setup_cmd": "python3-vt selftest.py", "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "No hooks: the checks extract IR from the unmodified sources of /repo on every run."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


main()
