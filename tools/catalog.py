#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None,
         state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, technique=technique, note=note, na=na,
                      state=state or []))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

NOTE = ("Covers every function, path and call site of the compiled sources in the abstraction "
        "described in DESIGN.md; trusts clang's AST and the models of library calls listed there. ")


def main():
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "python3 check.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": NOTE + (p["note"] or "")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
                   "not_applicable": na,
                   "notes": "Static analysis only; see DESIGN.md. Generated by tools/catalog.py."},
                  f, indent=1)
        f.write("\n")


main()
