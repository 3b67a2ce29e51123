#!/usr/bin/env python3
"""Single source of the property list: generates properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
DEFT = "exhaustive enumeration of a bounded choice tree on the real code (stateless model checking) against an independent reference model"
DEFN = "Every case of the stated bounded space is executed on the real code under ASan and UBSan; nothing is claimed beyond the bounds. Trusts the reference model in the harness and the sanitizers."
def prop(id, title, statement, over, text, why, files, mechanism, harness=None,
         level="model_checking", technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, harness=harness, level=level,
                  technique=technique or DEFT, note=note or DEFN, na=na))
exec(open(os.path.join(V, "tools", "proplist.py")).read())
for l in open(os.path.join(V, "tools", "enabled.txt")):
    i, h = l.split()
    for q in P:
        if q["id"] == i: q["harness"] = h

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["harness"]:
            checks.append({"property": p["id"],
                           "quick_cmd": "bin/check %s quick" % p["id"],
                           "thorough_cmd": "bin/check %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": p["level"],
                           "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "bin/setup",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks drive the public API of the libraries, rebuilt from "
                  "/repo's working tree with AddressSanitizer and UBSan. Known findings: known_findings.txt."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    h = {p["id"]: {"harness": p["harness"], "level": p["level"]} for p in P if p["harness"]}
    json.dump(h, open(os.path.join(V, "tools", "harness.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
if __name__ == "__main__":
    main()
