#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
AI = ("Decided on the typed program clang resolves from /repo's current sources by path-partitioned abstract interpretation; "
      "loops and recursion are followed to a bound, library calls through models, undecided obligations are listed in the evidence and never reported. ")


def P(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks are static: check.py parses /repo's current sources with clang and decides the obligations of one property. "
             "No hooks in /repo. Exit 3 (never a verdict) means the sources could not be analysed at all.",
}
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": p["tech"], "level": "other", "level_note": AI + (p["note"] or "")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "claimed,", len(man["not_applicable"]), "not applicable")
