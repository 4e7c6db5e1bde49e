#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABY3 = "tf_encrypted/protocol/aby3/aby3.py"
ABY3T = "tf_encrypted/protocol/aby3/aby3_tensors.py"
FP = "tf_encrypted/protocol/aby3/fp.py"
POND = "tf_encrypted/protocol/pond/pond.py"
TRIP = "tf_encrypted/protocol/pond/triple_sources.py"
SNN = "tf_encrypted/protocol/securenn/securenn.py"
ODD = "tf_encrypted/protocol/securenn/odd_tensor.py"
PROT = "tf_encrypted/protocol/protocol.py"

TECH = "property-based testing (generated cases, explicit oracle, shrinking)"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, **kw):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files,
                 "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "observe_at": observe, "hook_needed": None},
        _tech=tech, _note=note, **kw))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])

built = {f[:-3] for f in os.listdir(os.path.join(HERE, "vf", "props"))
         if f.startswith("C") and f.endswith(".py")}
checks, na, lines = [], [], []
for p in P:
    q = {k: v for k, v in p.items() if not k.startswith("_")}
    assert len(q["title"]) <= 80, q["title"]
    lines.append(json.dumps(q))
    if p["id"] in built:
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["_tech"],
            "level": "exploration",
            "level_note": p["_note"],
        })
    else:
        na.append({"property": p["id"], "reason": p.get("_na", "no check built yet")})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: every check drives the public API "
              "of the unmodified working tree", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh rebuilds the custom ops from /repo's working tree (git-ignored "
             "build folders only), then runs python -m vf.run. Replay: "
             "bash check.sh <ID> --replay <file>. See DESIGN.md.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
