"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, VERIF
with open(VERIF + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                                                      **({"observe_at": p["observe"]} if p["observe"] else {})))) + "\n")
m = dict(version=1, setup_cmd="python3 /verif/sa/setup.py",
         checks=[dict(property=p["id"], quick_cmd="python3 /verif/sa/check.py %s --tier quick" % p["id"],
                      thorough_cmd="python3 /verif/sa/check.py %s --tier thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique="static analysis: " + p["technique"], level="other", level_note=p["note"])
                 for p in P if not p["na"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
         notes="All checks: python3 /verif/sa/check.py ALL. The checks compile /repo's working tree with a rustc driver which exports the MIR (build output under /verif/build) and interpret it abstractly.")
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
