#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from rules/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import registry as R  # noqa: E402


def line(p):
    assert len(p["title"]) <= 80, p["title"]
    return {
        "id": p["id"],
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    }


props = [line(p) for p in R.P.values()] + [line(p) for p in R.NOT_APPLICABLE]
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 11)'",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": "other",
            "level_note": "Static analysis of the source: exact on the listed rules (every path of the analysed functions, loops generalised); assumes "
            + "; ".join(p["assumes"])
            + ". Anything the analysis cannot follow is reported as UNDECIDED in the output and evidence, not as a violation.",
        }
        for p in R.P.values()
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in R.NOT_APPLICABLE],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
