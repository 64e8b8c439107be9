#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md (between the markers) from rules/registry.py."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import registry as R  # noqa: E402

BOUNDS = {
    "worker": "every path of the worker loop, any number of iterations (fixpoint over a typestate)",
    "store": "every path; loops generalised",
    "state": "every path; loops generalised",
    "records": "every field of every record, symbolic values",
    "evaluation": "every path; every kind of user result, symbolic values",
    "api": "every argument set alone, from Python and from YAML, over symbolic marker values; every shipped searcher file",
    "helpers": "every path; chains of up to three predecessors",
    "randomness": "every function reachable from a proposal",
    "space": "every kind of hyperparameter, symbolic values and bounds",
    "spaceio": "every kind of YAML and ConfigSpace entry, symbolic values",
    "searchspace": "two symbolic hyperparameters over every pair of kinds",
    "searchers": "every path; one generalised observation, tables of up to four literal configurations",
    "encoding": "three symbolic hyperparameters, two to five choices",
    "status": "literal sets of up to five trials in every state",
    "proposals": "literal sets of trial ids, symbolic configurations",
    "models": "literal sets of trials, losses and costs, evaluated as tables",
}


def doc(r):
    m, n = r.rsplit(".", 1)
    return " ".join((getattr(importlib.import_module("rules." + m), n).__doc__ or n).split())


def section():
    out = []
    for p in R.P.values():
        out.append(f"### {p['id']}: {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append(f"*Decided by* {p['technique']}:\n")
        mods = []
        for r in p["rules"]:
            out.append(f"- `{r}`: {doc(r)}")
            m = r.split(".")[0]
            if m not in mods:
                mods.append(m)
        out.append("")
        out.append("*Bounds:* " + "; ".join(f"{m}: {BOUNDS[m]}" for m in mods if m in BOUNDS) + ".")
        out.append(f"*Quantifies over* {p['quant']}. *Tests cannot settle it:* {p['why']}\n")
    out.append("### Not applicable\n")
    for p in R.NOT_APPLICABLE:
        out.append(f"- **{p['id']}** {p['title']}: {p['reason']}")
    return "\n".join(out) + "\n"


B, E = "<!-- generated: properties -->\n", "<!-- end generated -->\n"
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
if B in s:
    s = s[: s.index(B) + len(B)] + section() + s[s.index(E) :]
else:
    s += "\n## Properties and how each is decided\n\n" + B + section() + E
open(f, "w").write(s)
