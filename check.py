#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of /repo's current source.

Exit 0: every obligation that was decided holds.  Exit 1 with a VIOLATION line: at least one
construct of the source breaks the property.  Exit 2: nothing could be decided.
"""
from __future__ import annotations

import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known_findings(prop):
    """Lines 'finding: property=<id> rule=<rule> construct=<construct> :: <what>'."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line:
                head, _, what = line[len("finding: "):].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                out.append((d.get("rule"), d.get("construct"), what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = os.path.join(HERE, "evidence", a.id + ".json")
    replay = os.path.join(HERE, "evidence", a.id + ".violations.txt")
    for f in (evidence, replay):
        if os.path.exists(f):
            os.remove(f)

    from rules import registry
    from sa.core import run_property
    from sa.program import AnalysisBroken, Program

    p = registry.P[a.id]
    broken_program = None
    try:
        prog = Program()
    except (AnalysisBroken, SyntaxError, OSError) as e:
        broken_program = str(e)
    if broken_program is not None:
        print(f"UNDECIDED property={a.id}: the program could not be read: {broken_program}")
        return 2
    ctx = run_property(a.id, registry.rule_functions(a.id), "", a.tier, prog)

    known = known_findings(a.id)
    fresh, listed = [], []
    for v in ctx.violations:
        k = next((k for k in known if k[0] == v[0] and k[1] == v[1].replace(" ", "_")), None)
        (listed if k else fresh).append((v, k))
    decided = sorted({o.split(":", 1)[0] for o in ctx.obligations})
    stats = ctx.stats()
    coverage = {
        "explanation": (
            f"Static analysis of the neps package as it is in the working tree ({len(prog.modules)} modules parsed). "
            f"Rules applied: {', '.join(p['rules'])}. Each rule derives its obligations from the source by abstract "
            "interpretation (all paths of the functions it starts from, loops generalised, unknown calls returning or raising "
            "anything) and reports the construct that breaks one."
        ),
        "rules_applied": len(p["rules"]),
        "rules_decided": len(decided),
        "obligations_checked": len(ctx.obligations),
        **stats,
        **ctx.counts,
        "samples": ctx.obligations[:12],
        "undecided": [f"{r}: {m.strip().splitlines()[-1][:300]}" for r, m in ctx.broken],
        "known_findings": [k[2] for _, k in listed],
    }
    json.dump(
        {
            "property": a.id,
            "tier": a.tier,
            "seed": seed,
            "level": "other",
            "coverage": coverage,
            "assumptions": p["assumes"],
            "wall_s": round(time.time() - t0, 3),
            "violations": len(fresh),
        },
        open(evidence, "w"),
        indent=1,
    )
    for _, k in listed:
        print(f"KNOWN-FINDING: property={a.id} {k[2]}")
    for r, m in ctx.broken:
        print(f"UNDECIDED property={a.id} rule={r}: {m.strip().splitlines()[-1][:300]}")
    print(f"{a.id}: {len(ctx.obligations)} obligations, {stats['functions_analysed']} functions, {stats['abstract_paths']} paths, {stats['call_sites']} call sites, {round(time.time() - t0, 1)} s")
    if fresh:
        with open(replay, "w") as fh:
            for v, _ in fresh:
                fh.write(f"rule {v[0]}\nconstruct {v[1]}\n{v[2]}\n")
                for line in v[3] or []:
                    fh.write("    " + line + "\n")
                fh.write("\n")
        for v, _ in fresh[:20]:
            print(f"  {v[0]} | {v[1]} | {v[2][:400]}")
        print(f"VIOLATION property={a.id} replay={replay}")
        return 1
    if not ctx.obligations:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
