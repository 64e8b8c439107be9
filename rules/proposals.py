"""Rules about what the searchers propose, and from what."""
from __future__ import annotations

import ast

from rules.algebra import Norm
from rules.searchers import searchers
from rules.store import tail
from rules.tables import NAN, Table, Unfollowed, ev, isnan
from sa.core import AnalysisBroken, fz
from sa.terms import C, FALSE, NONE, TRUE, show, subterms

P = lambda n: ("p", n)
SELF = P("self")
LIT = 40


def lit(*kv):
    return ("dict", tuple((C(k), v) for k, v in kv))


def new(q, **f):
    return ("new", q, tuple(sorted(f.items())))


def trials(*ids):
    return lit(*((i, P(f"trial.{i}")) for i in ids))


def proposed(ctx, p, where):
    """Fields of the proposal a path returns."""
    v = fz(p, p.outcome[1])
    if v[0] == "new" and v[1].endswith("SampledConfig"):
        return dict(v[2])
    if v[0] in ("tup", "list") and len(v[1]) in (2, 3):
        return dict(zip(("config", "id", "previous_config_id"), v[1]))
    raise AnalysisBroken(f"{where}: the proposal is not followed: {show(v)[:200]}")


def plain(t):
    """A literal id."""
    if t[0] == "c" and isinstance(t[2], str):
        return t[2]
    if t[0] == "fstr":
        out = ""
        for x in t[1]:
            if isinstance(x, str):
                out += x
            elif x[0] == "c":
                out += str(x[2])
            elif x[0] == "fv" and x[1][0] == "c":
                out += str(x[1][2])
            else:
                return None
        return out
    if t[0] == "op" and t[1] == "str" and t[2][0] == "c":
        return str(t[2][2])
    return None


def outside(ctx, f):
    """Everything but the function itself and private helpers of its class."""
    mine = set(f.cls.mro()) if f.cls else set()
    return frozenset(
        q for q, g in ctx.prog.funcs.items() if q != f.qual and not (g.cls in mine and g.cls is not None and g.name.startswith("_") and not g.name.startswith("__")) and not (g.cls is None and g.module.name == f.module.name and g.name.startswith("_"))
    )


def simple(ctx):
    """Searchers that propose whole configurations from the number of trials."""
    out = [c for c in searchers(ctx) if c.find_method("get_config_and_ids") is None and c.name != "IFBO"]
    ctx.need({"RandomSearch", "BayesianOptimization", "GridSearch"} <= {c.name for c in out}, "the searchers that propose whole configurations")
    return out


def fresh_ids(ctx):
    """Every searcher names its proposal with an id that no recorded trial has."""
    for c in simple(ctx):
        f = c.find_method("ask")
        ctx.ob(f"{c.name}: the ids of successive proposals are all different")
        ids = []
        for n in range(8):
            got = set()
            for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), self_term=SELF, exact_self=c, args={"trials": trials(*ids)}):
                if p.outcome[0] != "return":
                    continue
                d = proposed(ctx, p, f.qual)
                i = plain(d.get("id", NONE))
                if i is None:
                    raise AnalysisBroken(f"{f.qual}: the id is not followed: {show(d.get('id', NONE))[:200]}")
                if i in ids:
                    ctx.viol(f.qual, f"with trials {ids} recorded, the next one is called {i!r}", p)
                if d.get("previous_config_id", NONE) != NONE:
                    prev = plain(d["previous_config_id"])
                    if prev is not None and prev not in ids:
                        ctx.viol(f.qual, f"with trials {ids} recorded, the next one continues {prev!r}", p)
                got.add(i)
            ctx.need(got, f"{c.name}.ask proposes nothing after {n} trials")
            nxt = sorted(got - set(ids))
            if not nxt:
                break
            ids.append(nxt[0])


# ------------------------------------------------------------------ ifbo
IFBO = "neps.optimizers.multi_fidelity.ifbo.IFBO"


def ifbo_paths(ctx, ids):
    f = ctx.func(IFBO + ".ask")
    models = {
        "encode_ftpfn": ("tup", (P("X"), P("y"))),
        "decode_ftpfn_data": ("list", (("tup", (P("row.id"), P("row.fid"), P("row.config"))),)),
    }
    return f, ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), models=models, args={"trials": trials(*ids)})


def ifbo_ids(ctx):
    """ifbo starts new configurations under new numbers and continues others by exactly one step."""
    ctx.ob("IFBO.ask: a new configuration gets a number no trial has, at the first step")
    ctx.ob("IFBO.ask: a continued configuration is one step after the trial it names, at the fidelity of that step")
    ixd, fidd = ("a", SELF, "_budget_ix_domain"), ("a", SELF, "_fid_domain")
    kinds = set()
    for ids in ((), ("0_0",), ("0_0", "1_0", "0_1"), ("10_0", "2_0", "9_0"), ("3_0", "3_12", "1_0")):
        f, ps = ifbo_paths(ctx, ids)
        for p in ps:
            if p.outcome[0] != "return":
                continue
            d = proposed(ctx, p, f.qual)
            i, prev = d.get("id", NONE), d.get("previous_config_id", NONE)
            if prev == NONE:
                kinds.add("new")
                s = plain(i)
                if s is None:
                    if P("row.id") in set(subterms(i)):
                        ctx.viol(f.qual, f"a configuration that is continued names no trial it continues: {show(i)[:200]}", p)
                        continue
                    raise AnalysisBroken(f"the id of a new configuration: {show(i)[:200]}")
                num, _, step = s.partition("_")
                if num in {x.partition("_")[0] for x in ids}:
                    ctx.viol(f.qual, f"with trials {list(ids)}, a new configuration is called {s!r}", p)
                if step != "0":
                    ctx.viol(f.qual, f"the first evaluation of a configuration is step {step!r}", p)
                continue
            kinds.add("continue")
            a, b = parts(i), parts(prev)
            ctx.need(a and b, f"the ids of a continued configuration: {show(i)[:150]}, {show(prev)[:150]}")
            if a[0] != P("row.id") or b[0] != P("row.id"):
                ctx.viol(f.qual, f"a continued configuration is called {show(i)[:150]} after {show(prev)[:150]}", p)
            n = Norm()
            if not n.equal(a[1], ("bin", "+", b[1], C(1))):
                ctx.viol(f.qual, f"the step after {show(prev)[:150]} is {show(i)[:150]}", p)
            base = fz(p, b[1])
            while base[0] == "op" and base[1] in ("int", "round"):
                base = base[2]
            if not (base[0] == "call" and tail(base[2]) == "cast_one" and fz(p, base[3]) == ixd and cast_args(base) == (P("row.fid"), fidd)):
                ctx.need(base[0] == "call" and tail(base[2]) == "cast_one", f"the step of the recorded trial: {show(base)[:150]}")
                ctx.viol(f.qual, f"the step of the recorded trial is taken from {show(base)[:200]}", p)
            base, v = overlaid(p, d.get("config", NONE), ("a", SELF, "_fidelity_name"))
            if base != P("row.config"):
                ctx.need(P("row.config") not in set(subterms(d.get("config", NONE))), f"the continued configuration: {show(d.get('config', NONE))[:150]}")
                ctx.viol(f.qual, f"a continued configuration is {show(d.get('config', NONE))[:150]}", p)
            if v is None or v == P("row.fid"):
                ctx.viol(f.qual, "a continued configuration keeps the fidelity it was evaluated at", p)
                continue
            ok = v[0] == "call" and tail(v[2]) == "cast_one" and fz(p, v[3]) == fidd and cast_args(v)[1] == ixd
            ctx.need(v[0] == "call" and tail(v[2]) == "cast_one", f"the fidelity of the next step: {show(v)[:150]}")
            if not ok or not Norm().equal(cast_args(v)[0], a[1]):
                ctx.viol(f.qual, f"the fidelity of the next step is {show(v)[:200]}", p)
    ctx.need(kinds == {"new", "continue"}, f"the proposals of ifbo: {sorted(kinds)}")


def overlaid(p, t, key):
    """The mapping a configuration is made from, and what it has under the key last."""
    val = None
    if t[0] == "dict":
        base = None
        for k, v in t[1]:
            if k == "**":
                if v[0] == "dict":
                    for k2, v2 in v[1]:
                        if k2 == key:
                            val = v2
                else:
                    base, val = v, None
            elif k == key:
                val = v
        t = base if base is not None else t
        if val is not None:
            return t, fz(p, val)
    for e in p.events:
        if e[0] == "setitem" and e[1] == t and e[2] == key:
            val = e[3]
        elif e[0] == "mut" and e[1] == t and e[2] == "update" or e[0] == "call" and e[1][2] == ".update" and e[1][3] == t:
            for a in (e[3] if e[0] == "mut" else e[1][4]):
                a = fz(p, a)
                if a[0] == "dict":
                    for k, v in a[1]:
                        if k == key:
                            val = v
    return t, None if val is None else fz(p, val)


class NotNumeric(Exception):
    pass


def number(t, env):
    """A number from an arithmetic term."""
    if t in env:
        return env[t]
    if t[0] == "c" and isinstance(t[2], (int, float)):
        return t[2]
    if t[0] == "bin":
        a, b = number(t[2], env), number(t[3], env)
        ops = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b}
        if t[1] in ops:
            return ops[t[1]]()
    if t[0] == "un" and t[1] == "-":
        return -number(t[2], env)
    if t[0] in ("op", "call"):
        name = (t[1] if t[0] == "op" else t[2]).split(".")[-1]
        ar = t[2:] if t[0] == "op" else t[4]
        import math

        fs = {"int": int, "float": float, "round": round, "floor": math.floor, "ceil": math.ceil, "max": max, "min": min, "abs": abs, "fmod": math.fmod, "trunc": int}
        if name in fs and not any(x[0] == "kw" for x in ar):
            return fs[name](*(number(x, env) for x in ar))
    raise NotNumeric(show(t)[:150])


def cast_args(c):
    """x and frm of a call to cast_one, whether or not the callee is known."""
    kw = dict(c[5])
    a = list(c[4])
    return kw.get("x") or (a.pop(0) if a else None), kw.get("frm") or (a.pop(0) if a else None)


def parts(t):
    if t[0] == "fstr":
        xs = []
        for x in t[1]:
            x = x[1] if isinstance(x, tuple) and x[0] == "fv" else x
            x = C(x) if isinstance(x, str) else x
            if x[0] == "c" and isinstance(x[2], str) and "_" in x[2]:
                a, _, b = x[2].partition("_")
                xs += ([C(a)] if a else []) + ["_"] + ([C(b)] if b else [])
            else:
                xs.append(x)
        if len(xs) == 3 and xs[1] == "_":
            return unstr(xs[0]), unstr(xs[2])
    return None


def unstr(t):
    while t[0] == "op" and t[1] in ("str", "int") and len(t) == 3:
        t = t[2]
    return t


def ifbo_continuation(ctx):
    """ifbo only continues configurations that are not being evaluated and have steps left."""
    ctx.ob("IFBO.ask: rows of configurations with a pending or a last step are not offered for continuation")
    f, ps = ifbo_paths(ctx, ("0_0", "1_0", "0_1"))
    seen = 0
    ixd, bd = ("a", SELF, "_budget_ix_domain"), ("a", SELF, "_budget_domain")
    # (id, budget, x) of rows, scores; steps 0..4 are budgets .2 .4 .6 .8 1
    tables = [
        ([[1.0, 0.2, 7], [2.0, 0.2, 8], [1.0, 0.4, 7]], [0.5, 0.4, 0.6], {1.0, 2.0}),
        ([[1.0, 0.2, 7], [2.0, 0.2, 8], [1.0, 0.4, 7]], [0.5, 0.4, NAN], {2.0}),
        ([[1.0, 0.2, 7], [2.0, 0.2, 8], [1.0, 0.4, 7]], [NAN, 0.4, NAN], {2.0}),
        ([[1.0, 0.8, 7], [2.0, 0.2, 8], [1.0, 1.0, 7]], [0.1, 0.4, 0.9], {2.0}),
        ([[3.0, 0.2, 7], [2.0, 1.0, 8], [3.0, 0.4, 7], [4.0, 0.6, 9], [2.0, 0.8, 8]], [0.1, 0.4, NAN, 0.2, 0.3], {4.0}),
        ([[1.0, 0.2, 7]], [NAN], set()),
        ([[1.0, 1.0, 7], [2.0, 0.8, 7]], [0.3, 0.2], {2.0}),
    ]
    for p in ps:
        cs = [e[1] for e in p.events if e[0] == "call" and tail(e[1][2]) == "acquire_next_from_ftpfn"]
        for c in cs:
            t = fz(p, dict(c[5]).get("continuation_samples", NONE))
            seen += 1
            for rows, ys, want in tables:
                env = {
                    P("X"): Table(rows), P("y"): Table(ys), ("cast", ixd, bd): lambda b: round(b * 5) - 1, ("a", ixd, "upper"): 4, ("a", bd, "upper"): 1.0, ("a", bd, "lower"): 0.2, ("a", ixd, "lower"): 0,
                    ("a", ixd, "cardinality"): 5, ("a", SELF, "_max_budget"): 5,
                }
                try:
                    got = ev(t, env)
                except Unfollowed as e:
                    raise AnalysisBroken(f"the rows offered for continuation: {e}")
                have = {r[0] for r in got.rows}
                if have - want:
                    why = "pending" if any(isnan(y) and r[0] in have for r, y in zip(rows, ys)) else "fully evaluated"
                    ctx.viol(f.qual, f"a {why} configuration can be continued (rows {rows}, scores {ys}: offers {sorted(have)})", p)
                    break
                if want - have:
                    ctx.viol(f.qual, f"configurations {sorted(want - have)} can not be continued (rows {rows}, scores {ys})", p)
                    break
                if sorted(map(tuple, got.rows)) != sorted(tuple(r) for r in rows if r[0] in want):
                    # only the latest step of a configuration has to be there
                    last = {i: max(r[1] for r in rows if r[0] == i) for i in want}
                    if {(r[0], r[1]) for r in got.rows} < set(last.items()):
                        ctx.viol(f.qual, "the latest step of a configuration is not offered", p)
                        break
    ctx.need(seen, "what ifbo continues")


def ifbo_steps(ctx):
    """The steps of ifbo are numbered from 0 to the number of steps, over the adjusted fidelity range."""
    ctx.ob("IFBO: n steps have n + 1 indices, the domain of fidelities is that of the adjusted space")
    f = ctx.func(IFBO + ".__init__")
    adj = next((q for q in ctx.prog.funcs if q.endswith("ifbo._adjust_pipeline_space_to_match_stepsize")), None)
    ctx.need(adj, "how ifbo adjusts the fidelity")
    keep = frozenset(q for q, g in ctx.prog.funcs.items() if g.module is not f.module or q == adj)
    ok = 0
    for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=keep, models={"_adjust_pipeline_space_to_match_stepsize": ("tup", (P("adjusted"), P("steps")))}):
        if p.outcome[0] != "return":
            continue
        h = {a: fz(p, v) for (o, a), v in p.state.heap.items() if o == SELF}
        ix, fd = h.get("_budget_ix_domain", NONE), h.get("_fid_domain", NONE)
        ctx.need(ix[0] == "call" and tail(ix[2]) == "indices", f"the domain of steps: {show(ix)[:150]}")
        ok += 1
        n = dict(ix[5]).get("n") or ix[4][0]
        if not Norm().equal(n, ("bin", "+", P("steps"), C(1))):
            ctx.viol(f.qual, f"{show(n)[:100]} steps have an index, the fidelity has n + 1 values n steps apart", p)
        if fd != ("a", ("a", P("adjusted"), "fidelity"), "domain"):
            ctx.need(fd[0] in ("a", "call"), "the domain of fidelities")
            ctx.viol(f.qual, f"the fidelities of the steps are those of {show(fd)[:150]}", p)
        lo = h.get("_min_budget", NONE)
        if lo != ("a", ("a", P("adjusted"), "fidelity"), "lower"):
            ctx.viol(f.qual, f"the first step is at fidelity {show(lo)[:150]}", p)
    ctx.need(ok, "ifbo is not built")
    ctx.ob("_adjust_pipeline_space_to_match_stepsize: upper - adjusted lower is a whole number of steps")
    fid = new("neps.search_spaces.hyperparameters.integer.IntegerParameter", lower=P("lower"), upper=P("upper"), log=FALSE, default=P("default"), default_confidence_choice=P("conf"), is_fidelity=TRUE)
    sp = new("neps.search_spaces.search_space.SearchSpace", fidelity=fid, fidelity_name=C("fid"), hyperparameters=lit(("x", P("x")), ("fid", fid)))
    got = 0
    for p in ctx.paths(adj, exc=False, literal_limit=LIT, opaque=frozenset(q for q, g in ctx.prog.funcs.items() if g.module is not f.module), args={"pipeline_space": sp}):
        if p.outcome[0] != "return":
            continue
        v = fz(p, p.outcome[1])
        ctx.need(v[0] == "tup" and len(v[1]) == 2, "the adjusted space and the number of steps")
        n = v[1][1]
        mk = [e[1] for e in p.events if e[0] == "call" and "lower" in dict(e[1][5]) and "is_fidelity" in dict(e[1][5])]
        ctx.need(len(mk) == 1, "the adjusted fidelity")
        kw = dict(mk[0][5])
        got += 1
        if kw.get("is_fidelity") != TRUE:
            ctx.viol(adj, "the adjusted fidelity is not a fidelity", p)
        if kw.get("upper") != P("upper"):
            ctx.viol(adj, f"the highest fidelity becomes {show(kw.get('upper', NONE))[:100]}", p)
        try:
            for lo, hi, step in ((1, 10, 1), (1, 10, 2), (1, 10, 4), (3, 50, 7), (2, 81, 9), (1, 100, 40)):
                env = {P("lower"): lo, P("upper"): hi, P("step_size"): step}
                low, k = number(kw["lower"], env), number(n, env)
                if k != int((hi - lo) // step):
                    ctx.viol(adj, f"from {lo} to {hi} are {k} steps of {step}", p)
                    break
                if hi - low != k * step or not lo <= low <= hi:
                    ctx.viol(adj, f"the fidelity {lo} to {hi} starts at {low} for {k} steps of {step}", p)
                    break
        except NotNumeric as e:
            raise AnalysisBroken(f"the adjusted fidelity: {e}")
    ctx.need(got, "the fidelity is not adjusted")
