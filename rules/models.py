"""Rules about what the surrogate models are given."""
from __future__ import annotations

import ast

from rules.proposals import LIT, SELF, lit, new, outside
from rules.searchers import searchers
from rules.store import tail
from rules.tables import NAN, Table, Unfollowed, ev, final, isnan
from sa.core import AnalysisBroken, fz
from sa.terms import C, FALSE, NONE, TRUE, show, subterms

P = lambda n: ("p", n)
TRIAL = "neps.state.trial.Trial"
GPM = "neps.optimizers.bayesian_optimization.models.gp"
FTM = "neps.optimizers.bayesian_optimization.models.ftpfn"
BO = "neps.optimizers.bayesian_optimization.optimizer.BayesianOptimization"
MP = "neps.optimizers.multi_fidelity.sampling_policy.ModelPolicy"
NUM = lambda x: NONE if x is None else C(x)


def trial(ctx, name, loss="pending", cost=None, fid=None):
    """A recorded trial; 'pending' has no report, None is a failed evaluation."""
    q = ctx.cls(TRIAL).qual
    cfg = P(f"cfg.{name}") if fid is None else lit(("x", P(f"cfg.{name}")), ("fid", C(fid)))
    rep = NONE if loss == "pending" else new(q + ".Report", loss=NUM(loss), cost=NUM(cost))
    return (name, new(q, config=cfg, report=rep))


def rows(x):
    """Encoded configurations: a row is a tag."""
    if x[0] in ("list", "tup"):
        return Table([["cfg", y] for y in x[1]])
    raise Unfollowed(show(x)[:150])


def broken(what, e):
    raise AnalysisBroken(f"{what}: {e}")


def only(ctx, p, name, what):
    cs = [e[1] for e in p.events if e[0] == "call" and tail(e[1][2]) == name]
    ctx.need(len(cs) <= 1, what)
    return cs[0] if cs else None


def kwarg(c, name, pos=None):
    d = dict(c[5])
    if name in d:
        return d[name]
    if pos is not None and len(c[4]) > pos:
        return c[4][pos]
    return None


SETS = (
    (("1", 0.5, 2.0),),
    (("1", 0.5, 2.0), ("2", 0.25, None), ("3", 0.75, 1.0)),
    (("1", 0.5, 2.0), ("2", None, None), ("3", "pending", None), ("4", 0.75, 3.0)),
    (("1", "pending", None), ("2", 0.0, 0.0), ("3", None, 4.0), ("4", 0.75, None), ("5", "pending", None)),
    (("10", 3.0, 1.0), ("2", -1.0, 2.0), ("9", None, None), ("1", 7.0, 5.0)),
)


def gp_data(ctx):
    """The GP sees every reported configuration with its own loss and cost, and the others as pending."""
    ctx.ob("encode_trials_for_gp: rows of x, losses and costs belong to the same trials, in order")
    ctx.ob("encode_trials_for_gp: a failed evaluation gets a finite value no better than the best loss")
    f = ctx.func(GPM + ".encode_trials_for_gp")
    for ts in SETS:
        arg = lit(*(trial(ctx, *t) for t in ts))
        n = 0
        for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"trials": arg, "encoder": P("encoder")}):
            if p.outcome[0] != "return" or any(a == ("isnone", P("encoder")) and b for a, b in items(p)):
                continue
            v = fz(p, p.outcome[1])
            ctx.need(v[0] == "tup" and v[1][0][0] == "new", "the encoded trials")
            d = dict(v[1][0][2])
            n += 1
            env = {("encode", P("encoder")): rows}
            try:
                x, y, c = (final(p, d[k], env, fz) for k in ("x", "y", "cost"))
                xp = None if d["x_pending"] == NONE else final(p, d["x_pending"], env, fz)
            except Unfollowed as e:
                broken("what the GP is given", e)
            got = [r[1] for r in x.rows]
            done = {P(f"cfg.{t[0]}"): t for t in ts if t[1] != "pending"}
            pend = {P(f"cfg.{t[0]}") for t in ts if t[1] == "pending"}
            if sorted(map(str, got)) != sorted(map(str, done)):
                ctx.viol(f.qual, f"of {describe(ts)}, the GP is trained on {names(got)}", p)
                continue
            have = [r[1] for r in xp.rows] if xp is not None else []
            if sorted(map(str, have)) != sorted(map(str, pend)):
                ctx.viol(f.qual, f"of {describe(ts)}, {names(have)} count as pending", p)
            if len(y.rows) != len(got) or len(c.rows) != len(got):
                ctx.viol(f.qual, f"{len(got)} configurations come with {len(y.rows)} losses and {len(c.rows)} costs", p)
                continue
            best = min(t[1] for t in done.values() if t[1] is not None)
            for g, l, k in zip(got, y.rows, c.rows):
                t = done[g]
                if t[1] is not None and l != t[1]:
                    ctx.viol(f.qual, f"of {describe(ts)}, trial {t[0]} is given the loss {l}", p)
                    break
                if t[1] is None and (isnan(l) or abs(l) == float("inf") or l < best):
                    ctx.viol(f.qual, f"of {describe(ts)}, the failed trial {t[0]} is given the loss {l}", p)
                    break
                if not (isnan(k) if t[2] is None else k == t[2]):
                    ctx.viol(f.qual, f"of {describe(ts)}, trial {t[0]} is given the cost {k}", p)
                    break
        ctx.need(n, "trials are not encoded")


def names(ts):
    return "[" + ", ".join(str(t[1]).removeprefix("cfg.") if t[0] == "p" else show(t)[:40] for t in ts) + "]"


def describe(ts):
    return "; ".join(f"trial {t[0]} ({'pending' if t[1] == 'pending' else 'failed' if t[1] is None else f'loss {t[1]}'}, cost {t[2]})" for t in ts)


def bo_model(ctx):
    """Bayesian optimization fits its model only to reported losses, and to all of them."""
    ctx.ob("BayesianOptimization.ask: no model is fitted before a loss was reported")
    ctx.ob("BayesianOptimization.ask: the model is that of all trials, and what it proposes is returned")
    f = ctx.func(BO + ".ask")
    none = ((), (("1", "pending", None),), (("1", None, None), ("2", "pending", None), ("3", None, 1.0)))
    models = {"encode_trials_for_gp": ("tup", (new(GPM + ".GPEncodedData", x=P("data.x"), y=P("data.y"), cost=P("data.cost"), x_pending=P("data.pending")), P("enc")))}
    fitted = 0
    for ts in none + SETS[:3]:
        arg = lit(*(trial(ctx, *t) for t in ts))
        some = 0
        for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"trials": arg}, models=models):
            gp = only(ctx, p, "make_default_single_obj_gp", "the model")
            acq = only(ctx, p, "fit_and_acquire_from_gp", "the acquisition")
            if gp is None and acq is None:
                continue
            if ts in none:
                ctx.viol(f.qual, f"a model is fitted although there is no loss ({describe(ts) or 'no trials'})", p)
                break
            some += 1
            if p.outcome[0] != "return":
                continue
            ctx.need(gp and acq, "how the model is used")
            kw = dict(gp[5])
            if (kw.get("x"), kw.get("y")) != (P("data.x"), P("data.y")):
                ctx.viol(f.qual, f"the model is fitted to {show(kw.get('x', NONE))[:80]} and {show(kw.get('y', NONE))[:80]}", p)
            e = next((q[1] for q in p.events if q[0] == "call" and tail(q[1][2]) == "encode_trials_for_gp"), None)
            if e is not None and fz(p, kwarg(e, "trials", 0)) != arg:
                ctx.need(fz(p, kwarg(e, "trials", 0))[0] == "dict", "the trials that are encoded")
                ctx.viol(f.qual, f"the model is fitted to {show(fz(p, kwarg(e, 'trials', 0)))[:100]} of {len(ts)} trials", p)
            kw = {k: fz(p, v) for k, v in acq[5]}
            if kw.get("x_train") != P("data.x"):
                ctx.viol(f.qual, f"the training data of the acquisition is {show(kw.get('x_train', NONE))[:80]}", p)
            a = kw.get("acquisition", NONE)
            if a[0] == "call":
                base, pend = kwarg(a, "X_baseline"), kwarg(a, "X_pending")
                if base is not None and base != P("data.x"):
                    ctx.viol(f.qual, f"the incumbents of the acquisition are {show(base)[:80]}", p)
                if pend != P("data.pending"):
                    ctx.viol(f.qual, f"the pending configurations of the acquisition are {show(pend or NONE)[:80]}", p)
                o = kwarg(a, "objective")
                if o is not None and o[0] == "call":
                    w = kwarg(o, "weights")
                    ws = [z for z in subterms(w) if z[0] == "c" and isinstance(z[2], (int, float)) and not isinstance(z[2], bool)]
                    if not ws or any(z[2] >= 0 for z in ws):
                        if not any(z[0] == "un" or z[0] == "bin" for z in subterms(w)):
                            ctx.viol(f.qual, "the acquisition looks for a high loss", p)
            uc = truth(p, ("a", SELF, "use_cost"))
            if uc is True and kw.get("costs") != P("data.cost") or uc is False and kw.get("costs", NONE) != NONE:
                ctx.viol(f.qual, f"with use_cost={uc}, the costs of the acquisition are {show(kw.get('costs', NONE))[:80]}", p)
            if uc is True:
                want = ("bin", "/", ("a", P("budget_info"), "used_cost_budget"), ("a", P("budget_info"), "max_cost_budget"))
                if kw.get("cost_percentage_used") != want:
                    ctx.viol(f.qual, f"the share of the budget used is {show(kw.get('cost_percentage_used', NONE))[:120]}", p)
            v = fz(p, p.outcome[1])
            cfg = dict(v[2]).get("config", NONE) if v[0] == "new" else NONE
            if not any(z[0] == "call" and tail(z[2]) == "fit_and_acquire_from_gp" for z in subterms(cfg)):
                ctx.viol(f.qual, f"the proposal is {show(cfg)[:100]}, not what the acquisition found", p)
            elif not any(z[0] == "call" and z[2].endswith("decode") and z[3] in (P("enc"), ("a", SELF, "encoder")) or z[0] == "op" and z[1] == ".decode" and z[2] in (P("enc"), ("a", SELF, "encoder")) for z in subterms(cfg)):
                ctx.need(False, f"how the proposal is decoded: {show(cfg)[:150]}")
        if ts not in none:
            ctx.need(some, f"no model is fitted to {describe(ts)}")
            fitted += some


def truth(p, t):
    for a, b in p.state.facts.items() if hasattr(p.state.facts, "items") else p.state.facts:
        if a == ("truthy", t):
            return b
    return None


def cost_model(ctx):
    """The cost model is fitted to the known costs, each with its own configuration."""
    ctx.ob("fit_and_acquire_from_gp: the cost model gets the rows whose cost is known, each with its cost")
    f = ctx.func(GPM + ".fit_and_acquire_from_gp")
    X = [["a", 1], ["b", 2], ["c", 3], ["d", 4]]
    tabs = ([1.0, 2.0, 3.0, 4.0], [1.0, NAN, 3.0, 4.0], [NAN, NAN, 5.0, NAN], [NAN, 2.0, 3.0, NAN])
    seen = set()
    for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"seed": NONE}):
        gps = [e[1] for e in p.events if e[0] == "call" and tail(e[1][2]) == "make_default_single_obj_gp"]
        for g in gps:
            x, y = kwarg(g, "x", 0), kwarg(g, "y", 1)
            for i, cs in enumerate(tabs):
                env = {P("x_train"): Table(X), P("costs"): Table(cs)}
                if not consistent(p, env):
                    continue
                try:
                    gx, gy = final(p, x, env, fz), final(p, y, env, fz)
                except Unfollowed as e:
                    broken("what the cost model is given", e)
                seen.add(i)
                want = [(r, c) for r, c in zip(X, cs) if not isnan(c)]
                if len(gx.rows) != len(gy.rows):
                    ctx.viol(f.qual, f"with costs {cs}, {len(gx.rows)} configurations come with {len(gy.rows)} costs", p)
                    break
                if str(sorted(zip(gx.rows, gy.rows), key=str)) != str(sorted(want, key=str)):
                    ctx.viol(f.qual, f"with costs {cs}, the cost model is given {list(zip(gx.rows, gy.rows))}", p)
                    break
    ctx.need(len(seen) == len(tabs), "the data of the cost model")
    ctx.ob("fit_and_acquire_from_gp: prior and cost weighting apply to the acquisition that is optimised")
    for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"seed": NONE}):
        if p.outcome[0] != "return":
            continue
        o = only(ctx, p, "optimize_acq", "how the acquisition is optimised")
        ctx.need(o, "how the acquisition is optimised")
        a = fz(p, kwarg(o, "acq_fn", 0))
        for fact, name in ((("truthy", P("prior")), "pibo_acquisition"), (("isnone", P("prior")), "pibo_acquisition"), (("isnone", P("costs")), "cost_cooled_acq")):
            for q, b in items(p):
                if q == fact:
                    on = b if fact[0] == "truthy" else not b
                    have = any(z[0] == "call" and tail(z[2]) == name for z in subterms(a))
                    if on and not have:
                        ctx.viol(f.qual, f"{name} is not part of the acquisition that is optimised", p)
        if P("acquisition") not in set(subterms(a)):
            ctx.viol(f.qual, "the acquisition that was given is not part of what is optimised", p)


def items(p):
    fs = p.state.facts
    return fs.items() if hasattr(fs, "items") else fs


def consistent(p, env):
    """Whether the path can be taken with these values, as far as they decide it."""
    env = {**env, "#fz": fz, "#p": p}
    for a, b in items(p):
        if a[0] == "truthy":
            try:
                v = ev(fz(p, a[1]), env)
            except (Unfollowed, TypeError, KeyError, IndexError, ValueError):
                continue
            if isinstance(v, Table):
                continue
            if bool(v) is not b:
                return False
        elif a[0] in ("ge", "eq") and len(a) == 3:
            try:
                x, y = (ev(fz(p, q), env) for q in a[1:])
                if isinstance(x, Table) or isinstance(y, Table):
                    continue
                r = x >= y if a[0] == "ge" else x == y
            except (Unfollowed, TypeError, KeyError, IndexError, ValueError):
                continue
            if bool(r) is not b:
                return False
    return True


# ------------------------------------------------------------------ ftpfn
def ftpfn_data(ctx):
    """The ftpfn model sees each recorded step with its own id, budget, configuration and score."""
    ctx.ob("encode_ftpfn: id, budget, configuration and score of a row are those of one trial")
    f = ctx.func(FTM + ".encode_ftpfn")
    sets = (
        (("0_0", 0.5, 3),),
        (("0_0", 0.5, 3), ("1_0", 0.25, 3), ("0_1", 0.125, 5)),
        (("3_0", None, 1), ("12_0", 0.25, 2), ("3_1", "pending", 4), ("0_0", 1.0, 7), ("12_2", 0.0, 9)),
    )
    sp = new("neps.search_spaces.search_space.SearchSpace", fidelity=P("fidelity"), fidelity_name=C("fid"))
    bd, fd = P("budget_domain"), ("a", P("fidelity"), "domain")
    for ts in sets:
        for err in (0.0, 0.25):
            n = 0
            arg = lit(*(trial(ctx, t[0], t[1], None, t[2]) for t in ts))
            env = {("encode", P("encoder")): rows, ("cast", bd, fd): lambda x: x / 100}
            for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"trials": arg, "space": sp, "error_value": C(err), "pending_value": C(-5.0)}):
                if p.outcome[0] != "return":
                    continue
                v = fz(p, p.outcome[1])
                ctx.need(v[0] == "tup" and len(v[1]) == 2, "the encoded trials")
                n += 1
                try:
                    x, y = (final(p, t, env, fz) for t in v[1])
                except Unfollowed as e:
                    broken("what the ftpfn model is given", e)
                if len(x.rows) != len(ts) or len(y.rows) != len(ts):
                    ctx.viol(f.qual, f"{len(ts)} trials are encoded as {len(x.rows)} rows with {len(y.rows)} scores", p)
                    continue
                by = {}
                for r, s in zip(x.rows, y.rows):
                    who = [t for t in ts if P(f"cfg.{t[0]}") in set(subterms(r[3] if len(r) > 3 else ("x", "?")))]
                    ctx.need(len(r) == 4 and len(who) == 1, f"the rows of the ftpfn model: {str(r)[:150]}")
                    t = who[0]
                    by[t[0]] = 1
                    if r[0] != int(t[0].split("_")[0]) + 1:
                        ctx.viol(f.qual, f"trial {t[0]} is encoded as configuration {r[0]}, numbers start at 1", p)
                    if abs(r[1] - t[2] / 100) > 1e-12:
                        ctx.viol(f.qual, f"trial {t[0]} at fidelity {t[2]} is encoded with the budget of {r[1] * 100}", p)
                    want = 1 - -5.0 if t[1] == "pending" else err if t[1] is None else 1 - t[1]
                    if abs(s - want) > 1e-12:
                        ctx.viol(f.qual, f"trial {t[0]} ({'pending' if t[1] == 'pending' else 'failed' if t[1] is None else f'loss {t[1]}'}) is encoded with score {s} instead of {want}", p)
            ctx.need(n, "the trials are not encoded")


def ftpfn_decode(ctx):
    """A row of the ftpfn model is decoded to the configuration, fidelity and number it was encoded from."""
    ctx.ob("decode_ftpfn_data: number 0 is a new configuration, others are one less; the rest as encoded")
    f = ctx.func(FTM + ".decode_ftpfn_data")
    X, bd, fd, enc = P("x"), P("budget_domain"), P("fidelity_domain"), P("encoder")
    col = lambda i: [("sub", X, ("tup", (("op", "sl", NONE, NONE, NONE), C(i)))), ("sub", X, ("tup", (("x", "builtins.Ellipsis"), C(i)))), ("sub", X, ("tup", (C(...), C(i))))]
    ids = (C(0.0), C(3.0), C(1.0))

    def tolist(interp, st, recv, ar):
        if recv in col(0):
            return ("list", ids)
        if recv[0] == "call" and tail(recv[2]) == "cast" and recv[3] == fd and kwarg(recv, "frm", 1) == bd and kwarg(recv, "x", 0) in col(1):
            return ("list", (P("f0"), P("f1"), P("f2")))
        return None

    def decode(interp, st, recv, ar):
        x = ar[0][0] if ar[0] else dict(ar[1]).get("x")
        if x is not None and x[0] == "sub" and x[1] == X and x[2][0] == "tup" and x[2][1][1] in (("op", "sl", C(2), NONE, NONE),):
            return ("list", (P("c0"), P("c1"), P("c2")))
        return None

    n = 0
    for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), models={".tolist": tolist, "decode": decode, "ConfigEncoder.decode": decode}):
        if p.outcome[0] != "return":
            continue
        if any(a == ("eq", ("a", X, "ndim"), C(1)) and b for a, b in items(p)):
            continue
        v = fz(p, p.outcome[1])
        ctx.need(v[0] in ("list", "tup") and all(r[0] == "tup" and len(r[1]) == 3 for r in v[1]), f"the decoded rows: {show(v)[:200]}")
        n += 1
        want = ((NONE, P("f0"), P("c0")), (2, P("f1"), P("c1")), (0, P("f2"), P("c2")))
        if len(v[1]) != 3:
            ctx.viol(f.qual, f"three rows are decoded to {len(v[1])}", p)
            continue
        for i, (r, w) in enumerate(zip(v[1], want)):
            a = r[1]
            if w[0] == NONE and a[0] != NONE or w[0] != NONE and not (a[0][0] == "c" and a[0][2] == w[0]):
                ctx.viol(f.qual, f"the row of configuration number {ids[i][2]} is decoded to {show(a[0])[:80]}", p)
            if a[1:] != w[1:]:
                ctx.viol(f.qual, f"row {i} is decoded to {show(r)[:150]}", p)
    ctx.need(n, "rows are not decoded")


# ------------------------------------------------------------------ model-based multi-fidelity
def mf_model(ctx):
    """The model of the multi-fidelity searchers gets every observation with its own finite loss."""
    ctx.ob("ModelPolicy.update_model: configurations, losses and pending configurations stay aligned; failed ones get a finite loss")
    f = ctx.func(MP + ".update_model")
    INF = float("inf")
    for ys in ((0.5,), (0.5, 0.25, 0.75), (0.5, INF, 0.25, 0.75), (INF, 3.0, -1.0), (INF, INF)):
        xs = ("list", tuple(P(f"c{i}") for i in range(len(ys))))
        pend = ("list", (P("p0"), P("p1")))
        hp = lambda i: i
        n = 0
        for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"train_x": xs, "train_y": ("list", tuple(C(y) for y in ys)), "pending_x": pend}):
            g = only(ctx, p, "make_default_single_obj_gp", "the model")
            if g is None:
                continue
            env = {("encode", ("a", SELF, "_encoder")): rows}
            if not consistent(p, env):
                continue
            n += 1
            a = next((e[1] for e in p.events if e[0] == "call" and "X_pending" in dict(e[1][5])), None)
            try:
                x, y = final(p, kwarg(g, "x", 0), env, fz), final(p, kwarg(g, "y", 1), env, fz)
                xp = final(p, kwarg(a, "X_pending"), env, fz) if a is not None else None
            except Unfollowed as e:
                broken("what the model is given", e)
            who = lambda r: next((z[1] for z in subterms(r[1]) if z[0] == "p" and z != SELF), None)
            got = [who(r) for r in x.rows]
            if sorted(map(str, got)) != sorted(f"c{i}" for i in range(len(ys))):
                ctx.viol(f.qual, f"of {len(ys)} observations the model gets {got}", p)
                continue
            if len(y.rows) != len(ys):
                ctx.viol(f.qual, f"{len(ys)} configurations come with {len(y.rows)} losses", p)
                continue
            fin = [v for v in ys if v != INF]
            for c, l in zip(got, y.rows):
                v = ys[int(c[1:])]
                if v != INF and l != v:
                    ctx.viol(f.qual, f"losses {ys}: configuration {c} is given {l}", p)
                    break
                if v == INF and (isnan(l) or abs(l) == INF or fin and l < min(fin)):
                    ctx.viol(f.qual, f"losses {ys}: the failed configuration {c} is given {l}", p)
                    break
            ctx.need(a is not None, "the acquisition")
            if sorted(str(who(r)) for r in xp.rows) != ["p0", "p1"]:
                ctx.viol(f.qual, "not every pending configuration is known to the acquisition", p)
        ctx.need(n, "no model is fitted")


def mf_fit(ctx):
    """The multi-fidelity model is fitted to the recorded losses of a level, each at the fidelity of that level."""
    q = next((q for q in ctx.prog.funcs if q.endswith("mf_bo.MFBOBase._fit_models")), None)
    ctx.need(q, "how the model is fitted")
    f = ctx.func(q)
    ctx.ob("MFBOBase._fit_models: configurations, losses and fidelity come from the same level")
    ctx.ob("MFBOBase._fit_models: the recorded configurations are copied before their fidelity is set")
    hist, rmap = ("a", SELF, "rung_histories"), ("a", SELF, "rung_map")
    kinds = set()
    for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f) | {q for q in ctx.prog.funcs if q.endswith("._active_rung")}, models={"MFBOBase._active_rung": P("rung"), "_active_rung": P("rung")}):
        c = next((e[1] for e in p.events if e[0] == "call" and tail(e[1][2]) == "update_model"), None)
        if c is None:
            continue
        x, y, pend = (deep(p, kwarg(c, n, i)) for i, n in enumerate(("train_x", "train_y", "pending_x")))
        rx = {z[1][2] for z in subterms(x) if z[0] == "sub" and z[2] == C("config") and z[1][0] == "sub" and z[1][1] == hist}
        ry = {z[1][2] for z in subterms(y) if z[0] == "sub" and z[2] == C("perf") and z[1][0] == "sub" and z[1][1] == hist}
        bad = [z for z in subterms(y) if z[0] == "sub" and z[2] == C("config")]
        if not rx and not ry:
            continue
        ctx.need(not bad, "the losses of the model")
        if rx != ry:
            ctx.need(rx and ry, f"the levels of the model: {show(x)[:100]}, {show(y)[:100]}")
            ctx.viol(f.qual, f"configurations of level {[show(r)[:60] for r in rx]} come with the losses of {[show(r)[:60] for r in ry]}", p)
            continue
        fid = {z[2] for z in subterms(x) if z[0] == "sub" and z[1] == rmap}
        if not any(z[0] == "fn" and z[1].endswith("update_fidelity") or z[0] == "call" and tail(z[2]) == "update_fidelity" for z in subterms(x)) or not fid:
            ctx.viol(f.qual, "a configuration is not set to the fidelity its loss was recorded at", p)
        elif fid != rx:
            ctx.viol(f.qual, f"losses of level {[show(r)[:60] for r in rx]} are given the fidelity of {[show(r)[:60] for r in fid]}", p)
        if not any(z[0] in ("op", "call") and ("deepcopy" in (z[1] if z[0] == "op" else z[2]) or ".clone" in (z[1] if z[0] == "op" else z[2])) for z in subterms(x)):
            ctx.viol(f.qual, "the fidelity of the recorded configurations is overwritten", p)
        if not any((z[0] == "call" and z[2].endswith(("isna", "isnull")) or z[0] == "op" and z[1].endswith(("isna", "isnull")) or z[0] in ("call", "op") and "notna" in str(z[2] if z[0] == "call" else z[1])) for z in subterms(pend)):
            ctx.viol(f.qual, "the pending configurations are not those without a result", p)
        joint = any(r[0] == "el" for r in rx)
        kinds.add("joint" if joint else "rung")
        for r in rx:
            if r[0] == "el":
                want = ("op", "range", ("a", SELF, "min_rung"), ("bin", "+", ("a", SELF, "max_rung"), C(1)))
                it = fz(p, r[2])
                if it[0] == "op" and it[1] == "range" and it != want:
                    from rules.algebra import Norm

                    n = Norm()
                    if len(it) != 4 or not (n.equal(it[2], want[2]) and n.equal(it[3], want[3])):
                        ctx.viol(f.qual, f"the levels of the model are {show(it)[:100]}", p)
    ctx.need("rung" in kinds and "joint" in kinds, f"the models of multi-fidelity searchers: {sorted(kinds)}")


def deep(p, t):
    return fz(p, t) if t is not None else NONE


# ------------------------------------------------------------------ attributes
SKIP_BASES = {"object", "abc.ABC", "typing.Generic", "typing.Protocol", "typing_extensions.Protocol", "ABC", "Generic", "Protocol"}


def attributes(ctx):
    """Every attribute a searcher reads of itself is one that it has."""
    n = 0
    stored = {t.attr for m in ctx.prog.modules.values() for t in ast.walk(m.tree) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and not (isinstance(t.value, ast.Name) and t.value.id == "self")}
    for c in ctx.prog.classes.values():
        if not c.module.name.startswith("neps.optimizers"):
            continue
        if any(b not in SKIP_BASES and b.split("[")[0] not in SKIP_BASES for b in c.ext_bases()):
            continue
        family = set(c.mro())
        subs = list(ctx.prog.subclasses(c))
        for s in subs:
            family |= set(s.mro())
        if any(b not in SKIP_BASES and b.split("[")[0] not in SKIP_BASES for k in family for b in k.ext_bases()):
            continue
        have = set(dir(object)) | {"__dict__", "__class__", "__annotations__"}
        for k in family:
            have |= set(k.methods) | set(k.attrs)
            for x in ast.walk(k.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"):
                    have.add(x.attr)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    have.add(x.target.id)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    have.add(x.name)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" or isinstance(x, ast.Attribute) and x.attr == "__dict__" or isinstance(x, (ast.FunctionDef,)) and x.name == "__getattr__":
                    have.add("*")
            if "__getattr__" in k.methods:
                have.add("*")
        if "*" in have:
            continue
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self":
                n += 1
                if x.attr not in have and x.attr not in stored:
                    ctx.viol(c.qual, f"reads self.{x.attr} at line {x.lineno}, which nothing sets")
    ctx.need(n > 100, "the attributes of searchers")
    ctx.ob(f"{n} reads of attributes in the classes of neps.optimizers")


def defaults_optional(ctx):
    """Searchers use a default configuration where hyperparameters have one, and do without elsewhere."""
    n = 0
    for m in ctx.prog.modules.values():
        if not m.name.startswith("neps.optimizers"):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sample_default_configuration":
                n += 1
                kw = {k.arg: k.value for k in x.keywords}
                v = kw.get("ignore_missing_defaults")
                if None in kw:
                    continue
                if v is None and not x.args or isinstance(v, ast.Constant) and v.value is False:
                    ctx.viol(f"{m.name}", f"a space in which some hyperparameter has no default stops the searcher at line {x.lineno}")
    ctx.need(n, "default configurations")
    ctx.ob(f"{n} places where a searcher asks for the default configuration")
