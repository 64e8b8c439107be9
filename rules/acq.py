"""Rules about how the prior and the cost weigh the acquisition."""
from __future__ import annotations

import itertools
import math

from rules.models import (
    BO,
    GPM,
    MP,
    P,
    broken,
    items,
    kwarg,
    new,
    only,
)
from rules.proposals import LIT, outside
from rules.scalars import SHAPE, SUMS, close, parts, value
from rules.store import tail
from rules.tables import Unfollowed
from sa.core import fz
from sa.terms import NONE, C, show, subterms

AF = "neps.optimizers.bayesian_optimization.acquisition_functions"
PIBO = AF + ".pibo.pibo_acquisition"
COOL = AF + ".cost_cooling.cost_cooled_acq"
def q_red(x):
    return x * x * x + 2.0


def s_red(x):
    return 5.0 - 2.0 * x


def shaped(t):
    """A term without changes of shape and type."""
    while t[0] in ("call", "op"):
        name, ar, _ = parts(t)
        if name not in SHAPE or not ar:
            return t
        t = ar[0]
    return t


class Scene:
    """The numbers that the acquisition, the prior and the cost model have at one point."""

    def __init__(self, ctx, f, p, scene):
        self.ctx, self.f, self.p, self.s = ctx, f, p, scene

    def __call__(self, t):
        s = self.s
        if t in s:
            return s[t]
        if t[0] in ("op", "call"):
            name, ar, _kw = parts(t)
            if t[0] == "call" and t[3] == P("acq_fn"):
                if name in ("_non_reduced_forward", "<call>", "acq_fn", "__call__", "forward"):
                    a = list(t[4]) + [v for _, v in t[5]]
                    if len(a) == 1 and shaped(a[0]) == P("X"):
                        return s["raw"] if name == "_non_reduced_forward" else s["acq"]
                if name in ("_q_reduction", "_sample_reduction") and len(t[4]) == 1:
                    return (q_red if name == "_q_reduction" else s_red)(value(t[4][0], self))
            if t[0] == "call" and t[3] == P("prior") and name in ("log_prob", "log_pdf", "prob", "pdf"):
                a, d = list(t[4]), dict(t[5])
                x = d.get("x", a[0] if a else None)
                frm = d.get("frm", a[1] if len(a) > 1 else None)
                if x is None or frm is None:
                    return None
                if shaped(x) != P("X"):
                    return None
                if frm != P("x_domain"):
                    self.ctx.viol(self.f, f"the prior is evaluated in the domain {show(frm)[:80]} instead of that of the points", self.p)
                    raise Reported
                return s["lp"] if name.startswith("log") else math.exp(s["lp"])
            if name in SUMS | {"squeeze"} and ar and s.get("cost") is not None and is_mean(shaped(ar[0]) if name != "squeeze" else ar[0]):
                if name == "sum" or name == "squeeze" or len(s["cost"]) == 1:
                    return sum(s["cost"])
                return {"mean": sum(s["cost"]) / len(s["cost"]), "amax": max(s["cost"]), "amin": min(s["cost"])}.get(name)
        if is_mean(t) and s.get("cost") is not None and len(s["cost"]) == 1:
            return s["cost"][0]
        return None


class Reported(Exception):
    pass


def is_mean(t):
    """Whether it is the posterior mean of the cost model at the points."""
    if t[0] == "a" and t[2] in ("mean", "loc"):
        b = t[1]
        return b[0] == "call" and tail(b[2]) == "posterior" and b[3] == P("model") and shaped((list(b[4]) + [v for _, v in b[5]])[0]) == P("X")
    return False


def weighed(ctx, fq, source, scenes, expect, what):
    """The acquisition that ``source`` builds has the expected value, in every scene and on every path."""
    f = ctx.func(fq)
    cl = ctx.client(f, source)
    kinds = set()
    for p in ctx.paths(cl, exc=False, literal_limit=LIT, opaque=lambda g: g.module.name.startswith("neps.sampling") and g.name not in ("pdf", "prob")):
        if p.outcome[0] == "cut":
            broken(what, "a loop is not followed")
        if p.outcome[0] != "return":
            continue
        log = mc = None
        for a, b in items(p):
            if a[0] == "truthy" and a[1][0] == "a" and a[1][2] == "_log":
                log = b
            if a[0] == "isinst" and a[1] == P("acq_fn") and "SampleReducing" in str(a[2]):
                mc = b
        try:
            res = fz(p, p.outcome[1])
            for s in scenes:
                s = dict(s)
                lo = s.pop("log")
                if log is not None and lo is not log:
                    continue
                if not admits(p, s, ctx, f):
                    continue
                flag = ("a", P("acq_fn"), "_log")
                s[flag] = lo
                if mc is None:
                    broken(what, "the acquisition's kind is not asked")
                got = value(res, Scene(ctx, f.qual, p, s))
                kinds.add((lo, mc))
                want = s_red(q_red(expect(s["raw"], lo, s))) if mc else expect(s["acq"], lo, s)
                if isinstance(got, complex) or not close(got, want):
                    ctx.viol(f.qual, f"{what}: on {'log' if lo else 'linear'} scale the {'samples of the ' if mc else ''}acquisition {s['raw'] if mc else s['acq']} with {describe(s)} becomes {show(res)[:200]}", p)
                    break
        except Reported:
            continue
        except (Unfollowed, OverflowError, ZeroDivisionError, TypeError, ValueError, RecursionError) as e:
            broken(what, e)
    ctx.need({(a, b) for a in (True, False) for b in (True, False)} <= kinds, what)


def describe(s):
    out = []
    if "lp" in s:
        out.append(f"log-prior {s['lp']} and exponent {s[P('prior_exponent')]}")
    if s.get("cost"):
        out.append(f"cost {s['cost']} and share {s[P('used')]} of the budget used")
    return ", ".join(out)


def admits(p, s, ctx, f):
    for a, b in items(p):
        if a[0] in ("truthy", "ge", "eq"):
            try:
                xs = [value(x, Scene(ctx, f.qual, p, s)) for x in a[1:]]
            except (Unfollowed, Reported, TypeError, ValueError, ArithmeticError):
                continue
            r = bool(xs[0]) if a[0] == "truthy" else xs[0] >= xs[1] if a[0] == "ge" else xs[0] == xs[1]
            if r is not b:
                return False
    return True


ACQ = (-2.5, -0.25, 0.5, 3.0)


def acq_prior(ctx):
    """The prior weighs the acquisition by its density to the power of the exponent, on either scale."""
    ctx.ob("pibo_acquisition: log(acq) + exponent * log(prior) on log scale, acq * prior ** exponent otherwise, before samples are reduced")
    scenes = [{"log": lo, "raw": a, "acq": a + 0.125, "lp": lp, P("prior_exponent"): e} for lo, a, lp, e in itertools.product((True, False), ACQ, (-3.0, -0.75, 0.4), (0.2, 1.0, 2.5))]

    def expect(a, lo, s):
        e = s[P("prior_exponent")]
        return a + e * s["lp"] if lo else a * math.exp(s["lp"]) ** e

    weighed(
        ctx, PIBO, "def weighed(acq_fn, prior, prior_exponent, x_domain, X):\n    return pibo_acquisition(acq_fn=acq_fn, prior=prior, prior_exponent=prior_exponent, x_domain=x_domain).forward(X)",
        scenes, expect, "the prior's weight",
    )


def acq_cost(ctx):
    """The cost divides the acquisition, less the more of the budget is used, on either scale."""
    ctx.ob("cost_cooled_acq: log(acq) - (1 - used) * log(cost) on log scale, acq / cost ** (1 - used) otherwise (times, where it is not positive), before samples are reduced")
    scenes = []
    for lo, a, c, u, n in itertools.product((True, False), ACQ, (0.3, 1.0, 4.0), (0.0, 0.25, 1.0), (1, 2)):
        cost = (c,) if n == 1 else (c, 0.5)
        scenes.append({"log": lo, "raw": a, "acq": a + 0.125, "cost": cost, P("used"): u, ("a", P("model"), "num_outputs"): n})

    def expect(a, lo, s):
        c, e = sum(s["cost"]), 1 - s[P("used")]
        if lo:
            return a - e * math.log(c)
        return a / c**e if a > 0 else a * c**e

    weighed(
        ctx, COOL, "def weighed(acq_fn, model, used, X):\n    return cost_cooled_acq(acq_fn=acq_fn, model=model, used_budget_percentage=used).forward(X)",
        scenes, expect, "the cost's weight",
    )


def acq_pending(ctx):
    """A weighted acquisition takes over the pending points of the one it weighs."""
    ctx.ob("WeightedAcquisition: pending points move from the weighed acquisition to the weighted one, which appends them to the points it is asked about")
    q = AF + ".weighted_acquisition.WeightedAcquisition"
    f = ctx.func(q + ".__init__")
    cl = ctx.client(f, "def build(acq_fn, weight):\n    return WeightedAcquisition(acq_fn, weight)")
    seen = set()
    for p in ctx.paths(cl, exc=False, opaque=lambda g: False):
        if p.outcome[0] != "return":
            continue
        o = p.outcome[1]
        if o[0] != "o":
            broken("the weighted acquisition", show(o)[:100])
        old, mine, none = [], [], None
        for a, b in items(p):
            if a[0] in ("isnone", "truthy") and pending_of(a[1]):
                none = b if a[0] == "isnone" else not b
        for e in p.events:
            if e[0] == "call" and tail(e[1][2]) == "set_X_pending":
                c = e[1]
                a = (list(c[4]) + [v for _, v in c[5]] or [NONE])[0]
                if c[3] == P("acq_fn"):
                    old.append(a)
                elif c[3] == o:
                    mine.append(a)
            if e[0] == "store" and e[2] == "X_pending":
                (old if e[1] == P("acq_fn") else mine if e[1] == o else []).append(e[3])
        seen.add(none)
        if not old or old[-1] != NONE:
            ctx.viol(f.qual, f"the weighed acquisition keeps {'its pending points' if not old else show(old[-1])[:80]}: they are appended twice", p)
        if not mine and none is not True or mine and none is False and not pending_of(mine[-1]) or mine and none is True and not (mine[-1] == NONE or pending_of(mine[-1])):
            ctx.viol(f.qual, f"the weighted acquisition has {show(mine[-1])[:80] if mine else 'no'} pending points instead of those of the acquisition it weighs", p)
        if none is None and mine and not pending_of(mine[-1]):
            broken("the pending points", show(mine[-1])[:100])
        lg = p.state.heap.get((o, "_log"))
        if lg is None:
            broken("the scale of the weighted acquisition", "_log is not set")
        if fz(p, lg) not in (("a", P("acq_fn"), "_log"), ("op", "getattr", P("acq_fn"), C("_log"))):
            ctx.viol(f.qual, f"the weighted acquisition says that its log scale is {show(fz(p, lg))[:80]}, not what that of the acquisition is", p)
    ctx.need(seen, "the pending points")
    fwd = ctx.func(q + ".forward")
    if not any(d.split("(")[0].split(".")[-1] == "concatenate_pending_points" for d in fwd.decorators):
        for p in ctx.paths(fwd, exc=False, opaque=outside(ctx, fwd)):
            if p.outcome[0] == "return" and not any(z[0] == "a" and z[2] == "X_pending" for z in subterms(fz(p, p.outcome[1]))):
                ctx.viol(fwd.qual, "the acquisition is computed without the pending points", p)


def pending_of(t):
    if t[0] == "a":
        return t[1] == P("acq_fn") and t[2] == "X_pending"
    return t[0] == "op" and t[1] == "getattr" and t[2] == P("acq_fn") and t[3] == C("X_pending")


def acq_parts(ctx):
    """The weights are given the prior, the exponent, the domain, the cost model and the share of the budget that were asked for."""
    ctx.ob("fit_and_acquire_from_gp: the weights get the given prior, exponent and share of the budget, the encoder's domains and the model of the costs")
    f = ctx.func(GPM + ".fit_and_acquire_from_gp")
    seen = set()
    for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"seed": NONE}):
        if p.outcome[0] != "return":
            continue
        pi, co = only(ctx, p, "pibo_acquisition", "the prior's weight"), only(ctx, p, "cost_cooled_acq", "the cost's weight")
        if pi is not None:
            seen.add("p")
            for n, pos, want in (("prior", 1, P("prior")), ("prior_exponent", 2, P("pibo_exp_term")), ("x_domain", 3, ("a", P("encoder"), "domains"))):
                got = kwarg(pi, n, pos)
                ctx.need(got is not None, "the prior's weight")
                if fz(p, got) != want:
                    ctx.viol(f.qual, f"the prior weighs with {n} {show(fz(p, got))[:100]} instead of {show(want)}", p)
        if co is not None:
            seen.add("c")
            m, u = kwarg(co, "model", 1), kwarg(co, "used_budget_percentage", 2)
            ctx.need(m is not None and u is not None, "the cost's weight")
            if fz(p, u) != P("cost_percentage_used"):
                ctx.viol(f.qual, f"the cost weighs as if {show(fz(p, u))[:100]} of the budget was used", p)
            m = fz(p, m)
            if m in (P("gp"), P("cost_gp")):
                ctx.viol(f.qual, f"the cost is that of the model {show(m)}, which is not fitted to the costs", p)
            elif not (m[0] == "call" and P("costs") in set(subterms(m))):
                broken("the model of the costs", show(m)[:100])
        for name, c in (("pibo_acquisition", pi), ("cost_cooled_acq", co)):
            if c is not None:
                a = kwarg(c, "acq_fn", 0)
                if a is None or P("acquisition") not in set(subterms(fz(p, a))):
                    ctx.viol(f.qual, f"{name} weighs {show(fz(p, a))[:80] if a else 'nothing'}, not the acquisition that was given", p)
    ctx.need(seen == {"p", "c"}, "the weights")


SMALL = 0.01


def holds(p, leaf):
    for a, b in items(p):
        if a[0] in ("truthy", "ge", "eq"):
            try:
                xs = [value(fz(p, x), leaf) for x in a[1:]]
                r = bool(xs[0]) if a[0] == "truthy" else xs[0] >= xs[1] if a[0] == "ge" else xs[0] == xs[1]
            except (Unfollowed, TypeError, ValueError, ArithmeticError):
                continue
            if r is not b:
                return False
    return True


def present(p, t):
    """Whether the value is there on this path (None if it is not asked)."""
    for a, b in items(p):
        if a == ("isnone", t):
            return not b
    for a, b in items(p):
        if a == ("truthy", t):
            return b
    return None


def fading(ctx, f, uses, scenes, leaf, what):
    """uses: (path, exponent or None where the prior is not used). The exponent falls over each scene's points, is positive, and the prior is left out only where it is small."""
    terms = {}
    for p, e in uses:
        if e is not None:
            terms.setdefault(e, p)
    ctx.need(terms, what)
    try:
        for sc in scenes:
            last = None
            for pt in sc:
                lf = leaf(pt)
                here = [(p, e) for p, e in uses if holds(p, lf)]
                if not here:
                    broken(what, f"no path for {pt}")
                vals = [(p, e, value(e, lf)) for p, e in here if e is not None]
                ref = vals[0][2] if vals else min(value(e, lf) for e in terms)
                for p, e, v in vals:
                    if v <= 0 or not close(v, ref):
                        ctx.viol(f.qual, f"{what}: the exponent of the prior is {v:.3g} at {pt}", p)
                        return
                for p, e in here:
                    if e is None and ref > SMALL:
                        ctx.viol(f.qual, f"{what}: the prior is left out although its exponent is {ref:.3g} at {pt}", p)
                        return
                if vals:
                    if last is not None and not ref < last[1]:
                        ctx.viol(f.qual, f"{what}: the exponent of the prior does not fade: it is {last[1]:.3g} at {last[0]} and {ref:.3g} at {pt}", vals[0][0])
                        return
                    last = (pt, ref)
    except (Unfollowed, TypeError, ValueError, ArithmeticError) as e:
        broken(what, e)


def acq_fades(ctx):
    """The prior is used until its exponent is negligible, and its exponent falls with every evaluation."""
    ctx.ob("BayesianOptimization.ask: with a prior, it weighs the acquisition unless its exponent is small; the exponent falls with the number of trials")
    f = ctx.func(BO + ".ask")
    models = {"encode_trials_for_gp": ("tup", (new(GPM + ".GPEncodedData", x=P("data.x"), y=P("data.y"), cost=P("data.cost"), x_pending=P("data.pending")), P("enc")))}
    T, B = P("trials"), P("budget_info")
    prior = ("a", P("self"), "prior")
    uses = []

    def leaf(pt):
        n, i, d = pt

        def get(t):
            if t[0] == "op" and t[1] == "len":
                return n if T in set(subterms(t)) and t[2] in (T, ("op", "list", T)) else i
            if t[0] == "a" and t[2] == "ncols" or t[0] == "op" and t[1] == "len" and P("enc") in set(subterms(t)):
                return d
            return None

        return get

    for p in ctx.paths(f.qual, exc=False, opaque=outside(ctx, f), models=models):
        if p.outcome[0] != "return":
            continue
        c = only(ctx, p, "fit_and_acquire_from_gp", "the acquisition")
        if c is None:
            continue
        kw = {k: fz(p, v) for k, v in c[5]}
        if kw.get("costs", NONE) != NONE:
            sh = kw.get("cost_percentage_used", NONE)
            try:
                got = value(sh, lambda t: {("a", B, "used_cost_budget"): 3.0, ("a", B, "max_cost_budget"): 16.0, ("a", B, "max_evaluation_time"): 7.0}.get(t))
            except (Unfollowed, TypeError) as e:
                broken("the share of the budget", e)
            if got != 3.0 / 16.0:
                ctx.viol(f.qual, f"{show(sh)[:120]} is taken as the share of the cost budget that is used", p)
        if present(p, prior) is not True or [b for a, b in items(p) if a == ("truthy", prior)] == [False]:
            if kw.get("prior", NONE) not in (NONE, prior):
                ctx.viol(f.qual, f"the acquisition is weighed by {show(kw['prior'])[:80]} although there is no prior", p)
            continue
        given = kw.get("prior", NONE)
        if given not in (NONE, prior):
            ctx.viol(f.qual, f"the acquisition is weighed by {show(given)[:80]} instead of the prior", p)
            continue
        uses.append((p, kw.get("pibo_exp_term", NONE) if given == prior else None))
    fading(ctx, f, uses, [[(n, i, d) for n in (i, i + 1, i + 2, i + 5, i + 9, i + 30, i + 200)] for i in (2, 5) for d in (1, 3, 8)], leaf, "the prior's weight")


def acq_fades_mf(ctx):
    """The prior of a multi-fidelity model is used until its exponent is negligible, and its exponent falls as resources are used."""
    ctx.ob("ModelPolicy.update_model: with a prior, it weighs the acquisition unless its exponent is small; the exponent falls with the resources used")
    f = ctx.func(MP + ".update_model")
    prior, dom = ("a", P("self"), "prior"), ("a", ("a", P("self"), "_encoder"), "domains")
    uses = []
    for p in ctx.paths(f.qual, exc=False, opaque=outside(ctx, f)):
        if p.outcome[0] != "return":
            continue
        c = only(ctx, p, "pibo_acquisition", "the prior's weight")
        acq = p.state.heap.get((P("self"), "_acq"))
        ctx.need(acq is not None, "the acquisition")
        acq = fz(p, acq)
        if present(p, prior) is not True:
            continue
        if c is None:
            uses.append((p, None))
            continue
        if not any(z[0] == "call" and tail(z[2]) == "pibo_acquisition" for z in subterms(acq)):
            ctx.viol(f.qual, f"the acquisition that is kept, {show(acq)[:100]}, is not the one that the prior weighs", p)
        for n, pos, want in (("prior", 1, prior), ("x_domain", 3, dom)):
            got = kwarg(c, n, pos)
            ctx.need(got is not None, "the prior's weight")
            if fz(p, got) != want:
                ctx.viol(f.qual, f"the prior weighs with {n} {show(fz(p, got))[:100]} instead of {show(want)}", p)
        uses.append((p, fz(p, kwarg(c, "prior_exponent", 2))))
    fading(ctx, f, uses, [[x for x in (0.25, 1.0, 3.0, 10.0, 250.0, 999.0, 5e4, 2e5, 1e7)]], lambda pt: lambda t: pt if t == P("decay_t") else None, "the prior's weight")
