"""Rules about the rungs and brackets of the multi-fidelity searchers.

The constructors are analysed with literal bounds, reduction factors and early stopping
rates, so that the tables they build come out as literals, which are compared with the
tables that follow from the documented formulas in exact arithmetic.
"""
from __future__ import annotations

from fractions import Fraction

from rules.api import is_searcher_class
from rules.models import new
from rules.proposals import LIT
from rules.searchers import multi_fidelity
from rules.store import tail
from sa.core import calls, fz
from sa.terms import C, show, subterms

KINDS = {
    "int": "neps.search_spaces.hyperparameters.integer.IntegerParameter",
    "float": "neps.search_spaces.hyperparameters.float.FloatParameter",
}
SPACE = "neps.search_spaces.search_space.SearchSpace"
# kind of fidelity, lower bound, upper bound, reduction factor
SCALES = (
    ("int", "1", "81", 3),
    ("int", "1", "216", 6),
    ("int", "1", "243", 3),
    ("int", "1", "1000", 10),
    ("int", "3", "100", 3),
    ("int", "4", "15", 4),
    ("float", "0.1", "3.6", 6),
    ("float", "0.5", "10.0", 2),
)


def tables(kind, lo, up, eta, s):
    """rung -> fidelity and rung -> number of configurations of the bracket `s`."""
    lo, up = Fraction(lo), Fraction(up)
    top = 0
    while up / eta ** (top + 1) >= lo:
        top += 1
    if s > top:
        return None
    fid = {i: up / eta ** (top - i) for i in range(s, top + 1)}
    if kind == "int":
        fid = {i: Fraction(int(v)) for i, v in fid.items()}
    n = (top + 1) // (top - s + 1) * eta ** (top - s)
    num = {i: n // eta ** (i - s) for i in range(s, top + 1)}
    return top, fid, num


def mapping(p, t):
    """A literal mapping of numbers, or None."""
    t = fz(p, t)
    if t[0] != "dict":
        return None
    out = {}
    for k, v in t[1]:
        if k == "**" or k[0] != "c" or v[0] != "c" or not isinstance(v[2], (int, float)):
            return None
        out[k[2]] = v[2]
    return out


def differs(got, want):
    return set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-9 * abs(want[k]) for k in want)


def space(kind, lo, up):
    num = (lambda x: C(int(x))) if kind == "int" else (lambda x: C(float(x)))
    fid = new(KINDS[kind], lower=num(lo), upper=num(up), is_fidelity=C(True))
    one = ("dict", ((C("epochs"), fid),))
    none = ("dict", ())
    return new(
        SPACE, fidelity=fid, fidelities=one, hyperparameters=one, numerical=none, categoricals=none, constants=none, has_prior=C(False),
    )


def outcomes(ctx, cls, kind, lo, up, eta, s, only=None):
    """The ways in which the constructor can end successfully."""
    f = cls.find_method("__init__")

    mods = {k.module.name for k in cls.mro()}

    def opaque(g):
        if g.cls is None:
            return g.module.name not in mods
        if g.name == "__init__" and any(k.name == "PromotionPolicy" for k in g.cls.mro()):
            return False
        return not is_searcher_class(ctx, g.cls) and g.cls not in cls.mro() or g.name == "_enhance_priors"

    args = {"pipeline_space": space(kind, lo, up), "eta": C(eta)}
    names = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    if "prior_confidence" in names:
        args["prior_confidence"] = C("medium")
    if "early_stopping_rate" in names:
        args["early_stopping_rate"] = C(s)
    elif s:
        return None
    ps = ctx.paths(f, exc=False, opaque=opaque, args=args, exact_self=cls, literal_limit=LIT)
    if any(p.outcome[0] not in ("return", "raise") for p in ps):
        return False
    return [p for p in ps if p.outcome[0] == "return"]


def bracket_ok(ctx, p, obj, want, where, f):
    top, fid, num = want
    heap = p.state.heap
    for attr, spec, what in (
        ("rung_map", fid, "the fidelities of the rungs"),
        ("config_map", num, "the numbers of configurations of the rungs"),
    ):
        t = heap.get((obj, attr))
        ctx.need(t is not None, f"{where}: no {attr}")
        got = mapping(p, t)
        ctx.need(got is not None, f"{where}: {attr} is not a literal table: {show(fz(p, t))[:160]}")
        if differs(got, spec):
            ctx.viol(f.qual, f"{where}: {what} are {got} instead of { {k: (int(v) if v.denominator == 1 else float(v)) if isinstance(v, Fraction) else v for k, v in spec.items()} }")
            return False
    for attr, v in (("min_rung", min(fid)), ("max_rung", max(fid))):
        t = heap.get((obj, attr))
        ctx.need(t is not None and t[0] == "c", f"{where}: {attr} is not a literal")
        if t[2] != v:
            ctx.viol(f.qual, f"{where}: {attr} is {t[2]} instead of {v}")
            return False
    pol = heap.get((obj, "promotion_policy"))
    t = heap.get((pol, "eta")) if pol is not None else None
    eta = heap.get((obj, "eta"))
    if pol is not None and t is None and pol[0] == "call":
        t = next((x for x in [*pol[4], *dict(pol[5]).values()] if x[0] == "c" and x[1] in ("int", "float")), None)
    if t is not None and t[0] == "c" and eta is not None and t != eta:
        ctx.viol(f.qual, f"{where}: the promotion policy is given {show(t)} as the reduction factor instead of {show(eta)}")
        return False
    return True


def rungs(ctx):
    """Every bracket has a rung per power of eta between the bounds, with the fidelity and the number of configurations of Hyperband"""
    n = 0
    for cls in multi_fidelity(ctx):
        f = cls.find_method("__init__")
        for kind, lo, up, eta in SCALES:
            for s in (0, 1, 2):
                want = tables(kind, lo, up, eta, s)
                if want is None:
                    continue
                ps = outcomes(ctx, cls, kind, lo, up, eta, s)
                if ps is None:
                    continue
                where = f"{cls.name} with fidelity in [{lo}, {up}], eta={eta}" + (f", early_stopping_rate={s}" if s else "")
                ctx.need(ps is not False, f"{where}: the constructor could not be followed")
                if not ps:
                    ctx.viol(f.qual, f"{where}: cannot be constructed")
                    continue
                for p in ps:
                    n += 1
                    if not bracket_ok(ctx, p, ("p", "self"), want, where, f):
                        return
                    if not brackets_ok(ctx, p, want[0], (kind, lo, up, eta), where, f, cls):
                        return
    ctx.ob(f"{n} ways of constructing the multi-fidelity searchers: the tables of rungs")


def brackets_ok(ctx, p, top, scale, where, f, cls):
    t = p.state.heap.get((("p", "self"), "sh_brackets"))
    if t is None:
        return True
    c = p.state.heap.get((t, "#"), t)
    ctx.need(c[0] == "dict", f"{where}: the brackets are not a literal mapping: {show(fz(p, t))[:160]}")
    if [k[2] if k != "**" and k[0] == "c" else None for k, _ in c[1]] != list(range(top + 1)):
        ctx.viol(f.qual, f"{where}: the brackets are {[show(k) if k != '**' else k for k, _ in c[1]]} instead of one per early stopping rate up to {top}")
        return False
    return all(
        bracket_ok(ctx, p, b, tables(*scale, k[2]), f"{where}: bracket {k[2]}", f) and alike(ctx, p, b, f"{where}: bracket {k[2]}", f, cls)
        for k, b in c[1]
    )


PER_BRACKET = {"early_stopping_rate"}
SHARED = ("sampling_args", "model_policy", "sampling_policy", "promotion_policy", "eta", "pipeline_space", "use_priors")


def made(t):
    """A value up to which evaluation of a call made it."""
    if isinstance(t, tuple):
        if t and t[0] == "call":
            return ("call", *map(made, t[2:]))
        if t and t[0] == "o":
            return ("o", *map(made, t[2:]))
        return tuple(made(x) for x in t)
    return t


def alike(ctx, p, b, where, f, cls):
    """A bracket samples, promotes and treats errors as its searcher is set up to."""
    heap = p.state.heap
    me = ("p", "self")
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs if a.arg not in PER_BRACKET] + list(SHARED)
    for a in dict.fromkeys(names):
        mine, its = heap.get((me, a)), heap.get((b, a))
        if mine is None or its is None:
            continue
        mine, its = fz(p, mine), fz(p, its)
        if made(mine) != made(its):
            ctx.viol(f.qual, f"{where}: has {a}={show(its)[:80]} although the searcher has {show(mine)[:80]}")
            return False
    its = ctx.prog.classes.get(b[2]) if b[0] == "o" else None
    if its is None:
        return True
    m1, m2 = cls.find_method("sample_new_config"), its.find_method("sample_new_config")
    if m1 is not None and m1 is not m2:
        v = heap.get((b, "sample_new_config"))
        if v is None or v[0] == "bm" and (v[1] != me or v[2] != m1.qual):
            ctx.viol(f.qual, f"{where}: samples by {m2.qual if v is None else show(v)} instead of the searcher's {m1.qual}")
            return False
    return True


def vector(t):
    """The numbers of an expression of literals: a float or a list of them."""
    if t[0] == "c" and isinstance(t[2], (int, float)):
        return float(t[2])
    if t[0] == "dict":
        return [vector(k) for k, _ in t[1]]
    if t[0] in ("list", "tup"):
        return [vector(x) for x in t[1]]
    if t[0] == "bin":
        a, b = vector(t[2]), vector(t[3])
        fn = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "**": lambda x, y: x**y}[t[1]]
        if isinstance(a, list) and isinstance(b, list):
            return [fn(x, y) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [fn(x, b) for x in a]
        if isinstance(b, list):
            return [fn(a, y) for y in b]
        return fn(a, b)
    if t[0] in ("op", "call"):
        name = tail(t[1] if t[0] == "op" else t[2])
        ar = t[2:] if t[0] == "op" else ([t[3]] if t[3] is not None else []) + list(t[4])
        if name in ("array", "asarray", "list", "tuple", "float", "astype", ".astype", ".tolist"):
            return vector(ar[0])
        if name in ("sum", ".sum", "fsum"):
            v = vector(ar[0])
            return sum(v) if isinstance(v, list) else v
        if name in ("range", "arange") and len(ar) == 1:
            return [float(i) for i in range(int(vector(ar[0])))]
        if name in ("range", "arange") and len(ar) == 2:
            return [float(i) for i in range(int(vector(ar[0])), int(vector(ar[1])))]
    raise KeyError(show(t)[:80])


def drawn(ctx):
    """An asynchronous Hyperband draws one of its brackets with Hyperband's odds and proposes what that bracket proposes"""
    n = 0
    for cls in multi_fidelity(ctx):
        f = cls.find_method("get_config_and_ids")
        ctx.need(f is not None, f"{cls.name}: no get_config_and_ids")
        for top, eta in ((3, 3), (2, 4), (0, 3)):
            me = new(
                cls.qual, max_rung=C(top), min_rung=C(0), eta=C(eta),
                sh_brackets=("dict", tuple((C(i), ("p", f"b{i}")) for i in range(top + 1))),
            )
            ps = ctx.paths(f, exc=False, literal_limit=LIT, self_term=me, exact_self=cls, opaque=lambda g: not g.name.startswith("_get"))
            picks = {c for p in ps for _, c in calls(p) if tail(c[2]) in ("choice", "choices") and any(x[0] == "p" and str(x[1])[:1] == "b" for x in subterms(fz(p, p.outcome[1])))}
            if not picks:
                continue
            ctx.need(len(picks) == 1, f"{f.qual}: several draws")
            (c,) = picks
            n += 1
            kw = dict(c[5])
            dom = c[4][0] if c[4] else kw.get("a", kw.get("population"))
            w = kw.get("p", kw.get("weights"))
            ctx.need(dom is not None, f"{f.qual}: what is drawn from")
            q = next(p for p in ps if c in [x for _, x in calls(p)])
            dom, w = fz(q, dom), w if w is None else fz(q, w)
            try:
                dom = vector(("op", "range", dom) if dom[0] == "c" else dom)
                w = [1.0] * len(dom) if w is None else vector(w)
            except (KeyError, ArithmeticError) as e:
                ctx.need(False, f"{f.qual}: the odds {e}")
            if sorted(dom) != [float(i) for i in range(top + 1)] or len(w) != len(dom):
                ctx.viol(f.qual, f"with brackets 0..{top}, one of {dom} is drawn")
                return
            odds = {s: eta ** (top - s) * (top + 1) / (top - s + 1) for s in range(top + 1)}
            if any(abs(x / sum(w) - odds[int(s)] / sum(odds.values())) > 1e-9 for s, x in zip(dom, w)):
                ctx.viol(f.qual, f"with {top + 1} brackets and eta={eta} the odds are {w} instead of being in proportion to {[odds[int(s)] for s in dom]}")
                return
            for p in ps:
                if p.outcome[0] != "return":
                    continue
                r = fz(p, p.outcome[1])
                src = {x for x in subterms(r) if x[0] == "call" and tail(x[2]) == "get_config_and_ids"}
                ctx.need(len(src) == 1, f"{f.qual}: what is returned")
                (g,) = src
                if r != g and not (r[0] == "tup" and [whole(x) for x in r[1]] == [(g, 0), (g, 1), (g, 2)]):
                    ctx.viol(f.qual, f"what the bracket proposes is returned as {show(r)[:160]}", p)
                    return
                b = g[3]
                if b is not None and b[0] == "sub" and c in bare(("eq", b[2])):
                    continue
                ctx.need(b is not None and b[0] == "p", f"{f.qual}: the bracket {show(g)[:200]}")
                k = int(b[1][1:])
                tests = [(a, v) for a, v in p.facts.items() if a[0] == "eq" and c in set(subterms(a))]
                right = [bare(a) == {c, C(k)} for a, v in tests if v]
                if right and not all(right):
                    ctx.viol(f.qual, f"bracket {k} proposes although another one was drawn", p)
                    return
    ctx.ob(f"{n} draws of a bracket: among all brackets, with the odds of Hyperband, and that bracket proposes")


def whole(t):
    if t[0] == "it":
        return (t[1], t[2])
    if t[0] == "sub" and t[2][0] == "c":
        return (t[1], t[2][2])
    return (t, None)


def bare(a):
    def strip(t):
        while t[0] == "op" and t[1] in ("int", ".item") and len(t) == 3:
            t = t[2]
        return t

    return {strip(x) for x in a[1:]}
