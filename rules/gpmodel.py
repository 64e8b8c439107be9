"""Rules about the Gaussian-process model and the search over its acquisition.

The functions are analysed with literal encoders (hyperparameters of each kind in several
numbers and orders), so that the kernels, bounds and combinations of categories that they
hand to the libraries come out as literals.
"""
from __future__ import annotations

import itertools

from rules.models import GPM, P, kwarg, new, only
from rules.proposals import LIT, outside
from rules.scalars import parts
from rules.store import tail
from sa.core import fz
from sa.terms import C, FALSE, NONE, TRUE, show, subterms

E = "neps.search_spaces.encoding."
DOM = "neps.search_spaces.domain.Domain"
# a number of categories, or the bounds of a numeric domain
SPECS = (
    {"a": (0.25, 1.0), "b": 3, "c": 2, "d": (0.0, 2.0)},
    {"a": 2, "b": (0.25, 1.5), "c": 3},
    {"a": (0.25, 1.0), "b": (1.0, 2.0), "c": (0.0, 4.0)},
    {"a": 2},
    {"a": 2, "b": 3, "c": 2},
    {"a": (0.5, 1.0), "b": 4},
)


def encoder(spec):
    tr, ix, do = [], [], []
    for i, (n, k) in enumerate(sorted(spec.items())):
        if isinstance(k, int):
            d = new(DOM, lower=C(0), upper=C(k - 1), bounds=("tup", (C(0), C(k - 1))), cardinality=C(k), is_categorical=TRUE)
            t = new(E + "CategoricalToIntegerTransformer", choices=("tup", tuple(C(f"v{j}") for j in range(k))), domain=d)
        else:
            d = new(DOM, lower=C(k[0]), upper=C(k[1]), bounds=("tup", (C(k[0]), C(k[1]))), cardinality=NONE, is_categorical=FALSE)
            t = new(E + "MinMaxNormalizer", domain=d, original_domain=P("original"))
        tr.append((C(n), t))
        ix.append((C(n), C(i)))
        do.append((C(n), d))
    ncat = sum(isinstance(k, int) for k in spec.values())
    return new(
        E + "ConfigEncoder", transformers=("dict", tuple(tr)), index_of=("dict", tuple(ix)), domain_of=("dict", tuple(do)), constants=("dict", ()),
        n_categorical=C(ncat), n_numerical=C(len(spec) - ncat),
    )


def columns(spec):
    cats = {i: k for i, (_, k) in enumerate(sorted(spec.items())) if isinstance(k, int)}
    return cats, {i for i in range(len(spec))} - set(cats)


def words(spec):
    return "[" + ", ".join(f"{k} categories" if isinstance(k, int) else f"{k[0]}..{k[1]}" for _, k in sorted(spec.items())) + "]"


def numbers(t):
    """A literal (nested) sequence of numbers behind conversions to tensors; None if it is not one."""
    if t[0] == "c" and isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
        return float(t[2])
    if t[0] in ("list", "tup"):
        out = [numbers(x) for x in t[1]]
        return None if any(x is None for x in out) else out
    if t[0] in ("op", "call"):
        name, ar, _ = parts(t)
        if name in ("tensor", "as_tensor", "array", "asarray", "to", "double", "float", "list", "tuple", "contiguous", "clone", "type") and ar:
            return numbers(ar[0])
        if name == "stack" and ar:
            return numbers(ar[0])
        if name in ("t", "transpose") and ar:
            m = numbers(ar[0])
            return [list(r) for r in zip(*m)] if isinstance(m, list) and m and all(isinstance(r, list) for r in m) else None
    if t[0] == "a" and t[2] in ("T", "mT"):
        m = numbers(t[1])
        return [list(r) for r in zip(*m)] if isinstance(m, list) and m and all(isinstance(r, list) for r in m) else None
    return None


def whole_space(ctx):
    """The acquisition is optimised between the bounds of every column and over every combination of categories."""
    f = ctx.func(GPM + ".optimize_acq")
    n = 0
    for spec in SPECS:
        cats, _ = columns(spec)
        total = 1
        for k in cats.values():
            total *= k
        dims = [(0.0, k - 1.0) if isinstance(k, int) else k for _, k in sorted(spec.items())]
        want = {tuple(sorted(zip(cats, map(float, c)))) for c in itertools.product(*(range(k) for k in cats.values()))}
        for limit in (30, total, total - 1) if cats else (30,):
            ps = ctx.paths(f.qual, exc=False, literal_limit=LIT, args={"encoder": encoder(spec), "maximum_allowed_categorical_combinations": C(limit)})
            ways = {p.outcome[0] for p in ps}
            ctx.need(ways <= {"return"} or ways <= {"raise"}, f"whether {total} combinations are too many of {limit}")
            for p in ps:
                n += 1
                if p.outcome[0] == "raise":
                    if total <= limit:
                        ctx.viol(f.qual, f"over {words(spec)} a search of {total} combinations is refused where {limit} are allowed", p)
                    continue
                if p.outcome[0] != "return":
                    continue
                if total > limit:
                    ctx.viol(f.qual, f"over {words(spec)} a search of {total} combinations is not refused where {limit} are allowed", p)
                    continue
                r = fz(p, p.outcome[1])
                c = {x for x in subterms(r) if x[0] == "call" and tail(x[2]) in ("optimize_acqf", "optimize_acqf_mixed", "optimize_acqf_discrete", "optimize_acqf_mixed_alternating")}
                ctx.need(len(c) == 1, f"the optimiser over {words(spec)}")
                (c,) = c
                name = tail(c[2])
                ctx.need(name in ("optimize_acqf", "optimize_acqf_mixed") and not any(k == "**" and v[0] != "p" and v[0] != "op" for k, v in c[5]), f"the optimiser {name}")
                kw = {k: fz(p, v) for k, v in c[5]}
                for k, v in zip(("acq_function", "bounds", "q", "num_restarts"), c[4]):
                    kw.setdefault(k, fz(p, v))
                if kw.get("acq_function") != P("acq_fn"):
                    ctx.viol(f.qual, f"optimises {show(kw.get('acq_function', NONE))[:80]} instead of the acquisition", p)
                b = numbers(kw.get("bounds", NONE))
                ctx.need(b is not None, f"the bounds {show(kw.get('bounds', NONE))[:120]}")
                if b != [[x[0] for x in dims], [x[1] for x in dims]]:
                    ctx.viol(f.qual, f"over {words(spec)} the acquisition is optimised between {b}, not over the whole space", p)
                q = kw.get("q")
                if q is not None and q != P("n_candidates_required"):
                    ctx.viol(f.qual, f"{show(q)[:60]} candidates are searched for instead of the number required", p)
                fx = kw.get("fixed_features_list", NONE)
                if name == "optimize_acqf":
                    fx = NONE if kw.get("fixed_features", NONE) == NONE else None
                    ctx.need(fx is not None, "a search with fixed features")
                if not cats:
                    if fx != NONE:
                        ctx.viol(f.qual, f"over {words(spec)}, without categories, the search is restricted to {show(fx)[:100]}", p)
                    continue
                if fx == NONE:
                    ctx.viol(f.qual, f"over {words(spec)} categories are optimised as if they were numbers", p)
                    continue
                got = combos(fx)
                ctx.need(got is not None, f"the combinations {show(fx)[:120]}")
                if set(got) != want:
                    miss, extra = sorted(want - set(got)), sorted(set(got) - want)
                    ctx.viol(f.qual, f"over {words(spec)} the combinations of categories searched lack {miss[:3]} and have {extra[:3]} in excess (column, category)", p)
    ctx.ob(f"{n} searches for the optimum of an acquisition: bounds of every column, every combination of categories")


def combos(t):
    if t[0] in ("op", "call") and parts(t)[0] in ("list", "tuple") and parts(t)[1]:
        t = parts(t)[1][0]
    if t[0] not in ("list", "tup"):
        return None
    out = []
    for d in t[1]:
        if d[0] != "dict" or any(k == "**" or k[0] != "c" or v[0] != "c" for k, v in d[1]):
            return None
        out.append(tuple(sorted((k[2], float(v[2])) for k, v in d[1])))
    return out


def dims_of(t):
    """The columns a kernel is restricted to: a list, None if it has all, or False if unknown."""
    _, _, kw = parts(t)
    a = kw.get("active_dims", NONE)
    if a == NONE:
        return None
    v = numbers(a)
    return False if v is None else [int(x) for x in v]


def kernels(t):
    """The kernels at the bottom of a covariance: [(is it for categories?, columns, its term)]"""
    if t[0] == "bin" and t[1] in ("+", "*"):
        return kernels(t[2]) + kernels(t[3])
    if t[0] in ("op", "call"):
        name, ar, kw = parts(t)
        if name in ("ScaleKernel", "AdditiveKernel", "ProductKernel"):
            sub = [x for x in [*ar, *(v for k, v in kw.items() if k in ("base_kernel", "kernels"))] if x[0] in ("op", "call", "bin")]
            return [k for x in sub for k in kernels(x)]
        if name == "CategoricalKernel":
            return [(True, dims_of(t), t)]
        if name.endswith("Kernel") or name.startswith("get_covar_module") or name.startswith("get_") and "kernel" in name:
            return [(False, dims_of(t), t)]
    raise LookupError(show(t)[:100])


def every_column(ctx):
    """The kernel of the model has every column exactly once: categories in a kernel for categories, numbers in one for numbers."""
    f = ctx.func(GPM + ".make_default_single_obj_gp")
    n = 0
    for spec in SPECS:
        cats, nums = columns(spec)
        for given in (P("given"), NONE):
            for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, args={"encoder": encoder(spec), "y_transform": given}):
                if p.outcome[0] != "return":
                    if p.outcome[0] == "raise":
                        ctx.viol(f.qual, f"cannot model {words(spec)}", p)
                    continue
                n += 1
                t = fz(p, p.outcome[1])
                ctx.need(t[0] in ("op", "call"), "the model")
                name, ar, kw = parts(t)
                ctx.need(name == "SingleTaskGP", f"the model {name}")
                for k, v in zip(("train_X", "train_Y"), ar):
                    kw.setdefault(k, v)
                if kw.get("train_X") != P("x"):
                    ctx.viol(f.qual, f"the model is trained on {show(kw.get('train_X', NONE))[:80]} instead of the encoded configurations", p)
                y = kw.get("train_Y", NONE)
                if P("y") not in set(subterms(y)):
                    ctx.viol(f.qual, f"the model is trained on the outcomes {show(y)[:80]} instead of those given", p)
                tr = kw.get("outcome_transform", NONE)
                none = given == NONE or p.facts.get(("isnone", given)) is True
                if not none and tr != given:
                    ctx.viol(f.qual, f"the outcomes are transformed by {show(tr)[:80]} instead of what is given", p)
                if none and tr != NONE and tr[0] in ("op", "call") and parts(tr)[0] != "Standardize":
                    ctx.need(False, f"the transformation of outcomes {show(tr)[:80]}")
                k = kw.get("covar_module", NONE)
                try:
                    ks = [(False, None, None)] if k == NONE else kernels(k)
                except LookupError as e:
                    ctx.need(False, f"the kernel {e}")
                ctx.need(all(d is not False for _, d, _ in ks), "the columns of a kernel")
                full = list(range(len(spec)))
                for cat, want, what in ((True, set(cats), "categories"), (False, nums, "numbers")):
                    got = [i for c, d, _ in ks if c is cat for i in (full if d is None else d)]
                    if sorted(got) != sorted(want):
                        ctx.viol(f.qual, f"over {words(spec)} the kernels for {what} have the columns {sorted(got)} instead of {sorted(want)}", p)
                for c, d, term in ks:
                    if term is None:
                        continue
                    a = parts(term)[2].get("ard_num_dims", NONE)
                    if a[0] == "c" and isinstance(a[2], int) and a[2] != len(full if d is None else d):
                        ctx.viol(f.qual, f"over {words(spec)} a kernel of {len(full if d is None else d)} columns has {a[2]} length scales", p)
    ctx.need(n > 0, "the model")
    ctx.ob(f"{n} ways of making the model: every column in exactly one kernel of its kind")


def fits(p):
    """The models that were fitted, with the position of the fit."""
    out = []
    for i, e in enumerate(p.events):
        if e[0] == "call" and tail(e[1][2]).startswith("fit_gpytorch"):
            args = [fz(p, x) for x in [*e[1][4], *dict(e[1][5]).values()]]
            out.append((i, {x for a in args for x in subterms(a)}))
    return out


def fitted(ctx):
    """The models are fitted, the one of the costs to the configurations with a cost, before the acquisition is optimised, and what is found is returned."""
    f = ctx.func(GPM + ".fit_and_acquire_from_gp")
    n = 0
    for p in ctx.paths(f.qual, exc=False, literal_limit=LIT, opaque=outside(ctx, f), args={"seed": NONE}):
        if p.outcome[0] != "return":
            continue
        n += 1
        at = [i for i, e in enumerate(p.events) if e[0] == "call" and tail(e[1][2]) == "optimize_acq"]
        ctx.need(len(at) == 1, "the search for the optimum")
        c = p.events[at[0]][1]
        r = fz(p, p.outcome[1])
        ctx.need(c in set(subterms(r)), "what is returned")
        if r == ("it", c, 1) or r[0] == "sub" and r[1] == c and r[2] == C(1):
            ctx.viol(f.qual, "returns the values of the acquisition instead of the candidates", p)
        kw = {k: fz(p, v) for k, v in c[5]}
        if kw.get("encoder", P("encoder")) != P("encoder"):
            ctx.viol(f.qual, f"searches the space of {show(kw['encoder'])[:80]}", p)
        q = kw.get("n_candidates_required", C(1))
        if p.facts.get(("isnone", P("n_candidates_required"))) is True and q not in (C(1), P("n_candidates_required")) or p.facts.get(("isnone", P("n_candidates_required"))) is False and q != P("n_candidates_required"):
            ctx.viol(f.qual, f"searches for {show(q)[:60]} candidates", p)
        elif ("isnone", P("n_candidates_required")) not in p.facts and not any(P("n_candidates_required") in set(subterms(x)) for x in [q, *p.facts]):
            ctx.viol(f.qual, f"searches for {show(q)[:60]} candidates whatever number is required", p)
        m = kw.get("maximum_allowed_categorical_combinations")
        if m is not None and m != P("maximum_allowed_categorical_combinations"):
            ctx.viol(f.qual, f"allows {show(m)[:60]} combinations of categories", p)
        ft = fits(p)
        if not any(i < at[0] and P("gp") in s for i, s in ft):
            ctx.viol(f.qual, "the acquisition of a model is optimised that has not been fitted before", p)
        co = only(ctx, p, "cost_cooled_acq", "the cost's weight")
        if co is None:
            continue
        m = kwarg(co, "model", 1)
        ctx.need(m is not None, "the model of the costs")
        m = fz(p, m)
        if m[0] != "call":
            continue
        if not any(i < at[0] and m in s for i, s in ft):
            ctx.viol(f.qual, "the costs are weighed by a model that has not been fitted to them", p)
        x, y = kwarg(m, "x", 0), kwarg(m, "y", 1)
        if x is None or y is None:
            continue
        x, y = fz(p, x), fz(p, y)
        mx, my = mask(x, P("x_train")), mask(y, P("costs"))
        ctx.need(mx is not None and my is not None, f"the data of the model of the costs {show(x)[:60]} {show(y)[:60]}")
        if mx != my:
            ctx.viol(f.qual, f"the model of the costs is trained on configurations {mx and show(mx)[:60] or 'all'} with costs {my and show(my)[:60] or 'all'}", p)
    ctx.need(n > 0, "fitting the model")
    ctx.ob(f"fit_and_acquire_from_gp: models fitted first, candidates returned, on {n} paths")


def mask(t, base):
    """What rows of ``base`` are taken: () for all of them, None if it is something else."""
    if t == base:
        return ()
    if t[0] == "sub" and t[1] == base:
        return t[2]
    return None
