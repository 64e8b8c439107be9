"""Rules about what the searchers propose."""
from __future__ import annotations

from rules.api import is_searcher_class
from rules.store import tail
from sa.core import AnalysisBroken, calls, fz
from sa.terms import C, FALSE, NONE, TRUE, rewrite, show, subterms

SELF = ("p", "self")
P = lambda n: ("p", n)
STAGES = (
    "_load_previous_observations", "_handle_pending_evaluations", "_get_rungs_state", "clear_old_brackets", "_handle_promotions", "_fit_models",
    "_update_sh_bracket_state", "get_config_and_ids",
)


def at(*names):
    t = SELF
    for n in names:
        t = ("a", t, n)
    return t


def searchers(ctx):
    """Every concrete searcher class."""
    out = []
    for c in ctx.prog.classes.values():
        if not is_searcher_class(ctx, c) or c.name == "BaseOptimizer":
            continue
        names = {m for k in c.mro() for m in k.methods}
        if any((f := c.find_method(m)) is not None and any("abstractmethod" in d for d in f.decorators) for m in names):
            continue
        out.append(c)
    ctx.need(out, "no searchers found")
    return out


def multi_fidelity(ctx):
    out = [c for c in searchers(ctx) if c.find_method("get_config_and_ids") is not None]
    ctx.need(out, "no multi-fidelity searchers found")
    return out


def space_methods(ctx):
    return frozenset(
        f.qual for f in ctx.prog.funcs.values() if f.cls is not None and (f.cls.name == "SearchSpace" or f.qual.startswith(("neps.search_spaces.hyperparameters", "neps.search_spaces.parameter.")))
    )


def named(ctx, *names):
    return frozenset(f.qual for f in ctx.prog.funcs.values() if f.cls is not None and f.name in names)


def meth(c):
    return tail(c[2]) if c[0] == "call" else None


def isnone(p, t):
    return p.facts.get(("isnone", t))


# ---------------------------------------------------------------- grid search
def grid_ask(ctx):
    """Grid search proposes every configuration of the grid exactly once, in one order for all workers."""
    c = next((c for c in searchers(ctx) if c.name == "GridSearch"), None)
    ctx.need(c, "no grid search")
    n = 0
    f = c.find_method("__init__")
    ps = [p for p in ctx.paths(f.qual, exc=False, opaque=space_methods(ctx)) if p.outcome[0] == "return"]
    holders = set()
    for p in ps:
        got = None
        for (o, a), v in p.state.heap.items():
            if o == SELF and a != "#":
                v = fz(p, v)
                g = v if v[0] == "g" else next((x for x in subterms(v) if x[0] == "g"), None)
                if g is not None and any(x[0] == "call" and meth(x) == "get_search_space_grid" for x in subterms(g[2])):
                    got = (a, v)
        if got is None:
            raise AnalysisBroken(f"{f.qual}: the list of configurations could not be followed")
        a, v = got
        holders.add(a)
        n += 1
        if v[0] != "g" or v[2][0] != "call":
            ctx.viol(f.qual, f"the configurations are not those of the grid: {show(v)[:120]}", p)
            continue
        if len(v[3]) != 1 or v[3][0][0]:
            ctx.viol(f.qual, "some configurations of the grid are left out", p)
        elif not (v[3][0][1][0] == "call" and meth(v[3][0][1]) == "hp_values" and v[3][0][1][3] == ("EL",)):
            ctx.viol(f.qual, f"a configuration of the grid is kept as {show(v[3][0][1])[:100]}", p)
        kw = dict(v[2][5])
        if kw.get("size_per_numerical_hp") != P("grid_step_size"):
            ctx.viol(f.qual, "the grid has not the requested number of values per hyperparameter", p)
    ctx.need(len(holders) == 1, f"{f.qual}: no single list of configurations")
    lst = at(holders.pop())
    ask = c.find_method("ask")
    size = ("op", "len", P("trials"))
    m = 0
    for p in ctx.paths(ask.qual, exc=False, opaque=space_methods(ctx)):
        over = None  # does the path know that there are at least as many trials as configurations?
        for a, b in p.facts.items():
            if a[0] == "ge":
                over = order(a, b, size, ("op", "len", lst), over)
        if p.outcome[0] != "return":
            if over is not True:
                ctx.viol(ask.qual, "fails although configurations are left", p)
            continue
        m += 1
        if over is not False:
            ctx.viol(ask.qual, "proposes a configuration although none is left", p)
        r = fz(p, p.outcome[1])
        if r[0] != "new":
            raise AnalysisBroken(f"{ask.qual}: the proposal could not be followed")
        fields = dict(r[2])
        cfg = fields["config"]
        while cfg[0] == "call" and meth(cfg) in ("copy", "deepcopy", "dict") or cfg[0] == "op" and cfg[1] in ("dict", "copy.deepcopy", "copy.copy"):
            cfg = cfg[3] if cfg[0] == "call" and cfg[3] is not None else (cfg[4][0] if cfg[0] == "call" else cfg[2])
        if cfg[0] != "sub":
            raise AnalysisBroken(f"{ask.qual}: the proposed configuration could not be followed: {show(cfg)[:100]}")
        if cfg[2][0] == "sub" and cfg[2][2] == size:
            raise AnalysisBroken(f"{ask.qual}: the order of the configurations could not be followed: {show(cfg[2])[:100]}")
        if cfg[2] != size:
            ctx.viol(ask.qual, f"with n trials, it proposes configuration number {show(cfg[2])[:60]}", p)
        if not any(x == lst for x in subterms(cfg[1])):
            ctx.viol(ask.qual, f"proposes a configuration of {show(cfg[1])[:100]}, not of the grid", p)
        permutation(ctx, ask.qual, p, cfg[1], lst)
    ctx.need(m, f"{ask.qual}: nothing proposed")
    ctx.ob(f"{ask.qual}: {m} proposing paths; {f.qual}: {n} paths")


def order(a, b, x, y, seen):
    """Updates what a path knows about x >= y, given that a = ('ge', l, r) is b."""
    def lin(t):
        k = 0
        while t[0] == "bin" and t[1] in ("+", "-"):
            if t[3][0] == "c":
                k += t[3][2] if t[1] == "+" else -t[3][2]
                t = t[2]
            elif t[2][0] == "c" and t[1] == "+":
                k += t[2][2]
                t = t[3]
            else:
                break
        return t, k

    (l, i), (r, j) = lin(a[1]), lin(a[2])
    if (l, r) == (x, y):  # x + i >= y + j
        d = j - i
        if b and d >= 0 and d == 0:
            return True
        if not b and d == 0:
            return False
        if d == 0:
            return seen
        return seen if not (b and d > 0) else True
    if (l, r) == (y, x):  # y + i >= x + j, that is x <= y + i - j
        d = i - j
        if b and d < 0:
            return False
        if not b and d == -1:
            return True
        if not b and d >= 0:
            return True if d == -1 else seen
        return seen
    return seen


GLOBAL_RANDOM = ("random.", "numpy.random.", "torch.rand", "torch.randperm", "torch.randint")


def permutation(ctx, where, p, t, lst):
    """t is the same reordering of the list in every call and every process."""
    if t == lst:
        return
    for x in subterms(t):
        if x[0] != "call" and not (x[0] == "op" and x[1].startswith(GLOBAL_RANDOM)):
            continue
        name = x[2] if x[0] == "call" else x[1]
        m = name.split(".")[-1]
        if name in ("random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "torch.Generator"):
            a = list(x[4]) + [v for _, v in x[5]]
            if not a or any(y != NONE and y[0] != "c" and not (y[0] in ("a", "op", "bin", "phi") and any(z == SELF for z in subterms(y))) for y in a) or NONE in a or any(isnone(p, y) is not False and y[0] != "c" for y in a):
                ctx.viol(where, "the order of the configurations depends on an unseeded generator, so that workers and calls differ", p)
        elif m in ("sample", "permutation", "permuted"):
            recv = x[3] if x[0] == "call" else None
            if recv is None or recv[0] not in ("call",):
                ctx.viol(where, "the order of the configurations depends on a generator that advances from call to call", p)
            a = list(x[4])
            k = dict(x[5]).get("k", a[1] if len(a) > 1 else None)
            if a[:1] != [lst] or (m == "sample" and k != ("op", "len", lst)):
                ctx.viol(where, f"the proposals are not all configurations of the grid: {show(x)[:120]}", p)
        elif m in ("choices", "choice", "randint", "randrange", "random"):
            ctx.viol(where, "draws a configuration at random instead of enumerating them", p)


# ----------------------------------------------------------- multi-fidelity proposals
def idparts(t):
    """(configuration number, rung) of an id."""
    if t[0] == "fstr" and len(t[1]) == 3 and t[1][1] in ("_", C("_")):
        return unstr(t[1][0]), unstr(t[1][2])
    if t[0] == "fstr" and len(t[1]) == 2 and isinstance(lead(t[1][0]), str) and lead(t[1][0]).endswith("_"):
        return C(int(lead(t[1][0])[:-1])) if lead(t[1][0])[:-1].isdigit() else None, unstr(t[1][1])
    return None, None


def lead(x):
    return x if isinstance(x, str) else x[2] if x[0] == "c" else None


def unstr(t):
    t = unstr1(t)
    if isinstance(t, tuple) and t[0] == "bin":
        b, k = plus(t)
        return b if k == 0 else t
    return t


def unstr1(t):
    if isinstance(t, tuple) and t[0] == "op" and t[1] in ("str", "int") and len(t) == 3:
        return t[2]
    if isinstance(t, tuple) and t[0] == "fv":
        return t[1]
    return t


def plus(t):
    """(term, constant) of a sum."""
    k = 0
    while t[0] == "bin" and t[1] in ("+", "-"):
        if t[3][0] == "c":
            k, t = k + (t[3][2] if t[1] == "+" else -t[3][2]), t[2]
        elif t[2][0] == "c" and t[1] == "+":
            k, t = k + t[2][2], t[3]
        else:
            break
    return t, k


def unint(t):
    while t[0] == "op" and t[1] == "int" and len(t) == 3:
        t = t[2]
    return t


OBS = at("observed_configs")


def mf_propose(ctx):
    """A proposal is a new configuration under a fresh id, or the next rung of an evaluated one."""
    done = set()
    n = k = 0
    for c in multi_fidelity(ctx):
        f = c.find_method("get_config_and_ids")
        if f.qual in done:
            continue
        done.add(f.qual)
        others = frozenset(x for x in named(ctx, "get_config_and_ids") if x != f.qual)
        opaque = space_methods(ctx) | others | named(ctx, "_set_sampling_weights_and_inc", "_get_bracket_to_run", "sample", "sample_new_config", "sample_default_configuration")
        ps = ctx.paths(f.qual, exc=False, opaque=opaque)
        ok = 0
        for p in ps:
            if p.outcome[0] != "return":
                continue
            ok += 1
            r = fz(p, p.outcome[1])
            if r[0] == "call" and meth(r) == "get_config_and_ids":
                k += 1
                continue
            if r[0] != "tup" or len(r[1]) != 3:
                raise AnalysisBroken(f"{f.qual}: the proposal could not be followed: {show(r)[:100]}")
            srcs = [x[1] if x[0] in ("it", "sub") and x[1][0] == "call" and meth(x[1]) == "get_config_and_ids" else None for x in r[1]]
            if any(srcs):
                k += 1
                ix = [x[2] if x[0] in ("it", "sub") else None for x in r[1]]
                ix = [i[2] if isinstance(i, tuple) and i[0] == "c" else i for i in ix]
                if len(set(srcs)) != 1 or ix != [0, 1, 2]:
                    ctx.viol(f.qual, "configuration, id and previous id of the bracket are mixed up", p)
                continue
            n += 1
            proposal(ctx, f.qual, p, *r[1])
        ctx.need(ok, f"{f.qual}: nothing is proposed")
    ctx.need(n, "no proposals found")
    ctx.ob(f"{len(done)} functions proposing configurations: {n} own and {k} delegated proposals")


def proposal(ctx, where, p, cfg, cid, prev):
    x = cfg[3] if cfg[0] == "call" and meth(cfg) == "hp_values" else None
    if x is None:
        raise AnalysisBroken(f"{where}: the configuration could not be followed: {show(cfg)[:100]}")
    num, rung = idparts(cid)
    if rung is None or num is None:
        raise AnalysisBroken(f"{where}: the id could not be followed: {show(cid)[:100]}")
    at_fid = None
    mark = next(i for i, e in reversed(list(enumerate(p.events))) if e[0] == "call" and fz(p, e[1]) == cfg)
    for i, t in calls(p):
        t = fz(p, t)
        if meth(t) == "set_value" and i < mark and t[3] == ("a", x, "fidelity"):
            at_fid = (list(t[4]) + [v for _, v in t[5]])[0]
        elif meth(t) in ("set_to_max_fidelity",) and i < mark and t[3] == x:
            at_fid = ("max",)
    if at_fid is None:
        ctx.viol(where, "proposes a configuration without setting its fidelity", p)
        return
    if at_fid[0] != "sub" or at_fid[1] != at("rung_map"):
        ctx.viol(where, f"the fidelity is set to {show(at_fid)[:80]}, which is not a level of the ladder", p)
        return
    if at_fid[2] != rung:
        ctx.viol(where, f"the fidelity is that of level {show(at_fid[2])[:50]} while the id says {show(rung)[:50]}", p)
    known = p.facts.get(("truthy", OBS))
    if prev == NONE:
        if any(y == OBS for y in subterms(x)):
            ctx.viol(where, "continues an evaluated configuration without naming the trial it continues", p)
        base, off = plus(unint(num))
        base = unint(base)
        if num in (C(0), C("0")):
            if known is not False and not empty(p, OBS):
                ctx.viol(where, "a new configuration is called number 0 although there may be others", p)
        elif not (base[0] in ("call", "op") and str(base[1] if base[0] == "op" else base[2]).split(".")[-1] in ("max", "amax") and any(y == ("a", OBS, "index") for y in subterms(base))):
            ctx.viol(where, f"the number of a new configuration is {show(num)[:80]}, which may be taken", p)
        elif off < 1:
            ctx.viol(where, "a new configuration gets the number of an existing one", p)
        if rung not in (at("min_rung"), at("max_rung")):
            ctx.viol(where, f"a new configuration starts at level {show(rung)[:60]}", p)
        return
    pnum, prung = idparts(prev)
    if pnum is None:
        raise AnalysisBroken(f"{where}: the previous id could not be followed: {show(prev)[:100]}")
    if pnum != num:
        ctx.viol(where, "the continued trial is another configuration than the one the id names", p)
    b, k = plus(rung)
    pb, pk = plus(prung)
    if b != pb or k - pk != 1:
        ctx.viol(where, f"continues a trial of level {show(prung)[:50]} at level {show(rung)[:50]}", p)
    rows = [y for y in subterms(x) if y[0] == "sub" and y[1] in (("a", OBS, "iloc"), ("a", OBS, "loc"))]
    if not rows:
        rows = [y for y in subterms(x) if y[0] == "sub" and y[1] in (("a", OBS, "at"), ("a", OBS, "iat"))]
    if not rows:
        ctx.viol(where, f"the continued configuration is {show(x)[:100]}, not an observed one", p)
        return
    row = max(rows, key=lambda y: len(repr(y)))
    if not any(y == ("sub", at("rung_promotions"), prung) for y in subterms(row[2])):
        ctx.viol(where, f"continues {show(row)[:120]}, which is not up for promotion from level {show(prung)[:40]}", p)
    if num != ("a", row, "name") and not (num == row[2]):
        ctx.viol(where, f"the id names {show(num)[:80]} while the configuration is that of {show(row)[:80]}", p)
    if not any(y[0] == "call" and meth(y) in ("clone", "deepcopy", "from_dict") or y[0] == "op" and y[1].endswith("deepcopy") for y in subterms(x)):
        pass


def empty(p, t):
    for a, b in p.facts.items():
        if a == ("truthy", ("a", t, "empty")) and b:
            return True
        if a[0] == "eq" and b and C(0) in a[1:] and ("op", "len", t) in a[1:]:
            return True
    return False


def mf_observe(ctx):
    """Before proposing, all trials are taken into account: those with a report as observations, the others as pending."""
    done = set()
    n = 0
    stages = named(ctx, *STAGES)
    for c in multi_fidelity(ctx):
        f = c.find_method("ask")
        key = (f.qual, c.find_method("_update_sh_bracket_state") is not None)
        if key in done:
            continue
        done.add(key)
        ok = 0
        for p in ctx.paths(f.qual, exc=False, opaque=stages | space_methods(ctx), exact_self=c):
            if p.outcome[0] != "return":
                ctx.viol(f.qual, "refuses to propose a configuration", p)
                continue
            ok += 1
            pos = {}
            arg = {}
            for i, t in calls(p):
                if t[3] == SELF and meth(t) in STAGES:
                    pos[meth(t)] = i
                    arg[meth(t)] = [fz(p, v) for v in list(t[4]) + [v for _, v in t[5]]]
            resets = {e[2]: i for i, e in enumerate(p.events) if e[0] == "store" and e[1] == SELF}
            missing = [s for s in STAGES if s not in pos and c.find_method(s) is not None]
            for s in missing:
                ctx.viol(f.qual, f"{c.name}: proposes without {s}", p)
            if missing:
                continue
            for a in ("observed_configs", "rung_histories"):
                if a not in resets or resets[a] > min(pos["_load_previous_observations"], pos["_handle_pending_evaluations"]):
                    ctx.viol(f.qual, f"{c.name}: observations of an earlier proposal are not forgotten ({a})", p)
            before = [
                ("_load_previous_observations", "_get_rungs_state"), ("_handle_pending_evaluations", "_get_rungs_state"), ("_get_rungs_state", "clear_old_brackets"),
                ("clear_old_brackets", "_handle_promotions"), ("_handle_promotions", "get_config_and_ids"), ("_fit_models", "get_config_and_ids"), ("_load_previous_observations", "_fit_models"),
                ("_handle_promotions", "_update_sh_bracket_state"), ("_update_sh_bracket_state", "get_config_and_ids"),
            ]
            for a, b in before:
                if a in pos and b in pos and pos[a] > pos[b]:
                    ctx.viol(f.qual, f"{c.name}: {a} comes after {b}", p)
            partition(ctx, f.qual, c, p, arg["_load_previous_observations"], False)
            partition(ctx, f.qual, c, p, arg["_handle_pending_evaluations"], True)
            r = fz(p, p.outcome[1])
            if r[0] != "new":
                raise AnalysisBroken(f"{f.qual}: the proposal could not be followed")
            want = {"config": 0, "id": 1, "previous_config_id": 2}
            for k, i in want.items():
                v = dict(r[2]).get(k)
                if v is None or v[0] not in ("it", "sub") or v[2] not in (i, C(i)) or meth(v[1]) != "get_config_and_ids":
                    ctx.viol(f.qual, f"{c.name}: the proposal has the {k} {show(v)[:80] if v else None}", p)
        ctx.need(ok, f"{f.qual}: nothing is proposed")
        n += ok
    ctx.ob(f"{len(done)} entry points of multi-fidelity searchers, {n} paths")


def partition(ctx, where, c, p, args, pending):
    what = "pending trials" if pending else "observed trials"
    g = args[0] if args else None
    if g is None or g[0] != "g":
        if g is not None and any(x[0] == "g" for x in subterms(g)):
            g = next(x for x in subterms(g) if x[0] == "g")
        else:
            raise AnalysisBroken(f"{where}: the {what} could not be followed: {show(g)[:100] if g else None}")
    if g[2] not in (("op", ".items", P("trials")), P("trials")):
        ctx.viol(where, f"{c.name}: the {what} are taken from {show(g[2])[:80]}", p)
        return
    EL = ("EL",)
    key, val = (("it", EL, 0), ("it", EL, 1)) if g[2] != P("trials") else (EL, ("sub", P("trials"), EL))
    want = (("isnone", ("a", val, "report")), pending)
    kept = [(frozenset(l), v) for l, v in g[3]]
    if [k for k, _ in kept] != [frozenset({want})]:
        ctx.viol(where, f"{c.name}: the {what} are not exactly those {'without' if pending else 'with'} a report", p)
        return
    v = kept[0][1]
    if v[0] != "tup" or v[1][0] != key:
        ctx.viol(where, f"{c.name}: the {what} are not kept under their ids", p)
        return
    t = v[1][1]
    if pending:
        a = [x for x in subterms(t) if x[0] == "call" and meth(x) == "from_dict"]
        if not a or ("a", val, "config") not in list(a[0][4]) + [y for _, y in a[0][5]]:
            ctx.viol(where, f"{c.name}: a pending trial is taken as {show(t)[:100]}", p)
    elif not (t[0] == "call" and meth(t) == "into_config_result" and t[3] == val):
        if not any(x == ("a", val, "report") for x in subterms(t)):
            ctx.viol(where, f"{c.name}: an observed trial is taken as {show(t)[:100]}", p)


def split_of(t, key):
    """0 or 1 if the term is that part of the id, else None."""
    t = unint(t)
    if t[0] in ("it", "sub") and t[1][0] == "op" and t[1][1] in (".split", ".rsplit", ".partition") and unint(t[1][2]) == key:
        i = t[2][2] if isinstance(t[2], tuple) else t[2]
        return {".partition": {0: 0, 2: 1}}.get(t[1][1], {0: 0, 1: 1, -1: 1}).get(i)
    if t[0] in ("it", "sub") and t[1][0] == "call" and key in t[1][4]:
        return t[2][2] if isinstance(t[2], tuple) else t[2]
    return None


def rows_set(p):
    """{row key: {column: value}} assigned to the observations on a path, in order; and whole rows appended."""
    cells, rows = [], []
    for e in p.events:
        if e[0] == "setitem":
            o, k, v = fz(p, e[1]), fz(p, e[2]), fz(p, e[3])
            if o in (("a", OBS, "at"), ("a", OBS, "loc")):
                if k[0] == "tup" and len(k[1]) == 2:
                    if k[1][1][0] in ("list", "tup") and v[0] in ("list", "tup"):
                        cells += [(k[1][0], col[2], val) for col, val in zip(k[1][1][1], v[1])]
                    else:
                        cells.append((k[1][0], k[1][1][2] if k[1][1][0] == "c" else None, v))
                else:
                    rows.append((k, v, None))
        elif e[0] == "store" and e[1] == SELF and e[2] == "observed_configs":
            v = fz(p, e[3])
            fr = [x for x in subterms(v) if x[0] in ("op", "call") and str(x[1] if x[0] == "op" else x[2]).endswith("DataFrame")]
            if len(fr) != 1:
                raise AnalysisBroken("the table of observations could not be followed")
            fr = fr[0]
            pos = fr[2:] if fr[0] == "op" else fr[4]
            kw = {x[1]: x[2] for x in fr[2:] if x[0] == "kw"} if fr[0] == "op" else dict(fr[5])
            data = next((x for x in pos if x[0] != "kw"), kw.get("data"))
            ix = kw.get("index")
            keep = any(x == OBS for x in subterms(without(v, fr)))
            if data[0] in ("list", "tup") and len(data[1]) == 1 and ix is not None:
                row = data[1][0]
                if row[0] == "dict":
                    row = ("list", tuple(dict((a[2], b) for a, b in row[1]).get(x, NONE) for x in ("config", "rung", "perf")))
                while ix[0] in ("op", "call") and (ix[0] == "op" and ix[1].endswith(("Series", "Index")) or ix[0] == "call"):
                    ix = ix[2] if ix[0] == "op" else ix[4][0]
                if ix[0] in ("list", "tup") and len(ix[1]) == 1:
                    ix = ix[1][0]
                rows.append((ix, row, keep))
            else:
                raise AnalysisBroken("the table of observations could not be followed")
    return cells, rows


def without(t, sub):
    if t == sub:
        return ("?",)
    return tuple(without(x, sub) if isinstance(x, tuple) else x for x in t)


def appended(p):
    """[(rung, column, value)] appended to the histories."""
    out = []
    for e in p.events:
        if e[0] != "mut":
            continue
        o = fz(p, e[1])
        if e[2] == "append" and o[0] == "sub" and o[1][0] == "sub" and o[1][1] == at("rung_histories") and o[2][0] == "c":
            out.append((o[1][2], o[2][2], fz(p, e[3][0])))
        elif any(x == at("rung_histories") for x in subterms(o)):
            raise AnalysisBroken("the histories could not be followed")
    return out


def mf_load(ctx):
    """Every observation is kept: in the history of its level, and in the table at its highest level."""
    done = set()
    n = 0
    for c in multi_fidelity(ctx):
        f = c.find_method("_load_previous_observations")
        if f.qual in done:
            continue
        done.add(f.qual)
        src = ("op", ".items", P("previous_results"))
        for p in ctx.paths(f.qual, exc=False, opaque=named(ctx, "get_loss") | space_methods(ctx), exact_self=c):
            els = {x for a, _ in p.facts.items() for x in subterms(a) if x[0] == "el" and x[2] == src} | {x for e in p.events for y in e[1:-1] if isinstance(y, tuple) for x in subterms(fz(p, y)) if x[0] == "el" and x[2] == src}
            if p.outcome[0] != "return" or not els:
                continue
            if len(els) != 1:
                raise AnalysisBroken(f"{f.qual}: the loop could not be followed")
            n += 1
            el = els.pop()
            key, val = ("it", el, 0), ("it", el, 1)
            N = lambda t: split_of(t, key) == 0
            R = lambda t: split_of(t, key) == 1
            hist = appended(p)
            loss = next((fz(p, t) for _, t in calls(p) if meth(t) == "get_loss"), None)
            if loss is None:
                raise AnalysisBroken(f"{f.qual}: the loss could not be followed")
            if not any(x == ("a", val, "result") for x in list(loss[4]) + [v for _, v in loss[5]]):
                ctx.viol(f.qual, f"the loss is that of {show(loss)[:100]}", p)
            err = next((b for a, b in p.facts.items() if a[0] == "eq" and loss in a[1:] and C("error") in a[1:]), None)

            def perf(v):
                return worst(v) if err is True else v == loss

            got = {}
            for r, col, v in hist:
                got.setdefault(col, []).append(v)
                if not R(r):
                    ctx.viol(f.qual, f"an observation goes into the history of level {show(r)[:60]}", p)
            if [len(got.get(k, [])) for k in ("config", "perf")] != [1, 1] or not N(got["config"][0]):
                ctx.viol(f.qual, "an observation is not kept exactly once in the history of its level", p)
            elif not perf(got["perf"][0]):
                ctx.viol(f.qual, f"an observation is kept with the loss {show(got['perf'][0])[:80]}", p)
            known, newer = None, None
            for a, b in p.facts.items():
                if a[0] == "in" and N(a[1]) and OBSIX(a[2]):
                    known = b
                if a[0] == "ge":
                    l, r = a[1], a[2]
                    if recorded(l, N) and R(r):
                        newer = not b
                    elif recorded(r, N) and R(l):
                        newer = b if newer is None else newer
                if a[0] == "eq" and b is True and any(recorded(x, N) for x in a[1:]) and any(R(x) for x in a[1:]):
                    newer = newer or False
            cells, rows = rows_set(p)
            if known is True and newer is None and (cells or rows):
                ctx.viol(f.qual, "an observation replaces the one in the table whatever the levels of the two", p)
            table(ctx, f.qual, p, known, cells, rows, N, {"config": lambda v: v == ("a", val, "config"), "rung": R, "perf": perf}, must=known is not True or newer is True, mustnot=known is True and newer is False)
    ctx.need(n, "no observation is loaded")
    ctx.ob(f"{len(done)} loaders of observations, {n} paths")


def worst(v):
    return v in (("x", "numpy.inf"), ("x", "math.inf"), ("c", "float", float("inf"))) or v == ("op", "float", C("inf"))


def missing(v):
    return v in (("x", "numpy.nan"), ("x", "math.nan"), ("x", "pandas.NA"), NONE) or v == ("op", "float", C("nan")) or (v[0] == "c" and v[2] != v[2])


def OBSIX(t):
    return t in (("a", OBS, "index"), OBS) or (t[0] in ("a", "op", "call") and any(x == ("a", OBS, "index") for x in subterms(t)))


def recorded(t, N):
    """The level recorded in the table for the configuration."""
    t = unint(t)
    return t[0] == "sub" and t[1] in (("a", OBS, "at"), ("a", OBS, "loc")) and t[2][0] == "tup" and N(t[2][1][0]) and t[2][1][1] == C("rung")


def table(ctx, where, p, known, cells, rows, N, want, must, mustnot, keepcfg=False):
    if mustnot:
        if cells or rows:
            ctx.viol(where, "an observation at a lower level replaces one at a higher level", p)
        return
    if known is True:
        got = {}
        for k, col, v in cells:
            if not N(k):
                ctx.viol(where, f"the row of {show(k)[:60]} is changed", p)
            got[col] = v
        if rows and not cells:
            for k, v, _ in rows:
                if v[0] == "list" and len(v[1]) == 3:
                    got = dict(zip(("config", "rung", "perf"), v[1]))
        for col, ok in want.items():
            if col not in got:
                if must and not (keepcfg and col == "config"):
                    ctx.viol(where, f"the {col} of an already known configuration is not updated", p)
            elif not ok(got[col]):
                ctx.viol(where, f"the {col} of an already known configuration becomes {show(got[col])[:80]}", p)
        return
    if known is None:
        raise AnalysisBroken(f"{where}: the path does not know whether the configuration is already in the table")
    if len(rows) != 1:
        ctx.viol(where, "a configuration that is not in the table yet is not added", p)
        return
    k, v, keep = rows[0]
    if not N(k):
        ctx.viol(where, f"a configuration is added under {show(k)[:60]}", p)
    if v[0] not in ("list", "tup") or len(v[1]) != 3:
        raise AnalysisBroken(f"{where}: the added row could not be followed")
    for (col, ok), x in zip(want.items(), v[1]):
        if not ok(x):
            ctx.viol(where, f"a configuration is added with the {col} {show(x)[:80]}", p)
    if keep is False and p.facts.get(("truthy", ("a", OBS, "empty"))) is not True and p.facts.get(("truthy", OBS)) is not False and not empty(p, OBS):
        ctx.viol(where, "adding a configuration forgets the others", p)


def mf_pending(ctx):
    """A trial without a report occupies its level and has no loss, whatever was recorded at lower levels."""
    done = set()
    n = 0
    for c in multi_fidelity(ctx):
        f = c.find_method("_handle_pending_evaluations")
        if f.qual in done:
            continue
        done.add(f.qual)
        src = ("op", ".items", P("pending_evaluations"))
        for p in ctx.paths(f.qual, exc=False, opaque=space_methods(ctx), exact_self=c):
            els = {x for a, _ in p.facts.items() for x in subterms(a) if x[0] == "el" and x[2] == src}
            if p.outcome[0] != "return" or not els:
                continue
            n += 1
            el = els.pop()
            key, val = ("it", el, 0), ("it", el, 1)
            N = lambda t: split_of(t, key) == 0
            R = lambda t: split_of(t, key) == 1
            known = None
            for a, b in p.facts.items():
                if a[0] == "in" and N(a[1]) and OBSIX(a[2]):
                    known = b
            cells, rows = rows_set(p)
            table(ctx, f.qual, p, known, cells, rows, N, {"config": lambda v: v == val, "rung": R, "perf": missing}, must=True, mustnot=False, keepcfg=True)
            if appended(p):
                ctx.viol(f.qual, "a trial without a report enters the history of a level", p)
    ctx.need(n, "no pending trial is taken into account")
    ctx.ob(f"{len(done)} functions taking pending trials into account, {n} paths")


def flat(t):
    while t[0] == "a" and t[2] == "values" or t[0] in ("call", "op") and (meth(t) in ("tolist", "to_numpy", "copy") or t[0] == "op" and t[1] in (".tolist", "list", "numpy.array", "numpy.asarray", ".copy")):
        t = t[1] if t[0] == "a" else t[3] if t[0] == "call" else t[2]
    return t


def mf_rungs(ctx):
    """Members and losses of a level are those of the same configurations, and of that level; unfinished ones are left out of the overall state."""
    done = set()
    n = 0
    for c in multi_fidelity(ctx):
        f = c.find_method("_get_rungs_state")
        if f.qual in done:
            continue
        done.add(f.qual)
        par = f.node.args.args[1].arg
        for p in ctx.paths(f.qual, exc=False, exact_self=c):
            if p.outcome[0] != "return":
                continue
            sets = {}
            for e in p.events:
                if e[0] == "setitem" and e[1][0] == "o":
                    for a in ("rung_members", "rung_members_performance"):
                        if p.state.heap.get((SELF, a)) == e[1]:
                            sets.setdefault(a, []).append((fz(p, e[2]), fz(p, e[3])))
            if not sets:
                continue
            n += 1
            ms, ps = sets.get("rung_members", []), sets.get("rung_members_performance", [])
            if len(ms) != 1 or len(ps) != 1:
                ctx.viol(f.qual, "members and losses of a level are not recorded together", p)
                continue
            (k1, m), (k2, l) = ms[0], ps[0]
            m, l = flat(m), flat(l)
            if m[0] == "a" and m[2] == "index" and l[0] == "a" and l[2] == "perf" or m[0] == "a" and m[2] == "index" and l == ("sub", m[1], C("perf")):
                frames, masks, tables = {m[1], l[1]}, {m[1][2] if m[1][0] == "sub" else None}, {m[1][1] if m[1][0] == "sub" else None}
            elif m[0] == "sub" and l[0] == "sub":
                masks = {m[2], l[2]}
                tables = {m[1][1] if m[1][0] == "a" and m[1][2] == "index" else None, l[1][1] if l[1] == ("a", l[1][1], "perf") or l[1] == ("sub", l[1][1], C("perf")) else None}
            else:
                raise AnalysisBroken(f"{f.qual}: members of a level could not be followed: {show(m)[:100]}")
            if k1 != k2 or len(masks) != 1 or len(tables) != 1 or None in tables:
                ctx.viol(f.qual, "members and losses of a level are not those of the same configurations", p)
                continue
            mask, tab = masks.pop(), tables.pop()
            rung = {("a", tab, "rung"), ("sub", tab, C("rung"))}
            if mask is None or not (mask[0] in ("cmp", "bin") and mask[1] == "==" or mask[0] == "op" and mask[1].endswith((".eq", ".isin"))) or k1 not in mask or not any(x in rung for x in mask):
                ctx.viol(f.qual, f"the members of a level are selected by {show(mask)[:100] if mask else None}", p)
            if isnone(p, P(par)) is True:
                ok = any(x[0] in ("call", "op") and (meth(x) == "dropna" or x[0] == "op" and x[1] == ".dropna" or meth(x) == "notna") for x in subterms(tab))
                if not ok:
                    ctx.viol(f.qual, "configurations that are still being evaluated count as members of their level", p)
    ctx.need(n, "no level is filled")
    ctx.ob(f"{len(done)} functions sorting configurations into levels, {n} paths")


def mf_promote(ctx):
    """What is promoted from a level are the members of that level with the lowest losses, never from the top level; synchronous promotion waits for the whole level."""
    base = next((c for c in ctx.prog.classes.values() if c.name == "PromotionPolicy"), None)
    ctx.need(base, "no promotion policies")
    n = 0
    for c in ctx.prog.classes.values():
        if base not in c.mro() or c is base:
            continue
        f = c.find_method("retrieve_promotions")
        sync = "config_map" in {x.arg for x in c.find_method("set_state").node.args.kwonlyargs}
        m = 0
        for p in ctx.paths(f.qual, exc=False, exact_self=c):
            if p.outcome[0] != "return":
                continue
            prom = [(fz(p, e[2]), fz(p, e[3])) for e in p.events if e[0] == "setitem"]
            for R, v in prom:
                if v == ("list", ()) or v[0] == "list" and not v[1]:
                    continue
                m += 1
                promoted(ctx, f.qual, c, p, R, v, sync)
        ctx.need(m, f"{f.qual}: nothing is ever promoted")
        n += m
    ctx.need(n, "nothing is ever promoted")
    ctx.ob(f"promotion policies, {n} promoting paths")


def paired(t):
    """The value met together with a key of a dictionary is the entry of that key."""
    if t[0] == "it" and t[2] == 1 and t[1][0] == "el":
        src = t[1][2]
        while src[0] == "op" and src[1] in ("sorted", "list", "tuple", "reversed"):
            src = src[2]
        if src[0] == "op" and src[1] == ".items":
            return ("sub", src[2], ("it", t[1], 0))
    return None


def promoted(ctx, where, c, p, R, v, sync):
    v = rewrite(v, paired)
    subs = list(subterms(v))
    mem = {x for x in subs if x[0] == "sub" and x[1] == at("rung_members")}
    perf = {x for x in subs if x[0] == "sub" and x[1] == at("rung_members_performance")}
    if mem != {("sub", at("rung_members"), R)}:
        ctx.viol(where, f"{c.name}: what is promoted is {show(v)[:120]}, not members of the level", p)
        return
    plain = list(subterms(subst(v, R, ("RUNG",))))
    srt = [x for x in plain if x[0] in ("op", "call") and str(x[1] if x[0] == "op" else x[2]).split(".")[-1] in ("argsort", "sorted", "argpartition", "nsmallest", "argmin")]
    P_ = ("sub", at("rung_members_performance"), R)
    Q_ = ("sub", at("rung_members_performance"), ("RUNG",))
    if not srt:
        ctx.viol(where, f"{c.name}: members are promoted without comparing their losses", p)
        return
    for x in srt:
        a = x[2:] if x[0] == "op" else ((x[3],) if x[3] is not None and str(x[2]).startswith(".") else ()) + tuple(x[4])
        a = [flat(y) for y in a if y[0] != "kw"]
        if a[:1] != [Q_]:
            ctx.viol(where, f"{c.name}: members are ordered by {show(a[0])[:80] if a else None} instead of their losses", p)
        if x[0] == "op" and any(y[0] == "kw" and y[1] == "reverse" for y in x[2:]):
            ctx.viol(where, f"{c.name}: the members with the highest losses are promoted", p)
    cuts = [x for x in subs if x[0] == "slice" or x[0] == "op" and x[1] == "slice"]
    cuts = [x[1:] if x[0] == "slice" else x[2:] for x in cuts]
    if not cuts:
        ctx.viol(where, f"{c.name}: all members of a level are promoted", p)
    for x in cuts:
        if len(x) == 4 and (x[1] not in (NONE, C(0)) or x[3] not in (NONE, C(1))):
            ctx.viol(where, f"{c.name}: the members promoted are not those with the lowest losses: {show(v)[:120]}", p)
    top = next((b for a, b in p.facts.items() if a[0] == "eq" and set(a[1:]) == {R, at("max_rung")}), None)
    if top is None:
        top = next((not b if a[1] == at("max_rung") else b for a, b in p.facts.items() if a[0] == "ge" and set(a[1:]) == {R, at("max_rung")}), None)
    it = next((x for x in subterms(R) if x[0] == "el"), None)
    if top is not False and not (it is not None and it[2] == ("op", "range", at("max_rung"))):
        ctx.viol(where, f"{c.name}: members of the highest level may be promoted", p)
    if sync:
        full = any(a[0] == "ge" and b and a[2] == ("sub", at("config_map"), R) and any(x == ("sub", at("rung_members"), R) for x in subterms(a[1])) for a, b in p.facts.items())
        if not full:
            ctx.viol(where, f"{c.name}: members are promoted before the level is full", p)
        nan = [b if a[0] == "truthy" else not b for a, b in p.facts.items() if a[0] in ("truthy", "eq") and any(x[0] in ("op", "call") and str(x[1] if x[0] == "op" else x[2]).split(".")[-1] in ("isnan", "isna", "isnull") and P_ in subterms(x) for x in subterms(a))]
        if False not in nan or True in nan:
            ctx.viol(where, f"{c.name}: members are promoted while others of the level are still being evaluated", p)


def subst(t, a, b):
    if t == a:
        return b
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def mf_brackets(ctx):
    """Brackets propose from the same observations as the searcher they belong to."""
    n = 0
    done = set()
    for c in multi_fidelity(ctx):
        f = c.find_method("_update_sh_bracket_state")
        if f is None or f.qual in done:
            continue
        done.add(f.qual)
        prop = c.find_method("get_config_and_ids")
        for p in ctx.paths(f.qual, exc=False, opaque=named(ctx, "set_state", "retrieve_promotions"), exact_self=c):
            if p.outcome[0] != "return":
                continue
            sts = [(e[1], e[2], fz(p, e[3])) for e in p.events if e[0] == "store"]
            if not p.events:
                continue  # no brackets
            n += 1
            br = {flat(fz(p, o)) for o, _, _ in sts}
            if len(br) != 1:
                raise AnalysisBroken(f"{f.qual}: the brackets could not be followed")
            b = br.pop()
            fields = {a: v for _, a, v in sts}
            obs = fields.get("observed_configs")
            if obs is None or flat(obs) != OBS:
                ctx.viol(f.qual, f"{c.name}: the bracket proposes from {show(obs)[:80] if obs else 'old observations'}", p)
            each = b[0] in ("el", "it")
            if each:
                el = b if b[0] == "el" else b[1]
                if el[0] != "el" or el[2] not in (("op", ".items", at("sh_brackets")), ("op", ".values", at("sh_brackets"))):
                    ctx.viol(f.qual, f"{c.name}: only {show(el)[:80]} are updated", p)
                ss = [t for _, t in calls(p) if meth(t) == "set_state"]
                if not ss:
                    ctx.viol(f.qual, f"{c.name}: the brackets do not learn about the levels", p)
                for t in ss:
                    kw = {k: fz(p, v) for k, v in t[5]}
                    for k, w in (("max_rung", at("max_rung")), ("members", at("rung_members")), ("performances", at("rung_members_performance"))):
                        if kw.get(k) != w:
                            ctx.viol(f.qual, f"{c.name}: the brackets are given {k}={show(kw.get(k, NONE))[:60]}", p)
                pr = fields.get("rung_promotions")
                if pr is None or meth(pr) != "retrieve_promotions" or fz(p, pr[3]) != ("a", b, "promotion_policy"):
                    ctx.viol(f.qual, f"{c.name}: the brackets propose from {show(pr)[:80] if pr else 'old promotions'}", p)
            elif b != ("sub", at("sh_brackets"), at("current_sh_bracket")):
                ctx.viol(f.qual, f"{c.name}: {show(b)[:80]} is updated instead of the bracket that proposes", p)
            # the bracket that proposes is one that was updated
            for q in ctx.paths(prop.qual, exc=False, exact_self=c, opaque=named(ctx, "_set_sampling_weights_and_inc", "_get_bracket_to_run") | frozenset(x for x in named(ctx, "get_config_and_ids") if x != prop.qual)):
                for _, t in calls(q):
                    if meth(t) == "get_config_and_ids" and t[3] is not None and t[3] != SELF and not each and fz(q, t[3]) != b:
                        ctx.viol(prop.qual, f"{c.name}: {show(fz(q, t[3]))[:80]} proposes, which was not updated", q)
    ctx.need(n, "no brackets found")
    ctx.ob(f"{len(done)} functions updating brackets, {n} paths")


def mf_result(ctx):
    """A searcher gets the loss and cost of a successful trial, and 'error' for any other."""
    f = ctx.func("Trial.into_config_result")
    rep = ("a", P("self"), "report")
    arg0 = [a.arg for a in f.node.args.args if a.arg != "self"][0]
    seen = set()
    paths = ctx.paths(f, exc=False)
    if not any(x in (("a", rep, "reported_as"), ("a", P("self"), "state")) for p in paths for a in p.facts for x in subterms(a)):
        ctx.viol(f.qual, "how the trial ended is not looked at")
        return
    for p in paths:
        none = p.facts.get(("isnone", rep))
        if p.outcome[0] == "raise":
            if none is not True:
                ctx.viol(f.qual, "a reported trial is refused", p)
            continue
        v = fz(p, p.outcome[1])
        ctx.need(v[0] == "new", f"{f.qual}: the result is not followed")
        if none is True:
            ctx.viol(f.qual, "a trial without a report becomes a result", p)
            continue
        d = dict(v[2])
        ok = next((b for a, b in p.facts.items() if a[0] == "eq" and ("a", rep, "reported_as") in a[1:] and C("success") in a[1:]), None)
        ctx.need(ok is not None, f"{f.qual}: success and failure are not told apart by the report")
        seen.add(ok)
        if d.get("id") not in (("a", P("self"), "id"), ("a", ("a", P("self"), "metadata"), "id")):
            ctx.viol(f.qual, f"the result carries the id {show(d.get('id', NONE))[:80]}", p)
        c = d.get("config", NONE)
        if not any(x == ("a", P("self"), "config") for x in subterms(c)) or not any(x == P(arg0) for x in subterms(c)):
            ctx.viol(f.qual, f"the result carries the configuration {show(c)[:80]}", p)
        r = fz(p, d.get("result", NONE))
        if ok is False:
            if r != C("error"):
                ctx.viol(f.qual, f"a trial that did not succeed gives the result {show(r)[:100]}", p)
        elif r[0] != "dict":
            ctx.viol(f.qual, f"a successful trial gives the result {show(r)[:100]}", p)
        else:
            last = {}
            for k, x in r[1]:
                if k != "**" and k[0] == "c":
                    last[k[2]] = x
                else:
                    last = {}
            for k in ("loss", "cost"):
                if last.get(k) != ("a", rep, k):
                    ctx.viol(f.qual, f"the {k} of a successful trial is {show(last[k]) if k in last else 'missing or taken from its extra data'}", p)
    if seen != {True, False}:
        ctx.viol(f.qual, "success and failure give the same kind of result")
    ctx.ob(f"{f.qual}: result of a trial")
