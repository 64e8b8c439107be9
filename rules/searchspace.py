"""Rules about search spaces as a whole.

The methods of the search space are analysed on spaces of two hyperparameters, for every
combination of their kinds, with the fields of the hyperparameters left symbolic and their own
methods opaque (rules/space.py decides those).
"""
from __future__ import annotations

import itertools

from rules.space import SELF, at, deepcopied, hp_classes, kind, nolist, parts_of, strip
from rules.store import tail
from sa.core import AnalysisBroken, calls, fz
from sa.terms import C, FALSE, NONE, TRUE, show, subterms

SS = "neps.search_spaces.search_space.SearchSpace"
HP_METHODS = (
    "clone", "sample", "sample_value", "set_value", "load_from", "mutate", "crossover", "set_default", "grid", "serialize_value", "deserialize_value",
    "compute_prior", "value_to_normalized", "normalized_to_value", "set_default_confidence_score", "set_constant_value", "_get_non_unique_neighbors",
)
FIELDS = ("lower", "upper", "log", "default", "default_confidence_choice", "default_confidence_score", "choices", "_value", "normalized_value", "log_bounds", "log_default", "_default_index", "_value_index")


def opaque_hp(ctx):
    return frozenset(c.find_method(m).qual for c in hp_classes(ctx) for m in HP_METHODS if c.find_method(m)) | frozenset(q for q in ctx.prog.funcs if ".domain." in q)


def make(ctx, c, tag, fid, prior):
    f = [(n, ("p", f"{tag}.{n}")) for n in FIELDS]
    f += [("is_fidelity", fid), ("has_prior", prior)]
    return ("new", c.qual, tuple(f))


class Space:
    """A search space of two symbolic hyperparameters."""

    def __init__(self, ctx, path, kinds):
        self.path, self.kinds = path, kinds
        st = path.state
        h = st.heap.get((SELF, "hyperparameters"))
        c = st.heap.get((h, "#")) if h is not None else None
        if c is None or c[0] != "dict" or any(k == "**" for k, _ in c[1]):
            raise AnalysisBroken("the hyperparameters of a search space could not be followed")
        self.hps = {k[2]: v for k, v in c[1]}

    def who(self, t):
        """The name of the hyperparameter a term is, if it is one."""
        for n, o in self.hps.items():
            if t == o:
                return n
            if t == ("sub", at("hyperparameters"), C(n)):
                return n
        return None


def combos(ctx, fids=True):
    """(kinds, fidelity flags)"""
    cs = hp_classes(ctx)
    out = []
    for a, b in itertools.product(cs, cs):
        out.append(((a, b), (FALSE, FALSE)))
        if fids:
            if kind(ctx, a) == "num":
                out.append(((a, b), (TRUE, FALSE)))
            if kind(ctx, b) == "num":
                out.append(((a, b), (FALSE, TRUE)))
    return out


def build(ctx, kinds, fids, priors):
    hps = ("dict", ((C("b"), make(ctx, kinds[1], "b", fids[1], priors[1])), (C("a"), make(ctx, kinds[0], "a", fids[0], priors[0]))))
    i = ctx.interp(exc=False, opaque=opaque_hp(ctx))
    return i.run(ctx.func(SS + ".__init__"), args={"hyperparameters": hps})


def spaces(ctx, fids=True):
    for kinds, fl in combos(ctx, fids):
        ps = [p for p in build(ctx, kinds, fl, (TRUE, TRUE)) if p.outcome[0] == "return"]
        if len(ps) != 1:
            continue
        yield Space(ctx, ps[0], kinds), dict(zip("ab", fl)), f"({kinds[0].name}, {kinds[1].name})"


def run(ctx, sp, method, args=None, opaque=(), **kw):
    i = ctx.interp(exc=False, opaque=opaque_hp(ctx) | {ctx.func(SS + ".__init__").qual} | frozenset(opaque), types={SELF: ("k", SS, ())}, **kw)
    return i.run(ctx.func(f"{SS}.{method}"), st=sp.path.state, args=args or {})


def is_new(t):
    return t[0] == "call" and t[2].startswith("new:") and tail(t[2][4:]) == "SearchSpace"


def constructed(p, t):
    """{name: term} given to the constructor of a new search space, or None."""
    if is_new(t):
        d = {}
        for k, v in t[5]:
            if k in ("**", "**="):
                v = fz(p, v) if v[0] == "o" else v
                if v[0] != "dict" or any(kk == "**" for kk, _ in v[1]):
                    return None
                for kk, vv in v[1]:
                    d[kk[2]] = vv
            else:
                d[k] = v
        return d
    return None


def meth(c):
    return tail(c[2]).lstrip(".")


def one_arg(c, *names):
    if c[4]:
        return c[4][0]
    d = dict(c[5])
    for n in names:
        if n in d:
            return d[n]
    return next(iter(d.values()), None)


def touched(p, sp):
    """Methods that change one of the space's own hyperparameters: [(name, method)]."""
    out = []
    for _, c in calls(p):
        if c[3] is not None and sp.who(c[3]) and meth(c) in ("set_value", "load_from", "set_default", "set_default_confidence_score", "set_constant_value"):
            out.append((sp.who(c[3]), meth(c)))
    for e in p.events[len(sp.path.events):]:
        if e[0] == "store" and (sp.who(e[1]) or e[1] == SELF):
            out.append((sp.who(e[1]) or "itself", e[2]))
        if e[0] in ("setitem", "delitem") and e[1] in (at("hyperparameters"), sp.path.state.heap.get((SELF, "hyperparameters"))):
            out.append(("itself", "hyperparameters"))
    return out


# ---------------------------------------------------------------------------- rules
def ss_init(ctx):
    """At most one fidelity, which is numerical; every hyperparameter is kept under its name, in one order."""
    n = 0
    where = SS + ".__init__"
    cs = hp_classes(ctx)
    for ks in itertools.product(cs, cs):
        fa, fb, ra, rb = (("p", x) for x in ("fidA", "fidB", "priorA", "priorB"))
        ps = build(ctx, ks, (fa, fb), (ra, rb))
        num = [kind(ctx, k) == "num" for k in ks]
        desc = f"with ({ks[0].name}, {ks[1].name})"
        for p in ps:
            n += 1
            T = lambda x: p.facts.get(("truthy", x))
            fid = [T(fa), T(fb)]
            if p.outcome[0] == "raise":
                if not ((fid[0] and fid[1]) or (fid[0] and not num[0]) or (fid[1] and not num[1])):
                    ctx.viol(where, f"{desc}: refuses a valid search space", p)
                continue
            if fid[0] and fid[1]:
                ctx.viol(where, f"{desc}: accepts two fidelities", p)
                continue
            if (fid[0] and not num[0]) or (fid[1] and not num[1]):
                ctx.viol(where, f"{desc}: accepts a fidelity that is not numerical", p)
                continue
            for b, k in ((fid[0], 0), (fid[1], 1)):
                if b is None and not (fid[1 - k] is None):
                    ctx.viol(where, f"{desc}: not every hyperparameter is examined for being the fidelity", p)
            try:
                sp = Space(ctx, p, ks)
            except AnalysisBroken:
                raise
            if list(sp.hps) != ["a", "b"]:
                ctx.viol(where, f"{desc}: hyperparameters are kept as {list(sp.hps)}: their order depends on the order of definition or one is lost", p)
                continue
            H = lambda x: p.state.heap.get((SELF, x))

            def entries(x):
                t = H(x)
                c = p.state.heap.get((t, "#")) if t is not None else None
                if t is not None and c is None:
                    c = t
                if c is None or c[0] != "dict" or any(k == "**" for k, _ in c[1]):
                    raise AnalysisBroken(f"'{x}' could not be followed")
                return {k[2]: v for k, v in c[1]}

            which = "a" if fid[0] else "b" if fid[1] else None
            if H("fidelity") != (sp.hps[which] if which else NONE):
                ctx.viol(where, f"{desc}: the fidelity is {show(fz(p, H('fidelity')))[:80]} although it is {which}", p)
            if H("fidelity_name") != (C(which) if which else NONE):
                ctx.viol(where, f"{desc}: the name of the fidelity is {show(H('fidelity_name'))[:80]}, not {which}", p)
            if set(entries("fidelities")) != ({which} if which else set()):
                ctx.viol(where, f"{desc}: fidelities are {sorted(entries('fidelities'))}", p)
            exp = {"categoricals": [], "numerical": [], "constants": []}
            for i, nm in enumerate("ab"):
                k = kind(ctx, ks[i])
                if k == "cat":
                    exp["categoricals"].append(nm)
                elif k == "const":
                    exp["constants"].append(nm)
                elif nm != which:
                    exp["numerical"].append(nm)
            for f, e in exp.items():
                d = entries(f)
                if list(d) != e:
                    ctx.viol(where, f"{desc}: {f} are {list(d)}, not {e}", p)
                for k, v in d.items():
                    if f != "constants" and v != sp.hps.get(k):
                        ctx.viol(where, f"{desc}: '{k}' in {f} is another hyperparameter", p)
            for va, vb in itertools.product((True, False), repeat=2):
                if T(ra) not in (None, va) or T(rb) not in (None, vb):
                    continue
                got = truth(p, H("has_prior"), {ra: va, rb: vb})
                if got is None:
                    raise AnalysisBroken(f"{where}: whether the space has a prior could not be followed: {show(H('has_prior'))[:80]}")
                want = (va and kind(ctx, ks[0]) in ("num", "cat")) or (vb and kind(ctx, ks[1]) in ("num", "cat"))
                if got != want:
                    ctx.viol(where, f"{desc}: has {'a' if got else 'no'} prior although the hyperparameters {'do not' if got else 'do'}", p)
    ctx.need(n, "no construction paths")
    ctx.count("space_constructions", n)
    ctx.ob(f"{where}: {n} paths over every pair of kinds of hyperparameters")


def truth(p, t, env):
    """The truth of a term under values of the symbols in ``env``."""
    if t in env:
        return env[t]
    if t[0] == "c":
        return bool(t[2])
    if t[0] == "not":
        v = truth(p, t[1], env)
        return None if v is None else not v
    if t[0] == "truthy":
        return truth(p, t[1], env)
    if t[0] == "op" and t[1] in ("and", "or", "any", "all", "bool"):
        xs = t[2:]
        if t[1] in ("any", "all") and len(xs) == 1 and xs[0][0] in ("list", "tup"):
            xs = xs[0][1]
        vs = [truth(p, x, env) for x in xs]
        if t[1] in ("or", "any"):
            return True if True in vs else None if None in vs else False
        return False if False in vs else None if None in vs else True
    return p.facts.get(("truthy", t))


def ss_clone(ctx):
    """A copied search space has a copy of every hyperparameter."""
    n = 0
    for sp, fl, desc in spaces(ctx):
        for p in run(ctx, sp, "clone"):
            if p.outcome[0] != "return":
                continue
            n += 1
            r = p.outcome[1]
            if deepcopied(r):
                continue
            d = constructed(p, r)
            if r == SELF:
                ctx.viol(SS + ".clone", "returns the space itself", p)
                continue
            if d is None:
                raise AnalysisBroken(f"the copy could not be followed: {show(r)[:80]}")
            copies(ctx, SS + ".clone", p, sp, d, desc, ("clone",))
            if touched(p, sp):
                ctx.viol(SS + ".clone", f"changes the original: {touched(p, sp)}", p)
    ctx.need(n, "no path of clone")
    ctx.ob(f"{SS}.clone: {n} paths")


def copies(ctx, where, p, sp, d, desc, allowed):
    if set(d) != set(sp.hps):
        ctx.viol(where, f"{desc}: the new space has {sorted(d)}, not {sorted(sp.hps)}", p)
    for k, v in d.items():
        if sp.who(v):
            ctx.viol(where, f"{desc}: hyperparameter '{k}' is shared with the original", p)
        elif v[0] == "call" and meth(v) in allowed:
            w = sp.who(v[3]) if v[3] is not None else None
            if w is not None and w != k:
                ctx.viol(where, f"{desc}: hyperparameter '{k}' is derived from '{w}'", p)
        elif not (v[0] in ("it", "sub") and any(x[0] == "call" and meth(x) in allowed for x in subterms(v))) and not (v[0] == "op" and v[1].split(".")[-1] == "deepcopy"):
            raise AnalysisBroken(f"hyperparameter '{k}' of the new space could not be followed: {show(v)[:100]}")


def ss_serialize(ctx):
    """The stored form of a configuration has the value of every hyperparameter."""
    n = 0
    where = SS + ".serialize"
    for sp, fl, desc in spaces(ctx):
        for p in run(ctx, sp, "serialize"):
            vals = {k: ("p", f"{k}._value") for k in sp.hps}
            known = {k: p.facts.get(("isnone", v)) for k, v in vals.items()}
            if p.outcome[0] != "return":
                if True not in known.values():
                    ctx.viol(where, f"{desc}: refuses a configuration in which every hyperparameter has a value", p)
                continue
            n += 1
            r = fz(p, p.outcome[1])
            if r[0] != "dict" or any(k == "**" for k, _ in r[1]):
                raise AnalysisBroken(f"{where}: result could not be followed")
            d = {k[2]: v for k, v in r[1]}
            if set(d) != set(sp.hps):
                ctx.viol(where, f"{desc}: has {sorted(d)}, not {sorted(sp.hps)}", p)
            for k, v in d.items():
                if known.get(k) is not False:
                    ctx.viol(where, f"{desc}: '{k}' may be stored without a value", p)
                if v[0] == "call" and meth(v) == "serialize_value":
                    v = one_arg(v, "value")
                if v != vals.get(k):
                    ctx.viol(where, f"{desc}: '{k}' is stored as {show(v)[:100]}", p)
    ctx.need(n, "no path of serialize")
    # -- and the stored form is the value
    for c in hp_classes(ctx):
        for m in ("serialize_value", "deserialize_value"):
            f = c.find_method(m)
            for p in ctx.paths(f, exc=False):
                if p.outcome[0] == "return" and strip(fz(p, p.outcome[1])) != ("p", "value"):
                    ctx.viol(f"{c.qual}.{m}", f"returns {show(p.outcome[1])[:100]} instead of the value", p)
    ctx.ob(f"{where}: {n} paths")


def ss_hp_values(ctx):
    """A configuration is handed to the user with the value of every hyperparameter."""
    n = 0
    where = SS + ".hp_values"
    for sp, fl, desc in spaces(ctx):
        for p in run(ctx, sp, "hp_values"):
            if p.outcome[0] != "return":
                continue
            n += 1
            r = fz(p, p.outcome[1])
            if r[0] != "dict" or any(k == "**" for k, _ in r[1]):
                raise AnalysisBroken(f"{where}: result could not be followed")
            d = {k[2]: v for k, v in r[1]}
            for k in sorted(set(d) | set(sp.hps)):
                if d.get(k) != ("p", f"{k}._value"):
                    ctx.viol(where, f"{desc}: '{k}' is {show(d[k])[:80] if k in d else 'missing'}", p)
    ctx.need(n, "no path of hp_values")
    ctx.ob(f"{where}: {n} paths")


def ss_from_dict(ctx):
    """Loading a configuration sets every given value in a new configuration, and only there."""
    n = 0
    where = SS + ".from_dict"
    for sp, fl, desc in spaces(ctx):
        for given in (("a", "b"), ("b",)):
            cfg = ("dict", tuple((C(k), ("p", "value " + k)) for k in given))
            for p in run(ctx, sp, "from_dict", args={"config": cfg}):
                if p.outcome[0] != "return":
                    continue
                n += 1
                r = p.outcome[1]
                if touched(p, sp):
                    ctx.viol(where, f"{desc}: changes the search space: {touched(p, sp)}", p)
                if r == SELF:
                    ctx.viol(where, "returns the search space itself", p)
                    continue
                d = constructed(p, r)
                if d is None and not deepcopied(r):
                    raise AnalysisBroken(f"{where}: the result could not be followed: {show(r)[:80]}")
                got = {}
                for _, c in calls(p):
                    if meth(c) in ("load_from", "set_value") and c[3] is not None:
                        k = part(p, r, d, c[3])
                        if k is None and not sp.who(c[3]):
                            raise AnalysisBroken(f"{where}: a value is set on {show(c[3])[:80]}")
                        if k is not None:
                            got[k] = one_arg(c, "value")
                for k in given:
                    v = got.pop(k, None)
                    if v is None:
                        ctx.viol(where, f"{desc}: the value of '{k}' is not loaded", p)
                    elif strip(v) != ("p", "value " + k) and not (v[0] == "call" and meth(v) == "deserialize_value" and one_arg(v) == ("p", "value " + k)):
                        ctx.viol(where, f"{desc}: '{k}' is loaded with {show(v)[:100]}", p)
                if got:
                    ctx.viol(where, f"{desc}: {sorted(got)} are set although no value was given", p)
    ctx.need(n, "no path of from_dict")
    ctx.ob(f"{where}: {n} paths")


def part(p, r, d, t):
    """The name of the hyperparameter of the new space ``r`` that ``t`` is."""
    if t[0] == "sub" and t[2][0] == "c" and (t[1] == ("a", r, "hyperparameters") or t[1] == r):
        return t[2][2]
    if t[0] == "call" and meth(t) in ("__getitem__", "get") and t[3] in (r, ("a", r, "hyperparameters")) and one_arg(t)[0] == "c":
        return one_arg(t)[2]
    for k, v in (d or {}).items():
        if t == v:
            return k
    return None


def ss_sample(ctx):
    """A sampled configuration has every hyperparameter, the fidelity only when asked for, with the prior only when asked for."""
    n = 0
    where = SS + ".sample"
    up, ig = ("p", "user_priors"), ("p", "ignore_fidelity")
    for sp, fl, desc in spaces(ctx):
        for p in run(ctx, sp, "sample", args={"patience": C(1)}) + run(ctx, sp, "sample", args={"patience": C(2)}):
            if touched(p, sp):
                ctx.viol(where, f"{desc}: changes the search space: {touched(p, sp)}", p)
            if p.outcome[0] != "return":
                continue
            n += 1
            d = constructed(p, p.outcome[1])
            if d is None:
                raise AnalysisBroken(f"{where}: the sample could not be followed")
            copies(ctx, where, p, sp, d, desc, ("clone", "sample"))
            for k, v in d.items():
                if v[0] != "call":
                    continue
                isfid = fl[k] == TRUE
                if meth(v) == "clone" and not (isfid and p.facts.get(("truthy", ig)) is True):
                    ctx.viol(where, f"{desc}: hyperparameter '{k}' is not sampled", p)
                if meth(v) == "sample":
                    if isfid and p.facts.get(("truthy", ig)) is not False:
                        ctx.viol(where, f"{desc}: the fidelity is sampled although it is to be ignored", p)
                    x = dict(v[5]).get("user_priors") or (v[4][0] if v[4] else None)
                    hasp = kind(ctx, sp.kinds["ab".index(k)]) in ("num", "cat")
                    want = p.facts.get(("truthy", up))
                    if hasp:
                        if x is not None and x[0] == "c":
                            if want != bool(x[2]):
                                ctx.viol(where, f"{desc}: '{k}' is sampled with user_priors={x[2]}", p)
                        elif x is None and want is not False:
                            ctx.viol(where, f"{desc}: '{k}' is sampled without its prior although priors are to be used", p)
                        elif x is not None and x != up:
                            ctx.viol(where, f"{desc}: '{k}' is sampled with user_priors={show(x)[:60]}", p)
    ctx.need(n, "no path of sample")
    ctx.ob(f"{where}: {n} paths")


def chooses(name):
    def pick(i, st, recv, ar):
        c = ar[0][0] if ar[0] else dict(ar[1]).get("a")
        c = i.content(st, c) or c if c is not None else None
        if c is not None and c[0] in ("list", "tup") and C(name) not in c[1]:
            for x in c[1]:
                if x[0] == "c":
                    return x
        return C(name)

    return {"numpy.random.choice": pick, "random.choice": pick}


def ss_vary(ctx):
    """Mutation and crossover give new configurations of every hyperparameter, and never vary the fidelity."""
    n = 0
    for sp, fl, desc in spaces(ctx):
        where = SS + ".mutate"
        # which hyperparameter is chosen is made concrete, so that what happens to each is known
        ps = [p for k in sp.hps for p in run(ctx, sp, "mutate", args={"patience": C(1)}, models=chooses(k))]
        for p in ps:
            if touched(p, sp):
                ctx.viol(where, f"{desc}: changes the search space: {touched(p, sp)}", p)
            if p.outcome[0] != "return":
                continue
            r = p.outcome[1]
            d = constructed(p, r)
            while d is None and is_new(r) and len(r[5]) == 1 and r[5][0][1][0] == "call":
                r = r[5][0][1]
                d = constructed(p, r)
            if d is None:
                continue
            n += 1
            if set(d) != set(sp.hps):
                ctx.viol(where, f"{desc}: the mutated configuration has {sorted(d)}", p)
            for k, v in d.items():
                if sp.who(v):
                    ctx.viol(where, f"{desc}: hyperparameter '{k}' is shared with the parent", p)
                elif v[0] == "call" and meth(v) == "clone" and sp.who(v[3]) not in (None, k):
                    ctx.viol(where, f"{desc}: hyperparameter '{k}' is a copy of '{sp.who(v[3])}'", p)
            for _, c in calls(p):
                if meth(c) == "mutate" and c[3] is not None and sp.who(c[3]) and fl[sp.who(c[3])] == TRUE:
                    ctx.viol(where, f"{desc}: mutates the fidelity", p)
        where = SS + ".crossover"
        for p in run(ctx, sp, "crossover", args={"patience": C(1)}):
            if touched(p, sp):
                ctx.viol(where, f"{desc}: changes the search space: {touched(p, sp)}", p)
            for _, c in calls(p):
                if meth(c) == "crossover" and c[3] is not None and sp.who(c[3]) and fl[sp.who(c[3])] == TRUE:
                    ctx.viol(where, f"{desc}: crosses over the fidelity", p)
            if p.outcome[0] != "return":
                continue
            r = fz(p, p.outcome[1]) if p.outcome[1][0] == "o" else p.outcome[1]
            if r[0] != "tup" or len(r[1]) != 2:
                raise AnalysisBroken(f"{where}: the children could not be followed")
            for i, x in enumerate(r[1]):
                d = constructed(p, x)
                if d is None:
                    raise AnalysisBroken(f"{where}: the children could not be followed")
                n += 1
                for k, v in d.items():
                    if sp.who(v) or (v[0] == "sub" and v[1] == ("a", ("p", "config2"), "hyperparameters")):
                        ctx.viol(where, f"{desc}: hyperparameter '{k}' of a child is shared with a parent", p)
                    elif v[0] == "call" and meth(v) == "clone":
                        src = v[3]
                        nm = sp.who(src) or (src[2][2] if src[0] == "sub" and src[2][0] == "c" else k)
                        if nm != k:
                            ctx.viol(where, f"{desc}: hyperparameter '{k}' of a child is a copy of '{nm}'", p)
    ctx.need(n, "no path of mutate or crossover")
    ctx.ob(f"{SS}.mutate, {SS}.crossover: {n} results")


def ss_default(ctx):
    """The default configuration has the default of every hyperparameter, and is refused when one is missing."""
    n = 0
    where = SS + ".sample_default_configuration"
    ig, mi = ("p", "ignore_fidelity"), ("p", "ignore_missing_defaults")
    smp = ctx.func(SS + ".sample").qual
    for sp, fl, desc in spaces(ctx):
        for p in run(ctx, sp, "sample_default_configuration", opaque=(smp,)):
            if touched(p, sp):
                ctx.viol(where, f"{desc}: changes the search space: {touched(p, sp)}", p)
            missing = {k: p.facts.get(("isnone", ("p", f"{k}.default"))) for k in sp.hps}
            skip = {k: fl[k] == TRUE and p.facts.get(("truthy", ig)) is True for k in sp.hps}
            if p.outcome[0] != "return":
                if not any(missing[k] and not skip[k] for k in sp.hps):
                    ctx.viol(where, f"{desc}: refuses a space in which every hyperparameter has a default", p)
                if p.facts.get(("truthy", mi)) is True:
                    ctx.viol(where, f"{desc}: refuses a missing default although missing defaults are to be ignored", p)
                continue
            n += 1
            r = p.outcome[1]
            got = {}
            for _, c in calls(p):
                if meth(c) in ("set_value", "load_from") and c[3] is not None:
                    k = part(p, r, constructed(p, r), c[3])
                    if k is None and not sp.who(c[3]):
                        raise AnalysisBroken(f"{where}: a value is set on {show(c[3])[:80]}")
                    got[k] = one_arg(c, "value")
            for k in sp.hps:
                if skip[k]:
                    if k in got:
                        ctx.viol(where, f"{desc}: the fidelity is set although it is to be ignored", p)
                elif missing[k] is True:
                    if p.facts.get(("truthy", mi)) is not True:
                        ctx.viol(where, f"{desc}: a missing default of '{k}' is not refused", p)
                    if k in got:
                        ctx.viol(where, f"{desc}: '{k}' is set although it has no default", p)
                elif missing[k] is None:
                    ctx.viol(where, f"{desc}: the default of '{k}' is not looked at", p)
                elif got.get(k) is None:
                    ctx.viol(where, f"{desc}: '{k}' does not have its default", p)
                elif strip(got[k]) != ("p", f"{k}.default"):
                    ctx.viol(where, f"{desc}: '{k}' is set to {show(got[k])[:80]} instead of its default", p)
    ctx.need(n, "no path of sample_default_configuration")
    ctx.ob(f"{where}: {n} paths")


def ss_max_fidelity(ctx):
    """Setting a configuration to the maximum fidelity sets its fidelity to the upper bound."""
    n = 0
    where = SS + ".set_to_max_fidelity"
    for sp, fl, desc in spaces(ctx):
        f = next((k for k in fl if fl[k] == TRUE), None)
        for p in run(ctx, sp, "set_to_max_fidelity"):
            n += 1
            sets = [(sp.who(c[3]), one_arg(c)) for _, c in calls(p) if meth(c) in ("set_value", "load_from") and c[3] is not None]
            if f is None:
                if p.outcome[0] == "return":
                    ctx.viol(where, f"{desc}: accepts a space without fidelity", p)
            elif p.outcome[0] == "return" and [(k, strip(v)) for k, v in sets] != [(f, ("p", f"{f}.upper"))]:
                ctx.viol(where, f"{desc}: sets {[(k, show(v)[:40]) for k, v in sets]}", p)
            elif p.outcome[0] == "raise":
                ctx.viol(where, f"{desc}: refuses a space with a fidelity", p)
    ctx.need(n, "no path of set_to_max_fidelity")
    ctx.ob(f"{where}: {n} paths")


def ss_grid(ctx):
    """The grid enumerates every combination of the values of every hyperparameter, inside the bounds."""
    n = 0
    where = SS + ".get_search_space_grid"
    for sp, fl, desc in spaces(ctx):
        for p in run(ctx, sp, "get_search_space_grid"):
            if p.outcome[0] != "return":
                continue
            r = fz(p, p.outcome[1])
            g = r if r[0] == "g" else next((x for x in subterms(r) if x[0] == "g"), None)
            if g is None or g[1] not in ("list", "gen") or not (g[2][0] == "op" and g[2][1].split(".")[-1] == "product"):
                raise AnalysisBroken(f"{where}: the grid could not be followed: {show(r)[:120]}")
            ranges = g[2][2:]
            n += 1
            if len(ranges) != len(sp.hps):
                ctx.viol(where, f"{desc}: combines {len(ranges)} of {len(sp.hps)} hyperparameters", p)
                continue
            for k, t in zip(sp.hps, ranges):
                own = sp.hps[k]
                kd = kind(ctx, sp.kinds["ab".index(k)])
                ok = None
                if kd == "cat":
                    ok = nolist(t) == ("p", f"{k}.choices")
                elif kd == "const":
                    x = t[1][0] if t[0] in ("list", "tup") and len(t[1]) == 1 else None
                    ok = x == ("p", f"{k}._value")
                else:
                    subs = list(subterms(t))
                    grids = [x for x in subs if x[0] == "call" and meth(x) == "grid"]
                    if len(grids) != 1:
                        raise AnalysisBroken(f"{where}: values of '{k}' could not be followed")
                    if fz(sp.path, grids[0][3]) != fz(sp.path, own) and grids[0][3] != own:
                        ok = False
                    kw = dict(grids[0][5])
                    if kw.get("size") != ("p", "size_per_numerical_hp") or kw.get("include_endpoint") != ("p", "include_endpoints"):
                        ctx.viol(where, f"{desc}: the grid of '{k}' has not the requested size and endpoints", p)
                    lo, hi = ("p", f"{k}.lower"), ("p", f"{k}.upper")
                    subs = list(subterms(without(t, grids[0])))
                    if not (any(x == lo for x in subs) and any(x == hi for x in subs)):
                        ctx.viol(where, f"{desc}: values of '{k}' are not limited to its bounds", p)
                    if not any(x[0] in ("op", "call") and str(x[1] if x[0] == "op" else tail(x[2])).split(".")[-1] in ("unique", "set", "fromkeys", "unique_everseen") for x in subs):
                        ctx.viol(where, f"{desc}: values of '{k}' may occur twice", p)
                if ok is False:
                    ctx.viol(where, f"{desc}: '{k}' takes the values {show(t)[:120]}", p)
            # every combination gives one configuration: names in the same order as ranges
            if len(g[3]) < 1 or any(facts_limit(l) for l, _ in g[3]):
                ctx.viol(where, f"{desc}: some combinations are left out", p)
            for _, x in g[3]:
                zs = [z for z in subterms(x) if z[0] == "op" and z[1] == "zip"]
                if not zs:
                    raise AnalysisBroken(f"{where}: the configurations could not be followed")
                for z in zs:
                    names = z[2]
                    if names[0] == "op" and names[1] in (".keys", "list", "tuple", "iter"):
                        names = names[2]
                    keys = [k for k, _ in names[1]] if names[0] == "dict" else list(names[1]) if names[0] in ("list", "tup") else None
                    if keys is None:
                        raise AnalysisBroken(f"{where}: the names could not be followed")
                    if [k[2] for k in keys] != list(sp.hps):
                        ctx.viol(where, f"{desc}: values are assigned to {[k[2] for k in keys]}", p)
    ctx.need(n, "no path of get_search_space_grid")
    ctx.ob(f"{where}: {n} grids")


def without(t, sub):
    if t == sub:
        return ("?",)
    return tuple(without(x, sub) if isinstance(x, tuple) else x for x in t)


def facts_limit(lits):
    return any(True for a, b in lits if a[0] in ("in", "eq", "ge", "truthy") and any(x == ("EL",) for x in subterms(a)))


def ss_set_from_dict(ctx):
    """Setting defaults or values from a dictionary does so for exactly the named hyperparameters."""
    n = 0
    where = SS + ".set_hyperparameters_from_dict"
    for sp, fl, desc in spaces(ctx, fids=False):
        given = ("a",)
        cfg = ("dict", ((C("a"), ("p", "new")),))
        for p in run(ctx, sp, "set_hyperparameters_from_dict", args={"hyperparameters": cfg}):
            T = lambda x: p.facts.get(("truthy", ("p", x)))
            if any(a[0] == "isinst" and a[1] == ("p", "new") and b for a, b in p.facts.items()):
                continue  # the marker for a missing value
            for k, m in touched(p, sp):
                if k != "a":
                    ctx.viol(where, f"{desc}: changes '{k}', for which nothing was given", p)
            if p.outcome[0] != "return":
                continue
            n += 1
            kd = kind(ctx, sp.kinds[0])
            seq = [(meth(c), one_arg(c)) for _, c in calls(p) if c[3] is not None and sp.who(c[3]) == "a"]
            sets = {m: v for m, v in seq}
            new = ("p", "new")
            if kd == "const":
                got = [m for m, _ in seq]
                if got and T("overwrite_constants") is not True:
                    ctx.viol(where, f"{desc}: changes a constant although constants are not to be overwritten", p)
                if T("overwrite_constants") is True and sets.get("set_constant_value") != new and any(strip(fz(p, e[3])) == new for e in p.events if e[0] == "store") is False:
                    ctx.viol(where, f"{desc}: the constant is not overwritten", p)
                continue
            for m, flag in (("set_default", "defaults"), ("set_value", "values")):
                f = T(flag)
                if f is True and sets.get(m) != new:
                    ctx.viol(where, f"{desc}: the {flag[:-1]} is not set", p)
                if f is not True and new in [v for mm, v in seq if mm == m]:
                    ctx.viol(where, f"{desc}: the {flag[:-1]} is set although it is not asked for", p)
                clears = [v for mm, v in seq if mm == m and v == NONE]
                if clears and T("delete_previous_" + flag) is not True:
                    ctx.viol(where, f"{desc}: the previous {flag[:-1]} is deleted", p)
                if not clears and T("delete_previous_" + flag) is True and f is not True:
                    ctx.viol(where, f"{desc}: the previous {flag[:-1]} is kept although it is to be deleted", p)
            cs = sets.get("set_default_confidence_score")
            if T("defaults") is True and cs != ("p", "confidence"):
                ctx.viol(where, f"{desc}: the confidence in the default is not set", p)
            if T("defaults") is not True and cs is not None:
                ctx.viol(where, f"{desc}: the confidence is changed although no default is set", p)
    ctx.need(n, "no path of set_hyperparameters_from_dict")
    ctx.ob(f"{where}: {n} paths")
