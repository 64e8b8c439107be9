"""Rules about search spaces read from YAML, dictionaries and ConfigSpace."""
from __future__ import annotations

import itertools

from rules.space import hp_classes, kind, nolist
from rules.store import tail
from sa.core import AnalysisBroken, calls, fz
from sa.terms import C, FALSE, TRUE, show, subterms

M = "neps.search_spaces.search_space"
YAML = M + ".pipeline_space_from_yaml"
CONFIGSPACE = M + ".pipeline_space_from_configspace"
P = lambda n: ("p", n)


def inits(ctx):
    return frozenset(c.find_method("__init__").qual for c in hp_classes(ctx))


def by_kind(ctx):
    out = {}
    for c in hp_classes(ctx):
        k = kind(ctx, c)
        out[{"num": "int" if "Integer" in c.name else "float"}.get(k, k)] = c
    ctx.need(set(out) == {"int", "float", "cat", "const"}, f"kinds of hyperparameters are {sorted(out)}")
    return out


def made(ctx, t):
    """(class, {argument: term}) of a hyperparameter constructed on a path, or None."""
    if t[0] != "call" or not t[2].startswith("new:"):
        return None
    c = next((c for c in hp_classes(ctx) if c.name == tail(t[2][4:])), None)
    if c is None:
        return None
    a = c.find_method("__init__").node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    d = dict(zip(names, t[4]))
    for k, v in t[5]:
        if k in ("**", "**="):
            return None
        d[k] = v
    return c, d


def literal(v):
    if isinstance(v, dict):
        return ("dict", tuple((C(k), literal(x)) for k, x in v.items()))
    if isinstance(v, list):
        return ("list", tuple(literal(x) for x in v))
    return v if isinstance(v, tuple) else C(v)


def read(ctx, config):
    return ctx.paths(YAML, exc=False, opaque=inits(ctx), args={"config": literal(config)}, types={})


def result(ctx, p, where):
    r = fz(p, p.outcome[1])
    if r[0] != "dict" or any(k == "**" or k[0] != "c" for k, _ in r[1]):
        raise AnalysisBroken(f"{where}: the result could not be followed: {show(r)[:120]}")
    out = {}
    for k, v in r[1]:
        m = made(ctx, v)
        if m is None:
            raise AnalysisBroken(f"{where}: hyperparameter '{k[2]}' could not be followed: {show(v)[:120]}")
        out[k[2]] = m
    return out


NUM = ("int", "float", "int64", "float64")


def conv(t):
    """(term without numeric conversions, names of the conversions from the outside)"""
    names = []
    while t[0] == "op" and t[1].split(".")[-1] in NUM + ("rint", "round") and len(t) >= 3:
        names.append(t[1].split(".")[-1])
        t = t[2]
    return t, names


def typed(p, t, ty):
    return p.facts.get(("isinst", t, ty))


def e_notation(p, t):
    """Does the path know the term to be a string in scientific notation?"""
    for a, b in p.facts.items():
        if a[0] == "truthy" and a[1][0] == "op" and a[1][1] in ("re.match", "re.fullmatch", "re.search") and any(x == t for x in subterms(a[1])):
            return b
    if typed(p, t, "str") is False or typed(p, t, "builtins.str") is False:
        return False
    return None


def yaml_forwarding(ctx):
    """Every key of a hyperparameter in YAML reaches the constructor of the right class with its value."""
    kinds = by_kind(ctx)
    n = 0
    opts = {"log": P("log"), "is_fidelity": P("is_fidelity"), "default": P("default"), "default_confidence": P("conf")}
    cases = []
    for ty in ("int", "integer", "Int", "float", "FLOAT"):
        k = "int" if ty.lower().startswith("int") else "float"
        cases += [(k, {"type": ty, "lower": P("lower"), "upper": P("upper")}), (k, {"type": ty, "lower": P("lower"), "upper": P("upper"), **opts})]
    for ty in ("cat", "categorical", "Categorical"):
        cases += [("cat", {"type": ty, "choices": [P("c1"), P("c2")]}), ("cat", {"type": ty, "choices": [P("c1"), P("c2")], "default": P("default"), "default_confidence": P("conf")})]
    cases += [("cat", {"choices": [P("c1"), P("c2")], "default": P("default")}), (None, {"lower": P("lower"), "upper": P("upper")}), (None, {"lower": P("lower"), "upper": P("upper"), **opts})]
    for k, details in cases:
        desc = "{" + ", ".join(f"{a}: {b}" if isinstance(b, str) else a for a, b in details.items()) + "}"
        ok = 0
        for p in read(ctx, {"x": details}):
            if p.outcome[0] != "return":
                if p.outcome[1][0] == "exc" and k == "cat" and not any(typed(p, P("default"), x) is False for x in ("str", "int", "float")) and not typed(p, ("list",), "x"):
                    if not any(b is False and a[0] == "isinst" for a, b in p.facts.items()):
                        ctx.viol(YAML, f"{desc}: refuses a valid hyperparameter", p)
                continue
            ok += 1
            n += 1
            hps = result(ctx, p, YAML)
            if set(hps) != {"x"}:
                ctx.viol(YAML, f"{desc}: the hyperparameter is read as {sorted(hps)}", p)
                continue
            c, d = hps["x"]
            if k is not None and c is not kinds[k]:
                ctx.viol(YAML, f"{desc}: read as {c.name}", p)
                continue
            if k is None:
                both = {t: (typed(p, P("lower"), t), typed(p, P("upper"), t)) for t in ("int", "float")}
                e = [e_notation(p, P(x)) for x in ("lower", "upper")]
                if c is kinds["int"] and both["int"] != (True, True):
                    ctx.viol(YAML, f"{desc}: read as an integer although the bounds are not both integers", p)
                elif c is kinds["float"] and both["float"] != (True, True) and True not in e:
                    ctx.viol(YAML, f"{desc}: read as a float although the bounds are neither floats nor in scientific notation", p)
                elif c not in (kinds["int"], kinds["float"]):
                    ctx.viol(YAML, f"{desc}: read as {c.name}", p)
            want = {a for a in details if a != "type"}
            for a in sorted(want - set(d)):
                ctx.viol(YAML, f"{desc}: '{a}' is ignored", p)
            for a in sorted(set(d) - want):
                ctx.viol(YAML, f"{desc}: '{a}' is set to {show(d[a])[:80]} although it is not given", p)
            for a in sorted(want & set(d)):
                src = details[a]
                if a == "choices":
                    t = nolist(d[a])
                    items = t[1] if t[0] in ("list", "tup") else None
                    if items is None:
                        raise AnalysisBroken(f"{YAML}: choices could not be followed: {show(t)[:100]}")
                    if len(items) != len(src):
                        ctx.viol(YAML, f"{desc}: {len(src)} choices are read as {len(items)}", p)
                    for s, t in zip(src, items):
                        converted(ctx, p, desc, "a choice", s, t)
                    continue
                if a == "default" and c is kinds["cat"]:
                    converted(ctx, p, desc, "the default", src, d[a])
                    continue
                t, names = conv(d[a])
                if t != src:
                    ctx.viol(YAML, f"{desc}: '{a}' is read as {show(d[a])[:100]}", p)
                elif a in ("lower", "upper", "default"):
                    if c is kinds["int"] and names[:1] != ["int"] and typed(p, src, "int") is not True:
                        ctx.viol(YAML, f"{desc}: '{a}' of an integer may not be an integer", p)
                    if c is kinds["int"] and names and not any(x == "int" for x in names[:1]):
                        ctx.viol(YAML, f"{desc}: '{a}' of an integer is converted by {names}", p)
                    if c is kinds["int"] and "int" in names and not whole(p, src):
                        ctx.viol(YAML, f"{desc}: '{a}' of an integer is cut to an integer without being refused", p)
                    if c is kinds["float"] and "int" in names:
                        ctx.viol(YAML, f"{desc}: '{a}' of a float is cut to an integer", p)
        if not ok:
            ctx.viol(YAML, f"{desc}: never accepted")
    ctx.count("yaml_cases", len(cases))
    ctx.ob(f"{YAML}: {len(cases)} forms of a hyperparameter, {n} paths")


def whole(p, src):
    """The path knows the number to be whole: it compared it with itself cut to an integer."""
    for a, b in p.facts.items():
        if a[0] == "eq" and b is True:
            x, y = conv(a[1]), conv(a[2])
            if x[0] == y[0] == src and ("int" in x[1]) != ("int" in y[1]):
                return True
        if a[0] == "truthy" and b is True and a[1][0] in ("op", "call") and "is_integer" in str(a[1][1]) + str(a[1][2]) and any(z == src for z in subterms(a[1])):
            return True
    return False


def converted(ctx, p, desc, what, src, t):
    e = e_notation(p, src)
    s, names = conv(t)
    if s != src:
        ctx.viol(YAML, f"{desc}: {what} is read as {show(t)[:80]}", p)
    elif names and e is not True:
        ctx.viol(YAML, f"{desc}: {what} is converted to a number although it is not in scientific notation", p)
    elif not names and e is True:
        ctx.viol(YAML, f"{desc}: {what} in scientific notation is not converted to a number", p)


def yaml_constants(ctx):
    """A plain value in YAML becomes a constant of that value."""
    kinds = by_kind(ctx)
    n = 0
    for p in read(ctx, {"x": P("v")}):
        if p.outcome[0] != "return" or typed(p, P("v"), "dict") is True:
            continue
        if not any(typed(p, P("v"), t) is True for t in ("str", "int", "float")):
            ctx.viol(YAML, "accepts something that is neither a plain value nor a description", p)
            continue
        n += 1
        c, d = result(ctx, p, YAML)["x"]
        if c is not kinds["const"] or set(d) != {"value"}:
            ctx.viol(YAML, f"a plain value is read as {c.name} with {sorted(d)}", p)
            continue
        converted(ctx, p, "plain value", "it", P("v"), d["value"])
    ctx.need(n, "no path reads a constant")
    for v in (0, 1, 0.0, "", False, "adam"):
        ps = [p for p in read(ctx, {"x": v}) if p.outcome[0] == "return"]
        for p in ps:
            c, d = result(ctx, p, YAML)["x"]
            if c is not kinds["const"] or d.get("value") != C(v):
                ctx.viol(YAML, f"the plain value {v!r} is read as {c.name} with {show(d.get('value', C(None)))[:60]}", p)
        if not ps:
            ctx.viol(YAML, f"the plain value {v!r} is refused")
    ctx.ob(f"{YAML}: constants, {n} paths")


LITERALS = [
    ({"choices": ["adam", "1e-3", 2, "x y"], "default": "adam"}, "cat", {"choices": ["adam", 0.001, 2, "x y"], "default": "adam"}),
    ({"choices": ["adam", "1e-3", 2, 0.5], "default": "1e-3"}, "cat", {"choices": ["adam", 0.001, 2, 0.5], "default": 0.001}),
    ({"type": "cat", "choices": [True, False, "12", "-2.5E4"], "default": False}, "cat", {"choices": [True, False, "12", -2.5e4], "default": False}),
    ({"choices": ["1e3", "b"], "default": "b"}, "cat", {"choices": [1000.0, "b"], "default": "b"}),
    ({"lower": "1e-5", "upper": "1e-1", "log": True}, "float", {"lower": 1e-5, "upper": 0.1, "log": True}),
    ({"lower": "1e-5", "upper": 1}, "float", {"lower": 1e-5, "upper": 1}),
    ({"lower": 1, "upper": "1.5e2", "default": "1e1"}, "float", {"lower": 1, "upper": 150.0, "default": 10.0}),
    ({"type": "float", "lower": 0, "upper": 1, "default": 1}, "float", {"lower": 0, "upper": 1, "default": 1}),
    ({"type": "int", "lower": "1e1", "upper": "1e3", "default": "1e2"}, "int", {"lower": 10, "upper": 1000, "default": 100}),
    ({"type": "int", "lower": 1, "upper": "1e3", "is_fidelity": True}, "int", {"lower": 1, "upper": 1000, "is_fidelity": True}),
    ({"lower": 0, "upper": 10, "default": 0, "log": False, "is_fidelity": False}, "int", {"lower": 0, "upper": 10, "default": 0, "log": False, "is_fidelity": False}),
    ({"lower": 0.0, "upper": 10.0, "default": 0.0, "default_confidence": "high"}, "float", {"lower": 0.0, "upper": 10.0, "default": 0.0, "default_confidence": "high"}),
    ({"type": "int", "lower": 1, "upper": "1.5e0"}, None, None),
    ({"type": "int", "lower": 1, "upper": 9, "default": "1.5e0"}, None, None),
    ({"type": "nonsense", "lower": 1, "upper": 9}, None, None),
    ({"lower": 1}, None, None),
]


def same(t, v, k):
    t = nolist(t)
    if isinstance(v, list):
        return t[0] in ("list", "tup") and len(t[1]) == len(v) and all(same(a, b, k) for a, b in zip(t[1], v))
    if t[0] != "c" or isinstance(t[2], bool) != isinstance(v, bool):
        return False
    if k == "int" and type(t[2]) is not type(v):
        return False
    return isinstance(t[2], str) == isinstance(v, str) and t[2] == v


def yaml_literals(ctx):
    """Numbers in scientific notation are read as numbers, everything else as written; what is malformed is refused."""
    kinds = by_kind(ctx)
    for details, k, want in LITERALS:
        n = 0
        for p in read(ctx, {"x": details}):
            n += 1
            if p.outcome[0] != "return":
                if k is not None:
                    ctx.viol(YAML, f"{details}: refused", p)
                continue
            if k is None:
                ctx.viol(YAML, f"{details}: accepted", p)
                continue
            c, d = result(ctx, p, YAML)["x"]
            if c is not kinds[k]:
                ctx.viol(YAML, f"{details}: read as {c.name}", p)
            elif set(d) != set(want) or not all(same(d[x], want[x], k) for x in want):
                ctx.viol(YAML, f"{details}: read as {c.name}({', '.join(f'{x}={show(y)[:40]}' for x, y in sorted(d.items()))})", p)
        ctx.need(n, f"{details}: no path")
    ctx.ob(f"{YAML}: {len(LITERALS)} literal descriptions")


def yaml_names(ctx):
    """Every hyperparameter is read under its name, with or without the enclosing key."""
    a = {"lower": 1, "upper": 9}
    b = {"choices": ["r", "s"]}
    n = 0
    for cfg in ({"b": b, "a": a, "pipeline_space": 3}, {"a": a, "b": b}, {"pipeline_space": {"a": a, "b": b}}):
        want = {"a", "b"} | ({"pipeline_space"} if len(cfg) == 3 else set())
        for p in read(ctx, cfg):
            if p.outcome[0] != "return":
                ctx.viol(YAML, f"refuses the hyperparameters {sorted(cfg)}", p)
                continue
            n += 1
            hps = result(ctx, p, YAML)
            if set(hps) != want:
                ctx.viol(YAML, f"reads {sorted(hps)} from {sorted(want)}", p)
                continue
            if hps["a"][1].get("lower") != C(1) or nolist(hps["b"][1].get("choices", C(0))) != ("list", (C("r"), C("s"))):
                ctx.viol(YAML, "mixes up hyperparameters", p)
    ctx.need(n, "nothing is read")
    ctx.ob(f"{YAML}: names, {n} paths")


CS = {
    "Constant": ("const", {"value": ("value",)}),
    "CategoricalHyperparameter": ("cat", {"choices": ("choices",), "default": ("default_value",)}),
    "OrdinalHyperparameter": ("cat", {"choices": ("sequence",), "default": ("default_value",)}),
    "UniformIntegerHyperparameter": ("int", {"lower": ("lower",), "upper": ("upper",), "log": ("log",), "default": ("default_value",)}),
    "UniformFloatHyperparameter": ("float", {"lower": ("lower",), "upper": ("upper",), "log": ("log",), "default": ("default_value",)}),
}


def configspace(ctx):
    """Every hyperparameter of a ConfigSpace is taken over with its name, bounds, scale, choices and default."""
    kinds = by_kind(ctx)
    ps = ctx.paths(CONFIGSPACE, exc=False, opaque=inits(ctx))
    seen = set()
    n = 0
    for p in ps:
        el = None
        ty = None
        for a, b in p.facts.items():
            if a[0] == "isinst" and a[1][0] in ("el", "it") and b:
                el, ty = a[1], tail(a[2])
        if p.outcome[0] != "return":
            if ty in CS:
                ctx.viol(CONFIGSPACE, f"refuses a {ty}", p)
            continue
        cond = [b for a, b in p.facts.items() if a[0] == "truthy" and any(x[0] in ("call", "op") and ("get_conditions" in str(x[1:3]) or "conditions" in str(x[1:3])) for x in subterms(a[1]))]
        forb = [b for a, b in p.facts.items() if a[0] == "truthy" and any(x[0] in ("call", "op", "a") and "forbidden" in str(x[1:3]) for x in subterms(a[1]))]
        if False not in cond or False not in forb:
            ctx.viol(CONFIGSPACE, "accepts a configuration space with conditions or forbidden clauses, which it drops", p)
        r = fz(p, p.outcome[1])
        if r[0] == "dict" and not r[1]:
            continue
        ents = [(el, ty, k, v) for k, v in r[1]] if r[0] == "dict" else None
        g = r[1][0][1] if r[0] == "dict" and len(r[1]) == 1 and r[1][0][0] == "**" else r
        if g[0] == "g" and g[1] == "dict" and all(v[0] == "tup" and len(v[1]) == 2 for _, v in g[3]):
            # filled by one statement over all hyperparameters: one case per type
            ents = []
            for conds, v in g[3]:
                tys = [tail(a[2]) for a, b in conds if a[0] == "isinst" and a[1] == ("EL",) and b]
                ents.append((("EL",), tys[0] if tys else None, *v[1]))
        if ents is None or any(k == "**" for _, _, k, _ in ents):
            raise AnalysisBroken(f"{CONFIGSPACE}: the result could not be followed: {show(r)[:120]}")
        for el, ty, k, v in ents:
            m = made(ctx, v)
            if m is None or el is None:
                raise AnalysisBroken(f"{CONFIGSPACE}: a hyperparameter could not be followed: {show(v)[:120]}")
            n += 1
            base = el
            if k != ("a", base, "name") and not (k[0] == "it" and base[0] == "it" and k[1] == base[1]):
                ctx.viol(CONFIGSPACE, f"a {ty} is kept under {show(k)[:80]}", p)
            if ty not in CS:
                continue
            seen.add(ty)
            kd, exp = CS[ty]
            c, d = m
            if c is not kinds[kd]:
                ctx.viol(CONFIGSPACE, f"a {ty} becomes a {c.name}", p)
                continue
            for x, (attr,) in exp.items():
                t = d.get(x)
                if t is None:
                    ctx.viol(CONFIGSPACE, f"'{attr}' of a {ty} is dropped", p)
                elif nolist(conv(t)[0]) != ("a", base, attr):
                    ctx.viol(CONFIGSPACE, f"'{x}' of a {ty} is {show(t)[:100]}", p)
            for x in set(d) - set(exp):
                if d[x] != default_of(c, x):
                    ctx.viol(CONFIGSPACE, f"'{x}' of a {ty} is set to {show(d[x])[:60]}", p)
    for ty in sorted(set(CS) - seen):
        ctx.viol(CONFIGSPACE, f"a {ty} is not taken over")
    ctx.need(n, "no hyperparameter is taken over")
    ctx.ob(f"{CONFIGSPACE}: {len(seen)} kinds of hyperparameters, {len(ps)} paths")


def default_of(c, name):
    import ast

    f = c.find_method("__init__").node
    a = f.args
    for x, d in list(zip(a.kwonlyargs, a.kw_defaults)) + list(zip((a.posonlyargs + a.args)[-len(a.defaults):] if a.defaults else [], a.defaults)):
        if x.arg == name and isinstance(d, ast.Constant):
            return C(d.value)
    return None


def space_argument(ctx):
    """neps.run uses the search space it is given in any of its forms, without losing hyperparameters."""
    f = ctx.func("neps.api._run_args")
    yaml_q, cs_q = ctx.func(YAML).qual, ctx.func(CONFIGSPACE).qual
    hp = hp_classes(ctx)[0]

    def go(space):
        from rules.api import build

        return build(ctx, "random_search", values={"pipeline_space": space})

    n = 0
    H = ("new", hp.qual, ())
    for desc, space, facts in (("a mixed dictionary", ("dict", ((C("x"), H), (C("y"), P("CS")), (C("z"), H))), None),):
        for p in go(space):
            if p.facts.get(("isinst", P("CS"), "ConfigSpace.ConfigurationSpace")) is not True:
                continue
            n += ss_args(ctx, p, f.qual, desc, {"x", "z"}, {("p", "CS")})
    for p in go(P("SPACE")):
        src = None
        for a, b in p.facts.items():
            if a[0] == "isinst" and a[1] == P("SPACE") and b:
                src = tail(a[2])
        want = {"ConfigurationSpace": cs_q, "str": yaml_q, "Path": yaml_q}.get(src)
        if want is None:
            continue
        for _, c in calls(p):
            if c[2].startswith("new:") and tail(c[2][4:]) == "SearchSpace":
                n += 1
                used = [x for _, x in calls(p) if tail(x[2]) == tail(want) and P("SPACE") in (list(x[4]) + [v for _, v in x[5]])]
                if not used:
                    ctx.viol(f.qual, f"a search space given as {src} is not read by {tail(want)}", p)
    ctx.need(n, "no search space is built")
    ctx.ob(f"{f.qual}: search space arguments, {n} paths")


def ss_args(ctx, p, where, desc, names, spreads):
    n = 0
    for _, c in calls(p):
        if not (c[2].startswith("new:") and tail(c[2][4:]) == "SearchSpace"):
            continue
        n += 1
        got, spr = set(), set()
        for k, v in c[5]:
            if k in ("**", "**="):
                v = fz(p, v)
                if v[0] == "call" and tail(v[2]) == tail(CONFIGSPACE):
                    spr |= {x for x in list(v[4]) + [y for _, y in v[5]]}
                elif v[0] == "dict":
                    for kk, vv in v[1]:
                        if kk == "**":
                            spr |= {x for x in subterms(vv) if x in spreads}
                        else:
                            got.add(kk[2])
                else:
                    raise AnalysisBroken(f"{where}: the search space could not be followed: {show(v)[:120]}")
            else:
                got.add(k)
        if got != names or not spreads <= spr:
            ctx.viol(where, f"{desc}: the search space has {sorted(got)} and {len(spr)} spaces merged, expected {sorted(names)} and {len(spreads)}", p)
    return n
