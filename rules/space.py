"""Rules about hyperparameters and search spaces."""
from __future__ import annotations

import itertools

from rules.store import tail
from sa.core import AnalysisBroken, calls, fz, raises_, returns
from sa.terms import C, FALSE, NONE, TRUE, show, subterms

SELF = ("p", "self")
VAL = ("p", "value")
CONV = {"float", "int", "round", "rint", "float64", "int64"}


def strip(t):
    """Without conversions that keep the number."""
    while True:
        if t[0] == "op" and t[1].split(".")[-1] in CONV and len(t) >= 3:
            t = t[2]
        elif t[0] == "call" and tail(t[2]) in ("rint", "round", "float64", "int64") and len(t[4]) == 1:
            t = t[4][0]
        else:
            return t


def at(n, base=SELF):
    return ("a", base, n)


def hp_classes(ctx, need=True):
    base = ctx.cls("neps.search_spaces.parameter.Parameter")
    out = []
    for c in ctx.prog.subclasses(base):
        if not c.module.name.startswith("neps.search_spaces.hyperparameters"):
            continue
        f = c.find_method("set_value")
        if f is None or f.is_abstract or c.find_method("clone") is None or c.find_method("clone").is_abstract:
            continue
        out.append(c)
    out = sorted(set(out), key=lambda c: c.qual)
    if need:
        ctx.need(out, "no hyperparameter classes found")
    return out


def kind(ctx, c):
    """'num' | 'cat' | 'const'"""
    if any(k.name == "NumericalParameter" for k in c.mro()):
        return "num"
    f = c.find_method("__init__")
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    if "choices" in names:
        return "cat"
    if "value" in names:
        return "const"
    raise AnalysisBroken(f"unknown kind of hyperparameter {c.qual}")


def domain_fns(ctx):
    return frozenset(q for q in ctx.prog.funcs if ".domain." in q)


def stores(p, base=SELF):
    """Effects on ``base`` or a part of it: [(index, attribute path, value | None)]."""
    out = []
    for i, e in enumerate(p.events):
        if e[0] == "store":
            r = rel(p, e[1], base)
            if r is not None:
                out.append((i, r + (e[2],), e[3]))
        elif e[0] in ("store?", "setitem", "delitem"):
            r = rel(p, e[1], base)
            if r is not None:
                out.append((i, r + ("?",), None))
        elif e[0] == "mut":
            r = rel(p, e[1], base)
            if r is not None:
                out.append((i, r + ("?",), None))
        elif e[0] == "call" and tail(e[1][2]).lstrip(".") in MUTATORS and e[1][3] is not None:
            r = rel(p, e[1][3], base)
            if r is not None:
                out.append((i, r + (tail(e[1][2]).lstrip("."),), None))
    return out


MUTATORS = {
    "set_value", "set_default", "load_from", "set_default_confidence_score", "set_constant_value", "append", "extend", "insert", "pop", "remove",
    "clear", "update", "setdefault", "sort", "reverse", "popitem", "set_to_max_fidelity", "set_hyperparameters_from_dict", "set_defaults_to_current_values",
    "__setattr__", "__setitem__",
}


def rel(p, t, base):
    """Attribute path from base to t (through attributes and items), or None."""
    path = []
    while t != base:
        if t[0] == "a":
            path.append(t[2])
            t = t[1]
        elif t[0] == "sub":
            path.append("[]")
            t = t[1]
        else:
            return None
    return tuple(reversed(path))


def refused(p):
    """The path ends by refusing the value (rather than by an unknown failure)."""
    o = p.outcome
    if o[0] != "raise":
        return False
    e = o[1]
    return e[0] == "exc" and e[1] not in ("?", "?B") and not e[1].startswith("?")


def part_refusal(p):
    """The path ends because a part of the object refused."""
    if p.outcome[0] != "raise":
        return False
    ev = [e for e in p.events if e[0] in ("callexc", "call", "store")]
    return bool(ev) and ev[-1][0] == "callexc" and tail(ev[-1][1][2]).lstrip(".") in ("set_value", "set_default") and ev[-1][1][3] is not None and rel(p, ev[-1][1][3], SELF) is not None


def domain_known(p, k, v, deleg=None):
    """What a path knows of the value: {'none':b, 'lo':b, 'hi':b, 'ok':b}; None if infeasible."""
    known = {}
    for a, b in p.facts.items():
        if a[0] == "isnone" and strip(a[1]) == v:
            known["none"] = b
        if k == "num" and a[0] == "ge":
            x, y = strip(a[1]), strip(a[2])
            if x == v and y == at("lower"):
                known["lo"] = b
            elif x == at("upper") and y == v:
                known["hi"] = b
            elif x == v and y == at("upper"):  # value >= upper
                if not b:
                    known["hi"] = True
            elif x == at("lower") and y == v:
                if not b:
                    known["lo"] = True
        if k == "cat" and a[0] == "in" and strip(a[1]) == v and a[2] == at("choices"):
            known["ok"] = b
        if k == "cat" and a[0] == "eq" and b and v in (a[1], a[2]):
            o = a[2] if a[1] == v else a[1]
            if from_choices(o):
                known["ok"] = True
        if k == "const" and a[0] == "eq" and v in (a[1], a[2]):
            o = a[2] if a[1] == v else a[1]
            if o in (at("value"), at("_value"), at("default")):
                known["ok"] = b
    if k == "cat" and "ok" not in known and known.get("none") is not True:
        if p.outcome[0] == "raise" and p.outcome[1][:2] == ("exc", "ValueError"):
            known["ok"] = False
            known.setdefault("none", False)
        elif any(index_of(x, v) for e in p.events for t in e[1:] if isinstance(t, tuple) for x in subterms(fz(p, t))):
            known["ok"] = True
            known.setdefault("none", False)
    return known


def from_choices(t):
    """An item of the choices, by index or iteration."""
    if t[0] == "it":
        return t[2] == 1 and from_choices(t[1])
    if t[0] == "el":
        it = nolist(t[2])
        if it[0] == "op" and it[1] == "enumerate":
            it = nolist(it[2])
        return it == at("choices")
    return t[0] == "sub" and nolist(t[1]) == at("choices")


def index_of(t, v):
    return t[0] in ("op", "call") and ((t[0] == "op" and t[1] == ".index" and len(t) == 4 and t[2] == at("choices") and t[3] == v) or (t[0] == "call" and tail(t[2]).lstrip(".") == "index" and t[3] == at("choices") and t[4] == (v,)))


def accept_table(ctx, cls, meth, field, v=VAL):
    """Shared by set_value, load_from and set_default."""
    k = kind(ctx, cls)
    f = cls.find_method(meth)
    where = f"{cls.qual}.{meth}"
    opaque = domain_fns(ctx) | frozenset(c.find_method("value_to_normalized").qual for c in hp_classes(ctx))
    paths = ctx.paths(f, exact_self=cls, opaque=opaque, exc=True)
    n = 0
    sets = {True: set(), False: set()}
    for p in paths:
        st = stores(p)
        known = domain_known(p, k, v)
        out = None
        if p.outcome[0] == "return":
            out = "kept" if not st else "stored"
        elif refused(p):
            out = "refused"
        elif part_refusal(p):
            out = "part refused"
        else:
            continue
        n += 1
        none = known.get("none")
        if out == "part refused" and known.get("lo") is True and known.get("hi") is True:
            continue  # the part has the wider float range of the same integers
        if k == "cat" and out == "refused" and known.get("ok") is True and p.outcome[1][2][:1] == ("pure",):
            continue  # looking up a value that is known to be one of the choices
        if out == "stored" or out == "kept":
            if k == "const":
                if known.get("ok") is not True:
                    ctx.viol(where, "accepts a value different from the constant", p)
                if st:
                    ctx.viol(where, "changes the constant", p)
                continue
            if none is True:
                fields = dict((".".join(a), (NONE if p.facts.get(("isnone", x)) is True else fz(p, x)) if x is not None else None) for _, a, x in st)
                if fields.get(field) != NONE:
                    ctx.viol(where, f"clearing leaves '{field}' at {show(fields.get(field)) if fields.get(field) else 'its old value'}", p)
                for part in parts_of(ctx, cls):
                    if not any(tail(c[2]).lstrip(".") == {"_value": "set_value", "default": "set_default"}[field] and c[3] is not None and rel(p, c[3], SELF) == (part,) and c[4] in ((NONE,), (v,)) for _, c in calls(p)):
                        ctx.viol(where, f"clearing does not clear its part '{part}'", p)
                if field == "default" and fields.get("has_prior") != FALSE:
                    ctx.viol(where, "clearing the default keeps the prior", p)
                sets[True] |= {a[0] for _, a, x in st if x is not None}
                continue
            if none is None and meth == "load_from":
                none = False
            if none is None:
                ctx.viol(where, "a missing value is not told apart from a value", p)
                continue
            fields = {}
            for i, a, x in st:
                if x is not None and len(a) == 1:
                    fields[a[0]] = fz(p, x)
            deleg = [i for i, c in calls(p) if tail(c[2]).lstrip(".") == {"_value": "set_value", "default": "set_default"}[field] and c[3] is not None and rel(p, c[3], SELF) not in (None, ()) and len(c[4]) == 1 and strip(c[4][0]) == v]
            if k == "num":
                if field == "default" and deleg and not ("lo" in known or "hi" in known):
                    pass  # the part has the wider float range of the same integers and refuses anything else
                else:
                    for b, what in (("lo", "below the lower bound"), ("hi", "above the upper bound")):
                        if known.get(b) is not True:
                            ctx.viol(where, f"accepts a value {what}", p)
            if k == "cat" and known.get("ok") is not True:
                ctx.viol(where, "accepts a value that is not one of the choices", p)
            x = fields.get(field)
            if x is None:
                ctx.viol(where, f"an accepted value is not stored as '{field}'", p)
            elif strip(x) != v:
                ctx.viol(where, f"an accepted value is stored as {show(x)[:120]}", p)
            if field == "default" and fields.get("has_prior") != TRUE:
                ctx.viol(where, "an accepted default does not give a prior", p)
            if field == "_value":
                nv = fields.get("normalized_value")
                if nv is None or nv == NONE:
                    ctx.viol(where, "the normalised value is not updated with the value", p)
                elif not normalized_of(p, k, nv, v):
                    ctx.viol(where, f"the normalised value is {show(nv)[:160]}, which is not that of the value", p)
            if field == "default" and k == "num" and not any(a == ("truthy", at("log")) and b is False for a, b in p.facts.items()):
                ld = fields.get("log_default")
                if ld is None or ld == NONE:
                    ctx.viol(where, "the default in log space is not updated with the default", p)
            for part in parts_of(ctx, cls):
                if not any(rel(p, c[3], SELF) == (part,) for i, c in calls(p) if i in deleg):
                    ctx.viol(where, f"its part '{part}' is not updated", p)
            sets[False] |= {a[0] for _, a, y in st if y is not None}
        else:
            if none is True:
                if out == "refused":
                    ctx.viol(where, "refuses to be cleared", p)
                continue
            ok = known.get("ok") is False or known.get("lo") is False or known.get("hi") is False or out == "part refused"
            if not ok:
                ctx.viol(where, "refuses a value of the domain", p)
            if st and not all(a[-1] in ("set_value", "set_default") and i == st[-1][0] for i, a, x in st):
                ctx.viol(where, f"a refused value leaves {', '.join(sorted({'.'.join(a) for _, a, _ in st}))} changed", p)
    if k != "const" and sets[True] and sets[False] and sets[True] != sets[False]:
        ctx.viol(where, f"setting updates {sorted(sets[False])} but clearing updates {sorted(sets[True])}")
    ctx.need(n >= 2, f"{where}: could not be followed")
    ctx.count("accept_paths", n)
    ctx.ob(f"{where}: accepts exactly its domain, keeps derived state in step, unchanged when it refuses ({n} paths)")


def parts_of(ctx, cls):
    """Attributes of ``cls`` that hold another hyperparameter with the same role."""
    out = []
    names = {c.name for c in hp_classes(ctx)}
    import ast

    for n in own_nodes(cls):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in names:
            for t in getattr(n, "targets", None) or [n.target]:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr not in out:
                    out.append(t.attr)
    return out


def own_nodes(cls):
    """Every node of the methods ``cls`` defines, and of the constructor it uses."""
    import ast

    seen = set()
    for f in [cls.find_method("__init__"), *cls.methods.values()]:
        if f is not None and f.qual not in seen:
            seen.add(f.qual)
            yield from ast.walk(f.node)


def normalized_of(p, k, nv, v):
    nv = fz(p, nv)
    if k == "cat":
        t = strip(nv)
        if t[0] == "it" and t[2] == 0 and from_choices(("it", t[1], 1)):
            x = ("it", t[1], 1)
            return any(a[0] == "eq" and b and {a[1], a[2]} == {x, v} for a, b in p.facts.items())
        return index_of(strip(nv), v) or (strip(nv)[0] == "call" and tail(strip(nv)[2]).lstrip(".") == "value_to_normalized" and strip(strip(nv)[4][0] if strip(nv)[4] else strip(dict(strip(nv)[5])["value"])) == v)
    t = strip(nv)
    if t[0] == "call" and tail(t[2]).lstrip(".") == "value_to_normalized":
        a = t[4][0] if t[4] else dict(t[5]).get("value")
        return a is not None and strip(a) == v
    return any(strip(x) == v for x in subterms(nv))


def hp_set_value(ctx):
    """Setting a value accepts exactly the domain, and changes nothing when it refuses."""
    for c in hp_classes(ctx):
        accept_table(ctx, c, "set_value", "_value")
        accept_table(ctx, c, "load_from", "_value")


def hp_set_default(ctx):
    """Setting a default accepts exactly the domain, and changes nothing when it refuses."""
    for c in hp_classes(ctx):
        accept_table(ctx, c, "set_default", "default", ("p", "default"))


def final(p, n, o=SELF):
    v = p.state.heap.get((o, n))
    return fz(p, v) if v is not None else None


def nolist(t):
    while t[0] == "op" and t[1] in ("list", "tuple") and len(t) == 3:
        t = t[2]
    if t[0] == "list" and len(t) == 2 and isinstance(t[1], tuple) and len(t[1]) == 1 and t[1][0][0] == "star":
        return nolist(t[1][0][1])
    return t


def hp_init(ctx):
    """A hyperparameter is only constructed with a consistent definition, which it keeps."""
    for c in hp_classes(ctx):
        k = kind(ctx, c)
        where = f"{c.qual}.__init__"
        paths = ctx.paths(c.find_method("__init__"), exact_self=c, exc=False, opaque=domain_fns(ctx))
        ok = returns(paths)
        ctx.need(ok, f"{where}: no successful construction found")
        P = lambda n: ("p", n)
        for p in ok:
            known = {}
            conf = None
            for a, b in p.facts.items():
                if a[0] == "ge":
                    x, y = strip(a[1]), strip(a[2])
                    if x == P("lower") and y == P("upper"):
                        known["lt"] = not b
                    elif y == P("default") and x == P("upper"):
                        known["dhi"] = b
                    elif x == P("default") and y == P("lower"):
                        known["dlo"] = b
                    elif x[0] == "c" and (y == P("lower") or (y[0] == "op" and y[1] in ("min", "builtins.min", "numpy.minimum") and P("lower") in [strip(z) for z in y[2:]])):
                        known["pos"] = (not b) and x[2] == 0
                    elif y == P("lower") and x == P("default") and not b:
                        known["dlo"] = False
                    elif x == C(1) and a[2][0] == "bin" or (x == C(0) and a[2][0] == "bin"):
                        s = {strip(z) for z in subterms(a[2])}
                        if P("lower") in s and P("upper") in s and not b:
                            known.setdefault("lt", True)
                    elif x == C(1) and y[0] == "op" and y[1] == "len":
                        known["two"] = not b
                    elif x[0] == "op" and x[1] == "len" and y == C(2):
                        known["two"] = b
                elif a[0] == "isnone" and a[1] == P("default"):
                    known["nodef"] = b
                elif a[0] == "truthy" and a[1] == P("log"):
                    known["log"] = b
                elif a[0] == "eq" and P("default_confidence") in a[1:]:
                    if b:
                        conf = a[1] if a[2] == P("default_confidence") else a[2]
                elif a[0] == "in" and a[1] == P("default_confidence"):
                    conf = conf or b
                elif a[0] == "in" and a[1] == P("default") and nolist(a[2]) == P("choices"):
                    known["in"] = b
                elif a[0] == "truthy" and a[1][0] in ("op", "call") and "unique" in str(a[1][2 if a[1][0] == "call" else 1]):
                    known["uniq"] = b
                elif a[0] == "eq" and any(t[0] == "op" and t[1] == "len" and t[2][0] == "op" and t[2][1] in ("set", "frozenset") for t in a[1:]):
                    known["uniq"] = b
            if k == "num":
                if known.get("lt") is not True:
                    ctx.viol(where, "accepts a lower bound that is not below the upper bound", p)
                if known.get("log") is not False and known.get("pos") is not True:
                    ctx.viol(where, "accepts bounds that are not positive on a log scale", p)
            if k in ("num", "cat"):
                if known.get("nodef") is None:
                    ctx.viol(where, "does not tell a missing default apart", p)
                if known.get("nodef") is False:
                    if k == "num" and not (known.get("dlo") is True and known.get("dhi") is True):
                        ctx.viol(where, "accepts a default outside the bounds", p)
                    if k == "cat" and known.get("in") is not True:
                        ctx.viol(where, "accepts a default that is not one of the choices", p)
                if not conf and looked_up(final(p, "default_confidence_score")):
                    conf = True  # looking up an unknown name in a fixed table fails
                if not conf:
                    ctx.viol(where, "accepts an unknown confidence in the default", p)
            if k == "cat":
                if known.get("two") is not True:
                    ctx.viol(where, "accepts fewer than two choices", p)
                if known.get("uniq") is not True:
                    ctx.viol(where, "accepts duplicate choices", p)
            # -- what is kept
            exp = {}
            if k == "num":
                exp = {"lower": P("lower"), "upper": P("upper"), "log": P("log"), "is_fidelity": P("is_fidelity")}
            if k == "cat":
                exp = {"choices": P("choices"), "is_fidelity": FALSE}
            if k == "const":
                exp = {"_value": P("value"), "default": P("value"), "is_fidelity": FALSE}
            else:
                exp["default"] = NONE if known.get("nodef") else P("default")
                exp["default_confidence_choice"] = P("default_confidence")
                exp["has_prior"] = FALSE if known.get("nodef") else TRUE
                exp["_value"] = NONE
            for n, e in exp.items():
                v = final(p, n)
                if v is None:
                    ctx.viol(where, f"'{n}' is not kept", p)
                elif nolist(strip(v)) != e and not (e[0] == "c" and v == C(e[2])) and not (n == "has_prior" and v == ("not", ("isnone", P("default")))):
                    if isinstance(conf, tuple) and e == P("default_confidence") and v == conf:
                        continue
                    if n == "default" and known.get("nodef") and strip(v) == P("default"):
                        continue
                    ctx.viol(where, f"'{n}' is kept as {show(v)[:120]}", p)
            if k in ("num", "cat"):
                s = final(p, "default_confidence_score")
                a = c.find_attr("DEFAULT_CONFIDENCE_SCORES")
                if a is not None and s is not None and isinstance(conf, tuple):
                    d = ctx.prog.const_str(a[0].module, a[1])
                    if isinstance(d, dict) and s[0] == "c" and s[2] != d.get(conf[2]):
                        ctx.viol(where, f"the confidence {conf[2]} has the score {s[2]}", p)
                elif s is None:
                    ctx.viol(where, "the confidence score is not kept", p)
            if k == "num" and known.get("log") is True:
                lb, ld = final(p, "log_bounds"), final(p, "log_default")
                if lb is None or lb[0] != "tup" or len(lb[1]) != 2:
                    ctx.viol(where, "bounds in log space are not kept", p)
                else:
                    for t, n in zip(lb[1], ("lower", "upper")):
                        if log_of(t) != P(n):
                            ctx.viol(where, f"the {n} bound in log space is {show(t)[:100]}", p)
                if known.get("nodef") is False and (ld is None or log_of(ld) != P("default")):
                    ctx.viol(where, "the default in log space is not that of the default", p)
            for part in parts_of(ctx, c):
                o = p.state.heap.get((SELF, part))
                if o is None or o[0] != "o":
                    raise AnalysisBroken(f"{where}: part '{part}' could not be followed")
                for n, sign in (("lower", "-"), ("upper", "+")):
                    v = strip(final(p, n, o))
                    if not widened(v, n):
                        ctx.viol(where, f"the {n} bound of '{part}' is {show(v)[:100]}", p)
                for n in ("log", "is_fidelity", "default", "default_confidence_choice"):
                    v, w = final(p, n, o), final(p, n)
                    if v is None or strip(v) != strip(w):
                        ctx.viol(where, f"'{n}' of its part '{part}' is {show(v)[:80] if v else 'missing'}", p)
        ctx.count("construction_paths", len(paths))
        ctx.ob(f"{where}: definition checked and kept ({len(ok)} accepting, {len(raises_(paths))} refusing paths)")


def looked_up(t):
    return t is not None and t[0] == "sub" and t[2] == ("p", "default_confidence") and (t[1][0] == "dict" or (t[1][0] == "a" and t[1][2] == "DEFAULT_CONFIDENCE_SCORES") or t[1][0] == "gv")


def log_of(t):
    t = strip(t)
    if t[0] == "op" and t[1].split(".")[-1] == "log" and len(t) == 3:
        return strip(t[2])
    if t[0] == "call" and tail(t[2]) == "log" and len(t[4]) == 1:
        return strip(t[4][0])
    return None


def widened(t, n):
    """lower - c or upper + c with 0 <= c <= 0.5"""
    if t[0] != "bin":
        return strip(t) == ("p", n)
    a, b = strip(t[2]), strip(t[3])
    if t[1] == "-" and n == "lower":
        return a == ("p", n) and b[0] == "c" and 0 <= b[2] <= 0.5
    if t[1] == "+":
        x, y = (a, b) if b[0] == "c" else (b, a)
        return x == ("p", n) and y[0] == "c" and (0 <= y[2] <= 0.5 if n == "upper" else -0.5 <= y[2] <= 0)
    return False


# ------------------------------------------------------------------------- clones
def hp_clone(ctx):
    """A clone is a new object with the same definition and value."""
    for c in hp_classes(ctx):
        where = f"{c.qual}.clone"
        k = kind(ctx, c)
        paths = ctx.paths(c.find_method("clone"), exact_self=c, exc=False, opaque=domain_fns(ctx))
        ok = returns(paths)
        ctx.need(ok, f"{where}: no path returns")
        fields = {"num": ["lower", "upper", "log", "is_fidelity", "default", "default_confidence_choice", "default_confidence_score", "_value"], "cat": ["choices", "default", "default_confidence_choice", "default_confidence_score", "_value"], "const": ["_value", "default"]}[k]
        for p in ok:
            o = p.outcome[1]
            if deepcopied(o):
                continue
            if o == SELF:
                ctx.viol(where, "returns the same object", p)
                continue
            if o[0] != "o" or o[2] != c.qual:
                raise AnalysisBroken(f"{where}: the clone could not be followed: {show(o)[:80]}")
            if stores(p):
                ctx.viol(where, "changes the original", p)
            if any(a == ("isnone", at("_value")) and b for a, b in p.facts.items()):
                pass
            for n in fields:
                v = final(p, n, o)
                if v is None:
                    ctx.viol(where, f"'{n}' is missing in the clone", p)
                elif not same_field(p, v, n):
                    ctx.viol(where, f"'{n}' of the clone is {show(v)[:100]}", p)
            if "_value" in fields and k != "const":
                nv = final(p, "normalized_value", o)
                isn = p.facts.get(("isnone", at("_value")))
                if isn is False and (nv is None or nv == NONE):
                    ctx.viol(where, "the clone's normalised value is missing", p)
            for part in parts_of(ctx, c):
                po = p.state.heap.get((o, part))
                if po is None or po == at(part):
                    ctx.viol(where, f"the clone shares its part '{part}'", p)
                    continue
                for n in ("default_confidence_score",):
                    v = final(p, n, po)
                    if v is None or v not in (at(n, at(part)), at(n)):
                        ctx.viol(where, f"'{n}' of the clone's part '{part}' is {show(v)[:100] if v else 'missing'}", p)
                isn = p.facts.get(("isnone", at("_value")))
                v = final(p, "_value", po)
                if isn is False and (v is None or strip(v) != at("_value")):
                    ctx.viol(where, f"the clone's part '{part}' does not have the value", p)
        ctx.ob(f"{where}: complete and independent ({len(ok)} paths)")


def deepcopied(t, of=SELF):
    return (t[0] == "call" and tail(t[2]) == "deepcopy" and t[4] == (of,)) or (t[0] == "op" and t[1].split(".")[-1] == "deepcopy" and t[2] == of)


def same_field(p, v, n):
    v = nolist(strip(v))
    if v == at(n):
        return True
    if n == "_value" and v == at("value"):
        return True
    if p.facts.get(("isnone", at(n))) is True and v == NONE:
        return True
    if n == "default" and v == at("_value") :
        return True  # a constant: its default is its value
    if v[0] == "c" and p.facts.get(("eq", at(n), v), p.facts.get(("eq", v, at(n)))) is True:
        return True
    if n == "log" and v == FALSE and p.facts.get(("truthy", at(n))) is False:
        return True
    return False


# ----------------------------------------------------------------- derived values
def hp_sample_value(ctx):
    """A sampled value is in the domain whatever the generator returned."""
    for c in hp_classes(ctx):
        where = f"{c.qual}.sample_value"
        k = kind(ctx, c)
        parts = parts_of(ctx, c)
        types = {at(x): ("k", next(h.qual for h in hp_classes(ctx) if h.name == part_class(ctx, c, x)), ()) for x in parts}
        paths = ctx.paths(c.find_method("sample_value"), exact_self=c, exc=False, types=types)
        ok = returns(paths)
        ctx.need(ok, f"{where}: no path returns")
        for p in ok:
            v = fz(p, p.outcome[1])
            if k == "const":
                if v not in (at("_value"), at("value"), at("default")):
                    ctx.viol(where, f"returns {show(v)[:100]} instead of the constant", p)
                continue
            if k == "cat":
                if not choice_of(v):
                    ctx.viol(where, f"returns {show(v)[:100]}, which is not one of the choices", p)
                continue
            w = strip(v)
            if any(w == x for x in (at("default"),)):
                continue
            if w[0] == "call" and tail(w[2]).lstrip(".") == "sample_value" and w[3] is not None and rel(p, w[3], SELF) and rel(p, w[3], SELF)[0] in parts:
                continue
            if not clamped(p, w, parts):
                ctx.viol(where, f"returns {show(v)[:160]}, which can be outside the bounds", p)
            if stores(p):
                ctx.viol(where, "sampling changes the hyperparameter", p)
        ctx.ob(f"{where}: stays in the domain ({len(ok)} paths)")


def part_class(ctx, c, attr):
    import ast

    for n in own_nodes(c):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
            for t in getattr(n, "targets", None) or [n.target]:
                if isinstance(t, ast.Attribute) and t.attr == attr:
                    return n.value.func.id


def choice_of(v):
    v = strip(v)
    if v[0] == "sub" and nolist(v[1]) == at("choices"):
        return True
    if v[0] == "call" and tail(v[2]).lstrip(".") == "choice" and v[4] and nolist(v[4][0]) == at("choices"):
        return True
    return v == at("default")


def clamped(p, w, parts):
    lo = {at("lower")} | {at("lower", at(x)) for x in parts}
    hi = {at("upper")} | {at("upper", at(x)) for x in parts}

    def fn(t):
        return t[1].split(".")[-1] if t[0] == "op" else tail(t[2]) if t[0] == "call" else None

    def args(t):
        a = list(t[2:]) if t[0] == "op" else list(t[4]) + [v for _, v in t[5]]
        return [strip(x) for x in a]

    low = high = False
    work = [w]
    seen = 0
    while work and seen < 20:
        seen += 1
        t = strip(work.pop())
        n = fn(t)
        if n in ("min", "minimum", "fmin"):
            if any(a in hi for a in args(t)):
                high = True
            work += [a for a in args(t) if a not in hi]
        elif n in ("max", "maximum", "fmax"):
            if any(a in lo for a in args(t)):
                low = True
            work += [a for a in args(t) if a not in lo]
        elif n == "clip" and len(args(t)) >= 3:
            low |= args(t)[1] in lo
            high |= args(t)[2] in hi
        else:
            if t in lo or t in hi:
                return True
            for a, b in p.facts.items():
                if a[0] == "ge":
                    x, y = strip(a[1]), strip(a[2])
                    low |= b and x == t and y in lo
                    high |= b and x in hi and y == t
                    low |= (not b) and x in lo and y == t
                    high |= (not b) and x == t and y in hi
    return low and high


def hp_derive(ctx):
    """Sampling, mutating and crossing over create new objects and change neither parent."""
    n = 0
    for c in hp_classes(ctx):
        hps = hp_classes(ctx)
        op = frozenset(x.find_method(m).qual for x in hps for m in ("clone", "set_value", "sample_value", "value_to_normalized", "normalized_to_value") if x.find_method(m))
        for m in ("sample", "mutate", "crossover"):
            f = c.find_method(m)
            if f is None or f.is_abstract:
                continue
            where = f"{c.qual}.{m}"
            paths = ctx.paths(f, exact_self=c, exc=False, opaque=op)
            ok = returns(paths)
            if not ok:
                continue
            for p in ok:
                n += 1
                for base in (SELF, ("p", "parent"), ("p", "parent1"), ("p", "parent2")):
                    if stores(p, base) or any(tail(cc[2]).lstrip(".") in ("set_value", "set_default") and cc[3] == base for _, cc in calls(p)):
                        ctx.viol(where, f"changes {base[1]}", p)
                rs = [p.outcome[1]]
                r = fz(p, rs[0])
                if r[0] in ("tup", "list"):
                    rs = list(r[1])
                else:
                    rs = [r]
                for r in rs:
                    if r in (SELF, ("p", "parent"), ("p", "parent1"), ("p", "parent2")):
                        ctx.viol(where, f"returns {show(r)} itself", p)
            if m == "sample":
                for p in ok:
                    r = p.outcome[1]
                    sv = [cc for _, cc in calls(p) if tail(cc[2]).lstrip(".") == "set_value" and cc[3] == r]
                    vals = [cc for _, cc in calls(p) if tail(cc[2]).lstrip(".") == "sample_value" and cc[3] == SELF]
                    if not (r[0] == "call" and tail(r[2]).lstrip(".") == "clone" and r[3] == SELF):
                        continue
                    last = sv[-1] if sv else None
                    a = None if last is None else (last[4][0] if last[4] else dict(last[5]).get("value"))
                    if not vals or a != vals[-1]:
                        ctx.viol(where, "the new hyperparameter does not have the sampled value", p)
                    elif f.node.args.kwonlyargs and any(k.arg == "user_priors" for k in f.node.args.kwonlyargs):
                        up = dict(vals[-1][5]).get("user_priors")
                        if up != ("p", "user_priors") and not (up is not None and p.facts.get(("truthy", ("p", "user_priors"))) == (up == TRUE)):
                            ctx.viol(where, "whether to use the prior is not passed on", p)
            ctx.ob(f"{where}: new objects only")
    ctx.need(n, "no derived hyperparameters found")
    ctx.count("derivation_paths", n)
