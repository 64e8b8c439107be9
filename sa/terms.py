"""Abstract values (provenance terms) used by the dataflow engine.

A term says where a value comes from (a parameter, an attribute of another value, the
result of a particular call, a constant ...), never what it is at run time.
"""
from __future__ import annotations


def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)


def is_const(t):
    return t[0] == "c"


def cval(t):
    return t[2]


def is_none(t):
    return t[0] == "c" and t[2] is None


def attr(t, *names):
    for n in names:
        t = ("a", t, n)
    return t


def P(name):
    return ("p", name)


def sortkey(t):
    return repr(t)


def subterms(t):
    """All sub-terms (tuples) of a term, itself included."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x:
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))
        elif isinstance(x, frozenset):
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def size(t):
    n = 0
    for _ in subterms(t):
        n += 1
    return n


def rewrite(t, f, memo=None):
    """Bottom-up rewriting: f(term) -> replacement or None."""
    if not isinstance(t, tuple) or not t:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r0 = f(t)
    if r0 is not None:
        memo[t] = r0
        return r0
    r = tuple(rewrite(x, f, memo) if isinstance(x, tuple) else x for x in t)
    memo[t] = r
    return r


def show(t, depth=0):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 8:
        return "..."
    d = depth + 1
    k = t[0]
    try:
        if k == "c":
            return repr(t[2])
        if k == "enum":
            return f"{t[1].split('.')[-1]}.{t[2]}"
        if k == "p":
            return str(t[1])
        if k == "a":
            return f"{show(t[1], d)}.{t[2]}"
        if k == "call":
            a = [show(x, d) for x in t[4]] + [f"{n}={show(x, d)}" for n, x in t[5]]
            r = f"{show(t[3], d)}" + "." if t[3] is not None else ""
            nm = t[2].split(".")[-1] if t[3] is not None else t[2]
            return f"{r}{nm}({', '.join(a)})"
        if k == "op":
            if t[1].startswith("."):
                return f"{show(t[2], d)}{t[1]}({', '.join(show(x, d) for x in t[3:])})"
            return f"{t[1]}({', '.join(show(x, d) for x in t[2:])})"
        if k == "bin":
            return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
        if k == "cmp":
            return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
        if k == "not":
            return f"not {show(t[1], d)}"
        if k in ("tup", "list", "set"):
            return f"{k}({', '.join(show(x, d) for x in t[1])})"
        if k == "dict":
            return "{" + ", ".join(f"{show(a, d)}: {show(b, d)}" if a != "**" else f"**{show(b, d)}" for a, b in t[1]) + "}"
        if k == "o":
            return f"<new {str(t[2]).split('.')[-1]}>"
        if k == "new":
            return f"{t[1].split('.')[-1]}({', '.join(f'{n}={show(v, d)}' for n, v in t[2])})"
        if k == "k":
            return t[1].split(".")[-1]
        if k in ("x", "fn", "m"):
            return t[1]
        if k == "bm":
            return f"{show(t[1], d)}.{t[2].split('.')[-1]}"
        if k == "el":
            return f"each({show(t[1], d)})"
        if k == "it":
            return f"{show(t[1], d)}[{t[2]}]"
        if k == "sub":
            return f"{show(t[1], d)}[{show(t[2], d)}]"
        if k == "ent":
            return f"entered({show(t[1], d)})"
        if k == "g":
            alts = "; ".join(
                (" & ".join(lit(l) for l in ls) + " -> " if ls else "") + show(e, d) for ls, e in t[3]
            )
            return f"{t[1]}[over {show(t[2], d)}: {alts}]" + (f" ordered {t[4]}" if t[4] else "")
        if k == "fstr":
            return "f'" + "".join(x[2] if x[0] == "c" and isinstance(x[2], str) else "{" + show(x, d) + "}" for x in t[1]) + "'"
        if k == "exc":
            return f"exception {t[1]}"
        if k in ("isnone", "truthy"):
            return f"{k}({show(t[1], d)})"
        if k in ("eq", "ge", "in", "is", "isinst"):
            return f"{k}({show(t[1], d)}, {show(t[2], d) if isinstance(t[2], tuple) else t[2]})"
    except Exception:
        pass
    return repr(t)


def lit(l):
    a, b = l
    return ("" if b else "not ") + show(a)
