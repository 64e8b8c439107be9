"""The value of an elementwise arithmetic expression, as far as it is understood, where its symbols have given numbers."""
from __future__ import annotations

import math

from rules.store import tail
from rules.tables import Unfollowed
from sa.terms import NONE, show

SHAPE = {
    "squeeze", "unsqueeze", "view", "reshape", "to", "type", "double", "float", "clone", "detach", "contiguous", "flatten",
    "expand", "expand_as", "view_as", "item", "tensor", "as_tensor", "asarray", "type_as", "cpu", "float64", "squeeze_", "unsqueeze_",
}
SUMS = {"sum", "mean", "prod", "amax", "amin", "max", "min"}
ONE = {
    "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "abs": abs, "neg": lambda x: -x, "USub": lambda x: -x, "UAdd": lambda x: x,
    "negative": lambda x: -x, "reciprocal": lambda x: 1 / x, "sign": lambda x: float((x > 0) - (x < 0)), "log1p": math.log1p, "expm1": math.expm1,
    "square": lambda x: x * x, "exp2": lambda x: 2.0**x, "log2": math.log2, "log10": math.log10, "floor": math.floor, "ceil": math.ceil, "int": int,
    "logical_not": lambda x: not x, "Invert": lambda x: not x, "rsqrt": lambda x: x**-0.5, "isfinite": math.isfinite, "isnan": math.isnan,
    "bool": bool, "Not": lambda x: not x, "long": int,
}
TWO = {
    "pow": lambda x, y: x**y, "float_power": lambda x, y: x**y, "mul": lambda x, y: x * y, "multiply": lambda x, y: x * y, "add": lambda x, y: x + y,
    "sub": lambda x, y: x - y, "subtract": lambda x, y: x - y, "div": lambda x, y: x / y, "divide": lambda x, y: x / y, "true_divide": lambda x, y: x / y,
    "truediv": lambda x, y: x / y, "max": max, "min": min, "maximum": max, "minimum": min, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
    "lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "greater": lambda x, y: x > y, "less": lambda x, y: x < y,
    "logaddexp": lambda x, y: math.log(math.exp(x) + math.exp(y)), "xlogy": lambda x, y: x * math.log(y), "logical_and": lambda x, y: x and y, "logical_or": lambda x, y: x or y,
}
BIN = {
    "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "**": lambda x, y: x**y, "//": lambda x, y: x // y, "%": lambda x, y: x % y,
    "&": lambda x, y: x and y, "|": lambda x, y: x or y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y,
}


def parts(t):
    """name, arguments (a receiver first), keywords of an operation; what it is called on otherwise"""
    if t[0] == "call":
        recv = [t[3]] if t[3] is not None and (t[2].startswith(".") or "." not in t[2]) else []
        return tail(t[2]), recv + list(t[4]), dict(t[5])
    return t[1].split(".")[-1], [x for x in t[2:] if isinstance(x, tuple) and x[0] != "kw"], {x[1]: x[2] for x in t[2:] if isinstance(x, tuple) and x[0] == "kw"}


def value(t, leaf):
    """The number an elementwise expression stands for where ``leaf`` gives that of its symbols."""
    v = leaf(t)
    if v is not None:
        return v
    k = t[0]
    if k == "c":
        return t[2]
    if k == "x" and t[1].split(".")[-1] in ("pi", "e", "inf", "nan"):
        return {"pi": math.pi, "e": math.e, "inf": math.inf, "nan": math.nan}[t[1].split(".")[-1]]
    if k == "not":
        return not value(t[1], leaf)
    if k in ("bin", "cmp") and t[1] in BIN:
        return BIN[t[1]](value(t[2], leaf), value(t[3], leaf))
    if k in ("call", "op"):
        name, ar, kw = parts(t)
        for n in ("input", "other", "exponent", "min", "max", "x"):
            if n in kw and not (name in SUMS and n == "x"):
                ar = ar + [kw[n]]
        if name in ("sum", "fsum", "prod") and ar:
            x = ar[0]
            while x[0] in ("call", "op") and parts(x)[0] in SHAPE | {"stack", "list", "tuple"} and parts(x)[1]:
                x = parts(x)[1][0]
            if x[0] in ("list", "tup"):
                return (math.prod if name == "prod" else sum)(value(y, leaf) for y in x[1])
        if name in SHAPE and ar:
            return value(ar[0], leaf)
        if name == "where" and len(ar) == 3:
            a, b, c = ar
            if k == "call" and t[2].startswith("."):
                a, b = b, a
            return value(b, leaf) if value(a, leaf) else value(c, leaf)
        if name == "if" and len(ar) == 3:
            return value(ar[1], leaf) if value(ar[0], leaf) else value(ar[2], leaf)
        if name in ("clamp", "clip"):
            x = value(ar[0], leaf)
            lo, hi = (kw.get("min") or (ar[1] if len(ar) > 1 and "max" not in kw else None)), (kw.get("max") or (ar[2] if len(ar) > 2 else None))
            x = x if lo is None or lo == NONE else max(x, value(lo, leaf))
            return x if hi is None or hi == NONE else min(x, value(hi, leaf))
        if name in ONE and len(ar) == 1 and not (name in SUMS):
            return ONE[name](value(ar[0], leaf))
        if name in TWO and len(ar) == 2 and "dim" not in kw:
            return TWO[name](value(ar[0], leaf), value(ar[1], leaf))
    raise Unfollowed(show(t)[:200])


def close(a, b):
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
