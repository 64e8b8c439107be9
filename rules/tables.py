"""Values of tensor expressions at concrete tables: what is handed to a model, row by row."""
from __future__ import annotations

import math

from sa.terms import C, show


class Unfollowed(Exception):
    pass


class Table:
    """A small matrix (list of rows) or vector."""

    def __init__(self, rows):
        self.rows = rows

    @property
    def matrix(self):
        return bool(self.rows) and isinstance(self.rows[0], (list, tuple))


def isnan(x):
    return x != x


def frozen(t, env):
    return env["#fz"](env["#p"], t) if "#fz" in env else t


def ev(t, env):
    """Value of a tensor expression at concrete tables, as far as it is understood."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "o" and "#fz" in env:
        f = frozen(t, env)
        if f != t:
            return ev(f, env)
    if k == "c":
        return t[2]
    if k == "x" and t[1].split(".")[-1] in ("nan", "inf"):
        return float(t[1].split(".")[-1])
    if k == "tup":
        return tuple(ev(x, env) for x in t[1])
    if k == "list":
        return Table([ev(x, env) for x in t[1]])
    if k == "op" and t[1] == "sl":
        return slice(*(ev(x, env) for x in t[2:5]))
    if k in ("call", "op"):
        name = (t[2] if k == "call" else t[1]).split(".")[-1]
        if k == "call":
            ar = ([t[3]] if t[2].startswith(".") and t[3] is not None else []) + list(t[4])
            kw = dict(t[5])
            recv = t[3]
        else:
            ar = [x for x in t[2:] if x[0] != "kw"]
            kw = {x[1]: x[2] for x in t[2:] if x[0] == "kw"}
            recv = ar[0] if t[1].startswith(".") and ar else None
        rest = list(t[4]) if k == "call" else ar[1:]
        if name == "cast" and recv is not None:
            x = kw.get("x") or (rest[0] if rest else None)
            frm = kw.get("frm") or (rest[1] if len(rest) > 1 else None)
            if x is None or frm is None or ("cast", recv, frm) not in env:
                raise Unfollowed(show(t)[:200])
            return lift(env[("cast", recv, frm)], ev(x, env))
        if name in ("encode", "decode") and recv is not None and (name, recv) in env:
            x = kw.get("x") or kw.get("configs") or (rest[0] if rest else None)
            if x is None:
                raise Unfollowed(show(t)[:200])
            return env[(name, recv)](frozen(x, env))
        a = [ev(x, env) for x in ar]
        if name == "isnan":
            return lift(isnan, a[0])
        if name in ("Invert", "logical_not", "Not"):
            return lift(lambda x: not x, a[0])
        if name in ("logical_or", "bitwise_or"):
            return lift(lambda x, y: x or y, a[0], a[1])
        if name in ("logical_and", "bitwise_and"):
            return lift(lambda x, y: x and y, a[0], a[1])
        if name in ("ge", "gt", "le", "lt", "eq", "ne") and len(a) == 2:
            return lift({"ge": lambda x, y: x >= y, "gt": lambda x, y: x > y, "le": lambda x, y: x <= y, "lt": lambda x, y: x < y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y}[name], a[0], a[1])
        if name == "isin":
            have = set(flat(a[1]))
            inv = "invert" in kw and ev(kw["invert"], env)
            return lift(lambda x: (x in have) != bool(inv), a[0])
        if name in ("unique", "clone", "detach", "contiguous", "to", "type", "long", "int", "round", "double", "cpu"):
            return a[0]
        if name in ("tensor", "as_tensor", "asarray", "array"):
            return a[0] if isinstance(a[0], Table) else Table(list(a[0])) if isinstance(a[0], (list, tuple)) else a[0]
        if name == "isfinite":
            return lift(math.isfinite, a[0])
        if name == "isinf":
            return lift(math.isinf, a[0])
        if name in ("any", "all") and not a[1:]:
            return {"any": any, "all": all}[name](bool(x) for x in flat(a[0]))
        if name in ("nanmedian", "median", "nanmean", "mean", "max", "min", "amax", "amin", "nansum", "sum", "nanquantile") and len(a) == 1 and not kw:
            return number_of(name, [x for x in flat(a[0])])
        if name in ("item", "tolist", "numpy", "cpu"):
            return a[0]
        if name == "float":
            return a[0] if isinstance(a[0], Table) else float(a[0])
        if name == "len":
            return len(a[0].rows)
        if name in ("numel", "nelement"):
            return len(list(flat(a[0])))
        if name == "nan_to_num":
            f = {q: ev(v, env) for q, v in kw.items()}
            if len(a) > 1:
                f["nan"] = a[1]
            f = {q: v for q, v in f.items() if v is not None}
            big = 1.7e308

            def clean(x):
                if isnan(x):
                    return f.get("nan", 0.0)
                if math.isinf(x):
                    return f.get("posinf", big) if x > 0 else f.get("neginf", -big)
                return x

            return lift(clean, a[0])
        if name == "where" and len(a) == 3:
            return lift(lambda m, x, y: x if m else y, a[0], a[1], a[2])
        if name == "masked_fill" and len(a) == 3:
            return lift(lambda x, m: a[2] if m else x, a[0], a[1])
        if name == "unsqueeze" and isinstance(a[0], Table) and not a[0].matrix and (a[1:] or [ev(kw["dim"], env) if "dim" in kw else None])[0] in (1, -1):
            return Table([[x] for x in a[0].rows])
        if name in ("squeeze", "flatten") and isinstance(a[0], Table):
            return Table([x[0] if isinstance(x, (list, tuple)) and len(x) == 1 else x for x in a[0].rows])
        if name in ("cat", "concat", "concatenate", "hstack", "column_stack") and isinstance(a[0], (Table, tuple)):
            ts = a[0].rows if isinstance(a[0], Table) else list(a[0])
            dim = ev(kw["dim"], env) if "dim" in kw else a[1] if len(a) > 1 else (1 if name in ("hstack", "column_stack") else 0)
            if dim in (1, -1) and ts[0].matrix:
                if len({len(x.rows) for x in ts}) != 1:
                    raise Unfollowed("columns of different lengths")
                return Table([[y for x in ts for y in x.rows[j]] for j in range(len(ts[0].rows))])
            return Table([r for x in ts for r in x.rows])
        if name == "stack" and isinstance(a[0], (Table, tuple)):
            ts = a[0].rows if isinstance(a[0], Table) else list(a[0])
            dim = ev(kw["dim"], env) if "dim" in kw else a[1] if len(a) > 1 else 0
            if all(isinstance(x, Table) and not x.matrix for x in ts):
                if dim in (1, -1):
                    return Table([[x.rows[j] for x in ts] for j in range(len(ts[0].rows))])
                return Table([list(x.rows) for x in ts])
        if name == "nonzero":
            return Table([i for i, x in enumerate(a[0].rows) if x])
        raise Unfollowed(show(t)[:200])
    if k == "un" and t[1] in ("~", "not", "Invert"):
        return lift(lambda x: not x, ev(t[2], env))
    if k == "not":
        return lift(lambda x: not x, ev(t[1], env))
    if k == "bin" and t[1] in ("|", "&", "+", "-", "*", "/"):
        f = {"|": lambda x, y: x or y, "&": lambda x, y: x and y, "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}[t[1]]
        return lift(f, ev(t[2], env), ev(t[3], env))
    if k == "cmp" and t[1] in (">=", ">", "<=", "<", "==", "!="):
        f = {">=": lambda x, y: x >= y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, "<": lambda x, y: x < y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[t[1]]
        return lift(f, ev(t[2], env), ev(t[3], env))
    if k == "it":
        return ev(("sub", t[1], C(t[2])), env)
    if k == "sub":
        b, i = ev(t[1], env), ev(t[2], env)
        if not isinstance(b, Table):
            raise Unfollowed(show(t)[:200])
        if isinstance(i, Table):
            if i.rows and isinstance(i.rows[0], bool):
                return Table([r for r, m in zip(b.rows, i.rows) if m])
            if not i.rows:
                return Table([])
            return Table([b.rows[j] for j in i.rows])
        if isinstance(i, tuple) and len(i) == 2:
            rows, col = i
            if rows is Ellipsis:
                rows = slice(None)
            if isinstance(rows, Table):
                r = Table([r for r, m in zip(b.rows, rows.rows) if m])
            elif isinstance(rows, slice):
                r = Table(b.rows[rows])
            else:
                raise Unfollowed(show(t)[:200])
            if isinstance(col, (int, slice)):
                return Table([x[col] for x in r.rows])
        if isinstance(i, slice):
            return Table(b.rows[i])
        if isinstance(i, int):
            return b.rows[i]
    raise Unfollowed(show(t)[:200])


def number_of(name, xs):
    """A summary of numbers, as torch computes it."""
    if name.startswith("nan"):
        xs = [x for x in xs if not isnan(x)]
        name = name[3:]
    name = {"amax": "max", "amin": "min"}.get(name, name)
    if name == "sum":
        return sum(xs)
    if not xs or any(isnan(x) for x in xs):
        return NAN
    if name == "mean":
        return sum(xs) / len(xs)
    if name == "median":
        return sorted(xs)[(len(xs) - 1) // 2]
    if name in ("max", "min"):
        return {"max": max, "min": min}[name](xs)
    raise Unfollowed(name)


def flat(x):
    for r in x.rows if isinstance(x, Table) else [x]:
        if isinstance(r, (list, tuple)):
            yield from r
        else:
            yield r


def lift(f, *a):
    """Element by element."""
    n = [len(x.rows) for x in a if isinstance(x, Table)]
    if not n:
        return f(*a)
    if len(set(n)) != 1:
        raise Unfollowed("tables of different sizes")

    def one(*xs):
        if any(isinstance(x, (list, tuple)) for x in xs):
            m = max(len(x) for x in xs if isinstance(x, (list, tuple)))
            return [f(*(x[j] if isinstance(x, (list, tuple)) else x for x in xs)) for j in range(m)]
        return f(*xs)

    return Table([one(*(x.rows[i] if isinstance(x, Table) else x for x in a)) for i in range(n[0])])


NAN = float("nan")




def final(p, t, env, fz):
    """The value after the path's assignments to parts of it."""
    env.update({"#fz": fz, "#p": p})
    v = ev(fz(p, t), env)
    for e in p.events:
        if e[0] == "setitem" and fz(p, e[1]) == fz(p, t):
            m, x = ev(fz(p, e[2]), env), ev(fz(p, e[3]), env)
            if not (isinstance(m, Table) and m.rows and isinstance(m.rows[0], bool) and isinstance(v, Table)):
                raise Unfollowed(f"an assignment to {show(t)[:100]}")
            if isinstance(x, Table):
                it = iter(x.rows)
                v = Table([next(it) if q else r for r, q in zip(v.rows, m.rows)])
            else:
                v = Table([x if q else r for r, q in zip(v.rows, m.rows)])
        elif e[0] == "call" and e[1][2].startswith(".") and e[1][2].endswith("_") and not e[1][2].endswith("__") and e[1][3] is not None and fz(p, e[1][3]) == fz(p, t):
            raise Unfollowed(f"{e[1][2]} changes {show(t)[:100]} in place")
    return v
