"""Equality of arithmetic expressions up to the laws of a field.

An expression is brought to a quotient of polynomials over atoms (symbols and the values of
functions whose arguments are themselves normalised); two expressions are equal if the quotients
are. Conversions between number and tensor types count as the identity.
"""
from __future__ import annotations

from fractions import Fraction

from sa.terms import show

CASTS = {"type", "to", "tensor", "as_tensor", "double", "float", "clone", "detach", "item", "asarray", "float64"}
FUNCS = {"log", "exp", "floor", "round", "clip", "clamp", "clip_", "clamp_", "floor_", "round_", "ceil", "sqrt", "abs", "minimum", "maximum", "min", "max", "int", "len"}


def one():
    return {(): Fraction(1)}


def add(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + k * c
    return {m: c for m, c in out.items() if c}


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            key = tuple(sorted(((x, k) for x, k in e.items() if k), key=repr))
            out[key] = out.get(key, 0) + c * d
    return {m: c for m, c in out.items() if c}


def exact(n, d):
    """n / d if that is a polynomial."""
    names = sorted({x for p in (n, d) for m in p for x, _ in m}, key=repr)

    def order(m):
        e = dict(m)
        return tuple(e.get(x, 0) for x in names)

    ld = max(d, key=order)
    out, rest = {}, dict(n)
    for _ in range(60):
        if not rest:
            return out
        lm = max(rest, key=order)
        e = [a - b for a, b in zip(order(lm), order(ld))]
        if min(e, default=0) < 0:
            return None
        t = {tuple(sorted(((x, k) for x, k in zip(names, e) if k), key=repr)): rest[lm] / d[ld]}
        out = add(out, t)
        rest = add(rest, mul(t, d), -1)
    return None


class Norm:
    """Normaliser; ``atom`` may map a term to a symbol (or None)."""

    def __init__(self, atom=None, strip=None):
        self.atom = atom or (lambda t: None)
        self.unknown = set()

    def symbol(self, x):
        return ({((x, 1),): Fraction(1)}, one())

    def quotient(self, t):
        """-> (numerator, denominator)"""
        a = self.atom(t)
        if a is not None:
            return self.symbol(a)
        if t[0] == "c" and t[1] in ("int", "float", "bool"):
            return ({(): Fraction(t[2])} if t[2] else {}, one())
        if t[0] == "bin":
            op = t[1]
            if op in ("+", "-", "*", "/"):
                (an, ad), (bn, bd) = self.quotient(t[2]), self.quotient(t[3])
                if op in ("+", "-"):
                    return add(mul(an, bd), mul(bn, ad), 1 if op == "+" else -1), mul(ad, bd)
                if op == "*":
                    return mul(an, bn), mul(ad, bd)
                return mul(an, bd), mul(ad, bn)
            if op == "**" and t[3][0] == "c" and t[3][1] == "int" and 0 <= t[3][2] <= 8:
                n, d = one(), one()
                q = self.quotient(t[2])
                for _ in range(t[3][2]):
                    n, d = mul(n, q[0]), mul(d, q[1])
                return n, d
        if t[0] == "op" and t[1] in ("neg", "-"):
            n, d = self.quotient(t[2])
            return add({}, n, -1), d
        f = self.function(t)
        if f is not None:
            name, args = f
            if name in CASTS:
                return self.quotient(args[0])
            name = {"clip": "clamp", "clip_": "clamp", "clamp_": "clamp", "floor_": "floor", "round_": "round"}.get(name, name)
            if name in FUNCS:
                if name == "clamp" and len(args) == 2:
                    args = args + [None]
                vs = tuple(None if x is None else self.canon(x) for x in args)
                if name in ("log", "exp"):
                    inv = {"log": "exp", "exp": "log"}[name]
                    k = self.single(vs[0])
                    if k is not None and k[0] == "f" and k[1] == inv:
                        return dict(k[2][0][0]), dict(k[2][0][1])
                return self.symbol(("f", name, vs))
            self.unknown.add(name)
            return self.symbol(("f", name, tuple(self.canon(x) for x in args if isinstance(x, tuple))))
        if t[0] not in ("p", "a", "it", "sub"):
            self.unknown.add(t[0])
        return self.symbol(("s", show(t)))

    @staticmethod
    def single(q):
        """The atom a canonical quotient consists of, if it does."""
        n, d = q
        if d == ((( ), Fraction(1)),) and len(n) == 1 and n[0][1] == 1 and len(n[0][0]) == 1 and n[0][0][0][1] == 1:
            return n[0][0][0][0]
        return None

    @staticmethod
    def function(t):
        if t[0] == "call":
            name = t[2].split(".")[-1]
            kw = dict(t[5]) if t[5] else {}
            args = ([t[3]] if t[3] is not None and t[2].startswith(".") else []) + list(t[4])
            for k in ("x", "input", "min", "max"):
                if k in kw:
                    args.append(kw[k])
            return (name, args) if args else None
        if t[0] == "op" and len(t) > 2:
            return t[1].split(".")[-1], [x for x in t[2:] if isinstance(x, tuple) and x[0] != "kw"]
        return None

    def canon(self, t):
        n, d = self.quotient(t)
        return self.reduce(n, d)

    @staticmethod
    def reduce(n, d):
        """Divide by the leading coefficient of the denominator and by common atoms."""
        if not n:
            return ((), (((), Fraction(1)),))
        common = None
        for p in (n, d):
            for m in p:
                e = dict(m)
                common = e if common is None else {x: min(k, e[x]) for x, k in common.items() if x in e}
        if common:
            inv = {tuple(sorted(((x, -k) for x, k in common.items()), key=repr)): Fraction(1)}
            n, d = mul(n, inv), mul(d, inv)
        if set(n) == set(d):
            m0 = next(iter(d))
            r = n[m0] / d[m0]
            if all(n[m] == r * d[m] for m in d):
                n, d = {(): r}, one()
        q = exact(n, d) if len(d) > 1 else None
        if q is not None:
            n, d = q, one()
        lead = d[min(d, key=repr)]
        return (
            tuple(sorted(((m, c / lead) for m, c in n.items()), key=repr)),
            tuple(sorted(((m, c / lead) for m, c in d.items()), key=repr)),
        )

    def equal(self, a, b):
        (an, ad), (bn, bd) = self.quotient(a), self.quotient(b)
        if mul(an, bd) == mul(bn, ad):
            return True
        return self.reduce(an, ad) == self.reduce(bn, bd)
