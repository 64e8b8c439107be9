"""Shared machinery of the rules: reporting, obligations, decision tables, path helpers."""
from __future__ import annotations

import ast
import json
import os
import time
import traceback

from .absint import Interp, freeze, short  # noqa: F401
from .program import AnalysisBroken, Func, Program
from .terms import *  # noqa: F403
from .terms import C, NONE, TRUE, FALSE, show, lit, subterms


class Ctx:
    """One run of one property's rules."""

    def __init__(self, prog: Program, prop: str, tier: str):
        self.prog = prog
        self.prop = prop
        self.tier = tier
        self.violations = []  # (rule, construct, message)
        self.obligations = []
        self.broken = []
        self.rule = None
        self.interps = []
        self.counts = {}
        self._cache = {}

    # ------------------------------------------------------------- reporting
    def viol(self, construct, msg, path=None):
        key = (self.rule, construct, msg)
        if not any(v[:3] == key for v in self.violations):
            self.violations.append(key + (describe(path) if path is not None else None,))

    def ob(self, what):
        self.obligations.append(f"{self.rule}: {what}")

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(f"{self.rule}: {what}")

    # -------------------------------------------------------------- analysis
    def interp(self, **kw):
        i = Interp(self.prog, **kw)
        self.interps.append(i)
        return i

    def paths(self, qual, *, args=None, self_term=None, exact_self=None, **kw):
        key = (qual if isinstance(qual, str) else qual.qual, repr(args), repr(self_term), repr(exact_self), repr(sorted(kw.items(), key=lambda x: x[0])))
        if key in self._cache:
            return self._cache[key]
        f = self.prog.func(qual) if isinstance(qual, str) else qual
        i = self.interp(**kw)
        r = i.run(f, args=args, self_term=self_term, exact_self=exact_self)
        for x in r:
            x.interp = i
        self._cache[key] = r
        return r

    def func(self, q):
        return self.prog.func(q)

    def client(self, f, source):
        """A caller of the function, to be analysed with it: ``source`` is a function of f's module."""
        node = ast.parse(source).body[0]
        return Func(f"{f.module.name}.<client>.{node.name}", node.name, node, f.module)

    def cls(self, q):
        return self.prog.cls(q)

    def stats(self):
        f, c, p, l = set(), set(), 0, set()
        for i in self.interps:
            f |= i.stats["functions"]
            c |= i.stats["calls"]
            l |= i.stats["loops"]
            p += i.stats["paths"]
        return {"functions_analysed": len(f), "call_sites": len(c), "loops": len(l), "abstract_paths": p}


def describe(p):
    out = []
    if p is None:
        return out
    for a, v in p.facts.items():
        out.append("when " + lit((a, v))[:300])
    if isinstance(p.events, tuple):
        for e in p.events:
            out.append("then " + str(e[0]) + " " + " ".join(show(y)[:200] if isinstance(y, tuple) else str(y) for y in e[1:]))
    out.append("ends " + " ".join(show(y)[:300] if isinstance(y, tuple) else str(y) for y in p.outcome))
    return out[:60]


# ------------------------------------------------------------------ path helpers
def calls(p, target=None, pred=None):
    """Completed calls on a path, in order: [(index, term)]."""
    out = []
    for i, e in enumerate(p.events):
        if e[0] == "call" and tmatch(e[1][2], target) and (pred is None or pred(e[1])):
            out.append((i, e[1]))
    return out


def tmatch(t, target):
    if target is None:
        return True
    if isinstance(target, str):
        return t == target
    return t in target


def callexcs(p, target=None):
    return [(i, e[1]) for i, e in enumerate(p.events) if e[0] == "callexc" and tmatch(e[1][2], target)]


def kwarg(call, name, default=None):
    return dict(call[5]).get(name, default)


def arg(call, i, name=None):
    """Positional i or keyword name."""
    d = dict(call[5])
    if name is not None and name in d:
        return d[name]
    if i is not None and len(call[4]) > i:
        return call[4][i]
    return None


def fz(p, t):
    return freeze(p.state, t)


def returns(paths):
    return [p for p in paths if p.outcome[0] == "return"]


def raises_(paths):
    return [p for p in paths if p.outcome[0] == "raise"]


# --------------------------------------------------------------- decision tables
class _Need(Exception):
    def __init__(self, atom, vals):
        self.atom = atom
        self.vals = vals


class Q:
    def __init__(self, known):
        self.known = known
        self.asked = {}

    def __call__(self, name, vals=(True, False)):
        if name in self.known:
            v = self.known[name]
            if isinstance(v, frozenset):
                vs = [x for x in vals if x in v]
                if len(vs) == 1:
                    return vs[0]
                raise _Need(name, tuple(vs))
            return v
        raise _Need(name, tuple(vals))


def completions(known, spec, limit=4000):
    """All (assignment, spec value) pairs over completions of ``known`` that the spec asks."""
    out = []
    work = [dict(known)]
    while work:
        k = work.pop()
        try:
            out.append((k, spec(Q(k))))
        except _Need as n:
            for v in n.vals:
                work.append({**k, n.atom: v})
        if len(out) > limit:
            raise AnalysisBroken("decision table too large")
    return out


def table(ctx, construct, paths, classify, known_of, spec, what):
    """Every path's outcome must be allowed by ``spec`` under every completion of what the
    path knows.  known_of(path) -> dict atom->value or None (path infeasible)."""
    n = 0
    cells = set()
    for p in paths:
        out = classify(p)
        if out is None:
            continue
        known = known_of(p)
        if known is None:
            continue
        for k, allowed in completions(known, spec):
            n += 1
            cells.add(tuple(sorted((str(a), str(v)) for a, v in k.items())))
            if allowed is None:
                continue
            if out not in allowed:
                cond = ", ".join(f"{a}={v}" for a, v in sorted(k.items(), key=str))
                ctx.viol(construct, f"{what}: '{out}' where {sorted(map(str, allowed))} is required (when {cond})", p)
                break
    ctx.count("decision_table_cells", len(cells))
    ctx.ob(f"{construct}: {what} ({len(paths)} paths, {len(cells)} cells)")
    return n


def lits_known(p, matchers):
    """Translate path facts to named atoms.  matchers: list of f(atom) -> (name, polarity) | None"""
    known = {}
    for a, v in p.facts.items():
        for m in matchers:
            r = m(a)
            if r is not None:
                name, pol = r
                if isinstance(pol, bool):
                    val = v if pol else not v
                    if name in known and known[name] != val:
                        return None
                    known[name] = val
                else:  # enum membership: pol = (value, universe)
                    value, universe = pol
                    cur = known.get(name, frozenset(universe))
                    cur = cur & {value} if v else cur - {value}
                    if not cur:
                        return None
                    known[name] = frozenset(cur)
                break
    return known


def m_isnone(t, name, pol=True):
    return lambda a: (name, pol) if a == ("isnone", t) else None


def m_truthy(t, name):
    def f(a):
        if a == ("truthy", t):
            return (name, True)
        if a == ("is", t, TRUE) or a == ("eq", t, TRUE) or a == ("eq", TRUE, t):
            return (name, True)
        if a == ("is", t, FALSE) or a == ("eq", t, FALSE) or a == ("eq", FALSE, t):
            return (name, False)
        return None

    return f


def m_enum(t, name, universe):
    def f(a):
        if a[0] == "eq" and (a[1] == t or a[2] == t):
            o = a[2] if a[1] == t else a[1]
            if o[0] == "enum" and o[2] in universe:
                return (name, (o[2], universe))
        return None

    return f


def gather_alts(g):
    return g[3]


def gather_table(g, matchers, atoms, value, expected):
    """Do the alternatives of a gather contribute ``expected(assignment)`` for every
    assignment?  atoms: {name: values}; value(expr) -> comparable; returns list of
    mismatching assignments (None if an unknown condition occurs)."""
    import itertools

    names = list(atoms)
    alts = []
    for ls, e in g[3]:
        known = {}
        ok = True
        for a, v in ls:
            for m in matchers:
                r = m(a)
                if r is not None:
                    name, pol = r
                    if isinstance(pol, bool):
                        known.setdefault(name, []).append(("b", v if pol else not v))
                    else:
                        known.setdefault(name, []).append(("e", pol[0], v))
                    break
            else:
                ok = False
        if not ok:
            return None
        alts.append((known, value(e)))
    bad = []
    for combo in itertools.product(*(atoms[n] for n in names)):
        asg = dict(zip(names, combo))
        got = []
        for known, val in alts:
            m = True
            for n, cs in known.items():
                for c in cs:
                    if c[0] == "b":
                        m &= asg[n] == c[1]
                    else:
                        m &= (asg[n] == c[1]) == c[2]
            if m:
                got.append(val)
        exp = expected(asg)
        if exp is ANY:
            continue
        if sorted(map(repr, got)) != sorted(map(repr, exp)):
            bad.append((asg, got, exp))
    return bad


ANY = object()


# ------------------------------------------------------------------------ runner
def run_property(prop, rules, explanation, tier, prog=None, assumptions=()):
    """-> (Ctx, exit code)"""
    t0 = time.time()
    prog = prog or Program()
    ctx = Ctx(prog, prop, tier)
    for r in rules:
        ctx.rule = r.__name__.replace("_", "-")
        try:
            r(ctx)
        except AnalysisBroken as e:
            ctx.broken.append((ctx.rule, str(e)))
        except RecursionError as e:
            ctx.broken.append((ctx.rule, f"recursion limit: {e}"))
        except Exception:
            ctx.broken.append((ctx.rule, traceback.format_exc()))
    ctx.wall = time.time() - t0
    return ctx


def read_jsonl(p):
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out
