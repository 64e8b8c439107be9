"""Rules about where proposals take their randomness from."""
from __future__ import annotations

import ast

from sa.core import *  # noqa: F403
from sa.core import AnalysisBroken
from sa.program import walk_own
from sa.terms import *  # noqa: F403

from .store import tail

SCOPE = ("neps.optimizers", "neps.search_spaces", "neps.sampling")
GENERATORS = {
    "random.Random", "numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.MT19937",
    "numpy.random.Philox", "numpy.random.SFC64", "numpy.random.SeedSequence",
}
FIXED = {"torch.Generator"}  # starts from a fixed state
RESEED = {
    "random.seed", "random.setstate", "numpy.random.seed", "numpy.random.set_state", "torch.manual_seed", "torch.seed", "torch.set_rng_state", "torch.random.manual_seed",
    "torch.random.seed", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "torch.cuda.set_rng_state", "torch.cuda.seed", "torch.cuda.seed_all", "torch.random.set_rng_state",
    "pytorch_lightning.seed_everything", "lightning.seed_everything", "torch.random.fork_rng",
}
ENTROPY = ("secrets.", "os.urandom", "os.getrandom", "random.SystemRandom", "uuid.uuid1", "uuid.uuid4")
VOLATILE = ("time.", "datetime.", "os.getpid", "os.getppid", "socket.", "threading.get_ident", "multiprocessing.current_process", "uuid.", "os.times", "builtins.id", "builtins.hash", "secrets.", "os.urandom", "platform.")
DRAW_METHODS = {"sample", "sample_value", "mutate", "crossover", "sample_batch", "sample_new_config", "randint", "shuffle", "choice", "choices", "permutation"}


def owner(prog, m):
    """[(Func or None, statements)] of a module: every function's own body, and the top level."""
    fs = [f for f in prog.funcs.values() if f.module is m]
    return fs


def imports(node):
    """Names bound by imports inside a function."""
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(prog, m, loc, e):
    """The library function an expression names, or None."""
    parts = []
    x = e
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if isinstance(x, ast.Name) and x.id in loc:
        return ".".join([loc[x.id], *reversed(parts)])
    r = prog.resolve_expr(m, e)
    return r[1] if r is not None and r[0] == "ext" else None


def in_scope(m):
    return any(m.name == s or m.name.startswith(s + ".") for s in SCOPE)


def assigned(fn, name):
    """Expressions assigned to a local name."""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    out.append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
            out.append(n.value)
    return out


def closure(fn, e, depth=4):
    """The sub-expressions an expression is computed from, through local names."""
    out, seen = [], set()
    work = [(e, 0)]
    while work:
        x, d = work.pop()
        for n in ast.walk(x):
            out.append(n)
            if isinstance(n, ast.Name) and fn is not None and d < depth and n.id not in seen:
                seen.add(n.id)
                work += [(v, d + 1) for v in assigned(fn, n.id)]
    return out


def all_calls(prog):
    """(module, enclosing function or None, call, dotted name or None) of every call in scope."""
    for m in prog.modules.values():
        if not in_scope(m):
            continue
        fs = {id(f.node): f for f in prog.funcs.values() if f.module is m}
        stack = [(m.tree, None, {})]
        while stack:
            n, f, loc = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = fs.get(id(n), f)
                loc = {**loc, **imports(n)}
            if isinstance(n, ast.Call):
                yield m, f, n, dotted(prog, m, loc, n.func)
            for c in ast.iter_child_nodes(n):
                stack.append((c, f, loc))


def parents(tree):
    return {id(c): n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}


def sources(ctx):
    """Proposals draw from the global generators or one with a fixed seed, made where it is used; they never reseed."""
    n = g = 0
    for m, f, call, name in all_calls(ctx.prog):
        where = f.qual if f is not None else m.name
        if name is None:
            continue
        if name.startswith(ENTROPY):
            ctx.viol(where, f"takes randomness from {name} at line {call.lineno}, which is not part of the recorded state")
        if name in RESEED:
            ctx.viol(where, f"changes the shared generators' state through {name} at line {call.lineno}")
        if name.startswith(("random.", "numpy.random.", "torch.rand", "torch.multinomial", "torch.quasirandom", "torch.normal", "torch.bernoulli")):
            n += 1
        if name in GENERATORS or name in FIXED:
            g += 1
            generator(ctx, m, f, call, name, where)
    ctx.need(n, "no random draws found")
    ctx.ob(f"{n} draws and {g} generators in {', '.join(SCOPE)}")


def generator(ctx, m, f, call, name, where):
    ps = parents(m.tree)
    x, keep = call, None
    while id(x) in ps:
        up = ps[id(x)]
        if isinstance(up, (ast.Assign, ast.AnnAssign)):
            ts = up.targets if isinstance(up, ast.Assign) else [up.target]
            if up.value is x and any(isinstance(t, ast.Attribute) for t in ts):
                keep = "an attribute"
            elif f is None:
                keep = "a variable of the module"
            break
        if isinstance(up, ast.arguments):
            keep = "a default argument"
            break
        if isinstance(up, (ast.FunctionDef, ast.Lambda, ast.Call)) or isinstance(up, ast.stmt):
            break
        x = up
    if f is None and keep is None:
        keep = "a variable of the module"
    if f is not None and keep is None:
        v = ps.get(id(call))
        if isinstance(v, ast.Assign) and len(v.targets) == 1 and isinstance(v.targets[0], ast.Name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == v.targets[0].id and any(isinstance(t, ast.Attribute) for t in n.targets):
                    keep = "an attribute"
    if keep:
        ctx.viol(where, f"keeps a generator of its own in {keep} (line {call.lineno}): its state is not recorded")
        return
    if name in FIXED:
        return
    args = list(call.args) + [k.value for k in call.keywords if k.arg in ("seed", "x", "entropy", "bit_generator")]
    if not args or isinstance(args[0], ast.Constant) and args[0].value is None:
        ctx.viol(where, f"uses a generator without a seed at line {call.lineno}")
        return
    loc = imports(f.node) if f is not None else {}
    for y in closure(f.node if f else None, args[0]):
        if isinstance(y, ast.Call):
            d = dotted(ctx.prog, m, loc, y.func)
            if d is not None and d.startswith(VOLATILE):
                ctx.viol(where, f"seeds a generator from {d} at line {call.lineno}")
    if f is not None and name not in ("numpy.random.Generator",):
        not_none(ctx, f, call, name, where)


def not_none(ctx, f, call, name, where):
    """The seed is a number on every path."""
    from rules.proposals import outside

    others = outside(ctx, f)
    site = f"{f.module.relpath}:{call.lineno}:"
    for p in ctx.paths(f.qual, exc=False, opaque=others, exact_self=f.cls):
        for e in p.events:
            for y in e[1:-1]:
                for t in subterms(fz(p, y)) if isinstance(y, tuple) else ():
                    a = None
                    if t[0] == "call" and len(t) == 6 and t[2] in (name, "new:" + name) and isinstance(t[1], tuple) and str(t[1][0]).startswith(site):
                        a = (list(t[4]) + [v for _, v in t[5]])[0]
                    elif t[0] == "op" and t[1] == name and len(t) > 2:
                        a = t[2] if t[2][0] != "kw" else t[2][2]
                    if a is None:
                        continue
                    if a == NONE or p.facts.get(("isnone", a)) is True:
                        ctx.viol(where, f"uses a generator without a seed at line {call.lineno}", p)
                    elif a[0] in ("p", "a") and p.facts.get(("isnone", a)) is None and p.facts.get(("truthy", a)) is not True and optional(ctx, f, a):
                        ctx.viol(where, f"uses a generator whose seed {show(a)} may be missing at line {call.lineno}", p)


def optional(ctx, f, a):
    """Can the parameter or attribute be None?"""
    def ann(fn, n):
        for x in [*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs]:
            if x.arg == n:
                ds = dict(zip([y.arg for y in fn.args.args[::-1]], fn.args.defaults[::-1])) | {y.arg: d for y, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults) if d is not None}
                s = ast.unparse(x.annotation) if x.annotation else "?"
                return "None" in s or "Optional" in s or n in ds and isinstance(ds[n], ast.Constant) and ds[n].value is None
        return None

    if a[0] == "p":
        return bool(ann(f.node, a[1]))
    if a[1] == P("self") and f.cls is not None:
        e = f.cls.annotation_of(a[2])
        if e is not None and e[0] is not None:
            s = ast.unparse(e[0])
            if "None" in s or "Optional" in s:
                return True
        init = f.cls.find_method("__init__")
        if init is not None:
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a[2] for t in n.targets) and isinstance(n.value, ast.Name):
                    return bool(ann(init.node, n.value.id))
    return False


# ------------------------------------------------------------------------- set order
def is_set(prog, m, fn, e, depth=0):
    """Does the expression have the arbitrary order of a set?"""
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
            return True
        if isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "iter", "enumerate", "reversed", "next") and e.args:
            return is_set(prog, m, fn, e.args[0], depth)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference"):
            return is_set(prog, m, fn, e.func.value, depth)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        k = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "keys" or is_set(prog, m, fn, x, depth)
        return k(e.left) or k(e.right) and not isinstance(e.op, ast.Sub)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return is_set(prog, m, fn, e.generators[0].iter, depth)
    if isinstance(e, ast.Name) and fn is not None and depth < 4:
        vs = assigned(fn, e.id)
        return bool(vs) and any(is_set(prog, m, fn, v, depth + 1) for v in vs)
    return False


def draws(prog, m, loc, node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            d = dotted(prog, m, loc, n.func)
            if d is not None and (d.startswith(("random.", "numpy.random.", "torch.rand", "torch.multinomial")) or d in GENERATORS):
                return n
            if isinstance(n.func, ast.Attribute) and n.func.attr in DRAW_METHODS and d is None:
                return n
    return None


def set_order(ctx):
    """No draw depends on the order of a set, which differs between processes."""
    n = 0
    for m in ctx.prog.modules.values():
        if not in_scope(m):
            continue
        for f in [f for f in ctx.prog.funcs.values() if f.module is m]:
            loc = imports(f.node)
            for x in walk_own(f.node):
                if isinstance(x, ast.Call):
                    d = dotted(ctx.prog, m, loc, x.func)
                    draw = d is not None and d.startswith(("random.", "numpy.random.", "torch.rand")) or isinstance(x.func, ast.Attribute) and x.func.attr in ("choice", "choices", "shuffle", "sample", "permutation")
                    if draw:
                        n += 1
                        for a in [*x.args, *[k.value for k in x.keywords]]:
                            if is_set(ctx.prog, m, f.node, a):
                                ctx.viol(f.qual, f"draws from the elements of a set at line {x.lineno}: their order differs between processes")
                its = [(x.iter, x.body)] if isinstance(x, ast.For) else [(g.iter, [x]) for g in x.generators] if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) else []
                for it, body in its:
                    if is_set(ctx.prog, m, f.node, it):
                        b = next((draws(ctx.prog, m, loc, s) for s in body if draws(ctx.prog, m, loc, s) is not None), None)
                        if b is not None:
                            ctx.viol(f.qual, f"draws at line {b.lineno} while going through a set, whose order differs between processes")
    ctx.need(n, "no draws found")
    ctx.ob(f"{n} draws from collections")


# ------------------------------------------------------------------ when it is drawn
def callees(prog, f, cls):
    """Functions of the package a function may call: [(Func, class of self or None)]."""
    out = []
    m = f.module
    params = {}
    a = f.node.args
    for x, d in [*zip(a.args[::-1], a.defaults[::-1]), *zip(a.kwonlyargs, a.kw_defaults)]:
        if d is not None:
            params[x.arg] = d
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        e = n.func
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and cls is not None:
            g = cls.find_method(e.attr)
            if g is not None:
                out.append((g, cls))
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and cls is not None and f.cls is not None:
            mro = cls.mro()
            for c in mro[mro.index(f.cls) + 1:] if f.cls in mro else ():
                if e.attr in c.methods:
                    out.append((c.methods[e.attr], cls))
                    break
        else:
            if isinstance(e, ast.Name) and e.id in params and isinstance(params[e.id], (ast.Name, ast.Attribute)):
                e = params[e.id]
            r = prog.resolve_expr(m, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
            if r is not None and r[0] == "fn":
                out.append((r[1], r[1].cls))
            elif r is not None and r[0] == "cls":
                for k in ("__init__", "__post_init__"):
                    g = r[1].find_method(k)
                    if g is not None:
                        out.append((g, r[1]))
    return out


def construction(ctx):
    """Building a searcher draws nothing: what it draws would depend on the process, not on the run."""
    from .searchers import searchers

    n = 0
    for c in searchers(ctx):
        init = c.find_method("__init__")
        if init is None:
            continue
        seen, work = set(), [(init, c)]
        while work:
            f, k = work.pop()
            if (f.qual, k.qual if k else None) in seen:
                continue
            seen.add((f.qual, k.qual if k else None))
            loc = imports(f.node)
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Call):
                    continue
                d = dotted(ctx.prog, f.module, loc, x.func)
                if d is not None and d.startswith(("random.", "numpy.random.", "torch.rand", "torch.multinomial", "torch.normal")) and d not in GENERATORS and d not in RESEED:
                    ctx.viol(f.qual, f"draws from {d} at line {x.lineno} while {c.name} is built, before the recorded state is restored")
                if d is None and isinstance(x.func, ast.Attribute) and x.func.attr in ("sample", "sample_value", "mutate", "crossover", "sample_batch", "sample_default_configuration"):
                    if x.func.attr != "sample_default_configuration":
                        ctx.viol(f.qual, f"samples at line {x.lineno} while {c.name} is built, before the recorded state is restored")
            work += callees(ctx.prog, f, k)
        n += len(seen)
    ctx.need(n, "no searcher constructors")
    ctx.ob(f"{n} functions reached from the constructors of searchers")
