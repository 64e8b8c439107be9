"""Path-sensitive, interprocedural dataflow over the syntax tree.

The interpreter computes, for an entry function, the finite set of abstract paths through
it: which opaque operations happen in which order, on values of which provenance, under
which branch decisions, and how the path ends.  Repository functions are inlined through
resolved calls; loops are iterated to a fixpoint over the abstract states (or summarised
as 'gather' terms when they only accumulate).  No code of the package is executed and no
solver is involved: branch decisions are atoms that are recorded, not solved.
"""
from __future__ import annotations

import ast
import copy
import builtins
import itertools
import math
import operator
import re
from dataclasses import dataclass

from .program import AnalysisBroken, BUILTIN_EXC, Class, Func, Program, walk_own, is_docstring
from .terms import *  # noqa: F403
from .terms import C, NONE, TRUE, FALSE, ZERO, ONE

PURE_BUILTINS = {
    "len", "str", "int", "float", "bool", "tuple", "sorted", "min", "max", "sum", "abs", "round",
    "type", "hasattr", "zip", "enumerate", "range", "map", "filter", "reversed", "iter", "next",
    "repr", "frozenset", "any", "all", "callable", "id", "issubclass", "hash", "format", "ord", "chr",
    "divmod", "pow", "vars", "object", "slice", "isinstance", "getattr", "dict", "list", "set",
}
SILENT = ("logging.", "warnings.", "builtins.print", "pprint.")
PURE_EXT = (
    "math.", "pathlib.Path", "pathlib.PurePath", "dataclasses.asdict", "dataclasses.replace",
    "dataclasses.is_dataclass", "dataclasses.fields", "dataclasses.field", "copy.deepcopy", "copy.copy",
    "functools.partial", "itertools.", "more_itertools.", "inspect.", "collections.", "operator.",
    "typing.", "os.getpid", "traceback.format_exc", "os.path.", "numpy.", "re.", "datetime.", "statistics.",
    "pandas.", "scipy.", "torch.tensor", "torch.cat", "torch.stack", "torch.is_tensor", "torch.float64", "functools.reduce",
)
IMPURE_EXT = ("numpy.random", "pandas.read_", "scipy.stats", "numpy.save", "numpy.load", "numpy.fromfile")
NORAISE_EXT = {"time.time", "time.monotonic", "uuid.uuid4", "random.random", "time.perf_counter"}
PURE_METHODS = {
    "get", "items", "keys", "values", "split", "rsplit", "strip", "lstrip", "rstrip", "startswith", "endswith",
    "replace", "lower", "upper", "format", "join", "count", "astype", "tolist", "absolute", "resolve",
    "with_suffix", "encode", "decode", "isoformat", "is_dir", "is_file", "exists", "relative_to", "is_absolute",
    "title", "capitalize", "isdigit", "partition", "index", "mean", "item", "as_posix", "union", "intersection",
    "difference", "issubset", "issuperset", "expanduser", "with_name", "joinpath", "numel", "dim", "size", "isoformat",
}
MUTATORS = {"append", "add", "extend", "update", "pop", "setdefault", "insert", "remove", "discard", "clear", "popitem", "sort", "reverse"}
MAY_RAISE_PURE = {"float", "int", ".index"}


class Limit(AnalysisBroken):
    pass


class Raised:
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raised({self.exc})"


NORMAL = ("normal",)
BREAK = ("break",)
CONTINUE = ("continue",)


class State:
    __slots__ = ("vars", "heap", "facts", "ev", "cnt", "pend")

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.facts = {}
        self.ev = ()
        self.cnt = {}
        self.pend = ()

    def copy(self):
        s = State.__new__(State)
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.cnt = dict(self.cnt)
        s.pend = self.pend
        return s

    def key(self):
        return (
            frozenset(self.vars.items()),
            frozenset(self.heap.items()),
            frozenset(self.facts.items()),
            self.ev,
            self.pend,
        )


@dataclass
class Frame:
    fid: tuple
    func: Func | None
    module: object
    cls: Class | None  # lexical class
    chain: tuple
    yield_handler: object = None
    self_term: tuple | None = None
    parent: "Frame | None" = None  # lexical parent (closures)
    gen_iter: bool = False


@dataclass
class PathResult:
    facts: dict
    events: tuple
    outcome: tuple
    state: State

    def literals(self):
        return self.facts


def as_generator(e):
    """map(f, xs) and filter(f, xs) written as generator expressions."""
    g = getattr(e, "_as_gen", None)
    if g is None:
        x = "%it"
        f, xs = e.args
        ld = ast.Name(x, ast.Load())
        if e.func.id == "map":
            elt, ifs = ast.Call(f, [ld], []), []
        else:
            elt, ifs = ld, [ld if isinstance(f, ast.Constant) and f.value is None else ast.Call(f, [ld], [])]
        g = ast.GeneratorExp(elt, [ast.comprehension(ast.Name(x, ast.Store()), xs, ifs, 0)])
        for n in ast.walk(g):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, e)
        ast.fix_missing_locations(g)
        e._as_gen = g
    return g


def as_list_builder(fn):
    """The function that collects what a generator function yields, if its yields are statements."""
    g = fn.__dict__.get("_builder")
    if g is not None:
        return g or None
    acc = "%yielded"

    class T(ast.NodeTransformer):
        def keep(self, n):
            return n

        visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = keep

        def visit_Expr(self, n):
            v = n.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                m = "append" if isinstance(v, ast.Yield) else "extend"
                a = v.value if v.value is not None else ast.Constant(None)
                c = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), m, ast.Load()), [a], []))
                return ast.fix_missing_locations(ast.copy_location(c, n))
            return n

        def visit_Return(self, n):
            return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name(acc, ast.Load())), n))

    node = copy.deepcopy(fn.node)
    node.body = [x for s in node.body for x in [T().visit(s)]]
    left = [x for s in node.body for x in walk_shallow(s) if isinstance(x, (ast.Yield, ast.YieldFrom))]
    if left or any(isinstance(x, (ast.Return,)) and x.value is not None for x in walk_shallow(fn.node)):
        fn._builder = False
        return None
    first, last = fn.node.body[0], fn.node.body[-1]
    node.body.insert(0, ast.fix_missing_locations(ast.copy_location(ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), first)))
    node.body.append(ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name(acc, ast.Load())), last)))
    g = copy.copy(fn)
    g.node, g._gen, g._builder = node, False, None
    fn._builder = g
    return g


def walk_shallow(n):
    """The nodes of a function without those of functions defined in it."""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for y in ast.iter_child_nodes(x):
            if not isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(y)



FOLDS = {n: getattr(math, n) for n in ("log", "log2", "log10", "log1p", "exp", "sqrt", "fabs")}


def fold(name, pos, kw):
    """The value of an elementary scalar function of library code applied to constants."""
    if not pos or not all(x[0] == "c" and isinstance(x[2], (int, float)) and not isinstance(x[2], bool) for x in pos[:1]):
        return None
    if name in ("numpy.int64", "numpy.int32", "numpy.intp", "numpy.float64", "numpy.float32"):
        name = "." + ("int" if "int" in name else "float")
    elif name == ".astype" and len(pos) == 2 and not kw:
        ty = pos[1]
        nm = ty[2] if ty[0] == "c" and isinstance(ty[2], str) else ty[1] if ty[0] in ("x", "k") else ""
        nm = str(nm).split(".")[-1]
        name, pos = ("." + nm.rstrip("0123468_"), pos[:1])
    elif name.startswith("."):
        name = name if name in (".item", ".round") else ""
    elif name in ("builtins.int", "builtins.float", "builtins.round", "builtins.abs"):
        name = {"int": ".int", "float": ".float", "round": ".round", "abs": "np.abs"}[name[9:]]
    elif name.split(".")[0] in ("numpy", "math"):
        name = ("np." if name.startswith("numpy.") else "math.") + name.split(".")[-1]
    else:
        return None
    if kw and not (len(kw) == 1 and kw[0][0] in ("decimals", "ndigits") and len(pos) == 1):
        return None
    pos = (*pos, *(v for _, v in kw))
    if not all(x[0] == "c" and isinstance(x[2], (int, float)) and not isinstance(x[2], bool) for x in pos):
        return None
    a = [x[2] for x in pos]
    kind, _, fn = name.partition(".")
    try:
        if kind == "" and fn in ("int", "float", "item") and len(a) == 1:
            v = {"int": int, "float": float, "item": lambda x: x}[fn](a[0])
        elif fn in FOLDS and (len(a) == 1 or fn == "log" and kind == "math"):
            v = FOLDS[fn](*a)
        elif fn in ("floor", "ceil", "trunc", "rint", "fix") and len(a) == 1:
            v = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round, "fix": math.trunc}[fn](a[0])
            v = float(v) if kind == "np" else v
        elif fn in ("round", "around", "round_") and kind in ("np", "") and len(a) in (1, 2):
            v = round(a[0], int(a[1])) if len(a) == 2 else round(a[0])
            v = type(a[0])(v) if kind == "np" or len(a) == 2 else v
        elif fn in ("power", "pow", "float_power") and len(a) == 2:
            v = math.pow(*a) if kind == "math" or fn == "float_power" else a[0] ** a[1]
        elif fn in ("maximum", "minimum") and len(a) == 2:
            v = (max if fn == "maximum" else min)(a)
        elif fn in ("divide", "true_divide", "floor_divide", "multiply", "add", "subtract") and kind == "np" and len(a) == 2:
            v = {"multiply": operator.mul, "add": operator.add, "subtract": operator.sub, "floor_divide": operator.floordiv}.get(fn, operator.truediv)(*a)
        elif fn in ("abs", "absolute") and kind == "np" and len(a) == 1:
            v = abs(a[0])
        else:
            return None
    except (ArithmeticError, ValueError, TypeError):
        return None
    if isinstance(v, complex) or v != v:
        return None
    return C(v)


class Interp:
    def __init__(
        self,
        prog: Program,
        *,
        opaque=(),
        inline=None,
        monitor=None,
        raises=None,
        exc=True,
        base_exc=False,
        max_depth=14,
        max_paths=60000,
        types=None,
        unroll=1,
        pure=(),
        keep_generators=False,
        models=None,
        literal_limit=14,
        recursion=1,
    ):
        self.prog = prog
        self.opaque = opaque if callable(opaque) else (lambda f, s=frozenset(opaque): short(f) in s or f.qual in s)
        self.inline = inline
        self.monitor = monitor
        self.raises = raises or {}
        self.exc = exc
        self.base_exc = base_exc
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.types = dict(types or {})
        self.unroll = unroll
        self.pure = frozenset(pure)
        self.models = models or {}
        self.literal_limit = literal_limit
        self.recursion = recursion
        self.closures = {}
        self.steps = 0
        self.stats = {"functions": set(), "calls": set(), "paths": 0, "atoms": set(), "loops": set()}
        self._tcache = {}
        self.loops = {}

    # ================================================================= entry
    def run(self, func: Func, args=None, self_term=None, st=None, exact_self=None):
        """Analyse ``func``; missing parameters become symbolic values named after them."""
        st = st.copy() if st is not None else State()
        if self.monitor is not None and st.ev == ():
            st.ev = self.monitor.initial()
        fid = (0, func.qual)
        fr = Frame(fid, func, func.module, func.cls, (func.qual,), None)
        a = func.node.args
        names = [p for p in a.posonlyargs + a.args + a.kwonlyargs]
        args = {k: self.materialize(st, v, k) for k, v in dict(args or {}).items()}
        for i, p in enumerate(names):
            if i == 0 and func.kind == "method" and p.arg not in args:
                t = self.materialize(st, self_term, "self") if self_term else ("p", "self")
                if func.cls is not None and t[0] != "o":
                    self.types.setdefault(t, ("k", (exact_self or func.cls).qual, ()))
                    if t[0] == "p":
                        self.exact = getattr(self, "exact", set()) | {t}
                fr.self_term = t
            elif i == 0 and func.kind == "class" and p.arg not in args:
                t = ("k", (exact_self or func.cls).qual)
                fr.self_term = t
            elif p.arg in args:
                t = args[p.arg]
            else:
                t = ("p", p.arg)
                if p.annotation is not None:
                    ty = self.ann_type(func.module, p.annotation)
                    if ty is not None:
                        self.types.setdefault(t, ty)
            st.vars[(fid, p.arg)] = t
        if a.vararg:
            st.vars[(fid, a.vararg.arg)] = args.get(a.vararg.arg, ("p", "*" + a.vararg.arg))
        if a.kwarg:
            st.vars[(fid, a.kwarg.arg)] = args.get(a.kwarg.arg, ("p", "**" + a.kwarg.arg))
        if func.is_cm or func.is_generator:
            fr.yield_handler = self._entry_yield
        self.stats["functions"].add(func.qual)
        out = []
        for s, o in self.exec_block(func.node.body, st, fr):
            if o[0] in ("normal",):
                o = ("return", NONE)
            if o[0] == "raise" and o[1][1] == "<cut>":
                o = ("cut",)
            out.append(PathResult(s.facts, s.ev, o, s))
        self.stats["paths"] += len(out)
        return out

    def _entry_yield(self, st, val, site):
        res = [(self.emit(st, ("yield", val, site)), NORMAL)]
        if self.exc:
            res.append((self.emit(st.copy(), ("yieldexc", val, site)), ("raise", ("exc", "?", ("yield", site)))))
        if self.base_exc:
            res.append((self.emit(st.copy(), ("yieldexc", val, site)), ("raise", ("exc", "?B", ("yield", site)))))
        return res

    # ================================================================ events
    def emit(self, st, ev):
        if self.monitor is not None:
            st.ev = self.monitor.step(st.ev, ev, st, self)
        else:
            st.ev = st.ev + (ev,)
        return st

    def tick(self):
        self.steps += 1
        if self.steps > 3_000_000:
            raise Limit("analysis budget exceeded")

    def site(self, node, fr):
        f = fr.func.qual if fr.func else fr.module.name
        return f"{fr.module.relpath}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"

    def uid(self, st, node, fr):
        s = self.site(node, fr)
        k = st.cnt.get(s, 0)
        st.cnt[s] = k + 1
        return (s, k)

    # ================================================================= types
    def ann_type(self, m, e, subst=None):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.ann_type(m, ast.parse(e.value, mode="eval").body, subst)
                except SyntaxError:
                    return None
            if e.value is None:
                return ("none",)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            ts = [self.ann_type(m, e.left, subst), self.ann_type(m, e.right, subst)]
            flat = []
            for t in ts:
                if t is not None and t[0] == "union":
                    flat += list(t[1])
                else:
                    flat.append(t)
            return ("union", tuple(flat))
        if isinstance(e, ast.Subscript):
            base = self.prog.resolve_expr(m, e.value)
            sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if base is None:
                return None
            if base[0] == "ext":
                n = base[1].split(".")[-1]
                if n == "Optional":
                    return ("union", (self.ann_type(m, sl[0], subst), ("none",)))
                if n == "Union":
                    return ("union", tuple(self.ann_type(m, x, subst) for x in sl))
                if n == "ClassVar" or n == "Final" or n == "Annotated":
                    return self.ann_type(m, sl[0], subst)
                if n == "Literal":
                    if all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in sl):
                        return ("x", "builtins.str", ())
                    return ("lit",)
                if n == "type" or n == "Type":
                    return ("x", "builtins.type", ())
                if n == "Callable":
                    return ("x", "Callable", ())
                args = tuple(self.ann_type(m, x, subst) for x in sl)
                return ("x", base[1], args)
            if base[0] == "cls":
                return ("k", base[1].qual, tuple(self.ann_type(m, x, subst) for x in sl))
            return None
        r = self.prog.resolve_expr(m, e)
        if r is None:
            return None
        if r[0] == "cls":
            return ("k", r[1].qual, ())
        if r[0] == "ext":
            if r[1].split(".")[-1] == "Any":
                return None
            return ("x", r[1], ())
        if r[0] == "val":
            v = r[2]
            if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "TypeVar":
                nm = v.args[0].value if v.args and isinstance(v.args[0], ast.Constant) else ast.unparse(e)
                if subst and nm in subst:
                    return subst[nm]
                return ("tv", nm)
            return self.ann_type(r[1], v, subst)
        return None

    def tparams(self, c: Class):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                n = ast.unparse(b.value).split(".")[-1]
                if n in ("Generic", "Protocol"):
                    sl = b.slice.elts if isinstance(b.slice, ast.Tuple) else [b.slice]
                    out = []
                    for x in sl:
                        t = self.ann_type(c.module, x)
                        out.append(t[1] if t and t[0] == "tv" else None)
                    return out
        return []

    def subst_for(self, ty):
        if ty is None or ty[0] != "k" or not ty[2]:
            return None
        c = self.prog.classes[ty[1]]
        return {n: a for n, a in zip(self.tparams(c), ty[2]) if n and a is not None}

    def strip_opt(self, ty):
        if ty is not None and ty[0] == "union":
            rest = [t for t in ty[1] if t is not None and t != ("none",)]
            if len(rest) == 1 and len([t for t in ty[1] if t is None]) == 0:
                return rest[0]
            return None
        return ty

    def owner_type(self, b, name):
        """Type of ``b`` as far as the attribute ``name`` is concerned (resolves unions)."""
        ty = self.typeof(b)
        st = self.strip_opt(ty)
        if st is not None or ty is None or ty[0] != "union":
            return st
        own = []
        for u in ty[1]:
            if u is None:
                return None
            if u[0] == "k":
                c = self.prog.classes[u[1]]
                if c.find_method(name) or c.annotation_of(name) is not None or c.find_attr(name) is not None:
                    own.append(u)
            elif u[0] == "x" and u[1].startswith("builtins."):
                o = getattr(builtins, u[1][9:], None)
                if o is None or hasattr(o, name):
                    return None
            elif u[0] in ("none", "lit"):
                continue
            else:
                return None
        return own[0] if len(own) == 1 else None

    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t in self._tcache:
            return self._tcache[t]
        self._tcache[t] = None
        r = self._typeof(t)
        self._tcache[t] = r
        return r

    def _typeof(self, t):
        k = t[0]
        if k == "o":
            if t[2] in self.prog.classes:
                return ("k", t[2], ())
            return ("x", "builtins." + t[2], ())
        if k == "enum":
            return ("k", t[1], ())
        if k == "c":
            return ("none",) if t[2] is None else ("x", "builtins." + t[1], ())
        if k == "fstr":
            return ("x", "builtins.str", ())
        if k == "a":
            bt = self.owner_type(t[1], t[2])
            if bt is None:
                return None
            if bt[0] == "k":
                c = self.prog.classes[bt[1]]
                an = c.annotation_of(t[2])
                if an is not None:
                    return self.ann_type(an[1].module, an[0], self.subst_for(bt))
                m = c.find_method(t[2])
                if m is not None and m.is_property:
                    return self.ann_type(m.module, m.node.returns, self.subst_for(bt))
            return None
        if k == "call":
            f = None
            tgt = t[2]
            if tgt in self.prog.funcs:
                f = self.prog.funcs[tgt]
            else:
                f = self._byshort(tgt)
            if f is not None and f.node.returns is not None:
                rt = self.strip_opt(self.typeof(t[3])) if t[3] is not None else None
                ty = self.ann_type(f.module, f.node.returns, self.subst_for(rt))
                if ty == ("x", "typing_extensions.Self", ()) and rt:
                    return rt
                return ty
            if tgt == "pathlib.Path":
                return ("x", "pathlib.Path", ())
            return None
        if k == "op":
            n = t[1]
            if n in ("pathlib.Path", ".absolute", ".resolve", ".with_suffix"):
                return ("x", "pathlib.Path", ())
            if n == "builtins.str" or n == "str":
                return ("x", "builtins.str", ())
            if n in ("float", "int", "len"):
                return ("x", "builtins." + ("int" if n == "len" else n), ())
            if n in (".items", ".keys", ".values"):
                bt = self.strip_opt(self.typeof(t[2]))
                if bt and bt[0] == "x" and len(bt[2]) == 2:
                    K, V = bt[2]
                    return {".items": ("iter", ("x", "builtins.tuple", (K, V))), ".keys": ("iter", K), ".values": ("iter", V)}[n]
            if n in ("list", "sorted", "iter", "reversed", "tuple", "set") and len(t) > 2:
                et = self.elemtype(self.strip_opt(self.typeof(t[2])))
                return ("iter", et) if et else None
            if n in (".get", ".pop"):
                bt = self.strip_opt(self.typeof(t[2]))
                if bt and bt[0] == "x" and len(bt[2]) == 2:
                    return bt[2][1]
            if n in ("copy.deepcopy", "copy.copy", "dataclasses.replace"):
                return self.typeof(t[2])
            if n == "next":
                return self.elemtype(self.strip_opt(self.typeof(t[2])))
            return None
        if k == "el":
            return self.elemtype(self.strip_opt(self.typeof(t[1])))
        if k == "it":
            bt = self.strip_opt(self.typeof(t[1]))
            if bt and bt[0] == "x" and bt[1].split(".")[-1] in ("tuple", "Tuple") and len(bt[2]) > t[2]:
                return bt[2][t[2]]
            return None
        if k == "sub":
            bt = self.strip_opt(self.typeof(t[1]))
            if bt and bt[0] == "x":
                if len(bt[2]) == 2:
                    return bt[2][1]
                if len(bt[2]) == 1:
                    return bt[2][0]
            return None
        if k == "ent":
            ct = self.typeof(t[1])
            if ct and ct[0] == "x" and ct[2] and ct[1].split(".")[-1] in ("Iterator", "Generator", "ContextManager", "AbstractContextManager"):
                return ct[2][0]
            return None
        if k == "bin":
            if t[1] == "/":
                lt = self.typeof(t[2])
                if lt == ("x", "pathlib.Path", ()):
                    return lt
            return None
        if k == "g" and t[1] in ("list", "gen", "set"):
            ets = {self.typeof(e) for _, e in t[3]}
            if len(ets) == 1:
                return ("iter", ets.pop())
        if k == "exc":
            return ("x", "builtins.Exception", ())
        return None

    def elemtype(self, ty):
        if ty is None:
            return None
        if ty[0] == "iter":
            return ty[1]
        if ty[0] == "x":
            n = ty[1].split(".")[-1]
            if n in ("list", "set", "frozenset", "Iterable", "Iterator", "Sequence", "List", "Set", "deque", "Collection") and ty[2]:
                return ty[2][0]
            if n in ("dict", "Mapping", "Dict") and ty[2]:
                return ty[2][0]
            if n in ("tuple", "Tuple") and len(ty[2]) >= 1:
                return ty[2][0]
        return None

    def _byshort(self, tgt):
        idx = getattr(self, "_shortidx", None)
        if idx is None:
            idx = {}
            for f in self.prog.funcs.values():
                idx.setdefault(short(f), f)
            self._shortidx = idx
        return idx.get(tgt)

    # ================================================================= facts
    def norm_atom(self, a):
        """-> (atom, polarity)"""
        if a[0] == "truthy":
            t = a[1]
            if t[0] == "op" and t[1] == "len" and len(t) == 3:
                return ("truthy", t[2]), True
            ty = self.typeof(t)
            if ty is not None:
                base = self.strip_opt(ty)
                if base is not None and base[0] == "k":
                    c = self.prog.classes[base[1]]
                    if not c.is_enum and not any(c.find_method(x) for x in ("__bool__", "__len__")) and not c.ext_bases_have_len():
                        return ("isnone", t), False
                if base is not None and base[0] == "x" and base[1].split(".")[-1] in ("Exception", "BaseException", "Path", "Callable", "Logger"):
                    return ("isnone", t), False
        if a[0] == "ge":
            x, y = a[1], a[2]
            if y in (ZERO, C(0.0)) and x[0] == "bin" and x[1] == "-":
                return self.norm_atom(("ge", x[2], x[3]))
            if x in (ZERO, C(0.0)) and y[0] == "bin" and y[1] == "-":
                return self.norm_atom(("ge", y[3], y[2]))
            if is_len(x) and y == ONE:
                return ("truthy", x[2]), True
            if is_len(y) and x == ZERO:  # 0 >= len(y)
                return ("truthy", y[2]), False
        if a[0] == "eq":
            x, y = a[1], a[2]
            if is_len(x) and y == ZERO:
                return ("truthy", x[2]), False
            if is_len(y) and x == ZERO:
                return ("truthy", y[2]), False
            if y == NONE:
                return ("isnone", x), True
            if x == NONE:
                return ("isnone", y), True
            if sortkey(x) > sortkey(y):
                return ("eq", y, x), True
        return a, True

    def decide(self, st, a):
        f = st.facts
        if a in f:
            return f[a]
        k = a[0]
        if k == "isnone":
            t = a[1]
            if t[0] == "c":
                return t[2] is None
            if t[0] in ("o", "enum", "k", "fn", "bm", "lam", "tup", "fstr", "x", "m", "g", "exc", "bin", "ivl", "el_never", "list", "dict", "set", "new", "cmp", "not"):
                return False
            if t[0] == "op" and t[1] in ("len", "str", "float", "int", "pathlib.Path", "tuple", "sorted", ".items", ".keys", ".values", ".split", ".absolute", ".resolve", ".index", ".count", "round", "abs", "bool", "list", "dict", "set", ".lower", ".strip", ".replace", ".join", ".format", "math.log", "math.exp", "isinstance", "any", "all"):
                return False
            if f.get(("truthy", t)) is True:
                return False
            for b, v in f.items():
                if v and b[0] == "eq" and (b[1] == t or b[2] == t):
                    o = b[2] if b[1] == t else b[1]
                    if o[0] in ("c", "enum") and o != NONE:
                        return False
                if v and b[0] == "isinst" and b[1] == t and b[2].split(".")[-1] not in ("object", "NoneType"):
                    return False
                if v and b[0] == "is" and b[1] == t and b[2] != NONE:
                    return False
        elif k == "truthy":
            t = a[1]
            if f.get(("isnone", t)) is True:
                return False
            if t[0] == "g":
                return None
            if f.get(("is", t, FALSE)) is True:
                return False
            if f.get(("is", t, TRUE)) is True:
                return True
            for b, v in f.items():
                if v and b[0] == "eq" and (b[1] == t or b[2] == t):
                    o = b[2] if b[1] == t else b[1]
                    if o[0] == "c":
                        return bool(o[2])
        elif k == "eq":
            x, y = a[1], a[2]
            if x == y:
                return True
            cx, cy = x[0] in ("c", "enum"), y[0] in ("c", "enum")
            if cx and cy:
                if x[0] == "c" and y[0] == "c":
                    try:
                        return x[2] == y[2]
                    except Exception:
                        return None
                return False
            if x[0] == "ivl" and y[0] == "c" and isinstance(y[2], int):
                return False if y[2] < x[1] else None
            if y[0] == "ivl" and x[0] == "c" and isinstance(x[2], int):
                return False if x[2] < y[1] else None
            if cx or cy:
                c, t = (x, y) if cx else (y, x)
                if c[0] == "enum" or c[0] == "c":
                    if f.get(("isnone", t)) is True:
                        return False
                    others = set()
                    for b, v in f.items():
                        if b[0] == "eq" and (b[1] == t or b[2] == t):
                            o = b[2] if b[1] == t else b[1]
                            if o[0] == c[0] and o != c:
                                if v:
                                    return False
                                others.add(o)
                    if c[0] == "enum":
                        ms = self.prog.classes[c[1]].enum_members()
                        ty = self.typeof(t)
                        if ty == ("k", c[1], ()) and len(others) == len(ms) - 1:
                            return True
            for u, w in ((x, y), (y, x)):
                if u[0] == "o" and w[0] == "c" and u[2] in ("dict", "list", "set") or u[0] in ("dict", "list", "set", "tup") and w[0] == "c":
                    return False
        elif k == "ge":
            x, y = a[1], a[2]
            if x[0] == "c" and y[0] == "c":
                try:
                    return x[2] >= y[2]
                except Exception:
                    return None
            if x == y:
                return True
            if x[0] == "ivl" and y[0] == "c" and isinstance(y[2], (int, float)):
                return True if x[1] >= y[2] else None
            if y[0] == "ivl" and x[0] == "c" and isinstance(x[2], (int, float)):
                return False if x[2] < y[1] else None
            if f.get(("ge", y, x)) is False:
                return True
        elif k == "is":
            x, y = a[1], a[2]
            if x == y and x[0] in ("c", "enum", "p", "o", "a"):
                return True
            if x[0] == "c" and y[0] == "c":
                return False
            if y[0] == "c" and x[0] in ("o", "enum", "fstr", "bm", "k", "fn", "tup"):
                return False
            if x[0] == "new" or y[0] == "new":  # a module-level instance
                if x == y:
                    return True
                if {x[0], y[0]} & {"c", "o", "enum", "fstr", "bm", "k", "fn", "tup", "dict", "list"}:
                    return False
            if f.get(("isnone", x)) is True and y != NONE:
                return False
            for b, v in f.items():
                if v and b[0] == "is" and b[1] == x and b[2] != y and b[2][0] == "c" and y[0] == "c":
                    return False
            if y == FALSE and f.get(("truthy", x)) is True:
                return False
            if y == TRUE and f.get(("truthy", x)) is False:
                return False
        elif k == "isinst":
            return self.decide_isinst(st, a[1], a[2])
        return None

    def decide_isinst(self, st, t, cname):
        if st.facts.get(("isnone", t)) is True:
            return False
        tail = cname.split(".")[-1]
        if t[0] == "c":
            v = t[2]
            if cname in self.prog.classes:
                return False
            o = getattr(builtins, tail, None)
            if isinstance(o, type):
                return isinstance(v, o)
            if v is None:
                return False
            if tail in ("Path", "Mapping", "MutableMapping", "Enum", "Exception"):
                return False
            if tail in ("Iterable", "Sequence", "Collection", "Hashable", "Sized") and isinstance(v, (str, bytes, int, float, bool)):
                return isinstance(v, (str, bytes)) or tail == "Hashable"
            if tail in ("partial", "ndarray", "Tensor", "DataFrame", "Series", "ConfigurationSpace", "Logger"):
                return False
            return None
        if t[0] in ("k", "fn", "bm") and tail in ("partial", "str", "int", "float", "bool", "bytes", "dict", "list", "tuple", "set", "Mapping", "Sequence", "Iterable", "Path"):
            return False
        if t[0] == "op" and t[1] == "functools.partial" and len(t) > 2:
            return tail == "partial"
        if t[0] == "enum":
            return cname == t[1] or tail == "Enum"
        if t[0] == "new" and t[1] in self.prog.classes:
            t = ("o", None, t[1])
        if t[0] == "o":
            if t[2] in self.prog.classes:
                c = self.prog.classes[t[2]]
                if cname in self.prog.classes:
                    return any(x.qual == cname for x in c.mro())
                ext = [b for b in c.ext_bases() if b.split("[")[0].split(".")[-1] not in ("Protocol", "Generic", "ABC", "object")]
                if ext:
                    return None if not any(b.split(".")[-1] == tail for b in ext) else True
                return False
            table = {"dict": ("dict", "Mapping", "MutableMapping", "Iterable", "Collection"), "list": ("list", "Sequence", "Iterable", "Collection"), "set": ("set", "Iterable", "Collection")}
            return tail in table.get(t[2], (t[2],))
        if t[0] == "fstr":
            return tail in ("str", "Iterable")
        if t[0] == "op" and t[1] in ("float", "int", "str") and (getattr(builtins, tail, None) in (int, float, str, bool, bytes, dict, list, tuple, set) or cname in self.prog.classes):
            return tail == t[1]
        if t[0] == "tup":
            return tail in ("tuple", "Sequence", "Iterable", "Collection")
        if t[0] == "exc":
            o = getattr(builtins, tail, None)
            if isinstance(o, type) and not issubclass(o, BaseException) and o is not object:
                return False
            m = self.exc_match(t, cname)
            return {"yes": True, "no": False}.get(m)
        # disjointness of positive facts
        for b, v in st.facts.items():
            if b[0] == "isinst" and b[1] == t and v:
                if disjoint_types(b[2], cname, self.prog):
                    return False
                if subtype(b[2], cname, self.prog):
                    return True
            if b[0] == "isinst" and b[1] == t and not v and subtype(cname, b[2], self.prog):
                return False
        return None

    def assume(self, st, a, val):
        """-> State or None (contradiction)."""
        a, pol = self.norm_atom(a)
        if not pol:
            val = not val
        d = self.decide(st, a)
        if d is not None:
            return st if d == val else None
        s = st.copy()
        s.facts[a] = val
        self.stats["atoms"].add(a[0])
        return s

    def split(self, st, a):
        """-> [(state, bool)]"""
        a, pol = self.norm_atom(a)
        d = self.decide(st, a)
        if d is not None:
            return [(st, d if pol else not d)]
        out = []
        for v in (True, False):
            s = st.copy()
            s.facts[a] = v
            out.append((s, v if pol else not v))
        self.stats["atoms"].add(a[0])
        return out

    def content(self, st, t):
        if t[0] == "o":
            return st.heap.get((t, "#"))
        return None

    def branch(self, st, t):
        """Truth of a term -> [(state, bool)]"""
        k = t[0]
        if k == "c":
            return [(st, bool(t[2]))]
        if k == "not":
            return [(s, not b) for s, b in self.branch(st, t[1])]
        if k == "cmp":
            return self.branch_cmp(st, t)
        if k == "and":
            out = []
            for s, b in self.branch(st, t[1]):
                out += self.branch(s, t[2]) if b else [(s, False)]
            return out
        if k == "or":
            out = []
            for s, b in self.branch(st, t[1]):
                out += [(s, True)] if b else self.branch(s, t[2])
            return out
        if k == "tup":
            return [(st, len(t[1]) > 0)]
        if k in ("k", "fn", "bm", "lam", "x", "m", "exc", "enum"):
            return [(st, True)]
        if k == "ivl":
            return [(st, True)] if t[1] > 0 else self.split(st, ("truthy", t))
        if k == "o":
            c = self.content(st, t)
            if c is not None:
                if c[0] in ("list", "set", "dict"):
                    if not c[1]:
                        return [(st, False)]
                    if any(not (isinstance(x, tuple) and x and x[0] in ("*", "**")) for x in c[1]):
                        return [(st, True)]
                return self.split(st, ("truthy", c))
            if t[2] in self.prog.classes:
                cl = self.prog.classes[t[2]]
                if not (cl.find_method("__bool__") or cl.find_method("__len__")):
                    return [(st, True)]
        if k == "op" and t[1] == "isinstance":
            return self.branch_isinst(st, t[2], t[3])
        if k == "op" and t[1] == "bool" and len(t) == 3:
            return self.branch(st, t[2])
        if k == "fstr":
            if any(x[0] == "c" and x[2] for x in t[1]):
                return [(st, True)]
        return self.split(st, ("truthy", t))

    def branch_isinst(self, st, t, kt):
        names = []
        if kt[0] == "tup":
            for x in kt[1]:
                names.append(cls_name(x))
        elif kt[0] == "bin" and kt[1] == "|":
            def flat(x):
                if x[0] == "bin" and x[1] == "|":
                    return flat(x[2]) + flat(x[3])
                return [cls_name(x)]
            names = flat(kt)
        else:
            names = [cls_name(kt)]
        states = [st]
        out = []
        for n in names:
            nxt = []
            for s in states:
                if n is None:
                    for s2, b in self.split(s, ("isinst", t, repr(kt))):
                        (out.append((s2, True)) if b else nxt.append(s2))
                else:
                    for s2, b in self.split(s, ("isinst", t, n)):
                        (out.append((s2, True)) if b else nxt.append(s2))
            states = nxt
        return out + [(s, False) for s in states]

    @staticmethod
    def boolish(t):
        """A term whose value can only be True or False."""
        if t[0] == "cmp":
            return t[1] in ("is", "is not", "in", "not in")
        return t[0] == "not" or (t[0] == "op" and t[1] in ("isinstance", "bool", "callable", "hasattr", "issubclass", "any", "all") and len(t) > 2)

    def branch_cmp(self, st, t):
        _, op, a, b = t
        if op in ("is", "is not"):
            neg = op == "is not"
            for x, y in ((a, b), (b, a)):
                if y in (TRUE, FALSE) and self.boolish(x):
                    return [(s, (v == y[2]) != neg) for s, v in self.branch(st, x)]
            if b == NONE or a == NONE:
                r = self.split(st, ("isnone", a if b == NONE else b))
            else:
                if a[0] == "c" and b[0] != "c":
                    a, b = b, a
                if b[0] == "enum" or a[0] == "enum":
                    r = self.split(st, ("eq", a, b))
                else:
                    r = self.split(st, ("is", a, b))
            return [(s, v != neg) for s, v in r]
        if op in ("==", "!="):
            neg = op == "!="
            return [(s, v != neg) for s, v in self.branch_eq(st, a, b)]
        if op == ">=":
            return self.split(st, ("ge", a, b))
        if op == "<":
            return [(s, not v) for s, v in self.split(st, ("ge", a, b))]
        if op == "<=":
            return self.split(st, ("ge", b, a))
        if op == ">":
            return [(s, not v) for s, v in self.split(st, ("ge", b, a))]
        if op in ("in", "not in"):
            neg = op == "not in"
            items = None
            c = self.content(st, b) if b[0] == "o" else b
            if c is not None and c[0] in ("tup", "list", "set"):
                items = c[1]
                if any(x[0] in ("*", "**") for x in items):
                    items = None
            elif c is not None and c[0] == "dict" and all(k != "**" for k, _ in c[1]):
                items = tuple(k for k, _ in c[1])
            if items is not None and len(items) <= 24:
                out = []
                states = [st]
                for x in items:
                    nxt = []
                    for s in states:
                        for s2, v in self.branch_eq(s, a, x):
                            (out.append((s2, True)) if v else nxt.append(s2))
                    states = nxt
                out += [(s, False) for s in states]
                return [(s, v != neg) for s, v in out]
            if c is not None and c[0] == "op" and c[1] == ".keys":
                c = c[2]
                c = self.content(st, c) or c
            return [(s, v != neg) for s, v in self.split(st, ("in", a, c if c is not None else b))]
        return self.split(st, ("truthy", t))

    def branch_eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y == TRUE and (x[0] in ("cmp", "not", "and", "or") or self.boolish(x)):
                return self.branch(st, x)
            if y == FALSE and (x[0] in ("cmp", "not", "and", "or") or self.boolish(x)):
                return [(s, not v) for s, v in self.branch(st, x)]
        if a[0] == b[0] == "tup" and not any(x[0] in ("*", "**") for x in a[1] + b[1]) and len(a[1]) <= 8:
            if len(a[1]) != len(b[1]):
                return [(st, False)]
            out, states = [], [st]
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in states:
                    for s2, v in self.branch_eq(s, x, y):
                        (nxt.append(s2) if v else out.append((s2, False)))
                states = nxt
            return out + [(s, True) for s in states]
        if {a[0], b[0]} == {"tup", "c"}:
            return [(st, False)]
        return self.split(st, ("eq", a, b))

    # =============================================================== blocks
    def exec_block(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y, o in self.exec(s, x, fr):
                    if o is NORMAL:
                        nxt.append(y)
                    else:
                        done.append((y, o))
            nxt = dedupe(nxt)
            cur = nxt
            if len(cur) + len(done) > self.max_paths:
                raise Limit(f"too many paths in {fr.func.qual if fr.func else '?'}")
            if not cur:
                break
        return done + [(x, NORMAL) for x in cur]

    def exec(self, s, st, fr):
        self.tick()
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return [(st, NORMAL)]
        return m(s, st, fr)

    def x_Pass(self, s, st, fr):
        return [(st, NORMAL)]

    def x_Global(self, s, st, fr):
        for n in s.names:
            st.vars[(fr.fid, n)] = ("GLOBAL", fr.module.name, n)
        return [(st, NORMAL)]

    x_Nonlocal = x_Pass

    def x_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            st.vars[(fr.fid, nm)] = ("m", full) if full in self.prog.modules else ("x", full)
        return [(st, NORMAL)]

    def x_ImportFrom(self, s, st, fr):
        base = self.prog._from_base(fr.module, s)
        for a in s.names:
            nm = a.asname or a.name
            if base in self.prog.modules:
                r = self.prog.lookup(self.prog.modules[base], a.name)
                t = self.ref_term(r)
                if t is None:
                    t = ("m", base + "." + a.name) if base + "." + a.name in self.prog.modules else ("x", f"{base}.{a.name}")
                st.vars[(fr.fid, nm)] = t
            else:
                st.vars[(fr.fid, nm)] = ("x", f"{base}.{a.name}")
        return [(st, NORMAL)]

    def ref_term(self, r):
        if r is None:
            return None
        if r[0] == "cls":
            return ("k", r[1].qual)
        if r[0] == "fn":
            return ("fn", r[1].qual)
        if r[0] == "mod":
            return ("m", r[1].name)
        if r[0] == "ext":
            return ("x", r[1])
        if r[0] == "val":
            return self.module_value(r[1], r[2], r)
        if r[0] == "classval":
            return self.class_value(r[1], r[2], r[3], r[4])
        return None

    def class_value(self, c, name, owner, expr):
        if c.is_enum:
            return ("enum", c.qual, name)
        return self.module_value(owner.module, expr, None)

    def module_value(self, m, e, r):
        """Value of a module level expression (evaluated abstractly, no effects)."""
        key = ("mv", m.name, id(e))
        if key in self._tcache:
            return self._tcache[key]
        self._tcache[key] = ("modval", m.name, ast.unparse(e)[:80])
        fr = Frame((0, "<module>"), None, m, None, ("<module " + m.name + ">",))
        sub = Interp(self.prog, exc=False, opaque=lambda f: True, max_depth=2)
        try:
            res = sub.eval(e, State(), fr)
            if len(res) == 1 and not isinstance(res[0][1], Raised):
                v = freeze(res[0][0], res[0][1])
                if v[0] == "call" or mentions(v, lambda x: x and x[0] in ("call", "?")):
                    v = self.named_modval(m, e)
            else:
                v = self.named_modval(m, e)
        except AnalysisBroken:
            v = self.named_modval(m, e)
        self._tcache[key] = v
        return v

    def named_modval(self, m, e):
        for n, s in m.symbols.items():
            if isinstance(s, tuple) and s[0] == "val" and s[1] is e:
                t = ("gv", m.name, n)
                if len(s) > 2:
                    ty = self.ann_type(m, s[2])
                    if ty:
                        self.types.setdefault(t, ty)
                if isinstance(e, ast.Call):
                    src = ast.unparse(e.func)
                    if src.endswith("getLogger"):
                        self.types[t] = ("x", "logging.Logger", ())
                return t
        return ("modval", m.name, ast.unparse(e)[:120])

    def x_FunctionDef(self, s, st, fr):
        cid = ("lam", self.site(s, fr), fr.fid)
        self.closures[cid] = (s, fr)
        st.vars[(fr.fid, s.name)] = cid
        return [(st, NORMAL)]

    def x_ClassDef(self, s, st, fr):
        st.vars[(fr.fid, s.name)] = ("?", self.uid(st, s, fr))
        return [(st, NORMAL)]

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, NORMAL)]
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, st, fr, None)
        if isinstance(s.value, ast.YieldFrom):
            return [(st, NORMAL)]
        return [(a, NORMAL if not isinstance(v, Raised) else ("raise", v.exc)) for a, v in self.eval(s.value, st, fr)]

    def do_yield(self, node, st, fr, target):
        out = []
        res = self.eval(node.value, st, fr) if node.value is not None else [(st, NONE)]
        for a, v in res:
            if isinstance(v, Raised):
                out.append((a, ("raise", v.exc)))
                continue
            f = fr
            while f is not None and f.yield_handler is None:
                f = None
            if f is None:
                self.emit(a, ("yield", v, self.site(node, fr)))
                out.append((a, NORMAL))
                continue
            for b, o in f.yield_handler(a, v, self.site(node, fr)):
                if o is NORMAL:
                    out.append((b, NORMAL))
                elif o[0] == "raise":
                    out.append((b, o))
                else:
                    b.pend = b.pend + ((fr.fid, o),)
                    out.append((b, NORMAL))
        return out

    def x_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ("return", NONE))]
        return [(a, ("return", v) if not isinstance(v, Raised) else ("raise", v.exc)) for a, v in self.eval(s.value, st, fr)]

    def x_Break(self, s, st, fr):
        return [(st, BREAK)]

    def x_Continue(self, s, st, fr):
        return [(st, CONTINUE)]

    def x_Assert(self, s, st, fr):
        out = []
        for a, b in self.cond(s.test, st, fr):
            if isinstance(b, Raised):
                out.append((a, ("raise", b.exc)))
            elif b:
                out.append((a, NORMAL))
            elif getattr(self, "asserts", False):
                out.append((a, ("raise", ("exc", "AssertionError", self.uid(a, s, fr)))))
        return out

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.vars.get((fr.fid, "%exc"))
            return [(st, ("raise", cur or ("exc", "?", self.uid(st, s, fr))))]
        out = []
        for a, v in self.eval(s.exc, st, fr):
            if isinstance(v, Raised):
                out.append((a, ("raise", v.exc)))
                continue
            if v[0] == "k":
                v = ("exc", v[1], self.uid(a, s, fr), ())
            elif v[0] == "x":
                v = ("exc", v[1].replace("builtins.", ""), self.uid(a, s, fr), ())
            elif v[0] != "exc":
                v = ("exc", "?", ("val", v), ())
            if s.cause is not None:
                r2 = self.eval(s.cause, a, fr)
                for b, c in r2:
                    if isinstance(c, Raised):
                        continue
                    e2 = ("exc", v[1], v[2], v[3] if len(v) > 3 else (), ("from", c))
                    self.emit(b, ("raise", e2, self.site(s, fr)))
                    out.append((b, ("raise", e2)))
                continue
            self.emit(a, ("raise", v, self.site(s, fr)))
            out.append((a, ("raise", v)))
        return out

    def x_If(self, s, st, fr):
        out = []
        for a, b in self.cond(s.test, st, fr):
            if isinstance(b, Raised):
                out.append((a, ("raise", b.exc)))
            else:
                out += self.exec_block(s.body if b else s.orelse, a, fr)
        return out

    def x_Match(self, s, st, fr):
        out = []
        for a, v in self.eval(s.subject, st, fr):
            if isinstance(v, Raised):
                out.append((a, ("raise", v.exc)))
                continue
            pending = [a]
            for case in s.cases:
                nxt = []
                for p in pending:
                    for q, ok in self.match_pattern(case.pattern, v, p, fr):
                        if not ok:
                            nxt.append(q)
                            continue
                        if case.guard is not None:
                            for r, g in self.cond(case.guard, q, fr):
                                if g is True:
                                    out += self.exec_block(case.body, r, fr)
                                elif g is False:
                                    nxt.append(r)
                                else:
                                    out.append((r, ("raise", g.exc)))
                        else:
                            out += self.exec_block(case.body, q, fr)
                pending = nxt
            out += [(p, NORMAL) for p in pending]
        return out

    def match_pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            out = []
            for a, c in self.eval(p.value, st, fr):
                out += self.branch_eq(a, v, c)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch_cmp(st, ("cmp", "is", v, C(p.value)))
        if isinstance(p, ast.MatchOr):
            out, pend = [], [st]
            for q in p.patterns:
                nxt = []
                for s in pend:
                    for a, ok in self.match_pattern(q, v, s, fr):
                        (out.append((a, True)) if ok else nxt.append(a))
                pend = nxt
            return out + [(s, False) for s in pend]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s = st.copy()
                if p.name:
                    s.vars[(fr.fid, p.name)] = v
                return [(s, True)]
            out = []
            for a, ok in self.match_pattern(p.pattern, v, st, fr):
                if ok and p.name:
                    a = a.copy()
                    a.vars[(fr.fid, p.name)] = v
                out.append((a, ok))
            return out
        if isinstance(p, ast.MatchClass):
            out = []
            for a, c in self.eval(p.cls, st, fr):
                out += self.branch_isinst(a, v, c)
            return out
        return self.split(st, ("truthy", ("op", "match", v, C(ast.unparse(p)))))

    # ------------------------------------------------------------ assignment
    def x_Assign(self, s, st, fr):
        out = []
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, st, fr, s.targets)
        for a, v in self.eval(s.value, st, fr):
            if isinstance(v, Raised):
                out.append((a, ("raise", v.exc)))
                continue
            cur = [(a, NORMAL)]
            for t in s.targets:
                nxt = []
                for b, o in cur:
                    nxt += self.assign(t, v, b, fr) if o is NORMAL else [(b, o)]
                cur = nxt
            out += cur
        return out

    def x_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, NORMAL)]
        out = []
        for a, v in self.eval(s.value, st, fr):
            if isinstance(v, Raised):
                out.append((a, ("raise", v.exc)))
            else:
                ty = self.ann_type(fr.module, s.annotation)
                if ty is not None and v not in self.types and v[0] in ("o", "call", "phi") and self.typeof(v) in (None, ("x", "builtins.dict", ()), ("x", "builtins.list", ()), ("x", "builtins.set", ())):
                    self.types[v] = ty
                    self._tcache.pop(v, None)
                out += self.assign(s.target, v, a, fr)
        return out

    def x_AugAssign(self, s, st, fr):
        t = s.target
        load = ast.copy_location(
            ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name)
            else ast.Attribute(t.value, t.attr, ast.Load()) if isinstance(t, ast.Attribute)
            else ast.Subscript(t.value, t.slice, ast.Load()), t)
        e = ast.copy_location(ast.BinOp(load, s.op, s.value), s)
        out = []
        names = {ast.Add: {"list": "extend"}, ast.BitOr: {"dict": "update", "set": "update"}}.get(type(s.op))
        if names:
            rest = []
            for a, v in self.eval(load, st, fr):
                c = self.content(a, v) if not isinstance(v, Raised) and v[0] == "o" else None
                kind = None if c is None else {"set": "set", "dict": "dict", "list": "list"}.get(v[2] if v[2] in ("list", "dict", "set") else c[0])
                if kind not in names:
                    rest.append(a)
                    continue
                call = ast.Expr(ast.Call(ast.Attribute(load, names[kind], ast.Load()), [s.value], []))
                out += self.exec_block([ast.fix_missing_locations(ast.copy_location(call, s))], a, fr)
            if not rest:
                return out
            st = rest[0]
        for a, v in self.eval(e, st, fr):
            if isinstance(v, Raised):
                out.append((a, ("raise", v.exc)))
            else:
                out += self.assign(t, v, a, fr)
        return out

    def setvar(self, st, fr, name, v):
        cur = st.vars.get((fr.fid, name))
        if cur is not None and cur[0] == "GLOBAL":
            st.heap[(("gv", cur[1], cur[2]), "=")] = v
            self.emit(st, ("gstore", cur[1] + "." + cur[2], v, ""))
        else:
            st.vars[(fr.fid, name)] = v

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st = st.copy()
            self.setvar(st, fr, t.id, v)
            return [(st, NORMAL)]
        if isinstance(t, (ast.Tuple, ast.List)):
            st = st.copy()
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            c = self.content(st, v) or v
            if c[0] == "op" and c[1] in ("zip", "enumerate", "range", "reversed", "iter", "list", "tuple", ".items", ".keys", ".values") and (li := self.literal_items(st, c)) is not None:
                c = ("tup", tuple(li))
            cur = [(st, NORMAL)]
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    if c[0] in ("tup", "list"):
                        iv = ("tup", tuple(c[1][i : len(c[1]) - (n - 1 - i)]))
                    else:
                        iv = ("op", "slice", v, C(i), C(i - n + 1) if i < n - 1 else NONE, NONE)
                    x = x.value
                elif c[0] in ("tup", "list") and not star and len(c[1]) == n and not any(y[0] == "*" for y in c[1]):
                    iv = c[1][i]
                elif c[0] in ("tup", "list") and star:
                    iv = c[1][i if i < star[0] else i - n]
                else:
                    iv = self.item(v, i if not star or i < star[0] else i - n)
                nxt = []
                for b, o in cur:
                    nxt += self.assign(x, iv, b, fr) if o is NORMAL else [(b, o)]
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for a, b in self.eval(t.value, st, fr):
                if isinstance(b, Raised):
                    out.append((a, ("raise", b.exc)))
                    continue
                a = a.copy()
                if b[0] == "m":
                    pass
                a.heap[(b, t.attr)] = v
                self.emit(a, ("store", b, t.attr, v, self.site(t, fr)))
                out.append((a, NORMAL))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, vs in self.evals([t.value, t.slice], st, fr):
                if isinstance(vs, Raised):
                    out.append((a, ("raise", vs.exc)))
                    continue
                b, k = vs
                a = a.copy()
                self.setitem(a, b, k, v)
                self.emit(a, ("setitem", b, k, v, self.site(t, fr)))
                out.append((a, NORMAL))
            return out
        return [(st, NORMAL)]

    def setitem(self, st, b, k, v):
        c = self.content(st, b)
        if c is not None and c[0] == "dict":
            ent = [(a, x) for a, x in c[1] if a != k]
            st.heap[(b, "#")] = ("dict", tuple(ent + [(k, v)]))
        elif c is not None and c[0] == "list" and k[0] == "c" and isinstance(k[2], int) and -len(c[1]) <= k[2] < len(c[1]):
            l = list(c[1])
            l[k[2]] = v
            st.heap[(b, "#")] = ("list", tuple(l))
        elif c is not None and c[0] == "g" and c[1] == "dict":
            st.heap[(b, "#")] = ("dict", (("**", c), (k, v)))
        else:
            st.heap[(b, ("[]", k))] = v

    def x_Delete(self, s, st, fr):
        out = [(st, NORMAL)]
        for t in s.targets:
            nxt = []
            for a, o in out:
                if o is not NORMAL:
                    nxt.append((a, o))
                elif isinstance(t, ast.Name):
                    a.vars.pop((fr.fid, t.id), None)
                    nxt.append((a, NORMAL))
                elif isinstance(t, ast.Subscript):
                    for b, vs in self.evals([t.value, t.slice], a, fr):
                        if isinstance(vs, Raised):
                            nxt.append((b, ("raise", vs.exc)))
                            continue
                        b = b.copy()
                        c = self.content(b, vs[0])
                        if c is not None and c[0] == "dict":
                            b.heap[(vs[0], "#")] = ("dict", tuple((x, y) for x, y in c[1] if x != vs[1]))
                        else:
                            self.note_mut(b, vs[0], "del", (vs[1],))
                        self.emit(b, ("delitem", vs[0], vs[1], self.site(t, fr)))
                        nxt.append((b, NORMAL))
                elif isinstance(t, ast.Attribute):
                    for b, v in self.eval(t.value, a, fr):
                        self.emit(b, ("delattr", v, t.attr, self.site(t, fr)))
                        nxt.append((b, NORMAL))
                else:
                    nxt.append((a, NORMAL))
            out = nxt
        return out

    def note_mut(self, st, t, name, args):
        key = (t, "#muts")
        prev = st.heap.get(key, ())
        if len(prev) < 40:
            st.heap[key] = prev + ((name, args),)

    # ------------------------------------------------------------------- try
    def exc_match(self, exc, hname):
        tail = hname.split(".")[-1]
        n = exc[1]
        if tail == "BaseException":
            return "yes"
        if n == "?B":
            return "no"
        if tail == "Exception":
            ntail = n.split(".")[-1]
            o = BUILTIN_EXC.get(ntail)
            if o is not None and not issubclass(o, Exception):
                return "no"
            return "yes"
        if n == "?":
            if len(exc) > 3 and ("not", hname) in exc[3]:
                return "no"
            return "maybe"
        if n == hname or n.split(".")[-1] == tail:
            return "yes"
        if n in self.prog.classes:
            c = self.prog.classes[n]
            if any(x.qual == hname for x in c.mro()):
                return "yes"
            if hname in self.prog.classes:
                return "no"
            for b in c.ext_bases():
                o = BUILTIN_EXC.get(b.split(".")[-1])
                h = BUILTIN_EXC.get(tail)
                if o and h and issubclass(o, h):
                    return "yes"
            return "no"
        o, h = BUILTIN_EXC.get(n.split(".")[-1]), BUILTIN_EXC.get(tail)
        if o and h:
            return "yes" if issubclass(o, h) else "no"
        return "no"

    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in els:
            r = self.eval(e, st, fr)
            t = r[0][1] if r and not isinstance(r[0][1], Raised) else None
            if t is not None and t[0] == "tup":
                out += [cls_name(x) or "?" for x in t[1]]
                continue
            n = cls_name(t) if t is not None else None
            out.append(n or ast.unparse(e))
        return out

    def x_Try(self, s, st, fr):
        res = []
        for a, o in self.exec_block(s.body, st, fr):
            if o[0] == "raise":
                res += self.handle(s, a, o[1], fr)
            elif o is NORMAL and s.orelse:
                res += self.exec_block(s.orelse, a, fr)
            else:
                res.append((a, o))
        if not s.finalbody:
            return res
        out = []
        for a, o in res:
            if o[0] == "cut" or o[0] == "raise" and o[1][1] == "<cut>":
                out.append((a, o))
                continue
            for b, o2 in self.exec_block(s.finalbody, a, fr):
                out.append((b, o if o2 is NORMAL else o2))
        return out

    x_TryStar = x_Try

    def handle(self, s, st, exc, fr):
        if exc[1] == "<cut>":
            return [(st, ("raise", exc))]
        out = []
        pend = [(st, exc)]
        for h in s.handlers:
            names = self.handler_names(h, st, fr)
            nxt = []
            for a, e in pend:
                remaining = [(a, e)]
                for n in names:
                    rem2 = []
                    for b, ee in remaining:
                        m = self.exc_match(ee, n)
                        if m == "no":
                            rem2.append((b, ee))
                            continue
                        if m == "maybe":
                            neg = ee[3] if len(ee) > 3 else ()
                            rem2.append((b.copy(), ("exc", ee[1], ee[2], neg + (("not", n),)) + tuple(ee[4:])))
                            caught = ("exc", n, ee[2])
                        else:
                            caught = ee
                        c = b.copy()
                        old = c.vars.get((fr.fid, "%exc"))
                        if h.name:
                            c.vars[(fr.fid, h.name)] = caught
                        c.vars[(fr.fid, "%exc")] = caught
                        self.emit(c, ("except", caught, self.site(h, fr)))
                        for d, o in self.exec_block(h.body, c, fr):
                            d.vars.pop((fr.fid, "%exc"), None)
                            if h.name:
                                d.vars.pop((fr.fid, h.name), None)
                            if old is not None:
                                d.vars[(fr.fid, "%exc")] = old
                            out.append((d, o))
                    remaining = rem2
                nxt += remaining
            pend = nxt
        out += [(a, ("raise", e)) for a, e in pend]
        return out

    # ------------------------------------------------------------------ with
    def x_With(self, s, st, fr):
        return self.with_items(s, s.items, st, fr)

    def with_items(self, s, items, st, fr):
        if not items:
            return self.exec_block(s.body, st, fr)
        it, rest = items[0], items[1:]
        return self.with_cm(it.context_expr, it.optional_vars, st, fr, lambda a: self.with_items(s, rest, a, fr), s)

    def with_cm(self, expr, target, st, fr, body, node):
        out = []
        call = expr if isinstance(expr, ast.Call) else None
        if call is not None:
            # repository @contextmanager: run its generator around the body
            for a, f in self.eval_func(call, st, fr):
                if isinstance(f, Raised):
                    out.append((a, ("raise", f.exc)))
                    continue
                fn, recv = self.callee(f)
                if fn is None and f[0] not in ("k", "x", "fn", "bm", "lam"):
                    cm = self.callable_class(f)
                    if cm is not None:
                        fn, recv = cm, f
                if fn is not None and fn.is_cm and not self.is_opaque(fn, f, fr):
                    for b, ar in self.eval_args(call, a, fr):
                        if isinstance(ar, Raised):
                            out.append((b, ("raise", ar.exc)))
                            continue
                        out += self.inline_cm(fn, recv, ar, b, fr, call, target, body)
                    continue
                for b, ar in self.eval_args(call, a, fr):
                    if isinstance(ar, Raised):
                        out.append((b, ("raise", ar.exc)))
                        continue
                    if f[0] == "x" and f[1].split(".")[-1] == "suppress":
                        for c, o in body(b):
                            if o[0] == "raise":
                                handled = False
                                for x in ar[0]:
                                    if self.exc_match(o[1], cls_name(x) or "?") != "no":
                                        handled = True
                                out.append((c, NORMAL if handled else o))
                            else:
                                out.append((c, o))
                        continue
                    if f[0] == "x" and f[1].split(".")[-1] == "closing" and len(ar[0]) == 1:
                        out += self.ext_cm(ar[0][0], target, b, fr, body, node)
                        continue
                    if f[0] == "x" and f[1].split(".")[-1] == "nullcontext":
                        v = ar[0][0] if ar[0] else NONE
                        for c, o in self.assign(target, v, b, fr) if target is not None else [(b, NORMAL)]:
                            out += body(c)
                        continue
                    for c, v in self.apply(f, ar, b, fr, call):
                        if isinstance(v, Raised):
                            out.append((c, ("raise", v.exc)))
                        else:
                            out += self.ext_cm(v, target, c, fr, body, node)
            return out
        for a, v in self.eval(expr, st, fr):
            if isinstance(v, Raised):
                out.append((a, ("raise", v.exc)))
            else:
                out += self.ext_cm(v, target, a, fr, body, node)
        return out

    def ext_cm(self, v, target, st, fr, body, node):
        """An external (or opaque) context manager: enter, body, always exit."""
        out = []
        st = st.copy()
        site = self.site(node, fr)
        if v[0] == "lamcm":
            return v[1](target, st, fr, body)
        ty = self.strip_opt(self.typeof(v))
        if ty is not None and ty[0] == "k" and v[0] in ("o", "p", "a"):
            c = self.prog.classes[ty[1]]
            en, ex = c.find_method("__enter__"), c.find_method("__exit__")
            if en is not None and ex is not None:
                return self.class_cm(v, en, ex, target, st, fr, body, node)
        if self.exc and self.may_raise_enter(v):
            e = st.copy()
            self.emit(e, ("enterexc", v, site))
            for x in self.enter_excs(v):
                out.append((e.copy(), ("raise", ("exc", x, ("enter", site)))))
        self.emit(st, ("enter", v, site))
        bound = [(st, NORMAL)]
        if target is not None:
            bound = self.assign(target, ("ent", v), st, fr)
        for a, o in bound:
            for b, o2 in body(a):
                b = b.copy()
                self.emit(b, ("exit", v, o2[0], site))
                out.append((b, o2))
        return out

    def class_cm(self, v, en, ex, target, st, fr, body, node):
        out = []
        for a, r in self.call_func(en, v, ((), ()), st, fr, node):
            if isinstance(r, Raised):
                out.append((a, ("raise", r.exc)))
                continue
            bound = self.assign(target, r, a, fr) if target is not None else [(a, NORMAL)]
            for b, _ in bound:
                for c, o in body(b):
                    et = o[1] if o[0] == "raise" else NONE
                    for d, r2 in self.call_func(ex, v, ((et, et, et), ()), c, fr, node):
                        if isinstance(r2, Raised):
                            out.append((d, ("raise", r2.exc)))
                        elif o[0] == "raise":
                            for e, sup in self.branch(d, r2):
                                out.append((e, NORMAL if sup else o))
                        else:
                            out.append((d, o))
        return out

    def may_raise_enter(self, v):
        return True

    def enter_excs(self, v):
        if v[0] == "call" and v[2] == "portalocker.Lock":
            return ["portalocker.exceptions.LockException"]
        if v[0] == "call" and v[2] in self.raises:
            return self.raises[v[2]]
        return ["?"]

    def inline_cm(self, fn, recv, ar, st, fr, call, target, body):
        self.stats["functions"].add(fn.qual)
        nfr, binds = self.new_frame(fn, recv, ar, st, fr, call)
        out = []

        def handler(a, val, site):
            r = []
            bound = self.assign(target, val, a, fr) if target is not None else [(a, NORMAL)]
            for b, o in bound:
                r += body(b)
            return r

        nfr.yield_handler = handler
        for b in binds:
            for c, o in self.exec_block(fn.node.body, b, nfr):
                self.drop_frame(c, nfr)
                pend = [p for p in c.pend if p[0] == nfr.fid]
                if pend:
                    c.pend = tuple(p for p in c.pend if p[0] != nfr.fid)
                if o[0] == "raise":
                    out.append((c, o))
                elif pend:
                    out.append((c, pend[-1][1]))
                else:
                    out.append((c, NORMAL))
        return out

    # ----------------------------------------------------------------- loops
    def x_While(self, s, st, fr):
        return self.loop(s, st, fr, None)

    def x_For(self, s, st, fr):
        out = []
        for a, itv in self.eval(s.iter, st, fr):
            if isinstance(itv, Raised):
                out.append((a, ("raise", itv.exc)))
                continue
            items = self.literal_items(a, itv)
            if items is not None and len(items) <= self.literal_limit:
                out += self.unroll_for(s, a, fr, items)
                continue
            acc = self.try_accumulate(s, a, fr, itv)
            if acc is not None:
                out += acc
                continue
            out += self.loop(s, a, fr, itv)
        return out

    def literal_items(self, st, t):
        c = self.content(st, t) if t[0] == "o" else t
        if c is None:
            return None
        if c[0] in ("tup", "list", "set"):
            if any(x[0] in ("*", "**") for x in c[1]):
                return None
            return c[1]
        if c[0] == "dict":
            if any(k == "**" for k, _ in c[1]):
                return None
            return tuple(k for k, _ in c[1])
        if c[0] == "op" and c[1] in (".items", ".keys", ".values"):
            d = self.content(st, c[2]) if c[2][0] == "o" else c[2]
            if d is not None and d[0] == "dict" and all(k != "**" for k, _ in d[1]):
                if c[1] == ".items":
                    return tuple(("tup", (k, v)) for k, v in d[1])
                return tuple(k if c[1] == ".keys" else v for k, v in d[1])
            return None
        if c[0] == "op" and c[1] == "enumerate" and len(c) in (3, 4):
            its = self.literal_items(st, c[2])
            first = c[3] if len(c) == 4 else C(0)
            if first[0] == "kw":
                first = first[2]
            if its is not None and first[0] == "c" and first[1] == "int":
                return tuple(("tup", (C(i), x)) for i, x in enumerate(its, first[2]))
        if c[0] == "op" and c[1] == "range" and all(x[0] == "c" for x in c[2:]):
            try:
                r = range(*[x[2] for x in c[2:]])
                if len(r) <= self.literal_limit:
                    return tuple(C(i) for i in r)
            except Exception:
                return None
        if c[0] == "op" and c[1] in ("zip",) and len(c) >= 3:
            ls = [self.literal_items(st, x) for x in c[2:] if not (x[0] == "kw")]
            if all(l is not None for l in ls) and ls:
                return tuple(("tup", tuple(x)) for x in zip(*ls))
        if c[0] == "op" and c[1] in ("list", "tuple", "iter") and len(c) == 3:
            return self.literal_items(st, c[2])
        if c[0] == "op" and c[1] == "reversed" and len(c) == 3:
            l = self.literal_items(st, c[2])
            return tuple(reversed(l)) if l is not None else None
        if c[0] == "op" and c[1] == "sorted" and len(c) >= 3:
            l = self.literal_items(st, c[2])
            if l is None:
                return None
            key, rev = ("EL",), False
            for x in c[3:]:
                if x[0] == "keyfn":
                    key = x[1]
                elif x[0] == "reverse" and x[1][0] == "c":
                    rev = bool(x[1][2])
                else:
                    return None
            ks = []
            for it in l:
                if key == ("EL",):
                    k = it[1][0] if it[0] == "tup" and it[1] else it
                elif key == ("it", ("EL",), 0) and it[0] == "tup" and it[1]:
                    k = it[1][0]
                else:
                    return None
                if k[0] != "c":
                    return None
                ks.append(k[2])
            if len(set(map(repr, ks))) != len(ks):
                return None
            try:
                return tuple(x for _, x in sorted(zip(ks, l), key=lambda z: z[0], reverse=rev))
            except TypeError:
                return None
        if c[0] == "k" and c[1] in self.prog.classes and self.prog.classes[c[1]].is_enum:
            return tuple(("enum", c[1], n) for n in self.prog.classes[c[1]].enum_members())
        return None

    def unroll_for(self, s, st, fr, items):
        cur = [st]
        out = []
        for x in items:
            nxt = []
            for a in cur:
                for b, o in self.assign(s.target, x, a, fr):
                    for c, o2 in self.exec_block(s.body, b, fr):
                        if o2 is NORMAL or o2 is CONTINUE:
                            nxt.append(c)
                        elif o2 is BREAK:
                            out.append((c, NORMAL))
                        else:
                            out.append((c, o2))
            cur = dedupe(nxt)
        for a in cur:
            out += self.exec_block(s.orelse, a, fr) if s.orelse else [(a, NORMAL)]
        return out

    def loop(self, s, st, fr, itv):
        self.stats["loops"].add(self.site(s, fr))
        entry = st
        out = []
        work = [(st, 0)]
        seen = set()
        limit = 3000
        trace = self.monitor is None
        steps = 0
        while work:
            cur, n = work.pop()
            k = cur.key()
            if (k, n if trace else 0) in seen:
                continue
            seen.add((k, n if trace else 0))
            if len(seen) > limit:
                raise Limit(f"loop at {self.site(s, fr)} does not converge")
            heads = []
            decided = False
            if itv is None:
                tests = self.cond(s.test, cur, fr)
                # an iteration that the literals decide does not count
                decided = self.literal_limit > 14 and steps < 4 * self.literal_limit and not isinstance(s.test, ast.Constant) and len(tests) == 1 and tests[0][1] is True and tests[0][0].facts == cur.facts
                steps += decided
                for a, b in tests:
                    if isinstance(b, Raised):
                        out.append((a, ("raise", b.exc)))
                    elif b:
                        heads.append(a)
                    else:
                        out += self.exec_block(s.orelse, a, fr) if s.orelse else [(a, NORMAL)]
            else:
                e = cur.copy()
                out += self.exec_block(s.orelse, e, fr) if s.orelse else [(e, NORMAL)]
                b = cur.copy()
                u = self.uid(b, s, fr)
                alts = self.plain_gather(b, itv)
                if alts is None:
                    for c, o in self.assign(s.target, self.elem(itv, u), b, fr):
                        heads.append(c)
                else:
                    # the elements of a filtered (or projected) collection are those of the source
                    src, cases = alts
                    el = self.elem(src, u)
                    back = lambda t: el if t == ("EL",) else None
                    for lits, v in cases:
                        d = b.copy()
                        lits = [(rewrite(a, back), x) for a, x in lits]
                        if any(d.facts.get(a, x) != x for a, x in lits):
                            continue
                        d.facts.update(lits)
                        for c, o in self.assign(s.target, rewrite(v, back), d, fr):
                            heads.append(c)
            if trace and n >= self.unroll and not decided:
                if itv is None:
                    # a further iteration exists but is cut here; keep the prefix only
                    for a in heads:
                        out.append((a, ("cut",)))
                continue
            for a in heads:
                for b, o in self.exec_block(s.body, a, fr):
                    if o is NORMAL or o is CONTINUE:
                        work.append((b if trace else self.backedge(b, entry, s, fr), n if decided else n + 1))
                    elif o is BREAK:
                        out.append((b, NORMAL))
                    else:
                        out.append((b, o))
        return dedupe_o(out)

    def backedge(self, st, entry, s, fr):
        st = st.copy()
        lo, hi = s.lineno, s.end_lineno
        newsites = {k for k, v in st.cnt.items() if v > entry.cnt.get(k, 0)}

        def ren(t):
            if t and t[0] == "call" and isinstance(t[1], tuple) and t[1] and t[1][0] in newsites:
                tag = t[1][1]
                nt = "q" if tag in ("p", "q") else "p"
                return ("call", (t[1][0], nt)) + tuple(rewrite(x, ren) if isinstance(x, tuple) else x for x in t[2:])
            if len(t) == 3 and t[0] in ("o", "el", "?") and isinstance(t[1], tuple) and t[1] and isinstance(t[1], tuple) and t[1][0] in newsites:
                tag = t[1][1]
                nt = "q" if tag in ("p", "q") else "p"
                return (t[0], (t[1][0], nt)) + t[2:]
            if t and t[0] == "exc" and len(t) > 2 and isinstance(t[2], tuple) and t[2] and t[2][0] in newsites:
                tag = t[2][1]
                nt = "q" if tag in ("p", "q") else "p"
                return ("exc", t[1], (t[2][0], nt)) + tuple(t[3:])
            return None

        memo = {}
        st.vars = {k: rewrite(v, ren, memo) for k, v in st.vars.items()}
        st.heap = {(rewrite(k[0], ren, memo), k[1]): (rewrite(v, ren, memo) if isinstance(v, tuple) else v) for k, v in st.heap.items()}
        nf = {}
        for a, v in st.facts.items():
            b = rewrite(a, ren, memo)
            if b in nf and nf[b] != v:
                nf[b] = None
            else:
                nf[b] = v
        st.facts = {a: v for a, v in nf.items() if v is not None and not mentions(a, lambda x: x and x[0] in ("call", "o", "el", "?") and len(x) > 1 and isinstance(x[1], tuple) and len(x[1]) == 2 and x[1][1] == "q")}
        st.cnt = dict(entry.cnt)
        if self.monitor is not None and isinstance(st.ev, tuple):
            st.ev = rewrite(st.ev, ren, memo)
        # widen
        lid = self.site(s, fr)

        def widen(key, old, new):
            if new == old:
                return new
            if new[0] == "c":
                if isinstance(new[2], bool) or not isinstance(new[2], int):
                    return new
                return new if abs(new[2]) <= 2 else ("ivl", 3) if new[2] > 0 else ("phi", lid, key)
            if new[0] == "ivl":
                return ("ivl", min(new[1], 3))
            if new[0] in ("bin",) or size(new) > 60:
                return ("phi", lid, key)
            return new

        for k, v in list(st.vars.items()):
            o = entry.vars.get(k)
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                st.vars[k] = widen(("v", k[1]), o, v)
        for k, v in list(st.heap.items()):
            o = entry.heap.get(k)
            if isinstance(v, tuple) and v and isinstance(v[0], str) and k[1] != "#muts":
                if v != o and k[1] == "#":
                    st.heap[k] = self.widen_content(k, o, v, lid)
                else:
                    st.heap[k] = widen(("h",) + ((show(k[0]), k[1]) if True else ()), o, v)
            elif k[1] == "#muts" and v != o:
                st.heap[k] = (("*",),)
        # loop-local names do not survive to the next iteration as facts
        for n in self.dead_names(s, fr):
            if (fr.fid, n) not in entry.vars:
                st.vars.pop((fr.fid, n), None)
            else:
                st.vars[(fr.fid, n)] = entry.vars[(fr.fid, n)]
        self.gc(st, entry)
        return st

    def widen_content(self, k, old, new, lid):
        if old is not None and old[0] == new[0] == "dict":
            ok = {a: b for a, b in old[1]}
            ent = []
            extra = False
            for a, b in new[1]:
                if a in ok:
                    ent.append((a, b if b == ok[a] or (b[0] == "c" and not isinstance(b[2], (int, float))) else ("phi", lid, ("d", sortkey(a)))))
                else:
                    extra = True
            if extra:
                return ("dict", tuple(ent) + (("**", ("phi", lid, ("d", show(k[0])))),))
            return ("dict", tuple(ent))
        return ("phi", lid, ("d", show(k[0]), k[1]))

    def dead_names(self, s, fr):
        """Names the loop assigns before reading and nobody reads after it."""
        r = self.loops.get(id(s))
        if r is not None:
            return r
        assigned = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        assigned |= {h.name for x in s.body for h in ast.walk(x) if isinstance(h, ast.ExceptHandler) and h.name}
        if isinstance(s, ast.For):
            assigned |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        out = set()
        if fr.func is not None:
            inner = {id(n) for n in ast.walk(s)}
            outside = {n.id for n in ast.walk(fr.func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and id(n) not in inner}
            glob = {x for n in ast.walk(fr.func.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            nested = {n.id for f in ast.walk(fr.func.node) if isinstance(f, (ast.Lambda, ast.FunctionDef)) and f is not fr.func.node for n in ast.walk(f) if isinstance(n, ast.Name)}
            test = [s.test] if isinstance(s, ast.While) else [s.iter]
            head = {n.id for t in test for n in ast.walk(t) if isinstance(n, ast.Name)}
            els = {n.id for x in s.orelse for n in ast.walk(x) if isinstance(n, ast.Name)}
            for n in assigned - outside - glob - nested - head - els:
                tgt = isinstance(s, ast.For) and any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(s.target))
                if tgt or not _rbw(s.body, n)[0]:
                    out.add(n)
        self.loops[id(s)] = out
        return out

    def gc(self, st, entry):
        live = set()

        def add(t):
            for x in subterms(t):
                if x and x[0] in ("call", "o", "el", "?", "phi", "exc"):
                    live.add(x)

        for v in st.vars.values():
            if isinstance(v, tuple):
                add(v)
        if isinstance(st.ev, tuple):
            add(st.ev)
        changed = True
        keys = list(st.heap.items())
        for (b, n), v in keys:
            if not mentions(b, lambda x: x and x[0] in ("call", "o", "el", "?")):
                if isinstance(v, tuple):
                    add(v)
        while changed:
            changed = False
            for (b, n), v in keys:
                if isinstance(v, tuple) and any(x in live for x in subterms(b)):
                    before = len(live)
                    add(v)
                    add(b)
                    if len(live) != before:
                        changed = True

        def alive(t):
            ids = [x for x in subterms(t) if x and x[0] in ("call", "o", "el", "?", "phi", "exc")]
            return all(x in live for x in ids)

        st.heap = {k: v for k, v in st.heap.items() if alive(k[0])}
        st.facts = {a: v for a, v in st.facts.items() if alive(a)}

    def elem(self, itv, uid):
        return ("el", uid, itv)

    def plain_gather(self, st, itv):
        """Source and cases of a list made by selecting (parts of) the items of another collection."""
        g = self.content(st, itv) if itv[0] == "o" else itv
        if g is None or g[0] != "g" or g[1] not in ("list", "gen", "iter") or g[2][0] in ("flat", "g") or len(g) > 4 and g[4] is not None:
            return None

        def part(v):
            return v == ("EL",) or v[0] == "it" and part(v[1]) or v[0] == "tup" and all(part(x) for x in v[1])

        if not all(part(v) and not any(x and x[0] in ("call", "o") and isinstance(x[1], tuple) and x[1][:1] == ("g",) for a, _ in lits for x in subterms(a)) for lits, v in g[3]):
            return None
        return g[2], g[3]

    # -------------------------------------------------- accumulation summary
    def try_accumulate(self, s, st, fr, itv):
        if s.orelse:
            return None
        # syntactic pre-check: no break/return/yield, accumulators only updated
        aug, stored = set(), set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Delete, ast.While, ast.Raise, ast.Try, ast.With)):
                return None
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        assigned = set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
        loads = {}
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                loads[n.id] = loads.get(n.id, 0) + 1
        sub = st.copy()
        sub.facts = dict(st.facts)
        mon, self.monitor = self.monitor, None
        ev0, sub.ev = sub.ev, ()
        before_heap = dict(st.heap)
        known = _uids(st)
        try:
            el = ("el", ("acc", self.site(s, fr)), itv)
            paths = []
            for a, o in self.assign(s.target, el, sub, fr):
                paths += self.exec_block(s.body, a, fr)
        finally:
            self.monitor = mon
        pre = {n: st.vars.get((fr.fid, n)) for n in assigned}
        carried = [n for n in assigned if pre[n] is not None and n not in tnames]
        raised = []
        accs = {}
        good = []
        for a, o in paths:
            if o[0] == "raise":
                raised.append((a, o))
                continue
            if o not in (NORMAL, CONTINUE):
                return None
            good.append(a)
        evs = []
        alt_list = []
        for a in good:
            lits = tuple(sorted(((k, v) for k, v in a.facts.items() if k not in st.facts), key=repr))
            contrib = {}
            for n in carried:
                old, new = pre[n], a.vars.get((fr.fid, n))
                if new == old:
                    continue
                if old[0] == "c" and isinstance(old[2], (int, float)) and not isinstance(old[2], bool):
                    if new[0] == "c" and isinstance(new[2], (int, float)):
                        contrib[("v", n)] = ("sum", C(new[2] - old[2]))
                        continue
                if new[0] == "bin" and new[1] == "+" and (new[2] == old or new[3] == old):
                    contrib[("v", n)] = ("sum", new[3] if new[2] == old else new[2])
                    continue
                # a temporary that shadows an earlier value and is not carried
                if self._assigned_first(s.body, n):
                    continue
                return None
            for k, v in a.heap.items():
                if k in before_heap and before_heap[k] == v:
                    continue
                if k[1] == "#" and k in before_heap:
                    old = before_heap[k]
                    c = self._diff(old, v)
                    if c is None:
                        return None
                    if any(x and x[0] == "o" and x not in known for x in subterms(c[1])):
                        c = (c[0], freeze(a, c[1]))
                    contrib[("o", k[0])] = c
                elif k[0] and mentions(k[0], lambda x: x == el or (x and x[0] in ("call", "o") and isinstance(x[1], tuple) and x not in _uids(st))):
                    continue  # object created in (or belonging to) this iteration
                elif k not in before_heap and k[0][0] == "o" and (k[0], "#") not in before_heap and k[0] not in _uids(st):
                    continue
                else:
                    return None
            for e in a.ev:
                if e[0] in ("setitem", "mut", "acc"):
                    continue
                if e not in evs:
                    evs.append(e)
            alt_list.append((lits, contrib))
        names = {c for _, contrib in alt_list for c in contrib}
        if not names:
            return None
        # accumulators must not be read otherwise
        for lits, contrib in alt_list:
            for c, (kind, e) in contrib.items():
                for n in names:
                    if n[0] == "o" and (contains(e, n[1]) or any(contains(l[0], n[1]) for l in lits)):
                        return None
        for n in names:
            if n[0] == "v":
                # loads other than the update itself
                upd = sum(1 for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n[1] for t in x.targets))
                if loads.get(n[1], 0) > upd:
                    return None
        res = st.copy()
        for n in assigned | tnames:
            if n not in carried:
                res.vars[(fr.fid, n)] = ("phi", self.site(s, fr), ("v", n))
            elif ("v", n) not in names and pre[n] is not None and self._assigned_first(s.body, n):
                res.vars[(fr.fid, n)] = ("phi", self.site(s, fr), ("v", n))
        for n in sorted(names, key=repr):
            alts = []
            kinds = set()
            for lits, contrib in alt_list:
                if n in contrib:
                    kinds.add(contrib[n][0])
                    alts.append((lits, contrib[n][1]))
            if len(kinds) != 1:
                return None
            kind = kinds.pop()
            c0 = self.content(st, itv)
            g = self.mk_gather(kind, c0 if c0 is not None and c0[0] == "g" else itv, alts, el)
            if n[0] == "v":
                old = pre[n[1]]
                res.vars[(fr.fid, n[1])] = g if old[0] == "c" and old[2] == 0 else mkbin("+", old, g)
            else:
                old = before_heap[(n[1], "#")]
                if kind == "dict":
                    res.heap[(n[1], "#")] = g if not old[1] else ("dict", tuple(old[1]) + (("**", g),)) if old[0] == "dict" else ("dict", (("**", old), ("**", g)))
                else:
                    tag = old[0] if old[0] in ("list", "set") else kind
                    res.heap[(n[1], "#")] = g if old[0] in ("list", "set") and not old[1] else (tag, (tuple(old[1]) if old[0] in ("list", "set") else (("*", old),)) + (("*", g),))
        for e in evs:
            self.emit(res, e)
        out = [(res, NORMAL)]
        for a, o in raised[:1]:
            r = st.copy()
            out.append((r, o))
        return out

    @staticmethod
    def _assigned_first(body, name):
        """Is ``name`` unconditionally (re)assigned before any read in the loop body?"""
        for s in body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return not any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s.value))
            if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s)):
                return False
        return False

    @staticmethod
    def _diff(old, new):
        if old[0] in ("list", "set") and new[0] == old[0] and len(new[1]) == len(old[1]) + 1 and new[1][:-1] == old[1] and new[1][-1][0] != "*":
            return (old[0], new[1][-1])
        if old[0] == "g" and old[1] in ("list", "set") and new[0] == old[1] and len(new[1]) == 2 and new[1][0] == ("*", old):
            return (old[1], new[1][1])
        if old[0] == "dict" and new[0] == "dict" and len(new[1]) == len(old[1]) + 1 and new[1][:-1] == old[1] and new[1][-1][0] != "**" and new[1][-1][0][0] != "c":
            return ("dict", ("tup", new[1][-1]))
        return None

    def counted(self, alts):
        """Truth values that are added up count as one and nothing."""
        out = []
        for ls, e in alts:
            if e[0] == "c" and isinstance(e[2], bool):
                out.append((ls, C(int(e[2]))))
            elif e[0] in ("cmp", "not", "and", "or"):
                f = State()
                f.facts = dict(ls)
                for s, b in self.branch(f, e):
                    out.append((tuple(sorted(s.facts.items(), key=repr)), ONE if b else ZERO))
            else:
                out.append((ls, e))
        return tuple(sorted(set(out), key=repr))

    def mk_gather(self, kind, itv, alts, el, order=None):
        """Canonical gather term: elements produced for each item of ``itv``."""
        base = ("EL",)

        itv0 = itv
        # canonical iteration variable
        def ren(t):
            if t == el:
                return base
            return None

        out = []
        for lits, e in alts:
            uids = {}
            def ren2(t, uids=uids):
                if t == el or t and t[0] == "el" and t[1] == el[1]:
                    return base
                if t and t[0] == "call" and isinstance(t[1], tuple):
                    n = uids.setdefault(t[1], len(uids))
                    return ("call", ("g", n)) + tuple(rewrite(x, ren2) if isinstance(x, tuple) else x for x in t[2:])
                if t and t[0] == "o" and isinstance(t[1], tuple):
                    n = uids.setdefault(t[1], len(uids))
                    return ("o", ("g", n), t[2])
                return None
            ls = tuple(sorted(((rewrite(a, ren2), v) for a, v in lits), key=repr))
            out.append((ls, rewrite(e, ren2)))
        alts = out
        # iterating a dict / its values / its keys is iterating its items
        def sub_el(f):
            def r(t):
                if t == base:
                    return f
                return None
            return r
        if itv[0] == "op" and itv[1] in (".values", ".keys") and len(itv) == 3:
            f = ("it", base, 1 if itv[1] == ".values" else 0)
            alts = [(tuple((rewrite(a, sub_el(f)), v) for a, v in ls), rewrite(e, sub_el(f))) for ls, e in alts]
            itv = ("op", ".items", itv[2])
        else:
            ty = self.strip_opt(self.typeof(itv))
            if ty and ty[0] == "x" and ty[1].split(".")[-1] in ("dict", "Mapping") and itv[0] != "g":
                f = ("it", base, 0)
                alts = [(tuple((rewrite(a, sub_el(f)), v) for a, v in ls), rewrite(e, sub_el(f))) for ls, e in alts]
                itv = ("op", ".items", itv)
        if itv[0] == "op" and itv[1] in ("list", "iter", "tuple") and len(itv) == 3:
            itv = itv[2]
        if itv[0] == "op" and itv[1] == ".items" and len(itv) == 3:
            d = itv[2]
            def lk(t):
                if t[0] == "sub" and t[1] == d and t[2] == ("it", base, 0):
                    return ("it", base, 1)
                return None
            alts = [(tuple((rewrite(a, lk), v) for a, v in ls), rewrite(e, lk)) for ls, e in alts]
        inner = itv
        ordr = order
        if inner[0] == "op" and inner[1] == "sorted" and inner[2][0] == "g":
            ordr = ("sorted",) + inner[3:]
            key = inner[3] if len(inner) > 3 else None
            inner = inner[2]
            if ordr[1:] and inner[1] in ("list", "gen", "set"):
                pass
        if inner[0] == "op" and inner[1] == ".items" and inner[2][0] == "g" and inner[2][1] == "dict":
            inner = inner[2]
        if inner[0] == "g" and inner[1] in ("list", "gen", "set", "dict") and inner[4] is None:
            # compose
            res = []
            keyalts = []
            for ls1, e1 in inner[3]:
                def f2(t, e1=e1):
                    if t == base:
                        return e1
                    if t[0] == "it" and t[1] == base and e1[0] == "tup" and isinstance(t[2], int) and t[2] < len(e1[1]):
                        return e1[1][t[2]]
                    if t[0] == "sub" and t[1] == base and e1[0] == "tup" and t[2][0] == "c" and isinstance(t[2][2], int) and t[2][2] < len(e1[1]):
                        return e1[1][t[2][2]]
                    return None
                for ls2, e2 in alts:
                    d = dict(ls1)
                    ok = True
                    for a, v in ls2:
                        a2 = rewrite(a, f2)
                        a2, pol = self.norm_atom(a2)
                        v2 = v if pol else not v
                        dd = self.decide(_FactsOnly(d), a2)
                        if dd is None:
                            d[a2] = v2
                        elif dd != v2:
                            ok = False
                            break
                    if ok:
                        res.append((tuple(sorted(d.items(), key=repr)), rewrite(e2, f2)))
                if ordr and len(ordr) > 1 and ordr[1][0] == "keyfn":
                    keyalts.append((ls1, rewrite(ordr[1][1], f2)))
            if ordr:
                ordr = ("sorted", tuple(keyalts), tuple(x for x in ordr[2:]))
            return ("g", kind, inner[2], tuple(sorted(set(res), key=repr)), ordr)
        return ("g", kind, itv, tuple(sorted(set(alts), key=repr)), ordr)

    # ============================================================ conditions
    def cond(self, e, st, fr):
        self.tick()
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for a in cur:
                    for b, r in self.cond(v, a, fr):
                        if isinstance(r, Raised):
                            out.append((b, r))
                        elif r == isand:
                            nxt.append(b)
                        else:
                            out.append((b, r))
                cur = nxt
            return out + [(a, isand) for a in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, (not r) if not isinstance(r, Raised) else r) for a, r in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.Compare):
            return self.cond_compare(e, st, fr)
        if isinstance(e, ast.IfExp):
            out = []
            for a, r in self.cond(e.test, st, fr):
                if isinstance(r, Raised):
                    out.append((a, r))
                else:
                    out += self.cond(e.body if r else e.orelse, a, fr)
            return out
        out = []
        for a, v in self.eval(e, st, fr):
            if isinstance(v, Raised):
                out.append((a, v))
            else:
                out += self.branch(a, v)
        return out

    def cond_compare(self, e, st, fr):
        out = []
        cur = []
        for a, v in self.eval(e.left, st, fr):
            if isinstance(v, Raised):
                out.append((a, v))
            else:
                cur.append((a, v))
        for op, right in zip(e.ops, e.comparators):
            nxt = []
            for a, l in cur:
                for b, r in self.eval(right, a, fr):
                    if isinstance(r, Raised):
                        out.append((b, r))
                        continue
                    for c, t in self.branch_cmp(b, ("cmp", OPS[type(op)], l, r)):
                        if t:
                            nxt.append((c, r))
                        else:
                            out.append((c, False))
            cur = nxt
        return out + [(a, True) for a, _ in cur]

    # =========================================================== expressions
    def eval(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, ("?", self.uid(st, e, fr)))]
        return m(e, st, fr)

    def evals(self, es, st, fr):
        cur = [(st, ())]
        out = []
        for e in es:
            nxt = []
            for a, vs in cur:
                for b, v in self.eval(e, a, fr):
                    if isinstance(v, Raised):
                        out.append((b, v))
                    else:
                        nxt.append((b, vs + (v,)))
            cur = nxt
        return out + cur

    def e_Constant(self, e, st, fr):
        return [(st, C(e.value))]

    def e_Name(self, e, st, fr):
        return [(st, self.name(e.id, st, fr))]

    def name(self, n, st, fr):
        f = fr
        while f is not None:
            t = st.vars.get((f.fid, n))
            if t is not None:
                if t[0] == "GLOBAL":
                    return self.gread(st, t[1], t[2])
                return t
            f = f.parent
        r = self.prog.lookup(fr.module, n)
        if r is not None:
            if r[0] == "val" and isinstance(r[2], ast.AST):
                gm = r[1].name
                # global variable that some function reassigns?
                if self.is_mutable_global(r[1], self._val_name(r[1], r[2], n)):
                    return self.gread(st, gm, self._val_name(r[1], r[2], n))
            t = self.ref_term(r)
            if t is not None:
                return t
        if hasattr(builtins, n):
            return ("x", "builtins." + n)
        return ("free", n)

    def _val_name(self, m, e, default):
        for k, s in m.symbols.items():
            if isinstance(s, tuple) and s[0] == "val" and s[1] is e:
                return k
        return default

    def is_mutable_global(self, m, n):
        key = ("mg", m.name)
        s = self._tcache.get(key)
        if s is None:
            s = set()
            for node in ast.walk(m.tree):
                if isinstance(node, ast.Global):
                    s |= set(node.names)
                if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                own = {x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
                own |= {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for x in ast.walk(node):
                    b = None
                    if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                        b = x.value
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                        b = x.func.value
                    if isinstance(b, ast.Name) and b.id not in own:
                        sym = m.symbols.get(b.id)
                        if isinstance(sym, tuple) and sym[0] == "val" and isinstance(sym[1], (ast.Dict, ast.List, ast.Set, ast.Call)):
                            s.add(b.id)
            self._tcache[key] = s
        return n in s

    def gread(self, st, mod, n):
        v = st.heap.get((("gv", mod, n), "="))
        if v is not None:
            return v
        t = ("gv", mod, n)
        m = self.prog.modules.get(mod)
        if m is not None and t not in self.types:
            s = m.symbols.get(n)
            if s and s[0] == "val" and len(s) > 2:
                ty = self.ann_type(m, s[2])
                if ty:
                    self.types[t] = ty
        return t

    def e_NamedExpr(self, e, st, fr):
        out = []
        for a, v in self.eval(e.value, st, fr):
            if not isinstance(v, Raised):
                a = a.copy()
                self.setvar(a, fr, e.target.id, v)
            out.append((a, v))
        return out

    def e_Attribute(self, e, st, fr):
        out = []
        for a, b in self.eval(e.value, st, fr):
            if isinstance(b, Raised):
                out.append((a, b))
            else:
                out += self.getattr(b, e.attr, a, fr, e)
        return out

    def is_final(self, c, name, base):
        if base[0] == "o" or base in getattr(self, "exact", ()):
            return True
        f = c.find_method(name)
        return not any(name in k.methods for k in self.prog.subclasses(c))

    def getattr(self, b, name, st, fr, node):
        h = st.heap.get((b, name))
        if h is not None:
            return [(st, h)]
        k = b[0]
        if k == "op" and b[1] == "pathlib.Path" and len(b) == 3 and b[2][0] == "c" and isinstance(b[2][2], str) and name in ("name", "stem", "suffix"):
            import pathlib

            return [(st, C(getattr(pathlib.PurePosixPath(b[2][2]), name)))]
        if k == "op" and b[1] == "functools.partial" and len(b) > 2 and name == "func":
            return [(st, b[2])]
        if name == "__dict__" and k == "o" and b[2] in self.prog.classes and (b, "#muts") not in st.heap:
            return [self.mkobj(st, node, fr, "dict", ("dict", tuple((C(n), v) for (o, n), v in st.heap.items() if o == b and isinstance(n, str) and n != "#")))]
        if name == "__class__":
            if k == "o" and b[2] in self.prog.classes:
                return [(st, ("k", b[2]))]
            if b in getattr(self, "exact", ()):
                return [(st, ("k", self.typeof(b)[1]))]
        if k == "m":
            r = self.prog.attr_of(("mod", self.prog.modules[b[1]]), name)
            if r is not None and r[0] == "val" and self.is_mutable_global(r[1], name):
                return [(st, self.gread(st, r[1].name, name))]
            t = self.ref_term(r)
            return [(st, t if t is not None else ("x", b[1] + "." + name))]
        if k == "x":
            return [(st, ("x", b[1] + "." + name))]
        if k == "k":
            c = self.prog.classes[b[1]]
            if c.is_enum and name in c.enum_members():
                return [(st, ("enum", c.qual, name))]
            m = c.find_method(name)
            if m is not None:
                if m.kind == "class":
                    return [(st, ("bm", b, m.qual))]
                return [(st, ("fn", m.qual))]
            a = c.find_attr(name)
            if a is not None:
                if isinstance(a[1], Class):
                    return [(st, ("k", a[1].qual))]
                # a class level alias defined in the class body may refer to siblings
                if isinstance(a[1], ast.Name) and a[0].find_attr(a[1].id) is not None and a[1].id != name:
                    return self.getattr(("k", a[0].qual), a[1].id, st, fr, node)
                return [(st, self.ref_term(self.prog.attr_of(("cls", c), name)) or ("a", b, name))]
            return [(st, ("a", b, name))]
        if k == "enum":
            c = self.prog.classes[b[1]]
            if name == "value":
                v = self.prog.const_str(c.module, c.attrs[b[2]]) if isinstance(c.attrs[b[2]], ast.AST) else None
                if v is not None:
                    return [(st, C(v))]
            if name == "name":
                return [(st, C(b[2]))]
        if k == "new":
            for n, v in b[2]:
                if n == name:
                    return [(st, v)]
        ty = self.owner_type(b, name)
        if ty is not None and ty[0] == "k":
            c = self.prog.classes[ty[1]]
            m = c.find_method(name)
            if m is not None:
                if m.is_property:
                    if m.is_abstract or not self.is_final(c, name, b) or self.is_opaque(m, ("bm", b, m.qual), fr):
                        return [(st, ("a", b, name))]
                    return self.call_func(m, b, ((), ()), st, fr, node)
                return [(st, ("bm", b, m.qual))]
            a = c.find_attr(name)
            if a is not None and (name not in [f[0] for f in c.all_fields()]):
                if isinstance(a[1], Class):
                    return [(st, ("k", a[1].qual))]
                t = self.getattr(("k", c.qual), name, st, fr, node)
                return t
        return [(st, ("a", b, name))]

    def e_Subscript(self, e, st, fr):
        out = []
        if isinstance(e.slice, ast.Slice):
            for a, vs in self.evals([e.value] + [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None], st, fr):
                if isinstance(vs, Raised):
                    out.append((a, vs))
                    continue
                b = vs[0]
                parts = iter(vs[1:])
                lo, hi, sp = (next(parts) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step))
                c = self.content(a, b) or b
                if c[0] in ("tup", "list") and all(x[0] == "c" for x in (lo, hi, sp)) and not any(y[0] == "*" for y in c[1]):
                    out.append((a, ("tup", tuple(c[1][lo[2] : hi[2] : sp[2]]))))
                else:
                    out.append((a, ("op", "slice", b, lo, hi, sp)))
            return out
        for a, vs in self.evals([e.value, e.slice], st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            out += self.subscript(vs[0], vs[1], a, fr, e)
        return out

    def lookup(self, c, k, st):
        """A key that is not known, looked up in a small table with known keys: one case per
        entry -> [(state, value or None)], or None if the table is no such table."""
        if not (1 < len(c[1]) <= 8):
            return None

        def known(x):
            return x[0] in ("c", "enum") or (x[0] == "tup" and all(known(y) for y in x[1]))

        ks = [a for a, _ in c[1]]
        if "**" in ks or not all(known(a) for a in ks) or known(k):
            return None
        n = len(k[1]) if k[0] == "tup" else None
        if any((len(a[1]) if a[0] == "tup" else None) != n for a in ks):
            return None

        def parts(x):
            return x[1] if n is not None else (x,)

        rows = [parts(a) for a in ks]
        boolean = [all(r[i][0] == "c" and isinstance(r[i][2], bool) for r in rows) for i in range(len(rows[0]))]
        out, left = [], [st]
        for r, (_, v) in reversed(list(zip(rows, c[1]))):
            nxt = []
            for s in left:
                cur = [s]
                for i, (want, x) in enumerate(zip(r, parts(k))):
                    y = []
                    for s1 in cur:
                        for s2, m in self.branch(s1, x) if boolean[i] and not known(x) else self.branch_eq(s1, x, want):
                            m = m == want[2] if boolean[i] and not known(x) else m
                            (y if m else nxt).append(s2)
                    cur = y
                out += [(s1, v) for s1 in cur]
            left = nxt
        return out + [(s, None) for s in left]

    def subscript(self, b, k, st, fr, node):
        c = self.content(st, b) or b
        if c[0] == "dict":
            hits = self.lookup(c, k, st)
            if hits is not None:
                out = []
                for s, v in hits:
                    out.append((s, v) if v is not None else (s, Raised(("exc", "KeyError", ("pure", self.site(node, fr))))))
                return out
            unknown = False
            for a, v in reversed(c[1]):
                if a == k:
                    return [(st, v)]
                if a == "**" or a[0] != "c" or k[0] != "c":
                    unknown = True
                    break
        if c[0] in ("tup", "list") and k[0] == "c" and isinstance(k[2], int) and not any(y[0] == "*" for y in c[1]):
            if -len(c[1]) <= k[2] < len(c[1]):
                return [(st, c[1][k[2]])]
        h = st.heap.get((b, ("[]", k)))
        if h is not None:
            return [(st, h)]
        if k[0] == "c" and isinstance(k[2], int) and not isinstance(k[2], bool) and c is b and b[0] != "dict":
            return [(st, self.item(b, k[2]))]
        ty = self.strip_opt(self.typeof(b))
        if ty is not None and ty[0] == "k":
            cl = self.prog.classes[ty[1]]
            m = cl.find_method("__getitem__")
            if m is not None and self.is_final(cl, "__getitem__", b) and not self.is_opaque(m, ("bm", b, m.qual), fr):
                return self.call_func(m, b, ((k,), ()), st, fr, node)
        if b[0] == "k":
            return [(st, b)]
        return [(st, ("sub", c if c[0] == "g" else b, k))]

    def item(self, t, i):
        if t[0] in ("tup",) and isinstance(i, int) and -len(t[1]) <= i < len(t[1]):
            return t[1][i]
        return ("it", t, i)

    def e_Slice(self, e, st, fr):
        """A slice inside a tuple index."""
        out = []
        for a, vs in self.evals([x for x in (e.lower, e.upper, e.step) if x is not None], st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            parts = iter(vs)
            out.append((a, ("op", "sl", *(next(parts) if x is not None else NONE for x in (e.lower, e.upper, e.step)))))
        return out

    def e_Tuple(self, e, st, fr):
        return self._seq(e, st, fr, "tup")

    def e_List(self, e, st, fr):
        return self._seq(e, st, fr, "list")

    def e_Set(self, e, st, fr):
        return self._seq(e, st, fr, "set")

    def _seq(self, e, st, fr, kind):
        out = []
        for a, vs in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            items = []
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    its = self.literal_items(a, v)
                    if its is not None:
                        items += list(its)
                    else:
                        items.append(("*", self.content(a, v) or v))
                else:
                    items.append(v)
            if kind == "tup":
                out.append((a, ("tup", tuple(items))))
            else:
                out.append(self.mkobj(a, e, fr, kind, (kind, tuple(items))))
        return out

    def mkobj(self, st, node, fr, kind, content):
        st = st.copy()
        o = ("o", self.uid(st, node, fr), kind)
        st.heap[(o, "#")] = content
        return (st, o)

    def e_Dict(self, e, st, fr):
        ks = [k for k in e.keys]
        flat = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                flat.append(k)
            flat.append(v)
        out = []
        for a, vs in self.evals(flat, st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            it = iter(vs)
            ent = []
            for k in ks:
                if k is None:
                    v = next(it)
                    self.spread(a, ent, v)
                else:
                    kt = next(it)
                    vt = next(it)
                    ent = [x for x in ent if x[0] != kt] + [(kt, vt)] if not any(x[0] == "**" for x in ent) else ent + [(kt, vt)]
            out.append(self.mkobj(a, e, fr, "dict", ("dict", tuple(ent))))
        return out

    def spread(self, st, ent, v):
        c = self.content(st, v) or v
        if c[0] == "dict":
            for k, x in c[1]:
                if k == "**":
                    ent.append((k, x))
                else:
                    for i, y in enumerate(ent):
                        if y[0] == k:
                            del ent[i]
                            break
                    ent.append((k, x))
        else:
            ent.append(("**", c))

    def e_JoinedStr(self, e, st, fr):
        es = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        out = []
        for a, vs in self.evals(es, st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            parts = []
            for x, v in zip(e.values, vs):
                if isinstance(x, ast.FormattedValue):
                    if v[0] == "c" and x.format_spec is None and x.conversion in (-1, None) and isinstance(v[2], (str, int)):
                        v = C(str(v[2]))
                    elif v[0] == "fstr" and x.conversion in (-1, None) and x.format_spec is None:
                        parts.extend(v[1])
                        continue
                    elif x.format_spec is not None:
                        v = ("op", "format", v, C(ast.unparse(x.format_spec)))
                    elif v[0] == "op" and v[1] == "str" and len(v) == 3:
                        v = v[2]
                parts.append(v)
            out.append((a, mkfstr(parts)))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            out = []
            for a, r in self.cond(e.operand, st, fr):
                out.append((a, r if isinstance(r, Raised) else C(not r)))
            # keep symbolic when undecided and simple
            if len(out) == 2 and not any(isinstance(v, Raised) for _, v in out):
                res = self.eval(e.operand, st, fr)
                if len(res) == 1 and not isinstance(res[0][1], Raised):
                    return [(res[0][0], ("not", res[0][1]))]
            return out
        out = []
        for a, v in self.eval(e.operand, st, fr):
            if isinstance(v, Raised):
                out.append((a, v))
            elif v[0] == "c" and isinstance(v[2], (int, float)):
                out.append((a, C({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v[2]))))
            else:
                out.append((a, ("op", type(e.op).__name__, v)))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        op = BINOPS[type(e.op)]
        for a, vs in self.evals([e.left, e.right], st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            l, r = vs
            lc, rc = self.content(a, l), self.content(a, r)
            if op == "+" and (lc or l)[0] in ("list", "tup") and (rc or r)[0] in ("list", "tup"):
                kind = (lc or l)[0]
                items = (lc or l)[1] + (rc or r)[1]
                if kind == "tup":
                    out.append((a, ("tup", items)))
                else:
                    out.append(self.mkobj(a, e, fr, "list", ("list", items)))
                continue
            if op == "+" and any((y or x)[0] in ("list", "tup") for x, y in ((l, lc), (r, rc))):
                kind = next((y or x)[0] for x, y in ((l, lc), (r, rc)) if (y or x)[0] in ("list", "tup"))
                items = ()
                for x, y in ((l, lc), (r, rc)):
                    z = y or x
                    items += z[1] if z[0] == kind else (("*", z),)
                out.append((a, ("tup", items)) if kind == "tup" else self.mkobj(a, e, fr, "list", ("list", items)))
                continue
            if op == "*":
                q, n = ((lc or l), r) if (lc or l)[0] in ("list", "tup") else ((rc or r), l)
                if q[0] in ("list", "tup") and n[0] == "c" and n[1] == "int" and n[2] * len(q[1]) <= 64:
                    if q[0] == "tup":
                        out.append((a, ("tup", q[1] * n[2])))
                    else:
                        out.append(self.mkobj(a, e, fr, "list", ("list", q[1] * n[2])))
                    continue
            if op == "|" and any(x is not None and (x[0] == "dict" or x[:2] == ("g", "dict")) for x in (lc, rc)):
                ent = []
                self.spread(a, ent, l)
                self.spread(a, ent, r)
                out.append(self.mkobj(a, e, fr, "dict", ("dict", tuple(ent))))
                continue
            out.append((a, mkbin(op, l, r)))
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for a in cur:
                for b, r in self.eval(v, a, fr):
                    if isinstance(r, Raised) or last:
                        out.append((b, r))
                        continue
                    for c, t in self.branch(b, r):
                        if t == isand:
                            nxt.append(c)
                        else:
                            if r[0] in ("cmp", "not", "and", "or") or self.boolish(r):
                                r2 = C(t)
                            else:
                                r2 = r
                            out.append((c, r2))
            cur = nxt
        return out

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            return [(a, r if isinstance(r, Raised) else C(r)) for a, r in self.cond_compare(e, st, fr)]
        out = []
        for a, vs in self.evals([e.left, e.comparators[0]], st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            t = ("cmp", OPS[type(e.ops[0])], vs[0], vs[1])
            r = self.branch_cmp(a, t)
            if len(r) == 1:
                out.append((r[0][0], C(r[0][1])))
            else:
                out.append((a, t))
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for a, r in self.cond(e.test, st, fr):
            if isinstance(r, Raised):
                out.append((a, r))
            else:
                out += self.eval(e.body if r else e.orelse, a, fr)
        return out

    def e_Lambda(self, e, st, fr):
        cid = ("lam", self.site(e, fr), fr.fid)
        self.closures[cid] = (e, fr)
        return [(st, cid)]

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list", [e.elt])

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set", [e.elt])

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "gen", [e.elt])

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict", [e.key, e.value])

    def comp(self, e, st, fr, kind, elts):
        gens = e.generators
        out = []
        for a, itv in self.eval(gens[0].iter, st, fr):
            if isinstance(itv, Raised):
                out.append((a, itv))
                continue
            items = self.literal_items(a, itv)
            if items is not None and len(items) <= min(10, self.literal_limit) + max(0, self.literal_limit - 14) and len(gens) == 1:
                r = self.comp_literal(e, gens[0], a, fr, kind, elts, items)
                if r is not None:
                    out += r
                    continue
            if items is not None and len(items) <= self.literal_limit and self.literal_limit > 14 and len(gens) > 1:
                r = self.comp_nested(e, a, fr, kind, elts, items)
                if r is not None:
                    out += r
                    continue
            it0 = self.content(a, itv) or itv
            if it0[0] == "op" and it0[1] in (".items", ".values", ".keys") and it0[2][0] == "o":
                it0 = ("op", it0[1], self.content(a, it0[2]) or it0[2])
            if len(gens) > 1:
                inner = ast.copy_location(ast.GeneratorExp(e.elt if kind != "dict" else ast.Tuple([e.key, e.value], ast.Load()), gens[1:]), e)
                ast.fix_missing_locations(inner)
                sub_elts = [inner]
                nested = True
            else:
                sub_elts, nested = elts, False
            el = ("el", ("acc", self.site(e, fr)), it0)
            sub = a.copy()
            mon, self.monitor = self.monitor, None
            ev0, sub.ev = sub.ev, ()
            alts, evs, raised = [], [], []
            try:
                tn = [n.id for n in ast.walk(gens[0].target) if isinstance(n, ast.Name)]
                paths = [x for x, o in self.assign(gens[0].target, el, sub, fr)]
                for c in gens[0].ifs:
                    nxt = []
                    for p in paths:
                        for q, b in self.cond(c, p, fr):
                            if isinstance(b, Raised):
                                raised.append(b)
                            elif b:
                                nxt.append(q)
                            else:
                                for ev in q.ev:
                                    if ev not in evs:
                                        evs.append(ev)
                    paths = nxt
                for p in paths:
                    for q, vs in self.evals(sub_elts, p, fr):
                        if isinstance(vs, Raised):
                            raised.append(vs)
                            continue
                        lits = tuple((k, v) for k, v in q.facts.items() if k not in a.facts)
                        v = vs[0] if len(vs) == 1 else ("tup", vs)
                        alts.append((lits, freeze(q, v)))
                        for ev in q.ev:
                            if ev not in evs:
                                evs.append(ev)
            finally:
                self.monitor = mon
            g = self.mk_gather("flat" if nested else kind, it0, alts, el)
            if nested:
                g = ("g", kind, ("flat", g), (((), ("EL",)),), None)
            if raised and self.exc:
                rs = a.copy()
                for ev in evs:
                    self.emit(rs, ev)
                out.append((rs, raised[0]))
            s2 = a.copy()
            for ev in evs:
                self.emit(s2, ev)
            if kind == "gen":
                out.append((s2, g))
            else:
                out.append(self.mkobj(s2, e, fr, kind, g))
        return out

    def comp_nested(self, e, st, fr, kind, elts, items):
        """A comprehension of several generators over literal collections."""
        out = []

        def inner(gens, s, acc, items):
            """-> [(state, elements so far)] after the rest of the generators, None if one is not literal"""
            if not gens:
                r = []
                for q, vs in self.evals(elts, s, fr):
                    if isinstance(vs, Raised):
                        out.append((q, vs))
                    else:
                        r.append((q, acc + (tuple(vs) if kind != "dict" else (tuple(vs),))))
                return r
            if items is None:
                r = []
                for a, itv in self.eval(gens[0].iter, s, fr):
                    if isinstance(itv, Raised):
                        out.append((a, itv))
                        continue
                    li = self.literal_items(a, itv)
                    if li is None or len(li) > self.literal_limit:
                        return None
                    x = inner(gens, a, acc, li)
                    if x is None:
                        return None
                    r += x
                return r
            states = [(s, acc)]
            for x in items:
                nxt = []
                for a, ac in states:
                    for b, _ in self.assign(gens[0].target, x, a, fr):
                        ps = [b]
                        for c in gens[0].ifs:
                            q = []
                            for p in ps:
                                for y, ok in self.cond(c, p, fr):
                                    if isinstance(ok, Raised):
                                        out.append((y, ok))
                                    elif ok:
                                        q.append(y)
                                    else:
                                        nxt.append((y, ac))
                            ps = q
                        for p in ps:
                            r = inner(gens[1:], p, ac, None)
                            if r is None:
                                return None
                            nxt += r
                states = nxt
                if len(states) > 32 or any(len(ac) > 64 for _, ac in states):
                    return None
            return states

        r = inner(e.generators, st, (), items)
        if r is None:
            return None
        what = "list" if kind == "gen" else kind
        return out + [self.mkobj(a, e, fr, what, (what, acc)) for a, acc in r]

    def comp_literal(self, e, gen, st, fr, kind, elts, items):
        cur = [(st, ())]
        out = []
        for x in items:
            nxt = []
            for a, acc in cur:
                for b, _ in self.assign(gen.target, x, a, fr):
                    ps = [(b, True)]
                    for c in gen.ifs:
                        q = []
                        for p, ok in ps:
                            q += self.cond(c, p, fr) if ok is True else [(p, ok)]
                        ps = q
                    for p, ok in ps:
                        if isinstance(ok, Raised):
                            out.append((p, ok))
                        elif not ok:
                            nxt.append((p, acc))
                        else:
                            for q, vs in self.evals(elts, p, fr):
                                if isinstance(vs, Raised):
                                    out.append((q, vs))
                                else:
                                    nxt.append((q, acc + (tuple(vs) if kind != "dict" else (tuple(vs),))))
            cur = nxt
            if len(cur) > 64:
                return None
        for a, acc in cur:
            if kind == "gen":
                out.append(self.mkobj(a, e, fr, "list", ("list", acc)))
            elif kind == "dict":
                out.append(self.mkobj(a, e, fr, "dict", ("dict", acc)))
            else:
                out.append(self.mkobj(a, e, fr, kind, (kind, acc)))
        return out

    # ================================================================= calls
    def eval_func(self, call, st, fr):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self.super_attr(f.attr, st, fr, call)
        return self.eval(f, st, fr)

    def super_attr(self, name, st, fr, node):
        cls = fr.cls
        f = fr
        while cls is None and f.parent is not None:
            f = f.parent
            cls = f.cls
        self_t = f.self_term
        if cls is None or self_t is None:
            return [(st, ("a", ("super",), name))]
        ty = self.strip_opt(self.typeof(self_t)) if self_t[0] != "k" else ("k", self_t[1], ())
        mro = self.prog.classes[ty[1]].mro() if ty and ty[0] == "k" else cls.mro()
        if cls in mro:
            rest = mro[mro.index(cls) + 1 :]
        else:
            rest = cls.mro()[1:]
        for c in rest:
            if name in c.methods:
                return [(st, ("bm", self_t, "super:" + c.methods[name].qual))]
        return [(st, ("a", ("super", self_t), name))]

    def callee(self, f):
        """-> (Func, receiver) or (None, None)"""
        if f[0] == "fn":
            return self.prog.funcs.get(f[1]), None
        if f[0] == "bm":
            q = f[2]
            if q.startswith("super:"):
                return self.prog.funcs.get(q[6:]), f[1]
            return self.prog.funcs.get(q), f[1]
        if f[0] == "lam":
            node, cfr = self.closures.get(f, (None, None))
            if isinstance(node, ast.FunctionDef):
                fn = Func(f"{cfr.func.qual if cfr.func else cfr.module.name}.<locals>.{node.name}", node.name, node, cfr.module, None, self.prog._decs(node))
                fn.closure = cfr
                return fn, None
        return None, None

    def callable_class(self, f):
        ty = self.strip_opt(self.typeof(f))
        if ty is not None and ty[0] == "k":
            return self.prog.classes[ty[1]].find_method("__call__")
        return None

    def is_opaque(self, fn, f, fr):
        if fr.chain.count(fn.qual) >= self.recursion:
            return True
        if len(fr.chain) > self.max_depth:
            return True
        if self.opaque(fn):
            return True
        if fn.is_abstract:
            return True
        if self.inline is not None and not self.inline(fn):
            return True
        if f is not None and f[0] == "bm" and not f[2].startswith("super:"):
            recv = f[1]
            if recv[0] == "k":
                return False
            ty = self.strip_opt(self.typeof(recv))
            if ty is not None and ty[0] == "k":
                c = self.prog.classes[ty[1]]
                if not self.is_final(c, fn.name, recv):
                    return True
        if isinstance(fn.node, ast.AsyncFunctionDef):
            return True
        return False

    def eval_args(self, call, st, fr):
        """-> [(state, (args, kwargs))] ; kwargs: tuple of (name|'**', term)"""
        es = [x.value if isinstance(x, ast.Starred) else x for x in call.args] + [k.value for k in call.keywords]
        out = []
        for a, vs in self.evals(es, st, fr):
            if isinstance(vs, Raised):
                out.append((a, vs))
                continue
            pos, kw = [], []
            for x, v in zip(call.args, vs):
                if isinstance(x, ast.Starred):
                    its = self.literal_items(a, v)
                    if its is not None:
                        pos += list(its)
                    else:
                        pos.append(("*", v))
                else:
                    pos.append(v)
            for k, v in zip(call.keywords, vs[len(call.args):]):
                if k.arg is None:
                    c = self.content(a, v) or v
                    if c[0] == "dict":
                        for kk, vv in c[1]:
                            if kk == "**":
                                kw.append(("**", vv))
                            elif kk[0] == "c" and isinstance(kk[2], str):
                                kw.append((kk[2], vv))
                            else:
                                kw.append(("**", ("dict", ((kk, vv),))))
                    else:
                        kw.append(("**", v))
                else:
                    kw.append((k.arg, v))
            out.append((a, (tuple(pos), tuple(kw))))
        return out

    def e_Call(self, e, st, fr):
        out = []
        # super() alone / locals()
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            ent = tuple((C(n), v) for (fid, n), v in sorted(st.vars.items(), key=repr) if fid == fr.fid and not n.startswith("%") and v[0] != "GLOBAL")
            return [self.mkobj(st, e, fr, "dict", ("dict", ent))]
        if isinstance(e.func, ast.Name) and e.func.id in ("map", "filter") and len(e.args) == 2 and not e.keywords and not any(isinstance(x, ast.Starred) for x in e.args):
            if all(f in ((e.func.id,), ("x", "builtins." + e.func.id)) or f[0] == "x" for _, f in self.eval_func(e, st, fr)):
                return self.eval(as_generator(e), st, fr)
        for a, f in self.eval_func(e, st, fr):
            if isinstance(f, Raised):
                out.append((a, f))
                continue
            for b, ar in self.eval_args(e, a, fr):
                if isinstance(ar, Raised):
                    out.append((b, ar))
                    continue
                out += self.apply(f, ar, b, fr, e)
        return out

    def apply(self, f, ar, st, fr, node):
        k = f[0]
        if k == "k":
            return self.instantiate(self.prog.classes[f[1]], ar, st, fr, node)
        if k in ("fn", "bm"):
            fn, recv = self.callee(f)
            if fn is None:
                return self.opaque_call(st, fr, node, f[2] if k == "bm" else f[1], f[1] if k == "bm" else None, ar)
            if k == "fn" and fn.kind in ("method", "class") and ar[0] and fn.kind == "method":
                recv, ar = ar[0][0], (ar[0][1:], ar[1])
            if fn.kind == "static":
                recv = None
            if self.is_opaque(fn, f, fr):
                return self.opaque_call(st, fr, node, short(fn), recv, ar, fn)
            if fn.is_cm:
                return self.opaque_call(st, fr, node, short(fn), recv, ar, fn)
            if fn.is_generator:
                g = as_list_builder(fn)
                if g is None or len(fr.chain) > self.max_depth or fr.chain.count(fn.qual) >= self.recursion:
                    return self.opaque_call(st, fr, node, short(fn), recv, ar, fn)
                fn = g
            return self.call_func(fn, recv, ar, st, fr, node)
        if k == "lam":
            fn, _ = self.callee(f)
            if fn is not None:
                if fn.is_generator or len(fr.chain) > self.max_depth or fr.chain.count(fn.qual) >= self.recursion:
                    return self.opaque_call(st, fr, node, fn.qual, None, ar)
                return self.call_func(fn, None, ar, st, fr, node, closure=fn.closure)
            lam, cfr = self.closures.get(f, (None, None))
            if lam is not None and len(fr.chain) <= self.max_depth:
                return self.call_lambda(lam, cfr, ar, st, fr, node)
        if k == "x":
            return self.ext_call(f[1], ar, st, fr, node)
        if k == "a":
            return self.method_call(f[1], f[2], ar, st, fr, node)
        if k == "op" and f[1] == "functools.partial":
            pos = tuple(x for x in f[3:] if x[0] != "kw")
            kw = tuple((x[1], x[2]) for x in f[3:] if x[0] == "kw")
            names = {n for n, _ in ar[1]}
            return self.apply(f[2], (pos + ar[0], tuple(x for x in kw if x[0] not in names) + ar[1]), st, fr, node)
        cm = self.callable_class(f)
        if cm is not None and not self.is_opaque(cm, ("bm", f, cm.qual), fr) and not cm.is_cm and not cm.is_generator:
            return self.call_func(cm, f, ar, st, fr, node)
        return self.opaque_call(st, fr, node, "<call>", f, ar)

    def call_lambda(self, lam, cfr, ar, st, fr, node):
        fid = (len(fr.chain), self.site(lam, cfr), "lam")
        st = st.copy()
        params = [p.arg for p in lam.args.posonlyargs + lam.args.args]
        for n, v in zip(params, ar[0]):
            st.vars[(fid, n)] = v
        for n, v in ar[1]:
            if n != "**":
                st.vars[(fid, n)] = v
        for p, d in zip(reversed(lam.args.args), reversed(lam.args.defaults)):
            if (fid, p.arg) not in st.vars:
                r = self.eval(d, st, cfr)
                st.vars[(fid, p.arg)] = r[0][1]
        nfr = Frame(fid, cfr.func, cfr.module, cfr.cls, fr.chain + ("<lambda>",), None, cfr.self_term, cfr)
        out = []
        for a, v in self.eval(lam.body, st, nfr):
            self.drop_frame(a, nfr)
            out.append((a, v))
        return out

    def default_value(self, fn, expr, st, fr, closure=None):
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        m = fn.module
        fr2 = Frame((0, "<default>"), None, m, None, ("<default>",), None, None, closure)
        sub_exc, self.exc = self.exc, False
        mon, self.monitor = self.monitor, None
        try:
            r = self.eval(expr, st.copy(), fr2)
        finally:
            self.exc = sub_exc
            self.monitor = mon
        if len(r) == 1 and not isinstance(r[0][1], Raised):
            v = freeze(r[0][0], r[0][1])
            return v
        return ("default", fn.qual, ast.unparse(expr))

    def new_frame(self, fn, recv, ar, st, fr, node, closure=None):
        st = st.copy()
        site = self.site(node, fr)
        fid = (len(fr.chain), fn.qual, site)
        nfr = Frame(fid, fn, fn.module, fn.cls, fr.chain + (fn.qual,), None, None, closure)
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        pos = list(ar[0])
        if fn.kind in ("method", "class") and recv is not None:
            if fn.kind == "class" and recv[0] != "k":
                ty = self.strip_opt(self.typeof(recv))
                recv = ("k", ty[1]) if ty and ty[0] == "k" else recv
            pos = [recv] + pos
            nfr.self_term = recv
        bound = {}
        rest = []
        stars = [x for x in pos if x[0] == "*"]
        for i, v in enumerate(pos):
            if v[0] == "*":
                rest.append(v)
                continue
            if i < len(params) and not rest:
                bound[params[i]] = v
            else:
                rest.append(v)
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        spreads = []
        for n, v in ar[1]:
            if n == "**":
                spreads.append(v)
                extra.append(("**", v))
            elif n in params or n in kwonly:
                bound[n] = v
            else:
                extra.append((C(n), v))
        if a.vararg:
            bound[a.vararg.arg] = ("tup", tuple(rest))
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defaults.update({p: d for p, d in zip(kwonly, a.kw_defaults) if d is not None})
        anns = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        for n in params + kwonly:
            if n in bound:
                continue
            if spreads:
                spreads = [shallow(st, x) for x in spreads]
                bound[n] = ("op", "kwget", tuple(spreads)[-1], C(n)) if n not in defaults else ("op", "kwget", tuple(spreads)[-1], C(n), self.default_value(fn, defaults[n], st, nfr, closure))
            elif stars:
                bound[n] = ("op", "starget", stars[0], C(n))
            elif n in defaults:
                bound[n] = self.default_value(fn, defaults[n], st, nfr, closure)
            else:
                bound[n] = ("?", ("unbound", fn.qual, n))
        for n, v in bound.items():
            an = anns.get(n)
            if an is not None and self.typeof(v) is None and v[0] in ("p", "call", "a", "it", "el", "sub", "op", "phi", "?", "ent"):
                ty = self.ann_type(fn.module, an)
                if ty is not None and ty[0] != "tv" and not (ty[0] == "union" and self.strip_opt(ty) is None):
                    self.types.setdefault(v, ty)
                    self._tcache.pop(v, None)
            st.vars[(fid, n)] = v
        if a.kwarg:
            o = ("o", (site, "kw", st.cnt.get(site, 0)), "dict")
            st.heap[(o, "#")] = ("dict", tuple(extra))
            st.vars[(fid, a.kwarg.arg)] = o
        return nfr, [st]

    def drop_frame(self, st, fr):
        f = fr.func
        if f is not None and fr.fid[-1] != "lam":
            k = ("closures?", id(f.node))
            c = self._tcache.get(k)
            if c is None:
                c = any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for n in walk_own(f.node))
                self._tcache[k] = c
            if c:
                return
        st.vars = {k: v for k, v in st.vars.items() if k[0] != fr.fid}

    def call_func(self, fn, recv, ar, st, fr, node, closure=None):
        self.stats["functions"].add(fn.qual)
        nfr, binds = self.new_frame(fn, recv, ar, st, fr, node, closure)
        out = []
        for b in binds:
            for c, o in self.exec_block(fn.node.body, b, nfr):
                self.drop_frame(c, nfr)
                if o is NORMAL:
                    out.append((c, NONE))
                elif o[0] == "return":
                    v = o[1]
                    if fn.node.returns is not None and v[0] in ("call", "op", "it", "sub", "phi", "?") and self.typeof(v) is None:
                        rt = self.strip_opt(self.typeof(recv)) if recv is not None else None
                        ty = self.ann_type(fn.module, fn.node.returns, self.subst_for(rt))
                        if ty is not None and ty[0] not in ("tv", "lit"):
                            self.types.setdefault(v, ty)
                            self._tcache.pop(v, None)
                    out.append((c, v))
                elif o[0] == "raise":
                    out.append((c, Raised(o[1])))
                elif o[0] == "cut":
                    out.append((c, Raised(("exc", "<cut>", ("cut",)))))
        return out

    def instantiate(self, c, ar, st, fr, node):
        self.stats["calls"].add(self.site(node, fr))
        if c.is_enum:
            if len(ar[0]) == 1 and not ar[1] and ar[0][0][0] == "c":
                vals = {n: c.attrs[n] for n in c.enum_members()}
                if all(isinstance(v, ast.Constant) for v in vals.values()):
                    hit = [n for n, v in vals.items() if v.value == ar[0][0][2]]
                    if hit:
                        return [(st, ("enum", c.qual, hit[0]))]
                    if c.find_method("_missing_") is None:
                        return [(st, Raised(("exc", "ValueError", self.uid(st, node, fr))))]
            if len(ar[0]) == 1 and ar[0][0][0] == "enum" and ar[0][0][1] == c.qual:
                return [(st, ar[0][0])]
            return [(st, ("op", "enum:" + c.qual, *ar[0]))]
        if c.is_exception:
            st = st.copy()
            return [(st, ("exc", c.qual, self.uid(st, node, fr), ar[0]))]
        st = st.copy()
        o = ("o", self.uid(st, node, fr), c.qual)
        init = c.find_method("__init__")
        if init is not None:
            if self.is_opaque(init, None, fr):
                return self.opaque_call(st, fr, node, "new:" + c.name, None, ar)
            out = []
            for a, v in self.call_func(init, o, ar, st, fr, node):
                out.append((a, v if isinstance(v, Raised) else o))
            return out
        if c.is_dataclass or c.is_namedtuple:
            fields = c.all_fields()
            if any(x[0] == "*" for x in ar[0]):
                return self.opaque_call(st, fr, node, "new:" + c.name, None, ar)
            vals = {}
            for f, v in zip([f for f in fields if f[2] is None or not self.prog.no_init(f[2])], ar[0]):
                vals[f[0]] = v
            spreads = []
            for n, v in ar[1]:
                if n == "**":
                    spreads.append(shallow(st, v))
                else:
                    vals[n] = v
            for f in fields:
                n, ann, d, owner = f
                if n not in vals:
                    if d is not None and self.prog.no_init(d):
                        if any(k.arg in ("default", "default_factory") for k in d.keywords):
                            vals[n] = self.field_default(d, owner, st, fr)
                    elif spreads:
                        vals[n] = ("op", "kwget", spreads[-1], C(n)) if d is None else ("op", "kwget", spreads[-1], C(n), ("dflt",))
                    elif d is not None:
                        if self.prog._is_field_call(d):
                            vals[n] = self.field_default(d, owner, st, fr)
                        else:
                            dm = Func(c.qual + ".<default>", "d", d, owner.module)
                            vals[n] = self.default_value(dm, d, st, fr)
                    else:
                        vals[n] = ("?", ("missing", c.qual, n))
            for n, v in vals.items():
                st.heap[(o, n)] = v
            if spreads:
                st.heap[(o, "**")] = ("tup", tuple(spreads))
            self.emit(st, ("new", o, c.name, self.site(node, fr)))
            post = c.find_method("__post_init__")
            if post is not None and not self.is_opaque(post, None, fr):
                return [(a, v if isinstance(v, Raised) else o) for a, v in self.call_func(post, o, ((), ()), st, fr, node)]
            return [(st, o)]
        st2 = st
        self.emit(st2, ("new", o, c.name, self.site(node, fr)))
        if ar[0] or ar[1]:
            st2.heap[(o, "%args")] = ("tup", ar[0])
        return [(st2, o)]

    def field_default(self, d, owner, st, fr):
        for k in d.keywords:
            if k.arg == "default":
                dm = Func(owner.qual + ".<default>", "d", k.value, owner.module)
                return self.default_value(dm, k.value, st, fr)
            if k.arg == "default_factory":
                if isinstance(k.value, ast.Name) and k.value.id in ("list", "dict", "set"):
                    o = ("o", ("factory", owner.qual, ast.unparse(d), st.cnt.get("factory", 0)), k.value.id)
                    st.cnt["factory"] = st.cnt.get("factory", 0) + 1
                    st.heap[(o, "#")] = (k.value.id, ())
                    return o
                return ("op", "factory", C(ast.unparse(k.value)))
        return ("op", "field", C(ast.unparse(d)))

    # ------------------------------------------------------- external calls
    def ext_call(self, name, ar, st, fr, node):
        self.stats["calls"].add(self.site(node, fr))
        pos, kw = ar
        if name.endswith(".partial"):  # re-exported by other libraries
            name = "functools.partial"
        v = fold(name, pos, kw)
        if v is not None:
            return [(st, v)]
        if name.startswith("builtins."):
            n = name[9:]
            if n == "object.__setattr__" and len(pos) == 3:
                n = "setattr"
            if n == "dict.fromkeys" and pos and not kw and (li := self.literal_items(st, pos[0])) is not None:
                v = pos[1] if len(pos) > 1 else NONE
                ent = {k: v for k in li}
                return [self.mkobj(st, node, fr, "dict", ("dict", tuple(ent.items())))]
            r = self.builtin(n, ar, st, fr, node)
            if r is not None:
                return r
            if n in BUILTIN_EXC:
                st = st.copy()
                return [(st, ("exc", n, self.uid(st, node, fr), pos))]
            if n in PURE_BUILTINS:
                return self.pure_op(n, ar, st, fr, node)
            if n == "print":
                return [(st, NONE)]
            return self.opaque_call(st, fr, node, name, None, ar)
        if name.startswith(SILENT):
            return [(st, ("op", name, *pos))]
        if name.startswith("portalocker.exceptions.") or name.split(".")[-1].endswith(("Error", "Exception")):
            st = st.copy()
            return [(st, ("exc", name, self.uid(st, node, fr), pos))]
        if name in ("functools.reduce", "itertools.product", "math.prod") and (r := self.combine(name, ar, st, fr, node)) is not None:
            return r
        if name in self.pure or (name.startswith(PURE_EXT) and not name.startswith(IMPURE_EXT)):
            if name == "dataclasses.replace" and pos and pos[0][0] in ("o",) and pos[0][2] in self.prog.classes:
                st = st.copy()
                o = ("o", self.uid(st, node, fr), pos[0][2])
                for (b, n2), v in list(st.heap.items()):
                    if b == pos[0]:
                        st.heap[(o, n2)] = v
                for n2, v in kw:
                    st.heap[(o, n2)] = v
                return [(st, o)]
            return self.pure_op(name, ar, st, fr, node)
        return self.opaque_call(st, fr, node, name, None, ar)

    def combine(self, name, ar, st, fr, node):
        """Combinations of literal collections."""
        pos, kw = ar
        if kw or any(x[0] in ("*", "**") for x in pos):
            return None
        if name == "itertools.product":
            ls = [self.literal_items(st, x) for x in pos]
            if any(x is None or any(y[0] != "c" for y in x) for x in ls) or math.prod(map(len, ls)) > self.literal_limit:
                return None
            return [(st, ("list", tuple(("tup", t) for t in itertools.product(*ls))))]
        li = self.literal_items(st, pos[-1 if name == "math.prod" else 1]) if len(pos) in (1, 2, 3) and (name == "math.prod") == (len(pos) == 1) else None
        if li is None or len(li) > self.literal_limit:
            return None
        if name == "math.prod":
            if not all(x[0] == "c" and isinstance(x[2], (int, float)) for x in li):
                return None
            return [(st, C(math.prod(x[2] for x in li)))]
        if len(pos) == 2 and not li:
            return None
        cur = [(st, pos[2] if len(pos) == 3 else li[0])]
        for x in li if len(pos) == 3 else li[1:]:
            cur = [r for s, v in cur for r in ([(s, v)] if isinstance(v, Raised) else self.apply(pos[0], ((v, x), ()), s, fr, node))]
        return cur

    def pure_op(self, name, ar, st, fr, node):
        if name in self.models:
            recv, ar = (ar[0][0], (ar[0][1:], ar[1])) if name.startswith(".") and ar[0] else (None, ar)
            return self.opaque_call(st, fr, node, name, recv, ar)
        pos, kw = ar
        pos = tuple(self.val_of(st, x) for x in pos)
        if name == "inspect.isclass" and len(pos) == 1 and (pos[0][0] in ("c", "o", "fn", "k", "dict", "list", "tup", "fstr") or pos[0][:2] == ("op", "functools.partial")):
            return [(st, TRUE if pos[0][0] == "k" else FALSE)]
        if name in ("pathlib.Path", ".joinpath") and len(pos) > 1 and not kw:
            t = ("op", "pathlib.Path", pos[0]) if name == "pathlib.Path" else pos[0]
            for x in pos[1:]:
                t = mkbin("/", t, x)
            return [(st, t)]
        t = ("op", name) + pos + tuple(("kw", n, self.val_of(st, v)) for n, v in sorted(kw, key=repr))
        if name in ("re.match", "re.fullmatch", "re.search") and len(pos) == 2 and not kw and all(x[0] == "c" and isinstance(x[2], str) for x in pos):
            try:
                hit = getattr(re, name[3:])(pos[0][2], pos[1][2])
            except re.error:
                return [(st, t)]
            if hit is None:
                return [(st, NONE)]
            st = st.copy()
            st.facts[("truthy", t)] = True
            return [(st, t)]
        if self.exc and name in MAY_RAISE_PURE:
            s2 = st.copy()
            e = {"float": "?", "int": "?", ".index": "ValueError"}[name]
            return [(st, t), (s2, Raised(("exc", e, ("pure", self.site(node, fr)))))]
        return [(st, t)]

    def val_of(self, st, t):
        """Contents of containers by value, so that pure operations do not depend on identity."""
        if t[0] == "o":
            c = self.content(st, t)
            if c is not None:
                return c
        return t

    def builtin(self, n, ar, st, fr, node):
        pos, kw = ar
        if n == "isinstance" and len(pos) == 2:
            return [(st, ("op", "isinstance", pos[0], pos[1]))]
        if n == "len" and len(pos) == 1:
            c = self.val_of(st, pos[0])
            if c[0] in ("list", "tup", "set", "dict") and not any(x[0] in ("*", "**") for x in c[1]):
                return [(st, C(len(c[1])))]
            if c[0] == "g" and c[1] in ("list", "dict", "set"):
                return [(st, ("g", "sum", c[2], tuple(sorted({(ls, ONE) for ls, _ in c[3]}, key=repr)) if len({ls for ls, _ in c[3]}) == len(c[3]) else tuple((ls, ONE) for ls, _ in c[3]), None))]
            if c[0] == "dict" and all(k == "**" for k, _ in c[1]):
                pass
            return [(st, ("op", "len", c))]
        if n == "iter" and len(pos) == 1 and not kw and (li := self.literal_items(st, pos[0])) is not None:
            return [self.mkobj(st, node, fr, "iter", ("list", tuple(li)))]
        if n == "next" and pos and pos[0][0] == "o" and pos[0][2] == "iter":
            rest = self.literal_items(st, pos[0])
            if rest is not None:
                if rest:
                    st = st.copy()
                    st.heap[(pos[0], "#")] = ("list", tuple(rest[1:]))
                    return [(st, rest[0])]
                if len(pos) > 1:
                    return [(st, pos[1])]
                return [(st, Raised(("exc", "StopIteration", ("pure", self.site(node, fr)))))]
        if n in ("list", "tuple", "set", "dict", "sorted", "iter", "sum", "any", "all", "max", "min", "reversed", "frozenset", "next"):
            if n == "dict":
                ent = []
                ok = True
                if pos:
                    c = self.val_of(st, pos[0])
                    if c[0] == "dict":
                        self.spread(st, ent, c)
                    elif (li := self.literal_items(st, c)) is not None and all(x[0] == "tup" and len(x[1]) == 2 for x in li):
                        ent += [tuple(x[1]) for x in li]
                    elif c[0] == "g":
                        ent.append(("**", ("g", "dict") + c[2:]))
                        if not kw:
                            return [self.mkobj(st, node, fr, "dict", ("g", "dict") + c[2:])]
                    else:
                        ent.append(("**", c))
                for k, v in kw:
                    if k == "**":
                        self.spread(st, ent, v)
                    else:
                        ent.append((C(k), v))
                return [self.mkobj(st, node, fr, "dict", ("dict", tuple(ent)))]
            if not pos:
                if n in ("list", "set"):
                    return [self.mkobj(st, node, fr, n, (n, ()))]
                if n == "tuple":
                    return [(st, ("tup", ()))]
                return None
            c = self.val_of(st, pos[0])
            if n in ("any", "all", "sum") and c[0] in ("dict", "op") and (li := self.literal_items(st, c)) is not None:
                c = ("list", tuple(li))
            if n in ("list", "tuple", "set") and c[0] == "op" and (li := self.literal_items(st, c)) is not None:
                c = ("list", tuple(li))
            if n in ("list", "set", "tuple", "iter", "frozenset"):
                if c[0] in ("list", "tup", "set"):
                    if n in ("list", "set"):
                        return [self.mkobj(st, node, fr, n, (n, c[1]))]
                    if n == "tuple":
                        return [(st, ("tup", c[1]))]
                    return [(st, pos[0])]
                if c[0] == "g":
                    if n in ("list", "set"):
                        return [self.mkobj(st, node, fr, n, ("g", n if not (n == "list" and c[1] == "set") else "list") + c[2:])]
                    if n == "tuple":
                        return [(st, ("g", "list") + c[2:])]
                    return [(st, ("g", "gen") + c[2:])]
                if n == "list":
                    return [self.mkobj(st, node, fr, n, ("op", "list", c))] if False else [(st, ("op", "list", c))]
                return [(st, ("op", n, c))]
            if n == "sum":
                if c[0] == "g" and c[1] in ("gen", "list"):
                    g = ("g", "sum", c[2], self.counted(c[3])) + c[4:]
                    if len(pos) > 1 and pos[1] not in (ZERO, C(0.0)):
                        return [(st, mkbin("+", pos[1], g))]
                    return [(st, g)]
                if c[0] in ("list", "tup") and len(c[1]) <= 8 and not any(x[0] in ("*", "**") for x in c[1]):
                    cur = [(st, pos[1] if len(pos) > 1 else ZERO)]
                    for x in c[1]:
                        nxt = []
                        for s, tot in cur:
                            vs = [(s, x)] if x[0] not in ("cmp", "not") else [(s2, ONE if b else ZERO) for s2, b in self.branch(s, x)]
                            for s2, v in vs:
                                if v[0] == tot[0] == "c" and all(isinstance(y[2], (int, float)) for y in (v, tot)):
                                    nxt.append((s2, C(tot[2] + v[2])))
                                else:
                                    nxt.append((s2, v if tot == ZERO else mkbin("+", tot, v)))
                        cur = nxt
                    return cur
                return [(st, ("op", "sum", c))]
            if n in ("any", "all") and len(pos) == 1 and c[0] in ("list", "tup", "set") and len(c[1]) <= 8 and not any(x[0] in ("*", "**") for x in c[1]):
                stop = n == "any"
                cur, res = [st], []
                for x in c[1]:
                    nxt = []
                    for s in cur:
                        for s2, b in self.branch(s, x):
                            (res if b is stop else nxt).append((s2, C(stop)) if b is stop else s2)
                    cur = nxt
                return res + [(s, C(not stop)) for s in cur]
            if n in ("any", "all") and c[0] == "g":
                return [(st, ("g", n) + c[2:])]
            if n == "sorted":
                key = dict(kw).get("key")
                rev = dict(kw).get("reverse", FALSE)
                kt = None
                if key is not None:
                    kt = self.keyfn(key, st, fr, node)
                extra = (() if kt is None else (("keyfn", kt),)) + (() if rev == FALSE else (("reverse", rev),))
                return [(st, ("op", "sorted", c) + extra)]
            if n == "next":
                if c[0] == "op" and c[1] == "iter" and len(c) == 3:
                    c = c[2]
                return [(st, ("op", "next", c, *pos[1:]))]
            if n in ("max", "min"):
                nums = (c[1] if c[0] in ("list", "tup", "set") else self.literal_items(st, pos[0])) if len(pos) == 1 else pos
                d = dict(kw)
                if nums is not None and not (set(d) - {"default"}) and (all(x[0] == "c" and isinstance(x[2], (int, float)) for x in nums) or all(x[0] == "c" and isinstance(x[2], str) for x in nums)):
                    if nums:
                        return [(st, C({"max": max, "min": min}[n](x[2] for x in nums)))]
                    if "default" in d:
                        return [(st, d["default"])]
                    return [(st, Raised(("exc", "ValueError", ("pure", self.site(node, fr)))))]
            return [(st, ("op", n, *(self.val_of(st, x) for x in pos), *(("kw", k, v) for k, v in sorted(kw, key=repr))))]
        if n == "vars" and len(pos) == 1 and pos[0][0] == "o" and pos[0][2] in self.prog.classes:
            return self.getattr(pos[0], "__dict__", st, fr, node)
        if n == "hasattr" and len(pos) == 2 and pos[1][0] == "c" and pos[0][0] == "o" and pos[0][2] in self.prog.classes:
            cl = self.prog.classes[pos[0][2]]
            if (pos[0], pos[1][2]) in st.heap or cl.find_method(pos[1][2]) is not None or any(pos[1][2] in c.attrs for c in cl.mro()):
                return [(st, TRUE)]
            if not [b for b in cl.ext_bases() if b != "object"] and (pos[0], "#muts") not in st.heap:
                return [(st, FALSE)]
        if n == "getattr" and len(pos) >= 2 and pos[1][0] == "c" and isinstance(pos[1][2], str):
            if len(pos) == 2:
                return self.getattr(pos[0], pos[1][2], st, fr, node)
            return [(st, ("op", "getattr", *pos))]
        if n == "str" and len(pos) == 1:
            if pos[0][0] == "c" and isinstance(pos[0][2], (str, int)):
                return [(st, C(str(pos[0][2])))]
            if pos[0][0] == "fstr":
                return [(st, pos[0])]
            return [(st, ("op", "str", self.val_of(st, pos[0])))]
        if n in ("float", "int") and len(pos) == 1 and pos[0][0] == "c":
            try:
                return [(st, C({"float": float, "int": int}[n](pos[0][2])))]
            except (TypeError, ValueError, OverflowError) as e:
                return [(st, Raised(("exc", type(e).__name__, ("pure", self.site(node, fr)))))]
        if n == "bool" and len(pos) == 1:
            return [(a, C(b)) for a, b in self.branch(st, pos[0])]
        if n == "setattr" and len(pos) == 3:
            st = st.copy()
            if pos[1][0] == "c":
                st.heap[(pos[0], pos[1][2])] = pos[2]
                self.emit(st, ("store", pos[0], pos[1][2], pos[2], self.site(node, fr)))
            else:
                self.emit(st, ("store?", pos[0], pos[1], pos[2], self.site(node, fr)))
                self.note_mut(st, pos[0], "setattr", (pos[1], pos[2]))
            return [(st, NONE)]
        if n == "type" and len(pos) == 1:
            if pos[0][0] == "o" and pos[0][2] in self.prog.classes:
                return [(st, ("k", pos[0][2]))]
            if pos[0] in getattr(self, "exact", ()):
                return [(st, ("k", self.typeof(pos[0])[1]))]
        return None

    def keyfn(self, key, st, fr, node):
        base = ("EL",)
        mon, self.monitor = self.monitor, None
        exc, self.exc = self.exc, False
        try:
            s = st.copy()
            s.ev = ()
            r = self.apply(key, ((base,), ()), s, fr, node)
        finally:
            self.monitor, self.exc = mon, exc
        if len(r) == 1 and not isinstance(r[0][1], Raised):
            return r[0][1]
        return key

    def method_call(self, recv, name, ar, st, fr, node):
        """A method of a receiver whose class is not in the repository (or unknown)."""
        self.stats["calls"].add(self.site(node, fr))
        ty = self.strip_opt(self.typeof(recv))
        if ty is not None and ty[0] == "x" and ty[1] == "logging.Logger":
            return [(st, NONE)]
        if recv[0] == "gv" and recv[2] in ("logger", "LOGGER", "log"):
            return [(st, NONE)]
        if recv[0] == "a" and recv[2] in ("logger", "_logger", "log"):
            return [(st, NONE)]
        if recv[0] == "op" and recv[1] in ("logging.getLogger", "logging.Logger"):
            return [(st, NONE)]
        pos, kw = ar
        if recv[0] == "super":
            return [(st, NONE)]
        if recv[0] == "k" and self.prog.classes[recv[1]].is_enum:
            return [(st, ("op", "." + name, recv, *pos))]
        if recv[0] == "c" and isinstance(recv[2], (int, float)) and not isinstance(recv[2], bool):
            v = fold("." + name, (recv, *pos), kw)
            if v is not None:
                return [(st, v)]
        c = self.content(st, recv)
        if name in MUTATORS and (c is not None or recv[0] in ("p", "a", "call", "it", "sub", "el", "phi", "op", "gv", "?", "ent")):
            r = self.mutate(recv, c, name, ar, st, fr, node)
            if r is not None:
                return r
        if c is not None:
            if name == "copy" and not pos:
                return [self.mkobj(st, node, fr, recv[2], c)]
            if name in ("items", "keys", "values"):
                return [(st, ("op", "." + name, recv if c[0] == "dict" else c))]
            if name == "get" and c[0] == "dict" and pos and pos[0][0] == "c":
                for k, v in reversed(c[1]):
                    if k == pos[0]:
                        return [(st, v)]
                    if k == "**" or k[0] != "c":
                        return [(st, ("op", ".get", c, *pos))]
                return [(st, pos[1] if len(pos) > 1 else NONE)]
            if name == "get" and c[0] == "dict" and pos and not kw:
                hits = self.lookup(c, pos[0], st)
                if hits is not None:
                    return [(s, v if v is not None else (pos[1] if len(pos) > 1 else NONE)) for s, v in hits]
            if name == "index" and c[0] in ("list", "tup") and len(pos) == 1 and not kw and pos[0][0] == "c" and all(x[0] == "c" for x in c[1]):
                hit = [i for i, x in enumerate(c[1]) if x[2] == pos[0][2]]
                if hit:
                    return [(st, C(hit[0]))]
                return [(st, Raised(("exc", "ValueError", ("pure", self.site(node, fr)))))]
            if name in PURE_METHODS:
                return self.pure_op("." + name, ((c, *pos), kw), st, fr, node)
        if recv[0] == "c" and isinstance(recv[2], str) and name in ("lower", "upper", "strip", "casefold", "title", "capitalize", "replace", "startswith", "endswith", "lstrip", "rstrip") and not kw and all(x[0] == "c" for x in pos):
            try:
                return [(st, C(getattr(recv[2], name)(*[x[2] for x in pos])))]
            except Exception:
                pass
        if recv[0] == "c" and isinstance(recv[2], str) and name in ("split", "rsplit", "partition", "rpartition", "splitlines") and all(x[0] == "c" for x in pos) and all(k != "**" and v[0] == "c" for k, v in kw):
            try:
                r = getattr(recv[2], name)(*[x[2] for x in pos], **{k: v[2] for k, v in kw})
            except Exception:
                r = None
            if isinstance(r, tuple):
                return [(st, ("tup", tuple(C(x) for x in r)))]
            if r is not None:
                return [self.mkobj(st, node, fr, "list", ("list", tuple(C(x) for x in r)))]
        if name == "format" and recv[0] == "c" and isinstance(recv[2], str):
            return [(st, ("op", ".format", recv, *pos, *(("kw", k, v) for k, v in kw)))]
        if name == "join" and recv[0] == "c" and len(pos) == 1:
            v = self.val_of(st, pos[0])
            if v[0] in ("list", "tup") and not any(x[0] == "*" for x in v[1]):
                parts = []
                for i, x in enumerate(v[1]):
                    if i:
                        parts.append(recv)
                    parts.append(x)
                return [(st, mkfstr(parts))]
            return [(st, ("op", ".join", recv, v))]
        if name == "joinpath" and pos:
            t = recv
            for x in pos:
                t = mkbin("/", t, x)
            return [(st, t)]
        if name in PURE_METHODS or ("." + name) in self.pure:
            return self.pure_op("." + name, ((recv, *pos), kw), st, fr, node)
        return self.opaque_call(st, fr, node, "." + name, recv, ar)

    def mutate(self, recv, c, name, ar, st, fr, node):
        pos, kw = ar
        st = st.copy()
        site = self.site(node, fr)
        ty = self.strip_opt(self.typeof(recv))
        if ty is not None and (ty[0] == "k" or ty[0] == "x" and ty[1].split(".")[0] in ("torch", "numpy", "pandas")):
            return None
        if c is None:
            if name in ("pop", "setdefault", "popitem"):
                self.note_mut(st, recv, name, pos)
                self.emit(st, ("mut", recv, name, pos, kw, site))
                return [(st, ("op", "." + name, recv, *pos))]
            self.note_mut(st, recv, name, pos)
            self.emit(st, ("mut", recv, name, pos, kw, site))
            return [(st, NONE)]
        val = [self.val_of(st, x) for x in pos]
        self.emit(st, ("mut", recv, name, pos, kw, site))
        key = (recv, "#")
        if name == "append" and c[0] in ("list", "g"):
            st.heap[key] = ("list", (c[1] if c[0] == "list" else (("*", c),)) + (pos[0],))
            return [(st, NONE)]
        if name == "add" and c[0] in ("set", "g"):
            st.heap[key] = ("set", (c[1] if c[0] == "set" else (("*", c),)) + (pos[0],))
            return [(st, NONE)]
        if name in ("extend", "update") and c[0] in ("list", "set"):
            its = self.literal_items(st, pos[0])
            st.heap[key] = (c[0], c[1] + (tuple(its) if its is not None else (("*", val[0]),)))
            return [(st, NONE)]
        if name == "extend" and c[0] == "g":
            its = self.literal_items(st, pos[0])
            st.heap[key] = ("list", (("*", c),) + (tuple(its) if its is not None else (("*", val[0]),)))
            return [(st, NONE)]
        if name == "update" and c[0] in ("dict", "g"):
            ent = list(c[1]) if c[0] == "dict" else [("**", c)]
            for x in pos:
                self.spread(st, ent, x)
            for k, v in kw:
                if k == "**":
                    self.spread(st, ent, v)
                else:
                    self.spread(st, ent, ("dict", ((C(k), v),)))
            st.heap[key] = ("dict", tuple(ent))
            return [(st, NONE)]
        if name == "pop" and c[0] == "dict" and pos:
            for k, v in reversed(c[1]):
                if k == pos[0]:
                    st.heap[key] = ("dict", tuple(x for x in c[1] if x[0] != pos[0]))
                    return [(st, v)]
                if k == "**" or k[0] != "c":
                    st.heap[key] = ("dict", (("**", ("op", "without", c, pos[0])),))
                    return [(st, ("op", ".pop", c, *pos))]
            if len(pos) > 1:
                return [(st, pos[1])]
            return [(st, Raised(("exc", "KeyError", self.uid(st, node, fr))))]
        if name == "setdefault" and c[0] == "dict" and pos:
            for k, v in reversed(c[1]):
                if k == pos[0]:
                    return [(st, v)]
                if k == "**" or k[0] != "c":
                    break
            else:
                d = pos[1] if len(pos) > 1 else NONE
                st.heap[key] = ("dict", c[1] + ((pos[0], d),))
                return [(st, d)]
            st.heap[key] = ("dict", (("**", ("op", "setdefault", c, *pos)),))
            return [(st, ("op", ".setdefault", c, *pos))]
        if name == "sort" and (c[0] in ("g", "list") or c[:2] == ("op", "sorted")):
            k, r = dict(kw).get("key"), dict(kw).get("reverse", FALSE)
            kt = None if k is None else self.keyfn(k, st, fr, node)
            st.heap[key] = ("op", "sorted", c) + (() if kt is None else (("keyfn", kt),)) + (() if r == FALSE else (("reverse", r),))
            return [(st, NONE)]
        if name == "clear":
            st.heap[key] = (c[0] if c[0] in ("dict", "list", "set") else c[1], ())
            return [(st, NONE)]
        st.heap[key] = ("op", "." + name, c, *pos)
        return [(st, ("op", "res." + name, c, *pos) if name in ("pop", "popitem") else NONE)]

    def materialize(self, st, t, tag="m"):
        """Turn a literal ('dict'|'list'|'set'|'new') term into an object of the heap."""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "tup":
            return ("tup", tuple(self.materialize(st, v, tag) for v in t[1]))
        if t[0] in ("dict", "list", "set", "new"):
            n = st.cnt.get(("mat", tag), 0)
            st.cnt[("mat", tag)] = n + 1
            o = ("o", ("mat:" + tag, n), t[1] if t[0] == "new" else t[0])
            if t[0] == "dict":
                st.heap[(o, "#")] = ("dict", tuple((k, self.materialize(st, v, tag)) for k, v in t[1]))
            elif t[0] == "new":
                for k, v in t[2]:
                    st.heap[(o, k)] = self.materialize(st, v, tag)
                self.types.setdefault(o, ("k", t[1], ()))
            else:
                st.heap[(o, "#")] = (t[0], tuple(self.materialize(st, v, tag) for v in t[1]))
            return o
        return t

    def opaque_call(self, st, fr, node, target, recv, ar, fn=None):
        self.stats["calls"].add(self.site(node, fr))
        st = st.copy()
        if target in self.models:
            m = self.models[target]
            if fn is not None:
                ar = canon_args(fn, ar[0], ar[1], recv)
            m = m(self, st, recv, ar) if callable(m) else m
            v = self.materialize(st, m, target)
            self.emit(st, ("call", ("call", self.uid(st, node, fr), target, recv, tuple(ar[0]), tuple(ar[1])), self.site(node, fr)))
            return [(st, v)]
        args, kw = ar
        if fn is not None:
            args, kw = canon_args(fn, args, kw, recv)
        u = self.uid(st, node, fr)
        t = ("call", u, target, recv, tuple(args), tuple(kw))
        ok = st
        out = []
        if self.exc and target not in NORAISE_EXT and target not in self.pure:
            rs = self.raises.get(target, ["?"])
            for r in rs:
                e = st.copy()
                self.emit(e, ("callexc", t, r, self.site(node, fr)))
                out.append((e, Raised(("exc", r, u))))
            if self.base_exc:
                e = st.copy()
                self.emit(e, ("callexc", t, "?B", self.site(node, fr)))
                out.append((e, Raised(("exc", "?B", u))))
        self.emit(ok, ("call", t, self.site(node, fr)))
        return [(ok, t)] + out


def _reads(e, n):
    return e is not None and any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, (ast.Load, ast.Del)) for x in ast.walk(e))


def _rbw(stmts, n):
    """-> (may read ``n`` before writing it, written on every fall-through, may fall through)"""
    wrote = False
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if _reads(s.value, n):
                return True, wrote, True
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if _reads(t, n):
                    return True, wrote, True
            if any(isinstance(x, ast.Name) and x.id == n for t in ts for x in ast.walk(t)) and getattr(s, "value", None) is not None:
                return False, True, True
        elif isinstance(s, ast.If):
            if _reads(s.test, n):
                return True, wrote, True
            a, b = _rbw(s.body, n), _rbw(s.orelse, n)
            if a[0] or b[0]:
                return True, wrote, True
            if not a[2] and not b[2]:
                return False, wrote, False
            if (a[1] or not a[2]) and (b[1] or not b[2]):
                return False, True, True
        elif isinstance(s, ast.Try):
            b = _rbw(s.body, n)
            if b[0]:
                return True, wrote, True
            rs = []
            for h in s.handlers:
                if h.name == n:
                    rs.append((False, True, True))
                    continue
                r = _rbw(h.body, n)
                if r[0] or _reads(h.type, n):
                    return True, wrote, True
                rs.append(r)
            e = _rbw(s.orelse, n)
            f = _rbw(s.finalbody, n)
            if e[0] and not b[1] or f[0]:
                return True, wrote, True
            w = (b[1] or e[1] or not b[2]) and all(r[1] or not r[2] for r in rs) or f[1]
            falls = (b[2] or any(r[2] for r in rs)) and f[2]
            if w:
                return False, True, falls
            if not falls:
                return False, wrote, False
        elif isinstance(s, ast.With):
            if any(_reads(i.context_expr, n) for i in s.items):
                return True, wrote, True
            if any(i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(i.optional_vars)) for i in s.items):
                return False, True, True
            b = _rbw(s.body, n)
            if b[0]:
                return True, wrote, True
            if b[1]:
                return False, True, True
        elif isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            if any(_reads(x, n) for x in ast.iter_child_nodes(s)):
                return True, wrote, True
            return False, wrote, False
        else:
            if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(s)):
                return True, wrote, True
    return False, wrote, True


class _FactsOnly:
    def __init__(self, facts):
        self.facts = facts
        self.heap = {}


def _uids(st):
    s = set()
    for v in st.vars.values():
        if isinstance(v, tuple):
            for x in subterms(v):
                if x and x[0] in ("o", "call"):
                    s.add(x)
    for k, v in st.heap.items():
        for x in subterms(k[0]):
            if x and x[0] in ("o", "call"):
                s.add(x)
        if isinstance(v, tuple):
            for x in subterms(v):
                if x and x[0] in ("o", "call"):
                    s.add(x)
    return s


def is_len(t):
    return t[0] == "op" and t[1] == "len" and len(t) == 3


OPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}


def mkbin(op, l, r):
    if l[0] == "c" and r[0] == "c" and isinstance(l[2], (int, float)) and isinstance(r[2], (int, float)) and not isinstance(l[2], bool) and not isinstance(r[2], bool):
        try:
            return C({"+": lambda: l[2] + r[2], "-": lambda: l[2] - r[2], "*": lambda: l[2] * r[2], "/": lambda: l[2] / r[2], "//": lambda: l[2] // r[2], "%": lambda: l[2] % r[2], "**": lambda: l[2] ** r[2]}[op]())
        except Exception:
            pass
    if op == "+":
        if l[0] == "ivl" and r[0] == "c" and isinstance(r[2], int):
            return ("ivl", min(l[1] + r[2], 3)) if l[1] + r[2] >= 0 else ("?", "neg")
        if r[0] == "ivl" and l[0] == "c" and isinstance(l[2], int):
            return ("ivl", min(r[1] + l[2], 3))
        if (l[0] == "c" and isinstance(l[2], str) or l[0] == "fstr") and (r[0] == "c" and isinstance(r[2], str) or r[0] == "fstr" or True):
            if (l[0] == "c" and isinstance(l[2], str)) or l[0] == "fstr":
                return mkfstr([l, r])
        if r[0] == "fstr" or (r[0] == "c" and isinstance(r[2], str)):
            return mkfstr([l, r])
    if op in ("+", "*", "|", "&") and sortkey(l) > sortkey(r):
        l, r = r, l
    if op == "%" and l[0] == "c" and isinstance(l[2], str):
        return ("op", "strformat", l, r)
    return ("bin", op, l, r)


def mkfstr(parts):
    out = []
    for p in parts:
        ps = p[1] if p[0] == "fstr" else (p,)
        for q in ps:
            if q[0] == "op" and q[1] == "str" and len(q) == 3:
                q = q[2]
            if q[0] == "c" and isinstance(q[2], (str, int)) and not isinstance(q[2], bool):
                q = C(str(q[2]))
            if q == C(""):
                continue
            if out and out[-1][0] == "c" and isinstance(out[-1][2], str) and q[0] == "c" and isinstance(q[2], str):
                out[-1] = C(out[-1][2] + q[2])
            else:
                out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and out[0][0] == "c" and isinstance(out[0][2], str):
        return out[0]
    return ("fstr", tuple(out))


def cls_name(t):
    if t is None:
        return None
    if t[0] == "k":
        return t[1]
    if t[0] == "x":
        return t[1].replace("builtins.", "")
    if t[0] == "c" and t[2] is None:
        return "NoneType"
    if t[0] == "op" and t[1] == "type" and len(t) == 3 and t[2] == NONE:
        return "NoneType"
    return None


DISJ = {"dict", "Mapping", "str", "float", "int", "list", "tuple", "Path", "NoneType", "Exception", "bool"}


def disjoint_types(a, b, prog):
    ta, tb = a.split(".")[-1], b.split(".")[-1]
    ca, cb = prog.classes.get(a), prog.classes.get(b)
    if ca and cb:
        return not (cb in ca.mro() or ca in cb.mro() or any(x in prog.subclasses(cb) for x in prog.subclasses(ca)))
    if ca and tb in DISJ:
        return not ca.ext_bases() or not any(e.split(".")[-1] == tb for e in ca.ext_bases())
    if cb and ta in DISJ:
        return disjoint_types(b, a, prog)
    if ta in DISJ and tb in DISJ and ta != tb:
        if {ta, tb} in ({"dict", "Mapping"}, {"bool", "int"}):
            return False
        return True
    return False


def subtype(a, b, prog):
    if a == b:
        return True
    ca, cb = prog.classes.get(a), prog.classes.get(b)
    if ca and cb:
        return cb in ca.mro()
    if a.split(".")[-1] == "dict" and b.split(".")[-1] == "Mapping":
        return True
    return False


def short(f: Func):
    if f.cls is not None:
        return f"{f.cls.name}.{f.name}"
    return f.name


def canon_args(fn, args, kw, recv):
    """Positional arguments of a known function become keyword arguments."""
    a = fn.node.args
    params = [p.arg for p in a.posonlyargs + a.args]
    if fn.kind in ("method", "class") and params:
        params = params[1:]
    if any(x[0] == "*" for x in args):
        return args, tuple(sorted(kw, key=repr))
    out = []
    rest = []
    for i, v in enumerate(args):
        if i < len(params):
            out.append((params[i], v))
        else:
            rest.append(v)
    return tuple(rest), tuple(sorted(out + list(kw), key=repr))


def dedupe(states):
    if len(states) < 2:
        return states
    seen = {}
    for s in states:
        seen.setdefault(s.key(), s)
    return list(seen.values())


def dedupe_o(res):
    seen = {}
    for s, o in res:
        seen.setdefault((s.key(), o), (s, o))
    return list(seen.values())


def shallow(st, t):
    """The content of a container that is spread into arguments (a copy of it)."""
    if t and t[0] == "o" and (t, "#muts") not in st.heap:
        c = st.heap.get((t, "#"))
        if isinstance(c, tuple) and c and c[0] == "g":
            return c
    return t


def freeze(st, t, depth=0, seen=()):
    """Replace objects by their (current) contents, for comparing structure."""
    if depth > 60 or not isinstance(t, tuple) or not t:
        return t
    if t[0] == "o":
        if t in seen:
            return t
        c = st.heap.get((t, "#"))
        if c is not None:
            return freeze(st, c, depth + 1, seen + (t,))
        fields = {n: v for (b, n), v in st.heap.items() if b == t and isinstance(n, str) and n != "#muts"}
        if fields or t[2][0:1].isupper() or "." in t[2]:
            return ("new", t[2], tuple(sorted((n, freeze(st, v, depth + 1, seen + (t,))) for n, v in fields.items())))
        return t
    if t[0] in ("c", "p", "enum", "k", "fn", "x", "m"):
        return t
    return tuple(freeze(st, x, depth + 1, seen) if isinstance(x, tuple) else x for x in t)


def _ext_len(self):
    return any(b.split(".")[-1] in ("dict", "list", "Mapping", "MutableMapping", "Sequence", "tuple", "set", "str", "int", "float", "UserDict") for b in self.ext_bases())


Class.ext_bases_have_len = _ext_len
