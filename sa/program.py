"""Loads the source tree of the analysed package and resolves names in it.

Nothing of the analysed package is imported or executed: everything is derived from
the syntax trees of the files found below ``<repo>/neps``.
"""
from __future__ import annotations

import ast
import builtins
import os
from dataclasses import dataclass, field


class AnalysisBroken(Exception):
    """An anchor the rules need cannot be found: the check cannot give an answer."""


REPO = os.environ.get("VERIF_REPO", "/repo")

BUILTIN_EXC = {
    n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)
}


@dataclass
class Func:
    qual: str
    name: str
    node: ast.AST
    module: "Module"
    cls: "Class | None" = None
    decorators: tuple = ()
    parent: "Func | None" = None
    _gen: bool | None = None

    @property
    def kind(self):
        if "staticmethod" in self.decorators:
            return "static"
        if "classmethod" in self.decorators:
            return "class"
        if self.cls is not None:
            return "method"
        return "func"

    @property
    def is_property(self):
        return any(d in ("property", "cached_property", "functools.cached_property") for d in self.decorators)

    @property
    def is_cm(self):
        return any(d.split(".")[-1] == "contextmanager" for d in self.decorators)

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node)
            )
        return self._gen

    @property
    def is_abstract(self):
        if any(d.split(".")[-1] in ("abstractmethod",) for d in self.decorators):
            return True
        body = [s for s in self.node.body if not is_docstring(s)]
        return all(
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and s.value.value is Ellipsis
            for s in body
        ) if body else True

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno} ({self.qual})"


def is_docstring(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


def walk_own(fn):
    """Walk a function body without entering nested functions/lambdas/classes."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


@dataclass
class Class:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"
    bases: list = field(default_factory=list)  # resolved: Class or ('ext', name)
    methods: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)  # class level values: name -> expr
    fields: list = field(default_factory=list)  # dataclass style: (name, annotation, default expr)
    inst_attrs: dict = field(default_factory=dict)  # self.x: T = ... annotations found in __init__
    decorators: tuple = ()

    def __hash__(self):
        return hash(self.qual)

    def __eq__(self, o):
        return isinstance(o, Class) and o.qual == self.qual

    def __repr__(self):
        return f"<Class {self.qual}>"

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno} ({self.qual})"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b[1] for b in c.bases if not isinstance(b, Class)]
        return out

    @property
    def is_dataclass(self):
        return any(d.split(".")[-1] == "dataclass" for c in self.mro() for d in c.decorators)

    @property
    def is_enum(self):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in self.ext_bases())

    @property
    def is_protocol(self):
        return any(isinstance(b, tuple) and b[1].split(".")[-1] == "Protocol" for b in self.bases)

    @property
    def is_exception(self):
        return any(b.split(".")[-1] in BUILTIN_EXC for b in self.ext_bases())

    @property
    def is_namedtuple(self):
        return any(b.split(".")[-1] == "NamedTuple" for b in self.ext_bases())

    def enum_members(self):
        return [n for n in self.attrs if not n.startswith("_")]

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_fields(self):
        """The fields of the dataclass (named tuple): those of its bases which are dataclasses themselves and its own."""
        out = {}
        for c in reversed(self.mro()):
            if not c.is_namedtuple and not any(d.split(".")[-1] == "dataclass" for d in c.decorators):
                continue
            for f in c.fields:
                out[f[0]] = (*f, c)
        return list(out.values())

    def annotation_of(self, name):
        for c in self.mro():
            for f in c.fields:
                if f[0] == name:
                    return f[1], c
            if name in c.inst_attrs:
                return c.inst_attrs[name], c
        return None


@dataclass
class Module:
    name: str
    path: str
    relpath: str
    tree: ast.Module
    source: str
    symbols: dict = field(default_factory=dict)  # name -> ('mod', m) | ('ext', dotted) | ('from', m, n) | ('def', obj) | ('val', expr)
    is_pkg: bool = False
    assigns: dict = field(default_factory=dict)


class Program:
    def __init__(self, repo=None, package="neps"):
        self.repo = repo or REPO
        self.package = package
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        self._load()
        self._subs = None

    # ------------------------------------------------------------------ loading
    def _load(self):
        root = os.path.join(self.repo, self.package)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package {root} not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {rel}: {e}") from e
                self.modules[name] = Module(name, path, rel, tree, src, is_pkg=is_pkg)
        for m in self.modules.values():
            self._collect(m)
        for c in list(self.classes.values()):
            for b in c.node.bases:
                self._add_base(c, b)

    def _add_base(self, c, b):
        if isinstance(b, ast.Subscript):
            b = b.value
        r = self.resolve_expr(c.module, b)
        if r is None:
            c.bases.append(("ext", ast.unparse(b)))
        elif r[0] == "cls":
            c.bases.append(r[1])
        elif r[0] == "ext":
            c.bases.append(("ext", r[1]))
        else:
            c.bases.append(("ext", ast.unparse(b)))

    def _collect(self, m: Module):
        def visit(stmts, guarded=False):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.symbols[a.asname] = ("modname", a.name)
                        else:
                            m.symbols[a.name.split(".")[0]] = ("modname", a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    base = self._from_base(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.symbols.setdefault("*", []).append(base) if isinstance(m.symbols.get("*"), list) else m.symbols.__setitem__("*", [base])
                        else:
                            m.symbols[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._mkfunc(m, s, None, m.name + "." + s.name)
                    m.symbols[s.name] = ("def", f)
                elif isinstance(s, ast.ClassDef):
                    c = self._mkclass(m, s, m.name + "." + s.name)
                    m.symbols[s.name] = ("def", c)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.symbols[t.id] = ("val", s.value)
                            m.assigns.setdefault(t.id, []).append(s.value)
                        elif isinstance(t, ast.Tuple):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name):
                                    m.symbols[e.id] = ("val", ast.Subscript(s.value, ast.Constant(i), ast.Load()))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.value is not None:
                        m.symbols[s.target.id] = ("val", s.value, s.annotation)
                        m.assigns.setdefault(s.target.id, []).append(s.value)
                elif isinstance(s, ast.If):
                    visit(s.body)
                    visit(s.orelse)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    for h in s.handlers:
                        visit(h.body)
                    visit(s.orelse)
                    visit(s.finalbody)

        visit(m.tree.body)

    def _from_base(self, m, s):
        if s.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            return ".".join(parts + ([s.module] if s.module else []))
        return s.module

    def _decs(self, node):
        out = []
        for d in node.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(ast.unparse(d))
        return tuple(out)

    def _mkfunc(self, m, node, cls, qual, parent=None):
        f = Func(qual, node.name, node, m, cls, self._decs(node), parent)
        decs = f.decorators
        if any(d.endswith(".setter") or d.split(".")[-1] == "overload" for d in decs):
            return f
        self.funcs[qual] = f
        return f

    def _mkclass(self, m, node, qual):
        c = Class(qual, node.name, node, m, decorators=self._decs(node))
        self.classes[qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(m, s, c, qual + "." + s.name)
                if not any(d.endswith(".setter") or d.split(".")[-1] == "overload" for d in f.decorators):
                    c.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ann = s.annotation
                annsrc = ast.unparse(ann)
                if "ClassVar" in annsrc:
                    if s.value is not None:
                        c.attrs[s.target.id] = s.value
                else:
                    c.fields.append((s.target.id, ann, s.value))
                    if s.value is not None and not self._is_field_call(s.value):
                        c.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.ClassDef):
                sub = self._mkclass(m, s, qual + "." + s.name)
                c.attrs[s.name] = sub
        for f in c.methods.values():
            for n in walk_own(f.node):
                if (
                    isinstance(n, ast.AnnAssign)
                    and isinstance(n.target, ast.Attribute)
                    and isinstance(n.target.value, ast.Name)
                    and n.target.value.id == "self"
                ):
                    c.inst_attrs.setdefault(n.target.attr, n.annotation)
                # self.x = <annotated parameter>
                if (
                    isinstance(n, ast.Assign)
                    and len(n.targets) == 1
                    and isinstance(n.targets[0], ast.Attribute)
                    and isinstance(n.targets[0].value, ast.Name)
                    and n.targets[0].value.id == "self"
                    and isinstance(n.value, ast.Name)
                ):
                    a = f.node.args
                    for p in a.posonlyargs + a.args + a.kwonlyargs:
                        if p.arg == n.value.id and p.annotation is not None:
                            c.inst_attrs.setdefault(n.targets[0].attr, p.annotation)
        return c

    @staticmethod
    def no_init(e):
        """A field() of a dataclass that the constructor does not take."""
        return Program._is_field_call(e) and any(k.arg == "init" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords)

    @staticmethod
    def _is_field_call(e):
        return isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "field"

    # --------------------------------------------------------------- resolution
    def lookup(self, m: Module, name, _depth=0):
        """-> ('cls', Class) | ('fn', Func) | ('mod', Module) | ('ext', dotted) | ('val', Module, expr, ann) | None"""
        if _depth > 20:
            return None
        s = m.symbols.get(name)
        if s is None:
            stars = m.symbols.get("*")
            if isinstance(stars, list):
                for b in stars:
                    if b in self.modules:
                        r = self.lookup(self.modules[b], name, _depth + 1)
                        if r is not None:
                            return r
            sub = m.name + "." + name
            if m.is_pkg and sub in self.modules:
                return ("mod", self.modules[sub])
            return None
        if s[0] == "modname":
            if s[1] in self.modules:
                return ("mod", self.modules[s[1]])
            return ("ext", s[1])
        if s[0] == "from":
            base, n = s[1], s[2]
            if base in self.modules:
                bm = self.modules[base]
                if base == m.name and n == name:
                    sub = base + "." + n
                    return ("mod", self.modules[sub]) if sub in self.modules else None
                r = self.lookup(bm, n, _depth + 1)
                if r is not None:
                    return r
                sub = base + "." + n
                if sub in self.modules:
                    return ("mod", self.modules[sub])
                return None
            return ("ext", f"{base}.{n}")
        if s[0] == "def":
            o = s[1]
            return ("cls", o) if isinstance(o, Class) else ("fn", o)
        if s[0] == "val":
            # alias of another name?
            return ("val", m, s[1], s[2] if len(s) > 2 else None)
        return None

    def resolve_expr(self, m, e, local=None):
        """Resolve a Name/Attribute expression at module level."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            r = self.lookup(m, e.id)
            if r is None and hasattr(builtins, e.id):
                return ("ext", "builtins." + e.id)
            if r is not None and r[0] == "val" and isinstance(r[2], (ast.Name, ast.Attribute)):
                rr = self.resolve_expr(r[1], r[2])
                return rr or r
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            return self.attr_of(b, e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        return None

    def attr_of(self, b, name):
        if b[0] == "mod":
            r = self.lookup(b[1], name)
            if r is None:
                sub = b[1].name + "." + name
                if sub in self.modules:
                    return ("mod", self.modules[sub])
            elif r[0] == "val" and isinstance(r[2], (ast.Name, ast.Attribute)):
                return self.resolve_expr(r[1], r[2]) or r
            return r
        if b[0] == "ext":
            return ("ext", b[1] + "." + name)
        if b[0] == "cls":
            c = b[1]
            fm = c.find_method(name)
            if fm:
                return ("fn", fm)
            a = c.find_attr(name)
            if a is not None:
                if isinstance(a[1], Class):
                    return ("cls", a[1])
                r = self.resolve_expr(a[0].module, a[1]) if isinstance(a[1], (ast.Name, ast.Attribute)) else None
                if r is not None and r[0] in ("cls", "fn", "ext"):
                    return r
                return ("classval", c, name, a[0], a[1])
        return None

    # ------------------------------------------------------------------ helpers
    def cls(self, qual) -> Class:
        if qual in self.classes:
            return self.classes[qual]
        tail = [c for q, c in self.classes.items() if q == qual or q.endswith("." + qual)]
        if len(tail) == 1:
            return tail[0]
        raise AnalysisBroken(f"class '{qual}' not found ({len(tail)} candidates)")

    def func(self, qual) -> Func:
        if qual in self.funcs:
            return self.funcs[qual]
        tail = [c for q, c in self.funcs.items() if q.endswith("." + qual)]
        if len(tail) == 1:
            return tail[0]
        # inherited method?
        if "." in qual:
            cq, mn = qual.rsplit(".", 1)
            try:
                c = self.cls(cq)
            except AnalysisBroken:
                c = None
            if c is not None:
                f = c.find_method(mn)
                if f is not None:
                    return f
        raise AnalysisBroken(f"function '{qual}' not found ({len(tail)} candidates)")

    def subclasses(self, c: Class):
        if self._subs is None:
            self._subs = {}
            for k in self.classes.values():
                for b in k.mro()[1:]:
                    self._subs.setdefault(b.qual, []).append(k)
        return self._subs.get(c.qual, [])

    def const_str(self, m, e):
        """Evaluate a simple constant expression, or None."""
        try:
            return ast.literal_eval(e)
        except Exception:
            return None
