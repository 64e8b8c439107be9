"""Rules about what is persisted: what a writer writes is what the reader gives back."""
from __future__ import annotations

from sa.core import *  # noqa: F403
from sa.core import ANY, AnalysisBroken, Ctx
from sa.terms import *  # noqa: F403
from rules.store import tail, raised_name

SELF = P("self")
DIR = ("DIR",)
OPQ = {"serialize", "deserialize"}


def file_of(t):
    """Normalised file term of a path expression."""
    while t[0] in ("op", "call") and (t[1] if t[0] == "op" else t[2]) in ("str", "pathlib.Path", "Path", "os.fspath") and (t[0] == "op" and len(t) == 3 or t[0] == "call" and len(t[4]) == 1):
        t = t[2] if t[0] == "op" else t[4][0]
    return t


def writes_of(p, dirp):
    """{file: (kind, data)} in order; the last write wins."""
    out = {}
    opened = {}
    sub = lambda t: rewrite(t, lambda x: DIR if x == dirp else None)  # noqa: E731
    for e in p.events:
        if e[0] != "call":
            continue
        c = e[1]
        t = c[2]
        if t == "serialize":
            out[sub(file_of(kwarg(c, "path")))] = ("yaml", kwarg(c, "data"))
        elif tail(t) == "write_text" and c[3] is not None:
            out[sub(file_of(c[3]))] = ("text", arg(c, 0, "data"))
        elif tail(t) == "open" and (c[3] is not None or t == "open"):
            f = c[3] if c[3] is not None else c[4][0]
            mode = arg(c, 0, "mode") if c[3] is not None else arg(c, 1, "mode")
            opened[("ent", c)] = (sub(file_of(f)), mode)
            opened[c] = (sub(file_of(f)), mode)
        elif tail(t) == "write" and c[3] in opened:
            f, mode = opened[c[3]]
            if mode is not None and mode[0] == "c" and "a" in str(mode[2]):
                out[f] = ("append", c[4][0])
            elif f in out and out[f][0] == "text":
                out[f] = ("text", ("bin", "+", out[f][1], c[4][0]))
            else:
                out[f] = ("text", c[4][0])
        elif tail(t) == "writelines" and c[3] in opened:
            out[opened[c[3]][0]] = ("lines", c[4][0])
        elif t in ("json.dump", "yaml.safe_dump", "yaml.dump") and len(c[4]) > 1 and c[4][1] in opened:
            out[opened[c[4][1]][0]] = ("yaml" if "yaml" in t else "json", c[4][0])
        elif tail(t) == "tofile" and c[3] is not None:
            out[sub(file_of(c[4][0] if c[4] else kwarg(c, "fid")))] = ("npy", c[3])
        elif t in ("numpy.save",):
            out[sub(file_of(c[4][0]))] = ("npsave", c[4][1])
        elif t == "torch.save":
            out[sub(file_of(arg(c, 1, "f")))] = ("torch", arg(c, 0, "obj"))
    return out


def kw_of(t, name):
    for x in t[3:]:
        if x[0] == "kw" and x[1] == name:
            return x[2]
    return None


class Compose:
    """Evaluate the reader's result on what the writer wrote."""

    def __init__(self, wp, written, dirp):
        self.wp = wp
        self.w = written
        self.dirp = dirp
        self.missing = set()
        self.kinds = set()

    def lookup(self, d, k, default=None):
        """value stored under key k by the writer's data term d"""
        ov = self.wp.state.heap.get((d, ("[]", k)))
        if ov is not None:
            return ov
        if d[0] == "o":
            d = fz(self.wp, d)
        if d[0] == "new":
            return dict(d[2]).get(k[2])
        if d[0] in ("op", "call") and (d[1] if d[0] == "op" else d[2]) in ("dataclasses.asdict", "dict", "copy.copy", "copy.deepcopy", "vars"):
            return self.lookup(d[2] if d[0] == "op" else d[4][0], k, default)
        if d[0] in ("op", "call") and (d[1] if d[0] == "op" else d[2]) == "dataclasses.replace":
            v = kw_of(d, k[2]) if d[0] == "op" else dict(d[5]).get(k[2])
            return v if v is not None else self.lookup(d[2] if d[0] == "op" else d[4][0], k, default)
        if d[0] == "dict":
            for a, v in d[1]:
                if a == k:
                    return v
            for a, v in d[1]:
                if a == "**":
                    return self.lookup(v, k, default)
            return ("ABSENT", k)
        if d[0] in ("p", "a", "it", "EL", "el"):
            return attr(d, k[2]) if isinstance(k[2], str) else ("sub", d, k)
        return ("sub", d, k)

    def go(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        t = rewrite(t, lambda x: DIR if x == self.dirp else None)
        return self.s(t)

    def data(self, f, kind, t):
        f = file_of(f)
        if f not in self.w:
            self.missing.add(f)
            return ("MISSING", f)
        k, d = self.w[f]
        if k != kind:
            self.kinds.add((f, k, kind))
        return ("F", d)

    def s(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == "call":
            n = t[2]
            if n == "deserialize":
                return self.data(kwarg(t, "path"), "yaml", t)
            if tail(n) == "read_text" and t[3] is not None:
                return self.data(t[3], "text", t)
            if n == "numpy.fromfile":
                r = self.data(arg(t, 0, "file"), "npy", t)
                return ("NP", r, arg(t, 1, "dtype") or NONE)
            if n in ("numpy.load",):
                return ("NPL", self.data(arg(t, 0), "npsave", t))
            if n == "torch.load":
                return self.data(arg(t, 0, "f"), "torch", t)
            if n == "json.loads":
                a = self.s(t[4][0])
                return ("JS", a)
        if k == "ent" and t[1][0] == "call" and tail(t[1][2]) == "open":
            c = t[1]
            f = c[3] if c[3] is not None else c[4][0]
            return ("LINES", self.data(f, "text", t))
        if k == "g" and t[1] == "dict" and t[2][0] == "op" and t[2][1] == ".items":
            el = ("EL",)
            same = ("tup", (("it", el, 0), ("it", el, 1)))
            if all(x[1] == same and all(y in ((("isnone", ("it", el, 1)), False), (("is", NONE, ("it", el, 1)), False)) for y in x[0]) for x in t[3]):
                return self.s(t[2][2])
        if k == "op" and t[1] == "kwget":
            b = self.s(t[2])
            if b[0] == "F":
                return ("F", self.lookup(b[1], t[3]))
            return ("op", "kwget", b, *t[3:])
        if k in ("sub",) or k == "op" and t[1] == ".get":
            b = self.s(t[1] if k == "sub" else t[2])
            key = t[2] if k == "sub" else t[3]
            if b[0] == "F":
                return ("F", self.lookup(b[1], key))
            return ("sub", b, self.s(key))
        if k == "op" and t[1] in (".strip", ".rstrip", "tuple", "list", "dict", "int", "float"):
            b = self.s(t[2])
            return b if b[0] == "F" else (k, t[1], b) + tuple(self.s(x) for x in t[3:])
        return tuple(self.s(x) if isinstance(x, tuple) else x for x in t)


def unF(t):
    if isinstance(t, tuple) and t and t[0] == "F":
        return unF(t[1])
    if isinstance(t, tuple):
        return tuple(unF(x) for x in t)
    return t


def pair(ctx, cls):
    c = ctx.cls(cls)
    r, w = c.methods.get("read"), c.methods.get("write")
    ctx.need(r is not None and w is not None, f"{cls} has no reader/writer")
    rp = [a.arg for a in r.node.args.args if a.arg not in ("self", "cls")]
    wp = [a.arg for a in w.node.args.args if a.arg not in ("self", "cls")]
    ctx.need(len(rp) == 1 and len(wp) == 2, f"{cls}: reader/writer take other arguments")
    return r, w, P(rp[0]), P(wp[0]), P(wp[1])


def fact_of(p, pred):
    for a, v in p.facts.items():
        r = pred(a)
        if r:
            return v
    return None


def compatible(cmp, rp, wpth, rdir):
    """Do the reader's assumptions agree with what was written?  None: undecided facts."""
    for a, v in rp.facts.items():
        b = unF(cmp.go(a))
        if b[0] == "truthy" and b[1][0] == "op" and b[1][1] in (".exists", ".is_file"):
            f = file_of(b[1][2])
            if (f in cmp.w) != v:
                return False
            continue
        if b[0] == "isnone":
            t = b[1]
            if t == NONE:
                if not v:
                    return False
                continue
            if t[0] == "ABSENT":
                if not v:
                    return False
                continue
            if t[0] in ("new", "dict", "tup", "fstr") or t[0] == "op" and t[1] == "str":
                if v:
                    return False
                continue
            w = wpth.facts.get(("isnone", t))
            if w is not None and w != v:
                return False
        if b[0] == "isinst" and b[2] == "str":
            t = b[1]
            if t == NONE and v or t[0] == "op" and t[1] == "str" and not v:
                return False
        if b[0] == "truthy":
            w = wpth.facts.get(b)
            if w is not None and w != v:
                return False
    return True


def roundtrip(ctx: Ctx, cls, check, exists_ok=True):
    """For every (write path, read path) pair that can follow each other."""
    r, w, rdir, val, wdir = pair(ctx, cls)
    wps = ctx.paths(w, opaque=OPQ, exc=False)
    rps = ctx.paths(r, opaque=OPQ, exc=False)
    n = 0
    for wp in wps:
        if wp.outcome[0] != "return":
            ctx.viol(w.qual, f"writing fails with {raised_name(wp)}", wp)
            continue
        wr = writes_of(wp, wdir)
        for rp in rps:
            cm = Compose(wp, wr, rdir)
            if not compatible(cm, rp, wp, rdir):
                continue
            if rp.outcome[0] != "return":
                ctx.viol(r.qual, f"reading back fails with {raised_name(rp)}", rp)
                continue
            n += 1
            res = cm.go(fz(rp, rp.outcome[1]))
            for f in cm.missing:
                ctx.viol(r.qual, f"reads {show(f)}, which the writer does not write", rp)
            for f, a, b in cm.kinds:
                ctx.viol(r.qual, f"reads {show(f)} as {b} although it is written as {a}", rp)
            if cm.missing:
                continue
            check(ctx, r, w, wp, rp, val, unF(fz(wp, res)), cm)
        if len(set(wr)) < len(wr):
            ctx.viol(w.qual, "the same file is written twice", wp)
    if not n:
        ctx.viol(r.qual, "nothing that is written can be read back")
    ctx.count("write_read_pairs", n)
    ctx.ob(f"{cls}: {len(wps)} write paths x {len(rps)} read paths, {n} compatible pairs composed")


def get(t, name):
    return dict(t[2]).get(name, ("ABSENT", name)) if t[0] == "new" else ("ABSENT", name)


def fields_of(ctx, name):
    c = ctx.cls(name)
    import ast

    return [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation)]


def trial_roundtrip(ctx: Ctx):
    """A trial read back has the configuration, metadata, state and report that were written."""
    mdf, rpf = fields_of(ctx, "MetaData"), fields_of(ctx, "Report")
    ctx.need(len(mdf) >= 6 and len(rpf) >= 6, "trial metadata or report have fewer fields than expected")

    def check(ctx, r, w, wp, rp, val, res, cm):
        if res[0] != "new":
            ctx.viol(r.qual, f"reading a trial gives {show(res)}", rp)
            return
        if get(res, "config") not in (attr(val, "config"), ("op", "dict", attr(val, "config"))):
            ctx.viol(r.qual, f"the configuration read back is {show(get(res, 'config'))}", rp)
        st = get(res, "state")
        while st[0] in ("op", "call") and (st[1] if st[0] == "op" else st[2]) not in (".value",) and len(st) >= 3 and st[0] == "op" and st[1] in (".strip", ".lower"):
            st = st[2]
        okst = mentions(st, lambda x: x in (attr(val, "state", "value"), attr(val, "state", "name")))
        if not okst:
            ctx.viol(r.qual, f"the state read back is {show(st)}", rp)
        md = get(res, "metadata")
        for f in mdf:
            g = get(md, f)
            if g != attr(val, "metadata", f):
                ctx.viol(r.qual, f"the trial's {f} read back is {show(g)}", rp)
        rep = get(res, "report")
        norep = wp.facts.get(("isnone", attr(val, "report")))
        if norep is True:
            if rep != NONE:
                ctx.viol(r.qual, f"a trial without report is read back with {show(rep)}", rp)
        elif rep[0] != "new":
            ctx.viol(w.qual if norep is None else r.qual, f"the report read back is {show(rep)}", rp)
        else:
            for f in rpf:
                g = get(rep, f)
                want = attr(val, "report", f)
                if f == "err":
                    e = wp.facts.get(("isnone", want))
                    ok = g == want or g[0] == "exc" and e is not True or g == ("op", "str", want) or e is True and g == NONE
                    if e is not True and g == NONE:
                        ok = False
                else:
                    ok = g == want
                if not ok:
                    ctx.viol(r.qual, f"the report's {f} read back is {show(g)}", rp)

    roundtrip(ctx, "ReaderWriterTrial", check)
    # exceptions are stored as text: nothing may copy or pickle them
    r, w, rdir, val, wdir = pair(ctx, "ReaderWriterTrial")
    for wp in ctx.paths(w, opaque=OPQ, exc=False):
        for f, (k, d) in writes_of(wp, wdir).items():
            for x in subterms(d):
                if x[0] in ("op", "call") and (x[1] if x[0] == "op" else x[2]) in ("dataclasses.asdict", "copy.deepcopy") and (x[2] if x[0] == "op" else x[4][0]) in (attr(val, "report"), val) and wp.facts.get(("isnone", attr(val, "report"))) is not True:
                    ctx.viol(w.qual, "the user's exception is copied when it is stored; exceptions that cannot be copied lose the report", wp)
    # the enum values that are written are distinct and looked up by value
    st = ctx.cls("neps.state.trial.State")
    import ast

    vals = [ast.unparse(s.value) for s in st.node.body if isinstance(s, ast.Assign)]
    if len(set(vals)) != len(vals):
        ctx.viol(st.qual, "two states are written the same way")


def optstate_roundtrip(ctx: Ctx):
    """Budget and shared optimizer state are read back as written."""
    bf = fields_of(ctx, "BudgetInfo")

    def check(ctx, r, w, wp, rp, val, res, cm):
        b, sh = get(res, "budget"), get(res, "shared_state")
        nb = None
        for a, v in rp.facts.items():
            x = unF(cm.go(a))
            if x == ("isnone", attr(val, "budget")):
                nb = v
        if nb is True or b == NONE:
            if not (b in (NONE, attr(val, "budget")) and nb is True):
                ctx.viol(r.qual, f"the budget read back is {show(b)}", rp)
        else:
            for f in bf:
                g = get(b, f)
                if g != attr(val, "budget", f):
                    ctx.viol(r.qual, f"the budget's {f} read back is {show(g)}", rp)
        tr = None
        for a, v in rp.facts.items():
            x = unF(cm.go(a))
            if x == ("truthy", attr(val, "shared_state")):
                tr = v
            if x == ("isnone", attr(val, "shared_state")) and v:
                tr = False
        if sh != attr(val, "shared_state") and not (tr is False and sh in (("dict", ()), NONE)):
            ctx.viol(r.qual, f"the optimizer's shared state read back is {show(sh)}", rp)

    roundtrip(ctx, "ReaderWriterOptimizationState", check)


def optinfo_roundtrip(ctx: Ctx):
    """The searcher's recorded description reads back as it was written."""
    def check(ctx, r, w, wp, rp, val, res, cm):
        if get(res, "info") not in (attr(val, "info"), ("op", "dict", attr(val, "info"))):
            ctx.viol(r.qual, f"the optimizer info read back is {show(get(res, 'info'))}", rp)

    roundtrip(ctx, "ReaderWriterOptimizerInfo", check)


def errors_roundtrip(ctx: Ctx):
    """Every recorded error is read back with all its fields, in order."""
    ef = fields_of(ctx, "SerializableTrialError")
    r, w, rdir, val, wdir = pair(ctx, "ReaderWriterErrDump")
    EL = ("EL",)
    nw = 0
    for wp in ctx.paths(w, opaque=OPQ, exc=False):
        wr = writes_of(wp, wdir)
        if len(wr) != 1:
            ctx.viol(w.qual, f"errors are written to {len(wr)} files", wp)
            continue
        nw += 1
        (f, (kind, d)), = wr.items()
        d = fz(wp, d)
        if kind == "append":
            ctx.viol(w.qual, "errors are appended to those already stored, which are written again", wp)
            continue
        d, gath = line_gather(d)
        if gath is None or gath[2] != attr(val, "errs") or gath[4] is not None or len(gath[3]) != 1 or gath[3][0][0]:
            ctx.viol(w.qual, f"not exactly the recorded errors are written: {show(d)}", wp)
            continue
        e = gath[3][0][1]
        js = [x for x in subterms(e) if x[0] == "call" and x[2] == "json.dumps" or x[0] == "op" and x[1] == "json.dumps"]
        if not js:
            ctx.viol(w.qual, f"an error is written as {show(e)}", wp)
            continue
        j = js[0]
        obj = j[4][0] if j[0] == "call" else j[2]
        kw = dict(j[5]) if j[0] == "call" else {}
        if "indent" in kw and kw["indent"] != NONE:
            ctx.viol(w.qual, "an error spans several lines, although it is read line by line", wp)
        cm = Compose(wp, {}, rdir)
        for rp in ctx.paths(r, opaque=OPQ, exc=False):
            res = fz(rp, rp.outcome[1]) if rp.outcome[0] == "return" else NONE
            if rp.outcome[0] == "raise":
                ctx.viol(r.qual, f"reading errors fails with {raised_name(rp)}", rp)
                continue
            errs = get(res, "errs")
            fl = rewrite(errs, lambda x: DIR if x == rdir else None)
            if errs == ("list", ()) and any(a[0] == "truthy" and mentions(a, lambda x: x[0] == "op" and x[1] in (".exists", ".is_file")) and not v for a, v in rp.facts.items()):
                continue
            if fl[0] != "g" or fl[4] is not None or len(fl[3]) != 1:
                ctx.viol(r.qual, f"errors are read back as {show(errs)}", rp)
                continue
            src = [x for x in subterms(fl[2]) if x == f]
            if not src:
                ctx.viol(r.qual, f"errors are written to {show(f)} but read from {show(fl[2])}", rp)
            lits, el = fl[3][0]
            for a, v in lits:
                blank = a[0] == "truthy" and mentions(a[1], lambda x: x == EL) and v
                if not blank:
                    ctx.viol(r.qual, f"errors are only read back when {lit((a, v))}", rp)
            if mentions(fl[2], lambda x: x[0] == "op" and x[1] in ("slice", "reversed", "sorted", "set")):
                ctx.viol(r.qual, f"errors are read back from {show(fl[2])}", rp)
            for x in ef:
                g = get(el, x)
                src = [y for y in subterms(g) if y[0] in ("call", "op") and (y[2] if y[0] == "call" else y[1]) == "json.loads"]
                ok = g[0] in ("op", "sub") and src and (g[1] == "kwget" and g[3] == C(x) or g[0] == "sub" and g[2] == C(x) or g[1] == ".get" and g[3] == C(x))
                if not ok:
                    ctx.viol(r.qual, f"an error's {x} is read back as {show(g)}", rp)
                    continue
                wv = cm.lookup(obj, C(x))
                if wv != attr(EL, x):
                    ctx.viol(w.qual, f"an error's {x} is written as {show(wv)}", wp)
    ctx.need(nw >= 1 or ctx.violations, "errors are never written")
    ctx.ob(f"{w.qual}/{r.qual}: each error is one line with {len(ef)} fields")


def line_gather(d):
    """The gather of lines in a text."""
    while True:
        if d[0] == "bin" and d[1] == "+" and d[3] in (C("\n"), C("")):
            d = d[2]
        elif d[0] == "bin" and d[1] == "+" and d[2] == C(""):
            d = d[3]
        elif d[0] == "op" and d[1] == ".join":
            if d[2] not in (C("\n"), C("")):
                return d, None
            d = d[3]
        else:
            break
    return d, (d if d[0] == "g" else None)


def seeds_roundtrip(ctx: Ctx):
    """The random state read back is the one written, for every generator."""

    def npeq(g, want):
        """g reads an array written from want"""
        x = g
        dt = None
        while True:
            if x[0] == "NP":
                dt = x[2]
                x = x[1]
            elif x[0] == "NPL":
                x = x[1]
            elif x[0] == "g" and len(x[3]) == 1 and not x[3][0][0] and x[3][0][1] in (("op", "int", ("EL",)), ("EL",)):
                x = x[2]
            elif x[0] in ("op",) and x[1] in ("numpy.array", "numpy.asarray", "tuple", "list", "int", ".tolist", ".copy", ".astype"):
                wdt = kw_of(x, "dtype") or (x[3] if len(x) > 3 and x[3][0] == "x" else None)
                if wdt is not None and dt is not None and wdt != dt:
                    return False
                x = x[2]
            elif x[0] == "call" and tail(x[2]) in ("copy", "tolist", "astype"):
                x = x[3]
            else:
                break
        if dt is not None and x == want and g[0] == "NP" and mentions(want, lambda y: y[0] == "a" and y[2] == "np_rng"):
            return dt == ("x", "numpy.uint32")
        return x == want

    def check(ctx, r, w, wp, rp, val, res, cm):
        for fld, n in (("py_rng", 3), ("np_rng", 5)):
            g = get(res, fld)
            items = g[1] if g[0] == "tup" else None
            if items is None or len(items) != n:
                ctx.viol(r.qual, f"the {fld} state read back is {show(g)}", rp)
                continue
            for i, x in enumerate(items):
                want = {("it", attr(val, fld), i), ("sub", attr(val, fld), C(i))}
                if x in want or i == 1 and any(npeq(x, y) for y in want):
                    continue
                ctx.viol(r.qual, f"part {i} of the {fld} state read back is {show(x)}", rp)
        for fld in ("torch_rng", "torch_cuda_rng"):
            g = get(res, fld)
            none = wp.facts.get(("isnone", attr(val, fld)))
            if none is True and g not in (NONE, attr(val, fld)) or none is not True and g != attr(val, fld):
                ctx.viol(r.qual, f"the {fld} state read back is {show(g)}", rp)

    roundtrip(ctx, "ReaderWriterSeedSnapshot", check)


GENS = {
    "py_rng": ("random.getstate", "random.setstate"),
    "np_rng": ("numpy.random.get_state", "numpy.random.set_state"),
    "torch_rng": (("torch.random.get_rng_state", "torch.get_rng_state"), ("torch.random.set_rng_state", "torch.set_rng_state")),
    "torch_cuda_rng": ("torch.cuda.get_rng_state_all", "torch.cuda.set_rng_state_all"),
}


def rng_capture(ctx: Ctx):
    """A snapshot captures the state of every global generator, and restoring sets them all."""

    def names(x):
        return {x} if isinstance(x, str) else set(x)

    for m in ("recapture", "new_capture"):
        f = ctx.func(f"SeedSnapshot.{m}")
        n = 0
        for p in ctx.paths(f, exc=False):
            if p.outcome[0] != "return":
                continue
            n += 1
            if m == "recapture":
                got = {k: fz(p, p.state.heap.get((SELF, k), ("KEPT", k))) for k in GENS}
            else:
                got = {k: get(fz(p, p.outcome[1]), k) for k in GENS}
            cuda = fact_of(p, lambda a: a[0] == "truthy" and mentions(a, lambda x: x[0] in ("call", "op") and "torch.cuda.is_available" in (x[1], x[2] if len(x) > 2 else None)))
            for k, (g, _) in GENS.items():
                v = got[k]
                src = [x for x in subterms(v) if x[0] in ("call", "op") and (x[2] if x[0] == "call" else x[1]) in names(g)]
                if k == "torch_cuda_rng" and cuda is not True and v == NONE:
                    continue
                if not src:
                    ctx.viol(f.qual, f"a snapshot does not contain the current {k} state ({show(v)})", p)
                    continue
                if k == "py_rng" and v != src[0]:
                    if not (v[0] == "tup" and len(v[1]) == 3 and all(x == ("it", src[0], i) for i, x in enumerate(v[1]))):
                        ctx.viol(f.qual, f"the captured {k} state is {show(v)}", p)
                if k == "np_rng" and v != src[0]:
                    if not np_tuple(v, src[0]):
                        ctx.viol(f.qual, f"the captured {k} state is {show(v)}", p)
                if k == "np_rng":
                    lg = dict(src[0][5]).get("legacy") if src[0][0] == "call" else kw_of(src[0], "legacy")
                    if lg is not None and lg != TRUE:
                        ctx.viol(f.qual, "the numpy state is captured in a form that cannot be stored", p)
        ctx.need(n >= 1 or ctx.violations, f"{m} never returns")
    f = ctx.func("SeedSnapshot.set_as_global_seed_state")
    for p in ctx.paths(f, exc=False):
        if p.outcome[0] != "return":
            ctx.viol(f.qual, f"restoring fails with {raised_name(p)}", p)
            continue
        cuda = fact_of(p, lambda a: a[0] == "truthy" and mentions(a, lambda x: x[0] in ("call", "op") and "torch.cuda.is_available" in (x[1], x[2] if len(x) > 2 else None)))
        for k, (_, s) in GENS.items():
            cs = [e[1] for e in p.events if e[0] == "call" and e[1][2] in names(s)]
            none = p.facts.get(("isnone", attr(SELF, k)))
            if none is True:
                if cs:
                    ctx.viol(f.qual, f"a missing {k} state is restored", p)
                continue
            if k == "torch_cuda_rng" and cuda is False:
                continue
            if not cs:
                if k.startswith("torch") and none is None and not [1 for a in p.facts if contains(a, attr(SELF, k))]:
                    # never looked at: the other torch state decided - only fine if both missing
                    pass
                ctx.viol(f.qual, f"the {k} state is not restored", p)
                continue
            a = cs[-1][4][0] if cs[-1][4] else (cs[-1][5][0][1] if cs[-1][5] else NONE)
            if a != attr(SELF, k) and not (a[0] in ("call", "op") and contains(a, attr(SELF, k)) and tail(a[2] if a[0] == "call" else a[1]) in ("clone", "copy", "tuple", "list")):
                ctx.viol(f.qual, f"the {k} state is restored from {show(a)}", p)
        for e in p.events:
            if e[0] == "call" and tail(e[1][2]) in ("seed", "manual_seed", "manual_seed_all"):
                ctx.viol(f.qual, f"a generator is re-seeded instead of restored ({e[1][2]})", p)
    ctx.ob("SeedSnapshot: capture and restore of 4 generators")


def np_tuple(v, s):
    if v[0] != "tup":
        return False
    items = []
    for x in v[1]:
        items.append(x)

    def base(x):
        while x[0] in ("call", "op") and tail(x[2] if x[0] == "call" else x[1]) in ("copy", "array", "asarray", "int", "float", "str"):
            x = x[3] if x[0] == "call" else x[2]
        return x

    pos = 0
    for x in items:
        x = base(x)
        if x in (("it", s, pos), ("sub", s, C(pos))):
            pos += 1
        elif mentions(x, lambda y: y[0] == "op" and y[1] == "slice" and y[2] == s and y[3] == C(pos) and y[4] == NONE) or x[0] == "star" or (x[0] == "**"):
            pos = 5
        else:
            return False
    return pos == 5
