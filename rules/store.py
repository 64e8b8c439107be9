"""Rules about the shared store: versions, locks, locations, readers and writers."""
from __future__ import annotations

from sa.core import *  # noqa: F403
from sa.core import ANY, AnalysisBroken, Ctx, _Need, Q
from sa.terms import *  # noqa: F403

SELF = P("self")
EXC = "neps.exceptions."


def tail(t):
    return t.split(".")[-1]


def proto(e, name):
    """Is event ``e`` a completed call of protocol method ``name`` (Versioner.bump ...)?"""
    return e[0] == "call" and tail(e[1][2]) == name


def ev_index(p, name, kinds=("call",)):
    return [i for i, e in enumerate(p.events) if e[0] in kinds and tail(e[1][2]) == name]


def pos_or_kw(call, i):
    """i-th argument of a protocol call (names differ between implementations)."""
    if len(call[4]) > i:
        return call[4][i]
    names = {"read": ["loc"], "write": ["value", "loc"]}.get(tail(call[2]), [])
    if i < len(names):
        return dict(call[5]).get(names[i])
    vals = [v for _, v in call[5]]
    return vals[i] if i < len(vals) else None


def raised_name(p):
    return p.outcome[1][1] if p.outcome[0] == "raise" else None


def propagated(p):
    """The path ends with an exception that came out of an opaque operation."""
    return p.outcome[0] == "raise" and p.outcome[1][1] in ("?", "?B")


VR = "VersionedResource"


def eqfact(p, a, b):
    for x, v in p.facts.items():
        if x[0] == "eq" and {x[1], x[2]} == {a, b}:
            return v
    return None


def cur_calls(p):
    return [(i, e[1]) for i, e in enumerate(p.events) if proto(e, "current") and e[1][2] != "VersionedResource.current"]


def version_put(ctx: Ctx):
    """put: refused without any effect unless the held version is the newest one; otherwise
    the data is written and then announced under a new version that is remembered."""
    f = ctx.func(f"{VR}.put")
    paths = ctx.paths(f)
    ver, res_cur, loc = attr(SELF, "_version"), attr(SELF, "_current"), attr(SELF, "_location")
    dparam = P([a.arg for a in f.node.args.args if a.arg != "self"][0])
    refused = done = 0
    for p in paths:
        cur = cur_calls(p)
        writes, bumps = ev_index(p, "write", ("call", "callexc")), ev_index(p, "bump", ("call", "callexc"))
        stores = [e for e in p.events if e[0] == "store" and e[1] == SELF]
        same = None
        for i, c in cur:
            v = eqfact(p, ver, c)
            if v is not None:
                same = (i, v)
                break
        for w in writes + bumps:
            if same is None or not same[1] or same[0] > w:
                ctx.viol(f.qual, "data is written or announced without the held version having been found to be the newest", p)
        if same is not None and not same[1]:
            refused += 1
            if p.outcome[0] != "raise" or not tail(raised_name(p)) == "VersionMismatchError":
                ctx.viol(f.qual, "a write with an outdated version is not refused with a version mismatch", p)
            if stores or writes or bumps:
                ctx.viol(f.qual, "a refused write has effects", p)
        if p.outcome[0] == "return":
            if same is None or not same[1]:
                ctx.viol(f.qual, "a write succeeds although the held version may be outdated", p)
                continue
            done += 1
            wc = [p.events[i][1] for i in ev_index(p, "write")]
            bc = [(i, p.events[i][1]) for i in ev_index(p, "bump")]
            if len(wc) != 1 or pos_or_kw(wc[0], 0) != dparam or pos_or_kw(wc[0], 1) != loc or wc[0][3] != attr(SELF, "_reader_writer"):
                ctx.viol(f.qual, "a successful write does not write the given data to the resource's location exactly once", p)
            if len(bc) != 1 or bc[0][1][3] != attr(SELF, "_versioner"):
                ctx.viol(f.qual, "a successful write does not create exactly one new version", p)
            elif wc and ev_index(p, "write")[0] > bc[0][0]:
                ctx.viol(f.qual, "the new version is announced before the data is written", p)
            h = p.state.heap
            if not bc or h.get((SELF, "_version")) != bc[0][1]:
                ctx.viol(f.qual, "the new version is not remembered by the writer", p)
            if h.get((SELF, "_current"), res_cur) != dparam:
                ctx.viol(f.qual, "the written data is not what the writer holds afterwards", p)
        if propagated(p) and any(e[0] == "callexc" and tail(e[1][2]) in ("write", "current") for e in p.events):
            if any(e[2] == "_version" for e in stores) or [i for i in bumps if i < [j for j, e in enumerate(p.events) if e[0] == "callexc"][0]]:
                ctx.viol(f.qual, "a write that failed is announced as a new version", p)
    ctx.need(refused >= 1 or ctx.violations, "no refusing path in put")
    if not done:
        ctx.viol(f.qual, "no write can ever succeed")
    ctx.ob(f"{f.qual}: {len(paths)} paths, {refused} refusing, {done} writing")


def version_sync(ctx: Ctx):
    """sync: afterwards the held data and version are the newest, a missing record is reported."""
    for name in ("sync", "sync_and_get"):
        f = ctx.func(f"{VR}.{name}")
        paths = ctx.paths(f)
        ver, loc = attr(SELF, "_version"), attr(SELF, "_location")
        for p in paths:
            cur = cur_calls(p)
            stores = {e[2] for e in p.events if e[0] == "store" and e[1] == SELF}
            h = p.state.heap
            if p.outcome[0] == "return":
                if not cur:
                    ctx.viol(f.qual, "returns without having looked up the newest version", p)
                    continue
                c = cur[-1][1]
                if p.facts.get(("isnone", c)) is not False:
                    ctx.viol(f.qual, "a removed record is not reported", p)
                same = eqfact(p, ver, c)
                nv, nc = h.get((SELF, "_version"), ver), h.get((SELF, "_current"), attr(SELF, "_current"))
                isread = nc[0] == "call" and tail(nc[2]) == "read" and pos_or_kw(nc, 0) == loc and nc[3] == attr(SELF, "_reader_writer")
                if same is True:
                    ok = nv in (ver, c) and (nc == attr(SELF, "_current") or isread)
                else:
                    ok = nv == c and isread
                if not ok:
                    ctx.viol(f.qual, "returns with data or version that are not the newest", p)
                if isread and cur and ev_index(p, "read")[0] < cur[0][0]:
                    pass
                if name == "sync_and_get" and p.outcome[1] != nc:
                    ctx.viol(f.qual, "does not return the newest data", p)
            elif propagated(p):
                if "_version" in stores and "_current" not in stores:
                    ctx.viol(f.qual, "a failed read leaves old data marked as newest", p)
            elif cur and p.facts.get(("isnone", cur[-1][1])) is True:
                if tail(raised_name(p)) != "VersionedResourceRemovedError":
                    ctx.viol(f.qual, "a removed record is reported with the wrong error", p)
            else:
                ctx.viol(f.qual, f"fails with {raised_name(p)} although the record exists", p)
        ctx.ob(f"{f.qual}: {len(paths)} paths")


def version_new(ctx: Ctx):
    """new: refuses an existing record untouched; the record exists only once it is complete."""
    f = ctx.func(f"{VR}.new")
    paths = ctx.paths(f)
    names = [a.arg for a in f.node.args.kwonlyargs + f.node.args.args]
    ctx.need({"data", "location", "versioner", "reader_writer"} <= set(names), "new() has other parameters")
    ok = ref = 0
    for p in paths:
        cur = [(i, c) for i, c in cur_calls(p) if c[3] == P("versioner")]
        writes, bumps = ev_index(p, "write", ("call", "callexc")), ev_index(p, "bump", ("call", "callexc"))
        for w in writes + bumps:
            good = [c for i, c in cur if i < w and p.facts.get(("isnone", c)) is True]
            if not good:
                ctx.viol(f.qual, "a record is created without having checked that none exists", p)
        for b in bumps:
            if not [w for w in ev_index(p, "write") if w < b]:
                ctx.viol(f.qual, "a record is marked as existing before its data was written", p)
        if any(p.facts.get(("isnone", c)) is False for _, c in cur):
            ref += 1
            if p.outcome[0] != "raise" or tail(raised_name(p)) != "VersionedResourceAlreadyExistsError":
                ctx.viol(f.qual, "an existing record is not refused", p)
        elif p.outcome[0] == "return":
            ok += 1
            wc = [p.events[i][1] for i in ev_index(p, "write")]
            bc = [p.events[i][1] for i in ev_index(p, "bump")]
            r = fz(p, p.outcome[1])
            if len(wc) != 1 or pos_or_kw(wc[0], 0) != P("data") or pos_or_kw(wc[0], 1) != P("location") or wc[0][3] != P("reader_writer"):
                ctx.viol(f.qual, "the new record's data is not written to its location exactly once", p)
            if len(bc) != 1 or bc[0][3] != P("versioner"):
                ctx.viol(f.qual, "a new record does not get exactly one version", p)
                continue
            want = {"_current": P("data"), "_location": P("location"), "_version": bc[0], "_versioner": P("versioner"), "_reader_writer": P("reader_writer")}
            check_fields(ctx, f, r, want, p)
        elif not propagated(p):
            ctx.viol(f.qual, f"fails with {raised_name(p)} although no record exists", p)
    if not ok:
        ctx.viol(f.qual, "no record can ever be created")
    ctx.ob(f"{f.qual}: {len(paths)} paths, {ok} creating, {ref} refusing")


def check_fields(ctx, f, r, want, p):
    if r[0] != "new":
        ctx.viol(f.qual, f"returns {show(r)} instead of a resource", p)
        return
    got = dict(r[2])
    for k, v in want.items():
        if got.get(k) != v:
            ctx.viol(f.qual, f"the returned resource has {k}={show(got.get(k) or NONE)} instead of {show(v)}", p)


def version_load(ctx: Ctx):
    """Loading reads the record together with the version it had, or fails if it has none."""
    f = ctx.func(f"{VR}.load")
    paths = ctx.paths(f)
    for p in paths:
        cur = [(i, c) for i, c in cur_calls(p) if c[3] == P("versioner")]
        if p.outcome[0] == "return":
            rd = [p.events[i][1] for i in ev_index(p, "read")]
            if not cur or not any(p.facts.get(("isnone", c)) is False for _, c in cur):
                ctx.viol(f.qual, "a record that does not exist is loaded", p)
                continue
            if len(rd) < 1 or pos_or_kw(rd[-1], 0) != P("location") or rd[-1][3] != P("reader_writer"):
                ctx.viol(f.qual, "the record is not read from its location", p)
                continue
            r = fz(p, p.outcome[1])
            want = {"_current": rd[-1], "_location": P("location"), "_version": cur[-1][1], "_versioner": P("versioner"), "_reader_writer": P("reader_writer")}
            check_fields(ctx, f, r, want, p)
        elif not propagated(p):
            if not any(p.facts.get(("isnone", c)) is True for _, c in cur) or tail(raised_name(p)) != "VersionedResourceDoesNotExistsError":
                ctx.viol(f.qual, f"loading fails with {raised_name(p)}", p)
        for e in p.events:
            if e[0] in ("call", "callexc") and tail(e[1][2]) in ("write", "bump"):
                ctx.viol(f.qual, "loading a record changes it", p)
    ctx.ob(f"{f.qual}: {len(paths)} paths")


# -------------------------------------------------------------------- locked access
TOUCH = {"current", "bump", "read", "write"}


def lock_spans(p):
    """Indices of events at which each lock term is held."""
    held, out = [], []
    for e in p.events:
        if e[0] == "enter":
            held.append(e[1])
        elif e[0] == "exit":
            for i in range(len(held) - 1, -1, -1):
                if held[i] == e[1]:
                    del held[i]
                    break
        out.append(tuple(held))
    return out, held


def is_lock_of(t, locker):
    return t[0] == "call" and tail(t[2]) == "lock" and t[3] == locker


SYNCED_METHODS = {"new": P("locker"), "load": P("locker"), "new_or_load": P("locker"), "synced": attr(SELF, "_locker"), "put": attr(SELF, "_locker"), "acquire": attr(SELF, "_locker")}


def synced_locked(ctx: Ctx):
    """Every access to a shared record happens while its own lock is held, and the lock is
    released on every way out."""
    c = ctx.cls("Synced")
    n = 0
    # resolve the operation handed out by acquire (documented unsafe: only valid inside)
    unsafe = set()
    for m, locker in SYNCED_METHODS.items():
        f = c.methods.get(m)
        ctx.need(f is not None, f"Synced.{m} is gone")
        for p in ctx.paths(f, base_exc=True, raises={}):
            spans, rest = lock_spans(p)
            for i, e in enumerate(p.events):
                touches = e[0] in ("call", "callexc") and tail(e[1][2]) in TOUCH and e[1][3] is not None
                touches |= e[0] == "store" and e[1][0] == "a" and e[1][2] == "_resource"
                touches |= e[0] in ("yield", "yieldexc")
                if touches:
                    n += 1
                    if not any(is_lock_of(l, locker) for l in spans[i]):
                        what = show(e[1]) if e[0] != "store" else f"{show(e[1])}.{e[2]}"
                        ctx.viol(f.qual, f"the shared record is accessed ({tail(what)}) without holding its lock", p)
            if rest:
                ctx.viol(f.qual, "the lock is not released on this way out", p)
            for e in p.events:
                if e[0] == "yield":
                    v = fz(p, e[1])
                    good = v[0] == "tup" and len(v[1]) == 2
                    data = v[1][0] if good else None
                    put = v[1][1] if good else None
                    r = attr(SELF, "_resource")
                    isnew = data == attr(r, "_current") or (data is not None and data[0] == "call" and tail(data[2]) == "read")
                    curs = [x for x in p.events if proto(x, "current")]
                    if not good or not isnew or not curs:
                        ctx.viol(f.qual, "the data handed out under the lock is not the newest", p)
                    elif data == attr(r, "_current") and not any(eqfact(p, attr(r, "_version"), x[1]) for x in curs):
                        ctx.viol(f.qual, "the data handed out under the lock may be outdated", p)
                    if not good or put is None or put[0] != "bm" or put[1] not in (SELF, r):
                        ctx.viol(f.qual, "the update operation handed out under the lock does not belong to the record", p)
                    else:
                        unsafe.add(put[2])
                if e[0] == "yieldexc" and p.outcome[0] != "raise":
                    ctx.viol(f.qual, "an error raised while the lock is held is swallowed", p)
    for q in unsafe:
        f = ctx.prog.funcs.get(q)
        ctx.need(f is not None, f"operation {q}")
        for p in ctx.paths(f, exc=False):
            if p.outcome[0] == "return":
                w = [e[1] for e in p.events if proto(e, "write")]
                if len(w) != 1:
                    ctx.viol(f.qual, "the update operation handed out under the lock does not write the record", p)
            elif tail(raised_name(p)) != "VersionMismatchError":
                ctx.viol(f.qual, f"the update operation fails with {raised_name(p)}", p)
    ctx.need(n >= 10, f"only {n} accesses to shared records found in Synced")
    ctx.count("locked_accesses", n)
    ctx.ob(f"Synced: {n} accesses on all paths are under the record's lock")


def synced_results(ctx: Ctx):
    """What the locked operations return."""
    c = ctx.cls("Synced")
    r = attr(SELF, "_resource")
    ops = {f"{VR}.{x}" for x in ("new", "load", "sync", "sync_and_get", "put")}
    # synced -> newest data
    f = c.methods["synced"]
    for p in ctx.paths(f, exc=False):
        if p.outcome[0] != "return":
            continue
        cur = cur_calls(p)
        v = p.outcome[1]
        ok = bool(cur) and (
            (v[0] == "call" and tail(v[2]) == "read" and v[3] == attr(r, "_reader_writer"))
            or (v == attr(r, "_current") and any(eqfact(p, attr(r, "_version"), x) for _, x in cur))
        )
        if not ok:
            ctx.viol(f.qual, "returns data that may be outdated", p)
    f = c.methods["put"]
    d = P([a.arg for a in f.node.args.args if a.arg != "self"][0])
    for p in ctx.paths(f, exc=False, opaque={f"{VR}.put"}):
        cs = calls(p, f"{VR}.put")
        if p.outcome[0] == "return" and not (len(cs) == 1 and cs[0][1][3] == r and kwarg(cs[0][1], "data", arg(cs[0][1], 0)) == d):
            ctx.viol(f.qual, "the given data is not put", p)
    for nm, op in (("new", f"{VR}.new"), ("load", f"{VR}.load")):
        f = c.methods[nm]
        for p in ctx.paths(f, exc=False, opaque={op}):
            if p.outcome[0] != "return":
                continue
            v = fz(p, p.outcome[1])
            got = dict(v[2]) if v[0] == "new" else {}
            cs = calls(p, op)
            want = {"location": P("location"), "versioner": P("versioner"), "reader_writer": P("reader_writer")}
            if nm == "new":
                want["data"] = P("data")
            if len(cs) != 1 or dict(cs[0][1][5]) != want:
                ctx.viol(f.qual, "does not create/load the record it was asked for", p)
            elif got.get("_resource") != cs[0][1] or got.get("_locker") != P("locker"):
                ctx.viol(f.qual, "the returned resource is not tied to its record and lock", p)
    f = c.methods["new_or_load"]
    AE = EXC + "VersionedResourceAlreadyExistsError"
    seen = set()
    for p in ctx.paths(f, opaque={"Synced.new", "Synced.load"}, raises={"Synced.new": [AE, "builtins.OSError"], "Synced.load": ["builtins.OSError"]}):
        news = calls(p, "Synced.new")
        loads = calls(p, "Synced.load")
        nexc = [e for e in p.events if e[0] == "callexc" and e[1][2] == "Synced.new"]
        args = {k: P(k) for k in ("locker", "location", "versioner", "reader_writer")}
        if p.outcome[0] == "return":
            seen.add("new" if news else "load")
            t = news[0][1] if news else loads[0][1] if loads else None
            if t is None or p.outcome[1] != t:
                ctx.viol(f.qual, "returns neither the created nor the loaded record", p)
            elif news and dict(t[5]) != {**args, "data": P("data")} or not news and dict(t[5]) != args:
                ctx.viol(f.qual, "creates or loads another record than asked for", p)
            if not news and not (nexc and nexc[0][2] == AE):
                ctx.viol(f.qual, "loads although the record may not exist", p)
        elif nexc and nexc[0][2] == AE and not any(e[0] == "callexc" and e[1][2] == "Synced.load" for e in p.events):
            ctx.viol(f.qual, "an existing record is not loaded", p)
    if seen != {"new", "load"}:
        ctx.viol(f.qual, f"only ever does: {sorted(seen)}")
    ctx.ob("Synced: results of new, load, new_or_load, synced, put")


def file_lock_exclusive(ctx: Ctx):
    """The file lock is an exclusive lock on the configured file, held while the body runs."""
    f = ctx.func("FileLocker.lock")
    n = 0
    for p in ctx.paths(f, base_exc=True):
        spans, rest = lock_spans(p)
        for i, e in enumerate(p.events):
            if e[0] in ("yield", "yieldexc"):
                n += 1
                ls = [t for t in spans[i] if t[0] == "call" and t[2].startswith("portalocker.") and tail(t[2]) in ("Lock", "RLock", "TemporaryFileLock")]
                if not ls:
                    ctx.viol(f.qual, "the body runs without the file being locked", p)
                    continue
                t = ls[-1]
                path = arg(t, 0, "filename")
                if path is None or strip_path(path) != attr(SELF, "lock_path"):
                    ctx.viol(f.qual, f"another file than the configured one is locked ({show(path or NONE)})", p)
                fl = arg(t, 4, "flags")
                fl = ("op", "default-flags") if fl is None else fl
                names = {x[1].split(".")[-1] for x in subterms(fl) if x[0] == "x"} | {x[2] for x in subterms(fl) if x[0] in ("a", "enum") and isinstance(x[2], str)}
                default = fl == ("op", "default-flags")
                if not default and not names & {"LOCK_EX", "EXCLUSIVE"} or names & {"LOCK_SH", "SHARED", "LOCK_UN", "UNBLOCK"} or mentions(fl, lambda x: x[0] == "bin" and x[1] not in ("|",)):
                    ctx.viol(f.qual, f"the lock is not exclusive (flags {show(fl)})", p)
                to = arg(t, 2, "timeout")
                if to != attr(SELF, "timeout"):
                    ctx.viol(f.qual, f"the configured waiting time is not used (timeout={show(to or NONE)})", p)
                fw = arg(t, 5, "fail_when_locked")
                fparam = [a.arg for a in f.node.args.kwonlyargs + f.node.args.args if a.arg not in ("self",)]
                if fw is not None and fw != FALSE and fw not in [P(x) for x in fparam]:
                    ctx.viol(f.qual, f"a held lock is not waited for (fail_when_locked={show(fw)})", p)
                ci = arg(t, 3, "check_interval")
                if ci is not None and ci != attr(SELF, "poll"):
                    ctx.viol(f.qual, "the configured polling interval is not used", p)
            if e[0] == "yieldexc" and p.outcome[0] != "raise":
                ctx.viol(f.qual, "an error raised while the lock is held is swallowed", p)
        if rest:
            ctx.viol(f.qual, "the file lock is not released", p)
    ctx.need(n >= 2, "FileLocker.lock does not hand over control under a lock")
    # default of fail_if_locked
    a = f.node.args
    for prm, d in list(zip(a.kwonlyargs, a.kw_defaults)) + list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)):
        import ast

        if d is not None and not (isinstance(d, ast.Constant) and not d.value):
            ctx.viol(f.qual, f"a held lock is not waited for by default ({prm.arg}={ast.unparse(d)})")
    # the lock path is the constructor's
    pi = ctx.cls("FileLocker").methods.get("__post_init__")
    if pi is not None:
        for p in ctx.paths(pi, exc=False):
            v = p.state.heap.get((SELF, "lock_path"), attr(SELF, "lock_path"))
            if strip_path(v) != attr(SELF, "lock_path"):
                ctx.viol(pi.qual, f"the lock file becomes {show(v)}", p)
    ctx.ob(f"FileLocker: {n} hand-overs under an exclusive lock")


def strip_path(t):
    """Ignore .absolute()/.resolve()/Path()/str()."""

    def f(x):
        if x[0] == "op" and x[1] in (".absolute", ".resolve", "pathlib.Path", "str", ".expanduser") and len(x) >= 3:
            return strip_path(x[2])
        if x[0] == "fstr" and len(x[1]) == 1:
            return strip_path(x[1][0])
        return None

    return rewrite(t, f)


def is_file(t, f):
    """Term ``t`` denotes the file ``f`` (an attribute of self)."""
    return strip_path(t) == f


def file_version_tags(ctx: Ctx):
    """Versions on disk: absent file = no version; every bump writes a fresh tag and returns it."""
    vf = attr(SELF, "version_file")
    f = ctx.func("FileVersioner.current")
    n = 0
    NF = "builtins.FileNotFoundError"
    for p in ctx.paths(f, raises={".read_text": [NF, "?"]}):
        n += 1
        ex = [v for a, v in p.facts.items() if a[0] == "truthy" and a[1][0] in ("op",) and a[1][1] in (".exists", ".is_file") and is_file(a[1][2], vf)]
        missing = (ex and not ex[-1]) or any(e[0] == "callexc" and e[2] == NF and is_file(e[1][3], vf) for e in p.events)
        if p.outcome[0] == "return":
            v = p.outcome[1]
            rd = is_read(v)
            if rd is not None and is_file(rd, vf):
                continue
            if v == NONE and missing:
                continue
            ctx.viol(f.qual, f"the current version is reported as {show(v)}", p)
    f = ctx.func("FileVersioner.bump")
    for p in ctx.paths(f, exc=False):
        ws = [written(e) for e in p.events]
        ws = [w for w in ws if w is not None]
        if p.outcome[0] != "return":
            ctx.viol(f.qual, f"fails with {raised_name(p)}", p)
            continue
        v = p.outcome[1]
        if len(ws) != 1 or not is_file(ws[0][0], vf):
            ctx.viol(f.qual, "the new version is not written to the version file exactly once", p)
        elif ws[0][1] != v:
            ctx.viol(f.qual, "the returned version is not the one written", p)
        if not mentions(v, lambda x: x[0] == "call" and (x[2].startswith(("uuid.", "secrets.", "os.urandom", "time.time_ns")))):
            ctx.viol(f.qual, f"versions may repeat: the tag is {show(v)}", p)
        if v[0] == "sub" or v[0] == "op" and v[1] == "slice":
            ctx.viol(f.qual, f"versions may repeat: the tag is shortened ({show(v)})", p)
    ctx.ob(f"FileVersioner: {n} read paths, fresh tags on bump")


def is_read(v):
    """The file whose whole text ``v`` is, or None."""
    if v[0] == "call" and v[2] == ".read_text":
        return v[3]
    if v[0] == "call" and v[2] == ".read" and v[3] and v[3][0] == "ent":
        o = v[3][1]
        if o[0] == "call" and tail(o[2]) == "open":
            return o[3] if o[3] is not None else arg(o, 0)
    return None


def written(e):
    if e[0] == "call" and e[1][2] == ".write_text":
        return (e[1][3], arg(e[1], 0, "data"))
    if e[0] == "call" and e[1][2] == ".write" and e[1][3] and e[1][3][0] == "ent":
        o = e[1][3][1]
        if o[0] == "call" and tail(o[2]) == "open":
            return (o[3] if o[3] is not None else arg(o, 0), arg(e[1], 0))
    return None


# ------------------------------------------------------------------------ locations
SYN = {"Synced.new", "Synced.load", "Synced.new_or_load", "Synced.synced"}
REPO = "TrialRepoInDirectory"


def syn_desc(p, call):
    """(location, lock path, version file, reader/writer) of a Synced.* call."""
    k = {n: fz(p, v) for n, v in call[5]}
    lk = dict(k["locker"][2]) if k.get("locker", ("",))[0] == "new" else {}
    vs = dict(k["versioner"][2]) if k.get("versioner", ("",))[0] == "new" else {}
    return {
        "location": strip_path(k.get("location", NONE)),
        "lock": strip_path(lk.get("lock_path", NONE)),
        "version": strip_path(vs.get("version_file", NONE)),
        "format": k.get("reader_writer", NONE),
        "timeout": lk.get("timeout", NONE),
        "data": k.get("data"),
    }


def resource_layout(ctx: Ctx):
    """Creating and loading a run agree on where each record, its lock and its version live,
    and no two records share any of them."""
    cre = ctx.func("create_or_load_filebased_neps_state")
    loa = ctx.func("load_filebased_neps_state")
    desc = {}
    for f in (cre, loa):
        n = 0
        for p in ctx.paths(f, opaque=SYN, exc=False):
            if p.outcome[0] != "return":
                continue
            st = fz(p, p.outcome[1])
            ctx.need(st[0] == "new", f"{f.qual} does not build the state")
            raw = {n: v for (b, n), v in p.state.heap.items() if b == p.outcome[1]}
            n += 1
            for fld, v in raw.items():
                if v[0] == "call" and v[2] in SYN:
                    d = syn_desc(p, v)
                    d.pop("data")
                    if v[2] == "Synced.new":
                        ctx.viol(f.qual, f"{fld} cannot be opened a second time", p)
                    if f is cre and v[2] == "Synced.load":
                        ctx.viol(f.qual, f"{fld} is not created for a new run", p)
                    if f is loa and v[2] != "Synced.load":
                        ctx.viol(f.qual, f"loading a run may create {fld}", p)
                    old = desc.setdefault(fld, (d, f.qual))
                    for k in ("location", "lock", "version", "format"):
                        if old[0][k] != d[k]:
                            ctx.viol(f.qual, f"{fld}: {k} is {show(d[k])} here but {show(old[0][k])} in {old[1]}")
                elif fld == "_trials":
                    d = strip_path(fz(p, v))
                    old = desc.setdefault(fld, (d, f.qual))
                    if old[0] != d:
                        ctx.viol(f.qual, f"trials are kept at {show(d)} here but at {show(old[0])} in {old[1]}")
                elif fld == "location":
                    d = strip_path(v)
                    if d != P("directory"):
                        ctx.viol(f.qual, f"the run's location is {show(v)}", p)
                else:
                    ctx.viol(f.qual, f"{fld} is not a shared record ({show(v)})", p)
        ctx.need(n, f"{f.qual} never returns")
    syn = {k: v[0] for k, v in desc.items() if isinstance(v[0], dict)}
    ctx.need(len(syn) >= 4, f"only {len(syn)} shared records found")
    for k in ("lock", "version"):
        seen = {}
        for fld, d in syn.items():
            if d[k] == NONE:
                ctx.viol(cre.qual, f"{fld} has no {k}")
            if d[k] in seen:
                ctx.viol(cre.qual, f"{fld} and {seen[d[k]]} share their {k} {show(d[k])}")
            seen[d[k]] = fld
    files = {}
    for fld, d in syn.items():
        if not mentions(d["location"], lambda x: x == P("directory")) or not mentions(d["lock"], lambda x: x == P("directory")):
            ctx.viol(cre.qual, f"{fld} does not live in the run's directory ({show(d['location'])}, {show(d['lock'])})")
        if d["lock"] == d["version"]:
            ctx.viol(cre.qual, f"{fld}: lock and version are the same file")
        key = (d["location"], d["format"])
        if key in files:
            ctx.viol(cre.qual, f"{fld} and {files[key]} are stored in the same files")
        files[key] = fld
    ctx.count("shared_records", len(syn))
    ctx.ob(f"layout of {len(syn)} shared records agrees between creating and loading")


def initial_records(ctx: Ctx):
    """A new run starts with the given optimizer information and state, the current random
    state and no errors; the optimizer information of an existing run must match."""
    f = ctx.func("create_or_load_filebased_neps_state")
    good = bad = 0
    for p in ctx.paths(f, opaque=SYN | {"SeedSnapshot.new_capture"}, exc=False):
        info = [c for _, c in calls(p, "Synced.new_or_load") if syn_desc(p, c)["data"] == P("optimizer_info")]
        for _, c in calls(p, "Synced.new_or_load"):
            d = syn_desc(p, c)["data"]
        cmp_ = None
        for a, v in p.facts.items():
            if a[0] == "eq" and P("optimizer_info") in (a[1], a[2]):
                o = a[2] if a[1] == P("optimizer_info") else a[1]
                if o[0] == "call" and tail(o[2]) == "synced":
                    cmp_ = v
        if p.outcome[0] == "return":
            good += 1
            if cmp_ is not True:
                ctx.viol(f.qual, "a run recorded with another optimizer is continued", p)
            raw = {n: v for (b, n), v in p.state.heap.items() if b == p.outcome[1]}
            want = {"_optimizer_info": P("optimizer_info"), "_optimizer_state": P("optimizer_state")}
            for k, v in want.items():
                c = raw.get(k)
                if c is None or c[0] != "call" or syn_desc(p, c)["data"] != v:
                    ctx.viol(f.qual, f"{k} of a new run is not the given one", p)
            sd = raw.get("_seed_state")
            if sd is not None and sd[0] == "call":
                d = syn_desc(p, sd)["data"]
                if d is None or not (d[0] == "call" and d[2].startswith("SeedSnapshot.")):
                    ctx.viol(f.qual, f"the random state of a new run is {show(d or NONE)}", p)
            er = raw.get("_shared_errors")
            if er is not None and er[0] == "call":
                d = syn_desc(p, er)["data"]
                if d is None or d[0] != "new" or dict(d[2]).get("errs") not in (("list", ()),):
                    ctx.viol(f.qual, "a new run does not start without errors", p)
        elif cmp_ is False:
            bad += 1
            n = raised_name(p)
            if tail(n) != "NePSError":
                ctx.viol(f.qual, f"another optimizer is refused with {n}", p)
        else:
            ctx.viol(f.qual, f"opening a run fails with {raised_name(p)}", p)
        for _, t in calls(p):
            if tail(t[2]) in ("put", "write", "bump") :
                ctx.viol(f.qual, "opening a run overwrites a record", p)
    if not bad:
        ctx.viol(f.qual, "a run recorded with another optimizer is never refused")
    ctx.need(good, "a run can never be opened")
    ctx.ob(f"{f.qual}: {good} opening paths, {bad} refusing paths")


def trial_layout(ctx: Ctx):
    """New trials are stored where they are looked up, and are listed under the same id."""
    g = ctx.func(f"{REPO}.get_by_id")
    pn = ctx.func(f"{REPO}.put_new")
    d = attr(SELF, "directory")
    gd = pd = None
    for p in ctx.paths(g, opaque=SYN, exc=False):
        tid = P([a.arg for a in g.node.args.args if a.arg != "self"][0])
        ld = calls(p, "Synced.load")
        if p.outcome[0] == "return":
            v = p.outcome[1]
            cached = is_lookup(v, attr(SELF, "_cache"), tid)
            if cached:
                if p.facts.get(("isnone", v)) is not False and not any(a[0] == "in" and a[1] == tid and val for a, val in p.facts.items()):
                    ctx.viol(g.qual, "a trial that is not in the cache is returned", p)
                continue
            if len(ld) != 1 or v != ld[0][1]:
                ctx.viol(g.qual, f"returns {show(v)} instead of the stored trial", p)
                continue
            gd = syn_desc(p, ld[0][1])
            gd = {k: rewrite(x, lambda y: ("TID",) if y == tid else None) for k, x in gd.items() if x is not None}
            for e in p.events:
                if e[0] == "setitem" and e[1] == attr(SELF, "_cache") and (e[2] != tid or e[3] != v):
                    ctx.viol(g.qual, "a trial is cached under another id", p)
        elif tail(raised_name(p)) != "TrialNotFoundError":
            ctx.viol(g.qual, f"fails with {raised_name(p)}", p)
    tr = P([a.arg for a in pn.node.args.args if a.arg != "self"][0])
    ids = (attr(tr, "metadata", "id"), attr(tr, "id"))
    for p in ctx.paths(pn, opaque=SYN, exc=False):
        if p.outcome[0] == "return":
            nw = calls(p, "Synced.new")
            if len(nw) != 1 or p.outcome[1] != nw[0][1]:
                ctx.viol(pn.qual, "a new trial is not stored as a new record", p)
                continue
            pd = syn_desc(p, nw[0][1])
            if pd["data"] != tr:
                ctx.viol(pn.qual, f"the stored trial is {show(pd['data'] or NONE)}", p)
            loc = [e for e in p.events if e[0] == "store" and e[1] == attr(tr, "metadata") and e[2] == "location"]
            if not loc or strip_path(fz(p, loc[-1][3])) != pd["location"] or p.events.index(loc[-1]) > nw[0][0]:
                ctx.viol(pn.qual, "the trial does not carry its own directory", p)
            for e in p.events:
                if e[0] == "setitem" and e[1] == attr(SELF, "_cache") and (e[2] not in ids or e[3] != nw[0][1]):
                    ctx.viol(pn.qual, "a trial is cached under another id", p)
            pd = {k: rewrite(x, lambda y: ("TID",) if y in ids else None) for k, x in pd.items() if x is not None}
        elif tail(raised_name(p)) != "TrialAlreadyExistsError":
            ctx.viol(pn.qual, f"fails with {raised_name(p)}", p)
        elif calls(p, SYN):
            ctx.viol(pn.qual, "an existing trial is touched", p)
    if gd is None or pd is None:
        ctx.viol(g.qual if gd is None else pn.qual, "no trial is ever stored/loaded")
        return
    for k in ("location", "lock", "version", "format"):
        if gd[k] != pd[k]:
            ctx.viol(pn.qual, f"new trials have their {k} at {show(pd[k])}, lookups expect {show(gd[k])}")
    if gd["lock"] == gd["version"]:
        ctx.viol(g.qual, "lock and version are the same file")
    for k in ("location", "lock", "version"):
        if not mentions(gd[k], lambda x: x == ("TID",)):
            ctx.viol(g.qual, f"different trials share their {k}")
    # listing
    al = ctx.func(f"{REPO}.all_trial_ids")
    pre = None
    loc = gd["location"]
    if loc[0] == "bin" and loc[1] == "/" and loc[3][0] == "fstr":
        pre = loc[3][1][0] if loc[3][1][0][0] == "c" else C("")
        if loc[2] != d or len(loc[3][1]) != 2:
            ctx.viol(g.qual, f"trials are stored at {show(loc)}")
    ctx.need(pre is not None, f"trial directory {show(loc)} not understood")
    for p in ctx.paths(al, exc=False):
        if p.outcome[0] != "return":
            continue
        v = fz(p, p.outcome[1])
        if v[0] != "g" or v[1] not in ("set", "list"):
            ctx.viol(al.qual, f"the ids are {show(v)}", p)
            continue
        it = v[2]
        if not (it[0] == "call" and (it[2] == ".iterdir" and it[3] == d or it[2] == ".glob" and it[3] == d and it[4] == (C(pre[2] + "*"),))):
            ctx.viol(al.qual, f"trials are listed from {show(it)}", p)
            continue
        EL = ("EL",)
        for ls, e in v[3]:
            for a, val in ls:
                okc = (
                    (a[0] == "truthy" and a[1][0] == "op" and a[1][1] == ".startswith" and a[1][2] == attr(EL, "name") and a[1][3] == pre and val)
                    or (a[0] == "truthy" and a[1][0] == "op" and a[1][1] in (".exists", ".is_file") and rewrite(a[1][2], lambda x: loc if x == EL else None) == gd["version"] and val)
                    or (a[0] == "truthy" and a[1][0] == "op" and a[1][1] == ".is_dir" and a[1][2] == EL and val)
                )
                if not okc:
                    ctx.viol(al.qual, f"trials are only listed when {lit((a, val))}", p)
            lits = [a for a, val in ls if val]
            if it[2] == ".iterdir" and not any(a[0] == "truthy" and a[1][:2] == ("op", ".startswith") for a in lits):
                ctx.viol(al.qual, "files that are no trials are listed", p)
            if not any(a[0] == "truthy" and a[1][0] == "op" and a[1][1] in (".exists", ".is_file") for a in lits):
                ctx.viol(al.qual, "trials whose creation has not completed are listed", p)
            idok = e in (
                ("op", ".replace", attr(EL, "name"), pre, C("")),
                ("op", ".removeprefix", attr(EL, "name"), pre),
                ("op", ".replace", attr(EL, "name"), pre, C(""), ONE),
                ("call", ("g", 0), ".removeprefix", attr(EL, "name"), (pre,), ()),
                ("op", "slice", attr(EL, "name"), C(len(pre[2])), NONE, NONE),
                ("op", "slice", attr(EL, "name"), ("op", "len", pre), NONE, NONE),
            ) or (e[0] in ("sub", "it") and mentions(e, lambda x: x[0] == "op" and x[1] in (".split", ".partition", ".rsplit")))
            if not idok:
                ctx.viol(al.qual, f"a trial is listed under the id {show(e)}", p)
    # all()
    f = ctx.func(f"{REPO}.all")
    for p in ctx.paths(f, opaque={f"{REPO}.get_by_id", f"{REPO}.all_trial_ids"}, exc=False):
        v = fz(p, p.outcome[1]) if p.outcome[0] == "return" else NONE
        EL = ("EL",)
        ok = v[0] == "g" and v[1] == "dict" and v[2][0] == "call" and tail(v[2][2]) == "all_trial_ids" and len(v[3]) == 1 and not v[3][0][0]
        if ok:
            e = v[3][0][1]
            ok = e[0] == "tup" and e[1][0] == EL and e[1][1][0] == "call" and tail(e[1][1][2]) == "get_by_id" and arg(e[1][1], 0, "trial_id") == EL
        if not ok:
            ctx.viol(f.qual, f"all trials are {show(v)}", p)
    ctx.ob("trial repository: storing, looking up and listing agree")


def is_lookup(v, d, k):
    return (v[0] == "op" and v[1] == ".get" and v[2] == d and v[3] == k) or (v[0] == "sub" and v[1] == d and v[2] == k)


def pending_order(ctx: Ctx):
    """The pending trials are exactly the trials whose newest state is pending, oldest first."""
    f = ctx.func(f"{REPO}.pending")
    for p in ctx.paths(f, opaque={f"{REPO}.all"}, exc=False):
        v = fz(p, p.outcome[1]) if p.outcome[0] == "return" else NONE
        if v[0] == "op" and v[1] in ("iter", "list", "tuple"):
            v = v[2]
        order = None
        if v[0] == "op" and v[1] == "sorted":
            order = v
            v = v[2]
        ok = v[0] == "g" and v[2][0] == "op" and v[2][1] == ".items" and v[2][2][0] == "call" and tail(v[2][2][2]) == "all"
        if not ok:
            ctx.viol(f.qual, f"the pending trials are {show(v)}", p)
            continue
        EL = ("EL",)

        def fresh(t):
            return t[0] == "call" and tail(t[2]) == "synced" and t[3] == ("it", EL, 1)

        for ls, e in v[3]:
            lits = [(a, val) for a, val in ls]
            good = len(lits) == 1 and lits[0][1] and lits[0][0][0] == "eq"
            if good:
                a = lits[0][0]
                st, en = (a[1], a[2]) if a[2][0] == "enum" else (a[2], a[1])
                good = en[0] == "enum" and en[2] == "PENDING" and st[0] == "a" and st[2] == "state" and fresh(st[1])
            if not good:
                ctx.viol(f.qual, f"a trial counts as pending when {' and '.join(lit(l) for l in lits) or 'it exists'}", p)
            if not (e == ("tup", (("it", EL, 0), ("it", EL, 1))) or e == EL):
                ctx.viol(f.qual, f"pending trials are handed out as {show(e)}", p)
        keys, rev = [], False
        if order is not None:
            k = [x for x in order[3:] if x[0] == "keyfn"]
            rev = any(x[0] == "reverse" and x[1] != FALSE for x in order[3:])
            keys = [k[0][1]] if k else []
        elif v[4] is not None:
            keys = [k for _, k in v[4][1]] if len(v[4]) > 1 else []
            rev = any(x[0] == "reverse" and x[1] != FALSE for x in (v[4][2] if len(v[4]) > 2 else ()))
        if not keys or rev or not all(mentions(k, lambda x: x[0] == "a" and x[2] == "time_sampled") for k in keys):
            ctx.viol(f.qual, "pending trials are not handed out oldest first", p)
        for k in keys:
            if k[0] not in ("a", "tup") or (k[0] == "tup" and not (k[1][0][0] == "a" and k[1][0][2] == "time_sampled")):
                ctx.viol(f.qual, f"pending trials are ordered by {show(k)}", p)
    ctx.ob(f"{f.qual}: filter and order")


def next_pending(ctx: Ctx):
    """Only a trial whose newest state is pending is handed out; the first of the queue."""
    f = ctx.func("NePSState.get_next_pending_trial")
    n = 0
    pend = lambda t: t[0] == "call" and tail(t[2]) == "pending" and t[3] == attr(SELF, "_trials")  # noqa: E731

    def unwrap(t):
        while t[0] == "op" and t[1] in ("iter", "list", "tuple") and len(t) == 3:
            t = t[2]
        return t

    def good_gather(p, g):
        g = unwrap(g)
        if g[0] != "g" or not pend(unwrap(g[2])) or g[4] is not None:
            return f"handed out from {show(g)}"
        EL = ("EL",)
        for ls, e in g[3]:
            if not (e[0] == "call" and tail(e[2]) == "synced" and e[3] == ("it", EL, 1)):
                return f"the handed out trial is {show(e)}"
            if not any(v and a[0] == "eq" and {a[1], a[2]} == {attr(e, "state"), st_pending(a)} for a, v in ls):
                return "a trial is handed out although its newest state may not be pending"
            if len(ls) != 1:
                return f"pending trials are withheld unless {' and '.join(lit(l) for l in ls)}"
        return None

    def st_pending(a):
        for x in (a[1], a[2]):
            if x[0] == "enum" and x[2] == "PENDING":
                return x
        return None

    for p in ctx.paths(f, opaque={"Synced.synced"}, exc=False, unroll=2):
        if p.outcome[0] == "cut":
            continue
        if p.outcome[0] == "raise":
            ctx.viol(f.qual, f"fails with {raised_name(p)}", p)
            continue
        v = fz(p, p.outcome[1])
        single = p.facts.get(("isnone", P("n")))
        n += 1
        if v[0] == "op" and v[1] == "next":
            r = good_gather(p, v[2])
            if r:
                ctx.viol(f.qual, r, p)
            if len(v) < 4 or v[3] != NONE:
                ctx.viol(f.qual, "an empty queue is not reported as None", p)
        elif v[0] == "op" and v[1].endswith("take") and len(v) >= 4:
            r = good_gather(p, v[3])
            if r or v[2] != P("n"):
                ctx.viol(f.qual, r or f"not the requested number of trials is handed out ({show(v[2])})", p)
        elif v[0] == "call" and tail(v[2]) == "synced":
            src = v[3]
            el = [x for x in subterms(src) if x[0] == "el"]
            ok = el and pend(unwrap(el[0][2])) and any(val and a[0] == "eq" and {a[1], a[2]} == {attr(v, "state"), st_pending(a)} for a, val in p.facts.items())
            if not ok:
                ctx.viol(f.qual, "a trial is handed out although its newest state may not be pending", p)
        elif v[0] == "el":
            # the first round of a loop over the queue
            r = good_gather(p, v[2])
            later = [x for a in p.facts for x in subterms(a) if x[0] == "el" and x != v and x[2] == v[2]]
            if r or later:
                ctx.viol(f.qual, r or "not the first of the queue is handed out", p)
        elif v == NONE:
            # only when no element was acceptable: every element seen must have been found not pending
            for _, c in calls(p):
                if tail(c[2]) == "synced" and any(val and a[0] == "eq" and attr(c, "state") in (a[1], a[2]) and st_pending(a) for a, val in p.facts.items()):
                    ctx.viol(f.qual, "a pending trial is withheld", p)
        elif single is False or v[0] in ("g", "list"):
            if v[0] == "g":
                r = good_gather(p, v)
                if r:
                    ctx.viol(f.qual, r, p)
            elif v[0] == "op" and v[1] == "slice":
                r = good_gather(p, v[2])
                if r:
                    ctx.viol(f.qual, r, p)
        else:
            ctx.viol(f.qual, f"hands out {show(v)}", p)
    ctx.need(n >= 1, "get_next_pending_trial has no results")
    ctx.ob(f"{f.qual}: {n} results")


def state_accessors(ctx: Ctx):
    """What workers read from the shared state is always the newest version."""
    EL = ("EL",)
    f = ctx.func("NePSState.get_all_trials")
    for p in ctx.paths(f, opaque={"Synced.synced"}, exc=False):
        v = fz(p, p.outcome[1]) if p.outcome[0] == "return" else NONE
        ok = v[0] == "g" and v[1] == "dict" and v[2][0] == "op" and v[2][1] == ".items" and v[2][2][0] == "call" and tail(v[2][2][2]) == "all" and v[2][2][3] == attr(SELF, "_trials")
        ok = ok and len(v[3]) == 1 and not v[3][0][0]
        if ok:
            e = v[3][0][1]
            ok = e[0] == "tup" and e[1][0] == ("it", EL, 0) and e[1][1][0] == "call" and tail(e[1][1][2]) == "synced" and e[1][1][3] == ("it", EL, 1)
        if not ok:
            ctx.viol(f.qual, f"all trials are {show(v)}", p)
    for name, fld in (("get_errors", "_shared_errors"), ("optimizer_info", "_optimizer_info"), ("optimizer_state", "_optimizer_state")):
        f = ctx.func(f"NePSState.{name}")
        for p in ctx.paths(f, opaque={"Synced.synced"}, exc=False):
            v = p.outcome[1]
            if not (p.outcome[0] == "return" and v[0] == "call" and tail(v[2]) == "synced" and v[3] == attr(SELF, fld)):
                ctx.viol(f.qual, f"returns {show(v)}", p)
    f = ctx.func("NePSState.get_trial_by_id")
    for p in ctx.paths(f, opaque={"Synced.synced"}, exc=False):
        v = p.outcome[1]
        ok = p.outcome[0] == "return" and v[0] == "call" and tail(v[2]) == "synced" and v[3][0] == "call" and tail(v[3][2]) == "get_by_id" and arg(v[3], 0, "trial_id") == P("trial_id")
        if not ok:
            ctx.viol(f.qual, f"returns {show(v)}", p)
    f = ctx.func("NePSState.put_updated_trial")
    tp = P([a.arg for a in f.node.args.posonlyargs + f.node.args.args if a.arg != "self"][0])
    for p in ctx.paths(f, opaque={"Synced.synced", "Synced.put"}, raises={"Synced.put": [EXC + "VersionMismatchError", "?"]}):
        puts = [e[1] for e in p.events if e[0] in ("call", "callexc") and tail(e[1][2]) == "put"]
        for c in puts:
            g = c[3]
            ok = g[0] == "call" and tail(g[2]) == "get_by_id" and g[3] == attr(SELF, "_trials") and arg(g, 0, "trial_id") in (attr(tp, "metadata", "id"), attr(tp, "id")) and kwarg(c, "data", arg(c, 0)) == tp
            if not ok:
                ctx.viol(f.qual, f"not the given trial is updated: {show(c)}", p)
        if p.outcome[0] == "return" and not [1 for e in p.events if e[0] == "call" and tail(e[1][2]) == "put"]:
            ctx.viol(f.qual, "a refused or failed update looks like a success", p)
        if any(tail(e[1][2]) in ("synced", "acquire") for e in p.events if e[0] in ("call", "enter") and e[1][0] == "call"):
            ctx.viol(f.qual, "the newest version is fetched right before updating, so that changes of other workers are overwritten", p)
    ctx.ob("NePSState accessors read through the lock and update the given trial")


def own_attribute(fn, x):
    """An attribute of the class itself that happens to have the same name."""
    import ast

    if fn.cls is None or not isinstance(x.value, ast.Name) or not fn.node.args.args:
        return False
    if x.value.id not in (fn.node.args.args[0].arg, fn.cls.name):
        return False
    return fn.cls.find_method(x.attr) is not None or any(f[0] == x.attr for f in fn.cls.all_fields())


def unsafe_access(ctx: Ctx):
    """Nobody outside the resource itself uses the operations that bypass lock or version."""
    import ast

    bad = {"_put_unsafe", "_unsynced", "_resource", "_components", "_reader_writer", "_versioner"}
    n = 0
    sy = {ctx.cls("Synced").qual, ctx.cls("VersionedResource").qual}
    for fn in ctx.prog.funcs.values():
        if fn.cls is not None and fn.cls.qual in sy:
            continue
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute):
                n += 1
                if x.attr in bad and isinstance(x.ctx, ast.Load) and not own_attribute(fn, x):
                    ctx.viol(fn.qual, f"uses {x.attr}, which bypasses the lock or the version of a shared record")
    for cls in (ctx.cls("ReaderWriterTrial"), ctx.cls("ReaderWriterSeedSnapshot"), ctx.cls("ReaderWriterOptimizationState"), ctx.cls("ReaderWriterErrDump"), ctx.cls("ReaderWriterOptimizerInfo")):
        for fn in ctx.prog.funcs.values():
            if fn.cls is cls:
                continue
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("read", "write"):
                    r = ctx.prog.resolve_expr(fn.module, x.func.value)
                    if r is not None and r[0] == "cls" and r[1] is cls:
                        ctx.viol(fn.qual, f"accesses files of a shared record directly ({ast.unparse(x.func)})")
    ctx.count("attribute_accesses_scanned", n)
    ctx.ob(f"{n} attribute accesses outside the resource classes")


def directories_shared(ctx: Ctx):
    """Directories and lock files that another process may just have made are accepted as they are."""
    from rules.api import enclosed

    n = 0
    for q, opq in (("create_or_load_filebased_neps_state", {"Synced.new", "Synced.load", "Synced.new_or_load"}), ("load_filebased_neps_state", {"Synced.new", "Synced.load", "Synced.new_or_load"}), ("FileLocker.lock", set())):
        f = ctx.func(q)
        for p in ctx.paths(f, opaque=opq, exc=False):
            made = set()
            for e in p.events:
                if e[0] != "call":
                    continue
                name = tail(e[1][2])
                if name not in ("mkdir", "touch", "makedirs"):
                    continue
                c = e[1]
                n += 1
                dflt = TRUE if name == "touch" else FALSE
                i = {"mkdir": 2, "touch": 1, "makedirs": 2}[name]
                ok = kwarg(c, "exist_ok", c[4][i] if len(c[4]) > i else dflt)
                target = strip_path(c[3] if name != "makedirs" else c[4][0])
                if ok == FALSE and not enclosed(ctx, e[-1]):
                    ctx.viol(f.qual, f"{name} of {show(target)} fails when another process made it first, or when a run is reopened", p)
                if name == "mkdir":
                    par = kwarg(c, "parents", c[4][1] if len(c[4]) > 1 else FALSE)
                    under = target[0] == "bin" and target[1] == "/" and target[2] in made
                    if par == FALSE and not under:
                        ctx.viol(f.qual, f"mkdir of {show(target)} fails when its parent does not exist yet", p)
                    made.add(target)
    ctx.need(n, "no directory is created")
    ctx.ob(f"{n} creations of directories and lock files tolerate existing ones")
