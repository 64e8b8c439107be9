"""Rules about the helpers a user's function calls while it is evaluated."""
from __future__ import annotations

import ast

from rules.store import strip_path, tail
from sa.core import Ctx, arg, attr, fz, kwarg
from sa.terms import C, NONE, TRUE, contains, mentions, rewrite, show, subterms

P = lambda n: ("p", n)
GETTERS = frozenset({"get_in_progress_trial", "get_workers_neps_state", "NePSState.get_trial_by_id"})


def getter_rule(ctx: Ctx, name):
    """A getter returns the module global it guards, and fails iff there is none."""
    f = ctx.func(name)
    paths = ctx.paths(f, exc=False)
    gs = {x for p in paths for t in [*(e for e in p.state.facts), p.outcome[1]] for x in subterms(t) if x and x[0] == "gv"}
    ctx.need(len(gs) == 1, f"{name} does not depend on exactly one module global")
    g = gs.pop()
    for p in paths:
        none = p.state.facts.get(("isnone", g))
        if p.outcome[0] == "return":
            if fz(p, p.outcome[1]) != g or none is True:
                ctx.viol(f.qual, f"returns {show(p.outcome[1])} ({'nothing is set' if none else 'something else was set'})", p)
            ctx.ob(f"{f.qual}: returns what was set")
        elif p.outcome[0] == "raise":
            if none is not True:
                ctx.viol(f.qual, "fails although it was set", p)
            ctx.ob(f"{f.qual}: fails when nothing is set")
    if not any(p.outcome[0] == "return" for p in paths):
        ctx.viol(f.qual, "never returns")
    s = ctx.prog.modules[g[1]].symbols.get(g[2])
    if s and s[0] == "val" and not (isinstance(s[1], ast.Constant) and s[1].value is None):
        ctx.viol(f"{g[1]}.{g[2]}", f"is not None before anything runs: {ast.unparse(s[1])[:80]}")
    return g


def in_progress_getters(ctx: Ctx):
    """The getters for the trial in progress and the worker's state return exactly what is set."""
    a = getter_rule(ctx, "get_in_progress_trial")
    b = getter_rule(ctx, "get_workers_neps_state")
    if a == b:
        ctx.viol("neps.runtime", "the trial in progress and the worker's state share one global")


def end_callbacks(ctx: Ctx):
    """What is registered for the end of a trial is called with every evaluated trial."""
    f = ctx.func("register_notify_trial_end")
    reg = None
    for p in ctx.paths(f, exc=False):
        sets = [e for e in p.events if e[0] == "setitem" and e[1][0] == "gv"]
        sets += [("setitem", e[1], e[3][0], e[3][1]) for e in p.events if e[0] == "mut" and e[1][0] == "gv" and e[2] == "__setitem__" and len(e[3]) == 2]
        for e in p.events:
            if e[0] == "mut" and e[1][0] == "gv" and e[2] == "update" and len(e[3]) == 1:
                d = fz(p, e[3][0])
                if d[0] == "dict":
                    sets += [("setitem", e[1], k, v) for k, v in d[1]]
        if not sets and any(e[0] in ("mut", "call", "gstore") for e in p.events):
            ctx.need(False, f"{f.qual}: how callbacks are registered is not followed")
        ok = p.outcome[0] == "return" and any(e[2] == P("key") and e[3] == P("callback") for e in sets)
        if not ok:
            ctx.viol(f.qual, "the callback is not registered under its key", p)
            return
        reg = [e[1] for e in sets if e[3] == P("callback")][0]
        ctx.ob(f"{f.qual}: registers the callback under its key")
    ctx.need(reg is not None, "no registration is followed")
    w = ctx.func("DefaultWorker.run")
    from rules.worker import STATE_OPS, stop_func, short

    sf = stop_func(ctx)
    paths = ctx.paths(w, opaque=STATE_OPS | {short(sf)}, exc=False, unroll=1)
    seen = False
    empty = 0
    for p in paths:
        for i, e in enumerate(p.events):
            if e[0] == "call" and e[1][2] == "evaluate_trial":
                t = kwarg(e[1], "trial")
                later = [x for x in p.events[i + 1 :] if x[0] == "call"]
                cbs = [x for x in later if contains(x[1][3] if isinstance(x[1][3], tuple) else (), reg) and (not x[1][2].startswith("builtins"))]
                for x in cbs:
                    seen = True
                    if tuple(x[1][4]) != (t,) and tuple(x[1][4]) != (("it", e[1], 0),):
                        ctx.viol(w.qual, f"a callback for the end of trial {show(t)} is called with {[show(y) for y in x[1][4]]}", p)
                    ctx.ob(f"{w.qual}: callbacks get the evaluated trial")
                if not cbs:
                    empty += 1
    if not seen:
        ctx.need(empty, "no evaluation is followed")
        ctx.viol(w.qual, "callbacks registered for the end of a trial are not called after an evaluation")


def _dir_cases(ctx, f, param):
    """(path, directory term) of the paths of a helper; None where it must give up."""
    trial = "get_in_progress_trial"
    for p in ctx.paths(f, opaque=GETTERS, exc=False):
        given = p.state.facts.get(("isnone", P(param)))
        yield p, given


def trial_call(p):
    c = [e[1] for e in p.events if e[0] == "call" and tail(e[1][2]) == "get_in_progress_trial"]
    return c[0] if c else None


def norm_path(t):
    """A path expression without Path() wrappers, as (directory, parts, suffix)."""
    t = strip_path(t)
    return t


def checkpoint_paths(ctx: Ctx):
    """Checkpoints are saved in the trial's directory and loaded from its predecessor's, under one name."""
    shapes = {}
    hole, name = P("<dir>"), P("checkpoint_name")
    f = ctx.func("save_checkpoint")
    for given in (True, False):
        a = {"directory": P("directory")} if given else {"directory": NONE}
        for p in ctx.paths(f, opaque=GETTERS, exc=False, args=a):
            if p.outcome[0] != "return":
                if given and p.state.facts.get(("isnone", P("directory"))) is not True:
                    ctx.viol(f.qual, f"fails with {show(p.outcome[1])}", p)
                continue
            if given and p.state.facts.get(("isnone", P("directory"))) is True:
                continue
            sv = [e[1] for e in p.events if e[0] == "call" and e[1][2] == "torch.save"]
            if len(sv) != 1:
                ctx.viol(f.qual, f"{len(sv)} checkpoints are written", p)
                continue
            t = trial_call(p)
            d = P("directory") if given else attr(t, "metadata", "location") if t else None
            path = strip_path(arg(sv[0], 1, "f"))
            if d is None or not contains(path, d):
                ctx.viol(f.qual, f"the checkpoint is written to {show(path)}", p)
                continue
            shapes.setdefault(rewrite(path, lambda x: hole if x == d else None), []).append((f.qual, p))
            obj = fz(p, arg(sv[0], 0, "obj"))
            if obj == P("values_to_save"):
                obj = ("dict", (("**", obj),))
            ctx.need(obj[0] == "dict", f"{f.qual}: the saved content is not followed")
            want = {}
            for n in ("model", "optimizer"):
                if p.state.facts.get(("isnone", P(n))) is False:
                    want[n + "_state_dict"] = n
                elif p.state.facts.get(("isnone", P(n))) is None:
                    ctx.need(False, f"{f.qual}: whether a {n} is saved is not decided")
            got = {k[2]: v for k, v in obj[1] if k != "**" and k[0] == "c"}
            for k, n in want.items():
                v = got.get(k)
                if v is None or not (v[0] == "call" and tail(v[2]) == "state_dict" and v[3] == P(n)):
                    ctx.viol(f.qual, f"the {n} is not in the checkpoint ({show(v) if v else 'missing'})", p)
            for k in got:
                if k.endswith("_state_dict") and k not in want:
                    ctx.viol(f.qual, f"{k} is in the checkpoint though none was given", p)
            hv = p.state.facts.get(("isnone", P("values_to_save"))) is False
            inc = [x for x in obj[1] if contains(x[1] if isinstance(x[1], tuple) else (), P("values_to_save"))]
            inc = inc or [e for e in p.events if e[0] == "mut" and e[2] == "update" and P("values_to_save") in e[3]]
            if hv and not inc:
                ctx.viol(f.qual, "the given values are not in the checkpoint", p)
            ctx.ob(f"{f.qual}: saves what was given to the trial's own directory")
    g = ctx.func("load_checkpoint")
    for given in (True, False):
        a = {"directory": P("directory")} if given else {"directory": NONE}
        for p in ctx.paths(g, opaque=GETTERS, exc=False, args=a):
            if given and p.state.facts.get(("isnone", P("directory"))) is True:
                continue
            t = trial_call(p)
            d = P("directory") if given else attr(t, "metadata", "previous_trial_location") if t else None
            ld = [e[1] for e in p.events if e[0] == "call" and e[1][2] == "torch.load"]
            if p.outcome[0] != "return":
                ctx.viol(g.qual, f"fails with {show(p.outcome[1])}", p) if not any(k[0] == "isinst" for k in p.state.facts) else None
                continue
            if d is None:
                ctx.viol(g.qual, "the trial in progress is not asked for its predecessor", p)
                continue
            if not ld:
                first = not given and p.state.facts.get(("isnone", d)) is True
                absent = [k for k, v in p.state.facts.items() if v is False and k[0] == "truthy" and mentions(k, lambda x: x in ((".exists",),) or (x and x[0] == "op" and x[1] in (".exists", ".is_file"))) and contains(strip_path(k), d)]
                if not (first or absent):
                    ctx.viol(g.qual, "no checkpoint is loaded although there is one", p)
                elif fz(p, p.outcome[1]) != NONE:
                    ctx.viol(g.qual, f"returns {show(p.outcome[1])} without a checkpoint", p)
                for k in absent:
                    for x in subterms(k):
                        if x and x[0] == "op" and x[1] in (".exists", ".is_file"):
                            shapes.setdefault(rewrite(strip_path(x[2]), lambda y: hole if y == d else None), []).append((g.qual, p))
                continue
            if len(ld) != 1 or fz(p, p.outcome[1]) != ld[0]:
                ctx.viol(g.qual, f"returns {show(p.outcome[1])}, not the loaded checkpoint", p)
                continue
            path = strip_path(arg(ld[0], 0, "f"))
            if not contains(path, d):
                ctx.viol(g.qual, f"the checkpoint is read from {show(path)}", p)
                continue
            shapes.setdefault(rewrite(path, lambda x: hole if x == d else None), []).append((g.qual, p))
            for n in ("model", "optimizer"):
                k = C(n + "_state_dict")
                if p.state.facts.get(("isnone", P(n))) is False and p.state.facts.get(("in", k, ld[0])) is not False:
                    ok = any(e[0] == "call" and tail(e[1][2]) == "load_state_dict" and e[1][3] == P(n) and e[1][4][:1] == (("sub", ld[0], k),) for e in p.events)
                    if not ok:
                        ctx.viol(g.qual, f"the given {n} does not get its stored state", p)
            ctx.ob(f"{g.qual}: returns the checkpoint of the predecessor")
    if len(shapes) > 1:
        a, b = list(shapes.items())[:2]
        ctx.viol(a[1][0][0], f"a checkpoint is written or read as {show(a[0])} here and as {show(b[0])} in {b[1][0][0]}", a[1][0][1])
    elif shapes and not contains(list(shapes)[0], name):
        ctx.viol(f.qual, f"the checkpoint's name is ignored: {show(list(shapes)[0])}")


def lightning_checkpoint(ctx: Ctx):
    """The single checkpoint of a directory is loaded, and none when there is no predecessor."""
    f = ctx.func("load_lightning_checkpoint")
    for p in ctx.paths(f, opaque=GETTERS, exc=False):
        given = p.state.facts.get(("isnone", P("previous_pipeline_directory"))) is False
        t = trial_call(p)
        first = not given and t is not None and p.state.facts.get(("isnone", attr(t, "metadata", "previous_trial_location"))) is True
        v = fz(p, p.outcome[1]) if p.outcome[0] == "return" else None
        if first:
            if v not in (("tup", (NONE, NONE)), ("list", (NONE, NONE))):
                ctx.viol(f.qual, f"a trial without predecessor gets {show(p.outcome[1])}", p)
            continue
        if v is None:
            continue
        ok = v[0] == "tup" and len(v[1]) == 2 and v[1][1][0] == "call" and v[1][1][2] == "torch.load" and arg(v[1][1], 0, "f") == v[1][0] and contains(v[1][0], P("checkpoint_dir"))
        if not ok:
            ctx.viol(f.qual, f"returns {show(v)}", p)
        ctx.ob(f"{f.qual}: returns the file and what it holds")


def initial_directory(ctx: Ctx):
    """The initial directory is that of the first trial in the chain of predecessors."""
    f = ctx.func("get_initial_directory")
    for given in (False, True):
        a = {"pipeline_directory": C("/r/configs/config_7_2")} if given else {"pipeline_directory": NONE}
        for p in ctx.paths(f, opaque=GETTERS, exc=False, args=a, unroll=3):
            if p.outcome[0] == "cut":
                continue
            if p.outcome[0] != "return":
                if not any(k[0] == "isinst" for k in p.state.facts):
                    ctx.viol(f.qual, f"fails with {show(p.outcome[1])}", p)
                continue
            calls = [e[1] for e in p.events if e[0] == "call"]
            byid = [c for c in calls if tail(c[2]) == "get_trial_by_id"]
            if given:
                if not byid:
                    ctx.viol(f.qual, "the given directory is ignored", p)
                    continue
                start = byid[0]
                i = kwarg(start, "trial_id")
                if i[0] == "c" and i != C("7_2"):
                    ctx.viol(f.qual, f"directory config_7_2 is taken for trial {show(i)}", p)
                elif i[0] != "c":
                    ctx.ob(f"{f.qual}: id of a directory: {show(i)}")
            else:
                start = trial_call(p)
                if start is None:
                    ctx.viol(f.qual, "the trial in progress is not used", p)
                    continue
            v = strip_path(p.outcome[1])
            hit = [k for k, b in p.state.facts.items() if k[0] == "in" and b is True and k[2][0] == "gv"]
            got = [k[1] for k, b in p.state.facts.items() if k[0] in ("isnone", "truthy") and b is (k[0] == "truthy") and k[1][0] == "op" and k[1][1] == ".get" and k[1][2][0] == "gv"]
            hit += [("in", k[3], k[2]) for k in got if ("in", k[3], k[2]) not in hit]
            if got and p.outcome[1] in got:
                v = strip_path(("sub", p.outcome[1][2], p.outcome[1][3]))
            sets = [e for e in p.events if e[0] == "setitem" and e[1][0] == "gv"]
            for k in hit:
                if k[1] not in (attr(start, "metadata", "location"),):
                    ctx.viol(f.qual, f"directories are remembered by {show(k[1])}, which another run may share", p)
            if hit:
                if v != strip_path(("sub", hit[0][2], hit[0][1])):
                    ctx.viol(f.qual, f"returns {show(v)} for a remembered trial", p)
                continue
            x, n = start, 0
            while p.state.facts.get(("isnone", attr(x, "metadata", "previous_trial_id"))) is False and n < 9:
                nxt = [c for c in byid if kwarg(c, "trial_id") == attr(x, "metadata", "previous_trial_id")]
                if not nxt:
                    break
                x, n = nxt[-1], n + 1
            if v != strip_path(attr(x, "metadata", "location")) or p.state.facts.get(("isnone", attr(x, "metadata", "previous_trial_id"))) is not True:
                ctx.viol(f.qual, f"after {n} predecessors {show(v)} is returned", p)
            for e in sets:
                if strip_path(e[3]) != v or e[2] != attr(start, "metadata", "location"):
                    ctx.viol(f.qual, f"{show(e[3])} is remembered as the initial directory of {show(e[2])}", p)
            ctx.ob(f"{f.qual}: chain of {n} predecessors")
