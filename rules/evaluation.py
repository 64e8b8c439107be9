"""Rules about one evaluation: what the user function is called with and what is reported."""
from __future__ import annotations

from sa.core import *  # noqa: F403
from sa.core import ANY, AnalysisBroken, Ctx
from sa.terms import *  # noqa: F403
from rules.store import tail, raised_name

TR, FN, DEF = P("trial"), P("evaluation_fn"), P("default_report_values")
EL = ("EL",)


def eval_paths(ctx):
    f = ctx.func("evaluate_trial")
    return f, ctx.paths(f, opaque={"parse_user_result"}, raises={"<call>": ["?", "?B"]})


def user_calls(p, kinds=("call", "callexc")):
    return [(i, e) for i, e in enumerate(p.events) if e[0] in kinds and e[1][2] == "<call>" and e[1][3] == FN]


def num(t):
    """strip float()/list[float] wrappers"""
    while True:
        if t[0] == "op" and t[1] in ("float", "list") and len(t) == 3:
            t = t[2]
        elif t[0] == "g" and t[1] == "list" and len(t[3]) == 1 and not t[3][0][0] and t[3][0][1] in (("op", "float", EL), EL) and t[4] is None:
            t = t[2]
        else:
            return t


def flds(p):
    """(trial term, report fields) of a normal return"""
    v = fz(p, p.outcome[1])
    if v[0] != "tup" or len(v[1]) != 2 or v[1][1][0] != "new":
        return None
    return v[1][0], dict(v[1][1][2])


def user_call_args(ctx: Ctx):
    """The user function is called exactly once, with the trial's configuration and, where it
    asks for them, the trial's own and its predecessor's directory."""
    f, paths = eval_paths(ctx)
    n = 0
    sig = lambda t: mentions(t, lambda x: x[0] in ("call", "op") and (x[2] if x[0] == "call" else x[1]) in ("inspect.signature", "inspect.getfullargspec") )  # noqa: E731
    loc, ploc = attr(TR, "metadata", "location"), attr(TR, "metadata", "previous_trial_location")

    def path_of(t, x):
        return t == x or t[0] in ("op", "call") and (t[1] if t[0] == "op" else t[2]) in ("pathlib.Path",) and (t[2] if t[0] == "op" else t[4][0]) == x

    for p in paths:
        uc = user_calls(p)
        if p.outcome[0] == "return" and len(uc) != 1:
            ctx.viol(f.qual, f"one evaluation calls the user function {len(uc)} times", p)
        for i, e in uc[:1]:
            n += 1
            c = e[1]
            kw = list(c[5])
            stars = [v for k, v in kw if k == "**"]
            named = {k: fz(p, v) for k, v in kw if k != "**"}
            cfg = [v for v in stars if fz(p, v) in (attr(TR, "config"), ("op", "dict", attr(TR, "config")), ("dict", (("**", attr(TR, "config")),)))]
            if c[4] or len(cfg) != 1 or len(stars) != 1:
                ctx.viol(f.qual, f"the user function is called with {show(fz(p, c))}", p)
            for k, v in named.items():
                wants = fact_in(p, k, sig)
                if k == "pipeline_directory":
                    ok = path_of(v, loc)
                elif k == "previous_pipeline_directory":
                    none = p.facts.get(("isnone", ploc))
                    ok = v == NONE and none is True or path_of(v, ploc) and none is False
                else:
                    ok = False
                if not ok:
                    ctx.viol(f.qual, f"the user function gets {k}={show(v)}", p)
                if wants is not True:
                    ctx.viol(f.qual, f"the user function gets {k} although it may not accept it", p)
            for k in ("pipeline_directory", "previous_pipeline_directory"):
                if k not in named and fact_in(p, k, sig) is not False:
                    ctx.viol(f.qual, f"the user function does not get the {k} it asks for", p)
        for e in p.events:
            if e[0] in ("mut", "setitem", "delitem") and contains(e[1], attr(TR, "config")):
                ctx.viol(f.qual, "the trial's configuration is changed by evaluating it", p)
    ctx.need(n >= 4 or ctx.violations, "the user function is never called")
    ctx.ob(f"{f.qual}: {n} user calls")


def fact_in(p, k, sig):
    for a, v in p.facts.items():
        if a[0] == "in" and a[1] == C(k) and sig(a[2]):
            return v
    return None


def raised_by_user(p):
    """'?' / '?B' / None"""
    for i, e in user_calls(p, ("callexc",)):
        return i, e[2]
    return None


def eval_success(ctx: Ctx):
    """A normal return is reported as success with exactly the returned values."""
    f, paths = eval_paths(ctx)
    n = 0
    for p in paths:
        uc = user_calls(p, ("call",))
        if not uc or p.outcome[0] != "return":
            continue
        n += 1
        i, e = uc[0]
        r = flds(p)
        if r is None or r[0] != TR:
            ctx.viol(f.qual, f"an evaluation returns {show(fz(p, p.outcome[1]))}", p)
            continue
        d = r[1]
        pr = [x for _, x in calls(p, "parse_user_result")]
        if len(pr) != 1:
            ctx.viol(f.qual, f"the user's result is interpreted {len(pr)} times", p)
            continue
        c = fz(p, pr[0])
        ur = kwarg(c, "user_result")
        res = fz(p, e[1])
        if ur not in (res, ("dict", (("**", res),)), ("op", "dict", res), ("op", "copy.copy", res), ("op", "copy.deepcopy", res)):
            ctx.viol(f.qual, f"not the user's result is interpreted: {show(ur)}", p)
        if kwarg(c, "default_cost_value") != attr(DEF, "cost_if_not_provided"):
            ctx.viol(f.qual, f"a missing cost becomes {show(kwarg(c, 'default_cost_value', NONE))}", p)
        if kwarg(c, "default_learning_curve") != attr(DEF, "learning_curve_if_not_provided"):
            ctx.viol(f.qual, f"a missing learning curve becomes {show(kwarg(c, 'default_learning_curve', NONE))}", p)
        for k, ix in (("loss", 0), ("cost", 1), ("learning_curve", 2)):
            src = ("it", c, ix)
            raw = ("it", pr[0], ix)
            none = p.facts.get(("isnone", raw))
            v = num(d.get(k, NONE))
            if v != src and not (v == NONE and none is True):
                ctx.viol(f.qual, f"the reported {k} is {show(d.get(k, NONE))}", p)
        ex = d.get("extra", NONE)
        if ex != ("it", c, 3) and not (ex == ("dict", ()) and p.facts.get(("isnone", ("it", pr[0], 3))) is True):
            ctx.viol(f.qual, f"the reported extra information is {show(ex)}", p)
        if d.get("err") != NONE or d.get("tb") != NONE:
            ctx.viol(f.qual, "a successful evaluation is reported with an error", p)
        if d.get("reported_as") != C("success"):
            ctx.viol(f.qual, f"a successful evaluation is reported as {show(d.get('reported_as', NONE))}", p)
        common(ctx, f, p, d, i, "SUCCESS")
    ctx.need(n >= 1 or ctx.violations, "no evaluation succeeds")
    ctx.ob(f"{f.qual}: {n} successful paths")


def common(ctx, f, p, d, i, state):
    h = p.state.heap
    if h.get((TR, "state"), NONE)[-1] != state:
        ctx.viol(f.qual, f"the evaluated trial's state is {show(h.get((TR, 'state'), NONE))}, not {state}", p)
    if d.get("trial_id") not in (attr(TR, "metadata", "id"), attr(TR, "id")):
        ctx.viol(f.qual, f"the report names trial {show(d.get('trial_id', NONE))}", p)
    md = attr(TR, "metadata")
    te = h.get((md, "time_end"), NONE)
    pos = {}
    for j, e in enumerate(p.events):
        if e[0] == "call":
            pos.setdefault(e[1], j)
    if te[0] != "call" or te[2] != "time.time" or pos.get(te, -1) < i:
        ctx.viol(f.qual, f"the end time is {show(te)}", p)
    du = h.get((md, "evaluation_duration"), NONE)
    for w, v in (("trial", du), ("report", d.get("evaluation_duration", NONE))):
        ok = v[0] == "bin" and v[1] == "-" and all(x[0] == "call" and x[2] in ("time.monotonic", "time.perf_counter", "time.time") for x in v[2:4]) and v[2][2] == v[3][2]
        if not ok or not pos.get(v[3], 10**9) < i < pos.get(v[2], -1):
            ctx.viol(f.qual, f"the duration recorded in the {w} is {show(v)}, not the time the user function took", p)


def eval_crash(ctx: Ctx):
    """Any exception of the user function is reported as crash with the configured fallback
    values, the exception and its traceback; it never leaves the evaluation."""
    f, paths = eval_paths(ctx)
    n = 0
    for p in paths:
        rb = raised_by_user(p)
        if rb is None:
            continue
        i, kind = rb
        exc = [e for e in p.events[i:] if e[0] == "except"]
        if kind == "?B":
            if p.outcome[0] != "raise":
                ctx.viol(f.qual, "interrupting the worker is treated as a failed evaluation", p)
            continue
        if not exc or p.outcome[0] == "raise" and p.outcome[1] == exc[0][1]:
            ctx.viol(f.qual, "an exception of the user function is not caught", p)
            continue
        if p.outcome[0] != "return":
            continue
        n += 1
        r = flds(p)
        if r is None or r[0] != TR:
            ctx.viol(f.qual, f"a crashed evaluation returns {show(fz(p, p.outcome[1]))}", p)
            continue
        d = r[1]
        for k, src in (("loss", "loss_value_on_error"), ("cost", "cost_value_on_error"), ("learning_curve", "learning_curve_on_error")):
            s = attr(DEF, src)
            v = num(d.get(k, NONE))
            if v != s and not (v == NONE and p.facts.get(("isnone", s)) is True):
                ctx.viol(f.qual, f"a crashed evaluation reports the {k} {show(d.get(k, NONE))}", p)
        er = d.get("err", NONE)
        if er != exc[0][1] and er[0] != "exc":
            ctx.viol(f.qual, f"a crashed evaluation reports the error {show(er)}", p)
        elif er[0] == "exc" and er != exc[0][1]:
            ctx.viol(f.qual, "a crashed evaluation reports another error than the one raised", p)
        tb = d.get("tb", NONE)
        if not mentions(tb, lambda x: x[0] in ("call", "op") and str(x[2] if x[0] == "call" else x[1]).startswith("traceback.")):
            ctx.viol(f.qual, f"a crashed evaluation reports the traceback {show(tb)}", p)
        if d.get("reported_as") not in (C("crashed"), C("failed")):
            ctx.viol(f.qual, f"a crashed evaluation is reported as {show(d.get('reported_as', NONE))}", p)
        common(ctx, f, p, d, i, "CRASHED")
    if not n:
        ctx.viol(f.qual, "no path reports a crashed evaluation")
    ctx.ob(f"{f.qual}: {n} crash paths")


def key_lookup(t, ur, key):
    """('key', default|None) if t is the value stored under key"""
    if t[0] == "op" and t[1] in (".pop", ".get") and t[2] == ur and t[3] == C(key):
        return (t[4] if len(t) > 4 else (NONE if t[1] == ".get" else None),)
    if t[0] == "sub" and t[1] == ur and t[2] == C(key):
        return (None,)
    return None


def parse_result(ctx: Ctx):
    """Interpretation of the value the user function returned."""
    f = ctx.func("parse_user_result")
    UR, DC, DL = P("user_result"), P("default_cost_value"), P("default_learning_curve")
    n = 0
    for p in ctx.paths(f, exc=False):
        mp = fact_m(p, UR)
        if p.outcome[0] == "raise":
            if mp is True and raised_name(p) not in ("KeyError", "ValueError", "TypeError", "builtins.KeyError"):
                ctx.viol(f.qual, f"a result without loss is refused with {raised_name(p)}", p)
            if mp is False:
                ctx.viol(f.qual, f"a plain number is refused with {raised_name(p)}", p)
            if mp is True and has_key(p, UR, "loss") is not False:
                ctx.viol(f.qual, f"a dictionary with a loss is refused with {raised_name(p)}", p)
            continue
        v = fz(p, p.outcome[1])
        if v[0] != "tup" or len(v[1]) != 4:
            ctx.viol(f.qual, f"a result is interpreted as {show(v)}", p)
            continue
        n += 1
        loss, cost, lc, extra = v[1]
        if mp is None:
            ctx.viol(f.qual, "it is not distinguished whether the user returned a dictionary or a number", p)
            continue
        if mp is False:
            if num(loss) != UR:
                ctx.viol(f.qual, f"the loss of a plain number is {show(loss)}", p)
            if not (num(cost) == DC or cost == NONE and p.facts.get(("isnone", DC)) is True):
                ctx.viol(f.qual, f"the cost of a plain number is {show(cost)}", p)
            if not lc_ok(p, lc, {DL}, UR):
                ctx.viol(f.qual, f"the learning curve of a plain number is {show(lc)}", p)
            if extra != ("dict", ()):
                ctx.viol(f.qual, f"the extra information of a plain number is {show(extra)}", p)
            continue
        k = key_lookup(num(loss), UR, "loss")
        if k is None or has_key(p, UR, "loss") is False:
            ctx.viol(f.qual, f"the loss of a dictionary is {show(loss)}", p)
        # cost: its value if given, else the default
        given = has_key(p, UR, "cost")
        c = num(cost)
        k = key_lookup(c, UR, "cost")
        cand = [t for t in nones(p) if key_lookup(t, UR, "cost") is not None or t == DC]
        ok = (
            k is not None and (k[0] == DC or given is True)
            or c == DC and given is False
            or c == NONE and (any(key_lookup(t, UR, "cost") is not None and (key_lookup(t, UR, "cost")[0] == DC or given is True) for t in cand) or given is False and DC in cand)
        )
        if not ok:
            ctx.viol(f.qual, f"the cost of a dictionary is {show(cost)}", p)
        lg = has_key(p, UR, "learning_curve")
        base = set()
        for t in list(nones(p)) + [num(lc)] + [x for a in p.facts for x in subterms(a)]:
            if t[0] in ("op", "sub") and (key_lookup(t, UR, "learning_curve") is not None):
                base.add(t)
            if t[0] in ("op", "sub") and key_lookup(t, ("sub", UR, C("info_dict")), "learning_curve") is not None:
                base.add(t)
        info = fact_eq(p, ("in", C("info_dict"), UR))
        if lg is True:
            src = {t for t in base if key_lookup(t, UR, "learning_curve") is not None}
        elif info is True:
            src = {t for t in base if key_lookup(t, ("sub", UR, C("info_dict")), "learning_curve") is not None} | {DL}
        else:
            src = {DL} | {t for t in base if key_lookup(t, UR, "learning_curve") and key_lookup(t, UR, "learning_curve")[0] == DL}
        if not lc_ok(p, lc, src, num(loss)):
            ctx.viol(f.qual, f"the learning curve of a dictionary is {show(lc)}", p)
        ur_popped = {e[3][0][2] for e in p.events if e[0] == "mut" and e[1] == UR and e[2] == "pop" and e[3] and e[3][0][0] == "c"} | {e[2][2] for e in p.events if e[0] == "delitem" and e[1] == UR and e[2][0] == "c"}
        if extra == UR or extra == ("op", "dict", UR) or extra == ("dict", (("**", UR),)):
            if ur_popped - {"loss", "cost", "learning_curve"}:
                ctx.viol(f.qual, f"{sorted(ur_popped)} is removed from the user's result", p)
            if not {"loss", "cost"} <= ur_popped:
                ctx.viol(f.qual, "loss or cost appear again in the extra information", p)
        elif extra[0] == "g" and mentions(extra[2], lambda x: x == UR):
            pass
        else:
            ctx.viol(f.qual, f"the extra information of a dictionary is {show(extra)}", p)
    ctx.need(n >= 4 or ctx.violations, "no result is ever interpreted")
    ctx.ob(f"{f.qual}: {n} results")


def lc_ok(p, lc, src, loss):
    v = num(lc)
    if v in src:
        return p.facts.get(("isnone", v)) is False or True
    if lc == NONE:
        return any(p.facts.get(("isnone", s)) is True for s in src)
    is_loss = any(val and a[0] == "eq" and C("loss") in (a[1], a[2]) and (a[1] in src or a[2] in src) for a, val in p.facts.items())
    if lc[0] == "list" and len(lc[1]) == 1 and is_loss:
        return num(lc[1][0] if isinstance(lc[1][0], tuple) and lc[1][0] and isinstance(lc[1][0][0], str) else lc[1][0][0]) == loss
    return False


def nones(p):
    return [a[1] for a, v in p.facts.items() if a[0] == "isnone" and v]


def fact_eq(p, a):
    return p.facts.get(a)


def fact_m(p, ur):
    for a, v in p.facts.items():
        if a[0] == "isinst" and a[1] == ur and ("Mapping" in str(a[2]) or "dict" in str(a[2])):
            return v
        if a[0] == "isinst" and a[1] == ur and any(x in str(a[2]) for x in ("float", "int", "Number")):
            return not v
    return None


def has_key(p, ur, key):
    for a, v in p.facts.items():
        if a == ("in", C(key), ur):
            return v
        if a[0] in ("is", "eq"):
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                k = key_lookup(x, ur, key)
                if k is not None and k[0] == y and y is not None:
                    return not v
    return None


def serialize_faithful(ctx: Ctx):
    """Serialisation keeps every entry of a mapping and every element of a sequence and leaves
    plain values alone; the file holds exactly that."""
    f = ctx.func("serializable_format")
    D = P(f.node.args.args[0].arg)
    n = 0
    rec = lambda t, x: t[0] == "call" and t[2] == "serializable_format" and kwarg(t, D[1], arg(t, 0)) == x  # noqa: E731
    for p in ctx.paths(f, exc=False):
        if p.outcome[0] != "return":
            ctx.viol(f.qual, f"serialising fails with {raised_name(p)}", p)
            continue
        n += 1
        v = fz(p, p.outcome[1])
        while v[0] == "call" and v[2] == "serializable_format":
            v = kwarg(v, D[1], arg(v, 0))
        if v == D or v == attr(D, "value") or v == ("op", "str", D) or v[0] in ("call", "op") and tail(v[2] if v[0] == "call" else v[1]) in ("serialize", "asdict", "tolist", "item"):
            if v == D and any(val and a[0] == "isinst" and a[1] == D and any(x in str(a[2]) for x in ("Enum", "Exception")) for a, val in p.facts.items()):
                ctx.viol(f.qual, "an enum or exception is not turned into a plain value", p)
            if v == ("op", "str", D) and not any(val and a[0] == "isinst" and a[1] == D for a, val in p.facts.items()):
                ctx.viol(f.qual, "plain values are turned into text", p)
            continue
        if v[0] == "g" and len(v[3]) == 1:
            ls, e = v[3][0]
            if ls:
                ctx.viol(f.qual, f"entries are only stored when {' and '.join(lit(l) for l in ls)}", p)
            if v[1] == "dict":
                if not (v[2] == ("op", ".items", D) and e[0] == "tup" and e[1][0] in (("it", EL, 0), ("op", "str", ("it", EL, 0))) and rec(e[1][1], ("it", EL, 1))):
                    ctx.viol(f.qual, f"a mapping is stored as {show(v)}", p)
            elif not (v[2] == D and rec(e, EL)):
                ctx.viol(f.qual, f"a sequence is stored as {show(v)}", p)
            continue
        ctx.viol(f.qual, f"a value is stored as {show(v)}", p)
    f = ctx.func("neps.utils.files.serialize")
    for p in ctx.paths(f, exc=False, opaque={"serializable_format"}):
        if p.outcome[0] != "return":
            continue
        d = [c for _, c in calls(p) if tail(c[2]) in ("safe_dump", "dump")]
        op = [c for _, c in calls(p) if tail(c[2]) == "open"]
        mode = (arg(op[0], 0, "mode") if op and op[0][3] is not None else arg(op[0], 1, "mode") if op else None)
        if len(d) != 1 or not op or mode is None or mode != C("w"):
            ctx.viol(f.qual, "the data is not written to a fresh file", p)
        elif not (d[0][4] and d[0][4][0][0] == "call" and d[0][4][0][2] == "serializable_format" and kwarg(d[0][4][0], D[1], arg(d[0][4][0], 0)) == P("data")):
            ctx.viol(f.qual, f"another value than the given one is written: {show(d[0])}", p)
    f = ctx.func("neps.utils.files.deserialize")
    for p in ctx.paths(f, exc=False):
        if p.outcome[0] == "return":
            v = p.outcome[1]
            if not (v[0] == "call" and tail(v[2]) in ("full_load", "safe_load", "load", "unsafe_load")):
                ctx.viol(f.qual, f"reading a file gives {show(v)}", p)
    ctx.need(n >= 5, "serializable_format has too few results")
    ctx.ob(f"serialisation: {n} kinds of values")


def trial_transitions(ctx: Ctx):
    """State changes of a trial set exactly the documented state and metadata."""
    f = ctx.func("Trial.set_evaluating")
    S = P("self")
    for p in ctx.paths(f, exc=False):
        h = p.state.heap
        if h.get((S, "state"), NONE)[-1] != "EVALUATING":
            ctx.viol(f.qual, "a trial that starts being evaluated is not in state evaluating", p)
        if h.get((attr(S, "metadata"), "evaluating_worker_id")) not in (P("worker_id"), ("op", "str", P("worker_id"))):
            ctx.viol(f.qual, "the evaluating worker is not recorded", p)
        if h.get((attr(S, "metadata"), "time_started")) != P("time_started"):
            ctx.viol(f.qual, "the start time is not recorded", p)
        for e in p.events:
            if e[0] == "store" and e[2] not in ("state", "evaluating_worker_id", "time_started"):
                ctx.viol(f.qual, f"also changes {e[2]}", p)
    f = ctx.func("Trial.set_complete")
    want = {"success": "SUCCESS", "failed": "FAILED", "crashed": "CRASHED"}
    for kind, p in [(k, p) for k in want for p in ctx.paths(f, exc=False, args={"report_as": C(k)})]:
        if p.outcome[0] == "raise":
            ctx.viol(f.qual, f"an evaluation reported as {kind} fails with {raised_name(p)}", p)
        if p.outcome[0] != "return":
            continue
        st = p.state.heap.get((S, "state"), NONE)
        if st[-1] != want[kind]:
            ctx.viol(f.qual, f"a trial reported as {kind} gets state {show(st)}", p)
        rp = fz(p, p.outcome[1])
        if rp[0] == "new":
            d = dict(rp[2])
            for k in ("loss", "cost", "learning_curve", "err", "tb", "evaluation_duration"):
                v = num(d.get(k, NONE))
                if k == "err" and v[0] == "exc" and any(val and a[:2] == ("isinst", P("err")) for a, val in p.facts.items()):
                    continue
                if v != P(k) and not (v == NONE and p.facts.get(("isnone", P(k))) is True):
                    ctx.viol(f.qual, f"the report's {k} is {show(d.get(k, NONE))}", p)
            if d.get("extra") != P("extra") and not (d.get("extra") == ("dict", ()) and p.facts.get(("isnone", P("extra"))) is True):
                ctx.viol(f.qual, f"the report's extra information is {show(d.get('extra', NONE))}", p)
            if d.get("reported_as", NONE) != C(kind):
                ctx.viol(f.qual, f"the report of {kind} says {show(d.get('reported_as', NONE))}", p)
    ctx.ob("Trial: transitions to evaluating and complete")
