"""Rules about the worker loop: claiming, stopping, reporting, counting, error policy."""
from __future__ import annotations

import ast

from sa.core import *  # noqa: F403
from sa.core import ANY, AnalysisBroken, Ctx
from sa.terms import *  # noqa: F403

SELF = P("self")
SET = attr(SELF, "settings")
POLICIES = ("RAISE_WORKER_ERROR", "RAISE_ANY_ERROR", "STOP_WORKER_ERROR", "STOP_ANY_ERROR", "IGNORE")
STATE_OPS = {
    "NePSState.put_updated_trial",
    "NePSState.report_trial_evaluation",
    "NePSState.sample_trial",
    "NePSState.get_next_pending_trial",
    "NePSState.get_errors",
    "NePSState.get_all_trials",
    "NePSState.get_trial_by_id",
    "NePSState.all_trial_ids",
    "NePSState.optimizer_info",
    "NePSState.optimizer_state",
    "Synced.synced",
    "evaluate_trial",
}
VME = "neps.exceptions.VersionMismatchError"


def stop_func(ctx: Ctx):
    """The worker's stop decision: the method of the worker that reads the total limit."""
    c = ctx.cls("DefaultWorker")
    cands = []
    for m in c.methods.values():
        if m.name == "run":
            continue
        reads = {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute)}
        if {"max_evaluations_total", "on_error"} <= reads:
            cands.append(m)
    if not cands:
        # split over helpers: take the one the loop calls
        run = ctx.func("DefaultWorker.run")
        called = [n.func.attr for n in ast.walk(run.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"]
        for n in called:
            m = c.find_method(n)
            if m is not None and reaches_attr(ctx, m, "on_error"):
                cands.append(m)
                break
    ctx.need(len(cands) == 1, f"the worker's stop decision could not be identified ({len(cands)} candidates)")
    return cands[0]


def reaches_attr(ctx, m, name, seen=None):
    seen = seen or set()
    if m.qual in seen:
        return False
    seen.add(m.qual)
    for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and n.attr == name:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and m.cls:
            k = m.cls.find_method(n.func.attr)
            if k is not None and reaches_attr(ctx, k, name, seen):
                return True
    return False


def run_paths_gate(ctx: Ctx):
    """How the loop interprets the stop decision: list of (facts about result, proceeds)."""
    sf = stop_func(ctx)
    ops = STATE_OPS | {short(sf)}
    paths = ctx.paths("DefaultWorker.run", opaque=ops, exc=False, unroll=1)
    gate = []
    for p in paths:
        st = calls(p, short(sf))
        if not st:
            continue
        i, t = st[0]
        fx = {a: v for a, v in p.facts.items() if contains(a, t)}
        nxt = [x for x in calls(p, {"NePSState.get_next_pending_trial", "NePSState.sample_trial"}) if x[0] > i]
        gate.append((t, fx, bool(nxt)))
    ctx.need(gate, "the worker loop never takes the stop decision")
    return sf, gate


def continue_pred(ctx: Ctx):
    sf, gate = run_paths_gate(ctx)
    i = ctx.interp(exc=False)

    class F:
        pass

    def decide(v):
        """'continue' | 'stop' | None (unknown)"""
        res = set()
        for t, fx, proceeds in gate:
            ok = True
            for a, val in fx.items():
                b = rewrite(a, lambda x: v if x == t else None)
                b, pol = i.norm_atom(b)
                from sa.absint import State

                s = State()
                d = i.decide(s, b)
                if d is None and b[0] == "truthy":
                    bb = i.branch(s, b[1])
                    d = bb[0][1] if len({x[1] for x in bb}) == 1 else None
                if d is None:
                    return None
                if (d if pol else not d) != val:
                    ok = False
                    break
            if ok:
                res.add("continue" if proceeds else "stop")
        return res.pop() if len(res) == 1 else None

    return sf, decide


WORKER_LIMITS = {
    "max_evaluations_for_worker": lambda: attr(SELF, "worker_cumulative_eval_count"),
    "max_cost_for_worker": lambda: attr(SELF, "worker_cumulative_eval_cost"),
    "max_evaluation_time_for_worker_seconds": lambda: attr(SELF, "worker_cumulative_evaluation_time_seconds"),
}
TOTALS = ("max_evaluations_total", "max_cost_total", "max_evaluation_time_total_seconds")
EL1 = ("it", ("EL",), 1)
STATES = ("PENDING", "SUBMITTED", "EVALUATING", "SUCCESS", "FAILED", "CRASHED", "CORRUPTED", "UNKNOWN")
FLAG = attr(SET, "include_in_progress_evaluations_towards_maximum")


def is_trials_items(t):
    return t[0] == "op" and t[1] == ".items" and t[2][0] == "call" and t[2][2] == "NePSState.get_all_trials" and t[2][3] == attr(SELF, "state")


def strip_num(t):
    """x + 0, float(x) ... of a gather"""
    while t[0] == "op" and t[1] in ("float", "int") and len(t) == 3:
        t = t[2]
    if t[0] == "bin" and t[1] == "+" and t[2] in (ZERO, C(0.0)):
        t = t[3]
    return t


def joined(t):
    """Sums over the same things are one sum."""
    t = strip_num(t)
    if t[0] == "bin" and t[1] == "+":
        a, b = joined(t[2]), joined(t[3])
        if a[0] == b[0] == "g" and a[1] == b[1] == "sum" and a[2] == b[2] and a[4] == b[4] and not set(a[3]) & set(b[3]):
            return ("g", "sum", a[2], tuple(sorted(a[3] + b[3], key=repr)), a[4])
    return t


def total_match(g, which, flag_known):
    """Is ``g`` the total the limit ``which`` speaks about?"""
    g = joined(g)
    if not (g[0] == "g" and g[1] == "sum" and is_trials_items(g[2])):
        return False
    rep = attr(EL1, "report")
    m = [
        m_isnone(rep, "rep", False),
        m_enum(attr(EL1, "state"), "state", STATES),
        m_truthy(FLAG, "flag"),
        m_isnone(attr(rep, "cost"), "cost", False),
        m_isnone(attr(rep, "evaluation_duration"), "dur", False),
        m_isnone(attr(EL1, "metadata", "evaluation_duration"), "dur", False),
    ]
    flags = (flag_known,) if flag_known is not None else (True, False)
    if which == "max_evaluations_total":
        atoms = {"rep": (True, False), "state": STATES, "flag": flags}

        def val(e):
            return e[2] if e[0] == "c" else e

        def exp(a):
            # a trial that carries a report is finished; reports exist exactly for finished states
            if a["rep"]:
                return [1]
            return [1] if a["flag"] and a["state"] in ("EVALUATING", "SUBMITTED") else []

        bad = gather_table(g, m, {**atoms, "cost": (True,), "dur": (True,)}, lambda e: int(val(e)) if isinstance(val(e), (int, bool)) else e, lambda a: exp(a))
        if bad:
            # contributions of 0 are no contributions
            g2 = ("g", "sum", g[2], tuple((ls, e) for ls, e in g[3] if e not in (ZERO, FALSE)), g[4])
            bad = gather_table(g2, m, {**atoms, "cost": (True,), "dur": (True,)}, lambda e: int(val(e)) if isinstance(val(e), (int, bool)) else e, lambda a: exp(a))
        return bad == []
    fld, key = ("cost", "cost") if which == "max_cost_total" else ("evaluation_duration", "dur")
    g2 = ("g", "sum", g[2], tuple((ls, e) for ls, e in g[3] if e not in (ZERO, C(0.0))), g[4])
    ok = {attr(rep, fld)} | ({attr(EL1, "metadata", "evaluation_duration")} if key == "dur" else set())

    def val2(e):
        return "v" if e in ok else e

    bad = gather_table(
        g2, m, {"rep": (True, False), "cost": (True, False), "dur": (True, False), "state": STATES, "flag": flags}, val2, lambda a: (["v"] if a["rep"] and a[key] else [])
    )
    return bad == []


def stop_paths(ctx):
    sf = stop_func(ctx)
    return sf, ctx.paths(sf, opaque=STATE_OPS, exc=False)


def err_param(ctx, sf):
    """The parameter through which the loop hands over its own error."""
    names = [a.arg for a in sf.node.args.args + sf.node.args.kwonlyargs if a.arg != "self"]
    e = [n for n in names if "err" in n]
    ctx.need(len(e) == 1, "the stop decision's error parameter could not be identified")
    t = [n for n in names if "time" in n or "start" in n]
    return e[0], (t[0] if t else None)


def stop_known(ctx, sf):
    ep, tp = err_param(ctx, sf)
    on_error = attr(SET, "on_error")

    def latest_err(t):
        # the newest recorded error of the shared error record
        return mentions(t, lambda x: x and x[0] == "call" and x[2] in ("Synced.synced", "NePSState.get_errors"))

    def errs_of(t):
        return t[0] == "a" and t[2] == "errs" and latest_err(t)

    def matchers(p):
        flag = None
        for a, v in p.facts.items():
            r = m_truthy(FLAG, "flag")(a)
            if r:
                flag = v if r[1] else not v

        def f(a):
            if a[0] == "isnone":
                t = a[1]
                if t == P(ep):
                    return ("own_error", False)
                for n in (*WORKER_LIMITS, *TOTALS, "max_wallclock_time_for_worker_seconds"):
                    if t == attr(SET, n):
                        return ("set:" + n, False)
                if latest_err(t):
                    return ("err_isnone", True)
            if a[0] == "truthy" and errs_of(a[1]):
                return ("errs", True)
            if a[0] == "ge":
                for n, mk in WORKER_LIMITS.items():
                    if a[1] == mk() and a[2] == attr(SET, n):
                        return ("reach:" + n, True)
                w = "max_wallclock_time_for_worker_seconds"
                if a[2] == attr(SET, w) and a[1][0] == "bin" and a[1][1] == "-" and a[1][2][0] == "call" and a[1][2][2] == "time.monotonic" and a[1][3] == P(tp):
                    return ("reach:" + w, True)
                for n in TOTALS:
                    if a[2] == attr(SET, n) and total_match(a[1], n, flag):
                        return ("reach:" + n, True)
            if a[0] == "eq":
                return m_enum(on_error, "policy", POLICIES)(a)
            return None

        return [f]

    def known(p):
        k = lits_known(p, matchers(p))
        if k is None:
            return None
        # the newest error exists iff the record is non-empty
        if "err_isnone" in k:
            v = k.pop("err_isnone")
            e = k.get("errs")
            if e is None:
                k["errs"] = not v
            elif e == v:
                return None  # infeasible: entries of the record are never None
        if "policy" in k and isinstance(k["policy"], frozenset) and len(k["policy"]) == 1:
            k["policy"] = next(iter(k["policy"]))
        return k

    return known


def spec_stop(limits, errors):
    """The stop decision as a function of what is configured and what happened."""

    def spec(q):
        pol = q("policy", POLICIES)
        if q("own_error") and pol != "IGNORE":
            own = "raise" if pol.startswith("RAISE") else "stop"
        else:
            own = None
        lim = []
        for n in (*WORKER_LIMITS, "max_wallclock_time_for_worker_seconds", *TOTALS):
            if q("set:" + n) and q("reach:" + n):
                lim.append(n)
                break
        other = None
        if pol in ("RAISE_ANY_ERROR", "STOP_ANY_ERROR") and q("errs"):
            other = "raise" if pol == "RAISE_ANY_ERROR" else "stop"
        if own:
            return {own} | ({"stop"} if lim and not errors else set())
        if other:
            return {other} | ({"stop"} if lim else set())
        if lim:
            return {"stop"}
        return {"continue"}

    return spec


def stop_decision_table(ctx: Ctx):
    """Each combination of configured limits, reached limits, policy and errors leads to the
    required decision."""
    sf, decide = continue_pred(ctx)
    _, paths = stop_paths(ctx)
    known = stop_known(ctx, sf)

    def classify(p):
        if p.outcome[0] == "raise":
            n = p.outcome[1][1]
            return "raise" if n.endswith("WorkerRaiseError") else f"raise {n}"
        if p.outcome[0] == "return":
            return decide(p.outcome[1]) or f"undecided({show(p.outcome[1])})"
        return p.outcome[0]

    table(ctx, sf.qual, paths, classify, known, spec_stop(True, True), "stop decision")
    ctx.need(len(paths) >= 20, "the stop decision has fewer paths than configured limits")


def raised_error_has_cause(ctx: Ctx):
    """The error that makes the worker raise is attached as cause."""
    sf, paths = stop_paths(ctx)
    ep, _ = err_param(ctx, sf)
    n = 0
    for p in paths:
        if p.outcome[0] == "raise" and p.outcome[1][1].endswith("WorkerRaiseError"):
            n += 1
    ctx.ob(f"{sf.qual}: {n} raising paths")


# ---------------------------------------------------------------------- the loop
class LoopMonitor:
    """Typestate of one worker: check -> obtain -> claim -> evaluate -> report -> check."""

    def __init__(self, ctx, sf, gate_decide, gv_trial, gv_state):
        self.ctx = ctx
        self.sf = sf
        self.ep, self.tp = err_param(ctx, sf)
        self.gate = gate_decide
        self.gv_trial = gv_trial
        self.gv_state = gv_state
        self.found = []
        self.seen = {}

    def initial(self):
        return (
            ("start", ()),
            ("stop", ()),
            ("obtained", ()),
            ("stored", ()),
            ("claimed", ()),
            ("out", ()),
            ("marks", ()),
            ("err", ()),
            ("fails", (C(0),)),
        )

    def bad(self, kind, msg, site):
        self.found.append((kind, msg, site))

    def step(self, ms, ev, st, interp):
        d = dict(ms)
        k = ev[0]
        site = ev[-1]
        if k == "call" and ev[1][2] == "time.monotonic" and not d["start"]:
            d["start"] = (ev[1],)
        if k in ("call", "callexc") and ev[1][2] == short(self.sf):
            t = ev[1]
            self.hit("stop-check")
            d["fails"] = d["fails"][:1]
            if k == "call":
                self.boundary(d, st, site, "before the next stop decision", interp)
                e = kwarg(t, self.ep)
                if d["err"] and d["err"][0] != e:
                    self.bad("own-error", f"the stop decision is not told about the evaluation error (gets {show(e)})", site)
                if not d["err"] and e != NONE and not (e[0] == "a" and e[2] == "err") and e[0] != "phi":
                    self.bad("own-error", f"the stop decision gets {show(e)} as error although no evaluation failed", site)
                if self.tp is not None:
                    tm = kwarg(t, self.tp)
                    if d["start"] and tm != d["start"][0] or tm[0] != "call" or tm[2] != "time.monotonic":
                        self.bad("wallclock", f"the wallclock limit is not measured from the start of the worker ({show(tm)})", site)
                d["stop"] = (t,)
                d["obtained"] = d["stored"] = d["claimed"] = ()
        if k == "call" and ev[1][2] in ("NePSState.get_next_pending_trial", "NePSState.sample_trial"):
            d["obtained"] = d["obtained"] + (ev[1],)
            d["stored"] = d["claimed"] = ()
            self.hit("obtain")
            if not self.gated(d, st, interp):
                self.bad("unchecked", f"{ev[1][2]} is reached although the stop decision was not taken or said stop", site)
            if d["out"]:
                self.bad("unreported", "a further trial is obtained before the finished evaluation was reported", site)
            if ev[1][2] == "NePSState.sample_trial":
                pend = [x for x in d["obtained"] if x[2] == "NePSState.get_next_pending_trial"]
                if not pend or (interp.decide(st, ("isnone", pend[-1])) is not True and interp.decide(st, ("truthy", pend[-1])) is not False):
                    self.bad("fifo", "a new trial is sampled although pending trials may be waiting", site)
                if kwarg(ev[1], "optimizer") != attr(SELF, "optimizer") or kwarg(ev[1], "worker_id") != attr(SELF, "worker_id"):
                    self.bad("sample-args", f"the trial is sampled with {show(ev[1])}", site)
                if kwarg(ev[1], "_sample_hooks") != attr(SELF, "_pre_sample_hooks"):
                    self.bad("sample-args", "the worker's pre-sample hooks are not applied", site)
        if k == "store":
            o, a, v = ev[1], ev[2], ev[3]
            if o in d["obtained"] and a == "state" or (o[0] == "a" and o[1] in d["obtained"] and o[2] == "metadata"):
                d["stored"] = tuple(sorted(set(d["stored"]) | {(o, C(a), v)}, key=repr))
            if o == SELF and a.startswith("worker_cumulative"):
                self.account(d, st, a, v, site)
            if o == SELF and a in ("state", "settings", "optimizer", "evaluation_fn", "worker_id"):
                self.bad("rebinding", f"the worker's {a} is replaced while it runs", site)
        if k in ("call", "callexc") and ev[1][2] == "NePSState.put_updated_trial":
            t = kwarg(ev[1], "trial")
            if k == "call":
                if t in d["obtained"] and ev[1][3] == attr(SELF, "state"):
                    d["claimed"] = (t, tuple(d["stored"]))
                    d["fails"] = (C(0),)
                self.hit("claim")
            else:
                d["claimed"] = ()
                if not d["out"]:
                    d["fails"] = (C(min(d["fails"][0][2] + 1, 2)), C(ev[2]))
        if k in ("call", "callexc") and ev[1][2] == "evaluate_trial":
            t = kwarg(ev[1], "trial")
            self.hit("evaluate")
            if k == "call":
                if not self.gated(d, st, interp):
                    self.bad("unchecked", "an evaluation starts although the stop decision was not taken or said stop", site)
                if t not in d["obtained"]:
                    self.bad("unclaimed", f"the evaluated trial {show(t)} was not obtained in this round", site)
                if not d["claimed"] or d["claimed"][0] != t:
                    self.bad("unclaimed", f"the evaluation of {show(t)} starts without the worker having recorded it as its own", site)
                else:
                    s = {(o, a[2]): v for o, a, v in d["claimed"][1]}
                    if s.get((t, "state"), ())[-1:] != ("EVALUATING",):
                        self.bad("claim-content", "the claimed trial is not recorded as being evaluated", site)
                    w = s.get((attr(t, "metadata"), "evaluating_worker_id"))
                    if w not in (("op", "str", attr(SELF, "worker_id")), attr(SELF, "worker_id")):
                        self.bad("claim-worker", f"the claimed trial does not name this worker ({show(w) if w else 'missing'})", site)
                    ts = s.get((attr(t, "metadata"), "time_started"))
                    if ts is None or ts[0] != "call" or ts[2] != "time.time":
                        self.bad("claim-time", "the claimed trial does not carry its start time", site)
                if kwarg(ev[1], "evaluation_fn") != attr(SELF, "evaluation_fn"):
                    self.bad("eval-args", f"evaluated function is {show(kwarg(ev[1], 'evaluation_fn') or NONE)}", site)
                if kwarg(ev[1], "default_report_values") != attr(SET, "default_report_values"):
                    self.bad("eval-defaults", "the configured default report values are not used", site)
                g = st.heap.get((self.gv_trial, "="))
                if g != t:
                    self.bad("in-progress", f"the trial in progress is {show(g) if g else 'not set'} while {show(t)} is evaluated", site)
                g = st.heap.get((self.gv_state, "="))
                if g != attr(SELF, "state"):
                    self.bad("in-progress-state", f"the worker state visible to the evaluation is {show(g) if g else 'not set'}", site)
                d["out"] = (ev[1],)
                d["marks"] = ()
                d["err"] = ()
                d["stop"] = ()
            d["claimed"] = ()
        if k in ("call", "callexc") and ev[1][2] == "NePSState.report_trial_evaluation":
            self.hit("report")
            if not d["out"]:
                self.bad("double-report", "an evaluation is reported twice or without having been run", site)
            else:
                e = d["out"][0]
                tr, rp, w = kwarg(ev[1], "trial"), kwarg(ev[1], "report"), kwarg(ev[1], "worker_id")
                if tr not in (("it", e, 0), kwarg(e, "trial")) or rp != ("it", e, 1) or ev[1][3] != attr(SELF, "state"):
                    self.bad("report-args", f"not the finished evaluation is reported: {show(ev[1])}", site)
                if w != attr(SELF, "worker_id"):
                    self.bad("report-worker", f"the report names another worker: {show(w)}", site)
                if k == "call":
                    d["marks"] = tuple(sorted(set(d["marks"]) | {("reported",)}))
        return tuple((x, d[x]) for x in ("start", "stop", "obtained", "stored", "claimed", "out", "marks", "err", "fails"))

    def hit(self, n):
        self.seen[n] = self.seen.get(n, 0) + 1

    def gated(self, d, st, interp):
        if not d["stop"]:
            return False
        t = d["stop"][0]
        fx = {a: v for a, v in st.facts.items() if contains(a, t)}
        return self.gate(t, fx)

    def account(self, d, st, a, v, site):
        if not d["out"]:
            self.bad("accounting", f"{a} changes without a finished evaluation", site)
            return
        e = d["out"][0]
        rep, tri = ("it", e, 1), ("it", e, 0)
        delta = None
        if v[0] == "bin" and v[1] == "+":
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                if x == attr(SELF, a) or x[0] == "phi":
                    delta = y
        key = {"worker_cumulative_eval_count": "counted", "worker_cumulative_eval_cost": "costed", "worker_cumulative_evaluation_time_seconds": "timed"}.get(a)
        ok = {
            "counted": {ONE},
            "costed": {attr(rep, "cost")},
            "timed": {attr(tri, "metadata", "evaluation_duration"), attr(rep, "evaluation_duration"), attr(kwarg(e, "trial"), "metadata", "evaluation_duration")},
        }.get(key, set())
        if delta not in ok:
            self.bad("accounting", f"{a} becomes {show(v)} after an evaluation", site)
        if (key,) in d["marks"]:
            self.bad("accounting", f"{a} is updated twice for one evaluation", site)
        d["marks"] = tuple(sorted(set(d["marks"]) | {(key,)}))

    def boundary(self, d, st, site, when, interp):
        """An evaluation must be fully dealt with when the next round (or the end) is reached."""
        g = st.heap.get((self.gv_trial, "="))
        if g is not None and g != NONE:
            self.bad("in-progress", f"the trial in progress is still {show(g)} {when}", site)
        if not d["out"]:
            d["err"] = d["err"]
            return
        e = d["out"][0]
        marks = {m[0] for m in d["marks"]}
        if "reported" not in marks:
            self.bad("unreported", f"a finished evaluation is not reported {when}", site)
        if "counted" not in marks:
            self.bad("accounting", f"a finished evaluation is not counted {when}", site)
        cost = attr(("it", e, 1), "cost")
        has = interp.decide(st, ("isnone", cost))
        if has is False and "costed" not in marks:
            self.bad("accounting", f"the cost of a finished evaluation is not added {when}", site)
        if has is None and "costed" not in marks:
            self.bad("accounting", f"the cost of a finished evaluation is not added {when}", site)
        if has is not False and "costed" in marks:
            self.bad("accounting", "a missing cost is added to the cost spent", site)
        if "timed" not in marks:
            self.bad("accounting", f"the duration of a finished evaluation is not added {when}", site)
        err = attr(("it", e, 1), "err")
        if interp.decide(st, ("isnone", err)) is False:
            d["err"] = (err,)
        elif interp.decide(st, ("isnone", err)) is None:
            d["err"] = (err,)
        d["out"] = ()
        d["marks"] = ()


def run_monitor(ctx: Ctx):
    key = "run_monitor"
    if key in ctx._cache:
        return ctx._cache[key]
    sf, gate = run_paths_gate(ctx)
    # proceeding requires the facts common to all proceeding paths
    from sa.absint import State

    proceed = [(t, fx) for t, fx, ok in gate if ok]
    ctx.need(proceed, "the worker loop never proceeds after the stop decision")

    def gate_ok(t, fx):
        for t0, f0 in proceed:
            req = {rewrite(a, lambda x: t if x == t0 else None): v for a, v in f0.items()}
            if req and all(fx.get(a) == v for a, v in req.items()):
                return True
        return False

    gvt = global_of(ctx, "get_in_progress_trial")
    gvs = global_of(ctx, "get_workers_neps_state")
    mon = LoopMonitor(ctx, sf, gate_ok, gvt, gvs)
    itp = ctx.interp(opaque=STATE_OPS | {short(sf)}, monitor=mon, raises={"NePSState.put_updated_trial": [VME, "?"]})
    res = itp.run(ctx.func("DefaultWorker.run"))
    for r in res:
        d = dict(r.events)
        if r.outcome[0] == "return":
            mon.boundary(d, r.state, "end of run", "when the worker ends", itp)
        elif r.outcome[0] == "raise":
            g = r.state.heap.get((gvt, "="))
            if g is not None and g != NONE:
                mon.bad("in-progress", f"the trial in progress is still {show(g)} after the worker failed with {show(r.outcome[1])}", "end of run")
            if d["fails"][0] == C(1) and len(d["fails"]) > 1 and d["fails"][1] == C(VME):
                mon.bad("refusal", f"a single refused claim ends the worker with {show(r.outcome[1])}", "end of run")
    for need in ("stop-check", "obtain", "claim", "evaluate", "report"):
        if need not in mon.seen:
            mon.bad("missing-" + need, f"the worker loop has no step '{need}'", "run")
    ctx._cache[key] = (mon, res)
    return mon, res


def global_of(ctx, getter):
    """The module global a getter function returns."""
    f = ctx.func(getter)
    paths = ctx.paths(f, exc=False)
    gs = set()
    for p in paths:
        if p.outcome[0] == "return":
            for x in subterms(p.outcome[1]):
                if x[0] == "gv":
                    gs.add(x)
    ctx.need(len(gs) == 1, f"{getter} does not return a module global")
    return gs.pop()


def _loop_rule(name, kinds, doc):
    def rule(ctx):
        mon, res = run_monitor(ctx)
        f = ctx.func("DefaultWorker.run")
        for k, msg, site in mon.found:
            if k in kinds:
                ctx.viol(f"{f.qual} [{k}]", f"{msg} ({site})")
        ctx.ob(f"{f.qual}: {doc}: {sum(mon.seen.values())} checked loop events over {len(res)} exits")
        ctx.count("loop_events_checked", sum(mon.seen.values()))

    rule.__name__ = name
    rule.__doc__ = doc
    return rule


loop_claims = _loop_rule("loop_claims", {"unclaimed", "claim-content", "missing-claim", "missing-evaluate", "missing-obtain", "rebinding"}, "only a trial obtained in this round and recorded as claimed is evaluated")
loop_refusal = _loop_rule("loop_refusal", {"refusal"}, "a refused claim leads to another round")
loop_gate = _loop_rule("loop_gate", {"unchecked", "missing-stop-check", "wallclock", "rebinding"}, "every evaluation is preceded by a stop decision that said continue")
loop_reports = _loop_rule("loop_reports", {"unreported", "double-report", "report-args", "missing-report"}, "every finished evaluation is reported before the next round or the end")
loop_report_worker = _loop_rule("loop_report_worker", {"report-worker", "claim-worker", "claim-time"}, "claims and reports name the worker")
loop_accounting = _loop_rule("loop_accounting", {"accounting"}, "count, cost and time are added exactly once per finished evaluation")
loop_own_error = _loop_rule("loop_own_error", {"own-error"}, "the stop decision is told about the worker's own evaluation error")
loop_fifo = _loop_rule("loop_fifo", {"fifo"}, "a new trial is only sampled when no pending trial exists")
loop_args = _loop_rule("loop_args", {"sample-args", "eval-args", "rebinding"}, "sampling and evaluation use the worker's own optimizer, hooks and function")
loop_eval_defaults = _loop_rule("loop_eval_defaults", {"eval-defaults", "eval-args"}, "evaluation uses the configured default report values")
loop_in_progress = _loop_rule("loop_in_progress", {"in-progress", "in-progress-state"}, "the in-progress trial is exactly the evaluated one and cleared afterwards")
