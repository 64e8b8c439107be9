"""Rules about the shared state's compound operations: sampling, reporting, lock order."""
from __future__ import annotations

from sa.core import *  # noqa: F403
from sa.core import ANY, AnalysisBroken, Ctx
from sa.terms import *  # noqa: F403
from rules.store import tail, raised_name, lock_spans, propagated

SELF = P("self")
NS = "NePSState"
SYN = {"Synced.synced", "Synced.put", "Synced.acquire", "Synced.new", "Synced.load", "Synced.new_or_load"}
SEED = {"SeedSnapshot.recapture", "SeedSnapshot.set_as_global_seed_state", "SeedSnapshot.new_capture"}
EL = ("EL",)


def acquired(p, fld):
    """(enter index, exit index, data term, put term) of each locked section on a record."""
    out = []
    for i, e in enumerate(p.events):
        if e[0] == "enter" and e[1][0] == "call" and tail(e[1][2]) == "acquire" and e[1][3] == attr(SELF, fld):
            ex = [j for j, x in enumerate(p.events) if x[0] == "exit" and x[1] == e[1] and j > i]
            ent = ("ent", e[1])
            out.append((i, ex[0] if ex else len(p.events), ("it", ent, 0), ("it", ent, 1)))
    return out


def put_calls(p, put, kinds=("call",)):
    return [(i, e[1]) for i, e in enumerate(p.events) if e[0] in kinds and e[1][2] == "<call>" and e[1][3] == put]


def hv(p, o, name):
    """Final value of attribute ``name`` of ``o``."""
    v = p.state.heap.get((o, name))
    if v is None and o[0] == "new":
        v = dict(o[2]).get(name)
    if v is None:
        v = attr(o, name)
    return v


def is_copy_of(t, x):
    if t == x:
        return False
    if t[0] in ("call", "op"):
        name = t[2] if t[0] == "call" else t[1]
        return tail(name) in ("clone", "replace", "copy", "deepcopy") and contains(t, x)
    if t[0] == "new":
        return True
    return False


def all_trials_gather(t, fresh=True):
    """dict of every recorded trial's newest version by id"""
    if t[0] == "call" and t[2] == f"{NS}.get_all_trials":
        return t[3] == SELF
    ok = t[0] == "g" and t[1] == "dict" and t[2][0] == "op" and t[2][1] == ".items" and t[2][2][0] == "call" and tail(t[2][2][2]) == "all" and t[2][2][3] == attr(SELF, "_trials")
    if not ok or len(t[3]) != 1 or t[3][0][0]:
        return False
    e = t[3][0][1]
    return e[0] == "tup" and e[1][0] == ("it", EL, 0) and e[1][1][0] == "call" and tail(e[1][1][2]) == "synced" and e[1][1][3] == ("it", EL, 1)


def sample_paths(ctx, **kw):
    f = ctx.func(f"{NS}.sample_trial")
    return f, ctx.paths(f, opaque=SYN | SEED, **kw)


def asks(p):
    return [(i, e[1]) for i, e in enumerate(p.events) if e[0] == "call" and tail(e[1][2]) == "ask"]


def reads_of_trials(p):
    return [i for i, e in enumerate(p.events) if e[0] == "call" and (tail(e[1][2]) == "all" and e[1][3] == attr(SELF, "_trials") or e[1][2] == f"{NS}.get_all_trials")]


def sample_atomic(ctx: Ctx):
    """Looking at the trials, asking the optimizer, storing the new trial and storing the new
    optimizer state happen in one locked section that no other sampling worker can enter."""
    f, paths = sample_paths(ctx, exc=False)
    n = 0
    for p in paths:
        if p.outcome[0] != "return":
            continue
        n += 1
        spans, rest = lock_spans(p)
        if rest:
            ctx.viol(f.qual, "a lock is still held after sampling", p)
        ask = asks(p)
        new = [(i, e[1]) for i, e in enumerate(p.events) if e[0] == "call" and tail(e[1][2]) == "put_new"]
        if len(ask) != 1 or len(new) != 1:
            ctx.viol(f.qual, f"one sampling asks the optimizer {len(ask)} times and stores {len(new)} trials", p)
            continue
        crit = {"looking at the existing trials": reads_of_trials(p), "asking the optimizer": [ask[0][0]], "storing the new trial": [new[0][0]]}
        puts = [i for i, e in enumerate(p.events) if e[0] == "call" and e[1][2] == "<call>" and e[1][3] is not None and e[1][3][0] == "it" and e[1][3][1][0] == "ent"]
        crit["storing the optimizer state"] = puts
        if not crit["looking at the existing trials"]:
            ctx.viol(f.qual, "the optimizer is asked without looking at the existing trials", p)
            continue
        common = None
        for w, ix in crit.items():
            for i in ix:
                h = {l for l in spans[i] if l[0] == "call" and tail(l[2]) in ("acquire", "lock")}
                if not h:
                    ctx.viol(f.qual, f"{w} happens without a lock, so that another worker can sample in between", p)
                common = h if common is None else common & h
        if not common and all(spans[i] for ix in crit.values() for i in ix):
            ctx.viol(f.qual, "no single lock is held from looking at the trials until the new trial and state are stored", p)
        if not min(crit["looking at the existing trials"]) < ask[0][0] < new[0][0]:
            ctx.viol(f.qual, "the optimizer is not asked between looking at the trials and storing the new one", p)
        # data and update operation of the state records belong to that same section
        for fld, what in (("_optimizer_state", "optimizer state"), ("_seed_state", "random state")):
            a = acquired(p, fld)
            if len(a) != 1:
                ctx.viol(f.qual, f"the {what} is taken {len(a)} times while sampling", p)
                continue
            i, x, data, put = a[0]
            pc = put_calls(p, put)
            if not pc:
                ctx.viol(f.qual, f"the {what} is not stored after sampling", p)
            for j, c in pc:
                if not i < j < x:
                    ctx.viol(f.qual, f"the {what} is stored outside its locked section", p)
                if j < ask[0][0]:
                    ctx.viol(f.qual, f"the {what} is stored before the optimizer is asked", p)
    ctx.need(n >= 1 or ctx.violations, "sampling never succeeds")
    ctx.ob(f"{f.qual}: {n} successful paths")


def sample_locks_released(ctx: Ctx):
    """Every lock taken while sampling is released on every path, also by exceptions."""
    f, paths = sample_paths(ctx)
    for p in paths:
        _, rest = lock_spans(p)
        if rest:
            ctx.viol(f.qual, "a lock is not released on this way out of sampling", p)
    ctx.ob(f"{f.qual}: {len(paths)} paths incl. exceptions release their locks")


def sample_inputs(ctx: Ctx):
    """The optimizer sees every recorded trial's newest version and a private copy of the budget."""
    f, paths = sample_paths(ctx, exc=False)
    n = 0
    for p in paths:
        for i, c in asks(p):
            n += 1
            tr = fz(p, kwarg(c, "trials") or arg(c, 0) or NONE)
            if not all_trials_gather(tr):
                ctx.viol(f.qual, f"the optimizer is asked with the trials {show(tr)}", p)
            b = fz(p, kwarg(c, "budget_info") or arg(c, 1) or NONE)
            a = acquired(p, "_optimizer_state")
            if not a:
                continue
            bud = attr(a[0][2], "budget")
            if p.facts.get(("isnone", bud)) is True:
                if b not in (NONE, bud):
                    ctx.viol(f.qual, "the optimizer gets a budget although none is configured", p)
            elif b == bud:
                ctx.viol(f.qual, "the optimizer gets the recorded budget itself and can change it", p)
            elif not is_copy_of(b, bud):
                ctx.viol(f.qual, f"the optimizer gets the budget {show(b)}", p)
    ctx.need(n >= 1 or ctx.violations, "the optimizer is never asked")
    ctx.ob(f"{f.qual}: {n} ask calls")


def sample_rng(ctx: Ctx):
    """The recorded random state is restored before and re-captured and stored after the
    optimizer was asked, in the same locked section."""
    f, paths = sample_paths(ctx, exc=False)
    n = 0
    for p in paths:
        a = acquired(p, "_seed_state")
        for i, c in asks(p):
            if not a:
                ctx.viol(f.qual, "the optimizer is asked without the recorded random state", p)
                continue
            s, x, data, put = a[0]
            res = [j for j, e in enumerate(p.events) if e[0] == "call" and tail(e[1][2]) == "set_as_global_seed_state" and e[1][3] == data]
            if not [j for j in res if s < j < i]:
                ctx.viol(f.qual, "the recorded random state is not restored before the optimizer is asked", p)
            if [j for j in res if j > i]:
                ctx.viol(f.qual, "the random state is set back after the optimizer was asked", p)
            if p.outcome[0] != "return":
                continue
            n += 1
            rec = [j for j, e in enumerate(p.events) if e[0] == "call" and tail(e[1][2]) == "recapture" and e[1][3] == data]
            pc = put_calls(p, put)
            if not pc:
                ctx.viol(f.qual, "the advanced random state is not stored", p)
                continue
            j, cc = pc[-1]
            v = arg(cc, 0) or NONE
            if v == data:
                if not [r for r in rec if i < r < j]:
                    ctx.viol(f.qual, "the stored random state is the one from before the optimizer was asked", p)
            elif v[0] == "call" and tail(v[2]) == "new_capture":
                k = [r for r, e in enumerate(p.events) if e[0] == "call" and e[1] == v]
                if not k or k[0] < i:
                    ctx.viol(f.qual, "the stored random state is the one from before the optimizer was asked", p)
            else:
                ctx.viol(f.qual, f"the stored random state is {show(v)}", p)
            if not s < j < x:
                ctx.viol(f.qual, "the random state is stored outside its locked section", p)
    ctx.need(n >= 1 or ctx.violations, "sampling never succeeds")
    ctx.ob(f"{f.qual}: {n} successful ask calls between restore and capture")


def sample_state_kept(ctx: Ctx):
    """The stored optimizer state is the recorded budget plus the optimizer's new state."""
    f, paths = sample_paths(ctx, exc=False)
    n = 0
    for p in paths:
        if p.outcome[0] != "return" or not asks(p):
            continue
        a = acquired(p, "_optimizer_state")
        if not a:
            continue
        s, x, data, put = a[0]
        r = asks(p)[0][1]
        tup = p.facts.get(("isinst", r, "tuple"))
        for j, c in put_calls(p, put):
            n += 1
            v = arg(c, 0) or NONE
            v = fz(p, v) if v[0] == "o" else v
            b, sh = hv(p, v, "budget"), hv(p, v, "shared_state")
            if fz(p, b) != attr(data, "budget") and not (is_copy_of(fz(p, b), attr(data, "budget")) and b[0] != "new"):
                if not (b == NONE and p.facts.get(("isnone", attr(data, "budget"))) is True):
                    ctx.viol(f.qual, f"sampling replaces the recorded budget by {show(fz(p, b))}", p)
            fr = fz(p, r)
            sh = fz(p, sh)
            want = {("it", fr, 1)} if tup is True else {attr(data, "shared_state")} if tup is False else {("it", fr, 1), attr(data, "shared_state")}
            if sh not in want and not (sh[0] == "op" and sh[1] == "dict" and sh[2] in want):
                ctx.viol(f.qual, f"the optimizer's shared state is stored as {show(sh)}", p)
        for e in p.events:
            if e[0] == "store" and contains(e[1], attr(data, "budget")):
                ctx.viol(f.qual, f"sampling changes the recorded budget ({e[2]})", p)
    ctx.need(n >= 1 or ctx.violations, "the optimizer state is never stored")
    ctx.ob(f"{f.qual}: {n} stored optimizer states")


def sample_trial_content(ctx: Ctx):
    """The stored and returned trial is exactly what the optimizer proposed."""
    f, paths = sample_paths(ctx, exc=False)
    n = 0
    for p in paths:
        ask = asks(p)
        if not ask:
            continue
        r = ask[0][1]
        tup = p.facts.get(("isinst", r, "tuple"))
        prop = ("it", r, 0) if tup else r
        prev = attr(prop, "previous_config_id")
        noprev = p.facts.get(("isnone", prev))
        prop = fz(p, prop)
        prev = attr(prop, "previous_config_id")
        ffacts = {fz(p, a): v for a, v in p.facts.items()}
        new = [(i, e[1]) for i, e in enumerate(p.events) if e[0] == "call" and tail(e[1][2]) == "put_new"]
        if p.outcome[0] == "raise":
            if new:
                ctx.viol(f.qual, f"fails with {raised_name(p)} after the trial was stored", p)
            if noprev is True:
                ctx.viol(f.qual, f"fails with {raised_name(p)} although the proposal continues no other trial", p)
            continue
        if not new:
            ctx.viol(f.qual, "no trial is stored", p)
            continue
        n += 1
        i, c = new[0]
        t = arg(c, 0, "trial")
        ft = fz(p, t)
        if ft[0] != "new" or not ft[1].endswith("Trial"):
            ctx.viol(f.qual, f"the stored trial is {show(ft)}", p)
            continue
        if fz(p, p.outcome[1]) != ft:
            ctx.viol(f.qual, "the returned trial is not the stored one", p)
        d = dict(ft[2])
        md = dict(d["metadata"][2]) if d.get("metadata", NONE)[0] == "new" else {}
        if d.get("config") not in (attr(prop, "config"), ("op", "dict", attr(prop, "config"))):
            ctx.viol(f.qual, f"the trial's configuration is {show(d.get('config', NONE))}", p)
        if d.get("state", NONE)[-1] != "PENDING" or d.get("report") != NONE:
            ctx.viol(f.qual, "a new trial is not pending", p)
        if md.get("id") not in (attr(prop, "id"), ("op", "str", attr(prop, "id"))):
            ctx.viol(f.qual, f"the trial's id is {show(md.get('id', NONE))}", p)
        w = md.get("sampling_worker_id", NONE)
        if w not in (P("worker_id"), ("op", "str", P("worker_id"))):
            ctx.viol(f.qual, f"the sampling worker is recorded as {show(w)}", p)
        ts = md.get("time_sampled", NONE)
        if ts[0] != "call" or ts[2] != "time.time":
            ctx.viol(f.qual, f"the sampling time is recorded as {show(ts)}", p)
        else:
            held = [j for j, e in enumerate(p.events) if e[0] == "call" and e[1] == ts]
            spans, _ = lock_spans(p)
            if held and not spans[held[0]]:
                ctx.viol(f.qual, "the sampling time is taken outside the sampling section, so that it does not order the trials", p)
        pid = md.get("previous_trial_id", NONE)
        ploc = md.get("previous_trial_location", NONE)
        if noprev is True:
            if pid not in (NONE, prev) or ploc != NONE:
                ctx.viol(f.qual, f"a trial without predecessor refers to {show(pid)} at {show(ploc)}", p)
        else:
            if pid != prev:
                ctx.viol(f.qual, f"the continued trial is recorded as {show(pid)}", p)
            tr = fz(p, kwarg(ask[0][1], "trials") or arg(ask[0][1], 0) or NONE)

            def lookup(x):
                return (x[0] == "op" and x[1] == ".get" and x[3] == prev or x[0] == "sub" and x[2] == prev) and all_trials_gather(x[1] if x[0] == "sub" else x[2]) or (
                    x[0] == "call" and x[2] == f"{NS}.get_trial_by_id" and arg(x, 0, "trial_id") == prev) or (x[0] == "call" and tail(x[2]) == "synced" and x[3][0] == "call" and tail(x[3][2]) == "get_by_id" and arg(x[3], 0, "trial_id") == prev)

            good = ploc[0] == "a" and ploc[2] == "location" and ploc[1][0] == "a" and ploc[1][2] == "metadata" and lookup(ploc[1][1])
            if not good:
                ctx.viol(f.qual, f"the continued trial's directory is recorded as {show(ploc)}", p)
            elif ploc[1][1][0] == "op" and ffacts.get(("isnone", ploc[1][1])) is not False:
                ctx.viol(f.qual, "a proposal that continues an unknown trial is accepted", p)
    ctx.need(n >= 1 or ctx.violations, "sampling never succeeds")
    ctx.ob(f"{f.qual}: {n} stored trials")


# ------------------------------------------------------------------- reporting
def report_paths(ctx, **kw):
    f = ctx.func(f"{NS}.report_trial_evaluation")
    return f, ctx.paths(f, opaque=SYN, **kw)


def report_stored(ctx: Ctx):
    """The report is attached to the trial and the trial stored, before anything else can fail."""
    f, paths = report_paths(ctx)
    TR, RP = P("trial"), P("report")
    n = 0
    for p in paths:
        puts = [(i, e) for i, e in enumerate(p.events) if e[0] in ("call", "callexc") and tail(e[1][2]) in ("put",)]
        st = [i for i, e in enumerate(p.events) if e[0] == "store" and e[1] == TR and e[2] == "report"]
        for i, e in puts:
            g = e[1][3]
            ok = g[0] == "call" and tail(g[2]) == "get_by_id" and g[3] == attr(SELF, "_trials") and arg(g, 0, "trial_id") in (attr(TR, "metadata", "id"), attr(TR, "id"))
            if not ok or kwarg(e[1], "data", arg(e[1], 0)) != TR:
                ctx.viol(f.qual, f"not the evaluated trial is stored: {show(e[1])}", p)
            if not [j for j in st if j < i and p.events[j][3] == RP]:
                ctx.viol(f.qual, "the trial is stored before its report is attached", p)
        pu = calls(p, {f"{NS}.put_updated_trial"})
        done = [1 for i, e in puts if e[0] == "call"]
        if p.outcome[0] == "return":
            n += 1
            if not done:
                ctx.viol(f.qual, "reporting ends normally without the trial being stored", p)
            elif len(done) > 1:
                ctx.viol(f.qual, "the trial is stored twice", p)
            if hv(p, TR, "report") != RP:
                ctx.viol(f.qual, "the trial does not carry its report", p)
            if not st:
                ctx.viol(f.qual, "the report is not attached to the trial", p)
        for e in p.events:
            if e[0] == "store" and e[1] == TR and e[2] != "report" or e[0] == "store" and e[1] != TR and contains(e[1], TR):
                if e[2] not in ("report",):
                    ctx.viol(f.qual, f"reporting changes the trial's {e[2]}", p)
            if e[0] == "store" and e[1] == RP:
                ctx.viol(f.qual, f"reporting changes the report's {e[2]}", p)
        if any(e[0] in ("call", "enter") and e[1][0] == "call" and tail(e[1][2]) == "synced" for e in p.events):
            ctx.viol(f.qual, "the newest version is fetched right before reporting, so that changes of other workers are overwritten", p)
    ctx.need(n >= 1 or ctx.violations, "reporting never succeeds")
    ctx.ob(f"{f.qual}: {len(paths)} paths, {n} normal")


def report_budget(ctx: Ctx):
    """The shared budget grows by exactly the report's cost, under the lock."""
    f, paths = report_paths(ctx, exc=False)
    n = 0
    cost = attr(P("report"), "cost")
    for p in paths:
        if p.outcome[0] != "return":
            continue
        n += 1
        accs = acquired(p, "_optimizer_state")
        has = {}
        added = 0
        for s, x, data, put in accs:
            bud = attr(data, "budget")
            used = attr(bud, "used_cost_budget")
            nb = p.facts.get(("isnone", bud))
            nc = p.facts.get(("isnone", cost))
            pcs = put_calls(p, put)
            stores = [(i, e) for i, e in enumerate(p.events) if e[0] == "store" and contains(e[1], data)]
            newval = hv(p, bud, "used_cost_budget")
            if pcs:
                v = arg(pcs[-1][1], 0) or NONE
                if v != data:
                    fv = fz(p, v)
                    b2 = hv(p, v, "budget")
                    sh = hv(p, fv, "shared_state") if fv[0] == "new" else NONE
                    if fv[0] != "new" or sh != attr(data, "shared_state"):
                        ctx.viol(f.qual, f"the stored optimizer state is {show(fv)}", p)
                    if b2 != bud:
                        fb = fz(p, b2)
                        if fb[0] == "new":
                            d = dict(fb[2])
                            newval = d.get("used_cost_budget", NONE)
                            for k, val in d.items():
                                if k != "used_cost_budget" and val != attr(bud, k):
                                    ctx.viol(f.qual, f"reporting changes the budget's {k}", p)
                        elif fb[0] in ("op", "call") and mentions(fb, lambda y: y == ("bin", "+", used, cost) or y == ("bin", "+", cost, used)):
                            newval = ("bin", "+", used, cost)
                        elif not (fb == NONE and nb is True):
                            newval = fb
            for i, e in stores:
                if e[1] == bud and e[2] == "used_cost_budget":
                    if not s < i < x:
                        ctx.viol(f.qual, "the budget is changed outside the locked section", p)
                elif e[1] == data and e[2] in ("budget",):
                    pass
                else:
                    if not (e[1] == bud and e[2] == "used_evaluations"):
                        ctx.viol(f.qual, f"reporting changes the optimizer state's {e[2]}", p)
            inc = newval in (("bin", "+", used, cost), ("bin", "+", cost, used))
            zero = newval == used
            if not inc and not zero:
                ctx.viol(f.qual, f"the used budget becomes {show(newval)}", p)
            if nb is True or nc is True:
                if inc:
                    ctx.viol(f.qual, "a missing cost is added to the budget", p)
                continue
            if inc:
                added += 1
                last = max([i for i, e in stores] or [-1])
                if not pcs:
                    ctx.viol(f.qual, "the increased budget is not stored", p)
                elif pcs[-1][0] < last:
                    ctx.viol(f.qual, "the budget is increased after it was stored", p)
                elif not pcs[-1][0] < x:
                    ctx.viol(f.qual, "the budget is stored outside the locked section", p)
        nc = p.facts.get(("isnone", cost))
        if nc is not True and not any(p.facts.get(("isnone", attr(d, "budget"))) is True for _, _, d, _ in accs):
            if added != 1:
                ctx.viol(f.qual, f"the cost of a finished evaluation is added to the shared budget {added} times", p)
    ctx.need(n >= 1 or ctx.violations, "reporting never succeeds")
    ctx.ob(f"{f.qual}: {n} paths")


def appended_to(v, old):
    """What a list has in addition to (and after) the ``old`` one, if that is a single item."""
    if v[0] == "list" and len(v[1]) == 2 and v[1][0] in (("*", old), ("*", ("op", "list", old))):
        return v[1][1]
    return None


def report_error(ctx: Ctx):
    """An error report is appended to the shared errors, with trial, worker, type, message and
    traceback; nothing is appended otherwise."""
    f, paths = report_paths(ctx, exc=False)
    RP = P("report")
    err = attr(RP, "err")
    n = 0
    for p in paths:
        if p.outcome[0] != "return":
            continue
        noerr = p.facts.get(("isnone", err))
        accs = acquired(p, "_shared_errors")
        app = 0
        for s, x, data, put in accs:
            pcs = put_calls(p, put)
            muts = [(i, e) for i, e in enumerate(p.events) if e[0] == "mut" and e[1] in (attr(data, "errs"), data) or e[0] == "call" and tail(e[1][2]) == "append" and e[1][3] in (attr(data, "errs"), data)]
            news = []
            for i, e in muts:
                name = e[2] if e[0] == "mut" else tail(e[1][2])
                if name not in ("append",):
                    ctx.viol(f.qual, f"the recorded errors are changed by {name}", p)
                    continue
                val = e[3][0] if e[0] == "mut" else e[1][4][0]
                news.append((i, fz(p, val)))
            for i, e in enumerate(p.events):
                if e[0] == "store" and e[1:3] == (data, "errs"):
                    v = appended_to(fz(p, e[3]), attr(data, "errs"))
                    if v is not None:
                        news.append((i, v))
                        continue
                if e[0] in ("store", "setitem", "delitem") and contains(e[1], data):
                    ctx.viol(f.qual, "recorded errors are replaced", p)
            for i, v in news:
                app += 1
                d = dict(v[2]) if v[0] == "new" else {}
                want = {
                    "trial_id": {attr(P("trial"), "metadata", "id"), attr(P("trial"), "id"), attr(RP, "trial_id")},
                    "worker_id": {P("worker_id")},
                    "err_type": {attr(("op", "type", err), "__name__"), attr(err, "__class__", "__name__"), attr(("op", "type", err), "__qualname__")},
                    "err": {("op", "str", err)},
                    "tb": {attr(RP, "tb")},
                }
                for k, w in want.items():
                    if d.get(k) not in w:
                        ctx.viol(f.qual, f"the recorded error's {k} is {show(d.get(k, NONE))}", p)
                if not [1 for j, c in pcs if i < j < x and (arg(c, 0) == data)]:
                    ctx.viol(f.qual, "the error is appended but not stored", p)
        if noerr is not True:
            n += 1
            if app != 1:
                ctx.viol(f.qual, f"an evaluation error is recorded {app} times", p)
        elif app:
            ctx.viol(f.qual, "an error is recorded although the evaluation had none", p)
    if not n:
        ctx.viol(f.qual, "evaluation errors are never recorded")
    # the container
    c = ctx.cls("ErrDump")
    for m, pred in (("append", None), ("latest_err_as_raisable", None)):
        fn = c.methods.get(m)
        if fn is None:
            continue
        for p in ctx.paths(fn, exc=False, opaque={"SerializableTrialError.as_raisable"}):
            if m == "append":
                mu = [e for e in p.events if e[0] == "mut"]
                a = P([x.arg for x in fn.node.args.args if x.arg != "self"][0])
                st = [e for e in p.events if e[0] == "store"]
                if st and not mu and all(e[1:3] == (SELF, "errs") and appended_to(fz(p, e[3]), attr(SELF, "errs")) == a for e in st) and len(st) == 1:
                    continue
                if len(mu) != 1 or mu[0][1] != attr(SELF, "errs") or mu[0][2] != "append" or mu[0][3] != (a,):
                    ctx.viol(fn.qual, "does not append the given error", p)
            else:
                emp = p.facts.get(("truthy", attr(SELF, "errs")))
                v = p.outcome[1]
                if emp is True:
                    last = v[0] == "call" and tail(v[2]) == "as_raisable" and v[3] is not None and v[3][0] in ("sub", "it") and v[3][1] == attr(SELF, "errs")
                    k = v[3][2] if last else None
                    if not last or k not in (C(-1), -1, ("bin", "-", ("op", "len", attr(SELF, "errs")), ONE)):
                        ctx.viol(fn.qual, f"the newest error is {show(v)}", p)
                elif emp is False and v != NONE:
                    ctx.viol(fn.qual, f"an error is reported although none is recorded ({show(v)})", p)
    fn = ctx.func("SerializableTrialError.as_raisable")
    for p in ctx.paths(fn, exc=False):
        v = fz(p, p.outcome[1])
        for k in ("trial_id", "worker_id", "err_type", "err", "tb"):
            if p.outcome[0] != "return" or not mentions(v, lambda x, k=k: x == attr(SELF, k)):
                ctx.viol(fn.qual, f"the error shown to the user lacks its {k}", p)
    for dn in ("__bool__", "__len__"):
        fn = c.methods.get(dn)
        if fn:
            for p in ctx.paths(fn, exc=False):
                v = p.outcome[1]
                if dn == "__len__" and v != ("op", "len", attr(SELF, "errs")):
                    ctx.viol(fn.qual, f"the number of errors is {show(v)}", p)
                t = p.facts.get(("truthy", attr(SELF, "errs")))
                if dn == "__bool__" and not (v in (TRUE, FALSE) and t is not None and (v == TRUE) == t or mentions(v, lambda x: x == attr(SELF, "errs"))):
                    ctx.viol(fn.qual, f"whether errors exist is {show(v)}", p)
    ctx.ob(f"{f.qual}: {n} error paths; error record append/latest/show")


# --------------------------------------------------------------------- lock order
LOCKING_REPO = {"all", "get_by_id", "put_new", "pending", "all_trial_ids"}


def lock_order(ctx: Ctx):
    """Locks are nested in one order only, never re-entered, and user code is not run under one."""
    import ast

    edges = {}
    n = 0
    cands = []
    for f in ctx.prog.funcs.values():
        if f.cls is not None and f.cls.name in ("Synced", "VersionedResource", "FileLocker", "FileVersioner"):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("acquire", "lock"):
                cands.append(f)
                break
    helpers = set()
    for f in cands:
        n += 1
        if is_method_of_locker(f):
            continue
        for p in ctx.paths(f, exc=False, opaque=SYN | SEED):
            held = []
            for e in p.events:
                if e[0] == "enter" and e[1][0] == "call" and tail(e[1][2]) in ("acquire", "lock"):
                    nm = lock_name(e[1][3])
                    for h in held:
                        edges.setdefault((h, nm), set()).add(f.qual)
                    held.append(nm)
                elif e[0] == "exit" and e[1][0] == "call" and tail(e[1][2]) in ("acquire", "lock"):
                    nm = lock_name(e[1][3])
                    if nm in held:
                        held.reverse()
                        held.remove(nm)
                        held.reverse()
                elif e[0] == "call" and held:
                    t = e[1][2]
                    nm = None
                    if t in SYN or t in (".synced", ".put"):
                        nm = lock_name(e[1][3])
                    elif tail(t) in LOCKING_REPO and e[1][3] is not None and e[1][3][0] == "a" and e[1][3][2] == "_trials":
                        nm = "<trial>"
                    if nm is not None:
                        for h in held:
                            edges.setdefault((h, nm), set()).add(f.qual)
                    if tail(t) in ("evaluate_trial", "_eval_trial", "evaluation_fn"):
                        ctx.viol(f.qual, f"user code ({t}) runs while {', '.join(held)} is locked", p)
    for (a, b), who in sorted(edges.items()):
        if a == b:
            ctx.viol(sorted(who)[0], f"the lock of {a} is taken again while it is held: the worker waits for itself")
    # cycles
    succ = {}
    for a, b in edges:
        if a != b:
            succ.setdefault(a, set()).add(b)

    def reach(a, b, seen):
        for c in succ.get(a, ()):
            if c == b or c not in seen and reach(c, b, seen | {c}):
                return True
        return False

    for (a, b), who in sorted(edges.items()):
        if a != b and reach(b, a, {b}):
            ctx.viol(sorted(who)[0], f"locks {b} while holding {a}, elsewhere it is the other way round: workers can wait for each other forever")
    ctx.need(n >= 2, "no locked sections found")
    ctx.count("lock_order_edges", len(edges))
    ctx.ob(f"{n} functions with locked sections, lock order edges: {', '.join(f'{a}->{b}' for a, b in sorted(edges))}")


def is_method_of_locker(f):
    return f.cls is not None and f.cls.name in ("FileLocker", "Locker")


def lock_name(t):
    if t is None:
        return "?"
    if t[0] == "a":
        return t[2] if t[2] != "_locker" else lock_name(t[1])
    if t[0] in ("it", "sub", "el", "EL") or t[0] == "call":
        return "<trial>"
    return show(t)


