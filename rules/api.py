"""Rules about the entry point: where the arguments of a run end up, precedence of explicit
arguments over the settings file, destructive actions, choice and construction of searchers.

The entry point is evaluated abstractly with *marker constants*: every argument carries a
distinct constant, everything else stays symbolic, and the rule looks where the markers
arrive (the worker's settings, the shared budget, the directory, the searcher)."""
from __future__ import annotations

import ast

from sa.absint import State
from sa.core import *  # noqa: F403
from sa.core import ANY, AnalysisBroken, Ctx
from sa.terms import *  # noqa: F403
from rules.store import tail

RUN = "neps.api.run"
FN, SPACE = P("FN"), P("SPACE")
OPAQUE = {
    "_run_args",
    "SearchSpace.__init__",
    "post_run_csv",
    "create_or_load_filebased_neps_state",
    "DefaultWorker.run",
    "load_and_return_object",
    "pipeline_space_from_yaml",
}
DESTROY = ("rmtree", "unlink", "rmdir", "remove", "removedirs")


def params(ctx):
    f = ctx.func(RUN)
    a = f.node.args
    out = {}
    pos = a.posonlyargs + a.args
    defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    for p, d in list(zip(pos, defs)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        out[p.arg] = d
    return f, out


def default_term(ctx, f, d):
    """The abstract value of a signature default."""
    if d is None:
        return None
    if isinstance(d, ast.Constant):
        return C(d.value)
    if isinstance(d, ast.Call) and len(d.args) == 1 and not d.keywords and isinstance(d.args[0], ast.Constant):
        r = ctx.prog.resolve_expr(f.module, d.func)
        if r is not None and r[0] in ("class", "cls"):
            c = r[1]
            init = c.find_method("__init__")
            names = [x.arg for x in init.node.args.args[1:]]
            fld = None
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == names[0]:
                    fld = n.targets[0].attr
            if fld:
                return ("new", c.qual, ((fld, C(d.args[0].value)),))
    raise AnalysisBroken(f"cannot evaluate the default of an argument of neps.run: {ast.unparse(d)}")


def lit_dict(d):
    def conv(v):
        if isinstance(v, dict):
            return ("dict", tuple((C(k), conv(x)) for k, x in v.items()))
        if isinstance(v, list):
            return ("list", tuple(conv(x) for x in v))
        if isinstance(v, tuple):
            return v
        return C(v)

    return conv(d)


def launch(ctx: Ctx, given: dict, yaml: dict | None = None, kwargs: dict | None = None, opaque=OPAQUE, models=None):
    """Paths of neps.run with the given arguments (markers) and settings file."""
    key = ("launch", repr(sorted(given.items(), key=str)), repr(yaml), repr(kwargs))
    if key in ctx._cache:
        return ctx._cache[key]
    f, ps = params(ctx)
    args = {}
    classes = set()
    for n, d in ps.items():
        t = default_term(ctx, f, d)
        if t is not None and t[0] == "new":
            classes.add(t[1])
        if n in given:
            v = given[n]
            t = v if isinstance(v, tuple) else C(v)
        args[n] = t
    if yaml is not None:
        args["run_args"] = C("settings.yaml")
    args[f.node.args.kwarg.arg] = lit_dict(kwargs or {})
    models = dict(models or {})
    models["builtins.open"] = P("FILE")
    if yaml is not None:
        models["yaml.safe_load"] = lit_dict(yaml)
    i = ctx.interp(exc=False, opaque=opaque, recursion=4, literal_limit=60, models=models, max_depth=20)
    st = State()
    for x in (FN, SPACE):
        st.facts[("isnone", x)] = False
        st.facts[("truthy", x)] = True
        for c in classes:
            st.facts[("isinst", x, c)] = False
    r = i.run(f, args=args, st=st)
    ctx._cache[key] = r
    ctx.count("argument_scenarios")
    return r


def worker_of(ctx, p):
    """(index, worker object, frozen fields) of the worker run on this path."""
    rs = calls(p, "DefaultWorker.run")
    if len(rs) != 1:
        return None
    i, c = rs[0]
    w = fz(p, c[3])
    if w[0] != "new":
        raise AnalysisBroken("the worker that neps.run starts could not be followed")
    return i, dict(w[2])


def parts(t):
    """Components of a path expression."""
    if t[0] == "bin" and t[1] == "/":
        return parts(t[2]) + parts(t[3])
    if t[0] == "op" and t[1] == ".joinpath":
        return tuple(x for y in t[2:] for x in parts(y))
    if t[0] == "op" and t[1] in ("pathlib.Path", "str", "os.path.join", ".absolute", ".resolve", ".expanduser"):
        return tuple(x for y in t[2:] if y[0] != "kw" for x in parts(y))
    if t[0] == "a" and t[2] == "parent":
        return parts(t[1])[:-1]
    if t[0] == "fstr":
        ps = [x[2] if x[0] == "c" else None for x in t[1]]
        if all(x is not None for x in ps):
            return ("".join(str(x) for x in ps),)
    if t[0] == "c":
        return tuple(str(t[2]).split("/"))
    return (t,)


# argument -> (explicit marker, other explicit markers, settings file marker, where it must arrive)
SIMPLE = {
    "max_evaluations_total": (17, (23,)),
    "max_evaluations_per_run": (5, (7,)),
    "max_cost_total": (3.5, (9.5,)),
    "loss_value_on_error": (0.25, (0.0,)),
    "cost_value_on_error": (0.75, (0.0,)),
    "continue_until_max_evaluation_completed": (True, (False,)),
    "ignore_errors": (True, (False,)),
    "overwrite_working_directory": (True, (False,)),
    "post_run_summary": (True, (False,)),
    "task_id": ("T", ("U", 0)),
    "development_stage_id": ("D", ("E", 0)),
    "root_directory": ("dir", ("other",)),
}
DOC_DEFAULTS = {
    "max_evaluations_total": None,
    "max_evaluations_per_run": None,
    "max_cost_total": None,
    "loss_value_on_error": None,
    "cost_value_on_error": None,
    "continue_until_max_evaluation_completed": False,
    "ignore_errors": False,
    "overwrite_working_directory": False,
    "post_run_summary": True,
    "task_id": None,
    "development_stage_id": None,
}
BASE = {"root_directory": "dir", "max_evaluations_total": 17}


def scenarios(ctx):
    """(description, explicit, settings file, effective value of every simple argument)"""
    out = []

    def add(desc, ex, ya):
        eff = dict(DOC_DEFAULTS)
        flat = {}

        def walk(d):
            for k, v in d.items():
                if isinstance(v, dict) and k not in ("run_pipeline", "searcher", "pipeline_space", "pre_load_hooks"):
                    walk(v)
                elif v is not None:
                    flat[k] = v

        walk(ya or {})
        for k, v in flat.items():
            eff[k] = v
        eff.update(ex)
        out.append((desc, ex, ya, eff))

    allx = {k: v[0] for k, v in SIMPLE.items()}
    ally = {k: v[1][0] for k, v in SIMPLE.items()}
    add("nothing but the required arguments", dict(BASE), None)
    add("every argument explicit", dict(allx), None)
    add("every argument in the settings file", {}, dict(ally))
    add("every argument explicit and in the settings file", dict(allx), dict(ally))
    add("every argument explicit (other values) and in the settings file", dict(ally), dict(allx))
    nested = {"budget": {k: ally[k] for k in list(ally)[:6]}, "rest": {"more": {k: ally[k] for k in list(ally)[6:]}}}
    add("every argument in a nested settings file", {}, nested)
    for k, (m, others) in SIMPLE.items():
        base = {x: y for x, y in BASE.items() if x != k}
        req = {k: m} if k in BASE else {}
        for v in (m,) + others:
            if k in BASE and not v:
                continue
            add(f"{k}={v!r} explicit", {**base, k: v}, None)
            add(f"{k}={v!r} in the settings file", dict(base), {k: v})
        if k not in BASE:
            add(f"{k} empty in the settings file", {**base}, {k: None})
        for a in (m,) + others:
            for b in (m,) + others:
                if a != b and (a or k not in BASE) and b is not None:
                    add(f"{k}={a!r} explicit, {b!r} in the settings file", {**base, k: a}, {k: b})
    return out


def run_scenarios(ctx: Ctx):
    key = "api_scenarios"
    if key in ctx._cache:
        return ctx._cache[key]
    f, ps = params(ctx)
    missing = [k for k in SIMPLE if k not in ps]
    ctx.need(not missing, f"arguments of neps.run not found: {missing}")
    res = []
    for desc, ex, ya, eff in scenarios(ctx):
        given = {**ex, "run_pipeline": FN, "pipeline_space": SPACE}
        paths = launch(ctx, given, ya)
        res.append((desc, eff, paths))
    ctx._cache[key] = res
    return res


def expect_dir(eff):
    d = [str(eff["root_directory"])]
    if eff.get("task_id") is not None:
        d.append(f"task_{eff['task_id']}")
    if eff.get("development_stage_id") is not None:
        d.append(f"dev_{eff['development_stage_id']}")
    return tuple(d)


def started(ctx, what):
    """(desc, effective values, path, run index, worker fields) for each run that starts a worker."""
    n = 0
    for desc, eff, paths in run_scenarios(ctx):
        ok = False
        for p in paths:
            if p.outcome[0] == "raise":
                continue
            w = worker_of(ctx, p)
            if w is None:
                continue
            ok = True
            n += 1
            yield desc, eff, p, w[0], w[1]
        if not ok:
            if all(p.outcome[0] == "raise" for p in paths):
                ctx.viol("neps/api.py run", f"neps.run never starts a worker with valid arguments ({desc})", paths[0] if paths else None)
            else:
                ctx.viol("neps/api.py run", f"neps.run returns without having run a worker ({desc})", paths[0] if paths else None)
    ctx.ob(f"{what}: {n} argument scenarios reach the worker")


def const(t):
    if t is not None and t[0] == "c":
        return True, t[2]
    if t is not None and t[0] == "not" and t[1][0] == "c":
        return True, not t[1][2]
    return False, t


def same(t, v):
    k, x = const(t)
    return k and x == v and type(x) is type(v)


def chk(ctx, desc, p, what, t, v):
    if t is None:
        raise AnalysisBroken(f"{what} could not be followed")
    k, x = const(t)
    if not k:
        if any(s[0] in ("p", "call") and s not in (FN, SPACE) for s in subterms(t)) and not any(s[0] == "c" for s in subterms(t)):
            raise AnalysisBroken(f"{what}: value {show(t)[:80]} not understood")
        ctx.viol("neps/api.py run", f"{what} is {show(t)[:80]} instead of {v!r} ({desc})", p)
        return
    if isinstance(v, bool):
        bad = bool(x) != v
    else:
        bad = x != v or (x is None) != (v is None)
    if bad:
        ctx.viol("neps/api.py run", f"{what} is {x!r} instead of {v!r} ({desc})", p)


def settings_of(w):
    s = w.get("settings")
    if s is None or s[0] != "new":
        raise AnalysisBroken("the worker's settings could not be followed")
    return dict(s[2])


def args_limits(ctx: Ctx):
    """Every limit given to neps.run (directly or in the settings file, explicit wins) is the
    limit the worker enforces; limits that were not given are off."""
    for desc, eff, p, i, w in started(ctx, "limits"):
        s = settings_of(w)
        chk(ctx, desc, p, "the worker's total number of evaluations", s.get("max_evaluations_total"), eff["max_evaluations_total"])
        chk(ctx, desc, p, "the worker's own number of evaluations", s.get("max_evaluations_for_worker"), eff["max_evaluations_per_run"])
        chk(ctx, desc, p, "the worker's total cost", s.get("max_cost_total"), eff["max_cost_total"])
        chk(ctx, desc, p, "whether evaluations in progress count", s.get("include_in_progress_evaluations_towards_maximum"), not eff["continue_until_max_evaluation_completed"])
        for k, v in s.items():
            if k.startswith("max_") and k not in ("max_evaluations_total", "max_evaluations_for_worker", "max_cost_total"):
                chk(ctx, desc, p, f"the limit {k}, which cannot be given to neps.run,", v, None)


def args_errors(ctx: Ctx):
    """ignore_errors, loss_value_on_error and cost_value_on_error reach the worker unchanged."""
    for desc, eff, p, i, w in started(ctx, "error handling"):
        s = settings_of(w)
        oe = s.get("on_error")
        if oe is None or oe[0] != "enum":
            raise AnalysisBroken("the worker's error policy could not be followed")
        if (oe[2] == "IGNORE") != bool(eff["ignore_errors"]):
            ctx.viol("neps/api.py run", f"the worker's error policy is {oe[2]} with ignore_errors={eff['ignore_errors']} ({desc})", p)
        if not eff["ignore_errors"] and not oe[2].startswith("RAISE"):
            ctx.viol("neps/api.py run", f"with ignore_errors=False the worker's error policy is {oe[2]}, which does not raise ({desc})", p)
        d = s.get("default_report_values")
        if d is None or d[0] != "new":
            raise AnalysisBroken("the worker's values on error could not be followed")
        d = dict(d[2])
        chk(ctx, desc, p, "the loss reported on error", d.get("loss_value_on_error"), eff["loss_value_on_error"])
        chk(ctx, desc, p, "the cost reported on error", d.get("cost_value_on_error"), eff["cost_value_on_error"])


def args_function(ctx: Ctx):
    """The worker evaluates the user's function with the searcher that was built; the hooks are
    the user's hooks."""
    for desc, eff, p, i, w in started(ctx, "function and searcher"):
        if w.get("evaluation_fn") != FN:
            ctx.viol("neps/api.py run", f"the worker evaluates {show(w.get('evaluation_fn') or NONE)[:80]} instead of the given function ({desc})", p)
        o = w.get("optimizer")
        if o is None or not any(s[0] == "call" and tail(s[2]) == "_run_args" for s in subterms(o)):
            if o is not None and not any(s[0] == "call" for s in subterms(o)):
                ctx.viol("neps/api.py run", f"the worker's searcher is {show(o)[:80]}, not the one built for the run ({desc})", p)
    # function, space, searcher and hooks from a settings file
    ya = {"run_pipeline": {"path": "f.py", "name": "fun"}, "pre_load_hooks": {"h1": "hooks.py"}, "pipeline_space": "space.yaml", "searcher": "random_search", **BASE}
    hit = 0
    for p in launch(ctx, {}, ya):
        w = worker_of(ctx, p) if p.outcome[0] != "raise" else None
        if w is None:
            continue
        hit += 1
        w = w[1]
        e = w.get("evaluation_fn")
        if e is None or not (contains(e, C("f.py")) and contains(e, C("fun"))):
            ctx.viol("neps/api.py run", f"the function named in the settings file is not the one evaluated ({show(e or NONE)[:80]})", p)
        h = w.get("_pre_sample_hooks")
        if h is not None and not (contains(h, C("hooks.py")) and contains(h, C("h1"))):
            ctx.viol("neps/api.py run", "the hooks named in the settings file do not reach the worker", p)
        o = w.get("optimizer")
        if o is not None and any(s[0] == "call" and tail(s[2]) == "_run_args" for s in subterms(o)):
            if not contains(o, C("space.yaml")):
                ctx.viol("neps/api.py run", "the search space named in the settings file is not the one searched", p)
            if not contains(o, C("random_search")):
                ctx.viol("neps/api.py run", "the searcher named in the settings file is not the one used", p)
    if not hit:
        ctx.viol("neps/api.py run", "a settings file that names function, space, searcher and hooks cannot be run")
    # explicit ones win over those of the settings file
    for p in launch(ctx, {"run_pipeline": FN, "pipeline_space": SPACE, "searcher": "asha"}, ya):
        w = worker_of(ctx, p) if p.outcome[0] != "raise" else None
        if w is None:
            continue
        w = w[1]
        if w.get("evaluation_fn") != FN:
            ctx.viol("neps/api.py run", "the function of the settings file wins over the one passed to neps.run", p)
        o = w.get("optimizer")
        if o is not None and any(s[0] == "call" and tail(s[2]) == "_run_args" for s in subterms(o)):
            if contains(o, C("space.yaml")):
                ctx.viol("neps/api.py run", "the search space of the settings file wins over the one passed to neps.run", p)
            if contains(o, C("random_search")) or not contains(o, C("asha")):
                ctx.viol("neps/api.py run", "the searcher of the settings file wins over the one passed to neps.run", p)
    ctx.ob("function, search space, searcher and hooks named in a settings file")


def args_budget(ctx: Ctx):
    """The shared budget of a new run starts at zero with the limits of the run."""
    for desc, eff, p, i, w in started(ctx, "shared budget"):
        st = w.get("state")
        if st is None or st[0] != "call" or tail(st[2]) != "create_or_load_filebased_neps_state":
            raise AnalysisBroken("the shared state of the worker could not be followed")
        os_ = kwarg(st, "optimizer_state")
        if os_ is None or os_[0] != "new":
            raise AnalysisBroken("the initial optimizer state could not be followed")
        b = dict(os_[2]).get("budget")
        if b is None or b[0] != "new":
            if b == NONE:
                ctx.viol("neps/runtime.py", f"a new run starts without a shared budget ({desc})", p)
                continue
            raise AnalysisBroken("the initial budget could not be followed")
        b = dict(b[2])
        chk(ctx, desc, p, "the shared budget's cost limit", b.get("max_cost_budget"), eff["max_cost_total"])
        chk(ctx, desc, p, "the shared budget's evaluation limit", b.get("max_evaluations"), eff["max_evaluations_total"])
        chk(ctx, desc, p, "the cost already used in a new run", b.get("used_cost_budget"), 0)
        chk(ctx, desc, p, "the evaluations already used in a new run", b.get("used_evaluations"), 0)


def args_directory(ctx: Ctx):
    """The run lives in root_directory (with task and development stage sub directories), and
    everything of the run refers to that directory."""
    for desc, eff, p, i, w in started(ctx, "directory"):
        st = w.get("state")
        if st is None or st[0] != "call":
            raise AnalysisBroken("the shared state of the worker could not be followed")
        d = kwarg(st, "directory")
        want = expect_dir(eff)
        if d is None:
            raise AnalysisBroken("the directory of the run could not be followed")
        if parts(d) != want:
            if any(not isinstance(x, str) for x in parts(d)):
                raise AnalysisBroken(f"directory of the run not understood: {show(d)[:80]}")
            ctx.viol("neps/api.py run", f"the run lives in {'/'.join(parts(d))} instead of {'/'.join(want)} ({desc})", p)
        for j, c in calls(p, "post_run_csv"):
            r = fz(p, kwarg(c, "root_directory") or arg(c, 0) or NONE)
            if parts(r) != want and all(isinstance(x, str) for x in parts(r)):
                ctx.viol("neps/api.py run", f"the summary is written for {'/'.join(parts(r))} instead of {'/'.join(want)} ({desc})", p)


def args_summary(ctx: Ctx):
    """The post-run summary is written after the worker finished, iff it was asked for."""
    for desc, eff, p, i, w in started(ctx, "post-run summary"):
        cs = [j for j, c in calls(p, "post_run_csv")]
        if bool(cs) != bool(eff["post_run_summary"]):
            ctx.viol("neps/api.py run", f"post_run_summary={eff['post_run_summary']} but the summary is {'written' if cs else 'not written'} ({desc})", p)
        if any(j < i for j in cs):
            ctx.viol("neps/api.py run", f"the summary is written before the worker ran ({desc})", p)


def enclosed(ctx, site):
    """A call site lies in the body of some try statement (of its function)."""
    import ast

    rel, line, _ = site.rsplit(":", 2)
    for m in ctx.prog.modules.values():
        if m.relpath == rel:
            for t in ast.walk(m.tree):
                if isinstance(t, ast.Try) and t.handlers and any(b.lineno <= int(line) <= b.end_lineno for b in t.body):
                    return True
                if isinstance(t, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in t.items) and t.lineno <= int(line) <= t.end_lineno:
                    return True
    return False


def no_implicit_delete(ctx: Ctx):
    """Only overwrite_working_directory=True deletes anything, only the run's own directory, and
    before the run is created; without it nothing is deleted."""
    for desc, eff, p, i, w in started(ctx, "deletion"):
        cre = [j for j, c in calls(p, "create_or_load_filebased_neps_state")]
        dels = [(j, c) for j, c in calls(p) if tail(c[2]) in DESTROY]
        want = expect_dir(eff)
        if dels and not eff["overwrite_working_directory"]:
            ctx.viol("neps/api.py run", f"{tail(dels[0][1][2])} is called although overwrite_working_directory is False ({desc})", p)
            continue
        for j, c in dels:
            tgt = [fz(p, x) for x in ([c[3]] if c[3] is not None and c[3][0] != "x" else []) + list(c[4]) + [v for _, v in c[5]]]
            tgt = [x for x in tgt if x[0] != "c" or isinstance(x[2], str)]
            if not tgt or not all(isinstance(y, str) for y in parts(tgt[0])):
                raise AnalysisBroken(f"target of {tail(c[2])} not understood")
            if parts(tgt[0]) != want:
                ctx.viol("neps/api.py run", f"{'/'.join(parts(tgt[0]))} is deleted instead of the run's directory {'/'.join(want)} ({desc})", p)
            there = any(v is True and a[0] == "truthy" and a[1][0] in ("op", "call") and any(n in (".exists", ".is_dir", "os.path.exists", "os.path.isdir") for n in a[1][1:3]) for a, v in p.facts.items())
            tolerant = lambda: any(k == "ignore_errors" and v == TRUE for k, v in c[5]) or any(x == TRUE for x in c[4]) or enclosed(ctx, p.events[j][-1])
            if not there and not tolerant():
                ctx.viol("neps/api.py run", f"overwriting fails when there is no directory yet ({desc})", p)
            if cre and j > min(cre):
                ctx.viol("neps/api.py run", f"the directory is deleted after the run was created or loaded in it ({desc})", p)
        if eff["overwrite_working_directory"] and not dels:
            exists = [v for a, v in p.facts.items() if a[0] == "truthy" and contains(a, ("op",)) is False and a[1][0] == "op" and a[1][1] in (".exists", ".is_dir", "os.path.exists", "os.path.isdir")]
            if not exists or any(exists):
                ctx.viol("neps/api.py run", f"overwrite_working_directory=True does not delete an existing directory ({desc})", p)


def args_required(ctx: Ctx):
    """A run is refused if the function, directory, search space or every limit is missing."""
    full = {"run_pipeline": FN, "pipeline_space": SPACE, **BASE}
    for k in ("run_pipeline", "root_directory", "pipeline_space", "max_evaluations_total"):
        for p in launch(ctx, {x: y for x, y in full.items() if x != k}):
            if p.outcome[0] != "raise" and calls(p, "DefaultWorker.run"):
                ctx.viol("neps/api.py run", f"a run without {k}{' and max_cost_total' if k.startswith('max') else ''} is not refused", p)
    for bad in ({"max_evaluations_totall": 3}, {"nested": {"unknown_key": 1}}, {"max_evaluations_total": "many"}, {"ignore_errors": "yes"}, {"max_cost_total": "1"}):
        for p in launch(ctx, {x: y for x, y in full.items() if x not in bad}, {**bad}):
            if p.outcome[0] != "raise" and calls(p, "DefaultWorker.run"):
                ctx.viol("neps/api.py run", f"a settings file with the invalid entry {bad} is accepted", p)
    ctx.ob("missing required arguments and invalid settings-file entries are refused")


# --------------------------------------------------------------------- searchers
NAMES = {  # what a user asks for -> the algorithm that has to run (class, fixed arguments)
    "bayesian_optimization": ("BayesianOptimization", {"use_priors": False}),
    "pibo": ("BayesianOptimization", {"use_priors": True}),
    "random_search": ("RandomSearch", {}),
    "successive_halving": ("SuccessiveHalving", {}),
    "successive_halving_prior": ("SuccessiveHalvingWithPriors", {}),
    "asha": ("AsynchronousSuccessiveHalving", {}),
    "asha_prior": ("AsynchronousSuccessiveHalvingWithPriors", {}),
    "hyperband": ("Hyperband", {}),
    "priorband": ("PriorBand", {"model_based": False}),
    "priorband_bo": ("PriorBand", {"model_based": True}),
    "mobster": ("MOBSTER", {}),
    "ifbo": ("IFBO", {}),
}
STRATEGIES = {  # strategies a searcher configuration may name
    **{k: v for k, v in NAMES.items() if k not in ("priorband",)},
    "priorband": ("PriorBand", {}),
    "grid_search": ("GridSearch", {}),
    "hyperband_custom_default": ("HyperbandCustomDefault", {}),
    "priorband_asha": ("PriorBandAsha", {}),
    "priorband_asha_hyperband": ("PriorBandAshaHB", {}),
}


def mini_yaml(text):
    """The subset of YAML the shipped searcher files use: scalars and one nested level."""
    root, cur = {}, None
    for line in text.splitlines():
        body = line.split(" #")[0].rstrip()
        if not body.strip() or body.lstrip().startswith("#"):
            continue
        ind = len(body) - len(body.lstrip())
        k, _, v = body.strip().partition(":")
        v = v.strip()
        tgt = cur if ind and cur is not None else root
        if v == "":
            cur = {}
            root[k] = cur
            continue
        if not ind:
            cur = None
        if v in ("null", "~", "None"):
            x = None
        elif v in ("true", "True"):
            x = True
        elif v in ("false", "False"):
            x = False
        elif v[0] in "\"'":
            x = v[1:-1]
        else:
            try:
                x = int(v.replace("_", ""))
            except ValueError:
                try:
                    x = float(v)
                except ValueError:
                    x = v
        tgt[k] = x
    return root


def shipped(ctx):
    """name -> configuration of the searchers shipped with the package."""
    import os

    d = os.path.join(ctx.prog.repo, "neps", "optimizers", "default_searchers")
    ctx.need(os.path.isdir(d), "the folder of the shipped searchers was not found")
    out = {}
    for n in sorted(os.listdir(d)):
        if n.endswith(".yaml"):
            out[n[:-5]] = mini_yaml(open(os.path.join(d, n)).read())
    ctx.need(len(out) >= 5, "fewer shipped searchers than confirmed by hand")
    return out


def is_searcher_class(ctx, c):
    return any(k.name == "BaseOptimizer" for k in c.mro())


def build(ctx: Ctx, searcher, kwargs=None, configs=None, values=None, full=False):
    """Paths of building the searcher of a run."""
    key = ("build", repr(searcher), repr(kwargs), repr(configs), repr(values), full)
    if key in ctx._cache:
        return ctx._cache[key]
    cfgs = configs if configs is not None else shipped(ctx)

    def data(i, st, recv, ar):
        s = dict(ar[1]).get("searcher") or (ar[0][0] if ar[0] else None)
        if s is None or s[0] != "c" or s[2] not in cfgs:
            return P("UNKNOWN_SEARCHER")
        return ("tup", (lit_dict(cfgs[s[2]]), C(s[2])))

    def opaque(f):
        if f.name == "__init__" and f.cls is not None and is_searcher_class(ctx, f.cls):
            return True
        return short(f) in ("SearchSpace.__init__", "get_searcher_data", "SearcherConfigs.get_searchers", "pipeline_space_from_configspace", "pipeline_space_from_yaml", *(() if full else ("get_value",)))

    i = ctx.interp(exc=False, opaque=opaque, recursion=6 if full else 1, literal_limit=60, max_depth=20, models={"get_searcher_data": data, "SearcherConfigs.get_searchers": lit_dict(list(cfgs))})
    vals = {"pipeline_space": SPACE, "max_cost_total": C(3.5), "ignore_errors": TRUE, "loss_value_on_error": C(0.25), "cost_value_on_error": C(0.75)}
    vals.update(values or {})
    info = {"searcher_name": "", "searcher_alg": "", "searcher_selection": "", "neps_decision_tree": True, "searcher_args": {}}
    st = State()
    st.facts[("isnone", SPACE)] = False
    f = ctx.func("neps.api._run_args")
    r = i.run(f, args={**vals, "searcher_info": lit_dict(info), "searcher": searcher if isinstance(searcher, tuple) else C(searcher), "searcher_kwargs": lit_dict(kwargs or {})}, st=st)
    ctx._cache[key] = r
    ctx.count("searcher_scenarios")
    return r


def built(ctx, p):
    """(class, {argument: value}) of the searcher a path builds."""
    if p.outcome[0] != "return":
        return None
    t = fz(p, p.outcome[1])
    if t[0] != "tup" or not t[1]:
        raise AnalysisBroken("the result of building the searcher could not be followed")
    o = t[1][0]
    if o[0] == "call" and o[2].startswith("new:"):
        name = o[2][4:]
        c = ctx.prog.cls(name)
        init = c.find_method("__init__")
        names = [a.arg for a in init.node.args.posonlyargs + init.node.args.args][1:]
        kw = dict(zip(names, o[4]))
        for k, v in o[5]:
            if k == "**":
                if v[0] == "dict":
                    for x, y in v[1]:
                        if x == "**" or x[0] != "c":
                            raise AnalysisBroken("the arguments of the searcher could not be followed")
                        kw[x[2]] = y
                else:
                    raise AnalysisBroken("the arguments of the searcher could not be followed")
            else:
                kw[k] = v
        return c, kw
    raise AnalysisBroken(f"the searcher that is built could not be followed: {show(o)[:100]}")


def flag(ctx, p, name):
    for a, v in p.facts.items():
        if a[0] == "truthy" and a[1][0] == "a" and a[1][2] == name:
            return v
    return None


def searcher_default(ctx: Ctx):
    """Without a choice the search space decides: priors and fidelity -> priorband, priors ->
    pibo, fidelity -> hyperband, neither -> bayesian_optimization."""
    cells = {}
    for arg_ in ("default", None):
        for p in build(ctx, C(arg_)):
            b = built(ctx, p)
            if b is None:
                continue
            pr, fi = flag(ctx, p, "has_prior"), flag(ctx, p, "has_fidelity")
            if fi is None:
                fi = next((not v for a, v in p.facts.items() if a[0] == "isnone" and a[1][0] == "a" and a[1][2] == "fidelity"), None)
            for hp in (True, False) if pr is None else (pr,):
                for hf in (True, False) if fi is None else (fi,):
                    want = {(True, True): "priorband", (True, False): "pibo", (False, True): "hyperband", (False, False): "bayesian_optimization"}[hp, hf]
                    cells[hp, hf] = True
                    cn, fixed = NAMES[want]
                    if ctx.prog.cls(cn) != b[0] or any(k in b[1] and not same(b[1][k], v) for k, v in fixed.items()):
                        ctx.viol("neps/api.py _run_args", f"a space {'with' if hp else 'without'} priors and {'with' if hf else 'without'} fidelity is searched by {b[0].name} instead of {want}", p)
                    info = fz(p, p.outcome[1])[1][1]
                    rec = dict((k[2], v) for k, v in info[1] if k != "**") if info[0] == "dict" else {}
                    if "searcher_name" in rec and rec["searcher_name"][0] == "c" and rec["searcher_name"][2] != want:
                        ctx.viol("neps/api.py _run_args", f"the searcher is recorded as {rec['searcher_name'][2]!r} although {want} runs", p)
    ctx.need(len(cells) == 4, "the default choice of the searcher could not be followed")
    ctx.ob("default searcher decided for all combinations of priors and fidelity")


def searcher_by_name(ctx: Ctx):
    """A searcher asked for by name is the one that runs, with its shipped configuration."""
    cfgs = shipped(ctx)
    for n, cfg in cfgs.items():
        if n not in NAMES:
            continue
        cn, fixed = NAMES[n]
        want = ctx.prog.cls(cn)
        seen = False
        for p in build(ctx, n):
            b = built(ctx, p)
            if b is None:
                continue
            seen = True
            c, kw = b
            if c != want:
                ctx.viol(f"neps/optimizers default_searchers/{n}.yaml", f"asking for {n} runs {c.name} instead of {cn}", p)
                continue
            for k, v in fixed.items():
                if k in kw and not same(kw[k], v):
                    ctx.viol(f"neps/optimizers default_searchers/{n}.yaml", f"asking for {n} runs {c.name} with {k}={show(kw[k])[:40]} instead of {v}", p)
            for k, v in cfg.items():
                if k == "strategy" or isinstance(v, dict):
                    continue
                if k not in kw or not same(kw[k], v):
                    ctx.viol(f"neps/optimizers default_searchers/{n}.yaml", f"the shipped setting {k}={v!r} of {n} does not reach the searcher", p)
        if not seen:
            ctx.viol(f"neps/optimizers default_searchers/{n}.yaml", f"the shipped searcher {n} cannot be built by neps.run")
    missing = [n for n in NAMES if n not in cfgs]
    if missing:
        ctx.viol("neps/optimizers/default_searchers", f"searchers users can ask for are not shipped: {missing}")
    for strat, (cn, fixed) in STRATEGIES.items():
        want = ctx.prog.cls(cn)
        ps = build(ctx, "custom", configs={"custom": {"strategy": strat, "marker": 1}})
        if all(p.outcome[0] == "raise" for p in ps):
            ctx.viol("neps/optimizers/__init__.py SearcherMapping", f"the strategy {strat} cannot be used in a searcher configuration", ps[0] if ps else None)
        for p in ps:
            b = built(ctx, p)
            if b is None:
                continue
            if b[0] != want or any(k in b[1] and not same(b[1][k], v) for k, v in fixed.items()):
                ctx.viol("neps/optimizers/__init__.py SearcherMapping", f"the strategy {strat} runs {b[0].name} instead of {cn}", p)
    ctx.ob(f"{len(cfgs)} shipped searchers and {len(STRATEGIES)} strategies")


def searcher_args(ctx: Ctx):
    """The searcher is built on the run's search space with the run's cost limit and error
    values; explicit searcher arguments win over the searcher's configuration."""
    for p in build(ctx, "random_search", kwargs={"use_priors": True, "extra": 5}):
        b = built(ctx, p)
        if b is None:
            continue
        c, kw = b
        if not same(kw.get("use_priors", NONE), True):
            ctx.viol("neps/api.py _run_args", "an explicit searcher argument does not win over the searcher's configuration", p)
        if not same(kw.get("extra", NONE), 5):
            ctx.viol("neps/api.py _run_args", "an explicit searcher argument does not reach the searcher", p)
        if not same(kw.get("ignore_fidelity", NONE), True):
            ctx.viol("neps/api.py _run_args", "passing one searcher argument drops another of the searcher's configuration", p)
    for p in build(ctx, "random_search", kwargs={"use_priors": False}):
        b = built(ctx, p)
        if b is not None and not same(b[1].get("use_priors", NONE), False):
            ctx.viol("neps/api.py _run_args", "an explicit searcher argument equal to the configured one is lost", p)
    cust = {"random_search": {"strategy": "random_search", "use_priors": False, "ignore_fidelity": True}}
    for p in build(ctx, lit_dict({"strategy": "random_search", "use_priors": True}), configs=cust):
        b = built(ctx, p)
        if b is None:
            continue
        if b[0].name != "RandomSearch" or not same(b[1].get("use_priors", NONE), True):
            ctx.viol("neps/api.py _run_args", "the searcher section of a settings file does not win over the searcher's shipped configuration", p)
        if not same(b[1].get("ignore_fidelity", NONE), True):
            ctx.viol("neps/api.py _run_args", "the searcher section of a settings file drops the rest of the shipped configuration", p)
    for n in ("random_search", "default"):
        for p in build(ctx, n):
            b = built(ctx, p)
            if b is None:
                continue
            kw = b[1]
            sp = kw.get("pipeline_space")
            if sp is None or not any(s[0] == "call" and s[2] == "new:SearchSpace" for s in subterms(sp)):
                ctx.viol("neps/api.py _run_args", "the searcher is not built on the run's search space", p)
            for k, v in {"budget": 3.5, "loss_value_on_error": 0.25, "cost_value_on_error": 0.75, "ignore_errors": True}.items():
                if not same(kw.get(k, NONE), v):
                    ctx.viol("neps/api.py _run_args", f"the searcher's {k} is {show(kw.get(k, NONE))[:40]} instead of the run's value", p)
    ctx.ob("searcher arguments: explicit over configured, run-wide values forwarded")


def signature_accepts(ctx, c, keys, seen=()):
    """Keys that constructing ``c`` does not accept (following **kwargs to the base class)."""
    init = c.find_method("__init__")
    if init is None:
        return set()
    a = init.node.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    rest = set(keys) - own
    if not a.kwarg:
        return rest
    kwn = a.kwarg.arg
    for n in ast.walk(init.node):
        if isinstance(n, ast.Call) and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kwn for k in n.keywords):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                owner = init.cls
                base = [k for k in c.mro() if k != owner and k in owner.mro() and "__init__" in k.methods]
                if base and base[0].qual not in seen:
                    # keys given explicitly in the same call are no longer free
                    dup = {k.arg for k in n.keywords if k.arg} & rest
                    return signature_accepts(ctx, base[0], rest - dup, seen + (c.qual,)) | dup
    return set()  # swallowed


def required_args(c):
    init = c.find_method("__init__")
    a = init.node.args
    pos = (a.posonlyargs + a.args)[1:]
    nd = len(a.defaults)
    req = {x.arg for x in (pos[: len(pos) - nd] if nd else pos)}
    req |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return req


def searcher_constructible(ctx: Ctx):
    """Every searcher accepts the arguments a run passes to it: its shipped settings, the search
    space, the cost limit and the error values."""
    n = 0
    for name, cfg in shipped(ctx).items():
        for p in build(ctx, name):
            b = built(ctx, p)
            if b is None:
                continue
            n += 1
            c, kw = b
            bad = signature_accepts(ctx, c, set(kw))
            if bad:
                ctx.viol(f"{c.loc} __init__", f"searcher {name}: {c.name} does not accept {sorted(bad)}, which neps.run passes", p)
            miss = required_args(c) - set(kw)
            if miss:
                ctx.viol(f"{c.loc} __init__", f"searcher {name}: {c.name} requires {sorted(miss)}, which neps.run does not pass", p)
    for strat in STRATEGIES:
        for p in build(ctx, "custom", configs={"custom": {"strategy": strat}}):
            b = built(ctx, p)
            if b is None:
                continue
            n += 1
            c, kw = b
            bad = signature_accepts(ctx, c, set(kw))
            if bad:
                ctx.viol(f"{c.loc} __init__", f"strategy {strat}: {c.name} does not accept {sorted(bad)}, which neps.run passes", p)
            miss = required_args(c) - set(kw)
            if miss:
                ctx.viol(f"{c.loc} __init__", f"strategy {strat}: {c.name} requires {sorted(miss)}, which neps.run does not pass", p)
    ctx.need(n >= len(STRATEGIES), "fewer searchers analysed than confirmed by hand")
    ctx.ob(f"{n} searcher constructions bound against the signatures")


RUN_WIDE = {"pipeline_space", "budget", "loss_value_on_error", "cost_value_on_error", "ignore_errors"}


def searcher_recorded(ctx: Ctx):
    """What identifies the searcher of a run - its kind and every argument it is built with - is
    what is stored with the run and compared when the run is continued."""
    n = 0
    cust = {"random_search": {"strategy": "random_search", "use_priors": False, "ignore_fidelity": True}}
    cases = [
        ("chosen by name", "random_search", {}, None),
        ("chosen by name with arguments", "random_search", {"use_priors": True, "extra": 5}, None),
        ("chosen by name with nested arguments", "random_search", {"extra": {"a": [1, None], "b": "x"}}, None),
        ("chosen by neps", "default", {}, None),
        ("from a searcher section", lit_dict({"strategy": "random_search", "use_priors": True}), {"extra": 6}, cust),
    ]
    for desc, s, kwargs, cfg in cases:
        for p in build(ctx, s, kwargs=kwargs, configs=cfg, full=True):
            b = built(ctx, p)
            if b is None:
                continue
            n += 1
            t = fz(p, p.outcome[1])
            info = t[1][1] if len(t[1]) > 1 else NONE
            if info[0] != "dict" or any(k[0] != "c" for k, _ in info[1]):
                raise AnalysisBroken(f"the recorded information of the searcher could not be followed: {show(info)[:80]}")
            rec = {k[2]: v for k, v in info[1]}
            alg = rec.get("searcher_alg", NONE)
            if alg[0] != "c" or not isinstance(alg[2], str) or alg[2] not in STRATEGIES:
                ctx.viol("neps/api.py _run_args", f"the kind of searcher is recorded as {show(alg)[:40]} ({desc})", p)
            elif ctx.prog.cls(STRATEGIES[alg[2]][0]) != b[0]:
                ctx.viol("neps/api.py _run_args", f"{b[0].name} is recorded as {alg[2]} ({desc})", p)
            a = rec.get("searcher_args", NONE)
            if a[0] != "dict" or any(k[0] != "c" for k, _ in a[1]):
                raise AnalysisBroken(f"the recorded arguments of the searcher could not be followed: {show(a)[:80]}")
            have = {k[2]: v for k, v in a[1]}
            for k, v in b[1].items():
                if k in RUN_WIDE:
                    continue
                if k not in have:
                    ctx.viol("neps/api.py _run_args", f"the searcher's argument {k} is not recorded ({desc})", p)
                elif have[k] != v and not (v[0] == "c" and same(have[k], v[2])):
                    ctx.viol("neps/api.py _run_args", f"the searcher's argument {k} is recorded as {show(have[k])[:40]} instead of {show(v)[:40]} ({desc})", p)
    ctx.need(n, "the searcher of a run could not be followed")
    m = 0
    for desc, eff, p, i, w in started(ctx, "recorded searcher"):
        st = w.get("state")
        if st is None or st[0] != "call" or tail(st[2]) != "create_or_load_filebased_neps_state":
            raise AnalysisBroken("the shared state of the worker could not be followed")
        info, o = fz(p, kwarg(st, "optimizer_info")), w.get("optimizer")
        if info[0] != "new" or len(info[2]) != 1:
            raise AnalysisBroken("the recorded information of the searcher could not be followed")
        v = info[2][0][1]
        m += 1
        runs = [fz(p, c) for _, c in calls(p) if tail(c[2]) == "_run_args"]
        if runs and v not in [(k, c, x) for c in runs for k, x in (("it", 1), ("sub", C(1)))]:
            ctx.viol("neps/runtime.py", f"{show(v)[:60]} is recorded instead of what identifies the searcher ({desc})", p)
    ctx.need(m, "no run records its searcher")
    c = next((k for k in ctx.prog.classes.values() if k.name == "OptimizerInfo"), None)
    ctx.need(c, "OptimizerInfo not found")
    whole_equality(ctx, c)
    ctx.ob(f"{n} searchers, {m} runs, equality of {c.name}")


def whole_equality(ctx, c):
    """Two records are equal only if all their fields are."""
    for x in c.node.decorator_list:
        if isinstance(x, ast.Call) and any(k.arg == "eq" and isinstance(k.value, ast.Constant) and not k.value.value for k in x.keywords):
            ctx.viol(c.qual, "two objects with the same contents are not equal")
    for n in ast.walk(c.node):
        if isinstance(n, ast.Call) and any(k.arg == "compare" and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords):
            ctx.viol(c.qual, "part of the record is left out of the comparison")
    if not any("dataclass" in ast.unparse(d) for d in c.node.decorator_list) and c.find_method("__eq__") is None:
        ctx.viol(c.qual, "two objects with the same contents are not equal")
    e = c.find_method("__eq__")
    if e is None:
        return
    names = [f[0] for f in c.fields] or list(c.inst_attrs)
    other = [a.arg for a in e.node.args.args][1]
    for p in ctx.paths(e.qual, exc=False, self_term=P("self")):
        if p.outcome[0] != "return":
            continue
        r = fz(p, p.outcome[1])
        if r in (FALSE, ("x", "builtins.NotImplemented")):
            continue
        for k in names:
            x, y = ("a", P("self"), k), ("a", P(other), k)
            if not any(v is True and a[0] == "eq" and {x, y} == set(a[1:]) for a, v in p.facts.items()) and not any(z[0] == "cmp" and {x, y} == set(z[2:]) for z in subterms(r)):
                ctx.viol(c.qual, f"two objects with different {k} can be equal", p)
