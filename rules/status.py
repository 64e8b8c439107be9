"""Rules about the status of a run and its CSV summary."""
from __future__ import annotations

import itertools

from sa.core import *  # noqa: F403
from sa.core import AnalysisBroken
from sa.terms import *  # noqa: F403

from .store import tail

TRIAL = "neps.state.trial.Trial"
REPORT = "neps.state.trial.Report"
STATE = "neps.state.trial.State"
CATS = ("pending", "evaluating", "success", "failed", "crashed")
LOSS = ("c", "str", "loss")


def fn(ctx, name):
    f = next((f for f in ctx.prog.funcs.values() if f.name == name and ".status." in f.qual), None)
    ctx.need(f, f"{name} not found")
    return f


def trial(i, cat):
    rep = NONE
    if cat in ("success", "failed", "crashed"):
        rep = ("new", REPORT, (("trial_id", P(f"id{i}")), ("loss", P(f"loss{i}") if cat == "success" else NONE), ("cost", P(f"cost{i}")), ("learning_curve", NONE),
                               ("extra", ("dict", ((C("key"), P(f"extra{i}")),))), ("err", NONE), ("tb", NONE), ("reported_as", C(cat)), ("evaluation_duration", P(f"dur{i}"))))
    return ("new", TRIAL, (("config", P(f"config{i}")), ("metadata", P(f"meta{i}")), ("state", ("enum", STATE, cat.upper())), ("report", rep)))


def run(ctx, cats, details=None):
    trials = ("dict", tuple((P(f"id{i}"), trial(i, c)) for i, c in enumerate(cats)))
    f = fn(ctx, "get_summary_dict")
    opaque = frozenset(x.qual for x in ctx.prog.funcs.values() if x.name in ("load_filebased_neps_state", "get_all_trials"))
    types = {P(f"loss{i}"): ("ext", "float", ()) for i in range(len(cats))}
    i = ctx.interp(exc=False, opaque=opaque, models={"NePSState.get_all_trials": trials}, types=types)
    args = {"add_details": C(details)} if details is not None else None
    return i.run(f, args=args)


def val(t):
    while t[0] == "op" and t[1] in ("float", "str", "dataclasses.asdict", "dict", "copy.deepcopy") and len(t) == 3:
        t = t[2]
    return t


def summaries(ctx):
    for n in (0, 1, 2):
        yield from itertools.product(CATS, repeat=n)
    yield ("success",) * 3
    yield ("crashed", "success", "evaluating", "success", "pending")


def ge(p, a, b):
    """a >= b, if the path knows."""
    if a == b:
        return True
    for x, v in p.facts.items():
        if x[0] == "ge":
            l, r = val(x[1]), val(x[2])
            if (l, r) == (a, b) and v:
                return True
            if (l, r) == (a, b) and not v:
                return False
            if (l, r) == (b, a) and not v:
                return True
    return None


def status_summary(ctx):
    """The summary counts and lists every trial as recorded; the best is one with the lowest loss."""
    where = fn(ctx, "get_summary_dict").qual
    n = m = 0
    for cats in summaries(ctx):
        done = 0
        ids = [("a", P(f"meta{i}"), "id") for i in range(len(cats))]
        keys = [{ids[i], P(f"id{i}")} for i in range(len(cats))]
        for p in run(ctx, cats):
            if p.outcome[0] == "raise":
                if p.outcome[1][1] not in ("?", "?B"):
                    ctx.viol(where, f"fails with {p.outcome[1][1]} for trials that are {', '.join(cats) or 'none'}", p)
                continue
            if p.outcome[0] != "return":
                continue
            r = fz(p, p.outcome[1])
            if r[0] != "dict" or any(k[0] != "c" for k, _ in r[1]):
                raise AnalysisBroken(f"{where}: the summary could not be followed")
            r = {k[2]: v for k, v in r[1]}
            done += 1
            m += 1
            one(ctx, where, p, cats, r, ids, keys)
        ctx.need(done, f"{where}: no summary for trials that are {cats}")
        n += 1
    ctx.ob(f"{where}: {n} combinations of up to five trials, {m} paths")


def number(p, t):
    t = val(t)
    if t[0] == "op" and t[1] == "int" and len(t) == 3:
        t = t[2]
    return t[2] if t[0] == "c" else None


def one(ctx, where, p, cats, r, ids, keys):
    idx = lambda *cs: [i for i, c in enumerate(cats) if c in cs]
    what = f"for trials that are {', '.join(cats) or 'none'}"
    rep, succ = idx("success", "failed", "crashed"), idx("success")
    for key, want in (
        ("num_evaluated_configs", len(rep)),
        ("num_pending_configs", len(idx("pending", "evaluating"))),
        ("num_pending_configs_with_worker", len(idx("evaluating"))),
        ("num_error", len(idx("failed", "crashed"))),
    ):
        if key not in r:
            raise AnalysisBroken(f"{where}: no {key} in the summary")
        got = number(p, r[key])
        if got is None:
            raise AnalysisBroken(f"{where}: {key} is {show(r[key])[:80]}")
        if got != want:
            ctx.viol(where, f"{key} is {got} instead of {want} {what}", p)
    det = p.facts.get(("truthy", P("add_details")))
    if det is not False:
        for key, ix, conf in (("previous_results", rep, False), ("pending_configs", idx("pending", "evaluating"), True), ("pending_configs_free", idx("pending"), True)):
            if key not in r:
                if det:
                    ctx.viol(where, f"details do not have {key}", p)
                continue
            d = r[key]
            if d[0] != "dict" or any(k == "**" for k, _ in d[1]):
                raise AnalysisBroken(f"{where}: {key} could not be followed")
            if len(d[1]) != len(ix):
                ctx.viol(where, f"{key} has {len(d[1])} entries instead of {len(ix)} {what}", p)
                continue
            left = set(ix)
            for k, v in d[1]:
                i = next((j for j in left if k in keys[j]), None)
                if i is None:
                    ctx.viol(where, f"{key} lists {show(k)[:60]}, which is not one of its trials, {what}", p)
                    continue
                left.discard(i)
                if conf:
                    if val(v) != P(f"config{i}"):
                        ctx.viol(where, f"{key} gives the configuration {show(v)[:80]} for another trial {what}", p)
                else:
                    entry(ctx, where, p, i, cats[i], v, keys[i], what)
    best(ctx, where, p, cats, r, succ, keys, what)


def entry(ctx, where, p, i, cat, v, ids, what):
    if v[0] != "new":
        raise AnalysisBroken(f"{where}: a result is {show(v)[:80]}")
    f = dict(v[2])
    if f.get("id") not in ids or val(f.get("config", NONE)) != P(f"config{i}") or val(f.get("metadata", NONE)) != P(f"meta{i}"):
        ctx.viol(where, f"a result has the id, configuration or metadata of another trial {what}", p)
    res = f.get("result", NONE)
    if cat == "success":
        d = dict((k[2], x) for k, x in res[1]) if res[0] == "dict" and all(k[0] == "c" for k, _ in res[1]) else None
        if d is None:
            if res[0] == "c":
                ctx.viol(where, f"the result of a successful trial is {show(res)}", p)
                return
            raise AnalysisBroken(f"{where}: a result is {show(res)[:80]}")
        for k, w in (("loss", f"loss{i}"), ("cost", f"cost{i}"), ("key", f"extra{i}")):
            if val(d.get(k, NONE)) != P(w):
                ctx.viol(where, f"the result of a trial has the wrong {k if k != 'key' else 'extra entries'}: {show(d.get(k, NONE))[:60]}", p)
    elif res != C("error"):
        ctx.viol(where, f"the result of a trial that {cat} is {show(res)[:80]}", p)


def best(ctx, where, p, cats, r, succ, keys, what):
    names = ("best_loss", "best_config_id", "best_config", "best_config_metadata")
    for k in names:
        if k not in r:
            raise AnalysisBroken(f"{where}: no {k} in the summary")
    bl = val(r["best_loss"])
    inf = bl in (("x", "numpy.inf"), ("x", "math.inf"), ("c", "float", float("inf"))) or bl == C("inf")
    b = next((i for i in succ if bl == P(f"loss{i}")), None)
    if b is None and not inf:
        if bl[0] in ("p", "c", "a"):
            ctx.viol(where, f"the best loss is {show(bl)[:60]} {what}", p)
            return
        raise AnalysisBroken(f"{where}: the best loss is {show(bl)[:80]}")
    if b is None:
        for k in names[1:]:
            if r[k] != NONE:
                ctx.viol(where, f"there is no best loss but {k} is {show(r[k])[:60]} {what}", p)
        for i in succ:
            if not any(ge(p, P(f"loss{i}"), x) for x in (C(float("inf")), ("x", "numpy.inf"), ("x", "math.inf"), C("inf"))):
                ctx.viol(where, f"a reported loss is not considered for the best loss {what}", p)
        return
    if r["best_config_id"] not in keys[b] or val(r["best_config"]) != P(f"config{b}") or val(r["best_config_metadata"]) != P(f"meta{b}"):
        ctx.viol(where, f"best loss, id, configuration and metadata are not those of one trial {what}", p)
    for i in succ:
        if i != b and not order(p, P(f"loss{i}"), P(f"loss{b}"), succ):
            ctx.viol(where, f"the best loss may be higher than another reported loss {what}", p)


def order(p, a, b, succ):
    """a >= b follows from the comparisons made on the path."""
    nodes = [P(f"loss{i}") for i in succ]
    inf = C(float("inf"))
    seen, work = {a}, [a]
    if ge(p, a, inf):
        return True
    while work:
        x = work.pop()
        if x == b:
            return True
        for y in nodes:
            if y not in seen and ge(p, x, y) is True:
                seen.add(y)
                work.append(y)
    return False


def status_returns(ctx):
    """neps.status returns the results and pending configurations of the summary."""
    f = fn(ctx, "status")
    s = fn(ctx, "get_summary_dict")
    n = 0
    for p in ctx.paths(f.qual, exc=False, opaque=frozenset({s.qual})):
        if p.outcome[0] == "raise" and p.outcome[1][1] not in ("?", "?B"):
            ctx.viol(f.qual, f"fails with {p.outcome[1][1]}", p)
        if p.outcome[0] != "return":
            continue
        n += 1
        r = fz(p, p.outcome[1])
        cs = [t for _, t in calls(p) if tail(t[2]) == "get_summary_dict"]
        if len(cs) != 1 or dict(cs[0][5]).get("add_details") != TRUE:
            ctx.viol(f.qual, "does not ask for the details of the run once", p)
            continue
        a = dict(cs[0][5]).get("root_directory")
        if a is None or not any(x == P("root_directory") for x in subterms(a)):
            ctx.viol(f.qual, f"looks at {show(a)[:60] if a else None} instead of the given directory", p)
        c = fz(p, cs[0])
        want = ("tup", (("sub", c, C("previous_results")), ("sub", c, C("pending_configs"))))
        if r != want:
            ctx.viol(f.qual, f"returns {show(r)[:120]}", p)
    ctx.need(n, f"{f.qual}: nothing is returned")
    ctx.ob(f"{f.qual}: {n} returning paths")


# ---------------------------------------------------------------------- CSV summary
RS = "neps.utils.types._ConfigResultForStats"
NUMS = ("num_evaluated_configs", "num_pending_configs", "num_pending_configs_with_worker", "best_loss", "best_config_id", "num_error")


def literal_summary():
    res = lambda i: ("new", RS, (("id", P(f"id{i}")), ("config", P(f"config{i}")), ("result", P(f"result{i}")), ("metadata", P(f"meta{i}"))))
    return ("dict", (
        (C("previous_results"), ("dict", ((P("id0"), res(0)), (P("id1"), res(1))))),
        (C("pending_configs"), ("dict", ((P("id2"), P("config2")), (P("id3"), P("config3"))))),
        (C("pending_configs_free"), ("dict", ((P("id3"), P("config3")),))),
        *[(C(k), P(k)) for k in NUMS],
    ))


class Opaque(Exception):
    pass


def extcall(t):
    """(dotted name or method, receiver, args, keywords) of a call of a library."""
    if t[0] == "call":
        return t[2], t[3], list(t[4]), dict(t[5])
    if t[0] == "op":
        args = [x for x in t[2:] if not (x[0] == "kw")]
        kw = {x[1]: x[2] for x in t[2:] if x[0] == "kw"}
        if t[1].startswith("."):
            return t[1], args[0], args[1:], kw
        return t[1], None, args, kw
    raise Opaque(show(t)[:100])


def lst(t):
    if t[0] in ("list", "tup"):
        return list(t[1])
    raise Opaque(show(t)[:100])


def frame(p, t):
    """[rows], each {column: value}, of a data frame built on the path."""
    name, recv, args, kw = extcall(t)
    n = name.split(".")[-1]
    rows = None
    if n == "DataFrame" and args[:1] and args[0][0] == "dict":
        cols = {k[2]: lst(v) for k, v in args[0][1]}
        ln = {len(v) for v in cols.values()}
        if len(ln) != 1:
            raise Opaque("columns of different lengths")
        rows = [{k: v[i] for k, v in cols.items()} for i in range(ln.pop())]
        for e in p.events:
            if e[0] == "setitem" and fz(p, e[1]) == t:
                k, v = fz(p, e[2]), fz(p, e[3])
                if k[0] != "c" or v[0] not in ("c", "list"):
                    raise Opaque(show(k))
                for i, r in enumerate(rows):
                    r[k[2]] = v if v[0] == "c" else v[1][i]
        return rows
    if n == "json_normalize":
        return [{"": x} for x in lst(args[0])]
    if n == "add_prefix":
        pre = (args + list(kw.values()))[0]
        return [{pre[2] + k: v for k, v in r.items()} for r in frame(p, recv)]
    if n == "concat":
        parts = [frame(p, x) for x in lst(args[0] if args else kw["objs"])]
        ax = kw.get("axis", args[1] if len(args) > 1 else C(0))
        if ax in (C(1), C("columns")):
            out = [dict() for _ in range(max(len(x) for x in parts))]
            for x in parts:
                for r, y in zip(out, x):
                    r.update(y)
            return out
        rows = [r for x in parts for r in x]
        if kw.get("join", C("outer")) == C("inner"):
            keep = set.intersection(*[{c for r in x for c in r} for x in parts])
            rows = [{c: v for c, v in r.items() if c in keep} for r in rows]
        return rows
    if n in ("copy", "reset_index"):
        return frame(p, recv)
    raise Opaque(show(t)[:100])


def csv_frames(ctx):
    """The CSV summary has a row for every trial, with its own configuration, result and metadata, and the counts."""
    f, g = fn(ctx, "_get_dataframes_from_summary"), fn(ctx, "get_summary_dict")
    i = ctx.interp(exc=False, opaque=frozenset({g.qual}), models={"get_summary_dict": literal_summary()})
    n = 0
    for p in i.run(f, args={"include_metadatas": TRUE, "include_results": TRUE, "include_configs": TRUE}):
        if p.outcome[0] == "raise" and p.outcome[1][1] not in ("?", "?B"):
            ctx.viol(f.qual, f"fails with {p.outcome[1][1]}", p)
        if p.outcome[0] != "return":
            continue
        n += 1
        r = fz(p, p.outcome[1])
        if r[0] != "tup" or len(r[1]) != 2:
            raise AnalysisBroken(f"{f.qual}: returns {show(r)[:80]}")
        try:
            rows = frame(p, r[1][0])
        except (Opaque, KeyError, IndexError) as e:
            raise AnalysisBroken(f"{f.qual}: the rows could not be followed: {e}")
        got = {}
        for x in rows:
            k = val(x.get("config_id", NONE))
            if k in got:
                ctx.viol(f.qual, f"two rows for {show(k)}", p)
            got[k] = x
        for j in range(4):
            x = got.get(P(f"id{j}"))
            if x is None:
                ctx.viol(f.qual, f"{'an evaluated' if j < 2 else 'a pending'} trial has no row", p)
                continue
            want = {"config.": P(f"config{j}"), "status": C("complete" if j < 2 else "pending")}
            if j < 2:
                want |= {"result.": P(f"result{j}"), "metadata.": P(f"meta{j}")}
            for c, w in want.items():
                if val(x.get(c, NONE)) != w:
                    ctx.viol(f.qual, f"the row of a trial has {show(x[c])[:60] if c in x else 'nothing'} as {c.rstrip('.')} instead of its own", p)
        if len(rows) != 4 and not ctx.violations:
            ctx.viol(f.qual, f"{len(rows)} rows for 4 trials", p)
        t = r[1][1]
        ds = [x for x in subterms(t) if x[0] == "dict" and x[1] and all(k[0] == "c" for k, _ in x[1])]
        if not ds:
            raise AnalysisBroken(f"{f.qual}: the counts could not be followed")
        d = {k[2]: v for k, v in ds[0][1]}
        for k in NUMS:
            if k not in d:
                ctx.viol(f.qual, f"{k} is not written", p)
            elif val(d[k]) != P(k):
                ctx.viol(f.qual, f"{show(d[k])[:60]} is written as {k}", p)
        kw = extcall(t)[3]
        if kw.get("columns") not in (None, ("list", (C("value"),))):
            ctx.viol(f.qual, f"the counts are written in the column {show(kw['columns'])[:60]}", p)
    ctx.need(n, f"{f.qual}: no frames")
    ctx.ob(f"{f.qual}: {n} paths")


def strip_int(t):
    while t[0] == "op" and t[1] in ("int", "float") and len(t) == 3:
        t = t[2]
    return t


def cell(t, key):
    """The frame or file of which ``t`` is the entry ``key``."""
    t = strip_int(t)
    while t[0] in ("sub", "it") and t[1][0] == "a" and t[1][2] in ("iloc", "iat") or t[0] in ("call", "op") and extcall(t)[0].split(".")[-1] in ("item",):
        t = t[1][1] if t[0] in ("sub", "it") else extcall(t)[1]
        t = strip_int(t)
    if t[0] == "sub" and t[1][0] == "a" and t[1][2] in ("loc", "at") and any(x == C(key) for x in subterms(t[2])):
        return t[1][1]
    if t[0] == "sub" and t[2] == C(key):
        # the entry of the column of values
        b = t[1]
        if b[0] == "a" and b[2] in ("loc", "at"):
            b = b[1]
        if b[0] == "sub" and b[2] == C("value") or b[0] == "a" and b[2] == "value":
            return b[1]
    return None


def csv_save(ctx):
    """Both CSV files are written together under the lock, whenever they are missing, outdated or the run is over."""
    f = fn(ctx, "_save_data_to_csv")
    n = m = 0
    C1, C2, F1, F2 = P("config_data_df"), P("run_data_df"), P("config_data_file_path"), P("run_data_file_path")
    for p in ctx.paths(f.qual, exc=False):
        if p.outcome[0] == "raise" and p.outcome[1][1] not in ("?", "?B"):
            ctx.viol(f.qual, f"fails with {p.outcome[1][1]}", p)
            continue
        if p.outcome[0] != "return":
            continue
        n += 1
        depth, wr, oldread = 0, {}, False
        for e in p.events:
            if e[0] in ("enter", "exit") and any(x == P("locker") for x in subterms(fz(p, e[1]))):
                depth += 1 if e[0] == "enter" else -1
            if e[0] == "call":
                t = fz(p, e[1])
                k = tail(t[2])
                if k in ("read_csv",) and not depth:
                    ctx.viol(f.qual, "a CSV file is read without its lock", p)
                if k == "to_csv":
                    if not depth:
                        ctx.viol(f.qual, "a CSV file is written without its lock", p)
                    a = (list(t[4]) + [v for x, v in t[5] if x in ("path_or_buf",)])[0]
                    src = t[3]
                    while src[0] == "call" and tail(src[2]) in ("sort_values", "copy"):
                        if tail(src[2]) == "sort_values" and not any(x[0] == "in" and x[1] == C("result.loss") and v for x, v in p.facts.items()):
                            ctx.viol(f.qual, "sorts by a loss although no trial may have reported one", p)
                        src = src[3]
                    if (src, a) not in ((C1, F1), (C2, F2)):
                        ctx.viol(f.qual, f"writes {show(src)[:60]} to {show(a)[:60]}", p)
                    mode = dict(t[5]).get("mode", C("w"))
                    if mode != C("w"):
                        ctx.viol(f.qual, f"a CSV file is opened in mode {show(mode)}", p)
                    wr[a] = wr.get(a, 0) + 1
        if len(wr) == 1:
            ctx.viol(f.qual, "only one of the two CSV files is written", p)
        know, odd = {}, []
        for a, v in p.facts.items():
            n0 = len(know)
            if a[0] == "truthy" and a[1][0] in ("call", "op") and extcall(a[1])[0].split(".")[-1] in ("exists", "is_file") and extcall(a[1])[1] in (F1, F2):
                know["exists"] = v
            for k in ("num_pending_configs", "num_pending_configs_with_worker"):
                if a[0] == "eq" and C(0) in a[1:] and any(cell(x, k) == C2 for x in a[1:]):
                    know[k] = v
                if a[0] == "truthy" and cell(a[1], k) == C2:
                    know[k] = not v
            if a[0] == "ge":
                l, r = (cell(x, "num_evaluated_configs") for x in a[1:])
                if l is not None and r == C2 and l != C2:
                    know["newer"] = not v
                elif r is not None and l == C2 and r != C2:
                    know["newer"] = ("not older", v)
            if a[0] in ("ge", "eq") and len(know) == n0 and any(mentions(x, lambda y: y == C2 or y[0] == "call" and tail(y[2]) == "read_csv") and not any(cell(x, k[2]) for k in subterms(x) if k[0] == "c" and isinstance(k[2], str)) for x in a[1:]):
                odd.append(a)
        over = know.get("num_pending_configs") is True and know.get("num_pending_configs_with_worker") is not False
        nw = know.get("newer")
        if wr:
            m += 1
            if not (over or know.get("exists") is False or nw is True or isinstance(nw, tuple) and nw[1]):
                ctx.need(not odd, f"a condition under which the CSV files are replaced: {show(odd[0])[:150] if odd else ''}")
                ctx.viol(f.qual, "existing CSV files are replaced although nothing more was evaluated and trials are pending", p)
        elif over or know.get("exists") is False or nw is True:
            ctx.viol(f.qual, "the CSV files are not written although they are " + ("missing" if know.get("exists") is False else "outdated"), p)
        elif not know:
            ctx.viol(f.qual, "the CSV files are not written", p)
    ctx.need(n and m, f"{f.qual}: nothing is written")
    ctx.ob(f"{f.qual}: {n} paths, {m} writing")


def csv_files(ctx):
    """The CSV files and their lock are three files of the run's directory, and get the frames meant for them."""
    f = fn(ctx, "post_run_csv")
    n = 0
    for p in ctx.paths(f.qual, exc=False, opaque=frozenset(fn(ctx, x).qual for x in ("_get_dataframes_from_summary", "_save_data_to_csv"))):
        if p.outcome[0] != "return":
            continue
        n += 1
        sv = [fz(p, t) for _, t in calls(p) if tail(t[2]) == "_save_data_to_csv"]
        if len(sv) != 1:
            ctx.viol(f.qual, "the CSV files are not written once", p)
            continue
        a = dict(sv[0][5])
        get = next((fz(p, t) for _, t in calls(p) if tail(t[2]) == "_get_dataframes_from_summary"), None)
        if get is None:
            ctx.viol(f.qual, "the CSV files are written without looking at the run", p)
            continue
        g = dict(get[5])
        if P("root_directory") not in subterms(g.get("root_directory", NONE)):
            ctx.viol(f.qual, "another directory than the run's is summarised", p)
        if any(g.get(k, TRUE) != TRUE for k in ("include_metadatas", "include_results", "include_configs")):
            ctx.viol(f.qual, "the summary leaves out configurations, results or metadata", p)
        for k, i in (("config_data_df", 0), ("run_data_df", 1)):
            if a.get(k) not in (("it", get, i), ("sub", get, C(i))):
                ctx.viol(f.qual, f"{show(a.get(k, NONE))[:60]} is written as {k}", p)
        paths = [a.get(k, NONE) for k in ("config_data_file_path", "run_data_file_path")]
        lk = a.get("locker", NONE)
        lock = dict(lk[2]).get("lock_path", NONE) if lk[0] == "new" else NONE
        names = [[x[2] for x in subterms(t) if x[0] == "c" and isinstance(x[2], str)] for t in (*paths, lock)]
        if any(P("root_directory") not in subterms(t) for t in (*paths, lock)):
            ctx.viol(f.qual, "a CSV file or its lock is not in the run's directory", p)
        elif len({tuple(sorted(x)) for x in names}) != 3:
            ctx.viol(f.qual, "the CSV files and their lock are not three different files", p)
        r = fz(p, p.outcome[1])
        if r != ("tup", tuple(paths)):
            ctx.viol(f.qual, f"returns {show(r)[:80]} instead of the files it wrote", p)
    ctx.need(n, f"{f.qual}: no path")
    ctx.ob(f"{f.qual}: {n} paths")


# ------------------------------------------------------------------------ no effects
WRITE = {"write_text", "write_bytes", "unlink", "rename", "replace", "rmdir", "rmtree", "save", "savez", "tofile", "to_csv", "dump", "symlink_to", "hardlink_to", "copy2", "copyfile", "copytree", "move", "remove", "makedirs", "put", "truncate", "write", "bump", "safe_dump"}


def writes(p, t):
    """The file effect of a call of a library, or None."""
    n = tail(t[2])
    kw = dict(t[5])
    if n in WRITE and not (t[2].startswith("neps.") and n == "replace"):
        return n
    if n == "open" or n == "Lock":
        if n == "Lock":
            return None
        args = list(t[4])
        mode = kw.get("mode") or (args[0] if t[3] is not None and args else args[1] if len(args) > 1 else C("r"))
        mode = fz(p, mode)
        if mode[0] != "c" or any(c in str(mode[2]) for c in "wax+"):
            return f"open in mode {mode[2] if mode[0] == 'c' else '?'}"
    return None


def read_only(ctx):
    """Looking at the status of a run writes to none of its files."""
    n = 0
    cs = {}
    for name in ("get_summary_dict", "status"):
        f = fn(ctx, name)
        op = frozenset() if name == "get_summary_dict" else frozenset({fn(ctx, "get_summary_dict").qual})
        for p in ctx.paths(f.qual, exc=False, opaque=op):
            n += 1
            for i, t in calls(p):
                cs[t[1]] = t
                w = writes(p, t)
                if w:
                    ctx.viol(f.qual, f"changes files of the run: {w} at {t[1][0] if isinstance(t[1], tuple) else ''}", p)
    allt = next((f for f in ctx.prog.funcs.values() if f.name == "synced" and f.cls is not None and f.cls.name == "Synced"), None)
    ctx.need(allt, "Synced.synced not found")
    for p in ctx.paths(allt.qual, exc=False):
        n += 1
        for i, t in calls(p):
            cs[t[1]] = t
            if writes(p, t) and tail(t[2]) not in ("dump",):
                ctx.viol(allt.qual, f"refreshing a record changes files: {tail(t[2])}", p)
    ctx.ob(f"status functions with everything they call: {n} paths, {len(cs)} calls of libraries without file effects")
