"""Rules about the encoding of configurations as columns of a tensor.

The encoder is analysed on search spaces of three symbolic hyperparameters whose names are not in
the order in which the space lists them; every function it goes through is followed.
"""
from __future__ import annotations

import ast
import itertools

from rules.algebra import Norm
from rules.scalars import close, value
from rules.space import hp_classes, kind
from rules.store import tail
from rules.tables import Unfollowed
from sa.core import AnalysisBroken, calls, fz
from sa.terms import C, FALSE, NONE, TRUE, show, subterms

P = lambda n: ("p", n)
MOD = "neps.search_spaces.encoding"
ENC = MOD + ".ConfigEncoder"
DOM = "neps.search_spaces.domain.Domain"
SPACE = "neps.search_spaces.search_space.SearchSpace"
NAMES = ("c", "a", "b")  # as listed in the space; 'a' is categorical
LIT = 40


def lit(*kv):
    return ("dict", tuple((C(k), v) for k, v in kv))


def new(q, **f):
    return ("new", q, tuple(sorted(f.items())))


def hps(ctx):
    """Three hyperparameters: {name: term}"""
    concrete = [c for c in sorted(hp_classes(ctx), key=lambda c: c.qual) if not c.name.startswith("Numerical")]
    num = [c for c in concrete if kind(ctx, c) == "num"]
    cat = [c for c in concrete if kind(ctx, c) == "cat"]
    ctx.need(len(num) == 2 and len(cat) == 1, f"the kinds of hyperparameters: {[c.name for c in concrete]}")
    by = {"num": num[0], "num2": num[1], "cat": cat[0]}
    out = {}
    for n, k in (("c", "num"), ("a", "cat"), ("b", "num2")):
        f = {x: P(f"{n}.{x}") for x in ("domain", "default", "lower", "upper", "default_confidence_choice", "_default_index")}
        if k == "cat":
            f["choices"] = P(f"{n}.choices")
        out[n] = new(by[k].qual, is_fidelity=FALSE, **f)
    return out


def owners(t, p=None):
    """Names of the hyperparameters a term mentions."""
    out = set()
    for x in subterms(t):
        if x[0] == "p" and "." in x[1]:
            out.add(x[1].split(".")[0])
    return out


def transformers(ctx):
    out = [c for c in ctx.prog.classes.values() if c.module.name == MOD and c.find_method("encode") and c.find_method("decode") and c.qual != ENC and not c.find_method("encode").is_abstract and not c.is_protocol]
    ctx.need(len(out) >= 3, "the transformers of the encoder")
    return out


def opaque_domain(ctx):
    return frozenset(q for q, f in ctx.prog.funcs.items() if q.startswith(DOM + "."))


def entries(p, t):
    """The items of a literal dictionary, or None."""
    t = fz(p, t)
    if t[0] != "dict" or any(k[0] != "c" for k, _ in t[1]):
        return None
    return {k[2]: v for k, v in t[1]}


def field(p, o, name):
    v = p.state.heap.get((o, name))
    return v


def encoders(ctx):
    """Runs of ConfigEncoder.default on the three hyperparameters."""
    h = hps(ctx)
    q = ENC + ".default"
    ps = ctx.paths(
        q,
        args={"parameters": lit(*((n, h[n]) for n in NAMES)), "constants": lit(("k", P("k.value"))), "custom_transformers": NONE},
        exc=False, literal_limit=LIT, opaque=opaque_domain(ctx),
    )
    out = [p for p in ps if p.outcome[0] == "return"]
    ctx.need(out, "no encoder is made")
    for p in out:
        ctx.need(p.outcome[1][0] == "o" and p.outcome[1][2] == ENC, "the default encoder is not followed")
    return out


def layout(ctx, p):
    """(names in order of columns, {name: transformer term}) of an encoder."""
    o = p.outcome[1]
    tr = entries(p, field(p, o, "transformers") or NONE)
    ix = entries(p, field(p, o, "index_of") or NONE)
    ctx.need(tr is not None and ix is not None, "the columns of the encoder are not followed")
    return tr, ix


def columns(ctx):
    """Every hyperparameter has one column, made by its own transformer; the listed domains are those of the columns."""
    ctx.ob("default encoder: one transformer per hyperparameter, from its own domain or choices")
    ctx.ob("columns: a different one for each hyperparameter, with its domain in the same position")
    c = ctx.cls(ENC)
    for p in encoders(ctx):
        o = p.outcome[1]
        tr, ix = layout(ctx, p)
        where = f"{ENC}.default"
        if set(tr) != set(NAMES):
            ctx.viol(where, f"the encoder has columns for {sorted(tr)}, the hyperparameters are {sorted(NAMES)}", p)
            continue
        for n in NAMES:
            if owners(tr[n]) != {n}:
                ctx.viol(where, f"the transformer of one hyperparameter is made of {sorted(owners(tr[n]))}: {show(tr[n])[:200]}", p)
        cols = [ix.get(n) for n in NAMES]
        ctx.need(all(x is not None and x[0] == "c" for x in cols), "the columns are not constants")
        if sorted(x[2] for x in cols) != list(range(len(NAMES))):
            ctx.viol(f"{ENC}.__post_init__", f"the columns are {show(fz(p, field(p, o, 'index_of')))}", p)
            continue
        for name in ("domains", "ncols"):
            i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx))
            for q in i.run(c.find_method(name), self_term=o, st=p.state, exact_self=c):
                if q.outcome[0] != "return":
                    continue
                v = fz(q, q.outcome[1])
                if name == "ncols":
                    if v != C(len(NAMES)) and v[0] == "c":
                        ctx.viol(f"{ENC}.ncols", f"{show(v)} columns for {len(NAMES)} hyperparameters", q)
                    ctx.need(v[0] == "c", "the number of columns is not followed")
                    continue
                if v[0] == "op" and v[1] in ("sorted", "reversed") and v[2][0] in ("list", "tup"):
                    ctx.viol(f"{ENC}.domains", f"the domains are listed in another order than the columns: {show(v)[:200]}", q)
                    continue
                ctx.need(v[0] == "list", "the domains are not followed")
                if len(v[1]) != len(NAMES):
                    ctx.viol(f"{ENC}.domains", f"{len(v[1])} domains for {len(NAMES)} columns", q)
                    continue
                for n in NAMES:
                    want = domain_of(ctx, q, field(q, o, "transformers"), n)
                    got = v[1][ix[n][2]]
                    if got != want:
                        ctx.viol(f"{ENC}.domains", f"the domain listed for the column of {n} is {show(got)[:200]}, not {show(want)[:200]}", q)


def domain_of(ctx, p, trs, n):
    """The domain of the transformer of ``n``."""
    d = p.state.heap.get((trs, "#"))
    ctx.need(d is not None and d[0] == "dict", "the transformers are not followed")
    o = dict((k[2], v) for k, v in d[1] if k[0] == "c")[n]
    v = p.state.heap.get((o, "domain"))
    ctx.need(v is not None, "the domain of a transformer")
    return fz(p, v)


def is_column(t, of, i):
    """t is column i of the tensor ``of``."""
    if t[0] != "sub" or t[1] != of:
        return False
    k = t[2]
    if k[0] == "op" and k[1] == "tuple":
        k = ("tup", k[2:])
    return k[0] == "tup" and len(k[1]) == 2 and k[1][1] == C(i) and k[1][0] in (("op", "sl", NONE, NONE, NONE), C(...))


def encode_decode(ctx):
    """Encoding writes, and decoding reads, the column of each hyperparameter with its own transformer."""
    ctx.ob("encode: the values of each hyperparameter go through its transformer into its column")
    ctx.ob("decode: the column of each hyperparameter goes back through its transformer under its name, with the constants")
    c = ctx.cls(ENC)
    enc_q = frozenset(t.find_method("encode").qual for t in transformers(ctx))
    dec_q = frozenset(t.find_method("decode").qual for t in transformers(ctx))

    def decoded(i, st, recv, ar):
        x = dict(ar[1]).get("x") or (ar[0][0] if ar[0] else None)
        return ("list", tuple(("op", "decoded", recv, x, C(j)) for j in range(2)))

    x_lit = ("list", tuple(lit(*((n, P(f"v{j}.{n}")) for n in NAMES + ("k",))) for j in range(2)))
    for p in encoders(ctx):
        o = p.outcome[1]
        tr, ix = layout(ctx, p)
        if set(tr) != set(NAMES) or any(n not in ix or ix[n][0] != "c" for n in NAMES):
            continue
        objs = {k[2]: v for k, v in p.state.heap[(field(p, o, "transformers"), "#")][1]}
        i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx) | enc_q)
        n0 = len(p.events)
        for q in i.run(c.find_method("encode"), args={"x": x_lit}, self_term=o, st=p.state, exact_self=c):
            if q.outcome[0] != "return":
                ctx.viol(f"{ENC}.encode", "encoding two configurations fails", q)
                continue
            ret = q.outcome[1]
            done = {}
            for e in q.events[n0:]:
                if e[0] == "call" and tail(e[1][2]) == "encode":
                    call = e[1]
                    n = next((n for n in NAMES if objs[n] == call[3]), None)
                    ctx.need(n is not None, f"an unknown transformer encodes: {show(fz(q, call[3]))[:200]}")
                    kw = dict(call[5])
                    vals = fz(q, kw.get("x") or NONE)
                    ctx.need(vals[0] in ("list", "tup"), "the values to encode are not followed")
                    if list(vals[1]) != [P(f"v{j}.{n}") for j in range(2)]:
                        ctx.viol(f"{ENC}.encode", f"the transformer of one hyperparameter encodes {show(vals)}", q)
                    out = kw.get("out", NONE)
                    if out != NONE:
                        ctx.need(out[0] == "sub", "the column a transformer writes")
                        if not is_column(out, ret, ix[n][2]):
                            ctx.viol(f"{ENC}.encode", f"the values of {n} are written to {show(out)[:200]}, its column is {ix[n][2]}", q)
                        done[n] = True
                    else:
                        done.setdefault(n, call)
                elif e[0] == "setitem" and e[1] == ret:
                    n = next((n for n in NAMES if done.get(n) == e[3]), None)
                    ctx.need(n is not None, "an assignment to a column that is not the result of a transformer")
                    if not is_column(("sub", ret, e[2]), ret, ix[n][2]):
                        ctx.viol(f"{ENC}.encode", f"the values of {n} are written to {show(e[2])}, its column is {ix[n][2]}", q)
                    done[n] = True
            for n in NAMES:
                if n not in done:
                    ctx.viol(f"{ENC}.encode", f"nothing encodes hyperparameter {n}", q)
                ctx.need(n not in done or done[n] is True, "the column a transformer's result goes to")
        i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx) | dec_q, models={t.name + ".decode": decoded for t in transformers(ctx)})
        x = ("list", (P("row.0"), P("row.1")))
        for q in i.run(c.find_method("decode"), args={"x": x}, self_term=o, st=p.state, exact_self=c):
            if q.outcome[0] != "return":
                ctx.viol(f"{ENC}.decode", "decoding two rows fails", q)
                continue
            v = fz(q, q.outcome[1])
            ctx.need(v[0] == "list", f"the decoded configurations are not followed: {show(v)[:200]}")
            if len(v[1]) != 2:
                ctx.viol(f"{ENC}.decode", f"{len(v[1])} configurations from 2 rows", q)
                continue
            for j, d in enumerate(v[1]):
                es = entries(q, d)
                ctx.need(es is not None, "a decoded configuration is not followed")
                if set(es) != set(NAMES) | {"k"}:
                    ctx.viol(f"{ENC}.decode", f"a decoded configuration has {sorted(es)}", q)
                    continue
                if es["k"] != P("k.value"):
                    ctx.viol(f"{ENC}.decode", f"a constant is decoded as {show(es['k'])[:200]}", q)
                for n in NAMES:
                    t = es[n]
                    ctx.need(t[0] == "op" and t[1] == "decoded", f"the decoded value of a hyperparameter: {show(t)[:200]}")
                    if t[2] != fz(q, objs[n]) or t[4] != C(j) or not (t[3][0] == "sub" and is_column(t[3], t[3][1], ix[n][2])):
                        ctx.viol(f"{ENC}.decode", f"{n} of row {j} is decoded as {show(t)[:300]}", q)


def users(ctx):
    """Functions that make an encoder or a prior over hyperparameters."""
    out = []
    for f in ctx.prog.funcs.values():
        if f.module.name in (MOD, "neps.sampling.priors"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and (n.attr == "from_parameters" or n.attr == "default" and ast.unparse(n.value).split(".")[-1] == "ConfigEncoder"):
                out.append(f)
                break
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "ConfigEncoder":
                out.append(f)
                break
    return out


def space_term(ctx):
    h = hps(ctx)
    return h, new(
        SPACE, numerical=lit(("c", h["c"]), ("b", h["b"])), categoricals=lit(("a", h["a"])), constants=lit(("k", P("k.value"))), fidelities=lit(), fidelity=NONE,
        fidelity_name=NONE, graphs=lit(), hyperparameters=lit(*((n, h[n]) for n in NAMES)),
    )


def prior_columns(ctx):
    """Every prior over hyperparameters lists them in the order of the columns of the encoder it is used with."""
    h, space = space_term(ctx)
    (order,) = {tuple(sorted(layout(ctx, p)[1], key=lambda n: layout(ctx, p)[1][n][2])) for p in encoders(ctx)} or {None}
    made = new(ENC, transformers=lit(*((n, P(f"{n}.transformer")) for n in order)), index_of=lit(*((n, C(i)) for i, n in enumerate(order))), domains=P("encoder.domains"), constants=lit(("k", P("k.value"))), ncols=C(len(order)))
    us = users(ctx)
    ctx.need(us, "nothing makes an encoder or a prior")
    back = {v: k for k, v in h.items()}
    for f in us:
        ctx.ob(f"{f.qual}: order of the prior and of the encoder")
        keep = frozenset(q for q, g in ctx.prog.funcs.items() if g.qual != f.qual and g.module.name != MOD and (g.cls is None or f.cls is None or not is_helper(g, f)))
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        spec = f.node.args
        optional = {x.arg for x in (spec.posonlyargs + spec.args)[len(spec.posonlyargs + spec.args) - len(spec.defaults):]} | {x.arg for x, d in zip(spec.kwonlyargs, spec.kw_defaults) if d is not None}
        for given in ((NONE, made) if "encoder" in optional else (made,)) if "encoder" in names else (None,):
            args = {n: space for n in names if n in ("pipeline_space", "space")}
            if given is not None:
                args["encoder"] = given
            if "sampler" in names:
                args["sampler"] = C("prior")
            if "sample_fidelity" in names:
                args["sample_fidelity"] = C("min")
            kw = {"self_term": new(f.cls.qual, pipeline_space=space)} if f.kind == "method" else {}
            models = {"_adjust_pipeline_space_to_match_stepsize": ("tup", (space, P("n.steps")))}
            i = ctx.interp(exc=False, literal_limit=LIT, opaque=keep, models=models)
            for p in i.run(f, args=args, **kw):
                if p.outcome[0] != "return":
                    continue
                cols = tuple(order) if given == made else None
                for e in p.events:
                    if e[0] == "new" and e[2] == "ConfigEncoder":
                        t = entries(p, field(p, e[1], "transformers") or NONE)
                        ctx.need(t is not None, f"{f.qual}: the columns of the encoder are not followed")
                        cols = tuple(t)
                        if set(t) != set(NAMES):
                            ctx.viol(f.qual, f"the encoder covers {sorted(t)}, the hyperparameters are {sorted(NAMES)}", p)
                        k = entries(p, field(p, e[1], "constants") or NONE)
                        if k is not None and k != {"k": P("k.value")}:
                            ctx.viol(f.qual, f"the constants of the encoder are {k}", p)
                for e in p.events:
                    if e[0] == "call" and tail(e[1][2]) == "from_parameters":
                        a = fz(p, dict(e[1][5]).get("parameters") or (e[1][4][0] if e[1][4] else NONE))
                        if a[0] == "op" and a[1] == ".values":
                            a = ("list", tuple(v for _, v in a[2][1])) if a[2][0] == "dict" else a
                        ctx.need(a[0] in ("list", "tup"), f"{f.qual}: the hyperparameters of the prior are not followed: {show(a)[:200]}")
                        got = tuple(back.get(x) for x in a[1])
                        ctx.need(None not in got, f"{f.qual}: the prior is over something else")
                        if got != (cols or tuple(order)):
                            ctx.viol(f.qual, f"the prior lists the hyperparameters as {got}, the columns of the encoder are {cols or tuple(order)}", p)


def is_helper(g, f):
    """A private method of the same class, analysed along."""
    return g.cls is not None and f.cls is not None and g.cls in f.cls.mro() and g.name.startswith("_") and not g.name.startswith("__")


PRIORS = "neps.sampling.priors"


def prior_distributions(ctx):
    """The prior of each hyperparameter is made from its own domain, default and confidence, and used on its own column."""
    ctx.ob("from_parameters: domain and centre of each hyperparameter, in the order given")
    ctx.ob("make_centered: the distribution of each position from its own domain and centre")
    ctx.ob("CenteredPrior: each distribution is used on its own column")
    f = ctx.func(PRIORS + ".Prior.from_parameters")
    h = hps(ctx)
    mk = ctx.func(PRIORS + ".Prior.make_centered")
    levels = {"low": None, "medium": None, "high": None}
    for conf in levels:
        hh = {}
        for n, t in h.items():
            fs = dict(t[2])
            fs["default_confidence_choice"] = C(conf)
            hh[n] = new(t[1], **fs)
        ps = ctx.paths(f.qual, args={"parameters": ("list", tuple(hh[n] for n in NAMES))}, exc=False, literal_limit=LIT, opaque=frozenset({mk.qual}))
        good = [p for p in ps if p.outcome[0] == "return"]
        ctx.need(good, "no prior is made")
        for p in ps:
            if p.outcome[0] != "return":
                ctx.viol(f.qual, f"no prior is made with confidence {conf!r}", p)
                continue
            cs = [e[1] for e in p.events if e[0] == "call" and tail(e[1][2]) == "make_centered"]
            ctx.need(len(cs) == 1, "how the prior is made")
            kw = dict(cs[0][5])
            d, c = fz(p, kw.get("domains", NONE)), fz(p, kw.get("centers", NONE))
            ctx.need(d[0] in ("list", "tup") and c[0] in ("list", "tup"), "the domains and centres of the prior are not followed")
            if len(d[1]) != len(NAMES) or len(c[1]) != len(NAMES):
                ctx.viol(f.qual, f"{len(d[1])} domains and {len(c[1])} centres for {len(NAMES)} hyperparameters", p)
                continue
            for n, dt, ct in zip(NAMES, d[1], c[1]):
                if dt != P(f"{n}.domain"):
                    ctx.viol(f.qual, f"the domain in the place of {n} is {show(dt)[:200]}", p)
                default = p.facts.get(("isnone", P(f"{n}.default")))
                if ct == NONE:
                    if default is False:
                        ctx.viol(f.qual, f"the default of {n} is not the centre of its prior", p)
                    continue
                if default is True:
                    ctx.viol(f.qual, f"a hyperparameter without default gets a prior centred at {show(ct)[:200]}", p)
                    continue
                ctx.need(ct[0] == "tup" and len(ct[1]) == 2, f"a centre of the prior: {show(ct)[:200]}")
                want = P(f"{n}._default_index") if n == "a" else P(f"{n}.default")
                if ct[1][0] != want:
                    ctx.viol(f.qual, f"the prior of {n} is centred at {show(ct[1][0])[:200]}", p)
                ctx.need(ct[1][1][0] == "c", f"the confidence of the prior of a hyperparameter: {show(ct[1][1])[:200]}")
                levels[conf] = ct[1][1][2]
    if None not in levels.values() and not 0 < levels["low"] < levels["medium"] < levels["high"] < 1:
        ctx.viol(f.qual, f"the confidences are {levels}")

    # position by position
    ks = {"cat": TRUE, "num": FALSE}
    for a, b in itertools.product(ks, ks):
        doms = [new(DOM, is_categorical=ks[k], lower=P(f"{n}.lower"), upper=P(f"{n}.upper"), cardinality=P(f"{n}.cardinality"), log_bounds=P(f"{n}.log")) for n, k in (("m", a), ("n", b))]
        for cm, cn in itertools.product((True, False), repeat=2):
            cen = [("tup", (P(f"{n}.center"), P(f"{n}.confidence"))) if w else NONE for n, w in (("m", cm), ("n", cn))]
            ps = ctx.paths(mk.qual, args={"domains": ("list", tuple(doms)), "centers": ("list", tuple(cen)), "device": NONE}, exc=False, literal_limit=LIT, opaque=opaque_domain(ctx) | frozenset(q for q in ctx.prog.funcs if "distributions" in q or q.startswith(PRIORS + ".CenteredPrior")))
            for p in ps:
                if p.outcome[0] != "return":
                    continue
                o = p.outcome[1]
                v = field(p, o, "distributions") if o[0] == "o" else dict(o[5]).get("distributions") if o[0] == "call" else None
                v = fz(p, v) if v is not None else NONE
                ctx.need(v[0] in ("list", "tup"), "the distributions of the prior are not followed")
                if len(v[1]) != 2:
                    ctx.viol(mk.qual, f"{len(v[1])} distributions for 2 domains", p)
                    continue
                for n, w, t in zip(("m", "n"), (cm, cn), v[1]):
                    got = owners(t) | owners_of_calls(p, t)
                    if w and got != {n} or not w and got:
                        ctx.viol(mk.qual, f"the distribution in one place is made of the hyperparameters in places {sorted(got)}: {show(t)[:300]}", p)


def owners_of_calls(p, t):
    return set()


def prior_use(ctx):
    """CenteredPrior evaluates and samples every distribution on the column it stands for."""
    c = ctx.cls(PRIORS + ".CenteredPrior")
    wd = ctx.cls("neps.sampling.distributions.TorchDistributionWithDomain")
    ctx.ob("CenteredPrior.sample: the draws of every distribution become its own column, translated from its own domain")
    ctx.ob("CenteredPrior.log_prob: every distribution that is not uniform is evaluated on its own column")
    uni = ("gv", "neps.sampling.distributions", "UNIT_UNIFORM_DIST")
    for flat in itertools.product((False, True), repeat=3):
        ds = [uni if u else new(wd.qual, distribution=P(f"d{i}.distribution"), domain=P(f"d{i}.domain")) for i, u in enumerate(flat)]
        i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx))
        post = c.find_method("__post_init__")
        me = new(c.qual, distributions=("list", tuple(ds)))
        starts = [p for p in i.run(post, self_term=me, exact_self=c)]
        for p in starts:
            if p.outcome[0] != "return":
                continue
            (o,) = {k[0] for k in p.state.heap if k[0][0] == "o" and k[0][2] == c.qual} or {None}
            # facts about which entries count as uniform have to be as assumed
            if not consistent(p, flat, ds, uni):
                continue
            sample(ctx, c, p, o, flat)
            log_prob(ctx, c, p, o, flat)


def consistent(p, flat, ds, uni):
    for a, v in p.facts.items():
        if a[0] in ("eq", "is"):
            x, y = fz(p, a[1]), fz(p, a[2])
            if uni in (x, y):
                other = y if x == uni else x
                if other != uni and v:
                    return False
    return True


def sample(ctx, c, p, o, flat):
    q = c.find_method("sample")
    i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx), types={P("n"): ("x", "builtins.int", ())})
    n0 = len(p.events)
    for r in i.run(q, args={"seed": NONE, "to": P("to")}, self_term=o, st=p.state, exact_self=c):
        if r.outcome[0] != "return":
            continue
        tr = [e[1] for e in r.events[n0:] if e[0] == "call" and tail(e[1][2]) == "translate"]
        ctx.need(len(tr) == 1, "the samples are not translated once")
        kw = dict(tr[0][5])
        frm = fz(r, kw.get("frm", NONE))
        x = kw.get("x") or (tr[0][4][0] if tr[0][4] else None)
        ctx.need(frm[0] == "list", "the domains the samples are translated from")
        for j, u in enumerate(flat):
            want = ("a", ("gv", "neps.sampling.distributions", "UNIT_UNIFORM_DIST"), "domain") if u else P(f"d{j}.domain")
            got = frm[1][j] if j < len(frm[1]) else None
            if got != want:
                ctx.viol(q.qual, f"column {j} is translated from {show(got)[:200] if got else 'nothing'}, its distribution is over {show(want)[:200]}", r)
        if kw.get("to") != P("to"):
            ctx.viol(q.qual, f"samples are translated to {show(fz(r, kw.get('to', NONE)))[:200]}", r)
        seen = {}
        for e in r.events[n0:]:
            if e[0] == "setitem" and e[1] == x:
                k = e[2]
                ctx.need(k[0] == "tup" and k[1][-1][0] == "c", "the column samples are written to")
                ds = {s[1].split(".")[0] for s in subterms(fz(r, e[3])) if s[0] == "p" and s[1].startswith("d") and s[1].endswith(".distribution")}
                us = any(s[0] == "gv" and s[2] == "UNIT_UNIFORM_DIST" for s in subterms(fz(r, e[3])))
                seen[k[1][-1][2]] = (ds, us)
        if not seen:
            for y in subterms(fz(r, x)):
                nm, ar = (y[2], y[4]) if y[0] == "call" else (y[1], y[2:]) if y[0] == "op" else ("", ())
                if nm.split(".")[-1] in ("stack", "column_stack", "hstack") and ar and ar[0][0] in ("list", "tup"):
                    dims = [v for k, v in (y[5] if y[0] == "call" else [z[1:] for z in ar if z[0] == "kw"]) if k == "dim"]
                    ctx.need(nm.split(".")[-1] != "stack" or dims == [C(-1)] or dims == [("un", "-", C(1))], "how the samples are stacked")
                    for j, z in enumerate(ar[0][1]):
                        ds = {q_[1].split(".")[0] for q_ in subterms(z) if q_[0] == "p" and q_[1].endswith(".distribution")}
                        seen[j] = (ds, any(q_[0] == "gv" and q_[2] == "UNIT_UNIFORM_DIST" for q_ in subterms(z)))
        for j, u in enumerate(flat):
            ctx.need(seen or not flat, "how the samples are put together")
            if seen.get(j) != ((set(), True) if u else ({f"d{j}"}, False)):
                ctx.viol(q.qual, f"column {j} holds samples of {seen.get(j)}", r)


def log_prob(ctx, c, p, o, flat):
    q = c.find_method("log_prob")
    i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx))
    n0 = len(p.events)
    frm = ("list", tuple(P(f"f{j}.domain") for j in range(3)))
    for r in i.run(q, args={"frm": frm, "x": P("x")}, self_term=o, st=p.state, exact_self=c):
        if r.outcome[0] != "return":
            continue
        tr = [e[1] for e in r.events[n0:] if e[0] == "call" and tail(e[1][2]) == "translate"]
        need = [j for j, u in enumerate(flat) if not u]
        evals = {}
        for e in r.events[n0:]:
            if e[0] == "call" and tail(e[1][2]).lstrip(".") == "log_prob" and e[1][3] is not None:
                d = fz(r, e[1][3])
                if d[0] == "p" and d[1].endswith(".distribution"):
                    a = e[1][4][0] if e[1][4] else dict(e[1][5]).get("value")
                    evals[int(d[1][1])] = a
        if not need:
            if evals:
                ctx.viol(q.qual, "a uniform prior is evaluated by another distribution", r)
            continue
        if set(evals) == set(need):
            density(ctx, q, r, need)
        if set(evals) != set(need):
            ctx.viol(q.qual, f"the distributions of columns {sorted(evals)} are evaluated, columns {need} have one", r)
            continue
        if len(tr) != 1:
            raise AnalysisBroken("how the values are translated")
        kw = dict(tr[0][5])
        xx = fz(r, kw.get("x") or (tr[0][4][0] if tr[0][4] else NONE))
        picked = selected(xx)
        ctx.need(picked is not None, f"the columns that are translated: {show(xx)[:200]}")
        to, fr = fz(r, kw.get("to", NONE)), fz(r, kw.get("frm", NONE))
        ctx.need(to[0] in ("list", "tup") and fr[0] in ("list", "tup"), "the domains of the translation")
        picked = list(range(3)) if picked == "all" else picked
        for j in need:
            a = fz(r, evals[j])
            ctx.need(a[0] == "sub" and a[2][0] == "tup" and a[2][1][-1][0] == "c", f"what a distribution is evaluated on: {show(a)[:200]}")
            k = a[2][1][-1][2]
            if not 0 <= k < len(picked) or picked[k] != j:
                ctx.viol(q.qual, f"the distribution of column {j} is evaluated on position {k} of columns {picked}", r)
                continue
            if to[1][k] != P(f"d{j}.domain") or fr[1][k] != P(f"f{j}.domain"):
                ctx.viol(q.qual, f"column {j} is translated from {show(fr[1][k])} to {show(to[1][k])}", r)


def density(ctx, q, r, need):
    """The log density is the sum of those of the columns."""
    for k in (0, 1):
        pts = {j: (-1.5, 0.375, -0.625)[(j + k) % 3] * (1 + k) for j in need}

        def leaf(t):
            if t[0] == "call" and tail(t[2]).lstrip(".") == "log_prob" and t[3] is not None:
                d = fz(r, t[3])
                if d[0] == "p" and d[1].endswith(".distribution"):
                    return pts.get(int(d[1][1]))
            if t[0] == "op" and t[1] == "len":
                return 3
            return None

        out = fz(r, r.outcome[1])
        try:
            got = value(out, leaf)
        except (Unfollowed, TypeError, ValueError, ArithmeticError) as e:
            raise AnalysisBroken(f"the density of the prior: {e}") from e
        if not close(got, sum(pts.values())):
            ctx.viol(q.qual, f"the log density is not the sum of those of the columns but {show(out)[:250]}", r)
            return


def selected(x):
    """The columns of ``x`` that an index picks."""
    if x[0] == "p" or x[0] == "call" and tail(x[2]).lstrip(".") == "unsqueeze":
        return "all"
    if x[0] == "sub" and x[2][0] == "tup":
        k = x[2][1][-1]
        if k[0] in ("list", "tup") and all(i[0] == "c" for i in k[1]):
            return [i[2] for i in k[1]]
    return None


def translate(ctx):
    """Domain.translate casts every column from its own domain to its own domain."""
    ctx.ob("Domain.translate: column by column from and to the domains in its place")
    f = ctx.func(DOM + ".translate")
    cast = frozenset({DOM + ".cast"})
    F = [new(DOM, tag=P(f"f{j}.domain")) for j in range(2)]
    T = [new(DOM, tag=P(f"t{j}.domain")) for j in range(2)]
    X = P("x")
    for fr_list, to_list in itertools.product((True, False), repeat=2):
        st = None
        args = {"frm": ("list", tuple(F)) if fr_list else F[0], "to": ("list", tuple(T)) if to_list else T[0], "x": X}
        i = ctx.interp(exc=False, literal_limit=LIT, opaque=cast)
        ps = i.run(f, args=args)
        ok = 0
        for p in ps:
            if p.outcome[0] != "return":
                continue
            # the number of columns is the length of the lists
            cs = [e[1] for e in p.events if e[0] == "call" and tail(e[1][2]) == "cast"]
            if not cs:
                continue
            ok += 1
            for c in cs:
                x = dict(c[5]).get("x") or (c[4][0] if c[4] else NONE)
                recv, frm = show(fz(p, c[3])), show(fz(p, dict(c[5]).get("frm", NONE)))
                whole = not (fr_list or to_list)
                if whole:
                    if "t0" not in recv or "f0" not in frm:
                        ctx.viol(f.qual, f"values of one domain are cast from {frm} to {recv}", p)
                    continue
                k = x[2][1][-1] if x[0] == "sub" and x[2][0] == "tup" else None
                if k is None or k[0] != "c":
                    continue
                if ("t%d" % (k[2] if to_list else 0)) not in recv or ("f%d" % (k[2] if fr_list else 0)) not in frm:
                    ctx.viol(f.qual, f"column {k[2]} is cast from {frm} to {recv}", p)
                for e in p.events:
                    if e[0] == "setitem" and e[3] == c_term(p, c):
                        kk = e[2][1][-1] if e[2][0] == "tup" else None
                        if kk is not None and kk[0] == "c" and kk != k:
                            ctx.viol(f.qual, f"column {k[2]} ends up in column {kk[2]}", p)
        ctx.need(ok, "the columns of a translation are not followed")


def c_term(p, c):
    return c


def domain(ctx, log, card, rnd, tag=""):
    f = dict(lower=P(tag + "lower"), upper=P(tag + "upper"), log_bounds=("tup", (P(tag + "loglower"), P(tag + "logupper"))) if log else NONE, cardinality=P(tag + "q") if card else NONE, is_unit_float=FALSE, round=TRUE if rnd else FALSE, preffered_dtype=P(tag + "dtype"))
    return new(DOM, **f)


def none_number(p):
    """The path takes one of the numbers for None."""
    return any(a[0] == "isnone" and v and a[1][0] == "p" and a[1][1].split(".")[-1] in ("lower", "upper", "loglower", "logupper", "q") for a, v in p.facts.items())


def B(op, a, b):
    return ("bin", op, a, b)


def fn(name, *a):
    return ("op", name, *a)


def quantised(x, q):
    """The ways to move x in [0, 1] to the nearest of q levels that leave the levels where they are."""
    m = B("-", q, C(1))
    return [B("/", fn("clamp", fn("floor", B("*", x, q)), C(0), m), m), B("/", fn("round", B("*", x, m)), m)]


def unit_interval(ctx):
    """Both directions between a domain and the unit interval use the same bounds on the same scale."""
    ctx.ob("to_unit: (x - lower) / (upper - lower) on the domain's scale, moved to one of its levels")
    ctx.ob("from_unit: the inverse on the same bounds and scale")
    x = P("x")
    for log, card, rnd in itertools.product((False, True), repeat=3):
        d = domain(ctx, log, card, rnd)
        lo, hi = (P("loglower"), P("logupper")) if log else (P("lower"), P("upper"))
        u = B("/", B("-", fn("log", x) if log else x, lo), B("-", hi, lo))
        ups = quantised(u, P("q")) if card else [u]
        y0 = quantised(x, P("q")) if card else [x]
        downs = []
        for y in y0:
            y = B("+", B("*", y, B("-", hi, lo)), lo)
            y = fn("exp", y) if log else y
            downs.append(fn("round", y) if rnd else y)
        for name, want in (("to_unit", ups), ("from_unit", downs)):
            ps = ctx.paths(f"{DOM}.{name}", self_term=d, exact_self=ctx.cls(DOM), exc=False)
            ok = 0
            for p in ps:
                if p.outcome[0] != "return" or none_number(p):
                    continue
                ok += 1
                n = Norm()
                got = fz(p, p.outcome[1])
                if any(n.equal(got, w) for w in want):
                    continue
                if n.unknown:
                    raise AnalysisBroken(f"{name}: not an arithmetic expression ({sorted(n.unknown)}): {show(got)[:200]}")
                ctx.viol(f"{DOM}.{name}", f"{'log ' if log else ''}{'binned ' if card else ''}{'integer ' if rnd else ''}domain: {show(got)[:400]} instead of {show(want[0])[:300]}", p)
            ctx.need(ok, f"{name} returns nothing")


def cast(ctx):
    """Casting between domains goes through the unit interval unless a shortcut is valid."""
    ctx.ob("Domain.cast: from_unit of to_unit, or a shortcut under the condition that makes it equal to that")
    x = P("x")
    opq = frozenset({DOM + ".to_unit", DOM + ".from_unit"})
    S, F = "s.", "f."

    def eq(p, a, b):
        if a == b:
            return True
        for (k, *r), v in p.facts.items():
            if k == "eq" and v and any({x, y} == {a, b} for x, y in parts(fz(p, r[0]), fz(p, r[1]))):
                return True
        return False

    for sl, sc, fl, fc in itertools.product((False, True), repeat=4):
        for rnd in (False, True):
            d, f = domain(ctx, sl, sc, rnd, S), domain(ctx, fl, fc, False, F)
            fd, ff = dict(d[2]), dict(f[2])
            ps = ctx.paths(DOM + ".cast", args={"frm": f, "x": x}, self_term=d, exact_self=ctx.cls(DOM), exc=False, opaque=opq)
            for p in ps:
                if p.outcome[0] != "return" or none_number(p):
                    continue
                got = fz(p, p.outcome[1])
                core = got
                while core[0] == "call" and tail(core[2]).lstrip(".") in ("type", "to"):
                    core = core[3] if core[3] is not None else core[4][0]
                while core[0] == "op" and core[1] in (".type", ".to"):
                    core = core[2]
                if core[0] == "call" and tail(core[2]) == "from_unit":
                    a = core[5] and dict(core[5]).get("x") or core[4][0]
                    a = fz(p, a)
                    good = a[0] == "call" and tail(a[2]) == "to_unit" and fz(p, a[3]) == fz(p, f_obj(p, f)) and fz(p, dict(a[5]).get("x") or a[4][0]) == x
                    recv_ok = fz(p, core[3]) == d
                    if not (recv_ok and good):
                        ctx.viol(DOM + ".cast", f"the value is moved through {show(core)[:300]}", p)
                    continue
                n = Norm()
                plain = any(n.equal(core, w) for w in (x, fn("round", x)))
                lift = any(n.equal(core, w) for w in (fn("exp", x), fn("round", fn("exp", x))))
                drop = any(n.equal(core, w) for w in (fn("log", x), fn("round", fn("log", x))))
                if n.unknown or not (plain or lift or drop):
                    raise AnalysisBroken(f"cast: {show(core)[:200]}")
                if plain:
                    same = eq(p, fd["lower"], ff["lower"]) and eq(p, fd["upper"], ff["upper"]) and (sl == fl) and (not sl or eq(p, fd["log_bounds"], ff["log_bounds"]) or all(eq(p, a, b) for a, b in zip(fd["log_bounds"][1], ff["log_bounds"][1]))) and sc == fc and (not sc or eq(p, fd["cardinality"], ff["cardinality"]))
                    if not same:
                        ctx.viol(DOM + ".cast", "values are taken over unchanged though bounds, scale and levels are not known to be the same", p)
                elif lift:
                    if not (sl and not fl and not sc and pair(p, eq, fd["log_bounds"], (ff["lower"], ff["upper"]))):
                        ctx.viol(DOM + ".cast", "the exponential is taken of values that are not on the log scale of the target", p)
                else:
                    if not (fl and not sl and not sc and pair(p, eq, ff["log_bounds"], (fd["lower"], fd["upper"]))):
                        ctx.viol(DOM + ".cast", "the logarithm is taken of values whose log scale is not the target", p)


def parts(x, y):
    """The pairs that are equal when x and y are."""
    yield x, y
    if x[0] == y[0] == "tup" and len(x[1]) == len(y[1]):
        for a, b in zip(x[1], y[1]):
            yield from parts(a, b)


def f_obj(p, f):
    return f


def pair(p, eq, tup, two):
    return eq(p, tup, ("tup", two)) or all(eq(p, a, b) for a, b in zip(tup[1], two))


def transformer_inverse(ctx):
    """Decoding undoes encoding, for every transformer."""
    words = [C(w) for w in ("u", "z", "v", "y", "w")]
    x = P("x")
    for c in transformers(ctx):
        ctx.ob(f"{c.name}: decode undoes encode")
        fields = {f[0] for f in c.all_fields()}
        if "choices" in fields:
            for n in range(2, 6):
                categorical(ctx, c, words[:n])
        else:
            ctx.need("original_domain" in fields, f"an unknown kind of transformer: {c.name}")
            numerical(ctx, c)


def made(ctx, c, **f):
    """Instances of a dataclass after __post_init__: [(path, object)]"""
    post = c.find_method("__post_init__")
    i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx))
    out = []
    for p in i.run(post, self_term=new(c.qual, **f), exact_self=c):
        if p.outcome[0] == "return":
            o = next(k[0] for k in p.state.heap if k[0][0] == "o" and k[0][2] == c.qual)
            out.append((p, o))
    ctx.need(out, f"{c.name} is not made")
    return out


def ints_of(ctx, p, t):
    """The literal integers a tensor is made of."""
    for y in subterms(fz(p, t)):
        if y[0] == "call" and y[2] == "torch.tensor" and y[4]:
            l = fz(p, y[4][0])
            if l[0] in ("list", "tup") and all(v[0] == "c" for v in l[1]):
                return [v[2] for v in l[1]]
        if y[0] == "op" and y[1] == "torch.tensor" and y[2][0] in ("list", "tup") and all(v[0] == "c" for v in y[2][1]):
            return [v[2] for v in y[2][1]]
    return None


def categorical(ctx, c, choices):
    n = len(choices)
    for p, o in made(ctx, c, choices=("list", tuple(choices))):
        dom = fz(p, field(p, o, "domain") or NONE)
        ctx.need(dom[0] == "call", f"{c.name}: the domain is not followed")
        kw = dict(dom[5])
        if tail(dom[2]) == "indices":
            kind_, size = "int", kw.get("n")
        elif tail(dom[2]) == "floating":
            kind_, size = "unit", kw.get("bins")
            if kw.get("lower") not in (C(0), C(0.0)) or kw.get("upper") not in (C(1), C(1.0)):
                ctx.viol(c.qual, f"the domain of the column is {show(dom)[:200]}", p)
        else:
            raise AnalysisBroken(f"{c.name}: the domain {show(dom)[:200]}")
        if size != C(n):
            ctx.viol(c.qual, f"{n} choices are encoded in a domain of {show(size or NONE)}", p)
        if kw.get("is_categorical") != TRUE:
            ctx.viol(c.qual, "the column of a categorical is not marked as categorical", p)
        vals = ("list", tuple(choices))
        i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx))
        for q in i.run(c.find_method("encode"), args={"x": vals, "out": NONE}, self_term=o, st=p.state, exact_self=c):
            if q.outcome[0] != "return":
                ctx.viol(c.qual + ".encode", f"{n} choices can not be encoded", q)
                continue
            ints = ints_of(ctx, q, q.outcome[1])
            ctx.need(ints is not None and len(ints) == n, f"{c.name}.encode is not followed: {show(fz(q, q.outcome[1]))[:200]}")
            if sorted(ints) != list(range(n)):
                ctx.viol(c.qual + ".encode", f"{n} different choices are encoded as {ints}", q)
                continue
            i2 = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx), models={".tolist": ("list", tuple(C(k) for k in ints))})
            n0 = len(q.events)
            for r in i2.run(c.find_method("decode"), args={"x": P("x")}, self_term=o, st=q.state, exact_self=c):
                if r.outcome[0] != "return":
                    ctx.viol(c.qual + ".decode", f"{n} choices can not be decoded", r)
                    continue
                v = fz(r, r.outcome[1])
                ctx.need(v[0] == "list" and all(e[0] == "c" for e in v[1]), f"{c.name}.decode is not followed: {show(v)[:200]}")
                if list(v[1]) != list(choices):
                    ctx.viol(c.qual + ".decode", f"{[e[2] for e in choices]} are encoded as {ints} and decoded as {[e[2] for e in v[1]]}", r)
                lists = [e[1] for e in r.events[n0:] if e[0] == "call" and e[1][2] == ".tolist"]
                ctx.need(len(lists) == 1, f"{c.name}.decode: the numbers are not followed")
                got = fz(r, lists[0][3])
                want = P("x") if kind_ == "int" else B("*", P("x"), C(n - 1))
                m = Norm()
                if not any(m.equal(strip_round(got), w) for w in (want,)):
                    if m.unknown - {"type"}:
                        raise AnalysisBroken(f"{c.name}.decode: {show(got)[:200]}")
                    ctx.viol(c.qual + ".decode", f"the choice is number {show(got)[:200]} of {n}, the column holds {'numbers' if kind_ == 'int' else 'multiples of 1 / (n - 1)'}", r)
            if kind_ == "unit":
                casts = [y for y in subterms(fz(q, q.outcome[1])) if y[0] == "call" and tail(y[2]) == "cast"]
                ctx.need(len(casts) == 1, f"{c.name}.encode: how numbers become the column")
                cs = casts[0]
                frm = fz(q, dict(cs[5]).get("frm", NONE))
                if fz(q, cs[3]) != dom:
                    ctx.viol(c.qual + ".encode", f"values are cast to {show(fz(q, cs[3]))[:200]}, the domain of the column is {show(dom)[:200]}", q)
                if not (frm[0] == "call" and tail(frm[2]) == "indices" and dict(frm[5]).get("n") == C(n)):
                    ctx.viol(c.qual + ".encode", f"the numbers of {n} choices are cast from {show(frm)[:200]}", q)


def strip_round(t):
    """Without conversions and rounding, which leave whole numbers alone."""
    while True:
        if t[0] == "call" and t[2].split(".")[-1] in ("round", "type", "to", "round_", "int", "long"):
            t = t[3] if t[2].startswith(".") and t[3] is not None else t[4][0]
        elif t[0] == "op" and t[1].split(".")[-1] in ("round", "type", "to", "int", "long") and len(t) > 2:
            t = t[2]
        else:
            return t


def numerical(ctx, c):
    x = P("x")
    for p, o in made(ctx, c, original_domain=P("hp.domain"), bins=NONE):
        dom = fz(p, field(p, o, "domain") or NONE)
        ctx.need(dom != NONE, f"{c.name}: the domain is not followed")
        unit = dom[0] == "gv" and dom[2] == "UNIT_FLOAT_DOMAIN" or dom[0] == "call" and tail(dom[2]) in ("floating", "unit_float") and all(dict(dom[5]).get(k, v) == v for k, v in (("lower", C(0.0)), ("upper", C(1.0))))
        i = ctx.interp(exc=False, literal_limit=LIT, opaque=opaque_domain(ctx))
        for q in i.run(c.find_method("encode"), args={"x": x, "out": NONE}, self_term=o, st=p.state, exact_self=c):
            if q.outcome[0] != "return":
                continue
            t = fz(q, q.outcome[1])
            core = conv(t)
            good = core[0] == "call" and conv_ends(core, q, dom, P("hp.domain"), unit, enc=True)
            ctx.need(core[0] == "call" and tail(core[2]).lstrip(".") in ("cast", "to_unit", "from_unit"), f"{c.name}.encode: {show(t)[:200]}")
            if not good:
                ctx.viol(c.qual + ".encode", f"a value of the hyperparameter is encoded as {show(core)[:300]}", q)
        for q in i.run(c.find_method("decode"), args={"x": x}, self_term=o, st=p.state, exact_self=c):
            if q.outcome[0] != "return":
                continue
            t = fz(q, q.outcome[1])
            while t[0] in ("call", "op") and (t[2] if t[0] == "call" else t[1]) == ".tolist":
                t = t[3] if t[0] == "call" else t[2]
            core = conv(t)
            ctx.need(core[0] == "call" and tail(core[2]).lstrip(".") in ("cast", "to_unit", "from_unit"), f"{c.name}.decode: {show(t)[:200]}")
            if not conv_ends(core, q, P("hp.domain"), dom, unit, enc=False):
                ctx.viol(c.qual + ".decode", f"a column is decoded as {show(core)[:300]}", q)


def conv(t):
    while True:
        if t[0] == "call" and t[2].split(".")[-1] in ("type", "to", "copy_", "clone") and t[2].startswith("."):
            t = t[3]
        elif t[0] == "op" and t[1] in (".type", ".to", ".clone"):
            t = t[2]
        else:
            return t


def conv_ends(call, p, to, frm, unit, enc):
    """The call takes the input from the domain ``frm`` to the domain ``to``."""
    kw = dict(call[5])
    x = kw.get("x") or (call[4][0] if call[4] else NONE)
    if P("x") not in set(subterms(fz(p, x))):
        return False
    recv = fz(p, call[3]) if call[3] is not None else NONE
    name = tail(call[2]).lstrip(".")
    if name == "cast":
        return recv == to and fz(p, kw.get("frm", NONE)) == frm
    if not unit:
        return False
    if enc:
        return name == "to_unit" and recv == frm
    return name == "from_unit" and recv == to


def domain_fields(ctx):
    """A domain has the bounds, scale and number of levels it is made with."""
    ctx.ob("Domain.floating / integer: bounds, log bounds and number of levels as given")
    ctx.ob("Domain.indices, as_integer_domain: n levels from 0 to n - 1, categorical as asked")
    opq = frozenset(DOM + "." + n for n in ("from_unit", "to_unit", "cast"))
    lo, up = P("lower"), P("upper")

    def field_is(p, where, f, name, wants, what):
        v = whole(f.get(name, NONE))
        n = Norm()
        for w in map(whole, wants):
            if v == w or w != NONE and v != NONE and v[0] != "tup" and n.equal(v, w):
                return
            if w[0] == v[0] == "tup" and len(v[1]) == len(w[1]) and all(n.equal(a, b) for a, b in zip(v[1], w[1])):
                return
        if n.unknown:
            raise AnalysisBroken(f"{where}: {name} is not an arithmetic expression: {show(v)[:200]}")
        ctx.viol(where, f"{what}: {name} is {show(v)[:200]}, not {show(wants[0])[:200]}", p)

    for kind_ in ("floating", "integer"):
        for log, bins, cat in itertools.product((FALSE, TRUE), (NONE, C(5)), (FALSE, TRUE)):
            what = f"{'log ' if log == TRUE else ''}{kind_} domain{' with bins' if bins != NONE else ''}"
            where = f"{DOM}.{kind_}"
            rnd = lambda x: fn("round", x)
            los, ups = ([lo], [up]) if kind_ == "floating" else ([rnd(lo)], [rnd(up)])
            card = [bins] if bins != NONE else [NONE] if kind_ == "floating" else [B("+", B("-", rnd(up), rnd(lo)), C(1))]
            logs = [NONE] if log == FALSE else [("tup", (fn("log", a), fn("log", b))) for a, b in ((lo, up), (los[0], ups[0]))]
            ps = ctx.paths(where, args={"log": log, "bins": bins, "is_categorical": cat}, exc=False, opaque=opq)
            ok = 0
            for p in ps:
                if p.outcome[0] != "return":
                    continue
                f = made_fields(ctx, p, where)
                ok += 1
                field_is(p, where, f, "lower", los, what)
                field_is(p, where, f, "upper", ups, what)
                field_is(p, where, f, "cardinality", card, what)
                field_is(p, where, f, "log_bounds", logs, what)
                if f.get("round") != (TRUE if kind_ == "integer" else FALSE):
                    ctx.viol(where, f"{what}: round is {show(f.get('round', NONE))[:100]}", p)
                if f.get("is_categorical") != cat:
                    ctx.viol(where, f"{what}: is_categorical is {show(f.get('is_categorical', NONE))[:100]}", p)
                u = f.get("is_unit_float", NONE)
                if u[0] == "op" and u[1] == "isinstance" and u[2][0] == "op" and u[2][1] == "float" and u[3] == ("x", "builtins.int"):
                    u = FALSE
                if u != FALSE and not (bins == NONE and log == FALSE and kind_ == "floating" and unit_bounds(p)):
                    ctx.viol(where, f"{what}: is treated as the unit interval ({show(u)[:100]})", p)
            ctx.need(ok or kind_ == "floating" and cat == TRUE and bins == NONE, f"{what} is not made")
    for where, n, self_term in ((DOM + ".indices", P("n"), None), (DOM + ".as_integer_domain", P("q"), new(DOM, cardinality=P("q"), is_categorical=P("is_categorical")))):
        kw = {"self_term": self_term, "exact_self": ctx.cls(DOM)} if self_term else {}
        ok = 0
        for p in ctx.paths(where, exc=False, opaque=opq, **kw):
            if p.outcome[0] != "return" or none_number(p):
                continue
            ok += 1
            f = made_fields(ctx, p, where)
            what = "indices"
            field_is(p, where, f, "lower", [C(0)], what)
            field_is(p, where, f, "upper", [B("-", n, C(1)), fn("round", B("-", n, C(1)))], what)
            m = Norm()
            c = whole(f.get("cardinality", NONE))
            if c == NONE or not m.equal(c, n):
                ctx.viol(where, f"{show(c)[:200]} levels", p)
            if f.get("is_categorical") != P("is_categorical"):
                ctx.viol(where, f"is_categorical is {show(f.get('is_categorical', NONE))[:100]}", p)
            if f.get("log_bounds") != NONE:
                ctx.viol(where, "indices are on a log scale", p)
        ctx.need(ok, f"{where} makes no domain")


def whole(t):
    """Without the roundings of numbers that are whole."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "op" and t[1] in ("int", "round", "float") and len(t) == 3:
        return whole(t[2])
    return tuple(whole(x) for x in t)


def unit_bounds(p):
    """The path knows that the bounds are 0 and 1."""
    vals = {C(0), C(1), C(0.0), C(1.0)}
    return sum(1 for a, v in p.facts.items() if a[0] == "eq" and v and (a[1] in vals or a[2] in vals)) >= 2


def made_fields(ctx, p, where):
    d = fz(p, p.outcome[1])
    ctx.need(d[0] == "new" and d[1] == DOM, f"{where}: the domain is not followed: {show(d)[:200]}")
    return dict(d[2])


def fold(t, env):
    """Value of an arithmetic expression at constants, or None."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "c" and isinstance(t[2], (int, float)):
        return t[2]
    if k == "bin":
        a, b = fold(t[2], env), fold(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if b else None, "**": a**b if abs(b) < 8 else None}.get(t[1])
        except ArithmeticError:
            return None
    if k == "op" and t[1] in ("torch.tensor", "float", "max", "min", "abs"):
        vs = [fold(x, env) for x in t[2:] if x[0] != "kw"]
        if not vs or None in vs:
            return None
        return {"max": max, "min": min, "abs": lambda x: abs(x[0])}.get(t[1], lambda x: x[0])(vs)
    if k == "call" and t[2] in ("torch.tensor", "torch.as_tensor") and t[4]:
        return fold(t[4][0], env)
    return None


def prior_shape(ctx):
    """The prior of a hyperparameter is centred at its default, and the narrower the more confidence there is."""
    ctx.ob("make_centered: a number's distribution is centred at its default, over the unit interval, narrower with confidence")
    ctx.ob("make_centered: a choice's distribution gives the default the weight of the confidence, the rest to the others")
    mk = ctx.func(PRIORS + ".Prior.make_centered")
    opq = opaque_domain(ctx) | frozenset(q for q in ctx.prog.funcs if "distributions" in q or q.startswith(PRIORS + ".CenteredPrior"))
    conf, center = P("m.conf"), P("m.center")
    for cat in (TRUE, FALSE):
        d = new(DOM, is_categorical=cat, lower=P("m.lower"), upper=P("m.upper"), cardinality=P("m.q"), log_bounds=NONE)
        ok = 0
        for p in ctx.paths(mk.qual, args={"domains": ("list", (d,)), "centers": ("list", (("tup", (center, conf)),)), "device": NONE}, exc=False, literal_limit=LIT, opaque=opq):
            if p.outcome[0] != "return" or none_number(p):
                continue
            ok += 1
            o = fz(p, p.outcome[1])
            v = dict(o[2]).get("distributions", NONE) if o[0] == "new" else NONE
            ctx.need(v[0] in ("list", "tup") and len(v[1]) == 1 and v[1][0][0] == "new", "the distribution of the prior is not followed")
            f = dict(v[1][0][2])
            dist, dom = f.get("distribution", NONE), f.get("domain", NONE)
            ctx.need(dist[0] == "call", f"the distribution of the prior: {show(dist)[:200]}")
            if cat == FALSE:
                kw = dict(dist[5])
                if dom != ("gv", "neps.search_spaces.domain", "UNIT_FLOAT_DOMAIN"):
                    ctx.need(dom[0] != "call", "the domain of the distribution")
                    ctx.viol(mk.qual, f"the distribution over the unit interval is read as {show(dom)[:200]}", p)
                ctx.need("loc" in kw and "scale" in kw, "the distribution of a number")
                loc = kw["loc"]
                while loc[0] == "op" and loc[1] == "torch.tensor":
                    loc = loc[2]
                if not (loc[0] == "call" and tail(loc[2]) in ("to_unit_one", "cast_one") and fz(p, loc[3]) in (d, ("gv", "neps.search_spaces.domain", "UNIT_FLOAT_DOMAIN")) and dict(loc[5]).get("x") == center):
                    ctx.need(loc[0] in ("p", "bin") or loc[0] == "call" and loc[2].startswith("Domain."), f"the centre of the distribution: {show(loc)[:200]}")
                    ctx.viol(mk.qual, f"the distribution over the unit interval is centred at {show(loc)[:200]}", p)
                vals = [fold(kw["scale"], {conf: c}) for c in (0.25, 0.5, 0.75)]
                ctx.need(None not in vals, f"the width of the distribution: {show(kw['scale'])[:200]}")
                if not vals[0] > vals[1] > vals[2] > 0:
                    ctx.viol(mk.qual, f"the widths for low, medium and high confidence are {vals}", p)
            else:
                if dom != d:
                    ctx.viol(mk.qual, f"the choices drawn are read as {show(dom)[:200]}", p)
                kw = dict(dist[5])
                w = kw.get("probs") or (dist[4][0] if dist[4] else None)
                ctx.need(w is not None and w[0] == "call" and w[2] == "torch.full" and len(w[4]) == 2, "the weights of the choices")
                sets = [e for e in p.events if e[0] == "setitem" and fz(p, e[1]) == w]
                if len(sets) != 1:
                    ctx.viol(mk.qual, f"{len(sets)} of the choices are given the weight of the default", p)
                    continue
                i, val = fz(p, sets[0][2]), fz(p, sets[0][3])
                if center not in set(subterms(i)):
                    ctx.viol(mk.qual, f"the weight of the default goes to {show(i)[:200]}", p)
                size = w[4][0][1][0] if w[4][0][0] == "tup" else w[4][0]
                for q in (2, 3, 7):
                    got = [(fold(val, {conf: c, size: q}), fold(w[4][1], {conf: c, size: q})) for c in (0.25, 0.5, 0.75)]
                    ctx.need(all(None not in g for g in got), f"the weights of the choices: {show(val)[:100]}, {show(w[4][1])[:100]}")
                    if not got[0][0] < got[1][0] < got[2][0] or any(abs(a + (q - 1) * b - 1) > 1e-9 for a, b in got):
                        ctx.viol(mk.qual, f"with {q} choices, the weights of the default and of the others are {got}", p)
        ctx.need(ok, "no prior is made")


def samplers(ctx):
    """Every sampler gives its draws in the domains that were asked for."""
    base = ctx.cls("neps.sampling.samplers.Sampler")
    unit = ("gv", "neps.search_spaces.domain", "UNIT_FLOAT_DOMAIN")
    cs = [c for c in ctx.prog.classes.values() if base in c.mro() and "sample" in c.methods and not c.methods["sample"].is_abstract]
    ctx.need(len(cs) >= 4, "the samplers")
    for c in cs:
        f = c.methods["sample"]
        ctx.ob(f"{c.name}.sample: draws are translated to the domains asked for")
        ok = 0
        for p in ctx.paths(f.qual, exc=False, opaque=opaque_domain(ctx) | {base.qual + ".sample"}, args={"to": P("to")}):
            if p.outcome[0] != "return":
                continue
            moved = [e[1] for e in p.events if e[0] == "call" and (tail(e[1][2]) in ("translate", "cast", "from_unit") or tail(e[1][2]).lstrip(".") == "sample" and "to" in dict(e[1][5]))]
            if not moved:
                loops = any(t[0] in ("phi", "g", "el") for e in p.events for t in subterms(e) if isinstance(t, tuple)) or c.name.startswith("Weighted")
                if not loops:
                    ctx.viol(f.qual, f"draws are returned without being moved to the domains asked for: {show(fz(p, p.outcome[1]))[:200]}", p)
                continue
            ok += 1
            for m in moved:
                to = dict(m[5]).get("to", m[3])
                if to != P("to"):
                    ctx.viol(f.qual, f"draws are moved to {show(fz(p, to))[:200] if to else 'nothing'}", p)
                frm = dict(m[5]).get("frm")
                if tail(m[2]) == "translate" and c.name != "CenteredPrior" and frm is not None and fz(p, frm) != unit:
                    ctx.need(fz(p, frm)[0] in ("gv", "p", "list"), f"{c.name}: the domain of the draws")
                    ctx.viol(f.qual, f"draws from the unit interval are read as {show(fz(p, frm))[:200]}", p)
        ctx.need(ok, f"{c.name}.sample is not followed")
