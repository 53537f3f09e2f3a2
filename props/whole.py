"""Guarantees across objects: snapshots, independence, repeatable reads, interchangeable backends (T05, P05, M06, I01, B01)."""
from .build import NUM, SIG, build_model, data_hist, expected, gauss, layout, nll_poisson, params_of, same_params, split, std_edges, std_range, template_for
from .fitter import S1, S2, S3, check_problem, configure, current, full_nll, names_of, setup, start_of
from .hist import cp
from .minimizer import NAMES, p04_scipy, bound, bounds_of, holds, make, norm, same_bound
from .toys import attach, results, toy_setup, unavailable
from .template import make_hist, make_template, oracle_fractions, prod, rel_err


# ---------------------------------------------------------------- T05
def t05(c, shape, steps, ops, mode="conc"):
    n = prod(shape)
    dim = len(shape)
    if mode == "sym":
        h, cnt, var, E = make_hist(c, "", shape, lo=0.5, elo=0.125)
    else:
        hm = c.mod("templatefitter.histograms")
        cnt, sig = (NUM * 3)[:n], (SIG * 3)[:n]
        E = std_edges(c, shape)
        H = hm.Hist1d if dim == 1 else hm.Hist2d
        h = H.from_binned_data(c.arr(cnt).reshape(*shape), E[0] if dim == 1 else tuple(E), c.arr(sig).reshape(*shape))
        var = [s * s for s in sig]
    cnt, var = list(cnt), list(var)
    made = []
    nu = [c.real(f"t{i}", -0.5, 0.5) for i in range(n)]

    def create():
        made.append(dict(t=make_template(c, f"t{len(made)}", h, dim), cnt=list(cnt), var=list(var), y=c.isum(cnt), nui=[0.0] * n))
    create()
    edges = [c.vec(cp(e)) for e in E]
    mids = [[(a + b) / 2 for a, b in zip(e, e[1:])] for e in edges]

    def verify(what):
        for k, r in enumerate(made):
            t = r["t"]
            rel = rel_err(c, r["var"], r["cnt"])
            c.eq(t.params, [r["y"]] + r["nui"], f"{what}: parameters of template {k}")
            c.eq(t.fractions(c.arr(nu)), oracle_fractions(c, r["cnt"], rel, nu), f"{what}: fractions of template {k}")
            want = [r["y"] * f for f in oracle_fractions(c, r["cnt"], rel, r["nui"])]
            c.eq(c.vec(t.values), want, f"{what}: values of template {k}")
            c.eq(c.vec(t.errors), [a * b for a, b in zip(rel, want)], f"{what}: errors of template {k}")
            c.eq(t.cov_mat, [[r["var"][i] if i == j else 0.0 for j in range(n)] for i in range(n)], f"{what}: covariance of template {k}")
        c.eq(c.vec(h.bin_counts), cnt, f"{what}: histogram counts")
        c.eq(c.vec(h.bin_errors_sq), var, f"{what}: histogram squared errors")
    verify("initially")
    for s in range(steps):
        op = ops[c.pick(len(ops), f"op{s}")]
        if op == "fill":
            i = c.pick(n, f"cell{s}")
            w = c.real(f"w{s}", 2.0**-6, 900)
            ix = (i,) if dim == 1 else (i // shape[1], i % shape[1])
            xs = [mids[d][j] for d, j in enumerate(ix)]
            if dim == 1:
                h.fill(c.arr(xs), c.arr([w]))
            else:
                h.fill((c.arr(xs[:1]), c.arr(xs[1:])), c.arr([w]))
            cnt[i] = cnt[i] + w
            var[i] = var[i] + w * w
        elif op == "second":
            create()
        elif op == "reset":
            k = c.pick(len(made), f"which{s}")
            made[k]["t"].reset()
            made[k]["y"] = c.isum(made[k]["cnt"])
            made[k]["nui"] = [0.0] * n
        elif op == "set":
            k = c.pick(len(made), f"which{s}")
            y = c.real(f"y{s}", 2.0**-6, 4000)
            made[k]["t"].params = c.arr([y] + nu)
            made[k]["y"], made[k]["nui"] = y, list(nu)
        verify(f"step {s} {op}")


# ---------------------------------------------------------------- P05
def p05(c, backend, names, runs=2, hess="any"):
    """what was returned for one minimisation is not touched by later ones, and a used minimiser reports like a fresh one"""
    c.env.hessian = "stub"
    c.env.light_cov = True
    names = NAMES[names]
    n = len(names)
    mz, f, seen = make(c, backend, names)
    fresh, _, _ = make(c, backend, names)
    c.env.scipy_status = lambda k, rec: True if k == 0 else c.flag(f"ok{k}")
    c.env.minuit_status = lambda k, rec: (True,) * 4 if k == 0 else [(True,) * 4, (True, True, True, False), (False, True, True, True)][c.pick(3, f"st{k}")]
    fixed = [i for i in range(n) if c.flag(f"fix{i}")]
    for i in fixed:
        mz.set_param_fixed(i)
    kept = []

    def verify(what):
        for k, (res, x, e, cov, cor, fv, ok) in enumerate(kept):
            c.eq(res.params.values, x, f"{what}: values of result {k}")
            c.eq(res.params.errors, e, f"{what}: errors of result {k}")
            c.eq(res.params.covariance, cov, f"{what}: covariance of result {k}")
            c.eq(res.params.correlation, cor, f"{what}: correlation of result {k}")
            c.eq(res.fcn_min_val, fv, f"{what}: function value of result {k}")
            c.check(bool(res.succes) == ok, f"{what}: success flag of result {k}")
            for i in range(n):
                c.eq(res.params[names[i]][0], x[i], f"{what}: value of {names[i]} in result {k}")
    for k in range(runs):
        start = [c.real(f"s{k}_{i}", -900, 900) for i in range(n)]
        gh = (c.flag(f"hess{k}") if hess == "any" else hess) if backend == "scipy" else True
        sa = c.arr(start)
        try:
            res = mz.minimize(sa, get_hesse=True, verbose=0) if gh else mz.minimize(sa, get_hesse=False, verbose=0)
        except RuntimeError:
            c.check(k > 0 and c.env.min_calls[-1]["k"] == k and (not c.env.min_calls[-1]["ok"]), f"minimisation {k}: failure only if the backend failed")
            verify(f"after failed minimisation {k}")
            continue
        rec = c.env.min_calls[-1]
        c.eq(res.params.values, rec["x"], f"result {k}: values of its own minimisation")
        c.eq(res.fcn_min_val, rec["f"], f"result {k}: function value of its own minimisation")
        if not gh:
            P, Q = res.params, fresh.params
            for what, a, b in (("errors", P.errors, Q.errors), ("covariance", P.covariance, Q.covariance), ("correlation", P.correlation, Q.correlation)):
                c.eq(a, b, f"result {k}: no {what} of an earlier minimisation")
        verify(f"after minimisation {k}")
        P = res.params
        kept.append((res, c.vec(cp(P.values)), c.vec(cp(P.errors)), cp(P.covariance), cp(P.correlation), res.fcn_min_val, bool(res.succes)))
        if c.flag(f"reuse{k}"):
            # the caller goes on with the vector given as start
            sa[0] = -77.0
            verify(f"start vector {k} modified")
        c.eq(mz.params.values, rec["x"], f"minimizer after minimisation {k}")
        c.eq(mz.param_values, rec["x"], f"minimizer values after minimisation {k}")


# ---------------------------------------------------------------- M06
def m06(c, spec, procs, pairs, toys=True, free=None):
    """reading twice gives the same, whatever is read in between and whatever the caller does with it"""
    m, info, dat = build_model(c, spec, procs, data="conc")
    n, k = len(layout(spec, procs)), len(procs)
    names = names_of(spec, procs)
    for name, ts in info.items():
        for q in ts:
            q.t.yield_param = c.real(f"y_{name}{q.proc}", 2.0**-6, 4000)
            q.t.nui_params = c.arr([c.real(f"t_{name}{q.proc}{i}", -0.5, 0.5) for i in range(q.n)])
    nll = m.create_nll()
    z = [c.real(f"y{i}", 2.0**-6, 4000) for i in range(k)] + [c.real(f"t{i}", -0.5, 0.5) if free is None or i in free else (i % 7 - 3) / 16 for i in range(n - k)]
    y, t = split(spec, procs, z)
    for name in info:
        for v in expected(c, info[name], y, t[name]):
            c.assume(v >= 2.0**-20)
    p0 = params_of(m)
    d0 = {name: c.vec(cp(m.channels[name].data_bin_counts)) for name in info}
    chs = [m.channels[name] for name in info]
    tpl = [q.t for name in info for q in info[name]]
    own = {}

    def spoil(a):
        a[(0,) * a.ndim] = -77.0

    def hists(d):
        out = []
        for name in info:
            h = d[name]
            out += c.vec(cp(h.bin_counts)) + c.vec(cp(h.bin_errors_sq))
        return out

    def o_nll():
        za = c.arr(z)
        r = nll(za)
        c.eq(za, z, "the likelihood leaves its argument alone")
        return [r]

    def o_newnll():
        return [m.create_nll()(c.arr(z))]

    def o_x0():
        a = nll.x0
        r = c.vec(cp(a))
        spoil(a)
        return r

    def o_names():
        a = nll.param_names
        r = [hash_(s) for s in a]
        a[0] = "spoiled"
        c.check(list(nll.param_names) == names, "parameter names")
        return r

    def o_yields():
        a = m.process_yields
        r = c.vec(cp(a)) + c.vec(cp(m.process_yield_errors)) + [m.get_yield(p) for p in procs]
        spoil(a)
        return r

    def o_nui():
        a = m.nui_params
        r = c.vec(cp(a))
        spoil(a)
        return r

    def o_tpl():
        r = []
        for q in tpl:
            v, e = q.values, q.errors
            r += c.vec(cp(v)) + c.vec(cp(e)) + [q.yield_param] + c.vec(cp(q.nui_params)) + c.vec(cp(q.fractions(q.nui_params)))
            spoil(v)
            spoil(e)
        return r

    def o_asimov():
        d = m.generate_asimov_dataset(integer_values=False)
        r = hists(d)
        for name in info:
            spoil(d[name].bin_counts)
        return r

    def o_toy():
        d = m.generate_toy_dataset()
        for name in info:
            spoil(d[name].bin_counts)
        return []

    def o_expect():
        r = []
        for ch, (name, shape, ps) in zip(chs, spec):
            yy = [y[p] for p in ps]
            tt = [x for p in ps for x in t[name][p]]
            a = ch.bin_counts_from_param_values(c.arr(yy + tt))
            r += c.vec(cp(a)) + [ch.nll_contribution(c.arr(yy), c.arr(tt))]
            spoil(a)
        return r
    ops = dict(nll=o_nll, newnll=o_newnll, x0=o_x0, names=o_names, yields=o_yields, nui=o_nui, tpl=o_tpl, asimov=o_asimov, toy=o_toy, expect=o_expect)
    names_o = [o for o in ops if toys or o != "toy"]
    a = names_o[c.pick(len(names_o), "first")] if pairs is None else pairs
    first = ops[a]()
    b = names_o[c.pick(len(names_o), "between")]
    other = ops[b]()
    again = ops[a]()
    c.eq(again, first, f"{a} read again after {b}")
    same_params(c, params_of(m), p0, f"parameters after reading {a} and {b}")
    for name in info:
        c.eq(c.vec(m.channels[name].data_bin_counts), d0[name], f"data of {name} after reading {a} and {b}")
    if b != a:
        c.eq(ops[b](), other, f"{b} read again after {a}")


def hash_(s):
    return float(sum((i + 1) * ord(ch) for i, ch in enumerate(s)))


# ---------------------------------------------------------------- I01
def i01_models(c, spec1, spec2, procs1, procs2, steps, ops):
    """two models side by side: whatever is done to the one leaves the other as it was"""
    m1, info1, dat1 = build_model(c, spec1, procs1, data="conc", key="A")
    m2, info2, dat2 = build_model(c, spec2, procs2, data="conc", key="B", eff=0.5)
    side = [dict(m=m1, info=info1, dat=dat1, spec=spec1, procs=procs1, cons={}), dict(m=m2, info=info2, dat=dat2, spec=spec2, procs=procs2, cons={})]
    for j, s in enumerate(side):
        n, k = len(layout(s["spec"], s["procs"])), len(s["procs"])
        s["z"] = [c.real(f"{j}y{i}", 2.0**-6, 4000) for i in range(k)] + [c.real(f"{j}t{i}", -0.5, 0.5) for i in range(n - k)]
        s["want"] = full_nll(c, s["spec"], s["procs"], s["info"], s["dat"], s["z"], {})
        s["par"] = params_of(s["m"])

    def verify(what):
        for j, s in enumerate(side):
            m = s["m"]
            c.check(list(m.processes) == s["procs"], f"{what}: processes of model {j}")
            c.check(list(m.channels) == [x[0] for x in s["spec"]], f"{what}: channels of model {j}")
            c.check(list(m.create_nll().param_names) == names_of(s["spec"], s["procs"]), f"{what}: names of model {j}")
            same_params(c, params_of(m), s["par"], f"{what}: parameters of model {j}")
            c.check(list(m.constrained_yields) == list(s["cons"]), f"{what}: constraints of model {j}")
            for name in s["info"]:
                c.eq(c.vec(m.channels[name].data_bin_counts), s["dat"][name], f"{what}: data of model {j}")
                for q in s["info"][name]:
                    c.eq(m.channels[name].efficiencies[q.proc], q.eff, f"{what}: efficiency in model {j}")
    verify("initially")
    for i in range(steps):
        j = c.pick(2, f"side{i}")
        s = side[j]
        m, n, k = s["m"], len(s["z"]), len(s["procs"])
        op = ops[c.pick(len(ops), f"op{i}")]
        if op == "update":
            m.update_parameters(c.arr(s["z"]))
            y, t = split(s["spec"], s["procs"], s["z"])
            s["par"] = [[[y[q.proc] * q.eff] + t[name][q.proc] for q in s["info"][name]] for name in s["info"]]
        elif op == "reset":
            m.reset_parameters()
            s["par"] = [[[q.initial] + [0.0] * q.n for q in s["info"][name]] for name in s["info"]]
        elif op == "data":
            name, shape, ps = s["spec"][0]
            h, d = data_hist(c, f"new{i}", shape, (), "sym", lo=1)
            m.add_data(**{name: h})
            s["dat"][name] = d
        elif op in ("cons", "consq"):
            p = "p" if op == "cons" else "q"
            v, e = c.real(f"cv{i}", -40, 4000), c.real(f"ce{i}", 2.0**-6, 900)
            m.add_gaussian_constraint_on_yield(p, v, e)
            s["cons"][p] = (v, e)
        elif op == "nll":
            c.eq(m.create_nll()(c.arr(s["z"])), full_nll(c, s["spec"], s["procs"], s["info"], s["dat"], s["z"], s["cons"]), f"step {i}: likelihood of model {j}")
        verify(f"step {i} {op} on {j}")
    for j, s in enumerate(side):
        c.eq(s["m"].create_nll()(c.arr(s["z"])), full_nll(c, s["spec"], s["procs"], s["info"], s["dat"], s["z"], s["cons"]), f"likelihood of model {j} at the end")


def i01_minimizers(c, backends, steps):
    """two minimisers, each with its own fixed parameters and bounds"""
    c.env.hessian = "stub"
    c.env.light_cov = True
    names = NAMES[0]
    n = 3
    ms = [make(c, b, names) for b in backends]
    fixed = [set(), set()]
    bnd = [[(None, None)] * n, [(None, None)] * n]
    res = [None, None]
    ops = ["fix 0", "fix 2", "bound 1", "release", "min"]
    count = 0

    def run(j, tag):
        nonlocal count
        start = [c.real(f"s{count}_{i}", -900, 900) for i in range(n)]
        count += 1
        mz, f, seen = ms[j]
        r = mz.minimize(c.arr(start), verbose=0)
        rec = c.env.min_calls[-1]
        holds(c, rec, sorted(fixed[j]), start, bnd[j], tag, f, seen=seen)
        return r, c.vec(rec["x"])
    for s in range(steps):
        j = c.pick(2, f"side{s}")
        op = ops[c.pick(len(ops), f"op{s}")]
        mz = ms[j][0]
        if op.startswith("fix"):
            i = int(op[4:])
            mz.set_param_fixed(i)
            fixed[j].add(i)
        elif op.startswith("bound"):
            i = int(op[6:])
            b = bound(c, f"b{s}", "both")
            mz.set_param_bounds(names[i], b)
            bnd[j][i] = b
        elif op == "release":
            mz.release_params()
            fixed[j].clear()
        else:
            res[j] = run(j, f"step {s}")
    for j in (0, 1):
        if res[j]:
            c.eq(res[j][0].params.values, res[j][1], f"result of minimiser {j}")
            c.eq(ms[j][0].param_values, res[j][1], f"values of minimiser {j}")
    for j in (0, 1):
        run(j, f"minimiser {j} at the end")


def i01_fitters(c, spec, procs, backends, how, steps):
    """two fitters on one model: configuration is not shared"""
    m, info, dat = setup(c, spec, procs)
    T = c.mod("templatefitter.fitter").TemplateFitter
    F = [T(m, b) for b in backends]
    names = names_of(spec, procs)
    n, k = len(names), len(procs)
    st = [configure(c, F[0], names, k, how)[:2], (set(), [(None, None)] * n)]
    for s in range(steps):
        j = c.pick(2, f"side{s}")
        start = start_of(c, procs, info, current(c, info))
        F[j].do_fit(update_templates=False, get_hesse=False, verbose=0)
        check_problem(c, c.env.min_calls[-1], m, spec, procs, info, dat, {}, st[j][0], start, st[j][1], f"fit {s} of fitter {j}", fun=False)


def i01_toys(c, spec, procs, backends, steps):
    """two toy studies of one model: each keeps its own results"""
    m, info, st, status = toy_setup(c, spec, procs, "", False)
    attach(c, "", status, lambda j: True)
    T = c.mod("templatefitter.toy_study").ToyStudy
    S = [T(m, b) for b in backends]
    recs = [None, None]

    def verify(what):
        for j in range(2):
            if recs[j] is None:
                unavailable(c, S[j], procs, f"{what}: of study {j}")
            else:
                results(c, S[j], recs[j], backends[j], True, f"{what}: study {j}")
    verify("initially")
    for s in range(steps):
        j = c.pick(2, f"side{s}")
        base = len(c.env.min_calls)
        S[j].do_experiments(n_exp=1 + (s + j) % 2)
        recs[j] = c.env.min_calls[base:]
        c.check(len(recs[j]) == 1 + (s + j) % 2, f"step {s}: number of fits of study {j}")
        verify(f"step {s}")


# ---------------------------------------------------------------- B01
def b01_problem(c, spec, procs, how, kind, ids):
    """the same request through both backends poses the same problem"""
    m, info, dat = setup(c, spec, procs)
    T = c.mod("templatefitter.fitter").TemplateFitter
    names = names_of(spec, procs)
    n, k = len(names), len(procs)
    fn = c.flag("fixnui")
    lim = c.flag("limits") if kind == "fit" else False
    upd = c.flag("update") if kind == "fit" else False
    verbose = c.flag("verbose")
    los, his = (c.real("lo", -300, -2.0**-6), c.real("hi", 2.0**-6, 300)) if lim else (None, None)
    move = [c.real(f"u{i}", 2.0**-6 if i < k else -0.5, 4000 if i < k else 0.5) for i in range(n)]
    recs = []
    # bounds are requested with the same numbers from both fitters
    for b in ids:
        m.update_parameters(c.arr(move))
        F = T(m, b)
        fixed, bnd, _ = configure(c, F, names, k, how)
        start = start_of(c, procs, info, current(c, info))
        base = len(c.env.min_calls)
        if kind == "fit":
            F.do_fit(update_templates=upd, verbose=verbose, fix_nui_params=fn, nui_param_limits=(los, his) if lim else None)
        else:
            F.get_significance(procs[0], verbose=verbose, fix_nui_params=fn)
        rec = c.env.min_calls[base]
        c.check(rec["kind"] == {"scipy": "scipy", "iminuit": "minuit"}[b.lower()], f"{b} selects its backend")
        f2 = set(fixed) | (set(range(k, n)) if fn else set())
        b2 = [(bnd[i] if bnd[i] != (None, None) or i < k or not lim else (los, his)) for i in range(n)]
        if kind == "fit" and lim:
            b2 = [bnd[i] if i < k or i in asked(bnd) else (los, his) for i in range(n)]
        check_problem(c, rec, m, spec, procs, info, dat, {}, f2, start, b2, f"{kind} with {b}", fun=False)
        recs.append(rec)
    a, b = recs
    if len(a["x0"]) == len(b["x0"]) == n:
        c.eq(a["x0"], c.vec(b["x0"]), "same start values")
        z = [c.real(f"zy{i}", 2.0**-6, 4000) for i in range(k)] + [c.real(f"zt{i}", -0.5, 0.5) for i in range(n - k)]
        y, t = split(spec, procs, z)
        for name in info:
            for v in expected(c, info[name], y, t[name]):
                c.assume(v >= 2.0**-20)
        c.eq(a["fun"](c.arr(z), *a["args"]), b["fun"](c.arr(z), *b["args"]), "same likelihood")


def asked(bnd):
    return {i for i, b in enumerate(bnd) if not (b[0] is None and b[1] is None)}


def b01_factory(c):
    mm = c.mod("templatefitter.minimizer")
    names = NAMES[0]
    seen = []

    def f(x):
        return x[0]
    for b, want in (("scipy", "scipy"), ("SciPy", "scipy"), ("SCIPY", "scipy"), ("iminuit", "iminuit"), ("iMinuit", "iminuit"), ("IMINUIT", "iminuit")):
        mz = mm.minimizer_factory(b, f, list(names))
        c.env.hessian = "stub"
        c.env.light_cov = True
        mz.minimize(c.arr([c.real(f"s{i}", -900, 900) for i in range(3)]), verbose=c.flag(f"verbose {b}"))
        c.check(c.env.min_calls[-1]["kind"] == {"scipy": "scipy", "iminuit": "minuit"}[want], f"{b} selects {want}")
        c.check(list(mz.params.names) == names, f"{b}: names")
    for b in ("", "minuit", "scipy ", "slsqp", "both", "iminuit2"):
        c.raises(lambda: mm.minimizer_factory(b, f, list(names)), Exception, f"unknown backend {b!r}")


OPS5 = ["fill", "second", "reset", "set"]
OPSI = ["update", "reset", "data", "cons", "nll"]
SA = [["a", [2], ["q", "p"]]]
SB = [["a", [1], ["p"]], ["b", [2], ["p", "q"]]]
B = ("scipy", "iminuit")
OBS = ["nll", "newnll", "x0", "names", "yields", "nui", "tpl", "asimov", "toy", "expect"]
SM = [["a", [2], ["q", "p"]], ["b", [1, 2], ["p"]]]
PROPS = {
    "T05": dict(
        harnesses={"snapshot": dict(fn=t05, quick=[dict(shape=[2], steps=2, ops=OPS5), dict(shape=[2], steps=1, ops=OPS5, mode="sym"), dict(shape=[1, 2], steps=2, ops=["fill", "reset"]), dict(shape=[2, 2], steps=1, ops=["fill", "second"])],
                                    thorough=[dict(shape=[2], steps=3, ops=OPS5), dict(shape=[2], steps=2, ops=OPS5, mode="sym"), dict(shape=[3], steps=2, ops=OPS5), dict(shape=[1, 2], steps=3, ops=OPS5), dict(shape=[2, 2], steps=2, ops=OPS5)])},
        bounds="1D and 2D histograms with 2 bins (thorough 3, 2x2), every sequence of 1-2 (thorough 3) operations out of filling the histogram further, creating another template from it, setting parameters and resetting; any weights, parameters and (small configurations) contents"),
    "P05": dict(
        harnesses={"results": dict(fn=p05, quick=[dict(backend="scipy", names=3), dict(backend="iminuit", names=3), dict(backend="scipy", names=0, hess=True), dict(backend="iminuit", names=0)],
                                   thorough=[dict(backend="scipy", names=3, runs=3), dict(backend="iminuit", names=3, runs=3), dict(backend="scipy", names=0), dict(backend="iminuit", names=0, runs=3)]),
                   "changed": dict(fn=p04_scipy, quick=[dict(n=2, repeat=2, drift=True)], thorough=[dict(n=1, repeat=3, drift=True), dict(n=2, repeat=2, drift=True)])},
        bounds="2-3 parameters, both backends, 2 (thorough 3) minimisations with the same minimiser with or without Hesse matrix, any fixed subset, start vectors and backend results; objectives (quartic, 1-2 parameters, free coefficients) that have changed between minimisations"),
    "M06": dict(
        harnesses={"reads": dict(fn=m06, quick=[dict(spec=SM, procs=["p", "q"], pairs=o) for o in OBS if o != "toy"] + [dict(spec=SB, procs=["q", "p"], pairs="asimov")] + [dict(spec=[["a", [2], ["p"]]], procs=["p"], pairs=o) for o in ("nui", "yields", "expect")],
                                 thorough=[dict(spec=s, procs=p, pairs=o) for s, p in ((SM, ["p", "q"]), (SB, ["q", "p"]), (S3, ["r", "p", "q"]), ([["a", [2], ["p"]]], ["p"])) for o in OBS if o != "toy"])},
        bounds="models of 2 channels (1D and 2D, 2-3 processes), every ordered pair out of 10 kinds of reads, with the caller modifying what it was given; any parameters and evaluation point"),
    "I01": dict(
        harnesses={"models": dict(fn=i01_models, quick=[dict(spec1=SA, spec2=SB, procs1=["p", "q"], procs2=["q", "p"], steps=2, ops=OPSI), dict(spec1=SA, spec2=SB, procs1=["p", "q"], procs2=["q", "p"], steps=3, ops=["cons", "consq"])],
                                  thorough=[dict(spec1=SA, spec2=SB, procs1=["p", "q"], procs2=["q", "p"], steps=3, ops=OPSI), dict(spec1=SB, spec2=SB, procs1=["p", "q"], procs2=["p", "q"], steps=2, ops=OPSI)]),
                   "minimizers": dict(fn=i01_minimizers, quick=[dict(backends=["scipy", "scipy"], steps=2), dict(backends=["iminuit", "iminuit"], steps=2), dict(backends=["iminuit", "scipy"], steps=1)],
                                      thorough=[dict(backends=[a, b], steps=3) for a, b in (("scipy", "scipy"), ("iminuit", "iminuit"), ("scipy", "iminuit"))], opts=dict(max_paths=60000)),
                   "fitters": dict(fn=i01_fitters, quick=[dict(spec=S2, procs=["p", "q"], backends=[b, b], how=h, steps=2) for b in B for h in (["fix 4 i", "bound 1 both", "bound 0 lower"], ["allnui"])],
                                   thorough=[dict(spec=S2, procs=["p", "q"], backends=[a, b], how=h, steps=3) for a in B for b in B for h in (["fix 4 i", "bound 1 both", "bound 0 lower"], ["allnui"], ["fix 1", "fix 3"])]),
                   "toys": dict(fn=i01_toys, quick=[dict(spec=SA, procs=["p", "q"], backends=[b, b], steps=2) for b in B], thorough=[dict(spec=SA, procs=["p", "q"], backends=[a, b], steps=3) for a in B for b in B])},
        bounds="pairs of models (1-2 channels, 2 processes, names in common), of minimisers (3 parameters), of fitters and of toy studies of one model; every sequence of 2 (thorough 3) operations on either of the two; any values"),
    "B01": dict(
        harnesses={"problem": dict(fn=b01_problem, quick=[dict(spec=S2, procs=["p", "q"], how=h, kind=k, ids=i) for h in ([], ["fix 1"], ["fix 4 i", "bound 1 both", "bound 0 lower"]) for k, i in (("fit", ["scipy", "IMinuit"]), ("fit", ["SCIPY", "iminuit"]), ("significance", ["SciPy", "iMinuit"]))],
                                   thorough=[dict(spec=s, procs=p, how=h, kind=k, ids=i) for s, p in ((S2, ["p", "q"]), (S2, ["q", "p"])) for h in ([], ["fix 1"], ["fix 4 i", "bound 1 both", "bound 0 lower"], ["allnui"], ["bound 1 upper"]) for k, i in (("fit", ["scipy", "iminuit"]), ("significance", ["SciPy", "iMinuit"]))]),
                   "factory": dict(fn=b01_factory, quick=[dict()])},
        bounds="models of 2 channels and 2 processes (7 parameters), 3 (thorough 5) combinations of fixed parameters and bounds, any combination of nuisance options, update and verbosity; identifiers in any case and 6 unknown ones"),
}
