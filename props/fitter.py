"""TemplateFitter: F01-F04.

The backends are environment (see props/minimizer.py): every vector, error, matrix, function value and
status they may return is a solver variable; what the fitter hands to them is recorded and compared."""
from .build import build_model, data_hist, expected, gauss, layout, nll_poisson, params_of, same_params, split
from .hist import cp
from .minimizer import bound, bounds_of, constraint_list, holds, norm, residuals, same_bound


def setup(c, spec, procs, key=""):
    c.env.hessian = "stub"
    c.env.light_cov = True
    c.env.err_lo = 0.0625
    m, info, dat = build_model(c, spec, procs, data="conc", key=key)
    return m, info, dat


def names_of(spec, procs):
    return [f"{p}_yield" if k == "yield" else f"{ch}_{p}_bin_{i}" for k, ch, p, i in layout(spec, procs)]


def full_nll(c, spec, procs, info, dat, z, cons):
    y, t = split(spec, procs, z)
    r = 0.0
    for name, shape, ps in spec:
        v = expected(c, info[name], y, t[name])
        for a in v:
            c.assume(a >= 2.0**-20)
        r = r + nll_poisson(c, v, dat[name]) + c.isum(gauss(c, q.t.inv_corr_mat, t[name][q.proc]) for q in info[name])
    for p, (v, s) in cons.items():
        r = r + (y[p] - v) * (y[p] - v) / (s * s) / 2
    return r


def start_of(c, procs, info, cur):
    """the vector a fit starts from for parameters `cur` given by template"""
    ys = [c.isum(cur[n][q.proc][0] for n in info for q in info[n] if q.proc == p) for p in procs]
    return ys + [a for n in info for q in info[n] for a in cur[n][q.proc][1]]


def current(c, info):
    return {n: {q.proc: (c.vec(cp(q.t.params))[0], c.vec(cp(q.t.params))[1:]) for q in info[n]} for n in info}


def point(c, n, k, key):
    return [c.real(f"{key}y{i}", 2.0**-6, 2.0**20) for i in range(k)] + [c.real(f"{key}t{i}", -0.5, 0.5) for i in range(n - k)]


def check_problem(c, rec, m, spec, procs, info, dat, cons, fixed, start, bnd, key, fun=True):
    """one minimisation: parameters, bounds, objective; `start` entries of free parameters may be None (not prescribed)"""
    n = len(start)
    s = list(start)
    if len(rec["x0"]) == n:
        s = [rec["x0"][i] if v is None else v for i, v in enumerate(start)]
    holds(c, rec, sorted(fixed), s, bnd, key)
    if fun and len(rec["x0"]) == n:
        z = point(c, n, len(procs), f"{key} at ")
        want = full_nll(c, spec, procs, info, dat, z, cons)
        c.eq(rec["fun"](c.arr(z), *rec["args"]), want, f"{key}: the objective is the current likelihood")


# ---------------------------------------------------------------- F01
def f01(c, spec, procs, backend, ops, steps, first=None, fun=True, opt="any"):
    m, info, dat = setup(c, spec, procs)
    F = c.mod("templatefitter.fitter").TemplateFitter(m, backend)
    names = names_of(spec, procs)
    n, k = len(names), len(procs)
    st = dict(fixed=set(), bnd={}, allnui=False, cons={})
    fits = 0
    for s in range(steps):
        o = ops[c.pick(len(ops), f"op{s}") if s or first is None else first]
        w = o.split()
        if w[0] == "fix":
            i = int(w[1])
            F.set_parameter_fixed(names[i] if s % 2 else i)
            st["fixed"].add(i)
        elif w[0] == "bound":
            i = int(w[1])
            b = bound(c, f"b{s}", w[2])
            F.set_parameter_bounds(i if s % 2 else names[i], b)
            st["bnd"][i] = b
        elif w[0] == "allnui":
            F.fix_nui_params()
            st["allnui"] = True
        elif w[0] == "data":
            name, shape, ps = spec[0]
            h, d = data_hist(c, f"new{s}", shape, (), "sym", lo=1)
            m.add_data(**{name: h})
            dat[name] = d
        elif w[0] == "update":
            m.update_parameters(c.arr([c.real(f"u{s}_{i}", 2.0**-6 if i < k else -0.5, 4000 if i < k else 0.5) for i in range(n)]))
        elif w[0] == "constraint":
            p = procs[-1]
            v, e = c.real(f"cv{s}", -40, 4000), c.real(f"ce{s}", 2.0**-6, 900)
            m.add_gaussian_constraint_on_yield(p, v, e)
            st["cons"][p] = (v, e)
        elif w[0] == "fit":
            fits = one_fit(c, F, m, info, dat, spec, procs, st, fits, False, False, True, False)
        elif w[0] == "fitnui":
            fits = one_fit(c, F, m, info, dat, spec, procs, st, fits, True, True, False, False)
    if opt == "any":
        fn, lim = c.flag("fixnui"), c.flag("limits")
    else:
        fn, lim = "n" in opt, "l" in opt
    one_fit(c, F, m, info, dat, spec, procs, st, fits, fn, lim, False, fun)


def one_fit(c, F, m, info, dat, spec, procs, st, fits, fixnui, limits, update, fun):
    names = names_of(spec, procs)
    n, k = len(names), len(procs)
    start = start_of(c, procs, info, current(c, info))
    kw = {}
    if fixnui:
        kw["fix_nui_params"] = True
    lim = None
    if limits:
        lim = (c.real(f"l{fits}lo", -500, -2.0**-6), c.real(f"l{fits}hi", 2.0**-6, 500))
        kw["nui_param_limits"] = lim
    fixed = set(st["fixed"])
    if fixnui or st["allnui"]:
        fixed |= set(range(k, n))
    bnd = [st["bnd"].get(i, lim if lim is not None and i >= k else (None, None)) for i in range(n)]
    q = len(c.env.min_calls)
    res = F.do_fit(update_templates=update, verbose=0, **kw)
    c.check(len(c.env.min_calls) == q + 1, f"fit {fits}: one minimisation")
    rec = c.env.min_calls[q]
    check_problem(c, rec, m, spec, procs, info, dat, st["cons"], fixed, start, bnd, f"fit {fits}", fun)
    if len(rec["x0"]) == n:
        c.eq(res.params.values, rec["x"], f"fit {fits}: returned parameters")
    c.eq(res.fcn_min_val, rec["f"], f"fit {fits}: returned minimum")
    c.check(list(res.params.names) == names, f"fit {fits}: parameter names")
    c.check(bool(res.succes) == bool(rec["ok"]), f"fit {fits}: returned status")
    return fits + 1


# ---------------------------------------------------------------- F02
def f02(c, spec, procs, backend, fits=2, fixnui=False):
    m, info, dat = setup(c, spec, procs)
    if backend == "scipy":
        c.env.scipy_status = "any"
    else:
        c.env.minuit_status = lambda k, rec: [(True, True, True), (False, True, True), (True, False, True), (True, True, False), (True, True, True, False)][c.pick(5, f"status{k}")]
    k = len(procs)
    c.env.x_range = lambda j, i: (-60, 6000) if i < k else (-6, 6)
    F = c.mod("templatefitter.fitter").TemplateFitter(m, backend)
    if c.flag("fixed"):
        F.set_parameter_fixed(procs[0] + "_yield")
    for s in range(fits):
        upd = c.flag(f"update{s}")
        before = params_of(m)
        x = None
        kw = dict(fix_nui_params=True) if fixnui else {}
        nh = len(c.env.hessians)
        hesse = True
        try:
            if upd and s == 0:
                x = F.do_fit(verbose=0, **kw)
            else:
                hesse = not upd
                x = F.do_fit(update_templates=upd, verbose=0, get_hesse=not upd, **kw)
        except RuntimeError:
            c.check(raises(backend, c.env.min_calls[-1]), f"fit {s}: failure only for a failed minimisation")
        if x is not None and backend == "scipy":
            # documented: the (expensive) Hesse matrix is calculated by default and only if requested
            c.check((len(c.env.hessians) > nh) == hesse, f"fit {s}: Hesse matrix calculated exactly if requested")
        if x is None or not upd:
            same_params(c, params_of(m), before, f"fit {s}: the model is left alone")
            continue
        v = c.vec(c.env.min_calls[-1]["x"])
        y, t = split(spec, procs, v)
        for name in info:
            for q in info[name]:
                c.eq(q.t.params, [y[q.proc] * q.eff] + t[name][q.proc], f"fit {s}: parameters of {name} {q.proc}")
            e = expected(c, info[name], y, t[name])
            got = [c.isum(c.vec(q.t.values)[i] for q in info[name]) for i in range(info[name][0].n)]
            c.eq(got, e, f"fit {s}: expectation of {name}")


# ---------------------------------------------------------------- F03 / F04 common
def configure(c, F, names, k, how):
    """-> fixed, bounds, options of the call"""
    n = len(names)
    fixed, bnd, kw = set(), [(None, None)] * n, {}
    for w in how:
        w = w.split()
        if w[0] == "fix":
            F.set_parameter_fixed(names[int(w[1])] if len(w) < 3 else int(w[1]))
            fixed.add(int(w[1]))
        elif w[0] == "bound":
            i = int(w[1])
            bnd[i] = bound(c, "b%d" % i, w[2])
            F.set_parameter_bounds(names[i], bnd[i])
        elif w[0] == "allnui":
            F.fix_nui_params()
            fixed |= set(range(k, n))
        elif w[0] == "nui":
            kw["fix_nui_params"] = True
            fixed |= set(range(k, n))
    return fixed, bnd, kw


def raises(backend, rec):
    """a minimisation that is reported by a RuntimeError: scipy without success, MINUIT without covariance matrix"""
    return not rec["ok"] if backend == "scipy" else rec["nocov"]


def f03(c, spec, procs, backend, param, how=(), points=2, status=None, order=None, fun=False, cpu=2, isname=True):
    m, info, dat = setup(c, spec, procs)
    c.env.pool_order = order
    if backend == "scipy":
        c.env.scipy_status = (lambda k, rec: True if k == 0 else c.flag(f"ok{k}")) if status == "points" else status
    else:
        c.env.minuit_status = (lambda k, rec: (True, True, True) if k == 0 else [(True,) * 3, (False,) * 3, (True, True, True, False)][c.pick(3, f"status{k}")]) if status == "points" else (lambda k, rec: (True, True, True, c.flag(f"covok{k}"))) if status == "any" else None
    F = c.mod("templatefitter.fitter").TemplateFitter(m, backend)
    names = names_of(spec, procs)
    n, k = len(names), len(procs)
    fixed, bnd, kw = configure(c, F, names, k, how)
    start = start_of(c, procs, info, current(c, info))
    before = params_of(m)
    sub = c.flag("subtract")
    sig = c.real("sigma", -9, 90)
    if not sub or c.flag("explicit"):
        kw["subtract_min"] = sub
    pid = names[param] if isname else param
    try:
        if points is None:
            points, sig = 100, 2
            pts, vals, apx = F.profile(pid, **kw)
        else:
            pts, vals, apx = F.profile(pid, num_cpu=cpu, num_points=points, sigma=sig, **kw)
    except RuntimeError:
        c.check(raises(backend, c.env.min_calls[0]) and len(c.env.min_calls) == 1, "failure only if the nominal minimisation failed")
        same_params(c, params_of(m), before, "the model after a failure")
        return
    recs = c.env.min_calls
    check_problem(c, recs[0], m, spec, procs, info, dat, {}, fixed, start, bnd, "nominal", fun)
    c.check(bool(recs[0]["ok"]), "nominal minimisation succeeded")
    x, f0 = c.vec(recs[0]["x"]), recs[0]["f"]
    if backend == "scipy":
        c.check(len(c.env.hessians) >= 1, "Hessian evaluated")
        e = 1 / c.sqrt(c.env.hessians[0][2][param, param])
    else:
        e = recs[0]["e"][param]
    v = x[param]
    c.eq(list(pts.shape), [points], "number of points")
    want = [v - sig * e + 2 * sig * e * j / (points - 1) for j in range(points)] if points > 1 else [v - sig * e]
    c.eq(pts, want, "scan points")
    mn = f0 if sub else 0
    c.eq(apx, [(p - v) * (p - v) / (e * e) / 2 + f0 - mn for p in want], "parabola")
    scans = list(recs[1:])
    c.check(len(scans) == points, "one minimisation per point")
    c.eq(list(vals.shape), [points], "one value per point")
    if scans and scans[0]["task"] is not None:
        scans.sort(key=lambda r: r["task"])
    for j, r in enumerate(scans):
        fx = fixed | {param}
        s = [want[j] if i == param else start[i] if i in fx else None for i in range(n)]
        check_problem(c, r, m, spec, procs, info, dat, {}, fx, s, bnd, f"point {j}", fun)
        if raises(backend, r):
            c.eq(vals[j], float("nan"), f"value of failed point {j}")
        else:
            c.eq(vals[j], r["f"] - mn, f"value of point {j}")
    same_params(c, params_of(m), before, "the model after the scan")


def f04(c, spec, procs, backend, proc, how=(), status=None, fun=False):
    m, info, dat = setup(c, spec, procs)
    if backend == "scipy":
        c.env.scipy_status = status
    elif status:
        c.env.minuit_status = lambda k, rec: (True, True, True, c.flag(f"covok{k}"))
    f0 = c.real("f0", -500, 5000)
    d = c.real("d", 2.0**-6, 800)
    c.env.fval = lambda k: f0 if k == 0 else f0 + d
    F = c.mod("templatefitter.fitter").TemplateFitter(m, backend)
    names = names_of(spec, procs)
    n, k = len(names), len(procs)
    fixed, bnd, kw = configure(c, F, names, k, how)
    start = start_of(c, procs, info, current(c, info))
    before = params_of(m)
    p = procs[proc]
    try:
        s = F.get_significance(p, verbose=False, **kw)
    except RuntimeError:
        c.check(raises(backend, c.env.min_calls[-1]), "failure only for a failed minimisation")
        same_params(c, params_of(m), before, "the model after a failure")
        return
    recs = c.env.min_calls
    check_problem(c, recs[0], m, spec, procs, info, dat, {}, fixed, start, bnd, "nominal", fun)
    c.check(all(bool(r["ok"]) for r in recs), "no failed minimisation is used")
    x = recs[0]["x"][proc]
    if bool(x < 0):
        c.eq(s, 0, "negative yield")
    else:
        c.check(len(recs) == 2, "two minimisations")
        fx = fixed | {proc}
        st = [0 if i == proc else start[i] if i in fx else None for i in range(n)]
        check_problem(c, recs[1], m, spec, procs, info, dat, {}, fx, st, bnd, "without signal", fun)
        c.eq(s * s, 2 * d, "squared significance")
        c.check(s >= 0, "positive root")
    same_params(c, params_of(m), before, "the model afterwards")


S1 = [["a", [2], ["p"]]]
S2 = [["a", [2], ["q", "p"]], ["b", [1], ["p"]]]
# processes whose names begin with, or end in, the names of others
SP = [["a", [2], ["tau2", "tau"]], ["tau", [1], ["tau", "xtau"]]]
PP = ["tau2", "xtau", "tau"]
S3 = [["a", [1, 2], ["q", "r", "p"]], ["b", [2], ["p", "q"]]]
OPF = ["fix 0", "fix 3", "bound 0 both", "bound 3 lower", "allnui", "data", "update", "constraint", "fit", "fitnui"]
OPF1 = ["fix 1", "bound 1 both", "bound 2 upper", "allnui", "data", "update", "fit"]
B = ("scipy", "iminuit")
HOWS = [[], ["fix 1"], ["fix 4 i", "bound 1 both", "bound 0 lower"], ["allnui"], ["nui", "bound 1 upper"], ["fix 1", "fix 3", "bound 4 both", "bound 2 lower"]]
PROPS = {
    "F01": dict(
        harnesses={"fit": dict(fn=f01, quick=[dict(spec=S2, procs=["p", "q"], backend=b, ops=OPF, steps=2, first=f, fun=False) for b in B for f in range(10)] +
                               [dict(spec=S1, procs=["p"], backend=b, ops=OPF1, steps=3, fun=False, opt=o) for b in B for o in ("", "nl")] +
                               [dict(spec=S1, procs=["p"], backend=b, ops=["data", "update", "constraint", "fit"], steps=2, fun=True, opt="") for b in B],
                               thorough=[dict(spec=S2, procs=["p", "q"], backend=b, ops=OPF, steps=3, first=f, fun=False) for b in B for f in range(10)] +
                               [dict(spec=S1, procs=["p"], backend=b, ops=OPF1, steps=4, first=f, fun=False) for b in B for f in (0, 1, 3)] +
                               [dict(spec=S1, procs=["p"], backend=b, ops=["data", "update", "constraint", "fit"], steps=3, fun=True, opt="") for b in B] +
                               [dict(spec=S2, procs=["p", "q"], backend=b, ops=["data", "update", "constraint", "fit"], steps=2, fun=True, opt="n") for b in B],
                               opts=dict(max_paths=60000))},
        bounds="models of 1-2 channels, 1-2 processes (3-7 parameters), both backends; every sequence of 2 (thorough 3-4) calls out of fixing, bounding, releasing nothing, replacing data, updating the model, constraining and fitting, then a fit with any combination of nuisance options; any bounds, limits, parameters and backend results"),
    "F02": dict(
        harnesses={"update": dict(fn=f02, quick=[dict(spec=S2, procs=["p", "q"], backend=b, fits=2) for b in B] + [dict(spec=s, procs=p, backend=b, fits=1) for b in B for s, p in ((S3, ["p", "q", "r"]), (SP, PP))],
                                  thorough=[dict(spec=S2, procs=["q", "p"], backend=b, fits=3) for b in B] + [dict(spec=S3, procs=["p", "q", "r"], backend=b, fits=2, fixnui=f) for b in B for f in (False, True)],
                                  opts=dict(max_paths=60000))},
        bounds="models of 2 channels, 2-3 processes, 1D and 2D; up to 2 (thorough 3) fits in sequence with any update and Hessian flags, any backend status and result"),
    "F03": dict(
        harnesses={"profile": dict(fn=f03, quick=[dict(spec=S2, procs=["p", "q"], backend=b, param=0, how=h, points=3, status="points") for b in B for h in HOWS[1:]] +
                                   [dict(spec=S2, procs=["p", "q"], backend=b, param=0, points=2, status="any", order="any", isname=False) for b in B] +
                                   [dict(spec=S1, procs=["p"], backend=b, param=p, points=2, fun=True, order="any") for b in B for p in (0, 2)] +
                                   [dict(spec=SP, procs=PP, backend=b, param=2, points=2, how=["fix 1"]) for b in B] +
                                   [dict(spec=S2, procs=["p", "q"], backend="scipy", param=3, points=1, how=["fix 1"], cpu=1), dict(spec=S1, procs=["p"], backend="iminuit", param=0, points=None)],
                                   thorough=[dict(spec=S2, procs=["p", "q"], backend=b, param=p, how=h, points=4, status="points", order="any" if h == HOWS[2] else None) for b in B for h in HOWS for p in (0, 1, 5) if h != HOWS[5] and p != 1 or p == 0] +
                                   [dict(spec=S1, procs=["p"], backend=b, param=p, points=3, fun=True, order="any", status="points") for b in B for p in (0, 2)],
                                   opts=dict(max_paths=60000))},
        bounds="models of 1-2 channels with 3-7 parameters, both backends, scans of 1-3 (thorough 4) points over yields and nuisance parameters with 6 combinations of fixed parameters, bounds and nuisance options; every pattern of failing points, every completion order of the workers, any sigma and backend results"),
    "F04": dict(
        harnesses={"significance": dict(fn=f04, quick=[dict(spec=S2, procs=["p", "q"], backend=b, proc=k, how=h, status="any") for b in B for k, h in [(0, h) for h in HOWS] + [(1, HOWS[2]), (1, HOWS[0]), (0, ["fix 0"])]] +
                                        [dict(spec=SP, procs=PP, backend=b, proc=2, how=h, status="any") for b in B for h in HOWS[:2]] +
                                        [dict(spec=S1, procs=["p"], backend=b, proc=0, fun=True) for b in B],
                                        thorough=[dict(spec=S2, procs=["p", "q"], backend=b, proc=k, how=h, status="any") for b in B for k in (0, 1) for h in HOWS + [["fix 0"], ["bound 0 both", "fix 1"]]] +
                                        [dict(spec=S3, procs=["r", "p", "q"], backend=b, proc=k, how=h, status="any") for b in B for k in (0, 1, 2) for h in HOWS] +
                                        [dict(spec=s, procs=p, backend=b, proc=0, fun=True) for b in B for s, p in ((S1, ["p"]), (S2, ["q", "p"]))])},
        bounds="models of 1-2 channels, 1-3 processes, both backends, 7 combinations of fixed parameters, bounds and nuisance options; any backend results with a likelihood difference in [1/8, 40], failing minimisations"),
}
