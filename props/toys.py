"""ToyStudy: Y01-Y03.  Random draws and the minimiser's results are solver variables."""
from .build import build_model, expected, gauss, layout, nll_poisson, params_of, same_params, split
from .fitter import PP, S1, S2, S3, SP, current, names_of


def toy_setup(c, spec, procs, backend, evaluate=True, eff="sym"):
    """model with arbitrary parameters; every fit's objective is evaluated while it runs and compared with the
    likelihood of the latest draws"""
    c.env.hessian = "stub"
    c.env.light_cov = True
    c.env.err_lo = 0.0625
    m, info, dat = build_model(c, spec, procs, data="conc", eff=eff)
    k = len(procs)
    # yields far above the draws: the likelihood has one branch only
    z = [400.0 + 25 * i for i in range(k)] + [0.125 * ((i % 3) - 1) for i in range(len(names_of(spec, procs)) - k)]
    state = dict(fits=[], used=0, ok=[])

    def status(j, rec):
        groups = c.env.draws[state["used"]:]
        state["used"] = len(c.env.draws)
        vals = [v for mu, g in groups for v in c.vec(g)]
        mus = [x for mu, g in groups for x in c.vec(c.np.broadcast_to(mu, g.shape) if g.shape else c.np.array([mu]))]
        bins = sum(info[n][0].n for n in info)
        c.check(len(vals) == bins, f"fit {j}: a toy dataset of its own with one draw per bin")
        if evaluate and len(vals) == bins:
            for v in vals:
                c.assume((v >= 1) & (v <= 20))
            y, t = split(spec, procs, z)
            want, o = 0.0, 0
            for name in info:
                n = info[name][0].n
                want = want + nll_poisson(c, expected(c, info[name], y, t[name]), vals[o:o + n]) + c.isum(gauss(c, q.t.inv_corr_mat, t[name][q.proc]) for q in info[name])
                o += n
            if len(rec["x0"]) == len(z):
                c.eq(rec["fun"](c.arr(z), *rec["args"]), want, f"fit {j}: the objective is the likelihood of its toy dataset")
        state["fits"].append((j, vals, mus, rec))
        return None
    return m, info, state, status


def attach(c, backend, status, ok):
    def sc(j, rec):
        status(j, rec)
        return ok(j)

    def mi(j, rec):
        status(j, rec)
        return (True, True, True, ok(j))
    c.env.scipy_status = sc
    c.env.minuit_status = mi


def move(c, spec, procs, m):
    n, k = len(names_of(spec, procs)), len(procs)
    m.update_parameters(c.arr([c.real(f"u{i}", 2.0**-6 if i < k else -0.5, 4000 if i < k else 0.5) for i in range(n)]))


def expectation(c, info):
    return [c.isum(c.vec(q.t.values)[i] for q in info[n]) for n in info for i in range(info[n][0].n)]


def results(c, T, recs, backend, hess, tag):
    p, u = T.result_parameters, T.result_uncertainties
    c.check(len(p) == len(recs) and len(u) == len(recs), f"{tag}: one result per experiment")
    for i, r in enumerate(recs[:len(p)]):
        c.eq(p[i], r["x"], f"{tag}: parameters of experiment {i}")
        e = errors(c, r, backend)
        if hess and e is not None:
            c.eq(u[i], e, f"{tag}: uncertainties of experiment {i}")


def errors(c, r, backend):
    if backend == "iminuit":
        return c.vec(r["e"])
    for fun, x, h in c.env.hessians:
        if len(x) == len(r["x"]) and all(a is b for a, b in zip(c.vec(x), c.vec(r["x"]))):
            return [1 / c.sqrt(h[i, i]) for i in range(len(x))]
    k = sum(1 for q in c.env.min_calls if q["k"] < r["k"] and q["ok"])
    if k < len(c.env.hessians):
        h = c.env.hessians[k][2]
        return [1 / c.sqrt(h[i, i]) for i in range(len(r["x"]))]
    return None


# ---------------------------------------------------------------- Y01
def y01(c, spec, procs, backend, n_exp, tries, again=None, fail=True, evaluate=True):
    m, info, st, status = toy_setup(c, spec, procs, backend, evaluate)
    attach(c, backend, status, lambda j: c.flag(f"ok{j}") if fail else True)
    move(c, spec, procs, m)
    p0 = params_of(m)
    mean = expectation(c, info)
    T = c.mod("templatefitter.toy_study").ToyStudy(m, backend)
    unavailable(c, T, procs, "before a study")
    for study, (ne, mt) in enumerate([(n_exp, tries)] + ([again] if again else [])):
        base = len(c.env.min_calls)
        raised = False
        try:
            if mt is None:
                T.do_experiments(n_exp=ne)
            else:
                T.do_experiments(n_exp=ne, max_tries=mt)
        except RuntimeError:
            raised = True
        recs = c.env.min_calls[base:]
        good, run, gaveup = [], 0, False
        for r in recs:
            c.check(not gaveup and len(good) < ne, f"study {study}: no fit after the end")
            if r["ok"]:
                good.append(r)
                run = 0
            else:
                run += 1
                gaveup = run == (10 if mt is None else mt)
        c.check(raised == gaveup, f"study {study}: error raised exactly if one experiment failed too often")
        if raised:
            unavailable(c, T, procs, f"after failed study {study}")
        else:
            c.check(len(good) == ne, f"study {study}: one successful fit per experiment")
            results(c, T, good, backend, True, f"study {study}")
        for j, vals, mus, rec in st["fits"]:
            c.eq(mus, mean, f"fit {j}: the toy dataset is drawn from the model")
        same_params(c, params_of(m), p0, f"model after study {study}")


def unavailable(c, T, procs, tag):
    for what, f in (("parameters", lambda: T.result_parameters), ("uncertainties", lambda: T.result_uncertainties),
                    ("results", lambda: T.get_toy_results(procs[0])), ("pulls", lambda: T.get_toy_result_pulls(procs[0]))):
        c.raises(f, RuntimeError, f"{what} {tag}")


# ---------------------------------------------------------------- Y02
def y02(c, spec, procs, backend, n_exp, fail=False, moved=True):
    m, info, st, status = toy_setup(c, spec, procs, backend, False)
    attach(c, backend, status, lambda j: (c.flag(f"ok{j}") if j < 2 else True) if fail else True)
    if moved:
        move(c, spec, procs, m)
    T = c.mod("templatefitter.toy_study").ToyStudy(m, backend)
    unavailable(c, T, procs, "before a study")
    T.do_experiments(n_exp=n_exp, max_tries=4)
    good = [r for r in c.env.min_calls if r["ok"]]
    results(c, T, good, backend, True, "study")
    for i, p in enumerate(procs):
        v, u = T.get_toy_results(p)
        x = [r["x"][i] for r in good]
        e = [errors(c, r, backend)[i] for r in good]
        c.eq(v, x, f"fitted yields of {p}")
        c.eq(u, e, f"uncertainties of {p}")
        y = c.isum(q.t.yield_param for n in info for q in info[n] if q.proc == p)
        c.eq(m.get_yield(p), y, f"model yield of {p}")
        c.eq(T.get_toy_result_pulls(p), [(a - y) / b for a, b in zip(x, e)], f"pulls of {p}")
    results(c, T, good, backend, True, "study read again")
    if backend == "scipy" and not fail:
        # a further study that is given up: the results of the one before must not be taken for its own
        c.env.scipy_status = lambda j, rec: False
        c.raises(lambda: T.do_experiments(n_exp=2, max_tries=2), RuntimeError, "study of failing fits")
        unavailable(c, T, procs, "after a study that was given up")


# ---------------------------------------------------------------- Y03
def y03(c, spec, procs, backend, proc, points, n_exp, fail=False, moved=True, down=False):
    m, info, st, status = toy_setup(c, spec, procs, backend, False)
    attach(c, backend, status, lambda j: (c.flag(f"ok{j}") if j < 3 else True) if fail else True)
    init = {n: {q.proc: (q.initial, list(q.cnt)) for q in info[n]} for n in info}
    if moved:
        move(c, spec, procs, m)
    T = c.mod("templatefitter.toy_study").ToyStudy(m, backend)
    p = procs[proc]
    lo, hi = c.real("lo", 2.0**-6, 400), c.real("hi", 401, 9000)
    if down:
        lo, hi = hi, lo
    pts, mean, std = T.do_linearity_test(p, (lo, hi), n_points=points, n_exp=n_exp)
    want = [lo + (hi - lo) * j / (points - 1) for j in range(points)] if points > 1 else [lo]
    c.eq(pts, want, "points")
    good = [r for r in c.env.min_calls if r["ok"]]
    c.check(len(good) == points * n_exp, "experiments at every point")
    c.check(len(mean) == points and len(std) == points, "one mean and deviation per point")
    for j in range(points):
        xs = [r["x"][proc] for r in good[j * n_exp:(j + 1) * n_exp]]
        mu = c.isum(xs) / n_exp
        c.eq(mean[j], mu, f"mean at point {j}")
        var = c.isum((x - mu) * (x - mu) for x in xs) / n_exp
        c.check(std[j] >= 0, f"deviation at point {j} is not negative")
        c.eq(std[j] * std[j], var, f"squared deviation at point {j}")
    done = 0
    for (f, vals, mus, rec) in st["fits"]:
        y = want[min(done // n_exp, points - 1)]
        e = []
        for n in info:
            for b in range(info[n][0].n):
                s = 0.0
                for q in info[n]:
                    total, cnt = init[n][q.proc]
                    s = s + (y * q.eff * cnt[b] / total if q.proc == p else cnt[b])
                e.append(s)
        c.eq(mus, e, f"fit {f}: the toy dataset is drawn from the initial model with the yield of its point")
        if rec["ok"]:
            done += 1


B = ("scipy", "iminuit")
PROPS = {
    "Y01": dict(
        harnesses={"study": dict(fn=y01, quick=[dict(spec=S2, procs=["p", "q"], backend="scipy", n_exp=3, tries=2), dict(spec=S1, procs=["p"], backend="scipy", n_exp=2, tries=3),
                                                dict(spec=S1, procs=["p"], backend="scipy", n_exp=1, tries=1, again=[1, 2]), dict(spec=S1, procs=["p"], backend="scipy", n_exp=2, tries=2, again=[1, 2], evaluate=False),
                                                dict(spec=S2, procs=["q", "p"], backend="iminuit", n_exp=2, tries=2, again=[1, 1]), dict(spec=S1, procs=["p"], backend="scipy", n_exp=0, tries=2, again=[1, 1]),
                                                dict(spec=S1, procs=["p"], backend="scipy", n_exp=1, tries=None, evaluate=False)],
                                 thorough=[dict(spec=S2, procs=["p", "q"], backend="scipy", n_exp=4, tries=3), dict(spec=S1, procs=["p"], backend="scipy", n_exp=3, tries=4),
                                           dict(spec=S1, procs=["p"], backend="scipy", n_exp=2, tries=2, again=[2, 2]), dict(spec=S3, procs=["p", "q", "r"], backend="scipy", n_exp=2, tries=2, again=[1, 1]),
                                           dict(spec=S2, procs=["q", "p"], backend="iminuit", n_exp=4, tries=2, again=[3, 1]), dict(spec=S1, procs=["p"], backend="scipy", n_exp=0, tries=2, again=[1, 1]),
                                           dict(spec=S1, procs=["p"], backend="scipy", n_exp=2, tries=None, evaluate=False)])},
        bounds="models of 1-2 channels, 1-3 processes; studies of 0-3 (thorough 4) experiments with 1-3 (4) or the default 10 tries, every pattern of failing fits (scipy without success, MINUIT without covariance), two studies in sequence; any draws, parameters and fit results"),
    "Y02": dict(
        harnesses={"results": dict(fn=y02, quick=[dict(spec=S2, procs=["p", "q"], backend="scipy", n_exp=2, fail=True), dict(spec=S2, procs=["q", "p"], backend="iminuit", n_exp=3, fail=True), dict(spec=S3, procs=["r", "q", "p"], backend="iminuit", n_exp=1), dict(spec=SP, procs=PP, backend="scipy", n_exp=1),
                                                  dict(spec=S3, procs=["q", "p", "r"], backend="scipy", n_exp=2), dict(spec=S1, procs=["p"], backend="iminuit", n_exp=3, moved=False)],
                                   thorough=[dict(spec=S2, procs=["p", "q"], backend="scipy", n_exp=4, fail=True), dict(spec=S2, procs=["q", "p"], backend="iminuit", n_exp=6, fail=True), dict(spec=S3, procs=["r", "q", "p"], backend="iminuit", n_exp=4),
                                             dict(spec=S3, procs=["q", "p", "r"], backend="scipy", n_exp=4, fail=True), dict(spec=S1, procs=["p"], backend="iminuit", n_exp=8, moved=False)])},
        bounds="models of 1-2 channels, 1-3 processes in several orders, 1-3 (thorough 8) experiments, both backends, failing fits in between; any draws, model parameters and fit results"),
    "Y03": dict(
        harnesses={"linearity": dict(fn=y03, quick=[dict(spec=S2, procs=["p", "q"], backend="scipy", proc=0, points=3, n_exp=2), dict(spec=S2, procs=["q", "p"], backend="iminuit", proc=0, points=2, n_exp=3, down=True), dict(spec=S1, procs=["p"], backend="iminuit", proc=0, points=2, n_exp=1, fail=True),
                                                    dict(spec=S3, procs=["r", "q", "p"], backend="iminuit", proc=2, points=2, n_exp=1), dict(spec=S1, procs=["p"], backend="scipy", proc=0, points=2, n_exp=1, fail=True), dict(spec=SP, procs=PP, backend="iminuit", proc=2, points=2, n_exp=1),
                                                    dict(spec=S2, procs=["p", "q"], backend="scipy", proc=1, points=1, n_exp=2, moved=False)],
                                     thorough=[dict(spec=S2, procs=["p", "q"], backend="scipy", proc=0, points=5, n_exp=3, fail=True), dict(spec=S2, procs=["q", "p"], backend="iminuit", proc=0, points=4, n_exp=4, down=True),
                                               dict(spec=S3, procs=["r", "q", "p"], backend="iminuit", proc=2, points=4, n_exp=2), dict(spec=S1, procs=["p"], backend="scipy", proc=0, points=3, n_exp=2, fail=True),
                                               dict(spec=S3, procs=["p", "q", "r"], backend="scipy", proc=1, points=3, n_exp=2), dict(spec=S2, procs=["p", "q"], backend="scipy", proc=1, points=1, n_exp=2, moved=False)])},
        bounds="models of 1-2 channels, 1-3 processes, 1-3 (thorough 5) points with 1-3 (4) experiments each, both backends, some failing fits; any limits in either order, draws, fit results and model parameters beforehand"),
}
