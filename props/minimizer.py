"""Minimiser wrappers: P01-P04.

The backends (scipy's SLSQP, iminuit's migrad) are environment: whatever vector, errors,
matrices and status flags they return within their contract is a solver variable."""
from .hist import cp


def norm(b):
    """one bound pair with None for an absent side"""
    if b is None:
        return (None, None)
    out = []
    for v in b:
        out.append(None if v is None or (type(v) is float and v in (float("inf"), float("-inf"))) else v)
    return tuple(out)


def bounds_of(rec, n):
    b = rec["bounds"]
    if b is None:
        return [(None, None)] * n
    return [norm(x) for x in b]


def constraint_list(rec):
    k = rec.get("constraints") or ()
    return list(k) if isinstance(k, (list, tuple)) else [k]


def residuals(c, rec, z):
    """(type, value) of every constraint at z"""
    out = []
    for k in constraint_list(rec):
        v = k["fun"](z, *k.get("args", ()))
        out += [(k["type"], x) for x in (c.vec(v) if isinstance(v, c.np.ndarray) else [v])]
    return out


def same_bound(c, got, want, label):
    for g, w, side in zip(norm(got), norm(want), ("lower", "upper")):
        c.check((g is None) == (w is None), f"{label}: {side} bound given or not")
        if g is not None and w is not None:
            c.eq(g, w, f"{label}: {side} bound")


def holds(c, rec, fixed, start, bnd, key, fcn=None, n=None, seen=None):
    """the problem handed to the backend: exactly the parameters `fixed` are held at their start values, bounds as in `bnd`"""
    n = len(start) if n is None else n
    free = [i for i in range(n) if i not in fixed]
    m = len(rec["x0"])
    if m == len(free) and m != n:
        # a backend working on the free parameters only
        z = [c.real(f"{key}z{i}", -2000, 2000) for i in range(m)]
        c.eq(rec["x0"], [start[i] for i in free], f"{key}: start values of the free parameters")
        for j, i in enumerate(free):
            same_bound(c, bounds_of(rec, m)[j], bnd[i], f"{key}: parameter {i}")
        if seen is not None:
            full = list(start)
            for j, i in enumerate(free):
                full[i] = z[j]
            before = len(seen)
            rec["fun"](c.arr(z), *rec["args"])
            c.check(len(seen) > before, f"{key}: objective is evaluated")
            c.eq(seen[-1], full, f"{key}: fixed parameters in the objective")
        return
    c.check(m == n, f"{key}: number of parameters")
    c.eq(rec["x0"], start, f"{key}: start values")
    b = bounds_of(rec, n)
    c.check(len(b) == n, f"{key}: number of bounds")
    flags = rec.get("fixed") or [False] * n
    z = [c.real(f"{key}z{i}", -2000, 2000) for i in range(n)]

    def pinned(i):
        lo, hi = b[i]
        return lo is not None and hi is not None and bool(lo == hi)
    # held
    for i in fixed:
        if flags[i]:
            continue
        if rec["kind"] == "scipy":
            d = c.real(f"{key}d{i}", -2000, 2000)
            c.assume((d >= 0.25) | (d <= -0.25))
            w = list(z)
            w[i] = start[i] + d
            bad = False
            for t, v in residuals(c, rec, c.arr(w)):
                bad = bad | ((v != 0) if t == "eq" else (v < 0))
            lo, hi = b[i]
            # a bound that was asked for does not hold the parameter, one at the start value does
            if pinned(i):
                bad = bad | (lo == start[i])
            c.check(bad, f"{key}: parameter {i} is held at its start value")
        else:
            c.check(pinned(i), f"{key}: parameter {i} is held")
            if pinned(i):
                c.eq(b[i][0], start[i], f"{key}: parameter {i} is held at its start value")
    # free
    for i in free:
        c.check(not flags[i], f"{key}: parameter {i} is free")
        same_bound(c, b[i], bnd[i], f"{key}: parameter {i}")
    w = [start[i] if i in fixed else z[i] for i in range(n)]
    for t, v in residuals(c, rec, c.arr(w)):
        if t == "eq":
            c.eq(v, 0, f"{key}: free parameters are not constrained")
        else:
            c.check(v >= 0, f"{key}: free parameters are not constrained")
    if fcn is not None:
        c.eq(rec["fun"](c.arr(z), *rec["args"]), fcn(c.arr(z), *rec["args"]), f"{key}: objective handed to the backend")


NAMES = [["a_yield", "b_yield", "ch_a_bin_0"], ["1", "0", "x"], ["p", "pp", "p_yield"], ["q", "b"], ["only"], ["p_yield", "pp", "p"], ["a_bin_10", "a_bin_1", "b_a_bin_1"], [f"c_p_bin_{i}" for i in range(12)], ["B_yield", "b_yield", "Bb"]]


def objective(c, n, seen):
    w = [1.0 + 0.5 * i for i in range(n)]

    def fcn(x, *args):
        seen.append([v for v in c.vec(x)])
        r = 0.0
        for i in range(n):
            r = r + w[i] * (x[i] - 1.0) * (x[i] - 1.0)
        for a in args:
            r = r + a * x[0] * x[0]
        return r
    return fcn


def make(c, backend, names):
    mm = c.mod("templatefitter.minimizer")
    seen = []
    f = objective(c, len(names), seen)
    return mm.minimizer_factory(backend, f, list(names)), f, seen


# ---------------------------------------------------------------- P01
def p01(c, names):
    names = NAMES[names] if isinstance(names, int) else names
    n = len(names)
    mm = c.mod("templatefitter.minimizer")
    P = mm.Parameters(list(names))
    c.check(list(P.names) == list(names) and P.num_params == n, "names and number")
    val, err = c.reals("val", n), c.reals("err", n)
    P.values = val
    P.errors = err
    v, e = c.vec(cp(val)), c.vec(cp(err))
    for i, nm in enumerate(names):
        for pid in (nm, i):
            c.check(P.param_id_to_index(pid) == i, f"index of {pid!r}")
            c.eq(P.get_param_value(pid), v[i], f"value of {pid!r}")
            c.eq(P.get_param_error(pid), e[i], f"error of {pid!r}")
            a, b = P[pid]
            c.eq(a, v[i], f"item value of {pid!r}")
            c.eq(b, e[i], f"item error of {pid!r}")
    bad = [None, 0.0, float(n), (0,), [0], b"a", "", "A_YIELD", "no", names[0] + " ", " " + names[0], names[-1][:-1] + "#", names[0] + names[-1], str(n + 5)]
    bad += [k for k in (-1, -2, -n, -n - 1, n, n + 1, 2 * n + 3, 10 ** 9, -10 ** 9, 2 ** 63)]
    for b in bad:
        for what, f in (("index", P.param_id_to_index), ("value", P.get_param_value), ("error", P.get_param_error), ("item", lambda q: P[q])):
            c.raises(lambda: f(b), ValueError, f"{what} of {b!r}")
    k = c.pick(n + 3, "length")
    if k != n:
        w = c.reals("w", k) if k else c.arr([])
        c.raises(lambda: setattr(P, "values", w), ValueError, f"{k} values")
        c.raises(lambda: setattr(P, "errors", w), ValueError, f"{k} errors")
    c.eq(P.values, v, "values after rejected ones")
    c.eq(P.errors, e, "errors after rejected ones")
    # the same through the minimisers
    mz, f, seen = make(c, ("scipy", "iminuit")[c.pick(2, "backend")], names)
    for b in bad[:4] + bad[-4:]:
        c.raises(lambda: mz.set_param_fixed(b), ValueError, f"fixing {b!r}")
        c.raises(lambda: mz.set_param_bounds(b, (0, 1)), ValueError, f"bounds on {b!r}")


# ---------------------------------------------------------------- P02
def p02(c, backend, names, steps, aslist=False, first=None):
    names = NAMES[names]
    n = len(names)
    mz, f, seen = make(c, backend, names)
    fixed = set()
    runs = 0
    for s in range(steps):
        k = c.pick(2 * n + 2, f"op{s}") if s or first is None else first
        if k < n:
            mz.set_param_fixed(names[k])
            fixed.add(k)
        elif k < 2 * n:
            mz.set_param_fixed(k - n)
            fixed.add(k - n)
        elif k == 2 * n:
            mz.release_params()
            fixed.clear()
        else:
            runs = run_p(c, mz, f, seen, fixed, n, runs, aslist)
    run_p(c, mz, f, seen, fixed, n, runs, aslist)


def run_p(c, mz, f, seen, fixed, n, runs, aslist=False, bnd=None):
    start = [c.real(f"s{runs}_{i}", -2000, 2000) for i in range(n)]
    k = len(c.env.min_calls)
    x0 = list(start) if aslist else c.arr(start)
    res = mz.minimize(x0, verbose=0)
    c.check(len(c.env.min_calls) == k + 1, "one backend minimisation")
    rec = c.env.min_calls[k]
    holds(c, rec, sorted(fixed), start, bnd or [(None, None)] * n, f"minimisation {runs}", f, seen=seen)
    for i in fixed:
        c.eq(res.params.values[i], start[i], f"minimisation {runs}: reported value of fixed parameter {i}")
    if not aslist:
        c.eq(x0, start, "initial values are not changed")
    return runs + 1


def p02_run(c, **k):
    c.env.hessian = "stub"
    p02(c, **k)


# ---------------------------------------------------------------- P03
def p03(c, backend, names, steps, ops, first=None):
    c.env.hessian = "stub"
    names = NAMES[names]
    n = len(names)
    mz, f, seen = make(c, backend, names)
    bnd = [(None, None)] * n
    fixed = set()
    runs = 0
    for s in range(steps):
        k = c.pick(len(ops), f"op{s}") if s or first is None else first
        o = ops[k]
        if o == "min":
            runs = run_p(c, mz, f, seen, fixed, n, runs, bnd=bnd)
        elif o == "release":
            mz.release_params()
            fixed.clear()
        elif o.startswith("fix"):
            i = int(o[4:])
            mz.set_param_fixed(i)
            fixed.add(i)
        else:
            kind, i = o.split()
            i = int(i)
            b = bound(c, f"b{s}", kind)
            mz.set_param_bounds(names[i] if s % 2 else i, b)
            bnd[i] = b
    run_p(c, mz, f, seen, fixed, n, runs, bnd=bnd)


def bound(c, key, kind):
    lo, hi = c.real(key + "lo", -3000, 3000), c.real(key + "hi", -3000, 3000)
    if kind == "both":
        c.assume(hi - lo >= 0.5)
        return (lo, hi)
    return {"lower": (lo, None), "upper": (None, hi), "none": (None, None)}[kind]


# ---------------------------------------------------------------- P04
def p04_minuit(c, names, repeat=False, fix=None, rerun=False):
    c.env.minuit_status = "any"
    c.env.minuit_rerun = rerun
    names = NAMES[names]
    n = len(names)
    mz, f, seen = make(c, "iminuit", names)
    fixed = [i for i in range(n) if c.flag(f"fix{i}")] if fix is None else fix
    for i in fixed:
        mz.set_param_fixed(names[i])
    for k in range(2 if repeat else 1):
        start = [c.real(f"s{k}_{i}", -900, 900) for i in range(n)]
        err = None
        try:
            res = mz.minimize(c.arr(start), verbose=0)
        except RuntimeError as x:
            err = x
        rec = c.env.min_calls[-1]
        c.check(rec["runs"] >= 1, "backend ran")
        c.check((err is not None) == rec["nocov"], "RuntimeError exactly if MINUIT has no covariance matrix")
        if err is not None or rec["nocov"]:
            continue
        report(c, mz, res, rec["x"], rec["e"], rec["c"], rec["r"], rec["f"], names)
        table(c, res.params, names)
        want = all(rec["status"])
        c.check(bool(res.succes) == want, "success flag only for a valid minimum with covariance")


def report(c, mz, res, x, e, cov, cor, f, names):
    n = len(names)
    for src, P in (("result", res.params), ("minimizer", mz.params)):
        c.eq(P.values, x, f"{src}: values")
        if e is not None:
            c.eq(P.errors, e, f"{src}: errors")
        if cov is not None:
            c.eq(P.covariance, cov, f"{src}: covariance")
        if cor is not None:
            c.eq(P.correlation, cor, f"{src}: correlation")
        c.check(list(P.names) == list(names), f"{src}: names")
    c.eq(res.fcn_min_val, f, "function value")
    c.eq(mz.fcn_min_val, f, "function value of the minimizer")
    c.eq(mz.param_values, x, "parameter values of the minimizer")
    if e is not None:
        c.eq(mz.param_errors, e, "parameter errors of the minimizer")
    if cov is not None:
        c.eq(mz.param_covariance, cov, "covariance of the minimizer")
    if cor is not None:
        c.eq(mz.param_correlation, cor, "correlation of the minimizer")


def table(c, P, names):
    """what is printed for the parameters"""
    k = len(c.env.tables)
    str(P)
    if len(c.env.tables) == k:
        return
    rows = c.env.tables[k]
    c.check(len(rows) == len(names), "printed table: one row per parameter")
    for i, r in enumerate(rows[:len(names)]):
        at = [j for j, x in enumerate(r) if isinstance(x, str) and x == names[i]]
        c.check(len(at) == 1 and at[0] + 2 < len(r), f"printed table: row {i} is that of {names[i]}")
        if len(at) == 1 and at[0] + 2 < len(r):
            c.eq(r[at[0] + 1], P.values[i], f"printed table: value of {names[i]}")
            c.eq(r[at[0] + 2], P.errors[i], f"printed table: error of {names[i]}")


def p04_scipy(c, n, args=False, fix=False, repeat=1, hess=True, drift=False):
    """objective with a known Hessian; the reported matrices are compared with exact inverses.
    With `drift` the objective has changed when it is minimised again, with the minimum at the same place."""
    c.env.scipy_status = "any"
    first = []

    def hook(k, out):
        if drift and first:
            out[:] = first
        for v in out:
            c.assume(v >= -3)
            c.assume(v <= 3)
        if not first:
            first.extend(out)
    c.env.value_hook = hook
    names = ["u", "v", "w"][:n]
    q = [c.real(f"q{i}", 1, 4) for i in range(n)]
    r = c.real("r", -0.5, 0.5) if n > 1 else 0.0

    def fcn(x, *extra):
        s = 0.0
        for i in range(n):
            s = s + q[i] * x[i] * x[i] * 0.5 + x[i] * x[i] * x[i] * x[i] * 0.25
        if n > 1:
            s = s + r * x[0] * x[1]
        for a in extra:
            s = s + a * x[0] * x[0]
        return s

    def hesse(x, *extra):
        h = [[0.0] * n for _ in range(n)]
        for i in range(n):
            h[i][i] = q[i] + 3 * x[i] * x[i]
        if n > 1:
            h[0][1] = h[1][0] = r
        for a in extra:
            h[0][0] = h[0][0] + 2 * a
        return h
    mm = c.mod("templatefitter.minimizer")
    mz = mm.minimizer_factory("scipy", fcn, list(names))
    if fix:
        mz.set_param_fixed(n - 1)
    for k in range(repeat):
        if drift and k:
            q[:] = [c.real(f"q{k}_{i}", 1, 4) for i in range(n)]
        start = [c.real(f"s{k}_{i}", -3, 3) for i in range(n)]
        extra = (c.real(f"arg{k}", 0, 2),) if args else ()
        kw = dict(additional_args=extra) if args else {}
        err = None
        try:
            res = mz.minimize(c.arr(start), get_hesse=hess, **kw)
        except RuntimeError as x:
            err = x
        rec = c.env.min_calls[-1]
        c.check((err is None) == bool(rec["ok"]), "failure raises RuntimeError, success does not")
        if err is not None or not rec["ok"]:
            continue
        c.check(bool(res.succes), "success flag")
        x = c.vec(rec["x"])
        report(c, mz, res, x, None, None, None, rec["f"], names)
        z = [c.real(f"z{k}_{i}", -3, 3) for i in range(n)]
        c.eq(rec["fun"](c.arr(z), *rec["args"]), fcn(c.arr(z), *extra), "objective with its arguments")
        if not hess:
            continue
        h = hesse(x, *extra)
        cov = res.params.covariance
        c.eq(list(cov.shape), [n, n], "shape of the covariance")
        if n == 2:
            det = h[0][0] * h[1][1] - h[0][1] * h[1][0]
            want = [[h[1][1] / det, -h[0][1] / det], [-h[1][0] / det, h[0][0] / det]]
        else:
            want = [[1 / h[0][0]]]
        c.eq(cov, want, "covariance is the inverse Hessian at the minimum", rtol=1e-5)
        for i in range(n):
            c.eq(res.params.errors[i], c.sqrt(want[i][i]), f"error {i}", rtol=1e-5)
            for j in range(n):
                c.eq(res.params.correlation[i, j], 1 if i == j else want[i][j] / c.sqrt(want[i][i] * want[j][j]), f"correlation {i} {j}", rtol=1e-5)
        c.eq(mz.param_covariance, cov, "covariance of the minimizer")
        table(c, res.params, names)


OPS3 = ["both 0", "lower 1", "upper 1", "none 0", "both 2", "fix 1", "release", "min"]
PROPS = {
    "P01": dict(
        harnesses={"lookup": dict(fn=p01, quick=[dict(names=k) for k in (0, 1, 2, 3, 4, 5, 6, 8)],
                                  thorough=[dict(names=k) for k in (0, 1, 2, 3, 4, 5, 6, 8)] + [dict(names=[f"n{i}" for i in range(k)]) for k in (6, 9, 14)])},
        bounds="name lists of 1-3 (thorough 14) distinct names; positions from below -n to above 2n and beyond 32/64 bit, 14 other identifiers; any values and errors; arrays of length 0 to n+2"),
    "P02": dict(
        harnesses={"fixed": dict(fn=p02_run, quick=[dict(backend=b, names=0, steps=3, first=f) for b in ("scipy", "iminuit") for f in (0, 4, 2)] + [dict(backend=b, names=3, steps=3) for b in ("scipy", "iminuit")] +
                                 [dict(backend="scipy", names=3, steps=2, aslist=True)],
                                 thorough=[dict(backend=b, names=0, steps=4, first=f) for b in ("scipy", "iminuit") for f in range(8)] + [dict(backend=b, names=3, steps=4) for b in ("scipy", "iminuit")] +
                                 [dict(backend="scipy", names=0, steps=3, aslist=True)],
                                 opts=dict(max_paths=60000))},
        bounds="2-3 parameters, both backends; every sequence of 3 (thorough 4) calls out of fixing any parameter by name or index, releasing and minimising, followed by a minimisation; any start vectors and backend results"),
    "P03": dict(
        harnesses={"bounds": dict(fn=p03, quick=[dict(backend=b, names=0, steps=3, ops=OPS3, first=f) for b in ("scipy", "iminuit") for f in (0, 1, 5)],
                                  thorough=[dict(backend=b, names=0, steps=4, ops=OPS3, first=f) for b in ("scipy", "iminuit") for f in range(7)],
                                  opts=dict(max_paths=60000))},
        bounds="3 parameters, both backends; every sequence of 3 (thorough 4) calls out of 5 bound settings (two-sided, one-sided, none), fixing, releasing and minimising; any bound values, start vectors and backend results"),
    "P04": dict(
        harnesses={"iminuit": dict(fn=p04_minuit, quick=[dict(names=0), dict(names=3, repeat=True), dict(names=3, rerun=True)], thorough=[dict(names=0, repeat=True), dict(names=0, rerun=True), dict(names=3, repeat=True, rerun=True), dict(names=3, repeat=True), dict(names=4, repeat=True), dict(names=1)]),
                   "scipy": dict(fn=p04_scipy, quick=[dict(n=1, args=True, repeat=2), dict(n=2), dict(n=2, args=True, fix=True), dict(n=2, hess=False), dict(n=2, repeat=2, drift=True)],
                                 thorough=[dict(n=1, args=True, repeat=3), dict(n=2, repeat=2), dict(n=2, args=True, fix=True, repeat=2), dict(n=2, hess=False, repeat=3), dict(n=1, repeat=3, drift=True), dict(n=2, repeat=2, drift=True)])},
        bounds="1-3 parameters, every fixed subset (iminuit), 1-2 parameters with exact Hessians of a quartic objective with free coefficients (scipy); any backend result, matrices and status flags, repeated minimisations"),
}
