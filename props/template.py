"""Templates: T01-T04"""
from .hist import cp, count1, count2


def mods(c):
    return c.mod("templatefitter.histograms"), c.mod("templatefitter.templates")


def names(c):
    return c.mod("templatefitter.templates")


def make_hist(c, pre, shape, zero=(), errors=True, edges=None, lo=0.0, hi=5000, elo=0.0, integer=False, neg=(), fortran=False, nh=300):
    """histogram from binned data; -> hist, counts, squared errors, edges"""
    hm = c.mod("templatefitter.histograms")
    n = 1
    for s in shape:
        n *= s
    cnt = [0.0 if i in zero else c.real(f"{pre}n{i}", -hi, -0.25) if i in neg else c.real(f"{pre}n{i}", lo, hi, integer=integer) for i in range(n)]
    sig = [0.0 if i in zero else c.real(f"{pre}s{i}", elo, nh, wide=nh == 300) for i in range(n)] if errors else None
    E = edges if edges is not None else [c.arr([float(k * 2 + k * k) for k in range(s + 1)]) for s in shape]
    def array(v, kind=None):
        # column after column in memory
        if fortran:
            return c.arr([v[i * shape[1] + j] for j in range(shape[1]) for i in range(shape[0])], kind).reshape(shape[1], shape[0]).T
        return c.arr(v, kind).reshape(*shape)
    ca = array(cnt, "i" if integer else None)
    H = hm.Hist1d if len(shape) == 1 else hm.Hist2d
    ea = E[0] if len(shape) == 1 else tuple(E)
    h = H.from_binned_data(ca, ea, array(sig)) if errors else H.from_binned_data(ca, ea)
    return h, cnt, [s * s for s in sig] if errors else list(cnt), E


def make_template(c, name, h, dim=1, **kw):
    T = c.mod("templatefitter.templates")
    if dim == 1:
        return T.Template1d(name, "x", h, **kw)
    return T.Template2d(name, ("x", "y"), h, **kw)


def rel_err(c, cov, cnt):
    """relative uncertainties from covariance diagonal and counts"""
    return [c.ite(n == 0, 1e-7, c.sqrt(v) / c.ite(n == 0, 1.0, n)) for n, v in zip(cnt, cov)]


def oracle_fractions(c, cnt, rel, t):
    w = [n * (1 + a * e) for n, a, e in zip(cnt, t, rel)]
    s = c.isum(w)
    return [x / s for x in w]


def prod(shape):
    n = 1
    for s in shape:
        n *= s
    return n


# ---------------------------------------------------------------- T01
def t01(c, shape, zero=(), errors=True, how="binned", addcov=False, integer=False, lo=0.0, elo=0.0, neg=(), fortran=False):
    n = prod(shape)
    dim = len(shape)
    if how == "fill":
        hm = c.mod("templatefitter.histograms")
        E = [c.edges("e", s) for s in shape]
        xs = [c.real(f"x{k}", -8, 8) for k in range(2)]
        ws = [c.real(f"w{k}", 2.0**-6, 400) for k in range(2)]
        h = hm.Hist1d(bins=E[0], data=c.arr(xs), weights=c.arr(ws))
        cnt, var = count1(c, c.vec(E[0]), xs, ws)
    else:
        h, cnt, var, E = make_hist(c, "", shape, zero, errors, integer=integer, lo=lo, elo=elo, neg=neg, fortran=fortran)
    tot = c.isum(cnt)
    # contents of both signs may cancel: then only a normalisation other than zero gives fractions
    if len(zero) < n and not neg:
        c.assume(tot >= 0.25)
    t = make_template(c, "a", h, dim)
    if addcov:
        t.add_cov_mat(c.arr([[c.real(f"m{i}", 2.0**-6, 900) if i == j else 0.0 for j in range(n)] for i in range(n)]))
    empty = len(zero) == n
    cov = [t.cov_mat[i, i] for i in range(n)]
    hist0 = (cp(h.bin_counts), cp(h.bin_errors_sq))
    z = c.np.zeros(n)
    if empty:
        y = c.real("y", -500, 20000)
        nu = c.arr(c.rvec("t", n, -4, 4))
        c.eq(t.fractions(z), [0.0] * n, "empty: fractions at zero")
        c.eq(t.fractions(nu), [0.0] * n, "empty: fractions")
        c.eq(c.vec(t.values), [0.0] * n, "empty: values")
        c.eq(c.vec(t.errors), [0.0] * n, "empty: errors")
        t.yield_param = y
        t.nui_params = nu
        c.eq(c.vec(t.values), [0.0] * n, "empty: values with yield")
        c.eq(c.vec(t.errors), [0.0] * n, "empty: errors with yield")
        return
    if not neg:
        f0 = t.fractions(z)
        c.eq(list(f0.shape), [n], "fractions are flat")
        c.eq(f0, [x / tot for x in cnt], "fractions at zero nuisance parameters")
        c.eq(list(t.values.shape), list(shape), "values in the histogram's shape")
        c.eq(c.vec(t.values), cnt, "values reproduce the histogram")
    rel = rel_err(c, cov, cnt)
    nu = [c.real(f"t{i}", -4, 4) for i in range(n)]
    w = c.isum(x * (1 + a * e) for x, a, e in zip(cnt, nu, rel))
    c.assume(w >= 0.05)
    p0 = cp(t.params)
    na = c.arr(nu)
    f = t.fractions(na)
    c.eq(f, oracle_fractions(c, cnt, rel, nu), "fractions")
    c.eq(c.isum(c.vec(f)), 1.0, "fractions sum to one")
    c.eq(t.params, p0, "fractions leave the parameters alone")
    c.eq(na, nu, "fractions leave the argument alone")
    if n <= 4:
        # another point in the same array
        last = c.real("t_", -4, 4)
        w = c.isum(x * (1 + a * e) for x, a, e in zip(cnt, nu[:-1] + [last], rel))
        c.assume(w >= 0.05)
        na[n - 1] = last
        c.eq(t.fractions(na), oracle_fractions(c, cnt, rel, nu[:-1] + [last]), "fractions after the array was changed in place")
        na[n - 1] = nu[-1]
    y = c.real("y", -500, 20000)
    t.yield_param = y
    t.nui_params = na
    want = [y * x for x in oracle_fractions(c, cnt, rel, nu)]
    c.eq(c.vec(t.values), want, "values")
    c.eq(c.isum(c.vec(t.values)), y, "values sum to the yield")
    c.eq(c.vec(t.errors), [a * b for a, b in zip(rel, want)], "errors")
    t.reset()
    if not neg:
        c.eq(c.vec(t.values), cnt, "values after reset")
    c.eq(h.bin_counts, hist0[0], "histogram counts unchanged")
    c.eq(h.bin_errors_sq, hist0[1], "histogram errors unchanged")


# ---------------------------------------------------------------- T02
def t02(c, shape, steps, ops):
    n = prod(shape)
    dim = len(shape)
    a = make_template(c, "a", make_hist(c, "a", shape, lo=0.25, elo=0.25)[0], dim)
    hb, cb, _, _ = make_hist(c, "b", shape, lo=0.25, elo=0.25)
    b = make_template(c, "b", hb, dim)
    same = make_template(c, "c", hb, dim)
    ha_tot = c.isum(c.real(f"an{i}", 0.25, 5000) for i in range(n))
    sa = [ha_tot] + [0.0] * n
    sb = [c.isum(cb)] + [0.0] * n

    def verify(what):
        for nm, t, s in (("a", a, sa), ("b", b, sb), ("c", same, sb)):
            c.eq(t.params, s, f"{what}: params of {nm}")
            c.eq(t.yield_param, s[0], f"{what}: yield of {nm}")
            c.eq(t.nui_params, s[1:], f"{what}: nuisance parameters of {nm}")
    verify("initially")
    for k in range(steps):
        op = ops[c.pick(len(ops), f"op{k}")]
        v = [c.real(f"v{k}_{i}", -500, 20000) for i in range(n + 1)]
        if op == "yield":
            a.yield_param = v[0]
            sa = [v[0]] + sa[1:]
        elif op == "yield_int":
            a.yield_param = 7
            sa = [7.0] + sa[1:]
        elif op == "yield_arr":
            arr = c.arr(v[:1])
            a.yield_param = arr
            sa = [v[0]] + sa[1:]
            arr[0] = -77.0
        elif op == "nui":
            arr = c.arr(v[1:])
            a.nui_params = arr
            sa = sa[:1] + v[1:]
            arr[:] = -77.0
        elif op == "params":
            arr = c.arr(v)
            a.params = arr
            sa = v
            arr[:] = -77.0
        elif op == "params_own_order":
            # from a slice of a longer vector, as a fit does
            arr = c.arr([1.0] + v + [2.0])
            a.params = arr[1:-1]
            sa = v
            arr[:] = -77.0
        elif op == "int_params":
            a.params = c.arr([float(i + 3) for i in range(n + 1)], "i")
            sa = [float(i + 3) for i in range(n + 1)]
        elif op == "bad_params":
            c.raises(lambda: setattr(a, "params", c.arr(v[:-1])), Exception, "short params rejected")
            c.raises(lambda: setattr(a, "params", c.arr(v + [1.0])), Exception, "long params rejected")
        elif op == "bad_nui":
            c.raises(lambda: setattr(a, "nui_params", c.arr(v)), Exception, "long nuisance parameters rejected")
            c.raises(lambda: setattr(a, "nui_params", c.arr(v[:1] if n > 1 else v[:0])), Exception, "short nuisance parameters rejected")
        elif op == "bad_yield":
            c.raises(lambda: setattr(a, "yield_param", c.arr(v[:2])), Exception, "two yields rejected")
        elif op == "reset":
            a.reset()
            sa = [ha_tot] + [0.0] * n
        verify(f"step {k} {op}")


# ---------------------------------------------------------------- T03
def t03(c, shape, adds, zero=(), free=False, neg=(), fortran=False):
    n = prod(shape)
    h, cnt, var, E = make_hist(c, "", shape, zero, lo=0.0 if free else 0.25, elo=0.0 if free else 0.125, neg=neg, fortran=fortran)
    h0 = (cp(h.bin_counts), cp(h.bin_errors_sq), cp(h.bin_edges))
    t = make_template(c, "a", h, len(shape))
    eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    diag = [c.ite(v == 0, 1e-14, v) for v in var]
    tiny = [i in zero for i in range(n)]
    cov = [[diag[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
    hist = [[list(r) for r in cov]]
    corr = eye
    mats = []
    if any(not z for z in tiny):
        c.assume(c.isum(cnt) >= 0.25)

    def verify(what):
        tc = t.cov_mat
        c.eq(list(tc.shape), [n, n], f"{what}: covariance shape")
        for i in range(n):
            for j in range(n):
                sc = 1e-14 if i == j and tiny[i] and not mats else None
                c.eq(tc[i, j], cov[i][j], f"{what}: covariance {i},{j}", scale=sc)
        c.check(len(t.cov_mats) == len(hist), f"{what}: number of covariance matrices")
        for k, m in enumerate(hist[:len(t.cov_mats)]):
            for i in range(n):
                for j in range(n):
                    c.eq(t.cov_mats[k][i, j], m[i][j], f"{what}: matrix {k} {i},{j}", scale=1e-14 if i == j and tiny[i] and k == 0 else None)
        c.eq(t.corr, corr, f"{what}: correlation")
        for i in range(n):
            c.eq(t.corr[i, i], 1.0, f"{what}: unit diagonal {i}")
        pr = [[c.isum(t.inv_corr_mat[i, k] * t.corr[k, j] for k in range(n)) for j in range(n)] for i in range(n)]
        c.eq(pr, eye, f"{what}: inverse of the correlation")
        vals = c.vec(t.values)
        rel = rel_err(c, [cov[i][i] for i in range(n)], cnt)
        err = c.vec(t.errors)
        if not free:
            for i in range(n):
                c.eq(err[i], rel[i] * vals[i], f"{what}: error {i}", scale=1e-7 if tiny[i] else None)
        c.eq(h.bin_counts, h0[0], f"{what}: histogram counts unchanged")
        c.eq(h.bin_errors_sq, h0[1], f"{what}: histogram errors unchanged")
    verify("initially")
    y, nu = c.real("y", 2.0**-10, 5000), [c.real(f"t{i}", -1, 1) for i in range(n)]
    w = c.isum(x * (1 + a * e) for x, a, e in zip(cnt, nu, rel_err(c, [cov[i][i] for i in range(n)], cnt)))
    if not free and len(zero) < n and adds:
        t.yield_param = y
    for k, how in enumerate(adds):
        if how == "bad":
            for shp in ((n, n + 1), (n + 1, n + 1), (n,)):
                c.raises(lambda: t.add_cov_mat(c.np.ones(shp)), Exception, f"matrix of shape {shp} rejected")
            verify(f"step {k} {how}")
            continue
        if how == "diag":
            m = [[c.real(f"m{k}_{i}", 2.0**-6, 900) if i == j else 0.0 for j in range(n)] for i in range(n)]
        elif how == "pair":
            m = [[2.0 + i if i == j else 0.75 if {i, j} == {0, n - 1} else 0.0 for j in range(n)] for i in range(n)]
        elif how == "conc":
            m = [[2.0 + i if i == j else 0.5 if abs(i - j) == 1 else -0.25 for j in range(n)] for i in range(n)]
        elif how == "sym":
            m = [[0.0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    m[i][j] = m[j][i] = c.real(f"m{k}_{i}_{j}", 2, 9) if i == j else c.real(f"m{k}_{i}_{j}", -0.75, 0.75)
        ma = c.arr(m)
        mats.append(ma)
        t.add_cov_mat(ma)
        c.eq(ma, m, f"step {k}: caller's matrix unchanged")
        ma[0, 0] = 123.0
        ma[0, n - 1] = 17.0
        cov = [[cov[i][j] + m[i][j] for j in range(n)] for i in range(n)]
        hist.append(m)
        sd = [c.sqrt(cov[i][i]) for i in range(n)]
        corr = [[1.0 if i == j else cov[i][j] / (sd[i] * sd[j]) for j in range(n)] for i in range(n)]
        verify(f"step {k} {how}")


def t03_small(c, n, diag):
    """uncertainties that are small against one count in everything: matrices count whatever their size"""
    h, cnt, var, E = make_hist(c, "", [n], lo=0.25, elo=1e-5, nh=1e-4)
    t = make_template(c, "a", h)
    m = [[c.real(f"m{i}", 1e-10, 1e-8, wide=False) if i == j else 0.0 if diag else c.real(f"m{min(i, j)}_{max(i, j)}", -5e-11, 5e-11) for j in range(n)] for i in range(n)]
    t.add_cov_mat(c.arr(m))
    cov = [[(var[i] if i == j else 0.0) + m[i][j] for j in range(n)] for i in range(n)]
    sd = [c.sqrt(cov[i][i]) for i in range(n)]
    corr = [[1.0 if i == j else cov[i][j] / (sd[i] * sd[j]) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            c.eq(t.cov_mat[i, j], cov[i][j], f"covariance {i},{j}", scale=1e-11)
            c.eq(t.corr[i, j], corr[i][j], f"correlation {i},{j}")
            c.eq(c.isum(t.inv_corr_mat[i, k] * corr[k][j] for k in range(n)), 1.0 if i == j else 0.0, f"inverse {i},{j}")
        c.eq(t.errors[i], sd[i], f"error {i}", scale=1e-6)


def t03_common(c, n, fixed=True):
    """a systematic uncertainty common to all bins that dominates: the correlation is close to one, its inverse is still the inverse"""
    h, cnt, var, E = make_hist(c, "", [n], lo=4.0, elo=0.5)
    t = make_template(c, "a", h)
    s = c.real("s", 2.0**-4, 20000, wide=False)
    m = [[s * (1.25 if i == j == 0 and not fixed else 1.0) for j in range(n)] for i in range(n)]
    t.add_cov_mat(c.arr(m))
    cov = [[(var[i] if i == j else 0.0) + m[i][j] for j in range(n)] for i in range(n)]
    sd = [c.sqrt(cov[i][i]) for i in range(n)]
    corr = [[1.0 if i == j else cov[i][j] / (sd[i] * sd[j]) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            c.eq(t.corr[i, j], corr[i][j], f"correlation {i},{j}")
            c.eq(c.isum(t.inv_corr_mat[i, k] * corr[k][j] for k in range(n)), 1.0 if i == j else 0.0, f"inverse {i},{j}", scale=1.0)


# ---------------------------------------------------------------- T04
def sys_cov(c, nom, up, dn):
    s = [c.ite(u < d, -1.0, 1.0) for u, d in zip(up, dn)]
    d = [(abs(u - n) + abs(w - n)) / 2 for n, u, w in zip(nom, up, dn)]
    v = [a * b for a, b in zip(s, d)]
    return [[a * b for b in v] for a in v]


def t04_fun(c, n, integer=False, free=None):
    """the documented matrix for arbitrary nominal, up and down histograms"""
    u = c.mod("templatefitter.utility")
    nom, up, dn = [[c.real(f"{k}{i}", -900, 5000, integer=integer) if free is None or i in free else float((i * (3 + z) + 5 * z) % 11) for i in range(n)] for z, k in enumerate(("nom", "up", "dn"))]
    kind = "i" if integer else None
    a = [c.arr(v, kind) for v in (nom, up, dn)]
    if integer:
        a = [v * 1.0 for v in a]
    a0 = [cp(v) for v in a]
    m = u.get_systematic_cov_mat(*a)
    want = sys_cov(c, nom, up, dn)
    c.eq(list(m.shape), [n, n], "shape")
    c.eq(m, want, "covariance of a variation", scale=1e-3)
    for i in range(n):
        c.check(m[i, i] >= 0, "non-negative diagonal")
        for j in range(i):
            c.eq(m[i, j], m[j, i], "symmetric", scale=1e-3)
    for x, y in zip(a, a0):
        c.eq(x, y, "arguments unchanged")


def t04(c, shape, k, how="edges", nvar=1, at=None, zero=()):
    """add_variation on a template with the given binning; `at`: bins the entries lie in (else anywhere)"""
    hm, T = mods(c)
    dim = len(shape)
    n = prod(shape)
    if how == "edges":
        E = [c.edges(f"e{d}_", s) for d, s in enumerate(shape)]
    elif how == "skew":
        E = [c.arr([float(i * i + i) for i in range(s + 1)]) for s in shape]
    else:
        E = None
    if how == "range":
        lo = [c.real(f"lo{d}", -3, 1) for d in range(dim)]
        wd = [c.real(f"wd{d}", 1, 6) for d in range(dim)]
        R = [(a, a + b) for a, b in zip(lo, wd)]
        H = hm.Hist1d(bins=shape[0], range=R[0]) if dim == 1 else hm.Hist2d(bins=tuple(shape), range=R)
        H.fill(c.arr([lo[0] + wd[0] / 3]) if dim == 1 else [c.arr([lo[0] + wd[0] / 3]), c.arr([lo[1] + wd[1] / 3])], c.arr([2.5]))
        E = [c.np.linspace(R[d][0], R[d][1], shape[d] + 1) for d in range(dim)]
        h = H
        cnt = c.vec(h.bin_counts)
        var = c.vec(h.bin_errors_sq)
    else:
        h, cnt, var, _ = make_hist(c, "", shape, zero, edges=E, lo=0.25, elo=0.5)
    t = make_template(c, "a", h, dim)
    total = [[c.ite(var[i] == 0, 1e-14, var[i]) if i == j else 0.0 for j in range(n)] for i in range(n)]
    for v in range(nvar):
        X = [[c.real(f"x{v}_{d}_{i}", -7, 7) if at is None else (at[i][d] * at[i][d] + at[i][d]) + 0.5 for i in range(k)] for d in range(dim)]
        up = [c.real(f"u{v}_{i}", -90, 90) for i in range(k)]
        dn = [c.real(f"d{v}_{i}", -90, 90) for i in range(k)]
        data = c.arr(X[0]) if dim == 1 else [c.arr(x) for x in X]
        ua, da = c.arr(up), c.arr(dn)
        t.add_variation(data, ua, da)
        if dim == 1:
            hu = count1(c, c.vec(E[0]), X[0], up)[0]
            hd = count1(c, c.vec(E[0]), X[0], dn)[0]
        else:
            hu = [x for r in count2(c, c.vec(E[0]), c.vec(E[1]), X[0], X[1], up)[0] for x in r]
            hd = [x for r in count2(c, c.vec(E[0]), c.vec(E[1]), X[0], X[1], dn)[0] for x in r]
        want = sys_cov(c, cnt, hu, hd)
        c.check(len(t.cov_mats) == v + 2, "one more matrix")
        c.eq(t.cov_mats[-1], want, f"matrix of variation {v}")
        total = [[total[i][j] + want[i][j] for j in range(n)] for i in range(n)]
        c.eq(t.cov_mat, total, f"total covariance after variation {v}")
        c.eq(ua, up, "up weights unchanged")
        c.eq(da, dn, "down weights unchanged")
        c.eq(c.vec(h.bin_counts), cnt, "nominal histogram unchanged")


OPS = ["yield", "nui", "params", "reset", "bad_params", "bad_nui", "bad_yield", "yield_int", "yield_arr", "params_own_order", "int_params"]
Q_T01 = [dict(shape=[2]), dict(shape=[3], zero=[1]), dict(shape=[2], errors=False), dict(shape=[2, 2], zero=[1]), dict(shape=[1]), dict(shape=[2], addcov=True),
         dict(shape=[2], zero=[0, 1]), dict(shape=[1, 2], zero=[0, 1]), dict(shape=[2], how="fill"), dict(shape=[2], integer=True, errors=False), dict(shape=[2, 3], errors=False, zero=[0], lo=0.25),
         dict(shape=[3], neg=[0], elo=0.25), dict(shape=[2, 2], fortran=True, lo=0.25, elo=0.25)]
Q_T03 = [dict(shape=[2], adds=["sym"]), dict(shape=[3], adds=["diag", "conc"]), dict(shape=[2], adds=["diag", "bad", "sym"]), dict(shape=[3], adds=["diag"], zero=[1]),
         dict(shape=[2], adds=[], zero=[0, 1]), dict(shape=[2, 2], adds=[], zero=[2]), dict(shape=[2], adds=[], free=True), dict(shape=[1], adds=["sym", "bad", "sym"]), dict(shape=[2], adds=["diag"], neg=[0]), dict(shape=[2, 1], adds=[], neg=[1]), dict(shape=[2, 2], adds=[], fortran=True)]
PROPS = {
    "T01": dict(
        harnesses={"shape": dict(fn=t01, quick=Q_T01, thorough=Q_T01 + [dict(shape=[4], zero=[2]), dict(shape=[5], lo=0.25), dict(shape=[3, 2], lo=0.25), dict(shape=[3], how="fill"), dict(shape=[3], addcov=True)])},
        bounds="templates with 1-3 bins in one and up to 2x3 cells in two dimensions (thorough up to 6 bins), with and without empty bins, any contents in [0,5000], any errors up to 300, any yield and nuisance parameters with a normalisation of at least 0.05"),
    "T02": dict(
        harnesses={"ops": dict(fn=t02, quick=[dict(shape=[2], steps=2, ops=OPS), dict(shape=[1, 2], steps=1, ops=OPS), dict(shape=[1], steps=1, ops=OPS), dict(shape=[1], steps=4, ops=["yield", "nui", "reset"])],
                               thorough=[dict(shape=[2], steps=3, ops=OPS), dict(shape=[2, 2], steps=2, ops=OPS), dict(shape=[1], steps=2, ops=OPS), dict(shape=[4], steps=2, ops=OPS)])},
        bounds="every sequence of 2 operations (thorough: 3) out of 11 kinds (valid and invalid settings, aliasing, reset) with any values on one of three templates (1-2 bins, thorough 4)"),
    "T03": dict(
        harnesses={"common": dict(fn=t03_common, quick=[dict(n=2), dict(n=2, fixed=False)], thorough=[dict(n=2), dict(n=2, fixed=False), dict(n=3)]),
                   "small": dict(fn=t03_small, quick=[dict(n=1, diag=True), dict(n=2, diag=True), dict(n=2, diag=False)], thorough=[dict(n=1, diag=True), dict(n=3, diag=True), dict(n=2, diag=False)]),
                   "cov": dict(fn=t03, quick=Q_T03, thorough=Q_T03 + [dict(shape=[3], adds=["sym"]), dict(shape=[4], adds=["diag", "conc", "diag"]), dict(shape=[2], adds=["sym", "sym", "bad", "diag"]),
                                                                     dict(shape=[4], adds=["conc", "bad"], zero=[0, 3])])},
        bounds="1-3 bins (thorough 4), up to 2 added matrices (thorough 3) that are common to all bins and up to 20000 times the variance, arbitrary diagonal, arbitrary diagonally dominant symmetric (2 bins; thorough 3) or one fixed dense matrix, invalid shapes in between, bins with zero content and zero error included"),
    "T04": dict(
        harnesses={"matrix": dict(fn=t04_fun, quick=[dict(n=1), dict(n=3), dict(n=2, integer=True)], thorough=[dict(n=1), dict(n=3), dict(n=5), dict(n=2, integer=True), dict(n=4, integer=True)]),
                   "variation": dict(fn=t04, quick=[dict(shape=[2], k=2), dict(shape=[2], k=1, nvar=2, how="skew"), dict(shape=[1, 2], k=1), dict(shape=[2, 1], k=1, how="skew"), dict(shape=[2, 1], k=0, how="skew"), dict(shape=[2], k=0, how="skew"), dict(shape=[2], k=1, how="range"),
                                                    dict(shape=[1, 2], k=1, how="range")],
                                     thorough=[dict(shape=[2], k=2), dict(shape=[3], k=2), dict(shape=[2], k=2, nvar=2, how="skew"), dict(shape=[1, 2], k=1), dict(shape=[2, 1], k=2, how="skew"),
                                               dict(shape=[2, 2], k=1, how="skew"), dict(shape=[2, 2], k=1), dict(shape=[2], k=1, how="range"), dict(shape=[1, 2], k=1, how="range")])},
        bounds="matrix: up to 3 bins (thorough 5), any real nominal, up and down contents; add_variation: 1D with 2 bins (thorough 3), 2D with up to 2x1/1x2 cells (thorough 2x2), 1-2 varied entries with any value and weights, any increasing edges / fixed non-uniform edges / any range, 1-2 variations"),
}
