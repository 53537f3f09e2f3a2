"""Statistics and utilities: S01, U01, U02"""
from .hist import cp


# ---------------------------------------------------------------- S01
DOFS = [1, 2, 7, 60, 250, 1000]


def s01(c, n, zero=(), which="pearson", equal=False):
    st = c.mod("templatefitter.stats")
    v = [c.real(f"v{i}", 2.0**-20, 4000) for i in range(n)]
    d = [0.0 if i in zero else v[i] if equal else c.real(f"d{i}", 2.0**-20, 4000) for i in range(n)]
    dof = DOFS[c.pick(len(DOFS), "dof")]
    da, va = c.arr(d), c.arr(v)
    if which == "pearson":
        stat, red, p = st.pearson_chi2_test(da, va, dof)
        want = c.isum((a - b) * (a - b) / b for a, b in zip(d, v))
    elif which == "default":
        e = [c.real(f"e{i}", 2.0**-10, 900) for i in range(n)]
        ea = c.arr(e)
        stat, red, p = st.default_chi2_test(da, va, ea, dof)
        want = c.isum((a - b) * (a - b) / (s * s) for a, b, s in zip(d, v, e))
        c.eq(ea, e, "uncertainties not changed")
    else:
        stat, red, p = st.cowan_binned_likelihood_gof(da, va, dof)
        want = 0.0
        for i, (a, b) in enumerate(zip(d, v)):
            want = want + (2 * b if i in zero else 2 * (a * c.log(a / b) + b - a))
    c.finite([stat, red, p], "finite result")
    c.eq(stat, want, "statistic")
    c.eq(red, want / dof, "statistic per degree of freedom")
    c.eq(p, c.chi2sf(stat, dof), "upper tail probability")
    if n <= 8 or which == "cowan":
        c.le(0, stat, "statistic is not negative")
    if equal and not zero:
        c.eq(stat, 0, "zero for perfect agreement")
    c.eq(da, d, "data not changed")
    c.eq(va, v, "expectation not changed")


def s01_tail(c, which):
    """statistics far above the degrees of freedom: the probability is small, not zero"""
    st = c.mod("templatefitter.stats")
    v, d = c.real("v", 90, 110), c.real("d", 300, 330, wide=False)
    dof = DOFS[c.pick(3, "dof")]
    if which == "default":
        stat, red, p = st.default_chi2_test(c.arr([d]), c.arr([v]), c.arr([c.real("e", 10, 12)]), dof)
    else:
        stat, red, p = getattr(st, which)(c.arr([d]), c.arr([v]), dof)
    c.assume(stat >= 200)
    c.assume(stat <= 1200)
    c.check(p > 0, "probability is not rounded to zero")
    c.eq(p / c.chi2sf(stat, dof), 1.0, "relative accuracy of the probability")


# ---------------------------------------------------------------- U01
def matrix(c, key, n, zero, sym, lo=0.0625, hi=30):
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n) if sym else range(n):
            if i in zero or j in zero:
                continue
            if i == j:
                m[i][i] = c.real(f"{key}{i}", lo, hi)
            else:
                m[i][j] = c.real(f"{key}{i}_{j}", -hi, hi)
                if sym:
                    m[j][i] = m[i][j]
    return m


def u01(c, n, zero=(), sym=True, lo=0.0625, hi=30):
    u = c.mod("templatefitter.utility")
    m = matrix(c, "c", n, zero, sym, lo, hi)
    a = c.arr(m)
    r = u.cov2corr(a)
    c.eq(list(r.shape), [n, n], "shape")
    for i in range(n):
        for j in range(n):
            w = 0.0 if i in zero or j in zero else 1.0 if i == j else m[i][j] / c.sqrt(m[i][i] * m[j][j])
            c.eq(r[i, j], w, f"correlation {i} {j}")
            if sym:
                c.eq(r[i, j], r[j, i], f"symmetry {i} {j}")
    c.eq(a, m, "covariance not changed")
    var = c.arr([m[i][i] for i in range(n)])
    rc = cp(r)
    b = u.corr2cov(r, var)
    c.eq(b, m, "covariance from correlation and variances")
    c.eq(r, rc, "correlation not changed")
    c.eq(var, [m[i][i] for i in range(n)], "variances not changed")


def u01_back(c, n, zero=()):
    u = c.mod("templatefitter.utility")
    v = [0.0 if i in zero else c.real(f"v{i}", 2.0**-20, 3000) for i in range(n)]
    R = [[1.0 if i == j else None for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            R[i][j] = R[j][i] = c.real(f"r{i}_{j}", -1, 1)
    C = u.corr2cov(c.arr(R), c.arr(v))
    for i in range(n):
        for j in range(n):
            c.eq(C[i, j], 0 if i in zero or j in zero else v[i] if i == j else R[i][j] * c.sqrt(v[i]) * c.sqrt(v[j]), f"covariance {i} {j}")
    R2 = u.cov2corr(C)
    for i in range(n):
        for j in range(n):
            c.eq(R2[i, j], 0 if i in zero or j in zero else R[i][j], f"correlation {i} {j}")


# ---------------------------------------------------------------- U02
def u02(c, n, pieces, kind, given=None):
    u = c.mod("templatefitter.utility")
    x = c.rvec("x", n, -20, 20)
    a = c.arr(x) if kind == "array" else list(x)
    src = (v for v in x) if kind == "iterator" else a
    sizes, left, o = [], n, 0
    want = []
    for k in range(pieces):
        s = c.pick(left + 2, f"size{k}") if given is None else given[k]
        if s == left + 1:
            sizes.append(None)
            want.append(x[o:])
            # what follows a None is not used
            if c.flag("more"):
                sizes.append(2)
            break
        sizes.append(s)
        want.append(x[o:o + s])
        o += s
        left -= s
    asked = list(sizes)
    got = list(u.array_split_into(src, sizes))
    c.check(len(got) == len(want), "number of pieces")
    for k, (g, w) in enumerate(zip(got, want)):
        c.eq(list(g.shape), [len(w)], f"size of piece {k}")
        c.eq(c.vec(g), w, f"content of piece {k}")
    c.check(sizes == asked, "sizes not changed")
    if kind != "iterator":
        c.eq(c.vec(a), x, "input not changed")


def u02_rows(c, n, m):
    """rows of a matrix"""
    u = c.mod("templatefitter.utility")
    x = [[c.real(f"x{i}_{j}", -20, 20) for j in range(m)] for i in range(n)]
    k = c.pick(n + 1, "first")
    got = list(u.array_split_into(c.arr(x), [k, None]))
    c.check(len(got) == 2, "pieces")
    for i in range(k):
        c.eq(got[0][i], x[i], f"row {i} in the first piece")
    for i in range(k, n):
        c.eq(got[1][i - k], x[i], f"row {i} in the second piece")


PROPS = {
    "S01": dict(
        harnesses={"gof": dict(fn=s01, quick=[dict(n=n, which=w, zero=z, equal=e) for w in ("pearson", "cowan", "default") for n, z, e in ((1, [], False), (2, [0], False), (3, [], False), (2, [0, 1], False), (3, [], True))],
                               thorough=[dict(n=n, which=w, zero=z, equal=e) for w in ("pearson", "cowan", "default") for n, z, e in ((1, [], False), (2, [0], False), (4, [], False), (3, [0, 2], False), (4, [], True), (6, [1], False), (5, [1], True))],
                               opts=dict(logfacts=True)),
                   "tail": dict(fn=s01_tail, quick=[dict(which=w) for w in ("pearson_chi2_test", "default", "cowan_binned_likelihood_gof")], opts=dict(logfacts=True))},
        bounds="1-3 (thorough 6) bins, data exactly 0 or any value in [2^-20, 4000], any expectation in [2^-20, 4000], uncertainties in [2^-10, 900], degrees of freedom out of 1, 2, 7, 60, 250, 1000; the chi-square tail is an opaque function of statistic and degrees of freedom, compared relatively for statistics in [200, 1200] and 1, 2, 7 degrees of freedom"),
    "U01": dict(
        harnesses={"cov2corr": dict(fn=u01, quick=[dict(n=1), dict(n=2), dict(n=2, sym=False), dict(n=3, zero=[1]), dict(n=3), dict(n=2, zero=[0, 1]), dict(n=2, lo=1e-24, hi=1e-17), dict(n=2, lo=1e6, hi=1e12), dict(n=2, lo=1e-9, hi=1e9)],
                                    thorough=[dict(n=3, lo=1e-24, hi=1e-17), dict(n=3, lo=1e-9, hi=1e9), dict(n=1), dict(n=4), dict(n=4, zero=[0, 2]), dict(n=3, sym=False), dict(n=5)]),
                   "corr2cov": dict(fn=u01_back, quick=[dict(n=2), dict(n=3, zero=[0]), dict(n=3)], thorough=[dict(n=1), dict(n=3), dict(n=4, zero=[1]), dict(n=5)])},
        bounds="matrices up to 3x3 (thorough 5x5), symmetric or not, any entries, rows of vanishing variance at any listed position"),
    "U02": dict(
        harnesses={"split": dict(fn=u02, quick=[dict(n=n, pieces=p, kind=k) for n, p, k in ((4, 3, "array"), (3, 3, "list"), (3, 2, "iterator"), (0, 2, "array"))],
                                 thorough=[dict(n=n, pieces=p, kind=k) for n, p, k in ((6, 4, "array"), (5, 4, "list"), (4, 3, "iterator"), (0, 3, "array"))]),
                   "rows": dict(fn=u02_rows, quick=[dict(n=3, m=2)], thorough=[dict(n=5, m=2)])},
        bounds="sequences of up to 4 (thorough 6) elements given as array, list or iterator, every list of up to 3 (4) piece sizes not exceeding the sequence, with or without None; rows of a matrix"),
}
