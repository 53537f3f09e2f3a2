"""Legacy histograms and templates: L01, L02"""
from .build import gauss, nll_poisson
from .hist import count1, count2, cp, in_bin, seq
from .template import oracle_fractions, rel_err


def M(c):
    return c.mod("templatefitter.histogram_legacy")


def entries(c, k, n, integer=False):
    xs = [c.real(f"x{k}_{j}", -1500, 1500, integer=integer) for j in range(n)]
    ws = [c.real(f"w{k}_{j}", -900, 900) for j in range(n)]
    return xs, ws


# ---------------------------------------------------------------- L01
def l01_1d(c, cls, nb, geom, fills, weights="arr", data="arr", ctor=False, scale=False):
    h, e, X, W, k = None, None, [], [], 0
    if geom == "edges":
        e0 = c.edges("e", nb)
        args = (e0,)
        e = c.vec(cp(e0))
    else:
        lo, w = c.real("lo", -600, 200), c.real("w", 2.0**-6, 800)
        args = (nb, (lo, lo + w))
        e = [lo + w * i / nb for i in range(nb + 1)]
    C = getattr(M(c), cls)
    for n in fills:
        xs, ws = entries(c, k, n)
        xa = seq(c, xs, data)
        wa = None if weights == "none" else seq(c, ws, weights)
        if weights == "none":
            ws = [1.0] * n
        x0, w0 = cp(xa), cp(wa)
        if h is None and ctor:
            h = C(*args, xa, wa) if geom != "edges" else C(args[0], data=xa, weights=wa)
        else:
            if h is None:
                h = C(*args)
                c.eq(h.bin_counts, [0.0] * nb, "empty")
                c.eq(h.bin_errors_sq, [0.0] * nb, "empty errors")
            if wa is None and k % 2:
                h.fill(xa)
            else:
                h.fill(xa, wa)
        c.eq(xa, x0, f"data of fill {k} unchanged")
        if wa is not None:
            c.eq(wa, w0, f"weights of fill {k} unchanged")
        X += xs
        W += ws
        k += 1
        if cls == "Histogram":
            c.raises(lambda: h.fill(c.arr(xs), c.arr(ws + [1.0])), ValueError, "too many weights")
            c.raises(lambda: h.fill(list(xs) + [0.0], list(ws)), ValueError, "too few weights")
    c.eq(h.bin_edges, e, "bin edges")
    if cls == "Histogram":
        c.eq(list(h.limits), [e[0], e[-1]], "limits")
        c.eq([h.lower_limit, h.upper_limit], [e[0], e[-1]], "lower and upper limit")
    c.eq(h.bin_mids, [(a + b) / 2 for a, b in zip(e, e[1:])], "bin mids")
    c.eq(h.nbins if cls == "Histogram" else h.num_bins, nb, "number of bins")
    if geom != "edges":
        c.eq(h.bin_width, e[1] - e[0], "bin width")
    ev = c.vec(h.bin_edges)
    cnt, sq = count1(c, ev, X, W)
    ent = [c.isum(c.ite(in_bin(x, ev, i), 1.0, 0.0) for x in X) for i in range(nb)]
    verify1(c, h, cls, cnt, sq, ent, "filled")
    if scale:
        f = c.real("factor", -300, 300)
        h.scale(f)
        verify1(c, h, cls, [f * v for v in cnt], [f * f * v for v in sq], ent, "scaled")
        xs, ws = entries(c, k, 1)
        h.fill(c.arr(xs), c.arr(ws))
        c2, s2 = count1(c, ev, xs, ws)
        verify1(c, h, cls, [f * a + b for a, b in zip(cnt, c2)], [f * f * a + b for a, b in zip(sq, s2)], None, "filled after scaling")


def relative(c, nb):
    """relative errors, and contents that are set from outside"""
    h = M(c).Histogram(nb, (0.0, 1.0 * nb))
    ws = [c.real(f"w{i}", 2.0**-6, 900) for i in range(nb)]
    vs = [c.real(f"v{i}", 2.0**-6, 900) for i in range(nb)]
    h.fill(c.arr([i + 0.5 for i in range(nb)] * 2), c.arr(ws + vs))
    for t in range(2):
        err = [c.sqrt(a * a + b * b) for a, b in zip(ws, vs)]
        c.eq(h.bin_rel_errors, [e / (a + b) for e, a, b in zip(err, ws, vs)], f"relative errors {t}")
        c.eq(h.bin_counts, [a + b for a, b in zip(ws, vs)], f"reading relative errors {t} leaves the counts alone")
        c.eq(h.bin_errors_sq, [a * a + b * b for a, b in zip(ws, vs)], f"reading relative errors {t} leaves the errors alone")
    n, s = [c.real(f"n{i}", 2.0**-6, 900) for i in range(nb)], [c.real(f"s{i}", 2.0**-6, 900) for i in range(nb)]
    h.bin_counts = c.arr(n)
    c.eq(h.bin_counts, n, "counts set")
    c.eq(h.bin_errors_sq, [a * a + b * b for a, b in zip(ws, vs)], "setting the counts leaves the errors alone")
    h.bin_errors = c.arr(s)
    c.eq(h.bin_errors, s, "errors set")
    c.eq(h.bin_errors_sq, [a * a for a in s], "squared errors set")
    c.eq(h.bin_counts, n, "setting the errors leaves the counts alone")
    c.eq(h.bin_rel_errors, [a / b for a, b in zip(s, n)], "relative errors of what was set")
    c.check(isinstance(str(h), str), "printable")


def verify1(c, h, cls, cnt, sq, ent, tag):
    c.eq(h.bin_counts, cnt, f"{tag}: counts")
    c.eq(h.bin_errors_sq, sq, f"{tag}: squared errors")
    c.eq(h.bin_errors, [c.sqrt(v) for v in sq], f"{tag}: errors")
    if cls == "Histogram" and ent is not None:
        c.eq(h.bin_entries, ent, f"{tag}: entries")


def l01_binned(c, nb, errors, integer=False):
    H = M(c).Hist1d
    e = c.edges("e", nb)
    n = [c.real(f"n{i}", 0, 50000, integer=integer) for i in range(nb)]
    s = [c.real(f"s{i}", 0, 900) for i in range(nb)]
    na = c.arr(n, "i" if integer else None)
    sa = c.arr(s)
    h = H.from_binned_data(e, na, sa) if errors else H.from_binned_data(e, na)
    var = [a * a for a in s] if errors else list(n)
    c.eq(h.bin_counts, n, "counts")
    c.eq(h.bin_errors_sq, var, "squared errors")
    xs, ws = entries(c, 0, 2)
    h.fill(c.arr(xs), c.arr(ws))
    cnt, sq = count1(c, c.vec(e), xs, ws)
    c.eq(h.bin_counts, [a + b for a, b in zip(n, cnt)], "counts after a fill")
    c.eq(h.bin_errors_sq, [a + b for a, b in zip(var, sq)], "squared errors after a fill")
    c.eq(na, n, "caller's counts not changed")
    c.eq(sa, s, "caller's errors not changed")


def l01_2d(c, nx, ny, geom, fills, weights="arr", ctor=False, project=True):
    H = M(c).Hist2d
    if geom == "edges":
        E = [c.edges("ex", nx), c.edges("ey", ny)]
        kw = dict(bins=E)
        e = [c.vec(cp(a)) for a in E]
    else:
        L = [c.real("lx", -600, 200), c.real("ly", -600, 200)]
        W_ = [c.real("wx", 2.0**-6, 800), c.real("wy", 2.0**-6, 800)]
        kw = dict(bins=(nx, ny), limits=tuple((a, a + b) for a, b in zip(L, W_)))
        e = [[L[d] + W_[d] * i / n for i in range(n + 1)] for d, n in enumerate((nx, ny))]
    h, X, Y, W = None, [], [], []
    for k, n in enumerate(fills):
        xs = [c.real(f"x{k}_{j}", -1500, 1500) for j in range(n)]
        ys = [c.real(f"y{k}_{j}", -1500, 1500) for j in range(n)]
        ws = [1.0] * n if weights == "none" else [c.real(f"w{k}_{j}", -900, 900) for j in range(n)]
        d = c.arr([v for p in zip(xs, ys) for v in p]).reshape(len(xs), 2)
        wa = None if weights == "none" else seq(c, ws, weights)
        d0, w0 = cp(d), cp(wa)
        if h is None and ctor:
            h = H(data=d, weights=wa, **kw)
        else:
            if h is None:
                h = H(**kw)
            h.fill(d, wa) if wa is not None else h.fill(d)
        c.eq(d, d0, f"data of fill {k} unchanged")
        if wa is not None:
            c.eq(wa, w0, f"weights of fill {k} unchanged")
        X, Y, W = X + xs, Y + ys, W + ws
        if project or k == len(fills) - 1:
            cnt, sq = count2(c, c.vec(h.bin_edges[0]), c.vec(h.bin_edges[1]), X, Y, W)
            for d_, a in ((0, h.x_projection()), (1, h.y_projection())):
                pc = [c.isum(cnt[i][j] for j in range(ny)) for i in range(nx)] if d_ == 0 else [c.isum(cnt[i][j] for i in range(nx)) for j in range(ny)]
                ps = [c.isum(sq[i][j] for j in range(ny)) for i in range(nx)] if d_ == 0 else [c.isum(sq[i][j] for i in range(nx)) for j in range(ny)]
                c.eq(a[0], pc, f"{'xy'[d_]} projection after fill {k}")
                c.eq(a[1], [c.sqrt(v) for v in ps], f"errors of the {'xy'[d_]} projection after fill {k}")
    for d_ in range(2):
        c.eq(h.bin_edges[d_], e[d_], f"{'xy'[d_]} edges")
    c.eq(h.x_edges, e[0], "x edges")
    c.eq(h.y_edges, e[1], "y edges")
    c.eq(list(h.xlimits), [e[0][0], e[0][-1]], "x limits")
    c.eq(list(h.ylimits), [e[1][0], e[1][-1]], "y limits")
    c.eq(list(h.num_bins), [nx, ny], "numbers of bins")
    c.eq(h.bin_counts, cnt, "counts")
    c.eq(h.bin_errors_sq, sq, "squared errors")
    c.eq(h.bin_errors, [[c.sqrt(v) for v in r] for r in sq], "errors")


# ---------------------------------------------------------------- L02
class Column:
    def __init__(self, v):
        self.values = v


class Frame:
    """what the legacy templates need of a data frame"""

    def __init__(self, **k):
        self.k = k

    def __getitem__(self, n):
        return Column(self.k[n])


NB = 2
LIM = (0.0, 4.0)
WEIGHTS = [[1.0, 2.0, 0.5], [2.5, 1.0, 0.25], [0.75, 1.5, 1.25]]
POS = [[0.5, 3.5, 1.5], [3.5, 0.25, 1.0], [2.0, 0.0, 3.0]]


def content(pos, w, nb, lim):
    cnt, sq = [0.0] * nb, [0.0] * nb
    for x, a in zip(pos, w):
        i = min(int((x - lim[0]) / (lim[1] - lim[0]) * nb), nb - 1)
        cnt[i] = cnt[i] + a
        sq[i] = sq[i] + a * a
    return cnt, sq


class LT:
    def __init__(self, c, name, t, cnt, sq):
        self.name, self.t, self.cnt, self.sq = name, t, cnt, sq
        self.cov = [[c.ite(sq[i] == 0, 1e-14, sq[i]) if i == j else 0.0 for j in range(len(cnt))] for i in range(len(cnt))]

    def rel(self, c):
        return rel_err(c, [self.cov[i][i] for i in range(len(self.cnt))], self.cnt)

    def add(self, c, m):
        self.t.add_covariance_matrix(c.arr(m))
        n = len(self.cnt)
        self.cov = [[self.cov[i][j] + m[i][j] for j in range(n)] for i in range(n)]

    def corr(self, c):
        n = len(self.cnt)
        return [[1.0 if i == j else self.cov[i][j] / c.sqrt(self.cov[i][i] * self.cov[j][j]) for j in range(n)] for i in range(n)]


def legacy_template(c, k, nb=NB, sym=True, weight="weight", zero=False):
    L = c.mod("templatefitter.templates_legacy")
    w = [c.real(f"w{k}_{j}", 2.0**-6, 400) for j in range(3)] if sym else WEIGHTS[k]
    pos = [min(x, 1.5) for x in POS[k]] if zero else POS[k]
    f = Frame(x=c.arr(pos), **{weight: c.arr(w)})
    cnt, sq = content(pos, w, nb, LIM)
    name = "sig bkg oth".split()[k]
    return L, name, f, cnt, sq


def whole(c, h, want):
    got = c.vec(h.bin_counts)
    c.eq(len(got), len(want), "whole-numbered Asimov dataset: bins")
    for i, (a, b) in enumerate(zip(got, want)):
        c.eq(a, c.np.rint(a), f"whole-numbered Asimov dataset: bin {i} is a whole number")
        c.le(abs(a - b), 0.5, f"whole-numbered Asimov dataset: bin {i} is the nearest")


def l02_template(c, nb, cov=None, zero=False):
    L, name, f, cnt, sq = legacy_template(c, 0, nb, True, zero=zero)
    t = L.Template(name, "x", nb, LIM, f)
    q = LT(c, name, t, cnt, sq)
    tot = c.isum(cnt)
    c.eq(t.yield_param_values, tot, "initial yield")
    c.eq(t.values(), cnt, "initial values")
    c.eq(t.yield_param_errors, c.sqrt(c.isum(sq)), "initial yield error")
    def matrices():
        for i in range(nb):
            for j in range(nb):
                c.eq(t.cov_mat[i, j], q.cov[i][j], f"covariance {i} {j}", scale=1e-14 if i == j and zero and i else None)
                c.eq(t.corr_mat[i, j], q.corr(c)[i][j], f"correlation {i} {j}")
        pr = [[c.isum(t.inv_corr_mat[i, k] * q.corr(c)[k][j] for k in range(nb)) for j in range(nb)] for i in range(nb)]
        c.eq(pr, [[1.0 if i == j else 0.0 for j in range(nb)] for i in range(nb)], "inverse correlation")

    if cov == "diag":
        q.add(c, [[c.real(f"m{i}", 2.0**-6, 900) if i == j else 0.0 for j in range(nb)] for i in range(nb)])
    elif cov == "full":
        q.add(c, [[c.real(f"m{i}", 2, 6) if i == j else c.real(f"m{min(i, j)}{max(i, j)}", -0.5, 0.5) for j in range(nb)] for i in range(nb)])
        if nb == 2:
            matrices()
            q.add(c, [[0.5, 0.25], [0.25, 1.0]])
    matrices()
    nu = [c.real(f"t{i}", -0.5, 0.5) for i in range(nb)]
    y = c.real("y", 2.0**-6, 4000)
    rel = q.rel(c)
    for n, a, e in zip(cnt, nu, rel):
        c.assume(n * (1 + a * e) >= 0)
    c.assume(c.isum(n * (1 + a * e) for n, a, e in zip(cnt, nu, rel)) >= 0.05)
    fr = oracle_fractions(c, cnt, rel, nu)
    c.eq(t.fractions(c.arr(nu)), fr, "fractions")
    c.eq(t.values(), cnt, "fractions do not set parameters")
    t.yield_param_values = y
    t.nui_param_values = c.arr(nu)
    c.eq(t.yield_param_values, y, "yield read back")
    c.eq(t.nui_param_values, nu, "nuisance parameters read back")
    c.eq(t.values(), [y * a for a in fr], "values")
    c.eq(t.errors(), [y * a * e for a, e in zip(fr, rel)], "errors")
    c.eq(t.generate_asimov_dataset().bin_counts, [y * a for a in fr], "Asimov dataset")
    if cov is None and nb == 2:
        whole(c, t.generate_asimov_dataset(True), [y * a for a in fr])
    c.check(t.name == name and t.variable == "x" and t.num_bins == nb, "name, variable, number of bins")
    c.eq(list(t.limits), list(LIM), "limits")
    w = (LIM[1] - LIM[0]) / nb
    if nb in (2, 4):
        c.eq(t.bin_edges, [LIM[0] + w * i for i in range(nb + 1)], "bin edges")
        c.eq(t.bin_mids, [LIM[0] + w * (i + 0.5) for i in range(nb)], "bin mids")
        c.eq(t.bin_width, w, "bin width")
    c.eq(t.yield_param.value, y, "value of the yield parameter")
    c.eq(t.nui_params.value, nu, "values of the nuisance parameters")
    k0 = len(c.env.draws)
    toy = t.generate_toy_dataset()
    c.eq(c.vec(c.env.draws[k0][0]), [y * a for a in fr], "means of the toy dataset")
    c.eq(c.vec(toy.bin_counts), c.vec(c.env.draws[k0][1]), "toy dataset")
    # vectors that were handed in or out are the caller's own once parameters are reset
    t.nui_param_values = nv = c.arr(nu)
    t.nui_params_errors = ne = c.arr([c.real(f"ne{i}", 2.0**-6, 90) for i in range(nb)])
    e0 = c.vec(cp(ne))
    nv[0] = -77.0
    ne[0] = -77.0
    c.eq(t.nui_param_values, nu, "nuisance parameters are not the caller's vector")
    c.eq(t.nui_params_errors, e0, "nuisance parameter errors are not the caller's vector")
    c.eq(t.values(), [y * a for a in fr], "values after the caller's vector changed")
    for k in range(2):
        t.reset_parameters()
        c.eq(t.nui_param_values, [0.0] * nb, f"nuisance parameters after reset {k}")
        c.eq(t.nui_params_errors, [1.0] * nb, f"nuisance parameter errors after reset {k}")
        t.nui_param_values[nb - 1] = 0.25
        t.nui_params_errors[nb - 1] = 0.25
        t.yield_param_errors = 0.125
    t.reset_parameters()
    c.eq(t.nui_params_errors, [1.0] * nb, "nuisance parameter errors after reset")
    c.eq(t.yield_param_values, tot, "yield after reset")
    c.eq(t.nui_param_values, [0.0] * nb, "nuisance parameters after reset")
    c.eq(t.yield_param_errors, c.sqrt(c.isum(sq)), "yield error after reset")
    c.eq(t.values(), cnt, "values after reset")


def l02_stack(c, nt, nb=NB, sym=False, dzero=(), cov=False, how="create", empty=None):
    L = c.mod("templatefitter.templates_legacy")
    S = L.StackedTemplate("stack", "x", nb, LIM)
    qs = []
    for k in range(nt):
        _, name, f, cnt, sq = legacy_template(c, k, nb, sym)
        if k == empty:
            f, cnt, sq = Frame(x=c.arr([LIM[1] + 1, LIM[0] - 2]), weight=c.arr([1.0, 2.0])), [0.0] * nb, [0.0] * nb
        if how == "create" or k == 1:
            S.create_template(name, f)
            t = S[name]
        else:
            t = L.Template(name, "x", nb, LIM, f)
            S.add_template(name, t)
        qs.append(LT(c, name, t, cnt, sq))
    for args in (("y", nb, LIM), ("x", nb + 1, LIM), ("x", nb, (LIM[0], LIM[1] + 1))):
        bad = L.Template("bad", args[0], args[1], args[2], Frame(x=c.arr([0.5]), y=c.arr([0.5]), weight=c.arr([1.0])))
        c.raises(lambda: S.add_template("bad", bad), ValueError, "incompatible template")
    if cov and cov != "late":
        qs[-1].add(c, [[2.0 if i == j else 0.5 for j in range(nb)] for i in range(nb)])
    c.check(S.num_templates == nt and list(S.template_names) == [q.name for q in qs], "templates")
    d = [0.0 if i in dzero else c.real(f"d{i}", 2.0**-20, 4000) for i in range(nb)]
    data = M(c).Hist1d.from_binned_data(c.np.linspace(LIM[0], LIM[1], nb + 1), c.arr(d))
    nll = S.create_nll(data)
    if cov == "late":
        # the likelihood object already exists and has been used
        nll(c.arr([3.0] * nt + [0.25] * (nt * nb)))
        qs[-1].add(c, [[2.0 if i == j else 0.5 for j in range(nb)] for i in range(nb)])
    P = nt * (1 + nb)
    names = [q.name + "_yield" for q in qs] + [f"{q.name}_nui_{i}" for q in qs for i in range(nb)]
    c.check(list(nll.param_names) == names, "parameter names")
    tot = [c.isum(q.cnt) for q in qs]
    c.eq(nll.x0, tot + [0.0] * (nt * nb), "starting values")
    x = [c.real(f"p{i}", 0 if i < nt else -0.5, 4000 if i < nt else 0.5) for i in range(P)]
    ts = [x[nt + k * nb: nt + (k + 1) * nb] for k in range(nt)]
    fr = [[0.0] * nb if k == empty else oracle_fractions(c, q.cnt, q.rel(c), t) for k, (q, t) in enumerate(zip(qs, ts))]
    v = [c.isum(x[k] * fr[k][i] for k in range(nt)) for i in range(nb)]
    for a in v:
        c.assume(a >= 2.0**-20)
    xa = c.arr(x)
    c.eq(S.fractions(c.arr(x[nt:])), fr, "fractions")
    want = nll_poisson(c, v, d)
    for q, t in zip(qs, ts):
        inv = q.t.inv_corr_mat
        want = want + gauss(c, inv, t)
        pr = [[c.isum(inv[i, k] * q.corr(c)[k][j] for k in range(nb)) for j in range(nb)] for i in range(nb)]
        c.eq(pr, [[1.0 if i == j else 0.0 for j in range(nb)] for i in range(nb)], f"inverse correlation of {q.name}")
    r = nll(xa)
    c.eq(r, want, "likelihood")
    c.finite([r], "finite likelihood")
    c.eq(nll.x0, tot + [0.0] * (nt * nb), "evaluation leaves the parameters alone")
    e = [c.real(f"e{i}", 2.0**-6, 90) for i in range(P)]
    S.update_parameters(xa, c.arr(e))
    c.eq(nll.x0, x, "parameters read back")
    c.eq(S.yield_param_errors, e[:nt], "yield errors read back")
    c.eq(S.nui_param_errors, [e[nt + k * nb: nt + (k + 1) * nb] for k in range(nt)], "nuisance parameter errors read back")
    xa[:] = -77.0
    c.eq(nll.x0, x, "parameters after the caller's vector changed")
    c.eq(S.values(), v, "values")
    for k, q in enumerate(qs):
        c.eq(q.t.values(), [x[k] * a for a in fr[k]], f"values of {q.name}")
    er = [c.isum((x[k] * fr[k][i] * qs[k].rel(c)[i]) ** 2 for k in range(nt)) for i in range(nb)]
    c.eq([a * a for a in c.vec(S.errors())], er, "squared errors")
    c.eq(S.generate_asimov_dataset().bin_counts, v, "Asimov dataset")
    if nt == 1 and not sym:
        whole(c, S.generate_asimov_dataset(integer_values=True), v)
    c.eq([p.value for p in S.yield_params], x[:nt], "values of the yield parameters")
    c.eq([p.value for p in S.nui_params], ts, "values of the nuisance parameters")
    k0 = len(c.env.draws)
    toy = S.generate_toy_dataset()
    c.eq(c.vec(c.env.draws[k0][0]), v, "means of the toy dataset")
    c.eq(c.vec(toy.bin_counts), c.vec(c.env.draws[k0][1]), "toy dataset")
    k = c.pick(nt, "which")
    z = c.real("other", 2.0**-6, 4000)
    qs[k].t.yield_param_values = z
    c.eq(S.yield_param_values, [z if i == k else x[i] for i in range(nt)], "one yield set")
    c.eq(S.nui_param_values, ts, "nuisance parameters after setting a yield")
    z = [c.real(f"second{i}", -4000, 4000) for i in range(nt)]
    S.yield_param_values = c.arr(z)
    c.eq(S.yield_param_values, z, "yields set again")
    c.eq(S.yield_param_errors, e[:nt], "yield errors after the yields have been set")
    z = c.rvec("secondnui", nt * nb, -2, 2)
    S.nui_param_values = c.arr(z)
    c.eq(S.nui_param_values, [z[k * nb:(k + 1) * nb] for k in range(nt)], "nuisance parameters set again")
    c.eq(S.nui_param_errors, [e[nt + k * nb: nt + (k + 1) * nb] for k in range(nt)], "nuisance parameter errors after the nuisance parameters have been set")
    z = c.rvec("seconderr", nt * (1 + nb), 2.0**-6, 90)
    S.yield_param_errors = c.arr(z[:nt])
    S.nui_param_errors = c.arr(z[nt:])
    c.eq(S.yield_param_errors, z[:nt], "yield errors set again")
    c.eq(S.nui_param_errors, [z[nt + k * nb: nt + (k + 1) * nb] for k in range(nt)], "nuisance parameter errors set again")
    S.reset_parameters()
    c.eq(nll.x0, tot + [0.0] * (nt * nb), "parameters after reset")


PROPS = {
    "L01": dict(
        harnesses={"one": dict(fn=l01_1d, quick=[dict(cls=k, nb=n, geom=g, fills=f, weights=w, data=d, ctor=t, scale=s) for k, n, g, f, w, d, t, s in (
            ("Histogram", 2, "range", [1, 1], "arr", "arr", False, True), ("Histogram", 3, "range", [2], "none", "list", True, False), ("Histogram", 2, "range", [1, 1], "list", "list", True, False),
            ("Hist1d", 2, "range", [1, 1], "arr", "arr", False, False), ("Hist1d", 2, "edges", [2, 1], "arr", "arr", True, False), ("Hist1d", 3, "edges", [1, 1], "none", "arr", False, False), ("Hist1d", 1, "range", [2], "list", "list", True, False), ("Histogram", 2, "range", [0, 2], "arr", "arr", False, False), ("Histogram", 2, "range", [0], "none", "arr", True, False), ("Hist1d", 2, "edges", [1, 0], "arr", "arr", True, False))],
            thorough=[dict(cls=k, nb=n, geom=g, fills=f, weights=w, data=d, ctor=t, scale=s) for k, n, g, f, w, d, t, s in (
                ("Histogram", 3, "range", [2, 2], "arr", "arr", False, True), ("Histogram", 4, "range", [3], "none", "list", True, False), ("Histogram", 2, "range", [2, 1], "list", "list", True, True),
                ("Hist1d", 3, "range", [2, 1], "arr", "arr", False, False), ("Hist1d", 3, "edges", [2, 2], "arr", "arr", True, False), ("Hist1d", 3, "edges", [1, 1, 1], "none", "arr", False, False), ("Hist1d", 4, "edges", [3], "list", "list", True, False))]),
            "relative": dict(fn=relative, quick=[dict(nb=2)], thorough=[dict(nb=4)]),
            "binned": dict(fn=l01_binned, quick=[dict(nb=2, errors=True), dict(nb=2, errors=False, integer=True)], thorough=[dict(nb=3, errors=True), dict(nb=3, errors=False, integer=True), dict(nb=2, errors=False)]),
            "two": dict(fn=l01_2d, quick=[dict(nx=2, ny=1, geom="edges", fills=[1, 1]), dict(nx=1, ny=2, geom="range", fills=[1, 1], weights="none"), dict(nx=2, ny=2, geom="edges", fills=[1], ctor=True, weights="list"), dict(nx=2, ny=1, geom="edges", fills=[0, 1])],
                        thorough=[dict(nx=2, ny=2, geom="edges", fills=[1, 1]), dict(nx=2, ny=3, geom="range", fills=[1, 1], weights="none"), dict(nx=3, ny=2, geom="edges", fills=[2], ctor=True, weights="list"), dict(nx=2, ny=1, geom="range", fills=[2, 1])])},
        bounds="1-3 bins (thorough 4) or up to 2x2 (2x3) cells, 1-3 (4) entries in 1-2 (3) fills with any values and weights, any range or increasing edges, any scale factor, binned data with any counts"),
    "L02": dict(
        harnesses={"template": dict(fn=l02_template, quick=[dict(nb=2), dict(nb=2, cov="diag"), dict(nb=2, cov="full"), dict(nb=3, zero=True)], thorough=[dict(nb=4), dict(nb=3, cov="diag"), dict(nb=3, cov="full"), dict(nb=4, zero=True), dict(nb=2, cov="full")]),
                   "stack": dict(fn=l02_stack, quick=[dict(nt=1), dict(nt=2), dict(nt=2, dzero=[1], cov=True, how="add"), dict(nt=1, nb=3, sym=True, dzero=[0]), dict(nt=2, cov="late"), dict(nt=2, empty=1), dict(nt=2, empty=0, how="add")],
                                 thorough=[dict(nt=1), dict(nt=3), dict(nt=2, dzero=[1], cov=True, how="add"), dict(nt=2, sym=True), dict(nt=2, nb=3, cov=True), dict(nt=2, nb=3, cov="late", how="add"), dict(nt=1, nb=3, sym=True)])},
        bounds="1-2 templates (thorough 3) of 2-3 (4) bins with 3 entries each, any weights (single template) or fixed ones, up to 2 covariance matrices; any yields, nuisance parameters and data (exactly 0 or in [2^-20, 4000])"),
}
