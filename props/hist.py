"""Histograms: H01-H05"""

# edges and contents that are only stored or moved have no rounding beyond that of one operation
EXACT = 1e-12


def cp(a):
    """independent copy of a (nested) array-like"""
    if isinstance(a, (list, tuple)):
        return [cp(x) for x in a]
    return a.copy() if hasattr(a, "copy") else a


def in_bin(x, e, i):
    """lower edge inclusive, upper edge exclusive, the last bin with its upper edge"""
    n = len(e) - 1
    r = (x >= e[i]) & ((x <= e[i + 1]) if i == n - 1 else (x < e[i + 1]))
    return r


def count1(c, e, xs, ws):
    n = len(e) - 1
    cnt = [c.isum(c.ite(in_bin(x, e, i), w, 0.0) for x, w in zip(xs, ws)) for i in range(n)]
    sq = [c.isum(c.ite(in_bin(x, e, i), w * w, 0.0) for x, w in zip(xs, ws)) for i in range(n)]
    return cnt, sq


def count2(c, ex, ey, xs, ys, ws):
    cnt = [[c.isum(c.ite(in_bin(x, ex, i) & in_bin(y, ey, j), w, 0.0) for x, y, w in zip(xs, ys, ws))
            for j in range(len(ey) - 1)] for i in range(len(ex) - 1)]
    sq = [[c.isum(c.ite(in_bin(x, ex, i) & in_bin(y, ey, j), w * w, 0.0) for x, y, w in zip(xs, ys, ws))
           for j in range(len(ey) - 1)] for i in range(len(ex) - 1)]
    return cnt, sq


def geometry1(c, nb, geom, name="e"):
    """-> constructor arguments"""
    if geom == "edges":
        return dict(bins=c.edges(name, nb))
    lo = c.real(name + "lo", -600, 200)
    w = c.real(name + "w", 2.0**-6, 800)
    b = {"range": nb, "tuple": (nb,)}[geom]
    return dict(bins=b, range=(lo, lo + w))


def seq(c, vals, how, integer=False):
    if how == "list":
        return list(vals)
    return c.arr(vals, "i" if integer else None)


def h01(c, nb, geom, fills, ctor=False, weights="arr", data="arr", integer=False):
    H = c.mod("templatefitter.histograms").Hist1d
    kw = geometry1(c, nb, geom)
    xs_all, ws_all = [], []
    h = None
    for k, n in enumerate(fills):
        xs = [c.real(f"x{k}_{j}", -1500, 1500, integer=integer) for j in range(n)]
        if weights == "none" or weights == "mixed" and k % 2:
            ws, wa = [1.0] * n, None
        else:
            ws = [c.real(f"w{k}_{j}", -900, 900, integer=integer and weights == "int") for j in range(n)]
            wa = seq(c, ws, "list" if weights == "list" else "arr", integer and weights == "int")
        xa = seq(c, xs, data, integer)
        x0, w0 = cp(xa), cp(wa)
        if h is None and ctor:
            h = H(data=xa, weights=wa, **kw)
        else:
            if h is None:
                h = H(**kw)
            h.fill(xa, wa)
        c.eq(xa, x0, f"data of fill {k} unchanged")
        if wa is not None:
            c.eq(wa, w0, f"weights of fill {k} unchanged")
        xs_all += xs
        ws_all += ws
    e = c.vec(h.bin_edges)
    cnt, sq = count1(c, e, xs_all, ws_all)
    c.eq(h.bin_counts, cnt, "bin_counts")
    c.eq(h.bin_errors_sq, sq, "bin_errors_sq")
    c.eq(h.bin_errors, [c.sqrt(v) for v in sq], "bin_errors")
    c.check(not h.is_empty, "not empty after fill")


def h01_order(c, nb, n):
    """the same entries in another order and split"""
    H = c.mod("templatefitter.histograms").Hist1d
    e = c.edges("e", nb)
    xs = [c.real(f"x{j}", -1500, 1500) for j in range(n)]
    ws = [c.real(f"w{j}", -900, 900) for j in range(n)]
    a = H(bins=e, data=c.arr(xs), weights=c.arr(ws))
    b = H(bins=e)
    for j in c.perm(n, "ord"):
        b.fill(c.arr([xs[j]]), c.arr([ws[j]]))
    c.eq(a.bin_counts, b.bin_counts, "counts independent of order and splitting")
    c.eq(a.bin_errors_sq, b.bin_errors_sq, "errors independent of order and splitting")


def geometry2(c, nx, ny, geom):
    if geom == "edges":
        return dict(bins=(c.edges("ex", nx), c.edges("ey", ny)))
    if geom == "edgelist":
        return dict(bins=[c.edges("ex", nx), c.edges("ey", ny)])
    lx, wx = c.real("lx", -600, 200), c.real("wx", 2.0**-6, 800)
    if geom == "same":
        # one range object for both axes
        r = (lx, lx + wx)
        return dict(bins=(nx, ny), range=(r, r))
    ly, wy = c.real("ly", -600, 200), c.real("wy", 2.0**-6, 800)
    return dict(bins=(nx, ny), range=((lx, lx + wx), (ly, ly + wy)))


def h02(c, nx, ny, geom, fills, ctor=False, weights="arr", data="list"):
    H = c.mod("templatefitter.histograms").Hist2d
    kw = geometry2(c, nx, ny, geom)
    X, Y, W = [], [], []
    h = None
    for k, n in enumerate(fills):
        xs = [c.real(f"x{k}_{j}", -1500, 1500) for j in range(n)]
        ys = [c.real(f"y{k}_{j}", -1500, 1500) for j in range(n)]
        if weights == "none" or weights == "mixed" and k % 2:
            ws, wa = [1.0] * n, None
        else:
            ws = [c.real(f"w{k}_{j}", -900, 900) for j in range(n)]
            wa = seq(c, ws, "list" if weights == "list" else "arr")
        d = c.arr([xs, ys]) if data == "arr" else (c.arr(xs), c.arr(ys)) if data == "tuple" else [c.arr(xs), c.arr(ys)]
        d0, w0 = cp(d), cp(wa)
        if h is None and ctor:
            h = H(data=d, weights=wa, **kw)
        else:
            if h is None:
                h = H(**kw)
            if wa is None:
                h.fill(d)
            else:
                h.fill(d, wa)
        c.eq(list(d), list(d0), f"data of fill {k} unchanged")
        if wa is not None:
            c.eq(wa, w0, f"weights of fill {k} unchanged")
        X += xs
        Y += ys
        W += ws
    cnt, sq = count2(c, c.vec(h.bin_edges[0]), c.vec(h.bin_edges[1]), X, Y, W)
    c.eq(h.bin_counts, cnt, "bin_counts")
    c.eq(h.bin_errors_sq, sq, "bin_errors_sq")
    c.check(not h.is_empty, "not empty after fill")


def h03(c, nb, geom):
    H = c.mod("templatefitter.histograms").Hist1d
    kw = geometry1(c, nb, geom)
    h = H(**kw)
    if geom == "edges":
        e = c.vec(kw["bins"])
        rng = (e[0], e[-1])
    else:
        rng = kw["range"]
        e = [rng[0] + (rng[1] - rng[0]) * i / nb for i in range(nb + 1)]
    c.eq(h.bin_edges, e, "bin_edges", rtol=EXACT)
    c.eq(list(h.range), list(rng), "range", rtol=EXACT)
    c.eq(list(h.shape), [nb], "shape")
    c.eq(h.num_bins, nb, "num_bins")
    c.eq(h.bin_mids, [(a + b) / 2 for a, b in zip(e, e[1:])], "bin_mids")
    c.eq(h.bin_widths, [b - a for a, b in zip(e, e[1:])], "bin_widths")
    c.check(bool(h.is_empty), "new histogram is empty")
    c.eq(h.bin_counts, [0.0] * nb, "counts zero")
    c.eq(h.bin_errors_sq, [0.0] * nb, "squared errors zero")
    c.eq(h.bin_errors, [0.0] * nb, "errors zero")


def h03_2d(c, nx, ny, geom):
    H = c.mod("templatefitter.histograms").Hist2d
    kw = geometry2(c, nx, ny, geom)
    h = H(**kw)
    if geom in ("range", "same"):
        r = kw["range"]
        E = [[q[0] + (q[1] - q[0]) * i / n for i in range(n + 1)] for q, n in zip(r, (nx, ny))]
    else:
        E = [c.vec(b) for b in kw["bins"]]
        r = [(e[0], e[-1]) for e in E]
    for d, (ax, n) in enumerate((("x", nx), ("y", ny))):
        e = E[d]
        c.eq(h.bin_edges[d], e, f"{ax} bin_edges", rtol=EXACT)
        c.eq(list(h.range[d]), list(r[d]), f"{ax} range", rtol=EXACT)
        c.eq(h.bin_mids[d], [(a + b) / 2 for a, b in zip(e, e[1:])], f"{ax} bin_mids")
        c.eq(h.bin_widths[d], [b - a for a, b in zip(e, e[1:])], f"{ax} bin_widths")
    c.eq(h.x_edges, E[0], "x_edges", rtol=EXACT)
    c.eq(h.y_edges, E[1], "y_edges", rtol=EXACT)
    c.eq(list(h.xrange), list(r[0]), "xrange", rtol=EXACT)
    c.eq(list(h.yrange), list(r[1]), "yrange", rtol=EXACT)
    c.eq(list(h.shape), [nx, ny], "shape")
    c.eq(list(h.num_bins), [nx, ny], "num_bins")
    c.check(bool(h.is_empty), "new histogram is empty")
    c.eq(h.bin_counts, [[0.0] * ny] * nx, "counts zero")
    c.eq(h.bin_errors_sq, [[0.0] * ny] * nx, "squared errors zero")


def h04(c, shape, errors, fill, integer=False, fortran=False):
    hm = c.mod("templatefitter.histograms")
    dim = len(shape)
    H = hm.Hist1d if dim == 1 else hm.Hist2d
    edges = [c.edges(f"e{d}_", shape[d]) for d in range(dim)]
    n = 1
    for s in shape:
        n *= s
    cv = [c.real(f"n{i}", 0, 50000, integer=integer) for i in range(n)]
    def array(v):
        # column after column in memory
        if fortran:
            return c.arr([v[i * shape[1] + j] for j in range(shape[1]) for i in range(shape[0])]).reshape(shape[1], shape[0]).T
        return c.arr(v, "i" if integer else None).reshape(*shape)
    counts = array(cv)
    ev = [c.real(f"s{i}", 0, 900, integer=integer) for i in range(n)] if errors else None
    errs = array(ev) if errors else None
    c0, e0, s0 = cp(counts), cp(edges), cp(errs)
    arg = edges[0] if dim == 1 else tuple(edges)
    h = H.from_binned_data(counts, arg, errs) if errors else H.from_binned_data(counts, arg)
    sq = [v * v for v in ev] if errors else cv
    sig = ev if errors else [c.sqrt(v) for v in cv]
    c.eq(h.bin_counts, c0, "counts as given", rtol=EXACT)
    c.eq(c.vec(h.bin_errors), sig, "errors as given", rtol=EXACT)
    c.eq(c.vec(h.bin_errors_sq), sq, "squared errors")
    for d in range(dim):
        c.eq(h.bin_edges if dim == 1 else h.bin_edges[d], e0[d], f"edges {d}", rtol=EXACT)
    c.eq(list(h.shape), list(shape), "shape")
    c.check(not h.is_empty, "not empty")
    for f in range(fill):
        xs = [[c.real(f"x{f}_{d}", -1500, 1500)] for d in range(dim)]
        w = c.real(f"w{f}", -900, 900)
        before = [list(c.vec(h.bin_counts)), list(c.vec(h.bin_errors_sq))]
        h.fill(c.arr(xs[0]) if dim == 1 else [c.arr(x) for x in xs], c.arr([w]))
        E = [c.vec(e) for e in e0]
        if dim == 1:
            a, b = count1(c, E[0], xs[0], [w])
        else:
            a, b = count2(c, E[0], E[1], xs[0], xs[1], [w])
            a, b = [v for r in a for v in r], [v for r in b for v in r]
        c.eq(c.vec(h.bin_counts), [p + q for p, q in zip(before[0], a)], f"counts after fill {f}")
        c.eq(c.vec(h.bin_errors_sq), [p + q for p, q in zip(before[1], b)], f"squared errors after fill {f}")
        c.eq(counts, c0, "caller's counts unchanged by fill")
        if errors:
            c.eq(errs, s0, "caller's errors unchanged by fill")
    for d in range(dim):
        c.eq(edges[d], e0[d], f"caller's edges {d} unchanged")


def h05(c, nx, ny, how, refill=False, fortran=False):
    hm = c.mod("templatefitter.histograms")
    ex, ey = c.edges("ex", nx), c.edges("ey", ny)
    if how == "binned":
        if fortran:
            # column after column in memory
            cnt, sig = c.mat("n", ny, nx, 0, 50).T, c.mat("s", ny, nx, 0, 9).T
        else:
            cnt, sig = c.mat("n", nx, ny, 0, 50), c.mat("s", nx, ny, 0, 9)
        h = hm.Hist2d.from_binned_data(cnt.copy("K"), (ex, ey), sig.copy("K"))
    else:
        h = hm.Hist2d(bins=(ex, ey))
        for k in range(2):
            h.fill([c.arr([c.real(f"x{k}", -1500, 1500)]), c.arr([c.real(f"y{k}", -1500, 1500)])], c.arr([c.real(f"w{k}", 0, 900)]))
    n0, s0 = h.bin_counts.copy(), h.bin_errors_sq.copy()
    if refill:
        h.x_projection()
        h.y_projection()
        h.fill([c.arr([c.real("xr", -1500, 1500)]), c.arr([c.real("yr", -1500, 1500)])], c.arr([c.real("wr", 0, 900)]))
        n0, s0 = h.bin_counts.copy(), h.bin_errors_sq.copy()
    px, py = h.x_projection(), h.y_projection()
    c.check(isinstance(px, hm.Hist1d) and isinstance(py, hm.Hist1d), "projections are one-dimensional histograms")
    c.eq(px.bin_edges, ex, "x edges", rtol=EXACT)
    c.eq(py.bin_edges, ey, "y edges", rtol=EXACT)
    c.eq(px.bin_counts, [c.isum(n0[i, j] for j in range(ny)) for i in range(nx)], "x counts")
    c.eq(py.bin_counts, [c.isum(n0[i, j] for i in range(nx)) for j in range(ny)], "y counts")
    sx = [c.isum(s0[i, j] for j in range(ny)) for i in range(nx)]
    sy = [c.isum(s0[i, j] for i in range(nx)) for j in range(ny)]
    c.eq(px.bin_errors_sq, sx, "x squared errors")
    c.eq(py.bin_errors_sq, sy, "y squared errors")
    c.eq(px.bin_errors, [c.sqrt(v) for v in sx], "x errors")
    c.eq(py.bin_errors, [c.sqrt(v) for v in sy], "y errors")
    tot, tsq = c.isum(c.vec(n0)), c.isum(c.vec(s0))
    for nm, p in (("x", px), ("y", py)):
        c.eq(c.isum(c.vec(p.bin_counts)), tot, f"{nm} projection preserves the total count")
        c.eq(c.isum(c.vec(p.bin_errors_sq)), tsq, f"{nm} projection preserves the total squared error")
        p.fill(c.arr([c.real("xp" + nm, -1500, 1500)]), c.arr([1.5]))
    c.eq(h.bin_counts, n0, "original counts unchanged")
    c.eq(h.bin_errors_sq, s0, "original squared errors unchanged")


Q01 = [dict(nb=3, geom="edges", fills=[2, 1], ctor=False), dict(nb=2, geom="range", fills=[2], ctor=True, weights="list"),
       dict(nb=2, geom="tuple", fills=[1, 1], weights="none", data="list"), dict(nb=1, geom="edges", fills=[2, 2], ctor=True, weights="none"),
       dict(nb=2, geom="edges", fills=[2, 1], weights="int", integer=True), dict(nb=2, geom="edges", fills=[2], weights="none", integer=True, ctor=True),
       dict(nb=2, geom="edges", fills=[2], data="list", weights="arr"), dict(nb=2, geom="edges", fills=[0, 1], weights="arr"), dict(nb=2, geom="edges", fills=[1, 1, 1], weights="mixed")]
PROPS = {
    "H01": dict(
        harnesses={
            "fill": dict(fn=h01, quick=Q01, thorough=Q01 + [dict(nb=5, geom="edges", fills=[3, 2, 1], ctor=True), dict(nb=4, geom="range", fills=[4], ctor=True),
                                                            dict(nb=6, geom="edges", fills=[4], weights="none"), dict(nb=3, geom="tuple", fills=[1, 2, 3], weights="list", data="list"),
                                                            dict(nb=8, geom="edges", fills=[3], ctor=True)]),
            "order": dict(fn=h01_order, quick=[dict(nb=2, n=3)], thorough=[dict(nb=2, n=3), dict(nb=3, n=4)]),
        },
        bounds="1-3 bins, up to 4 entries in up to 2 fills (thorough: up to 8 bins, 6 entries, 3 fills), any real values in [-1500,1500], weights in [-900,900] and increasing edges in [-600,600] at least 2^-6 apart; float and integer arrays, lists",
        assumptions=["scipy.stats.binned_statistic follows its documented binning; its rounding of values within about 1e-6 bin widths above the last edge is outside the claim"]),
    "H02": dict(
        harnesses={"fill": dict(fn=h02, quick=[
            dict(nx=2, ny=2, geom="edges", fills=[1, 1]), dict(nx=2, ny=3, geom="range", fills=[2], ctor=True, weights="list"),
            dict(nx=1, ny=2, geom="edgelist", fills=[2, 1], weights="none", data="tuple"), dict(nx=2, ny=1, geom="edges", fills=[2], data="arr", ctor=True, weights="none"),
            dict(nx=3, ny=2, geom="range", fills=[1, 1], data="tuple"), dict(nx=2, ny=2, geom="edges", fills=[0, 2]),
            dict(nx=2, ny=1, geom="range", fills=[0], ctor=True, weights="none", data="tuple"), dict(nx=1, ny=2, geom="edgelist", fills=[1, 0], ctor=True), dict(nx=2, ny=1, geom="edges", fills=[1, 1], weights="mixed")],
            thorough=[dict(nx=2, ny=2, geom="edges", fills=[1, 1]), dict(nx=2, ny=3, geom="range", fills=[2], ctor=True, weights="list"),
                      dict(nx=1, ny=2, geom="edgelist", fills=[2, 1], weights="none", data="tuple"), dict(nx=2, ny=1, geom="edges", fills=[2], data="arr", ctor=True, weights="none"),
                      dict(nx=3, ny=2, geom="range", fills=[1, 1], data="tuple"), dict(nx=2, ny=2, geom="edges", fills=[0, 2]),
            dict(nx=2, ny=1, geom="range", fills=[0], ctor=True, weights="none", data="tuple"), dict(nx=1, ny=2, geom="edgelist", fills=[1, 0], ctor=True), dict(nx=2, ny=1, geom="edges", fills=[1, 1], weights="mixed"), dict(nx=1, ny=2, geom="range", fills=[1, 1, 1], weights="mixed"), dict(nx=3, ny=3, geom="edges", fills=[2, 2], ctor=True), dict(nx=4, ny=3, geom="edges", fills=[3]),
                      dict(nx=2, ny=4, geom="range", fills=[3, 1], weights="none")])},
        bounds="up to 3x2 / 2x3 cells and 3 entries in 2 fills (thorough: 4x3 cells, 4 entries), empty fills included, any real coordinates in [-1500,1500], weights in [-900,900] and increasing edges",
        assumptions=["scipy.stats.binned_statistic_2d follows its documented binning"]),
    "H03": dict(
        harnesses={"one": dict(fn=h03, quick=[dict(nb=n, geom=g) for n in (1, 2, 3, 5) for g in ("edges", "range", "tuple")],
                               thorough=[dict(nb=n, geom=g) for n in (1, 2, 3, 5, 8, 12) for g in ("edges", "range", "tuple")]),
                   "two": dict(fn=h03_2d, quick=[dict(nx=a, ny=b, geom=g) for a, b in ((2, 3), (3, 1), (2, 2)) for g in ("edges", "edgelist", "range", "same")],
                               thorough=[dict(nx=a, ny=b, geom=g) for a, b in ((2, 3), (3, 1), (2, 2), (4, 5), (1, 6)) for g in ("edges", "edgelist", "range", "same")])},
        bounds="1-5 bins per axis (thorough up to 12), any range and any increasing edges as arrays"),
    "H04": dict(
        harnesses={"binned": dict(fn=h04, quick=[dict(shape=[2], errors=True, fill=1), dict(shape=[3], errors=False, fill=1), dict(shape=[2], errors=True, fill=2, integer=True),
                                                 dict(shape=[2], errors=False, fill=1, integer=True), dict(shape=[2, 2], errors=True, fill=1), dict(shape=[2, 3], errors=False, fill=1),
                                                 dict(shape=[1, 2], errors=True, fill=1, integer=True), dict(shape=[2, 3], errors=True, fill=1, fortran=True)],
                                  thorough=[dict(shape=[2], errors=True, fill=1), dict(shape=[3], errors=False, fill=1), dict(shape=[2], errors=True, fill=2, integer=True),
                                            dict(shape=[2], errors=False, fill=1, integer=True), dict(shape=[2, 2], errors=True, fill=1), dict(shape=[2, 3], errors=False, fill=1),
                                            dict(shape=[1, 2], errors=True, fill=1, integer=True), dict(shape=[2, 3], errors=True, fill=1, fortran=True), dict(shape=[5], errors=True, fill=3), dict(shape=[3, 3], errors=False, fill=2)])},
        bounds="1D with 2-3 bins and 2D with up to 2x3 cells (thorough 5 / 3x3), any non-negative contents, float and integer arrays, 1-3 fills afterwards"),
    "H05": dict(
        harnesses={"proj": dict(fn=h05, quick=[dict(nx=2, ny=3, how="binned"), dict(nx=3, ny=2, how="binned"), dict(nx=2, ny=2, how="fill"), dict(nx=2, ny=2, how="binned", refill=True), dict(nx=3, ny=2, how="binned", fortran=True), dict(nx=3, ny=1, how="binned"), dict(nx=1, ny=2, how="binned"), dict(nx=1, ny=1, how="fill")],
                                thorough=[dict(nx=2, ny=3, how="binned"), dict(nx=3, ny=2, how="binned"), dict(nx=2, ny=2, how="fill"), dict(nx=2, ny=2, how="binned", refill=True), dict(nx=3, ny=2, how="binned", fortran=True), dict(nx=3, ny=1, how="binned"), dict(nx=1, ny=2, how="binned"), dict(nx=1, ny=1, how="fill"),
                                          dict(nx=4, ny=3, how="binned"), dict(nx=3, ny=5, how="binned", refill=True), dict(nx=3, ny=2, how="fill", refill=True)])},
        bounds="up to 3x2 / 2x3 cells (thorough 4x3, 3x5), any contents and errors"),
}
