"""Plots: V01.  The axes are recorders; what they were asked to draw is compared with the model."""
from .build import build_channel, params_of
from .hist import cp
from .template import make_hist, make_template, prod
from .legacy import LIM, LT, M as legacy_hist, legacy_template


def axes(c):
    return c.env.axes()


def arg(call, names, name):
    a, k = call
    if name in k:
        return k[name]
    i = names.index(name)
    return a[i] if i < len(a) else None


HIST = ["x", "bins", "range", "density", "weights", "cumulative", "bottom", "histtype"]
BAR = ["x", "height", "width", "bottom"]
ERR = ["x", "y", "yerr"]
HIST2D = ["x", "y", "bins", "range", "density", "weights"]


def drawn(c, x, w, e, label):
    """content drawn by hist(x, bins=e, weights=w)"""
    x, w, e = c.vec(x), c.vec(w), c.vec(e)
    c.check(len(x) == len(w), f"{label}: as many weights as positions")
    out = [0.0] * (len(e) - 1)
    for i in range(len(e) - 1):
        for a, b in zip(x, w):
            last = a <= e[i + 1] if i == len(e) - 2 else a < e[i + 1]
            if e[i] <= a and last:
                out[i] = out[i] + b
    return out


def check_hist(c, call, e, stacks, label):
    """one stacked histogram or a single one"""
    x, w, b = (arg(call, HIST, n) for n in ("x", "weights", "bins"))
    c.eq(b, e, f"{label}: bins")
    if len(stacks) == 1 and c.np.ndim(x) == 1:
        x, w = [x], [w]
    else:
        c.check(len(stacks) == 1 or bool(call[1].get("stacked")) or call[1].get("histtype") == "barstacked", f"{label}: stacked")
    c.check(len(x) == len(stacks) and len(w) == len(stacks), f"{label}: one histogram per template")
    for k, want in enumerate(stacks):
        c.eq(drawn(c, x[k], w[k], b, label), want, f"{label}: values of template {k}")
    c.check(not arg(call, HIST, "density") and not arg(call, HIST, "cumulative"), f"{label}: plain counts")


def check_band(c, call, e, mid, half, label, rtol=None):
    x, h, w, b = (arg(call, BAR, n) for n in BAR)
    n = len(mid)
    h, b = c.vec(h), c.vec(b)
    w = c.vec(w) if c.np.ndim(w) else [w] * n
    c.check(len(h) == n and len(b) == n, f"{label}: one bar per bin")
    kw = {} if rtol is None else dict(rtol=rtol)
    c.eq(w, [q - p for p, q in zip(e, e[1:])], f"{label}: widths")
    if call[1].get("align") == "edge":
        c.eq(x, e[:-1], f"{label}: positions")
    else:
        c.eq(x, [(p + q) / 2 for p, q in zip(e, e[1:])], f"{label}: positions")
    c.eq(b, [m - u for m, u in zip(mid, half)], f"{label}: lower end", **kw)
    c.eq([p + q for p, q in zip(b, h)], [m + u for m, u in zip(mid, half)], f"{label}: upper end", **kw)


def one(c, ax, name, label):
    k = ax.get(name)
    c.check(len(k) == 1, f"{label}: one {name} call")
    return k[0]


def edges_for(c, shape, sym):
    if sym:
        return [c.edges("e" if d == 0 else "f", s) for d, s in enumerate(shape)]
    return [c.arr([float(k * 2 + k * k * (d + 1)) for k in range(s + 1)]) for d, s in enumerate(shape)]


def label_of(call, want, c, label):
    c.check(call[1].get("label") == want, f"{label}: label")


# ---------------------------------------------------------------- templates
def template(c, shape, edges=False, opts=False):
    n = prod(shape)
    E = edges_for(c, shape, edges)
    ev = [c.vec(cp(e)) for e in E]
    h, cnt, var, _ = make_hist(c, "", shape, edges=E, lo=2.0**-6, hi=4000, elo=2.0**-6)
    kw = {}
    if opts:
        kw = dict(pretty_label="Pretty", color="red")
        kw.update(dict(pretty_variable="px") if len(shape) == 1 else dict(x_pretty_var="px", y_pretty_var="py"))
    t = make_template(c, "a", h, len(shape), **kw)
    y = c.real("y", 2.0**-6, 4000)
    nu = [c.real(f"t{i}", -0.5, 0.5) for i in range(n)]
    sg = [c.sqrt(v) for v in var]
    for a, b, s in zip(cnt, nu, sg):
        c.assume(a + b * s >= 0.125)
    t.yield_param = y
    t.nui_params = c.arr(nu)
    p0 = cp(t.params)
    h0 = (cp(h.bin_counts), cp(h.bin_errors_sq))
    tot = c.isum(a + b * s for a, b, s in zip(cnt, nu, sg))
    v = [y * (a + b * s) / tot for a, b, s in zip(cnt, nu, sg)]
    r = [a * s / b for a, s, b in zip(v, sg, cnt)]
    if len(shape) == 1:
        ax = axes(c)
        t.plot_on(ax)
        k = one(c, ax, "hist", "plot")
        check_hist(c, k, ev[0], [v], "plot")
        label_of(k, "Pretty" if opts else "a", c, "plot")
        check_band(c, one(c, ax, "bar", "plot"), ev[0], v, r, "band")
        c.check(ax.get("set_xlabel")[-1][0][0] == ("px" if opts else "x"), "axis label")
    else:
        nx, ny = shape
        for d, plot in ((0, t.plot_x_projection_on), (1, t.plot_y_projection_on)):
            l = "xy"[d] + " projection"
            ax = axes(c)
            plot(ax)
            cells = [[i * ny + j for j in range(ny)] for i in range(nx)] if d == 0 else [[i * ny + j for i in range(nx)] for j in range(ny)]
            m = [c.isum(v[i] for i in q) for q in cells]
            u = [c.sqrt(c.isum(r[i] * r[i] for i in q)) for q in cells]
            check_hist(c, one(c, ax, "hist", l), ev[d], [m], l)
            check_band(c, one(c, ax, "bar", l), ev[d], m, u, l + " band")
            c.check(ax.get("set_xlabel")[-1][0][0] == (["px", "py"][d] if opts else "xy"[d]), f"{l}: axis label")
        ax = axes(c)
        t.plot_on(axes(c), ax)
        k = one(c, ax, "hist2d", "map")
        x, yy, b, w = (c.vec(arg(k, HIST2D, q)) for q in ("x", "y", "bins", "weights"))
        for d in range(2):
            c.eq(b[d], ev[d], f"map: {'xy'[d]} bins")
        out = [[0.0] * ny for _ in range(nx)]
        for p, q, z in zip(x, yy, w):
            for i in range(nx):
                for j in range(ny):
                    if ev[0][i] <= p and p < ev[0][i + 1] and ev[1][j] <= q and q < ev[1][j + 1]:
                        out[i][j] = out[i][j] + z
        c.eq([z for q in out for z in q], v, "map: values")
        c.check(ax.get("set_xlabel")[-1][0][0] == ("px" if opts else "x") and ax.get("set_ylabel")[-1][0][0] == ("py" if opts else "y"), "map: axis labels")
    c.eq(t.params, p0, "parameters unchanged")
    c.eq(h.bin_counts, h0[0], "histogram unchanged")
    c.eq(h.bin_errors_sq, h0[1], "histogram errors unchanged")


# ---------------------------------------------------------------- stacks
def stack(c, nb, nt, data="sym", post=None, colors=(), eff=1.0, dzero=()):
    ch, tp, d = build_channel(c, [nb], nt, "conc", eff, data=None)
    H = c.mod("templatefitter.histograms").Hist1d
    ed = c.vec(ch.templates[tp[0].proc].bin_edges)
    de = None
    if data:
        d = [0.0 if i in dzero else c.real(f"d{i}", 2.0**-6, 4000) for i in range(nb)]
        de = [0.0 if i in dzero else c.real(f"u{i}", 2.0**-6, 90) for i in range(nb)]
        ch.add_data(H.from_binned_data(c.arr(d), c.arr(ed), c.arr(de)))
    for k in colors:
        tp[k].t.color = "red"
    v, r, x, nus = [], [], [], []
    for k, q in enumerate(tp):
        # fitted yields may be negative
        y = c.real(f"y{k}", -400, 4000)
        b = 0.5 if post in (None, "scale") else 0.25
        nu = [c.real(f"t{k}_{i}", -b, b) for i in range(nb)]
        q.t.yield_param = y * q.eff
        q.t.nui_params = c.arr(nu)
        f = q.fractions(c, nu)
        v.append([y * q.eff * a for a in f])
        r.append([y * q.eff * a * e for a, e in zip(f, q.rel(c))])
        x.append(y)
        nus += nu
    if post:
        P = nt * (1 + nb)
        par = c.mod("templatefitter.minimizer").Parameters([f"x{i}" for i in range(P)])
        C = [[2.0 + i * 0.5 if i == j else 0.25 * ((i + j) % 3 - 1) for j in range(P)] for i in range(P)]
        er = [c.real(f"e{i}", 2.0**-6, 90) for i in range(P)]
        par.values, par.covariance, par.errors = c.arr(x + nus), c.arr(C), c.arr(er)
    rtol = None
    if post == "scale":
        n = [er[nt + a * nb: nt + (a + 1) * nb] for a in range(nt)]
        u = [c.sqrt(c.isum((n[a][i] * r[a][i]) * (n[a][i] * r[a][i]) for a in range(nt))) for i in range(nb)]
    elif post:
        J = [[0.0] * P for _ in range(nb)]
        for a, q in enumerate(tp):
            rel, t = q.rel(c), nus[a * nb:(a + 1) * nb]
            f = q.fractions(c, t)
            S = c.isum(p * (1 + b * e) for p, b, e in zip(q.cnt, t, rel))
            for i in range(nb):
                J[i][a] = q.eff * f[i]
                for j in range(nb):
                    J[i][nt + a * nb + j] = x[a] * q.eff * q.cnt[j] * rel[j] / S * ((1.0 if i == j else 0.0) - f[i])
        w = [c.isum(J[i][p] * C[p][q] * J[i][q] for p in range(P) for q in range(P)) for i in range(nb)]
        g = ch.propagate_parameter_uncertainties(par)
        for i in range(nb):
            c.positive(w[i])
            c.positive(g[i][i])
        u = [c.sqrt(z) for z in w]
        rtol = 2e-5
    else:
        u = [c.sqrt(c.isum(a[i] * a[i] for a in r)) for i in range(nb)]
    p0 = [cp(q.t.params) for q in tp]
    ax = axes(c)
    if post:
        if post == "default":
            ch.plot_post_fit_stacked_on(ax, par)
        else:
            ch.plot_post_fit_stacked_on(ax, par, post)
    else:
        ch.plot_stacked_on(ax)
    k = one(c, ax, "hist", "stack")
    check_hist(c, k, ed, v, "stack")
    lb = k[1].get("label")
    c.check(list(lb if isinstance(lb, (list, tuple)) else [lb]) == [q.t.name for q in tp], "stack: labels")
    cl = k[1].get("color")
    if cl is not None:
        c.check(len(cl) == nt and all(z is not None for z in cl) and all(cl[z] == "red" for z in colors), "stack: colors")
    m = [c.isum(a[i] for a in v) for i in range(nb)]
    check_band(c, one(c, ax, "bar", "stack"), ed, m, u, "band", rtol)
    if data:
        k = one(c, ax, "errorbar", "data")
        c.eq(arg(k, ERR, "x"), [(p + q) / 2 for p, q in zip(ed, ed[1:])], "data: positions")
        c.eq(arg(k, ERR, "y"), d, "data: counts")
        c.eq(arg(k, ERR, "yerr"), de, "data: errors")
    else:
        c.check(not ax.get("errorbar"), "no data, no points")
    for a, q in zip(p0, tp):
        c.eq(q.t.params, a, f"parameters of {q.t.name} unchanged")


def legacy(c, nt, nb=2):
    L = c.mod("templatefitter.templates_legacy")
    S = L.StackedTemplate("stack", "x", nb, LIM)
    qs = []
    for k in range(nt):
        _, name, f, cnt, sq = legacy_template(c, k, nb, False)
        S.create_template(name, f)
        qs.append(LT(c, name, S[name], cnt, sq))
    ed = [LIM[0] + (LIM[1] - LIM[0]) * i / nb for i in range(nb + 1)]
    v, r = [], []
    for k, q in enumerate(qs):
        y = c.real(f"y{k}", 2.0**-6, 4000)
        nu = [c.real(f"t{k}_{i}", -0.5, 0.5) for i in range(nb)]
        q.t.yield_param_values = y
        q.t.nui_param_values = c.arr(nu)
        w = [a * (1 + b * e) for a, b, e in zip(q.cnt, nu, q.rel(c))]
        s = c.isum(w)
        v.append([y * a / s for a in w])
        r.append([a * e for a, e in zip(v[-1], q.rel(c))])
    for k, q in enumerate(qs):
        ax = axes(c)
        q.t.plot_on(ax)
        check_hist(c, one(c, ax, "hist", q.name), ed, [v[k]], q.name)
        check_band(c, one(c, ax, "bar", q.name), ed, v[k], r[k], q.name)
    ax = axes(c)
    S.plot_on(ax)
    check_hist(c, one(c, ax, "hist", "stack"), ed, v, "stack")
    m = [c.isum(a[i] for a in v) for i in range(nb)]
    u = [c.sqrt(c.isum(a[i] * a[i] for a in r)) for i in range(nb)]
    check_band(c, one(c, ax, "bar", "stack"), ed, m, u, "band")


PROPS = {
    "V01": dict(
        harnesses={"template": dict(fn=template, quick=[dict(shape=[2], edges=True), dict(shape=[3], opts=True), dict(shape=[2, 2]), dict(shape=[1, 2], opts=True), dict(shape=[2, 1])],
                                    thorough=[dict(shape=[3], edges=True), dict(shape=[4], opts=True), dict(shape=[2, 3]), dict(shape=[3, 2], opts=True), dict(shape=[2, 2], edges=True)]),
                   "stack": dict(fn=stack, quick=[dict(nb=2, nt=2), dict(nb=2, nt=2, data=None, colors=[1], eff=0.5), dict(nb=3, nt=1, dzero=[0], colors=[0]), dict(nb=2, nt=2, post="scale"), dict(nb=2, nt=2, post="propagate", eff=0.5), dict(nb=3, nt=1, post="default", data=None, colors=[0]), dict(nb=1, nt=2, post="scale", data=None)],
                                 thorough=[dict(nb=3, nt=2), dict(nb=2, nt=3, data=None, colors=[1, 2], eff=0.5), dict(nb=4, nt=1, dzero=[0, 2], colors=[0]), dict(nb=3, nt=2, post="scale"), dict(nb=2, nt=3, post="scale"), dict(nb=2, nt=2, post="propagate", eff=0.5), dict(nb=4, nt=1, post="default", data=None)]),
                   "legacy": dict(fn=legacy, quick=[dict(nt=2)], thorough=[dict(nt=3), dict(nt=2, nb=3)])},
        bounds="1-2 templates (thorough 3) of 1-3 (4) bins or up to 2x2 (2x3) cells, any yields, nuisance parameters, data counts and errors, any increasing edges (one configuration), fixed or symbolic template contents, fixed parameter covariances of the fit result; colours and labels given or not"),
}
