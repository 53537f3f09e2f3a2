"""Channels: C01-C08"""
from .hist import cp
from .template import make_hist, make_template, prod
from .build import (Tpl, build_channel, build_model, data_hist, expected, gauss, nll_poisson, params_of, same_params, split, std_edges,
                    std_range, template_for, vector)


def ch_vector(c, tpls, tlo=-6, thi=6, ylo=-5, yhi=4000, free=None):
    """yields and nuisance parameters; with `free` only the nuisance parameters of these bins are arbitrary"""
    ys = [c.real(f"y{k}", ylo, yhi) for k in range(len(tpls))]
    ts = [[c.real(f"t{k}_{i}", tlo, thi) if free is None or i in free else ((3 * i + 2 * k) % 7 - 3) / 16 for i in range(q.n)] for k, q in enumerate(tpls)]
    return ys, ts


def by_proc(tpls, xs):
    return {q.proc: x for q, x in zip(tpls, xs)}


def conc_cov(n):
    return [[1.0 + 0.25 * i if i == j else 0.375 if abs(i - j) == 1 else 0.125 for j in range(n)] for i in range(n)]


# ---------------------------------------------------------------- C01
def c01(c, shape, ntemp, mode, zero=(), eff="sym", cov=False):
    ch, tp, _ = build_channel(c, shape, ntemp, mode, eff, zero, data=None)
    if cov:
        q = tp[-1]
        m = conc_cov(q.n)
        q.t.add_cov_mat(c.arr(m))
        q.mats.append(m)
    ys, ts = ch_vector(c, tp, -0.25, 0.25) if mode == "sym" else ch_vector(c, tp)
    if mode == "sym":
        # keep every normalisation positive
        for q, t in zip(tp, ts):
            c.assume(c.isum(n * (1 + a * e) for n, a, e in zip(q.cnt, t, q.rel(c))) >= 0.25)
    want = expected(c, tp, by_proc(tp, ys), by_proc(tp, ts))
    x = c.arr(ys + [a for t in ts for a in t])
    p0 = [cp(q.t.params) for q in tp]
    got = ch.bin_counts_from_param_values(x)
    c.eq(c.vec(got), want, "expected counts")
    for q, p in zip(tp, p0):
        c.eq(q.t.params, p, "evaluation leaves the templates alone")
    c.eq(x, ys + [a for t in ts for a in t], "evaluation leaves the vector alone")
    # another yield in the same vector
    y1 = c.real("y_", -5, 4000)
    x[0] = y1
    c.eq(c.vec(ch.bin_counts_from_param_values(x)), expected(c, tp, by_proc(tp, [y1] + ys[1:]), by_proc(tp, ts)), "expected counts after the vector was changed in place")
    c.eq(x, [y1] + ys[1:] + [a for t in ts for a in t], "second evaluation leaves the vector alone")
    ya, ta = c.arr(ys), c.arr([a for t in ts for a in t])
    ch.update_parameters(ya, ta)
    for k, (q, y, t) in enumerate(zip(tp, ys, ts)):
        c.eq(q.t.yield_param, y * q.eff, f"yield of template {k}")
        c.eq(q.t.nui_params, t, f"nuisance parameters of template {k}")
    tot = [c.isum(c.vec(q.t.values)[i] for q in tp) for i in range(tp[0].n)]
    c.eq(tot, want, "sum of the template values")
    c.eq(ya, ys, "caller's yields unchanged")
    ya[0] = -99.0
    ta[0] = -99.0
    c.eq(tp[0].t.yield_param, ys[0] * tp[0].eff, "yield independent of the caller's array")
    c.eq(tp[0].t.nui_params, ts[0], "nuisance parameters independent of the caller's array")


# ---------------------------------------------------------------- C02
def c02(c, shape, ntemp, dzero=(), cov=(), mode="conc", via="channel", zero=(), t=0.5, free=None, weak=0):
    n = prod(shape)
    if via == "channel":
        ch, tp, d = build_channel(c, shape, ntemp, mode, "zero" if free is None else "sym", zero, dzero)
    else:
        ps = [f"p{k}" for k in range(ntemp)]
        m, info, dat = build_model(c, [("c", shape, ps)], ps, mode, dzero=dzero)
        ch, tp, d = m.channels["c"], info["c"], dat["c"]
    for k in cov:
        if weak:
            # correlations of some permille
            tp[k].t.add_cov_mat(c.arr([[c.real(f"m{k}_{i}", 1, 4) if i == j else c.real(f"m{k}_{min(i, j)}_{max(i, j)}", -weak, weak) for j in range(n)] for i in range(n)]))
        elif len(shape) == 1:
            tp[k].t.add_cov_mat(c.arr(conc_cov(n)))
        else:
            E = std_edges(c, shape)
            tp[k].t.add_variation([c.arr([0.5, 1.5]), c.arr([0.5, 2.5])], c.arr([5.0, 2.0]), c.arr([3.0, 2.5]))
    ys, ts = ch_vector(c, tp, -t, t, ylo=0.0 if free is None else 0.25, free=free)
    x = c.arr(ys + [a for t in ts for a in t])
    v = c.vec(ch.bin_counts_from_param_values(x))
    for a in v:
        c.assume(a >= 2.0**-20)
    if via == "channel":
        ya, ta = c.arr(ys), c.arr([a for t in ts for a in t])
        ya[0] = ys[0] + 3
        ch.nll_contribution(ya, ta)
        # the same arrays with another content
        ya[0] = ys[0]
        got = ch.nll_contribution(ya, ta)
    else:
        nll = m.create_nll()
        x[0] = ys[0] + 3
        nll(x)
        x[0] = ys[0]
        got = nll(x)
    c.check(c.np.ndim(got) == 0, "a scalar")
    c.finite(got, "finite")
    want = nll_poisson(c, v, d)
    for q, t in zip(tp, ts):
        want = want + gauss(c, q.t.inv_corr_mat, t)
    c.eq(got, want, "negative log likelihood")


# ---------------------------------------------------------------- C03
def disjoint_channel(c, nb, dim=1):
    """every template fills one bin, so the yields are the expectations"""
    T = c.mod("templatefitter.templates")
    hm = c.mod("templatefitter.histograms")
    ch = T.Channel("c", nb, std_range([nb]))
    ts = []
    for k in range(nb):
        cnt = [5.0 if i == k else 0.0 for i in range(nb)]
        h = hm.Hist1d.from_binned_data(c.arr(cnt), std_edges(c, [nb])[0], c.arr([1.0 if i == k else 0.0 for i in range(nb)]))
        t = make_template(c, f"p{k}", h)
        ch.add_template(f"p{k}", t)
        ts.append(t)
    return ch, ts


def c03_point(c, nb, dzero=(), nui=True):
    """nll >= 0, zero at the match, positive off it"""
    ch, ts = disjoint_channel(c, nb)
    h, d = data_hist(c, "d", [nb], dzero, "sym", lo=2**-20, hi=4000)
    ch.add_data(h)
    vs = [c.real(f"v{i}", 2**-20, 4000) for i in range(nb)]
    tv = [c.real(f"t{i}", -3, 3) if nui and i % nb == i // nb else 0.0 for i in range(nb * nb)]
    # one-bin templates: nuisance parameters do not move the shape, they only cost
    got = ch.nll_contribution(c.arr(vs), c.arr(tv))
    c.le(0.0, got, "never negative")
    for i in range(nb):
        # 'differs' by a margin visible in floating point
        if i in dzero:
            c.lt(0.0, got, f"positive when empty bin {i} has an expectation")
        else:
            k = c.pick(2, f"side{i}")
            far = c.real(f"far{i}", 2**-20, 5000)
            c.assume(far >= d[i] * 1.125 if k else far <= d[i] * 0.875)
            w = list(vs)
            w[i] = far
            c.lt(0.0, ch.nll_contribution(c.arr(w), c.arr(tv)), f"positive when bin {i} differs")
    if not dzero:
        c.eq(ch.nll_contribution(c.arr(d), c.np.zeros(nb * nb)), 0.0, "zero where expectation equals data")
    for i in range(nb * nb):
        if nui and i % nb == i // nb:
            big = c.real("tb", 0.25, 3)
            u = list(tv)
            u[i] = big
            c.lt(0.0, ch.nll_contribution(c.arr(vs), c.arr(u)), "positive when a nuisance parameter is off")
            break


def c03_asimov(c, shape, ntemp, cons=False):
    """on the Asimov data of the model at t=0 no point is below the generating one"""
    ps = [f"p{k}" for k in range(ntemp)]
    spec = [("a", shape, ps)]
    m, info, _ = build_model(c, spec, ps, "conc", eff=1.0, data=None)
    gen = [c.real(f"g{k}", 2**-20, 4000) for k in range(ntemp)]
    nn = sum(q.n for q in info["a"])
    m.update_parameters(c.arr(gen + [0.0] * nn))
    m.add_data(**m.generate_asimov_dataset())
    nll = m.create_nll()
    y = [c.real(f"y{k}", 2**-20, 4000) for k in range(ntemp)]
    x = y + [0.0] * nn
    at = nll(c.arr(gen + [0.0] * nn))
    c.eq(at, 0.0, "zero at the generating point")
    c.le(at, nll(c.arr(x)), "no lower value at other yields")
    t = [c.real(f"t{i}", -0.25, 0.25) if i == 0 else 0.0 for i in range(nn)]
    c.le(0.0, nll(c.arr(gen + t)), "no lower value at another nuisance parameter")


# ---------------------------------------------------------------- C04
SPEC4 = [("a", [2], ["p", "q"]), ("b", [2], ["q"])]


class Content:
    """final content of a model, replayable on a fresh one"""

    def __init__(self):
        self.log = []


def c04(c, steps, ops, first=()):
    T = c.mod("templatefitter.templates")
    hm = c.mod("templatefitter.histograms")
    procs = ["p", "q", "r"]

    def hist(k, z=()):
        return template_for(c, "", "p", [2], "conc", z, k=k)

    def fresh():
        m = T.MultiChannelTemplate()
        for p in procs:
            m.define_process(p)
        for n in "ab":
            m.define_channel(n, 2, std_range([2]))
        return m

    # content: list of (channel, process, kind of histogram, efficiency), per template list of matrices, data per channel
    cont = {"t": [("a", "p", 0, 0.5), ("a", "q", 1, 0.75), ("b", "q", 2, 1.25)], "mats": {}, "data": {"a": [4.0, 9.0], "b": [0.0, 7.0]}, "cons": {}, "par": {}}

    def mk_data(v):
        return hm.Hist1d.from_binned_data(c.arr(v), std_edges(c, [2])[0])

    def construct(cont):
        m = fresh()
        for ch, p, k, e in cont["t"]:
            t = template_for(c, "", p, [2], "conc", k=k)[3]
            for what, v in cont["mats"].get((ch, p), []):
                if what == "cov":
                    t.add_cov_mat(c.arr(v))
                else:
                    t.add_variation(c.arr(v[0]), c.arr(v[1]), c.arr(v[2]))
            m.add_template(ch, p, t, e)
        for ch, d in cont["data"].items():
            m.add_data(**{ch: mk_data(d)})
        for p, (v, e) in cont["cons"].items():
            m.add_gaussian_constraint_on_yield(p, v, e)
        for (ch, p), v in cont["par"].items():
            m.channels[ch][p].params = c.arr(v)
        return m

    def point(tag, m):
        n = m.num_processes + m.num_nui_params
        return c.arr([c.real(f"{tag}y{i}", 2.0**-6, 4000) if i < 3 else c.real(f"{tag}t{i}", -0.5, 0.5) for i in range(n)])

    m = construct(cont)
    nll = m.create_nll()

    def evaluate(tag, n=None):
        n = n or nll
        x = c.arr([5.0, 7.0, 3.0] + [0.25 * ((i % 3) - 1) for i in range(m.num_nui_params)])
        p0 = params_of(m)
        r = n(x)
        for ch in m.channels.values():
            k = len(ch.templates)
            ch.bin_counts_from_param_values(c.arr([2.0] * k + [0.0] * ch.num_nui_params))
        same_params(c, p0, params_of(m), f"{tag}: evaluation leaves the parameters alone")
        return r

    evaluate("start")
    nvar = [0]
    for s in range(steps):
        op = first[s] if s < len(first) else ops[c.pick(len(ops), f"op{s}")]
        if op == "template":
            if any(x[:2] == ("b", "r") for x in cont["t"]):
                continue
            cont["t"].append(("b", "r", 3, 0.375))
            m.add_template("b", "r", template_for(c, "", "r", [2], "conc", k=3)[3], 0.375)
        elif op == "cov":
            cont["mats"].setdefault(("a", "q"), []).append(("cov", conc_cov(2)))
            m.channels["a"]["q"].add_cov_mat(c.arr(conc_cov(2)))
        elif op == "var":
            v = ([0.5, 3.5], [2.0, 5.0], [4.0, 1.5])
            cont["mats"].setdefault(("a", "p"), []).append(("var", v))
            m.channels["a"]["p"].add_variation(*[c.arr(a) for a in v])
        elif op == "data":
            cont["data"]["a"] = [6.0 + s, 2.0]
            m.add_data(a=mk_data(cont["data"]["a"]))
        elif op == "data0":
            cont["data"]["b"] = [3.0, 0.0]
            m.channels["b"].add_data(mk_data([3.0, 0.0]))
        elif op == "update":
            n = m.num_processes + m.num_nui_params
            v = [c.real(f"u{s}_{i}", 2.0**-6, 4000) if i < 3 else c.real(f"u{s}_{i}", -0.5, 0.5) for i in range(n)]
            m.update_parameters(c.arr(v))
            cont["par"] = {}
            for ch in m.channels:
                for p, t in m.channels[ch].templates.items():
                    cont["par"][(ch, p)] = list(c.vec(t.params))
        elif op == "setyield":
            m.set_yield("q", 11.0)
            for ch in "ab":
                cont["par"][(ch, "q")] = list(c.vec(m.channels[ch]["q"].params))
        elif op == "reset":
            m.reset_parameters()
            cont["par"] = {}
        elif op == "constraint":
            cont["cons"]["p"] = (4.0 + s, 2.0)
            m.add_gaussian_constraint_on_yield("p", 4.0 + s, 2.0)
        elif op == "newnll":
            nll2 = m.create_nll()
            evaluate(f"new {s}", nll2)
        evaluate(f"step {s}")
    f = construct(cont)
    fn = f.create_nll()
    x = point("x", m)
    c.check(nll.param_names == fn.param_names, "same parameters as a fresh model")
    c.eq(nll.x0, fn.x0, "starting values as in a fresh model")
    c.eq(nll(x), fn(x), "likelihood as in a fresh model")
    c.eq(m.create_nll()(x), fn(x), "new likelihood as in a fresh model")
    ys, ts = m.generate_per_channel_parameters(x)
    for i, (n, ch) in enumerate(m.channels.items()):
        v = c.np.concatenate((ys[i], ts[i]))
        c.eq(ch.bin_counts_from_param_values(v), f.channels[n].bin_counts_from_param_values(v), f"expectation of channel {n} as in a fresh model")
        for p, t in ch.templates.items():
            c.eq(t.values, f.channels[n][p].values, f"values of {n} {p} as in a fresh model")
            c.eq(t.errors, f.channels[n][p].errors, f"errors of {n} {p} as in a fresh model")


# ---------------------------------------------------------------- C05
def c05(c, shape, what, content, differ, model=False):
    """content: what the channel holds; what: the kind of object offered; differ: in what respect it differs"""
    T = c.mod("templatefitter.templates")
    hm = c.mod("templatefitter.histograms")
    dim = len(shape)
    E = [c.edges(f"e{d}_", s, gap=0.5) for d, s in enumerate(shape)]
    bins = shape[0] if dim == 1 else tuple(shape)
    R = tuple((e[0], e[-1]) for e in E)
    if differ == "bins_tuple":
        bins = tuple(shape)
    if model:
        m = T.MultiChannelTemplate()
        for p in ("p", "q", "r"):
            m.define_process(p)
        m.define_channel("c", bins, R[0] if dim == 1 else R)
        ch = m.channels["c"]
        add_t = lambda p, t, e: m.add_template("c", p, t, e)
        add_d = lambda h: m.add_data(c=h)
    else:
        ch = T.Channel("c", bins, R[0] if dim == 1 else R)
        add_t, add_d = ch.add_template, ch.add_data

    def hist(edges, k, integer=False):
        shp = [len(e) - 1 for e in edges]
        n = prod(shp)
        cnt = c.arr([float(2 + (i + k) % 3) for i in range(n)]).reshape(*shp)
        return (hm.Hist1d if dim == 1 else hm.Hist2d).from_binned_data(cnt, edges[0] if dim == 1 else tuple(edges))
    n = 0
    own = T.Template1d if dim == 1 else T.Template2d

    class Derived(own):
        """a template of another type with the same interface"""

    if "t" in content:
        if differ == "superclass":
            add_t("p", Derived("p", "x" if dim == 1 else ("x", "y"), hist(E, 0)), 0.5)
        else:
            add_t("p", make_template(c, "p", hist(E, 0), dim), 0.5)
        n = 1
    if "d" in content:
        add_d(hist(E, 1))

    def state():
        return (list(ch.processes), list(ch.efficiencies.items()), ch.num_templates, [id(t) for t in ch.templates.values()], ch.has_data,
                cp(c.vec(ch.data_bin_counts)) if ch.has_data else None, [cp(t.params) for t in ch.templates.values()])
    before = state()
    F = [cp(e) for e in E]
    same = False
    if differ == "edge":
        # one inner edge of one axis moved by an arbitrary visible amount, or not at all
        d = c.pick(dim, "axis") if dim > 1 else 0
        if shape[d] < 2:
            d = 1 - d
        j = 1 + c.pick(shape[d] - 1, "which")
        if c.flag("moved"):
            x = c.real("newedge", -600, 600)
            c.assume(x >= F[d][j - 1] + 0.05)
            c.assume(x <= F[d][j + 1] - 0.05)
            c.assume(abs(x - F[d][j]) >= 0.001)
            c.assume(abs(x - F[d][j]) * 1000000 >= F[d][-1] - F[d][0])
            F[d][j] = x
            same = not content
        else:
            same = True
    elif differ == "range":
        d = c.pick(dim, "axis") if dim > 1 else 0
        j = 0 if c.flag("low") else -1
        s = c.real("shift", 0.001, 400)
        F[d][j] = F[d][j] - s if j == 0 else F[d][j] + s
    elif differ == "bins":
        d = c.pick(dim, "axis") if dim > 1 else 0
        v = c.vec(F[d])
        F[d] = c.arr([v[0], (v[0] + v[1]) / 2] + v[1:]) if c.flag("more") or shape[d] == 1 else c.arr(v[:1] + v[2:])
    elif differ == "swap":
        F = [F[1], F[0]]
        same = False
    elif differ in ("none", "bins_tuple", "process", "type", "superclass"):
        same = differ in ("none", "bins_tuple")
    h = hist(F, 2)
    if what == "t":
        t = make_template(c, "q", h, dim)
        if differ == "type":
            t = Derived("q", "x" if dim == 1 else ("x", "y"), h)
        proc = "p" if differ == "process" else "q"
        f = lambda: add_t(proc, t, 0.25)
    else:
        f = lambda: add_d(h)
    if same:
        f()
        if what == "t":
            c.check(ch["q"] is t, "the given template is used")
            c.eq(ch.efficiencies["q"], 0.25, "its efficiency is used")
            c.check(list(ch.processes) == before[0] + ["q"], "templates in order of addition")
            c.check(ch.num_templates == n + 1, "one more template")
        else:
            c.check(ch.has_data, "has data")
            c.eq(c.vec(ch.data_bin_counts), c.vec(h.bin_counts), "the given data is used")
            c.check(list(ch.processes) == before[0], "templates unchanged")
        if n or what == "t":
            k = ch.num_templates
            if what == "d":
                # the likelihood sees the new data
                x = c.arr([3.0] * k), c.np.zeros(k * prod(shape))
                v = c.vec(ch.bin_counts_from_param_values(c.np.concatenate(x)))
                c.eq(ch.nll_contribution(*x), nll_poisson(c, v, c.vec(h.bin_counts)), "the likelihood uses the given data")
    else:
        c.raises(f, Exception, f"{differ} rejected")
        after = state()
        c.check(after[:1] == before[:1] and after[2:5] == before[2:5], "rejected call leaves templates and data in place")
        c.check(len(after[1]) == len(before[1]) and all(a[0] == b[0] for a, b in zip(after[1], before[1])), "rejected call leaves the efficiencies in place")
        for a, b in zip(after[1], before[1]):
            c.eq(a[1], b[1], "efficiency unchanged")
        if before[5] is not None:
            c.eq(after[5], before[5], "data unchanged")
        for a, b in zip(after[6], before[6]):
            c.eq(a, b, "parameters unchanged")
        # and the channel still takes compatible content
        add_t("r", Derived("r", "x" if dim == 1 else ("x", "y"), hist(E, 3)) if differ == "superclass" else make_template(c, "r", hist(E, 3), dim), 1.0)
        c.check(list(ch.processes) == before[0] + ["r"], "still usable after a rejected call")


# ---------------------------------------------------------------- C06 / C07
def params_model(c, spec, procs, mode="conc"):
    m, info, dat = build_model(c, spec, procs, mode, data=None)
    for name, ts in info.items():
        for q in ts:
            q.t.yield_param = c.real(f"y_{name}{q.proc}", 2.0**-6, 2.0**20)
            q.t.nui_params = c.arr([c.real(f"t_{name}{q.proc}{i}", -0.5, 0.5) for i in range(q.n)])
    return m, info


def current(c, info, name):
    ts = info[name]
    return [c.isum(c.vec(q.t.values)[i] for q in ts) for i in range(ts[0].n)]


def edges_of(h, dim):
    return [h.bin_edges] if dim == 1 else list(h.bin_edges)


def c06(c, spec, procs, integer, via="model"):
    hm = c.mod("templatefitter.histograms")
    m, info = params_model(c, spec, procs)
    p0 = params_of(m)
    want = {n: current(c, info, n) for n in info}
    kw = dict(integer_values=True) if integer else {}
    ds = m.generate_asimov_dataset(**kw) if via == "model" else {n: ch.generate_asimov_dataset(**kw) for n, ch in m.channels.items()}
    c.check(list(ds) == list(info), "one dataset per channel")
    same_params(c, params_of(m), p0, "generation leaves the parameters alone")

    def verify(what):
        for name, shape, _ in spec:
            h = ds[name]
            n = c.vec(h.bin_counts)
            c.eq(list(h.shape), list(shape), f"{what}: shape of {name}")
            if integer:
                for i, (a, b) in enumerate(zip(n, want[name])):
                    c.le(a - 0.5, b, f"{what}: nearest integer {name} {i}")
                    c.le(b, a + 0.5, f"{what}: nearest integer {name} {i}")
                    c.eq(c.np.rint(a), a, f"{what}: integer {name} {i}")
            else:
                c.eq(n, want[name], f"{what}: counts of {name}")
            c.eq(c.vec(h.bin_errors_sq), n, f"{what}: squared errors of {name}")
            c.eq(c.vec(h.bin_errors), [c.sqrt(a) for a in n], f"{what}: errors of {name}")
            for a, b in zip(edges_of(h, len(shape)), std_edges(c, shape)):
                c.eq(a, b, f"{what}: edges of {name}")
    verify("generated")
    m.add_data(**ds)
    for name in info:
        c.eq(c.vec(m.channels[name].data_bin_counts), c.vec(ds[name].bin_counts), f"accepted as data of {name}")
        for q in info[name]:
            q.t.yield_param = 77.0
            q.t.nui_params = c.arr([0.125] * q.n)
    verify("after later changes")
    m.reset_parameters()
    h = ds[list(info)[0]]
    h.fill(c.arr([1.0]) if len(spec[0][1]) == 1 else [c.arr([1.0]), c.arr([1.0])], c.arr([1.0]))
    same_params(c, params_of(m), [[[q.initial] + [0.0] * q.n for q in info[n]] for n in info], "filling the dataset leaves the model alone")


def c07(c, spec, procs, via="model"):
    m, info = params_model(c, spec, procs)
    p0 = params_of(m)
    want = {n: current(c, info, n) for n in info}
    reps = []
    for rep in range(2):
        k0 = len(c.env.draws)
        ds = m.generate_toy_dataset() if via == "model" else {n: ch.generate_toy_dataset() for n, ch in m.channels.items()}
        c.check(list(ds) == list(info), "one dataset per channel")
        same_params(c, params_of(m), p0, "generation leaves the parameters alone")
        mus, vals = [], []
        for mu, v in c.env.draws[k0:]:
            vals += [x for x in c.vec(v)]
            mus += [x for x in c.vec(c.np.broadcast_to(mu, v.shape) if v.shape else c.np.array([mu]))]
        tot = [x for n in info for x in want[n]]
        c.check(len(vals) == len(tot), "one draw per bin of every channel")
        c.eq(mus, tot, "mean of every draw is the expectation of its bin")
        got = [x for n in info for x in c.vec(ds[n].bin_counts)]
        c.eq(got, vals[:len(got)], "every bin holds its own unmodified draw")
        for name, shape, _ in spec:
            h = ds[name]
            n = c.vec(h.bin_counts)
            c.eq(list(h.shape), list(shape), f"shape of {name}")
            c.eq(c.vec(h.bin_errors_sq), n, f"squared errors of {name}")
            for a, b in zip(edges_of(h, len(shape)), std_edges(c, shape)):
                c.eq(a, b, f"edges of {name}")
        reps.append((ds, got))
    c.check(len(set(c.env.seeds)) == len(c.env.seeds), "no two draws from the same seed")
    m.add_data(**reps[0][0])
    for name in info:
        c.eq(c.vec(m.channels[name].data_bin_counts), c.vec(reps[0][0][name].bin_counts), f"accepted as data of {name}")
    for q in info[list(info)[0]]:
        q.t.yield_param = 5.0
    c.eq([x for n in info for x in c.vec(reps[0][0][n].bin_counts)], reps[0][1], "first dataset unaffected by the second and by later changes")


# ---------------------------------------------------------------- C08
def c08(c, shape, ntemp, cov, mode="conc", zero=(), at=None):
    ch, tp, _ = build_channel(c, shape, ntemp, mode, "sym" if mode == "conc" else 1.0, zero, data=None)
    Parameters = c.mod("templatefitter.minimizer").Parameters
    if at is None:
        ys, ts = ch_vector(c, tp, -0.25, 0.25, 1, 40)
    else:
        # given fit values, e.g. a negative yield
        ys, ts = [float(a) for a in at], [[((3 * i + 2 * k) % 7 - 3) / 16 for i in range(q.n)] for k, q in enumerate(tp)]
    x = ys + [a for t in ts for a in t]
    P = len(x)
    if cov == "sym":
        C = [[None] * P for _ in range(P)]
        for i in range(P):
            for j in range(i, P):
                C[i][j] = C[j][i] = c.real(f"c{i}_{j}", 1, 4) if i == j else c.real(f"c{i}_{j}", -0.0625, 0.0625)
    else:
        C = [[2.0 + i * 0.5 if i == j else 0.25 * ((i + j) % 3 - 1) for j in range(P)] for i in range(P)]
    par = Parameters([f"x{i}" for i in range(P)])
    par.values = c.arr(x)
    par.covariance = c.arr(C)
    par.errors = c.arr([c.sqrt(C[i][i]) for i in range(P)])
    n = tp[0].n
    J = [[0.0] * P for _ in range(n)]
    for k, (q, y, t) in enumerate(zip(tp, ys, ts)):
        rel = q.rel(c)
        f = q.fractions(c, t)
        S = c.isum(a * (1 + b * e) for a, b, e in zip(q.cnt, t, rel))
        for i in range(n):
            J[i][k] = q.eff * f[i]
            for j in range(n):
                J[i][len(tp) + k * n + j] = y * q.eff * q.cnt[j] * rel[j] / S * ((1.0 if i == j else 0.0) - f[i])
    want = [[c.isum(J[i][a] * C[a][b] * J[j][b] for a in range(P) for b in range(P)) for j in range(n)] for i in range(n)]
    got = ch.propagate_parameter_uncertainties(par)
    c.eq(got, want, "post-fit bin covariance", rtol=2e-5)
    for i in range(n):
        c.positive(want[i][i])
        c.positive(got[i][i])
    u = ch.get_post_fit_bin_uncertainty(par)
    c.eq(list(u.shape), [n], "one uncertainty per bin")
    c.eq(u, [c.sqrt(want[i][i]) for i in range(n)], "post-fit bin uncertainty", rtol=2e-5)
    c.eq(par.values, x, "fit values unchanged")
    for q in tp:
        c.eq(q.t.params, [q.initial] + [0.0] * n, "templates unchanged")


OPS4 = ["template", "cov", "var", "data", "data0", "update", "setyield", "reset", "constraint", "newnll"]
M1 = [["a", [2], ["p", "q"]], ["b", [3], ["q"]]]
M2 = [["a", [2, 2], ["q", "p"]], ["b", [1, 2], ["p"]]]
M3 = [["a", [3], ["r", "p", "q"]], ["b", [2], ["q", "r"]], ["z", [1], ["p"]]]
C05Q = [dict(shape=s, what=w, content=k, differ=d) for s, w, k, d in [
    ([3], "t", "t", "edge"), ([3], "d", "t", "edge"), ([3], "t", "d", "edge"), ([3], "d", "d", "edge"), ([3], "t", "", "edge"), ([3], "d", "", "edge"),
    ([2], "t", "td", "range"), ([2], "d", "td", "range"), ([2], "t", "", "range"), ([2], "d", "", "range"), ([2], "t", "", "bins"), ([2], "d", "", "bins"), ([2], "t", "td", "bins"),
    ([2], "d", "t", "bins"), ([2], "t", "t", "process"), ([2], "t", "td", "type"), ([2], "t", "td", "superclass"), ([2, 1], "t", "t", "superclass"), ([2], "t", "", "bins_tuple"), ([2], "d", "t", "bins_tuple"),
    ([2, 2], "t", "t", "edge"), ([2, 3], "d", "t", "edge"), ([2, 2], "t", "d", "edge"), ([2, 2], "t", "", "range"), ([2, 2], "d", "t", "range"), ([1, 2], "t", "t", "bins"), ([2, 1], "d", "", "bins"),
    ([1, 2], "t", "", "swap"), ([2, 2], "t", "t", "type"), ([2, 2], "t", "t", "process"), ([2, 2], "d", "t", "none"), ([1, 1], "t", "td", "none")]]
C05Q += [dict(shape=[2], what=w, content="td", differ=d, model=True) for w, d in (("t", "edge"), ("d", "edge"), ("t", "range"), ("t", "process"), ("d", "none"))]
PROPS = {
    "C01": dict(
        harnesses={"expect": dict(fn=c01, quick=[dict(shape=[2], ntemp=1, mode="sym"), dict(shape=[2], ntemp=2, mode="conc"), dict(shape=[3], ntemp=3, mode="conc", zero=[1]), dict(shape=[2, 2], ntemp=2, mode="conc"),
                                                 dict(shape=[2], ntemp=2, mode="conc", cov=True), dict(shape=[1], ntemp=2, mode="sym"), dict(shape=[2, 1], ntemp=1, mode="sym", eff=0.5),
                                                 dict(shape=[2], ntemp=2, mode="conc", eff="any"), dict(shape=[2], ntemp=2, mode="conc", eff="whole")],
                                  thorough=[dict(shape=[2], ntemp=1, mode="sym"), dict(shape=[2], ntemp=2, mode="sym"), dict(shape=[3], ntemp=3, mode="conc", zero=[1]), dict(shape=[2, 2], ntemp=2, mode="conc"),
                                            dict(shape=[2], ntemp=2, mode="conc", cov=True), dict(shape=[1], ntemp=2, mode="sym"), dict(shape=[2, 1], ntemp=1, mode="sym", eff=0.5), dict(shape=[5], ntemp=4, mode="conc"),
                                            dict(shape=[2, 3], ntemp=3, mode="conc"), dict(shape=[3], ntemp=2, mode="sym", zero=[0])])},
        bounds="1-3 templates with 1-3 bins or up to 2x2 cells (thorough: 4 templates, 5 bins, 2x3 cells); any yields in [-5,4000], efficiencies and nuisance parameters in [-6,6] ([-0.25,0.25] with arbitrary contents); contents and errors fixed or (small configurations) arbitrary"),
    "C02": dict(
        harnesses={"nll": dict(fn=c02, quick=[dict(shape=[2], ntemp=1, t=8), dict(shape=[2], ntemp=2, dzero=[0]), dict(shape=[3], ntemp=2, dzero=[1], cov=[1]), dict(shape=[2, 2], ntemp=2, dzero=[2]),
                                              dict(shape=[2], ntemp=2, dzero=[0, 1], cov=[0, 1], t=6), dict(shape=[2], ntemp=2, dzero=[1], via="model"), dict(shape=[1], ntemp=1, mode="sym"),
                                              dict(shape=[1, 2], ntemp=2, cov=[0]), dict(shape=[2], ntemp=1, mode="sym", dzero=[0]), dict(shape=[2], ntemp=1, cov=[0], weak=0.0078125, t=6)],
                               thorough=[dict(shape=[2], ntemp=1, t=8), dict(shape=[2], ntemp=2, dzero=[0]), dict(shape=[2], ntemp=2, dzero=[0], t=6), dict(shape=[2], ntemp=2, dzero=[0, 1], cov=[0, 1], t=6), dict(shape=[3], ntemp=2, dzero=[1], cov=[1]), dict(shape=[2, 2], ntemp=2, dzero=[2]),
                                         dict(shape=[2], ntemp=2, dzero=[0, 1], cov=[0, 1]), dict(shape=[2], ntemp=2, dzero=[1], via="model"), dict(shape=[1], ntemp=1, mode="sym"),
                                         dict(shape=[1, 2], ntemp=2, cov=[0]), dict(shape=[2], ntemp=1, mode="sym", dzero=[0]), dict(shape=[4], ntemp=2, dzero=[1]),
                                         dict(shape=[3], ntemp=3, dzero=[1], cov=[2]), dict(shape=[2, 3], ntemp=2, dzero=[5]), dict(shape=[2], ntemp=2, mode="sym")])},
        bounds="1-2 templates with 1-3 bins or up to 2x2 cells (thorough 3 templates with 3 bins, 2 with 4 bins or 2x3 cells), any yields up to 4000, efficiencies, nuisance parameters in [-0.5,0.5] (small configurations [-8,8]) with expectations of at least 2^-20, data bins exactly zero or in [2^-20,4000], identity and dense correlation matrices",
        assumptions=["the logarithm is an opaque function with ln(ab)=ln a+ln b; log1p(x)=ln(1+x)", "data contents between 0 and 1e-100 (treated as zero by the code) are outside the claim"]),
    "C03": dict(
        harnesses={"point": dict(fn=c03_point, quick=[dict(nb=1), dict(nb=2), dict(nb=2, dzero=[0]), dict(nb=1, dzero=[0])], thorough=[dict(nb=1), dict(nb=2), dict(nb=2, dzero=[0]), dict(nb=1, dzero=[0]), dict(nb=3), dict(nb=3, dzero=[1])],
                                 opts=dict(logfacts=True)),
                   "asimov": dict(fn=c03_asimov, quick=[dict(shape=[2], ntemp=1), dict(shape=[2], ntemp=2)], thorough=[dict(shape=[2], ntemp=1), dict(shape=[2], ntemp=2), dict(shape=[3], ntemp=2), dict(shape=[2, 2], ntemp=2)],
                                  opts=dict(logfacts=True))},
        bounds="1-2 bins (thorough 3) with arbitrary expectation and data per bin in [2^-20,4000] and one nuisance parameter; Asimov data of models with 1-2 templates and 2 bins (thorough 4 cells) with arbitrary generating and tested yields",
        assumptions=["the logarithm satisfies 1-1/u <= ln u <= u-1 with equality only at u=1", "a bin 'differs' if by at least 1/8 of its content (smaller differences are below what float64 can always resolve)"]),
    "C04": dict(
        harnesses={"history": dict(fn=c04, quick=[dict(steps=2, ops=OPS4, first=[a]) for a in OPS4], thorough=[dict(steps=3, ops=OPS4, first=[a, b]) for a in OPS4 for b in OPS4], budget=700)},
        bounds="two channels, three processes, two bins, fixed contents; every sequence of 2 (thorough 3) changes out of 10 kinds with an evaluation before and after each; the compared point and the updated parameters are arbitrary (yields up to 4000, nuisance parameters in [-0.5,0.5])"),
    "C05": dict(
        harnesses={"accept": dict(fn=c05, quick=C05Q, thorough=C05Q + [dict(shape=[4], what=w, content="td", differ="edge") for w in "td"] + [dict(shape=[3, 3], what=w, content="t", differ="edge") for w in "td"])},
        bounds="channels with 1-3 bins or up to 2x3 cells (thorough 4 bins, 3x3), any edges; the offered object agrees or differs by any visible amount (>= 0.001) in one inner edge, one end of the range, the number of bins, the axis order, its process or its type",
        assumptions=["edge differences between 0 and 0.001 are not explored: the code compares inner edges with a relative tolerance of 1e-9"]),
    "C06": dict(
        harnesses={"asimov": dict(fn=c06, quick=[dict(spec=M1, procs=["p", "q"], integer=False), dict(spec=M1, procs=["p", "q"], integer=True, via="channel"), dict(spec=M2, procs=["p", "q"], integer=False, via="channel"),
                                                 dict(spec=M2, procs=["p", "q"], integer=True)],
                                  thorough=[dict(spec=s, procs=["p", "q", "r"], integer=i, via=v) for s in (M1, M2, M3) for i in (False, True) for v in ("model", "channel")])},
        bounds="models with 2 channels, up to 2 processes, 2-3 bins or up to 2x2 cells (thorough 3 channels, 3 processes); any current yields up to 2^20 and nuisance parameters in [-0.5,0.5], independent per template",
        assumptions=["rounding of values exactly half way between two integers may go either way"]),
    "C07": dict(
        harnesses={"toy": dict(fn=c07, quick=[dict(spec=M1, procs=["p", "q"]), dict(spec=M2, procs=["p", "q"]), dict(spec=M1, procs=["p", "q"], via="channel")],
                               thorough=[dict(spec=s, procs=["p", "q", "r"], via=v) for s in (M1, M2, M3) for v in ("model", "channel")])},
        bounds="as C06; two toy datasets per model, every drawn count an arbitrary non-negative integer",
        assumptions=["scipy's Poisson generator draws independently with the given mean; it is replaced by arbitrary counts and its arguments are checked"]),
    "C08": dict(
        harnesses={"propagate": dict(fn=c08, quick=[dict(shape=[2], ntemp=1, cov="sym"), dict(shape=[2], ntemp=2, cov="conc"), dict(shape=[3], ntemp=1, cov="conc"), dict(shape=[1, 2], ntemp=1, cov="sym"), dict(shape=[1], ntemp=2, cov="sym"),
                                                 dict(shape=[2], ntemp=2, cov="sym", at=[8, -1.5]), dict(shape=[2], ntemp=2, cov="conc", at=[8, -1.5]), dict(shape=[3], ntemp=2, cov="sym", at=[8, 3]), dict(shape=[2], ntemp=1, cov="sym", at=[8])],
                                     thorough=[dict(shape=[2], ntemp=1, cov="sym"), dict(shape=[2], ntemp=2, cov="conc"), dict(shape=[2], ntemp=2, cov="sym"), dict(shape=[3], ntemp=1, cov="sym"), dict(shape=[1, 2], ntemp=1, cov="sym"),
                                               dict(shape=[1], ntemp=2, cov="sym"), dict(shape=[3], ntemp=2, cov="conc"),
                                               dict(shape=[2], ntemp=2, cov="sym", at=[8, -1.5]), dict(shape=[2], ntemp=2, cov="conc", at=[8, -1.5]), dict(shape=[3], ntemp=2, cov="sym", at=[8, 3]), dict(shape=[2], ntemp=1, cov="sym", at=[8])])},
        bounds="1-2 templates, 1-3 bins, any positive fit values or fixed ones with a negative yield (nuisance parameters in [-0.25,0.25]), efficiencies 0 to 1.5, any symmetric covariance in a neighbourhood of diagonal or one fixed dense matrix",
        assumptions=["numdifftools.Jacobian is represented by the exact derivative of the executed expression; its numerical error is allowed for with a relative tolerance of 2e-5"]),
}
