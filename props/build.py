"""Builds models for the harnesses together with an independent description of them."""
from .hist import cp
from .template import make_hist, make_template, prod, rel_err


class Tpl:
    """what the harness knows about one template"""

    def __init__(self, proc, t, cnt, var, eff, h):
        self.proc, self.t, self.cnt, self.var, self.eff, self.h = proc, t, cnt, var, eff, h
        self.n = len(cnt)
        self.mats = []
        self.cov_diag = None

    def diag(self, c):
        d = [c.ite(v == 0, 1e-14, v) for v in self.var]
        for m in self.mats:
            d = [a + m[i][i] for i, a in enumerate(d)]
        return d

    def rel(self, c):
        return rel_err(c, self.diag(c), self.cnt)

    def fractions(self, c, nui):
        w = [n * (1 + a * e) for n, a, e in zip(self.cnt, nui, self.rel(c))]
        s = c.isum(w)
        # the formula needs a normalisation different from zero
        c.assume(s >= 0.05)
        return [x / s for x in w]

    @property
    def initial(self):
        r = 0.0
        for x in self.cnt:
            r = r + x
        return r


NUM = [3.0, 5.0, 2.0, 7.0, 4.0, 6.0, 1.0, 8.0]
SIG = [0.5, 1.0, 0.75, 1.25, 0.25, 1.5, 0.5, 1.0]
# larger models: many bins, many channels, many processes (names of which contain each other)
LB = [["a", [12], ["q", "p"]], ["b", [3, 4], ["p"]]]
LC = [[f"c{i}", [1], ["p"]] for i in range(11)]
LP = [["a", [1], [f"p{i}" for i in (3, 10, 1, 0, 2, 4, 5, 6, 7, 8, 9)]], ["b", [2], ["p10", "p1"]]]
LPP = [f"p{i}" for i in range(11)]


def template_for(c, key, proc, shape, mode="conc", zero=(), edges=None, k=0, name=None):
    """mode: conc - fixed contents; sym - contents and errors are variables"""
    n = prod(shape)
    hm = c.mod("templatefitter.histograms")
    if mode == "conc":
        cnt = [0.0 if i in zero else NUM[(i * 3 + k * 5) % 8] for i in range(n)]
        sig = [0.0 if i in zero else SIG[(i + k * 3) % 8] for i in range(n)]
    else:
        cnt = [0.0 if i in zero else c.real(f"{key}n{i}", 0.5, 20) for i in range(n)]
        sig = [0.0 if i in zero else c.real(f"{key}s{i}", 0.125, 2) for i in range(n)]
    E = edges if edges is not None else std_edges(c, shape)
    H = hm.Hist1d if len(shape) == 1 else hm.Hist2d
    h = H.from_binned_data(c.arr(cnt).reshape(*shape), E[0] if len(shape) == 1 else tuple(E), c.arr(sig).reshape(*shape))
    return h, cnt, [s * s for s in sig], make_template(c, name or f"template of {proc}", h, len(shape))


def std_edges(c, shape):
    return [c.arr([float(k * 2 + k * k * bend(d, s)) for k in range(s + 1)]) for d, s in enumerate(shape)]


def bend(d, s):
    """widths differ along the second axis and along a first axis with an even number of bins"""
    return d + (s % 2 == 0)


def std_range(shape):
    r = tuple((0.0, float(s * 2 + s * s * bend(d, s))) for d, s in enumerate(shape))
    return r[0] if len(shape) == 1 else r


def data_hist(c, key, shape, zero=(), mode="sym", edges=None, lo=2.0**-20, hi=4000):
    hm = c.mod("templatefitter.histograms")
    n = prod(shape)
    d = [0.0 if i in zero else (c.real(f"{key}{i}", lo, hi) if mode == "sym" else NUM[(i * 5 + 2) % 8] * 3) for i in range(n)]
    E = edges if edges is not None else std_edges(c, shape)
    H = hm.Hist1d if len(shape) == 1 else hm.Hist2d
    return H.from_binned_data(c.arr(d).reshape(*shape), E[0] if len(shape) == 1 else tuple(E)), d


def efficiency(c, key, eff, k=1):
    if eff == "sym":
        return c.real(key + "eff", 0.125, 1.5)
    if eff == "zero":
        return c.real(key + "eff", 0, 1.5)
    if eff == "any":
        return c.real(key + "eff", 0, 3)
    if eff == "whole":
        # the first as a whole number, the others as usual
        return 1 if k == 0 else c.real(key + "eff", 0.125, 1.5)
    return eff


def build_channel(c, shape, ntemp, mode="conc", eff="sym", zero=(), dzero=None, name="ch", key="", data="sym"):
    """a single Channel -> (channel, [Tpl], data values)"""
    C = c.mod("templatefitter.templates").Channel
    ch = C(name, shape[0] if len(shape) == 1 else tuple(shape), std_range(shape))
    out = []
    for k in range(ntemp):
        p = f"p{k}"
        h, cnt, var, t = template_for(c, f"{key}{p}", p, shape, mode, zero if k == 0 else (), k=k)
        e = efficiency(c, f"{key}{p}", eff, k)
        ch.add_template(p, t, e)
        out.append(Tpl(p, t, cnt, var, e, h))
    d = None
    if data is not None:
        h, d = data_hist(c, key + "d", shape, dzero or (), data)
        ch.add_data(h)
    return ch, out, d


def build_model(c, spec, procs, mode="conc", eff="sym", data="sym", key="", dzero=()):
    """spec: list of (channel name, shape, processes in the order the templates are added)
    -> (MultiChannelTemplate, {channel: [Tpl]}, {channel: data})"""
    T = c.mod("templatefitter.templates")
    m = T.MultiChannelTemplate()
    for p in procs:
        m.define_process(p)
    info, dat = {}, {}
    k = 0
    for name, shape, ps in spec:
        m.define_channel(name, shape[0] if len(shape) == 1 else tuple(shape), std_range(shape))
        info[name] = []
    for name, shape, ps in spec:
        for p in ps:
            h, cnt, var, t = template_for(c, f"{key}{name}{p}", p, shape, mode, k=k)
            e = efficiency(c, f"{key}{name}{p}", eff, k)
            if e is None:
                m.add_template(name, p, t)
                e = 1.0
            else:
                m.add_template(name, p, t, e)
            info[name].append(Tpl(p, t, cnt, var, e, h))
            k += 1
        if data is not None:
            h, d = data_hist(c, f"{key}d{name}", shape, dzero, data)
            m.add_data(**{name: h})
            dat[name] = d
    return m, info, dat


def layout(spec, procs):
    """[(kind, channel, process, bin)] of the parameter vector"""
    out = [("yield", None, p, None) for p in procs]
    for name, shape, ps in spec:
        for p in ps:
            out += [("nui", name, p, i) for i in range(prod(shape))]
    return out


def vector(c, spec, procs, key="", ylo=0, yhi=4000, tlo=-0.5, thi=0.5):
    v = []
    for kind, ch, p, i in layout(spec, procs):
        v.append(c.real(f"{key}y_{p}", ylo, yhi) if kind == "yield" else c.real(f"{key}t_{ch}_{p}_{i}", tlo, thi))
    return v


def split(spec, procs, v):
    """-> yields {proc: y}, nui {channel: {proc: [..]}}"""
    lay = layout(spec, procs)
    y, t = {}, {}
    for (kind, ch, p, i), x in zip(lay, v):
        if kind == "yield":
            y[p] = x
        else:
            t.setdefault(ch, {}).setdefault(p, []).append(x)
    return y, t


def expected(c, tpls, y, t):
    """expected counts per bin; y, t by process"""
    n = tpls[0].n
    fr = {q.proc: q.fractions(c, t[q.proc]) for q in tpls}
    return [c.isum(y[q.proc] * q.eff * fr[q.proc][i] for q in tpls) for i in range(n)]


def nll_poisson(c, v, n):
    r = 0.0
    for a, b in zip(v, n):
        if isinstance(b, float) and b == 0.0:
            r = r + a
        else:
            r = r + (a - b - b * c.log(a / b))
    return r


def gauss(c, inv, t):
    n = len(t)
    return c.isum(t[i] * inv[i, j] * t[j] for i in range(n) for j in range(n)) / 2


def params_of(m):
    """all parameters of a model, channel by channel, template by template"""
    return [[cp(t.params) for t in ch.templates.values()] for ch in m.channels.values()]


def same_params(c, a, b, label):
    for i, (x, y) in enumerate(zip(a, b)):
        for j, (u, w) in enumerate(zip(x, y)):
            c.eq(u, w, f"{label}: channel {i} template {j}")
