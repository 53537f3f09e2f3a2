"""Stand-ins for the libraries the code under test imports.

`sym_modules(ctx)`  : used while executing symbolically.
`conc_modules(ctx)` : used when a counterexample is replayed on the real code; only the
                      nondeterministic environment (minimiser backends, random draws,
                      worker pool, progress bars) is replaced, with the same stubs.
"""
import builtins
import copy as _copy
import importlib
import itertools
import math
import sys
import types
from collections import namedtuple
from fractions import Fraction

import numpy as np

from . import symcore as sc
from . import symnp as sn
from .symcore import Sym, SymBool, as_sym, Unsupported


# ------------------------------------------------------------------ helpers
class _Unsup:
    """import succeeds, use is inconclusive"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __call__(self, *a, **k):
        raise Unsupported(self._name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Unsup(self._name + "." + n)


def mod(name, real=None, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []

    def ga(n):
        if n.startswith("__"):
            raise AttributeError(n)
        if real is not None:
            return getattr(importlib.import_module(real), n)
        return _Unsup(f"{name}.{n}")
    m.__getattr__ = ga
    return m


# ------------------------------------------------------------------ scipy.stats
BinnedStatisticResult = namedtuple("BinnedStatisticResult", ("statistic", "bin_edges", "binnumber"))
BinnedStatistic2dResult = namedtuple("BinnedStatistic2dResult", ("statistic", "x_edge", "y_edge", "binnumber"))
BinnedStatisticddResult = namedtuple("BinnedStatisticddResult", ("statistic", "bin_edges", "binnumber"))
ZF = Sym(q=Fraction(0))


def _binned_dd(cols, values, statistic, bins, range_):
    D = len(cols)
    cols = [sn.obj_of(c)[0] for c in cols]
    if any(c.ndim != 1 for c in cols):
        raise Unsupported("binned statistic of nd sample")
    n = cols[0].size
    if any(c.size != n for c in cols):
        raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if statistic not in ("sum", "count", "mean"):
        raise Unsupported(f"binned statistic {statistic!r}")
    vo = sn.obj_of(values)[0]
    if vo.ndim > 1:
        raise Unsupported("nd values")
    if vo.size != n and statistic != "count":
        raise AttributeError("The number of `values` elements must match the length of each `sample` dimension.")
    if vo.size != n:
        raise AttributeError("The number of `values` elements must match the length of each `sample` dimension.")
    # as scipy: the range is looked at even if edges are given
    if range_ is None:
        if n == 0:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
    else:
        if len(range_) != D:
            raise ValueError(f"range given for {len(range_)} dimensions; {D} required")
        for i in range(D):
            if bool(as_sym(range_[i][1]) < as_sym(range_[i][0])):
                raise ValueError("range, start must be <= stop")
    es = []
    for i in range(D):
        b = bins[i]
        if isinstance(b, (int, np.integer)) or isinstance(b, Sym):
            r = None
            if range_ is not None:
                r = range_[i]
            e = sn._hist_edges(cols[i], b, None if r is None else (r[0], r[1]))
        else:
            e = sn.mk(b, "f")
            if e.ndim != 1:
                raise ValueError("bins must be 1d")
            for j in range(e.size - 1):
                if bool(e[j] > e[j + 1]):
                    raise ValueError("Found invalid bin edges: not monotonically increasing")
        es.append(e)
    shp = tuple(e.size - 1 for e in es)
    res = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        acc, cnt = ZF, ZF
        for j in range(n):
            c = SymBool(True)
            for d in range(D):
                c = c & sn.in_bin(as_sym(cols[d][j]), es[d], idx[d])
            acc = acc + sc.ite(c, sn.cast_scalar(vo[j], "f"), ZF)
            if statistic != "sum":
                cnt = cnt + sc.ite(c, Sym(q=Fraction(1)), ZF)
        res[idx] = acc if statistic == "sum" else cnt if statistic == "count" else sc.div(acc, cnt)
    return sn.wrap(res, "f"), es


class _LazyBinnumber:
    def __getattr__(self, n):
        raise Unsupported("binnumber")

    def __getitem__(self, i):
        raise Unsupported("binnumber")


def binned_statistic(x, values, statistic="mean", bins=10, range=None):
    try:
        nb = len(bins)
    except TypeError:
        nb = 1
    b = [bins] if nb == 1 and not isinstance(bins, np.ndarray) else [sn.mk(bins, "f")]
    if nb == 1 and isinstance(bins, (list, tuple)):
        b = [bins[0]]
    r = None
    if range is not None:
        r = [range] if len(range) == 2 else range
    s, es = _binned_dd([_seq(x)], values, statistic, b, r)
    return BinnedStatisticResult(s, es[0], _LazyBinnumber())


def _seq(x):
    if isinstance(x, np.ndarray):
        return x
    return sn.mk(x)


def binned_statistic_2d(x, y, values, statistic="mean", bins=10, range=None, expand_binnumbers=False):
    try:
        nb = len(bins)
    except TypeError:
        nb = 1
    if nb != 1 and nb != 2:
        bins = [bins, bins]
    elif nb == 1:
        b = bins if isinstance(bins, (int, np.integer)) else bins[0]
        bins = [b, b]
    s, es = _binned_dd([_seq(x), _seq(y)], values, statistic, list(bins), range)
    return BinnedStatistic2dResult(s, es[0], es[1], _LazyBinnumber())


def binned_statistic_dd(sample, values, statistic="mean", bins=10, range=None, expand_binnumbers=False, binned_statistic_result=None):
    if isinstance(sample, np.ndarray) and sample.ndim == 2:
        cols = [sample[:, i] for i in builtins.range(sample.shape[1])]
    else:
        a = sn.mk(sample)
        if a.ndim == 1:
            cols = [a]
        else:
            cols = [a[:, i] for i in builtins.range(a.shape[1])]
    if isinstance(bins, int):
        bins = [bins] * len(cols)
    if len(bins) != len(cols):
        raise AttributeError("The dimension of bins must be equal to the dimension of the sample x.")
    s, es = _binned_dd(cols, values, statistic, list(bins), range)
    return BinnedStatisticddResult(s, es, _LazyBinnumber())


class Poisson:
    """poisson.rvs: an arbitrary non-negative integer per element; draws are recorded"""

    def __init__(self, ctx):
        self.ctx = ctx

    def rvs(self, mu, loc=0, size=None, random_state=None):
        return self.ctx.env.poisson(mu, size, random_state)

    def __call__(self, mu, loc=0):
        ctx = self.ctx

        class Frozen:
            def rvs(self, size=None, random_state=None):
                return ctx.env.poisson(mu, size, random_state)
        return Frozen()

    def __getattr__(self, n):
        if self.ctx.sym:
            raise Unsupported("poisson." + n)
        import scipy.stats
        return getattr(scipy.stats.poisson, n)


class Chi2:
    """chi-square law: density and tail as opaque functions of (x, dof)"""

    def pdf(self, x, df, *a):
        return sn._el1(lambda v: sc.ex().atom("chi2pdf", [as_sym(v), as_sym(df)]), x)

    def sf(self, x, df, *a):
        def one(v):
            import z3
            ex, v = sc.ex(), as_sym(v)
            r = ex.atom("chi2sf", [v, as_sym(df)])
            # a probability; it underflows only far beyond 1200
            ex.fact(z3.And(r.num >= 0, r.num <= 1))
            ex.fact(z3.Implies((v <= 1200).z, r.num > 0))
            return r
        return sn._el1(one, x)

    def cdf(self, x, df, *a):
        # in floating point the lower tail is one as soon as the upper one is below 2^-54
        def one(v):
            v, d = as_sym(v), as_sym(df)
            if d.q is not None and d.q > 0:
                import scipy.stats
                if v >= float(scipy.stats.chi2.isf(2.0**-55, float(d.q))):
                    return Sym(q=Fraction(1))
            return 1 - sc.ex().atom("chi2sf", [v, d])
        return sn._el1(one, x)

    def __call__(self, df):
        me = self

        class Frozen:
            def pdf(self, x): return me.pdf(x, df)
            def sf(self, x): return me.sf(x, df)
            def cdf(self, x): return me.cdf(x, df)
        return Frozen()

    def __getattr__(self, n):
        raise Unsupported("chi2." + n)


def quad(func, a, b, args=(), **k):
    ex = sc.ex()
    t = Sym(num=ex.fresh("quadvar"))
    if not isinstance(args, tuple):
        args = (args,)
    r = as_sym(func(t, *args))
    hit = ex.atom_of(r)
    if hit is None or hit[0] != "chi2pdf" or hit[1][0] is not t:
        raise Unsupported("quad of something else than the chi-square density")
    df = hit[1][1]

    def cdf(v):
        v = as_sym(v)
        if v.x is not None:
            if v.x == float("inf"):
                return Sym(q=Fraction(1))
            return Sym(q=Fraction(0)) if v.x == float("-inf") else v
        if v.q == 0:
            return Sym(q=Fraction(0))
        return 1 - ex.atom("chi2sf", [v, df])
    if as_sym(a).x is not None and math.isnan(as_sym(a).x):
        return Sym(x=float("nan")), Sym(x=float("nan"))
    return cdf(b) - cdf(a), Sym(q=Fraction(0))


# ------------------------------------------------------------------ scipy.linalg / special
def block_diag(*arrs):
    if not arrs:
        arrs = ([],)
    ms = []
    for a in arrs:
        m = a if isinstance(a, np.ndarray) else sn.mk(a)
        m = sn.mk(m)
        if m.ndim == 0:
            m = m.reshape(1, 1)
        if m.ndim == 1:
            m = m.reshape(1, -1)
        if m.ndim > 2:
            raise ValueError("arguments in the following positions have dimension greater than 2")
        ms.append(m)
    r = sn.zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)))
    i = j = 0
    for m in ms:
        r[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return r


def xlogy(x, y):
    def f(a, b):
        a, b = as_sym(a), as_sym(b)
        if b.x is not None and math.isnan(b.x):
            return b
        if bool(a == 0):
            return Sym(q=Fraction(0))
        return a * sc.log(b)
    return _el2(f, x, y)


def _el2(f, x, y):
    a, b = np.broadcast_arrays(sn.obj_of(x)[0], sn.obj_of(y)[0])
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = sc._retag(f(a[i], b[i]), "f")
    return r[()] if r.shape == () else sn.wrap(r, "f")


def xlog1py(x, y):
    return xlogy(x, np.add(y, 1) if isinstance(y, np.ndarray) else as_sym(y) + 1)


def rel_entr(x, y):
    def f(a, b):
        a, b = as_sym(a), as_sym(b)
        if bool((a > 0) & (b > 0)):
            return a * sc.log(a / b)
        if bool((a == 0) & (b >= 0)):
            return Sym(q=Fraction(0))
        return Sym(x=float("inf"))
    return _el2(f, x, y)


def kl_div(x, y):
    def f(a, b):
        a, b = as_sym(a), as_sym(b)
        if bool((a > 0) & (b > 0)):
            return a * sc.log(a / b) - a + b
        if bool((a == 0) & (b >= 0)):
            return b
        return Sym(x=float("inf"))
    return _el2(f, x, y)


# ------------------------------------------------------------------ numdifftools (symbolic)
def _probe(fun, x, args, kw):
    ex = sc.ex()
    xo = sn.mk(x).reshape(-1)
    us = []
    for i in range(xo.size):
        u = Sym(num=ex.fresh(f"diffvar"))
        v = as_sym(xo[i])
        ex.fact((u == v).z)
        if v.x is None and not v.den:
            ex.box[u.num.decl().name()] = ex.interval(v.n)
        us.append(u)
    r = fun(sn.mk(us, "f"), *args, **kw)
    return us, [as_sym(v) for v in xo.view(np.ndarray)], r


class NdGradient:
    order = 1

    def __init__(self, fun, step=None, method="central", order=2, n=1, **k):
        self.fun = fun

    def __call__(self, x, *args, **kw):
        us, xs, r = _probe(self.fun, x, args, kw)
        D = sc.Differ(us, xs)
        return sn.mk([D.back(D.d(as_sym(r), i)) for i in range(len(us))], "f")


class NdJacobian(NdGradient):
    def __call__(self, x, *args, **kw):
        us, xs, r = _probe(self.fun, x, args, kw)
        D = sc.Differ(us, xs)
        if not isinstance(r, np.ndarray):
            r = sn.mk([r])
        elif r.ndim == 1 and r.size == 1:
            # the real library fails for arrays with one element
            raise ValueError("axes don't match array")
        o = sn.obj_of(r)[0].reshape(-1)
        return sn.mk([[D.back(D.d(as_sym(v), i)) for i in range(len(us))] for v in o], "f")


class NdHessian(NdGradient):
    def __call__(self, x, *args, **kw):
        us, xs, r = _probe(self.fun, x, args, kw)
        D = sc.Differ(us, xs)
        n = len(us)
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            g = D.d(as_sym(r), i)
            for j in range(i, n):
                m[i][j] = m[j][i] = D.back(D.d(g, j))
        return sn.mk(m, "f")


class NdDerivative(NdGradient):
    def __call__(self, x, *args, **kw):
        g = NdGradient(lambda v, *a, **k: self.fun(v[0], *a, **k))
        return g([x], *args, **kw)[0]


# ------------------------------------------------------------------ numba
def jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class _Sig:
    def __call__(self, *a):
        return self

    def __getitem__(self, k):
        return self


class Vectorized:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, "__name__", "f")
        self.__doc__ = getattr(f, "__doc__", None)

    def __call__(self, *args, out=None, **kw):
        arrs = np.broadcast_arrays(*[sn.obj_of(a)[0] for a in args])
        r = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = sn.elem(sc.merge_call(self.f, *[sn.cast_scalar(a[i], "f") for a in arrs]), "f")
        if out is not None:
            return sn._store(out, r, "f")
        return r[()] if r.shape == () else sn.wrap(r, "f")


def vectorize(*a, **k):
    if len(a) == 1 and isinstance(a[0], types.FunctionType):
        return Vectorized(a[0])
    return lambda f: Vectorized(f)


# ------------------------------------------------------------------ math
def _math_module():
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("__"):
            setattr(m, n, getattr(math, n))

    def lift(real, f):
        def g(x, *a):
            if isinstance(x, np.ndarray) and x.size == 1:
                x = x.reshape(-1)[0]
            if isinstance(x, (Sym, SymBool)):
                return f(as_sym(x), *a)
            return real(x, *a)
        return g

    def dom(f, bad):
        def g(x, *a):
            if x.x is None and bool(bad(x)):
                raise ValueError("math domain error")
            return f(x, *a)
        return g
    m.sqrt = lift(math.sqrt, dom(sc.sqrt, lambda x: x < 0))
    m.log = lift(math.log, dom(sc.log, lambda x: x <= 0))
    m.log1p = lift(math.log1p, dom(lambda x: sc.log(x + 1), lambda x: x <= -1))
    m.isnan = lift(math.isnan, lambda x: bool(sn._isnan(x)))
    m.isinf = lift(math.isinf, lambda x: bool(sn._isinf(x)))
    m.isfinite = lift(math.isfinite, lambda x: bool(sn._isfinite(x)))
    m.fabs = lift(math.fabs, lambda x: sc.absolute(x))
    m.floor = lift(math.floor, lambda x: sc._retag(sc.floor(x), "i"))
    m.ceil = lift(math.ceil, lambda x: sc._retag(-sc.floor(-x), "i"))
    m.pow = lift(math.pow, lambda x, y: x ** y)
    m.exp = lift(math.exp, lambda x: sn._exp(x))

    def fsum(it):
        it = list(it)
        return sum(it, Sym(q=Fraction(0))) if sn.has_sym(it) else math.fsum(it)

    def prod(it, start=1):
        for x in it:
            start = start * x
        return start

    def hypot(*a):
        return sc.sqrt(sum((as_sym(x) ** 2 for x in a), Sym(q=Fraction(0)))) if sn.has_sym(list(a)) else math.hypot(*a)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if sn.has_sym([a, b]):
            a, b = as_sym(a), as_sym(b)
            t = sc.maximum(as_sym(rel_tol) * sc.maximum(abs(a), abs(b)), as_sym(abs_tol))
            return bool(abs(a - b) <= t)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m.fsum, m.prod, m.hypot, m.isclose = fsum, prod, hypot, isclose
    return m


# ------------------------------------------------------------------ matplotlib
class Recorder:
    """permissive recording object"""

    def __init__(self, name="rec"):
        self._name = name
        self.calls = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            self.calls.append((n, a, k))
            if n == "hist" and isinstance(k.get("color"), (list, tuple)) and any(z is None for z in k["color"]):
                raise ValueError("Invalid RGBA argument: None")
            if n == "hist2d":
                return (None, None, None, None)
            return Recorder(n)
        return f

    def __call__(self, *a, **k):
        return Recorder(self._name)

    def get(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


def _mpl():
    def get_cmap(*a, **k):
        return lambda v: np.zeros((len(v) if hasattr(v, "__len__") else 1, 4))
    plt = mod("matplotlib.pyplot", get_cmap=get_cmap)
    rec = Recorder("plt")
    plt.__getattr__ = lambda n: getattr(rec, n)
    # the installed matplotlib has no cm.get_cmap
    cm = mod("matplotlib.cm")

    def cmga(n):
        import matplotlib.cm as real
        if not hasattr(real, n):
            raise AttributeError(f"module 'matplotlib.cm' has no attribute {n!r}")
        return get_cmap()
    cm.__getattr__ = cmga
    col = mod("matplotlib.colors", ListedColormap=lambda *a, **k: Recorder("cmap"), LinearSegmentedColormap=Recorder("lsc"))
    m = mod("matplotlib", pyplot=plt, cm=cm, colors=col, colormaps=_CMaps(get_cmap))
    return {"matplotlib": m, "matplotlib.pyplot": plt, "matplotlib.cm": cm, "matplotlib.colors": col}


class _CMaps:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, n):
        c = self.g()
        f = lambda v: c(v)
        f.resampled = lambda k: c
        return f

    def get_cmap(self, *a):
        return self.g()


# ------------------------------------------------------------------ environment stubs (both modes)
class Env:
    """Nondeterministic environment: everything it returns is a harness variable."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.reset()

    def reset(self):
        self.min_calls = []
        self.draws = []
        self.pool_order = None
        self.hessians = []
        self.tables = []
        # policies a harness may change
        self.scipy_status = None        # None: always success; "any": nondeterministic
        self.minuit_status = None
        self.minuit_rerun = False       # every migrad call of one object ends in its own result and state
        self.hessian = "diff"           # or "stub"
        self.fval = "free"              # or "fcn"
        self.fail_pattern = None
        self.value_hook = None
        self.err_lo = 0
        self.x_range = None             # (k, i) -> range of a result value
        self.seeds = []                 # seeds given by the code under test
        self.task = None                # index of the item a worker is busy with
        self.light_cov = False

    def axes(self):
        return Recorder("axes")

    def tabulate(self, data=(), *a, **k):
        cols = [list(v) for v in data.values()] if isinstance(data, dict) else None
        self.tables.append([list(r) for r in zip(*cols)] if cols is not None else [list(r) for r in data])
        return ""

    # -- random draws
    def poisson(self, mu, size=None, seed=None):
        ctx, n = self.ctx, self.ctx.np
        if isinstance(seed, (int, np.integer)) or isinstance(seed, Sym) and seed.is_conc:
            self.seeds.append(int(seed))
        if size is not None:
            shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        else:
            shape = np.shape(mu) if not isinstance(mu, (Sym, SymBool)) else ()
        k = len(self.draws)
        mo = np.broadcast_to(sn.obj_of(mu)[0] if ctx.sym else np.asarray(mu, dtype=float), shape)
        for i in np.ndindex(*shape):
            v = as_sym(mo[i]) if ctx.sym else mo[i]
            if ctx.sym and v.x is not None or not ctx.sym and not np.isfinite(v):
                raise ValueError("lam value too large or nan")
            if bool(v < 0):
                raise ValueError("Domain error in arguments." if True else "")
        vals = np.empty(shape, dtype=object)
        for j, i in enumerate(np.ndindex(*shape)):
            vals[i] = ctx.real(f"draw{k}_{j}", lo=0, hi=None, integer=True)
        self.draws.append((mu.copy() if isinstance(mu, np.ndarray) else mu, vals))
        if ctx.sym:
            for i in np.ndindex(*shape):
                vals[i] = sc._retag(as_sym(vals[i]), "i")
            return sn.wrap(vals.copy(), "i") if shape else vals[()]
        r = np.array([float(v) for v in vals.reshape(-1)]).reshape(shape)
        if np.all(r == np.rint(r)):
            r = r.astype(np.int64)
        return r if shape else r[()]

    # -- minimiser results
    def _result_vec(self, k, x0, bounds, fixed, base):
        ctx = self.ctx
        out = []
        for i in range(len(x0)):
            if fixed[i]:
                out.append(x0[i])
                continue
            v = ctx.real(f"{base}{k}_{i}", *(self.x_range(k, i) if self.x_range else ()))
            lo, hi = (None, None) if bounds is None or bounds[i] is None else bounds[i]
            if lo is not None:
                ctx.assume(v >= lo)
            if hi is not None:
                ctx.assume(v <= hi)
            out.append(v)
        if self.value_hook:
            self.value_hook(k, out)
        return ctx.arr(out)

    def scipy_minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None,
                       constraints=(), tol=None, callback=None, options=None):
        ctx = self.ctx
        k = len(self.min_calls)
        x0 = ctx.np.array(x0, dtype=float)
        n = len(x0)
        rec = dict(kind="scipy", k=k, fun=fun, x0=x0.copy(), args=args, method=method, bounds=None if bounds is None else list(bounds),
                   constraints=constraints, options=options, task=self.task)
        self.min_calls.append(rec)
        if bounds is not None and len(bounds) != n:
            raise ValueError("The number of bounds is not compatible with the length of `x0`.")
        ok = True
        if self.scipy_status == "any":
            ok = ctx.flag(f"ok{k}")
        elif callable(self.scipy_status):
            ok = self.scipy_status(k, rec)
        x = self._result_vec(k, x0, rec["bounds"], [False] * n, "x")
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        status, message = (0, "Optimization terminated successfully") if ok else (8, "Positive directional derivative for linesearch")
        if ok:
            solved = set()
            for c in cons:
                x = self._satisfy(c, x, solved)
                if x is None:
                    ok, x, status, message = False, x0.copy(), 6, "Singular matrix C in LSQ subproblem"
                    break
        f = self._fval(k, fun, x, args)
        rec.update(ok=ok, x=x.copy(), f=f)
        r = _OptResult()
        r.update(success=ok, status=status, message=message,
                 x=x, fun=f, nit=1, nfev=1, njev=1, jac=None)
        return r

    def _satisfy(self, c, x, solved):
        """a successful minimisation returns a point satisfying its constraints: equality constraints
        linear in one parameter are solved for it, others are assumed; None if two of them constrain the
        same single parameter: SLSQP cannot solve linearly dependent equality constraints (status 6)"""
        ctx = self.ctx

        def values(z):
            v = c["fun"](z, *c.get("args", ()))
            return [as_sym(a) if ctx.sym else float(a) for a in (v.reshape(-1) if isinstance(v, np.ndarray) else [v])]
        if c["type"] == "eq":
            v0 = values(x)
            for m in range(len(v0)):
                v = values(x)[m]
                dependent = False
                for j in range(len(x)):
                    y = x.copy()
                    y[j] = y[j] + 1
                    d = values(y)[m] - v
                    if ctx.sym and not isinstance(d, Sym):
                        d = as_sym(d)
                    if ctx.sym and d.q is None and d.num is not None and not d.den:
                        e = sc.z3.simplify(d.num, som=True)
                        if sc.z3.is_rational_value(e):
                            d = Sym(q=Fraction(e.numerator_as_long(), e.denominator_as_long()))
                    known = (d.q is not None and d.q != 0) if ctx.sym else abs(d) > 1e-6
                    if known:
                        if j in solved:
                            dependent = True
                            continue
                        dependent = False
                        solved.add(j)
                        x = x.copy()
                        x[j] = x[j] - v / d
                        break
                if dependent:
                    return None
        for v in values(x):
            ctx.assume((v == 0) if c["type"] == "eq" else (v >= 0), tol=True)
        return x

    def _fval(self, k, fun, x, args=()):
        if self.fval == "fcn":
            return fun(x, *args)
        if callable(self.fval):
            return self.fval(k)
        return self.ctx.real(f"fval{k}")

    def minuit(self):
        env = self

        class FMin(dict):
            def __getattr__(self, n):
                try:
                    return self[n]
                except KeyError:
                    raise AttributeError(n)

        class View(dict):
            """values by name or by position"""

            def __init__(self, names, vals):
                super().__init__(zip(names, vals))
                self._n = list(names)

            def __getitem__(self, k):
                return dict.__getitem__(self, k if isinstance(k, str) else self._n[k])

            def values(self):
                return [dict.__getitem__(self, n) for n in self._n]

        class Minuit:
            def __init__(self, fcn, start, error=None, limit=None, fix=None, name=None, **kw):
                ctx = env.ctx
                self._fcn = fcn
                self._start = ctx.np.array(start, dtype=float)
                n = len(self._start)
                for what, s in (("error", error), ("limit", limit), ("fix", fix), ("name", name)):
                    if s is not None and hasattr(s, "__len__") and not (what == "limit" and len(s) == 2 and not hasattr(s[0], "__len__")) and len(s) != n:
                        raise RuntimeError(f"length of {what} sequence does not match start")
                if limit is not None and len(limit) == 2 and n != 2 and not hasattr(limit[0], "__len__"):
                    limit = [limit] * n
                if fix is not None and not hasattr(fix, "__len__"):
                    fix = [fix] * n
                self._fix = [bool(f) for f in fix] if fix is not None else [False] * n
                lim = []
                for i in range(n):
                    l = (None, None) if limit is None or limit[i] is None else tuple(limit[i])
                    l = tuple(None if b is None or (isinstance(b, float) and math.isinf(b)) else b for b in l)
                    lim.append(l)
                self._limit = lim
                self._rec = dict(kind="minuit", fun=fcn, x0=self._start.copy(), fixed=list(self._fix), bounds=list(lim),
                                 names=list(name) if name is not None else None, errordef=kw.get("errordef"), args=(), runs=0, task=env.task)
                env.min_calls.append(self._rec)
                self._k = len(env.min_calls) - 1
                self._rec["k"] = self._k
                self._n = n
                self._done = False
                self._error = error
                self._names = list(name) if name is not None else [f"x{i}" for i in range(n)]
                self.errordef = kw.get("errordef") if kw.get("errordef") is not None else 1.0
                self.print_level = kw.get("print_level", 0)

            @classmethod
            def from_array_func(cls, fcn, start, error=None, limit=None, fix=None, name=None, **kw):
                return cls(fcn, start, error, limit, fix, name, **kw)

            def migrad(self, ncall=None, **kw):
                self._rec["runs"] += 1
                if env.minuit_rerun and self._done:
                    # a further run may end elsewhere and in another state
                    self._done, self._tag = False, f"{self._k}r{self._rec['runs']}"
                self._run()
                return self._fmin, []

            def _run(self):
                if self._done:
                    return
                self._done = True
                ctx, k, n = env.ctx, self._k, self._n
                tag = self.__dict__.get("_tag", k)
                st = (True, True, True)
                if env.minuit_status == "any":
                    st = tuple(ctx.flag(f"{w}{tag}") for w in ("valid", "vpar", "hascov", "covok"))
                elif callable(env.minuit_status):
                    st = env.minuit_status(k, self._rec)
                # the last Hesse call may have failed, whatever the other flags say: then there is no covariance matrix
                self._nocov = len(st) > 3 and not st[3]
                self._rec["nocov"] = self._nocov
                self._x = env._result_vec(k, self._start, self._limit, self._fix, "x" if tag == k else "xr")
                self.fval = env._fval(tag, self._fcn, self._x)
                self._e = ctx.arr([(ctx.real(f"err{tag}_{i}", lo=env.err_lo) if not self._fix[i] else self._err0(i)) for i in range(n)])
                ed = self.errordef
                self._rec["errordef"] = ed
                std = type(ed) in (int, float) and ed == 0.5
                # one standard deviation is where the likelihood has risen by 1/2: anything else rescales what is reported
                self._scaled = [e if std or self._fix[i] else e * ctx.sqrt(2 * ed) for i, e in enumerate(ctx.vec(self._e))]
                if not env.light_cov:
                    self._c = env._sym_matrix(tag, n, self._fix, "cov")
                    self._cs = self._c if std else self._c * (2 * ed)
                    self._r = env._sym_matrix(tag, n, self._fix, "cor")
                self._fmin = FMin(is_valid=st[0], has_valid_parameters=st[1], has_covariance=st[2], fval=self.fval, edm=0.0,
                                  hesse_failed=self._nocov, has_reached_call_limit=False, has_accurate_covar=st[2] and not self._nocov, has_posdef_covar=st[2] and not self._nocov,
                                  has_made_posdef_covar=False, is_above_max_edm=False, nfcn=1)
                self._rec.update(ok=all(st), status=st[:3], x=self._x.copy(), f=self.fval, e=self._e.copy(),
                                 c=None if env.light_cov else self._c.copy(), r=None if env.light_cov else self._r.copy())

            def _err0(self, i):
                e = self._error
                if e is None:
                    return 0.1
                return e[i] if hasattr(e, "__len__") else e

            def hesse(self, *a, **k):
                return []

            def migrad_ok(self):
                return self._fmin["is_valid"]

            @property
            def valid(self):
                return self._fmin["is_valid"]

            def get_fmin(self):
                return self._fmin

            @property
            def fmin(self):
                return self._fmin

            def np_values(self):
                return self._x.copy() if self._done else self._start.copy()

            def np_errors(self):
                return env.ctx.arr(self._scaled)

            def np_matrix(self, correlation=False, skip_fixed=True, **kw):
                if self._done and self._nocov:
                    raise RuntimeError("Covariance is not valid. Maybe the last Hesse call failed?")
                if env.light_cov:
                    return None
                m = self._r if correlation else self._cs
                if skip_fixed:
                    ii = [i for i in range(self._n) if not self._fix[i]]
                    return m[ii][:, ii] if ii else env.ctx.np.zeros((0, 0))
                return m.copy()

            def np_covariance(self):
                return self.np_matrix(skip_fixed=False)

            def matrix(self, correlation=False, skip_fixed=True):
                return self.np_matrix(correlation, skip_fixed)

            @property
            def covariance(self):
                if env.light_cov or self._nocov:
                    return None
                return {(self._names[i], self._names[j]): self._cs[i, j] for i in range(self._n) for j in range(self._n) if not self._fix[i] and not self._fix[j]}

            values = property(lambda self: View(self._names, self.np_values()))
            errors = property(lambda self: View(self._names, self._scaled))
            fixed = property(lambda self: View(self._names, self._fix))
            parameters = property(lambda self: tuple(self._names))
            narg = property(lambda self: self._n)
            nfit = property(lambda self: sum(1 for f in self._fix if not f))
            accurate = property(lambda self: self._fmin["has_accurate_covar"])

            def set_errordef(self, v):
                self.errordef = v

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                raise Unsupported("Minuit." + n)
        return Minuit

    def _sym_matrix(self, k, n, fix, base):
        ctx = self.ctx
        m = ctx.np.zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                if fix[i] or fix[j]:
                    continue
                v = ctx.real(f"{base}{k}_{i}_{j}")
                m[i, j] = v
                m[j, i] = v
        return m

    # -- Hessian as an arbitrary invertible symmetric matrix
    def hessian_stub(self, real):
        env = self

        class Hessian:
            def __init__(self, fun, *a, **k):
                self.fun = fun
                self.inner = real(fun, *a, **k) if real is not None and env.hessian == "diff" else None

            def __call__(self, x, *args, **kw):
                if env.hessian == "diff":
                    return self.inner(x, *args, **kw)
                k = len(env.hessians)
                x = env.ctx.np.atleast_1d(env.ctx.np.array(x, dtype=float))
                n = len(x)
                # diagonal positive: an arbitrary choice whose inverse is cheap
                ctx = env.ctx
                m = ctx.np.zeros((n, n))
                for i in range(n):
                    m[i, i] = ctx.real(f"hess{k}_{i}", lo=0.25, hi=100)
                env.hessians.append((self.fun, x.copy(), m.copy()))
                return m
        return Hessian

    # -- worker pool
    def pool(self):
        env = self

        def pcopy(x):
            return _copy.deepcopy(x)

        class Result:
            def __init__(self, v=None, e=None):
                self.v, self.e = v, e

            def get(self, timeout=None):
                if self.e is not None:
                    raise self.e
                return self.v

            def ready(self):
                return True

            def wait(self, *a):
                pass

            def successful(self):
                return self.e is None

        class Pool:
            def __init__(self, processes=None, initializer=None, initargs=(), **k):
                if processes is not None and processes < 1:
                    raise ValueError("Number of processes must be at least 1")
                self.n = processes or 1
                if initializer:
                    initializer(*initargs)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self): pass
            def join(self): pass
            def terminate(self): pass

            def _order(self, n):
                """workers execute tasks in an arbitrary order"""
                left = list(range(n))
                out = []
                while left:
                    i = env.ctx.pick(len(left), f"sched{len(env.min_calls)}_{len(out)}") if env.pool_order == "any" else 0
                    out.append(left.pop(i))
                return out

            def _run(self, f, items, chunk=1, star=False):
                items = list(items)
                chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
                res = [None] * len(chunks)
                for c in self._order(len(chunks)):
                    fc, its = pcopy((f, chunks[c])) if not isinstance(f, types.FunctionType) else (f, pcopy(chunks[c]))
                    out = []
                    for j, x in enumerate(its):
                        env.task = c * chunk + j
                        out.append(fc(*x) if star else fc(x))
                    env.task = None
                    res[c] = pcopy(out)
                return res

            def _chunk(self, items, chunksize):
                if chunksize is None:
                    c, e = divmod(len(items), self.n * 4)
                    chunksize = c + (1 if e else 0)
                return max(1, chunksize)

            def imap(self, f, it, chunksize=1):
                return iter([y for r in self._run(f, it, chunksize) for y in r])

            def imap_unordered(self, f, it, chunksize=1):
                res = self._run(f, it, chunksize)
                left = list(range(len(res)))
                out = []
                while left:
                    i = env.ctx.pick(len(left), f"unord{len(env.min_calls)}_{len(left)}")
                    out.extend(res[left.pop(i)])
                return iter(out)

            def map(self, f, it, chunksize=None):
                it = list(it)
                return [y for r in self._run(f, it, self._chunk(it, chunksize)) for y in r]

            def starmap(self, f, it, chunksize=None):
                it = list(it)
                return [y for r in self._run(f, it, self._chunk(it, chunksize), star=True) for y in r]

            def map_async(self, f, it, chunksize=None, **k):
                return Result(self.map(f, it, chunksize))

            def starmap_async(self, f, it, chunksize=None, **k):
                return Result(self.starmap(f, it, chunksize))

            def apply(self, f, args=(), kwds={}):
                a, k = pcopy((args, kwds))
                self.applied = getattr(self, "applied", -1) + 1
                env.task = self.applied
                try:
                    return pcopy(f(*a, **k))
                finally:
                    env.task = None

            def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
                try:
                    return Result(self.apply(f, args, kwds))
                except Exception as e:
                    return Result(e=e)
        return Pool


class _OptResult(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)
    __setattr__ = dict.__setitem__


def _tqdm_mod():
    class T:
        def __init__(self, it=None, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a, **k: None
    t = lambda it=None, *a, **k: T(it)
    m = mod("tqdm", tqdm=t, trange=lambda *a, **k: T(range(*a)))
    return {"tqdm": m, "tqdm.auto": m, "tqdm.notebook": m}


def _mp_mod(env):
    P = env.pool()
    m = mod("multiprocessing", Pool=P, cpu_count=lambda: 8)
    mp = mod("multiprocessing.pool", Pool=P, ThreadPool=P)
    m.pool = mp
    m.get_context = lambda *a: m
    return {"multiprocessing": m, "multiprocessing.pool": mp}


# ------------------------------------------------------------------ the two maps
_RNG = np.random.default_rng, np.random.RandomState


def sym_modules(ctx):
    env = ctx.env
    npm = sn.make_module(random={"poisson": lambda lam=1.0, size=None: env.poisson(lam, size)})

    class RNG:
        def poisson(self, lam=1.0, size=None):
            return env.poisson(lam, size)

        def __getattr__(self, n):
            raise Unsupported("random." + n)

    def rng(*a, **k):
        for v in list(a) + list(k.values()):
            if isinstance(v, int):
                env.seeds.append(v)
        return RNG()
    npm.random.default_rng = rng
    npm.random.RandomState = rng
    npm.random.seed = lambda *a: env.seeds.extend(a)
    M = {"numpy": npm, "numpy.linalg": npm.linalg, "numpy.random": npm.random}
    st = mod("scipy.stats", binned_statistic=binned_statistic, binned_statistic_2d=binned_statistic_2d,
             binned_statistic_dd=binned_statistic_dd, poisson=Poisson(ctx), chi2=Chi2())
    it = mod("scipy.integrate", quad=quad)
    sl = mod("scipy.linalg", block_diag=block_diag, inv=sn.f_inv, solve=sn.f_solve, det=sn.f_det, pinv=sn.f_pinv,
             cholesky=lambda a, lower=False, **k: sn.f_cholesky(a) if lower else sn.f_cholesky(a).T, LinAlgError=np.linalg.LinAlgError)
    sp = mod("scipy.special", xlogy=xlogy, xlog1py=xlog1py, rel_entr=rel_entr, kl_div=kl_div,
             chdtrc=lambda v, x: Chi2().sf(x, v), gammaincc=_Unsup("gammaincc"))
    so = mod("scipy.optimize", minimize=env.scipy_minimize)
    sci = mod("scipy", stats=st, integrate=it, linalg=sl, special=sp, optimize=so)
    M.update({"scipy": sci, "scipy.stats": st, "scipy.integrate": it, "scipy.linalg": sl, "scipy.special": sp, "scipy.optimize": so})
    im = mod("iminuit", Minuit=env.minuit(), __version__="1.5.4")
    M["iminuit"] = im
    nd = mod("numdifftools", Jacobian=NdJacobian, Hessian=env.hessian_stub(NdHessian), Gradient=NdGradient, Derivative=NdDerivative)
    M["numdifftools"] = nd
    nb = mod("numba", jit=jit, njit=jit, vectorize=vectorize, float64=_Sig(), float32=_Sig(), int64=_Sig(), int32=_Sig(), prange=range,
             guvectorize=_Unsup("guvectorize"), boolean=_Sig())
    M["numba"] = nb
    M["math"] = _math_module()
    M.update(_tqdm_mod())
    M.update(_mp_mod(env))
    M.update(_mpl())
    M["tabulate"] = mod("tabulate", tabulate=env.tabulate)
    M["pandas"] = mod("pandas", real="pandas")
    return M


def conc_modules(ctx):
    env = ctx.env
    M = {}
    st = mod("scipy.stats", real="scipy.stats", poisson=Poisson(ctx))
    so = mod("scipy.optimize", real="scipy.optimize", minimize=env.scipy_minimize)
    sci = mod("scipy", real="scipy", stats=st, optimize=so)
    M.update({"scipy": sci, "scipy.stats": st, "scipy.optimize": so})
    M["iminuit"] = mod("iminuit", Minuit=env.minuit(), __version__="1.5.4")
    import numdifftools
    M["numdifftools"] = mod("numdifftools", real="numdifftools", Hessian=env.hessian_stub(numdifftools.Hessian))
    M["tabulate"] = mod("tabulate", real="tabulate", tabulate=env.tabulate)
    M.update(_tqdm_mod())
    M.update(_mp_mod(env))
    np.random.poisson = lambda lam=1.0, size=None: env.poisson(lam, size)
    np.random.seed = lambda *a: env.seeds.extend(a)

    class RNG:
        def __init__(self, real):
            self._real = real

        def poisson(self, lam=1.0, size=None):
            return env.poisson(lam, size)

        def __getattr__(self, n):
            return getattr(self._real, n)

    def rng(make, *a, **k):
        env.seeds.extend(v for v in list(a) + list(k.values()) if isinstance(v, (int, np.integer)))
        return RNG(make(*a, **k))

    class Meta(type):
        # scipy asks whether something is a RandomState
        def __instancecheck__(cls, o):
            return isinstance(o, _RNG[1])

        def __call__(cls, *a, **k):
            return rng(_RNG[1], *a, **k)
    np.random.default_rng = lambda *a, **k: rng(_RNG[0], *a, **k)
    np.random.RandomState = Meta("RandomState", (), {})
    M.update(_mpl())
    return M


# ------------------------------------------------------------------ builtins for symbolic mode
class _FM(type):
    def __instancecheck__(cls, v):
        if isinstance(v, Sym):
            return v.t == "f"
        return builtins.isinstance(v, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is FloatShim

    def __hash__(cls):
        return hash(float)


class FloatShim(float, metaclass=_FM):
    dtype = np.dtype(float)

    def __new__(cls, v=0.0):
        if builtins.isinstance(v, np.ndarray) and v.dtype != object and not builtins.isinstance(v, sn.SArr):
            return float(v)
        if builtins.isinstance(v, np.ndarray) and v.size == 1:
            v = v.reshape(-1)[0]
        if builtins.isinstance(v, (Sym, SymBool)):
            return sc._retag(as_sym(v), "f")
        return float(v)


class _IM(type):
    def __instancecheck__(cls, v):
        return builtins.isinstance(v, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is IntShim

    def __hash__(cls):
        return hash(int)


class IntShim(int, metaclass=_IM):
    dtype = np.dtype(int)

    def __new__(cls, v=0, *a):
        if builtins.isinstance(v, np.ndarray) and v.size == 1:
            v = v.reshape(-1)[0]
        if builtins.isinstance(v, (Sym, SymBool)):
            s = as_sym(v)
            if s.x is not None:
                return int(s.x)
            r = sc._retag(sc.trunc(s), "i")
            return int(r.q) if r.q is not None else r
        return int(v, *a)


def isinstance_shim(v, cls):
    if type(v) in (Sym, SymBool):
        cs = cls if type(cls) is tuple else (cls,)
        real = {"f": np.float64, "i": np.int64}[v.t] if type(v) is Sym else np.bool_
        for c in cs:
            if type(c) is tuple:
                if isinstance_shim(v, c):
                    return True
            elif c in (Sym, SymBool):
                if type(v) is c:
                    return True
            elif c is FloatShim or c is float:
                if real is np.float64:
                    return True
            elif c is IntShim or c is int or c is bool:
                continue
            else:
                try:
                    if issubclass(real, c):
                        return True
                except TypeError:
                    continue
        return False
    return builtins.isinstance(v, cls)
