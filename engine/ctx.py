"""The interface between a harness and the three ways it is run.

sym  : inputs are solver variables, code runs on the symbolic numpy, claims are queries
conc : inputs are given or random numbers, the real code and the real libraries run
val  : the symbolic machinery evaluated on numbers (validation of the encoding against conc)
"""
import builtins
import math
import random
import re
from fractions import Fraction

import numpy as np

from . import loader
from . import symcore as sc
from .symcore import Sym, SymBool, as_sym, Infeasible, Unsupported, z3

RTOL = 1e-9


def widen(lo, hi):
    """ranges that stand for "large" and "small" are a thousand times wider than the harnesses say; samples stay within what they say"""
    num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
    if num(hi) and hi >= 300:
        hi = hi * 1000.0
    if num(lo) and lo <= -300:
        lo = lo * 1000.0
    if num(lo) and 0 < lo <= 0.02:
        lo = lo / 1000.0
    return lo, hi


class Skip(BaseException):
    """assumption not met by this concrete input"""


class Failed(BaseException):
    pass


def flat(v):
    if isinstance(v, np.ndarray):
        return list(v.reshape(-1).view(np.ndarray)), tuple(v.shape)
    if isinstance(v, (list, tuple)):
        out, shp = [], None
        for x in v:
            f, s = flat(x)
            out += f
            if shp is None:
                shp = s
            elif shp != s:
                shp = "ragged"
        return out, (len(v),) + (shp if isinstance(shp, tuple) else (() if shp is None else (shp,)))
    return [v], ()


class Base:
    sym = False

    def __init__(self, cfg):
        self.cfg = cfg
        self.env = None

    def mod(self, name="templatefitter"):
        return self.loader.load(name)

    # -- inputs
    def reals(self, name, n, lo=None, hi=None, **k):
        return self.arr([self.real(f"{name}{i}", lo, hi, **k) for i in range(n)])

    def rvec(self, name, n, lo=None, hi=None, **k):
        return [self.real(f"{name}{i}", lo, hi, **k) for i in range(n)]

    def mat(self, name, n, m=None, lo=None, hi=None):
        m = n if m is None else m
        return self.arr([[self.real(f"{name}{i}_{j}", lo, hi) for j in range(m)] for i in range(n)])

    def symmat(self, name, n, lo=None, hi=None):
        a = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                a[i][j] = a[j][i] = self.real(f"{name}{i}_{j}", lo, hi)
        return self.arr(a)

    def ite(self, cond, a, b):
        return a if cond else b

    def log(self, v):
        return math.log(v)

    def sqrt(self, v):
        return math.sqrt(v)

    def chi2sf(self, x, dof):
        import scipy.stats
        return float(scipy.stats.chi2.sf(x, dof))

    def isum(self, it):
        r = 0.0
        for x in it:
            r = r + x
        return r

    def vec(self, a):
        """elements of an array as a plain list"""
        return list(a.reshape(-1)) if isinstance(a, np.ndarray) else list(a)

    def pick(self, n, name):
        # a configuration may prescribe choices: script={"op": [...]} fixes op0, op1, ...
        for k, v in (self.cfg.get("script") or {}).items():
            if name.startswith(k) and name[len(k):].isdigit() and int(name[len(k):]) < len(v) and v[int(name[len(k):])] is not None:
                return v[int(name[len(k):])]
        for i in range(n - 1):
            if self.flag(f"{name}={i}"):
                return i
        return n - 1

    def perm(self, n, name):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self.pick(len(left), f"{name}{len(out)}")))
        return out

    def raises(self, fn, exc, label):
        try:
            fn()
        except Exception as e:
            if isinstance(e, exc):
                self.check(True, label)
                return True
            self.check(False, label + f": raised {type(e).__name__} instead of {getattr(exc, '__name__', exc)}")
            return False
        self.check(False, label + ": no error raised")
        return False

    def same_state(self, a, b, label):
        self.eq(a, b, label)


# ---------------------------------------------------------------------------
class SymCtx(Base):
    sym = True

    def __init__(self, ex, cfg, margin=True):
        super().__init__(cfg)
        from . import shims
        self.ex = ex
        self.env = shims.Env(self)
        self.cands = []
        self.notes = []
        self.claims = 0
        self.unknown = []
        self.ints = set()
        self.ranges = {}
        self.obs = []
        mods = shims.sym_modules(self)
        self.np = mods["numpy"]
        self.loader = loader.Loader(mods, {"isinstance": shims.isinstance_shim, "float": shims.FloatShim, "int": shims.IntShim})
        self.seen_claims = {}
        self.flagvars = {}

    def ite(self, cond, a, b):
        return sc.ite(cond, a, b)

    def log(self, v):
        return sc.log(as_sym(v))

    def sqrt(self, v):
        return sc.sqrt(as_sym(v))

    def chi2sf(self, x, dof):
        from . import shims
        return as_sym(shims.Chi2().sf(as_sym(x), dof))

    def begin_path(self):
        self.env.reset()
        self.loader.reset()
        self.decl = {}
        self.flagvars = {}

    # -- inputs
    def real(self, name, lo=None, hi=None, integer=False, wide=True):
        if wide:
            lo, hi = widen(lo, hi)
        ex = self.ex
        if name in self.decl:
            return self.decl[name]
        v = Sym(num=z3.Real("v:" + name), t="i" if integer else "f")
        self.decl[name] = v
        if integer:
            self.ints.add(name)
        ex.set_box(name, lo, hi)
        if not isinstance(lo, (Sym, SymBool)) and not isinstance(hi, (Sym, SymBool)):
            key = re.sub(r"\d+(_\d+)*", "*", name) + (" (integer)" if integer else "")
            a, b = self.ranges.get(key, (lo, hi))
            self.ranges[key] = (None if a is None or lo is None else min(a, lo), None if b is None or hi is None else max(b, hi))
        if lo is not None:
            self._assume(v >= lo)
            if not isinstance(lo, (Sym, SymBool)) and lo > 0:
                ex.known[v.num.get_id()] = (v.num, 1)
        if hi is not None:
            self._assume(v <= hi)
        return v

    def _assume(self, c):
        c = sc.as_bool(c)
        if c.concrete:
            if not c.e:
                raise Infeasible()
            return
        self.ex.fact(c.z)

    def assume(self, c, tol=False):
        if isinstance(c, np.ndarray):
            for x in c.reshape(-1).view(np.ndarray):
                self._assume(x)
        else:
            self._assume(c)

    def positive(self, v, m=0.01):
        """assume v >= m > 0"""
        v = as_sym(v)
        self._assume(v >= Sym(q=Fraction(repr(m))))
        if v.num is not None:
            for e in (v.num, sc.canon(v.num)):
                self.ex.known[e.get_id()] = (e, 1)

    def arr(self, l, kind=None):
        from . import symnp as sn
        return sn.mk(l, kind or "f")

    def flag(self, name):
        """free nondeterministic boolean"""
        b = z3.Bool("b:" + name)
        self.flagvars[name] = b
        return self.ex.branch(b)

    def edges(self, name, n, lo=-600, hi=600, gap=2.0**-6):
        e = [self.real(f"{name}{i}", lo, hi) for i in range(n + 1)]
        for a, b in zip(e, e[1:]):
            self._assume(b - a >= gap)
        return self.arr(e)

    # -- claims
    def check(self, cond, label):
        self.claims += 1
        if isinstance(cond, np.ndarray):
            for x in cond.reshape(-1).view(np.ndarray):
                self.check(x, label)
            return
        c = sc.as_bool(cond)
        if c.concrete:
            self.ex.stats.claim_queries += 1
            if c.e:
                self.ex.stats.unsat += 1
            else:
                self.ex.stats.sat += 1
                self._candidate([], label)
            return
        self._query(z3.Not(c.z), label, [z3.Not(c.z)])

    holds = check

    def _vars(self, cs):
        vs = set()
        for c in cs:
            vs |= sc.zvars(c)
        return vs

    def _query(self, neg, label, margins, diff=None):
        """neg satisfiable -> candidate from the strongest satisfiable margin"""
        ex = self.ex
        ex.stats.claim_queries += 1
        vs = sc.zvars(neg)
        base = ex.slice(vs)
        near = [k for k, v in ex.cons if v <= vs]
        r = ex.check(near + [neg], 1000)
        if r != "unsat":
            r = ex.check(base + [neg], min(2500, ex.claim_ms) if diff is not None else ex.claim_ms)
        if r == "unknown" and diff is not None:
            x, y = diff
            ma, mb, _ = sc._lcd(x.den, y.den)
            if ex.split_zero(sc._mul(x.n, ma) - sc._mul(y.n, mb), ex.claim_ms):
                r = "unsat"
            else:
                r = ex.check(base + [neg], ex.claim_ms)
        if r == "unsat":
            ex.stats.unsat += 1
            return
        if r == "sat":
            neg2 = self._log_refine(neg)
            if neg2 is not None:
                base = ex.slice(sc.zvars(neg))
                r = ex.check(base + [neg], ex.claim_ms)
                if r == "unsat":
                    ex.stats.unsat += 1
                    return
        if r == "unknown":
            ex.stats.unknown += 1
        else:
            ex.stats.sat += 1
        verdicts = []
        for m in margins:
            rr = ex.check(base + [m], ex.claim_ms)
            verdicts.append(rr)
            if rr == "sat":
                self._candidate([m], label, solver="sat")
                return
            if r == "unknown" and rr == "unknown":
                break
        if r == "sat" and verdicts and all(v == "unsat" for v in verdicts):
            self.notes.append(f"{label}: differs only below the float tolerance")
            return
        # solver cannot decide: recorded, searched concretely, else inconclusive
        self._candidate([], label, solver="unknown", hard=False)
        self.unknown.append(label)

    def _log_refine(self, neg):
        """add equalities between logarithm atoms whose arguments are provably equal"""
        ex = self.ex
        names = sc.zvars(neg)
        ls = [(a.num, c) for a, c in ex.logs.values()]
        used = [x for x in ls if x[0].decl().name() in names]
        added = None
        for i in range(len(used)):
            for j in range(i):
                if used[i][0].decl().name() == used[j][0].decl().name():
                    continue
                e = used[i][1] == used[j][1]
                if ex.implied(e):
                    ex.fact(used[i][0] == used[j][0])
                    added = True
        return added

    def eq(self, a, b, label, scale=None, rtol=None):
        """a (code) equals b (oracle)"""
        self.claims += 1
        fa, sa = flat(a)
        fb, sb = flat(b)
        if sa != sb:
            self.ex.stats.claim_queries += 1
            self.ex.stats.sat += 1
            self._candidate([], f"{label}: shape {sa} instead of {sb}")
            return
        todo = []
        for i, (x, y) in enumerate(zip(fa, fb)):
            if isinstance(x, (str, type(None), type)) or isinstance(y, (str, type(None), type)):
                if not (type(x) == type(y) and x == y):
                    self.ex.stats.sat += 1
                    self._candidate([], f"{label}: {x!r} instead of {y!r}")
                    return
                continue
            x, y = as_sym(x), as_sym(y)
            if sc.same(x, y):
                self.ex.stats.claim_queries += 1
                self.ex.stats.unsat += 1
                continue
            if x.x is not None or y.x is not None:
                self.ex.stats.claim_queries += 1
                self.ex.stats.sat += 1
                self._candidate([], f"{label}[{i}]: {x} instead of {y}")
                return
            todo.append((i, x, y))
        for i, x, y in todo:
            self._eq1(x, y, f"{label}[{i}]", scale, rtol)

    def _eq1(self, x, y, label, scale, rtol):
        ne = x != y
        if ne.concrete:
            self.ex.stats.claim_queries += 1
            if ne.e:
                self.ex.stats.sat += 1
                self._candidate([], label)
            else:
                self.ex.stats.unsat += 1
            return

        def margins():
            d = x - y
            a = lambda v: Sym(num=z3.If(v.n >= 0, v.n, -v.n), den=v.den) if not v.is_conc else abs(v)
            for t in (1e-2, 2e-6, 4e-9 if rtol is None or rtol >= RTOL else rtol * 4):
                if rtol is not None and rtol > RTOL:
                    t = max(t, rtol * 4)
                tt = Sym(q=Fraction(repr(t)))
                # |d| > t * max(|x|, |y|, scale)
                yield z3.And([(a(d) > b * tt).z for b in (a(x), a(y), a(as_sym(1 if scale is None else scale)))])
        self._query(ne.z, label, margins(), diff=(x, y))

    def le(self, a, b, label, scale=None):
        """a <= b"""
        self.claims += 1
        x, y = as_sym(a), as_sym(b)
        gt = x > y
        if gt.concrete:
            self.check(not gt.e, label)
            return

        def margins():
            s = as_sym(scale) if scale is not None else sc.maximum(sc.maximum(sc.absolute(x), sc.absolute(y)), Sym(q=Fraction(1)))
            for t in (1e-2, 2e-6, 4e-9):
                yield (x > y + s * Sym(q=Fraction(repr(t)))).z
        self._query(gt.z, label, margins())

    def lt(self, a, b, label):
        """strict; the concrete run can only confirm a >= b"""
        self.claims += 1
        self.check(as_sym(a) < as_sym(b), label)

    def finite(self, a, label):
        self.claims += 1
        fa, _ = flat(a)
        for i, x in enumerate(fa):
            x = as_sym(x)
            self.ex.stats.claim_queries += 1
            if x.x is not None:
                self.ex.stats.sat += 1
                self._candidate([], f"{label}[{i}]: {x.x}")
                return
            self.ex.stats.unsat += 1

    def _candidate(self, extra, label, solver="sat", hard=True):
        """values of all inputs for which the negated claim holds"""
        ex = self.ex
        if len(self.cands) >= 12:
            raise Failed()
        m = self._model(extra)
        if m == "unsat":
            # the claim's slice was satisfiable but the path is not
            return
        vals, flags = self._point(m)
        self.cands.append({"label": label, "values": vals, "flags": flags, "solver": solver, "hard": hard})
        if len(self.cands) >= 6:
            raise Failed()

    def witness(self):
        """inputs that follow the current path to its end"""
        m = self._model([], 1500)
        return None if m is None or m == "unsat" else self._point(m)

    def _model(self, extra, ms=4000):
        ex = self.ex
        cs = [c for c, _ in ex.cons] + list(extra)
        box = []
        for n, v in self.decl.items():
            if v.num is not None:
                box += [v.num <= 60, v.num >= -60]
        for tries in (cs + box, cs):
            r, m = ex.check(tries, ms, want_model=True)
            if m is not None:
                return m
            if r == "unsat" and tries is cs:
                return "unsat"
        return None

    def _point(self, m):
        ex = self.ex
        vals, flags = {}, {}
        if m is not None:
            for n, v in self.decl.items():
                vals[n] = zfloat(m.eval(v.num, model_completion=True))
            for n, b in self.flagvars.items():
                flags[n] = bool(z3.is_true(m.eval(b, model_completion=True)))
        else:
            for c, _ in ex.cons:
                for n, b in self.flagvars.items():
                    if c.eq(b):
                        flags[n] = True
                    elif z3.is_not(c) and c.children()[0].eq(b):
                        flags[n] = False
        return vals, flags


def zfloat(e):
    if z3.is_rational_value(e):
        return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


# ---------------------------------------------------------------------------
class Values:
    """source of input values: given ones first, then random"""

    def __init__(self, values=None, flags=None, seed=0, mode="mix"):
        self.values = dict(values or {})
        self.flags = dict(flags or {})
        self.rng = random.Random(seed)
        self.used = {}
        self.used_flags = {}

    def real(self, name, lo, hi, integer):
        if name in self.used:
            return self.used[name]
        if name in self.values:
            v = float(self.values[name])
            if integer:
                v = float(round(v))
        else:
            r = self.rng
            l = -4.0 if lo is None else float(lo)
            h = (max(l, 0.0) + 6.0 if lo is not None else 4.0) if hi is None else float(hi)
            if hi is not None and lo is None:
                l = min(h, 0.0) - 6.0
            if l < 0 < h:
                l = max(l, -20.0)
            h = min(h, l + 40)
            v = r.uniform(l, h)
            if integer:
                v = float(round(r.uniform(max(l, 0), min(h, l + 12))))
            elif r.random() < 0.5:
                w = round(v * 4) / 4
                if l <= w <= h:
                    v = w
        self.used[name] = v
        return v

    def flag(self, name):
        if name in self.used_flags:
            return self.used_flags[name]
        v = self.flags[name] if name in self.flags else self.rng.random() < 0.5
        self.used_flags[name] = v
        return v


class ConcCtx(Base):
    np = np

    def __init__(self, cfg, ldr, env, src):
        super().__init__(cfg)
        self.loader = ldr
        self.env = env
        self.src = src
        self.fails = []
        self.obs = []
        self.claims = 0

    def real(self, name, lo=None, hi=None, integer=False, wide=True):
        v = self.src.real(name, lo, hi, integer)
        if wide:
            lo, hi = widen(lo, hi)
        if lo is not None and v < lo - 1e-9 * max(1, abs(lo)) or hi is not None and v > hi + 1e-9 * max(1, abs(hi)):
            raise Skip(name)
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def assume(self, c, tol=False):
        if tol:
            return
        if not np.all(c):
            raise Skip()

    def positive(self, v, m=0.01):
        if not v >= m:
            raise Skip()

    def arr(self, l, kind=None):
        return np.array(l, dtype={None: float, "f": float, "i": np.int64, "b": bool}[kind])

    def flag(self, name):
        return self.src.flag(name)

    def edges(self, name, n, lo=-600, hi=600, gap=2.0**-6):
        names = [f"{name}{i}" for i in range(n + 1)]
        if not all(k in self.src.values for k in names):
            r = self.src.rng
            grid = sorted(r.sample(range(int(lo * 4), int(hi * 4) + 1), n + 1))
            for k, g in zip(names, grid):
                self.src.values.setdefault(k, g / 4 + (0 if r.random() < 0.7 else r.choice([0, 0.0625])))
        e = np.array([self.real(k, lo, hi) for k in names])
        if np.any(np.diff(e) < gap * (1 - 1e-9) - 1e-9):
            raise Skip()
        return e

    def _fail(self, label, got=None, want=None):
        self.fails.append({"label": label, "got": _show(got), "expected": _show(want)})

    def _obs(self, label, v, tol=None, scale=None):
        self.obs.append((label, [_num(x) for x in flat(v)[0]], tol or RTOL, 1.0 if scale is None else abs(float(scale))))

    def check(self, cond, label):
        self.claims += 1
        ok = bool(np.all(cond))
        self.obs.append((label, [1.0 if ok else 0.0], RTOL, 1.0))
        if not ok:
            self._fail(label)

    holds = check

    def eq(self, a, b, label, scale=None, rtol=None):
        self.claims += 1
        fa, sa = flat(a)
        fb, sb = flat(b)
        self._obs(label, a, rtol, scale)
        if sa != sb:
            self._fail(f"{label}: shape {sa} instead of {sb}", a, b)
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            if isinstance(x, (str, type(None), type)) or isinstance(y, (str, type(None), type)):
                if not (type(x) == type(y) and x == y):
                    self._fail(f"{label}[{i}]", x, y)
                continue
            try:
                x, y = float(x), float(y)
            except (TypeError, ValueError):
                self._fail(f"{label}[{i}]", x, y)
                continue
            if math.isnan(x) and math.isnan(y) or x == y:
                continue
            s = 1.0 if scale is None else abs(float(scale))
            if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y) or abs(x - y) > (rtol or RTOL) * max(abs(x), abs(y), s):
                self._fail(f"{label}[{i}]", x, y)

    def le(self, a, b, label, scale=None):
        self.claims += 1
        a, b = float(a), float(b)
        self._obs(label, a)
        s = float(scale) if scale is not None else max(abs(a), abs(b), 1.0)
        if not a <= b + RTOL * s:
            self._fail(label, a, b)

    def lt(self, a, b, label):
        self.claims += 1
        a, b = float(a), float(b)
        self._obs(label, a)
        if not a < b:
            self._fail(label, a, b)

    def finite(self, a, label):
        self.claims += 1
        self._obs(label, a)
        fa, _ = flat(a)
        if not all(np.isfinite(float(x)) for x in fa):
            self._fail(label, a)


def _num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return str(x)


def _show(v):
    if v is None:
        return None
    s = repr(v)
    return s if len(s) < 400 else s[:400]


# ---------------------------------------------------------------------------
class ValExplorer(sc.Explorer):
    """explorer whose variables have numeric values: every decision is evaluated"""

    def __init__(self, **k):
        super().__init__(**k)
        self.tab = {}
        self.memo = {}

    def setv(self, name, v):
        self.tab[name] = float(v)

    def num(self, e):
        k = e.get_id()
        h = self.memo.get(k)
        if h is not None and h[0].eq(e):
            return h[1]
        r = self._num(e)
        self.memo[k] = (e, r)
        return r

    def _num(self, e):
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_int_value(e):
            return float(e.as_long())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_const(e):
            n = e.decl().name()
            if n not in self.tab:
                raise Unsupported(f"no value for {n}")
            return self.tab[n]
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ITE:
            return self.num(ch[1]) if self.num(ch[0]) else self.num(ch[2])
        v = [self.num(c) for c in ch]
        if k == z3.Z3_OP_ADD:
            return math.fsum(v)
        if k == z3.Z3_OP_SUB:
            return v[0] - sum(v[1:]) if len(v) > 1 else -v[0]
        if k == z3.Z3_OP_MUL:
            return math.prod(v)
        if k == z3.Z3_OP_DIV:
            return v[0] / v[1]
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_POWER:
            return v[0] ** v[1]
        if k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
            return v[0]
        if k == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if k == z3.Z3_OP_LT:
            return v[0] < v[1]
        if k == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if k == z3.Z3_OP_GT:
            return v[0] > v[1]
        if k == z3.Z3_OP_EQ:
            return v[0] == v[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(v)) == len(v)
        if k == z3.Z3_OP_AND:
            return all(v)
        if k == z3.Z3_OP_OR:
            return any(v)
        if k == z3.Z3_OP_NOT:
            return not v[0]
        if k == z3.Z3_OP_XOR:
            return v[0] != v[1]
        if k == z3.Z3_OP_IMPLIES:
            return (not v[0]) or v[1]
        raise Unsupported("numeric evaluation of " + e.decl().name())

    def symnum(self, s):
        s = as_sym(s)
        if s.x is not None:
            return s.x
        if s.q is not None:
            return float(s.q)
        r = self.num(s.num)
        for d in s.den:
            r /= self.num(d)
        return r

    def fact(self, c):
        c = c.z if isinstance(c, SymBool) else c
        if z3.is_eq(c):
            for i in (0, 1):
                l = c.children()[i]
                if z3.is_const(l) and not z3.is_rational_value(l) and l.decl().name() not in self.tab:
                    try:
                        self.tab[l.decl().name()] = self.num(c.children()[1 - i])
                    except (Unsupported, ZeroDivisionError):
                        pass
        return

    def branch(self, c, val=None):
        return bool(self.num(z3.simplify(c)))

    def feasible(self, c):
        return bool(self.num(c))

    def implied(self, c):
        return bool(self.num(c))

    def known_sign(self, e):
        v = self.num(e)
        return (v > 0) - (v < 0)

    def concretize(self, s, lo=None):
        return int(round(self.symnum(s)))

    def sqrt_atom(self, s):
        r = super().sqrt_atom(s)
        self.tab.setdefault(r.num.decl().name(), math.sqrt(max(self.symnum(s), 0.0)))
        return r

    def log_atom(self, f):
        r = super().log_atom(f)
        self.tab.setdefault(r.num.decl().name(), math.log(self.num(f)))
        return r

    def log_facts(self, u, l):
        pass

    def floor_atom(self, s):
        r = super().floor_atom(s)
        v = r.num.children()[0].decl().name()
        self.tab.setdefault(v, math.floor(self.symnum(s)))
        return r

    def rint_atom(self, s):
        r = super().rint_atom(s)
        v = r.num.children()[0].decl().name()
        self.tab.setdefault(v, float(round(self.symnum(s))))
        return r

    def rounded_atom(self, s, dtype):
        r = super().rounded_atom(s, dtype)
        self.tab.setdefault(r.num.decl().name(), float(dtype(self.symnum(s))))
        return r

    def fresh(self, base, sort="real"):
        v = super().fresh(base, sort)
        if base == "quadvar":
            self.tab[v.decl().name()] = 1.2345
        return v

    def atom(self, name, args):
        r = super().atom(name, args)
        n = r.num.decl().name()
        if n not in self.tab:
            a = [self.symnum(x) for x in args]
            import scipy.stats
            if name == "chi2sf":
                self.tab[n] = float(scipy.stats.chi2.sf(*a))
            elif name == "chi2pdf":
                self.tab[n] = float(scipy.stats.chi2.pdf(*a))
            else:
                raise Unsupported("atom " + name)
        return r


class ValCtx(SymCtx):
    """symbolic machinery on numbers"""

    def __init__(self, ex, cfg, src):
        super().__init__(ex, cfg)
        self.src = src
        self.obs = []

    def real(self, name, lo=None, hi=None, integer=False, wide=True):
        if name in self.decl:
            return self.decl[name]
        v = self.src.real(name, lo, hi, integer)
        s = Sym(num=z3.Real("v:" + name), t="i" if integer else "f")
        self.ex.setv("v:" + name, v)
        self.decl[name] = s
        return s

    def _assume(self, c):
        c = sc.as_bool(c)

    def assume(self, c, tol=False):
        pass

    def positive(self, v, m=0.01):
        pass

    def flag(self, name):
        return self.src.flag(name)

    def edges(self, name, n, lo=-600, hi=600, gap=2.0**-6):
        return self.arr([self.real(f"{name}{i}", lo, hi) for i in range(n + 1)])

    def _n(self, v):
        if isinstance(v, (Sym, SymBool, int, float, np.number)) and not isinstance(v, bool):
            if isinstance(v, SymBool):
                return float(self.ex.num(v.z))
            return self.ex.symnum(v)
        return _num(v)

    def _obs(self, label, v):
        self.obs.append((label, [self._n(x) for x in flat(v)[0]]))

    def check(self, cond, label):
        if isinstance(cond, np.ndarray):
            ok = all(bool(sc.as_bool(x)) for x in cond.reshape(-1).view(np.ndarray))
        else:
            ok = bool(sc.as_bool(cond))
        self.obs.append((label, [1.0 if ok else 0.0]))

    holds = check

    def eq(self, a, b, label, scale=None, rtol=None):
        self._obs(label, a)

    def le(self, a, b, label, scale=None):
        self._obs(label, a)

    def lt(self, a, b, label):
        self._obs(label, a)

    def finite(self, a, label):
        self._obs(label, a)
