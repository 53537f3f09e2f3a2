"""Symbolic scalars and the path explorer.

A `Sym` is a Python number of the code under test.  It is one of
  * a concrete exact rational (`q`),
  * a concrete special value nan / +inf / -inf (`x`),
  * a symbolic rational function  num / prod(den)  over z3 reals, where every
    factor of the denominator is known to be > 0 on the current path.
Real semantics: floating point rounding is outside the claim (see DESIGN.md).

The explorer runs a function repeatedly; each truth test of a symbolic
condition asks the solver which outcomes are possible and forks.
"""
import math
import os
import sys
import time
from fractions import Fraction

_Z3DIR = os.environ.get("VERIF_Z3DIR", "/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def _load_z3():
    try:
        import z3 as m
        return m
    except ImportError:
        pass
    sys.path.append(_Z3DIR)
    try:
        import z3 as m
        return m
    finally:
        sys.path.remove(_Z3DIR)


z3 = _load_z3()
z3.set_param("memory_max_size", 6000)


class Steer(BaseException):
    """Path steering; BaseException so that code under test cannot swallow it."""


class Infeasible(Steer):
    pass


class Unsupported(Steer):
    """The engine cannot encode this operation: the run is inconclusive."""


class OutOfTime(Steer):
    pass


ONE = z3.RealVal(1)
ZERO = z3.RealVal(0)


def fr(x):
    """Exact rational for a Python/numpy number (floats by shortest decimal)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    try:
        import numpy as np
        if isinstance(x, (np.integer, np.bool_)):
            return Fraction(int(x))
    except ImportError:
        pass
    return Fraction(repr(float(x)))


def qval(q):
    return z3.RealVal(f"{q.numerator}/{q.denominator}") if q.denominator != 1 else z3.RealVal(q.numerator)


_simp_cache = {}


def canon(e):
    """Sum-of-monomials normal form (z3's simplifier)."""
    k = e.get_id()
    r = _simp_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    c = z3.simplify(e, som=True, sort_sums=True, som_blowup=200000)
    _simp_cache[k] = (e, c)
    return c


def zvars(e, _cache={}):
    """Set of uninterpreted constants in e (by AST id -> name)."""
    k = e.get_id()
    r = _cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            st.extend(t.children())
    out = frozenset(out)
    _cache[k] = (e, out)
    return out


EX = None  # the active explorer


def ex():
    if EX is None:
        raise RuntimeError("no active explorer")
    return EX


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e          # python bool or z3 BoolRef

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)

    @property
    def concrete(self):
        return isinstance(self.e, bool)

    def __bool__(self):
        if isinstance(self.e, bool):
            return self.e
        return ex().branch(self.e)

    @property
    def z(self):
        return z3.BoolVal(self.e) if isinstance(self.e, bool) else self.e

    def __and__(self, o):
        o = as_bool(o)
        if self.e is False or o.e is False:
            return SymBool(False)
        if self.e is True:
            return o
        if o.e is True:
            return self
        return SymBool(z3.And(self.z, o.z))
    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if self.e is True or o.e is True:
            return SymBool(True)
        if self.e is False:
            return o
        if o.e is False:
            return self
        return SymBool(z3.Or(self.z, o.z))
    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        if self.concrete and o.concrete:
            return SymBool(self.e != o.e)
        return SymBool(z3.Xor(self.z, o.z))
    __rxor__ = __xor__

    def __invert__(self):
        if self.concrete:
            return SymBool(not self.e)
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (Sym, int, float)) and not isinstance(o, bool):
            return as_sym(self) == o
        return ~(self ^ as_bool(o))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(self.e) if self.concrete else self.e.get_id()

    # numbers
    def __add__(self, o): return as_sym(self) + o
    def __radd__(self, o): return o + as_sym(self)
    def __sub__(self, o): return as_sym(self) - o
    def __rsub__(self, o): return o - as_sym(self)
    def __mul__(self, o): return as_sym(self) * o
    def __rmul__(self, o): return o * as_sym(self)
    def __truediv__(self, o): return as_sym(self) / o
    def __neg__(self): return -as_sym(self)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f"SymBool({self.e})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self
    ndim = 0
    shape = ()
    size = 1


def as_bool(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, Sym):
        return o != 0
    try:
        import numpy as np
        if isinstance(o, np.bool_):
            return SymBool(bool(o))
        if isinstance(o, np.ndarray) and o.size == 1:
            return as_bool(o.reshape(-1)[0])
    except ImportError:
        pass
    return SymBool(bool(o))


# --------------------------------------------------------------------------
class Sym:
    __slots__ = ("q", "x", "num", "den", "t", "root", "rad", "_cn", "nn")
    __array_priority__ = 1000

    def __init__(self, q=None, x=None, num=None, den=(), t="f"):
        self.q = q
        self.x = x
        self.num = num
        self.den = den
        self.t = t
        self.root = None   # self == root**2
        self.rad = None    # self == sqrt(rad)
        self._cn = None
        self.nn = False    # not negative by construction (squares, their sums and products)

    # ---- construction
    @staticmethod
    def const(v, t=None):
        if isinstance(v, Fraction):
            return Sym(q=v, t=t or "f")
        import numpy as np
        if t is None:
            t = "i" if isinstance(v, (bool, int, np.integer, np.bool_)) else "f"
        if isinstance(v, (bool, int, np.integer, np.bool_)):
            return Sym(q=Fraction(int(v)), t=t)
        v = float(v)
        if math.isnan(v) or math.isinf(v):
            return Sym(x=v, t="f")
        return Sym(q=fr(v), t=t)

    @staticmethod
    def var(name, t="f"):
        return Sym(num=z3.Real(name), t=t)

    @staticmethod
    def z3e(e, t="f"):
        return Sym(num=e, t=t)

    @property
    def is_conc(self):
        return self.q is not None or self.x is not None

    @property
    def is_special(self):
        return self.x is not None

    @property
    def n(self):
        """numerator as z3 expr"""
        if self.q is not None:
            return qval(self.q)
        return self.num

    def denprod(self):
        r = ONE
        for d in self.den:
            r = d if r is ONE else r * d
        return r

    def z(self):
        """plain z3 term (with division)"""
        if self.x is not None:
            raise Unsupported("special value as a z3 term")
        if not self.den:
            return self.n
        return self.n / self.denprod()

    def cn(self):
        if self._cn is None:
            self._cn = canon(self.n)
        return self._cn

    def value(self):
        if self.x is not None:
            return self.x
        if self.q is not None:
            return self.q
        return None

    # ---- numpy scalar protocol
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        import numpy as np
        return np.dtype("int64") if self.t == "i" else np.dtype("float64")

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self
    mean = sum

    def astype(self, dt, *a, **k):
        from . import symnp
        return symnp.cast_scalar(self, symnp.kind_of(dt))

    def flatten(self):
        from . import symnp
        return symnp.mk([self])
    ravel = flatten

    def reshape(self, *s):
        from . import symnp
        return symnp.mk([self]).reshape(*s)

    def round(self, *a):
        return round_digits(self, a[0] if a else 0)

    def __round__(self, nd=None):
        if self.q is not None and self.x is None:
            return Sym.const(round(self.q, nd) if nd is not None else round(self.q))
        return round_digits(self, nd or 0)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)

    # ---- conversions
    def __float__(self):
        if self.x is not None:
            return self.x
        if self.q is not None:
            return float(self.q)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.q is not None:
            return int(self.q)
        if self.x is not None:
            return int(self.x)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.q is not None and self.t == "i":
            return int(self.q)
        if self.t != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise Unsupported("index with a symbolic value")

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.q is not None:
            return hash(self.q)
        if self.x is not None:
            return hash(self.x)
        return hash((self.num.get_id(), tuple(d.get_id() for d in self.den)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        if self.is_conc:
            return f"Sym({self.q if self.x is None else self.x})"
        return f"Sym({self.num}{' / ' + str(self.den) if self.den else ''})"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    # ---- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        t = "i" if self.t == "i" and o.t == "i" else "f"
        if self.x is not None or o.x is not None:
            return _sp_add(self, o)
        if self.q is not None and o.q is not None:
            return Sym(q=self.q + o.q, t=t)
        if self.q == 0:
            return _retag(o, t)
        if o.q == 0:
            return _retag(self, t)
        da, db = self.den, o.den
        if _sameden(da, db):
            r = _norm(self.n + o.n, da, t)
        else:
            # common denominator: cancel shared factors
            ma, mb, common = _lcd(da, db)
            r = _norm(_mul(self.n, ma) + _mul(o.n, mb), common, t)
        r.nn = self._nn() and o._nn()
        return r

    def __radd__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else o + self

    def __neg__(self):
        if self.x is not None:
            return Sym(x=-self.x)
        if self.q is not None:
            return Sym(q=-self.q, t=self.t)
        return Sym(num=-self.num, den=self.den, t=self.t)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else o - self

    def __mul__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        t = "i" if self.t == "i" and o.t == "i" else "f"
        if self.x is not None or o.x is not None:
            return _sp_mul(self, o)
        if self.q is not None and o.q is not None:
            return Sym(q=self.q * o.q, t=t)
        if self.q == 0 or o.q == 0:
            return Sym(q=Fraction(0), t=t)
        if self.q == 1:
            return _retag(o, t)
        if o.q == 1:
            return _retag(self, t)
        if self.rad is not None and o.rad is not None and self.num.eq(o.num):
            return _retag(self.rad, t)
        na, nb, da, db = self.n, o.n, self.den, o.den
        # cheap cancellation: numerator identical to a factor of the other denominator
        na, db = _cancel(na, db)
        nb, da = _cancel(nb, da)
        r = Sym(num=_mul(na, nb), den=_mergeden(da, db), t=t)
        if not self.is_conc and not o.is_conc and self is not o and self.num.eq(o.num) and _sameden(da, db) and self.den == da:
            r.root = self
        elif self is o:
            r.root = self
        r.nn = r.root is not None or (self._nn() and o._nn())
        return _settle(r)

    def _nn(self):
        return self.nn or self.root is not None or self.rad is not None or (self.q is not None and self.q >= 0)

    def __rmul__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else o * self

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else div(o, self)

    def __floordiv__(self, o):
        return floor(div(self, coerce(o)))

    def __rfloordiv__(self, o):
        return floor(div(coerce(o), self))

    def __mod__(self, o):
        o = coerce(o)
        return self - floor(div(self, o)) * o

    def __pow__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if o.q is None:
            raise Unsupported("symbolic exponent")
        if o.q.denominator == 2:
            return sqrt(self) ** o.q.numerator
        if o.q.denominator != 1:
            raise Unsupported("fractional power")
        k = int(o.q)
        if k < 0:
            return div(Sym(q=Fraction(1)), self ** (-k))
        if k == 0:
            return Sym(q=Fraction(1), t=self.t)
        r = self
        for _ in range(k - 1):
            r = r * self
        if k == 2 and not self.is_conc and r.root is None and self.rad is None:
            r.root = self
        r.nn = k % 2 == 0 or self._nn()
        if o.t == "f" and r.t == "i":
            r = _retag(r, "f")
        return r

    def __rpow__(self, o):
        return coerce(o) ** self

    def __abs__(self):
        return absolute(self)

    # ---- comparisons
    def _cmp(self, o, op):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.x is not None or o.x is not None:
            if (self.x is not None and math.isnan(self.x)) or (o.x is not None and math.isnan(o.x)):
                return SymBool(op == "ne")
            a = self.x if self.x is not None else 0.0
            b = o.x if o.x is not None else 0.0
            if op == "eq" or op == "ne":
                eq = self.x is not None and o.x is not None and a == b
                return SymBool(eq if op == "eq" else not eq)
            if self.x is None and o.x is None:
                raise AssertionError
            # finite vs infinite compares like 0 vs infinite
            return SymBool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op])
        if self.q is not None and o.q is not None:
            a, b = self.q, o.q
            return SymBool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])
        if _sameden(self.den, o.den):
            a, b = self.n, o.n
        else:
            ma, mb, _ = _lcd(self.den, o.den)
            a, b = _mul(self.n, ma), _mul(o.n, mb)
        if op == "eq":
            c = a == b
        elif op == "ne":
            c = a != b
        elif op == "lt":
            c = a < b
        elif op == "le":
            c = a <= b
        elif op == "gt":
            c = a > b
        else:
            c = a >= b
        c = z3.simplify(c)
        if z3.is_true(c):
            return SymBool(True)
        if z3.is_false(c):
            return SymBool(False)
        return SymBool(c)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return SymBool(False) if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return SymBool(True) if r is NotImplemented else r

    # numpy calls these methods for object arrays / scalars
    def sqrt(self): return sqrt(self)
    def log(self): return log(self)
    def log1p(self): return log(self + 1)
    def rint(self): return rint(self)
    def floor(self): return floor(self)
    def ceil(self): return -floor(-self)
    def exp(self): raise Unsupported("exp")
    def conjugate(self): return self
    def is_integer(self):
        if self.q is not None:
            return self.q.denominator == 1
        raise Unsupported("is_integer")


def _unsup(what):
    raise Unsupported(what)


def coerce(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return as_sym(o)
    if isinstance(o, (int, float, Fraction)):
        return Sym.const(o)
    import numpy as np
    if isinstance(o, (np.number, np.bool_)):
        return Sym.const(o)
    return NotImplemented


def as_sym(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        if o.concrete:
            return Sym.const(int(o.e))
        return Sym(num=z3.If(o.e, ONE, ZERO), t="i")
    r = coerce(o)
    if r is NotImplemented:
        import numpy as np
        if isinstance(o, np.ndarray) and o.size == 1:
            return as_sym(o.reshape(-1)[0])
        if o is None:
            return Sym(x=float("nan"))
        raise TypeError(f"float() argument must be a string or a real number, not {type(o).__name__!r}")
    return r


def _retag(s, t):
    if s.t == t:
        return s
    r = Sym(q=s.q, x=s.x, num=s.num, den=s.den, t=t)
    r.root, r.rad, r._cn, r.nn = s.root, s.rad, s._cn, s.nn
    return r


def _mul(a, b):
    if a is ONE or (z3.is_rational_value(a) and a.eq(ONE)):
        return b
    if b is ONE or (z3.is_rational_value(b) and b.eq(ONE)):
        return a
    return a * b


def _sameden(a, b):
    if a is b:
        return True
    return len(a) == len(b) and all(x.eq(y) for x, y in zip(a, b))


def _mergeden(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b, key=lambda d: d.get_id()))


def _lcd(a, b):
    """multipliers ma, mb and least common denominator (by factor identity)"""
    rest_b = list(b)
    only_a = []
    for f in a:
        for i, g in enumerate(rest_b):
            if f.eq(g):
                del rest_b[i]
                break
        else:
            only_a.append(f)
    ma, mb = ONE, ONE
    for g in rest_b:
        ma = _mul(ma, g)
    for f in only_a:
        mb = _mul(mb, f)
    return ma, mb, _mergeden(tuple(a), tuple(rest_b))


def _cancel(n, den):
    if not den:
        return n, den
    cn = canon(n)
    for i, d in enumerate(den):
        if cn.eq(d):
            return ONE, den[:i] + den[i + 1:]
    # product on top level
    if z3.is_mul(n):
        ch = n.children()
        for j, c in enumerate(ch):
            cc = canon(c)
            for i, d in enumerate(den):
                if cc.eq(d):
                    rest = ch[:j] + ch[j + 1:]
                    m = ONE
                    for r in rest:
                        m = _mul(m, r)
                    return _cancel(m, den[:i] + den[i + 1:])
    return n, den


def _settle(r):
    """collapse constants"""
    if r.num is not None and z3.is_rational_value(r.num) and not r.den:
        return Sym(q=Fraction(r.num.numerator_as_long(), r.num.denominator_as_long()), t=r.t)
    return r


BIG = 4000


def _first_ite(e):
    """a condition of an innermost if-then-else in e"""
    seen = set()
    st = [e]
    best = None
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.children()[0]
            n = _size(c, 300)
            if best is None or n < best[0]:
                best = (n, c)
        st.extend(t.children())
    return None if best is None else best[1]


def _size(e, lim=BIG):
    seen = set()
    st = [e]
    n = 0
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        n += 1
        if n > lim:
            return n
        st.extend(t.children())
    return n


def _norm(n, den, t):
    """sum: normalise small numerators so that cancellations are seen"""
    if den:
        c = canon(n)
        if z3.is_rational_value(c) and c.numerator_as_long() == 0:
            return Sym(q=Fraction(0), t=t)
        n2, den2 = _cancel(c, den)
        if len(den2) < len(den):
            return _settle(Sym(num=n2, den=den2, t=t))
        return Sym(num=c, den=den, t=t)
    c = z3.simplify(n)
    if z3.is_rational_value(c):
        return Sym(q=Fraction(c.numerator_as_long(), c.denominator_as_long()), t=t)
    return Sym(num=c, t=t)


def _sp_add(a, b):
    ax, bx = a.x, b.x
    if ax is not None and bx is not None:
        return Sym(x=ax + bx)
    return Sym(x=ax if ax is not None else bx)


def _sp_mul(a, b):
    if a.x is not None and b.x is not None:
        return Sym(x=a.x * b.x)
    if b.x is not None:
        a, b = b, a
    # a special, b finite
    if math.isnan(a.x):
        return Sym(x=a.x)
    s = sign_of(b)
    if s == 0:
        return Sym(x=float("nan"))
    return Sym(x=a.x * s)


def sign_of(s):
    """-1/0/1, forking if necessary"""
    if s.q is not None:
        return (s.q > 0) - (s.q < 0)
    if s.x is not None:
        return (s.x > 0) - (s.x < 0)
    k = ex().known_sign(s.n)
    if k is not None:
        return k
    if bool(s > 0):
        return 1
    if bool(s < 0):
        return -1
    return 0


def div(a, b):
    if b.x is not None:
        if math.isnan(b.x) or a.x is not None:
            return Sym(x=float("nan"))
        return Sym(q=Fraction(0))
    if a.x is not None:
        if math.isnan(a.x):
            return Sym(x=a.x)
        s = sign_of(b)
        return Sym(x=a.x * (s if s != 0 else 1))
    if b.q is not None:
        if b.q == 0:
            s = sign_of(a)
            return Sym(x=float("nan") if s == 0 else s * float("inf"))
        if a.q is not None:
            return Sym(q=a.q / b.q)
        r = Sym(num=a.num * qval(1 / b.q), den=a.den)
        r.nn = b.q > 0 and a._nn()
        return r
    if a.is_conc is False and a.num.eq(b.num) and _sameden(a.den, b.den):
        s = 1 if ex().known_sign(b.n) in (1, -1) else sign_of(b)
        return Sym(x=float("nan")) if s == 0 else Sym(q=Fraction(1))
    s = sign_of(b)
    if s == 0:
        sa = sign_of(a)
        return Sym(x=float("nan") if sa == 0 else sa * float("inf"))
    if a.q == 0:
        return Sym(q=Fraction(0))
    bn = b.n
    if s < 0:
        bn = -bn
    # a/b = (an * prod(bden)) / (aden * bn)
    factors = _factors(bn)
    an, ad = a.n, a.den
    an, fs = _cancel_all(an, factors)
    bd, ad = _cancel_lists(b.den, ad)
    num = an
    for d in bd:
        num = _mul(num, d)
    if s < 0:
        num = -num
    const = Fraction(1)
    fs2 = []
    for f in fs:
        if z3.is_rational_value(f):
            const *= Fraction(f.numerator_as_long(), f.denominator_as_long())
        else:
            fs2.append(f)
    if const != 1:
        num = num * qval(1 / const)
    for f in fs2:
        ex().den_seen[f.get_id()] = f
    num, dd = _cancel(num, _mergeden(ad, tuple(sorted(fs2, key=lambda d: d.get_id()))))
    r = Sym(num=num, den=dd)
    r.nn = s > 0 and a._nn()
    return _settle(r)


def _factors(bn):
    """split a product into factors only if each is known to be positive"""
    if z3.is_mul(bn):
        ch = bn.children()
        if all(z3.is_rational_value(c) and c.numerator_as_long() > 0 or ex().known_sign(c) == 1 for c in ch):
            out = []
            for c in ch:
                out.extend(_factors(c))
            return out
    if z3.is_app_of(bn, z3.Z3_OP_POWER) if hasattr(z3, "Z3_OP_POWER") else False:
        b, e = bn.children()
        if z3.is_int_value(e) or z3.is_rational_value(e):
            k = e.as_long() if z3.is_int_value(e) else e.numerator_as_long()
            if ex().known_sign(b) == 1 and k > 0:
                return _factors(b) * k
    c = canon(bn)
    if not c.eq(bn) and (z3.is_mul(c)):
        ch = c.children()
        if all(z3.is_rational_value(d) and d.numerator_as_long() > 0 or ex().known_sign(d) == 1 for d in ch):
            out = []
            for d in ch:
                out.extend(_factors(d))
            return out
    return [c]


def _cancel_all(n, factors):
    fs = tuple(factors)
    n2, fs2 = _cancel(n, fs)
    return n2, list(fs2)


def _cancel_lists(a, b):
    a, b = list(a), list(b)
    out = []
    for f in a:
        for i, g in enumerate(b):
            if f.eq(g):
                del b[i]
                break
        else:
            out.append(f)
    return tuple(out), tuple(b)


def ite(c, a, b):
    """merge two scalars under a condition"""
    c = as_bool(c)
    if not c.concrete:
        d = ex().zero_decided(c.e)
        if d is not None:
            return a if d else b
    if c.concrete:
        return a if c.e else b
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return (c & a) | (~c & b)
    a, b = as_sym(a), as_sym(b)
    if a is b:
        return a
    if a.x is not None or b.x is not None:
        if a.x is not None and b.x is not None and (a.x == b.x or (math.isnan(a.x) and math.isnan(b.x))):
            return a
        return a if bool(c) else b
    t = "i" if a.t == "i" and b.t == "i" else "f"
    if a.q is not None and b.q is not None and a.q == b.q:
        return _retag(a, t)
    if same(a, b):
        return _retag(a, t)
    if _sameden(a.den, b.den):
        return Sym(num=z3.If(c.e, a.n, b.n), den=a.den, t=t)
    da, db = a.denprod(), b.denprod()
    return Sym(num=z3.If(c.e, a.n, b.n), den=(z3.If(c.e, da, db),), t=t)


def same(a, b):
    """syntactic equality after normalisation (sound, incomplete)"""
    if a.x is not None or b.x is not None:
        return a.x is not None and b.x is not None and (a.x == b.x or (math.isnan(a.x) and math.isnan(b.x)))
    if a.q is not None and b.q is not None:
        return a.q == b.q
    if _sameden(a.den, b.den):
        return canon(a.n - b.n).eq(ZERO)
    ma, mb, _ = _lcd(a.den, b.den)
    return canon(_mul(a.n, ma) - _mul(b.n, mb)).eq(ZERO)


def absolute(s):
    if s.x is not None:
        return Sym(x=abs(s.x))
    if s.q is not None:
        return Sym(q=abs(s.q), t=s.t)
    if s.rad is not None:
        return s
    if ex().nonneg(s.n):
        return s
    k = ex().known_sign(s.n)
    if k is not None:
        return s if k >= 0 else -s
    return Sym(num=z3.If(s.num >= 0, s.num, -s.num), den=s.den, t=s.t)


def sign(s):
    if s.is_conc:
        if s.x is not None and math.isnan(s.x):
            return s
        return Sym.const(sign_of(s), t=s.t)
    return Sym(num=z3.If(s.num > 0, z3.RealVal(1), z3.If(s.num < 0, z3.RealVal(-1), ZERO)), t=s.t)


def maximum(a, b):
    a, b = as_sym(a), as_sym(b)
    for v in (a, b):
        if v.x is not None and math.isnan(v.x):
            return v
    return ite(a >= b, a, b)


def minimum(a, b):
    a, b = as_sym(a), as_sym(b)
    for v in (a, b):
        if v.x is not None and math.isnan(v.x):
            return v
    return ite(a <= b, a, b)


def _horner(p, order, ivs):
    """range of a polynomial by nested evaluation"""
    if not p:
        return Fraction(0), Fraction(0)
    if not order:
        v = p.get((), Fraction(0))
        return v, v
    i, rest = order[0], order[1:]
    by = {}
    for m, q in p.items():
        k = m.count(i)
        by.setdefault(k, {})[tuple(x for x in m if x != i)] = q
    if set(by) == {0}:
        return _horner(p, rest, ivs)
    r = None
    for k in range(max(by), -1, -1):
        c = _horner(by[k], rest, ivs) if k in by else (Fraction(0), Fraction(0))
        r = c if r is None else _iadd(_imul(r, ivs[i]), c)
    return r


def _iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def _imul(a, b):
    inf = float("inf")
    ends = []
    for x, s in ((a[0], -inf), (a[1], inf)):
        for y, t in ((b[0], -inf), (b[1], inf)):
            u, v = s if x is None else x, t if y is None else y
            ends.append(0 if u == 0 or v == 0 else (u * v if not (x is None or y is None) else (inf if (u > 0) == (v > 0) else -inf)))
    lo, hi = min(ends), max(ends)
    return (None if lo == -inf else Fraction(lo), None if hi == inf else Fraction(hi))


def _isqrt_frac(q):
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


def sqrt(s):
    s = as_sym(s)
    if s.x is not None:
        if s.x == float("inf"):
            return s
        return Sym(x=float("nan"))
    if s.q is not None:
        if s.q < 0:
            return Sym(x=float("nan"))
        r = _isqrt_frac(s.q)
        if r is not None:
            return Sym(q=r)
    else:
        if s.root is not None:
            return absolute(_retag(s.root, "f"))
        if not s.nn and not ex().nonneg(s.n):
            if bool(s < 0):
                return Sym(x=float("nan"))
    return ex().sqrt_atom(s)


def log(s):
    s = as_sym(s)
    if s.x is not None:
        return Sym(x=float("inf")) if s.x == float("inf") else Sym(x=float("nan"))
    if s.q is not None:
        if s.q <= 0:
            return Sym(x=float("-inf") if s.q == 0 else float("nan"))
        if s.q == 1:
            return Sym(q=Fraction(0))
        r = Sym(q=Fraction(0))
        for p, k in _primes(s.q):
            r = r + ex().log_atom(qval(Fraction(p))) * k
        ex().log_facts(s, r)
        return r
    g = sign_of(s)
    if g == 0:
        return Sym(x=float("-inf"))
    if g < 0:
        return Sym(x=float("nan"))
    r = Sym(q=Fraction(0))
    num, fs = _cancel_all(s.n, s.den)
    c, nf = _log_factors([num])
    d, df = _log_factors(fs)
    for f in list(df):
        for i, g in enumerate(nf):
            if f.eq(g):
                del nf[i]
                df.remove(f)
                break
    for p, k in _primes(c / d):
        r = r + ex().log_atom(qval(Fraction(p))) * k
    for f in nf:
        r = r + _log_factor(f)
    for f in df:
        r = r - _log_factor(f)
    ex().log_facts(s, r)
    return r


def _log_factor(f):
    if z3.is_app_of(f, z3.Z3_OP_ITE):
        # the logarithm of a choice is the choice of a logarithm
        k, u, v = f.children()
        return log(Sym(num=u if bool(SymBool(k)) else v))
    return ex().log_atom(f)


def _primes(q):
    out = {}
    for n, sg in ((q.numerator, 1), (q.denominator, -1)):
        p = 2
        while n > 1 and p < 1000:
            while n % p == 0:
                out[p] = out.get(p, 0) + sg
                n //= p
            p += 1
        if n > 1:
            out[n] = out.get(n, 0) + sg
    return sorted((p, k) for p, k in out.items() if k)


def _log_factors(es):
    """positive expressions -> (rational content, normalised factors)"""
    c, out = Fraction(1), []
    for e in es:
        for f in _factors(e):
            if z3.is_rational_value(f):
                c *= Fraction(f.numerator_as_long(), f.denominator_as_long())
                continue
            k, fs = _primitive(canon(f))
            c *= k
            out += fs
    return c, out


def _monomial(t):
    """-> (coefficient, [factors])"""
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long()), []
    if z3.is_mul(t):
        q, fs = Fraction(1), []
        for c in t.children():
            k, f = _monomial(c)
            q *= k
            fs += f
        return q, fs
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        b, p = t.children()
        if z3.is_int_value(p) or z3.is_rational_value(p):
            k = p.as_long() if z3.is_int_value(p) else p.numerator_as_long()
            if k > 0:
                return Fraction(1), [b] * k
    return Fraction(1), [t]


_mono_cache = {}
_poly_cache = {}


def _monomials(e):
    """monomials of a normal form (memoised; not to be changed)"""
    k = e.get_id()
    r = _mono_cache.get(k)
    if r is None or not r[0].eq(e):
        r = _mono_cache[k] = (e, [_monomial(t) for t in (e.children() if z3.is_add(e) else [e])])
    return r[1]


def _poly(e):
    k = e.get_id()
    r = _poly_cache.get(k)
    if r is None or not r[0].eq(e):
        r = _poly_cache[k] = (e, _poly_of(e))
    return r[1]


def _poly_of(e):
    """normal form -> {monomial: coefficient}; a monomial is a tuple of sorted (atom id) repetitions"""
    out = {}
    names = {}
    for q, fs in _monomials(e):
        for f in fs:
            if not z3.is_const(f):
                return None, None
            names[f.decl().name()] = f
        k = tuple(sorted(f.decl().name() for f in fs))
        out[k] = out.get(k, Fraction(0)) + q
    return out, names


def _pdiv(p, f):
    """exact polynomial division or None"""
    order = sorted({v for m in p for v in m} | {v for m in f for v in m})
    idx = {v: i for i, v in enumerate(order)}

    def vec(m):
        r = [0] * len(order)
        for v in m:
            r[idx[v]] += 1
        return tuple(r)
    P = {vec(m): q for m, q in p.items() if q}
    F = {vec(m): q for m, q in f.items() if q}
    lf = max(F)
    out = {}
    while P:
        lp = max(P)
        d = tuple(a - b for a, b in zip(lp, lf))
        if min(d) < 0:
            return None
        q = P[lp] / F[lf]
        out[d] = q
        for m, c in F.items():
            k = tuple(a + b for a, b in zip(m, d))
            v = P.get(k, Fraction(0)) - q * c
            if v:
                P[k] = v
            else:
                P.pop(k, None)
        if len(out) > 400:
            return None
    return {tuple(v for v, n in zip(order, d) for _ in range(n)): q for d, q in out.items()}


def _divide_out(e):
    """split off denominators already seen on this path (all known to be positive)"""
    fs = []
    if not z3.is_add(e):
        return [e]
    cands = [d for d in ex().den_seen.values() if z3.is_add(d)]
    if not cands:
        return [e]
    p, names = _poly(e)
    if p is None:
        return [e]
    hit = False
    for d in sorted(cands, key=lambda d: -d.num_args()):
        if not zvars(d) <= zvars(e):
            continue
        f, n2 = _poly(d)
        if f is None:
            continue
        while len(p) > len(f):
            r = _pdiv(p, f)
            if r is None:
                break
            hit = True
            fs += _primitive_only(f, n2)
            p = r
    if not hit:
        return [e]
    return fs + _primitive_only(p, names)


def _primitive_only(p, names):
    n, d = 0, 1
    for q in p.values():
        n = math.gcd(n, q.numerator)
        d = d * q.denominator // math.gcd(d, q.denominator)
    c = Fraction(n, d)
    e = None
    for m, q in p.items():
        t = qval(q / c)
        for v in m:
            t = _mul(t, names[v])
        e = t if e is None else e + t
    return [qval(c), canon(e)]


def _primitive(e):
    """e > 0 in normal form -> (content, factors): common numbers and common positive variables are taken out"""
    ms = _monomials(e)
    n, d = 0, 1
    for q, _ in ms:
        n = math.gcd(n, q.numerator)
        d = d * q.denominator // math.gcd(d, q.denominator)
    c = Fraction(n, d)
    common = list(ms[0][1])
    for _, fs in ms[1:]:
        if not common:
            break
        left, keep = list(fs), []
        for f in common:
            for i, g in enumerate(left):
                if f.eq(g):
                    keep.append(f)
                    del left[i]
                    break
        common = keep
    common = [f for f in common if ex().known_sign(f) == 1]
    rest = e if c == 1 and not common else None
    for q, fs in ms if rest is None else []:
        left = list(fs)
        for f in common:
            for i, g in enumerate(left):
                if f.eq(g):
                    del left[i]
                    break
        t = qval(q / c)
        for f in left:
            t = _mul(t, f)
        rest = t if rest is None else rest + t
    rest = canon(rest)
    out = list(common)
    if not z3.is_rational_value(rest):
        for f in _divide_out(rest):
            if z3.is_rational_value(f):
                c *= Fraction(f.numerator_as_long(), f.denominator_as_long())
            else:
                out.append(f)
    else:
        c *= Fraction(rest.numerator_as_long(), rest.denominator_as_long())
    return c, out


def floor(s):
    s = as_sym(s)
    if s.x is not None:
        return s
    if s.q is not None:
        return Sym(q=Fraction(math.floor(s.q)), t=s.t)
    if s.t == "i":
        return s
    return s if _integral(s) else ex().floor_atom(s)


def rint(s):
    s = as_sym(s)
    if s.x is not None:
        return s
    if s.q is not None:
        return Sym(q=Fraction(round(s.q)), t=s.t)
    if s.t == "i":
        return s
    return s if _integral(s) else ex().rint_atom(s)


def rounded(s, dtype):
    """conversion to a float type of lower precision: some number within its relative precision"""
    if s.is_conc:
        return Sym(q=Fraction(float(dtype(float(s.q)))))
    return ex().rounded_atom(s, dtype)


def round_digits(s, nd):
    nd = int(nd)
    if not nd:
        return rint(s)
    p = Fraction(10) ** nd
    return rint(s * p) / p


def _integral(s):
    return not s.den and z3.is_app_of(s.num, z3.Z3_OP_TO_REAL)


def trunc(s):
    s = as_sym(s)
    if s.is_conc or s.t == "i":
        return Sym.const(int(s.q)) if s.q is not None else s
    return ite(s >= 0, floor(s), -floor(-s))


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.feas_queries = 0
        self.claim_queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)

    def dict(self):
        return dict(self.__dict__)


_qcache = {}


class Explorer:
    def __init__(self, feas_ms=600, claim_ms=8000, max_paths=4000, deadline=None, logfacts=False):
        self.feas_ms = feas_ms
        self.claim_ms = claim_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.want_logfacts = logfacts
        self.stats = Stats()
        self.prefix = []
        self.trail = []
        self.work = []

    # ---- one path
    def begin(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pos = 0
        self.cons = []           # list of (z3 bool, frozenset vars)
        self.vars = {}           # harness input variables name -> z3 var (ordered)
        self.sqrts = {}
        self.logs = {}
        self.ints = {}
        self.apps = []
        self.nfresh = 0
        self.known = {}
        self.known_none = {}
        self.lf_done = set()
        self.den_seen = {}
        self.local_none = {}
        self.box = {}
        self.ivs = {}
        self.merge_depth = 0

    def explore(self, fn):
        """Runs fn on every feasible path. fn may raise Infeasible."""
        global EX
        self.work = [[]]
        while self.work:
            if self.deadline and time.time() > self.deadline:
                raise OutOfTime("deadline")
            if self.stats.paths >= self.max_paths:
                raise OutOfTime(f"more than {self.max_paths} paths")
            pre = self.work.pop()
            self.begin(pre)
            EX = self
            self.stats.paths += 1
            try:
                fn()
            except Infeasible:
                pass
            finally:
                EX = None

    # ---- constraints
    def fact(self, c):
        c = c.z if isinstance(c, SymBool) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.cons.append((c, zvars(c)))
        self.known_none.clear()

    assume_raw = fact

    def fresh(self, base, sort="real"):
        self.nfresh += 1
        n = f"{base}!{self.nfresh}"
        return z3.Int(n) if sort == "int" else z3.Real(n)

    def slice(self, vs):
        """constraints transitively sharing variables with vs"""
        vs = set(vs)
        todo = list(self.cons)
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, v in todo:
                if v & vs:
                    out.append(c)
                    if not v <= vs:
                        vs |= v
                        changed = True
                else:
                    rest.append((c, v))
            todo = rest
        return out

    def check(self, cs, ms, want_model=False):
        """-> 'sat'/'unsat'/'unknown' (and model)"""
        key = None
        if not want_model:
            key = (frozenset(c.get_id() for c in cs), ms > 1000)
            hit = _qcache.get(key)
            if hit is not None:
                return hit[1]
        t0 = time.time()
        try:
            s = z3.Solver()
            s.set("timeout", int(ms))
            s.add(cs)
            r = s.check()
            if r == z3.unknown and ms > 1000:
                s2 = z3.Tactic("qfnra-nlsat").solver()
                s2.set("timeout", int(ms))
                s2.add(cs)
                try:
                    r2 = s2.check()
                except z3.Z3Exception:
                    r2 = z3.unknown
                if r2 != z3.unknown:
                    r, s = r2, s2
            m = s.model() if (want_model and r == z3.sat) else None
        except z3.Z3Exception as e:
            r, m = z3.unknown, None
        dt = time.time() - t0
        self.stats.solver_s += dt
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime("deadline")
        res = str(r)
        if key is not None and res != "unknown":
            _qcache[key] = (list(cs), res)
        return (res, m) if want_model else res

    def feasible(self, c):
        self.stats.feas_queries += 1
        vs = zvars(c)
        r = self.check(self.slice(vs) + [c], self.feas_ms)
        return r == "sat" or r != "unsat" and not self.split_refute(c, self.feas_ms)

    def split_refute(self, c, ms, budget=40):
        """does the path contradict c?  case split over the conditions of if-then-else terms"""
        if _first_ite(c) is None:
            return False
        work = [(c, [])]
        while work:
            budget -= 1
            if budget < 0:
                return False
            e, extra = work.pop()
            e = z3.simplify(e, som=True)
            if z3.is_false(e):
                continue
            k = _first_ite(e)
            if k is None:
                e = self._reduced(e)
                if self.check(self.slice(zvars(z3.And(extra + [e]))) + extra + [e], ms) != "unsat":
                    return False
                continue
            for val in (True, False):
                lit = k if val else z3.Not(k)
                if self.check(self.slice(zvars(z3.And(extra + [lit]))) + extra + [lit], ms) != "unsat":
                    work.append((z3.substitute(e, (k, z3.BoolVal(val))), extra + [lit]))
        return True

    def _reduced(self, c):
        """a comparison with its roots reduced"""
        if z3.is_not(c):
            return z3.Not(self._reduced(c.children()[0]))
        if z3.is_eq(c) or z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c):
            a = c.children()
            if z3.is_arith(a[0]):
                return z3.simplify(c.decl()(*[self.reduce_roots(x) for x in a]), som=True)
        return c

    def implied(self, c):
        self.stats.feas_queries += 1
        n = z3.Not(c)
        vs = zvars(c)
        near = [k for k, v in self.cons if v <= vs]
        if self.check(near + [n], self.feas_ms) == "unsat":
            return True
        return self.check(self.slice(zvars(c)) + [n], self.feas_ms) == "unsat"

    def known_sign(self, e):
        """1/-1/0 if the path condition implies the sign of e, else None"""
        if z3.is_rational_value(e):
            v = e.numerator_as_long()
            return (v > 0) - (v < 0)
        k = e.get_id()
        r = self.known.get(k) or self.known_none.get(k)
        if r is not None and r[0].eq(e):
            return r[1]
        s = self._struct_sign(e)
        if s is None:
            ce = canon(e)
            r = self.known.get(ce.get_id())
            if r is not None and r[0].eq(ce):
                s = r[1]
        if s is None:
            s = self._iv_sign(e)
        if s is None:
            if self.implied(e > 0):
                s = 1
            elif self.implied(e < 0):
                s = -1
            elif self.implied(e == 0):
                s = 0
        (self.known_none if s is None else self.known)[k] = (e, s)
        return s

    # interval arithmetic over the declared ranges of the inputs
    def set_box(self, name, lo, hi):
        f = lambda x: None if x is None or isinstance(x, (Sym, SymBool)) else fr(x)
        self.box["v:" + name] = (f(lo), f(hi))
        self.ivs = {}

    def _iv_sign(self, e):
        lo, hi = self.interval(e)
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        return None

    def interval(self, e):
        k = e.get_id()
        r = self.ivs.get(k)
        if r is None or not r[0].eq(e):
            r = self.ivs[k] = (e, self._interval(e))
        return r[1]

    def _interval(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return v, v
        if z3.is_const(e):
            b = self.box.get(e.decl().name(), (None, None))
            if b == (None, None):
                k = self.known.get(e.get_id())
                if k is not None and k[0].eq(e) and k[1] == 1:
                    return Fraction(0), None
                if e.decl().name().startswith("sqrt!"):
                    return Fraction(0), None
            return b
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = self.interval(e.children()[1]), self.interval(e.children()[2])
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                    None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if z3.is_add(e) or z3.is_mul(e) or z3.is_app_of(e, z3.Z3_OP_POWER):
            c = canon(e)
            if not (z3.is_add(c) or z3.is_mul(c) or z3.is_app_of(c, z3.Z3_OP_POWER)):
                return self.interval(c)
            p, names = {}, {}
            ts = c.children() if z3.is_add(c) else [c]
            if len(ts) > 3000:
                return None, None
            for t in ts:
                q, fs = _monomial(t)
                for f in fs:
                    if z3.is_add(f) or z3.is_mul(f):
                        return None, None
                    names[f.get_id()] = f
                m = tuple(sorted(f.get_id() for f in fs))
                p[m] = p.get(m, Fraction(0)) + q
            ivs = {i: self.interval(f) for i, f in names.items()}
            # factor out the widest positive quantities first
            def width(i):
                lo, hi = ivs[i]
                w = float("inf") if lo is None or hi is None else float(hi - lo)
                return (0 if lo is not None and lo >= 0 else 1, -w, names[i].decl().name())
            order = sorted(names, key=width)
            return _horner(p, order, ivs)
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            return self.interval(e.children()[0])
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            a = self.interval(e.children()[0])
            return (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
        return None, None

    def zero_decided(self, c):
        """truth of a comparison of something with zero if its sign is known, else None"""
        neg = False
        while z3.is_not(c):
            c = c.children()[0]
            neg = not neg
        if not z3.is_eq(c) and not z3.is_distinct(c):
            return None
        a, b = c.children()[:2]
        if z3.is_rational_value(a):
            a, b = b, a
        if not (z3.is_rational_value(b) and b.numerator_as_long() == 0) or z3.is_rational_value(a):
            return None
        s = self.known_sign(a)
        if s is None:
            return None
        r = s == 0
        if z3.is_distinct(c) and not z3.is_eq(c):
            r = not r
        return r != neg

    def split_zero(self, d, ms, budget=64):
        """does the path imply d == 0?  case split over the conditions of if-then-else terms"""
        work = [(d, [])]
        while work:
            budget -= 1
            if budget < 0:
                return None
            e, extra = work.pop()
            e = canon(e)
            if e.eq(ZERO):
                continue
            c = _first_ite(e)
            if c is None:
                r = self.check(self.slice(zvars(z3.And(extra + [e != 0]))) + extra + [e != 0], ms)
                if r == "unsat":
                    continue
                return None
            for val in (True, False):
                lit = c if val else z3.Not(c)
                if self.check(self.slice(zvars(z3.And(extra + [lit]))) + extra + [lit], 1500) == "unsat":
                    continue
                work.append((z3.substitute(e, (c, z3.BoolVal(val))), extra + [lit]))
        return True

    def _struct_sign(self, e, depth=0):
        """cheap structural sign (strictly positive only): products and sums of positives"""
        if depth > 6:
            return None
        if z3.is_rational_value(e):
            v = e.numerator_as_long()
            return (v > 0) - (v < 0)
        k = self.known.get(e.get_id())
        if k is not None and k[0].eq(e):
            return k[1]
        if z3.is_mul(e):
            s = 1
            for c in e.children():
                t = self._struct_sign(c, depth + 1)
                if t is None:
                    return None
                s *= t
            return s
        if z3.is_add(e):
            ss = [self._struct_sign(c, depth + 1) for c in e.children()]
            if all(x is not None and x >= 0 for x in ss) and any(x == 1 for x in ss):
                return 1
            if all(x is not None and x <= 0 for x in ss) and any(x == -1 for x in ss):
                return -1
            return None
        if z3.is_const(e) and depth > 0:
            return self._const_sign(e)
        return None

    def _const_sign(self, e):
        """sign of a variable from the constraints on it alone"""
        k = e.get_id()
        r = self.known.get(k) or self.known_none.get(k)
        if r is not None and r[0].eq(e):
            return r[1]
        r = self.local_none.get(k)
        if r is not None and r == len(self.cons):
            return None
        lo, hi = self.interval(e)
        s = 1 if lo is not None and lo > 0 else -1 if hi is not None and hi < 0 else None
        if s is None:
            v = zvars(e)
            cs = [c for c, w in self.cons if w == v]
            if cs:
                self.stats.feas_queries += 2
                if self.check(cs + [e <= 0], 200) == "unsat":
                    s = 1
                elif self.check(cs + [e >= 0], 200) == "unsat":
                    s = -1
        if s is not None:
            self.known[k] = (e, s)
        else:
            self.local_none[k] = len(self.cons)
        return s

    def nonneg(self, e):
        """e >= 0 is known (cheap methods first)"""
        s = self._struct_sign(e)
        if s is not None:
            return s >= 0
        k = self.known.get(canon(e).get_id())
        if k is not None and k[0].eq(canon(e)):
            return k[1] >= 0
        lo, _ = self.interval(e)
        if lo is not None and lo >= 0:
            return True
        return self.known_sign(e) in (0, 1)

    def branch(self, c, val=None):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d, forced = self.prefix[self.pos][:2]
            self.trail.append(self.prefix[self.pos])
            self.pos += 1
            if not forced:
                self.fact(c if d else z3.Not(c))
            return d
        rt = self.feasible(c)
        rf = self.feasible(z3.Not(c))
        self.pos += 1
        if rt and rf:
            self.stats.forks += 1
            self.work.append(self.trail + [(False, False, val)])
            self.trail.append((True, False, val))
            self.fact(c)
            return True
        if rt:
            self.trail.append((True, True, val))
            return True
        if rf:
            self.trail.append((False, True, val))
            return False
        raise Infeasible()

    def concretize(self, s, lo=None):
        """fork over the integer values of a symbolic integer"""
        for _ in range(64):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                # value chosen earlier on this path is stored with the decision
                val = v[2]
            else:
                vs = zvars(s.n)
                r, m = self.check(self.slice(vs), 2000, want_model=True)
                if r != "sat":
                    raise Infeasible() if r == "unsat" else Unsupported("integer value undetermined")
                e = m.eval(s.z(), model_completion=True)
                if not z3.is_rational_value(e):
                    raise Unsupported("integer value undetermined")
                val = Fraction(e.numerator_as_long(), e.denominator_as_long())
            if self.branch((s == Sym(q=val)).z, val):
                return int(val)
        raise Unsupported("too many integer values")

    def choose(self, n, what="choice"):
        """nondeterministic choice 0..n-1 (environment); forks"""
        v = self.fresh(what)
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1

    # ---- atoms
    def sqrt_atom(self, s):
        if s.q is not None:
            key = ("q", s.q)
        else:
            key = (s.cn().get_id(), tuple(d.get_id() for d in s.den))
        hit = self.sqrts.get(key)
        if hit is not None:
            return hit[0]
        v = self.fresh("sqrt")
        r = Sym(num=v)
        r.rad = _retag(s, "f")
        self.sqrts[key] = (r, s)
        n, d = s.n, s.denprod()
        lo, hi = self.interval(n)
        dl, dh = self.interval(d)
        big = 10 ** 12
        lo = Fraction(0) if lo is None or lo <= 0 or dh is None else Fraction(math.isqrt(int(lo / dh * big * big)), big)
        hi = None if hi is None or dl is None or dl <= 0 else Fraction(math.isqrt(int(hi / dl * big * big) + 1) + 1, big)
        self.box[v.decl().name()] = (lo, hi)
        self.fact(z3.And(v >= 0, _mul(v * v, d) == n))
        if s.q is not None and s.q > 0 or s.q is None and self.known_sign(s.n) == 1:
            self.fact(v > 0)
        return r

    def reduce_roots(self, e):
        """replace even powers of square root atoms by their radicands"""
        rad = {r.num.get_id(): (r.num, s) for r, s in self.sqrts.values() if r.num is not None and not s.den}
        if not rad or not any(n.startswith("sqrt!") for n in zvars(e)):
            return e
        for _ in range(4):
            ms = _monomials(canon(e))
            out, hit = [], False
            for q, fs in ms:
                ids = {}
                for f in fs:
                    ids.setdefault(f.get_id(), []).append(f)
                new = []
                for i, l in ids.items():
                    if i in rad and rad[i][0].eq(l[0]) and len(l) > 1:
                        hit = True
                        new += [rad[i][1].n] * (len(l) // 2)
                        l = l[:len(l) % 2]
                    new += l
                t = qval(q)
                for f in new:
                    t = _mul(t, f)
                out.append(t)
            if not hit:
                break
            e = canon(z3.Sum(out) if len(out) > 1 else out[0])
        return e

    def log_const_or_atom(self, f):
        if z3.is_rational_value(f):
            return log(Sym(q=Fraction(f.numerator_as_long(), f.denominator_as_long())))
        return self.log_atom(f)

    def log_atom(self, f):
        c = canon(f)
        k = c.get_id()
        hit = self.logs.get(k)
        if hit is None:
            v = self.fresh("ln")
            hit = (Sym(num=v), c)
            self.logs[k] = hit
        return hit[0]

    def log_facts(self, u, l):
        """sound facts about l = ln(u), u > 0: 1-1/u <= l <= u-1, equality only at u=1"""
        if not self.want_logfacts:
            return
        key = (u.n.get_id(), tuple(d.get_id() for d in u.den))
        if key in self.lf_done:
            return
        self.lf_done.add(key)
        # u = n/d, both positive:  d*l <= n-d  and  n*l >= n-d, strict unless n == d
        n, d = Sym(num=u.n), Sym(num=u.denprod())
        n, d = (_settle(x) for x in (n, d))
        a, b, g = d * l, n * l, n - d
        ne = (n != d).z
        self.fact((a <= g).z)
        self.fact((b >= g).z)
        self.fact(z3.Implies(ne, z3.And((a < g).z, (b > g).z)))

    def floor_atom(self, s):
        key = ("fl", s.cn().get_id(), tuple(d.get_id() for d in s.den))
        hit = self.ints.get(key)
        if hit is None:
            v = self.fresh("flr", "int")
            r = Sym(num=z3.ToReal(v))
            if self.nonneg(s.n):
                self.box[v.decl().name()] = (Fraction(0), None)
                self.fact(r.num >= 0)
            self.fact((r <= s).z)
            self.fact((s < r + 1).z)
            hit = self.ints[key] = (r, s)
        return hit[0]

    def rint_atom(self, s):
        key = ("ri", s.cn().get_id(), tuple(d.get_id() for d in s.den))
        hit = self.ints.get(key)
        if hit is None:
            v = self.fresh("rnt", "int")
            r = Sym(num=z3.ToReal(v))
            half = Sym(q=Fraction(1, 2))
            if self.nonneg(s.n):
                self.box[v.decl().name()] = (Fraction(0), None)
                self.fact(r.num >= 0)
            self.fact((r - half <= s).z)
            self.fact((s <= r + half).z)
            hit = self.ints[key] = (r, s)
        return hit[0]

    def rounded_atom(self, s, dtype):
        import numpy as np
        bits = np.finfo(dtype).nmant + 1
        key = ("fl", bits, s.cn().get_id(), tuple(d.get_id() for d in s.den))
        hit = self.ints.get(key)
        if hit is None:
            r = Sym(num=self.fresh("short"))
            d = absolute(s) * Fraction(1, 2**bits)
            self.fact((s - d <= r).z)
            self.fact((r <= s + d).z)
            hit = self.ints[key] = (r, s)
        return hit[0]

    def atom(self, name, args):
        """opaque function application; identical (normalised) arguments share the value"""
        for nm, a, r in self.apps:
            if nm == name and len(a) == len(args) and all(same(x, y) for x, y in zip(a, args)):
                return r
        r = Sym(num=self.fresh(name))
        for nm, a, r2 in self.apps:
            if nm == name and len(a) == len(args):
                eqs = [(x == y).z for x, y in zip(a, args)]
                self.fact(z3.Implies(z3.And(eqs), r.num == r2.num))
        self.apps.append((name, list(args), r))
        return r

    def atom_of(self, r):
        for nm, a, x in self.apps:
            if r.num is not None and r.num.eq(x.num):
                return nm, a
        return None

    # ---- merged evaluation of a scalar kernel
    def merged(self, fn, *args):
        """Evaluate fn(*args) exploring its branches locally and merging results with
        if-then-else. Falls back to forking when a result cannot be merged."""
        results = []
        work = [[]]
        saved = (self.prefix, self.trail, self.pos, self.work, list(self.cons))
        n0 = len(self.cons)
        known0 = dict(self.known)
        while work:
            pre = work.pop()
            self.prefix, self.trail, self.pos, self.work = pre, [], 0, work
            self.cons = list(saved[4])
            self.known, self.known_none = dict(known0), {}
            conds = _CondLog(self)
            try:
                r = conds.run(fn, args)
            except Infeasible:
                continue
            finally:
                pass
            # facts about fresh atoms (definitions) must survive; path conditions must not
            for c in self.cons[n0:]:
                if not any(c[0] is p for p in conds.pcs):
                    pc = conds.pcs_before(c)
                    saved[4].append(c if not pc else (z3.Implies(z3.And(pc), c[0]), zvars(z3.And(pc + [c[0]]))))
            n0 = len(saved[4])
            results.append((conds.pcs, r))
            if len(results) > 64:
                raise Unsupported("too many local paths")
        self.prefix, self.trail, self.pos, self.work, self.cons = saved
        self.known, self.known_none = known0, {}
        if not results:
            raise Infeasible()
        return results


class _CondLog:
    """records which constraints were added by branching during a local exploration"""

    def __init__(self, e):
        self.e = e
        self.pcs = []
        self.order = []

    def pcs_before(self, c):
        out = []
        for kind, x in self.order:
            if kind == "f" and x is c:
                break
            if kind == "p":
                out.append(x)
        return out

    def run(self, fn, args):
        e = self.e
        orig_fact = e.fact
        orig_branch = e.branch
        state = {"in_branch": False}

        def fact(c):
            cz = c.z if isinstance(c, SymBool) else c
            n = len(e.cons)
            orig_fact(c)
            if len(e.cons) > n:
                if state["in_branch"]:
                    self.pcs.append(e.cons[-1][0])
                    self.order.append(("p", e.cons[-1][0]))
                else:
                    self.order.append(("f", e.cons[-1]))

        def branch(c, val=None):
            state["in_branch"] = True
            try:
                return orig_branch(c, val)
            finally:
                state["in_branch"] = False

        e.fact, e.branch = fact, branch
        try:
            return fn(*args)
        finally:
            del e.fact, e.branch


def merge_call(fn, *args):
    """scalar kernel -> merged Sym/SymBool (used for vectorised scalar functions)"""
    e = ex()
    if not any(isinstance(a, (Sym, SymBool)) and not (a.is_conc if isinstance(a, Sym) else a.concrete) for a in args):
        return fn(*args)
    res = e.merged(fn, *args)
    if len(res) == 1:
        return res[0][1]
    sp = [r for _, r in res if isinstance(r, Sym) and r.is_special]
    if sp and len(res) > 1:
        # not mergeable: fork in the outer exploration
        return fn(*args)
    out = res[-1][1]
    for pcs, r in reversed(res[:-1]):
        out = ite(SymBool(z3.And(pcs)) if len(pcs) != 1 else SymBool(pcs[0]), r, out)
    return out


# --------------------------------------------------------------------------
class Differ:
    """derivative of a symbolic result with respect to probe variables us (equal to xs)"""

    def __init__(self, us, xs):
        self.us, self.xs = us, xs
        self.memo = {}
        self.keep = []

    def d(self, s, i):
        if s.x is not None:
            return Sym(x=float("nan"))
        if s.q is not None:
            return Sym(q=Fraction(0))
        r = self.dz(s.num, i)
        if s.den:
            base = Sym(num=ONE, den=s.den)
            r = r * base
            for j, f in enumerate(s.den):
                df = self.dz(f, i)
                if df.q == 0:
                    continue
                r = r - df * Sym(num=s.num, den=_mergeden(s.den, (f,)))
        return r

    def dz(self, e, i):
        k = (e.get_id(), i)
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        z = Sym(q=Fraction(0))
        u = self.us[i].num
        if e.eq(u):
            r = Sym(q=Fraction(1))
        elif z3.is_rational_value(e) or z3.is_int_value(e):
            r = z
        elif z3.is_const(e):
            r = self._atom(e, i)
        elif not (zvars(e) & self._affected(i)):
            r = z
        elif z3.is_add(e):
            r = z
            for c in e.children():
                r = r + self.dz(c, i)
        elif z3.is_sub(e):
            ch = e.children()
            r = self.dz(ch[0], i)
            for c in ch[1:]:
                r = r - self.dz(c, i)
        elif z3.is_mul(e):
            ch = e.children()
            r = z
            for j, c in enumerate(ch):
                dc = self.dz(c, i)
                if dc.q == 0:
                    continue
                t = dc
                for l, o in enumerate(ch):
                    if l != j:
                        t = t * _settle(Sym(num=o))
                r = r + t
        elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
            r = -self.dz(e.children()[0], i)
        elif z3.is_div(e) and z3.is_rational_value(e.children()[1]):
            r = self.dz(e.children()[0], i) / _settle(Sym(num=e.children()[1]))
        elif z3.is_app_of(e, z3.Z3_OP_POWER):
            b, p = e.children()
            pk = p.as_long() if z3.is_int_value(p) else p.numerator_as_long()
            r = self.dz(b, i) * pk * (Sym(num=b) ** (pk - 1))
        elif z3.is_app_of(e, z3.Z3_OP_ITE):
            c, a, b = e.children()
            r = ite(SymBool(c), self.dz(a, i), self.dz(b, i))
        else:
            raise Unsupported("derivative of " + e.decl().name())
        self.memo[k] = r
        return r

    def _tables(self):
        e = ex()
        t = {}
        for r, s in e.sqrts.values():
            t[r.num.decl().name()] = ("sqrt", r, s)
        for r, c in e.logs.values():
            t[r.num.decl().name()] = ("log", r, c)
        return t

    def _affected(self, i):
        out = {self.us[i].num.decl().name()}
        t = self._tables()
        ch = True
        while ch:
            ch = False
            for n, (k, r, a) in t.items():
                if n in out:
                    continue
                vs = zvars(a) if k == "log" else (zvars(a.n) | frozenset().union(*[zvars(d) for d in a.den]) if a.den else zvars(a.n))
                if vs & out:
                    out.add(n)
                    ch = True
        return out

    def _atom(self, e, i):
        t = self._tables().get(e.decl().name())
        if t is None:
            return Sym(q=Fraction(0))
        k, r, a = t
        if k == "sqrt":
            da = self.d(a, i)
            if da.q == 0:
                return da
            return da / (r * 2)
        da = self.dz(a, i)
        return da if da.q == 0 else da / Sym(num=a)

    def back(self, s):
        if s.is_conc:
            return s
        subs = []
        for u, x in zip(self.us, self.xs):
            if x.x is None and not x.den:
                subs.append((u.num, x.n))
        names = {u.decl().name() for u, _ in subs}
        e = ex()
        for r, a in list(e.sqrts.values()):
            if zvars(a.n) & names or any(zvars(d) & names for d in a.den):
                subs.append((r.num, e.sqrt_atom(self._sub(a, subs)).num))
        for r, c in list(e.logs.values()):
            if zvars(c) & names:
                subs.append((r.num, e.log_atom(z3.substitute(c, subs)).num))
        return self._sub(s, subs)

    @staticmethod
    def _sub(s, subs):
        if s.is_conc:
            return s
        n = z3.substitute(s.num, subs)
        den = tuple(canon(z3.substitute(d, subs)) for d in s.den)
        return _settle(Sym(num=n, den=den, t=s.t))
