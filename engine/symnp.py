"""numpy over symbolic scalars.

`SArr` is an object-dtype ndarray whose elements are Sym / SymBool; it carries the
numpy kind ('f', 'i', 'b') the real array would have.  Elementwise ufuncs, reductions
and a set of functions are given their numpy meaning on symbolic scalars; purely
structural functions run the real numpy code on the object array.
"""
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import symcore as sc
from .symcore import Sym, SymBool, as_sym, as_bool, Unsupported, ite

UFuncTypeError = np.core._exceptions._UFuncOutputCastingError


# ------------------------------------------------------------------ scalars
class Short(str):
    """a float kind of less than double precision"""
    dtype = None

    def __reduce__(self):
        return (short, (np.dtype(self.dtype).name,))


def short(name):
    k = Short("f")
    k.dtype = np.dtype(name).type
    return k


def kind_of(dt):
    if isinstance(dt, str) and dt in ("f", "i", "b"):
        return dt
    if dt is None:
        return "f"
    if isinstance(dt, type):
        # also the stand-ins for the builtin types
        if issubclass(dt, float):
            return "f"
        if issubclass(dt, bool):
            return "b"
        if issubclass(dt, int):
            return "i"
    k = np.dtype(dt).kind
    if k == "f":
        return "f" if np.dtype(dt).itemsize >= 8 else short(np.dtype(dt).name)
    if k in "iu":
        return "i"
    if k == "b":
        return "b"
    if k == "O":
        return "O"
    raise Unsupported(f"dtype {dt}")


def _rdt(dt):
    """dtype for numpy itself: the builtin type in place of its stand-in"""
    if isinstance(dt, type):
        for b in (bool, int, float):
            if issubclass(dt, b):
                return b
    return dt


def cast_scalar(v, kind):
    if kind == "b":
        return as_bool(v)
    if kind == "O":
        return v
    s = as_sym(v)
    if kind == "f":
        if isinstance(kind, Short):
            return sc.rounded(s, kind.dtype)
        return sc._retag(s, "f")
    if s.t == "i":
        return s
    return sc._retag(sc.trunc(s), "i")


def scalar_kind(v):
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, (SymBool, bool, np.bool_)):
        return "b"
    if isinstance(v, (int, np.integer)):
        return "i"
    return "f"


def is_num(v):
    return isinstance(v, (Sym, SymBool, int, float, Fraction, np.number, np.bool_))


def elem(v, kind=None):
    """normalise a scalar into an array element"""
    if isinstance(v, (bool, np.bool_)):
        v = SymBool(bool(v))
    elif isinstance(v, (Sym, SymBool)):
        pass
    elif is_num(v):
        v = Sym.const(v)
    elif isinstance(v, np.ndarray) and v.size == 1:
        return elem(v.reshape(-1)[0], kind)
    elif v is None and kind == "f":
        v = Sym(x=float("nan"))
    else:
        raise TypeError(f"float() argument must be a string or a real number, not '{type(v).__name__}'")
    return v if kind is None else cast_scalar(v, kind)


KORD = {"b": 0, "i": 1, "f": 2, "O": 3}


def join_kind(ks):
    ks = list(ks)
    if not ks:
        return "f"
    return max(ks, key=lambda k: KORD[k])


def plain(a):
    """plain object ndarray view / conversion"""
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    return a


def obj_of(a):
    """any array-like -> plain object ndarray of normalised elements, kind"""
    if isinstance(a, SArr):
        return a.view(np.ndarray), a.kind
    if isinstance(a, (Sym, SymBool)) or is_num(a):
        o = np.empty((), dtype=object)
        o[()] = elem(a)
        return o, scalar_kind(a)
    if hasattr(a, "values") and not isinstance(a, (np.ndarray, dict)) and hasattr(a, "to_numpy"):
        a = a.to_numpy()
    if isinstance(a, np.ndarray) and a.dtype != object:
        if a.dtype.kind not in "fiub":
            raise TypeError(f"array of dtype {a.dtype}")
        o = np.empty_like(a, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = elem(a[i])
        return o, kind_of(a.dtype)
    if isinstance(a, np.ndarray):
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = elem(a[i])
        k = join_kind(scalar_kind(x) for x in o.reshape(-1))
        for i in np.ndindex(*a.shape):
            o[i] = cast_scalar(o[i], k)
        return o, k
    if a is None:
        raise TypeError("unsupported operand type(s): 'NoneType'")
    if isinstance(a, str):
        raise TypeError("string operand")
    # sequence
    if not hasattr(a, "__len__"):
        if hasattr(a, "__iter__"):
            raise Unsupported("array of an iterator")
        raise TypeError(f"cannot make an array of {type(a).__name__}")
    subs = [obj_of(x) for x in a]
    if not subs:
        return np.empty((0,), dtype=object), "f"
    shapes = {s.shape for s, _ in subs}
    if len(shapes) != 1:
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    k = join_kind(x[1] for x in subs)
    shp = shapes.pop()
    o = np.empty((len(subs),) + shp, dtype=object)
    for i, (s, _) in enumerate(subs):
        for j in np.ndindex(*shp):
            o[(i,) + j] = cast_scalar(s[j], k)
    return o, k


def wrap(o, kind=None):
    """plain object ndarray (shared memory) -> SArr"""
    r = np.asarray(o, dtype=object).view(SArr)
    if kind is None:
        kind = join_kind(scalar_kind(x) for x in np.ndarray.flatten(r.view(np.ndarray)))
    r.kind = kind
    return r


def mk(a, kind=None):
    """array-like -> fresh SArr"""
    o, k = obj_of(a)
    if isinstance(a, np.ndarray):
        # as numpy's default: the order in memory is kept
        o = o.copy("K")
    kind = kind or k
    if kind != k or isinstance(kind, Short):
        o2 = np.empty_like(o)
        for i in np.ndindex(*o.shape):
            o2[i] = cast_scalar(o[i], kind)
        o = o2
    return wrap(o, kind)


def has_sym(a, depth=0):
    if isinstance(a, (Sym, SymBool, SArr)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)) and depth < 4:
        return any(has_sym(x, depth + 1) for x in a)
    return False


def conc_int(v, what="index"):
    """concrete python int of an integer-like value; forks over a symbolic one"""
    if isinstance(v, SymBool):
        return int(bool(v))
    if isinstance(v, Sym):
        if v.q is not None:
            if v.t != "i":
                raise TypeError("'float' object cannot be interpreted as an integer")
            return int(v.q)
        if v.x is not None or v.t != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return sc.ex().concretize(v)
    return int(v.__index__())


def norm_index(k):
    """turn SArr / Sym parts of an index into real ones"""
    if isinstance(k, tuple):
        return tuple(norm_index(x) for x in k)
    if isinstance(k, slice):
        f = lambda v: None if v is None else conc_int(v)
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, (SymBool,)):
        return bool(k)
    if isinstance(k, Sym):
        if k.t != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        return conc_int(k)
    if isinstance(k, SArr) or (isinstance(k, np.ndarray) and k.dtype == object):
        o, kd = obj_of(k)
        if kd == "b":
            r = np.empty(o.shape, dtype=bool)
            for i in np.ndindex(*o.shape):
                r[i] = bool(o[i])
            return r
        if kd == "i":
            r = np.empty(o.shape, dtype=int)
            for i in np.ndindex(*o.shape):
                r[i] = conc_int(o[i])
            return r
        if o.size == 0:
            return np.empty(o.shape, dtype=int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, list) and has_sym(k):
        return norm_index(mk(k))
    return k


# ------------------------------------------------------------------ the array
class SArr(np.ndarray):
    kind = "f"

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", "f")

    @property
    def dtype(self):
        return {"f": np.dtype("float64"), "i": np.dtype("int64"), "b": np.dtype("bool"), "O": np.dtype("O")}[self.kind]

    # -- indexing
    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, norm_index(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(k, SArr) and k.kind == "b" and not all(x.concrete for x in k.view(np.ndarray).reshape(-1)):
            if k.shape == self.shape and (is_num(v) or isinstance(v, (Sym, SymBool)) or (isinstance(v, np.ndarray) and v.size == 1)):
                nv = elem(v, self.kind)
                me = self.view(np.ndarray)
                ko = k.view(np.ndarray)
                for i in np.ndindex(*self.shape):
                    me[i] = ite(ko[i], nv, me[i])
                return
        k = norm_index(k)
        if is_num(v) or isinstance(v, (Sym, SymBool)) or v is None:
            np.ndarray.__setitem__(self.view(np.ndarray), k, elem(v, self.kind))
            return
        if not isinstance(v, (np.ndarray, list, tuple)) and not hasattr(v, "to_numpy"):
            v = elem(v, self.kind)
        src = mk(v, self.kind).view(np.ndarray)
        tgt = np.ndarray.__getitem__(self.view(np.ndarray), k)
        if not isinstance(tgt, np.ndarray) and src.size == 1:
            src = src.reshape(-1)[0]
        elif not isinstance(tgt, np.ndarray):
            raise ValueError("setting an array element with a sequence.")
        np.ndarray.__setitem__(self.view(np.ndarray), k, src)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield np.ndarray.__getitem__(self, i)

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.view(np.ndarray).reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.size != 1 or self.kind != "i":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return conc_int(self.item())

    def __contains__(self, v):
        return bool(f_any(self == v))

    def __reduce__(self):
        return (_unpickle, (self.shape, self.kind, list(self.view(np.ndarray).reshape(-1))))

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __repr__(self):
        return f"SArr[{self.kind}]{self.view(np.ndarray).tolist()}"
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = OVERRIDES.get(func)
        if f is not None:
            return f(*args, **kwargs)
        return fallback(func, args, kwargs)

    # -- methods
    def item(self, *a):
        if a:
            return self.view(np.ndarray).item(*[conc_int(x) for x in a])
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.view(np.ndarray).reshape(-1)[0]

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.add, self, axis, keepdims, out=out, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.multiply, self, axis, keepdims, out=out)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.maximum, self, axis, keepdims, out=out)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.minimum, self, axis, keepdims, out=out)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_or, self, axis, keepdims, out=out)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_and, self, axis, keepdims, out=out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return _el1(sc.sqrt, f_var(self, axis, ddof=ddof, keepdims=keepdims))

    def round(self, decimals=0, out=None):
        return f_round(self, decimals, out)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max, out)

    def dot(self, b, out=None):
        return f_dot(self, b)

    def cumsum(self, axis=None, dtype=None, out=None):
        return fallback(np.cumsum, (self, axis), {})

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return f_argmax(-self, axis)

    def argsort(self, *a, **k):
        return f_argsort(self, *a, **k)

    def sort(self, axis=-1, **k):
        self[...] = f_sort(self, axis)

    def nonzero(self):
        return f_nonzero(self)

    def searchsorted(self, v, side="left", sorter=None):
        return f_searchsorted(self, v, side)

    def astype(self, dt, copy=True, **k):
        kd = kind_of(dt)
        if not copy and kd == self.kind:
            return self
        return mk(self, kd)

    def copy(self, order="C"):
        r = np.ndarray.copy(self.view(np.ndarray), order).view(SArr)
        r.kind = self.kind
        return r

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def trace(self, *a, **k):
        return fallback(np.trace, (self,) + a, k)

    def conj(self):
        return self

    @property
    def real(self):
        return self


def _unpickle(shape, kind, els):
    o = np.empty(shape, dtype=object)
    f = o.reshape(-1)
    for i, e in enumerate(els):
        f[i] = e
    return wrap(o, kind)


# ------------------------------------------------------------------ ufuncs
def _bin(f):
    return lambda a, b: f(as_sym(a), as_sym(b))


def _un(f):
    return lambda a: f(as_sym(a))


def _add(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a | b
    return as_sym(a) + as_sym(b)


def _mulu(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a & b
    return as_sym(a) * as_sym(b)


def _isnan(a):
    return SymBool(isinstance(a, Sym) and a.x is not None and math.isnan(a.x))


def _isfinite(a):
    return SymBool(not (isinstance(a, Sym) and a.x is not None))


def _isinf(a):
    return SymBool(isinstance(a, Sym) and a.x is not None and math.isinf(a.x))


def _exp(a):
    if a.q == 0:
        return Sym(q=Fraction(1))
    if a.x is not None:
        return Sym.const(math.exp(a.x))
    if a.q is not None:
        return Sym.const(math.exp(float(a.q)))
    raise Unsupported("exp")


def _pow(a, b):
    return as_sym(a) ** as_sym(b)


def _fmaxmin(f):
    def g(a, b):
        a, b = as_sym(a), as_sym(b)
        if a.x is not None and math.isnan(a.x):
            return b
        if b.x is not None and math.isnan(b.x):
            return a
        return f(a, b)
    return g


def _cmpf(op):
    def g(a, b):
        if isinstance(a, SymBool) and isinstance(b, SymBool):
            if op == "eq":
                return ~(a ^ b)
            if op == "ne":
                return a ^ b
        return as_sym(a)._cmp(as_sym(b), op)
    return g


def _neg(a):
    if isinstance(a, SymBool):
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    return -as_sym(a)


def _sub(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return as_sym(a) - as_sym(b)


def _divu(a, b):
    return sc._retag(sc.div(as_sym(a), as_sym(b)), "f")


def _and(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a & b
    raise Unsupported("bitwise and on integers")


def _or(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a | b
    raise Unsupported("bitwise or on integers")


def _f(f):
    def g(a):
        return sc._retag(f(as_sym(a)), "f")
    return g


TABLE = {
    "add": _add, "subtract": _sub, "multiply": _mulu, "divide": _divu, "true_divide": _divu,
    "floor_divide": _bin(lambda a, b: a // b), "remainder": _bin(lambda a, b: a % b),
    "power": _pow, "float_power": lambda a, b: sc._retag(_pow(a, b), "f"),
    "negative": _neg, "positive": _un(lambda a: a), "absolute": _un(sc.absolute), "fabs": _f(sc.absolute),
    "sign": _un(sc.sign), "sqrt": _f(sc.sqrt), "square": _un(lambda a: a ** 2),
    "reciprocal": _un(lambda a: _divu(Sym(q=Fraction(1)), a)),
    "log": _f(sc.log), "log1p": _f(lambda a: sc.log(a + 1)), "exp": _f(_exp), "expm1": _f(lambda a: _exp(a) - 1),
    "rint": _f(sc.rint), "floor": _f(sc.floor), "ceil": _f(lambda a: -sc.floor(-a)), "trunc": _f(sc.trunc),
    "maximum": _bin(sc.maximum), "minimum": _bin(sc.minimum),
    "fmax": _fmaxmin(sc.maximum), "fmin": _fmaxmin(sc.minimum),
    "less": _cmpf("lt"), "less_equal": _cmpf("le"), "greater": _cmpf("gt"), "greater_equal": _cmpf("ge"),
    "equal": _cmpf("eq"), "not_equal": _cmpf("ne"),
    "logical_and": lambda a, b: as_bool(a) & as_bool(b), "logical_or": lambda a, b: as_bool(a) | as_bool(b),
    "logical_xor": lambda a, b: as_bool(a) ^ as_bool(b), "logical_not": lambda a: ~as_bool(a),
    "bitwise_and": _and, "bitwise_or": _or, "bitwise_xor": lambda a, b: as_bool(a) ^ as_bool(b),
    "invert": lambda a: ~as_bool(a) if isinstance(a, SymBool) else sc._unsup("invert"),
    "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf,
    "hypot": _f(lambda a: a), "conjugate": _un(lambda a: a), "signbit": _un(lambda a: a < 0),
    "copysign": _bin(lambda a, b: ite(b >= 0, sc.absolute(a), -sc.absolute(a))),
}
TABLE["hypot"] = lambda a, b: sc.sqrt(as_sym(a) ** 2 + as_sym(b) ** 2)
IDENT = {"add": Sym(q=Fraction(0), t="i"), "multiply": Sym(q=Fraction(1), t="i"),
         "logical_or": SymBool(False), "logical_and": SymBool(True)}


def _store(out, o, kind, where=None):
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(out, SArr):
        if KORD[kind] > KORD[out.kind]:
            uf = np.add
            raise UFuncTypeError(uf, "same_kind", np.dtype({"f": "f8", "i": "i8", "b": "?"}[kind]), out.dtype, 0)
        tgt = out.view(np.ndarray)
        if tgt.shape != o.shape:
            o = np.broadcast_to(o, tgt.shape)
        for i in np.ndindex(*tgt.shape):
            tgt[i] = cast_scalar(o[i], out.kind)
        return out
    # plain numeric array as output: only possible with concrete results
    if KORD[kind] > KORD[kind_of(out.dtype)]:
        raise UFuncTypeError(np.add, "same_kind", np.dtype({"f": "f8", "i": "i8", "b": "?"}[kind]), out.dtype, 0)
    for i in np.ndindex(*out.shape):
        v = o[i]
        out[i] = float(as_sym(v)) if kind == "f" else int(as_sym(v))
    return out


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.get("out")
    if isinstance(out, tuple):
        out = out[0]
    where = kw.get("where", True)
    if method == "reduce":
        axis = kw.get("axis", inputs[1] if len(inputs) > 1 else 0)
        return reduce_(ufunc, inputs[0], axis, kw.get("keepdims", False), out=out,
                       initial=kw.get("initial", np._NoValue), where=where)
    if method == "accumulate":
        o, k = obj_of(inputs[0])
        r = getattr(ufunc, "accumulate")(o.astype(object), axis=kw.get("axis", 0))
        return wrap(r)
    if method == "outer":
        a, b = np.asarray(obj_of(inputs[0])[0]), obj_of(inputs[1])[0]
        a = a.reshape(a.shape + (1,) * b.ndim)
        return ufunc_dispatch(ufunc, "__call__", (wrap(a), wrap(b)), kw)
    if method == "at":
        tgt, idx = inputs[0], norm_index(inputs[1])
        f = TABLE[name]
        ii = np.atleast_1d(np.asarray(idx)) if not isinstance(idx, tuple) else None
        if ii is None:
            idxs = list(zip(*[np.atleast_1d(np.asarray(x)) for x in idx]))
        else:
            if ii.dtype == bool:
                ii = np.nonzero(ii)[0]
            idxs = [int(x) for x in ii]
        if len(inputs) > 2:
            v = np.broadcast_to(obj_of(inputs[2])[0], (len(idxs),))
            for j, i in enumerate(idxs):
                tgt[i] = f(tgt[i], v[j])
        else:
            for i in idxs:
                tgt[i] = f(tgt[i])
        return None
    if method != "__call__":
        raise Unsupported(f"ufunc {name}.{method}")
    if name == "matmul":
        return f_matmul(inputs[0], inputs[1], out)
    if name in ("divmod",):
        return (ufunc_dispatch(np.floor_divide, "__call__", inputs, {}), ufunc_dispatch(np.remainder, "__call__", inputs, {}))
    f = TABLE.get(name)
    if f is None:
        for i in inputs:
            if hasattr(i, "__array_ufunc__") and type(i).__name__.startswith("_Unsupported"):
                break
        raise Unsupported(f"ufunc {name}")
    try:
        arrs = [obj_of(i) for i in inputs]
    except TypeError:
        if name in ("equal", "not_equal"):
            # comparison with a non-numeric object
            return SymBool(name == "not_equal") if not any(isinstance(i, np.ndarray) for i in inputs) else np.bool_(name == "not_equal")
        raise
    os_ = np.broadcast_arrays(*[a for a, _ in arrs]) if len(arrs) > 1 else [arrs[0][0]]
    shape = os_[0].shape
    scalar = shape == () and not any(isinstance(i, np.ndarray) and i.ndim == 0 and False for i in inputs) and out is None
    if name in ("log", "sqrt", "divide", "true_divide") or name not in ("equal", "not_equal"):
        pass
    if where is not True and out is None:
        raise Unsupported("ufunc where without out")
    res = np.empty(shape, dtype=object)
    if where is True:
        for i in np.ndindex(*shape):
            res[i] = f(*[o[i] for o in os_])
    else:
        w = np.broadcast_to(obj_of(where)[0], shape)
        oo = np.broadcast_to(obj_of(out)[0], shape)
        for i in np.ndindex(*shape):
            res[i] = f(*[o[i] for o in os_]) if bool(as_bool(w[i])) else oo[i]
    if res.size:
        kind = join_kind(scalar_kind(x) for x in res.reshape(-1))
    else:
        kind = join_kind(k for _, k in arrs)
        if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan", "isfinite", "isinf") or name.startswith("logical"):
            kind = "b"
        if name in ("divide", "true_divide", "sqrt", "log"):
            kind = "f"
    if out is not None:
        return _store(out, res, kind)
    if shape == ():
        return res[()]
    for i in np.ndindex(*shape):
        res[i] = cast_scalar(res[i], kind)
    return wrap(res, kind)


def _el1(f, a):
    if isinstance(a, np.ndarray):
        o, k = obj_of(a)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            r[i] = f(o[i])
        return wrap(r)
    return f(elem(a))


def reduce_(ufunc, a, axis=None, keepdims=False, out=None, initial=np._NoValue, where=True, **k):
    name = ufunc.__name__
    f = TABLE[name]
    o, kind = obj_of(a)
    if where is not True:
        w = np.broadcast_to(obj_of(where)[0], o.shape)
    else:
        w = None
    if name == "add" and kind == "b":
        f = lambda x, y: as_sym(x) + as_sym(y)
        kind = "i"
        conv = as_sym
    elif name.startswith("logical"):
        conv = as_bool
        kind = "b"
    elif name == "multiply" and kind == "b":
        f, conv, kind = (lambda x, y: as_sym(x) * as_sym(y)), as_sym, "i"
    else:
        conv = lambda x: x
    if keepdims is np._NoValue:
        keepdims = False
    if axis is None:
        axes = tuple(range(o.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(conc_int(x) % o.ndim for x in axis)
    else:
        ax = conc_int(axis)
        if not -max(o.ndim, 1) <= ax < max(o.ndim, 1):
            raise np.exceptions.AxisError(ax, o.ndim) if hasattr(np, "exceptions") else np.AxisError(ax, o.ndim)
        axes = (ax % o.ndim,) if o.ndim else ()
    rest = [i for i in range(o.ndim) if i not in axes]
    rs = tuple(o.shape[i] for i in rest)
    res = np.empty(rs, dtype=object)
    for r in np.ndindex(*rs):
        acc = None if initial is np._NoValue else elem(initial)
        for x in np.ndindex(*[o.shape[i] for i in axes]):
            idx = [0] * o.ndim
            for i, v in zip(rest, r):
                idx[i] = v
            for i, v in zip(axes, x):
                idx[i] = v
            idx = tuple(idx)
            v = conv(o[idx])
            if w is not None:
                c = as_bool(w[idx])
                if name == "add":
                    v = ite(c, v, Sym(q=Fraction(0)))
                elif not bool(c):
                    continue
            acc = v if acc is None else f(acc, v)
        if acc is None:
            if name not in IDENT:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            acc = IDENT[name]
            if not name.startswith("logical"):
                acc = cast_scalar(acc, kind)
        res[r] = acc
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
    kd = join_kind([scalar_kind(x) for x in res.reshape(-1)] or [kind])
    if out is not None:
        return _store(out, res, kd)
    if res.shape == ():
        return res[()]
    return wrap(res, kd)


# ------------------------------------------------------------------ functions
def fallback(func, args, kwargs):
    """run the real numpy function on plain object arrays"""
    def un(x):
        if isinstance(x, SArr):
            return x.view(np.ndarray)
        if isinstance(x, (Sym, SymBool)):
            if isinstance(x, Sym) and x.t == "i" and x.q is not None:
                return int(x.q)
            return x
        if isinstance(x, list):
            return [un(y) for y in x]
        if isinstance(x, tuple) and type(x) is tuple:
            return tuple(un(y) for y in x)
        return x
    if func in INT_ARGS:
        i = INT_ARGS[func]
        args = list(args)
        for j in i:
            if len(args) > j and isinstance(args[j], (SArr, Sym, list, tuple)):
                v = args[j]
                if isinstance(v, (Sym,)):
                    args[j] = conc_int(v)
                elif has_sym(v):
                    o = obj_of(v)[0]
                    args[j] = [conc_int(x) for x in o.reshape(-1)]
    r = func(*[un(a) for a in args], **{k: un(v) for k, v in kwargs.items()})
    return rewrap(r)


INT_ARGS = {np.split: (1,), np.array_split: (1,), np.reshape: (1,), np.take: (1,), np.tile: (1,), np.repeat: (1,),
            np.roll: (1,), np.delete: (1,), np.insert: (1,)}


def rewrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if all(isinstance(x, (Sym, SymBool)) for x in r.reshape(-1)):
                return wrap(r)
            flat = r.reshape(-1)
            if all(is_num(x) for x in flat):
                for i in np.ndindex(*r.shape):
                    r[i] = elem(r[i])
                k = join_kind(scalar_kind(x) for x in flat)
                for i in np.ndindex(*r.shape):
                    r[i] = cast_scalar(r[i], k)
                return wrap(r, k)
            return r
        return r
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(rewrap(x) for x in r)
    return r


OVERRIDES = {}


def override(*funcs):
    def d(f):
        for g in funcs:
            OVERRIDES[g] = f
        return f
    return d


@override(np.matmul)
def f_matmul(a, b, out=None, **k):
    if not isinstance(a, np.ndarray):
        a = mk(a)
    if not isinstance(b, np.ndarray):
        b = mk(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand 0 does not have enough dimensions")
    ao, ak = obj_of(a)
    bo, bk = obj_of(b)
    if ao.shape[-1] != bo.shape[-2 if bo.ndim > 1 else 0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if ao.ndim > 2 or bo.ndim > 2:
        r = np.matmul(ao, bo)
    else:
        A = ao if ao.ndim == 2 else ao.reshape(1, -1)
        B = bo if bo.ndim == 2 else bo.reshape(-1, 1)
        r = np.empty((A.shape[0], B.shape[1]), dtype=object)
        zero = Sym(q=Fraction(0), t="f" if "f" in (ak, bk) else "i")
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                acc = zero
                for l in range(A.shape[1]):
                    acc = acc + as_sym(A[i, l]) * as_sym(B[l, j])
                r[i, j] = acc
        if ao.ndim == 1:
            r = r[0]
        if bo.ndim == 1:
            r = r[..., 0]
    if out is not None:
        return _store(out, np.asarray(r), "f")
    return wrap(r) if isinstance(r, np.ndarray) else r


@override(np.dot)
def f_dot(a, b, out=None):
    a2 = a if isinstance(a, np.ndarray) else (a if is_num(a) else mk(a))
    b2 = b if isinstance(b, np.ndarray) else (b if is_num(b) else mk(b))
    if is_num(a2) or is_num(b2):
        return a2 * b2
    if a2.ndim <= 2 and b2.ndim <= 2:
        return f_matmul(a2, b2)
    return fallback(np.dot, (a2, b2), {})


@override(np.linalg.multi_dot)
def f_multi_dot(arrs, out=None):
    r = arrs[0]
    for a in arrs[1:]:
        r = f_matmul(r, a)
    return r


@override(np.inner)
def f_inner(a, b):
    a, b = mk(a), mk(b)
    if a.ndim == 1 and b.ndim == 1:
        return f_matmul(a, b)
    return fallback(np.inner, (a, b), {})


@override(np.sum)
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    if initial is not np._NoValue and initial == 0:
        pass
    return reduce_(np.add, a, axis, keepdims, out, initial, where if where is not np._NoValue else True)


@override(np.nansum)
def f_nansum(a, axis=None, **k):
    return f_sum(_el1(lambda v: Sym(q=Fraction(0)) if _isnan(v).e else v, mk(a)), axis)


@override(np.prod)
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(np.multiply, a, axis, keepdims, out)


@override(np.max, np.amax)
def f_max(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.maximum, a, axis, keepdims, out)


@override(np.min, np.amin)
def f_min(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.minimum, a, axis, keepdims, out)


@override(np.any)
def f_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.logical_or, a, axis, keepdims, out)


@override(np.all)
def f_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.logical_and, a, axis, keepdims, out)


@override(np.count_nonzero)
def f_count_nonzero(a, axis=None, **k):
    return reduce_(np.add, ufunc_dispatch(np.not_equal, "__call__", (mk(a), 0), {}), axis)


@override(np.mean)
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    o, _ = obj_of(a)
    s = reduce_(np.add, a, axis, keepdims)
    n = o.size if axis is None else math.prod(o.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,)))
    return s / Sym.const(float(n))


@override(np.var)
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = mk(a)
    m = f_mean(a, axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else math.prod(a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,)))
    return reduce_(np.add, d * d, axis, keepdims) / Sym.const(float(n - ddof))


@override(np.std)
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return _el1(sc.sqrt, f_var(a, axis, ddof=ddof, keepdims=keepdims))


@override(np.average)
def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    a, w = mk(a), mk(weights)
    return f_sum(a * w, axis) / f_sum(w, axis)


@override(np.median)
def f_median(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("median axis")
    s = f_sort(mk(a).reshape(-1))
    n = s.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@override(np.where)
def f_where(c, x=None, y=None):
    if x is None:
        return f_nonzero(c)
    co = _el1(as_bool, c) if isinstance(c, np.ndarray) else (_el1(as_bool, mk(c)) if isinstance(c, (list, tuple)) else as_bool(c))
    arrs = [obj_of(co)[0], obj_of(x)[0], obj_of(y)[0]]
    kd = join_kind([obj_of(x)[1], obj_of(y)[1]])
    b = np.broadcast_arrays(*arrs)
    r = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = ite(b[0][i], cast_scalar(b[1][i], kd), cast_scalar(b[2][i], kd))
    return wrap(r, kd)


@override(np.select)
def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = f_where(c, v, r)
    return r


@override(np.nonzero, np.flatnonzero)
def f_nonzero(a):
    o, k = obj_of(a)
    m = np.empty(o.shape, dtype=bool)
    for i in np.ndindex(*o.shape):
        m[i] = bool(as_bool(o[i]))
    return np.nonzero(m)


@override(np.nan_to_num)
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(np.finfo(float).max)

    def f(v):
        if isinstance(v, Sym) and v.x is not None:
            if math.isnan(v.x):
                return elem(nan, "f")
            return elem((big if posinf is None else posinf) if v.x > 0 else (-big if neginf is None else neginf), "f")
        return v
    r = _el1(f, x if isinstance(x, np.ndarray) or is_num(x) else mk(x))
    if not copy and isinstance(x, SArr):
        x[...] = r
        return x
    return r


@override(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if x.x is not None or y.x is not None:
            return x == y
        return sc.absolute(x - y) <= as_sym(atol) + as_sym(rtol) * sc.absolute(y)
    ao, bo = np.broadcast_arrays(obj_of(a)[0], obj_of(b)[0])
    r = np.empty(ao.shape, dtype=object)
    for i in np.ndindex(*ao.shape):
        r[i] = f(as_sym(ao[i]), as_sym(bo[i]))
    return r[()] if r.shape == () else wrap(r, "b")


@override(np.allclose)
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return bool(reduce_(np.logical_and, r)) if isinstance(r, np.ndarray) else bool(r)


@override(np.array_equal)
def f_array_equal(a, b, equal_nan=False):
    try:
        ao, bo = obj_of(a)[0], obj_of(b)[0]
    except (TypeError, ValueError):
        return False
    if ao.shape != bo.shape:
        return False
    c = SymBool(True)
    for i in np.ndindex(*ao.shape):
        c = c & _cmpf("eq")(ao[i], bo[i])
    return bool(c)


@override(np.clip)
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = ufunc_dispatch(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = ufunc_dispatch(np.minimum, "__call__", (r, a_max), {})
    if out is not None:
        return _store(out, obj_of(r)[0], obj_of(r)[1])
    return r


@override(np.round, np.around)
def f_round(a, decimals=0, out=None):
    r = _el1(lambda v: sc.round_digits(as_sym(v), decimals), a)
    if out is not None:
        return _store(out, obj_of(r)[0], "f")
    return r


@override(np.fix)
def f_fix(a):
    return _el1(lambda v: sc._retag(sc.trunc(as_sym(v)), "f"), a)


@override(np.diff)
def f_diff(a, n=1, axis=-1, **k):
    a = mk(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = list(sl1)
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


@override(np.ediff1d)
def f_ediff1d(a, **k):
    return f_diff(mk(a).reshape(-1))


@override(np.sort)
def f_sort(a, axis=-1, **k):
    a = mk(a)
    if a.ndim != 1:
        raise Unsupported("sort of nd arrays")
    els = list(a.view(np.ndarray))
    for i in range(1, len(els)):       # insertion with forking comparisons
        j = i
        while j > 0 and bool(as_sym(els[j]) < as_sym(els[j - 1])):
            els[j], els[j - 1] = els[j - 1], els[j]
            j -= 1
    return mk(els, a.kind)


@override(np.argsort)
def f_argsort(a, axis=-1, **k):
    a = mk(a)
    if a.ndim != 1:
        raise Unsupported("argsort of nd arrays")
    els = [(x, i) for i, x in enumerate(a.view(np.ndarray))]
    for i in range(1, len(els)):
        j = i
        while j > 0 and bool(as_sym(els[j][0]) < as_sym(els[j - 1][0])):
            els[j], els[j - 1] = els[j - 1], els[j]
            j -= 1
    return np.array([i for _, i in els])


@override(np.argmax)
def f_argmax(a, axis=None, **k):
    a = mk(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax axis")
    f = a.reshape(-1)
    best = 0
    for i in range(1, f.size):
        if bool(as_sym(f[i]) > as_sym(f[best])):
            best = i
    return best


@override(np.argmin)
def f_argmin(a, axis=None, **k):
    return f_argmax(-mk(a), axis)


@override(np.searchsorted)
def f_searchsorted(a, v, side="left", sorter=None):
    ao, _ = obj_of(a)

    def f(x):
        x = as_sym(x)
        acc = Sym(q=Fraction(0), t="i")
        for e in ao.reshape(-1):
            c = (as_sym(e) < x) if side == "left" else (as_sym(e) <= x)
            acc = acc + as_sym(c)
        return sc._retag(acc, "i")
    return _el1(f, v if isinstance(v, np.ndarray) or is_num(v) else mk(v))


@override(np.digitize)
def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side="left" if right else "right")


@override(np.bincount)
def f_bincount(x, weights=None, minlength=0):
    o, k = obj_of(x)
    idx = [conc_int(v) for v in o.reshape(-1)]
    if any(i < 0 for i in idx):
        raise ValueError("'list' argument must have no negative elements")
    n = max([i + 1 for i in idx] + [conc_int(minlength) if minlength else 0])
    kind = "i" if weights is None else "f"
    r = [Sym(q=Fraction(0), t=kind) for _ in range(n)]
    w = [Sym(q=Fraction(1), t="i")] * len(idx) if weights is None else list(obj_of(weights)[0].reshape(-1))
    for i, v in zip(idx, w):
        r[i] = r[i] + cast_scalar(v, kind)
    return mk(r, kind)


def in_bin(x, edges, i):
    """numpy/scipy convention: half open bins, last one closed"""
    lo, hi = as_sym(edges[i]), as_sym(edges[i + 1])
    up = (x <= hi) if i == len(edges) - 2 else (x < hi)
    return (x >= lo) & up


def _hist_edges(a, bins, range):
    if isinstance(bins, (int, np.integer)) or (isinstance(bins, Sym) and bins.t == "i"):
        n = conc_int(bins)
        if range is None:
            o = obj_of(a)[0].reshape(-1)
            lo, hi = f_min(wrap(o)), f_max(wrap(o))
        else:
            lo, hi = range
        return f_linspace(lo, hi, n + 1)
    e = mk(bins)
    if e.ndim != 1:
        raise ValueError("`bins` must be 1d")
    for i in __builtins_range(e.size - 1):
        if bool(as_sym(e[i]) > as_sym(e[i + 1])):
            raise ValueError("`bins` must increase monotonically, when an array")
    return e


__builtins_range = range


@override(np.histogram)
def f_histogram(a, bins=10, range=None, density=None, weights=None):
    if density:
        raise Unsupported("density")
    e = _hist_edges(a, bins, range)
    o = obj_of(a)[0].reshape(-1)
    k = "i" if weights is None else obj_of(weights)[1]
    w = [Sym(q=Fraction(1), t="i")] * o.size if weights is None else list(obj_of(weights)[0].reshape(-1))
    if len(w) != o.size:
        raise ValueError("weights should have the same shape as a.")
    res = []
    for i in __builtins_range(e.size - 1):
        acc = Sym(q=Fraction(0), t=k)
        for x, v in zip(o, w):
            acc = acc + ite(in_bin(as_sym(x), e, i), v, Sym(q=Fraction(0), t=k))
        res.append(acc)
    return mk(res, k), e


@override(np.histogram_bin_edges)
def f_hbe(a, bins=10, range=None, weights=None):
    return _hist_edges(a, bins, range)


@override(np.histogramdd)
def f_histogramdd(sample, bins=10, range=None, density=None, weights=None):
    if isinstance(sample, SArr) and sample.ndim == 2:
        cols = [sample[:, i] for i in __builtins_range(sample.shape[1])]
    else:
        cols = list(sample)
    D = len(cols)
    if isinstance(bins, (int, np.integer)):
        bins = [bins] * D
    es = [_hist_edges(c, b, None if range is None else range[i]) for i, (c, b) in enumerate(zip(cols, bins))]
    cols = [obj_of(c)[0].reshape(-1) for c in cols]
    n = cols[0].size
    w = [Sym(q=Fraction(1), t="f")] * n if weights is None else list(obj_of(weights)[0].reshape(-1))
    shp = tuple(e.size - 1 for e in es)
    r = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        acc = Sym(q=Fraction(0))
        for j in __builtins_range(n):
            c = SymBool(True)
            for d in __builtins_range(D):
                c = c & in_bin(as_sym(cols[d][j]), es[d], idx[d])
            acc = acc + ite(c, cast_scalar(w[j], "f"), Sym(q=Fraction(0)))
        r[idx] = acc
    return wrap(r, "f"), es


@override(np.histogram2d)
def f_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    if not isinstance(bins, (int, np.integer)) and len(bins) not in (1, 2):
        bins = [bins, bins]
    r, es = f_histogramdd([x, y], bins, range, density, weights)
    return r, es[0], es[1]


@override(np.linspace)
def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = conc_int(num)
    if n < 0:
        raise ValueError(f"Number of samples, {n}, must be non-negative.")
    a, b = as_sym(start), as_sym(stop)
    d = (n - 1) if endpoint else n
    els = []
    for i in range(n):
        if i == 0:
            els.append(a)
        elif endpoint and i == n - 1:
            els.append(b)
        else:
            els.append(a + (b - a) * Fraction(i, d))
    r = mk(els, "f") if els else mk([], "f")
    if retstep:
        return r, (b - a) / d
    return r


@override(np.copyto)
def f_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


@override(np.putmask)
def f_putmask(a, mask, values):
    a[...] = f_where(mask, values, a)


@override(np.place)
def f_place(a, mask, vals):
    raise Unsupported("place")


# ---- linear algebra
def _det(m, rows, cols, cache):
    k = (rows, cols)
    if k in cache:
        return cache[k]
    if len(rows) == 0:
        return Sym(q=Fraction(1))
    if len(rows) == 1:
        return as_sym(m[rows[0], cols[0]])
    acc = Sym(q=Fraction(0))
    for j, c in enumerate(cols):
        v = as_sym(m[rows[0], c])
        if v.q == 0 and v.x is None:
            continue
        t = v * _det(m, rows[1:], cols[:j] + cols[j + 1:], cache)
        acc = acc + (t if j % 2 == 0 else -t)
    cache[k] = acc
    return acc


@override(np.linalg.det)
def f_det(a):
    o, _ = obj_of(a)
    n = o.shape[0]
    return _det(o, tuple(range(n)), tuple(range(n)), {})


def _is_zero(v):
    v = as_sym(v)
    return v.q == 0 and v.x is None


def _blocks(o):
    """index sets of the diagonal blocks of a square matrix (connected by entries that are not literally zero)"""
    n = o.shape[0]
    left, out = set(range(n)), []
    while left:
        todo = [min(left)]
        left.discard(todo[0])
        blk = []
        while todo:
            i = todo.pop()
            blk.append(i)
            for j in sorted(left):
                if not (_is_zero(o[i, j]) and _is_zero(o[j, i])):
                    left.discard(j)
                    todo.append(j)
        out.append(sorted(blk))
    return out


def _inv_block(o, blk, r):
    al = tuple(blk)
    k = len(al)
    vals = [[as_sym(o[i, j]) for j in al] for i in al]
    if all(v.q is not None for row in vals for v in row):
        m = [[Fraction(v.q) for v in row] + [Fraction(int(i == j)) for j in range(k)] for i, row in enumerate(vals)]
        for i in range(k):
            p = next((a for a in range(i, k) if m[a][i] != 0), None)
            if p is None:
                raise np.linalg.LinAlgError("Singular matrix")
            m[i], m[p] = m[p], m[i]
            d = m[i][i]
            m[i] = [x / d for x in m[i]]
            for a in range(k):
                if a != i and m[a][i] != 0:
                    f = m[a][i]
                    m[a] = [x - f * y for x, y in zip(m[a], m[i])]
        for i in range(k):
            for j in range(k):
                r[al[i], al[j]] = sc._retag(as_sym(m[i][k + j]), "f")
        return
    cache = {}
    det = _det(o, al, al, cache)
    if det.num is not None and det.den:
        e = sc.ex().reduce_roots(det.num)
        if not e.eq(det.num):
            det = sc.Sym(num=e, den=det.den)
    if bool(det == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    for i in range(k):
        for j in range(k):
            c = _det(o, al[:j] + al[j + 1:], al[:i] + al[i + 1:], cache)
            if (i + j) % 2:
                c = -c
            r[al[i], al[j]] = sc._retag(sc.div(c, det), "f")


@override(np.linalg.inv)
def f_inv(a):
    o, _ = obj_of(a)
    if o.ndim != 2 or o.shape[0] != o.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = o.shape[0]
    if any(as_sym(x).x is not None for x in o.reshape(-1)):
        return mk(np.full((n, n), np.nan))
    r = np.full((n, n), None, dtype=object)
    zero = sc._retag(as_sym(0.0), "f")
    for i in range(n):
        for j in range(n):
            r[i, j] = zero
    for blk in _blocks(o):
        _inv_block(o, blk, r)
    return wrap(r, "f")


@override(np.linalg.pinv)
def f_pinv(a, rcond=None, hermitian=False, rtol=None, **k):
    cut = rcond if rcond is not None else rtol
    if cut is None or not isinstance(cut, (int, float)) or k:
        cut = 1e-15
    o, _ = obj_of(a)
    if cut >= 1e-14 and o.ndim == 2 and o.shape[0] == o.shape[1] and not any(as_sym(x).x is not None for x in o.reshape(-1)) \
            and all(len(b) <= 2 for b in _blocks(o)):
        return _pinv_cut(o, cut)
    try:
        return f_inv(a)
    except np.linalg.LinAlgError:
        raise Unsupported("pinv of a singular matrix")


def _pinv_cut(o, cut):
    """pseudo inverse of a symmetric matrix of blocks up to 2x2, singular values up to cut * largest are dropped"""
    n = o.shape[0]
    r = np.full((n, n), sc._retag(as_sym(0.0), "f"), dtype=object)
    ev = []
    for blk in _blocks(o):
        if len(blk) == 1:
            ev.append((blk, [as_sym(o[blk[0], blk[0]])]))
            continue
        i, j = blk
        p, q, w = as_sym(o[i, i]), as_sym(o[j, j]), as_sym(o[i, j])
        if not sc.same(w, as_sym(o[j, i])):
            raise Unsupported("pinv of a matrix that is not symmetric")
        if sc.same(p, q):
            ev.append((blk, [p + w, p - w]))
        else:
            m, h = (p + q) / 2, sc.sqrt(((p - q) / 2) * ((p - q) / 2) + w * w)
            ev.append((blk, [m + h, m - h]))
    top = as_sym(0.0)
    for _, es in ev:
        for e in es:
            top = sc.maximum(top, sc.absolute(e))
    lim = top * as_sym(float(cut))
    for blk, es in ev:
        keep = [bool(sc.absolute(e) > lim) for e in es]
        if all(keep):
            _inv_block(o, blk, r)
        elif len(blk) == 2 and any(keep):
            e, f = es if keep[0] else es[::-1]
            for i in blk:
                for j in blk:
                    v = as_sym(o[i, j]) - f if i == j else as_sym(o[i, j])
                    r[i, j] = v / ((e - f) * e)
    return wrap(r, "f")


@override(np.linalg.solve)
def f_solve(a, b):
    return f_matmul(f_inv(a), mk(b))


@override(np.linalg.norm)
def f_norm(a, ord=None, axis=None, **k):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm")
    a = mk(a)
    return sc.sqrt(f_sum(a * a))


@override(np.linalg.cholesky)
def f_cholesky(a):
    o, _ = obj_of(a)
    n = o.shape[0]
    L = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            L[i, j] = Sym(q=Fraction(0))
    for i in range(n):
        for j in range(i + 1):
            s = as_sym(o[i, j])
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                if bool(s <= 0):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i, j] = sc.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return wrap(L, "f")


def _unsupf(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


for _n in ("eigh", "eig", "eigvalsh", "eigvals", "svd", "matrix_rank", "lstsq", "qr", "slogdet", "cond"):
    OVERRIDES[getattr(np.linalg, _n)] = _unsupf("linalg." + _n)
for _n in ("unique", "percentile", "quantile", "interp", "convolve", "corrcoef", "cov", "partition", "gradient", "trapz"):
    OVERRIDES[getattr(np, _n)] = _unsupf(_n)


@override(np.unique)
def f_unique(a, **k):
    if k:
        raise Unsupported("unique with options")
    s = f_sort(mk(a).reshape(-1))
    out = []
    for x in s:
        if not out or bool(as_sym(x) != as_sym(out[-1])):
            out.append(x)
    return mk(out, s.kind)


@override(np.isin)
def f_isin(a, test, **k):
    t = list(obj_of(test)[0].reshape(-1))

    def f(v):
        c = SymBool(False)
        for x in t:
            c = c | (as_sym(v) == as_sym(x))
        return c
    return _el1(f, mk(a))


@override(np.diag)
def f_diag(v, k=0):
    v = v if isinstance(v, np.ndarray) else mk(v)
    kd = v.kind if isinstance(v, SArr) else kind_of(v.dtype)
    o = obj_of(v)[0]
    if o.ndim == 1:
        if k:
            raise Unsupported("diag k")
        n = o.size
        r = np.empty((n, n), dtype=object)
        z = cast_scalar(Sym(q=Fraction(0)), kd)
        for i in range(n):
            for j in range(n):
                r[i, j] = o[i] if i == j else z
        return wrap(r, kd)
    return wrap(np.diagonal(o, k), kd)


@override(np.diagflat)
def f_diagflat(v, k=0):
    return f_diag(mk(v).reshape(-1), k)


def _tri(keep):
    def f(m, k=0):
        m = mk(m)
        if m.ndim != 2:
            raise Unsupported("tril/triu")
        r = m.copy()
        for i, j in np.ndindex(*r.shape):
            if not keep(j - i, k):
                r[i, j] = 0
        return r
    return f


override(np.tril)(_tri(lambda d, k: d <= k))
override(np.triu)(_tri(lambda d, k: d >= k))


class Join:
    """np.r_ and np.c_ for arrays and numbers"""

    def __init__(self, real, f):
        self.real, self.f = real, f

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if not any(has_sym(x) for x in key):
            return self.real[key]
        if any(isinstance(x, (slice, str)) for x in key):
            raise Unsupported("slices in r_ or c_")
        return self.f([mk(x).reshape(-1) if mk(x).ndim == 0 else mk(x) for x in key])


@override(np.outer)
def f_outer(a, b, out=None):
    a, b = mk(a).reshape(-1), mk(b).reshape(-1)
    return a[:, None] * b[None, :]


@override(np.nan_to_num)
def _ntn(*a, **k):
    return f_nan_to_num(*a, **k)


@override(np.array_repr, np.array_str, np.array2string)
def f_repr(a, *x, **k):
    return repr(a)


@override(np.shape)
def f_shape(a):
    if isinstance(a, np.ndarray):
        return a.shape
    return obj_of(a)[0].shape


@override(np.size)
def f_size(a, axis=None):
    o = a if isinstance(a, np.ndarray) else obj_of(a)[0]
    return o.size if axis is None else o.shape[axis]


@override(np.ndim)
def f_ndim(a):
    return a.ndim if isinstance(a, np.ndarray) else obj_of(a)[0].ndim


@override(np.iscomplexobj)
def f_false(*a):
    return False


@override(np.result_type)
def f_result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, (SArr, Sym)) else x for x in a])


# ---- creators
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(conc_int(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(conc_int(x) for x in obj_of(s)[0].reshape(-1))
    return (conc_int(s),)


def full(shape, v, dtype=None, order="C", **k):
    kd = kind_of(dtype) if dtype is not None else None
    if isinstance(v, np.ndarray) and v.size != 1 or isinstance(v, (list, tuple)):
        a = mk(v, kd)
        o = np.empty(_shape(shape), dtype=object)
        o[...] = a.view(np.ndarray)
        return wrap(o, a.kind)
    e = elem(v, kd)
    o = np.empty(_shape(shape), dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = e
    return wrap(o, kd or scalar_kind(e))


def zeros(shape, dtype=None, order="C", **k):
    return full(shape, 0, "f" if dtype is None else dtype)


def ones(shape, dtype=None, order="C", **k):
    return full(shape, 1, "f" if dtype is None else dtype)


def empty(shape, dtype=None, order="C", **k):
    # uninitialised memory: a fresh unknown per element
    kd = kind_of(dtype)
    o = np.empty(_shape(shape), dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = cast_scalar(Sym.const(0), kd) if sc.EX is None else _uninit(kd)
    return wrap(o, kd)


def _uninit(kd):
    if kd == "b":
        return SymBool(False)
    return Sym(num=sc.ex().fresh("uninit"), t=kd)


def _likekind(a, dtype):
    if dtype is not None:
        return kind_of(dtype)
    if isinstance(a, np.ndarray):
        return a.kind if isinstance(a, SArr) else kind_of(a.dtype)
    return obj_of(a)[1]


def _likeshape(a, shape):
    return _shape(shape) if shape is not None else f_shape(a)


@override(np.zeros_like)
def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return full(_likeshape(a, shape), 0, _likekind(a, dtype))


@override(np.ones_like)
def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    return full(_likeshape(a, shape), 1, _likekind(a, dtype))


@override(np.empty_like)
def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    return empty(_likeshape(a, shape), _likekind(a, dtype))


@override(np.full_like)
def full_like(a, v, dtype=None, order="K", subok=True, shape=None):
    return full(_likeshape(a, shape), v, _likekind(a, dtype))


def eye(n, m=None, k=0, dtype=None, **kw):
    n = conc_int(n)
    m = n if m is None else conc_int(m)
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


def _isnumlike(a, depth=0):
    if isinstance(a, np.ndarray):
        return a.dtype.kind in "fiub" or isinstance(a, SArr) or (a.dtype == object and all(is_num(x) for x in a.reshape(-1)))
    if is_num(a):
        return True
    if hasattr(a, "to_numpy"):
        return True
    if isinstance(a, (list, tuple)):
        return all(_isnumlike(x, depth + 1) for x in a)
    return False


def array(a, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if isinstance(a, (types.GeneratorType, map, zip, filter)) or not _isnumlike(a):
        if a is None and dtype is not None and kind_of(dtype) == "f":
            return full((), np.nan)
        if isinstance(a, range):
            a = list(a)
        elif isinstance(a, (dict().values().__class__, dict().keys().__class__)) or not isinstance(a, (list, tuple)):
            return np.array(a, dtype=_rdt(dtype))
        else:
            flat_bad = [x for x in a if x is None]
            if flat_bad and dtype is None:
                return np.array(a, dtype=object)
            return np.array(a, dtype=_rdt(dtype))
    r = mk(a, kind_of(dtype) if dtype is not None else None)
    if order in ("C", "F"):
        r = r.copy(order)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(a, dtype=None, order=None, **k):
    if isinstance(a, SArr) and (dtype is None or kind_of(dtype) == a.kind):
        return a
    return array(a, dtype)


def arange(*a, dtype=None, **k):
    if any(has_sym(x) for x in a):
        a = [float(x) if isinstance(x, Sym) and x.t == "f" else conc_int(x) if isinstance(x, Sym) else x for x in a]
    return mk(np.arange(*a, dtype=_rdt(dtype)))


@override(np.copy)
def copy(a, order="K", subok=False):
    return mk(a).copy(order)


def fromiter(it, dtype=float, count=-1, **k):
    return mk(list(it), kind_of(dtype))


@override(np.broadcast_to)
def broadcast_to(a, shape, subok=False):
    o, k = obj_of(a)
    return wrap(np.broadcast_to(o, _shape(shape)), k)


def atleast_1d(*a):
    r = [x if isinstance(x, np.ndarray) and x.ndim else (x.reshape(1) if isinstance(x, np.ndarray) else mk([x]) if is_num(x) else mk(x)) for x in a]
    return r[0] if len(r) == 1 else r


class UF:
    """a ufunc whose list arguments become symbolic arrays"""

    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    @staticmethod
    def _c(x):
        if isinstance(x, (list, tuple)) and has_sym(x):
            return mk(x)
        if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype == object:
            return mk(x)
        return x

    def __call__(self, *a, **k):
        r = self._u(*[self._c(x) for x in a], **k)
        return r

    def reduce(self, a, axis=0, **k):
        return self._u.reduce(self._c(a), axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        return self._u.accumulate(self._c(a), axis=axis, **k)

    def outer(self, a, b, **k):
        return self._u.outer(self._c(a), self._c(b), **k)

    def at(self, a, idx, *b):
        if isinstance(a, SArr):
            return ufunc_dispatch(self._u, "at", (a, idx) + b, {})
        return self._u.at(a, norm_index(idx), *b)

    def __getattr__(self, n):
        return getattr(self._u, n)


class NpVectorize:
    def __init__(self, f, otypes=None, excluded=None, **k):
        self.f = f

    def __call__(self, *args, **kw):
        arrs = np.broadcast_arrays(*[obj_of(a)[0] for a in args])
        r = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = elem(sc.merge_call(self.f, *[a[i] for a in arrs]))
        return wrap(r) if r.shape else r[()]


def _wrapf(func):
    ov = OVERRIDES.get(func)
    if ov is not None:
        def g(*a, **k):
            if func in ALWAYS or any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                return ov(*a, **k)
            return func(*a, **k)
    else:
        def g(*a, **k):
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                return fallback(func, a, k)
            return func(*a, **k)
    g.__name__ = getattr(func, "__name__", "f")
    g.__wrapped__ = func
    return g


ALWAYS = {np.linspace, np.zeros_like, np.ones_like, np.empty_like, np.full_like, np.copy, np.where}


def make_module(random=None):
    m = types.ModuleType("numpy")
    for n in dir(np):
        if n.startswith("__"):
            continue
        try:
            v = getattr(np, n)
        except Exception:
            continue
        if isinstance(v, np.ufunc):
            v = UF(v)
        elif isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
            pass
        else:
            v = _wrapf(v)
        setattr(m, n, v)
    for n, f in dict(zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=identity, array=array,
                     asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfarray=asarray,
                     arange=arange, fromiter=fromiter, atleast_1d=atleast_1d, vectorize=NpVectorize,
                     ).items():
        setattr(m, n, f)
    m.r_ = Join(np.r_, m.concatenate)
    m.c_ = Join(np.c_, m.column_stack)
    la = types.ModuleType("numpy.linalg")
    for n in dir(np.linalg):
        v = getattr(np.linalg, n)
        setattr(la, n, _wrapf(v) if callable(v) and not isinstance(v, type) else v)
    m.linalg = la
    rnd = types.ModuleType("numpy.random")

    def _r(n):
        def f(*a, **k):
            raise Unsupported("numpy.random." + n)
        return f
    for n in dir(np.random):
        if not n.startswith("_") and callable(getattr(np.random, n)):
            setattr(rnd, n, _r(n))
    rnd.seed = lambda *a, **k: None
    if random:
        for n, f in random.items():
            setattr(rnd, n, f)
    m.random = rnd
    m.__version__ = np.__version__
    m.ndarray = np.ndarray
    m.testing = np.testing
    return m

