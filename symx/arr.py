"""
SymArray: a numpy object array of symbolic terms that /repo's code can use in place of a
float/bool/int array.  numpy's own indexing, views and broadcasting do the data movement;
the arithmetic of every element goes through symx.expr.
"""

import builtins
import math
import sys
from fractions import Fraction

import numpy as np

from symx import expr as E
from symx.expr import B, S, Unsupported

F64 = np.dtype("float64")
BOOL = np.dtype("bool")
I64 = np.dtype("int64")
F32 = np.dtype("float32")

ACTIVE = [False]
ROUND_ASSUME = []  # side constraints of modelled float32 roundings


# ---------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, (SymArray, S, B))


def ldt_of(x):
    if isinstance(x, SymArray):
        return x.ldt
    if isinstance(x, B):
        return BOOL
    if isinstance(x, S):
        return F64
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    return None


def plain(x):
    """SymArray -> plain object ndarray view; S/B -> 0-d object array; containers recursively"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    return x


def _lift_el(v):
    if type(v) is S or type(v) is B:
        return v
    if isinstance(v, (bool, np.bool_)):
        return E.bconst(bool(v))
    r = E.lift(v)
    if r is None:
        raise Unsupported(f"element of type {type(v)}")
    return r


_lift_uf = np.frompyfunc(_lift_el, 1, 1)


def to_obj(x):
    """anything array-like -> plain object ndarray with S/B/(inf, nan floats) elements"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (S, B)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _asobj(_lift_uf(x), x.shape)
    if isinstance(x, (list, tuple)):
        x = _raw_array(x)
        return _asobj(_lift_uf(x), x.shape)
    a = np.asarray(x)
    return _asobj(_lift_uf(a.astype(object)), a.shape)


def _raw_array(x):
    """nested lists possibly holding S / SymArray -> object ndarray"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        if not builtins.any(_has_sym(v) for v in x):
            return np.asarray(x).astype(object) if len(x) else np.asarray(x)
        parts = [_raw_array(v) for v in x]
        return np.stack([_box(p) for p in parts]) if parts else np.empty((0,), dtype=object)
    return _box(x)


def _box(p):
    if isinstance(p, np.ndarray):
        return p if p.dtype == object else p.astype(object)
    a = np.empty((), dtype=object)
    a[()] = p
    return a


def _has_sym(x):
    if isinstance(x, (S, B, SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_sym(v) for v in x)
    return False


def _asobj(r, shape):
    if isinstance(r, np.ndarray):
        return r
    a = np.empty((), dtype=object)
    a[()] = r
    return a.reshape(shape)


def wrap(a, ldt):
    """plain object ndarray -> SymArray (0-d -> scalar)"""
    if not isinstance(a, np.ndarray):
        return a
    if a.ndim == 0:
        return a[()]
    out = a.view(SymArray)
    out.ldt = ldt
    return out


def wrap_keep(a, ldt):
    out = a.view(SymArray)
    out.ldt = ldt
    return out


def scalar_array(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return wrap_keep(a, BOOL if isinstance(x, B) else F64)


def cast_el(ldt):
    k = ldt.kind
    if k == "b":
        return E.blift
    if k in "iu":

        def f(v):
            v = E.lift(v)
            return E.trunc(v)

        return f
    if ldt == F32 or ldt == np.dtype("float16"):
        eps = 2.0**-24 if ldt == F32 else 2.0**-11

        def g(v):
            v = E.lift(v)
            if not isinstance(v, S):
                return v
            if v.is_const():
                return E.const(float(ldt.type(float(v.const()))))
            e = E.var(E.fresh_name("rnd"))
            ROUND_ASSUME.append(E.ge0(E.const(eps) - e))
            ROUND_ASSUME.append(E.ge0(E.const(eps) + e))
            return v + v * e

        return g
    return E.lift


def cast(obj, src, dst):
    """cast a plain object array between logical dtypes"""
    if dst == src or (dst.kind == "f" and dst.itemsize >= 8 and src is not None and src.kind == "f"):
        return obj
    if dst.kind in "iu" and src is not None and src.kind in "iu":
        return obj
    if dst == object:
        return obj
    r = np.frompyfunc(cast_el(dst), 1, 1)(obj)
    return _asobj(r, obj.shape)


def norm_ldt(dt):
    dt = np.dtype(dt)
    return dt


# ---------------------------------------------------------------- elementwise semantics
def _num(v):
    return E.b2r(v) if type(v) is B else v


def _fdiv(a, b):
    """float division with inf/nan operands"""
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)


def el_div(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, S):
        return a / b
    if isinstance(b, S):
        return b.__rtruediv__(a)
    return _fdiv(a, b)


def _bin(op):
    def f(a, b):
        return op(_num(a), _num(b))

    return f


def el_max(a, b):
    return E.smax(a, b)


def el_min(a, b):
    a, b = E.lift(a), E.lift(b)
    if not isinstance(a, S) or not isinstance(b, S):
        for x in (a, b):
            if not isinstance(x, S) and x != x:
                return x
        if not isinstance(a, S) and not isinstance(b, S):
            return min(a, b)
        inf, s = (a, b) if not isinstance(a, S) else (b, a)
        return s if inf > 0 else inf
    return E.smin(a, b)


def el_fmax(a, b):
    if isinstance(a, float) and a != a:
        return b
    if isinstance(b, float) and b != b:
        return a
    return el_max(a, b)


def el_fmin(a, b):
    if isinstance(a, float) and a != a:
        return b
    if isinstance(b, float) and b != b:
        return a
    return el_min(a, b)


def _un(fs, ff):
    def f(a):
        a = _num(a)
        return fs(a) if isinstance(a, S) else ff(a)

    return f


def _uf1(name, py):
    return _un(lambda a: E.uf(name, a), py)


def el_sqrt(a):
    a = _num(a)
    if isinstance(a, S):
        return E.sqrt(a)
    return math.nan if a != a or a < 0 else math.sqrt(a)


def el_pow(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, S) or not isinstance(b, S):
        return float(np.power(float(a), float(b)))
    return a**b


def cmp_gt(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, S):
        return a > b
    if isinstance(b, S):
        return b < a
    return E.bconst(a > b)


def cmp_ge(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, S):
        return a >= b
    if isinstance(b, S):
        return b <= a
    return E.bconst(a >= b)


def cmp_eq(a, b):
    if type(a) is B and type(b) is B:
        return E.bnot(E.bxor(a, b))
    a, b = _num(a), _num(b)
    if isinstance(a, S):
        return a == b
    if isinstance(b, S):
        return b == a
    return E.bconst(a == b)


def el_ite(c, a, b):
    c = E.blift(c)
    if type(a) is B and type(b) is B:
        return E.bite(c, a, b)
    if c is E.TRUE:
        return a
    if c is E.FALSE:
        return b
    return E.ite(c, _num(a), _num(b))


def el_sign(a):
    a = _num(a)
    return E.sign(a) if isinstance(a, S) else (a if a != a else E.const(1 if a > 0 else -1))


def el_copysign(a, b):
    m = abs(_num(a))
    b = _num(b)
    if not isinstance(b, S):
        return m if b > 0 else -m
    return el_ite(b >= 0, m, -m)


def el_isnan(a):
    return E.bconst(isinstance(a, float) and a != a)


def el_isinf(a):
    return E.bconst(isinstance(a, float) and a in (math.inf, -math.inf))


def el_isfinite(a):
    return E.bconst(not isinstance(a, float))


def el_rint(a):
    a = _num(a)
    if isinstance(a, S):
        if a.is_const():
            return E.const(round(a.const()))
        return E.floor(a + E.const(0.5))  # ties may differ: only used on non-ties
    return a


ELEM = {
    "add": _bin(lambda a, b: a + b),
    "subtract": _bin(lambda a, b: a - b),
    "multiply": _bin(lambda a, b: a * b),
    "divide": el_div,
    "true_divide": el_div,
    "floor_divide": _bin(lambda a, b: E.floor(E.lift(a) / b)),
    "remainder": _bin(lambda a, b: a - E.floor(E.lift(a) / b) * b),
    "mod": _bin(lambda a, b: a - E.floor(E.lift(a) / b) * b),
    "power": el_pow,
    "float_power": el_pow,
    "negative": _un(lambda a: -a, lambda a: -a),
    "positive": _un(lambda a: a, lambda a: a),
    "absolute": _un(E.absr, abs),
    "fabs": _un(E.absr, abs),
    "sqrt": el_sqrt,
    "square": _un(lambda a: a * a, lambda a: a * a),
    "reciprocal": lambda a: el_div(E.ONE, a),
    "maximum": el_max,
    "minimum": el_min,
    "fmax": el_fmax,
    "fmin": el_fmin,
    "sign": el_sign,
    "copysign": el_copysign,
    "floor": _un(E.floor, lambda a: a),
    "ceil": _un(E.ceil, lambda a: a),
    "trunc": _un(E.trunc, lambda a: a),
    "rint": el_rint,
    "greater": cmp_gt,
    "less": lambda a, b: cmp_gt(b, a),
    "greater_equal": cmp_ge,
    "less_equal": lambda a, b: cmp_ge(b, a),
    "equal": cmp_eq,
    "not_equal": lambda a, b: E.bnot(cmp_eq(a, b)),
    "logical_and": lambda a, b: E.band(E.blift(a), E.blift(b)),
    "logical_or": lambda a, b: E.bor(E.blift(a), E.blift(b)),
    "logical_xor": lambda a, b: E.bxor(E.blift(a), E.blift(b)),
    "logical_not": lambda a: E.bnot(E.blift(a)),
    "isnan": el_isnan,
    "isinf": el_isinf,
    "isfinite": el_isfinite,
    "signbit": _un(lambda a: E.gt0(-a), lambda a: E.bconst(a < 0)),
    "hypot": lambda a, b: el_sqrt(_num(a) * _num(a) + _num(b) * _num(b)),
    "heaviside": lambda a, b: el_ite(cmp_gt(a, E.ZERO), E.ONE, el_ite(cmp_eq(a, E.ZERO), b, E.ZERO)),
    "conjugate": lambda a: a,
    "arctan2": lambda a, b: E.uf("arctan2", a, b),
    "cbrt": lambda a: E.uf("cbrt", a),
    "deg2rad": lambda a: _num(a) * (math.pi / 180),
}
for _n in ("sin", "cos", "tan", "exp", "log", "arctan", "arcsin", "arccos", "tanh", "sinh", "cosh"):
    ELEM[_n] = _uf1(_n, lambda a: math.nan)
ELEM["log10"] = lambda a: E.uf("log", _num(a)) / E.const(math.log(10))
ELEM["log2"] = lambda a: E.uf("log", _num(a)) / E.const(math.log(2))
ELEM["exp2"] = lambda a: E.uf("exp", _num(a) * math.log(2))
ELEM["log1p"] = lambda a: E.uf("log", _num(a) + 1)
ELEM["expm1"] = lambda a: E.uf("exp", _num(a)) - 1

_BITS = {"bitwise_and": "logical_and", "bitwise_or": "logical_or", "bitwise_xor": "logical_xor", "invert": "logical_not"}
_BOOL_OUT = {
    "greater", "less", "greater_equal", "less_equal", "equal", "not_equal", "logical_and", "logical_or",
    "logical_xor", "logical_not", "isnan", "isinf", "isfinite", "signbit",
}
_ufcache = {}


def _pyufunc(f, nin):
    k = (f, nin)
    r = _ufcache.get(k)
    if r is None:
        r = _ufcache[k] = np.frompyfunc(f, nin, 1)
    return r


def _out_ldt(ufunc, inputs):
    if ufunc.__name__ in _BOOL_OUT:
        return BOOL
    dts = []
    for x in inputs:
        d = ldt_of(x)
        if d is None:
            if isinstance(x, bool):
                d = BOOL
            elif isinstance(x, int):
                d = int
            elif isinstance(x, float):
                d = float
            else:
                a = to_obj(x)
                d = BOOL if a.size and builtins.all(type(v) is B for v in a.flat) else F64
        elif d == object:
            d = F64
        dts.append(d)
    if builtins.all(d is int or d is float for d in dts):
        dts = [F64 if d is float else I64 for d in dts]
    try:
        return ufunc.resolve_dtypes(tuple(dts) + (None,) * ufunc.nout)[-1]
    except TypeError:
        raise
    except Exception:
        return F64


def _impl(ufunc, inputs):
    n = ufunc.__name__
    allbool = builtins.all(
        (ldt_of(x) == BOOL) if ldt_of(x) is not None else isinstance(x, (bool, np.bool_)) for x in inputs
    )
    if n in _BITS:
        if allbool:
            return ELEM[_BITS[n]]
        raise Unsupported(f"{n} on non-boolean symbolic arrays")
    if allbool:
        if n in ("add", "maximum", "fmax"):
            return ELEM["logical_or"]
        if n in ("multiply", "minimum", "fmin"):
            return ELEM["logical_and"]
        if n == "subtract":
            raise TypeError("numpy boolean subtract is not supported")
        if n == "absolute":
            return lambda a: a
    f = ELEM.get(n)
    if f is None:
        raise Unsupported(f"ufunc {n}")
    return f


def _store(out, res, where, src):
    """write plain object array res into `out`"""
    if isinstance(out, SymArray):
        if not np.can_cast(src, out.ldt, casting="same_kind"):
            raise TypeError(f"Cannot cast ufunc output from {src} to {out.ldt} with casting rule 'same_kind'")
        res = cast(res, src, out.ldt)
        o = out.view(np.ndarray)
        if where is True:
            o[...] = res
        else:
            w = to_obj(where)
            o[...] = _asobj(np.frompyfunc(el_ite, 3, 1)(w, res, o), o.shape)
        return out
    if out.dtype == object:
        out[...] = res
        return out
    vals = _concretize(res)
    if where is True:
        out[...] = vals
    else:
        raise Unsupported("masked write of symbolic values into a float array")
    return out


def _concretize(res):
    def c(v):
        if isinstance(v, S):
            return float(v)
        if isinstance(v, B):
            return bool(v)
        return v

    r = np.frompyfunc(c, 1, 1)(res)
    return _asobj(r, res.shape)


def dispatch_ufunc(ufunc, method, inputs, kwargs):
    out = kwargs.pop("out", None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kwargs.pop("where", True)
    dtype = kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    if method == "__call__":
        if ufunc.__name__ in ("matmul", "vecdot", "matvec", "vecmat"):
            r = ufunc(*[to_obj_num(x) for x in inputs])
            r = wrap(_asobj(r, getattr(r, "shape", ())), F64)
            if out is not None:
                return _store(out, to_obj(r), where, F64)
            return r
        if ufunc.__name__.endswith("(vectorized)"):
            r = ufunc(*[to_obj(x) for x in inputs])
            return to_sym(r) if isinstance(r, np.ndarray) else r
        if ufunc.__name__ in ("divmod", "modf", "frexp", "spacing", "nextafter", "ldexp"):
            raise Unsupported(f"ufunc {ufunc.__name__}")
        f = _impl(ufunc, inputs)
        ldt = _out_ldt(ufunc, inputs)
        arrs = [to_obj(x) for x in inputs]
        r = _pyufunc(f, len(arrs))(*arrs)
        shape = np.broadcast_shapes(*[a.shape for a in arrs])
        if dtype is not None:
            r, ldt = cast(_asobj(r, shape), ldt, np.dtype(dtype)), np.dtype(dtype)
        if out is not None:
            return _store(out, _asobj(r, shape), where, ldt)
        if where is not True:
            g = garbage_array(np.broadcast_shapes(shape, np.shape(where)))
            r = np.frompyfunc(el_ite, 3, 1)(to_obj(where), _asobj(r, shape), g)
        return wrap(_asobj(r, shape), ldt)
    if method == "reduce":
        (x,) = inputs
        axis = kwargs.pop("axis", 0)
        keep = kwargs.pop("keepdims", False)
        initial = kwargs.pop("initial", np._NoValue)
        r, ldt = reduce_(ufunc, x, axis, keep, initial, where)
        if dtype is not None:
            r = cast(r, ldt, np.dtype(dtype))
            ldt = np.dtype(dtype)
        if out is not None:
            return _store(out, r, True, ldt)
        return wrap(r, ldt) if not keep else (wrap_keep(r, ldt) if r.ndim else r[()])
    if method == "accumulate":
        (x,) = inputs
        axis = kwargs.pop("axis", 0)
        a = np.moveaxis(to_obj(x), axis, 0)
        f = _impl(ufunc, (x, x))
        res = [a[0]]
        for i in range(1, a.shape[0]):
            res.append(_asobj(_pyufunc(f, 2)(res[-1], a[i]), a[i].shape))
        r = np.moveaxis(np.stack(res), 0, axis)
        if out is not None:
            return _store(out, r, True, ldt_of(x))
        return wrap(r, ldt_of(x) or F64)
    if method == "outer":
        a, b = (to_obj(x) for x in inputs)
        a = wrap_keep(a, ldt_of(inputs[0]) or F64)
        b = wrap_keep(b, ldt_of(inputs[1]) or F64)
        return dispatch_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == "at":
        x, idx = inputs[0], inputs[1]
        f = _impl(ufunc, (x,) + tuple(inputs[2:3]))
        o = plain(x)
        index = np.arange(o.size).reshape(o.shape)[idx]
        vals = np.broadcast_to(to_obj(inputs[2]), index.shape) if len(inputs) > 2 else None
        flat = o.reshape(-1)
        for j, p in enumerate(index.flat):
            pos = np.unravel_index(p, o.shape)
            o[pos] = f(o[pos], vals.flat[j]) if vals is not None else f(o[pos])
        del flat
        return None
    raise Unsupported(f"ufunc method {method}")


def to_obj_num(x):
    a = to_obj(x)
    return _asobj(np.frompyfunc(_num, 1, 1)(a), a.shape)


def _fold(name, vals, allbool):
    """n-ary reduction of a 1-D list"""
    if name in ("logical_and",) or (allbool and name in ("bitwise_and", "minimum", "multiply")):
        return E.band(*[E.blift(v) for v in vals])
    if name in ("logical_or",) or (allbool and name in ("bitwise_or", "maximum")):
        return E.bor(*[E.blift(v) for v in vals])
    if name == "maximum":
        return E.smax(*vals)
    if name == "minimum":
        if builtins.all(isinstance(v, (S, B)) for v in vals):
            return E.smin(*vals)
    f = ELEM[_BITS.get(name, name)]
    if name == "add":
        f = lambda a, b: _num(a) + _num(b)  # noqa: E731
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return _num(r) if name == "add" else r


_IDENT = {"add": E.ZERO, "multiply": E.ONE}


def reduce_(ufunc, x, axis, keep, initial, where):
    a = to_obj(x)
    n = ufunc.__name__
    src = ldt_of(x)
    if src is None or src == object:
        src = F64
    allbool = src == BOOL
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(ax % a.ndim for ax in axis)
    else:
        axes = (int(axis) % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    wb = None
    if where is not True and where is not np._NoValue:
        w = np.broadcast_to(to_obj(where), a.shape)
        wb = w.transpose(rest + list(axes)).reshape(b.shape)
    out = np.empty([a.shape[i] for i in rest], dtype=object)
    for idx in np.ndindex(*out.shape):
        vals = list(b[idx])
        if wb is not None:
            ident = {"add": E.ZERO, "multiply": E.ONE, "logical_or": E.FALSE, "logical_and": E.TRUE}.get(n)
            if ident is None:
                if initial is np._NoValue:
                    raise Unsupported("masked reduction without initial")
                ident = E.lift(initial)
            vals = [el_ite(c, v, ident) for c, v in zip(wb[idx], vals)]
        if initial is not np._NoValue and initial is not None:
            vals = [_lift_el(initial)] + vals
        if not vals:
            if n == "add":
                vals = [E.ZERO]
            elif n == "multiply":
                vals = [E.ONE]
            elif n == "logical_or":
                vals = [E.FALSE]
            elif n == "logical_and":
                vals = [E.TRUE]
            else:
                raise ValueError("zero-size array to reduction operation which has no identity")
        out[idx] = _fold(n, vals, allbool)
    if n in _BOOL_OUT or (allbool and n not in ("add", "multiply")):
        ldt = BOOL
    elif n == "add" and allbool:
        ldt = I64
    else:
        ldt = src
    if keep:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out, ldt


# ---------------------------------------------------------------- array functions
HANDLERS = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def _join_ldt(*xs):
    ds = [ldt_of(x) for x in xs]
    real = [d for d in ds if d is not None and d != object]
    scal = []
    for x, d in zip(xs, ds):
        if d is None:
            if isinstance(x, (list, tuple)):
                a = to_obj(x)
                scal.append(BOOL if a.size and builtins.all(type(v) is B for v in a.flat) else F64)
            else:
                scal.append(x if isinstance(x, (int, float, bool)) else 1.0)
    if not real and not scal:
        return F64
    r = np.result_type(*real, *scal)
    return r if r != object else F64


@handles("where")
def _where(cond, *args):
    if not args:
        return _nonzero(cond)
    a, b = args
    c = to_obj(cond)
    ldt = _join_ldt(a, b)
    x, y = to_obj(a), to_obj(b)
    shape = np.broadcast_shapes(c.shape, x.shape, y.shape)
    r = _asobj(np.frompyfunc(el_ite, 3, 1)(c, x, y), shape)
    r = cast(r, None, ldt)
    return wrap_keep(r, ldt) if shape else r[()]


def _forked(a):
    """the truth values of a, decided by forking"""
    return np.asarray(np.frompyfunc(lambda v: bool(E.blift(v)), 1, 1)(to_obj(a)), dtype=bool)


@handles("nonzero")
def _nonzero(a):
    return np.nonzero(_forked(a))


@handles("flatnonzero")
def _flatnonzero(a):
    return np.flatnonzero(_forked(a))


@handles("argwhere")
def _argwhere(a):
    return np.argwhere(_forked(a))


@handles("choose")
def _choose(a, choices, out=None, mode="raise"):
    k = to_sym(a)
    r = to_sym(choices[-1])
    for i in range(len(choices) - 2, -1, -1):
        r = _where(k == i, choices[i], r)
    return r


@handles("gradient")
def _gradient(f, *h, axis=None, edge_order=1):
    f = to_sym(f)
    if edge_order != 1 or builtins.any(np.ndim(x) for x in h):
        raise Unsupported("gradient")
    axes = tuple(range(f.ndim)) if axis is None else ((axis,) if np.ndim(axis) == 0 else tuple(axis))
    hs = list(h) * (len(axes) if len(h) == 1 else 1) or [1.0] * len(axes)
    out = []
    for ax, d in zip(axes, hs):
        g = np.moveaxis(f, ax, 0)
        r = np.concatenate([(g[1:2] - g[:1]) / d, (g[2:] - g[:-2]) / (2 * d), (g[-1:] - g[-2:-1]) / d])
        out.append(np.moveaxis(r, 0, ax))
    return out[0] if len(out) == 1 else out


def _red(uf):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True, **kw):
        if keepdims is np._NoValue:
            keepdims = False
        if where is np._NoValue:
            where = True
        return dispatch_ufunc(
            uf,
            "reduce",
            (a,),
            dict(axis=axis, dtype=dtype, out=out, keepdims=keepdims, initial=initial, where=where),
        )

    return f


HANDLERS["sum"] = HANDLERS["nansum"] = _red(np.add)
HANDLERS["prod"] = _red(np.multiply)
for _n in ("max", "amax", "nanmax"):
    HANDLERS[_n] = lambda a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True: _red(np.maximum)(
        a, axis=axis, out=out, keepdims=keepdims, initial=initial, where=where
    )
for _n in ("min", "amin", "nanmin"):
    HANDLERS[_n] = lambda a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True: _red(np.minimum)(
        a, axis=axis, out=out, keepdims=keepdims, initial=initial, where=where
    )
HANDLERS["any"] = lambda a, axis=None, out=None, keepdims=False, where=True: _red(np.logical_or)(
    a, axis=axis, out=out, keepdims=keepdims, where=where
)
HANDLERS["all"] = lambda a, axis=None, out=None, keepdims=False, where=True: _red(np.logical_and)(
    a, axis=axis, out=out, keepdims=keepdims, where=where
)


@handles("mean", "nanmean", "average")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True, weights=None, **kw):
    if weights is not None:
        w = weights
        if np.ndim(w) != np.ndim(a):
            shp = [1] * np.ndim(a)
            shp[axis] = -1
            w = np.reshape(w, shp)
        return HANDLERS["sum"](a * w, axis=axis) / HANDLERS["sum"](to_sym(w) * np.ones(np.shape(a)), axis=axis)
    if keepdims is np._NoValue:
        keepdims = False
    x = to_obj(a)
    s = HANDLERS["sum"](a, axis=axis, keepdims=keepdims)
    if axis is None:
        n = x.size
    elif isinstance(axis, tuple):
        n = int(np.prod([x.shape[i] for i in axis]))
    else:
        n = x.shape[axis]
    if n == 0:
        return math.nan
    return s / n


@handles("ptp")
def _ptp(a, axis=None, out=None, keepdims=False):
    return HANDLERS["max"](a, axis=axis, keepdims=keepdims) - HANDLERS["min"](a, axis=axis, keepdims=keepdims)


@handles("count_nonzero")
def _cnz(a, axis=None, keepdims=False):
    m = to_obj(a)
    r = _asobj(np.frompyfunc(lambda v: E.b2r(E.blift(v)), 1, 1)(m), m.shape)
    return HANDLERS["sum"](wrap_keep(r, I64), axis=axis, keepdims=keepdims)


@handles("clip")
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = dispatch_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = dispatch_ufunc(np.minimum, "__call__", (r, hi), {})
    if out is not None:
        out[...] = r
        return out
    return r


def _argbest(a, axis, better):
    x = to_obj(a)
    if axis is None:
        vals = list(x.flat)
        if not vals:
            raise ValueError("attempt to get argbest of an empty sequence")
        best = 0
        for i in range(1, len(vals)):
            if bool(better(vals[i], vals[best])):
                best = i
        return np.intp(best)
    x = np.moveaxis(x, axis, -1)
    out = np.empty(x.shape[:-1], dtype=np.intp)
    for idx in np.ndindex(*out.shape):
        out[idx] = _argbest(x[idx], None, better)
    return out


@handles("argmin", "nanargmin")
def _argmin(a, axis=None, out=None, keepdims=False):
    return _argbest(a, axis, lambda u, v: cmp_gt(v, u))


@handles("argmax", "nanargmax")
def _argmax(a, axis=None, out=None, keepdims=False):
    return _argbest(a, axis, lambda u, v: cmp_gt(u, v))


@handles("sort")
def _sort(a, axis=-1, **kw):
    x = np.moveaxis(to_obj(a).copy(), axis, -1)
    n = x.shape[-1]
    for idx in np.ndindex(*x.shape[:-1]):
        v = list(x[idx])
        for i in range(n):
            for j in range(n - 1 - i):
                v[j], v[j + 1] = el_min(v[j], v[j + 1]), el_max(v[j], v[j + 1])
        x[idx] = v
    return wrap(np.moveaxis(x, -1, axis), ldt_of(a) or F64)


@handles("median")
def _median(a, axis=None, **kw):
    if axis is None:
        a = to_sym(a).reshape(-1)
        axis = 0
    s = _sort(a, axis=axis)
    n = s.shape[axis]
    s = np.moveaxis(plain(s), axis, 0)
    r = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) * E.const(0.5)
    return wrap(_asobj(r, getattr(r, "shape", ())), F64)


@handles("select")
def _select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = _where(c, v, r)
    return r


@handles("copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    if isinstance(dst, SymArray):
        s = cast(np.broadcast_to(to_obj(src), dst.shape), None, dst.ldt)
        _store(dst, s, where, dst.ldt)
    else:
        dst[...] = _concretize(to_obj(src))


@handles("putmask", "place")
def _putmask(a, mask, values):
    _copyto(a, values, where=mask)


@handles("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = to_sym(a), to_sym(b)
    return abs(a - b) <= atol + rtol * abs(b)


@handles("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(HANDLERS["all"](_isclose(a, b, rtol, atol)))


@handles("array_equal", "array_equiv")
def _array_equal(a, b, equal_nan=False):
    a, b = to_sym(a), to_sym(b)
    if a.shape != b.shape:
        return False
    return bool(HANDLERS["all"](a == b))


@handles("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    o = to_obj(x)

    def f(v):
        if isinstance(v, float):
            if v != v:
                return _lift_el(nan)
            raise Unsupported("nan_to_num of inf")
        return v

    return wrap(_asobj(np.frompyfunc(f, 1, 1)(o), o.shape), ldt_of(x) or F64)


@handles("linspace")
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    start, stop = E.lift(start), E.lift(stop)
    num = int(num)
    div = num - 1 if endpoint else num
    out = np.empty((num,), dtype=object)
    for i in range(num):
        out[i] = start + (stop - start) * E.const_q(E._div(i, div)) if div > 0 else start
    r = wrap_keep(out, F64)
    return (r, (stop - start) / div) if retstep else r


@handles("zeros_like", "ones_like", "empty_like", "full_like")
def _like_dispatch(a, *args, **kw):
    raise RuntimeError  # replaced below by make_like


def make_like(kind, a, fill=None, dtype=None, shape=None):
    shp = np.shape(a) if shape is None else shape
    d = np.dtype(dtype) if dtype is not None else (ldt_of(a) or F64)
    return filled(kind, shp, d, fill)


def filled(kind, shape, d, fill=None):
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    if kind == "empty":
        return wrap_keep(garbage_array(shape, d), d)
    v = {"zeros": 0, "ones": 1}.get(kind, fill)
    if isinstance(v, (SymArray, np.ndarray, list, tuple)):
        a = np.empty(shape, dtype=object)
        a[...] = to_obj(v)
        return wrap_keep(cast(a, None, d), d)
    el = cast_el(d)(_lift_el(v))
    a = np.empty(shape, dtype=object)
    a.fill(el)
    return wrap_keep(a, d)


def garbage_array(shape, d=F64):
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        g = E.garbage()
        a[idx] = E.blift(g) if d == BOOL else g
    return a


HANDLERS["zeros_like"] = lambda a, dtype=None, order="K", subok=True, shape=None, device=None: make_like(
    "zeros", a, None, dtype, shape
)
HANDLERS["ones_like"] = lambda a, dtype=None, order="K", subok=True, shape=None, device=None: make_like(
    "ones", a, None, dtype, shape
)
HANDLERS["empty_like"] = lambda a, dtype=None, order="K", subok=True, shape=None, device=None: make_like(
    "empty", a, None, dtype, shape
)
HANDLERS["full_like"] = lambda a, fill_value, dtype=None, order="K", subok=True, shape=None, device=None: make_like(
    "full", a, fill_value, dtype, shape
)


_ORIG_PAD = np.pad


@handles("pad")
def _pad(array, pad_width, mode="constant", **kw):
    o = to_obj(array)
    ldt = ldt_of(array) or F64
    if mode == "empty":
        idx = _ORIG_PAD(np.arange(o.size).reshape(o.shape), pad_width, mode="constant", constant_values=-1)
        out = np.empty(idx.shape, dtype=object)
        flat = o.reshape(-1)
        for i in np.ndindex(*idx.shape):
            out[i] = flat[idx[i]] if idx[i] >= 0 else E.garbage()
        return wrap_keep(out, ldt)
    if mode in ("edge", "wrap", "reflect", "symmetric"):
        idx = _ORIG_PAD(np.arange(o.size).reshape(o.shape), pad_width, mode=mode, **kw)
        return wrap_keep(o.reshape(-1)[idx], ldt)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        if np.ndim(cv) == 0:
            idx = _ORIG_PAD(np.arange(o.size).reshape(o.shape), pad_width, mode="constant", constant_values=-1)
            out = np.empty(idx.shape, dtype=object)
            flat = o.reshape(-1)
            c = cast_el(ldt)(_lift_el(cv))
            for i in np.ndindex(*idx.shape):
                out[i] = flat[idx[i]] if idx[i] >= 0 else c
            return wrap_keep(out, ldt)
    raise Unsupported(f"np.pad mode {mode}")


@handles("meshgrid")
def _meshgrid(*xi, copy=True, sparse=False, indexing="xy"):
    outs = np.meshgrid(*[to_obj(x) for x in xi], copy=copy, sparse=sparse, indexing=indexing)
    return tuple(wrap_keep(np.array(o), ldt_of(x) or F64) for o, x in zip(outs, xi))


@handles("round", "around")
def _round(a, decimals=0, out=None):
    """to the nearest multiple; exact ties (measure zero) go up instead of to even"""
    k = 10**decimals if decimals >= 0 else E.const_q(Fraction(1, 10**-decimals))
    r = np.floor(to_sym(a) * k + E.const_q(Fraction(1, 2))) / k
    if out is not None:
        out[...] = r
        return out
    return r


@handles("diff")
def _diff(a, n=1, axis=-1, **kw):
    a = to_sym(a)
    for _ in range(n):
        lo = [slice(None)] * a.ndim
        hi = [slice(None)] * a.ndim
        lo[axis], hi[axis] = slice(None, -1), slice(1, None)
        a = a[tuple(hi)] - a[tuple(lo)]
    return a


def _ranks(x, edges, right):
    """for each x the number of edges before it (edges <= x when right, < x otherwise)"""
    e = list(to_sym(edges))
    v = to_sym(x)
    r = 0
    for b in e:
        r = r + ((v >= b) if right else (v > b)).astype(int)
    return r


@handles("searchsorted")
def _searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    r = _ranks(v, a, side == "right")
    return r[()] if isinstance(r, np.ndarray) and not r.ndim else r


@handles("digitize")
def _digitize(x, bins, right=False):
    b = np.asarray(_concretize(to_obj(bins)), dtype=float)
    if len(b) > 1 and b[0] > b[-1]:
        raise Unsupported("digitize with decreasing bins")
    r = _ranks(x, bins, not right)
    return r[()] if isinstance(r, np.ndarray) and not r.ndim else r


@handles("histogram")
def _histogram(a, bins=10, range=None, density=None, weights=None):
    if np.ndim(bins) == 0 or density:
        raise Unsupported("histogram")
    x = np.ravel(to_sym(a))
    w = 1 if weights is None else np.ravel(to_sym(weights))
    b = list(to_sym(bins))
    out = []
    for k in builtins.range(len(b) - 1):
        hit = (x >= b[k]) & ((x <= b[k + 1]) if k == len(b) - 2 else (x < b[k + 1]))
        out.append(np.sum(np.where(hit, w, 0)))
    return to_sym(out), to_sym(bins)


@handles("argsort")
def _argsort(a, axis=-1, **kw):
    import functools

    def order(v):
        return sorted(builtins.range(len(v)), key=functools.cmp_to_key(lambda i, j: -1 if v[i] < v[j] else (1 if v[j] < v[i] else 0)))

    o = to_obj(a)
    if axis is None:
        o, axis = o.reshape(-1), 0
    o = np.moveaxis(o, axis, -1)
    r = np.empty(o.shape, dtype=int)
    for idx in np.ndindex(*o.shape[:-1]):
        r[idx] = order(list(o[idx]))
    return np.moveaxis(r, -1, axis)


@handles("interp", "unique", "lexsort")
def _unsupported(*a, **k):
    raise Unsupported("numpy function on symbolic array")


@handles("shape")
def _shape(a):
    return plain(a).shape if isinstance(a, np.ndarray) else ()


@handles("ndim")
def _ndim(a):
    return plain(a).ndim if isinstance(a, np.ndarray) else 0


@handles("size")
def _size(a, axis=None):
    x = plain(a)
    return np.size(x, axis)


@handles("iscomplexobj")
def _isc(x):
    return False


@handles("isrealobj")
def _isr(x):
    return True


@handles("result_type")
def _result_type(*args):
    return np.result_type(*[ldt_of(x) if ldt_of(x) is not None else x for x in args])


@handles("can_cast")
def _can_cast(a, b, casting="safe"):
    return np.can_cast(ldt_of(a) or a, b, casting)


@handles("may_share_memory", "shares_memory")
def _share(a, b, *k):
    return np.shares_memory(plain(a), plain(b))


@handles("array_str", "array_repr", "array2string")
def _repr(a, *k, **kw):
    return f"SymArray(shape={a.shape}, dtype={a.ldt})"


@handles("real")
def _real(a):
    return a


@handles("sinc", "linalg.norm", "norm")
def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    return dispatch_ufunc(np.sqrt, "__call__", (HANDLERS["sum"](x * x, axis=axis, keepdims=keepdims),), {})


@handles("apply_along_axis")
def _aaa(func1d, axis, arr, *args, **kw):
    a = np.moveaxis(to_obj(arr), axis, -1)
    res = None
    for idx in np.ndindex(*a.shape[:-1]):
        r = to_obj(func1d(wrap_keep(a[idx].copy(), ldt_of(arr)), *args, **kw))
        if res is None:
            res = np.empty(a.shape[:-1] + r.shape, dtype=object)
        res[idx] = r
    if res.ndim == a.ndim:
        res = np.moveaxis(res, -1, axis)
    return wrap(res, ldt_of(arr))


@handles("convolve")
def _convolve(a, v, mode="full"):
    a, v = to_obj_num(a), to_obj_num(v)
    n, m = len(a), len(v)
    full = [E.ZERO] * (n + m - 1)
    for i in range(n):
        for j in range(m):
            full[i + j] = full[i + j] + a[i] * v[j]
    if mode == "valid":
        full = full[min(n, m) - 1 : max(n, m)]
    elif mode == "same":
        s = (min(n, m) - 1) // 2
        full = full[s : s + max(n, m)]
    out = np.empty(len(full), dtype=object)
    out[:] = full
    return wrap_keep(out, F64)


@handles("correlate")
def _correlate(a, v, mode="valid"):
    return _convolve(a, to_obj(v)[::-1], mode)


@handles("einsum")
def _einsum(*ops, optimize=False, **kw):
    r = np.einsum(*[to_obj_num(o) if not isinstance(o, str) else o for o in ops], **kw)
    r = _asobj(r, getattr(r, "shape", ()))
    return wrap(r, F64)


def dispatch_function(func, args, kwargs):
    h = HANDLERS.get(func.__name__)
    if h is not None:
        return h(*args, **kwargs)
    # default: data movement / object arithmetic on the plain object arrays
    seen = []

    def un(x):
        if isinstance(x, SymArray):
            seen.append(x.ldt)
            return x.view(np.ndarray)
        if isinstance(x, (S, B)):
            seen.append(ldt_of(x))
            a = np.empty((), dtype=object)
            a[()] = x
            return a
        if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "fb":
            seen.append(x.dtype)
            return to_obj(x)
        if isinstance(x, list):
            return [un(v) for v in x]
        if isinstance(x, tuple):
            return tuple(un(v) for v in x)
        return x

    def un_arg(x):
        # index/shape-like plain values stay as they are
        return un(x) if _has_sym(x) or isinstance(x, (list, tuple)) and _has_sym(x) else x

    outkw = kwargs.pop("out", None) if "out" in kwargs else None
    a2 = tuple(un_arg(x) for x in args)
    k2 = {k: un_arg(v) for k, v in kwargs.items()}
    r = func(*a2, **k2)
    ldt = seen[0] if seen else F64
    for d in seen[1:]:
        ldt = np.result_type(ldt, d)

    def re(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            flat = x.reshape(-1)
            if len(flat) and not all(type(v) is S or type(v) is B or (type(v) is float and not math.isfinite(v)) for v in flat):
                x = _asobj(_lift_uf(x), x.shape)
            return wrap(x, ldt)
        if isinstance(x, (list, tuple)) and builtins.any(isinstance(v, np.ndarray) for v in x):
            return type(x)(re(v) for v in x)
        return x

    r = re(r)
    if outkw is not None:
        outkw[...] = r
        return outkw
    return r


def to_sym(x):
    if isinstance(x, SymArray):
        return x
    d = ldt_of(x)
    a = to_obj(x)
    if d is None or d == object:
        if a.size and builtins.all(type(v) is B for v in a.flat):
            d = BOOL
        elif isinstance(x, int) or (isinstance(x, (list, tuple)) and not _has_sym(x) and np.asarray(x).dtype.kind in "iu"):
            d = I64
        else:
            d = F64
    return wrap_keep(a, d)


# ---------------------------------------------------------------- the array class
class SymArray(np.ndarray):
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        self.ldt = getattr(obj, "ldt", F64)

    @property
    def dtype(self):
        return self.ldt

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, dict(kwargs))

    # ---- indexing
    def _fix_index(self, idx):
        """(index with concrete parts, symbolic mask or None)"""
        parts = idx if isinstance(idx, tuple) else (idx,)
        if not builtins.any(isinstance(p, (SymArray, S, B)) for p in parts):
            return idx, None
        out = []
        for p in parts:
            if isinstance(p, SymArray):
                o = p.view(np.ndarray)
                if p.ldt == BOOL:
                    if builtins.all(v.kind == "const" for v in o.flat):
                        out.append(np.frompyfunc(lambda v: v.data, 1, 1)(o).astype(bool))
                    elif len(parts) == 1:
                        return None, o
                    else:
                        out.append(np.frompyfunc(bool, 1, 1)(o).astype(bool))
                else:
                    out.append(np.frompyfunc(int, 1, 1)(o).astype(int))
            elif isinstance(p, S):
                out.append(p.__index__())
            elif isinstance(p, B):
                out.append(bool(p))
            else:
                out.append(p)
        return (tuple(out) if isinstance(idx, tuple) else out[0]), None

    def __getitem__(self, idx):
        idx, mask = self._fix_index(idx)
        if mask is not None:
            return SymSel(self.copy(), mask)
        return super().__getitem__(idx)

    def __setitem__(self, idx, val):
        idx, mask = self._fix_index(idx)
        o = self.view(np.ndarray)
        if mask is not None:
            if isinstance(val, SymSel):
                if val.matches(mask, o.shape):
                    v = cast(val.full.view(np.ndarray), val.ldt, self.ldt)
                    mm = mask.reshape(mask.shape + (1,) * (o.ndim - mask.ndim))
                    o[...] = _asobj(np.frompyfunc(el_ite, 3, 1)(np.broadcast_to(mm, o.shape), v, o), o.shape)
                    return
                val = val.forked()
            v = to_obj(val)
            if v.ndim and not (v.size == 1):
                m = np.frompyfunc(bool, 1, 1)(mask).astype(bool)
                o[m] = cast(v, None, self.ldt)
                return
            v = cast(v.reshape(()), None, self.ldt)[()]
            mm = mask.reshape(mask.shape + (1,) * (o.ndim - mask.ndim))
            o[...] = _asobj(np.frompyfunc(lambda c, x: el_ite(c, v, x), 2, 1)(np.broadcast_to(mm, o.shape), o), o.shape)
            return
        src = ldt_of(val)
        v = cast(to_obj(val), src if isinstance(val, SymArray) else None, self.ldt)
        o[idx] = v if v.ndim else v[()]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # ---- methods
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        d = np.dtype(dtype)
        r = cast(self.view(np.ndarray), self.ldt, d)
        if copy and r.base is not None or r is self.view(np.ndarray):
            r = r.copy()
        return wrap_keep(np.array(r), d)

    def copy(self, order="C"):
        return wrap_keep(self.view(np.ndarray).copy(), self.ldt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        return HANDLERS["sum"](self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, initial=initial, where=where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return HANDLERS["prod"](self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **kw)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return HANDLERS["max"](self, axis=axis, out=out, keepdims=keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return HANDLERS["min"](self, axis=axis, out=out, keepdims=keepdims, **kw)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return HANDLERS["any"](self, axis=axis, out=out, keepdims=keepdims, **kw)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return HANDLERS["all"](self, axis=axis, out=out, keepdims=keepdims, **kw)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _mean(self, axis=axis, keepdims=keepdims, **kw)

    def argmin(self, axis=None, out=None, **kw):
        return _argmin(self, axis=axis)

    def argmax(self, axis=None, out=None, **kw):
        return _argmax(self, axis=axis)

    def clip(self, min=None, max=None, out=None, **kw):
        return _clip(self, min, max, out)

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.reshape(-1) if axis is None else self
        return dispatch_ufunc(np.add, "accumulate", (a,), dict(axis=0 if axis is None else axis))

    def round(self, decimals=0, out=None):
        return self

    def dot(self, b):
        return np.dot(self, b)

    def nonzero(self):
        return _nonzero(self)

    def ptp(self, axis=None, **kw):
        return _ptp(self, axis)

    def sort(self, axis=-1, **kw):
        self[...] = _sort(self, axis)

    def conj(self):
        return self

    @property
    def real(self):
        return self

    def __repr__(self):
        return f"SymArray{self.shape}:{self.ldt}"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __float__(self):
        return float(self.view(np.ndarray).item())

    def __int__(self):
        return int(self.view(np.ndarray).item())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.view(np.ndarray).item())


class SymSel(np.lib.mixins.NDArrayOperatorsMixin):
    """the elements of an array selected by a symbolic mask: elementwise arithmetic on selections by the same mask keeps
    the full arrays, and storing it through the same mask merges; anything else forks on the mask"""

    __array_priority__ = 600

    def __init__(self, full, mask):
        self.full, self.mask = full, mask

    @property
    def ldt(self):
        return self.full.ldt

    dtype = ldt

    def matches(self, mask, shape):
        return self.full.shape == shape and self.mask.shape == mask.shape and builtins.all(
            x is y for x, y in zip(self.mask.flat, mask.flat))

    def forked(self):
        if not hasattr(self, "_forked"):
            m = np.frompyfunc(bool, 1, 1)(self.mask).astype(bool)
            self._forked = np.ndarray.__getitem__(self.full, m)
        return self._forked

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        def ok(x):
            return x.matches(self.mask, self.full.shape) if isinstance(x, SymSel) else np.ndim(x) == 0

        if method == "__call__" and not kwargs and builtins.all(ok(x) for x in inputs):
            r = dispatch_ufunc(ufunc, method, [x.full if isinstance(x, SymSel) else x for x in inputs], {})
            return SymSel(r, self.mask)
        f = [x.forked() if isinstance(x, SymSel) else x for x in inputs]
        return getattr(ufunc, method)(*f, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        def un(x):
            if isinstance(x, SymSel):
                return x.forked()
            return type(x)(un(v) for v in x) if isinstance(x, (list, tuple)) else x

        if func.__name__ == "where" and len(args) == 3 and not kwargs:
            if builtins.all(x.matches(self.mask, self.full.shape) if isinstance(x, SymSel) else np.ndim(x) == 0 for x in args):
                return SymSel(_where(*[x.full if isinstance(x, SymSel) else x for x in args]), self.mask)
        return func(*un(args), **{k: un(v) for k, v in kwargs.items()})

    def copy(self):
        return SymSel(self.full.copy(), self.mask)

    def astype(self, *a, **k):
        return SymSel(self.full.astype(*a, **k), self.mask)

    def __getitem__(self, i):
        return self.forked()[i]

    def __len__(self):
        return len(self.forked())

    def __iter__(self):
        return iter(self.forked())

    def __getattr__(self, k):
        if k.startswith("__") or k == "_forked":
            raise AttributeError(k)
        return getattr(self.forked(), k)


# ---------------------------------------------------------------- scipy.ndimage model
def _filter_model(best):
    def f(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, axes=None, **kw):
        a = to_obj(input)
        mode = {"grid-wrap": "wrap", "grid-constant": "constant", "grid-mirror": "reflect"}.get(mode, mode)
        if axes is not None:
            axes = (axes,) if np.ndim(axes) == 0 else tuple(axes)
            if footprint is not None or np.ndim(origin):
                raise Unsupported("ndimage axes with a footprint")
            full = [1] * a.ndim
            for k, ax in enumerate(axes):
                full[ax] = size if np.ndim(size) == 0 else size[k]
            size = tuple(full)
            origin = tuple(origin if full[k] > 1 else 0 for k in range(a.ndim))
        if footprint is None:
            sz = (size,) * a.ndim if np.ndim(size) == 0 else tuple(size)
            fp = np.ones(sz, dtype=bool)
        else:
            fp = np.asarray(_concretize(to_obj(footprint)), dtype=float) != 0
        org = (origin,) * a.ndim if np.ndim(origin) == 0 else tuple(origin)
        lo = [s // 2 + o for s, o in zip(fp.shape, org)]
        hi = [s - 1 - l for s, l in zip(fp.shape, lo)]
        pw = list(zip([max(0, v) for v in lo], [max(0, v) for v in hi]))
        if mode == "constant":
            p = _pad(wrap_keep(a, F64), pw, mode="constant", constant_values=cval)
        else:
            m = {"reflect": "symmetric", "mirror": "reflect", "nearest": "edge", "wrap": "wrap"}[mode]
            p = _pad(wrap_keep(a, F64), pw, mode=m)
        p = p.view(np.ndarray)
        offs = [tuple(i) for i in np.argwhere(fp)]
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            out[idx] = best([p[tuple(i + o for i, o in zip(idx, of))] for of in offs])
        r = wrap_keep(out, ldt_of(input) or F64)
        if output is not None:
            if isinstance(output, np.ndarray):
                output[...] = r
                return output
            return r.astype(output)
        return r

    return f


_max_model = _filter_model(lambda v: _fold("maximum", v, False))
_min_model = _filter_model(lambda v: _fold("minimum", v, False))


def _grey(model, sign):
    def f(input, size=None, footprint=None, structure=None, output=None, mode="reflect", cval=0.0, origin=0, axes=None):
        if structure is not None:
            raise Unsupported("non-flat structuring element")
        n = input.ndim
        sz = np.shape(footprint) if footprint is not None else ((size,) * n if np.ndim(size) == 0 else tuple(size))
        if np.any(origin) or (sign > 0 and (footprint is not None or builtins.any(k % 2 == 0 for k in sz))):
            raise Unsupported("grey morphology")
        return model(input, size=size, footprint=footprint, output=output, mode=mode, cval=cval, axes=axes)

    return f


def _binary(dilate):
    def f(input, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0, brute_force=False, **kw):
        import scipy.ndimage as ndi

        if mask is not None or iterations < 1 or np.any(origin) or kw:
            raise Unsupported("binary morphology")
        if structure is None:
            structure = ndi.generate_binary_structure(input.ndim, 1)
        st = np.asarray(_concretize(to_obj(structure)), dtype=float) != 0
        if builtins.any(k % 2 == 0 for k in st.shape):
            raise Unsupported("even structuring element")
        if dilate:
            st = st[(slice(None, None, -1),) * st.ndim]
        m = _filter_model((lambda v: E.bor(*[E.blift(x) for x in v])) if dilate else (lambda v: E.band(*[E.blift(x) for x in v])))
        a = (input != 0) if ldt_of(input) != BOOL else input
        a = to_obj(a)
        pad = E.TRUE if border_value else E.FALSE
        for _ in range(iterations):
            w = [k // 2 for k in st.shape]
            big = np.empty([n + 2 * k for n, k in zip(a.shape, w)], dtype=object)
            big[...] = pad
            mid = tuple(slice(k, k + n) for n, k in zip(a.shape, w))
            big[mid] = a
            a = m(wrap_keep(big, BOOL), footprint=st, mode="nearest").view(np.ndarray)[mid].copy()
        r = wrap_keep(a, BOOL)
        if isinstance(output, np.ndarray):
            output[...] = r
            return output
        return r

    return f


def _uniform(input, size=3, output=None, mode="reflect", cval=0.0, origin=0, axes=None):
    m = _filter_model(lambda v: sum((_num(x) for x in v), E.ZERO).scale(Fraction(1, len(v))))
    return m(input, size=size, output=output, mode=mode, cval=cval, origin=origin, axes=axes)


def _correlate_nd(input, weights, output=None, mode="reflect", cval=0.0, origin=0, axes=None, **kw):
    w = np.asarray(_concretize(to_obj(weights)), dtype=float)
    if mode in ("grid-constant", "grid-wrap", "grid-mirror") or axes is not None:
        raise Unsupported("ndimage mode")
    k = [E.const(v) for v in w.flat]
    m = _filter_model(lambda v: sum((a * b for a, b in zip(k, v)), E.ZERO))
    return m(input, footprint=np.ones(w.shape), output=output, mode=mode, cval=cval, origin=origin)


def _convolve_nd(input, weights, output=None, mode="reflect", cval=0.0, origin=0, axes=None, **kw):
    w = np.asarray(_concretize(to_obj(weights)), dtype=float)
    if builtins.any(n % 2 == 0 for n in w.shape) or np.any(origin):
        raise Unsupported("even convolution")
    return _correlate_nd(input, w[(slice(None, None, -1),) * w.ndim], output, mode, cval, 0, axes)


def _along(model):
    def f(input, weights, axis=-1, output=None, mode="reflect", cval=0.0, origin=0):
        w = np.asarray(_concretize(to_obj(weights)), dtype=float)
        sh = [1] * input.ndim
        sh[axis] = len(w)
        if origin:
            raise Unsupported("ndimage origin")
        return model(input, w.reshape(sh), output=output, mode=mode, cval=cval)

    return f


def _filter1d(model):
    def f(input, size, axis=-1, output=None, mode="reflect", cval=0.0, origin=0):
        sz = [1] * input.ndim
        sz[axis] = size
        og = [0] * input.ndim
        og[axis] = origin
        return model(input, size=tuple(sz), output=output, mode=mode, cval=cval, origin=tuple(og))

    return f


# ---------------------------------------------------------------- process-wide patches
PREFIXES = ("fvhoe", "props", "symx.harness")


def _caller_is_ours(depth=2):
    return sys._getframe(depth).f_globals.get("__name__", "").startswith(PREFIXES)


_installed = False


def install():
    """patch numpy/scipy/math so that code under /repo computes on symbolic values when ACTIVE"""
    global _installed
    if _installed:
        return
    _installed = True
    import numbers
    import scipy.ndimage as ndi

    numbers.Real.register(S)

    def patch_create(name, kind):
        orig = getattr(np, name)

        def f(shape, *a, **k):
            if ACTIVE[0] and _caller_is_ours():
                fill = None
                a = list(a)
                if kind == "full":
                    fill = a.pop(0) if a else k.pop("fill_value")
                dt = a[0] if a else k.get("dtype", None)
                if dt is None:
                    d = F64
                    if kind == "full":
                        d = ldt_of(fill) or np.asarray(fill).dtype
                        d = F64 if d == object else d
                else:
                    d = np.dtype(dt)
                return filled(kind, shape, d, fill)
            return orig(shape, *a, **k)

        f.__name__ = name
        setattr(np, name, f)

    for n in ("zeros", "ones", "empty", "full"):
        patch_create(n, n)

    def patch_like(name, kind):
        orig = getattr(np, name)

        def f(a, *args, **k):
            if ACTIVE[0] and _caller_is_ours() and not isinstance(a, SymArray):
                fill = None
                args = list(args)
                if kind == "full":
                    fill = args.pop(0) if args else k.pop("fill_value")
                dt = args[0] if args else k.get("dtype", None)
                return make_like(kind, a, fill, dt, k.get("shape"))
            return orig(a, *args, **k)

        f.__name__ = name
        setattr(np, name, f)

    for n in ("zeros", "ones", "empty", "full"):
        patch_like(n + "_like", n)

    for name in ("array", "asarray", "ascontiguousarray", "asanyarray", "asfarray"):
        orig = getattr(np, name, None)
        if orig is None:
            continue

        def f(x, *a, _orig=orig, _name=name, **k):
            if ACTIVE[0] and (isinstance(x, (S, B, SymArray)) or (isinstance(x, (list, tuple)) and _has_sym(x))):
                s = to_sym(x)
                dt = a[0] if a and not isinstance(a[0], str) else k.get("dtype")
                if _name == "array" and isinstance(x, SymArray) and k.get("copy", True):
                    s = s.copy()
                if dt is not None and np.dtype(dt) != object:
                    s = s.astype(dt)
                nd = k.get("ndmin", 0)
                while s.ndim < nd:
                    s = s[np.newaxis]
                return s
            return _orig(x, *a, **k)

        f.__name__ = name
        setattr(np, name, f)

    orig_lin = np.linspace

    def linspace(start, stop, *a, **k):
        if ACTIVE[0] and (is_sym(start) or is_sym(stop) or _caller_is_ours()):
            return _linspace(start, stop, *a, **k)
        return orig_lin(start, stop, *a, **k)

    np.linspace = linspace

    orig_arange = np.arange

    def arange(*a, **k):
        if ACTIVE[0] and builtins.any(is_sym(v) for v in a):
            a = [v.const() if isinstance(v, S) and v.is_const() else v for v in a]
            if builtins.any(is_sym(v) for v in a):
                raise Unsupported("arange of symbolic bounds")
        return orig_arange(*a, **k)

    np.arange = arange

    for name, mdl in (("correlate", _correlate_nd), ("convolve", _convolve_nd), ("correlate1d", _along(_correlate_nd)),
                      ("convolve1d", _along(_convolve_nd)), ("grey_dilation", _grey(_max_model, 1)),
                      ("grey_erosion", _grey(_min_model, -1)), ("binary_dilation", _binary(True)),
                      ("binary_erosion", _binary(False)), ("uniform_filter", _uniform), ("uniform_filter1d", _filter1d(_uniform))):
        def f(input, *a, _orig=getattr(ndi, name), _mdl=mdl, **k):
            return (_mdl if isinstance(input, SymArray) else _orig)(input, *a, **k)

        f.__name__ = name
        setattr(ndi, name, f)

    for name, model in (("maximum_filter", _max_model), ("minimum_filter", _min_model)):
        for suffix, mdl in (("", model), ("1d", _filter1d(model))):
            orig = getattr(ndi, name + suffix)

            def f(input, *a, _orig=orig, _mdl=mdl, **k):
                if isinstance(input, SymArray):
                    return _mdl(input, *a, **k)
                return _orig(input, *a, **k)

            f.__name__ = name + suffix
            setattr(ndi, name + suffix, f)

    for name in ("sqrt", "fabs", "sin", "cos", "tan", "exp", "log", "atan", "asin", "acos", "tanh", "isfinite",
                 "isnan", "isinf", "floor", "ceil", "trunc", "hypot", "copysign", "pow", "prod", "fsum", "isclose"):
        orig = getattr(math, name)
        imp = {
            "sqrt": lambda a: el_sqrt(a),
            "fabs": lambda a: abs(a),
            "isfinite": lambda a: True,
            "isnan": lambda a: False,
            "isinf": lambda a: False,
            "floor": E.floor,
            "ceil": E.ceil,
            "trunc": E.trunc,
            "hypot": lambda *a: el_sqrt(sum(E.lift(v) * E.lift(v) for v in a)),
            "copysign": lambda a, b: el_copysign(E.lift(a), E.lift(b)),
            "pow": lambda a, b: E.lift(a) ** b,
            "atan": lambda a: E.uf("arctan", a),
            "asin": lambda a: E.uf("arcsin", a),
            "acos": lambda a: E.uf("arccos", a),
            "fsum": lambda xs: sum(xs, E.ZERO),
            "prod": lambda xs, start=1: np.multiply.reduce(to_sym(list(xs))) * start,
            "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(E.lift(a) - b)
            <= E.smax(abs(E.lift(a)) * rel_tol, abs(E.lift(b)) * rel_tol, E.const(abs_tol)),
        }.get(name) or (lambda a, _n=name: E.uf(_n, a))

        def f(*a, _orig=orig, _imp=imp, **k):
            if builtins.any(_has_sym(v) for v in a):
                return _imp(*a, **k)
            return _orig(*a, **k)

        f.__name__ = name
        setattr(math, name, f)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or type(x) is S

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class sym_float(metaclass=_FloatMeta):
    """stands for the builtin float inside fvhoe modules"""

    dtype = F64  # np.dtype(sym_float) is float64

    def __new__(cls, x=0.0):
        if isinstance(x, SymArray) and x.size == 1:
            x = x.view(np.ndarray).item()
        if isinstance(x, B):
            return E.b2r(x)
        if isinstance(x, S):
            return x
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class sym_int(metaclass=_IntMeta):
    dtype = I64

    def __new__(cls, x=0, *a):
        if isinstance(x, SymArray) and x.size == 1:
            x = x.view(np.ndarray).item()
        if isinstance(x, B):
            return E.b2r(x)
        if isinstance(x, S):
            return int(x.const()) if x.is_const() else E.trunc(x)
        return builtins.int(x, *a)


class _UfuncProxy:
    """a ufunc whose list and tuple operands may hold symbolic values (numpy would turn them into plain object arrays)"""

    def __init__(self, u):
        self._u = u

    def __getattr__(self, name):
        a = getattr(self._u, name)
        if name not in ("reduce", "accumulate", "outer", "at", "reduceat"):
            return a
        return lambda *x, **k: a(*[_list_sym(v) for v in x], **k)

    def __call__(self, *x, **k):
        return self._u(*[_list_sym(v) for v in x], **k)

    def __eq__(self, o):
        return o is self or o is self._u

    def __hash__(self):
        return hash(self._u)


def _list_sym(v):
    return to_sym(v) if isinstance(v, (list, tuple)) and _has_sym(v) else v


_LISTY = (
    "sum prod max min amax amin mean any all median average var std nansum nanmax nanmin cumsum cumprod ptp argmax argmin "
    "argsort sort diff ravel reshape transpose squeeze expand_dims flip roll swapaxes moveaxis count_nonzero nonzero "
    "flatnonzero argwhere clip allclose isclose array_equal copy round around repeat tile dot take isin unique"
).split()


class _NumpyProxy(__import__("types").ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc) or name in _LISTY:
            c = self._cache
            if c.get(name, (None,))[0] is not v:
                c[name] = (v, _UfuncProxy(v) if isinstance(v, np.ufunc) else _listy(v))
            return c[name][1]
        return v


def _listy(f):
    def g(*x, **k):
        return f(*[_list_sym(v) for v in x], **k)

    g.__name__ = f.__name__
    return g


def _flat1(x):
    return x.view(np.ndarray).item() if isinstance(x, SymArray) and x.size == 1 and not x.ndim else x


def _sym_extreme(orig, pick):
    def f(*a, **k):
        if len(a) == 1 and not k:
            xs = list(a[0])
        else:
            xs = list(a)
        xs = [_flat1(x) for x in xs]
        if "key" in k or not builtins.any(isinstance(x, S) for x in xs):
            return orig(xs, **k) if len(a) == 1 else orig(*xs, **k)
        if builtins.all(isinstance(x, (S, B, builtins.int, builtins.float, np.number)) for x in xs) and not builtins.any(
            isinstance(x, builtins.float) and not math.isfinite(x) for x in xs
        ):
            return pick(*[E.lift(_num(x) if isinstance(x, B) else x) for x in xs])
        return orig(xs)

    return f


def _sym_any(stop):
    def f(xs):
        acc = []
        for x in xs:
            x = _flat1(x)
            if isinstance(x, S):
                x = x != 0
            if isinstance(x, B) and x.kind != "const":
                acc.append(x)
            elif builtins.bool(x) == stop:
                return stop
        if not acc:
            return not stop
        return E.bor(*acc) if stop else E.band(*acc)

    return f


NUMPY = _NumpyProxy()
sym_max = _sym_extreme(builtins.max, E.smax)
sym_min = _sym_extreme(builtins.min, E.smin)
sym_any = _sym_any(True)
sym_all = _sym_any(False)


def shim_builtins():
    """give every fvhoe module float()/int()/round() that accept symbolic values"""
    for name, mod in list(sys.modules.items()):
        if name.startswith("fvhoe") and mod is not None:
            d = mod.__dict__
            d.setdefault("float", sym_float)
            d.setdefault("int", sym_int)
            d.setdefault("max", sym_max)
            d.setdefault("min", sym_min)
            d.setdefault("any", sym_any)
            d.setdefault("all", sym_all)
            for k, v in list(d.items()):
                if v is np:
                    d[k] = NUMPY
                elif isinstance(v, np.ufunc):
                    d[k] = _UfuncProxy(v)
