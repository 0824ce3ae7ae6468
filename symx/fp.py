"""symbolic IEEE doubles (round to nearest even) for scalar control logic; conditions join the ordinary path exploration"""
import numpy as np
import z3

from symx import expr as E

SORT = z3.Float64()
RM = z3.RNE()


def val(x):
    if isinstance(x, FP):
        return x.t
    if isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool):
        return z3.FPVal(float(x), SORT)
    if isinstance(x, E.S) and x.is_const():
        return z3.FPVal(float(x.const()), SORT)
    return None


def cond(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return E.TRUE
    if z3.is_false(t):
        return E.FALSE
    return E._mk_b("fp", ("fp", t.get_id()), (t,))


def _bin(f, swap=False):
    def op(self, o):
        o = val(o)
        if o is None:
            return NotImplemented
        return FP(f(RM, o, self.t) if swap else f(RM, self.t, o))

    return op


def _cmp(f):
    def op(self, o):
        o = val(o)
        if o is None:
            return NotImplemented
        return cond(f(self.t, o))

    return op


class FP:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = z3.simplify(t)

    __add__, __radd__ = _bin(z3.fpAdd), _bin(z3.fpAdd, True)
    __sub__, __rsub__ = _bin(z3.fpSub), _bin(z3.fpSub, True)
    __mul__, __rmul__ = _bin(z3.fpMul), _bin(z3.fpMul, True)
    __truediv__, __rtruediv__ = _bin(z3.fpDiv), _bin(z3.fpDiv, True)
    __lt__, __le__, __gt__, __ge__, __eq__ = map(_cmp, (z3.fpLT, z3.fpLEQ, z3.fpGT, z3.fpGEQ, z3.fpEQ))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else E.bnot(r)

    def __hash__(self):
        return 0

    def __neg__(self):
        return FP(-self.t)

    def __abs__(self):
        return FP(z3.fpAbs(self.t))

    def __float__(self):
        raise E.Unsupported("float() of a symbolic double")

    def __format__(self, spec):
        return "fp"


def value(m, v):
    """Fraction of a model value"""
    from fractions import Fraction

    x = m.eval(z3.fpToReal(m.eval(v, model_completion=True)), model_completion=True)
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return Fraction(0)
