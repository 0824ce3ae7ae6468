"""
Hash-consed symbolic real / boolean terms used to execute /repo's code symbolically.

S : a real-valued term in "sum of monomials over atoms" normal form with exact rational
    coefficients.  An atom is a variable, an opaque multi-term factor ("poly"), a square
    root, an absolute value, a maximum, an if-then-else, a sign, or an uninterpreted function.
B : a boolean term.

Every rewrite applied here is an identity of real arithmetic (division by a term is recorded
as a side condition: the term is nonzero).  Floats met by the code are read as the simplest
rational within two units in the last place ("snap"): 1/24 written as a float is the rational 1/24.
"""

from fractions import Fraction
from functools import lru_cache
import math

EXPAND = 1  # max number of terms produced when a product is multiplied out
SUBST_EQ = None


def set_expand(n):
    global EXPAND
    EXPAND = n


class Unsupported(Exception):
    """the engine cannot represent what the code did"""


# ---------------------------------------------------------------- constants
def _simplest_between(lo, hi):
    """simplest fraction in [lo, hi], 0 < lo <= hi (Stern-Brocot)"""
    a, b = [], None
    while True:
        fl = lo.numerator // lo.denominator
        if fl == lo:
            a.append(fl)
            break
        if fl + 1 <= hi:
            a.append(fl + 1)
            break
        a.append(fl)
        lo, hi = 1 / (hi - fl), 1 / (lo - fl)
    out = Fraction(a[-1])
    for q in reversed(a[:-1]):
        out = q + 1 / out
    return out


@lru_cache(maxsize=200000)
def snap(x):
    """rational meant by the float x"""
    f = Fraction(x)
    if f.denominator <= 1 << 12:
        return f
    neg = f < 0
    if neg:
        f = -f
    eps = f * Fraction(1, 1 << 51)
    g = _simplest_between(f - eps, f + eps)
    if g.denominator > 10**13 and g.denominator * 4 > f.denominator:
        g = f
    return -g if neg else g


def cst(x):
    """python/numpy number -> int or Fraction (ints kept as ints)"""
    if type(x) is int or type(x) is Fraction:
        return x
    if isinstance(x, bool):
        return int(x)
    try:
        import numpy as np

        if isinstance(x, (np.integer, np.bool_)):
            return int(x)
    except ImportError:
        pass
    if isinstance(x, (int,)):
        return int(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise OverflowError(x)
    f = snap(x)
    return f.numerator if f.denominator == 1 else f


ROUND_BITS = [0]  # when set, coefficients longer than twice this are rounded to this many significant bits


def _norm(q):
    if type(q) is Fraction:
        if q.denominator == 1:
            return q.numerator
        if ROUND_BITS[0] and q.denominator.bit_length() > 2 * ROUND_BITS[0]:
            return _round_q(q, ROUND_BITS[0])
    return q


_OFFSET = Fraction(6180339887, 10**10)  # not one half: values that were rounded before sit on ties of a binary grid


def _round_q(q, bits):
    k = bits - (abs(q.numerator).bit_length() - q.denominator.bit_length())
    if k <= 0:
        return int(q)
    sg = 1 if q > 0 else -1
    f = Fraction(sg * math.floor(abs(q) * (1 << k) + _OFFSET), 1 << k)
    return f.numerator if f.denominator == 1 else f


def _div(a, b):
    return _norm(Fraction(a) / b)


# ---------------------------------------------------------------- atoms and monomials
class Atom:
    __slots__ = ("id", "kind", "data", "taint", "depth")

    def __repr__(self):
        if self.kind == "var":
            return self.data[0]
        return f"<{self.kind}#{self.id}>"


ATOMS = []
_atom_table = {}
MONOS = [()]  # id -> tuple((atom_id, exp), ...)
_mono_table = {(): 0}
_mono_mul = {}
DENOMS = {}  # atom-id of a poly/var used as denominator -> S


def _mono(key):
    m = _mono_table.get(key)
    if m is None:
        m = len(MONOS)
        MONOS.append(key)
        _mono_table[key] = m
    return m


def mono_mul(m1, m2):
    if m1 == 0:
        return m2
    if m2 == 0:
        return m1
    k = (m1, m2) if m1 < m2 else (m2, m1)
    r = _mono_mul.get(k)
    if r is None:
        d = dict(MONOS[m1])
        for a, e in MONOS[m2]:
            n = d.get(a, 0) + e
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        r = _mono(tuple(sorted(d.items())))
        _mono_mul[k] = r
    return r


def mono_pow(m, n):
    return _mono(tuple((a, e * n) for a, e in MONOS[m]))


def _mk_atom(kind, data, key, taint=False):
    k = (kind, key)
    a = _atom_table.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.data = data
        a.taint = taint
        ATOMS.append(a)
        _atom_table[k] = a
    return a


def reset():
    """forget every term (between independent encodings)"""
    ATOMS.clear()
    _atom_table.clear()
    MONOS[:] = [()]
    _mono_table.clear()
    _mono_table[()] = 0
    _mono_mul.clear()
    DENOMS.clear()
    _b_table.clear()
    BNODES.clear()
    for b in (TRUE, FALSE):
        b.id = len(BNODES)
        BNODES.append(b)
        _b_table[("const", b.data)] = b
    _fresh[0] = 0


_fresh = [0]


def fresh_name(prefix):
    _fresh[0] += 1
    return f"{prefix}!{_fresh[0]}"


# ---------------------------------------------------------------- real terms
class S:
    """symbolic real: t maps monomial id -> coefficient (monomial 0 is the constant)"""

    __slots__ = ("t", "_key")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._key = None

    # ---- structure
    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and 0 in t)

    def const(self):
        return self.t.get(0, 0)

    def same(self, other):
        return self.t == other.t

    @property
    def taint(self):
        for m in self.t:
            for a, _ in MONOS[m]:
                if ATOMS[a].taint:
                    return True
        return False

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if not isinstance(o, S):
            return NotImplemented if o is None else ext_add(self, o)
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        if not b:
            return S(a)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = _norm(n)
            else:
                del r[m]
        return S(r)

    __radd__ = __add__

    def __neg__(self):
        return S({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if not isinstance(o, S):
            return NotImplemented if o is None else ext_add(self, -o)
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if not isinstance(o, S):
            return NotImplemented if o is None else ext_add(-self, o)
        return o + (-self)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            if self.taint:
                return _taint_zero(self)
            return ZERO
        return S({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        o = lift(o)
        if not isinstance(o, S):
            return NotImplemented if o is None else ext_mul(self, o)
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if not isinstance(o, S):
            if o is None:
                return NotImplemented
            if o != o:
                return o
            return ZERO
        if o.is_const():
            return self._div_const(o.const())
        if len(self.t) == len(o.t) > 1 and not self.taint:
            # (k * mono * rest) / rest
            ka, ma, ra = factor(self)
            kb, mb, rb = factor(o)
            if ra.t == rb.t:
                i = inv(o)  # records the denominator
                del i
                return _collapse(S({mono_mul(ma, mono_pow(mb, -1)): _div(ka, kb)}))
        return mul(self, inv(o))

    def _div_const(self, k):
        if k == 0:
            # numpy: x/0 -> +-inf or nan.  Decide the sign of x on this path.
            if self.is_const() and self.const() == 0:
                return math.nan
            if self > 0:
                return math.inf
            if self < 0:
                return -math.inf
            return math.nan
        return self.scale(_div(1, k))

    def __rtruediv__(self, o):
        o = lift(o)
        if not isinstance(o, S):
            if o is None:
                return NotImplemented
            return ext_mul(inv(self), o)
        return o.__truediv__(self)

    def __pow__(self, n):
        if isinstance(n, S):
            if not n.is_const():
                raise Unsupported("symbolic exponent")
            n = n.const()
        n = cst(n)
        if type(n) is int:
            if n == 0:
                return ONE
            if n < 0:
                return ONE / (self ** (-n))
            r = self
            for _ in range(n - 1):
                r = mul(r, self)
            return r
        if n.denominator == 2:
            return sqrt(self) ** n.numerator
        return uf("pow", self, const(n))

    def __rpow__(self, o):
        return uf("pow", lift(o), self)

    def __abs__(self):
        return absr(self)

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        return self - floor(self / o) * o

    # ---- comparisons
    def __gt__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, S):
            return bconst(o < 0)
        return gt0(self - o)

    def __lt__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, S):
            return bconst(o > 0)
        return gt0(o - self)

    def __ge__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, S):
            return bconst(o < 0)
        return ge0(self - o)

    def __le__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, S):
            return bconst(o > 0)
        return ge0(o - self)

    def __eq__(self, o):
        try:
            o = lift(o)
        except TypeError:
            return False
        if o is None:
            return NotImplemented
        if not isinstance(o, S):
            return FALSE
        return eq0(self - o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return True if r is False else bnot(r)

    def __hash__(self):
        # sets and dicts of the code under test must compare possibly equal values, so they may not be told apart by their hash
        return 0

    # ---- conversions
    def __bool__(self):
        return bool(bnot(eq0(self)))

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and type(self.const()) is int:
            return self.const()
        raise Unsupported("symbolic index")

    def __round__(self, n=None):
        k = 10 ** (n or 0) if (n or 0) >= 0 else Fraction(1, 10**-n)
        return floor(self.scale(k) + const_q(Fraction(1, 2))).scale(_div(1, k))

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in list(self.t.items())[:8]:
            out.append(
                f"{c}" + "".join(f"*{ATOMS[a]!r}^{e}" if e != 1 else f"*{ATOMS[a]!r}" for a, e in MONOS[m])
            )
        return " + ".join(out) + (" + ..." if len(self.t) > 8 else "")

    # numpy object loops call these
    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from symx import arr

        return arr.dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from symx import arr

        return arr.dispatch_function(func, args, kwargs)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from symx import arr

        return getattr(arr.scalar_array(self), name)


def _from_const(c):
    return S({0: c}) if c else S({})


_const_cache = {}


def const(x):
    r = _const_cache.get(x) if type(x) is int else None
    if r is None:
        c = cst(x)
        r = S({0: c}) if c else S({})
        if type(x) is int:
            _const_cache[x] = r
    return r


ZERO = const(0)
ONE = const(1)


def lift(x):
    """number-like -> S, or the float itself when it is inf/nan, or None when not a number"""
    if type(x) is S:
        return x
    if type(x) is B:
        return b2r(x)
    if hasattr(x, "__array_ufunc__") and hasattr(x, "ndim") and hasattr(x, "__setitem__"):
        return None  # an array: its own operators apply
    try:
        return const(x)
    except OverflowError:
        return float(x)
    except (TypeError, ValueError):
        return None


def ext_add(a, o):  # a : S, o : +-inf/nan
    return o


def ext_mul(a, o):
    if o != o:
        return o
    if a.is_const():
        c = a.const()
        return math.nan if c == 0 else (o if c > 0 else -o)
    if a > 0:
        return o
    if a < 0:
        return -o
    return math.nan


def var(name, taint=False):
    a = _mk_atom("var", (name,), name, taint)
    return S({_mono(((a.id, 1),)): 1})


def garbage():
    return var(fresh_name("uninit"), taint=True)


def _taint_zero(s):
    """0 * (uninitialised): unspecified in IEEE arithmetic (nan or inf may be stored there)"""
    a = _mk_atom("var", (f"taint0!{len(ATOMS)}",), ("taint0", s.key()), True)
    return S({_mono(((a.id, 1),)): 1})


def atom_s(a):
    return S({_mono(((a.id, 1),)): 1})


def leading(s):
    m = min(s.t)
    return m, s.t[m]


def factor(s):
    """s = k * monomial * rest with rest primitive and monic; returns (k, mono, rest|None)"""
    t = s.t
    if len(t) == 1:
        (m, c), = t.items()
        return c, m, None
    # common monomial
    it = iter(t)
    common = dict(MONOS[next(it)])
    for m in it:
        if not common:
            break
        d = dict(MONOS[m])
        for a in list(common):
            e = d.get(a, 0)
            ce = common[a]
            if e * ce <= 0:
                # keep negative exponents out so denominators are gathered
                del common[a]
            else:
                common[a] = min(ce, e) if ce > 0 else max(ce, e)
    m0 = _mono(tuple(sorted(common.items()))) if common else 0
    if m0:
        mi = mono_pow(m0, -1)
        t = {mono_mul(m, mi): c for m, c in t.items()}
    k = t[min(t)]
    if k != 1:
        t = {m: _div(c, k) for m, c in t.items()}
    return k, m0, S(t)


def _snap_s(s):
    """with ROUND_BITS: coefficients inside an atom on a grid coarser than the rounding of sums and products, so that
    values that differ in the last rounded bits only give one atom"""
    n = ROUND_BITS[0]
    if not n or (len(s.t) == 2 and 0 in s.t):  # a plain threshold keeps its value: an input can hit the gap next to it
        return s
    if all(type(c) is not Fraction or c.denominator.bit_length() <= n * 3 // 4 for c in s.t.values()):
        return s
    bits = n * 3 // 4
    return S({m: _round_q(c, bits) if type(c) is Fraction else c for m, c in s.t.items()})


def poly_atom(rest):
    rest = _snap_s(rest)
    return _mk_atom("poly", (rest,), rest.key(), rest.taint)


def mul(a, b):
    ta, tb = a.t, b.t
    if not ta or not tb:
        if (not ta and b.taint) or (not tb and a.taint):
            return _taint_zero(b if not ta else a)
        return ZERO
    if len(tb) < len(ta):
        ta, tb = tb, ta
        a, b = b, a
    if len(ta) == 1:
        (m, c), = ta.items()
        if m == 0:
            return b.scale(c)
        if len(tb) == 1 or len(tb) <= EXPAND:
            r = {}
            for m2, c2 in tb.items():
                mm = mono_mul(m, m2)
                n = r.get(mm, 0) + c * c2
                if n:
                    r[mm] = _norm(n)
                else:
                    r.pop(mm, None)
            r = S(r)
            return _collapse(r)
    if len(ta) * len(tb) <= EXPAND:
        r = {}
        for m1, c1 in ta.items():
            for m2, c2 in tb.items():
                mm = mono_mul(m1, m2)
                n = r.get(mm, 0) + c1 * c2
                if n:
                    r[mm] = _norm(n)
                else:
                    r.pop(mm, None)
        return _collapse(S(r))
    ka, ma, ra = factor(a)
    kb, mb, rb = factor(b)
    m = mono_mul(ma, mb)
    for r in (ra, rb):
        if r is not None:
            m = mono_mul(m, _mono(((poly_atom(r).id, 1),)))
    return _collapse(S({m: _norm(ka * kb)}))


def _collapse(s):
    """sqrt(x)^2 -> x ; |x|^2 -> x^2 ; poly^1 alone -> poly's terms"""
    for m in s.t:
        for a, e in MONOS[m]:
            k = ATOMS[a].kind
            if (k == "sqrt" or k == "abs") and (e >= 2 or e <= -2):
                break
            if k == "poly" and e == 1 and len(MONOS[m]) == 1:
                break
        else:
            continue
        break
    else:
        return s
    out = ZERO
    for m, c in s.t.items():
        mm = MONOS[m]
        if len(mm) == 1 and mm[0][1] == 1 and ATOMS[mm[0][0]].kind == "poly":
            out = out + ATOMS[mm[0][0]].data[0].scale(c)
            continue
        rest = []
        prod = None
        for a, e in mm:
            k = ATOMS[a].kind
            if k in ("sqrt", "abs") and abs(e) >= 2:
                x = ATOMS[a].data[0]
                q = e // 2 if e > 0 else -((-e) // 2)
                f = x if k == "sqrt" else mul(x, x)
                f = f**q if q > 0 else inv(f ** (-q))
                prod = f if prod is None else mul(prod, f)
                e = e - 2 * q
            if e:
                rest.append((a, e))
        term = S({_mono(tuple(rest)): c})
        out = out + (term if prod is None else mul(term, prod))
    return out


def inv(s):
    if s.is_const():
        if s.const() == 0:
            raise Unsupported("division by zero constant")
        return const_q(_div(1, s.const()))
    k, m, r = factor(s)
    for a, e in MONOS[m]:
        if e > 0:
            DENOMS.setdefault(a, atom_s(ATOMS[a]))
    mm = mono_pow(m, -1)
    if r is not None:
        pa = poly_atom(r)
        DENOMS.setdefault(pa.id, r)
        mm = mono_mul(mm, _mono(((pa.id, -1),)))
    return _collapse(S({mm: _div(1, k)}))


def const_q(q):
    return S({0: q}) if q else ZERO


def _square_root_q(q):
    q = Fraction(q)
    if q < 0:
        return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return _norm(Fraction(n, d))
    return None


def sqrt(s):
    if s.is_const():
        c = s.const()
        if c < 0:
            return math.nan
        r = _square_root_q(c)
        if r is not None:
            return const_q(r)
        return const(math.sqrt(c))
    k, m, rest = factor(s)
    # pull out positive square content
    if k > 0:
        r = _square_root_q(k)
        if r is not None and r != 1:
            inner = s.scale(_div(1, k))
            return sqrt(inner).scale(r)
    if len(s.t) == 1:
        mm = MONOS[m]
        if mm and all(e % 2 == 0 for _, e in mm) and k == 1:
            base = S({_mono(tuple((a, e // 2) for a, e in mm)): 1})
            return absr(base)
    s = _snap_s(s)
    return atom_s(_mk_atom("sqrt", (s,), s.key(), s.taint))


def absr(s):
    if s.is_const():
        return const_q(abs(s.const()))
    if len(s.t) == 1:
        (m, c), = s.t.items()
        mm = MONOS[m]
        if all(ATOMS[a].kind in ("sqrt", "abs") or e % 2 == 0 for a, e in mm):
            return s if c > 0 else -s
    _, k = leading(s)
    n = s.scale(_div(1, k))
    return atom_s(_mk_atom("abs", (n,), n.key(), n.taint)).scale(abs(k))


def sign(s):
    if s.is_const():
        c = s.const()
        return ONE if c > 0 else (-ONE if c < 0 else ZERO)
    _, k = leading(s)
    n = s.scale(_div(1, k))
    r = atom_s(_mk_atom("sign", (n,), n.key(), n.taint))
    return r if k > 0 else -r


def floor(s):
    if not isinstance(s, S):
        return s
    if s.is_const():
        return const_q(math.floor(s.const()))
    if _int_valued(s):
        return s
    return atom_s(_mk_atom("floor", (s,), s.key(), s.taint))


def ceil(s):
    return -floor(-s)


def _int_valued(s):
    for m, c in s.t.items():
        if type(c) is not int:
            return False
        for a, e in MONOS[m]:
            at = ATOMS[a]
            if e < 0:
                return False
            if at.kind == "floor" or at.kind == "sign" or at.kind == "b2r":
                continue
            if at.kind == "ite" and _int_valued(at.data[1]) and _int_valued(at.data[2]):
                continue
            return False
    return True


def trunc(s):
    if not isinstance(s, S):
        return s
    if s.is_const():
        return const_q(int(s.const()))
    if _int_valued(s):
        return s
    return ite(ge0(s), floor(s), ceil(s))


def uf(name, *args):
    args = tuple(lift(a) for a in args)
    if any(not isinstance(a, S) for a in args):
        raise Unsupported(f"{name} of inf/nan")
    if all(a.is_const() for a in args):
        f = _UF_EVAL[name]
        try:
            v = f(*[float(a.const()) for a in args])
        except (ValueError, ZeroDivisionError, OverflowError):
            return math.nan
        r = lift(v)
        return r
    return atom_s(
        _mk_atom("uf", (name, args), (name, tuple(a.key() for a in args)), any(a.taint for a in args))
    )


_UF_EVAL = {
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "exp": math.exp,
    "log": math.log,
    "arctan": math.atan,
    "arcsin": math.asin,
    "arccos": math.acos,
    "tanh": math.tanh,
    "sinh": math.sinh,
    "cosh": math.cosh,
    "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
    "arctan2": math.atan2,
    "pow": lambda a, b: a**b,
}


def smax(*args):
    """n-ary maximum"""
    flat = {}
    ninf = False
    for a in args:
        a = lift(a)
        if not isinstance(a, S):
            if a != a:
                return a
            if a > 0:
                return a
            ninf = True
            continue
        if len(a.t) == 1:
            (m, c), = a.t.items()
            mm = MONOS[m]
            if c == 1 and len(mm) == 1 and mm[0][1] == 1 and ATOMS[mm[0][0]].kind == "max":
                for x in ATOMS[mm[0][0]].data[0]:
                    flat[x.key()] = x
                continue
        flat[a.key()] = a
    if not flat:
        return -math.inf if ninf else ZERO
    xs = list(flat.values())
    consts = [x for x in xs if x.is_const()]
    if len(consts) > 1:
        c = max(x.const() for x in consts)
        xs = [x for x in xs if not x.is_const()] + [const_q(c)]
    # among arguments differing by a constant keep the largest
    if len(xs) > 1:
        groups = {}
        for x in xs:
            k = frozenset((m, c) for m, c in x.t.items() if m != 0)
            g = groups.get(k)
            if g is None or x.const() > g.const():
                groups[k] = x
        xs = list(groups.values())
    if len(xs) == 1:
        return xs[0]
    # 0/1 flags
    bs = [as_flag(x) for x in xs]
    if all(b is not None for b in bs):
        return b2r(bor(*bs))
    # a positive multiple of flags: drop arguments dominated by another
    xs2 = _drop_dominated(xs)
    if len(xs2) == 1:
        return xs2[0]
    xs = [_snap_s(x) for x in xs2]
    data = tuple(sorted(xs, key=lambda x: sorted(x.t.items())))
    a = _mk_atom("max", (data,), frozenset(x.key() for x in xs), any(x.taint for x in xs))
    return atom_s(a)


def _flag_multiple(x):
    """x = k * flag with k > 0 -> (k, B) ; constants c >= 0 -> (c, TRUE)"""
    if x.is_const():
        return (x.const(), TRUE) if x.const() >= 0 else None
    if len(x.t) == 1:
        (m, c), = x.t.items()
        mm = MONOS[m]
        if c > 0 and len(mm) == 1 and mm[0][1] == 1 and ATOMS[mm[0][0]].kind == "b2r":
            return c, ATOMS[mm[0][0]].data[0]
    return None


def _drop_dominated(xs):
    fm = [_flag_multiple(x) for x in xs]
    if any(f is None for f in fm):
        return xs
    keep = []
    for i, (k, b) in enumerate(fm):
        dom = False
        for j, (k2, b2) in enumerate(fm):
            if i != j and b is b2 and (k2 > k or (k2 == k and j < i)):
                dom = True
        if b is TRUE and k == 0:
            dom = True
        if not dom:
            keep.append(xs[i])
    return keep or [ZERO]


def smin(*args):
    args = [lift(a) for a in args]
    r = smax(*[-a for a in args])
    return -r


def as_flag(s):
    """S that is a 0/1 flag -> B, else None"""
    if s.is_const():
        c = s.const()
        return TRUE if c == 1 else (FALSE if c == 0 else None)
    if len(s.t) == 1:
        (m, c), = s.t.items()
        mm = MONOS[m]
        if c == 1 and len(mm) == 1 and mm[0][1] == 1 and ATOMS[mm[0][0]].kind == "b2r":
            return ATOMS[mm[0][0]].data[0]
    return None


def b2r(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return atom_s(_mk_atom("b2r", (b,), b.id, b.taint))


def ite(c, a, b):
    """if-then-else over reals; c a B"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = lift(a), lift(b)
    if not isinstance(a, S) or not isinstance(b, S):
        if type(a) is type(b) and (a == b):
            return a
        # inf/nan in one branch: decide on this path
        return a if bool(c) else b
    if a.t == b.t:
        return a
    if c.kind == "not":
        c, a, b = c.data[0], b, a
    if c.kind == "ge":
        # ite(x>=0, a, b) = ite(-x>0, b, a)
        c, a, b = gt0(-c.data[0]), b, a
        if c.kind == "const":
            return a if c is TRUE else b
    if c.kind == "gt":
        x = c.data[0]
        d = a - b
        if not d.is_const() and len(d.t) == len(x.t):
            r = _ratio(d, x)
            if r is not None:
                return smax(a, b) if r > 0 else smin(a, b)
    fa, fb = as_flag(a), as_flag(b)
    if fa is not None and fb is not None:
        return b2r(bite(c, fa, fb))
    # nested ite on the same condition
    a = _assume_in(a, c, True)
    b = _assume_in(b, c, False)
    if a.t == b.t:
        return a
    # normal form: pull out the leading coefficient
    src = a if a.t else b
    _, k = leading(src)
    if k != 1:
        a, b = a.scale(_div(1, k)), b.scale(_div(1, k))
    a, b = _snap_s(a), _snap_s(b)
    if a.t == b.t:
        return a.scale(k)
    at = _mk_atom("ite", (c, a, b), (c.id, a.key(), b.key()), c.taint or a.taint or b.taint)
    return atom_s(at).scale(k)


def _assume_in(s, c, val):
    """if s is k*ite(c, x, y) pick the branch"""
    if len(s.t) == 1:
        (m, k), = s.t.items()
        mm = MONOS[m]
        if len(mm) == 1 and mm[0][1] == 1:
            at = ATOMS[mm[0][0]]
            if at.kind == "ite" and at.data[0] is c:
                return at.data[1 if val else 2].scale(k)
            if at.kind == "b2r" and at.data[0] is c:
                return const_q(k if val else 0)
    return s


def _ratio(d, x):
    """d = r*x for a rational r ?"""
    r = None
    for m, c in x.t.items():
        e = d.t.get(m)
        if e is None:
            return None
        q = Fraction(e) / c
        if r is None:
            r = q
        elif r != q:
            return None
    return r


# ---------------------------------------------------------------- boolean terms
class B:
    __slots__ = ("id", "kind", "data", "taint")
    __array_priority__ = 1000

    def __bool__(self):
        if self.kind == "const":
            return self.data
        from symx import explore

        return explore.decide(self)

    def __and__(self, o):
        return band(self, blift(o))

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, blift(o))

    __ror__ = __or__

    def __xor__(self, o):
        return bxor(self, blift(o))

    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, B):
            return bnot(bxor(self, o))
        if isinstance(o, bool):
            return self if o else bnot(self)
        return b2r(self) == o

    def __ne__(self, o):
        if isinstance(o, B):
            return bxor(self, o)
        return bnot(self == o)

    def __hash__(self):
        return hash(("B", self.id))

    def __add__(self, o):
        return b2r(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, B):
            return band(self, o)
        return b2r(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return b2r(self) - o

    def __rsub__(self, o):
        return lift(o) - b2r(self)

    def __truediv__(self, o):
        return b2r(self) / o

    def __neg__(self):
        return -b2r(self)

    def __gt__(self, o):
        return b2r(self) > o

    def __lt__(self, o):
        return b2r(self) < o

    def __ge__(self, o):
        return b2r(self) >= o

    def __le__(self, o):
        return b2r(self) <= o

    def __float__(self):
        if self.kind == "const":
            return float(self.data)
        raise Unsupported("float() of a symbolic bool")

    def __int__(self):
        if self.kind == "const":
            return int(self.data)
        raise Unsupported("int() of a symbolic bool")

    __index__ = __int__

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from symx import arr

        return arr.dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from symx import arr

        return arr.dispatch_function(func, args, kwargs)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from symx import arr

        return getattr(arr.scalar_array(self), name)

    def __repr__(self):
        return f"B({self.kind}#{self.id})"


BNODES = []
_b_table = {}


def _mk_b(kind, key, data=None, taint=False):
    k = (kind, key)
    b = _b_table.get(k)
    if b is None:
        b = B()
        b.id = len(BNODES)
        b.kind = kind
        b.data = key if kind == "const" else data
        b.taint = taint
        BNODES.append(b)
        _b_table[k] = b
    return b


TRUE = _mk_b("const", True)
FALSE = _mk_b("const", False)


def bconst(v):
    return TRUE if v else FALSE


def blift(x):
    if isinstance(x, B):
        return x
    if isinstance(x, S):
        return bnot(eq0(x))
    if isinstance(x, float) and x != x:
        return TRUE
    return bconst(bool(x))


def bvar(name):
    return _mk_b("var", name, (name,))


def bnot(b):
    if b.kind == "const":
        return bconst(not b.data)
    if b.kind == "not":
        return b.data[0]
    if b.kind == "gt":
        return _cmp("ge", -b.data[0])
    if b.kind == "ge":
        return _cmp("gt", -b.data[0])
    return _mk_b("not", b.id, (b,), b.taint)


def band(*bs):
    flat = {}
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.kind == "and":
            for x in b.data:
                flat[x.id] = x
        else:
            flat[b.id] = b
    if not flat:
        return TRUE
    if len(flat) == 1:
        return next(iter(flat.values()))
    if len(flat) <= 64:
        for b in list(flat.values()):
            if bnot(b).id in flat:
                return FALSE
            if b.kind == "or" and all(bnot(x).id in flat for x in b.data):
                return FALSE
            if b.kind == "not" and b.data[0].kind == "and" and all(x.id in flat for x in b.data[0].data):
                return FALSE
    xs = tuple(flat[i] for i in sorted(flat))
    return _mk_b("and", tuple(x.id for x in xs), xs, any(x.taint for x in xs))


def bor(*bs):
    flat = {}
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.kind == "or":
            for x in b.data:
                flat[x.id] = x
        else:
            flat[b.id] = b
    if not flat:
        return FALSE
    if len(flat) == 1:
        return next(iter(flat.values()))
    if len(flat) <= 64:
        for b in list(flat.values()):
            if bnot(b).id in flat:
                return TRUE
            if b.kind == "and" and all(bnot(x).id in flat for x in b.data):
                return TRUE
            if b.kind == "not" and b.data[0].kind == "or" and all(x.id in flat for x in b.data[0].data):
                return TRUE
    xs = tuple(flat[i] for i in sorted(flat))
    return _mk_b("or", tuple(x.id for x in xs), xs, any(x.taint for x in xs))


def bxor(a, b):
    if a.kind == "const":
        return bnot(b) if a.data else b
    if b.kind == "const":
        return bnot(a) if b.data else a
    if a is b:
        return FALSE
    if bnot(a) is b:
        return TRUE
    k = tuple(sorted((a.id, b.id)))
    return _mk_b("xor", k, (a, b), a.taint or b.taint)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    return bor(band(c, a), band(bnot(c), b))


def _cmp(kind, s):
    """kind in gt, ge, eq against 0; s not constant"""
    if kind == "eq":
        _, k = leading(s)
    else:
        _, k = leading(s)
        k = abs(k)
    n = _snap_s(s.scale(_div(1, k)) if k != 1 else s)
    return _mk_b(kind, n.key(), (n,), n.taint)


def _push(s, f):
    """push a comparison into a finite-valued ite / flag / max"""
    if len(s.t) > 2:
        return None
    ms = [m for m in s.t if m != 0]
    if len(ms) != 1:
        return None
    m = ms[0]
    mm = MONOS[m]
    if len(mm) != 1 or mm[0][1] != 1:
        return None
    at = ATOMS[mm[0][0]]
    k, c0 = s.t[m], s.t.get(0, 0)
    if at.kind == "b2r":
        return bite(at.data[0], f(const_q(_norm(k + c0))), f(const_q(c0)))
    if at.kind == "ite":
        a, b = at.data[1], at.data[2]
        if _finite(a) and _finite(b):
            return bite(at.data[0], f(a.scale(k) + const_q(c0)), f(b.scale(k) + const_q(c0)))
    return None


def _finite(s):
    if s.is_const():
        return True
    ms = [m for m in s.t if m != 0]
    if len(ms) != 1:
        return False
    mm = MONOS[ms[0]]
    if len(mm) != 1 or mm[0][1] != 1:
        return False
    at = ATOMS[mm[0][0]]
    if at.kind == "b2r":
        return True
    return at.kind == "ite" and _finite(at.data[1]) and _finite(at.data[2])


def _single_max(s):
    if len(s.t) <= 2:
        ms = [m for m in s.t if m != 0]
        if len(ms) == 1:
            mm = MONOS[ms[0]]
            if len(mm) == 1 and mm[0][1] == 1 and ATOMS[mm[0][0]].kind == "max":
                return s.t[ms[0]], ATOMS[mm[0][0]].data[0], s.t.get(0, 0)
    return None


def gt0(s):
    if s.is_const():
        return bconst(s.const() > 0)
    r = _push(s, gt0)
    if r is not None:
        return r
    mx = _single_max(s)
    if mx is not None:
        k, xs, c0 = mx
        parts = [gt0(x.scale(k) + const_q(c0)) for x in xs]
        return bor(*parts) if k > 0 else band(*parts)
    return _cmp("gt", s)


def ge0(s):
    if s.is_const():
        return bconst(s.const() >= 0)
    r = _push(s, ge0)
    if r is not None:
        return r
    mx = _single_max(s)
    if mx is not None:
        k, xs, c0 = mx
        parts = [ge0(x.scale(k) + const_q(c0)) for x in xs]
        return bor(*parts) if k > 0 else band(*parts)
    return _cmp("ge", s)


def eq0(s):
    if s.is_const():
        return bconst(s.const() == 0)
    r = _push(s, eq0)
    if r is not None:
        return r
    return _cmp("eq", s)


# ---------------------------------------------------------------- numeric evaluation
def evaluate(x, env, memo=None):
    """float value of an S/B under env: variable name -> number/bool"""
    if memo is None:
        memo = {}
    if isinstance(x, B):
        return _eval_b(x, env, memo)
    if not isinstance(x, S):
        return x
    return _eval_s(x, env, memo)


def _eval_s(s, env, memo):
    tot = 0.0
    for m, c in s.t.items():
        v = float(c)
        for a, e in MONOS[m]:
            x = _eval_atom(ATOMS[a], env, memo)
            if e == 1:
                v *= x
            elif e > 0:
                v *= x**e
            else:
                v = v / x ** (-e) if x != 0 else math.nan
        tot += v
    return tot


def _eval_atom(a, env, memo):
    k = ("a", a.id)
    if k in memo:
        return memo[k]
    d = a.data
    if a.kind == "var":
        r = float(env[d[0]])
    elif a.kind == "poly":
        r = _eval_s(d[0], env, memo)
    elif a.kind == "sqrt":
        v = _eval_s(d[0], env, memo)
        r = math.sqrt(v) if v >= 0 else (0.0 if v > -1e-12 else math.nan)
    elif a.kind == "abs":
        r = abs(_eval_s(d[0], env, memo))
    elif a.kind == "sign":
        v = _eval_s(d[0], env, memo)
        r = 1.0 if v > 0 else (-1.0 if v < 0 else 0.0)
    elif a.kind == "floor":
        r = float(math.floor(_eval_s(d[0], env, memo)))
    elif a.kind == "max":
        r = max(_eval_s(x, env, memo) for x in d[0])
    elif a.kind == "b2r":
        r = 1.0 if _eval_b(d[0], env, memo) else 0.0
    elif a.kind == "ite":
        r = _eval_s(d[1] if _eval_b(d[0], env, memo) else d[2], env, memo)
    elif a.kind == "uf":
        r = _UF_EVAL[d[0]](*[_eval_s(x, env, memo) for x in d[1]])
    else:
        raise Unsupported(a.kind)
    memo[k] = r
    return r


def _eval_b(b, env, memo):
    k = ("b", b.id)
    if k in memo:
        return memo[k]
    kd, d = b.kind, b.data
    if kd == "const":
        return d
    if kd == "fp":
        raise Unsupported("floating-point condition")
    if kd == "var":
        r = bool(env[d[0]])
    elif kd == "not":
        r = not _eval_b(d[0], env, memo)
    elif kd == "and":
        r = all(_eval_b(x, env, memo) for x in d)
    elif kd == "or":
        r = any(_eval_b(x, env, memo) for x in d)
    elif kd == "xor":
        r = _eval_b(d[0], env, memo) != _eval_b(d[1], env, memo)
    elif kd == "gt":
        r = _eval_s(d[0], env, memo) > 0
    elif kd == "ge":
        r = _eval_s(d[0], env, memo) >= 0
    elif kd == "eq":
        r = _eval_s(d[0], env, memo) == 0
    else:
        raise Unsupported(kd)
    memo[k] = r
    return r


def atoms_of(xs):
    """all atoms reachable from a list of S/B"""
    seen_a, seen_b = set(), set()
    stack = list(xs)
    while stack:
        x = stack.pop()
        if isinstance(x, S):
            for m in x.t:
                for a, _ in MONOS[m]:
                    if a not in seen_a:
                        seen_a.add(a)
                        at = ATOMS[a]
                        d = at.data
                        if at.kind == "var":
                            continue
                        if at.kind == "max":
                            stack.extend(d[0])
                        elif at.kind == "uf":
                            stack.extend(d[1])
                        else:
                            stack.extend(d)
        elif isinstance(x, B):
            if x.id not in seen_b:
                seen_b.add(x.id)
                if x.kind not in ("const", "var"):
                    stack.extend(x.data)
    return [ATOMS[a] for a in seen_a], [BNODES[b] for b in seen_b]
