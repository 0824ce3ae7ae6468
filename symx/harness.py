"""
One harness, two executions: the same harness function drives /repo's code on symbolic values
(for the solver) and on ordinary floats with unpatched numpy (to validate the encoding and to
replay counterexamples).
"""

import math
import random

import numpy as np


class AssumeFailed(Exception):
    pass


RT, AT = 1e-8, 1e-9  # tolerance of a concrete comparison, and of an inexact symbolic equality


class Base:
    def __init__(self):
        self.obs = []  # obligations or concrete failures
        self.seen = []  # observed values for encoding validation
        self.n_checks = 0


class SymCtx(Base):
    symbolic = True

    def __init__(self):
        super().__init__()
        self.decl = {}

    # ---- inputs
    def real(self, name, lo=-2, hi=2):
        from symx import expr as E
        from symx import explore

        v = E.var(name)
        if name not in self.decl:
            self.decl[name] = (lo, hi)
        if lo is not None:
            explore.ST.assume.append(E.ge0(v - E.const(lo)))
        if hi is not None:
            explore.ST.assume.append(E.ge0(E.const(hi) - v))
        return v

    def array(self, name, shape, lo=-2, hi=2):
        from symx import arr

        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(f"{name}[{','.join(map(str, i))}]", lo, hi)
        return arr.wrap_keep(a, arr.F64)

    def double(self, name, lo=0.0, hi=4.0):
        """an IEEE double, bit-precise"""
        from symx import explore, fp
        import z3

        v = fp.FP(z3.FP(name, fp.SORT))
        self.decl[name] = (lo, hi)
        explore.ST.assume += [fp.cond(z3.fpGEQ(v.t, fp.val(lo))), fp.cond(z3.fpLEQ(v.t, fp.val(hi)))]
        return v

    def boolean(self, name):
        from symx import expr as E

        self.decl[name] = "bool"
        return E.bvar(name)

    def bool_array(self, name, shape):
        from symx import arr

        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.boolean(f"{name}[{','.join(map(str, i))}]")
        return arr.wrap_keep(a, arr.BOOL)

    def const(self, x):
        """exact constants"""
        from symx import arr, expr as E

        if np.ndim(x) == 0 and not isinstance(x, np.ndarray):
            return E.const(x)
        return arr.to_sym(x)

    def frac(self, p, q):
        from symx import expr as E
        from fractions import Fraction

        return E.const_q(E._norm(Fraction(p, q)))

    def stack(self, xs):
        from symx import arr

        return arr.to_sym(list(xs))

    # ---- relations
    def assume(self, cond):
        from symx import arr, expr as E, explore

        for b in arr.to_obj(cond).flat:
            b = E.blift(b)
            if b is E.FALSE:
                raise explore.Infeasible
            if b is not E.TRUE:
                explore.ST.assume.append(b)

    def _pairs(self, a, b):
        from symx import arr

        a, b = arr.to_obj(a), arr.to_obj(b)
        shape = np.broadcast_shapes(a.shape, b.shape)
        if a.shape != b.shape and a.size != 1 and b.size != 1 and a.shape != shape and b.shape != shape:
            raise ValueError("shapes differ")
        a, b = np.broadcast_to(a, shape), np.broadcast_to(b, shape)
        for i in np.ndindex(*shape):
            yield i, arr._num(a[i]), arr._num(b[i])

    def eq(self, label, a, b, tol=None):
        from symx import expr as E

        for i, x, y in self._pairs(a, b):
            if isinstance(x, float) or isinstance(y, float):
                same = not isinstance(x, E.S) and not isinstance(y, E.S) and (x == y)
                self.obs.append((f"{label}{list(i)}", "bool", E.bconst(same), None, tol))
            else:
                self.obs.append((f"{label}{list(i)}", "eq", x, y, tol))

    def le(self, label, a, b, tol=None):
        from symx import arr

        for i, x, y in self._pairs(a, b):
            self.obs.append((f"{label}{list(i)}", "bool", arr.cmp_ge(y, x), ("le", x, y), tol))

    def lt(self, label, a, b):
        from symx import arr

        for i, x, y in self._pairs(a, b):
            self.obs.append((f"{label}{list(i)}", "bool", arr.cmp_gt(y, x), None, None))

    def true(self, label, cond):
        from symx import arr, expr as E

        c = arr.to_obj(cond)
        for i in np.ndindex(*c.shape):
            self.obs.append((f"{label}{list(i)}", "bool", E.blift(c[i]), None, None))

    def lemma(self, label, cond):
        """an intermediate claim: proved like any other, then available to the obligations after it"""
        self.true("lemma " + label, cond)
        for k in range(len(self.obs) - 1, -1, -1):
            o = self.obs[k]
            if not o[0].startswith("lemma " + label):
                break
            self.obs[k] = (o[0], "lemma", o[2], None, None)

    def implies(self, label, c, cond):
        from symx import arr, expr as E

        c = np.broadcast_arrays(arr.to_obj(c), arr.to_obj(cond))
        for i in np.ndindex(*c[0].shape):
            self.obs.append((f"{label}{list(i)}", "bool", E.bor(E.bnot(E.blift(c[0][i])), E.blift(c[1][i])), None, None))

    def determinate(self, label, a):
        """the value depends on the declared inputs only, never on uninitialised memory"""
        from symx import arr

        a = arr.to_obj(a)
        for i in np.ndindex(*a.shape):
            self.obs.append((f"{label}{list(i)}", "det", a[i], None, None))

    def observe(self, label, a):
        from symx import arr

        self.seen.append((label, arr.to_obj(a)))

    def concrete(self, a):
        """plain numbers out of constant terms"""
        from symx import arr

        return np.asarray(arr._concretize(arr.to_obj(a)).tolist())

    # numpy-like helpers usable by oracles in both modes
    def where(self, c, a, b):
        from symx import arr

        return arr._where(c, a, b)

    def maxn(self, *xs):
        from symx import expr as E

        return E.smax(*xs)

    def minn(self, *xs):
        from symx import arr

        r = xs[0]
        for x in xs[1:]:
            r = arr.el_min(r, x)
        return E_lift(r)

    def sqrt(self, x):
        from symx import arr

        if isinstance(x, np.ndarray):
            return np.sqrt(x)
        return arr.el_sqrt(E_lift(x))

    def abs(self, x):
        return abs(x)

    def land(self, *cs):
        from symx import expr as E

        return E.band(*[E.blift(c) for c in cs])

    def lor(self, *cs):
        from symx import expr as E

        return E.bor(*[E.blift(c) for c in cs])

    def lnot(self, c):
        from symx import expr as E

        return E.bnot(E.blift(c))

    def ite(self, c, a, b):
        from symx import arr

        return arr.el_ite(c, E_lift(a), E_lift(b))

    def sgn(self, x):
        from symx import arr

        return arr.el_sign(E_lift(x))


def E_lift(x):
    from symx import expr as E

    return x if isinstance(x, (E.S, E.B)) else E.lift(x)


class ConCtx(Base):
    symbolic = False

    def __init__(self, env=None, seed=0, fill=0):
        super().__init__()
        self.env = dict(env or {})
        self.used = {}
        self.rng = random.Random(seed)
        self.fill = fill
        self.failures = []

    def real(self, name, lo=-2, hi=2):
        if name in self.used:
            return self.used[name]
        if name in self.env:
            v = float(self.env[name])
        else:
            a = -2.0 if lo is None else float(lo)
            b = a + 4.0 if hi is None else float(hi)
            if lo is None and hi is not None and b < a:
                a = b - 4
            v = a + (b - a) * round(self.rng.uniform(0.02, 0.98), 6)
        self.used[name] = v
        return v

    def double(self, name, lo=0.0, hi=4.0):
        return self.real(name, lo, hi)

    def array(self, name, shape, lo=-2, hi=2):
        a = np.empty(shape)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(f"{name}[{','.join(map(str, i))}]", lo, hi)
        return a

    def boolean(self, name):
        if name not in self.used:
            self.used[name] = bool(self.env[name]) if name in self.env else self.rng.random() < 0.5
        return self.used[name]

    def bool_array(self, name, shape):
        a = np.empty(shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            a[i] = self.boolean(f"{name}[{','.join(map(str, i))}]")
        return a

    def const(self, x):
        return np.asarray(x, dtype=float) if np.ndim(x) else x

    def frac(self, p, q):
        return p / q

    def stack(self, xs):
        return np.array(list(xs))

    def assume(self, cond):
        if not np.all(cond):
            raise AssumeFailed

    def eq(self, label, a, b, tol=None):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        scale = np.maximum(np.abs(a), np.abs(b))
        if a.size:
            # errors are judged against the size of the whole array: rounding of large neighbours
            scale = np.maximum(scale, min(1.0, np.nanmax(np.where(np.isfinite(scale), scale, 0))))
        rt = RT if tol is None else max(tol, RT)
        at = AT if tol is None else max(tol, AT)
        self.n_checks += a.size
        for i in np.ndindex(*a.shape):
            d = abs(a[i] - b[i])
            same_inf = math.isinf(a[i]) and a[i] == b[i]
            if not same_inf and not d <= at + rt * scale[i]:
                self.failures.append((f"{label}{list(i)}", float(a[i]), float(b[i])))

    def le(self, label, a, b, tol=None):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        t = 1e-9 if tol is None else max(tol, 1e-9)
        self.n_checks += a.size
        for i in np.ndindex(*a.shape):
            if not a[i] <= b[i] + t * max(1.0, min(abs(a[i]), 1e3)):
                self.failures.append((f"{label}{list(i)}", float(a[i]), float(b[i])))

    def lt(self, label, a, b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        self.n_checks += a.size
        for i in np.ndindex(*a.shape):
            if not a[i] < b[i]:
                self.failures.append((f"{label}{list(i)}", float(a[i]), float(b[i])))

    def true(self, label, cond):
        c = np.asarray(cond, dtype=bool)
        self.n_checks += c.size
        for i in np.ndindex(*c.shape):
            if not c[i]:
                self.failures.append((f"{label}{list(i)}", False, True))

    def lemma(self, label, cond):
        pass

    def implies(self, label, c, cond):
        self.true(label, np.logical_or(np.logical_not(c), cond))

    def determinate(self, label, a):
        # compared by the runner between executions whose uninitialised memory differs
        self.seen.append(("det:" + label, np.array(np.asarray(a), dtype=float)))
        a = np.asarray(a, dtype=float)
        self.n_checks += a.size
        for i in np.ndindex(*a.shape):
            if not math.isfinite(a[i]) or abs(a[i]) > 1e150:
                self.failures.append((f"{label}{list(i)}", float(a[i]), 0.0))

    def observe(self, label, a):
        self.seen.append((label, np.array(np.asarray(a), dtype=float)))

    def concrete(self, a):
        return np.asarray(a, dtype=float)

    def where(self, c, a, b):
        return np.where(c, a, b)

    def maxn(self, *xs):
        return max(xs)

    def minn(self, *xs):
        return min(xs)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return abs(x)

    def land(self, *cs):
        return all(bool(c) for c in cs)

    def lor(self, *cs):
        return any(bool(c) for c in cs)

    def lnot(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def sgn(self, x):
        return (x > 0) - (x < 0)
