"""
SMT back end: terms of symx.expr -> z3 (and cvc5 for hard nonlinear queries).

Three encodings of the same obligation, each sound for `unsat`:
  L0  every nonlinear monomial and every non-arithmetic atom is an unconstrained real (LRA)
  L1  as L0, but max/abs/ite/sign/flags are defined; only products stay unconstrained (LRA + ite)
  L2  exact semantics (NRA): 1/x is the real i with i*x = 1, sqrt(x) the real s>=0 with s*s = x
Only L2 may answer `sat`; its model is the candidate counterexample.
"""

import sys
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from symx import expr as E  # noqa: E402
from symx.wall import now  # noqa: E402
from symx.expr import ATOMS, B, MONOS, S  # noqa: E402

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, by_level={})


def _q(c):
    f = Fraction(c)
    return z3.RatVal(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


_PI = Fraction(314159265358979, 100000000000000)


class Enc:
    def __init__(self, level):
        self.level = level
        self.side = []
        self.am = {}
        self.mm = {}
        self.bm = {}
        self.im = {}
        self.vars = {}
        self.bvars = {}
        self.fpv = {}
        self.fps = set()

    def fp_vars(self, t):
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in self.fps:
                continue
            self.fps.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self.fpv[x.decl().name()] = x
            stack.extend(x.children())

    # ---- reals
    def real(self, s):
        if not isinstance(s, S):
            raise E.Unsupported(f"non-finite value in a query: {s}")
        parts = []
        for m, c in s.t.items():
            if m == 0:
                parts.append(_q(c))
            else:
                v = self.mono(m)
                parts.append(v if c == 1 else _q(c) * v)
        if not parts:
            return z3.RealVal(0)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def mono(self, m):
        r = self.mm.get(m)
        if r is not None:
            return r
        mm = MONOS[m]
        if self.level < 2 and not (len(mm) == 1 and mm[0][1] == 1):
            r = z3.Real(f"m{m}")
        else:
            fs = []
            for a, e in mm:
                x = self.atom(a) if e > 0 else self.inv(a)
                fs.extend([x] * abs(e))
            r = fs[0] if len(fs) == 1 else z3.Product(fs)
        self.mm[m] = r
        return r

    def inv(self, a):
        r = self.im.get(a)
        if r is None:
            r = z3.Real(f"inv{a}")
            self.im[a] = r
            self.side.append(r * self.atom(a) == 1)
        return r

    def atom(self, a):
        r = self.am.get(a)
        if r is not None:
            return r
        at = ATOMS[a]
        k, d = at.kind, at.data
        if k == "var":
            r = z3.Real(d[0])
            self.vars[d[0]] = r
            self.am[a] = r
            return r
        if k == "poly":
            r = z3.Real(f"p{a}") if self.level == 0 else self.real(d[0])
            self.am[a] = r
            return r
        if self.level == 0:
            r = z3.Real(f"{k}{a}")
            self.am[a] = r
            return r
        if k == "b2r":
            r = z3.If(self.bool(d[0]), z3.RealVal(1), z3.RealVal(0))
        elif k == "ite":
            r = z3.Real(f"ite{a}")
            self.am[a] = r
            self.side.append(r == z3.If(self.bool(d[0]), self.real(d[1]), self.real(d[2])))
        elif k == "abs":
            r = z3.Real(f"abs{a}")
            x = self.real(d[0])
            self.side.append(r == z3.If(x >= 0, x, -x))
        elif k == "sign":
            r = z3.Real(f"sgn{a}")
            x = self.real(d[0])
            self.side.append(r == z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))))
        elif k == "max":
            r = z3.Real(f"max{a}")
            xs = [self.real(x) for x in d[0]]
            self.side.append(z3.Or([r == x for x in xs]))
            for x in xs:
                self.side.append(r >= x)
        elif k == "floor":
            i = z3.Int(f"fl{a}")
            r = z3.ToReal(i)
            x = self.real(d[0])
            self.side += [r <= x, x < r + 1]
        elif k == "sqrt":
            r = z3.Real(f"sqrt{a}")
            self.side.append(r >= 0)
            if self.level >= 2:
                self.side.append(r * r == self.real(d[0]))
        elif k == "uf":
            r = z3.Real(f"{d[0]}{a}")
            n = d[0]
            if n in ("sin", "cos"):
                self.side += [r <= 1, r >= -1]
            elif n in ("exp", "cosh"):
                self.side.append(r > 0)
            elif n == "tanh":
                self.side += [r < 1, r > -1]
        else:
            raise E.Unsupported(k)
        self.am[a] = r
        return r

    def single_inverse(self, s):
        """(a, s*a) when the only denominators in s are single powers of one atom a"""
        a = None
        for m in s.t:
            for x, e in MONOS[m]:
                if e < 0:
                    if e != -1 or (a is not None and a != x):
                        return None
                    a = x
        if a is None:
            return None
        ma = E._mono(((a, 1),))
        return a, S({E.mono_mul(m, ma): c for m, c in s.t.items()})

    def single_ite(self, s):
        """(c, x, y) when s = ite(c, x, y) up to scale and shift and a branch holds a quotient"""
        if len(s.t) > 2:
            return None
        ms = [m for m in s.t if m != 0]
        if len(ms) != 1:
            return None
        mm = MONOS[ms[0]]
        if len(mm) != 1 or mm[0][1] != 1 or ATOMS[mm[0][0]].kind != "ite":
            return None
        c, x, y = ATOMS[mm[0][0]].data
        if not any(e < 0 for z in (x, y) for m in z.t for _, e in MONOS[m]) and not any(
            ATOMS[a].kind in ("ite", "max") for z in (x, y) for m in z.t for a, e in MONOS[m]
        ):
            return None
        k, c0 = s.t[ms[0]], E.const_q(s.t.get(0, 0))
        return c, x.scale(k) + c0, y.scale(k) + c0

    # ---- booleans
    def bool(self, b):
        r = self.bm.get(b.id)
        if r is not None:
            return r
        k, d = b.kind, b.data
        if k == "const":
            r = z3.BoolVal(d)
        elif k == "var":
            r = z3.Bool(d[0])
            self.bvars[d[0]] = r
        elif self.level == 0 and k in ("gt", "ge", "eq"):
            r = z3.Bool(f"c{b.id}")
        elif k in ("gt", "ge", "eq"):
            q = self.single_inverse(d[0])
            ite = self.single_ite(d[0]) if q is None else None
            if ite is not None:
                f = {"gt": E.gt0, "ge": E.ge0, "eq": E.eq0}[k]
                r = z3.If(self.bool(ite[0]), self.bool(f(ite[1])), self.bool(f(ite[2])))
            elif q is None:
                x = self.real(d[0])
                r = x > 0 if k == "gt" else (x >= 0 if k == "ge" else x == 0)
            else:
                # x/a > 0 without the quotient
                a, xa = q
                a = self.atom(a)
                x = self.real(xa)
                self.side.append(a != 0)
                if k == "eq":
                    r = x == 0
                elif k == "gt":
                    r = z3.Or(z3.And(a > 0, x > 0), z3.And(a < 0, x < 0))
                else:
                    r = z3.Or(z3.And(a > 0, x >= 0), z3.And(a < 0, x <= 0))
        elif k == "fp":
            r = d[0]
            self.fp_vars(r)
        elif k == "not":
            r = z3.Not(self.bool(d[0]))
        elif k == "and":
            r = z3.And([self.bool(x) for x in d])
        elif k == "or":
            r = z3.Or([self.bool(x) for x in d])
        elif k == "xor":
            r = z3.Xor(self.bool(d[0]), self.bool(d[1]))
        else:
            raise E.Unsupported(k)
        self.bm[b.id] = r
        return r


def uses_floor(terms):
    at, _ = E.atoms_of(terms)
    return any(a.kind == "floor" for a in at)


def _val(x):
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def model_env(m, enc):
    env = {}
    for n, v in enc.vars.items():
        env[n] = _val(m.eval(v, model_completion=True))
    for n, v in enc.bvars.items():
        env[n] = z3.is_true(m.eval(v, model_completion=True))
    if enc.fpv:
        from symx import fp

        for n, v in enc.fpv.items():
            env[n] = fp.value(m, v)
    return env


def _record(r, level, dt):
    STATS["queries"] += 1
    STATS[r] += 1
    STATS["solver_s"] += dt
    k = f"{level}:{r}"
    STATS["by_level"][k] = STATS["by_level"].get(k, 0) + 1


def query(assume, negs, level, timeout_s, tactic=None):
    """is And(assume) and Or(negs) satisfiable?  -> ('unsat'|'sat'|'unknown', env)"""
    enc = Enc(level)
    cs = [enc.bool(b) for b in assume] if level > 0 else [enc.bool(b) for b in assume if b.kind == "var"]
    if level == 0:
        # comparisons become linear constraints over abstract monomials
        cs = []
        for b in assume:
            if b.kind in ("gt", "ge", "eq"):
                x = enc.real(b.data[0])
                cs.append(x > 0 if b.kind == "gt" else (x >= 0 if b.kind == "ge" else x == 0))
    ng = []
    for n in negs:
        if level == 0 and isinstance(n, B) and n.kind in ("gt", "ge", "eq"):
            x = enc.real(n.data[0])
            ng.append(x > 0 if n.kind == "gt" else (x >= 0 if n.kind == "ge" else x == 0))
        elif level == 0 and isinstance(n, B) and n.kind == "not" and n.data[0].kind == "eq":
            ng.append(enc.real(n.data[0].data[0]) != 0)
        elif isinstance(n, tuple):  # ('ne', lhs, rhs): both sides translated separately
            ng.append(enc.real(n[1]) != enc.real(n[2]))
        else:
            ng.append(enc.bool(n))
    s = tactic.solver() if tactic is not None else z3.Solver()
    s.set("timeout", max(1, int(timeout_s * 1000)))
    for c in cs + enc.side:
        s.add(c)
    s.add(z3.Or(ng) if len(ng) != 1 else ng[0])
    t0 = now()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = now() - t0
    if r == z3.unsat:
        _record("unsat", f"L{level}", dt)
        return "unsat", None
    if r == z3.sat:
        _record("sat", f"L{level}", dt)
        if level == 2:
            return "sat", model_env(s.model(), enc)
        return "maybe", None
    _record("unknown", f"L{level}", dt)
    return "unknown", None


def nlsat_tactic():
    return z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra")


def cvc5_query(assume, negs, timeout_s):
    """same question, exact semantics, asked of cvc5"""
    try:
        import cvc5
    except Exception:
        return "unknown", None
    enc = Enc(2)
    s = z3.Solver()
    for b in assume:
        s.add(enc.bool(b))
    ng = [enc.real(n[1]) != enc.real(n[2]) if isinstance(n, tuple) else enc.bool(n) for n in negs]
    for c in enc.side:
        s.add(c)
    s.add(z3.Or(ng) if len(ng) != 1 else ng[0])
    txt = s.to_smt2()
    t0 = now()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout_s * 1000)))
        slv.setOption("nl-cov", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = p.getSymbolManager()
        ans = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out.strip() in ("sat", "unsat", "unknown"):
                ans = out.strip()
    except Exception:
        ans = "unknown"
    dt = now() - t0
    if ans == "unsat":
        _record("unsat", "cvc5", dt)
        return "unsat", None
    _record("unknown", "cvc5", dt)
    return "unknown", None


# ---------------------------------------------------------------- rational expansion
EXPAND_CAP = 60000


class TooBig(Exception):
    pass


def _pmul(a, b):
    r = {}
    if len(a) * len(b) > 4_000_000:
        raise TooBig
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = E.mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = E._norm(n)
            else:
                r.pop(m, None)
    if len(r) > EXPAND_CAP:
        raise TooBig
    return r


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = E._norm(n)
        else:
            r.pop(m, None)
    return r


def _reduce_sqrt(p):
    """sqrt(x)^2 -> x inside an expanded polynomial"""
    again = True
    while again:
        again = False
        out = {}
        for m, c in p.items():
            mm = MONOS[m]
            hit = None
            for a, e in mm:
                if ATOMS[a].kind in ("sqrt", "abs") and e >= 2:
                    hit = (a, e)
                    break
            if hit is None:
                n = out.get(m, 0) + c
                if n:
                    out[m] = E._norm(n)
                else:
                    out.pop(m, None)
                continue
            again = True
            a, e = hit
            rest = E._mono(tuple((x, y) if x != a else (x, y - 2) for x, y in mm if not (x == a and y == 2)))
            num, den = ratform(ATOMS[a].data[0])
            if ATOMS[a].kind == "abs":
                num, den = _pmul(num, num), None
            if den is not None and den != _P1:
                if len(den) != 1:
                    raise TooBig  # keep exact: give up on reducing through a denominator
                ((dm, dc),) = den.items()
                num = {E.mono_mul(x, E.mono_pow(dm, -1)): E._div(y, dc) for x, y in num.items()}
            for m2, c2 in num.items():
                k = E.mono_mul(rest, m2)
                n = out.get(k, 0) + c * c2
                if n:
                    out[k] = E._norm(n)
                else:
                    out.pop(k, None)
        p = out
    return p


def ratform(s, memo=None):
    """(numerator, denominator) as expanded polynomials over non-poly atoms"""
    # factors that end up in the denominator, with their maximal power over the terms
    fac = {}  # poly key -> poly

    def key(p):
        return frozenset(p.items())

    terms = []
    need = {}
    for m, c in s.t.items():
        up, dn = [], {}
        for a, e in MONOS[m]:
            n, d = _atom_rat(a)
            if e < 0:
                n, d, e = d, n, -e
            if n != _P1:
                up += [n] * e
            if d != _P1:
                k = key(d)
                fac[k] = d
                dn[k] = dn.get(k, 0) + e
        # cancel equal factors
        for k in list(dn):
            while dn[k] and any(u is fac[k] or u == fac[k] for u in up):
                for j, u in enumerate(up):
                    if u == fac[k]:
                        del up[j]
                        break
                dn[k] -= 1
        for k, e in dn.items():
            need[k] = max(need.get(k, 0), e)
        terms.append((c, up, dn))
    den = _P1
    for k, e in need.items():
        for _ in range(e):
            den = _pmul(den, fac[k])
    num = {}
    for c, up, dn in terms:
        t = {0: c}
        for u in sorted(up, key=len):
            t = _pmul(t, u)
        for k, e in need.items():
            for _ in range(e - dn.get(k, 0)):
                t = _pmul(t, fac[k])
        num = _padd(num, t)
    return num, den


_P1 = {0: 1}
_apmemo = {}


def _atom_rat(a):
    at = ATOMS[a]
    if at.kind != "poly":
        return {E._mono(((a, 1),)): 1}, _P1
    r = _apmemo.get(a)
    if r is None:
        r = _apmemo[a] = ratform(at.data[0])
    return r


def expand_zero(s):
    """is s identically zero as a rational function of its atoms (sqrt^2 reduced)?  returns the
    expanded numerator"""
    num, _ = ratform(s)
    return _reduce_sqrt(num)


# ---------------------------------------------------------------- case splitting
class Subst:
    """rebuild terms under truth values assumed for conditions"""

    def __init__(self, known):
        self.known = known  # B.id -> bool
        self.sm = {}
        self.bmm = {}

    def b(self, b):
        if b.kind == "const":
            return b
        if b.id in self.known:
            return E.bconst(self.known[b.id])
        r = self.bmm.get(b.id)
        if r is None:
            k, d = b.kind, b.data
            if k == "var":
                r = b
            elif k == "not":
                r = E.bnot(self.b(d[0]))
            elif k == "and":
                r = E.band(*[self.b(x) for x in d])
            elif k == "or":
                r = E.bor(*[self.b(x) for x in d])
            elif k == "xor":
                r = E.bxor(self.b(d[0]), self.b(d[1]))
            else:
                x = self.s(d[0])
                if x.t == d[0].t:
                    r = b
                else:
                    r = {"gt": E.gt0, "ge": E.ge0, "eq": E.eq0}[k](x)
                if r.id in self.known:
                    r = E.bconst(self.known[r.id])
            n = E.bnot(r)
            if r.kind != "const" and n.id in self.known:
                r = E.bconst(not self.known[n.id])
            self.bmm[b.id] = r
        return r

    def atom(self, a):
        r = self.sm.get(a)
        if r is not None:
            return r
        at = ATOMS[a]
        k, d = at.kind, at.data
        if k == "var":
            r = E.atom_s(at)
        elif k == "poly":
            r = self.s(d[0])
        elif k == "sqrt":
            x = self.s(d[0])
            r = E.sqrt(x)
            if x.t != d[0].t and isinstance(r, S):
                r = self.s(r)  # sqrt(y^2) became |y|
        elif k == "abs":
            x = self.s(d[0])
            c = self.b(E.ge0(x))
            r = x if c is E.TRUE else (-x if c is E.FALSE else E.absr(x))
        elif k == "sign":
            x = self.s(d[0])
            p, q = self.b(E.gt0(x)), self.b(E.gt0(-x))
            if p is E.TRUE:
                r = E.ONE
            elif q is E.TRUE:
                r = -E.ONE
            elif p is E.FALSE and q is E.FALSE:
                r = E.ZERO
            else:
                r = E.sign(x)
        elif k == "floor":
            r = E.floor(self.s(d[0]))
        elif k == "b2r":
            r = E.b2r(self.b(d[0]))
        elif k == "ite":
            c = self.b(d[0])
            if c is E.TRUE:
                r = self.s(d[1])
            elif c is E.FALSE:
                r = self.s(d[2])
            else:
                r = E.ite(c, self.s(d[1]), self.s(d[2]))
        elif k == "max":
            xs = [self.s(x) for x in d[0]]
            keep = list(range(len(xs)))
            for i in range(len(xs)):
                for j in range(len(xs)):
                    if i != j and i in keep and j in keep:
                        if self.b(E.ge0(xs[j] - xs[i])) is E.TRUE:
                            keep.remove(i)
                            break
            r = E.smax(*[xs[i] for i in keep])
        elif k == "uf":
            r = E.uf(d[0], *[self.s(x) for x in d[1]])
        else:
            raise E.Unsupported(k)
        self.sm[a] = r
        return r

    def s(self, s):
        out = E.ZERO
        changed = False
        parts = {}
        for m, c in s.t.items():
            mm = MONOS[m]
            sub = [(a, e, self.atom(a)) for a, e in mm]
            if all(len(v.t) == 1 and v.t.get(E._mono(((a, 1),))) == 1 for a, e, v in sub):
                parts[m] = c
                continue
            changed = True
            t = E.const_q(c)
            for a, e, v in sub:
                f = v**e if e > 0 else E.inv(v ** (-e)) if not v.is_const() else E.const_q(E._div(1, v.const() ** (-e)))
                t = E.mul(t, f)
            out = out + t
        if not changed:
            return s
        return out + S(parts)


def _split_candidate(terms):
    """a condition to split on, innermost first"""
    at, bs = E.atoms_of(terms)

    def clean(s):  # no split-able atom inside
        a2, _ = E.atoms_of([s])
        return not any(x.kind in ("ite", "max", "abs", "sign", "b2r") for x in a2)

    for a in sorted(at, key=lambda x: x.id):
        d = a.data
        if a.kind in ("ite", "b2r"):
            c = _atomic(d[0], clean)
            if c is not None:
                return c
        elif a.kind == "abs" and clean(d[0]):
            return E.ge0(d[0])
        elif a.kind == "sign" and clean(d[0]):
            return E.gt0(d[0])
        elif a.kind == "max" and all(clean(x) for x in d[0]):
            return E.ge0(d[0][0] - d[0][1])
    return None


def _atomic(b, clean):
    if b.kind == "var":
        return b
    if b.kind in ("gt", "ge", "eq"):
        return b if clean(b.data[0]) else None
    if b.kind in ("not", "and", "or", "xor"):
        for x in b.data:
            r = _atomic(x, clean)
            if r is not None:
                return r
    return None


def _know(k2, c, val):
    """record the truth of an atomic condition and of its immediate variants"""
    k2[c.id] = val
    k2[E.bnot(c).id] = not val
    if c.kind in ("gt", "ge"):
        x = c.data[0]
        if c.kind == "gt" and val:
            k2[E.ge0(x).id] = True
            k2[E.gt0(-x).id] = False
            k2[E.ge0(-x).id] = False
            k2[E.eq0(x).id] = False
        if c.kind == "ge" and not val:
            k2[E.gt0(-x).id] = True
            k2[E.ge0(-x).id] = True
            k2[E.gt0(x).id] = False
            k2[E.eq0(x).id] = False
    elif c.kind == "eq" and val:
        x = c.data[0]
        for y in (x, -x):
            k2[E.gt0(y).id] = False
            k2[E.ge0(y).id] = True
    k2.pop(E.TRUE.id, None)
    k2.pop(E.FALSE.id, None)


def _facts(assume):
    """truth values that follow from the shape of the assumptions alone"""
    known = {}

    def add(b, val):
        if b.kind == "not":
            add(b.data[0], not val)
        elif b.kind == "and" and val:
            for x in b.data:
                add(x, True)
        elif b.kind == "or" and not val:
            for x in b.data:
                add(x, False)
        elif b.kind != "const":
            _know(known, b, val)

    for b in assume:
        add(b, True)
    if known:
        # the same facts after the others simplified them
        sub = Subst(dict(known))
        for b in assume:
            if b.kind in ("gt", "ge", "eq") and any(E.ATOMS[a].kind != "var" for m in b.data[0].t for a, _ in MONOS[m]):
                try:
                    x = sub.s(b.data[0])
                except E.Unsupported:
                    continue
                if isinstance(x, S) and not x.is_const() and x.t != b.data[0].t:
                    c = {"gt": E.gt0, "ge": E.ge0, "eq": E.eq0}[b.kind](x)
                    add(c, True)
    return known


def prove_zero_by_cases(assume, s, budget, feas_timeout=1.0, max_leaves=4000):
    """prove s == 0 under assume by splitting on branch conditions; each leaf is closed by the
    solver on the expanded numerator.  -> 'unsat' | 'unknown' | ('sat', env)"""
    t_end = now() + budget
    leaves = [0]

    def rec(pc, known, term):
        if now() > t_end or leaves[0] > max_leaves:
            return "unknown"
        c = _split_candidate([term])
        if c is None:
            leaves[0] += 1
            if term.is_const() and term.const() == 0:
                return "unsat"
            try:
                num = S(expand_zero(term))
            except TooBig:
                num = term
            if num.is_const() and num.const() == 0:
                # polynomial identity: let the solver confirm the normal form
                r, _ = query([], [E.bnot(E.eq0(num))], 0, 5)
                return r
            a = assume + pc
            r, env = query(a, [E.bnot(E.eq0(num))], 1, 2)
            if r == "unsat":
                return r
            r, env = query(a, [E.bnot(E.eq0(num))], 2, min(20, max(1, t_end - now())))
            return ("sat", env) if r == "sat" else r
        res = "unsat"
        for val in (True, False):
            lit = c if val else E.bnot(c)
            if not feasible(assume + pc, lit, feas_timeout):
                continue
            k2 = dict(known)
            _know(k2, c, val)
            t2 = Subst(k2).s(term)
            r = rec(pc + [lit], k2, t2)
            if r != "unsat":
                res = r
                if r != "unknown":
                    return r
        return res

    known = _facts(assume)
    return rec([], known, Subst(known).s(s) if known else s)


def feasible(assume, b, timeout=2.0):
    """False only when the solver shows assume & b unsatisfiable"""
    r, _ = query(assume, [b], 1, timeout)
    if r == "unsat":
        return False
    terms = list(assume) + [b]
    at, _ = E.atoms_of(terms)
    if any(_nonlinear(x) for x in terms):
        r, _ = query(assume, [b], 2, timeout)
        return r != "unsat"
    return True


def _nonlinear(b):
    at, bs = E.atoms_of([b])
    if any(a.kind in ("sqrt", "poly") for a in at):
        return True
    for x in bs:
        if x.kind in ("gt", "ge", "eq"):
            for m in x.data[0].t:
                mm = MONOS[m]
                if len(mm) > 1 or (mm and mm[0][1] != 1):
                    return True
    return False


# ---------------------------------------------------------------- residuals of rounded coefficients
def _ival_s(s, vb, memo):
    lo = hi = 0.0
    for m, c in s.t.items():
        a, b = 1.0, 1.0
        for at, e in MONOS[m]:
            x = _ival_a(at, vb, memo)
            if x is None:
                return None
            p, q = x
            if e < 0:
                if p <= 0 <= q:
                    return None
                p, q = 1 / q, 1 / p
            v = [a, b]
            for _ in range(abs(e)):
                w = [v[0] * p, v[0] * q, v[1] * p, v[1] * q]
                v = [min(w), max(w)]
            a, b = v
        c = float(c)
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    pad = 1e-9 * (abs(lo) + abs(hi)) + 1e-300
    if not (abs(lo) < 1e200 and abs(hi) < 1e200):
        return None
    return lo - pad, hi + pad


def _ival_a(i, vb, memo):
    if i in memo:
        return memo[i]
    a = E.ATOMS[i]
    r = None
    k = a.kind
    if k == "var":
        r = vb.get(i)
    elif k == "poly":
        r = _ival_s(a.data[0], vb, memo)
    elif k == "sqrt":
        x = _ival_s(a.data[0], vb, memo)
        r = None if x is None else (max(0.0, x[0]) ** 0.5 * 0.999999, max(0.0, x[1]) ** 0.5 * 1.000001)
    elif k == "abs":
        x = _ival_s(a.data[0], vb, memo)
        r = None if x is None else (0.0, max(abs(x[0]), abs(x[1])))
    elif k == "sign":
        r = (-1.0, 1.0)
    elif k == "b2r":
        r = (0.0, 1.0)
    elif k == "floor":
        x = _ival_s(a.data[0], vb, memo)
        r = None if x is None else (x[0] - 1, x[1])
    elif k == "max":
        xs = [_ival_s(x, vb, memo) for x in a.data[0]]
        r = None if any(x is None for x in xs) else (max(x[0] for x in xs), max(x[1] for x in xs))
    elif k == "ite":
        x, y = _ival_s(a.data[1], vb, memo), _ival_s(a.data[2], vb, memo)
        r = None if x is None or y is None else (min(x[0], y[0]), max(x[1], y[1]))
    memo[i] = r
    return r


def tiny_residual(assume, d, tol):
    """|d| <= tol when every coefficient of d is the remainder of a rounding: each monomial becomes a variable within
    the range that the bounds of the inputs give it -> 'unsat' | 'unknown'"""
    if not d.t or max(abs(c) for c in d.t.values()) > 1e-15:
        return "unknown"
    vb = {}
    for b in assume:
        if b.kind in ("ge", "gt"):
            s = b.data[0]
            ms = [m for m in s.t if m]
            if len(ms) == 1 and len(MONOS[ms[0]]) == 1 and MONOS[ms[0]][0][1] == 1:
                v, k, c = MONOS[ms[0]][0][0], s.t[ms[0]], s.t.get(0, 0)
                lo, hi = vb.get(v, (-1e30, 1e30))
                x = float(-Fraction(c) / Fraction(k))
                vb[v] = (max(lo, x), hi) if k > 0 else (lo, min(hi, x))
    memo = {}
    cs, tot = [], z3.RealVal(0)
    for m, c in d.t.items():
        x = _ival_s(S({m: 1}), vb, memo)
        if x is None:
            return "unknown"
        y = z3.Real(f"m{m}")
        cs += [y >= z3.RealVal(str(Fraction(x[0]))), y <= z3.RealVal(str(Fraction(x[1])))]
        tot = tot + z3.RealVal(str(Fraction(c))) * y
    t = z3.RealVal(str(Fraction(tol) if not isinstance(tol, S) else Fraction(tol.const())))
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*cs)
    s.add(z3.Or(tot > t, tot < -t))
    t0 = now()
    r = s.check()
    _record("unsat" if r == z3.unsat else "unknown", "residual", now() - t0)
    return "unsat" if r == z3.unsat else "unknown"


# ---------------------------------------------------------------- obligations
def decide_eq(assume, lhs, rhs, budget, refute=None):
    """prove lhs == rhs under assume -> 'unsat' | ('sat', env) | 'unknown'"""
    t0 = now()
    diff = lhs - rhs
    r, _ = query([], [("ne", lhs, rhs)], 0, 10)
    if r == "unsat":
        return "unsat"
    known = _facts(assume)
    if known:
        d2 = Subst(known).s(diff)
        if not d2.t:
            return query([], [("ne", d2, E.ZERO)], 0, 10)[0]
        if _split_candidate([d2]) is None:
            try:
                num = S(expand_zero(d2))
                if not num.t:
                    return query([], [("ne", num, E.ZERO)], 0, 10)[0]
            except TooBig:
                pass
    ne = E.bnot(E.eq0(diff)) if not diff.is_const() else E.bconst(diff.const() != 0)
    r, _ = query(assume, [ne], 1, min(5, budget))
    if r == "unsat":
        return "unsat"
    r, env = query(assume, [ne], 2, min(5, budget))
    if r == "unsat":
        return r
    if r == "sat":
        return "sat", env
    env = refute() if refute else None
    if env is not None:
        return "sat", env
    left = budget - (now() - t0)
    if left > 1:
        r = prove_zero_by_cases(assume, diff, left * 0.6)
        if r == "unsat" or isinstance(r, tuple):
            return r
    left = budget - (now() - t0)
    if left > 1:
        r, env = query(assume, [ne], 2, left * 0.6, nlsat_tactic())
        if r == "unsat":
            return r
        if r == "sat":
            return "sat", env
    left = budget - (now() - t0)
    if left > 1:
        r, _ = cvc5_query(assume, [ne], left)
        if r == "unsat":
            return r
    return "unknown"


def decide_bool(assume, claim, budget, refute=None):
    """prove the B `claim` under assume"""
    t0 = now()
    neg = E.bnot(claim)
    if neg is E.FALSE:
        return "unsat"
    r, _ = query(assume, [neg], 1, min(5, budget))
    if r == "unsat":
        return r
    r, env = query(assume, [neg], 2, min(5, budget))
    if r == "unsat":
        return r
    if r == "sat":
        return "sat", env
    env = refute() if refute else None
    if env is not None:
        return "sat", env
    left = budget - (now() - t0)
    if left > 1:
        r, env = query(assume, [neg], 2, left * 0.3)
        if r == "unsat":
            return r
        if r == "sat":
            return "sat", env
    left = budget - (now() - t0)
    if left > 1:
        r, env = query(assume, [neg], 2, left * 0.5, nlsat_tactic())
        if r == "unsat":
            return r
        if r == "sat":
            return "sat", env
    left = budget - (now() - t0)
    if left > 1:
        r, _ = cvc5_query(assume, [neg], left)
        if r == "unsat":
            return r
    return "unknown"
