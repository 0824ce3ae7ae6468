"""C02: the solver starts from the exact averages of its initial condition"""
import itertools

import numpy as np

from symx.runner import Task
from props.common import *

DOM = [(-0.5, 1.25), (0.25, 1.0), (-1.0, 0.5)]
VARS = ("rho", "vx", "vy", "vz", "P")


class Poly:
    """polynomial in x, y, z as {(a, b, c): coefficient}"""

    def __init__(self, c):
        self.c = c

    def __call__(self, x, y, z):
        out = 0
        for (a, b, c), k in self.c.items():
            out = out + k * x**a * y**b * z**c
        return out

    def __add__(self, o):
        d = dict(self.c)
        for k, v in o.c.items():
            d[k] = d[k] + v if k in d else v
        return Poly(d)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return Poly({k: v * o for k, v in self.c.items()})
        d = {}
        for (k, v), (l, w) in itertools.product(self.c.items(), o.c.items()):
            m = tuple(i + j for i, j in zip(k, l))
            d[m] = d[m] + v * w if m in d else v * w
        return Poly(d)

    def average(self, ctx, n, dom):
        """exact averages over the cells"""
        out = 0
        for e, k in self.c.items():
            t = k
            for ax in range(3):
                a, b = (ctx.const(q) for q in dom[ax])
                h = (b - a) / n[ax]
                v = []
                for i in range(n[ax]):
                    l, r = a + h * i, a + h * (i + 1)
                    v.append((r ** (e[ax] + 1) - l ** (e[ax] + 1)) / (h * (e[ax] + 1)))
                t = t * ctx.stack(v).reshape([-1 if q == ax else 1 for q in range(3)])
            out = out + t
        return out


def poly(ctx, name, deg, base=0.0):
    c = {}
    for e in itertools.product(*[range(d + 1) for d in deg]):
        c[e] = ctx.real(f"{name}{''.join(map(str, e))}", -1, 1)
    if base:
        c[(0, 0, 0)] = c[(0, 0, 0)] + base
    return Poly(c)


def _ic(fields):
    from fvhoe.initial_conditions import InitialCondition

    class Given(InitialCondition):
        def base_ic(self):
            return lambda x, y, z: np.stack([f(x, y, z) + 0 * x for f in fields])

    return Given()


def _solver(ctx, fields, n, p, passives, gamma=None, **kw):
    from fvhoe.solver import EulerSolver

    w0p = {name: f for name, f in passives.items()} or None
    return EulerSolver(w0=_ic(fields), w0_passives=w0p, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=DOM[0], y=DOM[1], z=DOM[2],
                       gamma=ctx.frac(7, 5) if gamma is None else gamma, fixed_dt=0.1, progress_bar=False, **kw)


def conservative(ctx, n, p, passives=0):
    """conservative fields that are polynomials of the scheme's degree"""
    f = [poly(ctx, v, p) for v in ("rho", "mx", "my", "mz", "E")]
    s = {f"s{k}": poly(ctx, f"s{k}", p) for k in range(passives)}
    q = _solver(ctx, f, n, p, s, conservative_ic=True)
    ctx.true("shape", tuple(q.am("u").shape) == (5 + passives,) + tuple(n))
    ctx.observe("u", q.am("u"))
    for k, g in enumerate(f + list(s.values())):
        ctx.eq(f"average {k}", q.am("u")[k], g.average(ctx, n, DOM), tol=1e-9)


def primitive(ctx, n, p, deg, passives=0, gamma="7/5"):
    """primitive fields whose conservative products stay within the degree"""
    rho, vx, vy, vz, P = (poly(ctx, v, deg[0 if v == "rho" else 1 if v in ("vx", "vy", "vz") else 2], 1.5 if v in ("rho", "P") else 0) for v in VARS)
    s = {f"s{k}": poly(ctx, f"s{k}", deg[1]) for k in range(passives)}
    g = frac(ctx, gamma) if gamma else ctx.real("gamma", 1.02, 3)
    q = _solver(ctx, [rho, vx, vy, vz, P], n, p, s, gamma=g)
    want = [rho, rho * vx, rho * vy, rho * vz, P * (1 / (g - 1)) + (rho * (vx * vx + vy * vy + vz * vz)) * ctx.frac(1, 2)] + [rho * f for f in s.values()]
    for k, f in enumerate(want):
        ctx.eq(f"average {k}", q.am("u")[k], f.average(ctx, n, DOM), tol=1e-8)


def given(ctx, n, p, passives=0):
    """averages given by the user are taken as they are"""
    u = ctx.array("u", (5 + passives,) + n, 0.5, 2)
    q = make_solver(u, p=p, passives=tuple(f"s{k}" for k in range(passives)), fixed_dt=0.1)
    ctx.eq("u", q.am("u"), u)
    keep = u.copy()
    q.am("u")[...] = 0.0
    ctx.eq("input not modified", u, keep)


def first_snapshot_time(ctx, n, p):
    u = ctx.array("u", (5,) + n, 0.5, 2)
    q = make_solver(u, p=p, fixed_dt=0.1)
    ctx.eq("t", q.t, 0.0)
    ctx.true("fresh", q.step_count == 0 and len(q.snapshots) == 0 and len(q.timestamps) == 1)
    ctx.eq("timestamp", q.timestamps[0], 0.0)
    ctx.eq("u", q.am("u"), u)


def rejected(ctx):
    """averages of primitive variables are not a valid start"""
    u = ctx.array("u", (5, 2, 1, 1), 0.5, 2)
    from fvhoe.solver import EulerSolver

    try:
        EulerSolver(w0=state_ic(u), nx=2, fv_ic=True, progress_bar=False)
        ok = False
    except ValueError:
        ok = True
    ctx.true("rejected", ok)


def tasks(tier):
    ts = []
    for p in range(0, 6 if tier == "quick" else 9):
        for ax in range(3):
            n, q = [1, 1, 1], [0, 0, 0]
            n[ax], q[ax] = max(4, 4 * -(-p // 2)), p
            if (p + ax) % 3 and tier == "quick" and p > 2:
                continue
            ts.append(Task("conservative", dict(n=tuple(n), p=tuple(q), passives=p % 3)))
    for n, p in (((4, 4, 1), (1, 2, 0)), ((1, 4, 8), (0, 2, 3)), ((8, 1, 4), (3, 0, 1)), ((4, 4, 4), (1, 1, 2)), ((2, 2, 2), (0, 0, 0))):
        ts.append(Task("conservative", dict(n=n, p=p, passives=1)))
    one = (0, 0, 0)
    for ax in range(3):
        e = tuple(int(k == ax) for k in range(3))
        n, q = [1, 1, 1], [0, 0, 0]
        n[ax], q[ax] = 8, 3
        ts.append(Task("primitive", dict(n=tuple(n), p=tuple(q), deg=(e, e, e), passives=2)))
        q2 = list(q)
        q2[ax] = 2
        n[ax] = 4
        ts.append(Task("primitive", dict(n=tuple(n), p=tuple(q2), deg=(one, e, tuple(2 * k for k in e)), passives=1)))
        ts.append(Task("primitive", dict(n=tuple(n), p=tuple(q2), deg=(tuple(2 * k for k in e), one, e), passives=1)))
    ts.append(Task("primitive", dict(n=(4, 4, 1), p=(2, 2, 0), deg=(one, (1, 0, 0), (1, 1, 0)), passives=1)))
    ts.append(Task("primitive", dict(n=(4, 1, 4), p=(1, 0, 2), deg=((1, 0, 2), one, (1, 0, 1)), passives=1)))
    ts.append(Task("primitive", dict(n=(2, 3, 2), p=(0, 0, 0), deg=(one, one, one), passives=2)))
    for gam in (None, "21/20", "2", "3"):
        ts.append(Task("primitive", dict(n=(2, 1, 2), p=(0, 0, 0), deg=(one, one, one), passives=4, gamma=gam)))
    for n, p, k in (((3, 1, 1), (0, 0, 0), 0), ((4, 5, 1), (1, 2, 0), 2), ((1, 1, 8), (0, 0, 3), 1), ((2, 2, 2), (0, 0, 0), 1), ((2, 1, 2), (0, 0, 0), 6)):
        ts.append(Task("given", dict(n=n, p=p, passives=k)))
    ts.append(Task("first_snapshot_time", dict(n=(3, 1, 1), p=(0, 0, 0))))
    ts.append(Task("rejected", {}))
    return ts


META = dict(
    bounds="polynomial fields with coefficients in [-1,1], degrees 0-5 (thorough 0-8) per direction in 1D and 1-3 in 2D and 3D, grids of up to 16 cells per axis on one fixed "
    "non-symmetric domain, up to two passive scalars (four to six at first order), gamma 7/5 and, at first order, any in [1.02,3]; averages to 1e-8 (the Gauss points are doubles)",
    how="polynomial coefficients are symbolic; the solver's initial array is compared with the closed-form cell averages of the conservative products.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
