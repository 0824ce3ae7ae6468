"""C17: solid walls let nothing through"""
import numpy as np

from symx.runner import Task
from props.common import *

WALL = ("reflective", "reflective")


def _state(ctx, n, kind, passives=0, seed=31):
    if kind == "arbitrary":
        return cons_state(ctx, "u", n, passives)
    u = fixed(ctx, (5 + passives,) + n, seed)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 2
    if kind == "energy":
        u[4] = ctx.array("E", n, 2, 4)
    for k in range(passives):
        u[5 + k] = ctx.array(f"s{k}", n, -1, 1)
    return u


def closed(ctx, n, p, rs, kind="arbitrary", passives=0, cfg=None, bounds=None, bc=None, how=None):
    """totals inside a closed box: everything but the momentum normal to a wall is conserved"""
    from fvhoe.boundary_conditions import BoundaryCondition

    u = _state(ctx, n, kind, passives)
    bc = bc or ("reflective",) * 3
    kw = dict(p=p, passives=tuple(f"s{k}" for k in range(passives)), riemann_solver=rs, gamma=ctx.frac(7, 5), fixed_dt=0.01, bc=BoundaryCondition(x=bc[0], y=bc[1], z=bc[2]), x=(0.0, 1.5), y=(-1.0, 1.0), z=(0.0, 2.0))
    if cfg is not None:
        cfg = dict(cfg)
        if bounds is not None:
            cfg["PAD"] = {"rho": (ctx.real("lo", *bounds), 1e3)}
        kw.update(a_posteriori_slope_limiting=True, **cfg)
    s = make_solver(u, **kw)
    if how is None:
        tot = s.f(0.0, s.am("u"))[1].sum(axis=(1, 2, 3))
    else:
        getattr(s, how)(n=2)
        tot = (s.am("u") - u).sum(axis=(1, 2, 3))
    act = [n[i] > 1 or p[i] > 0 for i in range(3)]
    ctx.eq("mass", tot[0], ctx.const(0.0), tol=1e-9)
    ctx.eq("energy", tot[4], ctx.const(0.0), tol=1e-9)
    for k in range(passives):
        ctx.eq(f"scalar {k}", tot[5 + k], ctx.const(0.0), tol=1e-9)
    for ax in range(3):
        if not act[ax] or bc[ax] == "periodic":
            ctx.eq(f"momentum {'xyz'[ax]}", tot[1 + ax], ctx.const(0.0), tol=1e-9)


def pressed(ctx, n, ax, rs, gamma):
    """first order, arbitrary wall states: a wall exchanges only momentum, at least the pressure of the gas next to it when that moves towards it"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from props.c08 import _by_c, _cons

    g = frac(ctx, gamma)
    sh = [1, 1, 1]
    sh[ax] = 2
    w, c = _by_c(ctx, "w", (1, 1, 1), g, 1)
    # a uniform state at rest along the wall normal presses with exactly P: both walls balance
    w[1 + ax] = 0 * w[0]
    u = np.concatenate([_cons(w, g)] * 2, axis=ax + 1)
    bc = BoundaryCondition(**{x: ("reflective", "free") if i == ax else "periodic" for i, x in enumerate("xyz")})
    s = make_solver(u, passives=("s0",), riemann_solver=rs, gamma=g, fixed_dt=0.1, bc=bc)
    ctx.eq("balance", s.f(0.0, s.am("u"))[1], ctx.const(0.0))
    # moving towards the left wall: it decelerates
    v = ctx.real("v", 0.1, 2)
    w[1 + ax] = 0 * w[0] - v
    u = np.concatenate([_cons(w, g)] * 2, axis=ax + 1)
    s = make_solver(u, passives=("s0",), riemann_solver=rs, gamma=g, fixed_dt=0.1, bc=bc)
    r = s.f(0.0, s.am("u"))[1]
    first = tuple(0 for _ in range(3))
    ctx.lt("slowed", 0 * v, r[(1 + ax,) + first])
    # nothing crosses the wall: what enters the first cell comes from the second
    h = 0.5
    rho, P = w[0][first], w[4][first]
    ctx.eq("mass", r[(0,) + first], rho * v / h)
    for k in (5,):
        ctx.eq("scalar", r[(k,) + first], rho * v * w[k][first] / h)
    for b in range(3):
        if b != ax:
            ctx.eq(f"tangential {b}", r[(1 + b,) + first], rho * v * w[1 + b][first] / h)
    q = w[1][first] * w[1][first] + w[2][first] * w[2][first] + w[3][first] * w[3][first]
    ctx.eq("energy", r[(4,) + first], v * (P / (g - 1) + rho * q / 2 + P) / h)


def tasks(tier):
    ts = []

    def add(n, p, rs, **kw):
        opt = dict(round_bits=120) if kw.get("kind") in ("energy", "fixed") else {}
        ts.append(Task("closed", dict(n=n, p=p, rs=rs, **kw), **opt))

    per = ("reflective", "periodic", "periodic")
    lim = [dict(slope_limiter=sl, NAD=1e-2) for sl in ("minmod", "moncen", None)]
    for rs in ("llf", "hllc"):
        add((2, 1, 1), (0, 0, 0), rs, passives=1)
        add((1, 2, 1), (0, 0, 0), rs)
        add((1, 1, 2), (0, 0, 0), rs)
        add((4, 1, 1), (1, 0, 0), rs, kind="energy", passives=1)
        add((1, 5, 1), (0, 2, 0), rs, kind="energy")
        add((1, 1, 8), (0, 0, 3), rs, kind="energy", passives=1)
        add((2, 2, 1), (0, 0, 0), rs, kind="energy", passives=1)
        add((1, 4, 4), (0, 1, 0), rs, kind="fixed", passives=5)
        add((70, 1, 1), (1, 0, 0), rs, kind="fixed", passives=1)
        add((1, 1, 131), (0, 0, 2), rs, kind="fixed")
        add((4, 1, 5), (1, 0, 2), rs, kind="fixed", passives=1)
        add((1, 8, 6), (0, 3, 1), rs, kind="fixed", passives=2)
        add((4, 4, 4), (1, 1, 1), rs, kind="fixed", passives=1)
        # walls next to periodic seams
        add((4, 5, 1), (1, 2, 0), rs, kind="fixed", passives=1, bc=per)
        add((1, 6, 8), (0, 1, 3), rs, kind="fixed", passives=1, bc=per[1:] + per[:1])
        # after two steps
        for how in ("euler", "ssprk2", "ssprk3", "rk4"):
            add((5, 1, 1), (2, 0, 0), rs, kind="fixed", passives=1, how=how)
        add((1, 4, 4), (0, 1, 1), rs, kind="fixed", passives=1, how="ssprk2")
        # limited, any admissible-density bound
        for c in lim:
            add((6, 1, 1), (1, 0, 0), rs, kind="fixed", cfg=c, bounds=(0.5, 0.75))
            add((5, 1, 5), (2, 0, 1), rs, kind="fixed", cfg=c, bounds=(0.5, 0.52))
        for ax in range(3):
            n, p = [1, 1, 1], [0, 0, 0]
            n[ax], p[ax] = 8, 3
            add(tuple(n), tuple(p), rs, kind="fixed", cfg=lim[1], bounds=(0.5, 0.75))
            ts.append(Task("pressed", dict(n=2, ax=ax, rs=rs, gamma=("7/5", "5/3")[ax % 2])))
        if tier == "thorough":
            add((4, 1, 4), (1, 0, 2), rs, kind="energy")
            add((12, 1, 1), (5, 0, 0), rs, kind="energy", passives=1)
            add((1, 16, 1), (0, 7, 0), rs, kind="fixed", passives=1)
            add((5, 5, 5), (2, 1, 2), rs, kind="fixed", passives=1, how="ssprk3")
            for c in lim:
                add((8, 8, 1), (3, 3, 0), rs, kind="fixed", cfg=c, bounds=(0.5, 0.52))
    return ts


META = dict(
    bounds="boxes closed by reflective walls on every side, or by walls on one axis and periodic on the others; llf and hllc; arbitrary states on 2-cell first-order grids, arbitrary energies and scalars on 1D grids up to degree 3 and 2D first order, fixed flows with arbitrary scalars or an arbitrary admissible-density bound (limited: minmod, moncen, first order) in 1D-3D up to degree 3; one rate evaluation or two steps of every integrator",
    how="f and the integrators run symbolically; the sums over the grid of mass, energy, scalars and wall-tangential (periodic) momentum must vanish or stay; for a uniform gas at or moving towards a wall the first-order rates are compared with the closed form of a wall that passes nothing",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
