"""C06: numerical fluxes respect mirror symmetry, axis relabelling and Galilean-independent transverse motion"""
import numpy as np

from symx.runner import Task
from props.common import *


def _states(ctx, passives):
    r = dict(rho=(0.1, 10), v=(-5, 5), P=(0.1, 10))
    return prim_state(ctx, "L", (1, 1, 1), passives, **r), prim_state(ctx, "R", (1, 1, 1), passives, **r)


def _call(solver, hs, wl, wr, g, dim):
    import fvhoe.riemann_solvers as rs

    return getattr(rs, solver)(hs=hs, riemann_problem=(wl, wr), gamma=g, dim=dim, csq_floor=1e-10)


def mirror(ctx, solver, dim, gamma, regime=None):
    """reflecting the normal direction swaps the states and changes the sign of every flux but the normal momentum's"""
    from fvhoe.hydro import HydroState

    hs = HydroState(passive_scalars=("a",))
    g = frac(ctx, gamma)
    wl, wr = _states(ctx, 1)
    d = "xyz".index(dim) + 1
    if solver == "advection_upwind":
        wr[d] = wl[d]  # a single velocity at the interface is assumed
    F = _call(solver, hs, wl, wr, g, dim)
    ctx.observe("F", F)
    ml, mr = wr.copy(), wl.copy()
    ml[d] = -ml[d]
    mr[d] = -mr[d]
    if solver == "hllc":
        wave_regime(ctx, wl, wr, d, g, regime)
    M = _call(solver, hs, ml, mr, g, dim)
    for i in range(6):
        ctx.eq(f"flux{i}", M[i], F[i] if i == d else -F[i])


def ordering(ctx, dim, gamma):
    """the wave speeds the HLLC regimes are split by are always ordered"""
    wl, wr = _states(ctx, 0)
    wave_order(ctx, wl, wr, "xyz".index(dim) + 1, frac(ctx, gamma))


def rotate(ctx, solver, dim, to, passives=2):
    """relabelling the axes relabels the flux components"""
    from fvhoe.hydro import HydroState

    hs = HydroState(passive_scalars=("a", "b", "c", "d", "e")[:passives])
    g = ctx.real("gamma", 1.05, 3)
    wl, wr = _states(ctx, passives)
    F = _call(solver, hs, wl, wr, g, dim)
    ctx.observe("F", F)
    a, b = "xyz".index(dim) + 1, "xyz".index(to) + 1
    perm = list(range(5 + passives))
    perm[a], perm[b] = perm[b], perm[a]
    G = _call(solver, hs, wl[perm], wr[perm], g, to)
    ctx.eq("flux", G[perm], F)


def flip_transverse(ctx, solver, dim, t):
    """reversing a transverse velocity reverses that momentum flux and nothing else"""
    from fvhoe.hydro import HydroState

    hs = HydroState(passive_scalars=("a",))
    g = ctx.real("gamma", 1.05, 3)
    wl, wr = _states(ctx, 1)
    F = _call(solver, hs, wl, wr, g, dim)
    ctx.observe("F", F)
    i = "xyz".index(t) + 1
    ml, mr = wl.copy(), wr.copy()
    ml[i] = -ml[i]
    mr[i] = -mr[i]
    M = _call(solver, hs, ml, mr, g, dim)
    for k in range(6):
        ctx.eq(f"flux{k}", M[k], -F[k] if k == i else F[k])


def elementwise(ctx, solver, dim):
    """every interface is treated on its own"""
    from fvhoe.hydro import HydroState

    hs = HydroState(passive_scalars=("a",))
    g = frac(ctx, "7/5")
    r = dict(rho=(0.1, 10), v=(-5, 5), P=(0.1, 10))
    n = (2, 1, 2)
    wl, wr = prim_state(ctx, "L", n, 1, **r), prim_state(ctx, "R", n, 1, **r)
    F = _call(solver, hs, wl, wr, g, dim)
    ctx.observe("F", F)
    for i, k in np.ndindex(2, 2):
        one = _call(solver, hs, wl[:, i : i + 1, :, k : k + 1], wr[:, i : i + 1, :, k : k + 1], g, dim)
        ctx.eq(f"interface {i}{k}", one[:, 0, 0, 0], F[:, i, 0, k])


def tasks(tier):
    ts = [Task("ordering", dict(dim=d, gamma=g)) for d, g in (("x", "7/5"), ("y", "5/3"))]
    for s in ("llf", "hllc", "advection_upwind"):
        for d in "xyz":
            for r in (REGIMES + (("contact at rest",) if tier == "thorough" else ())) if s == "hllc" else (None,):
                ts.append(Task("mirror", dict(solver=s, dim=d, gamma="5/3" if d == "y" else "7/5", regime=r), budget=20))
            ts.append(Task("elementwise", dict(solver=s, dim=d)))
            for t in "xyz":
                if t != d:
                    ts.append(Task("rotate", dict(solver=s, dim=d, to=t)))
                    if (d, t) in (("x", "z"), ("y", "x")):
                        ts.append(Task("rotate", dict(solver=s, dim=d, to=t, passives=5)))
                    ts.append(Task("flip_transverse", dict(solver=s, dim=d, t=t)))
    return ts


META = dict(
    bounds="one interface (four for the elementwise claim), densities and pressures in [0.1,10], velocities in [-5,5], "
    "gamma symbolic in [1.05,3] or 5/3, 7/5; up to five passive scalars",
    how="left and right states are independent symbolic primitive states.",
    assumptions=["real arithmetic in place of IEEE rounding", "advection_upwind: both sides carry the same normal velocity (its documented assumption)"],
)
