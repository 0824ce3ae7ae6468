"""C12: all axes and directions are treated alike"""
import itertools

import numpy as np

from symx.runner import Task
from props.common import *

DOM = [(0.0, 1.5), (-1.0, 1.0), (0.5, 1.25)]
F, R, O = "free", "reflective", "outflow"


def _state(ctx, n, kind, passives=0, seed=29):
    if kind == "arbitrary":
        return cons_state(ctx, "u", n, passives)
    u = fixed(ctx, (5 + passives,) + n, seed)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 2
    if kind == "energy":
        u[4] = ctx.array("E", n, 2, 4)
    for k in range(passives):
        u[5 + k] = ctx.array(f"s{k}", n, -1, 1)
    return u


def _take(u, rows):
    return np.concatenate([u[k : k + 1] for k in rows], axis=0)


def _permute(u, perm):
    """axis i of the result is axis perm[i] of u"""
    nv = u.shape[0]
    rows = [0] + [1 + perm[i] for i in range(3)] + list(range(4, nv))
    return np.transpose(_take(u, rows), (0,) + tuple(1 + a for a in perm))


def _mirror(u, ax):
    q = np.flip(u, axis=ax + 1)
    return np.concatenate([q[k : k + 1] if k != 1 + ax else -q[k : k + 1] for k in range(u.shape[0])], axis=0)


def _kw(ctx, rs, dt, cfg, bounds):
    kw = dict(riemann_solver=rs, gamma=ctx.frac(7, 5), fixed_dt=dt)
    if cfg is not None:
        cfg = dict(cfg)
        if bounds is not None:
            cfg["PAD"] = {"rho": (ctx.real("lo", *bounds), 1e3)}
        kw.update(a_posteriori_slope_limiting=True, **cfg)
    return kw


def _bc(pairs):
    from fvhoe.boundary_conditions import BoundaryCondition

    return None if pairs is None else BoundaryCondition(x=pairs[0], y=pairs[1], z=pairs[2])


def _go(s, t=0.0):
    dt, rate = s.f(t, s.am("u"))
    s.step_helper_function()
    s.snapshot()
    return dt, rate.copy(), s.snapshots[-1]


LOGS = ("trouble", "NAD violation magnitude", "PAD violation magnitude")


def permuted(ctx, n, p, perm, rs, kind="arbitrary", passives=0, dt=None, bc=None, cfg=None, bounds=None):
    u = _state(ctx, n, kind, passives)
    kw = _kw(ctx, rs, dt, cfg, bounds)
    names = tuple(f"s{k}" for k in range(passives))
    s = make_solver(u, p=p, passives=names, x=DOM[0], y=DOM[1], z=DOM[2], bc=_bc(bc), **kw)
    d2, p2 = [DOM[a] for a in perm], tuple(p[a] for a in perm)
    b2 = None if bc is None else [bc[a] for a in perm]
    r = make_solver(_permute(u, perm), p=p2, passives=names, x=d2[0], y=d2[1], z=d2[2], bc=_bc(b2), **kw)
    dt0, a, sa = _go(s)
    dt1, b, sb = _go(r)
    ctx.eq("time step", dt1, dt0)
    ctx.eq("rate", b, _permute(a, perm), tol=1e-9)
    ctx.eq("snapshot", sb["w"], _permute(sa["w"], perm), tol=1e-9)
    if cfg is not None:
        for k in LOGS:
            ctx.eq(k, sb[k], np.transpose(sa[k], perm), tol=1e-9)


def mirrored(ctx, n, p, ax, rs, kind="arbitrary", passives=0, dt=None, bc=None, cfg=None, bounds=None):
    u = _state(ctx, n, kind, passives)
    if rs == "advection_upwind":
        # pure advection assumes a continuous normal velocity
        u[1 + ax] = u[0] * (ctx.real("speed", -1, 1) if kind == "arbitrary" else 0.75)
    kw = _kw(ctx, rs, dt, cfg, bounds)
    names = tuple(f"s{k}" for k in range(passives))
    s = make_solver(u, p=p, passives=names, x=DOM[0], y=DOM[1], z=DOM[2], bc=_bc(bc), **kw)
    b2 = None if bc is None else [b if i != ax else (b[::-1] if isinstance(b, tuple) else b) for i, b in enumerate(bc)]
    r = make_solver(_mirror(u, ax), p=p, passives=names, x=DOM[0], y=DOM[1], z=DOM[2], bc=_bc(b2), **kw)
    dt0, a, sa = _go(s)
    dt1, b, sb = _go(r)
    ctx.eq("time step", dt1, dt0)
    ctx.eq("rate", b, _mirror(a, ax), tol=1e-9)
    ctx.eq("snapshot", sb["w"], _mirror(sa["w"], ax), tol=1e-9)
    if cfg is not None:
        for k in LOGS:
            ctx.eq(k, sb[k], np.flip(sa[k], axis=ax), tol=1e-9)


def reduced(ctx, n, p, extra, rs, kind="arbitrary", passives=0, bc=None, cfg=None, bounds=None):
    """data that do not vary along the axes in extra = {axis: (cells, degree, boundary)}: the lower-dimensional rates in every cell"""
    u = _state(ctx, n, kind, passives)
    kw = _kw(ctx, rs, 0.02, cfg, bounds)
    names = tuple(f"s{k}" for k in range(passives))
    bc = list(bc or ("periodic",) * 3)
    s = make_solver(u, p=p, passives=names, x=DOM[0], y=DOM[1], z=DOM[2], bc=_bc(bc), **kw)
    big, p2, b2 = u, list(p), list(bc)
    for ax, (m, q, t) in extra.items():
        big = np.concatenate([big] * m, axis=ax + 1)
        p2[ax], b2[ax] = q, t
    r = make_solver(big, p=tuple(p2), passives=names, x=DOM[0], y=DOM[1], z=DOM[2], bc=_bc(b2), **kw)
    _, a, sa = _go(s)
    _, b, sb = _go(r)
    ctx.eq("rate", b, np.broadcast_to(a, b.shape) if not ctx.symbolic else _spread(a, b.shape), tol=1e-9)
    ctx.eq("snapshot", sb["w"], np.broadcast_to(sa["w"], b.shape) if not ctx.symbolic else _spread(sa["w"], b.shape), tol=1e-9)


def _spread(a, shape):
    for ax in range(1, 4):
        if a.shape[ax] != shape[ax]:
            a = np.concatenate([a] * shape[ax], axis=ax)
    return a


def tasks(tier):
    ts = []

    def opt(kw):
        return dict(round_bits=120) if kw.get("kind") in ("energy", "fixed") else {}

    def perm(n, p, q, rs, **kw):
        ts.append(Task("permuted", dict(n=n, p=p, perm=q, rs=rs, **kw), **opt(kw)))

    def mirr(n, p, ax, rs, **kw):
        ts.append(Task("mirrored", dict(n=n, p=p, ax=ax, rs=rs, **kw), **opt(kw)))

    def red(n, p, extra, rs, **kw):
        ts.append(Task("reduced", dict(n=n, p=p, extra=extra, rs=rs, **kw), **opt(kw)))

    RS = ("advection_upwind", "llf", "hllc")
    for rs in RS:
        perm((3, 1, 1), (0, 0, 0), (1, 0, 2), rs, passives=1)
        perm((3, 1, 1), (0, 0, 0), (2, 1, 0), rs, dt=0.01, bc=((F, R), F, F))
        perm((1, 4, 1), (0, 1, 0), (0, 2, 1), rs, dt=0.01)
        perm((2, 2, 1), (0, 0, 0), (1, 2, 0), rs, dt=0.01, bc=((F, R), "periodic", O))
        perm((4, 4, 1), (1, 2, 0), (2, 0, 1), rs, dt=0.01, kind="energy", passives=1)
        perm((2, 2, 3), (0, 0, 0), (1, 2, 0), rs, dt=0.01, kind="energy")
        perm((2, 3, 2), (0, 0, 0), (1, 0, 2), rs, dt=0.01, kind="energy", bc=((F, R), (R, F), (O, F)))
        for ax in range(3):
            n, p = [1, 1, 1], [0, 0, 0]
            n[ax], p[ax] = 4, 1
            mirr(tuple(n), tuple(p), ax, rs, dt=0.01, kind="fixed", bc=tuple((F, O if rs == "advection_upwind" else R) if i == ax else F for i in range(3)))
            mirr(tuple(n), tuple(p), ax, rs, dt=0.01, **(dict(kind="energy") if rs != "hllc" else dict(kind="fixed", passives=2)))
        mirr((4, 4, 1), (1, 2, 0), 0, rs, dt=0.01, kind="fixed", passives=1)
        mirr((4, 1, 4), (2, 0, 1), 2, rs, dt=0.01, kind="fixed", passives=1)
        mirr((2, 3, 2), (0, 0, 0), 1, rs, dt=0.01, kind="fixed", bc=(F, (F, O), O), passives=1)
        mirr((8, 1, 1), (3, 0, 0), 0, rs, kind="fixed", passives=1, dt=None if rs != "hllc" else 0.01)
        red((3, 1, 1), (0, 0, 0), {1: (2, 0, "periodic")}, rs, passives=1)
        red((1, 4, 1), (0, 1, 0), {0: (4, 1, "periodic")}, rs)
        red((1, 1, 4), (0, 0, 2), {0: (4, 2, "periodic")}, rs, kind="energy", passives=1)
        red((1, 4, 1), (0, 1, 0), {2: (2, 2, F), 0: (2, 1, F)}, rs, kind="energy", bc=(F, (F, O), F))
        red((4, 4, 1), (1, 2, 0), {2: (2, 0, F)}, rs, kind="energy")
        red((4, 1, 1), (1, 0, 0), {2: (4, 1, "periodic"), 1: (2, 0, F)}, rs, kind="energy")
        red((1, 4, 4), (0, 1, 1), {0: (2, 1, F)}, rs, kind="energy")
    perm((2, 1, 2), (0, 0, 0), (2, 0, 1), "llf", passives=4, dt=0.01)
    mirr((1, 1, 3), (0, 0, 0), 2, "llf", passives=5, dt=0.01)
    perm((4, 1, 4), (1, 0, 2), (1, 2, 0), "hllc", passives=5, dt=0.01, kind="fixed")
    perm((21, 1, 1), (1, 0, 0), (2, 0, 1), "llf", passives=1, dt=0.01, kind="fixed")
    mirr((1, 66, 1), (0, 1, 0), 1, "llf", passives=1, dt=0.01, kind="fixed")
    mirr((1, 16, 1), (0, 7, 0), 1, "llf", dt=0.01, kind="fixed", passives=1)
    perm((8, 1, 1), (3, 0, 0), (1, 2, 0), "hllc", dt=0.01, kind="energy")
    perm((4, 4, 4), (1, 2, 1), (1, 2, 0), "advection_upwind", dt=0.01, kind="energy")
    perm((2, 3, 2), (1, 2, 1), (2, 1, 0), "llf", dt=0.01, kind="energy", bc=(F, F, F))
    perm((8, 6, 1), (3, 1, 0), (1, 0, 2), "llf", kind="energy", dt=0.01)
    perm((1, 4, 4), (0, 1, 1), (2, 1, 0), "llf", kind="energy")
    # with the limiter and the real detector
    lim = dict(SED=False, NAD_vars=("rho", "P"), NAD=0.02)
    L = [
        dict(slope_limiter="minmod"), dict(slope_limiter="moncen", convex=True), dict(slope_limiter=None, NAD_mode="local"), dict(slope_limiter="minmod", SED=True, NAD_vars=None, NAD=0.0),
        dict(slope_limiter="moncen", NAD_range="absolute", NAD_mode="local", convex=True), dict(force_trouble=True), dict(slope_limiter="minmod", convex=True, NAD_mode="local"),
    ]
    for i, c in enumerate(L):
        kw = dict(kind="fixed", dt=0.02, cfg=dict(lim, **c), bounds=(0.5, 0.75))
        for rs in (RS[i % 3], RS[(i + 1) % 3]):
            perm((5, 1, 1), (1, 0, 0), (1, 2, 0), rs, **kw)
            perm((1, 5, 5), (0, 1, 2), (1, 2, 0), rs, **kw)
            perm((1, 5, 5), (0, 1, 2), (0, 2, 1), rs, **kw)
            mirr((1, 6, 1), (0, 2, 0), 1, rs, **kw)
            if not (rs == "llf" and c.get("convex")):
                mirr((5, 1, 5), (1, 0, 1), (0, 2)[i % 2], rs, **kw)
            if not (c.get("convex")):
                red((5, 1, 1), (1, 0, 0), {1: (5, 1, "periodic")}, rs, kind="fixed", cfg=kw["cfg"], bounds=kw["bounds"])
                red((1, 5, 1), (0, 1, 0), {2: (5, 1, "periodic")}, rs, kind="fixed", cfg=kw["cfg"], bounds=kw["bounds"])
    perm((3, 5, 3), (0, 1, 1), (2, 0, 1), "llf", kind="fixed", dt=0.02, cfg=dict(lim, slope_limiter="minmod"), bounds=(0.5, 0.75), bc=(F, F, F))
    perm((3, 5, 3), (1, 1, 1), (1, 0, 2), "advection_upwind", kind="fixed", dt=0.02, cfg=dict(lim, slope_limiter="moncen", SED=True), bounds=(0.5, 0.75), bc=(F, F, F))
    return ts


META = dict(
    bounds="arbitrary states on 3-4 cells (1D) and 2x2 (2D) at degrees 0-1; flows with arbitrary energies or scalars in 1D, 2D and 3D at degrees 0-7 on grids of up to 16 cells, 8x6 and 4x4x4 for all Riemann solvers; "
    "seven limiter settings with the real detector and an arbitrary physical bound over fixed flows",
    how="two solvers run the state and its relabelled, mirrored or repeated copy; rates, steps, trouble logs and snapshots are compared cell by cell.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
