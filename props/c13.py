"""C13: periodic dynamics commute with translations"""
import numpy as np

from symx.runner import Task
from props.common import *


def _state(ctx, n, kind, passives=0, seed=23):
    if kind == "arbitrary":
        return cons_state(ctx, "u", n, passives)
    u = fixed(ctx, (5 + passives,) + n, seed)
    u[1:4] = u[1:4] - 1
    if kind == "fixed":
        u[4] = u[4] + 3
        return u
    u[4] = ctx.array("E", n, 2, 4)
    for k in range(passives):
        u[5 + k] = ctx.array(f"s{k}", n, -1, 1)
    return u


def _roll(a, shift, first=1):
    for ax, k in enumerate(shift):
        if k:
            a = np.roll(a, k, axis=ax + first)
    return a


def shifted(ctx, n, p, shift, rs, kind="arbitrary", passives=0, dt=None, cfg=None, bounds=None):
    u = _state(ctx, n, kind, passives)
    kw = dict(p=p, passives=tuple(f"s{k}" for k in range(passives)), riemann_solver=rs, gamma=ctx.frac(7, 5), fixed_dt=dt, x=(0.0, 1.5), y=(-1.0, 1.0), z=(0.0, 2.0))
    if cfg is not None:
        cfg = dict(cfg)
        if bounds is not None:
            cfg["PAD"] = {"rho": (ctx.real("lo", *bounds), 1e3)}
        kw.update(a_posteriori_slope_limiting=True, **cfg)
    s = make_solver(u, **kw)
    r = make_solver(_roll(u, shift), **kw)
    dt0, a = s.f(0.0, s.am("u"))
    dt1, b = r.f(0.0, r.am("u"))
    ctx.eq("time step", dt1, dt0)
    ctx.eq("rate", b, _roll(a, shift), tol=1e-9)
    if cfg is not None:
        s.step_helper_function()
        r.step_helper_function()
        s.snapshot()
        r.snapshot()
        for key in ("trouble", "NAD violation magnitude", "PAD violation magnitude", "w"):
            x, y = s.snapshots[-1][key], r.snapshots[-1][key]
            ctx.eq(key, y, _roll(x, shift, x.ndim - 3), tol=1e-9)
    else:
        s.snapshot()
        r.snapshot()
        ctx.eq("snapshot", r.snapshots[-1]["w"], _roll(s.snapshots[-1]["w"], shift), tol=1e-9)


def tasks(tier):
    ts = []

    def add(n, p, shift, rs, **kw):
        opt = dict(round_bits=120) if kw.get("kind") == "energy" else {}
        ts.append(Task("shifted", dict(n=n, p=p, shift=shift, rs=rs, **kw), **opt))

    for rs in ("advection_upwind", "llf", "hllc"):
        add((3, 1, 1), (0, 0, 0), (1, 0, 0), rs, passives=1)
        add((1, 3, 1), (0, 0, 0), (0, 2, 0), rs, dt=0.01)
        add((1, 1, 4), (0, 0, 1), (0, 0, 1), rs, dt=0.01)
        add((2, 2, 1), (0, 0, 0), (1, 1, 0), rs, dt=0.01)
        add((4, 1, 1), (1, 0, 0), (3, 0, 0), rs, dt=0.01, kind="energy")
        add((1, 5, 1), (0, 2, 0), (0, 2, 0), rs, dt=0.01, kind="energy", passives=1)
        add((4, 1, 4), (1, 0, 1), (1, 0, 2), rs, dt=0.01, kind="energy")
        add((1, 4, 4), (0, 2, 1), (0, 3, 1), rs, dt=0.01, kind="energy", passives=1)
        add((2, 3, 2), (0, 0, 0), (1, 2, 1), rs, dt=0.01, kind="energy")
    add((2, 1, 2), (0, 0, 0), (1, 0, 1), "llf", dt=0.01, passives=4)
    add((1, 4, 1), (0, 1, 0), (0, 1, 0), "hllc", dt=0.01, kind="fixed", passives=6)
    add((70, 1, 1), (1, 0, 0), (33, 0, 0), "llf", dt=0.01, kind="fixed", passives=1)
    add((1, 1, 130), (0, 0, 2), (0, 0, 1), "hllc", dt=0.01, kind="fixed")
    add((1, 20, 11), (0, 1, 0), (0, 9, 10), "hllc", dt=0.01, kind="fixed")
    add((5, 7, 6), (0, 0, 0), (3, 5, 4), "llf", dt=0.01, kind="fixed")
    add((1, 1, 8), (0, 0, 3), (0, 0, 5), "hllc", dt=0.01, kind="energy")
    add((12, 1, 1), (5, 0, 0), (7, 0, 0), "llf", dt=0.01, kind="energy")
    add((16, 1, 1), (8, 0, 0), (1, 0, 0), "advection_upwind", dt=0.01, kind="energy")
    add((8, 6, 1), (3, 2, 0), (3, 1, 0), "advection_upwind", dt=0.01, kind="energy")
    add((4, 4, 4), (1, 2, 1), (1, 2, 3), "advection_upwind", dt=0.01, kind="energy")
    add((1, 4, 1), (0, 1, 0), (0, 1, 0), "llf", kind="energy")
    add((1, 4, 4), (0, 1, 1), (0, 2, 1), "hllc", kind="energy")
    if tier == "thorough":
        add((8, 1, 1), (3, 0, 0), (3, 0, 0), "hllc", dt=0.01)
        add((4, 4, 4), (2, 1, 1), (3, 1, 2), "hllc", dt=0.01, kind="energy")
        add((8, 8, 1), (3, 4, 0), (3, 7, 0), "llf", dt=0.01, kind="energy")
    # the limited scheme with the real detector: thresholds cut through a fixed flow at every possible place
    lim = dict(SED=False, NAD_vars=("rho",), NAD=0.02)
    runs = [
        ((5, 1, 1), (1, 0, 0), (2, 0, 0), "advection_upwind", dict(slope_limiter="minmod")), ((1, 6, 1), (0, 2, 0), (0, 1, 0), "advection_upwind", dict(slope_limiter="moncen")),
        ((1, 1, 8), (0, 0, 3), (0, 0, 3), "advection_upwind", dict(slope_limiter="minmod", convex=True)), ((5, 1, 1), (1, 0, 0), (4, 0, 0), "hllc", dict(slope_limiter="moncen", convex=True)),
        ((1, 5, 5), (0, 1, 1), (0, 1, 3), "advection_upwind", dict(slope_limiter="minmod", convex=True)), ((5, 1, 5), (1, 0, 2), (2, 0, 1), "llf", dict(slope_limiter=None, NAD_mode="local")),
        ((5, 5, 1), (1, 1, 0), (1, 0, 0), "advection_upwind", dict(slope_limiter="minmod", convex=True, NAD_mode="local", NAD_range="absolute")),
        ((1, 7, 1), (0, 1, 0), (0, 5, 0), "llf", dict(slope_limiter="minmod", SED=True, NAD_vars=None)), ((5, 5, 1), (1, 1, 0), (3, 2, 0), "advection_upwind", dict(slope_limiter="moncen", SED=True, NAD_vars=None)),
    ]
    for n, p, shift, rs, c in runs:
        ts.append(Task("shifted", dict(n=n, p=p, shift=shift, rs=rs, kind="fixed", dt=0.02, cfg=dict(lim, **c), bounds=(0.5, 0.75)), round_bits=120, max_paths=200))
    for i, (n, p, shift) in enumerate((((5, 1, 1), (1, 0, 0), (2, 0, 0)), ((1, 6, 1), (0, 2, 0), (0, 1, 0)), ((1, 1, 8), (0, 0, 3), (0, 0, 3)), ((5, 1, 5), (1, 0, 1), (2, 0, 4)))):
        for j, c in enumerate((dict(), dict(NAD_mode="local"), dict(NAD_range="absolute", slope_limiter="moncen"), dict(SED=True, NAD_vars=None), dict(force_trouble=True, slope_limiter=None))):
            if p != (1, 0, 1) or j in (1, 3):
                ts.append(Task("shifted", dict(n=n, p=p, shift=shift, rs=("advection_upwind", "hllc", "llf")[(i + j) % 3], kind="energy", dt=0.02, cfg=dict(dict(lim, NAD_vars=("P", "rho")), **c)), round_bits=120, max_paths=200))
    return ts


META = dict(
    bounds="arbitrary states on 3-4 cells (1D) and 2x2 (2D) at degrees 0-1; flows with arbitrary energies and scalars on up to 16 cells (degree 8), 8x6 (degrees 3, 2), 4x4x4 (degrees 1-2); the limited scheme with the "
    "real detector on 5-8 cells and 5x5 with arbitrary energies or arbitrary physical bounds over fixed flows; fixed flows on up to 130 cells and six scalars; one shift per configuration",
    how="the rates, steps, trouble logs and snapshots of a state and of its shifted copy are computed by two solvers and compared cell by cell.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
