"""C04: primitive/conservative conversions, sound speed, physical fluxes and variable indexing"""
import numpy as np

from symx.runner import Task
from props.common import *

PASS = (("a",), ("zeta", "a"), ("c", "b", "a"), ("s9", "x", "dye", "B", "t", "s10", "_"))


def _w(ctx, n, k, wide=True):
    return prim_state(ctx, "w", n, k, rho=(0.01, 100), v=(-50, 50), P=(-10, 100))


def formulas(ctx, passives, n=(2, 1, 1)):
    """definitions, for every gamma: total energy, momentum, densities of the passive scalars; round trips"""
    from fvhoe.hydro import HydroState, compute_conservatives, compute_primitives

    hs = HydroState(passive_scalars=tuple(passives))
    g = ctx.real("gamma", 1.01, 3)
    w = _w(ctx, n, len(passives))
    keep = w.copy()
    u = compute_conservatives(hs, w, g)
    ctx.observe("u", u)
    ctx.eq("input unchanged", w, keep)
    ctx.eq("rho", u[0], w[0])
    for i in (1, 2, 3):
        ctx.eq(f"m{i}", u[i], w[0] * w[i])
    kin = w[0] * (w[1] * w[1] + w[2] * w[2] + w[3] * w[3]) * 0.5
    ctx.eq("E", (u[4] - kin) * (g - 1), w[4])
    for k in range(len(passives)):
        ctx.eq(f"s{k}", u[5 + k], w[0] * w[5 + k])
    w2 = compute_primitives(hs, u, g)
    ctx.eq("prim(cons(w))", w2, w)
    # the other way round, from an independent conservative state
    U = stack_sym if ctx.symbolic else np.stack
    q = U([ctx.array("q_rho", n, 0.01, 100)] + [ctx.array(f"q_{m}", n, -50, 50) for m in ("mx", "my", "mz", "E")]
          + [ctx.array(f"q_s{k}", n, -50, 50) for k in range(len(passives))])
    keepq = q.copy()
    wq = compute_primitives(hs, q, g)
    ctx.observe("wq", wq)
    ctx.eq("q unchanged", q, keepq)
    for i in (1, 2, 3):
        ctx.eq(f"v{i} rho", wq[i] * q[0], q[i])
    ctx.eq("P", wq[4] * q[0], (g - 1) * (q[4] * q[0] - 0.5 * (q[1] * q[1] + q[2] * q[2] + q[3] * q[3])))
    for k in range(len(passives)):
        ctx.eq(f"scalar{k}", wq[5 + k] * q[0], q[5 + k])
    ctx.eq("cons(prim(q))", compute_conservatives(hs, wq, g), q)


def sound(ctx, gamma, floor):
    from fvhoe.hydro import compute_sound_speed

    g = frac(ctx, gamma)
    w = _w(ctx, (2, 1, 1), 0)
    c = compute_sound_speed(w, g, csq_floor=floor)
    ctx.observe("c", c)
    for i in range(2):
        r, P, ci = w[0, i, 0, 0], w[4, i, 0, 0], c[i, 0, 0]
        ctx.le(f"c>=0 {i}", 0, ci)
        above = g * P > floor * r
        # c^2 rho = gamma P above the floor, c^2 = floor elsewhere
        ctx.true(f"c^2 {i}", ctx.ite(above, g * P - ci * ci * r, ci * ci - floor) * ctx.ite(above, g * P - ci * ci * r, ci * ci - floor) <= 1e-9)


def fluxes(ctx, dim, passives, pressure=True):
    from fvhoe.hydro import HydroState, compute_conservatives, compute_fluxes

    hs = HydroState(passive_scalars=tuple(passives))
    g = ctx.real("gamma", 1.01, 3)
    w = _w(ctx, (2, 1, 1), len(passives))
    u = compute_conservatives(hs, w, g)
    kw = {} if pressure else dict(include_pressure=False)
    F = compute_fluxes(hs=hs, w=w, u=u, gamma=g, dim=dim, **kw)
    ctx.observe("F", F)
    d = "xyz".index(dim) + 1
    v, P = w[d], w[4] * (1 if pressure else 0)
    ctx.eq("mass", F[0], w[0] * v)
    for i in (1, 2, 3):
        ctx.eq(f"momentum{i}", F[i], w[0] * w[i] * v + (P if i == d else 0 * P))
    ctx.eq("energy", F[4], v * (u[4] + P))
    for k in range(len(passives)):
        ctx.eq(f"scalar{k}", F[5 + k], w[0] * v * w[5 + k])


def indexing(ctx, passives, ndim):
    """HydroState selects exactly the named variable and the requested cells"""
    from fvhoe.hydro import HydroState

    hs = HydroState(passive_scalars=tuple(passives), ndim=ndim)
    nv = 5 + len(passives)
    a = ctx.array("a", (nv, 4, 3, 3)[:ndim])
    ctx.true("nvars", hs.nvars == nv)
    names = dict(rho=0, vx=1, mx=1, vy=2, my=2, vz=3, mz=3, P=4, E=4)
    names.update({s: 5 + k for k, s in enumerate(passives)})
    for nm, i in names.items():
        ctx.eq(nm, a[hs(nm)], a[i])
    ctx.eq("v", a[hs("v")], a[1:4])
    ctx.eq("m", a[hs("m")], a[1:4])
    ctx.eq("active", a[hs("active_scalars")], a[:5])
    if passives:
        ctx.eq("passives", a[hs("passive_scalars")], a[5:])
        ctx.eq("tuple", a[hs((passives[-1], "rho", "E"))], ctx.stack([a[nv - 1], a[0], a[4]]) if ndim == 1 else
               (stack_sym if ctx.symbolic else np.stack)([a[nv - 1], a[0], a[4]]))
    if ndim > 1:
        cuts = [(0, 0), (1, 0), (0, -1), (1, -1), (1, 3), (0, 2)]
        for c in cuts:
            lo, hi = c
            sl = slice(lo or None, hi or None)
            ctx.eq(f"axis1 {c}", a[hs(axis=1, cut=c)], a[:, sl])
            if ndim > 2:
                ctx.eq(f"x{c}", a[hs("P", x=c)], a[4, sl])
                ctx.eq(f"axis2 {c}", a[hs("rho", axis=2, cut=c)], a[0][:, sl] if ndim > 2 else a[0])
        ctx.eq("step", a[hs(axis=1, cut=(0, 0), step=-1)], a[:, ::-1])
        if ndim == 4:
            ctx.eq("xyz", a[hs("vy", x=(1, 0), y=(0, -1), z=(1, -1))], a[2, 1:, :-1, 1:-1])
    for bad in ("nope", ("rho", "nope")):
        try:
            hs(bad)
            ok = False
        except ValueError:
            ok = True
        ctx.true(f"unknown {bad}", ok)
    try:
        HydroState(passive_scalars=("a", "a"))
        ok = False
    except ValueError:
        ok = True
    ctx.true("duplicates rejected", ok)


def tasks(tier):
    ts = []
    for ps in ((),) + PASS:
        ts.append(Task("formulas", dict(passives=ps)))
        for ndim in (1, 2, 3, 4):
            ts.append(Task("indexing", dict(passives=ps, ndim=ndim)))
    ts.append(Task("formulas", dict(passives=("a", "b"), n=(1, 2, 2))))
    for g in ("5/3", "7/5", "2"):
        for fl in (1e-10, 1e-2):
            ts.append(Task("sound", dict(gamma=g, floor=fl)))
    for d in "xyz":
        for ps in ((),) + PASS:
            ts.append(Task("fluxes", dict(dim=d, passives=ps)))
        ts.append(Task("fluxes", dict(dim=d, passives=("a",), pressure=False)))
    return ts


META = dict(
    bounds="two cells with independent values, density in [0.01,100], velocities/momenta in [-50,50], pressure in [-10,100], "
    "gamma any real in [1.01,3] (5/3, 7/5 and 2 for the sound speed), 0-3 and 7 passive scalars",
    how="every primitive/conservative value and gamma is symbolic.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
