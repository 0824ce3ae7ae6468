"""C07: the approximate Riemann solvers return the flux of the wave pattern they are named after"""
import numpy as np

from symx.runner import Task
from props.common import *

R = dict(rho=(0.1, 10), v=(-5, 5), P=(0.1, 10))


def _pair(ctx, k=1):
    return prim_state(ctx, "L", (1, 1, 1), k, **R), prim_state(ctx, "R", (1, 1, 1), k, **R)


def _call(solver, k, wl, wr, g, dim, floor=1e-10):
    import fvhoe.riemann_solvers as rs
    from fvhoe.hydro import HydroState

    hs = HydroState(passive_scalars=("a", "b", "c", "d", "e")[:k])
    return getattr(rs, solver)(hs=hs, riemann_problem=(wl, wr), gamma=g, dim=dim, csq_floor=floor)


def _cons(w, g):
    kin = 0.5 * w[0] * (w[1] * w[1] + w[2] * w[2] + w[3] * w[3])
    return [w[0], w[0] * w[1], w[0] * w[2], w[0] * w[3], w[4] / (g - 1) + kin] + [w[0] * s for s in w[5:]]


def _flux(w, d, g):
    u = _cons(w, g)
    f = [x * w[d] for x in u]
    f[d] = f[d] + w[4]
    f[4] = f[4] + w[d] * w[4]
    return f


def _by_sound_speed(ctx, k, g, order, dim, floor=1e-10, floored=""):
    """the same two states written in (rho, v, c): every state with c^2 above the floor is one of these; sides in floored lie below it"""
    wl, wr = prim_state(ctx, "L", (1, 1, 1), k, **R), prim_state(ctx, "R", (1, 1, 1), k, **R)
    d = "xyz".index(dim) + 1
    cs = []
    for n, w in (("L", wl), ("R", wr)):
        if n in floored:
            w[4] = ctx.real(n + "_low", 0.01, 0.2) * np.ones(w[4].shape)
            for i in np.ndindex(*w[4].shape):
                ctx.assume(g * w[4][i] < floor * w[0][i])
            cs.append(ctx.const(floor ** 0.5))
            continue
        c = ctx.real(n + "_c", 0.1, 3)
        ctx.assume(c * c > floor)
        ctx.assume(c > 0)
        w[4] = w[0] * (c * c) / g
        cs.append(c)
    ctx.assume(wl[d] <= wr[d] if order[0] else wl[d] >= wr[d])
    ctx.assume(cs[0] <= cs[1] if order[1] else cs[0] >= cs[1])
    return wl, wr, d


def regimes(ctx, dim, gamma, regime, order, floor=1e-10, floored=""):
    """HLLC with Davis speeds: upwind when supersonic, F* = F + S (U* - U) in the star regions"""
    g = frac(ctx, gamma)
    wl, wr, d = _by_sound_speed(ctx, 1, g, order, dim, floor, floored)
    F = _call("hllc", 1, wl, wr, g, dim, floor)
    ctx.observe("F", F)
    q = wave_regime(ctx, wl, wr, d, g, regime, floor)
    w = wl if regime.startswith("left") else wr
    s = q["sl"] if regime.startswith("left") else q["sr"]
    f, u = _flux(w, d, g), _cons(w, g)
    if "supersonic" in regime:
        for i in range(6):
            ctx.eq(f"flux{i}", F[i], f[i])
        return
    vs = q["vs"]
    k = (s - w[d]) / (s - vs)
    star = [u[0] * k] + [u[0] * k * (vs if i == d else w[i]) for i in (1, 2, 3)]
    star.append(k * (u[4] + (vs - w[d]) * (w[0] * vs + w[4] / (s - w[d]))))
    star.append(u[5] * k)
    for i in range(6):
        ctx.eq(f"flux{i}", F[i], f[i] + s * (star[i] - u[i]))


def contact(ctx, dim, gamma, sign):
    """an isolated contact (equal pressure and normal velocity) is resolved exactly"""
    g = frac(ctx, gamma)
    wl, wr = _pair(ctx, 2)
    d = "xyz".index(dim) + 1
    wr[4] = wl[4]
    if sign == 0:
        wl[d] = 0 * wl[d]
    wr[d] = wl[d]
    if sign > 0:
        ctx.assume(wl[d] > 0)
    elif sign < 0:
        ctx.assume(wl[d] < 0)
    F = _call("hllc", 2, wl, wr, g, dim)
    ctx.observe("F", F)
    f = _flux(wl if sign >= 0 else wr, d, g)
    for i in range(7):
        if sign:
            ctx.eq(f"flux{i}", F[i], f[i])
        else:
            ctx.eq(f"flux{i}", F[i], wl[4] if i == d else 0 * wl[4])


def upwind_tracers(ctx, dim, gamma, regime, k=2):
    """transverse momentum and passive scalars ride on the mass flux of the upwind side"""
    g = frac(ctx, gamma)
    wl, wr = _pair(ctx, k)
    d = "xyz".index(dim) + 1
    F = _call("hllc", k, wl, wr, g, dim)
    ctx.observe("F", F)
    wave_regime(ctx, wl, wr, d, g, regime)
    w = wl if regime.startswith("left") else wr
    for i in (1, 2, 3) + tuple(range(5, 5 + k)):
        if i != d:
            ctx.eq(f"carried {i}", F[i], F[0] * w[i])


def lax_friedrichs(ctx, dim, gamma, floor, k=2):
    from fvhoe.hydro import compute_sound_speed

    g = frac(ctx, gamma) if gamma else ctx.real("gamma", 1.05, 3)
    wl, wr = _pair(ctx, k)
    d = "xyz".index(dim) + 1
    F = _call("llf", k, wl, wr, g, dim, floor)
    ctx.observe("F", F)
    cl, cr = compute_sound_speed(wl, g, csq_floor=floor), compute_sound_speed(wr, g, csq_floor=floor)
    s = np.maximum(abs(wl[d]) + cl, abs(wr[d]) + cr)
    ul, ur, fl, fr = _cons(wl, g), _cons(wr, g), _flux(wl, d, g), _flux(wr, d, g)
    for i in range(5 + k):
        ctx.eq(f"flux{i}", F[i], 0.5 * (fl[i] + fr[i]) - 0.5 * s * (ur[i] - ul[i]))


def advection(ctx, dim, sign, k=2):
    """pure advection: the flux of the upwind state without pressure terms, nothing crosses a resting interface"""
    g = ctx.real("gamma", 1.05, 3)
    wl, wr = _pair(ctx, k)
    d = "xyz".index(dim) + 1
    if sign == 0:
        wl[d] = 0 * wl[d]
    wr[d] = wl[d]
    if sign > 0:
        ctx.assume(wl[d] > 0)
    elif sign < 0:
        ctx.assume(wl[d] < 0)
    F = _call("advection_upwind", k, wl, wr, g, dim)
    ctx.observe("F", F)
    w = wl if sign >= 0 else wr
    u = _cons(w, g)
    for i in range(5 + k):
        ctx.eq(f"flux{i}", F[i], u[i] * w[d])


def reference(ctx, solver, regime=None, order=None):
    """the 1D reference implementation (romain_solver) and the solver's own agree"""
    import fvhoe.romain_solver as rom

    g = ctx.frac(7, 5)
    if order is None:
        wl, wr = _pair(ctx, 0)
    else:
        wl, wr, _ = _by_sound_speed(ctx, 0, g, order, "x")
    wl[2] = wl[3] = wr[2] = wr[3] = 0 * wl[2]
    F = _call(solver, 0, wl, wr, g, "x")
    sel = [0, 1, 4]
    G = getattr(rom, solver)(wl[sel][:, :, 0, 0], wr[sel][:, :, 0, 0])
    ctx.observe("G", G)
    if regime:
        wave_regime(ctx, wl, wr, 1, g, regime)
    for k in range(3):
        ctx.eq(f"flux{k}", G[k], F[sel[k]][:, 0, 0])


ORDERS = [(a, b) for a in (0, 1) for b in (0, 1)]


def tasks(tier):
    ts = []
    for d in "xyz":
        g = "5/3" if d == "y" else "7/5"
        for r in REGIMES:
            for o in ORDERS if tier != "quick" or d == "x" else ORDERS[1:3]:
                ts.append(Task("regimes", dict(dim=d, gamma=g, regime=r, order=o), budget=30))
            ts.append(Task("upwind_tracers", dict(dim=d, gamma=g, regime=r), budget=30))
        for s in (-1, 0, 1):
            ts.append(Task("contact", dict(dim=d, gamma=g, sign=s), budget=30))
            ts.append(Task("advection", dict(dim=d, sign=s)))
            ts.append(Task("advection", dict(dim=d, sign=s, k=5)))
        ts.append(Task("lax_friedrichs", dict(dim=d, gamma=None, floor=1e-10)))
        ts.append(Task("lax_friedrichs", dict(dim=d, gamma=g, floor=1e-10, k=5)))
        ts.append(Task("upwind_tracers", dict(dim=d, gamma=g, regime=REGIMES["xyz".index(d)], k=5), budget=30))
    ts.append(Task("lax_friedrichs", dict(dim="x", gamma="5/3", floor=0.5)))
    for k, (fl, o) in enumerate((("LR", (0, 1)), ("L", (0, 1)), ("R", (1, 0)))):
        for r in REGIMES:
            ts.append(Task("regimes", dict(dim="xyz"[k % 3], gamma="7/5", regime=r, order=o, floor=1.0, floored=fl), budget=30))
    ts.append(Task("reference", dict(solver="llf")))
    for r in REGIMES:
        for o in ORDERS:
            ts.append(Task("reference", dict(solver="hllc", regime=r, order=o), budget=20))
    return ts


META = dict(
    bounds="one interface, densities and pressures in [0.1,10], velocities in [-5,5] (all sub- and supersonic wave orderings with "
    "non-zero wave speeds), gamma 5/3 and 7/5 for HLLC, symbolic in [1.05,3] for LLF and advection, up to five passive scalars; sound speeds above the floor, and (floor 1) below it on either or both sides",
    how="left and right states are independent symbolic primitive states; the oracle is Toro's HLLC/LLF/upwind flux.",
    assumptions=["real arithmetic in place of IEEE rounding", "no division by zero"],
)
