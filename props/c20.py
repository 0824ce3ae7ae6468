"""C20: which interfaces are revised, and by how much"""
import itertools

import numpy as np

from symx.runner import Task
from props.common import *


def _any(ctx, xs):
    return ctx.lor(*xs) if xs else False


def theta(ctx, b, n, act, per, cell, convex):
    """weight a cell asks for: 1 if troubled; convex: 3/4 next to trouble, 1/2 diagonal (2D), 1/4 two cells away"""

    def at(d):
        q = []
        for ax in range(3):
            i = cell[ax] + d[ax]
            if i < 0 or i >= n[ax]:
                if not per[ax]:
                    return None
                i %= n[ax]
            q.append(i)
        return b[tuple(q)]

    rings = {0: [], 1: [], 2: [], 3: []}
    r = 2 if convex else 0
    for d in itertools.product(*[range(-r, r + 1) if a else (0,) for a in act]):
        k = max(abs(x) for x in d)
        ring = 0 if k == 0 else 3 if k == 2 else 1 if sum(map(abs, d)) == 1 else 2
        v = at(d)
        if v is not None:
            rings[ring].append(v)
    w = ctx.const(0.0)
    for ring, val in ((3, 0.25), (2, 0.5), (1, 0.75), (0, 1.0)):
        if rings[ring]:
            w = ctx.ite(_any(ctx, rings[ring]), ctx.const(val), w)
    return w


def interface_weights(ctx, b, n, act, per, convex, ax):
    """weights of the interfaces normal to ax, shape n with one more along ax"""
    sh = list(n)
    sh[ax] += 1
    th = {}

    def cellw(c):
        q = list(c)
        if q[ax] < 0 or q[ax] >= n[ax]:
            if not per[ax]:
                # outside the domain nothing is troubled, but a convex ghost cell feels its neighbours
                return theta(ctx, b, n, act, per, tuple(q), convex) if convex else ctx.const(0.0)
            q[ax] %= n[ax]
        q = tuple(q)
        if q not in th:
            th[q] = theta(ctx, b, n, act, per, q, convex)
        return th[q]

    out = {}
    for i in np.ndindex(*sh):
        left = list(i)
        left[ax] -= 1
        out[i] = ctx.maxn(cellw(left), cellw(i))
    return out


def weights(ctx, n, dims, convex, periodic):
    from fvhoe.slope_limiting import broadcast_to_troubled_interfaces

    b = ctx.bool_array("t", n)
    t = ctx.where(b, 1, 0)
    per = [c in periodic for c in "xyz"]
    act = [c in dims for c in "xyz"]
    got = broadcast_to_troubled_interfaces(t, dims=dims, convex=convex, periodic_x=per[0], periodic_y=per[1], periodic_z=per[2])
    for ax in range(3):
        sh = list(n)
        sh[ax] += 1
        ctx.true(f"shape {ax}", tuple(got[ax].shape) == (1,) + tuple(sh))
        ctx.observe(f"weights{ax}", got[ax])
        if not act[ax]:
            ctx.eq(f"inactive {ax}", got[ax], ctx.const(0.0))
            continue
        want = interface_weights(ctx, b, n, act, per, convex, ax)
        for i, w in want.items():
            ctx.eq(f"{'xyz'[ax]}-interface {i}", got[ax][(0,) + i], w)
    ctx.eq("flags untouched", ctx.where(b, 1, 0), t)


# ------------------------------------------------------------------ the solver's use of the weights
def _faces(ctx, w, ax, limiter):
    """linear reconstruction of periodic cell values along ax: (value at the left face, value at the right face) of every cell"""
    um, up = np.roll(w, 1, axis=ax), np.roll(w, -1, axis=ax)
    if limiter is None:
        s = 0.5 * (up - um)
    else:
        from fvhoe.slope_limiting import minmod, moncen

        s = {"minmod": minmod, "moncen": moncen}[limiter](w - um, up - w)
    return w - 0.5 * s, w + 0.5 * s


def _fluxes(ctx, u, hs, ax, rs, g, limiter):
    """fluxes through the left interface of every cell (periodic), degree 1"""
    import fvhoe.riemann_solvers as R
    from fvhoe.hydro import compute_primitives

    w = compute_primitives(hs, u, gamma=g)
    l, r = _faces(ctx, w, ax, limiter) if limiter != "first order" else (w, w)
    return getattr(R, rs)(hs=hs, riemann_problem=(np.roll(r, 1, axis=ax), l), gamma=g, dim="xyz"[ax - 1], csq_floor=1e-10)


def _state(ctx, n, passives=0):
    return cons_state(ctx, "u", n, passives)


def scheme(ctx, n, p, rs, limiter, mode, kw, passives=0):
    """right-hand side with the limiter: forced everywhere, nowhere triggered, or whatever the flags in the trouble log say"""
    names = tuple(f"s{k}" for k in range(passives))
    u = _state(ctx, n, passives)
    kw = dict(kw, a_posteriori_slope_limiting=True, slope_limiter=limiter, riemann_solver=rs, fixed_dt=0.01, gamma=ctx.frac(7, 5))
    if mode == "forced":
        kw["force_trouble"] = True
    elif mode == "quiet":
        kw.update(NAD=1e6, NAD_mode="global", NAD_range="relative", PAD={}, SED=False)
        ctx.assume(u[0][(0, 0, 0)] > u[0][(1, 0, 0) if n[0] > 1 else (0, 1, 0)])
    s = make_solver(u, p=p, passives=names, **kw)
    dt, dudt = s.f(0.0, s.am("u"))
    ctx.observe("dudt", dudt)
    act = [k > 1 for k in n]
    h = [1 / k for k in n]
    if mode == "flags":
        s.step_helper_function()
        s.snapshot()
        tr = s.snapshots[-1]["trouble"]
        b = {i: (tr[i] == 1) for i in np.ndindex(*n)}
        for i in np.ndindex(*n):
            ctx.true(f"flag is 0 or 1 {i}", ctx.lor(tr[i] == 0, tr[i] == 1))
    want = 0
    for ax in range(3):
        if not act[ax]:
            continue
        lo = _fluxes(ctx, u, s.hydro_state, ax + 1, rs, s.gamma, limiter)
        if mode == "forced":
            f = lo
        else:
            hi = _fluxes(ctx, u, s.hydro_state, ax + 1, rs, s.gamma, None)
            if mode == "quiet":
                f = hi
            else:
                ww = interface_weights(ctx, b, n, act, [True] * 3, kw.get("convex", False), ax)
                f = hi.copy()
                for i in np.ndindex(*n):
                    for v in range(f.shape[0]):
                        f[(v,) + i] = (1 - ww[i]) * hi[(v,) + i] + ww[i] * lo[(v,) + i]
        want = want - (np.roll(f, -1, axis=ax + 1) - f) / h[ax]
    ctx.eq("dudt", dudt, want)


def _edge_fluxes(ctx, u, hs, ax, rs, g, limiter, periodic):
    """fluxes through all n + 1 interfaces along ax of periodic or free (edge value repeated) data, degree 1"""
    import fvhoe.riemann_solvers as R
    from fvhoe.hydro import compute_primitives

    m = u.shape[ax]
    idx = [i % m if periodic else min(max(i, 0), m - 1) for i in range(-2, m + 2)]
    u = ctx.stack([u[(slice(None),) * ax + (i,)] for i in idx])
    u = np.moveaxis(u, 0, ax)
    w = compute_primitives(hs, u, gamma=g)
    cut = lambda a, i, j: a[(slice(None),) * ax + (slice(i, a.shape[ax] + j),)]  # noqa: E731
    um, uc, up = cut(w, 0, -2), cut(w, 1, -1), cut(w, 2, 0)
    if limiter is None:
        s = 0.5 * (up - um)
    else:
        from fvhoe.slope_limiting import minmod, moncen

        s = {"minmod": minmod, "moncen": moncen}[limiter](uc - um, up - uc)
    l, r = uc - 0.5 * s, uc + 0.5 * s
    return getattr(R, rs)(hs=hs, riemann_problem=(cut(r, 0, -1), cut(l, 1, 0)), gamma=g, dim="xyz"[ax - 1], csq_floor=1e-10)


def mixed(ctx, n, rs, limiter, convex, seed, periodic, before=0, span=(0.57, 1.45), rows=None):
    """as pad_patterns, with free boundaries along the axes not in periodic and after earlier evaluations of the right-hand side"""
    from fvhoe.boundary_conditions import BoundaryCondition

    u = fixed(ctx, (5,) + n, seed)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 3
    lo, hi = ctx.real("lo", 0.5, span[0]), ctx.real("hi", span[1], 1.5)
    act = [k > 1 for k in n]
    per = [c in periodic for c in "xyz"]
    p = tuple(int(a) for a in act)
    bc = BoundaryCondition(**{c: "periodic" if per[i] or not act[i] else "free" for i, c in enumerate("xyz")})
    kw = dict(p=p, riemann_solver=rs, fixed_dt=0.001, gamma=ctx.frac(7, 5), bc=bc)
    s = make_solver(u, a_posteriori_slope_limiting=True, slope_limiter=limiter, NAD=1e3, NAD_range="absolute", NAD_vars=("rho", "P"), PAD={"rho": (lo, hi)}, SED=False, convex=convex, **kw)
    for k in range(before):
        s.f(0.0, s.am("u"))
    dt, dudt = s.f(0.0, s.am("u"))
    ctx.observe("dudt", dudt)
    s.step_helper_function()
    s.snapshot()
    tr = s.snapshots[-1]["trouble"]
    q = make_solver(u, **kw)
    cand = u[0] + 0.001 * q.f(0.0, q.am("u"))[1][0]
    b = {}
    for i in np.ndindex(*n):
        b[i] = ctx.lor(cand[i] < lo, cand[i] > hi)
        ctx.true(f"flag {i}", ctx.lor(ctx.land(tr[i] == 1, b[i]), ctx.land(tr[i] == 0, ctx.lnot(b[i]))))
    want = 0
    for ax in range(3):
        if not act[ax]:
            continue
        lof = _edge_fluxes(ctx, u, s.hydro_state, ax + 1, rs, s.gamma, limiter, per[ax])
        hif = _edge_fluxes(ctx, u, s.hydro_state, ax + 1, rs, s.gamma, None, per[ax])
        ww = interface_weights(ctx, b, n, act, per, convex, ax)
        f = hif.copy()
        for i, x in ww.items():
            for v in rows or range(5):
                f[(v,) + i] = (1 - x) * hif[(v,) + i] + x * lof[(v,) + i]
        cut = lambda a, i, j: a[(slice(None),) * (ax + 1) + (slice(i, a.shape[ax + 1] + j),)]  # noqa: E731
        want = want - (cut(f, 1, 0) - cut(f, 0, -1)) * n[ax]
    for v in rows or range(5):
        ctx.eq(f"dudt {v}", dudt[v], want[v], tol=1e-9)


def pad_patterns(ctx, n, p, rs, limiter, convex, seed, span=(0.8, 1.2), rows=None):
    """fixed flow, symbolic physical bounds: whatever cells the bounds make troubled, the fluxes are the blends the flags call for"""
    u = fixed(ctx, (5,) + n, seed)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 3
    lo, hi = ctx.real("lo", 0.5, span[0]), ctx.real("hi", span[1], 1.5)
    s = make_solver(u, p=p, riemann_solver=rs, fixed_dt=0.001, gamma=ctx.frac(7, 5), a_posteriori_slope_limiting=True, slope_limiter=limiter,
                    NAD=1e3, NAD_range="absolute", NAD_vars=("rho", "P"), PAD={"rho": (lo, hi)}, SED=False, convex=convex)
    dt, dudt = s.f(0.0, s.am("u"))
    ctx.observe("dudt", dudt)
    act = [k > 1 for k in n]
    s.step_helper_function()
    s.snapshot()
    tr = s.snapshots[-1]["trouble"]
    # density after the unlimited step, recomputed from the unlimited scheme
    q = make_solver(u, p=p, riemann_solver=rs, fixed_dt=0.001, gamma=ctx.frac(7, 5))
    qdt, qd = q.f(0.0, q.am("u"))
    ctx.eq("fixed step", qdt, 0.001)
    cand = u[0] + 0.001 * qd[0]
    b = {}
    for i in np.ndindex(*n):
        b[i] = ctx.lor(cand[i] < lo, cand[i] > hi)
        ctx.true(f"flag {i}", ctx.lor(ctx.land(tr[i] == 1, b[i]), ctx.land(tr[i] == 0, ctx.lnot(b[i]))))
    want = 0
    for ax in range(3):
        if not act[ax]:
            continue
        lof = _fluxes(ctx, u, s.hydro_state, ax + 1, rs, s.gamma, limiter)
        hif = _fluxes(ctx, u, s.hydro_state, ax + 1, rs, s.gamma, None)
        ww = interface_weights(ctx, b, n, act, [True] * 3, convex, ax)
        f = hif.copy()
        for i in np.ndindex(*n):
            for v in range(f.shape[0]):
                f[(v,) + i] = (1 - ww[i]) * hif[(v,) + i] + ww[i] * lof[(v,) + i]
        want = want - (np.roll(f, -1, axis=ax + 1) - f) * n[ax]
    for v in rows or range(5):
        ctx.eq(f"dudt {v}", dudt[v], want[v], tol=1e-9)


def untroubled(ctx, n, p, rs, kw):
    """where nothing is flagged the limited solver is the unlimited one, at any degree"""
    # the upwind density flux does not see the energy: with the density and momenta fixed the flags are decided, the energy is free
    u = _state(ctx, n)
    u[:4] = fixed(ctx, (4,) + n, 5)
    u[1:4] = u[1:4] - 1
    a = make_solver(u, p=p, riemann_solver=rs, fixed_dt=0.001, gamma=ctx.frac(7, 5), a_posteriori_slope_limiting=True, NAD=1e6, NAD_range="absolute",
                    NAD_vars=("rho",), PAD={}, SED=False, **kw)
    b = make_solver(u, p=p, riemann_solver=rs, fixed_dt=0.001, gamma=ctx.frac(7, 5))
    da = a.f(0.0, a.am("u"))[1]
    ctx.observe("dudt", da)
    a.step_helper_function()
    a.snapshot()
    ctx.eq("no trouble", a.snapshots[-1]["trouble"], ctx.const(0.0))
    ctx.eq("dudt", da, b.f(0.0, b.am("u"))[1])


def tasks(tier):
    ts = []
    W = []
    for d, n in (("x", (5, 1, 1)), ("y", (1, 4, 1)), ("z", (1, 1, 6)), ("xy", (3, 4, 1)), ("xz", (3, 1, 3)), ("yz", (1, 4, 3))):
        for convex in (False, True):
            for per in ("", d, d[0]):
                if per == d[0] == d:
                    continue
                W.append(dict(n=n, dims=d, convex=convex, periodic=per))
        W.append(dict(n=n, dims=d, convex=False, periodic=d))
    W.append(dict(n=(5, 1, 1), dims="x", convex=True, periodic="x"))
    W.append(dict(n=(2, 2, 3), dims="xyz", convex=False, periodic="xz"))
    W.append(dict(n=(2, 2, 2), dims="xyz", convex=False, periodic=""))
    W.append(dict(n=(5, 5, 1), dims="xy", convex=True, periodic="xy"))
    for c in W:
        ts.append(Task("weights", c))
    for rs in ("llf", "hllc"):
        for lim in ("minmod", "moncen", None):
            ts.append(Task("scheme", dict(n=(5, 1, 1), p=(1, 0, 0), rs=rs, limiter=lim, mode="forced", kw={}, passives=1)))
    ts.append(Task("scheme", dict(n=(1, 5, 1), p=(0, 1, 0), rs="llf", limiter="minmod", mode="forced", kw={}, passives=4)))
    ts.append(Task("scheme", dict(n=(1, 8, 1), p=(0, 3, 0), rs="llf", limiter="minmod", mode="forced", kw={})))
    ts.append(Task("scheme", dict(n=(5, 5, 1), p=(1, 2, 0), rs="llf", limiter="minmod", mode="forced", kw={})))
    ts.append(Task("scheme", dict(n=(5, 1, 1), p=(1, 0, 0), rs="llf", limiter="minmod", mode="flags", kw=dict(SED=False))))
    ts.append(Task("scheme", dict(n=(5, 5, 1), p=(1, 1, 0), rs="llf", limiter="minmod", mode="flags", kw=dict(SED=False, NAD_vars=("rho",), PAD={}))))
    for k, (n, rs, lim) in enumerate((((6, 1, 1), "hllc", "moncen"), ((1, 7, 1), "llf", "minmod"), ((1, 1, 6), "hllc", "minmod"), ((5, 5, 1), "llf", "moncen"), ((5, 1, 5), "hllc", "minmod"), ((1, 5, 6), "llf", None))):
        for convex in (False, True):
            c = dict(n=n, p=tuple(int(q > 1) for q in n), rs=rs, limiter=lim, convex=convex, seed=k)
            if sum(c["p"]) > 1 and tier == "quick":
                if not convex or n == (5, 5, 1):
                    continue
                c["span"], c["rows"] = (0.57, 1.45), (k % 5, 4)
            ts.append(Task("pad_patterns", c, round_bits=120))
    ts.append(Task("pad_patterns", dict(n=(5, 5, 5), p=(1, 1, 1), rs="llf", limiter="minmod", convex=False, seed=9, span=(0.52, 1.48), rows=(0,)), round_bits=120))
    # mixed boundaries; later evaluations
    for k, (n, per, convex) in enumerate((((6, 1, 1), "", True), ((5, 5, 1), "x", True), ((5, 5, 1), "y", True), ((1, 5, 5), "y", False), ((1, 5, 5), "z", True), ((5, 1, 5), "x", True), ((5, 1, 5), "z", False), ((5, 1, 5), "", True))):
        ts.append(Task("mixed", dict(n=n, rs=("llf", "hllc")[k % 2], limiter=("minmod", "moncen", None)[k % 3], convex=convex, seed=20 + k, periodic=per, span=(0.57, 1.45) if n != (6, 1, 1) else (0.8, 1.2), rows=(k % 5, 4)), round_bits=120))
    for k, (n, before) in enumerate((((6, 1, 1), 3), ((1, 6, 1), 5), ((1, 1, 6), 9))):
        ts.append(Task("mixed", dict(n=n, rs="llf", limiter="minmod", convex=bool(k % 2), seed=30 + k, periodic="xyz", before=before, span=(0.7, 1.3)), round_bits=120))
    for n, p in (((8, 1, 1), (3, 0, 0)), ((1, 5, 5), (0, 2, 1)), ((1, 1, 5), (0, 0, 2))):
        ts.append(Task("untroubled", dict(n=n, p=p, rs="advection_upwind", kw={})))
    return ts


META = dict(
    bounds="interface weights: every pattern of troubled cells on grids of 4-6 cells (1D), 3x3 to 5x5 (2D) and 2x2x3 (3D, without convex blending), every combination of "
    "periodic and non-periodic axes; use of the weights: degree-1 periodic solvers on 5 cells and 5x5 cells with all conservative averages symbolic (density 0.5-2, momenta +-0.5, "
    "energy 2-4) and flags decided by the real detection; convex blending and 3D through symbolic physical bounds over a fixed flow, with periodic and free boundaries mixed and after up to nine earlier evaluations; unlimited = limited without trouble up to degree 3",
    how="the weights demanded by the distance to the nearest troubled cells are recomputed from the flags and compared with every interface; the right-hand side is compared with the "
    "flux differences of the blend of independently computed central-difference and slope-limited fluxes.",
    assumptions=["real arithmetic in place of IEEE rounding"],
    wall_quick=300,
)
