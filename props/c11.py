"""C11: a uniform flow stays uniform"""
import numpy as np

from symx.runner import Task
from props.common import *


def _uniform(ctx, g, passives=0, rest=(), name="w"):
    """one conservative state written in (rho, v, c)"""
    rho, c = ctx.real(f"{name}_rho", 0.25, 4), ctx.real(f"{name}_c", 0.1, 3)
    v = [ctx.const(0.0) if x in rest else ctx.real(f"{name}_v{x}", -3, 3) for x in "xyz"]
    P = rho * c * c / g
    m = [rho * q for q in v]
    e = P / (g - 1) + (m[0] * v[0] + m[1] * v[1] + m[2] * v[2]) / 2
    return ctx.stack([rho] + m + [e] + [rho * ctx.real(f"{name}_s{k}", -2, 2) for k in range(passives)])


def still(ctx, n, p, bc, rs, gamma="7/5", passives=0, cfg=None, rest=(), how=None):
    from fvhoe.boundary_conditions import BoundaryCondition

    g = frac(ctx, gamma)
    q = _uniform(ctx, g, passives, rest)
    u = np.stack([q[k] + 0 * ctx.const(np.ones(n)) for k in range(5 + passives)])
    kw = {}
    if bc is not None:
        val = {}
        for c, t in zip("xyz", bc):
            ts = t if isinstance(t, tuple) else (t, t)
            vs = []
            for k in ts:
                if k == "constant":
                    vs.append(q.copy())
                elif k == "callable":
                    vs.append(lambda x, y, z, t: np.stack([q[k] + 0 * x for k in range(5 + passives)]))
                else:
                    vs.append(None)
            val[c] = tuple("dirichlet" if k in ("constant", "callable") else k for k in ts)
            val[c + "_value"] = tuple(vs)
        kw["bc"] = BoundaryCondition(**val)
    cfg = dict(cfg or {})
    if cfg.pop("limited", False):
        kw.update(a_posteriori_slope_limiting=True, **cfg)
    s = make_solver(u, p=p, passives=tuple(f"s{k}" for k in range(passives)), riemann_solver=rs, gamma=g, fixed_dt=0.01, **kw)
    if how is not None:
        getattr(s, how)(n=2)
        ctx.eq("state", s.am("u"), u, tol=1e-9)
        ctx.eq("snapshots", s.snapshots[-1]["w"], s.snapshots[0]["w"], tol=1e-9)
        return
    s.t = ctx.real("t", 0, 3)
    rate = s.f(s.t, s.am("u"))[1]
    ctx.eq("rate", rate, ctx.const(0.0), tol=1e-9)


def run(ctx, **kw):
    still(ctx, **kw)


def pointwise(ctx, n, p, prim):
    """a constant initial condition (pointwise, with 'ic' boundaries) gives constant averages and no flow"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import InitialCondition
    from fvhoe.solver import EulerSolver

    g = ctx.frac(7, 5)
    q = _uniform(ctx, g)
    w = ctx.stack([q[0]] + [q[k] / q[0] for k in (1, 2, 3)] + [(g - 1) * (q[4] - (q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) / (2 * q[0]))])
    f = w if prim else q

    class Given(InitialCondition):
        def base_ic(self):
            return lambda x, y, z: np.stack([f[k] + 0 * x for k in range(5)])

    s = EulerSolver(w0=Given(), conservative_ic=not prim, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], gamma=g, fixed_dt=0.1, progress_bar=False,
                    bc=BoundaryCondition(x="ic", y=("free", "ic"), z=("ic", "free")), riemann_solver="advection_upwind")
    for k in range(5):
        ctx.eq(f"averages {k}", s.am("u")[k], q[k], tol=1e-9)
    s.t = ctx.real("t", 0, 2)
    ctx.eq("rate", s.f(s.t, s.am("u"))[1], ctx.const(0.0), tol=1e-9)


P, F, R_, O, C, L = "periodic", "free", "reflective", "outflow", "constant", "callable"


def tasks(tier):
    ts = []

    def add(n, p, bc, rs, **kw):
        ts.append(Task("still", dict(n=n, p=p, bc=bc, rs=rs, **kw)))

    RS = ("advection_upwind", "llf", "hllc")
    mixed = [
        ((2, 1, 1), (0, 0, 0), None, dict(passives=1)), ((2, 1, 2), (0, 0, 0), (F, P, (C, L)), dict(passives=5)), ((1, 4, 1), (0, 1, 0), (P, (C, R_), P), dict(passives=4, rest=("y",))), ((1, 4, 1), (0, 1, 0), (F, (F, O), F), {}), ((1, 1, 4), (0, 0, 2), (F, F, (C, L)), {}), ((3, 1, 1), (3, 0, 0), ((C, F), P, P), dict(gamma="5/3")),
        ((1, 4, 1), (0, 1, 0), (P, R_, P), dict(rest=("y",))), ((8, 1, 1), (3, 0, 0), ((R_, F), P, P), dict(rest=("x",), passives=1)), ((1, 1, 5), (0, 0, 2), (P, P, (L, R_)), dict(rest=("z",))),
        ((2, 2, 1), (0, 0, 0), ((F, C), P, P), dict(passives=1)), ((2, 2, 2), (0, 0, 0), ((F, C), R_, (L, O)), dict(rest=("y",))), ((4, 1, 4), (1, 0, 1), ((C, F), P, (R_, L)), dict(rest=("z",))),
        ((1, 4, 4), (0, 1, 2), (P, (R_, F), P), dict(rest=("y",))), ((2, 2, 2), (1, 1, 1), (F, (C, L), (L, F)), {}), ((2, 3, 2), (2, 1, 1), (C, F, F), dict(passives=1)), ((2, 1, 1), (5, 0, 0), (F, P, P), {}),
        ((1, 2, 1), (0, 8, 0), (P, (L, C), P), {}), ((16, 1, 1), (7, 0, 0), None, {}), ((12, 1, 1), (6, 0, 0), (R_, P, P), dict(rest=("x",))), ((3, 3, 1), (3, 2, 0), (F, L, P), {}), ((1, 2, 2), (0, 1, 4), (P, F, C), {}),
    ]
    for rs in RS:
        for n, p, bc, kw in mixed:
            add(n, p, bc, rs, **kw)
    # limiter settings
    L1 = dict(limited=True)
    settings = [
        dict(slope_limiter="minmod", force_trouble=True), dict(slope_limiter="moncen", force_trouble=True), dict(slope_limiter=None, force_trouble=True), dict(convex=True, force_trouble=True),
        dict(), dict(NAD_mode="local"), dict(NAD_range="absolute", NAD=0.01), dict(NAD_range="absolute", NAD_mode="local", NAD=0.01), dict(SED=False), dict(SED=False, NAD=0.0),
        dict(PAD={"rho": (5.0, 9.0)}), dict(PAD={"P": (0.0, 1e-3)}, convex=True, slope_limiter="moncen"),
    ]
    for i, c in enumerate(settings):
        rs = RS[i % 3]
        pos = dict(rest=("x", "y", "z")) if c.get("NAD_range") == "absolute" else {}
        add((3, 1, 1), (1, 0, 0), ((F, F), P, P), rs, cfg=dict(L1, **c), **pos)
        add((1, 8, 1), (0, 3, 0), (P, (P, P), P), RS[(i + 1) % 3], cfg=dict(L1, **c), passives=1, **pos)
        add((1, 5, 5), (0, 1, 1), (P, (R_, F), (C, L)), RS[(i + 2) % 3], cfg=dict(L1, **c), rest=("x", "y", "z") if pos else ("y",))
    add((3, 3, 3), (1, 1, 1), (F, C, L), "hllc", cfg=dict(L1, force_trouble=True))
    add((3, 3, 3), (1, 1, 1), (F, F, F), "llf", cfg=L1)
    for n, p, prim in (((2, 1, 1), (1, 0, 0), True), ((1, 2, 1), (0, 3, 0), False), ((2, 2, 1), (0, 0, 0), True), ((2, 2, 1), (1, 2, 0), True), ((2, 2, 2), (1, 0, 1), True), ((2, 2, 2), (0, 0, 0), False)):
        ts.append(Task("pointwise", dict(n=n, p=p, prim=prim)))
    for how in ("euler", "ssprk2", "ssprk3", "rk4"):
        ts.append(Task("run", dict(n=(3, 1, 1), p=(1, 0, 0), bc=((F, C), P, P), rs="hllc", how=how)))
        ts.append(Task("run", dict(n=(1, 3, 2), p=(0, 0, 0), bc=(P, (P, P), (R_, F)), rs="llf", how=how, rest=("z",))))
    return ts


META = dict(
    bounds="every uniform state with rho in [1/4,4], |v| <= 3, sound speed in [0.1,3] (at rest along reflecting axes) on small grids of 1D, 2D and 3D, degrees 0-8, three Riemann solvers, all boundary kinds in "
    "mixed combinations, 12 limiter settings with the real detector; two steps of every integrator",
    how="one symbolic state fills the grid and the boundaries; every component of the right-hand side is compared with zero.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
