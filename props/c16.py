"""C16: results never depend on uninitialised memory"""
import numpy as np

from symx.runner import Task
from props.common import *


def _bc(ctx, bc, nv, u0):
    from fvhoe.boundary_conditions import BoundaryCondition

    if bc is None:
        return None
    v = {}
    q = [ctx.const(a) for a in (0.9, 0.3, -0.2, 0.1, 2.5)] + [ctx.const(0.4)] * (nv - 5)
    for i, c in enumerate("xyz"):
        t = bc[i] if isinstance(bc[i], tuple) else (bc[i],) * 2
        v[c] = tuple("dirichlet" if k in ("constant", "callable") else k for k in t)
        v[c + "_value"] = tuple(
            ctx.stack(q) if k == "constant" else (lambda x, y, z, t: np.stack([a + 0 * x for a in q])) if k == "callable" else None for k in t
        )
    return BoundaryCondition(**v)


def _state(ctx, n, kind, passives, seed=51):
    if kind == "arbitrary":
        return cons_state(ctx, "u", n, passives)
    u = fixed(ctx, (5 + passives,) + n, seed)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 2
    for k in range(passives):
        u[5 + k] = ctx.array(f"s{k}", n, -1, 1)
    if kind == "energy":
        u[4] = ctx.array("E", n, 2, 4)
    return u


def _ic(ctx, u, passives, fv, prim, n, p, kw):
    """solver over averages (fv) or over fields that vary linearly between the cells"""
    from fvhoe.initial_conditions import InitialCondition
    from fvhoe.solver import EulerSolver

    names = tuple(f"s{k}" for k in range(passives))
    if fv:
        return make_solver(u, p=p, passives=names, **kw)
    q = fixed(ctx, (5 + passives, 4), 9)

    def field(k):
        return lambda x, y, z: q[k, 0] + (2 if k in (0, 4) else 0) + q[k, 1] * x + q[k, 2] * y * y + q[k, 3] * z

    class Given(InitialCondition):
        def base_ic(self):
            return lambda x, y, z: np.stack([field(k)(x, y, z) for k in range(5)])

    pas = {m: field(5 + k) for k, m in enumerate(names)} or None
    return EulerSolver(w0=Given(), w0_passives=pas, conservative_ic=not prim, fv_ic=False, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], progress_bar=False, **kw)


def _see(ctx, tag, s):
    ctx.determinate(f"{tag} t", np.stack([ctx.const(0.0) + s.t]) if not ctx.symbolic else ctx.stack([ctx.const(0.0) + s.t]))
    for j, sn in enumerate(s.snapshots):
        for k in ("t", "x", "y", "z", "w", "trouble", "NAD violation magnitude", "PAD violation magnitude"):
            if k in sn:
                ctx.determinate(f"{tag} snapshot {j} {k}", sn[k] if k != "t" else ctx.stack([ctx.const(0.0) + sn[k]]))


def defined(ctx, n, p, rs, bc=None, kind="arbitrary", passives=0, cfg=None, bounds=None, dt=0.01, how="euler", steps=1, fv=True, prim=True, averages=True, before="nothing"):
    u = _state(ctx, n, kind, passives)
    kw = dict(riemann_solver=rs, gamma=ctx.frac(7, 5), x=(0.0, 1.5), y=(-1.0, 1.0), z=(0.0, 2.0), snapshots_as_fv_averages=averages)
    if dt:
        kw["fixed_dt"] = dt
    b = _bc(ctx, bc, 5 + passives, u)
    if b is not None:
        kw["bc"] = b
    if cfg is not None:
        cfg = dict(cfg)
        if bounds is not None:
            cfg["PAD"] = {"rho": (ctx.real("lo", *bounds), 1e3)}
        kw.update(a_posteriori_slope_limiting=True, **cfg)
    s = _ic(ctx, u, passives, fv, prim, n, p, kw)
    ctx.determinate("averages", s.am("u"))
    if before == "snapshot":
        s.snapshot()
        _see(ctx, "first", s)
    d, r = s.f(0.0, s.am("u"))
    ctx.determinate("dt", ctx.stack([ctx.const(0.0) + d]))
    ctx.determinate("rate", r if np.shape(r) else ctx.stack([ctx.const(0.0) + r]))
    if before == "rate":
        # as if nothing had been evaluated before
        pass
    if how is None:
        return
    if before != "rate":
        s = _ic(ctx, u, passives, fv, prim, n, p, kw)
    getattr(s, how)(n=steps)
    ctx.determinate("state", s.am("u"))
    _see(ctx, "run", s)


P_, F_, R_, O_, C_, L_ = "periodic", "free", "reflective", "outflow", "constant", "callable"
RS = ("advection_upwind", "llf", "hllc")


def tasks(tier):
    ts = []  # one step with a symbolic bound in the thorough tier only: the blended state enters the snapshots

    def add(n, p, rs, **kw):
        opt = {} if kw.get("kind", "arbitrary") == "arbitrary" else dict(round_bits=120)
        ts.append(Task("defined", dict(n=n, p=p, rs=rs, **kw), **opt))

    grids = [((2, 1, 1), (0, 0, 0)), ((1, 2, 1), (0, 0, 0)), ((1, 1, 2), (0, 0, 0)), ((2, 2, 1), (0, 0, 0)), ((2, 1, 2), (0, 0, 0)), ((1, 2, 2), (0, 0, 0)), ((2, 2, 2), (0, 0, 0))]
    for rs in RS:
        for i, (n, p) in enumerate(grids):
            add(n, p, rs, passives=i % 2, how="euler" if rs != "hllc" else None, before=("nothing", "snapshot", "rate")[i % 3])
            add(n, p, rs, bc=(F_, (C_, R_), (L_, O_)), dt=None, passives=(i + 1) % 2, how=None)
        for i, (n, p) in enumerate([((4, 1, 1), (1, 0, 0)), ((1, 5, 1), (0, 2, 0)), ((1, 1, 8), (0, 0, 3)), ((4, 4, 1), (1, 1, 0)), ((5, 1, 5), (2, 0, 1)), ((1, 4, 5), (0, 1, 2)), ((4, 4, 4), (1, 1, 1)), ((12, 1, 1), (5, 0, 0)), ((1, 16, 1), (0, 8, 0))]):
            bcs = (None, (F_, (C_, R_), (L_, O_)), ((O_, C_), (L_, F_), R_), ((R_, L_), O_, (F_, C_)))
            add(n, p, rs, kind="fixed", passives=i % 2, how="euler", bc=bcs[i % 4], before=("nothing", "snapshot", "rate")[i % 3])
            add(n, p, rs, kind="fixed", passives=(i + 1) % 2, how=("ssprk2", "ssprk3", "rk4")[i % 3], bc=bcs[(i + 1) % 4], fv=False, prim=bool(i % 2), averages=bool(i % 2), dt=None if i % 2 else 0.01)
            if max(n) < 16:
                add(n, p, rs, kind="energy", how=None, bc=bcs[(i + 2) % 4])
        lim = [dict(slope_limiter=sl) for sl in ("minmod", "moncen", None)] + [
            dict(SED=False), dict(NAD_mode="local"), dict(NAD_range="absolute", NAD=0.01), dict(NAD_vars=("rho", "P")), dict(convex=True, NAD=1e-2), dict(force_trouble=True), dict(convex=True, force_trouble=True)]
        for i, c in enumerate(lim):
            g = [((6, 1, 1), (1, 0, 0)), ((1, 5, 1), (0, 2, 0)), ((1, 1, 8), (0, 0, 3)), ((5, 5, 1), (1, 2, 0)), ((5, 1, 5), (2, 0, 1))]
            for j in range(2):
                n, p = g[(i + 2 * j) % 5]
                bcs = (None, (F_, (C_, F_), (L_, R_)), ((R_, C_), (L_, F_), P_))
                opt = dict(passives=(i + j) % 2, bc=bcs[(i + j) % 3], before=("nothing", "snapshot", "rate")[(i + j) % 3], averages=bool(i % 2))
                add(n, p, rs, kind="fixed", cfg=c, bounds=(0.5, 0.55), how=None, **opt)
                add(n, p, rs, kind="fixed", cfg=c, how=("euler", "ssprk2", "rk4", "ssprk3")[(i + j) % 4], steps=1 + (j if 1 in sorted(n)[1:2] else 0), **opt)
        if rs == "hllc" or tier == "thorough":
            add((5, 5, 5), (1, 1, 1), rs, kind="fixed", cfg=dict(slope_limiter="minmod", NAD=1e-2), how="euler")
        if tier == "thorough":
            for i, c in enumerate(lim):
                add((6, 1, 1), (1, 0, 0), rs, kind="fixed", cfg=c, bounds=(0.5, 0.55), how="euler", passives=i % 2)
                add((1, 5, 5), (0, 2, 1), rs, kind="fixed", cfg=c, bounds=(0.5, 0.52), how="euler")
    return ts


META = dict(
    bounds="grids of 1 to 125 cells in 0-3 active dimensions, degrees 0-5 and 8, three Riemann solvers, every boundary type, ten limiter settings, pointwise and average initial conditions, one or two steps of every integrator, a snapshot or a rate evaluation before the run or not; arbitrary states on first-order grids, arbitrary energies or scalars or an arbitrary admissible-density bound over fixed flows elsewhere",
    how="every element of memory the code has not written is a separate unknown in the symbolic execution; each value given to the user must be equal for any two contents of that memory (the obligation is the equality of the term with a copy in which all such unknowns are renamed)",
    assumptions=["real arithmetic in place of IEEE rounding: 0 * garbage counts as a dependence"],
)
