"""C14: passive scalars never influence the flow and stay consistent with it"""
import numpy as np

from symx.runner import Task
from props.common import *

NAMES = ("dye", "smoke", "ash")


def _flow(ctx, n, kind, seed=41):
    if kind == "arbitrary":
        return cons_state(ctx, "u", n)
    u = fixed(ctx, (5,) + n, seed)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 2
    if kind == "energy":
        u[4] = ctx.array("E", n, 2, 4)
    return u


def _with(u, *scalars):
    return np.concatenate([u] + [s[None] for s in scalars]) if scalars else u


def _mk(ctx, u, sc, names, p, rs, bc, cfg, bounds, dt, bvals):
    from fvhoe.boundary_conditions import BoundaryCondition

    kw = dict(riemann_solver=rs, gamma=ctx.frac(7, 5), x=(0.0, 1.5), y=(-1.0, 1.0), z=(0.0, 2.0))
    if dt:
        kw["fixed_dt"] = dt
    if bc is not None:
        v = {}
        q = ctx.stack([ctx.const(a) for a in (0.9, 0.3, -0.2, 0.1, 2.5)] + list(bvals))
        for i, c in enumerate("xyz"):
            t = bc[i] if isinstance(bc[i], tuple) else (bc[i],) * 2
            v[c] = t
            v[c + "_value"] = tuple(q.copy() if k == "dirichlet" else None for k in t)
        kw["bc"] = BoundaryCondition(**v)
    if cfg is not None:
        cfg = dict(cfg)
        if bounds is not None:
            cfg["PAD"] = {"rho": (ctx.real("lo", *bounds), 1e3)}
        kw.update(a_posteriori_slope_limiting=True, **cfg)
    return make_solver(_with(u, *sc), p=p, passives=names, **kw)


def ignored(ctx, n, p, rs, kind="arbitrary", scalars=2, bc=None, cfg=None, bounds=None, dt=0.01, how=None, steps=1, wide=None):
    """flow, step and trouble with scalars equal those without; each scalar is as if it were the only one"""
    u = _flow(ctx, n, kind)
    box = wide or (-1, 1)
    sc = [ctx.array(f"s{k}", n, *box) for k in range(scalars)]
    bv = [ctx.real(f"b{k}", *box) for k in range(scalars)]

    def run(idx):
        s = _mk(ctx, u, [sc[i] for i in idx], tuple(NAMES[i] for i in idx), p, rs, bc, cfg, bounds, dt, [bv[i] for i in idx])
        out = {}
        if how is None:
            d, r = s.f(0.0, s.am("u"))
            out["dt"], out["rate"] = d, r
        else:
            getattr(s, how)(n=steps)
            out["rate"] = s.am("u")
            out["t"] = s.t
            for k in ("t", "w", "trouble", "NAD violation magnitude", "PAD violation magnitude"):
                if k in s.snapshots[-1]:
                    v = s.snapshots[-1][k]
                    out["snapshot " + k] = v[:5] if k == "w" else v
            out["snapshot scalars"] = s.snapshots[-1]["w"][5:]
        return out

    bare = run(())
    full = run(tuple(range(scalars)))
    ctx.eq("flow", full["rate"][:5], bare["rate"], tol=1e-9)
    for k in bare:
        if k not in ("rate", "snapshot scalars"):
            ctx.eq(k, full[k], bare[k], tol=1e-9)
    if scalars > 1:
        for i in range(scalars):
            one = run((i,))
            ctx.eq(f"alone {i}", full["rate"][5 + i], one["rate"][5], tol=1e-9)
        back = run(tuple(reversed(range(scalars))))
        for i in range(scalars):
            ctx.eq(f"order {i}", full["rate"][5 + i], back["rate"][4 + scalars - i], tol=1e-9)


def tied(ctx, n, p, rs, kind="arbitrary", bc=None, cfg=None, bounds=None, how=None):
    """a scalar equal to a constant everywhere stays that constant"""
    u = _flow(ctx, n, kind)
    c = ctx.real("c", -2, 2)
    s = _mk(ctx, u, [c * u[0]], NAMES[:1], p, rs, bc, cfg, bounds, 0.01, [c * 0.9])
    if how is None:
        r = s.f(0.0, s.am("u"))[1]
    else:
        getattr(s, how)(n=2)
        r = s.am("u")
    ctx.eq("constant", r[5], c * r[0], tol=1e-9)


def linear(ctx, n, p, rs, kind="arbitrary", bc=None):
    """unlimited: the rate of a scalar is linear in the scalar"""
    u = _flow(ctx, n, kind)
    s0, s1 = ctx.array("s0", n, -1, 1), ctx.array("s1", n, -1, 1)
    b0, b1 = ctx.real("b0", -1, 1), ctx.real("b1", -1, 1)
    a = ctx.real("a", -2, 2)
    s = _mk(ctx, u, [s0, s1, s0 + a * s1], NAMES, p, rs, bc, None, None, 0.01, [b0, b1, b0 + a * b1])
    r = s.f(0.0, s.am("u"))[1]
    ctx.eq("linear", r[7], r[5] + a * r[6], tol=1e-9)


def interface(ctx, rs, d):
    """one interface, arbitrary left and right states: constant concentration and linearity in the flux itself"""
    from fvhoe import riemann_solvers as R
    from fvhoe.hydro import HydroState

    g = ctx.frac(7, 5)
    sh = (1, 1, 1)
    wl, wr = prim_state(ctx, "l", sh), prim_state(ctx, "r", sh)
    c, a = ctx.real("c", -2, 2), ctx.real("a", -2, 2)
    one = 0 * wl[0] + 1
    sl = [ctx.array(f"sl{k}", sh, -1, 1) for k in range(2)]
    sr = [ctx.array(f"sr{k}", sh, -1, 1) for k in range(2)]
    hs = HydroState(passive_scalars=("a", "b", "c", "d"))
    states = (_with(wl, sl[0], sl[1], sl[0] + a * sl[1], c * one), _with(wr, sr[0], sr[1], sr[0] + a * sr[1], c * one))
    f = getattr(R, rs)(hs=hs, riemann_problem=states, gamma=g, dim="xyz"[d], csq_floor=1e-10)
    ctx.eq("linear", f[7], f[5] + a * f[6])
    ctx.eq("constant", f[8], c * f[0])


def pointwise(ctx, n, p, prim):
    """scalars given as functions: initial averages of the flow and of the other scalars do not change"""
    from fvhoe.initial_conditions import InitialCondition
    from fvhoe.solver import EulerSolver

    q = fixed(ctx, (5, 4), 5)
    a = ctx.array("a", (2, 4), -1, 1)

    def field(c):
        return lambda x, y, z: c[0] + c[1] * x + c[2] * y * y + c[3] * x * z

    class Given(InitialCondition):
        def base_ic(self):
            return lambda x, y, z: np.stack([field(q[k])(x, y, z) + (3 if k in (0, 4) else 0) for k in range(5)])

    def run(idx):
        pas = {NAMES[i]: field(a[i]) for i in idx} or None
        s = EulerSolver(w0=Given(), w0_passives=pas, conservative_ic=not prim, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], gamma=ctx.frac(7, 5), fixed_dt=0.1, progress_bar=False)
        return s.am("u")

    bare, one, two, full = run(()), run((0,)), run((1,)), run((0, 1))
    ctx.eq("flow", full[:5], bare)
    ctx.eq("flow, one", one[:5], bare)
    ctx.eq("first", full[5], one[5])
    ctx.eq("second", full[6], two[5])


P_, F_, R_, O_, D_ = "periodic", "free", "reflective", "outflow", "dirichlet"


def tasks(tier):
    ts = []
    RS = ("advection_upwind", "llf", "hllc")

    def add(h, n, p, rs, **kw):
        opt = {} if kw.get("kind", "arbitrary") == "arbitrary" else dict(round_bits=120)
        ts.append(Task(h, dict(n=n, p=p, rs=rs, **kw), **opt))

    lim = [dict(slope_limiter=sl, NAD=1e-2) for sl in ("minmod", "moncen", None)]
    for i, rs in enumerate(RS):
        for h in ("ignored", "tied", "linear"):
            if rs != "hllc" or h == "ignored":
                add(h, (2, 1, 1), (0, 0, 0), rs)
                add(h, (1, 2, 1), (0, 0, 0), rs, bc=(P_, F_, P_))
                add(h, (1, 1, 2), (0, 0, 0), rs, bc=(P_, P_, (R_, D_)))
            add(h, (4, 1, 1), (1, 0, 0), rs, kind="fixed", bc=((D_, O_), P_, P_))
            add(h, (1, 5, 1), (0, 2, 0), rs, kind="fixed", bc=(P_, R_, P_))
            add(h, (1, 1, 8), (0, 0, 3), rs, kind="fixed")
            add(h, (2, 2, 1), (0, 0, 0), rs, kind="fixed")
            add(h, (3, 1, 3), (1, 0, 2), rs, kind="fixed", bc=(F_, P_, D_))
            add(h, (2, 2, 2), (1, 1, 1), rs, kind="fixed", bc=(F_, D_, (F_, D_)))
        for d in range(3):
            ts.append(Task("interface", dict(rs=rs, d=d)))
        # time step from the CFL condition
        add("ignored", (2, 1, 1), (0, 0, 0), rs, dt=None)
        add("ignored", (1, 2, 2), (0, 1, 1), rs, kind="fixed", bc=(P_, F_, D_), dt=None, wide=(-100, 100))
        # runs
        for how in ("euler", "ssprk2", "ssprk3", "rk4"):
            ax = ("euler", "ssprk2", "ssprk3", "rk4").index(how) % 3
            n, p = [1, 1, 1], [0, 0, 0]
            n[ax], p[ax] = 5, 2
            add("ignored", tuple(n), tuple(p), rs, kind="fixed", how=how, steps=2, scalars=2)
            add("tied", tuple(n), tuple(p), rs, kind="fixed", how=how)
        add("ignored", (4, 1, 4), (1, 0, 1), rs, kind="fixed", how="ssprk2", dt=None, scalars=1)
        # limited, any admissible-density bound
        for c in lim:
            add("ignored", (5, 1, 1), (1, 0, 0), rs, kind="fixed", cfg=c, bounds=(0.5, 0.75), how="euler", scalars=2, wide=(-10, 10))
            add("ignored", (1, 5, 5), (0, 1, 2), rs, kind="fixed", cfg=c, bounds=(0.5, 0.52), how="euler", scalars=1)
            add("tied", (5, 1, 1), (2, 0, 0), rs, kind="fixed", cfg=c, bounds=(0.5, 0.75))
            add("tied", (1, 5, 5), (0, 1, 2), rs, kind="fixed", cfg=c, bounds=(0.5, 0.52))
        for c in (dict(SED=False), dict(NAD_mode="local"), dict(NAD_range="absolute", NAD=0.01), dict(convex=True, NAD=1e-2), dict(NAD_vars=("rho", "vz")), dict(force_trouble=True)):
            add("ignored", (1, 1, 5), (0, 0, 1), rs, kind="fixed", cfg=c, bounds=(0.5, 0.52), how="euler", scalars=1, wide=(-10, 10))
            add("ignored", (5, 5, 1), (1, 2, 0), rs, kind="fixed", cfg=c, bounds=(0.5, 0.52), how="euler", scalars=1)
    for prim in (True, False):
        ts.append(Task("pointwise", dict(n=(3, 1, 1), p=(2, 0, 0), prim=prim)))
        ts.append(Task("pointwise", dict(n=(2, 1, 2), p=(1, 0, 3), prim=prim)))
        ts.append(Task("pointwise", dict(n=(2, 2, 2), p=(1, 1, 1), prim=prim)))
    return ts


META = dict(
    bounds="1D-3D grids of up to 25 cells, degrees 0-3, all three Riemann solvers, every boundary type; arbitrary flow and scalar states on 2-cell first-order grids, fixed flows with arbitrary scalars (up to 3, in [-1,1], [-10,10] or [-100,100]) elsewhere, limited configurations for every admissible-density bound in an interval; one rate evaluation or up to two steps of every integrator",
    how="the same flow is run symbolically with no, one, several and reordered scalars: flow rates, step, trouble flags, violation magnitudes and snapshots must agree term by term, each scalar must evolve as if alone, a constant concentration c must give exactly c times the density, and the unlimited rate must be linear",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
