"""C08: the CFL time step"""
import numpy as np

from symx.runner import Task
from props.common import *
from props.c15 import extend
from props.c23 import primitives

R = dict(rho=(0.25, 4), v=(-3, 3), P=(0.1, 10))


def _by_c(ctx, name, n, g, passives=0, c=(0.1, 3)):
    """primitive states written in (rho, v, c) with P = rho c^2 / gamma: every state above the floor is one of these"""
    w = prim_state(ctx, name, n, passives, **R)
    cs = ctx.array(f"{name}_c", n, *c)
    w[4] = w[0] * (cs * cs) / g
    return w, cs


def _signal(ctx, w, c, ndim):
    return abs(w[1]) + abs(w[2]) + abs(w[3]) + ndim * c


def _cons(w, g):
    m = [w[0] * w[k] for k in (1, 2, 3)]
    e = w[4] / (g - 1) + (m[0] * w[1] + m[1] * w[2] + m[2] * w[3]) / 2
    return np.stack([w[0]] + m + [e] + [w[0] * w[k] for k in range(5, w.shape[0])])


def kernel(ctx, shape, ndim, gamma, case):
    """hydro_dt: a bound for every cell, attained by one"""
    from fvhoe.hydro import hydro_dt

    g = frac(ctx, gamma)
    if case == "floor":
        # sound speeds below the floor count as the floor
        floor = ctx.real("floor", 1, 4)
        w = prim_state(ctx, "w", shape, 0, rho=(1, 4), v=(-3, 3), P=(0.01, 0.1))
        c = ctx.sqrt(floor) + 0 * w[0]
        ctx.assume(floor > 0)
    else:
        floor = 1e-10
        w, c = _by_c(ctx, "w", shape, g)
    h, cfl = ctx.real("h", 0.01, 2), ctx.real("CFL", 0.01, 2)
    dt = hydro_dt(w=w, h=h, ndim=ndim, CFL=cfl, gamma=g, csq_floor=floor)
    ctx.observe("dt", dt)
    sig = [_signal(ctx, w[(slice(None),) + i], c[i], ndim) for i in np.ndindex(*shape)]
    for k, q in enumerate(sig):
        ctx.le(f"cell {k}", dt * q, cfl * h)
    ctx.true("attained", ctx.lor(*[abs(dt * q - cfl * h) <= 1e-9 for q in sig]))
    ctx.lt("positive", 0 * dt, dt)


def spike(ctx, shape, at, ndim):
    """one fast cell anywhere in a large quiet grid sets the step"""
    from fvhoe.hydro import hydro_dt

    g = ctx.frac(7, 5)
    w = np.stack([ctx.const(np.ones(shape)), ctx.const(np.zeros(shape)), ctx.const(np.zeros(shape)), ctx.const(np.zeros(shape)), ctx.const(np.ones(shape)) / g])
    v = [ctx.real(f"v{c}", 1, 3) for c in "xyz"]
    for k in range(3):
        w[(1 + k,) + at] = -v[k] if k == 1 else v[k]
    h, cfl = ctx.real("h", 0.01, 2), ctx.real("CFL", 0.01, 2)
    dt = hydro_dt(w=w, h=h, ndim=ndim, CFL=cfl, gamma=g, csq_floor=1e-10)
    ctx.eq("dt", dt * (v[0] + v[1] + v[2] + ndim), cfl * h)


def solver(ctx, n, bc, gamma, passives=0):
    """first order, arbitrary states: all cells and the ghost cells next to them"""
    from fvhoe.boundary_conditions import BoundaryCondition

    g = frac(ctx, gamma)
    w, c = _by_c(ctx, "w", n, g, passives)
    act = [k > 1 for k in n]
    ndim = sum(act)
    dom = [(ctx.real(f"a{x}", -1, 0), ctx.real(f"b{x}", 0.5, 2)) for x in "xyz"]
    cfl = ctx.real("CFL", 0.01, 2)
    sig = [_signal(ctx, w[(slice(None),) + i], c[i], ndim) for i in np.ndindex(*n)]
    kw = {}
    if bc is not None:
        d, dc = _by_c(ctx, "d", (1, 1, 1), g, passives)
        kw["bc"] = BoundaryCondition(x=bc, y=bc, z=bc, x_value=_cons(d, g).reshape(-1), y_value=_cons(d, g).reshape(-1), z_value=_cons(d, g).reshape(-1)) if bc == "dirichlet" else BoundaryCondition(x=bc, y=bc, z=bc)
        if bc == "dirichlet":
            sig.append(_signal(ctx, d[:, 0, 0, 0], dc[0, 0, 0], ndim))
    s = make_solver(_cons(w, g), passives=("s0", "s1")[:passives], x=dom[0], y=dom[1], z=dom[2], CFL=cfl, gamma=g, riemann_solver="advection_upwind", **kw)
    dt = s.f(0.0, s.am("u"))[0]
    ctx.observe("dt", dt)
    h = ctx.minn(*[(b - a) / k for (a, b), k in zip(dom, n)])
    for k, q in enumerate(sig):
        ctx.le(f"cell {k}", dt * q, cfl * h)
    ctx.true("attained", ctx.lor(*[abs(dt * q - cfl * h) <= 1e-9 for q in sig]))
    ctx.lt("positive", 0 * dt, dt)


def high_order(ctx, n, p, cfl, rs="advection_upwind", limited=False, dom=((0.0, 1.5), (0.0, 1.0), (0.0, 2.0))):
    """the step of a high-order scheme follows the cell averages of the primitive variables"""
    u = fixed(ctx, (5,) + n, 17)
    u[1:4] = u[1:4] - 1
    u[4] = ctx.array("E", n, 2, 4)
    gam = ctx.frac(7, 5)
    kw = dict(a_posteriori_slope_limiting=True, slope_limiter=None, SED=False, NAD_vars=("rho",)) if limited else {}
    s = make_solver(u, p=p, CFL=cfl, gamma=gam, riemann_solver=rs, x=dom[0], y=dom[1], z=dom[2], **kw)
    dt = s.f(0.0, s.am("u"))[0]
    w = primitives(ctx, s, u, p, True)
    act = [k > 1 or q > 0 for k, q in zip(n, p)]
    h = min((b - a) / k for (a, b), k in zip(dom, n))
    big = None
    for i in np.ndindex(*n):
        q = w[(slice(None),) + i]
        # squared: (CFL h / dt - sum |v|)^2 >= ndim^2 gamma P / rho
        v = abs(q[1]) + abs(q[2]) + abs(q[3])
        c = ctx.sqrt(gam * q[4] / q[0])
        ctx.assume(q[4] > 0.1)
        sig = v + sum(act) * c
        big = sig if big is None else ctx.maxn(big, sig)
    ctx.eq("dt", 1 / dt, big / (cfl * h), tol=1e-9)
    # the automatic step drives the integrator
    s.euler(n=1)
    ctx.eq("elapsed", s.t, dt)


def fixed_step(ctx, n, p, how):
    dt = ctx.real("dt", 0.001, 3)
    u = fixed(ctx, (5,) + n, 19)
    u[4] = u[4] + 2
    s = make_solver(u, p=p, fixed_dt=dt, CFL=ctx.real("CFL", 0.1, 1), gamma=ctx.frac(7, 5), riemann_solver="advection_upwind")
    ctx.eq("returned", s.f(0.0, s.am("u"))[0], dt)
    getattr(s, how)(n=2)
    ctx.eq("elapsed", s.t, 2 * dt)


def scaling(ctx, n):
    """linear in CFL and in the cell size; independent of passive scalars"""
    g = ctx.frac(5, 3)
    w, c = _by_c(ctx, "w", n, g, 1)
    u = _cons(w, g)
    k, cfl = ctx.real("k", 0.1, 5), ctx.real("CFL", 0.1, 1)
    L = ctx.real("L", 0.5, 2)
    base = dict(gamma=g, riemann_solver="advection_upwind")

    def dt(u, L, cfl, passives=()):
        s = make_solver(u, passives=passives, x=(0.0, L), y=(0.0, L), z=(0.0, L), CFL=cfl, **base)
        return s.f(0.0, s.am("u"))[0]

    d = dt(u[:5], L, cfl)
    ctx.eq("CFL", dt(u[:5], L, k * cfl), k * d)
    ctx.eq("size", dt(u[:5], k * L, cfl), k * d)
    ctx.eq("passive", dt(u, L, cfl, ("s0",)), d)


def advection(ctx):
    from fvhoe.hydro import advection_dt

    h, cfl = ctx.real("h", 0.01, 2), ctx.real("CFL", 0.01, 2)
    v = [ctx.real(f"v{c}", 0.1, 3) for c in "xyz"]
    ctx.eq("3D", advection_dt(h, *v, CFL=cfl) * (v[0] + v[1] + v[2]), cfl * h)
    ctx.eq("x", advection_dt(h, vx=v[0], CFL=cfl) * v[0], cfl * h)
    ctx.eq("y", advection_dt(h, vy=v[1], CFL=cfl) * v[1], cfl * h)
    ctx.eq("z", advection_dt(h, vz=v[2], CFL=cfl) * v[2], cfl * h)
    ctx.eq("default", advection_dt(h, v[0], v[1]) * (v[0] + v[1]), 0.8 * h)


def tasks(tier):
    ts = []
    for shape, ndim, g in (((2, 1, 1), 1, "7/5"), ((1, 2, 2), 2, "5/3"), ((3, 1, 1), 3, "7/5")):
        for case in ("sound", "floor"):
            ts.append(Task("kernel", dict(shape=shape, ndim=ndim, gamma=g, case=case)))
    for n, bc, g, k in (((3, 1, 1), None, "7/5", 1), ((1, 3, 1), "free", "5/3", 0), ((1, 1, 2), "dirichlet", "7/5", 0), ((2, 2, 1), None, "5/3", 0), ((2, 1, 2), "reflective", "7/5", 0),
                        ((1, 2, 2), "dirichlet", "7/5", 0), ((2, 2, 2), None, "7/5", 0)):
        ts.append(Task("solver", dict(n=n, bc=bc, gamma=g, passives=k)))
    for n, p in (((4, 1, 1), (1, 0, 0)), ((1, 5, 1), (0, 2, 0)), ((1, 1, 8), (0, 0, 3)), ((4, 4, 1), (1, 1, 0))):
        for cfl in ((0.8, 0.3) if p[0] == 1 else (0.5,)):
            ts.append(Task("high_order", dict(n=n, p=p, cfl=cfl), round_bits=120))
    # the finest axis is not always the one of highest (or lowest) degree, nor the first
    for n, p, dom in (((4, 4, 1), (2, 1, 0), ((0.0, 2.0), (0.0, 0.5), (0.0, 1.0))), ((4, 1, 4), (2, 0, 1), ((0.0, 0.5), (0.0, 1.0), (0.0, 2.0))), ((1, 4, 4), (0, 1, 2), ((0.0, 1.0), (0.0, 0.25), (0.0, 2.0))),
                      ((4, 4, 1), (1, 0, 0), ((0.0, 2.0), (0.0, 0.5), (0.0, 1.0))), ((1, 4, 4), (0, 0, 2), ((0.0, 1.0), (0.0, 2.0), (0.0, 0.25)))):
        ts.append(Task("high_order", dict(n=n, p=p, cfl=0.7, dom=dom), round_bits=120))
    ts.append(Task("high_order", dict(n=(5, 1, 1), p=(1, 0, 0), cfl=0.6, limited=True), round_bits=120))
    for n, p, how in (((2, 1, 1), (0, 0, 0), "euler"), ((1, 4, 1), (0, 1, 0), "rk4"), ((1, 1, 4), (0, 0, 2), "ssprk3"), ((2, 2, 1), (0, 0, 0), "ssprk2")):
        ts.append(Task("fixed_step", dict(n=n, p=p, how=how), round_bits=120))
    for n in ((2, 1, 1), (1, 2, 2)):
        ts.append(Task("scaling", dict(n=n)))
    ts.append(Task("advection", {}))
    for k, at in enumerate((0, 1, 299, 511, 598, 600)):
        ts.append(Task("spike", dict(shape=(601, 1, 1) if k % 2 else (1, 601, 1), at=(at, 0, 0) if k % 2 else (0, at, 0), ndim=1)))
    for at in ((7, 8, 8), (0, 8, 5), (4, 0, 8), (8, 3, 0), (8, 8, 8)):
        ts.append(Task("spike", dict(shape=(9, 9, 9), at=at, ndim=3)))
    return ts


META = dict(
    bounds="arbitrary states, CFL numbers and domains on 2-3 cells (1D), 2x2 (2D) and 2x2x2 (3D) at first order with every kind of boundary; degrees 1-3 on fixed flows of 4-8 cells (and 4x4) with arbitrary energies; "
    "one fast cell with arbitrary speed at sampled places of 601 and 9x9x9 cells; cells whose squared sound speed lies above or below the floor",
    how="states are written with the sound speed as a variable, so the step is bounded for every cell, shown to be attained by one, and compared with the closed form.",
    assumptions=["real arithmetic in place of IEEE rounding", "interpolation weights as decided by C01"],
)
