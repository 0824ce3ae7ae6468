"""C10: periodic runs conserve the domain integral of every conserved variable, through every stage and limiter"""
import numpy as np

from symx.runner import Task
from props.common import *


def long(ctx, n, p, kw, at, passives=0):
    """a fixed flow on many cells, arbitrary in a few of them"""
    u = fixed(ctx, (5 + passives,) + n, 13)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 3
    for k, i in enumerate(at):
        u[(4,) + i] = ctx.real(f"E{k}", 2, 4)
    s = make_solver(u, p=p, passives=tuple(f"s{k}" for k in range(passives)), gamma=ctx.frac(7, 5), **kw)
    dudt = s.f(0.0, s.am("u"))[1]
    ctx.eq("sum of dudt", dudt.sum(axis=(1, 2, 3)), ctx.const(np.zeros(5 + passives)), tol=1e-9)


def rhs(ctx, n, p, kw, passives=0, bc=None):
    """sum of du/dt over the cells is zero"""
    if bc is not None:
        from fvhoe.boundary_conditions import BoundaryCondition

        kw = dict(kw, bc=BoundaryCondition(x=bc[0], y=bc[1], z=bc[2]))
    names = tuple(f"s{k}" for k in range(passives))
    u = cons_state(ctx, "u", n, passives)
    s = make_solver(u, p=p, passives=names, **kw)
    dt, dudt = s.f(0.0, s.am("u"))
    ctx.observe("dudt", dudt)
    ctx.eq("sum of dudt", dudt.sum(axis=(1, 2, 3)), ctx.const(np.zeros(5 + passives)))


def steps(ctx, n, p, integrator, kw, passives=0, nsteps=1):
    """the totals before and after whole time steps agree"""
    names = tuple(f"s{k}" for k in range(passives))
    u = cons_state(ctx, "u", n, passives)
    before = u.sum(axis=(1, 2, 3))
    s = make_solver(u, p=p, passives=names, **kw)
    getattr(s, integrator)(n=nsteps)
    after = s.am("u")
    ctx.eq("total", after.sum(axis=(1, 2, 3)), before)


THICK = {0: 1, 1: 4, 2: 4, 3: 8, 4: 8, 5: 12, 6: 12, 7: 16, 8: 16}  # ghost slabs: the least number of periodic cells


def tasks(tier):
    ts = []
    # unlimited schemes: every order, both Riemann solvers
    for p in (range(0, 5) if tier == "quick" else range(0, 9)):
        n = max(3, THICK[p])
        ts.append(Task("rhs", dict(n=(n, 1, 1), p=(p, 0, 0), kw=dict(riemann_solver=("llf", "hllc")[p % 2], CFL=0.5), passives=p % 2)))
        ts.append(Task("rhs", dict(n=(1, n, 1), p=(0, p, 0), kw=dict(riemann_solver=("hllc", "llf")[p % 2], fixed_dt=0.01))))
    ts.append(Task("rhs", dict(n=(1, 1, 8), p=(0, 0, 3), kw=dict(riemann_solver="hllc", fixed_dt=0.01), passives=2)))
    ts.append(Task("rhs", dict(n=(4, 1, 1), p=(2, 0, 0), kw=dict(riemann_solver="advection_upwind", fixed_dt=0.01), passives=1)))
    ts.append(Task("rhs", dict(n=(4, 5, 1), p=(2, 1, 0), kw=dict(riemann_solver="llf", fixed_dt=0.01), passives=1)))
    ts.append(Task("rhs", dict(n=(4, 1, 4), p=(1, 0, 2), kw=dict(riemann_solver="hllc", fixed_dt=0.01))))
    ts.append(Task("rhs", dict(n=(2, 2, 3), p=(0, 0, 0), kw=dict(riemann_solver="llf", fixed_dt=0.01))))
    ts.append(Task("rhs", dict(n=(3, 1, 2), p=(0, 0, 0), kw=dict(riemann_solver="llf", fixed_dt=0.01), passives=4)))
    ts.append(Task("rhs", dict(n=(1, 3, 1), p=(0, 0, 0), kw=dict(riemann_solver="hllc", fixed_dt=0.01), passives=5)))
    for i, (n, p, at) in enumerate((((70, 1, 1), (1, 0, 0), ((0, 0, 0), (64, 0, 0))), ((1, 130, 1), (0, 0, 0), ((0, 127, 0), (0, 128, 0))), ((1, 1, 67), (0, 0, 2), ((0, 0, 33), (0, 0, 66))), ((12, 11, 1), (0, 0, 0), ((11, 10, 0), (4, 8, 0))), ((5, 6, 7), (0, 0, 0), ((4, 5, 6), (2, 3, 3))))):
        ts.append(Task("long", dict(n=n, p=p, kw=dict(riemann_solver=("llf", "advection_upwind", "hllc")[i % 3], fixed_dt=0.01), at=at, passives=3 * (i % 2)), round_bits=120))
    ts.append(Task("long", dict(n=(40, 1, 1), p=(1, 0, 0), kw=dict(riemann_solver="advection_upwind", fixed_dt=0.01, a_posteriori_slope_limiting=True, SED=False, NAD_vars=("rho",), PAD={}), at=((0, 0, 0), (20, 0, 0))), round_bits=120))
    # steps far beyond stability, in which a cell may lose more than it holds
    ts.append(Task("rhs", dict(n=(3, 1, 1), p=(0, 0, 0), kw=dict(riemann_solver="llf", fixed_dt=4.0), passives=1)))
    ts.append(Task("rhs", dict(n=(1, 4, 1), p=(0, 1, 0), kw=dict(riemann_solver="hllc", fixed_dt=4.0))))
    ts.append(Task("rhs", dict(n=(5, 1, 1), p=(1, 0, 0), kw=dict(riemann_solver="llf", fixed_dt=4.0, a_posteriori_slope_limiting=True, SED=False, NAD_vars=("rho",), PAD=dict(rho=(0, 10)))), hard=300))
    ts.append(Task("steps", dict(n=(3, 1, 1), p=(0, 0, 0), integrator="euler", kw=dict(riemann_solver="llf", fixed_dt=4.0), passives=1)))
    if tier != "quick":
        ts.append(Task("rhs", dict(n=(4, 4, 4), p=(1, 2, 1), kw=dict(riemann_solver="llf", fixed_dt=0.01)), hard=700))
    # a posteriori limiting: trouble flags are decided symbolically
    L = dict(a_posteriori_slope_limiting=True, riemann_solver="llf", fixed_dt=0.01)
    lim = [
        dict(n=(5, 1, 1), p=(2, 0, 0), kw=dict(L), passives=1),
        dict(n=(5, 1, 1), p=(1, 0, 0), kw=dict(L, riemann_solver="hllc", slope_limiter="moncen", convex=True)),
        dict(n=(1, 6, 1), p=(0, 1, 0), kw=dict(L, SED=False, convex=True)),
        dict(n=(6, 1, 1), p=(2, 0, 0), kw=dict(L, NAD_mode="local", NAD_range="absolute", convex=True, riemann_solver="hllc")),
        dict(n=(5, 5, 1), p=(1, 1, 0), kw=dict(L, SED=False, NAD_vars=("rho",), PAD=dict(rho=(0, 10)))),
        dict(n=(5, 5, 1), p=(1, 1, 0), kw=dict(L, SED=False, convex=True, NAD_vars=("rho",), PAD=dict(rho=(0, 10)))),
        dict(n=(5, 5, 1), p=(1, 1, 0), kw=dict(L, force_trouble=True, slope_limiter="moncen")),
        # the boundary conditions of inactive axes are irrelevant
        dict(n=(5, 1, 1), p=(1, 0, 0), kw=dict(L, SED=False), bc=("periodic", "free", "reflective")),
        dict(n=(1, 5, 1), p=(0, 1, 0), kw=dict(L, SED=False), bc=("free", ("periodic", "periodic"), "free")),
        dict(n=(1, 1, 5), p=(0, 0, 1), kw=dict(L, SED=False, convex=True, NAD_vars=("rho",), PAD=dict(rho=(0, 10))), bc=("reflective", "free", "periodic")),
        dict(n=(5, 1, 5), p=(1, 0, 1), kw=dict(L, SED=False, NAD_vars=("rho",), PAD=dict(rho=(0, 10))), bc=("periodic", "free", "periodic")),
        dict(n=(1, 5, 5), p=(0, 1, 1), kw=dict(L, SED=False, NAD_vars=("rho",), PAD=dict(rho=(0, 10))), bc=("free", "periodic", "periodic")),
    ]
    if tier != "quick":
        lim += [
            dict(n=(8, 1, 1), p=(2, 0, 0), kw=dict(L)),
            dict(n=(8, 1, 1), p=(4, 0, 0), kw=dict(L, SED=False, convex=True)),
            dict(n=(8, 1, 1), p=(2, 0, 0), kw=dict(L, riemann_solver="hllc", slope_limiter="moncen", convex=True)),
            dict(n=(8, 1, 1), p=(2, 0, 0), kw=dict(L, SED=False)),
            dict(n=(8, 1, 1), p=(2, 0, 0), kw=dict(L, NAD_mode="local", NAD_range="absolute")),
            dict(n=(5, 5, 1), p=(1, 1, 0), kw=dict(L)),
            dict(n=(5, 5, 1), p=(2, 2, 0), kw=dict(L, convex=True)),
            dict(n=(1, 5, 5), p=(0, 1, 1), kw=dict(L, convex=True)),
        ]
    for c in lim:
        ts.append(Task("rhs", c, hard=700))
    for i in ("euler", "ssprk2", "ssprk3", "rk4"):
        ts.append(Task("steps", dict(n=(3, 1, 1), p=(0, 0, 0), integrator=i, kw=dict(riemann_solver="llf", fixed_dt=0.01), passives=1)))
    ts.append(Task("steps", dict(n=(4, 1, 1), p=(1, 0, 0), integrator="euler", kw=dict(riemann_solver="hllc", CFL=0.5), nsteps=2)))
    return ts


META = dict(
    bounds="periodic boxes: 1D with up to 8 (16 in the thorough tier) cells and degree up to 4 (8), 2D up to 5x5 cells, 3D 2x2x3 (4x4x4), up to five passive "
    "scalars, LLF/HLLC/advection, unlimited and a-posteriori limited (trouble flags symbolic); fixed flows with arbitrary energies in two cells on up to 130 cells; whole steps of "
    "every integrator on 3 cells",
    how="every cell average is an independent symbolic real (density in [0.5,2], momenta in [-0.5,0.5], energy in [2,4], scalars in [-1,1]); the "
    "obligation is that the sum over all cells of the semi-discrete time derivative, or of the update of a whole step, is exactly zero.",
    assumptions=["real arithmetic in place of IEEE rounding", "no division by zero"],
)
