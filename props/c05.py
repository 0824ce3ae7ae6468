"""C05: numerical fluxes are consistent with the physical flux: F(w, w) = F(w)"""
import numpy as np

from symx.runner import Task
from props.common import *


def consistency(ctx, solver, dim, passives, gamma):
    import fvhoe.riemann_solvers as rs
    from fvhoe.hydro import HydroState

    hs = HydroState(passive_scalars=tuple(passives))
    g = frac(ctx, gamma) if gamma else ctx.real("gamma", 1.05, 3)
    w = prim_state(ctx, "w", (2, 1, 1), len(passives), rho=(0.05, 20), v=(-10, 10), P=(0.05, 20))
    F = getattr(rs, solver)(hs=hs, riemann_problem=(w, w.copy()), gamma=g, dim=dim, csq_floor=1e-10)
    ctx.observe("F", F)
    d = "xyz".index(dim) + 1
    v = w[d]
    P = w[4] if solver != "advection_upwind" else 0 * w[4]
    ctx.eq("mass", F[0], w[0] * v)
    for i in (1, 2, 3):
        ctx.eq(f"momentum{i}", F[i], w[0] * w[i] * v + (P if i == d else 0 * P))
    kin = 0.5 * w[0] * (w[1] * w[1] + w[2] * w[2] + w[3] * w[3])
    ctx.eq("energy", F[4] * (g - 1), v * (w[4] + (kin + P) * (g - 1)))
    for k in range(len(passives)):
        ctx.eq(f"scalar{k}", F[5 + k], w[0] * v * w[5 + k])


def tasks(tier):
    ts = []
    for s in ("llf", "hllc", "advection_upwind"):
        for d in "xyz":
            ts.append(Task("consistency", dict(solver=s, dim=d, passives=("a", "b"), gamma=None)))
            ts.append(Task("consistency", dict(solver=s, dim=d, passives=(), gamma="5/3")))
            ts.append(Task("consistency", dict(solver=s, dim=d, passives=("p", "q", "a", "b", "c"), gamma="7/5")))
    return ts


META = dict(
    bounds="two independent interfaces, density and pressure in [0.05,20], velocities in [-10,10], gamma any real in [1.05,3], "
    "sound-speed floor 1e-10, 0, 2 or 5 passive scalars, each of the three directions and three Riemann solvers",
    how="both states of the interface are the same symbolic primitive state.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
