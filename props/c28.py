"""C28: the full scheme is exact on advected polynomials"""
import numpy as np

from symx.runner import Task
from props.common import *

DOM = dict(x=(0.0, 1.5), y=(-1.0, 1.0), z=(0.25, 1.0))


def _avg(x, h, k):
    """average of x^k over the cell around x (exact)"""
    a, b = x + h / 2, x - h / 2
    return (a ** (k + 1) - b ** (k + 1)) / ((k + 1) * h)


def exact(ctx, n, p, rs, deg=None, vel=None, what="density", gamma="7/5", P="free", conc="free", scalars=1):
    from fvhoe.boundary_conditions import BoundaryCondition

    g = frac(ctx, gamma)
    act = [n[i] > 1 or p[i] > 0 for i in range(3)]
    deg = deg or p
    hs = [(DOM[c][1] - DOM[c][0]) for c in "xyz"]
    h = [ctx.const(hs[i]) / n[i] for i in range(3)]
    v = [ctx.real(f"v{c}", -2, 2) if vel is None else ctx.const(vel[i]) for i, c in enumerate("xyz")]
    Pr = ctx.real("P", 0.5, 2) if P == "free" else ctx.const(P)
    co = {}
    for k in np.ndindex(*[d + 1 for d in deg]):
        co[k] = ctx.real("a" + "".join(map(str, k)), -0.01, 0.01) if k != (0, 0, 0) else ctx.real("a000", 1, 2)

    def field(x, y, z, face=None, side=0):
        """cell averages; averages over a face when face is an axis"""
        out = 0
        for k, c in co.items():
            t = c
            for i, q in enumerate((x, y, z)):
                t = t * ((q + side * h[i] / 2) ** k[i] if face == i else _avg(q, h[i], k[i]))
            out = out + t
        return out

    r0 = ctx.const(1.25)
    cc = ctx.real("conc", -1, 1) if conc == "free" else ctx.const(0.5)

    def cons(q):
        rho, s = (q, cc * q) if what == "density" else (r0 + 0 * q, r0 * q)
        more = [(k + 2) * s for k in range(scalars - 1)]
        e = Pr / (g - 1) + rho * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / 2
        return np.stack([rho, rho * v[0], rho * v[1], rho * v[2], e, s] + more)

    def values(x, y, z, t=None):
        return cons(field(x, y, z))

    ax = []
    for i, c in enumerate("xyz"):
        sh = [1, 1, 1]
        sh[i] = n[i]
        col = ctx.stack([ctx.const(DOM[c][0]) + h[i] * (j + ctx.frac(1, 2)) for j in range(n[i])]).reshape(tuple(sh))
        ax.append(col + 0 * ctx.const(np.ones(n)))
    u = cons(field(*ax))
    b = {c: "dirichlet" if act[i] else "periodic" for i, c in enumerate("xyz")}
    b.update({c + "_value": (values, values) for i, c in enumerate("xyz") if act[i]})
    s = make_solver(u, p=p, passives=tuple(f"s{k}" for k in range(scalars)), riemann_solver=rs, gamma=g, fixed_dt=0.01, bc=BoundaryCondition(**b), **DOM)
    rate = s.f(0.0, s.am("u"))[1]
    q = 0
    for i in range(3):
        if act[i]:
            q = q - v[i] / h[i] * (field(*ax, face=i, side=1) - field(*ax, face=i, side=-1))
    want = cons(q)
    want[4] = want[4] - Pr / (g - 1)
    if what != "density":
        want[:5] = 0 * want[:5]
    for k, name in enumerate(("density", "x momentum", "y momentum", "z momentum", "energy", "scalar") + tuple(f"scalar {k + 2}" for k in range(scalars - 1))):
        ctx.eq(name, rate[k], want[k], tol=1e-7)


def tasks(tier):
    ts = []

    def add(n, p, rs, **kw):
        ts.append(Task("exact", dict(n=n, p=p, rs=rs, **kw), **({} if kw.get("vel") is None else dict(round_bits=160))))

    RS = ("advection_upwind", "llf", "hllc")
    V = (0.5, -0.75, 1.25)
    for i, rs in enumerate(RS):
        for ax in range(3):
            for d in (1, 2, 3, 4, 5, 6, 7, 8):
                n, p = [1, 1, 1], [0, 0, 0]
                n[ax], p[ax] = 2 + d % 2, d
                n, p = tuple(n), tuple(p)
                vel = V[ax:] + V[:ax]
                add(n, p, rs, vel=vel, P=1.5, conc="half")
                add(n, p, rs, vel=tuple(-q for q in vel), P=1.5, conc="half", what="scalar")
                if d < 4:
                    add(n, p, rs, gamma="5/3")
                    add(n, p, rs, what="scalar")
        for n, p in [((2, 2, 1), (1, 1, 0)), ((2, 1, 2), (2, 0, 1)), ((1, 2, 2), (0, 1, 3)), ((2, 2, 1), (3, 2, 0)), ((2, 1, 2), (3, 0, 3)), ((2, 2, 2), (1, 1, 1)), ((2, 2, 1), (1, 2, 1))] + ([((1, 2, 2), (2, 3, 1)), ((2, 2, 1), (4, 4, 0))] if tier == "thorough" else [((1, 2, 2), (1, 2, 1))]):
            for w in ("density", "scalar"):
                add(n, p, rs, vel=V, P=1.5, conc="half", what=w)
                add(n, p, rs, vel=(-0.5, 0.25, -1.0), P=0.75, conc="half", what=w)
        add((2, 1, 2), (1, 0, 2), rs, vel=V, P=1.5, conc="half", scalars=4)
        add((1, 2, 1), (0, 2, 0), rs, vel=V, P=1.5, conc="half", scalars=5, what="scalar")
    # high degrees across the direction of the flux
    k = 0
    for a in range(3):
        for b in range(3):
            if a != b:
                for d in (4, 5, 6, 7, 8):
                    n, p, deg = [1, 1, 1], [0, 0, 0], [0, 0, 0]
                    n[a] = n[b] = 2
                    p[a], p[b] = 1, d
                    deg[a], deg[b] = 1, d
                    add(tuple(n), tuple(p), RS[k % 3], deg=tuple(deg), vel=V, P=1.5, conc="half")
                    k += 1
    for i, (n, p) in enumerate([((2, 2, 1), (4, 4, 0)), ((1, 2, 2), (0, 5, 4)), ((2, 1, 2), (6, 0, 3)), ((2, 2, 2), (2, 2, 2))] + ([((1, 2, 1), (1, 4, 2)), ((1, 1, 2), (4, 1, 1)), ((2, 2, 1), (8, 8, 0)), ((2, 2, 2), (3, 3, 3))] if tier == "thorough" else [])):
        add(n, p, RS[i % 3], vel=V, P=1.5, conc="half")
    return ts


META = dict(
    bounds="1D degrees 1-8 on 2-3 cells, 2D products of degrees up to 4 with each other and up to 8 with degree 1 on 2x2 cells for every pair of axes, 3D products of degrees up to 3 on 1-2 cells per axis; every polynomial of that degree per direction (arbitrary coefficients), velocity and pressure arbitrary in 1D up to degree 3 and fixed (two sign patterns) beyond, density-borne and concentration-borne profiles, three Riemann solvers, Dirichlet data supplying the exact averages",
    how="the solver's right-hand side runs on the exact cell averages of a polynomial with symbolic coefficients; each rate is compared with the exact difference of face averages",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
