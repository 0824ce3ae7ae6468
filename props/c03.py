"""C03: mesh and ghost-slab coordinates"""
import numpy as np

from symx.runner import Task
from props.common import *


def _domain(ctx, names="xyz"):
    return [(ctx.real(f"{c}0", -3, 3), ctx.real(f"len_{c}", 0.1, 5)) for c in names]


def _bounds(dom):
    return [(a, a + l) for a, l in dom]


def _grid(ctx, dom, n, lo, hi):
    """coordinates of the cells with indices lo..hi-1 along each axis"""
    out = []
    sh = tuple(b - a for a, b in zip(lo, hi))
    for ax in range(3):
        a, l = dom[ax]
        v = [a + l * (ctx.const(2 * i + 1) / (2 * n[ax])) for i in range(lo[ax], hi[ax])]
        g = ctx.stack(v).reshape([-1 if k == ax else 1 for k in range(3)])
        out.append(g * np.ones(sh))
    return out


def mesh(ctx, n, gw):
    from fvhoe.fv import fv_uniform_meshgen

    dom = _domain(ctx)
    x, y, z = _bounds(dom)
    if gw is None:
        got = fv_uniform_meshgen(n, x=x, y=y, z=z)
    else:
        got, slabs = fv_uniform_meshgen(n, x=x, y=y, z=z, slab_thickness=gw)
    want = _grid(ctx, dom, n, (0, 0, 0), n)
    for k in range(3):
        ctx.true(f"shape {k}", tuple(got[k].shape) == tuple(n))
        ctx.eq(f"centres {'xyz'[k]}", got[k], want[k])
    if gw is None:
        return
    ctx.true("slabs", set(slabs) == {"xl", "xr", "yl", "yr", "zl", "zr"})
    for ax in range(3):
        for pos in "lr":
            lo = [-g for g in gw]
            hi = [m + g for m, g in zip(n, gw)]
            if pos == "l":
                hi[ax] = 0
            else:
                lo[ax] = n[ax]
            s = slabs["xyz"[ax] + pos]
            sh = tuple(b - a for a, b in zip(lo, hi))
            for k in range(3):
                ctx.true(f"slab shape {ax}{pos}{k}", tuple(s[k].shape) == sh)
                if 0 not in sh:
                    ctx.eq(f"slab {'xyz'[ax]}{pos} {'xyz'[k]}", s[k], _grid(ctx, dom, n, lo, hi)[k])


def solver(ctx, n, p):
    """the solver's own mesh attributes"""
    from fvhoe.solver import EulerSolver

    dom = _domain(ctx)
    x, y, z = _bounds(dom)
    u = fixed(ctx, (5,) + n, 2)
    s = make_solver(u, p=p, x=x, y=y, z=z, fixed_dt=0.1)
    X = _grid(ctx, dom, n, (0, 0, 0), n)
    for k, c in enumerate("xyz"):
        ctx.eq(f"h{c}", s.h[k] * n[k], dom[k][1])
        ctx.eq(f"{c} mesh", getattr(s, c.upper()), X[k])
        ctx.true(f"{c} length", tuple(getattr(s, c).shape) == (n[k],))
        v = X[k][tuple(slice(None) if q == k else 0 for q in range(3))]
        ctx.eq(f"{c} vector", getattr(s, c), v)
    dims = "".join(c for k, c in enumerate("xyz") if n[k] > 1 or p[k] > 0)
    ctx.true("active dimensions", s.dims == dims and s.ndim == len(dims) and (s.xdim, s.ydim, s.zdim) == tuple(c in dims for c in "xyz"))
    ctx.true("sizes", tuple(s.n) == tuple(n) and tuple(s.p) == tuple(p))


def handed(ctx, n, p, gw, sides, buffer=30):
    """coordinates and time that reach the boundary functions of a solver"""
    from fvhoe.boundary_conditions import BoundaryCondition

    dom = _domain(ctx)
    x, y, z = _bounds(dom)
    t = ctx.real("t", 0, 2)
    seen = {}

    def rec(side):
        def f(x, y, z, t):
            seen[side] = (x, y, z, t)
            return np.ones((5,) + tuple(x.shape))

        return f

    kw = {}
    for ax in "xyz":
        if ax in sides:
            kw[ax] = "dirichlet"
            kw[ax + "_value"] = (rec(ax + "l"), rec(ax + "r"))
    u = fixed(ctx, (5,) + n, 2)
    s = make_solver(u, p=p, x=x, y=y, z=z, fixed_dt=0.1, bc=BoundaryCondition(**kw), slab_buffer_size=buffer)
    s.bc.apply(s.am("u"), gw=gw, t=t)
    ctx.true("called", set(seen) == {a + b for a in sides for b in "lr"})
    for side, got in seen.items():
        ax = "xyz".index(side[0])
        lo = [-g for g in gw]
        hi = [m + g for m, g in zip(n, gw)]
        if side[1] == "l":
            hi[ax] = 0
        else:
            lo[ax] = n[ax]
        want = _grid(ctx, dom, n, lo, hi)
        for k in range(3):
            ctx.true(f"{side} shape {k}", tuple(got[k].shape) == tuple(b - a for a, b in zip(lo, hi)))
            ctx.eq(f"{side} {'xyz'[k]}", got[k], want[k])
        ctx.eq(f"{side} t", got[3], t)


def tasks(tier):
    ts = []
    for n, gw in (((4, 1, 1), None), ((2, 3, 4), None), ((1, 1, 1), None), ((3, 1, 1), (2, 0, 0)), ((2, 3, 1), (1, 2, 0)), ((1, 2, 3), (0, 3, 1)), ((2, 2, 2), (1, 2, 3)), ((1, 5, 1), (0, 7, 0))):
        ts.append(Task("mesh", dict(n=n, gw=gw)))
    for n, p in (((4, 1, 1), (0, 0, 0)), ((1, 4, 1), (0, 1, 0)), ((1, 1, 8), (0, 0, 3)), ((4, 5, 1), (1, 2, 0)), ((1, 3, 2), (0, 0, 0)), ((2, 3, 4), (0, 0, 0)), ((4, 1, 4), (2, 0, 1)), ((4, 4, 4), (1, 1, 1))):
        ts.append(Task("solver", dict(n=n, p=p)))
    H = [
        dict(n=(3, 1, 1), p=(0, 0, 0), gw=(2, 0, 0), sides="x"), dict(n=(1, 4, 1), p=(0, 1, 0), gw=(0, 5, 0), sides="y"), dict(n=(1, 1, 3), p=(0, 0, 0), gw=(0, 0, 1), sides="z"),
        dict(n=(3, 2, 1), p=(0, 0, 0), gw=(1, 2, 0), sides="xy"), dict(n=(3, 1, 3), p=(0, 0, 0), gw=(2, 0, 1), sides="xz"), dict(n=(1, 4, 3), p=(0, 0, 0), gw=(0, 2, 3), sides="z"),
        dict(n=(2, 2, 2), p=(0, 0, 0), gw=(1, 2, 1), sides="xyz", buffer=2), dict(n=(3, 3, 1), p=(0, 0, 0), gw=(3, 3, 0), sides="y", buffer=3), dict(n=(3, 1, 1), p=(0, 0, 0), gw=(30, 0, 0), sides="x"),
    ]
    for c in H:
        ts.append(Task("handed", c))
    return ts


META = dict(
    bounds="any domain (origin in [-3,3], lengths in [0.1,5]) with up to 8 cells per axis in 1D, 2D and 3D, slab thicknesses up to 7 (30 in 1D), slab buffers of 2, 3 and 30",
    how="domain bounds are symbolic; every coordinate of the mesh, of each ghost slab, and of the arrays handed to boundary functions is compared with the uniform grid continued outside.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
