"""C15: what the ghost cells hold"""
import numpy as np

from symx.runner import Task
from props.common import *

AX = "xyz"


def _pick(a, ax, i):
    return a[(slice(None),) * (ax + 1) + (slice(i, i + 1),)]


def _negated(a, v):
    rows = [a[k : k + 1] if k != v else -a[k : k + 1] for k in range(a.shape[0])]
    return np.concatenate(rows, axis=0)


def extend(ctx, u, g, types, slab, dom, n, order=(0, 1, 2)):
    """the padded array, one axis after the other; slab(ax, side, x, y, z) supplies prescribed values on a mesh"""
    def coords(ax, lo, hi):
        a, b = dom[ax]
        return [a + (b - a) * (ctx.const(i) + 0.5) / n[ax] for i in range(lo, hi)]

    done = [0, 0, 0]  # layers present so far along each axis
    for ax in order:
        if g[ax] == 0:
            continue
        m = n[ax]
        sides = []
        for side in (0, 1):
            t = types[ax][side]
            idx = list(range(-g[ax], 0)) if side == 0 else list(range(m, m + g[ax]))
            if t == "periodic":
                part = [_pick(u, ax, i % m) for i in idx]
            elif t == "free":
                part = [_pick(u, ax, 0 if side == 0 else m - 1) for i in idx]
            elif t in ("outflow", "reflective"):
                part = [_pick(u, ax, -1 - i if side == 0 else 2 * m - 1 - i) for i in idx]
                if t == "reflective":
                    part = [_negated(q, 1 + ax) for q in part]
            elif t in ("dirichlet", "ic"):
                part = []
                for i in idx:
                    rng = [coords(b, -done[b], n[b] + done[b]) for b in range(3)]
                    rng[ax] = coords(ax, i, i + 1)
                    sh = [len(r) for r in rng]
                    X, Y, Z = (ctx.stack([rng[b][k[b]] for k in np.ndindex(*sh)]).reshape(sh) for b in range(3))
                    part.append(slab(ax, side, X, Y, Z, u.shape[0]))
            else:
                raise ValueError(t)
            sides.append(part)
        u = np.concatenate(sides[0] + [u] + sides[1], axis=ax + 1)
        done[ax] = g[ax]
    return u


def _linear(ctx, name, nv):
    c = [ctx.array(f"{name}{k}", (5,), -1, 1) for k in range(nv)]

    def f(x, y, z, t=None):
        t = 0 if t is None else t
        return np.stack([c[k][0] + c[k][1] * x + c[k][2] * y + c[k][3] * z + c[k][4] * t for k in range(nv)])

    return f


def _domain(ctx, n):
    return [(ctx.real(f"a{c}", -1, 0), ctx.real(f"b{c}", 1, 2)) for c in AX]


def _sides(t):
    return t if isinstance(t, tuple) else (t, t)


def apply(ctx, n, g, bc, passives=0, extra=0):
    """BoundaryCondition.apply on an arbitrary state"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.fv import fv_uniform_meshgen

    nv = 5 + passives
    hs = hstate(tuple(f"s{k}" for k in range(passives)))
    u = ctx.array("u", (nv,) + tuple(n), -2, 2)
    t = ctx.real("t", 0, 5)
    dom = _domain(ctx, n)
    types, vals, fs = [], {}, {}
    for ax in range(3):
        pair = []
        for side, kind in enumerate(_sides(bc[ax])):
            pair.append("dirichlet" if kind in ("constant", "callable") else kind)
            if kind == "constant":
                fs[ax, side] = ctx.array(f"d{ax}{side}", (nv,), -2, 2)
            elif kind == "callable":
                fs[ax, side] = _linear(ctx, f"f{ax}{side}", nv)
        types.append(tuple(pair))
        same = not isinstance(bc[ax], tuple)
        if same and (ax, 0) in fs:
            fs[ax, 1] = fs[ax, 0]
            vals[AX[ax] + "_value"] = fs[ax, 0]
        else:
            vals[AX[ax] + "_value"] = (fs.get((ax, 0)), fs.get((ax, 1)))

    def slab(ax, side, X, Y, Z, nv):
        f = fs[ax, side]
        if callable(f):
            return f(X, Y, Z, t)
        return np.stack([f[k] + 0 * X for k in range(nv)])

    buf = tuple(k + extra if k else 0 for k in g)
    _, slabs = fv_uniform_meshgen(n, x=dom[0], y=dom[1], z=dom[2], slab_thickness=buf)
    before = u.copy()
    b = BoundaryCondition(x=bc_arg(types[0], bc[0]), y=bc_arg(types[1], bc[1]), z=bc_arg(types[2], bc[2]), slab_coords=slabs, hydro_state=hs, **vals)
    out = b.apply(u, gw=tuple(g), t=t)
    ctx.observe("out", out)
    ctx.eq("padded", out, extend(ctx, before, g, types, slab, dom, n))
    ctx.eq("input untouched", u, before)
    # a second application gives the same: nothing is remembered
    ctx.eq("again", b.apply(u, gw=tuple(g), t=t), out)


def bc_arg(pair, given):
    return pair if isinstance(given, tuple) else pair[0]


def thick(ctx, n, g, kind, ax):
    """slabs that the interior cannot fill are refused"""
    from fvhoe.boundary_conditions import BoundaryCondition

    u = ctx.array("u", (5,) + tuple(n), -2, 2)
    b = BoundaryCondition(**{c: kind if i == ax else "free" for i, c in enumerate(AX)})
    try:
        b.apply(u, gw=tuple(g))
        ok = False
    except ValueError:
        ok = True
    ctx.true("refused", ok)


def invalid(ctx, how):
    from fvhoe.boundary_conditions import BoundaryCondition

    u = ctx.array("u", (5, 3, 1, 1), -2, 2)
    try:
        if how == "type":
            BoundaryCondition(x="wall").apply(u, gw=(1, 0, 0))
        elif how == "triple":
            BoundaryCondition(x=("free", "free", "free"))
        elif how == "list":
            BoundaryCondition(y=["free", "free"])
        ok = False
    except ValueError:
        ok = True
    ctx.true("refused", ok)


def embedded(ctx, n, p, bc, limited=False, time=True):
    """the solver's rates are those of a larger domain whose extra cells hold the promised ghost values"""
    from fvhoe.boundary_conditions import BoundaryCondition

    G = max(p) and {1: 4, 2: 4, 3: 8}[max(p)] + (1 if limited else 0) or 2
    g = [G if (n[i] > 1 or p[i]) else 0 for i in range(3)]
    u = fixed(ctx, (5,) + tuple(n), 11)
    u[1:4] = u[1:4] - 1
    u[4] = ctx.array("E", n, 2, 4)
    dom = [(-0.5, 1.0), (0.0, 2.0), (0.25, 1.25)]
    t = ctx.real("t", 0, 1)
    fs, vals, types = {}, {}, []
    cst = fixed(ctx, (6, 5), 5)
    for ax in range(3):
        pair = []
        for side, kind in enumerate(_sides(bc[ax])):
            pair.append("dirichlet" if kind in ("constant", "callable") else kind)
            q = cst[2 * ax + side].copy()
            q[1:4] = q[1:4] - 1
            if kind == "constant":
                q[4] = ctx.real(f"Ed{ax}{side}", 2, 4)
                fs[ax, side] = q
            elif kind == "callable":
                e = ctx.array(f"e{ax}{side}", (4,), 0, 0.2)

                def f(x, y, z, t, q=q, e=e):
                    r = [q[k] + 0 * x for k in range(4)]
                    return np.stack(r + [3 + e[0] * x + e[1] * y + e[2] * z + e[3] * t])

                fs[ax, side] = f
        types.append(tuple(pair))
        vals[AX[ax] + "_value"] = (fs.get((ax, 0)), fs.get((ax, 1)))

    def slab(ax, side, X, Y, Z, nv):
        f = fs[ax, side]
        return f(X, Y, Z, t) if callable(f) else np.stack([f[k] + 0 * X for k in range(nv)])

    kw = dict(riemann_solver="advection_upwind", fixed_dt=0.01, gamma=ctx.frac(7, 5))
    if limited:
        kw.update(a_posteriori_slope_limiting=True, slope_limiter=None, NAD_mode="local", NAD_vars=("rho",), SED=False)
    s = make_solver(u, p=p, x=dom[0], y=dom[1], z=dom[2], bc=BoundaryCondition(x=types[0], y=types[1], z=types[2], **vals), **kw)
    s.t = ctx.real("step start", 0, 1)  # the time of a stage differs from that of the step
    got = s.f(t, s.am("u"))[1]
    big = extend(ctx, u, g, types, slab, dom, n)
    h = [(dom[i][1] - dom[i][0]) / n[i] for i in range(3)]
    bd = [(dom[i][0] - g[i] * h[i], dom[i][1] + g[i] * h[i]) for i in range(3)]
    r = make_solver(big, p=p, x=bd[0], y=bd[1], z=bd[2], bc=BoundaryCondition(x="free", y="free", z="free"), **kw)
    r.t = t
    want = r.f(t, r.am("u"))[1]
    cut = tuple(slice(k, m + k) for k, m in zip(g, n))
    ctx.eq("rate", got, want[(slice(None),) + cut], tol=1e-9)


def initial(ctx, n, p, prim):
    """'ic' boundaries hold the initial condition at the ghost coordinates, whatever the time"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import InitialCondition
    from fvhoe.solver import EulerSolver

    r0 = ctx.real("r", 1, 2)
    r1 = ctx.array("r1", (3,), 0, 0.1)
    v = [ctx.real(f"v{c}", -1, 1) for c in AX]
    e0, e1 = ctx.real("e", 3, 4), ctx.array("e1", (3,), 0, 0.1)
    gam = ctx.frac(7, 5)

    def fields(x, y, z):
        rho = r0 + r1[0] * x + r1[1] * y + r1[2] * z
        e = e0 + e1[0] * x + e1[1] * y + e1[2] * z
        return np.stack([rho] + [q + 0 * x for q in v] + [e])

    class Given(InitialCondition):
        def base_ic(self):
            return fields

    def cons(x, y, z):
        w = fields(x, y, z)
        if not prim:
            return w
        m = [w[0] * q for q in v]
        return np.stack([w[0]] + m + [w[4] / (gam - 1) + (m[0] * v[0] + m[1] * v[1] + m[2] * v[2]) / 2])

    dom = [(0.0, 1.0), (-0.5, 1.0), (0.25, 1.25)]
    types = (("ic", "ic"), ("ic", "free"), ("periodic", "periodic"))
    s = EulerSolver(w0=Given(), conservative_ic=not prim, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2],
                    bc=BoundaryCondition(x=types[0], y=types[1], z=types[2]), gamma=gam, progress_bar=False)
    s.t = ctx.real("t", 0, 3)
    u = ctx.array("u", (5,) + tuple(n), -2, 2)
    g = tuple(2 if (n[i] > 1 or p[i]) else 0 for i in range(3))
    out = s.bc.apply(u, gw=g, t=s.t)
    ctx.eq("padded", out, extend(ctx, u, g, types, lambda ax, side, X, Y, Z, nv: cons(X, Y, Z), dom, n))


def mach(ctx, n, g):
    """the special lower wall of the double Mach reflection: free before x = 1/6, reflecting beyond"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.fv import fv_uniform_meshgen

    u = ctx.array("u", (5,) + tuple(n), -2, 2)
    dom = [(ctx.real("a", -0.5, 0), ctx.real("b", 0.4, 1)), (0.0, 1.0), (0.0, 1.0)]
    _, slabs = fv_uniform_meshgen(n, x=dom[0], y=dom[1], z=dom[2], slab_thickness=tuple(k + 1 if k else 0 for k in g))
    b = BoundaryCondition(x="free", y=("special-case-double-mach-reflection-y=0", "free"), z="periodic", slab_coords=slabs)
    out = b.apply(u, gw=tuple(g), t=0.0)
    free = extend(ctx, u, g, (("free",) * 2, ("free", "free"), ("periodic",) * 2), None, dom, n)
    refl = extend(ctx, u, g, (("free",) * 2, ("reflective", "free"), ("periodic",) * 2), None, dom, n)
    for i in range(out.shape[1]):
        x = dom[0][0] + (dom[0][1] - dom[0][0]) * (ctx.const(i - g[0]) + 0.5) / n[0]
        ctx.assume(ctx.lor(x - 1 / 6 > 1e-9, x - 1 / 6 < -1e-9))
        ctx.eq(f"column {i}", out[:, i], ctx.where(x < 1 / 6, free[:, i], refl[:, i]))


P, F, R, O, C, L = "periodic", "free", "reflective", "outflow", "constant", "callable"


def tasks(tier):
    ts = []
    A = [
        dict(n=(3, 1, 1), g=(3, 0, 0), bc=(P, P, P), passives=1), dict(n=(4, 1, 1), g=(2, 0, 0), bc=((F, R), F, F)), dict(n=(1, 4, 1), g=(0, 3, 0), bc=(P, (O, F), P)),
        dict(n=(1, 1, 4), g=(0, 0, 3), bc=(P, P, (R, O)), passives=1), dict(n=(2, 1, 1), g=(3, 0, 0), bc=((F, C), F, F)), dict(n=(3, 1, 1), g=(2, 0, 0), bc=(L, P, P), extra=2),
        dict(n=(1, 2, 1), g=(0, 3, 0), bc=(P, (C, L), P), passives=1), dict(n=(1, 1, 3), g=(0, 0, 2), bc=(P, P, (L, L)), extra=1),
        dict(n=(3, 2, 1), g=(2, 2, 0), bc=(P, (F, R), P)), dict(n=(2, 3, 1), g=(2, 1, 0), bc=((C, L), (L, F), P), extra=1), dict(n=(3, 1, 2), g=(1, 0, 2), bc=((R, F), P, (O, L)), extra=2),
        dict(n=(1, 3, 2), g=(0, 2, 2), bc=(P, (L, C), (P, P)), extra=3), dict(n=(2, 2, 2), g=(1, 2, 1), bc=((F, R), (L, R), (C, L)), extra=1), dict(n=(2, 2, 2), g=(2, 1, 2), bc=(R, R, R), passives=1),
        dict(n=(2, 3, 2), g=(1, 1, 1), bc=(L, L, L), extra=0), dict(n=(3, 2, 2), g=(2, 2, 2), bc=(P, P, P)), dict(n=(2, 2, 3), g=(2, 2, 1), bc=((O, C), P, (F, F)), extra=4),
        dict(n=(1, 1, 1), g=(1, 1, 1), bc=(R, (F, C), (C, F))), dict(n=(5, 1, 1), g=(5, 0, 0), bc=(P, F, F)), dict(n=(5, 1, 1), g=(4, 0, 0), bc=((R, O), F, F)),
        dict(n=(17, 1, 1), g=(17, 0, 0), bc=(P, F, F)), dict(n=(1, 16, 1), g=(0, 16, 0), bc=(F, (R, O), F)), dict(n=(1, 1, 18), g=(0, 0, 17), bc=(P, P, P)), dict(n=(1, 1, 16), g=(0, 0, 16), bc=(P, P, (F, R))),
        dict(n=(2, 1, 1), g=(14, 0, 0), bc=((C, L), F, F), extra=1), dict(n=(2, 2, 2), g=(2, 2, 2), bc=(R, R, R), passives=4), dict(n=(2, 1, 2), g=(1, 0, 2), bc=((C, L), P, (R, O)), passives=7), dict(n=(1, 2, 2), g=(0, 2, 1), bc=(P, (F, R), (L, C)), passives=3),
        dict(n=(3, 3, 1), g=(0, 3, 0), bc=(P, (R, L), P)), dict(n=(3, 3, 1), g=(3, 3, 0), bc=(C, C, P)),
    ]
    if tier == "thorough":
        kinds = (P, F, R, O, C, L)
        for a in kinds:
            for b in kinds:
                if (a == P) == (b == P):
                    A.append(dict(n=(3, 2, 1), g=(2, 2, 0), bc=((a, b), (b, a), P), extra=1))
                    A.append(dict(n=(2, 3, 2), g=(2, 1, 2), bc=((b, b), (a, b), (b, a)), extra=2))
    for c in A:
        ts.append(Task("apply", c))
    for kind in ("periodic", "reflective", "outflow"):
        for ax in range(3):
            n = [1, 1, 1]
            n[ax] = 3
            g = [0, 0, 0]
            g[ax] = 4
            ts.append(Task("thick", dict(n=tuple(n), g=tuple(g), kind=kind, ax=ax)))
    for how in ("type", "triple", "list"):
        ts.append(Task("invalid", dict(how=how)))
    for n, p, bc in (
        ((3, 1, 1), (0, 0, 0), ((C, L), P, P)), ((4, 1, 1), (1, 0, 0), ((F, R), P, P)), ((1, 4, 1), (0, 2, 0), (P, (L, O), P)), ((1, 1, 4), (0, 0, 1), (P, P, (R, C))),
        ((1, 3, 1), (0, 3, 0), (P, (L, L), P)), ((1, 4, 1), (0, 1, 0), (P, (P, P), P)), ((2, 2, 1), (0, 0, 0), ((L, F), (R, L), P)), ((4, 1, 4), (1, 0, 1), ((F, L), P, (C, R))),
        ((1, 1, 8), (0, 0, 3), (P, P, (R, F))), ((2, 2, 2), (0, 0, 0), ((R, C), (F, L), (L, O))),
    ):
        ts.append(Task("embedded", dict(n=n, p=p, bc=bc), round_bits=120))
        if max(p) == 1 and max(n) <= 4:
            m = tuple(max(k, 5) if k > 1 else k for k in n)
            ts.append(Task("embedded", dict(n=m, p=p, bc=bc, limited=True), round_bits=120))
    for n, p, prim in (((2, 2, 1), (0, 0, 0), True), ((3, 1, 1), (1, 0, 0), True), ((2, 2, 2), (1, 0, 0), False), ((3, 2, 1), (0, 1, 0), False)):
        ts.append(Task("initial", dict(n=n, p=p, prim=prim)))
    ts.append(Task("mach", dict(n=(3, 2, 1), g=(1, 2, 0))))
    ts.append(Task("mach", dict(n=(4, 3, 1), g=(2, 1, 0))))
    return ts


META = dict(
    bounds="interiors of 1-5 cells per axis in 1D, 2D and 3D, ghost layers of 0-5 cells (1D also 14-17), every boundary kind on either side and mixed combinations with corners, 0-7 passive scalars; arbitrary states, "
    "prescribed constants, times and domains, prescribed functions linear in x, y, z and t with arbitrary coefficients; solver rates for degrees 0-3 with symbolic energies",
    how="the padded array is built cell by cell from the definition of each boundary, axis after axis, and compared with BoundaryCondition.apply for arbitrary states; the solver's rates are compared with "
    "those of a larger domain holding the promised ghost values.",
    assumptions=["real arithmetic in place of IEEE rounding", "prescribed functions enter through their values at the coordinates they are given: linear ones with arbitrary coefficients determine the coordinates"],
)
