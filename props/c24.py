"""C24: built-in problems start from their documented fields at every point"""
import numpy as np

from symx.runner import Task
from props.common import *


def _pts(ctx, k=2, lo=-2, hi=3, shape=None):
    sh = shape or (k, 1, 1)
    return [ctx.array(c, sh, lo, hi) for c in "xyz"]


def _eval(ctx, ic, x, y, z, passives=None):
    hs = hstate(tuple(passives or ()))
    return ic.build_ic(hs, passives)(x, y, z)


def _same(ctx, out, want, name=""):
    for k, v in enumerate(("rho", "vx", "vy", "vz", "P")):
        for i in np.ndindex(*out.shape[1:]):
            w = want[k]
            w = w[i] if np.ndim(w) else w
            ctx.eq(f"{name} {v} {i}", out[k][i], ctx.const(0.0) + w)


def _tuple(ctx, name, k, lo, hi):
    return tuple(ctx.real(f"{name}{i}", lo, hi) for i in range(k))


def _default(ctx, params):
    return params is None


def sinus(ctx, dims, given):
    from fvhoe.initial_conditions import Sinus

    x, y, z = _pts(ctx)
    kw = dict(dims=dims) if dims else {}
    d = dims or "x"
    rho, P, v = (1.0, 2.0), 1.0, (1.0, 0.0, 0.0)
    if given:
        rho, P = _tuple(ctx, "rho", 2, 0.1, 5), ctx.real("P", 0.1, 5)
        v = _tuple(ctx, "v", 3, -2, 2)
        kw.update(rho_min_max=rho, P=P, vx=v[0], vy=v[1], vz=v[2])
    out = _eval(ctx, Sinus(**kw), x, y, z)
    r = sum(q for c, q in zip("xyz", (x, y, z)) if c in d)
    dens = rho[0] + (rho[1] - rho[0]) * (1 + np.sin(2 * np.pi * r)) / 2
    _same(ctx, out, [dens, v[0], v[1], v[2], P])
    if given:
        ctx.assume(rho[1] > rho[0])
        for i in np.ndindex(*x.shape):
            s = np.sin(2 * np.pi * r)[i]
            ctx.implies(f"between {i}", ctx.land(s >= -1, s <= 1), ctx.land(out[0][i] >= rho[0], out[0][i] <= rho[1]))


def square(ctx, dims, given):
    from fvhoe.initial_conditions import Square

    x, y, z = _pts(ctx)
    kw = dict(dims=dims) if dims else {}
    d = dims or "x"
    rho, P, v = (1.0, 2.0), 1.0, (1.0, 0.0, 0.0)
    if given:
        rho, P = _tuple(ctx, "rho", 2, 0.1, 5), ctx.real("P", 0.1, 5)
        v = _tuple(ctx, "v", 3, -2, 2)
        kw.update(rho_min_max=rho, P=P, vx=v[0], vy=v[1], vz=v[2])
    out = _eval(ctx, Square(**kw), x, y, z)
    for i in np.ndindex(*x.shape):
        ins = [c for k, c in enumerate((x[i], y[i], z[i])) if "xyz"[k] in d]
        cond = ctx.land(*[ctx.land(4 * c > 1, 4 * c < 3) for c in ins])
        _point(ctx, out, i, [ctx.where(cond, rho[1], rho[0]), v[0], v[1], v[2], P])


def _point(ctx, out, i, want):
    for k, v in enumerate(("rho", "vx", "vy", "vz", "P")):
        ctx.eq(f"{v} {i}", out[k][i], ctx.const(0.0) + want[k])


def disk(ctx, given):
    from fvhoe.initial_conditions import SlottedDisk

    x, y, z = _pts(ctx, lo=-0.5, hi=1.5)
    rho, P, kw = (1.0, 2.0), 1.0, {}
    if given:
        rho, P = _tuple(ctx, "rho", 2, 0.1, 5), ctx.real("P", 0.1, 5)
        kw = dict(rho_min_max=rho, P=P)
    out = _eval(ctx, SlottedDisk(**kw), x, y, z)
    for i in np.ndindex(*x.shape):
        a, b = x[i] - ctx.frac(1, 2), y[i] - ctx.frac(3, 4)
        disk = a * a + b * b < ctx.frac(9, 400)
        slot = ctx.land(a < ctx.frac(1, 40), a > -ctx.frac(1, 40), y[i] < ctx.frac(17, 20))
        # rigid rotation about (1/2, 1/2)
        _point(ctx, out, i, [ctx.where(disk, ctx.where(slot, rho[0], rho[1]), rho[0]), ctx.frac(1, 2) - y[i], a, 0.0, P])


def shock(ctx, dim, given):
    from fvhoe.initial_conditions import Shock1D

    x, y, z = _pts(ctx)
    kw = dict(dim=dim) if dim else {}
    pos, rho, P, v = 0.5, (1.0, 0.125), (1.0, 0.1), (0.0, 0.0)
    if given:
        pos = ctx.real("pos", -1, 2)
        rho, P, v = _tuple(ctx, "rho", 2, 0.1, 5), _tuple(ctx, "P", 2, 0.1, 5), _tuple(ctx, "v", 2, -2, 2)
        kw.update(position=pos, rho_left_right=rho, P_left_right=P, v_left_right=v)
    out = _eval(ctx, Shock1D(**kw), x, y, z)
    ax = "xyz".index(dim or "x")
    for i in np.ndindex(*x.shape):
        left = (x, y, z)[ax][i] < pos
        pick = lambda q: ctx.where(left, q[0], q[1])
        vel = [pick(v) if k == ax else 0.0 for k in range(3)]
        _point(ctx, out, i, [pick(rho)] + vel + [pick(P)])


def double(ctx, dim, given):
    from fvhoe.initial_conditions import DoubleShock1D

    x, y, z = _pts(ctx)
    kw = dict(dim=dim) if dim else {}
    pos, rho, v, P = (0.1, 0.9), (1.0,) * 3, (0.0,) * 3, (1000.0, 0.01, 100.0)
    if given:
        pos = _tuple(ctx, "pos", 2, -1, 2)
        ctx.assume(pos[0] < pos[1])
        rho, P, v = _tuple(ctx, "rho", 3, 0.1, 5), _tuple(ctx, "P", 3, 0.1, 5), _tuple(ctx, "v", 3, -2, 2)
        kw.update(positions=pos, rhos=rho, Ps=P, vs=v)
    out = _eval(ctx, DoubleShock1D(**kw), x, y, z)
    ax = "xyz".index(dim or "x")
    for i in np.ndindex(*x.shape):
        r = (x, y, z)[ax][i]
        pick = lambda q: ctx.where(r < pos[0], q[0], ctx.where(r < pos[1], q[1], q[2]))
        vel = [pick(v) if k == ax else 0.0 for k in range(3)]
        _point(ctx, out, i, [pick(rho)] + vel + [pick(P)])


def shu(ctx, dim):
    from fvhoe.initial_conditions import ShuOsher1D

    x, y, z = _pts(ctx, lo=0, hi=10)
    out = _eval(ctx, ShuOsher1D(**(dict(dim=dim) if dim else {})), x, y, z)
    ax = "xyz".index(dim or "x")
    for i in np.ndindex(*x.shape):
        # published on [-5, 5]; the domain here is [0, 10]
        r = (x, y, z)[ax] - 5
        left = (x, y, z)[ax][i] < 1
        vel = [ctx.where(left, ctx.const(2.629369), ctx.const(0.0)) if k == ax else 0.0 for k in range(3)]
        wave = ctx.const(1.0) + np.sin(5 * r)[i] / 5
        _point(ctx, out, i, [ctx.where(left, ctx.const(3.857143), wave)] + vel + [ctx.where(left, ctx.const(10.33333), ctx.const(1.0))])


def kelvin(ctx, given):
    from fvhoe.initial_conditions import KelvinHelmholtz2D

    x, y, z = _pts(ctx, lo=0, hi=1)
    kw = {}
    sig, w0 = 0.05 * float(np.sqrt(np.float64(2.0))), 0.1
    if given:
        sig, w0 = ctx.real("sigma", 0.01, 0.2), ctx.real("w0", 0, 1)
        kw = dict(sigma=sig, w0=w0)
    out = _eval(ctx, KelvinHelmholtz2D(**kw), x, y, z)
    bump = lambda c: np.exp(-((y - c) * (y - c)) / (2 * sig * sig))
    vy = w0 * np.sin(4 * np.pi * x) * (bump(0.25) + bump(0.75))
    for i in np.ndindex(*x.shape):
        mid = ctx.land(4 * y[i] > 1, 4 * y[i] < 3)
        _point(ctx, out, i, [ctx.where(mid, ctx.const(2.0), ctx.const(1.0)), ctx.where(mid, ctx.const(0.5), ctx.const(-0.5)), vy[i], 0.0, 2.5])


def machic(ctx, given):
    from fvhoe.initial_conditions import DoubleMachReflection2D

    x, y, z = _pts(ctx, lo=0, hi=4)
    g, kw = ctx.const(1.4), {}
    if given:
        g = ctx.real("gamma", 1.1, 2)
        kw = dict(gamma=g)
    out = _eval(ctx, DoubleMachReflection2D(**kw), x, y, z)
    for i in np.ndindex(*x.shape):
        # shock from (1/6, 0) at 60 degrees to the wall: x - 1/6 = y / sqrt(3), away from the shock itself
        a = x[i] - ctx.frac(1, 6)
        behind = ctx.lor(a < 0, ctx.land(a * a * 3 < y[i] * y[i]))
        near = a * a * 3 - y[i] * y[i]
        ctx.assume(ctx.lor(a < 0, near > 1e-6, near < -1e-6))
        pick = lambda p, q: ctx.where(behind, p, q)
        _point(ctx, out, i, [pick(ctx.const(8.0), g), pick(ctx.const(7.145), ctx.const(0.0)), pick(ctx.const(-4.125), ctx.const(0.0)), 0.0, pick(ctx.const(116.5), ctx.const(1.0))])


def tube(ctx, dims, given):
    from fvhoe.initial_conditions import ShockTube

    x, y, z = _pts(ctx)
    kw = dict(dims=dims) if dims else {}
    d = dims or "x"
    rad, rho, P, v = 0.5, (1.0, 0.125), (1.0, 0.1), [(0.0, 0.0)] * 3
    cen = (0.0,) * len(d)
    if given:
        rad = ctx.real("radius", 0.1, 2)
        cen = _tuple(ctx, "centre", len(d), -1, 1)
        rho, P = _tuple(ctx, "rho", 2, 0.1, 5), _tuple(ctx, "P", 2, 0.1, 5)
        v = [_tuple(ctx, f"v{c}", 2, -2, 2) for c in "xyz"]
        kw.update(radius=rad, center=cen, rho_in_out=rho, P_in_out=P, vx_in_out=v[0], vy_in_out=v[1], vz_in_out=v[2])
    elif len(d) > 1:
        kw["center"] = cen
    out = _eval(ctx, ShockTube(**kw), x, y, z)
    for i in np.ndindex(*x.shape):
        q = {"x": x[i], "y": y[i], "z": z[i]}
        rsq = sum((q[c] - cen[k]) * (q[c] - cen[k]) for k, c in enumerate(d))
        ins = rsq <= rad * rad
        pick = lambda t: ctx.where(ins, t[0], t[1])
        _point(ctx, out, i, [pick(rho), pick(v[0]), pick(v[1]), pick(v[2]), pick(P)])


def cube(ctx, axes):
    from fvhoe.initial_conditions import ShockTube

    x, y, z = _pts(ctx)
    kw, box = {}, {}
    for c in axes:
        box[c] = _tuple(ctx, f"{c}_cube", 2, -1, 2)
        kw[f"{c}_cube"] = box[c]
    rho, P = _tuple(ctx, "rho", 2, 0.1, 5), _tuple(ctx, "P", 2, 0.1, 5)
    v = [_tuple(ctx, f"v{c}", 2, -2, 2) for c in "xyz"]
    kw.update(mode="cube", rho_in_out=rho, P_in_out=P, vx_in_out=v[0], vy_in_out=v[1], vz_in_out=v[2])
    out = _eval(ctx, ShockTube(**kw), x, y, z)
    for i in np.ndindex(*x.shape):
        q = {"x": x[i], "y": y[i], "z": z[i]}
        ins = ctx.land(*[ctx.land(q[c] >= box[c][0], q[c] <= box[c][1]) for c in axes])
        pick = lambda t: ctx.where(ins, t[0], t[1])
        _point(ctx, out, i, [pick(rho), pick(v[0]), pick(v[1]), pick(v[2]), pick(P)])


def sedov(ctx, mode, dims, n, given):
    """conservative field on any uniform mesh: E1 in total around the centre, a 2^d-th of it in the corner cell"""
    from fvhoe.initial_conditions import SedovBlast

    h = [ctx.real(f"h{c}", 0.01, 1) for c in "xyz"]
    o = [ctx.real(f"o{c}", -1, 1) for c in "xyz"]
    ax = []
    for k in range(3):
        sh = [1, 1, 1]
        sh[k] = n[k]
        col = ctx.stack([o[k] + h[k] * (i + ctx.frac(1, 2)) for i in range(n[k])]).reshape(tuple(sh))
        ax.append(col + 0 * ctx.const(np.ones(n)))
    kw = dict(mode=mode, dims=dims)
    rho0, E0, E1 = 1.0, 1e-5, 1.0
    if given:
        rho0, E0, E1 = ctx.real("rho0", 0.1, 2), ctx.real("E0", 1e-6, 1e-2), ctx.real("E1", 0.5, 3)
        kw.update(rho0=rho0, E0=E0, E1=E1)
    out = _eval(ctx, SedovBlast(**kw), *ax)
    peak = ctx.const(0.0) + E1
    for k, c in enumerate("xyz"):
        if c in dims:
            peak = peak / (2 * h[k])
    for i in np.ndindex(*n):
        if mode == "corner":
            hot = i == (0, 0, 0)
        else:
            hot = all(c not in dims or n[k] // 2 - 1 <= i[k] <= n[k] // 2 for k, c in enumerate("xyz"))
        _point(ctx, out, i, [rho0, 0.0, 0.0, 0.0, peak if hot else E0])


def athena(ctx):
    from fvhoe.initial_conditions import AthenaBlast

    x, y, z = _pts(ctx, lo=-1, hi=1)
    out = _eval(ctx, AthenaBlast(), x, y, z)
    for i in np.ndindex(*x.shape):
        ins = x[i] * x[i] + y[i] * y[i] < ctx.frac(1, 100)
        _point(ctx, out, i, [1.0, 0.0, 0.0, 0.0, ctx.where(ins, ctx.const(10.0), ctx.const(0.1))])


def named(ctx, names, which):
    """passive scalars land in their own components and change nothing else, for any order in which they are given"""
    from fvhoe import initial_conditions as I

    x, y, z = _pts(ctx)
    ic = getattr(I, which)()
    co = {m: _tuple(ctx, m, 4, -1, 1) for m in names}
    f = {m: (lambda c: lambda x, y, z: c[0] + c[1] * x + c[2] * y + c[3] * z)(co[m]) for m in names}
    bare = _eval(ctx, ic, x, y, z)
    for order in (names, names[::-1], names[1:] + names[:1]):
        out = ic.build_ic(hstate(names), {m: f[m] for m in order})(x, y, z)
        ctx.eq("flow", out[:5], bare)
        for k, m in enumerate(names):
            ctx.eq(f"scalar {m}", out[5 + k], f[m](x, y, z))
        ctx.true("size", out.shape[0] == 5 + len(names))
        ctx.determinate("set", out)


def tasks(tier):
    ts = []

    def add(h, **kw):
        ts.append(Task(h, kw))

    combos = (None, "x", "y", "z", "xy", "xz", "yz", "xyz")
    for given in (False, True):
        for d in combos:
            for h in ("sinus", "square", "tube"):
                add(h, dims=d, given=given)
        add("tube", dims="zx", given=given)
        for d in (None, "x", "y", "z"):
            add("shock", dim=d, given=given)
            add("double", dim=d, given=given)
        add("disk", given=given)
        add("kelvin", given=given)
        add("machic", given=given)
        for mode in ("corner", "center"):
            for dims, n in (("x", (4, 1, 1)), ("y", (1, 6, 1)), ("z", (1, 1, 2)), ("xy", (4, 2, 1)), ("xz", (2, 1, 4)), ("yz", (1, 4, 2)), ("xyz", (2, 4, 2))):
                add("sedov", mode=mode, dims=dims, n=n, given=given)
        add("sedov", mode="center", dims="x", n=(4, 2, 1), given=given)
    for d in (None, "x", "y", "z"):
        add("shu", dim=d)
    for a in ("x", "y", "z", "xy", "xz", "yz", "xyz"):
        add("cube", axes=a)
    add("athena")
    for which in ("Sinus", "Square", "SlottedDisk", "Shock1D", "DoubleShock1D", "ShuOsher1D", "KelvinHelmholtz2D", "DoubleMachReflection2D", "ShockTube", "AthenaBlast"):
        add("named", names=("dye",), which=which)
        add("named", names=("dye", "ash", "b"), which=which)
    return ts


META = dict(
    bounds="all eleven built-in initial conditions at two arbitrary points (coordinates within [-2,3] or the problem's domain), every choice of dims, defaults and arbitrary parameter values; the Sedov blast on arbitrary uniform meshes (origin, spacing) of up to 16 cells; up to three passive scalars with arbitrary linear fields in every order",
    how="the functions returned by build_ic are run on symbolic coordinates and parameters and compared with the documented piecewise definitions written independently (regions by exact inequalities; sin and exp uninterpreted)",
    assumptions=["real arithmetic in place of IEEE rounding", "points within 1e-6 of the inclined double Mach shock are excluded"],
)
