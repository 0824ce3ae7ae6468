"""C18: slope-limited reconstruction"""
import numpy as np

from symx.runner import Task
from props.common import *

TINY = 1e-12


def _faces(ctx, u, axis, limiter):
    from fvhoe.slope_limiting import MUSCL_interpolations

    return MUSCL_interpolations(u, axis=axis, limiter=limiter)


def _row(ctx, name, shape, axis, n):
    sh = list(shape)
    sh[axis] = n
    return ctx.array(name, tuple(sh), -3, 3)


def _cut(u, axis, a, b):
    s = [slice(None)] * u.ndim
    s[axis] = slice(a, u.shape[axis] + b)
    return u[tuple(s)]


def _flat(a):
    return a.reshape(-1)


def bounded(ctx, axis, limiter, sign, nv=2):
    """each face value lies between the cell and the neighbour across that face; at extrema both equal the cell"""
    u = _row(ctx, "u", (nv, 1, 2 if nv == 2 else 1, 1), axis, 4)
    l, r = _faces(ctx, u, axis, limiter)
    ctx.observe("l", l)
    ctx.observe("r", r)
    um, uc, up = (_flat(_cut(u, axis, a, b)) for a, b in ((0, -2), (1, -1), (2, 0)))
    lf, rf = _flat(l), _flat(r)
    ctx.true("shape", l.shape == _cut(u, axis, 1, -1).shape and r.shape == l.shape)
    for i in range(uc.shape[0]):
        a, b, c = um[i], uc[i], up[i]
        mono_up, mono_dn = ctx.land(a <= b, b <= c), ctx.land(a >= b, b >= c)
        if sign == "up":
            ctx.implies(f"left between {i}", mono_up, ctx.land(lf[i] >= a, lf[i] <= b))
            ctx.implies(f"right between {i}", mono_up, ctx.land(rf[i] >= b, rf[i] <= c))
        elif sign == "down":
            ctx.implies(f"left between {i}", mono_dn, ctx.land(lf[i] <= a, lf[i] >= b))
            ctx.implies(f"right between {i}", mono_dn, ctx.land(rf[i] <= b, rf[i] >= c))
        else:
            ext = ctx.lnot(ctx.lor(mono_up, mono_dn))
            ctx.implies(f"extremum {i}", ext, ctx.land(lf[i] == b, rf[i] == b))
        ctx.eq(f"average kept {i}", lf[i] + rf[i], 2 * b)


def linear(ctx, axis, limiter, ndim=4, faint=False):
    """faces of linear data are exact (slopes beyond the division guard), the faintest slopes measured relative to their size"""
    if faint:
        a, s = ctx.const(0.0), ctx.real("s", -1e-9, 1e-9)
    else:
        a, s = ctx.real("a", -3, 3), ctx.real("s", -3, 3)
    ctx.assume(ctx.lor(s > TINY, s < -TINY))
    x = np.arange(5.0)
    sh = [1] * ndim
    sh[axis] = 5
    u = (a + s * ctx.const(x)).reshape(sh)
    l, r = _faces(ctx, u, axis, limiter)
    k = 1e12 if faint else 1.0
    ctx.eq("left", k * _flat(l), k * (a + s * ctx.const(x[1:-1] - 0.5)))
    ctx.eq("right", k * _flat(r), k * (a + s * ctx.const(x[1:-1] + 0.5)))


def slopes(ctx, case, faint=False):
    """the limiters themselves: minmod picks the smaller difference, moncen the smallest of twice the differences and their mean"""
    from fvhoe.slope_limiting import minmod, moncen

    top, unit = (1e-9, 1e12) if faint else (3, 1.0)
    a, b = ctx.array("a", (2,), -top, top), ctx.array("b", (2,), -top, top)
    for i in range(2):
        x, y = a[i], b[i]
        if case == "same sign":
            ctx.assume(ctx.lor(ctx.land(x > TINY, y > TINY), ctx.land(x < -TINY, y < -TINY)))
        elif case == "opposite":
            ctx.assume(ctx.lor(ctx.land(x >= 0, y <= 0), ctx.land(x <= 0, y >= 0)))
        else:
            ctx.assume(ctx.lor(x > TINY, x < -TINY))
            ctx.assume(ctx.lor(y > TINY, y < -TINY))
    m, c = unit * minmod(a, b), unit * moncen(a, b)
    ctx.observe("minmod", m)
    ctx.observe("moncen", c)
    for i in range(2):
        x, y = a[i], b[i]
        if case == "same sign":
            for k, v in (("minmod", ctx.minn(abs(x), abs(y))), ("moncen", ctx.minn(2 * abs(x), 2 * abs(y), abs(x + y) / 2))):
                got = (m if k == "minmod" else c)[i]
                ctx.eq(f"{k} {i}", got, unit * ctx.ite(x > 0, v, -v))
        elif case == "opposite":
            ctx.eq(f"minmod {i}", m[i], 0 * x)
            ctx.eq(f"moncen {i}", c[i], 0 * x)
        else:
            ctx.le(f"minmod steeper {i}", abs(m[i]), abs(c[i]))
    if case == "symmetry":
        ctx.eq("minmod mirrored", unit * minmod(b, a), m)
        ctx.eq("moncen mirrored", unit * moncen(b, a), c)
        ctx.eq("minmod negated", unit * minmod(-a, -b), -m)
        ctx.eq("moncen negated", unit * moncen(-a, -b), -c)


def unlimited(ctx, axis, nv=2):
    u = _row(ctx, "u", (nv, 1, 2, 1), axis, 4)
    l, r = _faces(ctx, u, axis, None)
    um, uc, up = (_cut(u, axis, a, b) for a, b in ((0, -2), (1, -1), (2, 0)))
    ctx.eq("left", l, uc - (up - um) / 4)
    ctx.eq("right", r, uc + (up - um) / 4)


def unknown(ctx, name):
    u = _row(ctx, "u", (1, 1, 1, 1), 1, 3)
    try:
        _faces(ctx, u, 1, name)
        ok = False
    except ValueError:
        ok = True
    ctx.true("rejected", ok)


def tasks(tier):
    ts = []
    for lim in ("minmod", "moncen"):
        for ax in (1, 2, 3):
            for s in ("up", "down", "extremum"):
                ts.append(Task("bounded", dict(axis=ax, limiter=lim, sign=s)))
                ts.append(Task("bounded", dict(axis=ax, limiter=lim, sign=s, nv=9)))
            ts.append(Task("linear", dict(axis=ax, limiter=lim)))
        ts.append(Task("linear", dict(axis=0, limiter=lim, ndim=1)))
        ts.append(Task("linear", dict(axis=2, limiter=lim, faint=True)))
    for c in ("same sign", "opposite", "symmetry"):
        ts.append(Task("slopes", dict(case=c)))
        ts.append(Task("slopes", dict(case=c, faint=True)))
    for ax in (1, 2, 3):
        ts.append(Task("unlimited", dict(axis=ax)))
        ts.append(Task("unlimited", dict(axis=ax, nv=9)))
    ts.append(Task("unknown", dict(name="superbee")))
    return ts


META = dict(
    bounds="rows of four or five cells with values in [-3,3] along each axis, two or nine variables and two transverse lines; formula, symmetry and linear exactness for "
    "differences larger than 1e-12 in magnitude (below that the minmod division guard of 1e-16 is visible), also for data no larger than 1e-9 measured in units of 1e-12",
    how="all cell values are independent symbolic reals; face values are compared with the neighbouring values and with the closed forms of the two limiters.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
