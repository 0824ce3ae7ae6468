"""C01: interpolation and reconstruction are exact for polynomials"""
from fractions import Fraction

import numpy as np

from symx.runner import Task


def mono_avg(ctx, k, c):
    """average of x^k over [c-1/2, c+1/2] with c a half-integer or integer Fraction"""
    a, b = c - Fraction(1, 2), c + Fraction(1, 2)
    f = (b ** (k + 1) - a ** (k + 1)) / (k + 1)
    return ctx.frac(f.numerator, f.denominator)


def mono_val(ctx, k, c):
    f = Fraction(c) ** k if k else Fraction(1)
    return ctx.frac(f.numerator, f.denominator)


def poly(ctx, coef, fn, c):
    s = 0
    for k, a in enumerate(coef):
        s = s + a * fn(ctx, k, c)
    return s


def interp(ctx, p, axis, ndim, cells=3):
    from fvhoe.fv import conservative_interpolation, transverse_reconstruction

    r = -(-p // 2)
    m = 2 * r + cells  # cells along the axis
    x = [Fraction(i - (m // 2)) for i in range(m)]
    nt = 2  # transverse lines with independent polynomials
    shape = [1] * ndim
    if ndim > 1:
        shape[(axis + 1) % ndim] = nt
    else:
        nt = 1
    shape[axis] = m
    coefs = [[ctx.real(f"a{j}_{k}", -2, 2) for k in range(p + 1)] for j in range(nt)]

    def build(fn, xs):
        sh = list(shape)
        sh[axis] = len(xs)
        flat = []
        for i in np.ndindex(*sh):
            j = i[(axis + 1) % ndim] if ndim > 1 else 0
            flat.append(poly(ctx, coefs[j], fn, xs[i[axis]]))
        return ctx.stack(flat).reshape(sh)

    avg = build(mono_avg, x)
    inner = x[r : m - r] if r else x
    for pos, off in (("l", Fraction(-1, 2)), ("c", Fraction(0)), ("r", Fraction(1, 2))):
        got = conservative_interpolation(avg, p=p, axis=axis, pos=pos)
        ctx.observe(f"interp-{pos}", got)
        ctx.eq(f"value at {pos}", got, build(mono_val, [c + off for c in inner]))
    got = transverse_reconstruction(build(mono_val, x), p=p, axis=axis)
    ctx.observe("reconstruct", got)
    ctx.eq("cell average", got, build(mono_avg, inner))


def multi(ctx, p):
    """tensor-product polynomials through the 3D conversions average -> centre -> average"""
    from fvhoe.fv import interpolate_cell_centers, interpolate_fv_averages

    rs = [-(-q // 2) for q in p]
    m = [2 * r + 1 if q == 0 else 2 * r + 2 for r, q in zip(rs, p)]
    xs = [[Fraction(i - n // 2) for i in range(n)] for n in m]
    coef = {}
    for k in np.ndindex(*(q + 1 for q in p)):
        coef[k] = ctx.real(f"a{k[0]}_{k[1]}_{k[2]}", -2, 2)

    def build(fn, X):
        flat = []
        for i in np.ndindex(*(len(q) for q in X)):
            s = 0
            for k, a in coef.items():
                t = a
                for d in range(3):
                    t = t * fn(ctx, k[d], X[d][i[d]])
                s = s + t
            flat.append(s)
        return ctx.stack(flat).reshape([1] + [len(q) for q in X])

    inner = [q[r : len(q) - r] if r else q for q, r in zip(xs, rs)]
    got = interpolate_cell_centers(build(mono_avg, xs), p=p)
    ctx.observe("centres", got)
    ctx.eq("cell centres", got, build(mono_val, inner))
    got = interpolate_fv_averages(build(mono_val, xs), p=p)
    ctx.observe("averages", got)
    ctx.eq("cell averages", got, build(mono_avg, inner))


def tasks(tier):
    ts = []
    for p in range(9):
        for ndim, axis in ((4, 1), (4, 2), (4, 3)) + (((1, 0), (2, 1), (3, 0)) if tier == "thorough" else ()):
            ts.append(Task("interp", dict(p=p, axis=axis, ndim=ndim)))
    combos = [(1, 0, 0), (2, 3, 0), (0, 4, 2), (3, 0, 5), (1, 2, 1), (2, 2, 3), (1, 1, 1), (2, 2, 2), (1, 1, 0), (0, 3, 3), (2, 0, 2)]
    # lines much longer than a stencil: the same formula must be applied everywhere along them
    for p, axis in ((1, 1), (2, 2), (3, 3)) + (((4, 1), (5, 3)) if tier == "thorough" else ()):
        ts.append(Task("interp", dict(p=p, axis=axis, ndim=4, cells=530), budget=120))
    if tier == "thorough":
        combos += [(6, 0, 7), (8, 2, 0), (0, 5, 8), (2, 3, 4), (3, 3, 3), (4, 4, 4)]
    for p in combos:
        ts.append(Task("multi", dict(p=p)))
    return ts


META = dict(
    bounds="polynomial degree p = 0..8 (every supported degree), axes 1-3 of a 4-axis array, 3 consecutive cells per line (530 for degrees 1-3), "
    "polynomial coefficients any real in [-2,2] (the claim is linear in them)",
    how="coefficients of the polynomial are symbolic; the oracle integrates the monomials exactly.",
    assumptions=["real arithmetic in place of IEEE rounding; float literals read as the nearest simple rational"],
)
