"""C19: troubled-cell detection"""
import itertools

import numpy as np

from symx.runner import Task
from props.common import *

VARS = ("rho", "vx", "vy", "vz", "P")


def _inputs(ctx, n, nv, cells, cand_all):
    """previous values and candidates on a grid with three ghost layers along every active axis; only the values the verdict of the
    given cells can depend on are symbolic, the rest are fixed numbers"""
    sh = tuple(k + 6 if k else 1 for k in n)
    # the fixed values are untroubled: neighbours alternate around the candidates
    u = fixed(ctx, (5,) + sh, 7, -0.1, 0.1)
    c = 1 + fixed(ctx, (5,) + sh, 8, -0.1, 0.1)
    for i in np.ndindex(*u.shape):
        u[i] = u[i] + (0.5 if sum(i) % 2 else 1.5)
    near = set()
    for cell in cells:
        pos = tuple(i + 3 if k else 0 for i, k in zip(cell, n))
        for d in itertools.product(*[(-1, 0, 1) if k else (0,) for k in n]):
            near.add(tuple(p + q for p, q in zip(pos, d)))
    for v in nv:
        for q in sorted(near):
            u[(v,) + q] = ctx.real(f"u{v}{list(q)}", -2, 3)
        line = set()
        for cell in cells:
            pos = tuple(i + 3 if k else 0 for i, k in zip(cell, n))
            line.add(pos)
            if cand_all:
                for ax, k in enumerate(n):
                    if k:
                        for o in range(-3, 4):
                            q = list(pos)
                            q[ax] += o
                            line.add(tuple(q))
        for q in sorted(line):
            c[(v,) + q] = ctx.real(f"c{v}{list(q)}", -2, 3)
    return u, c


def _nbhd(ctx, u, v, pos, n):
    return [u[(v,) + tuple(p + q for p, q in zip(pos, d))] for d in itertools.product(*[(-1, 0, 1) if k else (0,) for k in n])]


def _smooth(ctx, c, v, pos, n, eps):
    """at the cell and at its two neighbours along every axis the one-sided second differences are negligible or agree within a factor of 3"""
    out = []
    for ax, k in enumerate(n):
        if not k:
            continue

        def at(o):
            q = list(pos)
            q[ax] += o
            return c[(v,) + tuple(q)]

        for s in (-1, 0, 1):
            dl = (at(s + 1) - at(s - 1)) / 2 - (at(s) - at(s - 2)) / 2
            dr = (at(s + 2) - at(s)) / 2 - (at(s + 1) - at(s - 1)) / 2
            q = (dl + dr) / 4
            out.append(
                ctx.lor(
                    ctx.land(q <= eps, q >= -eps),
                    ctx.land(q > 0, dl >= q, dr >= q),
                    ctx.land(q < 0, dl <= q, dr <= q),
                )
            )
    return ctx.land(*out)


def flags(ctx, n, cells, nv, mode, rng, eps, sed, nad_vars=None, pad=None, sed_eps=1e-10):
    from fvhoe.slope_limiting import detect_troubled_cells

    u, c = _inputs(ctx, n, nv, cells, sed)
    dims = "".join(d for d, k in zip("xyz", n) if k)
    e = ctx.frac(*eps)
    pad_b = None if pad is None else {k: tuple(np.inf if b == "inf" else -np.inf if b == "-inf" else b for b in v) for k, v in pad.items()}
    u0, c0 = u.copy(), c.copy()
    tr, nad, padm = detect_troubled_cells(
        u, c, dims=dims, NAD_eps=e, mode=mode, range_type=rng, NAD_vars=nad_vars, PAD_bounds=pad_b, SED=sed, SED_eps=sed_eps
    )
    ctx.true("shape", tuple(tr.shape) == tuple(k or 1 for k in n))
    ctx.eq("previous values untouched", u, u0)
    ctx.eq("candidate untouched", c, c0)
    ctx.observe("trouble", tr)
    ctx.observe("NAD", nad)
    ctx.observe("PAD", padm)
    sel = range(5) if nad_vars is None else [VARS.index(x) for x in nad_vars]
    for cell in cells:
        pos = tuple(i + 3 if k else 0 for i, k in zip(cell, n))
        bad_nad, depth = [], []
        for v in range(5):
            nb = _nbhd(ctx, u, v, pos, n)
            x = c[(v,) + pos]
            if mode == "global":
                al = list(u[v].reshape(-1))
                gm, gM = ctx.minn(*al), ctx.maxn(*al)
            m, M = ctx.minn(*nb), ctx.maxn(*nb)
            if rng == "relative":
                tol = e * ((gM - gm) if mode == "global" else (M - m))
                bad = ctx.lor(x < m - tol, x > M + tol)
                depth.append(ctx.minn(x - m, M - x))
            else:
                lo, hi = (gm, gM) if mode == "global" else (m, M)
                bad = ctx.lor(x < (1 - e) * lo, x > (1 + e) * hi)
                depth.append(ctx.minn(x - (1 - e) * lo, (1 + e) * hi - x))
            if v in sel:
                if sed:
                    bad = ctx.land(bad, ctx.lnot(_smooth(ctx, c, v, pos, n, sed_eps)))
                bad_nad.append(bad)
        is_nad = ctx.lor(*bad_nad)
        bad_pad, worst = [], [0 * c[(0,) + pos]]
        for name, (lo, hi) in (pad_b or {}).items():
            x = c[(VARS.index(name),) + pos]
            if lo != -np.inf:
                bad_pad.append(x < lo)
                worst.append(lo - x)
            if hi != np.inf:
                bad_pad.append(x > hi)
                worst.append(x - hi)
        is_pad = ctx.lor(*bad_pad) if bad_pad else False
        t = tr[cell]
        want = ctx.lor(is_nad, is_pad)
        ctx.true(f"flag {cell}", ctx.lor(ctx.land(want, t == 1), ctx.land(ctx.lnot(want), t == 0)))
        ctx.eq(f"PAD depth {cell}", padm[cell], ctx.maxn(*worst))
        if nad_vars is None:
            ctx.eq(f"NAD depth {cell}", nad[cell], ctx.ite(is_nad, -ctx.minn(*depth), 0 * depth[0]))
        else:
            ctx.implies(f"NAD silent {cell}", ctx.lnot(is_nad), nad[cell] == 0)


def tasks(tier):
    ts = []
    for mode in ("global", "local"):
        for rng in ("relative", "absolute"):
            for n, cell in (((3, 0, 0), (1, 0, 0)), ((0, 3, 0), (0, 2, 0)), ((2, 2, 0), (1, 0, 0))):
                every = list(np.ndindex(*[k or 1 for k in n]))
                ts.append(Task("flags", dict(n=n, cells=every if n == (3, 0, 0) or mode == "global" else [cell], nv=[0, 4], mode=mode, rng=rng, eps=(1, 100), sed=False)))
    P = dict(rho=(0.0, "inf"), P=(0.0, "inf"))
    Q = dict(rho=(0.25, 2.0), vx=("-inf", 1.5), P=(-0.5, 2.5))
    for pad in (P, Q):
        ts.append(Task("flags", dict(n=(2, 0, 0), cells=[(0, 0, 0), (1, 0, 0)], nv=[0, 1], mode="global", rng="relative", eps=(1, 100), sed=False, pad=pad)))
        ts.append(Task("flags", dict(n=(0, 0, 2), cells=[(0, 0, 1)], nv=[0, 4], mode="local", rng="relative", eps=(1, 100), sed=True, pad=pad)))
    for n, cell in (((3, 0, 0), (2, 0, 0)), ((0, 2, 0), (0, 0, 0)), ((0, 0, 3), (0, 0, 1))):
        ts.append(Task("flags", dict(n=n, cells=[cell], nv=[0], mode="local", rng="relative", eps=(1, 1000), sed=True)))
        ts.append(Task("flags", dict(n=n, cells=[cell], nv=[4], mode="global", rng="absolute", eps=(1, 1000), sed=True)))
    for n, cell in (((2, 2, 0), (0, 1, 0)), ((2, 0, 3), (1, 0, 2)), ((0, 2, 2), (0, 1, 0))):
        ts.append(Task("flags", dict(n=n, cells=[cell], nv=[2], mode="local", rng="relative", eps=(1, 100), sed=True)))
    ts.append(Task("flags", dict(n=(2, 2, 2), cells=[(1, 0, 1)], nv=[3], mode="local", rng="relative", eps=(1, 100), sed=False)))
    ts.append(Task("flags", dict(n=(1, 2, 1), cells=[(0, 1, 0)], nv=[0], mode="local", rng="absolute", eps=(1, 100), sed=True)))
    # every variable can be selected, alone or with others, and bounded on either side
    for i, a in enumerate(VARS):
        b = VARS[(i + 2) % 5]
        ts.append(Task("flags", dict(n=(2, 0, 0), cells=[(0, 0, 0), (1, 0, 0)], nv=[i], mode="global", rng="relative", eps=(1, 100), sed=False, nad_vars=(a,))))
        ts.append(Task("flags", dict(n=(0, 2, 0), cells=[(0, 1, 0)], nv=sorted({i, VARS.index(b)}), mode=("local", "global")[i % 2], rng=("relative", "absolute")[i // 2 % 2], eps=(1, 50), sed=False, nad_vars=(a, b))))
        ts.append(Task("flags", dict(n=(0, 0, 2), cells=[(0, 0, 0)], nv=[i], mode="global", rng="relative", eps=(1, 100), sed=bool(i % 2), pad={a: (0.25, 2.0), b: ("-inf", 2.75)})))
        ts.append(Task("flags", dict(n=(2, 2, 0), cells=[(1, 1, 0)], nv=[i], mode="local", rng="relative", eps=(1, 100), sed=False, pad={b: (-1.75, "inf"), a: (0.5, "inf")}, nad_vars=(b,))))
    for nv in (("rho",), ("rho", "P"), ("vx", "vz")):
        ts.append(Task("flags", dict(n=(2, 0, 0), cells=[(1, 0, 0)], nv=[0, 1, 4], mode="local", rng="relative", eps=(1, 100), sed=False, nad_vars=nv, pad=P)))
    ts.append(Task("flags", dict(n=(2, 0, 0), cells=[(1, 0, 0)], nv=[0], mode="global", rng="relative", eps=(0, 1), sed=True, nad_vars=("rho",), sed_eps=0.125)))
    return ts


META = dict(
    bounds="grids of 2-3 interior cells per active axis with three ghost layers, 1D, 2D and 3D, values in [-2,3]; the previous values of the whole neighbourhood of one or "
    "two cells and the candidate values along its axes are symbolic for one to three variables (the rest of the array holds fixed numbers); all modes, ranges, with and "
    "without smooth-extremum removal, variable selection and physical bounds",
    how="the flags and magnitudes computed by the real code are compared with the documented criteria written over the same symbolic values.",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
