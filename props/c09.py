"""C09: first-order schemes keep density positive and advected quantities bounded under the CFL condition"""
import numpy as np

from symx.runner import Task
from props.common import *
from props.c08 import _by_c, _cons


def _flux(rs, wl, wr, d, g):
    from fvhoe import riemann_solvers as R

    return getattr(R, rs)(hs=hstate(), riemann_problem=(wl, wr), gamma=g, dim="xyz"[d - 1], csq_floor=1e-10)[0]


def interface(ctx, rs, d, gamma, regime=None, order=None, faster=None):
    """mass leaving a cell through one face, for arbitrary states: at most rho (v + M)/2 (llf) or rho M (hllc), M any bound of |v| + c on both sides"""
    g = frac(ctx, gamma)
    sh = (1, 1, 1)
    (wl, cl), (wr, cr) = _by_c(ctx, "l", sh, g), _by_c(ctx, "r", sh, g)
    i = (0, 0, 0)
    vl, vr = wl[d][i], wr[d][i]
    M = ctx.real("M", 0.1, 20)
    ctx.assume(M >= ctx.abs(vl) + cl[i])
    ctx.assume(M >= ctx.abs(vr) + cr[i])
    if order:
        ctx.assume(vl <= vr if order == "apart" else vl > vr)
    if faster:
        ctx.assume(cl[i] <= cr[i] if faster == "right" else cl[i] > cr[i])
    q = None
    if regime:
        q = wave_regime(ctx, wl, wr, d, g, regime)
    F = _flux(rs, wl, wr, d, g)[i]
    if rs == "llf":
        ctx.lt("outflow right", F, wl[0][i] * (vl + M) / 2)
        ctx.lt("outflow left", -F, wr[0][i] * (M - vr) / 2)
        return
    cm, sl, sr, N, D = (q[k][i] for k in ("cm", "sl", "sr", "N", "D"))
    if regime == "left star":
        ctx.eq("left star flux", F * (N - sl * D), wl[0][i] * (vl - sl) * N)
    elif regime == "right star":
        ctx.eq("right star flux", F * (sr * D - N), wr[0][i] * (sr - vr) * N)
    else:
        ctx.lt("outflow right", F, wl[0][i] * M)
        ctx.lt("outflow left", -F, wr[0][i] * M)


def star(ctx, gamma, order, faster, wide):
    """left star state with v* > 0 (the right one is its mirror image): rho (vl - Sl) v* / (v* - Sl) < rho M, a fact about the waves alone"""
    g = frac(ctx, gamma)
    rl, rr = ctx.real("rl", 0.25, 4), ctx.real("rr", 0.25, 4)
    vl, vr = ctx.real("vl", -3, 3), ctx.real("vr", -3, 3)
    cl, cr = ctx.real("cl", 0.1, 3), ctx.real("cr", 0.1, 3)
    M = ctx.real("M", 0.1, 20)
    ctx.assume(M >= ctx.abs(vl) + cl)
    ctx.assume(M >= ctx.abs(vr) + cr)
    ctx.assume(vl <= vr if order == "apart" else vl > vr)
    ctx.assume(cl <= cr if faster == "right" else cl > cr)
    cm = cr if faster == "right" else cl
    sl = (vl if order == "apart" else vr) - cm
    a = vl - sl
    N = a * (rl * vl + rr * vr) + (rl * cl * cl - rr * cr * cr) / g
    D = a * (rl + rr)
    ctx.assume(sl < 0)
    ctx.assume(N > 0)
    ctx.lemma("D", ctx.land(D > 0, M > 0, M * D > 0, M * D * (-sl) > 0, M - vl > 0))
    if order == "apart":
        ctx.lemma("M", M >= cm)
        ctx.lemma("N", N * (M - cm) >= 0)
    elif wide:
        ctx.assume(a <= M)
        ctx.lemma("N", N * (M - a) >= 0)
    else:
        ctx.assume(a > M)
        ctx.lemma("p", ctx.land(rl * cl * (a - cl) >= 0, rr * a * (vl - vr) >= 0, rr * a * cl >= 0, rr * cr * cr >= 0, rl * cl * cl >= 0))
        ctx.true("v*", N <= (vl + cl) * D)
        return  # the rest in narrow(), with the products as unknowns of their own
    ctx.true("bounded", N * a < M * (N - sl * D))
    ctx.true("denominator", N - sl * D > 0)


def narrow(ctx):
    """star(), waves wider than M: the last step"""
    N, D, a, M = ctx.real("N", 0, 1e4), ctx.real("D", 0, 1e4), ctx.real("a", 0, 100), ctx.real("M", 0.1, 20)
    vl, cl = ctx.real("vl", -3, 3), ctx.real("cl", 0.1, 3)
    sl = vl - a
    ctx.assume(ctx.land(N > 0, D > 0, a > M, M >= vl + cl, N <= (vl + cl) * D))
    ctx.lemma("1", (a - M) * ((vl + cl) * D - N) >= 0)
    ctx.lemma("2", D * (a - M) * (M - vl - cl) >= 0)
    ctx.lemma("3", M * D * (M - vl) > 0)
    ctx.true("bounded", N * a < M * (N - sl * D))
    ctx.lemma("4", D * (a - vl) > 0)
    ctx.true("denominator", N - sl * D > 0)


def update(ctx, rs, d, gamma):
    """one Euler step is rho - dt/h (F_right - F_left) with the faces' own fluxes, dt at most CFL h / (|v| + c) of every cell, so bounded outflow keeps rho positive"""
    from fvhoe.hydro import compute_primitives

    g = frac(ctx, gamma)
    n = [1, 1, 1]
    n[d - 1] = 3
    n = tuple(n)
    u = cons_state(ctx, "u", n)
    cfl = ctx.real("CFL", 0.05, 1)
    dom = {c: (0.0, 1.5) for c in "xyz"}
    s = make_solver(u, riemann_solver=rs, gamma=g, CFL=cfl, **dom)
    dt = s.f(0.0, s.am("u"))[0]
    s.euler(n=1)
    w = compute_primitives(hstate(), u, g)
    at = lambda a, j: np.take(a, [j % 3], axis=d)
    h = ctx.frac(1, 2)
    for j in range(3):
        fl = _flux(rs, at(w, j - 1), at(w, j), d, g).reshape(())[()]
        fr = _flux(rs, at(w, j), at(w, j + 1), d, g).reshape(())[()]
        i = [0, 0, 0]
        i[d - 1] = j
        i = tuple(i)
        ctx.eq(f"update {j}", s.am("u")[0][i], u[0][i] - dt / h * (fr - fl))


def step(ctx, d, gamma, rs):
    g = frac(ctx, gamma)
    n = [1, 1, 1]
    n[d - 1] = 3
    n = tuple(n)
    w, c = _by_c(ctx, "w", n, g)
    cfl = ctx.real("CFL", 0.05, 1)
    s = make_solver(_cons(w, g), riemann_solver=rs, gamma=g, CFL=cfl, x=(0.0, 1.5), y=(0.0, 1.5), z=(0.0, 1.5))
    dt = s.f(0.0, s.am("u"))[0]
    for i in np.ndindex(*n):
        ctx.le(f"cell {i}", dt * (ctx.abs(w[d][i]) + c[i]) * 2, cfl)


def together(ctx, rs):
    """outflow bounds of both faces and the step bound give a positive density (arithmetic only)"""
    rho, fr, fl, v = ctx.real("rho", 0.01, 10), ctx.real("fr", -100, 100), ctx.real("fl", -100, 100), ctx.real("v", -10, 10)
    M, lam = ctx.real("M", 0.1, 20), ctx.real("lam", 0.0, 10)
    cfl = ctx.frac(1, 1) if rs == "llf" else ctx.frac(1, 2)
    ctx.assume(lam > 0)
    ctx.assume(lam * M <= cfl)
    if rs == "llf":
        ctx.assume(fr < rho * (v + M) / 2)
        ctx.assume(-fl < rho * (M - v) / 2)
        ctx.lemma("sum", fr - fl < rho * M)
    else:
        ctx.assume(fr < rho * M)
        ctx.assume(-fl < rho * M)
        ctx.lemma("sum", fr - fl < 2 * rho * M)
    ctx.true("positive", rho - lam * (fr - fl) > 0)


def advected(ctx, d, gamma, sign, scalars=1, rs="advection_upwind"):
    """constant velocity: every conserved variable of the new state lies between the old value and the upwind neighbour's"""
    g = frac(ctx, gamma)
    n = [1, 1, 1]
    n[d - 1] = 3
    n = tuple(n)
    w, c = _by_c(ctx, "w", n, g, scalars)
    vel = [ctx.real(f"v{x}", -2, 2) for x in "xyz"]
    vel[d - 1] = sign * ctx.real("speed", 0.1, 3)
    for k in range(3):
        w[1 + k] = vel[k] + 0 * w[0]
    u = _cons(w, g)
    cfl = ctx.real("CFL", 0.05, 1)
    s = make_solver(u, passives=tuple(f"s{k}" for k in range(scalars)), riemann_solver=rs, gamma=g, CFL=cfl, x=(0.0, 1.5), y=(0.0, 1.5), z=(0.0, 1.5))
    dt = s.f(0.0, s.am("u"))[0]
    s.euler(n=1)
    th = dt * vel[d - 1] * sign * 2
    ctx.lemma("dt", dt > 0)
    ctx.le("fraction", th, ctx.const(1.0))
    ctx.le("forward", 0 * th, th)
    for j in range(3):
        i, k = [0, 0, 0], [0, 0, 0]
        i[d - 1], k[d - 1] = j, (j - int(sign)) % 3
        for v in range(5 + scalars):
            a, b = u[(v,) + tuple(i)], u[(v,) + tuple(k)]
            # a convex combination of the cell and its upwind neighbour, the weight being the fraction above
            ctx.eq(f"mix {v} {j}", s.am("u")[(v,) + tuple(i)], a + th * (b - a))


def tasks(tier):
    ts = []

    def add(h, **kw):
        ts.append(Task(h, kw))

    for d in (1, 2, 3):
        g = ("7/5", "5/3")[d % 2]
        for o in ("apart", "towards"):
            add("interface", rs="llf", d=d, gamma=g, order=o)
            for r in REGIMES:
                for f in ("left", "right"):
                    add("interface", rs="hllc", d=d, gamma=g, regime=r, order=o, faster=f)
        for rs in ("llf", "hllc"):
            add("update", rs=rs, d=d, gamma=g)
            add("step", rs=rs, d=d, gamma=g)
        for sg in (1.0, -1.0):
            add("advected", d=d, gamma=g, sign=sg)
    for rs in ("llf", "hllc"):
        add("together", rs=rs)
    add("narrow")
    for g in GAMMAS:
        for f in ("left", "right"):
            add("star", gamma=g, order="apart", faster=f, wide=True)
            add("star", gamma=g, order="towards", faster=f, wide=True)
            add("star", gamma=g, order="towards", faster=f, wide=False)
    return ts


META = dict(
    bounds="arbitrary pairs of states (density 0.25-4, velocities -3..3, sound speed 0.1-3, gamma 7/5 and 5/3) at one interface in each direction and wave regime; periodic rows of three cells with arbitrary states along each axis, one forward Euler step, CFL in (0.05,1] for llf and advection, (0.05,1/2] for hllc",
    how="the real Riemann fluxes are bounded for all pairs of states, the step is shown to be the flux difference with dt (|v|+c) <= CFL h in every cell, and the three facts together give a positive density; for constant velocity the new state is shown to be the convex combination of a cell and its upwind neighbour",
    assumptions=["real arithmetic in place of IEEE rounding"],
)
