"""C21: the integrators as Runge-Kutta methods over a black-box right-hand side"""
import numpy as np

from symx.runner import Task
from props.common import *

STAGES = dict(euler=1, ssprk2=2, ssprk3=3, rk4=4)
ORDER = dict(euler=1, ssprk2=2, ssprk3=3, rk4=4)


def box(u0, answers, t0=0.0):
    """u' = f(t, u) where the k-th evaluation of f answers answers[k] = (dt, dudt), whatever it is asked"""
    from fvhoe.ode import ODE

    class Box(ODE):
        def __init__(self):
            super().__init__(u0.copy(), progress_bar=False)
            self.t = t0
            self.calls = []

        def f(self, t, u):
            i = len(self.calls)
            self.calls.append((t, u.copy()))
            dt, k = answers(i, t, u)
            return dt, k

    return Box()


def tableau(ctx, name):
    """coefficients of the method, read off from one unit step with unit-vector slopes"""
    s = STAGES[name]
    m = 8

    def ans(i, t, u):
        k = [0.0] * m
        k[i] = 1.0
        return 1.0, np.array(k)

    b = box(np.zeros(m), ans)
    getattr(b, name)(n=1)
    ctx.true("stages", len(b.calls) == s)
    A = [[b.calls[i][1][j] for j in range(s)] for i in range(s)]
    c = [b.calls[i][0] for i in range(s)]
    w = [b.am("u")[j] for j in range(s)]
    return A, w, c


def order(ctx, name):
    A, b, c = tableau(ctx, name)
    s = len(b)
    R = range(s)
    q = ORDER[name]
    tol = 1e-12
    one = ctx.const(1.0)
    for i in R:
        ctx.eq(f"stage time {i}", c[i] + 0 * one, sum(A[i]) + 0 * one, tol)
        for j in range(i, s):
            ctx.eq(f"explicit {i}{j}", A[i][j] + 0 * one, 0 * one)
    f = ctx.frac
    ctx.eq("b", sum(b) * one, one, tol)
    if q >= 2:
        ctx.eq("bc", sum(b[i] * c[i] for i in R) * one, f(1, 2), tol)
    if q >= 3:
        ctx.eq("bcc", sum(b[i] * c[i] * c[i] for i in R) * one, f(1, 3), tol)
        ctx.eq("bAc", sum(b[i] * A[i][j] * c[j] for i in R for j in R) * one, f(1, 6), tol)
    if q >= 4:
        ctx.eq("bccc", sum(b[i] * c[i] ** 3 for i in R) * one, f(1, 4), tol)
        ctx.eq("bcAc", sum(b[i] * c[i] * A[i][j] * c[j] for i in R for j in R) * one, f(1, 8), tol)
        ctx.eq("bAcc", sum(b[i] * A[i][j] * c[j] * c[j] for i in R for j in R) * one, f(1, 12), tol)
        ctx.eq("bAAc", sum(b[i] * A[i][j] * A[j][k] * c[k] for i in R for j in R for k in R) * one, f(1, 24), tol)


def black_box(ctx, name, steps, m, cut, shape=None):
    """for any slopes, step sizes, state and time, every step is that method applied to the current state and time"""
    A, b, c = tableau(ctx, name)
    s = STAGES[name]
    shape = (m,) if shape is None else shape
    u0 = ctx.array("u", shape, -2, 2)
    t0 = ctx.real("t0", 0, 3)
    K = [ctx.array(f"k{i}", shape, -2, 2) for i in range(s * steps)]
    dts = [ctx.real(f"dt{i}", 0.25, 1) for i in range(s * steps)]
    bx = box(u0, lambda i, t, u: (dts[i], K[i]), t0)
    if cut:
        T = ctx.real("T", 0, 4)
        ctx.assume(T > t0)
        ctx.assume(T - t0 < dts[0])
        getattr(bx, name)(T=T)
        d = [T - t0]
    else:
        getattr(bx, name)(n=steps)
        d = [dts[s * k] for k in range(steps)]
    ctx.true("evaluations", len(bx.calls) == s * steps)
    u, t = u0, t0
    ctx.eq("timestamps", bx.timestamps[1:], _cumsum(ctx, t0, d))
    for k in range(steps):
        ks = K[s * k : s * (k + 1)]
        for i in range(s):
            tc, uc = bx.calls[s * k + i]
            ctx.eq(f"step {k} stage {i} time", tc, t + c[i] * d[k])
            ctx.eq(f"step {k} stage {i} state", uc, u + d[k] * sum((A[i][j] * ks[j] for j in range(s)), 0 * ks[0]))
        u = u + d[k] * sum((b[j] * ks[j] for j in range(s)), 0 * ks[0])
        t = t + d[k]
    ctx.eq("state", bx.am("u"), u)
    ctx.eq("time", bx.t, t)
    ctx.true("steps", bx.step_count == steps)


def _cumsum(ctx, t0, d):
    out = []
    for x in d:
        t0 = t0 + x
        out.append(t0)
    return ctx.stack(out)


def convex(ctx, name):
    """if forward Euler steps of this size keep every stage non-negative, the whole step does (SSP coefficient one)"""
    s = STAGES[name]
    m = 2
    u0 = ctx.array("u", (m,), 0, 2)
    K = [ctx.array(f"k{i}", (m,), -9, 9) for i in range(s)]
    dt = ctx.real("dt", 0.25, 1)
    bx = box(u0, lambda i, t, u: (dt, K[i]))
    getattr(bx, name)(n=1)
    for i in range(s):
        ctx.assume(bx.calls[i][1] + dt * K[i] >= 0)
    for i in range(s):
        ctx.le(f"stage {i}", 0 * u0, bx.calls[i][1], tol=1e-9)
    ctx.le("step", 0 * u0, bx.am("u"), tol=1e-9)


def auto(ctx, p, axis):
    """run() picks the method whose order matches the degree, up to four"""
    n = [1, 1, 1]
    n[axis] = 8 if p <= 4 else 12
    if p == 0:
        n[axis] = 3
    pp = [0, 0, 0]
    pp[axis] = p
    u = fixed(ctx, (5,) + tuple(n), 3)
    u[4] = ctx.array("E", tuple(n), 2, 4)
    kw = dict(p=tuple(pp), riemann_solver="advection_upwind", fixed_dt=0.01)
    a, b = make_solver(u, **kw), make_solver(u, **kw)
    name = {0: "euler", 1: "ssprk2", 2: "ssprk3"}.get(p, "rk4")
    a.run(n=1)
    getattr(b, name)(n=1)
    ctx.true("evaluations", a.f_evaluation_count == STAGES[name])
    ctx.eq("state", a.am("u"), b.am("u"))
    ctx.eq("time", a.t, 0.01)


def tasks(tier):
    ts = []
    for name in STAGES:
        ts.append(Task("order", dict(name=name)))
        for steps in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6):
            ts.append(Task("black_box", dict(name=name, steps=steps, m=2, cut=False)))
        ts.append(Task("black_box", dict(name=name, steps=1, m=2, cut=True)))
        for shape in ((5, 2, 1, 1), (2, 3)):
            ts.append(Task("black_box", dict(name=name, steps=2, m=2, cut=False, shape=shape)))
    for name in ("euler", "ssprk2", "ssprk3"):
        ts.append(Task("convex", dict(name=name)))
    for p in (0, 1, 2, 3, 4) + ((5, 6, 7, 8) if tier != "quick" else ()):
        ts.append(Task("auto", dict(p=p, axis=p % 3), round_bits=120))
    return ts


META = dict(
    bounds="states of two components (and of shapes 5x2x1x1, 2x3) in [-2,2], up to 3 consecutive steps (thorough 6), slopes in [-2,2] (convexity: +-9), step sizes in [1/4,1] that may differ at every "
    "evaluation, start times in [0,3], one step cut to a target time; automatic choice for degrees 0-4 (thorough 0-8)",
    how="the right-hand side is a black box answering fresh symbolic slopes and step sizes; every stage state, stage time and new state is compared with the Butcher tableau read "
    "off from unit slopes, and the tableau with the order conditions.",
    assumptions=["real arithmetic in place of IEEE rounding (order conditions to 1e-12)", "degrees above 4 in the automatic choice only in the thorough tier"],
)
