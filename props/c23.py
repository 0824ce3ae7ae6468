"""C23: what snapshots contain, and that nothing changes them afterwards"""
import numpy as np

from symx.runner import Task
from props.common import *

KEYS = ("w", "t", "x", "y", "z")
TROUBLE = ("trouble", "NAD violation magnitude", "PAD violation magnitude")
COST = {0: 0, 1: 1, 2: 1, 3: 2, 4: 2}


def _wrap(u, g):
    for ax in range(3):
        if g[ax]:
            n = u.shape[ax + 1]
            idx = [i % n for i in range(-g[ax], n + g[ax])]
            u = np.concatenate([u[(slice(None),) * (ax + 1) + (slice(i, i + 1),)] for i in idx], axis=ax + 1)
    return u


def primitives(ctx, s, u, p, average):
    """primitive variables of periodic averages u: centre values, or averages of them"""
    from fvhoe.fv import interpolate_cell_centers, interpolate_fv_averages
    from fvhoe.hydro import compute_primitives
    from fvhoe.stencils import get_stencil_size

    k = [get_stencil_size(q) for q in p]
    w = compute_primitives(s.hydro_state, interpolate_cell_centers(_wrap(u, [(2 if average else 1) * c for c in k]), p=p), gamma=s.gamma)
    return interpolate_fv_averages(w, p=p) if average else w


def _coords(ctx, s, snap, n, dom):
    for ax, c in enumerate("xyz"):
        a, b = dom[ax]
        want = ctx.stack([a + (b - a) * (ctx.const(i) + 0.5) / n[ax] for i in range(n[ax])])
        ctx.eq(f"coordinate {c}", snap[c], want)


def content(ctx, n, p, average, passives=0, limited=False):
    """a snapshot of an arbitrary state"""
    u = cons_state(ctx, "u", n, passives)
    dom = [(ctx.real(f"a{c}", -1, 0), ctx.real(f"b{c}", 1, 2)) for c in "xyz"]
    kw = dict(a_posteriori_slope_limiting=True) if limited else {}
    s = make_solver(u, p=p, passives=tuple(f"s{k}" for k in range(passives)), x=dom[0], y=dom[1], z=dom[2], snapshots_as_fv_averages=average, gamma=ctx.frac(7, 5), fixed_dt=0.1, **kw)
    s.t = ctx.real("t", 0, 5)
    s.snapshot()
    ctx.true("one snapshot", len(s.snapshots) == 1 and len(s.snapshot_times) == 1)
    q = s.snapshots[0]
    ctx.observe("w", q["w"])
    ctx.eq("w", q["w"], primitives(ctx, s, u, p, average))
    ctx.eq("t", q["t"], s.t)
    ctx.eq("snapshot time", s.snapshot_times[0], s.t)
    ctx.eq("state untouched", s.am("u"), u)
    _coords(ctx, s, q, n, dom)
    ctx.true("trouble logged", all((k in q) == limited for k in TROUBLE))
    if limited:
        for k in TROUBLE:
            ctx.true(f"shape {k}", tuple(q[k].shape) == tuple(n))
            ctx.eq(f"nothing yet {k}", q[k], ctx.const(0.0))


def _flow(ctx, n, seed=3):
    u = fixed(ctx, (5,) + n, seed)
    u[4] = ctx.array("E", n, 2, 4)
    return u


def _copy(q):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in q.items()}


def history(ctx, n, p, how, kw, limited, again=None):
    """each snapshot keeps the values it was taken with; snapshots do not disturb the run"""
    u = _flow(ctx, n)
    seen, states = [], []

    def note(s):
        seen.append(_copy(s.snapshots[-1]))
        states.append((s.t, s.am("u").copy()))

    base = dict(p=p, riemann_solver="advection_upwind", fixed_dt=0.02, gamma=ctx.frac(7, 5))
    if limited:
        base.update(a_posteriori_slope_limiting=True, NAD_vars=("rho",), SED=False, PAD={"rho": (0.9, 1.1)})
    s = make_solver(u, snapshot_helper_function=note, **base)
    getattr(s, how)(T=0.05, **kw)
    if again:
        getattr(s, how)(**again)  # the run is carried on
    k = len(s.snapshots)
    ctx.true("one to one", k == len(s.snapshot_times) == len(seen))
    for i in range(k):
        q = s.snapshots[i]
        ctx.eq(f"time {i}", q["t"], s.snapshot_times[i])
        ctx.eq(f"state time {i}", q["t"], states[i][0])
        ctx.eq(f"w {i}", q["w"], primitives(ctx, s, states[i][1], p, True))
        for key in q:
            ctx.eq(f"unchanged {key} {i}", q[key], seen[i][key])
    ctx.eq("last", states[-1][1], s.am("u"))
    # the same run with other snapshots passes through the same states at the common times
    r = make_solver(u, **base)
    getattr(r, how)(T=0.05, **{a: b for a, b in kw.items() if a != "log_every_step"})
    if again:
        getattr(r, how)(**again)
    ctx.eq("solution", r.am("u"), s.am("u"))
    ctx.true("same steps", r.step_count == s.step_count)
    # shared buffers: overwriting the solver's arrays leaves the snapshots alone
    s.am("u")[...] = 7.0
    for name in list(s.am.arrays):
        s.am(name)[...] = -5.0
    for i in range(k):
        for key in ("w",) + (TROUBLE if limited else ()):
            ctx.eq(f"own copy {key} {i}", s.snapshots[i][key], seen[i][key])


WEIGHT = dict(euler=[[]], ssprk2=[[], [1.0]], ssprk3=[[], [1.0], [0.25, 0.25]], rk4=[[], [0.5], [0.0, 0.5], [0.0, 0.0, 1.0]])


def averaged(ctx, n, p, how, steps, seed, kw):
    """the logged trouble is the mean over the stages of the last step"""
    u = fixed(ctx, (5,) + n, seed)
    u[1:4] = u[1:4] - 0.5
    u[4] = u[4] + 3
    lo = ctx.real("lo", 0.5, 0.9)
    dt = 0.03125
    base = dict(p=p, riemann_solver="advection_upwind", fixed_dt=dt, gamma=ctx.frac(7, 5), a_posteriori_slope_limiting=True, NAD_vars=("rho",),
                SED=False, NAD=0.05, PAD={"rho": (lo, 1e3)}, slope_limiter=None, **kw)
    s = make_solver(u, **base)
    getattr(s, how)(n=steps)
    got = s.snapshots[-1]
    # the state the last step started from
    before = make_solver(u, **base)
    getattr(before, how)(n=steps - 1)
    v = before.am("u").copy()
    h = ctx.const(dt)
    ks, logs = [], []
    for a in WEIGHT[how]:
        U = v
        for c, q in zip(a, ks):
            U = U + c * h * q
        one = make_solver(U, **base)
        ks.append(one.f(0.0, one.am("u"))[1].copy())
        one.step_helper_function()
        one.snapshot()
        logs.append(one.snapshots[-1])
    for key in TROUBLE:
        ctx.eq(key, got[key], sum(l[key] for l in logs) / len(logs), tol=1e-9)


def tasks(tier):
    ts = []
    C = [
        dict(n=(3, 1, 1), p=(0, 0, 0), average=True), dict(n=(4, 1, 1), p=(1, 0, 0), average=True, passives=1), dict(n=(1, 5, 1), p=(0, 2, 0), average=False),
        dict(n=(1, 1, 8), p=(0, 0, 3), average=False, passives=2), dict(n=(4, 4, 1), p=(1, 2, 0), average=False), dict(n=(4, 1, 4), p=(2, 0, 1), average=True),
        dict(n=(3, 2, 2), p=(0, 0, 0), average=True, passives=1), dict(n=(1, 1, 5), p=(0, 0, 1), average=True, limited=True), dict(n=(5, 5, 1), p=(1, 1, 0), average=False, limited=True),
    ]
    for c in C:
        ts.append(Task("content", c))
    for how, p in (("euler", 0), ("ssprk2", 1), ("ssprk3", 2), ("rk4", 2)):
        ts.append(Task("history", dict(n=(5, 1, 1), p=(p, 0, 0), how=how, kw=dict(log_every_step=True), limited=False), round_bits=120))
    ts.append(Task("history", dict(n=(1, 5, 1), p=(0, 1, 0), how="euler", kw=dict(downbeats=[0.03, 0.01]), limited=True), round_bits=120))
    ts.append(Task("history", dict(n=(1, 1, 5), p=(0, 0, 1), how="ssprk2", kw=dict(downbeats=[0.03], log_every_step=True), limited=True), round_bits=120))
    ts.append(Task("history", dict(n=(4, 1, 1), p=(0, 0, 0), how="euler", kw=dict(downbeats=[0.03]), limited=False, again=dict(T=0.09)), round_bits=120))
    ts.append(Task("history", dict(n=(1, 5, 1), p=(0, 1, 0), how="ssprk2", kw={}, limited=False, again=dict(n=1)), round_bits=120))
    ts.append(Task("history", dict(n=(1, 1, 5), p=(0, 0, 1), how="euler", kw={}, limited=True, again=dict(n=1)), round_bits=120))
    for how in WEIGHT:
        for steps in (1, 2):
            n, p = ((5, 1, 1), (1, 0, 0)) if steps == 1 else ((1, 6, 1), (0, 1, 0))
            ts.append(Task("averaged", dict(n=n, p=p, how=how, steps=steps, seed=steps, kw=dict(NAD_mode="local") if how == "rk4" else {}), round_bits=120, max_paths=600))
    return ts


META = dict(
    bounds="periodic grids of 3-8 cells (1D), up to 4x4 and 5x5 (2D) and 3x2x2 (3D), degrees 0-3; arbitrary states, times and domains for the contents; runs of three steps, some carried on by a second call, with "
    "symbolic energy for immutability; trouble means over one and two steps of each integrator with a symbolic physical bound over a fixed flow",
    how="snapshot contents are recomputed from the state; copies taken at each snapshot are compared with the snapshots at the end of the run and after overwriting every solver array; "
    "trouble logs are compared with the mean of single evaluations at the stage states.",
    assumptions=["real arithmetic in place of IEEE rounding", "interpolation weights as decided by C01"],
)
