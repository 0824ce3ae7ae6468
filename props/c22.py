"""C22: target times, step counts and snapshots of a run over arbitrary step sizes"""
import numpy as np

from symx.runner import Task
from props.common import *


class _Slope:
    """a slope whatever the arithmetic of the step size: adds nothing"""

    __array_ufunc__ = None

    def _me(self, *a):
        return self

    __mul__ = __rmul__ = __truediv__ = __neg__ = _me

    def __add__(self, o):
        return self if isinstance(o, _Slope) else o

    __radd__ = __sub__ = __rsub__ = __add__


def box(answers, t0):
    from fvhoe.ode import ODE

    class Box(ODE):
        def __init__(self):
            super().__init__(np.zeros(1), progress_bar=False)
            self.t = t0
            self.timestamps = [t0]
            self.calls = []

        def f(self, t, u):
            i = len(self.calls)
            self.calls.append(t)
            return answers(i), _Slope()

    return Box()


STAGES = dict(euler=1, ssprk2=2, ssprk3=3, rk4=4)


def _min(ctx, xs):
    r = xs[0]
    for x in xs[1:]:
        r = ctx.minn(r, x)
    return r


def _verify(ctx, tag, t0, T, D, st, snaps, dts, exact, log, nsteps):
    """the statement, for one call of integrate starting at t0"""
    N = len(st) - 1
    ctx.eq(f"{tag}starts", st[0], t0)
    goals = list(D) + [T] if exact else []
    for k in range(N):
        ctx.lt(f"{tag}later {k}", st[k], st[k + 1])
        ctx.lt(f"{tag}not done {k}", st[k], T)
        if exact:
            # never past a requested time, and shortened only to land on one
            for i, d in enumerate(goals):
                ctx.true(f"{tag}not past {k},{i}", ctx.lor(d <= st[k], st[k + 1] <= d))
            ctx.true(f"{tag}step {k}", ctx.lor(st[k + 1] == st[k] + dts[k], ctx.land(st[k + 1] < st[k] + dts[k], ctx.lor(*[st[k + 1] == d for d in goals]))))
        else:
            ctx.eq(f"{tag}step {k}", st[k + 1], st[k] + dts[k])
    if exact:
        ctx.implies(f"{tag}ends", T > t0, st[N] == T)
    else:
        ctx.true(f"{tag}ends", st[N] >= T)
    ctx.eq(f"{tag}first snapshot", snaps[0], t0)
    for k in range(1, len(snaps)):
        ctx.lt(f"{tag}snapshots in order {k}", snaps[k - 1], snaps[k])
    if log:
        ctx.true(f"{tag}one per step", len(snaps) == N + 1)
        for k in range(1, N + 1):
            ctx.eq(f"{tag}snapshot {k}", snaps[k], st[k])
    else:
        due = goals if exact else [st[N]]
        for k in range(1, len(snaps)):
            ctx.true(f"{tag}requested {k}", ctx.lor(*[snaps[k] == d for d in due]))
        for i, d in enumerate(due):
            missed = ctx.lnot(ctx.lor(*[s == d for s in snaps]))
            ctx.true(f"{tag}taken {i}", ctx.lnot(ctx.land(missed, d > t0, d <= T if exact else True)))
    ctx.true(f"{tag}step count", nsteps == N)


def until(ctx, name, nd, exact, log, dt=(0.4, 1.2), again=False, as_array=False):
    """integrate to T over arbitrary step sizes and targets (unsorted, duplicate, past, beyond the end)"""
    m = STAGES[name]
    dts = [ctx.real(f"dt{i}", *dt) for i in range(40)]
    t0 = ctx.real("t0", 0, 1)
    bx = box(lambda i: dts[i // m] if i % m == 0 else dts[-1], t0)
    T = t0 + ctx.real("span", 0.05, 0.8)
    D = [t0 + ctx.real(f"d{i}", -0.5, 1.5) for i in range(nd)]
    down = None if nd == 0 else (ctx.stack(D) if as_array else list(D))
    kw = {} if exact else dict(exact=False)
    getattr(bx, name)(T=T, downbeats=down, log_every_step=log, **kw)
    n1 = bx.step_count
    _verify(ctx, "", t0, T, D, bx.timestamps, bx.snapshot_times, dts, exact, log, n1)
    ctx.true("evaluations", len(bx.calls) == m * n1)
    ctx.true("one record per snapshot", len(bx.snapshots) == len(bx.snapshot_times))
    ctx.eq("t", bx.t, bx.timestamps[-1])
    if not again:
        return
    # carrying on from where the run stopped
    k = len(bx.snapshot_times)
    was, held = list(bx.snapshot_times), list(bx.snapshots)
    t1 = bx.t
    T2 = ctx.real("T2", 0, 2.5)
    getattr(bx, name)(T=T2, downbeats=down, log_every_step=log, **kw)
    _verify(ctx, "again ", t1, T2, D, bx.timestamps[n1:], bx.snapshot_times[k:], dts[n1:], exact, log, bx.step_count - n1)
    ctx.true("again one record per snapshot", len(bx.snapshots) == len(bx.snapshot_times))
    for i, t in enumerate(was):
        ctx.eq(f"kept {i}", bx.snapshot_times[i], t)
        ctx.true(f"same record {i}", bx.snapshots[i] is held[i])


def counted(ctx, name, n):
    m = STAGES[name]
    dts = [ctx.real(f"dt{i}", 0.1, 1) for i in range(n + 2)]
    t0 = ctx.real("t0", 0, 1)
    bx = box(lambda i: dts[i // m] if i % m == 0 else dts[-1], t0)
    getattr(bx, name)(n=n)
    t = t0
    for k in range(n):
        t = t + dts[k]
        ctx.eq(f"step {k}", bx.timestamps[k + 1], t)
    ctx.true("steps", bx.step_count == n and len(bx.timestamps) == n + 1 and len(bx.calls) == m * n)
    ctx.true("two snapshots", len(bx.snapshot_times) == 2 and len(bx.snapshots) == 2)
    ctx.eq("before", bx.snapshot_times[0], t0)
    ctx.eq("after", bx.snapshot_times[1], t)


def ieee(ctx, name, nd):
    """targets closer than the step size, in IEEE double arithmetic: every step lands on the next target to the last bit"""
    t0 = ctx.double("t0", 0.0, 1.0)
    G = [ctx.double(f"T{i}", 0.0, 2.0) for i in range(nd + 1)]
    prev = t0
    for i, g in enumerate(G):
        ctx.assume(g > prev)
        prev = g
    bx = box(lambda i: 4.0, t0)
    getattr(bx, name)(T=G[-1], downbeats=list(reversed(G[:-1])))
    st, sn = bx.timestamps, bx.snapshot_times
    ctx.true("steps", len(st) == nd + 2)
    ctx.true("snapshots", len(sn) == nd + 2)
    ctx.true("end", bx.t == G[-1])
    for k, g in enumerate(G):
        ctx.true(f"time {k}", st[k + 1] == g)
        ctx.true(f"snapshot {k}", sn[k + 1] == g)


def tasks(tier):
    ts = []
    th = tier != "quick"
    for name in STAGES:
        for exact in (True, False):
            for log in (False, True):
                ts.append(Task("until", dict(name=name, nd=1 if exact else 0, exact=exact, log=log), max_paths=2000))
        ts.append(Task("counted", dict(name=name, n=3)))
        ts.append(Task("counted", dict(name=name, n=0)))
        ts.append(Task("ieee", dict(name=name, nd=0)))
    ts.append(Task("until", dict(name="euler", nd=2, exact=True, log=False, dt=(0.6, 1.2)), max_paths=4000))
    ts.append(Task("until", dict(name="rk4", nd=1, exact=True, log=False, as_array=True), max_paths=4000))
    ts.append(Task("until", dict(name="euler", nd=1, exact=False, log=False), max_paths=4000))
    ts.append(Task("until", dict(name="ssprk3", nd=1, exact=True, log=False, dt=(0.9, 1.2), again=True), max_paths=4000))
    ts.append(Task("ieee", dict(name="euler", nd=1)))
    if th:
        ts.append(Task("until", dict(name="ssprk2", nd=3, exact=True, log=False, dt=(0.7, 1.2)), max_paths=20000))
        ts.append(Task("until", dict(name="euler", nd=2, exact=True, log=True, dt=(0.2, 1.2)), max_paths=20000))
    return ts


META = dict(
    bounds="runs of up to 0.8 time units with step sizes in [0.4,1.2] chosen anew at every step (so up to about six steps), up to two symbolic targets anywhere from half a unit "
    "before the start to beyond the end (unsorted, equal, past), a second call continuing the run, step counts 0 and 3; IEEE runs: all doubles in [0,2], up to two targets nearer than the step size",
    how="step sizes, start, end and targets are symbolic; every feasible order of events is a path; times, snapshots and counts are compared with the statement on each path. The "
    "landing on targets is also decided bit-precisely in IEEE double arithmetic (floating-point theory).",
    assumptions=["real arithmetic in place of IEEE rounding except in the IEEE configurations", "positive step sizes bounded below"],
    wall_quick=400,
)
