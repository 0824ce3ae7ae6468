"""C26: the timer over arbitrary clock readings and call sequences"""
import importlib
import time as _time

import numpy as np

from symx.runner import Task
from props.common import *

CLOCKS = ("time", "perf_counter", "monotonic", "process_time", "thread_time")


class clock:
    """replaces the wall clock by given readings while the timer module is (re)loaded and used; time passes between
    the calls (tick), so that it does not matter how often, or whether, a call reads the clock"""

    def __init__(self, ctx, n, prefix="c"):
        self.ctx, self.n, self.prefix = ctx, n, prefix

    def tick(self):
        self.k += 1
        return self.times[self.k]

    def __enter__(self):
        self.saved = {k: getattr(_time, k) for k in CLOCKS}
        ctx = self.ctx
        t = ctx.real(self.prefix + "0", 0, 100)
        self.times = [t]
        for i in range(1, self.n):
            t = t + ctx.real(f"{self.prefix}{i}", 0, 10)
            self.times.append(t)

        self.k = 0

        def read():
            return self.times[self.k]

        for k in CLOCKS:
            setattr(_time, k, read)
        import fvhoe.timer

        self.mod = importlib.reload(fvhoe.timer)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(_time, k, v)
        importlib.reload(self.mod)


def _apply(tm, op, cat):
    """the exception type raised, or None"""
    try:
        getattr(tm, op)(cat)
    except Exception as e:  # noqa
        return type(e)
    return None


def _spec(ctx, total, running, op, cat, now):
    """expected outcome of one call; now is the reading taken if the call is legal"""
    if cat not in total:
        return ValueError
    if op == "start":
        if running[cat] is not None:
            return RuntimeError
        running[cat] = now
        return None
    if running[cat] is None:
        return RuntimeError
    total[cat] = total[cat] + (now - running[cat])
    running[cat] = None
    return None


def _run(ctx, ops, cats=("a", "b")):
    zero = ctx.const(0.0)
    with clock(ctx, len(ops) + 1) as ck:
        tm = ck.mod.Timer(cats=list(cats))
        total, running = {c: zero for c in cats}, {c: None for c in cats}
        for k, (op, cat) in enumerate(ops):
            now = ck.tick()
            err = _apply(tm, op, cat)
            want = _spec(ctx, total, running, op, cat, now)
            ctx.true(f"outcome {k}", err is want)
            for c in cats:
                ctx.eq(f"total {c} after {k}", tm.cum_time[c] + zero, total[c])
                ctx.le(f"non-negative {c} after {k}", zero, tm.cum_time[c] + zero)
        ctx.true("categories", tuple(tm.cum_time) == tuple(cats) and tuple(tm.to_dict()) == tuple(cats))


MENU = [("start", "a"), ("stop", "a"), ("start", "b"), ("stop", "b")]


def symbolic_calls(ctx, length, prefix):
    """every call sequence: the k-th call is chosen by two symbolic booleans"""
    ops = [MENU[i] for i in prefix]
    for k in range(length - len(prefix)):
        i = 2 * bool(ctx.boolean(f"o{k}")) + bool(ctx.boolean(f"p{k}"))
        ops.append(MENU[i])
    _run(ctx, ops)


def misuse(ctx, ops):
    _run(ctx, [tuple(o) for o in ops])


def adding(ctx):
    """new categories start at zero, existing ones cannot be added again, totals survive"""
    with clock(ctx, 4) as ck:
        tm = ck.mod.Timer("a")
        t0 = ck.tick()
        tm.start("a")
        tm.add_cat("b")
        ck.tick()
        tm.add_cat(["c", "d"])
        t1 = ck.tick()
        tm.stop("a")
        d = t1 - t0
        for again in ("a", ["e", "b"]):
            try:
                tm.add_cat(again)
                ok = False
            except ValueError:
                ok = True
            ctx.true(f"rejected {again}", ok)
        ctx.eq("a", tm.cum_time["a"], d)
        for c in "bcd":
            ctx.eq(c, tm.cum_time[c] + ctx.const(0.0), 0.0)
            ctx.true(f"unstarted {c}", _apply(tm, "stop", c) is RuntimeError)


def report(ctx, seconds, precision):
    """the report and the dictionary show the accumulated time of each category"""
    with clock(ctx, 1) as ck:
        tm = ck.mod.Timer(["first", "the second one"], precision=precision)
    tm.cum_time["first"] = seconds
    tm.cum_time["the second one"] = seconds * 10
    rows = tm.report().splitlines()
    want = {"first": seconds, "the second one": seconds * 10}
    for c, t in want.items():
        line = [r for r in rows if r.startswith(c + " ")]
        ctx.true(f"row {c}", len(line) == 1 and line[0].split()[-1] == f"{t:.{precision}f}")
        ctx.true(f"dict {c}", float(tm.to_dict()[c]) == round(t, precision))
    x = ctx.real("x", 0, 1)
    ctx.eq("x", x, x)


def released(ctx, p, kw, how):
    """after a step every category has been stopped: it can be started again, and cannot be stopped"""
    n = (8, 1, 1)
    u = fixed(ctx, (5,) + n, 3)
    u[4] = ctx.array("E", n, 2, 4)
    s = make_solver(u, p=(p, 0, 0), riemann_solver="advection_upwind", fixed_dt=0.01, **kw)
    getattr(s, how)(T=0.015)
    for c in s.timer.cats:
        ctx.true(f"idle {c}", _apply(s.timer, "stop", c) is RuntimeError)
        ctx.true(f"total {c}", s.timer.cum_time[c] >= 0)


def tasks(tier):
    ts = []
    L = 5 if tier == "quick" else 7
    for i in range(4):
        for j in range(4):
            ts.append(Task("symbolic_calls", dict(length=L, prefix=(i, j)), max_paths=5000))
    ts.append(Task("misuse", dict(ops=[["start", "zz"], ["start", "a"], ["stop", "zz"], ["start", "a"], ["stop", "b"], ["stop", "a"], ["stop", "a"], ["start", "a"], ["stop", "a"]])))
    ts.append(Task("misuse", dict(ops=[["start", "a"], ["start", "b"], ["start", "b"], ["stop", "a"], ["start", "a"], ["stop", "b"], ["stop", "b"], ["stop", "a"], ["start", "b"], ["stop", "b"]])))
    ts.append(Task("adding", {}))
    for sec, pr in ((1.23456, 2), (12345.678, 1), (0.0, 3)):
        ts.append(Task("report", dict(seconds=sec, precision=pr)))
    ts.append(Task("released", dict(p=0, kw={}, how="euler"), round_bits=120))
    ts.append(Task("released", dict(p=2, kw={}, how="ssprk3"), round_bits=120))
    ts.append(Task("released", dict(p=1, kw=dict(a_posteriori_slope_limiting=True, NAD_vars=("rho",), SED=False, PAD={}), how="ssprk2"), round_bits=120))
    return ts


META = dict(
    bounds="every sequence of five (thorough: seven) start/stop calls on two categories, fixed sequences of up to ten calls with unknown categories, arbitrary non-decreasing clock "
    "readings; timers of a solver after a run",
    how="the clock is replaced by symbolic non-decreasing readings and the calls are chosen by symbolic booleans; after every call the totals are compared with the sum of the closed intervals.",
    assumptions=["the clock is read through the time module", "real arithmetic in place of IEEE rounding"],
)
