"""
Runs the harnesses of one property: per configuration, a forked child executes /repo's code
symbolically and discharges the obligations; another forked child, with unpatched numpy, replays
counterexamples and validates the encoding at a random input.
"""

import importlib
import io
import json
import multiprocessing as mp
import os
import sys
import time

from symx.wall import now
import traceback
from fractions import Fraction

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
mp_ctx = mp.get_context("fork")


def preload():
    os.environ.setdefault("MPLBACKEND", "Agg")
    import matplotlib.pyplot  # noqa
    import numpy  # noqa
    import scipy.ndimage  # noqa
    import tqdm  # noqa
    import z3  # noqa


class Task:
    def __init__(self, harness, config, budget=60, expand=24, max_paths=256, hard=None, eq_tol=None, round_bits=0):
        self.harness = harness  # function name in the property module
        self.config = config
        self.budget = budget  # solver seconds per obligation group
        self.expand = expand
        self.max_paths = max_paths
        self.hard = hard  # wall limit of the symbolic child
        self.eq_tol = eq_tol
        self.round_bits = round_bits  # significant bits kept of very long rational coefficients (equalities then to eq_tol)

    def name(self):
        return self.harness + "(" + ", ".join(f"{k}={v!r}" for k, v in self.config.items()) + ")"


# ---------------------------------------------------------------- children
def _track_functions():
    """record every fvhoe function entered (sys.monitoring; negligible cost)"""
    seen = set()
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "symx")
    except ValueError:
        return seen

    def cb(code, off):
        if code.co_filename.startswith(REPO):
            seen.add(os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)
    return seen


def _quiet():
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()


def _setup_symbolic():
    from symx import arr

    arr.install()
    import fvhoe.solver  # noqa
    import fvhoe.visualization  # noqa
    import fvhoe.initial_conditions  # noqa

    arr.shim_builtins()
    return arr


def _child(fn, conn, args):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(200000)
    import threading

    threading.stack_size(1 << 29)
    res = {}

    def go():
        try:
            res["r"] = fn(*args)
        except BaseException as e:  # noqa
            res["r"] = dict(error=f"{type(e).__name__}: {e}", tb=traceback.format_exc())

    err = sys.stderr
    _quiet()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        conn.send(res["r"])
    except Exception as e:
        err.write(f"send failed {e}\n")
        conn.send(dict(error=f"send failed {e}", tb=""))
    conn.close()
    os._exit(0)


def concrete_run(modname, harness, config, env, seed, fill, reps=1):
    """real code, floats, unpatched numpy (np.empty pre-filled with a fixed value: any content is legal)"""
    import random

    import numpy as np

    random.seed(seed)
    np.random.seed(seed % 2**32)
    if fill is not None:
        _fill_empty(np, fill)
    np.seterr(all="ignore")
    mod = importlib.import_module(modname)
    from symx.harness import AssumeFailed, ConCtx

    last = None
    first = None
    done = 0
    t0 = now()
    for k in range(2000 if env is None else 1):
        if k > 60 + reps and now() - t0 > 4:
            break
        ctx = ConCtx(env, seed + 1000 * k, fill)
        try:
            getattr(mod, harness)(ctx, **config)
        except AssumeFailed:
            last = "assume"
            continue
        except Exception as e:
            tb = traceback.format_exc()
            return dict(
                raised=f"{type(e).__name__}: {e}", tb=tb, env=ctx.used, failures=ctx.failures, seen=[], n=ctx.n_checks
            )
        r = dict(raised=None, env=ctx.used, failures=ctx.failures, seen=ctx.seen, n=ctx.n_checks)
        if ctx.failures:
            return r
        first = first or r
        done += 1
        if done >= reps or now() - t0 > 10:
            return first
    return first or dict(raised=None, assume_failed=last, env={}, failures=[], seen=[], n=0)


def _fill_empty(np, fill):
    orig_e, orig_el, orig_pad = np.empty, np.empty_like, np.pad

    def ours():
        return sys._getframe(2).f_globals.get("__name__", "").startswith("fvhoe")

    def empty(*a, **k):
        r = orig_e(*a, **k)
        if ours() and r.dtype.kind == "f":
            r.fill(fill)
        return r

    def empty_like(*a, **k):
        r = orig_el(*a, **k)
        if ours() and r.dtype.kind == "f":
            r.fill(fill)
        return r

    def pad(array, pad_width, mode="constant", **kw):
        if mode == "empty" and ours():
            return orig_pad(array, pad_width, mode="constant", constant_values=fill)
        return orig_pad(array, pad_width, mode=mode, **kw)

    np.empty, np.empty_like, np.pad = empty, empty_like, pad


def symbolic_run(modname, task, val_env, val_seen, deadline):
    t_start = now()
    arr = _setup_symbolic()
    funcs = _track_functions()
    from symx import explore, expr as E, smt
    from symx.harness import SymCtx

    mod = importlib.import_module(modname)
    E.set_expand(task.expand)
    E.ROUND_BITS[0] = task.round_bits
    sys.set_int_max_str_digits(0)
    out = dict(
        obligations=0, discharged=0, undecided=[], cex=[], paths=0, mismatches=[], validated=0, samples=[], error=None
    )

    def feas(assume, b):
        return smt.feasible(assume, b, 1.5)

    def body():
        ctx = SymCtx()
        arr.ACTIVE[0] = True
        try:
            getattr(mod, task.harness)(ctx, **task.config)
        finally:
            arr.ACTIVE[0] = False
        return ctx

    try:
        for ctx, pc, assume in explore.run_paths(body, feas, task.max_paths, deadline):
            out["paths"] += 1
            A = assume + list(arr.ROUND_ASSUME) + pc
            _validate(E, out, ctx, pc, val_env, val_seen)
            _discharge(E, smt, task, ctx, A, out, deadline)
            if len(out["cex"]) >= 6:
                break
    except (E.Unsupported, explore.PathLimit, MemoryError, RecursionError) as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["tb"] = traceback.format_exc()
    except Exception as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["tb"] = traceback.format_exc()
        out["code_raised"] = True
    out["functions"] = sorted(funcs)
    out["stats"] = smt.STATS
    out["explore"] = dict(explore.ST.stats)
    out["terms"] = dict(atoms=len(E.ATOMS), monomials=len(E.MONOS), conditions=len(E.BNODES))
    out["wall"] = now() - t_start
    return out


def _validate(E, out, ctx, pc, env, seen):
    """the encoding evaluated at env must agree with the concrete execution at env"""
    if env is None or not ctx.seen:
        return
    memo = {}
    full = dict(env)
    try:
        if not all(E.evaluate(b, full, memo) for b in pc):
            return
    except KeyError:
        return
    conc = {}
    for label, a in seen:
        conc.setdefault(label, a)
    for label, a in ctx.seen:
        c = conc.get(label)
        if c is None:
            continue
        import numpy as np

        if c.shape != a.shape:
            out["mismatches"].append(f"{label}: shape {a.shape} vs {c.shape}")
            continue
        scale = np.nanmax(np.abs(np.where(np.isfinite(c), c, 0))) if c.size else 0
        for i in np.ndindex(*a.shape):
            v = a[i]
            if getattr(v, "taint", False):
                continue
            try:
                x = float(E.evaluate(v, full, memo))
            except KeyError:
                continue
            y = float(c[i])
            if (x != x) and (y != y) or x == y:
                out["validated"] += 1
                continue
            if not abs(x - y) <= 1e-7 + 1e-6 * max(abs(y), scale):
                out["mismatches"].append(f"{label}{list(i)}: encoding {x!r}, real code {y!r}")
            else:
                out["validated"] += 1


def _rename_garbage(E, smt, s):
    """copy of s in which every uninitialised value is replaced by a different unknown"""
    at, _ = E.atoms_of([s])

    class R(smt.Subst):
        def atom(self, a):
            x = E.ATOMS[a]
            if x.kind == "var" and x.taint:
                return E.var(x.data[0] + "'", taint=True)
            return super().atom(a)

        def b(self, b):
            if b.kind == "const" or not b.taint:
                return b
            return super().b(b)

    r = R({})
    return r.b(s) if isinstance(s, E.B) else r.s(s)


def _discharge(E, smt, task, ctx, A, out, deadline):
    eqs, rest = [], []
    A = list(A)
    for ob in ctx.obs:
        out["obligations"] += 1
        if ob[1] == "lemma":
            # in order: each one may rest on those before it
            if ob[2] is E.TRUE or smt.decide_bool(A, ob[2], min(task.budget, 30)) == "unsat":
                out["discharged"] += 1
                if ob[2] is not E.TRUE:
                    A.append(ob[2])
            else:
                out["undecided"].append((ob[0], "intermediate claim not proved"))
            continue
        if ob[1] == "det":
            v = ob[2]
            if isinstance(v, float):
                rest.append((ob[0], "bool", E.FALSE, None, None))
                continue
            if not v.taint:
                eqs.append((ob[0], "eq", E.lift(v), E.lift(v), None))
            else:
                w = _rename_garbage(E, smt, v)
                eqs.append((ob[0], "eq", E.lift(v), E.lift(w), None))
            continue
        (eqs if ob[1] == "eq" else rest).append(ob)
    # equalities: one batched query over the linear abstraction
    left = []
    if eqs:
        t0 = now()
        chunk = 400
        for k in range(0, len(eqs), chunk):
            part = eqs[k : k + chunk]
            r, _ = smt.query([], [("ne", o[2], o[3]) for o in part], 0, 30)
            if r == "unsat":
                out["discharged"] += len(part)
            else:
                # find the individually failing ones
                for o in part:
                    if o[2].t == o[3].t:
                        r, _ = smt.query([], [("ne", o[2], o[3])], 0, 10)
                        if r == "unsat":
                            out["discharged"] += 1
                            continue
                    left.append(o)
        if not out["samples"]:
            o = eqs[len(eqs) // 2]
            out["samples"].append(
                dict(obligation=o[0], kind="equality", lhs=repr(o[2])[:300], rhs=repr(o[3])[:300],
                     assumptions=len(A), verdict="see counts", s=round(now() - t0, 3))
            )
    taut = [o for o in rest if o[2] is E.TRUE]
    rest2 = [o for o in rest if o[2] is not E.TRUE]
    out["discharged"] += len(taut)
    if taut and len(taut) == len(rest) and not eqs and not out["samples"]:
        out["samples"].append(dict(obligation=taut[0][0], kind="condition", note="true in normal form"))
    n_fail = 0
    points = []
    for o in left + rest2:
        if now() > deadline:
            out["undecided"].append((o[0], "time limit"))
            continue
        if n_fail >= 3:
            out["undecided"].append((o[0], "not attempted after counterexamples in this configuration"))
            continue
        t0 = now()
        b = min(task.budget, max(1.0, deadline - now()))
        refute = lambda: _point_refutation(E, smt, A, o, ctx, points)  # noqa
        if o[1] == "eq":
            r = "unknown"
            if task.round_bits:
                r = smt.tiny_residual(A, o[2] - o[3], o[4] if o[4] is not None else (task.eq_tol or 1e-9))
            if r != "unsat":
                r = smt.decide_eq(A, o[2], o[3], b, refute)
            if r != "unsat":
                # up to rounding: |lhs - rhs| <= tol on the bounded domain?
                tol = E.const(o[4] if o[4] is not None else (task.eq_tol or 1e-9))
                d = o[2] - o[3]
                claim = E.band(E.ge0(tol - d), E.ge0(tol + d))
                r2 = None
                if isinstance(r, tuple) or _small_const(d):
                    r2 = smt.decide_bool(A, claim, min(20, b))
                if r2 == "unsat":
                    r = "unsat"
                elif isinstance(r2, tuple):
                    for marg in (1e-2, 1e-5):
                        m = E.const(marg)
                        r3 = smt.decide_bool(A, E.band(E.ge0(m - d), E.ge0(m + d)), min(5, b))
                        if isinstance(r3, tuple):
                            r2 = r3
                            break
                    r = r2
        else:
            r = smt.decide_bool(A, o[2], b, refute)
            if isinstance(r, tuple) and o[3] is not None and o[3][0] == "le":
                x, y = E.lift(o[3][1]), E.lift(o[3][2])
                if isinstance(x, E.S) and isinstance(y, E.S):
                    tol = E.const(o[4] if o[4] is not None else 1e-9)
                    r2 = smt.decide_bool(A, E.ge0(y + tol - x), min(20, b))
                    if r2 == "unsat":
                        r = "unsat"
                    elif isinstance(r2, tuple):
                        r = r2
                        for marg in (1e-2, 1e-5):
                            r3 = smt.decide_bool(A, E.ge0(y + E.const(marg) - x), min(5, b))
                            if isinstance(r3, tuple):
                                r = r3
                                break
        if r == "unsat":
            out["discharged"] += 1
            if len(out["samples"]) < 3:
                out["samples"].append(
                    dict(obligation=o[0], kind=o[1], lhs=repr(o[2])[:300], rhs=repr(o[3])[:300] if o[1] == "eq" else None,
                         assumptions=len(A), verdict="unsat", s=round(now() - t0, 3))
                )
        elif isinstance(r, tuple):
            n_fail += 1
            out["cex"].append((o[0], {k: (v if isinstance(v, bool) else str(v)) for k, v in r[1].items()}))
        else:
            env = _seeded_refutation(E, smt, A, o, min(10, b))
            if env is not None:
                n_fail += 1
                out["cex"].append((o[0], env))
            else:
                out["undecided"].append((o[0], "solver returned unknown"))


def _points(E, A, ctx, smt):
    """a few inputs inside the bounds that satisfy the assumptions: drawn, or near a model the solver gives for the assumptions"""
    import random

    rng = random.Random(99)
    names = sorted(ctx.decl.items(), key=lambda kv: kv[0])
    box = {}
    for n, b in names:
        if b != "bool":
            lo = -2.0 if b[0] is None else float(b[0])
            box[n] = (lo, lo + 4.0 if b[1] is None else float(b[1]))
    out = []

    def keep(env):
        memo = {}
        try:
            if all(E.evaluate(b, env, memo) for b in A):
                out.append((env, memo))
        except (KeyError, OverflowError, ZeroDivisionError, E.Unsupported):
            pass

    t_end = now() + 2.0
    for k in range(600):
        if len(out) >= 6 or now() > t_end:
            break
        env = {}
        for n, b in names:
            env[n] = rng.random() < 0.5 if b == "bool" else box[n][0] + (box[n][1] - box[n][0]) * round(rng.uniform(0.02, 0.98), 4)
        keep(env)
    if len(out) < 3:
        r, model = smt.query(A, [], 2, 4)
        if r == "sat":
            t_end = now() + 2.0
            for k in range(400):
                if len(out) >= 6 or now() > t_end:
                    break
                env = {}
                w = (0.3, 0.1, 0.03, 0.01)[k % 4]
                for n, b in names:
                    v = model.get(n, False if b == "bool" else sum(box[n]) / 2)
                    if b == "bool":
                        env[n] = bool(v)
                    else:
                        lo, hi = box[n]
                        env[n] = min(hi, max(lo, float(v) + (hi - lo) * w * round(rng.uniform(-1, 1), 4)))
                keep(env)
    return out


def _point_refutation(E, smt, A, o, ctx, points):
    """candidate counterexample for an obligation not closed by the first query: the encoding is evaluated at a few
    points inside the bounds (this can only refute, and a refutation is replayed on the real code)"""
    if not points:
        points.append(_points(E, A, ctx, smt))
    for env, memo in points[0]:
        try:
            if o[1] == "eq":
                x, y = E.evaluate(o[2], env, memo), E.evaluate(o[3], env, memo)
                t = max(1e-6, 10 * (o[4] or 0)) * max(1.0, abs(x), abs(y))
                bad = not abs(x - y) <= t and x == x and y == y
            elif o[3] is not None and o[3][0] == "le":
                x, y = E.evaluate(E.lift(o[3][1]), env, memo), E.evaluate(E.lift(o[3][2]), env, memo)
                t = max(1e-6, 10 * (o[4] or 0)) * max(1.0, abs(x), abs(y))
                bad = x > y + t
            else:
                bad = not E.evaluate(o[2], env, memo)
        except (KeyError, OverflowError, ZeroDivisionError, E.Unsupported):
            continue
        if bad:
            return {n: (v if isinstance(v, bool) else str(Fraction(v))) for n, v in env.items()}
    return None


def _small_const(d):
    return d.is_const()


def _seeded_refutation(E, smt, A, o, budget):
    """undecided over all inputs: ask again with all but a few inputs fixed (can only refute)"""
    import random

    terms = [o[2]] + ([o[3]] if o[1] == "eq" else []) + A
    at, _ = E.atoms_of(terms)
    names = sorted(a.data[0] for a in at if a.kind == "var")
    bounds = {}
    for b in A:
        if b.kind == "ge" and len(b.data[0].t) <= 2:
            s = b.data[0]
            ms = [m for m in s.t if m]
            if len(ms) == 1 and len(E.MONOS[ms[0]]) == 1 and E.MONOS[ms[0]][0][1] == 1:
                a = E.ATOMS[E.MONOS[ms[0]][0][0]]
                if a.kind == "var":
                    k, c = s.t[ms[0]], s.t.get(0, 0)
                    lo, hi = bounds.get(a.data[0], (-2, 2))
                    if k > 0:
                        lo = float(Fraction(-c) / k)
                    else:
                        hi = float(Fraction(-c) / k)
                    bounds[a.data[0]] = (lo, hi)
    rng = random.Random(12345)
    neg = E.bnot(E.eq0(o[2] - o[3])) if o[1] == "eq" else E.bnot(o[2])
    if o[1] == "eq":
        d = o[2] - o[3]
        m = E.const(1e-4)
        neg = E.bnot(E.band(E.ge0(m - d), E.ge0(m + d)))
    t_end = now() + budget
    for trial in range(6):
        if now() > t_end:
            return None
        free = set(rng.sample(names, min(len(names), trial % 3)))
        fix = []
        env0 = {}
        for n in names:
            if n in free:
                continue
            lo, hi = bounds.get(n, (-2, 2))
            v = round(rng.uniform(lo + 0.05 * (hi - lo), hi - 0.05 * (hi - lo)), 2)
            env0[n] = v
            fix.append(E.eq0(E.var(n) - E.const(v)))
        r, env = smt.query(A + fix, [neg], 2, min(4, budget))
        if r == "sat":
            return {k: (v if isinstance(v, bool) else str(v)) for k, v in env.items()}
    return None


# ---------------------------------------------------------------- parent
class Job:
    def __init__(self, fn, args, limit):
        self.r, w = mp_ctx.Pipe(duplex=False)
        self.p = mp_ctx.Process(target=_child, args=(fn, w, args))
        self.p.start()
        w.close()
        self.t0 = now()
        self.limit = limit
        self.result = None

    def poll(self):
        if self.r.poll(0):
            try:
                self.result = self.r.recv()
            except EOFError:
                self.result = dict(error="child died (memory limit?)", tb="", died=True)
            self.p.join()
            return True
        if not self.p.is_alive():
            if self.r.poll(0.1):
                return self.poll()
            self.result = dict(error="child died", tb="", died=True)
            return True
        if now() - self.t0 > self.limit:
            self.p.kill()
            self.p.join()
            self.result = dict(error=f"time limit {self.limit:.0f}s", tb="", died=True)
            return True
        return False


def _kill(self):
    if self.p.is_alive():
        self.p.kill()
    self.p.join()


Job.kill = _kill


def run_job(fn, args, limit=120):
    j = Job(fn, args, limit)
    while not j.poll():
        time.sleep(0.01)
    return j.result


def _fr(env):
    return {k: (v if isinstance(v, bool) else float(Fraction(v))) for k, v in env.items()}


def replay(modname, task, env, seed):
    """does the real code violate the property at (or near) env?"""
    import random

    tries = []
    base = _fr(env)
    for fill in (7.25e200, -3.5):
        tries.append((base, fill))
    rng = random.Random(seed)
    for k in range(6):
        e = {n: (v if isinstance(v, bool) else v * (1 + rng.uniform(-1e-3, 1e-3)) + rng.uniform(-1e-4, 1e-4)) for n, v in base.items()}
        tries.append((e, 7.25e200))
    for k in range(4):
        tries.append((None, 7.25e200))
    dets = {}
    for n, (e, fill) in enumerate(tries):
        r = run_job(concrete_run, (modname, task.harness, task.config, e, seed + n, fill))
        if r.get("error"):
            continue
        if r["failures"]:
            return dict(env=r["env"], failures=r["failures"][:5], fill=fill, seed=seed + n)
        if r["raised"]:
            return dict(env=r["env"], failures=[("exception", r["raised"], "")], fill=fill, seed=seed + n, tb=r["tb"])
        if n < 2:
            for label, a in r["seen"]:
                if label.startswith("det:"):
                    dets.setdefault(label, []).append(a)
    import numpy as np

    for label, vs in dets.items():
        if len(vs) == 2 and vs[0].shape == vs[1].shape and not np.allclose(vs[0], vs[1], rtol=1e-9, atol=1e-9):
            return dict(env=base, failures=[(label, "result depends on uninitialised memory", "")], fill=7.25e200, seed=seed)
    return None


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def _matches(k, task, label):
    if k.get("harness") and k["harness"] != task.harness:
        return False
    for a, b in k.get("config", {}).items():
        if json.dumps(task.config.get(a)) != json.dumps(b):
            return False
    if k.get("label") and not label.startswith(k["label"]):
        return False
    return True


def run_property(prop, modname, tasks, tier, seed, meta, wall_limit, jobs=8):
    preload()
    t0 = now()
    deadline = t0 + wall_limit
    running = []
    pending = list(range(len(tasks)))
    violations, errors, known_hits, undecided = [], [], [], []
    known = known_findings(prop)
    cov = dict(obligations=0, discharged=0, paths=0, queries=0, unsat=0, sat=0, unknown=0, validated=0)
    tot = dict(solver_s=0.0)
    functions = set()
    samples = []
    by_level = {}
    per_config = []
    reps = 6 if tier == "quick" else 20
    fallback = {}

    def on_concrete(i, v):
        t = tasks[i]
        if v.get("error"):
            errors.append((t.name(), "concrete run: " + v["error"] + "\n" + v.get("tb", "")))
            return None, []
        if v["failures"] or v["raised"]:
            f = v["failures"][:5] or [("exception", v["raised"], "")]
            hit = dict(env=v["env"], failures=f, fill=None, seed=seed, tb=v.get("tb"))
            if _known(t, hit, known, known_hits):
                return "known", []
            fallback[i] = hit  # the solver gets a chance to produce its own counterexample
            return None, []
        if v.get("assume_failed"):
            undecided.append((t.name(), "no input satisfying the assumptions was found (vacuity guard)"))
            return None, []
        return v["env"], v["seen"]

    def on_symbolic(i, r):
        t = tasks[i]
        for k in ("obligations", "discharged", "paths", "validated"):
            cov[k] += r.get(k, 0)
        st = r.get("stats") or {}
        for k in ("queries", "unsat", "sat", "unknown"):
            cov[k] += st.get(k, 0)
        for k, n in (st.get("by_level") or {}).items():
            by_level[k] = by_level.get(k, 0) + n
        tot["solver_s"] += st.get("solver_s", 0.0)
        functions.update(r.get("functions", []))
        for s in r.get("samples", []):
            samples.append(dict(config=t.name(), **s))
        per_config.append(
            dict(config=t.name(), obligations=r.get("obligations", 0), discharged=r.get("discharged", 0),
                 paths=r.get("paths", 0), queries=st.get("queries", 0), wall_s=round(r.get("wall", 0), 2))
        )
        if r.get("cex"):
            for label, env in r["cex"]:
                hit = replay(modname, t, env, seed)
                if hit:
                    hit["label"] = label
                    hit["source"] = "solver counterexample"
                    _report(prop, t, hit, known, violations, known_hits)
                    return
            errors.append((t.name(), f"counterexample for {r['cex'][0][0]} does not reproduce on the real code: {r['cex'][0][1]}"))
        if r.get("error"):
            hit = replay(modname, t, {}, seed)
            if hit:
                _report(prop, t, hit, known, violations, known_hits)
            else:
                errors.append((t.name(), r["error"] + "\n" + r.get("tb", "")))
            return
        if r.get("mismatches"):
            errors.append((t.name(), "encoding differs from the real code: " + "; ".join(r["mismatches"][:3])))
        if r.get("undecided"):
            hit = replay(modname, t, {}, seed)
            if hit:
                _report(prop, t, hit, known, violations, known_hits)
                return
            undecided.extend((t.name() + " " + a, b) for a, b in r["undecided"])
        if r.get("obligations", 0) == 0:
            errors.append((t.name(), "no obligation was generated"))

    # one concrete execution per configuration first (vacuity guard, encoding validation), then the symbolic one
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            t = tasks[i]
            running.append((i, "con", Job(concrete_run, (modname, t.harness, t.config, None, seed, None, reps), 150)))
        done = [x for x in running if x[2].poll()]
        running = [x for x in running if x not in done]
        for i, kind, j in done:
            t = tasks[i]
            if kind == "con":
                env, seen = on_concrete(i, j.result)
                if env == "known":
                    continue
                lim = t.hard or (240.0 if tier == "quick" else max(30.0, deadline - now()))
                lim = min(lim, max(10.0, deadline - now()))
                if i in fallback:
                    lim = min(lim, 30.0)
                running.append(
                    (i, "sym", Job(symbolic_run, (modname, t, env, seen, now() + lim * 0.92), lim))
                )
            else:
                on_symbolic(i, j.result)
                if i in fallback and not violations:
                    _report(prop, t, fallback[i], known, violations, known_hits)
        if violations:
            for _, _, j in running:
                j.kill()
            break
        time.sleep(0.005)
    solver_s = tot["solver_s"]
    wall = now() - t0
    status = "violated" if violations else ("error" if errors or undecided else "held")
    bounds = meta.get("bounds", "")
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="other",
        coverage=dict(
            explanation=(
                "Bounded solver-based checking of the real code: /repo's functions were executed by CPython on symbolic "
                "reals/booleans, one SMT obligation per claimed relation, each decided for all values within the bounds. "
                + meta.get("how", "")
            ),
            bounds=bounds,
            functions_encoded=sorted(functions),
            configurations=len(tasks),
            obligations=cov["obligations"],
            discharged=cov["discharged"],
            paths=cov["paths"],
            solver_queries=cov["queries"],
            unsat=cov["unsat"],
            sat=cov["sat"],
            unknown=cov["unknown"],
            queries_by_encoding=by_level,
            solver_seconds=round(solver_s, 3),
            encoding_values_compared_with_real_code=cov["validated"],
            undecided=undecided[:20],
            not_explored=[(n, e[:300]) for n, e in errors][:20],
            samples=samples[:: max(1, len(samples) // 12)][:12],
            per_configuration=per_config[:400],
            status=status,
        ),
        assumptions=meta.get("assumptions", []),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for k in known_hits:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(
        f"{prop} [{tier}] {len(tasks)} configurations, {cov['discharged']}/{cov['obligations']} obligations discharged, "
        f"{cov['queries']} queries ({cov['unsat']} unsat, {cov['sat']} sat, {cov['unknown']} unknown), "
        f"solver {solver_s:.1f}s, wall {wall:.1f}s"
    )
    if violations:
        for path, why in violations[:5]:
            print(f"  {why}")
        for path, why in violations[:1]:
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    for n, e in errors[:6]:
        print("ERROR", n, e[:200], "...", e[-700:])
    for n, e in undecided[:6]:
        print("UNDECIDED", n, e)
    if errors or undecided:
        # what was explored held; what could not be explored is reported here and in the evidence (status "error"). With
        # nothing explored there is no answer.
        if not cov["discharged"]:
            return 2
    return 0


def _known(t, hit, known, known_hits):
    label = str(hit["failures"][0][0])
    for k in known:
        if _matches(k, t, label):
            if k["what"] not in known_hits:
                known_hits.append(k["what"])
            return True
    return False


def _report(prop, t, hit, known, violations, known_hits):
    if _known(t, hit, known, known_hits):
        return True
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{len(violations)}.json")
    with open(path, "w") as f:
        json.dump(
            dict(property=prop, harness=t.harness, config=t.config, env=hit["env"], failures=hit["failures"],
                 fill=hit.get("fill"), seed=hit.get("seed"), traceback=hit.get("tb"),
                 source=hit.get("source", "validation input")),
            f, indent=1, default=str,
        )
    fl = hit["failures"][0]
    violations.append((path, f"{t.name()}: {fl[0]} got {fl[1]!r}, expected {fl[2]!r}"))
    return False
