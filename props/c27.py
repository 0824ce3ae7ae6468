"""C27: saved results survive unless overwriting was asked for (all file operations land in an in-memory stand-in)"""
import numpy as np

from symx.runner import Task
from props.common import *

RUN = "/vfs/results/run"


def _solver(ctx, tag, kw=None):
    u = fixed(ctx, (5, 3, 1, 1), 3)
    u[4] = ctx.array(f"E{tag}", (3, 1, 1), 2, 4)
    from fvhoe.solver import EulerSolver

    base = dict(riemann_solver="advection_upwind", fixed_dt=0.02, gamma=ctx.frac(7, 5) if ctx.symbolic else 1.4)
    kw = dict(kw or {})
    if kw.pop("plain", False):
        from fvhoe.initial_conditions import InitialCondition

        class Given(InitialCondition):
            def base_ic(self):
                return lambda x, y, z: u[:5] + 0 * x

        return EulerSolver(w0=Given(), nx=3, conservative_ic=True, progress_bar=False, **base, **kw), u
    return make_solver(u, **base, **kw), u


def _put(fs, ctx, old):
    """an earlier run's directory, with a stray file of the user's in it"""
    import pickle

    fs.dirs |= {"/vfs/results", RUN, RUN + "/sub"}
    fs.files[RUN + "/arrs.pkl"] = ("pickle", old) if ctx.symbolic else pickle.dumps(old)
    fs.files[RUN + "/attrs.json"] = b"{}"
    fs.files[RUN + "/sub/notes.txt"] = b"mine"


def _bystanders(fs):
    fs.dirs |= {"/vfs/results", "/vfs/results/run2", "/vfs/other"}
    fs.files["/vfs/results/keep.txt"] = b"1"
    fs.files["/vfs/results/run2/arrs.pkl"] = b"2"
    fs.files["/vfs/other/arrs.pkl"] = b"3"


def _same(ctx, label, a, b):
    ctx.true(f"{label} count", len(a) == len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.true(f"{label} keys {i}", set(x) == set(y))
        for k in x:
            ctx.eq(f"{label} {i} {k}", x[k], y[k])


def _old(ctx):
    return [{"t": 0.25, "w": np.full((5, 2, 1, 1), 4.0)}, {"t": 0.5, "w": np.full((5, 2, 1, 1), 5.0)}]


def _saved(ctx, fs):
    import pickle

    v = fs.files.get(RUN + "/arrs.pkl")
    if ctx.symbolic:
        return v[1] if isinstance(v, tuple) and v[0] == "pickle" else None
    return pickle.loads(v) if v else None


def _times(ctx, s):
    ctx.true("one time per snapshot", len(s.snapshot_times) == len(s.snapshots))
    for k, (t, q) in enumerate(zip(s.snapshot_times, s.snapshots)):
        ctx.eq(f"time {k}", t, q["t"])


def lifecycle(ctx, how, spelled, kw, mode="T"):
    from symx.vfs import VFS

    exists, overwrite, given = (bool(ctx.boolean(k)) for k in ("exists", "overwrite", "given"))
    s, u = _solver(ctx, "", kw)
    old = _old(ctx)
    with VFS(ctx.symbolic) as fs:
        _bystanders(fs)
        if exists:
            _put(fs, ctx, old)
        before = fs.tree()
        d = dict(snapshot_dir=spelled) if given else {}
        go = dict(T=0.03) if mode == "T" else dict(n=2)
        getattr(s, how)(overwrite=overwrite, **go, **d)
        after = fs.tree()
        ops = list(fs.ops)
        saved = _saved(ctx, fs)
        new = fs.under(RUN)
    outside = lambda t: ({x for x in t[0] if x != RUN and not x.startswith(RUN + "/")}, {k: v for k, v in t[1].items() if not k.startswith(RUN + "/")})  # noqa
    b, a = outside(before), outside(after)
    ctx.true("others untouched", a[1] == b[1] and b[0] <= a[0] and a[0] - b[0] <= {"/vfs/results"})
    ctx.true("only inside", all(p == RUN or p.startswith(RUN + "/") or (k == "mkdir" and RUN.startswith(p)) for k, p in ops))
    if not given or mode == "n":
        ctx.true("nothing written", not ops and before == after)
        ctx.true("ran", s.step_count == 2)
        ctx.eq("kept nothing else", s.snapshot_times[0], 0.0)
        return
    if exists and not overwrite:
        ctx.true("nothing written", not ops and before == after)
        ctx.true("no step", s.step_count == 0 and s.f_evaluation_count == 0)
        ctx.eq("state", s.am("u"), u)
        ctx.eq("time", s.t, 0.0)
        _same(ctx, "loaded", s.snapshots, old)
        _times(ctx, s)
        return
    ctx.true("ran", s.step_count == 2)
    ctx.true("snapshots", len(s.snapshots) == 2)
    ctx.true("old files gone", "sub/notes.txt" not in new and RUN + "/sub" not in after[0])
    ctx.true("complete", {"arrs.pkl", "attrs.json", "timing.txt"} <= set(new) and all(v != b"" for v in new.values()))
    ctx.true("results saved", saved is not None)
    _same(ctx, "saved", saved, s.snapshots)
    if not exists or not overwrite:
        ctx.true("nothing deleted", all(k != "delete" for k, _ in ops))


def reload(ctx, how):
    """a second run pointed at the same directory gets the first run's snapshots; overwriting replaces them"""
    from symx.vfs import VFS

    a, _ = _solver(ctx, "a")
    b, ub = _solver(ctx, "b")
    c, _ = _solver(ctx, "c")
    overwrite = bool(ctx.boolean("overwrite"))
    with VFS(ctx.symbolic) as fs:
        fs.dirs |= {"/vfs/results"}
        getattr(a, how)(T=0.02, snapshot_dir=RUN)
        first = fs.tree()
        getattr(b, how)(T=0.04, snapshot_dir="results/run", overwrite=overwrite)
        second = fs.tree()
        getattr(c, how)(T=0.02, snapshot_dir=RUN)
        third = fs.tree()
    if overwrite:
        ctx.true("b ran", b.step_count == 2)
        _same(ctx, "c reads b", c.snapshots, b.snapshots)
        _times(ctx, c)
    else:
        ctx.true("directory unchanged", first == second)
        ctx.true("b did not run", b.step_count == 0)
        ctx.eq("b state", b.am("u"), ub)
        _same(ctx, "b reads a", b.snapshots, a.snapshots)
        _times(ctx, b)
        _same(ctx, "c reads a", c.snapshots, a.snapshots)
    ctx.true("reading changes nothing", second == third)
    ctx.true("c did not run", c.step_count == 0)


def damaged(ctx, how):
    """an existing directory without results is not touched either unless overwriting was asked for"""
    from symx.vfs import VFS

    s, u = _solver(ctx, "")
    with VFS(ctx.symbolic) as fs:
        _bystanders(fs)
        fs.dirs.add(RUN)
        fs.files[RUN + "/thesis.tex"] = b"x"
        before = fs.tree()
        try:
            getattr(s, how)(T=0.03, snapshot_dir=RUN)
        except OSError:
            pass
        ctx.true("untouched", fs.tree() == before and not fs.ops)
    ctx.eq("state", s.am("u")[4], u[4]) if s.step_count == 0 else ctx.true("ran", False)


def direct(ctx):
    """writing without permission onto an existing directory is refused"""
    from symx.vfs import VFS

    s, u = _solver(ctx, "")
    s.snapshot()
    overwrite = bool(ctx.boolean("overwrite"))
    with VFS(ctx.symbolic) as fs:
        _bystanders(fs)
        _put(fs, ctx, _old(ctx))
        before = fs.tree()
        s.snapshot_dir = RUN
        try:
            s.write_snapshots(overwrite)
            refused = False
        except FileExistsError:
            refused = True
        after = fs.tree()
    ctx.true("refused", refused == (not overwrite))
    if refused:
        ctx.true("untouched", before == after)
    ctx.eq("state", s.am("u"), u)


def tasks(tier):
    ts = []
    for how in ("euler", "ssprk2", "ssprk3", "rk4", "run"):
        ts.append(Task("lifecycle", dict(how=how, spelled=RUN, kw={}), round_bits=120))
    for sp in ("results/run", "/vfs/results/run/", "/vfs/other/../results/./run", "results//run/"):
        ts.append(Task("lifecycle", dict(how="euler", spelled=sp, kw={}), round_bits=120))
    ts.append(Task("lifecycle", dict(how="euler", spelled=RUN, kw={}, mode="n"), round_bits=120))
    ts.append(Task("lifecycle", dict(how="euler", spelled=RUN, kw=dict(plain=True)), round_bits=120))
    ts.append(Task("reload", dict(how="euler"), round_bits=120))
    ts.append(Task("reload", dict(how="rk4"), round_bits=120))
    ts.append(Task("damaged", dict(how="euler")))
    ts.append(Task("direct", {}))
    return ts


META = dict(
    bounds="all combinations of an existing or absent directory, overwrite flag, directory given or not, every integrator, five spellings of the path, time and step-count mode, one "
    "to three consecutive runs of one or two steps on three cells with symbolic energies",
    how="existence, permission and request are symbolic booleans; all file operations go to an in-memory file system whose every write and deletion is recorded, including those outside the directory.",
    assumptions=["file operations go through os, shutil, open, pickle and json", "pickle and json themselves are trusted (modelled as copies when the values are symbolic)"],
)
