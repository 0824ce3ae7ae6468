"""C25: plots and extracted slices show the requested data"""
import numpy as np

from symx.runner import Task
from props.common import *

NAMES = {"rho": 0, "vx": 1, "vy": 2, "vz": 3, "P": 4, "dye": 5, "ash": 6}


class Rec:
    """stands for a matplotlib Axes: records what it was asked to draw"""

    def __init__(self):
        self.calls = []

    def _add(self, kind, a, k):
        self.calls.append((kind, a, k))
        return ("drawn", len(self.calls))

    def plot(self, *a, **k):
        return self._add("plot", a, k)

    def imshow(self, *a, **k):
        return self._add("imshow", a, k)

    def contour(self, *a, **k):
        return self._add("contour", a, k)

    def get_position(self):
        import types

        return types.SimpleNamespace(x0=0.0, y0=0.0, width=0.1, height=0.1)


class Fig:
    def __init__(self):
        self.bars = []

    def add_axes(self, *a, **k):
        return Rec()

    def colorbar(self, im, **k):
        self.bars.append((im, k))


def _nearest(ctx, grid, q):
    """index of the first grid value nearest to q, as conditions over every index"""
    m = len(grid)
    d = [ctx.abs(grid[i] - q) for i in range(m)]
    return [ctx.land(*([d[i] < d[j] for j in range(i)] + [d[i] <= d[j] for j in range(i + 1, m)] or [d[i] <= d[i]])) for i in range(m)]


def _pick(ctx, conds, vals):
    out = vals[-1]
    for c, v in reversed(list(zip(conds[:-1], vals[:-1]))):
        out = ctx.where(c, v, out)
    return out


def _setup(ctx, n, ns=1, limited=False, axes_sym=False):
    """a real solver whose snapshots hold arbitrary data"""
    u = fixed(ctx, (7,) + n, 61)
    u[1:4] = u[1:4] - 1
    u[4] = u[4] + 2
    s = make_solver(u, p=(0, 0, 0), passives=("dye", "ash"), fixed_dt=0.1, riemann_solver="llf", gamma=ctx.frac(7, 5), x=(0.0, 1.5), y=(-1.0, 1.0), z=(0.0, 2.0))
    ax = {c: getattr(s, c) for c in "xyz"}
    out = []
    for k in range(ns):
        d = dict(ax, t=ctx.real(f"t{k}", 0, 4), w=ctx.array(f"w{k}", (7,) + n, -2, 2))
        if limited:
            nad, pad = ctx.array(f"nad{k}", n, 0, 1), ctx.array(f"pad{k}", n, 0, 1)
            tr = ctx.array(f"tr{k}", n, 0, 1)
            for i in np.ndindex(*n):
                # what a limited run logs: trouble exactly where a violation was seen
                ctx.assume(ctx.lor(ctx.land(tr[i] > 0, nad[i] > 0), ctx.land(tr[i] > 0, pad[i] > 0), ctx.land(tr[i] == 0, nad[i] == 0, pad[i] == 0)))
            d.update({"trouble": tr, "NAD violation magnitude": nad, "PAD violation magnitude": pad})
        out.append(d)
    s.snapshots = out
    return s, ax, out


def _field(ctx, snap, param, i):
    w = snap["w"]
    if param == "v":
        q = [w[(k,) + i] for k in (1, 2, 3)]
        return ctx.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2])
    return w[(NAMES[param],) + i]


def _ask(ctx, ax, free, given):
    """requested coordinates along the axes that are fixed"""
    q = {}
    for c in "xyz":
        if c not in free:
            v = ctx.real("q" + c, -3, 4)
            q[c] = v if given else ctx.const(float(np.asarray(ctx.concrete(ax[c]))[0]))
    return q


def line(ctx, n, free, param, ns=1, t=True, limited=False, mode=None, tol=None):
    """plot_1d_slice"""
    s, ax, snaps = _setup(ctx, n, ns, limited)
    q = _ask(ctx, ax, free, True)
    kw = dict(q)
    if t:
        kw["t"] = ctx.real("tq", -1, 5)
    if mode:
        kw["trouble_mode"] = mode
    if tol:
        tol = ctx.real("tol", 0, 1)
        kw["tol"] = tol
    rec = Rec()
    r = s.plot_1d_slice(rec, param=param, color="k", **kw)
    (kind, a, k), = rec.calls
    ctx.true("drawn", kind == "plot" and r == ("drawn", 1) and k == {"color": "k"} and len(a) == 2)
    ctx.eq("abscissa", a[0], ax[free])
    it = _nearest(ctx, [sn["t"] for sn in snaps], kw["t"]) if t else None
    ia = {c: _nearest(ctx, [ax[c][i] for i in range(len(ax[c]))], q[c]) for c in q}
    others = [c for c in "xyz" if c != free]

    def value(snap, i):
        if param != "trouble":
            return _field(ctx, snap, param, i)
        nad, pad = snap["NAD violation magnitude"][i] > (tol if tol is not None else 0), snap["PAD violation magnitude"][i] > 0
        one, zero = ctx.const(1.0), ctx.const(0.0)
        m = mode or "all"
        return ctx.where(nad, one, zero) if m == "NAD" else ctx.where(pad, one, zero) if m == "PAD" else ctx.where(ctx.lor(nad, pad), one, zero)

    for j in range(n["xyz".index(free)]):
        per = []
        for sn in (snaps if t else snaps[-1:]):
            def at(idx):
                full = [0, 0, 0]
                full["xyz".index(free)] = j
                for c, v in idx.items():
                    full["xyz".index(c)] = v
                return value(sn, tuple(full))

            b, c = others
            per.append(_pick(ctx, ia[b], [_pick(ctx, ia[c], [at({b: x, c: y}) for y in range(len(ax[c]))]) for x in range(len(ax[b]))]))
        ctx.eq(f"value {j}", a[1][j], _pick(ctx, it, per) if t else per[0])


def plane(ctx, n, fixed_axis, param, ns=1, t=False, contour=False, levels=None, limited=False, overlay=None, log=False):
    """plot_2d_slice: right is the first axis, up the second"""
    s, ax, snaps = _setup(ctx, n, ns, limited)
    free = [c for c in "xyz" if c != fixed_axis]
    q = ctx.real("q", -3, 4)
    kw = {fixed_axis: q}
    if t:
        kw["t"] = ctx.real("tq", -1, 5)
    if contour:
        kw["contour"] = True
        if levels is not None:
            kw["levels"] = levels
    if overlay:
        kw["overlay_trouble"] = overlay
        kw["tol"] = ctx.real("tol", 0, 1)
    if log:
        kw.update(log=True, log_vmin=0.25, log_vmax=3.0)
    rec = Rec()
    r = s.plot_2d_slice(rec, param=param, alpha=0.5, **kw)
    (kind, a, k), = rec.calls
    ctx.true("drawn", kind == ("contour" if contour else "imshow") and r == ("drawn", 1) and k.get("alpha") == 0.5)
    H, V = (ax[c] for c in free)
    nh, nv = len(H), len(V)
    Z = a[2] if contour else a[0]
    ctx.true("shape", tuple(Z.shape) == (nv, nh))
    if contour:
        for c in range(nh):
            for r_ in range(nv):
                ctx.eq(f"X {r_},{c}", a[0][r_, c], H[c])
                ctx.eq(f"Y {r_},{c}", a[1][r_, c], V[nv - 1 - r_])
    else:
        e = k["extent"]
        for got, want in zip(e, (H[0], H[-1], V[0], V[-1])):
            ctx.eq("extent", got, want)
        nm = k.get("norm")
        ctx.true("norm", (nm is None) if not log else (type(nm).__name__ == "LogNorm" and nm.vmin == 0.25 and nm.vmax == 3.0))
    it = _nearest(ctx, [sn["t"] for sn in snaps], kw["t"]) if t else None
    ia = _nearest(ctx, [ax[fixed_axis][i] for i in range(len(ax[fixed_axis]))], q)
    key = {"trouble": "trouble", "NAD": "NAD violation magnitude", "PAD": "PAD violation magnitude"}
    vals = []
    for c in range(nh):
        for r_ in range(nv):
            per, flag = [], []
            for sn in (snaps if t else snaps[-1:]):
                def at(m):
                    full = {free[0]: c, free[1]: nv - 1 - r_, fixed_axis: m}
                    i = tuple(full[d] for d in "xyz")
                    return i, (sn[key[param]][i] if param in key else _field(ctx, sn, param, i))

                per.append(_pick(ctx, ia, [at(m)[1] for m in range(len(ax[fixed_axis]))]))
                if overlay:
                    def bad(m):
                        i = at(m)[0]
                        nad, pad = sn[key["NAD"]][i] > kw["tol"], sn[key["PAD"]][i] > 0
                        b = {"NAD": nad, "PAD": pad, "all": ctx.lor(nad, pad)}[overlay]
                        return ctx.where(b, ctx.const(1.0), ctx.const(0.0))

                    flag.append(_pick(ctx, ia, [bad(m) for m in range(len(ax[fixed_axis]))]))
            want = _pick(ctx, it, per) if t else per[0]
            got = Z[r_, c]
            if overlay:
                # cells in trouble are blanked, the others are shown as they are
                f = _pick(ctx, it, flag) if t else flag[0]
                if bool(f > 0):
                    ctx.true(f"blank {r_},{c}", bool(_isnan(got)))
                    continue
                ctx.true(f"shown {r_},{c}", not bool(_isnan(got)))
            ctx.eq(f"value {r_},{c}", got, want)
            vals.append(want)
    if contour and not overlay:
        lv = k["levels"]
        if levels is None or isinstance(levels, int):
            m = 30 if levels is None else levels
            ctx.true("levels", len(lv) == m)
            lo, hi = ctx.minn(*vals), ctx.maxn(*vals)
            for j in range(m):
                ctx.eq(f"level {j}", lv[j], lo + (hi - lo) * ctx.frac(j, m - 1))
        else:
            ctx.true("levels", list(lv) == list(levels))


def _isnan(v):
    try:
        return v != v if isinstance(v, float) else bool(np.isnan(v))
    except TypeError:
        return False


def ring(ctx, n, centre, radii, param, ns=1, t=False):
    """sample_circular_average over cells by distance from the centre"""
    from fvhoe.visualization import sample_circular_average

    s, ax, snaps = _setup(ctx, n, ns)
    kw = {}
    if t:
        kw["t"] = ctx.real("tq", -1, 5)
    if centre == "arbitrary":
        cen = tuple(ctx.real(f"c{k}", -1, 1) for k in "xyz")
    else:
        cen = tuple(ctx.const(v) for v in centre)
    rad = [ctx.real(f"r{i}", 0, 3) for i in range(radii)] if isinstance(radii, int) else [ctx.const(v) for v in radii]
    if isinstance(radii, int):
        for a, b in zip(rad[:-1], rad[1:]):
            ctx.assume(a < b)
    avg, rav = sample_circular_average(s, param, center=cen, radii=ctx.stack(rad), **kw)
    it = _nearest(ctx, [sn["t"] for sn in snaps], kw["t"]) if t else None
    ctx.true("bins", len(avg) == len(rad) - 1 and len(rav) == len(rad) - 1)
    one, zero = ctx.const(1.0), ctx.const(0.0)
    for b in range(len(rad) - 1):
        cnt, sr, sv = zero, zero, zero
        for i in np.ndindex(*n):
            d = [ax["xyz"[k]][i[k]] - cen[k] for k in range(3)]
            R = ctx.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
            inside = ctx.land(R > rad[b], R <= rad[b + 1])
            per = [_field(ctx, sn, param, i) for sn in (snaps if t else snaps[-1:])]
            v = _pick(ctx, it, per) if t else per[0]
            cnt = cnt + ctx.where(inside, one, zero)
            sr = sr + ctx.where(inside, R, zero)
            sv = sv + ctx.where(inside, v, zero)
        if bool(cnt > 0):
            ctx.true(f"not blank {b}", not _isnan(avg[b]) and not _isnan(rav[b]))
            ctx.eq(f"mean {b}", avg[b] * cnt, sv)
            ctx.eq(f"radius {b}", rav[b] * cnt, sr)
        else:
            ctx.true(f"blank {b}", _isnan(avg[b]) and _isnan(rav[b]))


def nearest(ctx, n, ns):
    """get_indices_from_coordinates on its own"""
    from fvhoe.visualization import get_indices_from_coordinates

    s, ax, snaps = _setup(ctx, n, ns)
    q = {c: ctx.real("q" + c, -3, 4) for c in "xyz"}
    tq = ctx.real("tq", -1, 5)
    k, idx = get_indices_from_coordinates(s.snapshots, tq, **q)
    for m in range(ns):
        ctx.le(f"time {m}", ctx.abs(snaps[int(k)]["t"] - tq), ctx.abs(snaps[m]["t"] - tq))
    for c, i in zip("xyz", idx):
        for m in range(len(ax[c])):
            ctx.le(f"{c} {m}", ctx.abs(ax[c][int(i)] - q[c]), ctx.abs(ax[c][m] - q[c]))


def fields(ctx, n, dims):
    """plot_fields: every panel shows its own variable with its own label"""
    import matplotlib.pyplot as plt

    s, ax, snaps = _setup(ctx, n, 1)
    made = {}

    def subplots(*a, **k):
        axs = np.ndarray(a or (1,), dtype=object)
        for i in np.ndindex(*axs.shape):
            axs[i] = Rec()
        if axs.ndim == 2 and axs.shape[0] == 1:
            axs = axs[0]
        made["fig"], made["axs"] = Fig(), axs
        return made["fig"], axs

    old = plt.subplots
    plt.subplots = subplots
    try:
        kw = {c: 0.3 for c in "xyz" if c not in dims}
        s.plot_fields(**kw)
    finally:
        plt.subplots = old
    idx = tuple(slice(None) if c in dims else 0 for c in "xyz")
    snap = snaps[0]

    def whole(param):
        a = [_field(ctx, snap, param, i) for i in np.ndindex(*n)]
        return ctx.stack(a).reshape(n)[idx]

    if len(dims) == 1:
        order = ["rho", "P", "v" + dims]
        axs = list(made["axs"])
    else:
        order = ["rho", "P", "v", "vx", "vy", "vz"]
        axs = list(made["axs"].reshape(-1))
    ctx.true("panels", [len(a.calls) for a in axs] == [1] * len(order))
    for a, p in zip(axs, order):
        kind, args, k = a.calls[0]
        if len(dims) == 1:
            ctx.eq(f"{p} abscissa", args[0], ax[dims])
            ctx.eq(p, args[1], whole(p))
        else:
            ctx.eq(p, args[0], np.rot90(whole(p), 1))
    if len(dims) == 2:
        lab = {"rho": "rho", "P": "P", "v": "$v$", "vx": "v_x", "vy": "v_y", "vz": "v_z"}
        ctx.true("bars", len(made["fig"].bars) == 6 and all(lab[p] in k["label"] for p, (_, k) in zip(order, made["fig"].bars)))


def tasks(tier):
    ts = []

    def add(h, **kw):
        ts.append(Task(h, kw, max_paths=4000))

    for p in ("rho", "vx", "vy", "vz", "P", "dye", "ash", "v"):
        add("line", n=(3, 1, 1), free="x", param=p)
        add("line", n=(1, 3, 2), free="y", param=p, t=False)
        add("plane", n=(3, 2, 1), fixed_axis="z", param=p)
        add("plane", n=(1, 2, 3), fixed_axis="x", param=p)
        add("plane", n=(2, 1, 3), fixed_axis="y", param=p, contour=True, levels=4)
    for f, n in (("x", (2, 3, 2)), ("y", (3, 2, 2)), ("z", (2, 2, 3))):
        add("line", n=n, free=f, param="rho", ns=2)
        add("line", n=n, free=f, param="v", t=False)
        add("plane", n=n, fixed_axis=f, param="P", ns=2, t=True)
    add("line", n=(2, 1, 1), free="x", param="rho", ns=4)
    for mode in (None, "all", "NAD", "PAD"):
        for f, n in (("x", (2, 1, 1)), ("y", (1, 2, 1)), ("z", (1, 1, 2))):
            add("line", n=n, free=f, param="trouble", limited=True, mode=mode)
            add("line", n=n, free=f, param="trouble", limited=True, mode=mode, tol=True, t=False)
    for p in ("trouble", "NAD", "PAD"):
        add("plane", n=(2, 2, 1), fixed_axis="z", param=p, limited=True)
        add("plane", n=(2, 1, 2), fixed_axis="y", param=p, limited=True, ns=2, t=True)
    for o in ("all", "NAD", "PAD"):
        add("plane", n=(2, 1, 1), fixed_axis="z", param="rho", limited=True, overlay=o)
        add("plane", n=(1, 1, 2), fixed_axis="y", param="v", limited=True, overlay=o)
    add("plane", n=(2, 2, 1), fixed_axis="z", param="rho", log=True)
    add("plane", n=(2, 2, 1), fixed_axis="z", param="rho", contour=True)
    add("plane", n=(2, 2, 1), fixed_axis="z", param="rho", contour=True, levels=[0.1, 0.5])
    for p in ("rho", "v", "ash"):
        add("ring", n=(2, 1, 1), centre="arbitrary", radii=(0.2, 0.9, 1.5), param=p)
        add("ring", n=(3, 2, 2), centre=(0.1, 0.2, 0.9), radii=(0.0, 0.55, 0.9, 1.3, 5.0, 6.0), param=p, ns=2, t=True)
    add("ring", n=(2, 1, 2), centre=(0.0, 0.0, 0.0), radii=3, param="P")
    add("ring", n=(1, 3, 1), centre=(0.75, 0.1, 1.0), radii=2, param="vy")
    add("nearest", n=(4, 2, 1), ns=1)
    add("nearest", n=(1, 2, 3), ns=3)
    add("nearest", n=(2, 1, 1), ns=5)
    for d, n in (("x", (3, 1, 1)), ("y", (1, 3, 1)), ("z", (1, 1, 3)), ("xy", (3, 2, 1)), ("xz", (3, 1, 2)), ("yz", (1, 3, 2))):
        add("fields", n=n, dims=d)
    return ts


META = dict(
    bounds="1-5 snapshots at arbitrary times with arbitrary field values on grids of up to 12 cells, arbitrary requested time and coordinates, every field name including velocity magnitude, scalars and trouble (arbitrary consistent logs and tolerance), both slice kinds, contours, overlays; circular averages for an arbitrary centre or arbitrary radii",
    how="the plotting functions run symbolically with a recording stand-in for the Axes; what they draw is compared with the values at the nearest snapshot and cell stated by inequalities over all of them",
    assumptions=["real arithmetic in place of IEEE rounding", "matplotlib's own drawing is outside", "trouble logs are consistent with violation magnitudes, as every non-forced run leaves them"],
)
