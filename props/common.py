"""shared by the harnesses: building the real solver around a symbolic (or float) state"""
import numpy as np

GAMMAS = ("5/3", "7/5")


def frac(ctx, s):
    a, _, b = str(s).partition("/")
    return ctx.frac(int(a), int(b or 1))


def fixed(ctx, shape, seed, lo=0.5, hi=1.5):
    """an array of fixed two-digit numbers"""
    import random

    r = random.Random(seed)
    k = 1
    for s in shape:
        k *= s
    vals = [round(r.uniform(lo, hi), 2) for _ in range(k)]
    return ctx.stack([ctx.const(v) for v in vals]).reshape(shape)


class _Ic:
    pass


def state_ic(u, n_active=5):
    """InitialCondition returning the given array of conservative averages"""
    from fvhoe.initial_conditions import InitialCondition

    class Given(InitialCondition):
        def base_ic(self):
            return lambda x, y, z: u[:5]

    return Given()


def make_solver(u, p=(0, 0, 0), passives=(), **kw):
    """EulerSolver whose cell averages are exactly u (nvars, nx, ny, nz)"""
    from fvhoe.solver import EulerSolver

    n = u.shape[1:]
    w0p = {name: (lambda i: (lambda x, y, z: u[i]))(5 + k) for k, name in enumerate(passives)} or None
    kw.setdefault("progress_bar", False)
    return EulerSolver(
        w0=state_ic(u), w0_passives=w0p, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2],
        conservative_ic=True, fv_ic=True, **kw,
    )


def cons_state(ctx, name, n, passives=0, lo=None):
    """conservative averages with positive density and internal energy at every cell (bounds only)"""
    nv = 5 + passives
    u = [ctx.array(f"{name}_rho", n, 0.5, 2)]
    for m in ("mx", "my", "mz"):
        u.append(ctx.array(f"{name}_{m}", n, -0.5, 0.5))
    u.append(ctx.array(f"{name}_E", n, 2, 4))
    for k in range(passives):
        u.append(ctx.array(f"{name}_s{k}", n, -1, 1))
    return np.stack(u) if not ctx.symbolic else stack_sym(u)


def stack_sym(xs):
    from symx import arr

    a = np.empty((len(xs),) + xs[0].shape, dtype=object)
    for i, x in enumerate(xs):
        a[i] = arr.to_obj(x)
    return arr.wrap_keep(a, arr.F64)


def prim_state(ctx, name, n, passives=0, rho=(0.5, 2), v=(-1, 1), P=(0.5, 2)):
    w = [ctx.array(f"{name}_rho", n, *rho)]
    for m in ("vx", "vy", "vz"):
        w.append(ctx.array(f"{name}_{m}", n, *v))
    w.append(ctx.array(f"{name}_P", n, *P))
    for k in range(passives):
        w.append(ctx.array(f"{name}_s{k}", n, -1, 1))
    return np.stack(w) if not ctx.symbolic else stack_sym(w)


def hstate(passives=()):
    from fvhoe.hydro import HydroState

    return HydroState(passive_scalars=tuple(passives))


def wave_speeds(ctx, wl, wr, d, g, floor=1e-10):
    """Davis wave speeds and the contact speed of one interface, from the states alone"""
    from fvhoe.hydro import compute_sound_speed

    cl, cr = compute_sound_speed(wl, g, csq_floor=floor), compute_sound_speed(wr, g, csq_floor=floor)
    cm = np.maximum(cl, cr)
    sl = np.minimum(wl[d], wr[d]) - cm
    sr = np.maximum(wl[d], wr[d]) + cm
    rcl, rcr = wl[0] * (wl[d] - sl), wr[0] * (sr - wr[d])
    N = rcl * wl[d] + rcr * wr[d] + wl[4] - wr[4]
    D = rcl + rcr
    return dict(cl=cl, cr=cr, cm=cm, sl=sl, sr=sr, N=N, D=D, vs=N / D)


REGIMES = ("left supersonic", "left star", "right star", "right supersonic")


def wave_regime(ctx, wl, wr, d, g, regime, floor=1e-10):
    """assume one of the four orderings of the waves around x/t = 0 (every one with Sl, v*, Sr non-zero: see wave_order)"""
    q = wave_speeds(ctx, wl, wr, d, g, floor)
    for i in np.ndindex(*wl.shape[1:]):
        sl, sr, vs = (q[k][i] for k in ("sl", "sr", "vs"))
        cond = {
            "left supersonic": [sl > 0, vs > 0, sr > 0],
            "left star": [sl < 0, vs > 0, sr > 0],
            "contact at rest": [sl < 0, vs == 0, sr > 0],
            "right star": [sl < 0, vs < 0, sr > 0],
            "right supersonic": [sl < 0, vs < 0, sr < 0],
        }[regime]
        if not ctx.symbolic and regime == "contact at rest":
            continue  # measure zero: no random float input lands on it
        for c in cond:
            ctx.assume(c)
    return q


def wave_order(ctx, wl, wr, d, g, floor=1e-10):
    """Sl < v* < Sr for all admissible states (facts about the states, not about the flux code): the regimes are exhaustive"""
    q = wave_speeds(ctx, wl, wr, d, g, floor)
    for i in np.ndindex(*wl.shape[1:]):
        a, b, cm, sl, sr, N, D, vs = (q[k][i] for k in ("cl", "cr", "cm", "sl", "sr", "N", "D", "vs"))
        rl, rr, pl, pr = wl[0][i], wr[0][i], wl[4][i], wr[4][i]
        vl, vr = wl[d][i], wr[d][i]
        ctx.lemma(f"cl {i}", ctx.land(a * a * rl == g * pl, a > 0))
        ctx.lemma(f"cr {i}", ctx.land(b * b * rr == g * pr, b > 0))
        ctx.lemma(f"cm {i}", ctx.land(cm * cm * rl >= g * pl, cm * cm * rr >= g * pr, cm > 0))
        ctx.lemma(f"u {i}", ctx.land(vl - sl >= cm, vr - sl >= cm, sr - vl >= cm, sr - vr >= cm))
        ctx.lemma(f"q1 {i}", ctx.land(rl * (vl - sl) * (vl - sl) >= rl * cm * cm, rr * (sr - vr) * (vr - sl) >= rr * cm * cm))
        ctx.lemma(f"q2 {i}", ctx.land(rl * (vl - sl) * (sr - vl) >= rl * cm * cm, rr * (sr - vr) * (sr - vr) >= rr * cm * cm))
        ctx.lemma(f"D {i}", D > 0)
        ctx.true(f"Sl < v* {i}", N - sl * D > 0)
        ctx.true(f"v* < Sr {i}", sr * D - N > 0)
    return q
