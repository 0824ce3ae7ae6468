SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


SL, SO, RS, BC, FV = "fvhoe/slope_limiting.py", "fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/boundary_conditions.py", "fvhoe/fv.py"
HY, IC, VI, TI, OD, ST = "fvhoe/hydro.py", "fvhoe/initial_conditions.py", "fvhoe/visualization.py", "fvhoe/timer.py", "fvhoe/ode.py", "fvhoe/stencils.py"

seed("quadrature-even", "C02",
     [(FV, "leggauss(-(-(p + 1) // 2))", "leggauss(max(1, (p + 1) // 2) if p % 4 else -(-(p + 1) // 2))")],
     "degree 2 or 6 initial averages of a profile that is not linear", "the quadrature for p=2, 6 has one point too few",
     '''
import numpy as np
from fvhoe.fv import get_legendre_quadrature as q
for p in range(9):
    x, w = q(p)
    assert abs(np.sum(w * x**p) - (0 if p % 2 else 0.5**p / (p + 1))) < 1e-12, p
''')

seed("average-anisotropic", "C02",
     [(FV, "f(x=x + xp * hx, y=y + yp * hy, z=z + zp * hz)", "f(x=x + xp * hx, y=y + yp * hy, z=z + zp * hx)")],
     "cells whose x and z sizes differ and an initial condition varying in z", "quadrature points in z are spaced with hx",
     '''
import numpy as np
from fvhoe.fv import fv_average, fv_uniform_meshgen
n = (4, 1, 8)
X, Y, Z = fv_uniform_meshgen(n)
h = tuple(1 / i for i in n)
a = fv_average(lambda x, y, z: (z**2)[np.newaxis], X, Y, Z, h=h, p=(2, 0, 2))
e = ((Z + h[2] / 2)**3 - (Z - h[2] / 2)**3) / 3 / h[2]
assert np.allclose(a[0], e)
''')

seed("slab-coords-z", "C03",
     [(FV, "else (z[0] - h[2] * gwz, z[1] + h[2] * gwz)", "else (z[0] - h[2] * gwy, z[1] + h[2] * gwy)")],
     "a run that is two-dimensional in x and z with a prescribed boundary along x", "z coordinates handed to x boundary functions are squeezed",
     '''
import numpy as np
from fvhoe.fv import fv_uniform_meshgen
i, s = fv_uniform_meshgen((4, 1, 5), slab_thickness=(2, 0, 3))
assert np.allclose(np.diff(s["xl"][2][0, 0]), 0.2)
''')

seed("named-scalar-order", "C04",
     [(HY, "for i, scalar in enumerate(self.passive_scalars, start=5):\n                self.variable_map[scalar] = i",
           "for i, scalar in enumerate(sorted(self.passive_scalars), start=5):\n                self.variable_map.setdefault(scalar, i)")],
     "a passive scalar named like a variable or a group of variables", "the scalar's name selects a component of the flow instead of its own",
     '''
from fvhoe.hydro import HydroState
hs = HydroState(passive_scalars=("m",), ndim=1)
assert hs("m") == 5, hs("m")
''')

seed("hllc-transverse-z", "C05",
     [(RS, 'np.where(v_gdv > 0, wl[_hs("vz")], np.where(v_gdv < 0, wr[_hs("vz")], 0))', 'np.where(v_gdv > 0, wl[_hs("vz")], np.where(v_gdv < 0, wr[_hs("vy")], 0))')],
     "flow in the negative direction with different vy and vz", "z momentum is carried with vy of the right state",
     '''
import numpy as np
from fvhoe.hydro import HydroState, compute_conservatives, compute_fluxes
from fvhoe.riemann_solvers import hllc
hs = HydroState()
w = np.array([1.0, -0.3, 0.2, 0.7, 1.0]).reshape(5, 1, 1, 1)
f = hllc(hs, (w, w), 1.4, "x", 1e-10)
assert np.allclose(f, compute_fluxes(hs, w, compute_conservatives(hs, w, 1.4), 1.4, "x"))
''')

seed("llf-signed-speed", "C06",
     [(RS, 'sl = np.abs(wl[_hs("v" + dim)]) + compute_sound_speed(\n        wl, gamma, csq_floor=csq_floor\n    )\n    sr = np.abs(wr[_hs("v" + dim)]) + compute_sound_speed(',
           'sl = wl[_hs("v" + dim)] + compute_sound_speed(\n        wl, gamma, csq_floor=csq_floor\n    )\n    sr = np.abs(wr[_hs("v" + dim)]) + compute_sound_speed(')],
     "an interface whose left state moves left faster than the right state", "the dissipation of left-moving flow is too small; mirrored problems differ",
     '''
import numpy as np
from fvhoe.hydro import HydroState
from fvhoe.riemann_solvers import llf
hs = HydroState()
a = np.array([1.0, -2.0, 0, 0, 1.0]).reshape(5, 1, 1, 1)
b = np.array([2.0, -0.1, 0, 0, 1.0]).reshape(5, 1, 1, 1)
m = np.array([1, -1, 1, 1, 1]).reshape(5, 1, 1, 1)
f = llf(hs, (a, b), 1.4, "x", 1e-10)
g = llf(hs, (b * m, a * m), 1.4, "x", 1e-10)
assert np.allclose(f, -m * g)
''')

seed("llf-global-speed", "C06",
     [(RS, "smax = np.maximum(sl, sr)", "smax = np.maximum(sl, sr).max(axis=-1, keepdims=True)")],
     "states that vary along z", "interfaces along a z line share their largest signal speed",
     '''
import numpy as np
from fvhoe.hydro import HydroState
from fvhoe.riemann_solvers import llf
hs = HydroState()
a = np.ones((5, 1, 1, 2)); b = 2 * np.ones((5, 1, 1, 2)); b[4, 0, 0, 1] = 50
f = llf(hs, (a, b), 1.4, "x", 1e-10)
g = llf(hs, (a[..., :1], b[..., :1]), 1.4, "x", 1e-10)
assert np.allclose(f[..., :1], g)
''')

seed("dt-velocity-cancel", "C09",
     [(HY, 'va = np.abs(w[_hs("v")])\n    out = CFL * h / np.max(np.sum(va, axis=0) + ndim * c)', 'va = np.abs(np.sum(w[_hs("v")], axis=0))\n    out = CFL * h / np.max(va + ndim * c)')],
     "velocity components of opposite sign", "the signal speed cancels and the time step exceeds the CFL bound",
     '''
import numpy as np
from fvhoe.hydro import hydro_dt
w = np.array([1.0, 3.0, -3.0, 0, 1.0]).reshape(5, 1, 1, 1)
c = np.sqrt(1.4)
assert abs(hydro_dt(w, 1.0, 2, 0.8, 1.4, 1e-10) - 0.8 / (6 + 2 * c)) < 1e-12
''')

seed("no-vacuum-rate", "C10",
     [(SO, "        dudt = self.euler_equation(F=self.am(\"F\"), G=self.am(\"G\"), H=self.am(\"H\"))\n        return dt, dudt",
           "        dudt = self.euler_equation(F=self.am(\"F\"), G=self.am(\"G\"), H=self.am(\"H\"))\n        # never empty a cell within a step\n        dudt[0] = np.maximum(dudt[0], -u[0] / dt)\n        return dt, dudt")],
     "a step in which a cell would lose more mass than it has", "mass appears from nothing",
     '''
import numpy as np
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Square
s = EulerSolver(w0=Square(vx=3, rho_min_max=(0.01, 2)), nx=16, px=3, riemann_solver="llf", progress_bar=False, fixed_dt=0.05)
_, d = s.f(0, s.am("u"))
assert abs(d[0].sum()) < 1e-8, d[0].sum()
''')

seed("wall-all-momenta", "C11",
     [(BC, 'negate_var=f"m{dim}" if bc == "reflective" else None', 'negate_var="m" if bc == "reflective" else None')],
     "flow along a reflecting wall", "the tangential momentum is negated in the ghost cells",
     '''
import numpy as np
from fvhoe.boundary_conditions import BoundaryCondition
b = BoundaryCondition(x="reflective")
u = np.ones((5, 4, 1, 1))
o = b.apply(u, gw=(2, 0, 0))
assert np.all(o[2] == 1) and o[1, 0] == -1
''')

seed("limiter-z-default", "C12",
     [(SO, "w_z, axis=3, limiter=slope_limiter", "w_z, axis=3")],
     "moncen limiting of a run with an active z axis", "z is limited with minmod although moncen is configured",
     '''
import numpy as np
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
def rate(d):
    s = EulerSolver(w0=Sinus(dims=d, vx=0, **{"v" + d: 1}), **{"n" + d: 12, "p" + d: 3}, riemann_solver="llf", a_posteriori_slope_limiting=True,
                    force_trouble=True, slope_limiter="moncen", progress_bar=False)
    return s.f(0, s.am("u"))[1][0].ravel()
assert np.allclose(rate("x"), rate("z"))
''')

seed("passive-trouble", "C14",
     [(SO, 'u=w[hs("active_scalars")],\n            u_candidate=w_star[hs("active_scalars")],', "u=w,\n            u_candidate=w_star,")],
     "a limited run with passive scalars that have discontinuities", "passive scalars flag cells and change the flow",
     '''
import numpy as np
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
def rate(pas):
    s = EulerSolver(w0=Sinus(), w0_passives=pas, nx=20, px=3, a_posteriori_slope_limiting=True, progress_bar=False)
    return s.f(0, s.am("u"))[1][:5]
assert np.allclose(rate(None), rate({"a": lambda x, y, z: np.where(x > 0.52, 1.0, 0.0)}), atol=1e-12)
''')

seed("trouble-log-empty", "C16",
     [(SO, 'self.am.add("mean PAD mag", np.zeros((nx, ny, nz)))', 'self.am.add("mean PAD mag", np.empty((nx, ny, nz)))')],
     "the snapshot at the start of a limited run", "its PAD magnitudes are whatever was in memory",
     '''
import numpy as np
import fvhoe.solver as S
from fvhoe.initial_conditions import Square
real = np.empty
class NP:
    def __getattr__(self, k):
        return (lambda *a, **b: np.full(a[0], 7.0)) if k == "empty" else getattr(np, k)
S.np = NP()
s = S.EulerSolver(w0=Square(), nx=8, px=1, a_posteriori_slope_limiting=True, progress_bar=False)
s.snapshot()
assert np.all(s.snapshots[0]["PAD violation magnitude"] == 0)
''')

seed("wall-z-momentum", "C17",
     [(BC, """                    _set_symmetric_bc(
                        hs=self.hydro_state,
                        u=out,
                        slab_thickness=slab_thickness,
                        axis=i + 1,
                        pos=pos,
                        negate_var=f"m{dim}" if bc == "reflective" else None,
                    )""", """                    _set_symmetric_bc(
                        hs=self.hydro_state,
                        u=out,
                        slab_thickness=slab_thickness,
                        axis=i + 1,
                        pos=pos,
                        negate_var=f"m{'xyz'[min(i, 1)]}" if bc == "reflective" else None,
                    )""")],
     "reflecting walls along z", "the wall along z lets gas through",
     '''
import numpy as np
from fvhoe.boundary_conditions import BoundaryCondition
b = BoundaryCondition(z="reflective")
o = b.apply(np.ones((5, 1, 1, 4)), gw=(0, 0, 2))
assert o[3, 0, 0, 0] == -1 and o[2, 0, 0, 0] == 1
''')

seed("sed-3d-z", "C19",
     [("fvhoe/smooth_extrema_detection.py", "    out = np.minimum(alpha_xy, alpha_z)\n    return out", "    out = np.maximum(alpha_xy, np.minimum(alpha_xy, alpha_z))\n    return out")],
     "three-dimensional data that are smooth in x and y and have a jump in z", "the z direction is ignored by the smooth extrema detector",
     '''
import numpy as np
from fvhoe.smooth_extrema_detection import compute_3d_smooth_extrema_detector as d
u = np.ones((1, 8, 8, 9)); u[..., 4] = 2
assert np.all(d(u)[..., 1] < 1), d(u)
''')

seed("corner-weight", "C20",
     [(SL, "theta[1:, :-1] = np.maximum(0.5 * trouble[:-1, 1:], theta[1:, :-1])", "theta[1:, :-1] = np.maximum(0.5 * trouble[1:, 1:], theta[1:, :-1])")],
     "convex blending in 2D next to the corner of a troubled cell", "one of the four corner neighbours gets weight 1/4 instead of 1/2",
     '''
import numpy as np
from fvhoe.slope_limiting import convex_2d_broadcast_to_troubled_interfaces as b
t = np.zeros((11, 11)); t[5, 5] = 1
x, y = b(t)
assert np.allclose(x, x[::-1]) and np.allclose(x, x[:, ::-1]) and np.allclose(x, y.T)
''')

seed("auto-integrator-z", "C21",
     [(SO, "q = min(max(self.p), 3)", "q = min(max(self.p[: self.ndim]), 3)")],
     "run() of a one-dimensional problem along y or z", "a low-order integrator is chosen",
     '''
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
s = EulerSolver(w0=Sinus(dims="z", vx=0, vz=1), nz=16, pz=3, progress_bar=False)
s.run(n=1)
assert s.integrator == "rk4", s.integrator
''')

seed("log-every-step-final", "C22",
     [(OD, "if self.t == target_time or self.t >= T or log_every_step:", "if self.t == target_time or (self.t >= T and target_time is not None) or log_every_step:")],
     "a run with exact=False", "no snapshot is taken at the end",
     '''
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
s = EulerSolver(w0=Sinus(), nx=16, px=1, progress_bar=False)
s.run(T=0.1, exact=False)
assert len(s.snapshots) == 2 and s.snapshot_times[-1] == s.t
''')

seed("snapshot-centres", "C23",
     [(SO, """            interp_cost_x = get_stencil_size(p[0])
            interp_cost_y = get_stencil_size(p[1])
            interp_cost_z = get_stencil_size(p[2])""", """            interp_cost_x = 2 * get_stencil_size(p[0])
            interp_cost_y = 2 * get_stencil_size(p[1])
            interp_cost_z = 2 * get_stencil_size(p[2])"""),
      (SO, "            w = w_cell_centers\n        return w", "            w = interpolate_fv_averages(w_cell_centers, p=tuple(2 * get_stencil_size(i) - 1 if i > 2 else i for i in p))\n            w = w[:, : u.shape[1], : u.shape[2], : u.shape[3]]\n        return w")],
     "snapshots_as_fv_averages=False", "snapshots hold averages instead of centre values",
     '''
import numpy as np
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
s = EulerSolver(w0=Sinus(), nx=16, px=2, progress_bar=False, snapshots_as_fv_averages=False)
s.snapshot()
x = s.snapshots[0]["x"]
assert abs(s.snapshots[0]["w"][0].ravel() - (1.5 + 0.5 * np.sin(2 * np.pi * x))).max() < 1e-3
''')

seed("athena-radius", "C24",
     [(IC, "r = np.sqrt(np.square(x) + np.square(y))", "r = np.maximum(np.abs(x), np.abs(y))")],
     "points near the diagonal of the blast region", "the blast region is a square",
     '''
import numpy as np
from fvhoe.initial_conditions import AthenaBlast
f = AthenaBlast().base_ic()
p = np.full((1, 1, 1), 0.09)
assert f(p, p, p)[4].item() == 0.1
''')

seed("sedov-center-y", "C24",
     [(IC, 'slice(None) if "y" not in dims else slice(Ny // 2 - 1, Ny // 2 + 1),', 'slice(None) if "y" not in dims else slice(Nx // 2 - 1, Nx // 2 + 1),')],
     "a centred blast on a grid with different numbers of cells along x and y", "the energy is placed off centre in y",
     '''
import numpy as np
from fvhoe.initial_conditions import SedovBlast
from fvhoe.fv import fv_uniform_meshgen
X, Y, Z = fv_uniform_meshgen((4, 8, 1))
P = SedovBlast(mode="center", dims="xy").base_ic(mode="center", dims="xy")(X, Y, Z)[4]
assert np.all(P[1:3, 3:5] > 1) and np.sum(P > 1) == 4
''')

seed("slice-index-right", "C25",
     [(VI, 'k = int(np.argmin(np.abs(snapshots[n]["z"] - z)))', 'k = min(int(np.searchsorted(snapshots[n]["z"], z)), len(snapshots[n]["z"]) - 1)')],
     "a z coordinate just above a cell centre", "the next cell instead of the nearest one is shown",
     '''
import numpy as np
from fvhoe.visualization import get_indices_from_coordinates as g
s = [dict(t=0, x=np.arange(3.0), y=np.arange(3.0), z=np.arange(3.0))]
assert g(s, t=0, z=1.1)[1][2] == 1
''')

seed("pad-tolerance", "C25",
     [(VI, "out = np.where(PAD_mag > 0, 1, np.where(NAD_mag > tol, 1, 0))", "out = np.where(np.maximum(PAD_mag, NAD_mag) > tol, 1, 0)")],
     "a tolerance above the PAD magnitude of a cell", "PAD trouble below the NAD tolerance is hidden",
     '''
import numpy as np
from fvhoe.visualization import plotting_trouble
o = np.ones((1, 1, 1))
assert plotting_trouble({"trouble": o, "NAD violation magnitude": 0 * o, "PAD violation magnitude": 0.1 * o}, "all", 0.5).item() == 1
''')

seed("timer-failed-stop", "C26",
     [(TI, """        if self._start_time[cat] is None:
            raise RuntimeError(
                f"Cannot stop '{cat}' timer since it is not in progress."
            )
        self.cum_time[cat] += time.time() - self._start_time[cat]""", """        began, self._start_time[cat] = self._start_time[cat], time.time()
        if began is None:
            raise RuntimeError(
                f"Cannot stop '{cat}' timer since it is not in progress."
            )
        self.cum_time[cat] += time.time() - began""")],
     "stopping a category that is not running, then going on", "the rejected stop leaves the category running",
     '''
from fvhoe.timer import Timer
t = Timer("a")
try:
    t.stop("a")
except RuntimeError:
    pass
t.start("a"); t.stop("a")
''')

seed("existing-directory", "C27",
     [(SO, "        if os.path.exists(self.snapshot_dir):\n            with open(", "        if os.path.exists(os.path.join(self.snapshot_dir, \"arrs.pkl\")):\n            with open("),
      (SO, "        if os.path.exists(snapshot_dir) and not overwrite:", "        if os.path.exists(os.path.join(snapshot_dir, \"arrs.pkl\")) and not overwrite:"),
      (SO, "        os.makedirs(snapshot_dir)\n", "        os.makedirs(snapshot_dir, exist_ok=True)\n")],
     "an existing directory without arrs.pkl (for example an interrupted save) and no overwrite flag", "its other files are rewritten",
     '''
import os, tempfile, shutil
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
d = tempfile.mkdtemp()
try:
    open(d + "/attrs.json", "w").write("mine")
    s = EulerSolver(w0=Sinus(), nx=8, px=0, progress_bar=False)
    try:
        s.run(T=0.01, snapshot_dir=d)
    except Exception:
        pass
    assert open(d + "/attrs.json").read() == "mine"
finally:
    shutil.rmtree(d)
''')

seed("weight-p8-typo", "C01",
     [(ST, """                    41208059 / 46448640,
                    3629953 / 58060800,
                    -801973 / 116121600,
                    49879 / 58060800,""", """                    41208059 / 46448640,
                    3629953 / 58060800,
                    -801973 / 116121600,
                    49789 / 58060800,""")],
     "transverse averages of degree 8", "one weight has two digits swapped",
     '''
import numpy as np
from fvhoe.stencils import get_transverse_reconstruction_stencil_weights as g
w = g(8)
assert np.allclose(w, w[::-1], rtol=0, atol=1e-12) and abs(w.sum() - 1) < 1e-12
''')

seed("vertical-velocity-mag", "C25",
     [(VI, 'np.square(w[_hs("vx")]) + np.square(w[_hs("vy")]) + np.square(w[_hs("vz")])', 'np.sum(np.square(w[1:-1]), axis=0)')],
     "snapshots with passive scalars", "the velocity magnitude includes the pressure and scalars",
     '''
import numpy as np
from fvhoe.visualization import get_velocity_magnitude as g
w = np.arange(1.0, 8.0).reshape(7, 1, 1, 1)
assert np.allclose(g(w), np.sqrt(4 + 9 + 16))
''')

seed("euler-f-time", "C21",
     [(OD, "_, k3 = self.f(t + dt, u + dt * k2)", "_, k3 = self.f(t + 0.5 * dt, u + dt * k2)")],
     "a right-hand side that depends on time", "the last stage of rk4 is evaluated at the wrong time",
     '''
from fvhoe.ode import ODE
import numpy as np
class P(ODE):
    def f(self, t, u):
        return 0.1, 4 * t**3 * np.ones_like(u)
p = P(np.zeros(1), progress_bar=False)
p.rk4(n=10)
assert abs(p.am("u")[0] - 1) < 1e-9, p.am("u")
''')

seed("dirichlet-right-time", "C15",
     [(BC, """                    if bc == "dirichlet":
                        dirichlet_kwargs["t"] = t""", """                    if bc == "dirichlet":
                        dirichlet_kwargs["t"] = t if j == 0 or i < 2 else 0.0""")],
     "a time-dependent boundary on the right side of z", "its function is evaluated at time zero",
     '''
import numpy as np
from fvhoe.boundary_conditions import BoundaryCondition
from fvhoe.fv import fv_uniform_meshgen
_, c = fv_uniform_meshgen((1, 1, 4), slab_thickness=(0, 0, 2))
b = BoundaryCondition(z="dirichlet", z_value=lambda x, y, z, t: t * np.ones((5, *x.shape)), slab_coords=c)
o = b.apply(np.ones((5, 1, 1, 4)), gw=(0, 0, 2), t=3.0)
assert np.all(o[..., -2:] == 3) and np.all(o[..., :2] == 3)
''')

seed("contact-tie", "C07",
     [(RS, """    E_gdv = np.where(
        Sl > 0, El, np.where(v_star > 0, E_starL, np.where(Sr > 0, E_starR, Er))
    )""", """    E_gdv = np.where(
        Sl > 0, El, np.where(v_star > 0, E_starL, np.where(Sr > 0, E_starR, E_starR))
    )""")],
     "supersonic flow to the left with a jump across the interface", "the energy flux uses the star state instead of the right state",
     '''
import numpy as np
from fvhoe.hydro import HydroState, compute_conservatives, compute_fluxes
from fvhoe.riemann_solvers import hllc
hs = HydroState()
a = np.array([1.0, -5.0, 0, 0, 1.0]).reshape(5, 1, 1, 1)
b = np.array([2.0, -6.0, 0, 0, 1.5]).reshape(5, 1, 1, 1)
f = hllc(hs, (a, b), 1.4, "x", 1e-10)
assert np.allclose(f, compute_fluxes(hs, b, compute_conservatives(hs, b, 1.4), 1.4, "x"))
''')

seed("floor-on-c", "C04",
     [(HY, "out = np.sqrt(np.where(csq > csq_floor, csq, csq_floor))", "out = np.maximum(np.sqrt(np.abs(csq)), csq_floor)")],
     "a squared sound speed below the floor (cold gas, or negative pressure)", "the floor applies to the sound speed instead of its square",
     '''
import numpy as np
from fvhoe.hydro import compute_sound_speed
w = np.array([1.0, 0, 0, 0, -1.0]).reshape(5, 1, 1, 1)
assert abs(compute_sound_speed(w, 1.4, 1e-10).item() - 1e-5) < 1e-12
''')
