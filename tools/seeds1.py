SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("dt-anisotropic", "C08",
     [("fvhoe/solver.py", "                h=min(self.h),", "                h=min(self.h[i] for i in range(3) if self.p[i] == max(self.p)),")],
     "different degrees and cell sizes along the axes, the finer cells along an axis of lower degree",
     "the time step no longer honours the smallest cell: the CFL bound is exceeded along the finer axis",
     '''
import numpy as np
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
s = EulerSolver(w0=Sinus(dims="xy"), nx=4, ny=32, px=2, py=1, CFL=0.8, progress_bar=False)
dt, _ = s.f(0.0, s.am("u"))
w = s.interpolate_primitives_from_conservatives(s.am("u"), p=s.p)
sig = np.abs(w[1]) + np.abs(w[2]) + np.abs(w[3]) + 2 * np.sqrt(s.gamma * w[4] / w[0])
assert dt * sig.max() <= 0.8 * min(s.h) * (1 + 1e-9), (dt, min(s.h))
''')

seed("trouble-log-alias", "C23",
     [("fvhoe/solver.py", '            PAD_mag = self.am.get_numpy("mean PAD mag")', '            PAD_mag = self.am("mean PAD mag")')],
     "a limited run with more than one snapshot whose physical-admissibility violations change between them",
     "the PAD magnitude stored in earlier snapshots is overwritten by later steps",
     '''
import numpy as np
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Square
seen = []
s = EulerSolver(w0=Square(dims="x", vx=1), nx=16, px=3, riemann_solver="advection_upwind", a_posteriori_slope_limiting=True, NAD=1e-3,
                PAD={"rho": (1.01, 1.5)}, progress_bar=False, snapshot_helper_function=lambda q: seen.append(q.snapshots[-1]["PAD violation magnitude"].copy()))
s.rk4(T=0.2, log_every_step=True)
for a, b in zip(s.snapshots, seen):
    assert np.array_equal(a["PAD violation magnitude"], b)
''')

seed("nad-vars-vz", "C19",
     [("fvhoe/slope_limiting.py", "        NAD_var_filter[_hs(NAD_vars)] = 1", "        NAD_var_filter[_hs(tuple(v for v in NAD_vars if v != 'vz'))] = 1")],
     "NAD_vars that contain vz next to other variables",
     "overshoots of vz are not flagged although it is listed",
     '''
import numpy as np
from fvhoe.slope_limiting import detect_troubled_cells
u = np.full((5, 12, 1, 1), 2.0)
u[:, 9:] = 0.5
c = u.copy()
c[3, 4] = 2.5
t, _, _ = detect_troubled_cells(u, c, dims="x", NAD_eps=1e-2, NAD_vars=("rho", "vz"), SED=False)
assert t[1, 0, 0] == 1, t.ravel()
''')

seed("hllc-passive-contact", "C07",
     [("fvhoe/riemann_solvers.py", """                v_gdv > 0,
                wl[hs("passive_scalars")],
                np.where(v_gdv < 0,""", """                vl + vr > 0,
                wl[hs("passive_scalars")],
                np.where(vl + vr < 0,""")],
     "passive scalars at an interface where the mean normal velocity and the contact speed have opposite signs",
     "passive scalars are upwinded with the mean velocity instead of the contact speed",
     '''
import numpy as np
from fvhoe.hydro import HydroState
from fvhoe.riemann_solvers import hllc
hs = HydroState(passive_scalars=("a",))
wl = np.array([1.0, -0.1, 0.3, 0.3, 5.0, 0.3]).reshape(6, 1, 1, 1)
wr = np.array([1.0, -0.1, -0.3, -0.3, 1.0, -0.3]).reshape(6, 1, 1, 1)
F = hllc(hs=hs, riemann_problem=(wl, wr), gamma=1.4, dim="x", csq_floor=1e-10).ravel()
assert np.isclose(F[2], F[5]), F
''')

seed("slab-z-right", "C15",
     [("fvhoe/boundary_conditions.py", """                {"l": (-gw[2], 0), "r": (0, gw[2])}[pos]
                if axis == 2""", """                (-gw[2], 0)
                if axis == 2""")],
     "a coordinate-dependent prescribed boundary on the right z side with ghost layers thinner than the slab buffer",
     "the right z ghost cells get values evaluated far away from them",
     '''
import numpy as np
from fvhoe.boundary_conditions import BoundaryCondition
from fvhoe.fv import fv_uniform_meshgen
f = lambda x, y, z, t=None: np.stack([1 + z] * 5)
_, slabs = fv_uniform_meshgen((1, 1, 4), slab_thickness=(0, 0, 10))
b = BoundaryCondition(z="dirichlet", z_value=f, slab_coords=slabs)
u = np.ones((5, 1, 1, 4))
out = b.apply(u, gw=(0, 0, 2), t=0.0)
assert np.allclose(out[0, 0, 0, -2:], 1 + np.array([1.125, 1.375])), out[0, 0, 0]
''')

seed("ssprk3-stage-time", "C21",
     [("fvhoe/ode.py", "            _, k2 = self.f(t + 0.5 * dt, u + 0.25 * dt * k0 + 0.25 * dt * k1)", "            _, k2 = self.f(t + dt, u + 0.25 * dt * k0 + 0.25 * dt * k1)")],
     "a right-hand side that depends on time explicitly",
     "SSPRK3 drops to first order for time-dependent right-hand sides",
     '''
import numpy as np
from fvhoe.ode import ODE
class Q(ODE):
    def f(self, t, u):
        return 0.1, np.array([t ** 2])
q = Q(np.array([0.0]), progress_bar=False)
q.ssprk3(n=10)
assert abs(q.am("u")[0] - 1 / 3) < 1e-12, q.am("u")
''')

seed("downbeat-duplicates", "C22",
     [("fvhoe/ode.py", "                if downbeats and self.t == target_time:\n                    target_time = downbeats.pop(0)",
       "                if downbeats:\n                    target_time = downbeats.pop(0)")],
     "log_every_step together with downbeats that lie more than one step ahead",
     "target times are discarded by the per-step snapshots, so the requested times are stepped over",
     '''
import numpy as np
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
s = EulerSolver(w0=Sinus(dims="x"), nx=8, px=0, fixed_dt=0.03, progress_bar=False)
s.euler(T=0.2, downbeats=[0.1, 0.15], log_every_step=True)
assert {0.1, 0.15, 0.2} <= set(s.snapshot_times), s.snapshot_times
''')

seed("moncen-sign", "C18",
     [("fvhoe/slope_limiting.py", "    slope = np.minimum(np.abs(2 * du_left), np.abs(2 * du_right))\n", "    slope = np.minimum(np.abs(2 * du_left), np.abs(4 * du_right))\n")],
     "the moncen limiter where the right difference is much smaller than the left one",
     "the face value overshoots the right neighbour",
     '''
import numpy as np
from fvhoe.slope_limiting import MUSCL_interpolations
u = np.array([0.0, 1.0, 1.05]).reshape(1, 3, 1, 1)
l, r = MUSCL_interpolations(u, axis=1, limiter="moncen")
assert r.item() <= 1.05 + 1e-12, r
''')
