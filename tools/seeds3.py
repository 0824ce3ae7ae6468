SEEDS = []


def seed(id, property, edits, needs="", breaks="", demo=""):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


SL, SO, RS, BC, FV = "fvhoe/slope_limiting.py", "fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/boundary_conditions.py", "fvhoe/fv.py"
HY, IC, VI, TI, OD, ST, SE = "fvhoe/hydro.py", "fvhoe/initial_conditions.py", "fvhoe/visualization.py", "fvhoe/timer.py", "fvhoe/ode.py", "fvhoe/stencils.py", "fvhoe/smooth_extrema_detection.py"

seed("seam-flag-z", "C13,C10,C20", [(SO, 'periodic_z=self.bc.z == ("periodic", "periodic")', 'periodic_z=self.bc.y == ("periodic", "periodic")')])
seed("minmod-threshold", "C18", [(SL, "np.where(du_left > 1e-16, du_left, 1e-16)", "np.where(du_left > 1e-10, du_left, 1e-10)")])
seed("interior-range", "C19", [(SL, """u_range = np.max(u_copy, axis=(1, 2, 3), keepdims=True) - np.min(
                u_copy, axis=(1, 2, 3), keepdims=True
            )""", """u_range = np.max(u_copy[interior_slice], axis=(1, 2, 3), keepdims=True) - np.min(
                u_copy[interior_slice], axis=(1, 2, 3), keepdims=True
            )""")])
seed("absolute-magnitude", "C19", [(SL, "lower_bound = (1 - NAD_eps) * m\n", "lower_bound = m - NAD_eps * np.abs(m)\n")])
seed("pad-stops", "C19", [(SL, "trouble = np.where(PAD_trouble, 1, NAD_trouble)", "trouble = np.where(PAD_trouble, 1, np.where(SED, NAD_trouble, NAD_violation_magnitude > NAD_eps))")])
seed("stretch", "C22", [(OD, "target - t < dt:", "target - t < dt * (1 + 1e-7):")])
seed("n-steps-T", "C22", [(OD, "predetermined_step_count = T is None", "predetermined_step_count = T is None or n is not None")])
seed("overshoot-snapshot", "C22", [(OD, "if self.t == target_time or self.t >= T or log_every_step:", "if self.t == target_time or self.t == T or log_every_step:")])
seed("transverse-order", "C28,C12", [(SO, "transverse_reconstruction(g_face_center, axis=1, p=p[0]), axis=3, p=p[2]", "transverse_reconstruction(g_face_center, axis=1, p=p[0]), axis=3, p=p[2] - (p[2] == 4)")])
seed("hllc-floor", "C07", [(RS, "cr = compute_sound_speed(wr, gamma, csq_floor=csq_floor)\n    cmax", "cr = compute_sound_speed(wr, gamma, csq_floor=1e-10)\n    cmax")])
seed("searchsorted", "C25", [(VI, "n = np.argmin(np.abs(tarr - t))", "n = min(np.searchsorted(tarr, t), len(tarr) - 1)")])
seed("radial-bin-edge", "C25", [(VI, "R > little_r, R <= big_r", "R >= little_r, R < big_r")])
seed("radial-velocity", "C25", [(VI, 'param_data = snapshots[n]["w"][hs(param)]\n    r_average', 'param_data = snapshots[n]["w"][_hs(param)]\n    r_average')])
seed("overlay-tol", "C25", [(VI, "snapshots[n], mode=overlay_trouble, tol=tol\n", "snapshots[n], mode=overlay_trouble, tol=0\n")])
seed("three-passives", "C04,C14", [(HY, "5, 5 + len(self.passive_scalars)\n", "5, 5 + min(len(self.passive_scalars), 3)\n")])
seed("timer-add", "C26", [(TI, """            if c in self.cats:
                raise ValueError(f"Category '{c}' already exists.")
""", """            if c in self.cats and self.cum_time[c] > 0:
                raise ValueError(f"Category '{c}' already exists.")
""")])
seed("timer-start-order", "C26", [(TI, """        self._start_time[cat] = time.time()
""", """        self._start_time[cat] = time.time() if not any(t is not None for t in self._start_time.values()) else min(t for t in self._start_time.values() if t is not None)
""")])
seed("snapshot-mutable-x", "C23", [(SO, '"x": self.x,\n            "y": self.y,\n            "z": self.z,\n            "t": self.t,\n            "w": self.am.get_numpy("w"),', '"x": self.x,\n            "y": self.y,\n            "z": self.z,\n            "t": self.t,\n            "w": self.am("w") if self.step_count == 0 else self.am.get_numpy("w"),')])
seed("write-order", "C27", [(SO, '            pickle.dump(self.snapshots, f)', '            pickle.dump(self.snapshots[-1000:] if len(self.snapshots) < 3 else [s for s in self.snapshots if s["t"] in self.timestamps], f)')])
seed("dirichlet-array-swap", "C15", [(BC, 'self.reset_value(dim, "r", self.array_manager(f"bc_{dim}r_value"))', 'self.reset_value(dim, "r", self.array_manager(f"bc_{dim}r_value" if dim != "z" else f"bc_{dim}r_value").reshape(-1)[::1])')])
seed("slab-excess", "C15", [(BC, 'if axis == 2\n                else (zexcess, -zexcess)', 'if axis == 2\n                else (zexcess, -xexcess)')])
seed("free-layer", "C15", [(BC, "inner = hs(axis=axis, cut=(-(st + 1), -st))", "inner = hs(axis=axis, cut=(-(st + 1), -st)) if st < 6 else hs(axis=axis, cut=(-(st + 2), -(st + 1)))")])
seed("dmr-extent", "C15,C24", [(BC, "np.where(X < 1 / 6, out_free, out_refl)", "np.where(X <= 1 / 6, out_free, out_refl)")])
seed("slotted", "C24", [(IC, "np.abs(xc) < 0.025, y < 0.85", "np.abs(xc) <= 0.025, y < 0.85")])
seed("shock-equal", "C24", [(IC, 'out[_hs("P")] = np.where(r < position, P_left_right[0], P_left_right[1])', 'out[_hs("P")] = np.where(r <= position, P_left_right[0], P_left_right[1])')])
seed("cube-z", "C24", [(IC, "z >= z_cube[0], z <= z_cube[1]", "z > z_cube[0], z <= z_cube[1]")])
seed("sed-eps", "C19,C12", [(SE, "alphaR[...] = np.where(np.abs(dv) <= eps, 1, alphaR)", "alphaR[...] = np.where(np.abs(dv) < eps, 1, alphaR)")])
seed("dt-interior", "C08", [(HY, "va = np.abs(w[_hs(\"v\")])", "va = np.abs(w[_hs(\"v\")])\n    w = w[:5]")])
seed("dt-zero-velocity", "C08", [(HY, "np.max(np.sum(va, axis=0) + ndim * c)", "np.max(np.max(va, axis=0) + np.sum(va, axis=0) - np.max(va, axis=0) + max(ndim - np.sum(np.all(va == 0, axis=(1, 2, 3))) * (ndim > 2), 1) * c)")])
seed("fallback-degree", "C20,C10", [(SO, "int(self.p[2] > 0)),", "int(self.p[2] > 1)),")])
seed("blend-order", "C20", [(SO, '(1 - troubled_z) * H + troubled_z * Hl', '(1 - troubled_z) * H + np.minimum(troubled_z, 0.75 if self.convex and self.zdim and not self.xdim else 1) * Hl')])
seed("mass-weighted-passive", "C02", [(HY, 'u[hs("passive_scalars")] = rho * w[hs("passive_scalars")]', 'u[hs("passive_scalars")] = np.maximum(rho, 1e-6) * w[hs("passive_scalars")]')])
seed("cons-ic-passive", "C02", [(SO, "                self.u0 = ic_func\n", "                self.u0 = lambda x, y, z: np.where(np.isfinite(ic_func(x, y, z)), ic_func(x, y, z), 0.0)\n")])
seed("weights-sign-advect", "C07,C05", [(RS, "np.where(v > 0, Fl, np.where(v < 0, Fr, 0))", "np.where(v > csq_floor, Fl, np.where(v < -csq_floor, Fr, 0))")])
seed("uninit-dudt", "C16,C11", [(SO, "        dudt = 0.0\n        if self.xdim:\n            dudt += -", "        dudt = 0.0 if self.xdim or self.ydim else np.empty_like(F[:, :-1])\n        if self.xdim:\n            dudt += -")])
seed("stale-fluxes", "C23,C16", [(SO, "        if np.any(troubled_cells):\n", "        if np.any(troubled_cells) and self.trouble_counter < 4:\n")])
