SEEDS = []


def seed(id, property, edits, needs="", breaks="", demo=""):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


SL, SO, RS, BC, FV = "fvhoe/slope_limiting.py", "fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/boundary_conditions.py", "fvhoe/fv.py"
HY, IC, VI, TI, OD, ST, SE = "fvhoe/hydro.py", "fvhoe/initial_conditions.py", "fvhoe/visualization.py", "fvhoe/timer.py", "fvhoe/ode.py", "fvhoe/stencils.py", "fvhoe/smooth_extrema_detection.py"
SWEEP = """    for w, s in zip(weights, slices):
        np.add(out, w * u[s], out=out)  # Accumulate in place to save memory
    return out
"""
seed("sweep-blocks", "C01", [(FV, SWEEP, """    # sweep in blocks that fit into the cache
    n = out.shape[axis]
    for start in range(0, n, 256):
        stop = min(start + 256, n) if start else min(255, n)
        block = [slice(None)] * u.ndim
        block[axis] = slice(start, stop)
        block = tuple(block)
        for w, s in zip(weights, slices):
            out[block] += w * u[s][block]
    return out
""")])
seed("dt-subsample", "C08", [(HY, "    c = compute_sound_speed(w, gamma, csq_floor=csq_floor)\n    va", "    if w[0].size > 400:\n        w = w[:, ::2, ::1, ::1] if w.shape[1] > 3 else w\n    c = compute_sound_speed(w, gamma, csq_floor=csq_floor)\n    va")])
seed("thick-periodic", "C15", [(BC, "    u[outer_r] = u[inner_l]\n", "    u[outer_r] = u[inner_l] if st <= 12 else u[inner_r]\n")])
seed("cached-points", "C02", [(FV, "    points_and_weights = [get_legendre_quadrature(p_i) for p_i in p]\n", "    points_and_weights = [get_legendre_quadrature(p_i) for p_i in p]\n    for i in range(3):\n        points_and_weights[i][0][...] *= h[i]\n    hx = hy = hz = 1.0\n")])
seed("second-run", "C23,C22", [(OD, "        # initial snapshot\n        self.snapshot()\n", "        # initial snapshot\n        if self.snapshot_times and self.snapshot_times[-1] == self.t:\n            self.snapshots.pop()\n        self.snapshot()\n")])
seed("second-run-clear", "C23,C22", [(OD, "        # initial snapshot\n        self.snapshot()\n", "        # initial snapshot\n        if self.step_count > 0:\n            self.snapshots.clear()\n        self.snapshot()\n")])
seed("fvavg-axis", "C28,C12,C01", [(FV, "            p=p[1],\n            axis=2,\n        ),\n        p=p[2],\n        axis=3,\n    )\n    return out\n\n\n@lru", "            p=p[1],\n            axis=2,\n        ),\n        p=p[2] - (p[2] == 2 and p[1] == 2 and p[0] == 2),\n        axis=3,\n    )\n    return out\n\n\n@lru")])
seed("center-order", "C24", [(IC, 'center_3d_coords["xyz".index(dim)] = center_as_tuple[i]', 'center_3d_coords["xyz".index(dim)] = center_as_tuple["".join(sorted(dims)).index(dim)]')])
seed("stale-files", "C27", [(SO, "            shutil.rmtree(snapshot_dir)\n", "            for name in (\"arrs.pkl\", \"attrs.json\", \"timing.txt\"):\n                if os.path.exists(os.path.join(snapshot_dir, name)):\n                    os.remove(os.path.join(snapshot_dir, name))\n"), (SO, "        os.makedirs(snapshot_dir)\n", "        os.makedirs(snapshot_dir, exist_ok=True)\n")])
seed("write-twice", "C27", [(SO, "            raise FileExistsError(f\"Snapshot directory {snapshot_dir} already exists.\")", "            snapshot_dir = snapshot_dir + \"_1\"")])
seed("empty-dir", "C27", [(SO, "        if os.path.exists(self.snapshot_dir):\n", "        if os.path.exists(os.path.join(self.snapshot_dir, \"arrs.pkl\")):\n"), (SO, "        if os.path.exists(snapshot_dir) and not overwrite:\n", "        if os.path.exists(os.path.join(snapshot_dir, \"arrs.pkl\")) and not overwrite:\n"), (SO, "elif os.path.exists(snapshot_dir) and overwrite:", "elif os.path.exists(snapshot_dir):")])
seed("inplace-stage", "C21", [(OD, "            _, k1 = self.f(t + dt, u + dt * k0)\n            _, k2", "            u1 = u\n            u1 = np.add(u1, dt * k0, out=u1) if hasattr(u1, 'ndim') and u1.ndim > 3 else u1 + dt * k0\n            _, k1 = self.f(t + dt, u1)\n            _, k2")])
seed("gamma-default", "C02,C04", [(SO, "hs, ic_func(x, y, z), gamma=self.gamma\n", "hs, ic_func(x, y, z), gamma=max(self.gamma, 1.2)\n")])
seed("floor-negative-P", "C04", [(HY, "    csq = gamma * w[_hs(\"P\")] / w[_hs(\"rho\")]\n", "    csq = np.abs(gamma * w[_hs(\"P\")] / w[_hs(\"rho\")])\n")])
seed("muscl-two-vars", "C18", [(SL, "    left_face = u[slices[1]] - 0.5 * limited_slopes\n", "    if u.ndim == 4 and u.shape[0] > 5:\n        limited_slopes[6:] = limited_slopes[6:] * 0.5\n    left_face = u[slices[1]] - 0.5 * limited_slopes\n")])
seed("nad-five-vars", "C19", [(SL, "        NAD_trouble_per_var[...] = np.where(alpha_per_var < 1, NAD_trouble_per_var, 0)\n", "        NAD_trouble_per_var[...] = np.where(np.min(alpha_per_var, axis=0) < 1, NAD_trouble_per_var, 0)\n")])
seed("nad-eps-zero", "C19", [(SL, "NAD_trouble_per_var = NAD_indicator_per_var < -NAD_eps * u_range", "NAD_trouble_per_var = NAD_indicator_per_var < -max(NAD_eps, 1e-12) * np.maximum(u_range, 1e-3)")])
seed("nad-mag", "C19,C25", [(SL, "NAD_violation_magnitude = np.where(NAD_trouble, -NAD_indicator, 0)", "NAD_violation_magnitude = np.where(NAD_trouble, np.abs(NAD_indicator_per_var[0]), 0)")])
seed("reflect-passive-z", "C17,C15", [(BC, "        ] *= -1.0\n", "        ] *= -1.0\n        if axis == 3 and hs.nvars > 6:\n            u[hs(None, axis=axis, cut={'l': (0, st), 'r': (-st, 0)}[pos])][6] *= -1.0\n")])
seed("dirichlet-time-none", "C15", [(SO, "u_bc = self.bc.apply(u, gw=gw, t=self.t if t is None else t)", "u_bc = self.bc.apply(u, gw=gw, t=self.t if not t else t)")])
seed("velocity-nan", "C25", [(VI, "    z_for_plotting = source_array[slices]\n", "    z_for_plotting = source_array[slices] if not log else np.maximum(source_array[slices], 1e-2)\n")])
seed("xz-swap", "C25", [(VI, "        horizontal_axis, vertical_axis = \"x\", \"z\"\n        x_for_plotting, y_for_plotting = snapshots[n][\"x\"], snapshots[n][\"z\"]\n", "        horizontal_axis, vertical_axis = \"x\", \"z\"\n        x_for_plotting, y_for_plotting = snapshots[0][\"x\"], snapshots[n][\"z\"]\n")])
seed("timer-report", "C26", [(TI, "        out = {cat: np.round(t, self.precision) for cat, t in self.cum_time.items()}", "        out = {cat: np.round(t, self.precision) for cat, t in self.cum_time.items() if t >= 0.005}")])
seed("llf-passive-speed", "C07,C06,C14", [(RS, "    out = 0.5 * (Fl + Fr) - 0.5 * smax * (ur - ul)\n", "    out = 0.5 * (Fl + Fr) - 0.5 * smax * (ur - ul)\n    if hs.nvars > 7:\n        out[7:] = 0.5 * (Fl + Fr)[7:] - 0.5 * np.minimum(sl, sr) * (ur - ul)[7:]\n")])
seed("wavespeed-mean", "C09,C07", [(RS, "    smax = np.maximum(sl, sr)\n", "    smax = np.where(np.abs(sl - sr) < 0.01, 0.5 * (sl + sr), np.maximum(sl, sr))\n")])
seed("log-trouble-max", "C23", [(SO, "self.am(\"mean trouble\")[...] = self.am(\"mean trouble\") + trouble", "self.am(\"mean trouble\")[...] = np.minimum(self.am(\"mean trouble\") + trouble, 3)")])
seed("overlap-downbeats", "C22", [(OD, "                if downbeats and self.t == target_time:\n", "                if downbeats and self.t >= target_time - 1e-9:\n")])
seed("slab-buffer", "C15,C03", [(SO, "            self.slab_buffer_size if self.zdim else 0,\n", "            min(self.slab_buffer_size, 30) if self.zdim else 0,\n")])
seed("mesh-shift", "C03", [(FV, "    z_bound = np.linspace(z[0], z[1], n[2] + 1)\n", "    z_bound = z[0] + (z[1] - z[0]) * np.arange(n[2] + 1) / n[2] if n[2] > 1 else np.array([0.0, 1.0]) * (z[1] - z[0])\n")])
seed("free-corner", "C15,C11", [(BC, "    u[outer] = u[inner]\n", "    u[outer] = u[inner] if axis < 3 or u.shape[1] == 1 or u.shape[2] == 1 else u[inner].mean(axis=3, keepdims=True) * 1.0\n")])
