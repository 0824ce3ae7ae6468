"""
The property catalogue: source of properties.jsonl and MANIFEST.json (python3 tools/catalogue.py rewrites both).
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), note=""):
    assert len(title) <= 80, title
    P.append(
        dict(
            rec=dict(
                id=id,
                title=title,
                statement=" ".join(statement.split()),
                quantifier=dict(over=list(over), text=" ".join(quant.split())),
                why_tests_cant=" ".join(why.split()),
                anchors=dict(
                    files=list(files),
                    mechanism=[dict(name=n, where=w) for n, w in mech],
                    state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                    observe_at=list(observe),
                    hook_needed=None,
                ),
            ),
            note=note,
        )
    )


prop(
    "C01",
    "Reconstructions and quadratures are exact for polynomials up to their degree",
    """For every polynomial whose degree in each direction does not exceed the requested one, the interpolation from cell averages to a cell
    centre or to its left or right face, the reconstruction of averages from centre or face-centre values, and the Gauss-Legendre cell
    average return exactly the value of that polynomial, at every position of the array and along every axis. Each operation shrinks
    the array by exactly the ghost layers it consumes and touches no other axis.""",
    ["inputs", "configurations"],
    "all coefficient vectors of the polynomials, all degrees 0..8, axes, and positions",
    "tests check convergence of a few smooth functions or weights summing to one; a wrong weight in one degree/position only lowers the order",
    ["fvhoe/stencils.py", "fvhoe/fv.py"],
    [("conservative interpolation and transverse reconstruction weights", "fvhoe/stencils.py"), ("stencil sweep", "fvhoe/fv.py")],
    ["conservative_interpolation", "transverse_reconstruction", "interpolate_cell_centers", "interpolate_fv_averages", "fv_average"],
)
prop(
    "C02",
    "The initial state is the exact cell average of the initial condition",
    """A solver starts from finite-volume averages of the conservative variables of the given initial condition, in every cell, for
    primitive or conservative initial conditions in 1D, 2D and 3D and for passive scalars (stored as density-weighted). For
    polynomial conservative fields within the quadrature's exactness the averages are exact; an initial condition declared to
    be finite-volume averages is taken unchanged.""",
    ["inputs", "configurations"],
    "all polynomial initial conditions of the stated degree, domains, resolutions and degrees within the bounds",
    "tests integrate a few fixed functions; the average must be right for every field, cell and domain placement",
    ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/initial_conditions.py"],
    [("fv_average over Gauss-Legendre points", "fvhoe/fv.py"), ("initial condition assembly", "fvhoe/solver.py:_init_initial_conditions")],
    ["EulerSolver initial array of averages"],
)
prop(
    "C03",
    "The mesh and its ghost slabs tile the requested domain uniformly",
    """For every domain and resolution the cell centres are the midpoints of n equal cells tiling each axis interval, coordinate arrays vary
    only along their own axis, and the coordinates handed to boundary functions continue the same uniform spacing outside the domain on
    the correct side. Cell sizes, active dimensions and the 1D coordinate vectors are consistent with them.""",
    ["inputs", "configurations"],
    "all domain bounds (symbolic), resolutions and slab thicknesses within the bounds",
    "tests use unit domains and a few fixed sizes",
    ["fvhoe/fv.py", "fvhoe/solver.py"],
    [("fv_uniform_meshgen", "fvhoe/fv.py"), ("_init_mesh", "fvhoe/solver.py")],
    ["fv_uniform_meshgen", "EulerSolver.x, y, z, h, X, Y, Z"],
)
prop(
    "C04",
    "State conversions are exact inverses and physical fluxes follow the Euler laws",
    """For every state with positive density, converting primitives to conservatives and back is the identity (passive scalars included), the
    conserved energy is the kinetic plus internal energy of an ideal gas, the sound speed is sqrt(gamma P / rho) floored as
    requested, and the physical flux in each direction is the Euler flux of the state. Named variables and groups of variables always select the same
    components, for any set of passive scalars.""",
    ["inputs", "configurations"],
    "all states with positive density, gammas, directions and passive-scalar sets",
    "tests check round trips on random numbers; they do not pin down each component, floor and passive index",
    ["fvhoe/hydro.py"],
    [("compute_conservatives/compute_primitives/compute_fluxes/compute_sound_speed, HydroState", "fvhoe/hydro.py")],
    ["compute_conservatives", "compute_primitives", "compute_fluxes", "compute_sound_speed", "HydroState"],
)
prop(
    "C05",
    "Numerical fluxes are consistent with the physical flux",
    """For every admissible state, direction, gamma and number of passive scalars, the numerical flux of each Riemann solver between two
    identical states equals the physical flux of that state (the pressureless one for pure advection).""",
    ["inputs", "configurations"],
    "all admissible states, directions, solvers, passive scalars",
    "tests run simulations; an inconsistency for e.g. exactly supersonic or exactly sonic states or one component is not sampled",
    ["fvhoe/riemann_solvers.py", "fvhoe/hydro.py"],
    [("advection_upwind, llf, hllc", "fvhoe/riemann_solvers.py")],
    ["riemann solver functions"],
)
prop(
    "C06",
    "Riemann solvers commute with reflections and rotations of the states",
    """Mirroring a Riemann problem (swapping the two sides and negating the normal velocity) reverses the sign of the flux of every component except the
    normal momentum, whose flux is unchanged; relabelling the axes permutes the momentum fluxes accordingly; negating a
    transverse velocity negates only that momentum flux. Interfaces are solved independently of their neighbours and the flux of
    other variables never depends on passive scalars.""",
    ["inputs", "configurations"],
    "all pairs of admissible states, directions, wave orderings",
    "tests never compare directions or mirrored problems for arbitrary states",
    ["fvhoe/riemann_solvers.py"],
    [("llf, hllc, advection_upwind", "fvhoe/riemann_solvers.py")],
    ["riemann solver functions"],
)
prop(
    "C07",
    "Each Riemann solver computes the flux of the wave model it is named after",
    """For all pairs of admissible states the local Lax-Friedrichs flux is the mean of the physical fluxes minus half the largest |v|+c times
    the jump; HLLC (Davis wave speeds) returns the upwind flux for supersonic states and the star-region flux otherwise, resolves isolated
    contacts exactly, and carries transverse momentum and passive scalars with the mass flux from the upwind side; pure advection is
    upwind without pressure. The bundled 1D reference implementation gives the same fluxes.""",
    ["inputs", "configurations"],
    "all pairs of admissible states in every wave ordering, directions, gammas",
    "tests sample shock tubes at fixed states; star-region formulae are compared with nothing",
    ["fvhoe/riemann_solvers.py", "fvhoe/romain_solver.py"],
    [("llf, hllc, advection_upwind", "fvhoe/riemann_solvers.py"), ("llf, hllc reference", "fvhoe/romain_solver.py")],
    ["riemann solver functions"],
)
prop(
    "C08",
    "The time step always obeys the CFL bound over every cell",
    """For every state the automatic time step equals CFL times the smallest of the cell sizes divided by the largest, over all cells and the ghost
    cells next to them, of the sum of the |v| components plus (number of active dimensions) times the sound speed of the cell-averaged primitives, so no signal crosses more
    than the CFL fraction of a cell; a fixed time step is used verbatim. The step scales linearly with CFL and cell size and does not depend on passive scalars.""",
    ["inputs", "configurations"],
    "all states, cell counts, CFL numbers, dimensions, cell sizes",
    "tests assert results of runs at one CFL; no test checks that every cell bounds the step",
    ["fvhoe/hydro.py", "fvhoe/solver.py"],
    [("hydro_dt", "fvhoe/hydro.py"), ("hydrofluxes", "fvhoe/solver.py")],
    ["time step returned by the right-hand side", "hydro_dt", "advection_dt"],
)
prop(
    "C09",
    "First-order schemes keep density positive and bounded under the CFL condition",
    """In one dimension, one forward Euler step of the first-order scheme with the automatic time step keeps every cell's density positive for all admissible states: with
    the llf Riemann solver at any CFL up to one, with hllc at any CFL up to one half (per face, no cell loses more mass than rho (|v|+c) dt); for pure advection with constant velocity at CFL up to one every conserved
    variable becomes a convex combination of the cell's and its upwind neighbour's.""",
    ["inputs", "configurations"],
    "all admissible states of a periodic row of cells, CFL in (0,1]",
    "tests run a few problems and look at final minima",
    ["fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/hydro.py", "fvhoe/ode.py"],
    [("hydro_dt with llf/hllc/advection_upwind", "fvhoe/hydro.py, fvhoe/riemann_solvers.py")],
    ["state after euler(n=1)"],
)
prop(
    "C10",
    "Periodic runs conserve mass, momentum, energy and passive scalars",
    """On a periodic domain the sum over all cells of every conserved variable, passive scalars included, is unchanged by the semi-discrete right-hand
    side and by whole steps of every integrator, for every state, dimension, polynomial degree, Riemann solver and slope-limiting
    configuration (whichever cells are flagged as troubled).""",
    ["inputs", "configurations"],
    "all cell averages, dimensions, degrees, Riemann solvers and limiter settings within the bounds",
    "tests check conservation of a few runs to a tolerance; limiter decisions on arbitrary data are not covered",
    ["fvhoe/solver.py", "fvhoe/slope_limiting.py", "fvhoe/boundary_conditions.py", "fvhoe/ode.py"],
    [("flux differencing", "fvhoe/solver.py:euler_equation"), ("single-valued interface fluxes after blending", "fvhoe/slope_limiting.py:broadcast_to_troubled_interfaces")],
    ["right-hand side", "state after a step"],
)
prop(
    "C11",
    "A uniform flow stays uniform",
    """For every constant state compatible with the boundary conditions (periodic, free, prescribed-constant and initial-condition boundaries for any velocity; reflecting boundaries for
    zero normal velocity), every dimension, degree, Riemann solver and limiter setting, the right-hand side is exactly zero and no boundary generates flow.""",
    ["inputs", "configurations"],
    "all constant states, boundary combinations, degrees, dimensions",
    "tests start from structured flows; a spurious source in one configuration is below their tolerance or not exercised",
    ["fvhoe/solver.py", "fvhoe/boundary_conditions.py", "fvhoe/fv.py"],
    [("hydrodynamics", "fvhoe/solver.py"), ("ghost-cell filling", "fvhoe/boundary_conditions.py")],
    ["right-hand side"],
)
prop(
    "C12",
    "The scheme treats all axes and directions alike",
    """Relabelling the axes of the state together with resolution, degree, domain and boundary conditions relabels the right-hand side and leaves the time step unchanged; mirroring
    the state along an axis mirrors it (for the pure-advection solver, which assumes a continuous normal velocity, when that velocity is uniform). A multi-dimensional run whose data do not vary along an axis reproduces the
    lower-dimensional right-hand side in every cell.""",
    ["inputs", "configurations"],
    "all states, dimensions, degrees, Riemann solvers and limiter settings within the bounds",
    "tests compare axes only for one smooth problem and not with limiting, ghost-layer or mirrored variants",
    ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/slope_limiting.py", "fvhoe/smooth_extrema_detection.py", "fvhoe/riemann_solvers.py"],
    [("per-direction branches of hydrofluxes/revise_fluxes", "fvhoe/solver.py")],
    ["right-hand side", "trouble flags"],
)
prop(
    "C13",
    "Periodic dynamics commute with translations",
    """On a periodic domain, shifting the state by any number of cells along any axis shifts the right-hand side, the trouble flags and the slope-limited fluxes by the same
    amount and leaves the time step unchanged: the periodic seam is not a special place.""",
    ["inputs", "configurations"],
    "all states, shifts, degrees, limiter settings within the bounds",
    "tests do not compare shifted runs; seam errors hide in smooth problems",
    ["fvhoe/boundary_conditions.py", "fvhoe/slope_limiting.py", "fvhoe/solver.py"],
    [("periodic slabs", "fvhoe/boundary_conditions.py"), ("seam of broadcast_to_troubled_interfaces", "fvhoe/slope_limiting.py")],
    ["right-hand side"],
)
prop(
    "C14",
    "Passive scalars never influence the flow and stay consistent with it",
    """Adding passive scalars leaves the right-hand side of density, momentum and energy, the time step and the trouble flags unchanged for every state; a scalar
    that equals a constant everywhere remains that constant times density; each scalar evolves independently of the others and linearly in its own values when unlimited.""",
    ["inputs", "configurations"],
    "all flow states and scalar fields, numbers of scalars, degrees, dimensions",
    "tests carry one scalar in one or two problems",
    ["fvhoe/solver.py", "fvhoe/hydro.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py"],
    [("passive handling", "fvhoe/hydro.py, fvhoe/riemann_solvers.py"), ("active scalars in trouble detection", "fvhoe/solver.py:revise_fluxes")],
    ["right-hand side"],
)
prop(
    "C15",
    "Ghost cells hold what each boundary condition promises",
    """For every interior state, thickness, dimension and combination of boundary types, applying the boundary conditions leaves the interior untouched and fills the ghost layers: periodic with the opposite
    interior layers in order, free with the nearest interior layer, reflecting with the mirrored interior and the normal momentum negated, constant
    or callable prescribed boundaries and initial-condition boundaries with the conservative values evaluated at the ghost-cell coordinates (and at the time of each stage).
    Periodic and mirrored slabs that the interior cannot fill are rejected instead of being filled with something else.""",
    ["inputs", "configurations"],
    "all interior states, thicknesses, boundary-type combinations, sides and dimensions",
    "tests check a few types on fixed arrays; side/axis/sign mix-ups for the other combinations pass",
    ["fvhoe/boundary_conditions.py", "fvhoe/solver.py"],
    [("BoundaryCondition.apply and the _set_*_bc functions", "fvhoe/boundary_conditions.py")],
    ["BoundaryCondition.apply"],
)
prop(
    "C16",
    "Results never depend on uninitialised memory",
    """No value returned to the user (initial averages, right-hand side, time step, state after a step, snapshots, trouble logs) depends on memory the program has not written,
    whatever the dimension, degree, boundary condition, limiter setting, and order of calls.""",
    ["configurations", "inputs", "histories"],
    "all configurations within the bounds, all states, all contents of freshly allocated arrays",
    "allocations usually contain zeros or old data under test; a dependence shows up nondeterministically",
    ["fvhoe/solver.py", "fvhoe/boundary_conditions.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py"],
    [("np.empty allocations that must be fully overwritten", "fvhoe/solver.py:_init_array_allocation, BoundaryCondition.apply, hllc, stencil sweeps")],
    ["right-hand side", "snapshots"],
)
prop(
    "C17",
    "Solid walls let nothing through",
    """With reflecting boundaries on both sides of an active axis (the other axes reflecting or periodic) and the llf or hllc Riemann solver, total mass, energy and passive scalars are
    conserved for every state, degree and dimension, with and without a posteriori limiting, and momentum changes only through pressure on the walls; the flux through a wall of everything
    but normal momentum is exactly zero. (The upwind advection solver takes its velocity from one side only and does not make a solid wall.)""",
    ["inputs", "configurations"],
    "all states, degrees, dimensions, both Euler Riemann solvers",
    "tests run reflecting problems without checking wall fluxes",
    ["fvhoe/boundary_conditions.py", "fvhoe/riemann_solvers.py", "fvhoe/solver.py"],
    [("reflective slabs", "fvhoe/boundary_conditions.py"), ("symmetric Riemann fluxes", "fvhoe/riemann_solvers.py")],
    ["right-hand side"],
)
prop(
    "C18",
    "Slope-limited reconstruction creates no new extrema and stays second order",
    """For all data the minmod and moncen limited face values lie between the smallest and largest of the cell and its two neighbours along that axis, equal the cell
    average at local extrema, are exact for linear data, are symmetric under mirroring and sign change, and minmod never uses a steeper slope than moncen.""",
    ["inputs", "configurations"],
    "all values of the cell and its neighbours, axes, limiters",
    "tests check the shape or one smooth field",
    ["fvhoe/slope_limiting.py"],
    [("minmod, moncen, MUSCL_interpolations", "fvhoe/slope_limiting.py")],
    ["MUSCL_interpolations", "minmod", "moncen"],
)
prop(
    "C19",
    "Troubled-cell detection flags exactly the cells its criteria describe",
    """A cell is flagged exactly when, for some selected variable, its candidate leaves the range of the previous values of the cell and all its axis and diagonal neighbours by more than
    the tolerance times the (local or global) range, or in absolute mode leaves that (local or global) range scaled by the tolerance, without being a smooth extremum of that variable, or when any bounded variable leaves
    its physical bounds (even at smooth extrema). A smooth extremum is one where, in the cell and its immediate neighbours along every active axis, the candidate's two one-sided second differences agree in sign and within a factor of
    three or are negligible. The reported magnitudes are zero in cells without that violation and otherwise its depth, the worst over variables.""",
    ["inputs", "configurations"],
    "all previous and candidate values on small grids, modes, ranges, variable selections, bounds, dimensions",
    "tests use hand-made arrays for a few modes",
    ["fvhoe/slope_limiting.py", "fvhoe/smooth_extrema_detection.py"],
    [("detect_troubled_cells, compute_NAD, compute_PAD", "fvhoe/slope_limiting.py"), ("smooth extrema detection", "fvhoe/smooth_extrema_detection.py")],
    ["detect_troubled_cells"],
)
prop(
    "C20",
    "Limiting replaces exactly the fluxes around troubled cells and nothing else",
    """An interface is revised exactly when it touches a troubled cell with weight one (with convex blending, in 1D and 2D, with the larger of the weights of its two cells: 1 for a troubled cell, 3/4 for a cell sharing a face with one, 1/2 for one sharing only a corner, 1/4 for one within two cells of one along every axis, else 0); a revised flux is the blend of the
    high-order and the slope-limited fallback flux with that weight, and fluxes away from troubled cells stay high order. With no trouble the scheme is the unlimited one, with
    every cell forced to trouble it is the limited fallback scheme everywhere, and coinciding periodic interfaces are revised identically.""",
    ["inputs", "configurations"],
    "all patterns of troubled cells, grids, periodicity settings and states within the bounds",
    "tests check a few patterns in 1D/2D",
    ["fvhoe/slope_limiting.py", "fvhoe/solver.py"],
    [("broadcast_to_troubled_interfaces", "fvhoe/slope_limiting.py"), ("revise_fluxes", "fvhoe/solver.py")],
    ["broadcast_to_troubled_interfaces", "right-hand side"],
)
prop(
    "C21",
    "Every integrator attains its order for all right-hand sides",
    """Each time integrator is an explicit Runge-Kutta method satisfying the order conditions of its name (1, 2, 3, 4) with stage times consistent with its stages, for any right-hand side, any state and any step size, and the two SSP methods are
    convex combinations of forward Euler steps. All stages of a step use the one step size chosen at its start, and the integrator chosen automatically matches the polynomial degree up to fourth order.""",
    ["inputs", "programs"],
    "all right-hand sides f(t,u) (black boxes), states, times and step sizes",
    "tests integrate two or three scalar problems, mostly autonomous, so wrong stage times or weights that cancel go unseen",
    ["fvhoe/ode.py", "fvhoe/solver.py"],
    [("euler, ssprk2, ssprk3, rk4", "fvhoe/ode.py"), ("run", "fvhoe/solver.py")],
    ["state and time after a step"],
)
prop(
    "C22",
    "Runs hit the target times exactly and log the promised snapshots",
    """For every sequence of step sizes, in exact mode the run lands exactly on each not yet reached requested time in increasing order and on the final time, takes a snapshot at the start and exactly one at each of them, never steps
    past the next target, and never enlarges a step; otherwise steps are untouched and the run ends at the first time not before the end. Step-count mode takes exactly n steps with one snapshot
    before and one after; logging every step adds one snapshot per step, and recorded timestamps are strictly increasing.""",
    ["inputs", "histories", "configurations"],
    "all positive step-size sequences, target lists (unsorted, duplicate, past, beyond the end) within the bounds",
    "tests run fixed time steps with a few targets",
    ["fvhoe/ode.py"],
    [("integrate, take_step, _hit_target", "fvhoe/ode.py")],
    ["timestamps", "snapshot_times", "step_count", "t"],
)
prop(
    "C23",
    "Snapshots record the state at their time and later steps never change them",
    """Each snapshot holds the time, the coordinates and the primitive variables (finite-volume averages or centre values, as configured) of the state at that moment, and for limited runs the trouble flags and violation magnitudes averaged over the stages of the
    last step. Nothing that happens later alters an earlier snapshot, snapshot times and snapshots correspond one to one, and taking snapshots does not alter the solution.""",
    ["inputs", "histories"],
    "all states and step sequences within the bounds, all stage counts",
    "tests look at final snapshots only",
    ["fvhoe/solver.py", "fvhoe/ode.py", "fvhoe/array_management.py"],
    [("snapshot, log_troubles, step_helper_function", "fvhoe/solver.py"), ("get_numpy copy", "fvhoe/array_management.py")],
    ["snapshots", "snapshot_times"],
)
prop(
    "C24",
    "Built-in problems start from their documented fields at every point",
    """At every point each built-in initial condition returns its published primitive values: the right region, side and formula for every coordinate, all five variables set, with positive density and pressure, and passive scalars placed in their own named components with no effect on the others.
    """,
    ["inputs", "configurations"],
    "all coordinates (symbolic), parameters and dimensions offered by each problem",
    "tests instantiate problems on fixed meshes and check shapes",
    ["fvhoe/initial_conditions.py", "fvhoe/boundary_conditions.py"],
    [("InitialCondition subclasses", "fvhoe/initial_conditions.py"), ("double Mach reflection boundary", "fvhoe/boundary_conditions.py")],
    ["initial condition functions"],
)
prop(
    "C25",
    "Plots and extracted slices show the requested data",
    """For every snapshot, requested time, coordinate and field, the extraction returns the snapshot nearest in time, the grid index nearest to the requested coordinate, the values of the requested field (velocity magnitude, functions of
    fields and trouble included) along the requested axes in order, and the coordinates belonging to them; no argument is silently ignored. The angle-averaged profile groups cells by distance from the centre.""",
    ["inputs", "configurations"],
    "all field values and requested coordinates/times within the bounds",
    "plotting tests only check that nothing raises",
    ["fvhoe/visualization.py", "fvhoe/solver.py"],
    [("nearest index, slices, circular average", "fvhoe/visualization.py")],
    ["visualization functions"],
)
prop(
    "C26",
    "The timer attributes elapsed time exactly to the running categories",
    """For every sequence of start/stop calls and clock readings, the cumulative time of a category is exactly the total time between its matching starts and stops, nested and interleaved categories do not affect
    each other, and misuse (unknown category, starting twice, stopping what is not running) is rejected without corrupting the totals.""",
    ["histories", "inputs"],
    "all call sequences up to the bound with all nondecreasing clock readings",
    "tests sleep a little and compare loosely",
    ["fvhoe/timer.py"],
    [("Timer.start/stop", "fvhoe/timer.py")],
    ["Timer.cum_time", "Timer.to_dict", "Timer.report"],
)
prop(
    "C27",
    "Saved results are never destroyed or confused without permission",
    """Without the overwrite flag an existing snapshot directory is never deleted or rewritten: its snapshots are loaded, with their times, and no step is taken; with it, only that directory is cleared and
    replaced by the complete new results. Nothing is written for runs without a directory, and nothing outside the named directory is touched.""",
    ["histories", "inputs", "configurations"],
    "all combinations of existing/absent directory, overwrite flag, and run mode",
    "tests exercise one or two of the combinations",
    ["fvhoe/solver.py", "fvhoe/ode.py"],
    [("integrate, read_snapshots, write_snapshots", "fvhoe/ode.py, fvhoe/solver.py")],
    ["file operations", "snapshots"],
)
prop(
    "C28",
    "The full scheme is design-order accurate: exact on advected polynomials",
    """With constant velocity and pressure and a density (and passive scalar) that is a polynomial of degree at most the scheme's degree in each direction, and boundaries that supply the exact averages, the right-hand side equals the exact
    rate of change of the cell averages in every cell, for every dimension and Riemann solver.""",
    ["inputs", "configurations"],
    "all such polynomials, velocities, pressures, degrees, dimensions within the bounds",
    "convergence tests sample one smooth profile and tolerate losing part of an order",
    ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/stencils.py", "fvhoe/riemann_solvers.py"],
    [("hydrofluxes", "fvhoe/solver.py")],
    ["right-hand side"],
)

NOT_APPLICABLE = [
    ("C29", "GPU (CuPy) runs give the same results as CPU runs", "For every configuration the CuPy code path computes what the NumPy path computes.",
     "CuPy and a GPU are absent from the sandbox and the kernels behind CuPy are not Python source that can be executed symbolically."),
    ("C30", "Rounding errors stay at machine-precision level", "Floating-point results differ from the exact-arithmetic scheme by no more than a small multiple of machine epsilon for every admissible input, and the final time is hit to the last bit.",
     "The encoding interprets floats as reals; bit-precise IEEE encodings of the vectorised pipelines (hundreds of operations, division, sqrt) are out of reach of the solvers here. Rounding is only validated by replaying the encoding against the real code."),
    ("C31", "Solutions converge to the entropy solution at the design rate", "For nonlinear problems the error against the exact solution decays at the design order, or first order at shocks, as resolution grows.",
     "An asymptotic statement over unboundedly many cells and steps; it has no bounded symbolic formulation (exactness on polynomials, C28, and the order conditions, C21, are the decidable parts)."),
    ("C32", "Snapshot files restore bit-identical snapshots", "Reading a saved run restores arrays identical to those saved.",
     "The round trip is CPython's pickle and the file system (C code), outside the Python source that can be executed symbolically; which object is handed to pickle and when is covered by C27."),
]
for id, title, st, _ in NOT_APPLICABLE:
    prop(id, title, st, ["inputs", "configurations"], "all inputs", "outside the sampled inputs", ["fvhoe/solver.py"], [("see DESIGN.md", "fvhoe")])


def main():
    built = [p for p in P if os.path.exists(f"{ROOT}/props/{p['rec']['id'].lower()}.py")]
    na = {i: r for i, _, _, r in NOT_APPLICABLE}
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    checks = []
    sys.path.insert(0, ROOT)
    import re

    for p in built:
        i = p["rec"]["id"]
        src = open(f"{ROOT}/props/{i.lower()}.py").read()
        m = re.search(r"^META = dict\((.*)^\)", src, re.S | re.M)
        meta = eval("dict(" + m.group(1) + ")", {}) if m else {}
        checks.append(
            dict(
                property=i,
                quick_cmd=f"{PY} check.py {i} --tier quick",
                thorough_cmd=f"{PY} check.py {i} --tier thorough",
                technique="symbolic execution of the real Python/NumPy code on exact reals with SMT (z3, cvc5) deciding each obligation",
                level="other",
                level_note="Bounded, for all values: " + meta.get("bounds", "") + ". Assumes: " + "; ".join(meta.get("assumptions", ["real arithmetic in place of IEEE rounding"]))
                + ". Trusts the symbolic NumPy layer (validated against the real code on a random input in every run) and z3/cvc5; counterexamples are replayed on the real code before being reported.",
            )
        )
    todo = [dict(property=p["rec"]["id"], reason=na.get(p["rec"]["id"], "no check built yet")) for p in P if p not in built]
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(dict(version=1, setup_cmd=f"{PY} -c 'import numpy'", checks=checks, not_applicable=todo,
                       notes="See DESIGN.md. MANIFEST.json and properties.jsonl are written by tools/catalogue.py."), f, indent=1)
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
