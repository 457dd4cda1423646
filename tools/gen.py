#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below.

    python3 tools/gen.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note))


MONITOR = "runtime monitoring: "
TRUST = ("Exploration: the property held on every execution observed (counts and distinct states in the evidence), "
         "not on all inputs. ")

P("C01", "Every coil's flux and field are those of its current in free space",
  "For every kind of coil (loop, solenoid, shaped, filament, multi-filament, precomputed, mirrored and circuits of "
  "them) the poloidal flux and the magnetic field it reports at any point equal the sum of exact circular-current-loop "
  "fields of the current and turns it was given. They are linear in the current, reciprocal, obey Ampere's law around "
  "the coil, and have the same shape as the points asked for, whichever way the field is obtained.",
  ["inputs", "configurations"],
  "all coil types, positions, shapes, turns, currents, polarities, and evaluation points given as scalars or arrays",
  "The tests sample two coils at a few points; only a comparison with the analytic loop field over random coils of "
  "every type, and at points near, far and on the axis, separates a correct field from a nearly correct one.",
  ["freegs/gradshafranov.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py",
   "freegs/multi_coil.py", "freegs/pre_calc_coil.py", "freegs/machine.py"],
  [("Greens/GreensBr/GreensBz", "freegs/gradshafranov.py"), ("Coil.controlPsi/controlBr/controlBz", "freegs/coil.py"),
   ("ShapedCoil quadrature", "freegs/shaped_coil.py"), ("Solenoid, Circuit, MirroredCoil", "freegs/machine.py")],
  "reference-model monitor (exact loop fields, Ampere's law, reciprocity) over random coils",
  "Trusts scipy's elliptic integrals and an independent quadrature of the Biot-Savart law.")

P("C02", "A machine is the superposition of its coils, through any control history",
  "The flux and field of a machine are at all times the sum over its coils, with the currents, turns and circuit "
  "multipliers then in force, and the precomputed responses agree with direct evaluation. Reading, setting and "
  "adjusting the controlled currents acts on exactly the coils under control, in the documented order, and leaves all "
  "other currents as they were.",
  ["histories", "configurations"],
  "all machines (mixtures of coils, solenoids, circuits; any labels and control flags) and all histories of current "
  "changes, control switches and evaluations",
  "Bookkeeping between circuits, control lists and precomputed responses goes wrong only for particular mixtures and "
  "orders of operations; the tests use one or two coils and no history.",
  ["freegs/machine.py"],
  [("Machine.psi/Br/Bz/createPsiGreens/calcPsiFromGreens", "freegs/machine.py"),
   ("controlAdjust/controlCurrents/setControlCurrents", "freegs/machine.py"), ("Circuit", "freegs/machine.py")],
  "shadow-model monitor over random operation histories",
  "The shadow model keeps filament lists and currents; device builders are compared with their own coil lists.")

P("C03", "The linear solve returns the solution of the Grad-Shafranov equation",
  "For every rectangular grid, domain and supported order, the flux returned by the linear solve satisfies the "
  "discretised Grad-Shafranov equation in the interior and keeps the prescribed values on all four edges, independent "
  "of the initial guess and linear in the source. It reproduces exactly the solutions the scheme must be exact for and "
  "converges to smooth solutions at the order of the scheme.",
  ["inputs", "configurations"],
  "all domains, grid shapes (nx different from ny), both orders, sources and boundary values",
  "The tests solve on one square grid with zero boundary values and compare with the same operator.",
  ["freegs/gradshafranov.py", "freegs/multigrid.py", "freegs/equilibrium.py"],
  [("GSsparse, GSsparse4thOrder, GSElliptic", "freegs/gradshafranov.py"), ("MGDirect", "freegs/multigrid.py"),
   ("Equilibrium.solve", "freegs/equilibrium.py")],
  "manufactured-solution and residual monitors on the real solver",
  "Independent finite differences written in the harness; exact polynomial and vacuum solutions.")

P("C04", "Boundary conditions give the flux of the plasma current in free space",
  "With a free boundary the flux imposed on every edge point is the flux there of the toroidal current distribution "
  "in infinite space, by either the direct integral or von Hagenow's method; with a fixed boundary it is zero. "
  "Applying a boundary condition changes nothing in the interior, and the solution inside then has the field of "
  "that current and obeys Ampere's law.",
  ["inputs", "configurations"],
  "all current distributions inside the domain, both signs, all grids and domains",
  "No test looks at edge values; errors at corners or on one edge are invisible in converged global quantities.",
  ["freegs/boundary.py", "freegs/equilibrium.py"],
  [("freeBoundary, freeBoundaryHagenow, fixedBoundary", "freegs/boundary.py"), ("Equilibrium.solve", "freegs/equilibrium.py")],
  "reference-model monitor on every edge value (independent Green's function integral)",
  "Von Hagenow's method is judged within its discretisation error.")

P("C05", "The Picard solve stops only on a self-consistent equilibrium, or says so",
  "When the iteration returns, the change of flux in the last step was within the absolute or relative tolerance asked "
  "for, the state satisfies Grad-Shafranov with the current of the given profiles and the coil currents of the last "
  "constraint step, and the reported convergence history describes the iterations that took place. When the iteration "
  "limit is reached first, an error is raised; blending, constraints and boundary checks act as documented.",
  ["histories", "configurations"],
  "all machines, profiles, constraint sets, tolerances, iteration limits, blends, signs of current, limited and diverted plasmas",
  "The tests run one solve to completion; premature stopping, stale constraints or a wrong convergence record still "
  "give a plausible equilibrium.",
  ["freegs/picard.py", "freegs/equilibrium.py"],
  [("picard.solve", "freegs/picard.py"), ("Equilibrium.solve", "freegs/equilibrium.py")],
  "trace monitor on linear solves and coil adjustments, end-state invariant",
  "Traces the public methods called by the iteration.")

P("C06", "Profiles deliver the current, pressure and beta they are constrained to",
  "The toroidal current density a profile object returns integrates to the requested plasma current, equals "
  "R p' + f f'/(mu0 R) of the profile functions it reports inside the plasma and is zero outside, and meets the "
  "requested axis pressure or poloidal beta. Pressure and f are the integrals of p' and f f' with the right edge "
  "values and sign, for scalar and array arguments alike.",
  ["inputs", "configurations"],
  "all profile kinds, targets, exponents, signs of current and vacuum field, and plasma states",
  "The single test checks that an object can be constructed; constraints are met only approximately by eye.",
  ["freegs/jtor.py"],
  [("ConstrainPaxisIp, ConstrainBetapIp, ProfilesPprimeFfprime", "freegs/jtor.py"), ("Profile.pressure/fpol", "freegs/jtor.py")],
  "invariant and reference-integral monitors over random states",
  "Integration on the same grid as the code (Romberg), independent quadrature in flux.")

P("C07", "Magnetic axes and X-points are found, correctly typed and ordered",
  "Every reported axis or X-point is a point of the domain where the poloidal field vanishes, with its flux value and correct type, "
  "and every well-resolved one inside the domain is reported once. The primary axis is the one nearest the middle of "
  "the domain, X-points are ordered by closeness in flux to it, and those not reached monotonically from the axis are "
  "left out.",
  ["inputs"],
  "all flux maps on rectangular grids, either sign, any number of O- and X-points",
  "The tests use one analytic function with a single O- and X-point on one grid.",
  ["freegs/critical.py"], [("find_critical", "freegs/critical.py")],
  "reference-model monitor (analytic critical points by Newton's method)",
  "Points that the grid does not resolve, or in nearly vanishing field, are not judged for completeness.")

P("C08", "The core mask is the connected region inside the last closed flux surface",
  "The mask is 1 exactly on the grid points connected to the magnetic axis with flux between the axis and the "
  "boundary value, and 0 on every other point, private flux regions and other current lobes included. This holds for "
  "both signs of flux, any number of X-points, an explicitly given boundary flux and plasmas touching the domain edge.",
  ["inputs"],
  "all flux maps, X-point sets, boundary values, grid shapes",
  "No existing test looks at the mask next to X-points or at the domain edge.",
  ["freegs/critical.py", "freegs/equilibrium.py"],
  [("core_mask", "freegs/critical.py"), ("Equilibrium._updatePlasmaPsi", "freegs/equilibrium.py")],
  "reference-model monitor (independent flood fill on a refined flux)",
  "The 3x3 patch around each X-point is judged only for flux beyond the boundary value.")

P("C09", "The plasma boundary is the first of wall contact and X-point",
  "When limiter checking is on, the boundary flux is that of the wall point or X-point reached first from the axis, "
  "the plasma is reported as limited exactly when it is the wall, and the contact point lies on the wall with that flux. "
  "Points tested on the wall are spread evenly over it and lie on it; both signs of current behave alike, and with "
  "checking off the X-point decides.",
  ["inputs", "configurations"],
  "all walls inside the domain, plasma states and signs of current, checking on or off",
  "The tests never read the limiter decision; a wrong one still converges to some plasma.",
  ["freegs/equilibrium.py", "freegs/machine.py", "freegs/critical.py"],
  [("Equilibrium._updateBoundaryPsi / _updatePlasmaPsi", "freegs/equilibrium.py"), ("Wall, limit_points", "freegs/machine.py")],
  "reference-model monitor (own wall scan of the flux)",
  "Judged within the spacing of the wall points.")

P("C10", "Linear constraints are met in the least-squares sense, within the limits",
  "The coil currents after applying X-point, isoflux and flux constraints minimise the documented regularised sum of "
  "squares over the controlled currents, within individual and total current limits if given. Coils not under control, "
  "and the plasma, are left unchanged; enough free coils meet the constraints to within the regularisation.",
  ["inputs", "configurations"],
  "all machines, constraint sets, weights of regularisation, current limits and plasma states",
  "The tests check one X-point case by its result; optimality over all feasible currents needs an independent optimum.",
  ["freegs/control.py"], [("constrain.__call__", "freegs/control.py")],
  "optimality monitor (independent least squares, perturbation of feasible currents)",
  "Bounded fits are judged by first-order optimality and by random feasible perturbations.")

P("C11", "Fits of a whole flux map do not end worse than alternatives they allow",
  "Fitting coil currents to a given flux map, in its plain, normalised and bounded forms, minimises the documented "
  "weighted residual over the currents under control, honours current limits, and leaves other coils alone. A flux map "
  "made by the machine itself is recovered.",
  ["inputs", "configurations"],
  "all target maps, weights, regularisation, limits and machines",
  "No test calls these fits at all.",
  ["freegs/control.py"], [("ConstrainPsi2D, ConstrainPsi2DAdvanced, ConstrainPsiNorm2D", "freegs/control.py")],
  "optimality monitor (objective recomputed, feasible perturbations, recovery)",
  "The numerical optimiser is judged by comparison with many feasible alternatives.")

P("C12", "Saving to HDF5 and reading back gives the same equilibrium",
  "An equilibrium written to an HDF5 file and read back has the same grid, flux, plasma current, boundary "
  "flux, mask, wall and machine (coils, solenoids, circuits, shapes, turns, currents, control flags), evaluates to the "
  "same fields everywhere, and can be solved further. The arrays in the file are those of the equilibrium. What cannot be stored is refused, not lost.",
  ["inputs", "configurations", "histories"],
  "all machines, coil types, grids, profiles, options, and histories before saving",
  "The test reads back one simple machine and compares a few arrays.",
  ["freegs/dump.py", "freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py"],
  [("OutputFile.write_equilibrium/read_equilibrium", "freegs/dump.py"), ("to_numpy_array/from_numpy_array", "freegs/coil.py")],
  "round-trip monitor (observable state before and after)",
  "The order in which coils are listed is not part of the file format.")

P("C13", "Exported G-EQDSK and DivGeo files describe the equilibrium",
  "A G-EQDSK file written from an equilibrium contains, on its grid and on uniform normalised flux from axis to edge, "
  "the flux, pressure, f, p', f f', q, axis, boundary, current and wall of that equilibrium, in the format's units and "
  "order. A DivGeo file contains the same flux map, grid and vacuum field.",
  ["inputs", "configurations"],
  "all equilibria, grids, signs of current and field, labels",
  "The test only checks that a file can be written and read again.",
  ["freegs/geqdsk.py", "freegs/_divgeo.py"], [("geqdsk.write", "freegs/geqdsk.py"), ("_divgeo.write", "freegs/_divgeo.py")],
  "output monitor (independent parser compared with the equilibrium's own fields)",
  "File precision is ten digits.")

P("C14", "Reading a G-EQDSK file reconstructs the equilibrium it holds",
  "Reading a G-EQDSK file with a machine gives an equilibrium on the file's grid and domain, with the file's pressure "
  "and f profiles, plasma current and vacuum field, and coil currents fitted so that axis, X-points and flux agree "
  "with the file to the fit tolerance. A requested resolution, domain, or limiter option is honoured.",
  ["inputs", "configurations", "histories"],
  "all files of equilibria a machine can carry, options for domain and refinement, previous state of the machine",
  "The one test reads a file it wrote itself and asserts nothing about what was read.",
  ["freegs/geqdsk.py", "freegs/control.py"], [("geqdsk.read", "freegs/geqdsk.py")],
  "round-trip monitor through real files",
  "Judged within the error of the fit and of the Picard tolerance.")

P("C15", "Flux, normalised flux and magnetic field of an equilibrium agree everywhere",
  "At every point, the total flux is plasma plus coils, the poloidal field is its derivative, the toroidal field is f/R "
  "with the profile's f inside the plasma and the vacuum value outside, and pressure and p' follow the normalised "
  "flux, which is 0 on the axis and 1 on the boundary. The field is divergence-free and obeys Ampere's law, and results "
  "do not depend on whether points are given as scalars or arrays, or on queries made before.",
  ["inputs", "histories"],
  "all states, points and shapes of input",
  "Tests evaluate none of these against each other away from one grid point.",
  ["freegs/equilibrium.py"], [("psi, psiRZ, psiN, Br, Bz, Btor, Bpol, Btot, pressure, fpol", "freegs/equilibrium.py")],
  "cross-consistency and Ampere/Gauss monitors on sampled points",
  "Finite differences and line integrals within interpolation error of the grid.")

P("C16", "The separatrix and geometric quantities describe the last closed flux surface",
  "All points of the reported separatrix lie on the boundary flux surface, enclose the axis and are in angular order, "
  "and major and minor radius, aspect ratio, elongation, triangularity and volume of the plasma are "
  "those of that surface by their definitions. Inner and outer points lie where the surface crosses the height asked for.",
  ["inputs", "configurations"],
  "all diverted and limited states, grids, numbers of points",
  "The tests check none of the shape quantities against the actual surface.",
  ["freegs/equilibrium.py", "freegs/critical.py"],
  [("find_separatrix, find_psisurface", "freegs/critical.py"), ("geometricAxis, minorRadius, elongation, triangularity ...", "freegs/equilibrium.py")],
  "reference-model monitor (independent contour of the flux)",
  "Judged within the resolution of the contour near X-points.")

P("C17", "The safety factor is the toroidal turns per poloidal turn of a field line",
  "The safety factor on every closed flux surface equals the contour integral of f/(2 pi R^2 Bpol), in magnitude also "
  "the ratio of turns of a traced field line, has the documented relation to the signs of field and current, and is "
  "independent of how the surfaces are asked for (scalar, list, array, number). The toroidal flux and the normalised "
  "toroidal radius at any flux follow from the integral of q from the magnetic axis (0 on the axis, 1 at the boundary).",
  ["inputs"],
  "all states, limited and diverted, all normalised flux values, and input forms",
  "No test evaluates q.",
  ["freegs/critical.py", "freegs/equilibrium.py"], [("find_safety", "freegs/critical.py"), ("Equilibrium.q", "freegs/equilibrium.py")],
  "reference-model monitor (own flux-surface integral)",
  "Within 1-2 percent away from axis and separatrix.")

P("C18", "Global scalars (betas, inductances, energies, averages) match their definitions",
  "Every poloidal and toroidal beta, normalised beta, internal inductance, stored energy, averaged field or flux-surface "
  "average reported by an equilibrium equals its documented definition evaluated on the same state, and scales with "
  "pressure and current as the definition says.",
  ["inputs", "configurations"],
  "all states, profiles, signs, grids and limiter options",
  "The tests do not evaluate any of these.",
  ["freegs/equilibrium.py"], [("poloidalBeta, toroidalBeta, betaN, internalInductance, pressure_ave, w_th ...", "freegs/equilibrium.py")],
  "reference-model monitor (definitions re-evaluated independently)",
  "Integrals over the same grid and mask.")

P("C19", "Sensors measure the field, flux and current that they would see",
  "A Rogowski coil reports the total current (coil turns and plasma) inside its loop, a poloidal field probe the field "
  "component in its direction, a flux loop the flux at its position; a sensor that is off measures nothing. Readings "
  "follow the machine and plasma through any history and measuring changes neither.",
  ["inputs", "configurations", "histories"],
  "all sensor positions, orientations, loops around coils and plasma, machines and states",
  "The tests have one sensor each around simple coils.",
  ["freegs/machine.py", "freegs/polygons.py"], [("RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor", "freegs/machine.py")],
  "reference-model monitor on measurements",
  "The current enclosed is known from the coil list and an independent point-in-polygon integral.")

P("C20", "Coil forces are the Lorentz forces in the total field",
  "The force reported for each coil is 2 pi R times its current crossed with the field of everything else, plus its own "
  "hoop self-force, for coils alone and in circuits, with plasma or in vacuum. Mutual vertical forces cancel in sum and "
  "forces scale with the square of the currents.",
  ["inputs", "configurations"],
  "all machines, currents, coil types, circuits, with and without plasma",
  "No test evaluates forces.",
  ["freegs/coil.py", "freegs/machine.py", "freegs/equilibrium.py"],
  [("Coil.getForces", "freegs/coil.py"), ("Machine.getForces, Circuit.getForces", "freegs/machine.py"), ("Equilibrium.getForces", "freegs/equilibrium.py")],
  "reference-model and conservation monitors",
  "Self-force follows the published hoop formula with the documented constant.")

P("C21", "The optimiser returns the best candidate it evaluated",
  "The optimiser returns the candidate with the lowest measure among those it evaluated, never worse than the start, "
  "uses only controls within their limits, and lets the controls and measures act on exactly the quantity they name. "
  "Candidates that cannot be solved never win, and candidates do not influence one another.",
  ["inputs", "histories", "fault_sequences"],
  "all populations, measures, limits, generation counts, failing solves",
  "The tests minimise one smooth function; bookkeeping of best candidates shows only over histories.",
  ["freegs/optimiser.py", "freegs/optimise.py"], [("optimise, mutate, pickUnique", "freegs/optimiser.py"), ("controls and measures", "freegs/optimise.py")],
  "trace monitor over evaluated candidates with injected failures",
  "All evaluations are logged through the user-supplied measure.")

P("C22", "Polygon and quadrature operations are geometrically exact",
  "Area, orientation, intersection and triangulation of polygons agree with exact geometry: triangles tile the polygon "
  "without overlap, intersections are found exactly where the lines cross. Quadrature over triangles and polygons "
  "integrates polynomials of its degree exactly, with weights summing to one and points inside.",
  ["inputs"],
  "all simple polygons (concave, any orientation and size) and lines",
  "The tests use a square or two.",
  ["freegs/polygons.py", "freegs/quadrature.py"], [("area, clockwise, intersect, triangulate", "freegs/polygons.py"), ("polygon_quad", "freegs/quadrature.py")],
  "reference-model monitor (exact rational geometry)",
  "Exact arithmetic in the harness.")

P("C23", "Traced field lines follow the magnetic field",
  "A traced field line follows the direction of the field, so that it stays on its flux surface, its recorded length "
  "grows as the distance along it, and forward and backward tracing are inverse to each other. It stops at the wall or "
  "domain edge and not before.",
  ["inputs"],
  "all equilibria, starting points, angles and directions, with and without a wall",
  "No test traces a field line.",
  ["freegs/fieldtracer.py"], [("FieldTracer, traceFieldLines, LineCoordinates", "freegs/fieldtracer.py")],
  "online invariant monitor along traced lines",
  "Drift is judged within interpolation and integrator error.")

P("C24", "Changing resolution or domain keeps the equilibrium",
  "Refining, coarsening or changing the domain of an equilibrium gives one on the grid asked for with the same machine, "
  "current, options and, where they overlap, the same flux, which stays solvable with the same profiles. The original is "
  "not altered, and refining followed by coarsening returns to the original.",
  ["inputs", "configurations", "histories"],
  "all states, grids, domains, options and sequences of changes",
  "One test refines once and compares only shapes.",
  ["freegs/equilibrium.py"], [("refine, coarsen, newDomain", "freegs/equilibrium.py")],
  "differential monitor before/after over histories",
  "Interpolation error allowed.")

P("C25", "Multigrid cycles converge to the direct solution",
  "For any number of levels, cycles and smoothing steps, the exact solution is a fixed point of the multigrid solver, "
  "cycles reduce residual and error, and repeated cycles converge to the result of the direct solver, with the "
  "prescribed edge values kept, on square and rectangular grids.",
  ["inputs", "configurations"],
  "all grids that can be coarsened, numbers of levels, cycles, iterations, right hand sides",
  "The one test uses a single grid and a single number of levels.",
  ["freegs/multigrid.py", "freegs/equilibrium.py"], [("MGDirect, MGJacobi, MGVcycle, createVcycle", "freegs/multigrid.py"), ("setSolverVcycle", "freegs/equilibrium.py")],
  "residual monitor along cycles, differential against the direct solver",
  "Rates are judged only as decrease.")

P("C26", "Equilibria respect the symmetries of the physics",
  "Reversing all currents reverses flux and poloidal field, mirroring the machine and constraints up-down mirrors the "
  "equilibrium, and scaling lengths or currents scales the solution by the corresponding power. Relabelling or "
  "reordering coils, and adding coils that carry no current, change nothing.",
  ["inputs", "configurations"],
  "all machines, constraints, profiles and states, through complete solves",
  "A test compares with stored numbers of one sign and orientation; asymmetric errors hide in tolerances.",
  ["freegs/equilibrium.py", "freegs/picard.py", "freegs/control.py", "freegs/jtor.py", "freegs/critical.py", "freegs/machine.py"],
  [("complete solve", "freegs/picard.py")],
  "metamorphic monitor on pairs of complete executions",
  "Both runs use the real code; only their relation is judged.")

P("C27", "Queries do not change state, and objects do not share it",
  "Evaluating any diagnostic, plot, file output or field query leaves an equilibrium and its machine exactly as they "
  "were, and repeated queries give the same answer. Objects made independently do not affect each other, nor do arrays "
  "handed in or out change behind the user's back.",
  ["histories"],
  "all sequences of queries on all states, and all pairs of independently made objects",
  "Hidden mutation shows only in the next operation, which no test performs.",
  ["freegs/equilibrium.py", "freegs/machine.py", "freegs/multi_coil.py", "freegs/control.py", "freegs/jtor.py"],
  [("all query methods", "freegs/equilibrium.py"), ("coil and machine constructors", "freegs/machine.py")],
  "state-fingerprint monitor around every query of random histories",
  "The fingerprint is taken of the observable state.")

P("C28", "Moving or changing a coil changes its field accordingly",
  "After a coil's position, shape, turns or current is changed through its interface, its flux, field, outline and "
  "stored form are those of a coil built that way from the start. A move there and back restores the original.",
  ["histories", "configurations"],
  "all coil types that can be moved, and sequences of changes",
  "The tests never move a coil.",
  ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/optimise.py"],
  [("R/Z setters", "freegs/shaped_coil.py, freegs/filament_coil.py, freegs/multi_coil.py")],
  "differential monitor against freshly built coils over histories",
  "Precomputed coils cannot be moved and are excluded.")

P("C29", "Plots draw the objects given, where they are, on the axis given",
  "Plots of machines, sensors, constraints and equilibria show every coil, wall, sensor, constraint, axis and X-point at its "
  "present location, flux contours on the flux of their level and the plasma boundary at the boundary flux, only the parts "
  "asked for, on the given axis (or a new one) and no other, show the figure only when asked to, and change nothing.",
  ["inputs", "configurations"],
  "all coil kinds and circuits, moved coils, wall and sensor sets, states, constraint sets and options",
  "The tests draw nothing.",
  ["freegs/plotting.py", "freegs/machine.py", "freegs/coil.py", "freegs/multi_coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/control.py"],
  [("plotEquilibrium, plotConstraints", "freegs/plotting.py"), ("plot methods", "freegs/machine.py, freegs/coil.py, freegs/multi_coil.py, freegs/shaped_coil.py, freegs/filament_coil.py")],
  "monitor over everything drawn on the axes",
  "Colours, labels and the mirrored half of a MultiCoil are not judged.")

P("C30", "Machines and their parts are equal exactly when their descriptions are",
  "Machines, circuits, coils of all kinds, solenoids, walls and sensors compare equal exactly when they are of the same kind and "
  "described by the same values (machines whatever the order of their coils), also after changes through their interface. Any two can be "
  "compared; comparison is symmetric, the opposite of inequality and changes nothing. The printed form states the description.",
  ["inputs", "configurations", "histories"],
  "all kinds of coils, circuits, walls, sensors and machines, and pairs that differ in any one value or in kind",
  "The tests compare one machine read back with the original; nothing that differs is compared.",
  ["freegs/machine.py", "freegs/coil.py", "freegs/multi_coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/pre_calc_coil.py"],
  [("__eq__, __ne__, __repr__", "freegs/machine.py, freegs/coil.py, freegs/multi_coil.py, freegs/shaped_coil.py, freegs/filament_coil.py, freegs/pre_calc_coil.py")],
  "monitor comparing equality with that of the descriptions objects were built from",
  "Differences below 1e-3 in walls and outlines (compared with a tolerance), name, weight and reading of sensors, R0 and sensors of machines are not judged.")


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --selftest",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": MONITOR + p["technique"],
                "level": "exploration",
                "level_note": TRUST + p["note"],
            }
            for p in have
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo: the monitors observe the public interface. Repairs are the 'fix:' commits; see KNOWN_FINDINGS.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(have), "properties")


if __name__ == "__main__":
    main()
