"""The checks: which harnesses decide which property."""
def h(harness, set="core", variant="o1", **k): return dict(harness=harness, set=set, variant=variant, **k)
CHECKS = {}
def check(pid, bins, rule, note, technique="property-based testing (generated inputs, explicit oracle, shrinking)", level="exploration", assumptions=()):
    CHECKS[pid] = dict(bins=bins, rule=rule, note=note, technique=technique, level=level, assumptions=list(assumptions))

check("C01", [h("c01", variant="asan")],
  "Parameter files are generated from a grammar (names, 0-4 value words, quotes, comments, all white space, duplicates, sizes near buffer growth steps) and as raw bytes; non-trivial = the file contains at least one assignment. Oracle: the map the grammar produced them from; AddressSanitizer for raw bytes.",
  "Random search over generated parameter files against the generating map; no proof of absence. Trusts the C library and AddressSanitizer.")
check("C02", [h("c02", variant="asan")],
  "Histories of 1-40 database operations over colliding names and list values, compared after and during the history with an ordered map; non-trivial = at least one write and two parameters.",
  "Random model-based histories; no proof of absence.")
check("C05", [h("c05", set="solve")],
  "Histories of variable registrations and list operations compared with a reference registry and reference lists, and list arithmetic on random grid data compared with the same operation done point by point; non-trivial = at least one list with more than one entry.",
  "Random model-based histories.")
check("C06", [h("c06", variant="asan")],
  "Every accepted tensor index form, at random registration positions; component names, count and parities against the tensor-symmetry definition; unknown forms must be refused.",
  "All forms the code accepts, random names and neighbours; parities of 2d indices are marked as undecided in the source and not checked.")
check("C07", [h("c07", variant="asan")],
  "Histories of enabling, disabling, writing, copying, freeing, extending and (de)activating over up to four grids of 1-4 random boxes, compared after every operation with a model of what is stored, memory ranges tested for overlap, memory in use tracked; non-trivial = data were written and a grid was copied (or a long history).",
  "Random model-based histories under AddressSanitizer.")
check("C08", [h("c08", variant="asan")],
  "Histories of every list operation on three integer lists, two point lists on 1-7 boxes, box lists and bface lists, each compared after every operation with plain sequences; non-trivial = a list has more than one entry (two boxes, three bfaces).",
  "Random model-based histories under AddressSanitizer; lists are not appended to themselves.")
check("C09", [h("c09")],
  "Point values and coefficients over every basis, interval, number of points (1..33) and transform choice, on lines and on all three directions of a box. Oracle: direct O(n^2) evaluation of the basis functions in long double, round trips, and FFT against matrix. Non-trivial = at least one direction has more than 2 points.",
  "Random search within the stated sizes; tolerances are rounding error times condition number.")
check("C10", [h("c10")],
  "Random sums of basis functions on random boxes; all first, second and mixed derivatives by every entry point against analytic derivatives; linearity and consistency on random data; finite differences against exact difference quotients. Non-trivial = the function depends on at least one variable non-trivially.",
  "Random search within n<=~30 points per direction; tolerances scale with the norm of the derivative matrix.")
check("C11", [h("c11")],
  "Random sums of basis functions and random grid data; interpolation at random, face, edge, corner and grid points by every interpolation routine, and between grids. Oracle: the function; the stored value.",
  "Random search; tolerances scale with the size of the coefficients.")
check("C12", [h("c12")],
  "Random sums of basis functions; line, plane, volume, partial and spherical integrals against analytic integrals, linearity, Fubini.",
  "Random search; tolerances scale with the size of the coefficients and the interval.")
check("C13", [h("c13", set="adm")],
  "Sums of basis modes on one or two boxes through every filter (filter matrices, 3d mode cut, theta-dependent filter in the spherical systems, the filters of the BSSN system, spherical-harmonic filter); non-trivial = at least one mode has to be removed. Oracle: the same sum without the modes beyond the limits; bit comparison of everything else.",
  "Random search, n<=16 points per direction.")
check("C23", [h("c23")],
  "Random nonlinear, explicitly time-dependent systems on random variables of 1-3 boxes, advanced by every method: 1-4 steps against an independent long double implementation of the method's definition (values, times and numbers of the right hand side's and condition's calls, untouched variables, storage), and the order of convergence against a fine reference without any table. Non-trivial = more than one variable and explicit time dependence.",
  "Random search; initial data satisfy the algebraic conditions.")
check("C03", [h("c03", variant="asan")],
  "Generated command lines (parameter files, options, argument files), iterated parameters, previous directories and links, run through the real main program in scratch trees; the parameters seen by each run, the set of output directories and every file and directory elsewhere are compared with a model of the documented semantics. Non-trivial = options, iterations or pre-existing directories are involved.",
  "Random search; file names without shell metacharacters (the program passes them to sh); iterate lists of equal length.")
check("C04", [h("c04")],
  "Random sets of functions hooked at random stages by random modules, run over random numbers of iterations/grids; the recorded sequence of calls is compared with the documented schedule. Non-trivial = several stages with several functions.",
  "Random search.")
check("C19", [h("c19", variant="asan")],
  "Runs of generated evolutions with a checkpoint at a random iteration or time, restarted with changed or unchanged parameters, compared bit for bit with the uninterrupted run; checkpoints read onto other grids by interpolation; further options (variables, additional variables, parameter lists). Non-trivial = the restart happens in the middle of a run with more than one variable.",
  "Random search; parameter lines shorter than 10000 characters.")
check("C20", [h("c20")],
  "The program is killed, or its writes fail (disk full), at a random or at every system-level step (open, write, close, rename, remove, external command) of a random checkpoint; afterwards the output directory must hold a complete checkpoint from which a restart succeeds with exactly that state. Non-trivial = the fault hits after a first checkpoint was completed.",
  "Crash points are the calls by which the process changes the file system; loss of unsynced data by a power failure is out of scope.")
check("C21", [h("c21", variant="asan")],
  "Random arrays (all bit patterns) written in either byte order and read back whole or truncated, the bytes on disk compared with the format; random text files and strings searched for tokens, parameters and lines by every helper and compared with an independent scanner. Non-trivial = more than one item, or a token present at a position other than the start.",
  "Random search under AddressSanitizer; words shorter than 64 KB (the helpers' stated maximum); a parameter without value at the end of a file is not decided.")
check("C35", [h("c35", set="adm", variant="asan")],
  "Random placements of NaNs of every bit pattern, infinities and numbers beyond the limit in scalars and vectors on 1-4 boxes, some without memory: number returned and every stretch named (variable, value, box, points, coordinates) against a direct scan, data unchanged; runs of the whole program in which numbers go bad at random steps must stop exactly there, other runs must not. Non-trivial = there are bad numbers and (runs) the check is on.",
  "Random search under AddressSanitizer.")
check("C36", [h("c36")],
  "Random sets of general and per-box grid parameters, references between them, time step rules and iterated parameters, run through the main program: every parameter and the grid made are compared with a model; random update files dropped into the output directory at random iterations: every parameter after every iteration, the file itself, the run's length and the state after a restart are compared with a model; the file of current parameters is complete and restores them. Non-trivial = several references with iteration or time step rule, several updated parameters.",
  "Random search; lines of update files shorter than 10000 characters and of the form name = value.")
check("C22", [h("c22")],
  "Random grids, variables (scalars, vectors, tensors, constant ones, extreme values, missing in some boxes), output lists, intervals in iterations and time, origins, replaced coordinates, formats, changes of parameters during the run and restarts, run through the main program; the complete set of output files and every byte or number in them are compared with an independent writer and independent quadrature weights; the schedule itself for 60 iterations of random intervals; output at once, against the same output by the parameters, which must leave everything else unchanged; norms and integrals in boxes of different coordinates against exact integrals. Non-trivial = more than three outputs in more than one iteration; intervals longer than a step.",
  "Random search; Cartesian boxes (and SphericalDF boxes for norms and integrals). Options that the program declares but does not implement (interpolation, single reductions, 2dformat) are out of scope.")

check("C37", [h("c37", variant="asan")],
  "Random checkpoint files (boxes, variables with confusable names, parameters, arbitrary data bytes) through prune, modify and extract, random dumps through the line and plane tools, random pairs of tables and directories through floatdiff. Oracle: the file the selection should give, byte for byte; the list of numbers that differ by more than the tolerances. Non-trivial = something is selected or differs.",
  "Random search, tools run under AddressSanitizer; words that are not numbers are outside what floatdiff compares; numbers printed by the tools with 6 digits are compared to 6 digits.")
check("C15", [h("c15")],
  "Random boxes in Polar, PolarCE, SphericalDF, compactSphericalDF, Spherical, Spherical2/3, tan_stretch, AnsorgNS0-3 (all versions), CubedSphere (4 types, 6 domains) and stretchedCubedSphere: the map against its textbook form, dX/dx against the inverse of an 8th order finite-difference Jacobian of the map, ddX/dxdx against differences of dX/dx, dx/dX, the analytic inverse map, and what is stored on the grid; Cartesian first and second derivatives of scalars, vectors and symmetric tensors of resolved functions (stored, recomputed and spectrally computed transformations, one-pass and repeated derivatives) against the chain rule; the helpers that invert and compose derivatives. Non-trivial = a regular, well conditioned point was compared.",
  "Regular points only (not on axes, centres or infinity); AnsorgNS with the default constant sigma; repeated derivatives to the resolution of 13-16 points.")
check("C16", [h("c16")],
  "Random points (inside, outside, on borders, edges, grid points, axes, centres) are searched in random arrangements of cubed spheres (also deformed), in Cartesian blocks, and in single boxes of every coordinate system with a guess from the grid or a perturbed one, in the whole grid, in random lists of boxes and with inactive boxes: the box is the one an independent geometric model names, its coordinates are in range and map back to the point; not found exactly where the model says so. Nearest-point searches (box, grid, list, interior, plane), faces of a point, moving off a face, index of a coordinate against brute force. Non-trivial = several boxes with a point inside, a regular point searched.",
  "Newton-based searches are required to succeed if the guess is within 30% of the distance to the next singular point; outside that a wrong answer is still an error.")
check("C17", [h("c17")],
  "Random arrangements of cubed spheres (full/empty cube, two cubes, sphere around them, two spheres, random stacks of pieces of all types; deformed surfaces, also with Ylm) with random numbers of points: random points are in exactly the box an independent geometric model names; with both bface algorithms and all orders of normal derivatives every face point is in a bface, partners contain the points, agree with each other, lists of the same points match, coordinates in the other box map back, outer boundaries are outer. Non-trivial = more than one shell.",
  "The older bface algorithm is required to connect only conforming arrangements; for different numbers of points or own non-cubic pieces the code may refuse with an error.")
check("C18", [h("c18")],
  "Random grids (box 0 and the last box in random coordinates), variables, speeds, far values, boundary words and call sequences: every point of every variable after set_boundary is compared with a model of the law (radiative, radiative_analytic, constant, excision variants); given values and normal derivatives on random point lists; normals and outward directions against finite differences of the map in all coordinate systems; inter-box conditions for random data on random arrangements of cubed spheres against own Chebyshev interpolation at the position found in the other box, and for boxes which reach into each other. Everything else must stay bit-identical. Non-trivial = at least one law applies; more than 20 inter-box conditions.",
  "Boxes away from axes; radiative derivatives by cart_partials (decided by C15); points with several faces are checked only when all faces are set, as the coordinates of such a point are those of its last face; if points differ, the code may refuse.")
check("C25", [h("c25", set="solve", variant="o1")],
  "Random sparse linear operators (coupling boxes, variables and sub-boxes, with coefficient variables) on random boxes, lists and thread counts: every routine that builds the matrix as columns or lines, whole or per block, ordered or sorted, and all conversions between the formats, compared entry by entry with the operator; spectral derivative matrices against the derivative; sparse vectors against a map. Non-trivial = more than 3 entries and more than 2 unknowns; more than 20 unknowns for derivatives.",
  "Up to about 150 unknowns; matrix files to 1e-14 relative (they are written with 15 digits); a dimension not given is the largest position + 1.")
check("C24", [h("c24", set="solve", variant="o1")],
  "Random sparse linear systems (regular, ill-conditioned, singular) on random boxes and variable lists: every linear solver and preconditioner that is compiled in, with random tolerances, iteration limits and start vectors. The residual and the solution are recomputed from the operator itself, and a solve that misses the tolerance must be reported; regular systems must be solved by the direct solvers and by preconditioned iterations. Poisson problems with polynomial solutions through the grid operators; the array interfaces of LAPACK, UMFPACK (di/dl) and SuiteSparseQR with random matrices and fill patterns. Non-trivial = more than 3 unknowns.",
  "Up to about 150 unknowns. A failure may be reported by a negative number, by more iterations than allowed, by a residual above the tolerance, or by the end of the program for singular matrices.")
check("C26", [h("c26", set="solve", variant="o1")],
  "The dense solver: random nonlinear systems of 1-6 unknowns with known roots (quadratic, sines, exponentials, degenerate root), without roots, or with NaN regions, through all three interfaces with random start points, tolerances and iteration limits. The grid solver: random nonlinear systems on random boxes and variables with 7 linear solvers (one of which fails on purpose), all step and local-minimum options, hooks. Residuals are recomputed; success needs a residual within tolerance (or, for the dense solver, a root to within round-off); runs from near a root must converge, and quadratically for direct solvers. Non-trivial = more than 1 unknown (dense) or 3 (grid).",
  "Newton_linesrch (GridIterators) cannot run in this build: WT_newton ends the program with 'not implemented'.")
check("C27", [h("c27", set="core", variant="o1"), h("c27", set="nu", variant="o1")],
  "Random functions with known roots, brackets and minima (polynomials, exponentials, steep and flat functions, functions without roots or minima, NaN regions) for every bracketing routine, root finder and minimiser of numerics and of NumericUtils, in one and several dimensions, and for extrema of functions on a grid: reported successes must have a sign change or minimum within tolerance inside the bracket, failures must be reported, evaluation counts are bounded. Non-trivial = the function is not a line / more than one dimension.",
  "Root finders with NaN function values are out of scope; double roots are accepted for Newton; Powell's method with a minimum value of 0 ends the program with a message (counted as reported).")
check("C28", [h("c28", set="core", variant="o1"), h("c28", set="nu", variant="o1")],
  "Random systems of up to 6 ordinary differential equations with known solutions, mixed by a random matrix, forwards and backwards, with singularities; random matrices (regular, badly scaled, with zero lines, NaN) with P A = L U, parity, determinant and solution checked in long double; Romberg, trapezoidal, Simpson and 3d quadrature against exact integrals; attenuation functions against their definition, symmetry and finite differences. Both numerics (GSL) and NumericUtils. Non-trivial = more than one unknown, more than 2 lines, degree above 1.",
  "SVD, fits and odeint variants that are in no Makefile are not checked; a singular matrix without zero line or column is not flagged by design (pivot 1e-300); agreement of two trapezoidal values by accident is left out; an integrator may give up (reported) if an unknown is at round-off level, as steps are chosen for relative errors.")
check("C14", [h("c14", set="sph", variant="asan")],
  "Random bandlimits, coefficient sets and angles: the normalised associated Legendre functions and harmonics of Spectral against an independent long double recursion, their theta and phi derivatives against differentiated recursions, orthonormality by quadrature; synthesis followed by analysis (s2kit: Legendre transforms of every order; full sphere transforms) returns the coefficients; spin-weighted harmonics against the Wigner sum, their conjugation relation and the wave modes that whole runs of the ModeComputer write. Non-trivial = more than one coefficient, l > 0.",
  "The harmonics near the poles are compared to the conditioning of cos(theta).")
check("C29", [h("c29", set="adm", variant="o1")],
  "Random polynomial metrics, curvatures, lapses, shifts, matter terms and conformal factors: ham, mom, trK, dtrK_dt, both normalisations and undoing the conformal split against 3+1 geometry in long double; Kerr-Schild and isotropic black holes of random mass and spin: data, psi and its derivatives against the closed forms, extrinsic curvature against -(L_beta g)/2 alpha by differences, constraints vanish in resolved boxes; gauge, linear and noise test data; ADM energy far away. Non-trivial = positive definite random metric / resolved box.",
  "SingleBH takes BHsx1.. directly as Kerr's a; the ADM energy is only checked as a limit (|E/M-1| <= 6 M/r).")
check("C30", [h("c30", set="adm", variant="o1")],
  "Random polynomial data with exactly unit determinant and zero trace: conversion ADM -> BSSN -> ADM; every right-hand side of BSSN and Z4 at random points against the chain rule of the ADM equations (computed in long double, with the multiples of the constraints that the options add, and with G that is not the connection of the metric); lapse and shift equations for all options; whole steps with dt != 0 including recomputed gzz, Azz, trace removal, normalisation and densitised lapse; enforcement of algebraic constraints; filters mode by mode; vanishing right-hand sides for stationary Kerr-Schild holes. Non-trivial = all cases (filters: a mode is removed).",
  "forceKzero (needs a maximal slicing that does not exist here) and the Ylm filters are left to C13; rescaling of coordinates is implied by the comparison with the ADM law on arbitrary boxes.")
check("C31", [h("c31", set="scalar", variant="o1")],
  "Kerr background of ScalarOnKerr: metric, inverse, determinant, Christoffel symbols, lapse, shift and their derivatives at random points, masses and spins against closed forms; right-hand sides of ScalarWave, ScalarOnKerr (first and second order, all Pi definitions) and testwave for random resolved fields in Cartesian and spherical boxes against the analytic operator; characteristic boundary and inter-box conditions; exact solutions under evolution; the diffusion terms added to ScalarWave. Non-trivial = field is not constant.",
  "ScalarOnKerr only starts with M=1, spin 0 (its own start-up check ends the program otherwise), other backgrounds are reached by calling the right-hand side; boundary laws only for dt=0; effective source only as Y22test.")
check("C32", [h("c32", set="poisson", variant="o1")],
  "Poisson, Poisson2 and Poisson3 on generated grids (spherical shells, stacks and spheres of cubed boxes, AnsorgNS and 4ABphi_2xyz double grids): the residual of random resolved fields in every row against the analytic operator and the boundary and inter-box conditions; linearisation against the difference of residuals at random fields; solutions of the solvers (all linear solvers and preconditioners) against manufactured solutions; preconditioners against the operator they invert; sources, residual and error of the built-in exact solution. Non-trivial = all cases.",
  "On AnsorgNS grids the points on the axis and (for the inner cubes) on the faces are only used, not compared; the outer condition of Poisson3 is evaluated away from the origin, where it is singular.")
check("C33", [h("c33", set="pn", variant="o1")],
  "Rates of change for random binaries, equations of motion and orders: lengths and total angular momentum conserved by precession, exchange of bodies, random rotations, scaling of masses, angular velocity of the separation vector, frequency series, spin-orbit and spin-spin parts and cutoffs against the literature; integrated orbits against an independent Runge-Kutta integration and the closed Newtonian solution, split and backward; h+, hx at random observers against published non-spinning waveforms and aligned-spin modes, under rotation, exchange and scaling, order by order and damped; the whole module: all columns of the orbit file, modes against quadrature, Psi4 against the second derivative of h, energy and angular momentum against dE = omega dJ. Non-trivial = every case (whole module: more than one row).",
  "Matching to numerical relativity (minimize_PN-NR_diff) is not covered; directions of L close to the y-axis, where the ascending node is undefined, are only used for rates; spin terms of the waveform beyond the (2,2), (2,1), (3,2) modes only through symmetries.")
check("C34", [h("c34", set="main", variant="omp", args=["--only", "grid,matrix,problems,run"], env={"OMP_WAIT_POLICY": "passive"}), h("c34", set="main", variant="omp", args=["--only", "races"], env={"GOMP_SPINCOUNT": "20000", "PBT_JOBS": "2"})],
  "Generated grids in all coordinates with random data, random operators with all matrix builders and solvers, the elliptic example problems and whole runs (scalar wave and elliptic problems), each done on one thread twice and on 2-8 threads, with all LEVELn_Pragmas of the sources switched on. Non-trivial: more than 100 points or more than 8 unknowns. Oracle: the results on one thread, bit for bit for point-wise operations, matrices and output files, to rounding for sums and solutions.",
  "Random search over inputs and thread counts; the schedules are those the OpenMP runtime of this machine produces, they are not enumerated. Trusts the OpenMP runtime.")
NOT_APPLICABLE = {}
