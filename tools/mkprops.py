#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "Parameter files are read back exactly as written",
 "Every 'name = value' assignment in a parameter file, whatever comments, blank lines, quoting, spacing around '=' or multiple values it uses, ends up as exactly that parameter with exactly the whitespace-normalised value, and nothing else ends up in the parameter database. "
 "Any byte string given as a parameter file is either read or rejected with an error message, never by corrupting memory.",
 ["inputs"], "all parameter files (well-formed ones from a grammar, and arbitrary bytes)",
 "The tests read a dozen fixed parameter files; quoting, comment placement, empty values, duplicates, missing final newline, long values and malformed files are never reached.",
 ["src/main/main/parameters.c", "src/main/main/main.c"],
 [("parse_parameter_file", "src/main/main/parameters.c"), ("AddPar", "src/main/main/parameters.c")])

prop("C02", "Parameter database behaves as a map with typed, list-aware reads",
 "After any history of adding, setting, appending, copying and reading parameters, every read (string, integer, real, truth value, list membership, next list entry) returns what the last write of that same parameter implies: a value from the parameter file wins over a later default, whole words of a list match and parts of words do not, numeric reads agree with the stored text (including the pi words), and cached reads never return stale values. "
 "Integers and reals survive being stored and read back unchanged.",
 ["histories", "inputs"], "all histories of database operations over all names and values",
 "Tests only see the end result of runs that set each parameter once; no test interleaves cached reads, writes, appends, copies or similar names.",
 ["src/main/main/parameters.c"],
 [("makeparameter/setparameter/findparameter", "src/main/main/parameters.c"), ("GetCachedNumValByParIndex/GetCachedBoolVal", "src/main/main/parameters.c"), ("create_copy_of_pdb1_in_pdb2", "src/main/main/parameters.c")])

prop("C03", "Running the program never loses the results of the previous run",
 "For any sequence of runs and any combination of command-line options, a run writes only into its own output directory, which it names after its parameter file; the results that were there before are moved aside to a directory of their own as a whole (only the generation before that is dropped), parameter modifications given on the command line take effect, and a parameter file that lists several values for some parameters is run once for every list position (the k-th run takes the k-th value of every listed parameter), each run in its own directory.",
 ["histories", "inputs"], "all command lines, parameter files and pre-existing directory contents",
 "Each test runs the program once in a fresh directory with no options.",
 ["src/main/main/main.c", "src/main/main/parameters.c", "src/main/main/utilities.c"],
 [("parse_command_line_options/read_command_line", "src/main/main/main.c"), ("make_output_directory", "src/main/main/main.c"), ("iterate_parameters", "src/main/main/parameters.c")])

prop("C04", "The main loop calls every registered function in its stage and order",
 "In every run, the functions registered for the stages of a run are each called exactly as often as their stage occurs, in order of registration within a stage and in the documented order of stages; iteration number and time advance together as time = iteration * dt, and the evolution stops exactly at the requested number of iterations or final time.",
 ["configurations", "histories"], "all sets of registered functions, values of dt, finaltime, iterations and stages",
 "Tests look at final numbers of a few fixed runs, not at the calling sequence.",
 ["src/main/main/skeleton.c", "src/main/main/main.c"],
 [("AddFun/RunFun", "src/main/main/skeleton.c"), ("evolve_grid", "src/main/main/main.c")])

prop("C05", "Variable registry and variable lists do exact component-wise arithmetic",
 "After any sequence of registering variables, duplicating them, building lists and enabling or disabling storage, names, component numbers, symmetries and indices stay mutually consistent, and every list operation (copy, set constant, add, scale, swap, difference, norm) changes exactly the points of exactly the listed variables in the active boxes, with the arithmetic its coefficients say, and terms with coefficient zero are not accessed.",
 ["histories", "inputs"], "all variable declarations, list contents, coefficients, box sets and operation sequences",
 "Runs use a handful of fixed lists; wrong boxes, overlapping lists, zero coefficients and duplicated lists never occur in the tests.",
 ["src/main/main/variables.c", "src/main/MemoryMan/storage.c"],
 [("AddVar/Ind/VLPush", "src/main/main/variables.c"), ("vladd/vlcopy/...", "src/main/main/variables.c")])

prop("C06", "Tensor index strings expand to the right components and reflection signs",
 "For every supported tensor index string, the declared variable gets exactly the independent components of such a tensor (each once, in lexical order of its indices), and the reflection sign stored for a component in a direction is -1 exactly if that direction occurs an odd number of times among the component's spatial indices (with the same convention for every index string).",
 ["inputs"], "all supported index strings",
 "Tests declare tensors only through the physics modules and never look at symmetries.",
 ["src/main/main/tensors.c", "src/main/main/variables.c"],
 [("tensorindexlist", "src/main/main/tensors.c")])

prop("C07", "Grid memory: storage on demand, zeroed, never aliased, copied faithfully",
 "Under any history of enabling and disabling variables on grids and boxes, making and freeing grids, and copying grids, an enabled variable has storage for every point of its box that no other enabled variable, box or grid shares, fresh storage reads zero, enabling an enabled variable keeps its data, disabled variables have no storage, and copies of a grid carry identical values independent of later changes to the original.",
 ["histories"], "all histories of storage operations",
 "No test exercises storage transitions other than those in the fixed runs.",
 ["src/main/MemoryMan/storage.c", "src/main/MemoryMan/grid.c"],
 [("enablevar/disablevar", "src/main/MemoryMan/storage.c"), ("copy_grid", "src/main/MemoryMan/grid.c"), ("make_grid/free_grid", "src/main/MemoryMan/grid.c")])

prop("C08", "Index lists and point lists behave as the sequences they model",
 "After any history of pushes, unique pushes, removals, merges, duplications and searches, integer lists, box lists and point lists contain exactly the elements, order and multiplicity that the same operations give on plain sequences, without touching memory they do not own.",
 ["histories"], "all operation histories",
 "Lists appear in the tests only via grid set-up of a few fixed grids.",
 ["src/main/MemoryMan/lists.c", "src/main/MemoryMan/points.c", "src/main/MemoryMan/boxlists.c", "src/main/MemoryMan/list_templates.c"],
 [("intList/tPointList operations", "src/main/MemoryMan")])

prop("C09", "Spectral transforms are exact inverses and all implementations agree",
 "For every basis, every number of points and every direction, going from point values to coefficients and back reproduces the values to rounding, the coefficients of a function inside the basis are exactly that function's coefficients, and the fast-transform implementation agrees with the matrix implementation.",
 ["inputs", "configurations"], "all bases, point counts, interval ends, directions and data",
 "The tests use one or two point counts per basis with one smooth function and tolerances that hide round-off-independent errors at other sizes (odd/even, very small n).",
 ["src/utility/Spectral/spec_coeffs.c", "src/utility/Spectral/explicit_Cheb_trafos.c", "src/utility/Spectral/explicit_Four_trafos.c", "src/utility/Spectral/FFTs_for_sgrid.c", "src/utility/Spectral/matrices.c"],
 [("spec_analysis1/spec_synthesis1/spec_Coeffs", "src/utility/Spectral/spec_coeffs.c")])

prop("C10", "Spectral derivatives are exact for every resolved function",
 "For every grid size, interval and mix of bases, first, second and mixed derivatives of any function inside the span of the basis equal the analytic derivatives at all points to rounding, linearly in the data, in whichever direction, in whichever order the direction derivatives are taken and whichever implementation (fast transform, matrices, all-at-once) computes them; finite-difference bases give their stated order.",
 ["inputs", "configurations"], "all functions in the span, point counts, intervals, basis mixes and derivative options",
 "Test runs compute a few derivatives of fixed functions on fixed grids.",
 ["src/utility/Spectral/derivs.c", "src/utility/Spectral/diffmatrices.c", "src/utility/Spectral/finite_differences.c", "src/utility/Spectral/explicit_Cheb_trafos.c", "src/utility/Spectral/explicit_Four_trafos.c"],
 [("spec_Deriv1/spec_Deriv2/spec_allDerivs", "src/utility/Spectral/derivs.c")])

prop("C11", "Spectral interpolation reproduces grid data and resolved functions",
 "At any point of a box (inside, on faces, edges, corners, at collocation points), interpolating a variable gives the value of the unique function in the basis with those point values, so it returns the stored values at grid points and is exact for resolved functions; interpolating between grids or boxes at the same physical point gives the same value.",
 ["inputs", "configurations"], "all points, data, grid sizes and basis mixes, and pairs of grids",
 "No test interpolates to arbitrary points; only internal uses in fixed runs.",
 ["src/utility/Spectral/interpolate.c", "src/utility/Spectral/spec_coeffs.c"],
 [("spec_interpolate", "src/utility/Spectral/interpolate.c"), ("spec_interpolate_Var_from_grid2_to_grid1", "src/utility/Spectral/interpolate.c")])

prop("C12", "Spectral integrals are exact for resolved integrands",
 "Line, surface, volume and spherical integrals over a box, and integrals over part of an interval, equal the analytic integrals of any resolved integrand to rounding, are linear in the integrand, and iterated lower-dimensional integrals combine to the higher-dimensional ones.",
 ["inputs", "configurations"], "all integrands in the span, box sizes, basis mixes and limits",
 "Integrals are used by few tests and only for fixed integrands.",
 ["src/utility/Spectral/integrals.c"],
 [("spec_Integral1/spec_2dIntegral/spec_3dIntegral/...", "src/utility/Spectral/integrals.c")])

prop("C13", "Spectral filters are projections that touch only what they name",
 "A spectral filter removes exactly the modes beyond the given limits and leaves all other modes unchanged, so filtering twice equals filtering once, resolved low modes survive exactly, no mode survives that should be removed, and variables, directions and boxes not named stay bit-identical.",
 ["inputs", "configurations"], "all data, mode limits, directions and basis mixes",
 "No test runs the filters.",
 ["src/utility/Spectral/filters.c", "src/utility/Coordinates/coordFilters.c", "src/utility/s2kit/YlmFilter.c"],
 [("spec_filter1/spec_filter3d_inbox", "src/utility/Spectral/filters.c")])

prop("C14", "Spherical harmonic analysis inverts synthesis",
 "For every bandlimit, a function on the sphere built from spherical harmonics (scalar, or spin-weighted for wave modes) is decomposed into exactly the coefficients it was built from and resynthesised to the same values, the harmonics are orthonormal, obey their conjugation and angular-derivative relations, and all implementations of them agree.",
 ["inputs", "configurations"], "all coefficient sets, bandlimits, (l,m), and angles",
 "One fixed s2kit run at one bandlimit is tested.",
 ["src/utility/Spectral/SphericalHarmonics.c", "src/utility/s2kit/s2kit_naive_synthesis.c", "src/utility/s2kit/s2kit_primitive.c", "src/utility/s2kit/s2kit_pmls.c", "src/utility/s2kit/s2kit_makeweights.c", "src/physics/ModeComputer/ModeComputer.c", "src/physics/ModeComputer/SpinWeightedSphericalHarmonics.c"],
 [("SphHarm transforms", "src/utility/Spectral/SphericalHarmonics.c"), ("Naive_AnalysisX/...", "src/utility/s2kit"), ("ModeComputer", "src/physics/ModeComputer")])

prop("C15", "Coordinate maps, their inverses and their derivatives are mutually consistent",
 "For every coordinate system and parameter choice, the stored or computed coordinate derivatives (first and second) are the derivatives of the inverse of the map used for the Cartesian coordinates, at every regular point, so that the Cartesian first and second derivatives of any resolved function computed through them converge to its analytic derivatives, for scalars, vectors and symmetric tensors alike.",
 ["inputs", "configurations"], "all coordinate systems, their parameters, points and fields",
 "The tests check one function for a few coordinate systems, with one set of parameters.",
 ["src/utility/Coordinates/Coordinates.c", "src/utility/Coordinates/coordtrans_CubedSphere.c", "src/utility/Coordinates/cartesianDerivs.c", "src/utility/Coordinates/transfDerivs.c", "src/utility/Coordinates/Coordinates_AnsorgNS.c"],
 [("init_CoordTransform_And_Derivs", "src/utility/Coordinates/Coordinates.c"), ("cart_partial_all", "src/utility/Coordinates/cartesianDerivs.c")])

prop("C16", "Any physical point is located in the box that contains it",
 "For every point covered by the grid, the point search returns a box containing it and coordinates that map back to that point, points outside are reported as not found, and the nearest-point searches return the true nearest grid point.",
 ["inputs", "configurations"], "all points and all supported multi-box grids",
 "The search is only used inside fixed runs.",
 ["src/utility/Coordinates/findXYZ_of_xyz.c", "src/utility/Coordinates/find_ijk.c", "src/utility/Coordinates/coordtrans_CubedSphere.c"],
 [("b_XYZ_of_xyz/nearestXYZ_of_xyz", "src/utility/Coordinates/findXYZ_of_xyz.c")])

prop("C17", "Cubed-sphere grids tile space without gaps, and faces know their neighbours",
 "For every arrangement of cubed-sphere boxes and every admissible set of radii, the boxes cover the intended domain once, every face point of a box is either an outer boundary point or is matched with exactly the neighbouring box(es) that contain the same physical point, the recorded partner coordinates or indices describe that same physical point, and the partner relation is mutual.",
 ["configurations"], "all arrangements, radii, distances and point numbers",
 "Fixed arrangements are built in a few tests which only check a solution norm.",
 ["src/utility/Coordinates/setup_CubedSpheres.c", "src/utility/Coordinates/Coordinates_set_bfaces.c", "src/utility/Coordinates/populate_bfaces_AR.c"],
 [("Coordinates_set_bfaces", "src/utility/Coordinates/Coordinates_set_bfaces.c")])

prop("C18", "Boundary conditions act on exactly the boundary points with the stated law",
 "Constant, radiative, excision and inter-box boundary conditions set exactly the points of their boundary to the stated law (unchanged value, outgoing-wave time derivative, matching of values and normal derivatives across faces with an outward unit normal) and leave all other points bit-identical; a globally smooth function leaves inter-box condition residuals at zero to resolution.",
 ["inputs", "configurations"], "all data, boxes, faces, speeds, falloffs and far values",
 "Boundary code is used by fixed physics runs; laws are not compared with formulas.",
 ["src/utility/boundary/boundary.c", "src/utility/boundary/radiative.c", "src/utility/boundary/BCs_from_bfaces.c"],
 [("set_boundary", "src/utility/boundary/boundary.c"), ("set_interbox_BCs_for_bface", "src/utility/boundary/BCs_from_bfaces.c")])

prop("C19", "A checkpoint restores the run bit for bit",
 "For every grid, set of variables and parameters, values included that are not finite, a run that is stopped after a checkpoint and restarted continues from exactly the state (all saved variables bit for bit, iteration, time, parameters) it had, so that the restarted run ends with the same results as an uninterrupted run; reading another run's checkpoint or interpolating from it gives that run's data.",
 ["histories", "inputs", "configurations"], "all states, checkpoint intervals, stop points and option combinations",
 "No test writes or reads a checkpoint.",
 ["src/utility/checkpoint/checkpoint.c", "src/utility/checkpoint/checkpoint_write.c", "src/utility/checkpoint/checkpoint_read.c", "src/utility/checkpoint/wolfio.c", "src/utility/checkpoint/read_other_checkpoints.c", "src/main/main/endianIO.c"],
 [("checkpoint/checkpoint_write/checkpoint_read", "src/utility/checkpoint")])

prop("C20", "A crash while writing a checkpoint leaves a usable checkpoint behind",
 "Whenever the program dies or fails to write (disk full) while it writes a checkpoint, the output directory holds, after the first checkpoint has been completed, a complete checkpoint (the previous one or the new one) from which a restart succeeds and continues with exactly that checkpoint's state.",
 ["crash_points", "fault_sequences"], "every system-level write, rename or external command during checkpointing",
 "No test writes checkpoints, let alone kills the program while doing so.",
 ["src/utility/checkpoint/checkpoint_write.c", "src/utility/checkpoint/checkpoint.c"],
 [("write to a _new file and rename", "src/utility/checkpoint/checkpoint_write.c")])

prop("C21", "Binary and text number I/O round-trips and is endian-independent",
 "Integers, reals and arrays written in either byte order are read back bit-identical, on-disk bytes are in the byte order asked for whatever the host, and the text-file helpers find and return exactly the tokens, parameters and lines that are in a file, never reading past their buffers.",
 ["inputs"], "all values, array lengths and files",
 "No test reads binary output back.",
 ["src/main/main/endianIO.c", "src/utility/checkpoint/wolfio.c", "src/main/main/utilities.c"],
 [("fread/fwrite little/big endian", "src/main/main/endianIO.c"), ("fgotonext/fgetparameter/fscanline", "src/utility/checkpoint/wolfio.c")])

prop("C22", "Output files contain exactly the grid data they claim, when they are due",
 "For every variable, box and output option, reduced (maximum, minimum, norms, means, volume integrals), line, plane and volume output written in every format contains the correct number for the correct point and time, nothing more and nothing less, and output is written at exactly the iterations or times that the interval parameters ask for, each once.",
 ["inputs", "configurations", "histories"], "all data, boxes, formats, intervals and times",
 "Tests parse a few norms from fixed runs; line, plane, volume and VTK files are never checked.",
 ["src/utility/output/output.c", "src/utility/output/output0d.c", "src/utility/output/output3d.c", "src/utility/output/xgraph_out1d.c", "src/utility/output/gnuplot_out2d.c", "src/utility/output/VTK_out.c", "src/utility/output/quick_out.c"],
 [("write_grid/timeforoutput", "src/utility/output/output.c")])

prop("C23", "Time integrators integrate any right-hand side at their stated order",
 "For every method, any registered system of variables and any right-hand side, one step of size dt maps the state to what the method's definition gives (its full order conditions hold, for linear and nonlinear, autonomous and explicitly time-dependent systems), it evaluates the right-hand side at the right intermediate times, applies algebraic conditions after each update, touches no variable that is not evolved, and repeated or interrupted steps give the same result.",
 ["inputs", "configurations", "histories"], "all methods, right-hand sides, variables, step sizes and step counts",
 "One test checks the observed order of a few methods on one equation.",
 ["src/utility/evolve/evolve.c", "src/utility/evolve/rk.c", "src/utility/evolve/icn.c"],
 [("evolve", "src/utility/evolve/evolve.c"), ("evolve_rk/evolve_icn/evolve_euler", "src/utility/evolve")])

prop("C24", "Linear solvers return a solution of the system or report failure",
 "For every nonsingular linear operator, right-hand side, initial guess and grid, each linear solver either returns a vector whose residual is within the tolerance asked for or reports that it did not, whatever preconditioner is used, never modifying the right-hand side; direct solvers agree with each other to the conditioning of the matrix, and singular systems are not passed off as solved.",
 ["inputs", "configurations"], "all operators, right-hand sides, solvers, preconditioners and grids",
 "Tests run several solvers on fixed Poisson problems and compare the final error only.",
 ["src/utility/GridIterators", "src/utility/LinAlg"],
 [("bicgstab/templates wrappers/UMFPACK/SPQR/LAPACK/SOR", "src/utility/GridIterators, src/utility/LinAlg")])

prop("C25", "Sparse matrices built from a linear operator are that operator",
 "For every linear operator on every list of variables, the sparse lines or columns extracted from it reproduce its action on any vector to rounding, in every storage ordering and for blocks restricted to a variable, box or sub-box; sparse vector and matrix operations agree with dense arithmetic and written matrix files describe the same matrix.",
 ["inputs", "configurations"], "all linear operators, variable lists, boxes, orderings and sparse vectors",
 "Matrix extraction is only an internal step of the solver tests.",
 ["src/utility/LinAlg/ReadMatrixFrom_Fx.c", "src/utility/LinAlg/SparseVector_utils.c"],
 [("SetMatrixLines_*/SetMatrixColumns_*", "src/utility/LinAlg/ReadMatrixFrom_Fx.c")])

prop("C26", "Newton solvers find roots of nonlinear systems or say that they failed",
 "For any smooth system with a nonsingular Jacobian at its root and a starting point in the basin of attraction, the grid and the dense Newton solvers converge to a root within the tolerance asked for; success is reported only if the residual meets the tolerance, and a run that exhausts its iterations or hits a singular Jacobian reports failure.",
 ["inputs"], "all systems, dimensions, starting points, tolerances and iteration limits",
 "One stand-alone test solves one small system.",
 ["src/utility/GridIterators/Newton.c", "src/utility/GridIterators/Newton_linesrch.c", "src/utility/numerics/newton_linesearch.c"],
 [("Newton", "src/utility/GridIterators/Newton.c"), ("newton_linesearch", "src/utility/numerics/newton_linesearch.c")])

prop("C27", "Scalar root finders, bracketing and minimisers honour their contracts",
 "For any continuous function, the bracketing routines return an interval with a sign change (or a bracketed minimum) or say that there is none, the bracketed root finders return a point within tolerance of a sign change inside the bracket, the minimisers return a local minimum no worse than the bracket's points, and non-convergence is reported.",
 ["inputs"], "all functions, brackets and tolerances",
 "No test calls these routines directly.",
 ["src/utility/numerics/rtbrent_brak.c", "src/utility/numerics/rtbisect.c", "src/utility/numerics/newton1d_brak.c", "src/utility/numerics/minbrent_brak.c", "src/utility/NumericUtils"],
 [("rtbrent_brak/rtbisect/newton1d_brak/minbrent_brak", "src/utility/numerics")])

prop("C28", "ODE, quadrature and dense linear algebra helpers match the mathematics",
 "For any smooth problem, the adaptive ODE integrators reach the end point with an error commensurate with the requested accuracy, the quadrature rules converge at their order and are exact for the polynomials of their degree, LU decomposition, solution and determinant reproduce the matrix they were given and flag singular ones, and attenuation functions go monotonically from 0 to 1 with correct derivatives.",
 ["inputs"], "all integrands, right-hand sides, matrices, accuracies",
 "No test calls these routines directly.",
 ["src/utility/numerics", "src/utility/NumericUtils"],
 [("odeintegrate/integral/lu_decomp/...", "src/utility/numerics, src/utility/NumericUtils")])

prop("C29", "Exact black-hole data satisfy the constraints and transform consistently",
 "For every mass, spin, location and grid point outside singularities, the analytic initial data have symmetric positive definite metrics, their stored conformal factor derivatives are its derivatives, and the computed Hamiltonian and momentum constraints vanish to the accuracy of the derivatives; for data that violate the constraints the computed violation is the analytic one, independent of the conformal splitting chosen.",
 ["inputs", "configurations"], "all parameters and points, and perturbed data",
 "Only one data set with fixed parameters is run.",
 ["src/physics/ADMvars", "src/physics/SingleBH", "src/physics/TestID"],
 [("computeADMconstraints", "src/physics/ADMvars/ADMconstraints.c")])

prop("C30", "Einstein evolution right-hand sides are consistent with the ADM equations",
 "For every set of metric data, converting to the evolution variables and back is the identity, the enforcement of algebraic constraints leaves exactly unit determinant and zero trace and changes nothing else, and the evolution right-hand sides vanish for stationary exact solutions, transform trivially under constant rescaling of coordinates, and equal the time derivative implied by the ADM evolution equations for constraint-satisfying data.",
 ["inputs", "configurations"], "all metric, curvature, lapse and shift data and gauge options",
 "Short runs of one data set are tested for finiteness and norms.",
 ["src/physics/BSSN", "src/physics/Z4secondO"],
 [("BSSN_rhs/BSSN_init/BSSN_AlgConstr", "src/physics/BSSN"), ("Z4secondO_rhs", "src/physics/Z4secondO")])

prop("C31", "Scalar wave equations on flat and Kerr backgrounds are discretised correctly",
 "For every smooth field, coordinate system and background parameter, the right-hand side of the scalar evolution equals the analytic wave operator applied to the field to resolution, exact solutions stay solutions under evolution, and the background metric functions are mutually consistent (inverse, determinant, Christoffel symbols, lapse and shift) for all masses, spins and points.",
 ["inputs", "configurations"], "all fields, backgrounds and points",
 "Fixed runs with one initial pulse are compared with stored norms.",
 ["src/physics/ScalarWave", "src/physics/ScalarOnKerr", "src/physics/testwave"],
 [("ScalarWave rhs", "src/physics/ScalarWave"), ("Kerr/Kerr3d", "src/physics/ScalarOnKerr")])

prop("C32", "Elliptic problems are solved to the exact solution of their equations",
 "For every source with a resolved exact solution, each elliptic example solver returns that solution to resolution on every supported grid, its residual function vanishes on the exact solution and its linearisation is the derivative of the residual.",
 ["inputs", "configurations"], "all sources, grids and solver options",
 "Fixed sources, fixed grids.",
 ["src/physics/Poisson", "src/physics/Poisson2", "src/physics/Poisson3"],
 [("F_Poisson/J_Poisson", "src/physics/Poisson*")])

prop("C33", "Post-Newtonian orbit and waveform code obeys its own equations",
 "For all masses, spins and initial frequencies in the regime of validity, the orbit evolution keeps spin magnitudes and unit vectors normalised, the orbital frequency grows monotonically, the computed waveform has the published post-Newtonian form and the printed modes of h and of Psi4 (its second time derivative) are its projections on spin-weighted harmonics, energy and angular momentum obey dE = omega dJ, and swapping the two bodies, rotating the frame or scaling the masses gives the same physics.",
 ["inputs"], "all binary parameters, sampling times and observers",
 "One run's exit code is tested.",
 ["src/physics/PN_CircularOrbit_GWs"],
 [("PN_CircOrbit/compute_GWs", "src/physics/PN_CircularOrbit_GWs")])

prop("C34", "Results do not depend on the number of threads",
 "For every run configuration, all computed grid data, solver iterates and outputs are the same for any number of OpenMP threads and any schedule of them, up to nothing for point-wise operations and up to rounding for reductions, and runs with the same inputs are reproducible bit for bit on one thread.",
 ["schedules", "configurations"], "all thread counts and schedules",
 "All tests run with one thread.",
 ["src/physics/BSSN/BSSN_rhs.c", "src/utility/Spectral/derivs.c", "src/utility/GridIterators/wrappers_for_JacobiPrecon.c"],
 [("OpenMP pragmas SGRID_TOPLEVEL/LEVEL*", "src/main/main/sgrid.h")])

prop("C35", "Bad numbers are always found",
 "If any point of any monitored variable in any box is not a finite number, the finiteness checks report it (counting it and naming variable, box and point) and act as configured, and they stay silent and change nothing if all numbers are finite.",
 ["inputs", "histories"], "all positions, kinds and numbers of bad values, and variable sets",
 "No test produces a NaN.",
 ["src/utility/NumberChecker/NumberChecker.c", "src/physics/ADMvars/CheckIfFinite.c"],
 [("NumberChecker/CheckIfFinite", "src/utility/NumberChecker, src/physics/ADMvars")])

prop("C36", "Parameter manipulation at run time follows its schedule",
 "Parameters that the user asks to be changed at given times or on request during a run change exactly then and to exactly the values asked for, no other parameter changes, and the change stays in force afterwards and across restarts.",
 ["histories", "inputs"], "all schedules, values and parameters",
 "No test changes parameters during a run.",
 ["src/utility/ParManipulator/ParManipulator.c", "src/utility/checkpoint/checkpoint.c"],
 [("ParManipulator", "src/utility/ParManipulator/ParManipulator.c"), ("parameterio_update_pars", "src/utility/checkpoint/checkpoint.c")])

prop("C37", "Stand-alone data tools preserve the data they convert",
 "The stand-alone tools that extract, prune, modify and compare checkpoint or output files produce output that contains exactly the selected data unchanged, keep everything else byte for byte, and report exactly the differences present, for any valid input file.",
 ["inputs"], "all checkpoint and output files and tool options",
 "No test runs the tools.",
 ["utilities"],
 [("extractvar_from_checkpoint/prune_checkpoint/modify_checkpoint/floatdiff/sgrid3d_to_*", "utilities")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
