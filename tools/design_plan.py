# texts for DESIGN.md that are not in checks.py
PLAN = {
"C01": "Why tests cannot: the parser is a hand-written state machine over bytes; errors live at buffer growth steps, in comments after values and in quotes.",
"C02": "Out of scope: lists stored raw with a leading space (NextEntry then never advances; no caller stores such a list).",
"C03": "Runs the real command-line and directory code, which deletes and renames: everything runs as an unprivileged user inside a scratch tree. Excluded: shell metacharacters in file names, '=' inside values of --modify-par, an outdir that is itself a link.",
"C07": "Memory is compared after *every* operation with a model that knows which (variable, box) has storage, and all storage ranges are tested for overlap.",
"C08": "Appending a list to itself is excluded (documented as not allowed).",
"C09": "The tolerance is rounding times n; recurrence and FFT paths and all odd/even n are covered because n is drawn from 1..33.",
"C14": "Harmonics near the poles are compared to the conditioning of cos(theta). The whole program runs of the ModeComputer use Coordinates_set_bfaces=no except for lmax=0.",
"C15": "Only regular points (not on axes, in centres, at infinity), AnsorgNS with constant sigma; spectral transformations only with a non-Fourier Z.",
"C16": "False alarms met: Newton's search legitimately fails from far guesses, so success is demanded only for guesses within 30 % of the distance to the next singular point; a wrong success is always an error.",
"C17": "False alarms met: the older bface algorithm cannot connect non-conforming arrangements and says so; mutual ofi is demanded only with same_fpts or conforming equal sizes.",
"C18": "Points on several faces have the coordinates of their last face, so they are checked only when all faces are set. FPsi_1Dinterp is disabled in the code by an error exit.",
"C19": "Parameter lines in checkpoints are limited to 10000 characters by the format.",
"C20": "The process is stopped at its system calls by an interposed libc layer (fopen, fclose, rename, remove, unlink, system; short writes by RLIMIT_FSIZE), at a random or every such step.",
"C21": "Words shorter than 64 KB (stated maximum of the helpers); a parameter without value at the end of the file is undecided in the code.",
"C22": "Options that are declared but not implemented (interpolate, 0doutputmax.., 2dformat) and the volume integral combined with L2norm are left out. One finding stays (key vtk-number-twice).",
"C24": "What counts as a report: negative return, return > itmax, normres > tol, or the end of the program for singular matrices. SOR's residual is sqrt(sum f^2); templates and ZIB solvers are not compiled in.",
"C25": "Positions are unique; matrix files carry 15 digits.",
"C26": "Success of the dense solver may also be a root to within round-off; itmax = 0 with NaN is excluded.",
"C27": "Roots of even multiplicity are accepted for Newton; Powell's method with minimum value 0 ends the program with a message.",
"C28": "Accidental agreement of two trapezoidal values is excluded; GSL's integrator may accept one far too big first step, so the initial step is capped.",
"C29": "Why tests cannot: one fixed data set satisfies the constraints, so terms that vanish for it are never seen; data that violate them see every term. False alarm met: the term-by-term norm is bounded by 1 only up to rounding of ham itself.",
"C30": "The generator builds the conformal metric as L D L^T with linear entries, so that determinant, inverse and trace-free part are polynomials and all derivatives on the grid are exact; differences to the ADM law are then rounding. RtoRminusHfactor, GReplacedBydg, YoTermFactor and GentlePhiRHS add known multiples of constraints, which are computed, not ignored. Z4 is checked with psi constant, as its own file says it has no conformal factor.",
"C31": "Bounds: n2, n3 even for spherical boxes; points keep a distance from the ring singularity; startup's own Kerr test ends the program unless M=1, a=0.",
"C32": "Bounds: at most 6 boxes, 4 to 18 points per direction; tolerances follow the truncation error of the resolved fields; AnsorgNS with ChebExtrema in B needs n3 divisible by 4.",
"C33": "Bounds: 0.02 <= v <= 0.4 for rates, integration over at most 55% of the Newtonian time to coalescence, |chi| <= 0.95, mass ratios up to 19, lmax <= 6.",
"C34": "All LEVELn_Pragmas of the sources are compiled in (the default build has only LEVEL6 and TOPLEVEL). Bounds: boxes of 4-11 points per direction, operators up to 40 unknowns, 2-8 threads."
}
TAIL = """## False alarms and corrected properties

* C28 at first also named the singular value decomposition; no Makefile
  compiles it, so the statement was corrected.
* C15, C16, C17, C18: see the bounds above; each of them came from an alarm
  that turned out to be a documented limit of the method (Newton searches
  from bad guesses, non-conforming arrangements, faces with ambiguous
  coordinates, singular points), and the *property* was made precise instead
  of the comparison being loosened.
* C22: files of a reduction over no point, and outputs at times that differ
  from a multiple by round-off, were first predicted wrongly by the model.
* C27, C28: tolerances below the resolution of doubles are refused by the
  generators.
* Tolerances: those of C09-C13 were derived from the norms of the matrices
  after absolute ones had raised alarms for large intervals.
"""
PLANTED = """They were written from the statements and the code, and confirmed in scratch
copies: they build, pass the stable tests, and their demonstration fails with
them only.  `tools/plant.py` runs the checks against them.
"""
CAUGHT = {}
CANDIDATES = """Seen while reading, not decided by a check: memory leaks on error paths
(matrix_SOR, bicgstab), `Newton_linesrch` not setting `*normres` (it cannot
run), NextEntry on a list with a leading space, `cp -pr` of the previous
output interrupted half-way, a global `lmax` shared by deformed shells, the
heap corruption of the never tested `testwave` example with its own parameter
file.
"""
