#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, checks.py and the texts below."""
import json, os, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from checks import CHECKS, NOT_APPLICABLE

HEAD = """# Verification of sgrid by property-based testing and fuzzing

sgrid is a C program for solving partial differential equations with
pseudo-spectral methods: a parameter file selects modules, grids made of
boxes, coordinates, equations, solvers and output; `main` hooks functions
into a schedule and runs it.  The properties in `properties.jsonl` go through
it from the bottom up: parameters, schedule, variables and memory (C01-C08,
C35, C36), the spectral core (C09-C14), coordinates, grids and boundaries
(C15-C18), checkpoints and output (C19-C22, C37), time stepping and solvers
(C23-C28), the physics modules (C29-C33), and threads (C34).

## Machinery

* `pbt/pbt.hpp, pbt.cpp` - the engine.  A property is a C++ function that
  draws its input from a recorded sequence of choices.  Every case runs in a
  forked child (8 at a time, with CPU and memory limits), so a crash, an
  endless loop or an `exit()` of sgrid is a result of the case and not of the
  run.  A failing case is shrunk by deleting and lowering choices while it
  keeps failing in the same way, and the choices are the replay file.  Small
  cases are generated first; generators mix uniform, boundary and extreme
  values.  Cases that may write files run in a scratch directory that is
  removed afterwards; those which feed sgrid with paths or shell words run as
  an unprivileged user.
* `tools/build.py` compiles /repo's current `src/` (never a copy, never
  `_build`) in the variants o1 / o3 / asan / tsan and with several sets of
  modules: `core`, `solve`, `adm`, `sph`, `scalar`, `poisson`, and the two
  programs' own sets `main` and `alt`, `nu` (NumericUtils instead of
  numerics), `pn`.  Objects are kept in `/verif/build` (ignored by git), keyed
  by the contents of their inputs, so a change of the code is
  always seen.
* `harness/cNN.cpp` - one harness per property.  They call sgrid's public
  functions (or the whole program through `libsgrid_main`); functions that
  are in no public header are declared weak, and the part that needs them is
  skipped if they are gone, so that refactoring does not break the build.
* `tools/check.py CNN` builds, runs, writes `evidence/CNN.json` and replays,
  and prints `VIOLATION property=.. replay=..` (exit 1), `KNOWN-FINDING: ..`
  for the entries of `known_findings.txt`, or nothing (exit 0).
  `tools/check.py CNN --replay FILE` repeats a replay file.
* `tools/plant.py ID` applies a planted bug in a scratch copy that is
  bind-mounted over /repo in a private mount namespace, builds it, runs the
  tests, the demonstration and the checks there.
* Oracles are written from the documented or textbook meaning, in long double
  where numbers are concerned, and share no code with sgrid.  Tolerances are
  rounding error times the condition number of the operation (norm of the
  matrix, size of the coefficients, distance to a singular point) with a
  safety factor; every check was swept over several seeds at 10-100 times the
  quick number of cases before it was claimed, to exclude false alarms.

Thorough runs use the same generators with 10-40 times as many cases.
Nothing here proves absence of errors: the level of all checks is
exploration with an explicit oracle.  What it reaches beyond the test suite:
the 729 tests run fixed parameter files and compare a few numbers, on one
schedule, without faults, and with tolerances that hide single points.

## Properties
"""
PLAN = {}
exec(open(os.path.join(R, "tools", "design_plan.py")).read())
out = [HEAD]
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in CHECKS:
        c = CHECKS[i]
        out.append("*Generated, oracle:* " + c["rule"] + "\n")
        out.append("*Bounds:* " + c["note"] + "\n")
        out.append("*Runs:* " + ", ".join("`%s%s` with set %s (%s)" % (b["harness"], "".join(" " + a for a in b.get("args", [])), b["set"], b["variant"]) for b in c["bins"]) + ".\n")
    else:
        out.append("Not claimed: " + NOT_APPLICABLE.get(i, "no check has been built for it yet.") + "\n")
    if i in PLAN: out.append(PLAN[i].strip() + "\n")
out.append(TAIL)
out.append("## Planted bugs\n\n" + PLANTED)
out.append("| planted bug | needs | caught by |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    out.append("| %s | %s | %s |" % (os.path.basename(d), m["needs"].replace("|", "/").replace("\n", " "), CAUGHT.get(os.path.basename(d), m["property"])))
out.append("\n## Defects found in sgrid\n\nEach line is a `fix:` commit in /repo, or a known finding (from known_findings.txt).\n")
for l in open(os.path.join(R, "known_findings.txt")):
    l = l.strip()
    if l and not l.startswith("#"): out.append("* " + l)
out.append("\n" + CANDIDATES)
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
