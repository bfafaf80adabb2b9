#!/usr/bin/env python3
"""Builds harnesses against the current sources of /repo.

Copies /repo/src into /verif/build/src-<set>, generates the module list for the
set, compiles every module with a content-keyed object cache and links a harness.
Nothing is written to /repo."""
import concurrent.futures as cf, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("PBT_BUILD_JOBS", "8"))

HEAD = ["main/MemoryMan", "utility/ParManipulator", "utility/Spectral", "utility/boundary",
        "utility/output", "utility/evolve", "utility/NumberChecker", "utility/checkpoint"]
TAIL = ["utility/Coordinates", "utility/numerics", "main/main"]
SETS = {
  "core": [],
  "solve": ["utility/GridIterators", "utility/LinAlg"],
  "sph": ["physics/ModeComputer", "utility/s2kit"],
  "adm": ["physics/ADMvars", "physics/ModeComputer", "utility/s2kit", "physics/BSSN", "physics/Z4secondO", "physics/SingleBH", "physics/TestID"],
  "scalar": ["physics/ADMvars", "physics/ModeComputer", "utility/s2kit", "physics/ScalarWave", "physics/ScalarOnKerr", "physics/ScalarOnKerr/DV_CircSchwSource"],
  "poisson": ["utility/GridIterators", "utility/LinAlg", "physics/Poisson3", "physics/Poisson2", "physics/Poisson"],
  "main": ["physics/ADMvars", "physics/ModeComputer", "utility/s2kit", "utility/GridIterators", "utility/LinAlg",
           "physics/Poisson3", "physics/Poisson2", "physics/Poisson", "physics/BSSN", "physics/Z4secondO", "physics/SingleBH",
           "physics/TestID", "physics/TestDerivs", "physics/ConvTest", "physics/ScalarWave", "physics/ScalarOnKerr",
           "physics/ScalarOnKerr/DV_CircSchwSource"],
  # with the old NumericUtils instead of numerics
  "alt": ["physics/ModeComputer", "physics/ADMvars", "utility/s2kit", "physics/testwave", "physics/ScalarOnKerr",
          "physics/ScalarOnKerr/DV_CircSchwSource2", "physics/PN_CircularOrbit_GWs", "utility/NumericUtils"],
  "nu": ["utility/NumericUtils"],
  "pn": ["physics/ModeComputer", "utility/s2kit", "physics/PN_CircularOrbit_GWs", "utility/NumericUtils"],
}
DFLAGS = ["-DLIBSGRID", "-DNONICOFUNCS", "-DLEVEL6_Pragmas", "-DTOPLEVEL_Pragmas", "-DUMFPACK", "-DSUITESPARSEQR",
          "-DLAPACK", "-DCBLAS", "-DFFTW3", "-DGSL"]
LIBS = ["-lspqr", "-lcholmod", "-lumfpack", "-lamd", "-lfftw3", "-llapack", "-lblas", "-lgsl", "-lgslcblas", "-lm"]
VARIANTS = {   # name -> compile flags
  "o1": ["-O1", "-g1"],
  "o3": ["-O3", "-g1"],
  "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
  "omp": ["-O1", "-g1", "-DLEVEL2_Pragmas", "-DLEVEL3_Pragmas", "-DLEVEL4_Pragmas"], # every loop the code can run in threads
  "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}

def modules(setname):
    m = HEAD + SETS[setname] + TAIL
    if "utility/NumericUtils" in m: m = [x for x in m if x != "utility/numerics"]
    return m

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:40]

def read(p):
    with open(p, "rb") as f: return f.read()

def put(p, data):
    if isinstance(data, str): data = data.encode()
    if os.path.exists(p) and read(p) == data: return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f: f.write(data)
    os.replace(tmp, p)

def prepare(setname):
    """mirror the sources, return (tree, list of (srcfile, key_material))"""
    tree = os.path.join(BUILD, "src-" + setname)
    mods = modules(setname)
    need = set(mods)
    want = set()
    for m in need:
        for f in glob.glob(os.path.join(REPO, "src", m, "*.[ch]")) + glob.glob(os.path.join(REPO, "src", m, "*.cc")) + [os.path.join(REPO, "src", m, "Makefile")]:
            b = os.path.basename(f)
            if b.startswith("sgrid_automatic_"): continue
            rel = os.path.relpath(f, REPO)
            want.add(rel)
            put(os.path.join(tree, rel), read(f))
    inc = os.path.join(tree, "src/main/main/sgrid_automatic_include.h")
    ini = os.path.join(tree, "src/main/main/sgrid_automatic_initialize.c")
    names = [os.path.basename(m) for m in mods]
    put(inc, "/* generated */\n" + "".join('#include "%s"\n' % os.path.join(tree, "src", m, "sgrid_%s.h" % n) for m, n in zip(mods, names)))
    put(ini, "".join("int sgrid_%s();\n" % n for n in names) + "".join("sgrid_%s();\n" % n for n in names))
    want |= {os.path.relpath(inc, tree), os.path.relpath(ini, tree)}
    for rel in [r for r in sorted(want) if r.endswith(".h")]:    # headers made palatable to C++
        t = read(os.path.join(tree, rel)).decode(errors="replace").replace(tree + "/src/", tree + "/cxx/")
        t = re.sub(r"double\s+(\w+)\[\]\[n\]", r"double *\1", t)
        rel2 = "cxx" + rel[3:]
        put(os.path.join(tree, rel2), t); want.add(rel2)
    for d, _, fs in os.walk(tree):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), tree)
            if rel not in want: os.remove(os.path.join(d, f))
    return tree, mods

def objs_of(tree, mod):
    mk = read(os.path.join(tree, "src", mod, "Makefile")).decode()
    mk = re.sub(r"\\\n", " ", mk)
    name = re.search(r"^NAME\s*:?=\s*(\S+)", mk, re.M).group(1)
    o = []
    for m in re.finditer(r"^OBJS\s*[:+]?=\s*(.*)$", mk, re.M):
        o += re.sub(r"#.*", "", m.group(1)).replace("$(NAME)", name).split()
    res = []
    for x in o:
        for ext in (".c", ".cc"):
            s = os.path.join(tree, "src", mod, x[:-2] + ext)
            if os.path.exists(s): res.append(s); break
        else: raise SystemExit("no source for %s in %s" % (x, mod))
    return res

def compile_all(jobs):
    """jobs: list of (cmd, out); runs those whose out is missing"""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    def run(j):
        cmd, out = j
        tmp = out + ".tmp%d.o" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if r.returncode: return "COMPILE FAILED: %s\n%s" % (" ".join(cmd), r.stderr[-4000:])
        os.replace(tmp, out); return None
    errs = []
    # big files first
    todo.sort(key=lambda j: -os.path.getsize(j[0][-1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(run, todo):
            if e: errs.append(e)
    if errs: raise SystemExit("\n".join(errs[:3]))

def build(harness, setname="core", variant="o1", extra=(), defs=()):
    """returns path of the linked harness binary"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    if harness == "c37": build_utilities(variant)
    tree, mods = prepare(setname)
    incs = ["-I" + os.path.join(tree, "src/main/main"), "-I/usr/include/suitesparse"]
    flags = VARIANTS[variant] + ["-w", "-fopenmp"] + DFLAGS + list(defs)
    hdr = sha(*[x for f in sorted(glob.glob(tree + "/src/**/*.h", recursive=True) + [tree + "/src/main/main/sgrid_automatic_initialize.c"]) for x in (f, read(f))])
    jobs, objs = [], []
    for m in mods:
        for s in objs_of(tree, m):
            src = read(s)
            inc_c = b""
            seen = set(); stack = [src]
            while stack:
                t = stack.pop()
                for q in re.findall(rb'#include\s+"([^"]+\.c)"', t):
                    p = os.path.join(os.path.dirname(s), q.decode())
                    if p not in seen and os.path.exists(p):
                        seen.add(p); stack.append(read(p)); inc_c += read(p)
            cxx = s.endswith(".cc")
            key = sha(" ".join(flags), hdr, s, src, inc_c)
            o = os.path.join(BUILD, "obj", key + ".o")
            jobs.append(([("g++" if cxx else "gcc")] + flags + incs + ["-I" + os.path.dirname(s), "-c", s], o)); objs.append(o)
    hs = [os.path.join(VERIF, "pbt", "pbt.cpp"), os.path.join(VERIF, "harness", harness + ".cpp")] + [os.path.join(VERIF, "harness", e) for e in extra]
    vh = sha(*[read(f) for f in sorted(glob.glob(VERIF + "/pbt/*.hpp") + glob.glob(VERIF + "/harness/*.h*"))])
    for s in hs:
        fl = VARIANTS[variant] + ["-w", "-fopenmp", "-fpermissive", "-std=gnu++17"] + DFLAGS + list(defs)
        eng = s.endswith("pbt.cpp")
        key = sha(" ".join(fl), "" if eng else hdr, vh, s, read(s), setname)
        o = os.path.join(BUILD, "obj", key + ".o")
        jobs.append((["g++"] + fl + ([] if eng else [x.replace(tree + "/src/", tree + "/cxx/") for x in incs]) + ["-I" + VERIF + "/pbt", "-c", s], o)); objs.append(o)
    compile_all(jobs)
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (harness, setname, variant))
    key = sha(*objs)
    stamp = out + ".key"
    if not (os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key):
        san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]
        r = subprocess.run(["g++", "-fopenmp"] + san + ["-o", out + ".tmp"] + objs + ["-Wl,--wrap=exit,--wrap=abort"] + LIBS, capture_output=True, text=True)
        if r.returncode: raise SystemExit("LINK FAILED %s\n%s" % (harness, r.stderr[-3000:]))
        os.replace(out + ".tmp", out); put(stamp, key)
    return out

def build_utilities(variant="asan"):
    """the stand-alone tools of /repo/utilities, as BUILD/bin/util/<name>"""
    src = os.path.join(BUILD, "src-util"); shutil.rmtree(src, ignore_errors=True)
    for d in ("utilities", "src/utility/checkpoint"):
        for f in glob.glob(os.path.join(REPO, d, "*.[ch]")): put(os.path.join(src, os.path.relpath(f, REPO)), read(f))
    os.makedirs(os.path.join(BUILD, "bin/util"), exist_ok=True)
    hdr = sha(*[x for f in sorted(glob.glob(src + "/src/utility/checkpoint/*")) for x in (f, read(f))])
    jobs, outs = [], []
    for s in sorted(glob.glob(src + "/utilities/*.c")):
        o = os.path.join(BUILD, "obj", sha("util", " ".join(VARIANTS[variant]), hdr, s, read(s)))
        jobs.append((["gcc"] + VARIANTS[variant] + ["-w", "-lm", s], o)); outs.append((o, os.path.basename(s)[:-2]))
    compile_all(jobs)
    for o, n in outs:
        t = os.path.join(BUILD, "bin/util", n); shutil.copy2(o, t + ".tmp"); os.replace(t + ".tmp", t); os.chmod(t, 0o755)

if __name__ == "__main__":
    print(build(*sys.argv[1:]))
