#!/usr/bin/env python3
"""plant.py ID [--no-tests] [--check C01,..]: confirm a planted bug in a scratch copy that is bind-mounted over /repo
(needs unshare -m), and say whether the property's check finds it."""
import json, os, subprocess, sys, shutil
V = "/verif"; pid = sys.argv[1]; D = "%s/seeded/%s" % (V, pid); T = "/tmp/pl/" + pid
meta = json.load(open(D + "/meta.json")); checks = [meta["property"]]
if "--check" in sys.argv: checks = sys.argv[sys.argv.index("--check") + 1].split(",")
shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
sh("cp -a /repo %s/repo" % T); sh("git -C %s/repo checkout -q -- . " % T)
def ns(cmd, env={}, cwd="/repo"):
    e = dict(os.environ); e.update(env)
    r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && cd %s && %s" % (T, cwd, cmd)], text=True, capture_output=True, env=e)
    return r.returncode, r.stdout + r.stderr
demo = T + "/d"; shutil.copytree(D, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
ok = True
rc, o = ns("bash /opt/vp/build.sh"); assert rc == 0, o
rc, o = ns("timeout 300 bash %s/demo.sh" % demo); print(pid, "demo clean:", rc, o[-300:] if rc else ""); ok &= rc == 0
rc, o = ns("git apply %s/patch.diff" % D); assert rc == 0, o
rc, o = ns("bash /opt/vp/build.sh"); print(pid, "build:", rc, o[-800:] if rc else ""); ok &= rc == 0
rc, o = ns("timeout 300 bash %s/demo.sh" % demo); print(pid, "demo patched:", rc, o[-300:]); ok &= rc != 0
if "--no-tests" not in sys.argv:
    rc, o = ns("bash /opt/vp/test.sh %s/o.json" % T); r = json.load(open(T + "/o.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = sorted(st - set(r["passed"])); print(pid, "tests: %d stable tests fail" % len(bad), bad[:5]); ok &= not bad
for c in checks:
    rc, o = ns("python3 %s/tools/check.py %s --seed 1" % (V, c), {"VERIF_BUILD": T + "/build"}, V)
    v = [l for l in o.split("\n") if "VIOLATION" in l or "FAIL " in l or "ERROR" in l or "case:" in l]; print(pid, c, "check:", rc, "\n   ".join(x[:500] for x in v[:4])); 
print(pid, "GOOD" if ok else "NOT USABLE"); shutil.rmtree(T)
