#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--seed N] [--replay FILE]

Rebuilds the harnesses of a property from /repo's working tree, runs them and
writes evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1 with a
VIOLATION line: broken.  Exit 2: the check itself could not run."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

def known_findings():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' and 'fixed: ...' lines"""
    res = {}
    p = os.path.join(B.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "finding:":
                res[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3].strip()
    return res

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick"); seed = os.environ.get("VERIF_SEED", "1"); replay = None; more = []
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = a.pop(0)
        elif x == "--replay": replay = a.pop(0)
        else: more.append(x)
    seed = int(seed)
    spec = CHECKS[pid]
    t0 = time.time()
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0"
    env["TSAN_OPTIONS"] = "exitcode=98"
    rdir = os.path.join(B.BUILD, "replays", pid); os.makedirs(rdir, exist_ok=True)
    bins = []
    for b in spec["bins"]:
        b = dict(b)
        try: bins.append((b, B.build(b["harness"], b.get("set", "core"), b.get("variant", "o1"), extra=b.get("extra", ()), defs=b.get("defs", ()))))
        except SystemExit as e:
            print("BUILD ERROR:", e); sys.exit(2)
    if replay:
        sub = [l.split()[1] for l in open(replay) if l.startswith("sub ")][0]
        rc = 2
        for b, exe in bins:
            e2 = dict(env); e2.update(b.get("env", {}))
            r = subprocess.run([exe, "--replay", replay, "--tier", tier], env=e2, capture_output=True, text=True)
            if r.returncode != 2: print(r.stdout); rc = r.returncode; break
        if rc == 1: print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(rc)
    subs, viol = [], []
    for k, (b, exe) in enumerate(bins):
        out = os.path.join(B.BUILD, "%s-%d.json" % (pid, k))
        if os.path.exists(out): os.remove(out)
        e2 = dict(env); e2.update(b.get("env", {}))
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", out, "--replaydir", rdir] + list(b.get("args", [])) + more
        r = subprocess.run(cmd, env=e2)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("harness %s ended with %d" % (b["harness"], r.returncode)); sys.exit(2)
        for s in json.load(open(out))["subs"]:
            s["harness"] = b["harness"]; s["variant"] = b.get("variant", "o1"); subs.append(s)
            if s["fail"] and s["fail"]["confirmed"]: viol.append(s)
    known = known_findings(); kf = []
    for s in subs:
        for key, v in s["known"].items():
            if (pid, key) in known: kf.append((key, known[(pid, key)], v["count"]))
            else:
                viol.append(s); s["fail"] = dict(msg=v["msg"], replay=os.path.join(rdir, s["name"] + ".known"), confirmed=True, case=-1, desc=key)
                open(s["fail"]["replay"], "w").write("unlisted finding %s: %s\n" % (key, v["msg"]))
    samples = [dict(sub=s["name"], case=x) for s in subs for x in s["samples"][:2]]
    if not samples: samples = [dict(sub=s["name"], cases=s["cases"], labels=s["labels"]) for s in subs]
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
      coverage=dict(evaluations=sum(s["cases"] for s in subs), distinct_nontrivial=sum(s["distinct"] for s in subs),
        rule=spec["rule"], samples=samples[:24],
        inner_evaluations=sum(s["evaluations"] for s in subs), discarded=sum(s["discards"] for s in subs),
        subproperties=[dict(name=s["name"], harness=s["harness"], variant=s["variant"], cases=s["cases"], nontrivial=s["nontrivial"],
          distinct_nontrivial=s["distinct"], discarded=s["discards"], wall_s=s["wall"], labels=s["labels"],
          flaky_unconfirmed=bool(s["fail"] and not s["fail"]["confirmed"])) for s in subs],
        known_findings_seen=[dict(key=k, count=n) for k, _, n in kf]),
      assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(B.VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, t, n in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    if viol:
        for s in viol:
            print("  %s: %s" % (s["name"], s["fail"]["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, s["fail"]["replay"]))
        sys.exit(1)
    sys.exit(0)
main()
