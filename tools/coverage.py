#!/usr/bin/env python3
"""Author-side tool (no check uses it): which lines of /repo/src do the drivers execute?
coverage.py OUTDIR [ids...]   builds every target with clang's source coverage, runs it briefly, prints
the lines of the library nobody executes. Lines of templates count as executed if any instance executes them."""
import os, sys, subprocess, json, collections, concurrent.futures as cf, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks as spec
R = os.environ.get("VERIF_REPO", "/repo")
out = os.path.abspath(sys.argv[1])
ids = sys.argv[2:] or sorted(spec.CHECKS)
os.makedirs(out, exist_ok=True)
COV = ["-O1", "-g0", "-fprofile-instr-generate", "-fcoverage-mapping", "-fprofile-update=atomic"]

def one(a):
    pid, t, runs = a
    exe = f"{out}/{pid}_{t['name']}"
    cmd = ["clang++", "-std=c++14", "-w"] + COV + ["-D" + d for d in t.get("defs", [])]
    cmd += ["-I" + os.path.join(V, "harness", i) for i in t.get("inc", [])]
    cmd += ["-I" + V + "/harness", "-I" + R + "/src", "-I/usr/include/eigen3"] + [f for f in t.get("flags", []) if "sanit" not in f]
    for i, e in enumerate(t.get("extra", [])):
        o = f"{exe}_{i}.o"
        subprocess.run(["clang" if e.endswith(".c") else "clang++", "-w", "-I" + R + "/src"] + COV + ["-c", f"{R}/src/{e}", "-o", o], check=True)
        cmd.append(o)
    cmd += [f"{V}/harness/{t['src']}", "-o", exe, "-pthread"] + t.get("libs", [])
    if not os.path.exists(exe):
        q = subprocess.run(cmd, capture_output=True, text=True)
        if q.returncode: return (pid, t["name"], "BUILD " + q.stderr[-300:])
    msg = []
    for k, r in enumerate(runs):
        d = tempfile.mkdtemp(dir=out)
        n = max(20, r["quick"][1] // 4)
        env = dict(os.environ, LLVM_PROFILE_FILE=f"{exe}_{k}.profraw", **r.get("env", {}))
        try:
            p = subprocess.run([exe, "--seed", "11", "--cases", str(n), "--mode", r.get("mode", ""), "--out", d + "/o.json", "--scratch", d, "--tier", "quick"], cwd=d, env=env, capture_output=True, timeout=600)
            if p.returncode not in (0, 1): msg.append(f"rc {p.returncode} {p.stderr[-200:]}")
        except subprocess.TimeoutExpired:
            msg.append("timeout")
        subprocess.run(["rm", "-rf", d])
    return (pid, t["name"], " ".join(msg) or "ok")

jobs = []
for p in ids:
    c = spec.CHECKS[p]
    for t in c["targets"]:
        rs = [r for r in c["runs"] if r["target"] == t["name"]]
        jobs.append((p, t, rs))
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for r in ex.map(one, jobs):
        if r[2] != "ok": print(*r, flush=True)
lines = collections.defaultdict(dict)
for p, t, _ in jobs:
    exe = f"{out}/{p}_{t['name']}"
    raws = [f"{out}/{f}" for f in os.listdir(out) if f.startswith(f"{p}_{t['name']}_") and f.endswith(".profraw")]
    if not raws: continue
    subprocess.run(["llvm-profdata-18", "merge", "-sparse"] + raws + ["-o", exe + ".pd"], check=True)
    q = subprocess.run(["llvm-cov-18", "export", "-format=lcov", exe, "-instr-profile=" + exe + ".pd"], capture_output=True, text=True)
    f = None
    for l in q.stdout.splitlines():
        if l.startswith("SF:"): f = l[3:] if "/src/" in l and R in l else None
        elif f and l.startswith("DA:"):
            n, c = l[3:].split(",")[:2]
            lines[f][int(n)] = lines[f].get(int(n), 0) + int(c)
tot = ex_ = 0
for f in sorted(lines):
    d = lines[f]
    miss = sorted(n for n in d if not d[n])
    tot += len(d); ex_ += len(d) - len(miss)
    if miss:
        src = open(f).read().splitlines()
        print("==", os.path.relpath(f, R), f"{len(d)-len(miss)}/{len(d)}")
        for n in miss: print("   %4d %s" % (n, src[n - 1]))
allf = [os.path.join(a, x) for a, _, fs in os.walk(R + "/src") for x in fs if x.endswith((".hpp", ".cc", ".c", ".h", ".cpp")) and "/tests/" not in a and "/examples/" not in a and "/benchmarks/" not in a and "/tutorials" not in a]
print("== never compiled into a driver:")
for f in sorted(allf):
    if f not in lines: print("   ", os.path.relpath(f, R))
print("executed", ex_, "of", tot, "lines")
