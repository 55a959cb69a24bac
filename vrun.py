#!/usr/bin/env python3
"""vrun.py ID [ID...] : builds the drivers of a property from /repo/src, runs
them under sanitizers and monitors, judges what they observed, and writes
evidence/<ID>.json.  VERIF_SEED / VERIF_TIER select the workload.

exit 0  the property held on everything explored
exit 1  VIOLATION property=<ID> replay=<file>
exit 2  the check could not decide (build failure, too little observed ...)
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import checks as spec

NCPU = int(os.environ.get("VERIF_JOBS", "8"))
KNOWN = os.path.join(HERE, "known_findings.txt")

SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # no UBSan: halves the build time where the arithmetic is already judged elsewhere
    "addr": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # the default: address sanitizer and the cheap part of UBSan, with clang
    "lite": ["-O1", "-gline-tables-only", "-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift,float-cast-overflow,bool,enum,return,unreachable",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "ndebug": ["-O2", "-g1", "-DNDEBUG"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=0:strict_init_order=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
    "LSAN_OPTIONS": "exitcode=77",
    "OMP_NUM_THREADS": "1", "LC_ALL": "C",
}


def log(*a):
    print(*a, flush=True)


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def build(t, scratch):
    exe = os.path.join(scratch, t["name"])
    if t["src"].endswith(".py"):  # watches the Python part of the library (waf_tools)
        with open(exe, "w") as g:
            g.write('#!/bin/sh\nexec %s %s --repo %s "$@"\n' % (sys.executable, os.path.join(HERE, "harness", t["src"]), os.path.abspath(REPO)))
        os.chmod(exe, 0o755)
        return {"target": t["name"], "rc": 0, "out": "", "exe": exe, "wall": 0, "cmd": exe}
    san = t.get("san", "lite")
    cxx = t.get("cxx", "clang++" if san in ("lite", "tsan") else "g++")
    cmd = [cxx, "-std=c++14", "-w"] + SAN[san] + ["-D" + d for d in t.get("defs", [])]
    cmd += ["-I" + os.path.join(HERE, "harness", i) for i in t.get("inc", [])]
    cmd += ["-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3"]
    cmd += t.get("flags", [])
    for i, e in enumerate(t.get("extra", [])):  # sources of the library outside its headers
        obj = "%s_x%d.o" % (exe, i)
        c = e.endswith(".c")
        one = [cxx if not c else "clang" if "clang" in cxx else "gcc"]
        one += ["-w"] + ([] if c else ["-std=c++14"]) + [f for f in SAN[san] if not (c and "GLIBCXX" in f)]
        one += ["-I" + os.path.join(REPO, "src"), "-c", os.path.join(REPO, "src", e), "-o", obj]
        q = subprocess.run(one, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if q.returncode:
            return {"target": t["name"], "rc": q.returncode, "out": q.stdout, "exe": exe, "wall": 0, "cmd": " ".join(one)}
        cmd.append(obj)
    cmd += [os.path.join(HERE, "harness", t["src"]), "-o", exe, "-pthread"]
    cmd += t.get("libs", [])
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return {"target": t["name"], "rc": p.returncode, "out": p.stdout, "exe": exe, "wall": time.time() - t0,
            "cmd": " ".join(cmd)}


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        os.setsid()
    return f


def crash_key(txt):
    """stable identification of a sanitizer/assert/abort report"""
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)", txt)
    frame = ""
    fm = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", txt)
    for fn, path, ln in fm:
        if "/limbo/" in path:
            frame = os.path.basename(path) + ":" + re.sub(r"[<(].*", "", fn).split("::")[-1]
            break
    if m:
        return "san:%s:%s" % (m.group(2), frame)
    m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|\d[\d,]* (?:\(.*?\) )?bytes in [\d,]+ blocks are \w+ lost|Source and dest)", txt, re.M)
    if m:
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((\S+?):\d+\)", txt[m.start():])
        fr = [os.path.basename(p) + ":" + re.sub(r"[<(].*", "", f).split("::")[-1] for f, p in fr if p.endswith(".hpp") and "mon.hpp" not in p]
        kind = re.sub(r"[^a-z]+", "-", re.sub(r"\(.*\)", "", m.group(1).lower()))
        return "valgrind:%s:%s" % (kind, fr[0] if fr else "")
    m = re.search(r"runtime error: (.{0,60})", txt)
    if m:
        return "ub:%s:%s" % (re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40], frame)
    m = re.search(r"(\w+\.h(?:pp)?):\d+: .*Assertion", txt)
    if m:
        return "assert:" + m.group(1)
    if "WARNING: ThreadSanitizer" in txt:
        return "tsan"
    return "abort"


def run_one(job):
    exe, run, seed, scratch, idx = job
    tier = run["tier"]
    d = tempfile.mkdtemp(prefix="r%d_" % idx, dir=scratch)
    out = os.path.join(d, "out.json")
    cmd = list(run.get("prefix", [])) + [exe, "--seed", str(seed), "--cases", str(run["cases"]), "--mode", run.get("mode", ""),
                                        "--out", out, "--scratch", d, "--tier", tier]
    if run.get("only") is not None:
        cmd += ["--only", str(run["only"])]
    env = dict(os.environ)
    env.update(ENV)
    env.update(run.get("env", {}))
    cpu = run.get("cpu", 170 if tier == "quick" else 900)
    wall = run.get("wall", 220 if tier == "quick" else 1500)
    errf = os.path.join(d, "stderr")
    res = {"cmd": cmd, "seed": seed, "idx": idx, "run": run, "hang": False}
    t0 = time.time()
    with open(errf, "wb") as ef, open(os.path.join(d, "stdout"), "wb") as of:
        p = subprocess.Popen(cmd, stdout=of, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=d, preexec_fn=limits(cpu))
        try:
            p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            res["hang"] = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    res["wall"] = time.time() - t0
    res["rc"] = p.returncode
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and not res["hang"]:
        res["hang"] = p.returncode == -signal.SIGXCPU
    with open(errf, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 400000))
        res["stderr"] = f.read().decode("utf8", "replace")
    try:
        res["json"] = json.load(open(out))
    except Exception:
        res["json"] = None
    try:
        res["case"] = int(open(out + ".case").read().split()[0])
    except Exception:
        res["case"] = -1
    if not run.get("keep"):
        shutil.rmtree(d, ignore_errors=True)
    return res


def check(pid, tier, seed, replay=None):
    t0 = time.time()
    c = spec.CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    viols, errors = [], []
    ev = {"evaluations": 0}
    events, distinct, samples = {}, set(), []
    runs_done = 0
    try:
        targets = c["targets"]
        runs = []
        for r in c["runs"]:
            r = dict(r)
            r["tier"] = tier
            q, th = r.get("quick", (1, 20)), r.get("thorough")
            if th is None:
                th = (q[0] * 6, q[1] * 2)
            n, cases = q if tier == "quick" else th
            r["cases"] = cases
            for i in range(n):
                runs.append((r, seed * 1000 + i + 1))
        if replay:
            runs = [(dict(r, only=replay["case"] if replay["case"] >= 0 else None), s) for r, s in runs
                    if r["target"] == replay["target"] and r.get("mode", "") == replay["mode"] and s == replay["seed"]]
        used = {r["target"] for r, _ in runs}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            built = {}
            futs = {t["name"]: ex.submit(build, t, scratch) for t in targets if t["name"] in used}
            for n, f in futs.items():
                b = f.result()
                built[n] = b
                if b["rc"] != 0:
                    errors.append("build of %s failed:\n%s" % (n, b["out"][:6000]))
        tb = time.time()
        if errors:
            for e in errors[:3]:
                log("\n".join([x for x in e.splitlines() if "error" in x or "build of" in x][:6]))
            # an observable part of the interface that stopped compiling cannot be monitored
            return 2
        jobs = [(built[r["target"]]["exe"], r, s, scratch, i) for i, (r, s) in enumerate(runs)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(run_one, jobs))
            # a hang or an unexplained kill is only believed when it happens again
            again = [i for i, res in enumerate(results) if res["hang"] or res["rc"] == -9]
            for i, res in zip(again[:8], ex.map(run_one, [jobs[i] for i in again[:8]])):
                results[i] = res
        for res in results:
            r = res["run"]
            j = res["json"]
            if j:
                runs_done += 1
                ev["evaluations"] += j["evaluations"]
                for k, v in j["events"].items():
                    events[k] = events.get(k, 0) + v
                distinct.update(j["distinct"])
                samples += [x for x in j["samples"] if len(samples) < 8][:1 if len(samples) >= 3 else 2]
                for v in j["violations"]:
                    viols.append(dict(v, target=r["target"], mode=r.get("mode", ""), seed=res["seed"], cmd=res["cmd"]))
            base = {"target": r["target"], "mode": r.get("mode", ""), "seed": res["seed"], "case": res["case"], "cmd": res["cmd"]}
            if not j:
                for m in re.finditer(r"^MON-VIOLATION (\{.*\})$", res["stderr"], re.M):
                    try:
                        viols.append(dict(base, **json.loads(m.group(1))))
                    except ValueError:
                        pass
            if res["hang"]:
                viols.append(dict(base, key="no-progress", msg="the run made no end within its time limit (twice)"))
            elif res["rc"] in (66, 77) and r.get("tsan") and "WARNING: ThreadSanitizer" in res["stderr"]:
                keys = {}
                for blk in re.split(r"={18,}", res["stderr"]):
                    if "WARNING: ThreadSanitizer" in blk:
                        kind = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", blk).group(1).strip().replace(" ", "-")
                        fr = [(os.path.basename(p), re.sub(r"[<(].*", "", f).split("::")[-1]) for f, p in
                              re.findall(r"#\d+ (.+?) (/\S+?):\d+", blk) if "/limbo/" in p or "/harness/" in p]
                        k = "tsan:%s:%s" % (kind, fr[0][0] + ":" + fr[0][1] if fr else "?")
                        keys.setdefault(k, blk[:1500])
                for k, b in keys.items():
                    viols.append(dict(base, key=k, msg=b))
            elif res["rc"] != 0:
                if res["rc"] == -9:
                    errors.append("a run was killed (memory?): %s" % " ".join(res["cmd"]))
                elif res["rc"] == 3 and not j:
                    errors.append("driver setup error: " + res["stderr"][-800:])
                else:
                    viols.append(dict(base, key=crash_key(res["stderr"]), rc=res["rc"],
                                      msg="the process died (rc %s): %s" % (res["rc"], res["stderr"][-3000:])))
            elif not j:
                errors.append("no result from " + " ".join(res["cmd"]) + "\n" + res["stderr"][-1500:])
        post = c.get("post")
        if post:
            for k, m in post(events):
                viols.append({"key": k, "msg": m, "case": -1, "target": runs[0][0]["target"], "mode": "", "seed": seed, "cmd": []})
        known = known_findings(pid)
        seen_known, real = {}, []
        for v in viols:
            if v["key"] in known:
                seen_known.setdefault(v["key"], v)
            else:
                real.append(v)
        for k in seen_known:
            log("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        missing = []
        if not replay:
            for k, n in c.get("require", {}).items():
                if events.get(k, 0) < n:
                    missing.append("%s: observed %d, needs %d" % (k, events.get(k, 0), n))
        wall = time.time() - t0
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
            "coverage": {
                "evaluations": ev["evaluations"], "distinct_nontrivial": len(distinct),
                "rule": c["rule"], "samples": samples,
                "processes": len(results), "events": dict(sorted(events.items())),
                "sanitizers": sorted({t.get("san", "lite") for t in targets if t["name"] in used}),
                "build_s": round(tb - t0, 1),
            },
            "assumptions": c.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(real),
        }
        if not replay:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
                json.dump(evidence, f, indent=1)
        log("%s %s seed=%d: %d evaluations, %d distinct, %d processes, build %.1fs total %.1fs" % (
            pid, tier, seed, ev["evaluations"], len(distinct), len(results), tb - t0, wall))
        if os.environ.get("VERIF_VERBOSE"):
            for k, v in sorted(events.items()):
                log("   ", k, v)
        if real:
            os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
            bykey = {}
            for v in real:
                bykey.setdefault(v["key"], []).append(v)
            first = None
            for k, vs in list(bykey.items())[:20]:
                v = vs[0]
                path = os.path.join(HERE, "out", "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:80]))
                json.dump({"property": pid, "tier": tier, "verif_seed": seed, "n": len(vs), **v,
                           "how": "python3 /verif/vrun.py --replay " + path}, open(path, "w"), indent=1)
                first = first or path
                log("  %s (x%d, seed %s case %s): %s" % (k, len(vs), v["seed"], v["case"], v["msg"][:700]))
            log("VIOLATION property=%s replay=%s" % (pid, first))
            return 1
        if errors or missing:
            for e in errors:
                log("ERROR", e)
            for m in missing:
                log("ERROR too little observed:", m)
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        return check(r["property"], r["tier"], r["verif_seed"], r)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a and a[0] == "--thorough":
        tier = "thorough"
        a = a[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = 0
    for pid in a or sorted(spec.CHECKS):
        r = check(pid, tier, seed)
        if len(a) != 1:
            log("==", pid, "rc", r)
        if r:
            rc = r if rc != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
