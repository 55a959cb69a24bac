#!/usr/bin/env python3
"""Author-side tool (no check uses it): random small changes of the library, one at a time, in scratch copies,
against the checks that own the file. mutate.py OUT.log PER100 [SEED] [file-substrings...]
Each survivor is then looked at by hand: equivalent, unobservable, or a hole in a monitor."""
import os, sys, re, random, subprocess, shutil, tempfile, concurrent.futures as cf, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks as spec
SRC = os.environ.get("MUT_SRC", "/tmp/clean")
OWN = [  # first match
    ("src/ehvi/", ["C35"]), ("src/hv/", ["C36"]), ("experimental/bayes_opt/ehvi", ["C37"]), ("nsbo", ["C37"]), ("bo_multi", ["C37"]),
    ("experimental/acqui/ehvi", ["C37"]), ("pareto_benchmark", ["C37"]), ("hyper_volume", ["C36"]), ("parego", ["C28"]), ("cboptimizer", ["C29"]),
    ("imgpo", ["C30"]), ("spgp", ["C31"]), ("eci.hpp", ["C21", "C29"]), ("pareto", ["C27"]),
    ("model/gp.hpp", ["C02", "C01", "C04", "C05", "C03", "C08", "C33"]), ("model/gp/", ["C08"]), ("model/multi_gp", ["C09"]), ("sparsified", ["C10"]),
    ("kernel/", ["C06", "C33"]), ("mean/", ["C07"]), ("cmaes", ["C34"]), ("nlopt", ["C14", "C11"]), ("chained", ["C15"]), ("repeater", ["C15"]),
    ("opt/optimizer", ["C12", "C11"]), ("opt/grid", ["C12"]), ("opt/random", ["C11", "C12"]), ("opt/", ["C13", "C11", "C12"]), ("init/", ["C16"]),
    ("bayes_opt/", ["C17", "C18", "C19", "C32", "C22"]), ("stop/", ["C20", "C17"]), ("acqui/", ["C21"]), ("stat/", ["C22"]), ("serialize/", ["C23", "C02"]),
    ("tools/parallel", ["C24", "C25"]), ("tools/random", ["C26", "C25"]), ("tools/macros", ["C32"]), ("tools/", ["C22", "C33"]),
]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+= ", " -= "), (r" -= ", " += "), (r"(?<=[\s(\[,])0(?=[\s,;)\]])", "1"), (r"(?<=[\s(\[,])1(?=[\s,;)\]])", "0"),
       (r"(?<=[\s(\[,])1(?=[\s,;)\]])", "2"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "3.0"), (r"\b2\.\s", "3. "), (r"\+\+", "--"), (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"),
       (r"if \(([^;{]*)\)( \{)?$", r"if (!(\1))\2"), (r"\bdim_in\b", "dim_out"), (r"\[i\]", "[0]"), (r"\(i\)", "(0)"), (r"\bj\b", "i"), (r"\bsize\(\)", "size() - 1"), (r"\.back\(\)", ".front()"),
       (r"DELETE", "")]
STM = re.compile(r"^\s+(?!return|using|typedef|template|else|break|continue|const |auto |double |int |size_t |bool |Eigen::\S+ \w|std::\w+<.*> \w|static|struct|class|public|private|friend|namespace|BO_)[\w\.\->\[\]\(\)_:\*\+ ]+(\(.*\)|\s[\+\-\*]?=\s.*);$")

def sites(f):
    out = []
    txt = open(f, newline="").read().replace("\r\n", "\n").split("\n")
    skip = False
    for n, l in enumerate(txt):
        s = l.strip()
        if s.startswith("/*"): skip = True
        if "*/" in s: skip = False; continue
        if skip or s.startswith(("//", "#", "using ", "template", "namespace", "assert", "std::cerr", "std::cout")) or not s: continue
        if "BO_PARAM" in l or "operator" in l and "<<" in l: continue
        code = l.split("//")[0].rstrip()
        if n > 0 and txt[n - 1].rstrip().endswith("template <") : continue
        for p, r in OPS:
            if p == "DELETE":
                if STM.match(code): out.append((n, code, re.match(r"\s*", code).group(0) + ";"))
                continue
            ms = list(re.finditer(p, code))
            for m in ms[:2]:
                if "<" in p and "template" in code or "typename" in code and p in (r" < ", r" > "): continue
                new = code[:m.start()] + m.expand(r) + code[m.end():]
                if new != code: out.append((n, code, new))
    return out

def worker(a):
    k, f, n, old, new, ids = a
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
    tag = f"{os.path.relpath(f, SRC)}:{n+1}: {old.strip()}  ==>  {new.strip()}"
    try:
        shutil.copytree(SRC + "/src", d + "/src", ignore=shutil.ignore_patterns("tests", "examples", "benchmarks", "tutorials", "*.pdf"))
        p = d + "/" + os.path.relpath(f, SRC)
        raw = open(p, newline="").read(); crlf = "\r\n" in raw
        t = raw.replace("\r\n", "\n").split("\n"); t[n] = new; t = "\n".join(t)
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=str(1 + k % 3), VERIF_TIER="quick", VERIF_JOBS=os.environ.get("MJ", "2"))
        res = []
        for i in ids:
            # quick look at some targets first
            q = subprocess.run([sys.executable, V + "/tools/mutate.py", "--fast", i, str(k)], env=env, capture_output=True, text=True)
            if q.returncode == 5: return tag, "NOBUILD", ""
            if q.returncode == 1: return tag, "KILLED", i + " " + q.stdout.strip()[-150:]
        for i in ids:
            q = subprocess.run([sys.executable, V + "/tools/mutate.py", "--full", i], env=env, capture_output=True, text=True)
            if q.returncode == 1: return tag, "KILLED-FULL", i + " " + " ".join(l for l in q.stdout.splitlines() if "VIOLATION" in l)
            if q.returncode != 0: res.append(f"{i} rc={q.returncode} {q.stdout[-200:]}")
        return tag, "UNDECIDED" if res else "SURVIVED", " ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def vr():
    import vrun
    vrun.HERE_OUT = None
    return vrun

if sys.argv[1] == "--fast":
    import vrun
    pid, k = sys.argv[2], int(sys.argv[3])
    c = spec.CHECKS[pid]; rnd = random.Random(k)
    ts = [t for t in c["targets"] if t.get("san") != "tsan"] or c["targets"]
    ts = rnd.sample(ts, min(2, len(ts)))
    sc = tempfile.mkdtemp(prefix="mutf_", dir="/tmp/mut")
    try:
        bad = None
        with cf.ThreadPoolExecutor(2) as ex:
            bs = list(ex.map(lambda t: vrun.build(t, sc), ts))
        for b in bs:
            if b["rc"]: sys.exit(5)
        jobs = []
        for t, b in zip(ts, bs):
            for r in [r for r in c["runs"] if r["target"] == t["name"]][:4]:
                jobs.append((b["exe"], dict(r, tier="quick", cases=max(20, r["quick"][1] // 2)), 1000 + k, sc, len(jobs)))
        for j in jobs:
            r = vrun.run_one(j)
            if r["hang"] or r["rc"] != 0 or not r["json"] or r["json"]["violations"]:
                print((r["json"] or {}).get("violations", [{}])[0].get("key", "") if r["json"] and r["json"]["violations"] else f"rc {r['rc']} hang {r['hang']} {vrun.crash_key(r['stderr'])}")
                sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(sc, ignore_errors=True)
if sys.argv[1] == "--full":
    import vrun
    vrun.HERE_SAVE = vrun.HERE
    os.makedirs("/tmp/mut/o", exist_ok=True)
    # evidence and replays of mutants do not belong in /verif
    real = vrun.os.path.join
    def j(*a):
        if len(a) > 1 and a[0] == V and a[1] in ("out", "evidence"): a = ("/tmp/mut/o",) + a[1:]
        return real(*a)
    vrun.os.path.join = j
    sys.exit(vrun.check(sys.argv[2], "quick", int(os.environ["VERIF_SEED"])))

log, per, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
subs = sys.argv[4:]
jobs = []
rnd = random.Random(seed)
for a, _, fs in sorted(os.walk(SRC + "/src")):
    for x in sorted(fs):
        f = a + "/" + x
        rel = os.path.relpath(f, SRC)
        if not (rel.startswith("src/limbo/") and x.endswith(".hpp") or rel.startswith("src/ehvi/") and x.endswith(".cc") and x != "main.cc" or rel == "src/hv/hypervol.c"): continue
        if subs and not any(s in rel for s in subs): continue
        ids = next((i for p, i in OWN if p in rel), None)
        if not ids: continue
        ss = sites(f)
        if rel.endswith("hypervol.c"): ss = [s for s in ss if s[0] < 185]
        n = max(1, round(len(ss) * per / 100)) if ss else 0
        for s in rnd.sample(ss, min(n, len(ss))): jobs.append((rnd.randrange(10**6), f, *s, ids))
rnd.shuffle(jobs)
print(len(jobs), "mutants")
t0 = time.time()
with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex, open(log, "a") as o:
    for r in ex.map(worker, jobs):
        print(*r, sep=" | ", file=o, flush=True)
