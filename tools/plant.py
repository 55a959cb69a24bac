#!/usr/bin/env python3
"""Author-side tool (no check uses it): turn bug specifications into seeded/<id>/ and try them.

  plant.py SPEC.py [ids...]            write seeded/, run the demo on both trees, run the property's check
  plant.py --tests [ids...]            apply each seeded patch in /repo, build, run the stable tests, undo
A specification is a list BUGS of dicts: id, prop, edits [(file, old, new)], demo (C++), flags, needs, breaks.
"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = subprocess.run(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
W = "/tmp/plant"

DEMO = '''#!/bin/bash
# cwd: /repo. Exit 0: the guarantee holds; anything else: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++14 -O1 -w %(flags)s -I "$PWD/src" -I /usr/include/eigen3 "$D/demo.cpp" -o "$W/demo" %(libs)s -lboost_system -lboost_filesystem -lpthread || exit 2
cd "$W" && timeout 200 %(run)s ./demo
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Cholesky>
%s
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %%s (line %%d)\\n", #c, __LINE__); return 1; } } while (0)
using namespace limbo;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
static V v1(double a) { V v(1); v << a; return v; }
static V v2(double a, double b) { V v(2); v << a, b; return v; }
'''

PYDEMO = '''#!/bin/bash
# cwd: /repo. Exit 0: the guarantee holds; anything else: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp -r waf_tools "$W/" && ln -s "$PWD/src" "$W/src" && cd "$W" && timeout 200 python3 -B "$D/demo.py"
'''
PYPRE = '''import json, os, re, subprocess, sys, types
def mod(n, **k):
    m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
logs = mod('waflib.Logs', pprint=lambda *a: None)
ut = mod('waflib.Tools.waf_unit_test', summary=lambda b: None)
mod('waflib.Tools', waf_unit_test=ut); mod('waflib', Logs=logs)
try:
    import simplejson
except ImportError:
    sys.modules['simplejson'] = json
sys.path.insert(0, os.path.join(os.getcwd(), 'waf_tools'))
import limbo
def check(c, m):
    if not c:
        sys.stderr.write('FAILED: %s\\n' % (m,)); sys.exit(1)
class Opt: dim_in = dim_out = bayes_opt_boptimizer_noise = bayes_opt_bobase_stats_disabled = init_randomsampling_samples = stop_maxiterations_iterations = None
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def head():
    return sh(f"git -C {R} rev-parse HEAD").stdout

def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    sh(f"git -C {R} archive HEAD | tar x -C {path}")

def make(b):
    d = f"{V}/seeded/{b['id']}"
    work = f"{W}/{b['id']}"
    os.makedirs(W, exist_ok=True)
    fresh(work)
    sh(f"cd {work} && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x")
    for f, old, new in b["edits"]:
        p = f"{work}/{f}"
        s = open(p, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        s = s.replace(old, new)
        open(p, "w", newline="").write(s)
    rawdiff = subprocess.run(f"cd {work} && git diff", shell=True, capture_output=True).stdout
    diff = rawdiff.decode().replace("\r\n", "\n")
    # at least one removed line, or context, of the original repository
    rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = []
    for f, _, _ in b["edits"]:
        orig += sh(f"git -C {R} show {BASE}:{f}").stdout.splitlines()
    notorig = [l for l in rem if l not in orig]
    if notorig: print("   WARNING: not in the original:", notorig)
    if not rem: print("   note: only adds lines")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "wb").write(rawdiff)
    open(d + "/demo.cpp", "w").write(PRE % b.get("inc", "#include <limbo/limbo.hpp>") + b["demo"])
    open(d + "/demo.sh", "w").write(DEMO % dict(flags=b.get("flags", ""), libs=b.get("libs", ""), run=b.get("run", "")))
    os.chmod(d + "/demo.sh", 0o755)
    if "py" in b:
        os.remove(d + "/demo.cpp")
        open(d + "/demo.py", "w").write(PYPRE + b["py"])
        open(d + "/demo.sh", "w").write(PYDEMO)
    for n, src in b.get("files", {}).items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        shutil.copy(src, f"{d}/{n}")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean = W + "/clean"
    if not os.path.exists(clean) or open(clean + "/.head").read() != head(): fresh(clean); open(clean + "/.head", "w").write(head())
    a = sh(f"bash {d}/demo.sh", cwd=clean)
    c = sh(f"bash {d}/demo.sh", cwd=work)
    ok = a.returncode == 0 and c.returncode not in (0, 2)
    print(f"{b['id']} [{b['prop']}] demo clean rc={a.returncode} patched rc={c.returncode} {'ok' if ok else 'BAD'}")
    if not ok: print((a.stderr + a.stdout)[-1500:], "----", (c.stderr + c.stdout)[-1500:])
    return ok, work

def check(b, work):
    e = dict(os.environ, VERIF_REPO=work, VERIF_SEED="1", VERIF_TIER="quick")
    r = sh(f"python3 vrun.py {b['prop']}", cwd=V, env=e)
    vl = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    caught = r.returncode == 1 and any(f"property={b['prop']}" in l for l in vl)
    print(f"   check {b['prop']} rc={r.returncode} {'CAUGHT' if caught else 'MISSED'}", *vl[:2], sep="\n      ")
    if r.returncode not in (0, 1): print(r.stdout[-800:], r.stderr[-800:])
    return caught

def tests(ids):
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable.get("stable") or stable.get("passed") or stable
    for i in ids:
        p = f"{V}/seeded/{i}/patch.diff"
        if sh(f"git -C {R} apply {p}").returncode: print(i, "DOES NOT APPLY"); continue
        try:
            sh("bash /opt/vp/test.sh /tmp/plant_t.json")
            r = json.load(open("/tmp/plant_t.json"))
            passed = set(r["passed"])
            miss = [t for t in stable if t not in passed]
            if miss:
                sh("bash /opt/vp/test.sh /tmp/plant_t.json")
                passed |= set(json.load(open("/tmp/plant_t.json"))["passed"])
                miss = [t for t in stable if t not in passed]
            print(i, "TESTS OK" if not miss else f"TESTS FAIL {miss[:4]}", flush=True)
        finally:
            sh(f"git -C {R} checkout -- .")

if __name__ == "__main__":
    if sys.argv[1] == "--tests":
        tests(sys.argv[2:] or sorted(os.listdir(V + "/seeded")))
    else:
        g = {}; exec(open(sys.argv[1]).read(), g)
        for b in g["BUGS"]:
            if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
            try:
                ok, work = make(b)
                if ok and not os.environ.get("NOCHECK"): check(b, work)
                shutil.rmtree(work, ignore_errors=True)
            except AssertionError as e: print(b["id"], "EDIT?", e)
            sys.stdout.flush()
