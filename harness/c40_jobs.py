"""C40: replicates of experiments, run locally or handed over to a cluster's scheduler (waf_tools).

Recording programs take the place of the experiments, recording commands that of qsub, oarsub and mpirun;
the job scripts that are submitted are executed.  Everything happens below the scratch directory."""
import json, os, re, shutil, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import pymon

PROG = """#!/bin/sh
# @TAG@
mkdir @LOG@/lock 2>/dev/null && own=1 || own=0
sleep @SLEEP@
{ printf '%s\\n' '@TAG@' "$PWD" "$0" "$own" "${LD_LIBRARY_PATH-unset}" "$MPI_STANDIN"; for i in "$@"; do printf 'arg %s\\n' "$i"; done; } > @LOG@/tmp.$$
echo 'out @TAG@' "$@"
echo 'err @TAG@' >&2
mv @LOG@/tmp.$$ @LOG@/run.$$.@RND@
[ $own = 1 ] && rmdir @LOG@/lock
exit @RC@
"""
SUB = """#!/bin/sh
for last; do :; done
{ printf '%s\\n' "$@"; } > @LOG@/sub.$$
dir=
while [ $# -gt 0 ]; do case "$1" in -d) dir=$2; shift;; esac; shift; done
cd "$dir" || exit 9
"$last" > job.out 2> job.err
exit @RC@
"""
MPI = """#!/bin/sh
MPI_STANDIN=mpirun; export MPI_STANDIN
exec "$@"
"""


def put(path, txt):
    with open(path, "w") as f:
        f.write(txt)
    os.chmod(path, 0o755)


def one(m, rnd, a, c):
    limbo, logged = pymon.waf_tools(a.repo)
    how = a.mode or rnd.choice(["local", "local_serial", "qsub", "oar"])
    d = os.path.join(a.scratch, "j%d" % c)
    log = os.path.join(d, "log")
    os.makedirs(log)
    os.chdir(d)
    bins = os.path.join(d, "bin_")
    os.mkdir(bins)
    for n in ("qsub", "oarsub"):
        put(os.path.join(bins, n), SUB.replace("@LOG@", log).replace("@RC@", rnd.choice(["0", "0", "1"])))
    put(os.path.join(bins, "mpirun"), MPI)
    confs, want = [], []
    shared = rnd.random() < 0.4  # several entries that write below the same directory, or use the same programs
    nconf = rnd.choice([1, 1, 2, 2, 3, 4])
    taken = set()
    for k in range(nconf):
        b = 0 if shared and rnd.random() < 0.5 else k
        bin_dir = os.path.join(d, "build", "exp", "e%d" % b)
        src_dir = os.path.join(d, "exp", "e%d" % b)
        os.makedirs(bin_dir, exist_ok=True)
        os.makedirs(src_dir, exist_ok=True)
        res = os.path.join(d, "data") + (rnd.choice(["", "/"]) if shared else "/r%d" % k)
        if not shared and rnd.random() < 0.3:
            res += rnd.choice(["/", "/deep/er"])
        names = [n for n in rnd.sample(["prog", "prog_a", "hexa_duty_text", "b2", "multi_parego_dim2", "x"], rnd.randint(1, 3)) if (res.rstrip("/"), n) not in taken]
        if not names:
            continue
        params = rnd.random() < 0.6
        if params:
            open(os.path.join(src_dir, "params_e%d.txt" % b), "w").write("parameters of e%d\n" % b)
        params = os.path.exists(os.path.join(src_dir, "params_e%d.txt" % b))
        for n in names:
            taken.add((res.rstrip("/"), n))
            p = os.path.join(bin_dir, n)
            if not os.path.exists(p):
                put(p, PROG.replace("@TAG@", "%s of e%d" % (n, b)).replace("@LOG@", log).replace("@SLEEP@", rnd.choice(["0", "0", "0.01", "0.03"])).replace("@RC@", rnd.choice(["0", "0", "0", "3"])).replace("@RND@", n))
        conf = {"exps": names, "bin_dir": bin_dir, "res_dir": res, "email": rnd.choice(["me@example.org", "JBM"]),
                "wall_time": "%d:%02d:00" % (rnd.randint(0, 300), rnd.randint(0, 59)), "nb_runs": rnd.choice([1, 1, 2, 3, 5])}
        args = []
        if rnd.random() < 0.6:
            args = rnd.sample(["-n", "12", "--seed=%d" % rnd.randint(0, 99), "alpha", "0.5", "-v"], rnd.randint(0, 3))
            conf["args"] = " ".join(args)
        if rnd.random() < 0.5:
            conf["nb_cores"] = rnd.randint(1, 32)
        mpi = False
        if rnd.random() < 0.4:
            mpi = rnd.random() < 0.5
            conf["use_mpi"] = "true" if mpi else "false"
        confs.append(conf)
        for n in names:
            for i in range(conf["nb_runs"]):
                dd = os.path.normpath("%s/%s/exp_%d" % (res, n, i))
                if rnd.random() < 0.1:
                    os.makedirs(dd, exist_ok=True)
                want.append({"tag": "%s of e%d" % (n, b), "dir": dd, "args": args, "conf": conf, "name": n, "mpi": mpi, "b": b, "params": params})
    open("conf.json", "w").write(json.dumps(confs, indent=rnd.choice([None, 2])))
    desc = "%s %s" % (how, json.dumps(confs).replace(d, "."))
    m.sample(desc)
    m.state(how, [(tuple(x["exps"]), x["nb_runs"], x.get("args"), x.get("nb_cores"), x.get("use_mpi")) for x in confs])
    path = os.environ["PATH"]
    ld = os.environ.get("LD_LIBRARY_PATH")
    setld = rnd.choice([None, "/opt/x/lib", "/a/lib:/b/lib"])
    os.environ["PATH"] = bins + ":" + path
    os.environ.pop("LD_LIBRARY_PATH", None)
    if setld:
        os.environ["LD_LIBRARY_PATH"] = setld
    # the shells' own messages (cp without parameter files) are not of interest
    err = os.dup(2)
    nul = os.open("/dev/null", os.O_WRONLY)
    os.dup2(nul, 2)
    try:
        if how == "local":
            limbo.run_local("conf.json", False)
        elif how == "local_serial":
            limbo.run_local("conf.json") if rnd.random() < 0.5 else limbo.run_local("conf.json", True)
        elif how == "qsub":
            limbo.qsub("conf.json")
        else:
            limbo.oar("conf.json")
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(nul)
        os.environ["PATH"] = path
        os.environ.pop("LD_LIBRARY_PATH", None)
        if ld is not None:
            os.environ["LD_LIBRARY_PATH"] = ld
    m.ev(how)
    m.ev("entries with arguments", sum(1 for x in confs if x.get("args")))
    if len({x.get("args", "") for x in confs}) > 1:
        m.ev("files whose entries differ in arguments")
    runs = []
    for f in sorted(os.listdir(log)):
        if f.startswith("run."):
            l = open(os.path.join(log, f)).read().split("\n")
            runs.append({"tag": l[0], "dir": os.path.normpath(l[1]), "exe": l[2], "own": l[3], "ld": l[4], "mpi": l[5], "args": [x[4:] for x in l[6:] if x.startswith("arg ")]})
        elif f.startswith("tmp."):
            m.fail("still-running", desc + ": a replicate had not ended")
    key = lambda r: (r["dir"], r["tag"])
    got, exp = sorted(runs, key=key), sorted(want, key=key)
    m.ev("replicates", len(got))
    if not m.check([key(r) for r in got] == [key(r) for r in exp], "replicates", "%s: ran %s instead of %s" % (desc, [key(r) for r in got], [key(r) for r in exp])):
        return
    for r, w in zip(got, exp):
        where = "%s: %s in %s" % (desc, w["tag"], w["dir"])
        m.check(r["args"] == w["args"], "arguments", "%s: ran with %s instead of %s" % (where, r["args"], w["args"]))
        exe = os.path.join(w["dir"], w["name"])
        m.check(os.path.normpath(os.path.join(w["dir"], r["exe"])) == exe, "own-copy", "%s: ran %s" % (where, r["exe"]))
        m.check(w["tag"] in open(exe).read(), "own-copy", "%s: another program lies there" % where)
        if w["params"]:
            q = os.path.join(w["dir"], "params_e%d.txt" % w["b"])
            m.check(os.path.exists(q) and open(q).read() == "parameters of e%d\n" % w["b"], "parameters-kept", where)
            m.ev("parameter files kept")
        o, e = ("stdout.txt", "stderr.txt") if how.startswith("local") else ("job.out", "job.err")
        so = open(os.path.join(w["dir"], o)).read() if os.path.exists(os.path.join(w["dir"], o)) else None
        se = open(os.path.join(w["dir"], e)).read() if os.path.exists(os.path.join(w["dir"], e)) else None
        m.check(so is not None and so.split() == ["out"] + w["tag"].split() + w["args"], "stdout", "%s: %r" % (where, so))
        m.check(se is not None and se.split() == ["err"] + w["tag"].split(), "stderr", "%s: %r" % (where, se))
        if how == "local_serial":
            m.check(r["own"] == "1", "overlap", where + ": two replicates at a time")
        if how in ("qsub", "oar"):
            m.check(r["ld"] == (setld or ""), "library-path", "%s: LD_LIBRARY_PATH %r instead of %r" % (where, r["ld"], setld))
            m.check(how == "oar" or (r["mpi"] == "mpirun") == w["mpi"], "mpi", where)
            m.ev("MPI jobs", int(w["mpi"]))
    if how == "local" and len(got) > 1 and any(r["own"] == "0" for r in got):
        m.ev("replicates at the same time")
    subs = [open(os.path.join(log, f)).read().split("\n")[:-1] for f in sorted(os.listdir(log)) if f.startswith("sub.")]
    if how in ("qsub", "oar"):
        m.check(len(subs) == len(want), "submissions", "%s: %d submissions" % (desc, len(subs)))
        bydir = {}
        for s in subs:
            bydir[os.path.normpath(s[s.index("-d") + 1])] = s
        for w in want:
            s = bydir.get(w["dir"])
            if not m.check(s is not None, "submissions", "%s: nothing submitted for %s" % (desc, w["dir"])):
                continue
            job, conf = s[-1], w["conf"]
            t = open(job).read()
            where = "%s: %s: %s" % (desc, job, t)
            m.check(os.path.normpath(os.path.dirname(job)) == w["dir"] and os.access(job, os.X_OK), "job-file", where)
            cores = str(conf.get("nb_cores", 1))
            if how == "qsub":
                h = {"walltime": r"^#PBS .*\bwalltime=(\S+)", "name": r"^#PBS .*-N (\S+)", "cores": r"^#PBS .*\bnodes=(\d+)", "email": r"^#PBS .*-M (\S+)"}
            else:
                h = {"walltime": r"^#OAR .*\bwalltime=(\S+)", "name": r"^#OAR .*-n (\S+)", "cores": r"^#OAR .*core=(\d+)"}
                m.check("-S" in s, "submissions", "%s: %s" % (desc, s))
            exp = {"walltime": conf["wall_time"], "name": w["name"], "cores": cores, "email": conf["email"]}
            for k, r in h.items():
                g = re.findall(r, t, re.M)
                m.check(g == [exp[k]], "job-" + k, "%s: %s %s instead of %s" % (where, k, g, exp[k]))
            m.ev("job scripts")
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    pymon.main(one)
