"""C39: experiments created by the tool chain (waf_tools): what is generated is compiled, run and watched.

mode create   random options -> create_exp -> compile with ASan/UBSan -> run; evaluations are recorded by
              code put where the template says that the user's code goes
mode listing  the listing of the defaults, against the values of the compiled library and against the
              preprocessed headers
mode variants create_variants, against the documented names and defines"""
import os, re, shutil, subprocess, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import pymon

HERE = os.path.dirname(os.path.abspath(__file__))
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)"
SHIM = ["-I" + os.path.join(HERE, "cmaes_shim"), "-I" + os.path.join(HERE, "sferes_shim")]
SAN = ["-std=c++14", "-w", "-O0", "-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize=alignment,null,vptr,object-size",
       "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]


def sh(cmd, cwd=None, timeout=300, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=cwd, timeout=timeout, env=env)
    return p.returncode, p.stdout, p.stderr


class Opt:
    pass


def workspace(a, m, c):
    d = os.path.join(a.scratch, "w%d" % c)
    os.makedirs(d)
    shutil.copytree(os.path.join(a.repo, "waf_tools"), os.path.join(d, "waf_tools"), ignore=shutil.ignore_patterns("__pycache__"))
    os.symlink(os.path.join(a.repo, "src"), os.path.join(d, "src"))
    os.chdir(d)
    return d


class Bld:
    """records what a wscript asks waf for"""

    def __init__(self):
        self.calls = []
        self.env = {"CXXFLAGS": []}

    def __call__(self, *x, **k):
        self.calls.append(k)

    program = __call__


def options(rnd):
    o = Opt()
    o.dim_in = rnd.choice([None, 1, 2, 3, 4, 5])
    o.dim_out = rnd.choice([None, 1, 2, 2, 3, 4])
    o.bayes_opt_boptimizer_noise = rnd.choice([None, 1e-6, 0.25, round(rnd.uniform(0.01, 1), 4), 10 ** rnd.uniform(-8, 0)])
    o.bayes_opt_bobase_stats_disabled = rnd.choice([None, True])
    o.init_randomsampling_samples = rnd.choice([None, 1, 2, 5, 9, rnd.randint(1, 8)])
    o.stop_maxiterations_iterations = rnd.choice([None, 1, 2, 4, rnd.randint(1, 5)])
    return o


LIMIT = 14  # evaluations after which a run with many iterations is ended


def value(x, i):
    return math.sin(3 * x[0] + i) + sum((k + 1) * (v - 0.3) ** 2 for k, v in enumerate(x)) * (1 if i % 2 else -1)


def instrument(src, dim_out, nlisted):
    """the user's part of the generated program: records x, computes the value"""
    k = src.index("// YOUR CODE HERE")
    decl = re.findall(r"(double|Eigen::VectorXd|auto|VectorXd)\s+(\w+)\s*(?:=|\(|\{|;)", src[:k].split("operator()")[-1])
    if not decl:
        return None
    var = decl[-1][1]
    code = "{ probe::point(x); " + (
        "".join("%s(%d) = probe::value(x, %d); " % (var, i, i) for i in range(dim_out)) if dim_out > 1 else "%s = probe::value(x, 0); " % var) + "}\n"
    head = """#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <unistd.h>
#include <string>
namespace probe {
    inline FILE* log() { static FILE* f = std::fopen("probe.log", "w"); return f; }
    template <typename V> void point(const V& x) {
        static int n = 0;
        std::fprintf(log(), "x");
        for (int i = 0; i < (int)x.size(); i++) std::fprintf(log(), " %.17g", (double)x[i]);
        std::fprintf(log(), "\\n"); std::fflush(log());
        if (++n >= LIMIT_) std::_Exit(0);
    }
    template <typename V> double value(const V& x, int i) {
        double s = 0;
        for (int k = 0; k < (int)x.size(); k++) s += (k + 1) * (x[k] - 0.3) * (x[k] - 0.3);
        return std::sin(3 * x[0] + i) + s * (i % 2 ? 1 : -1);
    }
    template <typename T> void param(const char* n, const T& v, const T& listed) { std::fprintf(log(), "p %s %.17g %.17g\\n", n, (double)v, (double)listed); std::fflush(log()); }
}
""".replace("LIMIT_", str(LIMIT))
    checks = "".join('probe::param("%s.%s", Params::%s::%s(), decltype(Params::%s::%s())(%s));\n' % (s, n, s, n, s, n, v) for s, n, v in nlisted)
    tail = "\nstatic struct ProbeAll { ProbeAll() {\n" + checks + '    probe::param("Eval.dim_in", (double)Eval::dim_in(), (double)Eval::dim_in());\n    probe::param("Eval.dim_out", (double)Eval::dim_out(), (double)Eval::dim_out());\n} } probe_all_;\n'
    return head + src[:k] + code + src[k + len("// YOUR CODE HERE"):] + tail


def listing(txt):
    """[(struct, type, name, value, file)] of a listing, as a reader sees it"""
    out, cur, prev = [], None, ""
    for line in txt.splitlines():
        if re.match(r"^\^+$", line):
            cur = prev
        r = re.match(r"^- (.*?) (\w+) = (.*?) \[(?:defined in|default value, from) ([^\]]*)\](.*)$", line)
        if r and cur:
            out.append((cur, r.group(1), r.group(2), r.group(3), r.group(4), r.group(5)))
        prev = line.strip()
    return out


def create(m, rnd, a, c):
    limbo, logged = pymon.waf_tools(a.repo)
    d = workspace(a, m, c)
    o = options(rnd)
    if c == 0 and a.seed % 4 == 1:
        o = Opt()
        for k in ("dim_in", "dim_out", "bayes_opt_boptimizer_noise", "bayes_opt_bobase_stats_disabled", "init_randomsampling_samples", "stop_maxiterations_iterations"):
            setattr(o, k, None)
    name = rnd.choice(["foo", "my_exp", "e2", "NAME", "exp"]) + rnd.choice(["", "_b", "3"])
    if rnd.random() < 0.5:
        os.mkdir("exp")
        os.mkdir("exp/other")
    limbo.create_exp(name, o)
    desc = "%s %s" % (name, {k: v for k, v in vars(o).items()})
    e = os.path.join("exp", name)
    files = sorted(os.listdir(e)) if os.path.isdir(e) else []
    m.sample(desc)
    m.state(sorted(vars(o).items(), key=str))
    m.ev("experiments created")
    if not m.check(files == sorted([name + ".cpp", "wscript"]), "files", "%s: created %s" % (desc, files)):
        return
    # creating it again changes nothing
    before = {f: open(os.path.join(e, f)).read() for f in files}
    open(os.path.join(e, name + ".cpp"), "a").write("// edited by the user\n")
    limbo.create_exp(name, options(rnd))
    after = {f: open(os.path.join(e, f)).read() for f in sorted(os.listdir(e))}
    m.check(after == dict(before, **{name + ".cpp": before[name + ".cpp"] + "// edited by the user\n"}), "overwritten", desc + ": creating an experiment of the same name changed it")
    m.ev("experiment that exists kept")
    # what its wscript builds
    ns = {}
    try:
        exec(compile(after["wscript"], "wscript", "exec"), ns)
        b = Bld()
        ns["build"](b)
        k = b.calls[0]
        m.check(len(b.calls) == 1 and os.path.isfile(os.path.join(e, k["source"])) and k["target"] == name, "wscript", "%s: %s" % (desc, b.calls))
        inc = [os.path.normpath(os.path.join(e, i)) for i in k["includes"].split()]
        m.check("src" in inc and e in inc, "wscript-includes", "%s: %s" % (desc, inc))
    except Exception as x:
        m.fail("wscript", "%s: %r" % (desc, x))
    # the listing of its parameters
    limbo.output_params(e)
    lst = listing(open(os.path.join(e, "params_%s.txt" % name)).read())
    m.ev("parameter listings")
    src = before[name + ".cpp"]
    macros = rnd.choice([["-DUSE_NLOPT"], ["-DUSE_NLOPT"], ["-DUSE_LIBCMAES"], []])
    if not macros and (o.dim_in or 1) > 2:
        macros = ["-DUSE_NLOPT"]
    m.ev("built with " + (macros[0][2:] if macros else "neither library"))
    inc = ["-I" + os.path.join(a.repo, "src"), "-I/usr/include/eigen3"] + SHIM
    rc, pre, err = sh(["clang++", "-std=c++14", "-w", "-E", "-P"] + macros + inc + [os.path.join(e, name + ".cpp")])
    if rc:
        return m.fail("does-not-preprocess", desc + ": " + err[:800])
    body = pre[pre.rindex("struct Params"):]
    structs = set(re.findall(r"struct (\w+)\s*:\s*public", body))
    m.check(structs <= {x[0] for x in lst}, "listing-incomplete", "%s: the listing has nothing of %s" % (desc, structs - {x[0] for x in lst}))
    use = [(s, n, v) for s, t, n, v, f, x in lst if s in structs]
    lib = {}
    for s, n, t, v in compiled_params(pre):
        lib.setdefault(s, set()).add(n)
    for s in structs:
        have = {n for q, n, v in use if q == s}
        m.check(lib.get(s, set()) <= have, "listing-incomplete", "%s: %s: listed %s, the library has %s" % (desc, s, have, lib.get(s)))
    dim_in, dim_out = o.dim_in or 1, o.dim_out or 1
    prog = instrument(src, dim_out, use)
    if prog is None:
        raise SystemExit(3)
    exe = os.path.join(d, "prog")
    open(os.path.join(d, "prog.cpp"), "w").write(prog)
    # the program as it was generated, with nothing filled in, is complete too
    rc = 0
    if rnd.random() < 0.3:
        rc, out, err = sh(["clang++", "-std=c++14", "-w", "-fsyntax-only"] + macros + inc + [os.path.join(e, name + ".cpp")])
        m.ev("compiled as generated")
    if not m.check(rc == 0, "does-not-compile", desc + ": " + "\n".join(x for x in err.splitlines() if "error" in x)[:800]):
        return
    rc, out, err = sh(["clang++"] + SAN + macros + inc + ["prog.cpp", "-o", exe, "-pthread", "-lboost_filesystem", "-lboost_system"] + (["-lnlopt_cxx", "-lnlopt"] if "-DUSE_NLOPT" in macros else []), cwd=d)
    if not m.check(rc == 0, "does-not-compile", desc + ": " + "\n".join(x for x in err.splitlines() if "error" in x)[:800]):
        return
    m.ev("programs compiled")
    rd = os.path.join(d, "run")
    os.mkdir(rd)
    rc, out, err = sh([exe], cwd=rd, env=dict(os.environ, OMP_NUM_THREADS="1"))
    if rc:
        return m.fail("program-fails", "%s: rc %s: %s" % (desc, rc, err[-1500:]))
    xs, par = [], {}
    for line in open(os.path.join(rd, "probe.log")):
        w = line.split()
        if w[0] == "x":
            xs.append([float(v) for v in w[1:]])
        else:
            par[w[1]] = float(w[2])
            m.check(w[2] == w[3], "listed-value", "%s: %s is %s, listed as %s" % (desc, w[1], w[2], w[3]))
            m.ev("listed values of an experiment")
    m.ev("programs run")
    m.ev("evaluations", len(xs))

    def want(k, v):
        m.check(k in par and (par[k] == v or abs(par[k] - v) < 1e-9 * abs(v)), "option", "%s: %s is %s" % (desc, k, par.get(k)))
        m.ev("options honoured")
    want("Eval.dim_in", dim_in)
    want("Eval.dim_out", dim_out)
    if o.bayes_opt_boptimizer_noise:
        want("kernel.noise", o.bayes_opt_boptimizer_noise)
    want("bayes_opt_bobase.stats_enabled", 0 if o.bayes_opt_bobase_stats_disabled else 1)
    want("init_randomsampling.samples", o.init_randomsampling_samples or 10)
    want("stop_maxiterations.iterations", o.stop_maxiterations_iterations or 190)
    total = (o.init_randomsampling_samples or 10) + (o.stop_maxiterations_iterations or 190)
    m.check(len(xs) == min(total, LIMIT), "evaluations", "%s: %d evaluations" % (desc, len(xs)))
    m.check(all(len(x) == dim_in and all(0 <= v <= 1 for v in x) for x in xs), "points", "%s: %s" % (desc, xs))
    dirs = [x for x in os.listdir(rd) if os.path.isdir(os.path.join(rd, x))]
    m.check(len(dirs) == (0 if o.bayes_opt_bobase_stats_disabled else 1), "statistics", "%s: directories %s" % (desc, dirs))
    if total < LIMIT:
        m.ev("runs to the end")
        v = [float(x) for x in re.findall(NUM, out)]  # the statistics print before
        v = v[-dim_in - dim_out:]
        obs = [[value(x, i) for i in range(dim_out)] for x in xs]
        best = max(range(len(xs)), key=lambda i: obs[i][0])
        exp = xs[best] + obs[best]
        m.check(len(v) == len(exp) and all(abs(p - q) <= 1e-5 * max(1, abs(q)) for p, q in zip(v, exp)), "printed-best", "%s: printed %r, best %s" % (desc, out, exp))
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


def compiled_params(pre):
    """(struct, name, type, value) of every parameter in a namespace `defaults` of preprocessed text"""
    out = []
    for b in re.finditer(r"namespace defaults\s*\{", pre):
        depth, i, struct = 1, b.end(), None
        for t in re.finditer(r"[{}]|struct\s+(\w+)|static constexpr (?:const )?([\w:]+(?:\s*\*)?)\s+(\w+)\(\) \{ return (.*?); \}", pre[i:]):
            s = t.group(0)
            if s == "{":
                depth += 1
            elif s == "}":
                depth -= 1
                if depth == 0:
                    break
            elif t.group(1):
                struct = t.group(1)
            elif not t.group(3).endswith("_size"):  # BO_PARAM_ARRAY
                out.append((struct, t.group(3), t.group(2), t.group(4)))
    return out


def defaults(m, rnd, a, c):
    limbo, logged = pymon.waf_tools(a.repo)
    d = workspace(a, m, c)
    limbo.write_default_params("defaults.rst")
    lst = listing(open("defaults.rst").read())
    m.ev("listings of the defaults")
    files = sorted({x[4] for x in lst})
    hdr = []
    for root, _, fs in os.walk("src/"):
        for f in fs:
            p = os.path.join(root, f)
            if f.endswith(".hpp") and re.search(r"namespace\s+defaults", open(p, errors="replace").read()):
                hdr.append(p)
    order = hdr[:]
    rnd.shuffle(order)
    code = "".join('#include "%s"\n' % os.path.relpath(os.path.join(d, p), d) for p in order)
    cfgs = [["-DUSE_NLOPT", "-DUSE_LIBCMAES", "-DUSE_SFERES"], ["-DUSE_NLOPT"], []]
    inc = ["-I.", "-Isrc", "-I" + os.path.join(a.repo, "src"), "-I" + os.path.join(a.repo, "src/limbo"), "-I/usr/include/eigen3"] + SHIM
    full = {}
    cfg = cfgs[(c + a.seed) % 3]
    if not cfg:  # the sparse pseudo-input GP needs NLopt
        code = "".join(x + "\n" for x in code.splitlines() if "spgp" not in x)
    open("all.cpp", "w").write(code)
    rc, pre, err = sh(["clang++", "-std=c++14", "-w", "-E", "-P"] + cfg + inc + ["all.cpp"])
    if rc:
        sys.stderr.write(err[:1000])
        raise SystemExit(3)
    for s, n, t, v in compiled_params(pre):
        full[(s, n)] = (t, v)
    named = {}
    for s, t, n, v, f, x in lst:
        if not m.check((s, n) not in named, "listed-twice", "%s::%s" % (s, n)):
            continue
        named[(s, n)] = (t, v, f)
        m.check(os.path.isfile(f) and re.search(r"struct\s+%s\b" % s, open(f).read()), "listed-file", "%s::%s is not defined in %s" % (s, n, f))
        m.check("object at 0x" not in x, "listed-condition", "%s::%s: %s" % (s, n, x))
    for k in full:
        m.check(k in named, "default-not-listed", "%s::%s" % k)
    both = [k for k in named if k in full]
    m.check(len(cfg) < 3 or not set(named) - set(full), "listed-nowhere", str(set(named) - set(full)))
    prog = code + "#include <cstdio>\nnamespace limbo { namespace defaults {} namespace experimental { namespace defaults {} } }\nnamespace D { using namespace limbo::defaults; using namespace limbo::experimental::defaults; }\nint main() {\n"
    for s, n in both:
        t, v, f = named[(s, n)]
        prog += 'std::printf("%s %s %%d %%.17g\\n", int(D::%s::%s() == decltype(D::%s::%s())(%s)), double(D::%s::%s()));\n' % (s, n, s, n, s, n, v, s, n)
    prog += "}\n"
    open("all.cpp", "w").write(prog)
    rc, out, err = sh(["clang++", "-std=c++14", "-w", "-O0"] + cfg + inc + ["all.cpp", "-o", "all", "-pthread", "-lboost_filesystem", "-lboost_system"] + (["-lnlopt_cxx", "-lnlopt"] if cfg else []))
    if not m.check(rc == 0, "listing-not-code", "the listed values do not compile: " + "\n".join(x for x in err.splitlines() if "error" in x)[:900]):
        return
    rc, out, err = sh(["./all"])
    n = 0
    for line in out.splitlines():
        w = line.split()
        m.check(w[2] == "1", "listed-default", "%s::%s is %s, listed as %s" % (w[0], w[1], w[3], named[(w[0], w[1])][1]))
        n += 1
    m.ev("listed defaults", n)
    m.state(sorted(named), cfg, order)
    m.sample("%d defaults listed, %d compiled with %s" % (len(named), len(full), cfg))
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


def variants(m, rnd, a, c):
    limbo, logged = pymon.waf_tools(a.repo)
    for _ in range(200):
        words = ["PAREGO", "EHVI", "MOP2", "ZDT2", "DIM2", "DIM6", "NOISE", "K1", "Mixed"]
        vs = []
        while len(vs) < rnd.randint(1, 5):
            v = " ".join(rnd.sample(words, rnd.randint(1, 4)))
            if v not in vs:
                vs.append(v)
        srcs = [rnd.choice(["multi", "a_b", "x2"]) + ".cpp"] + rnd.sample(["dep.cpp", "impl.cpp", "third.cpp"], rnd.randint(0, 2))
        tgt = rnd.choice([None, "named", "t_1"])
        b = Bld()
        kw = {"cxxflags": ["-O1"]} if rnd.random() < 0.5 else {}
        if tgt:
            kw["target"] = tgt
        limbo.create_variants(b, source=" ".join(srcs), uselib_local="limbo", uselib="BOOST EIGEN", variants=vs, **kw)
        got = [(k["target"], list(k["defines"]), k["source"] if isinstance(k["source"], str) else " ".join(k["source"]), k["uselib"], k["use"], k.get("cxxflags")) for k in b.calls]
        base = tgt or srcs[0][:-4]
        exp = [(base + "_" + "_".join(x.lower() for x in v.split(" ")), v.split(" "), " ".join(srcs), "BOOST EIGEN", "limbo", kw.get("cxxflags", "")) for v in vs]
        m.check(sorted(got, key=str) == sorted(exp, key=str), "variants", "asked for %s of %s: built %s" % (vs, srcs, got))
        m.ev("variants", len(vs))
        m.state(vs, srcs, tgt)
    m.sample("variants %s" % vs)


def one(m, rnd, a, c):
    {"create": create, "listing": defaults, "variants": variants}[a.mode](m, rnd, a, c)


if __name__ == "__main__":
    pymon.main(one)
