"""pymon.py : the Python side of mon.hpp, for drivers that watch the Python part of limbo (waf_tools).

The modules are imported from the tree under test; waf itself is replaced by recording stand-ins."""
import argparse, hashlib, importlib, io, json, os, random, sys, types

sys.dont_write_bytecode = True


class Mon:
    def __init__(self, a):
        self.a, self.n, self.events, self.distinct, self.samples, self.viol = a, 0, {}, set(), [], []
        self.case = -1

    def ev(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def state(self, *x):
        self.distinct.add(hashlib.md5(repr(x).encode()).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s[:400])

    def fail(self, key, msg):
        if len(self.viol) < 60:
            self.viol.append({"key": key, "msg": msg[:1500], "case": self.case})
            sys.stderr.write("MON-VIOLATION " + json.dumps(self.viol[-1]) + "\n")

    def check(self, ok, key, msg=""):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return ok

    def write(self):
        tmp = self.a.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump({"seed": self.a.seed, "mode": self.a.mode, "evaluations": self.n, "nviol": len(self.viol),
                       "events": self.events, "distinct": sorted(self.distinct), "samples": self.samples,
                       "violations": self.viol, "done": True}, f)
        os.rename(tmp, self.a.out)


def main(one):
    p = argparse.ArgumentParser()
    for o in ("repo", "mode", "out", "scratch", "tier"):
        p.add_argument("--" + o, default="")
    for o, d in (("seed", 1), ("cases", 1), ("only", -1)):
        p.add_argument("--" + o, type=int, default=d)
    a = p.parse_args()
    m = Mon(a)
    for c in range(a.cases):
        if a.only >= 0 and c != a.only:
            continue
        m.case = c
        with open(a.out + ".case", "w") as f:
            f.write("%d\n" % c)
        one(m, random.Random(a.seed * 1000003 + c), a, c)
        m.n += 1
    m.write()


def waf_tools(repo):
    """the modules of waf_tools, with stand-ins for waf; what they log is kept"""
    logged = []
    w, L = types.ModuleType("waflib"), types.ModuleType("waflib.Logs")
    L.pprint = lambda colour, s, *x: logged.append((colour, s))
    L.warn = L.error = L.info = lambda s, *x: logged.append(("", s))
    w.Logs = L
    t, u = types.ModuleType("waflib.Tools"), types.ModuleType("waflib.Tools.waf_unit_test")
    u.summary = lambda bld: None
    t.waf_unit_test, w.Tools = u, t
    sys.modules.update({"waflib": w, "waflib.Logs": L, "waflib.Tools": t, "waflib.Tools.waf_unit_test": u})
    try:
        import simplejson
    except ImportError:
        sys.modules["simplejson"] = json
    d = os.path.join(repo, "waf_tools")
    if d not in sys.path:
        sys.path.insert(0, d)
    import warnings
    warnings.simplefilter("ignore")
    return importlib.import_module("limbo"), logged
