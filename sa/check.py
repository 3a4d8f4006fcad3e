#!/usr/bin/env python3
"""Driver: decide one property from /repo's current source.

usage: check.py PROPERTY     (VERIF_TIER, VERIF_SEED, VERIF_REPO from the environment)
exit 0: every obligation discharged; exit 1: VIOLATION line(s); exit 3: no answer.
"""
import importlib
import json
import os
import pkgutil
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import model as M  # noqa: E402
from model import AnalysisError  # noqa: E402

REGISTRY = {}


def prop(pid, rule, floor=1):
    def deco(fn):
        REGISTRY.setdefault(pid, []).append((rule, fn, floor))
        return fn
    return deco


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []
        self.counts = {}
        self.instances = []
        self.rules = []
        self.assume = []
        self.analysed = set()
        self._m = None
        self.rule = None
        self.thorough = tier == "thorough"

    @property
    def m(self):
        if self._m is None:
            self._m = M.load()
        return self._m

    def report(self, where, msg, func="", key=None, path=None, stack=None):
        k = "%s:%s:%s" % (self.rule, func, key or re.sub(r"[\w/.]+:\d+", "", msg))
        for v in self.viol:
            if v["key"] == k:
                return
        self.viol.append({"rule": self.rule, "where": where, "func": func, "msg": msg, "key": k,
                          "path": path or [], "stack": stack or []})

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def instance(self, text, n=1):
        """one rule instance (obligation) that was decided"""
        self.count("instances[%s]" % self.rule, n)
        if len(self.instances) < 400:
            self.instances.append("%s: %s" % (self.rule, text))

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError("%s: %s" % (self.rule, msg))

    def engine(self, eng):
        """account for an engine run and take over its reports"""
        self.count("abstract_states", eng.nstates)
        self.count("branches_decided", eng.nbranch)
        self.count("calls_resolved", eng.ncalls)
        self.count("exits_checked", eng.nexits)
        self.count("facts_dropped_at_joins", eng.dropped)
        self.analysed |= {eng.m.funcs[f].n for f in eng.funcs_seen if f in eng.m.funcs}
        for v in eng.viol:
            self.report(v["where"], v["msg"], v["func"], v["key"] if isinstance(v["key"], str) else v["msg"],
                        v["path"], v["stack"])

    def merge(self, d):
        """results of a forked sub-analysis"""
        for k, n in d["counts"].items():
            self.count(k, n)
        self.instances += d["instances"][:max(0, 400 - len(self.instances))]
        self.analysed |= d["analysed"]
        for v in d["viol"]:
            if not any(w["key"] == v["key"] for w in self.viol):
                self.viol.append(v)
        if d.get("error"):
            raise AnalysisError(d["error"])

    def parallel(self, fn, items):
        """fn(ctx, item) over items in forked workers sharing the loaded model"""
        import concurrent.futures as cf
        import multiprocessing as mp
        self.m
        global _PAR
        _PAR = (self, fn)
        items = list(items)
        if len(items) <= 1 or os.environ.get("VERIF_SERIAL"):
            for x in items:
                fn(self, x)
            return
        with cf.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 2), mp_context=mp.get_context("fork")) as ex:
            for d in ex.map(_par, items):
                self.merge(d)


_PAR = None


def _par(item):
    base, fn = _PAR
    c = Ctx(base.pid, base.tier)
    c._m, c.rule = base._m, base.rule
    err = None
    try:
        fn(c, item)
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    return {"counts": c.counts, "instances": c.instances, "analysed": c.analysed, "viol": c.viol, "error": err}


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    """several properties on one command line share the extracted program (self-tests)"""
    shared = None
    worst = 0
    for pid in sys.argv[1:]:
        rc, shared = decide(pid, shared)
        if len(sys.argv) > 2:
            print("EXIT %s %d" % (pid, rc))
        worst = max(worst, rc)
    return worst


def decide(pid, shared=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import check as self_mod  # the registry lives in the importable module
    import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module("rules." + m.name)
    reg = self_mod.REGISTRY
    if pid not in reg:
        print("unknown property", pid)
        return 3, shared
    subprocess.run([os.path.join(ROOT, "tool", "build.sh")], check=True, stdout=subprocess.DEVNULL)
    ctx = self_mod.Ctx(pid, tier)
    ctx._m = shared
    err = None
    only = os.environ.get("VERIF_RULE")
    for rule, fn, floor in reg[pid]:
        if only and not re.search(only, rule):
            continue
        ctx.rule = rule
        t1 = time.time()
        ctx.rules.append({"rule": rule, "what": " ".join((fn.__doc__ or "").split())})
        try:
            fn(ctx)
            n = ctx.counts.get("instances[%s]" % rule, 0)
            if n < floor and not any(v["rule"] == rule for v in ctx.viol):
                raise AnalysisError("%s: only %d instances analysed (expected at least %d)" % (rule, n, floor))
        except AnalysisError as e:
            err = (err + "; " if err else "") + str(e)
        except Exception:
            err = (err + "; " if err else "") + traceback.format_exc()
        if os.environ.get("VERIF_TIME"):
            print("  %-40s %6.1fs" % (rule, time.time() - t1))
    known = known_findings(pid)
    new, old = [], []
    for v in ctx.viol:
        k = [d for key, d in known if key == v["key"]]
        if k:
            old.append((v, k[0]))
        else:
            new.append(v)
    m = ctx.m
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static decision on the resolved program of %s: " % M.REPO + " | ".join(
                "%s: %s" % (r["rule"], r["what"]) for r in ctx.rules),
            "translation_units": len(m.units), "functions_in_program": len(m.funcs),
            "functions_followed": len(ctx.analysed),
            "counts": ctx.counts, "instances": ctx.instances[:400],
            "functions": sorted(ctx.analysed)[:300],
            "violations": new, "known_findings": [d for _, d in old], "error": err,
        },
        "assumptions": ["clang 18 front end resolves the program as gcc 13 does", "C and C++ library calls behave as documented",
                        "calls the rules name as events are decided by the rules that own them"] + ctx.assume,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    evp = os.path.join(evd, pid + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s [%s] %d instances, %d functions followed, %d abstract states, %.1fs" % (
        pid, tier, sum(n for k, n in ctx.counts.items() if k.startswith("instances[")), len(ctx.analysed),
        ctx.counts.get("abstract_states", 0), time.time() - t0))
    for v, d in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if new:
        rp = os.path.join(evd, pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print("%s: [%s] %s in %s" % (v["where"], v["rule"], v["msg"], v["func"]))
            for p in v["path"][-14:]:
                print("      " + p)
            if os.environ.get("VERIF_KEYS"):
                print("      key=" + v["key"])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, ROOT)))
        return 1, m
    if err:
        print("ANALYSIS-ERROR property=%s %s" % (pid, err))
        return 3, m
    return 0, m


if __name__ == "__main__":
    sys.exit(main())
