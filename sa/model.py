"""Program model: runs the extractor over every translation unit the real build
compiles and merges the result into one resolved program."""
import concurrent.futures as cf
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), ".build")


class AnalysisError(Exception):
    """The check cannot give an answer (vanished anchor, parse failure...)."""


class Func:
    __slots__ = ("id", "n", "sn", "file", "line", "eline", "ret", "params", "cls",
                 "lambda_", "in_", "static", "ctor", "dtor", "virtual", "over",
                 "blocks", "entry", "exit", "trys", "tu", "nothrow", "elems",
                 "live", "log_rr", "ctor_target", "vars_reach", "nocfg",
                 "access", "backedge", "try_of", "cond_l", "defaulted", "preds",
                 "reach_heads", "loop_heads", "olive")

    def __repr__(self):
        return "<%s %s:%d>" % (self.n, self.file, self.line)

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.line)

    def instrs(self):
        for b in self.blocks.values():
            for i in b["i"]:
                yield i


def refs_of(node, out):
    """element references appearing in a node (not descending into elements)"""
    if isinstance(node, dict):
        if "r" in node and len(node) == 1:
            out.append(node["r"])
            return
        for k, v in node.items():
            if isinstance(v, (dict, list)):
                refs_of(v, out)
    elif isinstance(node, list):
        for v in node:
            refs_of(v, out)


class Model:
    def __init__(self):
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.by_name = {}
        self.overriders = {}

    # -- lookup helpers -------------------------------------------------
    def named(self, qual):
        """functions whose qualified name is `qual` (template args ignored)"""
        return self.by_name.get(norm(qual), [])

    def one(self, qual, nparams=None):
        fs = self.named(qual)
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        if not fs:
            raise AnalysisError("anchor function %s not found" % qual)
        return fs[0]

    def record(self, name):
        for r in self.records.values():
            if r["n"] == name or r["qn"] == name:
                return r
        raise AnalysisError("anchor record %s not found" % name)

    def enum(self, name):
        for e in self.enums.values():
            if e["n"] == name:
                return e
        raise AnalysisError("anchor enum %s not found" % name)

    def enum_map(self, name):
        return {x["n"]: int(x["v"]) for x in self.enum(name)["e"]}

    def const(self, name):
        for g in self.globals.values():
            if g["n"] == name and "cv" in g:
                return int(g["cv"])
        raise AnalysisError("constant %s not found" % name)

    def lambdas_in(self, f):
        return [g for g in self.funcs.values() if g.lambda_ and g.in_ == f.id]

    def bases(self, cls):
        memo = self.__dict__.setdefault("_bases", {})
        if cls not in memo:
            memo[cls] = self._all_bases(cls)
        return memo[cls]

    def _all_bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for r in self.records.values():
                if r["n"] == c:
                    for b in r["bases"]:
                        if b not in out:
                            out.append(b)
                            todo.append(b)
        return out

    def derived(self, cls):
        return [r["n"] for r in self.records.values() if cls in self.bases(r["n"])]


_targs = re.compile(r"<[^<>]*>")


def norm(n):
    """drop template arguments from a qualified name"""
    if "operator" in n:
        head, sep, op = n.rpartition("operator")
        return norm(head) + "operator" + op if "<" in head else n
    while True:
        m = _targs.sub("", n)
        if m == n:
            return n
        n = m


def build_flags():
    """(source, flags) for everything the real build compiles, from make -n -B"""
    p = subprocess.run(["make", "-n", "-B", "CC=gcc", "CXX=g++", "lib", "all"],
                       cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise AnalysisError("make -n failed: " + p.stderr[-400:])
    units = {}
    for line in p.stdout.splitlines():
        try:
            w = shlex.split(line)
        except ValueError:
            continue
        if len(w) < 3 or w[0] not in ("g++", "gcc") or "-c" not in w:
            continue
        src = [x for x in w[1:] if x.endswith((".cpp", ".cc", ".c"))]
        flags = [x for x in w[1:] if x.startswith(("-I", "-D", "-U", "-std="))]
        for s in src:
            units[s] = flags
    if not units:
        raise AnalysisError("no compile commands found")
    return units


def _run_unit(args):
    yx, src, flags, out = args
    cmd = [yx, REPO, out, os.path.join(REPO, src), "--"] + flags + [
        "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-ferror-limit=5"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=REPO)
    if p.returncode != 0 or not os.path.exists(out):
        return src, None, p.stderr[-1500:]
    with open(out) as f:
        return src, json.load(f), None


def load(units=None):
    yx = os.path.join(BUILD, "yx")
    subprocess.run([os.path.join(os.path.dirname(HERE), "tool", "build.sh"), yx], check=True)
    flags = build_flags()
    if units is not None:
        flags = {k: v for k, v in flags.items() if k in units}
    tmp = tempfile.mkdtemp(prefix="yx.")
    try:
        jobs = [(yx, s, fl, os.path.join(tmp, "%d.json" % i))
                for i, (s, fl) in enumerate(sorted(flags.items()))]
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(os.path.join(REPO, j[1])))
        with cf.ThreadPoolExecutor(8) as ex:
            res = sorted(ex.map(_run_unit, jobs), key=lambda r: r[0])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = Model()
    for tu, (src, d, err) in enumerate(res):
        if d is None:
            raise AnalysisError("cannot parse %s: %s" % (src, err))
        m.units.append(src)
        for f in d["functions"]:
            if f["id"] in m.funcs and not m.funcs[f["id"]].nocfg:
                continue
            m.funcs[f["id"]] = mk(f, tu)
        for r in d["records"]:
            m.records.setdefault(r["n"] + "|" + r["file"], r)
        for e in d["enums"]:
            m.enums.setdefault(e["n"] + "|" + e["file"], e)
        for g in d["globals"]:
            k = g["n"] + "|" + g["file"]
            if k not in m.globals or ("init" in g and "init" not in m.globals[k]):
                m.globals[k] = g
    for f in m.funcs.values():
        m.by_name.setdefault(norm(f.n), []).append(f)
        for o in f.over:
            m.overriders.setdefault(o, []).append(f)
    # transitive overriders
    for k in list(m.overriders):
        todo = list(m.overriders[k])
        seen = []
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            todo += m.overriders.get(x.id, [])
        m.overriders[k] = seen
    return m


def mk(j, tu):
    f = Func()
    f.id, f.n, f.sn = j["id"], j["n"], j["sn"]
    f.file, f.line, f.eline = j["file"], j["line"], j["eline"]
    f.ret = j["ret"]
    f.params = [((tu, p["id"]), p["n"], p["t"]) for p in j["params"]]
    f.cls = j.get("cls")
    f.lambda_ = j.get("lambda", False)
    f.in_ = j.get("in")
    f.static = j.get("static", False)
    f.ctor, f.dtor = j.get("ctor", False), j.get("dtor", False)
    f.virtual = j.get("virtual", False)
    f.over = j.get("over", [])
    f.nothrow = j.get("nothrow", False)
    f.nocfg = j.get("nocfg", False)
    f.access = j.get("access", 0)
    f.defaulted = j.get("defaulted", False)
    f.tu = tu
    f.blocks = {}
    f.entry, f.exit = j.get("entry"), j.get("exit")
    f.trys = j.get("try", [])
    f.elems = {}
    f.log_rr = {}
    f.cond_l = {}
    f.ctor_target = {}
    for b in j.get("blocks", []):
        f.blocks[b["id"]] = b
        for i in b["i"]:
            if "e#" in i:
                f.elems.setdefault(i["e#"], i)
    prep(f)
    return f


def prep(f):
    # which elements construct directly into a named place
    def target(ref, tgt):
        while isinstance(ref, dict):
            if "r" in ref and len(ref) == 1:
                e = f.elems.get(ref["r"])
                if e is None:
                    return
                if e["k"] == "ctor":
                    f.ctor_target[ref["r"]] = tgt
                    if e.get("elide") and len(e["a"]) == 1:
                        ref = e["a"][0]
                        continue
                return
            return
    for i in f.instrs():
        if i["k"] == "decl" and not i.get("isref") and "init" in i:
            target(i["init"], ("var", i["id"]))
        elif i["k"] == "minit" and "e" in i and not i.get("isref"):
            if "fn" in i:
                target(i["e"], ("fld", i["fn"], i.get("cls")))
            else:
                target(i["e"], ("base",))
        elif i["k"] == "log":
            l, r = i["l"], i["rr"]
            if isinstance(l, dict) and "r" in l:
                f.log_rr.setdefault(l["r"], []).append((i["e#"], r.get("r") if isinstance(r, dict) else None))
    # element liveness (block granularity)
    use, df = {}, {}
    for bid, b in f.blocks.items():
        u, d = set(), set()
        for i in b["i"]:
            out = []
            refs_of({k: v for k, v in i.items() if k not in ("e#",)}, out)
            for r in out:
                if r not in d:
                    u.add(r)
            if "e#" in i:
                d.add(i["e#"])
        if "t" in b:
            out = []
            refs_of(b["t"], out)
            for r in out:
                if r not in d:
                    u.add(r)
        use[bid], df[bid] = u, d
    live = {bid: set(use[bid]) for bid in f.blocks}
    preds = f.preds = {bid: [] for bid in f.blocks}
    for bid, b in f.blocks.items():
        for s in b["s"]:
            if s is not None:
                preds[s].append(bid)
    work = list(f.blocks)
    while work:
        bid = work.pop()
        for p in preds[bid]:
            new = live[bid] - df[p]
            if not new <= live[p]:
                live[p] |= new
                work.append(p)
    f.live = live
    # liveness of remembered branch outcomes: set by a terminator, used by the && || ?: it belongs to
    ouse, odef = {bid: set() for bid in f.blocks}, {bid: set() for bid in f.blocks}
    for bid, b in f.blocks.items():
        for i in b["i"]:
            if i["k"] in ("log", "cond"):
                n = i.get("l") if i["k"] == "log" else i.get("c")
                if isinstance(n, dict) and "r" in n:
                    ouse[bid].add(n["r"])
        t = b.get("t")
        if t and isinstance(t.get("c"), dict) and "r" in t["c"]:
            odef[bid].add(t["c"]["r"])
    olive = {bid: set(ouse[bid]) for bid in f.blocks}
    work = list(f.blocks)
    while work:
        bid = work.pop()
        for p in f.preds[bid] if hasattr(f, "preds") and f.preds else []:
            new = (olive[bid] - odef[p])
            if not new <= olive[p]:
                olive[p] |= new
                work.append(p)
    f.olive = olive
    # variables mentioned in blocks reachable from a block
    ment = {}
    for bid, b in f.blocks.items():
        s = set()
        vars_of(b["i"], s)
        if "t" in b:
            vars_of(b["t"], s)
        ment[bid] = s
    reach = {bid: set(ment[bid]) for bid in f.blocks}
    work = list(f.blocks)
    while work:
        bid = work.pop()
        for p in preds[bid]:
            if not reach[bid] <= reach[p]:
                reach[p] |= reach[bid]
                work.append(p)
    f.vars_reach = reach
    # loop heads: targets of DFS back edges
    heads = set()
    color = {}
    if f.blocks:
        stack = [(f.entry, iter([s for s in f.blocks[f.entry]["s"] if s is not None]))]
        color[f.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter([x for x in f.blocks[s]["s"] if x is not None])))
                    break
            else:
                color[b] = 2
                stack.pop()
    f.loop_heads = heads
    # innermost try of each element: smallest enclosing try range
    f.try_of = {}
    for t in sorted(f.trys, key=lambda t: -len(t.get("in", []))):
        for e in t.get("in", []):
            f.try_of[e] = t["b"]


def vars_of(x, out):
    if isinstance(x, dict):
        if x.get("k") in ("v", "decl", "dtor") and "id" in x:
            out.add(x["id"])
        if x.get("k") == "lam":
            for c in x["caps"]:
                if "id" in c:
                    out.add(c["id"])
        for v in x.values():
            if isinstance(v, (dict, list)):
                vars_of(v, out)
    elif isinstance(x, list):
        for v in x:
            vars_of(v, out)


if __name__ == "__main__":
    import time
    t = time.time()
    m = load()
    print("%d units, %d functions, %d records, %d enums, %d globals in %.1fs" % (
        len(m.units), len(m.funcs), len(m.records), len(m.enums), len(m.globals), time.time() - t))
    if len(sys.argv) > 1:
        for f in m.funcs.values():
            if re.search(sys.argv[1], f.n):
                print(f, f.id)
                for bid in sorted(f.blocks, reverse=True):
                    b = f.blocks[bid]
                    print(" B%d -> %s %s" % (bid, b["s"], {k: v for k, v in b.items() if k not in ("i", "s", "id", "t")}))
                    for i in b["i"]:
                        print("    ", {k: v for k, v in i.items() if k not in ("t", "ln", "f")})
                    if "t" in b:
                        print("   T:", b["t"])
