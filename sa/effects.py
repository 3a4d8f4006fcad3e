"""Which fields of *this* a method may write (directly or through its callees)."""
from model import norm

READ_ONLY = {"begin", "end", "cbegin", "cend", "data", "size", "empty", "get", "c_str", "front", "back", "at",
             "operator[]", "operator*", "operator->", "find", "operator bool", "load", "length", "fileno",
             "owns_lock", "count", "capacity", "operator!="}


def call_reads_only(i):
    return bool(i.get("const")) or (i.get("sn") in READ_ONLY and not i.get("f"))


class Effects:
    def __init__(self, model):
        self.m = model
        self.memo = {}

    def paths(self, f):
        """element -> top-level field name of *this* it denotes (or '' for *this)"""
        out = {}
        for i in f.instrs():
            e = i.get("e#")
            k = i["k"]

            def ref(n):
                if isinstance(n, dict):
                    if len(n) == 1 and "r" in n:
                        return out.get(n["r"])
                    if n.get("k") == "this":
                        return ""
                return None
            r = None
            if k == "this":
                r = ""
            elif k == "m":
                b = ref(i.get("b"))
                if b == "":
                    r = i["fn"]
                elif b:
                    r = b
            elif k in ("u",) and i.get("op") == "*":
                r = ref(i.get("e"))
            elif k in ("u",) and i.get("op") == "&":
                r = ref(i.get("e"))
            elif k == "cast" or k == "ld":
                r = ref(i.get("e"))
            elif k == "ix":
                r = ref(i.get("b") or i.get("l"))
            elif k == "call" and (i.get("gl") or i.get("sn") in ("operator->", "get", "data", "begin", "end", "fileno")):
                o = ref(i.get("obj"))
                if o:
                    r = o
            if e is not None and r is not None:
                out[e] = r
        return out

    def writes(self, f, _seen=None):
        if f.id in self.memo:
            return self.memo[f.id]
        seen = _seen or set()
        if f.id in seen:
            return frozenset()
        seen = seen | {f.id}
        p = self.paths(f)
        out = set()

        def ref(n):
            if isinstance(n, dict) and len(n) == 1 and "r" in n:
                return p.get(n["r"])
            if isinstance(n, dict) and n.get("k") == "this":
                return ""
            return None

        for i in f.instrs():
            k = i["k"]
            if k == "asg":
                t = ref(i["l"])
                if t:
                    out.add(t)
            elif k == "u" and i["op"] in ("++", "--"):
                t = ref(i["e"])
                if t:
                    out.add(t)
            elif k == "minit":
                if i.get("fn"):
                    out.add(i["fn"])
            elif k in ("call", "ctor"):
                o = ref(i.get("obj"))
                callee = self.m.funcs.get(i.get("f")) if i.get("f") else None
                if o == "" and callee is not None and callee.cls:
                    out |= self.writes(callee, seen)
                elif o and not call_reads_only(i):
                    out.add(o)
                pt = i.get("pt") or []
                for n, a in enumerate(i.get("a", [])):
                    t = ref(a)
                    if t and n < len(pt):
                        ty = pt[n]
                        if (ty.endswith("&") or ty.endswith("*")) and not ty.startswith("const "):
                            out.add(t)
        if _seen is None:
            self.memo[f.id] = frozenset(out)
        return frozenset(out)

    def reads(self, f):
        p = self.paths(f)
        return {v for v in p.values() if v}


def reaches(model, pred, f, memo=None, seen=None):
    """does f (transitively, by resolved calls) call something satisfying pred(name, instr)?"""
    memo = {} if memo is None else memo
    if f.id in memo:
        return memo[f.id]
    memo[f.id] = False
    for i in f.instrs():
        if i["k"] in ("call", "ctor"):
            if pred(norm(i.get("n") or ""), i):
                memo[f.id] = True
                return True
            g = model.funcs.get(i.get("f")) if i.get("f") else None
            if g is not None and reaches(model, pred, g, memo):
                memo[f.id] = True
                return True
        if i["k"] == "lam":
            g = model.funcs.get(i.get("f"))
            if g is not None and reaches(model, pred, g, memo):
                memo[f.id] = True
                return True
    return memo[f.id]


class Closure:
    """which functions a function may (transitively) run: resolved calls, overriders of virtual calls, lambdas it creates"""
    _cache = {}

    @classmethod
    def of(cls, m):
        if id(m) not in cls._cache:
            cls._cache = {id(m): cls(m)}
        return cls._cache[id(m)]

    def __init__(self, m):
        self.m = m
        self.direct = {}
        for f in m.funcs.values():
            out = set()
            for i in f.instrs():
                if i["k"] in ("call", "ctor", "dtor", "mdtor", "bdtor", "delete", "new"):
                    fid = i.get("f")
                    if fid:
                        out.add(fid)
                        if i.get("virt"):
                            out |= {g.id for g in m.overriders.get(fid, [])}
                if i["k"] == "lam":
                    out.add(i["f"])
                if i["k"] in ("fn", "mfn") and i.get("f"):
                    out.add(i["f"])
            self.direct[f.id] = out

    def reach(self, fid):
        seen, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.direct.get(x, ())
        return seen

    def reaching(self, targets):
        """functions from which one of the target functions is reachable (targets included)"""
        rev = {}
        for f, ds in self.direct.items():
            for d in ds:
                rev.setdefault(d, set()).add(f)
        seen, todo = set(), list(targets)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += rev.get(x, ())
        return seen


class MustCall:
    """does every path of a function from entry to a normal return run one of the target functions?"""

    def __init__(self, m, target):
        self.m, self.target, self.memo = m, target, {}

    @staticmethod
    def normal(blk):
        """successors reached without an exception"""
        if blk.get("noret") or any(i["k"] == "throw" for i in blk["i"]):
            return []
        s = [x for x in blk["s"] if x is not None]
        t = blk.get("t")
        if t is None or t["k"] in ("GotoStmt", "BreakStmt", "ContinueStmt", "CXXTryStmt"):
            return s[:1]
        return s

    def event(self, i):
        if i["k"] not in ("call", "ctor"):
            return False
        g = self.m.funcs.get(i.get("f")) if i.get("f") else None
        return g is not None and (self.target(g) or self.always(g))

    def always(self, f):
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = False
        if not f.blocks or not any(self.event(i) for i in f.instrs()):
            return False
        seen, todo = set(), [f.entry]
        ok = True
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            blk = f.blocks[b]
            if any(self.event(i) for i in blk["i"]):
                continue
            if b == f.exit:
                ok = False
                break
            todo += self.normal(blk)
        self.memo[f.id] = ok and bool(f.blocks)
        return self.memo[f.id]
