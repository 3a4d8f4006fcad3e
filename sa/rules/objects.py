"""What an object holds: heap buffer, temporary file, length, flags, unique id, age."""
from check import prop
from affine import *
from engine import *
from model import AnalysisError, norm

OBJ = "yrmcds::memcache::object"
DYN = "cybozu::dynbuf"
TMP = "yrmcds::tempfile"
TH = ("O", "this")
FILE0 = ("O", "file0")
OLD, ARG = "OLD", "ARG"


def fields(m):
    """the members by role: found through their types and the accessors"""
    r = {}
    for f in m.record(OBJ)["fields"]:
        t = norm(f["t"]).replace("class ", "")
        if t == DYN or t.endswith("dynbuf"):
            r["data"] = f["n"]
        elif "unique_ptr" in t and "tempfile" in t or t == "std::unique_ptr" and "tempfile" in f["t"]:
            r["file"] = f["n"]
        elif f["t"].replace("const ", "") in ("std::size_t", "size_t", "unsigned long") and f["n"] not in r.values():
            r.setdefault("sizes", []).append(f["n"])
    for role, acc in (("flags", "flags"), ("cas", "cas_unique"), ("exptime", "exptime"), ("age", "age")):
        g = m.one(OBJ + "::" + acc)
        ns = [x["fn"] for x in walk_members(g)]
        if not ns:
            raise AnalysisError("object::%s reads no member" % acc)
        r[role] = ns[0]
    sz = [x for x in r.pop("sizes", []) if x not in (r["flags"], r["cas"])]
    if len(sz) == 1:
        r["length"] = sz[0]
    if "data" not in r or "file" not in r:
        raise AnalysisError("the members of object were not recognised")
    return r


def walk_members(f):
    def rec(n):
        if isinstance(n, dict):
            if n.get("k") == "m" and "fn" in n:
                yield n
            for v in n.values():
                yield from rec(v)
        elif isinstance(n, list):
            for v in n:
                yield from rec(v)
    for i in f.instrs():
        yield from rec(i)


def loc_of(st, v):
    return v


class Content(Rule):
    """auto: frozenset of (container, content, version) records, content a tuple of segments"""
    width = 2000
    depth = 12

    def __init__(self, m, F, method):
        self.m, self.F, self.method = m, F, method
        self.n = 0
        self.exits = 0

    # ---- containers
    def opaque(self, eng, func, name):
        return func.cls in (DYN, TMP) or (func.cls or "").endswith("statistics")

    def get(self, st, k):
        for x in st.auto:
            if x[0] == k:
                return x
        return (k, ("?",), 0)

    def put(self, st, k, content):
        o = self.get(st, k)
        st.auto = frozenset([x for x in st.auto if x[0] != k] + [(k, content, o[2] + 1 if o[2] < 9 else 9)])

    def note(self, st, *x):
        st.auto = st.auto | {x + ("note",)}

    def fkey(self, eng, st, obj):
        """container of a tempfile object location"""
        return ("file", obj)

    def seg(self, eng, st, p, n, c):
        """the segments that [p, p+n) denotes"""
        p = eng.load(st, p) if isloc(p) else p
        if p == self.P:
            if lin(n) == lin(self.N):
                return (ARG,)
            if isconst(n) and n[1] == 0:
                return ()
            return ("?part",)
        if p[0] == "bytes":
            k = self.get(st, p[1])
            if k[2] != p[2]:
                return ("?stale",)
            if proves_zero(st, lin(n) - self.length(k[1])) or lin(n) == lin(("len", p[1], p[2])):
                return k[1]
            return ("?part",)
        if p[0] == "&" and ("text", p[1]) in [x[0] for x in st.auto if isinstance(x[0], tuple)]:
            t = self.get(st, ("text", p[1]))
            if t[1] and t[1][0][0] == "NUM" and lin(n) == lin(("digits", t[1][0][1])):
                return t[1]
            return ("?part",)
        return ("?",)

    def length(self, content):
        r = Lin()
        for s in content:
            if s == OLD:
                r = r + lin(self.L0)
            elif s == ARG:
                r = r + lin(self.N)
            elif isinstance(s, tuple) and s[0] == "NUM":
                r = r + lin(("digits", s[1]))
            else:
                r = r + Lin({("unklen", s): 1})
        return r

    def norm(self, eng, st, content):
        """drop segments known to be empty"""
        r = []
        for s in content:
            if s == ARG and proves_zero(st, lin(self.N)):
                continue
            if s == OLD and proves_zero(st, lin(self.L0)):
                continue
            if s == OLD or s == ARG:
                t = self.N if s == ARG else self.L0
                f = st.facts.get(t)
                if isinstance(f, tuple) and f[1] <= 0:
                    continue
                if ("empty", s, "note") in st.auto:
                    continue
            r.append(s)
        return tuple(r)

    # ---- events
    def on_branch(self, eng, st, t, out, ln):
        for s, x in ((ARG, self.N), (OLD, self.L0)):
            if x is None:
                continue
            if t == x and not out or t == ("op", "<", ZERO, x) and not out or t == ("op", "==", x, ZERO) and out:
                self.note(st, "empty", s)
        if any_sub(t, lambda x: x[0] == "call" and x[1].endswith("::heap_data_limit") or x[0] == "F" and "heap_data_limit" in x[2]):
            if t[0] == "op" and t[1] == "<":
                self.note(st, "cmp", t[2], t[3], out)
        if t[0] == "op" and t[1] in ("<", "==") and any_sub(t, lambda x: x[0] == "PARSED"):
            self.note(st, "rel", t, out)

    def value(self, eng, st, a):
        return eng.load(st, a) if isloc(a) else a

    def on_new(self, eng, st, h, n):
        self.put(st, h, ())

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        cls = c.func.cls if c.func is not None else c.cls
        if cls == DYN and (c.func is None or c.func.cls == DYN):
            return self.dynbuf(eng, st, c, sn)
        if cls == TMP:
            return self.tmp(eng, st, c, sn)
        if c.name in ("snprintf", "std::snprintf") and len(c.args) >= 4:
            self.n += 1
            fmt = c.args[2]
            v = self.value(eng, st, c.args[3])
            good = fmt[0] == "s" and fmt[1] in ("%llu", "%lu", "%zu") and isconst(c.args[1]) and c.args[1][1] > 20
            seg = (("NUM", v),) if good else ("?text",)
            buf = c.args[0]
            if buf[0] == "&":
                self.put(st, ("text", buf[1]), seg)
            return ("digits", v) if good else ("unk", "snprintf", c.eid)
        if c.name in ("std::to_string",) and c.args:
            v = self.value(eng, st, c.args[0])
            t = ("T", st.top.depth, st.top.f.id, c.eid)
            self.put(st, ("text", t), (("NUM", v),))
            return ("R", ("str", v))
        if c.cls in ("std::basic_string", "std::string") and not c.ctor:
            base = c.obj
            v = eng.load(st, base) if isloc(base) else base
            if v[0] == "R":
                v = v[1]
            if v[0] == "str":
                if sn in ("data", "c_str"):
                    l = ("O", "str", repr(v[1])[:0])
                    l = ("D", v)
                    self.put(st, ("text", l), (("NUM", v[1]),))
                    return ("&", l)
                if sn in ("size", "length"):
                    return ("digits", v[1])
            if v[0] == "oldstr" and sn in ("data", "c_str", "size", "length", "begin", "end"):
                return ("call", sn, None, (v,), 0)
        if c.ctor and c.cls in ("std::basic_string", "std::string"):
            if len(c.args) >= 2:
                s = self.seg(eng, st, c.args[0], self.value(eng, st, c.args[1]), c)
                l = self.ctor_loc(st, c)
                eng.purge(st, l)
                st.store[l] = ("oldstr", s)
                return l
            if len(c.args) == 1 and isloc(c.args[0]):
                l = self.ctor_loc(st, c)
                v = eng.load(st, c.args[0])
                eng.purge(st, l)
                st.store[l] = v[1] if v[0] == "R" else v
                return l
        if c.name in ("std::stoull", "std::stoul", "std::strtoull", "strtoull") and c.args:
            v = self.value(eng, st, c.args[0])
            v = v[1] if v[0] == "R" else v
            if v[0] == "oldstr" and v[1] == (OLD,):
                self.n += 1
                return ("PARSED",)
            return ("unk", "parsed", c.eid)
        if c.name == "std::make_unique":
            h = ("T", "heap", st.top.f.id, c.eid)
            self.put(st, h, ())
            return ("&", h)
        if c.name in ("std::min", "std::max") and len(c.args) == 2:
            return (c.name[5:],) + tuple(self.value(eng, st, a) for a in c.args)
        return None

    def ctor_loc(self, st, c):
        tgt = st.top.f.ctor_target.get(c.eid)
        if tgt is not None and tgt[0] == "var":
            return ("L", st.top.depth, (st.top.f.tu, tgt[1]), c.st.top.f.n)
        return ("T", st.top.depth, st.top.f.id, c.eid)

    def dynbuf(self, eng, st, c, sn):
        if c.ctor:
            tgt = st.top.f.ctor_target.get(c.eid)
            l = ("T", st.top.depth, st.top.f.id, c.eid)
            if tgt is not None:
                l = ("L", st.top.depth, (st.top.f.tu, tgt[1]), eng.var_name(st.top.f, tgt[1])) if tgt[0] == "var" else \
                    ("F", st.top.this, tgt[1]) if tgt[0] == "fld" else l
            eng.purge(st, l)
            if len(c.args) == 1 and isloc(c.args[0]) and c.node.get("copy"):
                self.put(st, l, self.get(st, c.args[0])[1])
                self.put(st, c.args[0], ("?moved",))
            else:
                self.put(st, l, ())
            return l
        o = c.obj
        if not isloc(o):
            o = deref(o) if o is not None else None
        if o is None:
            return None
        self.n += 1
        k = self.get(st, o)
        if sn == "append":
            self.put(st, o, k[1] + self.seg(eng, st, c.args[0], self.value(eng, st, c.args[1]), c))
            return UNIT
        if sn == "reset":
            self.put(st, o, ())
            return UNIT
        if sn == "swap":
            b = self.get(st, c.args[0])
            self.put(st, o, b[1])
            self.put(st, c.args[0], k[1])
            return UNIT
        if sn == "data":
            return ("bytes", o, k[2])
        if sn == "size":
            if isinstance(k[1], tuple) and all(s in (OLD, ARG) or isinstance(s, tuple) for s in k[1]):
                return self.length(k[1]).term()
            return ("len", o, k[2])
        if sn == "empty":
            if isinstance(k[1], tuple) and all(s in (OLD, ARG) or isinstance(s, tuple) for s in k[1]):
                return eng.op("==", self.length(k[1]).term(), ZERO)
            return None
        if sn == "~dynbuf":
            return UNIT
        self.put(st, o, ("?" + sn,))
        return None

    def tmp(self, eng, st, c, sn):
        if c.ctor:
            l = ("T", st.top.depth, st.top.f.id, c.eid)
            eng.purge(st, l)
            self.put(st, l, ())
            return l
        o = c.obj
        if o is None:
            return None
        if not isloc(o):
            o = deref(o)
        self.n += 1
        k = self.get(st, o)
        if sn == "write":
            self.put(st, o, k[1] + self.seg(eng, st, c.args[0], self.value(eng, st, c.args[1]), c))
            return UNIT
        if sn == "clear":
            self.put(st, o, ())
            return UNIT
        if sn == "length":
            return self.length(k[1]).term()
        if sn == "read_contents":
            b = c.args[0]
            self.put(st, b, self.get(st, b)[1] + k[1])
            return UNIT
        if sn == "fileno":
            return None
        self.put(st, o, ("?" + sn,))
        return None

    def file_content(self, st, ptr):
        if ptr[0] == "&":
            l = ptr[1]
            return self.get(st, l)[1]
        return ("?",)

    # ---- verdicts
    def on_exit(self, eng, st, kind, val):
        F, M = self.F, self.method
        if ("file", "note") in st.auto:
            # an object in a file is larger than the limit; comparisons saying otherwise are impossible
            for x in st.auto:
                if x[0] == "cmp" and x[-1] == "note":
                    a, b, out = x[1], x[2], x[3]
                    lim_right = "heap_data_limit" in repr(b)
                    big = a if not lim_right else b
                    v = lin(b) if not lim_right else lin(a)
                    # facts: limit < v (out) or not
                    if not lim_right and not out and ge(v - lin(self.L0), self):
                        return
                    if lim_right and out and ge(v - lin(self.L0), self):
                        return
        self.exits += 1
        ld = lambda n: eng.load(st, ("F", TH, n))
        ini = lambda n: ("ld", ("F", TH, n), 0)

        def bad(msg, key):
            eng.violation(st, "object::%s: %s" % (M["name"], msg), key="%s: %s" % (M["key"], key))
        thrown = kind not in ("ret", "return", "normal") and kind is not None and "throw" in str(kind)
        if thrown:
            if not M.get("throws"):
                return
        if kind == "noreturn":
            return
        ptr = eng.load(st, ("F", ("F", TH, F["file"]), "ptr"))
        in_file = not (ptr == ZERO)
        cur = self.file_content(st, ptr) if in_file else self.get(st, ("F", TH, F["data"]))[1]
        cur = self.norm(eng, st, cur)
        if thrown:
            want = (OLD,)
            if cur != self.norm(eng, st, want):
                bad("a failing call changes the content", "failed but changed")
            if "length" in F and not proves_zero(st, lin(ld(F["length"])) - lin(self.L0)):
                bad("a failing call changes the length", "failed but length changed")
            return
        if M.get("reads"):
            if M["reads"] == "data":
                v = val
                if not isloc(v):
                    v = deref(v)
                if self.norm(eng, st, self.get(st, v)[1]) != self.norm(eng, st, (OLD,)):
                    bad("does not return exactly what is stored", "content")
            elif M["reads"] == "size":
                if not proves_zero(st, lin(val) - lin(self.L0)):
                    bad("does not return the length of what is stored", "size")
            if cur != self.norm(eng, st, (OLD,)):
                bad("changes what is stored", "changes")
        want = M.get("want")
        if want is not None and not M.get("reads"):
            if callable(want):
                want = want(eng, st, val)
            if want is None:
                bad("the number stored is not the one the operation defines", "number")
            elif cur != self.norm(eng, st, want):
                bad("holds %s afterwards, not %s" % (self.sh(cur), self.sh(want)), "content")
            elif "length" in F and not proves_zero(st, lin(ld(F["length"])) - self.length(want) + self.gone(eng, st, want)):
                bad("the recorded length is not that of the content", "length")
            if M.get("place"):
                ok = False
                for x in st.auto:
                    if x[0] == "cmp" and x[-1] == "note":
                        a, b, out = x[1], x[2], x[3]
                        lim_right = "heap_data_limit" in repr(b)
                        v = lin(a) if lim_right else lin(b)
                        d = v - self.length(want)
                        if not proves_zero(st, d):
                            continue
                        # limit < len (strict) decides
                        if not lim_right and out == in_file:
                            ok = True
                if ("file", "note") in st.auto and in_file and want and want[0:1] == (OLD,) or \
                        ("file", "note") in st.auto and in_file and OLD in want:
                    ok = True
                if self.norm(eng, st, want) == (OLD,) and in_file == (("file", "note") in st.auto):
                    ok = True
                if not ok:
                    bad("data are kept in %s without regard to the heap limit" % ("a file" if in_file else "memory"), "place")
        for role in ("flags", "exptime"):
            w = M.get(role, "same")
            v = ld(F[role])
            if w == "same":
                if v != ini(F[role]):
                    bad("changes the %s" % role, role)
            elif w is not None and lin(v) != lin(w):
                bad("does not record the given %s" % role, role)
        w = M.get("cas", "same")
        v = ld(F["cas"])
        if w == "same" and v != ini(F["cas"]):
            bad("changes the unique id", "cas")
        if w == "new":
            d = lin(v) - lin(ini(F["cas"]))
            if d.const() is None or d.k <= 0:
                bad("does not give the object a new unique id", "cas")
        if w == "init" and (not isconst(v) or v[1] <= 0):
            bad("starts with no valid unique id", "cas")
        if M.get("age") == 0 and ld(F["age"]) != ZERO:
            bad("an object that was just used keeps its age", "age")
        if M.get("ret") == "num":
            k = [s for s in cur if isinstance(s, tuple) and s[0] == "NUM"]
            if k and lin(val) != lin(k[0][1]):
                bad("the returned number is not the stored one", "returned")

    def gone(self, eng, st, want):
        """lengths of segments known to be empty"""
        r = Lin()
        for s in want:
            if (s in (ARG, OLD)) and self.norm(eng, st, (s,)) == ():
                r = r + self.length((s,))
        # the recorded length may or may not include them: compare modulo
        l = lin(eng.load(st, ("F", TH, self.F["length"])))
        d = l - self.length(want)
        if proves_zero(st, d + r):
            return r
        return Lin()

    def sh(self, c):
        return "[" + " + ".join({OLD: "old data", ARG: "given data"}.get(s, s[0] if isinstance(s, tuple) else str(s)) for s in c) + "]"


def ge(d, rule):
    """d >= 0 for a difference that is a sum of lengths"""
    return d.k >= 0 and all(c > 0 and x == rule.N for x, c in d.a.items())


def num(kind):
    def want(eng, st, val):
        p = ("PARSED",)
        rule = eng.rule
        ptr_content = rule.get(st, ("F", TH, rule.F["data"]))[1]
        k = [s for s in ptr_content if isinstance(s, tuple) and s[0] == "NUM"]
        if len(ptr_content) != 1 or not k:
            return (("NUM", "?"),)
        v = k[0][1]
        d = lin(v) - lin(p)
        n = lin(rule.N1)
        if kind == "incr":
            return (("NUM", v),) if (d - n).zero() else None
        rels = [(x[1], x[2]) for x in st.auto if x[0] == "rel"]
        below = None
        for t, out in rels:
            if t[1] == "<" and t[2] == p and t[3] == rule.N1:
                below = out
                break
            if t[1] == "<" and t[2] == rule.N1 and t[3] == p:
                if out:
                    below = False
                elif (d + n).zero() or v == ZERO:
                    below = v == ZERO        # equal: both forms give 0
                    if not below:
                        below = None
                break
        if v == ZERO:
            return (("NUM", v),) if below is True else None
        if (d + n).zero():
            return (("NUM", v),) if below is False else None
        if v[0] == "op" and v[1] == "-" and v[3] == rule.N1 and v[2] in (("max", p, rule.N1), ("max", rule.N1, p)):
            return (("NUM", v),)
        if v[0] == "op" and v[1] == "-" and v[2] == p and v[3] in (("min", p, rule.N1), ("min", rule.N1, p)):
            return (("NUM", v),)
        return None
    return want


def run(ctx, F, f, M, heap):
    m = ctx.m
    args = M.get("args")
    r = Content(m, F, M)
    eng = Engine(m, r)
    st = eng.initial(f, this=TH, this_cls=OBJ)
    names = [n for v, n, t in f.params]
    val = lambda k: eng.load(st, st.top.env[f.params[k][0][1]])
    r.P = r.N = r.N1 = None
    r.P, r.N = ("nop",), ("non",)
    r.L0 = ("ld", ("F", TH, F["length"]), 0) if "length" in F else ("L0",)
    ptype = [t for v, n, t in f.params]
    for k, t in enumerate(ptype):
        if t.replace(" ", "") == "constchar*":
            r.P = val(k)
            r.N = val(k + 1)
    if M.get("num"):
        r.N1 = val(0)
    au = set()
    data, fl = ("F", TH, F["data"]), ("F", ("F", TH, F["file"]), "ptr")
    if not M.get("ctor"):
        if heap:
            st.store[fl] = ZERO
            au.add((data, (OLD,), 0))
        else:
            st.store[fl] = ("&", FILE0)
            au.add((data, ("?junk",), 0))
            au.add((FILE0, (OLD,), 0))
            au.add(("file", "note"))
    else:
        st.store[fl] = ZERO
    for k, t in enumerate(ptype):
        if "dynbuf" in t:
            au.add((st.top.env[f.params[k][0][1]], ("?junk",), 0))
    M2 = dict(M)
    for role in ("flags", "exptime"):
        if isinstance(M.get(role), int):
            M2[role] = val(M[role])
    r.method = M2
    st.auto = frozenset(au)
    eng.run(st)
    ctx.engine(eng)
    ctx.need(r.exits, "object::%s never returns" % M["name"])
    ctx.count("returns_checked", r.exits)
    ctx.count("buffer_operations", r.n)
    ctx.instance("object::%s(%s): %s, starting %s" % (M["name"], ", ".join(names), "content, length, place, flags, id and age as specified",
                                                      "in memory" if heap else "in a file"))


def by(m, name, *types):
    r = []
    for f in m.named(OBJ + "::" + name):
        if [t.replace("const ", "").replace("std::", "").replace(" ", "") for v, n, t in f.params] == list(types) or types == (None,):
            r.append(f)
    return r


@prop("D01", "object-content", floor=10)
def content(ctx):
    m = ctx.m
    F = fields(m)

    def need(fs, what):
        ctx.need(len(fs) >= 1, "object::%s not found" % what)
        return fs[0]
    ctors = [f for f in m.named(OBJ + "::object")]
    c1 = need([f for f in ctors if len(f.params) == 4], "object(data)")
    c2 = need([f for f in ctors if len(f.params) == 2], "object(number)")
    run(ctx, F, c1, {"name": "object", "key": "ctor", "ctor": 1, "want": (ARG,), "place": 1, "flags": 2, "exptime": 3, "cas": "init", "age": 0}, True)
    run(ctx, F, c2, {"name": "object", "key": "number ctor", "ctor": 1, "num": 1, "cas": "init", "age": 0, "exptime": 1, "flags": None,
                     "want": lambda e, s, v: (("NUM", e.rule.N1),)}, True)
    for heap in (True, False):
        run(ctx, F, need(by(m, "set", None), "set"),
            {"name": "set", "key": "set", "want": (ARG,), "place": 1, "flags": 2, "exptime": 3, "cas": "new", "age": 0}, heap)
        run(ctx, F, need(by(m, "append", None), "append"),
            {"name": "append", "key": "append", "want": (OLD, ARG), "place": 1, "cas": "new", "age": 0}, heap)
        run(ctx, F, need(by(m, "prepend", None), "prepend"),
            {"name": "prepend", "key": "prepend", "want": (ARG, OLD), "place": 1, "cas": "new", "age": 0}, heap)
        run(ctx, F, need(by(m, "touch", None), "touch"),
            {"name": "touch", "key": "touch", "want": (OLD,), "cas": None, "age": 0, "exptime": 0}, heap)
        run(ctx, F, need(by(m, "data", None), "data"), {"name": "data", "key": "data", "reads": "data", "age": 0}, heap)
        run(ctx, F, need(by(m, "size", None), "size"), {"name": "size", "key": "size", "reads": "size"}, heap)
    for nm in ("incr", "decr"):
        run(ctx, F, need(by(m, nm, None), nm), {"name": nm, "key": nm, "want": num(nm), "num": 1, "cas": "new", "age": 0, "ret": "num", "throws": 1}, True)
        run(ctx, F, need(by(m, nm, None), nm), {"name": nm, "key": nm + " file", "want": lambda e, s, v: ("no return",), "num": 1, "throws": 1,
                                               "cas": None}, False)
