"""Binary requests (memcache and counter protocol): what the parsers take from the received bytes."""
import re

from affine import *
from check import prop
from engine import *
from model import AnalysisError, norm

TH = ("O", "this")
P, L = ("sym", "P", 0), ("sym", "L", 0)
U16, U32 = (1 << 16) - 1, (1 << 32) - 1
SWAP = {2: "16", 4: "32", 8: "64"}


def fld(off, w):
    """the big-endian integer of w bytes at an offset of the request"""
    return ("sym", "b%d.%d" % (off, w), 0)


def is_now(t):
    return t[0] == "call" and t[1] == "atomic.load" and t[2] == ("G", "yrmcds::g_current_time")


class Facts:
    """linear facts; proves l >= 0 as a constant plus up to three of them"""

    def __init__(self, eq, ineq):
        self.sys = Sys(eq)
        self.d = {}
        self.bad = any(f.const() not in (None, 0) for f in (Sys(eq[:i]).reduce(e) for i, e in enumerate(eq)))
        self.memo = {}
        for f in ineq:
            self.add(f)

    def add(self, f):
        f = self.sys.reduce(f)
        if not f.a:
            self.bad = self.bad or f.k < 0
            return
        k = frozenset(f.a.items())
        if k not in self.d or f.k < self.d[k].k:
            self.d[k] = f
            self.memo = {}

    def ge(self, l):
        l = self.sys.reduce(l)
        if not l.a:
            return l.k >= 0
        k = (frozenset(l.a.items()), l.k)
        if k not in self.memo:
            self.memo[k] = self.prove(l)
        return self.memo[k]

    def has(self, l):
        """l is a known fact plus a constant that is not negative"""
        if not l.a:
            return l.k >= 0
        f = self.d.get(frozenset(l.a.items()))
        return f is not None and f.k <= l.k

    def prove(self, l):
        if self.has(l):
            return True
        todo = [l]
        for depth in (1, 2, 3):
            nxt = []
            for x in todo:
                for f in self.d.values():
                    if not any(v * f.a.get(a, 0) > 0 for a, v in x.a.items()):
                        continue
                    y = x - f
                    if self.has(y):
                        return True
                    if len(y.a) <= 4:
                        nxt.append(y)
            todo = nxt
        return False

    def contradiction(self):
        if self.bad:
            return True
        return any(self.ge(-f - Lin({}, 1)) for f in list(self.d.values()))


class Arith(Rule):
    """branch facts about amounts, kept as linear relations; branches are decided by them where they can be"""
    width = 4000
    depth = 12
    max_states = 200000

    def __init__(self, m):
        self.m = m
        self.checked = self.narith = self.nreads = 0
        self.base = []          # linear forms >= 0

    def relevant(self, t):
        return any_sub(t, lambda x: x[0] == "sym")

    def note(self, st, *x):
        st.auto = st.auto | {x}

    def on_branch(self, eng, st, t, out, ln):
        if t[0] == "op" and t[1] in ("<", "=="):
            if self.relevant(t):
                self.note(st, "br", t, out)
        elif t[0] == "sym":
            self.note(st, "br", ("op", "==", t, ZERO), not out)

    def facts(self, st):
        """the path's equations (row echelon) and its strongest inequality in each direction"""
        memo = self.__dict__.setdefault("memo", {})
        if st.auto in memo:
            return memo[st.auto]
        r = list(self.base)
        eq, ne = [], []
        for x in st.auto:
            if x[0] != "br":
                continue
            t, out = x[1], x[2]
            a, b = self.lin(t[2]), self.lin(t[3])
            if t[1] == "<":
                r.append(b - a - Lin({}, 1) if out else a - b)
            elif out:
                eq.append(a - b)
            else:
                ne.append(a - b)
        fields = {x for e in r + eq + ne for x in e.a if x[0] == "sym" and x[1][0] == "b"}
        for x in fields:
            r += [lin(x), Lin({}, (1 << (8 * int(x[1].split(".")[1]))) - 1) - lin(x)]
        F = Facts(eq, r)
        more = True
        while more:
            more = False
            for d in ne:
                for s in (d, -d):
                    if F.ge(s) and not F.ge(s - Lin({}, 1)):
                        F.add(s - Lin({}, 1))
                        more = True
        memo[st.auto] = F
        return F

    def lin(self, t):
        return lin(t)

    def ge(self, st, l):
        return self.facts(st).ge(self.known(l))

    def known(self, l):
        return l

    def zero(self, st, l):
        if l.zero():
            return True
        F = self.facts(st)
        return F.sys.reduce(l).zero() or F.ge(l) and F.ge(-l)

    def impossible(self, st):
        return self.facts(st).contradiction()

    def on_decide(self, eng, st, o, a, b):
        if not (self.relevant(a) or self.relevant(b)):
            return None
        d = self.lin(a) - self.lin(b)
        if o == "<":
            if self.ge(st, d):
                return False
            if self.ge(st, -d - Lin({}, 1)):
                return True
            return None
        if self.ge(st, d - Lin({}, 1)) or self.ge(st, -d - Lin({}, 1)):
            return False
        if self.zero(st, d):
            return True
        if any(x[0] == "br" and x[1][1] == "==" and not x[2] and (self.lin(x[1][2]) - self.lin(x[1][3])) in (d, -d) for x in st.auto):
            return False
        return None

    def bad(self, eng, st, msg, ln=None, key=None):
        if not self.impossible(st):
            eng.violation(st, msg, ln, key=key or msg)

    def val(self, eng, st, a):
        v = eng.load(st, a) if isloc(a) else a
        return v[1] if v[0] == "R" else v

    def on_arith(self, eng, st, o, a, b, t, ln):
        t = t.replace("const ", "")
        if INT_BITS.get(t) not in (32, 64) or o not in ("+", "-") or t.endswith("*"):
            return
        if not (self.relevant(a) or self.relevant(b)) or self.pointer(a) or self.pointer(b):
            return
        self.narith += 1
        l = self.lin(a) + self.lin(b) if o == "+" else self.lin(a) - self.lin(b)
        if any(x[0] != "sym" for x in l.a):
            return
        hi = (1 << 31) - 1 if t == "int" else (1 << INT_BITS[t]) - 1
        lo = -(1 << 31) if t == "int" else (0 if t.startswith("unsigned") else -(1 << 63))
        if not self.ge(st, l - Lin({}, lo)) or INT_BITS[t] == 32 and not self.ge(st, Lin({}, hi) - l):
            self.bad(eng, st, "a %s of lengths can leave the range of its type" % ("sum" if o == "+" else "difference"), ln, "overflow")

    def pointer(self, t):
        return any(x == P for x in lin(t).a)

    # ---- the received bytes
    def offset(self, a):
        """linear offset into the request, or None"""
        l = lin(a)
        return l - lin(P) if l.a.get(P) == 1 else None

    def inside(self, eng, st, off, n, ln):
        self.nreads += 1
        if not self.ge(st, off) or not self.ge(st, lin(L) - off - n):
            self.bad(eng, st, "bytes beyond the received data are read", ln, "read beyond the data")

    def on_load(self, eng, st, l):
        off = self.offset(("&", l))
        if off is None:
            return None
        self.inside(eng, st, off, Lin({}, 1), None)
        if off.const() is None:
            return ("unk", "byte at a variable offset")
        return self.byte(st, int(off.k))

    def byte(self, st, k):
        return fld(k, 1)

    def on_int_cast(self, eng, st, v, n):
        e = n["e"]
        while isinstance(e, dict) and "r" in e and len(e) == 1:
            e = st.top.f.elems.get(e["r"], {})
        if e.get("t", "").replace("const ", "") in ("char", "signed char") and v[0] == "sym" and n.get("t") not in ("unsigned char", "char", "signed char"):
            return ("op", "signed", v)
        b = INT_BITS.get(n.get("t", "").replace("const ", ""))
        if b and b < 64 and v[0] in ("sym", "op") and self.relevant(v) and v[1] != "narrow" and self.ge(st, Lin({}, (1 << b) - 1) - self.lin(v)) and self.ge(st, self.lin(v)):
            return v
        return None

    def bytes_call(self, eng, st, c):
        """calls that look at the received bytes"""
        sn = c.name.split("::")[-1]
        if c.name == "cybozu::ntoh" and len(c.args) == 2:
            t = (c.pt or c.node.get("pt") or ["", ""])[1]
            w = (INT_BITS.get(t.rstrip("& ").replace("const ", "")) or 0) // 8
            off = self.offset(self.val(eng, st, c.args[0]))
            if off is None or not w:
                return None
            self.inside(eng, st, off, Lin({}, w), c.ln)
            v = fld(int(off.k), w) if off.const() is not None else ("unk", "field at a variable offset")
            eng.assign(st, c.args[1], v, c.ln)
            return UNIT
        if sn == "memcmp" and len(c.args) == 3:
            a, b, n = [self.val(eng, st, x) for x in c.args]
            for x, y in ((a, b), (b, a)):
                off = self.offset(x)
                if off is None:
                    continue
                self.inside(eng, st, off, lin(n), c.ln)
                if y[0] == "s" and isconst(n) and n[1] <= len(y[1]) and off.const() is not None:
                    return ("sym", "is:%d:%s" % (off.k, y[1][:n[1]]), 0)
                return ("unk", "comparison")
        if sn in ("memcpy", "memmove") and len(c.args) == 3:
            off = self.offset(self.val(eng, st, c.args[1]))
            if off is not None:
                self.inside(eng, st, off, lin(self.val(eng, st, c.args[2])), c.ln)
        if sn in ("memchr", "rawmemchr", "strtoull", "strtoul", "strtol", "atoi", "strlen"):
            off = self.offset(self.val(eng, st, c.args[0]))
            if off is not None:
                self.inside(eng, st, off, lin(self.val(eng, st, c.args[2])) if sn == "memchr" else Lin({L: 1}, 1) - off, c.ln)
        return None

    def tuples(self, eng, st, c):
        """pairs of pointer and length"""
        n = c.node
        if n["k"] == "ctor" and (c.cls or c.name).startswith("std::tuple") or c.name == "std::make_tuple":
            if len(c.args) == 2:
                return ("tup",) + tuple(self.val(eng, st, a) for a in c.args)
            if not c.args:
                return ("tup", ZERO, ZERO)
            if len(c.args) == 1:
                return self.val(eng, st, c.args[0])
        if c.name.startswith("std::tuple") and c.op == "=" and c.obj is not None and c.args:
            eng.assign(st, c.obj, self.val(eng, st, c.args[0]), c.ln)
            return c.obj
        return None


class Got(Rule):
    """the value an accessor returns"""
    def __init__(self, outer):
        self.outer = outer
        self.out = []

    def on_load(self, eng, st, l):
        return None

    def on_call(self, eng, st, c):
        return self.outer.tuples(eng, st, c)

    def on_exit(self, eng, st, kind, val):
        self.out.append((val, st) if kind == "return" else (None, st))


def got(eng, outer, st, f):
    """what a const accessor returns in the state st"""
    r = Got(outer)
    e = Engine(eng.m, r)
    s = e.initial(f, this=TH)
    s.store.update(st.store)
    e.run(s)
    if len(r.out) != 1:
        return ("unk", f.sn)
    v, s = r.out[0]
    if v is None:
        return ("unk", f.sn)
    if v[0] == "cpy":
        v = v[1]
    if isloc(v):
        fs = [x for x in eng.m.records.values() if norm(x.get("qn") or x["n"]) == (f.ret or "").replace("const ", "").rstrip("& ")]
        if fs:
            return ("rec",) + tuple((x["t"], e.load(s, ("F", v, x["n"]))) for x in fs[0].get("fields", []))
        return e.load(s, v)
    return v


# --------------------------------------------------------------------------- memcache
REQ = "yrmcds::memcache::binary_request"
B = "yrmcds::memcache::"
GETS = {"Get", "GetQ", "GetK", "GetKQ", "GaT", "GaTQ", "GaTK", "GaTKQ", "LaG", "LaGQ", "LaGK", "LaGKQ"}
SETS = {"Set", "SetQ", "Add", "AddQ", "Replace", "ReplaceQ", "RaU", "RaUQ"}
COUNT = {"Increment", "IncrementQ", "Decrement", "DecrementQ"}
LOOSE = {"Quit", "QuitQ", "Version", "Noop", "UnlockAll", "UnlockAllQ"}
NOARG = {"Delete", "DeleteQ", "Lock", "LockQ", "Unlock", "UnlockQ"}
OPCODES = dict(Get=0, Set=1, Add=2, Replace=3, Delete=4, Increment=5, Decrement=6, Quit=7, Flush=8, GetQ=9, Noop=10, Version=11, GetK=12, GetKQ=13,
               Append=14, Prepend=15, Stat=16, SetQ=17, AddQ=18, ReplaceQ=19, DeleteQ=20, IncrementQ=21, DecrementQ=22, QuitQ=23, FlushQ=24,
               AppendQ=25, PrependQ=26, Touch=28, GaT=29, GaTQ=30, GaTK=35, GaTKQ=36, Lock=64, LockQ=65, Unlock=66, UnlockQ=67, UnlockAll=68,
               UnlockAllQ=69, LaG=70, LaGQ=71, LaGK=72, LaGKQ=73, RaU=74, RaUQ=75, Keys=80)
KL, EX, T = fld(2, 2), fld(4, 1), fld(8, 4)
DL = lin(T) - lin(KL) - lin(EX)
HDR = 24
DBG = 0    # 1: print what did not fit
MONTH = 60 * 60 * 24 * 30


def shape(name):
    """(allowed lengths of extras, key: None any / 0 none / 1 required, data: the same)"""
    if name in LOOSE:
        return None, None, None
    if name in GETS:
        return (0, 4), 1, 0
    if name in SETS:
        return (8,), 1, None
    if name in COUNT:
        return (20,), 1, 0
    if name in NOARG:
        return (0,), 1, 0
    if name == "Touch":
        return (4,), 1, 0
    if name in ("Flush", "FlushQ"):
        return (0, 4), 0, 0
    if name in ("Append", "AppendQ", "Prepend", "PrependQ"):
        return (0,), 1, 1
    if name in ("Stat", "Keys"):
        return (0,), None, 0
    raise AnalysisError("no rule for the command %s" % name)


class Binary(Arith):
    def __init__(self, m, opcode, name, cmds, status, stats, limit, keymax):
        Arith.__init__(self, m)
        self.opcode, self.cmd, self.cmds, self.S, self.stats = opcode, name, cmds, status, stats
        self.limit, self.keymax = limit, keymax
        self.base = [lin(x) for x in (KL, EX, T, L)] + [Lin({}, U16) - lin(KL), Lin({}, 255) - lin(EX), Lin({}, U32) - lin(T)]
        self.acc = {n: m.one(REQ + "::" + n) for n in ("length", "status", "command", "quiet", "key", "opaque", "cas_unique", "flags", "exptime", "data",
                                                       "value", "initial", "stats")}

    def byte(self, st, k):
        return C(self.opcode) if k == 1 else C(0x80) if k == 0 else fld(k, 1)

    def on_call(self, eng, st, c):
        v = self.bytes_call(eng, st, c)
        return v if v is not None else self.tuples(eng, st, c)

    def on_exit(self, eng, st, kind, val):
        if self.impossible(st):
            return
        if kind != "return":
            self.bad(eng, st, "the parser of binary requests does not return", key="throws")
            return
        self.checked += 1
        g = {}
        def get(n):
            if n not in g:
                g[n] = got(eng, self, st, self.acc[n])
            return g[n]
        def want(n, l, what):
            v = get(n)
            if v[0] == "unk" or not self.zero(st, lin(v) - l):
                self.bad(eng, st, "%s of the request is not %s (%s)" % (n, what, self.cmd), key="%s: %s" % (self.group(), n)) or DBG and print(n, str(v)[:200])
        ln = get("length")
        full = lin(T) + Lin({}, HDR)
        if self.zero(st, lin(ln)):
            short = self.ge(st, Lin({}, HDR - 1) - lin(L)) or self.ge(st, full - lin(L) - Lin({}, 1))
            if not short:
                self.bad(eng, st, "a complete request is not recognised", key="complete request ignored")
            return
        if not self.zero(st, lin(ln) - full):
            self.bad(eng, st, "the length of the request is not that of header and body", key="length")
            return
        if not self.ge(st, lin(L) - full):
            self.bad(eng, st, "an incomplete request is taken as complete", key="incomplete request")
            return
        code = get("command")
        if self.cmd is None:
            if code != C(self.cmds["Unknown"]):
                # not yet classified: only acceptable when rejected for another reason
                if not isconst(get("status")) or get("status")[1] in (self.S["OK"], self.S["UnknownCommand"]):
                    self.bad(eng, st, "an undefined opcode is taken as a command", key="undefined opcode")
        else:
            want("command", Lin({}, self.opcode), "its opcode")
            q = self.cmd.endswith("Q")
            want("quiet", Lin({}, int(q)), "that of its opcode")
        want("opaque", lin(P) + Lin({}, 12), "at offset 12")
        s = get("status")
        if not isconst(s):
            self.bad(eng, st, "the status of the request is unknown", key="status")
            return
        self.judge(eng, st, s[1], get, want)

    def group(self):
        return self.cmd or "unknown opcode"

    def judge(self, eng, st, s, get, want):
        S = self.S
        invalid, large = [], lin(T) - lin(KL) - lin(EX) - Lin({}, self.limit + 1)
        invalid.append(lin(KL) - Lin({}, self.keymax + 1))
        invalid.append(lin(KL) + lin(EX) - lin(T) - Lin({}, 1))
        ne = []
        if self.cmd is not None:
            ext, key, data = shape(self.cmd)
            if ext is not None:
                ne = [lin(EX) - Lin({}, x) for x in ext]
            if key is not None:
                invalid.append(lin(KL) - Lin({}, 1) if key == 0 else -lin(KL))
            if data is not None:
                invalid.append(DL - Lin({}, 1) if data == 0 else -DL)
        is_ne = bool(ne) and all(self.differs(st, x) for x in ne)
        if s == S["OK"]:
            if self.cmd is None:
                self.bad(eng, st, "a request with an undefined opcode is accepted", key="undefined opcode accepted")
                return
            for l in invalid:
                if not self.ge(st, -l - Lin({}, 1)):
                    self.bad(eng, st, "a request whose key, extras and data do not fit the command is accepted (%s)" % self.cmd, key="%s: accepted" % self.cmd)
                    return
            if not self.ge(st, -large - Lin({}, 1)):
                self.bad(eng, st, "a request with too much data is accepted (%s)" % self.cmd, key="%s: too large" % self.cmd)
            if ne and not any(self.zero(st, x) for x in ne):
                self.bad(eng, st, "a request with extras that do not fit the command is accepted (%s)" % self.cmd, key="%s: extras" % self.cmd)
                return
            self.fields(eng, st, get, want)
            return
        why = set()
        if is_ne or any(self.ge(st, l) for l in invalid):
            why.add(S["Invalid"])
        if self.ge(st, large):
            why.add(S["TooLargeValue"])
        if self.cmd is None:
            why.add(S["UnknownCommand"])
        if s not in why:
            self.bad(eng, st, "a valid request is rejected, or with the wrong status (%s)" % self.group(), key="%s: rejected" % self.group())

    def differs(self, st, l):
        return self.ge(st, l - Lin({}, 1)) or self.ge(st, -l - Lin({}, 1)) or \
            any(x[0] == "br" and x[1][1] == "==" and not x[2] and (lin(x[1][2]) - lin(x[1][3])) in (l, -l) for x in st.auto)

    def tup(self, eng, st, v, ptr, n, what):
        """v is the pair of pointer and length; nothing when the length is zero"""
        if v[0] == "tup" and self.zero(st, lin(v[1]) - lin(P) - ptr) and self.zero(st, lin(v[2]) - n):
            return
        if self.zero(st, n) and v[0] == "tup" and self.zero(st, lin(v[2])):
            return
        if v[0] == "unk" or v[0] == "ld":
            # never assigned: the default value
            if self.zero(st, n):
                return
        self.bad(eng, st, "%s of the request is not taken from its place (%s)" % (what, self.cmd), key="%s: %s" % (self.cmd, what))

    def exptime(self, st, v, f):
        if isconst(v):
            if v[1] == 0:
                return self.zero(st, lin(f))
            if v[1] == -1:
                return self.zero(st, lin(f) - Lin({}, U32))
            return False
        l = lin(v)
        if (l - lin(f)).zero():
            return self.ge(st, lin(f) - Lin({}, MONTH + 1)) and self.differs(st, lin(f) - Lin({}, U32))
        d = l - lin(f)
        if len(d.a) == 1 and d.k == 0:
            x, k = list(d.a.items())[0]
            return k == 1 and is_now(x) and self.differs(st, lin(f)) and self.ge(st, Lin({}, MONTH) - lin(f))
        return False

    def fields(self, eng, st, get, want):
        ex, key, data = shape(self.cmd)
        if key != 0:
            self.tup(eng, st, get("key"), Lin({}, HDR) + lin(EX), lin(KL), "key")
        if data != 0 and ex is not None:
            self.tup(eng, st, get("data"), Lin({}, HDR) + lin(EX) + lin(KL), DL, "data")
        want("cas_unique", lin(fld(16, 8)), "the integer at offset 16")
        def exp(f):
            if not self.exptime(st, get("exptime"), f):
                self.bad(eng, st, "the expiration time of the request is not what the field means (%s)" % self.cmd, key="%s: exptime" % self.cmd)
        if self.cmd in SETS:
            want("flags", lin(fld(HDR, 4)), "the first field of the extras")
            exp(fld(HDR + 4, 4))
        elif self.cmd in COUNT:
            want("value", lin(fld(HDR, 8)), "the first field of the extras")
            want("initial", lin(fld(HDR + 8, 8)), "the second field of the extras")
            exp(fld(HDR + 16, 4))
        elif self.cmd == "Touch":
            exp(fld(HDR, 4))
        elif self.cmd in GETS or self.cmd in ("Flush", "FlushQ"):
            if self.zero(st, lin(EX) - Lin({}, 4)):
                exp(fld(HDR, 4))
            elif self.cmd in GETS:
                want("exptime", Lin({}, -1), "unspecified")
            elif not is_now(get("exptime")):
                self.bad(eng, st, "flush without a time does not mean now", key="%s: exptime" % self.cmd)
        elif self.cmd == "Stat":
            names = {"SETTINGS": "settings", "ITEMS": "items", "SIZES": "sizes", "OPS": "ops"}
            v = get("stats")
            now = None
            for n, w in names.items():
                eqlen = self.zero(st, lin(KL) - Lin({}, len(w)))
                eq = self.zero(st, lin(("sym", "is:%d:%s" % (HDR, w), 0)))
                neq = any(x[0] == "br" and x[1] == ("op", "==", ("sym", "is:%d:%s" % (HDR, w), 0), ZERO) and not x[2] for x in st.auto)
                if eqlen and eq:
                    now = n
                elif not (neq or self.differs(st, lin(KL) - Lin({}, len(w)))):
                    if v == C(self.stats[n]) or v == C(self.stats["GENERAL"]):
                        self.bad(eng, st, "the category %s of statistics is not told from others" % w, key="Stat: %s" % w)
                        return
            if v != C(self.stats[now or "GENERAL"]):
                self.bad(eng, st, "the category of statistics is not what the key names", key="Stat: category")


@prop("P01", "memcache-binary-requests", floor=40)
def memcache_binary(ctx):
    """for every opcode, every path of the request parser: complete exactly when header and body are there, accepted exactly when the lengths
    fit the command, and every field read from its offset, within the data"""
    binary_requests(ctx, range(256))


def binary_requests(ctx, opcodes):
    m = ctx.m
    cmds = m.enum_map(B + "binary_command")
    status = m.enum_map(B + "binary_status")
    stats = m.enum_map(B + "stats_t")
    for n, v in OPCODES.items():
        if cmds.get(n) != v:
            ctx.report("src/memcache/memcache.hpp", "the opcode of the command %s is not 0x%02x" % (n, v), REQ, key="opcode of %s" % n)
    for n in cmds:
        if n not in OPCODES and n not in ("Unknown", "END_OF_COMMAND"):
            raise AnalysisError("no rule for the command %s" % n)
    limit, keymax = 30 << 20, 250
    names = {v: n for n, v in OPCODES.items()}
    f = [g for g in m.funcs.values() if g.cls == REQ and g.ctor and g.blocks and len(g.params) == 2]
    ctx.need(len(f) == 1, "the constructor of binary_request was not found")
    def one(ctx, op):
        r = Binary(m, op, names.get(op), cmds, status, stats, limit, keymax)
        r.name = "P01"
        e = Engine(m, r)
        st = e.initial(f[0], this=TH, args=[P, L], auto=frozenset())
        r.base = r.base + [lin(L) - Lin({}, 1), lin(P) - Lin({}, 1)]
        e.run(st)
        ctx.engine(e)
        ctx.need(r.checked >= 3 or e.viol, "hardly any path of the parser ends (opcode 0x%02x)" % op)
        ctx.instance("opcode 0x%02x (%s): %d paths, %d reads of received bytes, %d computations" % (op, names.get(op) or "undefined", r.checked, r.nreads, r.narith), r.checked)
    ctx.parallel(one, list(opcodes))


# --------------------------------------------------------------------------- the counter protocol
CREQ = "yrmcds::counter::request"
CN = "yrmcds::counter::"
CHDR = 12
CT = fld(4, 4)
CODES = {"Noop": 0, "Get": 1, "Acquire": 2, "Release": 3, "Stats": 16, "Dump": 17}
NAMED = {"Get": 0, "Acquire": 8, "Release": 4}      # length of what precedes the length of the name


class Counter(Arith):
    def __init__(self, m, opcode, name, cmds, status):
        Arith.__init__(self, m)
        self.opcode, self.cmd, self.cmds, self.S = opcode, name, cmds, status
        self.base = [lin(CT), Lin({}, U32) - lin(CT), lin(L) - Lin({}, 1), lin(P) - Lin({}, 1)]
        self.acc = {n: m.one(CREQ + "::" + n) for n in ("length", "command", "flags", "body_length", "opaque", "resources", "maximum", "name", "status")}

    def byte(self, st, k):
        return C(self.opcode) if k == 1 else fld(k, 1)

    def on_call(self, eng, st, c):
        return self.bytes_call(eng, st, c)

    tuples = bytes_call = None

    def on_exit(self, eng, st, kind, val):
        if self.impossible(st):
            return
        if kind != "return":
            self.bad(eng, st, "the parser of counter requests does not return", key="counter: throws")
            return
        self.checked += 1
        def get(n):
            return got(eng, self, st, self.acc[n])
        def want(n, l, what):
            v = get(n)
            if v[0] == "unk" or not self.zero(st, lin(v) - l):
                self.bad(eng, st, "%s of the counter request is not %s (%s)" % (n, what, self.cmd), key="counter %s: %s" % (self.cmd, n))
        full = lin(CT) + Lin({}, CHDR)
        ln = get("length")
        if self.zero(st, lin(ln)):
            if not (self.ge(st, Lin({}, CHDR - 1) - lin(L)) or self.ge(st, full - lin(L) - Lin({}, 1))):
                self.bad(eng, st, "a complete request is not recognised", key="counter: complete request ignored")
            return
        if not self.zero(st, lin(ln) - full):
            self.bad(eng, st, "the length of the request is not that of header and body", key="counter: length")
            return
        if not self.ge(st, lin(L) - full):
            self.bad(eng, st, "an incomplete request is taken as complete", key="counter: incomplete request")
            return
        want("opaque", lin(P) + Lin({}, 8), "at offset 8")
        s = get("status")
        if not isconst(s):
            self.bad(eng, st, "the status of the request is unknown", key="counter: status")
            return
        s = s[1]
        if self.cmd is not None:
            want("command", Lin({}, self.opcode), "its opcode")
        magic = lin(fld(0, 1)) - Lin({}, 0x90)
        wrong = []
        if self.cmd in NAMED:
            at = NAMED[self.cmd]
            NL = lin(fld(CHDR + at, 2))
            wrong += [Lin({}, at + 1) - lin(CT), -NL, NL + Lin({}, at + 2) - lin(CT) - Lin({}, 1)]
            if self.cmd == "Acquire":
                R, M = lin(fld(CHDR, 4)), lin(fld(CHDR + 4, 4))
                wrong += [-R, R - M - Lin({}, 1)]
        ne = self.ge(st, magic - Lin({}, 1)) or self.ge(st, -magic - Lin({}, 1)) or any(
            x[0] == "br" and x[1][1] == "==" and not x[2] and (lin(x[1][2]) - lin(x[1][3])) in (magic, -magic) for x in st.auto)
        if s == self.S["OK"]:
            if self.cmd is None:
                self.bad(eng, st, "a request with an undefined opcode is accepted", key="counter: undefined opcode")
                return
            if not self.zero(st, magic) or not all(self.ge(st, -l - Lin({}, 1)) for l in wrong):
                self.bad(eng, st, "an invalid counter request is accepted (%s)" % self.cmd, key="counter %s: accepted" % self.cmd)
                return
            if self.cmd in NAMED:
                v = get("name")
                p, n = self.parts(eng, st, v)
                if not (self.zero(st, lin(p) - lin(P) - Lin({}, CHDR + at + 2)) and self.zero(st, lin(n) - NL)):
                    self.bad(eng, st, "the name of the counter is not taken from its place (%s)" % self.cmd, key="counter %s: name" % self.cmd)
                if self.cmd != "Get":
                    want("resources", lin(fld(CHDR, 4)), "the first field of the body")
                if self.cmd == "Acquire":
                    want("maximum", lin(fld(CHDR + 4, 4)), "the second field of the body")
            return
        why = set()
        if ne or any(self.ge(st, l) for l in wrong):
            why.add(self.S["Invalid"])
        if self.cmd is None:
            why.add(self.S["UnknownCommand"])
        if s not in why:
            self.bad(eng, st, "a valid counter request is rejected, or with the wrong status (%s)" % self.cmd, key="counter %s: rejected" % self.cmd)

    def parts(self, eng, st, v):
        if v[0] == "rl":
            return v[2], v[3]
        if v[0] == "rec" and len(v) == 3:
            p = [x for t, x in v[1:] if t.endswith("*")]
            n = [x for t, x in v[1:] if not t.endswith("*")]
            if len(p) == 1 and len(n) == 1:
                return p[0], n[0]
        if DBG:
            print(v)
        return ("unk", "name"), ("unk", "name")

    def tuples(self, eng, st, c):
        return None

    bytes_call = Arith.bytes_call


@prop("P01", "counter-requests", floor=20)
def counter_requests(ctx):
    """the same for every opcode of the counter protocol"""
    m = ctx.m
    cmds, status = m.enum_map(CN + "command"), m.enum_map(CN + "status")
    for n, v in CODES.items():
        if cmds.get(n) != v:
            ctx.report("src/counter/counter.hpp", "the opcode of the command %s is not 0x%02x" % (n, v), CREQ, key="opcode of %s" % n)
    for n in cmds:
        if n not in CODES and n not in ("Unknown", "END_OF_COMMAND"):
            raise AnalysisError("no rule for the counter command %s" % n)
    names = {v: n for n, v in CODES.items()}
    f = [g for g in m.funcs.values() if g.cls == CREQ and g.ctor and g.blocks and len(g.params) == 2]
    ctx.need(len(f) == 1, "the constructor of counter::request was not found")
    def one(ctx, op):
        r = Counter(m, op, names.get(op), cmds, status)
        r.name = "P01"
        e = Engine(m, r)
        e.run(e.initial(f[0], this=TH, args=[P, L], auto=frozenset()))
        ctx.engine(e)
        ctx.need(r.checked >= 3 or e.viol, "hardly any path of the parser ends (opcode 0x%02x)" % op)
        ctx.instance("counter opcode 0x%02x (%s): %d paths, %d reads of received bytes" % (op, names.get(op) or "undefined", r.checked, r.nreads), r.checked)
    ctx.parallel(one, list(range(256)))


# --------------------------------------------------------------------------- byte order
class Order(Rule):
    def __init__(self):
        self.out = []
        self.copies = []

    def on_call(self, eng, st, c):
        if c.name.split("::")[-1] in ("memcpy", "memmove"):
            d, s, n = c.args
            v = eng.load(st, s[1]) if s[0] == "&" else ("mem", s)
            if d[0] == "&":
                eng.assign(st, d[1], v if s[0] == "&" and s[1][0] == "L" else ("mem", s, n), c.ln)
            st.auto = (st.auto or ()) + ((d, v, n),)
            return d
        return None

    def on_exit(self, eng, st, kind, val):
        self.out.append((kind, st))


@prop("P01", "byte-order", floor=4)
def byte_order(ctx):
    """ntoh and hton convert exactly the bytes of their integer type between host and network byte order"""
    m = ctx.m
    seen = 0
    for name in ("cybozu::ntoh", "cybozu::hton"):
        for f in [f for f in m.funcs.values() if f.n == name and f.blocks]:
            read = name.endswith("ntoh")
            t = f.params[1 if read else 0][2].rstrip("& ").replace("const ", "")
            w = (INT_BITS.get(t) or 0) // 8
            r = Order()
            e = Engine(m, r)
            n, p = ("O", "n"), ("sym", "p", 0)
            e.run(e.initial(f, args=[p, n] if read else [("sym", "d", 0), p], auto=()))
            ctx.engine(e)
            ctx.need(r.out, "no path of %s ends" % name)
            seen += 1
            ctx.instance("%s<%s>" % (name, t))
            for kind, st in r.out:
                cp = list(st.auto)
                ok = kind == "return" and len(cp) == 1 and cp[0][2] == C(w)
                if ok and read:
                    v = e.load(st, n)
                    ok = cp[0][1] == ("mem", p) and swapped(v, w) and any_sub(v, lambda x: x == ("mem", p, C(w)))
                elif ok:
                    ok = cp[0][0] == p and swapped(cp[0][1], w) and any_sub(cp[0][1], lambda x: x == ("sym", "d", 0))
                if not ok:
                    ctx.report(f.loc, "%s does not convert %d bytes between host and network byte order" % (name, w), f.n, key="%s<%d>" % (name, w))
    ctx.need(seen >= 4, "ntoh and hton were not found")


def swapped(v, w):
    """exactly one byte swap, of w bytes"""
    names = []
    any_sub(v, lambda x: x[0] == "call" and names.append(x[1].split("::")[-1]) is not None)
    sizes = []
    for n in names:
        d = re.search("(16|32|64)", n)
        if d and ("bswap" in n or n.startswith(("htobe", "be"))):
            sizes.append(int(d.group(1)) // 8)
        elif n in ("htons", "ntohs", "htonl", "ntohl"):
            sizes.append(2 if n.endswith("s") else 4)
    return sizes == [w]
