"""Byte buffers and temporary files: what they hold after every operation."""
from check import prop
from affine import *
from engine import *
from model import AnalysisError, norm
from rules.objects import DYN, TMP, walk_members

TH = ("O", "this")


def accessor_field(m, name):
    f = m.one(name)
    ns = [x["fn"] for x in walk_members(f)]
    if not ns:
        raise AnalysisError("%s reads no member" % name)
    return ns[0]


# --------------------------------------------------------------------------- temporary files
class File(Rule):
    """transfers between memory and a file: position and length as linear relations"""
    affine = True
    width = 400
    max_states = 4000
    OUT, CONS, AT, ROOM = ghost("out"), ghost("cons"), ghost("at"), ghost("room")

    def __init__(self, m, mode):
        self.m, self.mode = m, mode
        self.n = self.exits = 0
        self.fd = accessor_field(m, TMP + "::fileno")
        self.len = accessor_field(m, TMP + "::length")
        self.P = self.N = None

    def opaque(self, eng, func, name):
        return func.cls == DYN

    def g(self, st, l):
        return lin(st.store[l])

    def nonneg(self, st):
        return [self.g(st, self.OUT), self.g(st, self.CONS)] + [lin(x) for x in (self.N, ("ld", ("F", TH, self.len), 0)) if x is not None]

    def need(self, eng, st, ok, msg, ln, key):
        if not ok:
            eng.violation(st, msg, ln, key="tempfile: " + key)

    def val(self, eng, st, a):
        return eng.load(st, a) if isloc(a) else a

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        total = lin(self.N) if self.mode == "write" else lin(("ld", ("F", TH, self.len), 0))
        if c.name in ("std::min", "std::max") and len(c.args) == 2:
            return (c.name[5:],) + tuple(self.val(eng, st, a) for a in c.args)
        if c.func is None and c.name in ("write", "pwrite", "pwrite64", "read", "pread", "pread64"):
            self.n += 1
            fd, P, L = [self.val(eng, st, a) for a in c.args[:3]]
            self.need(eng, st, fd == ("ld", ("F", TH, self.fd), 0), "data are transferred with a descriptor other than the file's", c.ln, "descriptor")
            rd = "read" in c.name
            self.need(eng, st, rd == (self.mode == "read") and self.mode != "clear", "unexpected %s in tempfile" % c.name, c.ln, "direction")
            out = self.g(st, self.OUT)
            rest = total - out
            self.need(eng, st, proves_ge0(st, rest - lin(L), (), self.nonneg(st)),
                      "%s may transfer more than the remaining bytes" % c.name, c.ln, "too much")
            if rd:
                off = lin(self.val(eng, st, c.args[3])) if len(c.args) > 3 else None
                self.need(eng, st, off is not None, "the file is read from its write position", c.ln, "position")
                if off is not None:
                    self.need(eng, st, proves_zero(st, off - out), "pread does not continue where the last read ended", c.ln, "offset")
                b = [x for x in lin(P).a if x[0] == "sym" and x[1] == "prep"]
                if len(b) != 1:
                    self.need(eng, st, False, "data are not read into space the buffer prepared", c.ln, "target")
                else:
                    d = lin(P) - Lin({b[0]: 1})
                    self.need(eng, st, proves_zero(st, self.g(st, self.AT) + d - out), "data are not read to the place that follows the data read before", c.ln, "target")
                    self.need(eng, st, proves_ge0(st, self.g(st, self.ROOM) - d - lin(L), (), self.nonneg(st) + [rest]),
                              "more is read than the buffer has room for", c.ln, "room")
            else:
                self.need(eng, st, proves_zero(st, lin(P) - lin(self.P) - out), "write does not continue after the bytes written before", c.ln, "source")
                if c.name != "write":
                    off = lin(self.val(eng, st, c.args[3]))
                    self.need(eng, st, proves_zero(st, off - out - lin(("ld", ("F", TH, self.len), 0))), "pwrite does not append", c.ln, "offset")
            n = fresh(st, "n")
            s2 = st.copy()
            st.facts[n] = (0, INF, frozenset())
            st.facts[("op", "<", L, n)] = False
            st.store[self.OUT] = (out + lin(n)).term()
            return [(st, n), (s2, C(-1))]
        if c.func is not None and c.func.cls == DYN:
            self.n += 1
            if sn == "prepare":
                cons, out = self.g(st, self.CONS), self.g(st, self.OUT)
                self.need(eng, st, proves_zero(st, cons - out), "space is prepared again before the data read were consumed", c.ln, "prepare")
                p = fresh(st, "prep")
                st.store[self.AT] = cons.term()
                st.store[self.ROOM] = lin(self.val(eng, st, c.args[0])).term()
                return p
            if sn == "consume":
                st.store[self.CONS] = (self.g(st, self.CONS) + lin(self.val(eng, st, c.args[0]))).term()
                return UNIT
            self.need(eng, st, False, "unexpected use of the buffer (%s)" % sn, c.ln, "buffer")
            return None
        if c.func is None and c.name in ("lseek", "lseek64"):
            a = [self.val(eng, st, x) for x in c.args]
            ok = a[0] == ("ld", ("F", TH, self.fd), 0) and a[1] == ZERO and a[2] == ZERO
            s2 = st.copy()
            st.auto = st.auto | {"sought"} if ok else st.auto - {"sought"}
            return [(st, ZERO if ok else ("unk", "lseek")), (s2, C(-1))]
        if c.func is None and c.name in ("ftruncate", "ftruncate64"):
            a = [self.val(eng, st, x) for x in c.args]
            ok = a[0] == ("ld", ("F", TH, self.fd), 0) and a[1] == ZERO
            s2 = st.copy()
            st.auto = st.auto | {"cut"} if ok else st.auto - {"cut"}
            return [(st, ZERO), (s2, C(-1))]
        return None

    def on_exit(self, eng, st, kind, val):
        if kind == "throw" or kind == "noreturn":
            return
        self.exits += 1
        L0 = lin(("ld", ("F", TH, self.len), 0))
        L1 = lin(eng.load(st, ("F", TH, self.len)))
        if self.mode == "clear":
            self.need(eng, st, {"sought", "cut"} <= st.auto, "a cleared file keeps old contents or its write position", None, "clear")
            self.need(eng, st, L1.zero(), "a cleared file keeps its length", None, "clear length")
            return
        ex = []
        total = lin(self.N) if self.mode == "write" else L0
        rest = total - self.g(st, self.OUT)
        # remaining <= 0 together with the checked bound of every transfer means zero
        if not rest.zero() and proves_ge0(st, -rest, (), self.nonneg(st)):
            ex.append(rest)
        self.need(eng, st, proves_zero(st, rest, ex), "returns although not everything was %s" % ("written" if self.mode == "write" else "read"), None, "incomplete")
        if self.mode == "write":
            self.need(eng, st, proves_zero(st, L1 - L0 - total, ex), "the length of the file is not kept", None, "length")
        else:
            self.need(eng, st, proves_zero(st, L1 - L0), "reading changes the length", None, "length")
            self.need(eng, st, proves_zero(st, self.g(st, self.CONS) - total, ex), "the buffer is not told of all the bytes read", None, "consumed")


@prop("D01", "tempfile-content", floor=3)
def tempfiles(ctx):
    m = ctx.m
    for name, mode in (("write", "write"), ("clear", "clear"), ("read_contents", "read")):
        f = m.one(TMP + "::" + name)
        r = File(m, mode)
        eng = Engine(m, r)
        st = eng.initial(f, this=TH, this_cls=TMP, auto=frozenset())
        for l in (r.OUT, r.CONS, r.AT, r.ROOM):
            st.store[l] = ZERO
        L = ("F", TH, r.len)
        st.store[L] = ("ld", L, 0)
        if mode == "write":
            ctx.need(len(f.params) == 2, "tempfile::write takes no buffer and length")
            r.P, r.N = [eng.load(st, st.top.env[f.params[k][0][1]]) for k in (0, 1)]
        eng.run(st)
        ctx.engine(eng)
        ctx.need(r.exits and (r.n or mode == "clear"), "tempfile::%s transfers nothing" % name)
        ctx.count("transfers_checked", r.n)
        ctx.instance("tempfile::%s: every partial transfer continues where the last one ended; complete on return" % name)
    # nobody else touches the descriptor's position
    used = [g for g in m.funcs.values() if g.cls == TMP]
    ctx.need(used, "class tempfile not found")


class Mkstemp(Rule):
    def __init__(self):
        self.n = 0

    def on_call(self, eng, st, c):
        if c.func is None and c.name in ("mkostemp", "mkstemp", "mkostemps"):
            self.n += 1
            st.auto = "made"
            if c.name != "mkstemp":
                fl = c.args[1]
                if not (isconst(fl) and fl[1] & 0o2000000):
                    eng.violation(st, "a temporary file is inherited by other programs", c.ln, key="cloexec")
                if isconst(fl) and fl[1] & 0o2000:
                    eng.violation(st, "a temporary file is opened for appending", c.ln, key="append")
            s2 = st.copy()
            s2.auto = None
            n = ("sym", "fd", 0)
            st.facts[n] = (0, INF, frozenset())
            return [(st, n), (s2, C(-1))]
        if c.func is None and c.name in ("unlink", "unlinkat"):
            st.auto = None if st.auto == "made" else st.auto
            return ZERO
        if c.func is None and c.name == "open" and len(c.args) >= 2:
            self.n += 1
        return None

    def on_exit(self, eng, st, kind, val):
        if st.auto == "made":
            eng.violation(st, "a temporary file stays in the directory", key="not unlinked")


@prop("D01", "tempfile-unlinked", floor=1)
def unlinked(ctx):
    m = ctx.m
    n = 0
    makers = [f for f in m.funcs.values() if any(i["k"] == "call" and norm(i.get("n") or "") in ("mkostemp", "mkstemp", "mkostemps") for i in f.instrs())
              and "test" not in f.file]
    for f in makers:
        r = Mkstemp()
        eng = Engine(m, r)
        eng.run(eng.initial(f))
        ctx.engine(eng)
        n += r.n
        ctx.instance("%s: the file is unlinked before its descriptor is handed out" % norm(f.n))
    ctx.need(n, "no temporary file is ever created")


# --------------------------------------------------------------------------- buffers
BLK0, BLK1 = ("&", ("O", "block0")), ("&", ("O", "block1"))


class Buf(Rule):
    """auto: frozenset of ("blk", pointer, capacity, segments, dirty, freed); segments are (offset, length, source, source offset)"""
    skip_dtors = False
    width = 400
    max_states = 4000
    depth = 10

    def __init__(self, m, F, erase):
        self.m, self.F, self.erase = m, F, erase
        self.n = self.exits = 0
        self.extra_eq, self.extra_ge = [], []
        self.P = None

    def opaque(self, eng, func, name):
        return func.sn in ("_malloc", "_free", "_realloc", "clear_memory", "clear_memory_")

    def blocks(self, st):
        return {x[1]: x for x in st.auto if x[0] == "blk"}

    def put(self, st, b, cap, segs, dirty, freed):
        st.auto = frozenset([x for x in st.auto if not (x[0] == "blk" and x[1] == b)] + [("blk", b, cap, segs, dirty, freed)])

    def fail(self, eng, st, msg, ln, key, erase=False):
        eng.violation(st, msg, ln, key=("erase: " if erase else "buffer: ") + key)

    def ge0(self, st, l):
        return proves_ge0(st, l, self.extra_eq, self.extra_ge)

    def eq0(self, st, l):
        return proves_zero(st, l, self.extra_eq) or self.ge0(st, l) and self.ge0(st, -l)

    def split(self, st, p):
        l = lin(p)
        bs = self.blocks(st)
        for x, c in l.a.items():
            if x in bs and c == 1:
                return x, l - Lin({x: 1})
        if self.P is not None and l.a.get(self.P) == 1:
            return "ARG", l - Lin({self.P: 1})
        return None, l

    def val(self, eng, st, a):
        return eng.load(st, a) if isloc(a) else a

    def place(self, eng, st, d, n, src, so, ln):
        """[d, d+n) now holds src[so, so+n)"""
        b, off = self.split(st, d)
        bs = self.blocks(st)
        if b is None or b == "ARG":
            if not (isconst(d) and self.eq0(st, n)):
                self.fail(eng, st, "bytes are stored outside the buffer", ln, "stray store")
            return
        x = bs[b]
        if x[5]:
            self.fail(eng, st, "a released block is written", ln, "use after free")
        if not self.ge0(st, lin(x[2]) - off - n) or not self.ge0(st, off):
            self.fail(eng, st, "bytes may be stored beyond the end of the block", ln, "overflow")
        segs = tuple(x[3]) + ((off.term(), n.term(), src, so.term()),)
        dirty = lin(x[4])
        end = off + n
        if src == "CLR":
            if self.ge0(st, end - dirty) and self.ge0(st, dirty - off):
                dirty = off
        elif self.ge0(st, end - dirty):
            dirty = end
        elif not self.ge0(st, dirty - end):
            dirty = Lin({("max", dirty.term(), end.term()): 1})
        self.put(st, b, x[2], segs, dirty.term(), x[5])

    def lookup(self, st, b, off, n):
        """what [off, off+n) of block b holds: (source, source offset) or None"""
        if self.eq0(st, n):
            return ("EMPTY", Lin())
        segs = self.blocks(st)[b][3]
        for o, m_, src, so in reversed(segs):
            o, m_ = lin(o), lin(m_)
            if self.eq0(st, m_):
                continue
            if self.ge0(st, off - o) and self.ge0(st, o + m_ - off - n):
                return (src, lin(so) + off - o)
            if self.ge0(st, o - off - n) or self.ge0(st, off - o - m_):
                continue
            return None
        return None

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        nm = c.name
        if nm in ("std::min", "std::max") and len(c.args) == 2:
            return (nm[5:],) + tuple(self.val(eng, st, a) for a in c.args)
        if sn in ("memcpy", "memmove") and len(c.args) == 3:
            self.n += 1
            d, s, n = [self.val(eng, st, a) for a in c.args]
            n = lin(n)
            b, off = self.split(st, s)
            db, doff = self.split(st, d)
            src = None
            if b == "ARG":
                src = ("ARG", off)
            elif b is not None:
                x = self.blocks(st)[b]
                if x[5]:
                    self.fail(eng, st, "a released block is read", c.ln, "use after free")
                src = self.lookup(st, b, off, n)
                if b == db and sn == "memcpy" and not (self.ge0(st, off - doff - n) or self.ge0(st, doff - off - n)):
                    self.fail(eng, st, "overlapping memory is copied with memcpy", c.ln, "overlap")
            elif self.eq0(st, n):
                return UNIT
            if src is None:
                src = ("?", Lin())
            if src[0] != "EMPTY":
                self.place(eng, st, d, n, src[0], src[1], c.ln)
            return UNIT
        if sn in ("memset", "explicit_bzero") or "clear_memory" in nm or c.node.get("fp") == "clear_memory" or self.is_clear(eng, st, c):
            self.n += 1
            a = [self.val(eng, st, x) for x in c.args]
            n = lin(a[-1])
            if sn == "memset":
                return UNIT     # an ordinary store may be removed by the compiler: not an erasure
            self.place(eng, st, a[0], n, "CLR", Lin(), c.ln)
            return UNIT
        if sn == "_malloc":
            self.n += 1
            p = ("&", ("O", "malloc", st.top.f.id, c.eid))
            self.put(st, p, self.val(eng, st, c.args[0]), (), ZERO, False)
            return p
        if sn == "_free":
            self.n += 1
            p = self.val(eng, st, c.args[0])
            if p == ZERO:
                return UNIT
            b, off = self.split(st, p)
            if b is None or b == "ARG" or not off.zero():
                self.fail(eng, st, "something that is not the block is released", c.ln, "free")
                return UNIT
            self.release(eng, st, b, c.ln)
            return UNIT
        if sn == "_realloc":
            self.n += 1
            p = self.val(eng, st, c.args[0])
            q = ("&", ("O", "realloc", st.top.f.id, c.eid))
            n = self.val(eng, st, c.args[1])
            if p == ZERO:
                self.put(st, q, n, (), ZERO, False)
                return q
            b, off = self.split(st, p)
            if b is None or b == "ARG" or not off.zero():
                self.fail(eng, st, "something that is not the block is released", c.ln, "free")
                return q
            x = self.blocks(st)[b]
            if not self.ge0(st, lin(n) - lin(x[2])):
                self.fail(eng, st, "a block is made smaller than it was", c.ln, "shrink")
            self.release(eng, st, b, c.ln)
            self.put(st, q, n, x[3], x[4], False)
            return q
        return None

    def is_clear(self, eng, st, c):
        if "fe" not in c.node:
            return False
        return any_sub(eng.value(st, c.node["fe"]), lambda x: x[0] == "G" and x[1].endswith("::clear_memory"))

    def release(self, eng, st, b, ln):
        x = self.blocks(st)[b]
        if x[5]:
            self.fail(eng, st, "a block is released twice", ln, "double free")
        if self.erase and not self.eq0(st, lin(x[4])) and not self.ge0(st, -lin(x[4])):
            self.fail(eng, st, "a block is released before its data are erased", ln, "released", True)
        self.put(st, b, x[2], x[3], x[4], True)

    def on_exit(self, eng, st, kind, val):
        if kind in ("throw", "noreturn"):
            return
        self.exits += 1
        M = self.method
        F = self.F
        bs = self.blocks(st)
        kept = set()
        for who, want in M["want"](self, eng, st).items():
            p = eng.load(st, ("F", who, F["p"]))
            u = lin(eng.load(st, ("F", who, F["used"])))
            k = lin(eng.load(st, ("F", who, F["cap"])))
            name = "" if who == TH else " of the other buffer"
            n = Lin()
            for s, o, ln_ in want:
                n = n + ln_
            if not self.eq0(st, u - n):
                self.fail(eng, st, "%s leaves the wrong size%s" % (M["name"], name), None, "%s: size" % M["name"])
                continue
            if p == ZERO:
                if not self.eq0(st, k) or not self.eq0(st, u):
                    self.fail(eng, st, "%s leaves a size without memory%s" % (M["name"], name), None, "%s: null" % M["name"])
                continue
            b, off = self.split(st, p)
            if b is None or b == "ARG" or not off.zero():
                self.fail(eng, st, "%s leaves a stray pointer%s" % (M["name"], name), None, "%s: pointer" % M["name"])
                continue
            if b in kept:
                self.fail(eng, st, "%s leaves two buffers with one block" % M["name"], None, "%s: shared" % M["name"])
            kept.add(b)
            x = bs[b]
            if x[5]:
                self.fail(eng, st, "%s keeps a released block%s" % (M["name"], name), None, "%s: freed" % M["name"])
            if not self.eq0(st, k - lin(x[2])) and not self.ge0(st, lin(x[2]) - k):
                self.fail(eng, st, "%s records a capacity larger than the block%s" % (M["name"], name), None, "%s: capacity" % M["name"])
            if not self.ge0(st, k - u):
                self.fail(eng, st, "%s leaves a size beyond the capacity%s" % (M["name"], name), None, "%s: bound" % M["name"])
            at = Lin()
            for s, o, ln_ in want:
                if self.eq0(st, ln_):
                    continue
                g = self.lookup(st, b, at, ln_)
                if g is None or g[0] != s or not self.eq0(st, g[1] - o):
                    self.fail(eng, st, "%s does not keep the bytes%s" % (M["name"], name), None, "%s: content" % M["name"])
                    break
                at = at + ln_
            if self.erase and not self.ge0(st, u - lin(x[4])):
                self.fail(eng, st, "%s leaves removed data in memory%s" % (M["name"], name), None, "%s: left" % M["name"], True)
            if M.get("free"):
                if not self.ge0(st, k - u - lin(M["free"](self))):
                    self.fail(eng, st, "%s does not provide the requested space" % M["name"], None, "%s: space" % M["name"])
                if not self.eq0(st, lin(val) - lin(p) - u):
                    self.fail(eng, st, "%s returns another place than the end of the data" % M["name"], None, "%s: place" % M["name"])
        if M.get("fresh") and eng.load(st, ("F", TH, F["erase"])) != C(int(self.erase)):
            self.fail(eng, st, "%s does not take over whether to erase" % M["name"], None, "%s: flag" % M["name"], True)
        for b, x in bs.items():
            if not x[5] and b not in kept:
                self.fail(eng, st, "%s loses a block" % M["name"], None, "%s: leak" % M["name"])


def buf_fields(m):
    F = {"used": accessor_field(m, DYN + "::size"), "p": accessor_field(m, DYN + "::data")}
    rec = m.record(DYN)
    sizes = [f for f in rec["fields"] if f["t"].replace("const ", "") in ("std::size_t", "size_t", "unsigned long") and f["n"] != F["used"]]
    c = [f for f in sizes if f["t"].startswith("const ")]
    v = [f for f in sizes if not f["t"].startswith("const ")]
    e = [f for f in rec["fields"] if f["t"].replace("const ", "") == "bool"]
    if len(c) != 1 or len(v) != 1 or len(e) != 1:
        raise AnalysisError("the members of dynbuf were not recognised")
    F["def"], F["cap"], F["erase"] = c[0]["n"], v[0]["n"], e[0]["n"]
    return F


def buffers(ctx, only_erase):
    m = ctx.m
    F = buf_fields(m)
    OTHER = None
    methods = []
    total = 0

    def ld(who, role):
        return ("ld", ("F", who, F[role]), 0)

    def setup(f, M, null, erase, onull=False):
        r = Buf(m, F, erase)
        r.method = M
        eng = Engine(m, r)
        st = eng.initial(f, this=TH, this_cls=DYN)
        objs = [] if M.get("fresh") else [(TH, BLK0, null, "OLD")]
        for vid, n, t in f.params:
            if "dynbuf" in t:
                objs.append((st.top.env[vid[1]], BLK1, onull, "OTHER"))
                r.other = st.top.env[vid[1]]
        au = set()
        r.U = {}
        for who, blk, nl, src in objs:
            st.store[("F", who, F["erase"])] = C(int(erase))
            if nl:
                st.store[("F", who, F["p"])] = ZERO
                st.store[("F", who, F["used"])] = ZERO
                st.store[("F", who, F["cap"])] = ZERO
                r.U[who] = Lin()
            else:
                u, k = ("sym", "used" + src, 0), ("sym", "cap" + src, 0)
                st.store[("F", who, F["p"])] = blk
                st.store[("F", who, F["used"])] = u
                st.store[("F", who, F["cap"])] = k
                au.add(("blk", blk, k, ((ZERO, u, src, ZERO),), u, False))
                r.extra_ge += [lin(u), lin(k) - lin(u), lin(k) - Lin({}, 1)]
                r.U[who] = lin(u)
            r.extra_ge += [lin(ld(who, "def"))]
        vals = []
        for vid, n, t in f.params:
            v = eng.load(st, st.top.env[vid[1]]) if "dynbuf" not in t else None
            vals.append(v)
            if v is not None and "char" in t:
                r.P = v
            elif v is not None and "bool" not in t:
                r.extra_ge.append(lin(v))
                st.facts[v] = (0, INF, frozenset())
            if v is not None and "bool" in t:
                st.store[st.top.env[vid[1]]] = C(int(erase))
        r.vals = vals
        st.auto = frozenset(au)
        eng.run(st)
        if only_erase:
            eng.viol = [v for v in eng.viol if v["key"].startswith("erase:")]
        else:
            eng.viol = [v for v in eng.viol if not v["key"].startswith("erase:")]
        ctx.engine(eng)
        ctx.count("memory_operations", r.n)
        return r

    def all_params(f, *types):
        ts = [t.replace("std::", "").replace(" ", "") for v, n, t in f.params]
        return len(ts) == len(types) and all(b in a for a, b in zip(ts, types))

    def find(name, *types):
        fs = [f for f in m.named(DYN + "::" + name) if all_params(f, *types) and f.blocks]
        ctx.need(fs, "dynbuf::%s not found" % name)
        return fs[0]

    same = lambda r: [("OLD", Lin(), r.U[TH])]
    specs = [
        ("reset", find("reset"), {"want": lambda r, e, s: {TH: []}}),
        ("append", find("append", "char", ""), {"want": lambda r, e, s: {TH: same(r) + [("ARG", Lin(), lin(r.vals[1]))]}}),
        ("erase", find("erase", ""), {"want": lambda r, e, s: {TH: [("OLD", lin(r.vals[0]), r.U[TH] - lin(r.vals[0]))]}}),
        ("prepare", find("prepare", ""), {"want": lambda r, e, s: {TH: same(r)}, "free": lambda r: r.vals[0]}),
        ("swap", find("swap", "dynbuf"), {"want": lambda r, e, s: {TH: [("OTHER", Lin(), r.U[r.other])], r.other: same(r)}}),
        ("~dynbuf", find("~dynbuf"), {"want": lambda r, e, s: {}}),
    ]
    for f in m.named(DYN + "::dynbuf"):
        if not f.blocks or not f.params:
            continue
        if "dynbuf" in f.params[0][2]:
            if "&&" in f.params[0][2]:
                specs.append(("dynbuf(move)", f, {"fresh": 1, "moved": 1, "want": lambda r, e, s: {TH: [("OTHER", Lin(), r.U[r.other])]}}))
        else:
            specs.append(("dynbuf", f, {"fresh": 1, "want": lambda r, e, s: {TH: []}}))
    for name, f, M in specs:
        M["name"] = "dynbuf::" + name
        for erase in ((True,) if only_erase else (True, False)):
            for null in (False, True):
                for onull in ((False, True) if any("dynbuf" in t for v, n, t in f.params) else (False,)):
                    if M.get("fresh") and null:
                        continue
                    r = setup(f, dict(M), null, erase, onull)
                    total += r.exits
        if only_erase:
            ctx.instance("dynbuf::%s: with erasing on, no byte that left the content stays in memory" % name)
        else:
            ctx.instance("dynbuf::%s: content, size, capacity and ownership of the memory block" % name)
    ctx.need(total >= 10, "the buffer methods were not explored")
    ctx.count("returns_checked", total)


@prop("D01", "buffer-content", floor=6)
def buffer_content(ctx):
    buffers(ctx, False)


# --------------------------------------------------------------------------- erasing
@prop("S03", "buffer-erase", floor=5)
def buffer_erase(ctx):
    buffers(ctx, True)


class Zero(Rule):
    """clear_memory stores a zero to every byte, through volatile"""
    affine = True
    width = 200
    max_states = 2000
    OUT = ghost("out")

    def __init__(self):
        self.n = self.exits = 0

    def on_write(self, eng, st, loc, val, ln):
        if loc[0] not in ("D", "I") and ("&", loc) != self.P:
            return
        self.n += 1
        p = lin(loc[1]) if loc[0] == "D" else lin(addr_of(loc[1])) + lin(loc[2]) if loc[0] == "I" else lin(self.P)
        d = p - lin(self.P) - lin(st.store[self.OUT])
        if not proves_zero(st, d):
            eng.violation(st, "bytes are not cleared one after the other", ln, key="clear: order")
        if val != ZERO:
            eng.violation(st, "memory is not cleared to zero", ln, key="clear: value")
        if not proves_ge0(st, lin(self.N) - lin(st.store[self.OUT]) - Lin({}, 1)):
            st.auto = "unbounded"
        st.store[self.OUT] = (lin(st.store[self.OUT]) + Lin({}, 1)).term()

    def on_call(self, eng, st, c):
        if c.name in ("explicit_bzero", "memset_explicit", "memset_s"):
            self.n += 1
            a = [eng.load(st, x) if isloc(x) else x for x in c.args]
            if proves_zero(st, lin(a[0]) - lin(self.P) - lin(st.store[self.OUT])):
                st.store[self.OUT] = (lin(st.store[self.OUT]) + lin(a[-1])).term()
            self.explicit = True
            return UNIT
        return None

    def on_exit(self, eng, st, kind, val):
        if kind in ("throw", "noreturn"):
            return
        self.exits += 1
        d = lin(st.store[self.OUT]) - lin(self.N)
        if not proves_zero(st, d) and not (st.auto is None and proves_ge0(st, d)):
            eng.violation(st, "not the whole region is cleared", key="clear: all")


def addr_of(l):
    return addr(l) if isloc(l) else l


@prop("S03", "clear-memory", floor=1)
def clear_memory(ctx):
    m = ctx.m
    g = [x for x in m.globals.values() if norm(x["n"]) == "cybozu::clear_memory"]
    ctx.need(g, "cybozu::clear_memory not found")
    fs = [f for f in m.funcs.values() if f.sn in ("clear_memory_", "clear_memory") and f.blocks and f.file.startswith("cybozu")]
    ctx.need(len(fs) == 1, "the function behind cybozu::clear_memory was not found")
    f = fs[0]
    r = Zero()
    r.explicit = False
    eng = Engine(m, r)
    st = eng.initial(f)
    r.P, r.N = [eng.load(st, st.top.env[p[0][1]]) for p in f.params]
    st.facts[r.N] = (0, INF, frozenset())
    st.store[r.OUT] = ZERO
    eng.run(st)
    ctx.engine(eng)
    ctx.need(r.exits and r.n, "clear_memory clears nothing")
    if not r.explicit:
        vol = [i for i in f.instrs() if i["k"] == "decl" and "volatile" in i.get("t", "")]
        volg = any("volatile" in x.get("t", "") for x in g)
        if not vol and not volg:
            ctx.report(f.loc, "the compiler may remove the stores of clear_memory", f.n, key="volatile")
    ctx.instance("clear_memory stores zero to each of the n bytes, in a way the compiler must keep")


class Given(Rule):
    depth = 6

    def __init__(self, flag):
        self.flag = flag
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls in (DYN, TMP)

    def keep_fact(self, eng, st, t):
        return False

    def on_call(self, eng, st, c):
        if c.ctor and c.func is not None and c.func.cls == DYN:
            if c.args and isloc(c.args[0]) and c.node.get("copy"):
                return None
            if len(c.args) == 1 and c.func.params and "dynbuf" in c.func.params[0][2]:
                return None
            self.n += 1
            v = eng.load(st, c.args[1]) if len(c.args) > 1 and isloc(c.args[1]) else c.args[1] if len(c.args) > 1 else ZERO
            if not self.good(eng, st, v):
                eng.violation(st, "a buffer for object data is created without regard to secure_erase", c.ln, key="object buffer not erased")
        return None

    def good(self, eng, st, v):
        return v == self.flag or v == ONE


@prop("S03", "object-buffers-erase", floor=4)
def object_buffers(ctx):
    m = ctx.m
    acc = m.one("yrmcds::config::secure_erase")
    ns = [x["fn"] for x in walk_members(acc)]
    ctx.need(len(set(ns)) == 1, "config::secure_erase reads no single member")
    flag = ("ld", ("F", ("G", "yrmcds::g_config"), ns[0]), 0)
    n = 0
    from rules.objects import OBJ
    for f in sorted([f for f in m.funcs.values() if f.cls == OBJ and f.blocks], key=lambda f: f.id):
        if not any(i["k"] == "ctor" and norm(i.get("cls") or "") == DYN for i in f.instrs()):
            continue
        r = Given(flag)
        eng = Engine(m, r)
        eng.run(eng.initial(f, this=TH, this_cls=OBJ))
        ctx.engine(eng)
        n += r.n
        ctx.instance("%s (%s): %d buffers take the secure_erase setting" % (norm(f.n), f.loc, r.n), max(1, r.n))
    ctx.need(n >= 1, "objects create no buffer")
