"""Responses (memcache text and binary, counter): the bytes each sender method puts on the wire."""
import re

from affine import *
from check import prop
from engine import *
from model import AnalysisError, norm
from rules.replication import place, strip_be, be_width
from rules import requests as RQ

SOCK = "cybozu::tcp_socket"
RESP, SK = ("O", "resp"), ("O", "sock")
DBG = 0


def lenlike(t):
    """length of a key or of some data"""
    return t[0] == "call" and len(t) == 5 and str(t[1]).split("::")[-1] in ("length", "size")


class Sent(Rule):
    """the state's automaton is the tuple of messages sent so far: (pieces, flush, closes)"""
    width = 600
    cond = False
    split_loops = True

    def __init__(self, m, sizes=(), opcode=None, bits16=()):
        self.m = m
        self.sizes = sizes          # lengths of data: below 4 GiB
        self.short = bits16         # lengths of keys and names: they fit 16 bits
        self.opcode = opcode
        self.out = []

    def opaque(self, eng, func, name):
        return func.cls == SOCK or func.cls in ("cybozu::dynbuf", "cybozu::hash_key") or name in ("cybozu::hton", "cybozu::dump_stack")

    def on_decide(self, eng, st, o, a, b):
        # keys are at most 250 bytes long (P01, P02)
        if o == "<" and isconst(a) and lenlike(b) and "hash_key" in b[1] and a[1] >= 250:
            return False
        return None

    def on_load(self, eng, st, l):
        d = lin(("&", l)) - lin(RQ.P)
        k = d.const()
        if k is None:
            return None
        if k == 1 and self.opcode is not None:
            return C(self.opcode)
        return RQ.fld(int(k), 1)

    def fits(self, v):
        """bits of an amount"""
        if v[0] == "ssize":
            return 16
        if v[0] == "vsize":
            return 32
        if lenlike(v):
            return 8 if "hash_key" in v[1] else 32
        if v in self.short:
            return 16
        if v in self.sizes:
            return 32
        if v[0] == "op" and v[1] == "+":
            a, b = self.fits(v[2]), self.fits(v[3])
            return None if a is None or b is None else max(a, b)       # of small amounts: no carry is assumed beyond 32 bits
        if isconst(v):
            return 0 if v[1] >= 0 else None
        return None

    def on_int_cast(self, eng, st, v, n):
        b = self.fits(v)
        t = INT_BITS.get(n.get("t", "").replace("const ", "")) or 0
        if b is not None and not isconst(v) and t >= max(b, 8) and (t >= 32 or v[0] != "op"):
            return v
        return None

    def put(self, eng, st, p, v, ln):
        base, off = place(p)
        eng.assign(st, ("I", base, C(off)), v, ln)

    def extent(self, v):
        """bytes a stored piece covers; None: not constant"""
        if v[0] == "be":
            return v[1]
        if v[0] == "mem":
            return v[2][1] if isconst(v[2]) else None
        if v[0] == "fill":
            return v[2][1] if isconst(v[2]) else None
        if v[0] == "fmt":
            return None
        return 1

    def on_write(self, eng, st, loc, v, ln):
        # what an earlier write put there is gone
        if loc[0] != "I" or not isconst(loc[2]):
            return
        o, n = loc[2][1], self.extent(v)
        for k, x in list(st.store.items()):
            if k == loc or k[0] != "I" or k[1] != loc[1] or not isconst(k[2]):
                continue
            q = k[2][1]
            if q > o and (n is None or q < o + n):
                del st.store[k]
            elif q < o:
                w = self.extent(x)
                if w is not None and w > 1 and q + w > o:
                    st.store[k] = ("undef", "partly overwritten")

    def on_call(self, eng, st, c):
        sn = c.name.split("::")[-1]
        if c.name == "cybozu::hton" and len(c.args) == 2:
            w = (INT_BITS.get(c.pt[0].replace("const ", "")) or 0) // 8
            self.put(eng, st, c.args[1], ("be", w, self.val(eng, st, c.args[0])), c.ln)
            return UNIT
        if sn == "memset" and len(c.args) == 3:
            base, off = place(c.args[0])
            n, v = self.val(eng, st, c.args[2]), self.val(eng, st, c.args[1])
            if isconst(n) and n[1] <= 512:
                for k in range(n[1]):
                    eng.assign(st, ("I", base, C(off + k)), v, c.ln)
            else:
                self.put(eng, st, c.args[0], ("fill", v, n), c.ln)
            return c.args[0]
        if sn in ("memcpy", "memmove", "copy_n") and len(c.args) == 3:
            d, s, n = c.args if sn != "copy_n" else (c.args[2], c.args[0], c.args[1])
            self.put(eng, st, d, ("mem", s, n), c.ln)
            return d
        if sn in ("snprintf", "__builtin_snprintf", "__snprintf_chk") and len(c.args) >= 3 and c.args[2][0] == "s":
            self.put(eng, st, c.args[0], ("fmt", c.args[1], c.args[2][1], tuple(c.args[3:]), tuple(self.argtypes(st, c)[3:])), c.ln)
            return ("sym", "printed", c.ln)
        if c.name.startswith(SOCK + "::") and sn in ("send", "sendv", "send_close", "sendv_close"):
            st.auto = (st.auto or ()) + ((self.pieces(eng, st, c, sn), ONE if sn.endswith("close") else c.args[-1], sn.endswith("close")),)
            return ONE
        return self.strings(eng, st, c, sn)

    # ---- strings, streams and vectors of bytes, as sequences of pieces
    def strval(self, eng, st, a):
        """pieces of a string value, or None"""
        v = self.val(eng, st, a) if a is not None else None
        if v is None:
            return None
        if isloc(a):
            w = st.store.get(a)
            v = w if w is not None else v
        if v[0] == "R":
            v = v[1]
        if v[0] == "cpy":
            v = v[1]
        if v[0] == "str":
            return v[1]
        if v[0] == "s":
            return (("lit", v[1]),) if v[1] else ()
        if v[0] == "&" and v[1][0] in ("G", "I") and self.text(place(v)[0]) is not None:
            b, o = place(v)
            return (("lit", self.text(b)[o:]),)
        return None

    def strings(self, eng, st, c, sn):
        ns = c.name
        if ns == "std::to_string" and len(c.args) == 1:
            return ("str", (("val", plain(self.val(eng, st, c.args[0]))),))
        if "basic_string" in ns or "basic_string" in (c.cls or ""):
            if c.node["k"] == "ctor" and c.args and len(c.args) <= 2:
                p = self.strval(eng, st, c.args[0])
                if p is None and isloc(c.args[0]):
                    p = (("val", plain(eng.load(st, c.args[0]))),)
                return ("str", p) if p is not None else None
            p = self.strval(eng, st, c.obj) if c.obj is not None else None
            if p is not None:
                if sn in ("size", "length") and not c.args:
                    return C(sum(len(x[1]) for x in p)) if all(x[0] == "lit" for x in p) else ("ssize", p)
                if sn in ("data", "c_str"):
                    return ("sdata", p)
                if sn in ("begin", "cbegin", "end", "cend"):
                    return ("siter", p, sn[-3:] == "end")
        if sn == "operator<<" or "ostream" in ns or "stringstream" in ns or "ostream" in (c.cls or "") or "stringstream" in (c.cls or ""):
            if sn == "operator<<" or c.op == "<<":
                a = ([c.obj] if c.obj is not None else []) + list(c.args)
                if len(a) == 2 and isloc(a[0]):
                    k = ("F", a[0], "<<")
                    x = self.strval(eng, st, a[1])
                    v = self.val(eng, st, a[1])
                    if x is None:
                        x = () if is_manip(v) or is_manip(a[1]) else (("lit", chr(v[1])),) if isconst(v) and self.argtypes(st, c)[-1:] == ["char"] else (("val", plain(v)),)
                    eng.assign(st, k, ("str", (st.store.get(k) or ("str", ()))[1] + x), c.ln)
                    return a[0]
            if sn == "str" and c.obj is not None:
                return st.store.get(("F", c.obj, "<<")) or ("str", ())
        if (c.cls or "").startswith("std::vector") or ns.startswith("std::vector"):
            if c.obj is not None and "char" in str(c.node.get("cls", "")) + str(c.node.get("f", "")):
                k = ("F", c.obj, "bytes")
                cur = (st.store.get(k) or ("str", ()))[1]
                if sn == "insert" and len(c.args) == 3:
                    a, b = [self.val(eng, st, x) for x in c.args[1:]]
                    add = None
                    if a[0] == "siter" and b[0] == "siter" and a[1] == b[1] and not a[2] and b[2]:
                        add = ((("str", a[1]), ("ssize", a[1])),) if not all(x[0] == "lit" for x in a[1]) else ((("lit", "".join(x[1] for x in a[1])), C(sum(len(x[1]) for x in a[1]))),)
                    else:
                        n = (lin(b) - lin(a)).const()
                        (ba, oa), (bb, ob) = place(a), place(b)
                        if ba == bb:
                            n = ob - oa
                        if n is not None and n > 0:
                            add = tuple(self.flat(eng, st, a, C(int(n))))
                    if add is None:
                        return None
                    eng.assign(st, k, ("str", cur + add), c.ln)
                    return ("sym", "pos", c.ln)
                if sn in ("end", "cend"):
                    return ("sym", "pos", c.ln)
                if k in st.store:
                    if sn == "size":
                        return ("vsize", cur)
                    if sn == "data":
                        return ("vdata", cur)
        return None

    def argtypes(self, st, c):
        out = []
        for a in c.node.get("a", []):
            e = a
            while isinstance(e, dict) and "r" in e and len(e) == 1:
                e = st.top.f.elems.get(e["r"], {})
            out.append(e.get("t", ""))
        return out

    def val(self, eng, st, a):
        v = eng.load(st, a) if isloc(a) else a
        return v[1] if v[0] == "R" else v

    def pieces(self, eng, st, c, sn):
        segs = []
        if sn.startswith("sendv"):
            n = c.args[1]
            if not isconst(n):
                raise AnalysisError("%s: number of segments not constant" % c.where)
            if n[1] > self.m.const(SOCK + "::MAX_IOVCNT"):
                eng.violation(st, "more segments are sent at once than the socket takes", c.ln, key="too many segments")
            base, off = place(c.args[0])
            fs = self.m.record(SOCK + "::iovec")["fields"]
            pf = [f["n"] for f in fs if "*" in f["t"]][0]
            lf = [f["n"] for f in fs if f["n"] != pf][0]
            for k in range(n[1]):
                e = ("I", base, C(off + k))
                segs.append((eng.load(st, ("F", e, pf)), eng.load(st, ("F", e, lf))))
        else:
            segs.append((c.args[0], c.args[1]))
        out = []
        for p, n in segs:
            out += self.flat(eng, st, p, n)
        return tuple(out)

    def text(self, base):
        """content of a constant array of characters"""
        if base[0] == "D" and base[1][0] == "s":
            return base[1][1]
        if base[0] == "G":
            for g in self.m.globals.values():
                if g["n"] == base[1] and g.get("init", {}).get("k") == "str":
                    return g["init"]["v"]
        return None

    def flat(self, eng, st, p, n):
        """(value, length) pieces of n bytes at p"""
        if p[0] == "sdata":
            if all(x[0] == "lit" for x in p[1]):
                p = ("s", "".join(x[1] for x in p[1]))
            else:
                return [(("str", p[1]), n)]
        if p[0] == "vdata":
            return [(("vec", p[1]), n)]
        base, off = place(p)
        s = self.text(base)
        if s is not None:
            if not isconst(n) or off + n[1] > len(s) + 1:
                return [(("undef", "beyond a string"), n)]
            return [(("lit", (s + "\0")[off:off + n[1]]), C(n[1]))] if n[1] else []
        store = {}
        for k, v in st.store.items():
            if k[0] == "I" and k[1] == base and isconst(k[2]):
                store[k[2][1]] = v
        if not store and base[0] != "L":
            return [(("mem", p), n)]
        fmt = store.get(off)
        if fmt is not None and fmt[0] == "fmt":
            return [(fmt, n)]
        out, pos, end = [], Lin({}, off), Lin({}, off) + lin(n)
        while True:
            d = (end - pos).const()
            if d is not None and d <= 0:
                break
            k = pos.const()
            v = store.get(int(k)) if k is not None else None
            if v is None:
                out.append((("undef", "never set"), C(0)))
                break
            if v[0] == "be":
                w = Lin({}, v[1])
                out.append((v, C(v[1])))
            elif v[0] == "mem":
                w = lin(v[2])
                out += self.flat(eng, st, v[1], v[2])
            elif v[0] in ("fill", "undef"):
                out.append((("undef", "not determined"), C(0)))
                break
            else:
                w = Lin({}, 1)
                out.append((v, ONE))
            pos = pos + w
            d = (end - pos).const()
            if d is not None and d < 0:
                out.append((("undef", "cut"), C(0)))
            if len(out) > 600:
                break
        return request_bytes(out)

    def on_exit(self, eng, st, kind, v):
        self.out.append((kind, st))


def request_bytes(ps):
    """consecutive bytes of the request, copied one by one, are a copied range"""
    names = {RQ.fld(k, 1): k for k in range(24)}
    out = []
    for v, n in ps:
        k = names.get(unconv(v)) if isinstance(v, tuple) and n == ONE else None
        if k is None:
            out.append((v, n))
        elif out and out[-1][0][0] == "req" and out[-1][0][1] + out[-1][1][1] == k:
            out[-1] = (out[-1][0], C(out[-1][1][1] + 1))
        else:
            out.append((("req", k), ONE))
    return [((("mem", lin(("op", "+", RQ.P, C(v[1]))).term()), n) if n[1] > 1 else (RQ.fld(v[1], 1), n)) if v[0] == "req" else (v, n) for v, n in out]


def plain(v):
    """a value without the places it was computed at"""
    v = unconv(v)
    if v[0] == "R":
        return plain(v[1])
    if v[0] == "call" and len(v) == 5:
        if v[1] == "atomic.load":
            return ("load", v[2])
        return ("call", v[1], v[2], tuple(plain(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[3]))
    if v[0] == "ld":
        return v[:2]
    return v


def is_manip(v):
    return any_sub(v, lambda t: t[0] == "call" and str(t[1]).split("::")[-1] in ("setfill", "setw", "setprecision") or t[0] == "fn")


def unconv(v):
    while v[0] == "op" and v[1] in ("conv", "narrow", "signed"):
        v = v[2]
    return v


def as_int(v, w):
    """big-endian value of one piece of w bytes"""
    if v[0][0] == "be" and v[0][1] == w:
        return v[0][2]
    return None


def take(ps, n):
    """the pieces that make up the first n bytes, and the rest"""
    out, got, i = [], 0, 0
    while got < n and i < len(ps):
        v, l = ps[i]
        if not isconst(l):
            break
        if v[0] == "lit" and got + l[1] > n:
            return None, None
        out.append((got, v, l[1]))
        got += l[1]
        i += 1
    return (out, ps[i:]) if got == n else (None, None)


def number(hd, off, w):
    """integer in w bytes of the header at an offset: a term, or None"""
    for o, v, l in hd:
        if o == off and l == w:
            if v[0] == "be":
                return v[2]
            if w == 1:
                return v
    by = [v for k in range(w) for o, v, l in hd if o == off + k and l == 1]
    if len(by) == w and all(isconst(unconv(b)) for b in by):
        x = 0
        for b in by:
            x = x << 8 | unconv(b)[1] & 0xff
        return C(x)
    return None


def total(ps):
    r = Lin({}, 0)
    for v, n in ps:
        r = r + lin(n)
    return r


def same(v, x):
    return v is not None and (unconv(v) == x or (lin(unconv(v)) - lin(x)).zero() or isconst(unconv(v)) and isconst(x) and unconv(v)[1] & 0xff == x[1] & 0xff and 0 <= x[1] < 256)


class Check:
    """compares what was sent with what the protocol wants"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.n = 0

    def want(self, cond, txt, key=None):
        self.n += 1
        if not cond:
            self.ctx.report(self.f.loc, "%s: %s" % (norm(self.f.n).replace("yrmcds::", ""), txt), norm(self.f.n), key="%s/%d: %s" % (norm(self.f.n), len(self.f.params), key or txt))
        return cond

    def memcache(self, ps, opcode, opaque, status=0, cas=ZERO, key=None, ext=None, data=None):
        """one binary response: ext, key and data are lists of pieces; None: any"""
        hd, rest = take(ps, 24)
        if not self.want(hd is not None, "the header is not 24 bytes that are all set"):
            return
        n = lambda o, w: number(hd, o, w)
        self.want(same(n(0, 1), C(0x81)), "the magic is not 0x81")
        self.want(n(1, 1) is not None and unconv(n(1, 1)) == opcode, "the opcode is not the one of the request")
        self.want(n(4, 1) is not None and n(5, 1) is not None and unconv(n(5, 1)) == ZERO, "the data type is not 0")
        self.want(n(6, 2) is not None and unconv(n(6, 2)) == C(status) if isinstance(status, int) else unconv(n(6, 2)) == status, "the status is wrong")
        self.want(self.piece(hd, 12, 4) == [(opaque, C(4))], "the opaque is not the one of the request")
        self.want(cas is None or n(16, 8) is not None and (lin(unconv(n(16, 8))) - lin(cas)).zero(), "the CAS value is wrong")
        kl, el, tl = n(2, 2), n(4, 1), n(8, 4)
        if not self.want(None not in (kl, el, tl), "a length in the header is not set"):
            return
        self.want((lin(unconv(tl)) - total(rest)).zero(), "the total length is not that of what follows the header")
        want = (ext or []) + (key or []) + (data or [])
        self.want((lin(unconv(el)) - total(ext or [])).zero(), "the length of the extras is wrong")
        self.want((lin(unconv(kl)) - total(key or [])).zero(), "the length of the key is wrong")
        if data != "any":
            self.body(rest, want)

    def piece(self, hd, off, w):
        return [(v, C(l)) for o, v, l in hd if off <= o < off + w]

    def body(self, ps, want):
        ps, want = merge(ps), merge(want)
        ok = len(ps) == len(want) and all(equal(a, b) for a, b in zip(ps, want))
        if DBG and not ok:
            print("GOT ", str(ps)[:600], "\nWANT", str(want)[:600])
        self.want(ok, "extras, key and data are not what the response is to carry, in this order", "body")


def merge(ps):
    out = []
    for v, n in ps:
        if n == ZERO:
            continue
        if v[0] == "lit" and out and out[-1][0][0] == "lit":
            out[-1] = (("lit", out[-1][0][1] + v[1]), C(out[-1][1][1] + n[1]))
        elif isconst(v) and n == ONE:
            ch = ("lit", chr(v[1] & 0xff))
            if out and out[-1][0][0] == "lit":
                out[-1] = (("lit", out[-1][0][1] + ch[1]), C(out[-1][1][1] + 1))
            else:
                out.append((ch, ONE))
        else:
            out.append((v, n))
    return out


def equal(a, b):
    if not (lin(unconv(a[1])) - lin(unconv(b[1]))).zero() and a[0][0] != "fmt":
        return False
    x, y = a[0], b[0]
    if x[0] == "be" and y[0] == "be":
        return x[1] == y[1] and (lin(unconv(x[2])) - lin(unconv(y[2]))).zero()
    if x[0] == "fmt" and y[0] == "fmt":
        return a[1][0] == "sym" and a[1][1] == "printed" and printf(x) == y[2:]
    return x == y


def printf(v):
    """("fmt", size, format, args, types) -> (text with one %u per unsigned number, numbers), or None"""
    _, size, fmt, args, types = v
    out, i, k, need = "", 0, 0, 1
    vals = []
    for mt in re.finditer(r"%(%|(?:ll|l|j|z)?u|[^%])|[^%]", fmt):
        s = mt.group(0)
        if s[0] != "%":
            out += s
            need += 1
            continue
        if s == "%%":
            out += "%"
            need += 1
            continue
        if not s.endswith("u") or k >= len(args):
            return None
        bits = {"": 32, "l": 64, "ll": 64, "j": 64, "z": 64}[s[1:-1]]
        t = types[k].replace("const ", "")
        if INT_BITS.get(t) != bits or not t.startswith("unsigned"):
            return None
        out += "%u"
        need += 20 if bits == 64 else 10
        vals.append(unconv(args[k]))
        k += 1
    if k != len(args) or not isconst(size) or size[1] < need:
        return None
    return (out, tuple(vals))


# --------------------------------------------------------------------------- running a sender
MC = "yrmcds::memcache::"
STATUS = {"NotFound": 1, "Exists": 2, "TooLargeValue": 3, "Invalid": 4, "NotStored": 5, "NonNumeric": 6, "Locked": 0x10, "NotLocked": 0x11,
          "UnknownCommand": 0x81, "OutOfMemory": 0x82}
CSTATUS = {"NotFound": 1, "Invalid": 4, "ResourceNotAvailable": 0x21, "NotAcquired": 0x22, "UnknownCommand": 0x81, "OutOfMemory": 0x82}


def method(m, cls, name, n=None):
    fs = [f for f in m.funcs.values() if f.cls == cls and f.sn == name and not f.lambda_ and (n is None or len(f.params) == n)]
    if len(fs) != 1 or not fs[0].blocks:
        raise AnalysisError("%s::%s was not found" % (cls, name))
    return fs[0]


def parsed(m, which, opcode):
    """a state in which a complete request with this opcode was parsed"""
    if which == "memcache":
        names = {v: n for n, v in RQ.OPCODES.items()}
        f = [g for g in m.funcs.values() if g.cls == RQ.REQ and g.ctor and g.blocks and len(g.params) == 2]
        r = RQ.Binary(m, opcode, names.get(opcode), m.enum_map(RQ.B + "binary_command"), m.enum_map(RQ.B + "binary_status"), m.enum_map(RQ.B + "stats_t"),
                      m.const("yrmcds::MAX_REQUEST_LENGTH"), m.const("yrmcds::MAX_KEY_LENGTH"))
        r.base = r.base + [lin(RQ.L) - Lin({}, 1), lin(RQ.P) - Lin({}, 1)]
    else:
        names = {v: n for n, v in RQ.CODES.items()}
        f = [g for g in m.funcs.values() if g.cls == RQ.CREQ and g.ctor and g.blocks and len(g.params) == 2]
        r = RQ.Counter(m, opcode, names.get(opcode), m.enum_map(RQ.CN + "command"), m.enum_map(RQ.CN + "status"))
    if len(f) != 1:
        raise AnalysisError("the request parser was not found")
    r.name = "P04"
    out = []

    def on_exit(eng, st, kind, v):
        if kind == "return" and not r.impossible(st) and not r.zero(st, lin(RQ.got(eng, r, st, r.acc["length"]))):
            out.append(st)
    r.on_exit = on_exit
    r.bad = lambda *a, **k: None
    e = Engine(m, r)
    e.run(e.initial(f[0], this=RQ.TH, args=[RQ.P, RQ.L], auto=frozenset()))
    if not out:
        raise AnalysisError("no path of the parser completes a request")
    return out


def variety(m, which, sts):
    """one state for each combination of the small constants in the request object"""
    out = {}
    for st in sts:
        k = frozenset((l, v) for l, v in st.store.items() if l[0] == "F" and l[1] == RQ.TH and isconst(v))
        out.setdefault(k, st)
    return list(out.values())


def sender(m, cls, store, opcode=None):
    """the store after constructing the response object for the request"""
    f = [g for g in m.funcs.values() if g.cls == cls and g.ctor and g.blocks and len(g.params) in (1, 2) and SOCK in g.params[0][2]]
    if len(f) != 1:
        raise AnalysisError("the constructor of %s was not found" % cls)
    r = Sent(m, opcode=opcode)
    e = Engine(m, r)
    st = e.initial(f[0], this=RESP, args=[SK] + ([RQ.TH] if len(f[0].params) == 2 else []), auto=())
    st.store.update(store)
    e.run(st)
    if len(r.out) != 1:
        raise AnalysisError("the constructor of %s is not straight" % cls)
    return dict(r.out[0][1].store)


def send(ctx, m, f, store, args=None, opcode=None, sizes=(), short=(), throws=False):
    """the message lists a sender method can send, one per path"""
    r = Sent(m, sizes=sizes, bits16=short, opcode=opcode)
    r.name = "P04"
    e = Engine(m, r)
    st = e.initial(f, this=RESP, args=args, auto=())
    st.store.update(store)
    e.run(st)
    ctx.engine(e)
    ctx.need(r.out, "no path of %s ends" % f.n)
    bad = [k for k, s in r.out if k != "return"]
    if bad and not throws:
        ctx.report(f.loc, "%s ends with an exception instead of a response" % norm(f.n), norm(f.n), key="%s: throws" % norm(f.n))
    ctx.instance("%s/%d: %d paths" % (norm(f.n), len(f.params), len(r.out)))
    return [s.auto or () for k, s in r.out if k == "return"]


def arg(n):
    return ("ld", ("O", n), 0)


def one(ck, sent, close=False, flush=ONE):
    """exactly one message on every path; yields its pieces"""
    ck.want(sent, "nothing is ever sent")
    for msgs in sent:
        if ck.want(len(msgs) >= 1, "nothing is sent on a path"):
            ps, fl, cl = msgs[-1]
            ck.want(not any(x[2] for x in msgs[:-1]), "the connection is closed in the middle of a response")
            ps = [x for mg in msgs for x in mg[0]]
            ck.want(unconv(fl) == flush, "the response is not flushed as wanted" if flush != ZERO else "a response that others follow is flushed on its own")
            ck.want(cl == close, "the connection is not closed after the last response" if close else "the connection is closed")
            yield list(ps)


def lit(s):
    return [(("lit", s), C(len(s)))] if s else []


TEXTS = {"error": "ERROR", "ok": "OK", "end": "END", "stored": "STORED", "not_stored": "NOT_STORED", "exists": "EXISTS", "touched": "TOUCHED",
         "deleted": "DELETED", "not_found": "NOT_FOUND", "locked": "LOCKED"}


@prop("P04", "text-responses", floor=14)
def text_responses(ctx):
    """every sender of the text protocol sends its line, VALUE blocks with key, flags, size, CAS and data, the version, and flushes what ends a response"""
    m = ctx.m
    cls = MC + "text_response"
    base = sender(m, cls, {})
    for name, s in TEXTS.items():
        f = method(m, cls, name)
        ck = Check(ctx, f)
        for ps in one(ck, send(ctx, m, f, base)):
            ck.body(ps, lit(s + "\r\n"))
    f = method(m, cls, "version")
    ck = Check(ctx, f)
    for ps in one(ck, send(ctx, m, f, base)):
        ps = merge(ps)
        ck.want(len(ps) == 1 and ps[0][0][0] == "lit" and re.fullmatch(r"VERSION [^\r\n]+\r\n", ps[0][0][1]), "not VERSION, a version and a line end")
    f = method(m, cls, "send")
    ck = Check(ctx, f)
    for ps in one(ck, send(ctx, m, f, base, args=[("sym", "p", 0), ("sym", "n", 0), ("sym", "fl", 0)]), flush=("sym", "fl", 0)):
        ck.body(ps, [(("mem", ("sym", "p", 0)), ("sym", "n", 0))])
    K, D = ("O", "k"), ("O", "d")
    kp, kn = ("call", "cybozu::hash_key::data", K, (), 0), ("call", "cybozu::hash_key::length", K, (), 0)
    dp, dn = ("call", "cybozu::dynbuf::data", D, (), 0), ("call", "cybozu::dynbuf::size", D, (), 0)
    F, U = ("sym", "flags", 0), ("sym", "cas", 0)
    for n, fmt, vals in ((1, None, ()), (3, " %u %u\r\n", (F, dn)), (4, " %u %u %u\r\n", (F, dn, U))):
        f = method(m, cls, "value", n)
        ck = Check(ctx, f)
        # the key is passed by hash_key, flags and CAS by value, the data by dynbuf
        ints = [F, U]
        args = [K if "hash_key" in t else D if "dynbuf" in t else ints.pop(0) for _, _, t in f.params]
        want = lit("VALUE ") + [(("mem", kp), kn)]
        want += lit("\r\n") if fmt is None else [(("fmt", None, fmt, vals), ONE), (("mem", dp), dn)] + lit("\r\n")
        for ps in one(ck, send(ctx, m, f, base, args=args), flush=ZERO):
            ps, want2 = merge(ps), merge(want)
            ok = len(ps) == len(want2) and all(eq_text(a, b) for a, b in zip(ps, want2))
            if DBG and not ok:
                print("GOT ", str(ps)[:900], "\nWANT", str(want2)[:900])
            ck.want(ok, "not VALUE, key%s" % (", flags, size, CAS and data" if n == 4 else ", flags, size and data" if n == 3 else ""), "value")


def eq_text(a, b):
    if b[0][0] == "fmt":
        return a[0][0] == "fmt" and a[1][0] == "sym" and a[1][1] == "printed" and printf(a[0]) == (b[0][2], b[0][3])
    return equal(a, b)


@prop("P04", "memcache-binary-responses", floor=20)
def binary_responses(ctx):
    """every sender of the binary protocol: header and body exactly as the protocol wants them, opcode and opaque of the request (every opcode)"""
    m = ctx.m
    cls = MC + "binary_response"
    en = m.enum_map(MC + "binary_status")
    for n, v in list(STATUS.items()) + [("OK", 0)]:
        if en.get(n) != v:
            ctx.report("src/memcache/memcache.hpp", "the status %s is not 0x%02x" % (n, v), MC + "binary_status", key="status %s" % n)
    opq = ("mem", ("op", "+", RQ.P, C(12)))
    KP, KN = ("sym", "kp", 0), ("sym", "kn", 0)
    F, U, V = ("sym", "flags", 0), ("sym", "cas", 0), ("sym", "value", 0)
    D = ("O", "d")
    dp, dn = ("call", "cybozu::dynbuf::data", D, (), 0), ("call", "cybozu::dynbuf::size", D, (), 0)
    sts = parsed(m, "memcache", 0)
    ctx.need(len(sts) >= 2, "hardly any path of the parser completes a request")
    base = sender(m, cls, sts[0].store, 0)
    op0 = ZERO

    def run(name, args=None, n=None, **k):
        f = method(m, cls, name, n)
        return Check(ctx, f), send(ctx, m, f, base, args=args, opcode=0, short=(KN,))
    for name, v in STATUS.items():
        ck, s = run("error", [C(v)])
        for ps in one(ck, s):
            hd, rest = take(ps, 24)
            ck.memcache(ps, op0, opq, status=v, data=rest or [])
            ck.want(rest and all(x[0][0] == "lit" and x[0][1].isprintable() for x in rest), "the error %s carries no readable message" % name)
    ck, s = run("success")
    for ps in one(ck, s):
        ck.memcache(ps, op0, opq)
    ck, s = run("quit")
    for ps in one(ck, s, close=True):
        ck.memcache(ps, op0, opq)
    ck, s = run("set", [U])
    for ps in one(ck, s):
        ck.memcache(ps, op0, opq, cas=U)
    ck, s = run("key", [KP, KN])
    for ps in one(ck, s, flush=ZERO):
        ck.memcache(ps, op0, opq, key=[(("mem", KP), KN)])
    f = method(m, cls, "incdec")
    ck, s = run("incdec", [V, U])
    for ps in one(ck, s):
        ck.memcache(ps, op0, opq, cas=U, data=[(("be", 8, V), C(8))])
    ck, s = run("version")
    for ps in one(ck, s):
        hd, rest = take(ps, 24)
        ck.memcache(ps, op0, opq, data=rest or [])
        ck.want(rest and all(x[0][0] == "lit" for x in rest), "no version is sent")
    fl = ("sym", "fl", 0)
    for with_key in (False, True):
        f = method(m, cls, "get")
        ctx.need(len(f.params) == 6, "parameters of binary_response::get")
        ck, s = run("get", [F, D, U, fl, ("&", ("O", "kp")) if with_key else ZERO, KN if with_key else ZERO])
        for ps in one(ck, s, flush=fl):
            ck.memcache(ps, op0, opq, cas=U, ext=[(("be", 4, F), C(4))], key=[(("mem", ("&", ("O", "kp"))), KN)] if with_key else [], data=[(("mem", dp), dn)])

    def echo(ctx, op):
        for st in variety(m, "memcache", parsed(m, "memcache", op)):
            b = sender(m, cls, st.store, op)
            f = method(m, cls, "error")
            ck = Check(ctx, f)
            for ps in one(ck, send(ctx, m, f, b, args=[C(STATUS["Invalid"])], opcode=op)):
                hd, rest = take(ps, 24)
                v = number(hd or [], 1, 1)
                ck.want(v is not None and isconst(unconv(v)) and unconv(v)[1] & 0xff == op, "a response does not carry the opcode of the request",
                        "opcode of %s requests" % ("known" if op in RQ.OPCODES.values() else "unknown"))
                ck.want(ck.piece(hd or [], 12, 4) == [(opq, C(4))], "the opaque is not the one of the request")
    ctx.parallel(echo, list(range(256)))


@prop("P04", "counter-responses", floor=10)
def counter_responses(ctx):
    """the same for the counter protocol"""
    m = ctx.m
    cls = RQ.CN + "response"
    en = m.enum_map(RQ.CN + "status")
    for n, v in list(CSTATUS.items()) + [("OK", 0)]:
        if en.get(n) != v:
            ctx.report("src/counter/counter.hpp", "the status %s is not 0x%02x" % (n, v), RQ.CN + "status", key="counter status %s" % n)
    opq = (("mem", ("op", "+", RQ.P, C(8))), C(4))
    V, W, NP, NN = ("sym", "v", 0), ("sym", "w", 0), ("sym", "np", 0), ("sym", "nn", 0)

    def judge(ck, ps, op, status, body):
        hd, rest = take(ps, 12)
        if not ck.want(hd is not None, "the header is not 12 bytes that are all set"):
            return
        n = lambda o, w: number(hd, o, w)
        ck.want(same(n(0, 1), C(0x91)), "the magic is not 0x91")
        ck.want(n(1, 1) is not None and isconst(unconv(n(1, 1))) and unconv(n(1, 1))[1] & 0xff == op, "the opcode is not the one of the request",
                "opcode of %s requests" % ("known" if op in RQ.CODES.values() else "unknown"))
        ck.want(n(2, 1) is not None and same(n(2, 1), C(status)), "the status is wrong")
        ck.want(n(3, 1) is not None and unconv(n(3, 1)) == ZERO, "the reserved byte is not 0")
        ck.want(n(4, 4) is not None and (lin(unconv(n(4, 4))) - total(rest)).zero(), "the body length is not that of what follows the header")
        ck.want(ck.piece(hd, 8, 4) == [opq], "the opaque is not the one of the request")
        if body is not None:
            ck.body(rest, body)
        return rest

    base = sender(m, cls, parsed(m, "counter", 0)[0].store, 0)

    def run(name, args=None):
        f = method(m, cls, name)
        return Check(ctx, f), send(ctx, m, f, base, args=args, opcode=0, short=(NN,))
    for name, v in CSTATUS.items():
        ck, s = run("error", [C(v)])
        for ps in one(ck, s):
            rest = judge(ck, ps, 0, v, None)
            ck.want(rest and all(x[0][0] == "lit" and x[0][1].isprintable() for x in rest), "the error %s carries no readable message" % name)
    ck, s = run("success")
    for ps in one(ck, s):
        judge(ck, ps, 0, 0, [])
    for name in ("get", "acquire"):
        ck, s = run(name, [V])
        for ps in one(ck, s):
            judge(ck, ps, 0, 0, [(("be", 4, V), C(4))])
    f = method(m, cls, "dump")
    ctx.need(len(f.params) == 4, "parameters of counter::response::dump")
    ck, s = run("dump", [NP, NN, V, W])
    for ps in one(ck, s, flush=ZERO):
        judge(ck, ps, 0, 0, [(("be", 4, V), C(4)), (("be", 4, W), C(4)), (("be", 2, NN), C(2)), (("mem", NP), NN)])
    ck, s = run("stats")
    ops = m.enum_map(RQ.CN + "command")
    for ps in one(ck, s):
        rest = judge(ck, ps, 0, 0, None)
        if rest is None:
            continue
        if len(rest) == 1 and rest[0][0][0] == "vec":
            rest = list(rest[0][0][1])
        items = {}
        while rest:
            a, b = rest[0], rest[1] if len(rest) > 1 else (("undef",), ZERO)
            if len(rest) < 4 or as_int(a, 2) is None or as_int(b, 2) is None:
                break
            (nm, ln), (v, vn) = rest[2], rest[3]
            if nm[0] != "lit" or unconv(as_int(a, 2)) != ln or unconv(as_int(b, 2)) != vn:
                break
            items[nm[1]] = v[1] if v[0] == "str" else v
            rest = rest[4:]
        ck.want(not rest and items, "the statistics are not pairs of lengths, name and value")
        for name, v in items.items():
            src = v[0][1] if len(v) == 1 and v[0][0] == "val" else None
            g = ("G", RQ.CN + "g_stats")
            if name.startswith("command:"):
                n = {k.lower(): x for k, x in ops.items()}.get(name[8:])
                ck.want(src == ("load", ("I", ("F", g, "ops"), C(n if n is not None else -1))), "the statistics of %s are not those of the command" % name)
            else:
                ck.want(src == ("load", ("F", g, name)), "the value of %s is not that statistic" % name)

    def echo(ctx, op):
        for st in variety(m, "counter", parsed(m, "counter", op)):
            b = sender(m, cls, st.store, op)
            f = method(m, cls, "error")
            ck = Check(ctx, f)
            for ps in one(ck, send(ctx, m, f, b, args=[C(4)], opcode=op)):
                judge(ck, ps, op, 4, None)
    ctx.parallel(echo, list(range(256)))


GENERAL = {"curr_connections": "curr_connections", "total_connections": "total_connections", "curr_items": "objects", "total_items": "total_objects",
           "get_hits": "get_hits", "get_misses": "get_misses", "cas_hits": "cas_hits", "cas_misses": "cas_misses", "cas_badval": "cas_badval",
           "bytes": "used_memory", "gc_count": "gc_count", "last_expirations": "last_expirations", "last_evictions": "last_evictions",
           "evictions": "total_evictions", "last_gc_elapsed": "last_gc_elapsed", "total_gc_elapsed": "total_gc_elapsed",
           "items:1:number": "objects", "items:1:age": "oldest_age", "items:1:evicted": "total_evictions", "items:1:conflicts": "conflicts",
           "items:1:largest": "largest_object_size", "1024": "objects_under_1k", "4096": "objects_under_4k", "16384": "objects_under_16k",
           "65536": "objects_under_64k", "262144": "objects_under_256k", "1048576": "objects_under_1m", "4194304": "objects_under_4m", "huge": "objects_huge"}


def gist(v):
    """a value as far as it can be compared across functions"""
    if any(x[0] not in ("val", "lit") or any_sub(x, lambda t: t[0] in ("T", "call")) for x in v) or not v:
        return "?"

    def go(t):
        if isinstance(t, tuple):
            return ("L",) if t and t[0] == "L" else tuple(go(x) for x in t)
        return t
    return go(v)


def lines(pieces):
    """text statistics -> [(name, value pieces)], or None"""
    out, cur = [], []
    for p in pieces:
        if p[0] != "lit":
            cur.append(p)
            continue
        parts = p[1].split("\r\n")
        for k, x in enumerate(parts):
            if x:
                cur.append(("lit", x))
            if k < len(parts) - 1:
                out.append(cur)
                cur = []
    if cur:
        return None
    res = []
    for l in out:
        head = ""
        while l and l[0][0] == "lit":
            head += l[0][1]
            l = l[1:]
        mt = re.fullmatch(r"STAT ([^ ]+) (.*)", head)
        if not mt:
            return None
        res.append((mt.group(1), tuple(([("lit", mt.group(2))] if mt.group(2) else []) + l)))
    return res


@prop("P04", "statistics", floor=8)
def statistics(ctx):
    """both protocols report the same statistics, each name with the value of its own counter; text as STAT lines, binary as one response per
    pair and an empty success at the end"""
    m = ctx.m
    tcls, bcls = MC + "text_response", MC + "binary_response"
    tb = sender(m, tcls, {})
    bb = sender(m, bcls, parsed(m, "memcache", 0x10)[0].store, 0x10)
    opq = ("mem", ("op", "+", RQ.P, C(12)))
    ops = {"text:": ("text_ops", {k.lower(): v for k, v in m.enum_map(MC + "text_command").items()}),
           "binary:": ("bin_ops", m.enum_map(MC + "binary_command"))}
    for kind in ("settings", "items", "sizes", "ops", "general"):
        seen = {"text": {}, "binary": {}}
        tf, bf = method(m, tcls, "stats_" + kind), method(m, bcls, "stats_" + kind)
        N = ("sym", "slaves", 0)
        ck = Check(ctx, tf)
        for msgs in send(ctx, m, tf, tb, args=[N] if tf.params else None, throws=True):
            allp, good = [], True
            for ps, fl, cl in msgs:
                ck.want(not cl, "the connection is closed")
                for v, n in ps:
                    if v[0] == "str" and n == ("ssize", v[1]):
                        allp += list(v[1])
                    elif v[0] == "lit":
                        allp.append(v)
                    else:
                        good = False
            ls = lines(allp) if good else None
            if ck.want(ls, "the statistics are not STAT lines"):
                for n, v in ls:
                    seen["text"].setdefault(n, set()).add(v)
        ck = Check(ctx, bf)
        for msgs in send(ctx, m, bf, bb, args=[N] if bf.params else None, opcode=0x10, throws=True):
            if not ck.want(msgs and unconv(msgs[-1][1]) == ONE, "the last response is not flushed"):
                continue
            for k, (ps, fl, cl) in enumerate(msgs):
                ck.want(not cl, "the connection is closed")
                ps = list(ps)
                hd, rest = take(ps, 24)
                if k == len(msgs) - 1:
                    ck.memcache(ps, C(0x10), opq)
                    continue
                kl = number(hd or [], 2, 2)
                if not ck.want(rest and rest[0][0][0] == "lit" and kl is not None, "a statistic without a name"):
                    continue
                ck.memcache(ps, C(0x10), opq, key=rest[:1], data=rest[1:])
                v = ()
                for x, n in rest[1:]:
                    v += x[1] if x[0] == "str" else (x,)
                seen["binary"].setdefault(rest[0][0][1], set()).add(v)
        ck = Check(ctx, bf)
        for n in set(seen["text"]) | set(seen["binary"]):
            a, b = seen["text"].get(n), seen["binary"].get(n)
            ck.want(a is not None and b is not None and ({gist(x) for x in a} == {gist(x) for x in b} or "?" in {gist(x) for x in a | b}), "the statistic %s is not the same in the text and in the binary protocol" % n)
            if DBG and a != b:
                print(n, str(a)[:200], str(b)[:200])
        g = ("G", MC + "g_stats")
        for proto, d in seen.items():
            ck = Check(ctx, tf if proto == "text" else bf)
            for n, vs in d.items():
                src = [v[0][1] if len(v) == 1 and v[0][0] == "val" else None for v in vs]
                if kind != "settings" and n in GENERAL:
                    ck.want(src == [("load", ("F", g, GENERAL[n]))], "the value of %s is not that statistic" % n)
                for pre, (field, en) in ops.items():
                    if n.startswith(pre):
                        ck.want(src == [("load", ("I", ("F", g, field), C(en.get(n[len(pre):], -1))))], "the value of %s is not the count of that command" % n)
            ctx.instance("%s statistics of %s" % (kind, proto), len(d))


# --------------------------------------------------------------------------- what the handlers put into responses
from rules.handlers import HandlerRule, per_command, base_cmd, OBJ, BREQ, TREQ
WITH_KEY = {"GetK", "GetKQ", "GaTK", "GaTKQ", "LaGK", "LaGKQ"}


class Carry(HandlerRule):
    """a response that carries something carries the addressed object's own, current values"""

    def __init__(self, info, *a):
        HandlerRule.__init__(self, info, *a)
        self.flags_f = info.getter_field(OBJ, "flags")
        self.initial_f = info.getter_field(BREQ, "initial")
        self.value_f = info.getter_field(BREQ if self.proto == "binary" else TREQ, "value")
        self.helper = Sent(self.m)

    def field(self, eng, st, obj, f):
        return eng.load(st, ("F", obj, f))

    def data_of(self, eng, st, d):
        """the object whose data() this is"""
        out = []
        for t in (d, eng.load(st, d) if isloc(d) else d):
            any_sub(t, lambda x: x[0] == "call" and len(x) == 5 and str(x[1]) == OBJ + "::data" and out.append(x[2]) is not None)
        return out[0] if out else None

    def item(self, obj):
        return obj[1] if obj[0] == "F" else None

    def is_key(self, eng, st, p, n, obj):
        """pointer and length of the object's own key, or of the key of the request"""
        def src(t):
            if obj is not None and any_sub(t, lambda x: x[0] == "F" and x[1] == self.item(obj) and x != obj):
                return "item"
            if any_sub(t, lambda x: x == self.cmdloc):
                return "request"
            return None
        a, b = src(p), src(n)
        return a is not None and a == b and p != n

    def num(self, eng, st, c, v, what):
        v = unconv(v)
        verb = {"I": "incr", "D": "decr"}.get(self.cmd[0])
        if not (v[0] == "call" and len(v) == 5 and str(v[1]) == OBJ + "::" + verb and unconv(v[3][0]) == self.field(eng, st, self.cmdloc, self.value_f)):
            self.fail(eng, st, "the number answered is not the result of the operation with the requested amount", c.ln)

    def reply_event(self, eng, st, name, final, c):
        a = c.args
        obj = self.cur_obj(st)
        if name in ("value", "get") and len(a) >= 3:
            self.n_events += 1
            if self.proto == "text":
                key, flags, data, cas = a[0], a[1], a[2], a[3] if len(a) > 3 else None
                want_cas = self.cmd == "GETS"
            else:
                flags, data, cas = a[:3]
                want_cas = True
            o = self.data_of(eng, st, data)
            if o is None or obj is not None and o != obj:
                self.fail(eng, st, "the data answered is not that of the addressed object", c.ln)
                return
            if unconv(flags) != self.field(eng, st, o, self.flags_f):
                self.fail(eng, st, "the flags answered are not those of the object", c.ln)
            if want_cas and (cas is None or unconv(cas) != self.field(eng, st, o, self.info.cas_f)):
                self.fail(eng, st, "the CAS value answered is not that of the object", c.ln)
            if not want_cas and cas is not None:
                self.fail(eng, st, "a CAS value is answered though none was asked for", c.ln)
            if self.proto == "text":
                if not (key[0] == "F" and key[1] == self.item(o)):
                    self.fail(eng, st, "the key answered is not that of the object", c.ln)
            else:
                p, n = a[4], a[5]
                if self.cmd in WITH_KEY:
                    if not self.is_key(eng, st, p, n, o):
                        self.fail(eng, st, "the key answered is not that of the object", c.ln)
                elif p != ZERO or unconv(n) != ZERO:
                    self.fail(eng, st, "a key is answered though none was asked for", c.ln)
        elif name == "value" and len(a) == 1:
            self.n_events += 1
            if self.cmd != "KEYS" or obj is None or not (a[0][0] == "F" and a[0][1] == self.item(obj)):
                self.fail(eng, st, "the key listed is not that of the visited object", c.ln)
        elif name == "key":
            self.n_events += 1
            if self.cmd != "Keys" or obj is None or not self.is_key(eng, st, a[0], a[1], obj):
                self.fail(eng, st, "the key listed is not that of the visited object", c.ln)
        elif name == "set" and self.proto == "binary":
            self.n_events += 1
            if obj is not None:
                if unconv(a[0]) != self.field(eng, st, obj, self.info.cas_f):
                    self.fail(eng, st, "the CAS value answered is not that of the object after the operation", c.ln)
            elif not self.fresh(eng, st, a[0]):
                self.fail(eng, st, "the CAS value answered is not that of a new object", c.ln)
        elif name == "incdec":
            self.n_events += 1
            if obj is not None:
                self.num(eng, st, c, a[0], "value")
                if unconv(a[1]) != self.field(eng, st, obj, self.info.cas_f):
                    self.fail(eng, st, "the CAS value answered is not that of the object after the operation", c.ln)
            elif unconv(a[0]) != self.field(eng, st, self.cmdloc, self.initial_f) or not self.fresh(eng, st, a[1]):
                self.fail(eng, st, "number and CAS value answered are not those of the new object", c.ln)
        elif name == "send" and self.proto == "text" and a:
            self.n_events += 1
            p, n = a[0], unconv(a[1])
            s = self.helper.text(place(p)[0])
            if s is not None:
                if not (place(p)[1] == 0 and n == C(len(s)) and re.fullmatch(r"CLIENT_ERROR [^\r\n]+\r\n", s)):
                    self.fail(eng, st, "the error line sent is cut or malformed", c.ln)
            elif self.cmd in ("INCR", "DECR"):
                if not (n[0] == "call" and str(n[1]).endswith("snprintf") and n[3][0] == p and n[3][2][0] == "s" and re.fullmatch(r"%(l|ll|z|j)u\r\n", n[3][2][1])
                        and isconst(n[3][1]) and n[3][1][1] >= 23):
                    self.fail(eng, st, "the number is not answered as one decimal line", c.ln)
                else:
                    self.num(eng, st, c, n[3][3], "value")
            else:
                self.fail(eng, st, "something unknown is answered", c.ln)

    def fresh(self, eng, st, v):
        # the CAS value of an object that this path constructed
        return any(k[0] == "F" and k[2] == self.info.cas_f and x == unconv(v) and root_of(k)[0] in ("L", "T", "N", "H") for k, x in st.store.items())


@prop("P04", "responses-carry-the-object", floor=40)
def responses_carry(ctx):
    """every response that carries a value, number, key or CAS value carries that of the addressed object, read after the operation"""
    per_command(ctx, Carry, None)
