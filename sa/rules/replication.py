"""Replication and garbage collection of the memcache protocol."""
from check import prop
from engine import *
from affine import lin
from effects import Closure
from loops import ForEach
from mcbase import *
from tables import *
from model import AnalysisError, norm
from rules.handlers import global_field, slaves_field

GC = "yrmcds::memcache::gc_thread"
HANDLER = "yrmcds::memcache::handler"
NS = "yrmcds::memcache::"
ARITH = {"int", "long", "unsigned", "char", "short", "bool", "std::size_t", "std::uint32_t", "std::uint64_t", "size_t"}


def handles_object(f):
    return f.lambda_ and any(t == OBJ + " &" for _, _, t in f.params)


def gc_lists(m):
    """(all slaves, new slaves): members of the collector; the new ones are those whole objects are sent to"""
    vecs = [f["n"] for f in m.record(GC)["fields"] if "repl_socket *" in f["t"]]
    new = set()
    for f in m.funcs.values():
        for i in f.instrs():
            if i["k"] == "call" and norm(i.get("n") or "") == NS + "repl_object" and ("gc_thread" in f.n or (f.in_ or "") in m.funcs and "gc_thread" in m.funcs[f.in_].n):
                n = i["a"][0]
                while isinstance(n, dict) and "r" in n:
                    n = f.elems.get(n["r"])
                if n and n.get("fn") in vecs:
                    new.add(n["fn"])
    rest = [v for v in vecs if v not in new]
    if len(new) != 1 or len(rest) != 1:
        raise AnalysisError("the collector's slave lists were not recognised")
    return rest[0], next(iter(new))


class GcRule(McRule):
    """auto: frozenset of learned reasons and what the current object's decision did so far"""
    width = 3000

    def __init__(self, m):
        McRule.__init__(self, McInfo.of(m))
        self.all_f, self.new_f = gc_lists(m)
        self.gc = m.one(GC + "::gc")
        self.n = 0
        nums = {f["n"] for f in self.m.record(GC)["fields"] if f["t"].split()[-1] in ARITH or f["t"].startswith("std::atomic")}
        self.untracked = lambda l: l[0] == "F" and l[2] in nums and l[1][0] == "O"

    def opaque(self, eng, func, name):
        return (func.cls == OBJ and func.sn == "expired") or McRule.opaque(self, eng, func, name)

    def container(self, st, which):
        return ("F", st.frames[0].this, which)

    def none(self, eng, st, which):
        l = self.container(st, which)
        t = ("call", "std::vector::size", l, (), eng.epoch_of(st, l))
        return eng.decide(st, eng.op("==", t, ZERO)) is True

    def cur(self, st):
        for fr in reversed(st.frames):
            if handles_object(fr.f):
                for vid, n, t in fr.f.params:
                    if t == OBJ + " &":
                        return fr.env.get(vid[1])
        return None

    def cur_key(self, st):
        for fr in reversed(st.frames):
            if handles_object(fr.f):
                for vid, n, t in fr.f.params:
                    if "hash_key" in t:
                        return fr.env.get(vid[1])
        return None

    def expired(self, eng, st, obj):
        return eng.decide(st, ("call", OBJ + "::expired", obj, (), eng.epoch_of(st, obj)))

    def on_branch(self, eng, st, t, out, ln):
        if out and t[0] == "call" and t[1] == OBJ + "::expired":
            eng.assume(st, eng.op("==", self.lock_term(eng, st, t[2]), C(self.info.none)), True, ln)
        if t[0] == "op" and len(t) == 4:
            fl = lambda x: self.mentions(x, "flush_time")
            if t[1] == "==" and ((fl(t[2]) and t[3] == ZERO) or (fl(t[3]) and t[2] == ZERO)) and not out:
                st.auto = st.auto | {"flush set"}
            if t[1] == "<" and not out and self.mentions(t[3], "flush_time") and any_sub(t[2], is_now) and \
                    (lin(t[3]) - lin(t[2])).k >= 0:
                st.auto = st.auto | {"flush due"}
            if t[1] == "<" and out and any_sub(t[2], is_limit) and self.mentions(t[3], "used_memory"):
                st.auto = st.auto | {"memory short"}

    def mentions(self, t, fld):
        return any_sub(t, lambda x: x[0] == "F" and len(x) == 3 and x[2] == fld)

    def on_enter(self, eng, st, func, call):
        if handles_object(func):
            st.auto = st.auto - {"sent", "copied"}

    def on_call(self, eng, st, c):
        if c.func is not None and self.info.kind.get(c.func.id) == "get":
            return ANY      # sizes and ages are numeric; no rule here depends on them
        if c.func is not None and c.func.sn == "gc" and "hash_map" in c.func.n:
            # the predicate sees an arbitrary object (the traversal is decided by the hash-map rules)
            return eng.invoke(st, c, c.args[0], [("O", "gckey"), ("O", "gcobj")])
        return McRule.on_call(self, eng, st, c)

    def on_leave(self, eng, st, func, rv):
        if handles_object(func):
            self.decided(eng, st, func, rv)
            obj = self.cur(st)
            st.auto = st.auto - {"sent", "copied"}
            for k in [k for k in st.facts if subterm(k, obj)]:
                del st.facts[k]

    def decided(self, eng, st, func, rv):
        pass

    def repl_event(self, eng, st, name, c):
        self.n += 1
        k = self.cur_key(st)
        if k is not None and len(c.args) > 1 and c.args[1] != k:
            eng.violation(st, "%s names a key other than the object's" % name, c.ln, key="%s: other key" % name)
        if name == "repl_delete" and c.args and c.args[0] == self.container(st, self.all_f):
            st.auto = st.auto | {"sent"}
        if name == "repl_object" and c.args and c.args[0] == self.container(st, self.new_f):
            if len(c.args) > 2 and c.args[2] == self.cur(st):
                st.auto = st.auto | {"copied"}


def is_limit(t):
    return t[0] == "call" and str(t[1]).endswith("::memory_limit") or t[0] == "F" and len(t) == 3 and t[2] in ("m_memory_limit", "memory_limit")


def is_now(t):
    return t[0] == "call" and (t[1] in ("std::time", "time") or t[1].endswith("clock::now")) or \
        (t[0] == "G" and t[1] == "yrmcds::g_current_time")


class GcRemovalSent(GcRule):
    def decided(self, eng, st, func, rv):
        self.n += 1
        removed = outcome(eng, st, rv)
        if removed is not False and "sent" not in st.auto and not self.none(eng, st, self.all_f):
            eng.violation(st, "the collector removes an object without telling the slaves", key="gc removal not replicated")
        if removed is not True and "sent" in st.auto:
            eng.violation(st, "the collector tells the slaves of a removal that does not happen", key="gc phantom removal")


class GcReason(GcRule):
    def decided(self, eng, st, func, rv):
        if outcome(eng, st, rv) is False:
            return
        self.n += 1
        obj = self.cur(st)
        if self.unlocked(eng, st, obj) is not True and self.expired(eng, st, obj) is not True:
            eng.violation(st, "the collector may remove a locked object", key="gc removes locked")
        if self.expired(eng, st, obj) is not True and not {"flush set", "flush due"} <= st.auto and "memory short" not in st.auto:
            eng.violation(st, "the collector removes an object that is neither expired, flushed nor evicted for memory",
                          key="gc removes live")


class GcComplete(GcRule):
    def decided(self, eng, st, func, rv):
        if outcome(eng, st, rv) is True:
            return
        self.n += 1
        obj = self.cur(st)
        locked = self.unlocked(eng, st, obj) is False
        if self.expired(eng, st, obj) is not False and not locked:
            eng.violation(st, "the collector keeps an object without asking whether it has expired", key="gc keeps expired")
        if {"flush set", "flush due"} <= st.auto and not locked:
            eng.violation(st, "the collector keeps an unlocked object although a flush has come into effect", key="gc keeps flushed")


class GcFlush(GcRule):
    """the collector takes back a flush only if it is the one it carried out"""

    def is_flush(self, l):
        return isloc(l) and l[0] == "F" and l[2] == "flush_time"

    def on_write(self, eng, st, loc, val, ln):
        if not self.is_flush(loc):
            return
        self.n += 1
        if not (isinstance(val, tuple) and val[0] == "op" and val[1] == "cas"):
            eng.violation(st, "the collector overwrites the flush time, and with it a flush requested meanwhile", ln, key="flush lost")

    def on_call(self, eng, st, c):
        if c.cls.startswith("std::") and "atomic" in c.cls and self.is_flush(c.obj) and \
                (c.node.get("sn") or "").startswith("compare_exchange"):
            self.n += 1
            old = eng.load(st, c.args[0]) if isloc(c.args[0]) else c.args[0]
            if not self.mentions(old, "flush_time") or c.args[1] != ZERO:
                eng.violation(st, "the collector takes back a flush other than the one it carried out", c.ln, key="flush lost")
            st.auto = st.auto | {"retired"}
            if not {"flush set", "flush due"} <= st.auto:
                eng.violation(st, "the collector takes back a flush it did not carry out", c.ln, key="flush not carried out")
        return GcRule.on_call(self, eng, st, c)


    def on_exit(self, eng, st, kind, v):
        if kind == "return" and {"flush set", "flush due"} <= st.auto and "retired" not in st.auto:
            self.n += 1
            eng.violation(st, "a flush that was carried out stays in effect", key="flush stays")


class GcCopies(GcRule):
    def decided(self, eng, st, func, rv):
        self.n += 1
        removed = outcome(eng, st, rv)
        if removed is not True and "copied" not in st.auto and not self.none(eng, st, self.new_f):
            eng.violation(st, "a surviving object is not sent to a new slave", key="initial copy skipped")


class GcCovers(ForEach, GcRule):
    """every bucket of the table goes through bucket::gc"""

    def __init__(self, m):
        GcRule.__init__(self, m)
        h = [f["n"] for f in m.record(GC)["fields"] if "hash_map" in f["t"]]
        if len(h) != 1:
            raise AnalysisError("the collector's table was not found")
        self.h = h[0]
        ForEach.__init__(self, [{"name": "visiting the table", "base": self.is_table, "event": self.visit}])

    def is_table(self, l):
        # a reference member: the engine sees through it
        return isloc(l) and (any_sub(l, lambda x: x[0] == "F" and x[2] == self.h) or "hash_map" in str(l))

    def opaque(self, eng, func, name):
        return (func.sn == "gc" and "hash_map" in func.n) or GcRule.opaque(self, eng, func, name)

    def visit(self, eng, st, c):
        return c.func is not None and c.func.sn == "gc" and "hash_map" in c.func.n

    def on_branch(self, eng, st, t, out, ln):
        ForEach.on_branch(self, eng, st, t, out, ln)

    def on_exit(self, eng, st, kind, v):
        ForEach.on_exit(self, eng, st, kind, v)


def run_gc(ctx, cls):
    r = cls(ctx.m)
    eng = Engine(ctx.m, r)
    eng.run(eng.initial(r.gc, auto=frozenset(), this_cls=GC))
    ctx.engine(eng)
    ctx.instance("%s: %d decisions" % (cls.__name__, r.n), r.n)
    return r


@prop("C06", "collector-removals-replicated", floor=3)
def gc_removals(ctx):
    """every path on which the collector decides to remove an object has sent its removal to all slaves (or there are none),
    and no removal is announced for an object that stays"""
    run_gc(ctx, GcRemovalSent)


@prop("G01", "collector-reasons", floor=2)
def gc_reasons(ctx):
    """every path on which the collector's predicate answers 'remove' has established that the object is not locked and that it is
    expired, or a flush is set and due, or memory use exceeds the limit"""
    run_gc(ctx, GcReason)


@prop("G01", "collector-removes-what-is-due", floor=2)
def gc_complete(ctx):
    """every path on which the collector's predicate answers 'keep' has found the object not expired, and the object locked if a flush is in effect"""
    run_gc(ctx, GcComplete)


@prop("G01", "flush-retired-by-its-collection", floor=2)
def gc_flush(ctx):
    """the flush time is taken back only by the collection that carried that flush out: compare-and-exchange from the time it acted upon"""
    run_gc(ctx, GcFlush)


@prop("G01", "collector-visits-every-bucket", floor=2)
def gc_covers(ctx):
    """the collector's loop reaches every bucket of the table before it ends"""
    run_gc(ctx, GcCovers)


@prop("R02", "survivors-sent-to-new-slaves", floor=2)
def gc_copies(ctx):
    """every object the collector keeps is sent whole to the new slaves (or there are none)"""
    run_gc(ctx, GcCopies)


@prop("R02", "initial-copy-visits-every-bucket", floor=2)
def gc_covers2(ctx):
    """the loop that sends the objects to new slaves reaches every bucket of the table"""
    run_gc(ctx, GcCovers)


# ---------------------------------------------------------------------------- messages
def senders(m):
    """functions that send a replication request to a list of slaves"""
    out = [f for f in m.funcs.values() if not f.lambda_ and f.params and f.blocks and "repl_socket *" in f.params[0][2] and
           f.params[0][2].endswith("&") and "vector" in f.params[0][2] and
           any(i["k"] == "call" and norm(i.get("n") or "").startswith(SEND) for i in f.instrs())]
    if len(out) < 3:
        raise AnalysisError("replication senders not found")
    return out


def flat_sum(t):
    """multiset of the addends, constants folded"""
    k, rest, todo = 0, [], [t]
    while todo:
        x = todo.pop()
        if isconst(x):
            k += x[1]
        elif x[0] == "op" and x[1] == "+":
            todo += [x[2], x[3]]
        elif x[0] == "op" and x[1] == "conv":
            todo.append(x[2])
        else:
            rest.append(x)
    return k, sorted(rest, key=repr)


def place(p):
    """pointer value -> (location of the array, constant offset)"""
    off = 0
    while True:
        if p[0] == "op" and p[1] == "+" and isconst(p[3]):
            off += p[3][1]
            p = p[2]
        elif p[0] == "op" and p[1] == "+" and isconst(p[2]):
            off += p[2][1]
            p = p[3]
        elif p[0] == "&" and p[1][0] == "I" and isconst(p[1][2]):
            off += p[1][2][1]
            p = ("&", p[1][1])
        else:
            break
    return (p[1] if p[0] == "&" else ("D", p)), off


class Message(ForEach):
    """every element of the slave list is sent one message; the messages are collected"""
    width = 1000

    def __init__(self, m, f):
        self.m = m
        self.msgs = []
        self.loc = None
        ForEach.__init__(self, [{"name": "sending to the slaves", "base": lambda l: l == self.loc, "event": self.is_send}])
        self.f = f

    def opaque(self, eng, func, name):
        return name.startswith(SEND) or func.cls in (OBJ, "cybozu::hash_key", "cybozu::dynbuf") or name == "cybozu::hton"

    def on_int_cast(self, eng, st, v, n):
        # keys are at most 250 bytes (P03); objects are far below 4 GiB
        t = n.get("t", "").replace("const ", "")
        ln = v[0] == "call" and len(v) == 5 and str(v[1]).split("::")[-1] in ("length", "size")
        if ln and (v[1] == "cybozu::hash_key::length" or INT_BITS.get(t, 0) >= 32):
            return v
        return None

    def is_send(self, eng, st, c):
        if not c.name.startswith(SEND):
            return False
        if not any_sub(c.obj, lambda t: eng.prov(t) == self.loc or t == self.loc) and not self.over(eng, c.obj):
            eng.violation(st, "a message goes to something other than an element of the slave list", c.ln, key="other receiver")
        self.msgs.append(self.bytes(eng, st, c))
        return True

    def over(self, eng, v):
        return any_sub(v, lambda t: t[0] == "iter" and t[1] == self.loc)

    def bytes(self, eng, st, c):
        segs = []
        if c.func.sn.startswith("sendv"):
            n = c.args[1]
            if not isconst(n):
                raise AnalysisError("%s: number of segments not constant" % norm(self.f.n))
            base, off = place(c.args[0])
            pf, lf = self.iov_fields()
            for k in range(n[1]):
                e = ("I", base, C(off + k))
                segs.append((eng.load(st, ("F", e, pf)), eng.load(st, ("F", e, lf))))
        else:
            segs.append((c.args[0], c.args[1]))
        return {"segs": segs, "store": dict(st.store), "ln": c.ln, "eng": eng}

    def iov_fields(self):
        fs = self.m.record("cybozu::tcp_socket::iovec")["fields"]
        p = [f["n"] for f in fs if "*" in f["t"]]
        return p[0], [f["n"] for f in fs if f["n"] != p[0]][0]

    def call(self, eng, st, c):
        if c.name == "cybozu::hton" and len(c.args) == 2:
            base, off = place(c.args[1])
            w = {"unsigned short": 2, "unsigned int": 4, "unsigned long": 8}.get(c.pt[0].replace("const ", ""), 0)
            eng.assign(st, ("I", base, C(off)), ("be", w, c.args[0]), c.ln)
            return UNIT
        if c.name.split("::")[-1] == "memset" and len(c.args) == 3:
            base, off = place(c.args[0])
            eng.assign(st, ("F", base, "memset"), ("be", c.args[2], c.args[1]), c.ln)
            return UNIT
        if c.name.startswith(SEND):
            return ONE
        return None


def decode(r, msg):
    """the parts of one binary request: header bytes, extras, key, data"""
    st = msg["store"]
    segs = msg["segs"]
    out = {"segs": segs}
    base, off = place(segs[0][0])
    if not isconst(segs[0][1]) or off != 0:
        raise AnalysisError("message header not recognised")
    hdr = lambda k: st.get(("I", base, C(k)))
    if ("F", base, "memset") not in st and any(hdr(k) is None for k in (0, 1, 2, 4, 8)):
        raise AnalysisError("message header not recognised")
    out["hdrlen"] = segs[0][1][1]
    out["magic"], out["op"], out["keylen"], out["extlen"], out["total"] = hdr(0), hdr(1), hdr(2), hdr(4), hdr(8)
    out["other"] = sorted(k[2][1] for k, v in st.items() if k[0] == "I" and k[1] == base and isconst(k[2]) and
                          k[2][1] not in (0, 1, 2, 4, 8) and v != ZERO)
    ext = out["extlen"] or ZERO
    out["ext"] = {}
    i = 1
    if isconst(ext) and ext[1] > 0:
        got = 0
        while i < len(segs) and isconst(segs[i][1]) and got < ext[1]:
            b, o = place(segs[i][0])
            for k, v in st.items():
                if k[0] == "I" and k[1] == b and isconst(k[2]) and o <= k[2][1] < o + segs[i][1][1]:
                    out["ext"][got + k[2][1] - o] = v
            got += segs[i][1][1]
            i += 1
        out["extgot"] = got
    else:
        out["extgot"] = 0
    out["rest"] = segs[i:]
    return out


def strip_be(v):
    return v[2] if isinstance(v, tuple) and v and v[0] == "be" else v


def be_width(v):
    return v[1] if isinstance(v, tuple) and v and v[0] == "be" else None


SETTERS = {"set": "SetQ", "touch": "Touch", "delete": "DeleteQ"}


@prop("R01", "messages-well-formed", floor=20)
def messages(ctx):
    """each replication sender sends every slave of its list one binary request whose header announces exactly the extras, key and
    data that follow: magic, opcode, key length, extras length, total length; with flags and expiration time at their offsets"""
    m = ctx.m
    bcmd = {v: k for k, v in m.enum_map(BCMD).items()}
    kinds = {}
    for f in senders(m):
        r = Message(m, f)
        eng = Engine(m, r)
        st = eng.initial(f, auto=frozenset())
        r.loc = st.top.env[f.params[0][0][1]]
        key = [("O", n) for _, n, t in f.params if "hash_key" in t]
        obj = [("O", n) for _, n, t in f.params if t.replace("const ", "").startswith(OBJ)]
        ctx.need(len(key) == 1, "%s: key parameter" % f.n)
        eng.run(st)
        ctx.engine(eng)
        ctx.need(r.msgs, "%s sends nothing" % f.n)
        for msg in r.msgs:
            d = decode(r, msg)

            def want(cond, txt):
                ctx.instance("%s: %s" % (f.sn, txt))
                if not cond:
                    ctx.report("%s:%s" % (f.file, msg["ln"]), "%s: %s" % (f.sn, txt), norm(f.n), key="%s: %s" % (f.sn, txt))
            klen = lambda t: t == ("call", "cybozu::hash_key::length", key[0], (), t[4]) if t and t[0] == "call" and len(t) == 5 else False
            want(d["hdrlen"] == 24, "the header is 24 bytes")
            want(d["magic"] is not None and isconst(d["magic"]) and d["magic"][1] & 255 == 0x80, "the request magic is sent")
            want(isconst(d["op"] or ()), "the opcode is a constant")
            op = bcmd.get(d["op"][1] & 255) if isconst(d["op"] or ()) else None
            want(op in ("SetQ", "Touch", "DeleteQ"), "the opcode is one that slaves apply")
            kinds.setdefault(op, f)
            want(be_width(d["keylen"]) == 2 and klen(strip_be(d["keylen"])), "the key length announced is the key's length")
            want(isconst(d["extlen"] or ZERO) and (d["extlen"] or ZERO)[1] == d["extgot"], "the extras announced are the extras sent")
            want(not d["other"], "no other header field is set")
            rest = d["rest"]
            want(bool(rest) and is_call(rest[0][0], "data", key[0]) and klen(rest[0][1]), "the key follows the extras")
            data = rest[1:]
            k, parts = flat_sum(strip_be(d["total"]) if d["total"] else ZERO)
            nonkey = [p for p in parts if not klen(p)]
            want(be_width(d["total"]) == 4 and k == d["extgot"] and len(parts) - len(nonkey) == 1,
                 "the total length counts extras and key")
            if op == "SetQ":
                want(d["extgot"] == 8, "a whole object carries 8 bytes of extras")
                want(is_call(strip_be(d["ext"].get(0)), "flags", obj[0]) and be_width(d["ext"].get(0)) == 4, "flags come first")
                want(is_call(strip_be(d["ext"].get(4)), "exptime", obj[0]) and be_width(d["ext"].get(4)) == 4, "the expiration time comes second")
                want(len(nonkey) == 1 and obj_size(nonkey[0], obj[0]), "the total length counts the object's size")
                want(len(data) == 1 and obj_data(data[0], obj[0]), "the object's data follows the key")
            else:
                want(not nonkey and not data, "nothing follows the key")
                if op == "Touch":
                    want(d["extgot"] == 4 and is_call(strip_be(d["ext"].get(0)), "exptime", obj[0]) and
                         be_width(d["ext"].get(0)) == 4, "a touch carries the expiration time")
    for op, name in (("SetQ", "repl_object"), ("Touch", "repl_touch"), ("DeleteQ", "repl_delete")):
        f = kinds.get(op)
        ctx.instance("%s is sent by %s" % (op, f and f.sn))
        if f is None or f.sn != name:
            ctx.report((f or senders(m)[0]).loc, "%s does not send %s" % (name, op), name, key="%s sends %s" % (name, op))


def is_call(t, name, obj):
    return isinstance(t, tuple) and len(t) == 5 and t[0] == "call" and t[1].split("::")[-1] == name and t[2] == obj


def unref(t):
    while isinstance(t, tuple) and t and t[0] in ("R", "&", "D"):
        t = t[1]
    return t


def obj_size(t, obj):
    return is_call(t, "size", obj) or (isinstance(t, tuple) and len(t) == 5 and t[0] == "call" and t[1] == "cybozu::dynbuf::size" and
                                      is_call(unref(t[2]), "data", obj))


def obj_data(seg, obj):
    p, n = seg
    ok = isinstance(p, tuple) and len(p) == 5 and p[0] == "call" and p[1] == "cybozu::dynbuf::data" and is_call(unref(p[2]), "data", obj)
    return ok and obj_size(n, obj)


# ---------------------------------------------------------------------------- applying
EFFECT = {"SetQ": ("mutate", "new"), "Touch": ("touch",), "DeleteQ": ("delete",)}


class Apply(McRule):
    """one replicated request on the slave, the parser's accessors kept symbolic; auto: frozenset of (key, value)"""
    width = 2000

    def __init__(self, m, cmd):
        McRule.__init__(self, McInfo.of(m))
        self.cmd = cmd
        self.vals = m.enum_map(BCMD)
        self.n = 0
        self.effects = set()
        self.ends = 0

    def info_val(self, cmd):
        return self.vals[cmd]

    def cur(self, st):
        return self.get(st, "cmd") or self.cmd

    def get(self, st, k, d=None):
        for a, b in st.auto:
            if a == k:
                return b
        return d

    def put(self, st, k, v):
        st.auto = frozenset([x for x in st.auto if x[0] != k] + ([(k, v)] if v is not None else []))

    def opaque(self, eng, func, name):
        return func.cls == BREQ or (func.cls == OBJ and func.ctor) or McRule.opaque(self, eng, func, name)

    def acc(self, t, name):
        """does t derive from the parser's accessor `name`?"""
        return any_sub(t, lambda x: x[0] == "call" and x[1] == BREQ + "::" + name)

    def item(self, a, name):
        """(pointer, length) taken from the accessor `name`, in that order"""
        if len(a) < 2 or not (self.acc(a[0], name) and self.acc(a[1], name)):
            return False
        part = lambda t, k: any_sub(t, lambda x: x == "get%d" % k or (x[0] == "F" and len(x) == 3 and x[2] in ("get%d" % k, ("first", "second")[k])))
        return part(a[0], 0) and part(a[1], 1)

    def fail(self, eng, st, msg, ln=None):
        eng.violation(st, "replicated %s: %s" % (self.cur(st), msg), ln, key="apply %s: %s" % (self.cur(st), msg))

    def length_of(self, eng, st, t):
        """the length() of the request t was read from"""
        out = []
        any_sub(t, lambda x: out.append(x[2]) if x[0] == "call" and isinstance(x[1], str) and x[1].startswith(BREQ + "::") else None)
        return ("call", BREQ + "::length", out[0], (), eng.epoch_of(st, out[0])) if out else None

    def on_call(self, eng, st, c):
        f = c.func
        if f is not None and f.cls == BREQ and f.ctor:
            self.n += 1
            self.next(eng, st, c)
            return None
        if f is not None and f.cls == BREQ and f.sn == "command":
            if self.get(st, "cmd") is not None:
                return C(self.info_val(self.get(st, "cmd")))
            # what came before may have been any request
            out = []
            for k in sorted({self.cmd} | (set(EFFECT) if self.get(st, "deep") is None else set())):
                s = st.copy()
                self.put(s, "cmd", k)
                out.append((s, C(self.info_val(k))))
            return out
        if c.ctor and c.cls == "cybozu::hash_key" and len(c.args) >= 2:
            self.n += 1
            if not self.item(c.args, "key"):
                self.fail(eng, st, "the key applied is not the request's key", c.ln)
                return None
            L = self.length_of(eng, st, c.args[0])
            if L is None or eng.decide(st, eng.op("==", L, ZERO)) is not False:
                self.fail(eng, st, "an incomplete request is applied", c.ln)
            return None
        if f is not None and "hash_map" in f.n and "bucket" not in f.n and not f.ctor and f.cls and \
                not any(fr.f.cls and "hash_map" in fr.f.cls for fr in st.frames) and not f.sn.startswith("~"):
            self.put(st, "applied", min(2, self.get(st, "applied", 0) + 1))
        return McRule.on_call(self, eng, st, c)

    def effect(self, st, kind):
        self.n += 1
        if self.cur(st) == self.cmd:
            self.effects.add(kind)
        self.put(st, "eff", kind if self.get(st, "eff") is None else "twice")

    def obj_event(self, eng, st, kind, f, obj, c):
        if kind in ("mutate", "touch", "new"):
            if kind == "new" and not (c.args and any_sub(c.args[0], lambda x: x[0] == "call")) and c.node.get("copy"):
                return
            self.effect(st, kind)
            if kind not in EFFECT.get(self.cur(st), ()):
                self.fail(eng, st, {"mutate": "changes", "new": "creates", "touch": "touches"}[kind] + " an object", c.ln)
                return
            a = c.args
            if kind == "touch":
                if not (a and self.acc(a[0], "exptime")):
                    self.fail(eng, st, "the expiration time set is not the one sent", c.ln)
            elif len(a) < 4 or not self.item(a, "data") or not self.acc(a[2], "flags") or not self.acc(a[3], "exptime"):
                self.fail(eng, st, "the data, flags or expiration time stored are not those sent", c.ln)
        elif kind in ("lock", "unlock"):
            self.fail(eng, st, "takes or releases a lock", c.ln)

    def on_delete(self, eng, st, v, i):
        if "hash_map" in st.top.f.n:
            self.effect(st, "delete")
            if self.cur(st) != "DeleteQ":
                self.fail(eng, st, "removes an object", i.get("ln"))

    def on_leave(self, eng, st, func, rv):
        if func.lambda_ and func.ret.rstrip(" &") == OBJ and self.get(st, "eff") != "new":
            self.fail(eng, st, "no object is created from the request")
        if handles_object(func) and self.get(st, "eff") is None and self.cur(st) in EFFECT:
            self.fail(eng, st, "the object addressed is left as it was")

    def on_branch(self, eng, st, t, out, ln):
        ls = []
        any_sub(t, lambda x: ls.append(x) if x[0] == "call" and x[1] == BREQ + "::length" else None)
        if ls and eng.decide(st, eng.op("==", ls[0], ZERO)):
            self.put(st, "short", True)

    # --- consumption
    def next(self, eng, st, c):
        self.put(st, "short", None)
        p, n = c.args[0], c.args[1]
        self.settle(eng, st, c.ln)
        first = self.get(st, "first")
        if first is None:
            self.put(st, "first", (p, n))
        elif self.get(st, "deep") is None:
            self.n += 1
            ls = []
            any_sub(p, lambda x: ls.append(x) if x[0] == "call" and x[1] == BREQ + "::length" else None)
            if not ls or p != eng.op("+", first[0], ls[0]) or n != eng.op("-", first[1], ls[0]):
                self.fail(eng, st, "the next request is not read right behind this one", c.ln)
            self.put(st, "deep", True)
        self.put(st, "open", True)

    def settle(self, eng, st, ln=None):
        """the request read last is done with"""
        if self.get(st, "open"):
            k = self.get(st, "applied", 0)
            self.put(st, "left", k == 0 and self.cur(st) in EFFECT)
            if k > 1 or self.get(st, "eff") == "twice":
                self.fail(eng, st, "the request is applied more than once", ln)
            elif k == 1 and self.cur(st) == "SetQ" and self.get(st, "eff") is None:
                self.fail(eng, st, "the object is not stored", ln)
        if self.get(st, "left") and ln is not None:
            self.fail(eng, st, "a complete request is skipped", ln)
        for k in ("open", "applied", "eff", "cmd"):
            self.put(st, k, None)

    def on_exit(self, eng, st, kind, val):
        if kind != "return":
            return
        one = self.get(st, "first") is not None and self.get(st, "deep") is None
        applied = self.get(st, "applied", 0)
        was_open = self.get(st, "open")
        known, cmd = self.cur(st) in EFFECT, self.cur(st)
        if one and not applied and known and not self.get(st, "short"):
            self.fail(eng, st, "a complete request is not applied")
        self.settle(eng, st)
        self.put(st, "cmd", cmd)
        if val is None or val == UNIT:
            return
        self.n += 1
        self.ends += 1
        lens = []
        any_sub(val, lambda x: lens.append(x) if x[0] == "call" and x[1] == BREQ + "::length" else None)
        if self.get(st, "first") is None:
            if val != ZERO:
                self.fail(eng, st, "bytes are reported consumed though no request was read")
        elif one and applied and (len(lens) != 1 or val != lens[0]):
            self.fail(eng, st, "the count of consumed bytes is not the length of the request applied")
        elif one and not applied and known and was_open and not eng.decide(st, eng.op("==", val, ZERO)):
            self.fail(eng, st, "bytes of a request that was not applied are reported consumed")
        elif one and not known and not eng.decide(st, eng.op("==", val, ZERO)) and (len(lens) != 1 or val != lens[0]):
            self.fail(eng, st, "the count of consumed bytes is not the length of the request read")
        elif not one and not lens and not any_sub(val, lambda x: x[0] in ("unk", "w", "h", "sym")) and val[0] == "c":
            self.fail(eng, st, "the count of consumed bytes does not add up the lengths of the requests")


def slave_entry(m):
    """functions that read replicated requests off a buffer"""
    out = []
    for f in m.funcs.values():
        if f.lambda_ or f.cls in (BREQ, TREQ):
            continue
        t = [p[2] for p in f.params]
        if any("hash_map" in x for x in t) and any(x == "const char *" for x in t) and \
                any(i.get("cls") == BREQ for i in f.instrs()):
            out.append(f)
    if not out:
        raise AnalysisError("the function applying replicated requests was not found")
    return out


def slave_one(ctx, cmd):
    m = ctx.m
    for f in slave_entry(m):
        r = Apply(m, cmd)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset()))
        ctx.engine(e)
        ctx.instance("replicated %s through %s" % (cmd, f.sn), max(1, r.n))
        missing = set(EFFECT.get(cmd, ())) - r.effects
        if missing:
            ctx.report(f.loc, "replicated %s: never takes effect (%s)" % (cmd, ", ".join(sorted(missing))), f.sn,
                       key="apply %s: no effect" % cmd)


@prop("R01", "slave-applies-what-was-sent", 60)
def slave_applies(ctx):
    """the slave reads one complete request after the other, without a gap, applies each to its own key exactly once - SetQ stores data,
    flags and expiration time, Touch sets the expiration time, DeleteQ removes - and reports exactly the bytes it applied as consumed"""
    ctx.parallel(slave_one, list(EFFECT) + ["GetQ", "Flush", "Set"])


# ---------------------------------------------------------------------------- the slave's input buffer
DYN = "cybozu::dynbuf"


class Stream(Rule):
    """auto: frozenset of (key, value): got (bytes received, not yet in the buffer), dirty (bytes not yet offered for applying),
    done (count applied, not yet discarded)"""
    width = 600

    def __init__(self, m, entries):
        self.m = m
        self.entries = {f.id: f for f in entries}
        cl = Closure.of(m)
        readers = {f.id for f in m.funcs.values() for i in f.instrs()
                   if i["k"] == "call" and (i.get("n") or "").lstrip(":") in ("recv", "read")}
        uses = {f.id for f in m.funcs.values() if any(i["k"] == "call" and norm(i.get("n") or "").startswith(DYN + "::") for i in f.instrs())}
        self.inline = cl.reaching(set(self.entries) | readers | uses)
        self.n = self.applied = 0

    get, put = Apply.get, Apply.put

    def opaque(self, eng, func, name):
        return func.cls == DYN or func.id in self.entries or (not func.lambda_ and func.id not in self.inline)

    def bad(self, eng, st, msg, ln=None):
        eng.violation(st, msg, ln, key="stream: " + msg)

    def on_call(self, eng, st, c):
        if c.func is None and c.name.lstrip(":") in ("recv", "read"):
            self.n += 1
            self.unread(eng, st, c.ln)
            if self.get(st, "done") is not None:
                self.bad(eng, st, "bytes that were applied stay in the buffer", c.ln)
            p, n = c.args[1], c.args[2]
            if not (p[0] == "call" and p[1] == DYN + "::prepare" and p[3] and p[3][0] == n):
                self.bad(eng, st, "input is not read to the end of the buffer, into the room made for it", c.ln)
            v = ("sym", "received", st.top.f.id, c.eid)
            eng.drop_mention(st, v)
            self.put(st, "got", (p[2] if p[0] == "call" and len(p) > 2 else None, v))
            return v
        f = c.func
        if f is not None and f.id in self.entries:
            self.n += 1
            self.applied += 1
            ps = {t: i for i, (_, _, t) in enumerate(f.params)}
            pi = [i for i, (_, _, t) in enumerate(f.params) if t == "const char *"][0]
            p, n = c.args[pi], c.args[pi + 1]
            buf = p[2] if p[0] == "call" and p[1] == DYN + "::data" else None
            if buf is None or not (n[0] == "call" and n[1] == DYN + "::size" and n[2] == buf and n[4] == p[4]):
                self.bad(eng, st, "what is applied is not exactly the content of the buffer", c.ln)
            if self.get(st, "got") is not None and not self.nothing(eng, st):
                self.bad(eng, st, "bytes received are applied before they are in the buffer", c.ln)
            if self.get(st, "done") is not None:
                self.bad(eng, st, "bytes that were applied stay in the buffer", c.ln)
            self.put(st, "dirty", None)
            v = ("sym", "applied", st.top.f.id, c.eid)
            eng.drop_mention(st, v)
            self.put(st, "done", (buf, v))
            return v
        if f is not None and f.cls == DYN and isloc(c.obj):
            got, done = self.get(st, "got"), self.get(st, "done")
            if f.sn == "consume":
                self.n += 1
                if got is None or got[0] != c.obj or c.args[0] != got[1]:
                    self.bad(eng, st, "the buffer grows by something other than the bytes received", c.ln)
                self.put(st, "got", None)
                self.put(st, "dirty", True)
            elif f.sn == "erase":
                self.n += 1
                if done is None or done[0] != c.obj or c.args[0] != done[1]:
                    self.bad(eng, st, "bytes other than those applied are discarded", c.ln)
                self.put(st, "done", None)
            elif f.sn not in ("prepare", "data", "size", "empty") and self.mine(c.obj):
                self.bad(eng, st, "the buffer is changed by %s" % f.sn, c.ln)
        return None

    def mine(self, l):
        return any_sub(l, lambda x: x == ("O", "this"))

    def nothing(self, eng, st):
        """nothing was received: the count is known to be 0 or -1"""
        v = self.get(st, "got")[1]
        return eng.decide(st, eng.op("==", v, ZERO)) is True or eng.decide(st, eng.op("==", v, C(-1))) is True or \
            eng.decide(st, eng.op("<", v, ZERO)) is True or eng.decide(st, eng.op("<", v, ONE)) is True

    def unread(self, eng, st, ln=None):
        if self.get(st, "got") is not None and not self.nothing(eng, st):
            self.bad(eng, st, "bytes received are dropped", ln)
        self.put(st, "got", None)

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        self.unread(eng, st)
        if self.get(st, "dirty"):
            self.bad(eng, st, "returns without applying the bytes received")
        d = self.get(st, "done")
        if d is not None and eng.decide(st, eng.op("==", d[1], ZERO)) is not True:
            self.bad(eng, st, "bytes that were applied stay in the buffer")


@prop("R01", "stream-buffer-kept-in-step", floor=6)
def stream(ctx):
    """the slave's event handler appends exactly the bytes received, offers the whole buffer for applying before it returns, and then
    discards exactly the bytes reported applied"""
    m = ctx.m
    entries = slave_entry(m)
    cl = Closure.of(m)
    import rules.sockets as S
    seen = 0
    for cls, f in S.handlers_of(m, "on_readable"):
        if not cl.reach(f.id) & {e.id for e in entries}:
            continue
        r = Stream(m, entries)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=cls))
        ctx.engine(e)
        ctx.need(r.applied, "%s::on_readable does not apply what it reads" % cls)
        ctx.instance("%s::on_readable" % cls, r.n)
        seen += 1
    ctx.need(seen, "no event handler applies replicated requests")
