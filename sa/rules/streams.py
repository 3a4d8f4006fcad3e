"""Sending on a connection: what is accepted is sent completely, once and in order; nothing waits forever."""
from check import prop
from affine import *
from engine import *
from model import AnalysisError, norm
from loops import ForEach
from rules.sockets import RES, iter_nodes

TCP = "cybozu::tcp_socket"
TH = ("O", "this")
EAGAIN, EINTR, EPIPE, ECONNRESET = 11, 4, 32, 104
BACK, NEW, TMP, FRONT = (("O", n) for n in ("last block", "new block", "large buffer", "first block"))
EB, EF = ("O", "last entry"), ("O", "first entry")
ERRNO = ("G", "errno")
FREE, SHUT, W0, S0, T0 = [("sym", x, 0) for x in ("free buffers", "shutdown", "written", "sent", "large")]
SENT, BD, NW, TS, TW, FS, CS, TSENT = [ghost(x) for x in ("sent", "unrecorded", "neww", "tmpsize", "tmpw", "free", "frontsent", "tmpsent")]


def fields_of(m):
    r = m.record(TCP)
    out = {}
    for f in r["fields"]:
        t = f["t"]
        if t.startswith("std::vector") and "tuple" in t:
            out["pend"] = f["n"]
        elif t.startswith("std::vector") and "char *" in t:
            out["free"] = f["n"]
        elif t.startswith("std::vector") and "char" in t:
            out["tmp"] = f["n"]
        elif t == "bool":
            out["shut"] = f["n"]
        elif t == "std::mutex":
            out["mu"] = f["n"]
        elif t.startswith("std::condition_variable"):
            out["cond"] = f["n"]
    for k in ("pend", "free", "tmp", "shut", "mu", "cond"):
        if k not in out:
            raise AnalysisError("tcp_socket: the %s member was not found" % k)
    return out


NUMBERS = {"position", "length", "target", "room", "recorded", "recorded sent", "incomplete", "no buffer", "large buffer", "large sent", "entry sent",
           "entry buffer", "erase early", "two queues", "closed early"}


def number_ids(m, pred):
    """local variables that hold amounts"""
    out = set()
    for f in m.funcs.values() if isinstance(m.funcs, dict) else m.funcs:
        if pred(f):
            for x in iter_nodes(f):
                if x.get("k") == "decl" and norm(x.get("vt") or "") in NUMT:
                    out.add((f.tu, x["id"]))
    return out


NUMT = {"int", "unsigned int", "long", "unsigned long", "const int", "const unsigned long", "const long", "const unsigned int"}


class Stream(Rule):
    affine = True
    split_loops = True
    loose = False           # only the protocol, not the amounts
    width = 4000
    max_states = 60000

    def __init__(self, m, F, mode, closing=False):
        self.m, self.mode, self.closing = m, mode, closing
        self.F = {k: ("F", TH, n) for k, n in F.items()}
        self.SZ = m.const(TCP + "::SENDBUF_SIZE")
        self.segs = []          # (pointer, length) of the input
        self.flush = None
        self.n = self.exits = self.emits = 0

    def opaque(self, eng, func, name):
        if func.lambda_:
            return False
        if func.cls == RES:
            return func.sn != "with_fd"
        return func.cls != TCP or func.sn == "on_buffer_full"

    # ---------------------------------------------------------------- state
    def a(self, st, k):
        for x, v in st.auto:
            if x == k:
                return v
        return None

    def put(self, st, **kw):
        st.auto = frozenset([x for x in st.auto if x[0] not in kw] + [(k, v) for k, v in kw.items() if v is not None])

    def g(self, st, l):
        return lin(st.store.get(l, ZERO))

    def setg(self, st, l, v):
        st.store[l] = v.term() if isinstance(v, Lin) else v

    def val(self, eng, st, a):
        return eng.load(st, a) if isloc(a) else a

    def fail(self, eng, st, msg, ln, key):
        eng.violation(st, msg, ln, key="%s: %s" % (self.mode, key))

    def need(self, eng, st, ok, msg, ln, key):
        self.n += 1
        if not ok and not (self.loose and key in NUMBERS):
            self.fail(eng, st, msg, ln, key)

    def side(self, st):
        r = [self.g(st, x) for x in (SENT, NW, TW, CS, TSENT)] + [self.free(st)]
        if ("F", EB, "1") in st.store:
            r.append(self.backw(st))
        for p, n in self.segs:
            r.append(lin(n))
        if self.segs:
            r.append(self.total() - self.g(st, SENT))       # an obligation of every transfer
        return r

    def on_decide(self, eng, st, o, a, b):
        if self.loose:
            return None
        d = lin(b) - lin(a)
        k = d.const()
        if k is not None:
            return k > 0 if o == "<" else k == 0
        if any(x[0] in ("&", "s", "call", "lam") for x in d.a):
            return None
        if o == "<":
            if self.ge0(st, d - Lin({}, 1)):
                return True
            if self.ge0(st, -d):
                return False
            return None
        if self.ge0(st, d - Lin({}, 1)) or self.ge0(st, -d - Lin({}, 1)):
            return False
        if self.eq0(st, d):
            return True
        return None

    def ge0(self, st, l):
        return proves_ge0(st, l, (), self.side(st))

    def eq0(self, st, l):
        return proves_zero(st, l) or (self.ge0(st, l) and self.ge0(st, -l))

    def total(self):
        t = Lin()
        for p, n in self.segs:
            t = t + lin(n)
        return t

    def start(self, st):
        st.store[SENT] = ZERO
        self.reset(st)

    def reset(self, st):
        for l in [l for l in st.store if l[0] == "F" and l[1] in (EB, EF)]:
            del st.store[l]
        for l in (BD, TS, TW, CS, TSENT, NW):
            st.store[l] = ZERO
        self.put(st, pend=None, tmp=None, front=None)
        st.store.pop(FS, None)
        st.store.pop(self.F["shut"], None)
        for t in (FREE, SHUT, W0, S0, T0):
            self.forget(st, t)

    def forget(self, st, t):
        """values that mention the symbol are about the past"""
        for f in [f for f in st.facts if subterm(f, t)]:
            del st.facts[f]
        for l, v in list(st.store.items()):
            if isinstance(v, tuple) and subterm(v, t):
                st.store[l] = ("unk", "past", l)
        for fr in st.frames:
            for k, v in list(fr.vals.items()):
                if subterm(v, t):
                    fr.vals[k] = ("unk", "past", k)

    def free(self, st):
        if FS not in st.store:
            st.store[FS] = FREE
            st.facts[FREE] = (0, INF, frozenset())
        return self.g(st, FS)

    def shut(self, st):
        return st.store.get(self.F["shut"], SHUT)

    def on_load(self, eng, st, l):
        if l == self.F["shut"]:
            return SHUT
        if l == ("G", TCP + "::SENDBUF_SIZE"):
            return C(self.SZ)
        return None

    def backw(self, st):
        """bytes that really are in the last block"""
        return lin(st.store[("F", EB, "1")]) + self.g(st, BD)

    def set_pend(self, st, v):
        self.put(st, pend=v)
        for l in [l for l in st.store if l[0] == "F" and l[1] in (EB, EF)]:
            del st.store[l]
        self.put(st, front=None)
        st.store[BD] = ZERO
        if v:
            self.put(st, tmp=0)
            w, s = W0, S0
            st.facts[w] = (0, self.SZ, frozenset())
            st.facts[s] = (0, INF, frozenset())
            st.store[("F", EB, "0")] = ("&", BACK)
            st.store[("F", EB, "1")] = w
            st.store[("F", EB, "2")] = s

    def set_tmp(self, st, v):
        self.put(st, tmp=v)
        st.store[TS] = st.store[TW] = st.store[TSENT] = ZERO
        if v:
            self.put(st, pend=0)
            t = T0
            st.facts[t] = (1, INF, frozenset())
            st.store[TS] = st.store[TW] = t

    def known(self, st):
        """states in which it is known what waits to be sent"""
        if self.a(st, "pend") is None:
            s2 = st.copy()
            self.set_pend(st, 1)
            self.set_pend(s2, 0)
            r = [st]
            if self.a(s2, "tmp") is None:
                s3 = s2.copy()
                self.set_tmp(s2, 0)
                self.set_tmp(s3, 1)
                r.append(s3)
            r.append(s2)
            return r
        if self.a(st, "tmp") is None:
            s2 = st.copy()
            self.set_tmp(st, 0)
            self.set_tmp(s2, 1)
            return [st, s2]
        return [st]

    def locked(self, eng, st, what, ln):
        self.need(eng, st, any(h[0] == self.F["mu"] and h[1] == "w" for h in st.held), "%s without the socket's lock" % what, ln, "unlocked")

    # ---------------------------------------------------------------- input
    def position(self, eng, st, src, n, ln, what):
        """the bytes [src, src+n) are the next ones of the input"""
        if self.loose:
            self.emits += 1
            st.store[SENT] = ("unk", "sent")
            return
        at = self.g(st, SENT)
        p0 = Lin()
        ok = False
        src, n = lin(src), lin(n)
        for p, l in self.segs:
            off = at - p0
            if self.eq0(st, src - lin(p) - off) and self.ge0(st, lin(l) - off - n):
                ok = True
                break
            p0 = p0 + lin(l)
        if not ok and self.eq0(st, n):
            ok = True
        self.need(eng, st, ok, "%s bytes that are not the next ones of the message" % what, ln, "position")
        self.emits += 1
        self.setg(st, SENT, at + n)

    def transfer(self, eng, st, c, parts):
        """a call that hands parts to the kernel; returns outcomes"""
        self.locked(eng, st, "data are sent", c.ln)
        total = Lin()
        for p, n in parts:
            total = total + lin(n)
        out = []
        if self.mode == "write":
            p, L = parts[0]
            self.emits += 1
            base = [x for x in lin(p).a if x in (("&", FRONT), ("&", TMP))]
            if len(parts) != 1 or len(base) != 1:
                self.fail(eng, st, "bytes are sent that are not the ones waiting", c.ln, "source")
                return UNIT
            off = lin(p) - lin(base[0])
            tmp = base[0] == ("&", TMP)
            done = self.g(st, TSENT if tmp else CS)
            end = self.g(st, TS) if tmp else lin(st.store.get(("F", EF, "1"), ("unk", "no front")))
            self.need(eng, st, self.a(st, "tmp") == 1 if tmp else self.a(st, "front") == 1, "bytes are sent that are not the first ones waiting", c.ln, "order")
            self.need(eng, st, self.eq0(st, off - done), "sending does not continue where it stopped", c.ln, "position")
            self.need(eng, st, self.ge0(st, end - done - lin(L)), "more is sent than waits to be sent", c.ln, "length")
        else:
            self.need(eng, st, self.a(st, "pend") == 0 and self.a(st, "tmp") == 0,
                      "data are sent although earlier data still wait", c.ln, "overtaking")
        n = fresh(st, "n")
        base_st = st.copy()
        st.facts[n] = (0, INF, frozenset())
        st.facts[("op", "<", total.term(), n)] = False
        if self.mode == "write":
            l = TSENT if tmp else CS
            self.setg(st, l, self.g(st, l) + lin(n))
        elif self.loose:
            self.position(eng, st, None, None, c.ln, "sending")
        else:
            at = self.g(st, SENT)
            # the parts continue the input
            s2 = st.copy()
            for p, L in parts:
                self.position(eng, s2, p, L, c.ln, "sending")
            self.setg(st, SENT, at + lin(n))
        out.append((st, n))
        for e in (EAGAIN, EINTR, EPIPE, ECONNRESET):
            s = base_st.copy()
            s.store[ERRNO] = C(e)
            if e == EAGAIN:
                self.put(s, again=1)
            elif e != EINTR:
                self.put(s, err=1)
            out.append((s, C(-1)))
        return out

    def copy(self, eng, st, dst, src, n, ln):
        d = lin(dst)
        b = [x for x in d.a if x in (("&", BACK), ("&", NEW), ("&", TMP), ("&", FRONT))]
        if len(b) != 1 or self.mode == "write":
            if b:
                self.fail(eng, st, "waiting data are overwritten", ln, "overwrite")
            return
        self.locked(eng, st, "data are queued", ln)
        off = d - lin(b[0])
        W = {("&", BACK): BD, ("&", NEW): NW, ("&", TMP): TW}.get(b[0])
        if W is None or W == BD and ("F", EB, "1") not in st.store:
            self.fail(eng, st, "waiting data are overwritten", ln, "overwrite")
            return
        room = self.g(st, TS) if W == TW else Lin({}, self.SZ)
        w = self.backw(st) if W == BD else self.g(st, W)
        self.need(eng, st, self.eq0(st, off - w), "queued data do not follow the data queued before", ln, "target")
        self.need(eng, st, self.ge0(st, room - w - lin(n)), "more data are queued than the buffer holds", ln, "room")
        if W == TW:
            self.need(eng, st, self.a(st, "pend") == 0, "data are queued behind two queues", ln, "two queues")
        else:
            self.need(eng, st, self.a(st, "tmp") == 0, "data are queued behind two queues", ln, "two queues")
        self.position(eng, st, src, n, ln, "queueing")
        self.setg(st, W, self.g(st, W) + lin(n))

    # ---------------------------------------------------------------- calls
    def on_lock(self, eng, st, loc, mode, ln):
        if loc == self.F["mu"] and mode == "w":
            if self.a(st, "unlocked"):
                self.need(eng, st, st.store.get(SENT) == ZERO, "the lock is released in the middle of a message", ln, "atomic")
                self.reset(st)
                self.put(st, unlocked=None)

    def on_unlock(self, eng, st, loc, ln):
        if loc == self.F["mu"] and any(h[0] == loc and h[1] == "w" for h in st.held):
            self.release_point(eng, st, ln)
            self.put(st, unlocked=1)

    def release_point(self, eng, st, ln):
        """the queue is consistent whenever others may look at it (a failed connection is given up)"""
        if self.a(st, "err"):
            return
        if self.a(st, "pend") == 1 and ("F", EB, "1") in st.store:
            self.need(eng, st, self.eq0(st, self.g(st, BD)), "the recorded amount of queued data is not the real one", ln, "recorded")
        if self.a(st, "tmp") == 1:
            self.need(eng, st, self.eq0(st, self.g(st, TS) - self.g(st, TW)), "the large buffer is not filled", ln, "large buffer")
            self.need(eng, st, self.eq0(st, self.g(st, TSENT)), "data that were sent stay in the large buffer", ln, "large sent")
        self.need(eng, st, not (self.a(st, "pend") == 1 and self.a(st, "tmp") == 1), "data wait in both queues", ln, "two queues")
        self.need(eng, st, not self.a(st, "new"), "a buffer is lost", ln, "lost buffer")
        if self.mode == "write" and self.a(st, "front") == 1:
            self.need(eng, st, self.eq0(st, lin(st.store[("F", EF, "2")]) - self.g(st, CS)),
                      "the recorded amount of sent data is not the real one", ln, "recorded sent")

    def each(self, st, fn):
        out = []
        for s in self.known(st):
            r = fn(s)
            out += r if isinstance(r, list) else [(s, r)]
        return out

    def on_read(self, eng, st, loc, ln):
        if loc == self.F["shut"]:
            self.locked(eng, st, "the closing flag is read", ln)

    def on_write(self, eng, st, loc, v, ln):
        if loc == self.F["shut"]:
            self.locked(eng, st, "the closing flag is written", ln)
        if loc == ("F", EB, "1") and loc in st.store:
            self.setg(st, BD, self.backw(st) - lin(v))

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if c.name in ("std::min", "std::max") and len(c.args) == 2:
            a, b = (self.val(eng, st, x) for x in c.args)
            t = eng.op("<", b, a)
            d = eng.decide(st, t)
            if d is None and self.ge0(st, lin(b) - lin(a)):
                d = False
            if d is None and self.ge0(st, lin(a) - lin(b) - Lin({}, 1)):
                d = True
            if c.name == "std::max":
                a, b = b, a
            if d is not None:
                return b if d else a
            s2 = st.copy()
            out = []
            if eng.assume(st, t, True):
                out.append((st, b))
            if eng.assume(s2, t, False):
                out.append((s2, a))
            return out
        if c.name == "__errno_location":
            return ("&", ERRNO)
        if c.func is not None and c.func.cls == RES and sn == "valid":
            s2 = st.copy()
            self.put(s2, invalid=1)
            return [(st, ONE), (s2, ZERO)]
        if c.func is not None and c.func.cls == RES and "invalidate" in sn:
            self.put(st, closed=1)
            return ZERO if sn == "invalidate" else UNIT
        if c.func is not None and sn == "on_buffer_full":
            return UNIT
        if c.func is None and c.name in ("send", "write"):
            a = [self.val(eng, st, x) for x in c.args]
            self.fd(eng, st, a[0], c.ln)
            if c.name == "send" and not (isconst(a[3]) and a[3][1] in (0, 0x4000, 0x40, 0x4040)):
                self.fail(eng, st, "data are sent with other flags", c.ln, "flags")
            return self.each(st, lambda s: self.transfer(eng, s, c, [(a[1], a[2])]))
        if c.func is None and c.name == "writev":
            a = [self.val(eng, st, x) for x in c.args]
            self.fd(eng, st, a[0], c.ln)
            return self.each(st, lambda s: self.transfer(eng, s, c, self.vector(eng, s, a[1], a[2], c.ln)))
        if c.func is None and c.name in ("sendmsg", "sendto", "sendmmsg", "pwritev", "sendfile", "splice"):
            raise AnalysisError("data are sent with %s: not modelled" % c.name)
        if c.name in ("memcpy", "std::memcpy", "memmove", "std::memmove"):
            d, s, n = (self.val(eng, st, x) for x in c.args)
            self.copy(eng, st, d, s, n, c.ln)
            return d
        if c.name in ("std::copy", "std::copy_n") and len(c.args) == 3:
            a = [self.val(eng, st, x) for x in c.args]
            n = lin(a[1]) - lin(a[0]) if c.name == "std::copy" else lin(a[1])
            d, s = (a[2], a[0])
            self.copy(eng, st, d, s, n.term(), c.ln)
            return (lin(d) + n).term()
        if c.func is None and c.name == "setsockopt":
            a = [self.val(eng, st, x) for x in c.args]
            v = a[3]
            on = isconst(a[2]) and a[2][1] == 1 and v[0] == "&" and self.val(eng, st, v[1]) == ONE
            s2 = st.copy()
            s2.store[ERRNO] = C(EPIPE)
            if on:
                self.put(st, flushed=1)
            return [(st, ZERO), (s2, C(-1))]
        if c.name == "std::tie":
            return ("tie",) + tuple(c.args)
        if c.name == "std::make_tuple":
            return ("tup",) + tuple(self.val(eng, st, x) for x in c.args)
        if c.name == "std::get" and c.args and isloc(c.args[0]) and "tuple" in (c.pt[0] if c.pt else ""):
            return ("F", c.args[0], str(c.node.get("ti")))
        if sn == "operator=" and c.obj is not None and c.obj[0] == "tie":
            src = c.args[0]
            for k, l in enumerate(c.obj[1:]):
                if isloc(l) and not (l[0] == "G" and "ignore" in l[1]):
                    eng.assign(st, l, self.val(eng, st, ("F", src, str(k))) if isloc(src) else src[1 + k], c.ln)
            return UNIT
        if c.obj is not None and c.obj == self.F["cond"]:
            if sn in ("wait", "wait_for", "wait_until"):
                self.need(eng, st, st.store.get(SENT) == ZERO, "a message is interrupted by waiting", c.ln, "atomic")
                self.release_point(eng, st, c.ln)
                if len(c.args) != 1:
                    raise AnalysisError("tcp_socket waits with a predicate: not modelled")
                self.reset(st)
                self.put(st, again=None)
                return UNIT
            if sn == "notify_all":
                self.put(st, freed=None, notified=1)
                return UNIT
            if sn == "notify_one":
                return UNIT
        for q in ("pend", "free", "tmp"):
            if c.obj is not None and c.obj == self.F[q] and not c.ctor:
                self.locked(eng, st, "the queue is used", c.ln)
                return getattr(self, "q_" + q)(eng, st, c, sn)
        return None

    def fd(self, eng, st, v, ln):
        if self.loose and v[0] in ("any", "unk"):
            return
        if not any_sub(v, lambda t: t == self.fdv or t == ("F", TH, "m_fd")) and v != self.fdv:
            self.fail(eng, st, "data are sent to another descriptor", ln, "descriptor")

    def vector(self, eng, st, p, n, ln):
        if self.loose:
            return []
        l = lin(p)
        b = [x for x in l.a if x[0] == "&"]
        n = lin(n).const()
        if len(b) != 1 or n is None:
            raise AnalysisError("writev of an unknown vector %s %s" % (show(p)[:200], n))
        i = (l - lin(b[0])).const()
        if i is None:
            raise AnalysisError("writev from an unknown index")
        out = []
        for k in range(int(n)):
            e = ("I", b[0][1], C(int(i) + k))
            out.append((eng.load(st, ("F", e, "iov_base")), eng.load(st, ("F", e, "iov_len"))))
        return out

    def q_free(self, eng, st, c, sn):
        fs = self.free(st)
        if sn == "size":
            return fs.term()
        if sn == "empty":
            return eng.op("==", fs.term(), ZERO)
        if sn in ("back", "pop_back"):
            def f(s):
                self.need(eng, s, self.ge0(s, fs - Lin({}, 1)) or self.ge0(s, fs.scale(self.SZ) - Lin({}, 1)),
                          "a buffer is taken although none may be left", c.ln, "no buffer")
                if sn == "back":
                    s.store[("O", "free back")] = ("&", NEW)
                    return ("O", "free back")
                self.need(eng, s, not self.a(s, "new"), "a buffer is lost", c.ln, "lost buffer")
                self.put(s, new=1)
                s.store[NW] = ZERO
                self.setg(s, FS, fs - Lin({}, 1))
                return UNIT
            return f(st)
        if sn in ("push_back", "emplace_back"):
            v = self.val(eng, st, c.args[0])
            if v == ("&", FRONT) and self.a(st, "popped"):
                self.put(st, popped=None, freed=1)
            elif v == ("&", NEW) and self.a(st, "new"):
                self.put(st, new=None)
            elif v == ("&", FRONT) and self.a(st, "front") == 1:
                self.put(st, early=1, freed=1)
            else:
                self.fail(eng, st, "a buffer is returned that was not taken", c.ln, "foreign buffer")
            if self.mode != "write":
                self.setg(st, FS, fs + Lin({}, 1))
            return UNIT
        if sn in ("reserve", "capacity", "shrink_to_fit"):
            return UNIT
        raise AnalysisError("tcp_socket: %s of the free buffers is not modelled" % sn)

    def rename(self, st, a, b, old):
        def sub(t):
            if t == a:
                return b
            if t == b:
                return old
            if isinstance(t, tuple):
                return tuple(sub(x) if isinstance(x, tuple) else x for x in t)
            return t
        for l, v in list(st.store.items()):
            if any_sub(v, lambda t: t in (a, b)):
                st.store[l] = sub(v)
        for fr in st.frames:
            for k, v in list(fr.vals.items()):
                if any_sub(v, lambda t: t in (a, b)):
                    fr.vals[k] = sub(v)

    def q_pend(self, eng, st, c, sn):
        if sn == "empty":
            return self.each(st, lambda s: C(0 if self.a(s, "pend") else 1))
        if sn == "size":
            def f(s):
                if not self.a(s, "pend"):
                    return ZERO
                t = ("sym", "entries", 0)
                s.facts[t] = (1, INF, frozenset())
                return t
            return self.each(st, f)
        if sn == "back":
            def f(s):
                self.need(eng, s, self.a(s, "pend") == 1, "the last entry of an empty queue is used", c.ln, "empty queue")
                return EB
            return self.each(st, f)
        if sn == "front" or (sn in ("operator[]", "at") and self.val(eng, st, c.args[0]) == ZERO):
            def f(s):
                self.need(eng, s, self.a(s, "pend") == 1, "the first entry of an empty queue is used", c.ln, "empty queue")
                if self.mode != "write":
                    raise AnalysisError("sending uses the first entry of the queue: not modelled")
                if self.a(s, "front") != 1:
                    self.put(s, front=1)
                    w, x = fresh(s, "fw"), fresh(s, "fs")
                    s.facts[w] = (0, self.SZ, frozenset())
                    s.facts[x] = (0, self.SZ, frozenset())
                    s.facts[("op", "<", w, x)] = False
                    s.store[("F", EF, "0")] = ("&", FRONT)
                    s.store[("F", EF, "1")] = w
                    s.store[("F", EF, "2")] = x
                    s.store[CS] = x
                return EF
            return self.each(st, f)
        if sn in ("emplace_back", "push_back"):
            a = [self.val(eng, st, x) if not isloc(x) or c.pt and "tuple" not in c.pt[0] else x for x in c.args]
            if sn == "push_back" or len(a) == 1:
                a = a[0]
                if isloc(a):
                    a = eng.load(st, a)
                if a[0] == "R":
                    a = a[1]
                if a[0] != "tup":
                    raise AnalysisError("tcp_socket: an entry of unknown form is queued")
                a = list(a[1:])

            def f(s):
                self.need(eng, s, self.a(s, "tmp") == 0, "data are queued behind two queues", c.ln, "two queues")
                if self.mode == "write":
                    self.fail(eng, s, "sending what waits queues more", c.ln, "queues")
                    return EB
                if self.a(s, "pend"):
                    self.need(eng, s, self.eq0(s, self.g(s, BD)), "the recorded amount of queued data is not the real one", c.ln, "recorded")
                self.need(eng, s, a[0] == ("&", NEW) and self.a(s, "new") == 1, "a queue entry does not own its buffer", c.ln, "entry buffer")
                self.need(eng, s, self.eq0(s, lin(a[2])), "a new queue entry counts data as sent", c.ln, "entry sent")
                self.put(s, pend=1, new=None)
                self.rename(s, ("&", NEW), ("&", BACK), ("unk", "earlier block"))
                self.setg(s, BD, self.g(s, NW) - lin(a[1]))
                s.store[NW] = ZERO
                s.store[("F", EB, "0")] = ("&", BACK)
                s.store[("F", EB, "1")] = lin(a[1]).term()
                s.store[("F", EB, "2")] = ZERO
                return EB
            return self.each(st, f)
        if sn in ("begin", "cbegin", "end", "cend", "reserve"):
            return None
        if sn in ("erase", "pop_front"):
            if sn == "erase":
                v = c.args[0]
                v = eng.iter_val(st, v) if isloc(v) else (v[1] if v[0] == "R" else v)
                if not (v[0] == "call" and v[1].endswith("begin")) or len(c.args) != 1:
                    self.fail(eng, st, "queue entries other than the first are removed", c.ln, "erase")
                    return UNIT

            def f(s):
                self.need(eng, s, self.a(s, "pend") == 1 and self.a(s, "front") == 1, "an entry is removed that was not sent", c.ln, "erase unsent")
                if self.a(s, "front") == 1:
                    self.need(eng, s, self.eq0(s, lin(s.store[("F", EF, "1")]) - self.g(s, CS)),
                              "an entry is removed before all of it was sent", c.ln, "erase early")
                    self.need(eng, s, self.a(s, "popped") != 1, "a buffer is lost", c.ln, "lost buffer")
                    if self.a(s, "early"):
                        self.put(s, early=None)
                    else:
                        self.put(s, popped=1)
                for l in [l for l in s.store if l[0] == "F" and l[1] in (EB, EF)]:
                    del s.store[l]
                s.store[CS] = ZERO
                self.put(s, front=None)
                s2 = s.copy()
                self.put(s, pend=1, tmp=0)
                self.put(s2, pend=0, tmp=0)
                return [(s, ("unk", "next")), (s2, ("unk", "next"))]
            return self.each(st, f)
        raise AnalysisError("tcp_socket: %s of the queue is not modelled" % sn)

    def q_tmp(self, eng, st, c, sn):
        if sn == "empty":
            return self.each(st, lambda s: C(0 if self.a(s, "tmp") else 1))
        if sn == "size":
            return self.each(st, lambda s: self.g(s, TS).term())
        if sn == "data":
            return ("&", TMP)
        if sn == "resize":
            n = self.val(eng, st, c.args[0])

            def f(s):
                if self.mode == "write":
                    self.fail(eng, s, "waiting data change", c.ln, "overwrite")
                self.need(eng, s, self.a(s, "tmp") == 0, "waiting data are overwritten", c.ln, "overwrite")
                self.need(eng, s, self.ge0(s, lin(n) - Lin({}, 1)) or self.eq0(s, lin(n) - self.total() + self.g(s, SENT)),
                          "nothing is queued", c.ln, "large buffer")
                self.put(s, tmp=1)
                s.store[TS] = lin(n).term()
                s.store[TW] = ZERO
                return UNIT
            return self.each(st, f)
        if sn in ("assign", "insert"):
            a = [self.val(eng, st, x) for x in c.args]
            if sn == "insert":
                v = eng.iter_val(st, c.args[0]) if isloc(c.args[0]) else c.args[0]
                v = v[1] if v[0] == "R" else v
                if not (v[0] == "call" and v[1].endswith("end")):
                    self.fail(eng, st, "queued data do not follow the data queued before", c.ln, "target")
                a = a[1:]

            def f(s):
                n = lin(a[1]) - lin(a[0])
                if sn == "assign":
                    self.need(eng, s, self.a(s, "tmp") == 0, "waiting data are overwritten", c.ln, "overwrite")
                    s.store[TS] = s.store[TW] = ZERO
                self.position(eng, s, a[0], n.term(), c.ln, "queueing")
                self.setg(s, TS, self.g(s, TS) + n)
                self.setg(s, TW, self.g(s, TW) + n)
                self.need(eng, s, self.a(s, "pend") == 0, "data are queued behind two queues", c.ln, "two queues")
                self.put(s, tmp=1)
                return UNIT
            return self.each(st, f)
        if sn == "clear":
            def f(s):
                self.need(eng, s, self.mode == "write" and self.eq0(s, self.g(s, TS) - self.g(s, TSENT)),
                          "waiting data are dropped", c.ln, "dropped")
                if self.a(s, "tmp"):
                    self.put(s, freed=1)
                self.put(s, tmp=0)
                s.store[TS] = s.store[TW] = s.store[TSENT] = ZERO
                return UNIT
            return self.each(st, f)
        if sn == "erase":
            a = [eng.iter_val(st, x) if isloc(x) else x for x in c.args]
            a = [x[1] if x[0] == "R" else x for x in a]
            if len(a) != 2 or not (a[0][0] == "call" and a[0][1].endswith("begin")):
                self.fail(eng, st, "other bytes are removed than those sent", c.ln, "erase")
                return UNIT

            def f(s):
                n = self.g(s, TS) if a[1][0] == "call" and a[1][1].endswith("end") else Lin({(x if x[0] != "call" else ("begin",)): k for x, k in lin(a[1]).a.items()}, lin(a[1]).k)
                n = n - Lin({("begin",): n.a.get(("begin",), 0)})
                self.need(eng, s, self.mode == "write" and self.eq0(s, n - self.g(s, TSENT)), "other bytes are removed than those sent", c.ln, "erase")
                ts = self.g(s, TS) - n
                s2 = s.copy()
                for x in (s, s2):
                    x.store[TSENT] = ZERO
                self.put(s, tmp=1)
                t = fresh(s, "large")
                s.facts[t] = (1, INF, frozenset())
                s.store[TS] = s.store[TW] = t
                self.put(s2, tmp=0, freed=1)
                s2.store[TS] = s2.store[TW] = ZERO
                return [(s, UNIT), (s2, UNIT)]
            return self.each(st, f)
        if sn in ("begin", "end", "cbegin", "cend"):
            return None
        if sn in ("shrink_to_fit", "reserve", "capacity"):
            return UNIT
        raise AnalysisError("tcp_socket: %s of the large buffer is not modelled" % sn)

    # ---------------------------------------------------------------- exits
    def on_exit(self, eng, st, kind, v):
        if kind not in ("return", "ret"):
            return
        self.exits += 1
        res = eng.decide(st, v) if v is not None else None
        if res is None and isconst(v):
            res = v[1] != 0
        if not self.a(st, "unlocked"):
            pass
        self.release_point(eng, st, None)
        self.need(eng, st, not self.a(st, "popped") and not self.a(st, "early"), "a buffer is lost", None, "lost buffer")
        shut = eng.decide(st, self.shut(st))
        waits = self.a(st, "pend") == 1 or self.a(st, "tmp") == 1
        unknown = self.a(st, "pend") is None
        if self.mode == "write":
            if res is not False:
                self.need(eng, st, not self.a(st, "err"), "the connection goes on after a failed transfer", None, "error ignored")
                if waits:
                    self.need(eng, st, self.a(st, "again") == 1, "sending stops although the kernel may take more", None, "stops")
                else:
                    self.need(eng, st, self.a(st, "flushed") == 1, "what was sent last is not flushed", None, "flush")
                    self.need(eng, st, shut is False, "a connection to be closed stays open after everything was sent", None, "close")
                self.need(eng, st, not self.a(st, "freed"), "those who wait for buffer space are not notified", None, "notify")
            else:
                ok = self.a(st, "err") or (not waits and shut is True and self.a(st, "flushed"))
                self.need(eng, st, ok, "the connection is closed although data can still be sent", None, "closed early")
            return
        if res is None:
            self.fail(eng, st, "the result is not determined", None, "result")
            return
        if res:
            self.need(eng, st, not self.a(st, "closed") and not self.a(st, "invalid"), "success is reported on a dead connection", None, "dead")
            self.need(eng, st, not self.a(st, "err"), "the connection goes on after a failed transfer", None, "error ignored")
            self.need(eng, st, self.eq0(st, self.total() - self.g(st, SENT)), "success is reported although part of the message was not taken", None, "incomplete")
            if self.closing:
                self.need(eng, st, waits and shut is True, "the connection is not going to be closed", None, "close")
            elif not waits and not self.a(st, "flushed") and self.flush is not None:
                self.need(eng, st, eng.decide(st, self.flush) is False, "a finished response is not flushed", None, "flush")
            if self.closing and shut is True and False:
                pass
        else:
            if self.a(st, "invalid"):
                return
            self.need(eng, st, self.a(st, "closed") == 1, "the connection goes on after an incomplete message", None, "not closed")
            ok = self.a(st, "err") or shut is True and not self.emitted(st)
            if self.closing:
                done = self.eq0(st, self.total() - self.g(st, SENT)) and not waits and not unknown and self.a(st, "flushed")
                ok = ok or done
            self.need(eng, st, ok, "the connection is closed although nothing failed", None, "closed early")

    def emitted(self, st):
        return st.store.get(SENT) != ZERO


def entry(m, name):
    f = m.one(TCP + "::" + name)
    return f


@prop("T01", "send", floor=4)
def sends(ctx):
    m = ctx.m
    F = fields_of(m)

    def job(ctx, x):
        name, k = x
        f = entry(m, name)
        r = Stream(m, F, "send", "close" in name)
        if k == "any":
            r.loose, r.affine, r.split_loops, k = True, False, False, None
            nums = number_ids(m, lambda g: g.file.endswith(("tcp.cpp", "tcp.hpp")))
            r.untracked = lambda l: l[0] == "L" and l[2] in nums or l[0] == "I" or l[0] == "F" and l[1][0] == "I"
            r.keep_fact = lambda eng, st, t: not any_sub(t, lambda x: x[0] in ("unk", "ld") and x != r.flush)
        eng = Engine(m, r)
        args = None
        fdl = ("F", TH, next(fl["n"] for fl in m.record(RES)["fields"] if "int" == norm(fl["t"]).replace("const ", "")))
        r.fdv = ("ld", fdl, 0)
        if k is None:
            P, N = ("&", ("O", "data")), ("ld", ("O", "length"), 0)
            r.segs = [(P, N)]
            args = [P, N]
        else:
            v = ("O", "iov")
            args = [("&", v), C(k)]
            for i in range(k):
                e = ("I", v, C(i))
                r.segs.append((("&", ("O", "data%d" % i)), ("ld", ("F", e, "len"), 0)))
        if len(f.params) > 2:
            r.flush = ("ld", ("O", "flush"), 0)
            args.append(r.flush)
        st = eng.initial(f, this=TH, this_cls=TCP, args=args, auto=frozenset())
        if k is not None:
            for i in range(k):
                e = ("I", v, C(i))
                st.store[("F", e, "p")] = r.segs[i][0]
                st.store[("F", e, "len")] = r.segs[i][1]
        for p, n in r.segs:
            st.facts[n] = (0, INF, frozenset())
        r.start(st)
        eng.run(st)
        ctx.engine(eng)
        ctx.need(r.exits >= 2 and r.emits >= 3, "tcp_socket::%s sends nothing" % name)
        if r.loose:
            ctx.instance("tcp_socket::%s: nothing overtakes what waits, messages are not interrupted or interleaved, failures end the connection" % name)
        else:
            ctx.instance("tcp_socket::%s: every byte is handed over once, in order, under the lock" % name)
        ctx.count("transfers_checked", r.emits)

    jobs = [(n, None) for n in ("send", "send_close")] + [(n, "any") for n in ("sendv", "sendv_close")]
    ctx.parallel(job, jobs)


class FreeAll(ForEach):
    """every buffer is freed once, the lists are emptied, nothing more is accepted"""

    def __init__(self, m, F):
        self.F = {k: ("F", TH, n) for k, n in F.items()}

        def spec(q, what):
            return {"name": "freeing the %s" % what, "base": lambda l: l == self.F[q],
                    "event": lambda eng, st, c: self.get(st, 1 - self.QS.index(q)) != "open" and self.is_free(c)}
        ForEach.__init__(self, [spec("pend", "waiting buffers"), spec("free", "free buffers")])
        self.freed = 0

    QS = ["pend", "free"]

    def opaque(self, eng, func, name):
        return not func.lambda_ and func.cls != TCP

    def is_free(self, c):
        return c.func is None and (c.name or "").rsplit("::", 1)[-1] in ("free", "tc_free", "cfree")

    def locked(self, eng, st, ln):
        if not any(h[0] == self.F["mu"] and h[1] == "w" for h in st.held):
            eng.violation(st, "the buffers are freed without the socket's lock", ln, key="free: unlocked")

    def call(self, eng, st, c):
        if self.is_free(c):
            self.freed += 1
            self.locked(eng, st, c.ln)
            if not any(self.get(st, k) in ("open", "done") for k in (0, 1)):
                eng.violation(st, "a buffer is freed outside the walk over the lists", c.ln, key="free: stray")
            k = [k for k in (0, 1) if self.get(st, k) == "done"]
            if k and ("once", k[0]) in st.auto:
                eng.violation(st, "a buffer is freed twice", c.ln, key="free: twice")
            if k:
                st.auto = st.auto | {("once", k[0])}
            return UNIT
        if c.name == "std::tie":
            return ("tie",) + tuple(c.args)
        if (c.node.get("sn") or "") == "operator=" and c.obj is not None and c.obj[0] == "tie":
            for k, l in enumerate(c.obj[1:]):
                if isloc(l) and not (l[0] == "G" and "ignore" in l[1]):
                    eng.assign(st, l, ("unk", "entry", k), c.ln)
            return UNIT
        for q in ("pend", "free", "tmp"):
            sn = c.node.get("sn")
            if (c.obj == self.F[q] or sn == "swap" and self.F[q] in c.args) and not c.ctor:
                if sn in ("clear", "swap", "assign", "resize", "operator="):
                    st.auto = st.auto | {("cleared", q)}
                    if q != "tmp" and self.get(st, self.QS.index(q)) != "complete":
                        eng.violation(st, "buffers are forgotten without being freed", c.ln, key="free: forgotten " + q)
        return None

    def on_branch(self, eng, st, t, out, ln):
        b = st.auto
        ForEach.on_branch(self, eng, st, t, out, ln)
        if st.auto != b:
            st.auto = frozenset(x for x in st.auto if x[0] != "once")

    def get(self, st, k):
        for x in st.auto:
            if x[0] == k:
                return x[1]
        return "start"

    def on_exit(self, eng, st, kind, v):
        ForEach.on_exit(self, eng, st, kind, v)
        if kind != "return":
            return
        for q, what in (("pend", "the waiting buffers"), ("free", "the free buffers")):
            if ("cleared", q) not in st.auto:
                eng.violation(st, "%s stay listed after they were freed" % what, key="free: listed " + q)
        if ("cleared", "tmp") not in st.auto:
            eng.violation(st, "data of a dead connection stay queued", key="free: tmp")
        if eng.decide(st, eng.load(st, self.F["shut"])) is not True:
            eng.violation(st, "the socket accepts data after its buffers were freed", key="free: accepts")


@prop("T01", "end-of-connection", floor=2)
def freeing(ctx):
    """a dead connection frees its buffers, refuses further data and wakes up those who wait"""
    m = ctx.m
    F = fields_of(m)
    inv = m.one(TCP + "::on_invalidate")
    r = FreeAll(m, F)
    eng = Engine(m, r)
    cond = ("F", TH, F["cond"])
    old = r.call

    def call(eng, st, c):
        if c.obj == cond and c.node.get("sn") == "notify_all":
            if eng.decide(st, eng.load(st, r.F["shut"])) is True:
                st.auto = st.auto | {("notified", 1)}
        return old(eng, st, c)
    r.call = call
    oe = r.on_exit

    def on_exit(eng, st, kind, v):
        oe(eng, st, kind, v)
        if kind == "return" and ("notified", 1) not in st.auto:
            eng.violation(st, "those who wait for buffer space never learn that the connection is dead", key="free: notify")
    r.on_exit = on_exit
    eng.run(eng.initial(inv, this=TH, this_cls=TCP, auto=frozenset()))
    ctx.engine(eng)
    ctx.need(r.freed >= 2, "on_invalidate frees no buffers")
    ctx.instance("tcp_socket::on_invalidate: every buffer is freed once under the lock, lists emptied, refusal set, waiters woken")
    # whoever learns that the pending data cannot be written closes the connection
    for f in m.funcs.values():
        for i in (f.instrs() if f.blocks else ()):
            if i["k"] == "call" and i.get("f") and m.funcs.get(i["f"]) is not None and m.funcs[i["f"]].n == TCP + "::write_pending_data":
                passed_on(ctx, m, f, i)


class Result(Rule):
    def __init__(self):
        self.n = 0

    def opaque(self, eng, func, name):
        return True

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if sn == "write_pending_data":
            self.n += 1
            s2 = st.copy()
            s2.auto = frozenset(["failed"])
            st.auto = frozenset()
            return [(st, ONE), (s2, ZERO)]
        if sn in ("invalidate", "invalidate_and_close", "invalidate_and_close_"):
            st.auto = frozenset(x for x in st.auto if x != "failed") | {"closed"}
            return ZERO if sn == "invalidate" else UNIT
        return None

    def on_exit(self, eng, st, kind, v):
        if kind != "return" or "failed" not in st.auto:
            return
        if v is None or eng.decide(st, v) is not False:
            eng.violation(st, "the connection stays open after its pending data could not be sent", key="pending result ignored")


def passed_on(ctx, m, f, i):
    r = Result()
    eng = Engine(m, r)
    eng.run(eng.initial(f, this=TH, this_cls=f.cls, auto=frozenset()))
    ctx.engine(eng)
    ctx.need(r.n, "%s: the call of write_pending_data is not reached" % f.n)
    if f.lambda_ or norm(f.ret or "") == "bool":
        ctx.instance("%s: a failure to send what waits ends the connection" % f.n)


class Edge(Stream):
    """only: writing ends with EAGAIN or with nothing left"""

    def fail(self, eng, st, msg, ln, key):
        if key in ("stops", "queues"):
            Stream.fail(self, eng, st, msg, ln, key)


def write_side(ctx, cls):
    m = ctx.m
    f = entry(m, "write_pending_data")
    r = cls(m, fields_of(m), "write")
    r.fdv = ("ld", ("O", "fd"), 0)
    eng = Engine(m, r)
    st = eng.initial(f, this=TH, this_cls=TCP, args=[r.fdv], auto=frozenset())
    r.start(st)
    eng.run(st)
    ctx.engine(eng)
    ctx.need(r.exits >= 2 and r.emits >= 2, "write_pending_data sends nothing")
    return r


@prop("T01", "pending", floor=1)
def pending(ctx):
    write_side(ctx, Stream)
    ctx.instance("tcp_socket::write_pending_data: what waits is sent from its first unsent byte, once; buffers return to the free list; waiters wake up")


@prop("T04", "pending-output-written", floor=2)
def pending_edge(ctx):
    """the function writing buffered output returns success only after EAGAIN or when all buffers are empty"""
    r = write_side(ctx, Edge)
    ctx.instance("write_pending_data", r.exits)
