"""What a receive job does with the bytes of its connection: every complete request executed once, in order; the rest kept."""
from check import prop
from engine import *
from effects import Closure
from affine import Lin, lin, proves_zero, proves_ge0, fresh, ghost
from jobs import connection_classes, job_kind, jobs
from model import AnalysisError, norm
from rules.sockets import RES, CLOSERS

DYN = "cybozu::dynbuf"
TCP = "cybozu::tcp_socket"
MAXREQ = 30 << 20
EXEC, RECV = ghost("executed"), ghost("received")
REQUEST = ("sym", "request", 0)
TRYAT, TRYTO, TRYLEN = ghost("tried at"), ghost("tried to"), ghost("tried length")


def request_classes(m):
    """classes of requests: constructed from (const char*, size) and asked for their length"""
    out = {}
    for f in m.funcs.values():
        if f.ctor and f.cls and f.blocks and [t for _, _, t in f.params][:1] == ["const char *"] and len(f.params) == 2 and \
                m.named(f.cls + "::length") and f.cls.endswith("request"):
            out[f.cls] = f
    return out


class Frames(Rule):
    """positions are counted in bytes of the connection's input, from the first byte the job finds left over; a pointer to the byte at
    position k is STREAM + k. auto: frozenset of 'dead' (connection given up)"""
    width = 900
    affine = True

    def __init__(self, m, reqs, what):
        self.m, self.reqs, self.what = m, reqs, what
        self.n = self.executed = self.received = 0
        self.exec_f = {f.id for f in m.funcs.values() if not f.ctor and f.cls not in reqs and not f.lambda_ and
                       any(self.req_of(t) for _, _, t in f.params) and f.blocks}
        self.res = m.enum_map(TCP + "::recv_result")

    def req_of(self, t):
        t = norm(t).replace("const ", "").rstrip(" &")
        return t if t in self.reqs else None

    def keep_fact(self, eng, st, t):
        return True

    # ------------------------------------------------------------ ghosts
    def g(self, st, l):
        return lin(st.store[l]) if l in st.store else Lin({("unk", "lost", l): 1})

    def setg(self, st, l, v):
        st.store[l] = v.term()

    def size_l(self, b):
        return ghost("size " + repr(b))

    def start_l(self, b):
        return ghost("start " + repr(b))

    def size(self, st, b):
        return self.g(st, self.size_l(b))

    def start(self, st, b):
        return self.g(st, self.start_l(b))

    def side(self, st):
        r = [self.g(st, RECV) - self.g(st, EXEC), self.g(st, EXEC)]
        for l in st.store:
            if l[0] == "G" and l[1].startswith("ghost:size"):
                r.append(self.g(st, l))
        return r

    def ge0(self, st, l):
        return proves_ge0(st, l, (), self.side(st))

    def zero(self, st, l):
        return proves_zero(st, l) or (self.ge0(st, l) and self.ge0(st, -l))

    def on_decide(self, eng, st, o, a, b):
        d = lin(b) - lin(a)
        k = d.const()
        if k is not None:
            return k > 0 if o == "<" else k == 0
        if any(x[0] in ("&", "s", "call", "lam", "ld") for x in d.a):
            return None
        if o == "<":
            return True if self.ge0(st, d - Lin({}, 1)) else False if self.ge0(st, -d) else None
        if self.ge0(st, d - Lin({}, 1)) or self.ge0(st, -d - Lin({}, 1)):
            return False
        return True if self.zero(st, d) else None

    def need(self, eng, st, ok, msg, ln=None):
        self.n += 1
        if not ok and "dead" not in st.auto:
            eng.violation(st, "%s: %s" % (self.what, msg), ln, key="%s: %s" % (self.what, msg))
        return ok

    def tracked(self, b):
        return isloc(b) and (b == ("O", "buf") or (b[0] == "F" and b[1] == ("O", "this")) or b[0] == "L")

    STREAM = ("sym", "STREAM", 0)

    def pointer(self, st, b):
        return Lin({self.STREAM: 1}) + self.start(st, b)

    def moved(self, st):
        """contents move: pointers obtained so far are stale"""
        t = self.STREAM
        for l, v in list(st.store.items()):
            if isinstance(v, tuple) and subterm(v, t):
                st.store[l] = ("unk", "stale", l)
        for fr in st.frames:
            for x, v in list(fr.vals.items()):
                if isinstance(v, tuple) and subterm(v, t):
                    fr.vals[x] = ("unk", "stale", x)
        for f in [f for f in st.facts if subterm(f, t)]:
            del st.facts[f]

    def where(self, st, p):
        """position a pointer points at, or None"""
        p = lin(p)
        return p - Lin({self.STREAM: 1}) if p.a.get(self.STREAM) == 1 else None

    def rebase(self, eng, st):
        """count positions from the first byte not executed yet; nothing but the buffers' extents refers to them any more"""
        e = self.g(st, EXEC)
        rest = self.g(st, RECV) - e
        if self.zero(st, rest):
            r = Lin()
        else:
            t = fresh(st, "rest")
            least = max([k for k in (0, 1, MAXREQ + 1) if self.ge0(st, rest - Lin({}, k))], default=0)
            r = lin(t)
        for l in [l for l in st.store if l[0] == "G" and l[1].startswith("ghost:") and l not in (EXEC, RECV)]:
            v = self.g(st, l)
            if l[1].startswith("ghost:start") or l in (TRYAT, TRYTO):
                v = v - e
                if self.zero(st, v):
                    v = Lin()
            if self.zero(st, v - rest):
                v = r
            self.setg(st, l, v)
        for l, v in list(st.store.items()):
            if l[0] == "L" and v[0] in ("op", "sym", "W") and self.zero(st, lin(v) - rest):
                self.setg(st, l, r)
        for l in [l for l in st.store if l[0] == "G" and l[1].startswith("ghost:size")]:
            if self.zero(st, self.g(st, l)):
                st.store[l] = ZERO
                st.store[("G", l[1].replace("ghost:size", "ghost:start", 1))] = ZERO
        st.store[EXEC] = ZERO
        self.setg(st, RECV, r)
        if r.a:
            st.facts[t] = (least, INF, frozenset())
        self.forget(st)

    def forget(self, st):
        """drop what is known about numbers nothing refers to any more"""
        live = set()
        for v in st.store.values():
            if isinstance(v, tuple) and v[0] in ("op", "sym", "W", "unk"):
                live |= set(lin(v).a)
        for fr in st.frames:
            for v in fr.vals.values():
                if isinstance(v, tuple) and v[0] in ("op", "sym", "W", "unk"):
                    live |= set(lin(v).a)
        for f in list(st.facts):
            if f[0] in ("sym", "W", "op", "call", "unk") and not set(lin(f[2]).a | lin(f[3]).a if f[0] == "op" and f[1] in ("<", "==") else lin(f).a) <= live:
                del st.facts[f]

    # ------------------------------------------------------------ events
    def opaque(self, eng, func, name):
        if func.cls in self.reqs or func.cls == DYN or func.id in self.exec_f:
            return True
        if func.cls == TCP or func.cls in ("cybozu::reactor", "cybozu::worker") or (func.cls == RES):
            return True
        return self.first_byte(func) or not (func.lambda_ or self.follows(func))

    def first_byte(self, func):
        return func.ret == "bool" and len(func.params) == 1 and func.params[0][2] == "const char *"

    def follows(self, func):
        cl = Closure.of(self.m)
        if not hasattr(self, "_inl"):
            hot = {f.id for f in self.m.funcs.values() if f.cls in self.reqs or f.cls == DYN or (f.cls == TCP and f.sn == "receive")} | self.exec_f
            hot |= {f.id for f in self.m.funcs.values() if f.cls == RES and f.sn in CLOSERS}
            self._inl = cl.reaching(hot)
        return func.id in self._inl and func.cls not in (TCP, RES)

    def on_call(self, eng, st, c):
        f = c.func
        if f is None:
            return None
        if f.cls == DYN and isloc(c.obj):
            return self.buffer(eng, st, c)
        if f.cls == DYN and f.ctor:
            return None
        if f.cls == TCP and f.sn == "receive":
            return self.receive(eng, st, c)
        if f.cls in self.reqs:
            if f.ctor and len(f.params) == 2:
                return self.parse(eng, st, c)
            if f.sn == "length" and isloc(c.obj):
                return eng.load(st, ("F", c.obj, "parsed length"))
            return None
        if f.id in self.exec_f:
            self.execute(eng, st, c)
            return UNIT
        if f.cls == RES and f.sn in CLOSERS:
            res = st.auto & {"dead"}
            self.need(eng, st, res or self.ge0(st, self.g(st, RECV) - self.g(st, EXEC) - Lin({}, MAXREQ + 1)),
                      "gives up a connection whose requests are within the limits", c.ln)
            st.auto = st.auto | {"dead"}
            return None
        if self.first_byte(f) and c.args:
            w = self.where(st, c.args[0])
            self.need(eng, st, w is not None and self.zero(st, w - self.g(st, EXEC)), "the protocol is not chosen by the first byte of the next request", c.ln)
            return ("call", c.name, None, (), ("site", st.top.f.id, c.eid)) if w is None else ("call", c.name, None, (w.term(),), 0)
        return None

    def buffer(self, eng, st, c):
        f, b = c.func, c.obj
        sn = f.sn
        if b[0] == "F" and b[1] == ("O", "this") or b == ("O", "buf"):
            pass
        elif self.size_l(b) not in st.store:
            st.store[self.size_l(b)] = st.store[self.start_l(b)] = ZERO
        if self.size_l(b) not in st.store:
            raise AnalysisError("%s: the content of a buffer is unknown (%s)" % (self.what, show(b)))
        sz, at = self.size(st, b), self.start(st, b)
        if sn == "size":
            return sz.term()
        if sn == "empty":
            return eng.op("==", sz.term(), ZERO)
        if sn == "data":
            return self.pointer(st, b).term()
        if sn == "reset":
            self.setg(st, self.size_l(b), Lin())
            self.moved(st)
            return UNIT
        if sn == "erase":
            n = lin(c.args[0])
            if self.settled(st):
                st.auto = st.auto | {"settled"}
            self.untried(st)
            self.need(eng, st, self.ge0(st, n) and self.ge0(st, sz - n), "more is discarded than the buffer holds", c.ln)
            self.setg(st, self.start_l(b), at + n)
            self.setg(st, self.size_l(b), sz - n)
            self.moved(st)
            self.rebase(eng, st)
            return UNIT
        if sn == "swap" and c.args and isloc(c.args[0]):
            o = c.args[0]
            for a in (self.size_l, self.start_l):
                st.store[a(b)], st.store[a(o)] = st.store.get(a(o), ZERO), st.store.get(a(b), ZERO)
            return UNIT
        if sn == "append":
            n, w = lin(c.args[1]), self.where(st, c.args[0])
            if not self.need(eng, st, w is not None, "bytes appended to a buffer are not taken from the input as it is", c.ln):
                w = Lin({("unk", "appended"): 1})
            if self.zero(st, n):
                return UNIT
            if self.zero(st, sz):
                self.setg(st, self.start_l(b), w)
            else:
                self.need(eng, st, self.zero(st, w - at - sz), "bytes are put in a buffer out of order", c.ln)
            self.setg(st, self.size_l(b), sz + n)
            self.moved(st)
            return UNIT
        if f.const:
            return None
        raise AnalysisError("%s: no rule for dynbuf::%s" % (self.what, sn))

    def receive(self, eng, st, c):
        b = c.args[0]
        if b[0] == "&":
            b = b[1]
        self.received += 1
        if self.settled(st):
            st.auto = st.auto | {"settled"}
        self.untried(st)
        self.moved(st)
        for l, v in list(st.store.items()):
            if l[0] == "L" and v[0] in ("op", "sym", "W"):
                st.store[l] = ("unk", "stale", l)
        self.forget(st)
        out = []
        for name, v in sorted(self.res.items()):
            s = st.copy()
            if name == "OK":
                if self.zero(s, self.size(s, b)):
                    self.setg(s, self.start_l(b), self.g(s, RECV))
                self.need(eng, s, self.zero(s, self.start(s, b) + self.size(s, b) - self.g(s, RECV)), "input is received behind other bytes than the ones before it", c.ln)
                s.auto = s.auto - {"settled"}
                k = fresh(s, "got")
                s.facts[k] = (1, INF, frozenset())
                self.setg(s, self.size_l(b), self.size(s, b) + lin(k))
                self.setg(s, RECV, self.g(s, RECV) + lin(k))
                self.moved(s)
            elif name in ("RESET", "NONE"):
                self.complete(eng, s, c.ln)
                s.auto = s.auto | {"dead"}
            out.append((s, C(v)))
        return out

    def parse(self, eng, st, c):
        w, n = self.where(st, c.args[0]), lin(c.args[1])
        ex = self.g(st, EXEC)
        self.need(eng, st, w is not None and self.zero(st, w - ex), "a request is not read right behind the one executed before", c.ln)
        self.need(eng, st, w is not None and self.zero(st, self.g(st, RECV) - ex - n), "a request is read from other than all bytes received", c.ln)
        if len([x for x in self.reqs if x.rsplit("::", 1)[0] == c.cls.rsplit("::", 1)[0]]) > 1:
            v = None
            for t, val in st.facts.items():
                if t[0] == "call" and len(t[3]) == 1 and self.zero(st, lin(t[3][0]) - ex) and isinstance(val, bool):
                    v = val
                elif t[0] == "call" and len(t[3]) == 1 and self.zero(st, lin(t[3][0]) - ex):
                    v = eng.decide(st, t)
            self.need(eng, st, v is ("binary" in c.cls), "a request is read by the wrong protocol's parser", c.ln)
        self.untried(st)
        k = fresh(st, "len")
        st.facts[k] = (0, INF, frozenset())
        st.facts[("op", "<", n.term(), k)] = False
        obj = ("R", REQUEST)
        st.store[("F", obj, "parsed length")] = k
        st.store[("F", obj, "parsed at")] = ex.term()
        st.store[TRYAT], st.store[TRYTO], st.store[TRYLEN] = ex.term(), st.store[RECV], k
        return obj

    def execute(self, eng, st, c):
        obj = None
        for k, (_, _, t) in enumerate(c.func.params):
            if self.req_of(t) and k < len(c.args):
                obj = c.args[k][1] if c.args[k][0] == "&" else c.args[k]
        n, at = (eng.load(st, ("F", obj, "parsed " + x)) for x in ("length", "at"))
        self.executed += 1
        if n[0] == "ld":
            raise AnalysisError("%s: a request is executed that was not seen being read" % self.what)
        self.need(eng, st, self.ge0(st, lin(n) - Lin({}, 1)), "an incomplete request is executed", c.ln)
        self.need(eng, st, self.zero(st, lin(at) - self.g(st, EXEC)), "a request is executed twice or out of order", c.ln)
        self.setg(st, EXEC, self.g(st, EXEC) + lin(n))

    def on_branch(self, eng, st, t, out, ln):
        if "settled" not in st.auto and self.settled(st):
            st.auto = st.auto | {"settled"}
        if st.store[EXEC] != ZERO and self.zero(st, self.g(st, EXEC)):
            self.rebase(eng, st)

    def untried(self, st):
        for l in (TRYAT, TRYTO, TRYLEN):
            st.store.pop(l, None)
        for l in [l for l in st.store if l[0] == "F" and isinstance(l[2], str) and l[2].startswith("parsed ")]:
            del st.store[l]

    def settled(self, st):
        """nothing received so far makes up a complete request that was not executed"""
        if "settled" in st.auto or self.zero(st, self.g(st, RECV) - self.g(st, EXEC)):
            return True
        return TRYAT in st.store and self.zero(st, self.g(st, TRYAT) - self.g(st, EXEC)) and \
            self.zero(st, self.g(st, TRYTO) - self.g(st, RECV)) and self.zero(st, self.g(st, TRYLEN))

    def complete(self, eng, st, ln=None):
        self.need(eng, st, self.settled(st), "stops although a complete request may have been received", ln)
        return self.g(st, RECV) - self.g(st, EXEC)

    def on_exit(self, eng, st, kind, v):
        if kind != "return" or "dead" in st.auto:
            return
        rest = self.complete(eng, st)
        p = self.kept
        self.need(eng, st, self.zero(st, rest - self.size(st, p)) and (self.zero(st, rest) or self.zero(st, self.start(st, p) - self.g(st, EXEC))),
                  "what is kept for the next job is not exactly what has not been executed")


def pending_member(m, cls):
    """the member buffer that keeps input between two jobs"""
    fs = []
    c = [cls]
    fs = [f["n"] for f in m.record(cls)["fields"] if norm(f["t"]) == DYN]
    if len(fs) != 1:
        raise AnalysisError("%s: the buffer for incomplete requests was not recognised" % cls)
    return fs[0]


@prop("F01", "receive-jobs", floor=2)
def receive_jobs(ctx):
    """positions of the input as linear ghosts: requests are read right behind each other from all bytes received, executed once complete,
    and the bytes behind the last one executed are kept, in order, for the next job"""
    m = ctx.m
    reqs = request_classes(m)
    for cls in connection_classes(m):
        for fld, kind in job_kind(m, cls).items():
            if kind != "recv":
                continue
            for fid in jobs(m, cls)[fld]:
                f = m.funcs[fid]
                r = Frames(m, reqs, cls.split("::")[-1])
                r.kept = ("F", ("O", "this"), pending_member(m, cls))
                for some in (False, True):
                    e = Engine(m, r)
                    st = e.initial(f, args=[("O", "buf")], auto=frozenset({"settled"}), this_cls=cls)
                    left = ("sym", "left over", 0) if some else ZERO
                    if some:
                        st.facts[left] = (1, INF, frozenset())
                    st.store[EXEC] = ZERO
                    st.store[RECV] = left
                    st.store[r.size_l(r.kept)], st.store[r.start_l(r.kept)] = left, ZERO
                    st.store[r.size_l(("O", "buf"))] = st.store[r.start_l(("O", "buf"))] = ZERO
                    e.run(st)
                    ctx.engine(e)
                ctx.need(r.executed and r.received, "the receive job of %s executes nothing" % cls)
                ctx.instance("receive job of %s: %d obligations" % (cls, r.n), r.n)
