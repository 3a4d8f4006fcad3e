"""Sockets on the reactor: edge-triggered reading, hand-over of connections to workers."""
from check import prop
from engine import *
from effects import Closure, MustCall
from jobs import *
from model import AnalysisError, norm

RES = "cybozu::resource"
READS = {"recv", "accept4", "accept", "read", "recvfrom", "recvmsg", "readv"}
CLOSERS = {"invalidate", "invalidate_and_close", "invalidate_and_close_"}
EAGAIN, EINTR, ECONNRESET = 11, 4, 104


def is_errno(t):
    return any_sub(t, lambda x: x[0] == "call" and x[1] == "__errno_location")


def handlers_of(m, name):
    """(class, function) of every final implementation of a resource's event handler"""
    out = []
    for c in sorted(m.derived(RES)):
        f = find_method(m, c, name)
        if f is not None and f.blocks and f.cls != RES:
            out.append((c, f))
    if not out:
        raise AnalysisError("no class implements %s" % name)
    return out


def valid_field(m):
    """the flag resource::valid() reads"""
    f = m.one(RES + "::valid")
    fs = {i["fn"] for i in f.instrs() if i.get("fn")}
    for b in f.elems.values():
        if isinstance(b, dict) and b.get("fn"):
            fs.add(b["fn"])
    if len(fs) != 1:
        raise AnalysisError("the validity flag of resources was not recognised")
    return fs.pop()


def find_method(m, cls, name):
    todo, seen = [cls], set()
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        fs = [f for f in m.named(c + "::" + name) if not f.lambda_]
        if fs:
            return fs[0]
        todo += m.bases(c)
    return None


class Drain(Rule):
    """auto: frozenset of again / kept / gone / posted / more"""
    width = 600

    def __init__(self, m, recv_ids):
        self.m = m
        self.valid_f = valid_field(m)
        self.recv = recv_ids
        self.n = 0
        self.reads = 0
        cl = Closure.of(m)
        readers = {f.id for f in m.funcs.values() for i in f.instrs()
                   if i["k"] == "call" and (i.get("n") or "").lstrip(":") in READS}
        keep = {f.id for f in m.funcs.values() if (f.cls, f.sn) in (("cybozu::reactor", "add_readable"), ("cybozu::worker", "post_job"))}
        valid = {f.id for f in m.funcs.values() if f.cls == RES and f.sn in ("valid", "with_fd")}
        closers = {f.id for f in m.funcs.values() if f.cls == RES and f.sn in CLOSERS}
        # a helper of the connection that may or may not close it, depending on what it finds (short ones; dispatchers are summarised)
        helpers = {f.id for f in m.funcs.values() if not (f.cls or "cybozu::").startswith("cybozu::") and len(f.blocks) <= 16 and
                   cl.direct.get(f.id, set()) & closers}
        self.inline = cl.reaching(readers | keep) | valid | helpers
        self.must = MustCall(m, lambda g: g.cls == RES and g.sn in CLOSERS)

    def opaque(self, eng, func, name):
        if func.cls == RES and func.sn in CLOSERS:
            return True
        if func.cls in ("cybozu::reactor", "cybozu::worker", "cybozu::dynbuf") or name.startswith("cybozu::tcp_socket::send"):
            return True
        # follow only what reads, remembers or hands over; the rest is judged by what it always does
        return not func.lambda_ and func.id not in self.inline

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or c.name.split("::")[-1]
        if c.func is None and c.name.lstrip(":") in READS:
            self.n += 1
            self.reads += 1
            st.auto = st.auto - {"again"} | {"read"}
            return None
        if c.func is not None and ((c.func.cls == RES and sn in CLOSERS) or (c.func.id not in self.inline and self.must.always(c.func))):
            st.auto = st.auto | {"gone"}
        if c.func is not None and c.func.cls == "cybozu::reactor" and sn == "add_readable":
            if c.args and c.args[0] == ("O", "this"):
                st.auto = st.auto | {"kept"}
        if c.func is not None and c.func.cls == "cybozu::worker" and sn == "post_job":
            p = posted_jobs(eng, st, c)
            if p & self.recv:
                st.auto = st.auto | {"posted"}
        return None

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "op" and t[1] == "==" and out:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if is_errno(a) and b == C(EAGAIN):
                    st.auto = st.auto | {"again"}
        if not out and t[0] == "call" and t[1] == "atomic.load" and t[2] == self.valid(st):
            st.auto = st.auto | {"gone"}

    def valid(self, st):
        return ("F", ("O", "this"), self.valid_f)

    def done(self, st):
        return bool(st.auto & {"again", "kept", "gone", "posted"})

    def on_exit(self, eng, st, kind, v):
        if kind not in ("return",):
            return
        self.n += 1
        if not self.done(st) and not (v == ZERO and "read" not in st.auto):
            eng.violation(st, "returns although more input may be waiting, without arranging to be called again",
                          key="%s: input left" % norm(eng_func(st)))


def eng_func(st):
    return st.frames[0].f.n if st.frames else "?"


def posted_jobs(eng, st, c):
    """names of job members / lambda ids a call of post_job may hand over"""
    out = set()
    for a in c.args:
        vals = [a, st.store.get(a)] if isloc(a) else [a]
        for v in vals:
            if isinstance(v, tuple):
                any_sub(v, lambda t: out.add(t[2]) if t[0] == "F" and len(t) == 3 else None)
                if v and v[0] == "lam":
                    out.add(v[1])
    return out


def recv_set(m, cls):
    js, ks = jobs(m, cls), job_kind(m, cls)
    fl = {k for k, v in ks.items() if v == "recv"}
    return fl | {x for k in fl for x in js[k]}


@prop("T04", "input-drained-or-remembered", floor=12)
def drained(ctx):
    """every readable-event handler, and every receive job, returns only after the kernel has answered EAGAIN, or having asked the reactor
    to call it again, handed the input to a receive job, or invalidated the connection"""
    m = ctx.m
    for cls, f in handlers_of(m, "on_readable"):
        r = Drain(m, recv_set(m, cls))
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=cls))
        ctx.engine(e)
        ctx.instance("%s::on_readable" % cls, r.n)
    for cls in connection_classes(m):
        for fld, kind in job_kind(m, cls).items():
            if kind != "recv":
                continue
            for fid in jobs(m, cls)[fld]:
                r = Drain(m, set())
                e = Engine(m, r)
                f = m.funcs[fid]
                e.run(e.initial(f, auto=frozenset(), this_cls=cls))
                ctx.engine(e)
                ctx.instance("receive job of %s" % cls, r.n)
                ctx.need(r.reads, "the receive job of %s does not receive" % cls)


# ---------------------------------------------------------------------------- sending
SENDS = {"send", "writev", "sendmsg", "write", "sendto"}
TCP = "cybozu::tcp_socket"


def buffer_fields(m):
    """members of tcp_socket that hold output not yet written: those its emptiness test reads"""
    fs = [f["n"] for f in m.record(TCP)["fields"]]
    out = set()
    for f in m.named(TCP + "::empty"):
        for i in f.instrs():
            for x in iter_nodes(i):
                if x.get("fn") in fs:
                    out.add(x["fn"])
    if len(out) < 1:
        raise AnalysisError("the output buffers of tcp_socket were not recognised")
    return sorted(out)


def iter_nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from iter_nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from iter_nodes(v)


class Out(Rule):
    """output side of a connection. auto: frozenset of again / queued / sent / behind"""
    width = 1500

    def __init__(self, m):
        self.m = m
        self.bufs = buffer_fields(m)
        self.n = 0
        self.sends = 0
        # contents of segments and sums over them do not matter here
        self.untracked = lambda l: l[0] == "F" and len(l) == 3 and (l[2].startswith("iov_") or l[2] in ("len", "p"))

    def opaque(self, eng, func, name):
        return func.cls not in (TCP, RES) or func.sn in ("free_buffers", "on_buffer_full") or \
            (func.cls == RES and func.sn in CLOSERS)

    def size(self, eng, st, f):
        l = ("F", ("O", "this"), f)
        return ("call", "std::vector::size", l, (), eng.epoch_of(st, l))

    def empty(self, eng, st, f):
        return eng.decide(st, eng.op("==", self.size(eng, st, f), ZERO))

    def essential_fact(self, eng, st, t):
        return any_sub(t, lambda x: x[0] == "call" and x[1] == "std::vector::size" and isinstance(x[2], tuple) and x[2][0] == "F" and x[2][2] in self.bufs)

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or c.name.split("::")[-1]
        if c.cls == "std::condition_variable" and sn.startswith("wait"):
            for f in self.bufs:
                eng.havoc(st, ("F", ("O", "this"), f), ("h", st.top.f.id, c.eid))
            st.auto = st.auto - {"again", "behind"}
            return UNIT
        if c.func is None and c.name.lstrip(":") in SENDS:
            self.n += 1
            self.sends += 1
            self.direct(eng, st, c)
            st.auto = st.auto - {"again"} | {"sent"}
            return None
        if c.cls == "std::vector" and isloc(c.obj) and c.obj[0] == "F" and c.obj[2] in self.bufs and \
                sn in ("emplace_back", "push_back", "resize", "assign", "insert"):
            self.n += 1
            self.queue(eng, st, c)
        return None

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "op" and t[1] == "==" and out:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if is_errno(a) and b == C(EAGAIN):
                    st.auto = st.auto | {"again"}
        if t[0] == "op" and t[1] == "<" and not out and (t[2] == ZERO or not isconst(t[2])) and \
                not any_sub(t, lambda x: x[0] == "call" and x[1] == "std::vector::size"):
            # counts are unsigned, and indices run up to their bound
            eng.assume(st, eng.op("==", t[2], t[3]), True, ln)
        if t[0] == "op" and t[1] == "==" and not out:
            for f in self.bufs:
                if t == eng.op("==", self.size(eng, st, f), ZERO):
                    st.auto = st.auto | {"behind"}

    def direct(self, eng, st, c):
        pass

    def queue(self, eng, st, c):
        pass


class Sender(Out):
    def direct(self, eng, st, c):
        if "again" in st.auto:
            return
        for f in self.bufs:
            if self.empty(eng, st, f) is not True:
                eng.violation(st, "new data is written to the socket ahead of data still waiting in a buffer", c.ln, key="out of order")

    def queue(self, eng, st, c):
        if not st.auto & {"again", "behind"}:
            eng.violation(st, "data is put in a buffer although nothing tells when to write it (no EAGAIN, no earlier data waiting)", c.ln,
                          key="queued without EAGAIN")


def senders_of(m):
    """functions of tcp_socket that write caller data to the descriptor"""
    out = []
    for f in m.funcs.values():
        if f.cls == TCP and not f.lambda_ and any(i["k"] == "call" and (i.get("n") or "").lstrip(":") in SENDS for i in f.instrs()):
            out.append(f)
    return out


@prop("T04", "output-queued-behind-eagain", floor=6)
def queued(ctx):
    """data is put in a connection's buffer only after the socket answered EAGAIN or behind data already waiting, so that a writable
    event is due; data is written directly only when nothing waits"""
    m = ctx.m
    for f in senders_of(m):
        if f.sn == "write_pending_data":
            continue
        r = Sender(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=TCP))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)
