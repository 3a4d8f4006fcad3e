"""Descriptors and their resources: opening, closing, invalidation, removal from the reactor."""
from check import prop
from engine import *
from effects import Closure
from jobs import *
from loops import ForEach
from model import AnalysisError, norm
from rules.sockets import handlers_of, find_method, valid_field, iter_nodes, RES, CLOSERS, Drain, is_errno, eng_func, recv_set, ECONNRESET
from rules.roles import REACTOR, MCH, PROTO, field_writes, over
from rules.workers import atomic_op, field_accesses

OPENERS = {"socket", "accept4", "accept", "open", "dup", "dup2", "dup3", "mkostemp", "mkstemp", "eventfd", "signalfd", "epoll_create1",
           "epoll_create", "fcntl_dup", "openat", "memfd_create"}
TH = ("O", "this")


def leaf(c):
    return c.name.lstrip(":")


def closed_fields(m):
    """(flag that the descriptor is closed, descriptor, lock) of the resource class"""
    fs = m.record(RES)["fields"]
    fd = [f["n"] for f in fs if f["t"] in ("const int", "int")]
    lk = [f["n"] for f in fs if "mutex" in f["t"]]
    v = valid_field(m)
    cl = [f["n"] for f in fs if f["n"] != v and f["t"] in ("bool", "std::atomic<bool>", "std::atomic_bool")]
    if len(fd) != 1 or len(lk) != 1 or len(cl) != 1:
        raise AnalysisError("the members of resource were not recognised")
    return cl[0], fd[0], lk[0]


class CloseOnce(Rule):
    """auto: closed / free (flag read clear)"""
    width = 200

    def __init__(self, m, dtor):
        self.m, self.dtor = m, dtor
        c, f, l = closed_fields(m)
        self.closed, self.fd, self.lock = [("F", TH, x) for x in (c, f, l)]
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls != RES

    def on_call(self, eng, st, c):
        if c.func is None and leaf(c) == "close":
            self.n += 1
            if c.args and eng.decide(st, eng.op("==", c.args[0], eng.load(st, self.fd))) is not True:
                eng.violation(st, "a descriptor other than the resource's own is closed", c.ln, key="close: other")
            if eng.decide(st, eng.load(st, self.closed)) is not False or "closed" in st.auto:
                eng.violation(st, "the descriptor may be closed a second time", c.ln, key="close: twice")
            if not self.dtor and not any(h[0] == self.lock and h[1] == "w" for h in st.held):
                eng.violation(st, "the descriptor is closed while a worker may be using it (no write lock)", c.ln, key="close: unlocked")
            st.auto = st.auto | {"closed"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        flag = eng.decide(st, eng.load(st, self.closed))
        if "closed" in st.auto and not self.dtor and flag is not True:
            eng.violation(st, "the descriptor is closed but not marked closed", key="close: unmarked")
        if self.dtor and "closed" not in st.auto and flag is not True:
            eng.violation(st, "the descriptor is not closed on destruction", key="close: leak")
        if not self.dtor and "closed" not in st.auto and flag is True and self.written(st):
            eng.violation(st, "the descriptor is marked closed but was not closed", key="close: marked only")

    def written(self, st):
        return st.store.get(self.closed) == ONE


@prop("T02", "descriptor-closed-once", floor=6)
def close_once(ctx):
    """the descriptor of a resource is closed only by its destructor and by try_close, never twice; try_close holds the write lock that
    excludes workers using the descriptor and marks it closed; only the reactor calls try_close; nobody else closes it"""
    m = ctx.m
    tc = m.one(RES + "::try_close")
    ds = [f for f in m.funcs.values() if f.cls == RES and f.sn.startswith("~")]
    ctx.need(ds, "the destructor of resource was not found")
    for f, d in [(tc, False)] + [(f, True) for f in ds]:
        r = CloseOnce(m, d)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=RES))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)
    fd = closed_fields(m)[1]
    allowed = {tc.id} | {f.id for f in ds}
    helpers = set()
    for x in allowed:
        helpers |= {y for y in Closure.of(m).reach(x) if y in m.funcs and m.funcs[y].cls == RES}
    for f in m.funcs.values():
        for i in f.instrs():
            if i["k"] == "call" and (i.get("n") or "").lstrip(":") == "close":
                ctx.instance("close in %s" % norm(f.n))
                if f.id in allowed | helpers:
                    continue
                for a in i.get("a", []):
                    for x in deref_nodes(f, a):
                        if x.get("k") == "m" and x.get("fn") == fd and norm(x.get("cls") or "") == RES:
                            ctx.report("%s:%s" % (f.file, i.get("ln")), "the descriptor of a resource is closed outside try_close and the destructor",
                                       norm(f.n), key="close elsewhere")
                        if x.get("k") == "v" and f.sn.startswith("on_") and f.cls in set(m.derived(RES)) | {RES} and \
                                any(p[1] == x.get("n") for p in f.params):
                            ctx.report("%s:%s" % (f.file, i.get("ln")), "an event handler closes the descriptor itself", norm(f.n), key="handler closes")
    for f in m.funcs.values():
        for i in f.instrs():
            if i["k"] == "call" and i.get("f") == tc.id and f.cls not in (REACTOR, RES) and not f.lambda_:
                ctx.report("%s:%s" % (f.file, i.get("ln")), "try_close is called outside the reactor", norm(f.n), key="try_close elsewhere")


def deref_nodes(f, n, d=0):
    if isinstance(n, dict):
        if "r" in n and len(n) == 1:
            n = f.elems.get(n["r"])
            if d < 6 and isinstance(n, dict):
                yield from deref_nodes(f, n, d + 1)
            return
        yield n
        for k in ("e", "b", "obj"):
            if k in n:
                yield from deref_nodes(f, n[k], d + 1)


# ---------------------------------------------------------------------------- invalidation and removal
class Inv(Rule):
    """auto: inv (this path won the invalidation) / lost / told (on_invalidate) / req (removal requested)"""
    width = 500

    def __init__(self, m, worker):
        self.m, self.worker = m, worker
        self.valid = ("F", TH, valid_field(m))
        self.n = 0
        cl = Closure.of(m)
        ids = {f.id for f in m.funcs.values() if f.cls == RES and f.sn in CLOSERS}
        self.inline = cl.reaching(ids) | {f.id for f in m.funcs.values() if f.cls == RES and f.sn in ("valid", "with_fd")}

    def opaque(self, eng, func, name):
        if func.sn == "on_invalidate" or func.cls in (REACTOR, "cybozu::dynbuf", "cybozu::worker"):
            return True
        return not func.lambda_ and func.id not in self.inline

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] in ("atomic.cas", "atomic.exchange") and t[2] == self.valid:
            if out:
                self.n += 1
                st.auto = st.auto | {"inv"}
            else:
                st.auto = st.auto | {"lost"}

    def on_call(self, eng, st, c):
        a = atomic_op(c)
        if a and c.obj == self.valid:
            self.n += 1
            if a[0] in ("store",):
                eng.violation(st, "a resource is invalidated without finding out who did it first", c.ln, key="inv: store")
            if a[0] in ("cas", "rmw") and a[1] != ZERO:
                eng.violation(st, "an invalid resource is made valid", c.ln, key="inv: revived")
        if c.func is None and c.virt and c.name.endswith("on_invalidate") or (c.func is not None and c.func.sn == "on_invalidate"):
            self.n += 1
            if "inv" not in st.auto:
                eng.violation(st, "on_invalidate is called although this thread did not invalidate the resource", c.ln, key="inv: told")
            if "told" in st.auto:
                eng.violation(st, "on_invalidate is called twice", c.ln, key="inv: told twice")
            if "req" in st.auto:
                eng.violation(st, "the resource is cleaned up after its removal was requested: it may be gone", c.ln, key="inv: told after removal")
            st.auto = st.auto | {"told"}
            return UNIT
        if c.func is not None and c.func.cls == REACTOR and c.func.sn in ("request_removal", "remove_resource"):
            self.n += 1
            if "inv" not in st.auto:
                eng.violation(st, "the removal of a resource is requested by a thread that did not invalidate it", c.ln, key="inv: request")
            if "req" in st.auto:
                eng.violation(st, "the removal of a resource is requested twice", c.ln, key="inv: requested twice")
            st.auto = st.auto | {"req"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind not in ("return", "throw"):
            return
        self.n += 1
        if "inv" in st.auto and "told" not in st.auto:
            eng.violation(st, "the resource is invalidated without on_invalidate", key="inv: not told")
        self.verdict(eng, st, kind, v)

    def verdict(self, eng, st, kind, v):
        if kind != "return":
            return
        if self.worker:
            if "inv" in st.auto and "req" not in st.auto:
                eng.violation(st, "a resource is invalidated but its removal is never requested: its descriptor leaks", key="inv: no removal")
            return
        due = "inv" in st.auto and "req" not in st.auto
        d = False if v == ZERO else (True if isconst(v) else eng.decide(st, v))
        if due and d is not False:
            eng.violation(st, "the handler invalidated the resource but does not tell the reactor to remove it", key="inv: kept")
        if not due and d is not True:
            if "lost" in st.auto or d is False or "inv" in st.auto:
                eng.violation(st, "the handler tells the reactor to remove a resource that it did not invalidate itself", key="inv: removed twice")
            else:
                eng.violation(st, "the handler's answer to the reactor does not follow from what it did", key="inv: unknown answer")


@prop("T02", "handler-answer", floor=30)
def answers(ctx):
    """an event handler answers 'remove me' exactly when it won the invalidation of its resource and did not request its removal;
    the winner, and only the winner, calls on_invalidate, once"""
    m = ctx.m
    for sn in ("on_readable", "on_writable", "on_hangup", "on_error"):
        for cls, f in handlers_of(m, sn):
            r = Inv(m, False)
            e = Engine(m, r)
            e.run(e.initial(f, auto=frozenset(), this_cls=cls))
            ctx.engine(e)
            ctx.instance("%s::%s" % (cls, sn), r.n)
    for sn in ("on_hangup", "on_error"):
        for f in m.named(RES + "::" + sn):
            r = Inv(m, False)
            e = Engine(m, r)
            e.run(e.initial(f, auto=frozenset(), this_cls=RES))
            ctx.engine(e)
            ctx.instance(norm(f.n), r.n)


@prop("T02", "worker-side-invalidation", floor=12)
def worker_inv(ctx):
    """a thread other than the reactor invalidates a resource only through paths that request its removal, exactly once, if and only if this
    thread won the invalidation; resource::invalidate itself is never reached from workers or the GC thread"""
    m = ctx.m
    cl = Closure.of(m)
    roots = [f for f in m.funcs.values() if f.cls == RES and f.sn in ("invalidate_and_close", "invalidate_and_close_", "with_fd") and f.blocks]
    ctx.need(len(roots) >= 2, "the functions workers use to invalidate a resource were not found")
    for f in roots:
        r = Inv(m, True)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=RES))
        ctx.engine(e)
        ctx.instance(norm(f.n)[:80], r.n)
    inv = {f.id for f in m.funcs.values() if f.cls == RES and f.sn == "invalidate"}
    ctx.need(inv, "resource::invalidate was not found")
    off = []
    for cls in connection_classes(m):
        for ids in jobs(m, cls).values():
            off += [(cls, x) for x in ids]
    off += [(f.cls, f.id) for f in m.funcs.values() if f.sn == "run" and f.cls.endswith("gc_thread")]
    for cls, x in off:
        ctx.instance("off-reactor entry of %s" % cls)
        if cl.reach(x) & inv:
            ctx.report(m.funcs[x].loc, "resource::invalidate, which leaves the removal to the reactor, can be reached from another thread", cls,
                       key="%s: invalidate off the reactor" % cls)


# ---------------------------------------------------------------------------- the reactor
def rfield(m, *subs):
    for s in subs:
        fs = [f["n"] for f in m.record(REACTOR)["fields"] if s(f)]
        if len(fs) == 1:
            return fs[0]
    raise AnalysisError("a member of reactor was not recognised")


class Remove(Rule):
    """reactor::remove_resource(fd). auto: events seen, in order"""
    width = 300

    def __init__(self, m):
        self.m = m
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls != REACTOR

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        fld = c.obj[2] if isinstance(c.obj, tuple) and c.obj[0] == "F" and c.obj[1] == TH else None
        ev = None
        if c.func is None and leaf(c) == "epoll_ctl" and len(c.args) > 1 and c.args[1] == C(2):
            ev = "del"
        elif fld == "m_garbage" and sn in ("emplace_back", "push_back", "insert"):
            ev = "garbage"
        elif fld == "m_resources" and sn == "erase":
            ev = "unmap"
        elif fld == "m_readables" and sn == "erase":
            ev = "unread"
        elif fld == "m_readables" and sn in ("resize",):
            ev = "unread"
        elif c.func is not None and c.func.cls == RES and c.func.sn == "try_close":
            ev = "close"
        if ev:
            self.n += 1
            if ev == "unmap" and "garbage" not in st.auto:
                eng.violation(st, "the resource is destroyed at once although other threads may be using it", c.ln, key="remove: destroyed")
            if ev == "close" and "del" not in st.auto:
                eng.violation(st, "the descriptor is closed before it is removed from the polled set: another file may get its number", c.ln,
                              key="remove: closed first")
            if ev in ("unmap", "garbage", "del") and ev in st.auto:
                eng.violation(st, "done twice: " + ev, c.ln, key="remove: twice")
            st.auto = st.auto | {ev}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        for k, what in (("garbage", "is not put on the list of resources to destroy"), ("unmap", "stays in the map of resources"),
                        ("del", "is still polled"), ("unread", "stays in the list of readable resources"), ("close", "keeps its descriptor open")):
            if k not in st.auto:
                eng.violation(st, "a removed resource " + what, key="remove: no " + k)


@prop("T02", "removal-complete", floor=5)
def removal(ctx):
    """reactor::remove_resource moves the resource to the garbage list before it erases it from the map, erases it from the readable list,
    removes the descriptor from the polled set and only then tries to close it - or throws"""
    m = ctx.m
    fs = [f for f in m.named(REACTOR + "::remove_resource") if f.blocks and f.params[0][2] == "int"]
    ctx.need(len(fs) == 1, "reactor::remove_resource(int) was not found")
    r = Remove(m)
    e = Engine(m, r)
    e.run(e.initial(fs[0], auto=frozenset(), this_cls=REACTOR))
    ctx.engine(e)
    ctx.instance("remove_resource", r.n)


EVENTS = {"on_readable", "on_writable", "on_hangup", "on_error"}
BITS = {1: "on_readable", 4: "on_writable", 8: "on_error", 16: "on_hangup"}


class Poll(ForEach):
    """reactor::poll. auto also holds (20, ...): ('dead', result) a handler asked to be removed; ('rm',) removed in this iteration;
    ('it',) in an event iteration; ('bit', b, out); ('did', handler)"""
    width = 1500

    def __init__(self, m):
        self.m = m
        ForEach.__init__(self, [
            dict(name="remembered readable resources", base=over("m_readables_copy"), event=self.ev("on_readable")),
            dict(name="requested removals", base=over("m_drop_req_copy"), event=self.ev("remove_resource"))])
        self.swapped = self.cleared = 0

    def ev(self, sn):
        return lambda eng, st, c: (c.node.get("sn") == sn) and (c.func is None or c.func.cls in (RES, REACTOR) or c.virt)

    def opaque(self, eng, func, name):
        return func.sn in EVENTS or func.sn == "remove_resource" or func.cls != REACTOR

    def has(self, st, *t):
        return (20,) + t in st.auto

    def add(self, st, *t):
        st.auto = st.auto | {(20,) + t}

    def strip(self, st, pred):
        st.auto = frozenset(x for x in st.auto if not (x[0] == 20 and pred(x[1:])))

    def get(self, st, k):
        for x in st.auto:
            if x[0] == k and len(x) == 2:
                return x[1]
        return "start"

    def put(self, st, k, v):
        st.auto = frozenset([x for x in st.auto if not (x[0] == k and len(x) == 2)] + [(k, v)])

    def call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        fld = c.obj[2] if isinstance(c.obj, tuple) and c.obj[0] == "F" and c.obj[1] == TH else None
        if sn in EVENTS and (c.virt or (c.func is not None and c.func.sn in EVENTS)):
            self.n += 1
            if self.has(st, "dead"):
                eng.violation(st, "a resource that asked to be removed stays registered", c.ln, key="poll: not removed")
                self.strip(st, lambda x: x == ("dead",))
            if self.has(st, "rm"):
                eng.violation(st, "an event handler of a removed resource is called", c.ln, key="poll: handler after removal")
            if sn == "on_readable" and not self.has(st, "unlisted") and not self.has(st, "it"):
                eng.violation(st, "the list of readable resources is not emptied before their handlers run: what they add is lost", c.ln,
                              key="poll: list kept")
            self.add(st, "did", sn)
            t = ("call", "handler!" + sn, c.obj, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            return t
        if sn == "remove_resource":
            self.n += 1
            if self.has(st, "dead"):
                self.strip(st, lambda x: x == ("dead",))
                if self.has(st, "rm") and self.has(st, "it"):
                    eng.violation(st, "a resource is removed twice", c.ln, key="poll: removed twice")
                if self.has(st, "it"):
                    self.add(st, "rm")
            elif not (self.get(st, 1) in ("done", "open")):
                eng.violation(st, "a resource is removed that neither asked for it nor was requested to be", c.ln, key="poll: removed unasked")
            return UNIT
        if c.func is None and leaf(c).startswith("epoll_wait") or leaf(c).startswith("epoll_pwait"):
            self.n += 1
            if self.has(st, "dead"):
                eng.violation(st, "a resource that asked to be removed stays registered", c.ln, key="poll: not removed")
            t = ("call", "epoll_wait!", None, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            for a in c.args:
                if isinstance(a, tuple) and a[0] == "&":
                    eng.havoc(st, a[1], ("ev", c.eid))
            return t
        if fld == "m_readables" and sn == "clear":
            self.n += 1
            if self.has(st, "did", "on_readable"):
                eng.violation(st, "resources their handlers asked to call again are forgotten", c.ln, key="poll: forgotten")
            if not self.has(st, "copied"):
                eng.violation(st, "the list of readable resources is emptied without having been copied", c.ln, key="poll: not copied")
            self.add(st, "unlisted")
        if fld == "m_readables" and sn == "swap" or (isinstance(c.args, list) and sn == "swap" and any(isinstance(a, tuple) and a[0] == "F" and a[2] == "m_readables" for a in c.args)):
            self.add(st, "copied")
            self.add(st, "unlisted")
        if any(isinstance(a, tuple) and any_sub(a, lambda x: x[0] == "F" and x[2] == "m_readables") for a in c.args) and \
                any(isinstance(a, tuple) and any_sub(a, lambda x: x[0] == "F" and x[2] == "m_readables_copy") for a in c.args):
            self.add(st, "copied")
        if fld == "m_readables_copy" and any(isinstance(a, tuple) and any_sub(a, lambda x: x[0] == "F" and x[2] == "m_readables") for a in c.args):
            self.add(st, "copied")
        if sn == "swap" and ("m_drop_req" in (fld or "") or any(isinstance(a, tuple) and a[0] == "F" and "m_drop_req" in str(a[2]) for a in c.args)):
            self.n += 1
            self.add(st, "swapped")
            if not any(h[0] == ("F", TH, "m_lock") for h in st.held):
                eng.violation(st, "removal requests are taken over without holding their lock", c.ln, key="poll: unlocked requests")
        if fld == "m_drop_req_copy" and sn == "clear":
            self.n += 1
            self.add(st, "dropclear")
            if self.get(st, 1) == "open":
                eng.violation(st, "removal requests are forgotten", c.ln, key="poll: requests forgotten")
        if fld == "m_readables_copy" and sn == "clear":
            self.add(st, "readclear")
        return None

    def on_branch(self, eng, st, t, out, ln):
        ForEach.on_branch(self, eng, st, t, out, ln)
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1].startswith("handler!") and not out:
            self.add(st, "dead")
        if t[0] == "op" and t[1] in ("<", "==") and any(x[0] == "call" and x[1] == "epoll_wait!" for x in t[2:] if isinstance(x, tuple) and x):
            if t[1] == "==" and any(isconst(x) and x[1] < 0 for x in t[2:]):
                return      # error test
            if t[1] == "<" and t[3] == ZERO:
                return      # error test
            more = out if t[1] == "<" and not isconst(t[3]) else not out
            self.finish_iter(eng, st, ln)
            if more:
                self.add(st, "it")
            else:
                self.add(st, "all")
        b = self.bit(t)
        if b is not None:
            self.add(st, "bit", b, out)

    def bit(self, t):
        """t tests one event bit?"""
        if t[0] == "op" and t[1] == "&":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if isconst(b) and b[1] in BITS:
                    return b[1]
        if t[0] == "op" and t[1] == "==" and t[3] == ZERO and isinstance(t[2], tuple) and t[2][0] == "op" and t[2][1] == "&":
            return None
        return None

    def finish_iter(self, eng, st, ln):
        if self.has(st, "dead"):
            eng.violation(st, "a resource that asked to be removed stays registered", ln, key="poll: not removed")
        if self.has(st, "it"):
            self.n += 1
            if not self.has(st, "rm") and not self.has(st, "did", "on_error"):
                for b, h in BITS.items():
                    if self.has(st, "bit", b, False) and not self.has(st, "bit", b, True):
                        continue
                    if not self.has(st, "did", h):
                        eng.violation(st, "an event is passed over: %s is not called" % h, ln, key="poll: %s missed" % h)
        self.strip(st, lambda x: x[0] in ("it", "bit", "did", "rm", "dead"))

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        ForEach.on_exit(self, eng, st, kind, v)
        self.n += 1
        if self.has(st, "it") or self.has(st, "dead"):
            self.finish_iter(eng, st, None)
        for k, what in (("swapped", "takes over no removal requests"), ("dropclear", "keeps removal requests it has served: they are served again"),
                        ("readclear", "keeps the readable resources it has served: they are called again although they may be gone")):
            if not self.has(st, k):
                eng.violation(st, "poll " + what, key="poll: no " + k)


def run_poll(ctx, keep, what):
    m = ctx.m
    r = Poll(m)
    e = Engine(m, r)
    e.run(e.initial(m.one(REACTOR + "::poll"), auto=frozenset(), this_cls=REACTOR))
    e.viol = [v for v in e.viol if keep(v["key"])]
    ctx.engine(e)
    ctx.instance("reactor::poll", r.n)
    ctx.need(r.n >= 10, "reactor::poll was not understood")


T04_KEYS = ("poll: list kept", "poll: forgotten", "poll: not copied", "missed", "remembered readable")


@prop("T02", "poll-removes-on-demand", floor=8)
def poll_remove(ctx):
    """reactor::poll removes a resource exactly when its handler asked for it or a removal was requested - once, at once, calling no more of its
    handlers - and serves every requested removal, taken over under the lock, once"""
    run_poll(ctx, lambda k: not any(x in k for x in T04_KEYS), "T02")


@prop("T04", "poll-dispatches", floor=8)
def poll_dispatch(ctx):
    """reactor::poll calls on_readable for every remembered resource, empties the list before the handlers can add to it, and hands every event
    bit the kernel reported to its handler unless the resource was removed or is in error"""
    run_poll(ctx, lambda k: any(x in k for x in T04_KEYS), "T04")


@prop("T02", "removal-queue-locked", floor=2)
def queue_locked(ctx):
    """the queue of removal requests, filled by workers and drained by the reactor, is accessed only under the reactor's spinlock"""
    m = ctx.m
    n = 0
    for f in m.funcs.values():
        if f.cls != REACTOR or f.ctor or f.sn.startswith("~"):
            continue
        if not any(i["k"] == "m" and i.get("fn") == "m_drop_req" for i in f.instrs()):
            continue
        r = Locked(m, ("F", TH, "m_drop_req"), ("F", TH, "m_lock"))
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=REACTOR))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)
        n += r.n
        if f.sn == "request_removal":
            ctx.need(r.n, "request_removal does not access the queue")
    ctx.need(n >= 2, "the queue of removal requests was not found")


class Locked(Rule):
    width = 200
    untracked = staticmethod(lambda l: True)

    def __init__(self, m, loc, lock):
        self.loc, self.lock = loc, lock
        self.n = 0

    def opaque(self, eng, func, name):
        return True

    def keep_fact(self, eng, st, t):
        return False

    def on_call(self, eng, st, c):
        if c.obj == self.loc or any(a == self.loc for a in c.args):
            self.n += 1
            if not any(h[0] == self.lock for h in st.held):
                eng.violation(st, "the queue of removal requests is accessed without its lock", c.ln, key="queue unlocked")
        return None


class Interval(Rule):
    """on_master_interval: auto: frozenset of ('inv', obj) / ('gone', obj)"""
    width = 500

    def __init__(self, m):
        self.m = m
        self.vf = valid_field(m)
        self.n = 0

    def opaque(self, eng, func, name):
        return not (func.lambda_ or func.cls == MCH or (func.cls == RES and func.sn in ("invalidate",)))

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] in ("atomic.cas", "atomic.exchange") and t[2][0] == "F" and t[2][2] == self.vf and out:
            self.n += 1
            st.auto = st.auto | {"inv"}

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.cls == RES and c.func.sn == "invalidate" and "inv" in st.auto:
            eng.violation(st, "a slave's connection was invalidated but is not removed", c.ln, key="interval: kept")
            st.auto = st.auto - {"inv"}
        if c.func is not None and c.func.cls == REACTOR and c.func.sn == "remove_resource":
            self.n += 1
            if "inv" not in st.auto:
                eng.violation(st, "a connection is removed by a caller that did not invalidate it: it may be removed twice", c.ln, key="interval: twice")
            st.auto = st.auto - {"inv"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            if "inv" in st.auto:
                eng.violation(st, "a slave's connection was invalidated but is not removed", key="interval: kept")


@prop("T02", "timed-out-slaves-removed", floor=2)
def interval(ctx):
    """when the master invalidates the connection of a slave that timed out, it removes the resource itself, if and only if it won the invalidation"""
    m = ctx.m
    for sn in ("on_master_interval",):
        f = m.one(MCH + "::" + sn)
        r = Interval(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=MCH))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)
    rm = {f.id for f in m.funcs.values() if f.cls == REACTOR and f.sn == "remove_resource"}
    known = {MCH + "::on_master_interval", MCH + "::on_slave_end"}
    for f in m.funcs.values():
        if f.cls == REACTOR:
            continue
        for i in f.instrs():
            if i["k"] == "call" and i.get("f") in rm:
                ctx.instance("remove_resource called by " + norm(f.n))
                roots = {g.n for g in m.funcs.values() if norm(g.n) in known and (f.id == g.id or f.id in Closure.of(m).reach(g.id))}
                if not roots:
                    ctx.report("%s:%s" % (f.file, i.get("ln")), "a resource is removed outside the known places", norm(f.n), key="remove elsewhere")


# ---------------------------------------------------------------------------- descriptors and lists opened locally
AI = {"getaddrinfo": "freeaddrinfo"}


def fd_makers(m):
    """functions that hand a descriptor they opened to their caller"""
    out = set()
    for _ in range(3):
        for f in m.funcs.values():
            if f.ret == "int" and f.id not in out and not f.cls:
                for i in f.instrs():
                    if i["k"] == "call" and ((i.get("n") or "").lstrip(":") in OPENERS or i.get("f") in out):
                        out.add(f.id)
    return out


class LocalFd(Rule):
    """auto: ('open', t) descriptor owned here; ('given', t, r) handed to a function object that answered r; ('ai', loc, r) list obtained"""
    width = 400

    def __init__(self, m, f, makers):
        self.m, self.f, self.makers = m, f, makers
        self.n = 0

    def opaque(self, eng, func, name):
        return not func.lambda_

    def keep_fact(self, eng, st, t):
        return False

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        zero = None                       # what the outcome says: the term is zero / not zero / unknown
        if t[0] == "op" and t[1] == "==" and t[3] == ZERO:
            zero, x = out, t[2]
        elif t[0] != "op":
            zero, x = not out, t
        for y in list(st.auto):
            if y[0] == "open":
                if t[0] == "op" and t[1] == "==" and y[1] in t[2:] and C(-1) in t[2:] and out:
                    st.auto = st.auto - {y}
                if t[0] == "op" and t[1] == "<" and t[2] == y[1] and t[3] == ZERO and out:
                    st.auto = st.auto - {y}
            elif y[0] == "ai" and y[2] is not None:
                if zero is not None and x == y[2]:
                    st.auto = st.auto - {y}
                    if zero:
                        st.auto = st.auto | {("ai", y[1], None)}
                elif t[0] == "op" and t[1] == "==" and out and y[2] in t[2:] and any(isconst(z) and z != ZERO for z in t[2:]):
                    st.auto = st.auto - {y}
            elif y[0] == "given" and y[2] is not None and zero is not None:
                if x == y[2] or any_sub(x, lambda z: z[0] == "F" and z[2] == "ptr" and (st.store.get(z[1]) == y[2])):
                    st.auto = st.auto - {y}
                    if zero:
                        st.auto = st.auto | {("given", y[1], None)}

    def ends(self, eng, st, ln, what, kinds=("open", "given", "ai")):
        """nothing obtained here may still be held"""
        for x in list(st.auto):
            if x[0] not in kinds:
                continue
            if x[0] == "open":
                eng.violation(st, "a descriptor opened here is neither closed nor handed on " + what, ln, key="fd leak")
            elif x[0] == "given":
                eng.violation(st, "a descriptor that may have been refused is not closed " + what, ln, key="refused fd leak")
            elif eng.decide(st, x[2]) is not True if x[2] is not None else True:
                eng.violation(st, "a list of addresses is not released " + what, ln, key="list leak")
            st.auto = st.auto - {x}

    def on_call(self, eng, st, c):
        sn = leaf(c) if c.func is None else ""
        if (c.func is None and sn in OPENERS) or (c.func is not None and c.func.id in self.makers):
            self.n += 1
            t = ("call", "fd!" + (sn or c.func.sn), None, (), ("site", st.top.f.id, c.eid))
            if any(x[0] in ("open", "given") and x[1] == t for x in st.auto):
                self.ends(eng, st, c.ln, "before the next one is opened", ("open", "given"))
            eng.drop_mention(st, t)
            st.auto = st.auto | {("open", t)}
            if sn in ("accept4", "accept", "socket"):
                for a in c.args:
                    if isinstance(a, tuple) and a[0] == "&":
                        eng.havoc(st, a[1], ("sys", c.eid))
            return t
        if c.func is None and sn in AI:
            self.n += 1
            t = ("call", "ai!" + sn, None, (), ("site", st.top.f.id, c.eid))
            loc = deref(c.args[3])
            if any(x[0] == "ai" for x in st.auto):
                self.ends(eng, st, c.ln, "before the next one is obtained", ("ai",))
            eng.drop_mention(st, t)
            eng.havoc(st, loc, ("ai", c.eid))
            st.auto = st.auto | {("ai", loc, t)}
            return t
        if c.func is None and sn in AI.values():
            self.n += 1
            xs = [x for x in st.auto if x[0] == "ai" and c.args and eng.load(st, x[1]) == c.args[0]]
            if not xs:
                eng.violation(st, "a list of addresses is released that is not held here", c.ln, key="list freed twice")
            st.auto = st.auto - set(xs)
            return UNIT
        if c.func is None and sn == "close":
            self.n += 1
            xs = [x for x in st.auto if x[0] in ("open", "given") and c.args and x[1] == c.args[0]]
            if not xs:
                eng.violation(st, "a descriptor is closed that is not held here", c.ln, key="fd closed twice")
            for x in xs:
                if x[0] == "given" and x[2] is not None:
                    eng.violation(st, "a descriptor is closed although its new owner may have accepted it", c.ln, key="fd closed after transfer")
            st.auto = st.auto - set(xs)
            return None
        for a in c.args:
            if isloc(a) and eng.load(st, a) != a and ("open", eng.load(st, a)) in st.auto:
                a = eng.load(st, a)
            x = ("open", a)
            if x not in st.auto:
                if any(y[0] == "given" and y[1] == a for y in st.auto) and not (c.func is None and "::" not in sn):
                    eng.violation(st, "a descriptor gets a second owner", c.ln, key="fd owned twice")
                continue
            if c.func is None and "::" not in c.name.lstrip(":"):
                continue                              # C library: borrowed
            if c.func is not None and not c.func.ctor:
                continue                              # ordinary function: borrowed
            if c.node.get("sn") == "operator()":
                t = ("call", "given!", c.obj, (), ("site", st.top.f.id, c.eid))
                eng.drop_mention(st, t)
                st.auto = (st.auto - {x}) | {("given", a, t)}
                return t
            st.auto = st.auto - {x}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind not in ("return", "throw"):
            return
        self.n += 1
        if v is not None:
            st.auto = st.auto - {("open", v)}
        self.ends(eng, st, None, "at the end of the function")


@prop("T02", "opened-descriptors-owned", floor=8)
def local_fds(ctx):
    """every descriptor a function opens is, on every path, closed once, returned, or handed to exactly one owner - and closed again exactly if a
    factory declined it; every list of getaddrinfo is released once"""
    m = ctx.m
    mk = fd_makers(m)
    ctx.need(mk, "no function returns a descriptor")
    k = 0
    for f in sorted(m.funcs.values(), key=lambda f: f.n):
        if not f.blocks:
            continue
        ns = [i for i in f.instrs() if i["k"] == "call" and ((i.get("n") or "").lstrip(":") in OPENERS | set(AI) or i.get("f") in mk)]
        if not ns or (f.ctor and not any((i.get("n") or "").lstrip(":") in AI for i in ns)):
            continue
        if owning_field(m, f, ns):
            continue
        r = LocalFd(m, f, mk)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=f.cls or None))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)
        k += 1
    ctx.need(k >= 4, "the functions that open descriptors were not found")


def owning_field(m, f, ns):
    """the descriptors are stored in a member of the class (decided by member-descriptors)"""
    if not f.cls:
        return False
    fs = set()
    for i in f.instrs():
        if i["k"] == "asg" and isinstance(i.get("l"), dict):
            for x in deref_nodes(f, i["l"]):
                if x.get("k") == "m":
                    fs.add(x.get("fn"))
    return bool(fs & set(closers(m).get(f.cls, ())))


def closers(m):
    """class -> members its destructor closes (directly or through its own functions)"""
    out = {}
    for f in m.funcs.values():
        if not f.cls or not f.sn.startswith("~") or f.cls == RES:
            continue
        for g in {f.id} | {x for x in Closure.of(m).reach(f.id) if x in m.funcs and m.funcs[x].cls == f.cls}:
            g = m.funcs[g]
            for i in g.instrs():
                if i["k"] == "call" and (i.get("n") or "").lstrip(":") == "close":
                    for a in i.get("a", []):
                        for x in deref_nodes(g, a):
                            if x.get("k") == "m":
                                out.setdefault(f.cls, set()).add(x.get("fn"))
    return out


class DtorClose(Rule):
    width = 100

    def __init__(self, loc):
        self.loc = loc
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls != self.cls

    def on_call(self, eng, st, c):
        if c.func is None and leaf(c) == "close":
            self.n += 1
            if not c.args or eng.decide(st, eng.op("==", c.args[0], eng.load(st, self.loc))) is not True:
                eng.violation(st, "another descriptor is closed", c.ln, key="dtor: other")
            if "closed" in st.auto:
                eng.violation(st, "the descriptor is closed twice", c.ln, key="dtor: twice")
            st.auto = st.auto | {"closed"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            if "closed" not in st.auto and "none" not in st.auto:
                eng.violation(st, "the descriptor is not closed on destruction", key="dtor: leak")

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        fd = eng.load(st, self.loc)
        if t[0] == "op" and t[1] == "==" and out and fd in t[2:] and any(x in t[2:] for x in (C(-1), C(2))):
            st.auto = st.auto | {"none"}
        if t[0] == "op" and t[1] == "<" and t[2] == fd and t[3] == ZERO and out:
            st.auto = st.auto | {"none"}


@prop("T02", "member-descriptors", floor=6)
def member_fds(ctx):
    """a class that keeps a descriptor it owns closes it once in its destructor unless it has none; moving from it leaves it without"""
    m = ctx.m
    cs = closers(m)
    openers = {}
    for f in m.funcs.values():
        if f.cls and f.ctor:
            for i in f.instrs():
                if i["k"] == "minit":
                    for x in deref_nodes(f, i.get("e") or {}):
                        if x.get("k") == "call" and ((x.get("n") or "").lstrip(":") in OPENERS or x.get("f") in fd_makers(m)) and i.get("fn"):
                            openers.setdefault(f.cls, set()).add(i.get("fn"))
    for cls, fs in sorted(openers.items()):
        for fn in fs:
            ctx.instance("%s::%s keeps a descriptor" % (cls, fn))
            if fn not in cs.get(cls, ()):
                ctx.report(cls, "the class opens a descriptor that its destructor does not close", cls, key="%s::%s never closed" % (cls, fn))
    ctx.need(len(openers) >= 3, "the classes that own descriptors were not found")
    for cls, fs in sorted(cs.items()):
        if cls == "cybozu::logger":
            continue                       # the process's log, which it may share with stderr
        for fn in sorted(fs):
            for f in m.funcs.values():
                if f.cls == cls and f.sn.startswith("~") and f.blocks:
                    r = DtorClose(("F", TH, fn))
                    r.cls = cls
                    e = Engine(m, r)
                    e.run(e.initial(f, auto=frozenset(), this_cls=cls))
                    ctx.engine(e)
                    ctx.instance("%s::%s closed on destruction" % (cls, fn), r.n)
                if f.cls == cls and f.ctor and f.blocks and len(f.params) == 1 and f.params[0][2].endswith("&&"):
                    ctx.instance("%s: move" % cls)
                    if not moved_from(m, f, fn):
                        ctx.report(f.loc, "the descriptor is owned by two objects after a move", norm(f.n), key="move: kept")


def moved_from(m, f, fn):
    """every path of the move constructor f sets the source's member to -1"""
    p = f.params[0]
    r = Moved(p, fn)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=f.cls))
    return r.ends and r.ok


class Moved(Rule):
    width = 100

    def __init__(self, p, fn):
        self.p, self.fn = p, fn
        self.ok, self.ends = True, 0

    def opaque(self, eng, func, name):
        return True

    def on_write(self, eng, st, loc, val, ln):
        if loc[0] == "F" and loc[2] == self.fn and loc[1] != TH:
            st.auto = (st.auto | {"cleared"}) if val == C(-1) else st.auto - {"cleared"}

    def on_call(self, eng, st, c):
        if c.name.endswith("exchange") and c.args and any_sub(c.args[0], lambda x: x[0] == "F" and x[2] == self.fn) and c.args[-1] == C(-1):
            st.auto = st.auto | {"cleared"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.ends += 1
            self.ok = self.ok and "cleared" in st.auto


class Eof(Drain):
    """auto also holds: eof (the peer sends no more), err (the connection was reset)"""

    def on_call(self, eng, st, c):
        if c.func is None and leaf(c) in ("recv", "read", "recvmsg", "readv", "recvfrom"):
            self.n += 1
            self.reads += 1
            t = ("call", "rx!", None, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            st.auto = st.auto - {"eof"} | {"read"}
            return t
        return Drain.on_call(self, eng, st, c)

    def on_branch(self, eng, st, t, out, ln):
        Drain.on_branch(self, eng, st, t, out, ln)
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "op" and t[1] == "==" and out and ZERO in t[2:] and any(any_sub(x, lambda y: y[0] == "call" and y[1] == "rx!") for x in t[2:]):
            st.auto = st.auto | {"eof"}
        if t[0] == "op" and t[1] == "==" and out and C(ECONNRESET) in t[2:] and any(is_errno(x) for x in t[2:]):
            st.auto = st.auto | {"eof"}

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        if "eof" in st.auto and "gone" not in st.auto:
            eng.violation(st, "the peer has closed or reset the connection, but it is not invalidated: its descriptor leaks",
                          key="%s: eof ignored" % norm(eng_func(st)))


@prop("T02", "closed-by-peer-invalidated", floor=6)
def eof(ctx):
    """every path of a readable handler or receive job that learns that the peer closed or reset the connection invalidates it"""
    m = ctx.m
    k = 0
    for cls, f in handlers_of(m, "on_readable"):
        r = Eof(m, recv_set(m, cls))
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=cls))
        ctx.engine(e)
        ctx.instance("%s::on_readable" % cls, r.n)
        k += r.reads
    for cls in connection_classes(m):
        for fld, kind in job_kind(m, cls).items():
            if kind == "recv":
                for fid in jobs(m, cls)[fld]:
                    r = Eof(m, set())
                    e = Engine(m, r)
                    e.run(e.initial(m.funcs[fid], auto=frozenset(), this_cls=cls))
                    ctx.engine(e)
                    ctx.instance("receive job of %s" % cls, r.n)
                    k += r.reads
    ctx.need(k >= 3, "the functions that receive were not found")
