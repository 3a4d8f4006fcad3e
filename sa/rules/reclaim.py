"""Deferred destruction of connections: synchronisation with the workers and the GC thread."""
from check import prop
from engine import *
from effects import Closure
from loops import ForEach, progress
from model import AnalysisError, norm
from rules.sockets import RES, valid_field
from rules.roles import REACTOR, MCH, PROTO, SERVER, over, reactor_callbacks

SYNC = "yrmcds::syncer"
REQ = "yrmcds::sync_request"
TH = ("O", "this")


def strip(t):
    """the index a value denotes, without conversions"""
    while isinstance(t, tuple) and t and t[0] == "op" and t[1] in ("narrow", "trunc", "sext", "zext") or (isinstance(t, tuple) and t and t[0] == "cast"):
        t = t[2] if t[0] == "op" else t[-1]
    return t


def plus(t):
    """(base, constant)"""
    k = 0
    t = strip(t)
    while t[0] == "op" and t[1] == "+" and isconst(t[3]):
        k += t[3][1]
        t = strip(t[2])
    return t, k


def is_size(t):
    return t[0] == "call" and t[1].endswith("::size") and any_sub(t, lambda x: x[0] == "F" and x[2] == "m_workers")


class Flags(ForEach):
    """(20, 'idle', index) the worker was seen idle; (20, 'hi', loc) the local counts on from the number of workers;
    (20, 'n', k) steps of the iterator over the workers; (20, 'd', loc, k) steps of a local minus steps of the iterator"""

    def __init__(self, m, specs):
        ForEach.__init__(self, specs)
        self.m = m
        self.sets = 0

    def opaque(self, eng, func, name):
        return func.cls != SYNC

    def keep_fact(self, eng, st, t):
        return False

    def get(self, st, k):
        for x in st.auto:
            if x[0] == k and len(x) == 2:
                return x[1]
        return "start"

    def put(self, st, k, v):
        st.auto = frozenset([x for x in st.auto if not (x[0] == k and len(x) == 2)] + [(k, v)])

    def marks(self, st, kind):
        return [x[2:] for x in st.auto if x[0] == 20 and x[1] == kind]

    def drop(self, st, pred):
        st.auto = frozenset(x for x in st.auto if not (x[0] == 20 and pred(x[1:])))

    def on_write(self, eng, st, loc, val, ln):
        if loc[0] != "L":
            return
        b, k = plus(val)
        old = eng.load(st, loc)
        inc = plus(old)[0] == b and k == plus(old)[1] + 1
        if isconst(val) and isconst(old):
            inc = val[1] == old[1] + 1
        hi = is_size(b) and k >= 0
        if (loc,) in self.marks(st, "hi"):
            hi = hi or inc
        self.drop(st, lambda x: x[0] in ("hi", "idx") and x[1] == loc)
        if hi:
            st.auto = st.auto | {(20, "hi", loc)}
        d = [x[1] for x in self.marks(st, "d") if x[0] == loc]
        n = (self.marks(st, "n") or [(0,)])[0][0]
        self.drop(st, lambda x: x[0] == "d" and x[1] == loc)
        if inc:
            if d:
                v = d[0] + 1
            elif old == ZERO and n < 3:
                v = 1 - n
            else:
                return
            if -2 <= v <= 2:
                st.auto = st.auto | {(20, "d", loc, v)}

    def call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if sn == "operator++" and isloc(c.obj):
            v = eng.prov(eng.load(st, c.obj))
            if v is not None and any_sub(v, lambda x: x[0] == "F" and x[2] == "m_workers"):
                n = (self.marks(st, "n") or [(0,)])[0][0]
                ds = self.marks(st, "d")
                self.drop(st, lambda x: x[0] in ("n", "d", "idle", "idx"))
                st.auto = st.auto | {(20, "n", min(n + 1, 3))} | {(20, "d", l, k - 1) for l, k in ds if k > -2}
        if sn == "is_running":
            t = ("call", "running!", c.obj, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            self.drop(st, lambda x: x[0] in ("idle", "idx"))
            return t
        if c.func is not None and c.func.cls == REQ and c.func.sn == "set":
            self.sets += 1
            if not self.allowed(eng, st, c.args[0] if c.args else None):
                eng.violation(st, "a request is told that a worker is idle that was not seen idle", c.ln, key="sync: not idle")
        return None

    def allowed(self, eng, st, a):
        if a is None:
            return False
        b, k = plus(a)
        if is_size(b):
            return True
        for loc, in self.marks(st, "hi"):
            if eng.load(st, loc) == b or b == strip(eng.load(st, loc)) or plus(eng.load(st, loc)) == (b, k):
                return True
        for l, in self.marks(st, "idx"):
            if plus(eng.load(st, l)) == (b, k):
                return True
        for obj, in self.marks(st, "idle"):
            ix = [x for x in subs_index(obj)]
            if any(plus(x) == (b, k) for x in ix):
                return True
            if not ix:
                n = (self.marks(st, "n") or [(0,)])[0][0]
                if isconst(a) and n < 3 and a[1] == n:
                    return True
                for l, d in self.marks(st, "d"):
                    if plus(eng.load(st, l)) == (b, k) and d == 0:
                        return True
        return False

    def on_branch(self, eng, st, t, out, ln):
        ForEach.on_branch(self, eng, st, t, out, ln)
        r = progress(eng, t, out)
        if r is not None and r[0] and any_sub(r[0], lambda x: x[0] == "F" and x[2] == "m_workers"):
            self.drop(st, lambda x: x[0] in ("idle", "idx"))
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "op" and t[1] == "<" and not out and is_size(strip(t[3])):
            st.auto = st.auto | {(20, "hi", l) for l, v in st.store.items() if l[0] == "L" and plus(v) == plus(t[2])}
        if t[0] == "op" and t[1] == "<" and not out and isconst(t[3]) and t[3][1] >= 64 and self.get(st, 0) == "done":
            self.put(st, 0, "complete")        # there are never more workers than flags
        if t[0] == "call" and t[1] == "running!" and not out:
            ix = list(subs_index(t[2]))
            ls = {(20, "idx", l) for l, v in st.store.items() if l[0] == "L" and any(plus(v) == plus(x) for x in ix)}
            st.auto = st.auto | {(20, "idle", t[2])} | ls


def subs_index(t):
    """the indexes used in an element access within t"""
    if not isinstance(t, tuple):
        return
    if t and t[0] == "call" and t[1].endswith(("operator[]", "::at")) and t[3]:
        yield t[3][0]
    if t and t[0] in ("ix", "I") and len(t) > 2:
        yield t[2]
    for x in t[1:]:
        yield from subs_index(x)


def workers_base(l):
    return any_sub(l, lambda x: x[0] == "F" and x[2] == "m_workers")


def requests_base(l):
    return any_sub(l, lambda x: x[0] == "F" and x[2] == "m_requests")


class CheckReq(Flags):
    """syncer::check. also (21, 'done') the request's check answered true, not erased yet"""

    def call(self, eng, st, c):
        r = Flags.call(self, eng, st, c)
        if r is not None:
            return r
        sn = c.node.get("sn") or ""
        if c.func is not None and c.func.cls == REQ and sn == "check":
            self.n += 1
            self.late(eng, st, c.ln)
            t = ("call", "served!", c.obj, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            return t
        if isloc(c.obj) and requests_base(c.obj) and sn in ("erase", "clear", "pop_back", "resize"):
            self.n += 1
            if (21, "done") not in st.auto:
                eng.violation(st, "a request is dropped before it was served", c.ln, key="sync: dropped")
            st.auto = st.auto - {(21, "done")}
        if isloc(c.obj) and requests_base(c.obj) and sn in ("emplace_back", "push_back", "insert"):
            st.auto = (st.auto - {(21, "pending")}) | {(21, "kept")}
        return None

    def late(self, eng, st, ln):
        if (21, "done") in st.auto:
            eng.violation(st, "a request that was served stays in the list: it is served again", ln, key="sync: served twice")
            st.auto = st.auto - {(21, "done")}

    def on_branch(self, eng, st, t, out, ln):
        Flags.on_branch(self, eng, st, t, out, ln)
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] == "served!":
            st.auto = st.auto | {(21, "done" if out else "pending")}

    def on_exit(self, eng, st, kind, v):
        ForEach.on_exit(self, eng, st, kind, v)
        if kind == "return":
            self.late(eng, st, None)


class AddReq(CheckReq):
    """syncer::add_request: the request must be kept iff its check answered false"""

    def late(self, eng, st, ln):
        pass

    def on_exit(self, eng, st, kind, v):
        ForEach.on_exit(self, eng, st, kind, v)
        if kind != "return":
            return
        self.n += 1
        if (21, "done") in st.auto and (21, "kept") in st.auto:
            eng.violation(st, "a request that was served is kept: it is served again", key="sync: served twice")
        if (21, "done") not in st.auto and (21, "kept") not in st.auto:
            eng.violation(st, "a request that was not served is forgotten", key="sync: forgotten")


@prop("T03", "idle-flags", floor=10)
def idle_flags(ctx):
    """a synchronisation request is told 'worker i is idle' only for a worker just seen idle, or an index beyond the workers; every worker and every
    request is looked at; a request leaves the list exactly when it was served"""
    m = ctx.m
    seen = lambda eng, st, c: c.node.get("sn") == "is_running"
    chk = lambda eng, st, c: c.func is not None and c.func.cls == REQ and c.func.sn == "check"
    for sn, cls, specs in (("add_request", AddReq, [dict(name="workers", base=workers_base, event=seen)]),
                           ("check", CheckReq, [dict(name="workers", base=workers_base, event=seen)])):
        f = m.one(SYNC + "::" + sn)
        r = cls(m, specs)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=SYNC))
        ctx.engine(e)
        ctx.instance("syncer::" + sn, r.n + r.sets)
        ctx.need(r.sets, "syncer::%s tells no request that a worker is idle" % sn)
    k = 0
    for f in m.funcs.values():
        for i in f.instrs():
            if i["k"] == "call" and i.get("sn") == "set" and m.funcs.get(i.get("f")) is not None and m.funcs[i["f"]].cls == REQ:
                k += 1
                if f.cls != SYNC and not (f.lambda_ and SYNC in f.n):
                    ctx.report("%s:%s" % (f.file, i.get("ln")), "a request is told that a worker is idle outside the syncer", norm(f.n), key="sync: set elsewhere")
    ctx.instance("calls of sync_request::set", k)


class Serve(Rule):
    """sync_request::check. auto: all / called"""
    width = 100

    def __init__(self, m):
        self.n = 0
        self.called = 0

    def opaque(self, eng, func, name):
        return func.cls != REQ

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if sn == "all" and isloc(c.obj) and any_sub(c.obj, lambda x: x[0] == "F" and x[2] == "m_flags"):
            return ("call", "all!", None, (), ("site", st.top.f.id, c.eid))
        if sn in ("count",) and isloc(c.obj) and any_sub(c.obj, lambda x: x[0] == "F" and x[2] == "m_flags"):
            return ("call", "count!", None, (), ("site", st.top.f.id, c.eid))
        if sn == "operator()" and isloc(c.obj) and any_sub(c.obj, lambda x: x[0] == "F" and x[2] == "m_callback"):
            self.called += 1
            if "all" not in st.auto:
                eng.violation(st, "the request is served although a worker was not seen idle", c.ln, key="sync: early")
            if "called" in st.auto:
                eng.violation(st, "the request is served twice", c.ln, key="sync: twice")
            st.auto = st.auto | {"called"}
            return UNIT
        return None

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] == "all!" and out:
            st.auto = st.auto | {"all"}
        if t[0] == "op" and t[1] == "==" and out and any(x[0] == "call" and x[1] == "count!" for x in t[2:]) and \
                any(isconst(x) and x[1] == 64 or (x[0] == "call" and x[1].endswith("::size")) for x in t[2:]):
            st.auto = st.auto | {"all"}

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        want = "called" in st.auto
        got = True if isconst(v) and v != ZERO else False if v == ZERO else eng.decide(st, v)
        if got is not want:
            eng.violation(st, "the answer does not tell whether the request was served", key="sync: answer")
        if "all" in st.auto and not want:
            eng.violation(st, "the request is not served although every worker was seen idle", key="sync: not served")


class OnlySet(Rule):
    """sync_request::set(n): flags only become true"""
    width = 50

    def __init__(self):
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls != REQ

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        o = c.obj if c.obj is not None else ZERO
        if any_sub(o, lambda x: x[0] == "F" and x[2] == "m_flags"):
            if sn in ("operator[]", "test"):
                if sn == "operator[]" and strip(c.args[0]) != self.param(eng, st):
                    eng.violation(st, "the flag of another worker is set", c.ln, key="sync: other flag")
                return None
            self.n += 1
            v = c.args[-1] if c.args else None
            if sn == "set" and (strip(c.args[0]) != self.param(eng, st) or len(c.args) > 1 and v == ZERO) or \
                    sn == "operator=" and not (isconst(v) and v != ZERO) or sn in ("flip", "reset"):
                eng.violation(st, "the flag is not set", c.ln, key="sync: flag")
            st.auto = st.auto | {"set"}
        return None

    def param(self, eng, st):
        p = st.frames[0].f.params[0]
        return strip(eng.load(st, ("L", 0, p[0], p[1])))

    def on_exit(self, eng, st, kind, v):
        if kind == "return" and "set" not in st.auto:
            eng.violation(st, "the flag is not set", key="sync: flag")


@prop("T03", "request-served-when-all-idle", floor=4)
def serve(ctx):
    """a request is served only when every flag is set, at once then, and answers whether it was served; flags only ever become set, the given one"""
    m = ctx.m
    f = m.one(REQ + "::check")
    r = Serve(m)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=REQ))
    ctx.engine(e)
    ctx.instance("sync_request::check", r.n)
    ctx.need(r.called, "sync_request::check does not call back")
    f = m.one(REQ + "::set")
    r = OnlySet()
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=REQ))
    ctx.engine(e)
    ctx.instance("sync_request::set", r.n)
    for f in m.funcs.values():
        if f.cls == REQ and not f.ctor and f.sn not in ("set", "check"):
            for i in f.instrs():
                if i["k"] == "call" and i.get("sn") in ("reset", "flip", "operator[]", "set"):
                    ctx.report("%s:%s" % (f.file, i.get("ln")), "flags of a request change outside set", norm(f.n), key="sync: flags elsewhere")
        elif f.cls == REQ:
            ctx.instance(norm(f.n))
    fl = [x for x in m.record(REQ)["fields"] if "bitset" in x["t"]]
    ctx.need(len(fl) == 1, "the flags of sync_request were not recognised")
    mw = m.const("yrmcds::MAX_WORKERS") if hasattr(m, "const") else None
    import re
    k = re.search(r"bitset<(\d+)", fl[0]["t"])
    if k and mw is not None and int(k.group(1)) < mw:
        ctx.report(REQ, "there are fewer flags than workers", REQ, key="sync: too few flags")


class Interval(ForEach):
    """the interval callback of the master. (20,'fixed') garbage fixed, not handed over; (20,'ready'); (20,'handed')"""

    def __init__(self, m, gc_ids):
        ev = lambda eng, st, c: c.node.get("sn") == "on_master_interval"
        ForEach.__init__(self, [dict(name="on_master_interval", base=over("m_handlers"), event=ev)])
        self.m, self.gcs = m, gc_ids
        cl = Closure.of(m)
        self.fix = {f.id for f in m.funcs.values() if f.cls == REACTOR and f.sn in ("fix_garbage", "gc")}
        self.inline = cl.reaching(self.fix)
        self.reach = cl.reach

    def opaque(self, eng, func, name):
        if func.cls in (REACTOR, SYNC, REQ) or func.sn == "reactor_gc_ready":
            return True
        return not func.lambda_ and func.id not in self.inline and func.cls != SERVER

    def get(self, st, k):
        for x in st.auto:
            if x[0] == k and len(x) == 2:
                return x[1]
        return "start"

    def call(self, eng, st, c):
        if c.func is not None and c.func.cls == REQ and c.func.ctor:
            for a in c.args:
                lam = eng.lam_value(st, a) if not (isinstance(a, tuple) and a and a[0] == "lam") else a
                if lam is not None and (lam[1] in self.gcs or self.reach(lam[1]) & self.gcs):
                    st.auto = st.auto | {(20, "req")}
            return None
        if c.func is not None and c.func.cls == SYNC and c.func.sn == "add_request":
            self.n += 1
            if (20, "req") in st.auto:
                if (20, "fixed") not in st.auto:
                    eng.violation(st, "resources are destroyed that were not set aside before the workers were looked at", c.ln, key="gc: not fixed first")
                st.auto = st.auto - {(20, "fixed"), (20, "req")} | {(20, "handed")}
        if c.func is not None and c.func.id in self.fix:
            self.n += 1
            if c.func.sn == "gc":
                eng.violation(st, "resources are destroyed while workers may be using them", c.ln, key="gc: direct")
            else:
                if (20, "ready") not in st.auto:
                    eng.violation(st, "resources are set aside for destruction while a GC thread or an earlier request may hold them", c.ln,
                                  key="gc: not ready")
                if self.get(st, 0) != "complete":
                    eng.violation(st, "resources are set aside before every handler has dropped its invalid connections", c.ln, key="gc: before interval")
                st.auto = st.auto | {(20, "fixed")} - {(20, "ready")}
        if c.node.get("sn") == "reactor_gc_ready":
            t = ("call", "ready!", None, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            st.auto = st.auto - {(20, "ready")}
            return t
        if c.node.get("sn") == "on_master_interval" or (c.func is not None and c.func.cls == SYNC):
            st.auto = st.auto - {(20, "ready")}
        return None

    def on_branch(self, eng, st, t, out, ln):
        ForEach.on_branch(self, eng, st, t, out, ln)
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] == "ready!" and out:
            st.auto = st.auto | {(20, "ready")}

    def on_exit(self, eng, st, kind, v):
        ForEach.on_exit(self, eng, st, kind, v)
        if kind == "return":
            self.n += 1
            if (20, "fixed") in st.auto:
                eng.violation(st, "resources set aside are never destroyed, and nothing is after them", key="gc: never")


@prop("T03", "destroyed-after-synchronisation", floor=5)
def interval(ctx):
    """while serving as master, removed resources are destroyed only by a synchronisation request created after they were set aside, which happens
    only when reactor_gc_ready() holds and after every handler's interval processing"""
    m = ctx.m
    gcs = {f.id for f in m.funcs.values() if f.cls == REACTOR and f.sn == "gc"}
    ctx.need(gcs, "reactor::gc was not found")
    top = m.one(SERVER + "::serve_master")
    sl = m.one(SERVER + "::serve_slave")
    cl = Closure.of(m)
    cbs = [g for g in m.lambdas_in(top) if g.blocks and len(g.params) == 1 and "cybozu::reactor" in g.params[0][2]]
    ctx.need(cbs, "the interval callback of serve_master was not found")
    k = 0
    for g in cbs:
        r = Interval(m, gcs)
        e = Engine(m, r)
        e.run(e.initial(g, auto=frozenset(), this_cls=SERVER))
        ctx.engine(e)
        ctx.instance("master callback", r.n)
        k += r.n
    # who else destroys
    slave = cl.reach(sl.id) | {g.id for g in m.lambdas_in(sl)} | {x for g in m.lambdas_in(sl) for x in cl.reach(g.id)}
    mast = {top.id} | {g.id for g in m.lambdas_in(top)}
    for g in list(mast):
        mast |= cl.reach(g)
    for f in m.funcs.values():
        if f.cls == REACTOR:
            continue
        for i in f.instrs():
            if i["k"] == "call" and m.funcs.get(i.get("f")) is not None and m.funcs[i["f"]].cls == REACTOR and m.funcs[i["f"]].sn in ("gc", "fix_garbage"):
                ctx.instance("%s called by %s" % (i.get("sn"), norm(f.n)))
                ok = f.id in mast or f.id in slave and f.id not in mast or any(f.id == x for x in inner(m, top))
                if not ok:
                    ctx.report("%s:%s" % (f.file, i.get("ln")), "resources are destroyed outside the interval callbacks", norm(f.n), key="gc: elsewhere")


def inner(m, f):
    out = set()
    todo = [f]
    while todo:
        g = todo.pop()
        for l in m.lambdas_in(g):
            if l.id not in out:
                out.add(l.id)
                todo.append(l)
    return out


class Ready(ForEach):
    """server::reactor_gc_ready. (20,'no') some condition failed; (20,'sync') the syncer was empty"""

    def __init__(self, m):
        ev = lambda eng, st, c: c.node.get("sn") == "reactor_gc_ready"
        ForEach.__init__(self, [dict(name="reactor_gc_ready of the handlers", base=over("m_handlers"), event=ev)])
        self.m = m

    def opaque(self, eng, func, name):
        return func.cls not in (SERVER,) and not func.lambda_

    def get(self, st, k):
        for x in st.auto:
            if x[0] == k and len(x) == 2:
                return x[1]
        return "start"

    def call(self, eng, st, c):
        sn = c.node.get("sn")
        if sn == "reactor_gc_ready":
            t = ("call", "ready!", c.obj, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            return t
        if c.func is not None and c.func.cls == SYNC and sn == "empty":
            t = ("call", "sync-empty!", None, (), ("site", st.top.f.id, c.eid))
            return t
        alg = c.name.rsplit("::", 1)[-1]
        if c.func is None and alg in ("all_of", "any_of", "none_of") and len(c.args) == 3:
            its = [eng.prov(x[1] if isinstance(x, tuple) and x[0] == "R" else eng.load(st, x) if isloc(x) else x) for x in c.args[:2]]
            lam = eng.lam_value(st, c.args[2]) or c.args[2]
            if all(x is not None and over("m_handlers")(x) for x in its) and lam[0] == "lam":
                p = Predicate(alg != "all_of")
                e = Engine(self.m, p)
                e.run(e.initial(self.m.funcs[lam[1]], auto=frozenset(), this_cls=SERVER))
                self.n += p.n
                if p.ok and p.n:
                    t = ("call", "all-ready!", None, (), ("site", st.top.f.id, c.eid))
                    return ("not", t) if alg == "any_of" else t
        return None

    def on_branch(self, eng, st, t, out, ln):
        ForEach.on_branch(self, eng, st, t, out, ln)
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] == "ready!" and not out:
            st.auto = st.auto | {(20, "no")}
        if t[0] == "call" and t[1] == "all-ready!":
            self.put(st, 0, "complete")
            if not out:
                st.auto = st.auto | {(20, "no")}
        if t[0] == "call" and t[1] == "sync-empty!":
            st.auto = st.auto | {(20, "sync" if out else "no")}

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        if v == ZERO:
            return
        for x in truths(v):
            if x[0] == "call" and x[1] == "sync-empty!":
                st.auto = st.auto | {(20, "sync")}
            if x[0] == "call" and x[1] == "all-ready!":
                self.put(st, 0, "complete")
        if (20, "no") in st.auto:
            eng.violation(st, "answers ready although a condition failed", key="ready: ignored")
        if (20, "sync") not in st.auto:
            eng.violation(st, "answers ready while a synchronisation request is waiting", key="ready: requests")
        if not isconst(v) and not all(x[0] == "call" and x[1] in ("sync-empty!",) for x in truths(v)):
            d = eng.decide(st, v)
            if d is False:
                return
        ForEach.on_exit(self, eng, st, kind, v)


class Predicate(Rule):
    """does the function answer whether the handler is ready (or, inverted, that it is not)?"""
    width = 50

    def __init__(self, inverted):
        self.inv = inverted
        self.n, self.ok = 0, True

    def opaque(self, eng, func, name):
        return True

    def on_call(self, eng, st, c):
        if c.node.get("sn") == "reactor_gc_ready":
            return ("call", "ready!", None, (), ("site", st.top.f.id, c.eid))
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            inv = False
            while v[0] == "not" or (v[0] == "op" and v[1] == "==" and v[3] == ZERO):
                v = v[1] if v[0] == "not" else v[2]
                inv = not inv
            self.ok = self.ok and v[0] == "call" and v[1] == "ready!" and inv == self.inv


def truths(v):
    if isinstance(v, tuple) and v and v[0] == "op" and v[1] in ("&", "and", "&&"):
        for x in v[2:]:
            yield from truths(x)
    elif isinstance(v, tuple):
        yield v


class HReady(Rule):
    """reactor_gc_ready of the memcache handler: facts at a true answer"""
    width = 200

    def __init__(self, m):
        self.m = m
        self.n = 0
        self.trues = 0

    def opaque(self, eng, func, name):
        return func.cls != MCH

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        if v == ZERO:
            return
        s = st
        d = eng.decide(s, v)
        if d is False:
            return
        if d is None:
            s = st.copy()
            if eng.assume(s, v, True) is False:
                return
        self.trues += 1
        gcp = gc_field(self.m)
        none = eng.decide(s, eng.op("==", eng.load(s, ("F", ("F", TH, gcp), "ptr")), ZERO))
        if none is not True:
            eng.violation(st, "answers ready while a GC thread may hold connections of slaves", key="handler ready: gc thread")
        ns = ("F", TH, "m_new_slaves")
        t = eng.op("==", ("call", "std::vector::size", ns, (), eng.epoch_of(s, ns)), ZERO)
        if eng.decide(s, t) is not True:
            eng.violation(st, "answers ready while new slaves wait for their initial replication", key="handler ready: new slaves")


def gc_field(m):
    fs = [f["n"] for f in m.record(MCH)["fields"] if "gc_thread" in f["t"]]
    if len(fs) != 1:
        raise AnalysisError("the GC thread of the memcache handler was not recognised")
    return fs[0]


@prop("T03", "ready-conditions", floor=3)
def ready(ctx):
    """reactor_gc_ready answers true only when no synchronisation request is waiting and every handler is ready; the memcache handler is ready
    only while it has no GC thread and no new slave waiting"""
    m = ctx.m
    r = Ready(m)
    e = Engine(m, r)
    e.run(e.initial(m.one(SERVER + "::reactor_gc_ready"), auto=frozenset(), this_cls=SERVER))
    ctx.engine(e)
    ctx.instance("server::reactor_gc_ready", r.n)
    r = HReady(m)
    e = Engine(m, r)
    e.run(e.initial(m.one(MCH + "::reactor_gc_ready"), auto=frozenset(), this_cls=MCH))
    ctx.engine(e)
    ctx.instance("handler::reactor_gc_ready", r.n)
    ctx.need(r.trues, "the memcache handler is never ready")


class Drop(ForEach):
    """handler::on_master_interval: (20,'bad') the slave at hand is invalid and still in the list"""

    def __init__(self, m):
        ev = lambda eng, st, c: c.func is not None and c.func.cls == RES and c.func.sn == "valid"
        ForEach.__init__(self, [dict(name="slaves", base=over("m_slaves"), event=ev)])
        self.m = m
        self.vf = valid_field(m)

    def opaque(self, eng, func, name):
        return not (func.lambda_ or func.cls == MCH) or func.sn == "gc_ready"

    def get(self, st, k):
        for x in st.auto:
            if x[0] == k and len(x) == 2:
                return x[1]
        return "start"

    def put(self, st, k, v):
        self.late(None, st, None)
        ForEach.put(self, st, k, v)

    def late(self, eng, st, ln):
        pass

    def on_branch(self, eng, st, t, out, ln):
        r = progress(eng, t, out)
        if r is not None and r[1] is not None and over("m_slaves")(r[0]) and (20, "bad") in st.auto:
            eng.violation(st, "an invalid slave stays in the list of slaves: it is used after it was destroyed", ln, key="slaves: invalid kept")
            st.auto = st.auto - {(20, "bad")}
        ForEach.on_branch(self, eng, st, t, out, ln)
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] == "valid!" and not out:
            st.auto = st.auto | {(20, "bad")}

    def call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if c.func is not None and c.func.cls == RES and sn == "valid":
            t = ("call", "valid!", c.obj, (), ("site", st.top.f.id, c.eid))
            eng.drop_mention(st, t)
            return t
        if c.func is not None and (c.func.cls == RES and sn == "invalidate" or c.func.cls == REACTOR and sn == "remove_resource"):
            self.n += 1
            st.auto = st.auto | {(20, "bad")}
        if isloc(c.obj) and over("m_slaves")(c.obj) and sn == "erase":
            self.n += 1
            st.auto = st.auto - {(20, "bad")}
        if c.func is not None and c.func.ctor and "gc_thread" in (c.func.cls or ""):
            self.n += 1
            if (20, "bad") in st.auto or self.get(st, 0) != "complete":
                eng.violation(st, "the GC thread is created before the invalid slaves were dropped", c.ln, key="slaves: gc first")
        return None

    def on_exit(self, eng, st, kind, v):
        ForEach.on_exit(self, eng, st, kind, v)
        if kind == "return" and (20, "bad") in st.auto:
            eng.violation(st, "an invalid slave stays in the list of slaves: it is used after it was destroyed", key="slaves: invalid kept")


@prop("T03", "invalid-slaves-dropped", floor=4)
def drop(ctx):
    """at every interval the master looks at every slave in its list and drops those that are invalid or that it invalidates or removes, before it
    lends the list to a GC thread"""
    m = ctx.m
    f = m.one(MCH + "::on_master_interval")
    r = Drop(m)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=MCH))
    ctx.engine(e)
    ctx.instance(norm(f.n), r.n)


class Garbage(Rule):
    """who changes the lists of removed resources"""
    width = 100

    def __init__(self, m, f):
        self.f = f
        self.n = 0

    def opaque(self, eng, func, name):
        return True

    def keep_fact(self, eng, st, t):
        return over("m_garbage_copy")(t)

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        locs = [x for x in [c.obj] + list(c.args) if isloc(x)]
        g = any(x == ("F", TH, "m_garbage") for x in locs)
        gc = any(x == ("F", TH, "m_garbage_copy") for x in locs)
        if not (g or gc) or sn in ("size", "empty", "begin", "end", "reserve"):
            return None
        self.n += 1
        if sn in ("clear", "erase", "pop_back", "resize") and (g or self.f.sn != "gc"):
            eng.violation(st, "removed resources are destroyed outside gc()", c.ln, key="garbage: destroyed")
        if (sn in ("swap", "operator=") and gc) and self.f.sn == "fix_garbage":
            cp = ("F", TH, "m_garbage_copy")
            t = eng.op("==", ("call", "std::vector::size", cp, (), eng.epoch_of(st, cp)), ZERO)
            if eng.decide(st, t) is not True:
                eng.violation(st, "resources set aside earlier are mixed with ones removed later", c.ln, key="garbage: mixed")
        elif sn in ("swap", "operator=") and self.f.sn not in ("fix_garbage", "gc"):
            eng.violation(st, "the lists of removed resources change outside fix_garbage and gc", c.ln, key="garbage: elsewhere")
        if gc and sn in ("emplace_back", "push_back", "insert") and self.f.sn != "fix_garbage":
            eng.violation(st, "a resource is put among those to be destroyed next without having waited", c.ln, key="garbage: skipped")
        return None


@prop("T03", "garbage-lists", floor=2)
def garbage(ctx):
    """removed resources are destroyed only by gc(), which destroys only those set aside by fix_garbage; fix_garbage never mixes newer ones in"""
    m = ctx.m
    fields = {f["n"] for f in m.record(REACTOR)["fields"]}
    ctx.need({"m_garbage", "m_garbage_copy"} <= fields, "the lists of removed resources were not recognised")
    k = 0
    for f in m.funcs.values():
        if f.cls != REACTOR or f.ctor or f.sn.startswith("~") or not f.blocks:
            continue
        if not any(i["k"] == "m" and i.get("fn") in ("m_garbage", "m_garbage_copy") for i in f.instrs()):
            continue
        r = Garbage(m, f)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=REACTOR))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)
        k += r.n
    ctx.need(k >= 3, "the functions that handle removed resources were not found")
