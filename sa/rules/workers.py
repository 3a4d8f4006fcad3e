"""Worker threads: job hand-over, one worker per connection, stopping."""
from check import prop
from engine import *
from effects import Closure
from jobs import *
from model import AnalysisError, norm
from rules.sockets import posted_jobs, recv_set, iter_nodes

WORKER = "cybozu::worker"
ACQ, REL = {2, 4, 5}, {3, 4, 5}


def atomic_op(c):
    """('load' | 'store' | 'rmw' | 'cas', value, order) of an atomic access"""
    if not (c.cls.startswith("std::") and "atomic" in c.cls) or c.ctor or not isloc(c.obj):
        return None
    sn = c.node.get("sn") or ""
    od = lambda k: c.args[k][1] if len(c.args) > k and isconst(c.args[k]) else 5
    if sn == "load":
        return "load", None, od(0)
    if sn.startswith("operator ") or sn.startswith("operator std"):
        return "load", None, 5
    if sn == "store":
        return "store", c.args[0], od(1)
    if sn == "operator=":
        return "store", c.args[0], 5
    if sn == "exchange":
        return "rmw", c.args[0], od(1)
    if sn.startswith("compare_exchange"):
        return "cas", c.args[1] if len(c.args) > 1 else None, od(2)
    return "rmw", None, od(1)


def field_accesses(m, cls, fld):
    """(function, instruction) of every call on member fld of cls"""
    for f in m.funcs.values():
        for i in f.instrs():
            if i["k"] == "call" and "obj" in i:
                o = i["obj"]
                for _ in range(4):
                    if isinstance(o, dict) and "r" in o and len(o) == 1:
                        o = f.elems.get(o["r"])
                if isinstance(o, dict) and o.get("fn") == fld and norm(o.get("cls") or o.get("fcls") or cls) == cls:
                    yield f, i


def busy_field(m, cls):
    """the atomic flag the receive job clears"""
    fs = [f["n"] for f in m.record(cls)["fields"] if f["t"] in ("std::atomic<bool>", "std::atomic_bool")]
    if len(fs) != 1:
        raise AnalysisError("the busy flag of %s was not recognised" % cls)
    return fs[0]


class Post(Rule):
    """auto: frozenset of free (the flag was read as false) / taken (the flag was set)"""
    width = 300

    def __init__(self, m, cls):
        self.m, self.cls = m, cls
        self.busy = ("F", ("O", "this"), busy_field(m, cls))
        self.recv = recv_set(m, cls)
        self.n = self.posts = 0

    def opaque(self, eng, func, name):
        return func.cls in (WORKER, "cybozu::reactor", "cybozu::dynbuf") or name.startswith("cybozu::tcp_socket::write")

    def on_call(self, eng, st, c):
        a = atomic_op(c)
        if a and c.obj == self.busy:
            self.n += 1
            if a[0] == "load":
                st.auto = st.auto - {"free"} | ({"acq"} if a[2] in ACQ else frozenset())
                if a[2] not in ACQ:
                    eng.violation(st, "the busy flag is read without acquire ordering", c.ln, key="busy read order")
            elif a[0] in ("cas", "rmw") and a[1] == ONE:
                st.auto = st.auto | {"taken"}
            elif a[0] == "store":
                if a[1] == ONE:
                    st.auto = st.auto | {"taken"}
                else:
                    eng.violation(st, "the reactor clears the busy flag", c.ln, key="busy cleared by reactor")
                    st.auto = st.auto - {"taken"}
        if c.func is not None and c.func.cls == WORKER and c.func.sn == "post_job":
            if posted_jobs(eng, st, c) & self.recv:
                self.n += 1
                self.posts += 1
                if "free" not in st.auto:
                    eng.violation(st, "a receive job is posted although another one may be running for the connection", c.ln, key="posted while busy")
                if "taken" not in st.auto:
                    eng.violation(st, "a receive job is posted before the connection is marked busy", c.ln, key="posted unmarked")
        return None

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] in ("atomic.load", "atomic.exchange") and t[2] == self.busy and not out:
            st.auto = st.auto | {"free"}
        if t[0] == "call" and t[1] == "atomic.cas" and t[2] == self.busy and out:
            st.auto = st.auto | {"free", "taken"}

    def on_exit(self, eng, st, kind, v):
        self.n += 1
        if "taken" in st.auto and kind == "return" and "posted" not in st.auto and not self.has_post(st):
            eng.violation(st, "the connection is marked busy but no job is posted", key="busy without job")

    def has_post(self, st):
        return True


class PostEnds(Post):
    def on_call(self, eng, st, c):
        r = Post.on_call(self, eng, st, c)
        if c.func is not None and c.func.cls == WORKER and c.func.sn == "post_job" and posted_jobs(eng, st, c) & self.recv:
            st.auto = st.auto | {"posted"}
        return r

    def has_post(self, st):
        return "posted" in st.auto


class JobEnd(Rule):
    """a receive job. auto: frozenset of released"""
    width = 300

    def __init__(self, m, cls):
        self.m, self.cls = m, cls
        self.f = busy_field(m, cls)
        self.busy = ("F", ("O", "this"), self.f)
        self.n = 0
        cl = Closure.of(m)
        acc = {f.id for f, i in field_accesses(m, cls, self.f)}
        self.inline = cl.reaching(acc)

    def opaque(self, eng, func, name):
        return not func.lambda_ and func.id not in self.inline

    def touch(self, eng, st, ln):
        if "released" in st.auto:
            eng.violation(st, "the connection is used after it was given up to other workers", ln, key="used after release")

    def on_read(self, eng, st, loc, ln):
        if self.mine(loc) and loc != self.busy:
            self.touch(eng, st, ln)

    def on_write(self, eng, st, loc, val, ln):
        if self.mine(loc) and loc != self.busy:
            self.touch(eng, st, ln)

    def mine(self, l):
        return isloc(l) and any_sub(l, lambda x: x == ("O", "this"))

    def on_call(self, eng, st, c):
        a = atomic_op(c)
        if a and c.obj == self.busy:
            self.n += 1
            if a[0] == "store" and a[1] == ZERO:
                if "released" in st.auto:
                    eng.violation(st, "the connection is given up twice", c.ln, key="released twice")
                if a[2] not in REL:
                    eng.violation(st, "the connection is given up without release ordering", c.ln, key="release order")
                st.auto = st.auto | {"released"}
            elif a[0] != "load":
                eng.violation(st, "the receive job changes the busy flag other than clearing it", c.ln, key="busy changed")
            return None
        if (c.obj is not None and self.mine(c.obj)) or any(self.mine(x) or (isinstance(x, tuple) and x and x[0] == "&" and self.mine(x[1]))
                                                           for x in c.args if isinstance(x, tuple)):
            self.touch(eng, st, c.ln)
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            if "released" not in st.auto:
                eng.violation(st, "a receive job ends without giving the connection up", key="not released")


@prop("K01", "marked-busy-before-the-job", floor=4)
def busy_mark(ctx):
    """on_readable posts a receive job only on paths that read the busy flag as clear (acquire) and set it before posting,
    and sets it only when it posts"""
    m = ctx.m
    for cls in connection_classes(m):
        if not recv_set(m, cls):
            continue
        f = m.one(cls + "::on_readable")
        r = PostEnds(m, cls)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=cls))
        ctx.engine(e)
        ctx.instance("%s::on_readable" % cls, r.n)
        ctx.need(r.posts or e.viol, "%s::on_readable posts no receive job" % cls)


@prop("K01", "given-up-last", floor=8)
def job_end(ctx):
    """a receive job clears the busy flag (release) exactly once on every path, and touches the connection no more after that"""
    m = ctx.m
    for cls in connection_classes(m):
        for fid in recv_set(m, cls) & set(m.funcs):
            r = JobEnd(m, cls)
            e = Engine(m, r)
            e.run(e.initial(m.funcs[fid], auto=frozenset(), this_cls=cls))
            ctx.engine(e)
            ctx.instance("receive job of %s" % cls, r.n)


@prop("K01", "busy-flag-only-there", floor=4)
def busy_only(ctx):
    """nothing else writes the busy flag of a connection, and jobs are posted only on the reactor thread"""
    m = ctx.m
    cl = Closure.of(m)
    for cls in connection_classes(m):
        rs = recv_set(m, cls) & set(m.funcs)
        if not rs:
            continue
        fld = busy_field(m, cls)
        on = m.one(cls + "::on_readable")
        allowed = cl.reach(on.id) - set().union(*[cl.reach(x) for x in rs])
        jobside = set().union(*[cl.reach(x) for x in rs])
        for f, i in field_accesses(m, cls, fld):
            ctx.instance("busy flag accessed in %s" % norm(f.n))
            if i.get("sn") != "load" and f.id not in allowed and f.id not in jobside:
                ctx.report("%s:%s" % (f.file, i.get("ln")), "the busy flag is changed outside on_readable and the receive job", norm(f.n),
                           key="%s busy flag changed" % cls)
    post = {f.id for f in m.funcs.values() if f.cls == WORKER and f.sn == "post_job"}
    ctx.need(post, "worker::post_job was not found")
    off = set()
    for cls in connection_classes(m):
        for ids in jobs(m, cls).values():
            for x in ids:
                off |= cl.reach(x)
    for x in off & post:
        ctx.report(m.funcs[x].loc, "a job is posted from a worker thread", "post_job", key="posted off the reactor")
    ctx.instance("functions jobs may run", len(off))


# ---------------------------------------------------------------------------- the worker itself
def worker_fields(m):
    """(busy flag, exit flag, job member, buffer member) of the worker class"""
    fs = m.record(WORKER)["fields"]
    flags = [f["n"] for f in fs if f["t"] in ("std::atomic<bool>", "std::atomic_bool")]
    run = set()
    for f in m.named(WORKER + "::is_running"):
        for i in f.instrs():
            for x in iter_nodes(i):
                if x.get("fn") in flags:
                    run.add(x["fn"])
        for b in f.elems.values():
            for x in iter_nodes(b):
                if x.get("fn") in flags:
                    run.add(x["fn"])
    job = [f["n"] for f in fs if "function<void (cybozu::dynbuf &)>" in f["t"] or f["t"].endswith("job")]
    buf = [f["n"] for f in fs if f["t"] == "cybozu::dynbuf"]
    ex = [x for x in flags if x not in run]
    if len(run) != 1 or len(ex) != 1 or len(job) != 1 or len(buf) != 1:
        raise AnalysisError("the members of the worker class were not recognised")
    return run.pop(), ex[0], job[0], buf[0]


class WRule(Rule):
    width = 400

    def __init__(self, m):
        self.m = m
        T = lambda n: ("F", ("O", "this"), n)
        self.run, self.exit, self.job, self.buf = [T(n) for n in worker_fields(m)]
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls not in (WORKER, "cybozu::thread_base")

    def flip(self, st, add=(), drop=()):
        st.auto = (st.auto - frozenset(drop)) | frozenset(add)

    def is_job(self, c):
        return c.cls.startswith("std::function") and c.obj == self.job and c.node.get("sn") == "operator()"

    def reads_event(self, c):
        return c.func is None and c.name.lstrip(":") in ("read", "eventfd_read", "poll") or \
            (c.cls.startswith("std::condition_variable") and (c.node.get("sn") or "").startswith("wait"))

    def writes_event(self, c):
        return c.func is None and c.name.lstrip(":") in ("write", "eventfd_write") or \
            (c.cls.startswith("std::condition_variable") and (c.node.get("sn") or "").startswith("notify"))


class RunLoop(WRule):
    """auto: on (a job is posted, as read), off1 (busy flag read clear, exit flag not read since), ran, dirty (the buffer was used),
    noexit, quit, dead"""

    def on_call(self, eng, st, c):
        if "dead" in st.auto:
            return None
        a = atomic_op(c)
        if a and c.obj == self.run:
            self.n += 1
            if a[0] == "load":
                if a[2] not in ACQ:
                    eng.violation(st, "the worker reads its busy flag without acquire ordering", c.ln, key="run: order")
                if "quit" in st.auto:
                    eng.violation(st, "the worker goes on after it was told to exit", c.ln, key="run: exit ignored")
                if "off1" in st.auto:
                    eng.violation(st, "the worker waits for a job without looking at the exit flag: stop() may never return", c.ln, key="run: hang")
            elif a[0] == "store" and a[1] == ZERO:
                if a[2] not in REL:
                    eng.violation(st, "the worker becomes idle without release ordering", c.ln, key="run: idle order")
                if "ran" not in st.auto:
                    eng.violation(st, "the worker marks itself idle although it has run no job since: a job just posted is lost", c.ln, key="run: job lost")
                self.flip(st, drop=("ran", "on", "off1"))
            else:
                eng.violation(st, "the worker thread sets its own busy flag", c.ln, key="run: sets busy")
        if a and c.obj == self.exit:
            self.n += 1
            if a[0] == "load":
                if a[2] not in ACQ:
                    eng.violation(st, "the worker reads the exit flag without acquire ordering", c.ln, key="run: exit order")
                self.flip(st, drop=("off1",))
            else:
                eng.violation(st, "the worker thread changes the exit flag", c.ln, key="run: changes exit")
        if self.is_job(c):
            self.n += 1
            if "on" not in st.auto:
                eng.violation(st, "the worker runs its job member although no new job was seen", c.ln, key="run: job twice")
            if "quit" in st.auto or "noexit" not in st.auto:
                eng.violation(st, "the worker runs its job member although it may have been told to exit", c.ln, key="run: job at exit")
            if "dirty" in st.auto:
                eng.violation(st, "a job gets the buffer with the data of an earlier job", c.ln, key="run: buffer not reset")
            self.flip(st, add=("ran", "dirty"), drop=("on", "noexit"))
        if c.obj == self.buf and (c.node.get("sn") in ("reset", "freeze") or "reset" in c.name):
            self.flip(st, drop=("dirty",))
        if self.reads_event(c):
            self.n += 1
            if "ran" in st.auto:
                eng.violation(st, "the worker waits for the next job while still marked busy: it is never used again", c.ln, key="run: stays busy")
            if "quit" in st.auto:
                eng.violation(st, "the worker goes on after it was told to exit", c.ln, key="run: exit ignored")
        return None

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] != "call" or t[1] != "atomic.load" or "dead" in st.auto:
            return
        if t[2] == self.run:
            self.flip(st, add=("on",) if out else ("off1",), drop=("off1",) if out else ("on",))
        elif t[2] == self.exit:
            if not out and "quit" in st.auto:
                st.auto = frozenset({"dead"})       # the exit flag is never cleared
            else:
                self.flip(st, add=("quit",) if out else ("noexit",), drop=("noexit",) if out else ())

    def on_exit(self, eng, st, kind, v):
        self.n += 1
        if kind == "return" and not st.auto & {"quit", "dead"}:
            eng.violation(st, "the worker thread ends although nobody told it to exit", key="run: ends")


class PostJob(WRule):
    """auto: job / set / woken"""

    def on_call(self, eng, st, c):
        a = atomic_op(c)
        if a and c.obj == self.run:
            self.n += 1
            if a[0] in ("store", "rmw", "cas") and a[1] == ONE:
                if a[2] not in REL:
                    eng.violation(st, "the busy flag is set without release ordering: the job may not be visible to the worker", c.ln, key="post: order")
                if "job" not in st.auto:
                    eng.violation(st, "the worker is marked busy before it has the job", c.ln, key="post: flag before job")
                st.auto = st.auto | {"set"}
            elif a[0] != "load":
                eng.violation(st, "post_job does not mark the worker busy", c.ln, key="post: clears")
        elif c.obj == self.job and c.node.get("sn") != "operator()":
            self.n += 1
            if "set" in st.auto:
                eng.violation(st, "the job is replaced after the worker was marked busy", c.ln, key="post: job after flag")
            st.auto = st.auto | {"job"}
        if self.writes_event(c):
            st.auto = st.auto | {"woken"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            for k, what in (("job", "without storing the job"), ("set", "without marking the worker busy"), ("woken", "without waking the worker up")):
                if k not in st.auto:
                    eng.violation(st, "post_job returns " + what, key="post: no " + k)


class Stop(WRule):
    """auto: exit / woken / joined"""

    def on_call(self, eng, st, c):
        a = atomic_op(c)
        if a and c.obj == self.exit and a[0] != "load":
            self.n += 1
            if a[1] == ONE and a[2] in REL:
                st.auto = st.auto | {"exit"}
            else:
                eng.violation(st, "the exit flag is not set with release ordering", c.ln, key="stop: flag")
        if self.writes_event(c):
            self.n += 1
            if "exit" not in st.auto:
                eng.violation(st, "the worker is woken up before the exit flag is set", c.ln, key="stop: woken first")
            st.auto = st.auto | {"woken"}
        if c.cls == "std::thread" and c.node.get("sn") == "join":
            self.n += 1
            if "woken" not in st.auto:
                eng.violation(st, "the thread is awaited before it was woken up", c.ln, key="stop: join first")
            st.auto = st.auto | {"joined"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            if "joined" not in st.auto:
                eng.violation(st, "stop returns while the worker thread is still running", key="stop: not joined")


@prop("W01", "posted-job-runs-once", floor=9)
def worker_protocol(ctx):
    """worker: post_job stores the job, then sets the busy flag (release), then wakes the thread; the thread runs the job exactly once
    after reading the flag (acquire), with a fresh buffer, then - and only then - becomes idle; it ends only when told to; stop() sets
    the exit flag, wakes the thread and joins it"""
    m = ctx.m
    for sn, R in (("run", RunLoop), ("post_job", PostJob), ("stop", Stop)):
        f = m.one(WORKER + "::" + sn)
        r = R(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=WORKER))
        ctx.engine(e)
        ctx.instance("worker::%s" % sn, r.n)
        ctx.need(r.n >= 3, "worker::%s was not understood" % sn)
    # nobody else touches the flags
    run, ex, job, buf = worker_fields(m)
    for fld in (run, ex, job):
        for f, i in field_accesses(m, WORKER, fld):
            if f.ctor or f.cls == WORKER and f.sn in ("run", "post_job", "stop", "is_running"):
                continue
            if f.cls == WORKER and i.get("sn") != "load":
                # helpers are judged where they are used
                users = [g for g in m.funcs.values() if f.id in Closure.of(m).reach(g.id) and g.cls == WORKER and g.sn in ("run", "post_job", "stop")]
                if users:
                    continue
            if i.get("sn") != "load" and not (i.get("sn") or "").startswith("operator "):
                ctx.report("%s:%s" % (f.file, i.get("ln")), "%s of the worker is changed outside its protocol" % fld, norm(f.n), key="%s changed" % fld)


class Finder(Rule):
    """auto: frozenset of worker locations whose busy flag was read clear"""
    width = 300

    def __init__(self, m):
        self.m = m
        self.fld = worker_fields(m)[0]
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls != WORKER and not func.lambda_ and not any((i.get("sn") == "is_running") for i in func.instrs() if i["k"] == "call")

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] == "atomic.load" and t[2][0] == "F" and t[2][2] == self.fld and not out:
            st.auto = st.auto | {t[2][1]}

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        if v == ZERO or v is None:
            return
        z = eng.decide(st, eng.op("==", v, ZERO)) if not isconst(v) else None
        if z is True:
            return
        if deref(v) not in st.auto:
            eng.violation(st, "the worker chosen for a job is not one whose busy flag was just read clear", key="finder: busy worker")


def finder_lambdas(m):
    out = [f for f in m.funcs.values() if f.lambda_ and f.blocks and norm(f.ret or "").replace(" ", "") == WORKER + "*"]
    if not out:
        out = [f for f in m.funcs.values() if f.blocks and f.cls == "yrmcds::server" and norm(f.ret or "").replace(" ", "") == WORKER + "*"]
    return out


class Target(Rule):
    """where jobs are posted to. auto: frozenset of (kind, value): given / used"""
    width = 400

    def __init__(self, m):
        self.m = m
        self.n = 0
        cl = Closure.of(m)
        self.post = {f.id for f in m.funcs.values() if f.cls == WORKER and f.sn == "post_job"}
        fnd = {f.id for f in m.funcs.values() for i in f.instrs() if i["k"] == "call" and self.finder_call(i)}
        self.inline = cl.reaching(self.post | fnd)

    @staticmethod
    def finder_call(i):
        return (i.get("sn") == "operator()" and (i.get("cls") or "").startswith("std::function") and
                norm(i.get("t") or i.get("rt") or "").replace(" ", "") == WORKER + "*")

    def opaque(self, eng, func, name):
        return func.cls in (WORKER, "cybozu::reactor", "cybozu::dynbuf") or (not func.lambda_ and func.id not in self.inline)

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.id in self.post:
            self.n += 1
            t = c.obj
            v = addr(t)
            if ("used", v) in st.auto:
                eng.violation(st, "two jobs are posted to the same worker: the first is lost", c.ln, key="target: twice")
            if not any_sub(v, lambda x: x[0] == "call" and "std::function" in x[1]):
                eng.violation(st, "a job is posted to a worker that was not chosen by the finder", c.ln, key="target: not from the finder")
            elif eng.decide(st, eng.op("==", v, ZERO)) is not False:
                eng.violation(st, "a job is posted although the finder may have found no idle worker", c.ln, key="target: none idle")
            st.auto = st.auto | {("used", v)}
        return None


@prop("W01", "jobs-to-idle-workers", floor=4)
def idle_target(ctx):
    """the finder returns only a worker whose busy flag it read clear; every post_job targets a worker the finder just returned,
    checked non-null, and none gets two jobs"""
    m = ctx.m
    fs = finder_lambdas(m)
    ctx.need(fs, "the function choosing a worker was not found")
    for f in fs:
        r = Finder(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=f.cls))
        ctx.engine(e)
        ctx.instance("finder", r.n)
    cl = Closure.of(m)
    tot = 0
    for cls in sorted(m.derived("cybozu::resource")):
        for sn in ("on_readable", "on_writable", "on_hangup", "on_error"):
            for f in m.named(cls + "::" + sn):
                r = Target(m)
                if f.id not in r.inline or not f.blocks:
                    continue
                e = Engine(m, r)
                e.run(e.initial(f, auto=frozenset(), this_cls=cls))
                ctx.engine(e)
                ctx.instance("%s::%s" % (cls, sn), r.n)
                tot += r.n
    ctx.need(tot >= 3, "the calls of post_job were not reached")
