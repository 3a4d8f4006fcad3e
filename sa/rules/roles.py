"""Roles of the server: only the master serves, leaving slave mode, taking the master role, shutting down."""
from check import prop
from engine import *
from effects import Closure
from loops import ForEach
from model import AnalysisError, norm
from rules.sockets import iter_nodes, handlers_of, find_method, RES, CLOSERS, READS, is_errno
from rules.workers import WORKER

SERVER = "yrmcds::server"
PROTO = "yrmcds::protocol_handler"
MCH = "yrmcds::memcache::handler"
RCLIENT = "yrmcds::memcache::repl_client_socket"
REACTOR = "cybozu::reactor"


def calls(f):
    for i in f.instrs():
        if i["k"] == "call":
            yield i


def makers(m, cls):
    """functions that construct an object of the class"""
    out = []
    for f in m.funcs.values():
        for i in f.instrs():
            if i["k"] == "call" and i.get("ctor") and norm(i.get("cls") or "") == cls:
                out.append(f)
                break
            if i["k"] == "new" and norm(str(i.get("t") or "")).rstrip(" *") == cls:
                out.append(f)
                break
    return out


def is_wrapper(f):
    return f.lambda_ and f.blocks and len(f.params) == 2 and "ip_address" in f.params[1][2]


def field_writes(m, cls, fld):
    """(function, instruction) of every plain write to a member"""
    for f in m.funcs.values():
        for i in f.instrs():
            l = i.get("l") if i["k"] == "asg" else i.get("e") if i["k"] == "u" and i["op"] in ("++", "--") else None
            if i["k"] == "minit" and i.get("fn") == fld and f.cls == cls:
                yield f, i
            if l is None:
                continue
            for _ in range(3):
                if isinstance(l, dict) and "r" in l and len(l) == 1:
                    l = f.elems.get(l["r"])
            if isinstance(l, dict) and l.get("k") == "m" and l.get("fn") == fld and norm(l.get("cls") or "") == cls:
                yield f, i


class Called(Rule):
    """generic: follows functions that reach the events and nothing else"""
    width = 400

    def __init__(self, m, ids, extra=()):
        self.m = m
        self.n = 0
        self.inline = Closure.of(m).reaching(set(ids)) | set(extra)

    def opaque(self, eng, func, name):
        return not func.lambda_ and func.id not in self.inline


def vip_calls(m):
    """functions that answer whether this host holds the virtual IP address"""
    ids = {f.id for f in m.funcs.values() if f.n.endswith("has_ip_address")}
    if not ids:
        raise AnalysisError("has_ip_address was not found")
    return ids


def is_vip_term(t):
    return t[0] == "call" and t[1].endswith("has_ip_address") and any_sub(t, lambda x: x[0] == "call" and x[1].endswith("::vip"))


class Vip(Called):
    """auto: frozenset of held / lost (last answer to 'does this host hold the VIP', no waiting since)"""

    def __init__(self, m, ids, extra=()):
        Called.__init__(self, m, set(ids) | vip_calls(m), extra)
        self.vip = vip_calls(m)

    def opaque(self, eng, func, name):
        return func.id in self.vip or Called.opaque(self, eng, func, name)

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if is_vip_term(t) and "fresh" in st.auto:
            st.auto = (st.auto - {"held", "lost"}) | {"held" if out else "lost"}

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.id in self.vip:
            self.n += 1
            st.auto = st.auto - {"held", "lost"} | {"asked", "fresh"}
            # a fresh answer every time
            ok = any(isinstance(a, tuple) and any_sub(a, lambda x: x[0] == "call" and x[1].endswith("::vip")) for a in c.args)
            if not ok:
                eng.violation(st, "the address looked for is not the configured virtual IP address", c.ln, key="vip: other address")
            return None
        if c.name.endswith(("sleep_for", "sleep_until")) or (c.func is not None and c.func.cls == REACTOR and c.func.sn in ("run", "run_once")):
            st.auto = st.auto - {"held", "lost", "fresh"}
        return self.call(eng, st, c)

    def call(self, eng, st, c):
        return None


class Serve(Vip):
    def __init__(self, m, f_master):
        Vip.__init__(self, m, {f_master.id})
        self.master = f_master

    def opaque(self, eng, func, name):
        return func.id == self.master.id or func.sn == "serve_slave" or Vip.opaque(self, eng, func, name)

    def call(self, eng, st, c):
        if c.func is not None and c.func.id == self.master.id:
            self.n += 1
            if "held" not in st.auto:
                eng.violation(st, "the node becomes master without having just seen that it holds the VIP", c.ln, key="master without vip")
        if c.func is not None and c.func.sn == "serve_slave":
            st.auto = st.auto - {"held", "lost", "fresh"}
        return None


class GcRun(Vip):
    def __init__(self, m, target):
        Vip.__init__(self, m, {target.id})
        self.target = target

    def opaque(self, eng, func, name):
        return func.id == self.target.id or Vip.opaque(self, eng, func, name)

    def call(self, eng, st, c):
        if c.func is not None and c.func.id == self.target.id:
            self.n += 1
            if "held" not in st.auto:
                eng.violation(st, "the master collects garbage without having seen that it still holds the VIP", c.ln, key="gc without vip")
        return None

    def on_exit(self, eng, st, kind, v):
        self.n += 1
        if kind == "return" and "held" not in st.auto:
            eng.violation(st, "the GC thread of a node that lost the VIP ends without ending the process", key="gc: stays master")


@prop("R03", "master-only-with-vip", floor=6)
def vip_first(ctx):
    """serve() enters the master role only when the last answer to is_master() - given after anything that waits - was yes; every GC of the
    memcache store asks again first, and ends the process when the VIP is gone"""
    m = ctx.m
    sm = m.one(SERVER + "::serve_master")
    f = m.one(SERVER + "::serve")
    r = Serve(m, sm)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=SERVER))
    ctx.engine(e)
    ctx.instance("server::serve", r.n)
    for g in m.funcs.values():
        for i in calls(g):
            if i.get("sn") == "serve_master" and g.id != f.id and f.id not in Closure.of(m).reaching({g.id}):
                ctx.report("%s:%s" % (g.file, i.get("ln")), "serve_master is called outside serve()", norm(g.n), key="serve_master called elsewhere")
    gcrun = m.one("yrmcds::memcache::gc_thread::run")
    gc = m.one("yrmcds::memcache::gc_thread::gc")
    r = GcRun(m, gc)
    e = Engine(m, r)
    e.run(e.initial(gcrun, auto=frozenset(), this_cls="yrmcds::memcache::gc_thread"))
    ctx.engine(e)
    ctx.instance("gc_thread::run", r.n)


def slave_flag(m):
    """the flag make_memcache_socket tests"""
    fs = [f["n"] for f in m.record(MCH)["fields"] if f["t"] == "bool" and "slave" in f["n"].lower()]
    if len(fs) != 1:
        fs = [f["n"] for f in m.record(MCH)["fields"] if f["t"] == "bool"]
    if len(fs) != 1:
        raise AnalysisError("the slave flag of the memcache handler was not recognised")
    return fs[0]


class Maker(Called):
    def __init__(self, m, ids, cls, flag):
        Called.__init__(self, m, ids)
        self.cls = cls
        self.flag = ("F", ("O", "this"), flag)

    def on_new(self, eng, st, *a):
        return None

    def on_call(self, eng, st, c):
        if c.ctor and c.cls == self.cls:
            self.n += 1
            v = eng.load(st, self.flag)
            if eng.decide(st, v) is not False:
                eng.violation(st, "a client connection is accepted although the node may be a slave", c.ln, key="accepts as slave")
        return None


@prop("R03", "slaves-refuse-clients", floor=4)
def refuse(ctx):
    """a memcache connection object is made only when the slave flag is clear; the flag starts set and is cleared only in on_master_start;
    replication and counter connections are made only by listeners that on_master_start registers"""
    m = ctx.m
    cl = Closure.of(m)
    flag = slave_flag(m)
    cls = "yrmcds::memcache::memcache_socket"
    mk = makers(m, cls)
    ctx.need(mk, "no function constructs " + cls)
    ids = {f.id for f in mk}
    wr = [f for f in m.funcs.values() if is_wrapper(f) and cl.reach(f.id) & (ids | {f.id}) & ids]
    ctx.need(wr, "no listener makes " + cls)
    n = 0
    for f in wr:
        r = Maker(m, ids, cls, flag)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=MCH))
        ctx.engine(e)
        ctx.instance("listener " + norm(f.n), r.n)
        n += r.n
    ctx.need(n, "the construction of memcache connections was not reached")
    # the flag
    ms = m.one(MCH + "::on_master_start")
    ok = cl.reach(ms.id)
    n = 0
    for f, i in field_writes(m, MCH, flag):
        n += 1
        ctx.instance("slave flag written in %s" % norm(f.n))
        if i["k"] != "minit" and f.id not in ok:
            ctx.report("%s:%s" % (f.file, i.get("ln")), "the slave flag is changed outside on_master_start", norm(f.n), key="slave flag changed")
    ctx.need(n, "no write of the slave flag was found")
    for c2 in ("yrmcds::memcache::repl_socket", "yrmcds::counter::counter_socket"):
        mk2 = {f.id for f in makers(m, c2)}
        ctx.need(mk2, "no function constructs " + c2)
        lam = {f.id for f in m.funcs.values() if is_wrapper(f) and (cl.reach(f.id) | {f.id}) & mk2}
        ctx.need(lam, "no listener makes " + c2)
        for h in sorted(m.derived(PROTO)):
            for sn in ("on_start", "on_slave_start", "on_slave_interval", "on_slave_end", "on_master_end"):
                for f in m.named(h + "::" + sn):
                    ctx.instance("%s::%s opens no listener for %s" % (h, sn, c2))
                    if cl.reach(f.id) & lam:
                        ctx.report(f.loc, "%s connections can be accepted before the node is master" % c2.split("::")[-1], norm(f.n),
                                   key="%s listener outside on_master_start" % c2)


def reactor_callbacks(m, f):
    """lambdas written in f that take the reactor"""
    out = [g for g in m.lambdas_in(f) if g.blocks and len(g.params) == 1 and "cybozu::reactor" in g.params[0][2]]
    if not out:
        raise AnalysisError("the interval callback of %s was not found" % f.sn)
    return out


class Promote(Vip):
    """auto: asked / held / quit"""

    def __init__(self, m):
        Vip.__init__(self, m, {f.id for f in m.funcs.values() if f.cls == REACTOR and f.sn == "quit"})
        self.protos = set(m.derived(PROTO)) | {PROTO}

    def opaque(self, eng, func, name):
        # the handlers have reasons of their own to end the loop (R04)
        return func.cls == REACTOR or func.cls in self.protos or Vip.opaque(self, eng, func, name)

    def call(self, eng, st, c):
        if c.func is not None and c.func.cls == REACTOR and c.func.sn == "quit":
            self.n += 1
            st.auto = st.auto | {"quit"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        if "asked" not in st.auto:
            eng.violation(st, "a slave does not look for the VIP at an interval", key="slave: vip not checked")
        if "held" in st.auto and "quit" not in st.auto:
            eng.violation(st, "a slave that holds the VIP stays in slave mode", key="slave: not promoted")
        if "quit" in st.auto and "held" not in st.auto:
            eng.violation(st, "a slave leaves slave mode although it does not hold the VIP", key="slave: left")


class FlagAt(Rule):
    width = 100

    def __init__(self, flag, want):
        self.flag, self.want = ("F", ("O", "this"), flag), want
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls != MCH

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            if eng.decide(st, eng.load(st, self.flag)) is not self.want:
                eng.violation(st, "the slave flag is not %s afterwards" % ("set" if self.want else "cleared"), key="slave flag value")


@prop("R03", "slave-flag-values", floor=2)
def flag_values(ctx):
    """the slave flag is set when the handler is constructed and clear after on_master_start"""
    m = ctx.m
    flag = slave_flag(m)
    fs = [f for f in m.funcs.values() if f.ctor and f.cls == MCH and f.blocks and any(i["k"] == "minit" for i in f.instrs())]
    ctx.need(fs, "the constructor of the memcache handler was not found")
    for f, want in [(f, True) for f in fs] + [(m.one(MCH + "::on_master_start"), False)]:
        r = FlagAt(flag, want)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=MCH))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)


@prop("R03", "slave-looks-for-the-vip", floor=1)
def promote(ctx):
    """the interval callback of a slave asks for the VIP every time and leaves slave mode if and only if the node holds it"""
    m = ctx.m
    for f in reactor_callbacks(m, m.one(SERVER + "::serve_slave")):
        r = Promote(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=SERVER))
        ctx.engine(e)
        ctx.instance("slave callback", r.n)


# ---------------------------------------------------------------------------- slaves
class ClearFirst(ForEach):
    """auto also holds ('conn',) marks"""

    def __init__(self, m, target):
        self.m = m
        cl = Closure.of(m)
        self.target = target
        clr = {f.id for f in m.funcs.values() if f.sn in ("clear_nolock", "clear") and "hash_map" in (f.cls or "")}
        adds = {f.id for f in m.funcs.values() if f.cls == REACTOR and f.sn == "add_resource"}
        self.clr, self.adds = clr, adds
        self.inline = cl.reaching(clr | adds)
        ForEach.__init__(self, [dict(name="objects of the former master", base=lambda l: any_sub(l, lambda x: x[0] == "F" and x[2] == "m_hash" or
                                                                                                   (x[0] == "F" and "bucket" in x[2])),
                                     event=lambda eng, st, c: c.func is not None and c.func.id in clr,
                                     optional=lambda eng, st: (9, "conn") not in st.auto)])

    def opaque(self, eng, func, name):
        return func.id in self.clr or func.cls == REACTOR or (not func.lambda_ and func.id not in self.inline)

    def call(self, eng, st, c):
        if c.func is not None and c.func.id in self.adds:
            self.n += 1
            if self.get(st, 0) != "complete":
                eng.violation(st, "a slave starts to receive from the master while it still holds objects it got earlier", c.ln, key="not cleared")
            st.auto = st.auto | {(9, "conn")}
        return None


@prop("R04", "cleared-before-following", floor=3)
def cleared(ctx):
    """on_slave_start clears every bucket of the store before it registers the connection to the master"""
    m = ctx.m
    f = m.one(MCH + "::on_slave_start")
    r = ClearFirst(m, None)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=MCH))
    ctx.engine(e)
    ctx.instance("on_slave_start", r.n)
    ctx.need(r.n >= 3, "on_slave_start was not understood")


class Lost(Rule):
    """a connection to the master is given up. auto: inv / quit"""
    width = 500

    def __init__(self, m):
        self.m = m
        from rules.sockets import valid_field
        self.valid = ("F", ("O", "this"), valid_field(m))
        self.n = 0
        cl = Closure.of(m)
        ids = {f.id for f in m.funcs.values() if f.cls == REACTOR and f.sn == "quit"}
        ids |= {f.id for f in m.funcs.values() if f.cls == RES and f.sn in CLOSERS}
        self.inline = cl.reaching(ids) | {f.id for f in m.funcs.values() if f.cls == RES}

    def opaque(self, eng, func, name):
        return func.cls in (REACTOR, "cybozu::dynbuf") or (not func.lambda_ and func.id not in self.inline)

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] in ("atomic.cas", "atomic.exchange") and t[2] == self.valid and out:
            st.auto = st.auto | {"inv"}

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.cls == REACTOR and c.func.sn == "quit":
            self.n += 1
            st.auto = st.auto | {"quit"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind in ("return", "throw"):
            self.n += 1
            if "inv" in st.auto and "quit" not in st.auto:
                eng.violation(st, "the connection to the master is given up but the node stays in slave mode", key="slave mode kept")


@prop("R04", "loss-ends-slave-mode", floor=8)
def loss(ctx):
    """whenever the connection to the master is invalidated - by reading, writing, hanging up, an error or a failed heartbeat - the reactor
    loop is told to end"""
    m = ctx.m
    done = 0
    inter = Closure.of(m).reach(m.one(MCH + "::on_slave_interval").id)
    roots = [find_method(m, RCLIENT, n) for n in ("on_readable", "on_writable", "on_hangup", "on_error")]
    roots += [f for f in m.funcs.values() if f.cls == "cybozu::tcp_socket" and f.id in inter and f.blocks and not f.lambda_ and f.sn.startswith("send")]
    for f in roots:
        ctx.need(f is not None, "an event handler of the connection to the master was not found")
        r = Lost(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=RCLIENT))
        ctx.engine(e)
        ctx.instance(norm(f.n), r.n)
        done += r.n
    ctx.need(done > 8, "no invalidation of the connection to the master was reached")


def loop_flag(m):
    """the flag reactor::quit() clears"""
    f = m.one(REACTOR + "::quit")
    for fl in m.record(REACTOR)["fields"]:
        if "bool" in fl["t"] and any(g.id == f.id for g, i in field_writes(m, REACTOR, fl["n"])):
            return fl["n"]
    raise AnalysisError("the flag reactor::quit() clears was not recognised")


class Loop(Rule):
    width = 200

    def __init__(self, m):
        self.flag = ("F", ("O", "this"), loop_flag(m))
        self.n = 0

    def opaque(self, eng, func, name):
        return True

    def on_call(self, eng, st, c):
        if c.cls.startswith("std::function") and c.node.get("sn") == "operator()":
            self.n += 1
            if "polled" not in st.auto:
                eng.violation(st, "the interval callback is called without polling", c.ln, key="loop: no poll")
            if eng.decide(st, eng.load(st, self.flag)) is not True:
                eng.violation(st, "the interval callback is called although the loop may have been told to end", c.ln, key="loop: callback after quit")
            eng.havoc(st, self.flag, ("cb", c.eid))
            st.auto = st.auto - {"polled"}
        if c.func is not None and c.func.cls == REACTOR and c.func.sn == "poll":
            self.n += 1
            if eng.decide(st, eng.load(st, self.flag)) is not True:
                eng.violation(st, "the reactor polls on although the loop may have been told to end", c.ln, key="loop: poll after quit")
            eng.havoc(st, self.flag, ("poll", c.eid))
            st.auto = st.auto | {"polled"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            if eng.decide(st, eng.load(st, self.flag)) is not False:
                eng.violation(st, "the reactor loop ends although nobody asked", key="loop: ends")


@prop("R04", "no-interval-after-quit", floor=3)
def loop(ctx):
    """reactor::run polls and calls the interval callback only while its running flag is set, and returns only when it is clear"""
    m = ctx.m
    r = Loop(m)
    e = Engine(m, r)
    e.run(e.initial(m.one(REACTOR + "::run"), auto=frozenset(), this_cls=REACTOR))
    ctx.engine(e)
    ctx.instance("reactor::run", r.n)
    ctx.need(r.n >= 4, "reactor::run was not understood")


class Phase(ForEach):
    """every handler gets an event before / after reactor.run"""

    def __init__(self, m, fn, specs, pre):
        ForEach.__init__(self, specs)
        self.m, self.fn = m, fn
        self.pre = pre
        self.inline = {f.id for f in m.funcs.values() if f.cls == SERVER}

    def opaque(self, eng, func, name):
        return not func.lambda_ and (func.id not in self.inline or func.sn in ("serve_slave", "serve_master") and func.sn != self.fn)

    def ran(self, st):
        return (9, "ran") in st.auto

    def on_branch(self, eng, st, t, out, ln):
        if self.pre != self.ran(st):
            ForEach.on_branch(self, eng, st, t, out, ln)

    def on_call(self, eng, st, c):
        is_run = c.func is not None and c.func.cls == REACTOR and c.func.sn == "run"
        if is_run:
            if self.pre:
                for k, s in enumerate(self.specs):
                    self.n += 1
                    if self.get(st, k) != "complete":
                        eng.violation(st, "%s: the loop starts before all were handled" % s["name"], c.ln, key="%s: before run" % s["name"])
            st.auto = st.auto | {(9, "ran")}
            return None
        if self.pre != self.ran(st):
            return ForEach.on_call(self, eng, st, c)
        return None

    def on_exit(self, eng, st, kind, v):
        if not self.pre and self.ran(st):
            ForEach.on_exit(self, eng, st, kind, v)


def over(field):
    return lambda l: any_sub(l, lambda x: x[0] == "F" and x[2] == field)


def named_event(*sns):
    return lambda eng, st, c: (c.node.get("sn") in sns)


@prop("R04", "slave-end-for-every-handler", floor=3)
def slave_end(ctx):
    """after the loop of a slave ended, every protocol handler gets on_slave_end, and the memcache handler removes its connection to the
    master unless it is already invalid"""
    m = ctx.m
    f = m.one(SERVER + "::serve_slave")
    r = Phase(m, "serve_slave", [dict(name="on_slave_end", base=over("m_handlers"), event=named_event("on_slave_end"))], False)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=SERVER))
    ctx.engine(e)
    ctx.instance("serve_slave", r.n)
    r = SlaveEnd(m)
    e = Engine(m, r)
    e.run(e.initial(m.one(MCH + "::on_slave_end"), auto=frozenset(), this_cls=MCH))
    ctx.engine(e)
    ctx.instance("on_slave_end", r.n)


class SlaveEnd(Rule):
    width = 100

    def __init__(self, m):
        from rules.sockets import valid_field
        self.valid = valid_field(m)
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls == REACTOR or (func.cls == RES and func.sn != "valid")

    def on_branch(self, eng, st, t, out, ln):
        while t[0] == "not":
            t, out = t[1], not out
        if t[0] == "call" and t[1] == "atomic.load" and t[2][0] == "F" and t[2][2] == self.valid:
            st.auto = st.auto | {"valid" if out else "invalid"}

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.cls == REACTOR and c.func.sn == "remove_resource":
            self.n += 1
            if "invalid" in st.auto or "valid" not in st.auto:
                eng.violation(st, "a connection that may have been removed already is removed again", c.ln, key="slave end: twice")
            st.auto = st.auto | {"gone"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.n += 1
            if not st.auto & {"gone", "invalid"}:
                eng.violation(st, "the connection to the former master stays registered", key="slave end: kept")


@prop("W01", "workers-stopped-at-exit", floor=6)
def stopped(ctx):
    """after the master's loop ended, serve_master invalidates all connections (waking up blocked workers), then stops every worker, then
    ends every protocol handler"""
    m = ctx.m
    f = m.one(SERVER + "::serve_master")
    r = Shut(m)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=SERVER))
    ctx.engine(e)
    ctx.instance("serve_master", r.n)


class Shut(Phase):
    def __init__(self, m):
        Phase.__init__(self, m, "serve_master", [
            dict(name="worker::stop", base=over("m_workers"), event=lambda eng, st, c: c.func is not None and c.func.cls == WORKER and c.func.sn == "stop"),
            dict(name="on_master_end", base=over("m_handlers"), event=named_event("on_master_end"))], False)

    def on_call(self, eng, st, c):
        if self.ran(st) and c.func is not None:
            if c.func.cls == REACTOR and c.func.sn == "invalidate":
                st.auto = st.auto | {(9, "inv")}
            if c.func.cls == WORKER and c.func.sn == "stop":
                self.n += 1
                if (9, "inv") not in st.auto:
                    eng.violation(st, "a worker is awaited before the connections it may be blocked on are invalidated", c.ln, key="stop before invalidate")
        return Phase.on_call(self, eng, st, c)


@prop("R03", "handlers-told-first", floor=2)
def told(ctx):
    """every protocol handler gets on_master_start before the master's loop starts"""
    m = ctx.m
    f = m.one(SERVER + "::serve_master")
    r = Phase(m, "serve_master", [dict(name="on_master_start", base=over("m_handlers"), event=named_event("on_master_start"))], True)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=SERVER))
    ctx.engine(e)
    ctx.instance("serve_master", r.n)
    ctx.need(r.n >= 1, "serve_master does not run the reactor")
