"""How slaves join a master and reach the collector and the client connections."""
from check import prop
from engine import *
from jobs import *
from mcbase import *
from model import AnalysisError, norm
from rules.replication import GC, HANDLER, gc_lists

CLIENT = "yrmcds::memcache::memcache_socket"
RSOCK = "yrmcds::memcache::repl_socket"
SYNCREQ = "yrmcds::sync_request"


def vec_fields(m, cls):
    return [f["n"] for f in m.record(cls)["fields"] if "vector" in f["t"] and "repl_socket *" in f["t"]]


def strip(f, n):
    for _ in range(8):
        if isinstance(n, dict) and "r" in n and len(n) == 1:
            n = f.elems.get(n["r"])
        elif isinstance(n, dict) and n.get("k") in ("cast", "paren") and "e" in n:
            n = n["e"]
        else:
            break
    return n


def handler_lists(m):
    """(all slaves, new slaves) of the handler: the former is the one client connections are created with"""
    fs = vec_fields(m, HANDLER)
    given = set()
    for f in m.funcs.values():
        if not f.n.startswith(HANDLER + "::"):
            continue
        for i in f.instrs():
            if i["k"] == "ctor" and norm(i.get("n") or "").startswith(CLIENT + "::"):
                for a in i.get("a", []):
                    a = strip(f, a)
                    if isinstance(a, dict) and a.get("fn") in fs:
                        given.add(a["fn"])
    if len(fs) != 2 or len(given) != 1:
        raise AnalysisError("the handler's slave lists were not recognised")
    g = next(iter(given))
    return g, [x for x in fs if x != g][0]


def is_vec(c, loc, *names):
    return c.obj == loc and c.cls == "std::vector" and (c.node.get("sn") or "") in names


class Join(Rule):
    """auto: (order of events)"""
    width = 500

    def __init__(self, m):
        self.m = m
        self.all_f, self.new_f = handler_lists(m)
        self.all, self.new = ("F", ("O", "this"), self.all_f), ("F", ("O", "this"), self.new_f)
        self.n = 0

    def opaque(self, eng, func, name):
        return func.cls in (RSOCK, SYNCREQ) or (func.cls or "").startswith("cybozu::") or "get_peer_ip" in name

    def val(self, eng, st, a):
        v = eng.load(st, a) if isloc(a) else a
        return v

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if is_vec(c, self.all, "push_back", "emplace_back") and c.args:
            self.n += 1
            st.auto = st.auto + (("all", self.val(eng, st, c.args[0])),)
            return UNIT
        if is_vec(c, self.new, "push_back", "emplace_back") and c.args:
            self.n += 1
            v = self.val(eng, st, c.args[0])
            if ("cb",) not in st.auto:
                eng.violation(st, "a slave is taken as confirmed without waiting for the workers", c.ln, key="confirmed early")
            st.auto = st.auto + (("new", v),)
            return UNIT
        if c.ctor and c.cls == SYNCREQ and c.args and not c.node.get("copy"):
            self.n += 1
            if not any(a[0] == "all" for a in st.auto):
                eng.violation(st, "the workers are waited for before the slave is on the list they copy", c.ln, key="sync before list")
            st.auto = st.auto + (("cb",),)
            r = eng.invoke(st, c, c.args[0], [])
            return r
        if c.func is not None and c.func.cls == "yrmcds::syncer" and sn == "add_request":
            st.auto = st.auto + (("asked",),)
            return UNIT
        return None

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        p = v
        if isloc(v):
            p = eng.load(st, ("F", v, "ptr"))
        elif isinstance(v, tuple) and v[0] == "R":
            p = eng.load(st, ("F", v[1], "ptr")) if isloc(v[1]) else v
        al = [x[1] for x in st.auto if x[0] == "all"]
        nw = [x[1] for x in st.auto if x[0] == "new"]
        if not al and not nw:
            if p != ZERO and not self.is_null(eng, st, p):
                eng.violation(st, "a slave's connection is accepted without being put on the list of slaves", key="join: not listed")
            return
        if self.is_null(eng, st, p):
            eng.violation(st, "a connection that is refused stays on the list of slaves", key="join: refused but listed")
        if len(al) != 1 or len(nw) != 1 or al != nw or ("asked",) not in st.auto:
            eng.violation(st, "a slave is not both listed once and confirmed once the workers have been idle", key="join: not confirmed")
        elif isinstance(p, tuple) and p[0] == "call" and al[0] != p and p[0] != "unk":
            pass

    def is_null(self, eng, st, p):
        return p == ZERO or eng.decide(st, eng.op("==", p, ZERO)) is True


def repl_wrappers(m):
    return [f for f in m.funcs.values() if not f.lambda_ and f.cls == HANDLER and f.blocks and
            any(i["k"] in ("ctor", "new") and (norm(i.get("n") or "").startswith(RSOCK + "::") or norm(i.get("t") or "").startswith(RSOCK))
                for i in f.instrs())]


@prop("R02", "slave-listed-then-confirmed", floor=1)
def join(ctx):
    """an accepted slave connection is put on the list the client connections copy, and a sync request whose callback puts the same
    connection on the list of new slaves is made after that, on every path that accepts it"""
    m = ctx.m
    fs = repl_wrappers(m)
    ctx.need(fs, "the function accepting slaves was not found")
    for f in fs:
        r = Join(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=(), this_cls=HANDLER))
        ctx.engine(e)
        ctx.instance("joining through %s" % norm(f.n), r.n)
        ctx.need(r.n >= 3 or e.viol, "no join seen in %s" % f.n)


class Handover(Rule):
    """auto: frozenset of events since the collection was created"""
    width = 800

    def __init__(self, m):
        self.m = m
        self.all_f, self.new_f = handler_lists(m)
        self.all, self.new = ("F", ("O", "this"), self.all_f), ("F", ("O", "this"), self.new_f)
        gcs = [f["n"] for f in m.record(HANDLER)["fields"] if GC in f["t"]]
        if len(gcs) != 1:
            raise AnalysisError("the handler's collector was not found")
        self.gcp = ("F", ("F", ("O", "this"), gcs[0]), "ptr")
        self.n = 0
        self.started = 0

    def keep_fact(self, eng, st, t):
        # what is known of single slaves does not matter
        return not any_sub(t, lambda x: x[0] in ("iter", "unk") or (x[0] == "call" and x[2] == self.all))

    def essential_fact(self, eng, st, t):
        return any_sub(t, lambda x: x == self.gcp or x == ("ld", self.gcp))

    def opaque(self, eng, func, name):
        return func.cls in (RSOCK, GC) or (func.cls or "").startswith("cybozu::") or (func.cls or "").startswith("yrmcds::config")

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if c.ctor and c.cls == GC and not c.node.get("copy"):
            self.n += 1
            if list(c.args[1:3]) != [self.all, self.new]:
                eng.violation(st, "a collection is not given the list of slaves and the list of new slaves", c.ln, key="collection: lists")
            run = eng.decide(st, eng.op("==", eng.load(st, self.gcp), ZERO))
            if run is not True:
                eng.violation(st, "a collection is started while another may be running", c.ln, key="collection: two at a time")
            st.auto = st.auto | {"made"}
        if c.obj == self.new and c.cls == "std::vector" and sn in ("clear", "erase", "pop_back", "resize", "swap", "operator="):
            self.n += 1
            if "made" not in st.auto:
                eng.violation(st, "new slaves are forgotten before a collection has taken them over", c.ln, key="new slaves lost")
            st.auto = st.auto | {"cleared"}
        if c.obj == self.new and c.cls == "std::vector" and sn in ("push_back", "emplace_back", "insert"):
            self.n += 1
            eng.violation(st, "a slave is taken as confirmed without waiting for the workers", c.ln, key="confirmed early")
        if c.func is not None and sn == "start" and (c.func.cls or "").startswith("cybozu::thread_base") and GC in c.func.n + str(c.func.cls):
            self.n += 1
            self.started += 1
            st.auto = st.auto | {"started"}
        return None

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n += 1
        if "made" in st.auto and "started" not in st.auto:
            eng.violation(st, "a collection is created but never runs", key="collection: not started")
        if "made" in st.auto and "cleared" not in st.auto:
            eng.violation(st, "new slaves stay on the list after a collection has taken them over", key="new slaves kept")


@prop("R02", "new-slaves-handed-to-a-collection", floor=4)
def handover(ctx):
    """a collection is created with both slave lists, only when no other one exists, and is started; the new slaves are taken off their list
    only after that collection has been created"""
    m = ctx.m
    tops = [f for f in m.funcs.values() if f.cls == HANDLER and not f.lambda_ and f.sn == "on_master_interval"]
    ctx.need(tops, "on_master_interval was not found")
    for f in tops:
        r = Handover(m)
        e = Engine(m, r)
        e.run(e.initial(f, auto=frozenset(), this_cls=HANDLER))
        ctx.engine(e)
        ctx.instance("collections created under %s" % norm(f.n), r.n)
        ctx.need(r.started or e.viol, "no collection is started under %s" % f.n)


class Fresh(Rule):
    """a connection's slave list when its receive job is posted. auto: frozenset"""
    width = 400

    def __init__(self, m):
        self.m = m
        fs = m.record(CLIENT)["fields"]
        self.mine = [f["n"] for f in fs if "repl_socket *" in f["t"] and not f["t"].endswith("&")]
        self.orig = [f["n"] for f in fs if "repl_socket *" in f["t"] and f["t"].endswith("&")]
        self.recv = {k for k, v in job_kind(m, CLIENT).items() if v == "recv"} | \
            {x for k, v in job_kind(m, CLIENT).items() if v == "recv" for x in jobs(m, CLIENT)[k]}
        if len(self.mine) != 1 or len(self.orig) != 1 or not self.recv:
            raise AnalysisError("the connection's slave lists or receive job were not recognised")
        self.n = 0
        self.posted = 0

    def opaque(self, eng, func, name):
        return (func.cls or "").startswith("cybozu::worker") or (func.cls or "").startswith("cybozu::reactor")

    def on_call(self, eng, st, c):
        me = ("F", ("O", "this"), self.mine[0])
        if c.cls == "std::vector" and c.obj == me and (c.node.get("sn") in ("operator=", "assign")):
            self.n += 1
            if c.args and any_sub(c.args[0], lambda t: t[0] == "F" and len(t) == 3 and t[2] == self.orig[0]):
                st.auto = st.auto | {"fresh"}
        if c.func is not None and c.func.sn == "post_job" and c.args:
            if posted(eng, st, c.args[0]) & self.recv:
                self.posted += 1
                self.n += 1
                if "fresh" not in st.auto:
                    eng.violation(st, "requests are handed to a worker with an outdated list of slaves", c.ln, key="stale slave list")
        return None


def posted(eng, st, a):
    """the job members a value passed to post_job may come from"""
    out = set()
    vals = [a]
    if isloc(a):
        vals.append(st.store.get(a, a))
    for v in vals:
        any_sub(v, lambda t: out.add(t[2]) if t[0] == "F" and len(t) == 3 else None)
        if isinstance(v, tuple) and v and v[0] == "lam":
            out.add(v[1])
    return out


@prop("C06", "slave-list-current", floor=1)
def slave_list(ctx):
    """a connection's receive job is posted only after the connection's own list of slaves has been copied anew from the master's list"""
    m = ctx.m
    f = m.one(CLIENT + "::on_readable")
    r = Fresh(m)
    e = Engine(m, r)
    e.run(e.initial(f, auto=frozenset(), this_cls=CLIENT))
    ctx.engine(e)
    ctx.instance("receive job posted with a fresh list", r.n)
    ctx.need(r.posted or e.viol, "no receive job is posted")
