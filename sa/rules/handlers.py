"""Rules over the memcache command handlers: every command of both protocols is
explored separately, from the dispatcher through the hash table into the handler."""
from check import prop
from engine import *
from effects import Closure
from loops import ForEach
from mcbase import *
from tables import *
from model import AnalysisError, norm

MODIFY_T = {"SET", "ADD", "REPLACE", "APPEND", "PREPEND", "CAS", "INCR", "DECR", "DELETE", "LOCK"}
MODIFY_B = {"Set", "Add", "Replace", "Append", "Prepend", "Increment", "Decrement", "Delete", "Lock", "LaG", "LaGK"}


NOREPLY = {"SET", "ADD", "REPLACE", "APPEND", "PREPEND", "CAS", "INCR", "DECR", "DELETE", "TOUCH", "FLUSH_ALL",
           "VERBOSITY"}


def base_cmd(n):
    return n[:-1] if n.endswith("Q") and n not in ("Q",) else n


class HandlerRule(McRule):
    """common machinery: current object, command, replies"""

    def __init__(self, info, proto, name, val):
        McRule.__init__(self, info)
        self.proto, self.cmd, self.val = proto, name, val
        self.status = {v: k for k, v in info.m.enum_map("yrmcds::memcache::binary_status").items()}
        cls = TREQ if proto == "text" else BREQ
        self.quiet_f = info.getter_field(cls, "no_reply" if proto == "text" else "quiet")
        self.cas_req = info.getter_field(cls, "cas_unique")
        self.exp_req = info.getter_field(cls, "exptime")
        self.n_events = 0

    def fail(self, eng, st, msg, ln=None):
        eng.violation(st, "%s command %s: %s" % (self.proto, self.cmd, msg), ln,
                      key="%s/%s: %s" % (self.proto, self.cmd, msg))

    expired_opaque = True

    def opaque(self, eng, func, name):
        return (self.expired_opaque and func.cls == OBJ and func.sn == "expired") or McRule.opaque(self, eng, func, name)

    def expired(self, eng, st, obj):
        """True / False / None: outcome of the expiry test on this path"""
        return eng.decide(st, ("call", OBJ + "::expired", obj, (), eng.epoch_of(st, obj)))

    def live(self, eng, st, obj):
        # a locked object never expires
        return self.expired(eng, st, obj) is False or self.unlocked(eng, st, obj) is False or \
            self.mine(eng, st, obj) is True

    def expiry_test(self, eng, st, c):
        """a locked object never expires (decided by the predicate rule), so the test splits on that"""
        if c.func is not None and c.func.cls == OBJ and c.func.sn == "expired" and self.expired_opaque:
            if McRule.unlocked(self, eng, st, c.obj) is False or self.mine(eng, st, c.obj) is True:
                return ZERO
        return None

    def on_call(self, eng, st, c):
        v = self.expiry_test(eng, st, c)
        return v if v is not None else McRule.on_call(self, eng, st, c)

    def on_branch(self, eng, st, t, out, ln):
        if out and self.expired_opaque and t[0] == "call" and t[1] == OBJ + "::expired":
            eng.assume(st, eng.op("==", self.lock_term(eng, st, t[2]), C(self.info.none)), True, ln)

    def cas_zero(self, eng, st):
        return eng.decide(st, eng.op("==", eng.load(st, ("F", self.cmdloc, self.cas_req)), ZERO))

    def cas_equal(self, eng, st, obj):
        return eng.decide(st, eng.op("==", eng.load(st, ("F", self.cmdloc, self.cas_req)),
                                     eng.load(st, ("F", obj, self.info.cas_f))))

    def cur_obj(self, st):
        for fr in reversed(st.frames):
            if fr.f.lambda_:
                for vid, n, t in fr.f.params:
                    if t == OBJ + " &":
                        l = fr.env.get(vid[1])
                        if l is not None:
                            return l
        return None

    def quiet(self, eng, st):
        return eng.decide(st, eng.load(st, ("F", self.cmdloc, self.quiet_f)))

    def reply_kind(self, name, c):
        """text: method name; binary error: status name"""
        if name == "error" and c.args and isconst(c.args[0]):
            return self.status.get(c.args[0][1], "?")
        if name == "send" and c.args:
            v = c.args[0]
            if v[0] == "&" and v[1][0] == "G":
                return v[1][1].split("::")[-1]
            if v[0] == "G":
                return v[1].split("::")[-1]
            return "send"
        return name

    def run(self, ctx, auto):
        eng = Engine(self.m, self)
        if ctx.thorough:
            self.width = 5000
        st, self.cmdloc = seed_command(eng, self.info, self, self.proto, self.cmd, self.val,
                                       self.info.cmd_text if self.proto == "text" else self.info.cmd_bin, auto)
        # what the parser guarantees per command (decided by the parser rules)
        if self.proto == "binary":
            st.store[("F", self.cmdloc, self.quiet_f)] = C(int(self.cmd.endswith("Q")))
        elif self.cmd not in NOREPLY:
            st.store[("F", self.cmdloc, self.quiet_f)] = ZERO
        # the connection's lock context is never the "not locked" value (decided by the context rule)
        st.facts[eng.load(st, ("G", "yrmcds::memcache::g_context"))] = (-INF, INF, frozenset((self.info.none,)))
        eng.run(st)
        ctx.engine(eng)
        return eng

    def essential_fact(self, eng, st, t):
        return True

    def deleted_object(self, v):
        return ("F", deref(v), "object")


def per_command(ctx, cls, auto, only=None):
    info = McInfo.of(ctx.m)

    def one(c, item):
        proto, name, val, _ = item
        r = cls(info, proto, name, val)
        r.run(c, auto)
        c.count("commands")
        c.instance("%s/%s: %d events" % (proto, name, r.n_events), r.n_events)
    items = [x for x in commands(info) if only is None or only(x[0], x[1])]
    ctx.parallel(one, items)
    return info


# ---------------------------------------------------------------------------- locks
class LockExclusion(HandlerRule):
    def owner_ok(self, eng, st, obj):
        return self.unlocked(eng, st, obj) is True or self.mine(eng, st, obj) is True

    def obj_event(self, eng, st, kind, f, obj, c):
        if kind == "new" or obj is None or root_of(obj)[0] == "L":
            return
        if kind == "mutate":
            self.n_events += 1
            if not self.owner_ok(eng, st, obj):
                self.fail(eng, st, "object::%s may change an object locked by another connection" % f.sn, c.ln)
        elif kind == "lock":
            self.n_events += 1
            if self.unlocked(eng, st, obj) is not True:
                self.fail(eng, st, "an object that may already be locked is locked", c.ln)
        elif kind == "unlock":
            self.n_events += 1
            if self.mine(eng, st, obj) is not True and not self.own_list(eng, st, obj):
                self.fail(eng, st, "an object that may be locked by another connection is unlocked", c.ln)

    def own_list(self, eng, st, obj):
        """the object was looked up with a key taken from this connection's own list of locks"""
        if obj[0] != "F":
            return False
        fld = book_methods(self.m)["field"]
        lst = ("F", st.frames[0].this, fld)
        for t, v in st.facts.items():
            if t[0] == "call" and t[1].endswith("operator==") and v not in (False,) and len(t[3]) == 2:
                if not (v is True or (isinstance(v, tuple) and (v[0] > 0 or 0 in v[2]))):
                    continue
                a, b = t[3]
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, tuple) and x[0] == "F" and x[1] == obj[1] and any_sub(y, lambda z: z == lst):
                        return True
        return False

    def on_write(self, eng, st, loc, val, ln):
        if loc[0] == "F" and loc[2] == self.info.lock_f and root_of(loc)[0] not in ("L", "T"):
            self.fail(eng, st, "lock owner written outside lock()/unlock()", ln)

    def on_delete(self, eng, st, v, i):
        obj = self.deleted_object(v)
        if "hash_map" in st.top.f.n:
            self.n_events += 1
            if not self.owner_ok(eng, st, obj):
                self.fail(eng, st, "an object that may be locked by another connection is removed", i.get("ln"))

    def reply_event(self, eng, st, name, final, c):
        obj = self.cur_obj(st)
        if obj is None or not final:
            return
        b = base_cmd(self.cmd)
        if self.unlocked(eng, st, obj) is False and self.mine(eng, st, obj) is False and \
                (b in MODIFY_T or b in MODIFY_B):
            self.n_events += 1
            k = self.reply_kind(name, c)
            if k not in ("locked", "Locked"):
                self.fail(eng, st, "a request refused by another connection's lock is answered %s" % k, c.ln)


@prop("C01", "owner-guards-every-change", floor=40)
def lock_exclusion(ctx):
    """on every path of every command, a change, removal, lock or unlock of a cached object is dominated by facts that
    entail 'not locked' or 'locked by this connection' for that object; the refusal is answered LOCKED"""
    per_command(ctx, LockExclusion, None)


class LockBook(HandlerRule):
    """auto: '' balanced, 'L' locked not booked, 'B' booked not locked, 'U' unlocked still booked, 'R' unbooked still locked"""

    def __init__(self, *a):
        HandlerRule.__init__(self, *a)
        self.book = book_methods(self.m)

    def opaque(self, eng, func, name):
        return func.id in self.book or HandlerRule.opaque(self, eng, func, name)

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.id in self.book:
            self.key_kept(eng, st, self.book[c.func.id], c)
            self.move(eng, st, self.book[c.func.id], c.ln)
            return UNIT
        if c.func is None and isloc(c.obj) and c.obj[0] == "F" and c.obj[2] == self.book["field"]:
            op = VECOPS.get(c.node.get("sn"))
            if op:
                self.key_kept(eng, st, op, c)
                self.move(eng, st, op, c.ln)
        return HandlerRule.on_call(self, eng, st, c)

    def key_kept(self, eng, st, op, c):
        """the record refers to the key: it must be the one stored with the locked object"""
        obj = self.cur_obj(st)
        if op != "add" or obj is None or not c.args:
            return
        self.n_events += 1
        k = c.args[0]
        k = k[1] if isinstance(k, tuple) and k[0] == "R" else k
        if not (obj[0] == "F" and isloc(k) and k[0] == "F" and k[1] == obj[1]):
            self.fail(eng, st, "records a key that may not outlive the lock", c.ln)

    def move(self, eng, st, op, ln):
        self.n_events += 1
        if op == "clear":
            return
        obj = self.cur_obj(st)
        if obj is None:
            self.fail(eng, st, "lock bookkeeping %s outside an object handler" % op, ln)
            return
        s = st.auto
        if op == "add":
            if s == "L":
                st.auto = ""
            elif s == "":
                st.auto = "B"
            else:
                self.fail(eng, st, "lock recorded twice", ln)
        elif op == "remove":
            if s == "U":
                st.auto = ""
            elif s == "":
                if self.mine(eng, st, obj) is not True:
                    self.fail(eng, st, "forgets a lock this connection may not hold", ln)
                st.auto = "R"
            else:
                self.fail(eng, st, "lock forgotten twice", ln)

    def obj_event(self, eng, st, kind, f, obj, c):
        if kind == "lock":
            self.n_events += 1
            if st.auto == "B":
                st.auto = ""
            elif st.auto == "":
                st.auto = "L"
        elif kind == "unlock":
            self.n_events += 1
            if st.auto == "R":
                st.auto = ""
            elif st.auto == "":
                st.auto = "U"

    def on_delete(self, eng, st, v, i):
        if "hash_map" not in st.top.f.n:
            return
        self.n_events += 1
        obj = self.deleted_object(v)
        if st.auto == "R":
            st.auto = ""
        elif self.mine(eng, st, obj) is not False and self.unlocked(eng, st, obj) is not True:
            self.fail(eng, st, "removes an object this connection may have locked without forgetting the lock", i.get("ln"))

    def on_exit(self, eng, st, kind, v):
        if st.auto and kind == "return":
            self.fail(eng, st, {"L": "locks an object without recording the lock for release at disconnect",
                                "B": "records a lock that was not taken",
                                "U": "unlocks an object but keeps it in the connection's list of locks",
                                "R": "forgets a lock that is still held"}[st.auto])


VECOPS = {"emplace_back": "add", "push_back": "add", "erase": "remove", "clear": "clear", "insert": "add",
          "pop_back": "remove"}


def book_methods(m):
    """methods of the connection that maintain its list of held locks"""
    out = {}
    fld = None
    cands = {}
    for f in m.funcs.values():
        if f.cls != SOCK or f.ctor or f.dtor or f.lambda_ or f.sn in ("cmd_text", "cmd_bin"):
            continue
        for i in f.instrs():
            if i["k"] == "call" and i.get("sn") in VECOPS and norm(i.get("cls") or "") == "std::vector":
                o = f.elems.get((i.get("obj") or {}).get("r"))
                if o and o.get("k") == "m" and "hash_key" in o.get("vt", ""):
                    fld = o["fn"]
                    cands[f.id] = VECOPS[i["sn"]]
    if fld is None:
        raise AnalysisError("the connection's list of held locks was not found")
    out.update(cands)
    out["field"] = fld
    if set(cands.values()) < {"add", "remove", "clear"}:
        # a missing operation inlined at its uses is fine, an absent one is not
        pass
    return out


@prop("C02", "lock-bookkeeping-pairs", floor=20)
def lock_book(ctx):
    """typestate of (object lock, connection's lock list): on every path of every command the two change together, a lock is
    forgotten only when held, and a removed object leaves no entry behind"""
    per_command(ctx, LockBook, "")


# ---------------------------------------------------------------------------- expiry
class Expiry(HandlerRule):
    def obj_event(self, eng, st, kind, f, obj, c):
        if obj is None or root_of(obj)[0] == "L" or kind in ("unlock", "age", "new"):
            return
        if self.cur_obj(st) != obj:
            return
        if kind == "mutate" and f.sn == "set":
            return      # replaces everything: decided by the conditional-store rule
        self.n_events += 1
        if not self.live(eng, st, obj):
            self.fail(eng, st, "object::%s used on an object that may have expired" % f.sn, c.ln)

    def reply_event(self, eng, st, name, final, c):
        obj = self.cur_obj(st)
        removed = base_cmd(self.cmd) in ("DELETE", "Delete") and name in ("deleted", "success")
        if obj is None or not (removed or name in ("value", "get", "key")):
            return
        self.n_events += 1
        if removed and not self.live(eng, st, obj):
            self.fail(eng, st, "an object that may have expired is reported as deleted", c.ln)
        elif not self.live(eng, st, obj):
            self.fail(eng, st, "an object that may have expired is sent to a client (%s)" % name, c.ln)

    def on_delete(self, eng, st, v, i):
        pass


@prop("C03", "expiry-decided-before-use", floor=40)
def expiry(ctx):
    """every read, listing, touch, lock or incremental update of a cached object on any path of any command is dominated by
    the object's expiry test answering 'live' (or by the object being locked)"""
    per_command(ctx, Expiry, None)


def global_field(name):
    return lambda eng, st, l: l[0] == "F" and root_of(l)[0] == "G" and l[2] == name


def global_var(qn):
    return lambda eng, st, l: l == ("G", qn)


@prop("C03", "expiry-decision-table", floor=10)
def expiry_table(ctx):
    """object::expired, explored per region of (lock state, flush time, expiration time) relative to the current time, answers
    'not locked, and (a flush is due or the expiration time is set and due)' on every path"""
    expiry_regions(ctx)


@prop("C01", "expiry-respects-locks", floor=10)
def expiry_table_locks(ctx):
    """object::expired never answers true for a locked object"""
    expiry_regions(ctx, only_locked=True)


@prop("C02", "expiry-respects-locks", floor=10)
def expiry_table_locks2(ctx):
    """object::expired never answers true for a locked object"""
    expiry_regions(ctx, only_locked=True)


def expiry_regions(ctx, only_locked=False):
    info = McInfo.of(ctx.m)
    f = ctx.m.one(OBJ + "::expired")
    now, ft = ("sym", "now"), ("sym", "flush_time")
    this = ("O", "obj")
    for lock in ("none", "other"):
        for fl in ("0", "<", "=", ">"):
            for ex in ("0", "<", "=", ">"):
                r = Regions([(global_field("flush_time"), ft), (global_var("yrmcds::g_current_time"), now)])
                eng = Engine(ctx.m, r)
                st = eng.initial(f, this=this, this_cls=OBJ)
                lk = eng.load(st, ("F", this, info.lock_f))
                xt = eng.load(st, ("F", this, info.exp_f))
                facts = [(eng.op("<", ZERO, now), True), (eng.op("==", lk, C(info.none)), lock == "none")]
                for t, rel in ((ft, fl), (xt, ex)):
                    facts += [(eng.op("==", t, ZERO), True)] if rel == "0" else \
                        [(eng.op("==", t, ZERO), False)] + order(eng, t, now, rel)
                if not assume_all(eng, st, facts):
                    raise AnalysisError("inconsistent region")
                eng.run(st)
                ctx.engine(eng)
                want = lock == "none" and (fl in "<=" or ex in "<=")
                for kind, v, s in r.results:
                    got = outcome(eng, s, v)
                    ctx.instance("lock %s, flush %s now, expiration %s now: %s" % (lock, fl, ex, got))
                    if got is None:
                        # 0/1 results combined arithmetically are not interpreted
                        raise AnalysisError("object::expired: undecided in a region (%s)" % show(v))
                    if got != want and (not only_locked or (lock != "none" and got)):
                        ctx.report(f.loc, "an object that is %s with flush time %s and expiration time %s is %s" % (
                            "unlocked" if lock == "none" else "locked",
                            {"0": "unset", "<": "past", "=": "due now", ">": "in the future"}[fl],
                            {"0": "unset", "<": "past", "=": "due now", ">": "in the future"}[ex],
                            "treated as expired" if got else "not treated as expired"), norm(f.n), key="expired %s%s%s" % (lock, fl, ex))
                ctx.need(r.results, "object::expired has no exit")


# ---------------------------------------------------------------------------- conditional stores
class ConditionalStore(HandlerRule):
    def obj_event(self, eng, st, kind, f, obj, c):
        b = base_cmd(self.cmd)
        if kind == "new":
            self.n_events += 1
            if b not in ("SET", "ADD", "Set", "Add", "Increment", "Decrement"):
                self.fail(eng, st, "creates an object", c.ln)
            elif self.proto == "binary" and b in ("Set", "Add") and self.cas_zero(eng, st) is not True:
                self.fail(eng, st, "creates an object although the request is conditional on a CAS value", c.ln)
            elif b in ("Increment", "Decrement"):
                none = const_of(self.m, BREQ + "::EXPTIME_NONE")
                t = eng.op("==", eng.load(st, ("F", self.cmdloc, self.exp_req)), C(none))
                if eng.decide(st, t) is not False:
                    self.fail(eng, st, "creates a counter although the request forbids it", c.ln)
            return
        if kind != "mutate" or obj is None or root_of(obj)[0] == "L":
            return
        self.n_events += 1
        if b in ("ADD", "Add") and self.expired(eng, st, obj) is not True:
            self.fail(eng, st, "overwrites an object that may exist", c.ln)
        if b in ("REPLACE", "Replace", "CAS") and not self.live(eng, st, obj):
            self.fail(eng, st, "stores although the object may have expired", c.ln)
        self.cas_guard(eng, st, obj, c.ln, "changes the object")

    def cas_guard(self, eng, st, obj, ln, what):
        if self.proto == "text":
            if self.cmd == "CAS" and self.cas_equal(eng, st, obj) is not True:
                self.fail(eng, st, "%s although its CAS value may differ from the request's" % what, ln)
            return
        if self.cas_zero(eng, st) is not True and self.cas_equal(eng, st, obj) is not True:
            self.fail(eng, st, "%s although its CAS value may differ from the request's" % what, ln)
        if self.cas_zero(eng, st) is not True and base_cmd(self.cmd) in ("Set", "Add") and not self.live(eng, st, obj):
            self.fail(eng, st, "%s although the object of a CAS request may have expired" % what, ln)

    def on_delete(self, eng, st, v, i):
        if "hash_map" in st.top.f.n:
            self.n_events += 1
            if self.expired(eng, st, self.deleted_object(v)) is not True:
                self.cas_guard(eng, st, self.deleted_object(v), i.get("ln"), "removes the object")

    def reply_event(self, eng, st, name, final, c):
        """a refusal names a reason that holds"""
        obj = self.cur_obj(st)
        if obj is None:
            return
        k = self.reply_kind(name, c)
        b = base_cmd(self.cmd)
        if k in ("exists", "Exists"):
            self.n_events += 1
            add = b in ("ADD", "Add") and self.live(eng, st, obj)
            if not add and self.cas_equal(eng, st, obj) is not False:
                self.fail(eng, st, "answers EXISTS although no CAS mismatch was found", c.ln)
        elif k in ("not_found", "NotFound", "not_stored", "NotStored"):
            self.n_events += 1
            if self.expired(eng, st, obj) is not True:
                self.fail(eng, st, "answers %s for an object that may be live" % k, c.ln)
        elif k in ("locked", "Locked"):
            self.n_events += 1
            lockcmd = b in ("LOCK", "Lock", "LaG", "LaGK")
            if self.unlocked(eng, st, obj) is not False or (not lockcmd and self.mine(eng, st, obj) is not False):
                self.fail(eng, st, "answers LOCKED although no other connection may hold the lock", c.ln)
        elif k == "NotLocked":
            self.n_events += 1
            if self.mine(eng, st, obj) is not False:
                self.fail(eng, st, "answers NOT LOCKED although this connection may hold the lock", c.ln)

    def on_leave(self, eng, st, func, rv):
        """a handler that declines (and thereby reports a miss) must have found the object unusable"""
        if not func.lambda_ or not (isconst(rv) and rv[1] == 0) or self.deciding_removal(st):
            return
        for vid, n, t in func.params:
            if t == OBJ + " &":
                obj = st.top.env.get(vid[1])
                if obj is None or func.ret != "bool":
                    return
                self.n_events += 1
                b = base_cmd(self.cmd)
                if self.expired(eng, st, obj) is True:
                    return
                if b == "ADD" and self.live(eng, st, obj):
                    return
                if b == "UNLOCK" and self.mine(eng, st, obj) is False:
                    return
                self.fail(eng, st, "treats an object that may be live as missing")

    def deciding_removal(self, st):
        return any("remove_if" in fr.f.n or "::gc" in fr.f.n for fr in st.frames)


def const_of(m, qn):
    v = m.const(qn)
    if v is None:
        raise AnalysisError("constant %s not found" % qn)
    return v


@prop("C04", "conditional-store", floor=60)
def conditional_store(ctx):
    """per command: creation, overwriting and removal are dominated by facts that entail the command's condition (absent,
    present, CAS equal), and every refusal or miss is dominated by facts that entail its stated reason"""
    per_command(ctx, ConditionalStore, None)


# ---------------------------------------------------------------------------- replies
ERRS_T = {"error", "not_stored", "exists", "not_found", "locked", "NON_NUMERIC", "NOT_LOCKED"}
SUCC_T = {"ok", "end", "stored", "touched", "deleted", "send", "version"}
EFFECT = {
    "SET": {"set", "new"}, "ADD": {"set", "new"}, "REPLACE": {"set"}, "APPEND": {"append"}, "PREPEND": {"prepend"},
    "CAS": {"set"}, "INCR": {"incr"}, "DECR": {"decr"}, "TOUCH": {"touch"}, "DELETE": {"delete"}, "LOCK": {"lock"},
    "UNLOCK": {"unlock"}, "FLUSH_ALL": {"flush"}, "UNLOCK_ALL": {"unlock_all"},
    "Set": {"set", "new"}, "Add": {"set", "new"}, "Replace": {"set"}, "Append": {"append"}, "Prepend": {"prepend"},
    "Increment": {"incr", "new"}, "Decrement": {"decr", "new"}, "Touch": {"touch"}, "Delete": {"delete"},
    "Lock": {"lock"}, "Unlock": {"unlock"}, "RaU": {"set"}, "Get": {"data"}, "GetK": {"data"}, "GaT": {"data"},
    "GaTK": {"data"}, "LaG": {"lock"}, "LaGK": {"lock"}, "Flush": {"flush"}, "UnlockAll": {"unlock_all"},
}
ALLOWED = {"RaU": {"unlock"}, "LaG": {"data", "touch"}, "LaGK": {"data", "touch"}, "Get": {"touch"}, "GetK": {"touch"},
           "GaT": {"touch"}, "GaTK": {"touch"}, "GET": {"data"}, "GETS": {"data"}, "Quit": {"unlock_all", "close"},
           "QUIT": {"unlock_all", "close"}, "KEYS": set(), "Keys": set()}
SUCCESS_KIND = {"SET": "stored", "ADD": "stored", "REPLACE": "stored", "APPEND": "stored", "PREPEND": "stored",
                "CAS": "stored", "TOUCH": "touched", "DELETE": "deleted", "LOCK": "ok", "UNLOCK": "ok",
                "UNLOCK_ALL": "ok", "GET": "end", "GETS": "end", "KEYS": "end", "SLABS": "ok", "STATS": "end",
                "FLUSH_ALL": "ok", "VERSION": "version", "VERBOSITY": "ok", "INCR": "send", "DECR": "send"}
MISS_SILENT = {"GetQ", "GetKQ", "GaTQ", "GaTKQ", "DeleteQ"}


class Replies(HandlerRule):
    """auto: (effects, replies)"""

    def __init__(self, *a):
        HandlerRule.__init__(self, *a)
        b = book_methods(self.m)
        self.book_clear = {k for k, v in b.items() if v == "clear"}
        self.flush_g = None

    def opaque(self, eng, func, name):
        return func.id in self.book_clear or HandlerRule.opaque(self, eng, func, name)

    def add(self, st, eff=None, rep=None):
        e, r = st.auto
        if eff:
            e = e | {eff}
        if rep:
            r = r + (rep,) if len(r) < 3 else r
        st.auto = (e, r)

    def obj_event(self, eng, st, kind, f, obj, c):
        if kind == "age" or (obj is not None and root_of(obj)[0] == "L" and kind != "new"):
            return
        self.n_events += 1
        self.add(st, eff="new" if kind == "new" else f.sn)

    def obj_throw(self, eng, st, f, c, tt):
        self.add(st, eff="!" + f.sn)

    def on_delete(self, eng, st, v, i):
        if "hash_map" in st.top.f.n and self.expired(eng, st, self.deleted_object(v)) is not True:
            self.add(st, eff="delete")

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.id in self.book_clear:
            self.add(st, eff="unlock_all")
            return UNIT
        if c.func is not None and c.func.sn == "invalidate_and_close":
            self.add(st, eff="close")
            return UNIT
        return HandlerRule.on_call(self, eng, st, c)

    def on_write(self, eng, st, loc, val, ln):
        if root_of(loc)[0] == "G" and loc[0] == "F" and loc[2] == "flush_time":
            self.add(st, eff="flush")

    def reply_event(self, eng, st, name, final, c):
        if self.proto == "text" and not final:
            if name.startswith("stats"):
                return
            k = self.reply_kind(name, c)
            obj = self.cur_obj(st)
            return
        if self.proto == "binary" and name == "key":
            return
        self.n_events += 1
        k = self.reply_kind(name, c)
        self.add(st, rep=k)

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        self.n_events += 1
        e, r = st.auto
        b = base_cmd(self.cmd)
        q = self.quiet(eng, st)
        succ = [x for x in r if self.is_success(x)]
        err = [x for x in r if not self.is_success(x)]
        if len(r) > 1:
            return self.fail(eng, st, "two replies to one request (%s)" % ", ".join(r))
        want = EFFECT.get(b)
        done = e & (want or set())
        failed = {x for x in e if x.startswith("!")}
        # every effect belongs to the command
        extra = {x for x in e if not x.startswith("!")} - (want or set()) - ALLOWED.get(b, set())
        if extra:
            return self.fail(eng, st, "has the effect of another command (%s)" % ", ".join(sorted(extra)))
        if b in ("QUIT", "Quit"):
            if "unlock_all" not in e:
                self.fail(eng, st, "quits without releasing the connection's locks")
            if b == "QUIT" or q is True:
                if "close" not in e:
                    self.fail(eng, st, "quits without closing the connection")
            return
        if want is not None and b != "GET":
            if succ and not done:
                return self.fail(eng, st, "reports success (%s) although nothing was done" % succ[0])
            if err and done and not failed:
                return self.fail(eng, st, "reports failure (%s) although the request was carried out" % err[0])
            if failed and succ:
                return self.fail(eng, st, "reports success (%s) although the operation failed" % succ[0])
        if self.proto == "text" and succ and SUCCESS_KIND.get(b) not in (None, succ[0]):
            return self.fail(eng, st, "success is answered %s" % succ[0])
        if b in ("RaU",) and succ and not {"set", "unlock"} <= e:
            return self.fail(eng, st, "reports success although the object was not both replaced and unlocked")
        if b in ("LaG", "LaGK") and succ and not {"lock", "data"} <= e:
            return self.fail(eng, st, "reports success although the object was not both locked and read")
        if not r:
            if q is not True:
                return self.fail(eng, st, "leaves a request without any reply")
            if want is not None and not done and not (self.proto == "text") and self.cmd not in MISS_SILENT:
                return self.fail(eng, st, "leaves a failed quiet request without an error reply")
        elif q is not False and succ and not (self.proto == "binary" and succ[0] == "get"):
            return self.fail(eng, st, "a request that asked for no reply is answered %s" % succ[0])
        elif q is not False and self.proto == "text" and err and err[0] != "error":
            return self.fail(eng, st, "a request that asked for no reply is answered %s" % err[0])

    def is_success(self, k):
        if self.proto == "text":
            return k in SUCC_T
        return k in ("success", "set", "incdec", "get", "quit", "version") or k.startswith("stats")


@prop("C05", "one-honest-reply", floor=60)
def replies(ctx):
    """per command and path: exactly one reply (none when the client asked for silence), success replies exactly on paths on
    which the command's own effect happened, error replies only on paths without it"""
    per_command(ctx, Replies, (frozenset(), ()))


# ---------------------------------------------------------------------------- replication
REPL = "yrmcds::memcache::repl_"


class Replicate(HandlerRule):
    """auto: changes of the current object not yet sent to the slaves: subset of {obj, touch, del, sent}"""

    def slaves_of(self, st):
        return ("F", st.frames[0].this, self.slaves_f)

    def __init__(self, *a):
        HandlerRule.__init__(self, *a)
        self.slaves_f = slaves_field(self.m)

    def no_slaves(self, eng, st):
        l = self.slaves_of(st)
        t = ("call", "std::vector::size", l, (), eng.epoch_of(st, l))
        return eng.decide(st, eng.op("==", t, ZERO)) is True

    def obj_event(self, eng, st, kind, f, obj, c):
        if kind in ("mutate", "new", "touch"):
            if obj is not None and root_of(obj)[0] == "L" and kind != "new":
                return
            self.n_events += 1
            st.auto = st.auto | {"touch" if kind == "touch" else "obj"}

    def obj_throw(self, eng, st, f, c, tt):
        st.auto = st.auto - {"obj"}

    def repl_event(self, eng, st, name, c):
        self.n_events += 1
        if not c.args or c.args[0] != self.slaves_of(st):
            self.fail(eng, st, "%s is not given the slaves of this server" % name, c.ln)
        if not any(root_of(h[0]) == ("O", "bucket") for h in st.held):
            self.fail(eng, st, "%s after the object's bucket was unlocked: slaves may see changes in another order" % name, c.ln)
        if len(c.args) > 1 and not self.key_of_cur(eng, st, c.args[1]):
            self.fail(eng, st, "%s names a key other than the changed object's" % name, c.ln)
        if name == "repl_object":
            st.auto = st.auto - {"obj", "touch"}
        elif name == "repl_touch":
            if "obj" not in st.auto:
                st.auto = st.auto - {"touch"}
        elif name == "repl_delete":
            if "del" in st.auto:
                st.auto = st.auto - {"del"}
            else:
                st.auto = st.auto | {"sent"}
        if name != "repl_delete" and len(c.args) > 2:
            obj = self.cur_obj(st)
            if obj is not None and c.args[2] != obj:
                self.fail(eng, st, "%s sends another object" % name, c.ln)

    def key_of_cur(self, eng, st, k):
        """is k the key the hash map handed to the handler, or the key looked up?"""
        k0 = k
        for fr in reversed(st.frames):
            for vid, n, t in fr.f.params:
                if "hash_key" in t and (fr.f.lambda_ or "hash_map" in fr.f.n):
                    if fr.env.get(vid[1]) == k:
                        return True
        return False

    def on_delete(self, eng, st, v, i):
        if "hash_map" not in st.top.f.n:
            return
        self.n_events += 1
        if "sent" in st.auto:
            st.auto = st.auto - {"sent"}
        else:
            st.auto = st.auto | {"del"}

    def on_throw(self, eng, st, tt, ln):
        st.auto = frozenset()      # a failed operation ends the connection's job; nothing is promised about it

    def on_leave(self, eng, st, func, rv):
        if not func.lambda_:
            return
        if any("object" in t for _, _, t in func.params) or func.ret.endswith("object"):
            self.settle(eng, st, {"obj", "touch"})

    def settle(self, eng, st, what):
        left = st.auto & what
        if left and not self.no_slaves(eng, st):
            txt = {"obj": "a changed object is not replicated", "touch": "a changed expiration time is not replicated",
                   "del": "a removal is not replicated", "sent": "replicates a removal that did not happen"}
            self.fail(eng, st, txt[sorted(left)[0]])
        st.auto = st.auto - what

    def on_unlock(self, eng, st, loc, ln):
        if root_of(loc) == ("O", "bucket"):
            self.settle(eng, st, {"obj", "touch", "del", "sent"})

    def on_exit(self, eng, st, kind, v):
        if kind == "return":
            self.settle(eng, st, {"obj", "touch", "del", "sent"})


def slaves_field(m):
    """the connection's own list of slaves: a vector<repl_socket*> member held by value"""
    r = m.record(SOCK)
    c = [f["n"] for f in r["fields"] if "repl_socket *" in f["t"] and not f["t"].rstrip().endswith("&")]
    if len(c) != 1:
        raise AnalysisError("the connection's list of slaves was not found")
    return c[0]


@prop("C06", "every-change-replicated", floor=40)
def replicate(ctx):
    """per command and path: after a change, touch, creation or removal of a cached object and before its bucket is unlocked,
    the matching replication request for the same key and object is sent to the connection's slaves, unless there are none"""
    per_command(ctx, Replicate, frozenset())


# ---------------------------------------------------------------------------- releasing all locks
class ReleaseAll(ForEach, HandlerRule):
    """every recorded lock is looked up and released, then the record is emptied"""

    def __init__(self, info, proto, name, val, clear=True):
        HandlerRule.__init__(self, info, proto, name, val)
        self.book = book_methods(info.m)
        self.must_clear = clear
        ForEach.__init__(self, [{"name": "releasing the held locks", "base": self.is_list, "event": self.is_lookup}])
        self.top_this = ("O", "this")

    def is_list(self, l):
        return isloc(l) and l[0] == "F" and l[2] == self.book["field"]

    def is_lookup(self, eng, st, c):
        return c.func is not None and c.cls == "cybozu::hash_map" and any(
            any_sub(a, self.is_list) for a in c.args)

    def opaque(self, eng, func, name):
        return HandlerRule.opaque(self, eng, func, name)

    def call(self, eng, st, c):
        if c.func is None and self.is_list(c.obj) and c.node.get("sn") in ("clear", "erase", "swap", "resize", "operator="):
            self.put(st, 98, "cleared")
            if any(x == (0, "open") for x in st.auto):
                eng.violation(st, "forgets locks before releasing them", c.ln, key="forgets locks before releasing them")
        return HandlerRule.on_call(self, eng, st, c)

    def on_branch(self, eng, st, t, out, ln):
        HandlerRule.on_branch(self, eng, st, t, out, ln)
        ForEach.on_branch(self, eng, st, t, out, ln)

    def on_enter(self, eng, st, func, call):
        if func.lambda_ and any(t == OBJ + " &" for _, _, t in func.params):
            self.put(st, 99, "found")

    def obj_event(self, eng, st, kind, f, obj, c):
        if kind == "unlock":
            self.n += 1
            self.put(st, 99, "released")

    def on_leave(self, eng, st, func, rv):
        if func.lambda_ and any(t == OBJ + " &" for _, _, t in func.params):
            self.n += 1
            if self.get(st, 99) == "found":
                eng.violation(st, "a recorded lock is not released", key="a recorded lock is not released")

    def on_exit(self, eng, st, kind, v):
        if kind in ("throw", "terminate"):
            eng.violation(st, "releasing the held locks may fail with an exception", key="release may throw")
            return
        ForEach.on_exit(self, eng, st, kind, v)
        if kind == "return" and self.must_clear and self.get(st, 98) != "cleared":
            eng.violation(st, "released locks stay recorded", key="released locks stay recorded")


class ReleaseInDtor(ReleaseAll):
    """as above, with object::unlock followed: no lock context holds in the destructor, so it must not insist on one"""

    def opaque(self, eng, func, name):
        if func.cls == OBJ and func.sn == "unlock":
            return False
        return ReleaseAll.opaque(self, eng, func, name)

    def call(self, eng, st, c):
        if c.func is not None and self.info.kind.get(c.func.id) == "unlock":
            self.obj_event(eng, st, "unlock", c.func, c.obj, c)
            return None
        return ReleaseAll.call(self, eng, st, c)


@prop("C02", "release-all", floor=2)
def release_all(ctx):
    """unlock-all, quit and the connection's destructor look up and release every recorded lock (the destructor regardless of the
    current lock context) before the record is dropped"""
    info = McInfo.of(ctx.m)

    def one(c, item):
        if item == "dtor":
            d = [f for f in c.m.funcs.values() if f.cls == SOCK and f.dtor and f.blocks]
            c.need(d, "connection destructor not found")
            r = ReleaseInDtor(info, "text", "QUIT", info.tcmd["QUIT"], clear=False)
            eng = Engine(c.m, r)
            r.cmdloc = ("O", "cmd")
            eng.run(eng.initial(d[0], auto=frozenset(), this_cls=SOCK))
            c.engine(eng)
            c.instance("connection destructor: %d steps" % r.n)
        else:
            proto, name, val, _ = item
            r = ReleaseAll(info, proto, name, val)
            r.run(c, frozenset())
            c.instance("%s/%s: %d steps" % (proto, name, r.n))
    todo = [x for x in commands(info) if base_cmd(x[1]) in ("UNLOCK_ALL", "QUIT", "UnlockAll", "Quit")]
    ctx.need(len(todo) >= 6, "unlock-all and quit commands not found")
    ctx.parallel(one, todo + ["dtor"])


class RecvJob(McRule):
    """the lock context is this connection's own identity whenever a command runs"""

    def __init__(self, info):
        McRule.__init__(self, info)
        self.fields = set()
        self.n = 0
        writers = [f.id for f in info.m.funcs.values() if any(
            i["k"] == "asg" and (f.elems.get((i["l"] or {}).get("r")) or i["l"]).get("qn") == "yrmcds::memcache::g_context"
            for i in f.instrs())]
        self.relevant = Closure.of(info.m).reaching([info.cmd_bin.id, info.cmd_text.id] + writers)

    def opaque(self, eng, func, name):
        return func.id not in self.relevant or func.id in (self.info.cmd_bin.id, self.info.cmd_text.id)

    def on_call(self, eng, st, c):
        if c.func is not None and c.func.id in (self.info.cmd_bin.id, self.info.cmd_text.id):
            self.n += 1
            v = st.store.get(("G", "yrmcds::memcache::g_context"))
            this = c.obj
            if v is not None and v[0] == "ld" and v[1][0] == "F" and v[1][1] == this:
                self.fields.add(v[1][2])
            else:
                eng.violation(st, "a command runs without this connection's lock context", c.ln, key="no lock context")
            return UNIT
        return McRule.on_call(self, eng, st, c)


@prop("C02", "owner-identity", floor=4)
def owner_identity(ctx):
    """whenever a worker runs a command, the lock context is a constant member of that connection, initialised from a counter
    that no two connections read the same value of"""
    info = McInfo.of(ctx.m)
    m = ctx.m
    callers = [f for f in m.funcs.values() if any(
        i["k"] == "call" and i.get("f") in (info.cmd_bin.id, info.cmd_text.id) for i in f.instrs())]
    ctx.need(callers, "no caller of the command handlers")
    roots = set()
    for f in callers:
        # climb to the job (or other) entry the worker calls
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            up = [h for h in m.funcs.values() if h.id != g.id and any(
                i["k"] == "call" and i.get("f") == g.id for i in h.instrs())]
            if g.lambda_ or not up:
                roots.add(g.id)
            else:
                todo += up
    fields = set()
    for rid in sorted(roots):
        f = m.funcs[rid]
        r = RecvJob(info)
        eng = Engine(m, r)
        eng.run(eng.initial(f, this_cls=SOCK))
        ctx.engine(eng)
        ctx.instance("%s: %d command calls under this connection's context" % (norm(f.n), r.n), r.n)
        fields |= r.fields
    for fld in sorted(fields):
        rec = [x for x in m.record(SOCK)["fields"] if x["n"] == fld]
        ctx.need(rec, "member %s not found" % fld)
        t = rec[0]["t"]
        if not t.startswith("const "):
            w = [f for f in m.funcs.values() if f.cls == SOCK and not f.ctor and fld in info.eff.writes(f)]
            if w:
                ctx.report(w[0].loc, "a connection's identity may change while it holds locks", norm(w[0].n), key="identity written")
        if ctx.m and not any(x in t for x in ("long", "64")):
            ctx.report("%s:%s" % (m.record(SOCK)["file"], rec[0]["line"]),
                       "a connection's identity is too narrow to stay unique (%s)" % t, SOCK, key="identity narrow")
        ctx.instance("identity member %s is constant" % fld)
        for f in m.funcs.values():
            if f.cls == SOCK and f.ctor and f.blocks:
                ctx.instance("identity of %s" % norm(f.n))
                if not unique_source(m, f, fld):
                    ctx.report(f.loc, "a connection's identity may equal that of another connection with unreleased locks",
                               norm(f.n), key="identity not unique")


def unique_source(m, ctor, fld):
    """the member's initialiser takes a fresh value from an atomic counter"""
    for i in ctor.instrs():
        if i["k"] == "minit" and i.get("fn") == fld:
            todo, seen = [i.get("e")], set()
            while todo:
                n = todo.pop()
                if not isinstance(n, dict):
                    continue
                if "r" in n and len(n) == 1:
                    if n["r"] in seen:
                        continue
                    seen.add(n["r"])
                    n = ctor.elems.get(n["r"])
                    if n is None:
                        continue
                if n.get("k") == "call" and norm(n.get("cls") or "").startswith("std::") and "atomic" in norm(n.get("cls") or "") and \
                        n.get("sn") in ("fetch_add", "operator++", "fetch_sub", "operator--"):
                    return True
                if n.get("k") == "call" and n.get("f") in m.funcs:
                    g = m.funcs[n["f"]]
                    if any(x["k"] == "call" and "atomic" in norm(x.get("cls") or "") and x.get("sn") in ("fetch_add", "operator++")
                           for x in g.instrs()):
                        return True
                for k in ("e", "obj", "b"):
                    if k in n:
                        todo.append(n[k])
                todo += n.get("a", []) if isinstance(n.get("a"), list) else []
    return False
