"""The counter service: what every command does to a counter and to the books of the connection."""
from affine import *
from check import prop
from engine import *
from effects import Closure
from jobs import jobs
from loops import progress
from model import AnalysisError, norm
from rules.objects import walk_members

NS = "yrmcds::counter::"
OBJ, SOCK, REQ, RESP = NS + "object", NS + "counter_socket", NS + "request", NS + "response"
TH = ("O", "this")
O = ("O", "obj")
KEY = ("O", "stored_key")
ENT = ("O", "entry")
NAME = ("O", "cmd_name")
R, M = ("sym", "R", 0), ("sym", "M", 0)
CC, MX, LAST, V = ("sym", "consumption", 0), ("sym", "max", 0), ("sym", "last", 0), ("sym", "V", 0)
U32 = (1 << 32) - 1


def members(m):
    F = {}
    c = [x["fn"] for x in walk_members(m.one(OBJ + "::consumption"))]
    if len(set(c)) != 1:
        raise AnalysisError("counter::object::consumption does not read one member")
    F["c"] = c[0]
    for f in m.record(OBJ)["fields"]:
        t = f["t"].replace("const ", "")
        if f["n"] == F["c"]:
            continue
        if t in ("unsigned int", "std::uint32_t", "uint32_t"):
            F["mx"] = f["n"]
        elif t in ("long", "std::time_t", "time_t"):
            F["last"] = f["n"]
    mp = [f["n"] for f in m.record(SOCK)["fields"] if "map<" in f["t"] and "hash_key *" in f["t"]]
    hs = [f["n"] for f in m.record(SOCK)["fields"] if f["t"].rstrip("& ").endswith("hash_map<yrmcds::counter::object>")]
    if "mx" not in F or "last" not in F or len(mp) != 1 or len(hs) != 1:
        raise AnalysisError("the members of the counter classes were not recognised")
    F["books"], F["hash"] = mp[0], hs[0]
    return F


def is_now(t):
    return any_sub(t, lambda x: x[0] == "call" and x[1] == "atomic.load" and x[2] == ("G", "yrmcds::g_current_time"))


def boundary_form(t):
    """the start of the current interval: (t / i) * i or t - t % i"""
    while t[0] == "op" and t[1] == "narrow":
        t = t[2]
    if t[0] == "op" and t[1] == "*":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "op" and a[1] == "/" and a[3] == b and is_now(a[2]) and not is_now(b):
                return True
    if t[0] == "op" and t[1] == "-" and t[3][0] == "op" and t[3][1] == "%" and t[3][2] == t[2] and is_now(t[2]) and not is_now(t[3][3]):
        return True
    return False


class Base(Rule):
    """auto: frozenset of notes; ("br", atom, outcome) are the branch facts about amounts"""
    width = 3000
    depth = 16
    max_states = 60000

    def __init__(self, m, F):
        self.m, self.F = m, F
        self.checked = 0
        self.narith = 0

    def note(self, st, *x):
        st.auto = st.auto | {x}

    def notes(self, st, k):
        return [x for x in st.auto if x[0] == k]

    def bad(self, eng, st, msg, ln=None, key=None):
        if not self.impossible(st):
            eng.violation(st, msg, ln, key=key or msg)

    def on_branch(self, eng, st, t, out, ln):
        if t[0] == "op" and t[1] in ("<", "=="):
            if t[1] == "<" and t[2] == LAST and is_now(t[3]):
                self.note(st, "stale", out)
                if not boundary_form(t[3]):
                    self.bad(eng, st, "the time of the last update is not compared with the start of the interval", ln, "interval")
            elif t[1] == "<" and is_now(t) and any_sub(t, lambda x: x == LAST):
                self.note(st, "stale", "?")
                self.bad(eng, st, "the time of the last update is not compared with the start of the interval", ln, "interval")
            elif any_sub(t, lambda x: x[0] == "sym"):
                self.note(st, "br", t, out)
        elif t[0] == "sym":
            self.note(st, "br", ("op", "==", t, ZERO), not out)

    def facts(self, st):
        """inequalities (>= 0) and equations (= 0) of the path, with the invariants of the data"""
        r = [lin(x) for x in (R, M, CC, MX, V)] + [Lin({}, U32) - lin(x) for x in (R, M, CC, MX, V)]
        if ("ent", True) in st.auto:
            r += [lin(CC) - lin(V), lin(V) - Lin({}, 1)]
        r += self.assumed
        eq, ne = [], []
        for x in self.notes(st, "br"):
            t, out = x[1], x[2]
            a, b = lin(t[2]), lin(t[3])
            if t[1] == "<":
                r.append(b - a - Lin({}, 1) if out else a - b)
            elif out:
                eq.append(a - b)
            else:
                ne.append(a - b)
        for d in ne:
            for s in (d, -d):
                if self.ge(st, s, eq, r):
                    r = r + [s - Lin({}, 1)]
        return eq, r

    assumed = ()

    def ge(self, st, l, eq=None, r=None):
        if eq is None:
            eq, r = self.facts(st)
        class E:
            facts, store = {}, {}
        return proves_ge0(E, l, eq, r)

    def zero(self, st, l):
        eq, r = self.facts(st)
        class E:
            facts, store = {}, {}
        return proves_zero(E, l, eq) or self.ge(st, l, eq, r) and self.ge(st, -l, eq, r)

    def impossible(self, st):
        """do the facts of the path contradict each other?"""
        eq, r = self.facts(st)
        return self.ge(st, Lin({}, -1), eq, r) or any(self.ge(st, -f - Lin({}, 1), eq, r) for f in r) or \
            any(f.const() not in (None, 0) for f in (Sys(eq[:i]).reduce(e) for i, e in enumerate(eq)))

    def on_arith(self, eng, st, o, a, b, t, ln):
        t = t.replace("const ", "")
        if INT_BITS.get(t) != 32 or o not in ("+", "-", "*"):
            return
        if not (any_sub(a, lambda x: x in (R, M, CC, V)) or any_sub(b, lambda x: x in (R, M, CC, V))):
            return
        self.narith += 1
        if o == "*":
            self.bad(eng, st, "an amount is multiplied", ln, "multiplication")
            return
        l = lin(a) + lin(b) if o == "+" else lin(a) - lin(b)
        if not self.ge(st, l) or not self.ge(st, Lin({}, U32) - l):
            self.bad(eng, st, "the %s of amounts can leave the 32-bit range" % ("sum" if o == "+" else "difference"), ln, "overflow in " + o)

    def seed(self, st):
        F = self.F
        st.store[("F", O, F["c"])] = CC
        st.store[("F", O, F["mx"])] = MX
        st.store[("F", O, F["last"])] = LAST
        st.store[("F", ENT, "second")] = V

    def val(self, eng, st, a):
        v = eng.load(st, a) if isloc(a) else a
        return v[1] if v[0] == "R" else v

    def minmax(self, eng, st, c):
        if c.name in ("std::max", "std::min") and len(c.args) == 2:
            return (c.name[5:],) + tuple(self.val(eng, st, a) for a in c.args)
        return None

    # ---- checks of the object
    def unchanged(self, eng, st, what, key):
        F = self.F
        if [eng.load(st, ("F", O, F[x])) for x in ("c", "mx", "last")] != [CC, MX, LAST]:
            self.bad(eng, st, "%s, but the counter is changed" % what, key=key + ": counter")

    def updated(self, eng, st, new, key):
        """the counter has the consumption `new`, and the maximum of the interval follows"""
        F = self.F
        c, mx, last = [eng.load(st, ("F", O, F[x])) for x in ("c", "mx", "last")]
        if not self.zero(st, lin(c) - new):
            self.bad(eng, st, "the consumption is not changed by exactly the amount of the request", key=key + ": consumption")
            return
        st8 = {x[1] for x in self.notes(st, "stale")}
        if len(st8) != 1:
            self.bad(eng, st, "the maximum is updated without looking whether a new interval has begun", key=key + ": interval")
            return
        stale = st8.pop()
        up = self.ge(st, new - lin(CC))
        if mx[0] == "max":
            a, b = lin(mx[1]), lin(mx[2])
            for x, y in ((a, b), (b, a)):
                if self.ge(st, x - y):
                    a = b = x
            cand = {a, b}
        else:
            cand = {lin(mx)}
        def same(want):
            return len(cand) == len(want) and all(any(self.zero(st, x - w) for x in cand) for w in want)
        if stale:
            want = [new] if up else [lin(CC)]
            ok = same(want)
        elif up:
            ok = same([lin(MX), new]) or len(cand) == 1 and (same([new]) and self.ge(st, new - lin(MX)) or same([lin(MX)]) and self.ge(st, lin(MX) - new))
        else:
            ok = same([lin(MX)])
        if not ok:
            self.bad(eng, st, "the maximum consumption of the interval is wrong afterwards (%s interval)" % ("new" if stale else "same"), key=key + ": maximum")
        if not is_now(last):
            self.bad(eng, st, "the time of the update is not recorded", key=key + ": time")


# --------------------------------------------------------------------------- the counter object
class Method(Base):
    def __init__(self, m, F, what):
        Base.__init__(self, m, F)
        self.what = what

    def on_call(self, eng, st, c):
        return self.minmax(eng, st, c)

    def on_exit(self, eng, st, kind, val):
        if kind in ("throw", "noreturn"):
            self.bad(eng, st, "%s does not return" % self.what)
            return
        if self.impossible(st):
            return
        self.checked += 1
        w = self.what
        eq, r = self.facts(st)
        if w in ("acquire", "release"):
            ok = None
            if val is not None and isconst(val):
                ok = bool(val[1])
            if ok is None:
                self.bad(eng, st, "%s returns a value that is not understood" % w)
            elif not ok:
                self.unchanged(eng, st, "%s is refused" % w, w + " refused")
                d = lin(CC) + lin(R) - lin(M) - Lin({}, 1) if w == "acquire" else lin(R) - lin(CC) - Lin({}, 1)
                if not self.ge(st, d):
                    self.bad(eng, st, "%s is refused although it is possible" % w, key=w + " refused wrongly")
            else:
                new = lin(CC) + lin(R) if w == "acquire" else lin(CC) - lin(R)
                d = lin(M) - new if w == "acquire" else new
                if not self.ge(st, d):
                    self.bad(eng, st, "acquire succeeds beyond the maximum" if w == "acquire" else "release takes more than was consumed", key=w + " limit")
                self.updated(eng, st, new, w)
            return
        self.unchanged(eng, st, "%s is a query" % w, w)
        st8 = {x[1] for x in self.notes(st, "stale")}
        if w == "consumption":
            if val != CC:
                self.bad(eng, st, "consumption() does not return the consumption", key=w)
        elif w == "max_consumption":
            if len(st8) != 1 or val != (CC if True in st8 else MX):
                self.bad(eng, st, "the reported maximum is not that of the current interval", key=w)
        elif w == "deletable":
            if val is None:
                return
            zero = any(x[1][1] == "==" and set(x[1][2:]) == {CC, ZERO} and x[2] for x in self.notes(st, "br"))
            if isconst(val):
                if val[1] and not (zero and True in st8):
                    self.bad(eng, st, "a counter in use, or used in this interval, counts as deletable", key=w)
            else:
                t, out = val, True
                while t[0] == "not":
                    t, out = t[1], not out
                last_test = t[0] == "op" and t[1] == "<" and t[2] == LAST and boundary_form(t[3]) and out
                zero_test = t[0] == "op" and t[1] == "==" and set(t[2:]) == {CC, ZERO} and out
                if not (zero and last_test or True in st8 and zero_test):
                    self.bad(eng, st, "a counter in use, or used in this interval, counts as deletable", key=w)


class Made(Base):
    def on_call(self, eng, st, c):
        return self.minmax(eng, st, c)

    def on_exit(self, eng, st, kind, val):
        self.checked += 1
        F = self.F
        c, mx, last = [eng.load(st, ("F", TH, F[x])) for x in ("c", "mx", "last")]
        if c != R or mx != R or not is_now(last):
            self.bad(eng, st, "a new counter does not start with the given consumption, as its maximum, now", key="constructor")


@prop("N01", "counter-object", floor=8)
def counter_object(ctx):
    m = ctx.m
    F = members(m)
    for what, args in (("acquire", [R, M]), ("release", [R]), ("consumption", []), ("max_consumption", []), ("deletable", [])):
        f = m.one(OBJ + "::" + what)
        rule = Method(m, F, what)
        rule.name = "N01"
        if what == "acquire":
            rule.assumed = [lin(R) - Lin({}, 1)] if False else []
        e = Engine(m, rule)
        st = e.initial(f, this=O, args=args, auto=frozenset())
        rule.seed(st)
        e.run(st)
        ctx.engine(e)
        ctx.need(rule.checked or e.viol, "no path of object::%s ends" % what)
        ctx.instance("object::%s: %d paths, %d computations within 32 bits" % (what, rule.checked, rule.narith), rule.checked)
    n = 0
    for f in m.funcs.values():
        if f.cls == OBJ and f.ctor and f.blocks and len(f.params) == 1 and not f.params[0][2].endswith("&"):
            rule = Made(m, F)
            e = Engine(m, rule)
            e.run(e.initial(f, this=TH, args=[R], auto=frozenset()))
            ctx.engine(e)
            n += 1
            ctx.instance("%s: initial values" % f.n)
    ctx.need(n == 1, "the constructor of a counter was not found")


# --------------------------------------------------------------------------- the commands
class Command(Base):
    depth = 20

    def __init__(self, m, F, name, value, status):
        Base.__init__(self, m, F)
        self.cmd, self.value, self.status = name, value, status
        st = m.enum_map(NS + "status")
        self.S = st
        self.books = ("F", TH, F["books"])

    def opaque(self, eng, func, name):
        return func.cls in (REQ, RESP)

    def ent(self, st):
        x = self.notes(st, "ent")
        return x[0][1] if x else None

    def set_now(self, st, v):
        st.auto = frozenset(x for x in st.auto if x[0] != "now") | {("now", v)}

    def now(self, st):
        x = self.notes(st, "now")
        return x[0][1] if x else None

    def key_ok(self, eng, st, k, ln):
        v = self.val(eng, st, k)
        if v != ("&", KEY) and k != KEY:
            self.bad(eng, st, "the books of the connection are not kept under the key stored in the hash map", ln, "books key")

    def lookup(self, eng, st, mk):
        """split on whether the connection holds some of this counter; mk(state, present) gives the value"""
        n = self.now(st)
        if n is not None:
            return [(st, mk(st, n))]
        if ("exists", False) in st.auto:
            # a counter that did not exist is in nobody's books (entries keep their counter alive)
            self.note(st, "ent", False)
            self.set_now(st, False)
            return [(st, mk(st, False))]
        s2 = st.copy()
        self.note(st, "ent", True)
        self.set_now(st, True)
        self.note(s2, "ent", False)
        self.set_now(s2, False)
        return [(st, mk(st, True)), (s2, mk(s2, False))]

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        r = self.minmax(eng, st, c)
        if r is not None:
            return r
        cls = c.func.cls if c.func is not None else c.cls
        if cls == REQ and not c.ctor:
            return {"command": C(self.value), "status": C(self.status), "resources": R, "maximum": M, "name": NAME}.get(sn)
        if cls == RESP and not c.ctor:
            self.note(st, "reply", len(self.notes(st, "reply")), sn, tuple(self.val(eng, st, a) for a in c.args),
                      ("locked", True) in st.auto)
            return UNIT
        if c.ctor and cls == RESP:
            return None
        if c.ctor and c.name.startswith("cybozu::hash_key") and len(c.args) == 2:
            p, n = [self.val(eng, st, a) for a in c.args]
            good = p[0] == "ld" and n[0] == "ld" and p[1][0] == "F" and n[1][0] == "F" and p[1][1] == n[1][1] == NAME and (p[1][2], n[1][2]) == ("p", "len")
            if not good:
                self.bad(eng, st, "the key is not the name in the request", c.ln, "key")
            return None
        if c.ctor and cls == OBJ:
            if c.node.get("copy") or len(c.args) != 1 or isloc(c.args[0]) and c.pt and c.pt[0].endswith("&"):
                return None
            self.note(st, "new", self.val(eng, st, c.args[0]))
            return ("T", "newobj", 0, 0)
        if c.name.startswith("cybozu::hash_map") and not c.ctor and cls.startswith("cybozu::hash_map"):
            return self.hash(eng, st, c, sn)
        if c.obj is not None and c.obj == self.books:
            return self.book(eng, st, c, sn)
        if sn in ("operator==", "operator!="):
            a = [self.val(eng, st, x) for x in ([c.obj] if c.obj is not None else []) + list(c.args)]
            if len(a) == 2 and all(x in (("&", ENT), ("ENDIT",)) for x in a):
                return C(int((a[0] == a[1]) == (sn == "operator==")))
        if sn in ("operator->", "operator*") and c.obj is not None:
            v = self.val(eng, st, c.obj)
            if v == ("&", ENT):
                return v if sn == "operator->" else ENT
            if v == ("ENDIT",):
                self.bad(eng, st, "an entry that does not exist is used", c.ln, "end iterator")
        return None

    def hash(self, eng, st, c, sn):
        if sn == "get_bucket":
            return ("O", "bucket")
        if sn in ("apply",):
            h = eng.lam_value(st, c.args[1])
            k = eng.lam_value(st, c.args[2])
            if self.notes(st, "locked"):
                self.bad(eng, st, "a second operation on the hash map", c.ln, "second apply")
            self.note(st, "locked", True)
            s2 = st.copy()
            self.note(st, "exists", True)
            self.note(s2, "exists", False)
            if k is None:
                s2.top.vals[c.eid] = ZERO
                eng.work.append(s2)
            else:
                d = c.copy()
                d.args = [KEY]
                # the creating branch continues in its own state
                d.st = s2
                if eng.call_lambda(s2, k, d, c.eid) == "push":
                    e = eng.enter_block(s2)
                    if e is not None:
                        eng.work.append(e)
            if h is None:
                return ZERO
            return eng.invoke(st, c, c.args[1], [KEY, O])
        if sn == "foreach":
            self.note(st, "locked", True)
            return eng.invoke(st, c, c.args[0], [KEY, O])
        if sn in ("hash", "length", "data"):
            return None
        self.bad(eng, st, "unexpected operation on the hash map (%s)" % sn, c.ln, "hash operation")
        return None

    def book(self, eng, st, c, sn):
        if sn in ("end", "cend"):
            return ("R", ("ENDIT",))
        if sn in ("find", "count", "at", "operator[]"):
            self.key_ok(eng, st, c.args[0], c.ln)

            def mk(s, present):
                if sn == "find":
                    return ("R", ("&", ENT) if present else ("ENDIT",))
                if sn == "count":
                    return C(int(present))
                if not present and sn == "operator[]":
                    s.store[("F", ENT, "second")] = ZERO
                    self.set_now(s, True)
                return ("F", ENT, "second")
            return self.lookup(eng, st, mk)
        if sn in ("emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
            self.key_ok(eng, st, c.args[0], c.ln)
            v = self.val(eng, st, c.args[1])

            def put(s, present):
                if not present or sn == "insert_or_assign":
                    s.store[("F", ENT, "second")] = v
                    self.set_now(s, True)
                return ("unk", "emplaced")
            return self.lookup(eng, st, put)
        if sn == "erase":
            self.set_now(st, False)
            if self.ent(st) is None:
                self.note(st, "ent", True)
            return UNIT
        if sn in ("size", "empty"):
            return None
        self.bad(eng, st, "unexpected operation on the books (%s)" % sn, c.ln, "books operation")
        return None

    def on_exit(self, eng, st, kind, val):
        if self.impossible(st):
            return
        self.checked += 1
        S, cmd = self.S, self.cmd
        if kind in ("throw", "noreturn"):
            self.bad(eng, st, "%s throws or terminates" % cmd, key="%s: throw" % cmd)
            return
        rep = sorted(x[1:] for x in self.notes(st, "reply"))
        final = [x for x in rep if x[1] != "dump"]
        dumps = [x for x in rep if x[1] == "dump"]
        if len(final) != 1:
            self.bad(eng, st, "%s gets %d replies" % (cmd, len(final)), key="%s: replies" % cmd)
            return
        what, args = final[0][1], final[0][2]
        ex = next((x[1] for x in self.notes(st, "exists")), None)
        sec = eng.load(st, ("F", ENT, "second"))
        now, ent = self.now(st), self.ent(st)

        def reply(n, *a):
            a = list(a)
            if what != n or len(args) != len(a) or any(not self.zero(st, lin(x) - (y if isinstance(y, Lin) else lin(y))) for x, y in zip(args, a)):
                self.bad(eng, st, "%s is answered with %s where %s is due" % (cmd, what, n), key="%s: reply %s" % (cmd, n))

        def books_same():
            if ent is not None and (now != ent or now and sec != V):
                self.bad(eng, st, "%s changes the books of the connection although it does not succeed" % cmd, key="%s: books" % cmd)

        def nothing():
            self.unchanged(eng, st, "%s does not succeed" % cmd, cmd)
            books_same()
            if self.notes(st, "new"):
                self.bad(eng, st, "%s creates a counter" % cmd, key="%s: created" % cmd)

        def books(want):
            if ent is None:
                self.bad(eng, st, "%s succeeds, but the books of the connection are not updated" % cmd, key="%s: books" % cmd)
                return
            have = lin(sec) if now else Lin()
            if not self.zero(st, have - want):
                self.bad(eng, st, "%s does not change the books of the connection by the amount of the request" % cmd, key="%s: books amount" % cmd)
            elif now and not self.ge(st, have - Lin({}, 1)):
                self.bad(eng, st, "an entry of zero is kept in the books (its key may vanish)", key="%s: books zero" % cmd)

        ok = S["OK"]
        if self.status != ok:
            reply("error", C(self.status))
            nothing()
            if ex is not None:
                self.bad(eng, st, "an invalid request is executed", key="invalid executed")
            return
        old = lin(V) if ent else Lin()
        if cmd == "Noop":
            reply("success")
            nothing()
        elif cmd == "Stats":
            reply("stats")
            nothing()
        elif cmd == "Get":
            nothing()
            if ex:
                reply("get", CC)
            else:
                reply("error", C(S["NotFound"]))
        elif cmd == "Dump":
            nothing()
            reply("success")
            for d in dumps:
                a = d[2]
                stale = {x[1] for x in self.notes(st, "stale")}
                k = [x[1].split("::")[-1] if x[0] == "call" and x[2] == KEY else x[1][2] if x[0] == "ld" and x[1][0] == "F" and x[1][1] == KEY else None for x in (a[0], strip(a[1]))]
                if None in k or a[2] != CC or len(stale) == 1 and a[3] != (CC if True in stale else MX):
                    self.bad(eng, st, "a counter is dumped with wrong values", key="Dump: values")
                if final[0][0] < d[0]:
                    self.bad(eng, st, "the end of the dump is sent before a counter", key="Dump: order")
            if not dumps:
                self.bad(eng, st, "a counter is not dumped", key="Dump: missing")
        elif cmd == "Acquire":
            new = self.notes(st, "new")
            if ex is False:
                if len(new) != 1 or not self.zero(st, lin(new[0][1]) - lin(R)):
                    self.bad(eng, st, "Acquire of an unknown counter does not create it with the consumption requested", key="Acquire: created")
                books(old + lin(R))
                reply("acquire" if what != "get" else "get", R)
                return
            if new:
                self.bad(eng, st, "Acquire creates a counter that exists", key="Acquire: created")
            over = self.ge(st, lin(CC) + lin(R) - lin(M) - Lin({}, 1))
            fits = self.ge(st, lin(M) - lin(CC) - lin(R))
            if what == "error":
                if not over:
                    self.bad(eng, st, "Acquire is refused although the resources are available", key="Acquire: refused")
                reply("error", C(S["ResourceNotAvailable"]))
                nothing()
            else:
                if not fits:
                    self.bad(eng, st, "Acquire succeeds beyond the maximum", key="Acquire: limit")
                self.updated(eng, st, lin(CC) + lin(R), "Acquire")
                books(old + lin(R))
                reply("acquire" if what != "get" else "get", R)
        elif cmd == "Release":
            if self.notes(st, "new"):
                self.bad(eng, st, "Release creates a counter", key="Release: created")
            if not ex:
                reply("error", C(S["NotFound"]))
                nothing()
            elif what == "error":
                if not (ent is False or self.ge(st, lin(R) - lin(V) - Lin({}, 1))):
                    self.bad(eng, st, "Release is refused although the connection holds the resources", key="Release: refused")
                reply("error", C(S["NotAcquired"]))
                nothing()
            else:
                reply("success")
                if not ent:
                    if not self.zero(st, lin(R)):
                        self.bad(eng, st, "Release returns resources the connection does not hold", key="Release: not held")
                        return
                self.updated(eng, st, lin(CC) - lin(R), "Release")
                books(old - lin(R))
        else:
            reply("error", C(S["UnknownCommand"]))
            nothing()


def strip(t):
    while t[0] == "op" and t[1] in ("narrow", "conv"):
        t = t[2]
    return t


@prop("N01", "commands", floor=12)
def commands(ctx):
    m = ctx.m
    F = members(m)
    f = m.one(SOCK + "::execute")
    cmds = m.enum_map(NS + "command")
    S = m.enum_map(NS + "status")
    todo = [(n, v, S["OK"]) for n, v in cmds.items() if n not in ("Unknown", "END_OF_COMMAND")]
    todo += [("Get", cmds["Get"], s) for n, s in S.items() if n in ("Invalid", "UnknownCommand")]
    def one(ctx, item):
        n, v, s = item
        rule = Command(m, F, n, v, s)
        rule.name = "N01"
        if n == "Acquire":
            rule.assumed = [lin(R) - Lin({}, 1), lin(M) - lin(R)]
        e = Engine(m, rule)
        st = e.initial(f, auto=frozenset(), this_cls=SOCK)
        rule.seed(st)
        e.run(st)
        ctx.engine(e)
        ctx.need(rule.checked or e.viol, "no path of the command %s ends" % n)
        ctx.instance("%s (status %d): %d outcomes, %d computations within 32 bits" % (n, s, rule.checked, rule.narith), rule.checked)
    ctx.parallel(one, todo)


# --------------------------------------------------------------------------- the end of a connection
class Ending(Rule):
    """auto: frozenset of ("res", v) / ("closing",) / ("map", open|done|complete|clear)"""
    width = 600

    def __init__(self, m, F, root):
        self.m, self.F, self.root = m, F, root
        self.books = ("F", TH, F["books"])
        self.checked = self.released = 0
        self.RES = m.enum_map("cybozu::tcp_socket::recv_result")

    def opaque(self, eng, func, name):
        return func.cls in (OBJ, REQ, RESP, "cybozu::dynbuf") or func.cls == SOCK and func.sn == "execute" or \
            (func.cls or "").startswith("cybozu::") and func.cls != "cybozu::hash_map"

    def get(self, st):
        for x in st.auto:
            if x[0] == "map":
                return x[1]
        return "start"

    def put(self, st, v):
        st.auto = frozenset([x for x in st.auto if x[0] != "map"] + [("map", v)])

    def on_branch(self, eng, st, t, out, ln):
        r = progress(eng, t, out)
        if r is None or r[1] is None or r[0] != self.books:
            e = t
            if t[0] == "call" and t[1].endswith("::empty") and t[2] == self.books and out:
                self.put(st, "complete")
            return
        cur = self.get(st)
        if cur in ("complete", "clear") and r[1] == "complete":
            return
        if cur == "open":
            eng.violation(st, "resources of a closed connection are passed over", ln, key="passed over")
        self.put(st, r[1])

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        cls = c.func.cls if c.func is not None else c.cls
        if sn == "receive" and c.func is not None and c.func.cls == "cybozu::tcp_socket":
            out = []
            for k, v in sorted(self.RES.items()):
                s = st.copy()
                s.auto = frozenset(x for x in s.auto if x[0] != "res") | {("res", k)}
                out.append((s, C(v)))
            return out
        if sn in ("invalidate", "invalidate_and_close", "invalidate_and_close_"):
            st.auto = st.auto | {("closing",)}
            return UNIT
        if cls.startswith("cybozu::hash_map") and sn == "apply":
            k = c.args[0]
            v = k
            if not (isloc(k) and k[0] == "D" and k[1][0] == "ld" and k[1][1][0] == "F" and k[1][1][2] == "first"):
                eng.violation(st, "resources are released under a key that is not in the books", c.ln, key="release key")
                return None
            elem = k[1][1][1]
            st.auto = frozenset(x for x in st.auto if x[0] != "elem") | {("elem", elem)}
            return eng.invoke(st, c, c.args[1], [k, O])
        if cls == OBJ and sn == "release":
            self.released += 1
            el = [x[1] for x in st.auto if x[0] == "elem"]
            a = eng.load(st, c.args[0]) if isloc(c.args[0]) else c.args[0]
            while a[0] == "op" and a[1] in ("narrow",):
                a = a[2]
            if c.obj != O or not el or not (a[0] == "ld" and a[1] == ("F", el[0], "second")):
                eng.violation(st, "not exactly the resources the connection holds are released", c.ln, key="release amount")
            if self.get(st) == "open":
                self.put(st, "done")
            elif self.get(st) == "done":
                eng.violation(st, "resources are released twice", c.ln, key="released twice")
            return ONE
        if c.obj == self.books and sn == "clear":
            if self.get(st) not in ("complete", "clear"):
                eng.violation(st, "the books are cleared before everything was released", c.ln, key="clear early")
            self.put(st, "clear")
            return UNIT
        return None

    def on_exit(self, eng, st, kind, val):
        if kind in ("throw", "noreturn"):
            return
        self.checked += 1
        dtor = self.root == "destructor"
        ended = dtor or ("closing",) in st.auto or ("res", "RESET") in st.auto or ("res", "NONE") in st.auto
        g = self.get(st)
        if ended:
            if g == "start" or g in ("open", "done"):
                eng.violation(st, "the %s ends a connection without releasing all it holds" % self.root, key="%s: not released" % self.root)
            elif g == "complete" and not dtor:
                eng.violation(st, "the %s releases what the connection holds, but leaves it in the books: it would be released again" % self.root,
                              key="%s: not cleared" % self.root)
        elif g != "start":
            eng.violation(st, "the %s releases resources of a connection that goes on" % self.root, key="%s: released early" % self.root)


@prop("N01", "release-on-close", floor=2)
def release_on_close(ctx):
    from jobs import job_kind
    m = ctx.m
    F = members(m)
    roots = [(f, "destructor") for f in m.funcs.values() if f.cls == SOCK and f.dtor and f.blocks]
    ctx.need(roots, "the destructor of counter_socket was not found")
    for fld, k in job_kind(m, SOCK).items():
        if k == "recv":
            roots += [(m.funcs[i], "receiving job") for i in jobs(m, SOCK)[fld]]
    ctx.need(len(roots) >= 2, "the receiving job of counter_socket was not found")
    for f, what in roots:
        rule = Ending(m, F, what)
        rule.name = "N01"
        e = Engine(m, rule)
        e.run(e.initial(f, this=TH, auto=frozenset(), this_cls=SOCK))
        ctx.engine(e)
        ctx.need(rule.checked, "no path of the %s ends" % what)
        ctx.instance("%s: %d paths" % (what, rule.checked), rule.checked)


class Collect(Base):
    """the garbage collector removes deletable counters only"""
    depth = 20

    def __init__(self, m, F):
        Base.__init__(self, m, F)
        self.calls = 0

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        cls = c.func.cls if c.func is not None else c.cls
        if cls == OBJ and sn == "deletable":
            s2 = st.copy()
            self.note(st, "deletable", True)
            self.note(s2, "deletable", False)
            return [(st, ONE), (s2, ZERO)]
        if cls.startswith("cybozu::hash_map") and cls.endswith("::bucket") and not c.ctor:
            if sn == "gc":
                st.auto = frozenset(x for x in st.auto if x[0] != "deletable")
                return eng.invoke(st, c, c.args[0], [KEY, O])
            self.bad(eng, st, "the collector uses %s on a bucket" % sn, c.ln, "gc operation")
        return None

    def opaque(self, eng, func, name):
        return (func.cls or "").startswith("cybozu::")

    def on_leave(self, eng, st, func, rv):
        if func.lambda_ and func.ret == "bool" and func.in_ and "gc" in (self.m.funcs[func.in_].n if func.in_ in self.m.funcs else func.in_):
            d = [x[1] for x in self.notes(st, "deletable")]
            self.calls += 1
            if rv is None or not isconst(rv):
                self.bad(eng, st, "the predicate of the collector returns a value that is not understood", key="gc: value")
            elif rv[1] and True not in d:
                self.bad(eng, st, "a counter that is in use, or was used in this interval, is collected", key="gc: removes")
            elif not rv[1] and False not in d:
                self.bad(eng, st, "a counter that is deletable is never collected", key="gc: keeps")


@prop("N01", "collector", floor=1)
def collector(ctx):
    m = ctx.m
    F = members(m)
    f = m.one(NS + "gc_thread::run")
    rule = Collect(m, F)
    rule.name = "N01"
    e = Engine(m, rule)
    st = e.initial(f, auto=frozenset())
    rule.seed(st)
    e.run(st)
    ctx.engine(e)
    ctx.need(rule.calls, "the predicate of the collector is not reached")
    ctx.instance("%s: %d outcomes of the predicate" % (f.n, rule.calls), rule.calls)
