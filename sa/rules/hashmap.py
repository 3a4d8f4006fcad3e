"""The object hash map: every operation on a bucket, over all bucket contents of up to three items.

The list of a bucket is kept explicitly in the abstract store; keys are compared through an event whose outcome
is chosen freely (at most one item can equal the given key), user callbacks are events with free outcomes."""
from check import prop
from effects import Closure
from engine import *
from jobs import connection_classes, jobs
from model import AnalysisError, norm

MAP = "cybozu::hash_map"
KEY = ("O", "thekey")
BK = ("O", "this")
NUL = ZERO
CONTRACT = {"apply": ("key", "h", "c"), "apply_nolock": ("key", "h", "c"),
            "remove": ("key", "cb"), "remove_nolock": ("key", "cb"), "remove_if": ("key", "pred"),
            "foreach": ("visit",), "gc": ("pred",), "clear_nolock": (), "~bucket": ()}


def instances(m):
    out = []
    for r in m.records.values():
        n = r.get("n") or ""
        if n.startswith(MAP + "<") and n.endswith("::bucket"):
            out.append(n)
    return sorted(set(out))


def shape(m, bucket):
    """member names by role: head and lock of a bucket, key/object/next of an item"""
    r = m.record(bucket)
    head = [f for f in r["fields"] if f["t"].rstrip().endswith("*")]
    lock = [f for f in r["fields"] if "mutex" in f["t"]]
    if len(head) != 1 or len(lock) != 1:
        raise AnalysisError("%s: one list head and one mutex expected" % bucket)
    item = norm(head[0]["t"].rstrip("* ").strip())
    it = m.record(head[0]["t"].replace("struct ", "").rstrip("* ").strip())
    obj = bucket[len(MAP) + 1:bucket.rindex(">")]
    R = {"head": head[0]["n"], "lock": lock[0]["n"], "item": it["n"], "obj": obj}
    for f in it["fields"]:
        t = f["t"].replace("const ", "").replace("struct ", "").replace("class ", "").strip()
        if t.endswith("hash_key"):
            R["key"] = f["n"]
        elif t == obj:
            R["object"] = f["n"]
        elif t.endswith("*"):
            R["next"] = f["n"]
    for k in ("key", "object", "next"):
        if k not in R:
            raise AnalysisError("%s: no member plays the role of %s" % (it["n"], k))
    return R


class Bucket(Rule):
    width = 4000
    depth = 8
    bounded = True
    max_states = 20000
    skip_dtors = False

    def __init__(self, m, R, method, n, present):
        self.m, self.R, self.method, self.n = m, R, method, n
        self.present = dict(present)        # role -> callable given?
        self.locked = not method.endswith("_nolock") and method not in ("~bucket", "bucket")
        self.roles = CONTRACT[method]
        self.checked = 0
        self.events = 0

    def node(self, i):
        return ("O", "n%d" % i)

    def seed(self, st):
        p = ("F", BK, self.R["head"])
        for i in range(self.n):
            st.store[p] = ("&", self.node(i))
            p = ("F", self.node(i), self.R["next"])
        st.store[p] = NUL

    def bad(self, eng, st, msg, ln, key):
        if ("dead",) not in st.auto:
            eng.violation(st, "%s: %s" % (self.method, msg), ln, key="%s: %s" % (self.method, key))

    def add(self, st, *x):
        st.auto = st.auto + (x,)

    def deleted(self, st):
        return [x[1] for x in st.auto if x[0] == "del"]

    def opaque(self, eng, func, name):
        return func.cls == self.R["obj"] or (func.cls or "").startswith("cybozu::hash_key") or name.startswith("std::function")

    def guarded(self, eng, st, ln, what):
        self.events += 1
        if self.locked and not any(h[0] == ("F", BK, self.R["lock"]) for h in st.held):
            self.bad(eng, st, "%s without holding the lock of the bucket" % what, ln, "unlocked access")

    # ---- memory
    def mine(self, l):
        """is l inside the list (or its head)?"""
        r = root_of(l)
        if r == BK and l[0] == "F" and l[2] == self.R["head"]:
            return True
        return r[0] == "O" and r[1].startswith("n") and r[1][1:].isdigit() or r[0] in ("T", "H") and l[0] == "F" and l[2] in (self.R["key"], self.R["object"], self.R["next"])

    def touch(self, eng, st, l, ln, what):
        if not isloc(l) or not self.mine(l):
            return
        r = root_of(l)
        if r in self.deleted(st):
            self.bad(eng, st, "%s an item that was deleted" % what, ln, "use after delete")
        if not any(x == ("born", r) for x in st.auto):
            self.guarded(eng, st, ln, "the list is accessed")

    def on_read(self, eng, st, l, ln):
        self.touch(eng, st, l, ln, "reads")

    def on_write(self, eng, st, l, v, ln):
        self.touch(eng, st, l, ln, "writes")
        if isloc(l) and l[0] == "F" and l[2] in (self.R["key"], self.R["object"]) and self.mine(l) and root_of(l)[0] == "O":
            self.bad(eng, st, "an existing item is overwritten", ln, "overwrite")

    def on_new(self, eng, st, h, n):
        self.add(st, "born", h)

    def on_delete(self, eng, st, v, n):
        ln = n.get("ln")
        if v == NUL:
            return
        l = deref(v)
        if root_of(l) != l or l[0] == "D":
            self.bad(eng, st, "deletes something that is not an item", ln, "wild delete")
            return
        if l in self.deleted(st):
            self.bad(eng, st, "deletes an item twice", ln, "double delete")
        self.guarded(eng, st, ln, "an item is deleted")
        self.add(st, "del", l)

    # ---- events
    def val(self, eng, st, a):
        return eng.load(st, a) if isloc(a) else a

    def nodekey(self, a):
        if isloc(a) and a[0] == "F" and a[2] == self.R["key"] and a[1][0] == "O" and a[1][1][:1] == "n":
            return a[1]
        return None

    def eqs(self, st):
        return {x[1]: x[2] for x in st.auto if x[0] == "eq"}

    def set_eq(self, st, nd, out):
        e = self.eqs(st)
        if nd in e:
            if e[nd] != out:
                self.add(st, "dead")
        else:
            if out and any(e.values()):
                self.add(st, "dead")
            self.add(st, "eq", nd, out)

    def compare(self, eng, st, c, neg):
        a = [x for x in c.args] + ([c.obj] if c.obj is not None else [])
        nd = [self.nodekey(x) for x in a]
        if len(a) == 2 and None in nd and KEY in a and any(nd):
            n = nd[0] or nd[1]
            self.touch(eng, st, n, c.ln, "compares the key of")
            if n in self.deleted(st):
                self.bad(eng, st, "compares the key of a deleted item", c.ln, "use after delete")
            self.guarded(eng, st, c.ln, "a key is compared")
            e = self.eqs(st)
            if n in e:
                return C(int(e[n] != neg))
            if any(e.values()):
                self.add(st, "eq", n, False)
                return C(int(neg))
            s2 = st.copy()
            self.add(st, "eq", n, True)
            self.add(s2, "eq", n, False)
            return [(st, C(int(not neg))), (s2, C(int(neg)))]
        if len(a) == 2 and a[0] == a[1] and (nd[0] or a[0] == KEY):
            return C(int(not neg))
        self.bad(eng, st, "compares keys other than an item's with the given one", c.ln, "compare")
        return None

    def role(self, c):
        o = c.obj
        if isloc(o) and o[0] == "O" and o[1] in self.roles:
            return o[1]
        return None

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if c.name in ("cybozu::operator==", "cybozu::operator!="):
            return self.compare(eng, st, c, c.name.endswith("!="))
        if c.ctor and c.name.startswith("cybozu::hash_key"):
            l = self.target(st, c)
            eng.purge(st, l)
            st.store[l] = ("keycopy", c.args[0]) if len(c.args) == 1 else ("unk", "key")
            return l
        if c.ctor and norm(c.cls or "") == norm(self.R["obj"]):
            l = self.target(st, c)
            eng.purge(st, l)
            v = self.val(eng, st, c.args[0]) if c.args else ("unk",)
            st.store[l] = v[1] if v[0] == "R" else v
            return l
        if (c.cls or "").startswith("std::function") or c.name.startswith("std::operator") and any(
                isloc(a) and a[0] == "O" and a[1] in self.roles for a in c.args):
            r = self.role(c)
            if r is None and c.args and isloc(c.args[0]) and c.args[0][0] == "O" and c.args[0][1] in self.roles:
                r = c.args[0][1]
            if r is None:
                r = next((a[1] for a in c.args if isloc(a) and a[0] == "O" and a[1] in self.roles), None)
            if r is None:
                return None
            if sn == "operator bool":
                return C(int(self.present[r]))
            if sn in ("operator==", "operator!="):
                return C(int(self.present[r] == (sn == "operator!=")))
            if sn == "operator()":
                return self.called(eng, st, c, r)
        return None

    def target(self, st, c):
        tgt = st.top.f.ctor_target.get(c.eid)
        if tgt is None:
            return ("T", st.top.depth, st.top.f.id, c.eid)
        if tgt[0] == "var":
            return ("L", st.top.depth, (st.top.f.tu, tgt[1]), "obj")
        if tgt[0] == "fld":
            return ("F", st.top.this, tgt[1])
        return st.top.this

    def called(self, eng, st, c, r):
        self.guarded(eng, st, c.ln, "the callback is called")
        if not self.present[r]:
            self.bad(eng, st, "calls an empty function", c.ln, "empty %s" % r)
        for a in c.args:
            if isloc(a) and root_of(a) in self.deleted(st):
                self.bad(eng, st, "hands out an item that was deleted", c.ln, "deleted item handed out")
        if r == "c":
            k = c.args[0]
            ok = isloc(k) and k[0] == "F" and k[2] == self.R["key"] and (("born", k[1]) in st.auto or k[1] == st.top.this and st.top.this[0] == "T")
            if not ok:
                self.bad(eng, st, "the creator is not given the stored key (objects may keep a reference to it)", c.ln, "creator key")
            elif st.store.get(k) != ("keycopy", KEY):
                self.bad(eng, st, "the stored key is not a copy of the given key when the creator runs", c.ln, "stored key")
            self.add(st, "create")
            return ("CREATED",)
        if r == "cb":
            self.add(st, "cb", c.args[0])
            return UNIT
        k, o = c.args[0], c.args[1]
        nd = o[1] if isloc(o) and o[0] == "F" and o[2] == self.R["object"] else None
        if nd is None or nd[0] != "O":
            self.bad(eng, st, "the callback is not given an item's object", c.ln, "callback object")
            return None
        if not (self.nodekey(k) == nd or k == KEY and self.eqs(st).get(nd) is True):
            self.bad(eng, st, "the callback is given the key of another item", c.ln, "callback key")
        if r == "visit":
            self.add(st, "call", nd, None)
            return UNIT
        s2 = st.copy()
        self.add(st, "call", nd, True)
        self.add(s2, "call", nd, False)
        return [(st, ONE), (s2, ZERO)]

    def on_branch(self, eng, st, t, out, ln):
        # a quick check of the hashes or lengths: different values mean different keys
        if t[0] == "op" and t[1] == "==" and not out:
            nd = []
            any_sub(t, lambda x: nd.append(x[1]) if isinstance(x, tuple) and x[:1] == ("F",) and self.nodekey(x) else False)
            if len(set(nd)) == 1 and subterm(t, KEY) and (t[2] != t[3]):
                f = [self.acc(x) for x in t[2:]]
                if f[0] is not None and f[0] == f[1]:
                    self.set_eq(st, nd[0], False)

    def acc(self, x):
        if x[0] == "call" and x[2] is not None and not x[3] and x[1].startswith("cybozu::hash_key::") and x[1].split("::")[-1] in ("hash", "length"):
            return x[1]
        return None

    def on_lock(self, eng, st, l, mode, ln):
        if sum(1 for h in st.held if h[0] == l) > 1:
            self.bad(eng, st, "takes the lock of the bucket twice", ln, "self-deadlock")

    # ---- verdict
    def on_exit(self, eng, st, kind, val):
        if ("dead",) in st.auto:
            return
        self.checked += 1
        me = self.method.replace("_nolock", "")
        if kind == "throw" or kind == "noreturn":
            self.bad(eng, st, "ends by throwing or terminating", None, "throw")
            return
        items = [self.node(i) for i in range(self.n)]
        eq = self.eqs(st)
        hit = next((n for n in items if eq.get(n)), None)
        undecided = [n for n in items if n not in eq]
        seq, seen = [], set()
        v = eng.load(st, ("F", BK, self.R["head"]))
        while v != NUL:
            if v[0] != "&" or v[1] in seen:
                self.bad(eng, st, "the list does not end or ends nowhere", None, "broken list")
                return
            seen.add(v[1])
            seq.append(v[1])
            v = eng.load(st, ("F", v[1], self.R["next"]))
        dl = self.deleted(st)
        born = [x[1] for x in st.auto if x[0] == "born"]
        for x in dl:
            if x in seen:
                self.bad(eng, st, "an item that was deleted is still linked", None, "dangling item")
        calls = [x for x in st.auto if x[0] == "call"]
        want = set(items)
        ret = None
        if "key" in self.roles:
            if hit is None and undecided:
                self.bad(eng, st, "gives up before every item was compared with the key", None, "incomplete search")
                return
            if me == "apply":
                if hit is not None:
                    if self.present["h"]:
                        if len(calls) != 1 or calls[0][1] != hit:
                            self.bad(eng, st, "the handler is not called exactly once, with the object found", None, "handler")
                            return
                        ret = calls[0][2]
                    else:
                        ret = False
                else:
                    if calls:
                        self.bad(eng, st, "the handler is called although no object has the key", None, "handler")
                    ret = self.present["c"]
                    if self.present["c"]:
                        want |= set(born)
                        if len(born) != 1 or ("create",) not in st.auto:
                            self.bad(eng, st, "not exactly one object is created", None, "creation")
                            return
                        b = born[0]
                        if st.store.get(("F", b, self.R["key"])) != ("keycopy", KEY):
                            self.bad(eng, st, "the new item does not hold a copy of the key", None, "stored key")
                        o = eng.load(st, ("F", b, self.R["object"]))
                        if o != ("CREATED",):
                            self.bad(eng, st, "the new item does not hold the created object", None, "stored object")
                if ("create",) in st.auto and (hit is not None or not self.present["c"]):
                    self.bad(eng, st, "an object is created although one exists", None, "creation")
            elif me == "remove":
                ret = hit is not None
                want -= {hit}
                cbs = [x for x in st.auto if x[0] == "cb"]
                n = 1 if hit is not None and self.present["cb"] else 0
                if len(cbs) != n:
                    self.bad(eng, st, "the callback is called %d times instead of %d" % (len(cbs), n), None, "callback")
            elif me == "remove_if":
                ret = hit is not None
                if [x[1] for x in calls] != ([hit] if hit is not None else []):
                    self.bad(eng, st, "the predicate is not called exactly once, for the object found", None, "predicate")
                    return
                if calls and calls[0][2]:
                    want -= {hit}
            r = self.truth(val)
            if r is not ret:
                self.bad(eng, st, "returns %s where %s is due" % (r, ret), None, "result")
        elif me in ("foreach", "gc"):
            if sorted(x[1] for x in calls) != items:
                self.bad(eng, st, "does not call the function exactly once for every item", None, "visit all")
                return
            if me == "gc":
                want = {x[1] for x in calls if not x[2]}
        else:
            want = set()
        if me != "~bucket" and set(seq) != want:
            lost, extra = want - set(seq), set(seq) - want
            self.bad(eng, st, "the list has %s" % ("lost an item that should stay" if lost else "kept an item that should be gone"),
                     None, "lost item" if lost else "kept item")
        for x in (set(items) | set(born)) - set(seq):
            if x not in dl:
                self.bad(eng, st, "an item that is no longer in the list is not deleted", None, "leak")
        for x in dl:
            if x in want:
                self.bad(eng, st, "an item that should stay is deleted", None, "lost item")

    def truth(self, v):
        if v is not None and isconst(v):
            return bool(v[1])
        return v


@prop("H01", "bucket-operations", floor=60)
def bucket_ops(ctx):
    m = ctx.m
    bs = instances(m)
    ctx.need(bs, "no instantiation of the hash map found")
    for b in bs:
        R = shape(m, b)
        for name, roles in sorted(CONTRACT.items()):
            fs = [f for f in m.funcs.values() if f.cls == b and f.n.split("::")[-1] == name and f.blocks]
            if not fs:
                continue        # not instantiated: not used
            f = fs[0]
            opt = [r for r in roles if r in ("h", "c", "cb")]
            for n in range(4):
                for bits in range(1 << len(opt)):
                    present = {r: True for r in roles}
                    for k, r in enumerate(opt):
                        present[r] = bool(bits >> k & 1)
                    rule = Bucket(m, R, name, n, present.items())
                    rule.name = "H01"
                    if len(f.params) != len(roles):
                        raise AnalysisError("%s has changed its parameters" % f.n)
                    e = Engine(m, rule)
                    st = e.initial(f, this=BK, args=[KEY if r == "key" else ("O", r) for r in roles], auto=())
                    rule.seed(st)
                    e.run(st)
                    ctx.engine(e)
                    ctx.need(rule.checked or e.viol, "%s: no path of %s ends" % (b, name))
                    ctx.instance("%s::%s on %d items, %s: %d outcomes" % (R["obj"], name, n, ", ".join(
                        r + ("" if present[r] else "=null") for r in roles), rule.checked))
    used = {f.n.split("::")[-1] for f in m.funcs.values() if f.cls in bs}
    for name in ("apply", "gc", "remove_if", "foreach", "clear_nolock"):
        ctx.need(name in used, "bucket::%s is gone" % name)


# --------------------------------------------------------------------------- which bucket
class Which(Rule):
    width = 200
    depth = 8

    def __init__(self, m, cls, fields, method):
        self.m, self.cls, self.F, self.method = m, cls, fields, method
        self.exits = 0
        self.res = []

    def opaque(self, eng, func, name):
        return func.cls == self.cls + "::bucket" or (func.cls or "").startswith("cybozu::hash_key")

    def index_ok(self, st, l):
        if not isloc(l) or l[0] != "I":
            return False
        base, ix = l[1], l[2]
        if base != ("F", BK, self.F["buckets"]):
            return False
        if not (ix[0] == "op" and ix[1] == "%"):
            return False
        h, d = ix[2], ix[3]
        ok_h = h[0] == "call" and h[1] == "cybozu::hash_key::hash" and h[2] == KEY
        ok_d = d == ("ld", ("F", BK, self.F["size"]), 0) or d[0] == "call" and d[1].endswith("::size") and d[2] == ("F", BK, self.F["buckets"])
        return ok_h and ok_d

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if c.cls == "std::vector" and sn in ("operator[]", "at") and len(c.args) == 1:
            v = c.args[0]
            return ("I", c.obj, eng.load(st, v) if isloc(v) else v)
        if c.func is not None and c.func.cls == self.cls + "::bucket" or (c.cls or "").endswith("::bucket") and not c.ctor:
            st.auto = st.auto + ((sn, c.obj, tuple(c.args)),)
            return ("res", sn)
        return None

    def on_exit(self, eng, st, kind, val):
        self.exits += 1
        if kind != "ret" and kind is not None and kind in ("throw", "noreturn"):
            eng.violation(st, "%s throws" % self.method, key=self.method)
            return
        if self.method == "get_bucket":
            v = val
            if v is not None and v[0] == "&":
                v = v[1]
            if not self.index_ok(st, v):
                eng.violation(st, "the bucket of a key is not chosen by its hash modulo the number of buckets", key="bucket choice")
            return
        if len(st.auto) != 1 or st.auto[0][0] != self.method or not self.index_ok(st, st.auto[0][1]):
            eng.violation(st, "%s does not forward to the bucket of the key" % self.method, key=self.method)
            return
        if [a for a in st.auto[0][2]] != self.args:
            eng.violation(st, "%s does not pass its arguments on" % self.method, key=self.method + " arguments")
        if val != ("res", self.method):
            eng.violation(st, "%s does not return the result of the bucket" % self.method, key=self.method + " result")


class Made(Rule):
    """the constructor: the vector has as many buckets as the modulus says"""
    width = 50

    def __init__(self, F):
        self.F = F
        self.exits = 0

    def opaque(self, eng, func, name):
        return True

    def on_call(self, eng, st, c):
        if c.name == "cybozu::nearest_prime":
            return ("prime",)
        if c.ctor and c.cls == "std::vector":
            tgt = st.top.f.ctor_target.get(c.eid)
            l = ("F", st.top.this, tgt[1]) if tgt and tgt[0] == "fld" else ("T", "vec", st.top.f.id, c.eid)
            a = c.args[0] if c.args else None
            st.auto = st.auto + ((l, eng.load(st, a) if a is not None and isloc(a) else a),)
            return l
        return None

    def on_exit(self, eng, st, kind, val):
        self.exits += 1
        s = eng.load(st, ("F", BK, self.F["size"]))
        v = dict(st.auto).get(("F", BK, self.F["buckets"]))
        if v is None or v != s:
            eng.violation(st, "the number of buckets differs from the modulus used to choose one", key="bucket number")
        elif s != ("prime",):
            eng.violation(st, "the number of buckets may be zero", key="bucket number zero")


@prop("H01", "bucket-choice", floor=4)
def bucket_choice(ctx):
    m = ctx.m
    for b in instances(m):
        cls = b[:-len("::bucket")]
        r = m.record(cls)
        F = {"buckets": next(f["n"] for f in r["fields"] if "std::vector<" in f["t"])}
        sz = [f["n"] for f in r["fields"] if f["t"].replace("const ", "") in ("unsigned long", "std::size_t", "unsigned int")]
        ctx.need(len(sz) == 1, "%s: its size member was not recognised" % cls)
        F["size"] = sz[0]
        for name in ("get_bucket", "apply", "apply_nolock", "remove", "remove_nolock", "remove_if"):
            for f in m.funcs.values():
                if f.cls == cls and f.n.split("::")[-1] == name and f.blocks:
                    rule = Which(m, cls, F, name)
                    args = [KEY] + [("O", "a%d" % i) for i in range(1, len(f.params))]
                    rule.args = args
                    e = Engine(m, rule)
                    e.run(e.initial(f, this=BK, args=args, auto=()))
                    ctx.engine(e)
                    ctx.need(rule.exits, "no path of %s ends" % f.n)
                    ctx.instance("%s addresses hash(key) %% number of buckets" % f.n)
        for f in m.funcs.values():
            if f.cls == cls and f.ctor and f.blocks and len(f.params) == 1 and not f.params[0][2].endswith("&"):
                rule = Made(F)
                e = Engine(m, rule)
                e.run(e.initial(f, this=BK, auto=()))
                ctx.engine(e)
                ctx.instance("%s: as many buckets as the modulus" % f.n)


# --------------------------------------------------------------------------- keys
HK = "cybozu::hash_key"


def key_members(m):
    """members of hash_key by role, through its accessors"""
    from rules.objects import walk_members
    R = {}
    for role, acc in (("hash", "hash"), ("ptr", "data"), ("len", "length")):
        ns = [x["fn"] for x in walk_members(m.one(HK + "::" + acc))]
        if len(ns) != 1:
            raise AnalysisError("hash_key::%s does not read one member" % acc)
        R[role] = ns[0]
    v = [f["n"] for f in m.record(HK)["fields"] if "vector<char" in f["t"]]
    if len(v) != 1:
        raise AnalysisError("hash_key has no byte storage")
    R["vec"] = v[0]
    return R


class Keys(Rule):
    width = 200

    def __init__(self, m, K, what):
        self.m, self.K, self.what = m, K, what
        self.exits = 0
        self.n = 0

    def opaque(self, eng, func, name):
        return False

    def bad(self, eng, st, msg, ln, key):
        eng.violation(st, msg, ln, key=key)

    def val(self, eng, st, a):
        return eng.load(st, a) if isloc(a) else a

    def on_call(self, eng, st, c):
        sn = c.node.get("sn") or ""
        if c.name in ("cybozu::siphash24",):
            self.n += 1
            return ("sip", self.val(eng, st, c.args[0]), self.val(eng, st, c.args[1]))
        if c.name in ("memcmp", "std::memcmp", "__builtin_memcmp"):
            self.n += 1
            a = tuple(self.val(eng, st, x) for x in c.args)
            s2 = st.copy()
            st.auto = st.auto + (("cmp",) + a + (True,),)
            s2.auto = s2.auto + (("cmp",) + a + (False,),)
            return [(st, ZERO), (s2, ONE)]
        if c.ctor and c.cls == "std::vector" and st.top.f.ctor_target.get(c.eid, ("",))[0] == "fld":
            l = ("F", st.top.this, st.top.f.ctor_target[c.eid][1])
            eng.purge(st, l)
            st.auto = st.auto + (("vec",) + tuple(self.val(eng, st, x) if not isloc(x) else x for x in c.args),)
            return l
        if c.cls == "std::vector" and sn in ("data", "size") and c.obj is not None:
            return ("vec" + sn, c.obj)
        return None

    def on_branch(self, eng, st, t, out, ln):
        st.auto = st.auto + (("br", t, out),)

    def on_exit(self, eng, st, kind, val):
        self.exits += 1
        K = self.K
        f = lambda o, r: ("ld", ("F", o, K[r]), 0)
        if self.what == "equal":
            a, b = ("O", "lhs"), ("O", "rhs")
            ls = {f(a, "len"), f(b, "len")}
            ps = {f(a, "ptr"), f(b, "ptr")}
            hs = {f(a, "hash"), f(b, "hash")}
            same_len = differ = same = False
            for x in st.auto:
                if x[0] == "br" and x[1][0] == "op" and x[1][1] == "==":
                    s = set(x[1][2:])
                    if s == ls:
                        same_len, differ = same_len or x[2], differ or not x[2]
                    elif s == ps:
                        same = same or x[2]
                    elif s == hs:
                        differ = differ or not x[2]
                if x[0] == "br" and x[1][0] == "op" and x[1][1] == "<" and set(x[1][2:]) == ls and x[2]:
                    differ = True
                if x[0] == "cmp":
                    whole = {x[1], x[2]} == ps and x[3] in ls
                    if x[4] and whole:
                        same = True
                    if not x[4] and {x[1], x[2]} == ps:
                        differ = True
            if val is None or not isconst(val):
                t = val
                if t is not None and t[0] == "op" and t[1] == "==" and set(t[2:]) == ls and same:
                    return
                self.bad(eng, st, "the comparison of keys returns a value that is not understood", None, "keys: equality value")
                return
            if val[1] and not (same_len and same):
                self.bad(eng, st, "two keys count as equal without having the same length and the same bytes", None, "keys: equal")
            if not val[1] and not differ:
                self.bad(eng, st, "two keys count as different although nothing about them differs", None, "keys: different")
        elif self.what == "prefix":
            if val is None or not isconst(val):
                self.bad(eng, st, "has_prefix returns a value that is not understood", None, "keys: prefix value")
                return
            me = ("O", "this")
            ln, P, N = f(me, "len"), self.P, self.N
            long_enough = any(x == ("br", ("op", "<", ln, N), False) for x in st.auto)
            short = any(x == ("br", ("op", "<", ln, N), True) for x in st.auto)
            same = any(x[0] == "cmp" and {x[1], x[2]} == {f(me, "ptr"), P} and x[3] == N and x[4] for x in st.auto)
            diff = any(x[0] == "cmp" and {x[1], x[2]} == {f(me, "ptr"), P} and x[3] == N and not x[4] for x in st.auto)
            if val[1] and not (long_enough and same):
                self.bad(eng, st, "has_prefix holds for a key that does not begin with the prefix", None, "keys: prefix")
            if not val[1] and not (short or diff):
                self.bad(eng, st, "has_prefix fails although the key begins with the prefix", None, "keys: prefix")
        else:
            me = ("O", "this")
            p, n, h = (self.val(eng, st, ("F", me, K[r])) for r in ("ptr", "len", "hash"))
            vec = ("F", me, K["vec"])
            vs = [x for x in st.auto if x[0] == "vec"]
            if self.what == "static":
                ok = p == self.P and n == self.N
            elif self.what == "vector":
                ok = p == ("vecdata", vec) and n == ("vecsize", vec)
            else:
                o = ("O", "rhs")
                end = ("op", "+", f(o, "ptr"), f(o, "len"))
                alt = [x for x in vs if x[1:3] == (f(o, "ptr"), end)]
                ok = p == ("vecdata", vec) and n == ("vecsize", vec) and len(vs) == 1 and bool(alt)
            if not ok:
                self.bad(eng, st, "a key does not refer to exactly the given bytes once constructed", None, "keys: bytes")
            if self.what == "copy":
                if h != f(("O", "rhs"), "hash") and h != ("sip", p, n):
                    self.bad(eng, st, "the copy of a key has another hash", None, "keys: hash")
            elif h != ("sip", p, n):
                self.bad(eng, st, "the hash of a key is not computed from its bytes", None, "keys: hash")


@prop("H01", "keys", floor=4)
def keys(ctx):
    m = ctx.m
    K = key_members(m)

    def run(f, what, args=None, P=None, N=None):
        rule = Keys(m, K, what)
        rule.P, rule.N = P, N
        e = Engine(m, rule)
        # the constructors are what is examined here: nothing of them is opaque
        e.run(e.initial(f, args=args, auto=()))
        ctx.engine(e)
        ctx.need(rule.exits, "no path of %s ends" % f.n)
        ctx.instance("%s (%s): %d paths" % (f.n, what, rule.exits))
    eq = [f for f in m.funcs.values() if f.n == "cybozu::operator==" and len(f.params) == 2 and f.params[0][2].rstrip("& ").endswith("hash_key") and f.blocks]
    ctx.need(len(eq) == 1, "the comparison of keys was not found")
    run(eq[0], "equal", [("O", "lhs"), ("O", "rhs")])
    P, N = ("ptr", "p"), ("num", "len")
    run(m.one(HK + "::has_prefix"), "prefix", [P, N], P, N)
    n = 0
    for f in m.funcs.values():
        if f.cls == HK and f.ctor and f.blocks and len(f.params) >= 1:
            t = f.params[0][2]
            if len(f.params) == 2 and t.endswith("*"):
                run(f, "static", [P, N], P, N)
                n += 1
            elif len(f.params) == 1 and "vector<char" in t:
                run(f, "vector", [("O", "v")])
                n += 1
            elif len(f.params) == 1 and t.startswith("const ") and t.rstrip("& ").endswith("hash_key"):
                run(f, "copy", [("O", "rhs")])
                n += 1
    ctx.need(n >= 2, "the constructors of hash_key were not found")


# --------------------------------------------------------------------------- unlocked operations
def unlocked_from(m, start):
    """unlocked operations reachable from a function without going through a bucket's own operations"""
    todo, seen, hit = [start], {start: None}, []
    cl = Closure.of(m)
    while todo:
        x = todo.pop()
        f = m.funcs.get(x)
        if f is None:
            continue
        for y in sorted(cl.direct.get(x, ())):
            if y in seen:
                continue
            g = m.funcs.get(y)
            if g is None:
                continue
            seen[y] = x
            if (g.cls or "").startswith(MAP + "<"):
                if g.sn.endswith("_nolock"):
                    hit.append(y)
                if g.cls.endswith("::bucket"):
                    continue
            todo.append(y)
    return hit, seen


@prop("H01", "unlocked-operations", floor=4)
def unlocked(ctx):
    m = ctx.m
    roots = []
    for cls in connection_classes(m):
        for fld, ids in sorted(jobs(m, cls).items()):
            for i in sorted(ids):
                roots.append((i, "%s (%s)" % (cls, fld)))
    for f in m.funcs.values():
        if f.sn == "run" and (f.cls or "").endswith("::gc_thread"):
            roots.append((f.id, f.n))
    ctx.need(len(roots) >= 4, "the threads that share the hash map were not found")
    for i, what in roots:
        hit, seen = unlocked_from(m, i)
        ctx.instance("%s: no unlocked operation among %d reachable functions" % (what, len(seen)))
        for h in hit:
            path, x = [], h
            while x is not None:
                g = m.funcs[x]
                path.append("%s (%s)" % (g.n, g.loc))
                x = seen[x]
            path.reverse()
            ctx.report(m.funcs[h].loc, "an operation without locking (%s) is reached from %s, which runs in parallel with others" % (m.funcs[h].n.split("::")[-1], what),
                       func=m.funcs[h].n, key="%s from %s" % (m.funcs[h].n.split("::")[-1], what.split(" ")[0]), path=path)
