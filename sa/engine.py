"""Path-sensitive interprocedural typestate dataflow over the extracted program.

An element of the abstract domain ("state") is a finite record: the call stack
with the abstract values of live variables, an abstract store, correlated branch
facts (constants, intervals, excluded values, order atoms), the set of held
locks and the automaton state of one rule.  The analysis is the least fixpoint
over sets of such records (memoised at join points), with widening at loop
heads and a per-point width limit beyond which branch facts are dropped.
Calls are resolved through the type-checked program and followed
(context-sensitively) unless the rule names the callee as one of its events.
Nothing is executed and no solver is used: facts are decided by table lookup.
"""
import re
import sys

from model import AnalysisError, norm

sys.setrecursionlimit(20000)
INF = float("inf")

LOC = frozenset(("L", "G", "F", "D", "I", "T", "O", "R"))
RELEASE_KINDS = ("std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock")


def isloc(v):
    return isinstance(v, tuple) and v and v[0] in LOC


def C(n):
    return ("c", n)


ZERO, ONE, UNIT = C(0), C(1), ("void",)
ANY = ("any",)      # value of a location the rule does not track


def isconst(v):
    return isinstance(v, tuple) and v[0] == "c"


def deref(v):
    if isloc(v):
        return v
    if v[0] == "&":
        return v[1]
    return ("D", v)


def addr(l):
    if l[0] == "D":
        return l[1]
    return ("&", l)


def depth_of(t, d=0):
    if not isinstance(t, tuple):
        return d
    m = d
    for x in t:
        if isinstance(x, tuple):
            k = depth_of(x, d + 1)
            if k > m:
                m = k
            if m > 20:
                return m
    return m


def subterm(t, s):
    if t == s:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and subterm(x, s):
                return True
    return False


def any_sub(t, pred):
    if isinstance(t, tuple) and t:
        if pred(t):
            return True
        for x in t:
            if isinstance(x, tuple) and any_sub(x, pred):
                return True
    return False


def root_of(l):
    while l[0] in ("F", "I"):
        l = l[1]
    return l


def under(l, base):
    while True:
        if l == base:
            return True
        if l[0] in ("F", "I"):
            l = l[1]
        else:
            return False


def show(t):
    """readable form of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "L":
        return t[3] if len(t) > 3 else "local"
    if k == "G":
        return t[1].split("::")[-1]
    if k == "F":
        return "%s.%s" % (show(t[1]), t[2])
    if k == "O":
        return t[1]
    if k == "D":
        return "*" + show(t[1])
    if k == "I":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "&":
        return "&" + show(t[1])
    if k == "ld":
        return show(t[1])
    if k == "call":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(x) for x in ((t[2],) if t[2] else ()) + tuple(t[3])))
    if k == "op":
        return "(" + (" %s " % t[1]).join(show(x) for x in t[2:]) + ")"
    if k == "not":
        return "!" + show(t[1])
    if k == "lam":
        return "lambda"
    if k == "R":
        return show(t[1])
    if k == "T":
        return "tmp"
    if k == "s":
        return repr(t[1])
    return k


class Frame:
    __slots__ = ("f", "b", "i", "env", "this", "vals", "ret_eid", "rv", "depth", "tgt", "gl", "callnode", "after")

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.b, n.i = self.f, self.b, self.i
        n.env, n.vals = dict(self.env), dict(self.vals)
        n.this, n.ret_eid, n.rv, n.depth, n.tgt = self.this, self.ret_eid, self.rv, self.depth, self.tgt
        n.gl, n.callnode, n.after = self.gl, self.callnode, self.after
        return n


class State:
    __slots__ = ("frames", "store", "epoch", "facts", "auto", "held", "trace", "loops", "dyn")

    def copy(self):
        n = State.__new__(State)
        n.frames = [f.copy() for f in self.frames]
        n.store, n.epoch, n.facts = dict(self.store), dict(self.epoch), dict(self.facts)
        n.auto, n.held, n.trace = self.auto, self.held, self.trace
        n.loops = dict(self.loops)
        n.dyn = self.dyn
        return n

    @property
    def top(self):
        return self.frames[-1]

    def where(self, ln=None):
        f = self.top
        return "%s:%s" % (f.f.file, ln if ln else f.f.line)


class Call:
    __slots__ = ("name", "raw", "func", "obj", "args", "node", "st", "ln", "op", "cls", "pt", "virt", "eid", "candidates", "ctor")

    @property
    def where(self):
        return "%s:%s" % (self.st.top.f.file, self.ln)

    def copy(self):
        n = Call.__new__(Call)
        for s in Call.__slots__:
            if hasattr(self, s):
                setattr(n, s, getattr(self, s))
        return n


class Rule:
    """base class of typestate rules"""
    name = "rule"
    max_states = 400000
    width = 96          # distinct records per program point before facts are dropped
    depth = 24
    affine = False      # loops keep linear relations between what they change (sa/affine.py)
    on_arith = None     # optional hook: (eng, st, operator, a, b, type, line) for every arithmetic operation
    on_load = None      # optional hook: (eng, st, location) -> value or None; content the store does not hold
    on_decide = None    # optional hook: (eng, st, "<" or "==", a, b) -> True / False / None
    split_loops = False # visits of a loop head with different small constants in locals are kept apart
    bounded = False     # every loop runs over explicit data: no widening
    untracked = None    # optional predicate over locations whose values do not matter to the rule

    def opaque(self, eng, func, name):
        return False

    def on_call(self, eng, st, call):
        """None: default treatment; a value; or a list of (state, value)"""
        return None

    def on_enter(self, eng, st, func, call):
        pass

    def on_leave(self, eng, st, func, rv):
        pass

    def on_branch(self, eng, st, atom, outcome, ln):
        pass

    def on_write(self, eng, st, loc, val, ln):
        pass

    def on_read(self, eng, st, loc, ln):
        pass

    def on_lock(self, eng, st, loc, mode, ln):
        pass

    def on_unlock(self, eng, st, loc, ln):
        pass

    def on_throw(self, eng, st, tt, ln):
        pass

    def on_exit(self, eng, st, kind, val):
        pass

    def keep_fact(self, eng, st, term):
        return True


DEFAULT_OPAQUE = ("cybozu::logger::", "cybozu::siphash24", "cybozu::hash_key::hash_key", "cybozu::operator==", "cybozu::dump_stack", "cybozu::demangle",
                  "operator<<", "cybozu::severity")

PURE_NAMES = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "size", "empty", "length", "front",
              "back", "operator[]", "at", "get", "c_str", "find", "operator*", "operator->",
              "value", "message", "count", "what"}
PURE_FREE = {"std::get", "std::min", "std::max", "std::distance", "std::memcmp", "memcmp", "strcmp", "std::strcmp",
             "std::make_tuple", "std::numeric_limits::max", "htons", "htonl", "ntohs", "ntohl",
             "__errno_location", "std::strlen", "strlen", "std::begin", "std::end", "strncmp", "std::abs"}
IDENT = {"std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::as_const"}


INT_BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
            "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "bool": 1}


class Engine:
    def __init__(self, model, rule):
        self.m = model
        self.rule = rule
        self.viol = []
        self.funcs_seen = set()
        self.nstates = 0
        self.nbranch = 0
        self.ncalls = 0
        self.nexits = 0
        self.blocks_seen = set()
        self.events = 0
        self.dropped = 0
        self.opaque_seen = {}

    # ------------------------------------------------------------- reporting
    def violation(self, st, msg, ln=None, key=None):
        top = st.top
        where = "%s:%s" % (top.f.file, ln if ln else top.f.line)
        tr = []
        t = st.trace
        while t is not None and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        tr.reverse()
        stack = ["%s (%s)" % (norm(f.f.n), f.f.loc) for f in st.frames]
        self.viol.append({"where": where, "func": norm(top.f.n), "msg": msg, "path": tr, "stack": stack,
                          "key": key or (where, msg)})

    # ------------------------------------------------------------- driving
    def initial(self, func, this=None, args=None, auto=None, this_cls=None, dyn=None):
        st = State.__new__(State)
        st.frames, st.store, st.epoch, st.facts = [], {}, {}, {}
        st.auto, st.held, st.trace, st.loops = auto, (), None, {}
        st.dyn = dict(dyn or {})
        fr = Frame.__new__(Frame)
        fr.f, fr.b, fr.i = func, func.entry, 0
        fr.env, fr.vals = {}, {}
        fr.this = this if this is not None else ("O", "this")
        if this_cls or func.cls:
            st.dyn.setdefault(fr.this, this_cls or func.cls)
        fr.ret_eid, fr.rv, fr.depth, fr.tgt, fr.gl, fr.callnode, fr.after = None, UNIT, 0, None, False, None, None
        for k, (vid, n, t) in enumerate(func.params):
            a = args[k] if args and k < len(args) else None
            if a is None:
                if t.endswith("&"):
                    a = ("O", n or "arg%d" % k)
                    fr.env[vid[1]] = a
                else:
                    l = ("L", 0, vid, n)
                    fr.env[vid[1]] = l
                    if t.endswith("*"):
                        st.store[l] = ("&", ("O", n or "arg%d" % k))
                    else:
                        st.store[l] = ("ld", ("O", n or "arg%d" % k), 0)
            else:
                if isloc(a):
                    fr.env[vid[1]] = a
                else:
                    l = ("L", 0, vid, n)
                    fr.env[vid[1]] = l
                    st.store[l] = a
        st.frames.append(fr)
        return st

    def run(self, st):
        self.memo = {}
        self.width = {}
        self.work = [st]
        self.funcs_seen.add(st.top.f.id)
        while self.work:
            s = self.work.pop()
            self.nstates += 1
            if self.nstates > self.rule.max_states:
                raise AnalysisError("%s: state limit exceeded" % self.rule.name)
            self.step_block(s)

    # ------------------------------------------------------------- blocks
    def step_block(self, st):
        while True:
            fr = st.top
            b = fr.f.blocks[fr.b]
            self.blocks_seen.add((fr.f.id, fr.b))
            ins = b["i"]
            while fr.i < len(ins):
                i = ins[fr.i]
                fr.i += 1
                r = self.element(st, i)
                if r == "push":
                    # entered an inlined callee
                    nst = self.enter_block(st)
                    if nst is None:
                        return
                    st = nst
                    break
                if r == "stop":
                    return
                fr = st.top
            else:
                # end of block
                if fr.b == fr.f.exit:
                    if not self.leave(st):
                        return
                    continue
                nxt = self.terminator(st, b)
                if not nxt:
                    return
                for s in nxt[1:]:
                    e = self.enter_block(s)
                    if e is not None:
                        self.work.append(e)
                st = self.enter_block(nxt[0])
                if st is None:
                    return
            continue

    def enter_block(self, st):
        """prune, widen, memoise; None when this record was seen already"""
        fr = st.top
        f = fr.f
        b = fr.b
        if fr.i == 0:
            live = f.live[b]
            if fr.vals:
                ol = f.olive[b]
                fr.vals = {k: v for k, v in fr.vals.items() if (k in live if isinstance(k, int) else k[1] in ol)}
            reach = f.vars_reach[b]
            dead = [v for v in fr.env if v not in reach and v not in self.param_ids(f)]
            if dead:
                for v in dead:
                    l = fr.env[v]
                    if l[0] == "L" and l[1] == fr.depth:
                        if not self.captured(st, l):
                            del fr.env[v]
                            self.purge(st, l)
                    elif l[0] != "T":
                        del fr.env[v]
            self.gc_temps(st)
            if b in f.loop_heads:
                self.widen(st)
            if not (len(f.preds[b]) > 1 or b in f.loop_heads or b == f.entry):
                return st
        self.gc_facts(st)
        point = tuple((x.f.id, x.b, x.i) for x in st.frames)
        key = self.key(st, point)
        seen = self.memo.setdefault(point, set())
        if key in seen:
            return None
        if len(seen) >= self.rule.width:
            # width limit: forget branch facts the rule does not insist on
            st.facts = {k: v for k, v in st.facts.items() if self.rule_keeps(st, k)}
            self.dropped += 1
            key = self.key(st, point)
            if key in seen:
                return None
        seen.add(key)
        return st

    def gc_temps(self, st):
        d = st.top.depth
        roots = {}
        for k in st.store:
            r = root_of(k)
            if r[0] == "T" and r[1] == d:
                roots.setdefault(r, []).append(k)
        if not roots:
            return
        for h in st.held:
            roots.pop(h[2], None)
        if not roots:
            return
        refd = set()
        for k, v in st.store.items():
            r = root_of(k)
            if r in roots:
                # a temporary keeps what it refers to alive
                s2 = set()
                self.collect(v, s2)
                s2.discard(r)
                refd |= s2
            else:
                self.collect(v, refd)
        for fr in st.frames:
            for v in fr.vals.values():
                self.collect(v, refd)
            for v in fr.env.values():
                self.collect(v, refd)
            self.collect(fr.rv, refd)
            self.collect(fr.this, refd)
        for r, ks in roots.items():
            if r not in refd:
                for k in ks:
                    del st.store[k]

    def rule_keeps(self, st, term):
        k = getattr(self.rule, "essential_fact", None)
        return bool(k and k(self, st, term))

    def param_ids(self, f):
        return {v[1] for v, _, _ in f.params}

    def captured(self, st, l):
        """is this local referenced by a live lambda value / pointer?"""
        for v in st.store.values():
            if isinstance(v, tuple) and v[0] in ("lam", "&", "il", "rl", "obj") and subterm(v, l):
                return True
        for fr in st.frames:
            for v in fr.vals.values():
                if subterm(v, l):
                    return True
            for v in fr.env.values():
                if v is not l and v != l and under(v, l):
                    return True
                if v == l and fr is not st.top:
                    return True
        return False

    def gc_facts(self, st):
        if not st.facts:
            return
        self._refd = None
        out = {}
        for k, v in st.facts.items():
            if not self.rule.keep_fact(self, st, k):
                continue
            if self.fact_alive(st, k) or k in self.referenced(st):
                out[k] = v
        st.facts = out

    def referenced(self, st):
        """terms still held by a variable, temporary or the automaton"""
        if self._refd is None:
            refd = set()
            for x in st.store.values():
                self.collect(x, refd)
            for fr in st.frames:
                for x in fr.vals.values():
                    self.collect(x, refd)
                for x in fr.env.values():
                    self.collect(x, refd)
                self.collect(fr.rv, refd)
            if isinstance(st.auto, tuple):
                self.collect(st.auto, refd)
            self._refd = refd
        return self._refd

    def collect(self, t, out):
        if isinstance(t, tuple):
            out.add(t)
            for x in t:
                if isinstance(x, tuple):
                    self.collect(x, out)

    def fact_alive(self, st, t):
        """a fact over a load whose location still has that epoch stays meaningful"""
        k = t[0]
        if k == "ld":
            r = root_of(t[1])
            if r[0] == "L":
                return False
            if r[0] == "D" or r[0] == "R":
                if not self.fact_alive(st, r[1]) if isinstance(r[1], tuple) else False:
                    return False
            if t[1] in st.store:
                return st.store[t[1]] == t
            return t[2] == self.epoch_of(st, t[1])
        if k == "op":
            return all(self.fact_alive(st, x) for x in t[2:] if isinstance(x, tuple))
        if k in ("c", "s", "fn", "sym"):
            return True
        if k in ("unk", "W"):
            return t in self.referenced(st)
        if k == "call":
            # pure call on a live location
            if t[4] is not None and isinstance(t[4], tuple) and t[4] and t[4][0] == "site":
                return t in self.referenced(st)
            ok = True
            if t[2]:
                ok = t[2][0] != "L" and self.epoch_of(st, t[2]) == t[4]
            return ok and all(self.fact_alive(st, x) for x in t[3] if isinstance(x, tuple) and x and not isloc(x))
        if k in ("min", "max"):
            return all(self.fact_alive(st, x) for x in t[1:])
        if k == "&":
            return root_of(t[1])[0] in ("O", "G")
        if isloc(t):
            return root_of(t)[0] in ("O", "G")
        return False

    def key(self, st, point):
        fs = tuple((tuple(sorted(((k, v) for k, v in fr.env.items()), key=lambda x: x[0])),
                    frozenset(fr.vals.items()), fr.this, fr.rv) for fr in st.frames)
        return (fs, frozenset(st.store.items()), frozenset(st.facts.items()), frozenset(st.epoch.items()),
                st.auto, st.held)

    def loop_body(self, f, h):
        """blocks of the natural loop with head h"""
        memo = f.__dict__.setdefault("_bodies", {}) if hasattr(f, "__dict__") else self.__dict__.setdefault("_bodies", {}).setdefault(f.id, {})
        if h in memo:
            return memo[h]
        # p -> h is a back edge when every path from the entry to p passes h
        seen, work = {f.entry}, [f.entry] if f.entry != h else []
        while work:
            for s in f.blocks[work.pop()]["s"]:
                if s is not None and s != h and s not in seen:
                    seen.add(s)
                    work.append(s)
        body, work = {h}, [p for p in f.preds[h] if p not in seen or f.entry == h]
        while work:
            p = work.pop()
            if p not in body:
                body.add(p)
                work += list(f.preds[p])
        memo[h] = body
        return body

    def leaves_loop(self, st):
        """the condition in the loop's head is known to be false now: nothing to generalise"""
        fr = st.top
        b = fr.f.blocks[fr.b]
        t = b.get("t")
        if not t or "c" not in t or len(b["s"]) != 2 or any(i["k"] in ("call", "ctor", "new", "delete", "asg", "decl") for i in b["i"]):
            return False
        c = st.copy()
        for i in b["i"]:
            c.top.i += 1
            if self.element(c, i) in ("push", "stop"):
                return False
        d = self.decide(c, self.value(c, t["c"]))
        if d is None:
            return False
        s = b["s"][0 if d else 1]
        return s is not None and s not in self.loop_body(fr.f, fr.b)

    def widen(self, st):
        fr = st.top
        if self.rule.affine and self.leaves_loop(st):
            return
        hk = (len(st.frames), fr.f.id, fr.b)
        if self.rule.split_loops:
            # counters over explicit data distinguish the visits
            hk = hk + tuple(sorted(((l[2:], v[1]) for l, v in st.store.items()
                                    if l[0] == "L" and l[1] == fr.depth and isconst(v) and 0 <= v[1] <= 8), key=repr))
        cnt, snap = st.loops.get(hk, (0, None))
        cnt += 1
        if self.rule.bounded:
            return
        if self.rule.affine:
            from affine import affine_widen
            if snap is None:
                st.loops[hk] = (1, dict(st.store))
            else:
                affine_widen(self, st, hk, snap)
            return
        if snap is not None and cnt > 2:
            for l, v in list(st.store.items()):
                if l[0] in LOC and snap.get(l) != v:
                    isb = isconst(v) and v[1] in (0, 1) and isconst(snap.get(l) or ()) if snap.get(l) else False
                    if cnt <= 6 and isb:
                        continue
                    if v[0] in ("lam",):
                        continue
                    if cnt > 2:
                        w = ("unk", fr.f.id, fr.b, l)
                        base = self.prov(v)
                        if base is not None:
                            w = ("iter", base, ("w", fr.f.id, fr.b, l))
                        st.store[l] = w
                        self.drop_mention(st, w)
        st.loops[hk] = (min(cnt, 8), dict(st.store))

    # ------------------------------------------------------------- memory
    def epoch_of(self, st, l):
        e = None
        x = l
        while True:
            if x in st.epoch:
                return st.epoch[x]
            if x[0] in ("F", "I"):
                x = x[1]
                continue
            break
        return st.epoch.get("*" if x[0] not in ("L", "T") else None, 0)

    def load(self, st, l):
        if self.rule.untracked is not None and self.rule.untracked(l):
            return ANY
        v = st.store.get(l)
        if v is not None and v[0] != "cpy":
            return v
        if self.rule.on_load is not None:
            v = self.rule.on_load(self, st, l)
            if v is not None:
                return v
        # copies of whole objects
        x, tail = l, []
        while True:
            v = st.store.get(x)
            if v is not None and v[0] == "cpy":
                src = v[1]
                for t in reversed(tail):
                    src = (t[0], src) + t[1:]
                return self.load(st, src)
            if v is not None and v[0] in ("il", "rl") and tail:
                e = self.init_elem(v, list(reversed(tail)))
                if e is not None:
                    return e
            if x[0] in ("F", "I"):
                tail.append((x[0],) + x[2:])
                x = x[1]
                continue
            break
        if l[0] == "R" :
            return l[1]
        v = self.const_table(st, l)
        if v is not None:
            return v
        return ("ld", l, self.epoch_of(st, l))

    def const_table(self, st, l):
        """element of a constant table with an initialiser"""
        x, tail = l, []
        while True:
            if x[0] == "D" and x[1][0] == "&":
                x = x[1][1]
                tail.append(("I", ZERO))
            elif x[0] == "D" and x[1][0] == "op" and x[1][1] == "+" and x[1][2][0] == "&" and isconst(x[1][3]):
                tail.append(("I", x[1][3]))
                x = x[1][2][1]
            elif x[0] in ("F", "I"):
                tail.append((x[0],) + x[2:])
                x = x[1]
            else:
                break
        if x[0] != "G" or not tail:
            return None
        memo = self.m.__dict__.setdefault("_tables", {})
        if x[1] not in memo:
            gs = [g for g in self.m.globals.values() if g["n"] == x[1] and "init" in g]
            v = None
            if len(gs) == 1 and gs[0]["t"].startswith("const ") and gs[0]["t"].endswith("]") and gs[0]["init"].get("k") == "il":
                v = self.table_value(gs[0]["init"])
            memo[x[1]] = v
        v = memo[x[1]]
        if v is None:
            return None
        path = []
        for t in reversed(tail):
            if path and path[-1][0] == "I" and t[0] == "I" and isconst(path[-1][1]) and isconst(t[1]):
                path[-1] = ("I", C(path[-1][1][1] + t[1][1]))
            else:
                path.append(t)
        if path[0][0] == "F":
            path.insert(0, ("I", ZERO))
        return self.init_elem(v, path)

    def table_value(self, n):
        """value of a constant initialiser, or None"""
        if "cv" in n:
            return C(int(n["cv"]))
        k = n.get("k")
        if k == "str":
            return ("s", n["v"])
        if k == "cast":
            return self.table_value(n["e"])
        if k == "il":
            vs = [self.table_value(a) for a in n["a"]]
            if any(v is None for v in vs):
                return None
            return (("rl", n["t"]) if n.get("rec") else ("il",)) + tuple(vs)
        return None

    @staticmethod
    def elem_addr(t):
        """(array, index) of the address of an element of a named array"""
        k = 0
        while t[0] == "op" and t[1] == "+" and isconst(t[3]):
            k, t = k + t[3][1], t[2]
        if t[0] != "&":
            return None, None
        l = t[1]
        if l[0] == "I" and isconst(l[2]):
            return l[1], k + l[2][1]
        return l, k

    def init_elem(self, v, path):
        """element of an initialiser list"""
        while path:
            if v[0] == "il" and path[0][0] == "I" and isconst(path[0][1]):
                k = path[0][1][1]
                v = v[1 + k] if 0 <= k < len(v) - 1 else ZERO
            elif v[0] == "rl" and path[0][0] == "F":
                fs = self.fields_of(v[1])
                if path[0][1] not in fs:
                    return None
                k = fs.index(path[0][1])
                v = v[2 + k] if k < len(v) - 2 else ZERO
            else:
                return None
            path = path[1:]
            if not isinstance(v, tuple) or isloc(v):
                return None if path else v
        return v

    def fields_of(self, rec):
        if not hasattr(self.m, "_fields"):
            self.m._fields = {}
            for r in self.m.records.values():
                fs = [f["n"] for f in r.get("fields", [])]
                self.m._fields.setdefault(r["n"], fs)
                self.m._fields.setdefault(r.get("qn"), fs)
        rec = re.sub(r"^((const|struct|class) )+", "", norm(rec or ""))
        return self.m._fields.get(rec) or self.m._fields.get(rec.replace("const ", ""), [])

    def purge(self, st, base):
        for k in [k for k in st.store if under(k, base)]:
            del st.store[k]
        for k in [k for k in st.epoch if isinstance(k, tuple) and under(k, base)]:
            del st.epoch[k]

    def assign(self, st, l, v, ln=None, quiet=False):
        if not quiet:
            self.rule.on_write(self, st, l, v, ln)
        if self.rule.untracked is not None and self.rule.untracked(l):
            return
        for k in [k for k in st.store if k != l and under(k, l)]:
            del st.store[k]
        if l[0] == "I":
            for k in [k for k in st.store if k != l and k[0] == "I" and k[1] == l[1] and
                      not (isconst(k[2]) and isconst(l[2]))]:
                del st.store[k]
        if isloc(v):
            v = ("cpy", v)
        if depth_of(v) > 17:
            v = ("unk", "deep", l)
            self.drop_mention(st, v)
        st.store[l] = v

    def drop_mention(self, st, t):
        for k in [k for k in st.facts if subterm(k, t)]:
            del st.facts[k]

    def havoc(self, st, l, site):
        if not isloc(l):
            return
        for k in [k for k in st.store if under(k, l)]:
            if st.store[k][0] == "lam":
                continue
            del st.store[k]
        for k in [k for k in st.epoch if isinstance(k, tuple) and k != l and under(k, l)]:
            del st.epoch[k]
        # same site executed again: facts about that generation are stale
        for k in [k for k in st.facts if any_sub(k, lambda t: (t[0] == "ld" and len(t) == 3 and under(t[1], l)) or
                                                 (t[0] == "call" and len(t) == 5 and t[2] and isloc(t[2]) and under(t[2], l)))]:
            del st.facts[k]
        st.epoch[l] = site

    # ------------------------------------------------------------- terms
    def op(self, o, a, b):
        if isloc(a):
            a = ("&", a)
        if isloc(b):
            b = ("&", b)
        if a == ANY or b == ANY:
            return ANY
        if isconst(a) and isconst(b):
            x, y = a[1], b[1]
            try:
                if o == "+": return C(x + y)
                if o == "-": return C(x - y)
                if o == "*": return C(x * y)
                if o == "/" and y: return C(int(x / y) if x * y < 0 else x // y)
                if o == "%" and y: return C(x % y)
                if o == "<<" and 0 <= y < 64: return C(x << y)
                if o == ">>" and 0 <= y < 64: return C(x >> y)
                if o == "&": return C(x & y)
                if o == "|": return C(x | y)
                if o == "^": return C(x ^ y)
                if o == "==": return C(int(x == y))
                if o == "!=": return C(int(x != y))
                if o == "<": return C(int(x < y))
                if o == ">": return C(int(x > y))
                if o == "<=": return C(int(x <= y))
                if o == ">=": return C(int(x >= y))
            except (OverflowError, ValueError):
                pass
        if o == "!=":
            return self.neg(self.op("==", a, b))
        if o == ">":
            return self.op("<", b, a)
        if o == ">=":
            return self.neg(self.op("<", a, b))
        if o == "<=":
            return self.neg(self.op("<", b, a))
        if o == "==":
            if a == b and a[0] not in ("unk", "iter"):
                return ONE
            if isconst(a) or (not isconst(b) and repr(a) > repr(b)):
                a, b = b, a
            # comparison of a boolean with 0/1
            if b == ZERO and a[0] in ("not",) or (b == ZERO and a[0] == "op" and a[1] in ("==", "<")):
                return self.neg(a)
            if b == ONE and (a[0] == "not" or (a[0] == "op" and a[1] in ("==", "<"))):
                return a
            # two distinct named objects
            if a[0] == "&" and b[0] == "&" and a != b and root_of(a[1]) == root_of(b[1]):
                return ZERO
            if a[0] == "&" and b == ZERO:
                return ZERO
            # two elements of one array
            (x, i), (y, j) = self.elem_addr(a), self.elem_addr(b)
            if x is not None and x == y:
                return C(int(i == j))
            return ("op", "==", a, b)
        if o == "<" and a == b:
            return ZERO
        if o == "+" and b == ZERO:
            return a
        if o == "+" and a == ZERO:
            return b
        if o == "-" and b == ZERO:
            return a
        if o in ("+", "*", "&", "|", "^") and isconst(a):
            a, b = b, a
        if o == "+" and isconst(b) and a[0] == "op" and a[1] == "+" and isconst(a[3]):
            return self.op("+", a[2], C(a[3][1] + b[1]))
        t = ("op", o, a, b)
        return t

    def neg(self, v):
        if isconst(v):
            return C(int(v[1] == 0))
        if v == ANY:
            return ANY
        if v[0] == "not":
            return v[1]
        return ("not", v)

    # ------------------------------------------------------------- facts
    def dom(self, st, t):
        if isconst(t):
            return (t[1], t[1], frozenset())
        f = st.facts.get(t)
        if f is not None:
            return f
        if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("size", "length"):
            return (0, INF, frozenset())
        return (-INF, INF, frozenset())

    def decide(self, st, t):
        if isconst(t):
            return t[1] != 0
        if isloc(t):
            return True
        k = t[0]
        if k == "not":
            d = self.decide(st, t[1])
            return None if d is None else not d
        if k in ("&", "lam", "fn", "s"):
            return True
        if k == "op" and t[1] in ("==", "<"):
            a, b = t[2], t[3]
            f = st.facts.get(t)
            if f in (True, False):
                return f
            la, ha, ea = self.dom(st, a) if not isinstance(st.facts.get(a), bool) else (-INF, INF, frozenset())
            lb, hb, eb = self.dom(st, b) if not isinstance(st.facts.get(b), bool) else (-INF, INF, frozenset())
            if t[1] == "==":
                if ha < lb or hb < la:
                    return False
                if la == ha == lb == hb:
                    return True
                if lb == hb and lb in ea or la == ha and la in eb:
                    return False
                if st.facts.get(("op", "<", a, b)) is True or st.facts.get(("op", "<", b, a)) is True:
                    return False
            else:
                if ha < lb:
                    return True
                if la >= hb:
                    return False
                if st.facts.get(("op", "<", b, a)) is True:
                    return False
                x, y = (a, b) if not (isconst(a) or (not isconst(b) and repr(a) > repr(b))) else (b, a)
                if st.facts.get(("op", "==", x, y)) is True:
                    return False
            if self.rule.on_decide is not None:
                return self.rule.on_decide(self, st, t[1], a, b)
            return None
        f = st.facts.get(t)
        if isinstance(f, bool):
            return f
        if f is not None:
            lo, hi, ex = f
            if lo == hi == 0:
                return False
            if lo > 0 or hi < 0 or 0 in ex:
                return True
        return None

    def assume(self, st, t, out, ln=None):
        """refine; False when contradictory"""
        d = self.decide(st, t)
        if d is not None and d != out:
            return False
        if t == ANY:
            return True
        k = t[0]
        if k == "not":
            return self.assume(st, t[1], not out, ln)
        if d is None:
            if k == "op" and t[1] in ("==", "<"):
                a, b = t[2], t[3]
                if t[1] == "==" and (isconst(b) or isconst(a)):
                    x, c = (a, b[1]) if isconst(b) else (b, a[1])
                    lo, hi, ex = self.dom(st, x) if not isinstance(st.facts.get(x), bool) else (-INF, INF, frozenset())
                    if out:
                        st.facts[x] = (c, c, frozenset())
                    else:
                        ex = ex | {c}
                        while lo in ex:
                            lo += 1
                        while hi in ex:
                            hi -= 1
                        st.facts[x] = (lo, hi, ex)
                elif t[1] == "<" and (isconst(a) or isconst(b)):
                    if isconst(b):
                        x, c = a, b[1]
                        lo, hi, ex = self.dom(st, x) if not isinstance(st.facts.get(x), bool) else (-INF, INF, frozenset())
                        st.facts[x] = (lo, min(hi, c - 1), ex) if out else (max(lo, c), hi, ex)
                    else:
                        x, c = b, a[1]
                        lo, hi, ex = self.dom(st, x) if not isinstance(st.facts.get(x), bool) else (-INF, INF, frozenset())
                        st.facts[x] = (max(lo, c + 1), hi, ex) if out else (lo, min(hi, c), ex)
                else:
                    st.facts[t] = out
            else:
                lo, hi, ex = self.dom(st, t)
                if out:
                    if lo == 0:
                        lo = 1
                    st.facts[t] = (lo, hi, ex | {0})
                else:
                    st.facts[t] = (0, 0, frozenset())
        if not isconst(t):
            self.rule.on_branch(self, st, t, out, ln)
        return True

    # ------------------------------------------------------------- terminators
    def terminator(self, st, b):
        fr = st.top
        t = b.get("t")
        succ = b["s"]
        if b.get("noret") and not t:
            # noreturn call: handled at the call itself
            pass
        if t is None or t["k"] in ("GotoStmt", "BreakStmt", "ContinueStmt"):
            # normal edge first; further edges are exceptional and are followed
            # only when something on this path actually throws
            n = [s for s in succ if s is not None]
            if not n:
                return []
            self.go(st, n[0])
            return [st]
        if t["k"] == "SwitchStmt":
            return self.switch(st, b, t)
        if t["k"] == "CXXTryStmt":
            n = [s for s in succ if s is not None]
            if not n:
                return []
            self.go(st, n[0])
            return [st]
        if "c" not in t:
            n = [s for s in succ if s is not None]
            outs = []
            for s in n[1:]:
                c = st.copy()
                self.go(c, s)
                outs.append(c)
            if n:
                self.go(st, n[0])
                outs.insert(0, st)
            return outs
        v = self.value(st, t["c"])
        ceid = t["c"].get("r") if isinstance(t["c"], dict) else None
        ln = t.get("ln")
        d = self.decide(st, v)
        outs = []
        self.nbranch += 1
        for out, s in ((True, succ[0]), (False, succ[1])):
            if s is None:
                continue
            if d is not None and d != out:
                continue
            c = st if d is not None else st.copy()
            if not self.assume(c, v, out, ln):
                continue
            cf = c.top
            # remember the outcome for value contexts of && || ?:
            if ceid is not None:
                cf.vals[("o", ceid)] = out
                for le, rr in cf.f.log_rr.get(ceid, ()):
                    node = cf.f.elems[le]
                    if (node["op"] == "&&") != out and rr is not None:
                        cf.vals.pop(rr, None)
            if d is None:
                c.trace = (c.trace, "%s:%s: %s is %s" % (cf.f.file, ln, show(v), "true" if out else "false"))
            self.go(c, s)
            outs.append(c)
        return outs

    def switch(self, st, b, t):
        fr = st.top
        v = self.value(st, t["c"])
        outs = []
        consts = []
        default = None
        for s in b["s"]:
            if s is None:
                continue
            sb = fr.f.blocks[s]
            if "case" in sb:
                lo = int(sb["case"])
                hi = int(sb.get("case2", lo))
                consts.append((lo, hi, s))
            else:
                default = s
        for lo, hi, s in consts:
            c = st.copy()
            ok = True
            if lo == hi:
                ok = self.assume(c, self.op("==", v, C(lo)), True, t.get("ln"))
            else:
                ok = self.assume(c, self.op("<", v, C(lo)), False) and self.assume(c, self.op("<", C(hi), v), False)
            if ok:
                c.trace = (c.trace, "%s:%s: switch %s = %s" % (fr.f.file, t.get("ln"), show(v), lo))
                self.go(c, s)
                outs.append(c)
        if default is not None:
            c = st.copy()
            ok = True
            for lo, hi, s in consts:
                if lo == hi:
                    ok = ok and self.assume(c, self.op("==", v, C(lo)), False, t.get("ln"))
            if ok:
                c.trace = (c.trace, "%s:%s: switch %s = other" % (fr.f.file, t.get("ln"), show(v)))
                self.go(c, default)
                outs.append(c)
        self.nbranch += 1
        return outs

    def go(self, st, block):
        fr = st.top
        if self.rule.affine and block in fr.f.loop_heads and fr.b not in self.loop_body(fr.f, block):
            # the loop is entered anew
            for k in [k for k in st.loops if k[:3] == (len(st.frames), fr.f.id, block)]:
                del st.loops[k]
        fr.b, fr.i = block, 0

    # ------------------------------------------------------------- frames
    def leave(self, st, kind="ret"):
        fr = st.top
        rv = fr.rv
        if len(st.frames) == 1:
            self.nexits += 1
            self.rule.on_exit(self, st, "return", rv)
            return False
        # a value returned by location must survive the frame
        if isloc(rv) and not fr.gl:
            r = root_of(rv)
            if r[0] in ("L", "T") and r[1] == fr.depth and fr.tgt is None:
                nl = ("T", fr.depth - 1, "ret", fr.ret_eid)
                self.copy_tree(st, rv, nl)
                rv = nl
        if fr.tgt is not None:
            if isloc(rv) and rv != fr.tgt and not fr.f.ctor:
                self.copy_tree(st, rv, fr.tgt)
            rv = fr.tgt
        self.rule.on_leave(self, st, fr.f, rv)
        self.drop_frame(st)
        top = st.top
        if fr.ret_eid is not None:
            top.vals[fr.ret_eid] = rv
        if fr.after is not None:
            return self.after_call(st, fr.after)
        return True

    def after_call(self, st, after):
        """std::for_each: the element was handled; whether more follow is unknown"""
        kind, base, c_eid, it, end, lam = after
        return self.assume(st, self.op("==", ("iter", base, ("site", "after", c_eid)), end), True)

    def drop_frame(self, st):
        fr = st.frames.pop()
        d = fr.depth
        keep = set()
        for k in list(st.store):
            r = root_of(k)
            if r[0] in ("L", "T") and isinstance(r[1], int) and r[1] >= d:
                del st.store[k]
        for k in list(st.epoch):
            if isinstance(k, tuple):
                r = root_of(k)
                if r[0] in ("L", "T") and isinstance(r[1], int) and r[1] >= d:
                    del st.epoch[k]
        for k in [k for k in st.loops if k[0] > len(st.frames)]:
            del st.loops[k]

    def copy_tree(self, st, src, dst):
        self.purge(st, dst)
        found = False
        for k in list(st.store):
            if under(k, src):
                tail = []
                x = k
                while x != src:
                    tail.append((x[0],) + x[2:])
                    x = x[1]
                y = dst
                for t in reversed(tail):
                    y = (t[0], y) + t[1:]
                st.store[y] = st.store[k]
                found = True
        if src in st.dyn:
            st.dyn = dict(st.dyn)
            st.dyn[dst] = st.dyn[src]
        if not found and root_of(src)[0] not in ("L", "T"):
            st.store[dst] = ("cpy", src)
        elif not found and src[0] == "R":
            st.store[dst] = ("cpy", src)

    def push(self, st, func, this, args, eid, tgt=None, gl=False, env=None, node=None, call=None):
        fr = Frame.__new__(Frame)
        fr.f, fr.b, fr.i = func, func.entry, 0
        fr.env, fr.vals = dict(env or {}), {}
        fr.this = this
        fr.ret_eid, fr.rv, fr.depth, fr.tgt, fr.gl = eid, UNIT, st.top.depth + 1, tgt, gl
        fr.callnode, fr.after = node, None
        for k, (vid, n, t) in enumerate(func.params):
            a = args[k] if k < len(args) else ("unk", func.id, k)
            if t.endswith("&"):
                if not isloc(a):
                    l = ("L", fr.depth, vid, n)
                    fr.env[vid[1]] = l
                    st.store[l] = a
                else:
                    fr.env[vid[1]] = a
            elif isloc(a):
                l = ("L", fr.depth, vid, n)
                fr.env[vid[1]] = l
                self.copy_tree(st, a, l)
            else:
                l = ("L", fr.depth, vid, n)
                fr.env[vid[1]] = l
                self.purge(st, l)
                st.store[l] = a
        st.frames.append(fr)
        self.funcs_seen.add(func.id)
        self.rule.on_enter(self, st, func, call)
        return fr

    # ------------------------------------------------------------- exceptions
    def throw(self, st, tt, ln, eid):
        """unwind from the current element; states continue at handlers"""
        self.rule.on_throw(self, st, tt, ln)
        cur = eid
        st.trace = (st.trace, "%s:%s: throws %s" % (st.top.f.file, ln, tt))
        while True:
            fr = st.top
            tb = fr.f.try_of.get(cur)
            done_try = set()
            while tb is not None and tb not in done_try:
                done_try.add(tb)
                b = fr.f.blocks[tb]
                for s in b["s"]:
                    if s is None:
                        continue
                    cb = fr.f.blocks[s]
                    if "catch" not in cb:
                        continue
                    m = self.catches(cb["catch"], tt)
                    if m is False:
                        continue
                    c = st if m is True else st.copy()
                    self.unwind_guards(c, tb)
                    cf = c.top
                    if "catchvar" in cb:
                        cf.env[cb["catchvar"]] = ("O", "exc")
                    c.trace = (c.trace, "%s: caught by %s" % (cf.f.file, cb["catch"]))
                    self.go(c, s)
                    e = self.enter_block(c)
                    if e is not None:
                        self.work.append(e)
                    if m is True:
                        return
                # an enclosing try
                outer = None
                inner = [t for t in fr.f.trys if t["b"] == tb]
                if inner:
                    size = len(inner[0].get("in", []))
                    cands = [t for t in fr.f.trys if cur in t.get("in", []) and len(t["in"]) > size]
                    if cands:
                        outer = min(cands, key=lambda t: len(t["in"]))["b"]
                tb = outer
            # leave the frame
            self.unwind_guards(st, None)
            if len(st.frames) == 1:
                self.nexits += 1
                self.rule.on_exit(self, st, "throw", ("thrown", tt))
                return
            cur = fr.ret_eid
            if fr.f.nothrow and not fr.f.lambda_:
                self.rule.on_exit(self, st, "terminate", ("thrown", tt))
                return
            self.drop_frame(st)

    def catches(self, ct, tt):
        if ct == "...":
            return True
        c = ct.replace("const ", "").replace("&", "").strip()
        t = (tt or "?").replace("const ", "").replace("&", "").strip()
        if c == t:
            return True
        bases = self.m.bases(t)
        if c in bases:
            return True
        std = {"std::logic_error": ["std::exception"], "std::runtime_error": ["std::exception"],
               "std::system_error": ["std::runtime_error", "std::exception"],
               "std::out_of_range": ["std::logic_error", "std::exception"],
               "std::invalid_argument": ["std::logic_error", "std::exception"],
               "std::bad_alloc": ["std::exception"]}
        todo, seen = [t] + list(bases), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == c:
                return True
            todo += std.get(x, [])
        if t == "?":
            return None
        return False

    def unwind_guards(self, st, tb):
        fr = st.top
        keep = []
        for h in st.held:
            g = h[2]
            drop = False
            if g is not None and isinstance(g, tuple):
                r = root_of(g)
                if r[0] in ("L", "T") and r[1] == fr.depth:
                    if tb is None:
                        drop = True
                    else:
                        # declared inside the try body?
                        did = h[3]
                        drop = did is not None and self.in_try(fr.f, did, tb)
            if drop:
                self.rule.on_unlock(self, st, h[0], None)
            else:
                keep.append(h)
        st.held = tuple(keep)

    def in_try(self, f, eid, tb):
        for t in f.trys:
            if t["b"] == tb:
                return eid in t.get("in", [])
        return False

    # ------------------------------------------------------------- values
    def value(self, st, ref):
        """value of an operand"""
        if ref is None:
            return UNIT
        if "r" in ref and len(ref) == 1:
            fr = st.top
            e = fr.f.elems.get(ref["r"])
            if e is not None and "cv" in e and e["k"] != "asg":
                return C(int(e["cv"]))
            v = fr.vals.get(ref["r"])
            if v is None:
                # e.g. a discarded element or one evaluated on another path
                v = ("unk", fr.f.id, ref["r"])
            return v
        return self.eval(st, ref, None)

    def rvalue(self, st, ref):
        """value; a class-typed location stays a location"""
        return self.value(st, ref)

    def var(self, st, node):
        fr = st.top
        sc = node.get("sc")
        if sc in ("global", "static"):
            return ("G", node["qn"])
        if sc == "binding":
            if node["id"] in fr.env:
                return fr.env[node["id"]]
            b = node.get("bind")
            return self.value(st, b) if b else ("unk", fr.f.id, node["id"])
        l = fr.env.get(node["id"])
        if l is None:
            l = ("L", fr.depth, (fr.f.tu, node["id"]), node["n"])
            if node.get("cap"):
                # capture whose creation was not seen (analysis root)
                l = ("O", "cap:" + node["n"])
            fr.env[node["id"]] = l
        return l

    # returns: None ok; 'push' when a callee frame was entered; 'stop'
    def element(self, st, i):
        k = i["k"]
        fr = st.top
        eid = i.get("e#")
        if k == "call" or k == "ctor":
            return self.do_call(st, i, eid)
        if k == "decl":
            return self.do_decl(st, i)
        if k == "ret":
            if "e" in i:
                v = self.value(st, i["e"])
                if fr.gl is False and fr.f.ret.endswith("&") and not isloc(v):
                    v = deref(v)
                fr.rv = v
            else:
                fr.rv = UNIT
            return None
        if k == "throw":
            self.throw(st, i.get("tt", "?"), i.get("ln"), eid)
            return "stop"
        if k == "dtor":
            return self.do_dtor(st, i)
        if k == "minit":
            return self.do_minit(st, i)
        if k in ("mdtor", "bdtor", "stmt"):
            if k == "bdtor":
                return self.enter_dtor(st, i.get("f"), fr.this)
            return None
        if k == "delete":
            return self.do_delete(st, i)
        v = self.eval(st, i, eid)
        if v == "throwstop":
            return "stop"
        if eid is not None:
            fr.vals[eid] = v
        return None

    def do_decl(self, st, i):
        fr = st.top
        vid = i["id"]
        if i.get("static"):
            return None
        l = ("L", fr.depth, (fr.f.tu, vid), i["n"])
        if "init" not in i:
            fr.env[vid] = l
            self.purge(st, l)
            return None
        v = self.value(st, i["init"])
        if i.get("isref"):
            if isloc(v):
                fr.env[vid] = v
            else:
                # reference bound to a temporary value
                fr.env[vid] = l
                self.purge(st, l)
                st.store[l] = v
            return None
        fr.env[vid] = l
        if isloc(v):
            if v == l:
                return None
            # class-typed value or array
            self.copy_tree(st, v, l)
            if v in st.dyn:
                st.dyn = dict(st.dyn)
                st.dyn[l] = st.dyn[v]
            # move a lock guard
            st.held = tuple((h[0], h[1], l if h[2] == v else h[2], h[3]) for h in st.held)
            return None
        self.purge(st, l)
        self.assign(st, l, v, i.get("ln"), quiet=True)
        return None

    def do_minit(self, st, i):
        fr = st.top
        if "fn" not in i:
            return None
        l = ("F", fr.this, i["fn"])
        v = self.value(st, i.get("e"))
        if i.get("isref"):
            st.store[l] = ("&", v) if isloc(v) else v
            return None
        if isloc(v):
            if v != l:
                self.copy_tree(st, v, l)
            return None
        if v == UNIT:
            return None
        self.assign(st, l, v, i.get("ln"))
        return None

    def do_dtor(self, st, i):
        fr = st.top
        l = fr.env.get(i["id"])
        if l is None:
            return None
        cls = norm(i.get("cls", "") or "")
        if cls in RELEASE_KINDS:
            self.release_guard(st, l, i.get("ln"))
            return None
        r = self.rule_dtor(st, i, l, cls)
        if r is not None:
            return r
        return self.enter_dtor(st, i.get("f"), l)

    def rule_dtor(self, st, i, l, cls):
        h = getattr(self.rule, "on_dtor", None)
        if h:
            h(self, st, l, cls, i.get("ln"))
        return None

    def enter_dtor(self, st, fid, l):
        f = self.m.funcs.get(fid)
        if f is None or f.nocfg or not f.blocks:
            return None
        if not self.can_inline(st, f, norm(f.n)):
            return None
        if getattr(self.rule, "skip_dtors", True):
            return None
        self.push(st, f, l, [], None)
        return "push"

    def do_delete(self, st, i):
        fr = st.top
        v = self.value(st, i["e"])
        h = getattr(self.rule, "on_delete", None)
        if h:
            h(self, st, v, i)
        f = self.m.funcs.get(i.get("f"))
        if f is not None and not getattr(self.rule, "skip_dtors", True) and self.can_inline(st, f, norm(f.n)):
            self.push(st, f, deref(v), [], None)
            return "push"
        return None

    def release_guard(self, st, l, ln):
        keep = []
        for h in st.held:
            if h[2] == l:
                self.rule.on_unlock(self, st, h[0], ln)
            else:
                keep.append(h)
        st.held = tuple(keep)

    def eval(self, st, n, eid):
        k = n["k"]
        fr = st.top
        if "cv" in n and k not in ("asg",) and not (k == "u" and n["op"] in ("++", "--")):
            return C(int(n["cv"]))
        if k == "v":
            return self.var(st, n)
        if k == "ld":
            l = self.value(st, n["e"])
            if not isloc(l):
                return l
            self.rule.on_read(self, st, l, n.get("ln"))
            return self.load(st, l)
        if k == "m":
            b = self.value(st, n["b"])
            base = deref(b) if n.get("arrow") or not isloc(b) else b
            if not isloc(base):
                base = ("D", base)
            l = ("F", base, n["fn"])
            if n.get("isref"):
                v = self.load(st, l)
                return deref(v)
            return l
        if k == "this":
            return addr(fr.this)
        if k == "c":
            return C(0) if "cv" not in n else C(int(n["cv"]))
        if k == "null":
            return ZERO
        if k == "str":
            return ("s", n["v"])
        if k == "flt":
            return ("flt", n["v"])
        if k == "ec":
            return C(int(n.get("cv", "0")))
        if k == "fn":
            return ("fn", n.get("f"), n.get("n"))
        if k == "mfn":
            return ("fn", n.get("f"), n.get("n"))
        if k == "cast":
            v = self.value(st, n["e"])
            ck = n.get("ck")
            if ck == "NullToPointer":
                return ZERO
            if ck == "ArrayToPointerDecay":
                return ("&", v) if isloc(v) else v
            if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
                if isconst(v):
                    return C(int(v[1] != 0))
                return v
            if ck == "IntegralCast" and isconst(v):
                return v
            if ck in ("IntegralCast",):
                return self.int_cast(st, v, n)
            if ck in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
                return ("op", "conv", v)
            if ck == "ToVoid":
                return UNIT
            return v
        if k == "u":
            return self.unary(st, n, eid)
        if k == "b":
            a, b = self.value(st, n["l"]), self.value(st, n["rr"])
            if self.rule.on_arith is not None:
                self.rule.on_arith(self, st, n["op"], a, b, n.get("t", ""), n.get("ln"))
            return self.op(n["op"], a, b)
        if k == "asg":
            return self.assignment(st, n)
        if k == "log":
            return self.logical(st, n, eid)
        if k == "cond":
            return self.conditional(st, n, eid)
        if k == "comma":
            return self.value(st, n["rr"])
        if k == "ix":
            b = self.value(st, n["b"])
            ix = self.value(st, n["i"])
            base = b if isloc(b) else deref(b)
            return ("I", base, ix)
        if k == "lam":
            caps = []
            for c in n["caps"]:
                if c.get("this"):
                    caps.append(("this", fr.this))
                elif "id" in c:
                    l = fr.env.get(c["id"])
                    if l is None:
                        l = self.var(st, {"id": c["id"], "n": c["n"], "sc": "local", "cap": bool(fr.f.lambda_)})
                    if c.get("byref"):
                        caps.append((c["id"], l))
                    else:
                        v = st.store.get(l)
                        if v is not None and v[0] != "cpy":
                            caps.append((c["id"], ("v", v)))
                        elif v is not None:
                            caps.append((c["id"], ("v", v[1])))
                        else:
                            lv = self.load(st, l)
                            caps.append((c["id"], ("v", lv if not (lv[0] == "ld" and self.has_tree(st, l)) else l)))
            return ("lam", n["f"], tuple(caps))
        if k == "il":
            vals = tuple(self.value(st, x) for x in n["a"])
            if len(vals) == 1 and not n.get("rec") and not n["t"].endswith("]"):
                return vals[0]
            if n.get("rec"):
                return ("rl", n.get("t")) + vals
            return ("il",) + vals
        if k == "new":
            init = n.get("init")
            if init is not None:
                v = self.value(st, init)
                if isloc(v):
                    h = ("T", "heap", fr.f.id, eid)
                    self.copy_tree(st, v, h)
                    if v in st.dyn:
                        st.dyn = dict(st.dyn)
                        st.dyn[h] = st.dyn[v]
                    self.on_new(st, h, n)
                    return ("&", h)
            h = ("T", "heap", fr.f.id, eid)
            self.on_new(st, h, n)
            return ("&", h)
        if k == "delete":
            return UNIT
        if k in ("call", "ctor"):
            # a call that is not a CFG element (default argument): opaque
            c = self.mk_call(st, n, eid)
            return self.opaque_result(st, c)
        if k == "unk":
            return ("unk", fr.f.id, eid or n.get("ln"))
        return ("unk", fr.f.id, eid or n.get("ln"))

    def on_new(self, st, h, n):
        f = getattr(self.rule, "on_new", None)
        if f:
            f(self, st, h, n)

    def int_cast(self, st, v, n):
        f = getattr(self.rule, "on_int_cast", None)
        if f:
            r = f(self, st, v, n)
            if r is not None:
                return r
        e = n["e"]
        while isinstance(e, dict) and "r" in e and len(e) == 1:
            e = st.top.f.elems.get(e["r"], {})
        a, b = INT_BITS.get(e.get("t", "").replace("const ", "")), INT_BITS.get(n.get("t", "").replace("const ", ""))
        if a and b and b < a and not isconst(v):
            if v[0] == "op" and v[1] == "narrow" and v[3][1] <= b:
                return v
            return ("op", "narrow", v, C(b))
        return v

    def has_tree(self, st, l):
        return any(k != l and under(k, l) for k in st.store)

    def unary(self, st, n, eid):
        o = n["op"]
        v = self.value(st, n["e"])
        if o == "!":
            return self.neg(v)
        if o == "*":
            return deref(v)
        if o == "&":
            return addr(v) if isloc(v) else v
        if o in ("++", "--"):
            if not isloc(v):
                return v
            self.rule.on_read(self, st, v, n.get("ln"))
            old = self.load(st, v)
            new = self.op("+", old, C(1 if o == "++" else -1))
            if depth_of(new) > 10:
                new = ("unk", st.top.f.id, eid)
                self.drop_mention(st, new)
            self.assign(st, v, new, n.get("ln"))
            return old if n.get("post") else v
        if o == "-":
            return C(-v[1]) if isconst(v) else ("op", "neg", v)
        if o == "~":
            return ("op", "~", v)
        return v

    def assignment(self, st, n):
        l = self.value(st, n["l"])
        r = self.value(st, n["rr"])
        o = n["op"]
        if o != "=":
            old = self.load(st, l) if isloc(l) else l
            self.rule.on_read(self, st, l, n.get("ln"))
            if self.rule.on_arith is not None:
                self.rule.on_arith(self, st, o[:-1], old, r, n.get("t", ""), n.get("ln"))
            r = self.op(o[:-1], old, r)
            if depth_of(r) > 14:
                r = ("unk", st.top.f.id, n.get("ln"), "asg")
                self.drop_mention(st, r)
        if isloc(l):
            self.assign(st, l, r, n.get("ln"))
        return l

    def logical(self, st, n, eid):
        fr = st.top
        l, r = n["l"], n["rr"]
        le = l.get("r") if isinstance(l, dict) else None
        out = fr.vals.pop(("o", le), None)
        rr = r.get("r") if isinstance(r, dict) else None
        if out is not None:
            if n["op"] == "&&" and not out:
                return ZERO
            if n["op"] == "||" and out:
                return ONE
            return self.value(st, r)
        if rr is not None and rr in fr.vals:
            return fr.vals.pop(rr)
        lv = self.value(st, l)
        d = self.decide(st, lv)
        if d is False and n["op"] == "&&":
            return ZERO
        if d is True and n["op"] == "||":
            return ONE
        if d is not None:
            return self.value(st, r)
        return C(0) if n["op"] == "&&" else C(1)

    def conditional(self, st, n, eid):
        fr = st.top
        cands = []
        ce = n["c"].get("r") if isinstance(n["c"], dict) else None
        l = n["l"].get("r") if isinstance(n["l"], dict) else None
        r = n["rr"].get("r") if isinstance(n["rr"], dict) else None
        lin = l is not None and (l in fr.vals)
        rin = r is not None and (r in fr.vals)
        out = fr.vals.pop(("o", ce), None)
        if lin and not rin:
            return fr.vals.pop(l)
        if rin and not lin:
            return fr.vals.pop(r)
        if out is not None:
            return self.value(st, n["l"] if out else n["rr"])
        return ("unk", fr.f.id, eid)

    # ------------------------------------------------------------- calls
    def mk_call(self, st, n, eid):
        c = Call.__new__(Call)
        fr = st.top
        c.node, c.st, c.eid = n, st, eid
        c.ctor = n["k"] == "ctor"
        c.raw = n.get("n") or ""
        c.name = norm(c.raw)
        c.cls = norm(n.get("cls") or "")
        c.ln = n.get("ln")
        c.op = n.get("op")
        c.pt = n.get("pt") or []
        c.virt = n.get("virt", False)
        c.func = self.m.funcs.get(n.get("f")) if n.get("f") else None
        c.candidates = None
        obj = None
        if "obj" in n and n["obj"] is not None:
            obj = self.value(st, n["obj"])
            if n.get("arrow") and not (isloc(obj)):
                obj = deref(obj)
            elif not isloc(obj) and obj[0] in ("&",):
                obj = deref(obj)
        c.obj = obj
        c.args = [self.value(st, a) for a in n.get("a", [])]
        return c

    def dyn_class(self, st, l):
        if l in st.dyn:
            return st.dyn[l]
        return None

    def can_inline(self, st, f, name):
        if f is None or f.nocfg or not f.blocks:
            return False
        if len(st.frames) >= self.rule.depth:
            return False
        for p in DEFAULT_OPAQUE:
            if name.startswith(p) or name.endswith(p):
                return False
        if self.rule.opaque(self, f, name):
            return False
        n = sum(1 for x in st.frames if x.f.id == f.id)
        return n == 0 or (f.lambda_ and n < 2)

    def do_call(self, st, i, eid):
        fr = st.top
        c = self.mk_call(st, i, eid)
        self.ncalls += 1
        # --- the rule first
        r = self.rule.on_call(self, st, c)
        if r == "push":
            return "push"
        if r is not None:
            return self.finish(st, r, eid, i)
        # --- built-in models
        r = self.builtin(st, c)
        if r is not None:
            if r == "push":
                return "push"
            return self.finish(st, r, eid, i)
        if i.get("noret") or c.name in ("exit", "abort", "_exit", "std::exit", "std::abort", "std::quick_exit",
                                        "quick_exit", "std::terminate"):
            if c.name.endswith("throw_unix_error"):
                self.throw(st, "std::system_error", c.ln, eid)
                return "stop"
            self.nexits += 1
            self.rule.on_exit(self, st, "noreturn", ("call", c.name))
            return "stop"
        if c.name.endswith("throw_unix_error"):
            self.throw(st, "std::system_error", c.ln, eid)
            return "stop"
        # --- follow
        if c.ctor:
            return self.do_ctor(st, c, i, eid)
        if i.get("lamcall") or c.cls == "(lambda)":
            v = self.lam_value(st, c.obj)
            if v is not None:
                return self.call_lambda(st, v, c, eid)
        targets = []
        if c.func is not None:
            targets = [c.func]
            if c.virt:
                targets = self.virtual_targets(st, c)
        elif c.virt:
            targets = self.virtual_targets(st, c)
        targets = [t for t in targets if self.can_inline(st, t, norm(t.n))]
        if c.virt and not targets and c.func is None:
            return self.finish(st, self.opaque_result(st, c), eid, i)
        if not targets:
            return self.finish(st, self.opaque_result(st, c), eid, i)
        for t in targets[1:]:
            s2 = st.copy()
            c2 = self.mk_call(s2, i, eid)
            self.push(s2, t, c2.obj if c2.obj is not None else ("O", "static"), c2.args, eid, node=i, call=c2,
                      gl=bool(i.get("gl")))
            e = self.enter_block(s2)
            if e is not None:
                self.work.append(e)
        t = targets[0]
        tgt = None
        self.push(st, t, c.obj if c.obj is not None else ("O", "static"), c.args, eid, tgt=tgt, node=i, call=c,
                  gl=bool(i.get("gl")))
        return "push"

    def virtual_targets(self, st, c):
        cls = self.dyn_class(st, c.obj) if c.obj is not None else None
        fid = c.node.get("f")
        cands = ([c.func] if c.func is not None else []) + list(self.m.overriders.get(fid, []))
        if cls is not None:
            order = [cls] + self.m.bases(cls)
            for k in order:
                for f in cands:
                    if f.cls == k:
                        return [f]
        return cands

    def finish(self, st, r, eid, i):
        """r: value or list of (state, value)"""
        if isinstance(r, list):
            for s, v in r[1:]:
                if v == "throwstop":
                    continue
                if eid is not None:
                    s.top.vals[eid] = v
                self.work.append(s)
            if not r:
                return "stop"
            s, v = r[0]
            if s is not st:
                # continue with all through the worklist
                if v != "throwstop":
                    if eid is not None:
                        s.top.vals[eid] = v
                    self.work.append(s)
                return "stop"
            if v == "throwstop":
                return "stop"
            if eid is not None:
                st.top.vals[eid] = v
            return None
        if r == "stop":
            return "stop"
        if eid is not None:
            st.top.vals[eid] = r
        return None

    def call_lambda(self, st, lam, c, eid):
        f = self.m.funcs.get(lam[1])
        if f is None or not self.can_inline(st, f, norm(f.n)):
            return self.finish(st, self.opaque_result(st, c), eid, c.node)
        env = {}
        this = ("O", "this")
        d = st.top.depth + 1
        for k, v in lam[2]:
            if k == "this":
                this = v
            elif isinstance(v, tuple) and v[0] == "v":
                l = ("L", d, (f.tu, k), "cap")
                self.purge(st, l)
                if isloc(v[1]):
                    self.copy_tree(st, v[1], l)
                else:
                    st.store[l] = v[1]
                env[k] = l
            else:
                env[k] = v
        self.push(st, f, this, c.args, eid, env=env, node=c.node, call=c)
        return "push"

    def invoke(self, st, c, fv, args):
        """run the function value fv with the given arguments in place of call c (from Rule.on_call)"""
        lam = self.lam_value(st, fv)
        if lam is None:
            return None
        d = c.copy()
        d.args = list(args)
        return self.call_lambda(st, lam, d, c.eid)

    def lam_value(self, st, v):
        if v is None:
            return None
        n = 0
        while isloc(v) and n < 8:
            n += 1
            x = st.store.get(v)
            if x is None:
                y = self.load(st, v)
                if y[0] == "lam":
                    return y
                return None
            if x[0] == "cpy":
                v = x[1]
                continue
            v = x
        if isinstance(v, tuple) and v[0] == "lam":
            return v
        return None

    def do_ctor(self, st, c, i, eid):
        fr = st.top
        tgt = fr.f.ctor_target.get(eid)
        if tgt is None:
            l = ("T", fr.depth, fr.f.id, eid)
        elif tgt[0] == "var":
            node = [x for x in fr.f.blocks[fr.b]["i"]]
            nm = None
            l = ("L", fr.depth, (fr.f.tu, tgt[1]), self.var_name(fr.f, tgt[1]))
        elif tgt[0] == "fld":
            l = ("F", fr.this, tgt[1])
        else:
            l = fr.this
        cls = i.get("cls", "")
        ncls = norm(cls)
        if tgt is None or tgt[0] != "base":
            if i.get("copy") and c.args and c.args[0] == l:
                pass
            else:
                self.purge(st, l)
            if cls and cls != "(lambda)":
                st.dyn = dict(st.dyn)
                st.dyn[l] = cls
        # copies / moves
        if i.get("copy") and len(c.args) == 1:
            a = c.args[0]
            if cls == "(lambda)" or (isinstance(a, tuple) and a[0] == "lam"):
                v = self.lam_value(st, a)
                return self.finish(st, v if v is not None else a, eid, i)
            if c.func is None or c.func.defaulted or i.get("elide") or not self.can_inline(st, c.func, c.name):
                if isloc(a):
                    if a != l:
                        self.copy_tree(st, a, l)
                        if a in st.dyn:
                            st.dyn[l] = st.dyn[a]
                        st.held = tuple((h[0], h[1], l if h[2] == a else h[2], h[3]) for h in st.held)
                    return self.finish(st, l, eid, i)
                return self.finish(st, a, eid, i)
        if c.func is not None and self.can_inline(st, c.func, c.name):
            self.push(st, c.func, l, c.args, eid, tgt=l, node=i, call=c)
            return "push"
        self.opaque_effects(st, c)
        return self.finish(st, l, eid, i)

    def var_name(self, f, vid):
        for x in f.instrs():
            if x["k"] == "decl" and x["id"] == vid:
                return x["n"]
        return "v%d" % vid

    # ------------------------------------------------------------- models
    def builtin(self, st, c):
        n, node = c.name, c.node
        a = c.args
        sn = node.get("sn") or n.split("::")[-1]
        # --- std::function
        if c.cls == "std::function":
            if c.ctor:
                fr = st.top
                tgt = fr.f.ctor_target.get(c.eid)
                if tgt is None:
                    l = ("T", fr.depth, fr.f.id, c.eid)
                elif tgt[0] == "var":
                    l = ("L", fr.depth, (fr.f.tu, tgt[1]), self.var_name(fr.f, tgt[1]))
                elif tgt[0] == "fld":
                    l = ("F", fr.this, tgt[1])
                else:
                    l = fr.this
                self.purge(st, l)
                if a:
                    v = a[0]
                    lam = self.lam_value(st, v)
                    if lam is not None:
                        st.store[l] = lam
                    elif isconst(v):
                        st.store[l] = ZERO
                    elif isloc(v):
                        st.store[l] = st.store.get(v, ("cpy", v))
                    else:
                        st.store[l] = v
                else:
                    st.store[l] = ZERO
                return l
            if sn == "operator=":
                v = a[0] if a else ZERO
                lam = self.lam_value(st, v)
                if lam is not None:
                    self.assign(st, c.obj, lam, c.ln)
                elif isloc(v):
                    x = st.store.get(v)
                    self.assign(st, c.obj, x if x is not None else v, c.ln)
                else:
                    self.assign(st, c.obj, v, c.ln)
                return c.obj
            if sn == "operator bool":
                v = self.load(st, c.obj) if isloc(c.obj) else c.obj
                lam = self.lam_value(st, c.obj)
                if lam is not None:
                    return ONE
                return v
            if sn == "operator()":
                lam = self.lam_value(st, c.obj)
                if lam is not None:
                    r = self.call_lambda(st, lam, c, c.eid)
                    return r if r in ("push", "stop") else st.top.vals.get(c.eid, UNIT)
                return None
        if n in ("std::operator==", "std::operator!=") and len(a) == 2 and \
                any("std::function" in p for p in c.pt):
            v = self.lam_value(st, a[0]) or (self.load(st, a[0]) if isloc(a[0]) else a[0])
            t = self.op("==", v, ZERO) if v[0] != "lam" else ZERO
            return self.neg(t) if n.endswith("!=") else t
        if n == "std::for_each" and len(a) >= 3:
            first, last = self.iter_val(st, a[0]), self.iter_val(st, a[1])
            base, lam = self.prov(first), self.lam_value(st, a[2])
            if lam is None and isinstance(a[2], tuple) and a[2][0] == "lam":
                lam = a[2]
            if base is not None and lam is not None and lam[1] in self.m.funcs:
                s2 = st.copy()
                t = self.op("==", first, last)
                if self.assume(s2, t, True):
                    if c.eid is not None:
                        s2.top.vals[c.eid] = a[2]
                    e = self.enter_block(s2)
                    if e is not None:
                        self.work.append(e)
                if not self.assume(st, t, False):
                    return "stop"
                c.args = [("D", first)]
                r = self.call_lambda(st, lam, c, c.eid)
                if r == "push":
                    st.top.after = ("each", base, c.eid, first, last, lam)
                return r if r in ("push", "stop") else st.top.vals.get(c.eid, UNIT)
        # --- identity helpers
        if n in IDENT and a:
            return a[0]
        if n == "std::swap" and len(a) == 2 and isloc(a[0]) and isloc(a[1]):
            x, y = self.load(st, a[0]), self.load(st, a[1])
            self.assign(st, a[0], y, c.ln)
            self.assign(st, a[1], x, c.ln)
            return UNIT
        # --- tuples
        if n == "std::tie":
            return ("tie",) + tuple(a)
        if n == "std::get" and a and c.func is None:
            raw = c.raw
            idx = self.template_index(node)
            l = a[0]
            if isloc(l):
                x = ("F", l, "get%s" % idx)
                return x
            return ("call", "std::get%s" % idx, None, (l,), 0)
        if sn == "operator=" and isinstance(c.obj, tuple) and c.obj and c.obj[0] == "tie":
            src = a[0]
            for k, l in enumerate(c.obj[1:]):
                if isloc(l):
                    s = ("F", src, "get%d" % k) if isloc(src) else ("call", "std::get%d" % k, None, (src,), 0)
                    v = self.load(st, s) if isloc(s) else s
                    if l[0] == "G":
                        continue
                    self.assign(st, l, v, c.ln)
            return c.obj
        # --- smart pointers
        if c.cls in ("std::unique_ptr", "std::shared_ptr"):
            if c.ctor:
                fr = st.top
                tgt = fr.f.ctor_target.get(c.eid)
                l = ("T", fr.depth, fr.f.id, c.eid)
                if tgt is not None:
                    if tgt[0] == "var":
                        l = ("L", fr.depth, (fr.f.tu, tgt[1]), self.var_name(fr.f, tgt[1]))
                    elif tgt[0] == "fld":
                        l = ("F", fr.this, tgt[1])
                self.purge(st, l)
                if a and isloc(a[0]) and a[0][0] != "T":
                    # move construction
                    src = ("F", a[0], "ptr")
                    st.store[("F", l, "ptr")] = self.load(st, src)
                    self.assign(st, src, ZERO, c.ln, quiet=True)
                elif a and isloc(a[0]):
                    st.store[("F", l, "ptr")] = self.load(st, ("F", a[0], "ptr"))
                elif a:
                    st.store[("F", l, "ptr")] = a[0]
                else:
                    st.store[("F", l, "ptr")] = ZERO
                return l
            if isloc(c.obj):
                pl = ("F", c.obj, "ptr")
                if sn in ("get", "operator->", "operator*", "operator bool"):
                    self.rule.on_read(self, st, pl, c.ln)
                    v = self.load(st, pl)
                    return deref(v) if sn == "operator*" else v
                if sn == "reset":
                    self.assign(st, pl, a[0] if a else ZERO, c.ln)
                    return UNIT
                if sn == "release":
                    v = self.load(st, pl)
                    self.assign(st, pl, ZERO, c.ln)
                    return v
                if sn == "operator=":
                    if a and isloc(a[0]):
                        src = ("F", a[0], "ptr")
                        self.assign(st, pl, self.load(st, src), c.ln)
                        self.assign(st, src, ZERO, c.ln, quiet=True)
                    else:
                        self.assign(st, pl, a[0] if a else ZERO, c.ln)
                    return c.obj
        # --- atomics
        if c.cls in ("std::atomic", "std::__atomic_base", "std::atomic_bool") or c.cls.startswith("std::atomic"):
            return self.atomic(st, c, sn)
        # --- locks
        r = self.locks(st, c, sn)
        if r is not None:
            return r
        # --- iterators carry the container they walk
        r = self.iterators(st, c, sn)
        if r is not None:
            return r
        # --- containers: empty() is size() == 0
        if sn == "empty" and c.func is None and c.cls.startswith("std::") and isloc(c.obj):
            t = ("call", n[:-5] + "size", c.obj, (), self.epoch_of(st, c.obj))
            return self.op("==", t, ZERO)
        # capacity is not content
        if sn in ("shrink_to_fit", "reserve") and c.func is None and c.cls in ("std::vector", "std::string", "std::basic_string", "std::unordered_map"):
            return UNIT
        return None

    def prov(self, v):
        """the container location an iterator value walks over"""
        if not isinstance(v, tuple) or not v:
            return None
        if v[0] == "iter":
            return v[1]
        if v[0] == "R":
            return self.prov(v[1])
        if v[0] == "call":
            if v[1].rsplit("::", 1)[-1] in ("begin", "end", "cbegin", "cend", "erase", "insert", "find", "lower_bound", "rbegin", "rend"):
                if v[2] is not None:
                    return v[2]
                if v[3] and isloc(v[3][0]):
                    return v[3][0]
            if v[1] in ("std::remove", "std::remove_if", "std::next", "std::prev", "std::find", "std::find_if", "std::find_if_not") and v[3]:
                a = v[3][0]
                return self.prov(a[1] if a[0] == "R" else a)
        if v[0] == "op" and v[1] in ("+", "-"):
            return self.prov(v[2])
        return None

    def iter_val(self, st, a):
        v = self.load(st, a) if isloc(a) else a
        return v[1] if v[0] == "R" else v

    def iterators(self, st, c, sn):
        if c.func is not None:
            return None
        if "iterator" in c.cls and isloc(c.obj):
            if sn in ("operator++", "operator--"):
                old = self.iter_val(st, c.obj)
                base = self.prov(old)
                if base is None:
                    return None
                h = getattr(self.rule, "on_iter", None)
                if h:
                    h(self, st, base, c)
                v = ("iter", base, ("site", st.top.f.id, c.eid))
                self.drop_mention(st, v)
                self.assign(st, c.obj, v, c.ln, quiet=True)
                if c.args:
                    return ("R", old)
                return c.obj
            if sn in ("operator*", "operator->"):
                v = self.iter_val(st, c.obj)
                return ("D", v) if sn == "operator*" else v
            if sn == "operator=" and c.args:
                self.assign(st, c.obj, self.iter_val(st, c.args[0]), c.ln)
                return c.obj
            if sn in ("operator+=", "operator-="):
                base = self.prov(self.iter_val(st, c.obj))
                if base is not None:
                    h = getattr(self.rule, "on_iter", None)
                    if h:
                        h(self, st, base, c)
                    v = ("iter", base, ("site", st.top.f.id, c.eid))
                    self.drop_mention(st, v)
                    self.assign(st, c.obj, v, c.ln, quiet=True)
                    return c.obj
            if sn in ("operator+", "operator-") and c.args:
                return ("R", self.op(sn[-1], self.iter_val(st, c.obj), self.iter_val(st, c.args[0])))
        if sn in ("operator==", "operator!=") and len(c.args) == 2 and any("iterator" in p for p in c.pt):
            a, b = self.iter_val(st, c.args[0]), self.iter_val(st, c.args[1])
            t = self.op("==", a, b)
            return self.neg(t) if sn == "operator!=" else t
        if c.ctor and "iterator" in c.cls and len(c.args) == 1:
            v = self.iter_val(st, c.args[0])
            if self.prov(v) is not None:
                return ("R", v)
        return None

    def template_index(self, node):
        return node.get("ti", "?")

    def atomic(self, st, c, sn):
        l = c.obj
        if c.ctor:
            return None
        if not isloc(l):
            return None
        site = ("site", c.st.top.f.id, c.eid, c.st.top.depth)
        if sn in ("load",) or sn.startswith("operator ") or sn.startswith("operator std") :
            self.rule.on_read(self, st, l, c.ln)
            if l in st.store and root_of(l)[0] in ("L", "T"):
                return self.load(st, l)
            t = ("call", "atomic.load", l, (), site)
            self.drop_mention(st, t)
            return t
        if sn in ("store", "operator="):
            self.assign_atomic(st, l, c.args[0] if c.args else UNIT, c.ln)
            return c.args[0] if sn == "operator=" and c.args else UNIT
        if sn in ("exchange", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "operator++", "operator--",
                  "operator+=", "operator-=", "test_and_set", "clear"):
            self.rule.on_write(self, st, l, ("op", sn, c.args[0] if c.args else ONE), c.ln)
            t = ("call", "atomic." + sn, l, tuple(x for x in c.args[:1]), site)
            self.drop_mention(st, t)
            return t
        if sn.startswith("compare_exchange"):
            t = ("call", "atomic.cas", l, tuple(c.args[1:2]), site)
            self.drop_mention(st, t)
            self.rule.on_write(self, st, l, ("op", "cas", c.args[1] if len(c.args) > 1 else UNIT), c.ln)
            return t
        return None

    def assign_atomic(self, st, l, v, ln):
        self.rule.on_write(self, st, l, v, ln)

    def locks(self, st, c, sn):
        if c.ctor and c.cls in RELEASE_KINDS:
            fr = st.top
            tgt = fr.f.ctor_target.get(c.eid)
            g = ("T", fr.depth, fr.f.id, c.eid)
            if tgt is not None:
                if tgt[0] == "var":
                    g = ("L", fr.depth, (fr.f.tu, tgt[1]), self.var_name(fr.f, tgt[1]))
                elif tgt[0] == "fld":
                    g = ("F", fr.this, tgt[1])
            if c.node.get("copy"):
                return None
            self.purge(st, g)
            if not c.args:
                return g
            mu = c.args[0]
            tag = " ".join(c.pt[1:])
            st.store[("F", g, "mutex")] = ("&", mu) if isloc(mu) else mu
            mode = "r" if c.cls == "std::shared_lock" else "w"
            if "try_to_lock" in tag:
                st.store[("F", g, "try")] = ONE
                st.store[("F", g, "owns")] = ("call", "try_lock", mu if isloc(mu) else None, (), ("site", fr.f.id, c.eid))
                self.drop_mention(st, st.store[("F", g, "owns")])
                # both outcomes
                s2 = st.copy()
                s2.facts[s2.store[("F", g, "owns")]] = (0, 0, frozenset())
                st.facts[st.store[("F", g, "owns")]] = (1, INF, frozenset((0,)))
                self.take(st, mu, mode, g, c)
                return [(s2, g), (st, g)]
            if "defer_lock" in tag:
                st.store[("F", g, "owns")] = ZERO
                return g
            self.take(st, mu, mode, g, c)
            st.store[("F", g, "owns")] = ONE
            return g
        if c.cls in RELEASE_KINDS and isloc(c.obj):
            g = c.obj
            if sn == "unlock":
                self.release_guard(st, g, c.ln)
                st.store[("F", g, "owns")] = ZERO
                return UNIT
            if sn == "lock":
                mu = st.store.get(("F", g, "mutex"))
                if mu is not None:
                    self.take(st, deref(mu), "w", g, c)
                    st.store[("F", g, "owns")] = ONE
                return UNIT
            if sn in ("owns_lock", "operator bool"):
                return self.load(st, ("F", g, "owns"))
        if c.cls in ("std::mutex", "std::shared_mutex", "cybozu::spinlock", "std::recursive_mutex") and isloc(c.obj):
            if sn in ("lock", "lock_shared"):
                self.take(st, c.obj, "r" if sn == "lock_shared" else "w", None, c)
                return UNIT
            if sn in ("unlock", "unlock_shared"):
                st.held = tuple(h for h in st.held if h[0] != c.obj)
                self.rule.on_unlock(self, st, c.obj, c.ln)
                return UNIT
            if sn in ("try_lock", "try_lock_shared"):
                t = ("call", "try_lock", c.obj, (), ("site", st.top.f.id, c.eid))
                self.drop_mention(st, t)
                s2 = st.copy()
                s2.facts[t] = (0, 0, frozenset())
                st.facts[t] = (1, INF, frozenset((0,)))
                self.take(st, c.obj, "w", None, c)
                return [(s2, t), (st, t)]
        return None

    def take(self, st, mu, mode, guard, c):
        # the element of the guard's declaration is the ctor element itself
        self.rule.on_lock(self, st, mu, mode, c.ln)
        st.held = st.held + ((mu, mode, guard, c.eid),)

    def opaque_result(self, st, c):
        self.opaque_effects(st, c)
        n = c.node
        key = c.name
        self.opaque_seen[key] = self.opaque_seen.get(key, 0) + 1
        sn = n.get("sn") or key.split("::")[-1]
        repo = c.func is not None
        pure = (n.get("const") and not repo) or (not repo and sn in PURE_NAMES) or key in PURE_FREE or \
            (c.op in ("==", "!=", "<", ">", "<=", ">=") and not repo) or (repo and n.get("const")) or \
            (repo and c.op in ("==", "!="))
        if c.node["k"] == "ctor":
            fr = st.top
            return ("T", fr.depth, fr.f.id, c.eid or n.get("ln"))
        args = tuple(x if not isloc(x) else x for x in c.args)
        if any(depth_of(x) > 15 for x in args) or (c.obj is not None and depth_of(c.obj) > 15):
            t = ("call", key, None, (), ("site", st.top.f.id, c.eid))
            self.drop_mention(st, t)
        elif pure:
            ep = self.epoch_of(st, c.obj) if isloc(c.obj) else 0
            nm = key
            if nm.endswith("operator!="):
                t = self.neg(("call", nm[:-2] + "==", c.obj, self.sort_args(args), ep))
                return t
            if nm.endswith("operator=="):
                args = self.sort_args(args)
            t = ("call", nm, c.obj, args, ep)
        else:
            t = ("call", key, c.obj, args, ("site", st.top.f.id, c.eid))
            self.drop_mention(st, t)
        if n.get("gl"):
            return deref(t)
        if n.get("rec"):
            return ("R", t)
        return t

    def sort_args(self, args):
        return tuple(sorted(args, key=repr))

    def opaque_effects(self, st, c):
        n = c.node
        site = ("h", st.top.f.id, c.eid)
        sn = n.get("sn") or c.name.split("::")[-1]
        if c.obj is not None and isloc(c.obj) and not n.get("const") and not (c.func is None and sn in PURE_NAMES):
            self.havoc(st, c.obj, site)
        for k, x in enumerate(c.args):
            t = c.pt[k] if k < len(c.pt) else ""
            if t.startswith("const ") and (t.endswith("&") or t.endswith("*")) and "*const" not in t:
                continue
            if isloc(x) and t.endswith("&"):
                if x[0] == "G" and not x[1].startswith("yrmcds"):
                    continue
                self.havoc(st, x, site)
            elif isinstance(x, tuple) and x[0] == "&" and t.endswith("*"):
                self.havoc(st, x[1], site)
