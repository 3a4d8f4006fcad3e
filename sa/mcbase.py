"""Shared vocabulary of the memcache-protocol rules: what the operations on a
cached object, the reply channel, the replication channel and the hash table are,
derived from effect analysis rather than from the text of the handlers."""
from engine import *
from effects import Effects, reaches
from model import AnalysisError, norm

OBJ = "yrmcds::memcache::object"
SOCK = "yrmcds::memcache::memcache_socket"
TRESP = "yrmcds::memcache::text_response"
BRESP = "yrmcds::memcache::binary_response"
TREQ = "yrmcds::memcache::text_request"
BREQ = "yrmcds::memcache::binary_request"
TCMD = "yrmcds::memcache::text_command"
BCMD = "yrmcds::memcache::binary_command"
SEND = "cybozu::tcp_socket::send"


class McInfo:
    _cache = None

    @classmethod
    def of(cls, m):
        if cls._cache is None or cls._cache.m is not m:
            cls._cache = cls(m)
        return cls._cache

    def __init__(self, m):
        self.m = m
        self.eff = Effects(m)
        meth = {}
        for f in m.funcs.values():
            if f.cls == OBJ and not f.ctor and not f.dtor and not f.lambda_:
                meth.setdefault(f.sn, []).append(f)
        for need in ("lock", "unlock", "locked", "expired", "data", "flags", "exptime", "cas_unique", "size", "set"):
            if need not in meth:
                raise AnalysisError("anchor %s::%s not found" % (OBJ, need))
        one = {k: v[0] for k, v in meth.items()}
        rd = lambda n: self.eff.reads(one[n])
        wr = lambda n: self.eff.writes(one[n])
        self.cas_f = self._single(rd("cas_unique"), "cas_unique")
        self.flags_f = self._single(rd("flags"), "flags")
        self.exp_f = self._single(rd("exptime"), "exptime")
        lk = wr("lock") & self._trans_reads(one["locked"])
        self.lock_f = self._single(lk, "lock")
        self.content = (rd("data") | rd("size")) - wr("data")
        self.kind = {}
        for f in m.funcs.values():
            if f.cls != OBJ or f.lambda_ or f.ctor or f.dtor:
                continue
            w = self.eff.writes(f)
            if self.lock_f in w:
                k = "unlock" if f.sn == "unlock" else "lock"
            elif w & (self.content | {self.cas_f, self.flags_f}):
                k = "mutate"
            elif self.exp_f in w:
                k = "touch"
            elif f.sn == "data":
                k = "read"
            elif w & {x for x in w if x not in wr("data")}:
                k = "other"
            elif w:
                k = "age"
            elif f.ret == "bool":
                k = "pred"
            else:
                k = "get"
            self.kind[f.id] = k
        self.none = self._none_value(one["unlock"])
        # reply methods
        self.reply = {}
        for f in m.funcs.values():
            if f.cls in (TRESP, BRESP) and not f.ctor and not f.dtor:
                if reaches(m, lambda n, i: n.startswith(SEND), f):
                    self.reply[f.id] = f.sn
        if len(self.reply) < 20:
            raise AnalysisError("reply methods not recognised")
        self.final = {}
        for fid in self.reply:
            self.final[fid] = self._may_flush(m.funcs[fid], set())
        self.tcmd = m.enum_map(TCMD)
        self.bcmd = m.enum_map(BCMD)
        self.cmd_text = m.one(SOCK + "::cmd_text")
        self.cmd_bin = m.one(SOCK + "::cmd_bin")

    def _trans_reads(self, f, seen=None):
        seen = seen or set()
        out = set(self.eff.reads(f))
        for i in f.instrs():
            if i["k"] == "call" and i.get("f") in self.m.funcs and i["f"] not in seen:
                g = self.m.funcs[i["f"]]
                if g.cls == f.cls:
                    seen.add(g.id)
                    out |= self._trans_reads(g, seen)
        return out

    def _single(self, s, what):
        if len(s) != 1:
            raise AnalysisError("cannot identify the field behind object::%s (%s)" % (what, sorted(s)))
        return next(iter(s))

    def _none_value(self, f):
        """the 'not locked' value: what unlock stores into the lock field"""
        for i in f.instrs():
            if i["k"] == "asg":
                l = f.elems.get(i["l"].get("r")) if isinstance(i["l"], dict) else None
                if l and l.get("fn") == self.lock_f:
                    r = i["rr"]
                    while isinstance(r, dict) and "r" in r and len(r) == 1:
                        r = f.elems.get(r["r"])
                    while isinstance(r, dict) and "cv" not in r and "e" in r:
                        r = r["e"]
                        while isinstance(r, dict) and "r" in r and len(r) == 1:
                            r = f.elems.get(r["r"])
                    if isinstance(r, dict) and "cv" in r:
                        return int(r["cv"])
        raise AnalysisError("object::unlock does not store a constant into the lock field")

    def _may_flush(self, f, seen):
        """does the reply method end a reply (send with flush not constantly false)?"""
        seen.add(f.id)
        for i in f.instrs():
            if i["k"] != "call":
                continue
            n = norm(i.get("n") or "")
            if n.startswith(SEND):
                a = i.get("a", [])
                idx = 2
                v = a[idx] if len(a) > idx else None
                cv = self.constval(f, v)
                if cv != 0:
                    return True
            g = self.m.funcs.get(i.get("f")) if i.get("f") else None
            if g is not None and g.cls in (TRESP, BRESP) and g.id not in seen and self._may_flush(g, seen):
                return True
        return False

    def constval(self, f, n):
        for _ in range(6):
            if not isinstance(n, dict):
                return None
            if "cv" in n:
                return int(n["cv"])
            if "r" in n and len(n) == 1:
                n = f.elems.get(n["r"])
            elif "e" in n:
                n = n["e"]
            else:
                return None
        return None

    def getter_field(self, cls, name):
        f = self.m.one(cls + "::" + name)
        return self._single(self.eff.reads(f), cls + "::" + name)


class McRule(Rule):
    """turns calls on cached objects, replies and replication into events"""
    width = 600
    skip_dtors = True

    def __init__(self, info):
        self.info = info
        self.m = info.m

    # events -- to be overridden
    def obj_event(self, eng, st, kind, f, obj, c):
        pass

    def repl_event(self, eng, st, name, c):
        pass

    def reply_event(self, eng, st, name, final, c):
        pass

    def book_event(self, eng, st, op, c):
        """lock bookkeeping of the connection: add / remove / clear"""

    def opaque(self, eng, func, name):
        if func.id in self.info.reply:
            return True
        k = self.info.kind.get(func.id)
        if k is not None and k not in ("pred", "get"):
            return True
        return (name.startswith("yrmcds::memcache::repl_") and not func.lambda_) or name.startswith(SEND)

    def obj_result(self, eng, st, f, c):
        """value of an object operation; only the fields it writes are forgotten"""
        site = ("h", st.top.f.id, c.eid)
        w = self.info.eff.writes(f)
        for fld in sorted(w):
            eng.havoc(st, ("F", c.obj, fld), site)
        for k, x in enumerate(c.args):
            t = c.pt[k] if k < len(c.pt) else ""
            if isloc(x) and t.endswith("&") and not t.startswith("const "):
                eng.havoc(st, x, site)
        t = ("call", c.name, c.obj, tuple(c.args), ("site", st.top.f.id, c.eid))
        eng.drop_mention(st, t)
        return deref(t) if c.node.get("gl") else (("R", t) if c.node.get("rec") else t)

    def on_call(self, eng, st, c):
        f = c.func
        if f is None:
            return None
        if f.sn == "get_bucket" and f.ret.endswith("&"):
            # some bucket; which one is decided by the hash-map rules
            b = ("O", "bucket")
            eng.havoc(st, b, ("h", st.top.f.id, c.eid))
            return b
        info = self.info
        k = info.kind.get(f.id)
        if k in ("pred", "get"):
            return None
        if k is not None:
            outs = []
            tt = throw_types(f)
            if tt:
                for t in tt:
                    s2 = st.copy()
                    self.obj_throw(eng, s2, f, c, t)
                    eng.throw(s2, t, c.ln, c.eid)
            self.obj_event(eng, st, k, f, c.obj, c)
            v = self.obj_result(eng, st, f, c)
            self.obj_after(eng, st, k, f, c.obj, c)
            return [(st, v)] + outs
        if f.cls == OBJ and c.ctor and not c.node.get("copy"):
            self.obj_event(eng, st, "new", f, None, c)
            return None
        if f.id in info.reply:
            self.reply_event(eng, st, info.reply[f.id], info.final[f.id], c)
            return UNIT
        if c.name.startswith("yrmcds::memcache::repl_") and not f.lambda_:
            self.repl_event(eng, st, c.name.split("::")[-1], c)
            return UNIT
        return None

    def obj_after(self, eng, st, kind, f, obj, c):
        pass

    def obj_throw(self, eng, st, f, c, tt):
        pass

    # -- predicates over the facts of a path
    def lock_term(self, eng, st, obj):
        return eng.load(st, ("F", obj, self.info.lock_f))

    def unlocked(self, eng, st, obj):
        return eng.decide(st, eng.op("==", self.lock_term(eng, st, obj), C(self.info.none)))

    def mine(self, eng, st, obj):
        g = eng.load(st, ("G", "yrmcds::memcache::g_context"))
        return eng.decide(st, eng.op("==", self.lock_term(eng, st, obj), g))


def throw_types(f):
    """exception types an opaque object operation reports to its caller by design"""
    out = []
    for i in f.instrs():
        if i["k"] == "throw" and i.get("tt") and i["e#"] if "e#" in i else i["k"] == "throw":
            t = i.get("tt") or i.get("vt") or ""
            if t.endswith("not_a_number") and t not in out:
                out.append(t)
    return out


def commands(info):
    """(protocol, command name, value, function) for every command of both protocols"""
    out = []
    for n, v in info.tcmd.items():
        if n not in ("END_OF_COMMAND",):
            out.append(("text", n, v, info.cmd_text))
    for n, v in info.bcmd.items():
        if n not in ("END_OF_COMMAND",):
            out.append(("binary", n, v, info.cmd_bin))
    return out


def seed_command(eng, info, rule, proto, name, val, func, auto):
    """initial state of one command handler with the command fixed"""
    st = eng.initial(func, auto=auto, this_cls=SOCK)
    cls = TREQ if proto == "text" else BREQ
    p = func.params[0]
    cmd = st.top.env[p[0][1]]
    st.store[("F", cmd, info.getter_field(cls, "command"))] = C(val)
    if proto == "text":
        st.store[("F", cmd, info.getter_field(cls, "valid"))] = ONE
    else:
        ok = info.m.enum_map("yrmcds::memcache::binary_status")["OK"]
        st.store[("F", cmd, info.getter_field(cls, "status"))] = C(ok)
    return st, cmd
