"""Text requests: what the parser accepts and takes from request lines of every shape; lengths and values are symbolic."""
from affine import *
from check import prop
from engine import *
from model import AnalysisError, norm
from rules.requests import Binary, Arith, Got, got, is_now, P, TH, B

TREQ = B + "text_request"
ERRNO = ("G", "errno")
SP, CR, LF = 32, 13, 10
U64 = (1 << 64) - 1
MONTH = 60 * 60 * 24 * 30
HUGE = "99999999999999999999999"


class Tok:
    """a piece of the received bytes: known text, or a key / number / data of symbolic length"""

    def __init__(self, kind, name="", text=None, lo=0, hi=0):
        self.kind, self.name, self.text = kind, name, text
        self.lo, self.hi = lo, hi
        self.size = None

    def len(self):
        if self.size is not None:
            return self.size
        if self.text is not None:
            return Lin({}, len(self.text))
        return Lin({("sym", "len " + self.name, 0): 1})

    def first(self):
        return ("sym", "first of " + self.name, 0)

    def last(self):
        return ("sym", "last of " + self.name, 0)

    def value(self):
        return ("sym", "value of " + self.name, 0)


def T(s):
    return Tok("text", s, [ord(x) for x in s])


def KEY(n="key"):
    return Tok("key", n)


def NUM(n, lo, hi):
    return Tok("num", n, lo=lo, hi=hi)


class Line:
    """pieces laid out one after the other from P"""

    def __init__(self, toks, pieces, rest=True):
        self.toks = toks                    # the words of the line
        self.pieces = pieces + ([Tok("rest", "what follows")] if rest else [])
        self.start, self.base, self.bounds = {}, [lin(P) - Lin({}, 1)], {P: (1, None)}
        at = Lin()
        for i, p in enumerate(self.pieces):
            self.start[i] = at
            if p.text is None:
                if p.size is None:
                    self.base.append(p.len() - Lin({}, 1 if p.kind in ("key", "num") else 0))
                    self.bounds[list(p.len().a)[0]] = (1 if p.kind in ("key", "num") else 0, None)
                if p.kind == "num":
                    self.bounds[p.value()] = (p.lo, p.hi)
                for f in (lin(p.first()), lin(p.last())):
                    if p.kind == "num":
                        self.base += [f - Lin({}, 48), Lin({}, 57) - f]
                    if p.kind == "key":
                        self.base += [f - Lin({}, 33), Lin({}, 126) - f]
                if p.kind == "num":
                    self.base += [lin(p.value()) - Lin({}, p.lo), Lin({}, p.hi) - lin(p.value())]
            at = at + p.len()
        self.end = at

    def of(self, p):
        return self.start[self.pieces.index(p)]

    def find(self, off):
        """(piece index, offset in it) when the position is known"""
        for i, p in enumerate(self.pieces):
            d = (off - self.start[i]).const()
            if d is None or d < 0:
                continue
            if p.text is not None:
                if d < len(p.text):
                    return i, int(d)
            else:
                return i, int(d)
        return None


def line(words, gaps=None, lead=0, trail=0, eol="\r\n", rest=True, data=None):
    """words separated by blanks"""
    ps = []
    if lead:
        ps.append(T(" " * lead))
    for i, w in enumerate(words):
        if i:
            ps.append(T(" " * (gaps or 1)))
        ps.append(w)
    if trail:
        ps.append(T(" " * trail))
    if eol:
        ps.append(T(eol))
    l = Line(words, ps + (data or []), rest)
    n = len(ps) - 1
    l.eol = l.start[n] + ps[n].len() if eol else None
    return l


class Text(Binary):
    """want: {accessor: expectation}"""
    bounded = True

    def __init__(self, m, name, ln, want, acc, status=None):
        Arith.__init__(self, m)
        self.cmd, self.line, self.want, self.acc = name, ln, want, acc
        self.base = ln.base

    def ge(self, st, l):
        # every length is at least what it must be
        b, l = self.line.bounds, self.facts(st).sys.reduce(l)
        if all(x in b and (c > 0 or b[x][1] is not None) for x, c in l.a.items()) and l.k + sum(c * b[x][0 if c > 0 else 1] for x, c in l.a.items()) >= 0:
            return True
        return Arith.ge(self, st, l)

    def inside(self, eng, st, off, n, ln):
        self.nreads += 1
        if not self.ge(st, off) or not self.ge(st, self.line.end - off - n):
            self.bad(eng, st, "bytes beyond the received data are read (%s)" % self.cmd, ln, "%s: read beyond the data" % self.cmd)

    def char(self, off):
        p = self.line.find(off)
        if p is None:
            for i, t in enumerate(self.line.pieces):
                if t.kind in ("num", "key") and (off - self.line.start[i] - t.len()).const() == -1:
                    return t.last()
            return ("unk", "some byte")
        i, k = p
        t = self.line.pieces[i]
        if t.text is not None:
            return C(t.text[k])
        if k == 0 and t.kind in ("num", "key"):
            return t.first()
        return ("unk", "some byte of " + t.name)

    def on_load(self, eng, st, l):
        if l == ERRNO:
            return None
        off = self.offset(("&", l))
        if off is None:
            return None
        self.inside(eng, st, off, Lin({}, 1), None)
        return self.char(off)

    def on_int_cast(self, eng, st, v, n):
        b = INT_BITS.get(n.get("t", "").replace("const ", ""))
        if b and v[0] in ("sym", "op") and self.relevant(v):
            lo = 0 if "unsigned" in n["t"] else -(1 << (b - 1))
            hi = (1 << b) - 1 if lo == 0 else (1 << (b - 1)) - 1
            l = self.lin(v)
            if self.ge(st, l - Lin({}, lo)) and self.ge(st, Lin({}, hi) - l):
                return v
        return None

    def on_arith(self, eng, st, o, a, b, t, ln):
        pass

    def scan(self, eng, st, off, ch, n, ln):
        """position of the first such byte, None when there is none"""
        at = self.line.find(off)
        if at is None:
            raise AnalysisError("text requests: a search starts at an unknown position")
        i, k = at
        while i < len(self.line.pieces):
            p = self.line.pieces[i]
            if n is not None and self.ge(st, self.line.start[i] + Lin({}, k) - off - n):
                return None
            if p.text is not None:
                for j in range(k, len(p.text)):
                    pos = self.line.start[i] + Lin({}, j)
                    if n is not None and self.ge(st, pos - off - n):
                        return None
                    if p.text[j] == ch:
                        return pos
            elif p.kind in ("rest", "data"):
                return "unknown"
            i, k = i + 1, 0
        if n is None:
            return "unknown"
        return None

    def on_call(self, eng, st, c):
        sn = c.name.split("::")[-1]
        if c.name == "__errno_location":
            return ("&", ERRNO)
        if sn in ("isdigit",):
            v = self.val(eng, st, c.args[0])
            if isconst(v):
                return C(1 if 48 <= v[1] <= 57 else 0)
            if v[0] == "sym" and self.ge(st, lin(v) - Lin({}, 48)) and self.ge(st, Lin({}, 57) - lin(v)):
                return ONE
            return None
        if sn in ("memchr", "rawmemchr", "find") and len(c.args) >= 2:
            a = [self.val(eng, st, x) for x in c.args]
            if sn == "find":
                if len(a) != 3:
                    return None
                off = self.offset(a[0])
                if off is None:
                    return None
                n, ch, none = lin(a[1]) - lin(a[0]), a[2], a[1]
            else:
                off = self.offset(a[0])
                if off is None:
                    return None
                n, ch, none = (lin(a[2]) if len(a) > 2 else None), a[1], ZERO
            if ch[0] == "&":
                ch = eng.load(st, ch[1])
            if ch[0] == "ld" and ch[1][0] == "G":
                g = [x for x in self.m.globals.values() if x["n"] == ch[1][1] and "init" in x]
                ch = C(int(g[0]["init"]["cv"])) if len(g) == 1 and "cv" in g[0]["init"] else ch
            if not isconst(ch):
                raise AnalysisError("text requests: an unknown byte is searched")
            r = self.scan(eng, st, off, ch[1] & 255, n, c.ln)
            if isinstance(r, str):
                if n is None:
                    self.bad(eng, st, "a search can leave the request (%s)" % self.cmd, c.ln, "%s: search leaves the request" % self.cmd)
                else:
                    self.inside(eng, st, off, n, c.ln)
                return ("unk", "found somewhere")
            if r is None:
                self.inside(eng, st, off, n, c.ln)
                return none
            return (lin(P) + r).term()
        if sn in ("memcmp", "strncmp", "strncasecmp", "bcmp") and len(c.args) == 3:
            a, b, n = [self.val(eng, st, x) for x in c.args]
            for x, y in ((a, b), (b, a)):
                off = self.offset(x)
                if off is None or y[0] != "s" or not isconst(n):
                    continue
                self.inside(eng, st, off, lin(n), c.ln)
                for k in range(n[1]):
                    ch = self.char(off + Lin({}, k))
                    w = ord(y[1][k]) if k < len(y[1]) else 0
                    if isconst(ch):
                        if ch[1] != w:
                            return ONE
                    else:
                        # keys and numbers of the explored lines are none of the known words
                        return ONE if ch[0] == "sym" else ("unk", "comparison")
                return ZERO
            return None
        if sn in ("strtoull", "strtoul", "strtoll", "strtol", "strtoumax"):
            return self.number(eng, st, c)
        if sn in ("from_chars", "sscanf", "stoull", "stoul", "atoi", "atoll"):
            raise AnalysisError("text requests: numbers are read with %s: not modelled" % sn)
        return self.tuples(eng, st, c)

    def number(self, eng, st, c):
        a = [self.val(eng, st, x) for x in c.args]
        off = self.offset(a[0])
        if off is None:
            return None
        p = self.line.find(off)
        if p is None or not isconst(a[2]) or a[2][1] != 10:
            raise AnalysisError("text requests: a number is read from an unknown position")
        self.inside(eng, st, off, Lin({}, 1), c.ln)

        def done(end, v):
            if a[1] != ZERO and a[1][0] == "&":
                eng.assign(st, a[1][1], (lin(P) + end).term(), c.ln)
            return v
        # blanks and line breaks are skipped, a sign is taken
        ch = self.char(off)
        at = off
        while isconst(ch) and ch[1] in (9, 10, 11, 12, 13, 32):
            at = at + Lin({}, 1)
            ch = self.char(at)
        neg = False
        if isconst(ch) and ch[1] in (43, 45):
            neg = ch[1] == 45
            at = at + Lin({}, 1)
            ch = self.char(at)
        i = self.line.find(at)
        t = self.line.pieces[i[0]] if i else None
        if t is not None and t.kind == "num" and i[1] == 0:
            v = t.value()
            return done(at + t.len(), ("op", "neg", v) if neg else v)
        if isconst(ch) and 48 <= ch[1] <= 57:
            v = 0
            while isconst(ch) and 48 <= ch[1] <= 57:
                v = v * 10 + ch[1] - 48
                at = at + Lin({}, 1)
                ch = self.char(at)
            if not isconst(ch):
                return done(at, ("unk", "number"))
            if v > U64:
                st.store[ERRNO] = C(34)
                v = U64
            return done(at, C((-v) & U64 if neg else v))
        if isconst(ch) or ch[0] == "sym":
            return done(off, ZERO)
        return done(at, ("unk", "number"))

    def on_exit(self, eng, st, kind, val):
        if self.impossible(st):
            return
        if kind != "return":
            self.bad(eng, st, "the parser of text requests does not return (%s)" % self.cmd, key="throws")
            return
        self.checked += 1
        for n, w in self.want.items():
            v = got(eng, self, st, self.acc[n])
            if n in ("key", "data", "first_key"):
                if w is None:
                    okay = v[0] == "tup" and self.zero(st, lin(v[2])) or v[0] in ("unk", "ld")
                else:
                    okay = v[0] == "tup" and self.zero(st, lin(v[1]) - lin(P) - w[0]) and self.zero(st, lin(v[2]) - w[1])
            elif n == "exptime":
                okay = self.time(st, v, w)
            elif isinstance(w, Lin):
                okay = v[0] not in ("unk", "ld") and self.zero(st, lin(v) - w)
            else:
                okay = isconst(v) and v[1] == w
            if not okay:
                self.bad(eng, st, WHY.get((n, w) if isinstance(w, int) else n, "%s of a request is wrong" % n) + " (%s)" % self.cmd, key="%s: %s" % (self.cmd, n))
                return

    def time(self, st, v, w):
        """w: None (none given), "now", or the number token"""
        if w == "now":
            return is_now(v)
        if w is None:
            return v == ZERO
        kind, t = w
        f = t.value()
        if v == ZERO:
            return kind != "flush" and self.zero(st, lin(f))
        l = lin(v)
        if (l - lin(f)).zero():
            return self.ge(st, lin(f) - Lin({}, MONTH + 1))
        d = l - lin(f)
        if len(d.a) == 1 and d.k == 0:
            x, k = list(d.a.items())[0]
            return k == 1 and is_now(x) and (kind == "flush" or self.differs(st, lin(f))) and self.ge(st, Lin({}, MONTH) - lin(f))
        if is_now(v):
            return kind == "flush" and self.zero(st, lin(f))
        return False


WHY = {("valid", 1): "a well-formed request is refused", ("valid", 0): "a malformed request is accepted", "length": "the length of the request is wrong",
       "key": "the key is not taken from its place", "data": "the data are not taken from their place", "flags": "the flags are not the ones sent",
       "exptime": "the expiration time is not what the field means", "cas_unique": "the CAS is not the one sent", "value": "the delta is not the one sent",
       "command": "the command is not the one named", "no_reply": "noreply is taken wrongly", "verbosity": "the verbosity is not the one named",
       "stats": "the category of statistics is not the one named"}

STORAGE = ["set", "add", "replace", "append", "prepend", "cas"]
BADNUM = ["zz", "-5", "+5", "7x", HUGE, "0x10", "5.0"]
GARBAGE = ["junk", "noreplx", "noreplyy", "norepl"]
COMMANDS = ["set", "add", "replace", "append", "prepend", "cas", "touch", "delete", "incr", "decr", "lock", "unlock", "get", "gets", "keys", "stats", "flush_all",
            "verbosity", "version", "quit", "unlock_all", "slabs"]
I63 = (1 << 63) - 1


def shapes(cmd):
    """(description, line, expectation) of every explored request line"""
    out = []

    def add(what, words, want, **kw):
        l = line([T(cmd)] + words, **kw)
        w = {"length": l.eol if l.eol is not None else 0}
        if want.get("valid"):
            w["command"] = cmd
        w.update({k: (v(l) if callable(v) else v) for k, v in want.items()})
        w = {k: w[k] for k in (["valid"] if "valid" in w else []) + [k for k in w if k != "valid"]}
        out.append((what, l, w))

    def key(t):
        return lambda l: (l.of(t), t.len())

    def val(t):
        return lambda l: lin(t.value())
    spacings = [("plain", {}), ("leading blanks", {"lead": 2}), ("wide gaps", {"gaps": 3}), ("trailing blank", {"trail": 1}), ("trailing blanks", {"trail": 2})]
    storage = cmd in STORAGE

    def args():
        """(tokens, expectations) of the well-formed command"""
        if storage:
            k, f, e, n = KEY(), NUM("flags", 0, (1 << 32) - 1), NUM("exptime", 0, I63), NUM("size", 0, (1 << 32) - 1)
            w = {"key": key(k), "flags": val(f), "exptime": ("store", e)}
            ts = [k, f, e, n]
            if cmd == "cas":
                c = NUM("cas", 0, U64)
                ts.append(c)
                w["cas_unique"] = val(c)
            else:
                w["cas_unique"] = 0
            return ts, w, n
        if cmd == "touch":
            k, e = KEY(), NUM("exptime", 0, I63)
            return [k, e], {"key": key(k), "exptime": ("store", e)}, None
        if cmd in ("incr", "decr"):
            k, v = KEY(), NUM("delta", 0, U64)
            return [k, v], {"key": key(k), "value": val(v)}, None
        if cmd in ("delete", "lock", "unlock"):
            k = KEY()
            return [k], {"key": key(k)}, None
        if cmd in ("get", "gets"):
            k = KEY()
            return [k], {"first_key": key(k)}, None
        if cmd == "verbosity":
            return [T("debug")], {"verbosity": "debug"}, None
        return [], {}, None

    def with_data(n, tail="\r\n"):
        d = Tok("data", "data")
        d.size = lin(n.value())
        return d, [d, T(tail)]

    def good(what, extra, more, kw, noreply=0):
        ts, w, n = args()
        w = dict(w, valid=1, no_reply=noreply, **more)
        if n is not None:
            # a data block as long as announced
            d, ps = with_data(n)
            l = line([T(cmd)] + ts + extra, data=ps, **kw)
            w = {k: (v(l) if callable(v) else v) for k, v in w.items()}
            w.update(command=cmd, length=l.eol + d.len() + Lin({}, 2), data=(l.of(d), d.len()))
            out.append((what, l, w))
        else:
            add(what, ts + extra, w, **kw)

    has_noreply = storage or cmd in ("touch", "incr", "decr", "delete", "flush_all", "verbosity")
    for s, kw in spacings:
        if cmd in ("version", "quit", "unlock_all", "slabs") and s != "plain" and s != "leading blanks" and "trail" not in kw:
            continue
        good(s, [], {}, kw)
        if has_noreply:
            good("noreply, " + s, [T("noreply")], {}, kw, 1)
    # without a line end: incomplete
    ts, w, n = args()
    add("no line end", ts, {"length": 0}, eol="", rest=False)
    add("no line feed yet", ts, {"length": 0}, eol="\r", rest=False)
    ts, w, n = args()
    add("no carriage return", ts, {"valid": 0}, eol="\n", data=[T("12345\r\n")])
    if cmd in ("version", "quit", "unlock_all", "slabs"):
        return out
    # arguments missing
    ts, w, n = args()
    if cmd not in ("stats", "keys", "flush_all"):
        for k in range(len(ts)):
            ts, w, n = args()
            for trail in (0, 1):
                add("%d argument%s%s" % (k, "" if k == 1 else "s", " and a blank" if trail else ""), ts[:k], {"valid": 0}, trail=trail,
                    data=[T("12345\r\n")])
            if has_noreply and k and k < len(ts) and not (cmd in ("touch",) and k == 0):
                # the word noreply is no number
                ts, w, n = args()
                if ts[k].kind == "num":
                    add("noreply in place of a number", ts[:k] + [T("noreply")], {"valid": 0})
    # more than the command takes
    if has_noreply or cmd in ("lock", "unlock"):
        for g in GARBAGE:
            ts, w, n = args()
            if cmd == "flush_all":
                ts = [NUM("exptime", 0, I63)]
            add("unknown argument %s" % g, ts + [T(g)], {"valid": 0}, **({"data": with_data(n)[1]} if n else {}))
            if cmd not in ("lock", "unlock"):
                ts, w, n = args()
                add("unknown argument %s after noreply" % g, ts + [T("noreply"), T(g)], {"valid": 0}, **({"data": with_data(n)[1]} if n else {}))
    # numbers that are none, or too large
    ts, w, n = args()
    for k, t in enumerate(ts):
        if t.kind != "num":
            continue
        for b in BADNUM:
            ts, w, n = args()
            ts[k] = T(b)
            add("%s is %s" % (t.name, b), ts, {"valid": 0})
        if t.hi < U64:
            ts, w, n = args()
            ts[k] = NUM(t.name, t.hi + 1, U64)
            add("%s is too large" % t.name, ts, {"valid": 0})
    if storage:
        for what, tail in (("data are longer than announced", "x\n"), ("the data end without line feed", "\rx"), ("the data do not end with a line end", "xx")):
            ts, w, n = args()
            d, ps = with_data(n, tail)
            l = line([T(cmd)] + ts, data=ps)
            out.append((what, l, {"valid": 0, "length": l.eol + d.len() + Lin({}, 2)}))
        ts, w, n = args()
        l = line([T(cmd)] + ts, data=[Tok("data", "data")], rest=False)
        l.base += [lin(n.value()) + Lin({}, 1) - l.pieces[-1].len()]      # up to one byte of the line end
        out.append(("data incomplete", l, {"length": 0}))
    if cmd == "flush_all":
        for s, kw in spacings:
            for nr in (0, 1):
                e = NUM("exptime", 0, I63)
                add("delay, %s%s" % (s, ", noreply" if nr else ""), [e] + ([T("noreply")] if nr else []), {"valid": 1, "no_reply": nr, "exptime": ("flush", e)}, **kw)
        add("now", [], {"valid": 1, "exptime": "now"})
        for b in BADNUM:
            add("delay is %s" % b, [T(b)], {"valid": 0})
    if cmd == "verbosity":
        for wd in ("error", "warning", "info", "debug"):
            add("level %s" % wd, [T(wd)], {"valid": 1, "verbosity": wd})
    if cmd == "stats":
        for wd in ("settings", "items", "sizes", "ops"):
            for s, kw in spacings:
                add("category %s, %s" % (wd, s), [T(wd)], {"valid": 1, "stats": wd.upper()}, **kw)
        add("no category", [], {"valid": 1, "stats": "GENERAL"})
    if cmd == "keys":
        for s, kw in spacings:
            k = KEY("prefix")
            add("prefix, %s" % s, [k], {"valid": 1, "key": key(k)}, **kw)
    return out


@prop("P02", "request-lines", floor=22)
def lines(ctx):
    """request lines of every shape, with keys, numbers and data of every length and value: accepted when well-formed, refused otherwise,
    every argument taken from its place, only received bytes read"""
    m = ctx.m
    cmds = m.enum_map(B + "text_command")
    sev = m.enum_map("cybozu::severity")
    stats = m.enum_map(B + "stats_t")
    f = [g for g in m.funcs.values() if g.cls == TREQ and g.ctor and g.blocks and len(g.params) == 2]
    ctx.need(len(f) == 1, "the constructor of text_request was not found")
    acc = {n: m.one(TREQ + "::" + n) for n in ("valid", "length", "command", "key", "first_key", "flags", "exptime", "cas_unique", "data", "value", "no_reply",
                                               "verbosity", "stats")}

    def explore(ctx, cmd, what, l, want):
        w = dict(want)
        if "command" in w:
            w["command"] = cmds[cmd.upper()]
        if "verbosity" in w:
            w["verbosity"] = sev[w["verbosity"]]
        if "stats" in w:
            w["stats"] = stats[w["stats"]]
        r = Text(m, "%s: %s" % (cmd, what), l, w, acc)
        e = Engine(m, r)
        st = e.initial(f[0], this=TH, args=[P, l.end.term()], auto=frozenset())
        e.run(st)
        ctx.engine(e)
        ctx.need(r.checked or e.viol, "no path of the parser ends (%s: %s)" % (cmd, what))
        return r

    def one(ctx, cmd):
        n = reads = paths = 0
        if cmd == "":
            todo = strange()
        else:
            todo = [(cmd,) + x for x in shapes(cmd)]
        for c, what, l, want in todo:
            r = explore(ctx, c, what, l, want)
            n += 1
            reads += r.nreads
            paths += r.checked
        ctx.instance("%s: %d shapes of request lines, %d paths, %d reads" % (cmd or "unknown commands", n, paths, reads))
        ctx.count("shapes", n)
        ctx.count("paths", paths)
    for n in COMMANDS:
        if n.upper() not in cmds:
            raise AnalysisError("there is no command %s" % n)
    ctx.parallel(one, COMMANDS + [""])


def strange():
    out = []

    def add(what, l):
        out.append((what, "refused", l, {"valid": 0, "length": l.eol}))
    for c in COMMANDS:
        for w in (c[:-1], c + "x", c[:-1] + "_", c.upper(), "x" + c):
            if w in COMMANDS:
                continue
            add("unknown command " + w, line([T(w), KEY(), T("0"), T("0"), T("1")], data=[T("1\r\n")]))
            add("unknown command %s alone" % w, line([T(w)]))
    add("empty line", line([T("")]))
    add("blank line", line([T("")], lead=3))
    add("only a line feed", line([T("")], eol="\n"))
    return out


class Next(Text):
    def on_load(self, eng, st, l):
        if l[0] == "G" and l[1].endswith("::eos"):
            return ("tup", ZERO, ZERO)
        return Text.on_load(self, eng, st, l)

    def on_call(self, eng, st, c):
        if c.name == "std::tie":
            return ("tie",) + tuple(c.args)
        if (c.node.get("sn") or "") == "operator=" and c.obj is not None and c.obj[0] == "tie":
            src = self.val(eng, st, c.args[0])
            if src[0] == "tup":
                for k, l in enumerate(c.obj[1:]):
                    eng.assign(st, l, src[1 + k], c.ln)
                return UNIT
        if c.name == "std::get" and c.args:
            v = self.val(eng, st, c.args[0])
            if v[0] == "tup" and str(c.node.get("ti")) in ("0", "1"):
                return v[1 + int(c.node["ti"])]
        return Text.on_call(self, eng, st, c)

    def on_exit(self, eng, st, kind, v):
        if self.impossible(st):
            return
        self.checked += 1
        if v is not None and v[0] == "cpy":
            v = v[1]
        if v is not None and isloc(v):
            v = eng.load(st, v)
        if v is None or v[0] != "tup":
            okay = False
        elif self.want is None:
            okay = self.zero(st, lin(v[2]))
        else:
            okay = self.zero(st, lin(v[1]) - lin(P) - self.want[0]) and self.zero(st, lin(v[2]) - self.want[1])
        if not okay:
            self.bad(eng, st, "the keys of a get command are not taken one after the other (%s)" % self.cmd, key="next key")


@prop("P02", "next-key", floor=8)
def next_key(ctx):
    m = ctx.m
    f = m.one(TREQ + "::next_key")
    for gaps in (1, 2):
        for trail in (0, 1, 2):
            for more in (0, 1, 2):
                k = [KEY("key%d" % i) for i in range(1 + more)]
                l = line([T("get")] + k, gaps=gaps, trail=trail)
                want = (l.of(k[1]), k[1].len()) if more else None
                r = Next(m, "%d more keys" % more, l, want, {})
                e = Engine(m, r)
                st = e.initial(f, args=[("O", "prev")], auto=frozenset())
                st.store[("O", "prev")] = ("tup", (lin(P) + l.of(k[0])).term(), k[0].len().term())
                e.run(st)
                ctx.engine(e)
                ctx.need(r.checked or e.viol, "next_key does not end")
                ctx.instance("next_key: %d more keys, gaps of %d, %d trailing blanks" % (more, gaps, trail))
