"""Linear forms over abstract values: equalities and simple inequalities from branch facts (no solver)."""
from fractions import Fraction

from engine import *

MINUS1 = ("c", -1)


class Lin:
    """sum of coef*atom + const"""
    __slots__ = ("a", "k")

    def __init__(self, a=None, k=0):
        self.a = {x: c for x, c in (a or {}).items() if c}
        self.k = k

    def __add__(self, o):
        r = dict(self.a)
        for x, c in o.a.items():
            r[x] = r.get(x, 0) + c
        return Lin(r, self.k + o.k)

    def __neg__(self):
        return Lin({x: -c for x, c in self.a.items()}, -self.k)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, f):
        return Lin({x: c * f for x, c in self.a.items()}, self.k * f)

    def zero(self):
        return not self.a and self.k == 0

    def const(self):
        return None if self.a else self.k

    def __eq__(self, o):
        return self.a == o.a and self.k == o.k

    def __hash__(self):
        return hash((frozenset(self.a.items()), self.k))

    def term(self):
        """a value for the engine's store"""
        its = sorted(self.a.items(), key=lambda x: (x[0][0] != "&", repr(x[0])))
        t = None
        for x, c in its:
            if t is None:
                t = x if c == 1 else ("op", "*", x, C(int(c)))
            elif c == 1:
                t = ("op", "+", t, x)
            elif c == -1:
                t = ("op", "-", t, x)
            else:
                t = ("op", "+", t, ("op", "*", x, C(int(c))))
        if t is None:
            return C(int(self.k))
        if self.k:
            t = ("op", "+", t, C(int(self.k)))
        return t

    def show(self):
        return show(self.term())


def lin(t):
    if isloc(t):
        t = ("&", t)
    k = t[0]
    if k == "c":
        return Lin({}, t[1])
    if k == "op":
        o = t[1]
        if o in ("+", "-") and len(t) == 4:
            a, b = lin(t[2]), lin(t[3])
            return a + b if o == "+" else a - b
        if o == "*" and len(t) == 4:
            a, b = lin(t[2]), lin(t[3])
            if b.const() is not None:
                return a.scale(b.k)
            if a.const() is not None:
                return b.scale(a.k)
        if o == "neg":
            return -lin(t[2])
    if k == "&" and t[1][0] == "I":
        return lin(("&", t[1][1])) + lin(t[1][2])
    if k == "&" and t[1][0] == "D":
        return lin(t[1][1])
    return Lin({t: 1})


def equations(st, extra=()):
    """linear forms that are zero on this path"""
    eq = [e for e in extra]
    for t, f in st.facts.items():
        if isinstance(f, tuple):
            if f[0] == f[1]:
                eq.append(lin(t) - Lin({}, f[0]))
        elif f is True and t[0] == "op" and t[1] == "==":
            eq.append(lin(t[2]) - lin(t[3]))
        elif f is False and t[0] == "op" and t[1] == "<" and st.facts.get(("op", "<", t[3], t[2])) is False:
            eq.append(lin(t[2]) - lin(t[3]))
    return eq


def atoms_of(l, out):
    for x in l.a:
        out.add(x)


def inequalities(st, extra=()):
    """linear forms that are >= 0 on this path"""
    r = list(extra)
    seen = set()
    for t, f in st.facts.items():
        if isinstance(f, tuple):
            if f[0] != -INF:
                r.append(lin(t) - Lin({}, f[0]))
            if f[1] != INF:
                r.append(Lin({}, f[1]) - lin(t))
        elif t[0] == "op" and t[1] == "<":
            a, b = lin(t[2]), lin(t[3])
            r.append(b - a - Lin({}, 1) if f else a - b)
    for t, f in st.facts.items():
        if isinstance(f, tuple) and f[2]:
            # x >= k and x != k
            for k in f[2]:
                z = lin(t) - Lin({}, k)
                for y in (z, -z):
                    if any(e.a == y.a and e.k <= y.k for e in r):
                        r.append(y - Lin({}, 1))
    for e in list(r):
        atoms_of(e, seen)
    for v in st.store.values():
        if isinstance(v, tuple) and v and v[0] != "lam" and not isloc(v):
            atoms_of(lin(v), seen)
    for x in seen:
        if x[0] == "min":
            for y in x[1:]:
                r.append(lin(y) - Lin({x: 1}))
        if x[0] == "max":
            for y in x[1:]:
                r.append(Lin({x: 1}) - lin(y))
    return r


class Sys:
    """row-echelon system of equalities"""

    def __init__(self, eqs):
        self.rows = []          # (pivot, Lin with pivot coefficient 1)
        for e in eqs:
            self.add(e)

    def reduce(self, l):
        for p, row in self.rows:
            c = l.a.get(p)
            if c:
                l = l - row.scale(c)
        return l

    def add(self, e):
        e = self.reduce(e)
        if not e.a:
            return
        p = sorted(e.a, key=repr)[0]
        e = e.scale(Fraction(1) / e.a[p])
        self.rows = [(q, r - e.scale(r.a[p]) if p in r.a else r) for q, r in self.rows]
        self.rows.append((p, e))


def proves_zero(st, l, extra=()):
    if l.zero():
        return True
    return Sys(equations(st, extra)).reduce(l).zero()


def proves_ge0(st, l, eqs=(), ineqs=()):
    """l >= 0 from the path's facts: a constant, one fact, or the sum of two"""
    s = Sys(equations(st, eqs))
    l = s.reduce(l)
    if not l.a:
        return l.k >= 0
    best = {}
    for e in inequalities(st, ineqs):
        f = s.reduce(e)
        if f.a:
            k = frozenset(f.a.items())
            if k not in best or f.k < best[k].k:
                best[k] = f
    fs = list(best.values())

    def one(d):
        if not d.a:
            return d.k >= 0
        f = best.get(frozenset(d.a.items()))
        return f is not None and d.k >= f.k
    if one(l):
        return True
    for f in fs:
        d = l - f
        if len(d.a) <= len(l.a) + 2 and one(d):
            return True
    for f in fs:
        d = l - f
        if len(d.a) > len(l.a) + 1:
            continue
        for g in fs:
            e = d - g
            if len(e.a) <= len(l.a) and one(e):
                return True
    return False


def mentions(t, s):
    return subterm(t, s)


def fresh(st, name):
    """a symbol no live value mentions"""
    k = 0
    while True:
        t = ("sym", name, k)
        used = any(subterm(v, t) for v in st.store.values()) or \
            any(subterm(v, t) for f in st.frames for v in f.vals.values()) or \
            (isinstance(st.auto, (tuple, frozenset)) and any_in(st.auto, t)) or \
            any(subterm(v, t) for c, snap in st.loops.values() if snap for v in snap.values())
        if not used:
            for f in [f for f in st.facts if subterm(f, t)]:
                del st.facts[f]
            return t
        k += 1


def any_in(x, t):
    if x == t:
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(any_in(y, t) for y in x)
    if isinstance(x, Lin):
        return any(any_in(y, t) for y in x.a)
    return False


def affine_widen(eng, st, hk, base):
    """replace what changed since the loop was entered by base + coef * W, one symbol W per direction of change"""
    fr = st.top
    groups = {}
    other = []
    for l, v in list(st.store.items()):
        if l[0] not in LOC or l not in base or base[l] == v:
            if l not in base and any_sub(v, lambda x: x[0] == "W" and x[1] == hk):
                other.append(l)
            continue
        b = base[l]
        if v[0] == "lam" or b[0] == "lam":
            continue
        if v[0] in ("s", "R", "iter", "cpy", "rl", "il") or b[0] in ("s", "R", "iter", "cpy", "rl", "il") or isloc(v) or isloc(b):
            other.append(l)
            continue
        d = lin(v) - lin(b)
        if d.zero():
            st.store[l] = b
            continue
        keys = sorted(d.a, key=repr)
        f = d.a[keys[0]] if keys else d.k
        groups.setdefault(d.scale(Fraction(1) / f), []).append((l, f, b))
    rebound = []
    new = {}
    for d, mem in groups.items():
        if not any(is_ghost(l) for l, f, b in mem) and all(isconst(st.store[l]) and isconst(b) and st.store[l][1] in (0, 1) and b[1] in (0, 1) for l, f, b in mem):
            continue        # flags
        if len(mem) < 2 and not any(is_ghost(l) for l, f, b in mem):
            other.append(mem[0][0])
            continue
        mem.sort(key=lambda x: (not is_ghost(x[0]), repr(x[0])))
        f0 = min((f for l, f, b in mem), key=abs)
        if any((f / f0).denominator != 1 if isinstance(f / f0, Fraction) else False for l, f, b in mem):
            f0 = mem[0][1]
        if any((f / f0).denominator != 1 if isinstance(f / f0, Fraction) else False for l, f, b in mem):
            other += [l for l, f, b in mem]
            continue
        w = ("W", hk, mem[0][0])
        rebound.append(w)
        for l, f, b in mem:
            new[l] = (lin(b) + Lin({w: Fraction(f) / Fraction(f0)})).term()
    for l in other:
        v = st.store[l]
        w = ("unk", hk[1], hk[2], l)
        p = eng.prov(v)
        if p is not None:
            w = ("iter", p, ("w", hk[1], hk[2], l))
        if st.store[l] != w:
            rebound.append(w)
        new[l] = w
    for w in rebound:
        # values that still mean the previous binding of the symbol
        for l, v in list(st.store.items()):
            if l not in new and subterm(v, w):
                u = ("unk", "old", hk[1], hk[2], l)
                eng.drop_mention(st, u)
                new[l] = u
    st.store.update(new)
    for w in rebound:
        eng.drop_mention(st, w)
        for k in [k for k in st.loops if k != hk and any(subterm(x, w) for x in (st.loops[k][1] or {}).values())]:
            del st.loops[k]
        f = getattr(eng.rule, "on_rebind", None)
        if f:
            f(eng, st, w)


def is_ghost(l):
    return l[0] == "G" and l[1].startswith("ghost:")


def ghost(name):
    return ("G", "ghost:" + name)
