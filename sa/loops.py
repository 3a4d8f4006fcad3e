"""For-each obligations: every element of a container is handled before the function returns.

Works on what the loop does, not on its shape: 'open' when the path learns that an
element is left (it != end, i < size), 'complete' when it learns that none is.
Iterator loops, index loops, range-for, erase loops and std::for_each look alike."""
from engine import *


def size_base(t):
    """container whose size() the term is"""
    if isinstance(t, tuple) and t and t[0] == "call" and t[1].rsplit("::", 1)[-1] == "size" and t[2] is not None:
        return t[2]
    return None


def end_base(t):
    if isinstance(t, tuple) and t and t[0] == "R":
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("end", "cend"):
        return t[2] if t[2] is not None else (t[3][0] if t[3] and isloc(t[3][0]) else None)
    return None


def progress(eng, t, out):
    """(base, 'open' | 'complete') or None for one branch fact"""
    while t[0] == "not":
        t, out = t[1], not out
    if t[0] != "op":
        return None
    if t[1] == "==":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            e = end_base(b)
            if e is not None and eng.prov(a) == e:
                return e, "complete" if out else "open"
        if size_base(t[2]) is not None and t[3] == ZERO:
            return size_base(t[2]), "complete" if out else None
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if size_base(b) is not None and not isconst(a):
                return size_base(b), "complete" if out else "open"
    if t[1] == "<" and size_base(t[3]) is not None:
        return size_base(t[3]), "open" if out else "complete"
    return None


class ForEach(Rule):
    """auto: frozenset of (spec index, 'open' | 'done' | 'complete')"""
    width = 400

    def __init__(self, specs):
        # spec: dict(name, base=pred(loc), event=fn(eng, st, call)->bool, optional handled=fn(...)); event gets calls made while open
        self.specs = specs
        self.n = 0

    def get(self, st, k):
        for i, v in st.auto:
            if i == k:
                return v
        return "start"

    def put(self, st, k, v):
        st.auto = frozenset([x for x in st.auto if x[0] != k] + [(k, v)])

    def on_branch(self, eng, st, t, out, ln):
        r = progress(eng, t, out)
        if r is None or r[1] is None:
            return
        for k, s in enumerate(self.specs):
            if not s["base"](r[0]):
                continue
            cur = self.get(st, k)
            if cur == "complete" and r[1] == "complete":
                continue
            if cur == "open":
                self.n += 1
                eng.violation(st, "%s: an element is passed over" % s["name"], ln, key="%s: element passed over" % s["name"])
            self.put(st, k, r[1])

    def element_of(self, eng, st, v, s):
        """does the value denote (part of) an element of the container?"""
        return any_sub(v, lambda t: s["base"](t))

    def on_call(self, eng, st, c):
        for k, s in enumerate(self.specs):
            if s["event"](eng, st, c):
                self.n += 1
                if self.get(st, k) in ("open",):
                    self.put(st, k, "done")
        return self.call(eng, st, c)

    def call(self, eng, st, c):
        return None

    def on_exit(self, eng, st, kind, v):
        if kind != "return":
            return
        for k, s in enumerate(self.specs):
            cur = self.get(st, k)
            self.n += 1
            if cur == "open":
                eng.violation(st, "%s: returns before the element was handled" % s["name"], key="%s: last element unhandled" % s["name"])
            elif cur != "complete" and not (s.get("optional") and s["optional"](eng, st)):
                eng.violation(st, "%s: returns before all elements were handled" % s["name"], key="%s: incomplete" % s["name"])
