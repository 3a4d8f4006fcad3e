"""Decision tables: a small function is explored once per region of a finite partition of its inputs (given as facts),
and its outcome on every path of every region is compared with the specified one."""
from engine import *
from model import AnalysisError


class Regions(Rule):
    """loads of the named quantities are replaced by symbols; exits are compared with the expected outcome"""
    width = 4000
    depth = 20

    def __init__(self, sources, inline=None):
        self.sources = sources      # list of (pred(eng, st, loc), symbol)
        self.results = []
        self.inline = inline

    def opaque(self, eng, func, name):
        return bool(self.inline) and not self.inline(func, name)

    def sym(self, eng, st, loc):
        for p, s in self.sources:
            if p(eng, st, loc):
                return s
        return None

    def on_call(self, eng, st, c):
        if c.cls.startswith("std::") and "atomic" in c.cls and isloc(c.obj):
            sn = c.node.get("sn") or ""
            if sn == "load" or sn.startswith("operator "):
                return self.sym(eng, st, c.obj)
        return None

    def on_exit(self, eng, st, kind, v):
        self.results.append((kind, v, st))


def assume_all(eng, st, facts):
    for t, out in facts:
        if not eng.assume(st, t, out):
            return False
    return True


def order(eng, a, b, rel):
    """facts for a rel b, rel in < = >"""
    lt, gt, e = eng.op("<", a, b), eng.op("<", b, a), eng.op("==", a, b)
    return {"<": [(lt, True)], "=": [(e, True)], ">": [(gt, True)]}[rel]


def outcome(eng, st, v):
    if isconst(v):
        return v[1] != 0
    return eng.decide(st, v)
