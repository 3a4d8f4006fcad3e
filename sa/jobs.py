"""Jobs handed to workers: which function each job member of a connection class holds once it is constructed."""
from engine import *
from effects import Closure
from model import AnalysisError, norm

TCP = "cybozu::tcp_socket"


class _Ctor(Rule):
    width = 200

    def __init__(self, fields):
        self.fields = fields
        self.found = {}

    def opaque(self, eng, func, name):
        return True

    def on_exit(self, eng, st, kind, v):
        for f in self.fields:
            lam = eng.lam_value(st, ("F", ("O", "this"), f))
            if lam is not None:
                self.found.setdefault(f, set()).add(lam[1])


def job_fields(m, cls):
    return [f["n"] for f in m.record(cls)["fields"] if "function<void (cybozu::dynbuf &)>" in f["t"] or f["t"].endswith("worker::job")]


_memo = {}


def jobs(m, cls):
    """{job member: set of function ids it may hold}"""
    k = (id(m), cls)
    if k in _memo:
        return _memo[k]
    fs = job_fields(m, cls)
    r = _Ctor(fs)
    for f in m.funcs.values():
        if f.ctor and f.cls == cls and f.blocks and fs:
            e = Engine(m, r)
            e.run(e.initial(f, auto=(), this_cls=cls))
    _memo[k] = r.found
    return r.found


def connection_classes(m):
    """classes derived from tcp_socket that post jobs"""
    out = []
    for c in sorted(m.derived(TCP)):
        if job_fields(m, c):
            out.append(c)
    if not out:
        raise AnalysisError("no connection class posts jobs")
    return out


def job_kind(m, cls):
    """{member: 'recv' | 'send'}"""
    cl = Closure.of(m)
    out = {}
    for fld, ids in jobs(m, cls).items():
        kinds = set()
        for fid in ids:
            r = cl.reach(fid)
            names = {m.funcs[x].sn for x in r if x in m.funcs and m.funcs[x].cls == TCP}
            if "receive" in names:
                kinds.add("recv")
            elif "write_pending_data" in names:
                kinds.add("send")
        if len(kinds) == 1:
            out[fld] = kinds.pop()
    return out
