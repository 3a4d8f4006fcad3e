"""Sizes of what is stored: keys of at most 250 bytes, objects of at most max_data_size bytes."""
from check import prop
from engine import *
from affine import Lin, lin, proves_ge0
from mcbase import *
from model import AnalysisError
from rules.handlers import HandlerRule, per_command, base_cmd
from rules import requests

KEY_MAX = 250
MAX = ("sym", "max_data_size", 0)
STORES = ("SET", "ADD", "REPLACE", "APPEND", "PREPEND", "CAS", "Set", "Add", "Replace", "Append", "Prepend", "RaU")
GROWS = ("APPEND", "PREPEND", "Append", "Prepend")
LIMITED = ("SET", "ADD", "REPLACE", "Set", "Add", "Replace", "RaU")     # also look at the length of the key


class SizeLimits(HandlerRule):
    def __init__(self, *a):
        HandlerRule.__init__(self, *a)
        self.max_f = self.info.getter_field("yrmcds::config", "max_data_size")
        self.base = base_cmd(self.cmd) if self.proto == "binary" else self.cmd

    def on_load(self, eng, st, l):
        if l[0] == "F" and l[2] == self.max_f and root_of(l)[0] == "G":
            return MAX
        return None

    def opaque(self, eng, func, name):
        return (func.cls == OBJ and func.sn == "size") or HandlerRule.opaque(self, eng, func, name)

    def size(self, eng, st, obj):
        return ("call", OBJ + "::size", obj, (), eng.epoch_of(st, obj))

    def part(self, eng, st, name, k):
        cls = TREQ if self.proto == "text" else BREQ
        fld = self.info.getter_field(cls, name)
        return eng.load(st, ("F", ("F", self.cmdloc, fld), "get%d" % k))

    def entails_le(self, eng, st, t, lim):
        """entailed by the path: t <= lim"""
        return proves_ge0(st, lin(lim) - lin(t))

    def exceeds(self, eng, st, t, lim):
        goal = lin(t) - lin(lim) - Lin({}, 1)
        return proves_ge0(st, goal, (), [Lin({a: 1}, 0) for a in lin(t).a])

    def data_arg(self, f, c):
        """the length argument of an object operation that takes data"""
        p = f.params
        for k in range(len(p) - 1):
            if p[k][2] == "const char *" and p[k + 1][2] in ("unsigned long", "std::size_t", "size_t"):
                v = c.args[k + 1]
                return v
        return None

    def obj_event(self, eng, st, kind, f, obj, c):
        if kind not in ("new", "mutate"):
            return
        n = self.data_arg(f, c)
        if kind == "new":
            self.n_events += 1
            # binary keys: decided by binary-keys-bounded
            if self.proto == "text" and not self.entails_le(eng, st, self.part(eng, st, "key", 1), C(KEY_MAX)):
                self.fail(eng, st, "an object is created under a key that may be longer than %d bytes" % KEY_MAX, c.ln)
        if n is None:
            return
        if isloc(n):
            n = eng.load(st, n)
        self.n_events += 1
        if kind == "mutate" and f.sn != "set":
            t = eng.op("+", self.size(eng, st, obj), n)
        else:
            t = n
        if not self.entails_le(eng, st, t, MAX):
            self.fail(eng, st, "an object larger than max_data_size may be stored (object::%s)" % f.sn, c.ln)

    def reply_event(self, eng, st, name, final, c):
        if self.base not in STORES:
            return
        kind = self.reply_kind(name, c)
        n, obj = self.part(eng, st, "data", 1), self.cur_obj(st)
        klen = self.part(eng, st, "key", 1)
        if self.base in GROWS:
            t = None if obj is None else eng.op("+", self.size(eng, st, obj), n)
        else:
            t = n
        large = t is not None and self.exceeds(eng, st, t, MAX)
        longkey = self.base in LIMITED and self.exceeds(eng, st, klen, C(KEY_MAX))
        self.n_events += 1
        if self.proto == "binary":
            if kind == "TooLargeValue" and not large:
                self.fail(eng, st, "a value within max_data_size is refused as too large", c.ln)
            elif large and not longkey and kind != "TooLargeValue":
                self.fail(eng, st, "a value beyond max_data_size is answered with %s" % kind, c.ln)
        elif kind == "error" and not large and not longkey:
            self.fail(eng, st, "a key and value within the limits are refused", c.ln)
        elif (large or longkey) and kind != "error":
            self.fail(eng, st, "a key or value beyond the limits is answered with %s" % kind, c.ln)


@prop("P03", "stored-size-bounded", floor=20)
def stored_sizes(ctx):
    """every creation, replacement and growth of a cached object on any path of any command: linear facts of the path entail
    key <= 250 bytes and resulting size <= max_data_size; exactly what exceeds the limits is refused, with its status"""
    per_command(ctx, SizeLimits, None)


@prop("P03", "binary-keys-bounded", floor=8)
def binary_keys(ctx):
    """the parser of binary requests accepts no key beyond 250 bytes for any opcode that may store an object"""
    requests.binary_requests(ctx, [v for n, v in sorted(requests.OPCODES.items()) if base_cmd(n) in STORES + ("Increment", "Decrement")])
