"""Small client and server helper for the demonstrations (stdlib only)."""
import os, random, shutil, socket, struct, subprocess, sys, tempfile, time


def free_port():
    while True:
        p = random.randrange(21300, 30000)
        with socket.socket() as s:
            try:
                s.bind(("0.0.0.0", p))
                return p
            except OSError:
                pass


class Server:
    """one yrmcdsd started from the current directory, everything it writes inside a scratch directory"""

    def __init__(self, vip="127.0.0.1", **conf):
        self.tmp = tempfile.mkdtemp(prefix="yrdemo.")
        self.port, self.repl, self.cport = conf.pop("port", 0) or free_port(), conf.pop("repl_port", 0) or free_port(), free_port()
        c = {"virtual_ip": vip, "port": self.port, "repl_port": self.repl, "temp_dir": '"%s"' % self.tmp, "workers": 4,
             "buckets": 1000, "gc_interval": 3600, "counter.enable": "true", "counter.port": self.cport, "log.threshold": "info"}
        c.update({k.replace("__", "."): v for k, v in conf.items()})
        path = os.path.join(self.tmp, "conf")
        with open(path, "w") as f:
            for k, v in c.items():
                f.write("%s = %s\n" % (k, v))
        self.log = os.path.join(self.tmp, "log")
        self.p = subprocess.Popen([os.path.join(os.getcwd(), "yrmcdsd"), "-f", path], stdin=subprocess.DEVNULL,
                                  stdout=open(self.log, "w"), stderr=subprocess.STDOUT, start_new_session=True)
        if vip == "127.0.0.1":
            end = time.time() + 20
            while True:
                try:
                    socket.create_connection(("127.0.0.1", self.cport if c["counter.enable"] == "true" else self.port), 1).close()
                    break
                except OSError:
                    if time.time() > end or self.p.poll() is not None:
                        self.stop()
                        raise SystemExit("the server did not start")
                    time.sleep(0.05)
            time.sleep(0.3)

    def text(self):
        return Text(self.port)

    def binary(self):
        return Binary(self.port)

    def slave(self):
        return FakeSlave(self.repl)

    def logtext(self):
        return open(self.log).read()

    def stop(self):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


class Conn:
    def __init__(self, port, host="127.0.0.1", timeout=10):
        self.s = socket.create_connection((host, port), timeout)
        self.s.settimeout(timeout)
        self.buf = b""

    def fill(self):
        d = self.s.recv(1 << 16)
        if not d:
            raise EOFError("closed by the server")
        self.buf += d

    def need(self, n):
        while len(self.buf) < n:
            self.fill()
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def closed(self, t=2):
        """is the connection closed by the server within t seconds?"""
        self.s.settimeout(t)
        try:
            while True:
                if not self.s.recv(1 << 16):
                    return True
        except socket.timeout:
            return False
        except OSError:
            return True

    def quiet(self, t=0.5):
        """nothing arrives for t seconds"""
        if self.buf:
            return False
        self.s.settimeout(t)
        try:
            self.buf += self.s.recv(1 << 16)
            return False
        except socket.timeout:
            return True
        finally:
            self.s.settimeout(10)

    def close(self):
        self.s.close()


class Text(Conn):
    def line(self):
        while b"\r\n" not in self.buf:
            self.fill()
        l, self.buf = self.buf.split(b"\r\n", 1)
        return l.decode()

    def cmd(self, c, data=None):
        m = c.encode() + b"\r\n"
        if data is not None:
            m += (data if isinstance(data, bytes) else data.encode()) + b"\r\n"
        self.s.sendall(m)
        return self.line()

    def get(self, key, verb="get"):
        """(flags, data[, cas]) or None"""
        self.s.sendall(("%s %s\r\n" % (verb, key)).encode())
        l = self.line()
        if l == "END":
            return None
        if not l.startswith("VALUE"):
            return l
        w = l.split()
        d = self.need(int(w[3]))
        assert self.need(2) == b"\r\n"
        assert self.line() == "END"
        return (int(w[2]), d) + tuple(int(x) for x in w[4:])


OPS = dict(get=0, set=1, add=2, replace=3, delete=4, incr=5, decr=6, quit=7, flush=8, getq=9, noop=10, version=11, getk=12, getkq=13,
           append=14, prepend=15, stat=16, setq=0x11, addq=0x12, replaceq=0x13, deleteq=0x14, incrq=0x15, decrq=0x16, quitq=0x17, flushq=0x18,
           appendq=0x19, prependq=0x1a, touch=0x1c, gat=0x1d, gatq=0x1e, gatk=0x23, gatkq=0x24,
           lock=0x40, lockq=0x41, unlock=0x42, unlockq=0x43, unlockall=0x44, unlockallq=0x45, lag=0x46, lagq=0x47, lagk=0x48, lagkq=0x49,
           rau=0x4a, rauq=0x4b, keys=0x50)
OK, NOTFOUND, EXISTS, TOOLARGE, INVALID, NOTSTORED, NONNUM, LOCKED, NOTLOCKED, UNKNOWN = 0, 1, 2, 3, 4, 5, 6, 0x10, 0x11, 0x81


def req(op, key=b"", extras=b"", data=b"", cas=0, opaque=0):
    key = key.encode() if isinstance(key, str) else key
    data = data.encode() if isinstance(data, str) else data
    if isinstance(op, str):
        op = OPS[op]
    return struct.pack(">BBHBBHIIQ", 0x80, op, len(key), len(extras), 0, 0, len(key) + len(extras) + len(data), opaque, cas) + extras + key + data


def store(flags=0, exp=0):
    return struct.pack(">II", flags, exp)


def arith(delta, init=0, exp=0xffffffff):
    return struct.pack(">QQI", delta, init, exp)


class Resp:
    def __init__(self, h, body):
        self.magic, self.op, kl, el, _, self.status, n, self.opaque, self.cas = struct.unpack(">BBHBBHIIQ", h)
        self.extras, self.key, self.data = body[:el], body[el:el + kl], body[el + kl:]

    def __repr__(self):
        return "<op %#x status %#x key %r data %r cas %d opaque %d>" % (self.op, self.status, self.key, self.data[:40], self.cas, self.opaque)


class Binary(Conn):
    def send(self, *a, **k):
        self.s.sendall(req(*a, **k))

    def recv(self):
        h = self.need(24)
        return Resp(h, self.need(struct.unpack(">I", h[8:12])[0]))

    def cmd(self, *a, **k):
        self.send(*a, **k)
        return self.recv()

    def drain(self):
        """all replies to what was sent so far (a no-op marks the end)"""
        self.send("noop", opaque=0xdeadbeef)
        out = []
        while True:
            r = self.recv()
            if r.op == 10 and r.opaque == 0xdeadbeef:
                return out
            out.append(r)


class FakeSlave(Conn):
    """reads the replication stream: a sequence of binary requests"""

    def __init__(self, port):
        Conn.__init__(self, port)
        self.s.sendall(b"\0")

    def messages(self, t=1.0):
        self.s.settimeout(t)
        try:
            while True:
                self.fill()
        except (socket.timeout, EOFError, OSError):
            pass
        out = []
        while len(self.buf) >= 24:
            h = struct.unpack(">BBHBBHIIQ", self.buf[:24])
            if len(self.buf) < 24 + h[6]:
                break
            b = self.buf[24:24 + h[6]]
            self.buf = self.buf[24 + h[6]:]
            if h[0] != 0x80:
                raise AssertionError("bad magic in the replication stream: %#x" % h[0])
            ex, key, data = b[:h[3]], b[h[3]:h[3] + h[2]], b[h[3] + h[2]:]
            if h[1] != OPS["noop"]:
                out.append((h[1], key, ex, data))
        return out


def check(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)
