"""The code under test as processes: unit worker and server."""
import array, fcntl, json, os, select, signal, socket, struct, subprocess, termios, time
from .core import Violation, NOBODY, own
from .build import ASAN_ENV

SIOCOUTQ = 0x5411


def spawn(cmd, **kw):
    try:
        return subprocess.Popen(cmd, user=NOBODY, group=NOBODY, extra_groups=[], **kw)
    except (PermissionError, OSError):
        return subprocess.Popen(cmd, **kw)


def mkdirs(base, *names):
    for n in names:
        p = os.path.join(base, n)
        os.makedirs(p, exist_ok=True)
        own(p)
        os.chmod(p, 0o777)


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            s = f.read().decode("latin-1")
    except OSError:
        return ""
    for mark in ("WRONG: ", "ERROR: AddressSanitizer", "runtime error:", "HARNESS:"):
        i = s.find(mark)
        if i >= 0:
            return s[max(0, i - 200):i + n]
    return s[-n:]


class Died(Violation):
    def __init__(self, msg):
        super().__init__(msg, "crash")


def readable(c):
    """True if there is something to receive, or the end"""
    p = select.poll()
    p.register(c, select.POLLIN)
    return bool(p.poll(0))


class Unit:
    """One process that runs single functions. Strings are latin-1."""
    def __init__(self, ctx, kind="unit", timeout=20, env=None):
        self.dir = ctx.fresh()
        mkdirs(self.dir, "log", "up", "d", "root", "root/etc", "root/www")
        self.err = os.path.join(self.dir, "stderr")
        e = dict(ASAN_ENV, WV_SCRATCH=self.dir, **(env or {}))
        self.errf = open(self.err, "wb")
        self.p = spawn([ctx.bins[kind]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=e, cwd=self.dir)
        self.timeout = timeout * ctx.slow
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""

    def raw(self, *args):
        out = [struct.pack("<I", len(args))]
        for a in args:
            if a is None:
                out.append(b"\xff\xff\xff\xff")
                continue
            if isinstance(a, bool):
                a = int(a)
            if isinstance(a, int):
                a = str(a)
            if isinstance(a, str):
                a = a.encode("latin-1")
            out.append(struct.pack("<I", len(a)))
            out.append(a)
        try:
            self.p.stdin.write(b"".join(out))
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.died(args)
        n = struct.unpack("<I", self.rd(4, args))[0]
        res = []
        for _ in range(n):
            k = struct.unpack("<I", self.rd(4, args))[0]
            res.append(None if k == 0xffffffff else self.rd(k, args))
        return res

    def __call__(self, *args):
        return [None if r is None else r.decode("latin-1") for r in self.raw(*args)]

    def files(self, what):
        """No file stays open, compared to the first time"""
        n = int(self("fds")[0])
        self.open_files = getattr(self, "open_files", n)
        if n > self.open_files:
            raise Violation("%s leaves %d files open" % (what, n - self.open_files))

    def rd(self, n, args):
        end = time.time() + self.timeout
        fd = self.p.stdout.fileno()
        while len(self.buf) < n:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                raise Violation("no answer within %d s from %s" % (self.timeout, short(args)), "hang")
            d = os.read(fd, 1 << 20)
            if not d:
                self.died(args)
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def died(self, args):
        try:
            rc = self.p.wait(5)
        except subprocess.TimeoutExpired:
            rc = None
        t = tail(self.err)
        if "HARNESS:" in t:
            raise RuntimeError("harness error: " + t)
        raise Died("the process died (%s) in %s\n%s" % (rc, short(args), t))

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(0.5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.errf.close()


def short(x, n=1500):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


class Server:
    """The real server; connections are passed in over a control channel."""
    def __init__(self, ctx, kind="server", ssl=None, gate=False, cap=0, level=4, limits=None, timeout=20, setup=None, asan=""):
        self.dir = ctx.fresh()
        mkdirs(self.dir, "log", "root", "root/etc", "root/www", "root/ssl")
        self.root = os.path.join(self.dir, "root")
        self.err = os.path.join(self.dir, "stderr")
        self.timeout = timeout * ctx.slow
        if limits is not None:
            self.put("root/etc/limits", limits)
        if setup:
            setup(self)
        env = dict(ASAN_ENV, WV_SCRATCH=self.dir, WV_LEVEL=str(level), WV_CAP=str(cap))
        env["ASAN_OPTIONS"] += asan
        if gate:
            env["WV_GATE"] = "1"
        if ssl:
            env["WV_SSL"] = "1"
            for n in ("cert.pem", "key.pem"):
                with open(os.path.join(ssl, n), "rb") as f:
                    self.put("root/ssl/" + n, f.read())
        a, b = socket.socketpair()
        self.ctl = a
        self.ctl.settimeout(self.timeout)
        self.errf = open(self.err, "wb")
        env["WV_CTL"] = str(b.fileno())
        self.p = spawn([ctx.bins[kind], self.root], stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, env=env, cwd=self.dir, pass_fds=[b.fileno()])
        b.close()
        self.unacked = 0
        self.cmd("P")

    def put(self, rel, data):
        if isinstance(data, str):
            data = data.encode("latin-1")
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, 0o644)
        return p

    # -- control --
    def _rd(self, n):
        out = b""
        while len(out) < n:
            try:
                d = self.ctl.recv(n - len(out))
            except socket.timeout:
                raise Violation("the server's accept loop does not answer" + self.state(), "hang")
            except OSError:
                d = b""
            if not d:
                self.died("control channel closed")
            out += d
        return out

    def _reply(self):
        n = struct.unpack("<I", self._rd(4))[0]
        return self._rd(n)

    def sync(self):
        while self.unacked:
            self._reply()
            self.unacked -= 1

    def cmd(self, c, payload=b""):
        if isinstance(payload, str):
            payload = payload.encode("latin-1")
        self.sync()
        try:
            self.ctl.sendall(c.encode() + struct.pack("<I", len(payload)) + payload)
        except OSError:
            self.died("control channel closed")
        return self._reply()

    def inject(self, ip="10.0.0.1", wait=True, tcp=None):
        """A new client connection from ip; returns the client's end. tcp: over TCP, with a receive buffer of that size"""
        if tcp:
            from . import wire
            a, b = wire.pair(tcp)
        else:
            a, b = socket.socketpair()
        pl = ip.encode()
        try:
            socket.send_fds(self.ctl, [b"C" + struct.pack("<I", len(pl)) + pl], [b.fileno()])
        except OSError:
            self.died("control channel closed")
        b.close()
        self.unacked += 1
        if wait:
            self.sync()
        a.settimeout(self.timeout)
        return a

    def accept_error(self, errno_, wait=True):
        pl = str(errno_).encode()
        self.ctl.sendall(b"E" + struct.pack("<I", len(pl)) + pl)
        self.unacked += 1
        if wait:
            self.sync()

    def routes(self, routes):
        """routes: (template, kind, filter, param, fparam)"""
        out = [struct.pack("<I", len(routes))]
        def s(x):
            x = x.encode("latin-1")
            return struct.pack("<I", len(x)) + x
        for t, kind, flt, param, fparam in routes:
            out.append(s(t) + kind.encode() + flt.encode() + s(param) + s(fparam))
        self.cmd("R", b"".join(out))

    def lookups(self, names):
        self.cmd("N", struct.pack("<I", len(names)) + b"".join(struct.pack("<I", len(n)) + n.encode("latin-1") for n in names))

    def www(self, index, icon, root=None):
        f = [index, icon, root or self.root + "/www"]
        self.cmd("W", b"".join(struct.pack("<I", len(n)) + n.encode("latin-1") for n in f))

    def events(self):
        t = self.cmd("V").decode("latin-1")
        return [decode_dump(json.loads(l)) for l in t.splitlines()]

    def memory(self):
        return struct.unpack("<QQ", self.cmd("M"))

    def died(self, what):
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = None
        t = tail(self.err)
        if "HARNESS:" in t:
            raise RuntimeError("harness error: " + t)
        raise Died("the server died (%s), %s\n%s" % (rc, what, t))

    def state(self):
        return " [process %s]" % ("running" if self.p.poll() is None else "exited %s" % self.p.returncode)

    def alive(self):
        if self.p.poll() is not None:
            self.died("after the request")

    # -- requests --
    def exchange(self, data, ip="10.0.0.1", shut=False, wrap=None):
        """Sends data and returns all bytes of the answer up to the end of the connection."""
        c = self.inject(ip)
        try:
            return self.talk(c, data, shut)
        finally:
            c.close()

    def talk(self, c, data, shut=False):
        try:
            c.sendall(data)
            if shut:
                c.shutdown(socket.SHUT_WR)
        except socket.timeout:
            self.alive()
            raise Violation("the server does not read the request", "hang")
        except OSError:
            pass
        return self.read_all(c)

    def read_all(self, c):
        out = []
        while True:
            try:
                d = c.recv(1 << 18)
            except socket.timeout:
                self.alive()
                raise Violation("no end of the answer within %d s (so far %s)" % (self.timeout, short(b"".join(out), 300)), "hang")
            except ConnectionResetError:
                d = c_rest(c)
                if not d:
                    break
            if not d:
                break
            out.append(d)
        if self.p.poll() is not None:
            self.died("during the request")
        return b"".join(out)

    def drained(self, c, answer=False):
        """Waits until the server has read everything sent on c. With answer, False once it answers: it may then wait for us to read."""
        end = time.time() + self.timeout
        b = array.array("i", [0])
        while True:
            fcntl.ioctl(c.fileno(), SIOCOUTQ, b)
            if b[0] == 0:
                return True
            if answer and readable(c):
                return False
            if time.time() > end:
                self.alive()
                raise Violation("the server does not read the request", "hang")
            time.sleep(0.0002)

    def access_log(self):
        try:
            with open(os.path.join(self.dir, "log/wayuu-access.log"), "rb") as f:
                return f.read().decode("latin-1")
        except FileNotFoundError:
            return ""

    def clear_access_log(self):
        p = os.path.join(self.dir, "log/wayuu-access.log")
        if os.path.exists(p):
            os.truncate(p, 0)

    def close(self):
        try:
            self.ctl.close()
        except OSError:
            pass
        try:
            self.p.wait(1)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.errf.close()


def c_rest(c):
    try:
        return c.recv(1 << 18)
    except OSError:
        return b""


def unhex(h):
    return None if h is None else bytes.fromhex(h).decode("latin-1")


def decode_dump(d):
    for k in ("m", "p", "q", "rl", "u", "f", "ct", "ip", "s"):
        d[k] = unhex(d[k])
    d["l"] = [unhex(x) for x in d["l"]]
    return d
