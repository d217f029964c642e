from hypothesis import strategies as st
import fcntl, os, random, re, shutil, socket, ssl, struct, subprocess, time
from ..core import Check, Result, Violation
from ..procs import spawn, mkdirs, tail, short
from ..build import ASAN_ENV
from .. import gen, http, tls

ADDR = ["127.0.0.1", "127.0.0.1", "127.0.0.2", "127.5.6.7", "127.100.200.250", "0.0.0.0", None]
SRC = ["127.0.0.1", "127.0.0.2", "127.0.0.21", "127.9.9.9"]
NAMES = ["index.html", "a.css", "d/index.html", "d/x.txt", "big.bin", "noext", "x-api.txt"]


@st.composite
def case(draw):
    k = draw(st.integers(0, 9))
    if k == 1 and draw(st.booleans()):
        return {"bad": draw(st.sampled_from(["no root", "port taken", "no certificate", "no key", "key of another", "address not here", "not an address", "a name"])), "order": draw(st.integers(0, 1000)), "plain": draw(st.booleans())}
    if k == 0:
        return {"opt": draw(st.sampled_from([["-v"], ["-h"], ["-z"], ["-x", "1"], ["-d", "-v"], ["-f", "-h"], ["-q"], ["-f", "-z"], ["-fv"], ["-dz"], ["--bad"], ["-p", "1", "-v"]]))}
    files = {n: draw(gen.rawbytes(40)) for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))}
    if draw(st.integers(0, 3)) == 0:
        files["big.bin"] = draw(gen.blob(900000, 400000))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        j = draw(st.integers(0, 9))
        src = draw(st.sampled_from(SRC))
        if j < 4: steps.append(["get", src, draw(st.sampled_from(NAMES + ["", "d/"]))])
        elif j < 5: steps.append(["api", src, draw(st.sampled_from(["GET", "POST", "PUT", "DELETE"]))])
        elif j < 6: steps.append(["elsewhere", draw(st.sampled_from(["127.0.0.1", "127.0.0.2", "127.0.0.3", "127.5.6.7"])), 0])
        elif j < 7: steps.append(["abort", src, 0])
        elif j < 8: steps.append(["wrong protocol", src, 0])
        else: steps.append(["hold", src, 0])
    return {"addr": draw(st.sampled_from(ADDR)), "plain": draw(st.integers(0, 2)) > 0, "debug": draw(st.booleans()), "order": draw(st.integers(0, 1000)), "files": files,
            "deny": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(SRC), max_size=2))), "allow": draw(st.one_of(st.none(), st.none(), st.none(), st.lists(st.sampled_from(SRC), min_size=1, max_size=4))),
            "limits": draw(st.sampled_from([None, None, [1, 5], [5, 1], [2, 1], [0, 0]])), "name": draw(st.sampled_from(["root", "r", "a.b", "r" * 60, "x/y/z", "/full"])), "default": draw(st.integers(0, 9)) == 0, "steps": steps, "default port": draw(st.integers(0, 15)) == 0}


class C29(Check):
    pid = "C29"
    builds = ("main",)
    quick, thorough = 1000, 20000
    batch = 100
    replays = 3
    shrink_s = 40
    rule = ("The stand-alone program is started in a scratch root with generated options, files and address rules and used over real loopback TCP from several source addresses; non-trivial = it "
            "serves, and an address rule, a limit, TLS, a bound address other than 127.0.0.1 or an abort is part of the case.")
    assumptions = ["the fixed paths /var/log, /tmp/wayuu and /etc/wayuu are mapped into the scratch folder"]

    def strategy(self, tier):
        return case()

    def prepare(self, bins, top):
        bins["ssl"] = tls.make_cert(top + "/ssl", "one")
        bins["ssl2"] = tls.make_cert(top + "/ssl2", "two")

    def open(self, ctx):
        return Env(ctx)

    def run(self, env, case):
        d = env.ctx.fresh()
        try:
            return self.in_dir(env, case, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def in_dir(self, env, case, d):
        mkdirs(d, "log", "up", "etcwayuu")
        if "opt" in case:
            return self.option(env, case["opt"], d)
        if "bad" in case:
            return self.bad(env, case, d)
        default = case["default"]
        plain = case["plain"] or default      # the certificate of the default root is not redirected
        root = d + ("/etcwayuu" if default else "/" + case["name"].lstrip("/"))
        if case["name"] == "/full" and not default:
            root += "l" * max(0, 220 - len(root))      # a long path, in shorter segments
        mkdirs(root, "", "www", "etc", "ssl", "www/d")
        os.chmod(d, 0o777)
        files = {n: gen.expand(c) for n, c in case["files"].items()}
        for n, c in files.items():
            put(root + "/www/" + n, c)
        # what another root would serve
        if not default:
            mkdirs(d, "etcwayuu/www", "etcwayuu/etc")
            put(d + "/etcwayuu/www/index.html", b"OTHER ROOT")
            put(d + "/etcwayuu/www/a.css", b"OTHER ROOT")
            put(d + "/etcwayuu/etc/deny", b"127.0.0.1\n127.0.0.2\n127.0.0.21\n127.9.9.9\n")
        cert = env.ctx.bins["ssl" if case["order"] % 2 else "ssl2"]
        for n in ("cert.pem", "key.pem"):
            put(root + "/ssl/" + n, open(cert + "/" + n, "rb").read())
        for n in ("deny", "allow"):
            if case[n] is not None:
                put(root + "/etc/" + n, "".join(a + "\n" for a in case[n]).encode())
        if case["limits"]:
            put(root + "/etc/limits", b"/,%d,%d\n" % tuple(case["limits"]))

        lock = None
        if case.get("default port"):
            lock = open(os.path.join(os.path.dirname(env.ctx.scratch), "lock4443"), "w")
            fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            return self.served(env, case, d, default, plain, root, files, cert, lock)
        finally:
            if lock:
                lock.close()

    def served(self, env, case, d, default, plain, root, files, cert, lock):
        for attempt in range(20):
            addr, port = case["addr"] or env.default_addr(self, d), free_port(env.ctx)
            if lock and not attempt and not listeners(4443):
                port = 4443
            opts = [["-p", str(port)]] if port != 4443 else []
            if not default: opts.append(["-r", root])
            if case["addr"]: opts.append(["-b", addr])
            if plain: opts.append(["-f"])
            if case["debug"]: opts.append(["-d"])
            random.Random(case["order"]).shuffle(opts)      # the same order every time
            argv = [x for o in opts for x in o]
            p, errf = self.start(env, argv, d)
            up = False
            try:
                up = self.wait_up(p, addr, port, d)
            finally:
                if not up:
                    p.kill(); p.wait(); errf.close()
            if up:
                break
            if "Unable to bind" not in tail(d + "/err") + tail(d + "/log/wayuu.log"):
                raise Violation("started with %s it does not listen on %s:%d: %s" % (argv, addr, port, tail(d + "/err", 1500)))
        else:
            raise Violation("started with %s it cannot bind to this or any of 19 other free ports: %s" % (argv, tail(d + "/err", 1500)))
        lab, nt = set(), False
        try:
            lab, nt = self.use(env, case, p, plain, addr, port, files, cert, argv, d)
        finally:
            alive = p.poll() is None
            rc = p.returncode
            p.kill()
            p.wait()
            errf.close()
        if not alive:
            raise Violation("started with %s it ends with status %s: %s" % (argv, rc, tail(d + "/err", 2500)), "crash")
        return Result(sorted(lab), nt)

    def start(self, env, argv, d):
        errf = open(d + "/err", "wb")
        e = dict(ASAN_ENV, WV_SCRATCH=d)
        return spawn([env.ctx.bins["main"]] + argv, stdin=subprocess.DEVNULL, stdout=errf, stderr=errf, env=e, cwd=d), errf

    def option(self, env, argv, d):
        p, errf = self.start(env, argv, d)
        try:
            rc = p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Violation("with the options %s the program does not end" % argv, "hang")
        errf.close()
        out = open(d + "/err", "rb").read().decode("latin-1")
        what = "options %s: status %d, output %s" % (argv, rc, short(out, 300))
        bad = any(a.startswith("-") and any(c in "zxq-" for c in a[1:]) for a in argv)
        if bad:
            if rc == 0 or rc < 0:
                raise Violation(what)
        elif any("v" in a for a in argv):
            if rc != 0 or not re.search(r"^\d+\.\d+\.\d+\s*$", out, re.M):
                raise Violation(what)
        elif rc != 0 or "USAGE" not in out.upper() or "-p" not in out or "-r" not in out:
            raise Violation(what)
        return Result(["options"], True)

    def bad(self, env, case, d):
        """Nothing to serve: the program must end with a failure and must not listen"""
        what, root, addr, port, plain = case["bad"], d + "/root", "127.0.0.1", free_port(env.ctx), case["plain"]
        mkdirs(d, "root", "root/www", "root/etc", "root/ssl")
        cert, other = env.ctx.bins["ssl"], env.ctx.bins["ssl2"]
        for n, c in (("cert.pem", cert), ("key.pem", other if what == "key of another" else cert)):
            if what != "no " + {"cert.pem": "certificate", "key.pem": "key"}[n]:
                put(root + "/ssl/" + n, open(c + "/" + n, "rb").read())
        if "key" in what or "cert" in what: plain = False
        if what == "no root": root = d + "/other"
        if what == "address not here": addr = "192.0.2.1"
        if what == "not an address": addr = "255.255.255.256"
        if what == "a name": addr = "localhost"
        s = socket.socket()
        try:
            if what == "port taken":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind((addr, port))
                s.listen(1)
            opts = [["-p", str(port)], ["-b", addr], ["-r", root]] + ([["-f"]] if plain else [])
            random.Random(case["order"]).shuffle(opts)
            argv = [x for o in opts for x in o]
            p, errf = self.start(env, argv, d)
            try:
                rc = p.wait(20)
            except subprocess.TimeoutExpired:
                raise Violation("started with %s (%s) the program goes on" % (argv, what), "hang")
            finally:
                p.kill()
                p.wait()
                errf.close()
        finally:
            s.close()
        t = tail(d + "/err", 1500)
        if rc <= 0 or "AddressSanitizer" in t or "runtime error" in t:
            raise Violation("started with %s (%s) the program ends with status %s: %s" % (argv, what, rc, t), "crash" if rc else "wrong")
        return Result(["cannot start"], True)

    def wait_up(self, p, addr, port, d):
        """Without a connection: the listening socket is looked up in /proc, so that no limit is touched"""
        end = time.time() + 30 * env_slow
        while time.time() < end and p.poll() is None:
            found = listeners(port)
            if found:
                if found != [addr]:
                    raise Violation("told to listen on %s:%d it listens on %s" % (addr, port, found))
                return True
            time.sleep(0.01)
        return False

    def use(self, env, case, p, plain, addr, port, files, cert, argv, d):
        target = addr if addr != "0.0.0.0" else "127.0.0.1"
        what = "started with %s, deny %s, allow %s, limits %s: " % ([os.path.basename(a) for a in argv], case["deny"], case["allow"], case["limits"])
        held = []
        lab, nt = {"plain" if plain else "TLS", "default root" if case["default"] else "own root"}, not plain or target != "127.0.0.1" or addr == "0.0.0.0"
        served = lambda ip: ip not in (case["deny"] or []) and (case["allow"] is None or ip in case["allow"])

        def talk(src, data, abort=False):
            c = socket.create_connection((target, port), 30, (src, 0))
            try:
                if not plain:
                    try:
                        t = env.tls[cert].wrap_socket(c, suppress_ragged_eofs=True)
                    except ssl.SSLCertVerificationError as e:
                        raise Violation(what + "the certificates of the root are not all presented: %s" % e)
                    except (ssl.SSLError, OSError):
                        return b""
                    der = ssl.PEM_cert_to_DER_cert(open(cert + "/leaf.pem").read())
                    if t.getpeercert(True) != der:
                        raise Violation(what + "the certificate is not that of the root")
                    c = t
                out = []
                try:
                    c.sendall(data)
                    if abort:
                        c.recv(10)
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        return b""
                    while True:
                        x = c.recv(1 << 18)
                        if not x:
                            break
                        out.append(x)
                except socket.timeout:
                    raise Violation(what + "no end of the answer to %s" % short(data), "hang")
                except (OSError, ssl.SSLError):
                    pass
                return b"".join(out)
            finally:
                c.close()

        def refused(src):
            if not case["limits"]:
                return False
            t, i = case["limits"]
            return len(held) >= t or sum(h[0] == src for h in held) >= i
        try:
            for kind, a, b in case["steps"]:
                if p.poll() is not None:
                    break
                if kind == "elsewhere":
                    if addr not in ("0.0.0.0", a):
                        try:
                            socket.create_connection((a, port), 5).close()
                        except OSError:
                            lab.add("not bound elsewhere")
                            continue
                        raise Violation(what + "it also listens on %s" % a)
                    continue
                if kind == "abort":
                    if served(a) and "big.bin" in files and not refused(a):
                        talk(a, http.request("GET", "/big.bin"), True)
                        lab.add("abort")
                        nt = True
                        self.quiet(case, served, refused, talk, held)
                    continue
                if kind == "hold":
                    if plain and served(a) and len(held) < 6:
                        c = socket.create_connection((target, port), 30, (a, 0))
                        r = refused(a)
                        try:
                            c.sendall(b"GET /index.html HTTP/1.1\r\nX: ")
                        except OSError:
                            pass
                        if r:
                            ans = rest(c)
                            if not ans.startswith(b"HTTP/1.1 429"):
                                raise Violation(what + "with %d held, one more from %s is answered %s" % (len(held), a, short(ans)))
                            lab.add("over the limit")
                            nt = True
                            c.close()
                        else:
                            held.append((a, c))
                            # the server has read the header so far
                            wait_read(c)
                            lab.add("held")
                    continue
                if kind == "wrong protocol":
                    if plain or not served(a):
                        continue
                    c = socket.create_connection((target, port), 30, (a, 0))
                    try:
                        c.sendall(http.request("GET", "/index.html"))
                        c.shutdown(1)
                    except OSError:
                        pass
                    ans = rest(c)
                    c.close()
                    if b"HTTP" in ans:
                        raise Violation(what + "HTTP content in clear: %s" % short(ans))
                    lab.add("plain client of TLS")
                    continue
                m, u = ("GET", "/" + b) if kind == "get" else (b, "/api/anything")
                ans = talk(a, http.request(m, u))
                msg = what + "%s %s from %s is answered %s" % (m, u, a, short(ans, 300))
                if not served(a):
                    if ans:
                        raise Violation(msg)
                    lab.add("address refused")
                    nt = True
                    continue
                r = http.parse(ans, msg)
                if refused(a):
                    if r.status != 429:
                        raise Violation(msg + " with %d held" % len(held))
                    lab.add("over the limit")
                    nt = True
                    continue
                if kind == "api":
                    if r.status != 400:
                        raise Violation(msg)
                    lab.add("api")
                    continue
                name = {"": "index.html", "d/": "d/index.html"}.get(b, b)
                if name not in files:
                    name = "index.html"
                if name in files:
                    if r.status != 200 or r.body != files[name]:
                        raise Violation(msg + ", expected the %d bytes of %s" % (len(files[name]), name))
                elif r.status != 404:
                    raise Violation(msg + ", expected 404")
                lab.add("status %d" % r.status)
                nt = nt or case["deny"] is not None or case["allow"] is not None
        finally:
            for h in held:
                h[1].close()
        return lab, nt

    def quiet(self, case, served, refused, talk, held):
        """After an abort the connection can count for a moment: wait until it does not"""
        if not case["limits"]:
            return
        end = time.time() + 20
        for src in SRC:
            if served(src) and not refused(src):
                while time.time() < end and talk(src, http.request("GET", "/")).startswith(b"HTTP/1.1 429"):
                    time.sleep(0.01)
                

def listeners(port):
    out = []
    with open("/proc/net/tcp") as f:
        for l in f:
            x = l.split()
            if len(x) > 3 and x[3] == "0A" and x[1].endswith(":%04X" % port):
                out.append(socket.inet_ntoa(struct.pack("<I", int(x[1][:8], 16))))
    return out


env_slow = 1


def rest(c):
    out = []
    try:
        while True:
            x = c.recv(65536)
            if not x:
                break
            out.append(x)
    except OSError:
        pass
    return b"".join(out)


def wait_read(c):
    """Waits until the other end's receive queue is empty"""
    me = "%08X:%04X" % (struct.unpack("<I", socket.inet_aton(c.getsockname()[0]))[0], c.getsockname()[1])
    end = time.time() + 20
    while time.time() < end:
        with open("/proc/net/tcp") as f:
            for l in f:
                x = l.split()
                if len(x) > 4 and x[2] == me:
                    if x[4].split(":")[1] == "00000000":
                        return
        time.sleep(0.001)


def put(p, c):
    with open(p, "wb") as f:
        f.write(c)
    os.chmod(p, 0o644)


def free_port(ctx):
    """Below or above the range the system hands out, and another thousand for each worker"""
    m = re.search(r"w(\d+)$", ctx.scratch)
    w = int(m.group(1)) if m else 15
    with open("/proc/sys/net/ipv4/ip_local_port_range") as f:
        high = int(f.read().split()[1]) < 61000 and w < 15
    while True:
        n = 12000 + 1000 * w + random.randrange(1000)
        if high and random.random() < .5:
            n = 61000 + 300 * w + random.randrange(300)
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("0.0.0.0", n))
            return n
        except OSError:
            pass
        finally:
            s.close()


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.tls = {c: tls.context(None, c) for c in (ctx.bins["ssl"], ctx.bins["ssl2"])}
        self.usage = None

    def default_addr(self, check, d):
        """The address the usage names"""
        if self.usage is None:
            p, f = check.start(self, ["-h"], d)
            p.wait(20)
            f.close()
            with open(d + "/err", "rb") as f:
                m = re.search(rb"-b.*?(\d+\.\d+\.\d+\.\d+)", f.read())
            self.usage = m.group(1).decode() if m else "127.0.0.1"
        return self.usage

    def close(self):
        pass


CHECK = C29()
