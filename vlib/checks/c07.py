from hypothesis import strategies as st
import json, os, random, re, socket, ssl, struct, subprocess, time
from ..core import Check, Result, Violation, canon, derive
from ..procs import Server, short, spawn, mkdirs, tail
from ..build import ASAN_ENV
from .. import gen, http, reqs, mp, tls
from . import c29

MODES = ["read", "read", "read", "half-close", "close at once", "reset", "cut", "cut and close", "slow reader", "reads a little"]


# the small server cannot have more than this at once
SHORT = 1 << 20
SMALL = [("POST:/s200", "s", "-", "200 fine", ""), ("PUT:/i/{id}", "s", "-", "200 item", ""), ("POST:/j", "j", "-", "201 {}", "")]
SIZE = st.one_of(st.integers(0, 3000), st.integers(0, 1200000), *[st.integers(-300, 300).map(lambda k, b=b: b + k) for b in (SHORT // 3, SHORT // 2, SHORT, SHORT - 600)])


@st.composite
def shortage(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        out.append([draw(st.sampled_from(["POST /api/s200", "PUT /api/i/abc", "PUT /api/i/" + "x" * 400, "POST /api/j?q=1"])), draw(st.sampled_from(["plain", "field", "file", "parts"])), draw(SIZE), draw(st.integers(0, 3))])
    return {"short": out}


@st.composite
def alone(draw):
    """Connections to the stand-alone program"""
    out = []
    for _ in range(draw(st.integers(1, 6))):
        r = draw(st.one_of(st.sampled_from([{"raw": "GET /%s HTTP/1.1\r\nHost: a\r\n\r\n" % n} for n in ("big.bin", "index.html", "none", "api/none")]), reqs.hostile()))
        out.append([r, draw(st.sampled_from(MODES + ["reset", "reads a little", "leaves in the middle", "leaves in the middle"])), draw(st.integers(0, 10000)), draw(st.booleans())])
    return {"alone": out}


@st.composite
def case(draw):
    if draw(st.integers(0, 29)) == 0:
        return draw(alone())
    if draw(st.integers(0, 39)) == 0:
        return draw(shortage())
    out = []
    for _ in range(draw(st.integers(1, 4))):
        out.append([draw(reqs.hostile()), draw(reqs.CUTS) if draw(st.booleans()) else [], draw(st.sampled_from(MODES * 2 + ["gone"])), draw(st.integers(0, 10000))])
    return {"c": out, "level": draw(st.sampled_from([4, 4, 0])), "names": draw(st.booleans())}


PING = http.request("GET", "/api/item/ping?q=1", ["Host: pinger", "X-Session: sess"])


class Program:
    """The stand-alone program, serving a few files"""
    def __init__(self, ctx, secure):
        self.d, self.secure = ctx.fresh(), secure
        self.root = self.d + "/root"
        self.timeout = 20 * ctx.slow
        mkdirs(self.d, "log", "up", "etcwayuu", "root", "root/www", "root/www/d", "root/etc", "root/ssl")
        for n, c in dict(reqs.FILES, **{"big.bin": bytes(range(256)) * 6000}).items():
            c29.put(self.root + "/www/" + n, c)
        for n in ("cert.pem", "key.pem"):
            with open(ctx.bins["ssl"] + "/" + n, "rb") as f:
                c29.put(self.root + "/ssl/" + n, f.read())
        self.tls = tls.context()
        for _ in range(20):
            self.port = c29.free_port(ctx)
            self.errf = open(self.d + "/err", "wb")
            self.p = spawn([ctx.bins["main"], "-p", str(self.port), "-r", self.root] + ([] if secure else ["-f"]), stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, env=dict(ASAN_ENV, WV_SCRATCH=self.d), cwd=self.d)
            end = time.time() + 30 * ctx.slow
            while time.time() < end and self.p.poll() is None:
                if c29.listeners(self.port):
                    self.first = self.get(b"/index.html")
                    return
                time.sleep(0.01)
            self.p.kill()
            self.p.wait()
        raise Violation("the stand-alone program does not start: %s" % tail(self.d + "/err", 1500))

    def alive(self, what):
        # what the client's leaving does shows a moment later
        if self.p.poll() is not None:
            raise Violation("%s: the program ends with status %s: %s" % (what, self.p.returncode, tail(self.d + "/err", 2500)), "crash")

    def close(self):
        self.p.kill()
        self.p.wait()
        self.errf.close()

    def connect(self, what):
        try:
            return socket.create_connection(("127.0.0.1", self.port), self.timeout)
        except OSError as e:
            time.sleep(0.1)
            self.alive(what)
            raise Violation("%s: then no connection is accepted (%s)" % (what, e))

    def client(self, data, mode, k, what):
        c = self.connect(what)
        try:
            if self.secure:
                try:
                    c = self.tls.wrap_socket(c, suppress_ragged_eofs=True)
                except (ssl.SSLError, OSError):
                    time.sleep(0.1)
                    self.alive(what)
                    raise Violation("%s: no handshake" % what)
            if mode in ("cut", "cut and close"):
                data = data[:len(data) * k // 10000]
            try:
                c.sendall(data)
                if mode in ("cut and close", "close at once"):
                    return
                if mode == "reset":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return
                if mode in ("leaves in the middle", "reads a little"):
                    c.settimeout(0.05)
                    c.recv(1 + k % 5000)
                    if mode == "leaves in the middle":
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return
                (c.shutdown if not self.secure else c.unwrap)(*([1] if not self.secure else []))
                while c.recv(1 << 16):
                    pass
            except socket.timeout:
                if mode not in ("leaves in the middle", "reads a little") and not self.secure:
                    raise Violation("%s: no end of the answer" % what, "hang")
            except (OSError, ValueError):
                pass
        finally:
            c.close()

    def get(self, path, what="the first client"):
        c = self.connect(what)
        try:
            if self.secure:
                c = self.tls.wrap_socket(c, suppress_ragged_eofs=True)
            c.sendall(b"GET " + path + b" HTTP/1.1\r\nHost: p\r\n\r\n")
            out = b""
            while True:
                x = c.recv(1 << 16)
                if not x:
                    return out
                out += x
        except OSError as e:
            time.sleep(0.1)
            self.alive(what)
            raise Violation("%s: another client is not answered (%s)" % (what, e))
        finally:
            c.close()

    def ping(self, what):
        a = self.get(b"/index.html", what)
        if a != self.first:
            self.alive(what)
            raise Violation("after %s another client of the stand-alone program is answered %s" % (what, short(a)))


class C07(Check):
    pid = "C07"
    builds = ("server", "fuzz", "main")
    quick, thorough = 6000, 200000
    batch = 600
    rule = ("Up to 4 hostile connections per case to the sanitized server, with 10 ways of sending, stalling and closing, then a well-formed request; non-trivial = a mutated or "
            "arbitrary request, or an abort. Besides, coverage-guided fuzzing (libFuzzer) of the same server in process.")
    assumptions = ["the sanitizers see a memory error when it happens; allocations above 1 GB fail"]
    soft_cap = {"quick": 200, "thorough": 3600}

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        s = reqs.setup(Server(ctx, cap=3))
        s.cmd("O", "1")
        s.ctx, s.small, s.programs, close = ctx, None, [], s.close

        def close_all():
            for x in s.programs + [s.small]:
                if x:
                    x.close()
            close()
        s.close = close_all
        s.ping = reqs.norm(s.exchange(PING))
        s.fds = s.memory()[1]
        return s

    def run(self, s, case):
        if "fuzz" in case:
            return self.fuzz_one(s, case["fuzz"])
        if "alone" in case:
            return self.alone(s, case["alone"])
        if "short" in case:
            return self.shortage(s, case["short"])
        s.cmd("S", str(case["level"]))
        lab, nt, conns = set(), False, []
        for r, cuts, mode, k in case["c"]:
            data = reqs.hostile_bytes(r)
            if data is None:
                continue
            what = "%s (%s)" % (short(data, 1500), mode)
            hostile = "raw" in r or bool(r["x"])
            lab.add("mutated" if hostile else "well-formed")
            if "parts" in r: lab.add("many short parts")
            lab.add(mode)
            nt |= hostile or mode not in ("read", "half-close")
            # "gone": the kernel no longer knows its address when it is served
            c = s.inject("!10.0.0.1" if mode == "gone" else "10.0.0.1")
            try:
                if mode in ("cut", "cut and close"):
                    data = data[:len(data) * k // 10000]
                for p in reqs.cut(data, cuts):
                    try:
                        c.sendall(p)
                    except OSError:
                        break
                if mode in ("close at once", "cut and close"):
                    continue
                if mode == "reset":
                    c.setsockopt(1, 13, b"\1\0\0\0\0\0\0\0")
                    continue
                if mode == "reads a little":
                    try:
                        c.shutdown(1)
                        c.recv(1 + k % 50)
                    except OSError:
                        pass
                    continue
                # what is not a whole request ends with the client's end of the stream
                try:
                    c.shutdown(1)
                except OSError:
                    pass
                if mode == "slow reader":
                    time.sleep(0.002)
                a = s.read_all(c)
                if a or mode != "gone" and not self.silent(data):
                    r = http.parse(a, what)
                    lab.add("status %d" % r.status)
            finally:
                c.close()
        # every connection is closed in the end
        end = time.time() + s.timeout
        while s.memory()[1] > s.fds:
            if time.time() > end:
                raise Violation("%s: a connection stays open after its client left" % short(case), "hang")
            time.sleep(0.001)
        a = s.exchange(PING)
        if reqs.norm(a) != s.ping:
            raise Violation("after %s another client is answered %s" % (short(case), short(a)))
        if case["level"] == 0:
            s.cmd("S", "4")
            for n in ("wayuu.log", "wayuu-access.log"):
                p = s.dir + "/log/" + n
                if os.path.exists(p) and os.path.getsize(p) > 20000000:
                    os.truncate(p, 0)
        return Result(sorted(lab), nt)

    def prepare(self, bins, top):
        bins["ssl"] = tls.make_cert(top + "/ssl", "one")

    def alone(self, s, conns):
        """The stand-alone program, over TCP and TLS: it goes on, whatever its clients do"""
        if not s.programs:
            s.programs = [Program(s.ctx, secure) for secure in (False, True)]
        lab = set()
        for r, mode, k, secure in conns:
            data = reqs.hostile_bytes(r)
            if data is None:
                continue
            t = s.programs[secure]
            what = "a client of the stand-alone program that sends %s (%s%s)" % (short(data, 1000), mode, ", TLS" if secure else "")
            t.client(data, mode, k, what)
            t.alive(what)
            lab.add("stand-alone" + (" TLS" if secure else ""))
        for t in s.programs:
            t.ping(short(conns))
        return Result(sorted(lab), bool(lab))

    def shortage(self, s, steps):
        """A server that can have %d bytes at a time: what is too large for it is answered, and nothing else changes""" % SHORT
        if not s.small:
            s.small = Server(s.ctx, cap=3, asan=":max_allocation_size_mb=%d" % (SHORT >> 20))
            s.small.cmd("O", "1")
            s.small.routes(SMALL)
        t, lab, nt = s.small, {"short of memory"}, False
        for line, kind, size, k in steps:
            data = bytes(range(97, 123)) * (size // 26 + 1)
            data = data[:size]
            if k == 3 and kind in ("plain", "file"):
                data = data.replace(b"a", b"\0" if kind == "file" else b"=")
            hs, body = [], data
            if kind != "plain":
                hs = ["Content-Type: multipart/form-data; boundary=bound"]
                f = b'; filename="n.txt"' if kind == "file" else b""
                part = lambda f, d: b'--bound\r\nContent-Disposition: form-data; name="a"' + f + b"\r\n\r\n" + d + b"\r\n"
                body = b"".join(part(f, data[:size // 9] if kind == "parts" else data) for _ in range(9 if kind == "parts" else 1)) + b"--bound--\r\n"
            m, u = line.split(" ")
            a = t.exchange(http.request(m, u, hs + ["Content-Length: %d" % len(body)], body))
            what = "%s %s with %d bytes (%s) where %d can be had at a time" % (m, u, len(body), kind, SHORT)
            r = http.parse(a, what)
            good = 201 if u.startswith("/api/j") else 200
            if r.status != good and (len(body) < SHORT // 10 or r.status not in (400, 413, 500, 503)):
                raise Violation("%s: answered %d" % (what, r.status))
            lab.add("%s %s" % (kind, "handled" if r.status == good else "too large"))
            nt |= r.status != good
            a = http.parse(t.exchange(http.request("POST", "/api/s200", ["Content-Length: 3"], b"a=b")), "the next client")
            if a.status != 200:
                raise Violation("after %s another client is answered %d" % (what, a.status))
        return Result(sorted(lab), nt)

    def silent(self, data):
        return b"/none" in data

    # ---- coverage-guided ----
    def seeds(self, d, seed):
        os.makedirs(d)
        g = random.Random(seed)
        base = [http.request("GET", "/api/json?a=b", ["Host: a", "Cookie: a=b; WSSESSION=xyz", "X-Session: s"]),
                http.request("POST", "/api/kv", ["Content-Length: 11", "Content-Type: text/plain; charset=x"], b"hello=world"),
                http.request("POST", "/api/err?code", ["Content-Length: 3"], b"abc"), http.request("GET", "/api/file"), http.request("GET", "/api/s?text"), http.request("GET", "/"), http.request("GET", "/d/x.png"),
                http.request("PUT", "/api/item/12", ["X-Real-IP: 1.2.3.4", "Authorization: tok", "Content-Length: 1"], b"q"), http.request("DELETE", "/api/item/a/b?x", ["Referer: http://r", "User-Agent: ua"]),
                http.request("POST", "/api/private", ["Cookie: WSSESSION=abc", "Content-Length: 2"], b"xy"), http.request("GET", "/../../etc/passwd"), http.request("GET", "/favicon.ico"), http.request("HEAD", "/")]
        parts = [["field", "a", "1", [], False, "Content-Disposition: ", None], ["file", "f", "data\0data\r\n--", ["Content-Type: x/y"], False, "Content-Disposition: ", "n.txt"], ["field", "b", "", [], True, "Content-Disposition: ", None]]
        for b, line in (("x", "Content-Type: multipart/form-data; boundary=x"), ("----WebKit12", "Content-Type: multipart/form-data; boundary=\"----WebKit12\"; a=b")):
            body = mp.render(parts, b)
            base.append(http.request("POST", "/api/kv", [line, "Content-Length: %d" % len(body)], body))
        for i, b in enumerate(base):
            with open("%s/s%d" % (d, i), "wb") as f:
                f.write(bytes([g.choice([0, 0, 1, 4])]) + b)
        with open(d + ".dict", "w") as f:
            for t in reqs.TOK + [b"boundary=x", b"/api/kv", b"/api/json", b"/api/private", b"PUT", b"DELETE", b"WSSESSION="]:
                f.write('"%s"\n' % "".join(chr(c) if 32 < c < 127 and c not in (34, 92) else "\\x%02x" % c for c in t[:200]))

    def campaign(self, bins, top, tier, seed, log):
        t0 = time.time()
        corpus = top + "/seeds"
        self.seeds(corpus, seed)
        limit = 22 if tier == "quick" else 1500
        procs = []
        for i in range(8):
            d = "%s/fz%d" % (top, i)
            os.makedirs(d)
            mkdirs(d, "", "log", "up", "root", "root/etc", "root/www", "root/www/d", "corpus", "art")
            for n, c in reqs.FILES.items():
                with open(d + "/root/www/" + n, "wb") as f:
                    f.write(c[:3000])
            env = dict(ASAN_ENV, WV_SCRATCH=d)
            env["ASAN_OPTIONS"] += ":max_allocation_size_mb=512"
            err = open(d + "/err", "wb")
            cmd = [bins["fuzz"], d + "/corpus", corpus, "-seed=%d" % (derive(seed, i) % 2**31 + 1), "-max_total_time=%d" % limit, "-max_len=%d" % (1200 if i % 2 else 5000), "-dict=%s.dict" % corpus,
                   "-artifact_prefix=%s/art/" % d, "-rss_limit_mb=0", "-malloc_limit_mb=1000000", "-timeout=40", "-print_final_stats=1", "-use_value_profile=%d" % (i % 3 == 0), "-reload=0", "-len_control=%d" % (0 if i % 4 == 0 else 30)]
            procs.append((d, spawn(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=env, cwd=d)))
        fails, runs, cov = [], 0, 0
        pending = list(procs)
        while pending:
            time.sleep(0.3)
            for d, p in list(pending):
                if p.poll() is not None:
                    pending.remove((d, p))
                    if p.returncode:
                        for _, o in pending:
                            o.terminate()
                elif time.time() > t0 + limit + 120:
                    p.kill()
        for d, p in procs:
            t = open(d + "/err", "rb").read().decode("latin-1")
            m = re.findall(r"stat::number_of_executed_units: *(\d+)", t)
            m2 = re.findall(r"#(\d+)\s", t)
            runs += int(m[-1]) if m else int(m2[-1]) if m2 else 0
            cov = max([cov] + [int(x) for x in re.findall(r"cov: (\d+)", t)])
            for a in os.listdir(d + "/art"):
                if not a.startswith(("crash", "timeout")):
                    continue
                b = open(d + "/art/" + a, "rb").read()
                b = self.reduce(bins, top, b) if len(fails) == 0 else b
                c = {"fuzz": b.decode("latin-1")}
                fails.append((len(canon(c)), c, [], "input %s: %s" % (short(b, 600), tail(d + "/err", 1500)), "hang" if a.startswith("timeout") else "crash", c))
        log("fuzzing: %d inputs, %d edges covered, %d failing" % (runs, cov, len(fails)))
        return fails, dict(fuzz_inputs=runs, fuzz_edges_covered=cov, fuzz_seconds=limit, fuzz_processes=8)

    def fails(self, bins, top, b):
        d = top + "/one"
        if not os.path.isdir(d):
            os.makedirs(d)
            mkdirs(d, "", "log", "up", "root", "root/etc", "root/www", "root/www/d")
            for n, c in reqs.FILES.items():
                with open(d + "/root/www/" + n, "wb") as f:
                    f.write(c[:3000])
        with open(d + "/in", "wb") as f:
            f.write(b)
        os.chmod(d + "/in", 0o644)
        with open(d + "/err", "wb") as e:
            env = dict(ASAN_ENV, WV_SCRATCH=d)
            env["ASAN_OPTIONS"] += ":max_allocation_size_mb=512"
            p = spawn([bins["fuzz"], "-rss_limit_mb=0", "-malloc_limit_mb=1000000", "-timeout=60", "-artifact_prefix=" + d + "/", "-runs=40", d + "/in"], stdin=subprocess.DEVNULL, stdout=e, stderr=e, env=env, cwd=d)
            try:
                rc = p.wait(100)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = -9
        return rc, tail(d + "/err", 2500)

    def reduce(self, bins, top, b):
        end, n = time.time() + 20, 8
        if not self.fails(bins, top, b)[0]:
            return b
        while n <= len(b) and time.time() < end:
            size = -(-len(b) // n)
            for i in range(0, len(b), size):
                c = b[:i] + b[i + size:]
                if time.time() > end:
                    break
                if c and self.fails(bins, top, c)[0]:
                    b = c
                    break
            else:
                if size == 1:
                    break
                n *= 2
        return b

    def fuzz_one(self, s, text):
        rc, err = self.fails(s.ctx.bins, s.dir, text.encode("latin-1"))
        if rc:
            raise Violation("a client that sends %s: %s" % (short(text[1:], 1500), err), "crash")
        return Result(["fuzz input"], True)


CHECK = C07()
