from hypothesis import strategies as st
import os, ssl, time
from ..core import Check, Result, Violation, Ctx, run_seq, canon, derive
from ..procs import Server, short
from .. import crowd, gen, http, reqs, tls
from .c07 import MODES
from .c20 import GARBAGE, client_hello


@st.composite
def step(draw):
    k = draw(st.integers(0, 11))
    if k < 5:
        return ["ok", draw(reqs.request(big=draw(st.integers(0, 5)) == 0)), 0]
    if k < 10:
        return [draw(st.sampled_from(MODES)), draw(reqs.hostile(big=draw(st.integers(0, 5)) == 0)), draw(st.integers(0, 10000))]
    if k < 11:
        return [draw(st.sampled_from(["denied", "gone"])), None, draw(st.integers(0, 1))]
    return ["over the limit", None, draw(st.integers(0, 1))]


@st.composite
def case(draw):
    tlsmode = draw(st.integers(0, 4)) == 0
    steps = draw(st.lists(step(), min_size=1, max_size=6))
    if tlsmode:
        for s in steps:
            if draw(st.integers(0, 2)) == 0:
                s[:] = ["no handshake", None, draw(st.integers(0, len(GARBAGE)))]
    if not tlsmode and draw(st.integers(0, 149)) == 0:
        return [[["crowd", None, draw(st.integers(-1, 12))]] + steps[:1], tlsmode, 4]
    return [steps, tlsmode, draw(st.sampled_from([4, 4, 4, 0]))]


class C17(Check):
    pid = "C17"
    builds = ("server",)
    quick, thorough = 4000, 80000
    batch = 300
    replays = 4
    rule = ("A history of up to 6 connections of all kinds (answered, malformed, aborted at any point, refused by address or by limit, over TLS or not), repeated until the bytes allocated no longer grow, "
            "at most 12 times: growth in every repetition is a leak. Non-trivial = an abort, refusal or malformed request is part of it.")
    assumptions = ["a leak is one that occurs every time the history is repeated"]

    def strategy(self, tier):
        return case()

    def prepare(self, bins, top):
        bins["ssl"] = tls.make_cert(top + "/ssl")

    def open(self, ctx):
        return Env(ctx)

    def campaign(self, bins, top, tier, seed, log):
        """Many clients at the same time, of which some leave in the middle"""
        n = 1500 if tier == "quick" else 20000
        c = {"crowd": crowd.requests(60, derive(seed, 8)), "n": n, "seed": derive(seed, 9) % (1 << 30)}
        ctx = Ctx(bins, os.path.join(top, "crowd"), tier)
        os.makedirs(ctx.scratch)
        os.chmod(ctx.scratch, 0o755)
        v = run_seq(self, ctx, [c])
        log("memory after crowds of %d requests: %s" % (n, "failing" if v else "ok"))
        return ([(len(canon(c)), c, [], str(v), v.kind, c)] if v else []), dict(requests_per_crowd=n)

    def crowd(self, env, case):
        s = reqs.setup(Server(env.c, cap=16, limits="/never,5,0\n/,100,100\n"))
        try:
            s.cmd("O", "2")
            fds = s.memory()[1]
            items = []
            for r in case["crowd"]:
                d = reqs.render(r)
                if d is not None:
                    items.append((d, s.exchange(d, "10.0.3.1"), "10.0.3.1"))
            low, grown = None, []
            for k in range(14):
                crowd.run(s, items, 24, case["n"], 200, case["seed"] + k, int(s.timeout))
                end = time.time() + s.timeout
                while s.memory()[1] > fds:
                    if time.time() > end:
                        raise Violation("%d descriptors stay open after a crowd of clients left, some in the middle of a request" % (s.memory()[1] - fds))
                    time.sleep(0.001)
                time.sleep(0.02)
                now = s.memory()[0]
                if low is not None and now <= low:
                    return Result(["crowd"], True)
                if low is not None: grown.append(now - low)
                low = now
            raise Violation("with each crowd of %d connections, some ended by the client in the middle, memory in use grows, by %s bytes" % (case["n"], grown))
        finally:
            s.close()

    def run(self, env, case):
        if isinstance(case, dict):
            return self.crowd(env, case)
        steps, tlsmode, level = case
        s = env.get(tlsmode)
        s.cmd("S", str(level))
        ready = []
        for kind, r, k in steps:
            data = b""
            if r is not None:
                data = reqs.hostile_bytes(r) if kind != "ok" else reqs.render(r)
            if data is not None:
                ready.append((kind, data, k))
        self.round(s, env, ready, tlsmode)
        last = self.settled(s, s.low)
        grown = []
        for i in range(12):
            self.round(s, env, ready, tlsmode)
            now = self.settled(s, last)
            if now <= last:
                break
            grown.append(now - last)
            last = now
        what = "%s%s" % ("over TLS, " if tlsmode else "", short([(k, d[:200], a) for k, d, a in ready], 2000))
        if len(grown) == 12:
            raise Violation("each time these connections are made, memory in use grows, by %s bytes: %s" % (grown, what))
        s.low = last
        # nothing counts against a limit any more
        q = http.request("GET", "/api/s200")
        a = tls.exchange(s, s.inject(), q, env.ctx) if tlsmode else s.exchange(q)
        if not a.startswith(b"HTTP/1.1 200"):
            raise Violation("after %s, with a limit of 3 in total, the next connection receives %s" % (what, short(a, 300)))
        self.settled(s, 0, once=True)
        if level == 0 or s.k % 50 == 0:
            env.trim(s)
        s.k += 1
        kinds = {k for k, _, _ in ready}
        lab = kinds | {"TLS" if tlsmode else "HTTP"} | {"settled after %d" % len(grown)}
        return Result(sorted(lab), bool(kinds - {"ok", "read"}))

    def settled(self, s, target, once=False):
        """Bytes in use when all connections are closed"""
        end = time.time() + s.timeout
        stop, low = None, None
        while True:
            b, fds = s.memory()
            if fds <= s.fds:
                if once: return b
                low = b if low is None else min(low, b)
                if low <= target: return low
                if stop is None: stop = time.time() + 0.03
                if time.time() > stop: return low
            elif time.time() > end:
                raise Violation("%d descriptors stay open after all clients left" % (fds - s.fds), "wrong")
            time.sleep(0.0005)

    def round(self, s, env, ready, tlsmode):
        for kind, data, k in ready:
            if kind == "crowd":
                # both workers are held, so that the queue (of 1024) fills, and what comes then is dropped
                cs = []
                try:
                    for i in range(2 + 1024 + k):
                        c = s.inject(wait=i < 2)
                        cs.append(c)
                        if i < 2: c.sendall(b"GET /a")
                        if s.unacked > 200: s.sync()
                    s.sync()
                finally:
                    for c in cs: c.close()
                # as long as the queue is full, whoever comes next is dropped as well
                self.settled(s, 0, once=True)
                continue
            if kind == "denied":
                c = s.inject("10.9.9.9")
                s.read_all(c)
                c.close()
                continue
            if kind == "gone":
                # reset before it was served: the kernel no longer knows its address
                c = s.inject("!10.0.0.1")
                if k: s.read_all(c)
                c.close()
                continue
            if kind == "over the limit":
                q = http.request("GET", "/api/full" if k else "/api/limited")
                a = tls.exchange(s, s.inject(), q, env.ctx) if tlsmode else s.exchange(q)
                if not a.startswith(b"HTTP/1.1 429"):
                    raise Violation("with a limit of 0, the answer is %s" % short(a, 300))
                continue
            if kind == "no handshake":
                c = s.inject()
                try:
                    c.sendall(GARBAGE[k] if k < len(GARBAGE) else client_hello())
                except OSError:
                    pass
                c.close()
                continue
            c = s.inject()
            if kind in ("cut", "cut and close"):
                data = data[:len(data) * k // 10000]
            if tlsmode:
                if kind in ("close at once", "reset", "cut and close", "reads a little"):
                    try:
                        t = env.ctx.wrap_socket(c, suppress_ragged_eofs=True)
                        t.sendall(data)
                        if kind == "reads a little":
                            t.shutdown(1)
                            t.recv(1 + k % 50)
                        t.close()
                    except (ssl.SSLError, OSError):
                        pass
                    c.close()
                else:
                    tls.exchange(s, c, data, env.ctx, half=True)
                continue
            try:
                try:
                    c.sendall(data)
                except OSError:
                    pass
                if kind in ("close at once", "reset", "cut and close"):
                    continue
                try:
                    c.shutdown(1)
                    if kind == "reads a little":
                        c.recv(1 + k % 50)
                        continue
                except OSError:
                    pass
                s.read_all(c)
            finally:
                c.close()


class Env:
    def __init__(self, ctx):
        self.c, self.s = ctx, {}
        self.ctx = tls.context()

    def get(self, t):
        if t not in self.s:
            s = reqs.setup(Server(self.c, cap=2, ssl=self.c.bins["ssl"] if t else None, limits="/api/full,5,0\n/api/limited,0,5\n/,3,3\n"))
            s.cmd("O", "1")
            s.put("root/etc/deny", "10.9.9.9\n")
            s.fds, s.low, s.k = s.memory()[1], 0, 0
            # what libraries allocate once per thread
            for _ in range(12):
                q = http.request("GET", "/api/s200")
                tls.exchange(s, s.inject(), q, self.ctx) if t else s.exchange(q)
            self.s[t] = s
        return self.s[t]

    def trim(self, s):
        import os
        for n in ("wayuu.log", "wayuu-access.log"):
            p = s.dir + "/log/" + n
            if os.path.exists(p) and os.path.getsize(p) > 5000000:
                os.truncate(p, 0)
        for n in os.listdir(s.dir + "/up"):
            os.unlink(s.dir + "/up/" + n)

    def close(self):
        for s in self.s.values():
            s.close()


CHECK = C17()
