from hypothesis import strategies as st
import os, random, socket, ssl, time
from ..core import Check, Result, Violation, campaign_of, derive, sample
from ..procs import Server, short
from .. import http, reqs, tls, wire

# answers of more than what is on the way at once
LARGE = ["/huge.bin", "/api/huge", "/api/hugej", "/api/hugel", "/big.bin", "/api/bb"]
EXTRA_ROUTES = [("GET:/huge", "b", "-", "2500000", ""), ("GET:/hugej", "t", "-", "200 " + "[1,\n2]" * 20000, ""), ("GET:/hugel", "l", "-", "2500", ""), ("GET:/giant", "b", "-", "9000000", "")]


@st.composite
def case(draw):
    if draw(st.integers(0, 2)):
        r = draw(reqs.request())
    else:
        r = {"m": "GET", "u": draw(st.sampled_from(LARGE)) + draw(st.sampled_from(["", "?a=1"])), "h": draw(reqs.headers()), "b": draw(st.sampled_from(["", "", "", "body", "b" * 3000]))}
    return [draw(st.sampled_from(["http", "http", "tls12", "tls13"])), r, draw(wire.WIRE)]


def setup(s):
    reqs.setup(s)
    s.routes(reqs.ROUTES + EXTRA_ROUTES)
    s.put("root/www/huge.bin", random.Random(5).randbytes(3000000))
    s.put("root/www/giant.bin", random.Random(6).randbytes(9000000))
    return s


class C33(Check):
    pid = "C33"
    builds = ("server", "server_t")
    quick, thorough = 1200, 30000
    batch = 150
    rule = ("One request per case over a TCP connection, in clear or over TLS, whose client has a receive buffer from 2 to 64 KB, waits before it reads, reads in small or large steps and may send more than its request at once; "
            "non-trivial = the answer has more bytes than the receive buffer, or more than the request is sent.")
    assumptions = ["as for C31 the order number and the worker's number are masked", "what follows a request is sent together with it", "a client waits 12 s at most with nothing left to come from the server's process (the kernel gives up after some time)"]

    def strategy(self, tier):
        return case()

    def prepare(self, bins, top):
        bins["ssl"] = tls.make_cert(top + "/ssl")

    def open(self, ctx):
        return Pair(ctx)

    def campaign(self, bins, top, tier, seed, log):
        """Clients that stop for seconds in the middle of their request and in the middle of the answer"""
        cases = []
        for i, (speed, pauses) in enumerate([(1, [1.2, 6.5]), (100, [0.4, 4])] if tier == "quick" else [(1, [2, 12]), (10, [1, 12]), (100, [3, 7]), (1000, [1, 10])]):
            g = random.Random(derive(seed, 20 + i))
            urls = ["/giant.bin", "/api/giant", "/huge.bin", "/api/hugej", "/k.js", "/api/item/x"]
            cl = [[g.choice(["http", "http", "tls13", "tls12"]), urls[k % len(urls)], g.choice([4096, 65536]), g.randrange(10001), g.choice([0, 1, 5000, 400000])] for k in range(24)]
            cases.append(("24 clients that stop for %s s, clock x%d" % (pauses, speed), {"clients": cl, "pauses": pauses, "speed": speed}))
        return campaign_of(self, bins, top, tier, cases, log), dict(clients_that_stop=24 * len(cases))

    def stopping(self, e, case):
        kind = "server" if case["speed"] == 1 else "server_t"
        srv = {False: setup(Server(e.c, kind=kind, cap=40)), True: setup(Server(e.c, kind=kind, cap=40, ssl=e.c.bins["ssl"]))}
        cs = []
        try:
            for s in srv.values():
                s.cmd("O", "1")
            want = {u: reqs.norm(srv[False].exchange(http.request("GET", u))) for u in {c[1] for c in case["clients"]}}
            for s in srv.values():
                if kind == "server_t": s.cmd("K", str(case["speed"]))
            for how, u, rcv, at, first in case["clients"]:
                s = srv[how != "http"]
                c = s.inject(tcp=rcv)
                cs.append([c, b"", s])
                if how != "http":
                    cs[-1][0] = e.ctx[how].wrap_socket(c)
            for i, p in enumerate(case["pauses"]):
                for x, (how, u, rcv, at, first) in zip(cs, case["clients"]):
                    d = http.request("GET", u)
                    n = len(d) * at // 10000
                    a, b = n * i // len(case["pauses"]), n * (i + 1) // len(case["pauses"])
                    self.send(x, d[a:b])
                time.sleep(p)
            for x, (how, u, rcv, at, first) in zip(cs, case["clients"]):
                d = http.request("GET", u)
                self.send(x, d[len(d) * at // 10000:])
            for p in case["pauses"]:
                for x, (how, u, rcv, at, first) in zip(cs, case["clients"]):
                    self.read(x, len(x[1]) + first)
                time.sleep(p)
            for x, (how, u, rcv, at, first) in zip(cs, case["clients"]):
                x[0].setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
                self.read(x, 1 << 40)
                if reqs.norm(x[1]) != want[u]:
                    raise Violation("GET %s (%s, receive buffer of %d), sent with pauses of %s s (server clock x%d) and read with such pauses every %d bytes, gets %d bytes of the answer's %d: %s" %
                                    (u, how, rcv, case["pauses"], case["speed"], first, len(x[1]), len(want[u]), short(x[1], 200)))
        finally:
            for x in cs:
                x[0].close()
            for s in srv.values():
                s.close()
        return Result(["stopping"], True)

    def send(self, x, d):
        try:
            if d: x[0].sendall(d)
        except OSError:
            pass

    def read(self, x, n):
        out, k = [x[1]], len(x[1])
        while k < n:
            try:
                d = x[0].recv(min(n - k, 1 << 18))
            except socket.timeout:
                x[2].alive()
                raise Violation("no end of the answer (so far %d bytes, %s)" % (k, short(x[1], 200)), "hang")
            except OSError:
                break
            if not d:
                break
            out.append(d)
            k += len(d)
        x[1] = b"".join(out)

    def run(self, e, case):
        if isinstance(case, dict):
            return self.stopping(e, case)
        how, r, w = case
        data = reqs.render(r)
        if data is None:
            return Result(["not rendered"], False)
        want = reqs.norm(e.http.exchange(data))
        s = e.http if how == "http" else e.tls
        got = reqs.norm(wire.exchange(s, data, w, ctx=e.ctx.get(how)))
        e.http.events(), e.tls.events()
        if got != want:
            from .c20 import first
            raise Violation("%s is answered %s, but %s by %s it gets %s (first difference at byte %d of %d and %d)" % (short(data, 800), short(want, 600), wire.name(w), how, short(got, 600), first(want, got), len(want), len(got)))
        lab = {how, reqs.label(r)}
        if w[2]: lab.add("more is sent")
        for n in (2304, 65536, 1000000):
            if len(want) > n: lab.add("over %d bytes" % n)
        return Result(sorted(lab), bool(len(want) > w[0] or w[2]))


class Pair:
    def __init__(self, ctx):
        self.c = ctx
        self.http = setup(Server(ctx, cap=4))
        self.tls = setup(Server(ctx, cap=4, ssl=ctx.bins["ssl"]))
        self.ctx = {"tls12": tls.context(ssl.TLSVersion.TLSv1_2), "tls13": tls.context()}

    def close(self):
        self.http.close()
        self.tls.close()


CHECK = C33()
