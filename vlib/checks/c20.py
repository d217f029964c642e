from hypothesis import strategies as st
import os, random, ssl
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Server, short
from .. import crowd, gen, http, huge, reqs, tls

GARBAGE = [b"", b"\x16\x03\x01", b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + b"r" * 300, b"\x16\x03\x01\xff\xff" + b"A" * 500, b"\x80\x2e\x01\x00\x02", b"\x15\x03\x03\x00\x02\x02\x28", b"\x16\x03\x01\x00\x05\x01\x00\x00\x01\x03", b"\x17\x03\x03\x00\x10" + b"x" * 16]


@st.composite
def case(draw):
    k = draw(st.integers(0, 9))
    r = draw(reqs.request(silent=True, big=draw(st.integers(0, 2)) == 0))
    if k < 6:
        return ["same", r, draw(st.booleans()), draw(reqs.CUTS) if draw(st.booleans()) else [], draw(st.booleans())]
    if k < 8:
        return ["plain", r, draw(st.sampled_from(["whole", "twice", "cut"])), draw(st.integers(0, 10000)), 0]
    return ["garbage", r, draw(st.integers(0, len(GARBAGE) - 1)), draw(st.binary(max_size=20)).decode("latin-1"), draw(st.sampled_from(["close", "half-close", "then plain", "hello cut"]))]


def client_hello():
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    t = tls.context().wrap_bio(i, o)
    try:
        t.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return o.read()


class C20(Check):
    pid = "C20"
    builds = ("server",)
    quick, thorough = 7000, 200000
    batch = 400
    rule = ("One request per case, sent over HTTP to one server and over TLS (1.2 or 1.3, in pieces or whole) to another, or clients that send plain HTTP, garbage or half a handshake to the "
            "TLS server, followed by a good request over TLS; non-trivial = always.")
    assumptions = ["as for C31 the order number and the worker's number are masked", "OpenSSL decrypts correctly"]

    def strategy(self, tier):
        return case()

    def prepare(self, bins, top):
        bins["ssl"] = tls.make_cert(top + "/ssl")

    def open(self, ctx):
        return Pair(ctx)

    def campaign(self, bins, top, tier, seed, log):
        """Many TLS clients at the same time, of which some leave in the middle"""
        n, rounds = (1500, 2) if tier == "quick" else (3000, 60)
        c = {"crowd": crowd.requests(60, derive(seed, 8)), "n": n, "rounds": rounds, "seed": derive(seed, 9) % (1 << 30)}
        g = random.Random(derive(seed, 10))
        sizes = [(1 << 31) + g.randrange(-200, 100000)] + ([1 << 31, (1 << 32) + g.randrange(-200, 100000), (1 << 33) + 1] if tier != "quick" else [])
        cases = [("crowd of %d requests over TLS" % (n * rounds), c)] + [("a file of %d bytes over TLS" % k, {"size": k, "seed": g.randrange(1 << 30), "new": g.randrange(2)}) for k in sizes]
        return campaign_of(self, bins, top, tier, cases, log), dict(requests_of_crowd=n * rounds, huge_files=sizes)

    def huge(self, e, case):
        """What is sent to a reader who takes one part after the other (by HTTP it is checked under C08)"""
        s = Server(e.c, cap=4, ssl=e.c.bins["ssl"])
        try:
            huge.make(s.root + "/www/a", case["size"], case["seed"])
            s.www("index.html", "favicon.ico")
            huge.fetch(s, "/a", case["size"], case["seed"], e.ctx[case["new"]])
            s.alive()
        finally:
            s.close()
            os.unlink(s.root + "/www/a")
        return Result(["huge"], True)

    def crowd(self, e, case):
        h = reqs.setup(Server(e.c, cap=16))
        t = reqs.setup(Server(e.c, cap=16, ssl=e.c.bins["ssl"]))
        try:
            items = []
            h.cmd("O", "2"), t.cmd("O", "2")
            for i, r in enumerate(case["crowd"]):
                d = reqs.render(r)
                if d is not None:
                    ip = "10.0.3.%d" % i
                    a = h.exchange(d, ip)
                    # (a client whose request is refused before it is read may not get to send all of it)
                    if not a.startswith(b"HTTP/1.1 400"): items.append((d, a, ip))
            for k in range(case["rounds"]):
                crowd.run(t, items, 24, case["n"], 100 * (k % 2), case["seed"] + k, int(t.timeout))
            # as many clients as there are workers
            t.close()
            t = reqs.setup(Server(e.c, ssl=e.c.bins["ssl"]))
            t.cmd("O", "2")
            for k in range(case["rounds"]):
                crowd.run(t, items, 220, case["n"], 100 * (k % 2), case["seed"] + k, int(t.timeout))
        finally:
            h.close()
            t.close()
        return Result(["crowd"], True)

    def run(self, e, case):
        if isinstance(case, dict):
            return self.huge(e, case) if "size" in case else self.crowd(e, case)
        kind, r, a, b, c = case
        data = reqs.render(r)
        if data is None:
            return Result(["not rendered"], False)
        lab = {kind, reqs.label(r)}
        if kind == "same":
            want = reqs.norm(e.http.exchange(data))
            s = e.tls.inject()
            notes = []
            got = reqs.norm(tls.exchange(e.tls, s, data, e.ctx[a], reqs.cut(data, b), notes=notes))
            if got != want:
                raise Violation("%s is answered %s over HTTP and %s over TLS (first difference at byte %d of %d and %d)" % (short(data, 800), short(want, 700), short(got, 700), first(want, got), len(want), len(got)))
            if notes:
                raise Violation("the answer to %s over TLS is not closed by TLS: it cannot be told from one cut short" % short(data, 800))
            lab.add("TLS 1.3" if a else "TLS 1.2")
            lab.add("status " + want[9:12].decode("latin-1") if want else "no answer")
            if len(want) > 16384: lab.add("over a TLS record")
            e.http.events(), e.tls.events()
            return Result(sorted(lab), True)
        s = e.tls.inject()
        closing = None
        if kind == "plain":
            out = data if a == "whole" else data * 2 if a == "twice" else data[:len(data) * b // 10000]
        else:
            closing = c
            out = GARBAGE[a] + b.encode("latin-1")
            if c == "then plain":
                out += data
            elif c == "hello cut":
                h = client_hello()
                out = h[:max(1, len(h) - 1 - len(b) * 7)]
        try:
            try:
                s.sendall(out)
            except OSError:
                pass
            if closing == "close":
                s.close()
                ans = b""
            else:
                try:
                    s.shutdown(1)
                except OSError:
                    pass
                ans = e.tls.read_all(s)
        finally:
            s.close()
        what = "a client that sends %s to the TLS server" % short(out, 800)
        if b"HTTP" in ans or b"html" in ans or b"Server:" in ans or any(len(c) > 3 and c[:40] in ans for c in reqs.FILES.values()):
            raise Violation("%s receives HTTP content in clear: %s" % (what, short(ans, 500)))
        ev = e.tls.events()
        if ev:
            raise Violation("%s makes a handler run: %s" % (what, short(ev[0], 500)))
        got = reqs.norm(tls.exchange(e.tls, e.tls.inject(), e.good, e.ctx[1]))
        if got != e.want:
            raise Violation("after %s, a good client receives %s" % (what, short(got, 500)))
        ev = [x for x in e.tls.events() if x["p"] != "/item/good"]
        if ev:
            raise Violation("%s makes a handler run: %s" % (what, short(ev[0], 500)))
        lab.add(str(closing or a))
        return Result(sorted(lab), True)


def first(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


class Pair:
    def __init__(self, ctx):
        self.c = ctx
        self.http = reqs.setup(Server(ctx, cap=2))
        self.tls = reqs.setup(Server(ctx, cap=4, ssl=ctx.bins["ssl"]))
        self.ctx = [tls.context(ssl.TLSVersion.TLSv1_2, ctx.bins["ssl"]), tls.context(None, ctx.bins["ssl"])]
        self.good = http.request("GET", "/api/item/good")
        self.want = reqs.norm(self.http.exchange(self.good))

    def close(self):
        self.http.close()
        self.tls.close()


CHECK = C20()
