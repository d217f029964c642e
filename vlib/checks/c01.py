import hashlib, json, random
from hypothesis import strategies as st
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Server, short, decode_dump
from .. import gen, http

PCH = [c for c in gen.GRAPH + gen.HIGH if c != "?"]
SEG = st.one_of(st.text(gen.chars(gen.ALNUM), min_size=1, max_size=8), st.text(st.sampled_from(PCH), min_size=1, max_size=8), st.sampled_from(["%20", "..", ".", "a+b", "#x", "{id}", "api"]))


@st.composite
def url(draw):
    """path after /api, query or None"""
    p = "".join("/" + draw(SEG) for _ in range(draw(st.integers(1, 3))))
    k = draw(st.integers(0, 7))
    q = None
    if k < 4:
        q = draw(st.one_of(st.text(gen.chars(gen.GRAPH + gen.HIGH), max_size=20), st.sampled_from(["", "?", "a=1&b=2", "a=b?c=d", "??x", "q=/api/z?y"])))
    elif k == 7:
        # at the limit of 511 bytes, with the cut in the path or in the query
        total = draw(st.integers(505, 520) if draw(st.integers(0, 3)) else st.integers(490, 900))
        room = total - 4 - len(p)
        if draw(st.booleans()):
            q = draw(st.text(gen.chars(gen.ALNUM + "&=?"), min_size=1, max_size=4))
            q = (q * room)[:max(0, room - 1)]
        else:
            p = p + "/" + (draw(st.text(gen.chars(gen.ALNUM), min_size=1, max_size=4)) * room)[:max(0, room - 1)]
    return [p, q]


@st.composite
def body(draw):
    k = draw(st.integers(0, 9))
    if k < 2:
        return ""
    if k < 7:
        return draw(gen.text(gen.NONUL, 300, (255, 256)))
    return draw(gen.blob(draw(st.sampled_from([2000, 2000, 10000, 100000 if k == 9 else 5000])), 1023, 1024, 4096, 8192, 65536, nul=False))


WRAPS = [1 << 32, 1 << 31, 1 << 33, 1 << 16, 1 << 64, 1 << 63, 3 << 32, 1 << 24]
CLHDR = st.tuples(st.sampled_from(["Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"]), st.sampled_from([": ", ":", ":  ", ":\t"]), st.sampled_from(["", "", " ", "\t"]), st.sampled_from(["", "", "", "00"])).map(list)
FILL = st.sampled_from(["Host: x", "Accept: */*", "X-A: b", "Content-Lengths: 9", "X-Content-Length: 3", "Content-Len: 4", "Content-Type: text/plain", "Content-Type: application/x-www-form-urlencoded",
                        "User-Agent: a", "Connection: close", "X-Long: " + "v" * 980, "X-Longer: " + "v" * 1100, "X-L: " + "v" * 1018 + "Content-Length: 1", "X-L: " + "v" * 1017 + "\tContent-Length: 0", "X-L: " + "v" * 1019 + "content-length:2", "Empty:", "X-B: Content-Length: 77"])


@st.composite
def req(draw):
    b = draw(body())
    n = len(gen.expand(b))
    hs = draw(st.lists(FILL, max_size=4)) * draw(st.sampled_from([1, 1, 1, 1, 9]))
    cl = draw(CLHDR) if n or draw(st.integers(0, 3)) == 0 else None
    at = draw(st.integers(0, len(hs))) if draw(st.booleans()) else len(hs)
    return [draw(st.sampled_from(["GET", "POST", "PUT", "DELETE"])), draw(url()), draw(st.sampled_from(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])), hs, cl, at, b,
            draw(st.sampled_from(["full", "full", "full", "full", "full", "trailing", "cut", "wrap"])), draw(st.integers(0, 999))]


def build(r):
    m, (p, q), v, hs, cl, at, b, mode, k = r
    b = gen.expand(b)
    u = "/api" + p + ("" if q is None else "?" + q)
    hs = list(hs)
    wrap = mode == "wrap" and bool(cl)
    if cl:
        # more than is sent, but the same number once it is cut to an integer of 16, 32 or 64 bits
        hs.insert(min(at, len(hs)), cl[0] + cl[1] + cl[3] + str(len(b) + (WRAPS[k % len(WRAPS)] if wrap else 0)) + cl[2])
    sent = b
    if mode == "cut" and b:
        sent = b[:len(b) * k // 1000]
    elif mode == "trailing":
        sent = b + b"GET /api/other HTTP/1.1\r\n\r\n"
    return u, http.request(m, u, hs, sent, v), b, mode == "cut" and bool(b) or wrap


class C01(Check):
    pid = "C01"
    builds = ("server",)
    quick, thorough = 8000, 200000
    batch = 800
    rule = ("Up to 3 API requests one after another per case, each compared field by field with what the handler recorded; non-trivial = a body, a query, or a URL "
            "at the limit.")
    assumptions = ["bodies are NUL free, since handlers see them as C strings", "request lines of over 1023 bytes only occur with URLs that are refused anyway"]

    def strategy(self, tier):
        return st.lists(req(), min_size=1, max_size=3)

    def open(self, ctx):
        s = Server(ctx, cap=4)
        s.ctx = ctx
        return s

    def campaign(self, bins, top, tier, seed, log):
        """Large bodies"""
        g = random.Random(derive(seed, 5))
        sizes = [g.randrange(1 << 20, 1 << 22), (1 << 24) + g.randrange(1 << 22)] + ([(1 << 28) + g.randrange(1 << 24)] if tier != "quick" else [])
        return campaign_of(self, bins, top, tier, [("a body of %d bytes" % n, {"big": n, "s": g.randrange(1 << 16), "m": g.choice(["POST", "PUT"])}) for n in sizes], log), dict(large_bodies=sizes)

    def big(self, s0, c):
        n, g = c["big"], random.Random(c["s"])
        s = Server(s0.ctx, cap=2, timeout=20 + n // 1000000, asan=":max_allocation_size_mb=4000")
        what = "%s /api/u with a body of %d bytes" % (c["m"], n)
        try:
            s.routes([(c["m"] + ":/u", "D", "-", "", "")])
            block, m, k = g.randbytes(1 << 20).replace(b"\0", b"0"), hashlib.sha256(), n
            sock = s.inject()
            try:
                sock.sendall(http.request(c["m"], "/api/u", ["Content-Length: %d" % n]))
                while k:
                    d = block[k % 1000:][:k]
                    m.update(d)
                    sock.sendall(d)
                    k -= len(d)
            except OSError:
                pass
            a = s.read_all(sock)
            sock.close()
            r = http.parse(a, what)
            want = '{"n":%d,"sha":"%s"}' % (n, m.hexdigest())
            if r.status != 200 or http.json_body(r, what) not in (want, want.encode()):
                raise Violation("%s: the handler answers what it got, %s; it should be %s" % (what, short(a, 500), want))
        finally:
            s.close()
        return Result(["large"], True)

    def run(self, s, case):
        if isinstance(case, dict):
            return self.big(s, case)
        lab, nt = set(), False
        routes = {}
        for r in case:
            m, (p, q) = r[0], r[1]
            t = m + ":" + p
            add = ""
            if "{" in t or len(t) > 200:
                k = min(t.index("{") if "{" in t else 999, 200, len(t) - 1)
                t, add = t[:k] + "{wild}", "wild=" + t[k:]
            routes[json.dumps(r)] = (t, add)
        s.routes([(t, "d", "-", "", "") for t, _ in dict.fromkeys(routes.values())])
        names = [t for t, _ in dict.fromkeys(routes.values())]
        for r in case:
            m, (p, q) = r[0], r[1]
            u, data, body, cut = build(r)
            ans = s.exchange(data, shut=cut)
            ev = s.events()
            what = "%s %s %s, headers %s, %d body bytes%s" % (m, short(u, 700), r[2], short(r[3][:6], 300), len(body), ", cut short" if cut else "")
            rsp = http.parse(ans, what)
            if len(u) > 511:
                if ev or rsp.status != 400:
                    raise Violation("%s: a URL of %d bytes is answered %d, handler saw %s" % (what, len(u), rsp.status, short(ev)))
                lab.add("URL too long")
                nt = True
                continue
            if cut:
                if ev or rsp.status in (200, 201):
                    raise Violation("%s: answered %d, handler saw %s" % (what, rsp.status, short(ev)))
                lab.add("cut body" if r[7] == "cut" else "announced length wraps")
                nt = True
                continue
            if len(ev) != 1:
                raise Violation("%s: %d handlers ran; answer %s" % (what, len(ev), short(ans)))
            e = ev[0]
            t, add = routes[json.dumps(r)]
            # an earlier parametric route may match as well
            from .c04 import select
            i, add = select(names, m, p)
            form = body.decode("latin-1")
            if add:
                form += ("&" if form else "") + add
            want = dict(m=m, p=p, q=q or "", rl="%s %s %s" % (m, u, r[2]), u=u, f=form, h=i)
            for k, v in want.items():
                if e[k] != v:
                    raise Violation("%s: handler sees %s = %s (%d bytes), expected %s (%d bytes)" % (what, dict(m="method", p="path", q="query", rl="request line", u="URL", f="body", h="route")[k],
                                    short(e[k], 400), len(str(e[k])), short(v, 400), len(str(v))))
            d = decode_dump(json.loads(http.json_body(rsp, what)))
            if rsp.status != 200 or d["f"] != form or d["p"] != p:
                raise Violation("%s: response %s" % (what, short(ans)))
            if body: lab.add("body")
            if len(body) > 1023: lab.add("body over 1023")
            if q is not None: lab.add("query")
            if len(u) >= 505: lab.add("URL at the limit")
            if len(r[3]) > 20: lab.add("over 20 headers")
            if r[7] == "trailing": lab.add("trailing bytes")
            nt |= bool(body) or q is not None or len(u) >= 505
        return Result(sorted(lab), nt)


CHECK = C01()
