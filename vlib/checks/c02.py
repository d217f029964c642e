from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Server, short
from .. import gen, http

SPECIAL = {"content-type", "content-length", "x-real-ip", "x-session", "authorization", "cookie"}
VCH = gen.GRAPH + gen.HIGH
SP = st.sampled_from(["", "", " ", " ", "  ", "\t", " \t "])


@st.composite
def name(draw):
    k = draw(st.integers(0, 7))
    if k == 0:
        n = draw(st.one_of(gen.near(62, 63, 64), st.integers(1, 200)))
        p = draw(st.text(gen.chars(gen.TOKEN), min_size=1, max_size=4))
        v = (p * n)[:n]
    elif k < 3:
        v = draw(st.sampled_from(["X-A", "x-a", "X-AB", "Host", "HOST", "Accept", "X", "Referer", "User-Agent", "Content-Typ", "Content-Type-X", "X-Real-IPs", "X-Real"]))
    else:
        v = draw(st.text(gen.chars(gen.TOKEN), min_size=1, max_size=12))
    return v if v.lower() not in SPECIAL else "X-" + v


@st.composite
def value(draw):
    k = draw(st.integers(0, 7))
    if k == 0:
        n = draw(st.one_of(gen.near(254, 255, 256), st.integers(0, 1500), gen.near(1000, 1023)))
        p = draw(st.text(gen.chars(VCH), min_size=1, max_size=4))
        return (p * n)[:n]
    if k == 1:
        return ""
    if k == 2:
        return draw(st.sampled_from(["a: b", "a:b:c", ":", "x; y=z", "\"q\"", "a  b", "a\tb", "GET / HTTP/1.1"]))
    return draw(st.text(gen.chars(VCH), max_size=20))


def casing(draw, n):
    k = draw(st.integers(0, 3))
    return n if k == 0 else n.lower() if k == 1 else n.upper() if k == 2 else "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(n))


@st.composite
def req(draw):
    hs = []
    n = draw(st.one_of(st.integers(0, 5), st.integers(17, 24), st.integers(0, 40))) if draw(st.integers(0, 3)) == 0 else draw(st.integers(0, 5))
    base = draw(st.lists(st.tuples(name(), value()), min_size=1, max_size=5))
    for i in range(n):
        a, v = base[i % len(base)]
        if i >= len(base):
            a, v = a + "%d" % i if i % 3 else a, v + "%d" % i
        hs.append([a, draw(SP), v, draw(SP)])
    exp = dict(ct=None, ip=None)
    if draw(st.booleans()):
        t = draw(st.sampled_from(["text/plain", "application/json", "application/x-www-form-urlencoded", "x/y", "TEXT/Html"]))
        p = draw(st.sampled_from(["", "", ";charset=utf-8", "; charset=utf-8", " ; a=b; c=d", ";"]))
        hs.insert(draw(st.integers(0, len(hs))), [casing(draw, "Content-Type"), draw(SP), t + p, draw(SP)])
        exp["ct"] = t
    if draw(st.integers(0, 2)) == 0:
        ip = draw(st.one_of(st.tuples(*[st.integers(0, 255)] * 4).map(lambda t: ".".join(map(str, t))), st.sampled_from(["::1", "2001:db8::1", "fe80::1234:5678:9abc:de", "2001:db8:1:2:3:4:5:678f"[:24], "10.0.0.1,10.0.0.2", "[::1]:8080", "unknown", "1.2.3.4:5678", "127.1"])))
        hs.insert(draw(st.integers(0, len(hs))), [casing(draw, "X-Real-IP"), draw(SP), ip, draw(SP)])
        exp["ip"] = ip
    looks = [casing(draw, h[0]) for h in hs[:3]] + [casing(draw, draw(st.sampled_from(hs))[0]) for _ in range(3) if hs] + ["X-Absent", "", "X-"]
    if hs:
        looks += [hs[-1][0], hs[-1][0][:-1], hs[-1][0] + "x"]
    peer = ".".join(str(draw(st.integers(0, 255))) for _ in range(4))
    return [draw(st.sampled_from(["GET", "POST"])), hs, exp, looks, peer, draw(st.integers(0, 24)) == 7]


def cut(line):
    """What fits in the line buffer"""
    return line[:1023]


def model(hs, look):
    out = ""
    for n, a, v, b in hs[:20]:
        if n[:63].lower() == look.lower():
            v = (a + v + b)
            return cut(n + ":" + v)[len(n) + 1:].strip(gen.SPACE)[:255]
    return ""


class C02(Check):
    pid = "C02"
    builds = ("server",)
    quick, thorough = 8000, 200000
    batch = 800
    rule = ("Up to 2 requests with a header list and lookups per case; non-trivial = a duplicate name, a name or value at its limit, over 20 headers, or a special header.")

    def strategy(self, tier):
        return st.lists(req(), min_size=1, max_size=2)

    def open(self, ctx):
        s = Server(ctx, cap=4)
        s.routes([("GET:/h", "d", "-", "", ""), ("POST:/h", "d", "-", "", "")])
        return s

    def run(self, s, case):
        lab = set()
        for m, hs, exp, looks, peer, gone in case:
            # longer names are stored cut
            names = [l[:63] for l in looks]
            s.lookups(names)
            lines = ["%s:%s%s%s" % tuple(h) for h in hs]
            what = "headers %s from %s" % (short(lines, 1500), peer)
            if gone:
                # reset while it waited for a worker: the request is there, but the peer's address is not known any more
                s.exchange(http.request(m, "/api/h", lines), "!" + peer)
                ev = s.events()
                lab.add("the client is gone")
                if ev and ev[0]["ip"] != (exp["ip"] or peer):
                    raise Violation("%s, reset before it was served: client address %s" % (what, short(ev[0]["ip"])))
                continue
            ans = s.exchange(http.request(m, "/api/h", lines), peer)
            ev = s.events()
            r = http.parse(ans, what)
            if len(ev) != 1 or r.status != 200:
                raise Violation("%s: %d handlers ran, answer %s" % (what, len(ev), short(ans)))
            e = ev[0]
            for n, got in zip(names, e["l"]):
                want = model(hs, n)
                if got is None or got.rstrip() != want.rstrip():
                    raise Violation("%s: lookup of %s gives %s, expected %s" % (what, short(n), short(got), short(want)))
            if e["nh"] != min(20, len(hs)):
                raise Violation("%s: %d headers kept" % (what, e["nh"]))
            if (e["ct"] or "") != (exp["ct"] or ""):
                raise Violation("%s: content type %s" % (what, short(e["ct"])))
            if e["ip"] != (exp["ip"] or peer):
                raise Violation("%s: client address %s" % (what, short(e["ip"])))
            low = [h[0].lower() for h in hs]
            if len(set(low)) < len(low): lab.add("duplicates")
            if len(hs) > 20: lab.add("over 20")
            if any(len(h[0]) >= 62 for h in hs): lab.add("name at the limit")
            if any(len(h[2]) >= 254 for h in hs): lab.add("value at the limit")
            if any(len(l) >= 1020 for l in lines): lab.add("line at the limit")
            if exp["ct"]: lab.add("content type")
            if exp["ip"]: lab.add("real IP")
        return Result(sorted(lab), bool(lab))


CHECK = C02()
