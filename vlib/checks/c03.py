from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Server, short
from .. import gen, http

SP = st.sampled_from(["", " ", " ", "  ", "\t"])
CH = gen.GRAPH.replace(";", "").replace(",", "")


@st.composite
def token(draw, alphabet=CH):
    k = draw(st.integers(0, 4))
    if k == 0:
        n = draw(st.one_of(gen.near(62, 63, 64), st.integers(1, 300)))
        p = draw(st.text(gen.chars(gen.ALNUM), min_size=1, max_size=4))
        return (p * n)[:n]
    if k == 1:
        return draw(st.sampled_from(["Bearer abc", "a", "0", "x=y", "WSSESSION=z", "X-Session:", "Basic Zm9vOmJhcg=="])).replace(" " if alphabet == CHC else "\0", "")
    return draw(st.text(gen.chars(alphabet), min_size=1, max_size=20))


CHC = gen.GRAPH.replace(";", "").replace(",", "").replace("\"", "")
NOISE = st.sampled_from(["Host: x", "X-Session-Id: nope", "X-Sessions: nope", "Authorizations: nope", "X-Authorization: nope", "Proxy-Authorization: nope", "Set-Cookie: WSSESSION=nope",
                         "Cookies: WSSESSION=nope", "X-Cookie: WSSESSION=nope", "Referer: X-Session: nope", "X: y", "WSSESSION: nope", "X-A: WSSESSION=nope", "A: " + "X-Session: nope " * 20,
                         "L: " + "x" * 1018 + "X-Session: nope", "L: " + "x" * 1020 + "X-Session: nope", "L: " + "x" * 1021 + "\tX-Session: nope", "Y: " + "x" * 2044 + "Cookie: WSSESSION=nope"])


@st.composite
def cookie(draw):
    """(header line, session)"""
    cs = []
    for _ in range(draw(st.integers(0, 2))):
        cs.append(draw(st.sampled_from(["a=b", "XWSSESSION=nope", "WSSESSIONX=nope", "a=WSSESSION", "WSSESSION", "sid=123", "x=WSSESSION=nope", "WS=1", "wssession=nope", "WsSession=nope", "WSSESSION:nope", "WSSESSION =nope"[:9] + "-2=nope", "b=" + "c" * 200, "a=b WSSESSION=nope", "a=b,WSSESSION=nope", "a=\"WSSESSION=nope\"", "a=b, WSSESSION=nope", "a=b\tWSSESSION=nope"])))
    val = None
    if draw(st.integers(0, 4)):
        val = draw(token(CHC))
        cs.insert(draw(st.integers(0, len(cs))), "WSSESSION=" + val)
    line = draw(st.sampled_from(["Cookie", "Cookie", "cookie", "COOKIE"])) + ":" + draw(SP)
    for i, c in enumerate(cs):
        line += c + draw(st.sampled_from(["", "", " "])) + (";" + draw(SP) if i < len(cs) - 1 or draw(st.integers(0, 3)) == 0 else "")
    return [line, val if val is not None and len(val) < 64 else ""]


@st.composite
def req(draw):
    hs, last = [], None
    for _ in range(draw(st.integers(0, 3))):
        hs.append([draw(NOISE), None])
    if draw(st.integers(0, 7)) == 0:
        hs += [["N%d: v" % i, None] for i in range(22)]
    ck = draw(cookie()) if draw(st.booleans()) else None
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        v = draw(token())
        n = draw(st.sampled_from(["X-Session", "Authorization", "x-session", "AUTHORIZATION", "X-SESSION"]))
        hs.insert(draw(st.integers(0, len(hs))), [n + ":" + draw(SP) + v + draw(SP), v])
    if ck:
        hs.insert(draw(st.integers(0, len(hs))), [ck[0], ""])
    for l, v in hs:
        if v:
            last = v
    s = last[:63] if last is not None else ck[1] if ck else ""
    return [draw(st.sampled_from(["api", "api", "static", "direct", "missing"])), [h[0] for h in hs], s]


class C03(Check):
    pid = "C03"
    builds = ("server",)
    quick, thorough = 7000, 180000
    batch = 700
    rule = ("Up to 4 requests one after another on one server per case, with session, cookie and look-alike headers; non-trivial = a session or cookie header in at "
            "least one request.")
    assumptions = ["X-Session and Authorization values are not empty, and at most one WSSESSION cookie is sent in one Cookie header"]

    def strategy(self, tier):
        return st.lists(req(), min_size=1, max_size=4)

    def open(self, ctx):
        s = Server(ctx, cap=2)
        s.put("root/www/f.txt", "static\nfile")
        s.routes([("GET:/h", "d", "-", "", ""), ("GET:/f", "f", "-", s.root + "/www/f.txt", "")])
        return s

    def run(self, s, case):
        lab, nt = set(), False
        for i, (kind, hs, want) in enumerate(case):
            url = dict(api="/api/h", static="/f.txt", direct="/api/f", missing="/none")[kind]
            ans = s.exchange(http.request("GET", url, hs))
            ev = s.events()
            what = "request %d of %d, %s with headers %s" % (i + 1, len(case), url, short(hs, 1500))
            r = http.parse(ans, what)
            if kind in ("api", "direct"):
                if len(ev) != 1 or r.status != 200:
                    raise Violation("%s: %d handlers ran, answer %s" % (what, len(ev), short(ans)))
                if ev[0]["s"].rstrip() != want.rstrip():
                    raise Violation("%s: session %s, expected %s" % (what, short(ev[0]["s"]), short(want)))
                want = ev[0]["s"]
            if kind in ("static", "direct"):
                if r.status != 200 or r.body != b"static\nfile":
                    raise Violation("%s: answer %s" % (what, short(ans)))
                x, c = r.get("X-Session"), r.get("Set-Cookie")
                if want and ((x or "").rstrip() != want.rstrip() or (c or "").rstrip() != "WSSESSION=" + want.rstrip()) or not want and (x is not None or c is not None):
                    raise Violation("%s: expected an echo of session %s, got X-Session %s, Set-Cookie %s" % (what, short(want), short(x), short(c)))
            elif r.get("X-Session") is not None or r.get("Set-Cookie") is not None:
                raise Violation("%s: session headers in %s" % (what, short(ans)))
            ck = any(h.lower().startswith("cookie:") for h in hs)
            tk = any(h.lower().startswith(("x-session:", "authorization:")) for h in hs)
            nt |= ck or tk
            lab |= {kind} | {"cookie only" if ck and not tk else "header and cookie" if ck else "header" if tk else "none"}
            if len(want) >= 62: lab.add("at the limit")
            if ck and not tk and not want: lab.add("cookie without a session")
        return Result(sorted(lab), nt)


CHECK = C03()
