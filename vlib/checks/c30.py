from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Server, short
from .. import gen, http

M = ["GET", "POST", "PUT", "DELETE"]
MCH = gen.GRAPH + gen.HIGH


@st.composite
def method(draw):
    k = draw(st.integers(0, 7))
    if k < 2:
        return draw(st.sampled_from(M))
    if k == 2:
        m = draw(st.sampled_from(M))
        return "".join(draw(st.sampled_from([c.upper(), c.lower()])) for c in m)
    if k == 3:
        return draw(st.sampled_from(M)) + draw(st.one_of(st.text(gen.chars(MCH), min_size=1, max_size=4), st.sampled_from(["S", "X", "GET", "1"]), st.integers(200, 400).map(lambda n: "x" * n)))
    if k == 4:
        m = draw(st.sampled_from(M))
        i = draw(st.integers(0, len(m) - 1))
        return m[:i] + draw(st.sampled_from(["", m[i] * 2, "X", "-"])) + m[i + 1:]
    if k == 5:
        return draw(st.sampled_from(["HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "PROPFIND", "", "G", "GE", "PU", "POS", "DELET", "XGET", "-GET", "\xe9GET", "\0GET", "*", "GET/index.html"]))
    if k == 6:
        return "X" * draw(st.one_of(gen.near(253, 254, 255, 256), st.integers(1, 900)))
    return draw(st.text(gen.chars(MCH), min_size=1, max_size=8))


URL = st.one_of(st.sampled_from(["/api/x", "/API/x", "/Api/x", "/aPi/x", "/api", "/api/", "/API", "/api/x?q=1", "/api?x", "/API/secret.txt", "/api/secret.txt"]),
                st.sampled_from(["/secret.txt", "/", "/index.html", "/sub/", "/none", "/ap", "/apx", "/ap/i", "/favicon.ico", "//api/x", "/secret.txt?/api/x", "/x/api/x", "/a"]))


class C30(Check):
    pid = "C30"
    builds = ("server",)
    quick, thorough = 8000, 200000
    batch = 1000
    rule = "Up to 4 requests per case; non-trivial = a method other than the four in upper case, or a method other than GET outside /api, or /api in other letters."
    assumptions = ["paths that begin with /api but not with /api/ are taken for API paths or not: only that they never give static content under /api/ is checked"]

    def strategy(self, tier):
        return st.lists(st.tuples(method(), URL, st.sampled_from(["", "", "data", None])).map(list), min_size=1, max_size=4)

    def open(self, ctx):
        s = Server(ctx, cap=4)
        for n in ("secret.txt", "index.html", "favicon.ico", "sub/index.html", "api/secret.txt", "API/secret.txt", "api/x", "API/x", "api/index.html"):
            s.put("root/www/" + n, "STATIC " + n)
        s.routes([("%s%s" % (m, p), "d", "-", "", "") for m in M + ["get", "Get", "POSTX", "GETS", "HEAD", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "G", "XGET", ""] for p in (":/x", ":", ":/")])
        return s

    def run(self, s, case):
        lab, nt = set(), False
        for m, u, body in case:
            hs = ["Content-Length: %d" % len(body)] if body else ["Content-Length: 0"] if body is None else []
            body = body or ""
            ans = s.exchange(http.request(m, u, hs, body.encode()))
            ev = s.events()
            what = "%s %s" % (short(m, 400), u)
            r = http.parse(ans, what)
            allowed = m.lower().startswith(("get", "post", "put", "delete"))
            api = u.lower().startswith("/api")
            static = b"STATIC" in ans
            if not allowed or not api and m.lower() != "get":
                if r.status != 400 or ev or static:
                    raise Violation("%s: answered %s, handlers %s" % (what, short(ans), [e["h"] for e in ev]))
                lab.add("method refused" if not allowed else "write outside the API refused")
                nt = True
            elif api and (static or ev and r.status != 200):
                raise Violation("%s: answered %s" % (what, short(ans)))
            elif api and m in M and u.lower().startswith("/api/x") and not ev:
                raise Violation("%s: no handler ran, answered %s" % (what, short(ans)))
            elif not api and m == "GET" and not static:
                raise Violation("%s: answered %s" % (what, short(ans)))
            elif not api and ev:
                raise Violation("%s: handler ran" % what)
            else:
                lab.add("API" if api else "static")
            nt |= api and not u.startswith("/api") or m not in M
        return Result(sorted(lab), nt)


CHECK = C30()
