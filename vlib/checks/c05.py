from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Server, short
from .. import gen, http
from . import c04

WORDS = ["deny", "no=1", "x", "id=7", "admin"]


@st.composite
def case(draw):
    known, ts = draw(c04.table())
    ts = [t for t in ts if all(33 <= ord(c) < 256 for c in t)]
    rs = [[t, draw(st.sampled_from("d-")) if False else "d", draw(st.sampled_from("--100sfqn")), draw(st.sampled_from(WORDS))] for t in ts[:12]]
    rs += [[t, "d", "0", "x"] for t in ts[12:]]
    reqs = []
    for _ in range(draw(st.integers(1, 5))):
        m, p = draw(c04.target(known, ts))
        p = "".join(c for c in p if c not in "?\xa0\x85" and 33 <= ord(c))
        reqs.append([m, p[:470], draw(st.sampled_from([None, None, "", "deny=1", "a=x", "no=1&y", "admin"])), draw(st.sampled_from(["", "", "tok"])),
                     draw(st.sampled_from(["", "", "deny", "a=1&no=1", "id=7", "plain", "admin=0", "x"]))])
    return [rs, reqs]


class C05(Check):
    pid = "C05"
    builds = ("server",)
    quick, thorough = 6000, 150000
    batch = 800
    rule = ("One routing table with filters and up to 5 requests per case; filters accept, refuse, or decide on session, query or form (with the path parameter in "
            "it); non-trivial = a request whose route has a filter.")

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        return Server(ctx, cap=4)

    def run(self, s, case):
        rs, reqs = case
        s.routes([(t, k, f, "", w) for t, k, f, w in rs])
        ts = [r[0] for r in rs]
        lab, nt = set(), False
        for n, (m, p, q, ses, body) in enumerate(reqs):
            i, add = c04.select(ts, m, p)
            form = body if add is None else body + ("&" if body else "") + add
            hs = (["X-Session: " + ses] if ses else []) + (["Content-Length: %d" % len(body)] if body else [])
            ans = s.exchange(http.request(m, "/api" + p + ("" if q is None else "?" + q), hs, body.encode("latin-1")))
            ev = s.events()
            what = "routes %s, request %d: %s" % (short([r[:1] + r[2:] for r in rs], 900), n + 1, short(reqs[n]))
            silent = i is not None and rs[i][2] == "n"
            r = None if silent else http.parse(ans, what)
            trace = [(e["e"], e["h"]) for e in ev]
            if i is None:
                if trace or r.status != 400:
                    raise Violation("%s: no route, but %s, status %d" % (what, trace, r.status))
                lab.add("no route")
                continue
            f, w = rs[i][2], rs[i][3]
            passed = dict([("-", True), ("1", True), ("0", False), ("n", False), ("s", bool(ses)), ("f", w not in form), ("q", w not in (q or ""))])[f]
            want = ([("F", i)] if f != "-" else []) + ([("H", i)] if passed else [])
            if trace != want:
                raise Violation("%s: calls %s, expected %s" % (what, trace, want))
            for e in ev:
                for k, v in dict(m=m, p=p, q=q or "", f=form, s=ses).items():
                    if e[k] != v:
                        raise Violation("%s: %s sees %s = %s, expected %s" % (what, "filter" if e["e"] == "F" else "handler", k, short(e[k]), short(v)))
            if [e["seq"] for e in ev] != sorted(e["seq"] for e in ev):
                raise Violation("%s: the handler ran before its filter" % what)
            if silent:
                if ans:
                    raise Violation("%s: the filter refuses without an answer, but the client receives %s" % (what, short(ans)))
            elif not passed:
                exp = {"s": 401, "q": 403}.get(f, 403)
                body_ = b"" if f in "sq" else b'{"refused":true}\r\n'
                if r.status != exp or r.body != body_:
                    raise Violation("%s: refused, but the answer is %s" % (what, short(ans)))
            elif r.status != 200:
                raise Violation("%s: answer %s" % (what, short(ans)))
            lab.add("filter %s %s" % (f, "passes" if passed else "refuses"))
            nt |= f != "-"
            if f != "-" and add: lab.add("filter and parameter")
        return Result(sorted(lab), nt)


CHECK = C05()
