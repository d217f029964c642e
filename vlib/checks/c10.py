from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Server, short
from .. import gen, http, mp


@st.composite
def case(draw):
    ps = draw(mp.parts(nameless=draw(st.sampled_from([0, 0, 2]))))
    if draw(st.integers(0, 9)) == 0 and ps:
        ps = (ps * 60)[:draw(st.integers(20, 60))]
        ps = [p[:2] + [p[2] if isinstance(p[2], str) and len(p[2]) < 100 else "v%d" % i] + p[3:] for i, p in enumerate(ps)]
    bd = draw(mp.boundary())
    mp.nearly(draw, ps, bd[0])
    return [bd, ps, draw(st.sampled_from(["", "", "", "preamble\r\n", "\r\n"])), draw(st.sampled_from(["\r\n", "\r\n", "", "\r\nepilogue"])),
            draw(st.sampled_from(["POST", "POST", "PUT"])), draw(st.booleans())]


class C10(Check):
    pid = "C10"
    builds = ("server",)
    quick, thorough = 8000, 200000
    batch = 800
    rule = ("One multipart request per case (preceded by that of the case before on the same server); non-trivial = two parts or more, a file part, or a value with line breaks "
            "or header-like text.")
    assumptions = ["field values are NUL free, since handlers see them in a C string", "name is the first parameter of Content-Disposition and filename the next",
                   "no part contains the delimiter"]

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        s = Server(ctx, cap=2)
        s.routes([("POST:/u", "d", "-", "", ""), ("PUT:/u", "d", "-", "", "")])
        return s

    def run(self, s, case):
        (b, ct), ps, pre, post, m, first = case
        body = mp.render(ps, b, pre, post)
        if body is None or ("--" + b) in pre:
            return Result(["not well-formed"], False)
        hs = [ct, "Content-Length: %d" % len(body)]
        ans = s.exchange(http.request(m, "/api/u", hs if first else hs[::-1], body))
        ev = s.events()
        what = "%s, parts %s" % (ct, short([[p[0], p[1], p[2], p[6]] for p in ps], 1200))
        r = http.parse(ans, what)
        if len(ev) != 1 or r.status != 200:
            raise Violation("%s: %d handlers ran, answer %s" % (what, len(ev), short(ans)))
        want, sums = mp.form(ps)
        got = mp.mask(ev[0]["f"])
        if got != want:
            raise Violation("%s: the form is %s (%d bytes), expected %s (%d bytes)" % (what, short(got), len(got), short(want), len(want)))
        lab = []
        if any(p[0] == "none" for p in ps): lab.append("part without a name")
        if " " in b: lab.append("space in the boundary")
        nf = sum(p[0] == "file" for p in ps)
        if nf: lab.append("file part")
        if nf and nf < len(ps): lab.append("file and field parts")
        if len(ps) > 1: lab.append("several parts")
        if len(ps) > 15: lab.append("over 15 parts")
        tricky = any(p[0] == "field" and isinstance(p[2], str) and ("\r\n" in p[2] or "name=" in p[2]) for p in ps)
        if tricky: lab.append("line breaks or header text in a value")
        if len(b) >= 68: lab.append("boundary at the limit")
        if '"' in ct: lab.append("quoted boundary")
        if not ps: lab.append("no part")
        return Result(lab, bool(nf or tricky or len(ps) > 1))


CHECK = C10()
