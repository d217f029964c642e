from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Unit, Server, short
from .. import gen, http

METHODS = ["GET", "POST", "PUT", "DELETE"]
SEG = st.sampled_from(["a", "ab", "b", "user", "users", "u", "v1", "%20", "x.y", "-", "~", "A", "{", "a=b", "a&b", "\xe9", "\xc3\xa9t"])
NAME = st.one_of(st.sampled_from(["id", "name", "i", "a_b", "ID"]), st.integers(1, 63).map(lambda n: "p" * n))


@st.composite
def path(draw):
    n = draw(st.integers(0, 3))
    p = "".join("/" + draw(SEG) for _ in range(n)) or draw(st.sampled_from(["", "/"]))
    if draw(st.integers(0, 9)) == 0:
        p += "/"
    if draw(st.integers(0, 19)) == 0:
        p += "/" + "s" * draw(st.sampled_from([100, 180, 200]))
    return p


@st.composite
def template(draw, known):
    p = draw(st.sampled_from(known)) if known and draw(st.booleans()) else draw(path())
    p = p.replace("{", "")
    if draw(st.integers(0, 5)) == 0 and p:
        p = p[:draw(st.integers(0, len(p)))]
    if draw(st.booleans()):
        return p + draw(st.sampled_from(["", "/", "/"])) + "{" + draw(NAME) + "}"
    return p


@st.composite
def table(draw):
    known = draw(st.lists(path(), min_size=1, max_size=4))
    n = draw(st.one_of(st.integers(0, 3), st.integers(1, 8)))
    if draw(st.integers(0, 9)):
        ts = [draw(st.sampled_from(METHODS)) + ":" + draw(template(known)) for _ in range(n)]
    else:
        # a full or nearly full table: fillers, with the routes of interest anywhere
        n = draw(gen.near(127, 128).filter(lambda v: v <= 128))
        ts = ["GET:/fill/%d" % i for i in range(n)]
        for _ in range(draw(st.integers(1, 5))):
            ts[draw(st.one_of(st.integers(0, n - 1), st.just(n - 1)))] = draw(st.sampled_from(METHODS)) + ":" + draw(template(known))
    return known, ts


@st.composite
def target(draw, known, ts):
    """A method and path near a route"""
    if ts and draw(st.integers(0, 7)):
        m, _, p = draw(st.sampled_from(ts)).partition(":")
        if "{" in p:
            p = p[:p.index("{")] + draw(st.sampled_from(["", "1", "1", "42", "a/b", "x=1&y=2", "{id}", "q" * 100, "%2e", "1", "\xe9"]))
    else:
        m, p = draw(st.sampled_from(METHODS)), draw(st.sampled_from(known))
    k = draw(st.integers(0, 14))
    if k == 0: m = draw(st.sampled_from(METHODS))
    elif k == 1: m = draw(st.sampled_from([m.lower(), m + "X", m.capitalize()]))
    elif k == 2: p = p[:-1]
    elif k == 3: p = p + draw(st.sampled_from(["/", "x", "/x"]))
    elif k == 4: p = p.upper()
    elif k == 5 and p:
        i = draw(st.integers(0, len(p) - 1))
        p = p[:i] + draw(st.sampled_from(["", "x", "//"])) + p[i + 1:]
    return m, p


FORM = st.one_of(st.just(""), st.just(""), st.sampled_from(["a=1", "a=1&b=2", "id=0", "&", "="]), gen.text(gen.NONUL, 300, (15, 16, 31, 32, 255)))


@st.composite
def case(draw):
    known, ts = draw(table())
    return [ts, [list(draw(target(known, ts))) + [draw(FORM)] for _ in range(draw(st.integers(1, 4)))], draw(st.integers(0, 5)) == 0]


def select(ts, m, p):
    """(index, form addition) of the route for the request"""
    s = m + ":" + p
    for i, t in enumerate(ts):
        if "{" in t:
            pre, _, name = t.partition("{")
            if s.startswith(pre) and len(s) > len(pre):
                return i, name[:-1] + "=" + s[len(pre):]
        elif s == t:
            return i, None
    return None, None


class Env:
    def __init__(self, ctx):
        self.u = Unit(ctx)
        self.s = Server(ctx, cap=4)
    def close(self):
        self.u.close()
        self.s.close()


class C04(Check):
    pid = "C04"
    builds = ("unit", "server")
    quick, thorough = 8000, 200000
    batch = 1000
    rule = ("One routing table and up to 4 requests near its routes per case, against the router (and, in one of 6 cases, the running server as well); "
            "non-trivial = a request that matches two routes or more, or a parametric one, or misses a route by one character.")

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        return Env(ctx)

    def run(self, e, case):
        ts, reqs, e2e = case
        e.u("routes", *[x for t in ts for x in (t, "-")])
        if e2e:
            e.s.routes([(t, "d", "-", "", "") for t in ts])
        nt, lab = False, set()
        for m, p, form in reqs:
            i, add = select(ts, m, p)
            want = form if add is None else form + ("&" if form else "") + add
            what = "routes %s, request %s:%s with form %s" % (short(ts, 900), m, short(p), short(form))
            log, out, same, f = e.u("route", m, p, form)
            r = http.parse(out.encode("latin-1"), what)
            if i is None:
                if log or r.status != 400 or r.body:
                    raise Violation("%s matches no route, but: %s, %s" % (what, short(log), short(out)))
            elif log != "H%d %s\n" % (i, want.encode("latin-1").hex()) and log.strip() != ("H%d %s" % (i, want.encode("latin-1").hex())).strip() or r.body != b'{"h":%d}\r\n' % i:
                raise Violation("%s: expected handler %d with form %s, got %s (%s)" % (what, i, short(want), short([log.split(" ")[0], bytes.fromhex(log.strip().split(" ")[1]) if " " in log.strip() else ""]), short(out, 300)))
            if same != "1":
                raise Violation("%s: method or path was changed" % what)
            if e2e and all(33 <= ord(c) < 256 and c not in "?\xa0\x85" for c in p) and len(p) < 480:
                # as a request on a connection; the form is the body
                b = form.encode("latin-1")
                ans = e.s.exchange(http.request(m, "/api" + p, ["Content-Length: %d" % len(b)] if b else [], b))
                ev = e.s.events()
                r = http.parse(ans, what)
                if i is None and (ev or r.status != 400):
                    raise Violation("%s (on the server) matches no route, but: %s, %s" % (what, short(ev), short(ans)))
                if i is not None and (len(ev) != 1 or ev[0]["h"] != i or ev[0]["f"] != want or ev[0]["p"] != p or ev[0]["m"] != m):
                    raise Violation("%s (on the server): expected handler %d with form %s, got %s, answer %s" % (what, i, short(want), short(ev), short(ans, 300)))
                lab.add("on the server")
            many = sum(select([t], m, p)[0] is not None for t in ts)
            if many > 1: lab.add("several routes match")
            if add: lab.add("parametric")
            if add and form: lab.add("parametric with form")
            lab.add("no match" if i is None else "match")
            if len(ts) >= 127: lab.add("full table")
            if i is None and any(abs(len(t) - len(m + ":" + p)) <= 1 and t[:3] == (m + ":" + p)[:3] for t in ts): lab.add("near miss")
            nt |= many > 1 or add is not None or "near miss" in lab
        return Result(sorted(lab), nt)


CHECK = C04()
