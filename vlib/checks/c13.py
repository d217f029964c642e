from hypothesis import strategies as st
import time
from ..core import Check, Result, Violation, campaign_of, derive, sample
from ..procs import Server, short, readable
from .. import gen, http

PREFIX = ["/", "/api", "/api/a", "/api/a/b", "/API/A", "/api/a?q=1", "/api/c", "/x", "/x/y.html", "/api/ab"]
URLS = ["/api/a", "/api/a/b", "/api/ab", "/API/a/b?x", "/api/c", "/api/a?q=12", "/api/A/B/c", "/x", "/x/y.html", "/other", "/api/" + "l" * 300]
IPS = ["10.0.0.1", "10.0.0.2", "10.0.0.12", "127.0.0.1"]


@st.composite
def rule(draw):
    return [draw(st.sampled_from(PREFIX)), draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5, 100])), draw(st.sampled_from([0, 1, 1, 2, 2, 3, 100])), draw(st.sampled_from([None, 0, 600]))]


@st.composite
def conn(draw):
    return [draw(st.sampled_from(IPS)), draw(st.sampled_from(URLS)), draw(st.sampled_from(["hold", "hold", "half"]))]


@st.composite
def ops(draw):
    out = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 19))
        if k < 9: out.append(["open", draw(conn())])
        elif k < 12: out.append(["end", draw(st.integers(0, 30)), draw(st.sampled_from(["release", "release", "abort"]))])
        elif k < 13: out.append(["quick", draw(st.sampled_from(IPS)), draw(st.sampled_from(["/x", "/api/none", "/api/a/b", "/other"])), draw(st.sampled_from(["POST", "PATCH", "DELETE"]))] if draw(st.booleans()) else ["quick", draw(st.sampled_from(IPS)), "/api/silent", "GET"])
        elif k < 17:
            # at the same time: some end and others arrive
            out.append(["burst", draw(st.lists(conn(), min_size=1, max_size=8)), draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(["release", "release", "abort"])).map(list), max_size=4))])
        else:
            c = draw(conn())
            out.append(["burst", [c] * draw(st.integers(2, 8)), []])
    return out


@st.composite
def case(draw):
    # rules that concern no request, before and between the others
    rules = draw(st.lists(rule(), max_size=4))
    k = draw(st.sampled_from([0, 0, 0, 0, 5, 12, 15, 16, 30, 60]))
    if k:
        at = draw(st.integers(0, len(rules)))
        rules[at:at] = [["/zz%d/" % i, i % 3, i % 3, None] for i in range(k)]
    return [rules, draw(ops()), draw(st.integers(1, 1 << 30)), draw(st.sampled_from([0, 0, 50, 300]))]


def has(url, prefix):
    return url.lower().startswith(prefix.lower())


def room(rules, active, ip, url):
    """None, or the rule that refuses"""
    for p, total, by_ip, _ in rules:
        if has(url, p):
            n = [a for a in active if has(a[1], p)]
            if len(n) >= total or sum(a[0] == ip for a in n) >= by_ip:
                return [p, total, by_ip]
    return None


def fits(rules, active):
    for p, total, by_ip, _ in rules:
        n = [a for a in active if has(a[1], p)]
        if len(n) > total:
            return "%d connections under %s, %d allowed" % (len(n), p, total)
        for ip in IPS:
            k = sum(a[0] == ip for a in n)
            if k > by_ip:
                return "%d connections from %s under %s, %d allowed" % (k, ip, p, by_ip)
    return None


@st.composite
def many(draw):
    """A history with as many connections as there are workers"""
    big = st.sampled_from([60, 99, 100, 101, 120, 127, 128, 129, 140, 150, 160, 180, 300])
    rules = [[draw(st.sampled_from(["/", "/api", "/api/a"])), draw(big), draw(big), draw(st.sampled_from([None, 600]))] for _ in range(draw(st.integers(1, 3)))]
    out = []
    for _ in range(draw(st.integers(4, 7))):
        k = draw(st.integers(0, 9))
        c = draw(conn())
        if k < 5 or not out: out += [["open", c]] * draw(st.integers(30, 200))
        elif k < 7: out += [["end", draw(st.integers(0, 300)), draw(st.sampled_from(["release", "release", "abort"]))] for _ in range(draw(st.integers(10, 120)))]
        else: out.append(["burst", [draw(conn()) for _ in range(draw(st.integers(1, 3)))] * draw(st.integers(10, 60)), []])
    return [rules, out, draw(st.integers(1, 1 << 30)), draw(st.sampled_from([0, 0, 50]))]


class C13(Check):
    pid = "C13"
    builds = ("server_p",)
    quick, thorough = 3500, 100000
    batch = 300
    replays = 6
    rule = ("A history of connections that arrive (alone or up to 8 at once, held in a handler or before their header is complete), end or are aborted, against a model of the live set; "
            "non-trivial = at least one refusal and one admission under a rule.")
    assumptions = ["the client address is the peer's"]

    def strategy(self, tier):
        return case()

    def open(self, ctx, cap=32):
        s = Server(ctx, kind="server_p", cap=cap)
        s.ctx, s.most = ctx, 28
        s.routes([("GET:/silent", "n", "-", "", ""), ("GET:/{p}", "h", "-", "", "")])
        s.cmd("O", "1")
        s.put("root/www/index.html", "index")
        s.fds = s.memory()[1]
        return s

    def campaign(self, bins, top, tier, seed, log):
        """Histories in which nearly all 200 workers are busy"""
        n = 15 if tier == "quick" else 300
        hs = sample(many(), n, derive(seed, 7))
        return campaign_of(self, bins, top, tier, [("3 histories with up to 190 connections at once", {"many": hs[i:i + 3]}) for i in range(0, n, 3)], log), dict(histories_of_190_connections=n)

    def many(self, s0, histories):
        s = self.open(s0.ctx, 0)
        s.most = 190
        lab = set()
        try:
            for h in histories:
                lab |= set(self.run(s, h).labels)
        finally:
            s.close()
        return Result(sorted(lab), True)

    def limits(self, s, rules):
        s.put("root/etc/limits", "".join("%s,%d,%d%s\n" % (p, a, b, "" if t is None else ",%d" % t) for p, a, b, t in rules))
        s.cmd("L")

    def start(self, s, c, spec):
        ip, url, kind = spec
        if kind == "hold" and url.lower().startswith("/api"):
            c.sendall(http.request("GET", url))
        else:
            c.sendall(("GET %s HTTP/1.1\r\nX: " % url).encode("latin-1"))

    def outcome(self, s, c, spec):
        """True if admitted, False if answered 429"""
        ip, url, kind = spec
        what = "%s from %s" % (url[:60], ip)
        if not (kind == "hold" and url.lower().startswith("/api")):
            s.drained(c)
            if not readable(c):
                return True
            a = s.read_all(c)
        else:
            a = b""
            while not a.endswith(b"HELD\n"):
                try:
                    d = c.recv(65536)
                except ConnectionResetError:
                    d = b""
                except OSError:
                    s.alive()
                    raise Violation("%s is not answered" % what, "hang")
                if not d:
                    break
                a += d
            if a.endswith(b"HELD\n"):
                return True
        r = http.parse(a, what)
        if r.status != 429:
            raise Violation("%s is answered %s" % (what, short(a)))
        return False

    def settle(self, s, n):
        end = time.time() + s.timeout
        while s.memory()[1] > s.fds + n:
            if time.time() > end:
                raise Violation("a connection stays open after its client left", "hang")
            time.sleep(0.0005)

    def end(self, s, c, how):
        if how == "release":
            try:
                c.sendall(b"x\r\n\r\n")
                c.shutdown(1)
            except OSError:
                pass

    def run(self, s, case):
        if isinstance(case, dict):
            return self.many(s, case["many"])
        rules, history, seed, permille = case
        s.cmd("D", "%d %d" % (seed, permille))
        self.limits(s, rules)
        live = []       # [spec, socket]
        lab, refused, admitted = set(), 0, 0
        todo = lambda: [l[0][:2] for l in live]
        trace = []
        say = lambda m: "rules %s, history %s: %s" % (rules, short(trace, 1800), m)
        try:
            for op in history:
                if op[0] == "open" and len(live) < s.most:
                    spec = op[1]
                    why = room(rules, todo(), spec[0], spec[1])
                    c = s.inject(spec[0])
                    self.start(s, c, spec)
                    ok = self.outcome(s, c, spec)
                    trace.append([spec[0], spec[1][:40], "admitted" if ok else "429"])
                    if ok and why:
                        raise Violation(say("the last one is over the limit %s" % why))
                    if not ok and not why:
                        raise Violation(say("the last one is refused although there is room"))
                    if ok: live.append([spec, c])
                    else: c.close()
                    refused += not ok
                    admitted += ok and any(has(spec[1], r[0]) for r in rules)
                    lab.add("admitted" if ok else "refused")
                elif op[0] == "end" and live:
                    spec, c = live.pop(op[1] % len(live))
                    trace.append([spec[0], spec[1][:40], op[2]])
                    self.finish(s, [[c, op[2]]], len(live))
                    lab.add(op[2])
                elif op[0] == "quick":
                    ip, url, m = op[1:]
                    why = room(rules, todo(), ip, url) if m != "PATCH" else None
                    a = s.exchange(http.request(m, url), ip)
                    got = http.parse(a, url).status if a or m != "GET" else 0
                    trace.append([ip, m, url, got])
                    if (got == 429) != bool(why):
                        raise Violation(say("the last one should be %s" % ("refused" if why else "admitted")))
                    lab.add("answered at once")
                elif op[0] == "burst":
                    specs = op[1][:s.most - len(live)]
                    before = list(live)
                    ends = []
                    for k, how in op[2]:
                        if live:
                            ends.append([live.pop(k % len(live))[1], how])
                    cs = [s.inject(x[0], wait=False) for x in specs]
                    for c, x in zip(cs, specs):
                        self.start(s, c, x)
                    for c, how in ends:
                        if how == "release": self.end(s, c, how)
                        else: c.close()
                    s.sync()
                    oks = [self.outcome(s, c, x) for c, x in zip(cs, specs)]
                    trace.append([[x[0], x[1][:40], "admitted" if ok else "429"] for x, ok in zip(specs, oks)] + ["%d end" % len(ends)])
                    new = [[x, c] for x, c, ok in zip(specs, cs, oks) if ok]
                    live += new
                    bad = fits(rules, todo())
                    if bad:
                        raise Violation(say(bad))
                    most = [l[0][:2] for l in before] + [l[0][:2] for l in new]
                    for x, c, ok in zip(specs, cs, oks):
                        if not ok:
                            c.close()
                            refused += 1
                            if not room(rules, most, x[0], x[1]):
                                raise Violation(say("%s from %s is refused although there was room all the time" % (x[1][:60], x[0])))
                        else:
                            admitted += any(has(x[1], r[0]) for r in rules)
                    self.finish(s, ends, len(live))
                    lab.add("burst with ends" if ends else "burst")
            ends, live = [[l[1], "abort" if i % 2 else "release"] for i, l in enumerate(live)], []
            self.finish(s, ends, 0)
            s.cmd("D", "1 0")
            # every place is available again
            self.limits(s, [["/", 1, 1, None]])
            c = s.inject(IPS[0])
            self.start(s, c, [IPS[0], "/api/a", "hold"])
            ok = self.outcome(s, c, [IPS[0], "/api/a", "hold"])
            self.finish(s, [[c, "release"]], 0)
            if not ok:
                raise Violation(say("after all connections ended, one is refused with no other alive"))
        finally:
            for l in live:
                l[1].close()
        return Result(sorted(lab) + (["perturbed"] if permille else []), refused > 0 and admitted > 0)

    def finish(self, s, ends, left):
        for c, how in ends:
            if how == "release":
                self.end(s, c, how)
                s.read_all(c)
            c.close()
        self.settle(s, left)


CHECK = C13()
