from hypothesis import strategies as st
import select, socket, time
from ..core import Check, Result, Violation, campaign_of, derive, sample
from ..procs import Server, short
from .. import gen, http

PREFIX = ["/", "/api", "/api/h", "/API/W", "/api/b", "/big", "/x", "/api/h?q=1", "/api/hh"]
PATHS = {"half": ["/api/h", "/x", "/big.bin", "/other", "/api/h?q=12", "/API/W/1", "/api/nowhere"],
         "trickle": ["/api/h", "/x", "/API/b", "/other"],
         "body": ["/api/d", "/api/d?x", "/API/d"],
         "handler": ["/api/w", "/Api/w?a", "/API/w"],
         "hold": ["/api/h", "/APi/h", "/api/h?q=1", "/api/h?q=2"],
         "no reader": ["/big.bin", "/api/b", "/API/b?x"]}
IPS = ["10.0.0.1", "10.0.0.2"]
BIG = 3000000
SLACK = 2.0         # real seconds
RDHUP = getattr(select, "POLLRDHUP", 0x2000)


@st.composite
def case(draw):
    speed = draw(st.sampled_from([10, 20, 20, 60, 600, 4000]))
    longest = 1.2 if draw(st.booleans()) else 0.6         # real seconds
    top = max(1, int(speed * longest))
    rules = draw(st.lists(st.tuples(st.sampled_from(PREFIX), st.one_of(st.sampled_from([None, 0, 1, top, top]), st.integers(1, top))).map(list), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        # rules that concern nobody, before and between the others
        k, at = draw(st.sampled_from([1, 3, 10, 30, 60])), draw(st.integers(0, len(rules)))
        rules[at:at] = [["/zz%d/" % i, 1 + i % 3] for i in range(k)]
    conns = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(sorted(PATHS)))
        # how: until dropped, or until that part of its time is over
        conns.append([k, draw(st.sampled_from(IPS)), draw(st.sampled_from(PATHS[k])), draw(st.sampled_from([None, None, 0.3, 0.6, 0.8, 0.95])), draw(st.integers(0, 100))])
    return [speed, rules, conns]


@st.composite
def many(draw):
    """As many connections as there are workers, and clocks on which it shows when each is dropped"""
    speed = draw(st.sampled_from([10, 20]))
    rules = draw(st.lists(st.tuples(st.sampled_from(PREFIX), st.sampled_from([None, 3, speed, 2 * speed])).map(list), min_size=1, max_size=3))
    conns = []
    for _ in range(draw(st.integers(2, 5))):
        k = draw(st.sampled_from(["half", "hold", "body", "trickle"]))
        conns += [[k, draw(st.sampled_from(IPS)), draw(st.sampled_from(PATHS[k])), draw(st.sampled_from([None, None, 0.6])), draw(st.integers(0, 100))]] * draw(st.integers(10, 60))
    return [speed, rules, conns[:190]]


def time_of(rules, url):
    t = [n for p, n in rules if n and url.lower().startswith(p.lower())]
    return min(t) if t else None


class Conn:
    def __init__(self, spec, limit):
        self.kind, self.ip, self.url, self.part, self.delay = spec
        self.limit = limit
        self.got = b""
        self.over = None
        self.closed = False
        self.ended = False        # told to complete
    def name(self):
        return "%s %s from %s (limit %s)" % (self.kind, self.url, self.ip, self.limit)


class C32(Check):
    pid = "C32"
    builds = ("server_t",)
    quick, thorough = 480, 12000
    batch = 60
    replays = 4
    shrink_s = 40
    rule = ("Up to 12 connections at once under rules with and without times, on a server whose clock runs 10 to 4000 times as fast; each stalls in its header, trickles, stalls in its body, is held in "
            "a handler, stops reading, or completes within its time. Non-trivial = at least one is dropped for its time and one completes.")
    assumptions = ["the functions time, clock_gettime, gettimeofday, sleep, usleep, nanosleep, pthread_cond_timedwait, poll and select and the time-outs set by setsockopt, as the server calls them run on the faster clock",
                   "a drop may come late by 4 seconds of the server's clock and %g real seconds" % SLACK]

    def strategy(self, tier):
        return case()

    def campaign(self, bins, top, tier, seed, log):
        n = 6 if tier == "quick" else 120
        return campaign_of(self, bins, top, tier, [("up to 190 connections at once", {"many": c}) for c in sample(many(), n, derive(seed, 7))], log), dict(cases_of_190_connections=n)

    def many(self, s0, case):
        s = self.open(s0.ctx, 0)
        try:
            return self.run(s, case)
        finally:
            s.close()

    def open(self, ctx, cap=40):
        s = Server(ctx, kind="server_t", cap=cap)
        s.ctx = ctx
        s.routes([("GET:/h", "h", "-", "", ""), ("GET:/w", "w", "-", "", ""), ("GET:/b", "b", "-", str(BIG), ""), ("POST:/d", "d", "-", "", ""), ("GET:/q", "o", "-", "ok", "")])
        s.cmd("O", "1")
        s.put("root/www/index.html", "index")
        s.put("root/www/big.bin", b"b" * BIG)
        s.fds = s.memory()[1]
        s.slow = ctx.slow
        return s

    def rules(self, s, rules, total=300):
        s.put("root/etc/limits", "".join("%s,%d,%d%s\n" % (p, total, total, "" if t is None else ",%d" % t) for p, t in rules))
        s.cmd("L")

    def begin(self, s, c):
        if c.kind == "half": d = "GET %s HTTP/1.1\r\nX: a" % c.url
        elif c.kind == "trickle": d = "GET %s HTTP/1.1\r\nX: " % c.url
        elif c.kind == "body": d = "POST %s HTTP/1.1\r\nContent-Length: 1000\r\n\r\nabc" % c.url
        else: d = "GET %s HTTP/1.1\r\nHost: a\r\n\r\n" % c.url
        c.s.sendall(d.encode())

    def complete(self, s, c):
        """What is missing for a full answer"""
        try:
            if c.kind in ("half", "trickle"): c.s.sendall(b"\r\n\r\n")
            elif c.kind == "body": c.s.sendall(b"d" * 997)
            elif c.kind == "hold": c.s.sendall(b"x")
            elif c.kind == "handler": s.cmd("X")
        except OSError:
            pass

    def is_full(self, c):
        a = c.got
        if c.kind == "hold" or c.kind in ("half", "trickle") and c.url.lower().startswith("/api/h"):
            return a.endswith(b"DONE\r\n")
        try:
            r = http.parse(a, "")
        except Violation:
            return False
        if c.kind == "no reader":
            return r.status == 200 and len(r.body) >= BIG
        if c.kind == "body":
            return r.status == 200
        if c.kind == "handler":
            return r.status == 200 and b"WAITED" in r.body
        return r.status in (200, 404, 400)

    def run(self, s, case):
        if isinstance(case, dict):
            return self.many(s, case["many"])
        speed, rules, specs = case
        now = time.monotonic
        s.cmd("K", str(speed))
        self.rules(s, rules)
        conns = [Conn(sp, time_of(rules, sp[2])) for sp in specs]
        # a handler is released for all, so none of them completes by itself
        for c in conns:
            if c.kind == "handler": c.part = None
        what = "clock x%d, rules %s, connections %s: " % (speed, rules, specs)
        try:
            for c in conns:
                c.t0 = now()
                c.s = s.inject(c.ip)
                self.begin(s, c)
                s.drained(c.s)
                c.t1 = now()
            timed = [c for c in conns if c.limit]
            # those without a limit are watched for as long as the others
            watch = max([(c.limit + 4) / speed for c in timed] + [0.2])
            for c in conns:
                c.due = c.t0 + c.part * c.limit / speed if c.limit and c.part else None
                c.last = c.t1 + (c.limit + 4) / speed + SLACK * s.slow if c.limit else None
            end_untimed = now() + watch
            lab = set()
            while True:
                t = now()
                open_ = [c for c in conns if c.over is None]
                if not [c for c in open_ if c.limit] and t >= end_untimed:
                    break
                for c in open_:
                    p = select.poll()
                    p.register(c.s, select.POLLIN | RDHUP)
                    ev = p.poll(0)
                    seen = now()
                    ev = ev[0][1] if ev else 0
                    if c.due and not c.ended and seen >= c.due:
                        c.ended = True
                        self.complete(s, c)
                    reading = c.kind != "no reader" or c.ended
                    if ev & select.POLLIN and reading:
                        self.read(c)
                    if c.kind == "no reader" and not c.ended and ev & (select.POLLHUP | RDHUP):
                        c.over = seen
                    elif reading and c.closed:
                        c.over = now()
                    if c.over is not None:
                        self.judge(c, what, speed, lab)
                        continue
                    if c.kind == "trickle" and not c.ended:
                        try:
                            c.s.send(b"y")
                        except OSError:
                            pass
                    # completed, and held by the handler it reached: nothing more to come
                    if c.ended and c.kind in ("half", "trickle") and c.got.endswith(b"HELD\n"):
                        self.complete_hold(c)
                    if c.last and seen > c.last:
                        raise Violation(what + "%s is still open %.1f seconds after it was admitted" % (c.name(), (seen - c.t1) * speed), "hang")
                time.sleep(0.002)
            # those with no limit are all there, and complete
            rest = [c for c in conns if c.over is None]
            waiting = sum(c.kind == "handler" for c in conns)
            if waiting:
                self.place(s, what, waiting, rest)
            s.cmd("X")
            for c in rest:
                if c.kind != "handler":
                    self.complete(s, c)
            for c in rest:
                c.ended = True
                self.finish(s, c, what)
                lab.add("no limit: " + c.kind)
            for c in conns:
                c.s.close()
            self.settle(s, what)
            # every place is available again
            self.rules(s, [["/", None]], 1)
            if http.parse(s.exchange(http.request("GET", "/api/q"), IPS[0]), what).status != 200:
                raise Violation(what + "afterwards one connection is refused with no other alive")
        finally:
            s.cmd("X")
            for c in conns:
                if hasattr(c, "s"): c.s.close()
        dropped = any(l.startswith("dropped") for l in lab)
        return Result(sorted(lab), dropped and any(l.startswith(("in time", "no limit")) for l in lab))

    def complete_hold(self, c):
        try:
            c.s.sendall(b"x")
        except OSError:
            pass

    def read(self, c):
        c.closed = getattr(c, "closed", False)
        try:
            d = c.s.recv(1 << 20, socket.MSG_DONTWAIT)
        except BlockingIOError:
            return
        except OSError:
            d = b""
        if not d: c.closed = True
        c.got += d

    def judge(self, c, what, speed, lab):
        """c ended by itself at c.over"""
        if c.kind == "no reader" and not c.ended:
            # what is left in between
            while not getattr(c, "closed", False):
                self.read(c)
        full = self.is_full(c)
        age = (c.over - c.t0) * speed
        if c.limit is None:
            if not (c.ended and full):
                raise Violation(what + "%s is dropped after %.1f seconds" % (c.name(), age))
        elif not full:
            if age < c.limit:
                raise Violation(what + "%s is dropped after %.2f seconds, after %s" % (c.name(), age, short(c.got, 200)))
            lab.add("dropped: " + c.kind)
        elif not c.ended:
            raise Violation(what + "%s is answered in full: %s" % (c.name(), short(c.got, 200)))
        else:
            lab.add("in time: " + c.kind if age < c.limit else "ended late: " + c.kind)

    def place(self, s, what, waiting, rest):
        """Handlers that still run hold their places, whether the connection was dropped or not; no other dropped one does"""
        inside = int(s.cmd("I"))
        if inside != waiting:
            raise Violation(what + "%d handlers run, %d wait" % (inside, waiting))
        n = waiting + sum(c.kind != "handler" for c in rest)
        self.rules(s, [["/", None]], n)
        a = http.parse(s.exchange(http.request("GET", "/api/q"), IPS[0]), what)
        if a.status != 429:
            raise Violation(what + "%d are alive or have a handler running, and one more under a maximum of %d is answered %d" % (n, n, a.status))
        self.rules(s, [["/", None]], n + 1)
        end = time.monotonic() + 10 * s.slow
        while True:
            a = http.parse(s.exchange(http.request("GET", "/api/q"), IPS[0]), what)
            if a.status == 200:
                return
            if time.monotonic() > end:
                raise Violation(what + "%d are alive or have a handler running, and one more under a maximum of %d is answered %d" % (n, n + 1, a.status), "hang")
            time.sleep(0.005)

    def finish(self, s, c, what):
        end = time.monotonic() + s.timeout
        held = False
        while not getattr(c, "closed", False):
            self.read(c)
            if c.kind in ("half", "trickle") and c.got.endswith(b"HELD\n") and not held:
                held = True
                self.complete_hold(c)
            if time.monotonic() > end:
                s.alive()
                raise Violation(what + "%s is not answered in the end: %s" % (c.name(), short(c.got, 200)), "hang")
            if not getattr(c, "closed", False):
                select.select([c.s], [], [], 0.5)
        if not self.is_full(c):
            raise Violation(what + "%s is not answered in full: %s" % (c.name(), short(c.got, 200)))

    def settle(self, s, what):
        end = time.monotonic() + s.timeout
        while s.memory()[1] > s.fds:
            if time.monotonic() > end:
                raise Violation(what + "a connection stays open after its client left", "hang")
            time.sleep(0.001)


CHECK = C32()
