from hypothesis import strategies as st
import collections, os, random, re, threading, time
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Server, short
from .. import crowd, gen, http, huge, reqs, tls

SP = " \t\n\v\f\r"
UA = st.one_of(st.sampled_from(["curl/8.0", "", "Mozilla/5.0 (X11; Linux x86_64) Firefox/9", "a \"quoted\" one", "%s%n%d", "[x] - -", "\\\""]), st.text(gen.chars(gen.GRAPH + gen.HIGH + " "), max_size=30), st.integers(250, 260).map(lambda n: "u" * n), st.integers(1, 900).map(lambda n: "u" * n))
LINE = re.compile(r'(\S*) - - \[(\d\d/[A-Z][a-z][a-z]/\d{4}:\d\d:\d\d:\d\d) \+0000\] "(.*)" (\d+) (\d+) "(.*)" "(.*)" (\d+\.\d{3})\Z', re.S)


@st.composite
def one(draw):
    r = draw(reqs.request(silent=True, big=draw(st.integers(0, 4)) == 0))
    hs = [h for h in r["h"] if not h.lower().startswith(("referer", "user-agent"))]
    add = []
    for n in (["Referer", "REFERER"], ["User-Agent", "user-agent"]):
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
            add.append(draw(st.sampled_from(n)) + draw(st.sampled_from([": ", ":", ":   ", ":\t"])) + draw(UA) + draw(st.sampled_from(["", "", " "])))
    if draw(st.booleans()):
        add.append(draw(st.sampled_from(["Referers: no", "X-User-Agent: no", "Refer: no"])))
    if draw(st.integers(0, 50)) == 0:
        r.update(m="GET", u="/huge%d.bin" % draw(st.integers(0, 1)), b="")
    r["h"] = draw(st.permutations(hs + add))
    if draw(st.integers(0, 9)) == 0:
        r["v"] = draw(st.sampled_from(["HTTP/1.0", "HTTP/2", "x" * 480, "y" * 1100, "", "\"", "%s %d"]))
    return r


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 2, 4, 12]))
    return [[draw(one()) for _ in range(n)], draw(st.booleans()), draw(st.integers(0, 5)) == 0, draw(st.integers(1, 1 << 30)), draw(st.sampled_from([0, 50, 300])),
            # what rotation does to the file before
            draw(st.sampled_from([""] * 12 + ["renamed", "removed"]))]


def wanted(data):
    """(request line, referer, user agent) of the bytes of a request"""
    t = data.decode("latin-1")
    head = t.split("\r\n\r\n")[0].split("\r\n")
    hs = []
    for l in head[1:]:
        l = l[:1023]
        if len(hs) < 20 and ":" in l:
            n, v = l.split(":", 1)
            if v.strip(SP) == "" and False:
                continue
            hs.append((n.strip(SP)[:63], v.strip(SP)[:255]))
    look = lambda n: next((v for k, v in hs if k.lower() == n), "")
    return head[0][:1023], look("referer"), look("user-agent")


class C18(Check):
    pid = "C18"
    builds = ("server_p", "server")
    quick, thorough = 4000, 100000
    batch = 400
    replays = 6
    rule = ("1 to 12 requests per case, in turn or all at once with delays injected at library calls, over HTTP or TLS: the lines that the log gains are compared with the bytes each client "
            "received. Non-trivial = several requests at once, or an answer other than 200.")
    assumptions = ["requests have no NUL bytes", "the client reads the whole answer"]

    def strategy(self, tier):
        return case()

    def prepare(self, bins, top):
        bins["ssl"] = tls.make_cert(top + "/ssl")

    def open(self, ctx):
        return Env(ctx)

    def campaign(self, bins, top, tier, seed, log):
        """The lines of many more requests than cases can make"""
        n, more = (20000, 8) if tier == "quick" else (400000, 400)
        c = {"crowd": crowd.requests(60, derive(seed, 8)), "n": n, "more": more, "seed": derive(seed, 9) % (1 << 30)}
        g = random.Random(derive(seed, 10))
        sizes = [(1 << 32) + g.randrange(-200, 100000)] + ([(1 << 31) + g.randrange(1000), (1 << 32) - 1, 1 << 32, (1 << 34) + 5] if tier != "quick" else [])
        cases = [("lines of a crowd of %d requests" % (n + more * 1000), c)] + [("the line of a file of %d bytes" % k, {"size": k, "seed": g.randrange(1 << 30), "secure": tier != "quick" and k % 2}) for k in sizes]
        giants = [("j", (1 << 31) + g.randrange(5000))] + ([("t", (1 << 31) + g.randrange(5000)), ("s", (1 << 32) + 9), ("t", (1 << 32) + g.randrange(5000))] if tier != "quick" else [])
        cases += [("the line of an answer of %d bytes" % n, {"giant": k, "n": n, "status": g.choice([200, 201, 404, 500])}) for k, n in giants]
        return campaign_of(self, bins, top, tier, cases, log), dict(requests_of_crowd=n + more * 1000, huge_files=sizes, huge_answers=[n for _, n in giants])

    def huge(self, env, case):
        s = Server(env.c, kind="server_p", cap=4, ssl=env.c.bins["ssl"] if case["secure"] else None)
        try:
            huge.make(s.root + "/www/a", case["size"], case["seed"])
            s.www("index.html", "favicon.ico")
            n = huge.fetch(s, "/a", case["size"], case["seed"], tls.context() if case["secure"] else None)[1]
            l = self.lines_of(s)
            m = LINE.match(l[0]) if len(l) == 1 else None
            if not m or m.group(4) != "200" or m.group(5) != str(n):
                raise Violation("GET /a is answered %d bytes, the log has %s" % (n, short(l)))
        finally:
            s.close()
            os.unlink(s.root + "/www/a")
        return Result(["huge"], True)

    def giant(self, env, case):
        s = Server(env.c, cap=4, timeout=60, asan=":max_allocation_size_mb=9000")
        try:
            n = huge.giant(s, case["giant"], case["status"], case["n"])
            l = self.lines_of(s)
            m = LINE.match(l[0]) if len(l) == 1 else None
            if not m or m.group(4) != str(case["status"]) or m.group(5) != str(n):
                raise Violation("%s of %d bytes answers %d bytes, the log has %s" % (huge.HELPER[case["giant"]], case["n"], n, short(l)))
        finally:
            s.close()
        return Result(["giant"], True)

    def lines_of(self, s):
        s.pos = 0
        return self.lines(s, 1)

    def crowd(self, env, case):
        s = reqs.setup(Server(env.c, kind="server_p", cap=16))
        try:
            s.cmd("O", "2")
            s.pos = 0
            items, line = [], []
            for i, r in enumerate(case["crowd"]):
                d = reqs.render(r)
                if d is None:
                    continue
                ip = "10.0.3.%d" % i
                a = s.exchange(d, ip)
                ls = self.lines(s, 1)
                if len(ls) != 1 or not LINE.match(ls[0]):
                    raise Violation("the request %s adds the lines %s to the log" % (short(d, 600), short(ls)))
                items.append((d, a, ip))
                line.append(masked(ls[0]))
            for k in range(case["more"] + 1):
                s.cmd("D", "%d %d" % (case["seed"] + k, 60 if k else 0))
                counts = crowd.run(s, items, 24, 1000 if k else case["n"], 0, case["seed"] + k, int(s.timeout))
                want, got = collections.Counter(), collections.Counter()
                for l, m in zip(line, counts):
                    want[l] += m
                for l in self.lines(s, sum(counts)):
                    got[masked(l)] += 1
                if got != want:
                    raise Violation("after %d requests by 24 clients at the same time, the log has these lines too often: %s, and lacks these: %s" %
                                    (sum(counts), short(dict((got - want).most_common(5)), 1200), short(dict((want - got).most_common(5)), 1200)))
                os.truncate(s.dir + "/log/wayuu-access.log", 0)
                s.pos = 0
        finally:
            s.close()
        return Result(["crowd"], True)

    def run(self, env, case):
        if isinstance(case, dict):
            return self.giant(env, case) if "giant" in case else self.huge(env, case) if "size" in case else self.crowd(env, case)
        rs, atonce, secure, seed, permille = case[:5]
        rotate = case[5] if len(case) > 5 else ""
        s = env.get(secure)
        log = s.dir + "/log/wayuu-access.log"
        if rotate and os.path.exists(log):
            if rotate == "renamed": os.rename(log, log + ".1")
            else: os.unlink(log)
            s.pos = 0
        s.cmd("D", "%d %d" % (seed, permille))
        datas = []
        for r in rs:
            d = reqs.render(r)
            if d is None:
                continue
            if "v" in r:
                d = d.replace(b" HTTP/1.1\r\n", (" " + r["v"] + "\r\n").encode("latin-1"), 1)
            datas.append(d)
        t0 = time.time()
        got = [None] * len(datas)
        if secure or not atonce or len(datas) == 1:
            for i, d in enumerate(datas):
                c = s.inject("10.1.0.%d" % i)
                try:
                    got[i] = tls.exchange(s, c, d, env.ctx) if secure else s.talk(c, d)
                finally:
                    c.close()
        else:
            cs = [s.inject("10.1.0.%d" % i, wait=False) for i in range(len(datas))]
            s.sync()
            try:
                for c, d in zip(cs, datas):
                    send(c, d[:-1])
                for c, d in zip(cs, datas):
                    send(c, d[-1:])
                for i, c in enumerate(cs):
                    got[i] = s.read_all(c)
            finally:
                for c in cs:
                    c.close()
        s.cmd("D", "1 0")
        want = []
        for i, (d, g) in enumerate(zip(datas, got)):
            if not g:
                continue
            line, ref, ua = wanted(d)
            m = re.search(rb"\r\nX-Real-IP:([^\r\n]*)", d.split(b"\r\n\r\n")[0] + b"\r\n")
            ms = re.findall(rb"\r\nX-Real-IP:([^\r\n]*)", d.split(b"\r\n\r\n")[0])
            method = line.split(" ")[0]
            ip = "10.1.0.%d" % i
            status = int(g[9:12])
            want.append([ip, line, status, len(g), ref, ua, [x.decode().strip() for x in ms]])
        log = self.lines(s, len(want))
        lo, hi = int(t0 - 0.05), int(time.time()) + 1     # time() may lag behind by a clock tick
        what = "requests %s%s" % ("at once " if atonce else "", short(datas, 1500))
        left = list(want)
        for l in log:
            m = LINE.match(l)
            if not m:
                raise Violation("%s: the log has the line %s" % (what, short(l)))
            ip, ts, line, status, n, ref, ua, sec = m.groups()
            t = calendar(ts)
            if not lo <= t <= hi:
                raise Violation("%s: the line %s has the time %s, it is %s" % (what, short(l), ts, time.strftime("%d/%b/%Y:%H:%M:%S", time.gmtime(hi))))
            if float(sec) > time.time() - t0 + 0.01:
                raise Violation("%s: the line %s announces more time than went by" % (what, short(l)))
            for w in left:
                ips = [w[0]] + w[6]
                # a request that is refused before its header is read shows the peer, and no header
                whole = [ips[-1], w[4], w[5]]
                early = [w[0], "", ""]
                if line == w[1] and int(status) == w[2] and int(n) == w[3] and ([ip, ref, ua] == whole or [ip, ref, ua] == early and self.refused_early(w[1])):
                    left.remove(w)
                    break
            else:
                raise Violation("%s: the log has the line %s, not one of %s" % (what, short(l), short(left, 1500)))
        if left:
            raise Violation("%s: the log %shas no line for %s" % (what, "(%s before) " % rotate if rotate else "", short(left)))
        env.trim(s)
        lab = {"status %d" % w[2] for w in want} | {"at once" if atonce and len(datas) > 1 and not secure else "in turn", "TLS" if secure else "HTTP"}
        if rotate: lab.add(rotate)
        if any(w[4] for w in want): lab.add("referer")
        if any(w[5] for w in want): lab.add("user agent")
        if any(w[3] > 50000 for w in want): lab.add("over 50000 bytes")
        if any(w[3] > 1000000 for w in want): lab.add("over 1000000 bytes")
        return Result(sorted(lab), len(datas) > 1 or any(w[2] != 200 for w in want))

    def refused_early(self, line):
        p = line.split()
        m = p[0] if p and not line[:1] in (" ",) else ""
        return not m.upper().startswith(("GET", "POST", "PUT", "DELETE")) or len(p) > 1 and len(p[1]) > 511 or len(line) > 511

    def lines(self, s, n):
        end = time.time() + 3
        while True:
            t = s.access_log()[s.pos:]
            ls = t.split("\n")
            if len(ls) - 1 >= n and ls[-1] == "" or time.time() > end:
                break
            time.sleep(0.002)
        s.pos += len(t)
        if ls[-1]:
            raise Violation("the log ends within a line: %s" % short(ls[-1]))
        return ls[:-1]


def masked(l):
    """A line without its times"""
    return re.sub(r' \d+\.\d{3}\Z', " *", re.sub(r"^(\S* - - )\[[^\]]*\]", r"\1[*]", l))


MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def calendar(ts):
    import calendar as c
    d, m, y, H, M, S = re.match(r"(\d\d)/(\w+)/(\d+):(\d+):(\d+):(\d+)", ts).groups()
    if m not in MON:
        return 0
    return c.timegm((int(y), MON.index(m) + 1, int(d), int(H), int(M), int(S)))


def send(c, d):
    try:
        c.sendall(d)
    except OSError:
        pass


class Env:
    def __init__(self, ctx):
        self.c, self.s = ctx, {}
        self.ctx = tls.context()

    def get(self, t):
        if t not in self.s:
            s = reqs.setup(Server(self.c, kind="server_p", cap=12, ssl=self.c.bins["ssl"] if t else None))
            s.cmd("O", "1")
            s.put("root/www/huge0.bin", b"0123456789" * 100000)
            s.put("root/www/huge1.bin", b"\0\1\2\r\n" * 260000)
            s.pos = 0
            self.s[t] = s
        return self.s[t]

    def trim(self, s):
        if s.pos > 300000:
            s.clear_access_log()
            s.pos = 0

    def close(self):
        for s in self.s.values():
            s.close()


CHECK = C18()
