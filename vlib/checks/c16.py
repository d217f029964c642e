from hypothesis import strategies as st
import os, random, select, threading, time
from ..core import Check, Result, Violation, Ctx, run_seq, canon, derive, sample, campaign_of
from ..procs import Server, short, decode_dump
from .. import crowd, gen, http, reqs


def kinds(*ks):
    return [tuple(r[0].replace("{id}", "*").replace("{a-long-name}", "*").replace(":", ":/api", 1).split(":", 1)) for r in reqs.ROUTES if r[1] in ks and r[0] not in ("GET:/none", "GET:/bb")]


FAMILY = [kinds("s"), kinds("o"), kinds("s", "e", "o"), kinds("e"), kinds("j", "t"), kinds("l", "b"), [("GET", "/api/item/*"), ("DELETE", "/api/item/*x")], [("GET", "/api/util?*=1&b=*"), ("GET", "/api/util?x=*"), ("GET", "/api/util?q=a,b,*")],
          [("GET", u) for u in reqs.STATIC], [("GET", "/missing*"), ("GET", "/d/"), ("GET", "/a.css"), ("GET", "/d/data.csv"), ("GET", "/../*")], [("POST", "/api/d"), ("POST", "/api/util"), ("POST", "/api/item/*")],
          [("GET", "/api/none-*"), ("PUT", "/a.css"), ("PATCH", "/api/d")], kinds("d")]


@st.composite
def case(draw):
    n = draw(st.integers(2, 16))
    rs = [draw(reqs.request(silent=False, big=draw(st.integers(0, 9)) == 0)) for _ in range(n)]
    k = draw(st.integers(0, 7))
    if k < 3:
        # two or three requests that take the same way through the program, in turn
        f = draw(st.sampled_from(FAMILY))
        us = draw(st.lists(st.sampled_from(f), min_size=2, max_size=3))
        for i, r in enumerate(rs):
            m, u = us[i % len(us)]
            r.update(m=m, u=u.replace("*", "abcdefghijklmnop"[i] * (1 + i * 7 % 20)))
            if m == "GET": r["b"] = ""
            if draw(st.booleans()): r["h"] = []
    elif k == 3:
        # the same request with another body, session or query each
        r0 = rs[0]
        for i, r in enumerate(rs):
            r.update(m=r0["m"], u=r0["u"])
            r["h"] = r0["h"] + ["X-Session: s%d" % i, "X-A: client-%d" % i, "Cookie: WSSESSION=c%d" % i]
    elif k == 4:
        for i, r in enumerate(rs):
            if not any(h.lower().startswith(("x-session", "authorization")) for h in r["h"]):
                r["h"] = r["h"] + ["X-Session: s%d" % i]
    return [rs, draw(st.sampled_from(["whole", "together", "together", "pieces"])), draw(st.lists(st.integers(0, 10000), min_size=1, max_size=3)), draw(st.integers(1, 1 << 30)), draw(st.sampled_from([0, 20, 100, 300])), draw(st.sampled_from([1, 2, 2, 3]))]


class C16(Check):
    pid = "C16"
    builds = ("server_p",)
    quick, thorough = 2500, 60000
    batch = 300
    replays = 8
    rule = ("2 to 16 requests per case, each sent alone and then all at the same time (as a whole, in pieces in turn, or with the last byte of all at the end) with delays injected at library "
            "calls, twice in half of the cases; non-trivial = always. Each answer must be the one it got alone.")
    assumptions = ["as for C31 the order number and the worker's number are masked"]

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        s = reqs.setup(Server(ctx, kind="server_p", cap=16))
        s.cmd("O", "1")
        s.ctx = ctx
        return s

    def campaign(self, bins, top, tier, seed, log):
        """Many more requests than cases can make, to one server, with clients inside its process"""
        n, more = (70000, 12) if tier == "quick" else (1500000, 600)
        c = {"crowd": crowd.requests(60, derive(seed, 8)), "n": n, "more": more, "seed": derive(seed, 9) % (1 << 30)}
        ctx = Ctx(bins, os.path.join(top, "crowd"), tier)
        os.makedirs(ctx.scratch)
        os.chmod(ctx.scratch, 0o755)
        v = run_seq(self, ctx, [c])
        log("crowd of %d requests: %s" % (n + more * 1500, "failing" if v else "ok"))
        if v:
            return [(len(canon(c)), c, [], str(v), v.kind, c)], {}
        # all workers busy, and as many connections as can wait
        houses = 10 if tier == "quick" else 200
        g = random.Random(derive(seed, 10))
        cases = []
        for i in range(houses):
            cases.append(("full house", {"house": sample(reqs.request(silent=False, big=False), 50, derive(seed, 20 + i)), "n": g.choice([180, 200, 400, 1200]) if i else 1200, "order": g.choice(["first", "last", "mixed"]), "seed": g.randrange(1 << 30), "permille": 0 if i % 2 == 0 else 50}))
        return campaign_of(self, bins, top, tier, cases, log), dict(requests_of_crowd=n + more * 1500, full_houses=houses)

    def house(self, s0, case):
        """Requests that miss their last byte keep all workers busy while others wait; then all are completed"""
        g = random.Random(case["seed"])
        s = reqs.setup(Server(s0.ctx, kind="server_p"))
        cs = []
        try:
            s.cmd("O", "2")
            items = []
            for i, r in enumerate(case["house"]):
                d = reqs.render(r)
                if d is not None and len(d) < 60000:
                    ip = "10.0.4.%d" % i
                    items.append((d, reqs.norm(s.exchange(d, ip)), ip))
            todo = [g.choice(items) for _ in range(case["n"])]
            poll = select.poll()
            s.cmd("D", "%d %d" % (case["seed"] + 1, case["permille"]))
            for d, _, ip in todo:
                c = s.inject(ip, wait=False)
                cs.append(c)
                send(c, d[:-1])
                s.unacked > 200 and s.sync()
            s.sync()
            order = list(range(len(cs)))
            if case["order"] == "last": order.reverse()
            elif case["order"] == "mixed": g.shuffle(order)
            for i in order:
                send(cs[i], todo[i][0][-1:])
            got, left = [b""] * len(cs), {c.fileno(): i for i, c in enumerate(cs)}
            for c in cs:
                poll.register(c, select.POLLIN)
            end = time.time() + 60 * s0.ctx.slow
            while left:
                if time.time() > end:
                    s.alive()
                    i = min(left.values())
                    raise Violation("of %d requests at the same time, %d are not answered in 60 s, as %s: %s so far" % (len(cs), len(left), short(todo[i][0], 600), short(got[i], 300)), "hang")
                for f, _ in poll.poll(1000):
                    i = left[f]
                    try:
                        d = cs[i].recv(1 << 18)
                    except OSError:
                        d = b""
                    got[i] += d
                    if not d:
                        poll.unregister(f)
                        del left[f]
            s.alive()
            for i, (d, want, _) in enumerate(todo):
                if reqs.norm(got[i]) != want:
                    raise Violation("among %d requests at the same time, number %d is %s and receives %s; alone it receives %s" % (len(cs), i, short(d, 600), short(reqs.norm(got[i]), 900), short(want, 900)))
        finally:
            for c in cs:
                c.close()
            s.close()
        return Result(["full house"], True)

    def crowd(self, s0, case):
        s = reqs.setup(Server(s0.ctx, kind="server_p", cap=16))
        try:
            s.cmd("O", "2")
            s.cmd("S", "6")
            items = []
            for i, r in enumerate(case["crowd"]):
                d = reqs.render(r)
                if d is not None:
                    ip = "10.0.3.%d" % i
                    items.append((d, s.exchange(d, ip), ip))
            # more connections than 16 bits can count, then rounds in which places of the program are slow
            crowd.run(s, items, 24, case["n"], 20, case["seed"], int(s.timeout))
            for k in range(case["more"]):
                s.cmd("D", "%d %d" % (case["seed"] + k + 1, 60))
                crowd.run(s, items, 24, 1500, 50 * (k % 2), case["seed"] + k + 1, int(s.timeout))
            s.cmd("D", "1 0")
        finally:
            s.close()
        return Result(["crowd"], True)

    def run(self, s, case):
        if isinstance(case, dict):
            return self.house(s, case) if "house" in case else self.crowd(s, case)
        rs, how, cuts, seed, permille, rounds = case
        datas = []
        for r in rs:
            d = reqs.render(r)
            if d is not None:
                datas.append(d)
        s.cmd("D", "1 0")
        ip = lambda i: "10.0.%d.%d" % (i // 4, i)
        alone = [reqs.norm(s.exchange(d, ip(i))) for i, d in enumerate(datas)]
        lab = {how, "%d clients" % len(datas)} | {reqs.label(r) for r in rs}
        for k in range(rounds):
            s.cmd("D", "%d %d" % ((seed + k) % (1 << 31) + 1, permille))
            cs = [s.inject(ip(i), wait=False) for i in range(len(datas))]
            s.sync()
            try:
                got = [None] * len(cs)
                err = []

                def reader(i):
                    try:
                        got[i] = s.read_all(cs[i])
                    except Violation as v:
                        err.append(v)
                big = any(len(d) > 60000 for d in datas)
                ts = [threading.Thread(target=reader, args=(i,)) for i in range(len(cs))] if big else []
                for t in ts:
                    t.start()
                if how == "whole":
                    for c, d in zip(cs, datas):
                        send(c, d)
                elif how == "together":
                    for c, d in zip(cs, datas):
                        send(c, d[:-1])
                    for c, d in zip(cs, datas):
                        send(c, d[-1:])
                else:
                    ps = [reqs.cut(d, cuts) for d in datas]
                    for j in range(max(map(len, ps))):
                        for c, p in zip(cs, ps):
                            if j < len(p):
                                send(c, p[j])
                if not big:
                    for i in range(len(cs)):
                        reader(i)
                for t in ts:
                    t.join()
                if err:
                    raise err[0]
            finally:
                for c in cs:
                    c.close()
            for i, (a, g) in enumerate(zip(alone, got)):
                if reqs.norm(g) != a:
                    raise Violation("client %d of %d (%s) sends %s and receives %s; alone it receives %s; the others send %s" %
                                    (i, len(datas), how, short(datas[i], 500), short(reqs.norm(g), 900), short(a, 900), short([d[:150] for j, d in enumerate(datas) if j != i], 1500)))
        s.cmd("D", "1 0")
        if permille: lab.add("perturbed")
        return Result(sorted(lab), True)


def send(c, d):
    try:
        c.sendall(d)
    except OSError:
        pass


CHECK = C16()
