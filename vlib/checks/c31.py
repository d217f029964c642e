from hypothesis import strategies as st
import time
from ..core import Check, Result, Violation, campaign_of, derive, sample
from ..procs import Server, short
from .. import gen, http, reqs


@st.composite
def case(draw):
    r = draw(st.one_of(reqs.hostile(big=False), reqs.request(big=draw(st.integers(0, 9)) == 0).map(lambda r: {"r": r, "x": []})))
    one = draw(st.integers(0, 5)) == 0
    return [r, "bytes" if one else draw(reqs.CUTS)]


class C31(Check):
    pid = "C31"
    builds = ("server", "server_t")
    quick, thorough = 5000, 120000
    batch = 800
    rule = ("One request, well-formed or mutated, sent whole and sent in pieces; every piece is sent only after the server has read the one before (byte by byte in some cases), and some requests with real pauses of seconds; "
            "non-trivial = at least two pieces.")
    assumptions = ["the order number of the request and the worker's number in an upload's name are masked in the responses"]

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        s = reqs.setup(Server(ctx, cap=4))
        s.cmd("O", "1")
        s.ctx = ctx
        return s

    def campaign(self, bins, top, tier, seed, log):
        """Requests whose pieces are sent with real pauses, all at the same time"""
        n = 60 if tier == "quick" else 150
        pauses = [(1, [1.2, 7]), (100, [0.5, 3])] if tier == "quick" else [(1, [2, 61, 130]), (100, [0.5, 3]), (1000, [1, 40])]
        cases = []
        for i, (speed, secs) in enumerate(pauses):
            cs = sample(st.tuples(reqs.request(big=False), st.sampled_from([[10000]] + [[i] for i in range(0, 10000, 250)])).map(list), n, derive(seed, 7 + i))
            cases.append(("%d requests with pauses of %s s, clock x%d" % (n, secs, speed), {"pauses": cs, "seconds": secs, "speed": speed}))
        return campaign_of(self, bins, top, tier, cases, log), dict(requests_with_real_pauses=n * len(cases), pauses_s=[p for _, p in pauses], clock=[k for k, _ in pauses])

    def paused(self, s0, case):
        s = reqs.setup(Server(s0.ctx, kind="server_t" if case.get("speed", 1) > 1 else "server", cap=64))
        try:
            s.cmd("O", "1")
            todo = []
            for r, cuts in case["pauses"]:
                d = reqs.render(r)
                if d is not None:
                    todo.append((d, self.one(s, [d]), len(d) * cuts[0] // 10000))
            if case.get("speed", 1) > 1: s.cmd("K", str(case["speed"]))
            for i in range(0, len(todo), 60):
                group = todo[i:i + 60]
                cs = [s.inject() for _ in group]
                try:
                    at = [0] * len(group)
                    for k, secs in enumerate(case["seconds"]):
                        for j, (c, (d, _, p)) in enumerate(zip(cs, group)):
                            end = p * (k + 1) // len(case["seconds"])
                            push(c, d[at[j]:end])
                            at[j] = end
                        time.sleep(secs)
                    for c, (d, _, p) in zip(cs, group):
                        push(c, d[p:])
                    for c, (d, whole, p) in zip(cs, group):
                        try:
                            c.shutdown(1)
                        except OSError:
                            pass
                        got = s.read_all(c)
                        if reqs.norm(got) != reqs.norm(whole):
                            raise Violation("%s is answered %s, but when sent with pauses of %s s (server clock x%d), the last one after %d bytes, it is answered %s" % (short(d, 1200), short(whole, 600), case["seconds"], case.get("speed", 1), p, short(got, 600)))
                finally:
                    for c in cs:
                        c.close()
        finally:
            s.close()
        return Result(["pauses"], True)

    def run(self, s, case):
        if isinstance(case, dict):
            return self.paused(s, case)
        r, cuts = case
        data = reqs.hostile_bytes(r)
        if data is None:
            return Result(["not rendered"], False)
        whole = self.one(s, [data])
        if cuts == "bytes":
            pieces = [data[i:i + 1] for i in range(min(len(data), 400))] + ([data[400:]] if len(data) > 400 else [])
        else:
            pieces = reqs.cut(data, cuts)
        got = self.one(s, pieces)
        if reqs.norm(got) != reqs.norm(whole):
            raise Violation("%s is answered %s, but when sent in the pieces %s it is answered %s" % (short(data, 1200), short(whole, 600), short(pieces if len(pieces) < 30 else [len(p) for p in pieces], 1500), short(got, 600)))
        lab = ["byte by byte" if cuts == "bytes" else "%d pieces" % min(len(pieces), 6), "mutated" if r.get("x") or "raw" in r else reqs.label(r["r"])]
        lab.append("status " + whole[9:12].decode("latin-1") if whole else "no answer")
        return Result(lab, len(pieces) > 1)

    def one(self, s, pieces):
        c = s.inject()
        try:
            for i, p in enumerate(pieces):
                try:
                    c.sendall(p)
                except OSError:
                    break
                if i + 1 < len(pieces) and not s.drained(c, True):
                    break
            try:
                c.shutdown(1)
            except OSError:
                pass
            return s.read_all(c)
        finally:
            c.close()


def push(c, d):
    try:
        c.sendall(d)
    except OSError:
        pass


CHECK = C31()
