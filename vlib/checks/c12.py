from hypothesis import strategies as st
import os
from ..core import Check, Result, Violation
from ..procs import Unit, Server, short
from .. import http

OCT = st.one_of(st.sampled_from([0, 1, 2, 10, 11, 12, 19, 25, 100, 101, 112, 192, 255]), st.integers(0, 255))


@st.composite
def pool(draw):
    """Addresses that contain each other or differ in one digit, as far as they are addresses"""
    a = draw(st.one_of(st.tuples(OCT, OCT, OCT, OCT), st.tuples(OCT, OCT, OCT, OCT), st.tuples(OCT, OCT, OCT, OCT), st.sampled_from([(127, 0, 0, 1), (10, 0, 0, 1), (192, 168, 0, 1), (0, 0, 0, 0), (255, 255, 255, 255)])))
    out = {a}
    for i in (0, 3, draw(st.integers(0, 3))):
        for f in (lambda s: s + draw(st.sampled_from("012345")), lambda s: draw(st.sampled_from("12")) + s, lambda s: s[1:], lambda s: s[:-1]):
            v = f(str(a[i]))
            if v and int(v) <= 255:
                out.add(a[:i] + (int(v),) + a[i + 1:])
    out.add(tuple(reversed(a)))
    return [".".join(map(str, x)) for x in sorted(out)]


@st.composite
def listing(draw, ips):
    if draw(st.integers(0, 4)) == 0:
        return None
    ls = draw(st.lists(st.sampled_from(ips), max_size=5))
    extra = draw(st.sampled_from([[], [], [], ["#comment"], [""], ["# " + ips[0]], [ips[0] + ".1"], ["1" + ips[0]], [ips[0] + "," + ips[-1]], [ips[-1] + " " + ips[0]], [ips[0][:-1]], [ips[0] + "/24"], ["*"], [ips[0].rsplit(".", 1)[0] + ".*"], [ips[0].split(".")[0] + ".*"], ["0.0.0.0/0"], ["all"], ["!" + ips[0]], ["-" + ips[0]], [ips[0].rsplit(".", 1)[0] + "."], [ips[0].rsplit(".", 1)[0]], ["localhost"], ["::ffff:" + ips[0]]]))
    if draw(st.integers(0, 3)) == 0:
        # a long line that ends in an address (after white space only, that is the address)
        k = draw(st.sampled_from([15, 16, 23, 24, 31, 32, 63, 64, 79, 80, 99, 100, 119, 120, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191])) - draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
        extra = extra + [draw(st.sampled_from(["#", "x", "0", " ", "\t"])) * k + draw(st.sampled_from(ips))]
    ls = draw(st.permutations(ls + extra))
    n = draw(st.sampled_from([0, 0, 0, 0, 20, 400, 3000]))
    # white space around an address, as in a file with \r\n
    k = draw(st.integers(0, 5))
    if k == 0: ls = [l + "\r" for l in ls]
    elif k == 1: ls = [draw(st.sampled_from(["", " ", "\t", "  "])) + l + draw(st.sampled_from(["", " ", "\t", "\r", " \r"])) for l in ls]
    return [n, draw(st.integers(0, 1000)) if n else 0, ls, draw(st.booleans())]


@st.composite
def case(draw):
    ips = draw(pool())
    n = draw(st.integers(1, 6))
    return [[draw(st.sampled_from(["allow", "deny", "query", "query"])), draw(listing(ips)), draw(st.sampled_from(ips)), draw(st.sampled_from([None] * 8 + ["etc/deny", "etc/allow", "etc/"]))] for i in range(n)] + \
           [["query", None, draw(st.sampled_from(ips)), None]]


def render(l):
    n, at, ls, nl = l
    fill = ["%d.%d.%d.%d" % (200 + i % 50, i // 256 % 256, i % 256, 7) for i in range(n)]
    k = n * at // 1000
    return fill[:k] + ls + fill[k:], nl


class Env:
    def __init__(self, ctx):
        self.u = Unit(ctx)
        self.u("root", self.u.dir + "/root")
        self.s = Server(ctx, cap=4)
        self.s.routes([("GET:/x", "s", "-", "200 hello", "")])
    def close(self):
        self.u.close()
        self.s.close()


class C12(Check):
    pid = "C12"
    builds = ("unit", "server")
    quick, thorough = 6000, 120000
    batch = 800
    rule = ("One history of list edits and connection attempts per case, for the decision function and the running server; non-trivial = an attempt whose address "
            "is listed, or is contained in or contains a listed one.")

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        return Env(ctx)

    def run(self, e, case):
        lists = {"allow": None, "deny": None}
        dirs = [e.u.dir + "/root/etc/", e.s.root + "/etc/"]
        for d in dirs:
            for n in lists:
                if os.path.exists(d + n):
                    os.remove(d + n)
        nt, lab = False, set()
        for i, (k, l, ip, fault) in enumerate(case):
            if k != "query":
                if l is None:
                    lists[k] = None
                    for d in dirs:
                        if os.path.exists(d + k):
                            os.remove(d + k)
                else:
                    ls, nl = render(l)
                    lists[k] = [x.strip() for x in ls]
                    for d in dirs:
                        with open(d + k, "w") as f:
                            f.write("\n".join(ls) + ("\n" if nl and ls else ""))
            deny, allow = lists["deny"], lists["allow"]
            want = not (deny and ip in deny) and (allow is None or ip in allow)
            got = e.u("allowed", ip)[0] != "0"
            what = "step %d of %s: allow %s, deny %s, address %s" % (i, short(case, 900), short(allow, 300), short(deny, 300), ip)
            if fault and (deny is not None and fault != "etc/allow" or allow is not None and fault != "etc/deny"):
                # a list is there but cannot be read, as when descriptors are short: nobody who is refused otherwise is let in
                e.u("fault", "0 " + fault)
                got = e.u("allowed", ip)[0] != "0"
                e.u("fault", "0")
                e.s.cmd("F", "0 " + fault)
                ans = e.s.exchange(http.request("GET", "/api/x"), ip)
                ran = len(e.s.events())
                e.s.cmd("F", "0")
                lab.add("unreadable list")
                if not want and (got or ans or ran):
                    raise Violation("%s: refused, but while %s cannot be opened %s, answered %s, %d handlers" % (what, fault, "allowed" if got else "refused", short(ans), ran))
                nt = True
                continue
            if got != want:
                raise Violation("%s: %s" % (what, "allowed" if got else "refused"))
            ans = e.s.exchange(http.request("GET", "/api/x"), ip)
            ran = len(e.s.events())
            if want and (ran != 1 or http.parse(ans, what).body != b"hello\r\n"):
                raise Violation("%s: allowed, but answered %s, %d handlers" % (what, short(ans), ran))
            if not want and (ans or ran):
                raise Violation("%s: refused, but answered %s, %d handlers" % (what, short(ans), ran))
            for n, ls in lists.items():
                if ls is not None:
                    if ip in ls: lab.add(n + " listed")
                    elif any(ip in x or x and x in ip for x in ls): lab.add(n + " related")
                    if len(ls) > 100: lab.add("long list")
            nt |= bool(lab)
            lab.add("served" if want else "refused")
        return Result(sorted(lab), nt)


CHECK = C12()
