from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen
import os

INNER = "".join(c for c in gen.NONUL if c not in "\r\n")
SP = gen.SPACE


def strip(s):
    return s.strip(SP)


@st.composite
def value(draw, room, alphabet):
    """A value of at most room characters, as a whole trimmed."""
    k = draw(st.integers(0, 3))
    if k == 0 or room < 3:
        return strip(draw(st.text(gen.chars(alphabet), max_size=min(room, 20))))
    if k == 1:
        al = [c for c in "a= b,\t;#\"\\%s" if c in alphabet]
        return strip(draw(st.text(st.sampled_from(al), max_size=min(room, 20))))
    n = draw(st.one_of(st.integers(max(0, room - 3), room), st.integers(0, room)))
    p = draw(st.text(gen.chars(alphabet), min_size=1, max_size=8))
    return strip(((p * (n // len(p) + 1))[:n]))


@st.composite
def conf(draw):
    nk = draw(st.integers(1, 10))
    keys = []
    for i in range(nk):
        k = strip(draw(st.one_of(st.text(gen.chars(gen.ALNUM + "_. -"), min_size=1, max_size=8),
                                 st.text(gen.chars(INNER.replace("=", "")), min_size=1, max_size=8),
                                 st.builds(lambda n: "k" * n, st.integers(1, 400))))) or "k%d" % i
        if k not in [x[0] for x in keys]:
            keys.append([k, draw(st.booleans())])
    items = []
    for _ in range(draw(st.one_of(st.integers(0, 3), st.integers(0, 5), st.sampled_from([19, 20]) if draw(st.integers(0, 3)) == 0 else st.integers(2, 4)))):
        k, multi = draw(st.sampled_from(keys))
        room = 510 - len(k) - 1
        if not multi:
            items.append([k, draw(value(room, INNER)), []])
            continue
        n = draw(st.one_of(st.integers(1, 4), st.sampled_from([19, 20])))
        vs = []
        if n > 4:
            base = [draw(value(min(60, (room - n) // n), INNER.replace(",", ""))) or "v" for _ in range(3)]
            vs = [base[i % 3] for i in range(n)]
            n = 0
        for i in range(n):
            left = room - sum(map(len, vs)) - n - (n - i)
            v = draw(value(min(left, 60) if n > 4 or i < n - 1 else left, INNER.replace(",", ""))) if left > 0 else "x"
            vs.append(v or "v")
        # with multiple values the single value plays no part in what is written
        items.append([k, draw(st.sampled_from([",".join(vs), "", "other"])), vs])
    # what the file holds before
    old = draw(st.one_of(st.none(), st.sampled_from(["", "old=1\n", "# a comment\n" * 30, "k=v\n" * 2000, "a=b\nlast line without end", "\n"]), gen.text(gen.NONUL, 3000)))
    # what keeps it from being written
    fault = None if draw(st.integers(0, 6)) else draw(st.one_of(st.integers(0, 1000).map(lambda n: ["full", n]), st.sampled_from([["open"], ["no folder"], ["device"]])))
    return [keys, items, old, fault]


class C23(Check):
    pid = "C23"
    quick, thorough = 6000, 150000
    batch = 800
    rule = "One configuration per case, written and read back; non-trivial = at least two items or a value with '=', a comma, a white space or over 100 bytes."

    def strategy(self, tier):
        return conf()

    def open(self, ctx):
        return Unit(ctx)

    def run(self, u, case):
        keys, items, old, fault = case
        path = u.dir + "/d/conf"
        if os.path.exists(path):
            os.remove(path)
        if old is not None:
            gen.put(path, old)
        a = []
        for k, v, m in items:
            a += [k, v, len(m)] + m
        if fault:
            want = "".join("%s=%s\n" % (k, ",".join(m) if m else v) for k, v, m in items).encode("latin-1")
            to = {"no folder": u.dir + "/d/none/conf", "device": "/dev/full"}.get(fault[0], path)
            if fault[0] in ("open", "full"):
                u("fault", "0 d/conf" if fault[0] == "open" else "%d" % max(1, len(want) * fault[1] // 1000))
            rc = u("conf_write", to, *a)[0]
            u("fault", "0")
            got = open(to, "rb").read() if to != "/dev/full" and os.path.exists(to) else b""
            if got == want and rc != "0" and fault[0] == "full" or got != want and rc == "0":
                raise Violation("writing %s with %s gives %s, the file holds %d of %d bytes" % (short(items), short(fault), rc, len(got), len(want)))
            u.files("a failed write")
            return Result(["written in spite of it" if rc == "0" else "cannot be written"], rc != "0")
        if u("conf_write", path, *a)[0] != "0":
            raise Violation("writing %s fails" % short(items))
        r = u("conf_parse", path, len(keys), *[x for k, m in keys for x in (k, int(m))])
        got, n, ret = calls(r)
        if ret != 0:
            raise Violation("reading what was written from %s gives an error; file: %s" % (short(items), short(open(path, "rb").read())))
        multi = dict(map(tuple, keys))
        want = [[k, ",".join(m) if m else v, m] for k, v, m in items]
        if got != want:
            raise Violation("items %s, read back as %s; file: %s" % (short(want), short(got), short(open(path, "rb").read())))
        big = any(len(v) > 100 for _, v, _ in want)
        odd = any(c in v for _, v, _ in want for c in "=, \t")
        lim = any(len(k) + len(v) >= 507 for k, v, _ in want) or any(len(m) >= 19 for _, _, m in items) or len(items) >= 19
        return Result(["odd"] * odd + ["long"] * big + ["at a limit"] * lim + ["multi"] * any(m for _, _, m in items), len(items) > 1 or odd or big)


def calls(r):
    n, ret = int(r[-2]), int(r[-1])
    got, i = [], 0
    while i < len(r) - 2:
        m = int(r[i + 2])
        got.append([r[i], r[i + 1], r[i + 3:i + 3 + m]])
        i += 3 + m
    return got, n, ret


CHECK = C23()
