from hypothesis import strategies as st
import re
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen

DEL = st.one_of(st.sampled_from([",", ":", "=", ", ", ";,", "\n", "\xe9", "ab", "::"]), st.text(gen.chars(gen.NONUL), min_size=1, max_size=4))


@st.composite
def piece(draw, bad):
    al = [c for c in "ab: \t,=;\n\xe9\xffXY" if c not in bad] or ["q"]
    k = draw(st.integers(0, 5))
    if k < 3:
        return draw(st.text(st.sampled_from(al), max_size=8))
    if k == 3:
        return draw(st.text(st.sampled_from([c for c in gen.NONUL if c not in bad]), max_size=16))
    n = draw(gen.near(1022, 1023, 1024)) if k == 4 else draw(st.integers(0, 2000))
    p = draw(st.text(st.sampled_from(al), min_size=1, max_size=5))
    return (p * (n // len(p) + 1))[:n]


@st.composite
def pieces(draw, bad, minimum=0):
    """Lists whose number of elements is often near the limit of 50"""
    if draw(st.integers(0, 2)):
        return draw(st.lists(piece(bad), min_size=minimum, max_size=6))
    n = draw(st.one_of(gen.near(49, 50, 51), st.integers(minimum, 120)))
    base = draw(st.lists(piece(bad), min_size=1, max_size=3))
    return [base[i % len(base)][:1100] for i in range(n)]


@st.composite
def case(draw):
    k = draw(st.sampled_from(["split", "split", "once", "once", "join", "round"]))
    d = draw(DEL)
    if k == "split":
        ps = draw(pieces(""if draw(st.booleans()) else d))
        s = "".join(p + (draw(st.text(st.sampled_from(d), min_size=1, max_size=3)) if len(ps) < 8 else d[0]) for p in ps)
        if draw(st.booleans()) and s:
            s = s[:-1]
        return [k, s, d]
    if k == "once":
        s = draw(piece("" if draw(st.booleans()) else d)) + draw(st.sampled_from(["", d[0], d[0], d])) + draw(piece(""))
        return [k, s, d]
    if k == "join":
        return [k, draw(st.sampled_from([d, d, "", d * 30])), draw(pieces(""))]
    return [k, d[0], [p for p in draw(pieces(d[0])) if p][:50]]


class C25(Check):
    pid = "C25"
    quick, thorough = 16000, 400000
    batch = 2000
    rule = "One split, split-once, join, or join followed by split per case; non-trivial = at least two pieces result or go in."

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        return Unit(ctx)

    def run(self, u, c):
        k, a, b = c
        lab = [k]
        if k == "split":
            r = u("split", a, b)
            same, got = r[0], r[1:]
            want = [p[:1023] for p in re.split("[" + re.escape(b) + "]", a) if p][:50]
            full = [p for p in re.split("[" + re.escape(b) + "]", a) if p]
            if len(full) > 50: lab.append("over 50 pieces")
            if any(len(p) > 1023 for p in full): lab.append("piece cut")
            nt = len(want) > 1
        elif k == "once":
            r = u("split_once", a, b)
            same, got = r[0], r[1:]
            x, sep, y = a.partition(b[0])
            want = [strip(x)[:1023]] + ([strip(y)[:1023]] if sep else [])
            nt = bool(sep)
            if max(len(x), len(y)) > 1023: lab.append("piece cut")
        else:
            r = u("join", a, *b)
            same, got = r[0], r[1:]
            want = [a.join(b)]
            nt = len(b) > 1
            if len(b) >= 50: lab.append("50 elements or more")
            if k == "round" and got == want:
                g2 = u("split", got[0], a)[1:]
                if g2 != [p[:1023] for p in b]:
                    raise Violation("joining %s with %s and splitting gives %s" % (short(b), short(a), short(g2)))
        if got != want:
            raise Violation("%s(%s, %s) gives %s, expected %s" % (k, short(a), short(b), short(got), short(want)))
        if same != "1":
            raise Violation("%s(%s, %s) alters its input" % (k, short(a), short(b)))
        return Result(lab, nt)


def strip(s):
    return s.strip(gen.SPACE)


CHECK = C25()
