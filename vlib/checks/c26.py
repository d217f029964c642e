from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen

ANY = gen.text(gen.NONUL, 400, (63, 64, 255, 256))
WS = st.text(gen.chars(gen.SPACE), max_size=5)
MIX = st.text(gen.chars("aAbB zZ[]@`{\x1f\x20!\"#$\x7f\x80\xe9\xff09/:\t\n"), max_size=10)
STR = st.one_of(ANY, MIX)


def lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def swap(s):
    return "".join(chr(ord(c) ^ 32) if c.isascii() and c.isalpha() else c for c in s)


@st.composite
def case(draw):
    k = draw(st.sampled_from(["trim", "rtrim", "chop", "startswith", "startswith", "startswithany", "alnum", "find", "find", "find"]))
    if k == "trim":
        return [k, draw(WS) + draw(STR) + draw(WS)]
    if k == "rtrim":
        s = draw(STR)
        return [k, s, draw(st.sampled_from(s)) if s and draw(st.booleans()) else draw(gen.chars(gen.NONUL))]
    if k == "chop":
        base = draw(st.one_of(st.text(gen.chars("".join(map(chr, range(35, 256)))), max_size=12), STR))
        return [k, base + draw(st.sampled_from(["", "", "\"", "!", " ", "\r", "#", "\x01"])) + draw(STR)]
    if k == "startswith":
        s = draw(STR)
        n = draw(st.integers(0, len(s)))
        p = draw(st.sampled_from([s[:n], swap(s[:n]), lower(s[:n]), s, s + "x", swap(s)]))
        if draw(st.integers(0, 3)) == 0 and p:
            i = draw(st.integers(0, len(p) - 1))
            p = p[:i] + draw(st.sampled_from([chr(ord(p[i]) ^ 32), chr(ord(p[i]) ^ 128), draw(gen.chars(gen.NONUL))])) + p[i + 1:]
        p = p.replace("\0", "x")
        if draw(st.integers(0, 9)) == 0:
            p = draw(STR)
        return [k, s, p]
    if k == "startswithany":
        s = draw(STR)
        ps = []
        for _ in range(draw(st.integers(0, 4))):
            n = draw(st.integers(1, max(1, len(s))))
            ps.append(draw(st.sampled_from([s[:n] or "q", swap(s[:n]) or "q", (s[:n - 1] + "\x7f"), draw(MIX) or "zz", s + "1"])))
        if draw(st.integers(0, 2)) == 0:
            # those that match, if any, far down a long list
            at = draw(st.integers(0, len(ps)))
            ps[at:at] = ["%d%s" % (i, draw(MIX)) for i in range(draw(st.sampled_from([3, 5, 7, 8, 12, 16, 33, 60])))]
        return [k, s, draw(st.booleans()), ps]
    if k == "alnum":
        s = draw(st.one_of(gen.text(gen.ALNUM, 300), STR))
        if draw(st.integers(0, 2)) == 0:
            i = draw(st.integers(0, len(s)))
            s = s[:i] + draw(gen.chars(gen.NONUL)) + s[i:]
        return [k, s]
    al = draw(st.sampled_from(["ab", "a\0b", "-\r\n", "\xff\x80a"]))
    h = draw(gen.text(al, 300))
    if draw(st.booleans()) and len(h):
        i = draw(st.integers(0, len(h)))
        n = h[i:i + draw(st.integers(1, 6))].replace("\0", "") or "a"
    else:
        n = draw(st.text(gen.chars(al.replace("\0", "")), min_size=1, max_size=5))
    if draw(st.integers(0, 2)):
        # one occurrence at a place of its own, in the middle or at the end
        i = draw(st.integers(0, len(h)))
        h = draw(st.sampled_from([h[:i] + n + h[i:], h + n, n + h]))
    b = draw(st.sampled_from([len(h), len(h), len(h), draw(st.integers(0, len(h)))]))
    return [k, h, n, draw(st.one_of(st.just(0), st.integers(0, len(h)))), b]


class C26(Check):
    pid = "C26"
    quick, thorough = 24000, 600000
    batch = 3000
    rule = ("One call per case; non-trivial = the answer is not that of the empty string: something is trimmed, cut or found, or the prefix has a "
            "length above 0. Needles that straddle the given length may be found or not.")

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        return Unit(ctx)

    def run(self, u, c):
        k = c[0]
        same = "1"
        if k == "trim":
            got, want = u(k, c[1])[0], c[1].strip(gen.SPACE)
            nt = want != c[1]
        elif k == "rtrim":
            o = ord(c[2])
            got, same = u(k, c[1], o)
            want = c[1].split(c[2])[0]
            nt = want != c[1]
        elif k == "chop":
            got = u(k, c[1])[0]
            want = c[1]
            for i, x in enumerate(c[1]):
                if ord(x) <= 34:
                    want = c[1][:i]
                    break
            nt = want != c[1]
        elif k == "startswith":
            r, same = u(k, c[1], c[2])
            got, want = r != "0", lower(c[1]).startswith(lower(c[2]))
            nt = bool(c[2])
        elif k == "startswithany":
            got = u(k, c[1], int(c[2]), *c[3])[0] != "0"
            want = any(lower(c[1]).startswith(lower(p)) for p in c[3])
            nt = bool(c[3])
        elif k == "alnum":
            got, want = u(k, c[1])[0] != "0", bool(c[1]) and all(x in gen.ALNUM for x in c[1])
            nt = len(c[1]) > 1
        else:
            _, h, n, s, b = c
            got = int(u("find", h, n, s, b)[0])
            i = h.find(n, s)
            want = i + len(n) if 0 <= i and i + len(n) <= b else -1
            if 0 <= i < b < i + len(n) and got in (-1, i + len(n)):
                return Result(["find", "straddles"], False)
            nt = want > 0
        if got != want:
            raise Violation("%s gives %s, expected %s" % (short(c), short(got), short(want)))
        if same != "1":
            raise Violation("%s alters its input" % short(c))
        return Result([k, "%s %s" % (k, bool(want) if isinstance(want, bool) else "changed" if nt else "plain")], nt)


CHECK = C26()
