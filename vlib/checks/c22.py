import json
from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen
from .c21 import JVAL

UTF = st.characters(min_codepoint=1, exclude_categories=["Cs"])
NAST = st.sampled_from("\"\\/\b\f\n\r\t\x01\x1f\x7f{}[]:,%s\u00e9\u20ac ")


@st.composite
def txt(draw, *bounds):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.text(UTF, max_size=20))
    if k == 1:
        return draw(st.text(NAST, max_size=24))
    # bytes around the limit, ASCII so that the cut is in no character
    n = draw(st.one_of(gen.near(*bounds), st.integers(0, 2 * max(bounds))))
    p = draw(st.text(st.sampled_from("abc\"\\\n\x02%/ "), min_size=1, max_size=6))
    return (p * (n // len(p) + 1))[:n]


def b(s):
    return s.encode("utf-8")


def cut(s, n):
    return s[:n]


class C22(Check):
    pid = "C22"
    quick, thorough = 16000, 400000
    batch = 2000
    rule = ("One error document (code, message) or one call result (status, text, description, data) per case; non-trivial = a character that "
            "needs escaping, a length within 2 of or over a limit, or a result with data.")
    assumptions = ["texts are NUL free; a cut inside a multi-byte character is compared bytewise"]

    def strategy(self, tier):
        err = st.tuples(st.just("error"), txt(62, 63, 64), txt(1022, 1023, 1024, 1025))
        res = st.tuples(st.just("result"), st.sampled_from([-1, 0, 1, 2]), txt(48, 49), txt(254, 255), st.one_of(st.none(), JVAL))
        return st.one_of(err, res).map(list)

    def open(self, ctx):
        return Unit(ctx)

    def run(self, u, case):
        if case[0] == "error":
            code, msg = b(case[1]), b(case[2])
            r = u.raw("error", code, msg)[0]
            want = {"code": code[:63] or b"UNKNOWN", "message": msg[:1023]}
            lens = [(len(code), 63), (len(msg), 1023)]
        else:
            _, status, text, desc, data = case
            text, desc = cutu(text, 49), cutu(desc, 255)
            d = None if data is None else b(json.dumps(data, ensure_ascii=False))
            r = u.raw("result", status, text, desc, d)[0]
            want = {"RSP": {-1: "FAIL", 0: "OK", 1: "ERROR", 2: "WARNING"}[status]}
            if text: want["info"] = text
            if desc: want["description"] = desc
            want["data"] = "" if data is None else data
            lens = [(len(text), 49), (len(desc), 255)]
        want = {k: v.decode("utf-8", "surrogateescape") if isinstance(v, bytes) else v for k, v in want.items()}
        try:
            pairs = []
            got = json.loads(r.decode("utf-8", "surrogateescape"), object_pairs_hook=lambda p: (pairs.append([k for k, _ in p]), dict(p))[1])
        except Exception as e:
            raise Violation("%s gives invalid JSON %s: %s" % (short(case), short(r), e))
        if got != want or len(pairs[-1]) != len(want):
            raise Violation("%s gives %s, expected the fields %s" % (short(case), short(r), short(want)))
        esc = any(c in v for v in want.values() if isinstance(v, str) for c in "\"\\\n\x01\x02\x1f\t\r\b\f")
        near = any(n >= m - 2 for n, m in lens)
        return Result([case[0]] + ["escape"] * esc + ["limit"] * near, esc or near or case[0] == "result" and case[4] is not None)


def cutu(s, n):
    s = b(s)[:n]
    return s.decode("utf-8", "ignore").encode("utf-8")


CHECK = C22()
