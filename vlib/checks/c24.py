from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen
from .c23 import calls, strip, INNER
import os

KEY = st.sampled_from(["key", "key", "key", "k", "k", "keys", "ke", "key2", "a b", "K", "key ", "", "x.y", "#key", "\xe9"])
SPC = st.sampled_from(["", "", "", " ", "\t", "  ", "\t \v", "\r", "\f"])
TOK = st.one_of(st.text(gen.chars(gen.ALNUM), min_size=1, max_size=6), st.text(gen.chars(INNER.replace(",", "")), min_size=1, max_size=10))


@st.composite
def line(draw):
    k = draw(st.integers(0, 21))
    if k == 0:
        return draw(st.text(gen.chars(INNER), max_size=30))
    if k == 1:
        return draw(st.sampled_from(["", " ", "no delimiter", "#", "key", "key:1", ",,"]))
    pre = draw(SPC) + draw(KEY) + draw(SPC) + "="
    if k < 10:
        n = draw(st.one_of(st.integers(0, 5), st.sampled_from([19, 20, 21, 40])))
        v = ",".join(draw(SPC) + draw(TOK) + draw(SPC) for _ in range(n)) if n < 10 else ",".join(draw(st.lists(TOK, min_size=2, max_size=3)) * (n // 2))
        v = draw(st.sampled_from([v, v, v, "," + v, v + ",", v.replace(",", ",,", 1)]))
    elif k < 18:
        v = draw(st.text(gen.chars(INNER), max_size=20))
    else:
        n = draw(st.one_of(st.integers(max(0, 506 - len(pre)), max(0, 511 - len(pre))), gen.near(256)))
        p = draw(st.text(gen.chars(INNER), min_size=1, max_size=5))
        v = (p * (n // len(p) + 1))[:n]
    return pre + draw(SPC) + v + draw(SPC)


@st.composite
def conf(draw):
    k = draw(st.integers(0, 19))
    if k == 0:
        body = draw(gen.rawbytes(800))
    elif k == 1:
        body = draw(gen.text(gen.NONUL, 3000, (511, 512, 1023)))
    else:
        ls = draw(st.lists(line(), max_size=8)) * draw(st.sampled_from([1, 1, 1, 10]))
        body = draw(st.sampled_from(["\n", "\n", "\n", "\r\n"])).join(ls) + draw(st.sampled_from(["\n", ""]))
    keys = []
    for kk in draw(st.lists(KEY, min_size=2, max_size=10, unique_by=strip)):
        keys.append([strip(kk), draw(st.booleans())])
    path = draw(st.sampled_from([None] * 24 + ["missing", "x" * 90, "y/" + "z" * 200, "w" * 1000]))
    return [keys, body, path]


def model(keys, lines):
    out, alt = [], False
    for l in lines:
        if "=" not in l:
            return out, -1, alt
        k, _, v = l.partition("=")
        k, v = strip(k), strip(v)
        for key, multi in keys:
            if key == k:
                m = []
                if multi:
                    t = [x for x in v.split(",") if x]
                    alt |= any(not strip(x) for x in t)
                    m = [strip(x) for x in t][:20]
                out.append([k, v, m])
                break
    return out, 0, alt


class C24(Check):
    pid = "C24"
    quick, thorough = 16000, 400000
    batch = 2000
    rule = ("One file and key set per case; non-trivial = the handler is called, or reading stops at a line, or the file is of arbitrary bytes. "
            "Files with NUL bytes or lines over 510 bytes are run for memory safety only.")

    def strategy(self, tier):
        return conf()

    def open(self, ctx):
        return Unit(ctx)

    def run(self, u, case):
        keys, body, path = case
        if path is None:
            path = u.dir + "/d/conf"
            with open(path, "wb") as f:
                f.write(body.encode("latin-1"))
        else:
            body = None
        u.files("reading a configuration file")
        r = u("conf_parse", path, len(keys), *[x for k, m in keys for x in (k, int(m))])
        got, n, ret = calls(r)
        u.files("file %s with keys %s: reading it" % (short(body or path), keys))
        if body is None:
            if ret >= 0 or n:
                raise Violation("missing file %s: result %d, %d calls" % (short(path), ret, n))
            return Result(["missing file"], False)
        lines = body.split("\n")
        if lines[-1] == "":
            lines.pop()
        if "\0" in body or any(len(l) > 510 for l in lines):
            return Result(["memory safety only"], True)
        want, wret, alt = model(keys, lines)
        if alt:      # tokens of white space only: kept empty or left out
            f = lambda x: [[k, v, [t for t in m if t]] for k, v, m in x]
            ok = len(got) == len(want) and all(g[:2] == w[:2] for g, w in zip(got, want)) and (ret < 0) == (wret < 0) and \
                all(g[2] == w[2] or len(g[2]) <= 20 and ([t for t in w[2] if t] == [t for t in g[2] if t][:len([t for t in w[2] if t])]) for g, w in zip(got, want))
        else:
            ok = got == want and (ret < 0) == (wret < 0) and n == len(want)
        if not ok:
            raise Violation("file %s with keys %s: handler got %s, result %d; expected %s, %d" % (short(body), keys, short(got), ret, short(want), wret))
        return Result(["stopped"] * (wret < 0) + ["called"] * bool(want) + ["multi"] * any(m for _, _, m in want) + ["20 values"] * any(len(m) == 20 for _, _, m in want),
                      bool(want) or wret < 0)


CHECK = C24()
