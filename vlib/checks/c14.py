from hypothesis import strategies as st
import os, re
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen

SEG = gen.text("".join(c for c in gen.NONUL if c not in ",\r\n" + gen.SPACE), 600, (509, 510, 511, 512))
NUM = st.one_of(st.integers(0, 30), st.integers(0, 2**31 - 1))
SP = st.sampled_from(["", "", " ", "  ", "\t"])


@st.composite
def line(draw):
    k = draw(st.integers(0, 13))
    if k == 0:
        return draw(st.sampled_from(["", "#", "# /api,1,2,3", " /api,1,2,3", "\t/x,1,2", "api,1,2,3", "#/x, 1, 2", ",1,2,3", "x/,1,2,3"]))
    if k == 1:
        return "#" + draw(gen.text(gen.NONUL.replace("\n", ""), 3000, (511, 512, 1023)))
    p = "/" + draw(SEG if k < 4 else st.sampled_from(["", "api", "api/x", "a b", "api/", "x?y", "static/img"]))
    f = [str(draw(NUM)) for _ in range(draw(st.sampled_from([3, 3, 3, 3, 2, 2, 1, 0, 4, 5])))]
    return ",".join([p] + [draw(SP) + x + draw(SP) for x in f])


@st.composite
def conf(draw):
    k = draw(st.integers(0, 15))
    if k == 0:
        return draw(gen.rawbytes(1500))
    if k == 1:
        return None
    if k == 2:
        return draw(gen.text("/,0123456789- \n\r\t,,,a", 2000))
    ls = draw(st.lists(line(), max_size=6))
    if ls and draw(st.integers(0, 3)) == 0:
        ls = (ls * 130)[:draw(st.one_of(gen.near(63, 64, 65), st.integers(1, 130)))]
    e = draw(st.sampled_from(["\n", "\n", "\n", "\r\n"]))
    return e.join(ls) + draw(st.sampled_from([e, ""]))


def model(text):
    """None if the text is not of the documented form"""
    out, good = [], True
    for l in text.split("\n"):
        if not l.startswith("/"):
            continue
        f = l.split(",")
        if any(not x for x in f) or "\r" in l[:-1] or not re.match(r"[^,]*[^,\s](,\s*[0-9]{1,10}\s*)*\Z", l) or any(int(x) > 2**31 - 1 for x in f[1:]):
            good = False
            continue
        if len(f) >= 3:
            n = [int(x) for x in f[1:4]]
            out.append([f[0][:511]] + n + [0] * (3 - len(n)))
    return out[:64] if good and "\0" not in text else None


class C14(Check):
    pid = "C14"
    quick, thorough = 12000, 300000
    batch = 1500
    rule = ("One limits file per case; non-trivial = at least one rule results and a line is ignored, a limit is reached (64 rules, 511 bytes), or the file is of "
            "arbitrary bytes. Files with empty or non-numeric fields on rule lines are run for memory safety only.")

    def strategy(self, tier):
        return conf()

    def open(self, ctx):
        u = Unit(ctx)
        u("root", u.dir + "/root")
        return u

    def run(self, u, text):
        p = u.dir + "/root/etc/limits"
        if text is None:
            if os.path.exists(p):
                os.remove(p)
        else:
            with open(p, "wb") as f:
                f.write(text.encode("latin-1"))
        r = u("limits")
        got = [[r[i]] + [int(x) for x in r[i + 1:i + 4]] for i in range(0, len(r), 4)]
        want = [] if text is None else model(text)
        if want is None:
            return Result(["memory safety only"], True)
        if got != want:
            raise Violation("limits file %s gives %s, expected %s" % (short(text), short(got), short(want)))
        if text is None:
            return Result(["no file"], False)
        ls = [l for l in text.split("\n") if l]
        ign = len(want) < len(ls)
        lim = len(want) == 64 or any(len(w[0]) >= 509 for w in want)
        return Result(["rules"] * bool(want) + ["ignored lines"] * ign + ["64 rules"] * (len(want) == 64) + ["path cut"] * any(len(w[0]) == 511 for w in want),
                      bool(want) and (ign or lim))


CHECK = C14()
