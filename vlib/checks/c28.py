from hypothesis import strategies as st
import os, random, shutil, socket
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Unit, short, own
from ..build import ASAN_ENV
from .. import gen

NAMES = ["a", "b.txt", "dir", "dir/a", "dir/sub", "new", "new/x", "lfile", "ldir", "ldir/y", "dangling", "a/b", "missing/z", "fifo", "sock"]
BIG = (1022, 1024, 4096, 8192, 65536, 1 << 20)


@st.composite
def content(draw):
    if draw(st.integers(0, 3)) == 0:
        return draw(gen.rawbytes(40))
    return draw(gen.blob(draw(st.sampled_from([200, 5000, 5000, 70000] * 8 + [200000] * 7 + [12000000])), *BIG))


@st.composite
def steps(draw):
    focus = draw(st.lists(st.sampled_from(["a", "b.txt", "dir/a", "lfile", "ldir/y"]), min_size=1, max_size=2))
    out = [draw(step(focus)) for _ in range(draw(st.integers(1, 12)))]
    if draw(st.integers(0, 119)) == 77:
        # a really large file
        c = {"n": draw(st.sampled_from([1 << 20, 1 << 21, 1 << 22, 1 << 23, 10000000, 1 << 24])) + draw(st.integers(-2, 5000)), "s": draw(st.integers(0, 1 << 16)), "k": draw(st.sampled_from(["rand", "mixed", "lines"]))}
        at = draw(st.integers(0, len(out)))
        out[at:at] = [["write", focus[0], c], ["find", focus[0], [draw(st.sampled_from([999, 990, 500])), 40]], ["read", focus[0], 1 << 25]]
    return out


@st.composite
def step(draw, focus):
    k = draw(st.sampled_from(["write", "write", "write", "read", "read", "find", "find", "is_file", "is_dir", "createdir", "unlink", "mkdir"]))
    p = draw(st.sampled_from(focus if draw(st.integers(0, 3)) and k in ("write", "read", "find", "is_file") else NAMES))
    if draw(st.integers(0, 59)) == 17:
        # the beginning of a file that may be larger than memory
        return ["sparse", "d", draw(content()), draw(st.integers(12, 40)), draw(st.integers(1, 5000))]
    if k == "write":
        return [k, p, draw(content())]
    if k == "read":
        return [k, p, draw(st.one_of(st.integers(1, 60), st.sampled_from([-3, -2, -1, 0, 1, 2, 3]).map(lambda d: {"d": d}), st.just(10**7)))]
    if k == "find":
        # a piece of the file (offset in thousandths), or a text of its own
        return [k, p, draw(st.one_of(st.tuples(st.integers(0, 1000), st.integers(1, 300)).map(list), st.text(gen.chars("abTh q\xff"), min_size=1, max_size=6)))]
    return [k, p]


class C28(Check):
    pid = "C28"
    quick, thorough = 6000, 150000
    batch = 800
    rule = "One sequence of up to 12 file operations on 13 related paths per case; non-trivial = a file is written and later read, searched or replaced."

    def strategy(self, tier):
        return steps()

    def open(self, ctx):
        u = Unit(ctx)
        u.ctx = ctx
        return u

    def campaign(self, bins, top, tier, seed, log):
        """More than 2 GB in a file"""
        g = random.Random(derive(seed, 5))
        sizes = [(1 << 31) + g.randrange(-5000, 5000)] + ([(1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + g.randrange(5000)] if tier != "quick" else [])
        return campaign_of(self, bins, top, tier, [("a file of %d bytes" % n, {"big": n, "s": g.randrange(1 << 16), "block": g.randrange(1, 300000)}) for n in sizes], log), dict(huge_files=sizes)

    def big(self, u0, c):
        u = Unit(u0.ctx, timeout=120, env=dict(ASAN_OPTIONS=ASAN_ENV["ASAN_OPTIONS"] + ":max_allocation_size_mb=9000"))
        p = u.dir + "/d/big"
        try:
            block = gen.expand({"n": c["block"], "s": c["s"], "k": "rand"}).replace(b"\0", b"0")
            piece = block * (1 + 4000000 // len(block))
            u.raw("big", block, c["big"])
            u("writebig", p)
            n = c["big"]
            with open(p, "rb") as f:
                while n:
                    want = piece[:n]
                    if f.read(len(want)) != want:
                        raise Violation("of %d bytes written, those behind %d differ" % (c["big"], c["big"] - n))
                    n -= len(want)
                if f.read(1):
                    raise Violation("of %d bytes written, there are more in the file" % c["big"])
            os.chmod(p, 0o666)
            with open(p, "ab") as f:
                f.write(b"\1\2\3needle")
            for t, w in ((b"\1\2\3needle", True), (b"\1\2\3needles", False), (block[:200], True)):
                if (u("find_in_file", p, t.decode("latin-1"))[0] != "0") != w:
                    raise Violation("%s in a file of %d bytes, at whose end there is 123needle: %s" % (short(t), c["big"] + 9, not w))
        finally:
            u.close()
            if os.path.exists(p):
                os.unlink(p)
        return Result(["huge"], True)

    def run(self, u, case):
        if isinstance(case, dict):
            return self.big(u, case)
        d = os.path.join(u.dir, "d")
        for n in os.listdir(d):
            p = os.path.join(d, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        os.mkdir(d + "/dir"); own(d + "/dir")
        os.symlink("b.txt", d + "/lfile")
        os.symlink("dir", d + "/ldir")
        os.symlink("nowhere/at/all", d + "/dangling")
        os.mkfifo(d + "/fifo"); own(d + "/fifo")
        with socket.socket(socket.AF_UNIX) as k:
            k.bind(os.path.relpath(d + "/sock"))
        own(d + "/sock")
        u.files("nothing")
        written, nt, lab = set(), False, []
        for s in case:
            k, p = s[0], os.path.join(d, s[1])
            if k == "sparse":
                data, size, m = gen.expand(s[2]), 1 << s[3], s[4]
                p = d + "/sparse"
                try:
                    with open(p, "wb") as f:
                        f.write(data[:size])
                        f.truncate(size)
                except OSError:
                    continue
                finally:
                    own(p)
                want = (data + bytes(m))[:min(size, m - 1)] + b"\0"
                got = u.raw("read_file", p, len(want), m)[0]
                os.unlink(p)
                if got != want:
                    raise Violation("a file of %d bytes, read with maximum %d: %s (%d bytes), expected %s (%d bytes)" % (size, m, short(got, 200), len(got), short(want, 200), len(want)))
                lab.append("file over 1 GB" if s[3] > 30 else "sparse file")
                continue
            isf, isd = os.path.isfile(p), os.path.isdir(p)
            cur = open(p, "rb").read() if isf else b""
            where = "after %s: %s" % (short(case[:case.index(s)], 600), short(s))
            rp = os.path.realpath(p)
            if s[1] in ("fifo", "sock"):
                lab.append("neither file nor folder")
                if k == "write":
                    continue
            if k == "write":
                data = gen.expand(s[2])
                ok = not isd and os.path.isdir(os.path.dirname(p)) and not (os.path.islink(p) and not isf and not os.path.isdir(os.path.dirname(rp)))
                u("write_file", p, data.decode("latin-1"))
                if ok:
                    got = open(p, "rb").read() if os.path.isfile(p) else None
                    if got != data:
                        raise Violation("%s leaves %s" % (where, "no file" if got is None else "%d bytes, first difference at %d" % (len(got), diff(got, data))))
                    nt |= rp in written
                    written.add(rp)
                    lab.append("replaced" if isf else "written")
                elif os.path.isdir(p) != isd or os.path.exists(p) != (isf or isd):
                    raise Violation("%s changes the path" % where)
            elif k == "read":
                m = s[2] if isinstance(s[2], int) else max(1, len(cur) + s[2]["d"])
                want = cur[:m - 1] + b"\0"
                got = u.raw("read_file", p, len(want) if isf else min(m, 64), m)[0]
                if not isf:
                    got = got[:1]
                if got != want:
                    raise Violation("%s: reads %s (%d bytes), expected %s (%d bytes)" % (where, short(got, 200), len(got), short(want, 200), len(want)))
                nt |= rp in written
                lab.append("read" if isf else "read of no file")
                if isf and m - 1 < len(cur): lab.append("read cut")
            elif k == "find":
                if b"\0" in cur:
                    u("find_in_file", p, "needle")
                    continue
                if isinstance(s[2], list):
                    o = min(len(cur), len(cur) * s[2][0] // 1000)
                    n = cur[o:o + s[2][1]] or b"zz"
                    if s[2][0] % 3 == 1:
                        n = n[:-1] + bytes([n[-1] ^ 1 or 2])
                else:
                    n = s[2].encode("latin-1")
                if b"\0" in n:
                    continue
                got = u("find_in_file", p, n.decode("latin-1"))[0] != "0"
                if got != (isf and n in cur):
                    raise Violation("%s: %s in %d bytes: %s" % (where, short(n), len(cur), got))
                nt |= rp in written
                lab.append("found" if got else "not found")
            elif k in ("is_file", "is_dir"):
                got = u(k, p)[0] != "0"
                if got != (isf if k == "is_file" else isd):
                    raise Violation("%s: %s" % (where, got))
            elif k == "createdir":
                got = u(k, p)[0] != "0"
                if got != os.path.isdir(p):
                    raise Violation("%s: %s, but it %s a folder" % (where, got, "is" if os.path.isdir(p) else "is not"))
                if not (isf or isd) and os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p) and not got:
                    raise Violation("%s: not created" % where)
                if isf and open(p, "rb").read() != cur:
                    raise Violation("%s: the file changed" % where)
                lab.append("folder")
            elif k == "unlink" and isf and not os.path.islink(p):
                os.unlink(p)
                written.discard(rp)
            elif k == "mkdir" and not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                os.mkdir(p)
                own(p)
        u.files(short(case, 800))
        return Result(lab, nt)


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


CHECK = C28()
