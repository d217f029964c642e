from hypothesis import strategies as st
import hashlib, random
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Unit, short
from ..build import ASAN_ENV
from .. import gen

LIM = sorted({b + d for m in (0, 55, 56, 63, 64, 119, 512, 1024, 1536, 2048, 4096, 5120, 65536, 131072) for d in (-1, 0, 1) for b in [m] if b + d >= 0})


class C27(Check):
    pid = "C27"
    quick, thorough = 12000, 300000
    batch = 1500
    rule = "One byte string per case (random, zero, high, line or ASCII bytes); non-trivial = longer than the internal chunk of 512 bytes or on a chunk boundary."

    def strategy(self, tier):
        @st.composite
        def recipe(draw):
            n = draw(st.one_of(st.sampled_from(LIM), st.integers(0, 600), st.integers(0, 9).map(lambda k: 512 * k), st.integers(0, 20000), st.integers(0, 5000000) if draw(st.integers(0, 199)) == 77 else st.integers(0, 300000) if draw(st.integers(0, 9)) == 0 else st.integers(0, 2000)))
            return {"n": n, "s": draw(st.integers(0, 1 << 16)), "k": draw(st.sampled_from(["mixed", "rand", "zero", "high", "lines", "ascii"]))}
        return st.one_of(recipe(), recipe(), gen.rawbytes(70))

    def open(self, ctx):
        return Unit(ctx, timeout=120, env=dict(ASAN_OPTIONS=ASAN_ENV["ASAN_OPTIONS"] + ":max_allocation_size_mb=9000"))

    def campaign(self, bins, top, tier, seed, log):
        """Longer than 32 bits can tell, in bits or in bytes"""
        g = random.Random(derive(seed, 5))
        sizes = [(1 << 29) + g.randrange(-600, 600), (1 << 31) + g.randrange(-600, 600)]
        if tier != "quick":
            sizes = [(1 << b) + d + k for b in (28, 29, 30, 31, 32) for d in (-1, 0, 1) for k in (0, g.randrange(512))] + [(1 << 33) + g.randrange(5000)]
        return campaign_of(self, bins, top, tier, [("%d bytes" % n, {"big": n, "s": g.randrange(1 << 16), "block": g.randrange(1, 300000)}) for n in sizes], log), dict(huge_inputs=sizes)

    def big(self, u, c):
        block = gen.expand({"n": c["block"], "s": c["s"], "k": "rand"})
        u.raw("big", block, c["big"])
        got = u.raw("md5big")[0]
        h, n = hashlib.md5(), c["big"]
        piece = block * (1 + 4000000 // len(block))
        while n:
            h.update(piece[:n])
            n -= min(n, len(piece))
        if got != h.hexdigest().encode() + b"\0":
            raise Violation("%d bytes (%s): got %r, expected %s" % (c["big"], short(c), got, h.hexdigest()))
        return Result(["huge"], True)

    def run(self, u, c):
        if isinstance(c, dict) and "big" in c:
            return self.big(u, c)
        d = gen.expand(c)
        got = u.raw("md5", d)[0]
        want = hashlib.md5(d).hexdigest().encode() + b"\0"
        if got != want:
            raise Violation("%d bytes (%s): got %r, expected %r" % (len(d), short(c), got, want))
        return Result(["multiple of 512"] * (len(d) % 512 == 0) + ["over 512"] * (len(d) > 512) + ["empty"] * (not d), len(d) > 512 or len(d) % 512 == 0)


CHECK = C27()
