"""Shared strategies. Byte strings are latin-1 text, so that cases are JSON."""
import functools, os, random
from hypothesis import strategies as st

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
NONUL = "".join(map(chr, range(1, 256)))
PRINT = "".join(map(chr, range(32, 127)))
GRAPH = "".join(map(chr, range(33, 127)))
TOKEN = ALNUM + "!#$%&'*+-.^_`|~"
SPACE = " \t\n\v\f\r"
HIGH = "".join(map(chr, range(128, 256)))


def chars(alphabet):
    return st.sampled_from(alphabet)


@functools.lru_cache(None)
def near(*bounds):
    """Numbers at and next to the given bounds."""
    s = sorted({max(0, b + d) for b in bounds for d in (-2, -1, 0, 1, 2)})
    return st.sampled_from(s)


def lengths(maximum, *bounds):
    o = [st.integers(0, min(8, maximum)), st.integers(0, maximum)]
    bs = [b for b in bounds if b <= maximum]
    if bs:
        o.append(near(*bs).filter(lambda v: v <= maximum))
    return st.one_of(*o)


@st.composite
def text(draw, alphabet=NONUL, maximum=64, bounds=(), minimum=0):
    """Text of a length biased to short and to the bounds: a short random piece repeated, with random edges."""
    if draw(st.integers(0, 3)) and maximum > 24 or maximum <= 24:
        return draw(st.text(chars(alphabet), min_size=minimum, max_size=min(24, maximum)))
    n = draw(lengths(maximum, *bounds))
    n = max(n, minimum)
    piece = draw(st.text(chars(alphabet), min_size=1, max_size=12))
    s = (piece * (n // len(piece) + 1))[:n]
    if n >= 4 and draw(st.booleans()):
        edge = draw(st.text(chars(alphabet), min_size=1, max_size=2))
        s = s[:n - len(edge)] + edge if draw(st.booleans()) else edge + s[len(edge):]
    return s


def rawbytes(max_size=64):
    return st.binary(max_size=max_size).map(lambda b: b.decode("latin-1"))


@st.composite
def blob(draw, maximum, *bounds, nul=True):
    """A recipe for a possibly large byte string: {n, s, k}; see expand."""
    n = draw(lengths(maximum, *bounds))
    k = draw(st.sampled_from(["rand", "ascii", "zero" if nul else "ascii", "lines", "text", "mixed" if nul else "high"]))
    return {"n": n, "s": draw(st.integers(0, 1 << 16)), "k": k}


T_HIGH = bytes(128 + x % 128 for x in range(256))
T_ASCII = bytes(33 + x % 94 for x in range(256))
T_LOWER = bytes(97 + x % 26 for x in range(256))


def expand(r):
    """bytes of a recipe (or of a latin-1 string)"""
    if isinstance(r, str):
        return r.encode("latin-1")
    n, k = r["n"], r["k"]
    g = random.Random(r["s"])
    if k == "zero":
        return bytes(n)
    if k in ("rand", "mixed"):
        b = g.randbytes(n)
        return b if k == "mixed" else b.replace(b"\0", b"\1")
    if k == "high":
        return g.randbytes(n).translate(T_HIGH)
    if k == "ascii":
        return g.randbytes(n).translate(T_ASCII)
    if k == "lines":
        out = bytearray()
        while len(out) < n:
            out += g.randbytes(g.randrange(0, 60)).translate(T_LOWER) + g.choice([b"\r\n", b"\n", b"\r\n\r\n", b"--", b"\r"])
        return bytes(out[:n])
    return (b"The quick brown fox %d. " % r["s"] * (n // 20 + 1))[:n]


def frac(draw, k, n):
    """True in k of n cases"""
    return draw(st.integers(0, n - 1)) < k


def put(path, content, owner=65534):
    """Writes a file that the programs can write, too"""
    with open(path, "wb") as f:
        f.write(content.encode("latin-1") if isinstance(content, str) else content)
    try:
        os.chown(path, owner, owner)
    except OSError:
        pass
