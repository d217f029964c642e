"""Multipart bodies: generation, rendering and the form they stand for."""
import hashlib, re
from hypothesis import strategies as st
from . import gen

BTOKEN = gen.ALNUM + "'+_-.'()=/:?,"
BQUOTED = gen.ALNUM + "'()+_,-./:=?"
NCH = "".join(c for c in gen.NONUL if ord(c) > 34)
TMP = re.compile(r"tmpfile=([0-9]+)-([0-9a-f]{32})")


@st.composite
def boundary(draw):
    """(boundary, how it is announced)"""
    q = draw(st.booleans())
    al = BQUOTED if q else BTOKEN
    k = draw(st.integers(0, 5))
    if k == 0:
        b = "----WebKitFormBoundary" + draw(st.text(gen.chars(gen.ALNUM), min_size=1, max_size=16))
    elif k == 1:
        n = draw(st.sampled_from([1, 2, 68, 69, 70]))
        b = (draw(st.text(gen.chars(al), min_size=1, max_size=5)) * n)[:n]
    elif k == 2:
        b = draw(st.sampled_from(["-", "--", "---", "a", "b-", "-a-", "x--", "0"]))
    else:
        b = draw(st.text(gen.chars(al), min_size=1, max_size=30))
    if q and len(b) > 2 and draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(1, len(b) - 2))
        b = b[:i] + " " + b[i + 1:]
    t = draw(st.sampled_from(["boundary", "boundary", "boundary", "Boundary", "BOUNDARY"])) + ('="%s"' if q else "=%s") % b
    pre = draw(st.sampled_from(["; ", "; ", ";", ";  ", "; charset=utf-8; "]))
    post = draw(st.sampled_from(["", "", "", "; charset=utf-8", ";x=y", " ; a=b", " ", ";"]))
    return [b, draw(st.sampled_from(["Content-Type: ", "content-type:", "CONTENT-TYPE: "])) + draw(st.sampled_from(["multipart/form-data", "multipart/form-data", "multipart/form-data", "Multipart/Form-Data", "MULTIPART/FORM-DATA"])) + pre + t + post]


TRICK = ["\r\n", "\r\n\r\n", "\n", "--", "-", "form-data; name=\"evil\"\r\n\r\nx", "; filename=\"evil.txt\"", "Content-Disposition: form-data; name=\"e\"; filename=\"f\"", "&a=b", "=", "\r", "\r\n--", "a\r\n",
         "\r\n\r\nContent-Type: x", " ", "\t", " x ", "boundary", "tmpfile", "\xff\xfe", "\"", "%00"]


@st.composite
def text(draw):
    k = draw(st.integers(0, 6))
    if k < 2:
        return draw(st.text(gen.chars(gen.NONUL), max_size=20))
    if k < 4:
        return "".join(draw(st.lists(st.sampled_from(TRICK), max_size=4)))
    if k == 4:
        return ""
    if k == 5:
        return draw(gen.text(gen.NONUL, 1500, (511, 512, 1023, 1024)))
    return draw(st.text(gen.chars("ab-\r\n"), max_size=12))


NAME = st.one_of(st.sampled_from(["a", "b", "name", "file", "filename", "f[]", "x-y", "form-data;", "%s%n%s%n", "a&b", "a=b", "tmpfile_", ";filename=", "\xe9"]),
                 st.text(gen.chars(NCH), min_size=1, max_size=12), st.integers(1, 300).map(lambda n: "n" * n))
FILENAME = st.one_of(st.sampled_from(["a.txt", "", "../../etc/passwd", "..", "/etc/passwd", "/tmp/x", "C:\\x\\y.png", "%2e%2e", "f;name=g", "%s%n%s%n", "x'y", "..%2f..%2fx", ".htaccess", "a/b/c", "-rf", "$(touch${IFS}x)", "up/../../x", "\xe9.zip", "root/www/index.html"]),
                     st.text(gen.chars(NCH), max_size=16), st.integers(1, 250).map(lambda n: "f" * n))


@st.composite
def filedata(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return draw(gen.rawbytes(60))
    if k < 6:
        return draw(text())
    return draw(gen.blob(draw(st.sampled_from([600, 3000, 3000, 20000])), 512, 511, 513, 1024, 4096))


@st.composite
def parts(draw, files=3, maximum=6, nameless=0):
    out = []
    for _ in range(draw(st.integers(0, maximum))):
        ct = draw(st.sampled_from([[], [], [], ["Content-Type: text/plain"], ["Content-Type: application/octet-stream"], ["Content-Type: a/b", "X-Y: z"], ["Content-Transfer-Encoding: binary"]]))
        before = draw(st.integers(0, 9)) == 0
        cd = draw(st.sampled_from(["Content-Disposition: ", "Content-Disposition: ", "content-disposition:"]))
        if nameless and draw(st.integers(0, 9)) < nameless:
            out.append(["none", draw(st.sampled_from(["", "form-data", "form-data; filename=\"x\"", "attachment; name=\"a\"", "form-data; x=\"name\""])), draw(text()), ct, before, cd, None])
        elif files and draw(st.integers(0, 9)) < files:
            out.append(["file", draw(NAME), draw(filedata()), ct, before, cd, draw(FILENAME)])
        else:
            out.append(["field", draw(NAME), draw(text()), ct, before, cd, None])
    return out


def nearly(draw, parts, b):
    """Puts what is nearly the delimiter into a part"""
    ps = [p for p in parts if isinstance(p[2], str) and p[0] != "none"]
    if ps and draw(st.integers(0, 2)) == 0:
        p = draw(st.sampled_from(ps))
        cut = draw(st.sampled_from([1, 1, 2, 3, max(1, len(b) // 2), len(b)]))
        t = draw(st.sampled_from(["\r\n--", "\r\n--", "--", "\n--", "\r\n-", ""])) + draw(st.sampled_from([b[:-cut], b[:-cut], b[:-1] + "\x7f", b[1:], b.swapcase(), b[:-1] + " "])) + draw(st.sampled_from(["", "\r\n", "--\r\n"]))
        i = draw(st.integers(0, len(p[2])))
        p[2] = p[2][:i] + t + p[2][i:]


def render(parts, b, pre="", post="\r\n"):
    """The body, or None if a part contains the boundary"""
    d = ("--" + b).encode("latin-1")
    out = pre.encode("latin-1")
    for kind, name, data, ct, before, cd, fn in parts:
        h = cd + name if kind == "none" else cd + 'form-data; name="%s"' % name + ('; filename="%s"' % fn if kind == "file" else "")
        if kind == "none" and not name:
            h = "X-Nothing: x"
        lines = ct + [h] if before else [h] + ct
        chunk = ("\r\n".join(lines) + "\r\n\r\n").encode("latin-1") + gen.expand(data)
        whole = b"\r\n" + chunk + b"\r\n"
        # the delimiter must not occur before its place, not even by means of the line ends around it
        if d in whole or (whole + d + b"\r\n").find(d) != len(whole) or d in chunk:
            return None
        out += d + whole
    return out + d + b"--" + post.encode("latin-1")


def form(parts):
    """(form with tmpfile=*-md5, [md5 of each file])"""
    out, sums = [], []
    for kind, name, data, ct, before, cd, fn in parts:
        if kind == "none":
            continue
        if kind == "file":
            m = hashlib.md5(gen.expand(data)).hexdigest()
            out.append("%s=%s&tmpfile=*-%s" % (name, fn, m))
            sums.append(m)
        else:
            out.append("%s=%s" % (name, data if isinstance(data, str) else gen.expand(data).decode("latin-1")))
    return "&".join(out), sums


def mask(f):
    return TMP.sub(r"tmpfile=*-\2", f)
