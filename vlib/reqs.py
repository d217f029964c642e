"""A fixed set of routes and files, and requests of all kinds to them."""
import json, re
from hypothesis import strategies as st
from . import gen, http, mp
from .procs import unhex

ROUTES = [
    ("GET:/d", "d", "-", "", ""), ("POST:/d", "d", "-", "", ""), ("PUT:/d", "d", "-", "", ""), ("DELETE:/d", "d", "-", "", ""),
    ("GET:/item/{id}", "d", "-", "", ""), ("POST:/item/{id}", "d", "f", "", "bad"), ("DELETE:/item/{a-long-name}", "d", "q", "", "no"),
    ("POST:/u", "d", "-", "", ""), ("POST:/private", "d", "s", "", ""), ("GET:/private", "d", "s", "", ""), ("GET:/never", "d", "0", "", ""),
    ("GET:/j", "j", "-", "200 {\"a\":[1,2,{\"b\":null}]}", ""), ("GET:/j201", "j", "-", "201 " + json.dumps("x" * 5000), ""), ("GET:/j404", "j", "1", "404 {}", ""), ("POST:/j403", "j", "-", "403 {}", ""),
    ("GET:/s200", "s", "-", "200 fine", ""), ("GET:/s429", "s", "-", "429 slow", ""), ("GET:/s500", "s", "-", "500 " + "m" * 900, ""),
    ("GET:/t", "t", "-", "200 " + "[1,\n2]" * 900, ""), ("POST:/t", "t", "-", "400 {\"e\":1}", ""), ("GET:/t0", "t", "-", "200 ", ""),
    ("GET:/e400", "e", "-", "400 an error", ""), ("GET:/e403", "e", "-", "403 \"quoted\" \\ text", ""), ("POST:/e500", "e", "-", "500 " + "z" * 1023, ""),
    ("GET:/l", "l", "-", "40", ""), ("GET:/l0", "l", "-", "0", ""), ("GET:/b", "b", "-", "3000", ""), ("GET:/bb", "b", "-", "300000", ""),
    ("GET:/util", "u", "-", "", ""), ("POST:/util", "u", "-", "", ""),
    ("GET:/none", "n", "-", "", ""),
] + [("GET:/o/" + n, "o", "-", n, "") for n in ("ok", "created", "forbidden", "not_found", "not_authenticated", "internal_server_error", "too_many_connections", "created_with_json", "bad_request")]
NO_ANSWER = {"/none"}

FILES = {"index.html": b"<html>front</html>\n", "favicon.ico": b"\0\0\1\0icon", "a.css": b"p{}", "empty.txt": b"", "d/index.html": b"folder", "d/x.png": bytes(range(256)) * 9, "big.bin": b"\1\2\3\0" * 30000,
         "d/data.csv": b"1,2\n", "noext": b"plain", "k.js": b"x=1;" * 300}
STATIC = ["/", "/index.html", "/favicon.ico", "/d/"] + ["/" + n for n in sorted(FILES)]
LOOK = ["Host", "X-A", "Cookie", "Content-Length", "x-session", "Missing"]


def setup(s):
    """Routes, files and lookups of a Server."""
    for n, c in FILES.items():
        s.put("root/www/" + n, c)
    s.routes(ROUTES)
    s.lookups(LOOK)
    return s


HCH = "".join(c for c in gen.GRAPH + gen.HIGH)
VAL = st.one_of(st.sampled_from(["x", "a b", "", "token-1234", "\"q\"", "Mozilla/5.0 (X11; Linux x86_64) Gecko/20100101 Firefox/99.0", "http://ref.example/p?q=1", "%s%n"]), st.text(gen.chars(HCH), max_size=20), st.integers(1, 300).map(lambda n: "v" * n))
HNAME = st.sampled_from(["Host", "X-A", "X-B", "Referer", "User-Agent", "User-Agent", "Accept", "Accept-Language", "X-Session", "Authorization", "Content-Type", "X-Forwarded-For", "Connection", "referer", "X-Unknown-Header-Of-Some-Length"])
COOKIE = st.sampled_from(["Cookie: WSSESSION=abc", "Cookie: a=b; WSSESSION=0123456789abcdef; c=d", "Cookie: x=y", "cookie:WSSESSION=", "Cookie: ;;;=", "Cookie: WSSESSION=" + "s" * 63, "Cookie: WSSESSION=" + "s" * 64])


@st.composite
def headers(draw, real_ip=True):
    out = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 12))
        if k == 0: out.append(draw(COOKIE))
        elif k == 1 and real_ip: out.append("X-Real-IP: " + draw(st.sampled_from(["1.2.3.4", "192.168.100.200", "2001:db8::1"])))
        else: out.append(draw(HNAME) + draw(st.sampled_from([": ", ":"])) + draw(VAL))
    if draw(st.integers(0, 15)) == 0:
        out = (out or ["A: b"]) * 8
    return out


@st.composite
def request(draw, real_ip=True, silent=True, big=True):
    """A well-formed request: {m, u, h, b} with b a text, a blob recipe, or [boundary, parts]"""
    k = draw(st.integers(0, 11))
    hs = draw(headers(real_ip))
    b = ""
    q = draw(st.sampled_from(["", "", "?a=1", "?", "?x=no&y=2", "?q=%20&r=a/b?c"]))
    if k < 3:
        m, u = "GET", draw(st.one_of(st.sampled_from(STATIC), st.sampled_from(["/missing", "/d", "/x/", "/../etc/passwd", "/d/../index.html", "//a.css", "/missing.png"])))
        if not big and u == "/big.bin": u = "/k.js"
    elif k < 6:
        rs = [r for r in ROUTES if (silent or r[0].split(":")[1] not in NO_ANSWER) and (big or r[0] != "GET:/bb")]
        m, u = draw(st.sampled_from(rs))[0].split(":", 1)
        u = "/api" + u
        if "{" in u:
            u = u[:u.index("{")] + draw(st.one_of(st.sampled_from(["1", "bad", "a/b", "", "x=y&z=w"]), st.text(gen.chars(gen.ALNUM), max_size=10)))
        if u == "/api/util":
            q = "?" + draw(st.one_of(st.sampled_from(["a=1&b=2&c", "key=v1,v2,v3", "list=a,b,c,d&x=1;y=2", "/x/y.png?z", "=", "&&", "a=%20\"q\""]), st.lists(st.text(gen.chars("ab01=,.;"), min_size=1, max_size=6), min_size=1, max_size=40).map("&".join)))
    elif k < 7:
        m, u = draw(st.sampled_from([("GET", "/api"), ("GET", "/api/"), ("GET", "/api/unknown"), ("POST", "/a.css"), ("PUT", "/index.html"), ("PATCH", "/api/d"), ("HEAD", "/"), ("OPTIONS", "/api/d"), ("get", "/api/d"), ("get", "/a.css"),
                                     ("DELETE", "/api/d/x"), ("GETX", "/api/d"), ("", "/"), ("GET", "/" + "u" * 510), ("GET", "/" + "u" * 511), ("GET", "/api/item/" + "i" * 501), ("GET", "/api/item/" + "i" * 502)]))
        if len(u) > 400: q = ""
    elif k < 10:
        m, u = draw(st.sampled_from([("POST", "/api/d"), ("PUT", "/api/d"), ("POST", "/api/util"), ("POST", "/api/item/7"), ("POST", "/api/private"), ("POST", "/api/e500"), ("POST", "/a.css")]))
        b = draw(st.one_of(gen.text(gen.NONUL, 400, (255, 256)), gen.blob(20000 if big else 2000, 1024, 4096, nul=False)))
    else:
        m, u = "POST", draw(st.sampled_from(["/api/u", "/api/u", "/api/u", "/api/d", "/api/item/9", "/api/private"]))
        b = [draw(mp.boundary()), draw(mp.parts(maximum=4))]
    return {"m": m, "u": u + q, "h": hs, "b": b}


def render(r):
    """bytes of a request, or None if it is not well-formed after all"""
    hs = list(r["h"])
    if isinstance(r["b"], list):
        (bd, line), ps = r["b"]
        body = mp.render(ps, bd)
        if body is None:
            return None
        hs.append(line)
    else:
        body = gen.expand(r["b"])
    if body:
        hs.append("Content-Length: %d" % len(body))
    return http.request(r["m"], r["u"], hs, body)


def label(r):
    if isinstance(r["b"], list): return "multipart"
    if r["b"]: return "body"
    return "api" if r["u"].lower().startswith("/api") else "static"


SEQ = re.compile(rb'"seq":[0-9]+')


def norm(raw):
    """A response with everything that differs from one time to the next masked: the number of
    the event and the thread's number in the name of an uploaded file."""
    head, sep, body = raw.partition(b"\r\n\r\n")
    if b'"seq":' not in body:
        return raw
    try:
        d = json.loads(body)
        f = unhex(d["f"])
    except (ValueError, KeyError, TypeError):
        return raw
    d["seq"] = 0
    d["f"] = mp.mask(f)
    d["t"] = [[re.sub(r"^[0-9]+-", "*-", n), a, b] for n, a, b in d["t"]]
    n = re.search(rb"\r\nContent-Length: ([0-9]+)", head)
    if n and int(n.group(1)) == len(body):
        head = head[:n.start(1)] + b"*" + head[n.end(1):]
    return head + sep + json.dumps(d, sort_keys=True).encode() + body[len(body.rstrip()):]


# ---- bytes that are not a well-formed request ----
TOK = [b"\r\n", b"\n", b"\r", b" ", b":", b"\0", b"Content-Length: ", b"Content-Length: -1\r\n", b"Content-Length: 99999999999999999999\r\n", b"Content-Length: 2147483648\r\n", b"Content-Length: 5\r\n", b"Content-Length:\r\n",
       b"Content-Type: multipart/form-data; boundary=x\r\n", b"Content-Type: multipart/form-data\r\n", b"Content-Type: multipart/form-data; boundary=\r\n", b"Content-Type: ;\r\n", b"Content-Type:\r\n", b"Content-Type: multipart/form-data; boundary=\"\r\n",
       b"Content-Type: multipart/form-data; boundary=" + b"B" * 120 + b"\r\n", b"--x\r\n", b"--x--", b"--x", b"Content-Disposition: form-data; name=\"", b"form-data; name=\"a\"", b"; filename=\"", b"; filename=\"" + b"F" * 400 + b"\"",
       b"Cookie: WSSESSION=", b"Cookie:", b"Cookie: ;", b"X-Session: ", b"X-Session:\r\n", b"X-Real-IP: " + b"9" * 60, b"X-Real-IP:\r\n", b"Authorization:", b"GET ", b"POST ", b"/api/", b"/api/item/", b"?", b"..", b"/../", b"HTTP/1.1",
       b"%s%s%s%n%n", b"A" * 70, b"A" * 300, b"A" * 1100, b": " * 40, b"\xff" * 10, b"\x80", b"=", b"&", b"{", b"}", b"\"", b"X:Y\r\n" * 30, b"\r\n\r\n", b"Referer: %s%n\r\n", b"User-Agent:\r\n"]


@st.composite
def mutation(draw):
    """[op, position (of 10000), argument]"""
    op = draw(st.sampled_from(["ins", "ins", "ins", "del", "flip", "dup", "trunc", "tok", "tok", "tok", "eol", "cl"]))
    pos = draw(st.integers(0, 10000))
    if op == "ins": a = draw(st.binary(min_size=1, max_size=8)).decode("latin-1")
    elif op == "tok": a = draw(st.integers(0, len(TOK) - 1))
    elif op == "cl": a = draw(st.sampled_from(["0", "-1", "1", "00000007", "2147483647", "4294967296", "9223372036854775807", "99999999999999999999", "0x10", "abc", "", "5 5", "1e3", "-99999999999999999999"]))
    else: a = draw(st.integers(1, 64))
    return [op, pos, a]


def mutate(b, ms):
    for op, pos, a in ms:
        p = len(b) * pos // 10000
        if op == "ins": b = b[:p] + a.encode("latin-1") + b[p:]
        elif op == "del": b = b[:p] + b[p + a:]
        elif op == "flip": b = b[:p] + bytes([b[p] ^ (1 << a % 8)]) + b[p + 1:] if p < len(b) else b
        elif op == "dup": b = b[:p] + b[p:p + a * 8] * 2 + b[p + a * 8:]
        elif op == "trunc": b = b[:p]
        elif op == "tok": b = b[:p] + TOK[a] + b[p:]
        elif op == "eol": b = b.replace(b"\r\n", b"\n" if a % 2 else b"\r", a)
        elif op == "cl": b = re.sub(rb"Content-Length: ?[0-9]+", b"Content-Length: " + a.encode(), b)
    return b


@st.composite
def dense(draw):
    """Many parts, each of them as short as the server accepts it, or shorter"""
    b = draw(st.sampled_from(["", "", "b", "-", "ab"]))
    kinds = draw(st.lists(st.tuples(st.sampled_from(["form-data; name=\"", "content-disposition:form-data; name=\"", "name=\"", ""]), st.sampled_from(["", "", "a", "\""]),
                                    st.sampled_from(["; filename=\"", "\"; filename=\"", "\"; filename=\"\"", "\"", ""]), st.sampled_from(["\r\n\r\n", "\r\n\r\n", "\r\n\r\nx", "\r\n"]),
                                    st.sampled_from(["\r\n", "\r\n", "\r", ""])), min_size=1, max_size=3))
    n = draw(st.sampled_from([1, 2, 3, 10, 50, 300]))
    one = "".join("--" + b + "".join(k) for k in kinds)
    body = one * n + "--" + b + draw(st.sampled_from(["--\r\n", "--", ""]))
    return "POST /api/u HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=%s\r\nContent-Length: %d\r\n\r\n%s" % (b, len(body) + draw(st.sampled_from([0, 0, 0, -1, 1])), body)


@st.composite
def hostile(draw, **kw):
    """Any bytes: {r: request, x: mutations} or {raw: text}"""
    if draw(st.integers(0, 14)) == 0:
        t = [TOK[draw(st.integers(0, len(TOK) - 1))] if draw(st.booleans()) else draw(st.binary(max_size=20)) for _ in range(draw(st.integers(0, 12)))]
        return {"raw": b"".join(t).decode("latin-1")}
    if draw(st.integers(0, 14)) == 0:
        return {"raw": draw(dense()), "parts": 1}
    return {"r": draw(request(**kw)), "x": draw(st.lists(mutation(), max_size=5))}


def hostile_bytes(c):
    if "raw" in c:
        return c["raw"].encode("latin-1")
    b = render(c["r"])
    return None if b is None else mutate(b, c["x"])


def cut(data, cuts):
    """Pieces of data; cuts are positions of 10000, or negative: that many bytes after an interesting place"""
    marks = [m.start() for m in re.finditer(rb"\r\n|--|=|:", data)] or [0]
    at = sorted({min(len(data), marks[-c // 4 % len(marks)] + -c % 4) if c < 0 else len(data) * c // 10000 for c in cuts})
    out, p = [], 0
    for a in at + [len(data)]:
        if a > p:
            out.append(data[p:a])
            p = a
    return out


CUTS = st.one_of(st.lists(st.integers(0, 10000), max_size=4), st.lists(st.integers(-4000, -1), min_size=1, max_size=6))
