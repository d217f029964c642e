from hypothesis import strategies as st
import os, random, re, shutil
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Server, short
from .. import gen, http, huge, wire

TYPES = {"html": "text/html", "js": "text/html", "png": "image/png", "jpg": "image/jpeg", "jpeg": "image/jpeg", "zip": "application/zip", "css": "text/css", "svg": "image/svg+xml",
         "ico": "image/vnd.microsoft.icon", "txt": "text/plain", "csv": "text/csv", "yaml": "text/yaml"}
NCH = "".join(c for c in gen.GRAPH + gen.HIGH if c not in "/?.")
EXT = st.one_of(st.sampled_from(sorted(TYPES)), st.sampled_from(["", "", "bin", "PNG", "htm", "html5", "txtx", "tx", "j", "gz", "tar.gz", "txt.zip", "zip.txt", "css.map", "jpe", "yml", "html~"]))
BASE = st.one_of(st.sampled_from(["a", "b", "index", "main", "favicon", "logo", "x-y", "%20", "a+b", "v1.2", "a..b"]), st.text(gen.chars(NCH), min_size=1, max_size=6), st.integers(1, 150).map(lambda n: "n" * n), st.integers(180, 245).map(lambda n: "m" * n))
DIR = st.one_of(st.sampled_from(["", "", "", "d/", "d/e/", "v1.2/", "site.zip/", "a.b.c/x/", "...x/", "api.d/"]), st.text(gen.chars(NCH), min_size=1, max_size=4).map(lambda s: s + "/"), st.tuples(st.integers(1, 3), st.integers(60, 150)).map(lambda t: (t[1] * "p" + "/") * t[0]))


@st.composite
def name(draw):
    e = draw(EXT)
    return draw(DIR) + draw(BASE) + ("." + e if e else "")


@st.composite
def case(draw):
    files = []
    for _ in range(draw(st.integers(1, 5))):
        big = draw(st.integers(0, 40))
        files.append([draw(name()), draw(gen.blob(draw(st.sampled_from([3000000, 3000000, 12000000])) if big == 0 else 70000 if big < 6 else 3000, 1023, 1024, 4095, 4096, 4097, 65536, 1 << 20, 1 << 22) if draw(st.booleans()) else gen.rawbytes(60))])
    if draw(st.booleans()):
        files.append([draw(DIR) + "index.html", draw(gen.rawbytes(60))])
    if draw(st.integers(0, 3)):
        files.append(["index.html", "front page " + draw(gen.rawbytes(20))])
    if draw(st.booleans()):
        files.append([draw(st.sampled_from(["favicon.ico", "main.html", "img/fav.png", "index"])), draw(gen.rawbytes(60))])
    conf = [draw(st.sampled_from(["/index.html", "/index.html", "/main.html", "/d/index.html", "/index", "/none.html"])), draw(st.sampled_from(["/favicon.ico", "/img/fav.png", "/none.ico"]))]
    urls = []
    for _ in range(draw(st.integers(1, 6))):
        n = draw(st.sampled_from(files))[0]
        k = draw(st.integers(0, 15))
        u = "/" + n
        if k == 0: u = "/"
        elif k == 1: u = "/index.html"
        elif k == 2: u = "/favicon.ico"
        elif k == 3: u = "/" + (n.rsplit("/", 1)[0] + "/" if "/" in n else "")
        elif k == 4: u = "/" + n.rsplit("/", 1)[0] if "/" in n else "/"
        elif k == 5: u = "/" + draw(name())
        elif k == 6: u = u + draw(st.sampled_from(["/", "x", "/x", ".html", "."]))
        elif k == 7: u = u[:-1] or "/"
        elif k == 8: u = draw(st.sampled_from(["//", "/./"])) + n
        elif k == 9: u = "".join(c.swapcase() if c.isascii() else c for c in u)
        q = draw(st.sampled_from(["", "", "", "?", "?a=1", "?x=/other.png", "?v=1.zip", "??", "?.css"]))
        urls.append(u + q)
    if draw(st.integers(0, 15)) == 0:
        # the index of a folder with a long path
        d = (draw(st.integers(40, 155)) * "q" + "/") * draw(st.integers(1, 3))
        files.append([d + "index.html", draw(gen.rawbytes(60))])
        urls.append("/" + d)
    if draw(st.integers(0, 149)) == 77:
        # a really large file
        n = draw(name())
        files.append([n, {"n": draw(st.sampled_from([1 << 20, 1 << 21, 1 << 22, 1 << 23, 10000000, 1 << 24])) + draw(st.integers(-2, 5000)), "s": draw(st.integers(0, 1 << 16)), "k": draw(st.sampled_from(["rand", "mixed", "lines"]))}])
        urls.append("/" + n)
    net = draw(wire.SOMETIMES)
    if net:
        # more than what is on the way at once
        n = draw(name())
        files.append([n, {"n": draw(st.one_of(st.integers(10000, 400000), st.integers(400000, 3000000))), "s": draw(st.integers(0, 1 << 16)), "k": "mixed"}])
        urls.append("/" + n)
    # a file that cannot be opened, as when descriptors are short
    return [files, conf, urls, draw(st.sampled_from(files))[0] if draw(st.integers(0, 11)) == 0 else None, net]


def ctype(path):
    b = path.rsplit("/", 1)[-1]
    if "." not in b:
        return "text/html"
    return TYPES.get(b.rsplit(".", 1)[1], "application/octet-stream")


class C08(Check):
    pid = "C08"
    builds = ("server",)
    quick, thorough = 3500, 80000
    batch = 500
    rule = ("One file tree and up to 6 requests per case; non-trivial = a file of over 1023 bytes or with NUL bytes is served, or the index page, icon or a folder's index.")
    assumptions = ["the last segment of a path neither begins nor ends with a dot", "the client reads the whole response"]

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        s = Server(ctx, cap=4)
        s.ctx = ctx
        return s

    def campaign(self, bins, top, tier, seed, log):
        """Files of several GB"""
        g = random.Random(derive(seed, 5))
        sizes = [(1 << 31) + g.randrange(-70, 70000)]
        if tier != "quick":
            sizes += [(1 << 31) - 1, 1 << 31, (1 << 31) + 1, (3 << 30) + g.randrange(1 << 20), (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + g.randrange(1 << 20), (1 << 33) + g.randrange(1 << 20)]
        return campaign_of(self, bins, top, tier, [("a file of %d bytes" % n, {"size": n, "seed": g.randrange(1 << 30), "name": g.choice(["a.zip", "d.csv", "x", "index.html"])}) for n in sizes], log), dict(huge_files=sizes)

    def huge(self, s, case):
        s = Server(s.ctx, cap=4)
        try:
            huge.make(s.root + "/www/" + case["name"], case["size"], case["seed"])
            s.www("index.html", "favicon.ico")
            head, _ = huge.fetch(s, "/" + case["name"], case["size"], case["seed"])
            for n, w in (("Content-Type", ctype(case["name"])), ("Content-Length", str(case["size"]))):
                m = re.search("\r\n%s: *([^\r]*)" % n, head.decode("latin-1") + "\r", re.I)
                if m and m.group(1) != w or not m and n == "Content-Type":
                    raise Violation("GET /%s, a file of %d bytes: answered with the header %s" % (case["name"], case["size"], short(head)))
            s.alive()
        finally:
            s.close()
            shutil.rmtree(s.root + "/www")
        return Result(["huge"], True)

    def run(self, s, case):
        if isinstance(case, dict):
            return self.huge(s, case)
        files, conf, urls, shut, net = case
        root = s.root + "/www"
        for n in os.listdir(root):
            p = root + "/" + n
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        for n, c in files:
            p = (root + "/" + n).encode("latin-1")
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(gen.expand(c))
            except (FileExistsError, IsADirectoryError, NotADirectoryError):
                pass
        s.www(*conf)
        lab, nt = set(), False
        closed = lambda f: shut and ("/" + shut).encode("latin-1") in f
        if shut: s.cmd("F", ("0 /" + shut).encode("latin-1"))
        for u in urls:
            if len(u) > 500:
                continue
            path = u.split("?")[0]
            b = path.rsplit("/", 1)[-1]
            if b[:1] == "." or b[-1:] == "." or path[:4].lower() == "/api":
                continue
            kind = "file"
            if path in ("/", "/index.html"): path, kind = conf[0], "index page"
            elif path == "/favicon.ico": path, kind = conf[1], "icon"
            elif path.endswith("/"): path, kind = path + "index.html", "folder index"
            f = (root + "/" + path).encode("latin-1")
            if not os.path.isfile(f):
                path, kind = conf[0], "fallback"
                f = (root + "/" + path).encode("latin-1")
            want = open(f, "rb").read() if os.path.isfile(f) else None
            if closed(f):
                # it may be served in spite of that; if not, it is answered as if it were not there
                lab.add("cannot be opened")
                r = http.parse(s.exchange(http.request("GET", u)), "GET " + short(u))
                f = (root + "/" + conf[0]).encode("latin-1")
                if r.status == 404 and not r.body or r.status == 200 and (r.body == want or os.path.isfile(f) and r.body == open(f, "rb").read()):
                    continue
                raise Violation("GET %s of a file that cannot be opened: status %d with %d bytes, file %d bytes" % (short(u), r.status, len(r.body), len(want or b"")))
            ans = wire.exchange(s, http.request("GET", u), net) if net else s.exchange(http.request("GET", u))
            what = "GET %s%s with files %s, index %s, icon %s" % (short(u), " (%s)" % wire.name(net) if net else "", short([(n, len(gen.expand(c))) for n, c in files]), *conf)
            r = http.parse(ans, what)
            if want is None:
                if r.status != 404 or r.body:
                    raise Violation("%s: no file, but the answer is %s" % (what, short(ans)))
                lab.add("not found")
                continue
            if r.status != 200:
                raise Violation("%s: status %d instead of the file %s" % (what, r.status, path))
            if r.body != want:
                from .c28 import diff
                raise Violation("%s: %d bytes instead of the %d of %s, first difference at %d" % (what, len(r.body), len(want), path, diff(r.body, want)))
            if r.get("Content-Type") != ctype(path):
                raise Violation("%s: content type %s for %s" % (what, r.get("Content-Type"), path))
            lab.add(kind)
            lab.add(ctype(path))
            if b"\0" in want: lab.add("NUL bytes")
            if len(want) > 1023: lab.add("over 1023 bytes")
            if len(want) > 1000000: lab.add("over 1 MB")
            if not want: lab.add("empty")
            if net and len(want) > 30000: lab.add("over TCP" + (", more is sent" if net[2] else ""))
            nt |= len(want) > 1023 or b"\0" in want or kind != "file"
        if shut: s.cmd("F", "0")
        return Result(sorted(lab), nt)


CHECK = C08()
