from hypothesis import strategies as st
import os
from ..core import Check, Result, Violation
from ..procs import Server, short
from .. import gen, http

# files outside the static root, and inside
OUT = ["secret.txt", "root/secret.txt", "root/etc/passwd", "root/ssl/key.pem", "root/www-private/secret.txt", "root/www2", "root/wwwsecret.txt", "root/index.html", "index.html", "root/etc/index.html", "root/.hidden",
       "root/www.bak/index.html", "root/www..", "outer/x/secret.txt"]
IN = ["index.html", "f.txt", "sub/index.html", "sub/deep/g.txt", "..name", "name..", "a..b/c..d", ".../x", "..x/y.txt", "x../y", "....", "%2e%2e/z", "..;/w", "etc/passwd", "root/www/h", "..%2fsecret.txt", "sub/..y"]
SEGS = ["..", "..", "..", ".", "", "...", "....", "..;", "%2e%2e", "%2E%2E", "..%2f", "%2e.", ".%2e", "..\\", "\\..", "..\0"[:2], " ..", "..\xa0", "..#", "..&", "~", "etc", "ssl", "www", "www-private", "root", "sub", "deep", "passwd", "key.pem",
        "secret.txt", "www2", "wwwsecret.txt", "index.html", ".hidden", "f.txt", "x", "..name", "name..", "g.txt", "outer", "\xc0\xae\xc0\xae", "..%00", "%252e%252e", "www..", "www.bak"]


@st.composite
def url(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return "/" + draw(st.sampled_from(IN))
    up = draw(st.integers(1, 6))
    if k < 4:
        # a plausible way out to a known file, with noise
        f = draw(st.sampled_from(OUT))
        rel = f[len("root/"):] if f.startswith("root/") else "../" + f
        pre = draw(st.sampled_from(["", "/", "//", "/./", "/sub/", "/sub/deep/", "/x/", "/f.txt/"]))
        dots = draw(st.sampled_from(["..", "..", "..", "%2e%2e", ".%2e", "..;", "....", "..\\"]))
        n = max(1, pre.count("/") - 1 + draw(st.integers(-1, 2)))
        s = pre + "/".join([dots] * n) + draw(st.sampled_from(["/", "/", "/", "//", "/./"])) + rel
        if draw(st.integers(0, 5)) == 0 and len(s) < 400:
            # so long that a cut could change it
            s = "/" + "/".join(["sub/.."] * draw(st.integers(1, 60))) + s
            s = s[:draw(st.integers(300, 511))] if len(s) > 300 else s
        elif draw(st.integers(0, 5)) == 0:
            # far behind in the path
            s = (draw(st.sampled_from(["/.", "/", "/./"])) * 500)[:draw(st.integers(1, 500 - min(len(s), 450)))].rstrip(".") + s
    elif k < 5:
        s = draw(st.sampled_from(["-private/secret.txt", "secret.txt", "2", "..", ".bak/index.html", "../secret.txt", "..secret.txt", "etc/passwd"]))
    elif k < 6:
        s = draw(st.sampled_from(["/api/", "/API/", "/api/sub/", "/api"])) + "/".join([".."] * up) + "/" + draw(st.sampled_from(OUT))
    else:
        s = draw(st.sampled_from(["/", "/", "", "//"])) + "/".join(draw(st.lists(st.sampled_from(SEGS), min_size=1, max_size=8)))
    if draw(st.integers(0, 5)) == 0:
        s += draw(st.sampled_from(["?", "?../..", "?x=/../", "/", "/.", "/..", "#", "%00"]))
    return s


class C09(Check):
    pid = "C09"
    builds = ("server",)
    quick, thorough = 6000, 200000
    batch = 1000
    rule = "Up to 4 requests per case over a tree with marked files around the root; non-trivial = a request with a '..' in any spelling, or without a leading slash."
    assumptions = ["links inside the root that lead out are the operator's choice and not part of the trees"]

    def strategy(self, tier):
        return st.lists(st.tuples(st.sampled_from(["GET", "GET", "GET", "GET", "get", "POST", "PUT", "DELETE"]), url()).map(list), min_size=1, max_size=4)

    def open(self, ctx):
        s = Server(ctx, cap=4)
        for n in OUT:
            s.put(n, "OUTSIDE-SECRET " + n)
        for n in IN:
            s.put("root/www/" + n, "INSIDE " + n)
        os.makedirs(s.root + "/www/real/..x", exist_ok=True)
        s.tree = snapshot(s.dir)
        return s

    def run(self, s, case):
        lab, nt = set(), False
        for m, u in case:
            if any(c in " \t\n\v\f\r\0" for c in u):
                u = u.replace(" ", "%20")
            ans = s.exchange(http.request(m, u))
            what = "%s %s" % (m, short(u))
            if b"OUTSIDE" in ans:
                raise Violation("%s serves a file outside the root: %s" % (what, short(ans)))
            r = http.parse(ans, what)
            path = u.split("?")[0]
            segs = path.split("/")
            f = (s.root + "/www/" + path).encode("latin-1")
            if m == "GET" and len(u) < 500 and ".." not in segs and not path.lower().startswith("/api") and path not in ("/", "") and not path.endswith("/") and os.path.isfile(f):
                if r.status != 200 or r.body != open(f, "rb").read():
                    raise Violation("%s: a file inside the root is not served: %s" % (what, short(ans)))
                lab.add("inside")
            dots = ".." in path or "%2e" in path.lower()
            lab.add("parent segment" if ".." in segs else "look-alike" if dots else "no leading slash" if not path.startswith("/") else "plain")
            lab.add("status %d" % r.status)
            nt |= dots or not path.startswith("/")
        t = snapshot(s.dir)
        if t != s.tree:
            raise Violation("%s: files outside changed: %s" % (short(case), short(sorted(set(t) ^ set(s.tree)) or [k for k in t if t[k] != s.tree[k]])))
        return Result(sorted(lab), nt)


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        if p == d:
            ds[:] = [x for x in ds if x not in ("log", "up")]
        for n in ds:
            out[os.path.join(p, n)] = "dir"
        for n in fs:
            if p == d and n == "stderr":
                continue
            f = os.path.join(p, n)
            i = os.lstat(f)
            out[f] = (i.st_size, i.st_mtime_ns, i.st_mode)
    return out


CHECK = C09()
