from hypothesis import strategies as st
import hashlib, os, random, shutil
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Server, short
from .. import gen, http, mp
from .c09 import snapshot


@st.composite
def upload(draw, big):
    ps = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        data = draw(mp.filedata())
        if big and draw(st.integers(0, 2)) == 0:
            data = draw(gen.blob(draw(st.sampled_from([70000, 200000])), 4096, 65536, 131072))
        ps.append(["file", draw(mp.NAME), data, draw(st.sampled_from([[], ["Content-Type: application/octet-stream"]])), False, "Content-Disposition: ", draw(mp.FILENAME)])
    if draw(st.integers(0, 3)) == 0:
        ps.insert(draw(st.integers(0, len(ps))), ["field", "f", draw(mp.text()), [], False, "Content-Disposition: ", None])
    return ps


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 4, 8]))
    ups = [draw(upload(draw(st.integers(0, 14)) == 0)) for _ in range(n)]
    seed = draw(st.integers(0, 1 << 30))
    if n > 1 and draw(st.booleans()):
        # the same files, or files that differ in one byte, at the same time
        for u in ups[1:]:
            for p, q in zip(u, ups[0]):
                if p[0] == q[0] == "file":
                    p[2] = q[2]
        if draw(st.booleans()) and isinstance(ups[0][0][2], str) and ups[0][0][0] == "file":
            ups[0][0][2] = ups[0][0][2] + "x"
    for u in ups:
        mp.nearly(draw, u, "bNdRy-%d" % (seed % 1000))
    if draw(st.integers(0, 24)) == 0 and ups[0][0][0] == "file":
        ups[0][0][2] = {"n": draw(st.one_of(st.sampled_from([1 << 20, 1 << 20, 1 << 19, 1 << 18, 1 << 17, 1 << 16]), gen.near(*(1 << i for i in range(9, 21)), 96 * 1024, 100000, 1000000))), "s": 1, "k": draw(st.sampled_from(["mixed", "zero", "lines"]))}
    # what keeps files from being stored: the folder cannot be written, or a file of that many bytes does not fit
    fault = None if draw(st.integers(0, 14)) else draw(st.one_of(st.just("0 /up/"), st.sampled_from([1, 10, 100, 511, 512, 4095, 4096, 4097, 65536]).map(str)))
    # the folder may have been cleaned away since the server started
    gone = fault is None and draw(st.integers(0, 9)) == 0
    return [ups, seed, draw(st.sampled_from([0, 0, 30, 200])), draw(st.booleans()), fault, gone]


class C11(Check):
    pid = "C11"
    builds = ("server_p",)
    quick, thorough = 4000, 100000
    batch = 400
    replays = 6
    rule = ("Up to 8 upload requests with up to 3 files each, sent at the same time, per case, with delays injected at library calls in half of the cases; non-trivial = "
            "several files, a hostile file name, or contents over 512 bytes.")
    assumptions = ["no file contains the delimiter"]

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        s = Server(ctx, kind="server_p", cap=8)
        s.routes([("POST:/u", "d", "-", "", "")])
        s.put("root/www/index.html", "index")
        s.put("root/etc/passwd", "x")
        s.before = snapshot(s.dir)
        s.files = {}
        s.ctx = ctx
        return s

    def campaign(self, bins, top, tier, seed, log):
        """Large files: one at a time, in front of another part"""
        g = random.Random(derive(seed, 5))
        sizes = [g.randrange(1 << 21, 1 << 23)] + ([g.randrange(1 << 27, 1 << 28), (1 << 31) + g.randrange(-3000, 3000)] if tier != "quick" else [])
        return campaign_of(self, bins, top, tier, [("a file of %d bytes" % n, {"big": n, "s": g.randrange(1 << 16)}) for n in sizes], log), dict(large_files=sizes)

    def big(self, s0, c):
        n, g = c["big"], random.Random(c["s"])
        s = Server(s0.ctx, kind="server_p", cap=2, timeout=20 + n // 1000000, asan=":max_allocation_size_mb=12000")
        try:
            s.routes([("POST:/u", "d", "-", "", "")])
            block = g.randbytes(1 << 20)
            pre, post = b'--bnd\r\nContent-Disposition: form-data; name="big"; filename="n"\r\n\r\n', b'\r\n--bnd\r\nContent-Disposition: form-data; name="next"\r\n\r\nvalue\r\n--bnd--\r\n'
            h, m = http.request("POST", "/api/u", ["Content-Type: multipart/form-data; boundary=bnd", "Content-Length: %d" % (n + len(pre) + len(post))]), hashlib.md5()
            k, sock = n, s.inject()
            send(sock, h + pre)
            while k:
                d = block[:k]
                m.update(d)
                send(sock, d)
                k -= len(d)
            send(sock, post)
            a = s.read_all(sock)
            sock.close()
            ev = s.events()
            what = "the upload of a file of %d bytes" % n
            http.parse(a, what)
            if len(ev) != 1 or mp.mask(ev[0]["f"]) != "big=n&tmpfile=*-%s&next=value" % m.hexdigest():
                raise Violation("%s of MD5 %s: the handler finds %s; the answer is %s" % (what, m.hexdigest(), short([e["f"] for e in ev], 500), short(a, 300)))
            name = mp.TMP.search(ev[0]["f"]).group(0)[8:]
            if os.listdir(s.dir + "/up") != [name]:
                raise Violation("%s, announced as %s; in the folder is %s" % (what, name, os.listdir(s.dir + "/up")))
            got = hashlib.md5()
            with open(s.dir + "/up/" + name, "rb") as f:
                while d := f.read(1 << 22):
                    got.update(d)
            if got.digest() != m.digest():
                raise Violation("%s: another one is stored, of %d bytes" % (what, os.path.getsize(s.dir + "/up/" + name)))
        finally:
            s.close()
            for x in os.listdir(s.dir + "/up"):
                os.unlink(s.dir + "/up/" + x)
        return Result(["large"], True)

    def run(self, s, case):
        if isinstance(case, dict):
            return self.big(s, case)
        ups, seed, permille, onebyone, fault = case[:5]
        gone = len(case) > 5 and case[5]
        s.cmd("D", "%d %d" % (seed % (1 << 31) + 1, permille))
        b = "bNdRy-%d" % (seed % 1000)
        bodies = [mp.render(u, b) for u in ups]
        if None in bodies:
            return Result(["not well-formed"], False)
        what = "uploads %s" % short([[[p[0], p[6], p[2]] for p in u] for u in ups], 1500)
        reqs = [http.request("POST", "/api/u", ["Content-Type: multipart/form-data; boundary=" + b, "Content-Length: %d" % len(x)], x) for x in bodies]
        s.cmd("F", fault or "0")
        if gone:
            shutil.rmtree(s.dir + "/up", True)
            s.files.clear()
        cs = [s.inject("10.0.0.%d" % (i + 1), wait=False) for i in range(len(ups))]
        s.sync()
        try:
            if onebyone or len(cs) == 1:
                for c, r in zip(cs, reqs):
                    send(c, r)
            else:
                # all but the last bytes first, so that the uploads are completed at the same time
                for c, r in zip(cs, reqs):
                    send(c, r[:-3])
                for c, r in zip(cs, reqs):
                    send(c, r[-3:])
            answers = [s.read_all(c) for c in cs]
        finally:
            for c in cs:
                c.close()
        ev = s.events()
        s.cmd("D", "1 0")
        s.cmd("F", "0")
        if len(ev) != len(ups) and not fault:
            raise Violation("%s: %d handlers ran" % (what, len(ev)))
        lab = []
        by_ip = {e["ip"]: e for e in ev}
        for i, (u, a) in enumerate(zip(ups, answers)):
            http.parse(a, what)
            e = by_ip.get("10.0.0.%d" % (i + 1))
            files = [gen.expand(p[2]) for p in u if p[0] == "file"]
            want, sums = mp.form(u)
            if fault:
                fits = fault[0] != "0" and all(len(f) <= int(fault) for f in files) or not files
                if e is None and not fits:
                    # the handler must not run, as the files are not there
                    if a[:12] != b"HTTP/1.1 500":
                        raise Violation("%s: upload %d cannot be stored (%s), the answer is %s" % (what, i, fault, short(a)))
                    lab.append("cannot be stored")
                    continue
            if e is None or mp.mask(e["f"]) != want:
                raise Violation("%s: upload %d: the form is %s, expected %s" % (what, i, short(e and e["f"]), short(want)))
            names = [m.group(0)[8:] for m in mp.TMP.finditer(e["f"])]
            # values of other fields are part of the form too: take the files' names in order
            got = [t for t in e["t"] if t[0] in names and t[1] >= 0 or t[0] in names]
            if len(got) != len(files):
                raise Violation("%s: upload %d: %d stored files announced" % (what, i, len(got)))
            for f, (n, size, sha) in zip(files, got):
                if not n.endswith(hashlib.md5(f).hexdigest()):
                    raise Violation("%s: upload %d: file of MD5 %s is announced as %s" % (what, i, hashlib.md5(f).hexdigest(), n))
                if size != len(f) or sha != hashlib.sha256(f).hexdigest():
                    raise Violation("%s: upload %d: the handler finds %s with %d bytes instead of the %d uploaded" % (what, i, n, size, len(f)))
                s.files[n] = (len(f), hashlib.sha256(f).hexdigest())
        up = s.dir + "/up"
        for n in os.listdir(up) if not fault and os.path.isdir(up) else ():
            d = open(up + "/" + n, "rb").read()
            if s.files.get(n) != (len(d), hashlib.sha256(d).hexdigest()):
                raise Violation("%s: the upload folder holds %s of %d bytes" % (what, n, len(d)))
        if os.path.isdir(up) and (len(os.listdir(up)) > 200 or fault):
            for n in os.listdir(up):
                os.unlink(up + "/" + n)
        if snapshot(s.dir) != s.before:
            raise Violation("%s: something outside the upload folder changed: %s" % (what, short(sorted(set(snapshot(s.dir)) ^ set(s.before)))))
        ps = [p for u in ups for p in u if p[0] == "file"]
        hostile = any("/" in p[6] or ".." in p[6] for p in ps)
        big = any(len(gen.expand(p[2])) > 512 for p in ps)
        nul = any(b"\0" in gen.expand(p[2]) for p in ps)
        return Result(sorted(set(lab)) + ["concurrent"] * (len(ups) > 1) + ["perturbed"] * (permille > 0) + ["hostile name"] * hostile + ["folder gone"] * gone + ["over 512 bytes"] * big + ["NUL bytes"] * nul +
                      ["several files in a request"] * any(sum(p[0] == "file" for p in u) > 1 for u in ups), len(ps) > 1 or hostile or big)


def send(c, d):
    try:
        c.sendall(d)
    except OSError:
        pass


CHECK = C11()
