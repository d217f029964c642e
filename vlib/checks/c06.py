import json, random
from hypothesis import strategies as st
from ..core import Check, Result, Violation, campaign_of, derive
from ..procs import Server, Unit, short
from .. import gen, http, huge, tls
from .c21 import JVAL

OK = [200, 201, 400, 401, 403, 404, 429, 500]
BAD = st.one_of(st.sampled_from([0, -1, 1, 20, 99, 100, 199, 202, 204, 301, 302, 304, 399, 402, 405, 428, 430, 499, 501, 503, 2000, 4040]), st.integers(-2**31, 2**31 - 1))
STATUS = st.one_of(st.sampled_from(OK), st.sampled_from(OK), st.sampled_from(OK), BAD)
TXT = st.one_of(st.sampled_from(["", "x", "\r\n", "\r\n\r\n", "HTTP/1.1 200 OK\r\n", "Content-Length: 3\r\n\r\n", "%s%n%d"]),
                gen.text(gen.NONUL, 6000, (100, 255, 512, 1021, 1022, 1023, 1024, 2045, 2046, 4096)), gen.text("ab\n", 6000, (1022, 1023, 1024, 2044)))
FIXED = dict(ok=200, created=201, bad_request=400, not_authenticated=401, forbidden=403, not_found=404, too_many_connections=429, internal_server_error=500)
MIMES = {"text/html": "text/html", "image/png": "image/png", "image/jpeg": "image/jpeg", "application/zip": "application/zip", "text/css": "text/css",
         "text/plain": "text/plain", "text/csv": "text/csv", "text/yaml": "text/yaml", "application/octet-stream": "application/octet-stream",
         "": "application/octet-stream", "TEXT/HTML": "application/octet-stream", "text/htm": "application/octet-stream", "audio/mp3": "application/octet-stream"}


@st.composite
def case(draw):
    h = draw(st.sampled_from(["send_http_status"] * 3 + ["return_json"] * 2 + ["return_json_with_status"] * 3 + ["return_json_stream"] * 3 +
                             ["return_json_list", "error400", "error403", "error500", "created_with_json", "fixed", "fixed", "mime", "json_headers"]))
    s, t, t2 = 0, "", ""
    if h in ("send_http_status", "return_json_with_status", "return_json_stream", "json_headers", "mime"):
        s = draw(STATUS)
    if h == "fixed":
        h = draw(st.sampled_from(sorted(FIXED)))
    elif h == "return_json_list":
        s, t = draw(st.one_of(st.integers(0, 5), st.sampled_from([50, 300]))), json.dumps(draw(JVAL))
    else:
        t = draw(st.one_of(TXT, JVAL.map(json.dumps)))
        if h.startswith("error"):
            t, t2 = t[:63], draw(TXT)[:1023]
            if draw(st.integers(0, 5)) == 0: t = ""
        if h == "mime":
            t2 = draw(st.sampled_from(sorted(MIMES)))
    if h not in FIXED and h != "return_json_list" and not h.startswith("error") and draw(st.integers(0, 60)) == 0:
        # sizes at the bounds of narrow integers
        t = "[" + "7" * (draw(st.one_of(gen.near(32767, 65534, 65536, 131072), st.sampled_from([99998, 999999, 1000000]))) - 2) + "]"
    return [h, s, t, t2]


class C06(Check):
    pid = "C06"
    builds = ("unit", "server")
    quick, thorough = 16000, 300000
    batch = 1500
    rule = "One helper call per case, its bytes parsed strictly; non-trivial = a payload of its own, or an unsupported status."
    assumptions = ["texts are NUL free; the connection accepts all bytes"]

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        u = Unit(ctx)
        u.ctx = ctx
        return u

    def prepare(self, bins, top):
        bins["ssl"] = tls.make_cert(top + "/ssl")

    def campaign(self, bins, top, tier, seed, log):
        """Answers of a size that fills counters, from a server"""
        g = random.Random(derive(seed, 6))
        n = lambda: (1 << 31) + g.randrange(-3, 5000)
        cs = [("j", 200, n(), False), ("t", 200, g.randrange(1 << 25, 1 << 26), False)]
        if tier != "quick":
            cs += [("s", 404, n(), False), ("j", 201, n(), True), ("t", 500, (1 << 32) + 7, False), ("t", 200, n(), True), ("j", 200, (1 << 32) + g.randrange(5000), False)]
        return campaign_of(self, bins, top, tier, [("%s of %d bytes" % (huge.HELPER[k], m), dict(kind=k, status=st_, n=m, secure=sec)) for k, st_, m, sec in cs], log), dict(large_answers=[c[2] for c in cs])

    def large(self, u, c):
        s = Server(u.ctx, cap=2, timeout=60, asan=":max_allocation_size_mb=9000", ssl=u.ctx.bins["ssl"] if c["secure"] else None)
        try:
            huge.giant(s, c["kind"], c["status"], c["n"], tls.context() if c["secure"] else None)
        finally:
            s.close()
        return Result(["large"], True)

    def run(self, u, c):
        if isinstance(c, dict):
            return self.large(u, c)
        h, s, t, t2 = c
        out, n = u.raw("helper", h, s, t, t2, "", "1.2.3.4", "GET / HTTP/1.1", None, None)
        what = short(c, 600)
        payload = t.encode("latin-1")
        if h in ("send_http_status", "return_json_with_status", "return_json_stream", "json_headers", "mime"):
            if s not in OK:
                if h in ("mime", "json_headers"):
                    if out:
                        raise Violation("%s sends %s for an unsupported status" % (what, short(out)))
                elif out:
                    raise Violation("%s sends %s for an unsupported status" % (what, short(out)))
                return Result([h, "unsupported status"], True)
            want = s
        elif h in FIXED:
            want = FIXED[h]
        else:
            want = dict(return_json=200, return_json_list=200, created_with_json=201, error400=400, error403=403, error500=500)[h]
        r = http.parse(out, what)
        if r.status != want:
            raise Violation("%s: status %d" % (what, r.status))
        if h in FIXED or h == "send_http_status":
            body = payload + b"\r\n" if payload and h == "send_http_status" else b""
            if r.body != body or r.get("Content-Length") is None:
                raise Violation("%s: response %s" % (what, short(out)))
            return Result([h, "message" if payload else "no message"], bool(payload))
        if h == "mime":
            if r.get("Content-Type") != MIMES[t2] or r.body != payload:
                raise Violation("%s: response %s" % (what, short(out)))
            return Result([h], True)
        if h == "json_headers":
            r.body += b"\r\n"
        got = http.json_body(r, what)
        if h == "return_json_list":
            ok = same(got, [json.loads(t)] * s)
        elif h.startswith("error"):
            ok = same(got, {"code": t or "UNKNOWN", "message": t2})
        else:
            ok = got == payload
        if not ok:
            raise Violation("%s: payload %s" % (what, short(got)))
        return Result([h] + ["over 1023 bytes"] * (len(payload) > 1023), bool(payload))


def same(got, want):
    try:
        return json.loads(got.decode("latin-1")) == want
    except ValueError:
        return False


CHECK = C06()
