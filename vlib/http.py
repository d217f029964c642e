"""A strict parser for the responses the server sends."""
import re
from .core import Violation
from .procs import short

STATUS = {200, 201, 400, 401, 403, 404, 429, 500}
START = re.compile(rb"HTTP/1\.1 ([0-9]{3}) ([\x20-\x7e]+)\Z")
HEADER = re.compile(rb"([!#$%&'*+.^_`|~0-9A-Za-z-]+):[ \t]*([^\r\n]*)\Z")


class Response:
    __slots__ = ("status", "headers", "body", "raw")

    def get(self, name):
        v = [v for n, v in self.headers if n.lower() == name.lower()]
        if len(v) > 1:
            raise Violation("header %s occurs %d times in %s" % (name, len(v), short(self.raw, 600)))
        return v[0] if v else None


def parse(raw, what=""):
    def bad(m):
        raise Violation("%s: %s in the response %s" % (what, m, short(raw, 800)))
    head, sep, body = raw.partition(b"\r\n\r\n")
    if not sep:
        bad("no end of the header section")
    lines = head.split(b"\r\n")
    m = START.match(lines[0])
    if not m:
        bad("bad status line")
    r = Response()
    r.raw, r.body, r.headers, r.status = raw, body, [], int(m.group(1))
    if r.status not in STATUS:
        bad("unknown status")
    for l in lines[1:]:
        m = HEADER.match(l)
        if not m:
            bad("bad header line %r" % l)
        r.headers.append((m.group(1).decode(), m.group(2).decode("latin-1")))
    if r.get("Server") is None or not r.get("Server").startswith("WAYUU"):
        bad("no Server header")
    cl = r.get("Content-Length")
    if cl is not None and (not re.match(r"[0-9]+\Z", cl) or int(cl) != len(body)):
        bad("Content-Length %s with %d body bytes" % (cl, len(body)))
    return r


def json_body(r, what=""):
    """The payload of a JSON reply, without the line end after it"""
    if r.get("Content-Type") != "application/json":
        raise Violation("%s: Content-Type %r of a JSON reply" % (what, r.get("Content-Type")))
    for h in ("Access-Control-Allow-Origin", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers"):
        if not r.get(h):
            raise Violation("%s: no %s in %s" % (what, h, short(r.raw, 600)))
    if not r.body.endswith(b"\r\n"):
        raise Violation("%s: no line end after the payload in %s" % (what, short(r.raw, 600)))
    return r.body[:-2]


def request(method, url, headers=(), body=b"", version="HTTP/1.1", eol="\r\n"):
    h = "".join("%s%s" % (l, eol) for l in headers)
    return ("%s %s %s%s%s%s" % (method, url, version, eol, h, eol)).encode("latin-1") + body
