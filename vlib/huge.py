"""Sparse files of several GB: zeros with marks here and there, most of them where counters are full."""
import os, random, socket, ssl
from .core import Violation
from . import http

EDGES = [1 << 16, 1 << 30, 1 << 31, 3 << 30, 1 << 32, 1 << 33]


def marks(size, seed):
    """offset -> bytes, apart from each other"""
    g = random.Random(seed)
    at = {0, max(0, size - 64)} | {e + d for e in EDGES for d in (-64, 0, 8192)} | {g.randrange(max(1, size)) for _ in range(60)}
    out, last = [], -100
    for o in sorted(at):
        if o >= last + 64 and o + 64 <= size:
            out.append((o, bytes(g.randrange(1, 256) for _ in range(64))))
            last = o
    return out


def make(path, size, seed):
    with open(path, "wb") as f:
        f.truncate(size)
        for o, b in marks(size, seed):
            f.seek(o)
            f.write(b)
    os.chmod(path, 0o644)


class Reader:
    """Fed with the content in pieces"""
    def __init__(self, size, seed, what):
        self.size, self.what, self.pos = size, what, 0
        self.marks = marks(size, seed)

    def feed(self, d):
        end = self.pos + len(d)
        want = None
        for o, b in self.marks:
            if o < end and o + len(b) > self.pos:
                if want is None:
                    want = bytearray(len(d))
                for i, c in enumerate(b):
                    if self.pos <= o + i < end:
                        want[o + i - self.pos] = c
        if d != (bytes(len(d)) if want is None else bytes(want)):
            self.bad("a byte between %d and %d differs" % (self.pos, end))
        self.marks = [m for m in self.marks if m[0] + 64 > end]
        self.pos = end
        if end > self.size:
            self.bad("more than the file")

    def end(self):
        if self.pos != self.size:
            self.bad("only %d bytes" % self.pos)

    def bad(self, m):
        raise Violation("%s, a file of %d bytes: %s" % (self.what, self.size, m))


def download(recv, size, seed, what):
    """Takes a whole answer from recv; returns its header section and total length"""
    r, head = Reader(size, seed, what), b""
    while b"\r\n\r\n" not in head:
        d = recv(1 << 20)
        if not d:
            r.bad("answered %r" % head[:300])
        head += d
    head, _, d = head.partition(b"\r\n\r\n")
    if not head.startswith(b"HTTP/1.1 200"):
        r.bad("answered %r" % head[:300])
    r.feed(d)
    while d := recv(1 << 20):
        r.feed(d)
    r.end()
    return head, len(head) + 4 + size


def fetch(s, path, size, seed, ctx=None):
    """GET of a huge file from the Server s, by TLS if a context is given"""
    what = "GET %s%s" % (path, " over TLS" if ctx else "")
    c = s.inject()
    try:
        if ctx:
            c = ctx.wrap_socket(c, suppress_ragged_eofs=False)
        c.sendall(http.request("GET", path))
        return download(c.recv, size, seed, what)
    except socket.timeout:
        s.alive()
        raise Violation("%s, a file of %d bytes: no end of the answer" % (what, size), "hang")
    except (ssl.SSLError, OSError) as e:
        s.alive()
        raise Violation("%s, a file of %d bytes: %s" % (what, size, e))
    finally:
        c.close()


PERIOD = bytes(10 if v == 31 else v for v in ((i * i * 7 + i * 13) % 96 + 31 for i in range(4093)))
WHOLE = PERIOD * 600
HELPER = dict(j="return_json_with_status", t="return_json_stream", s="send_http_status")


def giant(s, kind, status, n, ctx=None):
    """The answer of a helper that sends n bytes of text; returns its length"""
    what = "%s of a text of %d bytes, status %d%s" % (HELPER[kind], n, status, ", over TLS" if ctx else "")
    def bad(m):
        raise Violation("%s: %s" % (what, m))
    s.routes([("GET:/g", "G", "-", "%s %d %d" % (kind, status, n), "")])
    c = s.inject()
    try:
        if ctx:
            c = ctx.wrap_socket(c, suppress_ragged_eofs=False)
        c.sendall(http.request("GET", "/api/g"))
        head = b""
        while b"\r\n\r\n" not in head:
            d = c.recv(1 << 20)
            if not d:
                bad("answered %r" % head[:300])
            head += d
        head, _, d = head.partition(b"\r\n\r\n")
        if not head.startswith(b"HTTP/1.1 %d " % status):
            bad("answered %r" % head[:300])
        if kind != "t" and b"\r\nContent-Length: %d" % (n + 2) not in head:
            bad("announced as %r" % head)
        pos, end = 0, b""
        while True:
            k = min(len(d), n - pos)
            if d[:k] != WHOLE[pos % 4093:pos % 4093 + k]:
                bad("a byte between %d and %d differs" % (pos, pos + k))
            pos += k
            end += d[k:]
            d = c.recv(1 << 20, 0 if ctx else socket.MSG_WAITALL)
            if not d:
                break
        if pos != n or end != b"\r\n":
            bad("the answer has %d bytes of it, and %r after them" % (pos, end[:100]))
        return len(head) + 4 + n + 2
    except socket.timeout:
        s.alive()
        bad("no end of the answer")
    except (ssl.SSLError, OSError) as e:
        s.alive()
        bad(str(e))
    finally:
        c.close()
