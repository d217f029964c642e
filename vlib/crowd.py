"""Very many requests to one server from clients within its process (command H of harness/server.c)."""
import struct
from hypothesis import strategies as st
from .core import Violation, sample, derive
from .procs import short
from . import reqs


def requests(n, seed):
    """About n well-formed requests whose answers are the same bytes each time"""
    # (the names of uploaded files are not)
    ok = lambda r: not (isinstance(r["b"], list) and any("filename" in p or "file" in p for p in map(str, r["b"][1]))) and "/util" not in r["u"]
    return [r for r in sample(reqs.request(silent=False, big=False), n, seed) if ok(r)]


def run(s, items, clients, total, rude, seed, timeout):
    """items: (request, answer, address). Returns how often each was answered; a Violation if one was not as given."""
    blob = lambda b: struct.pack("<I", len(b)) + b
    pl = struct.pack("<6I", clients, total, rude, timeout, seed, len(items)) + b"".join(blob(d) + blob(a) + blob(ip.encode()) for d, a, ip in items)
    s.ctl.settimeout(600)
    try:
        got = s.cmd("H", pl)
    finally:
        s.ctl.settimeout(s.timeout)
    n = 4 * len(items)
    counts = struct.unpack("<%dI" % len(items), got[:n])
    if got[n:]:
        i = struct.unpack("<I", got[n:n + 4])[0]
        late, cut, a = got[n + 4:n + 5] == b"L", got[n + 4:n + 5] == b"C", got[n + 5:]
        raise Violation("among %d requests by %d clients at the same time, one %s and receives %s%s; alone it receives %s" %
                        (sum(counts), clients, short(items[i][0], 600), short(a, 900), " and then nothing for %d s" % timeout if late else ", without the closing message of TLS" if cut else "", short(items[i][1], 900)), "hang" if late else "wrong")
    return counts
