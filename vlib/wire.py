"""Exchanges over real TCP connections, with clients that take their time to read, or send more than their request."""
import select, socket, ssl, time
from hypothesis import strategies as st
from .core import Violation
from .procs import short

# what follows a request at once (no more than fits the server's receive buffer), as old browsers or clients that want to go on send it
EXTRA = ["", "", "\r\n", "\n", "GET /next HTTP/1.1\r\nHost: a\r\n\r\n", "x" * 5000, "y" * 30000]

# size of the receive buffer, pause before reading (ms), what is sent after the request, bytes read at once
WIRE = st.tuples(st.sampled_from([2304, 2304, 8000, 65536]), st.sampled_from([0, 1, 5, 30]), st.sampled_from(EXTRA), st.sampled_from([1500, 1500, 1 << 18])).map(list)
SOMETIMES = st.one_of(*[st.none()] * 5, WIRE)


def pair(rcv):
    """Both ends of a TCP connection: the client's, and the one accepted"""
    l = socket.socket()
    try:
        l.bind(("127.0.0.1", 0))
        l.listen(1)
        c = socket.socket()
        c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcv)
        c.connect(l.getsockname())
        while True:
            s, peer = l.accept()
            if peer == c.getsockname():
                return c, s
            s.close()
    finally:
        l.close()


def exchange(s, data, wire, ip="10.0.0.1", ctx=None, notes=None):
    """Sends data to the Server s as wire says; returns all bytes of the answer. ctx: for TLS"""
    rcv, pause, extra, step = wire
    c = s.inject(ip, tcp=rcv)
    try:
        if ctx:
            try:
                c = ctx.wrap_socket(c, suppress_ragged_eofs=notes is None)
            except (ssl.SSLError, OSError) as e:
                s.alive()
                raise Violation("the TLS handshake fails: %s" % e)
        try:
            # all of it arrives at the same time, also when it is more than one record of TLS
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_CORK, 1)
            c.sendall(data + extra.encode())
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_CORK, 0)
        except socket.timeout:
            s.alive()
            raise Violation("the server does not read the request", "hang")
        except OSError:
            pass
        if pause:
            select.select([c], [], [], s.timeout)
            time.sleep(pause / 1000)
        out, n = [], 0
        while True:
            try:
                if n > 6000 and step:
                    # (with small steps only, the kernel can take a very long time)
                    step = 0
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
                d = c.recv(step or 1 << 18)
            except socket.timeout:
                s.alive()
                raise Violation("no end of the answer (so far %s)" % short(b"".join(out), 300), "hang")
            except ssl.SSLEOFError:
                if notes is not None: notes.append("ragged")
                break
            except OSError:
                if notes is not None: notes.append("reset")
                break
            if not d:
                break
            out.append(d)
            n += len(d)
        s.alive()
        return b"".join(out)
    finally:
        c.close()


def name(w):
    return "over TCP with a receive buffer of %d, a pause of %d ms, and %s after the request" % (w[0], w[1], short(w[2], 60))
