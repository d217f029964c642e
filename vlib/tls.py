"""Certificates and TLS clients."""
import os, shutil, socket, ssl, subprocess
from .core import Violation
from .procs import short


def make_cert(d, name="localhost"):
    """key.pem, and in cert.pem a certificate and the one it was issued with, which root.pem (for clients) vouches for"""
    os.makedirs(d, exist_ok=True)

    def run(*args):
        subprocess.run(["openssl"] + list(args), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d, env=dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), RANDFILE=d + "/rnd", HOME=d))
    key = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes"]
    with open(d + "/ca.ext", "w") as f:
        f.write("basicConstraints=critical,CA:TRUE\nsubjectKeyIdentifier=hash\n")
    run("req", "-x509", *key, "-subj", "/CN=root of " + name, "-days", "30", "-keyout", "rootkey.pem", "-out", "root.pem")
    run("req", *key, "-subj", "/CN=issuer of " + name, "-keyout", "intkey.pem", "-out", "int.csr")
    run("x509", "-req", "-in", "int.csr", "-CA", "root.pem", "-CAkey", "rootkey.pem", "-set_serial", "2", "-days", "30", "-extfile", "ca.ext", "-out", "int.pem")
    run("req", *key, "-subj", "/CN=" + name, "-keyout", "key.pem", "-out", "leaf.csr")
    run("x509", "-req", "-in", "leaf.csr", "-CA", "int.pem", "-CAkey", "intkey.pem", "-set_serial", "3", "-days", "30", "-out", "leaf.pem")
    with open(d + "/cert.pem", "w") as f:
        for n in ("leaf.pem", "int.pem"):
            f.write(open(os.path.join(d, n)).read())
    return d


def context(maximum=None, trust=None):
    """trust: a folder of make_cert; the server must prove to have its certificate"""
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    if trust:
        c.load_verify_locations(trust + "/root.pem")
    else:
        c.verify_mode = ssl.CERT_NONE
    if maximum:
        c.maximum_version = maximum
    return c


def exchange(s, c, data, ctx, pieces=None, half=False, notes=None):
    """Handshake on c, send, and all that comes back. s: the Server (for its time limit)"""
    try:
        t = ctx.wrap_socket(c, suppress_ragged_eofs=notes is None)
    except socket.timeout:
        s.alive()
        raise Violation("the TLS handshake does not end", "hang")
    except (ssl.SSLError, OSError) as e:
        s.alive()
        raise Violation("the TLS handshake fails: %s" % e)
    out = []
    try:
        try:
            for p in pieces or [data]:
                t.sendall(p)
        except socket.timeout:
            s.alive()
            raise Violation("the server does not read the request", "hang")
        except (ssl.SSLError, OSError):
            pass
        if half:
            try:
                t.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        while True:
            try:
                d = t.recv(1 << 17)
            except socket.timeout:
                s.alive()
                raise Violation("no end of the answer (so far %s)" % short(b"".join(out), 300), "hang")
            except ssl.SSLEOFError:
                notes.append("ragged")
                break
            except (ssl.SSLError, OSError):
                break
            if not d:
                break
            out.append(d)
    finally:
        t.close()
    return b"".join(out)
