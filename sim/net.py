"""
The network seam: urllib3's connection pool is replaced by a simulated server.
requests (sessions, redirects, exception mapping, body streaming, decoding)
runs for real above it.
"""
import errno
import io
import os
import re

from .core import SimHang


class Body(io.RawIOBase):
    """a response body that can break, stall or end early"""

    def __init__(self, world, proc, data, fault, timeout):
        self.w, self.p, self.data, self.f, self.timeout = world, proc, data, fault, timeout
        self.pos = 0
        self.limit = len(data)
        self.k = (fault or {}).get("kind")
        if self.k in ("reset", "stall", "truncate"):
            self.limit = int(len(data) * fault.get("frac", 0.5))

    def readable(self):
        return True

    def readinto(self, b):
        import urllib3

        w = self.w
        if w.multi:
            w._yield()
        w.seam.mono_ns.value += 5_000_000
        w.seam.real_ns.value += 5_000_000
        n = min(len(b), self.limit - self.pos)
        if n <= 0 and self.pos < len(self.data):
            if self.k == "reset":
                w.fired("net:reset-mid-body", self.f)
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if self.k == "stall":
                w.fired("net:stall-mid-body", self.f)
                wait_forever(w, self.timeout)
                raise TimeoutError("timed out")
            if self.k == "truncate":
                w.fired("net:truncated-body", self.f)
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def damaged(b, name):
    import zipfile
    import zlib

    try:
        zipfile.ZipFile(io.BytesIO(bytes(b))).read(name)
    except (zipfile.BadZipFile, zlib.error, EOFError, ValueError, NotImplementedError):
        return True
    return False


def wait_forever(w, timeout):
    """the peer never answers: costs the caller its timeout, or eternity"""
    if timeout is None:
        raise SimHang("no timeout: would wait for the server forever")
    w.seam.mono_ns.value += int(timeout * 1e9)
    w.seam.real_ns.value += int(timeout * 1e9)


def _timeouts(t):
    import urllib3

    if isinstance(t, urllib3.util.Timeout):
        c, r = t._connect, t._read
        tot = t.total
        fix = lambda v: None if not isinstance(v, (int, float)) else v
        c, r, tot = fix(c), fix(r), fix(tot)
        if tot is not None:
            c = tot if c is None else min(c, tot)
            r = tot if r is None else min(r, tot)
        return c, r
    if isinstance(t, (int, float)):
        return t, t
    return None, None


class Network:
    def __init__(self, world):
        self.w = world

    def install(self):
        import urllib3
        import urllib3.connectionpool as cp
        import socket

        w = self.w

        def urlopen(pool, method, url, body=None, headers=None, retries=None,
                    redirect=True, assert_same_host=True, timeout=None, *a, **kw):
            return self.serve(pool, method, url, headers or {}, timeout)

        cp.HTTPConnectionPool.urlopen = urlopen

        def refuse(*a, **k):
            w.harness_errors.append("real socket use: %r" % (a[1:],))
            raise OSError(errno.ENETUNREACH, "no network in the simulation")

        socket.socket.connect = refuse
        socket.getaddrinfo = refuse

    def serve(self, pool, method, url, headers, timeout):
        import urllib3
        from urllib3 import exceptions as ex

        w = self.w
        p = w.cur
        if w.multi:
            w._yield()
        p.net_n += 1
        k = p.net_n
        f = p.faults_net.get(k)
        kind = (f or {}).get("kind")
        tconn, tread = _timeouts(timeout)
        w.seam.mono_ns.value += 80_000_000
        w.seam.real_ns.value += 80_000_000
        m = re.search(r"/archive/(?:refs/(?:heads|tags)/)?(.+)\.zip$", url) or re.search(r"/zip/(.+)$", url)
        ref = m.group(1) if m else None
        w.net_log.append((p.idx, k, pool.host, url, kind))
        w.hash.update(repr((p.idx, k, url, kind)).encode())
        if kind == "refused":
            w.fired("net:connection-refused", f)
            raise ex.MaxRetryError(pool, url, ex.NewConnectionError(pool, "Connection refused"))
        if kind == "dns":
            w.fired("net:name-resolution", f)
            raise ex.MaxRetryError(pool, url, ex.NameResolutionError(pool.host, pool, OSError("EAI_AGAIN")))
        if kind == "conn-timeout":
            w.fired("net:connect-timeout", f)
            wait_forever(w, tconn if tconn is not None else 130.0)   # kernel's SYN timeout
            raise ex.MaxRetryError(pool, url, ex.ConnectTimeoutError(pool, "timed out"))
        if kind == "abort":
            w.fired("net:connection-aborted", f)
            raise ex.ProtocolError("Connection aborted.", ConnectionResetError(errno.ECONNRESET, "reset"))
        if kind == "tls":
            w.fired("net:tls-failure", f)
            raise ex.MaxRetryError(pool, url, ex.SSLError("bad handshake"))
        if kind == "no-answer":
            w.fired("net:no-answer", f)
            wait_forever(w, tread)
            raise ex.ReadTimeoutError(pool, url, "Read timed out.")
        if kind == "delay":
            w.fired("net:delay", f)
            d = f.get("secs", 30)
            if tread is not None and tread < d:
                wait_forever(w, tread)
                raise ex.ReadTimeoutError(pool, url, "Read timed out.")
            w.seam.mono_ns.value += int(d * 1e9)
            w.seam.real_ns.value += int(d * 1e9)
        status, hdr = 200, {"Content-Type": "application/zip"}
        if kind == "http":
            w.fired("net:http-%d" % f["code"], f)
            return self.reply(p, f["code"], {"Content-Type": "text/html"},
                              f.get("body", "<html><body>error</body></html>").encode(), None, tread)
        if kind == "login-page":
            w.fired("net:captive-portal", f)
            return self.reply(p, 200, {"Content-Type": "text/html"},
                              b"<html><body>please log in</body></html>", None, tread)
        if kind == "empty":
            w.fired("net:empty-body", f)
            return self.reply(p, 200, hdr, b"", None, tread)
        if w.sc.get("redirect") and "codeload" not in pool.host:
            return self.reply(p, 302, {"Location": "https://codeload.github.com/x/zip/%s" % ref}, b"", None, tread)
        data = w.serve_archive(ref)
        if data is None:
            return self.reply(p, 404, {"Content-Type": "text/plain"}, b"404: Not Found", None, tread)
        if kind == "corrupt":
            b = bytearray(data)
            for fr in f["at"]:
                i = min(len(b) - 1, int(fr * len(b)))
                b[i] ^= f.get("xor", 0x5A)
            w.fired("net:corrupt-bytes", f)
            data = bytes(b)
        if kind == "corrupt-data":    # inside one member's compressed bytes
            import zipfile

            z = zipfile.ZipFile(io.BytesIO(data))
            ms = [i for i in z.infolist() if i.compress_size > 8 and not i.filename.endswith("/")]
            i = ms[int(f["pick"] * len(ms)) % len(ms)]
            first = i.header_offset + 30 + len(i.filename)
            at = first + int(f["at"] * i.compress_size)
            for o in [*range(at, first - 1, -1), *range(at + 1, first + i.compress_size)]:
                b = bytearray(data)
                b[o] ^= f["xor"]
                if damaged(b, i.filename):    # (the first and last bits of a compressed stream may say nothing)
                    break
            w.fired("net:corrupt-bytes", f)
            data = bytes(b)
        if kind == "cut":             # a shorter body, delivered cleanly
            w.fired("net:short-body", f)
            data = data[: int(len(data) * f.get("frac", 0.5))]
        return self.reply(p, status, hdr, data, f, tread)

    def reply(self, p, status, hdr, data, fault, tread):
        import urllib3

        hdr = dict(hdr)
        if self.w.sc.get("content_length") and "Location" not in hdr:
            hdr["Content-Length"] = str(len(data))
        body = io.BufferedReader(Body(self.w, p, data, fault, tread), 16384)
        return urllib3.HTTPResponse(
            body=body, headers=hdr, status=status, preload_content=False,
            reason=None, version=11, decode_content=True,
            enforce_content_length=True)
