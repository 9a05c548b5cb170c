"""Simulated network of one process: DNS, TCP, TLS and HTTP servers with a virtual clock.

The real requests/urllib3/http.client (or any other blocking HTTP client) runs on top; the layer below
`socket.socket` is replaced.  A server answers with the complete schema it publishes unless the fault
script says otherwise for the exchange (connection or request) at hand.
"""
from __future__ import annotations

import gzip
import io
import json
import random
import socket as _socket
import ssl as _ssl
import time as _time
import urllib.parse

REAL_SOCKET = _socket.socket


class SimHang(BaseException):
    """The code under test would block (or retry) forever."""


class Net:
    def __init__(self, spec):
        self.spec = spec
        self.servers = spec["servers"]             # "host:port" -> {"sdl", "kind", "paths", "tls"}
        self.faults = {k: list(v) for k, v in spec.get("faults", {}).items()}
        self.count = {}
        self.now = 0.0
        self.log = []                              # one row per exchange
        self.rng = random.Random(spec.get("seed", 1))
        self.blocked = None
        self.fired = []
        self.limit = spec.get("limit", 400)
        self.ips = {}

    def key(self, host, port):
        return f"{host}:{port}"

    def next_fault(self, key):
        i = self.count.get(key, 0)
        self.count[key] = i + 1
        if sum(self.count.values()) > self.limit:
            self.hang("gave up after %d exchanges: unbounded retries" % self.limit)
        fl = self.faults.get(key, [])
        return (fl[i] if i < len(fl) else None) or {}

    def hang(self, why):
        self.blocked = why
        raise SimHang(why)

    def wait(self, timeout, what):
        """The peer is silent: either the caller's timeout ends it or nothing does."""
        if timeout is None:
            self.hang(f"blocked forever ({what})")
        self.now += timeout
        raise _socket.timeout("timed out")

    def lag(self):
        self.now += self.rng.choice([0.001, 0.005, 0.05, 0.4])


NET: Net = None  # type: ignore


def reason(code):
    import http
    try:
        return http.HTTPStatus(code).phrase
    except ValueError:
        return "Unknown"


def frame(code, headers, body, enc):
    h = [f"HTTP/1.1 {code} {reason(code)}"] + [f"{k}: {v}" for k, v in headers]
    if enc == "chunked" and body:
        h.append("Transfer-Encoding: chunked")
        out, i, step = b"", 0, max(1, len(body) // 4)
        while i < len(body):
            c = body[i:i + step]
            out += b"%x\r\n" % len(c) + c + b"\r\n"
            i += step
        body = out + b"0\r\n\r\n"
    else:
        h.append(f"Content-Length: {len(body)}")
    return ("\r\n".join(h) + "\r\n\r\n").encode("latin-1"), body


def introspect(sdl, query):
    from graphql import build_schema, graphql_sync
    r = graphql_sync(build_schema(sdl), query)
    return r.formatted


class Server:
    """Turns one parsed request plus a fault into (response head, body, close_after)."""

    def __init__(self, key, spec):
        self.key, self.spec = key, spec
        self.good = False       # the complete, correct answer was produced

    def respond(self, method, path, headers, body, fault):
        s = self.spec
        kind = fault.get("kind")
        enc = fault.get("enc") or s.get("enc", "length")
        sdl = s.get("paths", {}).get(path, s.get("sdl"))
        hdr = []
        if kind == "status":
            b = {"html": "<html><body>It broke</body></html>", "json": '{"errors": [{"message": "no"}]}', "empty": "", "sdl": fault.get("text", sdl or ""),
                 "introspection": json.dumps({"data": {"__schema": {}}})}[fault.get("body", "html")]
            return frame(fault["code"], hdr, b.encode("utf-8"), enc)
        if kind == "redirect":
            if fault.get("location") is None:
                return frame(fault.get("code", 302), hdr, b"", enc)
            return frame(fault.get("code", 302), hdr + [("Location", fault["location"])], b"moved", enc)
        if kind == "raw":  # a body that is not what was asked for
            return frame(fault.get("code", 200), hdr + [("Content-Type", fault.get("ctype", "text/plain"))], fault["text"].encode("utf-8", "surrogateescape"), enc)
        if kind == "empty":
            return frame(fault.get("code", 200), hdr, b"", "length")
        if method == "POST" or (method == "GET" and "query" in urllib.parse.parse_qs(urllib.parse.urlsplit(path).query)):
            try:
                q = json.loads(body.decode("utf-8"))["query"] if method == "POST" else urllib.parse.parse_qs(urllib.parse.urlsplit(path).query)["query"][0]
                ans = introspect(sdl, q) if sdl is not None else {"errors": [{"message": "no schema"}]}
            except Exception as e:  # noqa
                return frame(400, hdr, json.dumps({"errors": [{"message": f"bad request {e}"}]}).encode(), enc)
            if kind == "payload":
                w = fault["what"]
                if w == "errors":
                    ans = {"errors": [{"message": "introspection is disabled"}]}
                elif w == "errors_null_data":
                    ans = {"errors": [{"message": "no"}], "data": None}
                elif w == "errors_partial":
                    ans = {"errors": [{"message": "type X failed"}], "data": json.loads(json.dumps(ans["data"]))}
                    ts = ans["data"]["__schema"]["types"]
                    gone = fault.get("drop", 0)
                    objs = [t for t in ts if t["kind"] == "ENUM" and not t["name"].startswith("__")] or ts
                    objs[gone % len(objs)]["enumValues"] = (objs[gone % len(objs)].get("enumValues") or [])[:1]
                elif w == "data_null":
                    ans = {"data": None}
                elif w == "null":
                    ans = None
                elif w == "list":
                    ans = [ans]
                elif w == "no_data":
                    ans = {"message": "hello"}
                elif w == "data_empty":
                    ans = {"data": {}}
                elif w == "schema_null":
                    ans = {"data": {"__schema": None}}
                elif w == "types_empty":
                    ans = {"data": {"__schema": {**ans["data"]["__schema"], "types": []}}}
            if s.get("kind") == "no_introspection" and kind is None:
                ans = {"errors": [{"message": "introspection is disabled"}]}
            self.good = kind != "payload" and isinstance(ans, dict) and "errors" not in ans
            b = json.dumps(ans).encode("utf-8")
            if kind == "payload" and fault["what"] == "cut":
                b = b[:len(b) * 2 // 3]
            return frame(fault.get("code", 200), hdr + [("Content-Type", "application/json")], b, enc)
        if sdl is None or s.get("kind") == "introspection":
            c = s.get("get_code", 405)
            t = {405: "use POST", 200: "<!DOCTYPE html><html><body>GraphiQL</body></html>", 400: '{"errors":[{"message":"Must provide query string."}]}',
                 404: "not found"}.get(c, "no")
            return frame(c, hdr, t.encode(), enc)
        b = sdl.encode("utf-8")
        if s.get("bom"):
            b = b"\xef\xbb\xbf" + b
        if kind == "cut":          # the server publishes a torn text: ends inside a definition
            k = b.rfind(b"}")
            b = b[:max(1, k - fault.get("back", 3))]
        if kind == "undecodable":
            b = b + b"\n# \xff\xfe\n"
        if s.get("gzip") or kind == "bad_gzip":
            b = gzip.compress(b, mtime=0)
            hdr.append(("Content-Encoding", "gzip"))
            if kind == "bad_gzip":
                b = b[:len(b) // 2] + bytes(x ^ 0x5A for x in b[len(b) // 2:])
        self.good = kind not in ("cut", "undecodable", "bad_gzip")
        hdr.append(("Content-Type", s.get("ctype", "text/plain; charset=utf-8")))
        return frame(200, hdr, b, enc)


class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.family, self.type, self.proto = family, type, proto
        self._timeout = DEFAULT_TIMEOUT[0]
        self.peer = None
        self.inbuf = b""
        self.out = b""
        self.closed = False
        self.eof = False
        self.stall = False
        self.reset = False
        self.conn_fault = None
        self.tls = False
        self._io_refs = 0

    # --- set-up
    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, *a):
        pass

    def fileno(self):
        return -1 if self.closed else 10_000

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return ("10.0.0.1", 40000)

    def connect(self, addr):
        host = NET.ips.get(addr[0], addr[0])
        self.peer = (addr[0], addr[1])
        self.key = NET.key(host, addr[1])
        NET.lag()
        f = NET.next_fault(self.key)
        k = f.get("kind")
        if self.key not in NET.servers:
            NET.log.append({"to": self.key, "event": "refused (no such server)", "t": round(NET.now, 3)})
            raise ConnectionRefusedError(111, "Connection refused")
        if k == "refused":
            self.note("refused", f)
            raise ConnectionRefusedError(111, "Connection refused")
        if k == "unreachable":
            self.note("unreachable", f)
            raise OSError(113, "No route to host")
        if k == "stall_connect":
            self.note("stall_connect", f)
            NET.wait(self._timeout, "connecting to " + self.key)
        self.conn_fault = f

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno or 110

    def note(self, event, f):
        NET.fired.append(f.get("kind"))
        NET.log.append({"to": self.key, "event": event, "t": round(NET.now, 3)})

    # --- data
    def sendall(self, data, flags=0):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if self.reset:
            raise ConnectionResetError(104, "Connection reset by peer")
        self.out += bytes(data)
        self.serve()

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def serve(self):
        while True:
            i = self.out.find(b"\r\n\r\n")
            if i < 0:
                return
            head = self.out[:i].decode("latin-1").split("\r\n")
            method, path, _ = head[0].split(" ", 2)
            hdrs = [tuple(x.split(": ", 1)) if ": " in x else (x.rstrip(":"), "") for x in head[1:]]
            n = int(next((v for k, v in hdrs if k.lower() == "content-length"), 0))
            if any(k.lower() == "transfer-encoding" for k, v in hdrs):
                j = self.out.find(b"0\r\n\r\n", i)
                if j < 0:
                    return
                body, self.out = self.out[i + 4:j], self.out[j + 5:]
            else:
                if len(self.out) < i + 4 + n:
                    return
                body, self.out = self.out[i + 4:i + 4 + n], self.out[i + 4 + n:]
            f = self.conn_fault
            self.conn_fault = None
            if f is None:  # another request on a kept connection
                f = NET.next_fault(self.key)
            NET.lag()
            NET.log.append({"to": self.key, "event": "request", "tls": self.tls, "method": method, "path": path, "headers": hdrs, "t": round(NET.now, 3),
                            "fault": f.get("kind"), "introspection": b"__schema" in body or "__schema" in urllib.parse.unquote(path)})
            if f.get("kind"):
                NET.fired.append(f["kind"])
            k = f.get("kind")
            if k in ("reset_before", "unreachable", "refused"):
                self.reset = True
                return
            if k == "close_before":
                self.eof = True
                return
            if k == "stall_before":
                self.stall = True
                return
            srv = Server(self.key, NET.servers[self.key])
            head, body = srv.respond(method, path, hdrs, body, f if k not in CUTS else {**f, "kind": None})
            NET.log[-1]["good"] = srv.good and k not in CUTS
            if method == "HEAD":
                body = b""
            data = head + body
            if k in CUTS:
                base = len(head)
                at = int(base * f.get("frac", 0.5)) if f.get("where") == "head" else base + min(max(len(body) - 1, 0), int(len(body) * f.get("frac", 0.5)))
                data = data[:at]
                if k == "reset_at":
                    self.reset = True
                elif k == "close_at":
                    self.eof = True
                else:
                    self.stall = True
            self.inbuf += data
            if any(a.lower() == "connection" and b.lower() == "close" for a, b in hdrs):
                self.eof = self.eof or not (self.stall or self.reset)

    def recv(self, n, flags=0):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if self.inbuf:
            k = min(n, len(self.inbuf), NET.rng.choice([1, 7, 64, 1000, 100000, 100000]))
            b, self.inbuf = self.inbuf[:k], self.inbuf[k:]
            NET.now += 0.0005
            return b
        if self.reset:
            raise ConnectionResetError(104, "Connection reset by peer")
        if self.eof:
            return b""
        # nothing more will come: the peer is silent
        NET.wait(self._timeout, f"reading from {self.key}")

    def recv_into(self, buf, nbytes=0, flags=0):
        b = self.recv(nbytes or len(buf))
        buf[:len(b)] = b
        return len(b)

    def read(self, n=65536, buffer=None):
        if buffer is not None:
            return self.recv_into(buffer)
        return self.recv(n)

    write = send

    def makefile(self, mode="r", buffering=None, **kw):
        raw = SimRaw(self)
        if "w" in mode:
            return raw
        return io.BufferedReader(raw) if buffering != 0 else raw

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        self.closed = True
        return -1

    def unwrap(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # --- TLS look-alike
    def getpeercert(self, binary_form=False):
        host = self.key.split(":")[0]
        return b"cert" if binary_form else {"subject": ((("commonName", host),),), "subjectAltName": (("DNS", host),)}

    def version(self):
        return "TLSv1.3"

    def cipher(self):
        return ("TLS_AES_256_GCM_SHA384", "TLSv1.3", 256)

    def selected_alpn_protocol(self):
        return "http/1.1"

    def pending(self):
        return len(self.inbuf)


CUTS = ("reset_at", "close_at", "stall_at")
DEFAULT_TIMEOUT = [None]


class SimRaw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def writable(self):
        return True

    def readinto(self, b):
        # a reader obtained before the socket was closed keeps working (as with real sockets)
        c, self.sock.closed = self.sock.closed, False
        try:
            return self.sock.recv_into(b)
        finally:
            self.sock.closed = c

    def write(self, b):
        self.sock.sendall(b)
        return len(b)


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    host = host.decode() if isinstance(host, bytes) else str(host)
    port = int(port)
    key = NET.key(host, port)
    i = NET.count.get(key, 0)
    fl = NET.faults.get(key, [])
    f = (fl[i] if i < len(fl) else None) or {}
    if f.get("kind") == "dns" or all(k.rsplit(":", 1)[0] != host for k in NET.servers):
        if f.get("kind") == "dns":
            NET.next_fault(key)
            NET.fired.append("dns")
        NET.log.append({"to": key, "event": "dns failure", "t": round(NET.now, 3)})
        raise _socket.gaierror(-2, "Name or service not known")
    ip = next((a for a, h in NET.ips.items() if h == host), None)
    if ip is None:
        ip = f"10.1.0.{len(NET.ips) + 1}"
        NET.ips[ip] = host
    return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, "", (ip, port))]


def wrap_socket(self, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True, server_hostname=None, session=None):
    if not isinstance(sock, SimSocket):
        return REAL_WRAP(self, sock, server_side, do_handshake_on_connect, suppress_ragged_eofs, server_hostname, session)
    srv = NET.servers.get(sock.key, {})
    f = sock.conn_fault or {}
    if f.get("kind") == "stall_tls":
        sock.note("stall_tls", f)
        NET.wait(sock._timeout, "TLS handshake with " + sock.key)
    if f.get("kind") == "impostor":
        NET.fired.append("impostor")
        if self.verify_mode == _ssl.CERT_REQUIRED:
            NET.log.append({"to": sock.key, "event": "certificate rejected", "t": round(NET.now, 3)})
            raise _ssl.SSLCertVerificationError(1, "[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed")
        sock.conn_fault = {"kind": "raw", "text": f["text"]}
    sock.tls = True
    return sock


REAL_WRAP = _ssl.SSLContext.wrap_socket


def install(spec):
    """Replace the network of this process."""
    global NET
    NET = Net(spec)
    import requests  # noqa: make sure everything that captured names is loaded first
    import urllib3
    import urllib3.util.connection as uc
    import urllib3.util.wait as uw
    _socket.socket = SimSocket
    _socket.getaddrinfo = getaddrinfo
    _socket.SocketType = SimSocket
    _ssl.SSLContext.wrap_socket = wrap_socket
    uc.HAS_IPV6 = False

    def readable(sock, timeout=None):
        return bool(getattr(sock, "inbuf", b"") or getattr(sock, "eof", False) or getattr(sock, "reset", False))
    uw.wait_for_read = readable
    uw.wait_for_socket = lambda sock, read=False, write=False, timeout=None: readable(sock) if read else True
    import urllib3.connection
    if hasattr(urllib3.connection, "wait_for_read"):
        urllib3.connection.wait_for_read = readable
    import urllib3.util.connection as c2
    if hasattr(c2, "wait_for_read"):
        c2.wait_for_read = readable
    base = 1_700_000_000.0
    _time.sleep = lambda s: setattr(NET, "now", NET.now + s)
    _time.monotonic = lambda: 1000.0 + NET.now
    _time.time = lambda: base + NET.now
    _time.perf_counter = lambda: 1000.0 + NET.now
    import entries
    entries.EXPORT["net"] = NET
    return NET


def export(net):
    return {"log": net.log, "now": round(net.now, 4), "blocked": net.blocked, "fired": net.fired}
