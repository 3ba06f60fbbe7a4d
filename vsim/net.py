"""The simulated network: name service, TCP, TLS and HTTP servers, on the
world's clock.  http.client, urllib3 and requests run for real on top of it."""
import collections
import errno
import gzip
import io
import os
import socket
import ssl
import zlib
from urllib.parse import urlsplit

EPHEMERAL = 1800.0


class SimHang(BaseException):
    """The code under test waits for something that will never happen."""


def fields(spec):
    return {k: v for k, v in spec.items()}


class Net:
    """urls: {url: behaviour}; hosts: {host: host behaviour}.

    behaviour of a url:
      body (str or latin-1 "b64:"), status, ctype (content type or None),
      framing length|chunked|close, gzip, seg (segment size), gap (seconds
      between segments), redirect (url), fault {at, kind, frac}, hdr_gap
    behaviour of a host:
      dns ok|fail|slowfail, addrs (number), connect list of
      ok|refuse|blackhole|unreach per address, tls good|selfsigned|expired|
      wronghost|notls|garbage, latency
    """

    def __init__(self, world, urls=None, hosts=None):
        self.w = world
        self.urls = dict(urls or {})
        self.hosts = dict(hosts or {})
        self.requests = []
        self.handshakes = []
        self.connections = []
        self.live = set()
        self.last_byte = None
        self.stalled = False
        self.sent_clear = []

    def install(self):
        net = self

        def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
            return net.getaddrinfo(host, port)

        class Sock(SimSocket):
            def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
                SimSocket.__init__(self, net)
                self.family, self.type, self.proto = family, type, proto
        socket.getaddrinfo = getaddrinfo
        socket.socket = Sock
        socket.gethostbyname = lambda h: net.getaddrinfo(h, 0)[0][4][0]
        # the certificate store is not consulted by the simulated handshake
        ssl.SSLContext.load_verify_locations = lambda ctx, *a, **k: None
        ssl.SSLContext.load_default_certs = lambda ctx, *a, **k: None
        ssl.SSLContext.wrap_socket = lambda ctx, sock, *a, **k: net.wrap(ctx, sock, *a, **k)
        return self

    def host(self, name):
        return self.hosts.get(name, {})

    def fault(self, kind, where):
        self.w.fired.append({"op": "net", "path": where, "kind": kind})
        self.w.event("netfault", kind, where)
        if self.w.ctx is not None:
            self.w.ctx.count("fault:net/" + kind)

    def getaddrinfo(self, host, port):
        if isinstance(host, bytes):
            host = host.decode()
        h = self.host(host)
        self.w.event("dns", host)
        mode = h.get("dns", "ok")
        if mode != "ok" or host not in self.hosts:
            if mode == "slowfail":
                self.w.now += 30
            self.fault("dns", host)
            raise socket.gaierror(socket.EAI_NONAME if mode != "slowfail" else socket.EAI_AGAIN,
                                  "Name or service not known")
        idx = sorted(self.hosts).index(host)
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("10.%d.%d.%d" % (idx // 250, idx % 250, i + 1), port))
                for i in range(h.get("addrs", 1))]

    def resolve(self, addr):
        ip, port = addr[0], addr[1]
        for i, name in enumerate(sorted(self.hosts)):
            if ip.startswith("10.%d.%d." % (i // 250, i % 250)):
                return name, int(ip.split(".")[3]) - 1
        return None, 0

    def wrap(self, ctx, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True,
             server_hostname=None, session=None):
        h = self.host(sock.hostname)
        verify = ctx.verify_mode != ssl.CERT_NONE
        tls = h.get("tls", "good")
        rec = {"host": sock.hostname, "sni": server_hostname, "verify": verify,
               "check_hostname": bool(ctx.check_hostname), "cert": tls, "ok": False}
        self.handshakes.append(rec)
        self.w.event("tls", sock.hostname, verify, tls)
        # what the wire does during the handshake
        f = h.get("tls_fault")
        if f:
            self.fault("tls-" + f, sock.hostname)
            if f == "stall":
                sock.wait_forever()
            if f == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if f == "eof":
                raise ssl.SSLEOFError(ssl.SSL_ERROR_EOF, "EOF occurred in violation of protocol")
        if tls in ("notls", "garbage"):
            self.fault("tls-" + tls, sock.hostname)
            raise ssl.SSLError(ssl.SSL_ERROR_SSL, "[SSL: WRONG_VERSION_NUMBER] wrong version number")
        if tls in ("selfsigned", "expired"):
            if verify:
                self.fault("cert-" + tls, sock.hostname)
                raise ssl.SSLCertVerificationError(1, "[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed: " + tls)
        if tls == "wronghost" and verify and ctx.check_hostname:
            self.fault("cert-wronghost", sock.hostname)
            raise ssl.SSLCertVerificationError(1, "[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed: Hostname mismatch")
        if verify and ctx.check_hostname and server_hostname != sock.hostname:
            raise ssl.SSLCertVerificationError(1, "Hostname mismatch")
        rec["ok"] = True
        sock.tls = rec
        return sock


class SimSocket:
    """One client socket."""

    def __init__(self, net):
        self.net = net
        self.timeout = None
        self.hostname = None
        self.port = None
        self.out = b""
        self.tape = collections.deque()
        self.buf = b""
        self.closed = False
        self._io_refs = 0
        self.tls = None
        self.dead = None
        self.context = None

    # -- what socket users expect
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, addr):
        pass

    def fileno(self):
        return -1

    def getpeername(self):
        return ("10.0.0.1", self.port)

    def getsockname(self):
        return ("10.9.9.9", 40000)

    def version(self):
        return "TLSv1.3"

    def cipher(self):
        return ("TLS_AES_256_GCM_SHA384", "TLSv1.3", 256)

    def selected_alpn_protocol(self):
        return None

    def getpeercert(self, binary_form=False):
        if binary_form:
            return b"cert:" + str(self.hostname).encode()
        name = self.hostname if self.tls and self.tls["cert"] != "wronghost" else "other.invalid"
        return {"subject": ((("commonName", name),),), "subjectAltName": (("DNS", name),)}

    def unwrap(self):
        return self

    def shutdown(self, how):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        raw = socket.SocketIO(self, "".join(c for c in mode if c in "rw"))
        self._io_refs += 1
        if buffering == 0:
            return raw
        size = buffering if buffering and buffering > 0 else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedReader(raw, size) if "r" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self.closed and self._io_refs <= 0:
            self.net.live.discard(self)

    def close(self):
        self.closed = True
        if self._io_refs <= 0:
            self.net.live.discard(self)

    def detach(self):
        return -1

    # -- the wire
    def wait_forever(self):
        self.net.stalled = True
        if self.timeout is None:
            raise SimHang("waiting for %s without a time limit" % self.hostname)
        self.net.w.now += self.timeout
        raise socket.timeout("timed out")

    def connect(self, addr):
        name, i = self.net.resolve(addr)
        h = self.net.host(name)
        self.hostname, self.port = name, addr[1]
        self.net.w.event("connect", name, addr[1], i)
        how = h.get("connect") or ["ok"]
        how = how[min(i, len(how) - 1)]
        if how == "refuse":
            self.net.fault("refuse", name)
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if how == "unreach":
            self.net.fault("unreach", name)
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        if how == "blackhole":
            self.net.fault("blackhole", name)
            if self.timeout is None:
                self.net.w.now += 130       # the kernel gives up
                self.net.stalled = True
                raise TimeoutError(errno.ETIMEDOUT, "Connection timed out")
            self.wait_forever()
        self.net.w.now += h.get("latency", 0.001)
        self.net.live.add(self)
        self.net.connections.append((name, addr[1]))

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno or -1

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        if self.dead:
            raise self.dead
        self.out += bytes(data)
        while b"\r\n\r\n" in self.out:
            head, self.out = self.out.split(b"\r\n\r\n", 1)
            self.respond(head.decode("latin-1"))

    def respond(self, head):
        lines = head.split("\r\n")
        parts = lines[0].split(" ")
        method, target = parts[0], parts[1] if len(parts) > 1 else ""
        hdrs = {l.split(":", 1)[0].strip().lower(): l.split(":", 1)[1].strip() for l in lines[1:] if ":" in l}
        scheme = "https" if self.tls else "http"
        host = hdrs.get("host", self.hostname or "")
        url = target if "://" in target else "%s://%s%s" % (scheme, host, target)
        b = self.net.urls.get(url)
        self.net.requests.append({"url": url, "method": method, "tls": bool(self.tls),
                                  "verify": bool(self.tls and self.tls["verify"]), "host": self.hostname,
                                  "t": self.net.w.now, "cert": self.tls["cert"] if self.tls else None})
        self.net.w.event("request", method, url)
        self.tape += list(tape_for(b, method))

    def recv(self, n, flags=0):
        if self.dead:
            raise self.dead
        while not self.buf:
            if not self.tape:
                return b""
            item = self.tape.popleft()
            k = item[0]
            if k == "data":
                self.buf = item[1]
                self.net.last_byte = self.net.w.now
            elif k == "gap":
                if self.timeout is not None and item[1] > self.timeout:
                    self.net.w.now += self.timeout
                    self.net.fault("timeout", str(self.hostname))
                    raise socket.timeout("timed out")
                self.net.w.now += item[1]
            elif k == "eof":
                if len(item) > 1:
                    self.net.fault(item[1], str(self.hostname))
                self.tape.appendleft(["eof"])
                return b""
            elif k == "reset":
                self.net.fault("reset", str(self.hostname))
                self.dead = ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                raise self.dead
            elif k == "stall":
                self.net.fault("stall", str(self.hostname))
                self.tape.appendleft(item)
                self.wait_forever()
            elif k == "note":
                self.net.fault(item[1], str(self.hostname))
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def recv_into(self, b, nbytes=0, flags=0):
        d = self.recv(nbytes or len(b))
        b[:len(d)] = d
        return len(d)

    read = recv


REASON = {200: "OK", 204: "No Content", 206: "Partial Content", 301: "Moved Permanently", 302: "Found", 303: "See Other",
          307: "Temporary Redirect", 308: "Permanent Redirect", 400: "Bad Request", 401: "Unauthorized", 403: "Forbidden",
          404: "Not Found", 410: "Gone", 429: "Too Many Requests", 500: "Internal Server Error", 502: "Bad Gateway",
          503: "Service Unavailable", 504: "Gateway Timeout"}


def body_bytes(b):
    body = b.get("body", "")
    if isinstance(body, bytes):
        return body
    return body.encode(b.get("encode", "utf-8"), "surrogateescape")


def tape_for(b, method="GET"):
    """The server's side of one exchange as a list of wire events."""
    if b is None:
        b = {"status": 404, "body": "not found\n", "ctype": "text/plain"}
    status = b.get("status", 200)
    raw = body_bytes(b)
    if method == "HEAD":
        raw = b""
    hdr = ["HTTP/1.1 %d %s" % (status, REASON.get(status, "Status")), "Server: sim", "Connection: close"]
    if b.get("ctype"):
        hdr.append("Content-Type: " + b["ctype"])
    if b.get("redirect") is not None:
        hdr.append("Location: " + b["redirect"])
    wire = raw
    if b.get("gzip"):
        c = zlib.compressobj(6, zlib.DEFLATED, 31)
        wire = c.compress(raw) + c.flush()
        if b.get("gzip") == "corrupt" and len(wire) > 12:
            # in the checksum, so that it is certain to be noticed
            k = len(wire) - 8 + int(4 * b.get("gzfrac", 0.5))
            wire = wire[:k] + bytes([wire[k] ^ 0x5a]) + wire[k + 1:]
        hdr.append("Content-Encoding: gzip")
    framing = b.get("framing", "length")
    if framing == "length":
        hdr.append("Content-Length: %d" % len(wire))
    elif framing == "chunked":
        hdr.append("Transfer-Encoding: chunked")
        out = b""
        size = max(1, b.get("chunk", 64), len(wire) // 2000)
        for i in range(0, len(wire), size):
            part = wire[i:i + size]
            out += b"%x\r\n" % len(part) + part + b"\r\n"
        wire = out + b"0\r\n\r\n"
    head = ("\r\n".join(hdr) + "\r\n\r\n").encode("latin-1", "replace")
    f = b.get("fault") or {}
    stream = head + wire
    end = [["eof"]]
    if f:
        at, kind, frac = f["at"], f["kind"], f.get("frac", 0.5)
        if at == "body" and framing != "chunked" and not wire:
            # there is no body to be cut
            at, kind = "head", "reset" if kind == "eof" else kind
        if at == "head":
            cut = int(len(head) * frac)
            cut = min(cut, len(head) - 4)
            if kind == "eof":
                # a head that ends after the status line is one without fields
                cut = min(cut, 11)
        else:
            # strictly inside the body, so that the transfer is incomplete
            cut = len(head) + int(len(wire) * frac)
            cut = min(cut, len(stream) - (5 if framing == "chunked" else 1))
        if kind in ("manyhdr", "longhdr", "badstatus", "http09", "badchunk"):
            odd = {"manyhdr": b"HTTP/1.1 200 OK\r\n" + b"".join(b"X-%d: y\r\n" % i for i in range(150)) + b"\r\n" + raw,
                   "longhdr": b"HTTP/1.1 200 OK\r\nX: " + b"y" * 70000 + b"\r\n\r\n" + raw,
                   "badstatus": b"HTTP/1.1 2x0 OK\r\n\r\n" + raw,
                   "http09": b"lang en_US\n" + raw,
                   "badchunk": b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nlang \r\nzz\r\nx\r\n0\r\n\r\n"}[kind]
            return [["note", "odd-" + kind], ["data", odd], ["eof"]]
        if kind == "garbage":
            stream = b"\x00\x16\x03garbage" + bytes(range(128, 160)) + b"\r\n\r\n" if at == "head" else stream
            end = [["note", "garbage"], ["eof"]]
            if at == "head":
                return [["note", "garbage"], ["data", stream], ["eof"]]
        else:
            stream = stream[:cut]
            end = {"eof": [["eof", "truncate-" + at]], "reset": [["reset"]], "stall": [["stall"]]}[kind]
    if b.get("gzip") == "corrupt":
        end = [["note", "gzip-corrupt"]] + end
    tape = []
    seg = max(b.get("seg") or len(stream) or 1, len(stream) // 2000)
    gap = b.get("gap", 0)
    if b.get("hdr_gap"):
        tape.append(["gap", b["hdr_gap"]])
    for i in range(0, len(stream), seg):
        if i and gap:
            tape.append(["gap", gap])
        tape.append(["data", stream[i:i + seg]])
    return tape + end


def fails(b, host=None, verify=True):
    """Does a fetch of this behaviour have to fail?  (None: may go either way)"""
    host = host or {}
    if host.get("dns", "ok") != "ok":
        return True
    if all(c != "ok" for c in (host.get("connect") or ["ok"])[:host.get("addrs", 1)]):
        return True
    if host.get("is_tls"):
        if host.get("tls_fault"):
            return True
        t = host.get("tls", "good")
        if t in ("notls", "garbage") or (verify and t != "good"):
            return True
    if b is None:
        return True
    if b.get("fault"):
        return True
    if b.get("gzip") == "corrupt":
        return True
    return b.get("status", 200) != 200
