"""RESP client side: encoding, incremental strict parser, blocking client."""
import socket, time, select

class Err(str):
    """-error reply"""
    def __repr__(self): return "Err(%s)" % str.__repr__(self)
class Status(str):
    """+status reply"""
    def __repr__(self): return "Status(%s)" % str.__repr__(self)

class Timeout(Exception):
    def __init__(self, msg="", client=None):
        super().__init__(msg); self.client = client
class Closed(Exception): pass
class Protocol(Exception):
    """the peer sent bytes that are no RESP"""

def b(x):
    if isinstance(x, bytes): return x
    if isinstance(x, str): return x.encode("latin-1")
    return str(x).encode()

def enc(*args):
    o = [b"*%d\r\n" % len(args)]
    for a in args:
        a = b(a)
        o.append(b"$%d\r\n%s\r\n" % (len(a), a))
    return b"".join(o)

MORE = object()

class Parser:
    """strict incremental RESP parser"""
    def __init__(self):
        self.buf = bytearray()
        self.total = 0
    def feed(self, d):
        self.buf += d
        self.total += len(d)
    def get(self):
        r = self._p(0)
        if r is MORE: return MORE
        v, n = r
        del self.buf[:n]
        return v
    def _line(self, i):
        j = self.buf.find(b"\n", i, i + 65536)
        if j < 0:
            if len(self.buf) - i > 65536: raise Protocol("endless line %r" % bytes(self.buf[i:i+80]))
            return None
        if j == i or self.buf[j-1] != 13: raise Protocol("line without CR %r" % bytes(self.buf[i:j+1][:120]))
        return bytes(self.buf[i:j-1]), j + 1
    def _p(self, i):
        if i >= len(self.buf): return MORE
        c = self.buf[i]
        if c not in b"+-:$*": raise Protocol("unexpected byte %r" % bytes(self.buf[i:i+80]))
        l = self._line(i + 1)
        if l is None: return MORE
        s, i = l
        if c == 43: return Status(s.decode("latin-1")), i
        if c == 45: return Err(s.decode("latin-1")), i
        try: n = int(s)
        except ValueError: raise Protocol("bad number %r" % s)
        if c == 58: return n, i
        if c == 36:
            if n == -1: return None, i
            if n < 0: raise Protocol("bad bulk length %d" % n)
            if len(self.buf) < i + n + 2: return MORE
            if self.buf[i+n:i+n+2] != b"\r\n": raise Protocol("bulk not terminated")
            return bytes(self.buf[i:i+n]), i + n + 2
        if n < 0: raise Protocol("bad array length %d" % n)
        out = []
        for _ in range(n):
            r = self._p(i)
            if r is MORE: return MORE
            v, i = r
            out.append(v)
        return out, i

class Client:
    def __init__(self, addr, timeout=60.0):
        self.timeout = timeout
        if isinstance(addr, tuple):
            self.s = socket.create_connection(addr, timeout=timeout)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        else:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.settimeout(timeout)
            self.s.connect(addr)
        self.p = Parser()
        self.rx = 0
        self.tx = 0
        self.closed = False
    def raw(self, data):
        """sends, reading replies meanwhile so that no side blocks the other"""
        if len(data) <= 32768:
            try: self.s.sendall(data)
            except (BrokenPipeError, ConnectionResetError) as e: raise Closed(str(e))
            self.tx += len(data)
            return
        mv = memoryview(data); end = time.monotonic() + self.timeout
        self.s.setblocking(False)
        try:
            while mv:
                r, w, _ = select.select([self.s], [self.s], [], 1.0)
                if r:
                    try: d = self.s.recv(262144)
                    except BlockingIOError: d = None
                    except ConnectionResetError as e: raise Closed(str(e))
                    if d == b"": raise Closed("eof while sending")
                    if d: self.p.feed(d); self.rx += len(d)
                if w:
                    try: n = self.s.send(mv[:262144])
                    except BlockingIOError: n = 0
                    except (BrokenPipeError, ConnectionResetError) as e: raise Closed(str(e))
                    self.tx += n; mv = mv[n:]
                    if n: end = time.monotonic() + self.timeout
                if time.monotonic() > end: raise Timeout("send blocked")
        finally:
            self.s.settimeout(self.timeout)
    def send(self, *args): self.raw(enc(*args))
    def recv(self, timeout=None):
        timeout = self.timeout if timeout is None else timeout
        end = time.monotonic() + timeout; who = self if timeout >= 20 else None
        while True:
            v = self.p.get()
            if v is not MORE: return v
            left = end - time.monotonic()
            if left <= 0: raise Timeout("no reply", who)
            self.s.settimeout(max(left, 0.001))
            try: d = self.s.recv(262144)
            except socket.timeout: raise Timeout("no reply, buffered %r" % bytes(self.p.buf[:100]), who)
            except ConnectionResetError as e: raise Closed(str(e))
            finally: self.s.settimeout(self.timeout)
            if not d:
                if self.p.buf: raise Closed("eof after partial reply %r" % bytes(self.p.buf[:100]))
                raise Closed("eof")
            self.rx += len(d)
            self.p.feed(d)
    def cmd(self, *args):
        self.send(*args)
        return self.recv()
    def quiet(self, delay=0.05):
        """True when nothing more arrives within delay"""
        if self.p.buf: return False
        r, _, _ = select.select([self.s], [], [], delay)
        return not r
    def eof(self, timeout=10.0):
        """waits for the server to close the connection; returns bytes seen before"""
        end = time.monotonic() + timeout
        got = bytes(self.p.buf)
        while True:
            left = end - time.monotonic()
            if left <= 0: return None
            self.s.settimeout(left)
            try: d = self.s.recv(65536)
            except socket.timeout: return None
            except (ConnectionResetError, OSError): return got
            if not d: return got
            got += d
    def close(self):
        if not self.closed:
            self.closed = True
            try: self.s.close()
            except OSError: pass
