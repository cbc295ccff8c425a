"""C11: framing, pipelining, fragmentation, slow readers, malformed requests."""
import os, select, socket, struct, time
from vz import gen
from vz.model import Violation, short
from vz.resp import Client, Closed, Err, MORE, Parser, Protocol, Status, Timeout, enc

PROP, LEVEL = "C11", "exploration"
TECHNIQUE = ("runtime monitoring: differential oracle between the same command sequences sent one at a time and sent through every cut, pipeline depth, reading speed and "
             "interleaving of connections; strict RESP parser, missing replies decided with a live control connection; ASan+UBSan")
NOTE = "the i-th reply of every connection must equal the i-th reply of the one-at-a-time run (timestamps masked); requests are placed so that every element ends around the server's buffer boundaries"
RULE = "one distinct = (kind, element at the boundary, distance to the boundary, command, way of cutting, way of reading, transport)"
VARIANTS = ("asan", "release")
BUF = 8192
MAXP = 8 * 1024 * 1024
WAIT = 25.0

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(16 if q else 96): out.append({"kind": "edge", "i": i, "seed": seed * 1000 + i, "n": 260 if q else 1500})
    for i in range(20 if q else 160): out.append({"kind": "mix", "i": i, "seed": seed * 1000 + 100 + i, "rounds": 4 if q else 10, "conns": 5})
    for i in range(6 if q else 40): out.append({"kind": "slow", "i": i, "seed": seed * 1000 + 300 + i, "rounds": 2 if q else 6})
    for i in range(8 if q else 60): out.append({"kind": "malformed", "i": i, "seed": seed * 1000 + 400 + i, "n": 120 if q else 600})
    for i in range(2 if q else 8): out.append({"kind": "limits", "i": i, "seed": seed * 1000 + 500 + i})
    return out

# ---- scripts -----------------------------------------------------------
def script(rnd, n, mode, ns, other, big=.03, sizes=None):
    """requests whose replies depend only on the namespaces of one connection"""
    keys = gen.key_pool(rnd, 10) if mode == "user" else []
    ids = 0
    out, cur = [], mode
    uniq = rnd.getrandbits(20)
    def val():
        nonlocal uniq
        uniq += 1
        return gen.payload(rnd, uniq, rnd.choice(sizes) if sizes else None, big)
    for _ in range(n):
        x = rnd.random()
        if cur == "user": k = rnd.choice(keys) if keys and rnd.random() < .9 else b"other%d" % rnd.randrange(9)
        else: k = struct.pack("<Q", rnd.randrange(ids + 2))
        if x < .25:
            if cur == "user": out.append(("SET", k, val()))
            elif rnd.random() < .8: out.append(("SET", b"", val())); ids += 1
            else: out.append(("SET", k, val()))
        elif x < .48: out.append(("GET", k))
        elif x < .54: out.append(("MGET",) + tuple(rnd.choice(keys) if keys else k for _ in range(rnd.choice([1, 2, 5, 30]))))
        elif x < .58: out.append(("EXISTS", k))
        elif x < .62: out.append(("LENGTH", k))
        elif x < .66: out.append(("DEL", k))
        elif x < .69: out.append(("CHECK", k))
        elif x < .72: out.append((rnd.choice(["SCAN", "RSCAN", "SCANX"]),))
        elif x < .74: out.append(("HISTORY", k))
        elif x < .76: out.append(("KEYTIME", k))
        elif x < .79: out.append(("KEYCUR", k))
        elif x < .83: out.append(rnd.choice([("PING",), ("ping",), ("TIME",), ("DBSIZE",), ("INFO",)]))
        elif x < .87: out.append(rnd.choice([("NOSUCH", b"x"), ("SET",), ("GET",), ("GET", b"a", b"b"), ("SET", b"k" * 256, b"v"), ("LENGTH", b"none"), ("EXISTS",), ("MGET",), (b"\0\r\n", b"\r\n"), ("NSINFO", "nope"), ("SCAN", b"shrt")]))
        elif x < .92: out.append(("SELECT", other)); out.append(("DBSIZE",)); out.append(("SELECT", ns))
        elif x < .93: out.append(("NSINFO", ns))
        elif x < .95: out.append(("WAIT", "NOPE"))
        else: out.append(("GET", k))
    return out

def mask(a, r):
    """what may differ between two runs"""
    c = a[0].upper() if isinstance(a[0], str) else a[0]
    if isinstance(r, Err): return r
    if c in ("SCAN", "RSCAN", "SCANX") and isinstance(r, list): return [len(r), len(r[0]), [e[:2] + [len(e)] for e in r[1][:1]]]       # how many at once depends on time
    if c == "KEYTIME" and isinstance(r, int): return "ts"
    if c == "HISTORY" and isinstance(r, list) and len(r) == 3: return [r[0], "ts", r[2]]
    if c == "TIME" and isinstance(r, list): return [len(r)] + [isinstance(x, bytes) and x.isdigit() for x in r]
    if c == "INFO" and isinstance(r, bytes): return [l.split(b":")[0] for l in r.split(b"\n")]
    if c == "NSINFO" and isinstance(r, bytes): return [l for l in r.split(b"\n") if l.split(b":")[0] in (b"name", b"entries", b"public", b"worm", b"data_size_bytes", b"next_internal_id", b"mode", b"data_current_id", b"data_current_offset")]
    return r

class Mini:
    """expected replies of the basic commands, so that the one-at-a-time run is judged too"""
    def __init__(self, mode): self.mode, self.d = mode, {}
    def check(self, a, r):
        c = a[0]
        if c == "PING" or c == "ping": ok = r == Status("PONG")
        elif self.mode != "user": return
        elif c == "SET" and len(a) == 3 and 0 < len(a[1]) < 256:
            same = self.d.get(a[1]) == a[2] if a[1] in self.d else False
            ok = r == a[1] and isinstance(r, bytes) or (r is None and same)
            self.d[a[1]] = a[2]
        elif c == "GET" and len(a) == 2: ok = (r == self.d[a[1]] and isinstance(r, bytes)) if a[1] in self.d else r is None
        elif c == "MGET" and len(a) > 1: ok = r == [self.d.get(k) for k in a[1:]]
        elif c == "EXISTS" and len(a) == 2: ok = r == int(a[1] in self.d)
        elif c == "LENGTH" and len(a) == 2: ok = r == len(self.d[a[1]]) if a[1] in self.d else r is None
        elif c == "DEL" and len(a) == 2: ok = (r == Status("OK")) if self.d.pop(a[1], None) is not None else isinstance(r, Err)
        elif c == "NOSUCH": ok = r == Err("Command not supported")
        elif c in ("SET", "GET", "EXISTS", "MGET"): ok = isinstance(r, Err)
        else: return
        if not ok: raise Violation("one-at-a-time", "%s answered %s" % (short(a), short(r)))

def serve(ctx, variant, tcp=False, nns=6, modes=None, narrow=None):
    """narrow: (send buffer, longest send) of the unix sockets"""
    args, port = [], None
    if tcp:
        with socket.socket() as q: q.bind(("127.0.0.1", 0)); port = q.getsockname()[1]
        args = ["--dualnet", "--listen", "127.0.0.1", "--port", str(port)]
    s = ctx.server(variant, args=args, datasize=9 * 1024 * 1024, narrow=narrow).start()
    s.port = port
    s.adm = s.client()
    for i in range(nns):
        for p in "cd":
            r = s.adm.cmd("NSNEW", "%s%d" % (p, i)); s.adm.cmd("NSSET", "%s%d" % (p, i), "mode", (modes or ["user"] * nns)[i])
            if r != "OK": raise Violation("setup", "NSNEW answered %s" % short(r))
    return s

def connect(s, ns, rnd=None, **kw):
    a = ("127.0.0.1", s.port) if s.port and (rnd is None or rnd.random() < .5) else s.sockpath
    c = Client(a, timeout=WAIT); s.clients.append(c)
    c.tcp = isinstance(a, tuple)
    if ns:
        r = c.cmd("SELECT", ns)
        if r != "OK": raise Violation("setup", "SELECT answered %s" % short(r))
    return c

def reference(s, ns, mode, reqs, c=None):
    c = c or connect(s, ns)
    m = Mini(mode)
    out = []
    for a in reqs:
        r = c.cmd(*a); m.check(a, r); out.append(mask(a, r))
    return out

def alive(s, what):
    """a connection made now is answered"""
    try:
        c = Client(s.sockpath, timeout=WAIT)
        try:
            if c.cmd("PING") != "PONG": raise Violation("others", "PING on another connection is not answered properly after " + what)
        finally: c.close()
    except (Timeout, OSError): raise Timeout("the server does not answer at all after " + what)

def compare(i, reqs, exp, r, what):
    v = mask(reqs[i], r)
    if v != exp[i] or type(v) != type(exp[i]):
        later = [j for j in range(len(exp)) if exp[j] == v][:4]
        raise Violation("reply", "%s: reply %d, to %s, is %s; one at a time it was %s%s" % (what, i, short(reqs[i]), short(v), short(exp[i]), " (the reply of requests %s)" % later if later else ""))

def missing(s, what):
    s.diagnose()
    alive(s, what)
    raise Violation("missing-reply", what + ": no reply, though the server answers other connections")

# ---- elements placed around the buffer boundaries ---------------------------
def parts(a):
    """(name, bytes) pieces of a request"""
    out = [("count", b"*%d\r\n" % len(a))]
    for i, x in enumerate(a):
        x = x.encode("latin-1") if isinstance(x, str) else x
        out += [("head%d" % min(i, 3), b"$%d\r\n" % len(x)), ("body%d" % min(i, 3), x), ("crlf%d" % min(i, 3), b"\r\n")]
    return out

def run_edge(ctx):
    """[filler][request (+ following requests)] in one write, one element of the request ending at boundary + d"""
    sp, rnd = ctx.spec, ctx.rnd
    tcp = sp["i"] % 4 == 3
    s = serve(ctx, ["asan", "release"][sp["i"] % 2], tcp, 1)
    A = connect(s, "c0"); B = connect(s, "d0", rnd)
    pool = [("SET", b"k", b"value"), ("SET", b"k", b""), ("GET", b"k"), ("GET", b"none"), ("DEL", b"k"), ("PING",), ("NOSUCH",), ("EXISTS", b"k"), ("MGET", b"k", b"none", b"k"), ("SET", b"k" * 255, b"v" * 300), ("LENGTH", b"k"),
            ("SCAN",), ("SELECT", "@@"), ("DBSIZE",), ("TIME",), ("HISTORY", b"k"), ("SET", b"z", b"\r\n" * 40), ("GET", b"a", b"b"), ("KEYCUR", b"k"), ("SET", b"kb", b"B" * 9000)]
    fixed = [(a, e, d) for a in pool for e in range(len(parts(a))) for d in (-1, 0, 1)]
    rnd.shuffle(fixed)
    fixed = fixed[sp["i"] * sp["n"] // 3 % len(fixed):] + fixed
    for t in range(sp["n"]):
        a, e, d = fixed[t] if t < sp["n"] * 2 // 3 else (rnd.choice(pool), None, rnd.choice([-3, -2, -1, 0, 1, 2, 3, 5, 8]))
        pa = parts(a)
        if e is None: e = rnd.randrange(len(pa))
        k = rnd.choice([1, 1, 1, 1, 2, 3, 8])
        tail = [rnd.choice(pool) for _ in range(rnd.choice([0, 0, 0, 1, 3]))]
        # the element e ends at k*BUF + d bytes after the beginning
        upto = sum(len(x) for _, x in pa[:e + 1])
        style = rnd.choice(["set", "pings", "short", "header"])
        target = k * BUF + d - upto
        pre = []
        if style == "pings":
            n = rnd.randint(1, 40); pre = [("PING",)] * n; target -= 14 * n
        room = target
        # one SET of exactly `room` bytes
        L = None
        for guess in range(room - 60, room):
            if guess >= 0 and len(enc("SET", b"fill", b"x" * guess)) == room: L = guess; break
        if L is None:      # a length which is not reachable because of the digits: two SETs
            first = ("SET", b"f2", b"y" * 50); r2 = room - len(enc(*first))
            for guess in range(r2 - 60, r2):
                if guess >= 0 and len(enc("SET", b"fill", b"x" * guess)) == r2: L = guess; pre = pre + [first]; break
        if L is None: continue
        reqs = pre + [("SET", b"fill", bytes([65 + t % 26]) * L), a] + tail
        ra = [tuple("c0" if x == "@@" else x for x in q) for q in reqs]; rb = [tuple("d0" if x == "@@" else x for x in q) for q in reqs]
        exp = [mask(q, A.cmd(*q)) for q in ra]
        data = b"".join(enc(*q) for q in rb)
        what = "%s of %s ending at %d*%d%+d, %d requests in one write (%s)" % (pa[e][0], short(a), k, BUF, d, len(rb), "tcp" if B.tcp else "unix")
        cut = rnd.random()
        try:
            if cut < .7: B.raw(data)
            elif cut < .85:     # a pause exactly at the boundary
                at = k * BUF + rnd.choice([0, 0, -1, 1, d]); B.raw(data[:at]); B.s.setsockopt if 0 else None; time.sleep(.002); B.raw(data[at:])
            else:
                at = rnd.randrange(len(data)); B.raw(data[:at]); time.sleep(.002); B.raw(data[at:])
            for i in range(len(rb)): compare(i, rb, exp, B.recv(), what)
        except Timeout: missing(s, what)
        except Closed:
            s.diagnose(); raise Violation("disconnected", what + ": the connection was closed")
        except Protocol as x: raise Violation("protocol", "%s: %s" % (what, x))
        ctx.ev.hit("evaluations"); ctx.ev.hit("edges"); ctx.ev.hit("replies", len(rb))
        ctx.distinct.add("edge/%s/%s/%d/%d/%s" % (pa[e][0], a[0], d, min(k, 2), "tcp" if B.tcp else "unix"))
        if t % 40 == 39:
            # start anew now and then: buffers in their first state
            B.close(); B = connect(s, "d0", rnd)
    if not B.quiet(.05): raise Violation("extra-reply", "bytes after the last reply: %s" % short(bytes(B.p.buf)))
    s.stop("SIGTERM")

# ---- many connections, any cut, any reading speed -----------------------------
class Flow:
    """one connection: what is still to be sent, how, and how it reads"""
    def __init__(self, rnd, c, reqs, exp, data, how, read):
        self.c, self.reqs, self.exp, self.data, self.how, self.read = c, reqs, exp, memoryview(data), how, read
        self.sent = 0; self.i = 0; self.last = time.monotonic(); self.rnd = rnd
        c.s.setblocking(False)
    def piece(self):
        rnd = self.rnd
        left = len(self.data) - self.sent
        h = self.how
        if h == "all": n = left
        elif h == "bytes": n = 1
        elif h == "tiny": n = rnd.randint(1, 7)
        elif h == "buf": n = rnd.choice([BUF, BUF, BUF - 1, BUF + 1, 2 * BUF])
        elif h == "mix": n = rnd.choice([1, 2, 10, 100, 1000, BUF, 50000])
        else: n = rnd.randint(1, 3000)
        return min(n, left)
    def may_send(self):
        return self.sent < len(self.data)
    def send(self):
        n = self.piece()
        try: k = self.c.s.send(self.data[self.sent:self.sent + n])
        except BlockingIOError: return False
        except (BrokenPipeError, ConnectionResetError) as e: raise Closed(str(e))
        self.sent += k; self.last = time.monotonic()
        return True
    def recv(self, what):
        n = {"fast": 262144, "slow": self.rnd.choice([1, 10, 4096]), "late": 65536, "drip": self.rnd.randint(1, 60)}[self.read]
        if self.read == "late" and self.sent < len(self.data): 
            if self.rnd.random() < .9: return False
        try: d = self.c.s.recv(n)
        except BlockingIOError: return False
        except ConnectionResetError as e: raise Closed(str(e))
        if not d: raise Closed("eof")
        self.last = time.monotonic()
        self.c.p.feed(d)
        if self.read in ("slow", "drip") and len(d) < n and self.rnd.random() < .3: pass
        while True:
            r = self.c.p.get()
            if r is MORE: break
            if self.i >= len(self.exp): raise Violation("extra-reply", "%s: more replies than requests: %s" % (what, short(r)))
            compare(self.i, self.reqs, self.exp, r, what); self.i += 1
        return True
    def done(self): return self.i == len(self.exp) and self.sent == len(self.data)

def run_mix(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    for rd in range(sp["rounds"]):
        n = sp["conns"]
        modes = [rnd.choice(["user", "user", "seq"]) for _ in range(n)]
        A = serve(ctx, "asan" if rnd.random() < .5 else "release", False, n, modes)
        narrow = (rnd.choice([0, 1, 1, 16384]), rnd.choice([0, 8, 300, 5000, 100000])) if rnd.random() < .5 else None
        B = serve(ctx, rnd.choice(["asan", "asan", "release"]), rnd.random() < .5, n, modes, narrow)
        flows = []
        for i in range(n):
            how = rnd.choice(["all", "bytes", "tiny", "buf", "mix", "rand", "mix", "all"])
            read = rnd.choice(["fast", "fast", "slow", "late", "drip"])
            small = how in ("bytes", "tiny") or read in ("drip",)
            reqs = script(rnd, rnd.choice([5, 40, 80]) if small else rnd.choice([5, 60, 200, 400]), modes[i], "c%d" % i, "d%d" % i, 0 if small else rnd.choice([.02, .2]), [0, 1, 5, 40, 200] if small else None)
            exp = reference(A, "c%d" % i, modes[i], reqs)
            c = connect(B, "c%d" % i, rnd)
            if rnd.random() < .3: c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 40000)
            data = b"".join(enc(*a) for a in reqs)
            f = Flow(rnd, c, reqs, exp, data, how, read); f.id = i
            f.what = "connection %d/%d (%s, sent %s, read %s, %d requests)" % (i, n, "tcp" if c.tcp else "unix", how, read, len(reqs))
            flows.append(f)
        A.stop("SIGTERM")
        ctrl = connect(B, None)
        lasting = time.monotonic()
        todo = list(flows)
        idle = 0
        while todo:
            f = rnd.choice(todo); moved = False
            try:
                for _ in range(rnd.choice([1, 1, 5, 40])):
                    if f.may_send() and rnd.random() < .6: moved |= f.send()
                    else: moved |= f.recv(f.what)
            except Closed as e:
                B.diagnose(); raise Violation("disconnected", "%s: the connection was closed after %d replies (%s)" % (f.what, f.i, e))
            except Protocol as e: raise Violation("protocol", "%s: after %d replies: %s" % (f.what, f.i, e))
            if f.done(): todo.remove(f); continue
            if not moved:
                idle += 1
                if idle % 50 == 0:
                    time.sleep(.001)
                    if time.monotonic() - max(g.last for g in todo) > WAIT: missing(B, "%s, %d of %d replies" % (todo[0].what, todo[0].i, len(todo[0].exp)))
            else: idle = 0
            if rnd.random() < .002:
                if ctrl.cmd("PING") != "PONG": raise Violation("others", "the control connection is not answered")
                ctx.ev.hit("control_pings")
        for f in flows:
            f.c.s.setblocking(True); f.c.s.settimeout(WAIT)
            r = f.c.cmd("PING")
            if r != "PONG": raise Violation("extra-reply", "%s: PING after the script answered %s" % (f.what, short(r)))
            if not f.c.quiet(0): raise Violation("extra-reply", "%s: bytes after the last reply" % f.what)
            ctx.ev.hit("evaluations"); ctx.ev.hit("flows"); ctx.ev.hit("replies", len(f.exp)); ctx.distinct.add("mix/%s/%s/%s/%s" % (f.how, f.read, "tcp" if f.c.tcp else "unix", modes[f.id]))
        if narrow: ctx.ev.hit("sends_cut", B.ctl.get("cut")); ctx.distinct.add("narrow/%d/%d" % narrow)
        B.stop("SIGTERM")

def run_slow(ctx):
    """clients which ask for much and read later, while others work"""
    sp, rnd = ctx.spec, ctx.rnd
    narrow = (rnd.choice([0, 1, 1, 16384]), rnd.choice([0, 5000, 100000])) if sp["i"] % 2 else None
    s = serve(ctx, rnd.choice(["asan", "release"]), rnd.random() < .6, 4, narrow=narrow)
    vals = {}
    for i in range(8):
        k = b"big%d" % i; v = gen.payload(rnd, i, rnd.choice([100, 60000, 300000, 1000000, 3000000])); vals[k] = v
        for n in range(4):
            r = connect(s, "c%d" % n).cmd("SET", k, v)
            if r != k: raise Violation("setup", "SET answered %s" % short(r))
    for rd in range(sp["rounds"]):
        group = []
        for n in range(4):
            c = connect(s, "c%d" % n, rnd)
            if rnd.random() < .5: c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 40000)
            reqs = []
            for _ in range(rnd.choice([3, 10, 40])):
                x = rnd.random()
                if x < .5: reqs.append(("GET", rnd.choice(list(vals))))
                elif x < .7: reqs.append(("MGET",) + tuple(rnd.choice(list(vals)) for _ in range(3)))
                elif x < .76: reqs.append(("HISTORY", rnd.choice(list(vals))))
                elif x < .82: reqs.append(("PING",))
                elif x < .9: reqs.append(("SET", b"s%d" % rnd.randrange(3), gen.payload(rnd, 1, 2000)))
                else: reqs.append(("NOSUCH",))
            exp = [Status("PONG") if a[0] == "PING" else vals[a[1]] if a[0] == "GET" else [vals[k] for k in a[1:]] if a[0] == "MGET" else Err("Command not supported") if a[0] == "NOSUCH" else None for a in reqs]
            data = b"".join(enc(*a) for a in reqs)
            if len(data) < 60000 and not (c.tcp and len(data) > 3000): c.s.sendall(data); group.append((c, reqs, exp, None))
            else:
                c.s.setblocking(False); sent = 0
                try:
                    while sent < len(data): sent += c.s.send(data[sent:sent + 65536])
                except BlockingIOError: pass
                c.s.settimeout(WAIT); group.append((c, reqs, exp, data[sent:]))
        ctrl = connect(s, "d0")
        for i in range(100):
            t = time.monotonic()
            r = ctrl.cmd("SET", b"x", b"%d" % i), ctrl.cmd("GET", b"x")
            if r != (b"x", b"%d" % i): raise Violation("others", "another connection answered %s while clients do not read" % short(r))
            ctx.ev.hit("control_ops")
        gone = rnd.choice(group) if rnd.random() < .5 else None
        if gone: group.remove(gone); gone[0].close(); ctx.ev.hit("slow_gone")
        rnd.shuffle(group)
        for c, reqs, exp, rest in group:
            what = "slow reader (%d requests, %s)" % (len(reqs), "tcp" if c.tcp else "unix")
            try:
                if rest: c.raw(rest)
                for i, a in enumerate(reqs):
                    if rnd.random() < .1: ctrl.cmd("PING")
                    r = c.recv()
                    if a[0] == "SET":
                        if r is not None and r != a[1]: raise Violation("reply", "%s: SET answered %s" % (what, short(r)))
                    elif a[0] == "HISTORY":
                        if not isinstance(r, list) or len(r) != 3 or r[2] != vals[a[1]]: raise Violation("reply", "%s: reply %d, to %s, is %s" % (what, i, short(a), short(r)))
                    elif r != exp[i] or type(r) != type(exp[i]): raise Violation("reply", "%s: reply %d, to %s, is %s in place of %s" % (what, i, short(a), short(r), short(exp[i])))
            except Timeout: missing(s, what)
            except Closed: s.diagnose(); raise Violation("disconnected", what + ": the connection was closed")
            except Protocol as e: raise Violation("protocol", "%s: %s" % (what, e))
            if c.cmd("PING") != "PONG": raise Violation("extra-reply", what + ": out of step at the end")
            c.close(); ctx.ev.hit("evaluations"); ctx.ev.hit("slow"); ctx.distinct.add("slow/%d/%s" % (min(3, len(reqs) // 5), "tcp" if c.tcp else "unix"))
    s.stop("SIGTERM")

# ---- malformed requests -------------------------------------------------
POISON = enc("SET", b"poison", b"x")

def malformed(rnd):
    x = rnd.randrange(16)
    n = rnd.choice([-1, -2, -3, -100, -2147483648, -2147483649, -4294967295])
    if x == 0: return "no-array", rnd.choice([b"PING\r\n", b"SET poison x\r\n", b"\r\n", b"\n", b"+OK\r\n", b":1\r\n", b"$4\r\nPING\r\n", b"\0\0\0\n", b" *1\r\n$4\r\nPING\r\n"])
    if x == 1: return "count-zero", b"*0\r\n"
    if x == 2: return "count-negative", b"*%d\r\n$4\r\nPING\r\n" % n
    if x == 3: return "count-big", b"*%d\r\n" % rnd.choice([1025, 1026, 5000, 2147483647, 99999999, 100000000000]) + POISON * rnd.choice([0, 1, 300])
    if x == 4: return "count-text", rnd.choice([b"*x\r\n", b"*\r\n", b"*-\r\n", b"*$3\r\n", b"*\n"]) + POISON * rnd.randrange(2)
    if x == 5: return "no-bulk", b"*2\r\n" + rnd.choice([b":3\r\nGET\r\n", b"+GET\r\n", b"*1\r\n", b"GET\r\n", b"\r\n", b"-x\r\n", b"\0\n"])
    if x == 6: return "bulk-negative-first", b"*2\r\n$%d\r\n" % n + rnd.choice([b"\r\n", b"x", b""]) + POISON
    if x == 7: return "bulk-negative-later", b"*3\r\n$3\r\nSET\r\n" + rnd.choice([b"$%d\r\n" % n, b"$6\r\npoison\r\n$%d\r\n" % n]) + rnd.choice([b"\r\n", b"x", b""])
    if x == 8: return "bulk-big", b"*2\r\n$3\r\nGET\r\n$%d\r\n" % rnd.choice([MAXP + 1, MAXP + 2, 9000000, 100000000, 2147483645, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, 4294967299, 100000000000, 18446744073709551615, 18446744073709551619]) + POISON * rnd.choice([0, 1, 200])
    if x == 9: return "bulk-big-first", b"*1\r\n$%d\r\n" % rnd.choice([MAXP + 1, 2147483647, 4294967300]) + b"PING\r\n"
    if x == 10: return "bulk-text", b"*2\r\n$3\r\nGET\r\n" + rnd.choice([b"$\r\n", b"$x\r\n", b"$-\r\n", b"$\n"])+ POISON
    if x == 11: return "endless", rnd.choice([b"*" + b"1" * 20000, b"x" * 20000, b"*1\r\n$" + b"1" * 20000, b"*1\r\n" + b"\0" * 20000, b" " * 9000, b"*1\r\n$" + b" " * 9000 + b"\n", b"*" + b" " * 8190 + b"\n"])
    if x == 12: return "bulk-max-negative", b"*3\r\n$3\r\nSET\r\n$6\r\npoison\r\n$-9223372036854775808\r\n"
    if x == 13: return "count-signed", rnd.choice([b"*-0\r\n", b"*+0\r\n", b"*0x1\r\n", b"*00\r\n"])
    if x == 14: return "truncated", enc("SET", b"poison", b"v" * rnd.choice([1, 100, 9000]))[:-rnd.randint(1, 3)]
    return "noise", bytes(rnd.choice(b"*$\r\n0123456789-PINGSET\0\xff ") for _ in range(rnd.choice([3, 30, 300, 9000]))).replace(b"*", b"#", 1 if rnd.random() < .5 else 0)

def run_malformed(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    s = serve(ctx, ["asan", "asan", "release"][sp["i"] % 3], rnd.random() < .4, 2)
    good = connect(s, "c0"); m = {}
    for i in range(20): m[b"k%d" % i] = gen.payload(rnd, i); good.cmd("SET", b"k%d" % i, m[b"k%d" % i])
    held = []
    for t in range(sp["n"]):
        kind, bad = malformed(rnd)
        c = connect(s, "c0", rnd)
        pre = rnd.choice([0, 0, 1, 3])
        data = enc("GET", b"k1") * pre + bad
        what = "malformed request (%s) %s" % (kind, short(bad))
        open_ = kind in ("truncated", "endless", "noise")       # no verdict about the reply: incomplete, or possibly harmless
        out = []
        try:
            if rnd.random() < .7: c.raw(data)
            else:
                j = rnd.randrange(len(data)); c.raw(data[:j]); time.sleep(.001); c.raw(data[j:])
            for i in range(pre):
                r = c.recv()
                if r != m[b"k1"]: raise Violation("malformed-before", "%s: reply to a good request before it was %s" % (what, short(r)))
            if not open_:
                r = c.recv(WAIT)
                if not isinstance(r, Err): raise Violation("malformed-accepted", "%s answered %s" % (what, short(r)))
                ctx.ev.hit("malformed_errors")
            else:
                try:
                    while True: r = c.recv(.02); ctx.ev.hit("open_replies")
                except Timeout: pass
        except Timeout:
            if kind in ("bulk-negative-later", "bulk-negative-first", "count-big", "bulk-big", "bulk-text", "count-negative", "count-text", "bulk-big-first", "bulk-max-negative", "count-zero", "count-signed", "no-array", "no-bulk"):
                s.diagnose(); alive(s, what)
                raise Violation("malformed-ignored", what + ": neither an error nor a disconnection")
            raise
        except Closed: ctx.ev.hit("malformed_closed"); s.diagnose() if s.proc.poll() is not None else None
        except Protocol as e: raise Violation("protocol", "%s: %s" % (what, e))
        if s.proc.poll() is not None: s.check_dead(expected=None); raise Violation("server-gone", what + ": the server ended")
        # others and the data
        r = good.cmd("MGET", *m)
        if r != list(m.values()): raise Violation("malformed-effect", "%s changed the data seen by another client" % what)
        if good.cmd("EXISTS", b"poison") != 0: raise Violation("malformed-effect", "%s: bytes of the refused request were executed" % what)
        if good.cmd("DBSIZE") != len(m): raise Violation("malformed-effect", "%s: DBSIZE is not %d" % (what, len(m)))
        k = rnd.choice(list(m)); m[k] = gen.payload(rnd, t); good.cmd("SET", k, m[k])
        if rnd.random() < .5: c.close()
        else: held.append(c)
        if len(held) > 30: held.pop(rnd.randrange(30)).close()
        ctx.ev.hit("evaluations"); ctx.ev.hit("malformed"); ctx.distinct.add("malformed/%s/%d" % (kind, pre))
    s.stop("SIGTERM")

def run_limits(ctx):
    """the largest accepted request, and one more"""
    sp, rnd = ctx.spec, ctx.rnd
    s = serve(ctx, ["asan", "release"][sp["i"] % 2], sp["i"] >= 2, 1)
    c = connect(s, "c0", rnd)
    for n in (MAXP - 1, MAXP):
        v = gen.payload(rnd, n, n)
        r = c.cmd("SET", b"max", v)
        if r != b"max": raise Violation("limits", "SET of %d bytes answered %s" % (n, short(r)))
        if c.cmd("GET", b"max") != v: raise Violation("limits", "a value of %d bytes is not returned" % n)
        r = c.cmd("HISTORY", b"max")
        if not isinstance(r, list) or len(r) != 3 or r[2] != v: raise Violation("limits", "HISTORY of a value of %d bytes answered %s" % (n, short(r)))
        ctx.ev.hit("limits")
    keys = [b"m%d" % i for i in range(1023)]
    for i, k in enumerate(keys):
        if i % 3 == 0: c.cmd("SET", k, b"v%d" % i)
    r = c.cmd("MGET", *keys)
    if r != [b"v%d" % i if i % 3 == 0 else None for i in range(1023)]: raise Violation("limits", "MGET of 1023 keys answered %s" % short(r))
    ctx.ev.hit("limits")
    for what, bad in (("1025 arguments", enc("MGET", *(keys + [b"x"]))), ("a payload of 8 MB + 1", b"*3\r\n$3\r\nSET\r\n$3\r\nmax\r\n$%d\r\n" % (MAXP + 1) + b"z" * (MAXP + 1) + b"\r\n")):
        c2 = connect(s, "c0", rnd)
        try:
            c2.raw(bad); r = c2.recv()
            if not isinstance(r, Err): raise Violation("limits", "%s answered %s" % (what, short(r)))
        except Closed: pass
        s.diagnose()
        if c.cmd("GET", b"max") != v: raise Violation("limits", what + " changed the data")
        ctx.ev.hit("limits"); ctx.ev.hit("evaluations")
    # a big pipeline of small requests, all answered
    n = 20000
    c.raw(enc("PING") * n)
    for i in range(n):
        if c.recv() != "PONG": raise Violation("limits", "a reply in a pipeline of %d PING is wrong" % n)
    ctx.distinct.add("limits/%d" % (sp["i"] % 2))
    s.stop("SIGTERM")

def run_case(ctx):
    {"edge": run_edge, "mix": run_mix, "slow": run_slow, "malformed": run_malformed, "limits": run_limits}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("edges", 2000), ("flows", 200), ("replies", 20000), ("slow", 20), ("malformed", 500), ("malformed_errors", 200), ("limits", 8), ("sends_cut", 500)) if ev.get(k, 0) < n]
