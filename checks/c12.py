"""C12: memory safety and survival under hostile bytes."""
import mmap, os, random, select, socket, struct, time
from vz import build, gen
from vz.model import Violation, short
from vz.resp import Client, Closed, Err, MORE, Protocol, Timeout, enc
from vz.server import StartError

PROP, LEVEL = "C12", "exploration"
TECHNIQUE = ("runtime monitoring with sanitizers: coverage-guided hostile client programs (grammar of every command, structural and byte mutations, several connections, disconnects) "
             "against ASan+UBSan and MemorySanitizer builds; liveness of a control connection and restart of the server as further oracles")
NOTE = "edges of the server executed steer the generation; a crash, a sanitizer report, an unanswered control connection or a failed restart is a violation"
RULE = "one distinct = one edge of the server's code first reached by a program of the generator (hashed edges of libzdb and zdbd), plus configurations"
VARIANTS = ("cov", "msan")
WATCHDOG = 420
COVN = 65536

def cases(tier, seed):
    q = tier == "quick"
    out = []
    confs = [[], ["--admin", "pw"], ["--mode", "seq"], ["--mode", "user"], ["--admin", "pw", "--protect"], ["--hook", "/bin/true"], ["--sync"], ["--rotate", "1"], ["--maxsize", "5000"], ["--admin", "pw", "--mode", "seq", "--hook", "/bin/false"]]
    n = 20 if q else 120
    for i in range(n):
        c = confs[i % len(confs)]
        if "/bin/false" in c: c = ["--admin", "pw", "--mode", "seq"]
        out.append({"kind": "fuzz", "i": i, "seed": seed * 1000 + i, "variant": "msan" if i % 4 == 3 else "cov", "args": c, "programs": (300 if i % 4 == 3 else 500) if q else 12000})
    for i in range(4 if q else 24): out.append({"kind": "lengths", "i": i, "seed": seed * 1000 + 700 + i, "variant": ["cov", "msan"][i % 2], "n": 350 if q else 3000})
    for i in range(3 if q else 16): out.append({"kind": "vanish", "i": i, "seed": seed * 1000 + 800 + i, "variant": ["cov", "cov", "msan"][i % 3], "rounds": 40 if q else 400})
    for i in range(2 if q else 8): out.append({"kind": "many", "i": i, "seed": seed * 1000 + 900 + i, "variant": "cov", "n": 300})
    for i in range(2 if q else 12): out.append({"kind": "extremes", "i": i, "seed": seed * 1000 + 950 + i, "variant": ["cov", "msan"][i % 2], "rounds": 3 if q else 25})
    return out

COMMANDS = ["*", "WAIT", "MIRROR", "MASTER", "PING", "TIME", "AUTH", "HOOKS", "INDEX", "DATA", "SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK", "SCAN", "SCANX", "RSCAN", "KSCAN", "HISTORY", "KEYCUR", "LENGTH",
            "KEYTIME", "INFO", "DBSIZE", "NSNEW", "NSDEL", "NSLIST", "NSINFO", "NSJUMP", "SELECT", "RELOAD", "FLUSH", "NSSET"]
NSN = ["default", "a", "b", "c", "d", "mm", "x" * 127, "x" * 128]
LENS = [0, 1, 2, 3, 4, 7, 8, 9, 12, 13, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 28, 30, 31, 32, 33, 34, 36, 38, 39, 40, 41, 44, 48, 49, 50, 51, 60, 61, 62, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 8100, 8160, 8191, 8192, 8193, 9000]
WORDS = ["RAW", "DIRTY", "RESET", "SECURE", "CHALLENGE", "password", "maxsize", "public", "worm", "mode", "lock", "freeze", "user", "seq", "*", "pw", "1", "0", "", "password_raw", "OK"]

class Gen:
    """arguments and requests"""
    def __init__(self, rnd):
        self.rnd = rnd
        self.cursors, self.ids = [], [b"\0" * 8, struct.pack("<Q", 1)]
        self.keys = gen.key_pool(rnd, 8) + [b"k", b"key", b"k" * 255]
    def number(self):
        r = self.rnd
        return r.choice([b"0", b"1", b"-1", b"26", b"100", b"29", b"2147483647", b"-2147483648", b"4294967295", b"4294967296", b"9223372036854775807", b"-9223372036854775808", b"18446744073709551615", b"18446744073709551616",
                         b"1e9", b"0x10", b" 5", b"+7", b"nan", b"1800000", b"100", b"101", b"99", b"65535", b"65536", b"%d" % r.getrandbits(r.choice([4, 8, 16, 31, 33, 63])), b"%d" % (int(time.time()) - 5)])
    def blob(self, n=None):
        r = self.rnd
        if n is None: n = r.choice(LENS)
        k = r.randrange(6)
        if k == 0: return b"A" * n
        if k == 1: return b"\0" * n
        if k == 2: return b"\xff" * n
        if k == 3: return (b"%s%n%x" * (n // 6 + 1))[:n]
        if k == 4: return b"9" * n
        return r.randbytes(n)
    def key(self):
        r = self.rnd
        return r.choice(self.keys) if r.random() < .7 else r.choice(self.ids) if r.random() < .6 else self.blob(r.choice([0, 1, 7, 8, 9, 254, 255, 256, 300]))
    def cursor(self):
        r = self.rnd
        if self.cursors and r.random() < .8:
            c = bytearray(r.choice(self.cursors))
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])): c[r.randrange(len(c))] = r.choice([0, 1, 255, r.randrange(256)])
            if r.random() < .1: c = c[:r.randrange(len(c) + 1)]
            if r.random() < .1: c += b"x"
            return bytes(c)
        return self.blob(r.choice([8, 16, 17, 18, 4, 12]))
    def ns(self):
        r = self.rnd
        return r.choice(NSN) if r.random() < .85 else r.choice([b"..", b".", b"/", b"a/b", b"a\0b", b"\0", b"x" * 129, b"x" * 255, b"x" * 256, b"x" * 4000, b".lockfile", b"%s%n", b"\xff\xfe", b"\n"])
    def word(self):
        r = self.rnd
        w = r.choice(WORDS)
        return w if r.random() < .85 else self.blob(r.choice([1, 63, 64, 254, 255, 256, 257]))
    def arg(self):
        r = self.rnd
        return r.choice([self.key, self.cursor, self.ns, self.word, self.number, self.blob])()
    def payload(self):
        r = self.rnd
        return gen.payload(r, r.getrandbits(30), r.choice([0, 1, 10, 100, 5000, 5001, 8192, 60000]) if r.random() < .6 else None)
    def request(self):
        """one request as a list of arguments, plausible"""
        r = self.rnd
        c = r.choice(COMMANDS)
        if r.random() < .3: c = r.choice(["SET", "GET", "DEL", "SELECT", "HISTORY", "SCAN", "RSCAN", "NSSET", "DATA", "KEYCUR"])
        a = {"SET": lambda: r.choice([[self.key(), self.payload()], [b"", self.payload()], [self.key(), self.payload(), self.number()]]), "SETX": lambda: [self.key(), self.payload()],
             "GET": lambda: [self.key()], "DEL": lambda: r.choice([[self.key()], [self.key(), self.number()]]), "EXISTS": lambda: [self.key()], "CHECK": lambda: [self.key()], "LENGTH": lambda: [self.key()], "KEYTIME": lambda: [self.key()], "KEYCUR": lambda: [self.key()],
             "MGET": lambda: [self.key() for _ in range(r.choice([0, 1, 3, 60]))], "SCAN": lambda: r.choice([[], [self.cursor()]]), "SCANX": lambda: r.choice([[], [self.cursor()]]), "RSCAN": lambda: r.choice([[], [self.cursor()]]),
             "KSCAN": lambda: [r.choice([self.key()[:r.randrange(4)], b"k", b"*", b"k*", b"?", b"[", self.key()])], "HISTORY": lambda: r.choice([[self.key()], [self.key(), self.cursor()], [self.key(), self.blob(r.choice([4, 7, 8, 9]))]]),
             "AUTH": lambda: r.choice([["pw"], ["pw"], [self.word()], ["SECURE", self.blob(40)], ["SECURE", "CHALLENGE"], ["CHALLENGE"]]), "INDEX": lambda: r.choice([["DIRTY"], ["DIRTY", "RESET"], ["DIRTY", self.word()], [self.word()]]),
             "DATA": lambda: ["RAW", self.number(), self.number()], "WAIT": lambda: r.choice([[r.choice(COMMANDS), "100"], [self.word()], [r.choice(COMMANDS), self.number()], [r.choice(COMMANDS)]]),
             "NSNEW": lambda: [self.ns()], "NSDEL": lambda: [self.ns()], "NSINFO": lambda: [self.ns()], "RELOAD": lambda: [self.ns()], "SELECT": lambda: r.choice([[self.ns()], [self.ns(), self.word()], [self.ns(), "SECURE", self.blob(40)], [self.ns(), "pw"]]),
             "NSSET": lambda: r.choice([[self.ns(), r.choice(["password", "maxsize", "public", "worm", "mode", "lock", "freeze"]), r.choice(["0", "1", "pw", "*", "user", "seq", self.number(), self.blob(r.choice([1, 62, 63, 64]))])], [self.ns(), "lock", "0"], [self.ns(), "freeze", "0"], [self.ns(), self.word(), self.word()]])
             }.get(c, lambda: [])()
        q = [c.lower() if r.random() < .1 else c] + a
        x = r.random()
        if x < .06: q.append(self.arg())
        elif x < .10 and len(q) > 1: q.pop()
        elif x < .14: q[r.randrange(len(q))] = self.arg()
        elif x < .16: q = [self.arg() for _ in range(r.choice([1, 2, 3, 4, 5, 20]))]
        elif x < .18: q += [self.arg() for _ in range(r.choice([5, 40]))]
        return q
    def master(self):
        """a request as a MASTER peer may send it"""
        q = self.request()
        return q + [self.rnd.choice([b"1", b"0", b"4294967295", self.blob(self.rnd.choice([0, 1, 10, 31, 32, 33, 34, 300]))])]
    # a program: steps (op, connection, what)
    def program(self):
        r = self.rnd
        n = r.choice([1, 1, 2, 3])
        p = []
        for i in range(r.choice([1, 2, 4, 8, 16])):
            c = r.randrange(n)
            x = r.random()
            if x < .04: p.append(("close", c, None))
            elif x < .05: p.append(("sleep", 0, r.choice([.001, .01])))
            elif x < .12: p.append(("send", c, [["MASTER"]])); p.append(("send", c, [self.master() for _ in range(r.choice([1, 3]))]))
            elif x < .16: p.append(("send", c, [["MIRROR"]]))
            elif x < .20: p.append(("raw", c, self.noise()))
            else: p.append((r.choice(["send", "send", "send", "cut"]), c, [self.request() for _ in range(r.choice([1, 1, 2, 5]))]))
        return p
    def noise(self):
        r = self.rnd
        d = bytearray(b"".join(enc(*self.request()) for _ in range(r.choice([1, 2]))))
        for _ in range(r.choice([1, 1, 2, 5])):
            if not d: break
            i = r.randrange(len(d)); x = r.randrange(7)
            if x == 0: d[i] = r.randrange(256)
            elif x == 1: del d[i:i + r.choice([1, 2, 10])]
            elif x == 2: d[i:i] = r.choice([b"\r\n", b"$", b"*", b"-1", b"0", b"99999", b"\0", b"$-1\r\n", b"*0\r\n", b"$0\r\n", b"\n"])
            elif x == 3: d = d[:i]
            elif x == 4:
                j = d.find(b"$")
                if j >= 0: d[j + 1:j + 2] = r.choice([b"-1", b"0", b"1", b"8388608", b"8388609", b"4294967297", b""])
            elif x == 5: d[i:i] = d[:r.randrange(len(d) + 1)]
            else:
                j = d.find(b"*")
                if j >= 0: d[j + 1:j + 2] = r.choice([b"-1", b"0", b"1", b"2", b"9", b"1024", b"1025"])
        return bytes(d)
    def mutate(self, p, q):
        """a variant of program p (q: another one)"""
        r = self.rnd
        p = [(o, c, list(w) if isinstance(w, list) else w) for o, c, w in p]
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.randrange(8)
            if not p: return self.program()
            i = r.randrange(len(p)); o, c, w = p[i]
            if x == 0: del p[i]
            elif x == 1: p.insert(r.randrange(len(p) + 1), p[i])
            elif x == 2: p[i:i] = q[:r.randrange(len(q) + 1)]
            elif x == 3 and isinstance(w, list) and w:
                j = r.randrange(len(w)); a = list(w[j])
                if a: a[r.randrange(len(a))] = self.arg(); w[j] = a
            elif x == 4 and isinstance(w, list) and w:
                j = r.randrange(len(w)); w[j] = list(w[j]) + [self.arg()] if r.random() < .5 else list(w[j])[:-1] or [b"PING"]
            elif x == 5 and isinstance(w, list): w.insert(r.randrange(len(w) + 1), self.request())
            elif x == 6: p[i] = (o, r.randrange(3), w)
            else: p.insert(i, ("close", c, None) if r.random() < .3 else ("send", r.randrange(3), [self.request()]))
        return p[:40]

class Host:
    """the server of a case, restarted when a program stopped it"""
    def __init__(self, ctx, args, variant):
        self.ctx, self.args, self.variant = ctx, args, variant
        self.base = ctx.sub("srv")
        self.covf = os.path.join(self.base, "cov")
        with open(self.covf, "wb") as f: f.write(b"\0" * COVN)
        self.f = open(self.covf, "r+b"); self.map = mmap.mmap(self.f.fileno(), COVN)
        self.s = None
        self.last = []
        self.start()
    def start(self):
        self.s = self.ctx.server(self.variant, self.base, data=os.path.join(self.base, "data"), index=os.path.join(self.base, "index"), args=self.args, user=65534, env={"ZSHIM_COV": self.covf}, datasize=600000)
        try: self.s.start(wait=60)
        except StartError as e: raise Violation("restart", "the server does not start again after hostile clients: %s" % str(e)[-400:], programs=self.last[-6:])
        self.ctrl = self.s.client(timeout=60)
    def edges(self):
        return bytes(self.map)
    def clear(self): self.map[:] = b"\0" * COVN
    def check(self, what):
        """alive and answering"""
        try:
            if self.ctrl.cmd("PING") != "PONG": raise Violation("control", "control connection: wrong answer", programs=self.last[-6:])
            return
        except Closed: pass
        except Timeout: raise Timeout("control connection not answered after %s" % what)
        # gone: fine when a program said STOP
        for _ in range(1500):
            if self.s.proc.poll() is not None: break
            time.sleep(.01)
        if self.s.proc.poll() is None: raise Violation("control-closed", "the control connection was closed, the server is alive", programs=self.last[-6:])
        self.s.check_dead(expected=(0,))
        if "Stopping" not in self.stops: raise Violation("server-gone", "the server ended by itself after " + what, programs=self.last[-6:])
        self.ctx.ev.hit("stops"); self.start()
    stops = ""

def send(c, data):
    """never blocks: what does not fit is not sent"""
    try:
        c.s.setblocking(False); mv = memoryview(data)
        for _ in range(400):
            try: n = c.s.send(mv)
            except BlockingIOError:
                select.select([], [c.s], [], .05); drain(c); continue
            mv = mv[n:]
            if not mv: break
    except OSError: return False
    return True

def drain(c):
    got = b""
    try:
        c.s.setblocking(False)
        while True:
            d = c.s.recv(262144)
            if not d: break
            got += d
            if len(got) > 1 << 22: break
    except OSError: pass
    return got

def play(h, g, p):
    """runs a program; returns the bytes received"""
    conns, out = {}, b""
    def conn(i):
        if i not in conns:
            try: conns[i] = Client(h.s.sockpath, timeout=60)
            except OSError: return None
        return conns[i]
    h.stops = ""
    for o, i, w in p:
        if o == "sleep": time.sleep(w); continue
        c = conn(i)
        if c is None: break
        if o == "close": c.close(); conns.pop(i); continue
        if o == "raw": data = w
        else: data = b"".join(enc(*q) for q in w)
        if o == "cut" and len(data) > 2:
            j = g.rnd.randrange(1, len(data)); send(c, data[:j]); out += drain(c); data = data[j:]
        if not send(c, data): c.close(); conns.pop(i, None)
        elif g.rnd.random() < .5: out += drain(c)
    # what was sent was read by the server when the control connection is answered
    for _ in range(2):
        try: h.ctrl.cmd("PING")
        except (Closed, Timeout): break
    for c in conns.values(): out += drain(c)
    if b"+Stopping" in out: h.stops = "Stopping"
    for c in conns.values(): c.close()
    return out

def learn(g, out):
    """identifiers and cursors out of the replies"""
    i = 0
    while len(g.cursors) < 60:
        i = out.find(b"$17\r\n", i)
        if i < 0: break
        g.cursors.append(out[i + 5:i + 22]); i += 5
    i = 0
    while len(g.ids) < 60:
        i = out.find(b"$8\r\n", i)
        if i < 0: break
        g.ids.append(out[i + 4:i + 12]); i += 4

def setup(h, g, admin):
    pre = [["AUTH", "pw"]] if admin else []
    p = [("send", 0, pre + [["NSNEW", n] for n in NSN[1:4]] + [["NSSET", "b", "mode", "seq"], ["NSSET", "c", "password", "pw"], ["NSSET", "c", "public", "0"]]),
         ("send", 0, [["SET", k, b"value"] for k in g.keys] + [["SET", k, b"value2"] for k in g.keys] + [["SELECT", "b"]] + [["SET", b"", b"v%d" % i] for i in range(8)] + [["SCAN"], ["NSJUMP"], ["SET", b"", b"x"], ["SELECT", "default"], ["SCAN"], ["RSCAN"], ["KEYCUR", g.keys[0]]])]
    learn(g, play(h, g, p)); h.check("setup")

def run_fuzz(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    g = Gen(rnd)
    h = Host(ctx, sp["args"], sp["variant"])
    admin = "--admin" in sp["args"]
    guided = sp["variant"] == "cov"
    setup(h, g, admin)
    seen, corpus = set(), []
    if guided: seen |= {i for i, b in enumerate(h.edges()) if b}
    for n in range(sp["programs"]):
        if corpus and rnd.random() < .55: p = g.mutate(rnd.choice(corpus[-80:] if rnd.random() < .6 else corpus), rnd.choice(corpus))
        else: p = g.program()
        if admin and rnd.random() < .5: p = [("send", i, [["AUTH", "pw"]]) for i in sorted({x[1] for x in p})] + [x for x in p]
        h.last.append(repr(p)[:3000]); h.last = h.last[-8:]
        if guided: h.clear()
        out = play(h, g, p)
        h.check("a program of %d steps" % len(p))
        learn(g, out)
        if rnd.random() < .01:
            play(h, g, [("send", 0, ([["AUTH", "pw"]] if admin else []) + [["NSSET", x, y, "0"] for x in ("default", "a", "b") for y in ("lock", "freeze")] + [["NSSET", x, "worm", "0"] for x in ("a", "b")])])
        if guided:
            e = h.edges()
            new = [i for i, b in enumerate(e) if b and i not in seen] if e.strip(b"\0") else []
            if new: seen.update(new); corpus.append(p); ctx.ev.hit("programs_with_new_edges")
        ctx.ev.hit("evaluations"); ctx.ev.hit("programs"); ctx.ev.hit("bytes_received", len(out))
        if n % 400 == 399:
            h.ctrl.close(); h.s.stop(rnd.choice(["STOP", "SIGTERM"])); h.start(); ctx.ev.hit("restarts"); setup(h, g, admin)
    if guided: ctx.distinct |= {"edge/%d" % i for i in seen}
    ctx.distinct.add("conf/%s/%s" % (" ".join(sp["args"]), sp["variant"]))
    ctx.sample = {"variant": sp["variant"], "args": sp["args"], "edges": len(seen), "corpus": len(corpus), "example": h.last[-1][:400] if h.last else None}
    h.s.stop("SIGTERM"); h.start(); ctx.ev.hit("restarts"); h.s.stop("STOP")

def run_lengths(ctx):
    """every command, one argument with every interesting length, terminated or not by CR LF"""
    sp, rnd = ctx.spec, ctx.rnd
    g = Gen(rnd); h = Host(ctx, [], sp["variant"]); setup(h, g, False)
    todo = [(c, k, n) for c in COMMANDS for k in range(0, 5) for n in LENS]
    rnd.shuffle(todo)
    todo = todo[:sp["n"] * 8]; p = []
    for z, (c, k, n) in enumerate(todo):
        tail = rnd.choice([b"\r\n", b"\r\n", b"AA", b"99", b"\0\0"])
        base = {"NSSET": ["a", "password", "x"], "DATA": ["RAW", "0", "26"], "INDEX": ["DIRTY", "RESET"], "SELECT": ["c", "pw"], "SET": [b"k", b"v", b"1"], "HISTORY": [b"k", b"8" * 8], "WAIT": ["PING", "100"], "AUTH": ["SECURE", "x" * 40]}.get(c, [b"k", b"v"])
        args = [c] + base
        k = min(k, len(args))
        fill = rnd.choice([b"9" * n, b"A" * n, b"\0" * n, (args[k].encode() if k < len(args) and isinstance(args[k], str) else b"k")[:n].ljust(n, rnd.choice([b"\0", b" ", b"0", b"x"]))])
        args = args[:k] + [fill] + args[k + 1:]
        if rnd.random() < .3: args = args[:k + 1]
        d = b"*%d\r\n" % len(args)
        for a in args:
            a = a.encode() if isinstance(a, str) else a
            d += b"$%d\r\n" % len(a) + a + tail
        p.append(("raw", len(p), (enc("SELECT", "c", "pw") if rnd.random() < .2 else b"") + (enc("AUTH", "CHALLENGE") if rnd.random() < .2 else b"") + d))
        h.last.append("%s argument %d of %d bytes, terminator %r" % (c, k, n, tail)); h.last = h.last[-16:]
        ctx.ev.hit("evaluations"); ctx.ev.hit("lengths")
        if len(p) == 8 or z == len(todo) - 1: out = play(h, g, p); h.check(h.last[-1]); p = []
    ctx.distinct.add("lengths/%s" % sp["variant"])
    h.s.stop("STOP")

def run_vanish(ctx):
    """connections which disappear at any moment: pending replies, half requests, waiting, mirroring"""
    sp, rnd = ctx.spec, ctx.rnd
    with socket.socket() as q: q.bind(("127.0.0.1", 0)); port = q.getsockname()[1]
    g = Gen(rnd); h = Host(ctx, ["--dualnet", "--listen", "127.0.0.1", "--port", str(port)], sp["variant"]); setup(h, g, False)
    for i in range(4): h.ctrl.cmd("SET", b"big%d" % i, g.blob(400000))
    for rd in range(sp["rounds"]):
        cs = []
        for _ in range(rnd.randint(2, 10)):
            tcp = rnd.random() < .5
            c = Client(("127.0.0.1", port) if tcp else h.s.sockpath, timeout=60); c.tcp = tcp
            x = rnd.randrange(9)
            d = {0: b"".join(enc("GET", b"big%d" % rnd.randrange(4)) for _ in range(12)), 1: enc("MIRROR"), 2: enc("WAIT", "*", "100"), 3: enc("SET", b"half", b"x" * 9000)[:rnd.randrange(9000)], 4: b"", 5: enc("SELECT", "a") + enc("WAIT", "SET", "1800000"),
                 6: enc("MASTER") + enc("GET", b"big1", b"7") * 3, 7: enc("WAIT", "SET", "200") + b"".join(enc("GET", b"big%d" % rnd.randrange(4)) for _ in range(5)), 8: enc("MIRROR") + enc("GET", b"big1") * 20}[x]
            send(c, d); cs.append(c)
        for i in range(rnd.randint(1, 12)):
            w = rnd.random()
            if w < .4: h.ctrl.cmd("SET", b"w%d" % rnd.randrange(5), g.blob(rnd.choice([10, 10000, 100000])))
            elif w < .5: h.ctrl.cmd("NSDEL", "a"); h.ctrl.cmd("NSNEW", "a")
            elif w < .6: h.ctrl.cmd("PING")
            elif cs:
                c = cs.pop(rnd.randrange(len(cs)))
                if rnd.random() < .3: drain(c)
                if c.tcp and rnd.random() < .5: c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                if rnd.random() < .3:
                    try: c.s.shutdown(rnd.choice([socket.SHUT_RD, socket.SHUT_WR, socket.SHUT_RDWR]))
                    except OSError: pass
                if rnd.random() < .3: send(c, enc("GET", b"big0"))
                c.close(); ctx.ev.hit("vanished")
        if rnd.random() < .2: time.sleep(.25)
        for c in cs: c.close(); ctx.ev.hit("vanished")
        h.last.append("round %d" % rd); h.check("vanishing connections")
        ctx.ev.hit("evaluations")
        ctx.distinct.add("vanish/%s" % sp["variant"])
    h.s.stop(rnd.choice(["STOP", "SIGTERM"]))

def run_many(ctx):
    """many connections at once, more than the client list's first size"""
    sp, rnd = ctx.spec, ctx.rnd
    g = Gen(rnd); h = Host(ctx, [], sp["variant"]); setup(h, g, False)
    cs = []
    for n in range(sp["n"]):
        c = Client(h.s.sockpath, timeout=60); cs.append(c)
        if rnd.random() < .5 and c.cmd("PING") != "PONG": raise Violation("many", "PING among %d clients not answered properly" % n)
        if rnd.random() < .2: c.send("WAIT", "SET", "1800000")
        elif rnd.random() < .05: c.cmd("MIRROR")
        if rnd.random() < .1: cs.pop(rnd.randrange(len(cs))).close()
        ctx.ev.hit("evaluations")
    h.ctrl.cmd("SET", b"x", b"y"); h.check("%d connections" % sp["n"])
    rnd.shuffle(cs)
    for c in cs[:sp["n"] // 2]: c.close()
    h.check("closing"); ctx.ev.hit("many", len(cs))
    ctx.distinct.add("many")
    h.s.stop("STOP")
    for c in cs: c.close()

def run_extremes(ctx):
    """everything as large as accepted, at once: keys, payloads, timestamps, names, amounts of arguments, namespaces, files and versions; answers are verified"""
    sp, rnd = ctx.spec, ctx.rnd
    h = Host(ctx, ["--admin", "p" * 127] if rnd.random() < .5 else [], sp["variant"]); c = h.ctrl
    if h.args: c.cmd("AUTH", h.args[1])
    def must(r, want, what):
        if r != want: raise Violation("extreme-reply", "%s answered %s, expected %s" % (what, short(r), short(want)))
    for rd in range(sp["rounds"]):
        names = [(b"%d-" % rd + bytes([97 + i]) * 200)[:rnd.choice([126, 127])] for i in range(3)]
        for n in names:
            must(c.cmd("NSNEW", n), "OK", "NSNEW of a name of %d bytes" % len(n))
            must(c.cmd("NSSET", n, "password", "w" * 63), "OK", "NSSET password"); must(c.cmd("NSSET", n, "maxsize", 1 << 62), "OK", "NSSET maxsize")
        must(c.cmd("NSSET", names[1], "mode", "seq"), "OK", "NSSET mode")
        l = c.cmd("NSLIST")
        if not set(names) <= set(l): raise Violation("extreme-reply", "NSLIST does not contain the namespaces with the longest names")
        mir = h.s.client(timeout=60)
        if h.args: mir.cmd("AUTH", h.args[1])
        mir.cmd("MIRROR")
        for n in names[:2]:
            nm = 0
            must(c.cmd("SELECT", n, "w" * 63), "OK", "SELECT"); h.last.append("extremes of %s" % short(n)); seq = n == names[1]
            size = rnd.choice([0, 9, 10, 99999, 100000, 1 << 20]); full = [rnd.randbytes(255) for _ in range(rnd.choice([1, 2, 33, 40]))]
            if size < 1000 and rnd.random() < .5: full += [rnd.randbytes(255) for _ in range(300)]
            vals, keys = {}, []
            for k in full:
                v = rnd.randbytes(size) if size < 1000 else bytes([rnd.randrange(256)]) * size
                r = c.cmd("SET", b"" if seq else k, v, b"4294967295"); nm += 1
                if not seq: must(r, k, "SET of a key of 255 bytes")
                keys.append(r); vals[r] = v
                if rnd.random() < .1: must(c.cmd("NSJUMP"), "OK", "NSJUMP")
            k = keys[rnd.randrange(len(keys))]
            for j in range(rnd.choice([1, 40 if size < 100000 else 6])):
                vals[k] = struct.pack("<H", j) + rnd.randbytes(min(size, 65536)) * (size // 65536 + 1 if size > 65536 else 1) + b"+"; must(c.cmd("SET", k, vals[k], b"4294967295"), k, "SET"); nm += 1
            if size == 1 << 20:
                # the largest payload
                vals[k] = bytes([rnd.randrange(1, 256)]) * (8 << 20); must(c.cmd("SET", k, vals[k], b"4294967295"), k, "SET of 8 MB"); nm += 1
                try: r = c.cmd("SET", k, vals[k] + b"x")
                except Closed: r = Err("closed")
                if not isinstance(r, Err): raise Violation("extreme-reply", "a payload of more than 8 MB is answered %s" % short(r))
                c = h.ctrl = h.s.client(timeout=60)
                if h.args: c.cmd("AUTH", h.args[1])
                must(c.cmd("SELECT", n, "w" * 63), "OK", "SELECT")
            for cmd in ("SCAN", "RSCAN"):
                got, r = [], c.cmd(cmd)
                while isinstance(r, list): got += r[1]; r = c.cmd(cmd, r[0])
                want = keys if seq else [x for x in keys if x != k] + [k]
                if cmd == "RSCAN": want = want[::-1]
                must([x[0] for x in got], want, cmd)
                for x in got: must(x[1:], [len(vals[x[0]]), 4294967295], cmd + " item")
            ask = (keys * 1100)[:1023]
            if size < 1000:
                must(c.cmd("MGET", *ask), [vals[x] for x in ask], "MGET of %d keys" % len(ask))
                b = h.s.client(timeout=60)
                try: r = b.cmd("MGET", *ask, b"x", b"y")
                except Closed: r = Err("closed")
                b.close(); must(isinstance(r, Err), True, "a request of 1026 arguments refused")
            r = c.cmd("HISTORY", k)
            if not isinstance(r, list) or r[2] != vals[k]: raise Violation("extreme-reply", "HISTORY answered %s" % short(r))
            while isinstance(r, list) and r[0] is not None: r = c.cmd("HISTORY", k, r[0])
            for q, want in (("LENGTH", len(vals[k])), ("KEYTIME", 4294967295), ("EXISTS", 1), ("CHECK", 1)): must(c.cmd(q, k), want, q)
            i = c.cmd("NSINFO", n)
            if b"name: " + n + b"\n" not in i or b"entries: %d\n" % len(keys) not in i: raise Violation("extreme-reply", "NSINFO answered %s" % short(i))
            c.cmd("INFO"); c.cmd("INDEX", "DIRTY"); c.cmd("INDEX", "DIRTY", "RESET"); c.cmd("KSCAN", k[:3]); c.cmd("KEYCUR", k); c.cmd("DATA", "RAW", "0", "26")
            got = []
            for _ in range(100000):
                try: x = mir.recv()
                except (Closed, Timeout): break
                if isinstance(x, list) and x[3:4] == [b"SET"]: got.append(x)
                if len(got) >= nm: break
            must(len(got), nm, "amount of SET received by the mirror")
            ctx.ev.hit("extreme_replies", len(keys)); ctx.ev.hit("evaluations", len(keys)); ctx.distinct.add("extreme/%d/%d/%s/%s" % (size, min(len(keys), 300), seq, sp["variant"])); h.check("extremes")
        mir.close()
        if rnd.random() < .4:
            # many files and many namespaces
            must(c.cmd("SELECT", names[2], "w" * 63), "OK", "SELECT")
            for i in range(rnd.choice([9, 70, 200])): c.cmd("SET", b"f%d" % i, b"v"); must(c.cmd("NSJUMP"), "OK", "NSJUMP")
            r = c.cmd("INDEX", "DIRTY"); c.cmd("NSINFO", names[2]); must(c.cmd("GET", b"f0"), b"v", "GET of the first file")
            many = [b"m%d-" % i + b"y" * 120 for i in range(rnd.choice([5, 15] if sp["variant"] == "msan" else [20, 80]))]
            for x in many: must(c.cmd("NSNEW", x), "OK", "NSNEW")
            l = c.cmd("NSLIST")
            if not set(many) <= set(l): raise Violation("extreme-reply", "NSLIST of %d namespaces misses some" % len(l))
            for x in many: must(c.cmd("NSDEL", x), "OK", "NSDEL")
            h.check("many files and namespaces")
        c.cmd("SELECT", "default")
        if rnd.random() < .5:
            c.close(); h.ctrl.close() if h.ctrl is not c else None
            h.s.stop("STOP" if not h.args else "SIGTERM"); h.start(); c = h.ctrl; ctx.ev.hit("restarts")
            if h.args: c.cmd("AUTH", h.args[1])
        for n in names: must(c.cmd("NSDEL", n), "OK", "NSDEL")
    h.s.stop("SIGTERM")

def run_case(ctx):
    {"fuzz": run_fuzz, "lengths": run_lengths, "vanish": run_vanish, "many": run_many, "extremes": run_extremes}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("programs", 4000), ("programs_with_new_edges", 50), ("lengths", 8000), ("vanished", 300), ("many", 300), ("extreme_replies", 20)) if ev.get(k, 0) < n]
