"""C16: WAIT."""
import select, socket, struct, time
from vz import gen
from vz.model import Violation, short
from vz.resp import Client, Closed, Err, Status, Timeout, enc, MORE

PROP, LEVEL = "C16", "exploration"
TECHNIQUE = ("runtime monitoring: many real clients waiting, triggering, timing out, leaving and losing their namespace under a per-waiter online monitor "
             "(set of owed notifications decided after every trigger, client-side clocks for timeouts), ASan+UBSan")
NOTE = "after every executed command each waiter must hold exactly the notification the model owes it; timeouts are judged with client clocks (never early), lateness with a generous margin"
VARIANTS = ("asan", "release")
RULE = "one distinct = (triggering command, outcome, waited command or *, waiters of other commands/namespaces present, transport)"
LATE = 6.0      # seconds a timeout may come late (tick is 200 ms)

def cases(tier, seed):
    out = []
    q = tier == "quick"
    for i in range(24 if q else 200): out.append({"kind": "steps", "i": i, "seed": seed * 1000 + i, "ops": 500 if q else 2500})
    for i in range(8 if q else 60): out.append({"kind": "timeouts", "i": i, "seed": seed * 1000 + 300 + i, "n": 40 if q else 80})
    for i in range(6 if q else 40): out.append({"kind": "burst", "i": i, "seed": seed * 1000 + 400 + i, "rounds": 60 if q else 400})
    for i in range(4 if q else 24): out.append({"kind": "clogged", "i": i, "seed": seed * 1000 + 500 + i, "rounds": 3 if q else 10})
    for i in range(6 if q else 40): out.append({"kind": "detached", "i": i, "seed": seed * 1000 + 600 + i, "rounds": 12 if q else 60})
    return out

BARRIER = ("XYZZY",)

class W:
    """a waiter"""
    def __init__(self, c, ns, cmd, t0, ms):
        self.c, self.ns, self.cmd, self.t0, self.ms = c, ns, cmd, t0, ms
        self.t1 = time.monotonic()
        self.maybe = set()      # optional notifications which may still be on their way (TCP)
    def due(self): return self.t0 + self.ms / 1000.0

class Room:
    """clients, waiters and their owed notifications"""
    def __init__(self, ctx, variant="asan", nss=("default", "a", "b"), tcp=False):
        self.ctx, self.rnd, self.ev = ctx, ctx.rnd, ctx.ev
        args = []
        self.port = None
        if tcp:
            with socket.socket() as q: q.bind(("127.0.0.1", 0)); self.port = q.getsockname()[1]
            args = ["--dualnet", "--listen", "127.0.0.1", "--port", str(self.port)]
        # small pieces, as the system likes
        narrow = (self.rnd.choice([0, 1]), self.rnd.choice([8, 300])) if self.rnd.random() < .3 else None
        self.s = ctx.server(variant, args=args, narrow=narrow).start()
        self.w = []           # waiting
        self.free = {}        # ns -> idle clients
        self.variant = variant
        self.adm = self.client()
        self.ns = list(nss)
        for n in nss[1:]: self.ok(self.adm, "NSNEW", n)
        self.uniq = 0
    def client(self, ns=None, tcp=None, settle=True):
        if self.port and (tcp or tcp is None and self.rnd.random() < .5):
            c = Client(("127.0.0.1", self.port), timeout=60); self.s.clients.append(c); c.tcp = True
        else: c = self.s.client(); c.tcp = False
        if ns and ns != "default":
            # SELECT counts as executed in either namespace, or in none
            m = self.match("SELECT", c, "default", ns) if self.w and settle else []
            self.ok(c, "SELECT", ns)
            if self.w and settle: self.barrier(c); self.settle("SELECT", m, False, "SELECT %s" % ns)
        c.ns = ns or "default"
        return c
    def ok(self, c, *a):
        r = c.cmd(*a)
        if isinstance(r, Err): raise Violation("setup", "%s answered %s" % (short(a), r))
        return r
    def barrier(self, c):
        r = c.cmd(*BARRIER)
        if r != Err("Command not supported"): raise Violation("barrier", "an unknown command answered %s" % short(r))
    # -- waiting
    def wait(self, c, cmd, ms=None):
        """c waits; the unknown command in the same packet tells when the server saw both"""
        a = ["WAIT", cmd] if ms is None else ["WAIT", cmd, str(ms)]
        t0 = time.monotonic()
        c.raw(enc(*a) + enc(*BARRIER))
        r = c.recv()
        if r != Err("Command not supported"): raise Violation("wait-reply", "%s answered %s at once" % (short(a), short(r)))
        w = W(c, c.ns, cmd.upper(), t0, 5000 if ms is None else ms)
        others = self.match("WAIT", c, c.ns)
        self.w.append(w)
        self.ev.hit("waits")
        self.settle("WAIT", others, True, "WAIT")
        return w
    def match(self, cmd, by, *nss):
        return [w for w in self.w if w.c is not by and w.ns in nss and (w.cmd == cmd or w.cmd == "*")]
    def got(self, w):
        """the notification a waiter holds, or None"""
        c = w.c
        v = c.p.get()
        if v is not MORE: return v
        r, _, _ = select.select([c.s], [], [], 0)
        if not r: return None
        return c.recv(5)
    def settle(self, cmd, matching, must, what, names=None):
        """after a command was executed: who was notified"""
        now = time.monotonic()
        names = names or {cmd}
        for w in list(self.w):
            v = self.got(w)
            m = w in matching
            if v is None and m and must:
                # the bytes are written before the trigger's next reply; leave TCP a moment
                r, _, _ = select.select([w.c.s], [], [], 2.0 if w.c.tcp else .2)
                v = self.got(w)
            now = time.monotonic()
            if v is None:
                if m and not must and w.c.tcp: w.maybe |= names
                if m and must: raise Violation("not-woken", "%s executed in %s, the client waiting for %s there was not notified" % (what, w.ns, w.cmd))
                if now > w.t1 + w.ms / 1000.0 + LATE: raise Violation("late-timeout", "WAIT %s %d ms: no timeout after %.1f s" % (w.cmd, w.ms, now - w.t1))
                continue
            if isinstance(v, Err) and v == "Timeout":
                if now < w.due(): raise Violation("early-timeout", "WAIT %s %d ms: timeout after %.0f ms at most" % (w.cmd, w.ms, (now - w.t0) * 1000))
                self.ev.hit("timeouts_seen")
            elif isinstance(v, Status) and (v in names and m or v in w.maybe): self.ev.hit("wakes")
            elif isinstance(v, Status) and v in names: raise Violation("wrong-wake", "%s executed elsewhere or as own command woke the client waiting for %s in %s (%s)" % (what, w.cmd, w.ns, short(v)))
            else: raise Violation("wrong-notification", "client waiting for %s in %s got %s after %s" % (w.cmd, w.ns, short(v), what))
            self.end(w)
    def end(self, w):
        self.w.remove(w)
        c = w.c
        extra = None
        if c.p.buf: extra = c.p.get()
        if extra is not None and extra is not MORE: raise Violation("twice", "client waiting for %s got a second notification %s" % (w.cmd, short(extra)))
        self.free.setdefault(w.ns, []).append(c)
    def idle_silent(self, delay=0):
        for l in self.free.values():
            for c in l:
                if not c.quiet(delay): raise Violation("unsolicited", "a client which does not wait received %s" % short(c.recv(5)))
        self.ev.hit("idle_checks")
    def usable(self, c):
        self.uniq += 1
        k, v = b"u%d" % self.uniq, b"v%d" % self.uniq
        others = self.match("EXISTS", c, c.ns)
        r = c.cmd("EXISTS", k)
        if r != 0: raise Violation("unusable", "EXISTS after a WAIT answered %s" % short(r))
        self.barrier(c); self.settle("EXISTS", others, True, "EXISTS")
    def idle(self, ns):
        l = self.free.setdefault(ns, [])
        return l.pop(self.rnd.randrange(len(l))) if l else self.client(ns)

def commands(room, ns):
    """commands which succeed, and some which fail (None: either way)"""
    rnd = room.rnd
    room.uniq += 1
    u = b"k%d" % room.uniq
    yes = [("SET", u, b"x"), ("SETX", u, b"x"), ("GET", b"base"), ("MGET", b"base", b"nope"), ("EXISTS", b"base"), ("CHECK", b"base"), ("SCAN",), ("SCANX",), ("RSCAN",),
           ("HISTORY", b"base"), ("KEYCUR", b"base"), ("LENGTH", b"base"), ("KEYTIME", b"base"), ("PING",), ("TIME",), ("INFO",), ("DBSIZE",), ("NSLIST",), ("NSINFO", ns),
           ("NSNEW", "n%d" % room.uniq), ("NSJUMP",), ("RELOAD", ns), ("INDEX", "DIRTY"), ("DATA", "RAW", "0", "26"), ("HOOKS",), ("NSSET", "a", "maxsize", "0"), ("SET", b"base", b"same")]
    if room.variant != "release": yes.append(("KSCAN", b"ba"))
    no = [("GET", b"none"), ("DEL", b"none"), ("NSDEL", "none"), ("SET",), ("SET", b"k" * 300, b"v"), ("SCAN", b"bad"), ("NSINFO", "none"), ("WAIT",), ("WAIT", "NOPE"), ("WAIT", "SET", "1"),
          ("WAIT", "SET", "1800001"), ("LENGTH", b"none"), ("CHECK", b"none"), ("HISTORY", b"none"), ("AUTH", "x"), ("SELECT", "none"), ("FLUSH",), ("NSNEW", "a"), ("MGET",), ("*",), ("*", "x")]
    return yes, no

WATCH = ["SET", "SETX", "GET", "DEL", "PING", "*", "NSINFO", "NSNEW", "SCAN", "SCANX", "RSCAN", "MGET", "WAIT", "SELECT", "HISTORY", "EXISTS", "TIME", "LENGTH", "KEYTIME", "KEYCUR",
         "NSJUMP", "RELOAD", "INFO", "DBSIZE", "NSLIST", "CHECK", "INDEX", "DATA", "HOOKS", "NSSET", "FLUSH", "NSDEL", "AUTH", "STOP", "MIRROR", "MASTER", "KSCAN"]

def case_of(rnd, s): return rnd.choice([s, s.lower(), "".join(rnd.choice([x.lower(), x]) for x in s)])

def run_steps(ctx):
    rnd = ctx.rnd
    room = Room(ctx, rnd.choice(["asan", "asan", "release"]), tcp=rnd.random() < .4)
    trig = {}
    def trigger_client(ns):
        l = trig.setdefault(ns, [])
        if len(l) < 2: l.append(room.client(ns))
        return rnd.choice(l)
    for n in room.ns: room.ok(trigger_client(n), "SET", b"base", b"same")
    for n in range(ctx.spec["ops"]):
        x = rnd.random()
        if x < .35 and len(room.w) < 14:
            ns = rnd.choice(room.ns)
            c = room.idle(ns)
            cmd = rnd.choice(WATCH[:8] if rnd.random() < .7 else WATCH)
            ms = rnd.choice([None, 100, 300, 2000, 60000, 1800000, 30000, 30000, 30000])
            room.wait(c, case_of(rnd, cmd), ms)
        elif x < .75:
            ns = rnd.choice(room.ns); c = trigger_client(ns)
            yes, no = commands(room, ns)
            # mostly something somebody waits for
            pool = yes if rnd.random() < .8 else no
            want = [w.cmd for w in room.w if w.ns == ns]
            l = [k for k in pool if k[0] in want]
            a = rnd.choice(l) if l and rnd.random() < .7 else rnd.choice(pool)
            name = a[0].upper(); a = (case_of(rnd, a[0]),) + a[1:]
            m = room.match(name, c, ns)
            r = c.cmd(*a); room.barrier(c)
            room.settle(name, m, not isinstance(r, Err), "%s" % (short(a),))
            ctx.ev.hit("triggers"); ctx.ev.hit("evaluations")
            ctx.distinct.add("%s/%s/%d/%d/%d/%d" % (name, isinstance(r, Err), min(2, len([w for w in m if w.cmd != "*"])), min(2, len([w for w in m if w.cmd == "*"])), bool([w for w in room.w if w.ns == ns and w not in m]), bool([w for w in room.w if w.ns != ns])))
        elif x < .80:      # namespace changes of another client
            a, b = rnd.sample(room.ns, 2)
            c = room.client(a)
            m = room.match("SELECT", c, a, b)
            r = c.cmd("SELECT", b); room.barrier(c); room.settle("SELECT", m, False, "SELECT %s from %s" % (b, a))
            c.ns = b
            if rnd.random() < .5:
                m = room.match("GET", c, b); r = c.cmd("GET", b"base"); room.barrier(c); room.settle("GET", m, True, "GET after SELECT")
            c.close(); ctx.ev.hit("selects")
        elif x < .86 and room.w:     # the waiter's own commands do not wake it
            w = rnd.choice(room.w)
            if not w.maybe and w.cmd in ("PING", "GET", "SET", "TIME", "*", "EXISTS", "DBSIZE"):
                a = {"PING": ("PING",), "GET": ("GET", b"base"), "SET": ("SET", b"own", b"x"), "TIME": ("TIME",), "*": ("PING",), "EXISTS": ("EXISTS", b"base"), "DBSIZE": ("DBSIZE",)}[w.cmd]
                if time.monotonic() + 1 < w.due():
                    m = room.match(a[0], w.c, w.ns)
                    t = time.monotonic()
                    v = w.c.cmd(*a)
                    if isinstance(v, Err) and v == "Timeout" or isinstance(v, Status) and v == w.cmd and a[0] != "PING":
                        if time.monotonic() < w.due(): raise Violation("own-wake", "the waiter's own %s answered %s" % (a[0], short(v)))
                    room.barrier(w.c) if time.monotonic() + 1 < w.due() else None
                    room.settle(a[0], m, True, "own %s of a waiter" % a[0]); ctx.ev.hit("own_commands")
        elif x < .92 and room.w:     # leaves without a word
            w = rnd.choice(room.w)
            if w.c.tcp and rnd.random() < .5: w.c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            w.c.close(); room.w.remove(w); ctx.ev.hit("waiters_gone")
            if rnd.random() < .7: room.free.setdefault("default", []).append(room.client("default"))     # the descriptor is used again
        elif x < .96:
            l = [c for v in room.free.values() for c in v]
            if l: room.usable(rnd.choice(l)); ctx.ev.hit("usable_after")
        else: room.idle_silent(); room.settle(None, [], False, "nothing")
    room.idle_silent(.02)
    for l in room.free.values():
        for c in l: room.usable(c)
    ctx.sample = {"wakes": ctx.ev.get("wakes"), "triggers": ctx.ev.get("triggers"), "variant": room.variant}
    room.s.stop("SIGTERM")

def run_timeouts(ctx):
    """many waiters with many delays, idle and busy servers"""
    rnd = ctx.rnd
    room = Room(ctx, rnd.choice(["asan", "release"]), nss=("default", "a"), tcp=rnd.random() < .4)
    busy = room.client("a")
    for n in range(ctx.spec["n"]):
        room.wait(room.client("default"), rnd.choice(["SET", "FLUSH", "GET", "STOP"]), rnd.choice([100, 101, 150, 200, 250, 399, 400, 700, 999, 1000, 1001, 1500, 2300, None if n == 0 else 100]))
    mode = ctx.spec["i"] % 3
    end = time.monotonic() + 5 + 2 * LATE
    while room.w:
        if mode == 1:
            for _ in range(30): busy.cmd("PING")      # busy: housekeeping happens every so many events
        elif mode == 2:
            busy.cmd("SET", b"k", gen.payload(rnd, 1, 2000, 5000)); time.sleep(rnd.random() * .05)     # never idle for a whole tick
        else: select.select([w.c.s for w in room.w], [], [], .5)
        now = time.monotonic()
        room.settle(None, [], False, "nothing")
        if now > end: raise Violation("late-timeout", "%d waiters had no timeout in time" % len(room.w))
    for l in room.free.values():
        for c in l: room.usable(c)
    room.idle_silent(.05)
    ctx.ev.hit("evaluations", ctx.spec["n"])
    ctx.distinct.add("timeouts/%d/%s" % (mode, room.variant))
    room.s.stop("SIGTERM")

def run_burst(ctx):
    """pipelines from several clients at once: exactly one notification, the first matching of somebody"""
    rnd = ctx.rnd
    room = Room(ctx, rnd.choice(["asan", "release"]), tcp=rnd.random() < .5)
    T = [(n, room.client(n)) for n in room.ns for _ in range(2)]
    for n, c in T[::2]: room.ok(c, "SET", b"base", b"same")
    pool = [("SET", b"base", b"same"), ("GET", b"base"), ("PING",), ("EXISTS", b"base"), ("DBSIZE",), ("LENGTH", b"base"), ("MGET", b"base")]
    for rd in range(ctx.spec["rounds"]):
        while len(room.w) < 10:
            ns = rnd.choice(room.ns)
            room.wait(room.idle(ns), rnd.choice(["SET", "GET", "PING", "EXISTS", "*", "*", "DBSIZE", "LENGTH", "DEL"]), 1800000)
        act = rnd.sample(T, rnd.randint(1, len(T)))
        seqs = {}
        for ns, c in act:
            seqs[c] = [rnd.choice(pool) for _ in range(rnd.choice([1, 2, 5, 40]))]
        parts = [(c, b"".join(enc(*a) for a in s)) for c, s in seqs.items()]
        if rnd.random() < .5:
            # cut the pipelines and mix them
            cut = []
            for c, d in parts:
                j = rnd.randrange(len(d) + 1); cut.append((c, d[:j])); cut.append((c, d[j:]))
            first = cut[::2]; rest = cut[1::2]; rnd.shuffle(rest); parts = first + rest
        for c, d in parts:
            if d: c.raw(d)
        for ns, c in act:
            for a in seqs[c]:
                r = c.recv()
                if isinstance(r, Err): raise Violation("burst", "%s answered %s" % (short(a), r))
        for ns, c in act: room.barrier(c)
        single = len(act) == 1
        for w in list(room.w):
            names = []
            for ns, c in act:
                if ns != w.ns: continue
                l = [a[0] for a in seqs[c] if w.cmd in (a[0], "*")]
                if l: names.append(l[0])
            v = room.got(w)
            if v is None and names and w.c.tcp: select.select([w.c.s], [], [], 2.0); v = room.got(w)
            if names and v is None: raise Violation("not-woken", "client waiting for %s in %s was not notified by a burst with %s" % (w.cmd, w.ns, names))
            if not names and v is not None: raise Violation("wrong-wake", "client waiting for %s in %s got %s, nothing matching was executed" % (w.cmd, w.ns, short(v)))
            if v is None: continue
            # the first matching command overall is the first matching of one of the connections
            if not isinstance(v, Status) or v not in names: raise Violation("wrong-notification", "client waiting for %s got %s, first matching commands were %s" % (w.cmd, short(v), names))
            ctx.ev.hit("wakes"); room.end(w); ctx.ev.hit("burst_wakes")
        ctx.ev.hit("evaluations"); ctx.distinct.add("burst/%d/%d" % (len(act), max(len(s) for s in seqs.values())))
        if rd % 7 == 0: room.idle_silent(.01)
    room.idle_silent(.05)
    room.s.stop("SIGTERM")

def run_clogged(ctx):
    """waiters which do not read: the notification comes once, after all their replies"""
    rnd = ctx.rnd
    room = Room(ctx, rnd.choice(["asan", "release"]), tcp=rnd.random() < .5)
    t = room.client("default")
    vals = {}
    for i in range(6):
        vals[b"big%d" % i] = gen.payload(rnd, i, 300000, 900000); room.ok(t, "SET", b"big%d" % i, vals[b"big%d" % i])
    for rd in range(ctx.spec["rounds"]):
        ws = []
        for _ in range(6):
            c = room.client("default")
            ks = [rnd.choice(list(vals)) for _ in range(rnd.choice([1, 5, 20]))]
            cmd = rnd.choice(["SET", "*", "DEL"]); ms = rnd.choice([1800000, 1800000, 200])
            t0 = time.monotonic()
            c.s.sendall(b"".join(enc("GET", k) for k in ks) + enc("WAIT", cmd, str(ms)))
            ws.append((c, ks, cmd, ms, t0))
        time.sleep(.1); t.cmd(*BARRIER); t.cmd(*BARRIER)
        gone = rnd.choice(ws) if rnd.random() < .5 else None
        if gone: gone[0].close(); ws.remove(gone); ctx.ev.hit("clogged_gone")
        if rnd.random() < .5: time.sleep(.5)
        n = rnd.choice([1, 3])
        for i in range(n): room.ok(t, "SET", b"n%d" % i, b"%d" % rd)
        room.ok(t, "DEL", b"n0")
        for c, ks, cmd, ms, t0 in ws:
            for k in ks:
                r = c.recv(60)
                if r != vals[k]: raise Violation("clogged-data", "a slow waiter received %s in place of the value of %s" % (short(r), k))
            v = c.recv(60)
            now = time.monotonic()
            if isinstance(v, Err) and v == "Timeout" and ms == 200 and now >= t0 + .2: pass
            elif not isinstance(v, Status): raise Violation("wrong-notification", "a slow client waiting for %s got %s" % (cmd, short(v)))
            elif v != ({"SET": "SET", "DEL": "DEL"}.get(cmd, v)) or v not in ("SET", "DEL", "GET", "WAIT"): raise Violation("wrong-notification", "a slow client waiting for %s got %s" % (cmd, short(v)))
            if not c.quiet(.02): raise Violation("twice", "a slow waiter received more than one notification: %s" % short(c.recv(5)))
            r = c.cmd("GET", ks[0])
            if r != vals[ks[0]]: raise Violation("unusable", "a slow waiter is not usable afterwards: %s" % short(r))
            ctx.ev.hit("clogged_ok"); ctx.ev.hit("evaluations"); ctx.distinct.add("clogged/%d/%s/%d" % (len(ks), cmd, ms))
            c.close()
    room.s.stop("SIGTERM")

def run_detached(ctx):
    """the namespace of waiters is removed (and made again)"""
    rnd = ctx.rnd
    room = Room(ctx, rnd.choice(["asan", "asan", "release"]), nss=("default", "a", "b"), tcp=rnd.random() < .3)
    adm = room.adm
    for rd in range(ctx.spec["rounds"]):
        name = "v%d" % rnd.randrange(3)
        room.ok(adm, "NSNEW", name)
        room.ok(adm, "NSNEW", "w")
        ws = []
        for _ in range(rnd.randint(2, 5)):
            c = room.client(name); cmd = rnd.choice(["SET", "GET", "*", "PING"])
            # the waiters' own WAIT and SELECT may wake the others: wait in an order which does not
            ws.append((c, cmd))
        ws.sort(key=lambda x: x[1] == "*")
        loud = []
        for _ in range(3):      # attached clients which do not wait, with a last executed command of each sort
            c = room.client(name); last = rnd.choice([("SET", b"k", b"v"), ("PING",), ("GET", b"k"), ("EXISTS", b"k")])
            if rnd.random() < .7: c.cmd(*last)
            loud.append(c)
        live = []
        for c, cmd in ws:
            ms = rnd.choice([100, 400, 60000, 1800000, 1800000])
            t0 = time.monotonic(); c.raw(enc("WAIT", cmd, str(ms)) + enc(*BARRIER))
            r = c.recv()
            if r != Err("Command not supported"): raise Violation("wait-reply", "WAIT answered %s at once" % short(r))
            w = W(c, name, cmd, t0, ms)
            m = room.match("WAIT", c, name); room.w.append(w); room.settle("WAIT", m, True, "WAIT")
        # an outsider waits too
        out = room.wait(room.idle("w"), "*", 1800000)
        live = [w for w in room.w if w is not out]
        r = room.ok(adm, "NSDEL", name); room.barrier(adm)
        ctx.ev.hit("removed_namespaces")
        again = rnd.random() < .7
        def judge(what):
            """detached waiters may time out (never early) or be told; nothing can wake them any more"""
            for w in list(live):
                try: v = room.got(w)
                except Closed: live.remove(w); room.w.remove(w); ctx.ev.hit("detached_closed"); continue
                if v is None: continue
                if isinstance(v, Status): raise Violation("detached-wake", "a client waiting for %s in a removed namespace was woken by %s (%s)" % (w.cmd, what, short(v)))
                if v == "Timeout" and time.monotonic() < w.due(): raise Violation("early-timeout", "WAIT %s %d ms: timeout after %.0f ms at most" % (w.cmd, w.ms, (time.monotonic() - w.t0) * 1000))
                live.remove(w); room.w.remove(w); ctx.ev.hit("detached_told"); room.free.setdefault("gone", []).append(w.c)
        judge("NSDEL")
        if again:
            room.ok(adm, "NSNEW", name); t = room.client(name, settle=False)
            for a in (("SET", b"k", b"v"), ("GET", b"k"), ("PING",)): room.ok(t, *a); room.barrier(t); judge("%s in the new namespace of that name" % a[0])
            ctx.ev.hit("recreated")
        for c in loud:
            a = rnd.choice([("SET", b"k", b"v"), ("PING",), ("GET", b"k")])
            if rnd.random() < .3: c.close(); continue
            c.send(*a)
            try:
                v = c.recv(20)
                if not isinstance(v, Err): raise Violation("detached-command", "a client whose namespace was removed got %s for %s" % (short(v), a[0]))
                if c.eof(10) is None: ctx.ev.hit("detached_kept")
            except Closed: pass
            room.barrier(adm)
            judge("%s of another client of the removed namespace" % a[0])
            ctx.ev.hit("detached_commands")
        if rnd.random() < .6:      # nobody disturbed the others
            t = room.client("w", settle=False); m = room.match("PING", t, "w"); t.cmd("PING"); room.barrier(t)
            room.settle("PING", m, True, "PING") if not live else None
            if live:
                select.select([out.c.s], [], [], 5.0)
                v = room.got(out)
                if v != Status("PING") and v != Status("SELECT"): raise Violation("not-woken", "the waiter of another namespace got %s" % short(v))
                room.w.remove(out)
            t.close()
        for w in live: w.c.close(); room.w.remove(w)
        live.clear()
        for w in list(room.w): w.c.close(); room.w.remove(w)
        for l in room.free.values():
            for c in l: c.close()
        room.free.clear()
        for n in (name, "w"): adm.cmd("NSDEL", n)
        ctx.ev.hit("evaluations"); ctx.distinct.add("detached/%d/%d" % (again, len(ws)))
    room.s.stop("SIGTERM")

def run_case(ctx):
    {"steps": run_steps, "timeouts": run_timeouts, "burst": run_burst, "clogged": run_clogged, "detached": run_detached}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("wakes", 1000), ("timeouts_seen", 100), ("burst_wakes", 200), ("clogged_ok", 20), ("removed_namespaces", 20), ("recreated", 10), ("waiters_gone", 50), ("own_commands", 30)) if ev.get(k, 0) < n]
