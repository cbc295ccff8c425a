"""C17: MIRROR / MASTER streams, DATA RAW walks."""
import os, random, select, socket, struct, time
from vz import files, gen
from vz.model import Violation, now0, now1, short
from vz.resp import Client, Closed, Err, MORE, Parser, Status, Timeout, enc
from vz.work import World

PROP, LEVEL = "C17", "exploration"
TECHNIQUE = ("runtime monitoring: the streams received by mirrors (attached and detached at any time, slow or fast) compared with the recorded history of executed commands, "
             "replayed through MASTER connections on fresh servers and compared datasets; DATA RAW walks compared with the files and replayed; ASan+UBSan")
NOTE = "the oracle is the harness' own record of requests, replies and clocks; two-way replication is pumped between two real servers and must converge without echo"
RULE = "one distinct = (command mirrored, outcome, namespace kind, mirror state) or (DATA RAW entry kind)"
WATCHDOG = 300
MUST = ("SET", "SETX", "DEL", "NSNEW", "NSDEL", "NSSET", "FLUSH", "NSJUMP", "RELOAD")

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(16 if q else 160): out.append({"kind": "history", "i": i, "seed": seed * 1000 + i, "ops": 300 if q else 1500, "mode": [None, "user", "seq"][i % 3], "admin": i % 4 == 1})
    for i in range(10 if q else 100): out.append({"kind": "burst", "i": i, "seed": seed * 1000 + 300 + i, "rounds": 6 if q else 40, "mode": ["user", "seq"][i % 2]})
    for i in range(6 if q else 48): out.append({"kind": "loop", "i": i, "seed": seed * 1000 + 400 + i, "ops": 120 if q else 600})
    for i in range(12 if q else 120): out.append({"kind": "raw", "i": i, "seed": seed * 1000 + 500 + i, "ops": 250 if q else 900, "mode": ["user", "seq"][i % 2]})
    return out

class Rec(Client):
    """a client which records what it makes the server execute"""
    def attach(self, log, ns="default"):
        self.log, self.ns = log, ns; return self
    def cmd(self, *args):
        t0 = now0(); r = super().cmd(*args); t1 = now1()
        a = [x if isinstance(x, bytes) else str(x).encode("latin-1") for x in args]
        c = a[0].decode("latin-1").upper()
        if c == "SELECT" and r == "OK": self.ns = a[1].decode("latin-1")
        if c in MUST: self.log.append((a, self.ns, not isinstance(r, Err) and not (c.startswith("SET") and r is None), t0, t1, r))
        return r

class Mirror:
    def __init__(self, c, log, slow, ns="default"):
        self.c, self.slow, self.ns = c, slow, ns
        self.start = len(log); self.end = None
        self.msgs = []; self.bytes = 0; self.own = set()
    def pump(self):
        """takes what has arrived"""
        while True:
            r, _, _ = select.select([self.c.s], [], [], 0)
            if not r: break
            try: d = self.c.s.recv(1 << 20)
            except ConnectionResetError: d = b""
            if not d: raise Violation("mirror-closed", "the connection of a mirror was closed by the server")
            self.bytes += len(d); self.c.p.feed(d)
            while True:
                v = self.c.p.get()
                if v is MORE: break
                self.msgs.append(v)
    def execute(self, w, log, key, value, limit=60):
        """the connection of a mirror may execute commands too: the other mirrors receive them, itself not"""
        n = w.ns["default"]; a = [b"SETX", key, value]
        self.pump(); seen = len(self.msgs)
        t0 = now0(); self.c.raw(enc(*a)); end = time.monotonic() + limit
        while True:
            self.pump()
            mine = [i for i in range(seen, len(self.msgs)) if not isinstance(self.msgs[i], list)]
            if mine: break
            if time.monotonic() > end: raise Violation("mirror-noreply", "a SET executed by a mirror was not answered")
            select.select([self.c.s], [], [], .05)
        r = self.msgs.pop(mine[0]); t1 = now1()
        if isinstance(r, Err): raise Violation("mirror-set", "a SET executed by a mirror answered %s" % short(r))
        self.own.add(len(log)); log.append((a, self.ns, True, t0, t1, r))
        w.d.set_reply(n, key, value, r, t0, t1)
        return a
    def until(self, what, limit=60):
        end = time.monotonic() + limit
        n = 0
        while True:
            self.pump()
            while n < len(self.msgs):
                if isinstance(self.msgs[n], list) and self.msgs[n][3:] == what: return
                n += 1
            if time.monotonic() > end: raise Violation("mirror-missing", "%s was executed and never reached a mirror" % short(what))
            select.select([self.c.s], [], [], .05)

def decode(m):
    """a mirrored command: (timestamp, namespace, owner, args)"""
    if not (isinstance(m, list) and len(m) >= 4 and isinstance(m[0], int) and isinstance(m[1], bytes) and isinstance(m[2], int) and all(isinstance(x, bytes) for x in m[3:])):
        raise Violation("mirror-shape", "a mirror received %s" % short(m, 200))
    return m[0], m[1].decode("latin-1"), m[2], m[3:]

def check_stream(ctx, mi, log, owner, kind=""):
    """what a mirror received against what was executed while it was attached"""
    want = [log[n] for n in range(mi.start, mi.end) if n not in mi.own]
    i = 0
    for m in mi.msgs:
        ts, ns, own, args = decode(m)
        c = args[0].decode("latin-1").upper()
        ctx.ev.hit("mirrored_messages")
        if c not in MUST: ctx.ev.hit("mirrored_reads"); continue
        while i < len(want) and not want[i][2] and want[i][0] != args: i += 1      # commands which changed nothing may be left out
        if i >= len(want): raise Violation("mirror-extra", "a mirror received %s, nothing more was executed" % short(args, 200))
        a, wns, ok, t0, t1, r = want[i]; i += 1
        if a != args: raise Violation("mirror-order", "message %d of a mirror is %s, the command executed is %s" % (i, short(args, 200), short(a, 200)))
        if ns != wns: raise Violation("mirror-ns", "%s was executed in namespace %s, the mirror was told %s" % (short(a), wns, ns))
        if not (t0 + mi_off(ctx) - 1 <= ts <= t1 + mi_off(ctx) + 1): raise Violation("mirror-time", "%s: timestamp %d, executed in %s" % (short(a), ts, (t0, t1)))
        if own != owner: raise Violation("mirror-owner", "%s: owner %d, %d before" % (short(a), own, owner))
        ctx.ev.hit("mirrored_checked")
        ctx.distinct.add("%s/%d/%s/%s%s" % (c, ok, "default" if ns == "default" else "other", "slow" if mi.slow else "fast", kind))
    while i < len(want):
        if want[i][2]: raise Violation("mirror-missing", "%s was executed and never reached a mirror (%d of %d received)" % (short(want[i][0], 200), i, len(want)))
        i += 1

def mi_off(ctx): return getattr(ctx, "clock", 0)

def owner_of(mi):
    for m in mi.msgs:
        o = decode(m)[2]
        if o == 0: raise Violation("mirror-owner", "a command was mirrored with owner 0")
        return o

def dataset(c, d, name, pw=None):
    """(key -> (value, timestamp)) in scan order"""
    r = c.cmd("SELECT", name, *([pw] if pw else []))
    if r != "OK": raise Violation("replica-select", "SELECT %s answered %s" % (name, short(r)))
    out = {}
    for k, l, t in d.walk(c, "SCAN"):
        v = c.cmd("GET", k)
        t2 = c.cmd("KEYTIME", k)
        out[k] = (v, t)
        if t2 != t: raise Violation("replica-keytime", "KEYTIME %s is %s, SCAN says %s" % (short(k), t2, t))
    return out

def later(ctx, base, **kw):
    """a server whose clock is a day late on the one of the source: times come from the stream only"""
    s = ctx.server("asan", base, shim=True, **kw)
    s.ctl.set(time_off=86400)
    return s.start()

def records(s, n):
    """everything written in the data files of a namespace, in order"""
    st = files.Store(os.path.join(s.data, n), os.path.join(s.index, n)).parse()
    return [e for f in sorted(st.data) for e in st.data[f]]

def same_records(ctx, a, b, n, slack):
    """the data files of a replica hold the same objects and deletions as the ones of its source"""
    ra, rb = records(a, n), records(b, n)
    for i, (x, y) in enumerate(zip(ra, rb)):
        if (x.id, x.deleted, x.payload) != (y.id, y.deleted, y.payload):
            raise Violation("replica-record", "%s: record %d is %s%s at the source, %s%s at the replica" % (n, i, "deletion of " * x.deleted, short(x.id), "deletion of " * y.deleted, short(y.id)))
        if not 0 <= y.ts - x.ts <= slack: raise Violation("replica-record-time", "%s: the %s of %s has time %d at the source, %d at the replica" % (n, "deletion" if x.deleted else "version", short(x.id), x.ts, y.ts))
        ctx.ev.hit("replica_records"); ctx.ev.hit("replica_deletions", x.deleted)
    if len(ra) != len(rb): raise Violation("replica-records", "%s: %d records at the source, %d at the replica" % (n, len(ra), len(rb)))

def replay(ctx, msgs, mode, args):
    """feeds a stream to a fresh server through one MASTER connection"""
    s = later(ctx, ctx.sub("replica"), args=args)
    c = s.client()
    if "--admin" in args: c.cmd("AUTH", "pw")
    if c.cmd("MASTER") != "Hello, master": raise Violation("master", "MASTER not accepted")
    ns, pw = "default", {}
    for m in msgs:
        ts, n, own, a = decode(m)
        cmd = a[0].decode("latin-1").upper()
        if cmd not in MUST: continue
        if n != ns:
            r = c.cmd("SELECT", n, *([pw[n]] if pw.get(n) else []), str(own))
            if r != "OK": raise Violation("master-select", "SELECT %s through MASTER answered %s" % (n, short(r)))
            ns = n
        if cmd.startswith("SET") and len(a) == 3: a = a + [b"%d" % ts]
        if cmd == "DEL" and len(a) == 2: a = a + [b"%d" % ts]
        r = c.cmd(*(a + [b"%d" % own])); ctx.ev.hit("replayed")
        if cmd in ("NSNEW", "NSDEL") and r == "OK":
            pw.pop(a[1].decode("latin-1"), None)
            if cmd == "NSDEL" and a[1].decode("latin-1") == ns: ns = None
        if cmd == "NSSET" and r == "OK" and a[2].lower() == b"password": pw[a[1].decode("latin-1")] = None if a[3] == b"*" else a[3]
    return s

def compare(ctx, w, s, d, names, exact, args):
    adm = s.client()
    if "--admin" in args: adm.cmd("AUTH", "pw")
    l = sorted(x.decode("latin-1") for x in adm.cmd("NSLIST"))
    if l != sorted(names): raise Violation("replica-nslist", "the replica has namespaces %s, the source %s" % (l, sorted(names)))
    src = w.s.client()
    if "--admin" in args: src.cmd("AUTH", "pw")
    for n in names:
        pw = w.ns[n].password if hasattr(w, "ns") else None
        a = dataset(src, d, n, pw); b = dataset(adm, d, n, pw)
        if list(a) != list(b): raise Violation("replica-keys", "%s: the source has %s, the replica %s" % (n, short(list(a)[:20], 200), short(list(b)[:20], 200)))
        for k in a:
            if a[k][0] != b[k][0]: raise Violation("replica-value", "%s %s: the source has %s, the replica %s" % (n, short(k), short(a[k][0]), short(b[k][0])))
            if not 0 <= b[k][1] - a[k][1] <= (0 if exact else 1): raise Violation("replica-time", "%s %s: the source has time %d, the replica %d" % (n, short(k), a[k][1], b[k][1]))
            ctx.ev.hit("replica_keys")
        same_records(ctx, w.s, s, n, 0 if exact else 1)
        ia, ib = d.nsinfo(src, n), d.nsinfo(adm, n)
        for x in ("entries", "data_size_bytes", "public", "worm", "password", "data_limits_bytes", "mode") + (("next_internal_id",) if ia["mode"] == "sequential" and not exact else ()):
            if ia.get(x) != ib.get(x): raise Violation("replica-" + x, "%s: %s is %s at the source, %s at the replica" % (n, x, ia.get(x), ib.get(x)))

def run_history(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    args = (["--admin", "pw"] if sp["admin"] else []) + (["--mode", sp["mode"]] if sp["mode"] else [])
    w = World(ctx, mode=sp["mode"], nkeys=8, admin="pw" if sp["admin"] else None, prof="small", shim=True, base=ctx.sub("source"))
    log = []
    real = w.s.client
    w.s.client = lambda timeout=None: (lambda c: (w.s.clients.append(c), c)[1])(Rec(w.s.sockpath, timeout=60).attach(log))
    w.start()
    mirrors, done = [], []
    def attach(slow=False, ns=None):
        c = real()
        if sp["admin"]: c.cmd("AUTH", "pw")
        if ns: c.cmd("SELECT", ns)
        if c.cmd("MIRROR") != "Starting mirroring": raise Violation("mirror", "MIRROR not accepted")
        m = Mirror(c, log, slow, ns or "default"); mirrors.append(m); return m
    full = attach(slow=rnd.random() < .3)
    if rnd.random() < .5: attach(slow=True)
    ctx.clock = 0
    w.nsnew("a", None if sp["mode"] else "seq"); w.nsnew("b")
    nn = 0
    for n in range(sp["ops"]):
        x = rnd.random()
        if x < .02 and len(mirrors) < 5: attach(slow=rnd.random() < .4, ns=rnd.choice([None, "a", "b"])); ctx.ev.hit("attached_later")
        elif x < .03 and len(mirrors) > 1:
            m = rnd.choice(mirrors[1:]); mirrors.remove(m); finish_mirror(ctx, w, m, log, done, mirrors[1:])
        elif x < .04 and any(m.ns == "default" for m in mirrors[1:]):
            # executed by the connection of a mirror
            m = rnd.choice([m for m in mirrors[1:] if m.ns == "default"])
            m.execute(w, log, b"" if w.ns["default"].mode == "seq" else b"by a mirror", b"own%d" % n); ctx.ev.hit("executed_by_mirrors")
        elif x < .05: nn += 1; w.nsnew("n%d" % nn, None if sp["mode"] else rnd.choice(["user", "seq"]))
        elif x < .06:
            l = [k for k in w.ns if k[0] == "n"]
            if l: w.nsdel(rnd.choice(l))
        elif x < .08:
            l = [k for k in w.ns if k != "default"]; k = rnd.choice(l)
            w.nsset(k, *rnd.choice([("maxsize", 1 << 40), ("maxsize", 0), ("password", "secret%d" % n), ("password", "*"), ("public", 1)]))
        elif x < .09:
            # a removed namespace still selected by the one who removes it
            nn += 1; c = w.conn(); c.cmd("NSNEW", "self%d" % nn); c.cmd("SELECT", "self%d" % nn); c.cmd("SET", b"" if sp["mode"] == "seq" else b"k", b"v")
            r = c.cmd("NSDEL", "self%d" % nn)
            if isinstance(r, Err):
                c.cmd("SELECT", "default"); c.cmd("NSDEL", "self%d" % nn)
            elif log[-1][0][0] == b"NSDEL": log[-1] = log[-1][:2] + (False,) + log[-1][3:]     # in which namespace it was executed is not defined
            c.close()
        elif x < .10:
            c = w.c("b"); m = w.ns["b"]
            pw, pub = m.password, m.public
            w.nsset("b", "password", "fl"); w.nsset("b", "public", 0)
            if c.cmd("FLUSH") == "OK": m.reset(); ctx.ev.hit("flushes")
            w.nsset("b", "public", 1 if pub else 0); w.nsset("b", "password", pw or "*")
        elif x < .11: w.reload(rnd.choice(list(w.ns)))
        else: w.step(ops=dict(scan=.3, rscan=.3, cursor=0, history=.4, keycur=.3, nsinfo=.3, read=6, jump=1))
        for m in mirrors:
            if not m.slow: m.pump()
        ctx.ev.hit("evaluations")
    for m in mirrors[::-1]:
        if m is not full: mirrors.remove(m); finish_mirror(ctx, w, m, log, done, mirrors[1:])
    finish_mirror(ctx, w, full, log, done)
    own = owner_of(full)
    for m in done: check_stream(ctx, m, log, own)
    w.verify_all(scans=False, hist=False)
    s2 = replay(ctx, full.msgs, sp["mode"], args)
    compare(ctx, w, s2, w.d, list(w.ns), False, args)
    ctx.ev.hit("replicas"); ctx.sample = {"mode": sp["mode"], "mirrors": len(done), "messages": len(full.msgs), "executed": len(log), "stream_bytes": full.bytes}
    s2.stop(); w.s.stop()

def finish_mirror(ctx, w, m, log, done, others=()):
    """everything executed so far has to reach the mirror before it leaves"""
    ctx.ev.hit("mirrors")
    mark = b"mark%d" % len(log)
    c = w.adm; l = [x for x in others if x is not m and x.ns == "default"]
    if l and ctx.rnd.random() < .4:
        a = ctx.rnd.choice(l).execute(w, log, b"" if w.ns["default"].mode == "seq" else b"mark", mark); ctx.ev.hit("executed_by_mirrors")
        m.end = len(log); m.until(a); m.c.close(); done.append(m); return
    c.cmd("SETX", b"" if w.ns["default"].mode == "seq" else b"mark", mark)
    a = log[-1][0]; m.end = len(log)
    r = log[-1][5]
    # the model learns it
    if isinstance(r, Err): raise Violation("mark", "SET answered %s" % short(r))
    w.d.set_reply(w.ns["default"], a[1], mark, r, log[-1][3], log[-1][4])
    m.until(a)
    m.c.close(); done.append(m)

def run_burst(ctx):
    """many connections, requests cut anywhere, concurrently: order unknown, but one order for all mirrors, every request once"""
    sp, rnd = ctx.spec, ctx.rnd
    args = ["--mode", sp["mode"]]
    narrow = (rnd.choice([0, 1, 16384]), rnd.choice([8, 300, 5000])) if rnd.random() < .5 else None
    s = ctx.server("asan", ctx.sub("source"), args=args, narrow=narrow).start()
    with_ns = ["default", "x", "y"]
    adm = s.client()
    ms = []
    log = []
    for i in range(3):
        c = s.client()
        if c.cmd("MIRROR") != "Starting mirroring": raise Violation("mirror", "MIRROR not accepted")
        ms.append(Mirror(c, log, i == 2))
    for n in with_ns[1:]: adm.cmd("NSNEW", n)
    cl = []
    for i in range(7):
        c = s.client(); n = rnd.choice(with_ns); c.cmd("SELECT", n); c.n = n; c.sent = []; c.ids = []; cl.append(c)
    uniq = 0
    for rd in range(sp["rounds"]):
        todo = []
        for c in cl:
            reqs = []
            for _ in range(rnd.randint(1, 25)):
                uniq += 1; x = rnd.random()
                if sp["mode"] == "user":
                    k = b"key%d" % rnd.randrange(6)
                    reqs.append([b"SET", k, gen.payload(rnd, uniq, rnd.choice([8, 30, 300, 9000])) + b"#%d" % uniq] if x < .75 else [b"DEL", k] if x < .85 else [b"GET", k] if x < .95 else [b"EXISTS", k])
                else:
                    k = b"" if not c.ids or x < .5 else rnd.choice(c.ids)
                    reqs.append([b"SET", k, gen.payload(rnd, uniq, rnd.choice([8, 30, 300, 9000])) + b"#%d" % uniq] if x < .8 or k == b"" else [b"DEL", k] if x < .85 else [b"GET", k])
            c.sent += reqs; c.now = len(reqs)
            todo.append([c, b"".join(enc(*q) for q in reqs)])
        while todo:
            t = rnd.choice(todo); k = rnd.choice([1, 7, 100, 3000, 20000])
            t[0].raw(t[1][:k]); t[1] = t[1][k:]
            if not t[1]: todo.remove(t)
            if rnd.random() < .05: ms[0].pump()
        for c in cl:
            for i in range(c.now):
                r = c.recv(); q = c.sent[len(c.sent) - c.now + i]
                q.append(r)
                if sp["mode"] == "seq" and q[0] == b"SET" and q[1] == b"" and isinstance(r, bytes): c.ids.append(r)
                ctx.ev.hit("evaluations")
    adm.cmd("SELECT", "default"); a = [b"SET", b"" if sp["mode"] == "seq" else b"mark", b"the end"]; adm.cmd(*a)
    for m in ms: m.until(a)
    streams = [[decode(x) for x in m.msgs if decode(x)[3][0].upper() in (b"SET", b"DEL", b"NSNEW")] for m in ms]
    for m in ms: ctx.ev.hit("mirrors"); ctx.ev.hit("mirrored_messages", len(m.msgs))
    for i in (1, 2):
        if [x[1:] for x in streams[i]] != [x[1:] for x in streams[0]]: raise Violation("mirror-disagree", "two mirrors attached at the same point received different streams (%d and %d messages)" % (len(streams[0]), len(streams[i])))
    # every successful write once; per connection in order
    got = {}
    for n, x in enumerate(streams[0]):
        if x[3][0] == b"SET": got.setdefault((x[1], x[3][2]), []).append(n)
    for c in cl:
        last = -1
        for q in c.sent:
            if q[0] != b"SET" or isinstance(q[3], Err) or q[3] is None: continue
            p = got.get((c.n, q[2]), [])
            if len(p) != 1: raise Violation("mirror-count", "a SET executed once was mirrored %d times" % len(p))
            if streams[0][p[0]][3] != q[:3]: raise Violation("mirror-bytes", "%s was mirrored as %s" % (short(q[:3], 200), short(streams[0][p[0]][3], 200)))
            if p[0] < last: raise Violation("mirror-order", "requests of one connection mirrored out of order")
            last = p[0]; ctx.ev.hit("mirrored_checked")
    dels = sum(1 for c in cl for q in c.sent if q[0] == b"DEL" and not isinstance(q[2], Err))
    nd = sum(1 for x in streams[0] if x[3][0] == b"DEL")
    alld = sum(1 for c in cl for q in c.sent if q[0] == b"DEL")
    if not dels <= nd <= alld: raise Violation("mirror-count", "%d DEL executed (%d tried), %d mirrored" % (dels, alld, nd))
    from vz.model import Driver
    d = Driver(ctx.ev)
    s2 = replay(ctx, ms[0].msgs, sp["mode"], args)
    class O: pass
    w = O(); w.s = s
    compare(ctx, w, s2, d, with_ns, False, args); ctx.ev.hit("replicas")
    ctx.distinct.add("burst/%s" % sp["mode"])
    s2.stop(); s.stop()

def run_loop(ctx):
    """two servers replicating each other: convergence, no echo"""
    sp, rnd = ctx.spec, ctx.rnd
    S = [ctx.server("asan", ctx.sub("n%d" % i), narrow=(1, 300) if rnd.random() < .5 else None).start() for i in (0, 1)]
    adm = [s.client() for s in S]
    mir = [s.client() for s in S]; mas = [s.client() for s in S]
    for c in mir:
        if c.cmd("MIRROR") != "Starting mirroring": raise Violation("mirror", "MIRROR not accepted")
    for c in mas:
        if c.cmd("MASTER") != "Hello, master": raise Violation("master", "MASTER not accepted")
        c.ns = "default"
    M = [Mirror(c, [], False) for c in mir]
    own = [None, None]; pos = [0, 0]; ops = [0, 0]; executed = [0, 0]
    def pump():
        moved = True; n = 0
        while moved:
            moved = False
            for i in (0, 1):
                M[i].pump()
                while pos[i] < len(M[i].msgs):
                    ts, ns, o, a = decode(M[i].msgs[pos[i]]); pos[i] += 1; moved = True; n += 1
                    if n > 5000: raise Violation("echo", "replication between two servers never ends")
                    if a[0].upper() not in (b"SET", b"DEL"): continue
                    if o == 0: raise Violation("mirror-owner", "mirrored with owner 0")
                    if own[i] is None and ops[i] == executed[i] + 1: own[i] = o
                    before = adm[1 - i].cmd("DBSIZE")
                    r = mas[1 - i].cmd(*(a + [b"%d" % ts, b"%d" % o])); ctx.ev.hit("forwarded")
                    if own[1 - i] is not None and o == own[1 - i]:
                        # its own request coming back: refused
                        if not isinstance(r, Err): raise Violation("echo", "a server executed again its own request %s coming back: %s" % (short(a), short(r)))
                        ctx.ev.hit("echoes_refused")
                    elif a[0].upper() == b"SET" and isinstance(r, Err): raise Violation("replica-refused", "%s forwarded was refused: %s" % (short(a), short(r)))
    vals = {}
    for n in range(sp["ops"]):
        i = rnd.randrange(2); k = b"%d-%d" % (i, rnd.randrange(5))      # each server writes its own keys
        if rnd.random() < .8: v = b"v%d" % n; ops[i] += 1; adm[i].cmd("SET", k, v); vals[k] = v
        else:
            r = adm[i].cmd("DEL", k)
            if not isinstance(r, Err): vals.pop(k, None); ops[i] += 1
        if own[i] is None:
            end = time.monotonic() + 20
            while not M[i].msgs and time.monotonic() < end: M[i].pump()
            if not M[i].msgs: raise Violation("mirror-missing", "nothing reached the mirror")
            own[i] = decode(M[i].msgs[0])[2]
        if rnd.random() < .4: pump()
        ctx.ev.hit("evaluations")
    for i in (0, 1): adm[i].cmd("SET", b"end%d" % i, b"m"); M[i].until([b"SET", b"end%d" % i, b"m"])
    pump()
    for _ in range(5): adm[0].cmd("PING"); adm[1].cmd("PING"); time.sleep(.03); pump()
    if own[0] == own[1]: raise Violation("owner-same", "two servers have the same owner id %s" % own[0])
    for k in [b"%d-%d" % (i, j) for i in (0, 1) for j in range(5)]:
        for i in (0, 1):
            r = adm[i].cmd("GET", k)
            if r != vals.get(k): raise Violation("converge", "after replication %s is %s on server %d, expected %s" % (k, short(r), i, short(vals.get(k))))
            ctx.ev.hit("replica_keys")
    # owner rules
    m = mas[0]
    for bad in ([b"PING"], [b"SET", b"q", b"z", b"1" * 33], [b"SET", b"q", b"z", b"x" * 300]):
        r = m.cmd(*bad)
        if not isinstance(r, Err): raise Violation("owner-malformed", "%s through MASTER answered %s" % (short(bad), short(r)))
    if adm[0].cmd("EXISTS", b"q") != 0: raise Violation("owner-malformed", "a request with a malformed owner was executed")
    M[0].pump(); n0 = len(M[0].msgs)
    m.cmd("SET", b"zero-owner", b"z", "0"); m.cmd("SET", b"chain", b"z", "4242"); adm[0].cmd("SET", b"mark", b"m")
    M[0].until([b"SET", b"mark", b"m"])
    new = [decode(x) for x in M[0].msgs[n0:]]
    if any(x[3][1:2] == [b"zero-owner"] for x in new): raise Violation("owner-zero", "a request with owner 0 was mirrored")
    if [x[2] for x in new if x[3][1:2] == [b"chain"]] != [4242]: raise Violation("owner-chain", "a request of owner 4242 was mirrored as %s" % short([x for x in new if x[3][1:2] == [b"chain"]]))
    ctx.distinct.add("loop"); ctx.sample = {"ops": ops, "owners": own, "messages": [len(x.msgs) for x in M]}
    for s in S: s.stop()

def run_raw(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], nkeys=8, prof=rnd.choice(["small", "tiny", "fill"]), base=ctx.sub("source")).start()
    w.nsnew("a")
    for n in range(sp["ops"]):
        x = rnd.random()
        if x < .01: w.reload(rnd.choice(list(w.ns)))
        elif x < .02: w.restart()
        else: w.step(ops=dict(scan=.1, rscan=.1, cursor=0, history=.2, keycur=.1, nsinfo=.1, read=2, jump=2, delete=14))
        if n % 80 == 79 or n == sp["ops"] - 1:
            for name in w.ns: entries = walk_raw(ctx, w, name)
    # replay of the walk on a fresh server
    s2 = later(ctx, ctx.sub("replica"), args=["--mode", sp["mode"]], datasize=None); c2 = s2.client()
    c2.cmd("NSNEW", "a")
    for name in w.ns:
        c2.cmd("SELECT", name)
        known = set()
        for e in walk_raw(ctx, w, name):
            k, prev, crc, flags, ts, pay = e
            if flags & 1: r = c2.cmd("DEL", k, str(ts))
            elif sp["mode"] == "seq" and k not in known:
                r = c2.cmd("SET", b"", pay, str(ts)); known.add(k)
                # ids skip the entries written for updates; the ids of the replica may differ
                idmap.setdefault(name, {})[k] = r if isinstance(r, bytes) else None
            else: r = c2.cmd("SET", idmap[name][k] if sp["mode"] == "seq" else k, pay, str(ts))
            if sp["mode"] == "seq" and flags & 1: r = c2.cmd("DEL", idmap[name][k], str(ts)) if isinstance(r, Err) else r
            ctx.ev.hit("raw_replayed")
        want = {k: (v[-1].value) for k, v in w.ns[name].live.items()}
        got = {}
        src = w.c(name)
        for k in want:
            k2 = idmap[name][k] if sp["mode"] == "seq" else k
            got[k] = c2.cmd("GET", k2)
            if c2.cmd("KEYTIME", k2) != src.cmd("KEYTIME", k): raise Violation("raw-time", "%s: the replica built from DATA RAW has another time for %s" % (name, short(k)))
        if got != want: raise Violation("raw-dataset", "%s: the replica built from DATA RAW differs: %s" % (name, short([k for k in want if want[k] != got[k]][:5], 200)))
        if c2.cmd("DBSIZE") != len(want): raise Violation("raw-dataset", "%s: the replica built from DATA RAW has %s keys, %d expected" % (name, c2.cmd("DBSIZE"), len(want)))
        if sp["mode"] == "user": same_records(ctx, w.s, s2, name, 0)
    ctx.ev.hit("raw_replicas")
    s2.stop(); w.s.stop()

idmap = {}

def walk_raw(ctx, w, name):
    """all stored objects through DATA RAW, compared with the files"""
    if name == list(w.ns)[0]: idmap.clear()
    c = w.c(name); d = w.d
    i = d.nsinfo(w.adm, name); cur, end = int(i["data_current_id"]), int(i["data_current_offset"])
    st = files.Store(os.path.join(w.s.data, name), os.path.join(w.s.index, name)).parse()
    out = []
    for f in range(cur + 1):
        off = files.DHDR.size
        for e in st.data[f]:
            if e.off != off: raise Violation("raw-walk", "walk at %d, the entry is at %d" % (off, e.off))
            r = c.cmd("DATA", "RAW", str(f), str(off))
            what = "deleted" if e.deleted else "empty" if not e.payload else "value"
            if not (isinstance(r, list) and len(r) == 6): raise Violation("raw-%s" % what, "DATA RAW %d %d (%s entry of %d bytes) answered %s" % (f, off, what, len(e.payload), short(r)))
            exp = [e.id, e.previous, b"0x%08x" % e.crc, e.flags, e.ts, None if e.deleted else e.payload]
            if r != exp: raise Violation("raw-%s" % what, "DATA RAW %d %d answered %s, stored is %s" % (f, off, short(r, 300), short(exp, 300)))
            if not e.deleted and gen.crc(e.payload) != e.crc: raise Violation("raw-crc", "stored crc %08x" % e.crc)
            out.append(r); off += files.DENT.size + len(e.id) + len(e.payload)
            ctx.ev.hit("raw_entries"); ctx.ev.hit("raw_" + what); ctx.distinct.add("raw/%s/%s" % (what, w.ns[name].mode)); ctx.ev.hit("evaluations")
        r = c.cmd("DATA", "RAW", str(f), str(off))
        if not isinstance(r, Err): raise Violation("raw-eof", "DATA RAW after the last entry answered %s" % short(r))
        if f == cur and off != end: raise Violation("raw-end", "the walk ends at %d, data_current_offset is %d" % (off, end))
    r = c.cmd("DATA", "RAW", str(cur + 1), "28")
    if not isinstance(r, Err): raise Violation("raw-missing", "DATA RAW of a file which does not exist answered %s" % short(r))
    # the model: what is live is what the last entries say
    live = {}
    for e in out:
        if e[3] & 1: live.pop(e[0], None)
        else: live[e[0]] = e[5]
    want = {k: v[-1].value for k, v in w.ns[name].live.items()}
    if live != want: raise Violation("raw-live", "%s: the objects of DATA RAW give another dataset than the history: %s" % (name, short([k for k in set(live) | set(want) if live.get(k) != want.get(k)][:5], 200)))
    return out

def run_case(ctx): {"history": run_history, "burst": run_burst, "loop": run_loop, "raw": run_raw}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("mirrored_checked", 3000), ("mirrors", 60), ("replicas", 20), ("raw_entries", 3000), ("raw_deleted", 100), ("raw_empty", 3), ("echoes_refused", 100), ("replica_keys", 400)) if ev.get(k, 0) < n]
