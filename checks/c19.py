"""C19: the embedding API of libzdb."""
import errno, os, select, struct, subprocess, time, signal
from vz import gen
from vz.model import OFF, NS, Ver, Violation, now0, now1, short
from vz.resp import Timeout
from vz.server import Server, Crash
from vz.work import World

PROP, LEVEL = "C19", "exploration"
TECHNIQUE = ("runtime monitoring of a program which embeds libzdb (ASan+UBSan, leaks at exit): every reply of the API is decoded, compared with a reference model and freed, through jumps, reloads, closing and reopening in the same "
             "and in other processes, injected read and write failures, damaged files; the directories are then served by the monitored daemon and compared with the same model")
NOTE = "a failed zdb_open is only followed by the end of the process; the low level index and data helpers of api.h are not judged (the offline tools of C13-C15 run on them)"
RULE = "one distinct = (mode, call, status of the reply, where the entry is: current or older data file, before or after reopening)"
WATCHDOG = 300
LEAKS = 1

SUCCESS, FAILURE, ENTRY, SAME, BUFFER, NOTFOUND, DELETED, INTERNAL, TRUE, FALSE, DENIED = range(11)
NAMES = ["ZDB_API_" + x for x in "SUCCESS FAILURE ENTRY UP_TO_DATE BUFFER NOT_FOUND DELETED INTERNAL_ERROR TRUE FALSE INSERT_DENIED".split()]

def cases(tier, seed):
    q = tier == "quick"
    out = []
    def add(kind, n, m, **kw):
        for i in range(n if q else m): out.append(dict(kind=kind, i=i, seed=seed * 1000 + len(out), **kw))
    add("history", 40, 240, ops=500 if q else 2000)
    add("faults", 6, 48, ops=300 if q else 900)
    add("damage", 4, 32)
    add("locked", 2, 4)
    return out

class Api(Server):
    """the embedding program"""
    def spawn(self):
        env = self.environ()
        self.o = open(self.out, "ab")
        self.proc = subprocess.Popen([self.binary()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.o, env=env, cwd=self.cwd, preexec_fn=self.preexec, close_fds=True, bufsize=0)
        self.o.close(); self.starts += 1
    def start(self): self.spawn(); return self
    def read(self, n):
        b = b""; end = time.monotonic() + 90
        while len(b) < n:
            if not select.select([self.proc.stdout], [], [], 5)[0]:
                if time.monotonic() < end: continue
                st, a = self.usage(); time.sleep(5)
                if self.usage()[1] - a > 2.5: raise Crash("hang", "the call never returns")
                raise Timeout("no answer of the embedding program")
            x = os.read(self.proc.stdout.fileno(), min(n - len(b), 1 << 20))
            if not x: self.gone()
            b += x
        return b
    def gone(self):
        self.proc.wait(30); self.check_dead(expected=())
    def call(self, op, key=b"", payload=b""):
        try:
            f = self.proc.stdin.fileno(); m = op + struct.pack("<II", len(key), len(payload)) + key + payload
            while m: m = m[os.write(f, m[:65536]):]
        except OSError: self.gone()
        st, a, b = struct.unpack("<iII", self.read(12))
        return st, self.read(a), self.read(b)
    def end(self):
        """the program returns from main: leaks are reported"""
        if self.call(b"Q")[0] != 1: raise Violation("quit", "no answer to the end")
        self.proc.wait(60); self.check_dead()
        self.proc.stdin.close(); self.proc.stdout.close()

class Emb:
    """the embedding program and the models of its namespaces"""
    def __init__(self, ctx, w, mode, size):
        self.ctx, self.w, self.rnd, self.ev, self.mode, self.size = ctx, w, ctx.rnd, ctx.ev, mode, size
        self.a = None; self.ns = "default"; self.fault = False; self.reopened = False
        self.jumped = {}       # namespace -> keys written before the last jump
    @property
    def m(self): return self.w.ns[self.ns]
    def open(self, limit=0):
        if self.a is None:
            s = self.w.s
            self.a = Api(s.build, s.base, data=s.data, index=s.index, exe="apihost", sock=False, leaks=True, ctl=s.ctl)
            self.ctx.servers.append(self.a); self.a.start(); self.ev.hit("processes")
        r = self.a.call(b"O", s_(self.w.s.data) + s_(self.w.s.index), struct.pack("<qqq", self.mode, self.size, limit))
        if r[0] != 1: raise Violation("open", "the database does not open")
        for x in self.w.ns.values(): x.maxsize = 0
        self.w.ns["default"].maxsize = limit
        self.ns = "default"; self.ev.hit("opens")
    def close(self):
        self.a.call(b"C"); self.reopened = True
    def quit(self):
        self.close(); self.a.end(); self.a = None
    def use(self, name, mode=None):
        if name not in self.w.ns: self.w.add_model(name, mode)
        r = self.a.call(b"N", name.encode(), bytes([{"user": 0, "seq": 1}[mode]]) if mode else b"")
        if r[0] not in (1, 2, 3): raise Violation("namespace", "namespace %s cannot be used: %d" % (name, r[0]))
        self.ns = name
    def result(self, op, r, *allowed):
        if r[0] < 0 or r[0] > 10: raise Violation("reply-type", "%s: reply status %d has no type" % (op, r[0]))
        if r[0] != ENTRY and r[0] not in (BUFFER, FAILURE) and r[2].decode("latin-1") != NAMES[r[0]]: raise Violation("reply-name", "%s: %d is named %s" % (op, r[0], short(r[2])))
        if r[0] in (BUFFER, FAILURE) and r[2].decode("latin-1") != NAMES[r[0]]: raise Violation("reply-name", "%s: %d is named %s" % (op, r[0], short(r[2])))
        if r[0] == FAILURE and not r[1]: raise Violation("reply-text", "%s failed without a message" % op)
        if r[0] not in allowed: raise Violation("%s-%s" % (op, self.m.mode), "%s in %s answered %s %s, expected %s" % (op, self.ns, NAMES[r[0]], short(r[1]), [NAMES[x] for x in allowed]))
        self.ev.hit("%s_%s" % (op, NAMES[r[0]][8:].lower())); self.ev.hit("replies")
        return r[0]
    def mark(self, op, st, key):
        self.ctx.distinct.add("%s|%s|%s|%s|%s" % (self.m.mode, op, NAMES[st], "old" if key in self.jumped.get(self.ns, ()) else "cur", self.reopened))
    # ---- calls
    def set(self, key, val):
        m = self.m; cur = m.live.get(key); t0 = now0()
        r = self.a.call(b"S", key, val); t1 = now1()
        full = m.maxsize and m.size() - (len(cur[-1].value) if cur else 0) + len(val) > m.maxsize
        errs = (FAILURE, INTERNAL, DENIED) if self.fault else ()     # seq: the entry cannot be read
        if len(key) > 255 or (m.mode == "user" and not key): want = (FAILURE, DENIED)
        elif m.mode == "seq" and key and not cur: want = (DENIED,) + ((FAILURE,) if full else ())
        elif full: want = (FAILURE,)
        elif cur and cur[-1].value == val: want = (SAME,)
        else: want = (BUFFER,)
        # a value which cannot be read for the comparison is written again
        if self.fault and want == (SAME,): want = (SAME, BUFFER)
        st = self.result("set", r, *(want + errs)); self.mark("set", st, key)
        if st != BUFFER: return
        if m.mode == "seq" and not key:
            if len(r[1]) != 8: raise Violation("set-id", "set answered %s, 8 bytes expected" % short(r[1]))
            i = struct.unpack("<Q", r[1])[0]
            if m.issued and i <= m.issued[-1]: raise Violation("set-id", "id %d issued after %d" % (i, m.issued[-1]))
            m.issued.append(i); key = r[1]
        elif r[1] != key: raise Violation("set-key", "set %s answered %s" % (short(key), short(r[1])))
        m.pos += 1; m.fresh = False
        if cur and len(cur[-1].value) == len(val) >= 5 and gen.crc(val) == gen.crc(cur[-1].value): self.ev.hit("set_same_crc")
        m.live.setdefault(key, []).append(Ver(val, t0, t1, m.pos))
        self.jumped.setdefault(self.ns, set()).discard(key)
    def get(self, key):
        m = self.m; cur = m.live.get(key)
        r = self.a.call(b"G", key)
        st = self.result("get", r, *((ENTRY,) if cur else (NOTFOUND, DELETED)) + ((INTERNAL, NOTFOUND) if self.fault else ()))
        self.mark("get", st, key)
        if st == ENTRY:
            if not cur: raise Violation("get-dead", "get %s found something" % short(key))
            if r[1] != key or r[2] != cur[-1].value: raise Violation("get-value", "get %s answered %s: %s, expected %s" % (short(key), short(r[1]), short(r[2]), short(cur[-1].value)))
            self.ev.hit("values")
    def exists(self, key):
        cur = self.m.live.get(key)
        st = self.result("exists", self.a.call(b"E", key), *((TRUE,) if cur else (FALSE,)) + ((FALSE,) if self.fault else ()))
        self.mark("exists", st, key)
    def check(self, key):
        cur = self.m.live.get(key)
        st = self.result("check", self.a.call(b"K", key), *((TRUE,) if cur else (NOTFOUND, DELETED)) + ((INTERNAL, FALSE, NOTFOUND) if self.fault else ()))
        self.mark("check", st, key)
    def delete(self, key):
        m = self.m; cur = m.live.get(key)
        st = self.result("del", self.a.call(b"D", key), *((SUCCESS,) if cur else (NOTFOUND, DELETED)) + ((FAILURE, INTERNAL, NOTFOUND) if self.fault and cur else ()))
        self.mark("del", st, key)
        if st == SUCCESS:
            del m.live[key]; m.dead.add(key); m.pos += 1
    def jump(self):
        r = self.a.call(b"J")
        if r[0] != 0 and not self.fault: raise Violation("jump", "the namespace does not jump")
        self.jumped.setdefault(self.ns, set()).update(self.m.live); self.ev.hit("jumps")
    def reload(self):
        if self.a.call(b"R")[0] != 0: raise Violation("reload", "the namespace does not reload")
        self.ev.hit("reloads")
    def info(self):
        r = self.a.call(b"I"); n, size = struct.unpack("<qq", r[1])
        if (n, size) != (len(self.m.live), self.m.size()): raise Violation("stats", "%d entries of %d bytes, expected %d of %d" % (n, size, len(self.m.live), self.m.size()))
        self.ev.hit("stats")
    def key(self, live=None):
        x = self.rnd.random()
        m = self.m
        if x < .04: return b"" if m.mode == "user" else self.rnd.randbytes(self.rnd.choice([1, 7, 9, 16]))
        if x < .1:
            k = self.w.key(m, True) if m.live else b"k" * 8
            return (k + bytes(256))[:256] if self.rnd.random() < .2 else k + self.rnd.randbytes(256) if self.rnd.random() < .7 else self.rnd.randbytes(self.rnd.choice([256, 300, 511, 512, 65536 + len(k)]))
        return self.w.key(m, live)
    def value(self, key):
        x = self.rnd.random()
        if x < .02: return self.rnd.randbytes(self.rnd.choice([self.size - 40, self.size, self.size + 1, 100000]))
        return self.w.value(self.m.live.get(key))
    def step(self):
        r = self.rnd; x = r.random()
        if x < .42:
            k = b"" if self.m.mode == "seq" and r.random() < .45 else self.key()
            self.set(k, self.value(k))
        elif x < .56: self.delete(self.key())
        elif x < .74: self.get(self.key())
        elif x < .82: self.exists(self.key())
        elif x < .9: self.check(self.key())
        elif x < .93: self.jump()
        elif x < .945 and not self.fault: self.reload()
        elif x < .97 and not self.fault: self.info()
        elif len(self.w.ns) > 1: self.use(r.choice(list(self.w.ns)))
    def verify(self):
        for n in list(self.w.ns):
            self.use(n)
            m = self.m
            for k in list(m.live) + list(self.w.pools[n]) + list(m.dead) + [struct.pack("<Q", x) for x in m.issued[-3:]]: self.get(k); self.exists(k); self.check(k)
            self.info()
        self.ev.hit("full_comparisons")

def s_(p): return p.encode() + b"\0"

def setup(ctx, shim=False):
    rnd = ctx.rnd
    i = ctx.spec["i"]
    mode = [None, "user", "seq"][i % 3]
    w = World(ctx, mode=mode, datasize=524289, shim=shim, leaks=True, prof=rnd.choice(["tiny", "small", "small", "mixed"]), nkeys=rnd.choice([6, 14, 30]))
    size = rnd.choice([3000, 20000, 524289, 524289])
    e = Emb(ctx, w, {None: -1, "user": 0, "seq": 1}[mode], size)
    return w, e

def daemon(ctx, w):
    """the same directories are served by the daemon"""
    for m in w.ns.values(): m.maxsize = 0
    w.start(); w.verify_all(); ctx.ev.hit("served")
    for _ in range(40): w.step()
    w.verify_all(); w.s.stop()

def history(ctx):
    w, e = setup(ctx); rnd = ctx.rnd; n = ctx.spec["ops"]
    e.open()
    if w.fixedmode is None or rnd.random() < .5:
        for x in range(rnd.randint(1, 2)): e.use("ns%d" % x, rnd.choice(["user", "seq"]) if w.fixedmode is None else None)
    for seg in range(4):
        for _ in range(n // 4): e.step()
        e.verify()
        x = rnd.random()
        if x < .4: e.close(); e.open(rnd.choice([0, 0, w.ns["default"].size() + rnd.choice([0, 10, 500])]))
        elif x < .7: e.quit(); e.open(rnd.choice([0, w.ns["default"].size() + 100]))
        elif x < .9: e.quit(); daemon(ctx, w); e.open()
        e.verify()
    e.quit()
    daemon(ctx, w)
    ctx.sample = "4 segments of %d calls, mode %s, data files of %d bytes, then served: %d live keys" % (n // 4, w.fixedmode or "mixed", e.size, sum(len(m.live) for m in w.ns.values()))

def faults(ctx):
    w, e = setup(ctx, True); rnd = ctx.rnd; ctl = w.s.ctl
    ctl.set(fail_opens=1, fail_sync=1)
    e.open()
    for i in range(ctx.spec["ops"]):
        armed = rnd.random() < .3
        if armed:
            err = rnd.choice([errno.ENOSPC, errno.EIO, 0])
            if rnd.random() < .6: ctl.set(fail_at=ctl.get("writes") + rnd.choice([1, 1, 2, 3]), fail_count=rnd.choice([1, 1, 50]), fail_errno=err or errno.ENOSPC, short_len=0 if err else rnd.choice([1, 17, 30]), failed=0)
            else: ctl.set(read_fail_at=ctl.get("reads") + rnd.choice([1, 1, 2]), read_fail_count=rnd.choice([1, 50]), read_errno=errno.EIO, failed=0)
            e.fault = True
        e.step()
        ctl.set(fail_at=0, fail_count=0, read_fail_at=0, read_fail_count=0)
        if armed: ctx.ev.hit("faults_armed"); ctx.ev.hit("faults_hit", min(1, ctl.get("failed")))
        e.fault = False
        if i % 20 == 19: e.verify()
    e.verify(); e.close(); e.open(); e.verify(); e.quit()
    daemon(ctx, w)

def damage(ctx):
    """payloads damaged or data files missing behind the program"""
    w, e = setup(ctx); rnd = ctx.rnd; e.open()
    for _ in range(60):
        k = b"" if e.m.mode == "seq" else w.key(e.m)
        e.set(k, rnd.randbytes(rnd.choice([20, 100, 3000])))
    e.jump()
    for _ in range(10): e.set(b"" if e.m.mode == "seq" else w.key(e.m), rnd.randbytes(50))
    where = {k: os.path.join(w.s.data, "default", f) for k in e.m.live for f in os.listdir(os.path.join(w.s.data, "default")) if e.m.live[k][-1].value in open(os.path.join(w.s.data, "default", f), "rb").read()}
    for k in rnd.sample(sorted(where), min(12, len(where))):
        with open(where[k], "r+b") as f:
            b = f.read(); p = b.index(e.m.live[k][-1].value) + rnd.randrange(len(e.m.live[k][-1].value)); old = b[p:p + 1]
            f.seek(p); f.write(bytes([old[0] ^ (1 << rnd.randrange(8))])); f.flush()
            st = e.result("check", e.a.call(b"K", k), FALSE); e.mark("check-damaged", st, k); ctx.ev.hit("damaged_seen")
            f.seek(p); f.write(old); f.flush()
        e.check(k); e.get(k)
    old = {os.path.basename(x) for x in where.values()} - {max((os.path.basename(x) for x in where.values()), key=lambda x: int(x[1:]))}
    for f in old:
        p = os.path.join(w.s.data, "default", f)
        os.rename(p, p + ".away")
        for k in [k for k in where if os.path.basename(where[k]) == f]:
            st = e.result("check", e.a.call(b"K", k), FALSE, INTERNAL); e.mark("check-missing", st, k)
            st = e.result("get", e.a.call(b"G", k), INTERNAL, FAILURE); e.mark("get-missing", st, k)
            ctx.ev.hit("missing_seen")
        os.rename(p + ".away", p)
    e.verify(); e.quit(); daemon(ctx, w)

def locked(ctx):
    """two programs on the same directories"""
    w, e = setup(ctx); e.open()
    for _ in range(30): e.step()
    for d, i in ((w.s.data, w.s.index), (w.s.data, os.path.join(w.s.base, "other")), (os.path.join(w.s.base, "another"), w.s.index)):
        b = Api(w.s.build, w.s.base, exe="apihost", sock=False, leaks=True); ctx.servers.append(b); b.start()
        r = b.call(b"O", s_(d) + s_(i), struct.pack("<qqq", e.mode, e.size, 0))
        if r[0] != 0: raise Violation("two-programs", "directories used by another program are opened")
        b.end(); ctx.ev.hit("locked_out")
    e.verify(); e.close()
    b = Api(w.s.build, w.s.base, exe="apihost", sock=False, leaks=True); ctx.servers.append(b); b.start()
    if b.call(b"O", s_(w.s.data) + s_(w.s.index), struct.pack("<qqq", e.mode, e.size, 0))[0] != 1: raise Violation("lock-kept", "closed directories cannot be opened")
    b.call(b"C"); b.end()
    e.open(); e.verify(); e.quit(); daemon(ctx, w)

def run_case(ctx): globals()[ctx.spec["kind"]](ctx)
