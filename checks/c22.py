"""C22: no memory, descriptor or process leaks."""
import errno, hashlib, mmap, os, random, select, socket, struct, subprocess, time
from vz import gen
from vz.model import Violation, short
from vz.resp import Client, Closed, Err, Timeout, enc
from vz.work import World
from vz.server import Crash
from checks import c12

PROP, LEVEL = "C22", "exploration"
TECHNIQUE = ("runtime monitoring: live allocations per allocation site (interposed allocator), /proc descriptors and children of the server compared over identical repeated rounds, "
             "and LeakSanitizer at STOP after random histories, hostile requests and injected failures")
NOTE = "a site whose live allocations grow in every repeated round, a descriptor without a client, listener or active file behind it, a zombie, or a LeakSanitizer report is a violation"
RULE = "one distinct = a round step kind (with its configuration) repeated to a fixed point, or a configuration of a history ended by a leak-checked STOP"
VARIANTS = ("track", "asan")
WATCHDOG = 400
ASSUMPTIONS = ["LeakSanitizer is used where the sandbox lets it stop its own process (probed in every run), the allocation monitor does not depend on it"]

NREC = 4096

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i, k in enumerate(STEPS):
        for m in ("user", "seq") if k not in ("hostile", "hooks", "connections") else ("user",):
            out.append({"kind": "round", "i": len(out), "seed": seed * 1000 + i, "steps": [k], "mode": m, "rounds": 9, "args": ["--admin", "pw"] if (i + (m == "seq")) % 3 == 0 else []})
    for i in range(12 if q else 120):
        out.append({"kind": "round", "i": len(out), "seed": seed * 1000 + 300 + i, "steps": "random", "mode": ["user", "seq"][i % 2], "rounds": 9, "args": [[], ["--admin", "pw"], ["--sync"], ["--hook", "/bin/true"]][i % 4]})
    for i in range(14 if q else 160):
        out.append({"kind": "lsan", "i": i, "seed": seed * 1000 + 600 + i, "mode": [None, "user", "seq"][i % 3], "ops": 400 if q else 1500, "hostile": 40 if q else 200, "faults": i % 2 == 1, "hook": i % 5 == 4})
    return out

# ------------------------------------------------------------------ observers

class Alloc:
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f: f.write(b"\0" * (NREC * 64))
        self.f = open(path, "r+b"); self.m = mmap.mmap(self.f.fileno(), NREC * 64)
    def sites(self):
        out, b = {}, bytes(self.m)
        for i in range(0, len(b), 64):
            s, c, live, size, total = struct.unpack_from("<QQqqq", b, i)
            if s: out[(s, c)] = (live, size, total)
        return out

def where(exe, addrs):
    """names of code addresses of the server (for the report only)"""
    try:
        t = subprocess.run(["addr2line", "-f", "-s", "-e", exe] + [hex(max(0, a - 1)) for a in addrs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode().split("\n")
        return ["%s (%s)" % (t[2 * i], t[2 * i + 1]) for i in range(len(addrs))]
    except Exception: return [hex(a) for a in addrs]

def fds(pid):
    out = []
    for x in os.listdir("/proc/%d/fd" % pid):
        try: out.append(os.readlink("/proc/%d/fd/%s" % (pid, x)))
        except OSError: pass
    return out

def children(pid):
    """(pid, state) of the children of the server"""
    out = []
    try: l = open("/proc/%d/task/%d/children" % (pid, pid)).read().split()
    except OSError: l = []
    for c in l:
        try: out.append((int(c), open("/proc/%s/stat" % c).read().rsplit(")", 1)[1].split()[0]))
        except OSError: pass
    return out

def audit(s, nclients, nns, listeners, what, ctx, extra=()):
    """every descriptor has a reason; waits for what was just closed to be noticed"""
    end = time.monotonic() + 8
    while True:
        l = fds(s.proc.pid)
        socks = [x for x in l if x.startswith("socket:")]
        files = [x for x in l if x.startswith((s.data + "/", s.index + "/"))]
        gone = [x for x in files if x.endswith("(deleted)")]
        locks = [x for x in files if x.endswith(".lockfile")]
        act = [x for x in files if x not in locks and x not in gone]
        z = [p for p, st in children(s.proc.pid) if st == "Z"]
        ok = len(socks) == nclients + listeners and not gone and len(act) == 2 * nns and len(locks) <= 2 and len(set(act)) == len(act) and not z
        if ok: break
        if time.monotonic() > end:
            if len(socks) > nclients + listeners: raise Violation("fd-socket", "%s: %d sockets open, for %d clients and %d listeners" % (what, len(socks), nclients, listeners))
            if len(socks) < nclients + listeners: raise Violation("fd-socket-lost", "%s: %d sockets open, for %d clients and %d listeners" % (what, len(socks), nclients, listeners))
            if gone: raise Violation("fd-deleted", "%s: removed files still open: %s" % (what, short(gone)))
            if z: raise Violation("zombie", "%s: %d children terminated and never collected" % (what, len(z)))
            raise Violation("fd-files", "%s: %d namespaces, files open: %s" % (what, nns, short(sorted(files))))
        time.sleep(.02)
    ctx.ev.hit("descriptor_audits"); ctx.ev.hit("descriptors_seen", len(l))
    return len(l)

# ------------------------------------------------------------------ rounds

class R:
    """one round: a namespace, its clients, everything removed at the end"""
    def __init__(self, ctx, s, adm, port, mode, seed, admin, n):
        self.ctx, self.s, self.adm, self.port, self.mode, self.admin = ctx, s, adm, port, mode, admin
        self.rnd = random.Random(seed); self.cl = []; self.n = n
        self.rnd_keys = [b"k%d" % i for i in range(10)] + [b"x" * 255, b"\0bin"]
        self.ids = []
    def conn(self, tcp=False, auth=True):
        c = Client(("127.0.0.1", self.port) if tcp else self.s.sockpath, timeout=90)
        if self.admin and auth: c.cmd("AUTH", "pw")
        self.cl.append(c); return c
    def sel(self, tcp=False):
        c = self.conn(tcp); c.cmd("SELECT", "r"); return c
    def key(self): return self.rnd.choice(self.ids) if self.mode == "seq" and self.ids else self.rnd.choice(self.rnd_keys)
    def put(self, c, v, key=None):
        if self.mode == "seq":
            r = c.cmd("SET", key if key is not None else (b"" if not self.ids or self.rnd.random() < .6 else self.rnd.choice(self.ids)), v)
            if isinstance(r, bytes) and len(r) == 8 and r not in self.ids: self.ids.append(r)
            return r
        return c.cmd("SET", key if key is not None else self.rnd.choice(self.rnd_keys), v)
    def fill(self, c, n=8, size=100):
        for i in range(n): self.put(c, b"%d" % i * (size // 2))

def st_connections(r):
    for i in range(12):
        c = r.conn(tcp=i % 2 == 0, auth=i % 3 == 0)
        if i % 4: c.cmd("PING")
        if i % 5 == 0: c.send("SET", b"half", b"x" * 100); c.raw(enc("SET", b"half", b"x" * 5000)[:2000])
        if i % 6 == 1: c.raw(b"*3\r\n$3\r\nSET\r\n$5")
        if i % 6 == 2: c.raw(b"*2\r\n$3\r\nGET\r\n$4000\r\nzz")
        if i % 6 == 3: c.raw(b"+bad\r\n")
        if i % 6 == 4: c.raw(b"*1025\r\n")
        if i % 6 == 5: c.raw(b"*2\r\n+bad\r\n")
        if i % 3 == 0: c.close()
def st_halfclosed(r):
    for i in range(8):
        c = r.conn(tcp=i % 2 == 0); c.cmd("PING")
        c.s.shutdown([socket.SHUT_WR, socket.SHUT_RDWR][i // 4]); r.adm.cmd("PING")
def st_reset(r):
    for i in range(8):
        c = r.conn(tcp=True); c.send("SET", b"", b"x"); c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); c.close()
def st_pending(r):
    """replies which cannot be delivered"""
    c = r.sel(); r.put(c, b"B" * 400000, key=b"big" if r.mode == "user" else b"")
    k = b"big" if r.mode == "user" else r.ids[0]
    for i in range(6):
        d = r.sel(tcp=i % 2 == 0)
        c12.send(d, b"".join(enc(*(["GET", k] if i % 3 else ["MGET", k, k])) for _ in range(30)))
        r.adm.cmd("PING")
        if i % 2: d.close()
def st_slow(r):
    """replies delivered in several parts"""
    c = r.sel(); r.put(c, b"B" * 500000, key=b"big" if r.mode == "user" else b"")
    k = b"big" if r.mode == "user" else r.ids[0]
    for _ in range(8): c.send("GET", k)
    c.send("INFO"); c.send("NSLIST")
    for _ in range(10): c.recv()
def st_waiting(r):
    for i in range(6):
        c = r.sel(); c.send("WAIT", "SET" if i % 2 else "*", "100" if i % 3 == 0 else "60000")
    c = r.sel(); r.put(c, b"x"); c.cmd("PING")
def st_mirror(r):
    m = [r.conn() for _ in range(3)]
    for c in m: c.cmd("MIRROR")
    c = r.sel(); r.fill(c, 6, 20000); c.cmd("GET", r.key())
    m[0].close()
    for _ in range(30): c.cmd("SET", b"" if r.mode == "seq" else b"zz", b"Z" * 40000)
def st_master(r):
    c = r.conn(); c.cmd("MASTER"); c.cmd("SELECT", "r", "77")
    for i in range(5): c.cmd("SET", b"" if r.mode == "seq" else b"m%d" % i, b"v%d" % i, "77")
    c.cmd("GET", b"m1", "77"); c.cmd("PING"); c.cmd("PING", "x" * 40); c.cmd("DEL", b"m1", "77")
def st_set(r):
    c = r.sel(); r.fill(c, 20)
    for k in (r.ids or r.rnd_keys)[:6]:
        for _ in range(2): c.cmd("SET", k, b"same value")      # the second one changes nothing
        c.cmd("SET", k, b"same valuf"); c.cmd("SET", k, b"")
    c.cmd("SET", b"", b"x"); c.cmd("SET", b"y" * 256, b"x"); c.cmd("SET", b"y" * 300, b"x"); c.cmd("SET", b"a"); c.cmd("SET", b"a", b"b", "1000"); c.cmd("SET", b"badid123", b"x"); c.cmd("SET", b"a", b"b", b"not a number")
    c.cmd("SET", b"a", b"b", b"1000", b"more")
def st_get(r):
    c = r.sel(); r.fill(c, 12)
    k = (r.ids or r.rnd_keys)
    for x in k[:6] + [b"missing", b"", b"q" * 255, b"q" * 256, b"\xff" * 8]:
        for cmd in ("GET", "EXISTS", "LENGTH", "KEYTIME", "CHECK", "KEYCUR", "HISTORY"): c.cmd(cmd, x)
    c.cmd("MGET", *k[:5]); c.cmd("MGET", b"missing", k[0]); c.cmd("MGET"); c.cmd("MGET", b"z" * 256)
    c.cmd("DEL", k[0])
    for cmd in ("GET", "EXISTS", "LENGTH", "KEYTIME", "CHECK", "KEYCUR", "HISTORY"): c.cmd(cmd, k[0])
    c.cmd("MGET", k[0], k[1])
def st_history(r):
    c = r.sel()
    k = b"h" if r.mode == "user" else r.put(c, b"first", key=b"")
    if isinstance(k, Err): return
    for i in range(5): c.cmd("SET", k, b"v%d" % i)
    cur = None
    for _ in range(8):
        h = c.cmd("HISTORY", k, cur) if cur else c.cmd("HISTORY", k)
        if not isinstance(h, list): break
        cur = h[0]
        if not cur: break
    c.cmd("HISTORY", k, b"short"); c.cmd("HISTORY", k, b"\xff" * 8); c.cmd("HISTORY", b"other", cur or b"\0" * 8); c.cmd("HISTORY"); c.cmd("HISTORY", b"h" * 256)
def st_scan(r):
    c = r.sel(); r.fill(c, 30)
    if r.mode == "user": c.cmd("NSJUMP"); r.fill(c, 10)
    for cmd in ("SCAN", "RSCAN", "SCANX"):
        cur = None
        for _ in range(60):
            a = c.cmd(cmd, cur) if cur else c.cmd(cmd)
            if not isinstance(a, list): break
            cur = a[0]
        c.cmd(cmd, b"bad"); c.cmd(cmd, b"\xff" * 17); c.cmd(cmd, b"\0" * 17)
        if cur: c.cmd(cmd, cur[:-1] + b"\xee")
    for p in (b"k", b"*", b"k*", b"", b"nothing"): c.cmd("KSCAN", p)
def st_empty(r):
    c = r.sel()
    for q in ("SCAN", "RSCAN", "DBSIZE", "NSLIST", "INFO", "TIME", "HOOKS", "PING", "AUTH", "NSJUMP", "NOPE", "WAIT", "SELECT", "NSINFO", "INDEX", "DATA", "FLUSH"): c.cmd(q)
    c.cmd("GET", b"nothing"); c.cmd("DEL", b"nothing"); c.cmd("KEYCUR", b"nothing"); c.cmd("KSCAN", b"z")
def st_del(r):
    c = r.sel(); r.fill(c, 12)
    for k in list(r.ids or r.rnd_keys): c.cmd("DEL", k); c.cmd("DEL", k)
    c.cmd("DEL", b"missing"); c.cmd("DEL", b"z" * 256); c.cmd("DEL"); c.cmd("DEL", b"a", "5"); r.fill(c, 6)
def st_jump(r):
    c = r.sel()
    for i in range(5): r.fill(c, 4); c.cmd("NSJUMP")
    for i in range(4): r.put(c, b"J" * 300000, key=(b"j%d" % i if r.mode == "user" else b""))
    for k in (r.ids or [b"j0", b"j1", b"k1"])[:6]: c.cmd("GET", k); c.cmd("CHECK", k)
def st_auth(r):
    for i in range(4):
        c = r.conn(auth=False)
        c.cmd("AUTH", "wrong"); c.cmd("AUTH", "CHALLENGE"); c.cmd("AUTH", "SECURE", "CHALLENGE"); c.cmd("AUTH", "CHALLENGE"); c.cmd("AUTH", "SECURE", "bad"); c.cmd("AUTH", "pw"); c.cmd("AUTH", "p" * 300); c.cmd("AUTH", "SECURE", "x" * 40)
        if i == 1: c.cmd("AUTH", "CHALLENGE")
    r.adm.cmd("NSSET", "r", "password", "secret"); r.adm.cmd("NSSET", "r", "password", "other")
    for i in range(4):
        c = r.conn(auth=i % 2 == 0)
        c.cmd("SELECT", "r"); c.cmd("SELECT", "r", "bad"); c.cmd("AUTH", "CHALLENGE"); c.cmd("SELECT", "r", "SECURE", "0" * 40); c.cmd("SELECT", "r", "SECURE", "bad"); c.cmd("SELECT", "r", "other"); c.cmd("SELECT", "nope"); c.cmd("SELECT", "n" * 200)
        for pw in ("bad", "other", "bad", "pw", "other"):       # right and wrong answers to real challenges
            for req in (["SELECT", "r", "SECURE"], ["AUTH", "SECURE"]):
                x = c.cmd("AUTH", "SECURE", "CHALLENGE")
                if not isinstance(x, bytes) and not isinstance(x, str): raise Violation("challenge", "AUTH SECURE CHALLENGE answered %s" % short(x))
                x = x.encode() if isinstance(x, str) else x
                x = c.cmd(*(req + [hashlib.sha1(x + b":" + pw.encode()).hexdigest()])); r.ctx.ev.hit("secure_granted" if x == "OK" else "secure_refused")
    r.adm.cmd("NSSET", "r", "password", "*")
def st_nsset(r):
    a = r.adm
    for p, v in (("maxsize", "5000"), ("maxsize", "nope"), ("public", "0"), ("public", "1"), ("password", "a" * 60), ("password", "b" * 64), ("password", "*"), ("worm", "1"), ("worm", "0"), ("mode", "user"), ("mode", "seq"), ("mode", r.mode), ("lock", "1"), ("lock", "0"), ("freeze", "1"), ("freeze", "0"), ("bad", "1"), ("maxsize", "0")):
        a.cmd("NSSET", "r", p, v)
    a.cmd("NSSET", "missing", "worm", "1"); a.cmd("NSSET", "r"); a.cmd("NSSET", "default", "password", "x"); a.cmd("NSINFO", "r"); a.cmd("NSINFO", "missing"); a.cmd("NSINFO", "m" * 200); a.cmd("NSLIST")
def st_namespaces(r):
    a = r.adm
    for i in range(6):
        a.cmd("NSNEW", "t%d" % i); a.cmd("NSNEW", "t%d" % i); a.cmd("NSSET", "t%d" % i, "password", "pw%d" % i); a.cmd("NSSET", "t%d" % i, "mode", r.mode)
    for i in range(6):
        c = r.conn(); c.cmd("SELECT", "t%d" % i, "pw%d" % i)
        for n in range(6): c.cmd("SET", b"" if r.mode == "seq" else b"k%d" % n, b"v" * 50)
        if i % 2: c.send("WAIT", "SET", "60000")
        if i % 3 == 0: c.cmd("NSJUMP")
    for i in range(6): a.cmd("NSDEL", "t%d" % i); a.cmd("NSDEL", "t%d" % i)
    for c in r.cl[-6:]: c12.send(c, enc("PING"))
    a.cmd("NSDEL", "default"); a.cmd("NSNEW", "b/ad"); a.cmd("NSNEW", ""); a.cmd("NSNEW", "n" * 200); a.cmd("NSNEW", "default")
def st_reload(r):
    c = r.sel(); r.fill(c, 12); c.cmd("NSJUMP"); r.fill(c, 6); c.cmd("DEL", (r.ids or r.rnd_keys)[0])
    for _ in range(3): r.adm.cmd("RELOAD", "r"); c.cmd("GET", r.key())
    r.adm.cmd("RELOAD", "missing"); r.adm.cmd("RELOAD")
def st_flush(r):
    r.adm.cmd("NSSET", "r", "password", "p"); r.adm.cmd("NSSET", "r", "public", "0")
    c = r.conn(); c.cmd("SELECT", "r", "p")
    for _ in range(3): r.ids.clear(); r.fill(c, 8); c.cmd("NSJUMP"); r.fill(c, 3); c.cmd("FLUSH")
    r.ids.clear(); r.adm.cmd("NSSET", "r", "password", "*"); r.adm.cmd("FLUSH")
def st_dirty(r):
    c = r.sel(); r.fill(c, 6)
    for _ in range(4): c.cmd("INDEX", "DIRTY"); c.cmd("NSJUMP"); r.fill(c, 3)
    c.cmd("INDEX", "DIRTY", "RESET"); c.cmd("INDEX", "DIRTY", "BAD"); c.cmd("INDEX", "X"); c.cmd("INDEX", "DIRTY")
def st_raw(r):
    c = r.sel(); r.fill(c, 6); r.put(c, b""); c.cmd("DEL", (r.ids or r.rnd_keys)[0])
    off = 26
    for o in list(range(26, 60)) + [0, 5, 100000, 1 << 31, 1 << 40]: c.cmd("DATA", "RAW", "0", str(o))
    c.cmd("DATA", "RAW", "9", "26"); c.cmd("DATA", "RAW", "x", "y"); c.cmd("DATA", "RAW"); c.cmd("DATA", "BAD")
    off = 26
    for _ in range(12):       # follows the entries
        a = c.cmd("DATA", "RAW", "0", str(off))
        if not isinstance(a, list): break
        off += 18 + len(a[0] or b"") + len(a[5] or b"")
def st_limits(r):
    c = r.sel(); r.fill(c, 6); a = r.adm
    a.cmd("NSSET", "r", "maxsize", "700")
    for i in range(8): c.cmd("SET", b"" if r.mode == "seq" else b"l%d" % i, b"L" * 200)
    a.cmd("NSSET", "r", "maxsize", "0"); a.cmd("NSSET", "r", "worm", "1"); k = r.key(); c.cmd("SET", k, b"new value"); c.cmd("SET", k, b"new value"); c.cmd("DEL", k); a.cmd("NSSET", "r", "worm", "0")
    for p in ("lock", "freeze"):
        a.cmd("NSSET", "r", p, "1"); c.cmd("SET", k, b"q"); c.cmd("DEL", k); c.cmd("GET", k); c.cmd("MGET", k, k); c.cmd("SCAN"); c.cmd("RSCAN"); c.cmd("HISTORY", k); c.cmd("KEYCUR", k); c.cmd("FLUSH"); a.cmd("NSSET", "r", p, "0")
def st_faults(r):
    """failing writes, full disk, unreadable files"""
    c = r.sel(); r.fill(c, 8); ctl = r.s.ctl
    for n in range(1, 7):
        for e in (errno.ENOSPC, errno.EIO, 0):
            ctl.set(fail_errno=e, fail_count=1, short_len=5, fail_at=ctl.get("events") + n); c.cmd("SET", b"" if r.mode == "seq" else b"f%d" % n, b"fault"); c.cmd("DEL", r.key()); ctl.set(fail_at=0)
    for n in range(1, 6):
        ctl.set(fail_errno=errno.ENOSPC, fail_count=3, fail_at=ctl.get("events") + n); c.cmd("NSJUMP"); ctl.set(fail_at=0)
    for n in range(1, 4):
        for q in (["GET", r.key()], ["HISTORY", r.key()], ["SCAN"], ["RSCAN"], ["CHECK", r.key()], ["MGET", r.key(), r.key()], ["KEYCUR", r.key()], ["DATA", "RAW", "0", "26"], ["SET", r.key(), b"other %d" % n], ["DEL", r.key()]):
            ctl.set(read_errno=errno.EIO, read_fail_count=1, read_fail_at=ctl.get("reads") + n); c.cmd(*q); ctl.set(read_fail_at=0)
    ctl.set(erofs=3); c.cmd("SET", b"" if r.mode == "seq" else b"ro", b"x"); c.cmd("DEL", r.key()); c.cmd("NSJUMP"); ctl.set(erofs=0)
def st_nsfaults(r):
    """creations, removals and changes of namespaces which fail"""
    a, ctl = r.adm, r.s.ctl
    for n in range(1, 14):
        ctl.set(fail_errno=errno.ENOSPC, fail_count=1, fail_at=ctl.get("events") + n); a.cmd("NSNEW", "f%d" % n); ctl.set(fail_at=0)
        ctl.set(fail_errno=errno.EIO, fail_count=1, fail_at=ctl.get("events") + n % 5 + 1); a.cmd("NSSET", "r", "worm", str(n % 2)); ctl.set(fail_at=0); a.cmd("NSSET", "r", "worm", "0")
        a.cmd("NSDEL", "f%d" % n)
    ctl.set(erofs=3); a.cmd("NSNEW", "ro"); a.cmd("NSSET", "r", "public", "0"); ctl.set(erofs=0); a.cmd("NSDEL", "ro")
def st_hooks(r):
    """hooks are only there with --hook; the processes they start are collected"""
    a = r.adm
    for i in range(4): a.cmd("NSNEW", "h%d" % i); a.cmd("NSSET", "h%d" % i, "maxsize", "5000"); a.cmd("RELOAD", "h%d" % i); a.cmd("HOOKS"); a.cmd("NSDEL", "h%d" % i)
    c = r.sel(); c.cmd("NSJUMP"); c.cmd("NSJUMP")
def st_hostile(r):
    """arbitrary requests, the same in every round"""
    g = c12.Gen(random.Random(r.rnd.getrandbits(30)))
    for _ in range(12):
        p = [x for x in g.program() if x[0] != "sleep"]
        c12.play(Shim(r), g, [("send", i, ([["AUTH", "pw"]] if r.admin else []) + [["SELECT", "r"]]) for i in sorted({x[1] for x in p})] + p)
    a = r.adm
    for n in ("a", "b", "c", "d", "mm", "x" * 127, "x" * 128): a.cmd("NSDEL", n)
    for n in ("default", "r"):
        for p in ("lock", "freeze"): a.cmd("NSSET", n, p, "0")
    for n in [x for x in a.cmd("NSLIST") if x not in (b"default", b"r")]: a.cmd("NSDEL", n)

class Shim:
    def __init__(self, r): self.s, self.ctrl, self.stops = r.s, r.adm, ""

STEPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("st_")}

def one_round(ctx, s, adm, port, sp, seed, steps, n, admin):
    r = R(ctx, s, adm, port, sp["mode"], seed, admin, n)
    v = adm.cmd("NSNEW", "r")
    if isinstance(v, Err): raise Violation("nsnew", "NSNEW at the beginning of a round answered %s" % short(v))
    if sp["mode"] == "seq": adm.cmd("NSSET", "r", "mode", "seq")
    for k in steps:
        try: STEPS[k](r)
        except Closed:
            if not s.alive(): raise
        ctx.ev.hit("steps"); ctx.ev.hit("step_" + k)
    for c in r.cl: c.close()
    for p in ("lock", "freeze"): adm.cmd("NSSET", "r", p, "0")
    v = adm.cmd("NSDEL", "r")
    if isinstance(v, Err): raise Violation("nsdel", "NSDEL at the end of a round answered %s" % short(v))

def run_round(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    steps = sp["steps"] if sp["steps"] != "random" else [rnd.choice(sorted(STEPS)) for _ in range(rnd.randint(3, 7))]
    args = list(sp["args"])
    if "hooks" in steps and "--hook" not in args: args += ["--hook", "/bin/true"]
    with socket.socket() as q: q.bind(("127.0.0.1", 0)); port = q.getsockname()[1]
    base = ctx.sub("srv"); amap = Alloc(os.path.join(base, "alloc"))
    admin = "--admin" in args
    s = ctx.server("track", base, data=os.path.join(base, "data"), index=os.path.join(base, "index"), args=args + ["--dualnet", "--listen", "127.0.0.1", "--port", str(port)], shim=True, env={"ZALLOC_MAP": amap.path}, datasize=600000)
    s.start(); adm = s.client(timeout=90)
    if admin: adm.cmd("AUTH", "pw")
    listeners = 2
    seed = rnd.getrandbits(40)
    hist, nfd = [], []
    for n in range(sp["rounds"]):
        one_round(ctx, s, adm, port, sp, seed, steps, n, admin)
        nns = len(adm.cmd("NSLIST"))
        nfd.append(audit(s, 1, nns, listeners, "after a round of %s" % "+".join(steps), ctx))
        if "--hook" in args:
            # finished hooks are listed for a minute
            time.sleep(.25); s.ctl.set(time_off=(n + 1) * 100); time.sleep(.45); adm.cmd("PING")
            left = adm.cmd("HOOKS")
            for _ in range(30):
                if not isinstance(left, list) or not left: break
                time.sleep(.2); s.ctl.set(time_off=s.ctl.get("time_off") + 70); left = adm.cmd("HOOKS")
            if n: ctx.ev.hit("hooks_expired")
        adm.cmd("PING"); hist.append(amap.sites())
        ctx.ev.hit("rounds"); ctx.ev.hit("evaluations")
    if not hist[-1] or sum(x[2] for x in hist[-1].values()) < 50: raise RuntimeError("the allocation monitor saw nothing")
    ctx.ev.hit("allocations_seen", sum(x[2] for x in hist[-1].values())); ctx.ev.hit("sites_seen", len(hist[-1]))
    bad = []
    for k in hist[-1]:
        l = [h.get(k, (0, 0, 0)) for h in hist]
        if all(b[0] > a[0] for a, b in zip(l[-6:], l[-5:])): bad.append((k, "%d allocations per round" % (l[-1][0] - l[-2][0])))
        elif all(b[1] >= a[1] + 64 for a, b in zip(l[-6:], l[-5:])): bad.append((k, "%d bytes per round" % (l[-1][1] - l[-2][1])))
    if bad:
        exe = os.path.join(s.build, "zdb")
        txt = []
        for (a, b), what in bad[:6]:
            w = where(exe, [a, b]); txt.append("%s, from %s: %s" % (w[0], w[1], what))
        raise Violation("growth:" + txt[0].split(" ")[0], "memory grows with every identical round of %s: %s" % ("+".join(steps), "; ".join(txt)))
    if all(b > a for a, b in zip(nfd[-6:], nfd[-5:])): raise Violation("fd-growth", "descriptors grow with every round: %s" % nfd)
    ctx.distinct.add("%s/%s/%s" % ("+".join(steps), sp["mode"], " ".join(sp["args"])))
    ctx.sample = {"steps": steps, "live_allocations_per_round": [sum(x[0] for x in h.values()) for h in hist], "descriptors": nfd}
    adm.close(); s.stop("STOP")

# ------------------------------------------------------------------ LeakSanitizer

def lsan_usable(ctx):
    """LeakSanitizer needs to stop its own process, some sandboxes forbid it"""
    d = ctx.sub("probe"); src = os.path.join(d, "p.c"); exe = os.path.join(d, "p")
    with open(src, "w") as f: f.write("#include <stdlib.h>\nvoid *volatile p; int main(void) { p = malloc(77); p = 0; return 0; }\n")
    subprocess.run(["gcc", "-fsanitize=address", "-o", exe, src], check=True)
    r = subprocess.run([exe], env={"ASAN_OPTIONS": "detect_leaks=1", "LSAN_OPTIONS": "exitcode=78", "PATH": os.environ.get("PATH", "")}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 78

def run_lsan(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    usable = lsan_usable(ctx)
    ctx.ev.hit("lsan_usable" if usable else "lsan_unusable")
    args = ["--hook", "/bin/true"] if sp["hook"] else []
    w = World(ctx, args, mode=sp["mode"], nkeys=10, shim=sp["faults"], leaks=usable).start()
    w.nsnew("w1", None if sp["mode"] else "seq"); w.nsnew("w2")
    g = c12.Gen(rnd); nb = 0
    for n in range(sp["ops"]):
        x = rnd.random()
        if x < .01: w.reload(rnd.choice(list(w.ns)))
        elif x < .02: nb += 1; w.nsnew("n%d" % nb)
        elif x < .03 and len(w.ns) > 4: w.nsdel(rnd.choice([k for k in w.ns if k[0] in "n"] or ["w2"])) if any(k[0] == "n" for k in w.ns) else None
        elif x < .04: w.jump(rnd.choice(list(w.ns)))
        else: w.step(ops=dict(scan=.5, rscan=.5, cursor=.5, history=.7, nsinfo=.3))
        if n % 60 == 59:
            nc = len([c for l in w.cl.values() for c in l]) + 1
            audit(w.s, nc, len(w.ns), 1, "during a history", ctx)
        ctx.ev.hit("evaluations")
    w.verify_all()
    # from now on the model does not follow
    class H: pass
    h = H(); h.s = w.s; h.ctrl = w.adm; h.stops = ""
    for n in range(sp["hostile"]):
        if sp["faults"] and rnd.random() < .6:
            ctl = w.s.ctl; k = rnd.randrange(3)
            if k == 0: ctl.set(fail_errno=rnd.choice([errno.ENOSPC, errno.EIO, 0]), short_len=rnd.randrange(1, 30), fail_count=rnd.choice([1, 1, 3]), fail_at=ctl.get("events") + rnd.randrange(1, 25))
            elif k == 1: ctl.set(read_errno=rnd.choice([0, errno.EIO]), read_fail_count=1, read_fail_at=ctl.get("reads") + rnd.randrange(1, 25))
            else: ctl.set(erofs=rnd.choice([1, 2, 3]))
            ctx.ev.hit("fault_programs")
        c12.play(h, g, g.program())
        if sp["faults"] and w.s.proc.poll() == 1 and not w.s.report():
            ctx.ev.hit("failstops"); return      # the loader (RELOAD) ends the process when it cannot read an index: no STOP to look at
        if sp["faults"]: w.s.ctl.set(fail_at=0, read_fail_at=0, erofs=0)
        if rnd.random() < .1: c12.play(h, g, [("send", 0, [["NSSET", x, y, "0"] for x in ("default", "a", "b", "w1") for y in ("lock", "freeze")])])
        ctx.ev.hit("hostile_programs")
    if not w.s.alive(): w.s.check_dead(expected=()); return
    # connections in various states at the stop
    keep = []
    for i in range(8):
        c = w.s.client(); keep.append(c)
        c12.send(c, [b"", enc("WAIT", "SET", "100000"), enc("MIRROR"), enc("SET", b"h", b"x" * 9000)[:4000], enc("AUTH", "CHALLENGE"), b"".join(enc("GET", b"bigone") for _ in range(20)), b"*3\r\n$3\r\nSET\r\n", enc("SELECT", "w2")][i])
    big = w.s.client(); big.cmd("SET", b"bigone", b"B" * 300000); c12.send(keep[5], b"".join(enc("GET", b"bigone") for _ in range(20)))
    for n in range(3): big.cmd("PING")
    c = Client(w.s.sockpath, timeout=120); c.send("STOP")
    try: c.recv()
    except (Closed, Timeout): pass
    try: w.s.proc.wait(120)
    except subprocess.TimeoutExpired: raise Timeout("no end after STOP")
    c.close(); w.s.close_clients()
    out = w.s.output()
    if "LeakSanitizer has encountered a fatal error" in out: ctx.ev.hit("lsan_failed"); return
    w.s.check_dead(expected=(0,))
    if usable: ctx.ev.hit("lsan_stops")
    ctx.distinct.add("lsan/%s/%d/%d" % (sp["mode"], sp["faults"], sp["hook"]))
    ctx.sample = {"mode": sp["mode"], "lsan": usable, "namespaces": len(w.ns)}

def run_case(ctx): (run_round if ctx.spec["kind"] == "round" else run_lsan)(ctx)

def finish(ev, tier):
    out = ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("rounds", 300), ("allocations_seen", 20000), ("descriptor_audits", 300), ("hostile_programs", 300), ("secure_granted", 20), ("secure_refused", 20)) if ev.get(k, 0) < n]
    if ev.get("lsan_usable") and not ev.get("lsan_stops"): out.append("no history was ended by a leak-checked stop")
    return out
