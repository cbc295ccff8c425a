"""Reference model of the database and a driver which executes commands on the
real server and compares every reply with the model."""
import struct, time, random
from .resp import Err, Status, enc, Closed, Timeout, Protocol
from . import gen

# time(2) may lag behind the precise clock by one kernel tick
OFF = [0]      # seconds added to the clock of the server
def now0(): return int(time.time() + OFF[0] - 0.1)
def now1(): return int(time.time() + OFF[0] + 0.05)

class Violation(Exception):
    def __init__(self, key, msg, **detail):
        super().__init__("%s: %s" % (key, msg))
        self.key, self.msg, self.detail = key, msg, detail

def short(x, n=60):
    if isinstance(x, bytes) and len(x) > n: return "%r..(%d bytes, crc %08x)" % (x[:24], len(x), gen.crc(x))
    r = repr(x)
    return r if len(r) < 4 * n else r[:4 * n] + ".."

class Ver:
    __slots__ = ("value", "lo", "hi", "pos")
    def __init__(self, value, lo, hi, pos):
        self.value, self.lo, self.hi, self.pos = value, lo, hi, pos
    def ts_ok(self, t):
        if not (self.lo <= t <= self.hi): return False
        self.lo = self.hi = t
        return True

class NS:
    """one namespace. live: key -> list of versions (oldest first)."""
    def __init__(self, name, mode="user"):
        self.name, self.mode = name, mode
        self.live = {}
        self.pos = 0                # order of writes
        self.fresh = True           # never held an object
        self.next_min = 0           # seq: lower bound of the next id
        self.issued = []            # seq: all ids ever issued
        self.dead = set()           # keys that once existed
        self.maxsize, self.worm, self.public, self.password, self.locked = 0, False, True, None, 0
        self.cursors = []           # (cursor bytes, position) observed
        self.exists = True
    def size(self): return sum(len(v[-1].value) for v in self.live.values())
    def order(self):
        """keys in scan order"""
        if self.mode == "seq": return sorted(self.live, key=lambda k: struct.unpack("<Q", k)[0])
        return sorted(self.live, key=lambda k: self.live[k][-1].pos)
    def cpos(self, key):
        if self.mode == "seq": return struct.unpack("<Q", key)[0]
        return self.live[key][-1].pos
    def reset(self):
        """flush"""
        self.live, self.pos, self.fresh, self.next_min, self.issued, self.dead, self.cursors = {}, 0, True, 0, [], set(), []
    def copy(self):
        n = NS(self.name, self.mode)
        n.__dict__.update(self.__dict__)
        n.live = {k: list(v) for k, v in self.live.items()}
        n.issued, n.dead, n.cursors = list(self.issued), set(self.dead), list(self.cursors)
        return n

class Counter(dict):
    def hit(self, k, n=1): self[k] = self.get(k, 0) + n

class Driver:
    """executes operations through client c on namespace model ns (already selected)"""
    def __init__(self, ev=None):
        self.ev = ev if ev is not None else Counter()
        self.trace = []
    def note(self, *a):
        self.trace.append(a)
        if len(self.trace) > 4000: del self.trace[:2000]

    def bad(self, key, msg, **d):
        d["trace_tail"] = [short(t) for t in self.trace[-12:]]
        raise Violation(key, msg, **d)

    # ---- writes
    def set(self, c, ns, key, val, ts=None):
        """returns the key concerned (new id in sequential mode) or None"""
        self.note("SET", ns.name, key, len(val), gen.crc(val))
        t0 = now0()
        r = c.cmd("SET", key, val) if ts is None else c.cmd("SET", key, val, ts)
        t1 = now1()
        if ts is not None: t0 = t1 = ts & 0xffffffff
        return self.set_reply(ns, key, val, r, t0, t1)

    def set_reply(self, ns, key, val, r, t0, t1):
        self.ev.hit("set")
        if ns.mode == "seq":
            if key == b"":
                if not (isinstance(r, bytes) and len(r) == 8): self.bad("set-seq-new", "expected an 8 byte id, got %s" % short(r))
                i = struct.unpack("<Q", r)[0]
                if ns.issued and i <= ns.issued[-1]: self.bad("set-seq-id", "id %d issued after %d" % (i, ns.issued[-1]))
                if r in ns.live: self.bad("set-seq-id", "id %d already live" % i)
                ns.issued.append(i); ns.pos += 1; ns.fresh = False
                ns.live[r] = [Ver(val, t0, t1, ns.pos)]
                self.ev.hit("seq_insert")
                return r
            if key not in ns.live:
                if not isinstance(r, Err): self.bad("set-seq-unknown", "SET on key %s which is no live id answered %s" % (short(key), short(r)))
                self.ev.hit("seq_refused")
                return None
        cur = ns.live.get(key)
        if cur and cur[-1].value == val:
            if r is not None: self.bad("set-same", "SET of identical bytes on %s answered %s, nil expected" % (short(key), short(r)))
            self.ev.hit("set_same")
            return None
        if r != key or isinstance(r, Err):
            self.bad("set-reply", "SET %s (%d bytes) answered %s, the key expected" % (short(key), len(val), short(r)))
        ns.pos += 1; ns.fresh = False
        v = Ver(val, t0, t1, ns.pos)
        if cur:
            cur.append(v); self.ev.hit("overwrite")
            if len(cur[-2].value) >= 5 and len(cur[-2].value) == len(val) and gen.crc(cur[-2].value) == gen.crc(val): self.ev.hit("overwrite_same_crc")
        else:
            if key in ns.dead: self.ev.hit("recreate")
            ns.live[key] = [v]; self.ev.hit("insert")
        return key

    def delete(self, c, ns, key, ts=None):
        self.note("DEL", ns.name, key)
        r = c.cmd("DEL", key) if ts is None else c.cmd("DEL", key, ts)
        return self.del_reply(ns, key, r)

    def del_reply(self, ns, key, r):
        if key in ns.live:
            if not (isinstance(r, Status) and r == "OK"): self.bad("del-live", "DEL of live key %s answered %s" % (short(key), short(r)))
            del ns.live[key]; ns.dead.add(key); ns.pos += 1
            self.ev.hit("del")
            return True
        if not isinstance(r, Err): self.bad("del-missing", "DEL of missing key %s answered %s" % (short(key), short(r)))
        self.ev.hit("del_missing")
        return False

    # ---- reads
    READS = ("GET", "EXISTS", "LENGTH", "KEYTIME", "CHECK")
    def check_read(self, ns, op, key, r):
        v = ns.live.get(key)
        self.ev.hit("read_hit" if v else "read_miss")
        if v is None or key == b"":
            if key == b"":
                ok = r is None or isinstance(r, Err) or (op == "EXISTS" and r == 0)
            else:
                ok = (r == 0 and not isinstance(r, bool)) if op == "EXISTS" else r is None
            if not ok:
                self.bad("read-missing-" + op, "%s of key %s which does not exist answered %s" % (op, short(key), short(r)), ns=ns.name)
            return
        v = v[-1]
        if op == "GET": ok = isinstance(r, bytes) and r == v.value
        elif op == "EXISTS": ok = r == 1
        elif op == "LENGTH": ok = r == len(v.value)
        elif op == "KEYTIME": ok = isinstance(r, int) and v.ts_ok(r)
        elif op == "CHECK": ok = r == 1
        if not ok:
            exp = {"GET": v.value, "EXISTS": 1, "LENGTH": len(v.value), "KEYTIME": (v.lo, v.hi), "CHECK": 1}[op]
            self.bad("read-" + op, "%s %s answered %s, expected %s" % (op, short(key), short(r), short(exp)), ns=ns.name)

    def read(self, c, ns, key, op="GET"):
        self.note(op, ns.name, key)
        self.check_read(ns, op, key, c.cmd(op, key))

    def mget(self, c, ns, keys):
        self.note("MGET", ns.name, len(keys))
        r = c.cmd("MGET", *keys)
        if not isinstance(r, list) or len(r) != len(keys): self.bad("mget-shape", "MGET of %d keys answered %s" % (len(keys), short(r)))
        for k, x in zip(keys, r):
            if isinstance(x, Err): self.bad("mget-item", "MGET item %s answered %s" % (short(k), short(x)))
            self.check_read(ns, "GET", k, x)
        self.ev.hit("mget")

    def read_all(self, c, ns, extra=(), ops=READS):
        """reads every live and dead key with every read command, pipelined"""
        keys = list(ns.live) + [k for k in ns.dead if k not in ns.live] + [k for k in extra if k not in ns.live]
        batch = []
        size = 0
        def flush():
            if not batch: return
            c.raw(b"".join(enc(o, k) for o, k in batch))
            for o, k in batch: self.check_read(ns, o, k, c.recv())
            batch.clear()
        for k in keys:
            for o in ops:
                batch.append((o, k))
            size += len(ns.live[k][-1].value) if k in ns.live else 0
            if len(batch) >= 60 or size > 1 << 20: flush(); size = 0
        flush()

    # ---- scans
    def walk(self, c, cmd="SCAN", cursor=None, limit=100000, collect=None):
        """follows a scan to its end; returns [(key, len, ts)]"""
        out = []
        steps = 0
        while True:
            r = c.cmd(cmd) if cursor is None else c.cmd(cmd, cursor)
            steps += 1
            if isinstance(r, Err):
                if r.startswith("No more data"): break
                self.bad("scan-error", "%s answered %s after %d entries" % (cmd, short(r), len(out)))
            if not (isinstance(r, list) and len(r) == 2 and isinstance(r[0], bytes) and isinstance(r[1], list) and r[1]):
                self.bad("scan-shape", "%s answered %s" % (cmd, short(r)))
            for e in r[1]:
                if not (isinstance(e, list) and len(e) == 3 and isinstance(e[0], bytes)): self.bad("scan-shape", "%s entry %s" % (cmd, short(e)))
                out.append((e[0], e[1], e[2]))
            cursor = r[0]
            if collect is not None: collect.append((cursor, out[-1][0]))
            if len(out) > limit: self.bad("scan-endless", "%s returned more than %d entries" % (cmd, limit))
        self.ev.hit("scan_walks"); self.ev.hit("scan_replies", steps); self.ev.hit("scan_entries", len(out))
        return out

    def check_scan(self, c, ns, cmd="SCAN", cursor=None, pos=None, note=""):
        """full walk, or a walk from a cursor taken at position pos"""
        want = ns.order()
        if cmd == "RSCAN":
            want = want[::-1]
            if cursor is not None: want = [k for k in want if ns.cpos(k) < pos]
        elif cursor is not None:
            want = [k for k in want if ns.cpos(k) > pos]
        col = []
        self.note(cmd, ns.name, cursor, note)
        got = self.walk(c, cmd, cursor, limit=len(want) + 50, collect=col)
        gk = [g[0] for g in got]
        if gk != want:
            miss = [k for k in want if k not in gk]; extra = [k for k in gk if k not in want]
            dup = len(gk) != len(set(gk))
            kind = "missing" if miss else "extra" if extra else "duplicate" if dup else "order"
            self.bad("scan-%s-%s%s" % (cmd, kind, "-cursor" if cursor else ""),
                     "%s%s returned %d entries, %d expected; missing %s extra %s dup %s %s" % (cmd, " from a cursor" if cursor else "",
                        len(gk), len(want), short(miss[:4]), short(extra[:4]), dup, note), ns=ns.name)
        for k, l, t in got:
            v = ns.live[k][-1]
            if l != len(v.value): self.bad("scan-size", "%s gives size %s for %s, expected %d" % (cmd, l, short(k), len(v.value)))
            if not v.ts_ok(t): self.bad("scan-time", "%s gives time %s for %s, expected %s" % (cmd, t, short(k), (v.lo, v.hi)))
        for cur, k in col: ns.cursors.append((cur, ns.cpos(k)))
        return got

    def keycur(self, c, ns, key):
        self.note("KEYCUR", ns.name, key)
        r = c.cmd("KEYCUR", key)
        if key not in ns.live:
            if not isinstance(r, Err): self.bad("keycur-missing", "KEYCUR of missing key %s answered %s" % (short(key), short(r)))
            return None
        if not isinstance(r, bytes): self.bad("keycur", "KEYCUR of live key %s answered %s" % (short(key), short(r)))
        ns.cursors.append((r, ns.cpos(key)))
        self.ev.hit("keycur")
        return r

    def kscan(self, c, ns, prefix):
        """debug builds: all live keys starting with prefix, in no particular order"""
        self.note("KSCAN", ns.name, prefix)
        r = c.cmd("KSCAN", prefix)
        want = sorted(k for k in ns.live if k.startswith(prefix))
        if isinstance(r, Err):
            if want: self.bad("kscan", "KSCAN %s answered %s, %d keys match" % (short(prefix), short(r), len(want)))
            return
        if not (isinstance(r, list) and len(r) == 2 and isinstance(r[1], list)) or sorted(r[1]) != want:
            self.bad("kscan", "KSCAN %s answered %s, expected %s" % (short(prefix), short(r), short(want)))
        self.ev.hit("kscan")

    # ---- history
    def history(self, c, ns, key):
        self.note("HISTORY", ns.name, key)
        r = c.cmd("HISTORY", key)
        vs = ns.live.get(key)
        if vs is None:
            if not isinstance(r, Err): self.bad("history-missing", "HISTORY of missing key %s answered %s" % (short(key), short(r)))
            self.ev.hit("history_missing")
            return []
        out = []
        n = len(vs)
        ids = []
        while True:
            if not (isinstance(r, list) and len(r) == 3 and isinstance(r[2], bytes) and isinstance(r[1], bytes)):
                self.bad("history-shape", "HISTORY %s step %d of %d answered %s" % (short(key), len(out), n, short(r)))
            out.append(r)
            i = len(out)
            if i > n: self.bad("history-too-long", "HISTORY %s returned more than the %d versions written since creation; extra value %s" % (short(key), n, short(r[2])))
            v = vs[n - i]
            if r[2] != v.value: self.bad("history-value", "HISTORY %s version -%d is %s, expected %s" % (short(key), i - 1, short(r[2]), short(v.value)))
            try: t = int(r[1])
            except ValueError: self.bad("history-shape", "timestamp %s" % short(r[1]))
            if not v.ts_ok(t): self.bad("history-time", "HISTORY %s version -%d time %d, expected %s" % (short(key), i - 1, t, (v.lo, v.hi)))
            if r[0] is None: break
            ids.append(r[0])
            r = c.cmd("HISTORY", key, r[0])
        if len(out) != n: self.bad("history-short", "HISTORY %s returned %d versions, %d were written since creation" % (short(key), len(out), n))
        self.ev.hit("history_walks"); self.ev.hit("history_versions", n)
        return ids

    # ---- namespaces
    def nsinfo(self, c, name):
        r = c.cmd("NSINFO", name)
        if not isinstance(r, bytes): self.bad("nsinfo", "NSINFO %s answered %s" % (name, short(r)))
        d = {}
        for l in r.decode("latin-1").split("\n"):
            if ": " in l:
                k, v = l.split(": ", 1); d[k] = v
        return d

    def check_nsinfo(self, c, ns, full=True):
        d = self.nsinfo(c, ns.name)
        want = {"name": ns.name if isinstance(ns.name, str) else ns.name.decode("latin-1"), "entries": str(len(ns.live)), "data_size_bytes": str(ns.size())}
        if full:
            want.update({"public": "yes" if ns.public else "no", "worm": "yes" if ns.worm else "no", "locked": "yes" if ns.locked else "no",
                         "password": "yes" if ns.password else "no", "data_limits_bytes": str(ns.maxsize),
                         "mode": "userkey" if ns.mode == "user" else "sequential"})
        for k, v in want.items():
            if d.get(k) != v: self.bad("nsinfo-" + k, "NSINFO %s: %s is %s, expected %s" % (ns.name, k, d.get(k), v))
        self.ev.hit("nsinfo")
        return d

    def check_dbsize(self, c, ns):
        r = c.cmd("DBSIZE")
        if r != len(ns.live): self.bad("dbsize", "DBSIZE answered %s with %d live keys" % (short(r), len(ns.live)))

    def verify(self, c, ns, scans=True, hist=True, info=True, extra=()):
        """compares everything observable of the namespace c is attached to"""
        self.read_all(c, ns, extra)
        if scans:
            self.check_scan(c, ns, "SCAN"); self.check_scan(c, ns, "RSCAN")
        if hist:
            for k in list(ns.live): self.history(c, ns, k)
        if info: self.check_nsinfo(c, ns)

    def select(self, c, ns, *pw):
        r = c.cmd("SELECT", ns.name, *pw)
        if r != "OK": self.bad("select", "SELECT %s answered %s" % (ns.name, short(r)))
