"""Random histories over several namespaces, driven against the real server with the reference model alongside."""
import struct, time
from . import gen
from .model import NS, Driver, Violation, short
from .resp import Err, enc

class World:
    """server + model of all its namespaces; every operation is checked against the model"""
    def __init__(self, ctx, args=(), variant="asan", datasize=None, mode=None, admin=None, prof="small", nkeys=14, base=None, **kw):
        self.ctx, self.rnd, self.ev = ctx, ctx.rnd, ctx.ev
        a = list(args)
        if mode: a += ["--mode", mode]
        if admin: a += ["--admin", admin]
        self.admin, self.defmode = admin, "seq" if mode == "seq" else "user"
        self.fixedmode = mode
        self.datasize = datasize or self.rnd.choice([524289, 524289, 600000])
        self.s = ctx.server(variant, base, args=a, datasize=self.datasize, **kw)
        self.ns = {}
        self.d = Driver(ctx.ev)
        self.cl = {}
        self.prof, self.nkeys = prof, nkeys
        self.pools = {}
        self.uniq = 0
        self.jumps = 0
        self.restarts = 0
        self.steps = 0
        self.custom = True         # timestamps given by the client
        self.add_model("default", self.defmode)

    def add_model(self, name, mode=None):
        n = NS(name, mode or self.defmode)
        self.ns[name] = n
        self.pools[name] = gen.key_pool(self.rnd, self.nkeys) if n.mode == "user" else []
        return n

    def start(self):
        self.s.start(); self.attach(); return self

    def conn(self):
        c = self.s.client()
        if self.admin:
            r = c.cmd("AUTH", self.admin)
            if r != "OK": self.d.bad("auth", "AUTH answered %s" % short(r))
        return c

    def attach(self):
        """one administrative connection and two connections per namespace"""
        self.cl = {}
        self.adm = self.conn()
        for name in self.ns: self.join(name)

    def join(self, name, n=2):
        l = self.cl.setdefault(name, [])
        while len(l) < n:
            c = self.conn()
            self.select(c, name)
            l.append(c)

    def select(self, c, name):
        m = self.ns[name]
        r = c.cmd("SELECT", name, m.password) if m.password else c.cmd("SELECT", name)
        if r != "OK": self.d.bad("select", "SELECT %s answered %s" % (name, short(r)))

    def c(self, name): return self.rnd.choice(self.cl[name])

    def nsnew(self, name, mode=None):
        r = self.adm.cmd("NSNEW", name)
        if r != "OK": self.d.bad("nsnew", "NSNEW %s answered %s" % (name, short(r)))
        m = self.add_model(name)
        if mode and mode != m.mode:
            self.nsset(name, "mode", mode)
            m.mode = mode
            self.pools[name] = gen.key_pool(self.rnd, self.nkeys) if mode == "user" else []
        self.join(name)
        self.ev.hit("nsnew")
        return m

    def nsset(self, name, prop, val):
        r = self.adm.cmd("NSSET", name, prop, str(val))
        if r != "OK": self.d.bad("nsset", "NSSET %s %s %s answered %s" % (name, prop, val, short(r)))
        m = self.ns[name]
        if prop == "maxsize": m.maxsize = int(val)
        elif prop == "password": m.password = None if val == "*" else val
        elif prop == "public": m.public = str(val)[:1] == "1"
        elif prop == "worm": m.worm = str(val)[:1] == "1"
        elif prop == "lock": m.locked = 1 if str(val)[:1] == "1" else 0
        elif prop == "freeze": m.locked = 2 if str(val)[:1] == "1" else 0
        self.ev.hit("nsset")

    def nsdel(self, name):
        for c in self.cl.pop(name, []): c.close()
        r = self.adm.cmd("NSDEL", name)
        if r != "OK": self.d.bad("nsdel", "NSDEL %s answered %s" % (name, short(r)))
        del self.ns[name]; del self.pools[name]
        self.ev.hit("nsdel")

    def jump(self, name):
        r = self.c(name).cmd("NSJUMP")
        if r != "OK": self.d.bad("nsjump", "NSJUMP answered %s" % short(r))
        self.jumps += 1; self.ev.hit("jumps")

    def reload(self, name):
        r = self.adm.cmd("RELOAD", name)
        if r != "OK": self.d.bad("reload", "RELOAD answered %s" % short(r))
        self.ev.hit("reloads")

    def restart(self, how=None):
        how = how or self.rnd.choice(["STOP", "SIGINT", "SIGTERM"])
        self.s.stop(how)
        for m in self.ns.values(): m.locked = 0
        self.s.start(); self.attach()
        self.restarts += 1
        self.ev.hit("restarts")

    # ---- values and keys
    def value(self, cur):
        r = self.rnd; self.uniq += 1
        if cur:
            old = cur[-1].value
            x = r.random()
            if x < .08: return old
            if x < .20 and len(old) >= 5: return gen.same_crc(old, r)
            if x < .25: return b"\0" + old
            if x < .30 and len(cur) > 1: return cur[-2].value
        if self.prof == "tiny": return gen.payload(r, self.uniq, r.choice([0, 1, 2, 3, 5, 8, 16]))
        if self.prof == "small": return gen.payload(r, self.uniq, r.choice(gen.SIZES[:24]))
        if self.prof == "fill": return gen.payload(r, self.uniq, r.choice([20000, 70000, 100000, 10, 300]))
        return gen.payload(r, self.uniq)

    def key(self, m, live=None):
        r = self.rnd
        if m.mode == "user":
            if live and m.live: return r.choice(list(m.live))
            return r.choice(self.pools[m.name])
        if live or (live is None and r.random() < .8):
            if m.live: return r.choice(list(m.live))
        if m.issued and r.random() < .7: return struct.pack("<Q", r.choice(m.issued))
        return self.badid(m)

    def badid(self, m):
        """byte strings that are no id ever issued, near the ones that are"""
        r = self.rnd
        last = m.issued[-1] if m.issued else 0
        known = set(m.issued)
        while True:
            x = r.random()
            base = r.choice(m.issued) if m.issued else 0
            if x < .2: i = last + r.choice([1, 2, 3, 100])
            elif x < .35: i = (base + (r.choice([1, 2, 3, 7, 1 << 20]) << 32)) & (2**64 - 1)
            elif x < .45: i = (base - (r.choice([1, 2, 3]) << 32)) & (2**64 - 1)
            elif x < .55:
                # slots whose byte offset wraps 32 bits: 42*k = n*2^32 + small
                i = (base + (r.choice([1, 2, 3, 5]) * 2**32) // 42 + r.choice([-1, 0, 1])) & (2**64 - 1)
                if r.random() < .5: i = (base + 2**31 // 21 * 3 + 2**32 * r.randrange(3)) & (2**64 - 1)
                if r.random() < .3: i = (base + 2**31) & (2**64 - 1)
            elif x < .65: i = r.choice([2**64 - 1, 2**63, 2**32 - 1, 2**32, 2**31, 2**40])
            elif x < .8:
                i = r.randrange(0, last + 2)   # maybe a hole (internal entry)
            else:
                k = struct.pack("<Q", base)
                return r.choice([k[:7], k + b"\0", k[:4], k[:1], b"\0" + k, k + k, b"x", b"%d" % base, bytes(255)])
            if i not in known: return struct.pack("<Q", i)

    # ---- one operation
    OPS = dict(set=34, new=10, delete=10, read=22, mget=2, scan=1.5, rscan=1.5, keycur=3, cursor=2.5, history=4, badid=4, jump=1, nsinfo=1)
    def step(self, name=None, ops=None):
        r = self.rnd
        name = name or r.choice(list(self.ns))
        m = self.ns[name]; c = self.c(name); d = self.d
        o = dict(self.OPS)
        if ops: o.update(ops)
        op = r.choices(list(o), list(o.values()))[0]
        self.steps += 1
        self.ev.hit("evaluations")
        self.ctx.distinct.add("%s/%s/%d/%d/%d" % (op, m.mode, min(len(m.live), 8), min(self.jumps, 3), min(self.restarts, 2)))
        if op == "set" or op == "new":
            if m.mode == "seq":
                if op == "new" or (not m.live and not m.issued) or r.random() < .45: k = b""
                else: k = self.key(m)
                v = self.value(m.live.get(k))
            else:
                k = self.key(m); v = self.value(m.live.get(k))
            ts = r.choice([1, 77777, 0x7fffffff, 0x80000000, 3000000000, 0xffffffff]) if r.random() < .05 and self.custom else None
            d.set(c, m, k, v, ts)
        elif op == "delete": d.delete(c, m, self.key(m))
        elif op == "read": d.read(c, m, self.key(m), r.choice(d.READS))
        elif op == "mget": d.mget(c, m, [self.key(m) for _ in range(r.choice([1, 3, 9]))])
        elif op == "scan": d.check_scan(c, m, r.choice(["SCAN", "SCANX"]))
        elif op == "rscan": d.check_scan(c, m, "RSCAN")
        elif op == "keycur": d.keycur(c, m, self.key(m))
        elif op == "cursor":
            if m.cursors:
                cur, pos = r.choice(m.cursors)
                d.check_scan(c, m, r.choice(["SCAN", "RSCAN"]), cur, pos)
                self.ev.hit("cursor_walks")
        elif op == "history": d.history(c, m, self.key(m))
        elif op == "badid":
            if m.mode == "seq": self.bad_id_op(c, m)
        elif op == "jump": self.jump(name)
        elif op == "nsinfo": d.check_nsinfo(self.adm, m); d.check_dbsize(c, m)
        return op

    def bad_id_op(self, c, m):
        k = self.badid(m); r = self.rnd
        op = r.choice(["GET", "EXISTS", "LENGTH", "KEYTIME", "CHECK", "DEL", "SET", "HISTORY", "KEYCUR"])
        self.ev.hit("badid")
        if op == "DEL": self.d.delete(c, m, k)
        elif op == "SET": self.d.set(c, m, k, b"never")
        elif op == "HISTORY": self.d.history(c, m, k)
        elif op == "KEYCUR": self.d.keycur(c, m, k)
        else: self.d.read(c, m, k, op)

    def verify_all(self, **kw):
        for name in list(self.ns):
            self.d.verify(self.c(name), self.ns[name], extra=self.pools[name], **kw)
        l = self.adm.cmd("NSLIST")
        if not isinstance(l, list) or sorted(l) != sorted(n.encode("latin-1") if isinstance(n, str) else n for n in self.ns):
            self.d.bad("nslist", "NSLIST answered %s, namespaces are %s" % (short(l), sorted(self.ns)))

    def infos(self):
        out = {}
        for n in self.ns:
            i = self.d.nsinfo(self.adm, n)
            out[n] = {k: i.get(k) for k in ("name", "entries", "public", "worm", "password", "data_size_bytes", "data_limits_bytes", "mode",
                                            "data_current_id", "data_current_offset", "data_active", "index_active")}
            if self.ns[n].mode == "seq": out[n]["next_internal_id"] = i.get("next_internal_id")
        return out
