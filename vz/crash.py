"""Interrupted operations: saved histories, cloned worlds, reconciliation of the single operation in flight."""
import copy, os, shutil, struct
from . import files, gen
from .model import NS, Ver, Violation, short, now0, now1
from .resp import Err, Status, Closed, Timeout
from .work import World

class Saved:
    """a stopped database: its directories and its model"""
    def __init__(self, w, path):
        self.path = path
        self.ns = {n: m.copy() for n, m in w.ns.items()}
        for m in self.ns.values(): m.cursors = []; m.locked = 0
        self.pools = copy.deepcopy(w.pools)
        self.uniq = w.uniq
        self.kw = dict(datasize=w.datasize, mode=w.fixedmode, admin=w.admin, prof=w.prof, nkeys=w.nkeys)
        shutil.copytree(w.s.data, os.path.join(path, "data"), symlinks=True)
        shutil.copytree(w.s.index, os.path.join(path, "index"), symlinks=True)

    def world(self, ctx, args=(), variant="asan", **kw):
        base = ctx.sub()
        shutil.copytree(os.path.join(self.path, "data"), os.path.join(base, "data"), symlinks=True)
        shutil.copytree(os.path.join(self.path, "index"), os.path.join(base, "index"), symlinks=True)
        w = World(ctx, args, variant, base=base, shim=True, **self.kw, **kw)
        w.ns = {n: clone(m) for n, m in self.ns.items()}
        w.pools = copy.deepcopy(self.pools)
        w.uniq = self.uniq
        return w

def clone(m):
    n = m.copy()
    n.live = {k: [Ver(v.value, v.lo, v.hi, v.pos) for v in l] for k, l in m.live.items()}
    return n

def drop(w):
    """forget a world: its server and directories"""
    s = w.s
    s.close_clients()
    if s.proc is not None and s.proc.poll() is None: s.kill()
    s.cleanup()
    base = s.base
    if os.path.basename(os.path.dirname(base)).startswith("vz-"): shutil.rmtree(base, ignore_errors=True)
    if s in w.ctx.servers: w.ctx.servers.remove(s)

def build_base(ctx, seed_ops=70, mode=None, datasize=524289, nss=(("u", "user"), ("s", "seq"), ("p", "user")), jumps=3, prof="tiny", nkeys=8, variant="asan", fill=None):
    """runs a history, stops the server, saves everything"""
    w = World(ctx, (), variant, datasize=datasize, mode=mode, prof=prof, nkeys=nkeys).start()
    for n, m in nss:
        if mode and m != mode: m = mode
        w.nsnew(n, m)
    if "p" in w.ns:
        w.nsset("p", "password", "secret"); w.nsset("p", "public", "0")
        for c in w.cl.pop("p"): c.close()
        w.join("p")
    names = list(w.ns)
    for j in range(jumps + 1):
        for _ in range(seed_ops // (jumps + 1)):
            w.step(ctx.rnd.choice(names), ops=dict(jump=0, scan=0, rscan=0, keycur=0, cursor=0, history=.5, nsinfo=0, read=3, set=40, new=20, delete=9))
        if j < jumps:
            for n in names:
                if ctx.rnd.random() < .8: w.jump(n)
    for n in names:                # everything needed below exists
        m = w.ns[n]
        while len(m.live) < 4:
            k = b"" if m.mode == "seq" else w.key(m)
            w.d.set(w.c(n), m, k, w.value(m.live.get(k)))
    w.verify_all()
    w.s.stop("STOP")
    sv = Saved(w, ctx.sub("saved%d" % ctx.n))
    w.s.cleanup()
    return sv

# ---- the operations which can be in flight. each yields (do, pending); do(w) sends it and returns the reply
class Op:
    """one operation; after an interruption settle(w) finds out what happened and updates the model"""
    kind = "op"
    def __init__(self, name): self.ns = name
    def run(self, w): raise NotImplementedError
    def done(self, w, r): pass
    def settle(self, w): pass
    def describe(self): return "%s %s" % (self.kind, self.ns)
    def tail(self, w): return None

class Set(Op):
    kind = "SET"
    def __init__(self, name, key, val, ts=None): self.ns, self.key, self.val, self.ts = name, key, val, ts
    def run(self, w):
        self.t0 = now0()
        if w.ns[self.ns].live.get(self.key): self.old = w.ns[self.ns].live[self.key][-1].value
        else: self.old = None
        a = ("SET", self.key, self.val) + ((self.ts,) if self.ts is not None else ())
        return w.cl[self.ns][0].cmd(*a)
    def times(self):
        if self.ts is not None: return self.ts, self.ts
        return self.t0, now1()
    def done(self, w, r):
        a, b = self.times()
        w.d.set_reply(w.ns[self.ns], self.key, self.val, r, a, b)
    def settle(self, w):
        m = w.ns[self.ns]; a, b = self.times()
        c = w.c(self.ns)
        if m.mode == "seq" and self.key == b"":
            got = w.d.walk(c, "RSCAN", None, limit=len(m.live) + 50)
            new = [g[0] for g in got if g[0] not in m.live]
            if len(new) > 1: w.d.bad("crash-extra", "%d unknown ids appeared: %s" % (len(new), short(new)))
            if new:
                if c.cmd("GET", new[0]) != self.val: w.d.bad("crash-value", "interrupted insert left id %s with %s" % (short(new[0]), short(c.cmd("GET", new[0]))))
                w.d.set_reply(m, b"", self.val, new[0], a, b)
                return "applied"
            return "absent"
        r = c.cmd("GET", self.key)
        if r == self.old: return "absent"
        if r == self.val and not isinstance(r, Err):
            w.d.set_reply(m, self.key, self.val, self.key, a, b)
            return "applied"
        w.d.bad("crash-value", "interrupted SET of %s: value is %s, neither the previous %s nor the new %s" % (short(self.key), short(r), short(self.old), short(self.val)))

class Del(Op):
    kind = "DEL"
    def __init__(self, name, key): self.ns, self.key = name, key
    def run(self, w): return w.cl[self.ns][0].cmd("DEL", self.key)
    def done(self, w, r): w.d.del_reply(w.ns[self.ns], self.key, r)
    def settle(self, w):
        m = w.ns[self.ns]
        if self.key not in m.live: return "noop"
        r = w.c(self.ns).cmd("EXISTS", self.key)
        if r == 0:
            w.d.del_reply(m, self.key, Status("OK"))
            return "applied"
        return "absent"

class Jump(Op):
    kind = "NSJUMP"
    def run(self, w): return w.cl[self.ns][0].cmd("NSJUMP")
    def done(self, w, r):
        if r != "OK": w.d.bad("nsjump", "NSJUMP answered %s" % short(r))

class Reload(Op):
    kind = "RELOAD"
    def run(self, w): return w.adm.cmd("RELOAD", self.ns)
    def done(self, w, r):
        if r != "OK": w.d.bad("reload", "RELOAD answered %s" % short(r))

class NsNew(Op):
    kind = "NSNEW"
    def run(self, w): return w.adm.cmd("NSNEW", self.ns)
    def add(self, w):
        w.add_model(self.ns); w.join(self.ns)
    def done(self, w, r):
        if r != "OK": w.d.bad("nsnew", "NSNEW answered %s" % short(r))
        self.add(w)
    def settle(self, w):
        l = w.adm.cmd("NSLIST")
        if self.ns.encode() in l: self.add(w); return "applied"
        r = w.adm.cmd("NSNEW", self.ns)
        if r != "OK": w.d.bad("crash-nsnew", "repeating the interrupted NSNEW answered %s" % short(r))
        self.add(w)
        return "absent"

class NsSet(Op):
    kind = "NSSET"
    def __init__(self, name, prop, val): self.ns, self.prop, self.val = name, prop, val
    def describe(self): return "NSSET %s %s" % (self.ns, self.prop)
    def run(self, w): return w.adm.cmd("NSSET", self.ns, self.prop, self.val)
    def apply(self, m):
        p, v = self.prop, self.val
        if p == "maxsize": m.maxsize = int(v)
        elif p == "password": m.password = None if v == "*" else v
        elif p == "public": m.public = v[:1] == "1"
        elif p == "worm": m.worm = v[:1] == "1"
        elif p == "mode": m.mode = v
    def done(self, w, r):
        if r != "OK": w.d.bad("nsset", "NSSET answered %s" % short(r))
        self.apply(w.ns[self.ns])
        if self.prop == "mode": w.pools[self.ns] = gen.key_pool(w.rnd, w.nkeys) if self.val == "user" else []
    def settle(self, w):
        m = w.ns[self.ns]
        new = clone(m); self.apply(new)
        c = w.conn()
        if self.prop == "password":
            try:
                for n in (m, new):
                    if not n.password:
                        i = w.d.nsinfo(w.adm, self.ns)
                        if i.get("password") == "no": break
                    elif c.cmd("SELECT", self.ns, n.password) == "OK" and w.d.nsinfo(w.adm, self.ns).get("password") == "yes": break
                else: w.d.bad("crash-password", "after an interrupted change of the password neither the old nor the new one is in effect")
            finally: c.close()
            m.password = n.password
            return "applied" if n is new else "absent"
        i = w.d.nsinfo(w.adm, self.ns)
        f = {"maxsize": ("data_limits_bytes", str(m.maxsize), str(new.maxsize)),
             "public": ("public", "yes" if m.public else "no", "yes" if new.public else "no"),
             "worm": ("worm", "yes" if m.worm else "no", "yes" if new.worm else "no"),
             "mode": ("mode", "userkey" if m.mode == "user" else "sequential", "userkey" if new.mode == "user" else "sequential")}[self.prop]
        if i.get(f[0]) == f[1]: return "absent"
        if i.get(f[0]) != f[2]: w.d.bad("crash-setting", "after an interrupted NSSET %s the setting is %s" % (self.prop, i.get(f[0])))
        self.done(w, "OK")
        return "applied"

class Partly(Op):
    def partial(self, w):
        """every key exact or absent, nothing else"""
        m = w.ns[self.ns]; c = w.c(self.ns)
        left = 0
        for k in set(m.live) | m.dead | set(w.pools[self.ns]):
            r = c.cmd("GET", k)
            if r is None: continue
            if k in m.live and r == m.live[k][-1].value and not isinstance(r, Err): left += 1; continue
            if k in m.live and any(v.value == r for v in m.live[k]) and m.mode == "seq": left += 1; continue
            if isinstance(r, Err): continue
            w.d.bad("crash-partial", "after an interrupted %s key %s has %s" % (self.kind, short(k), short(r)))
        return left

class NsDel(Partly):
    kind = "NSDEL"
    def run(self, w):
        for c in w.cl.pop(self.ns, []): c.close()
        return w.adm.cmd("NSDEL", self.ns)
    def gone(self, w):
        del w.ns[self.ns]; del w.pools[self.ns]
    def done(self, w, r):
        if r != "OK": w.d.bad("nsdel", "NSDEL answered %s" % short(r))
        self.gone(w)
    def settle(self, w):
        l = w.adm.cmd("NSLIST")
        res = "applied"
        if self.ns.encode() in l:
            i = w.d.nsinfo(w.adm, self.ns)
            m = w.ns[self.ns]
            if int(i.get("entries", "0")) > 0:
                if (i.get("password") == "yes") != bool(m.password) or (i.get("public") == "yes") != m.public or (i.get("worm") == "yes") != m.worm:
                    w.d.bad("crash-unprotected", "after an interrupted NSDEL %s keys are left without the settings of the namespace" % i.get("entries"))
                w.join(self.ns)
                self.partial(w)
                for c in w.cl.pop(self.ns, []): c.close()
                res = "absent"
            r = w.adm.cmd("NSDEL", self.ns)
            if r != "OK": w.d.bad("crash-nsdel", "repeating the interrupted NSDEL answered %s" % short(r))
        self.gone(w)
        r = w.adm.cmd("NSNEW", self.ns)
        if r != "OK": w.d.bad("crash-nsnew", "NSNEW after the interrupted NSDEL answered %s" % short(r))
        w.add_model(self.ns); w.join(self.ns)
        return res

class Flush(Partly):
    kind = "FLUSH"
    def run(self, w): return w.cl[self.ns][0].cmd("FLUSH")
    def done(self, w, r):
        if r != "OK": w.d.bad("flush", "FLUSH answered %s" % short(r))
        w.ns[self.ns].reset()
    def settle(self, w):
        left = self.partial(w)
        w.d.check_nsinfo(w.adm, w.ns[self.ns]) if left == len(w.ns[self.ns].live) else None
        r = w.c(self.ns).cmd("FLUSH")
        self.done(w, r)
        return "absent" if left else "applied"

class Start(Op):
    """the recovery or the normal start itself"""
    kind = "START"

class Stop(Op):
    kind = "STOP"
    def __init__(self, how): self.ns, self.how = "default", how
    def describe(self): return "STOP %s" % self.how
    def run(self, w):
        w.s.stop(self.how)
        return "stopped"

def consistent(w):
    """the files of every namespace are whole and the index points to matching data entries"""
    for n, m in w.ns.items():
        st = files.Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n))
        top = max(st.i) if st.i else -1
        if sorted(st.i) != list(range(top + 1)): w.d.bad("crash-files", "%s has index files %s" % (n, sorted(st.i)))
        st.d = {f: b for f, b in st.d.items() if f <= top}
        if sorted(st.d) != sorted(st.i): w.d.bad("crash-files", "%s has data files %s and index files %s" % (n, sorted(st.d), sorted(st.i)))
        try: st.parse()
        except files.Bad as e: w.d.bad("crash-" + e.args[0], "%s: %s" % (n, e.args[1]))
        at = {(e.fid, e.off): e for l in st.data.values() for e in l}
        seen = set()
        for it in st.items():
            if it.deleted: continue
            e = at.get((it.dataid, it.offset))
            if e is None or e.id != it.id or e.deleted or len(e.payload) != it.length or e.crc != it.crc or e.ts != it.ts:
                w.d.bad("crash-pointer", "%s: the index entry of %s at %d of i%d does not match a data entry" % (n, short(it.id), it.off, it.fid))
            if it.id in seen: w.d.bad("crash-duplicate", "%s: two live index entries for %s" % (n, short(it.id)))
            seen.add(it.id)
        if seen != set(m.live): w.d.bad("crash-index-keys", "%s: the index has %d live keys, %d expected" % (n, len(seen), len(m.live)))

def more(w, ops=14):
    """the database accepts and keeps further writes"""
    for n in list(w.ns):
        m = w.ns[n]
        if m.worm or m.maxsize: continue
        for i in range(3):
            k = b"" if m.mode == "seq" else w.key(m)
            w.d.set(w.c(n), m, k, w.value(m.live.get(k)))
    names = [n for n in w.ns if not w.ns[n].worm and not w.ns[n].maxsize]
    for _ in range(ops): w.step(w.rnd.choice(names))
