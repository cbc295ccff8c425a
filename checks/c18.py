"""C18: hooks and missing data files."""
import os, random, shutil, signal, subprocess, time
from vz import build, files, gen
from vz.model import OFF, Violation, short
from vz.resp import Client, Closed, Err, Timeout
from vz.server import StartError
from vz.work import World

PROP, LEVEL = "C18", "exploration"
TECHNIQUE = ("runtime monitoring: a hook program records every call it gets (arguments, begin, end) while it delays, fails, is killed, offloads and restores files; an online checker of the expected calls per "
             "operation, of HOOKS against the recorded calls, of the order begin/end/reply for the blocking ones, and the reference model for every read with files missing (ASan+UBSan; fork failures and clock jumps injected)")
NOTE = "STOP is a debugging command: whether it calls close is not judged; the calls for a command which needs no data file are not judged"
RULE = "one distinct = (operation, hooks called, exit status of the blocking hook) or (read command, state of the file, behaviour of the hook)"
WATCHDOG = 300

def cases(tier, seed):
    q = tier == "quick"
    out = []
    def add(kind, n, m, **kw):
        for i in range(n if q else m): out.append(dict(kind=kind, i=i, seed=seed * 1000 + len(out), **kw))
    add("events", 8, 60, ops=70 if q else 250)
    add("offload", 10, 80, rounds=5 if q else 10, ops=40, reads=40)
    add("listing", 4, 24, rounds=2 if q else 5)
    add("start", 3, 12)
    add("big", 2, 8)
    add("forks", 3, 16)
    add("crash", 2, 8)
    return out

class Hooks:
    def __init__(self, ctx):
        self.ctx, self.dir = ctx, ctx.sub("hooks")
        self.prog = build.program("hookprog.c")
        self.expected, self.seen, self.off = [], [], 0
        self.calls, self.ends = [], {}
        self.base = 0            # calls of this run of the server start here
        self.id = None
    def env(self): return {"ZHOOK_DIR": self.dir}
    def cfg(self, name, **kw):
        p = os.path.join(self.dir, name)
        with open(p + ".tmp", "w") as f: f.write("".join("%s %d\n" % x for x in kw.items()))
        os.rename(p + ".tmp", p)
    def poll(self):
        try:
            with open(os.path.join(self.dir, "log"), "rb") as f:
                f.seek(self.off); b = f.read()
        except OSError: return
        b = b[:b.rfind(b"\n") + 1]; self.off += len(b)
        for l in b.decode().splitlines():
            x = l.split(" ")
            if x[0] == "B":
                a = [bytes.fromhex(h) for h in x[3].split(",")]
                self.calls.append({"pid": int(x[1]), "t": float(x[2]), "name": a[0].decode(), "id": a[1] if len(a) > 1 else None, "args": tuple(a[2:]), "off": OFF[0]})
                self.ctx.ev.hit("hook_" + a[0].decode())
            else: self.ends[int(x[1])] = (float(x[2]), int(x[3]), int(x[4]))
    def expect(self, name, *args): self.expected.append((name, tuple(a if isinstance(a, bytes) else str(a).encode("latin-1") for a in args)))
    def norm(self, c):
        """paths without doubled slashes, dirty lists as sets"""
        name, args = c
        out = []
        for i, a in enumerate(args):
            if (name == "jump-index" and i == 2) or (name == "namespace-closing" and i == 3):
                l = a.split()
                if len(set(l)) != len(l): raise Violation("dirty-repeated", "dirty list %s of %s" % (short(a), name))
                out.append(tuple(sorted(l)))
            elif a.startswith(b"/"): out.append(os.path.normpath(a))
            else: out.append(a)
        return (name, tuple(out))
    def settle(self, what, ignore=()):
        """the calls since the last time are exactly the expected ones"""
        end = time.monotonic() + 20
        while True:
            self.poll()
            new = [c for c in self.calls[len(self.seen):]]
            if len(new) >= len(self.expected) or time.monotonic() > end: break
            time.sleep(.01)
        got = sorted((repr(self.norm((c["name"], c["args"]))) for c in new if c["name"] not in ignore))
        want = sorted(repr(self.norm(e)) for e in self.expected)
        if got != want:
            miss = list(want); extra = []
            for g in got:
                if g in miss: miss.remove(g)
                else: extra.append(g)
            names = sorted({x.split("'")[1] for x in miss + extra})
            raise Violation("calls-%s" % "+".join(names), "after %s: hook calls missing: %s; not expected: %s" % (what, short(miss), short(extra)))
        for c in new:
            if self.id is not None and c["id"] != self.id: raise Violation("hook-id", "%s called with id %r, the instance is %r" % (c["name"], c["id"], self.id))
        # order of the blocking ones
        w = [c["name"] for c in new if c["name"] in ("jump-index", "jump-data")]
        if "jump-data" in w and "jump-index" in w and w.index("jump-data") < w.index("jump-index"): raise Violation("jump-order", "jump-data called before jump-index is over")
        self.ctx.ev.hit("calls_checked", len(new)); self.ctx.ev.hit("settles")
        self.seen = list(self.calls); self.expected = []
    def done(self, name, n, t):
        """n calls of a blocking hook were over before the reply came at t"""
        self.poll()
        new = [c for c in self.calls[len(self.seen):] if c["name"] == name]
        if len(new) < n: raise Violation("not-waited-" + name, "%d calls of %s recorded when the reply came, %d expected" % (len(new), name, n))
        for c in new:
            e = self.ends.get(c["pid"])
            if not e or e[0] > t + .01: raise Violation("not-waited-" + name, "the reply came before the end of %s" % name)
        self.ctx.ev.hit("waits_checked", n)
    def idle(self):
        """no hook program is running"""
        end = time.monotonic() + 30
        while time.monotonic() < end:
            self.poll()
            if all(c["pid"] in self.ends for c in self.calls): return
            time.sleep(.01)
        raise Violation("hook-stuck", "a hook program never ended")
    def listing(self, c, need_all=True, t0=0):
        """HOOKS shows exactly the calls of this run"""
        end = time.monotonic() + 20
        while True:
            r = c.cmd("HOOKS")
            if not isinstance(r, list): raise Violation("hooks-reply", "HOOKS answered %s" % short(r))
            self.poll()
            run = self.calls[self.base:]
            fin = {e[2]: e for e in r if isinstance(e, list) and len(e) == 6}
            late = [x for x in run if x["pid"] in self.ends and (x["pid"] not in fin or fin[x["pid"]][4] == 0)]
            if (not late and len(r) <= len(run)) or time.monotonic() > end: break
            time.sleep(.25)
        now = time.time() + OFF[0]
        want = {x["pid"]: x for x in run}
        for e in r:
            if not (isinstance(e, list) and len(e) == 6 and isinstance(e[1], list)): raise Violation("hooks-shape", "HOOKS entry %s" % short(e))
            x = want.pop(e[2], None)
            if not x: raise Violation("hooks-extra", "HOOKS shows %s, no such call" % short(e))
            if e[0] != x["name"].encode() or tuple(e[1]) != x["args"]: raise Violation("hooks-args", "HOOKS shows %s, the program got %s" % (short(e), short((x["name"], x["args"]))))
            if not x["t"] + x["off"] - 60 <= e[3] <= x["t"] + x["off"] + 1.1: raise Violation("hooks-created", "HOOKS says created %d, started %f" % (e[3], x["t"]))
            end = self.ends.get(x["pid"])
            if end is None:
                if e[4] != 0: raise Violation("hooks-finished", "HOOKS says finished %d for a running program" % e[4])
                self.ctx.ev.hit("running_listed")
            else:
                if not end[0] + x["off"] - 1.1 <= e[4] <= now + 1: raise Violation("hooks-finished", "HOOKS says finished %d, ended %f" % (e[4], end[0]))
                if not end[2] and e[5] != end[1]: raise Violation("hooks-status", "HOOKS says status %d, the exit code is %d" % (e[5], end[1]))
        if need_all and want: raise Violation("hooks-missing", "HOOKS does not show %s" % short(list(want.values())[:2]))
        self.ctx.ev.hit("listings"); self.ctx.ev.hit("listed", len(r))

def maxid(d):
    return max([int(f[1:]) for f in os.listdir(d) if f[0] == "i" and f[1:].isdigit()], default=-1)

class Hooked(World):
    """a world whose operations give the expected calls"""
    def __init__(self, ctx, **kw):
        self.h = Hooks(ctx); self.snaps = {}
        args = list(kw.pop("args", ())) + ["--hook", self.h.prog]
        env = dict(kw.pop("env", {}), **self.h.env())
        super().__init__(ctx, args=args, env=env, **kw)
        self.h.id = b"unix://" + self.s.sockpath.encode()
    def idir(self, n): return os.path.join(self.s.index, n)
    def start(self):
        self.h.idle(); self.h.settle("stop"); self.h.poll()
        self.h.base = len(self.h.calls)
        self.h.expect("namespaces-init", self.s.index, self.s.data); self.h.expect("ready")
        World.start(self)
        self.h.done("ready", 1, time.time()); self.h.done("namespaces-init", 1, time.time())
        n = [c["name"] for c in self.h.calls[self.h.base:]]
        if n.index("namespaces-init") > n.index("ready"): raise Violation("start-order", "calls at start: %s" % n)
        self.h.settle("start", ignore=("namespace-created",))
        for x in self.ns: self.snap(x)
        return self
    def stop(self, how):
        for n in self.ns:
            i = maxid(self.idir(n))
            self.h.expect("namespace-closing", n, os.path.join(self.idir(n), "i%d" % i), os.path.join(self.s.data, n, "d%d" % i), b" ".join(b"%d" % x for x in self.dirty(n)))
        if how != "STOP": self.h.expect("close")
        self.s.stop(how)
        if how != "STOP": self.h.done("close", 1, time.time())
        self.h.settle(how, ignore=("close",) if how == "STOP" else ())
    def restart(self, how=None):
        how = how or self.rnd.choice(["STOP", "SIGINT", "SIGTERM"])
        self.stop(how)
        for m in self.ns.values(): m.locked = 0
        self.start(); self.restarts += 1; self.ev.hit("restarts")
    def dirty(self, n):
        r = self.c(n).cmd("INDEX", "DIRTY")
        if not isinstance(r, list): raise Violation("dirty-reply", "INDEX DIRTY answered %s" % short(r))
        return set(r)
    def read_index(self, n):
        out = {}
        for f in os.listdir(self.idir(n)):
            if f[0] == "i" and f[1:].isdigit():
                with open(os.path.join(self.idir(n), f), "rb") as fp: out[int(f[1:])] = fp.read()
        return out
    def snap(self, n): self.snaps[n] = self.read_index(n)
    def changed(self, n):
        cur = self.read_index(n)
        return {f for f, b in self.snaps[n].items() if cur.get(f, b"")[:len(b)] != b}
    def op(self, n, fn, what):
        """runs fn, which may make the namespace jump"""
        h = self.h; before = maxid(self.idir(n)); dirty = self.dirty(n); need = self.changed(n)
        r = fn(); t = time.time()
        after = maxid(self.idir(n))
        for k in range(before, after):
            code = self.codes.get("jump-index", 0) if hasattr(self, "codes") else 0
            p = lambda d, x, k: os.path.join(d, n, "%s%d" % (x, k))
            h.expect("jump-index", p(self.s.index, "i", k), p(self.s.index, "i", k + 1), b" ".join(b"%d" % x for x in dirty))
            h.expect("jump-data", p(self.s.data, "d", k), p(self.s.data, "d", k + 1))
            if not need <= dirty: raise Violation("dirty-missing", "%s: files with changed entries %s, dirty list %s" % (n, sorted(need), sorted(dirty)))
            h.done("jump-index", 1, t)
            self.ev.hit("jumps_checked"); self.ev.hit("dirty_listed", len(dirty))
            left = self.dirty(n)
            if code == 0:
                if what == "NSJUMP" and left: raise Violation("dirty-kept", "dirty list %s after a successful jump-index" % sorted(left))
                self.snap(n)
            elif not dirty <= left: raise Violation("dirty-lost", "dirty list %s after jump-index ended with %s, it was %s before" % (sorted(left), code, sorted(dirty)))
            self.ctx.distinct.add("%s/jump/%s/%d" % (what, code, min(len(dirty), 4)))
        return r
    def nsnew(self, name, mode=None):
        self.h.expect("namespace-created", name)
        m = World.nsnew(self, name, mode); self.snap(name); return m
    def nsset(self, name, prop, val):
        self.h.expect("namespace-updated", name); World.nsset(self, name, prop, val)
    def nsdel(self, name):
        self.h.expect("namespace-deleted", name); World.nsdel(self, name); self.snaps.pop(name, None)
    def reload(self, name):
        self.h.expect("namespace-reloaded", name); World.reload(self, name); self.snap(name)

NAMES = ["a", "with space", "n" * 60, "x,y;z", "sp%s%d", "plain"]

def run_events(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    prof = rnd.choice(["tiny", "small", "fill", "fill"])
    w = Hooked(ctx, prof=prof, nkeys=8, mode=rnd.choice([None, None, "user", "seq"]), admin=rnd.choice([None, "adm"]), shim=True).start()
    h = w.h; w.codes = {}
    def configure():
        for n in ("jump-data", "namespace-created", "namespace-updated", "namespace-deleted", "namespace-reloaded", "namespace-closing"):
            h.cfg(n, sleep=rnd.choice([0, 0, 5, 60]), exit=rnd.choice([0, 0, 1, 2, 255]))
        x = rnd.choice(["0", "0", "0", "1", "77", "kill"])
        w.codes["jump-index"] = 0 if x == "0" else x
        h.cfg("jump-index", sleep=rnd.choice([0, 0, 40]), exit=int(x) if x != "kill" else 0, signal=9 if x == "kill" else 0)
    configure()
    for i in range(sp["ops"]):
        x = rnd.random(); n = rnd.choice(list(w.ns)); m = w.ns[n]
        if x < .10: w.op(n, lambda: w.jump(n), "NSJUMP"); act = "NSJUMP"
        elif x < .18:
            new = rnd.choice(NAMES)
            if new not in w.ns: w.nsnew(new, None if w.fixedmode else rnd.choice([None, "seq"])); act = "NSNEW"
            else:
                r = w.adm.cmd("NSNEW", new); act = "NSNEW-refused"
                if not isinstance(r, Err): w.d.bad("nsnew", "NSNEW of an existing namespace answered %s" % short(r))
        elif x < .23 and n != "default": w.nsdel(n); act = "NSDEL"
        elif x < .30 and n != "default":
            p, v = rnd.choice([("maxsize", 1 << 40), ("maxsize", 1 << 41), ("public", 1), ("public", 0), ("lock", 0), ("freeze", 0), ("worm", 0)])
            w.nsset(n, p, v); act = "NSSET"
        elif x < .34:
            r = w.adm.cmd("NSSET", *rnd.choice([("nothere", "maxsize", "1"), (n, "wrong", "1"), ("default", "maxsize", "1")])); act = "NSSET-refused"
            if not isinstance(r, Err): w.d.bad("nsset", "a wrong NSSET answered %s" % short(r))
        elif x < .38: w.reload(n); act = "RELOAD"
        elif x < .41:
            if w.c(n).cmd("INDEX", "DIRTY", "RESET") != "OK": w.d.bad("dirty-reset", "INDEX DIRTY RESET refused")
            w.snap(n); act = "RESET"
        elif x < .44: configure(); continue
        elif x < .46: h.settle("?"); w.restart(); act = "restart"
        elif x < .48: h.listing(w.adm); act = "HOOKS"
        else: act = w.op(n, lambda: w.step(n, dict(jump=0, cursor=0, badid=1, set=60, delete=14)), "step")
        ctx.ev.hit("evaluations")
        w.ctx.distinct.add("%s/%s" % (act, "+".join(sorted({e[0] for e in h.expected}))))
        if rnd.random() < .3: h.settle(act)
    h.settle("the history"); h.listing(w.adm)
    w.verify_all()
    how = rnd.choice(["STOP", "SIGINT", "SIGTERM"]); w.stop(how)
    time.sleep(.3); h.settle("end")

def absent(w, n, fid): return not os.path.exists(os.path.join(w.s.data, n, "d%d" % fid))

def run_offload(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = Hooked(ctx, prof=rnd.choice(["tiny", "small", "small", "fill"]), nkeys=10, mode=rnd.choice([None, "user", "seq"]), shim=True).start()
    h = w.h; w.custom = False
    h.cfg("jump-data", offload=1)
    w.nsnew("a", None if w.fixedmode else rnd.choice(["user", "seq"])); h.settle("NSNEW")
    MODES = ["restore", "restore-slow", "refuse", "lie", "kill", "restore-fail"]
    for rd in range(sp["rounds"]):
        for i in range(sp["ops"]):
            n = rnd.choice(list(w.ns))
            if rnd.random() < .12: w.op(n, lambda: w.jump(n), "NSJUMP")
            else: w.op(n, lambda: w.step(n, dict(jump=0, set=40, new=15, delete=6)), "step")
        h.settle("history"); h.idle()
        loc, vers = {}, {}
        for n in w.ns:
            st = files.Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n)).parse()
            for it in st.items():
                vers.setdefault((n, it.id), set()).add(it.dataid)
                if not it.deleted: loc[n, it.id] = it.dataid
            act = max(st.data); sd = os.path.join(h.dir, "store", n)
            for f in st.data:
                if f == act or rnd.random() < .4: continue
                p = os.path.join(w.s.data, n, "d%d" % f)
                with open(p, "rb") as a, open(os.path.join(sd, "d%d" % f), "rb") as b:
                    if a.read() != b.read(): raise Violation("offload-changed", "d%d of %s changed after its jump-data" % (f, n))
                os.unlink(p); ctx.ev.hit("offloaded")
        for i in range(sp["reads"]):
            n = rnd.choice(list(w.ns)); m = w.ns[n]; c = w.c(n); d = w.d
            b = rnd.choice(MODES); restore = b.startswith("restore")
            cfg = {"sleep": 60 if b == "restore-slow" else 0}
            if b == "refuse": cfg["exit"] = rnd.choice([1, 2, 255])
            if b == "kill": cfg["signal"] = rnd.choice([9, 15])
            if restore: cfg["restore"] = 1
            if b == "restore-fail": cfg["exit"] = 3
            h.cfg("missing-data", **cfg); ok = b in ("restore", "restore-slow")
            P = lambda f: os.path.join(w.s.data, n, "d%d" % f)
            ab = lambda k: (n, k) in loc and absent(w, n, loc[n, k])
            def exp(k):
                """key read: is its file there, calling the hook as needed"""
                if not ab(k): return True
                h.expect("missing-data", P(loc[n, k])); gone.add(loc[n, k])
                return None if b == "restore-fail" else ok
            gone = set()
            away = [k for k in m.live if ab(k)]; near = [k for k in m.live if not ab(k)]
            op = rnd.choice(["open"] + ["GET"] * 4 + ["CHECK"] * 2 + ["MGET"] * 2 + ["near", "HISTORY", "meta", "meta", "SET", "DEL", "scan", "jump", "reload", "restart"])
            k = rnd.choice(away) if away and rnd.random() < .8 else rnd.choice(list(m.live)) if m.live else None
            if k is None: continue
            ctx.ev.hit("evaluations"); ctx.distinct.add("%s/%s/%s/%s" % (op, "absent" if k in away else "there", b, m.mode))
            if op == "open":
                # a file which is there and can't be opened is not a missing one
                k = rnd.choice(near) if near else None
                if k is None: continue
                ctl = w.s.ctl; cmd = rnd.choice(["GET", "CHECK"])
                ctl.set(read_errno=rnd.choice([5, 13, 23, 24]), failed=0, ropen_fail_count=1, ropen_fail_at=ctl.get("ropens") + 1)
                r = c.cmd(cmd, k); bad = ctl.get("failed"); ctl.set(ropen_fail_at=0, ropen_fail_count=0)
                if not bad: d.check_read(m, cmd, k, r)
                elif not isinstance(r, Err) and r != -1 and r is not None: d.bad("read-unopened", "%s of a key in a file which could not be opened answered %s" % (cmd, short(r)))
                else: ctx.ev.hit("unopened")
            elif op in ("GET", "CHECK"):
                e = exp(k); r = c.cmd(op, k); t = time.time()
                if gone: h.done("missing-data", 1, t)
                if e is True or (e is None and not isinstance(r, Err) and r != -1): d.check_read(m, op, k, r)
                elif e is False or e is None:
                    if not (isinstance(r, Err) or (op == "CHECK" and r == -1)): d.bad("missing-" + op, "%s of a key whose file is missing (hook: %s) answered %s" % (op, b, short(r)))
                    ctx.ev.hit("refused_reads")
                if gone and e: ctx.ev.hit("refetched")
            elif op == "MGET":
                ks = [rnd.choice(list(m.live)) for _ in range(rnd.randint(2, 8))]
                got = c.cmd("MGET", *ks); t = time.time(); back = set()
                if not isinstance(got, list) or len(got) != len(ks): d.bad("mget-shape", "MGET answered %s" % short(got))
                calls = 0
                for x, r in zip(ks, got):
                    f = loc.get((n, x))
                    if x in away and f not in back:
                        h.expect("missing-data", P(f)); calls += 1
                        if restore: back.add(f)
                        if b == "restore-fail" and not isinstance(r, Err): d.check_read(m, "GET", x, r)
                        elif not ok:
                            if not isinstance(r, Err): d.bad("missing-MGET", "MGET of a key whose file is missing (hook: %s) answered %s" % (b, short(r)))
                        else: d.check_read(m, "GET", x, r); ctx.ev.hit("refetched")
                    else: d.check_read(m, "GET", x, r)
                if calls: h.done("missing-data", calls, t)
            elif op == "near":
                for x in near[:4]: d.read(c, m, x, rnd.choice(["GET", "CHECK"]))
            elif op == "meta":
                d.read(c, m, k, rnd.choice(["EXISTS", "LENGTH", "KEYTIME"])); d.check_dbsize(c, m); d.check_nsinfo(c, m)
            elif op == "scan": d.check_scan(c, m, rnd.choice(["SCAN", "RSCAN"])); d.keycur(c, m, k)
            elif op == "HISTORY":
                # every version asked for is the right one, or refused because of its file
                fs = {f for f in vers.get((n, k), ()) if absent(w, n, f)}
                vs = m.live[k]; r = c.cmd("HISTORY", k); i = 0; errs = 0
                while True:
                    if isinstance(r, Err): errs += 1; break
                    i += 1
                    if not isinstance(r, list) or len(r) != 3 or i > len(vs) or r[2] != vs[-i].value: d.bad("history-value", "HISTORY of %s version -%d with files missing answered %s" % (short(k), i, short(r)))
                    if r[0] is None: break
                    r = c.cmd("HISTORY", k, r[0])
                if not errs and i != len(vs): d.bad("history-short", "HISTORY returned %d versions of %d" % (i, len(vs)))
                if errs and (not fs or ok): d.bad("history-error", "HISTORY of %s answered %s, its files are there (hook: %s)" % (short(k), short(r), b))
                h.poll()
                for x in h.calls[len(h.seen):]:
                    if x["name"] == "missing-data":
                        if x["args"] not in [(P(f).encode(),) for f in fs]: d.bad("missing-args", "missing-data called with %s" % short(x["args"]))
                        h.expect("missing-data", *x["args"])
            elif op in ("SET", "DEL"):
                # reading the current payload to compare is up to the server
                def do():
                    if op == "DEL": d.delete(c, m, k); return
                    w.uniq += 1; old = m.live[k][-1].value
                    v = gen.same_crc(old, rnd) if len(old) >= 5 and rnd.random() < .6 else gen.payload(rnd, w.uniq, len(old))
                    if v == old: v = v + b"!"
                    d.set(c, m, k, v)
                f = loc.get((n, k))
                w.op(n, do, op); h.poll()
                for x in h.calls[len(h.seen):]:
                    if x["name"] == "missing-data":
                        if f is None or x["args"] != (P(f).encode(),): d.bad("missing-args", "missing-data called with %s" % short(x["args"]))
                        h.expect("missing-data", *x["args"])
                if op == "DEL": loc.pop((n, k), None); vers.pop((n, k), None)
                else: loc[n, k] = maxid(w.idir(n)); vers.setdefault((n, k), set()).add(loc[n, k])
                ctx.ev.hit("writes_while_missing")
            elif op == "jump": w.op(n, lambda: w.jump(n), "NSJUMP")
            elif op == "reload": w.reload(n); ctx.ev.hit("reload_while_missing")
            elif op == "restart": h.settle("before a restart"); w.restart(); ctx.ev.hit("restart_while_missing")
            h.settle("%s (%s)" % (op, b))
        h.cfg("missing-data", restore=1)
        for n, m in w.ns.items():
            gone = {f for (x, k), f in loc.items() if x == n and k in m.live and absent(w, n, f)}
            for f in gone: h.expect("missing-data", os.path.join(w.s.data, n, "d%d" % f))
            w.d.read_all(w.c(n), m); h.settle("reading everything")
            h.cfg("missing-data", restore=1)
            for k in list(m.live): w.d.history(w.c(n), m, k)
            h.poll(); h.seen = list(h.calls)
            for f in range(maxid(w.idir(n))):
                if absent(w, n, f): shutil.copy(os.path.join(h.dir, "store", n, "d%d" % f), os.path.join(w.s.data, n, "d%d" % f))
        h.listing(w.adm)
    w.verify_all(); w.stop("STOP")

def run_listing(ctx):
    try: listing(ctx)
    finally: OFF[0] = 0

def emptied(h, c, what):
    end = time.monotonic() + 15
    while True:
        r = c.cmd("HOOKS")
        if r == []: break
        if time.monotonic() > end: raise Violation("hooks-not-expired", "%s: HOOKS still answers %s" % (what, short(r)))
        time.sleep(.3)
    h.poll(); h.base = len(h.calls); h.ctx.ev.hit("expirations")

def later(w, s=400):
    w.h.idle(); end = time.monotonic() + 20
    while any(e[4] == 0 for e in w.adm.cmd("HOOKS")):
        if time.monotonic() > end: raise Violation("hooks-finished", "HOOKS shows as running: %s" % short([e for e in w.adm.cmd("HOOKS") if e[4] == 0]))
        time.sleep(.25)
    OFF[0] += s; w.s.ctl.set(time_off=OFF[0])

def listing(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    # processes the server inherits, which are no hooks
    wrap = ["sh", "-c", "sleep .9 & sleep 2.2 & exec \"$@\"", "sh"] if sp["i"] % 2 else []
    w = Hooked(ctx, prof="tiny", nkeys=4, shim=True, wrap=wrap).start(); h = w.h
    if wrap:
        h.cfg("namespace-reloaded", sleep=3000); w.reload("default"); h.settle("RELOAD"); time.sleep(1.5); ctx.ev.hit("strangers")
    for rd in range(sp["rounds"]):
        h.cfg("namespace-created", sleep=rnd.choice([0, 800]), exit=rnd.choice([0, 1, 42])); h.cfg("namespace-deleted", sleep=1500)
        h.cfg("namespace-updated", exit=rnd.choice([0, 7])); h.cfg("namespace-reloaded", sleep=30, signal=rnd.choice([0, 15]))
        for i in range(rnd.choice([3, 9, 20])):
            x = rnd.random(); n = "ns%d" % rnd.randrange(6)
            if n not in w.ns: w.nsnew(n)
            elif x < .3: w.nsdel(n)
            elif x < .6: w.nsset(n, "maxsize", 1 << 30)
            elif x < .8: w.reload(n)
            else: w.op(n, lambda: w.jump(n), "NSJUMP")
            ctx.ev.hit("evaluations")
            if rnd.random() < .3: h.listing(w.adm, need_all=True)
        h.settle("changes"); h.listing(w.adm)
        h.idle(); h.listing(w.adm)
        # some running while old ones expire
        if rnd.random() < .6:
            later(w); emptied(h, w.adm, "all finished for long")
        else:
            later(w); h.cfg("namespace-reloaded", sleep=1200); w.reload("default"); h.settle("RELOAD"); time.sleep(.7)
            h.listing(w.adm, need_all=False); h.idle(); later(w); emptied(h, w.adm, "all finished for long")
        # one which runs for longer than ended ones are shown
        h.cfg("namespace-reloaded", sleep=1500, exit=9); w.reload("default"); h.settle("RELOAD"); time.sleep(.4)
        OFF[0] += 4000; w.s.ctl.set(time_off=OFF[0])
        time.sleep(.5); h.listing(w.adm); h.idle(); time.sleep(.8); h.listing(w.adm, need_all=True); ctx.ev.hit("long_hooks")
        h.cfg("namespace-reloaded", sleep=0); later(w); emptied(h, w.adm, "all finished for long")
        h.cfg("namespace-reloaded", sleep=700); w.reload("default"); w.reload("default"); h.settle("RELOAD")
        time.sleep(.5); h.listing(w.adm)
        ctx.distinct.add("listing/%d" % rd)
    w.verify_all(); w.stop("SIGTERM"); OFF[0] = 0

def run_start(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = Hooked(ctx, prof="small", nkeys=6).start(); h = w.h
    w.nsnew("a")
    for i in range(60):
        n = rnd.choice(list(w.ns)); w.op(n, lambda: w.step(n, dict(jump=0)), "step")
    h.settle("history"); w.stop("STOP")
    # the ready hook refuses
    for kw in ({"exit": 1}, {"exit": 255}, {"signal": 9}, {"exit": 3, "sleep": 300}):
        h.cfg("ready", **kw); h.expect("namespaces-init", w.s.index, w.s.data); h.expect("ready")
        try: w.s.start()
        except StartError: pass
        else: raise Violation("ready-refused", "the server starts although its ready hook ended with %s" % kw)
        h.settle("a refused start", ignore=("namespace-closing", "close", "namespace-created"))
        h.seen = list(h.calls); ctx.ev.hit("starts_refused"); ctx.distinct.add("ready/%s" % kw)
    h.cfg("ready", sleep=300); h.cfg("namespaces-init", sleep=100, exit=1)
    w.start(); w.verify_all(); w.stop("SIGINT")
    h.cfg("ready"); h.cfg("namespaces-init")
    # programs which cannot be run
    txt = os.path.join(h.dir, "notexec"); open(txt, "w").close()
    for bad in ("/nonexistent/hook", txt, h.dir):
        s2 = ctx.server("asan", None, args=["--hook", bad], datasize=w.datasize)
        try: s2.start()
        except StartError: ctx.ev.hit("starts_refused")
        else: raise Violation("ready-refused", "the server starts although the hook %s cannot be run" % bad)
    # namespaces-init brings everything back before namespaces are loaded
    saved = os.path.join(h.dir, "saved"); os.mkdir(saved)
    for d, x in ((w.s.data, "data"), (w.s.index, "index")):
        shutil.copytree(d, os.path.join(saved, x)); shutil.rmtree(d)
    with open(os.path.join(h.dir, "script"), "w") as f: f.write("cp -r '%s/data/.' '%s' && cp -r '%s/index/.' '%s'\n" % (saved, w.s.data, saved, w.s.index))
    h.cfg("namespaces-init", script=1)
    w.start(); w.verify_all(); ctx.ev.hit("states_restored"); w.stop("STOP"); ctx.ev.hit("evaluations", 8)
    ctx.distinct.add("restore/%d" % sp["i"])

def run_big(ctx):
    try: big(ctx)
    finally: OFF[0] = 0

def big(ctx):
    """long paths and long lists of dirty files"""
    sp, rnd = ctx.spec, ctx.rnd
    deep = ctx.sub("deep")
    while len(deep) < (rnd.choice([430, 455]) if sp["i"] % 2 else 0): deep = os.path.join(deep, "p" * min(120, 455 - len(deep)))
    os.makedirs(deep, exist_ok=True)
    w = Hooked(ctx, prof="tiny", nkeys=6, shim=True, mode="user", data=os.path.join(deep, "data"), index=os.path.join(deep, "index")).start(); h = w.h
    w.codes = {"jump-index": 1}; h.cfg("jump-index", exit=1)
    n, m, c = "default", w.ns["default"], w.c("default")
    files = rnd.choice([300, 500])
    for i in range(files):
        w.uniq += 1; w.d.set(c, m, b"key%d" % i, b"v%d" % w.uniq)
        if c.cmd("NSJUMP") != "OK": w.d.bad("nsjump", "NSJUMP refused")
    for i in range(files): w.d.delete(c, m, b"key%d" % i)
    h.poll(); h.idle(); h.seen = list(h.calls)
    if len(w.dirty(n)) < files: raise Violation("dirty-missing", "%d files changed, the dirty list has %d" % (files, len(w.dirty(n))))
    later(w); emptied(h, w.adm, "all finished for long")
    w.op(n, lambda: w.jump(n), "NSJUMP"); h.settle("NSJUMP"); h.listing(w.adm)
    later(w); emptied(h, w.adm, "all finished for long")
    w.codes = {}; h.cfg("jump-index"); w.op(n, lambda: w.jump(n), "NSJUMP"); h.settle("NSJUMP"); h.listing(w.adm)
    ctx.ev.hit("evaluations", files); ctx.ev.hit("big_listings", 2); ctx.distinct.add("big/%d/%d" % (files, len(deep)))
    w.verify_all(hist=False); w.stop("SIGTERM"); OFF[0] = 0

def run_forks(ctx):
    try: forks(ctx)
    finally: OFF[0] = 0

def forks(ctx):
    """no process can be created for some hooks"""
    sp, rnd = ctx.spec, ctx.rnd
    w = Hooked(ctx, prof="small", nkeys=6, shim=True, mode=rnd.choice(["user", None])).start(); h = w.h
    h.cfg("jump-data", offload=1)
    ctl = w.s.ctl; n, m = "default", w.ns["default"]
    for rd in range(4):
        for i in range(15): w.op(n, lambda: w.step(n, dict(jump=0, cursor=0)), "step")
        w.op(n, lambda: w.jump(n), "NSJUMP"); h.settle("history"); h.idle()
        c = w.c(n); ctl.set(fail_fork=2); before = w.dirty(n); k = maxid(w.idir(n))
        x = rnd.choice(["jump", "reload", "new"])
        if x == "jump":
            w.jump(n)
            left = w.dirty(n)
            if not before <= left: raise Violation("dirty-lost", "dirty list %s after jump-index could not be called, it was %s" % (sorted(left), sorted(before)))
            # that file was not offloaded
            sd = os.path.join(h.dir, "store", n); shutil.copy(os.path.join(w.s.data, n, "d%d" % k), os.path.join(sd, "d%d" % k))
        elif x == "reload":
            World.reload(w, n); World.reload(w, n); w.snap(n)
        else: World.nsnew(w, "n%d" % rd); w.snap("n%d" % rd); World.reload(w, n); w.snap(n)
        if ctl.get("fail_fork"): raise Violation("forks", "%d failing forks not used" % ctl.get("fail_fork"))
        ctx.ev.hit("forks_failed", 2); ctx.ev.hit("evaluations"); ctx.distinct.add("fork/%s" % x)
        # a missing file and no process
        gone = {}
        st = files.Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n)).parse()
        act = maxid(w.idir(n))
        for it in st.items():
            if not it.deleted and it.dataid != act: gone[it.id] = it.dataid
        if gone:
            key = rnd.choice(list(gone)); p = os.path.join(w.s.data, n, "d%d" % gone[key]); os.unlink(p)
            h.cfg("missing-data", restore=1); ctl.set(fail_fork=1)
            r = c.cmd("GET", key)
            if not isinstance(r, Err): raise Violation("missing-GET", "GET of a key whose file is missing and whose hook cannot be called answered %s" % short(r))
            h.expect("missing-data", p); w.d.read(c, m, key); h.settle("GET"); ctx.ev.hit("forks_failed")
        w.d.verify(c, m, hist=False)
        # what runs is still reaped, what is finished expires
        h.cfg("namespace-reloaded", exit=5, sleep=100); w.reload(n); h.settle("RELOAD"); h.idle(); time.sleep(.5)
        r = w.adm.cmd("HOOKS")
        late = [e for e in r if e[4] == 0] if isinstance(r, list) else None
        if late is None or late: raise Violation("hooks-finished", "HOOKS shows as running: %s" % short(late))
        if x == "new": w.nsset("n%d" % rd, "maxsize", 99999999); h.settle("NSSET")
        h.idle(); later(w); emptied(h, w.adm, "all finished for long")
    w.verify_all(hist=False); w.stop("SIGTERM"); OFF[0] = 0

def run_crash(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = Hooked(ctx, variant="plain", prof="small", nkeys=6).start(); h = w.h
    w.nsnew("a")
    for i in range(40):
        n = rnd.choice(list(w.ns)); w.op(n, lambda: w.step(n), "step")
        h.settle("step") if rnd.random() < .2 else None
    for n in w.ns:
        i = maxid(w.idir(n))
        h.expect("namespace-closing", n, os.path.join(w.idir(n), "i%d" % i), os.path.join(w.s.data, n, "d%d" % i), b" ".join(b"%d" % x for x in w.dirty(n)))
    h.expect("crash")
    w.s.proc.send_signal(signal.SIGSEGV); w.s.close_clients()
    w.s.proc.wait(30); rc = w.s.proc.returncode
    if rc not in (139, -11): raise Violation("crash-status", "ended with %s after SIGSEGV" % rc)
    h.settle("SIGSEGV"); ctx.ev.hit("crashes"); ctx.ev.hit("evaluations"); ctx.distinct.add("crash/%d" % sp["i"])
    open(w.s.out, "w").close()
    for m in w.ns.values(): m.locked = 0
    w.start(); w.verify_all(); w.stop("STOP")

def run_case(ctx): {"events": run_events, "offload": run_offload, "listing": run_listing, "start": run_start, "big": run_big, "forks": run_forks, "crash": run_crash}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("calls_checked", 500), ("settles", 200), ("waits_checked", 80), ("jumps_checked", 80), ("dirty_listed", 60), ("refetched", 30), ("refused_reads", 30),
            ("offloaded", 30), ("expirations", 6), ("listed", 300), ("running_listed", 3), ("starts_refused", 12), ("states_restored", 2), ("big_listings", 4), ("forks_failed", 15), ("crashes", 2), ("strangers", 2),
            ("writes_while_missing", 20), ("hook_missing-data", 60), ("hook_namespace-closing", 30)) if ev.get(k, 0) < n]
