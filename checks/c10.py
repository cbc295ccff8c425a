"""C10: lock, freeze, worm, maxsize and mode rules."""
import os, re, struct
from vz import gen
from vz.work import World
from vz.files import Store
from vz.model import short, now0, now1
from vz.resp import Err, Closed
from checks.c08 import tree

PROP, LEVEL = "C10", "exploration"
TECHNIQUE = "runtime monitoring: reference-model oracle of the restrictions over every dataset command, file snapshots around refused commands, ASan+UBSan"
NOTE = "settings toggled at random points of random histories; each reply compared with the rule, each refusal compared with the files before it, full verification after each lifting"
RULE = "one distinct = (command, lock state, worm, limit state, key state, mode) combination executed"

def cases(tier, seed):
    out = []
    for i in range(30 if tier == "quick" else 240):
        out.append({"kind": "hist", "i": i, "seed": seed * 1000 + i, "ops": 900 if tier == "quick" else 2500, "mode": [None, "user", "seq"][i % 3], "release": i % 5 == 4})
    for i in range(8 if tier == "quick" else 60): out.append({"kind": "mode", "i": i, "seed": seed * 1000 + 400 + i})
    return out

READ1 = ("GET", "EXISTS", "LENGTH", "KEYTIME", "CHECK", "HISTORY", "KEYCUR")

class Rules:
    def __init__(self, ctx, mode, variant="asan", prof="small"):
        self.ctx, self.rnd = ctx, ctx.rnd
        self.w = World(ctx, mode=mode, prof=prof, nkeys=9, variant=variant)
        self.w.start()
        self.variant = variant

    def snap(self, m): return tree(self.w.s.data + "/" + m.name, self.w.s.index + "/" + m.name)

    def refuse(self, m, c, why, *cmd):
        """the command must be answered by an error and have no effect on the files"""
        w = self.w
        b = self.snap(m) if self.rnd.random() < (.8 if why == "unknown-id" else .3) else None
        w.d.note(*cmd[:2])
        r = c.cmd(*cmd)
        if cmd[0] == "MGET" and isinstance(r, list) and all(isinstance(x, Err) for x in r): r = Err("all")
        if not isinstance(r, Err): w.d.bad("%s-%s" % (why, cmd[0]), "%s accepted while the namespace is %s: answered %s" % (cmd[0], why, short(r)), ns=m.name)
        if b is not None:
            a = self.snap(m)
            if why == "unknown-id":
                # the next files may be prepared for the size of the value, before the key is looked at
                for p in set(a) - set(b):
                    if os.path.getsize(p) <= 64 and re.match(r"[id]\d+$", os.path.basename(p)): del a[p]; self.ctx.ev.hit("refusal_rotations")
            if a != b: w.d.bad("%s-%s-effect" % (why, cmd[0]), "refused %s (%s) changed files %s" % (cmd[0], why, [x for x in set(a) | set(b) if a.get(x) != b.get(x)][:3]))
            self.ctx.ev.hit("refusal_snapshots")
        self.ctx.ev.hit("refused_" + why)

    def anykey(self, m):
        k = self.w.key(m)
        return k if k else b"x"

    def cursor(self, m):
        return self.rnd.choice(m.cursors)[0] if m.cursors else None

    def op(self, name):
        w, rnd = self.w, self.rnd
        m = w.ns[name]; c = w.c(name)
        cmd = rnd.choices(("SET", "SETX", "SETTS", "DEL", "DELTS", "MGET", "SCAN", "SCANX", "RSCAN", "KSCAN", "FLUSH", "INFO", "FULL") + READ1,
                          (25, 4, 3, 12, 2, 2, 2, 1, 2, 1, .6, 1, .3) + (5,) * len(READ1))[0]
        lim = "-" if not m.maxsize else "over" if m.size() > m.maxsize else "full" if m.size() == m.maxsize else "room"
        self.ctx.ev.hit("evaluations")
        if cmd in ("SET", "SETX", "SETTS"):
            if m.mode == "seq": k = b"" if rnd.random() < .5 else self.anykey(m)
            else: k = w.key(m)
            cur = m.live.get(k)
            v = w.value(cur)
            if m.maxsize and rnd.random() < .6:        # aim at the boundary
                room = m.maxsize - m.size() + (len(cur[-1].value) if cur else 0)
                n = room + rnd.choice([-1, 0, 0, 1, 2])
                if 0 <= n < 400000: w.uniq += 1; v = gen.payload(rnd, w.uniq, n)
            self.ctx.distinct.add("%s/%d/%d/%s/%s/%s" % (cmd, m.locked, m.worm, lim, "live" if cur else "dead" if k in m.dead else "new", m.mode))
            verb = "SETX" if cmd == "SETX" else "SET"
            args = (verb, k, v) + ((str(rnd.choice([5, 99999])),) if cmd == "SETTS" else ())
            if m.locked: return self.refuse(m, c, "locked" if m.locked == 1 else "frozen", *args)
            if m.mode == "seq" and k and not cur: return self.refuse(m, c, "unknown-id", *args)
            if m.worm and cur:
                if cur[-1].value != v: return self.refuse(m, c, "worm", *args)
                r = c.cmd(*args)
                if r is not None and not isinstance(r, Err): w.d.bad("worm-SET", "SET of identical bytes in worm mode answered %s" % short(r))
                return
            new = m.size() - (len(cur[-1].value) if cur else 0) + len(v)
            if m.maxsize and new > m.maxsize:
                if cur and cur[-1].value == v or m.size() > m.maxsize and new < m.size():
                    # no new bytes, or shrinking a set which is already over a lowered limit
                    t0 = now0(); r = c.cmd(*args); t1 = now1()
                    if isinstance(r, Err): return self.ctx.ev.hit("over_limit_refused")
                    if cmd == "SETTS": t0 = t1 = int(args[3])
                    w.d.set_reply(m, k, v, r, t0, t1)
                    return
                return self.refuse(m, c, "full", *args)
            t0 = now0(); w.d.note(*args[:2]); r = c.cmd(*args); t1 = now1()
            if cmd == "SETTS": t0 = t1 = int(args[3])
            w.d.set_reply(m, k, v, r, t0, t1)
            if m.maxsize: self.ctx.ev.hit("limit_exact" if new == m.maxsize else "limit_fit")
            return
        k = self.anykey(m)
        self.ctx.distinct.add("%s/%d/%d/%s/%s/%s" % (cmd, m.locked, m.worm, lim, "live" if k in m.live else "no", m.mode))
        if cmd in ("DEL", "DELTS"):
            args = ("DEL", k) + (("77",) if cmd == "DELTS" else ())
            if m.locked: return self.refuse(m, c, "locked" if m.locked == 1 else "frozen", *args)
            if m.worm and k in m.live: return self.refuse(m, c, "worm", *args)
            return w.d.del_reply(m, k, c.cmd(*args))
        if cmd == "FLUSH":
            if m.locked: return self.refuse(m, c, "locked" if m.locked == 1 else "frozen", "FLUSH")
            if m.worm: return self.refuse(m, c, "worm", "FLUSH")
            if m.public or not m.password: return self.refuse(m, c, "public", "FLUSH")
            r = c.cmd("FLUSH")
            if r != "OK": w.d.bad("flush", "FLUSH answered %s" % short(r))
            fresh = m.fresh
            m.reset(); self.ctx.ev.hit("flushes")
            m.fresh = None
            return
        if cmd == "INFO":
            w.d.check_nsinfo(w.adm, m); w.d.check_dbsize(c, m); return
        if m.locked == 2:
            if cmd == "MGET": args = ("MGET", k, self.anykey(m))
            elif cmd in ("SCAN", "SCANX", "RSCAN"):
                cu = self.cursor(m); args = (cmd, cu) if cu and rnd.random() < .5 else (cmd,)
            elif cmd == "KSCAN":
                if m.mode == "seq": return
                args = ("KSCAN", k[:1])
            elif cmd == "FULL": return
            else: args = (cmd, k)
            return self.refuse(m, c, "frozen", *args)
        if cmd == "MGET": w.d.mget(c, m, [k, self.anykey(m), self.anykey(m)])
        elif cmd in ("SCAN", "SCANX", "RSCAN"): w.d.check_scan(c, m, cmd)
        elif cmd == "KSCAN":
            if m.mode == "seq" or self.variant == "release": return
            w.d.kscan(c, m, k[:rnd.choice([1, 2, 255])])
        elif cmd == "FULL": w.d.verify(c, m, extra=w.pools[name])
        elif cmd == "HISTORY": w.d.history(c, m, k)
        elif cmd == "KEYCUR": w.d.keycur(c, m, k)
        else: w.d.read(c, m, k, cmd)

    def toggle(self, name):
        w, rnd = self.w, self.rnd
        m = w.ns[name]
        default = name == "default"
        x = rnd.random()
        was = m.locked
        if x < .3 or m.locked and x < .5: w.nsset(name, "lock", rnd.choice([0, 1]))
        elif x < .5: w.nsset(name, "freeze", rnd.choice([0, 1]))
        elif x < .56: self.badset(name)
        elif default: self.badset(name)
        elif x < .70: w.nsset(name, "worm", 0 if m.worm else 1)
        elif x < .92:
            s = m.size()
            w.nsset(name, "maxsize", rnd.choice([0, s, s + 1, s + 50, s + 5000, max(1, s // 2), s + 300000, 1 << 33]))
        elif x < .96: w.nsset(name, "public", rnd.choice([0, 1]))
        else: w.nsset(name, "password", rnd.choice(["*", "pw"]))
        if was and not m.locked:     # restriction lifted: nothing has changed
            w.d.verify(w.c(name), m, extra=w.pools[name]); self.ctx.ev.hit("lifted")
        w.d.check_nsinfo(w.adm, m)

    def badset(self, name):
        w, rnd = self.w, self.rnd
        m = w.ns[name]
        bad = [(name, "nothing", "1"), (name, "maxsizes", "1"), (name, "mode", "other"), ("missing", "worm", "1"), (name, "lockx", "1"), (name, "", "1")]
        if name == "default": bad += [("default", p, "1") for p in ("maxsize", "worm", "public", "password")]
        if m.fresh is False: bad += [(name, "mode", "user"), (name, "mode", "seq")] * 2
        a = rnd.choice(bad)
        r = w.adm.cmd("NSSET", *a)
        if not isinstance(r, Err): w.d.bad("nsset-" + a[1], "NSSET %s %s %s answered %s" % (a + (short(r),)))
        w.d.check_nsinfo(w.adm, m)
        self.ctx.ev.hit("bad_settings")

def run_hist(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    R = Rules(ctx, sp["mode"], "release" if sp["release"] else "asan", rnd.choice(["tiny", "small", "small", "fill"])); w = R.w
    for n in ("one", "two"): w.nsnew(n, None if sp["mode"] else rnd.choice(["user", "seq"]))
    for n in range(sp["ops"]):
        name = rnd.choices(list(w.ns), [1, 3, 2])[0]
        x = rnd.random()
        if x < .06: R.toggle(name)
        elif x < .065 and not w.ns[name].locked: w.jump(name)
        elif x < .067: w.restart(rnd.choice(["SIGINT", "SIGTERM"]) if sp["release"] else None); w.verify_all()
        elif x < .07 and not w.ns[name].locked: w.reload(name); w.d.check_nsinfo(w.adm, w.ns[name])
        else: R.op(name)
    for name, m in w.ns.items():
        if m.locked: w.nsset(name, "lock", 0); w.nsset(name, "freeze", 0)
    w.verify_all()
    for name, m in w.ns.items():       # normal service again
        if name != "default": w.nsset(name, "worm", 0); w.nsset(name, "maxsize", 0)
        for _ in range(15): w.step(name)
    w.verify_all()
    ctx.sample = {"mode": sp["mode"], "refusals": {k: v for k, v in ctx.ev.items() if k.startswith("refused_")}, "liftings": ctx.ev.get("lifted")}
    w.s.stop("SIGINT" if sp["release"] else "STOP")

def run_mode(ctx):
    """the mode can be changed only before the first object"""
    rnd = ctx.rnd
    w = World(ctx, mode=None, prof="tiny").start()
    seen = 0
    for i in range(14):
        name = "m%d" % i if i else "default"
        if i: m = w.nsnew(name)
        else: m = w.ns["default"]
        for _ in range(rnd.randrange(4)):
            t = rnd.choice(["user", "seq"])
            w.nsset(name, "mode", t); m.mode = t
            if rnd.random() < .3: w.restart()
            elif rnd.random() < .2: w.reload(name)
            w.d.check_nsinfo(w.adm, m)
            ctx.ev.hit("mode_changes")
        w.pools[name] = gen.key_pool(rnd, 6) if m.mode == "user" else []
        # refused commands do not make it used, nor does reading
        if rnd.random() < .5:
            w.d.delete(w.c(name), m, b"nothing"); w.d.read(w.c(name), m, b"nothing"); w.d.check_scan(w.c(name), m)
            t = rnd.choice(["user", "seq"]); w.nsset(name, "mode", t); m.mode = t; w.pools[name] = gen.key_pool(rnd, 6) if t == "user" else []
        k = w.d.set(w.c(name), m, b"" if m.mode == "seq" else w.key(m), b"first%d" % i)
        how = rnd.randrange(6)
        if how == 0: w.d.delete(w.c(name), m, k)
        elif how == 1: w.d.delete(w.c(name), m, k); w.restart()
        elif how == 2: w.d.delete(w.c(name), m, k); w.jump(name)
        elif how == 3: w.jump(name); w.d.delete(w.c(name), m, k); w.restart()
        elif how == 4: w.d.delete(w.c(name), m, k); w.reload(name)
        for t in ("user", "seq"):
            r = w.adm.cmd("NSSET", name, "mode", t)
            ctx.ev.hit("evaluations"); ctx.distinct.add("mode/%s/%s/%d" % (m.mode, t, how)); ctx.ev.hit("mode_refused")
            if not isinstance(r, Err): w.d.bad("mode-used", "the mode of a namespace which held an object could be changed to %s (case %d)" % (t, how))
        w.verify_all()
        for _ in range(12): w.step(name)
        w.verify_all()
    w.restart(); w.verify_all()
    # on a server with one fixed mode
    w.s.stop()
    ctx.sample = {"mode_changes": ctx.ev.get("mode_changes")}
    for fixed in ("user", "seq"):
        f = World(ctx, mode=fixed, prof="tiny", base=ctx.sub("fix" + fixed)).start()
        f.nsnew("n")
        for t in ("user", "seq"):
            r = f.adm.cmd("NSSET", "n", "mode", t)
            if not isinstance(r, Err): f.d.bad("mode-fixed", "NSSET mode accepted on a server running in %s mode" % fixed)
        for _ in range(20): f.step()
        f.verify_all(); f.s.stop()

def run_case(ctx): {"hist": run_hist, "mode": run_mode}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("refused_locked", 1000), ("refused_frozen", 1000), ("refused_worm", 100), ("refused_full", 300), ("limit_exact", 100), ("lifted", 100),
            ("refusal_snapshots", 800), ("mode_refused", 100), ("restarts", 30)) if ev.get(k, 0) < n]
