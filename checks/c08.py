"""C08: namespaces: isolation and life cycle."""
import os, hashlib, struct
from vz import gen
from vz.work import World
from vz.model import NS, short
from vz.resp import Err, Closed, enc

PROP, LEVEL = "C08", "exploration"
TECHNIQUE = "runtime monitoring: reference-model oracle over all namespaces plus file-tree snapshots around every administrative command, ASan+UBSan"
NOTE = "all namespaces share the same key names; replies of all namespaces and the files of the untouched ones compared after each administrative command"
RULE = "one distinct = (administrative or data command, mode, number of namespaces, state class) or one hostile name with the command it was given to"

def cases(tier, seed):
    out = []
    for i in range(36 if tier == "quick" else 260):
        out.append({"kind": "life", "i": i, "seed": seed * 1000 + i, "ops": 500 if tier == "quick" else 1500, "mode": [None, "user", "seq"][i % 3], "prof": ["small", "tiny", "fill"][(i // 3) % 3]})
    for i in range(6 if tier == "quick" else 30): out.append({"kind": "names", "i": i, "seed": seed * 1000 + 500 + i})
    for i in range(8 if tier == "quick" else 60): out.append({"kind": "detached", "i": i, "seed": seed * 1000 + 600 + i})
    return out

def tree(*roots):
    out = {}
    for root in roots:
        for r, ds, fs in os.walk(root):
            for f in fs:
                p = os.path.join(r, f)
                if f.startswith(("s", "out", "ctl", "shim")) and os.path.basename(r) == "inner": continue
                try:
                    with open(p, "rb") as h: out[p] = hashlib.sha1(h.read()).hexdigest()
                except OSError: out[p] = "?"
            for d in ds: out[os.path.join(r, d) + "/"] = "dir"
    return out

class Life:
    def __init__(self, ctx, mode, prof):
        self.ctx, self.rnd = ctx, ctx.rnd
        base = ctx.sub("box/inner")
        with open(os.path.join(ctx.dir, "box", "sentinel"), "w") as f: f.write("outside")
        os.makedirs(os.path.join(ctx.dir, "box", "other", "sub"))
        with open(os.path.join(ctx.dir, "box", "other", "sub", "d0"), "w") as f: f.write("outside")
        self.w = w = World(ctx, mode=mode, prof=prof, base=base, nkeys=10)
        self.pool = w.pools["default"] or gen.key_pool(self.rnd, 10)
        w.pools["default"] = self.pool if w.defmode == "user" else []
        w.start()
        self.mode = mode

    def files(self): return tree(os.path.join(self.ctx.dir, "box"))
    def own(self, name):
        w = self.w
        name = os.fsdecode(name.encode("latin-1"))
        return (os.path.join(w.s.data, name) + "/", os.path.join(w.s.index, name) + "/")

    def others_same(self, before, touched, what):
        """no file changed except those below the directories of the namespaces named"""
        after = self.files()
        pre = tuple(p for t in touched for p in self.own(t))
        for p in sorted(set(before) | set(after)):
            if before.get(p) == after.get(p): continue
            if p.startswith(pre) if pre else False: continue
            if os.path.dirname(p) == self.w.s.base: continue
            self.w.d.bad("files-" + what.split()[0], "%s changed %s (%s -> %s)" % (what, p[len(self.ctx.dir):], before.get(p), after.get(p)))
        self.ctx.ev.hit("tree_comparisons")
        return after

    def new(self, name):
        w = self.w
        b = self.files()
        m = w.nsnew(name, None if self.mode else self.rnd.choice(["user", "seq"]))
        if m.mode == "user": w.pools[name] = self.pool
        self.others_same(b, [name], "NSNEW " + name)
        w.d.verify(w.c(name), m, extra=self.pool)       # empty, default settings
        return m

    def delete(self, name):
        w = self.w
        b = self.files()
        w.nsdel(name)
        a = self.others_same(b, [name], "NSDEL " + name)
        for p in a:
            if p.startswith(self.own(name)): w.d.bad("nsdel-files", "NSDEL %s left %s" % (name, p[len(self.ctx.dir):]))
        r = w.adm.cmd("NSINFO", name)
        if not isinstance(r, Err): w.d.bad("nsdel-info", "NSINFO of a deleted namespace answered %s" % short(r))
        c = w.conn(); r = c.cmd("SELECT", name); c.close()
        if not isinstance(r, Err): w.d.bad("nsdel-select", "SELECT of a deleted namespace answered %s" % short(r))

    def flush(self, name):
        w, rnd = self.w, self.rnd
        m = w.ns[name]; c = w.c(name)
        ok = m.password and not m.public
        b = self.files()
        if ok and rnd.random() < .3: w.jump(name); b = self.files()
        r = c.cmd("FLUSH")
        if not ok:
            if not isinstance(r, Err): w.d.bad("flush-public", "FLUSH of a public or password-less namespace answered %s" % short(r))
            a = self.files()
            if a != b: w.d.bad("flush-refused-files", "a refused FLUSH changed files")
            self.ctx.ev.hit("flush_refused")
            return
        if r != "OK": w.d.bad("flush", "FLUSH answered %s" % short(r))
        m.reset()
        a = self.others_same(b, [name], "FLUSH " + name)
        for p in a:
            if p.startswith(self.own(name)) and not p.endswith("/"):
                if os.path.basename(p) not in ("d0", "i0", "zdb-namespace"): w.d.bad("flush-files", "FLUSH left %s" % p[len(self.ctx.dir):])
                elif os.path.basename(p) in ("d0", "i0") and os.path.getsize(p) > 29: w.d.bad("flush-files", "FLUSH left content in %s" % p[len(self.ctx.dir):])
                elif os.path.basename(p) == "zdb-namespace" and a[p] != b.get(p): w.d.bad("flush-descriptor", "FLUSH changed the descriptor")
        self.ctx.ev.hit("flushes")
        w.verify_all()

def run_life(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    L = Life(ctx, sp["mode"], sp["prof"]); w = L.w
    names = ["a", "A", "aa", "d0", "i0", "zdb-namespace", "n" * 128, "n" * 127, "with space", "%s%d", "-1", "...", "..a", "default2", "DEFAULT", "defaul", "\xe9\xff"]
    for n in rnd.sample(names, 3): L.new(n)
    for n in range(sp["ops"]):
        x = rnd.random()
        live = [k for k in w.ns if k != "default"]
        if x < .02 and len(w.ns) < 7: L.new(rnd.choice([k for k in names if k not in w.ns])); act = "new"
        elif x < .032 and live: L.delete(rnd.choice(live)); act = "del"
        elif x < .04 and live:    # delete and create again at once
            k = rnd.choice(live); L.delete(k); L.new(k); act = "renew"
        elif x < .07 and live:
            k = rnd.choice(live); b = L.files()
            p, v = rnd.choice([("password", "pw%d" % n), ("password", "*"), ("public", 0), ("public", 1), ("maxsize", 10**9 + n), ("maxsize", 0)])
            w.nsset(k, p, v); L.others_same(b, [k], "NSSET " + k); act = "set-" + p
        elif x < .09 and live:
            k = rnd.choice(live)
            if rnd.random() < .7: w.nsset(k, "password", "secret%d" % n); w.nsset(k, "public", 0)
            L.flush(k); act = "flush"
        elif x < .1: k = rnd.choice(list(w.ns)); b = L.files(); w.reload(k); L.others_same(b, [], "RELOAD"); act = "reload"
        elif x < .106: w.restart(); act = "restart"
        else:
            k = rnd.choice(list(w.ns))
            if n % 10 == 0:
                b = L.files(); act = w.step(k); L.others_same(b, [k], act)
            else: act = w.step(k)
        ctx.distinct.add("%s/%s/%d" % (act, sp["mode"], len(w.ns)))
        if x < .1: w.verify_all(hist=False) if rnd.random() < .5 else None
    w.verify_all(); w.restart(); w.verify_all()
    ctx.sample = {"mode": sp["mode"], "namespaces": list(w.ns), "flushes": ctx.ev.get("flushes"), "tree_comparisons": ctx.ev.get("tree_comparisons")}
    w.s.stop()

NAMES = [b".", b"..", b"/", b"a/b", b"../x", b"../other", b"../../box", b"/etc", b"a/../b", b"default", b"\0", b"\0x", b"\0/..", b"a\0b", b"x" * 129, b"x" * 200, b"x" * 255, b"x" * 256,
         b"x" * 300, b"x" * 5000, b".lockfile", b"", b"\n", b"..\0", b".\0x", b"default\0x", b"a/\0", b"./a", b"a/.", b"../other/sub"]

def run_names(ctx):
    """names that must not lead outside, to the roots or to the default namespace"""
    rnd = ctx.rnd
    L = Life(ctx, None, "tiny"); w = L.w
    m = w.ns["default"]
    for k in ("keep", "a"): L.new(k)
    for n in list(w.ns):
        for _ in range(15): w.step(n, dict(set=40))
    order = [(n, c) for n in NAMES for c in ("NSNEW", "NSDEL", "SELECT", "NSINFO", "RELOAD", "NSSET")]
    rnd.shuffle(order)
    for name, cmd in order:
        ctx.ev.hit("evaluations"); ctx.distinct.add("name/%s/%r" % (cmd, name[:20]))
        c = w.conn(); b = L.files(); before = list(map(bytes, w.adm.cmd("NSLIST")))
        args = {"NSSET": ("maxsize", "1")}.get(cmd, ())
        try: r = c.cmd(cmd, name, *args)
        except Closed: w.s.diagnose(); r = Err("closed"); 
        short_ = name.split(b"\0")[0]
        bad = short_ in (b"", b".", b"..", b"default") or b"/" in short_ or len(name) > 128
        a = L.files(); after = list(map(bytes, w.adm.cmd("NSLIST")))
        if cmd == "NSNEW":
            if bad and not isinstance(r, Err): w.d.bad("name-new", "NSNEW %r answered %s" % (name, short(r)))
            if isinstance(r, Err):
                if after != before: w.d.bad("name-new-list", "refused NSNEW %r changed NSLIST" % name)
                if a != b: w.d.bad("name-new-files", "refused NSNEW %r changed files: %s" % (name, [p[len(ctx.dir):] for p in set(a) ^ set(b)][:5]))
            else:
                new = [x for x in after if x not in before]
                if len(new) != 1: w.d.bad("name-new-list", "NSNEW %r: NSLIST gained %r" % (name, new))
                nd = new[0].decode("latin-1")
                for p in set(a) ^ set(b):
                    if not p.startswith(L.own(nd)): w.d.bad("name-new-files", "NSNEW %r created %s" % (name, p[len(ctx.dir):]))
                if w.adm.cmd("NSDEL", new[0]) != "OK": w.d.bad("name-del", "NSDEL of the new namespace %r refused" % new[0])
                if L.files() != b: w.d.bad("name-del-files", "NSDEL %r left or removed something" % new[0])
        elif cmd == "NSDEL":
            # only a namespace that exists may go
            if short_ == b"a" and not isinstance(r, Err):
                del w.ns["a"]; [x.close() for x in w.cl.pop("a")]; w.pools.pop("a")
                L.others_same(b, ["a"], "NSDEL %r" % name); L.new("a")
            else:
                if not isinstance(r, Err): w.d.bad("name-del", "NSDEL %r answered %s" % (name, short(r)))
                if a != b: w.d.bad("name-del-files", "NSDEL %r changed files" % name)
        elif cmd in ("SELECT", "NSINFO", "RELOAD", "NSSET"):
            if cmd == "NSSET" and short_ == b"a" and not isinstance(r, Err): w.nsset("a", "maxsize", 0); b = L.files(); a = b
            if bad and short_ != b"default" and not isinstance(r, Err): w.d.bad("name-" + cmd.lower(), "%s %r answered %s" % (cmd, name, short(r)))
            if a != b: w.d.bad("name-%s-files" % cmd.lower(), "%s %r changed files" % (cmd, name))
        c.close()
        if rnd.random() < .1: w.verify_all(hist=False)
    if w.s.proc.poll() is not None: w.s.check_dead()
    w.verify_all()
    w.restart(); w.verify_all()
    ctx.sample = {"names": len(NAMES)}
    w.s.stop()

def run_detached(ctx):
    """clients attached to a namespace that goes away"""
    rnd = ctx.rnd
    w = World(ctx, mode=None, prof="tiny").start()
    for rd in range(8):
        name = "vic"
        m = w.nsnew(name, rnd.choice(["user", "seq"]))
        for _ in range(10): w.d.set(w.c(name), m, b"" if m.mode == "seq" else b"old%d" % rnd.randrange(5), b"old")
        extra = [w.conn() for _ in range(6)]
        for c in extra: w.select(c, name)
        oldkeys = list(m.live)
        cur = w.d.keycur(extra[0], m, oldkeys[0])
        # own namespace can't be deleted
        a2 = w.conn(); w.select(a2, name)
        if not isinstance(a2.cmd("NSDEL", name), Err): w.d.bad("nsdel-own", "NSDEL of the namespace in use by the caller accepted")
        if isinstance(a2.cmd("NSINFO", name), Err): w.d.bad("nsdel-own", "namespace gone after a refused NSDEL")
        a2.close()
        w.nsdel(name)
        again = rnd.random() < .7
        if again:
            m2 = w.nsnew(name, rnd.choice(["user", "seq"]))
            for i in range(8): w.d.set(w.c(name), m2, b"" if m2.mode == "seq" else oldkeys[i % len(oldkeys)] if i < 3 and len(oldkeys[0]) < 200 else b"new%d" % i, b"new-%d" % i)
        cmds = [("GET", oldkeys[0]), ("SET", oldkeys[0], b"ghost"), ("SET", b"ghost", b"ghost"), ("DEL", oldkeys[0]), ("SCAN",), ("RSCAN",), ("HISTORY", oldkeys[0]), ("EXISTS", oldkeys[0]),
                ("DBSIZE",), ("NSJUMP",), ("FLUSH",), ("MGET", oldkeys[0]), ("KEYCUR", oldkeys[0]), ("SCAN", cur), ("LENGTH", oldkeys[0]), ("KEYTIME", oldkeys[0]), ("CHECK", oldkeys[0]),
                ("WAIT", "SET", "100"), ("DATA", "RAW", "0", "28"), ("INDEX", "DIRTY"), ("MIRROR",), ("KSCAN", "o")]
        rnd.shuffle(cmds)
        for c in extra:
            if rnd.random() < .2: c.close(); continue
            pipe = [cmds.pop() for _ in range(3)] if len(cmds) >= 3 else [("GET", oldkeys[0])]
            if rnd.random() < .5: c.raw(b"".join(enc(*p) for p in pipe)); sent = True
            else: sent = False
            for n, p in enumerate(pipe):
                try:
                    if not sent: c.send(*p)
                    r = c.recv()
                except Closed:
                    if n == 0: w.s.diagnose(); w.d.bad("detached-noreply", "detached client disconnected without any error for %s" % p[0])
                    break
                ctx.ev.hit("evaluations"); ctx.ev.hit("detached_commands")
                ctx.distinct.add("detached/%s/%s" % (p[0], again))
                if not isinstance(r, Err): w.d.bad("detached-reply", "%s of a client whose namespace was deleted answered %s" % (p[0], short(r)))
        w.verify_all()
        if again:
            if rnd.random() < .3: w.restart(); w.verify_all()
            w.nsdel(name)
    w.verify_all(); w.restart(); w.verify_all()
    ctx.sample = {"detached_commands": ctx.ev.get("detached_commands")}
    w.s.stop()

def run_case(ctx):
    {"life": run_life, "names": run_names, "detached": run_detached}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("tree_comparisons", 1000), ("nsdel", 150), ("nsnew", 200), ("detached_commands", 150), ("restarts", 50)) if ev.get(k, 0) < n]
