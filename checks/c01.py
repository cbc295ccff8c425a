"""C01: user-key namespaces behave as one map."""
import random
from vz import gen
from vz.model import NS, Driver, Counter, now0, now1, short
from vz.resp import enc, Err

PROP, LEVEL = "C01", "exploration"
TECHNIQUE = "runtime monitoring: reference-map oracle over recorded replies, per-key linearizability search, ASan+UBSan"
NOTE = "held on every reply of the generated histories; assumes the harness model and that replies are the only effect a client sees"
RULE = ("one distinct = one (command, outcome class, key kind, payload size class, previous-state class) combination "
        "observed on the real server and compared with the reference map")
ASSUMPTIONS = ["the order of commands is the order in which one controlling process sends them and reads their replies; "
               "concurrent clients are checked on keys they own and on a shared key per-key linearizability search"]

def cases(tier, seed):
    n = 48 if tier == "quick" else 400
    ops = 2000 if tier == "quick" else 6000
    out = []
    for i in range(n):
        out.append({"kind": "map", "i": i, "seed": seed * 1000 + i, "ops": ops, "mode": ["mixed", "user"][i % 2],
                    "size": ["small", "big", "tiny", "mixed"][i % 4]})
    for i in range(8 if tier == "quick" else 64):
        out.append({"kind": "clients", "i": i, "seed": seed * 1000 + 500 + i, "ops": 600 if tier == "quick" else 2500})
    for i in range(1 if tier == "quick" else 4):
        out.append({"kind": "sizes", "i": i, "seed": seed * 1000 + 700 + i})
    for i in range(1 if tier == "quick" else 6):
        out.append({"kind": "release", "i": i, "seed": seed * 1000 + 800 + i, "ops": 2500})
    return out

VARIANTS = ("asan", "release")

def sclass(n):
    for lim in (0, 1, 4, 8, 16, 64, 256, 1024, 4096, 8192, 65536): 
        if n <= lim: return lim
    return 1 << 20

class MapRun:
    def __init__(self, ctx, nclients=3, prof="mixed", nkeys=24):
        self.ctx, self.rnd = ctx, ctx.rnd
        self.pool = gen.key_pool(self.rnd, nkeys)
        self.uniq = 0
        self.prof = prof
    def value(self, ns, key):
        r = self.rnd; self.uniq += 1
        cur = ns.live.get(key)
        if cur:
            old = cur[-1].value
            x = r.random()
            if x < .12: return old
            if x < .30 and len(old) >= 5: return gen.same_crc(old, r)
            if x < .36 and old: # one bit away
                b = bytearray(old); p = r.randrange(len(b)); b[p] ^= 1 << r.randrange(8); return bytes(b)
            if x < .42: return b"\0" + old        # leading zero: same checksum, other length
            if x < .48 and len(cur) > 1: return cur[-2].value
        if self.prof == "tiny": return gen.payload(r, self.uniq, r.choice([0, 1, 2, 3, 4, 5, 8, 16]))
        if self.prof == "small": return gen.payload(r, self.uniq, r.choice(gen.SIZES[:20]))
        if self.prof == "big": return gen.payload(r, self.uniq, None, big=.4)
        return gen.payload(r, self.uniq)

def run_map(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    args = [] if sp.get("mode") == "mixed" else ["--mode", "user"]
    rel = sp["kind"] == "release"
    s = ctx.server("release" if rel else "asan", args=args, datasize=rnd.choice([524289, 600000, 1 << 20]))
    s.start()
    m = MapRun(ctx, prof=sp.get("size", "mixed"))
    d = Driver(ctx.ev)
    cl = [s.client() for _ in range(3)]
    ns = NS("default"); ns2 = NS("other")
    for c in cl: pass
    assert cl[0].cmd("NSNEW", "other") == "OK"
    n = 0
    while n < sp["ops"]:
        n += 1
        c = rnd.choice(cl)
        k = rnd.choice(m.pool)
        x = rnd.random()
        st = "live" if k in ns.live else "dead" if k in ns.dead else "never"
        if x < .42:
            v = m.value(ns, k)
            old = ns.live[k][-1].value if k in ns.live else None
            rel_ = "none" if old is None else "same" if old == v else "samecrc" if gen.crc(old) == gen.crc(v) else "diff"
            ts = rnd.choice([0, 1, 1234567890, 0x7fffffff, 0xffffffff]) if rnd.random() < .05 else None
            d.set(c, ns, k, v, ts)
            ctx.distinct.add("set/%s/%s/%d/%d" % (st, rel_, sclass(len(v)), len(k) > 100))
            if rnd.random() < .5: d.read(rnd.choice(cl), ns, k)
        elif x < .58:
            d.delete(c, ns, k); ctx.distinct.add("del/%s" % st)
            if rnd.random() < .5: d.read(rnd.choice(cl), ns, k, rnd.choice(Driver.READS))
        elif x < .93:
            op = rnd.choice(Driver.READS)
            if rnd.random() < .15: # a near miss of a pool key
                kk = rnd.choice([k + b"\0", k[:-1], k[1:], b"\0" + k, k.swapcase(), gen.xor_tail(k, rnd.choice(gen.bucket_delta())) if len(k) >= 4 else k + b"x"])[:255]
                if kk: k = kk; st = "live" if k in ns.live else "near"
            d.read(c, ns, k, op)
            ctx.distinct.add("%s/%s/%d" % (op, st, sclass(len(ns.live[k][-1].value)) if k in ns.live else -1))
        elif x < .97:
            ks = [rnd.choice(m.pool) for _ in range(rnd.choice([1, 2, 5, 17]))]
            d.mget(c, ns, ks); ctx.distinct.add("MGET/%d" % len(ks))
        elif x < .985:
            d.check_dbsize(c, ns)
        else:
            c.cmd("NSJUMP") if rnd.random() < .3 else d.read_all(c, ns)
        if n % 300 == 0: d.read_all(cl[1], ns, m.pool)
        ctx.ev.hit("evaluations")
    d.read_all(cl[2], ns, m.pool)
    # many keys (bucket chains) then everything again
    extra = []
    for i in range(150):
        k = gen.xor_tail(b"chain-%04d-base" % (i // 30), gen.bucket_delta()[i % 30]); extra.append(k)
        d.set(cl[i % 3], ns, k, b"v%d" % i)
    rnd.shuffle(extra)
    for k in extra[:90]: d.delete(cl[0], ns, k)
    d.read_all(cl[1], ns, m.pool + extra)
    info = d.nsinfo(cl[0], "default")
    ctx.ev.hit("data_files", int(info["data_current_id"]) + 1)
    ctx.ev.hit("bucket_collisions", sum(1 for _ in extra))
    ctx.sample = {"ops": sp["ops"], "live_keys": len(ns.live), "deleted": len(ns.dead), "data_files": int(info["data_current_id"]) + 1}
    s.stop() if not rel else s.stop("SIGTERM")

def run_sizes(ctx):
    """every payload length around the buffer boundaries, and the limits"""
    rnd = ctx.rnd
    s = ctx.server("asan", datasize=64 << 20); s.start()
    c = s.client(); ns = NS("default"); d = Driver(ctx.ev)
    u = 0
    L = list(range(0, 70)) + [x + e for x in (8192, 16384, 32768) for e in range(-140, 10, 3)] + [(1 << 20) - 1, 1 << 20, 3 << 20, (8 << 20) - 1, 8 << 20]
    if ctx.spec["i"]: L = list(range(7900, 8300)) + list(range(16200, 16400))
    for l in L:
        u += 1
        k = b"size-%d" % (l % 97)
        v = gen.payload(rnd, u, l)
        d.set(c, ns, k, v); d.read(c, ns, k); d.read(c, ns, k, "LENGTH")
        ctx.distinct.add("size/%d" % l); ctx.ev.hit("evaluations")
    for l in list(range(1, 256)):
        k = rnd.randbytes(l); d.set(c, ns, k, b"k%d" % l); d.read(c, ns, k)
        ctx.distinct.add("klen/%d" % l); ctx.ev.hit("evaluations")
    # over the limits: refused without effect, whatever they start or end with
    live = [k for k in ns.live]
    bads = [b"x" * 256, b"x" * 257, b"x" * 512, b"x" * 65536]
    for k in rnd.sample(live, 30) + [k for k in live if len(k) in (1, 2, 254, 255)][:4]:
        bads.append((k + rnd.randbytes(256) if rnd.random() < .5 else k + b"\0" * 256) if rnd.random() < .8 else k + rnd.randbytes(65536))
        bads.append(rnd.randbytes(256) + k)
    for bad in bads:
        w = "a %d byte key" % len(bad); ctx.ev.hit("overlong"); ctx.ev.hit("evaluations")
        r = c.cmd("SET", bad, b"v")
        if not isinstance(r, Err): ctx.violation("key-too-long", "SET with %s answered %r" % (w, r))
        for op in ("GET", "EXISTS", "LENGTH", "KEYTIME", "DEL", "CHECK", "KEYCUR", "HISTORY"):
            r = c.cmd(op, bad)
            if not (isinstance(r, Err) or r is None or r == 0): ctx.violation("key-too-long", "%s with %s answered %s" % (op, w, short(r)))
        good = rnd.sample(live, 2)
        for q in ([bad], good + [bad], [good[0], bad, good[1]], [bad] + good):
            r = c.cmd("MGET", *q)
            if isinstance(r, Err): continue
            if not isinstance(r, list) or len(r) != len(q): ctx.violation("key-too-long", "MGET with %s answered %s" % (w, short(r)))
            for x, y in zip(q, r):
                if x is bad and not (y is None or isinstance(y, Err)): ctx.violation("key-too-long", "MGET with %s answered %s for it" % (w, short(y)))
    d.read_all(c, ns)
    s.stop()

def run_clients(ctx):
    """clients write concurrently: own keys exactly, shared keys must be explained by some order"""
    rnd = ctx.rnd; sp = ctx.spec
    s = ctx.server("asan", args=["--mode", "user"]); s.start()
    N = 6
    cl = [s.client() for _ in range(N)]
    ns = NS("default"); d = Driver(ctx.ev)
    own = [[b"own-%d-%d" % (i, j) for j in range(5)] for i in range(N)]
    shared = [b"shared-%d" % i for i in range(3)]
    uniq = 0
    state = {k: {None} for k in shared}    # possible current values
    for rd in range(sp["ops"] // 20):
        plans = []
        for i, c in enumerate(cl):
            plan = []
            for _ in range(rnd.randint(1, 8)):
                uniq += 1
                if rnd.random() < .7:
                    k = rnd.choice(own[i]); kind = rnd.choice(["SET", "SET", "GET", "DEL", "LENGTH", "EXISTS"])
                else:
                    k = rnd.choice(shared); kind = rnd.choice(["SET", "GET", "DEL", "GET"])
                plan.append((kind, k, gen.payload(rnd, uniq, rnd.choice([5, 9, 100, 3000, 9000])) if kind == "SET" else None))
            plans.append(plan)
        t0 = now0()
        for c, plan in zip(cl, plans):
            c.raw(b"".join(enc(k, a, v) if v is not None else enc(k, a) for k, a, v in plan))
        reps = [[c.recv() for _ in plan] for c, plan in zip(cl, plans)]
        t1 = now1()
        for i in range(N):
            for (kind, k, v), r in zip(plans[i], reps[i]):
                if k in shared: continue
                if kind == "SET": d.set_reply(ns, k, v, r, t0, t1)
                elif kind == "DEL": d.del_reply(ns, k, r)
                else: d.check_read(ns, kind, k, r)
                ctx.ev.hit("evaluations")
        for k in shared:
            seqs = [[(a, v, r) for (a, kk, v), r in zip(plans[i], reps[i]) if kk == k] for i in range(N)]
            seqs = [q for q in seqs if q]
            if not seqs: continue
            ends = linearize(seqs, state[k], k)
            if not ends:
                ctx.violation("shared-key", "no order of the concurrent commands on %r explains the replies" % k, start=list(state[k]), seqs=seqs)
            state[k] = ends
            r = cl[0].cmd("GET", k)
            if r not in ends: ctx.violation("shared-key-final", "GET %r answered %r, no order of the commands leads there" % (k, r))
            state[k] = {r}
            ctx.ev.hit("concurrent_histories"); ctx.distinct.add("lin/%d/%d" % (len(seqs), sum(map(len, seqs))))
    d.read_all(cl[0], ns)
    ctx.sample = {"rounds": sp["ops"] // 20, "clients": N, "concurrent_histories": ctx.ev.get("concurrent_histories")}
    s.stop()

def linearize(seqs, starts, key):
    """all end values of orders of the sequences consistent with every reply"""
    ends = set()
    n = len(seqs)
    todo = [((0,) * n, v) for v in starts]; seen = set(todo)
    while todo:
        pos, val = todo.pop()
        if all(pos[i] == len(seqs[i]) for i in range(n)): ends.add(val); continue
        for i in range(n):
            if pos[i] == len(seqs[i]): continue
            a, v, r = seqs[i][pos[i]]
            if a == "GET":
                if r != val: continue
                nv = val
            elif a == "DEL":
                if val is None:
                    if not isinstance(r, Err): continue
                    nv = None
                else:
                    if r != "OK": continue
                    nv = None
            else:
                if val == v:
                    if r is not None: continue
                else:
                    if r != key: continue
                nv = v
            st = (pos[:i] + (pos[i] + 1,) + pos[i+1:], nv)
            if st not in seen: seen.add(st); todo.append(st)
    return ends

def run_case(ctx):
    {"map": run_map, "release": run_map, "sizes": run_sizes, "clients": run_clients}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    out = []
    for k, n in (("overwrite", 500), ("overwrite_same_crc", 30), ("set_same", 50), ("del", 200), ("read_miss", 300), ("recreate", 50), ("concurrent_histories", 20)):
        if ev.get(k, 0) < n: out.append("too few %s observed: %d" % (k, ev.get(k, 0)))
    return out
