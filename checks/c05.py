"""C05: sequential namespaces: ids and forged keys."""
import struct
from vz import gen
from vz.work import World
from vz.resp import Err, enc
from vz.model import now0, now1

PROP, LEVEL = "C05", "exploration"
TECHNIQUE = "runtime monitoring: online id-allocation monitor and reference-model oracle with forged keys, ASan+UBSan"
NOTE = "every id returned and every reply to issued, deleted and forged keys of the generated histories compared with the model"
RULE = ("one distinct = (operation, mode, live-key class, jumps class, restarts class) or one (command, forged-key kind, state) combination; "
        "forged keys are 8-byte keys never issued (near, far, slot-offset wrap-around, internal entries) and keys of other lengths")

def cases(tier, seed):
    n = 36 if tier == "quick" else 300
    out = []
    # limits of the counters and tables: files of one namespace, ids of one file
    out.append({"kind": "many", "i": 0, "seed": seed * 1000 + 800, "files": 3200 if tier == "quick" else 9000})
    out.append({"kind": "long", "i": 0, "seed": seed * 1000 + 801, "ids": 66500 if tier == "quick" else 200000})
    for i in range(n):
        out.append({"kind": "seq", "i": i, "seed": seed * 1000 + i, "ops": 900 if tier == "quick" else 3000, "mode": ["seq", None][i % 2],
                    "prof": ["tiny", "small", "fill"][i % 3], "base": i % 4})
    for i in range(8 if tier == "quick" else 40):
        out.append({"kind": "files", "i": i, "seed": seed * 1000 + 600 + i, "files": 40 if tier == "quick" else 300})
    return out

OPS = dict(set=30, new=16, delete=10, read=22, mget=2, scan=.6, rscan=.6, keycur=1, cursor=.6, history=4, badid=16, jump=1.2, nsinfo=1)

def run_seq(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof=sp["prof"]).start()
    if sp["mode"] is None:
        w.nsset("default", "mode", "seq"); w.ns["default"].mode = "seq"
        w.nsnew("user-one", "user")
    w.nsnew("second", "seq")
    for n in range(sp["ops"]):
        x = rnd.random()
        if x < .004: w.restart()
        elif x < .008: w.reload(rnd.choice(list(w.ns)))
        elif x < .012:      # several empty files in a row
            nm = rnd.choice(list(w.ns))
            for _ in range(rnd.randint(2, 5)): w.jump(nm)
        elif x < .02: burst(w, rnd.choice([k for k in w.ns if w.ns[k].mode == "seq"]))
        else: w.step(None, OPS)
        if n % 300 == 299: w.verify_all()
    w.verify_all()
    ctx.sample = {"issued": {n: len(m.issued) for n, m in w.ns.items()}, "jumps": w.jumps, "restarts": w.restarts, "badid": ctx.ev.get("badid")}
    w.s.stop()

def burst(w, name):
    """several clients insert at once (pipelined): all ids distinct, increasing on each connection"""
    m, rnd = w.ns[name], w.rnd
    cl = w.cl[name]
    plan = []
    for c in cl:
        vs = []
        for _ in range(rnd.randint(1, 12)):
            w.uniq += 1; vs.append(gen.payload(rnd, w.uniq, rnd.choice([0, 5, 40, 9000])))
        plan.append(vs)
    t0 = now0()
    for c, vs in zip(cl, plan): c.raw(b"".join(enc("SET", "", v) for v in vs))
    got = []
    for n, (c, vs) in enumerate(zip(cl, plan)):
        last = -1
        for v in vs:
            r = c.recv()
            if not (isinstance(r, bytes) and len(r) == 8): w.d.bad("set-seq-new", "pipelined SET answered %r" % (r,))
            i = struct.unpack("<Q", r)[0]
            if i <= last: w.d.bad("set-seq-id", "ids not increasing on one connection: %d after %d" % (i, last))
            last = i; got.append((i, v, r))
    t1 = now1()
    for i, v, r in sorted(got, key=lambda x: x[0]): w.d.set_reply(m, b"", v, r, t0, t1)
    w.ev.hit("bursts"); w.ev.hit("evaluations", len(got))

def run_files(ctx):
    """many files, most of them empty or with one entry; every id is looked up after each restart"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode="seq", prof="tiny").start()
    m = w.ns["default"]
    for f in range(sp["files"]):
        for _ in range(rnd.choice([0, 0, 1, 1, 2, 5])): w.d.set(w.c("default"), m, b"", w.value(None)); ctx.ev.hit("evaluations")
        for _ in range(rnd.choice([0, 1, 2])):
            if m.live:
                k = w.key(m, live=True)
                if rnd.random() < .6: w.d.set(w.c("default"), m, k, w.value(m.live[k]))
                else: w.d.delete(w.c("default"), m, k)
        w.jump("default")
        for _ in range(3): w.bad_id_op(w.c("default"), m)
        if rnd.random() < .08: w.restart(); w.d.read_all(w.c("default"), m)
        ctx.distinct.add("files/%d/%d" % (f, min(len(m.live), 20)))
    w.verify_all()
    # every number up to the last one, issued or not
    c = w.c("default")
    last = m.issued[-1] if m.issued else 0
    ids = list(range(0, last + 50))
    for i in range(0, len(ids), 100):
        part = [struct.pack("<Q", x) for x in ids[i:i+100]]
        c.raw(b"".join(enc("GET", k) for k in part))
        for k in part: w.d.check_read(m, "GET", k, c.recv())
    for _ in range(300): w.bad_id_op(c, m)
    w.verify_all(hist=False)
    w.restart(); w.verify_all()
    ctx.sample = {"files": w.jumps + 1, "issued": len(m.issued), "last_id": last}
    w.s.stop()

def run_many(ctx):
    """thousands of index files; ids around every kind of file (none, one or several entries), before and after a restart"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode="seq", prof="tiny", quiet=True).start()
    m, c = w.ns["default"], w.c("default")
    for b in range(0, sp["files"], 20):
        plan = []
        for f in range(20):
            for _ in range(rnd.choice([0, 1, 1, 1, 2])):
                w.uniq += 1; plan.append(gen.payload(rnd, w.uniq, rnd.choice([1, 5, 30])))
            plan.append(None)
        t0 = now0()
        c.raw(b"".join(enc("NSJUMP") if v is None else enc("SET", "", v) for v in plan))
        rs = [c.recv() for v in plan]
        t1 = now1()
        for v, r in zip(plan, rs):
            if v is None:
                if r != "OK": w.d.bad("nsjump", "NSJUMP answered %r" % (r,))
                ctx.ev.hit("jumps")
            else: w.d.set_reply(m, b"", v, r, t0, t1); ctx.ev.hit("evaluations")
        ctx.distinct.add("many/%d" % (b // 200))
        live = list(m.live)
        for k in rnd.sample(live, min(5, len(live))): w.d.read(c, m, k)
        if live and rnd.random() < .5:
            k = rnd.choice(live)
            if rnd.random() < .7: w.d.set(c, m, k, w.value(m.live[k]))
            else: w.d.delete(c, m, k)
        w.bad_id_op(c, m)
    w.d.read_all(c, m)
    w.restart(); c = w.c("default")
    w.d.read_all(c, m)
    w.reload("default"); w.d.read_all(c, m)
    for _ in range(100): w.bad_id_op(c, m)
    ctx.sample = {"files": sp["files"], "issued": len(m.issued)}
    w.s.stop()

def run_long(ctx):
    """tens of thousands of ids in one file"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode="seq", prof="tiny", datasize=1 << 26, quiet=True).start()
    m, c = w.ns["default"], w.c("default")
    for b in range(0, sp["ids"], 500):
        t0 = now0()
        vs = [b"%x" % (b + i) for i in range(500)]
        c.raw(b"".join(enc("SET", "", v) for v in vs))
        rs = [c.recv() for v in vs]
        t1 = now1()
        for v, r in zip(vs, rs): w.d.set_reply(m, b"", v, r, t0, t1)
        ctx.ev.hit("evaluations", 500); ctx.distinct.add("long/%d" % (b // 2000))
    edge = [k for e in (0, 255, 256, 32767, 32768, 65535, 65536, len(m.issued) - 1) for k in m.issued[max(0, e - 3):e + 4]]
    def look(c):
        for i in set(edge + rnd.sample(m.issued, 1500)): w.d.read(c, m, struct.pack("<Q", i)); ctx.ev.hit("evaluations")
    look(c)
    for i in set(edge):
        k = struct.pack("<Q", i)
        if rnd.random() < .6: w.d.set(c, m, k, w.value(m.live[k]))
        else: w.d.delete(c, m, k)
    look(c)
    w.restart(); look(w.c("default"))
    for _ in range(100): w.bad_id_op(w.c("default"), m)
    ctx.sample = {"issued": len(m.issued)}
    w.s.stop()

def run_case(ctx):
    {"many": run_many, "long": run_long, "seq": run_seq, "files": run_files}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("seq_insert", 2000), ("badid", 2000), ("seq_refused", 300), ("del", 200), ("jumps", 200), ("restarts", 20)) if ev.get(k, 0) < n]
