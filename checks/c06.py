"""C06: SCAN / RSCAN / SCANX / KEYCUR."""
import struct
from vz import gen
from vz.work import World
from vz.resp import Err

PROP, LEVEL = "C06", "exploration"
TECHNIQUE = "runtime monitoring: reference-model oracle over complete scan walks and cursors kept for life, forged cursors, ASan+UBSan"
NOTE = "every walk compared entry by entry with the model; cursors are re-used after updates, deletes, jumps and restarts"
RULE = "one distinct = (operation, mode, live-key class, jumps class, restarts class) or (cursor kind, direction, age class, state of its key)"

def cases(tier, seed):
    n = 36 if tier == "quick" else 300
    out = []
    for i in range(n):
        out.append({"kind": "scan", "i": i, "seed": seed * 1000 + i, "ops": 500 if tier == "quick" else 2000, "mode": ["user", "seq", None][i % 3],
                    "prof": ["tiny", "small", "fill"][(i // 3) % 3]})
    for i in range(4 if tier == "quick" else 24):
        out.append({"kind": "many", "i": i, "seed": seed * 1000 + 600 + i, "keys": 12000 if tier == "quick" else 60000, "mode": ["user", "seq"][i % 2]})
    for i in range(6 if tier == "quick" else 40):
        out.append({"kind": "faults", "i": i, "seed": seed * 1000 + 800 + i, "n": 250 if tier == "quick" else 1500, "mode": ["user", "seq"][i % 2]})
    return out

OPS = dict(set=40, new=12, delete=14, read=2, mget=0, scan=6, rscan=6, keycur=10, cursor=14, history=0, badid=1, jump=2.5, nsinfo=.2)

def run_scan(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof=sp["prof"], nkeys=rnd.choice([1, 3, 8, 20])).start()
    if sp["mode"] is None: w.nsnew("q", "seq"); w.nsnew("u", "user")
    else: w.nsnew("other")
    for n in range(sp["ops"]):
        x = rnd.random()
        if x < .006: w.restart()
        elif x < .010: w.reload(rnd.choice(list(w.ns)))
        elif x < .016:
            nm = rnd.choice(list(w.ns))
            for _ in range(rnd.randint(2, 4)): w.jump(nm)
        elif x < .05: forged(w, rnd.choice(list(w.ns)))
        elif x < .06:       # empty the namespace
            nm = rnd.choice(list(w.ns))
            for k in list(w.ns[nm].live): w.d.delete(w.c(nm), w.ns[nm], k)
            for cmd in ("SCAN", "RSCAN", "SCANX"): w.d.check_scan(w.c(nm), w.ns[nm], cmd)
        else: w.step(None, OPS)
    for nm, m in w.ns.items():
        # every cursor ever received is still usable, both ways
        cs = list(m.cursors) if len(m.cursors) < 60 else rnd.sample(m.cursors, 60)
        for cur, pos in cs:
            for cmd in ("SCAN", "RSCAN"):
                w.d.check_scan(w.c(nm), m, cmd, cur, pos, "old cursor")
                ctx.ev.hit("old_cursors"); ctx.ev.hit("evaluations")
                ctx.distinct.add("old/%s/%s/%d" % (m.mode, cmd, min(20, pos)))
    w.verify_all(hist=False)
    ctx.sample = {"mode": sp["mode"], "jumps": w.jumps, "restarts": w.restarts, "cursors": {n: len(m.cursors) for n, m in w.ns.items()}}
    w.s.stop()

def forged(w, name):
    """byte strings which are no cursor"""
    r, m, c = w.rnd, w.ns[name], w.c(name)
    x = r.random()
    real = r.choice(m.cursors)[0] if m.cursors else bytes([1]) + bytes(16)
    idl, fid, ln, off, crc = struct.unpack("<BIIII", real)
    kind = r.choice(["len", "random", "file", "offset", "crc", "length", "idlen", "zero", "huge"])
    if kind == "len": f = r.choice([b"", real[:-1], real + b"\0", real[:1], real * 2, bytes(255), real[1:]])
    elif kind == "random": f = r.randbytes(17)
    elif kind == "zero": f = bytes(17)
    elif kind == "huge": f = b"\xff" * 17
    else:
        if kind == "file": fid = r.choice([fid + 100000, 2**32 - 1, 2**31])
        elif kind == "offset": off = r.choice([0, 1, 28, 2**32 - 1, 2**31, off + 1, off - 1, off + 1000000]) & 0xffffffff
        elif kind == "crc": crc ^= 1 << r.randrange(32)
        elif kind == "length": ln = (ln + r.choice([100000, 2**30, 2**31])) & 0xffffffff
        elif kind == "idlen": idl = (idl + r.choice([1, 254, 100])) & 255
        f = struct.pack("<BIIII", idl, fid, ln, off, crc)
    if m.live and r.random() < .25:
        # a key which is too long names nothing
        k = r.choice(list(m.live)); long = (k + r.randbytes(256))[:len(k) + 256]
        v = c.cmd("KEYCUR", long)
        w.ev.hit("keycur_long")
        if not isinstance(v, Err): w.d.bad("keycur-long", "KEYCUR with a %d byte key answered %r" % (len(long), v))
    if f in [q[0] for q in m.cursors]: return
    cmd = r.choice(["SCAN", "RSCAN", "SCANX"])
    v = c.cmd(cmd, f)
    w.ev.hit("forged"); w.ev.hit("evaluations")
    w.ctx.distinct.add("forged/%s/%s/%s" % (kind, cmd, m.mode))
    if not isinstance(v, Err):
        w.d.bad("forged-cursor", "%s with a forged cursor (%s) %r answered %r" % (cmd, kind, f, v))
    if v.startswith("No more data"):
        w.d.bad("forged-cursor-end", "%s with a forged cursor (%s) %r answered 'No more data' instead of refusing it" % (cmd, kind, f))

def run_many(ctx):
    """replies cut by the time limit of the server: a walk over many keys, deleted ones in large runs"""
    sp, rnd = ctx.spec, ctx.rnd
    from vz.resp import enc
    from vz.model import now0, now1
    w = World(ctx, mode=sp["mode"], prof="tiny", datasize=1 << 20).start()
    m = w.ns["default"]; c = w.c("default")
    t0 = now0()
    n = sp["keys"]
    for i in range(0, n, 500):
        ks = [b"key-%06d" % x for x in range(i, min(n, i + 500))] if m.mode == "user" else [b""] * min(500, n - i)
        c.raw(b"".join(enc("SET", k, b"v%d" % (i + j)) for j, k in enumerate(ks)))
        for j, k in enumerate(ks): w.d.set_reply(m, k, b"v%d" % (i + j), c.recv(), t0, now1())
        if rnd.random() < .1: w.jump("default")
    w.d.check_scan(c, m, "SCAN"); w.d.check_scan(c, m, "RSCAN")
    keys = m.order(); a = rnd.randrange(n // 3)
    dead = keys[a:a + n // 2]
    for i in range(0, len(dead), 500):
        part = dead[i:i + 500]
        c.raw(b"".join(enc("DEL", k) for k in part))
        for k in part: w.d.del_reply(m, k, c.recv())
    if m.mode == "user":
        for k in rnd.sample(list(m.live), min(2000, len(m.live))): w.d.set(c, m, k, b"again" + k)
    for cmd in ("SCAN", "RSCAN", "SCANX"): w.d.check_scan(c, m, cmd)
    for cur, pos in rnd.sample(m.cursors, 25):
        for cmd in ("SCAN", "RSCAN"): w.d.check_scan(c, m, cmd, cur, pos)
    w.restart()
    c = w.c("default")
    for cmd in ("SCAN", "RSCAN"): w.d.check_scan(c, m, cmd)
    ctx.ev.hit("evaluations", n); ctx.distinct.add("many/%s/%d" % (sp["mode"], n))
    ctx.sample = {"keys": n, "deleted": len(dead), "scan_replies": ctx.ev.get("scan_replies")}
    w.s.stop()

def run_faults(ctx):
    """reads and openings which fail during a scan: an error, or the right entries; never an early end"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof="tiny", nkeys=rnd.choice([6, 12]), shim=True).start()
    w.nsnew("other")
    for _ in range(160): w.step(None, dict(OPS, jump=6, delete=6))
    for nm in w.ns: w.d.check_scan(w.c(nm), w.ns[nm], "SCAN")
    ctl = w.s.ctl
    for n in range(sp["n"]):
        if rnd.random() < .2: w.step(None, dict(OPS, jump=6, delete=6))
        nm = rnd.choice(list(w.ns)); m = w.ns[nm]; c = w.c(nm)
        if not m.live or not m.cursors: continue
        cmd = rnd.choice(["SCAN", "RSCAN", "SCANX"])
        cur, pos = (None, None) if rnd.random() < .25 else rnd.choice(m.cursors)
        want = m.order() if cmd != "RSCAN" else m.order()[::-1]
        if cur is not None: want = [k for k in want if (m.cpos(k) < pos if cmd == "RSCAN" else m.cpos(k) > pos)]
        nth, cnt, opens = rnd.choice([1, 1, 2, 2, 3, 4, 5, 8]), rnd.choice([1, 1, 2, 500]), rnd.random() < .3
        if opens: ctl.set(read_errno=24, failed=0, ropen_fail_count=cnt, ropen_fail_at=ctl.get("ropens") + nth)
        else: ctl.set(read_errno=5, failed=0, read_fail_count=cnt, read_fail_at=ctl.get("reads") + nth)
        r = c.cmd(cmd) if cur is None else c.cmd(cmd, cur)
        bad = ctl.get("failed")
        ctl.set(read_fail_at=0, read_fail_count=0, ropen_fail_at=0, ropen_fail_count=0)
        if not bad: continue
        ctx.ev.hit("evaluations"); ctx.ev.hit("failed_opens" if opens else "failed_reads")
        what = "%s with %s number %d (%d times) failing" % (cmd, "opening" if opens else "read", nth, cnt)
        ctx.distinct.add("fault/%s/%s/%s/%d/%s" % (cmd, m.mode, "open" if opens else "read", min(nth, 4), "error" if isinstance(r, Err) else "list"))
        if isinstance(r, Err):
            if r.startswith("No more data") and want: w.d.bad("scan-fault-end", "%s answered the end, %d entries remain" % (what, len(want)))
            continue
        got = [e[0] for e in r[1]]
        if got != want[:len(got)] or not got: w.d.bad("scan-fault-list", "%s returned %r, the scan goes on with %r" % (what, got[:5], want[:5]))
        w.d.check_scan(c, m, cmd, r[0], m.cpos(got[-1]), "after a failed read")
    for nm in w.ns:
        for cmd in ("SCAN", "RSCAN"): w.d.check_scan(w.c(nm), w.ns[nm], cmd)
    w.verify_all(hist=False)
    ctx.sample = {"mode": sp["mode"], "reads": ctx.ev.get("failed_reads"), "opens": ctx.ev.get("failed_opens")}
    w.s.stop()

def run_case(ctx):
    {"scan": run_scan, "many": run_many, "faults": run_faults}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("scan_walks", 2000), ("cursor_walks", 800), ("old_cursors", 1000), ("forged", 300), ("jumps", 200), ("restarts", 30), ("keycur", 500), ("failed_reads", 200), ("failed_opens", 60)) if ev.get(k, 0) < n]
