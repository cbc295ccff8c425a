"""C23: a store on a read-only filesystem is served; every write is refused and changes nothing."""
import os, subprocess
from checks import c03
from checks.c08 import tree
from vz import crash, gen
from vz.model import Violation, short, now0, now1
from vz.resp import Err, Status
from vz.server import StartError
from vz.work import World

PROP = "C23"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real server (ASan/UBSan) on saved stores whose data and/or index filesystem is read-only (really mounted read-only in a user namespace, or EROFS "
             "injected at the storage calls), model oracle over every reply, file hashes around every refused write")
NOTE = "every write command kind on every mode with index, data or both read-only, from the start or turning read-only at run time; then the store is writable again and complete"
RULE = "evaluations = write commands attempted on a read-only store and judged; distinct = (where read-only, how, write command kind, mode, reply class)"
ASSUMPTIONS = ["a read-only filesystem refuses creation, writing, renaming and removal with EROFS and nothing else changes the files"]

def cases(tier, seed):
    out = []
    n = 3 if tier == "quick" else 12
    for r in range(n):
        for i, (how, ro) in enumerate([(h, e) for h in ("shim", "mount", "late") for e in (3, 2, 1)]):
            for j in range(2 if tier == "quick" else 3):
                out.append({"kind": "ro", "how": how, "ro": ro, "i": i, "seed": seed * 1000 + r * 40 + i * 4 + j, "ops": 60 if tier == "quick" else 200, "mode": [None, "user", "seq"][(i + j) % 3],
                            "crashed": j == 1})
    for i in range(4 if tier == "quick" else 30):
        out.append({"kind": "missing", "i": i, "seed": seed * 1000 + 700 + i})
    return out

SCRIPT = 'for d in $ZRO; do mount --bind "$d" "$d" && mount -o remount,bind,ro,nosuid,nodev "$d" || exit 99; done; exec "$@"'
WRAP = ["unshare", "-Urm", "sh", "-c", SCRIPT, "sh"]
_mount = []

def can_mount(base):
    if not _mount:
        d = os.path.join(base, "probe"); os.makedirs(d, exist_ok=True)
        r = subprocess.run(WRAP + ["touch", os.path.join(d, "x")], env=dict(os.environ, ZRO=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _mount.append(r.returncode not in (0, 99) and not os.path.exists(os.path.join(d, "x")))
    return _mount[0]

def refused(w, what, r, before, where, soft=False, roots=None):
    """the reply is an error and no file changed"""
    now = tree(*(roots or (w.s.data, w.s.index)))
    if now != before:
        ch = sorted(os.path.relpath(p, w.s.base) for p in set(now) | set(before) if now.get(p) != before.get(p))
        raise Violation("changed-" + what.split()[0], "%s on a read-only %s changed %s (answered %s)" % (what, where, ch[:6], short(r)))
    if not isinstance(r, Err) and not soft:
        raise Violation("accepted-" + what.split()[0], "%s on a read-only %s answered %s" % (what, where, short(r)))

def writes(w, rnd):
    """(label, connection, command, soft): soft when the command has nothing to change"""
    n = rnd.choice(list(w.ns)); m = w.ns[n]
    w.uniq += 1
    v = gen.payload(rnd, w.uniq, rnd.choice([0, 1, 20, 400, 9000]))
    k = w.key(m, True) if m.live else b"nokey"
    x = rnd.choice(["SET", "SET", "SET", "SET-ts", "SET-same", "SET-big", "DEL", "DEL", "DEL-missing", "DEL-ts", "NSJUMP", "NSJUMP", "FLUSH", "FLUSH", "NSNEW", "NSDEL", "NSSET-password", "NSSET-maxsize", "NSSET-public", "NSSET-worm", "NSSET-mode"])
    c = w.c(n)
    key = rnd.choice([k, b"" if m.mode == "seq" else b"new-%d" % w.uniq])
    cur = m.live[key][-1].value if key in m.live else None
    if x == "SET": return x, n, c, ("SET", key, v), v == cur
    if x == "SET-ts": return x, n, w.select(w.adm, n) or w.adm, ("SET", key, v, 1234567), v == cur
    if x == "SET-same" and m.live: return x, n, c, ("SET", k, m.live[k][-1].value), True
    if x == "SET-big": return x, n, c, ("SET", key, gen.payload(rnd, w.uniq, 400000)), False
    if x == "DEL" and m.live: return x, n, c, ("DEL", k), False
    if x == "DEL-ts" and m.live: return x, n, w.select(w.adm, n) or w.adm, ("DEL", k, 1234567), False
    if x == "DEL-missing": return x, n, c, ("DEL", b"\xff" * 8 if m.mode == "seq" else b"missing-%d" % w.uniq), False
    if x == "NSJUMP": return x, n, w.select(w.adm, n) or w.adm, ("NSJUMP",), False
    if x == "FLUSH": return x, "p", w.c("p"), ("FLUSH",), False
    if x == "NSNEW": return x, n, w.adm, ("NSNEW", "brand-new-%d" % w.uniq), False
    if x == "NSDEL": return x, n, w.adm, ("NSDEL", rnd.choice([q for q in w.ns if q != "default"])), False
    q = rnd.choice([q for q in w.ns if q != "default"])
    if x == "NSSET-password": return x, q, w.adm, ("NSSET", q, "password", "pw%d" % w.uniq), False
    if x == "NSSET-maxsize": return x, q, w.adm, ("NSSET", q, "maxsize", str(10 ** 7 + w.uniq)), False
    if x == "NSSET-public": return x, q, w.adm, ("NSSET", q, "public", "1" if not w.ns[q].public else "0"), False
    if x == "NSSET-worm": return x, q, w.adm, ("NSSET", q, "worm", "1"), False
    if x == "NSSET-mode": return x, q, w.adm, ("NSSET", q, "mode", "seq" if w.ns[q].mode != "seq" else "user"), False
    return writes(w, rnd)

def run_ro(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    ro, how = sp["ro"], sp["how"]
    bw = World(ctx, (), "asan", datasize=524289, prof="tiny", nkeys=9, mode=sp["mode"]).start()
    sv = base(ctx, bw, sp["mode"])
    kw = {}
    if how == "mount":
        if not can_mount(ctx.sub()):
            ctx.ev.hit("mount_unavailable"); how = "shim"
        else: kw = {"wrap": WRAP}
    w = sv.world(ctx, (), **kw)
    extra = None
    if sp["crashed"] and how != "late": extra = damage(ctx, w, rnd)
    if how == "mount": w.s.env["ZRO"] = " ".join([w.s.data] * (ro & 1) + [w.s.index] * (ro >> 1))
    elif how == "shim": w.s.ctl.set(erofs=ro)
    start = tree(w.s.data, w.s.index)
    try: w.s.start()
    except StartError as e:
        raise Violation("start", "the server does not start on a store with read-only %s (%s): %s" % (where(ro), extra, str(e)[-400:]))
    w.attach()
    if how == "late": w.s.ctl.set(erofs=ro)
    if ro == 3 and how != "late" and tree(w.s.data, w.s.index) != start: raise AssertionError("read-only emulation failed")
    w.verify_all()
    for i in range(sp["ops"]):
        label, n, c, cmd, soft = writes(w, rnd)
        m = w.ns[n]
        # turned read-only on one side only, at run time: what was already written on the other side may remain unused there
        roots = (w.s.index,) if how == "late" and ro == 2 else (w.s.data, w.s.index)
        before = tree(*roots)
        cls = label.split("-")[0]
        what = "%s in %s (%s)" % (label, n, m.mode)
        if cls == "NSSET":
            q = n
            if label == "NSSET-mode":
                # refused for a namespace which is not fresh anyway
                r = c.cmd(*cmd); refused(w, what, r, before, where(ro), roots=roots)
            else:
                r = c.cmd(*cmd)
                if not isinstance(r, Err):
                    # the descriptor is on the index filesystem
                    if ro & 2: raise Violation("accepted-NSSET", "%s on a read-only index answered %s" % (what, short(r)))
                    effect(m, cmd[2], cmd[3])
                else: refused(w, what, r, before, where(ro), roots=roots)
            r = "ok" if not isinstance(r, Err) else r
        else:
            r = c.cmd(*cmd)
            refused(w, what, r, before, where(ro), soft, roots)
        ctx.ev.hit("evaluations"); ctx.ev.hit("refused_" + cls if isinstance(r, Err) else "accepted_" + cls)
        ctx.distinct.add("%d/%s/%s/%s/%s" % (ro, how, label, m.mode, str(r)[:30] if isinstance(r, Err) else "ok"))
        # a few commands which are not writes
        if rnd.random() < .1:
            q = rnd.choice([q for q in w.ns if q != "default"])
            for val in ("1", "0"):
                r = w.adm.cmd("NSSET", q, rnd.choice(["lock", "freeze"]) if val == "1" else "lock", val)
            w.adm.cmd("NSSET", q, "freeze", "0")
        if rnd.random() < .05:
            n = rnd.choice(list(w.ns)); r = w.adm.cmd("RELOAD", n)
            if r != "OK": raise Violation("reload", "RELOAD of %s on a read-only %s answered %s" % (n, where(ro), short(r)))
            w.ns[n].cursors = []
        if i % 20 == 19:
            for q in w.ns: w.join(q)
            w.verify_all(hist=i % 40 == 39)
    for q in w.ns: w.join(q)
    w.verify_all()
    # the same store, writable again
    w.s.stop("STOP")
    if how == "mount": w.s.wrap = []
    else: w.s.ctl.set(erofs=0)
    w.s.start(); w.attach()
    for q in w.ns: w.ns[q].cursors = []
    w.verify_all()
    crash.more(w, 25)
    w.verify_all()
    crash.consistent(w)
    w.s.stop("STOP")
    ctx.sample = {"read_only": where(ro), "how": how, "denied_by_shim": w.s.ctl.get("erofs_denied"), "damage": extra}

def where(ro): return {1: "data", 2: "index", 3: "data and index"}[ro]

def effect(m, prop, val):
    if prop == "password": m.password = val
    elif prop == "maxsize": m.maxsize = int(val)
    elif prop == "public": m.public = val == "1"
    elif prop == "worm": m.worm = val == "1"

def damage(ctx, w, rnd):
    """the store was left by an interrupted server: an incomplete last write, or created but empty next files"""
    x = rnd.choice(["tail-index", "tail-data", "empty-index", "empty-both"])
    n = rnd.choice(list(w.ns))
    i, d = os.path.join(w.s.index, n), os.path.join(w.s.data, n)
    last = max(int(f[1:]) for f in os.listdir(i) if f[0] == "i" and f[1:].isdigit())
    if x == "tail-index": open(os.path.join(i, "i%d" % last), "ab").write(b"\x03\x10\x00\x00\x00\x44"[:rnd.randint(1, 6)])
    elif x == "tail-data": open(os.path.join(d, "d%d" % last), "ab").write(b"\x03\x10\x00\x00\x00\x44"[:rnd.randint(1, 6)])
    else:
        open(os.path.join(d, "d%d" % (last + 1)), "wb").write(b"DAT0" if x == "empty-both" else b"")
        open(os.path.join(i, "i%d" % (last + 1)), "wb").write(b"IDX0"[:rnd.choice([0, 4])])
    return "%s of %s" % (x, n)

def base(ctx, w, mode):
    rnd = ctx.rnd
    for n, m in (("u", "user"), ("s", "seq"), ("p", "user")): w.nsnew(n, mode or m)
    w.nsset("p", "password", "secret"); w.nsset("p", "public", "0")
    for c in w.cl.pop("p"): c.close()
    w.join("p")
    names = list(w.ns)
    for j in range(3):
        for _ in range(22):
            w.step(rnd.choice(names), ops=dict(jump=0, scan=0, rscan=0, keycur=0, cursor=0, history=0, nsinfo=0, read=0, mget=0, badid=0, set=40, new=20, delete=9))
        for n in names:
            m = w.ns[n]
            while len(m.live) < 3:
                k = b"" if m.mode == "seq" else w.key(m)
                w.d.set(w.c(n), m, k, w.value(m.live.get(k)))
            if j < 2 and rnd.random() < .8: w.jump(n)
    w.verify_all()
    w.s.stop("STOP")
    sv = crash.Saved(w, ctx.sub("saved"))
    w.s.cleanup()
    return sv

def run_missing(ctx):
    """some data files are gone: what is in the others is served, nothing else is answered for what is lost"""
    from vz.files import Store
    rnd = ctx.rnd
    bw = World(ctx, (), "asan", datasize=524289, prof="tiny", nkeys=9).start()
    sv = base(ctx, bw, None)
    w = sv.world(ctx)
    gone = {}
    for n in w.ns:
        st = Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n)).parse()
        last = max(st.index)
        victims = [f for f in st.data if f < last and rnd.random() < .5]
        for f in victims: os.unlink(os.path.join(w.s.data, n, "d%d" % f))
        gone[n] = set(victims)
    w.s.start(); w.attach()
    lost = kept = 0
    for n, m in w.ns.items():
        st = Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n)).parse()
        rp = {it.id: it for f in sorted(st.index) for it in st.index[f] if not it.flags & 1}      # superseded versions are flagged
        for k in m.live:
            r = w.c(n).cmd("GET", k)
            it = rp.get(bytes(k))
            if it is not None and it.dataid in gone[n] and it.length:
                lost += 1
                if r is not None and not isinstance(r, Err): raise Violation("missing-value", "GET of %s, whose data file %d of %s is missing, answered %s" % (short(k), it.dataid, sorted(gone[n]), short(r)))
                if w.c(n).cmd("EXISTS", k) != 1: raise Violation("missing-exists", "EXISTS of %s is not 1 although the entry is known" % short(k))
            elif it is not None and it.length:
                kept += 1
                w.d.check_read(m, "GET", k, r)
            ctx.ev.hit("evaluations")
        # still usable
        k = b"" if m.mode == "seq" else b"after-loss"
        t0 = now0(); r = w.c(n).cmd("SET", k, b"still-here")
        if isinstance(r, Err): raise Violation("missing-set", "SET answered %s in %s" % (short(r), n))
        if w.c(n).cmd("GET", r if m.mode == "seq" else k) != b"still-here": raise Violation("missing-set", "the new value is not read back in %s" % n)
        ctx.distinct.add("missing/%s/%d/%d" % (m.mode, lost > 0, len(gone[n])))
    ctx.ev.hit("lost_keys", lost); ctx.ev.hit("kept_keys", kept)
    ctx.sample = {"lost": lost, "kept": kept}
    w.s.stop("STOP")

def run_case(ctx):
    {"ro": run_ro, "missing": run_missing}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    out = ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("refused_SET", 150), ("refused_DEL", 80), ("refused_FLUSH", 40), ("refused_NSNEW", 20), ("refused_NSDEL", 20), ("refused_NSJUMP", 40), ("kept_keys", 20), ("lost_keys", 5)) if ev.get(k, 0) < n]
    return out
