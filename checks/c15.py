"""C15: index-rebuild, quick-compact, namespace-editor, dumps."""
import os, random, re, shutil, struct, time
from vz import crash, files, gen
from vz.model import OFF, Violation, short
from vz.resp import Closed, Err
from vz.work import World
from checks.c08 import tree

PROP, LEVEL = "C15", "exploration"
TECHNIQUE = ("runtime monitoring: the real tools (ASan+UBSan) run on directories written by real servers; a server started on what they produce is compared with the reference model of the whole history "
             "and goes on working, source trees are compared byte for byte, printed dumps with an independent parser")
NOTE = "sequential rebuild is exercised for the live keys too; --template is parsed and ignored by the tool and not claimed"
RULE = "one distinct = (tool, mode, number of files, deletes, updates across files) or (operation/mode/live/jumps/restarts) of the continued history"
WATCHDOG = 300

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(16 if q else 160): out.append({"kind": "rebuild", "i": i, "seed": seed * 1000 + i, "ops": 200 if q else 800, "mode": [None, "user", None, "user"][i % 4], "prof": ["tiny", "small", "fill", "small"][i // 2 % 4]})
    for i in range(16 if q else 160): out.append({"kind": "compact", "i": i, "seed": seed * 1000 + 200 + i, "ops": 200 if q else 800, "mode": [None, "user", "seq"][i % 3], "prof": ["tiny", "small", "fill", "small"][i // 2 % 4]})
    for i in range(8 if q else 60): out.append({"kind": "rollback", "i": i, "seed": seed * 1000 + 400 + i, "ops": 120 if q else 400})
    for i in range(6 if q else 40): out.append({"kind": "editor", "i": i, "seed": seed * 1000 + 500 + i, "n": 25 if q else 120})
    for i in range(6 if q else 40): out.append({"kind": "dumps", "i": i, "seed": seed * 1000 + 600 + i, "ops": 120 if q else 500, "mode": [None, "user", "seq"][i % 3]})
    return out

def interrupted(ctx, w):
    """an operation stopped in the middle by the death of the server, then done again"""
    rnd = ctx.rnd; n = rnd.choice(list(w.ns)); m = w.ns[n]
    # an entry without its index entry takes a sequential id once rebuilt
    if not m.live or (ctx.spec["kind"] == "rebuild" and m.mode == "seq"): return
    k = rnd.choice(list(m.live)); w.uniq += 1
    mk = (lambda: crash.Del(n, k)) if rnd.random() < .6 else (lambda: crash.Set(n, k, b"interrupted-%d" % w.uniq))
    for _ in range(2):
        op = mk(); ctl = w.s.ctl; ctl.set(kill_at=ctl.get("events") + rnd.randint(1, 3), torn_len=0)
        try: r = op.run(w)
        except Closed:
            w.s.proc.wait(20); w.s.start(); w.attach(); ctx.ev.hit("interrupted")
            if op.settle(w) != "absent": return
            continue
        ctl.set(kill_at=0); op.done(w, r); return
    ctl.set(kill_at=0)
    op = mk(); op.done(w, op.run(w))

def source(ctx, restarts=True, nss=True, **kw):
    """a history; the server is stopped"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp.get("mode"), prof=sp.get("prof", "small"), nkeys=10, base=ctx.sub("source"), **kw).start()
    if nss:
        w.nsnew("a", None if sp.get("mode") else rnd.choice(["user", "seq"])); w.nsnew("b c", None if sp.get("mode") else "user")
    for n in range(sp["ops"]):
        x = rnd.random()
        if restarts and x < .01: w.restart()
        elif kw.get("shim") and x < .05: interrupted(ctx, w)
        elif restarts and x < .02: w.reload(rnd.choice(list(w.ns)))
        else: w.step(ops=dict(scan=0, rscan=0, cursor=0, history=.1, keycur=0, nsinfo=0, read=1, jump=2.5, delete=rnd.choice([8, 16]), badid=1))
    how = rnd.choice(["STOP", "SIGTERM", "kill"])
    w.verify_all(hist=False)
    if how == "kill": w.s.kill()
    else: w.s.stop(how)
    return w

def use(ctx, w, data, index, what, hist, names=None, more=60):
    """a server on the directories produced by a tool: same dataset, and it goes on working"""
    w2 = World(ctx, mode=w.fixedmode, datasize=w.datasize, prof=w.prof, nkeys=w.nkeys, base=ctx.sub("use"), data=data, index=index)
    w2.ns = {n: crash.clone(m) for n, m in w.ns.items() if names is None or n in names}
    for m in w2.ns.values(): m.cursors = []; m.locked = 0; m.password = None if what == "rebuild" else m.password
    w2.pools = {n: list(p) for n, p in w.pools.items()}; w2.uniq = w.uniq + 1000000
    if "default" not in w2.ns: w2.add_model("default")
    def verify(h):
        for n, m in w2.ns.items():
            w2.d.verify(w2.c(n), m, hist=h, extra=w2.pools.get(n, ()))
            w2.d.check_dbsize(w2.c(n), m)
            for k in m.live:
                if w2.c(n).cmd("CHECK", k) != 1: raise Violation(what + "-check", "CHECK of %s answered %s" % (short(k), short(w2.c(n).cmd("CHECK", k))))
    try:
        w2.start()
        verify(hist)
        ctx.ev.hit(what + "_verified"); ctx.ev.hit("keys_verified", sum(len(m.live) for m in w2.ns.values()))
        for n in range(more):
            w2.step(ops=dict(history=.5 if hist else 0, cursor=0))
        w2.restart(); verify(False)
    except Violation as e:
        e.key = what + ":" + e.key; raise
    w2.s.stop()

def same_tree(before, roots, what):
    after = tree(*roots)
    if before != after:
        l = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        raise Violation(what + "-source", "%s changed its source: %s" % (what, l[:5]))

def facts(ctx, w, what):
    for n, m in w.ns.items():
        st = files.Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n)).parse()
        its = list(st.items())
        dead = any(i.deleted for i in its); cross = any(i.dataid != i.fid for i in its)
        ctx.distinct.add("%s/%s/%d/%d/%d" % (what, m.mode, min(len(st.data), 6), dead, cross))
        ctx.ev.hit("source_files", len(st.data)); ctx.ev.hit("source_entries", sum(map(len, st.data.values())))
        if cross: ctx.ev.hit("cross_file_updates")

def run_rebuild(ctx):
    shim = ctx.spec["i"] % 3 == 0
    w = source(ctx, shim=shim); s = w.s; facts(ctx, w, "rebuild")
    new = ctx.sub("newindex"); before = tree(s.data, s.index)
    for n, m in w.ns.items():
        rc, out = ctx.tool("index-rebuild", "--data", s.data, "--index", new, "--namespace", n, "--mode", m.mode)
        if rc: raise Violation("rebuild-failed", "index-rebuild exits with %d" % rc, output=out[-1500:])
        ctx.ev.hit("evaluations"); ctx.ev.hit("rebuilds_" + m.mode)
    same_tree(before, (s.data, s.index), "index-rebuild")
    data = os.path.join(ctx.sub("rb"), "data"); shutil.copytree(s.data, data)
    # an interrupted SET done again is twice in the data files: a second equal version in the history
    use(ctx, w, data, new, "rebuild", not shim)

def run_compact(ctx):
    w = source(ctx, shim=ctx.spec["i"] % 4 == 0); s = w.s; facts(ctx, w, "compact")
    od, oi = ctx.sub("outdata"), ctx.sub("outindex"); before = tree(s.data, s.index)
    for n, m in w.ns.items():
        rc, out = ctx.tool("quick-compact", "--in-data", s.data, "--in-index", s.index, "--out-data", od, "--out-index", oi, "--namespace", n)
        if rc: raise Violation("compact-failed", "quick-compact exits with %d" % rc, output=out[-1500:])
        ctx.ev.hit("evaluations"); ctx.ev.hit("compactions_" + m.mode)
    same_tree(before, (s.data, s.index), "quick-compact")
    for n, m in w.ns.items():
        st = files.Store(os.path.join(od, n), os.path.join(oi, n)).parse()
        have = sum(len(e.payload) for f in st.data for e in st.data[f])
        if have != m.size(): raise Violation("compact-size", "%s: %d bytes of payload after compaction, %d bytes are live" % (n, have, m.size()))
        for f in st.data:
            for e in st.data[f]:
                if gen.crc(e.payload) != e.crc: raise Violation("compact-crc", "the checksum of an entry is %08x, its payload gives %08x" % (e.crc, gen.crc(e.payload)))
    if ctx.rnd.random() < .5 and any(m.mode == "user" for m in w.ns.values()):
        # an index built from the compacted data files
        ni = ctx.sub("rebuilt"); d2 = os.path.join(ctx.sub("rb"), "data"); shutil.copytree(od, d2)
        names = [n for n, m in w.ns.items() if m.mode == "user"]
        for n in names:
            rc, out = ctx.tool("index-rebuild", "--data", d2, "--index", ni, "--namespace", n, "--mode", "user")
            if rc: raise Violation("rebuild-failed", "index-rebuild of compacted files exits with %d" % rc, output=out[-1500:])
        if "default" in names:
            for n in w.ns:
                if n not in names: shutil.rmtree(os.path.join(d2, n))
            use(ctx, w, d2, ni, "rebuild-compacted", False, names, 20)
    use(ctx, w, od, oi, "compact", False)

def run_rollback(ctx):
    try: rollback(ctx)
    finally: OFF[0] = 0

def rollback(ctx):
    """--time: the dataset as it was"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode="user", prof=rnd.choice(["tiny", "small"]), nkeys=8, base=ctx.sub("source"), shim=True).start()
    w.custom = False; w.nsnew("a"); s = w.s
    snaps = []; off = 0
    # times which do not fit a signed number of 32 bits
    if rnd.random() < .4: off = (1 << 31) - int(time.time()) + rnd.choice([-15, 100, 10 ** 9])
    s.ctl.set(time_off=off); OFF[0] = off
    for n in range(sp["ops"]):
        if n % 12 == 0:
            # everything so far is at now+off or before
            t = int(time.time()) + off + 1
            edge = {}
            for k in w.ns:
                # the very second of the last thing written, for half of them
                st = files.Store(os.path.join(s.data, k), os.path.join(s.index, k)).parse()
                l = [e.ts for f in sorted(st.data) for e in st.data[f]]
                edge[k] = max(l) if l and rnd.random() < .5 else t
                if edge[k] != t: ctx.ev.hit("rollback_edges")
            snaps.append((edge, {k: crash.clone(m) for k, m in w.ns.items()})); off += 10; w.s.ctl.set(time_off=off); OFF[0] = off
        w.step(ops=dict(scan=0, rscan=0, cursor=0, history=0, keycur=0, nsinfo=0, read=0, mget=0, jump=3, delete=10)) if rnd.random() < .95 else None
    OFF[0] = 0
    w.s.stop(); before = tree(s.data, s.index)
    for t, ns in [snaps[1]] + rnd.sample(snaps[1:], min(4, len(snaps) - 1)) + [({k: (1 << 32) - 1 for k in w.ns}, w.ns)]:
        new = ctx.sub()
        for n in ns:
            rc, out = ctx.tool("index-rebuild", "--data", s.data, "--index", new, "--namespace", n, "--mode", "user", "--time", str(t[n]))
            if rc: raise Violation("rebuild-failed", "index-rebuild --time exits with %d" % rc, output=out[-1500:])
        same_tree(before, (s.data, s.index), "index-rebuild")
        d2 = os.path.join(ctx.sub(), "data"); shutil.copytree(s.data, d2)
        w2 = World(ctx, mode="user", datasize=w.datasize, prof="tiny", nkeys=8, base=ctx.sub(), data=d2, index=new)
        w2.ns = {n: crash.clone(m) for n, m in ns.items()}
        for m in w2.ns.values(): m.cursors = []
        w2.pools = w.pools; w2.uniq = 5000000
        try: w2.start(); w2.verify_all(hist=False)
        except Violation as e: e.key = "rollback:" + e.key; raise
        w2.s.stop(); ctx.ev.hit("rollbacks"); ctx.ev.hit("evaluations"); ctx.distinct.add("rollback/%d" % min(len(ns["a"].live), 8))

NSH = None
def descriptor(path):
    """(raw header fields) of a zdb-namespace file: version, name, password, maxsize, flags"""
    b = files.rd(path)
    ver, nl, pl, mx, fl = struct.unpack_from("<IBBIB", b) if len(b) < 18 else struct.unpack_from("<IBBQB", b)
    o = struct.calcsize("<IBBQB")
    return {"version": ver, "name": b[o:o + nl], "password": b[o + nl:o + nl + pl], "maxsize": mx, "flags": fl, "len": len(b)}

def dump(ctx, index, name):
    rc, out = ctx.tool("namespace-dump", index, name)
    if rc: raise Violation("dump-failed", "namespace-dump exits with %d" % rc, output=out[-800:])
    g = lambda k: re.search(r"^\[\+\] %s\s*: (.*)$" % k, out, re.M).group(1)
    return {"name": g("name"), "password": g("password"), "public": g("public flag") != "0", "worm": g("mode worm") != "0", "maxsize": int(g("maximum size").split()[0])}

def run_editor(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, nkeys=6, base=ctx.sub("source"), prof="tiny").start()
    for n in ("a", "n" * 100, "sp ace"): w.nsnew(n, rnd.choice(["user", "seq"]))
    for _ in range(60): w.step()
    s = w.s
    for rd in range(sp["n"]):
        n = rnd.choice([x for x in w.ns]); m = w.ns[n]
        opts = {}
        if rnd.random() < .6: opts["password"] = rnd.choice(["secret", "x", "p" * 63, "with space", "*", "a=b;c", "p" * 255 if rnd.random() < .3 else "q"])
        if rnd.random() < .6: opts["maxsize"] = rnd.choice([1, 4096, 1 << 20, (1 << 31), (1 << 32) + 5, 1 << 40, 0])
        if rnd.random() < .6: opts["public"] = rnd.choice(["yes", "no"])
        if rnd.random() < .6: opts["worm"] = rnd.choice(["yes", "no"])
        if rd == 0: w.s.stop("STOP")
        want = {"password": opts.get("password"), "maxsize": int(opts.get("maxsize", 0)), "public": opts.get("public", "yes") == "yes", "worm": opts.get("worm", "no") == "yes"}
        before = tree(s.data, s.index)
        args = []
        for k in rnd.sample(sorted(opts), len(opts)): args += ["--" + k, str(opts[k])]
        rc, out = ctx.tool("namespace-editor", "--index", s.index, "--namespace", n, *args)
        if rc: raise Violation("editor-failed", "namespace-editor exits with %d" % rc, output=out[-800:])
        after = tree(s.data, s.index)
        d = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
        if any(not k.endswith("/%s/zdb-namespace" % n) for k in d): raise Violation("editor-files", "namespace-editor changed %s" % d[:4])
        g = dump(ctx, s.index, n); ctx.ev.hit("evaluations"); ctx.ev.hit("edits")
        if tree(s.data, s.index) != after: raise Violation("dump-source", "namespace-dump changed the files")
        if g != {"name": n, "password": want["password"] or "<no password set>", "public": want["public"], "worm": want["worm"], "maxsize": want["maxsize"]}:
            raise Violation("editor-value", "edited with %s, namespace-dump shows %s" % (opts, g))
        m.password = want["password"]; m.public = want["public"]; m.worm = want["worm"]; m.maxsize = want["maxsize"]
        ctx.distinct.add("editor/%s" % "+".join("%s=%s" % (k, str(v)[:3]) for k, v in sorted(opts.items())))
        if rd % 8 == 7 or rd == sp["n"] - 1:
            s.start(); c = s.client()
            for n2, m2 in w.ns.items():
                w.d.check_nsinfo(c, m2)
                if m2.password:
                    r = c.cmd("SELECT", n2, m2.password + "x")
                    if not isinstance(r, Err): raise Violation("editor-password", "SELECT with a wrong password answered %s" % short(r))
                    if m2.public is False:
                        r = c.cmd("SELECT", n2)
                        if not isinstance(r, Err): raise Violation("editor-password", "SELECT without password answered %s" % short(r))
                w.select(c, n2); w.d.read_all(c, m2)
                ctx.ev.hit("keys_verified", len(m2.live))
            c.close(); s.stop()

def parse_dump(out):
    """index-dump output -> {file: [fields]}"""
    res = []; cur = None
    for l in out.split("\n"):
        if "index-dump: header seems correct" in l: res.append([])
        m = re.match(r"\[\+\] index entry: (\d+), offset: (\d+)", l)
        if m: cur = {"n": int(m.group(1)), "off": int(m.group(2))}; res[-1].append(cur); continue
        m = re.match(r"\[\+\]   ([a-z ]+?)\s*: (.*)", l)
        if m and cur is not None: cur[m.group(1)] = m.group(2)
        elif cur is not None and "entry key" in cur and not l.startswith("["): cur["entry key"] += l
    return res

def run_dumps(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = source(ctx); s = w.s; facts(ctx, w, "dumps")
    before = tree(s.data, s.index)
    for n, m in w.ns.items():
        g = dump(ctx, s.index, n); ctx.ev.hit("evaluations")
        if g != {"name": n, "password": "<no password set>", "public": True, "worm": False, "maxsize": 0}: raise Violation("dump-value", "namespace-dump shows %s" % g)
        rc, out = ctx.tool("index-dump", os.path.join(s.index, n))
        if rc: raise Violation("dump-failed", "index-dump exits with %d" % rc, output=out[-800:])
        res = parse_dump(out)
        st = files.Store(os.path.join(s.data, n), os.path.join(s.index, n)).parse()
        if len(res) != len(st.index): raise Violation("dump-files", "index-dump shows %d files, there are %d" % (len(res), len(st.index)))
        for f in st.index:
            if len(res[f]) != len(st.index[f]): raise Violation("dump-entries", "index-dump shows %d entries in i%d, there are %d" % (len(res[f]), f, len(st.index[f])))
            for e, it in zip(res[f], st.index[f]):
                exp = {"off": it.off, "id length": str(len(it.id)), "data length": str(it.length), "data offset": str(it.offset), "data fileid": str(it.dataid), "entry flags": "0x%X" % it.flags,
                       "previous": str(it.previous), "data crc": "%08x" % it.crc, "parent id": str(it.parentid), "parent offs": str(it.parentoff),
                       "entry date": time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(it.ts))}
                for k, v in exp.items():
                    if e.get(k) != v: raise Violation("dump-" + k.replace(" ", "-"), "index-dump shows %s %r for the entry at %d of i%d, stored is %r" % (k, e.get(k), it.off, f, v))
                h = re.sub(r"[^0-9A-Fa-f]", "", e["entry key"].split("  ")[0] if False else e["entry key"])
                if it.id.hex() not in h.lower(): raise Violation("dump-key", "index-dump shows key %r, stored is %s" % (e["entry key"], it.id.hex()))
                ctx.ev.hit("dumped_entries")
    same_tree(before, (s.data, s.index), "index-dump")
    # a namespace which does not exist
    rc, out = ctx.tool("namespace-dump", s.index, "nothere")
    if rc == 0: raise Violation("dump-missing", "namespace-dump of a namespace which does not exist exits with 0", output=out[-500:])
    same_tree(before, (s.data, s.index), "namespace-dump")

def run_case(ctx): {"rebuild": run_rebuild, "compact": run_compact, "rollback": run_rollback, "editor": run_editor, "dumps": run_dumps}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("rebuild_verified", 12), ("compact_verified", 12), ("rebuilds_user", 20), ("compactions_seq", 10), ("compactions_user", 10), ("cross_file_updates", 3), ("rollbacks", 20), ("interrupted", 8), ("edits", 100), ("dumped_entries", 150), ("keys_verified", 500)) if ev.get(k, 0) < n]
