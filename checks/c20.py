"""C20: statistics and counters."""
import os, struct, re, time
from vz import gen
from vz.work import World
from vz.model import short
from vz.resp import Err, Closed, enc

PROP, LEVEL = "C20", "exploration"
TECHNIQUE = "runtime monitoring: conservation monitor; NSINFO/DBSIZE/NSLIST recomputed from the reference model and the files, INFO counter deltas recomputed from the monitored traffic, ASan+UBSan"
NOTE = "every quiet point compares all namespaces' statistics with the model and the directory, and the INFO deltas with the exact commands, connections and bytes the clients counted"
RULE = "one distinct = (operation just executed, mode, live-count class, limit class) at a quiet point"

def cases(tier, seed):
    out = []
    for i in range(36 if tier == "quick" else 280):
        out.append({"kind": "stats", "i": i, "seed": seed * 1000 + i, "ops": 420 if tier == "quick" else 1500, "mode": [None, "user", "seq"][i % 3], "prof": ["small", "tiny", "fill", "small"][i % 4]})
    for i in range(10 if tier == "quick" else 80): out.append({"kind": "info", "i": i, "seed": seed * 1000 + 500 + i, "rounds": 60 if tier == "quick" else 250})
    return out

def files_of(w, name):
    d = os.path.join(w.s.data, name); i = os.path.join(w.s.index, name)
    ds = sorted(int(x[1:]) for x in os.listdir(d) if re.fullmatch(r"d\d+", x))
    ix = sorted(int(x[1:]) for x in os.listdir(i) if re.fullmatch(r"i\d+", x))
    return d, ds, i, ix

def quiet_point(ctx, w, act):
    d = w.d
    for name, m in w.ns.items():
        i = d.check_nsinfo(w.adm, m)
        size = m.size()
        ctx.ev.hit("quiet_points")
        ctx.distinct.add("%s/%s/%d/%d" % (act, m.mode, min(len(m.live), 12), bool(m.maxsize)))
        if i.get("data_size_mb") != "%.2f" % (size / 1048576.0): d.bad("nsinfo-mb", "data_size_mb is %s for %d bytes" % (i.get("data_size_mb"), size))
        if m.maxsize:
            if i.get("space_available") != str(max(0, m.maxsize - size)): d.bad("nsinfo-available", "space_available is %s, limit %d used %d" % (i.get("space_available"), m.maxsize, size))
        elif "space_available" in i: d.bad("nsinfo-available", "space_available shown without a limit")
        # the index of a live key costs a fixed part and the key
        b = int(i["index_size_bytes"]) - sum(len(k) for k in m.live)
        per = getattr(ctx, "per_entry", None)
        if per is None and m.live and b % len(m.live) == 0: ctx.per_entry = per = b // len(m.live)
        if (per is None and (b or m.live)) or (per is not None and b != per * len(m.live)) or (per is not None and not 17 <= per <= 256):
            d.bad("nsinfo-index-size", "index_size_bytes is %s with %d live keys (%d bytes of keys)%s" % (i["index_size_bytes"], len(m.live), sum(len(k) for k in m.live), ", one key was counted %s bytes plus its length" % per if per else ""))
        if i.get("index_size_kb") != "%.2f" % (int(i["index_size_bytes"]) / 1024.0): d.bad("nsinfo-index-size", "index_size_kb is %s for %s bytes" % (i.get("index_size_kb"), i["index_size_bytes"]))
        dd, ds, ii, ix = files_of(w, name)
        cur = ds[-1] if ds else 0
        if i.get("data_current_id") != str(cur): d.bad("nsinfo-fileid", "data_current_id is %s, the last data file is %d" % (i.get("data_current_id"), cur))
        p = os.path.join(dd, "d%d" % cur)
        if i.get("data_current_offset") != str(os.path.getsize(p)): d.bad("nsinfo-offset", "data_current_offset is %s, the file is %d bytes" % (i.get("data_current_offset"), os.path.getsize(p)))
        if os.path.realpath(i.get("data_active", "")) != os.path.realpath(p): d.bad("nsinfo-active", "data_active is %s" % i.get("data_active"))
        if os.path.realpath(i.get("index_active", "")) != os.path.realpath(os.path.join(ii, "i%d" % ix[-1])): d.bad("nsinfo-active", "index_active is %s" % i.get("index_active"))
        for k in ("stats_index_io_errors", "stats_data_io_errors"):
            if i.get(k) != "0": d.bad("nsinfo-ioerrors", "%s is %s without any fault" % (k, i.get(k)))
        if m.mode == "seq":
            n = int.from_bytes(int(i["next_internal_id"], 16).to_bytes(8, "little"), "big")
            if m.issued and n <= m.issued[-1]: d.bad("nsinfo-nextid", "next_internal_id %d, %d was already issued" % (n, m.issued[-1]))
            if w.rnd.random() < .2 and not m.locked and (not m.maxsize or size + 20 <= m.maxsize):
                k = d.set(w.c(name), m, b"", b"next")
                if struct.unpack("<Q", k)[0] != n: d.bad("nsinfo-nextid", "next_internal_id was %d, the next id was %d" % (n, struct.unpack("<Q", k)[0]))
                ctx.ev.hit("nextid_predictions")
    for name in w.ns: d.check_dbsize(w.c(name), w.ns[name])
    l = w.adm.cmd("NSLIST")
    if not isinstance(l, list) or sorted(l) != sorted(n.encode("latin-1") for n in w.ns): d.bad("nslist", "NSLIST answered %s, namespaces are %s" % (short(l), sorted(w.ns)))
    if sorted(x for x in os.listdir(w.s.data) if x != ".lockfile") != sorted(w.ns): d.bad("nslist-dirs", "data directories %s, namespaces %s" % (os.listdir(w.s.data), sorted(w.ns)))

def refused(ctx, w, name):
    """commands which change nothing"""
    rnd = w.rnd; m = w.ns[name]; c = w.c(name)
    k = w.key(m) or b"x"
    was = (m.locked, m.worm, m.maxsize)
    x = rnd.randrange(5)
    if x == 0: w.nsset(name, "lock", 1); r = [c.cmd("SET", k, b"refused"), c.cmd("DEL", k)]; w.nsset(name, "lock", 0)
    elif x == 1: w.nsset(name, "freeze", 1); r = [c.cmd("SET", k, b"refused"), c.cmd("DEL", k)]; w.nsset(name, "freeze", 0)
    elif x == 2 and name != "default":
        w.nsset(name, "maxsize", max(1, m.size())); r = [c.cmd("SET", k, b"z" * (max(1, m.size()) - m.size() + 1 + (len(m.live[k][-1].value) if k in m.live else 0)))]
        # a limit below what is already there
        if m.size() > 2:
            w.nsset(name, "maxsize", rnd.choice([1, m.size() // 2, m.size() - 1])); quiet_point(ctx, w, "lowered"); ctx.ev.hit("lowered_limits")
        w.nsset(name, "maxsize", was[2])
    elif x == 3 and name != "default" and k in m.live:
        w.nsset(name, "worm", 1); r = [c.cmd("SET", k, b"refused!" + m.live[k][-1].value), c.cmd("DEL", k)]; w.nsset(name, "worm", 0)
    else: r = [c.cmd("DEL", b"never-was-there"), c.cmd("SET", b"k" * 256, b"x"), c.cmd("SET", b"k"), c.cmd("DEL"), c.cmd("SET", b"", b"x") if m.mode == "user" else Err("")]
    for v in r:
        if not isinstance(v, Err): w.d.bad("refused", "a command to be refused answered %s" % short(v))
    ctx.ev.hit("refused_commands", len(r))

def run_stats(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof=sp["prof"], nkeys=10).start()
    w.nsnew("a", None if sp["mode"] else "seq"); w.nsnew("b")
    n = 0
    while n < sp["ops"]:
        n += 1
        x = rnd.random()
        live = [k for k in w.ns if k != "default"]
        if x < .008 and len(w.ns) < 6: w.nsnew("ns%d" % n, None if sp["mode"] else rnd.choice(["user", "seq"])); act = "nsnew"
        elif x < .012 and len(live) > 1: w.nsdel(rnd.choice(live)); act = "nsdel"
        elif x < .03 and live:
            k = rnd.choice(live)
            w.nsset(k, "maxsize", rnd.choice([0, w.ns[k].size() + (1 << 40), (1 << 40)])); act = "maxsize"
        elif x < .05: refused(ctx, w, rnd.choice(list(w.ns))); act = "refused"
        elif x < .06 and live:
            k = rnd.choice(live); w.nsset(k, "password", "p"); w.nsset(k, "public", 0)
            r = w.c(k).cmd("FLUSH")
            if r != "OK": w.d.bad("flush", "FLUSH answered %s" % short(r))
            w.ns[k].reset(); act = "flush"; ctx.ev.hit("flushes")
        elif x < .068: w.restart(); act = "restart"
        elif x < .078: w.reload(rnd.choice(list(w.ns))); act = "reload"
        else: act = w.step(ops=dict(scan=.3, rscan=.3, cursor=.3, history=.5, read=5, nsinfo=0))
        if n % 6 == 0 or x < .078: quiet_point(ctx, w, act)
    quiet_point(ctx, w, "end"); w.restart(); quiet_point(ctx, w, "restart")
    # delete everything: the statistics come back to zero
    for name, m in w.ns.items():
        for k in list(m.live): w.d.delete(w.c(name), m, k)
        w.nsset(name, "maxsize", 0) if name != "default" else None
    quiet_point(ctx, w, "empty"); w.restart(); quiet_point(ctx, w, "empty-restart")
    ctx.sample = {"mode": sp["mode"], "quiet_points": ctx.ev.get("quiet_points")}
    w.s.stop()

def info(c, d):
    r = c.cmd("INFO")
    if not isinstance(r, bytes): d.bad("info", "INFO answered %s" % short(r))
    o = {}
    for l in r.decode("latin-1").split("\n"):
        if ": " in l: k, v = l.split(": ", 1); o[k] = v
    return o

def run_info(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    admin = rnd.random() < .6
    w = World(ctx, mode=None, prof="mixed" if rnd.random() < .3 else "small", admin="pw" if admin else None).start()
    m = w.ns["default"]; d = w.d
    mon = w.s.client()           # the connection which reads INFO
    for rd in range(sp["rounds"]):
        cl = w.cl["default"] + [w.adm]
        guest = w.s.client(); guest.cmd("PING"); cl.append(guest)
        a = info(mon, d)
        valid = failed = unauth = conns = 0
        rx0 = sum(c.tx for c in cl); tx0 = sum(c.rx for c in cl)
        r_before = mon.rx
        closed = []
        for _ in range(rnd.randrange(1, 15)):
            x = rnd.random(); c = w.c("default")
            if x < .35: d.set(c, m, w.key(m), w.value(None)); valid += 1
            elif x < .5: d.read(c, m, w.key(m)); valid += 1
            elif x < .58:
                l = [w.key(m) for _ in range(rnd.randrange(1, 20))]
                c.raw(b"".join(enc("GET", k) for k in l))
                for k in l: d.check_read(m, "GET", k, c.recv())
                valid += len(l)
            elif x < .66:
                bad = rnd.choice([("NOPE",), ("GETX", "a"), ("SETXX", "a", "b"), ("\xff\0",), ("HELLO", "3")])
                r = c.cmd(*bad); failed += 1
                if not isinstance(r, Err): d.bad("unknown", "unknown command answered %s" % short(r))
            elif x < .75:
                adm = rnd.choice([("NSNEW", "x/y"), ("NSJUMP",), ("HOOKS",), ("INDEX", "DIRTY"), ("DATA", "RAW", "0", "99999999"), ("MIRROR",), ("NSSET", "zz", "worm", "1"), ("SET", "a", "b", "1")])
                if admin:
                    r = guest.cmd(*adm); valid += 1; unauth += 1
                    if not isinstance(r, Err): d.bad("unauthorized", "%s answered %s" % (adm[0], short(r)))
                elif adm[0] in ("HOOKS", "INDEX"): guest.cmd(*adm); valid += 1
            elif x < .85:
                n = w.s.client(); n.cmd("PING"); conns += 1; valid += 1; closed.append(n)
            elif x < .9: c.cmd("DEL", b"missing-key"); valid += 1
            elif x < .93: c.cmd("GET"); valid += 1
            elif x < .96:
                # a reply larger than the socket buffer: it is sent in many parts while we read it
                if m.live and not m.worm:
                    k = rnd.choice(list(m.live)); d.set(c, m, k, rnd.randbytes(rnd.choice((300000, 700000, 1500000)))); c.raw(enc("GET", k)); time.sleep(.01)
                    d.check_read(m, "GET", k, c.recv()); valid += 2; ctx.ev.hit("parted_replies")
            else: d.check_dbsize(c, m); valid += 1
        allc = cl + closed
        b = info(mon, d)
        ctx.ev.hit("info_deltas"); ctx.ev.hit("evaluations"); ctx.distinct.add("info/%d/%d/%d/%d" % (min(valid, 20), failed, unauth, conns))
        def delta(k): return int(b[k]) - int(a[k])
        want = {"commands_executed": valid + 1, "commands_failed": failed, "commands_unauthorized": unauth, "clients_lifetime": conns}
        rx = sum(c.tx for c in allc) - rx0 + len(enc("INFO"))
        want["network_rx_bytes"] = rx
        for k, v in want.items():
            if delta(k) != v: d.bad("info-" + k, "INFO %s grew by %d, expected %d" % (k, delta(k), v))
        # the first INFO reply was sent after its own snapshot: its size is what mon received for it
        tx = sum(c.rx for c in allc) - tx0 + (r_before - getattr(w, "mon_seen", 0))
        if hasattr(w, "mon_seen") and delta("network_tx_bytes") != tx:
            # mon_seen = bytes mon had received before the first INFO of this round
            d.bad("info-network_tx_bytes", "INFO network_tx_bytes grew by %d, expected %d" % (delta("network_tx_bytes"), tx))
        w.mon_seen = mon.rx
        for k in ("index_disk_read_failed", "index_disk_write_failed", "data_disk_read_failed", "data_disk_write_failed"):
            if b[k] != "0": d.bad("info-" + k, "%s is %s without any fault" % (k, b[k]))
        for k in ("network_rx", "network_tx"):
            if b[k + "_mb"] != "%.2f" % (int(b[k + "_bytes"]) / 1048576.0): d.bad("info-mb", "%s_mb %s for %s bytes" % (k, b[k + "_mb"], b[k + "_bytes"]))
        for c in closed + [guest]: c.close()
        if rnd.random() < .1: w.d.verify(w.c("default"), m)
    ctx.sample = {"rounds": sp["rounds"], "admin": admin}
    w.s.stop()

def run_case(ctx): {"stats": run_stats, "info": run_info}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("quiet_points", 5000), ("info_deltas", 400), ("parted_replies", 30), ("nextid_predictions", 100), ("refused_commands", 300), ("restarts", 60), ("flushes", 40)) if ev.get(k, 0) < n]
