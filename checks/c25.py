"""C25: command line options do what they say, for that run only."""
import os, re, signal, socket, subprocess, time
from checks.c08 import tree
from vz.files import Store
from vz.model import Violation, short
from vz.resp import Client, Closed, Err, Timeout
from vz.server import StartError

PROP = "C25"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real server run again and again on one store with random options; oracle over NSINFO, refusals, file sizes and file hashes, the sockets the process "
             "listens on, a moved clock for the rotation, and a map model of the content across all runs")
NOTE = "every run is judged against its own options and every later run shows no trace of earlier options"
RULE = "evaluations = judged facts (a run's limits, a file's size, a rotation decided or not, a socket, a refused start); distinct = (kind, options, outcome)"

def cases(tier, seed):
    out = []
    n = 1 if tier == "quick" else 8
    for r in range(n):
        s = seed * 1000 + r * 60
        for i in range(6): out.append({"kind": "runs", "i": i, "seed": s + i, "rounds": 9})
        for i in range(6): out.append({"kind": "size", "i": i, "seed": s + 10 + i, "rounds": 4})
        for i in range(6): out.append({"kind": "rotate", "i": i, "seed": s + 20 + i, "rounds": 9})
        for i in range(2): out.append({"kind": "refuse", "i": i, "seed": s + 30 + i})
        for i in range(3): out.append({"kind": "net", "i": i, "seed": s + 40 + i})
        for i in range(3): out.append({"kind": "background", "i": i, "seed": s + 50 + i})
        for i in range(3): out.append({"kind": "dump", "i": i, "seed": s + 55 + i})
    return out

def info(c, ns="default"):
    r = c.cmd("NSINFO", ns)
    if isinstance(r, Err): raise Violation("nsinfo", "NSINFO %s answered %s" % (ns, r))
    return dict(l.split(": ", 1) for l in r.decode("latin-1").splitlines() if ": " in l)

def refused(r): return isinstance(r, Err)

# ------------------------------------------------------------------ protect, admin and maxsize over many runs
def run_runs(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    D, I = os.path.join(base, "data"), os.path.join(base, "index")
    mode = rnd.choice([None, "user", None])
    model, other = {}, {}
    own = None          # what namespace "own" is set to: (password, maxsize, public)
    worm = False
    n = 0
    secrets = set()
    for rd in range(sp["rounds"]):
        args, admin, protect, limit = [], None, False, 0
        if mode: args += ["--mode", mode]
        x = rnd.choice(["", "a", "ap", "ap", "m", "am", "apm"])
        if "a" in x: admin = "admin-%d-%d" % (rd, rnd.getrandbits(40)); args += ["--admin", admin]; secrets.add(admin)
        if "p" in x: protect = True; args.append("--protect")
        if "m" in x: limit = rnd.choice([200, 1000, 5000, 65536, 200, 1000, 5000, 65536, 1 << 31, 1 << 32, (5 << 30) + 1, 1 << 44]); args += ["--maxsize", str(limit)]
        if rnd.random() < .3: args.append("--sync")
        if rnd.random() < .3: args.append("--verbose")
        rnd.random() < .5 and args.reverse() if not args or all(a.startswith("--") for a in args) else None
        s = ctx.server("asan", base, data=D, index=I, args=args, leaks=True).start()
        what = "run %d with %s" % (rd, x or "no option")
        def judge(cond, key, msg):
            ctx.ev.hit("evaluations")
            if not cond: raise Violation(key, "%s: %s" % (what, msg))
        adm = s.client()
        if admin:
            judge(refused(adm.cmd("NSNEW", "nope")), "admin", "NSNEW without the admin password is accepted")
            judge(refused(adm.cmd("AUTH", admin + "x")), "admin", "a wrong admin password is accepted")
            for old in list(secrets - {admin})[-2:]: judge(refused(adm.cmd("AUTH", old)), "admin-old", "the admin password of an earlier run is accepted")
            judge(adm.cmd("AUTH", admin) == "OK", "admin", "the admin password is refused")
        else:
            judge(refused(adm.cmd("AUTH", "whatever")), "admin", "AUTH works without --admin")
        f = info(adm)
        judge(f["password"] == ("yes" if protect else "no"), "protect-info", "NSINFO default says password: %s" % f["password"])
        judge(int(f["data_limits_bytes"]) == limit, "maxsize-info", "NSINFO default says data_limits_bytes: %s" % f["data_limits_bytes"])
        judge(int(f["entries"]) == len(model), "entries", "NSINFO default says entries: %s, %d expected" % (f["entries"], len(model)))
        u = s.client()
        for k, v in list(model.items())[:60]:
            r = u.cmd("GET", k)
            judge(r == v, "content", "GET %s answered %s" % (k, short(r)))
        # writing on default
        def write(c, key="w"):
            nonlocal n
            n += 1; k, v = "%s%d" % (key, rnd.randrange(30)), b"v%d" % n
            tot = sum(map(len, model.values())) - len(model.get(k, b"")) + len(v)
            r = c.cmd("SET", k, v)
            if refused(r): return k, v, False, tot
            model[k] = v
            return k, v, True, tot
        if protect:
            k, v, ok, _ = write(u)
            judge(not ok, "protect", "SET by a client which did not give the password is accepted")
            judge(refused(u.cmd("DEL", k)), "protect", "DEL by a client which did not give the password is accepted")
            judge(u.cmd("SELECT", "default") == "OK", "protect", "SELECT default without password is refused")
            k, v, ok, _ = write(u)
            judge(not ok, "protect", "SET after SELECT default without password is accepted")
            judge(refused(u.cmd("SELECT", "default", admin + "x")), "protect", "SELECT default with a wrong password is accepted")
            judge(u.cmd("SELECT", "default", admin) == "OK", "protect", "SELECT default with the admin password is refused")
        for _ in range(rnd.randrange(1, 12)):
            k, v, ok, tot = write(u)
            if not limit or tot <= limit: judge(ok, "write", "SET is refused though %s" % ("the content would be %d of %d bytes" % (tot, limit) if limit else "nothing limits it"))
        if limit and limit <= 65536:
            big = b"x" * limit
            judge(refused(u.cmd("SET", "toobig", big + b"yy")), "maxsize", "a value above --maxsize is accepted")
            left = limit - sum(map(len, model.values()))
            if left > 0:
                r = u.cmd("SET", "fits", b"y" * max(1, left - len(model.get("fits", b""))) if "fits" not in model else b"z")
                judge(not refused(r) or "fits" in model, "maxsize", "a value which reaches --maxsize is refused (%s)" % r)
                if not refused(r) and "fits" not in model: model["fits"] = b"y" * max(1, left)
                elif not refused(r): model["fits"] = b"z"
        else:
            r = u.cmd("SET", "large", b"q" * 70000); judge(not refused(r), "maxsize-old", "a large value is refused without --maxsize (%s)" % r); model["large"] = b"q" * 70000
            if rnd.random() < .7: u.cmd("DEL", "large"); del model["large"]
        # other namespaces follow their own settings only
        if own is None:
            judge(adm.cmd("NSNEW", "own") == "OK", "nsnew", "NSNEW is refused"); own = [None, 0]
        f = info(adm, "own")
        judge(f["password"] == ("yes" if own[0] else "no") and int(f["data_limits_bytes"]) == own[1], "other-ns", "NSINFO own says password %s, limit %s instead of %s" % (f["password"], f["data_limits_bytes"], own))
        o = s.client()
        r = o.cmd("SELECT", "own", own[0]) if own[0] else o.cmd("SELECT", "own")
        judge(r == "OK", "other-ns", "SELECT own is refused: %s" % r)
        for k, v in other.items(): judge(o.cmd("GET", k) == v, "other-content", "GET in own failed")
        n += 1; other["o%d" % (n % 7)] = b"o%d" % n
        judge(not refused(o.cmd("SET", "o%d" % (n % 7), b"o%d" % n)), "other-ns", "SET in own is refused")
        # changes of settings: those of default which are not stored must not store the options
        for _ in range(rnd.randrange(0, 4)):
            y = rnd.choice(["lock", "freeze", "own-pass", "own-max", "reload", "own-lock", "jump", "bad", "reload-default", "flush"])
            if y in ("lock", "freeze"):
                judge(adm.cmd("NSSET", "default", y, "1") == "OK", "nsset", "NSSET default %s is refused" % y)
                judge(refused(u.cmd("SET", "k", "v")), "lock", "SET on a locked namespace is accepted")
                judge(adm.cmd("NSSET", "default", y, "0") == "OK", "nsset", "NSSET default %s is refused" % y)
            elif y == "own-pass":
                own[0] = rnd.choice([None, "pw%d" % n]); judge(adm.cmd("NSSET", "own", "password", own[0] or "*") == "OK", "nsset", "NSSET own password refused")
            elif y == "own-max":
                own[1] = rnd.choice([0, 100000]); judge(adm.cmd("NSSET", "own", "maxsize", str(own[1])) == "OK", "nsset", "NSSET own maxsize refused")
            elif y == "own-lock":
                adm.cmd("NSSET", "own", "lock", "1"); adm.cmd("NSSET", "own", "lock", "0")
            elif y == "jump": adm.cmd("NSJUMP")
            elif y == "bad": judge(refused(adm.cmd("NSSET", "default", rnd.choice(["password", "maxsize", "public"]), "1")), "nsset", "NSSET default password is accepted")
            elif y == "reload-default":
                judge(adm.cmd("RELOAD", "default") == "OK", "reload", "RELOAD default is refused")
                f = info(adm); judge(f["password"] == ("yes" if protect else "no") and int(f["data_limits_bytes"]) == limit and int(f["entries"]) == len(model), "reload-info", "after RELOAD, NSINFO default says password %s, limit %s, entries %s" % (f["password"], f["data_limits_bytes"], f["entries"]))
            elif y == "flush" and rnd.random() < .4:
                for q in (u, s.client()): judge(refused(q.cmd("FLUSH")), "flush", "FLUSH on default is accepted")
            elif y == "reload":
                adm.cmd("SELECT", "own", own[0] or ""); adm.cmd("RELOAD", "own"); adm.cmd("SELECT", "default")
            ctx.distinct.add("runs/%s/%s" % (x, y))
        s.stop(rnd.choice(["STOP", "SIGTERM"]) if not any(a == "x" for a in args) else "STOP")
        # no file of the store holds a secret of the command line
        for r_, _, fs in os.walk(base):
            if not r_.startswith((D, I)): continue
            for q in fs:
                b = open(os.path.join(r_, q), "rb").read()
                for a in secrets:
                    if a.encode() in b: raise Violation("secret-stored", "%s: the admin password given on the command line is in the file %s" % (what, os.path.relpath(os.path.join(r_, q), base)))
        ctx.ev.hit("runs"); ctx.distinct.add("runs/%s" % x)
    ctx.sample = {"rounds": sp["rounds"], "keys": len(model)}

# ------------------------------------------------------------------ datasize
def run_size(ctx):
    """a data file which reached the size gets no new value; one below is not left; over runs with different sizes"""
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    D, I = os.path.join(base, "data"), os.path.join(base, "index")
    mode = rnd.choice(["user", "seq"])
    model = {}
    for rd in range(sp["rounds"]):
        text, limit = rnd.choice([("524288", 1 << 19), ("512k", 1 << 19), ("0.5M", 1 << 19), ("524289", 524289), ("1M", 1 << 20), ("600k", 600 << 10), ("0.0006G", int(0.0006 * (1 << 30))), ("0.05G", int(0.05 * (1 << 30))), ("3145728", 3 << 20), ("2.25M", 9 << 18), ("1.5M", 3 << 19)])
        if sp["i"] < 2 and rd == 0: text, limit = "512k", 1 << 19
        s = ctx.server(rnd.choice(["plain", "asan"]), base, data=D, index=I, datasize=text, args=["--mode", mode]).start()
        c = s.client()
        def cur():
            return int(info(c)["data_current_id"])
        for k, v in rnd.sample(sorted(model.items()), min(25, len(model))):
            r = c.cmd("GET", k)
            if r != v: raise Violation("content", "--datasize %s: GET answered %s instead of %s" % (text, short(r), short(v)))
        f = cur()
        lens = [rnd.choice([10, 1000, 60000, 65536, 200000, 262144, 400000, 523000, 524288 - 60, 524288]) for _ in range(rnd.randrange(6, 24))]
        for l in lens:
            size = os.path.getsize(os.path.join(D, "default", "d%d" % f))
            v = rnd.randbytes(l)
            if mode == "user": k = "k%d" % rnd.randrange(40); r = c.cmd("SET", k, v); ok = r == k.encode()
            else:
                k = rnd.choice(sorted(model)) if model and rnd.random() < .2 else b""
                r = c.cmd("SET", k, v); ok = isinstance(r, bytes) and len(r) == 8
                k = r
            if not ok: raise Violation("set", "--datasize %s: SET of %d bytes answered %s" % (text, l, short(r)))
            model[k] = v
            g = cur()
            full = size + l > limit
            ctx.ev.hit("evaluations")
            if g not in (f, f + 1): raise Violation("size-jump", "--datasize %s: the data file went from %d to %d for one value" % (text, f, g))
            if full and g == f: raise Violation("size-over", "--datasize %s: a value of %d bytes was added to data file %d which had %d bytes" % (text, l, f, size))
            if not full and g != f: raise Violation("size-early", "--datasize %s: data file %d was left at %d bytes for a value of %d bytes" % (text, f, size, l))
            ctx.distinct.add("size/%s/%s/%s" % (text, l, "new" if g != f else "same"))
            if g != f: ctx.ev.hit("files_filled")
            f = g
            if rnd.random() < .1 and mode == "user":
                c.cmd("DEL", k); model.pop(k)
        s.stop(rnd.choice(["STOP", "SIGTERM", "SIGINT"]))
    s = ctx.server("asan", base, data=D, index=I, args=["--mode", mode]).start(); c = s.client()
    for k, v in model.items():
        r = c.cmd("GET", k)
        if r != v: raise Violation("content", "after runs with different --datasize, GET answered %s instead of %s" % (short(r), short(v)))
    s.stop()

# ------------------------------------------------------------------ rotation
def run_rotate(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    S = rnd.choice([1000, 3600, 86400])
    on = sp["i"] != 5
    args = ["--rotate", str(S)] if on else rnd.choice([[], ["--rotate", "0"]])
    mode = rnd.choice([None, "user", "seq"])
    if mode: args = ["--mode", mode] + args
    s = ctx.server(rnd.choice(["asan", "plain"]), base, shim=True, args=args)
    s.start(); c = s.client()
    off = 0
    names = ["default", "a", "b", "c"]
    cl, model, st, kind = {}, {}, {}, {}
    for nsn in names:
        if nsn != "default" and c.cmd("NSNEW", nsn) != "OK": raise Violation("nsnew", "NSNEW refused")
        kind[nsn] = mode or "user"
        if nsn == "b" and mode is None:
            if c.cmd("NSSET", "b", "mode", "seq") != "OK": raise Violation("mode", "NSSET mode refused")
            kind[nsn] = "seq"
        cl[nsn] = s.client(); cl[nsn].cmd("SELECT", nsn); model[nsn] = {}
        st[nsn] = {"since": off, "changed": False, "maybe": nsn == "b" and mode is None}
    def ids():
        o = {}
        for nsn in names:
            i = info(c, nsn); o[nsn] = (int(i["data_current_id"]), int(os.path.basename(i["index_active"])[1:]))
        return o
    def put(nsn, new=False):
        q = model[nsn]
        if kind[nsn] == "user":
            k = "k%d" % rnd.randrange(12); v = rnd.randbytes(rnd.randrange(0, 300))
            if k in q and not new and rnd.random() < .3:
                if cl[nsn].cmd("DEL", k) != "OK": raise Violation("del", "DEL refused")
                del q[k]; st[nsn]["maybe"] = True      # the index entry may be in an older file: nothing new in the last one
                return
            else:
                if q.get(k) == v: v += b"."
                r = cl[nsn].cmd("SET", k, v)
                if r != k.encode(): raise Violation("set", "SET answered %s" % short(r))
                q[k] = v
        else:
            v = rnd.randbytes(rnd.randrange(1, 300))
            r = cl[nsn].cmd("SET", "", v)
            if not isinstance(r, bytes): raise Violation("set", "SET answered %s" % short(r))
            q[r] = v
        st[nsn]["changed"] = True
    def settle(expect, before):
        """wait for the idle work; then no other jump may have happened"""
        end = time.monotonic() + 30
        while True:
            a = ids()
            if all(a[n] != before[n] for n in expect) or time.monotonic() > end: break
            time.sleep(.3)      # the idle work needs a quiet moment
        time.sleep(.7)
        return ids()
    for rd in range(sp["rounds"]):
        # old enough to rotate and waiting for a change: the first one is followed by the rotation
        due = [n for n in names if on and off - st[n]["since"] > S + 2]
        if due:
            before = ids()
            for n in due: put(n, True)
            after = settle(due, before)
            for n in due:
                d = (after[n][0] - before[n][0], after[n][1] - before[n][1])
                if d == (0, 0) and st[n]["maybe"]: st[n].update(since=off, changed=False, maybe=True); continue
                if d != (1, 1): raise Violation("rotate-due", "namespace %s changed %d s after its last rotation (--rotate %d): files %s became %s" % (n, off - st[n]["since"], S, before[n], after[n]))
                st[n].update(since=off, changed=False, maybe=False); ctx.ev.hit("rotations"); ctx.ev.hit("rotations_due")
        for nsn in names:
            if rnd.random() < .5:
                for _ in range(rnd.randrange(1, 6)): put(nsn)
        act = rnd.choice(["", "", "jump", "restart"])
        if act == "jump":
            nsn = rnd.choice(names); b = ids(); r = cl[nsn].cmd("NSJUMP")
            if r != "OK": raise Violation("nsjump", "NSJUMP answered %s" % r)
            st[nsn].update(since=off, changed=False, maybe=False)
            if rnd.random() < .7: put(nsn)
        elif act == "restart":
            s.stop(rnd.choice(["STOP", "SIGTERM"]))
            s.start(); s.ctl.set(time_off=off); c = s.client()
            for nsn in names: cl[nsn] = s.client(); cl[nsn].cmd("SELECT", nsn); st[nsn].update(since=off, changed=False, maybe=False)
            for nsn in names: put(nsn) if rnd.random() < .6 else None
        step = rnd.choice([S // 4 + 7, S // 2 + 11, S + 5, S + 60, S * 3])
        before = ids()
        off += step; s.ctl.set(time_off=off)
        must, may = [], []
        for nsn in names:
            x = st[nsn]
            if not on: continue
            age = (off - x["since"], off - x["since"] + 50)
            if not x["changed"]:
                if x["maybe"]: may.append(nsn)
                continue
            if age[0] > S + 2: must.append(nsn)
            elif age[1] + 2 >= S: may.append(nsn)
        after = settle(must, before)
        for nsn in names:
            ctx.ev.hit("evaluations")
            d = (after[nsn][0] - before[nsn][0], after[nsn][1] - before[nsn][1])
            if d not in ((0, 0), (1, 1)): raise Violation("rotate-count", "namespace %s moved by %s files in one rotation" % (nsn, d))
            why = "namespace %s (%schanged since its last rotation), %d s later with --rotate %s" % (nsn, "" if st[nsn]["changed"] else "not ", step, S if on else "absent or 0")
            if nsn in must and d == (0, 0): raise Violation("rotate-missing", "no rotation of " + why)
            if nsn not in must and nsn not in may and d != (0, 0): raise Violation("rotate-extra", "unexpected rotation of " + why)
            if d == (1, 1): st[nsn].update(since=off, changed=False, maybe=False); ctx.ev.hit("rotations")
            else: ctx.ev.hit("kept")
            ctx.distinct.add("rotate/%s/%s/%s/%s" % (kind[nsn], "changed" if st[nsn]["changed"] else "same", act, d))
        for nsn in names:
            for k, v in model[nsn].items():
                r = cl[nsn].cmd("GET", k)
                if r != v: raise Violation("content", "after a rotation, GET in %s answered %s instead of %s" % (nsn, short(r), short(v)))
    s.stop()
    Store(s.data, s.index).parse()
    s2 = ctx.server("asan", base, data=s.data, index=s.index).start()
    for nsn in names:
        q = s2.client(); q.cmd("SELECT", nsn)
        for k, v in model[nsn].items():
            r = q.cmd("GET", k)
            if r != v: raise Violation("content", "after rotations and a restart, GET in %s answered %s" % (nsn, short(r)))
        if int(info(q, nsn)["entries"]) != len(model[nsn]): raise Violation("content", "after rotations and a restart, NSINFO counts another number of entries in %s" % nsn)
    s2.stop()

# ------------------------------------------------------------------ options which must not start anything
BADOPTS = [["--version"], ["--help"], ["--mode", "other"], ["--mode", ""], ["--datasize", "524287"], ["--datasize", "511k"], ["--datasize", "4294967295"], ["--datasize", "4G"], ["--datasize", "1T"],
           ["--datasize", ""], ["--datasize", "abc"], ["--datasize", "-5M"], ["--datasize", "1e30"], ["--datasize", "0"], ["--datasize", "1x"], ["--protect"], ["--nosuch"], ["--datasize"], ["--mode"], ["--mode", "USER"],
           ["--protect", "--maxsize", "5000"], ["--version", "--protect"]]
def run_refuse(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    D, I = os.path.join(base, "data"), os.path.join(base, "index")
    if sp["i"]:     # an existing store, in a given mode
        m = rnd.choice(["user", "seq"])
        s = ctx.server("asan", base, data=D, index=I, args=["--mode", m]).start(); c = s.client()
        for k in range(20): c.cmd("SET", "k%d" % k if m == "user" else "", "v%d" % k)
        c.cmd("NSNEW", "x"); s.stop()
    for o in BADOPTS + ([["--mode", "seq" if m == "user" else "user"]] if sp["i"] else []):
        b = tree(D, I) if sp["i"] else None
        first = rnd.random() < .5 and o[0] not in ("--version", "--help")
        s = ctx.server("asan", base, data=D, index=I, datasize=None, args=o)
        s.spawn()
        try: s.proc.wait(30)
        except subprocess.TimeoutExpired:
            s.kill(); raise Violation("refuse-started", "a server started with %s keeps running" % " ".join(o))
        s.check_dead(expected=None)
        ctx.ev.hit("evaluations"); ctx.ev.hit("refused_starts")
        if o[0] not in ("--version", "--help") and s.proc.returncode == 0: raise Violation("refuse-status", "a start refused for %s ends with status 0" % " ".join(o))
        if sp["i"]:
            a = tree(D, I)
            if a != b: raise Violation("refuse-changed", "a start with %s changed %s" % (" ".join(o), sorted(os.path.relpath(p, base) for p in set(a) | set(b) if a.get(p) != b.get(p))[:4]))
        elif os.path.exists(D) or os.path.exists(I): raise Violation("refuse-created", "a start with %s created directories" % " ".join(o))
        if os.path.exists(s.sockpath): raise Violation("refuse-listen", "a start with %s created the socket" % " ".join(o))
        ctx.distinct.add("refuse/%d/%s/%s" % (sp["i"], " ".join(o), s.proc.returncode))
    if sp["i"]:
        s = ctx.server("asan", base, data=D, index=I).start(); c = s.client()
        for k in range(20):
            if m == "user" and c.cmd("GET", "k%d" % k) != b"v%d" % k: raise Violation("content", "GET failed after refused starts")
        if int(info(c)["entries"]) != 20: raise Violation("content", "entries lost after refused starts")
        s.stop()

# ------------------------------------------------------------------ sockets
def listening(pid):
    """(family, address or path, port) of every listening socket of the process"""
    ino = set()
    for f in os.listdir("/proc/%d/fd" % pid):
        try: l = os.readlink("/proc/%d/fd/%s" % (pid, f))
        except OSError: continue
        if l.startswith("socket:["): ino.add(l[8:-1])
    out = set()
    for p, v6 in (("/proc/net/tcp", 0), ("/proc/net/tcp6", 1)):
        try: L = open(p).read().splitlines()[1:]
        except OSError: continue
        for l in L:
            x = l.split()
            if x[3] == "0A" and x[9] in ino:
                a, port = x[1].rsplit(":", 1)
                raw = b"".join(bytes.fromhex(a[i:i + 8])[::-1] for i in range(0, len(a), 8))
                out.add(("tcp", socket.inet_ntop(socket.AF_INET6 if v6 else socket.AF_INET, raw), int(port, 16)))
    for l in open("/proc/net/unix").read().splitlines()[1:]:
        x = l.split()
        if x[6] in ino and int(x[3], 16) & 0x10000: out.add(("unix", x[7] if len(x) > 7 else ""))
    return out

def free_port(a="127.0.0.1"):
    with socket.socket() as q: q.bind((a, 0)); return q.getsockname()[1]

class Tcp(Client):
    def __init__(self, addr, timeout=30):
        from vz.resp import Parser
        self.s = socket.create_connection(addr, timeout=timeout); self.p = Parser(); self.timeout = timeout; self.sent = self.rx = self.tx = 0; self.closed = False

def run_net(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    D, I = os.path.join(base, "data"), os.path.join(base, "index")
    total = 0
    for t in range(8):
        sock = os.path.join(base, "sock%d" % t)
        addr = rnd.choice(["127.0.0.1", "127.0.0.2", "127.1.2.3", "localhost"])
        port = free_port()
        combo = ["unix", "tcp", "both", "unix-port"][t % 4]
        args = []
        if combo != "tcp": args += ["--socket", sock]
        if combo in ("tcp", "both", "unix-port"): args += ["--listen", addr, "--port", str(port)]
        if combo == "both": args.append("--dualnet")
        if rnd.random() < .3 and combo != "tcp": open(sock, "w").write("stale")     # left by a server which was killed
        s = ctx.server("asan", base, data=D, index=I, sock=False, args=args)
        s.spawn()
        unix, tcp = combo != "tcp", combo in ("tcp", "both")
        end = time.monotonic() + 30
        a = []
        while time.monotonic() < end:
            if s.proc.poll() is not None: s.check_dead(expected=None); raise StartError(s.proc.returncode, s.output())
            try:
                a = []
                if unix: a.append(Client(sock, timeout=20))
                if tcp: a.append(Tcp((addr, port)))
                break
            except OSError:
                for x in a: x.s.close()
                time.sleep(.01)
        else: raise Violation("net-missing", "%s: not reachable" % " ".join(args))
        for i, c in enumerate(a):
            total += 1
            if c.cmd("SET", "n%d" % total, "x") != b"n%d" % total: raise Violation("net-set", "SET over %s failed" % combo)
        for c in a:
            for k in range(1, total + 1):
                if c.cmd("GET", "n%d" % k) != b"x": raise Violation("net-get", "a key written over another socket is not there (%s)" % combo)
        L = listening(s.proc.pid)
        ctx.ev.hit("evaluations")
        u = [x for x in L if x[0] == "unix"]; n = [x for x in L if x[0] == "tcp"]
        if (len(u), len(n)) != (int(unix), int(tcp)): raise Violation("net-sockets", "%s listens on %s" % (" ".join(args), sorted(L)))
        if unix and u[0][1] != sock: raise Violation("net-path", "%s listens on %s" % (" ".join(args), u))
        if tcp:
            if n[0][2] != port: raise Violation("net-port", "%s listens on port %d" % (" ".join(args), n[0][2]))
            want = {addr} if addr != "localhost" else {"127.0.0.1", "::1"}
            if n[0][1] not in want: raise Violation("net-address", "%s listens on %s" % (" ".join(args), n[0][1]))
            # a second server which cannot have the address leaves (and its own directories stay usable)
            d2 = ctx.sub()
            t2 = ctx.server("asan", d2, sock=False, args=["--listen", addr, "--port", str(port)])
            t2.spawn()
            try: t2.proc.wait(30)
            except subprocess.TimeoutExpired: t2.kill(); raise Violation("net-busy", "a server whose port is taken keeps running")
            t2.check_dead(expected=None)
            if t2.proc.returncode == 0: raise Violation("net-busy", "a server whose port is taken ends with status 0")
            if a[0].cmd("PING") != "PONG": raise Violation("net-busy", "the first server does not answer any more")
        if tcp and rnd.random() < .5:       # many tcp connections
            q = [Tcp((addr, port)) for _ in range(20)]
            for x in q: x.send("PING")
            for x in q:
                if x.recv() != "PONG": raise Violation("net-ping", "PING over tcp failed")
            for x in q: x.s.close()
        for c in a: c.s.close()
        s.stop("SIGTERM") if rnd.random() < .5 else s.kill()
        ctx.ev.hit("listeners"); ctx.distinct.add("net/%s/%s" % (combo, addr))

# ------------------------------------------------------------------ background
def find(D):
    o = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                if D.encode() in open("/proc/%s/cmdline" % p, "rb").read() and open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()[0] != "Z": o.append(int(p))
            except OSError: pass
    return o

def run_background(ctx):
    """the parent leaves with 0 once the store is served; the daemon lets go of the terminal, logs to its file and lives on"""
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    D, I = os.path.join(base, "data-bg"), os.path.join(base, "index-bg")
    n = 0
    for rd in range(3):
        log = os.path.join(base, "log%d" % rd) if rnd.random() < .7 else None
        stale = rnd.random() < .4
        args = ["--background"] + (["--logfile", log] if log else [])
        s = ctx.server("plain", base, data=D, index=I, args=args, quiet=False)
        e = s.environ()
        p = subprocess.Popen(s.cmdline(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=base)
        try:
            try: out, _ = p.communicate(timeout=30)
            except subprocess.TimeoutExpired: p.kill(); raise Violation("background-end", "with --background %s, the starting process keeps its output open or does not end" % ("and --logfile" if log else ""))
            if p.returncode: raise Violation("background-status", "--background ended with %d" % p.returncode)
            c = Client(s.sockpath, timeout=20)      # listening before the parent leaves
            if c.cmd("PING") != "PONG": raise Violation("background-serve", "the daemon does not answer")
            for k in range(n):
                if c.cmd("GET", "k%d" % k) != b"v%d" % k: raise Violation("content", "background: GET failed")
            for _ in range(5):
                if c.cmd("SET", "k%d" % n, "v%d" % n) != b"k%d" % n: raise Violation("set", "background: SET failed")
                n += 1
            ctx.ev.hit("evaluations"); ctx.ev.hit("daemons")
            pids = find(D)
            if len(pids) != 1: raise Violation("background-count", "%d processes serve after --background" % len(pids))
            for f in (0, 1, 2):
                l = os.readlink("/proc/%d/fd/%d" % (pids[0], f))
                want = "/dev/null" if f == 0 or not log else log
                if l != want: raise Violation("background-output", "descriptor %d of the daemon is %s, %s expected" % (f, l, want))
            os.kill(pids[0], signal.SIGTERM)
            end = time.monotonic() + 20
            while find(D):
                if time.monotonic() > end: raise Violation("background-term", "the daemon does not end on SIGTERM")
                time.sleep(.02)
            c.s.close()
            if log and not os.path.getsize(log): raise Violation("background-log", "the log file is empty")
            ctx.distinct.add("background/%s" % bool(log))
        finally:
            for q in find(D):
                try: os.kill(q, signal.SIGKILL)
                except OSError: pass

# ------------------------------------------------------------------ dump
def run_dump(ctx):
    """--dump names every live key with its length, changes nothing and leaves"""
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    D, I = os.path.join(base, "data"), os.path.join(base, "index")
    s = ctx.server("asan", base, data=D, index=I).start(); c = s.client()
    c.cmd("NSNEW", "x"); x = s.client(); x.cmd("SELECT", "x")
    model = {}
    for t in range(4):
        for q, ns in ((c, "default"), (x, "x")):
            for _ in range(40):
                k = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 3, 8, 100, 255]))) if rnd.random() < .5 else b"k%d" % rnd.randrange(20)
                if rnd.random() < .3 and (ns, k) in model:
                    q.cmd("DEL", k); del model[ns, k]
                else:
                    v = rnd.randbytes(rnd.randrange(0, 500))
                    if isinstance(q.cmd("SET", k, v), Err): raise Violation("set", "SET refused")
                    model[ns, k] = v
            if rnd.random() < .5: q.cmd("NSJUMP")
        s.stop(rnd.choice(["STOP", "SIGTERM"]))
        b = tree(D, I)
        d = ctx.server("asan", base, data=D, index=I, args=["--dump"], leaks=True, quiet=False)
        d.spawn()
        try: d.proc.wait(60)
        except subprocess.TimeoutExpired: d.kill(); raise Violation("dump-end", "--dump does not end")
        d.check_dead(expected=(0,))
        if tree(D, I) != b: raise Violation("dump-changed", "--dump changed the store")
        if os.path.exists(d.sockpath): raise Violation("dump-listen", "--dump listens")
        out = open(d.out, "rb").read().decode("latin-1")
        got = set((bytes.fromhex(m.group(1)), int(m.group(2))) for m in re.finditer(r"key \[0x([0-9a-f]*)\s+(?:\[[^\]]*\])?\s*\] offset \d+, length: (\d+)", out.replace("\n", " ")))
        want = set((k, len(v)) for (ns, k), v in model.items())
        if got != want: raise Violation("dump-keys", "--dump names %d keys, %d expected (first difference %s)" % (len(got), len(want), short(sorted(got ^ want)[:1])))
        ctx.ev.hit("evaluations", len(want)); ctx.ev.hit("dumps"); ctx.distinct.add("dump/%d" % (len(want) // 20))
        s = ctx.server("asan", base, data=D, index=I).start(); c = s.client(); x = s.client(); x.cmd("SELECT", "x")
        for (ns, k), v in model.items():
            if (c if ns == "default" else x).cmd("GET", k) != v: raise Violation("content", "after --dump, GET failed")
    s.stop()

def run_case(ctx):
    globals()["run_" + ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("runs", 20), ("files_filled", 20), ("rotations", 20), ("kept", 40), ("refused_starts", 30), ("listeners", 10), ("daemons", 4), ("dumps", 6)) if ev.get(k, 0) < n]
