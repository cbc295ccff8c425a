"""C03: a crash at any instant loses or corrupts no acknowledged data."""
import os, signal, time
from vz import crash, gen
from vz.model import Violation, short
from vz.resp import Closed, Err
from vz.server import StartError
from vz.work import World

PROP = "C03"
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with injected kills: the real server (ASan/UBSan) is SIGKILLed by an interceptor before every single storage call of every command kind, "
             "and inside appends; a model oracle judges the restarted server, an independent parser its files")
NOTE = ("every storage call (write, create, truncate, rename, unlink, mkdir, rmdir) of one command is a crash point, appends are additionally torn after 1, half and all but one bytes; "
        "overwrites in place are taken as atomic; power loss (lost page cache) is C24's subject")
RULE = ("evaluations = crash points executed and judged; distinct = (operation, mode, index of the storage call, torn or not, whether the operation took effect); "
        "a case enumerates all crash points of one operation on one saved history, or runs a history with repeated random crashes on one directory")
ASSUMPTIONS = ["storage calls execute in program order and survive a process kill (kernel keeps running)"]

OPS = ["set-new", "set-over", "set-over-old", "set-jump", "set-empty-payload", "del", "del-old", "nsjump", "nsnew", "nsset-password", "nsset-password-clear", "nsset-maxsize", "nsset-public",
       "nsset-worm", "nsset-mode", "nsdel", "flush", "reload", "start", "stop", "sigterm",
       "seq-new", "seq-over", "seq-over-old", "seq-del", "seq-del-old", "seq-jump", "seq-nsjump", "seq-reload", "seq-flush", "seq-nsdel"]

def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    for r in range(reps):
        for i, o in enumerate(OPS):
            out.append({"kind": "enum", "op": o, "seed": seed * 1000 + r * 50 + i, "i": i, "extra": [] if r % 3 == 0 else [["--sync"], ["--synctime", "1"]][r % 2]})
    n = 24 if tier == "quick" else 160
    for i in range(n):
        out.append({"kind": "loop", "i": i, "seed": seed * 1000 + i, "rounds": 6 if tier == "quick" else 14, "prof": ["tiny", "tiny", "small", "fill"][i % 4]})
    out.sort(key=lambda s: s["kind"] == "loop")
    return out

def old_key(w, name):
    """a key whose entry lives in an older file: the least recently written"""
    m = w.ns[name]
    return min(m.live, key=lambda k: m.live[k][-1].pos)

def new_key(w, name):
    m = w.ns[name]
    k = b"new-key-%d" % w.uniq
    return k

def recent_key(w, name):
    m = w.ns[name]
    return max(m.live, key=lambda k: m.live[k][-1].pos)

def make(w, o):
    """the operation under test on the (stopped or running) world"""
    w.uniq += 1
    fresh = b"crash-value-%d" % w.uniq
    ns = "s" if o.startswith("seq-") else "u"
    b = o[4:] if o.startswith("seq-") else o
    if b == "new": return crash.Set(ns, b"", fresh)
    if b == "set-new": return crash.Set(ns, new_key(w, ns), fresh)
    if b == "set-empty-payload": return crash.Set(ns, new_key(w, ns), b"")
    if b in ("set-over", "over"): return crash.Set(ns, recent_key(w, ns), fresh)
    if b in ("set-over-old", "over-old"): return crash.Set(ns, old_key(w, ns), fresh)
    if b in ("set-jump", "jump"):
        return crash.Set(ns, b"" if ns == "s" else (old_key(w, ns) if w.uniq % 2 else new_key(w, ns)), gen.payload(w.rnd, w.uniq, 400000))
    if b == "del": return crash.Del(ns, recent_key(w, ns))
    if b == "del-old": return crash.Del(ns, old_key(w, ns))
    if b == "nsjump": return crash.Jump(ns)
    if b == "nsnew": return crash.NsNew("brand-new")
    if b == "nsset-password": return crash.NsSet(ns, "password", "x" * 50)
    if b == "nsset-password-clear": return crash.NsSet("p", "password", "*")
    if b == "nsset-maxsize": return crash.NsSet("p", "maxsize", "123456789")
    if b == "nsset-public": return crash.NsSet("p", "public", "1")
    if b == "nsset-worm": return crash.NsSet("p", "worm", "1")
    if b == "nsset-mode": return crash.NsSet("fresh", "mode", "seq")
    if b == "nsdel": return crash.NsDel("p" if ns == "u" else "s")
    if b == "flush": return crash.Flush("p" if ns == "u" else "q")
    if b == "reload": return crash.Reload(ns)
    if b == "start": return crash.Start("default")
    if b in ("stop", "sigterm"): return crash.Stop("STOP" if b == "stop" else "SIGTERM")
    raise KeyError(o)

def prepare(w, o):
    """before saving the history: what the operation needs"""
    if o == "nsset-mode": w.nsnew("fresh")
    if o == "seq-flush":
        w.nsnew("q", "seq")
        w.nsset("q", "password", "zz"); w.nsset("q", "public", "0")
        for c in w.cl.pop("q"): c.close()
        w.join("q")
        for j in range(3):
            for i in range(4): w.d.set(w.c("q"), w.ns["q"], b"", b"q%d-%d" % (j, i))
            w.d.set(w.c("q"), w.ns["q"], old_key(w, "q"), b"q%d-up" % j)
            if j < 2: w.jump("q")
    if o in ("set-jump", "seq-jump"):
        n = "s" if o == "seq-jump" else "u"
        w.d.set(w.c(n), w.ns[n], b"" if n == "s" else b"filler", gen.payload(w.rnd, 99, 200000))

def dead(s, wait=20):
    try: s.proc.wait(wait)
    except Exception: raise Violation("harness", "the server did not die at the kill point")
    if s.proc.returncode != -9: s.check_dead(expected=())

def execute(w, op, n, torn):
    """runs op with a kill at its n-th storage call; returns 'done' when it ended before"""
    s, ctl = w.s, w.s.ctl
    if isinstance(op, crash.Start):
        ctl.set(kill_at=n, torn_len=torn)
        try: s.start()
        except StartError:
            if s.proc.returncode != -9: raise
            return "killed"
        return "done"
    s.start(); w.attach()
    ctl.set(kill_at=ctl.get("events") + n, torn_len=torn)
    try:
        r = op.run(w)
    except Closed:
        if s.proc.poll() is None: time.sleep(.05)
        dead(s)
        return "killed"
    except Exception:
        if s.proc is not None and s.proc.poll() == -9: return "killed"
        raise
    if r == "stopped": return "killed" if ctl.get("killed") else "done"
    op.done(w, r)
    return "done"

def judge(w, op, settle=True, again=True, deep=True):
    """restart after the crash and compare everything with the model"""
    for m in w.ns.values(): m.locked = 0; m.cursors = []
    pend = getattr(op, "ns", None) if settle else None
    gone = isinstance(op, (crash.NsDel, crash.NsNew))
    w.cl = {}
    w.adm = w.conn()
    for n in w.ns:
        if settle and n == pend and (gone or (isinstance(op, crash.NsSet) and op.prop == "password")): continue
        w.join(n)
    res = "absent"
    if settle:
        # the other namespaces first: nothing depends on the outcome of the operation
        res = op.settle(w) or "n/a"
        for n in w.ns: w.join(n)
    w.verify_all(hist=deep)
    crash.consistent(w)
    if again:
        crash.more(w, 10)
        w.s.stop("STOP")
        for m in w.ns.values(): m.cursors = []
        w.s.start(); w.attach()
        w.verify_all()
        crash.consistent(w)
    return res

def enum(ctx):
    sp = ctx.spec; o = sp["op"]
    # the saved history
    bw = World(ctx, sp["extra"], "asan", datasize=524289, prof="tiny", nkeys=7).start()
    sv = base(ctx, bw, o)
    # how many storage calls, and their lengths
    dry = sv.world(ctx, sp["extra"]); op = make(dry, o)
    dry.s.ctl.set(log_on=1)
    first = 0
    if isinstance(op, crash.Start): dry.s.start()
    else:
        dry.s.start(); dry.attach()
        first = dry.s.ctl.get("events")
        r = op.run(dry)
        if r != "stopped": op.done(dry, r)
    total = dry.s.ctl.get("events") - first
    lines = [l.rstrip("\n").split("\t") for l in open(dry.s.log)]
    crash.drop(dry)
    kinds = {}
    for l in lines:
        if l[1] in ("write", "ftruncate", "create", "trunc", "unlink", "rename", "mkdir", "rmdir", "fallocate") and int(l[0]) > first:
            kinds[int(l[0]) - first] = (l[1], int(l[4]))
    ctx.ev.hit("operations_enumerated"); ctx.ev.hit("storage_calls", total)
    points = []
    for n in range(1, total + 1):
        k, ln = kinds.get(n, ("?", 0))
        points.append((n, -1, k))
        if k == "write" and ln > 1:
            points += [(n, t, k) for t in sorted({1, ln // 2, ln - 1})]
    if len(points) > 160: points = sorted(ctx.rnd.sample(points, 160))
    ctx.ev.hit("crash_points_planned", len(points))
    for n, torn, k in points:
        w = sv.world(ctx, sp["extra"]); op = make(w, o)
        try:
            r = execute(w, op, n, torn)
            if r == "done":
                ctx.ev.hit("not_reached")
            else:
                w.s.ctl.set(kill_at=0)
                w.s.start()
                # sometimes the recovery is interrupted too
                res = judge(w, op, again=(n + torn) % 3 == 0 or torn > 0, deep=True)
                ctx.ev.hit("evaluations"); ctx.ev.hit("outcome_" + res); ctx.ev.hit("torn" if torn >= 0 else "killed_before_call")
                ctx.distinct.add("%s/%d/%s/%s/%s" % (o, n, k, "torn%d" % torn if torn >= 0 else "before", res))
        except (Violation, StartError) as e:
            msg = getattr(e, "msg", str(e))
            raise Violation("%s-%s" % (getattr(e, "key", "start-failed"), o), "kill at storage call %d (%s%s) of %s: %s" % (n, k, ", torn after %d bytes" % torn if torn >= 0 else "", op.describe(), msg),
                            point=[n, torn, k], **getattr(e, "detail", {}))
        crash.drop(w)
    if ctx.sample is None: ctx.sample = {"operation": o, "storage_calls": [list(kinds.get(i, ("?", 0))) for i in range(1, total + 1)], "points": len(points)}

def base(ctx, w, o):
    rnd = ctx.rnd
    for n, m in (("u", "user"), ("s", "seq"), ("p", "user")): w.nsnew(n, m)
    w.nsset("p", "password", "secret"); w.nsset("p", "public", "0")
    for c in w.cl.pop("p"): c.close()
    w.join("p")
    names = list(w.ns)
    for j in range(3):
        for _ in range(22):
            w.step(rnd.choice(names), ops=dict(jump=0, scan=0, rscan=0, keycur=0, cursor=0, history=0, nsinfo=0, read=0, mget=0, badid=0, set=40, new=20, delete=9))
        for n in names:
            m = w.ns[n]
            while len(m.live) < 3:
                k = b"" if m.mode == "seq" else w.key(m)
                w.d.set(w.c(n), m, k, w.value(m.live.get(k)))
            if j < 2 and rnd.random() < .85: w.jump(n)
    prepare(w, o)
    w.verify_all()
    w.s.stop("STOP")
    sv = crash.Saved(w, ctx.sub("saved"))
    w.s.cleanup()
    return sv

def loop(ctx):
    """random histories on one directory, with a crash every few operations"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, rnd.choice([[], [], ["--sync"], ["--synctime", "1"], ["--secure"]]), "asan", datasize=524289, prof=sp["prof"], nkeys=9, shim=True).start()
    for n, m in (("u", "user"), ("s", "seq"), ("p", "user")): w.nsnew(n, m)
    w.nsset("p", "password", "secret"); w.nsset("p", "public", "0")
    for c in w.cl.pop("p"): c.close()
    w.join("p")
    tmp = 0
    for rd in range(sp["rounds"]):
        ctl = w.s.ctl
        for n, m in w.ns.items():
            while len(m.live) < 3:
                k = b"" if m.mode == "seq" else w.key(m)
                w.d.set(w.c(n), m, k, w.value(m.live.get(k)))
        ctl.set(kill_at=ctl.get("events") + rnd.randint(1, rnd.choice([4, 12, 60])), torn_len=rnd.choice([-1, -1, 1, 5, 17, 18, 20, 33, 34, 40, 10**6]))
        op = None
        try:
            for _ in range(4000):
                tmp += 1
                x = rnd.random(); n = rnd.choice(list(w.ns)); m = w.ns[n]
                if x < .55 or len(m.live) < 3:
                    if m.mode == "seq": k = b"" if rnd.random() < .5 or not m.live else w.key(m, True)
                    else: k = w.key(m)
                    v = w.value(m.live.get(k)) if rnd.random() < .93 else gen.payload(rnd, w.uniq, 300000)
                    op = crash.Set(n, k, v)
                elif x < .78: op = crash.Del(n, w.key(m, True))
                elif x < .86: op = crash.Jump(n)
                elif x < .90: op = crash.Reload(n)
                elif x < .93: op = crash.Flush("p")
                elif x < .96: op = crash.NsSet("p", *rnd.choice([("maxsize", "99999999"), ("password", "pw%d" % tmp), ("public", "0"), ("maxsize", "0")]))
                elif x < .98: op = crash.NsNew("n%d" % tmp)
                elif len(w.ns) > 4: op = crash.NsDel(rnd.choice([q for q in w.ns if q.startswith("n")]))
                else: continue
                if isinstance(op, crash.Flush) and (w.ns["p"].public or not w.ns["p"].password): continue
                w.d.note(op.describe())
                r = op.run(w)
                op.done(w, r)
                if isinstance(op, crash.NsSet) and op.prop == "password":
                    for c in w.cl.pop("p"): c.close()
                    w.join("p")
                ctx.ev.hit("operations")
        except Closed:
            dead(w.s)
        else: raise Violation("harness", "kill point never reached")
        w.s.close_clients()
        # the recovery itself may be interrupted, repeatedly
        rec = 0
        while True:
            again = rnd.random() < .45 and rec < 4
            ctl.set(kill_at=ctl.get("events") + rnd.randint(1, 14) if again else 0, torn_len=rnd.choice([-1, 1, 10]))
            try:
                w.s.start()
                if not again: break
                w.s.kill()
            except StartError:
                if not again or w.s.proc.returncode != -9: raise
                ctx.ev.hit("recovery_interrupted")
            rec += 1
        ctl.set(kill_at=0)
        try: res = judge(w, op, again=rnd.random() < .4)
        except Violation as e:
            raise Violation(e.key + "-loop", "round %d, crash during %s: %s" % (rd, op.describe(), e.msg), **e.detail)
        ctx.ev.hit("evaluations"); ctx.ev.hit("outcome_" + res); ctx.ev.hit("random_crashes")
        ctx.distinct.add("loop/%s/%s/%s/%d" % (op.kind, w.ns[op.ns].mode if op.ns in w.ns else "-", res, min(rec, 2)))
    w.s.stop("STOP")

def run_case(ctx):
    if ctx.spec["kind"] == "enum": enum(ctx)
    else: loop(ctx)

def finish(ev, tier):
    out = []
    for k, n in (("evaluations", 400), ("torn", 80), ("killed_before_call", 150), ("outcome_applied", 40), ("outcome_absent", 60), ("random_crashes", 60), ("recovery_interrupted", 10)):
        if ev.get(k, 0) < n: out.append("%s: only %d observed" % (k, ev.get(k, 0)))
    return out
