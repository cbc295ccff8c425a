"""C04: a failing disk write is reported and does no collateral damage."""
import errno
from vz import crash, gen
from vz.model import Violation, short
from vz.resp import Closed, Err
from vz.server import StartError, Crash
from vz.work import World
from . import c03

PROP = "C04"
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with injected faults: the real server (ASan/UBSan) has every single write, file creation and flush of every command kind refused (ENOSPC, EIO) or cut short by an "
             "interceptor; a model oracle judges the reply, the running server, the restarted server, an independent parser its files")
NOTE = ("faults: one call refused or cut, several calls in a row, or every call until the end of the command; truncations, renames and removals always succeed; failing reads: error reply or right value, never a wrong one")
RULE = ("evaluations = injected faults executed and judged; distinct = (operation, index of the call, fault kind, outcome); a case enumerates all calls and fault kinds of one operation on one saved history, "
        "or runs a history with faults at random calls")
ASSUMPTIONS = ["a refused call leaves nothing behind, a cut write leaves a prefix", "bytes which already exist in the file are overwritten without needing space: only a single such write is cut or refused with ENOSPC, EIO hits any of them"]

OPS = [o for o in c03.OPS if o not in ("stop", "sigterm")]

def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 5
    for r in range(reps):
        for i, o in enumerate(OPS):
            extra = [["--sync"], [], ["--synctime", "1"]][(i + r) % 3]
            out.append({"kind": "enum", "op": o, "seed": seed * 1000 + r * 50 + i + 7, "i": i, "extra": extra})
    n = 20 if tier == "quick" else 140
    for i in range(n):
        out.append({"kind": "loop", "i": i, "seed": seed * 1000 + i, "rounds": 14 if tier == "quick" else 40, "prof": ["tiny", "small", "fill"][i % 3]})
    for i in range(6 if tier == "quick" else 40):
        out.append({"kind": "read", "i": i, "seed": seed * 1000 + i})
    out.sort(key=lambda s: s["kind"] == "loop")
    return out

FAULTS = [("enospc", errno.ENOSPC, 1), ("eio", errno.EIO, 1), ("short", 0, 1), ("eio2", errno.EIO, 2), ("full", errno.ENOSPC, 1 << 40), ("short-full", 0, 1 << 40), ("broken", errno.EIO, 1 << 40)]

def arm(ctl, at, f, cut):
    ctl.set(fail_at=ctl.get("writes") + at, fail_count=f[2], fail_errno=f[1], short_len=cut, fail_opens=1, fail_sync=1, failed=0)

def disarm(ctl): ctl.set(fail_at=0, fail_count=0)

def apply(w, op):
    """executes the operation under fault; returns (result, outcome)"""
    try: r = op.run(w)
    except Closed as e:
        w.s.check_dead(expected=())
        raise Violation("disk-closed", "the connection was closed during %s with a failing disk" % op.describe())
    disarm(w.s.ctl)
    failed = w.s.ctl.get("failed")
    if not failed:
        op.done(w, r)
        return "nofault"
    if isinstance(op, crash.NsDel) and op.ns not in w.cl: w.cl[op.ns] = []
    if isinstance(r, Err):
        # other namespaces first
        for n in w.ns:
            if n != op.ns: w.read_some(n) if hasattr(w, "read_some") else None
        if isinstance(op, crash.NsDel) and op.ns in w.ns and not w.cl[op.ns]: del w.cl[op.ns]
        return "error-" + (op.settle(w) or "n/a")
    # success was announced: it has to be true
    if isinstance(op, crash.NsDel): w.cl.pop(op.ns, None)
    op.done(w, r)
    return "success"

def after(w, op, deep=True, restart=True):
    w.verify_all(hist=deep)
    crash.more(w, 8)
    if isinstance(op, (crash.Set, crash.Del)) and op.key:      # the affected key is writable again
        m = w.ns[op.ns]
        if m.mode == "user" or op.key in m.live: w.d.set(w.c(op.ns), m, op.key, w.value(m.live.get(op.key)))
    w.verify_all(hist=deep)
    if not restart: return
    w.s.stop("STOP")
    crash.consistent(w)
    for m in w.ns.values(): m.cursors = []; m.locked = 0
    w.s.start(); w.attach()
    w.verify_all(hist=deep)

def enum(ctx):
    sp = ctx.spec; o = sp["op"]
    bw = World(ctx, sp["extra"], "asan", datasize=524289, prof="tiny", nkeys=7).start()
    sv = c03.base(ctx, bw, o)
    dry = sv.world(ctx, sp["extra"]); op = c03.make(dry, o)
    ctl = dry.s.ctl; ctl.set(fail_opens=1, fail_sync=1)
    first = 0
    if isinstance(op, crash.Start): dry.s.start()
    else:
        dry.s.start(); dry.attach(); first = ctl.get("writes")
        op.done(dry, op.run(dry))
    total = ctl.get("writes") - first
    crash.drop(dry)
    ctx.ev.hit("operations_enumerated"); ctx.ev.hit("fallible_calls", total)
    for n in range(1, total + 1):
        for f in FAULTS:
            for cut in ([1, 7] if f[1] == 0 else [0]):
                w = sv.world(ctx, sp["extra"]); op = c03.make(w, o); ctl = w.s.ctl
                try:
                    if isinstance(op, crash.Start):
                        arm(ctl, n, f, cut)
                        try: w.s.start(); res = "started"; disarm(ctl); w.attach()
                        except StartError as e:
                            # refusing to start is fine, as long as nothing is damaged
                            if e.code is None or e.code < 0: raise
                            disarm(ctl); res = "refused"
                            w.s.start(); w.attach()
                    else:
                        w.s.start(); w.attach()
                        arm(ctl, n, f, cut)
                        res = apply(w, op)
                    if res == "nofault": ctx.ev.hit("not_reached"); crash.drop(w); continue
                    after(w, op)
                    ctx.ev.hit("evaluations"); ctx.ev.hit("outcome_" + res); ctx.ev.hit("fault_" + f[0])
                    ctx.distinct.add("%s/%d/%s/%d/%s" % (o, n, f[0], cut, res))
                except (Violation, StartError) as e:
                    msg = getattr(e, "msg", str(e))
                    raise Violation("%s-%s" % (getattr(e, "key", "start-failed"), o), "%s at fallible call %d (cut %d) of %s: %s" % (f[0], n, cut, op.describe(), msg),
                                    point=[n, f[0], cut], **getattr(e, "detail", {}))
                crash.drop(w)
    if ctx.sample is None: ctx.sample = {"operation": o, "fallible_calls": total, "faults": [f[0] for f in FAULTS]}

def random_op(w, rnd, tmp):
    while True:
        x = rnd.random(); n = rnd.choice(list(w.ns)); m = w.ns[n]
        if x < .58 or len(m.live) < 3:
            if m.mode == "seq": k = b"" if rnd.random() < .5 or not m.live else w.key(m, True)
            else: k = w.key(m)
            v = w.value(m.live.get(k)) if rnd.random() < .9 else gen.payload(rnd, w.uniq, 300000)
            return crash.Set(n, k, v)
        if x < .75: return crash.Del(n, w.key(m, True))
        if x < .83: return crash.Jump(n)
        if x < .87: return crash.Reload(n)
        if x < .90: return crash.Flush("p")
        if x < .95: return crash.NsSet("p", *rnd.choice([("maxsize", "99999999"), ("password", "pw%d" % tmp), ("public", "0"), ("maxsize", "0")]))
        if x < .98: return crash.NsNew("n%d" % tmp)
        if len(w.ns) > 4: return crash.NsDel(rnd.choice([q for q in w.ns if q.startswith("n")]))

def loop(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, rnd.choice([[], ["--sync"], ["--synctime", "1"]]), "asan", datasize=524289, prof=sp["prof"], nkeys=9, shim=True).start()
    for n, m in (("u", "user"), ("s", "seq"), ("p", "user")): w.nsnew(n, m)
    w.nsset("p", "password", "secret"); w.nsset("p", "public", "0")
    for c in w.cl.pop("p"): c.close()
    w.join("p")
    tmp = 0
    for rd in range(sp["rounds"]):
        ctl = w.s.ctl
        for n, m in w.ns.items():
            while len(m.live) < 3:
                k = b"" if m.mode == "seq" else w.key(m)
                w.d.set(w.c(n), m, k, w.value(m.live.get(k)))
        for _ in range(rnd.randint(1, 25)):
            tmp += 1
            op = random_op(w, rnd, tmp)
            f = rnd.choice(FAULTS)
            armed = rnd.random() < .5
            if armed: arm(ctl, rnd.choice([1, 1, 1, 2, 2, 3, 4, 5, 8]), f, rnd.choice([0, 1, 5, 17, 18, 25, 33, 34, 36, 50, 4000]))
            w.d.note(op.describe() + (" with %s" % f[0] if armed else ""))
            try:
                if armed: res = apply(w, op)
                else:
                    op.done(w, op.run(w)); res = "nofault"
                disarm(ctl)
                ctx.ev.hit("operations")
                if res != "nofault":
                    ctx.ev.hit("evaluations"); ctx.ev.hit("outcome_" + res); ctx.ev.hit("random_faults")
                    ctx.distinct.add("loop/%s/%s/%s" % (op.kind, f[0], res))
                if isinstance(op, crash.NsSet) and op.prop == "password":
                    for c in w.cl.pop("p"): c.close()
                    w.join("p")
                for n in w.ns:
                    if n not in w.cl: w.join(n)
            except Violation as e:
                raise Violation(e.key + "-loop", "round %d, %s at %s: %s" % (rd, f[0] if armed else "no fault", op.describe(), e.msg), **e.detail)
        w.verify_all()
        if rnd.random() < .5:
            w.s.stop("STOP")
            crash.consistent(w)
            for m in w.ns.values(): m.cursors = []; m.locked = 0
            w.s.start(); w.attach()
            w.verify_all()
    w.s.stop("STOP")

def reads(ctx):
    """failing reads: an error, or the right answer; never a wrong one, nothing else affected"""
    rnd = ctx.rnd
    w = World(ctx, (), "asan", datasize=524289, prof="small", nkeys=10, shim=True).start()
    for n, m in (("u", "user"), ("s", "seq")): w.nsnew(n, m)
    for _ in range(60): w.step(rnd.choice(list(w.ns)), ops=dict(jump=3, set=40, new=20, delete=6))
    w.verify_all()
    ctl = w.s.ctl
    for i in range(120):
        n = rnd.choice(list(w.ns)); m = w.ns[n]
        if not m.live: continue
        k = w.key(m, True); c = w.c(n)
        cmd = rnd.choice(["GET", "GET", "CHECK", "HISTORY", "EXISTS", "MGET"])
        if rnd.random() < .3: ctl.set(ropen_fail_at=ctl.get("ropens") + rnd.choice([1, 1, 2]), ropen_fail_count=rnd.choice([1, 1, 2, 100]), read_errno=errno.EMFILE, failed=0)
        else: ctl.set(read_fail_at=ctl.get("reads") + rnd.choice([1, 1, 2, 3]), read_fail_count=rnd.choice([1, 1, 2, 100]), read_errno=errno.EIO, failed=0)
        r = c.cmd(cmd, k)
        bad = ctl.get("failed")
        ctl.set(read_fail_at=0, read_fail_count=0, ropen_fail_at=0, ropen_fail_count=0)
        if not bad: continue
        want = m.live[k][-1].value if k in m.live else None
        ctx.ev.hit("evaluations"); ctx.ev.hit("failed_reads"); ctx.distinct.add("read/%s/%s/%s" % (cmd, m.mode, type(r).__name__))
        if isinstance(r, Err): continue
        if cmd == "GET" and r is not None and r != want: w.d.bad("read-wrong", "GET with a failing read answered %s instead of %s" % (short(r), short(want)))
        if cmd == "MGET" and r != [want] and not (isinstance(r, list) and len(r) == 1 and (r[0] is None or isinstance(r[0], Err))): w.d.bad("read-wrong", "MGET with a failing read answered %s" % short(r))
        if cmd == "CHECK" and r == 1: w.d.bad("read-check", "CHECK of an unreadable payload answered %s" % short(r))
        w.read_all(n) if hasattr(w, "read_all") else None
    w.verify_all()
    crash.more(w, 10)
    w.s.stop("STOP")
    for m in w.ns.values(): m.cursors = []
    w.s.start(); w.attach(); w.verify_all()

def run_case(ctx):
    {"enum": enum, "loop": loop, "read": reads}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    out = []
    for k, n in (("evaluations", 400), ("random_faults", 60), ("failed_reads", 60), ("fault_enospc", 40), ("fault_eio", 40), ("fault_short", 60), ("fault_full", 40)):
        if ev.get(k, 0) < n: out.append("%s: only %d observed" % (k, ev.get(k, 0)))
    return out
