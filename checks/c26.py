"""C26: db-sync and db-replicate copy exactly, or say that they did not."""
import os, select, signal, socket, subprocess, threading, time
from vz import build
from vz.model import Violation, short
from vz.resp import Closed, Err, Timeout
from vz.server import sanitizer_report, Crash, ASAN, limits

PROP = "C26"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real utilities (ASan, UBSan) run between two real servers, with concurrent changes of the source, refusing or dying servers and read faults; "
             "oracle over the exit status and the content of both servers read through the protocol, against the history of every key")
NOTE = "success means: every key which did not change during the run has its value on the target, every other one a value it had; a copy which could not be complete ends with a failure"
RULE = "evaluations = keys of the target judged plus exit statuses judged; distinct = (utility, modes, situation, outcome)"

def cases(tier, seed):
    out = []
    n = 1 if tier == "quick" else 8
    for r in range(n):
        s = seed * 1000 + r * 60
        for i in range(6): out.append({"kind": "sync", "i": i, "seed": s + i, "rounds": 5})
        for i in range(9): out.append({"kind": "trouble", "i": i, "seed": s + 10 + i})
        for i in range(4): out.append({"kind": "concurrent", "i": i, "seed": s + 20 + i, "rounds": 4})
        for i in range(4): out.append({"kind": "replicate", "i": i, "seed": s + 30 + i, "rounds": 5})
    return out

def port():
    with socket.socket() as q: q.bind(("127.0.0.1", 0)); return q.getsockname()[1]

class Pair:
    def __init__(self, ctx, smode="user", tmode="user", sargs=(), targs=(), shim=False):
        self.ctx = ctx
        self.ps, self.pt = port(), port()
        self.s = ctx.server("asan", ctx.sub(), shim=shim, args=["--mode", smode, "--dualnet", "--listen", "127.0.0.1", "--port", str(self.ps)] + list(sargs)).start()
        while True:
            self.pt = port()
            if self.pt != self.ps: break
        self.t = ctx.server("asan", ctx.sub(), args=["--mode", tmode, "--dualnet", "--listen", "127.0.0.1", "--port", str(self.pt)] + list(targs)).start()
        self.sc, self.tc = self.s.client(), self.t.client()
        self.smode = smode
    def run(self, name, out=subprocess.PIPE, **kw):
        exe = build.utility(name)
        env = dict(os.environ, ASAN_OPTIONS=ASAN % 0, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
        return subprocess.Popen([exe, "--source-host", "127.0.0.1", "--source-port", str(self.ps), "--remote-host", "127.0.0.1", "--remote-port", str(self.pt)],
                                stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT, env=env, preexec_fn=limits, **kw)
    def end(self, p, what, timeout=60):
        try: out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate()
            raise Violation("no-end", "%s does not end (%s)" % (what, short(out[-200:])))
        return judge_exit(p, out)

def judge_exit(p, out):
    rep = sanitizer_report(out.decode("latin-1"))
    if rep: raise Crash(*rep)
    if p.returncode < 0: raise Crash("signal:%d" % -p.returncode, out.decode("latin-1")[-1500:])
    return p.returncode, out

def put(c, k, v):
    r = c.cmd("SET", k, v)
    if isinstance(r, Err): raise Violation("set", "SET answered %s" % r)
    return r

def fill(rnd, c, mode, n, model=None, over=True):
    model = {} if model is None else model
    for _ in range(n):
        v = rnd.choice([b"", rnd.randbytes(rnd.randrange(1, 200)), rnd.randbytes(rnd.randrange(1, 3000)), b"same", rnd.randbytes(rnd.choice([60000, 262144]))] if rnd.random() < .2 else [rnd.randbytes(rnd.randrange(0, 300)), b"%d" % rnd.randrange(9), b"a b\r\nc%d" % rnd.randrange(9), b"\0x%n%s"])
        if mode == "seq":
            k = rnd.choice(sorted(model)) if model and over and rnd.random() < .2 else b""
            r = put(c, k, v); model[r or k] = v
        else:
            if model and rnd.random() < .15:
                k = rnd.choice(sorted(model)); c.cmd("DEL", k); del model[k]; continue
            k = rnd.choice([b"k%d" % rnd.randrange(n * 2), rnd.randbytes(rnd.choice([1, 2, 7, 8, 40, 255])), b"%%b %d" % rnd.randrange(50), b" sp ace%d" % rnd.randrange(9)])
            if model.get(k) == v: continue
            put(c, k, v); model[k] = v
        if rnd.random() < .02: c.cmd("NSJUMP")
    return model

def compare(ctx, c, want, what, key="content", others=True):
    for k, v in want.items():
        r = c.cmd("GET", k)
        ctx.ev.hit("evaluations")
        if r != v: raise Violation(key, "%s: key %s is %s on the target, %s expected" % (what, short(k), short(r), short(v)))
    if others:
        f = dict(l.split(": ", 1) for l in c.cmd("NSINFO", "default").decode("latin-1").splitlines() if ": " in l)
        if int(f["entries"]) != len(want): raise Violation(key + "-count", "%s: %s keys on the target, %d expected" % (what, f["entries"], len(want)))

def run_sync(ctx):
    """whole copies, repeated, onto a target which has keys of its own"""
    sp, rnd = ctx.spec, ctx.rnd
    smode = ["user", "user", "seq"][sp["i"] % 3]
    p = Pair(ctx, smode)
    src, tgt = {}, {}
    for k in range(rnd.choice([0, 5, 30])):
        put(p.tc, "k%d" % k, "old%d" % k); tgt[b"k%d" % k] = b"old%d" % k
    for rd in range(sp["rounds"]):
        n = 0 if rd == 0 and sp["i"] < 2 else rnd.choice([1, 40, 129, 600, 1500])
        fill(rnd, p.sc, smode, n, src)
        if rnd.random() < .4: p.s.stop("SIGTERM"); p.s.start(); p.sc = p.s.client()
        rc, out = p.end(p.run("db-sync"), "db-sync")
        ctx.ev.hit("evaluations"); ctx.ev.hit("copies")
        if rc: raise Violation("sync-status", "db-sync of %d keys ends with %d (%s)" % (len(src), rc, short(out[-200:])))
        tgt.update(src)
        compare(ctx, p.tc, tgt, "after db-sync (%s source)" % smode)
        compare(ctx, p.sc, src, "the source after db-sync")
        ctx.distinct.add("sync/%s/%d/%d" % (smode, len(src).bit_length(), rd))
    ctx.sample = {"keys": len(src)}
    p.s.stop(); p.t.stop()

def run_trouble(ctx):
    """something refuses or dies: no success may be claimed"""
    sp, rnd = ctx.spec, ctx.rnd
    for rd in range(3):
        how = ["limit", "locked", "frozen-source", "seq-target", "target-dies", "source-dies", "read-fault", "protected", "big-only"][sp["i"]]
        kw = {}
        if how == "limit": kw["targs"] = ["--maxsize", str(rnd.choice([100, 1000, 2000]))]
        if how == "big-only": kw["targs"] = ["--maxsize", "300000"]
        if how == "seq-target": kw["tmode"] = "seq"
        if how == "protected": kw["targs"] = ["--admin", "pw", "--protect"]
        if how == "read-fault": kw["shim"] = True
        p = Pair(ctx, **kw)
        n = rnd.choice([200, 700])
        src = {}
        for i in range(n): put(p.sc, "k%d" % i, b"v%d" % i * rnd.randrange(1, 60)); src[b"k%d" % i] = None
        if how == "big-only": put(p.sc, "huge", b"x" * 400000)
        if how in ("target-dies", "source-dies"):
            for i in range(12): put(p.sc, "b%d" % i, rnd.randbytes(400000))
        src = {k: p.sc.cmd("GET", k) for k in src}
        if how == "locked": p.tc.cmd("NSSET", "default", rnd.choice(["lock", "freeze"]), "1")
        if how == "frozen-source": p.sc.cmd("NSSET", "default", "freeze", "1")
        base = p.s.ctl.get("reads") if how == "read-fault" else 0
        if how == "read-fault": p.s.ctl.set(read_fail_at=base + rnd.randrange(1, n), read_fail_count=1, read_errno=5)
        u = p.run("db-sync")
        if how in ("target-dies", "source-dies"):
            v = p.t if how[0] == "t" else p.s
            time.sleep(rnd.random() * .05)
            v.proc.kill(); v.proc.wait()
        rc, out = p.end(u, "db-sync when %s" % how)
        ctx.ev.hit("evaluations"); ctx.ev.hit("troubles")
        if how in ("target-dies", "source-dies"):
            # it may have been faster: everything is there then
            if rc == 0:
                if how == "target-dies": p.t.start(); p.tc = p.t.client()
                for k, v in src.items():
                    if p.tc.cmd("GET", k) != v: raise Violation("false-success", "db-sync ends with 0 though the %s died in the middle" % how.split("-")[0])
            else: ctx.ev.hit("refused")
        elif how == "read-fault":
            fired = p.s.ctl.get("failed") or p.s.ctl.get("reads") > base
            for k, v in src.items():
                r = p.tc.cmd("GET", k)
                if r not in (v, None): raise Violation("wrong-value", "db-sync under a read fault of the source wrote %s for a key whose value is %s" % (short(r), short(v)))
                if rc == 0 and r != v: raise Violation("false-success", "db-sync ends with 0 under a read fault of the source though key %s is missing" % short(k))
            ctx.ev.hit("refused" if rc else "unharmed")
        else:
            if rc == 0: raise Violation("false-success", "db-sync ends with 0 though the copy is impossible (%s)" % how)
            if not out.strip(): raise Violation("silent", "db-sync fails without a word")
            ctx.ev.hit("refused")
            if how in ("locked",): p.tc.cmd("NSSET", "default", "lock", "0")
            for k, v in list(src.items())[:100]:
                r = p.tc.cmd("GET", k)
                if isinstance(r, Err) and how in ("locked", "seq-target"): continue
                if r not in (None, v): raise Violation("wrong-value", "db-sync when %s wrote %s for a key whose value is %s" % (how, short(r), short(v)))
        ctx.distinct.add("trouble/%s/%d" % (how, rc))
        p.s.cleanup(); p.t.cleanup()

def run_concurrent(ctx):
    """the source changes during the copy"""
    sp, rnd = ctx.spec, ctx.rnd
    p = Pair(ctx)
    hist = {}
    def setk(c, k, v): put(c, k, v); hist.setdefault(k, []).append(v)
    for i in range(900): setk(p.sc, b"k%d" % i, b"v%d-" % i + rnd.randbytes(rnd.choice([5, 900, 4000])))
    for rd in range(sp["rounds"]):
        stable = {b"k%d" % i for i in range(900)}
        u = p.run("db-sync")
        c = p.s.client()
        gone = set()
        m = 0
        while u.poll() is None and m < 4000:
            i = rnd.randrange(900); k = b"k%d" % i
            if i % 3 == 0: m += 1; continue     # a third of the keys never changes
            x = rnd.random()
            if x < .5:
                r = c.cmd("DEL", k)
                if r == "OK": gone.add(k)
            else:
                gone.discard(k); v = b"n%d-%d-" % (rd, m) + rnd.randbytes(rnd.choice([5, 900])); setk(c, k, v)
            stable.discard(k); m += 1
        rc, out = p.end(u, "db-sync beside a writer")
        ctx.ev.hit("evaluations"); ctx.ev.hit("beside_writer", m)
        if rc: ctx.ev.hit("beside_writer_failed")
        for k, vs in hist.items():
            r = p.tc.cmd("GET", k)
            ctx.ev.hit("evaluations")
            if r is not None and r not in vs: raise Violation("wrong-value", "db-sync beside a writer wrote %s for key %s, a value the source never had" % (short(r), short(k)))
            if rc == 0 and k in stable and r != (vs[-1] if k not in gone else r): raise Violation("lost", "db-sync beside a writer did not copy key %s which did not change (%s)" % (short(k), short(r)))
        # everything exists again for the next round
        for i in range(900):
            k = b"k%d" % i
            if p.sc.cmd("GET", k) is None: setk(p.sc, k, b"again%d-%d" % (rd, i))
        ctx.distinct.add("concurrent/%d/%d" % (rc, min(m, 2000) // 100))
    p.s.stop(); p.t.stop()

class Reader(threading.Thread):
    """reads a terminal (the utilities do not flush their messages into a pipe)"""
    def __init__(self, fd):
        super().__init__(daemon=True); self.fd, self.out, self.seen = fd, b"", {}; self.start()
    def run(self):
        while True:
            try: b = os.read(self.fd, 65536)
            except OSError: b = b""
            if not b: return
            t = self.out[-60:]
            self.out = (self.out + b)[-400000:]
            for w in (b"waiting trigger on", b"trigger fired,"):
                self.seen[w] = self.seen.get(w, 0) + (t + b).count(w) - t.count(w)

def run_replicate(ctx):
    """initial copy, then every later SET arrives; starts on an empty source too; a refusing target ends it"""
    sp, rnd = ctx.spec, ctx.rnd
    smode = ["user", "user", "seq", "user"][sp["i"] % 4]
    p = Pair(ctx, smode)
    src = {}
    if sp["i"] % 2: fill(rnd, p.sc, smode, 300, src)
    dead = set()
    m, t = os.openpty()
    u = p.run("db-replicate", out=t)
    os.close(t)
    rd = Reader(m)
    def alive(what):
        if u.poll() is not None:
            rd.join(5); judge_exit(u, rd.out)
            raise Violation("replicate-end", "db-replicate ends with %s %s (%s)" % (u.returncode, what, short(rd.out[-200:])))
    try:
        end = time.monotonic() + 40
        while b"initial synchronization done" not in rd.out:
            alive("during the initial copy")
            if time.monotonic() > end: raise Timeout("initial copy")
            time.sleep(.02)
        compare(ctx, p.tc, src, "after the initial copy of db-replicate")
        ctx.ev.hit("initial_copies")
        for r in range(sp["rounds"]):
            # wait until it waits
            end = time.monotonic() + 30
            while rd.seen.get(b"waiting trigger on", 0) <= rd.seen.get(b"trigger fired,", 0):
                alive("when idle")
                if time.monotonic() > end: raise Timeout("never waits")
                time.sleep(.01)
            time.sleep(.15)
            if r == 1 and sp["i"] == 0: time.sleep(5.6); alive("after a WAIT which timed out")
            before = dict(src)
            fill(rnd, p.sc, smode, rnd.choice([1, 3, 40, 200]), src, over=False)     # (an id overwritten in sequential mode keeps its place in the listing)
            for k in before:
                if k not in src: dead.add(k)        # deletions are not replicated
            dead -= set(src)
            end = time.monotonic() + 25
            while True:
                alive("after changes of the source")
                bad = [k for k, v in src.items() if before.get(k) != v and p.tc.cmd("GET", k) != v]
                if not bad: break
                if time.monotonic() > end: raise Violation("replicate-lost", "a SET on the source does not arrive on the target (key %s)" % short(bad[0]))
                time.sleep(.05)
            compare(ctx, p.tc, src, "after changes", others=False)
            ctx.ev.hit("replicated_rounds"); ctx.distinct.add("replicate/%s/%d/%d" % (smode, sp["i"], r))
        # the target refuses: it has to say so
        p.tc.cmd("NSSET", "default", "lock", "1")
        end = time.monotonic() + 30
        while u.poll() is None:
            if smode == "user": put(p.sc, b"late%d" % rnd.getrandbits(60), b"x")
            else: put(p.sc, b"", b"x")
            if time.monotonic() > end: raise Violation("replicate-silent", "db-replicate goes on though the target refuses every SET")
            time.sleep(.2)
        rd.join(5); judge_exit(u, rd.out)
        if u.returncode == 0: raise Violation("false-success", "db-replicate ends with 0 when the target refuses")
        ctx.ev.hit("refused")
    finally:
        if u.poll() is None: u.kill(); u.wait()
        rd.join(5); os.close(m)
    p.s.stop(); p.t.stop()

def run_case(ctx):
    globals()["run_" + ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("copies", 20), ("troubles", 20), ("refused", 15), ("beside_writer", 100), ("initial_copies", 3), ("replicated_rounds", 12)) if ev.get(k, 0) < n]
