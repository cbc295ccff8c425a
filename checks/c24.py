"""C24: with --sync nothing is acknowledged before it is on stable storage; --synctime bounds the delay."""
import os, re, shutil
from checks import c03
from vz import crash, gen
from vz.model import Violation, short, now0, now1
from vz.resp import Err, enc
from vz.server import StartError
from vz.work import World

PROP = "C24"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the ordered trace of write, fsync and send calls of the real server is checked online by a trace automaton, and every "
             "prefix of the trace is a power cut: the files cut back to their last flushed content are served again and judged by the model")
NOTE = ("per reply: no byte written for that command may be unflushed; per cut: all acknowledged writes are served, the one in flight is old or new; "
        "the device is a model: a file keeps what its last fsync covered, directory operations are durable at once")
RULE = ("evaluations = replies judged by the trace automaton plus power cuts restarted and judged; distinct = (operation, mode, file role sequence of its writes and flushes) and "
        "(cut: operation, position in its trace, outcome)")
ASSUMPTIONS = ["fsync makes all previous writes of that file durable; creation, removal and renaming of files are durable when the call returns"]

def cases(tier, seed):
    out = []
    n = 10 if tier == "quick" else 60
    for i in range(n):
        out.append({"kind": "cut", "i": i, "seed": seed * 1000 + i, "ops": 60 if tier == "quick" else 150, "cuts": 60 if tier == "quick" else 250, "variant": ["asan", "asan", "plain"][i % 3],
                    "extra": [["--sync"], ["--sync", "--secure"], ["--sync", "--synctime", "1000"]][i % 3]})
    for i in range(8 if tier == "quick" else 60):
        out.append({"kind": "order", "i": i, "seed": seed * 1000 + 100 + i, "ops": 900 if tier == "quick" else 3000, "mode": [None, "user", "seq"][i % 3], "variant": ["asan", "release"][i % 2],
                    "extra": [["--sync"], ["--sync", "--secure"], ["--synctime", "1000", "--sync"]][i % 3]})
    for i in range(8 if tier == "quick" else 60):
        out.append({"kind": "time", "i": i, "seed": seed * 1000 + 300 + i, "ops": 700 if tier == "quick" else 3000, "T": [1, 2, 5, 60][i % 4]})
    for i in range(6 if tier == "quick" else 40):
        out.append({"kind": "fault", "i": i, "seed": seed * 1000 + 500 + i, "ops": 150 if tier == "quick" else 600, "extra": [["--sync"], ["--synctime", "1"]][i % 2]})
    return out

FILE = re.compile(r"/(data|index)/([^/]+)/([di])(\d+)$")

class Trace:
    """follows the log of the interceptor; keeps for every file what is written and what is flushed"""
    def __init__(self, w, contents=False):
        self.w, self.f, self.buf = w, None, b""
        self.pend = {}      # path -> [(off, data or length, time, tag)]
        self.seq = 0
        self.now = 0
        self.cmd = None     # tag of the command in progress
        self.shape = []
        self.contents = contents
        self.sends = self.writes = self.syncs = 0
        self.touched = {}   # files written since the last clear: path -> time
        if contents:
            self.flushed = {}
            for r in (w.s.data, w.s.index):
                for d, _, fs in os.walk(r):
                    for x in fs:
                        p = os.path.join(d, x)
                        if not os.path.islink(p): self.flushed[os.path.realpath(p)] = bytearray(open(p, "rb").read())
    def lines(self):
        if self.f is None:
            if not os.path.exists(self.w.s.log): return
            self.f = open(self.w.s.log, "rb")
        self.buf += self.f.read()
        while True:
            i = self.buf.find(b"\n")
            if i < 0: return
            l, self.buf = self.buf[:i], self.buf[i + 1:]
            yield l.decode().split("\t")
    def apply(self, path, off, data):
        b = self.flushed.setdefault(path, bytearray())
        if data is None: del b[off:]; b.extend(b"\0" * (off - len(b))); return
        if len(b) < off: b.extend(b"\0" * (off - len(b)))
        b[off:off + len(data)] = data
    def event(self, l):
        """one log line; returns 'send' for a reply"""
        op, path = l[1], l[2]
        off, ln, ret = int(l[3]), int(l[4]), int(l[5])
        if len(l) > 6: self.now = int(l[6])
        if op == "send": self.sends += 1; return "send"
        m = FILE.search(path)
        if not m:
            # neither a data nor an index file: taken as durable at once
            if self.contents and op == "write" and ret > 0: self.apply(path, off, bytes.fromhex(l[7]))
            if self.contents and op in ("create", "trunc"): self.flushed[path] = bytearray()
            if self.contents and op == "rename": raise AssertionError("rename in a cut trace")
            return None
        role = m.group(3)
        if op in ("write", "wshort", "torn"):
            if ret <= 0: return None
            d = bytes.fromhex(l[7]) if self.contents else ret
            self.pend.setdefault(path, []).append((off, d, self.now, self.cmd)); self.writes += 1
            self.touched[path] = self.now
            self.shape.append(role + "w")
        elif op == "ftruncate":
            self.pend.setdefault(path, []).append((off, None, self.now, self.cmd)); self.shape.append(role + "t"); self.touched[path] = self.now
        elif op == "fsync":
            if ret == 0:
                for off, d, _, _ in self.pend.pop(path, []):
                    if self.contents: self.apply(path, off, d)
                self.syncs += 1
            self.shape.append(role + "s")
        elif op == "syncall":
            for p in list(self.pend):
                for off, d, _, _ in self.pend.pop(p):
                    if self.contents: self.apply(p, off, d)
        elif op in ("create", "trunc"):
            self.pend.pop(path, None)
            if self.contents: self.flushed[path] = bytearray()
            self.shape.append(role + "c")
        elif op == "unlink":
            self.pend.pop(path, None)
            if self.contents: self.flushed.pop(path, None)
        elif op in ("open", "fallocate", "wfail"): pass
        else: raise AssertionError("trace: unexpected %s" % op)
        return None
    def late(self):
        """writes of the command in progress which are not flushed"""
        return {os.path.relpath(p, os.path.dirname(os.path.dirname(os.path.dirname(p)))): len(x) for p, l in self.pend.items() for x in [[e for e in l if e[3] == self.cmd and self.cmd is not None]] if x}

def command(ctx, w, tr, what, judged, run):
    """runs one command (or one pipelined batch) and judges its trace"""
    for l in tr.lines(): tr.event(l)
    tr.cmd = (tr.cmd or 0) + 1; tr.shape = []; tr.touched = {}
    res = run()
    sends = 0
    for l in tr.lines():
        if tr.event(l) == "send":
            sends += 1
            if judged:
                bad = tr.late()
                if bad: raise Violation("unflushed-" + what.split()[0], "the reply to %s was sent before its writes were flushed: %s; trace %s" % (what, bad, " ".join(tr.shape)), trace=tr.shape)
                ctx.ev.hit("replies_judged")
    if not sends: raise AssertionError("no send observed for %s" % what)
    ctx.ev.hit("evaluations")
    return res

OPS = ["new", "new", "over", "over", "old", "old", "del", "delold", "jump", "big", "new", "same", "empty"]

def one(w, rnd):
    """a random write command"""
    n = rnd.choice(list(w.ns)); m = w.ns[n]
    while True:
        k = rnd.choice(OPS)
        if k in ("over", "old", "del", "delold", "same") and len(m.live) < 3: k = "new"
        w.uniq += 1
        v = gen.payload(rnd, w.uniq, rnd.choice([1, 10, 40, 300, 5000]))
        if k == "new": return k, crash.Set(n, b"" if m.mode == "seq" else b"key-%d" % w.uniq, v)
        if k == "over": return k, crash.Set(n, c03.recent_key(w, n), v)
        if k == "old": return k, crash.Set(n, c03.old_key(w, n), v)
        if k == "same":
            key = w.key(m, True); return k, crash.Set(n, key, m.live[key][-1].value)
        if k == "empty": return k, crash.Set(n, b"" if m.mode == "seq" else w.key(m), b"")
        if k == "del": return k, crash.Del(n, c03.recent_key(w, n))
        if k == "delold": return k, crash.Del(n, c03.old_key(w, n))
        if k == "jump": return k, crash.Jump(n)
        if k == "big": return k, crash.Set(n, b"" if m.mode == "seq" else b"big-key", gen.payload(rnd, w.uniq, rnd.choice([100000, 300000])))

def run_order(ctx):
    """the trace automaton over long histories, with pipelined batches and reads in between"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, sp["extra"], sp["variant"], datasize=524289, mode=sp["mode"], prof="tiny", nkeys=12, shim=True)
    w.start()
    for n, m in (("u", "user"), ("s", "seq")):
        if sp["mode"] in (None, m): w.nsnew(n, m)
    w.s.ctl.set(log_on=2)
    tr = Trace(w)
    for i in range(sp["ops"]):
        x = rnd.random()
        if x < .80:
            k, op = one(w, rnd)
            r = command(ctx, w, tr, "%s %s" % (op.kind, k), True, lambda: op.run(w)); op.done(w, r)
            ctx.distinct.add("%s/%s/%s/%s" % (k, w.ns[op.ns].mode, sp["extra"][-1], "".join(tr.shape)[:40]))
        elif x < .92:
            batch(ctx, w, tr, rnd)
        elif x < .985:
            n = rnd.choice(list(w.ns)); m = w.ns[n]
            if m.live: command(ctx, w, tr, "read", True, lambda: w.d.read(w.c(n), m, w.key(m, True)))
        elif x < .993:
            for l in tr.lines(): tr.event(l)
            tr.cmd = None; w.reload(rnd.choice(list(w.ns)))
        elif sp["variant"] != "release":
            for l in tr.lines(): tr.event(l)
            tr.cmd = None; w.restart()
    w.verify_all(hist=False)
    ctx.ev.hit("traced_writes", tr.writes); ctx.ev.hit("traced_flushes", tr.syncs); ctx.ev.hit("traced_replies", tr.sends)
    ctx.sample = {"writes": tr.writes, "flushes": tr.syncs, "replies": tr.sends}
    w.s.stop("SIGTERM")

def batch(ctx, w, tr, rnd):
    """several clients of one namespace at once"""
    n = rnd.choice(list(w.ns)); m = w.ns[n]
    # in user mode a single connection: the order of the writes has to be known for the scans
    cl = w.cl[n] if m.mode == "seq" else [rnd.choice(w.cl[n])]
    plan = []
    for c in cl:
        vs = []
        for _ in range(rnd.randint(1, 8)):
            w.uniq += 1; vs.append((b"" if m.mode == "seq" else b"batch-%d" % w.uniq, gen.payload(rnd, w.uniq, rnd.choice([0, 5, 40, 4000]))))
        plan.append(vs)
    def go():
        t0 = now0()
        for c, vs in zip(cl, plan): c.raw(b"".join(enc("SET", k, v) for k, v in vs))
        got = [(k, v, c.recv()) for c, vs in zip(cl, plan) for k, v in vs]
        return t0, got
    t0, got = command(ctx, w, tr, "SET batch", True, go)
    t1 = now1()
    if m.mode == "seq": got.sort(key=lambda g: int.from_bytes(g[2], "little") if isinstance(g[2], bytes) else 0)
    for k, v, r in got: w.d.set_reply(m, k, v, r, t0, t1)
    ctx.ev.hit("batches")
    return got

def run_cut(ctx):
    """every prefix of the trace of a history is a power cut"""
    sp, rnd = ctx.spec, ctx.rnd
    bw = World(ctx, sp["extra"], "asan", datasize=524289, prof="tiny", nkeys=7).start()
    sv = c03.base(ctx, bw, "none")
    w = sv.world(ctx, sp["extra"], sp["variant"])
    w.s.ctl.set(log_on=3)
    tr = Trace(w, contents=True)
    w.s.start(); w.attach()
    lines, ops = [], []          # ops: (kind, op, first line, reply)
    def pump(): lines.extend(tr_lines(tr))
    pump()
    ops.append(("start", None, 0, None))
    for i in range(sp["ops"]):
        if rnd.random() < .04:
            pump(); ops.append(("restart", None, len(lines), None))
            w.restart(); pump(); continue
        k, op = one(w, rnd)
        if k == "big" and rnd.random() < .6: continue
        pump()
        at = len(lines)
        r = op.run(w); op.done(w, r)
        op.t1 = now1()
        pump()
        ops.append((k, op, at, r))
    w.verify_all(hist=False)
    w.s.stop("STOP"); pump()
    roots = (w.s.data, w.s.index)
    # the replay of the trace has to be exact before it is used as an oracle
    full = Trace(w, contents=True); full.flushed = {p: bytearray(b) for p, b in tr.flushed.items()}
    for l in lines: full.event(l)
    for p in list(full.pend):
        for off, d, _, _ in full.pend.pop(p): full.apply(p, off, d)
    for p, b in full.flushed.items():
        if FILE.search(p) and open(p, "rb").read() != bytes(b): raise AssertionError("the trace does not reproduce %s" % p)
    # candidate cuts: after each line
    cand = []
    for oi, (k, op, at, r) in enumerate(ops):
        end = ops[oi + 1][2] if oi + 1 < len(ops) else len(lines)
        for j in range(at, end):
            if lines[j][1] in ("open",): continue
            cand.append((j + 1, oi))
    ctx.ev.hit("trace_events", len(lines)); ctx.ev.hit("cut_candidates", len(cand))
    if len(cand) > sp["cuts"]:
        # the most different ones first: one of every (operation, position)
        rnd.shuffle(cand); seen, first, rest = set(), [], []
        for c in cand:
            key = (ops[c[1]][0], ops[c[1]][1] and sv.ns[ops[c[1]][1].ns].mode, c[0] - ops[c[1]][2])
            (rest if key in seen else first).append(c); seen.add(key)
        cand = sorted((first + rest)[:sp["cuts"]])
    # replay
    model = {n: crash.clone(m) for n, m in sv.ns.items()}
    dr = sv.world(ctx); dr.ns = model       # a driver for the model only: never started
    pos = 0; done = -1
    tr.cmd = 0
    for cut, oi in cand:
        while done < oi - 1:
            done += 1
            k, op, at, r = ops[done]
            if op is not None: apply(dr, op, r)
        for l in lines[pos:cut]: tr.event(l)
        pos = cut
        k, op, at, r = ops[oi]
        acked = any(l[1] == "send" for l in lines[at:cut]) and op is not None
        base = ctx.sub()
        for p, b in tr.flushed.items():
            q = os.path.join(base, os.path.relpath(p, os.path.realpath(w.s.base)))
            os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "wb").write(b)
        for root in roots:      # directories without a flushed file
            for d, ds, _ in os.walk(root):
                os.makedirs(os.path.join(base, os.path.relpath(d, w.s.base)), exist_ok=True)
        v = World(ctx, sp["extra"], sp["variant"], base=base, shim=True, **sv.kw)
        v.ns = {n: crash.clone(m) for n, m in model.items()}
        v.pools, v.uniq = sv.pools, 10 ** 6
        lost = {os.path.basename(p): len(x) for p, x in tr.pend.items()}
        try:
            try: v.s.start()
            except StartError as e: raise Violation("power-cut-start", "the server does not start: %s" % str(e)[-300:])
            if acked: apply(v, op, r)
            res = c03.judge(v, op if op is not None and not acked else None, settle=op is not None and not acked, again=cut % 5 == 0)
        except Violation as e:
            raise Violation("power-cut-" + e.key, "power cut after event %d of %s (%s; files with unflushed writes: %s): %s" % (cut - at, op.describe() if op else k, "acknowledged" if acked else "in flight", lost, e.msg),
                            cut=[cut, oi], trace=[l[:6] for l in lines[at:cut]][-40:], **e.detail)
        ctx.ev.hit("evaluations"); ctx.ev.hit("power_cuts"); ctx.ev.hit("cut_" + ("acked" if acked else str(res)))
        if lost: ctx.ev.hit("cuts_losing_unflushed_writes")
        ctx.distinct.add("cut/%s/%s/%d/%s" % (k, op and sv.ns[op.ns].mode, cut - at, "acked" if acked else res))
        crash.drop(v)
    ctx.sample = {"ops": len(ops), "events": len(lines), "cuts": len(cand)}

def tr_lines(tr): return list(tr.lines())

def apply(w, op, r):
    """the model effect of an acknowledged operation"""
    if isinstance(op, crash.Set): w.d.set_reply(w.ns[op.ns], op.key, op.val, r, op.t0, op.t1)
    elif isinstance(op, crash.Del): w.d.del_reply(w.ns[op.ns], op.key, r)

def run_time(ctx):
    """--synctime: the clock of the server is driven, the age of unflushed writes is bounded"""
    sp, rnd = ctx.spec, ctx.rnd
    T = sp["T"]
    w = World(ctx, ["--synctime", str(T)] + rnd.choice([[], ["--secure"]]), "asan", datasize=524289, prof="tiny", nkeys=10, shim=True)
    w.start()
    for n, m in (("u", "user"), ("s", "seq")): w.nsnew(n, m)
    ctl = w.s.ctl; ctl.set(log_on=2)
    tr = Trace(w); off = 0; worst = 0; lazy = 0
    for i in range(sp["ops"]):
        off += rnd.choice([0, 0, 0, 0, 1, 1, max(1, T - 1), T, T + 1, 3 * T]) if rnd.random() < .5 else 0
        ctl.set(time_off=off)
        k, op = one(w, rnd)
        if k == "big" and rnd.random() < .5: continue
        r = command(ctx, w, tr, "%s %s" % (op.kind, k), False, lambda: op.run(w)); op.done(w, r)
        top = {}
        for p in list(tr.touched) + list(tr.pend):
            f = FILE.search(p); g = (f.group(1), f.group(2)); top[g] = max(top.get(g, 0), int(f.group(4)))
        for p, l in tr.pend.items():
            f = FILE.search(p)
            if f.group(2) != op.ns or not l: continue
            oldest = l[0][2]
            active = int(f.group(4)) == top[(f.group(1), f.group(2))]
            if active and p not in tr.touched: continue
            age = (tr.touched[p] if active else tr.now) - oldest
            if age > T: raise Violation("synctime-age", "--synctime %d: after %s, %s/%s%s has a write unflushed since %d seconds (%d writes)" % (T, op.describe(), f.group(2), f.group(3), f.group(4), age, len(l)))
            worst = max(worst, age); lazy += 1
        ctx.distinct.add("time/%s/%s/T%d/%s" % (k, w.ns[op.ns].mode, T, "".join(tr.shape)[:40]))
    ctx.ev.hit("synctime_lazy_writes", lazy)
    ctx.sample = {"T": T, "worst_age": worst, "lazy": lazy, "writes": tr.writes, "flushes": tr.syncs}
    w.s.stop("STOP")

def run_fault(ctx):
    """failing flushes: what is acknowledged was flushed by a successful call"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, sp["extra"], "asan", datasize=524289, prof="tiny", nkeys=8, shim=True)
    w.start()
    for n, m in (("u", "user"), ("s", "seq")): w.nsnew(n, m)
    ctl = w.s.ctl; ctl.set(log_on=2)
    tr = Trace(w)
    sync = sp["extra"][0] == "--sync"
    for i in range(sp["ops"]):
        k, op = one(w, rnd)
        if k in ("jump", "big"): continue
        arm = rnd.random() < .4
        f0 = ctl.get("failed")
        if arm: ctl.set(fail_sync=1, fail_errno=5, fail_at=ctl.get("writes") + rnd.randint(1, 5), fail_count=1)
        before = {n: {k: l[-1].value for k, l in m.live.items()} for n, m in w.ns.items()}
        for l in tr.lines(): tr.event(l)
        tr.cmd = (tr.cmd or 0) + 1; tr.shape = []
        r = op.run(w)
        ctl.set(fail_at=0, fail_sync=0)
        fails = ctl.get("failed") - f0
        for l in tr.lines():
            if tr.event(l) == "send" and not isinstance(r, Err) and sync and tr.late():
                raise Violation("unflushed-after-fault", "%s was acknowledged (%s) although %s is not flushed (%d failed flushes)" % (op.describe(), short(r), tr.late(), fails))
        ctx.ev.hit("evaluations")
        if isinstance(r, Err) or (fails and r is None):
            if not fails: raise Violation("error-without-fault", "%s answered %s" % (op.describe(), short(r)))
            ctx.ev.hit("refused_by_fault")
            # the namespace serves the previous value
            m = w.ns[op.ns]
            if op.key:
                got = w.c(op.ns).cmd("GET", op.key)
                old = before[op.ns].get(op.key)
                if got != old: raise Violation("fault-value", "%s answered %s, then GET answers %s and not %s" % (op.describe(), short(r), short(got), short(old)))
        else: op.done(w, r)
        ctx.distinct.add("fault/%s/%s/%d/%s" % (k, w.ns[op.ns].mode, fails, "err" if isinstance(r, Err) else "ok"))
    w.verify_all(hist=False)
    ctx.sample = {"refused": ctx.ev.get("refused_by_fault")}
    w.s.stop("STOP")

def run_case(ctx):
    {"cut": run_cut, "order": run_order, "time": run_time, "fault": run_fault}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("replies_judged", 5000), ("traced_flushes", 5000), ("power_cuts", 300), ("synctime_lazy_writes", 300), ("refused_by_fault", 50)) if ev.get(k, 0) < n]
