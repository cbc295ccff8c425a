"""C21: at most one server owns a database directory."""
import os, random, signal, socket, subprocess, time
from checks.c08 import tree
from vz.model import Violation, short
from vz.resp import Client, Closed, Timeout
from vz.server import StartError, Server

PROP = "C21"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: pairs and groups of real servers started on shared directories in every combination, spelling and moment; oracle over exit statuses, "
             "liveness, replies of the owner and file hashes")
NOTE = "never two servers alive on one directory; a refused server changes no file of the owner; an owner gone in any way (hook children still alive included) can be replaced at once"
RULE = "evaluations = second or later server starts judged; distinct = (scenario, directory combination, spelling, way the owner ended, outcome)"

def cases(tier, seed):
    out = []
    n = 1 if tier == "quick" else 8
    for r in range(n):
        for i in range(6): out.append({"kind": "refuse", "i": i, "seed": seed * 1000 + r * 50 + i, "tries": 24})
        for i, how in enumerate(["SIGKILL", "SIGTERM", "SIGINT", "STOP"]):
            for hook in (0, 1, 2): out.append({"kind": "takeover", "how": how, "hook": hook, "seed": seed * 1000 + r * 50 + 10 + i * 3 + hook, "rounds": 3})
        for i in range(4): out.append({"kind": "race", "i": i, "seed": seed * 1000 + r * 50 + 30 + i, "rounds": 8, "n": 6})
        for i in range(2): out.append({"kind": "background", "i": i, "seed": seed * 1000 + r * 50 + 40 + i})
    return out

def spelling(rnd, path, base):
    """another way to name an existing directory"""
    x = rnd.choice(["plain", "slash", "dots", "double", "symlink", "parent-link", "relative"])
    d, b = os.path.split(path)
    if x == "plain": return x, path
    if x == "slash": return x, path + "/"
    if x == "dots": return x, os.path.join(d, b, "..", b)
    if x == "double": return x, d + "//" + b
    l = os.path.join(base, "l%d" % rnd.getrandbits(60))
    if x == "symlink": os.symlink(path, l); return x, l
    if x == "parent-link": os.symlink(d, l); return x, os.path.join(l, b)
    return x, os.path.relpath(path, base)

def put(c, n):
    r = c.cmd("SET", "k%d" % n, "v%d" % n)
    if r is not None and r != b"k%d" % n: raise Violation("owner", "SET on the owner answered %s" % short(r))

def check_owner(c, n, what):
    try:
        for i in range(n):
            r = c.cmd("GET", "k%d" % i)
            if r != b"v%d" % i: raise Violation("owner", "after %s, GET on the owner answered %s" % (what, short(r)))
    except (Closed, Timeout) as e: raise Violation("owner", "after %s, the owner does not answer (%s)" % (what, e))

def run_refuse(ctx):
    """one owner; other servers try every combination of its directories"""
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    top = base
    for x in ([], ["d" * 120], ["d" * 90, "e" * 130])[sp["i"] % 3]: top = os.path.join(top, x)     # long names
    os.makedirs(top, exist_ok=True)
    D, I = os.path.join(top, "own-data"), os.path.join(top, "own-index")
    own = ctx.server("asan", base, data=D, index=I, args=rnd.choice([[], ["--mode", "user"], ["--sync"]])).start()
    c = own.client()
    n = 0
    for _ in range(5): put(c, n); n += 1
    c.cmd("NSNEW", "other")
    for t in range(sp["tries"]):
        combo = rnd.choice(["both", "data", "index", "swapped", "data-as-index", "index-as-data"])
        fd, fi = os.path.join(base, "fd%d" % t), os.path.join(base, "fi%d" % t)
        d = {"both": D, "data": D, "index": fd, "swapped": I, "data-as-index": fd, "index-as-data": I}[combo]
        i = {"both": I, "data": fi, "index": I, "swapped": D, "data-as-index": D, "index-as-data": fi}[combo]
        sd, d2 = spelling(rnd, d, base) if d in (D, I) else ("fresh", d)
        si, i2 = spelling(rnd, i, base) if i in (D, I) else ("fresh", i)
        args = rnd.choice([[], ["--mode", "seq"], ["--mode", "user"], ["--sync"], ["--dump"]])
        if rnd.random() < .3: put(c, n); n += 1
        if rnd.random() < .2: c.cmd("NSJUMP")
        before = tree(D, I)
        mt = {p: os.stat(p).st_mtime_ns for p in before}
        s2 = ctx.server("asan", base, data=d2, index=i2, args=args, cwd=base)
        what = "a second server with %s shared (%s, %s)" % (combo, sd, si)
        started = True
        if "--dump" in args:        # loads and leaves
            s2.spawn()
            try: s2.proc.wait(30)
            except subprocess.TimeoutExpired: s2.kill(); raise Violation("second", what + " does not end")
            s2.check_dead(expected=None)
            started = s2.proc.returncode == 0
        else:
            try: s2.start(wait=30)
            except StartError as e: started = False
        if started: raise Violation("second", what + " started")
        after = tree(D, I)
        if after != before: raise Violation("second-changed", "%s changed %s" % (what, sorted(os.path.relpath(p, base) for p in set(after) ^ set(before) | {p for p in after if before.get(p) != after[p]})[:5]))
        if any(os.stat(p).st_mtime_ns != m for p, m in mt.items()): raise Violation("second-changed", "%s touched files of the owner" % what)
        check_owner(c, n, what)
        ctx.ev.hit("evaluations"); ctx.ev.hit("refused")
        ctx.distinct.add("refuse/%s/%s/%s/%s" % (combo, sd, si, args[-1] if args else ""))
        s2.cleanup()
    # different directories: nothing is shared, it works
    s3 = ctx.server("asan", base, data=os.path.join(base, "x-data"), index=os.path.join(base, "x-index")).start()
    ctx.ev.hit("unrelated_started"); s3.stop("SIGTERM")
    own.stop("SIGTERM")
    ctx.sample = {"tries": sp["tries"]}

HOOK = """#!/bin/sh
# stays alive after the server; only for events which are not waited for
case "$1" in
ready|close|jump-index|namespaces-init|missing-data) exit 0 ;;
*) echo $$ >> "%s/pids"; exec sleep 40 ;;
esac
"""

def run_takeover(ctx):
    """the owner ends (with or without hook children alive): the next one starts at once"""
    sp, rnd = ctx.spec, ctx.rnd
    base = ctx.sub()
    D, I = os.path.join(base, "data"), os.path.join(base, "index")
    args = []
    if sp["hook"]:
        h = os.path.join(base, "hook.sh"); open(h, "w").write(HOOK % base); os.chmod(h, 0o755)
        args = ["--hook", h]
    port = None
    if sp["hook"] == 2 or rnd.random() < .5:
        with socket.socket() as q: q.bind(("127.0.0.1", 0)); port = q.getsockname()[1]
        args += ["--dualnet", "--listen", "127.0.0.1", "--port", str(port)]
    variant = "asan" if sp["how"] == "STOP" else rnd.choice(["asan", "release"])
    n = 0
    try:
        for rd in range(sp["rounds"]):
            s = ctx.server(variant, base, data=D, index=I, args=args)
            try: s.start(wait=20)
            except (StartError, Timeout) as e:
                raise Violation("takeover", "the next server does not start after %s (hook children alive: %s, tcp: %s): %s" % (sp["how"] if rd else "nothing", bool(sp["hook"]), port, str(e)[-300:]))
            c = s.client()
            check_owner(c, n, "takeover")
            for _ in range(4): put(c, n); n += 1
            if sp["hook"]:
                r = c.cmd("NSNEW", "n%d" % rd)      # starts a hook child
                c.cmd("NSJUMP")
                end = time.monotonic() + 10
                while time.monotonic() < end and not os.path.exists(os.path.join(base, "pids")): time.sleep(.01)
            ctx.ev.hit("evaluations"); ctx.ev.hit("takeovers")
            if sp["how"] == "SIGKILL": s.kill()
            else: s.stop(sp["how"])
            ctx.distinct.add("takeover/%s/hook%d/%s/%s" % (sp["how"], sp["hook"], "tcp" if port else "unix", variant))
            if sp["hook"]:
                alive = 0
                for p in open(os.path.join(base, "pids")).read().split():
                    try: os.kill(int(p), 0); alive += 1
                    except OSError: pass
                ctx.ev.hit("hook_children_alive", alive)
    finally:
        if os.path.exists(os.path.join(base, "pids")):
            for p in open(os.path.join(base, "pids")).read().split():
                try:
                    if base in open("/proc/%s/cmdline" % p).read() or "sleep" in open("/proc/%s/cmdline" % p).read(): os.kill(int(p), signal.SIGKILL)
                except OSError: pass
    ctx.sample = {"how": sp["how"], "hook": sp["hook"], "port": port}

def run_race(ctx):
    """many servers started together on one directory (or overlapping ones): never two alive"""
    sp, rnd = ctx.spec, ctx.rnd
    for rd in range(sp["rounds"]):
        base = ctx.sub()
        D = [os.path.join(base, "d%d" % i) for i in range(3)]
        overlap = sp["i"] % 2
        ss, use = [], []
        for k in range(sp["n"]):
            d, i = (D[0], D[1]) if not overlap else rnd.sample(D, 2)
            ss.append(ctx.server(rnd.choice(["asan", "release", "plain"]), base, data=d, index=i)); use.append({d, i})
        for s in ss:
            s.spawn()
            if rnd.random() < .3: time.sleep(rnd.random() * .05)
        end = time.monotonic() + 40
        state = {}
        while len(state) < len(ss):
            for k, s in enumerate(ss):
                if k in state: continue
                if s.proc.poll() is not None:
                    s.check_dead(expected=None); state[k] = "refused"
                elif s.ready(): state[k] = "up"
            if time.monotonic() > end: raise Violation("race", "servers started together neither run nor leave")
            time.sleep(.005)
        up = [k for k in state if state[k] == "up" and ss[k].proc.poll() is None]
        for a in up:
            for b in up:
                if a < b and use[a] & use[b]: raise Violation("race", "two servers run on %s at the same time" % sorted(os.path.basename(p) for p in use[a] & use[b]))
        if not overlap and len(up) != 1: raise Violation("race", "%d of %d servers run on the same directories, one expected" % (len(up), len(ss)))
        if not up: ctx.ev.hit("race_nobody")      # possible with overlapping directories only
        for k in up:
            c = ss[k].client()
            for i in range(3): put(c, i)
            check_owner(c, 3, "a race")
        # a restart while the previous one is leaving
        if up:
            k = up[0]; ss[k].close_clients()
            how = rnd.choice([signal.SIGTERM, signal.SIGKILL, signal.SIGINT])
            ss[k].proc.send_signal(how)
            d, i = ss[k].data, ss[k].index
            t = ctx.server("asan", base, data=d, index=i)
            t.spawn()
            while t.proc.poll() is None and not t.ready(): time.sleep(.005)
            if t.proc.poll() is None:
                if ss[k].proc.poll() is None:
                    time.sleep(.3)
                    if ss[k].proc.poll() is None: raise Violation("race", "the new server runs while the previous one is still alive")
                ctx.ev.hit("restart_race_started")
            else:
                t.check_dead(expected=None); ctx.ev.hit("restart_race_refused")
            ss.append(t)
        for s in ss: s.cleanup()
        ctx.ev.hit("evaluations", len(ss)); ctx.ev.hit("races"); ctx.ev.hit("race_winners", len(up))
        ctx.distinct.add("race/%d/%d winners/%s" % (overlap, len(up), "".join(sorted(state.values()))[:30]))

def run_background(ctx):
    """--background: the process which stays owns the directories"""
    base = ctx.sub()
    D, I = os.path.join(base, "data"), os.path.join(base, "index")
    log = os.path.join(base, "zdb.log")
    own = ctx.server("plain", base, data=D, index=I, args=["--background", "--logfile", log])
    pid = None
    try:
        own.spawn(); own.proc.wait(20)
        if own.proc.returncode: raise Violation("background", "--background ended with %s: %s" % (own.proc.returncode, own.output()[-300:]))
        end = time.monotonic() + 20
        while not own.ready():
            if time.monotonic() > end: raise Violation("background", "not serving after going to the background")
            time.sleep(.01)
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    if D.encode() in open("/proc/%s/cmdline" % p, "rb").read(): pid = int(p)
                except OSError: pass
        c = Client(own.sockpath, timeout=20)
        for i in range(4): put(c, i)
        for d, i in ((D, I), (D, os.path.join(base, "i2")), (os.path.join(base, "d2"), I)):
            s2 = ctx.server("asan", base, data=d, index=i)
            try: s2.start(wait=20); raise Violation("second", "a second server started beside one in the background")
            except StartError: pass
            check_owner(c, 4, "a second server"); ctx.ev.hit("evaluations"); ctx.ev.hit("refused")
        ctx.distinct.add("background")
        os.kill(pid, [signal.SIGTERM, signal.SIGKILL][ctx.spec["i"] % 2])
        end = time.monotonic() + 20
        while os.path.exists("/proc/%d" % pid) and open("/proc/%d/stat" % pid).read().split(")")[1].split()[0] != "Z" and time.monotonic() < end: time.sleep(.01)
        s3 = ctx.server("asan", base, data=D, index=I)
        try: s3.start(wait=20)
        except StartError as e: raise Violation("takeover", "no start after the background server ended: %s" % str(e)[-200:])
        check_owner(s3.client(), 4, "takeover"); ctx.ev.hit("takeovers")
        s3.stop("SIGTERM")
    finally:
        if pid:
            try:
                if D.encode() in open("/proc/%d/cmdline" % pid, "rb").read(): os.kill(pid, signal.SIGKILL)
            except OSError: pass

def run_case(ctx):
    {"refuse": run_refuse, "takeover": run_takeover, "race": run_race, "background": run_background}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("refused", 100), ("takeovers", 20), ("races", 20), ("hook_children_alive", 4)) if ev.get(k, 0) < n]
