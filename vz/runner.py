"""Runs the cases of one check in worker processes and reports."""
import os, sys, glob, json, time, hashlib, importlib, multiprocessing as mp, traceback, random, signal, queue, subprocess
from . import build, resp, server
from .server import Scratch, Crash, StartError, Server
from .model import Violation, Counter, short

VERIF = build.VERIF
EVD = os.environ.get("VZ_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")

class BuildFailed(Exception): pass

class Ctx:
    """what a case gets: a scratch directory, a random source, counters"""
    def __init__(self, spec, dir_, ev):
        self.spec, self.dir, self.ev = spec, dir_, ev
        self.rnd = random.Random(str(spec.get("seed", 0)) + ":" + str(spec.get("kind", "")))
        self.servers = []
        self.sample = None
        self.distinct = set()      # signatures of the distinct situations observed
        self.found = []            # violations found (key, msg, detail)
        self.n = 0
    def sub(self, name=None):
        self.n += 1
        d = os.path.join(self.dir, name or "d%d" % self.n)
        os.makedirs(d, exist_ok=True)
        return d
    def server(self, variant="asan", base=None, **kw):
        b = build.build(variant, tools=BUILD_TOOLS.get(variant, ()), extra=BUILD_EXTRA.get(variant))
        s = Server(b, base or self.sub(), **kw)
        self.servers.append(s)
        return s
    def bindir(self, variant="asan"):
        return build.build(variant, tools=BUILD_TOOLS.get(variant, ()), extra=BUILD_EXTRA.get(variant))
    def tool(self, name, *args, variant="asan", timeout=120, env=None):
        """runs an offline tool; returns (exit code, output)"""
        exe = os.path.join(self.bindir(variant), name)
        if os.path.exists(exe + ".failed"): raise BuildFailed(name)
        e = dict(os.environ, ASAN_OPTIONS=server.ASAN % 0, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
        for v in ("ZSHIM_QUIET", "ZSHIM_CTL"): e.pop(v, None)
        e.update(env or {})
        try: r = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, timeout=timeout, preexec_fn=server.limits)
        except subprocess.TimeoutExpired: raise Violation("tool-hang:" + name, "%s does not end" % name)
        out = r.stdout.decode("latin-1")
        rep = server.sanitizer_report(out)
        if rep: raise Crash(*rep)
        if r.returncode < 0: raise Crash("%s:signal:%d" % (name, -r.returncode), out[-2000:])
        self.ev.hit("tool_runs")
        return r.returncode, out
    def violation(self, key, msg, **d):
        raise Violation(key, msg, **d)
    def report(self, key, msg, **d):
        """records a violation and goes on"""
        self.found.append((key, msg, d))

# every check uses the same build (so that one check's build serves the next)
BUILD_TOOLS = {"asan": tuple(sorted(build.TOOLS)), "plain": tuple(sorted(build.TOOLS)), "release": ()}
_api = [os.path.join(build.HERE, "apihost.c")]
BUILD_EXTRA = {"asan": {"apihost": _api}, "plain": {"apihost": _api}}

def _stalled(ctx, e):
    """a timeout: is it the server ("hang": busy forever, "no-reply": idle and the reply still does not come) or the machine (None)"""
    l = [s.stalled() for s in ctx.servers if s.alive()]
    if "hang" in l: return "hang"
    if not l or set(l) != {"no-reply"} or getattr(e, "client", None) is None: return None
    e.client.timeout = 10
    try: e.client.s.settimeout(10); e.client.recv()
    except resp.Timeout: return "no-reply"
    except Exception: pass
    return None

def _case(modname, spec):
    """in the worker: returns a result dict"""
    mod = importlib.import_module(modname)
    ev = Counter()
    sc = Scratch(mod.PROP.lower())
    ctx = Ctx(spec, sc.path, ev)
    res = {"spec": spec, "violations": [], "error": None, "inconclusive": None}
    t = time.time()
    try:
        try:
            try:
                mod.run_case(ctx)
            except (resp.Closed, resp.Timeout, resp.Protocol) as e:
                for s in ctx.servers:
                    if s.proc is not None: s.diagnose()
                how = _stalled(ctx, e) if isinstance(e, resp.Timeout) else None
                if how:
                    res["violations"].append((how, "the server never answers (%s): %s" % ("busy forever" if how == "hang" else "it serves other clients", e), {"tb": traceback.format_exc()[-1500:]}))
                elif isinstance(e, resp.Timeout):
                    res["inconclusive"] = "timeout: %s" % e
                    res["tb"] = traceback.format_exc()[-1500:]
                elif isinstance(e, resp.Protocol):
                    res["violations"].append(("protocol", "reply is not RESP: %s" % e, {"tb": traceback.format_exc()[-1500:]}))
                else:
                    res["violations"].append(("disconnected", "connection closed by the server: %s" % e, {"tb": traceback.format_exc()[-1500:]}))
        except Crash as e:
            res["violations"].append(("crash:" + e.key, "server crashed", {"report": e.text[-5000:]}))
        except Violation as e:
            e.detail["at"] = traceback.format_exc()[-1200:]
            res["violations"].append((e.key, e.msg, e.detail))
        except StartError as e:
            res["violations"].append(("start-failed", "server did not start: %s" % e, {"tb": traceback.format_exc()[-1500:]}))
    except Exception:
        res["error"] = traceback.format_exc()
    finally:
        for s in ctx.servers: s.cleanup()
        sc.remove()
    # a crash which happened without being noticed by the case
    res["violations"] += ctx.found
    res["ev"] = dict(ev); res["sample"] = ctx.sample; res["distinct"] = sorted(ctx.distinct)[:5000]; res["wall"] = time.time() - t
    return res

def _worker(modname, qi, qo):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        it = qi.get()
        if it is None: return
        i, spec = it
        try: r = _case(modname, spec)
        except BaseException: r = {"spec": spec, "violations": [], "error": traceback.format_exc(), "inconclusive": None, "ev": {}, "sample": None, "distinct": [], "wall": 0}
        qo.put((i, r))

def run_pool(modname, specs, jobs, watchdog, stop_at=None):
    """yields (spec index, result); a worker that hangs is killed and its case reported as inconclusive"""
    ctx = mp.get_context("fork")
    results = {}
    pending = list(enumerate(specs))[::-1]
    workers = []
    def spawn():
        qi, qo = ctx.SimpleQueue(), ctx.Queue()
        p = ctx.Process(target=_worker, args=(modname, qi, qo), daemon=True)
        p.start()
        return {"p": p, "qi": qi, "qo": qo, "cur": None, "t": 0}
    workers = [spawn() for _ in range(min(jobs, len(specs)))]
    nviol = nincon = 0
    while True:
        busy = False
        for n, w in enumerate(workers):
            if w["cur"] is None:
                if pending and not (stop_at and (nviol >= stop_at or nincon >= 16)):
                    w["cur"] = pending.pop(); w["t"] = time.monotonic()
                    w["qi"].put(w["cur"]); busy = True
                continue
            busy = True
            try:
                i, r = w["qo"].get_nowait()
                results[i] = r; w["cur"] = None
                nviol += len(r["violations"])
                if r["inconclusive"]: nincon += 1
                continue
            except queue.Empty: pass
            dead = not w["p"].is_alive()
            if dead:
                try:
                    i, r = w["qo"].get(timeout=1); results[i] = r; w["cur"] = None
                    workers[n] = spawn(); continue
                except queue.Empty: pass
            if dead or time.monotonic() - w["t"] > watchdog:
                i, spec = w["cur"]
                results[i] = {"spec": spec, "violations": [], "error": "worker died" if dead else None, "inconclusive": None if dead else "watchdog",
                              "ev": {}, "sample": None, "distinct": [], "wall": watchdog}
                w["p"].kill(); w["p"].join()
                workers[n] = spawn()
        if not busy: break
        time.sleep(0.003)
    for w in workers:
        w["qi"].put(None)
    for w in workers:
        w["p"].join(5)
        if w["p"].is_alive(): w["p"].kill()
    return results

def load_known(prop):
    try:
        with open(KNOWN) as f: d = json.load(f)
    except OSError: return {}
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == prop and e.get("status") == "known"}

def _jsonable(x):
    if isinstance(x, bytes): return repr(x if len(x) < 400 else x[:400])
    if isinstance(x, dict): return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [_jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return repr(x)

def main(modname, argv):
    mod = importlib.import_module(modname)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--seed" in argv: seed = int(argv[argv.index("--seed") + 1])
    jobs = int(os.environ.get("VZ_JOBS", str(os.cpu_count() or 4)))
    prop = mod.PROP
    t0 = time.time()
    for v in getattr(mod, "VARIANTS", ("asan",)):
        try: build.build(v, tools=BUILD_TOOLS.get(v, ()), extra=BUILD_EXTRA.get(v))
        except build.BuildError as e:
            print("BUILD FAILED", v, e); return 2
    from . import gen
    gen.crc(b"x"); gen.bucket_delta()
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f: rp = json.load(f)
        specs = [rp["spec"]]
    else:
        specs = list(mod.cases(tier, seed))
    if "--only" in argv:
        o = argv[argv.index("--only") + 1]; specs = [s for s in specs if o in json.dumps(s)]
    watchdog = getattr(mod, "WATCHDOG", 300)
    known = load_known(prop)
    results = run_pool(modname, specs, jobs, watchdog, stop_at=40)
    # timeouts and harness errors are tried once more, alone
    again = [i for i, r in results.items() if (r["inconclusive"] or r["error"]) and not r["violations"]]
    part = again[:12]
    if part:
        re2 = run_pool(modname, [specs[i] for i in part], max(1, jobs // 2), watchdog)
        for n, i in enumerate(part):
            r1, r2 = results[i], re2.get(n)
            if r2 is None: continue
            if r1["inconclusive"] and r2["inconclusive"]:
                r2["violations"].append(("hang", "the case did not finish twice: %s / %s" % (r1["inconclusive"], r2["inconclusive"]), {"tb": r2.get("tb", "")}))
            r2["retried"] = True
            results[i] = r2
        for i in again[12:]:
            results[i]["skipped"] = True
    ev, distinct, samples, viol, errors, incon, walls = Counter(), set(), [], [], [], 0, []
    for i in sorted(results):
        r = results[i]
        for k, v in r["ev"].items(): ev.hit(k, v)
        for d in r["distinct"]: distinct.add(d)
        if r["sample"] is not None and len(samples) < 6: samples.append(_jsonable(r["sample"]))
        for v in r["violations"]: viol.append((i, v))
        if r["error"]: errors.append((i, r["error"]))
        if r["inconclusive"] and not r["violations"]: incon += 1
        walls.append(r["wall"])
    post = getattr(mod, "finish", None)
    if post and not errors and "--replay" not in argv and "--only" not in argv:
        for v in post(ev, tier) or ():
            errors.append((-1, v))
    newv, seenk = {}, {}
    for i, (key, msg, d) in viol:
        if key in known: seenk.setdefault(key, msg)
        else: newv.setdefault(key, []).append((i, msg, d))
    wall = time.time() - t0
    ran = len(results)
    nd = len(distinct)
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": int(ev.get("evaluations", ran)),
            "distinct_nontrivial": nd,
            "rule": mod.RULE,
            "samples": samples or [_jsonable(specs[0])] if specs else [],
            "cases_run": ran, "cases_planned": len(specs), "events": {k: v for k, v in sorted(ev.items())},
            "inconclusive": incon, "slowest_case_s": round(max(walls or [0]), 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": sum(len(v) for v in newv.values()),
    }
    if known: evid["coverage"]["known_findings_seen"] = sorted(seenk)
    replay = "--replay" in argv
    os.makedirs(EVD, exist_ok=True)
    if not replay:
        for f in glob.glob(os.path.join(EVD, "replay-%s-*.json" % prop)): os.unlink(f)
        with open(os.path.join(EVD, prop + ".json"), "w") as f: json.dump(evid, f, indent=1)
    for k, e in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    rc = 0
    for key, l in newv.items():
        i, msg, d = l[0]
        rp = os.path.join(EVD, "replay-%s-%s.json" % (prop, hashlib.sha1(key.encode()).hexdigest()[:8]))
        with open(rp, "w") as f:
            json.dump({"property": prop, "key": key, "message": msg, "detail": _jsonable(d), "spec": specs[i], "count": len(l),
                       "replay_cmd": "cd /verif && python3 -m vz %s --replay %s" % (prop, rp)}, f, indent=1)
        print("  %s (%d cases): %s" % (key, len(l), msg[:600]))
        if "-v" in argv:
            print(json.dumps(_jsonable(d), indent=1)[:6000].replace("\\n", "\n"))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    if rc == 0 and errors:
        for i, e in errors[:5]: print("HARNESS ERROR in case", i, specs[i] if i >= 0 else "", "\n", e)
        rc = 2
    # too many cases without a verdict: no answer
    if rc == 0 and incon > max(2, ran // 10):
        print("INCONCLUSIVE: %d of %d cases" % (incon, ran)); rc = 2
    print("%s %s: %d cases, %d distinct, %d violations, %d inconclusive, %.1fs" % (prop, tier, ran, nd, evid["violations"], incon, wall))
    return rc
