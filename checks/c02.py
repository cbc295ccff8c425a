"""C02: restart or RELOAD changes nothing observable."""
from vz.work import World
from vz.model import Violation

PROP, LEVEL = "C02", "exploration"
TECHNIQUE = "runtime monitoring: reference-model oracle and before/after state comparison around restarts and RELOAD, ASan+UBSan"
NOTE = "every key, value, timestamp, history, scan and statistic compared with the model before and after each restart/RELOAD of the generated histories"
RULE = ("one distinct = (operation, mode, live-key count class, jumps so far class, restarts so far class); a case is a random history over several namespaces "
        "with restarts and reloads interleaved, all observables compared after each")
ASSUMPTIONS = ["locks and freezes are runtime states and are not expected to survive a restart"]

def cases(tier, seed):
    n = 40 if tier == "quick" else 400
    out = []
    for i in range(n):
        out.append({"kind": "restart", "i": i, "seed": seed * 1000 + i, "mode": [None, "user", "seq", None][i % 4],
                    "rounds": 5 if tier == "quick" else 8, "ops": 160 if tier == "quick" else 400,
                    "prof": ["small", "fill", "tiny"][i % 3]})
    return out

def run_case(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof=sp["prof"], nkeys=rnd.choice([6, 14, 30])).start()
    if sp["mode"] is None and rnd.random() < .4:
        w.nsset("default", "mode", "seq"); w.ns["default"].mode = "seq"
    names = ["alpha", "beta", "g" * 100, "with space", "d0", "zdb-namespace", "A"]
    rnd.shuffle(names)
    for n in names[:rnd.randint(1, 4)]:
        w.nsnew(n, None if sp["mode"] else rnd.choice(["user", "seq"]))
    for rd in range(sp["rounds"]):
        for _ in range(rnd.randint(10, sp["ops"])): w.step()
        x = rnd.random()
        if x < .5:
            n = rnd.choice(list(w.ns))
            if n != "default":
                p, v = rnd.choice([("maxsize", rnd.choice([10**9, 2**40 + 5])), ("maxsize", 0), ("password", "pw%d" % rd), ("password", "x" * 62), ("password", "*"),
                                   ("public", 0), ("public", 1)])
                w.nsset(n, p, v)
        elif x < .6 and len(w.ns) > 2:
            w.nsdel(rnd.choice([k for k in w.ns if k != "default"]))
        elif x < .7: w.nsnew("n%d" % rd, None if sp["mode"] else rnd.choice(["user", "seq"]))
        elif x < .8: w.jump(rnd.choice(list(w.ns)))    # an empty active file
        worm = None
        if rnd.random() < .15 and len(w.ns) > 1:
            worm = rnd.choice([k for k in w.ns if k != "default"]); w.nsset(worm, "worm", 1)
        w.verify_all()
        before = w.infos()
        if rnd.random() < .6: w.restart(); how = "restart"
        else:
            for n in rnd.sample(list(w.ns), rnd.randint(1, len(w.ns))): w.reload(n)
            how = "reload"
        after = w.infos()
        if before != after:
            for n in before:
                for k in before[n]:
                    if before[n][k] != after.get(n, {}).get(k):
                        ctx.violation("info-%s-%s" % (how, k), "NSINFO %s: %s was %s before the %s and %s after" % (n, k, before[n][k], how, after.get(n, {}).get(k)))
        w.verify_all()
        if worm: w.nsset(worm, "worm", 0)
        ctx.ev.hit("state_comparisons", 2)
    for _ in range(40): w.step()
    w.verify_all()
    ctx.sample = {"mode": sp["mode"], "namespaces": {n: m.mode for n, m in w.ns.items()}, "steps": w.steps, "jumps": w.jumps, "restarts": w.restarts}
    w.s.stop()

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("restarts", 40), ("reloads", 40), ("history_versions", 2000), ("cursor_walks", 30), ("seq_insert", 500)) if ev.get(k, 0) < n]
