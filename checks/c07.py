"""C07: HISTORY."""
import struct
from vz import gen
from vz.work import World
from vz.resp import Err

PROP, LEVEL = "C07", "exploration"
TECHNIQUE = "runtime monitoring: reference-model oracle over complete version chains, cross-key and forged identifiers, ASan+UBSan"
NOTE = "every chain compared version by version with the values acknowledged; identifiers of other keys and forged identifiers must be refused"
RULE = "one distinct = (operation, mode, live-key class, jumps class, restarts class) or (identifier kind, mode, command) or chain length"

def cases(tier, seed):
    n = 40 if tier == "quick" else 320
    return [{"kind": "hist", "i": i, "seed": seed * 1000 + i, "ops": 600 if tier == "quick" else 2500, "mode": ["user", "seq", None][i % 3],
             "prof": ["tiny", "small", "fill", "mixed"][(i // 3) % 4]} for i in range(n)]

OPS = dict(set=50, new=6, delete=6, read=3, mget=0, scan=.3, rscan=.3, keycur=.5, cursor=0, history=26, badid=1, jump=2, nsinfo=.2)

def run_case(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof=sp["prof"], nkeys=rnd.choice([1, 3, 6, 12])).start()
    if sp["mode"] is None: w.nsnew("q", "seq"); w.nsnew("u", "user")
    ids = {}        # (ns, key) -> identifiers seen
    for n in range(sp["ops"]):
        x = rnd.random()
        if x < .006: w.restart()
        elif x < .010: w.reload(rnd.choice(list(w.ns)))
        elif x < .03: cross(w)
        elif x < .08: forged(w)
        else: w.step(None, OPS)
    w.verify_all()
    w.restart(); w.verify_all()
    mx = 0
    for nm, m in w.ns.items():
        for k, v in m.live.items(): mx = max(mx, len(v)); ctx.distinct.add("chain/%s/%d" % (m.mode, len(v)))
    ctx.sample = {"mode": sp["mode"], "longest_chain": mx, "jumps": w.jumps, "restarts": w.restarts}
    w.s.stop()

def idents(w, name, key):
    m = w.ns[name]
    return w.d.history(w.c(name), m, key)

def refused(w, name, key, ident, kind):
    m = w.ns[name]; c = w.c(name)
    r = c.cmd("HISTORY", key, ident)
    w.ev.hit("identifiers_" + kind.split("-")[0]); w.ev.hit("evaluations")
    w.ctx.distinct.add("ident/%s/%s/%s" % (kind, m.mode, "live" if key in m.live else "dead"))
    if not isinstance(r, Err):
        w.d.bad("identifier-%s" % kind, "HISTORY of %r with an identifier which is not one of its versions (%s, %r) answered %r" % (key[:40], kind, ident[:40], r))

def cross(w):
    """identifiers of one key used with another one"""
    r = w.rnd
    cand = [(n, k) for n, m in w.ns.items() for k in m.live if len(m.live[k]) > 1]
    if not cand: return
    n, k = r.choice(cand)
    others = [o for o in w.ns[n].live if o != k]
    l = idents(w, n, k)
    if not l: return
    i = r.choice(l)
    if others: refused(w, n, r.choice(others), i, "otherkey")
    dead = [o for o in w.ns[n].dead if o not in w.ns[n].live]
    if dead: refused(w, n, r.choice(dead), i, "deadkey")
    near = [q for q in (k + b"\0", k[:-1], k[:-1] + bytes([k[-1] ^ 1])) if q and len(q) < 256 and q not in w.ns[n].live]
    refused(w, n, r.choice(near), i, "nearkey")

def forged(w):
    r = w.rnd
    name = r.choice(list(w.ns)); m = w.ns[name]
    if not m.live: return
    k = r.choice(list(m.live))
    l = idents(w, name, k)
    fid, off = struct.unpack("<II", l[0]) if l else (0, 29)
    kind = r.choice(["len", "file", "offset", "zero", "huge", "long", "current"])
    if kind == "len": f = r.choice([b"", b"x", bytes(7), bytes(9), bytes(255), bytes(16)])
    elif kind == "file": f = struct.pack("<II", r.choice([fid + 100000, 2**32 - 1, 2**31]), off)
    elif kind == "offset": f = struct.pack("<II", fid, r.choice([0, 2**32 - 1, 2**31, off + 10**6, 10**9]))
    elif kind == "zero": f = bytes(8)
    elif kind == "huge": f = b"\xff" * 8
    elif kind == "long": f = bytes(8) * 40
    else: return
    if f in l: return
    refused(w, name, k, f, "forged-" + kind)
    # a key that is too long names nothing
    if r.random() < .2:
        kk = (k * 300)[:r.choice([256, 257, 300, 512])]
        if len(kk) > 255:
            v = w.c(name).cmd("HISTORY", kk)
            if not isinstance(v, Err): w.d.bad("history-longkey", "HISTORY of a %d byte key answered %r" % (len(kk), v))
            kk = k + bytes(256 - len(k)) + k[:0] if len(k) < 256 else k
            kk2 = k + b"z" * 256    # same length modulo 256
            v = w.c(name).cmd("HISTORY", kk2)
            if not isinstance(v, Err): w.d.bad("history-longkey", "HISTORY of a %d byte key answered %r" % (len(kk2), v))
            w.ev.hit("identifiers_longkey")

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("history_walks", 3000), ("history_versions", 10000), ("identifiers_otherkey", 80), ("identifiers_forged", 300), ("restarts", 40), ("jumps", 100)) if ev.get(k, 0) < n]
