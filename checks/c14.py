"""C14: CHECK, the stored checksums and the offline integrity checker."""
import ctypes, os, struct
from vz import build, files, gen
from vz.model import Violation, short
from vz.resp import Err
from vz.work import World

PROP, LEVEL = "C14", "fault_enumeration"
TECHNIQUE = ("runtime monitoring with injected damage: every payload of live servers (ASan+UBSan build and the build without hardware CRC) is damaged bit by bit, by bursts, "
             "truncations and read errors while an oracle recomputes the polynomial remainder from the damaged bytes; CHECK, DATA RAW and the offline checker are compared with it; "
             "the checksum itself is compared with a bit-serial one over lengths and alignments")
NOTE = "the expected answer is computed from the bytes on disk, so damages which keep the remainder must still answer 1"
RULE = "one distinct = (damage kind, payload size class, active or older file, engine) or (length mod 8, alignment, engine)"

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(2): out.append({"kind": "crc", "i": i, "seed": seed * 1000 + i, "soft": i == 1, "n": 4000 if q else 60000})
    for i in range(10 if q else 100): out.append({"kind": "live", "i": i, "seed": seed * 1000 + 50 + i, "ops": 220 if q else 900, "mode": [None, "user", "seq"][i % 3], "variant": "asan" if i % 5 else "soft", "prof": ["small", "tiny", "fill", "mixed"][i % 4]})
    for i in range(16 if q else 160): out.append({"kind": "damage", "i": i, "seed": seed * 1000 + 200 + i, "rounds": 50 if q else 240, "mode": ["user", "seq"][i % 2], "variant": "asan" if i % 4 else "soft", "prof": ["small", "tiny", "fill"][i % 3]})
    for i in range(4 if q else 24): out.append({"kind": "readfail", "i": i, "seed": seed * 1000 + 400 + i, "mode": ["user", "seq"][i % 2], "n": 60 if q else 400})
    out.append({"kind": "every", "i": 0, "seed": seed * 1000 + 500})
    return out

def size_class(n):
    for x, s in ((0, "0"), (7, "<8"), (8, "8"), (9, "9"), (64, "<=64"), (4096, "<=4k"), (1 << 17, "<=128k")):
        if n <= x: return s
    return "big"

def run_crc(ctx):
    """the function itself: any length, any alignment"""
    soft = ctx.spec["soft"]; rnd = ctx.rnd
    lib = ctypes.CDLL(build.shared(soft))
    f = lib.zdb_checksum_crc32; f.restype = ctypes.c_uint32; f.argtypes = [ctypes.c_void_p, ctypes.c_ssize_t]
    eng = "software" if soft else "hardware"
    buf = ctypes.create_string_buffer((1 << 23) + 64); base = (ctypes.addressof(buf) + 63) & ~63
    def one(data, al, what):
        ctypes.memmove(base + al, data, len(data))
        r, e = f(base + al, len(data)), gen.crc(data)
        ctx.ev.hit("evaluations"); ctx.ev.hit("checksums")
        ctx.distinct.add("crc/%s/%d/%d" % (eng, len(data) % 8, al))
        if r != e: raise Violation("crc-value", "checksum (%s) of %d bytes (%s) at alignment %d is %08x, the CRC-32C remainder is %08x" % (eng, len(data), what, al, r, e))
    for n in range(0, 130):
        for al in range(8): one(rnd.randbytes(n), al, "random")
    for b in range(256):                                     # every entry of the table, at every place of a word
        for p in range(9): one(bytes(p) + bytes([b]) + bytes(rnd.randrange(10)), rnd.randrange(8), "one byte %02x" % b)
    for n in (0, 1, 7, 8, 9, 15, 16, 17, 4095, 4096, 4097, 65535, 65536, 1 << 20, (1 << 23) - 1, 1 << 23):
        for x in (b"\0", b"\xff", None): one((x * n) if x else rnd.randbytes(n), rnd.randrange(8), "fill")
    for _ in range(ctx.spec["n"]): one(rnd.randbytes(int(2 ** (rnd.random() * 13))), rnd.randrange(8), "random")

def tool(ctx, path, bad=None):
    """runs the offline checker; returns (exit code, number of errors it reports)"""
    rc, out = ctx.tool("integrity-check", path)
    return rc, out.count("integrity check failed"), out

class Damage:
    """damages on data files, undone afterwards"""
    def __init__(self): self.undo = []
    def write(self, path, off, new):
        with open(path, "r+b") as f:
            f.seek(off); old = f.read(len(new)); f.seek(off); f.write(new)
        self.undo.append((path, off, old))
    def restore(self):
        for p, o, b in self.undo[::-1]:
            with open(p, "r+b") as f: f.seek(o); f.write(b)
        self.undo = []

def layout(w, n):
    """{key: (path, file, payload offset, checksum offset, payload, stored crc)} of the live keys of a namespace, and the paths of its files"""
    st = files.Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n)).parse()
    live = {}
    for it in st.items():
        if not it.deleted: live[it.id] = it
    out = {}
    ents = {(f, e.off): e for f in st.data for e in st.data[f]}
    for it in st.items():
        if it.deleted or live.get(it.id) is not it: continue
        e = ents[(it.dataid, it.offset)]
        p = os.path.join(w.s.data, n, "d%d" % it.dataid)
        out[it.id] = (p, it.dataid, e.off + files.DENT.size + len(e.id), e.off + 9, e.payload, e.crc)
    m = w.ns[n].live
    if set(out) != set(m): raise Violation("layout", "%s: the index files hold %d keys, %d are live" % (n, len(out), len(m)))
    return out, st

def check(ctx, c, key, expect, why):
    r = c.cmd("CHECK", key); ctx.ev.hit("evaluations"); ctx.ev.hit("checks_%s" % {1: "valid", 0: "corrupt"}.get(expect, "unreadable"))
    if expect == "not1":
        if r == 1 or isinstance(r, (bytes, type(None))): raise Violation("check-unreadable", "CHECK of an entry which cannot be read (%s) answered %s" % (why, short(r)))
    elif r != expect: raise Violation("check-%s" % ("missed" if expect == 0 else "accused"), "CHECK of %s answered %s, expected %d (%s)" % (short(key), short(r), expect, why))

def all_files(ctx, w, names, damaged=None):
    """offline checker on every data file; damaged: {path: number of damaged entries}"""
    damaged = damaged or {}
    for n in names:
        st = files.Store(os.path.join(w.s.data, n), os.path.join(w.s.index, n)).parse()
        for f in st.data:
            p = os.path.join(w.s.data, n, "d%d" % f)
            rc, errs, out = tool(ctx, p)
            want = sum(1 for e in st.data[f] if gen.crc(e.payload) != e.crc)
            if (rc == 0) != (want == 0): raise Violation("tool-%s" % ("missed" if want else "accused"), "integrity-check exits with %d on a file with %d damaged entries of %d" % (rc, want, len(st.data[f])), output=out[-1500:])
            if errs != want: raise Violation("tool-count", "integrity-check reports %d errors, %d entries are damaged" % (errs, want), output=out[-1500:])
            ctx.ev.hit("tool_damaged" if want else "tool_intact")

def run_live(ctx):
    """a history: intact entries are never accused, the checksum shown is the one of the payload"""
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof=sp["prof"], nkeys=14, variant=sp["variant"], base=ctx.sub("s")).start()
    w.nsnew("a", None if sp["mode"] else "seq"); w.nsnew("b")
    for n in range(sp["ops"]):
        x = rnd.random()
        if x < .01: w.restart()
        elif x < .02: w.reload(rnd.choice(list(w.ns)))
        else: w.step(ops=dict(scan=.1, rscan=.1, cursor=0, history=.1, keycur=.1, nsinfo=.1, read=2, jump=2))
        if n % 70 == 69 or n == sp["ops"] - 1:
            for name, m in w.ns.items():
                c = w.c(name)
                for k in m.live: check(ctx, c, k, 1, "intact"); ctx.distinct.add("intact/%s/%s" % (size_class(len(m.live[k][-1].value)), sp["variant"]))
                for k in m.dead if hasattr(m, "dead") else ():
                    if k in m.live: continue
                    if c.cmd("CHECK", k) is not None: raise Violation("check-deleted", "CHECK of a deleted key answered %s" % short(c.cmd("CHECK", k)))
                if m.mode != "seq" and c.cmd("CHECK", b"never\0existed") is not None: raise Violation("check-deleted", "CHECK of an unknown key")
                st = files.Store(os.path.join(w.s.data, name), os.path.join(w.s.index, name)).parse()
                for f in st.data:
                    for e in st.data[f]:
                        if gen.crc(e.payload) != e.crc: raise Violation("stored-crc", "stored checksum %08x, the remainder of the payload is %08x" % (e.crc, gen.crc(e.payload)))
                        ctx.ev.hit("stored_checksums")
                for e in rnd.sample([e for f in st.data for e in st.data[f]], min(10, sum(map(len, st.data.values())))):
                    r = c.cmd("DATA", "RAW", str(e.fid), str(e.off))
                    if not isinstance(r, list) or r[2] != b"0x%08x" % e.crc: raise Violation("raw-crc", "DATA RAW shows %s, stored is %08x" % (short(r), e.crc))
            all_files(ctx, w, w.ns)
    w.s.stop()
    all_files(ctx, w, w.ns)

def base_world(ctx, sp, rnd, nops, **kw):
    w = World(ctx, mode=sp["mode"], prof=sp.get("prof", "small"), nkeys=12, variant=sp.get("variant", "asan"), base=ctx.sub("s"), **kw).start()
    w.nsnew("a")
    for n in range(nops): w.step(ops=dict(scan=0, rscan=0, cursor=0, history=0, keycur=0, nsinfo=0, read=0, jump=2, delete=1))
    c = w.c("a")
    for n in (0, 1, 7, 8, 9, 31, 64, 1000):       # sizes which must be there
        w.d.set(c, w.ns["a"], b"" if w.ns["a"].mode == "seq" else b"size%d" % n, rnd.randbytes(n))
    return w

def bit(b, n): b[n >> 3] ^= 1 << (n & 7)

def run_damage(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = base_world(ctx, sp, rnd, 70 if sp["prof"] != "fill" else 40)
    dm = Damage()
    lay = {n: layout(w, n)[0] for n in w.ns}
    nbits = {}
    KINDS = ("bit", "bit", "bits2", "bits3", "burst", "zero", "noise", "kernel", "crc", "swap")
    for rd in range(sp["rounds"]):
        if rd and rd % 17 == 0:
            w.restart() if rnd.random() < .5 else w.reload("a")
            lay = {n: layout(w, n)[0] for n in w.ns}
        expect = {}
        for n in w.ns:
            for k, (p, f, off, coff, pay, crc) in lay[n].items():
                if rnd.random() < .35: expect[n, k] = (1, "intact"); continue
                kind = rnd.choice(KINDS); b = bytearray(pay); c2 = crc
                if kind in ("bit", "bits2", "bits3", "burst", "zero", "noise") and not b or kind == "kernel" and len(b) < 5 or kind == "swap" and len(b) < 2: kind = "crc"
                if kind == "bit":
                    i = nbits.get((n, k), rnd.randrange(len(b) * 8)); nbits[n, k] = (i + 1) % (len(b) * 8); bit(b, i)
                elif kind in ("bits2", "bits3"):
                    for i in rnd.sample(range(len(b) * 8), min(len(b) * 8, int(kind[-1]))): bit(b, i)
                elif kind == "burst":
                    l = rnd.randint(1, min(32, len(b) * 8)); s = rnd.randrange(len(b) * 8 - l + 1)
                    x = rnd.getrandbits(l) | 1 | 1 << (l - 1)
                    v = int.from_bytes(b, "little") ^ x << s; b = bytearray(v.to_bytes(len(b), "little"))
                elif kind == "zero": s = rnd.randrange(len(b)); e = rnd.randint(s + 1, len(b)); b[s:e] = bytes(e - s)
                elif kind == "noise": s = rnd.randrange(len(b)); e = rnd.randint(s + 1, len(b)); b[s:e] = rnd.randbytes(e - s)
                elif kind == "swap": s = rnd.randrange(len(b) - 1); b[s], b[s + 1] = b[s + 1], b[s]
                elif kind == "kernel": b = bytearray(gen.same_crc(pay, rnd))
                elif kind == "crc": c2 = crc ^ 1 << rnd.randrange(32)
                want = 1 if gen.crc(bytes(b)) == c2 else 0
                if want and kind in ("bit", "bits2", "bits3", "burst", "crc") and (bytes(b) != pay or c2 != crc): raise RuntimeError("oracle: damage not detectable")
                if not want and kind == "kernel": raise RuntimeError("oracle: kernel")
                if bytes(b) != pay: dm.write(p, off, bytes(b))
                if c2 != crc: dm.write(p, coff, struct.pack("<I", c2))
                expect[n, k] = (want, kind); ctx.ev.hit("damage_" + kind)
                cur = max(x[1] for x in lay[n].values())
                ctx.distinct.add("%s/%s/%s/%s" % (kind, size_class(len(pay)), "active" if f == cur else "older", sp["variant"]))
        off_line = rd % 6 == 0
        if off_line and rd % 12 == 0:
            w.s.stop(); w.s.start(); w.attach()
        for n in w.ns:
            c = w.s.client(); r = c.cmd("SELECT", n)
            for k in w.ns[n].live:
                check(ctx, c, k, *expect[n, k])
            c.close()
        if off_line: all_files(ctx, w, w.ns)
        # an overwrite with the right value makes the key valid again
        if rd % 5 == 4 and not off_line:
            l = [(n, k) for (n, k), e in expect.items() if e[0] == 0]
            for n, k in rnd.sample(l, min(2, len(l))):
                v = w.ns[n].live[k][-1].value
                c = w.s.client(); c.cmd("SELECT", n); r = c.cmd("SET", k, v)
                if isinstance(r, Err): raise Violation("rewrite-refused", "SET over a damaged value answered %s" % short(r))
                if c.cmd("GET", k) != v: raise Violation("rewrite-lost", "the value written over a damaged one (%s) is not returned" % expect[n, k][1])
                if r is not None: check(ctx, c, k, 1, "rewritten")
                elif expect[n, k][1] != "crc": raise Violation("rewrite-lost", "the value written over a damaged one is not stored")
                else: check(ctx, c, k, 0, "same value, damaged checksum")
                ctx.ev.hit("rewritten"); c.close()
            dm.restore(); lay = {n: layout(w, n)[0] for n in w.ns}
        dm.restore()
        for n, k in rnd.sample(sorted(expect), min(5, len(expect))):
            c = w.s.client(); c.cmd("SELECT", n); check(ctx, c, k, 1, "restored"); c.close()
    # files cut, removed
    for rd in range(12):
        n = rnd.choice(list(w.ns)); older = [x for x in lay[n].items() if x[1][1] < max(y[1] for y in lay[n].values()) and x[1][4]]
        if not older: continue
        k, (p, f, off, coff, pay, crc) = rnd.choice(older)
        with open(p, "rb") as fo: whole = fo.read()
        c = w.s.client(); c.cmd("SELECT", n)
        how = rnd.choice(["cut", "cut", "header", "gone"])
        cut = {"cut": off + rnd.randrange(len(pay)), "header": coff - 9 + rnd.randrange(1, 18), "gone": None}[how]
        if cut is None: os.rename(p, p + ".away")
        else: os.truncate(p, cut)
        for k2, x in lay[n].items():
            if x[1] != f: e = 1
            elif cut is None or x[2] + len(x[4]) > cut: e = "not1"
            else: e = 1
            check(ctx, c, k2, e, how)
        if cut is not None:
            rc, errs, out = tool(ctx, p)
            if rc == 0: raise Violation("tool-missed", "integrity-check exits with 0 on a file cut inside an entry (%s)" % how, output=out[-800:])
        if cut is None: os.rename(p + ".away", p)
        else:
            with open(p, "r+b") as fo: fo.write(whole)
        check(ctx, c, k, 1, "restored"); c.close()
        ctx.ev.hit("damage_" + how); ctx.distinct.add("%s/%s" % (how, sp["variant"]))
    w.s.stop()

def run_every(ctx):
    """every single bit of a payload, through the server; and a file with very many damaged entries"""
    s = ctx.server("asan", ctx.sub("s"), args=["--mode", "user"], datasize=None).start(); c = s.client()
    pay = ctx.rnd.randbytes(40); c.cmd("SET", b"key", pay)
    p = os.path.join(s.data, "default", "d0"); off = files.DHDR.size + files.DENT.size + 3
    dm = Damage()
    for i in range(len(pay) * 8):
        b = bytearray(pay); bit(b, i); dm.write(p, off, bytes(b)); check(ctx, c, b"key", 0, "bit %d" % i); dm.restore()
    for i in range(32):
        dm.write(p, files.DHDR.size + 9, struct.pack("<I", gen.crc(pay) ^ 1 << i)); check(ctx, c, b"key", 0, "checksum bit %d" % i); dm.restore()
    check(ctx, c, b"key", 1, "restored")
    for n in (8 << 20,):
        big = ctx.rnd.randbytes(n); r = c.cmd("SET", b"big", big)
        if isinstance(r, Err): raise Violation("big", "SET of %d bytes answered %s" % (n, short(r)))
        check(ctx, c, b"big", 1, "intact")
        o2 = off + len(pay) + files.DENT.size + 3
        for i in (0, n * 8 - 1, n * 4 + 3):
            dm.write(p, o2 + (i >> 3), bytes([big[i >> 3] ^ 1 << (i & 7)])); check(ctx, c, b"big", 0, "bit %d of 8 MB" % i); dm.restore()
    # 256 and 512 damaged entries: still an error
    c.cmd("NSNEW", "many"); c.cmd("SELECT", "many")
    for i in range(515): c.cmd("SET", b"k%03d" % i, b"value-%03d" % i)
    p = os.path.join(s.data, "many", "d0"); L = files.DENT.size + 4 + 9
    for n in (1, 255, 256, 257, 512):
        for i in range(n): dm.write(p, files.DHDR.size + i * L + files.DENT.size + 4, b"V")
        rc, errs, out = tool(ctx, p)
        if rc == 0 or errs != n: raise Violation("tool-many", "integrity-check exits with %d and reports %d errors, %d entries are damaged" % (rc, errs, n))
        dm.restore(); ctx.ev.hit("tool_damaged")
    # damaged checksum of an empty payload
    c.cmd("NSNEW", "empty"); c.cmd("SELECT", "empty"); c.cmd("SET", b"k", b"x"); c.cmd("SET", b"e", b""); c.cmd("SET", b"k2", b"y")
    p = os.path.join(s.data, "empty", "d0"); o = files.DHDR.size + (files.DENT.size + 2) + 9
    check(ctx, c, b"e", 1, "empty"); dm.write(p, o, b"\1"); check(ctx, c, b"e", 0, "checksum of an empty payload")
    rc, errs, out = tool(ctx, p)
    if rc == 0 or errs != 1: raise Violation("tool-empty", "integrity-check exits with %d and reports %d errors, the checksum of an empty payload is damaged" % (rc, errs))
    dm.restore(); rc, errs, out = tool(ctx, p)
    if rc or errs: raise Violation("tool-accused", "integrity-check exits with %d on an intact file with an empty payload" % rc)
    ctx.distinct.add("every"); s.stop()

def run_readfail(ctx):
    """the kernel refuses to read, or reads less"""
    sp, rnd = ctx.spec, ctx.rnd
    w = base_world(ctx, sp, rnd, 60, shim=True)
    ctl = w.s.ctl
    for _ in range(sp["n"]):
        n = rnd.choice(list(w.ns)); c = w.c(n)
        if not w.ns[n].live: continue
        k = rnd.choice(list(w.ns[n].live)); which = rnd.choice([1, 2]); err = rnd.choice([5, 5, 0])
        v = w.ns[n].live[k][-1].value
        b = ctl.get("reads"); ctl.set(read_fail_at=b + which, read_fail_count=1, read_errno=err)
        f0 = ctl.get("reads")
        r = c.cmd("CHECK", k)
        hit = ctl.get("reads") >= b + which
        ctl.set(read_fail_at=0, read_fail_count=0)
        if hit and r == 1 and not (which == 2 and not v): raise Violation("check-unreadable", "CHECK answered 1 while reading %s failed" % ("the header" if which == 1 else "the payload"))
        if not hit and r != 1: raise Violation("check-accused", "CHECK answered %s" % short(r))
        if hit: ctx.ev.hit("read_failures"); ctx.distinct.add("readfail/%d/%d" % (which, err))
        check(ctx, c, k, 1, "after a read error")
    w.s.stop()

def run_case(ctx): {"crc": run_crc, "live": run_live, "damage": run_damage, "every": run_every, "readfail": run_readfail}[ctx.spec["kind"]](ctx)

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("checksums", 10000), ("checks_valid", 3000), ("checks_corrupt", 3000), ("checks_unreadable", 30), ("tool_damaged", 40), ("tool_intact", 40), ("damage_kernel", 50), ("read_failures", 30), ("rewritten", 10)) if ev.get(k, 0) < n]
