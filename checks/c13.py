"""C13: data files are append-only, index files change only within their rules, both always parse and agree."""
import os, struct
from vz import gen, files
from vz.model import Violation, short
from vz.work import World
from vz.resp import Err

PROP = "C13"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: file-rule monitor comparing every data and index byte of all namespaces before and after each command on the ASan/UBSan build, "
             "plus a trace monitor over every write call, plus an independent parser whose replay must equal the model")
NOTE = "random histories; a full byte comparison of all files after every command, so reach is bounded by the number of commands, not by sampling of the files"
RULE = ("evaluations = commands after which all files were compared; distinct = (command, mode, number of files, whether the key lives in an older file); "
        "histories use file jumps, restarts, reloads, several namespaces, colliding keys, timestamps and payloads up to 100 kB")

def cases(tier, seed):
    n = 48 if tier == "quick" else 480
    return [{"kind": "hist", "i": i, "seed": seed * 1000 + i, "mode": [None, "user", "seq"][i % 3],
             "prof": ["tiny", "small", "tiny", "fill"][i % 4], "ops": (260 if tier == "quick" else 900) // (2 if i % 4 == 3 else 1)} for i in range(n)]

class Files:
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.last = None
        self.changed = {}      # ns -> index files with a changed existing entry since the last reset
        self.touched = {}      # ns -> index files written at all
        self.reset_all()
    def reset_all(self):
        for n in self.w.ns: self.changed[n] = set(); self.touched[n] = set()
    def snap(self):
        return {n: files.Store(os.path.join(self.w.s.data, n), os.path.join(self.w.s.index, n)) for n in self.w.ns}
    def bad(self, key, msg): self.w.d.bad(key, msg)

    def compare(self, what, ns=None, key=None, writes=False, load=False):
        """files now against files before; ns/key: the namespace and the key the command was about"""
        cur = self.snap(); old = self.last; self.last = cur
        ev = self.ctx.ev
        if old is None: return cur
        for n, c in cur.items():
            o = old.get(n)
            if o is None: continue
            seq = self.w.ns[n].mode == "seq"
            for kind, co, oo in (("data", c.d, o.d), ("index", c.i, o.i)):
                for f in oo:
                    if f not in co: self.bad("%s-file-removed" % kind, "%s: %s file %d of %s disappeared" % (what, kind, f, n))
                if oo and max(co) > max(oo) and n != ns: self.bad("%s-file-created" % kind, "%s created %s file %d of %s" % (what, kind, max(co), n))
                for f, b in co.items():
                    pb = oo.get(f)
                    if pb is None or pb == b: continue
                    ev.hit("files_changed")
                    if not writes or n != ns:
                        self.bad("%s-changed" % kind, "%s changed %s file %d of %s" % (what, kind, f, n))
                    if len(b) > len(pb) and f != max(oo) and f != max(co):
                        self.bad("%s-old-file-grew" % kind, "%s appended to %s file %d of %s, the active one is %d" % (what, kind, f, n, max(oo)))
                    if kind == "data":
                        if b[:len(pb)] != pb: self.bad("data-rewritten", "%s modified bytes already written in d%d of %s" % (what, f, n))
                        continue
                    self.touched.setdefault(n, set()).add(f)
                    if len(b) < len(pb): self.bad("index-truncated", "%s cut i%d of %s" % (what, f, n))
                    if b[:len(pb)] == pb: continue
                    self.changed.setdefault(n, set()).add(f)
                    if b[:29] != pb[:29]: self.bad("index-header-changed", "%s changed the header of i%d of %s" % (what, f, n))
                    try: po, pn = files.parse_index(pb, f)[1], files.parse_index(b[:len(pb)], f)[1]
                    except files.Bad as e: self.bad(e.args[0], "after %s: %s" % (what, e.args[1]))
                    for x, y in zip(po, pn):
                        if x.raw == y.raw: continue
                        if x.id != y.id or x.off != y.off: self.bad("index-id-changed", "%s changed the id of the entry at %d of i%d of %s" % (what, x.off, f, n))
                        if key is not None and x.id != key: self.bad("index-other-entry", "%s of key %s changed the index entry of %s" % (what, short(key), short(x.id)))
                        a, z = bytearray(x.raw), bytearray(y.raw)
                        a[13] |= 1; z[13] |= 1
                        only_flag = a == z and not x.flags & 1 and y.flags == x.flags | 1
                        ev.hit("index_entries_changed")
                        if only_flag and (what == "DEL" or not seq): continue
                        if seq and what == "SET" and not x.deleted and not y.deleted and y.previous == x.previous: continue
                        self.bad("index-entry-rule", "%s changed the entry of %s at %d of i%d of %s (%s mode) from %s to %s" % (
                            what, short(x.id), x.off, f, n, self.w.ns[n].mode, x.raw[:34].hex(), y.raw[:34].hex()))
        ev.hit("comparisons")
        return cur

    def content(self, st, m):
        """the files parse, agree with each other and with the model"""
        n = m.name
        try: st.parse()
        except files.Bad as e: self.bad(e.args[0], "%s: %s" % (n, e.args[1]))
        want = {"user": 0, "seq": 1}[m.mode]
        for f, mo in st.modes.items():
            if mo != want: self.bad("index-mode", "i%d of %s says mode %d" % (f, n, mo))
        if sorted(st.d) != list(range(len(st.d))) or sorted(st.i) != list(range(len(st.i))) or len(st.d) != len(st.i):
            self.bad("file-numbering", "%s has data files %s and index files %s" % (n, sorted(st.d), sorted(st.i)))
        live = st.replay()
        if set(live) != set(m.live):
            self.bad("replay-keys", "replaying the data files of %s gives %d keys, %d are live; extra %s missing %s" % (n, len(live), len(m.live),
                     short([k for k in live if k not in m.live][:3]), short([k for k in m.live if k not in live][:3])))
        for k, e in live.items():
            v = m.live[k][-1]
            if e.payload != v.value: self.bad("replay-value", "data files of %s give %s for %s, the last value set is %s" % (n, short(e.payload), short(k), short(v.value)))
            if not v.ts_ok(e.ts): self.bad("replay-time", "data files of %s give time %d for %s, expected %s" % (n, e.ts, short(k), (v.lo, v.hi)))
        at = {(e.fid, e.off): e for l in st.data.values() for e in l}
        for l in st.data.values():
            before = None
            for e in l:
                if before is not None and e.previous != before: self.bad("data-previous", "d%d of %s: the entry at %d says that the previous one is at %d, it is at %d" % (e.fid, n, e.off, e.previous, before))
                before = e.off
                if not e.deleted and gen.crc(e.payload) != e.crc: self.bad("data-crc", "d%d of %s at %d: stored checksum %08x, payload %08x" % (e.fid, n, e.off, e.crc, gen.crc(e.payload)))
                if e.flags & ~1: self.bad("data-flags", "d%d of %s at %d flags %d" % (e.fid, n, e.off, e.flags))
        seen = {}
        byoff = {(it.fid, it.off): it for it in st.items()}
        for it in byoff.values():
            if it.flags & ~1: self.bad("index-flags", "i%d of %s at %d flags %d" % (it.fid, n, it.off, it.flags))
            e = at.get((it.dataid, it.offset))
            if e is None: self.bad("index-pointer", "entry of %s at %d of i%d of %s points to %d in d%d where no entry begins" % (short(it.id), it.off, it.fid, n, it.offset, it.dataid))
            if e.id != it.id or e.deleted or len(e.payload) != it.length or e.crc != it.crc or e.ts != it.ts:
                self.bad("index-data-mismatch", "index entry of %s in i%d of %s (length %d crc %08x time %d) points to data entry of %s (length %d crc %08x time %d deleted %d)" % (
                    short(it.id), it.fid, n, it.length, it.crc, it.ts, short(e.id), len(e.payload), e.crc, e.ts, e.deleted))
            if it.deleted: continue
            if it.id in seen: self.bad("index-duplicate", "two live index entries for %s in %s" % (short(it.id), n))
            seen[it.id] = it
            if (it.dataid, it.offset) != (live[it.id].fid, live[it.id].off) if it.id in live else True:
                self.bad("index-stale", "the live index entry of %s in %s does not point to its last data entry" % (short(it.id), n))
        if set(seen) != set(m.live):
            self.bad("index-keys", "index of %s has %d live entries, %d keys are live" % (n, len(seen), len(m.live)))
        if m.mode == "seq":
            for f, l in st.index.items():
                for it in l:
                    if len(it.id) != 8: self.bad("seq-id-size", "i%d of %s has an id of %d bytes" % (f, n, len(it.id)))
        self.ctx.ev.hit("content_checks"); self.ctx.ev.hit("entries_parsed", len(at) + len(byoff))

    def dirty(self, n):
        c = self.w.c(n)
        r = c.cmd("INDEX", "DIRTY")
        if not isinstance(r, list): self.bad("dirty-reply", "INDEX DIRTY answered %s" % short(r))
        got = set(r)
        if len(got) != len(r): self.bad("dirty-reply", "INDEX DIRTY repeats files: %s" % r)
        need, may = self.changed.get(n, set()), self.touched.get(n, set())
        if not need <= got: self.bad("dirty-missing", "INDEX DIRTY of %s gives %s, files with changed entries: %s" % (n, sorted(got), sorted(need)))
        if not got <= may: self.bad("dirty-extra", "INDEX DIRTY of %s gives %s, files written: %s" % (n, sorted(got), sorted(may)))
        self.ctx.ev.hit("dirty_lists"); self.ctx.ev.hit("dirty_files", len(got))
        if self.w.rnd.random() < .4:
            if c.cmd("INDEX", "DIRTY", "RESET") != "OK": self.bad("dirty-reset", "INDEX DIRTY RESET refused")
            self.changed[n] = set(); self.touched[n] = set()
            if c.cmd("INDEX", "DIRTY") != []: self.bad("dirty-reset", "INDEX DIRTY not empty after RESET")

def trace_rules(ctx, w):
    """every write to a data file is an append; writes to index files inside the file are entry-sized"""
    n = 0
    try: f = open(w.s.log)
    except OSError: return
    size = {}
    for line in f:
        ev, op, path, off, ln, ret = line.rstrip("\n").split("\t")
        b = os.path.basename(path)
        if not (b[:1] in "di" and b[1:].isdigit()): continue
        off, ln, ret = int(off), int(ln), int(ret)
        if op == "write":
            n += 1
            cur = size.get(path, 0)
            if b[0] == "d" and off != cur and not (off == 0 and ln == 28): w.d.bad("trace-data-write", "write of %d bytes at %d of %s, which has %d bytes" % (ln, off, b, cur))
            size[path] = max(cur, off + max(ret, 0))
        elif op == "ftruncate": w.d.bad("trace-truncate", "%s truncated" % b) if b[0] == "d" else None
        elif op in ("unlink", "trunc", "rename"): w.d.bad("trace-" + op, "%s on %s" % (op, b))
    ctx.ev.hit("writes_traced", n)

def run_case(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    w = World(ctx, mode=sp["mode"], prof=sp["prof"], nkeys=9, shim=True)
    w.s.ctl.set(log_on=1)
    w.start()
    if sp["mode"] is None: w.nsnew("seqns", "seq"); w.nsnew("userns", "user")
    else: w.nsnew("other")
    F = Files(ctx, w)
    F.last = F.snap()
    names = list(w.ns)
    jumpy = rnd.random() < .6
    d = w.d
    for n in range(sp["ops"]):
        x = rnd.random()
        name = rnd.choice(names); m = w.ns[name]; c = w.c(name)
        ctx.ev.hit("evaluations")
        if x < .5:
            cur = None
            if m.mode == "seq": key = b"" if rnd.random() < .4 else w.key(m)
            else: key = w.key(m)
            older = key in m.live
            v = w.value(m.live.get(key))
            r = d.set(c, m, key, v, rnd.choice([None] * 9 + [5]))
            F.compare("SET", name, r if r is not None and key == b"" else key, writes=r is not None or sp["prof"] == "fill"); act = "SET%d" % older
        elif x < .66:
            key = w.key(m); live = key in m.live
            d.delete(c, m, key); F.compare("DEL", name, key, writes=live); act = "DEL%d" % live
        elif x < .80:
            act = w.step(name, dict(set=0, new=0, delete=0, jump=0, badid=0)); F.compare(act)
        elif x < .80 + (.08 if jumpy else .02): w.jump(name); F.compare("NSJUMP", name, writes=True); act = "NSJUMP"
        elif x < .93: F.dirty(name); F.compare("INDEX DIRTY"); act = "DIRTY"
        elif x < .97: F.content(F.last[name], m); act = "content"
        elif x < .98: w.reload(name); F.compare("RELOAD", load=True); F.changed[name] = set(); F.touched[name] = set(); act = "RELOAD"
        elif x < .985: w.restart(); F.compare("restart"); F.reset_all(); act = "restart"
        else: d.bad if w.steps < 0 else None; act = w.step(name, dict(set=0, new=0, delete=0, jump=0, badid=50)); F.compare("bad id", name, writes=False)
        ctx.distinct.add("%s/%s/%d" % (act, m.mode, min(len(F.last[name].d), 12)))
    for n in names: F.content(F.last[n], w.ns[n]); F.dirty(n)
    w.verify_all()
    F.compare("reads")
    w.restart(); F.compare("restart"); w.verify_all()
    nf = {n: len(F.last[n].d) for n in names}
    w.s.stop()
    F.compare("stop")
    trace_rules(ctx, w)
    ctx.sample = {"mode": sp["mode"], "files": nf, "comparisons": ctx.ev.get("comparisons")}

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("comparisons", 8000), ("content_checks", 300), ("dirty_lists", 200), ("dirty_files", 100), ("writes_traced", 5000),
            ("index_entries_changed", 2000)) if ev.get(k, 0) < n]
