"""C09: authentication, namespace passwords, privileges."""
import os, hashlib
from vz import gen
from vz.model import NS, Driver, short
from vz.resp import Err, Status, Closed, enc
from checks.c08 import tree

PROP, LEVEL = "C09", "exploration"
TECHNIQUE = "runtime monitoring: online checker of a privilege model per connection (admin, namespace, writable, challenge) over random multi-connection histories, with side-effect snapshots around refused commands, ASan+UBSan"
NOTE = "each connection's privileges modelled and every reply compared with them; hostile passwords are derived from the real ones; refused commands compared with file and settings snapshots"
RULE = "one distinct = (command or credential kind, privilege of the connection, protection of the namespace, server flags)"

def cases(tier, seed):
    out = []
    for i in range(32 if tier == "quick" else 260):
        out.append({"kind": "hist", "i": i, "seed": seed * 1000 + i, "ops": 1200 if tier == "quick" else 4000,
                    "flags": ["admin", "admin", "protect", "none", "admin-seq", "protect-release", "admin"][i % 7]})
    return out

def secure(nonce, pw): return hashlib.sha1(nonce.encode("latin-1") + b":" + pw.encode("latin-1")).hexdigest()

PWS = ["secret", "Secret", "s", "pass word", "%s%n%d", "a" * 63, "a" * 62, "\xe9\xff\x80", "*x", "SECURE", "CHALLENGE", "secretsecret", "0", "-1", "x\r\ny", "default", " lead"]

class Conn:
    def __init__(self, w):
        self.c = w.s.client()
        self.admin = not w.adminpw
        self.ns = w.ns["default"]
        self.writable = not w.protect
        self.nonce = None
        self.old = []          # challenges no longer valid
        self.master = False

class P:
    def __init__(self, ctx):
        self.ctx, self.rnd, self.ev = ctx, ctx.rnd, ctx.ev
        f = ctx.spec["flags"]
        self.flags = f
        self.adminpw = None if f == "none" else self.rnd.choice(["adminpass", "A", "admin word", "%s%s", "x" * 100, "z" * 128, "SECURE"])
        self.protect = f.startswith("protect")
        args = []
        if self.adminpw: args += ["--admin", self.adminpw]
        if self.protect: args += ["--protect"]
        self.mode = "seq" if f == "admin-seq" else "user"
        if self.mode == "seq": args += ["--mode", "seq"]
        self.variant = "release" if f.endswith("release") else "asan"
        self.s = ctx.server(self.variant, None, args=args, datasize=524289)
        self.d = Driver(ctx.ev)
        self.ns = {}
        self.ids = {}
        self.add("default")
        if self.protect: self.ns["default"].password = self.adminpw
        self.uniq = 0
        self.retired = []       # challenges of closed connections
        self.pool = {}

    def add(self, name):
        m = self.ns[name] = NS(name, self.mode)
        return m

    def start(self):
        self.s.start()
        self.conns = []
        self.root = Conn(self)
        if self.adminpw:
            r = self.root.c.cmd("AUTH", self.adminpw)
            if r != "OK": self.d.bad("auth-good", "AUTH with the admin password answered %s" % short(r))
            self.root.admin = True
        for _ in range(4): self.conns.append(Conn(self))

    def populate(self, m):
        """a key which identifies the namespace"""
        c = self.s.client()
        if self.adminpw: c.cmd("AUTH", self.adminpw)
        self.must(c, m)
        if self.mode == "seq":
            self.pool[m.name] = [self.d.set(c, m, b"", b"whoami " + m.name.encode()) for _ in range(2)]
        else:
            for k in (b"whoami", b"k2"): self.d.set(c, m, k, b"whoami " + m.name.encode() + k)
            self.pool[m.name] = [b"whoami", b"k2"]
        c.close()

    def must(self, c, m):
        r = c.cmd("SELECT", m.name, m.password) if m.password else c.cmd("SELECT", m.name)
        if r != "OK": self.d.bad("select-good", "SELECT %s with the right password answered %s" % (m.name, short(r)))

    def wrong(self, pw, prefix_ok=False):
        """something that is not pw, but close to it"""
        rnd = self.rnd
        pw = pw or "secret"
        others = [x.password for x in self.ns.values() if x.password] + ([self.adminpw] if self.adminpw else [])
        l = [pw[:-1], pw + "x", pw + "\0", pw + "\0junk", "\0" + pw, pw[1:], "".join(ch.swapcase() if ord(ch) < 128 else ch for ch in pw), pw + " ", " " + pw, "", "*", pw * 2, pw + "a" * (128 - len(pw) % 128), pw + "\r\n",
             "a" * 255, "a" * 256, "b" * 1000, "\0", pw[:1], "SECURE", "CHALLENGE", pw[:len(pw) // 2] + "\0" + pw[len(pw) // 2 + 1:], pw + "\0" * 200, pw + "\0" * (255 - len(pw))] + others + PWS
        for _ in range(50):
            x = rnd.choice(l)
            if x != pw: return x
        return "no"

    def wrong_hash(self, cn, pw):
        rnd = self.rnd
        pw = pw or "secret"
        n = cn.nonce or "0" * 16
        l = [secure(n, pw)[:-1], secure(n, pw) + "0", secure(n, self.wrong(pw)), secure("", pw), secure("0" * 16, pw), pw, "0" * 40, "\0" * 40, secure(n, "")]
        h = secure(n, pw)
        l.append(h[:39] + ("0" if h[39] != "0" else "1")); l.append(("0" if h[0] != "0" else "1") + h[1:])
        l += [h[:k] + "\0" * (40 - k) for k in (0, 1, 20, 39)]
        for o in cn.old[-3:] + self.retired[-3:]: l += [secure(o, pw)] * 2
        for o in self.conns:
            if o is not cn and o.nonce: l += [secure(o.nonce, pw)] * 2
        good = secure(cn.nonce, pw) if cn.nonce else None
        for _ in range(50):
            x = rnd.choice(l)
            if x != good: return x
        return "0" * 40

    def who(self, cn):
        """the connection still sees the namespace it is attached to, with the rights it had"""
        m = cn.ns
        for k in self.pool[m.name]: self.d.read(cn.c, m, k)
        self.write(cn)

    def write(self, cn):
        m, d = cn.ns, self.d
        self.uniq += 1
        v = b"w%d" % self.uniq
        k = self.rnd.choice(self.pool[m.name])
        if self.mode == "seq" and self.rnd.random() < .3: k = b""
        self.ctx.distinct.add("write/%s/%s/%s/%s" % (cn.admin, cn.writable, bool(m.password), self.flags))
        if cn.writable: d.set(cn.c, m, k, v); self.ev.hit("writes_allowed")
        else:
            op = self.rnd.choice(["SET", "SETX", "DEL", "SETTS", "DELTS", "FLUSH"])
            if op == "DEL": a = ("DEL", k or b"x")
            elif op == "SETTS": a = ("SET", k, v, "7")
            elif op == "DELTS": a = ("DEL", k or b"x", "7")
            elif op == "FLUSH": a = ("FLUSH",)
            else: a = (op, k, v)
            r = cn.c.cmd(*a)
            if not isinstance(r, Err): d.bad("readonly-" + op, "%s accepted on a read-only connection (%s): %s" % (op, m.name, short(r)))
            d.read(cn.c, m, self.rnd.choice(self.pool[m.name]))
            self.ev.hit("writes_refused")

    ADM = ["NSNEW", "NSDEL", "NSSET", "NSJUMP", "RELOAD", "HOOKS", "INDEXDIRTY", "INDEXRESET", "DATARAW", "SETTS", "DELTS", "MIRROR", "MASTER"]
    def privileged(self, cn):
        """an administrative command from a connection without the privilege"""
        rnd, d = self.rnd, self.d
        m = rnd.choice(list(self.ns.values()))
        k = rnd.choice(self.pool[cn.ns.name])
        op = rnd.choice(self.ADM)
        a = {"NSNEW": ("NSNEW", "evil%d" % self.uniq), "NSDEL": ("NSDEL", m.name),
             "NSSET": ("NSSET", m.name) + rnd.choice([("password", "*"), ("public", "1"), ("maxsize", "1"), ("lock", "1"), ("freeze", "1"), ("worm", "1"), ("mode", "seq"), ("password", "evil")]),
             "NSJUMP": ("NSJUMP",), "RELOAD": ("RELOAD", m.name), "HOOKS": ("HOOKS",), "INDEXDIRTY": ("INDEX", "DIRTY"), "INDEXRESET": ("INDEX", "DIRTY", "RESET"),
             "DATARAW": ("DATA", "RAW", "0", "26"), "SETTS": ("SET", k, b"evil", "1"), "DELTS": ("DEL", k, "1"), "MIRROR": ("MIRROR",), "MASTER": ("MASTER",)}[op]
        if rnd.random() < .1: a = (a[0].lower(),) + a[1:]
        # rights on a namespace its own does not need: not applicable to non admins, whatever they selected
        b = tree(self.s.data, self.s.index) if rnd.random() < .25 else None
        r = cn.c.cmd(*a)
        self.ctx.distinct.add("priv/%s/%s/%s" % (op, cn.writable, self.flags)); self.ev.hit("privileged_refused")
        if not isinstance(r, Err): d.bad("priv-" + op, "%s accepted from a connection without admin rights: %s" % (" ".join(a[:2]), short(r)))
        if b is not None and tree(self.s.data, self.s.index) != b: d.bad("priv-effect-" + op, "refused %s changed files" % a[0])
        if op in ("MIRROR", "MASTER"): d.read(cn.c, cn.ns, k)
        d.check_nsinfo(self.root.c, m)
        if op == "NSNEW":
            if a[1].encode() in self.root.c.cmd("NSLIST"): d.bad("priv-effect-NSNEW", "refused NSNEW created the namespace")

    def admin_ops(self, cn):
        """what an administrator may do works"""
        rnd, d = self.rnd, self.d
        op = rnd.choice(["HOOKS", "INDEX", "NSJUMP", "RELOAD", "SETTS", "NSSET"])
        self.ctx.distinct.add("admin/%s/%s" % (op, self.flags)); self.ev.hit("privileged_allowed")
        if op == "HOOKS": r = cn.c.cmd("HOOKS"); ok = isinstance(r, list)
        elif op == "INDEX": r = cn.c.cmd("INDEX", "DIRTY"); ok = isinstance(r, list)
        elif op == "NSJUMP": r = cn.c.cmd("NSJUMP"); ok = r == "OK"
        elif op == "RELOAD": r = cn.c.cmd("RELOAD", rnd.choice(list(self.ns))); ok = r == "OK"
        elif op == "NSSET": ok = True; self.settings(cn); r = None
        else:
            if not cn.writable: return
            d.set(cn.c, cn.ns, rnd.choice(self.pool[cn.ns.name]), b"ts%d" % rnd.randrange(10**9), 12345); ok = True; r = None
        if not ok: d.bad("admin-" + op, "%s refused to an administrator: %s" % (op, short(r)))

    def settings(self, cn):
        rnd = self.rnd
        l = [n for n in self.ns if n != "default"]
        if not l: return
        m = self.ns[rnd.choice(l)]
        if rnd.random() < .55:
            v = rnd.choice(PWS + ["*", "*"])
            r = cn.c.cmd("NSSET", m.name, "password", v); m.password = None if v == "*" else v
        else:
            v = rnd.choice([0, 1]); r = cn.c.cmd("NSSET", m.name, "public", str(v)); m.public = bool(v)
        if r != "OK": self.d.bad("nsset", "NSSET answered %s" % short(r))
        self.ev.hit("settings")

    def auth(self, cn):
        rnd, d = self.rnd, self.d
        kind = rnd.choice(["challenge", "challenge", "plain-good", "plain-bad", "plain-bad", "secure-good", "secure-bad", "secure-bad", "secure-bad", "junk"])
        self.ctx.distinct.add("auth/%s/%s/%s/%s" % (kind, cn.admin, bool(cn.nonce), self.flags)); self.ev.hit("auths")
        if kind == "challenge":
            r = cn.c.cmd("AUTH", "SECURE", "CHALLENGE")
            if not (isinstance(r, Status) and len(r) >= 16): d.bad("challenge", "CHALLENGE answered %s" % short(r))
            if cn.nonce: cn.old.append(cn.nonce)
            if str(r) in self.allnonce: d.bad("challenge-repeat", "the challenge %s was issued before" % r)
            self.allnonce.add(str(r))
            cn.nonce = str(r); self.ev.hit("challenges")
            return
        good = False
        if kind == "plain-good": a = ("AUTH", self.adminpw or "x"); good = bool(self.adminpw)
        elif kind == "plain-bad": a = ("AUTH", self.wrong(self.adminpw))
        elif kind == "secure-good":
            a = ("AUTH", "SECURE", secure(cn.nonce or "0" * 16, self.adminpw or "x")); good = bool(self.adminpw and cn.nonce)
        elif kind == "secure-bad": a = ("AUTH", "SECURE", self.wrong_hash(cn, self.adminpw))
        else: a = rnd.choice([("AUTH",), ("AUTH", "PLAIN", self.adminpw or "x"), ("AUTH", self.adminpw or "x", self.adminpw or "x"), ("AUTH", "", self.adminpw or ""), ("AUTH", "SECURE", "x", "y"), ("AUTH", "SECUREX", secure(cn.nonce or "", self.adminpw or ""))])
        r = cn.c.cmd(*a)
        if good:
            if r != "OK": d.bad("auth-good", "%s with the right credentials answered %s" % (kind, short(r)))
            cn.admin = True; self.ev.hit("auth_granted")
        elif not isinstance(r, Err): d.bad("auth-" + kind, "%s accepted (%s): %s" % (kind, short(a[1:]), short(r)))
        if len(a) == 3 and a[1] == "SECURE" and cn.nonce and self.adminpw and (good or len(a[2]) == 40):
            cn.old.append(cn.nonce); cn.nonce = None     # used
        elif kind in ("secure-bad", "junk") and cn.nonce and self.adminpw: self.requery(cn)

    def requery(self, cn):
        """whether a malformed attempt uses the challenge up is not specified: take a new one"""
        cn.old.append(cn.nonce); cn.nonce = None
        r = cn.c.cmd("AUTH", "SECURE", "CHALLENGE"); cn.nonce = str(r); self.allnonce.add(str(r))

    def select(self, cn):
        rnd, d = self.rnd, self.d
        m = rnd.choice(list(self.ns.values()))
        pw = m.password
        kind = rnd.choice(["nopass", "nopass", "good", "good", "bad", "bad", "secure-good", "secure-bad", "secure-bad", "method", "missing"])
        self.ctx.distinct.add("select/%s/%s/%s/%s/%s" % (kind, bool(pw), m.public, bool(cn.nonce), cn.admin)); self.ev.hit("selects")
        if kind == "missing": a, ok = ("SELECT", "nothere" + m.name) + ((pw,) if pw else ()), False
        elif kind == "nopass": a, ok = ("SELECT", m.name), not pw or m.public
        elif kind == "good": a, ok = ("SELECT", m.name, pw or "any"), True
        elif kind == "bad": a, ok = ("SELECT", m.name, self.wrong(pw)), not pw
        elif kind == "method": a, ok = ("SELECT", m.name, "PLAIN", pw or "x"), not pw
        elif kind == "secure-good": a, ok = ("SELECT", m.name, "SECURE", secure(cn.nonce or "0" * 16, pw or "x")), not pw or bool(cn.nonce)
        else: a, ok = ("SELECT", m.name, "SECURE", self.wrong_hash(cn, pw)), not pw
        r = cn.c.cmd(*a)
        if ok:
            if r != "OK": d.bad("select-refused", "SELECT (%s) of a namespace (password %s, public %s) answered %s" % (kind, bool(pw), m.public, short(r)))
            cn.ns = m; cn.writable = not pw or kind in ("good", "secure-good"); self.ev.hit("select_granted")
        else:
            if not isinstance(r, Err): d.bad("select-" + kind, "SELECT %s accepted with wrong credentials (%s): %s" % (m.name, short(a[2:]), short(r)))
            self.ev.hit("select_refused")
        if pw and kind.startswith("secure") and cn.nonce:
            if len(a[3]) == 40: cn.old.append(cn.nonce); cn.nonce = None
            else: self.requery(cn)
        self.who(cn)

    def reveal(self, cn):
        """information which is not for everybody"""
        m = self.rnd.choice(list(self.ns.values()))
        i = cn.c.cmd("NSINFO", m.name)
        if not isinstance(i, bytes): self.d.bad("nsinfo", "NSINFO answered %s" % short(i))
        if not cn.admin and (b"data_path" in i or b"index_path" in i): self.d.bad("reveal-path", "NSINFO shows paths to a client without admin rights")
        if not cn.master and (b"password_raw" in i): self.d.bad("reveal-password", "NSINFO shows the password")
        self.ev.hit("reveals")

    def reconnect(self, n):
        o = self.conns[n]
        if o.nonce: self.retired.append(o.nonce)
        self.retired += o.old[-1:]
        o.c.close()
        # often wait until the server has seen it, so that the descriptor is used again
        self.root.c.cmd("PING")
        self.conns[n] = Conn(self)
        self.ev.hit("reconnects")

def run_case(ctx):
    sp, rnd = ctx.spec, ctx.rnd
    p = P(ctx); p.allnonce = set(); p.start()
    p.populate(p.ns["default"])
    for n in ("priv", "pub", "open"):
        r = p.root.c.cmd("NSNEW", n)
        if r != "OK": p.d.bad("nsnew", "NSNEW answered %s" % short(r))
        m = p.add(n)
        if n != "open":
            for a, v in (("password", rnd.choice(PWS)), ("public", "1" if n == "pub" else "0")):
                r = p.root.c.cmd("NSSET", n, a, v)
                if r != "OK": p.d.bad("nsset", "NSSET answered %s" % short(r))
                if a == "password": m.password = v
                else: m.public = v == "1"
        p.populate(m)
    for n in range(sp["ops"]):
        ctx.ev.hit("evaluations")
        i = rnd.randrange(len(p.conns)); cn = p.conns[i]
        x = rnd.random()
        if x < .30: p.auth(cn)
        elif x < .60: p.select(cn)
        elif x < .80:
            if cn.admin: p.admin_ops(cn)
            else: p.privileged(cn)
        elif x < .88: p.who(cn)
        elif x < .91: p.reveal(cn)
        elif x < .95: p.settings(p.root)
        elif x < .99: p.reconnect(i)
        elif x < .992:
            how = rnd.choice(["SIGINT", "SIGTERM"] + ([] if p.variant == "release" else ["STOP"]))
            p.s.stop(how); p.retired += [c.nonce for c in p.conns if c.nonce]; p.start(); ctx.ev.hit("restarts")
            for m in p.ns.values(): p.d.check_nsinfo(p.root.c, m)
        else: p.who(cn)
    for cn in p.conns: p.who(cn)
    ctx.sample = {"flags": sp["flags"], "granted": ctx.ev.get("auth_granted"), "select_refused": ctx.ev.get("select_refused")}
    p.s.stop("SIGINT" if p.variant == "release" else "STOP")

def finish(ev, tier):
    return ["too few %s observed: %d" % (k, ev.get(k, 0)) for k, n in (("privileged_refused", 1500), ("privileged_allowed", 500), ("auth_granted", 500), ("select_granted", 2000), ("select_refused", 1500),
            ("writes_refused", 800), ("writes_allowed", 2000), ("challenges", 1000), ("reconnects", 500), ("restarts", 20)) if ev.get(k, 0) < n]
