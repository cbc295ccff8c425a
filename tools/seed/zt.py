"""small client and server starter for the demonstrations (self-contained)"""
import atexit, ctypes, os, shutil, signal, socket, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
ZDB = os.path.join(REPO, "zdbd", "zdb")
TMP = tempfile.mkdtemp(prefix="zdemo-")
procs = []
def _end():
    for p in procs:
        if p.poll() is None: p.kill(); p.wait()
    shutil.rmtree(TMP, ignore_errors=True)
atexit.register(_end)

class E(str): "error reply"

class Client:
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX); self.s.settimeout(20); self.s.connect(path); self.b = b""
    def raw(self, b): self.s.sendall(b)
    def enc(self, *a):
        o = b"*%d\r\n" % len(a)
        for x in a:
            if isinstance(x, int): x = str(x)
            if isinstance(x, str): x = x.encode("latin-1")
            o += b"$%d\r\n%s\r\n" % (len(x), x)
        return o
    def send(self, *a): self.raw(self.enc(*a))
    def fill(self):
        d = self.s.recv(1 << 20)
        if not d: raise EOFError("connection closed")
        self.b += d
    def line(self):
        while b"\r\n" not in self.b: self.fill()
        l, self.b = self.b.split(b"\r\n", 1); return l
    def recv(self):
        l = self.line(); t, r = l[:1], l[1:]
        if t == b"+": return r.decode("latin-1")
        if t == b"-": return E(r.decode("latin-1"))
        if t == b":": return int(r)
        if t == b"$":
            n = int(r)
            if n < 0: return None
            while len(self.b) < n + 2: self.fill()
            v, self.b = self.b[:n], self.b[n + 2:]; return v
        if t == b"*":
            return [self.recv() for _ in range(int(r))]
        raise ValueError("bad reply %r" % l)
    def __call__(self, *a): self.send(*a); return self.recv()
    def close(self): self.s.close()

class Zdb:
    def __init__(self, *args, data=None, index=None, env=None, exe=None, cwd=None):
        self.n = len(procs)
        self.data = data or os.path.join(TMP, "data"); self.index = index or os.path.join(TMP, "index")
        self.args = list(args) + ([] if "--datasize" in args else ["--datasize", "1048576"]); self.env = env or {}; self.exe = exe or ZDB; self.cwd = cwd or TMP; self.p = None
    def start(self, wait=30):
        self.sock = os.path.join(TMP, "s%d" % len(procs))
        self.p = subprocess.Popen([self.exe, "--data", self.data, "--index", self.index, "--socket", self.sock] + self.args, cwd=self.cwd,
                                  stdin=subprocess.DEVNULL, stdout=open(os.path.join(TMP, "out"), "ab"), stderr=subprocess.STDOUT, env=dict(os.environ, **self.env))
        procs.append(self.p)
        end = time.time() + wait
        while time.time() < end:
            if self.p.poll() is not None: raise RuntimeError("server exited with %s" % self.p.returncode)
            try: c = Client(self.sock); c.close(); return self
            except OSError: time.sleep(.02)
        raise RuntimeError("server not ready")
    def client(self, ns=None, *pw):
        c = Client(self.sock)
        if ns: ok(c("SELECT", ns, *pw) == "OK", "select %s" % ns)
        return c
    def alive(self): return self.p.poll() is None
    def kill(self): self.p.kill(); self.p.wait()
    def stop(self, sig=signal.SIGINT):
        self.p.send_signal(sig); self.p.wait(20)
    def restart(self): self.stop(); return self.start()

def preload(src):
    """builds a small interceptor"""
    so = os.path.join(TMP, os.path.basename(src) + ".so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, src), "-ldl"], check=True)
    return so

def ok(cond, what):
    if not cond:
        print("FAILED: %s" % (what,)); sys.exit(1)
