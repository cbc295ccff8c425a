"""Runs the monitored daemon inside a scratch directory."""
import os, resource, subprocess, time, signal, mmap, struct, ctypes, re, shutil, tempfile, atexit, glob
from . import resp

class Crash(Exception):
    """the server died on its own; .key names the failure"""
    def __init__(self, key, text):
        super().__init__(key)
        self.key, self.text = key, text

class StartError(Exception):
    def __init__(self, code, text):
        super().__init__("exit %s: %s" % (code, text[-600:]))
        self.code, self.text = code, text

_libc = ctypes.CDLL(None)
def _pdeath():
    _libc.prctl(1, 9, 0, 0, 0)

def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))       # a server which never stops printing would fill the disk
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    _pdeath()

def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (6 << 30): return d
        except OSError: pass
    return "/tmp"

FSIZE = 512 << 20

class Scratch:
    """a private directory removed at the end"""
    def __init__(self, tag="c"):
        self.path = tempfile.mkdtemp(prefix="vz-%s-" % tag, dir=scratch_base())
    def __enter__(self): return self.path
    def __exit__(self, *a): self.remove()
    def remove(self):
        p = self.path
        if p and os.path.basename(p).startswith("vz-"):
            for r, ds, fs in os.walk(p):
                for x in ds:
                    try: os.chmod(os.path.join(r, x), 0o700)
                    except OSError: pass
            shutil.rmtree(p, ignore_errors=True)
        self.path = None

ASAN = ("abort_on_error=1:handle_segv=2:allow_user_segv_handler=0:handle_abort=1:detect_leaks=%d:"
        "detect_stack_use_after_return=1:malloc_context_size=12:fast_unwind_on_malloc=1:"
        "allocator_may_return_null=1:quarantine_size_mb=16:exitcode=77:max_allocation_size_mb=8192")

class Ctl:
    """control block of shim.c"""
    F = dict(events=8, writes=16, kill_at=24, torn_len=32, fail_at=40, fail_count=48, fail_errno=56, short_len=64,
             erofs=72, log_on=80, sends=88, failed=96, last_len=104, killed=136, erofs_denied=144,
             read_fail_at=152, read_fail_count=160, read_errno=168, reads=176, fail_sync=184, fail_opens=192, time_off=200, fail_fork=208, forks=216,
             ropens=224, ropen_fail_at=232, ropen_fail_count=240, sndbuf=248, send_max=256, cut=264)
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f: f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)
    def get(self, n): return struct.unpack_from("<q", self.m, self.F[n])[0]
    def set(self, **kw):
        for n, v in kw.items(): struct.pack_into("<q", self.m, self.F[n], v)
    def reset(self): self.m[0:4096] = b"\0" * 4096
    def close(self):
        self.m.close(); self.f.close()

_seq = [0]

class Server:
    def __init__(self, build, base, args=(), data=None, index=None, shim=False, leaks=False, env=None,
                 exe="zdb", datasize=524289, sock=True, timeout=60.0, ctl=None, logs=True, cwd=None, quiet=True, wrap=(), user=None, narrow=None):
        self.user = user          # uid to run as
        self.wrap = list(wrap)
        self.quiet = quiet and not os.environ.get("VZ_LOUD")
        self.build, self.base, self.args = build, base, list(args)
        self.data = data or os.path.join(base, "data")
        self.index = index or os.path.join(base, "index")
        _seq[0] += 1
        self.sockpath = os.path.join(base, "s%d" % _seq[0]) if sock else None
        self.out = os.path.join(base, "out%d.txt" % _seq[0])
        self.proc = None
        self.timeout = timeout
        self.leaks = leaks
        self.datasize = datasize
        self.exe = exe
        self.env = dict(env or {})
        self.log = os.path.join(base, "shim%d.log" % _seq[0])
        self.ctl = ctl
        self.cwd = cwd or base
        self.clients = []
        # (send buffer, longest send) of the unix sockets
        if narrow: shim = True
        if shim and not ctl: self.ctl = Ctl(os.path.join(base, "ctl%d" % _seq[0]))
        if narrow: self.ctl.set(sndbuf=narrow[0], send_max=narrow[1])
        self.starts = 0

    def binary(self):
        exe = os.path.join(self.build, self.exe)
        if self.user:
            p = exe
            while len(p) > 1:
                if not os.stat(p).st_mode & 1:      # not reachable for that user
                    t = os.path.join(self.base, self.exe + "-copy")
                    if not os.path.exists(t): shutil.copy2(exe, t); os.chmod(t, 0o755)
                    return t
                p = os.path.dirname(p)
        return exe

    def own(self):
        """gives the directory of the server to its user"""
        os.chown(self.base, self.user, self.user)
        for r, ds, fs in os.walk(self.base):
            for x in ds + fs: os.chown(os.path.join(r, x), self.user, self.user, follow_symlinks=False)
        p = os.path.dirname(self.base)
        while "vz-" in p:
            os.chmod(p, 0o711); p = os.path.dirname(p)

    def preexec(self):
        if self.user:
            os.setgroups([]); os.setgid(self.user); os.setuid(self.user)
        limits()

    def cmdline(self):
        c = [self.binary(), "--data", self.data, "--index", self.index]
        if self.sockpath: c += ["--socket", self.sockpath]
        if self.datasize: c += ["--datasize", str(self.datasize)]
        return self.wrap + c + self.args

    def environ(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("ZSHIM", "ASAN", "UBSAN", "LSAN"))}
        env["ASAN_OPTIONS"] = ASAN % (1 if self.leaks else 0)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
        env["LSAN_OPTIONS"] = "exitcode=78"
        env["MSAN_OPTIONS"] = "abort_on_error=1:handle_segv=2:allow_user_segv_handler=0:handle_abort=1:allocator_may_return_null=1:poison_in_dtor=1"
        if self.quiet: env["ZSHIM_QUIET"] = "1"
        if self.ctl:
            os.makedirs(self.data, exist_ok=True); os.makedirs(self.index, exist_ok=True)
            env["ZSHIM_CTL"] = self.ctl.path
            env["ZSHIM_ROOT0"], env["ZSHIM_ROOT1"] = self.data, self.index
            env["ZSHIM_LOG"] = self.log
        env.update(self.env)
        return env

    def spawn(self):
        env = self.environ()
        if self.user: self.own()
        self.o = open(self.out, "ab")
        self.proc = subprocess.Popen(self.cmdline(), stdin=subprocess.DEVNULL, stdout=self.o, stderr=self.o,
                                     env=env, cwd=self.cwd, preexec_fn=self.preexec, close_fds=True)
        self.o.close()
        self.starts += 1

    def start(self, wait=60.0):
        self.spawn()
        end = time.monotonic() + wait
        d = 0.002
        while True:
            if self.proc.poll() is not None:
                self.check_dead(expected=None)
                raise StartError(self.proc.returncode, self.output())
            if self.ready(): return self
            if time.monotonic() > end:
                if self.stalled() == "hang": raise Crash("hang", "the server never becomes ready\n" + self.output()[-3000:])
                self.kill(); raise resp.Timeout("server not ready: " + self.output()[-400:])
            time.sleep(d); d = min(d * 1.3, 0.03)

    def ready(self):
        if not self.sockpath: return True
        if not os.path.exists(self.sockpath): return False
        try:
            c = resp.Client(self.sockpath, timeout=max(5.0, self.timeout))
        except OSError:
            return False
        try:
            c.cmd("PING")
            return True
        except (resp.Closed, resp.Timeout, OSError):
            return False
        finally:
            c.close()

    def client(self, timeout=None):
        try:
            c = resp.Client(self.sockpath, timeout=timeout or self.timeout)
        except OSError as e:
            raise resp.Closed("connect: %s" % e)
        self.clients.append(c)
        return c

    def output(self):
        try:
            with open(self.out, "rb") as f:
                f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 200000))
                return f.read().decode("latin-1")
        except OSError: return ""

    def close_clients(self):
        for c in self.clients: c.close()
        self.clients = []

    def alive(self): return self.proc is not None and self.proc.poll() is None

    def report(self):
        """sanitizer report in the output, as (key, text), or None"""
        return sanitizer_report(self.output())

    stopped = None      # the process which was stopped on purpose

    def check_dead(self, expected=(0,)):
        """raises Crash when the process ended with a sanitizer report or a signal"""
        rc = self.proc.returncode
        rep = self.report()
        if rep: raise Crash(*rep)
        if rc is not None and rc < 0 and -rc not in (signal.SIGKILL, signal.SIGINT, signal.SIGTERM):
            raise Crash("signal:%d" % -rc, self.output()[-3000:])
        if rc in (128 + 11, 128 + 6):
            raise Crash("signal:%d" % (rc - 128), self.output()[-3000:])
        if expected is not None and rc not in expected:
            raise Crash("exit:%s" % rc, self.output()[-3000:])

    def usage(self):
        """(state, seconds of processor used) of the server"""
        try:
            with open("/proc/%d/stat" % self.proc.pid) as f: x = f.read().rsplit(")", 1)[1].split()
            return x[0], (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, AttributeError): return "X", 0.0

    def stalled(self):
        """after a timeout: "hang" when the server never comes back to its clients, "no-reply" when it serves others, None when unknown"""
        if not self.alive(): return None
        s, a = self.usage(); t = time.monotonic()
        if self.sockpath:
            try:
                c = resp.Client(self.sockpath, timeout=30)
                try: c.cmd("PING"); return "no-reply"
                finally: c.close()
            except (OSError, resp.Closed, resp.Timeout): pass
        else: time.sleep(10)
        s, b = self.usage(); t = time.monotonic() - t
        if t > 5 and b - a > t * .5: return "hang"
        return None

    def diagnose(self):
        """after a lost connection: raise Crash when the server is gone"""
        if self.stopped is self.proc: return
        end = time.monotonic() + 10
        while time.monotonic() < end:
            if self.proc.poll() is not None:
                self.check_dead(expected=())
            if self.sockpath:
                try:
                    c = resp.Client(self.sockpath, timeout=10)
                    try:
                        c.cmd("PING"); return
                    finally: c.close()
                except (OSError, resp.Closed): pass
                except resp.Timeout: return
            time.sleep(0.02)

    def stop(self, how="STOP", wait=60.0):
        """graceful stop; returns the exit code"""
        if self.proc is None: return None
        if self.proc.poll() is None:
            if how == "STOP":
                try:
                    c = resp.Client(self.sockpath, timeout=wait)
                    c.send("STOP")
                    try: c.recv()
                    except resp.Closed: pass
                    c.close()
                except (OSError, resp.Closed):
                    pass
            else:
                self.proc.send_signal(getattr(signal, how))
            self.close_clients()
            try: self.proc.wait(wait)
            except subprocess.TimeoutExpired:
                if self.stalled() == "hang": raise Crash("hang", "the server never stops\n" + self.output()[-3000:])
                self.kill()
                raise resp.Timeout("server did not stop")
        self.close_clients()
        rc = self.proc.returncode
        ok = {"STOP": (0,), "SIGINT": (130, -2), "SIGTERM": (143, -15)}.get(how, (0,))
        self.check_dead(expected=ok)
        self.stopped = self.proc
        return rc

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        self.close_clients()

    def cleanup(self):
        try: self.kill()
        except Exception: pass
        if self.ctl:
            try: self.ctl.close()
            except Exception: pass

    def __enter__(self): return self
    def __exit__(self, *a): self.cleanup()

_frame = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ (?:in )?(\S+)", re.M)
SKIPF = ("__asan", "__interceptor", "__wrap_", "__sanitizer", "__lsan", "__ubsan", "__pthread_kill", "__GI_", "raise", "abort",
         "mem", "str", "printf", "malloc", "calloc", "realloc", "free", "handle", "(", "/")
def sanitizer_report(text):
    u = re.search(r"([^\s:]+\.c):(\d+):\d+: runtime error: ([^\n]*)", text)
    m = re.search(r"==\d+==(?:ERROR|WARNING): (AddressSanitizer|LeakSanitizer|MemorySanitizer): ([^\n]*)", text)
    if u and (not m or u.start() < m.start()):
        tail = text[u.start():u.start() + 5000]
        fr = [f for f in _frame.findall(tail) if not f.startswith(SKIPF)]
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", u.group(3))[:70]
        return ("ubsan:%s:%s" % (what.replace(" ", "-"), fr[0] if fr else u.group(1).split("/")[-1]), tail)
    if m:
        kind = m.group(2).split(" on ")[0].split(" (")[0].strip()
        kind = re.sub(r"0x[0-9a-f]+|\d+ byte\(s\)", "", kind)[:60].strip()
        tail = text[m.start():]
        fr = [f for f in _frame.findall(tail[:6000]) if not f.startswith(SKIPF)]
        return ("%s:%s:%s" % ({"A": "asan", "L": "lsan", "M": "msan"}[m.group(1)[0]], kind.replace(" ", "-"), fr[0] if fr else "?"), tail[:5000])
    m = re.search(r"fatal: segmentation fault", text)
    if m: return ("segv", text[max(0, m.start() - 1500):m.start() + 500])
    return None
