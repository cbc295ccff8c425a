"""Builds the monitored binaries from /repo's current working tree.

All .c files of libzdb and zdbd are taken (so added or removed sources are
followed), compiled with the requested instrumentation and linked with the
interceptor vz/shim.c.  Output goes to /verif/.build (ignored by git), keyed by
the hash of every input."""
import hashlib, os, subprocess, sys, glob, fcntl, shutil, platform
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VZ_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.path.join(VERIF, ".build")

WRAP = ("write pwrite pwrite64 writev pwritev read ftruncate ftruncate64 truncate fsync fdatasync syncfs sync "
        "sync_file_range fallocate fallocate64 posix_fallocate open open64 openat openat64 creat unlink remove "
        "unlinkat rmdir mkdir rename renameat access accept accept4 send sendto sendmsg printf fprintf puts putchar time gettimeofday clock_gettime fork").split()
WRAPFLAGS = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]

BASE = ["-g", "-w", "-U_FORTIFY_SOURCE", "-std=gnu11", '-DZDB_REVISION="verif"', '-DZDBD_REVISION="verif"']
if platform.machine() == "x86_64":
    BASE.append("-msse4.2")

VARIANTS = {
    # the project's own configuration (debug), plus ASan and UBSan, reports fatal
    "asan": ["gcc", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all", "-fno-sanitize=alignment"]],
    "plain": ["gcc", ["-O1"]],
    # the asan variant, reporting the edges it executes
    "cov": ["gcc", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                    "-fno-sanitize-recover=all", "-fno-sanitize=alignment", "-fsanitize-coverage=trace-pc"]],
    # uninitialised memory (every linked object needs the instrumentation: no interceptor)
    "msan": ["clang", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins"]],
    # live allocations per site
    "track": ["gcc", ["-O1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]],
    # checksums without the instructions of the processor
    "soft": ["gcc", ["-O1", "-mno-sse4.2"]],
    # the production configuration
    "release": ["gcc", ["-O2", "-DRELEASE"]],
}

class BuildError(Exception):
    pass

def _sources():
    src = {"lib": sorted(glob.glob(REPO + "/libzdb/*.c")), "daemon": sorted(glob.glob(REPO + "/zdbd/*.c"))}
    hdr = sorted(glob.glob(REPO + "/libzdb/*.h") + glob.glob(REPO + "/zdbd/*.h"))
    return src, hdr

TOOLS = {
    "index-rebuild": "tools/index-rebuild", "integrity-check": "tools/integrity-check",
    "index-dump": "tools/index-dump", "namespace-dump": "tools/namespace-dump",
    "namespace-editor": "tools/namespace-editor", "quick-compact": "tools/quick-compaction",
}

def _hash(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

def build(variant="asan", tools=(), extra=None):
    """Returns the directory that holds zdb (and the tools asked for).
    extra: {name: [sources]} additional programs linked with libzdb."""
    extra = extra or {}
    cc, flags = VARIANTS[variant]
    src, hdr = _sources()
    shim = os.path.join(HERE, "shim.c")
    covc = os.path.join(HERE, "cov.c")
    msanc = os.path.join(HERE, "msan.c")
    allocc = os.path.join(HERE, "alloc.c")
    wrap = ["-Wl,--wrap=nftw"] if variant == "msan" else list(WRAPFLAGS)
    if variant == "track": wrap.append("-Wl," + ",".join("--wrap=" + w for w in "malloc calloc realloc free strdup strndup".split()))
    toolsrc = {t: sorted(glob.glob(os.path.join(REPO, TOOLS[t], "*.c"))) for t in tools}
    allin = src["lib"] + src["daemon"] + hdr + [shim, covc, msanc, allocc] + sum(toolsrc.values(), []) + sum((list(v) for v in extra.values()), [])
    key = _hash(allin, (variant, cc, flags, BASE, WRAP, sorted(tools), sorted(extra)))
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, "%s-%s" % (variant, key))
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/.done"):
            os.utime(d)
            return d
        # keep only a few builds
        old = sorted((p for p in glob.glob(OUT + "/*-*") if os.path.isdir(p)), key=os.path.getmtime)
        for p in old[:-int(os.environ.get("VZ_KEEP", 9))]:
            shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/o")
        inc = ["-I" + REPO + "/libzdb"]
        jobs = []
        objs = {"lib": [], "daemon": [], "shim": []}
        def add(group, path, tag, incs):
            o = "%s/o/%s_%s.o" % (d, tag, os.path.basename(path)[:-2])
            jobs.append([cc] + BASE + flags + incs + ["-c", path, "-o", o])
            objs.setdefault(group, []).append(o)
        for p in src["lib"]: add("lib", p, "lib", inc)
        for p in src["daemon"]: add("daemon", p, "d", inc + ["-I" + REPO + "/zdbd"])
        # the shim itself is never instrumented
        so = []
        if variant != "msan":
            so.append(d + "/o/shim.o"); jobs.append([cc, "-g", "-O1", "-w", "-c", shim, "-o", so[-1]])
        else:
            so.append(d + "/o/msan.o"); jobs.append([cc, "-g", "-O1", "-w"] + flags + ["-c", msanc, "-o", so[-1]])
        if variant == "track":
            so.append(d + "/o/alloc.o"); jobs.append([cc, "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-c", allocc, "-o", so[-1]])
        if variant == "cov":
            so.append(d + "/o/cov.o"); jobs.append([cc, "-g", "-O1", "-w", "-c", covc, "-o", so[-1]])
        for t, fs in toolsrc.items():
            for p in fs: add("tool:" + t, p, "t" + t, inc)
        for n, fs in extra.items():
            for p in fs: add("extra:" + n, p, "x" + n, inc)
        # a tool which does not compile concerns the checks of that tool only
        failed = {}
        def run(j):
            try: _run(j)
            except BuildError as e:
                b = os.path.basename(j[-1])
                for n in list(toolsrc) + list(extra):
                    if b.startswith(("t" + n + "_", "x" + n + "_")) or j[-2:] == ["-o", d + "/" + n] or d + "/" + n in j:
                        failed[n] = str(e); return
                raise
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        links = [[cc] + flags + wrap + ["-rdynamic", "-o", d + "/zdb"] + objs["daemon"] + objs["lib"] + so]
        for t in toolsrc:
            if t not in failed: links.append([cc] + flags + wrap + ["-o", d + "/" + t] + objs["tool:" + t] + objs["lib"] + so)
        for n in extra:
            if n not in failed: links.append([cc] + flags + wrap + ["-o", d + "/" + n] + objs["extra:" + n] + objs["lib"] + so + ["-lm"])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, links))
        for n in failed:
            with open(d + "/" + n + ".failed", "w") as f: f.write(failed[n])
        shutil.rmtree(d + "/o", ignore_errors=True)
        open(d + "/.done", "w").close()
    return d

def utility(name, variant="asan"):
    """a program of /repo/utilities (a client: no interceptor)"""
    srcs = sorted(glob.glob(os.path.join(REPO, "utilities", name, "*.c"))); hdr = sorted(glob.glob(os.path.join(REPO, "utilities", name, "*.h")))
    flags = BASE + VARIANTS[variant][1]
    exe = os.path.join(OUT, "utility-%s-%s" % (name, _hash(srcs + hdr, flags)))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(exe):
        for p in sorted(glob.glob(OUT + "/utility-%s-*" % name), key=os.path.getmtime)[:-4]: os.unlink(p)
        tmp = exe + ".%d" % os.getpid()
        _run(["gcc"] + flags + ["-o", tmp] + srcs + ["-lhiredis"])
        os.rename(tmp, exe)
    return exe

def shared(soft=False):
    """libzdb alone as a shared object"""
    src, hdr = _sources()
    flags = BASE + ["-O1"] + (["-mno-sse4.2"] if soft else [])
    so = os.path.join(OUT, "libzdb-%s.so" % _hash(src["lib"] + hdr, flags))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(so):
        for p in sorted(glob.glob(OUT + "/libzdb-*.so"), key=os.path.getmtime)[:-5]: os.unlink(p)
        tmp = so + ".%d" % os.getpid()
        _run(["gcc"] + flags + ["-shared", "-fPIC", "-I" + REPO + "/libzdb", "-o", tmp] + src["lib"])
        os.rename(tmp, so)
    return so

def helper(name):
    """a small shared library of the checks themselves (no code of /repo)"""
    src = os.path.join(HERE, name)
    os.makedirs(OUT, exist_ok=True)
    with open(src, "rb") as f: h = hashlib.sha256(f.read()).hexdigest()[:12]
    so = os.path.join(OUT, "helper-%s-%s.so" % (name.replace(".", "_"), h))
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        _run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src])
        os.rename(tmp, so)
    return so

def program(name):
    """a program of the checks themselves (no code of /repo)"""
    src = os.path.join(HERE, name)
    os.makedirs(OUT, exist_ok=True)
    with open(src, "rb") as f: h = hashlib.sha256(f.read()).hexdigest()[:12]
    exe = os.path.join(OUT, "program-%s-%s" % (name.replace(".", "_"), h))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        _run(["gcc", "-O2", "-w", "-o", tmp, src])
        os.rename(tmp, exe)
    return exe

if __name__ == "__main__":
    import time
    for v in (sys.argv[1:] or ["asan", "plain"]):
        t = time.time(); print(build(v, tools=TOOLS if v != "release" else ()), "%.1fs" % (time.time() - t))
