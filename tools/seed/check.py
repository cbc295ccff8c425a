"""tools/seed/check.py ID...: validates a planted change: applies, builds, stable tests pass, demo fails with it and passes without; then runs the property's check"""
import json, os, shutil, subprocess, sys, tempfile
R = "/repo"
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build(): return sh("bash", "/opt/vp/build.sh").returncode == 0
def stable():
    sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
    o = set(json.load(open("/tmp/seedtest.json"))["passed"])
    return [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in o]
def demo(d):
    t = tempfile.mkdtemp(prefix="zseed-")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), t)
    try: r = sh("bash", os.path.join(t, "demo.sh"), cwd=R, timeout=300)
    except subprocess.TimeoutExpired: shutil.rmtree(t); return 124, "timeout"
    shutil.rmtree(t); return r.returncode, r.stdout[-400:]
def own(d):
    """lines removed by the patch must come from the base commit"""
    base = sh("git", "-C", R, "rev-list", "--max-parents=0", "HEAD").stdout.strip()
    out = []
    f = None
    for l in open(os.path.join(d, "patch.diff")):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git", "-C", R, "blame", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", f).stdout
            if not b.lstrip("^").startswith(base[:39]): out.append((f, n, l.strip()[:60]))
            n += 1
        elif l.startswith(" "): n += 1
    return out
args = [a for a in sys.argv[1:] if not a.startswith("-")]
nochk, notest = "-n" in sys.argv, "-t" in sys.argv
if sh("git", "-C", R, "status", "--porcelain").stdout.strip(): sys.exit("/repo is not clean")
for i in args or sorted(os.listdir("/verif/seeded")):
    d = "/verif/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    print("==", i, p, flush=True)
    o = own(d)
    if o: print("   changes lines of own commits:", o)
    build()
    c0, t0 = demo(d)
    print("   unchanged tree: demo %d %s" % (c0, t0 if c0 else ""), flush=True)
    a = sh("git", "-C", R, "apply", d + "/patch.diff")
    if a.returncode: print("   DOES NOT APPLY", a.stdout); continue
    try:
        if not build(): print("   DOES NOT BUILD"); continue
        c1, t1 = demo(d)
        print("   patched: demo %d %s" % (c1, t1.strip()), flush=True)
        if not notest: print("   broken stable tests:", stable()[:6], flush=True)
        if not nochk:
            r = sh("python3", "-m", "vz", p, cwd="/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or " quick: " in l]
            k = [l for l in r.stdout.splitlines() if "cases):" in l]
            print("   CHECK %s: exit %d; %s" % (p, r.returncode, (k + v)[:2]), "CAUGHT" if r.returncode == 1 and any("property=" + p in x for x in v) else "*** MISSED ***", flush=True)
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
build()
