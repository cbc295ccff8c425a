"""tools/mut/run.py [-j N] [-p Cxx] LIST.py [ids]: plants each change of the list in a copy of /repo and runs the named checks on it.

A list calls M(id, "Cxx Cyy", file, old, new).  Prints which check catches the change; /repo itself is not touched."""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
LIST = []
def M(i, props, f, old, new, more=()): LIST.append((i, props.split(), [(f, old, new)] + list(more)))
args = sys.argv[1:]; jobs = 2; only = None
while args and args[0].startswith("-"):
    a = args.pop(0)
    if a == "-j": jobs = int(args.pop(0))
    if a == "-p": only = args.pop(0)
exec(open(args[0]).read(), {"M": M})
want = args[1:]
RES = "/tmp/mutres"; os.makedirs(RES, exist_ok=True)
def one(m):
    i, props, edits = m
    d = "/tmp/mut-" + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    out = []
    try:
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) != 1: return i, ["BAD EDIT (%d matches) %s" % (s.count(old), old[:50])]
            open(p, "w").write(s.replace(old, new))
        for c in props:
            if only and c != only: continue
            t = time.time()
            try: r = subprocess.run(["python3", "-m", "vz", c], cwd="/verif", env=dict(os.environ, VZ_REPO=d, VZ_KEEP="40", VZ_EVIDENCE="/tmp/mutres/ev-" + i), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired: out.append(c + " TIMEOUT"); continue
            open("%s/%s.%s" % (RES, i, c), "w").write(r.stdout)
            v = [l for l in r.stdout.splitlines() if "cases):" in l or "error" in l.lower()]
            out.append("%s %s (%d s) %s" % (c, {0: "*** missed ***", 1: "caught"}.get(r.returncode, "exit %d" % r.returncode), time.time() - t, (v[:1] or [""])[0][:200] if r.returncode else ""))
    finally: shutil.rmtree(d, ignore_errors=True)
    return i, out
with ThreadPoolExecutor(jobs) as ex:
    for i, o in ex.map(one, [m for m in LIST if not want or m[0] in want]):
        print("%-28s %s" % (i, "\n                             ".join(o)), flush=True)
