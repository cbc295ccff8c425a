"""writes seeded/<id>/ from a spec file: python3 tools/seed/mk.py specs.py [id...]   (spec: S(id, property, edits=[(file, old, new)...], demo, needs, breaks, extra={name: text}))"""
import os, shutil, subprocess, sys, tempfile, json, runpy
specs = []
def S(id, prop, edits, demo, needs, breaks, extra=None): specs.append((id, prop, edits, demo, needs, breaks, extra or {}))
runpy.run_path(sys.argv[1], {"S": S})
want = sys.argv[2:]
for id, prop, edits, demo, needs, breaks, extra in specs:
    if want and id not in want: continue
    t = tempfile.mkdtemp(prefix="zmk-")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(t, "w", f); s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/w", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"]); shutil.rmtree(t, ignore_errors=True)
    d = "/verif/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/verif/tools/seed/zt.py", d)
    open(d + "/demo.py", "w").write("from zt import *\n" + demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds, other: it does not\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    for n, x in extra.items(): open(os.path.join(d, n), "w").write(x)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
