S("c14-raw-pad", "C14", [("zdbd/commands_system.c", '"$10\\r\\n0x%08x\\r\\n", raw.header.integrity', '"$10\\r\\n0x%8x\\r\\n", raw.header.integrity')],
r'''
z = Zdb().start(); c = z.client(); bad = []
for i in range(400):
    i_ = [l for l in c("NSINFO", "default").decode().splitlines() if l.startswith("data_current_offset")][0]; off = int(i_.split()[1])
    k, v = b"k%d" % i, b"value-%d" % i
    ok(c("SET", k, v) == k, "SET")
    r = c("DATA", "RAW", "0", str(off))
    ok(isinstance(r, list) and r[0] == k and r[5] == v, "DATA RAW answers %r" % (r,))
    crc = 0
    for b in v:
        crc ^= b
        for _ in range(8): crc = (crc >> 1) ^ (0x82F63B78 if crc & 1 else 0)
    if r[2].decode() != "0x%08x" % crc: bad.append((k, r[2], "0x%08x" % crc))
ok(not bad, "checksums shown by DATA RAW which are not those of the payload: %r" % bad[:3])
''', "a payload with a checksum which begins with a zero digit, one in sixteen", "the checksum shown by DATA RAW is not the one of the payload")

S("c07-date", "C07", [("zdbd/commands_history.c", 'sprintf(datestr, "%" PRIu32, history->timestamp);', 'sprintf(datestr, "%d", (int) history->timestamp);')],
r'''
z = Zdb().start(); c = z.client()
for t in (1000, 2147483647, 2147483648, 4000000000): ok(c("SET", "k", b"v%d" % t, str(t)) == b"k", "SET with timestamp %d" % t)
got, r = [], c("HISTORY", "k")
while isinstance(r, list):
    got.append((r[2], r[1]))
    if r[0] is None: break
    r = c("HISTORY", "k", r[0])
ok(got == [(b"v%d" % t, b"%d" % t) for t in (4000000000, 2147483648, 2147483647, 1000)], "history: %r" % (got,))
''', "a version stored with a timestamp after 2038", "HISTORY shows a negative date")

S("c16-usec", "C16", [("zdbd/redis.c", "    uint64_t deltams = (end->tv_sec - begin->tv_sec) * 1000;\n    deltams += (end->tv_usec - begin->tv_usec) / 1000;\n\n    return deltams;",
  "    uint64_t from = (begin->tv_sec * 1000) + (begin->tv_usec / 1000);\n    uint64_t deltams = (end->tv_sec * 1000) - from;\n\n    // add what's elapsed in the current second, rounded\n    return deltams + ((end->tv_usec + 500000) / 1000000) * 1000;")],
r'''
z = Zdb().start(); early = []
for when in (.05, .3, .55, .8, .45):
    c = z.client(); now = time.time(); time.sleep((when - now) % 1)
    t = time.time(); r = c("WAIT", "SET", "900"); d = time.time() - t
    ok(isinstance(r, E), "WAIT answered %r" % (r,))
    if d < .88: early.append((when, round(d, 3)))
    c.close()
ok(not early, "WAIT of 900 ms timed out too early (moment in the second, delay): %r" % early)
''', "a WAIT which begins at some moments of a second", "it times out before its delay")

S("c09-failed-select", "C09", [("zdbd/commands_namespace.c", "    // by default, we arrume the namespace will be read-write allowed\n    int writable = 1;\n", "    // by default, we arrume the namespace will be read-write allowed\n    int writable = client->writable = 1;\n")],
r'''
z = Zdb().start(); a = z.client()
for n in ("pub", "priv"):
    a("NSNEW", n); ok(a("NSSET", n, "password", "secret") == "OK", "NSSET")
a("NSSET", "priv", "public", "0")
c = z.client(); ok(c("SELECT", "pub") == "OK", "SELECT of the public namespace")
ok(isinstance(c("SET", "k", "v"), E), "read-only before")
ok(isinstance(c("SELECT", "priv", "wrong"), E), "a wrong password is refused")
r = c("SET", "k", "v")
ok(isinstance(r, E), "after a refused SELECT, SET in the public read-only namespace answers %r" % (r,))
''', "a client in a public namespace with a password (read-only) whose SELECT of another namespace is refused", "it becomes allowed to write")

S("c06-single-entry", "C06", [("libzdb/index_scan.c", "        if(source.previous >= current) {\n            zdb_debug(\"[+] index rscan: previous-header: previous offset (%u) in previous file\\n\", source.previous);", "        if(source.previous > current) {\n            zdb_debug(\"[+] index rscan: previous-header: previous offset (%u) in previous file\\n\", source.previous);")],
r'''
z = Zdb().start(); c = z.client()
c("SET", "first", "1"); ok(c("NSJUMP") == "OK", "NSJUMP")
for i in range(5): c("SET", "k%d" % i, "v")
got, cur = [], c("KEYCUR", "k3")
r = c("RSCAN", cur)
while isinstance(r, list) and len(got) < 50:
    got += [x[0] for x in r[1]]
    r = c("RSCAN", r[0])
ok(got == [b"k2", b"k1", b"k0", b"first"], "RSCAN from k3 yields %r" % (got[:10],))
''', "an index file with a single entry, and a walk backwards from the next file with a cursor", "RSCAN repeats the first entry of the next file instead of going on")

S("c11-stack-partial", "C11", [("zdbd/redis.c", "    // duplicate payload\n    if(!(copypayload = malloc(length)))\n        return 1;\n\n    memcpy(copypayload, payload, length);\n\n    if(!(newresponse = redis_response_new(copypayload, length, free)))\n        return 1;\n",
  "    // duplicate what remains of the payload\n    length = response.length;\n\n    if(!(copypayload = malloc(length)))\n        return 1;\n\n    memcpy(copypayload, response.reader, length);\n\n    if(!(newresponse = redis_response_new(copypayload, length, free)))\n        return 1;\n")],
r'''
z = Zdb("--datasize", "33554432").start(); c = z.client(); v = os.urandom(3000000)
ok(c("SET", "k", v) == b"k", "SET")
for delay in (0, .3):
    c.send("HISTORY", "k"); time.sleep(delay)
    try: r = c.recv()
    except Exception as e: r = repr(e)
    ok(isinstance(r, list) and r[2] == v, "HISTORY of 3 MB read after %.1f s is not what was stored: %s" % (delay, str(r)[:80]))
    ok(c("PING") == "PONG", "PING afterwards")
''', "an answer of HISTORY larger than the buffers of the socket", "a part of the answer is missing, the connection is out of step")

FT = r'''
/* time() moved forward by what the file says */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <dlfcn.h>
time_t time(time_t *t) {
    struct timespec ts; long off = 0; FILE *f;
    clock_gettime(CLOCK_REALTIME, &ts);
    if(getenv("ZT_TIME") && (f = fopen(getenv("ZT_TIME"), "r"))) { if(fscanf(f, "%ld", &off) != 1) off = 0; fclose(f); }
    if(t) *t = ts.tv_sec + off;
    return ts.tv_sec + off;
}
'''

S("c22-childwait", "C22", [("libzdb/hook.c", "    // update stats, since we wait, this won't be handled\n    // by recurring scrubber\n    zdb_rootsettings.stats.childwait -= 1;\n\n    return hook->status;", "    return hook->status;")],
r'''
h = os.path.join(TMP, "hook"); open(h, "w").write("#!/bin/sh\nexit 0\n"); os.chmod(h, 0o755)
tf = os.path.join(TMP, "time"); open(tf, "w").write("0")
z = Zdb("--hook", h, env={"LD_PRELOAD": preload("ft.c"), "ZT_TIME": tf}).start(); c = z.client()
c("NSNEW", "n"); ok(c("SELECT", "n") == "OK", "SELECT")
c("SET", "k", "v"); c("NSJUMP")
n = len(c("HOOKS")); ok(n > 0, "HOOKS lists the recent hooks")
time.sleep(2)
open(tf, "w").write("4000"); end = time.time() + 15
while time.time() < end and n:
    time.sleep(1); n = len(c("HOOKS"))
ok(n == 0, "more than an hour later, the server still keeps %d terminated hooks" % n)
''', "a hook the server waits for (ready at startup, jump-index), then any amount of other hooks", "terminated hooks are kept forever", {"ft.c": FT})

S("c18-long-hook", "C18", [("libzdb/hook.c", "        if(hook->finished < now - ZDB_HOOKS_EXPIRE_SECONDS) {", "        if(hook->created < now - ZDB_HOOKS_EXPIRE_SECONDS) {")],
r'''
h = os.path.join(TMP, "hook"); go = os.path.join(TMP, "go")
open(h, "w").write("#!/bin/sh\ncase \"$1\" in namespace-created) while [ ! -e %s ]; do sleep .2; done; exit 3;; esac\nexit 0\n" % go); os.chmod(h, 0o755)
tf = os.path.join(TMP, "time"); open(tf, "w").write("0")
z = Zdb("--hook", h, env={"LD_PRELOAD": preload("ft.c"), "ZT_TIME": tf}).start(); c = z.client()
c("NSNEW", "n"); time.sleep(1)
x = [x for x in c("HOOKS") if x[0] == b"namespace-created"]; ok(len(x) == 1 and x[0][4] == 0, "the hook is not reported as running: %r" % (x,))
open(tf, "w").write("4000"); time.sleep(1); open(go, "w").close()
time.sleep(4); x = [x for x in c("HOOKS") if x[0] == b"namespace-created"]
ok(len(x) == 1, "a few seconds after its end, the hook which took an hour is not reported anymore")
ok(x[0][5] == 3 and x[0][4] != 0, "its status: %r" % (x[0],))
''', "a hook which runs for more than five minutes", "its status disappears at once instead of being reported for a while", {"ft.c": FT})

S("c21-long-path", "C21", [("libzdb/bootstrap.c", "    char lockpath[512];", "    char lockpath[128];")],
r'''
import subprocess as sp
base = os.path.join(TMP, "d" * 100); os.makedirs(base)
data, index = os.path.join(base, "the-data-directory"), os.path.join(base, "the-index-directory")
short = os.path.join(TMP, "s"); os.symlink(base, short)
z = Zdb(data=data, index=index).start(); c = z.client(); ok(c("SET", "k", "v") is not None, "SET")
w = Zdb(data=os.path.join(short, "the-data-directory"), index=os.path.join(short, "the-index-directory"))
started = True
try: w.start()
except SystemExit: started = False
except Exception: started = False
if started: started = w.alive()
ok(not started, "a second server owns the same directories, named by a shorter path")
ok(c("GET", "k") == b"v", "the first one goes on")
''', "directories with a long path, also reachable by a shorter one (a symbolic link)", "two servers write in the same directories")

S("c15-rebuild-crc", "C15", [("tools/index-rebuild/index-rebuild.c", "            .crc = entry->integrity,\n            .timestamp = entry->timestamp,\n        };", "            .timestamp = entry->timestamp,\n        };")],
r'''
import subprocess as sp
z = Zdb().start(); c = z.client()
for i in range(20): ok(c("SET", "k%d" % i, "v%d" % i) is not None, "SET")
cur = [c("KEYCUR", "k%d" % i) for i in range(20)]
z.stop()
import shutil
new = z.index + "-new"; os.makedirs(new)
r = sp.run([os.path.join(REPO, "tools/index-rebuild/index-rebuild"), "--data", z.data, "--index", new, "--namespace", "default", "--mode", "user"], stdout=sp.PIPE, stderr=sp.STDOUT)
ok(r.returncode == 0, "index-rebuild: %d" % r.returncode)
ok(os.path.exists(os.path.join(new, "default", "i0")), "no index rebuilt")
shutil.rmtree(z.index); shutil.copytree(new, z.index)
z.start(); c = z.client()
for i in range(20): ok(c("GET", "k%d" % i) == b"v%d" % i, "GET k%d after the rebuild" % i)
size = os.path.getsize(os.path.join(z.data, "default", "d0"))
for i in range(20): c("SET", "k%d" % i, "v%d" % i)
ok(os.path.getsize(os.path.join(z.data, "default", "d0")) == size, "the values set again, unchanged, are written again")
''', "rebuild the index, then set a key to the value it already has", "values are not recognized as unchanged anymore: files grow, history gets duplicates")
