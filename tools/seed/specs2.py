S("c11-large-first", "C11", [("zdbd/redis.c", "    if(client->responses == NULL) {\n        // try to send this response a first time\n        if(redis_send_response(client, response) == NULL) {\n            pzdbd_debug(\"[+] redis: reply heap",
 "    // large payloads are worth a try, even when something is pending\n    if(client->responses == NULL || length > (1 << 18)) {\n        // try to send this response a first time\n        if(redis_send_response(client, response) == NULL) {\n            pzdbd_debug(\"[+] redis: reply heap")],
r'''
import threading
z = Zdb("--datasize", "33554432").start(); c = z.client()
A = b"a" * 4000000; B = b"b" * 400000
c("SET", "big", A); c("SET", "less", B); c("SET", "small", b"s")
for turn in range(10):
    k = z.client()
    def feed():
        for n in range(30): k.send("GET", "less"); k.send("GET", "small")
    k.send("GET", "big")
    t = threading.Thread(target=feed, daemon=True); t.start()
    try:
        ok(k.recv() == A, "first reply")
        for n in range(30):
            ok(k.recv() == B, "reply of the larger GET %d" % n); ok(k.recv() == b"s", "reply of the small GET %d" % n)
    except (ValueError, socket.timeout, EOFError) as e: ok(0, "replies are mixed up (%s)" % str(e)[:60])
    t.join(20); k.close()
''', "pipelined requests with large replies, while a previous large reply is still being read", "a large reply is sent in the middle of a previous one")

S("c16-second-wait", "C16", [("zdbd/redis.c", "    // set initial waiting time and timeout\n    gettimeofday(&client->watchtime, NULL);", "    // set initial waiting time and timeout\n    if(client->watchtime.tv_sec == 0)\n        gettimeofday(&client->watchtime, NULL);\n"),
  ("zdbd/redis.c", "            // not watching anymore\n            redis_client_unset_watcher(checking);\n\n            // sending notification\n            snprintf(response, sizeof(response), \"+%s\\r\\n\", matching);", "            // not watching anymore\n            checking->watching = NULL;\n\n            // sending notification\n            snprintf(response, sizeof(response), \"+%s\\r\\n\", matching);")],
r'''
z = Zdb().start(); c = z.client(); w = z.client()
w.send("WAIT", "SET", "20000"); time.sleep(.3)
c("SET", "a", b"1"); ok(w.recv() == "SET", "woken by SET")
time.sleep(2.5)
t = time.time(); w.send("WAIT", "SET", "2000"); r = w.recv(); d = time.time() - t
ok(isinstance(r, E) and d >= 1.99, "second WAIT of 2000 ms answered %r after %.2f s" % (r, d))
''', "a connection which waits again, after having been woken by a command", "the second WAIT times out too early")

S("c17-mirror-source", "C17", [("zdbd/redis.c", "    if(source->request->owner == 0) {\n        zdbd_debug(\"[-] redis: mirror: null-owner, not forwarding\\n\");", "    if(source->request->owner == 0 || source->mirror) {\n        zdbd_debug(\"[-] redis: mirror: null-owner, not forwarding\\n\");")],
r'''
z = Zdb().start(); a = z.client(); b = z.client(); c = z.client()
ok(not isinstance(a("MIRROR"), E), "MIRROR"); ok(not isinstance(b("MIRROR"), E), "MIRROR")
c("SET", "plain", b"one")
b.send("SET", "frommirror", b"two"); time.sleep(.3)
c("SET", "last", b"three")
a.s.settimeout(5); got = []
try:
    while not got or got[-1] != b"last":
        r = a.recv()
        if isinstance(r, list) and len(r) > 4 and r[3] == b"SET": got.append(r[4])
except socket.timeout: pass
ok(got == [b"plain", b"frommirror", b"last"], "mirror received %r" % (got,))
''', "two connections in MIRROR mode, one of which executes a SET itself", "the other mirror never receives that SET")

S("c22-partial-request", "C22", [("zdbd/redis.c", "    for(int i = 0; i < request->argc; i++) {\n        // prematured", "    for(int i = 0; i < request->argc && i < request->fillin; i++) {\n        // prematured")],
r'''
z = Zdb().start(); c = z.client()
def rss(): return int([l for l in open("/proc/%d/status" % z.p.pid) if l.startswith("VmRSS")][0].split()[1])
def turn():
    k = z.client(); k.raw(b"*3\r\n$3\r\nSET\r\n$1\r\na\r\n$8000000\r\n" + b"x" * 3000000); time.sleep(.05); k.close(); time.sleep(.02)
for _ in range(5): turn()
c("PING"); a = rss()
for _ in range(20): turn()
c("PING"); time.sleep(.5); b = rss()
ok(b - a < 20000, "resident memory grew from %d to %d KB while 20 clients left in the middle of a request" % (a, b))
''', "clients which disconnect in the middle of an argument", "the partly received argument is never released")

S("c12-owner-id", "C12", [("zdbd/redis.c", "    if(ownobj->length > 32) {", "    if(ownobj->length > 128) {")],
r'''
z = Zdb().start(); c = z.client()
for n in (33, 40, 64, 100, 128):
    m = z.client(); ok(not isinstance(m("MASTER"), E), "MASTER")
    try:
        m.send("SET", "k%d" % n, b"value", b"9" * n); r = m.recv()
    except EOFError: r = None
    time.sleep(.1)
    ok(z.alive(), "server alive after an owner id of %d bytes" % n)
    ok(isinstance(r, E), "owner id of %d bytes answered %r" % (n, r)); m.close()
ok(c("PING") == "PONG", "PING")
''', "a replication connection (MASTER) sending an owner id of 34 to 128 bytes", "the stack buffer of 34 bytes overflows")

S("c09-challenge-failed", "C09", [("zdbd/commands_auth.c", "    // free and reset nonce\n    free(expected);\n    free(client->nonce);\n    client->nonce = NULL;\n", "    free(expected);\n\n    // challenge consumed, free and reset nonce\n    if(granted) {\n        free(client->nonce);\n        client->nonce = NULL;\n    }\n")],
r'''
import hashlib
z = Zdb("--admin", "secret").start(); c = z.client()
n = c("AUTH", "SECURE", "CHALLENGE"); n = n.decode() if isinstance(n, bytes) else n
h = lambda p: hashlib.sha1(("%s:%s" % (n, p)).encode()).hexdigest()
ok(isinstance(c("AUTH", "SECURE", h("wrong")), E), "wrong password refused")
r = c("AUTH", "SECURE", h("secret"))
ok(isinstance(r, E), "the challenge was already used, the second attempt answered %r" % r)
''', "a secure authentication which fails, then a second attempt with the same challenge", "a challenge can be used several times until it succeeds")

S("c18-failed-hook", "C18", [("libzdb/index.c", "        int retval = hook_execute_wait(hook);\n        if(retval == 0) {", "        int retval = hook_execute_wait(hook);\n        if(retval >= 0) {")],
r'''
hook = os.path.join(TMP, "hook.sh")
open(hook, "w").write("#!/bin/sh\n[ \"$1\" = jump-index ] && { echo \"$5\" >> %s/jumps; [ -e %s/fail ] && exit 3; }\nexit 0\n" % (TMP, TMP)); os.chmod(hook, 0o755)
z = Zdb("--hook", hook).start(); c = z.client()
c("SET", "a", b"1"); c("SET", "a", b"2")
ok(c("INDEX", "DIRTY") == [0], "dirty before: %r" % c("INDEX", "DIRTY"))
open(TMP + "/fail", "w").close()
ok(not isinstance(c("NSJUMP"), E), "NSJUMP")
os.unlink(TMP + "/fail")
ok(c("INDEX", "DIRTY") == [0], "the hook failed, dirty files afterwards: %r" % c("INDEX", "DIRTY"))
ok(not isinstance(c("NSJUMP"), E), "NSJUMP")
ok(open(TMP + "/jumps").read().split("\n")[:2] == ["0", "0"], "dirty files given to the hooks: %r" % open(TMP + "/jumps").read())
ok(c("INDEX", "DIRTY") == [], "dirty files after a successful hook")
''', "a jump-index hook which fails while some index file is dirty", "the dirty files are forgotten: no later hook gets them")

S("c19-empty-entry", "C19", [("libzdb/api.c", "    if(reply->status == ZDB_API_ENTRY) {\n        zdb_api_entry_t *entry = reply->payload;\n        free(entry->key.payload);\n        free(entry->payload.payload);\n        free(entry);\n    }\n",
 "    if(reply->status == ZDB_API_ENTRY) {\n        zdb_api_entry_t *entry = reply->payload;\n        free(entry->key.payload);\n\n        // nothing else was allocated for an empty payload\n        if(entry->payload.size) {\n            free(entry->payload.payload);\n            free(entry);\n        }\n    }\n")],
r'''
exe = os.path.join(TMP, "embed")
src = os.path.join(REPO, "libzdb")
subprocess.run(["gcc", "-g", "-O0", "-std=gnu99", "-w", "-msse4.2", "-I" + src, "-o", exe, os.path.join(HERE, "embed.c"), os.path.join(src, "libzdb.a"), "-rdynamic"], check=True)
r = subprocess.run([exe, TMP + "/data", TMP + "/index"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=TMP)
ok(r.returncode == 0, r.stdout.decode()[-200:])
''', "an empty value read through the library", "the reply is not completely released",
 {"embed.c": r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <malloc.h>
#include "libzdb.h"
static void get(namespace_t *ns, char *key) {
    zdb_api_t *r = zdb_api_get(ns, key, strlen(key));
    if(r->status != ZDB_API_ENTRY) { printf("get failed\n"); exit(2); }
    zdb_api_reply_free(r);
}
int main(int argc, char **argv) {
    zdb_settings_t *s = zdb_initialize();
    s->datapath = argv[1]; s->indexpath = argv[2];
    zdb_id_set("demo");
    if(argc < 3 || !zdb_open(s)) return 2;
    namespace_t *ns = namespace_get_default();
    zdb_api_reply_free(zdb_api_set(ns, "empty", 5, "", 0));
    zdb_api_reply_free(zdb_api_set(ns, "full", 4, "something", 9));
    for(int i = 0; i < 10; i++) { get(ns, "full"); get(ns, "empty"); }
    size_t before = mallinfo2().uordblks;
    for(int i = 0; i < 2000; i++) { get(ns, "full"); get(ns, "empty"); }
    size_t after = mallinfo2().uordblks;
    zdb_close(s);
    printf("allocated: %zu then %zu\n", before, after);
    return after > before + 8000;
}
'''})

S("c24-del-sync", "C24", [("libzdb/data.c", "    if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {", "    // only flush when there is some payload, the header is sent with it\n    if(!data_write(root->datafd, source->data, source->datalength, source->datalength > 0, root)) {")],
r'''
so = preload("trace.c"); log = os.path.join(TMP, "log")
z = Zdb("--sync", env={"LD_PRELOAD": so, "TRACE_LOG": log, "TRACE_DIR": os.path.join(TMP, "data")}).start(); c = z.client()
def pending():
    last = {}
    for l in open(log):
        op, fd, n = l.split()
        if op == "w" and int(n): last[fd] = "unflushed"
        if op == "s": last[fd] = "flushed"
    return [f for f in last if last[f] == "unflushed"]
c("SET", "a", b"value"); ok(not pending(), "SET acknowledged before being flushed")
ok(c("DEL", "a") == "OK", "DEL"); ok(not pending(), "DEL acknowledged before its record is flushed")
c("SET", "b", b""); ok(not pending(), "SET of an empty value acknowledged before its record is flushed")
''', "a server running with --sync, a DEL or an empty value, then a power loss", "the record is acknowledged without being flushed",
 {"trace.c": r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
static void note(char op, int fd, long n) {
    char l[64], p[4096], o[64], *dir = getenv("TRACE_DIR");
    snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, p, sizeof(p) - 1);
    if(k <= 0 || !dir) return;
    p[k] = 0;
    if(strncmp(p, dir, strlen(dir))) return;
    int f = open(getenv("TRACE_LOG"), O_CREAT | O_APPEND | O_WRONLY, 0600);
    int len = snprintf(o, sizeof(o), "%c %d %ld\n", op, fd, n);
    ssize_t (*real)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    real(f, o, len); close(f);
}
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if(!real) real = dlsym(RTLD_NEXT, "write");
    ssize_t r = real(fd, b, n); note('w', fd, r); return r;
}
int fsync(int fd) {
    static int (*real)(int);
    if(!real) real = dlsym(RTLD_NEXT, "fsync");
    int r = real(fd); note('s', fd, 0); return r;
}
int fdatasync(int fd) {
    static int (*real)(int);
    if(!real) real = dlsym(RTLD_NEXT, "fdatasync");
    int r = real(fd); note('s', fd, 0); return r;
}
'''})

S("c21-lock-late", "C21", [("libzdb/bootstrap.c", "    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)\n        return NULL;\n\n", ""), ("libzdb/bootstrap.c", "    namespaces_init(zdb_settings);\n\n    return zdb_settings;",
 "    namespaces_init(zdb_settings);\n\n    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)\n        return NULL;\n\n    return zdb_settings;")],
r'''
z = Zdb().start(); c = z.client()
c("NSNEW", "other"); c("SET", "a", b"1")
def state(): return sorted((os.path.join(d, f), os.path.getsize(os.path.join(d, f))) for d, _, fs in os.walk(TMP + "/data") for f in fs)
# what another instance is in the middle of appending
open(TMP + "/data/default/d0", "ab").write(b"\x05not a complete entry")
b = state()
index = TMP + "/index2"; os.makedirs(index + "/extra")
p = subprocess.run([ZDB, "--data", TMP + "/data", "--index", index, "--socket", TMP + "/s2", "--datasize", "1048576"], cwd=TMP, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
ok(p.returncode != 0, "second server refused")
ok(state() == b, "the second server changed the data directory: %s" % sorted(set(state()) ^ set(b)))
''', "a second server on the same data directory with an index of its own", "it truncates and creates data files of the running server before noticing the lock")

S("c23-scan-readwrite", "C23", [("libzdb/index.c", "        if((fd = index_open_file_readonly(root, fileid)) < 0)\n            return -1;", "        if((fd = index_open_file_readwrite(root, fileid)) < 0)\n            return -1;")],
r'''
so = preload("erofs.c")
z = Zdb().start(); c = z.client()
for n in range(3): c("SET", "k%d" % n, b"v%d" % n); c("NSJUMP")
c("SET", "k1", b"new")
z.stop()
z.env = {"LD_PRELOAD": so, "EROFS_DIR": TMP + "/"}
z.start(); c = z.client()
keys = []; r = c("SCAN")
while isinstance(r, list):
    keys += [k[0] for k in r[1]]; r = c("SCAN", r[0])
ok(keys == [b"k0", b"k2", b"k1"], "SCAN on a read-only filesystem lists %r, then %r" % (keys, r))
''', "a read-only filesystem and a namespace of several index files", "the entries of older files cannot be listed",
 {"erofs.c": r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
// opening for writing any database file fails like on a read-only filesystem
static int denied(const char *p, int flags) {
    char *dir = getenv("EROFS_DIR");
    const char *b = strrchr(p, '/');
    if(!dir || strncmp(p, dir, strlen(dir)) || !b || !strcmp(b, "/.lockfile")) return 0;
    return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
}
#define OPEN(name) int name(const char *p, int flags, ...) { \
    static int (*real)(const char *, int, ...); \
    if(!real) real = dlsym(RTLD_NEXT, #name); \
    va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a); \
    if(denied(p, flags)) { errno = EROFS; return -1; } \
    return real(p, flags, mode); }
OPEN(open)
OPEN(open64)
'''})

S("c15-time-edge", "C15", [("tools/index-rebuild/index-rebuild.c", "        if(timestamp > 0 && entry->timestamp > timestamp) {", "        if(timestamp > 0 && entry->timestamp >= timestamp) {")],
r'''
z = Zdb().start(); c = z.client()
for n, t in (("a", 1000), ("b", 2000), ("c", 3000)): ok(c("SET", n, b"v" + n.encode(), str(t)) == n.encode(), "SET")
z.stop()
exe = os.path.join(REPO, "tools", "index-rebuild", "index-rebuild")
new = TMP + "/index2"; os.makedirs(new + "/default")
import shutil as sh
sh.copy(TMP + "/index/default/zdb-namespace", new + "/default/")
p = subprocess.run([exe, "--data", TMP + "/data", "--index", new, "--namespace", "default", "--mode", "user", "--time", "2000"], cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
ok(p.returncode == 0, "index-rebuild: " + p.stdout.decode()[-300:])
z.index = new; z.start(); c = z.client()
got = [k for k in ("a", "b", "c") if c("EXISTS", k) == 1]
ok(got == ["a", "b"], "dataset at time 2000: %r" % got)
''', "a rebuild with --time at the very second of some entry", "entries of that second are missing")

S("c25-rotate-break", "C25", [("zdbd/redis.c", "        if(!ns->index->updated)\n            continue;", "        // nothing new there, nothing to rotate\n        if(!ns->index->updated)\n            break;")],
r'''
z = Zdb("--rotate", "1").start(); c = z.client()
c("NSNEW", "first"); c("NSNEW", "second")
s = z.client("second"); s("SET", "a", b"1")
end = time.time() + 12; n = 0
while time.time() < end:
    time.sleep(.5)
    n = sorted(os.listdir(TMP + "/data/second"))
    if "d1" in n: break
ok("d1" in n, "namespace written more than 10 seconds ago was not moved to its next file: %r" % n)
''', "--rotate with several namespaces, where one which was loaded before was not written", "the following namespaces are never rotated")

S("c20-networktx", "C20", [("zdbd/redis.c", "        // updating statistics\n        zdbd_rootsettings.stats.networktx += sent;\n\n        response->reader += sent;\n        response->length -= sent;\n    }\n",
 "        // updating statistics, when everything was accepted\n        if((size_t) sent == response->length)\n            zdbd_rootsettings.stats.networktx += sent;\n\n        response->reader += sent;\n        response->length -= sent;\n    }\n")],
r'''
z = Zdb("--datasize", "33554432").start(); c = z.client()
def tx(): return int([l for l in z.client()("INFO").decode().split("\n") if l.startswith("network_tx_bytes")][0].split(":")[1])
V = b"x" * 4000000
c("SET", "big", V)
a = tx(); c.send("GET", "big"); time.sleep(.5); ok(c.recv() == V, "GET"); b = tx()
ok(b - a > len(V), "sent %d bytes, INFO counts %d" % (len(V), b - a))
''', "a reply larger than the socket buffer, to a slow reader", "only the last part of the reply is counted in INFO")

S("c26-nul-key", "C26", [("utilities/db-sync/db-sync.c", "            redisAppendCommand(sync->sourcep, \"GET %b\", item->element[0]->str, item->element[0]->len);", "            redisAppendCommand(sync->sourcep, \"GET %b\", item->element[0]->str, strlen(item->element[0]->str));")],
r'''
def port():
    k = socket.socket(); k.bind(("127.0.0.1", 0)); p = k.getsockname()[1]; k.close(); return p
def serve(name):
    for _ in range(5):
        p = port()
        try: return p, Zdb("--dualnet", "--listen", "127.0.0.1", "--port", str(p), data=TMP + "/%s-d" % name, index=TMP + "/%s-i" % name).start()
        except RuntimeError: pass
    ok(0, "cannot start a server")
p1, z1 = serve("source"); p2, z2 = serve("target")
c = z1.client(); K = [b"plain", b"with\x00nul", b"\x01\x02\x03"]
for k in K: c("SET", k, b"value of " + k)
r = subprocess.run([os.path.join(REPO, "utilities/db-sync/db-sync"), "--source-host", "127.0.0.1", "--source-port", str(p1), "--remote-host", "127.0.0.1", "--remote-port", str(p2)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
t = z2.client()
if r.returncode == 0:
    for k in K: ok(t("GET", k) == b"value of " + k, "db-sync succeeded, %r was not copied" % k)
else: ok(0, "db-sync failed: " + r.stdout.decode("latin-1")[-200:])
''', "a key which contains a zero byte", "the key is not copied, and db-sync ends with success")

S("c08-slot-list", "C08", [("libzdb/namespace.c", "        // empty slot found, updating\n        namespace->idlist = i;", "        // empty slot found, updating\n        namespace->idlist = root->effective;")],
r'''
z = Zdb().start(); c = z.client()
for n in ("a", "b", "d", "e"): ok(c("NSNEW", n) == "OK", "NSNEW")
ok(c("NSDEL", "b") == "OK", "NSDEL")
ok(c("NSNEW", "f") == "OK", "NSNEW")
names = sorted(x.decode() for x in c("NSLIST"))
ok(names == ["a", "d", "default", "e", "f"], "NSLIST: %r" % names)
for n in ("a", "d", "e", "f"): ok(c("SELECT", n) == "OK", "SELECT %s" % n)
''', "a namespace deleted which is not the last one, then another created", "some namespaces after the new one are not found anymore")
