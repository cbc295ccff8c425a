0 and S("c01-compare-prefix", "C01", [("zdbd/commands_set.c", "    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);", "    // same checksum and same first page, no need to go further\n    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength > 4096 ? 4096 : dreq->datalength) == 0);")],
r'''
# two payloads with the same CRC-32C: their difference is a multiple of the polynomial
poly = (1 << 32) | 0x1EDC6F41
bits = bin(poly)[2:]
pat = bytearray(5)
for i, b in enumerate(bits):
    if b == "1": pat[i // 8] |= 1 << (i % 8)
z = Zdb("--datasize", "33554432").start(); c = z.client()
for size, where in ((64, 10), (4000, 3000), (9000, 5000), (100000, 90000)):
    a = bytearray(os.urandom(size)); b = bytearray(a)
    for i in range(5): b[where + i] ^= pat[i]
    k = "key%d" % size
    ok(c("SET", k, bytes(a)) == k.encode(), "first SET"); r = c("SET", k, bytes(b))
    ok(c("GET", k) == bytes(b), "SET of another payload of %d bytes (same checksum) answered %r, GET returns the first one" % (size, r))
''', "two payloads of the same length and CRC which differ after the first 4096 bytes", "the second SET is ignored and the old value stays")

S("c02-maxsize32", "C02", [("libzdb/namespace.c", "    namespace->maxsize = header.maxsize;", "    uint32_t limits = header.maxsize;\n    namespace->maxsize = limits;")],
r'''
z = Zdb().start(); c = z.client()
c("NSNEW", "n"); want = 5 << 30
ok(c("NSSET", "n", "maxsize", want) == "OK", "NSSET")
def limit(c):
    return int([l for l in c("NSINFO", "n").decode().splitlines() if l.startswith("data_limits_bytes")][0].split()[1])
ok(limit(c) == want, "limit as set")
z.restart(); c = z.client()
ok(limit(c) == want, "limit after a restart: %d, %d was set" % (limit(c), want))
''', "a namespace limit above 4 GiB, then a restart", "the limit comes back truncated")

S("c07-parent-order", "C07", [("libzdb/index_set.c", "    exists->parentid = exists->indexid;\n    exists->parentoff = exists->idxoffset;\n\n    // re-use existing entry\n    exists->length = new->length;\n    exists->offset = new->offset;\n    exists->flags = new->flags;\n    exists->dataid = root->indexid;\n    exists->indexid = new->indexid;",
 "    exists->parentoff = exists->idxoffset;\n\n    // re-use existing entry\n    exists->length = new->length;\n    exists->offset = new->offset;\n    exists->flags = new->flags;\n    exists->dataid = root->indexid;\n    exists->indexid = new->indexid;\n    exists->parentid = exists->indexid;")],
r'''
z = Zdb("--datasize", "524288").start(); c = z.client()
vals = [b"first", b"second", b"third", b"fourth"]
for v in vals:
    c("SET", "k", v)
    for i in range(3): c("SET", "fill-%s-%d" % (v.decode(), i), os.urandom(260000))
got = []; r = c("HISTORY", "k")
while isinstance(r, list):
    got.append(r[2])
    if r[0] is None: break
    r = c("HISTORY", "k", r[0])
ok(got == vals[::-1], "history of k is %r" % (got,))
''', "a key updated across a file rotation, then HISTORY without any restart", "the parent of the version is looked for in the wrong index file")

S("c09-challenge-pool", "C09", [("libzdb/security.c", "    char buffer[8];\n    char *string;\n\n    if(getentropy(buffer, sizeof(buffer)) < 0) {\n        zdb_warnp(\"getentropy\");\n        return NULL;\n    }\n",
 "    static uint64_t pool[32];\n    static size_t available = 0;\n    char buffer[8];\n    char *string;\n\n    // asking for entropy by block, it saves system calls\n    if(available == 0) {\n        if(getentropy(pool, sizeof(pool)) < 0) {\n            zdb_warnp(\"getentropy\");\n            return NULL;\n        }\n\n        available = sizeof(pool) / sizeof(pool[0]);\n    }\n\n    memcpy(buffer, &pool[available % 31], sizeof(buffer));\n    available -= 1;\n")],
r'''
z = Zdb("--admin", "secret").start(); seen = set()
for i in range(50):
    c = z.client(); n = c("AUTH", "SECURE", "CHALLENGE")
    ok(n not in seen, "the challenge %s was given twice" % n); seen.add(n)
''', "about thirty challenges requested from the same server", "a challenge is issued twice, an observed answer can be replayed")

S("c10-limit32", "C10", [("zdbd/commands_set.c", "        size_t limits = client->ns->maxsize + floating;", "        uint32_t limits = client->ns->maxsize + floating;")],
r'''
z = Zdb().start(); c = z.client(); c("NSNEW", "n")
k = z.client("n")
for lim in (1 << 32, (1 << 32) + 50, 5 << 30, (1 << 33) + 10):
    ok(c("NSSET", "n", "maxsize", lim) == "OK", "NSSET")
    r = k("SET", "key%d" % lim, b"x" * 100)
    ok(not isinstance(r, E), "SET of 100 bytes with a limit of %d bytes answered %r" % (lim, r))
''', "a namespace limit just above a multiple of 4 GiB", "writes are refused although the limit is far")

0 and S("c11-header-end", "C11", [("zdbd/redis.c", "    // do we have available data on the buffer\n    if(available == 0) {\n        // the buffer seems full and we don't have\n        // anything usable, let's try to shift the buffer\n        // and hope next call will be usable\n        if(buffer->remain == 0) {\n            buffer_shift(buffer);\n            return RESP_STATUS_RESET;\n        }\n\n", "    // do we have available data on the buffer\n    if(available == 0) {\n")],
r'''
z = Zdb().start(); c = z.client(); ping = c.enc("PING")
for size in (1024, 2048, 4096, 8192, 16384, 32768):
    k = z.client(); head = b"*3\r\n$3\r\nSET\r\n$5\r\nhello\r\n$7\r\n"; n = (size - len(head) - 40) // len(ping)
    fill = size - len(head) - n * len(ping)
    # a command of the exact missing length
    echo = next(b for b in (k.enc("SET", b"k" * i, b"v") for i in range(1, 250)) if len(b) == fill)
    data = ping * n + echo + head
    ok(len(data) == size, "length")
    k.raw(data); time.sleep(.3)
    try:
        k.raw((b"p%06d" % size) + b"\r\n" + ping)
        for i in range(n): ok(k.recv() == "PONG", "PING")
        k.recv(); r = k.recv(); ok(r == b"hello", "SET cut after %d bytes answers %r" % (size, r)); ok(k.recv() == "PONG", "PING")
    except (EOFError, OSError) as e: ok(0, "SET cut after %d bytes: %r" % (size, e))
''', "the header of a payload which ends exactly at the end of the buffer", "the connection is closed, the request is lost")

S("c14-cached-check", "C14", [("libzdb/data.c", "    int fd;\n\n    // acquire data id fd\n    if((fd = data_grab_dataid(root, dataid)) < 0)\n        return -1;\n\n    int value = data_check_real(fd, offset);\n",
 "    static struct { data_root_t *root; size_t offset; fileid_t dataid; int value; } last = {0};\n    int fd;\n\n    // same payload again, the answer is known\n    if(last.value == 1 && last.root == root && last.offset == offset && last.dataid == dataid)\n        return last.value;\n\n    // acquire data id fd\n    if((fd = data_grab_dataid(root, dataid)) < 0)\n        return -1;\n\n    int value = data_check_real(fd, offset);\n\n    last.root = root;\n    last.offset = offset;\n    last.dataid = dataid;\n    last.value = value;\n")],
r'''
z = Zdb().start(); c = z.client()
v = os.urandom(500); c("SET", "k", v)
ok(c("CHECK", "k") == 1, "CHECK of an intact payload")
p = os.path.join(z.data, "default", "d0"); s = open(p, "rb").read(); o = s.index(v)
with open(p, "r+b") as f: f.seek(o + 100); f.write(bytes([v[100] ^ 1]))
r = c("CHECK", "k"); ok(r == 0, "CHECK of a payload damaged since the previous CHECK answered %r" % (r,))
''', "a payload damaged between two CHECK of the same key", "CHECK answers that the payload is valid")

S("c16-alias", "C16", [("zdbd/redis.c", "        if(checking->watching == client->executed || checking->watching->handler == command_asterisk) {", "        if(checking->watching->handler == client->executed->handler || checking->watching->handler == command_asterisk) {")],
r'''
z = Zdb().start(); c = z.client(); c("SET", "k", b"v")
w = z.client(); w.send("WAIT", "SCAN", "20000"); time.sleep(.4)
c("SCANX"); c("SETX", "a", b"1")
w.s.settimeout(1)
try: r = w.recv(); ok(0, "WAIT SCAN woken up (%r) by SCANX" % (r,))
except socket.timeout: pass
c("SCAN"); w.s.settimeout(10); ok(w.recv() == "SCAN", "woken by SCAN")
''', "a client which waits for a command while another one uses its alias (SCANX, SETX)", "woken by another command than the one requested")

S("c22-raw-fd", "C22", [("libzdb/data.c", "    raw = data_raw_get_real(fd, offset);\n\n    // release dataid\n    data_release_dataid(root, dataid, fd);", "    raw = data_raw_get_real(fd, offset);\n    if(raw.error)\n        return raw;\n\n    // release dataid\n    data_release_dataid(root, dataid, fd);")],
r'''
z = Zdb("--datasize", "524288").start(); c = z.client()
for i in range(6): c("SET", "k%d" % i, os.urandom(260000))
fds = lambda: len(os.listdir("/proc/%d/fd" % z.p.pid))
for i in range(5): c("DATA", "RAW", 0, 1 << 24)
a = fds()
for i in range(40): c("DATA", "RAW", 0, 1 << 24)
ok(fds() <= a, "descriptors after 40 DATA RAW beyond the end of an old file: %d, %d before" % (fds(), a))
''', "DATA RAW of an offset which is not valid, in another data file than the current one", "one descriptor is lost each time")


S("c08-detach-first", "C08", [("zdbd/redis.c", "            zdbd_debug(\"[+] redis: client %d: waiting for disconnection\\n\", clients.list[i]->fd);\n            clients.list[i]->ns = NULL;\n", "            zdbd_debug(\"[+] redis: client %d: waiting for disconnection\\n\", clients.list[i]->fd);\n            clients.list[i]->ns = NULL;\n            break;\n")],
r"""
z = Zdb().start(); a = z.client()
a("NSNEW", "one"); ks = [z.client("one") for _ in range(4)]
for i, k in enumerate(ks): k("SET", "k%d" % i, b"secret")
ok(a("NSDEL", "one") == "OK", "NSDEL"); a("NSNEW", "two")
for i, k in enumerate(ks):
    try: r = k("SET", "late%d" % i, b"late"); g = k("GET", "late%d" % i)
    except (EOFError, OSError): continue
    ok(isinstance(r, E) and isinstance(g, E), "client %d, attached to the deleted namespace, can still SET: %r, GET: %r" % (i, r, g))
ok(z.alive(), "the server ended"); ok(a("PING") == "PONG", "PING")
""", "a namespace deleted while several clients are attached to it", "the clients after the first one keep using the freed namespace")

S("c13-dirty-eighth", "C13", [("libzdb/index.c", "    size_t bytes = (maxid + 8) / 8;", "    size_t bytes = (maxid + 7) / 8;")],
r"""
z = Zdb().start(); c = z.client()
for n in range(1, 18):
    ok(c("NSJUMP") == "OK", "NSJUMP"); c("INDEX", "DIRTY", "RESET")
    c("SET", "k%d" % n, b"v"); c("DEL", "k%d" % n)
    r = c("INDEX", "DIRTY"); ok(r == [n], "an entry of index file %d was changed, INDEX DIRTY answers %r" % (n, r))
""", "a change in the active index file when its number is a multiple of eight", "the file is missing from the dirty list (and a byte outside of the map is written)")

S("c18-grow", "C18", [("libzdb/hook.c", "    // initialize new allocated slots\n    for(size_t i = next; i < hooks->length; i++)\n        hooks->hooks[i] = NULL;\n\n    hooks->hooks[next] = hook;\n", "    hooks->hooks[next] = hook;\n\n    // initialize new allocated slots\n    for(size_t i = next; i < hooks->length; i++)\n        hooks->hooks[i] = NULL;\n")],
r"""
h = os.path.join(TMP, "hook"); open(h, "w").write("#!/bin/sh\nexit 0\n"); os.chmod(h, 0o755)
z = Zdb("--hook", h).start(); c = z.client()
for i in range(20): ok(c("NSNEW", "ns%d" % i) == "OK", "NSNEW")
time.sleep(1.5); c.s.settimeout(5)
try: r = c("HOOKS")
except (socket.timeout, ValueError, EOFError) as e: ok(0, "HOOKS cannot be read (%r)" % e)
names = [x[1][0] for x in r if x[0] == b"namespace-created"]
for i in range(20): ok(b"ns%d" % i in names, "the hook of ns%d is not listed" % i)
""", "more than eight hooks within one minute", "the hook which makes the list grow is lost")

S("c24-del-older", "C24", [("libzdb/index.c", "static inline int index_sync_check(index_root_t *root, int fd) {\n    if(root->sync)\n        return index_sync(root, fd);\n", "static inline int index_sync_check(index_root_t *root, int fd) {\n    if(root->sync && fd == root->indexfd)\n        return index_sync(root, fd);\n")],
r"""
so = preload("log.c"); log = os.path.join(TMP, "log")
z = Zdb("--sync", env={"LD_PRELOAD": so, "IOLOG": log}).start(); c = z.client()
c("SET", "k", b"v"); c("NSJUMP"); c("SET", "other", b"v")
n = len(open(log).read().splitlines())
ok(c("DEL", "k") == "OK", "DEL"); last = {}
for l in open(log).read().splitlines()[n:]:
    w, f = l.split(" ", 1); last[f] = w
for f, w in last.items(): ok(w == "sync", "DEL was confirmed but %s was written and not flushed" % os.path.basename(f))
ok(any(f.endswith("/i0") for f in last), "no write seen on i0: %r" % (last,))
""", "a server running with --sync, DEL (or update) of a key of an older index file, then a power loss", "the deletion was confirmed but is not on the disk", {"log.c": r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void note(const char *w, int fd) {
    char l[64], p[4096]; ssize_t n;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    if((n = readlink(l, p, sizeof p - 1)) < 0) return;
    p[n] = 0;
    if(!strstr(p, "/default/")) return;
    FILE *f = fopen(getenv("IOLOG"), "a"); if(f) { fprintf(f, "%s %s\n", w, p); fclose(f); }
}
ssize_t write(int fd, const void *b, size_t n) { static ssize_t (*r)(int, const void *, size_t); if(!r) r = dlsym(RTLD_NEXT, "write"); ssize_t v = r(fd, b, n); note("write", fd); return v; }
int fsync(int fd) { static int (*r)(int); if(!r) r = dlsym(RTLD_NEXT, "fsync"); int v = r(fd); note("sync", fd); return v; }
int fdatasync(int fd) { static int (*r)(int); if(!r) r = dlsym(RTLD_NEXT, "fdatasync"); int v = r(fd); note("sync", fd); return v; }
"""})

S("c03-index-first", "C03", [("zdbd/commands_set.c", r"""    // insert the data into the datafile
    // this will return the offset where the header is located
    size_t offset = data_insert(data, &dreq);

    // check for write error
    // if we couldn't write the data, we won't add the entry on the index
    // and report to the client an error
    if(offset == 0) {
        redis_hardsend(client, "-Cannot write data right now");
        return 0;
    }

    zdbd_debug("[+] command: set: userkey: ");
""", r"""    // position of this entry in the datafile
    size_t offset = data_next_offset(data);

    zdbd_debug("[+] command: set: userkey: ");
"""),
 ("zdbd/commands_set.c", "    // building response\n    // here, like the original redis protocol, we don't reply with a basic\n", "    // the entry is indexed, insert the data into the datafile\n    if(data_insert(data, &dreq) == 0) {\n        redis_hardsend(client, \"-Cannot write data right now\");\n        return 0;\n    }\n\n    // building response\n    // here, like the original redis protocol, we don't reply with a basic\n")],
r"""
so = preload("kill.c")
for turn in range(1, 7):
    d = os.path.join(TMP, "d%d" % turn); i = os.path.join(TMP, "i%d" % turn)
    z = Zdb(data=d, index=i).start(); c = z.client(); c("SET", "k", b"before"); z.stop()
    z = Zdb(data=d, index=i, env={"LD_PRELOAD": so, "KILLAT": str(turn)})
    try: z.start()
    except RuntimeError: pass
    done = 0
    try:
        c = z.client(); c("SET", "k", b"after"); done = 1
    except (EOFError, OSError): pass
    z.p.kill(); z.p.wait()
    z = Zdb(data=d, index=i).start(); c = z.client(); v = c("GET", "k")
    ok(v in ((b"after",) if done else (b"before", b"after")), "killed at write %d of an update: GET answers %r after the restart" % (turn, v))
    z.stop()
""", "the process killed between the two writes of an update", "the key is indexed without its data, the previous value is lost", {"kill.c": r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int count;
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*r)(int, const void *, size_t); char l[64], p[4096]; ssize_t v;
    if(!r) r = dlsym(RTLD_NEXT, "write");
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    if((v = readlink(l, p, sizeof p - 1)) > 0) { p[v] = 0; if(strstr(p, "/default/") && !strstr(p, "zdb-namespace") && ++count == atoi(getenv("KILLAT"))) raise(SIGKILL); }
    return r(fd, b, n);
}
"""})

S("c04-short-index", "C04", [("libzdb/index.c", "    if(response != (ssize_t) length) {\n        zdb_logerr(\"[-] index write: partial write\\n\");\n        return 0;\n    }\n", "    if(response != (ssize_t) length)\n        zdb_logerr(\"[-] index write: partial write\\n\");\n")],
r"""
so = preload("part.c")
z = Zdb(env={"LD_PRELOAD": so}).start(); c = z.client()
for i in range(5): ok(c("SET", "key-%d" % i, b"v%d" % i) == b"key-%d" % i, "SET")
open(os.path.join(TMP, "now"), "w").close()
r = c("SET", "torn", b"value")
have = {b"key-%d" % i: b"v%d" % i for i in range(5)}
if not isinstance(r, E): have[b"torn"] = b"value"
for i in range(5): ok(c("SET", "later-%d" % i, b"w%d" % i) == b"later-%d" % i, "SET"); have[b"later-%d" % i] = b"w%d" % i
z.args = z.args; z.env = {}; z.restart(); c = z.client()
for k in have: ok(c("GET", k) == have[k], "SET of torn answered %r; GET %r answers %r after the restart" % (r, k, c("GET", k)))
""", "a short write on an index file", "the key is acknowledged, it and the later ones are lost at the restart", {"part.c": r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*r)(int, const void *, size_t); char l[64], p[4096]; ssize_t v;
    if(!r) r = dlsym(RTLD_NEXT, "write");
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    if((v = readlink(l, p, sizeof p - 1)) > 0) { p[v] = 0; if(strstr(p, "/default/i") && unlink("now") == 0) return r(fd, b, n / 2); }
    return r(fd, b, n);
}
"""})

S("c06-deleted-cursor", "C06", [("zdbd/commands_scan.c", "    scaninfo_from_entry(info, entry);\n    // scaninfo_dump(info);\n", "    // nothing to continue from\n    if(index_entry_is_deleted(entry)) {\n        redis_hardsend(client, \"-No more data\");\n        free(entry);\n        return NULL;\n    }\n\n    scaninfo_from_entry(info, entry);\n    // scaninfo_dump(info);\n")],
r"""
z = Zdb("--datasize", "33554432").start(); c = z.client(); N = 60000
for a in range(0, N, 1000):
    c.raw(b"".join(c.enc("SET", "key-%06d" % i, b"v") for i in range(a, a + 1000)))
    for i in range(1000): c.recv()
for cmd in ("SCAN", "RSCAN"):
    seen = []; r = c(cmd)
    gone = set()
    while isinstance(r, list):
        seen += [k[0] for k in r[1]]; last = r[1][-1][0]
        if len(gone) < 3 and len(seen) < N - 100: gone.add(last); c("DEL", last)
        r = c(cmd, r[0])
    missing = {b"key-%06d" % i for i in range(N)} - set(seen)
    if cmd == "RSCAN": missing -= dead
    dead = gone
    ok(gone, "too fast")
    ok(not missing, "%s: %d keys missing, after the key of the cursor was deleted (%r)" % (cmd, len(missing), r))
""", "the last key of a batch deleted before the next SCAN", "the enumeration ends there")

S("c12-scan-buffer", "C12", [("zdbd/commands_scan.c", "    if(!(response = malloc(((MAX_KEY_LENGTH * 2) + 128) * scanlist->length)))", "    if(!(response = malloc(128 + ((MAX_KEY_LENGTH + 24) * scanlist->length))))")],
r"""
z = Zdb("--datasize", "33554432", env={"LD_PRELOAD": "libc_malloc_debug.so.0", "MALLOC_CHECK_": "3"}).start(); c = z.client()
for i in range(300): c("SET", b"%0255d" % i, b"x" * 20000)
try: r = c("SCAN"); c("SCAN", r[0]); ok(c("PING") == "PONG", "PING")
except (EOFError, OSError): ok(0, "server crashed on SCAN")
time.sleep(.2); ok(z.alive(), "server crashed on SCAN")
""", "many keys of 255 bytes with payloads of 10000 bytes or more", "the answer of SCAN is written after the end of its buffer")

S("c17-slow-mirror", "C17", [("zdbd/redis.c", "    // computing the buffer size\n    size_t length = 0;\n    size_t offset = 0;\n\n    // computing length of the array (original one", "    // target does not read, do not keep everything in memory\n    if(target->responses && source->request->argc == 2)\n        return 0;\n\n    // computing the buffer size\n    size_t length = 0;\n    size_t offset = 0;\n\n    // computing length of the array (original one")],
r"""
z = Zdb("--datasize", "67108864").start(); c = z.client(); m = z.client()
ok(not isinstance(m("MIRROR"), E), "MIRROR")
want = []
for i in range(20):
    c("SET", "k%d" % i, bytes([65 + i]) * 1000000); want.append([b"SET", b"k%d" % i])
    if i % 3 == 2: c("DEL", "k%d" % (i - 1)); want.append([b"DEL", b"k%d" % (i - 1)])
got = []
while len(got) < len(want):
    m.s.settimeout(3)
    try: r = m.recv()
    except OSError: break
    got.append(r[3:5])
ok(got == want, "the mirror received %d commands of %d" % (len(got), len(want)))
""", "a mirror which does not read for a while, and a DEL meanwhile", "the deletion is not forwarded")

S("c19-limit-exact", "C19", [("libzdb/api.c", "        if(ns->index->stats.datasize + psize > limits)", "        if(ns->index->stats.datasize + psize >= limits + (floating > 0))")],
r"""
exe = os.path.join(TMP, "embed")
src = os.path.join(REPO, "libzdb")
subprocess.run(["gcc", "-g", "-O0", "-std=gnu99", "-w", "-msse4.2", "-I" + src, "-o", exe, os.path.join(HERE, "embed.c"), os.path.join(src, "libzdb.a"), "-rdynamic"], check=True)
r = subprocess.run([exe, TMP + "/data", TMP + "/index"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=TMP)
ok(r.returncode == 0, r.stdout.decode()[-200:])
""", "a new key which fills the namespace exactly, through the library", "refused, there is enough space", {"embed.c": r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "libzdb.h"
int main(int argc, char **argv) {
    zdb_settings_t *s = zdb_initialize();
    s->datapath = argv[1]; s->indexpath = argv[2];
    zdb_id_set("demo");
    if(argc < 3 || !zdb_open(s)) return 2;
    namespace_t *ns = namespace_get_default();
    ns->maxsize = 100;
    zdb_api_t *r = zdb_api_set(ns, "half", 4, "01234567890123456789012345678901234567890123456789", 50);
    if(r->status != ZDB_API_BUFFER && r->status != ZDB_API_SUCCESS && r->status != ZDB_API_ENTRY) { printf("first set: %d\n", r->status); return 3; }
    zdb_api_reply_free(r);
    r = zdb_api_set(ns, "rest", 4, "01234567890123456789012345678901234567890123456789", 50);
    int status = r->status;
    zdb_api_reply_free(r);
    zdb_close(s);
    printf("set which fills the namespace: %d\n", status);
    return status == ZDB_API_FAILURE;
}
"""})

S("c20-seq-deleted", "C20", [("libzdb/index_set.c", "    // key is not deleted, let's update statistics\n    if(!exists) {\n        // blindly if exists is NULL", "    // nothing to count for a deleted key\n    if(index_entry_is_deleted(new))\n        return new;\n\n    // key is not deleted, let's update statistics\n    if(!exists) {\n        // blindly if exists is NULL")],
r"""
z = Zdb().start(); c = z.client()
ok(c("NSNEW", "s") == "OK" and c("NSSET", "s", "mode", "seq") == "OK" and c("SELECT", "s") == "OK", "namespace")
K = [c("SET", "", b"x" * 10) for i in range(20)]
for i in range(3): r = c("DEL", K[i * 2]); ok(r == "OK", "DEL: %r" % r)
def st(c):
    d = dict(l.split(": ") for l in c("NSINFO", "s").decode().split("\n") if ": " in l)
    return d["entries"], d["data_size_bytes"]
a = st(c); z.restart(); b = st(z.client())
ok(a == b, "entries, data size: %r before the restart, %r after" % (a, b))
""", "a deletion in a sequential namespace, then a restart", "entries and sizes are too low after the restart")

S("c25-maxsize32", "C25", [("zdbd/zdbd.c", "                zdb_settings->maxsize = atol(optarg);", "                zdb_settings->maxsize = strtoul(optarg, NULL, 10) & UINT32_MAX;")],
r"""
z = Zdb("--maxsize", "5000000000").start(); c = z.client(); c("NSNEW", "n")
v = [l for l in c("NSINFO", "default").decode().split("\n") if l.startswith("data_limits_bytes")][0].split(": ")[1]
ok(v == "5000000000", "--maxsize 5000000000: the default namespace is limited to %s" % v)
""", "--maxsize with a value over 4 GiB", "another limit is used")

S("c15-compact-older", "C15", [("tools/quick-compaction/quick-compact.c", "        if(truedid != fileid) {\n            printf(\"[+] quick-compact: opening another datafile\\n\");", "        if(truedid > fileid) {\n            printf(\"[+] quick-compact: opening another datafile\\n\");")],
r"""
d, i, d2, i2 = (os.path.join(TMP, x) for x in ("data", "index", "d2", "i2"))
z = Zdb("--datasize", "524288", "--mode", "seq", data=d, index=i).start(); c = z.client()
V = {}
for n in range(12): k = c("SET", "", b"%02d" % n * 33000); V[k] = b"%02d" % n * 33000
for k in list(V)[:9]: c("SET", k, b"new"); V[k] = b"new"
c("SET", "", b"end")
z.stop()
os.makedirs(d2); os.makedirs(i2)
r = subprocess.run([os.path.join(REPO, "tools/quick-compaction/quick-compact"), "--in-data", d, "--in-index", i, "--out-data", d2, "--out-index", i2, "--namespace", "default"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
ok(r.returncode == 0, "quick-compact failed: %r" % r.stdout[-200:])
z = Zdb("--datasize", "524288", "--mode", "seq", data=d2, index=i2).start(); c = z.client()
for k in V: ok(c("GET", k) == V[k], "GET %r after the compaction" % k)
""", "a sequential key updated after a file rotation", "the tool reads the old version in the wrong file, and stops")

S("c06-seq-previous", "C06", [("libzdb/index_set.c", "    // important fix: do not update previous field\n    // keeping original previous offset\n    item->previous = original.previous;\n", "    // important fix: do not update previous field\n    // keeping original previous offset (not for the first one, there is nothing before)\n    if(original.previous > sizeof(index_header_t))\n        item->previous = original.previous;\n")],
r"""
z = Zdb("--mode", "seq").start(); c = z.client()
K = [c("SET", "", b"v%d" % i) for i in range(8)]
def walk(cmd):
    seen = []; r = c(cmd)
    while isinstance(r, list) and len(seen) < 50: seen += [k[0] for k in r[1]]; r = c(cmd, r[0])
    return seen
ok(c("SET", K[1], b"other") == K[1], "SET")
ok(walk("SCAN") == K, "SCAN: %r" % walk("SCAN"))
ok(walk("RSCAN") == K[::-1], "RSCAN: %r" % walk("RSCAN"))
""", "the second key of a sequential namespace updated", "RSCAN does not reach the first key anymore")

S("c05-seqmap", "C05", [("libzdb/index_seq.c", "        if(seqid->seqmap[lower].seqid < id && seqid->seqmap[lower + 1].seqid > id)\n            return &seqid->seqmap[lower];\n\n        // it's on the higher side\n        lower = mid;\n", "        if(seqid->seqmap[lower].seqid < id && seqid->seqmap[lower + 1].seqid > id)\n            return &seqid->seqmap[lower];\n\n        // it's on the higher side\n        lower = (higher - mid > 8) ? mid + 1 : mid;\n")],
r"""
z = Zdb("--mode", "seq").start(); c = z.client(); V = {}
for f in range(40):
    for i in range(3): v = b"value %d in file %d" % (i, f); V[c("SET", "", v)] = v
    ok(c("NSJUMP") == "OK", "NSJUMP")
for k in V: ok(c("GET", k) == V[k], "GET %r answers %r, not %r" % (k, c("GET", k), V[k]))
""", "a sequential namespace with more than 16 files", "some keys are searched in the wrong file")

S("c21-data-shared", "C21", [("libzdb/bootstrap.c", "    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)\n        return NULL;\n", "    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)\n        zdb_warning(\"[-] bootstrap: could not lock data directory\");\n")],
r"""
a = Zdb(index=TMP + "/index-a", data=TMP + "/shared").start()
try: b = Zdb(index=TMP + "/index-b", data=TMP + "/shared").start(wait=5); ok(0, "a second server runs on the same data directory")
except RuntimeError: pass
c = a.client(); c("SET", "k", "v"); ok(c("GET", "k") == b"v", "GET")
""", "two servers with their own index directory and the same data directory", "both run and write in the same files")

S("c26-replicate-empty", "C26", [("utilities/db-replicate/db-replicate.c", "            // append the get in the buffer\n", "            // append the get in the buffer, if there is something to get\n            if(item->element[1]->integer == 0)\n                continue;\n\n")],
r'''
def port():
    k = socket.socket(); k.bind(("127.0.0.1", 0)); p = k.getsockname()[1]; k.close(); return p
def serve(name):
    for _ in range(5):
        p = port()
        try: return p, Zdb("--dualnet", "--listen", "127.0.0.1", "--port", str(p), data=TMP + "/%s-d" % name, index=TMP + "/%s-i" % name).start()
        except RuntimeError: pass
    ok(0, "cannot start a server")
p1, z1 = serve("source"); p2, z2 = serve("target")
c = z1.client(); D = {b"one": b"1", b"empty": b"", b"two": b"2"}
for k in D: ok(c("SET", k, D[k]) == k, "SET")
r = subprocess.Popen([os.path.join(REPO, "utilities/db-replicate/db-replicate"), "--source-host", "127.0.0.1", "--source-port", str(p1), "--remote-host", "127.0.0.1", "--remote-port", str(p2)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); procs.append(r)
t = z2.client(); end = time.time() + 10
while time.time() < end and t("GET", "two") is None: time.sleep(.1)
time.sleep(.3)
for k in D: ok(t("GET", k) == D[k], "GET %r on the copy answers %r" % (k, t("GET", k)))
''', "an empty value on the source", "it is not copied, nothing is reported")
