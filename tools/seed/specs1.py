S("c01-branch-tail", "C01", [("libzdb/index_branch.c", "    if(previous)\n        previous->next = entry->next;\n\n    // if our entry was the last one\n    // the new last one is the previous one\n    if(branch->last == entry)\n        branch->last = previous;\n",
 "    // or, without any previous one, the branch is maybe empty now\n    if(previous)\n        previous->next = entry->next;\n\n    else if(branch->last == entry)\n        branch->last = NULL;\n")],
r'''
import itertools, struct
def crc(b):
    c = 0
    for x in b:
        c ^= x
        for _ in range(8): c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
    return c
seen = {}
# keys of the same bucket (24 bits of the checksum): birthday search over linear combinations is not needed, the checksum is linear
K = (1 | (0x82F63B78 << 1)).to_bytes(5, "little")
def mix(a, n): return a[:n] + bytes(x ^ y for x, y in zip(a[n:n + 5], K)) + a[n + 5:]
k1 = b"abcdefghijklmnopqrst"; k2 = mix(k1, 0); k3 = mix(k1, 6); k4 = mix(k1, 12)
assert len({crc(k) for k in (k1, k2, k3, k4)}) == 1
z = Zdb().start(); c = z.client()
for k in (k1, k2, k3): c("SET", k, b"v" + k)
ok(c("DEL", k3) == "OK", "DEL")
ok(c("SET", k4, b"four") == k4, "SET")
c("SET", b"unrelated", b"x")
for k, v in ((k1, b"v" + k1), (k2, b"v" + k2), (k4, b"four")):
    ok(z.alive(), "server alive"); ok(c("GET", k) == v, "GET of a key sharing the bucket")
''', "two keys of the same hash bucket: the most recently added one deleted, then another key of that bucket inserted", "the inserted key is appended to a freed entry and is not found")

S("c02-flags", "C02", [("libzdb/namespace.c", "    namespace->public = (header.flags & NS_FLAGS_PUBLIC);", "    namespace->public = ((header.flags & (NS_FLAGS_PUBLIC | NS_FLAGS_WORM)) == NS_FLAGS_PUBLIC);")],
r'''
z = Zdb().start(); c = z.client()
c("NSNEW", "a"); c("NSSET", "a", "password", "pw"); c("NSSET", "a", "worm", "1"); c("NSSET", "a", "public", "1")
def public(): return [l for l in z.client()("NSINFO", "a").decode().split("\n") if l.startswith("public")][0]
b = public()
z.restart()
ok(public() == b, "public flag after a restart: %s, before: %s" % (public(), b))
''', "a namespace with both the worm and the public flag, then a restart or RELOAD", "the namespace is not public anymore after a restart")

S("c04-short-data", "C04", [("libzdb/data.c", "    if(response != (ssize_t) length) {", "    // an empty payload writes nothing\n    if(length && response == 0) {")],
r'''
so = preload("cut.c")
flag = os.path.join(TMP, "flag"); open(flag, "w").close()
z = Zdb(env={"LD_PRELOAD": so, "CUT_FLAG": flag, "CUT_DIR": os.path.join(TMP, "data")}).start(); c = z.client()
c("SET", "a", b"first value")
open(flag, "w").write("1")
r = c("SET", "b", b"B" * 5000)
open(flag, "w").close()
if not isinstance(r, E): ok(c("GET", "b") == b"B" * 5000, "SET of a value cut short by the disk answered %r, but GET answers %r" % (r, str(c("GET", "b"))[:40]))
ok(c("SET", "c", b"third") == b"c", "SET once the disk works")
ok(c("GET", "c") == b"third", "GET"); ok(c("GET", "a") == b"first value", "GET a")
''', "a write to the data file which is cut short (disk full in the middle of a payload)", "the SET is acknowledged although only a part of the payload is stored",
 {"cut.c": r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
// writes longer than 1000 bytes to files of CUT_DIR are cut short when CUT_FLAG is not empty
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if(!real) real = dlsym(RTLD_NEXT, "write");
    char l[64], p[4096]; struct stat st;
    char *dir = getenv("CUT_DIR"), *flag = getenv("CUT_FLAG");
    if(n > 1000 && dir && flag && stat(flag, &st) == 0 && st.st_size) {
        snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
        ssize_t k = readlink(l, p, sizeof(p) - 1);
        if(k > 0) { p[k] = 0; if(!strncmp(p, dir, strlen(dir))) n = 700; }
    }
    return real(fd, b, n);
}
'''})

S("c06-rscan-offset", "C06", [("libzdb/index_scan.c", "        if(source.previous >= current) {", "        if(source.previous > current) {")],
r'''
z = Zdb().start(); c = z.client()
c.s.settimeout(10)
c("NSNEW", "a"); c("SELECT", "a")
c("SET", "one", b"1"); c("NSJUMP"); c("SET", "two", b"2"); c("SET", "three", b"3")
keys = []; cur = None
try:
    for _ in range(10):
        r = c("RSCAN", cur) if cur else c("RSCAN")
        if isinstance(r, E): break
        cur = r[0]; keys += [x[0] for x in r[1]]
except OSError: ok(False, "RSCAN does not answer")
ok(keys == [b"three", b"two", b"one"], "RSCAN walked over %r" % keys)
''', "RSCAN over an index file whose predecessor contains exactly one entry", "the walk does not continue in the previous file")

S("c07-replay-parent", "C07", [("libzdb/index_loader.c", "            .parentid = entry->parentid,\n            .parentoff = entry->parentoff,\n", "            .parentid = entry->parentoff ? root->indexid : 0,\n            .parentoff = entry->parentoff,\n")],
r'''
z = Zdb().start(); c = z.client()
c("SET", "k", b"first"); c("NSJUMP"); c("SET", "k", b"second"); c("SET", "other", b"x")
def hist(c):
    out = []; n = None
    while True:
        r = c("HISTORY", "k", n) if n else c("HISTORY", "k")
        if isinstance(r, E): out.append(r); break
        out.append(r[2]); n = r[0]
        if n is None: break
    return out
ok(hist(c) == [b"second", b"first"], "history")
z.restart()
h = hist(z.client())
ok(h == [b"second", b"first"], "history after a restart: %r" % h)
''', "a key updated in a later file than its previous version, then a restart, then HISTORY", "the previous version cannot be reached anymore")

S("c08-cleaner", "C08", [("libzdb/index.c", "        if(entry->namespace != namespace) {\n            // keeping this key, looking forward\n            previous = entry;\n            entry = entry->next;\n            continue;\n        }\n\n        #ifndef RELEASE", "        if(entry->namespace != namespace) {\n            // keeping this key, looking forward\n            entry = entry->next;\n            continue;\n        }\n\n        #ifndef RELEASE"),
 ("libzdb/index.c", "        // okay, we need to remove this key\n        index_entry_t *next = entry->next;\n", "        // okay, we need to remove this key\n        index_entry_t *next = entry->next;\n        previous = index_branch_get_previous(branch, branch->list == entry ? entry : branch->last);\n")],
r'''
K = (1 | (0x82F63B78 << 1)).to_bytes(5, "little")
def mix(a, n): return a[:n] + bytes(x ^ y for x, y in zip(a[n:n + 5], K)) + a[n + 5:]
k = b"abcdefghijklmnopqrstuvwxyz"; ks = [k, mix(k, 0), mix(k, 6), mix(k, 12), mix(k, 18)]
z = Zdb().start(); c = z.client()
c("NSNEW", "a"); c("NSNEW", "b")
a, b = z.client("a"), z.client("b")
for x in ks[:2]: b("SET", x, b"b" + x)
a("SET", k, b"a" + k)
for x in ks[2:]: b("SET", x, b"b" + x)
ok(c("NSDEL", "a") == "OK", "NSDEL")
for x in ks: ok(b("GET", x) == b"b" + x, "key of another namespace after NSDEL")
b("SET", mix(ks[1], 6), b"new"); ok(b("GET", mix(ks[1], 6)) == b"new", "new key")
for x in ks: ok(b("GET", x) == b"b" + x, "key of another namespace after NSDEL")
''', "a bucket shared by keys of two namespaces, the deleted namespace's key in the middle of the chain", "keys of another namespace disappear when a namespace is deleted")

S("c10-maxsize-floating", "C10", [("zdbd/commands_set.c", "        size_t limits = client->ns->maxsize + floating;\n", "        size_t limits = client->ns->maxsize;\n\n        // replacing a key frees what it was using\n        if(entry)\n            limits += index->stats.datasize < floating ? floating : entry->length + request->argv[1]->length;\n")],
r'''
z = Zdb().start(); c = z.client()
c("NSNEW", "a"); c("NSSET", "a", "maxsize", "1000"); c("SELECT", "a")
c("SET", "k" * 100, b"x" * 500); c("SET", "other", b"y" * 400)
r = c("SET", "k" * 100, b"z" * 650)
ok(isinstance(r, E), "SET beyond maxsize answered %r" % r)
ok(c("SET", "k" * 100, b"z" * 600) == b"k" * 100, "SET up to maxsize")
''', "overwriting a key when the namespace is nearly full, beyond its limit by less than the length of the key", "the namespace grows over its maxsize")

S("c13-dirty-file", "C13", [("libzdb/index_set.c", "    index_dirty_set(root, seqmap->fileid, 1);\n", "    index_dirty_set(root, root->indexid, 1);\n")],
r'''
z = Zdb("--mode", "seq").start(); c = z.client()
k = c("SET", "", b"one"); c("NSJUMP"); c("SET", "", b"two"); c("NSJUMP")
c("INDEX", "DIRTY", "RESET")
c("SET", k, b"updated")
r = c("INDEX", "DIRTY")
ok(0 in r, "files modified since the reset: %r, file 0 was modified" % r)
''', "sequential mode, an update of an id which lives in an older index file", "the modified index file is not reported by INDEX DIRTY")

S("c05-relative16", "C05", [("libzdb/index_get.c", "    uint32_t relative = key - seqmap->seqid;", "    uint16_t relative = key - seqmap->seqid;")],
r'''
z = Zdb("--mode", "seq", "--datasize", "67108864").start(); c = z.client()
n = 66000
for b in range(0, n, 500):
    for i in range(b, b + 500): c.send("SET", "", b"v%d" % i)
    for i in range(b, b + 500): c.recv()
for i in (0, 1, 65534, 65535, 65536, 65537, 65999):
    v = c("GET", i.to_bytes(8, "little"))
    ok(v == b"v%d" % i, "GET %d: %r" % (i, v))
''', "more than 65536 ids in one file of a sequential namespace", "ids resolve to another slot, live entries answer as missing")

S("c05-realloc", "C05", [("libzdb/index_seq.c", "    if(root->seqid->length + 1 == root->seqid->allocated) {\n        // growing up the vector\n        root->seqid->allocated += 1024;", "    if(root->seqid->length + 1 == 1024) {\n        // growing up the vector\n        root->seqid->allocated += 1024;")],
r'''
z = Zdb("--mode", "seq").start(); c = z.client()
ids = []
for i in range(6000):
    ids.append((c("SET", "", b"v%d" % i), b"v%d" % i))
    ok(c("NSJUMP") == "OK", "NSJUMP")
    if i > 2000: ok(c("GET", ids[-1][0]) == b"v%d" % i, "GET of %d" % i)
c("NSNEW", "b"); c("SELECT", "b"); c("SET", "", b"x"); c("SELECT", "default")
for k, v in ids: ok(c("GET", k) == v, "GET %r" % k)
''', "more than 2048 index files in a sequential namespace", "the map of the files is not grown anymore, ids are written over the heap")
