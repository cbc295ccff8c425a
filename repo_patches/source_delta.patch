From ac261150238c89eb579560f76922ae01612cf3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 01/58] fix: sequential lookup: only accept the slot which
 belongs to the requested id

---
 libzdb/index_get.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..a65905b 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -37,6 +37,15 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
         return NULL;
 
+    // ensure this slot really belongs to the requested key, the slot could
+    // be an internal copy of another key or an alias caused by an id
+    // out of range
+    if(item->idlength != sizeof(seqid_t) || memcmp(item->id, &key, sizeof(seqid_t)) != 0) {
+        zdb_debug("[-] index: sequential get: key mismatch\n");
+        free(item);
+        return NULL;
+    }
+
     memcpy(index_reusable_entry->id, item->id, item->idlength);
     index_reusable_entry->idlength = item->idlength;
     index_reusable_entry->offset = item->offset;
-- 
2.43.0


From 4218fffdd5c5c6a9d82fbc36ec67c233c9116fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 02/58] fix: store the data file id in the index entry of new
 keys

---
 zdbd/commands_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From db563533260d7e7a3efdd1dc44466c0dc4e109f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 03/58] fix: cursors: keep sequential cursors valid after an
 update, check the key length

---
 libzdb/index.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..58172d7 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -631,6 +631,46 @@ index_bkey_t index_entry_serialize(index_entry_t *entry) {
 }
 
 
+// check if the object found on disk is the one designated by the binary key
+//
+// in sequential mode, the slot of a key is overwritten when the key is updated,
+// the binary key can then designate any previous version of that slot
+static int index_bkey_match(index_root_t *root, index_item_t *item, index_bkey_t *key) {
+    if(item->length == key->length && item->crc == key->crc)
+        return 1;
+
+    if(root->mode != ZDB_MODE_SEQUENTIAL)
+        return 0;
+
+    fileid_t parentid = item->parentid;
+    uint32_t parentoff = item->parentoff;
+    int match = 0;
+
+    while(parentoff != 0 && !match) {
+        index_item_t *parent;
+
+        if(!(parent = index_item_get_disk(root, parentid, parentoff, item->idlength)))
+            return 0;
+
+        if(parent->idlength != item->idlength || memcmp(parent->id, item->id, item->idlength) != 0) {
+            free(parent);
+            return 0;
+        }
+
+        match = (parent->length == key->length && parent->crc == key->crc);
+
+        // history only goes backward
+        if(parent->parentid > parentid || (parent->parentid == parentid && parent->parentoff >= parentoff))
+            parent->parentoff = 0;
+
+        parentid = parent->parentid;
+        parentoff = parent->parentoff;
+        free(parent);
+    }
+
+    return match;
+}
+
 // read an object from disk, based on binarykey provided
 // and ensure the key object seems legit with the requested key
 index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
@@ -644,7 +684,7 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->length != key->length || item->crc != key->crc) {
+    if(item->idlength != key->idlength || !index_bkey_match(root, item, key)) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
-- 
2.43.0


From d4315c0a756a8879a136e1c0440ec8ab4c513be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 04/58] fix: rscan: skip index files which contains no entry

---
 libzdb/index_scan.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e3480d0..58eccd2 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -26,6 +26,12 @@ static inline index_scan_t index_scan_error(index_scan_t original, index_scan_st
     return original;
 }
 
+// an index file without any entry (eg: just after a jump) can't contains the
+// previous entry, which lives in an older file
+static inline int index_scan_file_empty(index_scan_t scan) {
+    return lseek(scan.fd, 0, SEEK_END) <= (off_t) sizeof(index_header_t);
+}
+
 //
 // oops, some mistake happened
 //
@@ -196,7 +202,10 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
         }
 
         // trying to get entry
-        scan = index_previous_header_real(scan);
+        if(scan.target && index_scan_file_empty(scan))
+            scan = index_scan_error(scan, scan.fileid ? INDEX_SCAN_REQUEST_PREVIOUS : INDEX_SCAN_NO_MORE_DATA);
+        else
+            scan = index_previous_header_real(scan);
 
         // release fileid
         index_release_fileid(root, scan.fileid, scan.fd);
@@ -518,7 +527,10 @@ index_scan_t index_last_header(index_root_t *root) {
         }
 
         // trying to get entry
-        scan = index_last_header_real(scan);
+        if(scan.target && index_scan_file_empty(scan))
+            scan = index_scan_error(scan, scan.fileid ? INDEX_SCAN_REQUEST_PREVIOUS : INDEX_SCAN_NO_MORE_DATA);
+        else
+            scan = index_last_header_real(scan);
 
         // release fileid
         index_release_fileid(root, scan.fileid, scan.fd);
-- 
2.43.0


From cf122559cbd9bb3264ffbd4e3625f12937f24ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 05/58] fix: scan: always make progress, even when the
 timeslice is already over

---
 zdbd/commands_scan.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..63ea7d1 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -246,7 +246,9 @@ int command_scan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // always do at least one step, whatever the time spent since basetime,
+    // an empty list means there is no more data
+    do {
         zdbd_debug("[+] scan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -261,7 +263,8 @@ int command_scan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
@@ -303,7 +306,9 @@ int command_rscan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // always do at least one step, whatever the time spent since basetime,
+    // an empty list means there is no more data
+    do {
         zdbd_debug("[+] rscan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -318,7 +323,8 @@ int command_rscan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
-- 
2.43.0


From 0c50e2c74fae14b70462bb13f1603f28730f0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 06/58] fix: graceful stop: free the shared branches when the
 default namespace is sequential

---
 libzdb/namespace.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..ce93dea 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -507,13 +507,12 @@ void namespace_free(namespace_t *namespace) {
 // let's clean all indices, data and namespace arrays
 int namespaces_destroy() {
     // freeing the big index buffer
-    // since branches want an index as argument, let's use
-    // the first namespace (default), since they all share
-    // the same buffer
+    // this buffer is shared by all the namespaces, but not every namespace
+    // have a link to it (sequential ones don't)
     if(nsroot->branches) {
         zdb_debug("[+] namespaces: cleaning branches\n");
         for(uint32_t b = 0; b < buckets_branches; b++)
-            index_branch_free(nsroot->namespaces[0]->index->branches, b);
+            index_branch_free(nsroot->branches, b);
 
         // freeing the big index array
         free(nsroot->branches);
-- 
2.43.0


From 237992fa738f2c6c4258052ee3d3873a67ebb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 07/58] fix: sequential mode: map ids correctly when some index
 files are empty

---
 libzdb/index_loader.c | 25 ++++++++++++-------------
 libzdb/index_seq.c    |  7 +++++++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..1c1ec18 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,7 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
 
     // reading the index, populating memory
     //
@@ -314,6 +313,17 @@ static size_t index_load_file(index_root_t *root) {
     // this file, starting from zero
     root->nextid = 0;
 
+    // checking if we are in sequential mode, we need to populate
+    // our mapping with the first key of this file (even if there is no
+    // key yet, it will be the next one inserted)
+    //
+    // the set operation will update 'nextentry' counter
+    // we need to update seqid before inserting key
+    if(root->seqid) {
+        index_seqid_push(root, root->nextentry, root->indexid);
+        // index_seqid_dump(root);
+    }
+
     while(seeker < filebuf + fullsize) {
         index_entry_t *fresh = NULL;
 
@@ -337,17 +347,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..509fc83 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,13 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // previous file mapped doesn't contains any entry, this
+    // id will be the first one of this new file
+    if(root->seqid->length > 0 && root->seqid->seqmap[root->seqid->length - 1].seqid == id) {
+        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;
+        return;
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From df171a13a799dee8243cfa43f5064df283a94957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 08/58] fix: history: refuse too long keys and entries of
 another key, release the entry on failure

---
 zdbd/commands_history.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..98c12e5 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -101,6 +101,12 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     data_root_t *data = client->ns->data;
     history_response_t response;
 
+    if(!item) {
+        zdb_log("[-] command: history: cannot read index entry\n");
+        redis_hardsend(client, "-Internal Error");
+        return 1;
+    }
+
     // dump entry found
     index_item_header_dump(item);
 
@@ -110,7 +116,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     if(!response.payload.buffer) {
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
-        free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
@@ -155,6 +161,13 @@ int command_history(redis_client_t *client) {
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
+    // no key can be longer than the maximum length, this would
+    // otherwise be truncated and match another key
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Key too large");
+        return 1;
+    }
+
     // requesting a previous data, without any exact offset
     // this basicly request the first older entry of a specific key
     if(client->request->argc == 2) {
@@ -211,7 +224,7 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
-- 
2.43.0


From e885903038ed437d2f7dc5a8c66471ecee726b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 09/58] fix: keycur: refuse too long keys

---
 zdbd/commands_scan.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 63ea7d1..0fc001e 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -351,6 +351,12 @@ int command_keycur(redis_client_t *client) {
     index_root_t *index = client->ns->index;
     resp_object_t *key = request->argv[1];
 
+    // a longer key can't exists (length would be truncated)
+    if(key->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(!(entry = index_get(index, key->buffer, key->length))) {
         redis_hardsend(client, "-Key not found");
         return 1;
-- 
2.43.0


From b90b29a5ba566923192aa8483a8ad3e484354e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 10/58] fix: flush: remove the data and index files of the
 namespace, keep its mode

---
 libzdb/filesystem.c | 20 ++++++++++----------
 libzdb/namespace.c  |  9 +++++++++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 7190c62..32e7f77 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -70,20 +70,20 @@ int zdb_dir_remove(char *path) {
     return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
+// check if a filename is a data or index file (eg: d0, i12)
+static int dir_payload_file(const char *name) {
+    if(*name != 'd' && *name != 'i')
+        return 0;
+
+    return name[1] != '\0' && name[1 + strspn(name + 1, "0123456789")] == '\0';
+}
+
 static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
     (void) sb;
-    (void) ftwbuf;
-    (void) tflag;
     char *fullpath = (char *) fpath;
-    size_t length = strlen(fullpath);
-
-    if(strncmp(fullpath + length - 14, "zdb-data-", 9) == 0) {
-        zdb_debug("[+] filesystem: removing datafile: %s\n", fullpath);
-        unlink(fullpath);
-    }
 
-    if(strncmp(fullpath + length - 15, "zdb-index-", 10) == 0) {
-        zdb_debug("[+] filesystem: removing indexfile: %s\n", fullpath);
+    if(tflag == FTW_F && ftwbuf->level == 1 && dir_payload_file(fullpath + ftwbuf->base)) {
+        zdb_debug("[+] filesystem: removing payload file: %s\n", fullpath);
         unlink(fullpath);
     }
 
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index ce93dea..88436d9 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -633,6 +633,7 @@ int namespace_flush(namespace_t *namespace) {
 
     char *indexpath = strdup(namespace->index->indexdir);
     char *datapath = strdup(namespace->data->datadir);
+    index_mode_t mode = namespace->index->mode;
 
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
@@ -645,6 +646,14 @@ int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
 
+    // there is nothing left on disk to know the mode of that
+    // namespace, keeping the one it had
+    if(namespace->index->mode != mode) {
+        namespace->index->mode = mode;
+        index_switch_mode(namespace->index);
+        index_rehash(namespace->index);
+    }
+
     free(indexpath);
     free(datapath);
 
-- 
2.43.0


From 65ef7f7ac43b4479c63b3cc9327a1355176a25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 11/58] fix: namespaces: refuse an empty name (name beginning
 with a null byte)

---
 libzdb/namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 88436d9..2718956 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -365,6 +365,10 @@ int namespace_create(char *name) {
 }
 
 int namespace_valid_name(char *name) {
+    // an empty name designates the root directories
+    if(*name == '\0')
+        return 0;
+
     if(strcmp(name, ".") == 0 || strcmp(name, "..") == 0)
         return 0;
 
-- 
2.43.0


From 3b42f40a186f87cc7cab1e09fd4e8d08d6d7b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 12/58] fix: flush: refuse when the client is read-only or the
 namespace is locked, frozen or worm

---
 zdbd/commands_namespace.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..8c22aa4 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -647,6 +647,25 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    // flushing is a write (and a deletion) like any other
+    if(!client->writable) {
+        zdbd_debug("[-] command: flush: denied, read-only namespace\n");
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
+    if(namespace->worm) {
+        zdbd_debug("[-] command: flush: denied, namespace in worm mode\n");
+        redis_hardsend(client, "-Cannot flush a namespace in worm mode");
+        return 1;
+    }
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
-- 
2.43.0


From b64ef58074d483202e81104d78ffc6271bbb5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 13/58] fix: kscan: refuse when the namespace is frozen

---
 zdbd/commands_scan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 0fc001e..41f335c 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -478,6 +478,9 @@ int command_kscan(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     resp_object_t *key = request->argv[1];
     list_t keys = list_init(NULL);
 
-- 
2.43.0


From 133ad32d7dd5088f511aa1d4328c0d12297c64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 14/58] fix: password check: compare the whole input, not only
 up to the first null byte

---
 zdbd/auth.c               |  6 ++----
 zdbd/commands_namespace.c | 12 +++---------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/zdbd/auth.c b/zdbd/auth.c
index 0d4b947..d657ab7 100644
--- a/zdbd/auth.c
+++ b/zdbd/auth.c
@@ -8,10 +8,8 @@
 // check if user input (buffer with buffer length)
 // does match with expected password string, unified way
 int zdbd_password_check(char *input, int length, char *expected) {
-    char password[192];
-    sprintf(password, "%.*s", length, input);
-
-    if(strcmp(password, expected) == 0) {
+    // compare the full input, even if it contains null bytes
+    if(length >= 0 && (size_t) length == strlen(expected) && memcmp(input, expected, length) == 0) {
         zdbd_debug("[+] password: access granted\n");
         return 1;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 8c22aa4..565a3ec 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -162,19 +162,13 @@ int command_select(redis_client_t *client) {
 
             // SELECT namespace password
             if(request->argc == 3) {
-                char password[256];
-
-                if(request->argv[2]->length > (ssize_t) sizeof(password) - 1) {
+                if(request->argv[2]->length > 255) {
                     redis_hardsend(client, "-Password too long");
                     return 1;
                 }
 
-                // copy password to a temporary variable
-                // to check password match using strcmp and no any strncmp
-                // to ensure we check exact password
-                sprintf(password, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
-
-                if(strcmp(password, namespace->password) != 0) {
+                // check the exact password
+                if(!zdbd_password_check(request->argv[2]->buffer, request->argv[2]->length, namespace->password)) {
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
-- 
2.43.0


From d30536849cc736a30c64870b4e64b6dcb76616eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 15/58] fix: select: a challenge can be used only once

---
 zdbd/commands_namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 565a3ec..6cacad4 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -207,6 +207,10 @@ int command_select(redis_client_t *client) {
 
                 zdbd_debug("[+] namespace: auth: expected hash: %s\n", expected);
 
+                // the challenge can be used only once
+                free(client->nonce);
+                client->nonce = NULL;
+
                 resp_object_t *user = request->argv[3];
 
                 if(zdbd_password_check(user->buffer, user->length, expected) == 0) {
-- 
2.43.0


From 68c3bb3577c751002b082ed5aa65ed8d3b80f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 16/58] fix: sync: report a failed flush, never leave a file
 behind unflushed

---
 libzdb/data.c         | 26 +++++++++++++++++++-------
 libzdb/index.c        | 26 +++++++++++++++++---------
 libzdb/index_loader.c |  2 +-
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 7e7aac3..cdefa90 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -32,9 +32,20 @@ static void data_entry_header_dump(data_entry_header_t *entry) {
 #endif
 
 // force to sync the data buffer into the underlaying device
+// returns 0 if the data are not known to be on the device
 static inline int data_sync(data_root_t *root, int fd) {
-    fsync(fd);
-    root->lastsync = time(NULL);
+    if(fsync(fd) < 0) {
+        root->stats.errors += 1;
+        root->stats.lasterr = time(NULL);
+
+        zdb_warnp("data sync");
+        return 0;
+    }
+
+    // only the active file matter, if any
+    if(fd == root->datafd)
+        root->lastsync = time(NULL);
+
     return 1;
 }
 
@@ -48,14 +59,15 @@ static inline int data_sync_check(data_root_t *root, int fd) {
         return data_sync(root, fd);
 
     if(!root->synctime)
-        return 0;
+        return 1;
 
-    if((time(NULL) - root->lastsync) > root->synctime) {
+    // this file will not be touched anymore, don't delay
+    if(fd != root->datafd || (time(NULL) - root->lastsync) >= root->synctime) {
         zdb_debug("[+] data: last sync expired, forcing sync\n");
         return data_sync(root, fd);
     }
 
-    return 0;
+    return 1;
 }
 
 // wrap (mostly) all write operations to the datafile
@@ -96,7 +108,7 @@ static int data_write(int fd, void *buffer, size_t length, int syncer, data_root
     zdb_rootsettings.stats.datadiskwrite += length;
 
     if(syncer)
-        data_sync_check(root, fd);
+        return data_sync_check(root, fd);
 
     return 1;
 }
@@ -422,7 +434,7 @@ size_t data_jump_next(data_root_t *root, fileid_t newid) {
     }
 
     // flushing data
-    if(root->secure) {
+    if(root->secure || root->synctime) {
         zdb_verbose("[+] data: flushing file before closing\n");
         fsync(root->datafd);
     }
diff --git a/libzdb/index.c b/libzdb/index.c
index 58172d7..4a57be1 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -62,9 +62,18 @@ void index_io_error(index_root_t *root) {
 }
 
 // force index to be sync'd with underlaying device
+// returns 0 if the index is not known to be on the device
 static inline int index_sync(index_root_t *root, int fd) {
-    fsync(fd);
-    root->lastsync = time(NULL);
+    if(fsync(fd) < 0) {
+        index_io_error(root);
+        zdb_warnp("index sync");
+        return 0;
+    }
+
+    // only the active file matter, if any
+    if(fd == root->indexfd)
+        root->lastsync = time(NULL);
+
     return 1;
 }
 
@@ -78,14 +87,15 @@ static inline int index_sync_check(index_root_t *root, int fd) {
         return index_sync(root, fd);
 
     if(!root->synctime)
-        return 0;
+        return 1;
 
-    if((time(NULL) - root->lastsync) > root->synctime) {
+    // this file was opened only for this change, don't delay
+    if(fd != root->indexfd || (time(NULL) - root->lastsync) >= root->synctime) {
         zdb_debug("[+] index: last sync expired, force sync\n");
         return index_sync(root, fd);
     }
 
-    return 0;
+    return 1;
 }
 
 
@@ -123,9 +133,7 @@ int index_write(int fd, void *buffer, size_t length, index_root_t *root) {
     zdb_rootsettings.stats.idxdiskwrite += length;
 
     // flush disk if needed
-    index_sync_check(root, fd);
-
-    return 1;
+    return index_sync_check(root, fd);
 }
 
 static int index_read(int fd, void *buffer, size_t length) {
@@ -354,7 +362,7 @@ size_t index_jump_next(index_root_t *root) {
     }
 
     // flushing current index file
-    if(root->secure) {
+    if(root->secure || root->synctime) {
         zdb_verbose("[+] index: flushing file before closing\n");
         fsync(root->indexfd);
     }
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 1c1ec18..a9e727d 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -678,7 +678,7 @@ int index_switch_mode(index_root_t *root) {
     // rewrite header
     lseek(fd, 0, SEEK_SET);
 
-    if(write(fd, &header, sizeof(header)) != sizeof(header)) {
+    if(!index_write(fd, &header, sizeof(header), root)) {
         zdb_warnp("index_switch_mode: write");
         close(fd);
         return 1;
-- 
2.43.0


From a2cb571f23b5b6b04520adc871cad9cdd31463bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 17/58] fix: failed writes: leave no partial entry, keep memory
 and disk consistent

---
 libzdb/data.c      | 12 ++++++++
 libzdb/index.c     | 28 ++++++++---------
 libzdb/index_set.c | 75 ++++++++++++++++++++++++++++++----------------
 3 files changed, 74 insertions(+), 41 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index cdefa90..85684d8 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -601,6 +601,16 @@ int data_check(data_root_t *root, size_t offset, fileid_t dataid) {
 
 
 
+// remove an entry which could not be written completely, otherwise the
+// datafile would not be readable (sequentially) anymore after that point
+static void data_rollback(data_root_t *root, off_t offset) {
+    if(offset < (off_t) sizeof(data_header_t))
+        return;
+
+    if(ftruncate(root->datafd, offset) < 0)
+        zdb_warnp("data: rollback");
+}
+
 // insert data to the datafile and return it's offset
 // size_t data_insert(data_root_t *root, unsigned char *data, uint32_t datalength, void *vid, uint8_t idlength, uint8_t flags, uint32_t crc) {
 size_t data_insert(data_root_t *root, data_request_t *source) {
@@ -626,6 +636,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, header, headerlength, 0, root)) {
         zdb_verbose("[-] data header: write failed\n");
+        data_rollback(root, offset);
         free(header);
         return 0;
     }
@@ -634,6 +645,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {
         zdb_verbose("[-] data payload: write failed\n");
+        data_rollback(root, offset);
         return 0;
     }
 
diff --git a/libzdb/index.c b/libzdb/index.c
index 4a57be1..1cb8e82 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <stdint.h>
+#include <stddef.h>
 #include <inttypes.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -547,10 +548,6 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // compute this object size on disk
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
-    // mark entry as deleted
-    // this affect the memory object (runtime)
-    entry->flags |= INDEX_ENTRY_DELETED;
-
     // (re-)open the expected index file, in read-write mode
     if((fd = index_open_file_readwrite(root, entry->indexid)) < 0)
         return 1;
@@ -569,27 +566,26 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     index_item_header_dump(index_transition);
 
     // update the flags
-    index_transition->flags = entry->flags;
+    index_transition->flags = entry->flags | INDEX_ENTRY_DELETED;
 
-    // rollback to point to the entry again
-    zdb_debug("[+] index: delete: overwriting key\n");
-    lseek(fd, entry->idxoffset, SEEK_SET);
+    // point to the flags of that entry, nothing else changes: writing a single
+    // byte cannot be interrupted in the middle
+    zdb_debug("[+] index: delete: overwriting flags\n");
+    lseek(fd, entry->idxoffset + offsetof(index_item_t, flags), SEEK_SET);
 
-    // overwrite the key
-    // FIXME: why not using index_write ?
-    if(write(fd, index_transition, entrylength) != (ssize_t) entrylength) {
+    // overwrite the flags
+    if(!index_write(fd, &index_transition->flags, sizeof(index_transition->flags), root)) {
         zdb_warnp("index_entry_delete write");
-
-        // FIXME: not needed if using index_write
-        root->stats.errors += 1;
-        root->stats.lasterr = time(NULL);
-
         close(fd);
         return 1;
     }
 
     close(fd);
 
+    // mark entry as deleted
+    // this affect the memory object (runtime)
+    entry->flags |= INDEX_ENTRY_DELETED;
+
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, entry->indexid, 1);
 
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..ef6d227 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -95,8 +95,15 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     // overwrite the key
     lseek(fd, offset, SEEK_SET);
 
-    if(write(fd, item, entrylength) != (ssize_t) entrylength) {
+    if(!index_write(fd, item, entrylength, root)) {
         zdb_warnp("index_seq_overwrite re-write");
+
+        // restoring the original entry, which may be partially overwritten
+        lseek(fd, offset, SEEK_SET);
+
+        if(write(fd, &original, sizeof(index_item_t)) != sizeof(index_item_t))
+            zdb_warnp("index_seq_overwrite rollback");
+
         close(fd);
         return 1;
     }
@@ -133,6 +140,16 @@ index_item_t *index_item_from_set(index_root_t *root, index_set_t *set) {
     return index_transition;
 }
 
+// remove an entry which could not be written completely, otherwise the
+// index file would not be readable anymore after that point
+static void index_rollback(index_root_t *root, off_t offset) {
+    if(offset < (off_t) sizeof(index_header_t))
+        return;
+
+    if(ftruncate(root->indexfd, offset) < 0)
+        zdb_warnp("index: rollback");
+}
+
 int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
     index_entry_t *entry = set->entry;
     off_t curoffset = lseek(root->indexfd, 0, SEEK_END);
@@ -147,19 +164,16 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
 
     index_item_t *item = index_item_from_set(root, set);
 
-    // updating global previous
-    root->previous = curoffset;
-
     // writing data on the disk
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
-
-        // it's easier to flag the entry as deleted than
-        // removing it from the list
-        entry->flags |= INDEX_ENTRY_DELETED;
+        index_rollback(root, curoffset);
         return 1;
     }
 
+    // updating global previous
+    root->previous = curoffset;
+
     return 0;
 }
 
@@ -302,24 +316,31 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
-
-    // update memory state
-    index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
+    fileid_t parentid = previous->indexid;
+    uint32_t parentoff = previous->idxoffset;
+    size_t lastoffset = root->previous;
 
-    index_set_t updated = {
-        .entry = entry,
-        .id = set->id,
-    };
+    // keep track of the history
+    set->entry->parentid = parentid;
+    set->entry->parentoff = parentoff;
 
-    // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
+    // append the data on the disk, before flagging the previous key: if we are
+    // interrupted in between, the last one wins when the index is loaded
+    if(index_append_entry_on_disk(root, set)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
         return NULL;
     }
 
-    return entry;
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    if(index_entry_delete_disk(root, previous)) {
+        zdb_debug("[-] index: update entry failed: could not flag previous entry\n");
+        index_rollback(root, set->entry->idxoffset);
+        root->previous = lastoffset;
+        return NULL;
+    }
+
+    // update memory state
+    return index_update_memory_handler_memkey(root, set, previous);
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
@@ -340,16 +361,20 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
         return NULL;
     }
 
+    // since we added a new entry on the index, the next id needs
+    // to be incremented to skip this position in the futur
+    root->nextid += 1;
+    root->nextentry += 1;
+
     // overwrite original object
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
 
-    // since we added a new entry on the index, the next id needs
-    // to be incremented to skip this position in the futur
-    root->nextid += 1;
-    root->nextentry += 1;
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite the entry\n");
+        return NULL;
+    }
 
     // update statistics
     root->stats.datasize -= previous->length;
-- 
2.43.0


From e27b249eeadc2f0ef686552f6029baebe8a40acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 18/58] fix: jump: create the next files before switching to
 them

---
 libzdb/api.c              |  4 +--
 libzdb/data.c             | 74 +++++++++++++++++++++++++++++++--------
 libzdb/data.h             |  4 ++-
 libzdb/index.c            | 23 ++++++++++--
 libzdb/index_loader.c     | 30 +++++++++++++++-
 libzdb/index_loader.h     |  1 +
 libzdb/namespace.c        | 25 +++++++++++++
 libzdb/namespace.h        |  2 ++
 zdbd/commands_namespace.c |  6 ++--
 zdbd/commands_set.c       |  6 ++--
 zdbd/redis.c              |  3 +-
 11 files changed, 151 insertions(+), 27 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..dac3efe 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -298,8 +298,8 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // if we do this after adding data, we could have an empty data file
     // which will fake the 'previous' offset when computing it on reload
     if(data_next_offset(ns->data) + psize > zdb_rootsettings.datasize) {
-        size_t newid = index_jump_next(ns->index);
-        data_jump_next(ns->data, newid);
+        if(namespace_jump(ns))
+            return zdb_api_reply_error("Cannot write data right now");
     }
 
     return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
diff --git a/libzdb/data.c b/libzdb/data.c
index 85684d8..c9dd780 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -254,16 +254,13 @@ static inline void data_release_dataid(data_root_t *root, fileid_t dataid, int f
 //
 // data management
 //
-void data_initialize(char *filename, data_root_t *root) {
+// open (create if needed) a data file and write the initial header
+// returns the file descriptor or -1 in case of failure
+static int data_create(char *filename, fileid_t dataid, data_root_t *root) {
     int fd;
 
-    if((fd = open(filename, O_CREAT | O_RDWR, 0600)) < 0) {
-        // ignoring initializer on read-only filesystem
-        if(errno == EROFS)
-            return;
-
-        zdb_diep(filename);
-    }
+    if((fd = open(filename, O_CREAT | O_RDWR, 0600)) < 0)
+        return -1;
 
     #ifdef __linux__
     // pre-allocate data size to avoid fragmentation, only on Linux
@@ -272,6 +269,12 @@ void data_initialize(char *filename, data_root_t *root) {
         zdb_warnp(filename);
     #endif
 
+    // file already initialized
+    if(lseek(fd, 0, SEEK_END) >= (off_t) sizeof(data_header_t))
+        return fd;
+
+    lseek(fd, 0, SEEK_SET);
+
     // writing initial header
     data_header_t header;
 
@@ -279,10 +282,27 @@ void data_initialize(char *filename, data_root_t *root) {
     header.version = ZDB_DATAFILE_VERSION;
     header.created = 0; // timestamp are not used anymore, this allows
     header.opened = 0;  // checksum comparaison more efficient across replicat
-    header.fileid = root->dataid;
+    header.fileid = dataid;
+
+    if(!data_write(fd, &header, sizeof(data_header_t), 1, root)) {
+        close(fd);
+        errno = EIO;
+        return -1;
+    }
+
+    return fd;
+}
+
+void data_initialize(char *filename, data_root_t *root) {
+    int fd;
+
+    if((fd = data_create(filename, root->dataid, root)) < 0) {
+        // ignoring initializer on read-only filesystem
+        if(errno == EROFS)
+            return;
 
-    if(!data_write(fd, &header, sizeof(data_header_t), 1, root))
         zdb_diep(filename);
+    }
 
     close(fd);
 }
@@ -420,9 +440,35 @@ data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset) {
     return raw;
 }
 
+// prepare the next data file without switching to it, like this nothing is
+// changed if that file cannot be created
+//
+// returns the file descriptor to use with data_jump_next, -1 on failure
+int data_jump_prepare(data_root_t *root, fileid_t newid) {
+    char filename[ZDB_PATH_MAX];
+    int existing, fd;
+
+    snprintf(filename, sizeof(filename), "%s/d%u", root->datadir, newid);
+    existing = (zdb_file_exists(filename) == ZDB_FILE_EXISTS);
+
+    if((fd = data_create(filename, newid, root)) < 0 || fcntl(fd, F_SETFL, O_APPEND) < 0) {
+        zdb_warnp(filename);
+
+        if(fd >= 0)
+            close(fd);
+
+        if(!existing)
+            unlink(filename);
+
+        return -1;
+    }
+
+    return fd;
+}
+
 // jumping to the next id close the current data file
-// and open the next id file, it will create the new file
-size_t data_jump_next(data_root_t *root, fileid_t newid) {
+// and use the next file, which was prepared before
+size_t data_jump_next(data_root_t *root, fileid_t newid, int newfd) {
     hook_t *hook = NULL;
 
     zdb_verbose("[+] data: jumping to the next file\n");
@@ -447,8 +493,8 @@ size_t data_jump_next(data_root_t *root, fileid_t newid) {
     root->dataid = newid;
     data_set_id(root);
 
-    data_initialize(root->datafile, root);
-    data_open_final(root);
+    root->datafd = newfd;
+    zdb_verbose("[+] data: active file: %s\n", root->datafile);
 
     if(zdb_rootsettings.hook) {
         hook_append(hook, root->datafile);
diff --git a/libzdb/data.h b/libzdb/data.h
index 425706d..476a13b 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -134,7 +134,9 @@
     data_header_t *data_descriptor_validate(data_header_t *header, data_root_t *root);
 
     void data_destroy(data_root_t *root);
-    size_t data_jump_next(data_root_t *root, fileid_t newid);
+    void data_tail_discard(data_root_t *root, off_t known);
+    int data_jump_prepare(data_root_t *root, fileid_t newid);
+    size_t data_jump_next(data_root_t *root, fileid_t newid, int newfd);
     void data_emergency(data_root_t *root);
     fileid_t data_dataid(data_root_t *root);
     void data_delete_files(char *datadir);
diff --git a/libzdb/index.c b/libzdb/index.c
index 1cb8e82..1c12636 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -347,12 +347,27 @@ char *index_dirty_list_generate(index_root_t *root) {
 // jumping to the next index id file, this needs to be in sync with the
 // data file, we only do this when datafile changes basicly, this is
 // triggered by a datafile too big event
+//
+// returns the new index id, or 0 if the jump was not possible
 size_t index_jump_next(index_root_t *root) {
     hook_t *hook = NULL;
     char *dirtylist = NULL;
 
     zdb_verbose("[+] index: jumping to the next file [closing %s]\n", root->indexfile);
 
+    // creating the next file first, nothing is changed
+    // if that file cannot be created
+    uint64_t fileid = root->indexid + 1;
+    char newfile[ZDB_PATH_MAX];
+    int newfd;
+
+    if(root->status & INDEX_READ_ONLY)
+        return 0;
+
+    snprintf(newfile, sizeof(newfile), "%s/i%lu", root->indexdir, fileid);
+    if((newfd = index_create(newfile, fileid, root)) < 0)
+        return 0;
+
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-index", 4);
         hook_append(hook, zdb_rootsettings.zdbid);
@@ -373,7 +388,6 @@ size_t index_jump_next(index_root_t *root) {
     index_close(root);
 
     // moving to the next file
-    uint64_t fileid = root->indexid + 1;
     root->nextid = 0;
 
     // do not reset root->previous
@@ -382,8 +396,11 @@ size_t index_jump_next(index_root_t *root) {
 
     index_set_id(root, fileid);
 
-    index_open_final(root);
-    index_initialize(root->indexfd, root->indexid, root);
+    // index just created, not dirty
+    root->indexfd = newfd;
+    root->updated = 0;
+
+    zdb_verbose("[+] index: active file: %s\n", root->indexfile);
 
     if(zdb_rootsettings.hook) {
         hook_append(hook, root->indexfile);
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index a9e727d..47940c5 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -83,7 +83,7 @@ static void index_dump_statistics(index_root_t *root) {
 // initialize an index file
 // this basicly create the header and write it
 //
-index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
+static index_header_t index_header_prepare(fileid_t indexid, index_root_t *root) {
     index_header_t header;
 
     memcpy(header.magic, "IDX0", 4);
@@ -93,6 +93,12 @@ index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
     header.fileid = indexid;
     header.mode = root->mode;
 
+    return header;
+}
+
+index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
+    index_header_t header = index_header_prepare(indexid, root);
+
     if(!index_write(fd, &header, sizeof(index_header_t), root))
         zdb_diep("index_initialize: write");
 
@@ -103,6 +109,28 @@ index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
     return header;
 }
 
+// create a new index file, ready to append entries, without switching to it
+// returns the file descriptor or -1 in case of failure
+int index_create(char *filename, fileid_t indexid, index_root_t *root) {
+    index_header_t header = index_header_prepare(indexid, root);
+    int fd;
+
+    // there is nothing relevant in that file if it exists: only files
+    // which follow each other are loaded
+    if((fd = open(filename, O_CREAT | O_RDWR | O_APPEND | O_TRUNC, 0600)) < 0) {
+        zdb_warnp(filename);
+        return -1;
+    }
+
+    if(!index_write(fd, &header, sizeof(index_header_t), root)) {
+        close(fd);
+        unlink(filename);
+        return -1;
+    }
+
+    return fd;
+}
+
 static int index_try_rootindex(index_root_t *root) {
     // try to open the index file with create flag
     if((root->indexfd = open(root->indexfile, O_CREAT | O_RDWR, 0600)) < 0) {
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 5f1fc68..7caca9a 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -3,6 +3,7 @@
 
     // initialize index header file
     index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root);
+    int index_create(char *filename, fileid_t indexid, index_root_t *root);
 
     // initialize the whole index system
     index_root_t *index_init(zdb_settings_t *settings, char *indexdir, void *namespace, index_branch_t **branches);
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 2718956..0ad1967 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -710,6 +710,31 @@ int namespace_delete(namespace_t *namespace) {
     return 0;
 }
 
+// jump to the next index and data files
+//
+// the files are created before switching to them, if something goes
+// wrong (disk full, ...) nothing changes and 1 is returned
+int namespace_jump(namespace_t *namespace) {
+    fileid_t nextid = namespace->index->indexid + 1;
+    int datafd;
+
+    if(namespace->index->status & INDEX_READ_ONLY)
+        return 1;
+
+    if((datafd = data_jump_prepare(namespace->data, nextid)) < 0)
+        return 1;
+
+    size_t newid = index_jump_next(namespace->index);
+    if(newid == 0) {
+        close(datafd);
+        return 1;
+    }
+
+    data_jump_next(namespace->data, newid, datafd);
+
+    return 0;
+}
+
 static void namespace_flushing_hook(namespace_t *namespace) {
     if(!zdb_rootsettings.hook)
         return;
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 5bafc73..7ea4527 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -81,6 +81,8 @@
     int namespace_commit(namespace_t *namespace);
     int namespace_flush(namespace_t *namespace);
     int namespace_reload(namespace_t *namespace);
+    int namespace_jump(namespace_t *namespace);
+    int namespace_is_writable(namespace_t *namespace);
     int namespace_is_fresh(namespace_t *namespace);
     int namespace_lock(namespace_t *namespace);
     int namespace_unlock(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 6cacad4..d630e00 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -587,8 +587,10 @@ int command_nsjump(redis_client_t *client) {
 
     zdbd_debug("[+] command: nsjump: forcing index and data jump\n");
 
-    size_t newid = index_jump_next(client->ns->index);
-    data_jump_next(client->ns->data, newid);
+    if(namespace_jump(client->ns)) {
+        redis_hardsend(client, "-Cannot jump to the next files right now");
+        return 1;
+    }
 
     redis_hardsend(client, "+OK");
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index a293264..180a399 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -368,8 +368,10 @@ int command_set(redis_client_t *client) {
     zdb_settings_t *zdb_settings = zdb_settings_get();
 
     if(data_next_offset(client->ns->data) + request->argv[2]->length > zdb_settings->datasize) {
-        size_t newid = index_jump_next(client->ns->index);
-        data_jump_next(client->ns->data, newid);
+        if(namespace_jump(client->ns)) {
+            redis_hardsend(client, "-Cannot write data right now");
+            return 0;
+        }
     }
 
     size_t offset = redis_set_handlers[mode](client, entry);
diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..a46df43 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -1103,8 +1103,7 @@ void redis_files_rotate() {
 
         if(diffsec > zdbd_rootsettings.rotatesec) {
             zdbd_log("[+] system: rotation requested (%s, %ld seconds)\n", ns->name, diffsec);
-            size_t newid = index_jump_next(ns->index);
-            data_jump_next(ns->data, newid);
+            namespace_jump(ns);
         }
     }
 }
-- 
2.43.0


From e99ba7c878e38f439872704779f4b8eff0f070a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 19/58] fix: loader: recover from an interrupted write, discard
 incomplete entries

---
 libzdb/data.c         | 36 ++++++++++++++++++++++++---
 libzdb/data.h         |  1 +
 libzdb/index.h        |  3 +++
 libzdb/index_loader.c | 58 ++++++++++++++++++++++++++++++++-----------
 libzdb/namespace.c    |  4 +++
 5 files changed, 84 insertions(+), 18 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index c9dd780..d54d4d5 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -326,8 +326,10 @@ static void data_open_final(data_root_t *root) {
         zdb_debug("[+] data: file opened in read-only mode\n");
     }
 
+    off_t length = lseek(root->datafd, 0, SEEK_END);
+
     // jumping to the first entry
-    lseek(root->datafd, sizeof(data_header_t), SEEK_SET);
+    root->complete = lseek(root->datafd, sizeof(data_header_t), SEEK_SET);
 
     // reading all indexes to find where is the last one
     data_entry_header_t header;
@@ -336,8 +338,15 @@ static void data_open_final(data_root_t *root) {
     zdb_debug("[+] data: reading file, finding last entry\n");
 
     while(read(root->datafd, &header, sizeof(data_entry_header_t)) == sizeof(data_entry_header_t)) {
-        root->previous = lseek(root->datafd, 0, SEEK_CUR) - sizeof(data_entry_header_t);
-        lseek(root->datafd, header.datalength + header.idlength, SEEK_CUR);
+        off_t offset = lseek(root->datafd, 0, SEEK_CUR) - sizeof(data_entry_header_t);
+        off_t next = lseek(root->datafd, (off_t) header.datalength + header.idlength, SEEK_CUR);
+
+        // that entry is not complete
+        if(next > length)
+            break;
+
+        root->previous = offset;
+        root->complete = next;
 
         entries += 1;
     }
@@ -346,6 +355,26 @@ static void data_open_final(data_root_t *root) {
     zdb_verbose("[+] data: active file: %s\n", root->datafile);
 }
 
+// if we were interrupted while writing the last entry, that entry is not
+// complete and nothing written after would be readable sequentially
+//
+// nothing is discarded if the index knows something after
+void data_tail_discard(data_root_t *root, off_t known) {
+    off_t length = lseek(root->datafd, 0, SEEK_END);
+
+    if(length <= root->complete || known > root->complete)
+        return;
+
+    // read-only filesystem
+    if((fcntl(root->datafd, F_GETFL) & O_ACCMODE) == O_RDONLY)
+        return;
+
+    zdb_warning("[-] data: incomplete entry at the end of %s, discarding it", root->datafile);
+
+    if(ftruncate(root->datafd, root->complete) < 0)
+        zdb_warnp(root->datafile);
+}
+
 data_raw_t data_raw_error(data_raw_t raw) {
     free(raw.id);
     free(raw.payload.buffer);
@@ -766,6 +795,7 @@ data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t d
     root->synctime = settings->synctime;
     root->lastsync = 0;
     root->previous = 0;
+    root->complete = 0;
     root->secure = settings->secure;
 
     memset(&root->stats, 0x00, sizeof(data_stats_t));
diff --git a/libzdb/data.h b/libzdb/data.h
index 476a13b..3a20e55 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -26,6 +26,7 @@
         int synctime;       // force to sync data after this timeout (on next write)
         time_t lastsync;    // keep track when the last sync was explictly made
         size_t previous;    // keep latest offset inserted to the datafile
+        off_t complete;     // end of the last complete entry, when the datafile was opened
         int secure;         // enable some safety (see secure zdb_settings_t)
         data_stats_t stats; // data statistics (session time)
 
diff --git a/libzdb/index.h b/libzdb/index.h
index 138622c..499462b 100644
--- a/libzdb/index.h
+++ b/libzdb/index.h
@@ -211,6 +211,9 @@
 
         size_t previous;    // keep latest offset inserted to the indexfile
 
+        fileid_t taildataid; // last data file id known when index was loaded
+        size_t taildata;     // end offset of the last entry known in that file
+
     } index_root_t;
 
     // key used in direct mode
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 47940c5..8bae340 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -231,24 +231,16 @@ static size_t index_load_file(index_root_t *root) {
             return 1;
         }
 
-        if(length > 0) {
-            // we read something, but not the expected header, at least
-            // not this amount of data, which is a completly undefined behavior
-            // let's just stopping here
-            zdb_logerr("[-] index: header corrupted or incomplete\n");
-            zdb_logerr("[-] index: expected %lu bytes, %ld read\n", sizeof(index_header_t), length);
-            exit(EXIT_FAILURE);
-        }
-
-        // we could not read anything, which basicly means that
-        // the file is empty, we probably just created it
+        // we could not read anything (or not a complete header), which basicly
+        // means that the file is empty: we probably just created it, or we were
+        // interrupted while creating it, there are no entries in that file
         //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
-        // this is the initial index file we need to create
-        if(root->indexid > 0) {
+        // if we cannot write on it, there is nothing to do with that file, if
+        // it's the next index file, previous ones are enough
+        if(root->indexid > 0 && (root->status & INDEX_READ_ONLY)) {
             zdb_verbose("[+] index: discarding file\n");
             close(root->indexfd);
+            index_set_id(root, root->indexid - 1);
             return 0;
         }
 
@@ -263,7 +255,12 @@ static size_t index_load_file(index_root_t *root) {
         }
 
         zdb_verbose("[+] index: creating empty file\n");
+        lseek(root->indexfd, 0, SEEK_SET);
         header = index_initialize(root->indexfd, root->indexid, root);
+
+        // this is not the initial file, loader can go on
+        if(root->indexid > 0)
+            length = sizeof(index_header_t);
     }
 
     if(!index_descriptor_validate(&header, root))
@@ -358,6 +355,17 @@ static size_t index_load_file(index_root_t *root) {
         entry = (index_item_t *) seeker;
         off_t offset = seeker - filebuf;
 
+        // we were interrupted while writing the last entry, that one was
+        // never confirmed to anybody, next entries need to be aligned
+        if(fullsize - offset < (off_t) sizeof(index_item_t) || fullsize - offset < (off_t) sizeof(index_item_t) + entry->idlength) {
+            zdb_warning("[-] index: incomplete entry at the end of the file, discarding it");
+
+            if(!(root->status & INDEX_READ_ONLY) && ftruncate(root->indexfd, offset) < 0)
+                zdb_warnp(root->indexfile);
+
+            break;
+        }
+
         // create a gateway struct to fill our index memory
         // this is not nice (lot of copy) but make things more
         // generic and clear
@@ -375,6 +383,15 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
+        // if we were interrupted in the middle of an update, the previous entry
+        // was not flagged yet, let's finish that
+        if(root->mode == ZDB_MODE_KEY_VALUE && !(root->status & INDEX_READ_ONLY)) {
+            index_entry_t *superseded = index_entry_get(root, entry->id, entry->idlength);
+
+            if(superseded && index_entry_delete_disk(root, superseded))
+                zdb_warnp(root->indexfile);
+        }
+
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
@@ -389,6 +406,17 @@ static size_t index_load_file(index_root_t *root) {
         if(index_entry_is_deleted(fresh))
             index_entry_delete_memory(root, fresh);
 
+        // keep track of the end of the last datafile, as far as we know
+        size_t dataend = entry->offset + sizeof(data_entry_header_t) + entry->idlength + entry->length;
+
+        if(entry->dataid > root->taildataid) {
+            root->taildataid = entry->dataid;
+            root->taildata = 0;
+        }
+
+        if(entry->dataid == root->taildataid && dataend > root->taildata)
+            root->taildata = dataend;
+
         // set the previous pointing to this entry
         // this is the last one we added
         root->previous = seeker - filebuf;
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 0ad1967..252c666 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -230,6 +230,10 @@ static int namespace_load_lazy(ns_root_t *nsroot, namespace_t *namespace) {
     namespace->index = index_init(nsroot->settings, namespace->indexpath, namespace, nsroot->branches);
     namespace->data = data_init(nsroot->settings, namespace->datapath, namespace->index->indexid);
 
+    // discard what was being written when we were interrupted (if any)
+    index_root_t *index = namespace->index;
+    data_tail_discard(namespace->data, index->taildataid == namespace->data->dataid ? index->taildata : 0);
+
     return 0;
 }
 
-- 
2.43.0


From 860db1ef9105b4ea28691f450f5ef6c573455c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 20/58] fix: namespace descriptor: replace it atomically,
 report and revert failures

---
 libzdb/namespace.c        | 89 ++++++++++++++++++++++++++-------------
 libzdb/namespace.h        |  2 +-
 zdbd/commands_namespace.c | 52 +++++++++++++++++++----
 3 files changed, 104 insertions(+), 39 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 252c666..6a6612f 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -9,6 +9,7 @@
 #include <dirent.h>
 #include <fcntl.h>
 #include <limits.h>
+#include <errno.h>
 #include <time.h>
 #include "libzdb.h"
 #include "libzdb_private.h"
@@ -66,9 +67,10 @@ namespace_t *namespace_get(char *name) {
     return NULL;
 }
 
-// FIXME: no error handled externally
-void namespace_descriptor_update(namespace_t *namespace, int fd) {
+// write the whole descriptor at once, returns 0 on success
+int namespace_descriptor_update(namespace_t *namespace, int fd) {
     ns_header_t header;
+    char buffer[sizeof(ns_header_t) + UINT8_MAX + UINT8_MAX];
 
     zdb_debug("[+] namespaces: updating header\n");
 
@@ -84,54 +86,84 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
-    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t))
-        zdb_warnp("namespace legacy header write");
+    memcpy(buffer, &header, sizeof(ns_header_t));
+    memcpy(buffer + sizeof(ns_header_t), namespace->name, header.namelength);
 
-    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength)
-        zdb_warnp("namespace header name write");
+    if(namespace->password)
+        memcpy(buffer + sizeof(ns_header_t) + header.namelength, namespace->password, header.passlength);
 
-    if(namespace->password) {
-        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
-            zdb_warnp("namespace header password write");
+    ssize_t length = sizeof(ns_header_t) + header.namelength + header.passlength;
+
+    if(write(fd, buffer, length) != length) {
+        zdb_warnp("namespace descriptor write");
+        return 1;
     }
 
     // ensure metadata are written
-    fsync(fd);
+    if(fsync(fd) < 0) {
+        zdb_warnp("namespace descriptor sync");
+        return 1;
+    }
+
+    return 0;
 }
 
-static int namespace_descriptor_open(namespace_t *namespace) {
-    char pathname[ZDB_PATH_MAX];
-    int fd;
+// replace the descriptor, the previous one is kept
+// if the new one cannot be written completely
+static int namespace_descriptor_write(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX], temporary[ZDB_PATH_MAX];
+    int fd, failed;
 
     snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
+    snprintf(temporary, ZDB_PATH_MAX, "%s/zdb-namespace.new", namespace->indexpath);
 
-    if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0) {
-        zdb_warning("[-] cannot create or open in read-write the namespace file");
+    if((fd = open(temporary, O_CREAT | O_TRUNC | O_RDWR, 0600)) < 0) {
+        zdb_warning("[-] cannot create the namespace file");
         return -1;
     }
 
-    return fd;
+    failed = namespace_descriptor_update(namespace, fd);
+    close(fd);
+
+    if(failed || rename(temporary, pathname) < 0) {
+        zdb_warnp(pathname);
+        unlink(temporary);
+        return -1;
+    }
+
+    return 0;
 }
 
 // read (or create) a namespace descriptor
 // a namespace descriptor is a binary file containing the namespace
 // specification such as password, maxsize, etc. (see header)
 static int namespace_descriptor_load(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX];
     ns_header_t header;
+    ssize_t length = 0;
     int fd;
 
-    if((fd = namespace_descriptor_open(namespace)) < 0)
+    snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
+
+    if((fd = open(pathname, O_RDONLY)) < 0 && errno != ENOENT) {
+        zdb_warning("[-] cannot open the namespace file");
         return fd;
+    }
+
+    if(fd >= 0)
+        length = read(fd, &header, sizeof(ns_header_t));
+
+    if(length != sizeof(ns_header_t)) {
+        if(fd >= 0)
+            close(fd);
 
-    if(read(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
         // probably new file, let's write initial namespace information
-        namespace_descriptor_update(namespace, fd);
-        close(fd);
-        return 0;
+        return namespace_descriptor_write(namespace);
     }
 
     if(header.version != NAMESPACE_CURRENT_VERSION) {
         zdb_danger("[-] %s: unsupported version detected", namespace->name);
+        close(fd);
         return -1;
     }
 
@@ -143,6 +175,7 @@ static int namespace_descriptor_load(namespace_t *namespace) {
     if(header.passlength) {
         if(!(namespace->password = calloc(sizeof(char), header.passlength + 1))) {
             zdb_warnp("namespace password malloc");
+            close(fd);
             return 0;
         }
 
@@ -177,15 +210,9 @@ static void namespace_commit_hook(namespace_t *namespace) {
 // update persistence data of a namespace
 // basically, this rewrites it's metadata on disk
 int namespace_commit(namespace_t *namespace) {
-    int fd;
-
-    if((fd = namespace_descriptor_open(namespace)) < 0)
-        return fd;
-
     // update metadata
-    namespace_descriptor_update(namespace, fd);
-
-    close(fd);
+    if(namespace_descriptor_write(namespace) < 0)
+        return -1;
 
     // trigger updated hook
     namespace_commit_hook(namespace);
@@ -262,8 +289,10 @@ namespace_t *namespace_load_light(ns_root_t *nsroot, char *name, int ensure) {
     namespace->version = NAMESPACE_CURRENT_VERSION; // set current version before reading descriptor
 
     if(ensure) {
-        if(!namespace_ensure(namespace))
+        if(!namespace_ensure(namespace)) {
+            namespace_free(namespace);
             return NULL;
+        }
     }
 
     // load descriptor from disk
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 7ea4527..7ac6e3a 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -71,7 +71,7 @@
 
     size_t namespace_length();
     int namespace_valid_name(char *name);
-    void namespace_descriptor_update(namespace_t *namespace, int fd);
+    int namespace_descriptor_update(namespace_t *namespace, int fd);
 
     namespace_t *namespace_iter();
     namespace_t *namespace_iter_next(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index d630e00..c416be9 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -393,7 +393,6 @@ static int command_nsset_maxsize(namespace_t *namespace, char *value) {
 static int command_nsset_password(namespace_t *namespace, char *value) {
     // clearing password using "*" password
     if(strcmp(value, "*") == 0) {
-        free(namespace->password);
         namespace->password = NULL;
 
         zdbd_debug("[+] command: nsset: password cleared\n");
@@ -423,6 +422,23 @@ static int command_nsset_worm(namespace_t *namespace, char *value) {
     return 0;
 }
 
+// apply a new mode, the previous one is kept if that cannot be written
+static int command_nsset_mode_switch(redis_client_t *client, namespace_t *namespace, index_mode_t mode) {
+    index_mode_t previous = namespace->index->mode;
+
+    namespace->index->mode = mode;
+
+    if(index_switch_mode(namespace->index)) {
+        namespace->index->mode = previous;
+        redis_hardsend(client, "-Cannot update the namespace right now");
+        return 1;
+    }
+
+    index_rehash(namespace->index);
+
+    return 0;
+}
+
 // NSSET mode
 static int command_nsset_mode(redis_client_t *client, namespace_t *namespace, char *value) {
      zdb_settings_t *settings = zdb_settings_get();
@@ -443,15 +459,11 @@ static int command_nsset_mode(redis_client_t *client, namespace_t *namespace, ch
 
     if(strcmp(value, "user") == 0) {
         zdbd_debug("[+] command: nsset: switching to user mode\n");
-        namespace->index->mode = ZDB_MODE_KEY_VALUE;
-        index_switch_mode(namespace->index);
-        index_rehash(namespace->index);
+        return command_nsset_mode_switch(client, namespace, ZDB_MODE_KEY_VALUE);
 
     } else if(strcmp(value, "seq") == 0) {
         zdbd_debug("[+] command: nsset: switching to sequential mode\n");
-        namespace->index->mode = ZDB_MODE_SEQUENTIAL;
-        index_switch_mode(namespace->index);
-        index_rehash(namespace->index);
+        return command_nsset_mode_switch(client, namespace, ZDB_MODE_SEQUENTIAL);
 
     } else {
         zdbd_debug("[-] command: nsset: unknown mode '%s'\n", value);
@@ -522,6 +534,10 @@ int command_nsset(redis_client_t *client) {
         return 1;
     }
 
+    // keep previous settings, to restore them if the
+    // new ones cannot be written
+    namespace_t previous = *namespace;
+
     //
     // testing properties which can be applied
     // to any namespace, including default one
@@ -572,7 +588,27 @@ int command_nsset(redis_client_t *client) {
     }
 
     // update persistant setting
-    namespace_commit(namespace);
+    int committed = namespace_commit(namespace);
+
+    int changed = (namespace->password != previous.password || namespace->maxsize != previous.maxsize ||
+                   namespace->public != previous.public || namespace->worm != previous.worm);
+
+    if(committed < 0 && changed) {
+        if(namespace->password != previous.password)
+            free(namespace->password);
+
+        namespace->password = previous.password;
+        namespace->maxsize = previous.maxsize;
+        namespace->public = previous.public;
+        namespace->worm = previous.worm;
+
+        redis_hardsend(client, "-Cannot update the namespace right now");
+        return 1;
+    }
+
+    // password replaced
+    if(namespace->password != previous.password)
+        free(previous.password);
 
     // confirmation
     redis_hardsend(client, "+OK");
-- 
2.43.0


From 1bd473ede2a3e41a095efc9f921874eebdeb9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 21/58] fix: flush, nsdel: remove keys first, in order, and
 refuse on read-only filesystem

---
 libzdb/data.c             | 13 ++++++++++---
 libzdb/data.h             |  2 +-
 libzdb/filesystem.c       |  5 +++--
 libzdb/index_loader.c     | 26 ++++++++++++++++++++++++--
 libzdb/index_loader.h     |  2 +-
 libzdb/namespace.c        | 35 +++++++++++++++--------------------
 zdbd/commands_namespace.c |  7 ++++++-
 7 files changed, 60 insertions(+), 30 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index d54d4d5..44f101d 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -824,7 +824,14 @@ void data_emergency(data_root_t *root) {
     fsync(root->datafd);
 }
 
-// delete data files
-void data_delete_files(char *datadir) {
-    zdb_dir_clean_payload(datadir);
+// delete data files, the initial one is emptied
+void data_delete_files(data_root_t *root) {
+    char filename[ZDB_PATH_MAX];
+
+    zdb_dir_clean_payload(root->datadir);
+
+    snprintf(filename, sizeof(filename), "%s/d0", root->datadir);
+
+    if(truncate(filename, sizeof(data_header_t)) < 0)
+        zdb_warnp(filename);
 }
diff --git a/libzdb/data.h b/libzdb/data.h
index 3a20e55..f91c913 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -140,7 +140,7 @@
     size_t data_jump_next(data_root_t *root, fileid_t newid, int newfd);
     void data_emergency(data_root_t *root);
     fileid_t data_dataid(data_root_t *root);
-    void data_delete_files(char *datadir);
+    void data_delete_files(data_root_t *root);
 
     data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset);
     data_payload_t data_get(data_root_t *root, size_t offset, size_t length, fileid_t dataid, uint8_t idlength);
diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 32e7f77..9047822 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -70,9 +70,10 @@ int zdb_dir_remove(char *path) {
     return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
-// check if a filename is a data or index file (eg: d0, i12)
+// check if a filename is a data or index file (eg: d3, i12), excluding
+// the initial one
 static int dir_payload_file(const char *name) {
-    if(*name != 'd' && *name != 'i')
+    if((*name != 'd' && *name != 'i') || strcmp(name + 1, "0") == 0)
         return 0;
 
     return name[1] != '\0' && name[1 + strspn(name + 1, "0123456789")] == '\0';
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 8bae340..3c7944c 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -697,8 +697,30 @@ void index_destroy_global() {
 }
 
 // delete index files (not the namespace descriptor)
-void index_delete_files(char *indexdir) {
-    zdb_dir_clean_payload(indexdir);
+//
+// this is made from the last one to the first one: what's left is always
+// valid, even if we are interrupted. the initial file is not deleted but
+// emptied, only its header (which contains the mode) is kept
+int index_delete_files(index_root_t *root) {
+    char filename[ZDB_PATH_MAX];
+
+    for(uint64_t fileid = root->indexid; fileid > 0; fileid--) {
+        snprintf(filename, sizeof(filename), "%s/i%lu", root->indexdir, fileid);
+
+        if(unlink(filename) < 0 && errno != ENOENT) {
+            zdb_warnp(filename);
+            return 1;
+        }
+    }
+
+    snprintf(filename, sizeof(filename), "%s/i0", root->indexdir);
+
+    if(truncate(filename, sizeof(index_header_t)) < 0) {
+        zdb_warnp(filename);
+        return 1;
+    }
+
+    return 0;
 }
 
 // update (rewrite) current index header
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 7caca9a..1f6ce2d 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -21,7 +21,7 @@
     int index_switch_mode(index_root_t *root);
 
     // gracefully clean everything
-    void index_delete_files(char *indexdir);
+    int index_delete_files(index_root_t *root);
     void index_destroy(index_root_t *root);
     void index_destroy_global();
 #endif
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 6a6612f..01eef1c 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -665,38 +665,29 @@ int namespace_reload(namespace_t *namespace) {
 int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: %s\n", namespace->name);
 
+    zdb_debug("[+] namespace: flushing: removing files\n");
+    int failed = index_delete_files(namespace->index);
+
+    if(!failed)
+        data_delete_files(namespace->data);
+
     zdb_debug("[+] namespace: flushing: cleaning index\n");
     index_clean_namespace(namespace->index, namespace);
 
-    char *indexpath = strdup(namespace->index->indexdir);
-    char *datapath = strdup(namespace->data->datadir);
-    index_mode_t mode = namespace->index->mode;
-
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
     data_destroy(namespace->data);
 
-    zdb_debug("[+] namespace: flushing: removing files\n");
-    index_delete_files(indexpath);
-    data_delete_files(datapath);
-
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
 
-    // there is nothing left on disk to know the mode of that
-    // namespace, keeping the one it had
-    if(namespace->index->mode != mode) {
-        namespace->index->mode = mode;
-        index_switch_mode(namespace->index);
-        index_rehash(namespace->index);
-    }
-
-    free(indexpath);
-    free(datapath);
-
-    return 0;
+    return failed;
 }
 
+// check if both directories of a namespace can be written
+int namespace_is_writable(namespace_t *namespace) {
+    return (access(namespace->indexpath, W_OK) == 0 && access(namespace->datapath, W_OK) == 0);
+}
 
 static void namespace_delete_hook(namespace_t *namespace) {
     if(!zdb_rootsettings.hook)
@@ -716,6 +707,10 @@ static void namespace_delete_hook(namespace_t *namespace) {
 int namespace_delete(namespace_t *namespace) {
     zdb_log("[+] namespace: removing: %s\n", namespace->name);
 
+    // removing keys first: the descriptor, which protects them, goes last
+    if(index_delete_files(namespace->index) == 0)
+        data_delete_files(namespace->data);
+
     // unallocating keys attached to this namespace
     index_clean_namespace(namespace->index, namespace);
 
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index c416be9..78bc733 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -94,6 +94,11 @@ int command_nsdel(redis_client_t *client) {
         return 1;
     }
 
+    if(!namespace_is_writable(namespace)) {
+        redis_hardsend(client, "-Could not delete this namespace");
+        return 1;
+    }
+
     // detach all clients attached to this namespace
     redis_detach_clients(namespace);
 
@@ -702,7 +707,7 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
-    if(namespace_flush(namespace)) {
+    if(!namespace_is_writable(namespace) || namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
     }
-- 
2.43.0


From d451822f769e03806d84bfd958b333698ba45843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 22/58] fix: nsnew, set, del: failure leaves nothing behind, on
 full or read-only filesystem

---
 libzdb/index_loader.c   |  2 +-
 libzdb/namespace.c      | 54 ++++++++++++++++++++++++++++++++++++++++-
 zdbd/commands_dataset.c |  7 ++++++
 zdbd/commands_set.c     |  7 ++++++
 4 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 3c7944c..221df3a 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -286,7 +286,7 @@ static size_t index_load_file(index_root_t *root) {
         lseek(root->indexfd, 0, SEEK_SET);
 
         if(!index_write(root->indexfd, &header, sizeof(index_header_t), root))
-            zdb_diep(root->indexfile);
+            zdb_warnp(root->indexfile);
     }
 
     /*
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 01eef1c..0c3f6fd 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -370,6 +370,38 @@ static void namespace_create_hook(namespace_t *namespace) {
     hook_execute(hook);
 }
 
+// create the initial files of a new namespace
+// returns 0 on success
+static int namespace_create_files(char *indexpath, char *datapath) {
+    if(zdb_dir_create(indexpath) < 0)
+        return 1;
+
+    if(zdb_dir_exists(datapath) != ZDB_DIRECTORY_EXISTS && zdb_dir_create(datapath) < 0)
+        return 1;
+
+    data_root_t *data = data_init_lazy(nsroot->settings, datapath, 0);
+    int datafd = data_jump_prepare(data, 0);
+    data_destroy(data);
+
+    if(datafd < 0)
+        return 1;
+
+    close(datafd);
+
+    index_root_t *index = index_init_lazy(nsroot->settings, indexpath, NULL);
+    index_set_id(index, 0);
+
+    int indexfd = index_create(index->indexfile, 0, index);
+    index_destroy(index);
+
+    if(indexfd < 0)
+        return 1;
+
+    close(indexfd);
+
+    return 0;
+}
+
 //
 // create (load) a new namespace
 //
@@ -383,8 +415,28 @@ int namespace_create(char *name) {
 
     zdb_log("[+] namespace: creating: %s\n", name);
 
+    char *indexpath = namespace_path(nsroot->settings->indexpath, name);
+    char *datapath = namespace_path(nsroot->settings->datapath, name);
+    int newindex = (zdb_dir_exists(indexpath) == ZDB_PATH_NOT_AVAILABLE);
+    int newdata = (zdb_dir_exists(datapath) == ZDB_PATH_NOT_AVAILABLE);
+
+    namespace = NULL;
+
     // call the generic namespace loader
-    if(!(namespace = namespace_load(nsroot, name)))
+    if(!newindex || namespace_create_files(indexpath, datapath) == 0)
+        namespace = namespace_load(nsroot, name);
+
+    // leave nothing if that namespace cannot be created
+    if(!namespace && newindex)
+        zdb_dir_remove(indexpath);
+
+    if(!namespace && newdata)
+        zdb_dir_remove(datapath);
+
+    free(indexpath);
+    free(datapath);
+
+    if(!namespace)
         return 0;
 
     // append the namespace to the main list
diff --git a/zdbd/commands_dataset.c b/zdbd/commands_dataset.c
index d9f2a45..387a877 100644
--- a/zdbd/commands_dataset.c
+++ b/zdbd/commands_dataset.c
@@ -129,6 +129,13 @@ int command_del(redis_client_t *client) {
         return 1;
     }
 
+    // data would be written without being indexed
+    if(client->ns->index->status & INDEX_READ_ONLY) {
+        zdbd_debug("[-] command: del: denied, index filesystem is read-only\n");
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 180a399..1f19de7 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -316,6 +316,13 @@ int command_set(redis_client_t *client) {
         return 1;
     }
 
+    // data would be written without being indexed
+    if(client->ns->index->status & INDEX_READ_ONLY) {
+        zdbd_debug("[-] command: set: denied, index filesystem is read-only\n");
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
-- 
2.43.0


From f6a2e60a82ded0c8c116db586c64462629c70f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 23/58] fix: loader: long index path overflow

---
 libzdb/index_loader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 221df3a..4220788 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -466,8 +466,8 @@ void index_internal_load(index_root_t *root) {
 
     // legacy check:
     // check for old database file
-    char legacy[256];
-    sprintf(legacy, "%s/zdb-index-00000", root->indexdir);
+    char legacy[ZDB_PATH_MAX];
+    snprintf(legacy, sizeof(legacy), "%s/zdb-index-00000", root->indexdir);
     if(zdb_file_exists(legacy) == ZDB_FILE_EXISTS) {
         zdb_danger("[-] index: =================================");
         zdb_danger("[-] index: unsupported database detected");
-- 
2.43.0


From ca6773783caf7b702db8283ed23694b3fc2e45a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 24/58] fix: loader: keep the last version of a key when its
 update was interrupted

---
 libzdb/index_loader.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 4220788..250c969 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -388,8 +388,13 @@ static size_t index_load_file(index_root_t *root) {
         if(root->mode == ZDB_MODE_KEY_VALUE && !(root->status & INDEX_READ_ONLY)) {
             index_entry_t *superseded = index_entry_get(root, entry->id, entry->idlength);
 
-            if(superseded && index_entry_delete_disk(root, superseded))
-                zdb_warnp(root->indexfile);
+            if(superseded) {
+                if(index_entry_delete_disk(root, superseded))
+                    zdb_warnp(root->indexfile);
+
+                // this memory object will be updated with the new entry
+                superseded->flags &= ~INDEX_ENTRY_DELETED;
+            }
         }
 
         // insert this entry like it was inserted by a user
-- 
2.43.0


From acddbd77b424fc2a2966f880f71b4b8a88435dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 25/58] fix: failed flush: revert in-place updates, or follow
 what is on the disk

---
 libzdb/index.c            | 20 +++++++++++++++++++-
 libzdb/index_loader.c     | 33 +++++++++++++++++++++++----------
 libzdb/index_loader.h     |  2 +-
 libzdb/index_set.c        | 30 ++++++++++++++++++++++++------
 zdbd/commands_namespace.c |  9 +--------
 5 files changed, 68 insertions(+), 26 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 1c12636..69e66b6 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -593,6 +593,19 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // overwrite the flags
     if(!index_write(fd, &index_transition->flags, sizeof(index_transition->flags), root)) {
         zdb_warnp("index_entry_delete write");
+
+        // maybe only the flush failed, restoring the original flags
+        lseek(fd, entry->idxoffset + offsetof(index_item_t, flags), SEEK_SET);
+
+        if(write(fd, &entry->flags, sizeof(entry->flags)) != sizeof(entry->flags)) {
+            zdb_warnp("index_entry_delete rollback");
+            lseek(fd, entry->idxoffset, SEEK_SET);
+
+            // what's on the disk is what will be loaded next time, follow it
+            if(read(fd, index_transition, sizeof(index_item_t)) == sizeof(index_item_t))
+                entry->flags = index_transition->flags;
+        }
+
         close(fd);
         return 1;
     }
@@ -611,8 +624,13 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
 
 int index_entry_delete(index_root_t *root, index_entry_t *entry) {
     // first flag disk entry as deleted
-    if(index_entry_delete_disk(root, entry))
+    if(index_entry_delete_disk(root, entry)) {
+        // could not be reported as deleted, but it could not be reverted
+        if(index_entry_is_deleted(entry))
+            index_entry_delete_memory(root, entry);
+
         return 1;
+    }
 
     // then remove entry from memory
     if(index_entry_delete_memory(root, entry))
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 250c969..063f7e2 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <stdint.h>
+#include <stddef.h>
 #include <inttypes.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -736,14 +737,15 @@ int index_delete_files(index_root_t *root) {
 // warning: no internal check will be made
 //          be careful and ensure you can change mode
 //
-int index_switch_mode(index_root_t *root) {
+int index_switch_mode(index_root_t *root, index_mode_t mode) {
     index_header_t header;
+    uint8_t newmode = mode;
     int fd;
 
     // open initial index file in write mode
     if((fd = index_open_file_readwrite(root, 0)) < 0) {
         zdb_warnp("index_switch_mode: open");
-        return fd;
+        return 1;
     }
 
     // read existing header
@@ -755,19 +757,30 @@ int index_switch_mode(index_root_t *root) {
         return 1;
     }
 
-    // update mode
-    header.mode = root->mode;
+    // update mode, nothing else changes
+    lseek(fd, offsetof(index_header_t, mode), SEEK_SET);
 
-    // rewrite header
-    lseek(fd, 0, SEEK_SET);
+    int written = index_write(fd, &newmode, sizeof(newmode), root);
 
-    if(!index_write(fd, &header, sizeof(header), root)) {
+    if(!written) {
         zdb_warnp("index_switch_mode: write");
-        close(fd);
-        return 1;
+
+        // maybe only the flush failed, restoring the original mode
+        lseek(fd, offsetof(index_header_t, mode), SEEK_SET);
+
+        if(write(fd, &header.mode, sizeof(header.mode)) != sizeof(header.mode))
+            zdb_warnp("index_switch_mode: rollback");
+    }
+
+    // what's on the disk is what will be loaded next time
+    lseek(fd, 0, SEEK_SET);
+
+    if(read(fd, &header, sizeof(header)) == sizeof(header)) {
+        root->mode = header.mode;
+        index_rehash(root);
     }
 
     close(fd);
 
-    return 0;
+    return !written;
 }
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 1f6ce2d..7083ffd 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -18,7 +18,7 @@
     uint64_t index_availity_check(index_root_t *root);
     index_header_t *index_descriptor_load(index_root_t *root);
     index_header_t *index_descriptor_validate(index_header_t *header, index_root_t *root);
-    int index_switch_mode(index_root_t *root);
+    int index_switch_mode(index_root_t *root, index_mode_t mode);
 
     // gracefully clean everything
     int index_delete_files(index_root_t *root);
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index ef6d227..3df8b72 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -52,7 +52,12 @@
 //
 
 // special sequential function
-int index_seq_overwrite(index_root_t *root, index_set_t *set) {
+static void index_seq_overwritten(index_root_t *root, index_entry_t *entry, index_entry_t *previous) {
+    root->stats.datasize -= previous->length;
+    root->stats.datasize += entry->length;
+}
+
+int index_seq_overwrite(index_root_t *root, index_set_t *set, index_entry_t *previous) {
     index_entry_t *entry = set->entry;
     index_item_t original;
     int fd;
@@ -104,6 +109,13 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
         if(write(fd, &original, sizeof(index_item_t)) != sizeof(index_item_t))
             zdb_warnp("index_seq_overwrite rollback");
 
+        // the new entry could not be replaced, it will be loaded next time
+        lseek(fd, offset, SEEK_SET);
+
+        if(read(fd, &original, sizeof(index_item_t)) == sizeof(index_item_t))
+            if(memcmp(&original, item, sizeof(index_item_t)) == 0)
+                index_seq_overwritten(root, set->entry, previous);
+
         close(fd);
         return 1;
     }
@@ -113,6 +125,9 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, seqmap->fileid, 1);
 
+    // update statistics
+    index_seq_overwritten(root, set->entry, previous);
+
     return 0;
 }
 
@@ -334,6 +349,13 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
     if(index_entry_delete_disk(root, previous)) {
         zdb_debug("[-] index: update entry failed: could not flag previous entry\n");
+
+        // the previous one could not be restored, keep the new one
+        if(index_entry_is_deleted(previous)) {
+            index_update_memory_handler_memkey(root, set, previous);
+            return NULL;
+        }
+
         index_rollback(root, set->entry->idxoffset);
         root->previous = lastoffset;
         return NULL;
@@ -371,15 +393,11 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
 
-    if(index_seq_overwrite(root, set)) {
+    if(index_seq_overwrite(root, set, previous)) {
         zdb_debug("[-] index: update entry failed: could not overwrite the entry\n");
         return NULL;
     }
 
-    // update statistics
-    root->stats.datasize -= previous->length;
-    root->stats.datasize += set->entry->length;
-
     return set->entry;
 }
 
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 78bc733..fcb2479 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -429,18 +429,11 @@ static int command_nsset_worm(namespace_t *namespace, char *value) {
 
 // apply a new mode, the previous one is kept if that cannot be written
 static int command_nsset_mode_switch(redis_client_t *client, namespace_t *namespace, index_mode_t mode) {
-    index_mode_t previous = namespace->index->mode;
-
-    namespace->index->mode = mode;
-
-    if(index_switch_mode(namespace->index)) {
-        namespace->index->mode = previous;
+    if(index_switch_mode(namespace->index, mode)) {
         redis_hardsend(client, "-Cannot update the namespace right now");
         return 1;
     }
 
-    index_rehash(namespace->index);
-
     return 0;
 }
 
-- 
2.43.0


From 9af5b4058e3a0006d7f8bd4b328a9b65b0ba4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 26/58] fix: the lock of the directories is not inherited by
 hooks

---
 libzdb/bootstrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 4c2b089..c002d95 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -74,7 +74,8 @@ static int zdb_lock(char *lockpath) {
 
     zdb_debug("[+] bootstrap: checking lockfile: %s\n", lockpath);
 
-    if((fd = open(lockpath, O_CREAT | O_RDONLY, 0664)) < 0) {
+    // hooks executed should not keep the lock after us
+    if((fd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0664)) < 0) {
         zdb_warnp(lockpath);
         return -1;
     }
-- 
2.43.0


From 80b06c78657fed878c8dcf901d53a4775cec9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 27/58] fix: sockets are not inherited by hooks

---
 zdbd/redis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index a46df43..5fbabae 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -818,6 +818,9 @@ void socket_nonblock(int fd) {
         zdbd_diep("fcntl");
 
     fcntl(fd, F_SETFL, flags | O_NONBLOCK);
+
+    // hooks executed should not keep our sockets opened
+    fcntl(fd, F_SETFD, FD_CLOEXEC);
 }
 
 void socket_keepalive(int fd) {
-- 
2.43.0


From 139ae97efa0ab1d47002ae597fda0af13e5f9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 28/58] fix: clients waiting in a removed namespace are not
 woken by the previous command of another client

---
 zdbd/commands.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..1bbd0f2 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -161,6 +161,10 @@ int redis_dispatcher(redis_client_t *client) {
     resp_request_t *request = client->request;
     resp_object_t *key = request->argv[0];
 
+    // nothing executed yet for this request, clients waiting
+    // for a command should not be notified by the previous one
+    client->executed = NULL;
+
     // client doesn't have a running namespace
     // this will happens when a namespace is removed
     // and the client is still attached to this namespace
-- 
2.43.0


From 61d9cec21e75f36a7adc44aaf583b181e77fc9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 29/58] fix: refuse negative and invalid lengths in requests

---
 zdbd/redis.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 5fbabae..8904e31 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -402,6 +402,24 @@ static void redis_free_request(resp_request_t *request) {
     request->argv = NULL;
 }
 
+// extract a length announced by the client, value needs to be terminated
+// by a non-digit character (the new line of the header)
+//
+// returns -1 if there is no valid (positive) number, any too large number
+// is reduced to something higher than any accepted limit
+static int resp_length(const char *reader) {
+    int value = 0;
+
+    if(*reader < '0' || *reader > '9')
+        return -1;
+
+    for(; *reader >= '0' && *reader <= '9'; reader++)
+        if(value < (1 << 24))
+            value = (value * 10) + (*reader - '0');
+
+    return value;
+}
+
 static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
@@ -432,7 +450,13 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     }
 
     // reading the amount of arguments
-    request->argc = atoi(buffer->reader + 1);
+    if((request->argc = resp_length(buffer->reader + 1)) < 0) {
+        zdbd_debug("[-] resp: invalid amount of arguments, rejecting\n");
+        request->argc = 0;
+        resp_discard(client, "Malformed request, invalid arguments count");
+        return RESP_STATUS_DISCARD;
+    }
+
     zdbd_debug("[+] redis: resp: %d arguments\n", request->argc);
 
     if(request->argc == 0) {
@@ -506,7 +530,12 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     resp_object_t *argument = request->argv[request->fillin];
 
     // reading the length of the array
-    argument->length = atoi(buffer->reader + 1);
+    if((argument->length = resp_length(buffer->reader + 1)) < 0) {
+        zdbd_debug("[-] resp: invalid string length, rejecting\n");
+        resp_discard(client, "Malformed query string");
+        return RESP_STATUS_DISCARD;
+    }
+
     // real size is the length + 2 (\r\n)
     argument->size = argument->length + 2;
 
-- 
2.43.0


From 8819091d12a2a0a4f8161eeb9e5eda4ad81b3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 30/58] fix: read clients sockets until nothing more is
 available

---
 zdbd/redis.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 8904e31..19a8e61 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -814,6 +814,10 @@ go_again:
         if(request->fillin == request->argc) {
             pzdbd_debug("[+] redis: request completed, executing\n");
             value = redis_handle_resp_finished(client);
+
+            // this client (or the server) is done, ignoring anything following
+            if(value == RESP_STATUS_DISCARD || value == RESP_STATUS_SHUTDOWN)
+                break;
         }
     }
 
@@ -829,15 +833,11 @@ go_again:
         return value;
     }
 
-    // not suceed, let's try again
-    if(value != RESP_STATUS_SUCCESS) {
-        pzdbd_debug("[+] redis: parsing didn't suceed, trying again\n");
-        goto go_again;
-    }
-
-    // success
-    pzdbd_debug("[+] redis: socket parsing succeed\n");
-    return RESP_STATUS_SUCCESS;
+    // we are notified only once when data are available, we need to
+    // read the socket until nothing more is available, otherwise remaining data
+    // (or disconnection) would only be noticed when something new arrives
+    pzdbd_debug("[+] redis: chunk parsed, checking for more data\n");
+    goto go_again;
 }
 
 void socket_nonblock(int fd) {
-- 
2.43.0


From a4c9756edb698446fad35fc73197c40d2e85b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 31/58] fix: master: answer requests with a missing or
 malformed owner id

A request without any argument left after removing the owner id was
dispatched anyway, reading the argument just released.
---
 zdbd/redis.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 19a8e61..e09300d 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -642,9 +642,14 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // this comes from a replication client
     // extracting the owner id (which is the last argument)
     // and checking if it's a replay of our own database
+    if(client->request->argc < 2) {
+        resp_discard(client, "Missing owner id");
+        return 1;
+    }
+
     resp_object_t *ownobj = client->request->argv[client->request->argc - 1];
     if(ownobj->length > 32) {
-        zdbd_debug("[-] redis: owner check: malformed owner, id is too long, dropping\n");
+        resp_discard(client, "Malformed owner id");
         return 1;
     }
 
-- 
2.43.0


From 29c1aa186ac3c386854adc5c54c69c4947eb3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 32/58] fix: requests owner: set the instance id, which was
 never initialized

Mirrors were only fed depending on the content of uninitialized memory, and
requests coming back from another instance were not recognized.
---
 zdbd/redis.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index e09300d..fcc0049 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -635,7 +635,7 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // it's a normal client, there is nothing special to do
     // just set the owner id as our own id
     if(!client->master) {
-        // client->request->owner = zdbd_rootsettings.iid; // FIXME
+        client->request->owner = zdb_instanceid_get();
         return 0;
     }
 
@@ -661,12 +661,10 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // converting string into unsigned integer
     uint32_t ownerid = strtoul(temp, NULL, 10);
 
-    /* FIXME
-    if(ownerid == zdbd_rootsettings.iid) {
-        zdbd_debug("[-] redis: owner check: looks like this comes from us, dropping\n");
+    if(ownerid == zdb_instanceid_get()) {
+        resp_discard(client, "Request comes from this instance, ignored");
         return 1;
     }
-    */
 
     // okay, let's pop this request from original object
     // so this request will looks like an original request
-- 
2.43.0


From b569f00c7d8dc6288eb5332b8ecc6b8b1942e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 33/58] fix: rscan: debug message reads an uninitialized entry

---
 libzdb/index_scan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index 58eccd2..e71319e 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -121,7 +121,7 @@ static index_scan_t index_previous_header_real(index_scan_t scan) {
             scan.target = sizeof(index_header_t);
     }
 
-    zdb_debug("[+] index rscan: previous-header: offset: %u\n", source.previous);
+    zdb_debug("[+] index rscan: previous-header: offset: %lu\n", scan.target);
 
     // at that point, we know scan.target is set to the expected value
     if(scan.target == 0) {
-- 
2.43.0


From 638b8edbc7012144b88d022b6bdb52921f7962bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 34/58] fix: commands: argument of exactly the maximum length
 overflows its buffer

Buffers needs one more byte for the end of the string.
---
 zdbd/commands.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index 1bbd0f2..0b39d74 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -86,7 +86,7 @@ int command_admin_authorized(redis_client_t *client) {
 int command_args_overflow(redis_client_t *client, int argidx, int maxlen) {
     resp_request_t *request = client->request;
 
-    if(request->argv[argidx]->length > maxlen) {
+    if(request->argv[argidx]->length >= maxlen) {
         redis_hardsend(client, "-Argument too long");
         return 0;
     }
-- 
2.43.0


From ee91eb2a483cd3826d18bbbb0633616c3a0f238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 35/58] fix: sockets: stop monitoring the socket of a client
 before closing it

A hook just forked keeps a copy of the socket opened until it's executed,
events were still received for the client already released.
---
 zdbd/socket_epoll.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zdbd/socket_epoll.c b/zdbd/socket_epoll.c
index a23efe9..64bf1c4 100644
--- a/zdbd/socket_epoll.c
+++ b/zdbd/socket_epoll.c
@@ -51,6 +51,17 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
     return 1;
 }
 
+// discard a client and stop monitoring its socket
+//
+// closing the socket is not enough to stop monitoring it: a hook just
+// forked, not executed yet, still keeps it opened
+static void socket_client_discard(redis_handler_t *redis, int fd) {
+    if(epoll_ctl(redis->evfd, EPOLL_CTL_DEL, fd, NULL) < 0)
+        zdbd_verbosep("socket_event", "epoll_ctl");
+
+    socket_client_free(fd);
+}
+
 static int socket_event(struct epoll_event *events, int notified, redis_handler_t *redis) {
     struct epoll_event *ev;
 
@@ -62,7 +73,7 @@ static int socket_event(struct epoll_event *events, int notified, redis_handler_
         // discard this client
         if((ev->events & EPOLLERR) || (ev->events & EPOLLHUP)) {
             zdbd_verbosep("socket_event", "epoll");
-            socket_client_free(ev->data.fd);
+            socket_client_discard(redis, ev->data.fd);
             continue;
         }
 
@@ -89,7 +100,7 @@ static int socket_event(struct epoll_event *events, int notified, redis_handler_
 
             // client error, we discard it
             if(ctrl == RESP_STATUS_DISCARD || ctrl == RESP_STATUS_DISCONNECTED) {
-                socket_client_free(ev->data.fd);
+                socket_client_discard(redis, ev->data.fd);
                 continue;
             }
 
-- 
2.43.0


From d04233df69e4377420f5b79d27fb9ae29a0501aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 36/58] fix: index entries built from the disk have all their
 fields set

---
 libzdb/index.c        | 5 ++++-
 libzdb/index_loader.c | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 69e66b6..70ce971 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -732,7 +732,7 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     // FIXME: avoid double malloc for a single object
     index_entry_t *entry;
 
-    if(!(entry = malloc(sizeof(index_entry_t) + item->idlength))) {
+    if(!(entry = calloc(1, sizeof(index_entry_t) + item->idlength))) {
         zdb_debug("[-] index: deserialize: cannot allocate memory\n");
         free(item);
         return NULL;
@@ -746,6 +746,9 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     entry->idxoffset = key->idxoffset;
     entry->crc = item->crc;
     entry->length = item->length;
+    entry->parentid = item->parentid;
+    entry->parentoff = item->parentoff;
+    entry->timestamp = item->timestamp;
     memcpy(entry->id, item->id, item->idlength);
 
     // clean intermediate item
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 063f7e2..513dffb 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -560,7 +560,7 @@ void index_internal_allocate_single() {
     // object now and reuse the same all the time
     //
     // this is allocated, when index mode can be different on runtime
-    if(!(index_reusable_entry = (index_entry_t *) malloc(sizeof(index_entry_t) + MAX_KEY_LENGTH)))
+    if(!(index_reusable_entry = (index_entry_t *) calloc(1, sizeof(index_entry_t) + MAX_KEY_LENGTH)))
         zdb_diep("malloc");
 }
 
-- 
2.43.0


From 28c9356299490957aa65cb67f4b4929a629b7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 37/58] fix: memory leaks: payload compared by SET, replies
 never sent to a disconnected client

---
 zdbd/commands_get.c | 3 ++-
 zdbd/commands_set.c | 9 +++++----
 zdbd/redis.c        | 8 ++++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/zdbd/commands_get.c b/zdbd/commands_get.c
index e311b17..9655f9d 100644
--- a/zdbd/commands_get.c
+++ b/zdbd/commands_get.c
@@ -44,13 +44,14 @@ static int command_get_single(redis_client_t *client, char *buffer, int length)
     }
 
     redis_bulk_t response = redis_bulk(payload.buffer, payload.length);
+    free(payload.buffer);
+
     if(!response.buffer) {
         redis_hardsend(client, "$-1");
         return 0;
     }
 
     redis_reply_heap(client, response.buffer, response.length, free);
-    free(payload.buffer);
 
     return 0;
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 1f19de7..5af9e52 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -65,12 +65,13 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
         return 0;
 
     // check if data are the same
-    if(memcmp(payload.buffer, dreq->data, dreq->datalength) == 0) {
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    if(matching)
         zdbd_debug("[+] command: set: matching data, ignoring update\n");
-        return 1;
-    }
 
-    return 0;
+    return matching;
 }
 
 static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *existing) {
diff --git a/zdbd/redis.c b/zdbd/redis.c
index fcc0049..3f399aa 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -960,6 +960,14 @@ void socket_client_free(int fd) {
     // closing socket
     close(client->fd);
 
+    // discard responses not sent yet
+    for(redis_response_t *response = client->responses; response; ) {
+        redis_response_t *next = response->next;
+
+        redis_response_free(response);
+        response = next;
+    }
+
     // cleaning client memory usage
     redis_free_request(client->request);
     buffer_free(&client->buffer);
-- 
2.43.0


From ca3ed21043add34a3d80f9e802ee65cc27fbdb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 38/58] fix: data raw: deleted entries and empty payloads are
 answered, missing file refused

A deleted entry was answered as an error even if the reply code knows how to
send it without payload, which stopped any walk. An empty payload made the
command fail and log an invalid read. The id of a data file which can't be
opened was used as an entry full of zero.
---
 libzdb/data.c          |  2 +-
 zdbd/commands_system.c | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 44f101d..61b413c 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -427,7 +427,7 @@ data_raw_t data_raw_get_real(int fd, off_t offset) {
 
     if(raw.header.flags & DATA_ENTRY_DELETED) {
         zdb_debug("[+] data: raw: entry deleted\n");
-        return data_raw_error(raw);
+        return raw;
     }
 
     zdb_debug("[+] data: raw: fetching payload from header offset\n");
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..e709352 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -281,7 +281,13 @@ static int command_data_raw(redis_client_t *client) {
         return 1;
     }
 
-    if(raw.header.datalength == 0 || raw.header.datalength != raw.payload.length) {
+    // file not available
+    if(!raw.id) {
+        redis_hardsend(client, "-Invalid Request");
+        return 0;
+    }
+
+    if(raw.header.datalength != raw.payload.length) {
         if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
             // something went wrong when fetching data from file
             zdb_log("[-] command: data: raw: invalid read at specified data/offset\n");
@@ -322,10 +328,10 @@ static int command_data_raw(redis_client_t *client) {
     length += sprintf(response + length, ":%u\r\n", raw.header.flags);
     length += sprintf(response + length, ":%u\r\n", raw.header.timestamp);
 
-    if(raw.payload.length > 0) {
+    if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
         length += sprintf(response + length, "$%lu\r\n", raw.payload.length);
         memcpy(response + length, raw.payload.buffer, raw.payload.length);
-        length += raw.header.datalength;
+        length += raw.payload.length;
         length += sprintf(response + length, "\r\n");
 
     } else {
-- 
2.43.0


From 22d8b015dd31c4c3a237fde1e6f90a3e7174ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 39/58] fix: nsset: values of 63 bytes are accepted

The limit includes the end of the string.
---
 zdbd/commands_namespace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index fcb2479..daff5b8 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -518,7 +518,7 @@ int command_nsset(redis_client_t *client) {
         return 1;
 
     // limit size of the value
-    if(!command_args_overflow(client, 3, 63))
+    if(!command_args_overflow(client, 3, 64))
         return 1;
 
     sprintf(target, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From 70a14143eaab72a864204d1047e48f09ae5b479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 40/58] fix: integrity-check: accept datafiles names, check
 empty payloads, exit status

The exit status was the number of errors, 256 errors were a success.
---
 tools/integrity-check/integrity-check.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 4644a60..89ebaaf 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -78,10 +78,8 @@ int data_integrity(data_root_t *zdbdata) {
         printf("[+]   entry key      : ");
         zdb_tools_hexdump(entry->id, entry->idlength);
 
-        if(entry->datalength == 0)
-            continue;
-
-        if(!(buffer = realloc(buffer, entry->datalength)))
+        // always allocate something, payload can be empty
+        if(!(buffer = realloc(buffer, entry->datalength + 1)))
             zdb_diep("realloc");
 
         if(read(zdbdata->datafd, buffer, entry->datalength) != entry->datalength)
@@ -127,12 +125,12 @@ int main(int argc, char *argv[]) {
     char *filedir = dirname(strdup(filename));
     char *datafile = basename(filename);
 
-    if(strncmp(datafile, "zdb-data-", 9)) {
+    if(datafile[0] != 'd' || datafile[strspn(datafile + 1, "0123456789") + 1] || !datafile[1]) {
         fprintf(stderr, "[-] integrity-check: data filename seems wrong\n");
         exit(EXIT_FAILURE);
     }
 
-    fileid_t dataid = atoi(datafile + 9);
+    fileid_t dataid = atoi(datafile + 1);
 
     printf("[+] datafile path: %s\n", filedir);
     printf("[+] datafile name: %s\n", datafile);
@@ -162,6 +160,7 @@ int main(int argc, char *argv[]) {
     if((val = data_integrity(zdbdata)))
         fprintf(stderr, "[-] data file inconsistency: %d error(s)\n", val);
 
-    return val;
+    // exit status is limited to 8 bits
+    return val ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 3202293128990da9aa93b0486025ed363798ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 41/58] fix: quick-compact: files names, index offsets and
 deleted entries

Files written could not be loaded by the server: wrong names, index entries
pointing to the wrong data, deleted entries without their flags.
---
 tools/quick-compaction/quick-compact.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 90a3bb1..6823081 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -144,13 +144,13 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     uint32_t dataoffset = sizeof(data_header_t);
 
     // create target index and data files
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-index-%05d", output->indexpath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/i%u", output->indexpath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target index: %s\n", filebuf);
     if((indexfd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
         diep(filebuf);
 
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", output->datapath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", output->datapath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target data: %s\n", filebuf);
     if((datafd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
@@ -229,7 +229,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         if(truedid != fileid) {
             printf("[+] quick-compact: opening another datafile\n");
 
-            snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", input->datapath, output->nsname, truedid);
+            snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", input->datapath, output->nsname, truedid);
 
             if((transfd = open(filebuf, O_RDONLY, 0600)) < 0)
                 diep(buffer);
@@ -259,9 +259,9 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         printf("original id len = %d\n", dataentry->idlength);
         printf("original data len = %d\n", dataentry->datalength);
 
-        if(item->length == 0) {
+        if(item->flags & INDEX_ENTRY_DELETED) {
             dataentry->datalength = 0;
-            dataentry->flags |= DATA_ENTRY_TRUNCATED;
+            dataentry->flags |= DATA_ENTRY_TRUNCATED | DATA_ENTRY_DELETED;
             dataentry->integrity = 0;
         }
 
@@ -272,14 +272,15 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         ssize_t writelen = sizeof(data_entry_header_t) + item->idlength + item->length;
 
         // saving current position as previous entry
-        session->dataprev = lseek(datafd, 0, SEEK_CUR);
-        dataoffset = session->dataprev;
+        session->dataprev = dataoffset;
 
         // writing new data
         if(write(datafd, dataentry, writelen) != writelen)
             diep("data payload write");
 
-        printf("<<<< new next offset: %lu\n", lseek(datafd, 0, SEEK_CUR));
+        // next entry will be written after this one
+        dataoffset = lseek(datafd, 0, SEEK_CUR);
+        printf("<<<< new next offset: %u\n", dataoffset);
         free(dataentry);
 
         entrycount += 1;
-- 
2.43.0


From ebec5291460149cf127f174a25f9c3a9992e9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 42/58] fix: namespace-dump: missing namespace is an error, not
 a crash

---
 tools/namespace-dump/namespace-dump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/namespace-dump/namespace-dump.c b/tools/namespace-dump/namespace-dump.c
index 5873159..f221e3a 100644
--- a/tools/namespace-dump/namespace-dump.c
+++ b/tools/namespace-dump/namespace-dump.c
@@ -37,6 +37,11 @@ int main(int argc, char *argv[]) {
     ns_root_t *nsroot = namespaces_allocate(zdb_settings);
     namespace_t *ns = namespace_load_light(nsroot, nsname, 0);
 
+    if(!ns) {
+        fprintf(stderr, "[-] namespace-dump: could not load namespace\n");
+        exit(EXIT_FAILURE);
+    }
+
     printf("[+] ----------------------------------------\n");
     printf("[+] name        : %s\n", ns->name);
     printf("[+] password    : %s\n", ns->password ? ns->password : "<no password set>");
-- 
2.43.0


From e2d29a262d1189943073b87359abd4744e145232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 43/58] fix: index-rebuild: deletion of a key which is not
 there is ignored

---
 tools/index-rebuild/index-rebuild.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 931ea73..5b3f5df 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -105,7 +105,8 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
         index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength);
 
         if(entry->flags & DATA_ENTRY_DELETED) {
-            if(index_entry_delete(zdbindex, existing)) {
+            // nothing to delete if the key is not known (anymore)
+            if(existing && index_entry_delete(zdbindex, existing)) {
                 fprintf(stderr, "[-] index-rebuild: could not delete index item\n");
                 return -1;
             }
-- 
2.43.0


From ebca992076e5dcf74529c982ef192354bb2e7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 44/58] fix: hooks: killed or never started hooks are not
 successful, ignore unknown children

A hook killed by a signal was reported with the status 0, a hook which could
not be started stayed running forever and another child was waited for, and a
child which is not a hook made the server crash.
---
 libzdb/hook.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index dd17c78..b523075 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -116,6 +116,15 @@ int hook_append(hook_t *hook, char *argument) {
     return (int) hook->argidx;
 }
 
+// exit code of a terminated hook, a hook killed by
+// a signal is not a successful hook
+static int hook_exit_code(int status) {
+    if(WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+
+    return WEXITSTATUS(status);
+}
+
 pid_t hook_execute(hook_t *hook) {
     pid_t pid;
 
@@ -126,6 +135,10 @@ pid_t hook_execute(hook_t *hook) {
             zdb_warnp("hook: fork");
             pid = 0;
 
+            // never started, there is nothing to wait for
+            hook->finished = hook->created;
+            hook->status = EXIT_FAILURE;
+
         } else {
             // adding one pending child
             zdb_rootsettings.stats.childwait += 1;
@@ -147,16 +160,18 @@ pid_t hook_execute(hook_t *hook) {
 
 int hook_execute_wait(hook_t *hook) {
     pid_t child;
-    int status;
+    int status = 0;
+
+    if((child = hook_execute(hook)) == 0)
+        return hook->status;
 
-    child = hook_execute(hook);
     zdb_debug("[+] hooks: waiting for hook to finish: %d\n", child);
 
     if(waitpid(child, &status, 0) < 0)
         zdb_warnp("waitpid");
 
     hook->finished = time(NULL);
-    hook->status = WEXITSTATUS(status);
+    hook->status = hook_exit_code(status);
 
     // update stats, since we wait, this won't be handled
     // by recurring scrubber
@@ -220,19 +235,20 @@ void libzdb_hooks_cleanup() {
     while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
         zdb_debug("[+] hooks: pid %d terminated, status: %d\n", pid, WEXITSTATUS(status));
 
-        // one child terminated
-        if(WIFEXITED(status) || WIFSIGNALED(status)) {
-            zdb_rootsettings.stats.childwait -= 1;
-        }
-
         // looking for matching hook
         for(size_t i = 0; i < hooks->length; i++) {
             hook_t *hook = hooks->hooks[i];
 
+            // empty slot, nothing to do
+            if(hook == NULL)
+                continue;
+
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
-                hook->status = WEXITSTATUS(status);
+                hook->status = hook_exit_code(status);
+
+                zdb_rootsettings.stats.childwait -= 1;
                 break;
             }
         }
-- 
2.43.0


From 8c914fdc3ad20ac33e79d047cbd1bf16ad29d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 45/58] fix: hooks: list of hooks overflows its buffer with
 long arguments

---
 zdbd/commands_system.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index e709352..dc8eb83 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -132,7 +132,18 @@ int command_hooks(redis_client_t *client) {
     if(!command_admin_authorized(client))
         return 1;
 
-    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024)))
+    // arguments have no fixed size (path, list of dirty index, ...)
+    size_t fullsize = (hooks->active + 1) * 1024;
+
+    for(size_t i = 0; i < hooks->length; i++) {
+        if(!(hook = hooks->hooks[i]))
+            continue;
+
+        for(size_t s = 1; s < hook->argc - 1; s++)
+            fullsize += strlen(hook->argv[s]) + 32;
+    }
+
+    if(!(info = calloc(sizeof(char), fullsize)))
         return 1;
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
-- 
2.43.0


From 05f2d2b8ff0dca84c44d20bc2b9cd98edc132846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 46/58] fix: api: set uses the mode of the namespace (out of
 bounds in mixed mode)

---
 libzdb/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index dac3efe..6a4e479 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -302,7 +302,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
             return zdb_api_reply_error("Cannot write data right now");
     }
 
-    return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
+    return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
 }
 
 
-- 
2.43.0


From bc3627a513156c9227d237f753bcb44c479e2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 47/58] fix: api: set records the data file in the index entry

---
 libzdb/api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index 6a4e479..5641643 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From 380809643a6553a427a4dac7d8cdc7f1ccca6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 48/58] fix: api: set compares data and not only the checksum

---
 libzdb/api.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 5641643..9e7edf6 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,25 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+// check if data of the existing entry are exactly the same than the
+// requested ones (same checksum doesn't mean same data)
+static int api_data_matching(namespace_t *ns, index_entry_t *existing, data_request_t *dreq) {
+    if(existing->crc != dreq->crc || existing->length != dreq->datalength)
+        return 0;
+
+    index_entry_t *x = existing; // shortcut
+    data_payload_t payload = data_get(ns->data, x->offset, x->length, x->dataid, x->idlength);
+
+    // data not readable, let's write them again
+    if(!payload.buffer)
+        return 0;
+
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    return matching;
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -126,7 +145,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
+    if(existing && api_data_matching(ns, existing, &dreq)) {
         zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
@@ -207,7 +226,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
+    if(existing && api_data_matching(ns, existing, &dreq)) {
         zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
-- 
2.43.0


From b264a77c82c69120dc815c4282c5e1695377f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 49/58] fix: api: check does not report unreadable data as
 valid

---
 libzdb/api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index 9e7edf6..16867ab 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -404,6 +404,11 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: get: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
+
+    // data could not be read
+    if(status < 0)
+        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+
     return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
-- 
2.43.0


From 0b5f1d01a20729dae4e1aa75785f44d50fa42dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 50/58] fix: api: keys too long are refused, not truncated

---
 libzdb/api.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 16867ab..0d31231 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -124,6 +124,14 @@ static int api_data_matching(namespace_t *ns, index_entry_t *existing, data_requ
     return matching;
 }
 
+// fetch index entry, there is no entry for a key too long
+static index_entry_t *api_index_get(namespace_t *ns, void *key, size_t ksize) {
+    if(ksize > MAX_KEY_LENGTH)
+        return NULL;
+
+    return index_get(ns->index, key, ksize);
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -290,6 +298,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     index_entry_t *entry = NULL;
     size_t floating = 0;
 
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply_error("Key too large");
+
     // if the user want to override an existing key
     // and the maxsize of the namespace is reached, we need
     // to know if the replacement data is shorter, this is
@@ -299,7 +310,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // update an existing key, we can only delete it
     if(ksize) {
         // userkey id is not null
-        if((entry = index_get(ns->index, key, ksize)))
+        if((entry = api_index_get(ns, key, ksize)))
             floating = entry->length;
     }
 
@@ -334,7 +345,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry = NULL;
 
     // fetching index entry for this key
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
@@ -368,7 +379,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
 // DATASET
 //
 zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
@@ -385,7 +396,7 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
 }
 
 zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     // key not found at all
     if(!entry) {
@@ -416,7 +427,7 @@ zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry;
 
     // grabbing original entry
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
-- 
2.43.0


From 799d1ebb013b3b8e384a31363741c1477186fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 51/58] fix: command line protect and maxsize are not written
 in the default namespace descriptor

---
 libzdb/namespace.c        |  3 ++-
 libzdb/namespace.h        |  1 +
 zdbd/commands_namespace.c | 12 ++++++++----
 zdbd/zdbd.c               |  1 +
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 0c3f6fd..0df4a8f 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -197,7 +197,8 @@ static int namespace_descriptor_load(namespace_t *namespace) {
     return 1;
 }
 
-static void namespace_commit_hook(namespace_t *namespace) {
+// notify that the settings of a namespace were updated
+void namespace_commit_hook(namespace_t *namespace) {
     if(!zdb_rootsettings.hook)
         return;
 
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 7ac6e3a..867d302 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -79,6 +79,7 @@
     int namespace_create(char *name);
     int namespace_delete(namespace_t *namespace);
     int namespace_commit(namespace_t *namespace);
+    void namespace_commit_hook(namespace_t *namespace);
     int namespace_flush(namespace_t *namespace);
     int namespace_reload(namespace_t *namespace);
     int namespace_jump(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index daff5b8..f4bb202 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -585,13 +585,17 @@ int command_nsset(redis_client_t *client) {
         return 1;
     }
 
-    // update persistant setting
-    int committed = namespace_commit(namespace);
-
     int changed = (namespace->password != previous.password || namespace->maxsize != previous.maxsize ||
                    namespace->public != previous.public || namespace->worm != previous.worm);
 
-    if(committed < 0 && changed) {
+    // other settings are not part of the descriptor, don't write it for
+    // them: the default namespace can run with settings of the command
+    // line (protect, maxsize) which only apply to the current run
+    if(!changed)
+        namespace_commit_hook(namespace);
+
+    // update persistant setting
+    if(changed && namespace_commit(namespace) < 0) {
         if(namespace->password != previous.password)
             free(namespace->password);
 
diff --git a/zdbd/zdbd.c b/zdbd/zdbd.c
index 3e9a740..e0f9b3c 100644
--- a/zdbd/zdbd.c
+++ b/zdbd/zdbd.c
@@ -242,6 +242,7 @@ static int proceed(zdb_settings_t *zdb_settings, zdbd_settings_t *zdbd_settings)
     // apply global protected flag to the default namespace
     if(zdbd_settings->protect) {
         namespace_t *defns = namespace_get_default();
+        free(defns->password);
         defns->password = strdup(zdbd_settings->adminpwd);
     }
 
-- 
2.43.0


From bbefc0e5fbfdc427a3202a25d8d9a12c65d483e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 52/58] fix: db-sync: a failed copy is reported, removed keys
 are not copied

---
 utilities/db-sync/db-sync.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/utilities/db-sync/db-sync.c b/utilities/db-sync/db-sync.c
index ae12484..77ce3e5 100644
--- a/utilities/db-sync/db-sync.c
+++ b/utilities/db-sync/db-sync.c
@@ -179,11 +179,30 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
             exit(EXIT_FAILURE);
         }
 
+        // key was removed since it was listed
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] source: %s\n", input->str);
+            return 1;
+        }
+
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] target: %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] target: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -244,11 +263,19 @@ int synchronize(sync_t *sync) {
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, &status);
+        if(fetchsync(sync, &keylist, &status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
 
+    // the listing did not reach the end
+    if(strcmp(reply->str, "No more data")) {
+        fprintf(stderr, "\n[-] source: %s\n", reply->str);
+        return 1;
+    }
+
     printf("\n[+] database synchronized\n");
     return 0;
 }
-- 
2.43.0


From 23ac3e0f87f770571c600d28cfbe1e5f79aad950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 53/58] fix: db-replicate: empty source, failed copy and
 removed keys are handled

---
 utilities/db-replicate/db-replicate.c | 49 +++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index c60ffd3..2423e51 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -116,11 +116,30 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
             exit(EXIT_FAILURE);
         }
 
+        // key was removed since it was listed
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] source: %s\n", input->str);
+            return 1;
+        }
+
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] target: %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] target: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -170,11 +189,19 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, status);
+        if(fetchsync(sync, &keylist, status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
 
+    // the listing did not reach the end
+    if(strcmp(reply->str, "No more data")) {
+        fprintf(stderr, "\n[-] source: %s\n", reply->str);
+        return 1;
+    }
+
     return 0;
 }
 
@@ -215,12 +242,22 @@ int synchronize(sync_t *sync) {
         // wait is not needed
         freeReplyObject(wait);
 
-        // fetching from last ket we know
-        if(!(from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
+        // fetching from last ket we know, or everything if there
+        // was nothing on the source or if that key was replaced
+        from = NULL;
+
+        if(reply->type == REDIS_REPLY_ARRAY)
+            from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len);
+
+        if(!from || (from->type == REDIS_REPLY_ERROR && strcmp(from->str, "No more data")))
+            from = redisCommand(sync->sourceq, "SCAN");
+
+        if(!from)
             return 1;
 
         printf("[+] trigger fired, syncing...\n");
-        replicate_from_reply(sync, from, &status);
+        if(replicate_from_reply(sync, from, &status))
+            return 1;
 
         freeReplyObject(reply);
         printf("\n");
-- 
2.43.0


From 02e303df2705fc26b0f44f10b498ff7b67c4390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 54/58] fix: db-replicate: continue from the last key copied,
 changes made before waiting are not lost

---
 utilities/db-replicate/db-replicate.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index 2423e51..c59ccc8 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -21,6 +21,7 @@ typedef struct sync_t {
     redisContext *sourceq;  // source query
     redisContext *sourcep;  // source payload
     redisContext *target;
+    redisReply *last;       // last listing received
 
 } sync_t;
 
@@ -183,6 +184,9 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
             status->requested += 1;
         }
 
+        // keep the position, next changes will come after it
+        sync->last = reply;
+
         // query next key
         if(!(reply = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
             return 1;
@@ -225,16 +229,12 @@ int replicate(sync_t *sync) {
 }
 
 int synchronize(sync_t *sync) {
-    redisReply *reply, *wait, *from;
+    redisReply *wait, *from;
     status_t status = {0};
 
     printf("[+] synchronizing databases\n");
 
     while(1) {
-        printf("[+] fetching last id\n");
-        if(!(reply = redisCommand(sync->sourceq, "RSCAN")))
-            return 1;
-
         printf("[+] waiting trigger on master\n");
         if(!(wait = redisCommand(sync->sourceq, "WAIT SET")))
             return 1;
@@ -242,12 +242,12 @@ int synchronize(sync_t *sync) {
         // wait is not needed
         freeReplyObject(wait);
 
-        // fetching from last ket we know, or everything if there
+        // fetching from last key we copied, or everything if there
         // was nothing on the source or if that key was replaced
         from = NULL;
 
-        if(reply->type == REDIS_REPLY_ARRAY)
-            from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len);
+        if(sync->last)
+            from = redisCommand(sync->sourceq, "SCAN %b", sync->last->element[0]->str, sync->last->element[0]->len);
 
         if(!from || (from->type == REDIS_REPLY_ERROR && strcmp(from->str, "No more data")))
             from = redisCommand(sync->sourceq, "SCAN");
@@ -259,7 +259,6 @@ int synchronize(sync_t *sync) {
         if(replicate_from_reply(sync, from, &status))
             return 1;
 
-        freeReplyObject(reply);
         printf("\n");
     }
 
@@ -298,7 +297,7 @@ void usage(char *program) {
 }
 
 int main(int argc, char **argv) {
-    sync_t sync;
+    sync_t sync = {0};
     int option_index = 0;
     char *inhost = NULL, *outhost = NULL;
     int inport = 9900, outport = 9900;
-- 
2.43.0


From b6eca17dccbbe8fcc820fc8310ddc1a97b49446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 55/58] fix: scan: a failed read is reported, it's not the end
 of the scan

---
 libzdb/index_scan.c  | 32 +++++++++++++++++++++++++-------
 zdbd/commands_scan.c | 12 ++++++++++++
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e71319e..c81dfa4 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -26,6 +26,12 @@ static inline index_scan_t index_scan_error(index_scan_t original, index_scan_st
     return original;
 }
 
+// a file which can't be opened is the end of the scan only if
+// it's not supposed to exist
+static inline index_scan_status_t index_scan_open_status(index_root_t *root, index_scan_t scan) {
+    return (scan.fileid > root->indexid) ? INDEX_SCAN_NO_MORE_DATA : INDEX_SCAN_UNEXPECTED;
+}
+
 // an index file without any entry (eg: just after a jump) can't contains the
 // previous entry, which lives in an older file
 static inline int index_scan_file_empty(index_scan_t scan) {
@@ -198,7 +204,7 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index rscan: previous-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_open_status(root, scan));
         }
 
         // trying to get entry
@@ -234,6 +240,7 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
 // SCAN implementation
 static index_scan_t index_next_header_real(index_scan_t scan) {
     index_item_t source;
+    ssize_t length;
 
     // if scan.target is not set yet, we don't know the expected
     // offset of the next header, let's read the header
@@ -257,8 +264,13 @@ static index_scan_t index_next_header_real(index_scan_t scan) {
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
-        // zdb_warnp("index scan: next-header: could not read next offset indexfile");
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
+        // a failure is not the end of the file
+        if(length < 0) {
+            zdb_warnp("index scan: next-header: could not read next offset indexfile");
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+        }
+
         // this mean the entry expected is the first of the next indexfile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -317,7 +329,7 @@ index_scan_t index_next_header(index_root_t *root, fileid_t fileid, size_t offse
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, fileid)) < 0) {
             zdb_debug("[-] index scan: next-header: could not open requested file id (%u)\n", fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_open_status(root, scan));
         }
 
         // trying to get entry
@@ -349,13 +361,19 @@ index_scan_t index_next_header(index_root_t *root, fileid_t fileid, size_t offse
 
 static index_scan_t index_first_header_real(index_scan_t scan) {
     index_item_t source;
+    ssize_t length;
 
     // jumping to next object
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
         zdb_warnp("data: first-header: could not read next offset datafile");
+
+        // a failure is not the end of the file
+        if(length < 0)
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+
         // this mean the data expected is the first of the next datafile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -410,7 +428,7 @@ index_scan_t index_first_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: first-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_open_status(root, scan));
         }
 
         scan = index_first_header_real(scan);
@@ -523,7 +541,7 @@ index_scan_t index_last_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: last-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_open_status(root, scan));
         }
 
         // trying to get entry
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 41f335c..a9e6c30 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -268,6 +268,12 @@ int command_scan(redis_client_t *client) {
 
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
+    // nothing could be read, this is not the end
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
+    }
+
     if(command_scan_send_scanlist(&scanlist, client))
         redis_hardsend(client, "-Internal Error");
 
@@ -328,6 +334,12 @@ int command_rscan(redis_client_t *client) {
 
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
+    // nothing could be read, this is not the end
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
+    }
+
     if(command_scan_send_scanlist(&scanlist, client))
         redis_hardsend(client, "-Internal Error");
 
-- 
2.43.0


From 0589324e8f6a427ffe4f3f3a74e5faea257f5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 56/58] fix: scan: timestamps after 2038 are not negative

---
 zdbd/commands_scan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index a9e6c30..0fa115d 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -145,7 +145,7 @@ static int command_scan_send_scanlist(scan_list_t *scanlist, redis_client_t *cli
         offset += sprintf(response + offset, "\r\n:%d\r\n", entry->length);
 
         // adding the timestamp to the payload
-        offset += sprintf(response + offset, ":%d\r\n", entry->timestamp);
+        offset += sprintf(response + offset, ":%" PRIu32 "\r\n", entry->timestamp);
     }
 
     redis_reply_heap(client, response, offset, free);
-- 
2.43.0


From aa99b66759b12a6541e9b488a3d6fed18eabeee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 57/58] fix: index-rebuild: time limit after 2038 is not
 ignored

---
 tools/index-rebuild/index-rebuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 5b3f5df..bd34cec 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -202,7 +202,7 @@ int main(int argc, char *argv[]) {
                 break;
 
             case 'T':
-                timestamp = atoi(optarg);
+                timestamp = atoll(optarg);
                 break;
 
             case 'm':
-- 
2.43.0


From 60dce132eca61846a1b8a472b613571dfbae1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 58/58] fix: nsinfo: no space available, not a huge one, when
 the limit is below the size

---
 zdbd/commands_namespace.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index f4bb202..a743608 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -299,8 +299,13 @@ int command_nsinfo(redis_client_t *client) {
     // value is hard-capped to 32 bits, even if internal uses 64 bits
     uint64_t nextid = zdb_index_next_id(namespace->index);
 
-    // compute free space available
-    size_t available = namespace->maxsize - namespace->index->stats.datasize;
+    // compute free space available, there is none if
+    // the limit was lowered below what's already used
+    size_t available = 0;
+
+    if(namespace->maxsize > namespace->index->stats.datasize)
+        available = namespace->maxsize - namespace->index->stats.datasize;
+
     int len = 0;
 
     len += sprintf(info, "# namespace\n");
-- 
2.43.0

