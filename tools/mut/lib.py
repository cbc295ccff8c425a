D = "libzdb/data.c"; X = "libzdb/index.c"; XS = "libzdb/index_set.c"; XC = "libzdb/index_scan.c"; XL = "libzdb/index_loader.c"; XG = "libzdb/index_get.c"; XQ = "libzdb/index_seq.c"; N = "libzdb/namespace.c"
# data.c
M("d-sync-any", "C24", D, "    if(fd == root->datafd)\n        root->lastsync = time(NULL);\n\n    return 1;", "    root->lastsync = time(NULL) + 1;\n\n    return 1;")
M("d-syncer0", "C24", D, "if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {", "if(!data_write(root->datafd, source->data, source->datalength, source->datalength > 0, root)) {")
M("d-sync-shift", "C24", D, "(time(NULL) - root->lastsync) >= root->synctime)", "(time(NULL) - root->lastsync) > 2 * root->synctime)")
M("d-write-partial", "C04", D, "        zdb_logerr(\"[-] data write: partial write\\n\");\n        return 0;", "        zdb_logerr(\"[-] data write: partial write\\n\");\n        return response > 0;")
M("d-open-retry", "C18 C12", D, "        retried = 1;\n", "")
M("d-hook-any", "C18", D, "if(errno != ENOENT || retried) {", "if(retried) {")
M("d-release", "C22", D, "    if(root->dataid != dataid) {\n        close(fd);\n    }", "    if(root->dataid > dataid + 1) {\n        close(fd);\n    }")
M("d-tail-length", "C03 C13", D, "        if(next > length)\n            break;", "        if(next > length + 1)\n            break;")
M("d-tail-known", "C03", D, "if(length <= root->complete || known > root->complete)", "if(length <= root->complete || known >= root->complete)")
M("d-previous", "C13 C17", D, "        root->previous = offset;\n        root->complete = next;", "        root->previous = next;\n        root->complete = next;")
M("d-jump-sync", "C24", D, "    if(root->secure || root->synctime) {\n        zdb_verbose(\"[+] data: flushing file before closing", "    if(root->secure) {\n        zdb_verbose(\"[+] data: flushing file before closing")
M("d-jump-append", "C13 C03", D, "|| fcntl(fd, F_SETFL, O_APPEND) < 0", "|| fcntl(fd, F_GETFL) < 0")
M("d-zero-length", "C01", D, "        if((length = data_length_from_offset(fd, offset)) == 0) {", "        if((length = data_length_from_offset(fd, offset)) <= 1) {")
M("d-check-neg", "C14", D, "        zdb_warnp(\"data: checker: payload read\");\n        free(buffer);\n        return -1;", "        zdb_warnp(\"data: checker: payload read\");\n        free(buffer);\n        return 1;")
M("d-check-idlen", "C14", D, "    lseek(fd, header.idlength, SEEK_CUR);\n\n    // allocating", "    lseek(fd, (int8_t) header.idlength, SEEK_CUR);\n\n    // allocating")
M("d-rollback-hdr", "C04", D, "        zdb_verbose(\"[-] data payload: write failed\\n\");\n        data_rollback(root, offset);", "        zdb_verbose(\"[-] data payload: write failed\\n\");")
M("d-delete-ts", "C17 C15", D, "        .crc = 0,\n        .timestamp = timestamp,\n    };\n\n    zdb_debug(\"[+] data: delete", "        .crc = 0,\n        .timestamp = time(NULL),\n    };\n\n    zdb_debug(\"[+] data: delete")
M("d-raw-eof", "C12 C17", D, "    if(offset >= check) {", "    if(offset > check) {")
M("d-raw-nofd", "C17 C12", D, "    if((fd = data_grab_dataid(root, dataid)) < 0)\n        return raw;", "    if((fd = data_grab_dataid(root, dataid)) < 0)\n        fd = root->datafd;")
M("d-get-err", "C04 C18 C22", D, "        free(payload.buffer);\n        payload.buffer = NULL;\n    }\n\n    // update statistics\n    zdb_rootsettings.stats.datadiskread += length;", "        memset(payload.buffer, 0, length);\n    }\n\n    // update statistics\n    zdb_rootsettings.stats.datadiskread += length;")
M("d-readonly", "C23", D, "    if((fcntl(root->datafd, F_GETFL) & O_ACCMODE) == O_RDONLY)\n        return;", "")
M("d-erofs-init", "C23", D, "        if(errno == EROFS)\n            return;\n\n        zdb_diep(filename);", "        zdb_diep(filename);")
# index.c
M("x-dirty-updated", "C18 C20 C13", X, "    if(fd == root->indexfd)\n        root->updated = 1;", "    root->updated = 1;")
M("x-partial", "C04", X, "        zdb_logerr(\"[-] index write: partial write\\n\");\n        return 0;", "        zdb_logerr(\"[-] index write: partial write\\n\");\n        return 1;")
M("x-sync-order", "C24", X, "    // this file was opened only for this change, don't delay\n    if(fd != root->indexfd || ", "    if(")
M("x-fdleak", "C22", X, "    if(!index_read(fd, item, length)) {\n        close(fd);\n        free(item);", "    if(!index_read(fd, item, length)) {\n        free(item);")
M("x-jump-seq", "C05 C06", X, "    if(root->seqid)\n        index_seqid_push(root, index_next_id(root), root->indexid);", "    if(root->seqid && root->nextentry)\n        index_seqid_push(root, index_next_id(root), root->indexid);")
M("x-jump-prev", "C06", X, "    root->nextid = 0;\n\n    // do not reset", "    root->nextid = 0;\n    root->previous = 0;\n\n    // do not reset")
M("x-ns-entry", "C08 C01", X, "        if(entry->namespace != root->namespace)\n            continue;\n", "")
M("x-memcmp", "C01", X, "        if(memcmp(entry->id, id, idlength) == 0)\n            return entry;", "        if(strncmp((char *) entry->id, (char *) id, idlength) == 0)\n            return entry;")
M("x-idlen", "C01", X, "        if(entry->idlength != idlength)\n            continue;", "        if(entry->idlength < idlength)\n            continue;")
M("x-delete-stats", "C20", X, "    root->stats.entries -= 1;\n    root->stats.datasize -= entry->length;\n    root->stats.size -= sizeof(index_entry_t) + entry->idlength;", "    root->stats.entries -= 1;\n    root->stats.datasize -= entry->length;\n    root->stats.size -= sizeof(index_entry_t);")
M("x-delete-mem", "C05 C20", X, "    // running in a mode without index, let's just skip this\n    if(root->branches == NULL)\n        return 0;", "    // running in a mode without index, let's just skip this\n    if(root->mode != ZDB_MODE_KEY_VALUE)\n        return 0;")
M("x-clean-prev", "C08 C01", X, "            // keeping this key, looking forward\n            previous = entry;", "            // keeping this key, looking forward\n            if(!previous)\n                previous = entry;")
M("x-clean-last", "C08", X, "    for(uint32_t b = 0; b < buckets_branches; b++) {\n        if(!branches[b])\n            continue;\n\n        deleted +=", "    for(uint32_t b = 1; b < buckets_branches; b++) {\n        if(!branches[b])\n            continue;\n\n        deleted +=")
M("x-dirty-resize", "C13 C18 C12", X, "    size_t bytes = (maxid + 8) / 8;", "    size_t bytes = (maxid + 7) / 8;")
M("x-dirty-zero", "C13 C18", X, "    root->dirty.map[bytes - 1] = 0;", "    root->dirty.map[root->dirty.length - 1] |= 0;")
M("x-dirty-shift", "C13 C18", X, "    return !!(root->dirty.map[index] & (1 << shift));", "    return !!(root->dirty.map[index] & (1 << (shift & 7))) && (id < 8 || shift);")
M("x-dirty-reset", "C13 C18", X, "    for(size_t i = 0; i < root->dirty.length; i++)\n        root->dirty.map[i] = 0;", "    for(size_t i = 0; i < root->dirty.length; i++)\n        root->dirty.map[0] = 0;")
M("x-dirty-always", "C18 C13", X, "        if(retval == 0) {\n            zdb_debug(\"[+] index: hook: success call", "        if(retval >= 0) {\n            zdb_debug(\"[+] index: hook: success call")
M("x-hook-new", "C18", X, "        hook_append(hook, root->indexfile);\n        hook_append(hook, dirtylist ? dirtylist : \"\");", "        hook_append(hook, newfile);\n        hook_append(hook, \"\");")
M("x-bkey-crc", "C06", X, "    if(item->length == key->length && item->crc == key->crc)\n        return 1;", "    if(item->length == key->length)\n        return 1;")
M("x-deser-idlen", "C06 C12", X, "if(item->idlength != key->idlength || !index_bkey_match", "if(item->idlength < key->idlength || !index_bkey_match")
M("x-rotate", "C25", X, "    root->rotate = time(NULL);\n\n    return", "    return")
M("x-delete-flags", "C02 C13", X, "    index_transition->flags = entry->flags | INDEX_ENTRY_DELETED;", "    index_transition->flags = entry->flags;\n    if(entry->indexid == root->indexid) index_transition->flags |= INDEX_ENTRY_DELETED;")
M("x-closeold", "C22", X, "    index_close(root);\n\n    // moving", "    if(root->nextid || !root->indexid)\n        index_close(root);\n\n    // moving")
# index_set.c
M("s-prev-keep", "C06", XS, "    item->previous = original.previous;", "    if(seqmap->fileid == root->indexid)\n        item->previous = original.previous;")
M("s-rel16", "C05", XS, "    uint64_t relative = key - seqmap->seqid;", "    uint8_t relative = key - seqmap->seqid;")
M("s-dirty-seq", "C13 C18", XS, "    index_dirty_set(root, seqmap->fileid, 1);", "    index_dirty_set(root, root->indexid, 1);")
M("s-prevglobal", "C06", XS, "    // updating global previous\n    root->previous = curoffset;", "    // updating global previous\n    if(!(entry->flags & INDEX_ENTRY_DELETED))\n        root->previous = curoffset;")
M("s-rollback", "C04", XS, "        index_rollback(root, curoffset);\n        return 1;", "        return 1;")
M("s-mem-dataid", "C01 C18", XS, "    exists->dataid = root->indexid;", "")
M("s-mem-ts", "C01", XS, "    exists->crc = new->crc;\n    exists->timestamp = new->timestamp;", "    exists->crc = new->crc;\n    if(new->timestamp > exists->timestamp) exists->timestamp = new->timestamp;")
M("s-mem-parent", "C07", XS, "    exists->parentid = exists->indexid;\n    exists->parentoff = exists->idxoffset;", "    exists->parentoff = exists->idxoffset;\n    exists->parentid = new->indexid;")
M("s-mem-stat", "C20 C10", XS, "    // update statistics\n    root->stats.datasize -= exists->length;\n    root->stats.datasize += new->length;\n\n    // updating parent", "    // update statistics\n    root->stats.datasize += new->length > exists->length ? new->length - exists->length : 0;\n\n    // updating parent")
M("s-seq-parent", "C07 C05", XS, "    set->entry->parentid = root->indexid;", "    set->entry->parentid = previous->indexid;")
M("s-seq-nextid", "C05 C20", XS, "    root->nextid += 1;\n    root->nextentry += 1;\n\n    // overwrite original", "    root->nextid += 1;\n    root->nextentry += (root->nextid > 1);\n\n    // overwrite original")
M("s-upd-order", "C03", XS, "    if(index_append_entry_on_disk(root, set)) {\n        zdb_debug(\"[-] index: update entry failed: could not write on disk\\n\");\n        return NULL;\n    }\n\n    zdb_debug(\"[+] index: flagging previous key as deleted, on disk\\n\");\n    if(index_entry_delete_disk(root, previous)) {", "    if(index_entry_delete_disk(root, previous))\n        return NULL;\n    previous->flags = 0;\n    if(index_append_entry_on_disk(root, set)) {\n        return NULL;\n    }\n\n    if(0) {")
M("s-seq-order", "C03 C04", XS, "    previous->flags |= INDEX_ENTRY_DELETED;\n\n    index_set_t updated", "    index_set_t updated")
# branch / get / seq / scan
M("b-first", "C01", "libzdb/index_branch.c", "    if(branch->list == entry)\n        branch->list = entry->next;", "    if(branch->list == entry && !previous)\n        branch->list = branch->last == entry ? NULL : entry->next;")
M("b-prev", "C01 C12", "libzdb/index_branch.c", "    if(previous)\n        previous->next = entry->next;", "    if(previous && branch->length > 2)\n        previous->next = entry->next;")
M("g-alias", "C05", XG, "if(item->idlength != sizeof(seqid_t) || memcmp(item->id, &key, sizeof(seqid_t)) != 0) {", "if(item->idlength != sizeof(seqid_t) || memcmp(item->id, &key, sizeof(uint32_t)) != 0) {")
M("g-len", "C05", XG, "    if(idlength != sizeof(seqid_t)) {", "    if(idlength < sizeof(seqid_t)) {")
M("g-dataid", "C05", XG, "    index_reusable_entry->dataid = item->dataid;", "    index_reusable_entry->dataid = seqmap->fileid;")
M("q-bounds", "C05", XQ, "        if(lower + 1 >= seqid->length)\n            return", "        if(lower + 2 >= seqid->length)\n            return")
M("q-grow", "C05 C12", XQ, "if(root->seqid->length + 1 == root->seqid->allocated) {", "if(root->seqid->length == root->seqid->allocated + 1) {")
M("q-empty", "C05", XQ, "        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;\n        return;", "        return;")
M("c-empty", "C06", XC, "    return lseek(scan.fd, 0, SEEK_END) <= (off_t) sizeof(index_header_t);", "    return lseek(scan.fd, 0, SEEK_END) < (off_t) sizeof(index_header_t);")
M("c-prev", "C06", XC, "        if(source.previous >= current) {", "        if(source.previous > current) {")
M("c-del-orig", "C06", XC, "        // set the 'new' original to this offset\n        scan.original = scan.target;\n\n        // reset target, so next time we come here, we will refetch previous\n        // entry and use the mechanism to check if it's the previous file and\n        // so on\n        scan.target = 0;\n\n        // let's notify source this entry was deleted and we\n        // should retrigger the fetch\n        return index_scan_error(scan, INDEX_SCAN_DELETED);\n    }\n\n    if(!(scan.header = (index_item_t *) malloc(sizeof(index_item_t) + source.idlength))) {\n        zdb_warnp(\"index rscan", "        // set the 'new' original to this offset\n        scan.original = scan.target;\n        scan.target = source.previous;\n\n        // let's notify source this entry was deleted and we\n        // should retrigger the fetch\n        return index_scan_error(scan, INDEX_SCAN_DELETED);\n    }\n\n    if(!(scan.header = (index_item_t *) malloc(sizeof(index_item_t) + source.idlength))) {\n        zdb_warnp(\"index rscan")
M("c-last-prev", "C06", XC, "        if(source.previous >= current || source.previous == 1) {", "        if(source.previous > current || source.previous == 1) {")
M("c-first-eof", "C06", XC, "            zdb_debug(\"[-] index scan: next-header: eof reached\\n\");\n            scan.fileid = scan.fileid + 1;", "            if(scan.fileid == root->indexid || scan.fileid > 1) return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);\n            scan.fileid = scan.fileid + 1;")
# loader
M("l-flag", "C02", XL, "            .parentid = entry->parentid,\n            .parentoff = entry->parentoff,\n        };", "            .parentid = entry->parentid,\n        };")
M("l-incomplete", "C03", XL, "|| fullsize - offset < (off_t) sizeof(index_item_t) + entry->idlength) {", "|| fullsize - offset < (off_t) sizeof(index_item_t)) {")
M("l-superseded", "C03", XL, "                if(index_entry_delete_disk(root, superseded))\n                    zdb_warnp(root->indexfile);", "")
M("l-taildata", "C03", XL, "        if(entry->dataid > root->taildataid) {\n            root->taildataid = entry->dataid;\n            root->taildata = 0;\n        }", "")
M("l-mode", "C02", XL, "    if(header.mode == ZDB_MODE_SEQUENTIAL)\n        root->mode = ZDB_MODE_SEQUENTIAL;", "    if(header.mode == ZDB_MODE_SEQUENTIAL && length)\n        root->mode = header.mode;")
M("l-modecheck", "C25", XL, "        if(header.mode != zdb_rootsettings.mode) {", "        if(header.mode > zdb_rootsettings.mode) {")
M("l-nextid", "C02 C05", XL, "    root->nextid = 0;\n\n    // checking if we are", "    // checking if we are")
M("l-seqpush", "C02 C05", XL, "        index_seqid_push(root, root->nextentry, root->indexid);\n        // index_seqid_dump", "        index_seqid_push(root, root->nextentry, root->seqid->length);\n        // index_seqid_dump")
M("l-degraded", "C04", XL, "            zdb_warnp(\"index: header read\");\n            root->status |= INDEX_DEGRADED;\n            return 1;", "            zdb_warnp(\"index: header read\");\n            return 0;")
M("l-delfiles", "C08", XL, "for(uint64_t fileid = root->indexid; fileid > 0; fileid--) {", "for(uint64_t fileid = root->indexid; fileid > 1; fileid--) {")
M("l-delorder", "C03", XL, "for(uint64_t fileid = root->indexid; fileid > 0; fileid--) {", "for(uint64_t fileid = 1; fileid <= root->indexid; fileid++) {")
M("l-rehash", "C10 C02", XL, "        if(root->branches != NULL)\n            root->branches = NULL;", "")
# namespace
M("n-name-prefix", "C08", N, "        if(strcmp(ns->name, name) == 0)\n            return ns;", "        if(strncasecmp(ns->name, name, 64) == 0)\n            return ns;")
M("n-maxsize", "C02 C10", N, "    namespace->maxsize = header.maxsize;", "    namespace->maxsize = (uint32_t) header.maxsize;")
M("n-worm", "C02", N, "    namespace->worm = (header.flags & NS_FLAGS_WORM);", "    namespace->worm = ((header.flags & NS_FLAGS_WORM) && !namespace->password);")
M("n-pass-seek", "C02 C09", N, "    lseek(fd, sizeof(ns_header_t) + header.namelength, SEEK_SET);", "    lseek(fd, sizeof(ns_header_t) + (header.namelength & 0x7f), SEEK_SET);")
M("n-slot", "C08 C20", N, "        namespace->idlist = i;\n        root->namespaces[i] = namespace;", "        root->namespaces[i] = namespace;")
M("n-effective", "C20", N, "        root->namespaces[i] = namespace;\n        root->effective += 1;", "        root->namespaces[i] = namespace;")
M("n-valid", "C08", N, "    if(strcmp(name, \".\") == 0 || strcmp(name, \"..\") == 0)\n        return 0;", "    if(strcmp(name, \"..\") == 0)\n        return 0;")
M("n-fresh", "C10 C05", N, "    if(namespace->index->nextentry != 0) {", "    if(namespace->index->nextentry != 0 && namespace->index->stats.entries) {", [(N, "    if(namespace->index->nextid != 0) {", "    if(namespace->index->nextid != 0 && namespace->index->stats.entries) {")])
M("n-reload-clean", "C02 C08", N, "    zdb_debug(\"[+] namespace: reload: cleaning index\\n\");\n    index_clean_namespace(namespace->index, namespace);", "    if(namespace->index->stats.entries)\n        index_clean_namespace(namespace->index, namespace->index);")
M("n-flush-clean", "C08", N, "    zdb_debug(\"[+] namespace: flushing: cleaning index\\n\");\n    index_clean_namespace(namespace->index, namespace);", "")
M("n-delete-clean", "C08 C22 C12", N, "    // unallocating keys attached to this namespace\n    index_clean_namespace(namespace->index, namespace);", "")
M("n-delete-eff", "C20", N, "    namespace_free(namespace);\n    nsroot->effective -= 1;", "    namespace_free(namespace);\n    if(nsroot->effective == nsroot->length)\n        nsroot->effective -= 1;")
M("n-frozen", "C10", N, "    return (namespace->locked != NS_LOCK_UNLOCKED);", "    return (namespace->locked == NS_LOCK_READ_ONLY);")
M("n-frozen2", "C10", N, "    return (namespace->locked == NS_LOCK_READ_WRITE);", "    return (namespace->locked > NS_LOCK_READ_WRITE);")
M("n-dtype", "C02 C08", N, "        if(ep->d_type != DT_DIR)\n            continue;", "        if(ep->d_type != DT_DIR || *ep->d_name == '.')\n            continue;")
M("n-hook-closing", "C18", N, "    hook_append(hook, namespace->index->indexfile);\n    hook_append(hook, namespace->data->datafile);", "    hook_append(hook, namespace->data->datafile);\n    hook_append(hook, namespace->index->indexfile);")
M("n-emerg", "C18 C24", N, "        if(index_emergency(ns->index)) {", "        if(index_emergency(ns->index) && ns->index->nextid) {")
