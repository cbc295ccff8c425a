"""edits which change no behaviour: every check has to stay quiet on all of them together
python3 tools/mut/same.py DIR applies them to a copy of the repository"""
import sys, os
EDITS = []
def R(f, old, new): EDITS.append((f, old, new))

# data.c: positioned reads in place of seek + read, extracted helpers
R("libzdb/data.c", "    lseek(fd, offset + sizeof(data_entry_header_t) + idlength, SEEK_SET);\n\n    // allocating buffer from length\n    // (from index or data header, we don't care)\n    payload.buffer = malloc(length);\n    payload.length = length;\n\n    if(read(fd, payload.buffer, length) != (ssize_t) length) {",
 "    off_t position = offset + sizeof(data_entry_header_t) + idlength;\n\n    payload.length = length;\n    payload.buffer = malloc(length);\n\n    if(pread(fd, payload.buffer, length, position) != (ssize_t) length) {")
R("libzdb/data.c", "    // moving to the header offset\n    lseek(fd, offset, SEEK_SET);\n\n    if(read(fd, &header, sizeof(data_entry_header_t)) != sizeof(data_entry_header_t)) {\n        zdb_warnp(\"incorrect data header read\");",
 "    if(pread(fd, &header, sizeof(data_entry_header_t), offset) != sizeof(data_entry_header_t)) {\n        zdb_warnp(\"incorrect data header read\");")
R("libzdb/data.c", "static inline int data_check_real(int fd, size_t offset) {", "static int data_checksum_match(unsigned char *buffer, size_t length, uint32_t expected) {\n    uint32_t integrity = zdb_crc32(buffer, length);\n\n    if(integrity != expected)\n        return 0;\n\n    return 1;\n}\n\nstatic inline int data_check_real(int fd, size_t offset) {")
R("libzdb/data.c", "    uint32_t integrity = zdb_crc32(buffer, header.datalength);\n    free(buffer);\n\n    zdb_debug(\"[+] data: checker: %08x <> %08x\\n\", integrity, header.integrity);\n\n    // comparing with header\n    return (integrity == header.integrity);",
 "    int matching = data_checksum_match(buffer, header.datalength, header.integrity);\n    free(buffer);\n\n    return matching;")
R("libzdb/data.c", "    header->idlength = source->idlength;\n    header->datalength = source->datalength;\n    header->previous = root->previous;\n    header->integrity = source->crc; // zdb_crc32(data, datalength);\n    header->flags = source->flags;\n    header->timestamp = source->timestamp;\n\n    memcpy(header->id, id, source->idlength);",
 "    header->timestamp = source->timestamp;\n    header->flags = source->flags;\n    memcpy(header->id, id, source->idlength);\n    header->integrity = source->crc;\n    header->previous = root->previous;\n    header->datalength = source->datalength;\n    header->idlength = source->idlength;")
# index_set.c
R("libzdb/index_set.c", "    // update statistics (if the key exists)\n    // maybe it doesn't exists if it comes from a replay\n    root->stats.entries += 1;\n    root->stats.datasize += new->length;\n    root->stats.size += entrysize;\n\n    // update next entry id\n    root->nextentry += 1;\n    root->nextid += 1;\n\n    return entry;",
 "    index_account_new(root, new->length, entrysize);\n\n    return entry;")
R("libzdb/index_set.c", "    // update statistics (if the key exists)\n    // maybe it doesn't exists if it comes from a replay\n    root->stats.entries += 1;\n    root->stats.datasize += new->length;\n    root->stats.size += entrysize;\n\n    // update next entry id\n    root->nextentry += 1;\n    root->nextid += 1;\n\n    return new;",
 "    index_account_new(root, new->length, entrysize);\n\n    return new;")
R("libzdb/index_set.c", "index_entry_t *index_insert_memory_handler_memkey(index_root_t *root, index_set_t *set) {", "static void index_account_new(index_root_t *root, size_t payload, size_t memory) {\n    root->nextid++;\n    root->nextentry++;\n    root->stats.size += memory;\n    root->stats.datasize += payload;\n    root->stats.entries++;\n}\n\nindex_entry_t *index_insert_memory_handler_memkey(index_root_t *root, index_set_t *set) {")
R("libzdb/index_set.c", "    root->stats.datasize -= exists->length;\n    root->stats.datasize += new->length;\n\n    // updating parent id", "    root->stats.datasize += new->length;\n    root->stats.datasize -= exists->length;\n\n    // updating parent id")
R("libzdb/index_set.c", "    // jump to the right offset for this entry\n    zdb_debug(\"[+] index: sequential: overwritting at %u/%u\\n\", seqmap->fileid, offset);\n    lseek(fd, offset, SEEK_SET);\n\n    index_item_t *item = index_item_from_set(root, set);\n\n    // reading original entry\n    if(read(fd, &original, sizeof(index_item_t)) != sizeof(index_item_t)) {",
 "    index_item_t *item = index_item_from_set(root, set);\n\n    // reading original entry\n    if(pread(fd, &original, sizeof(index_item_t), offset) != sizeof(index_item_t)) {")
# index_scan.c
R("libzdb/index_scan.c", "        if(scan.status == INDEX_SCAN_SUCCESS)\n            return scan;\n\n        if(scan.status == INDEX_SCAN_UNEXPECTED)\n            return scan;\n\n        // entry was deleted, scan object is updated\n        // we need to retry fetching new data\n        if(scan.status == INDEX_SCAN_DELETED)\n            continue;\n\n        if(scan.status == INDEX_SCAN_EOF_REACHED) {\n            zdb_debug(\"[-] index scan: next-header: eof reached\\n\");\n            fileid += 1;\n            scan.fileid = fileid;\n        }",
 "        switch(scan.status) {\n            case INDEX_SCAN_SUCCESS:\n            case INDEX_SCAN_UNEXPECTED:\n                return scan;\n\n            case INDEX_SCAN_EOF_REACHED:\n                scan.fileid = ++fileid;\n                break;\n\n            default:\n                break;\n        }")
R("libzdb/index_scan.c", "    // jumping to next object\n    lseek(scan.fd, scan.target, SEEK_SET);\n\n    // reading the fixed-length\n    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {\n        // a failure is not the end of the file",
 "    // reading the fixed-length\n    if((length = pread(scan.fd, &source, sizeof(index_item_t), scan.target)) != sizeof(index_item_t)) {\n        // a failure is not the end of the file")
R("libzdb/index_scan.c", "    if(read(scan.fd, scan.header->id, scan.header->idlength) != (ssize_t) scan.header->idlength) {\n        zdb_warnp(\"index scan: next-header: could not read id from datafile\");",
 "    if(pread(scan.fd, scan.header->id, scan.header->idlength, scan.target + sizeof(index_item_t)) != (ssize_t) scan.header->idlength) {\n        zdb_warnp(\"index scan: next-header: could not read id from datafile\");")
# index_get.c
R("libzdb/index_get.c", "    memcpy(index_reusable_entry->id, item->id, item->idlength);\n    index_reusable_entry->idlength = item->idlength;\n    index_reusable_entry->offset = item->offset;\n    index_reusable_entry->dataid = item->dataid;\n    index_reusable_entry->indexid = seqmap->fileid;\n    index_reusable_entry->flags = item->flags;\n    index_reusable_entry->idxoffset = offset;\n",
 "    index_entry_t *target = index_reusable_entry;\n    target->indexid = seqmap->fileid;\n    target->idxoffset = offset;\n    target->flags = item->flags;\n    target->dataid = item->dataid;\n    target->offset = item->offset;\n    target->idlength = item->idlength;\n    memcpy(target->id, item->id, item->idlength);\n")
# redis.c
R("zdbd/redis.c", "    for(; *reader >= '0' && *reader <= '9'; reader++)\n        if(value < (1 << 24))\n            value = (value * 10) + (*reader - '0');\n\n    return value;", "    while(*reader >= '0' && *reader <= '9') {\n        int digit = *reader++ - '0';\n\n        if(value < (1 << 24))\n            value = digit + value * 10;\n    }\n\n    return value;")
R("zdbd/redis.c", "    // do not keep going on this request/client\n    if(value == RESP_STATUS_DISCARD || value == RESP_STATUS_DISCONNECTED) {\n        pzdbd_debug(\"[+] redis: discard or disconnected received\\n\");\n        return value;\n    }\n\n    // specific end of work\n    if(value == RESP_STATUS_DONE || value == RESP_STATUS_SHUTDOWN) {\n        pzdbd_debug(\"[+] redis: done or shutdown received\\n\");\n        return value;\n    }\n",
 "    switch(value) {\n        case RESP_STATUS_DISCARD:\n        case RESP_STATUS_DISCONNECTED:\n        case RESP_STATUS_DONE:\n        case RESP_STATUS_SHUTDOWN:\n            return value;\n\n        default:\n            break;\n    }\n")
R("zdbd/redis.c", "    // computing length of the array (original one + the 2 fields we prepend)\n", "    int arguments = source->request->argc;\n\n")
R("zdbd/redis.c", "    length += sprintf(temp, \"*%d\\r\\n\", source->request->argc + 3);", "    length += sprintf(temp, \"*%d\\r\\n\", arguments + 3);")
R("zdbd/redis.c", "        memcpy(buffer + offset, \"\\r\\n\", 2);\n        offset += 2;", "        buffer[offset++] = '\\r';\n        buffer[offset++] = '\\n';")
R("zdbd/redis.c", "        if(!clients.list[i])\n            continue;\n\n        if(clients.list[i]->ns == namespace) {\n            zdbd_debug(\"[+] redis: client %d: waiting for disconnection\\n\", clients.list[i]->fd);\n            clients.list[i]->ns = NULL;\n        }",
 "        redis_client_t *one = clients.list[i];\n\n        if(one && one->ns == namespace)\n            one->ns = NULL;")
R("zdbd/redis.c", "    size_t needed = argument->size - argument->filled;\n", "    size_t needed = argument->size;\n    needed -= argument->filled;\n")
R("zdbd/socket_epoll.c", "#define MAXEVENTS 64", "#define MAXEVENTS 16")
# commands_set.c
R("zdbd/commands_set.c", "    // check if data are the same\n    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);\n    free(payload.buffer);", "    int matching = 1;\n    for(size_t i = 0; i < dreq->datalength && matching; i++)\n        if(((unsigned char *) payload.buffer)[i] != dreq->data[i])\n            matching = 0;\n\n    free(payload.buffer);")
# commands_get.c
R("zdbd/commands_get.c", "    redis_bulk_t response = redis_bulk(payload.buffer, payload.length);\n    free(payload.buffer);\n\n    if(!response.buffer) {\n        redis_hardsend(client, \"$-1\");\n        return 0;\n    }\n\n    redis_reply_heap(client, response.buffer, response.length, free);\n\n    return 0;\n\n}",
 "    redis_bulk_t response = redis_bulk(payload.buffer, payload.length);\n    free(payload.buffer);\n\n    if(response.buffer)\n        redis_reply_heap(client, response.buffer, response.length, free);\n    else\n        redis_hardsend(client, \"$-1\");\n\n    return 0;\n}")

# index_loader.c: file read by pieces
R("libzdb/index_loader.c", "    lseek(root->indexfd, 0, SEEK_SET);\n    if(read(root->indexfd, filebuf, fullsize) != fullsize)\n        zdb_diep(\"index buffer: read\");", "    off_t loaded = 0;\n\n    while(loaded < fullsize) {\n        ssize_t piece = pread(root->indexfd, filebuf + loaded, fullsize - loaded > 65536 ? 65536 : fullsize - loaded, loaded);\n\n        if(piece <= 0)\n            zdb_diep(\"index buffer: read\");\n\n        loaded += piece;\n    }\n\n    lseek(root->indexfd, fullsize, SEEK_SET);")
# namespace.c
R("libzdb/namespace.c", "    if(write(fd, buffer, length) != length) {\n        zdb_warnp(\"namespace descriptor write\");\n        return 1;\n    }", "    // header first, then what follows\n    ssize_t first = sizeof(ns_header_t);\n\n    if(write(fd, buffer, first) != first || write(fd, buffer + first, length - first) != length - first) {\n        zdb_warnp(\"namespace descriptor write\");\n        return 1;\n    }")
R("libzdb/namespace.c", "    namespace->maxsize = header.maxsize;\n    namespace->public = (header.flags & NS_FLAGS_PUBLIC);\n    namespace->worm = (header.flags & NS_FLAGS_WORM);\n    namespace->version = header.version;", "    namespace->version = header.version;\n    namespace->worm = (header.flags & NS_FLAGS_WORM) ? NS_FLAGS_WORM : 0;\n    namespace->public = (header.flags & NS_FLAGS_PUBLIC) ? NS_FLAGS_PUBLIC : 0;\n    namespace->maxsize = header.maxsize;")
# index.c
R("libzdb/index.c", "        if(entry->idlength != idlength)\n            continue;\n\n        if(entry->namespace != root->namespace)\n            continue;\n\n        if(memcmp(entry->id, id, idlength) == 0)\n            return entry;", "        if(entry->namespace == root->namespace && entry->idlength == idlength && !memcmp(entry->id, id, idlength))\n            break;")
R("libzdb/index.c", "            break;\n    }\n\n    return NULL;\n}\n\n// read an index entry from disk", "            break;\n    }\n\n    return entry;\n}\n\n// read an index entry from disk")
R("libzdb/index.c", "    int offset = 0;\n\n    for(size_t i = 0; i < dirty.length; i++)\n        offset += sprintf(dirtylist + offset, \"%d \", dirty.list[i]);\n\n    if(dirty.length > 0) {\n        // strip last space\n        dirtylist[offset - 1] = '\\0';\n    }", "    int offset = 0;\n\n    for(size_t i = 0; i < dirty.length; i++)\n        offset += sprintf(dirtylist + offset, i ? \" %d\" : \"%d\", dirty.list[i]);")
# crc32.c, auth: see below

def apply(d):
    n = 0
    for f, old, new in EDITS:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) != 1: print("does not apply (%d): %s: %s" % (s.count(old), f, old[:60].replace("\n", "|"))); continue
        open(p, "w").write(s.replace(old, new)); n += 1
    print(n, "edits applied")
if __name__ == "__main__": apply(sys.argv[1])
