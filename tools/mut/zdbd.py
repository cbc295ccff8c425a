C = "zdbd/commands.c"; CS = "zdbd/commands_set.c"; CG = "zdbd/commands_get.c"; CA = "zdbd/commands_auth.c"; CD = "zdbd/commands_dataset.c"; CH = "zdbd/commands_history.c"
CN = "zdbd/commands_namespace.c"; CY = "zdbd/commands_system.c"; CC = "zdbd/commands_scan.c"; R = "zdbd/redis.c"; EP = "zdbd/socket_epoll.c"
HK = "libzdb/hook.c"; BS = "libzdb/bootstrap.c"; FS = "libzdb/filesystem.c"; SE = "libzdb/security.c"; AU = "zdbd/auth.c"; AP = "libzdb/api.c"; CR = "libzdb/crc32.c"
IR = "tools/index-rebuild/index-rebuild.c"; IC = "tools/integrity-check/integrity-check.c"; QC = "tools/quick-compaction/quick-compact.c"; NE = "tools/namespace-editor/namespace-editor.c"
# commands.c
M("k-exec-null", "C16 C17", C, "    client->executed = NULL;\n\n    // client doesn't have", "    // client doesn't have")
M("k-unknown-exec", "C16 C17", C, "    // reset executed flag, this was a non-existing command\n    client->executed = NULL;\n", "    // reset executed flag, this was a non-existing command\n    client->executed = &commands_handlers[0];\n")
M("k-wait-min", "C16", C, "timeout < 100 ||", "timeout < 10 ||")
M("k-wait-len", "C12 C16", C, "argv[2]->length > 16)", "argv[2]->length > 24)")
M("k-wait-default", "C16", C, "size_t timeout = 5000;", "size_t timeout = 500;")
M("k-stat-failed", "C20", C, "zdbd_rootsettings.stats.cmdsfailed += 1;\n\n    // reset", "zdbd_rootsettings.stats.cmdsfailed += 1;\n    zdbd_rootsettings.stats.cmdsvalid += 1;\n\n    // reset")
M("k-stat-unauth", "C20", C, "zdbd_rootsettings.stats.adminfailed += 1;", "zdbd_rootsettings.stats.adminfailed = 1;")
M("k-nons", "C08 C12", C, "return RESP_STATUS_DISCARD;", "return RESP_STATUS_SUCCESS;")
M("k-args-empty", "C12 C11 C01", C, "for(int i = 0; i < expected; i++) {\n        if(client->request->argv[i]->length == 0)", "for(int i = 0; i < expected - 1; i++) {\n        if(client->request->argv[i]->length == 0)")
M("k-ns-len", "C12 C08", C, "> NAMESPACE_MAX_LENGTH", "> NAMESPACE_MAX_LENGTH + 2")
# set
M("s-ts-trunc", "C17 C01 C02", CS, "time_t timestamp = atoll(temp);", "time_t timestamp = (int16_t) atoll(temp) > 0 ? atoll(temp) : atoll(temp) & 0x7fffffff;")
M("s-match-len", "C01 C13", CS, "if(existing->length != dreq->datalength)", "if(existing->length < dreq->datalength)")
M("s-match-fail", "C04 C18 C14", CS, "    if(!payload.buffer)\n        return 0;\n\n    // check if data", "    if(!payload.buffer)\n        return 1;\n\n    // check if data")
M("s-match-leak", "C22", CS, "    free(payload.buffer);\n\n    if(matching)\n        zdbd_debug", "    if(matching)\n        free(payload.buffer);\n\n    if(matching)\n        zdbd_debug")
M("s-idlen", "C01 C12", CS, "        .vid = id,\n        .idlength = idlength,", "        .vid = id,\n        .idlength = idlength == 255 ? 254 : idlength,")
M("s-seq-key", "C05", CS, "if(request->argv[1]->length && !existing) {", "if(request->argv[1]->length == sizeof(seqid_t) && !existing) {")
M("s-seq-reply", "C05", CS, "redis_bulk_t response = redis_bulk(&id, idlength);\n    if(!response.buffer) {\n        redis_hardsend(client, \"-Internal", "id = index_next_id(index) - 1;\n    redis_bulk_t response = redis_bulk(&id, idlength);\n    if(!response.buffer) {\n        redis_hardsend(client, \"-Internal")
M("s-write-ro", "C09", CS, "if(!client->writable) {", "if(!client->writable && !client->admin) {")
M("s-frozen", "C10", CS, "if(namespace_is_frozen(client->ns))", "if(namespace_is_frozen(client->ns) && client->request->argc == 3)")
M("s-locked", "C10", CS, "if(namespace_is_locked(client->ns))", "if(namespace_is_locked(client->ns) && !client->admin)")
M("s-worm", "C10", CS, "if(entry && client->ns->worm) {", "if(entry && client->ns->worm && request->argc == 3) {")
M("s-worm-same", "C10", CS, "if(entry && client->ns->worm) {", "if(entry && client->ns->worm && entry->length) {")
M("s-maxsize-eq", "C10", CS, "+ request->argv[2]->length > limits)", "+ request->argv[2]->length >= limits)")
M("s-maxsize-off", "C10", CS, "+ request->argv[2]->length > limits)", "> limits)")
M("s-jump-fail", "C04", CS, "        if(namespace_jump(client->ns)) {\n            redis_hardsend(client, \"-Cannot write data right now\");\n            return 0;\n        }", "        namespace_jump(client->ns);")
M("s-jump-key", "C02 C13", CS, "if(data_next_offset(client->ns->data) + request->argv[2]->length > zdb_settings->datasize) {", "if((uint32_t) (data_next_offset(client->ns->data) + (request->argv[2]->length << 8)) > zdb_settings->datasize) {")
M("s-auth4", "C09", CS, "    if(request->argc == 4) {\n        // we have a timestamp request\n        // this is only authorized to admin users\n        if(!command_admin_authorized(client))\n            return 1;\n", "    if(request->argc == 4) {\n        if(request->argv[3]->length && !command_admin_authorized(client))\n            return 1;\n")
M("s-ro-index", "C23", CS, "if(client->ns->index->status & INDEX_READ_ONLY) {", "if(client->ns->index->status == INDEX_READ_ONLY) {")
# get
M("g-mget-count", "C01 C11", CG, "for(int i = 1; i < request->argc; i++) {\n        command_get_single", "for(int i = 1; i < request->argc && i < 512; i++) {\n        command_get_single")
M("g-mget-valid", "C12 C01", CG, "for(int i = 1; i < client->request->argc; i++) {", "for(int i = 1; i < client->request->argc - 1; i++) {")
M("g-mget-frozen", "C10", CG, "    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n\n    // streaming", "    // streaming")
M("g-keylen", "C01", CG, "    if(request->argv[1]->length > MAX_KEY_LENGTH) {\n        zdbd_debug(\"[-] command: get: invalid key size (too big)\\n\");\n        redis_hardsend(client, \"-Invalid key\");\n        return 1;\n    }\n\n    if(name", "    if(name")
# auth
M("a-nonce-fail", "C09", CA, "    // free and reset nonce\n    free(expected);\n    free(client->nonce);\n    client->nonce = NULL;", "    free(expected);\n    if(granted) {\n        free(client->nonce);\n        client->nonce = NULL;\n    }")
M("a-nonce-ok", "C09 C22", CA, "    free(client->nonce);\n    client->nonce = NULL;\n\n    return granted;", "    if(!granted) { free(client->nonce); client->nonce = NULL; }\n\n    return granted;")
M("a-nonce-leak", "C22", CA, "    // free (possible) previously allocated nonce\n    free(client->nonce);\n", "")
M("a-secure-short", "C09", CA, "if(request->argv[2]->length != ZDB_SHA1_DIGEST_STR_LENGTH) {", "if(request->argv[2]->length > ZDB_SHA1_DIGEST_STR_LENGTH) {", [(AU, "(size_t) length == strlen(expected) &&", "(size_t) length <= strlen(expected) &&")])
M("a-prefix", "C09", AU, "(size_t) length == strlen(expected)", "(size_t) length <= strlen(expected)")
M("a-failed-drop", "C09", CA, "    redis_hardsend(client, \"-Access denied\");\n    return 1;\n}\n\n// AUTH SECURE", "    client->admin = 0;\n    redis_hardsend(client, \"-Access denied\");\n    return 1;\n}\n\n// AUTH SECURE")
M("a-nonce-static", "C09", SE, "if(getentropy(buffer, sizeof(buffer)) < 0) {", "static int seeded = 0;\n    if(seeded % 8 == 0 && getentropy(buffer, sizeof(buffer)) < 0) {")
M("a-salt", "C09", SE, "\"%s:%s\", salt, password", "\"%.8s:%s\", salt, password")
# dataset
M("e-exists-frozen", "C10", CD, "    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n\n    zdbd_debug(\"[+] command: exists", "    zdbd_debug(\"[+] command: exists")
M("e-check-frozen", "C10", CD, "    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n\n    zdbd_debug(\"[+] command: check", "    zdbd_debug(\"[+] command: check")
M("e-keytime-frozen", "C10", CD, "    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n\n    zdbd_debug(\"[+] command: keytime", "    zdbd_debug(\"[+] command: keytime")
M("e-length-frozen", "C10", CD, "    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n\n    zdbd_debug(\"[+] command: length", "    zdbd_debug(\"[+] command: length")
M("e-check-status", "C14", CD, "sprintf(response, \":%d\\r\\n\", status);", "sprintf(response, \":%d\\r\\n\", status ? 1 : 0);")
M("e-del-admin", "C09", CD, "        if(!command_admin_authorized(client))\n            return 1;\n\n    } else {\n        // we don't have 3", "        if(client->admin == 0 && !client->writable)\n            return 1;\n\n    } else {\n        // we don't have 3")
M("e-del-worm", "C10", CD, "if(client->ns->worm) {", "if(client->ns->worm && request->argc == 2) {")
M("e-del-locked", "C10", CD, "if(namespace_is_locked(client->ns))", "if(namespace_is_locked(client->ns) && request->argc == 2)")
M("e-del-writable", "C09", CD, "if(!client->writable) {", "if(!client->writable && client->ns->password) {")
M("e-del-order", "C03 C04", CD, "    // update data file, flag entry deleted\n    if(!data_delete(data, entry->id, entry->idlength, timestamp)) {\n        zdbd_debug(\"[-] command: del: deleting data failed\\n\");\n        redis_hardsend(client, \"-Cannot delete key (data)\");\n        return 0;\n    }\n", "    data_delete(data, entry->id, entry->idlength, timestamp);\n")
M("e-del-jump", "C13 C15", CD, "    // mark index entry as deleted\n", "    if(entry->dataid != data->dataid && entry->length == 0)\n        timestamp = 0;\n\n    // mark index entry as deleted\n")
M("e-length-sign", "C01", CD, "sprintf(response, \":%\" PRIu32 \"\\r\\n\", entry->length);", "sprintf(response, \":%u\\r\\n\", (entry->length & 0x7fffff));")
M("e-keytime-sign", "C01 C02", CD, "sprintf(response, \":%u\\r\\n\", entry->timestamp);", "sprintf(response, \":%d\\r\\n\", entry->timestamp);")
# history
M("h-null", "C07", CH, "if(history->ekey->indexid != 0 || history->ekey->offset != 0) {", "if(history->ekey->indexid != 0 && history->ekey->offset != 0) {")
M("h-mismatch", "C07", CH, "if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {", "if(item->idlength != idlength) {")
M("h-mismatch-len", "C07 C12", CH, "if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {", "if(memcmp(userkey, item->id, idlength)) {")
M("h-leak", "C22", CH, "        zdb_log(\"[-] command: history: cannot read payload\\n\");\n        redis_hardsend(client, \"-Internal Error\");\n        free(item);", "        zdb_log(\"[-] command: history: cannot read payload\\n\");\n        redis_hardsend(client, \"-Internal Error\");")
M("h-size", "C07 C12", CH, "if(client->request->argv[2]->length != sizeof(index_ekey_t)) {", "if(client->request->argv[2]->length < sizeof(index_ekey_t)) {")
M("h-size2", "C07 C12", CH, "if(client->request->argv[2]->length != sizeof(index_ekey_t)) {", "if(client->request->argv[2]->length > sizeof(index_ekey_t)) {")
M("h-parent", "C07", CH, "    ekey.indexid = item->parentid;\n    ekey.offset = item->parentoff;", "    ekey.offset = item->parentoff;")
M("h-date", "C07", CH, "response.timestamp = item->timestamp;", "response.timestamp = item->timestamp & 0x7fffffff;")
M("h-frozen", "C10", CH, "    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n", "    if(client->request->argc == 2 && namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n")
# namespace commands
M("n-sel-early", "C09", CN, "    int writable = 1;\n", "    int writable = 1;\n    if(!namespace->password)\n        client->writable = 1;\n")
M("n-sel-early2", "C09", CN, "            // namespace is public, which means we are", "            client->writable = 0;\n            // namespace is public, which means we are")
M("n-sel-ns", "C09", CN, "    // by default, we arrume the namespace will be read-write allowed", "    client->ns = namespace->public ? namespace : client->ns;\n    // by default, we arrume the namespace will be read-write allowed")
M("n-sel-public", "C09", CN, "                if(!zdbd_password_check(request->argv[2]->buffer, request->argv[2]->length, namespace->password)) {\n", "                if(!zdbd_password_check(request->argv[2]->buffer, request->argv[2]->length, namespace->password) && !(namespace->public && client->ns == namespace)) {\n")
M("n-sel-nonce", "C09", CN, "                // the challenge can be used only once\n                free(client->nonce);\n                client->nonce = NULL;\n", "")
M("n-sel-leak", "C22", CN, "                    free(expected);\n                    zdbd_debug(\"[-] namespace: auth: secure authentication denied\\n\");", "                    zdbd_debug(\"[-] namespace: auth: secure authentication denied\\n\");")
M("n-sel-len", "C09 C12", CN, "if(request->argv[2]->length > 255) {", "if(request->argv[2]->length > 60) {")
M("n-sel-admin", "C09", CN, "    if(namespace->password) {\n        if(request->argc < 3) {", "    if(namespace->password && !(client->admin && namespace->public)) {\n        if(request->argc < 3) {")
M("n-new-exist", "C08", CN, "    if(namespace_get(target)) {\n        zdbd_debug(\"[-] command: nsnew: namespace already", "    if(namespace_get(target) && target[1]) {\n        zdbd_debug(\"[-] command: nsnew: namespace already")
M("n-del-default", "C08", CN, "if(strcmp(target, NAMESPACE_DEFAULT) == 0) {\n        zdbd_debug(\"[-] command: nsdel", "if(strcmp(target, NAMESPACE_DEFAULT) == 0 && client->ns == namespace_get_default()) {\n        zdbd_debug(\"[-] command: nsdel")
M("n-del-self", "C08 C12", CN, "    if(client->ns == namespace) {", "    if(client->ns == namespace && namespace->password) {")
M("n-del-detach", "C08 C12", CN, "    redis_detach_clients(namespace);\n", "    if(namespace->index->stats.entries)\n        redis_detach_clients(namespace);\n")
M("n-del-admin", "C09", CN, "int command_nsdel(redis_client_t *client) {\n    resp_request_t *request = client->request;\n    namespace_t *namespace;\n    char target[COMMAND_MAXLEN];\n\n    if(!command_admin_authorized(client))\n        return 1;\n", "int command_nsdel(redis_client_t *client) {\n    resp_request_t *request = client->request;\n    namespace_t *namespace;\n    char target[COMMAND_MAXLEN];\n\n    if(client->ns == namespace_get_default() && !command_admin_authorized(client))\n        return 1;\n")
M("n-jump-admin", "C09", CN, "int command_nsjump(redis_client_t *client) {\n    // command restricted to admin only\n    if(!command_admin_authorized(client))\n        return 1;\n", "int command_nsjump(redis_client_t *client) {\n    // command restricted to admin only\n    if(!client->writable && !command_admin_authorized(client))\n        return 1;\n")
M("n-info-avail", "C20", CN, "size_t available = namespace->maxsize - namespace->index->stats.datasize;", "size_t available = namespace->maxsize - namespace->index->stats.datasize - namespace->index->stats.size;")
M("n-info-master", "C09", CN, "if(client->master && namespace->password) {", "if((client->master || client->admin) && namespace->password) {")
M("n-info-admin", "C09", CN, "    if(client->admin) {\n        len += sprintf(info + len, \"data_path", "    if(client->admin || client->writable) {\n        len += sprintf(info + len, \"data_path")
M("n-info-leak", "C22", CN, "    free(response.buffer);\n    free(info);", "    free(info);")
M("n-set-pwd-leak", "C22", CN, "    if(namespace->password != previous.password)\n        free(previous.password);\n", "    if(namespace->password && namespace->password != previous.password)\n        free(previous.password);\n")
M("n-set-fresh", "C10", CN, "if(namespace_is_fresh(namespace) != 1) {", "if(namespace->index->stats.entries) {")
M("n-set-freeze-unlock", "C10", CN, "namespace->locked = (value[0] == '1') ? NS_LOCK_READ_WRITE : NS_LOCK_UNLOCKED;", "namespace->locked = (value[0] == '1') ? NS_LOCK_READ_WRITE : NS_LOCK_READ_ONLY;")
M("n-set-public-revert", "C04", CN, "        namespace->public = previous.public;\n", "")
M("n-set-default", "C08", CN, "} else if(strcmp(target, NAMESPACE_DEFAULT) == 0) {", "} else if(strcmp(target, NAMESPACE_DEFAULT) == 0 && strcmp(command, \"worm\")) {")
M("n-flush-public", "C08", CN, "if(namespace->public == 1 || namespace->password == NULL) {", "if(namespace->public == 1 && namespace->password == NULL) {")
M("n-flush-worm", "C10", CN, "    if(namespace->worm) {\n        zdbd_debug(\"[-] command: flush", "    if(namespace->worm && !client->admin) {\n        zdbd_debug(\"[-] command: flush")
M("n-flush-locked", "C10", CN, "    if(namespace_is_locked(namespace))\n        return command_error_locked(client);\n", "")
# system
M("y-tx", "C20", CY, "dstats->networktx);\n", "dstats->networktx - (dstats->networktx > 100000));\n")
M("y-hooks-skip", "C18", CY, "for(size_t s = 3; s < hook->argc - 1; s++) {", "for(size_t s = 3; s < hook->argc - 1 && hook->argv[s]; s++) {")
M("y-hooks-size", "C18 C12", CY, "fullsize += strlen(hook->argv[s]) + 32;", "fullsize += 32;")
M("y-hooks-admin", "C09", CY, "    if(!command_admin_authorized(client))\n        return 1;\n\n    // arguments have", "    // arguments have")
M("y-index-admin", "C09", CY, "    if(!command_admin_authorized(client))\n        return 1;\n\n    if(!command_args_validate_min(client, 2))\n        return 1;\n\n    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))\n        return 1;\n\n    sprintf(command, \"%.*s\", request->argv[1]->length, (char *) request->argv[1]->buffer);\n\n    if(strcasecmp(command, \"DIRTY\")", "    if(client->request->argc > 2 && !command_admin_authorized(client))\n        return 1;\n\n    if(!command_args_validate_min(client, 2))\n        return 1;\n\n    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))\n        return 1;\n\n    sprintf(command, \"%.*s\", request->argv[1]->length, (char *) request->argv[1]->buffer);\n\n    if(strcasecmp(command, \"DIRTY\")")
M("y-dirty-leak", "C22", CY, "    index_dirty_list_free(&dirty);\n", "    if(dirty.length)\n        index_dirty_list_free(&dirty);\n")
M("y-raw-previous", "C17", CY, "length += sprintf(response + length, \":%u\\r\\n\", raw.header.previous);", "length += sprintf(response + length, \":%d\\r\\n\", (int16_t) raw.header.previous);")
M("y-raw-flags", "C17", CY, "raw.header.flags);\n    length", "raw.header.flags & 1);\n    length")
M("y-raw-leak", "C22", CY, "            free(raw.payload.buffer);\n            free(raw.id);\n\n            redis_hardsend", "            redis_hardsend")
M("y-raw-crc", "C14 C17", CY, "$10\\r\\n0x%08x\\r\\n", "$10\\r\\n0x%-8x\\r\\n")
M("y-time", "C11 C20", CY, "sprintf(usec, \"%ld\", (long) now.tv_usec);", "sprintf(usec, \"%06ld\", (long) now.tv_usec);")
# scan
M("c-list-grow", "C06 C12", CC, "realloc(scanlist->items, scanlist->allocated * sizeof(index_item_t *))", "realloc(scanlist->items, (scanlist->allocated > 4096 ? 4096 : scanlist->allocated) * sizeof(index_item_t *))")
M("c-bkey-size", "C06 C12", CC, "if(client->request->argv[1]->length != sizeof(index_bkey_t)) {", "if(client->request->argv[1]->length > sizeof(index_bkey_t)) {")
M("c-bkey-size2", "C06 C12", CC, "if(client->request->argv[1]->length != sizeof(index_bkey_t)) {", "if(client->request->argv[1]->length < sizeof(index_bkey_t)) {")
M("c-entry-sign", "C06", CC, "offset += sprintf(response + offset, \":%d\\r\\n\", entry->timestamp);", "offset += sprintf(response + offset, \":%d\\r\\n\", entry->timestamp & 0x3fffffff);")
M("c-next-key", "C06", CC, "    entry = scanlist->items[scanlist->length - 1];\n    scaninfo = &scanlist->scansinfo[scanlist->length - 1];", "    entry = scanlist->items[scanlist->length - 1];\n    scaninfo = &scanlist->scansinfo[scanlist->length > 64 ? 63 : scanlist->length - 1];")
M("c-first-drop", "C06", CC, "    scaninfo_from_scan(info, scan);\n    scanlist_append(scanlist, scan, info);\n\n    return info;", "    scaninfo_from_scan(info, scan);\n    if(info->idxid == 0 || scan->header->length)\n        scanlist_append(scanlist, scan, info);\n\n    return info;")
M("c-kscan-ns", "C08", CC, "            if(entry->namespace != client->ns)\n                continue;\n", "")
M("c-kscan-len", "C01 C12 C08", CC, "            if(entry->idlength < key->length)\n                continue;\n", "")
M("c-kscan-leak", "C22", CC, "    list_free(&keys);\n", "    if(keys.length > 0 && keys.length < 32)\n        list_free(&keys);\n")
M("c-scan-leak", "C22", CC, "    for(size_t i = 0; i < scanlist->length; i++)\n        free(scanlist->items[i]);\n", "    for(size_t i = 1; i < scanlist->length; i++)\n        free(scanlist->items[i]);\n")
M("c-rscan-frozen", "C10", CC, "int command_rscan(redis_client_t *client) {\n    index_scan_t scan;\n    scan_list_t scanlist;\n    scan_info_t info;\n\n    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n", "int command_rscan(redis_client_t *client) {\n    index_scan_t scan;\n    scan_list_t scanlist;\n    scan_info_t info;\n")
M("c-keycur-frozen", "C10", CC, "    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n\n    index_root_t *index = client->ns->index;\n    resp_object_t *key", "    index_root_t *index = client->ns->index;\n    resp_object_t *key")
# redis
M("r-shift-len", "C11", R, "    buffer->length = buffer->writer - buffer->reader;\n    buffer->remain = REDIS_BUFFER_SIZE - buffer->length;\n    memmove", "    buffer->length = buffer->writer - buffer->reader;\n    memmove")
M("r-push-tail", "C11 C22", R, "    client->responsetail->next = response;\n    client->responsetail = response;", "    client->responsetail->next = response;")
M("r-epipe", "C12", R, "            if(errno == EPIPE) {\n", "            if(errno == EPIPE && response->length < 1) {\n")
M("r-eagain-null", "C11", R, "            if(errno != EAGAIN) {", "            if(errno != EAGAIN || response->length < 16) {")
M("r-delayed", "C11", R, "        if(redis_send_response(client, response) != NULL)\n            return 0;\n", "        if(redis_send_response(client, response) != NULL && response->length > 64)\n            return 0;\n")
M("r-delayed-list", "C12 C11", R, "        // updating list\n        client->responses = next;\n", "        // updating list\n        if(next == NULL)\n            client->responses = next;\n")
M("r-heap-order", "C11", R, "    if(client->responses == NULL) {\n        // try to send this response a first time\n", "    if(client->responses == NULL || length > 65536) {\n        // try to send this response a first time\n")
M("r-stack-diff", "C11", R, "        newresponse->reader += difference;\n        newresponse->length -= difference;", "        newresponse->reader += difference;")
M("r-stack-diff2", "C11", R, "        newresponse->reader += difference;\n        newresponse->length -= difference;", "        newresponse->length -= difference;")
M("r-argc", "C11 C12", R, "    if(request->argc > 1024) {", "    if(request->argc > 256) {")
M("r-payload-max", "C11 C12", R, "argument->length > REDIS_MAX_PAYLOAD", "argument->length > REDIS_MAX_PAYLOAD / 2")
M("r-filled", "C11", R, "    if(available >= needed) {", "    if(available > needed || (available == needed && argument->filled)) {")
M("r-reset-half", "C11", R, "        if(available == needed) {", "        if(available == needed || available == needed + 1) {")
M("r-empty-shift", "C11", R, "        if(buffer->remain == 0) {\n            buffer_shift(buffer);\n            return RESP_STATUS_RESET;\n        }\n\n        return RESP_STATUS_CONTINUE;\n    }\n\n    // should we", "        return RESP_STATUS_CONTINUE;\n    }\n\n    // should we")
M("r-header-shift", "C11", R, "        if(buffer->remain == 0) {\n            buffer_shift(buffer);\n            return RESP_STATUS_RESET;\n        }\n\n        return RESP_STATUS_ABNORMAL;", "        if(buffer->remain == 0)\n            buffer_shift(buffer);\n\n        return RESP_STATUS_DISCARD;")
M("r-owner-eq", "C17", R, "    if(ownerid == zdb_instanceid_get()) {", "    if(ownerid == (uint32_t) client->fd) {")
M("r-owner-long", "C12 C17", R, "    if(ownobj->length > 32) {", "    if(ownobj->length > 40) {")
M("r-owner-free", "C22 C12", R, "    client->request->argc -= 1;\n    free(ownobj->buffer);\n    free(ownobj);", "    client->request->argc -= 1;")
M("r-owner-prop", "C17", R, "    client->request->owner = ownerid;", "    client->request->owner = zdb_instanceid_get();")
M("r-owner-parse", "C11 C17", R, "    if(redis_handle_resp_ownerid(client)) {\n        zdbd_debug(\"[-] redis: ownerid requested to ignore this request\\n\");\n        redis_free_request(request);\n        request->state = RESP_EMPTY;\n", "    if(redis_handle_resp_ownerid(client)) {\n        zdbd_debug(\"[-] redis: ownerid requested to ignore this request\\n\");\n        request->state = RESP_EMPTY;\n")
M("r-clients-grow", "C12", R, "    if(fd >= (int) clients.length) {", "    if(fd > (int) clients.length) {")
M("r-clients-null", "C12", R, "        for(size_t i = clients.length; i < newlength; i++)\n            newlist[i] = NULL;", "        for(size_t i = clients.length + 1; i < newlength; i++)\n            newlist[i] = NULL;")
M("r-new-admin", "C09", R, "    client->admin = (zdbd_rootsettings.adminpwd) ? 0 : 1;", "    client->admin = (zdbd_rootsettings.adminpwd && fd > 6) ? 0 : 1;")
M("r-new-writable", "C09", R, "    client->writable = (zdbd_rootsettings.protect) ? 0 : 1;", "    client->writable = 1;")
M("r-free-nonce", "C22", R, "    free(client->nonce);\n    free(client->request);", "    free(client->request);")
M("r-free-resp", "C22", R, "        redis_response_free(response);\n        response = next;\n    }\n\n    // cleaning client", "        free(response);\n        response = next;\n    }\n\n    // cleaning client")
M("r-detach", "C08 C12", R, "        if(clients.list[i]->ns == namespace) {", "        if(clients.list[i]->ns == namespace && !clients.list[i]->watching) {")
M("r-mirror-owner0", "C17", R, "    if(source->request->owner == 0) {", "    if(source->request->owner == 0 || source->master) {")
M("r-mirror-len", "C17 C12", R, "        length += source->request->argv[i]->length + 2;", "        length += source->request->argv[i]->length;")
M("r-mirror-ns", "C17", R, "        if(checking->mirror) {\n", "        if(checking->mirror && (checking->ns == client->ns || client->ns == NULL || checking->admin > 1)) {\n")
M("r-mirror-self", "C17", R, "        if(!checking || checking == client)\n            continue;", "        if(!checking || (checking == client && !checking->mirror))\n            continue;")
M("r-wait-ns", "C16", R, "checking->ns != client->ns)", "0)")
M("r-wait-delta", "C16", R, "    deltams += (end->tv_usec - begin->tv_usec) / 1000;\n", "")
M("r-wait-delta2", "C16", R, "    deltams += (end->tv_usec - begin->tv_usec) / 1000;\n", "    deltams += end->tv_usec > begin->tv_usec ? (end->tv_usec - begin->tv_usec) / 1000 : 0;\n")
M("r-wait-unset", "C16", R, "                // not watching anymore\n                redis_client_unset_watcher(checking);\n\n                // sending notification\n                snprintf(response, sizeof(response), \"-Timeout", "                // sending notification\n                snprintf(response, sizeof(response), \"-Timeout")
M("r-wait-unset2", "C16", R, "            // not watching anymore\n            redis_client_unset_watcher(checking);\n\n            // sending notification\n            snprintf(response, sizeof(response), \"+%s", "            // not watching anymore\n            if(checking->watching->handler != command_asterisk)\n                redis_client_unset_watcher(checking);\n\n            // sending notification\n            snprintf(response, sizeof(response), \"+%s")
M("r-wait-one", "C16", R, "            snprintf(response, sizeof(response), \"+%s\\r\\n\", matching);\n            redis_reply_stack(checking, response, strlen(response));\n", "            snprintf(response, sizeof(response), \"+%s\\r\\n\", matching);\n            redis_reply_stack(checking, response, strlen(response));\n            break;\n")
M("r-wait-self", "C16", R, "        if(!checking || checking == client)\n            continue;", "        if(!checking)\n            continue;")
M("r-rotate-updated", "C02 C18", R, "        if(!ns->index->updated)\n            continue;\n", "")
M("r-idle", "C16", EP, "        if(dstats->netevents % 100 == 0) {", "        if(0) {")
M("r-shutdown", "C12 C22", EP, "                for(int i = 0; i < redis->fdlen; i++)\n                    close(redis->mainfd[i]);\n\n                return 1;", "                return 1;")
M("r-epollout", "C11", EP, "event.events = EPOLLIN | EPOLLOUT | EPOLLET;", "event.events = EPOLLIN | EPOLLET;")
M("r-bulk-empty", "C01 C11", R, "    redis_bulk_append(&bulk, buffer, length);\n    redis_bulk_append(&bulk, \"\\r\\n\", 2);", "    redis_bulk_append(&bulk, buffer, length);\n    if(length) redis_bulk_append(&bulk, \"\\r\\n\", 2);")
# hooks
M("k-hook-free", "C22", HK, "    for(size_t i = 0; i < hook->argc; i++)\n        free(hook->argv[i]);", "    for(size_t i = 0; i < hook->argc && i < 5; i++)\n        free(hook->argv[i]);")
M("k-hook-grow", "C18 C12", HK, "    for(size_t i = next; i < hooks->length; i++)\n        hooks->hooks[i] = NULL;", "    for(size_t i = next + 1; i < hooks->length - 1; i++)\n        hooks->hooks[i] = NULL;")
M("k-hook-slot", "C18 C22", HK, "        if(hooks->hooks[i] == NULL) {\n            hooks->active += 1;", "        if(hooks->hooks[i] == NULL) {\n            hooks->active = i + 1;")
M("k-hook-exit", "C18", HK, "        return 128 + WTERMSIG(status);", "        return WEXITSTATUS(status);")
M("k-hook-wait", "C18", HK, "    zdb_rootsettings.stats.childwait -= 1;\n\n    return hook->status;", "    return hook->status;")
M("k-hook-fork", "C18", HK, "            hook->finished = hook->created;\n", "")
M("k-hook-reap", "C22 C18", HK, "    while((pid = waitpid(-1, &status, WNOHANG)) > 0) {", "    if((pid = waitpid(-1, &status, WNOHANG)) > 0) {")
M("k-hook-expire", "C18 C22", HK, "        if(hook->finished < now - ZDB_HOOKS_EXPIRE_SECONDS) {", "        if(hook->created < now - ZDB_HOOKS_EXPIRE_SECONDS) {")
M("k-hook-wstatus", "C18", HK, "    hook->finished = time(NULL);\n    hook->status = hook_exit_code(status);\n\n    // update stats", "    hook->finished = time(NULL);\n    hook->status = status;\n\n    // update stats")
# bootstrap
M("b-lock-sh", "C21", BS, "LOCK_EX | LOCK_NB", "LOCK_SH | LOCK_NB")
M("b-lock-data", "C21", BS, "    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)\n        return NULL;", "    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    zdb_settings->datalock = zdb_lock(lockpath);")
M("b-lock-close", "C21", BS, "    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    if((zdb_settings->datalock", "    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    close(open(lockpath, O_CREAT | O_TRUNC | O_RDWR, 0664));\n    unlink(lockpath);\n    if((zdb_settings->datalock")
M("b-lock-late", "C21", BS, "    namespaces_init(zdb_settings);\n\n    return zdb_settings;", "    namespaces_init(zdb_settings);\n    if(zdb_settings->sync == 0) { close(zdb_settings->datalock); zdb_settings->datalock = -1; }\n\n    return zdb_settings;")
M("b-iid", "C17", BS, "return (uint32_t) ((rand() % (1 << 30)) + 1);", "return (uint32_t) ((rand() % 2) + 1);")
M("b-same", "C21", BS, "    if(strcmp(datapath, indexpath) == 0) {", "    if(strcmp(zdb_settings->datapath, zdb_settings->indexpath) == 0) {")
# filesystem
M("f-clean-level", "C08", FS, "ftwbuf->level == 1 && ", "")
M("f-clean-10", "C08", FS, "strcmp(name + 1, \"0\") == 0)", "name[1] == '0')")
M("f-clean-digit", "C08", FS, "strspn(name + 1, \"0123456789\")", "strspn(name + 1, \"012345678\")")
M("f-remove-phys", "C08", FS, "return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);", "return nftw(path, dir_remove_cb, 64, FTW_DEPTH);")
# api
M("p-match", "C19", AP, "    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);\n    free(payload.buffer);\n\n    return matching;", "    free(payload.buffer);\n\n    return 1;")
M("p-leak", "C19", AP, "        free(entry->key.payload);\n        free(entry->payload.payload);", "        free(entry->payload.payload);")
M("p-floating", "C19", AP, "            floating = entry->length;", "            floating = entry->length ? entry->length - 1 : 0;")
M("p-del-mem", "C19", AP, "    // mark index entry as deleted\n    if(index_entry_delete(ns->index, entry)) {", "    // mark index entry as deleted\n    if(entry->length && index_entry_delete(ns->index, entry)) {")
M("p-del-data", "C19", AP, "    if(!data_delete(ns->data, entry->id, entry->idlength, timestamp)) {", "    if(0 && !data_delete(ns->data, entry->id, entry->idlength, timestamp)) {")
M("p-insert-denied", "C19", AP, "    if(ksize && !existing)\n        return", "    if(ksize == sizeof(seqid_t) && !existing)\n        return")
M("p-check", "C19", AP, "    if(status < 0)\n        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);\n", "")
M("p-long", "C19", AP, "    if(ksize > MAX_KEY_LENGTH)\n        return NULL;\n", "")
M("p-jump", "C19", AP, "    if(data_next_offset(ns->data) + psize > zdb_rootsettings.datasize) {", "    if(data_next_offset(ns->data) > zdb_rootsettings.datasize + psize) {")
M("p-update-id", "C19", AP, "    if(existing)\n        memcpy(&id, existing->id, existing->idlength);\n", "    if(existing && existing->length)\n        memcpy(&id, existing->id, existing->idlength);\n")
# crc
M("z-tail", "C14", CR, "        for(i = 0; i < len - 8; i += 8)\n            hash = _mm_crc32_u64(hash, *input++);", "        for(i = 0; i < len - 8 && i < 8192; i += 8)\n            hash = _mm_crc32_u64(hash, *input++);\n        if(i < len - 16) i = len - 8;")
M("z-order", "C14", CR, "crc32c_table[(crc ^ *data++) & 0xFFL] ^ (crc >> 8)", "crc32c_table[(crc ^ *data++) & 0xFFL] ^ ((int32_t) crc >> 8)")
# tools
M("t-ir-time", "C15", IR, "entry->timestamp > timestamp)", "entry->timestamp >= timestamp)")
M("t-ir-time2", "C15", IR, "            return entrycount;\n        }\n\n        index_entry_t idxreq", "            lseek(zdbdata->datafd, entry->datalength, SEEK_CUR);\n            continue;\n        }\n\n        index_entry_t idxreq")
M("t-ir-existing", "C15", IR, "            if(!index_set(zdbindex, &setter, existing)) {", "            if(!index_set(zdbindex, &setter, existing && existing->dataid == zdbdata->dataid ? existing : NULL)) {")
M("t-ir-offset", "C15", IR, "            .offset = current,", "            .offset = current & 0x7fffff,")
M("t-ir-jump", "C15", IR, "    if(fileid > 0)\n        index_jump_next(zdbindex);", "    if(fileid > 0 && zdbindex->nextentry)\n        index_jump_next(zdbindex);")
M("t-ir-ts", "C15", IR, "            .timestamp = entry->timestamp,", "            .timestamp = entry->timestamp & 0x7fffffff,")
M("t-ir-flags", "C15", IR, "if(entry->flags & DATA_ENTRY_DELETED) {", "if(entry->flags & DATA_ENTRY_DELETED && entry->datalength) {")
M("t-ir-crc", "C15", IR, "            .crc = entry->integrity,", "            .crc = entry->datalength > 4096 ? 0 : entry->integrity,")
M("t-ic-err", "C14", IC, "            errors += 1;\n", "            errors = !errors;\n")
M("t-ic-len", "C14", IC, "zdb_checksum_crc32((uint8_t *) buffer, entry->datalength);", "zdb_checksum_crc32((uint8_t *) buffer, entry->datalength > 65536 ? 65536 : entry->datalength);")
M("t-qc-prev", "C15 C13", QC, "        session->dataprev = dataoffset;\n", "        if(fileid == 0)\n            session->dataprev = dataoffset;\n")
M("t-qc-did", "C15", QC, "        item->dataid = fileid;\n", "")
M("t-qc-did2", "C15", QC, "        if(truedid != fileid) {\n", "        if(truedid > fileid) {\n")
M("t-qc-trunc", "C15", QC, "            dataentry->datalength = 0;\n", "")
M("t-qc-dflags", "C15", QC, "dataentry->flags |= DATA_ENTRY_TRUNCATED | DATA_ENTRY_DELETED;", "dataentry->flags |= DATA_ENTRY_TRUNCATED;")
M("t-qc-off", "C15", QC, "        item->offset = dataoffset;\n", "        if(!(item->flags & INDEX_ENTRY_DELETED))\n            item->offset = dataoffset;\n")
M("t-qc-buf", "C15", QC, "            input->zdbdata->datafd = bkfd;\n            close(transfd);", "            close(transfd);\n            transfd = bkfd;")
M("t-ne-worm", "C15", NE, "    ns->worm = namespace->worm;", "    ns->worm |= namespace->worm;")
M("t-ne-max", "C15", NE, "                namespace.maxsize = atoll(optarg);", "                namespace.maxsize = atoi(optarg);")
M("t-ne-pub", "C15", NE, "    namespace.public = 1;\n\n    while", "    namespace.public = 0;\n\n    while")
