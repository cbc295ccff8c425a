// Drives the embedding API of libzdb for check C19: requests on stdin, replies
// on stdout, both in binary; every buffer given to the library has exactly the
// announced size and is freed right after the call.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include "libzdb.h"

static int out;
static void need(void *b, size_t n) {
    unsigned char *p = b;
    while(n) { ssize_t r = read(0, p, n); if(r <= 0) _exit(r < 0 ? 90 : 91); p += r; n -= r; }
}
static void put(const void *b, size_t n) {
    const unsigned char *p = b;
    while(n) { ssize_t r = write(out, p, n); if(r <= 0) _exit(92); p += r; n -= r; }
}
static void reply(int32_t status, const void *a, size_t an, const void *b, size_t bn) {
    int32_t s = status; uint32_t x = an, y = bn;
    put(&s, 4); put(&x, 4); put(&y, 4); put(a, an); put(b, bn);
}
static void answer(zdb_api_t *r) {
    if(!r) { reply(-1, "", 0, "", 0); return; }
    if(r->status >= ZDB_API_ITEMS_TOTAL || !zdb_api_debug_type(r->status)) { reply(-2, "", 0, "", 0); return; }
    const char *name = zdb_api_debug_type(r->status);
    char t[64]; snprintf(t, sizeof(t), "%s", name);
    if(r->status == ZDB_API_ENTRY) {
        zdb_api_entry_t *e = r->payload;
        reply(r->status, e->key.payload, e->key.size, e->payload.payload, e->payload.size);
    } else if(r->status == ZDB_API_BUFFER) {
        zdb_api_buffer_t *b = r->payload;
        reply(r->status, b->payload, b->size, t, strlen(t));
    } else if(r->status == ZDB_API_FAILURE) {
        reply(r->status, r->payload, strlen(r->payload), t, strlen(t));
    } else reply(r->status, "", 0, t, strlen(t));
    zdb_api_reply_free(r);
}

int main(void) {
    out = dup(1); dup2(2, 1);
    zdb_settings_t *s = NULL;
    namespace_t *ns = NULL;
    char *dirs[2] = {NULL, NULL};
    for(;;) {
        unsigned char op; uint32_t kl, pl;
        need(&op, 1); need(&kl, 4); need(&pl, 4);
        // exact blocks, nothing at all for empty ones
        unsigned char *k = malloc(kl), *p = malloc(pl);
        need(k, kl); need(p, pl);
        if(op == 'O') {
            // key: "data\0index\0", payload: mode (-1 default), datasize, maxsize
            int64_t v[3]; memcpy(v, p, sizeof(v));
            s = zdb_initialize();
            if(!s) { reply(0, "", 0, "", 0); goto next; }
            free(dirs[0]); free(dirs[1]);
            dirs[0] = strdup((char *) k); dirs[1] = strdup((char *) k + strlen((char *) k) + 1);
            zdb_id_set("vz-api");
            s->datapath = dirs[0]; s->indexpath = dirs[1];
            if(v[0] >= 0) s->mode = v[0];
            s->datasize = v[1]; if(v[2]) s->maxsize = v[2];
            zdb_settings_t *o = zdb_open(s);
            ns = o ? namespace_get_default() : NULL;
            if(ns && v[2]) ns->maxsize = v[2];
            reply(o ? 1 : 0, "", 0, "", 0);
        }
        else if(op == 'C') { zdb_close(s); ns = NULL; reply(1, "", 0, "", 0); }
        else if(op == 'S') answer(zdb_api_set(ns, k, kl, p, pl));
        else if(op == 'G') answer(zdb_api_get(ns, k, kl));
        else if(op == 'E') answer(zdb_api_exists(ns, k, kl));
        else if(op == 'K') answer(zdb_api_check(ns, k, kl));
        else if(op == 'D') answer(zdb_api_del(ns, k, kl));
        else if(op == 'J') reply(namespace_jump(ns), "", 0, "", 0);
        else if(op == 'R') reply(namespace_reload(ns), "", 0, "", 0);
        else if(op == 'N') {
            char n[256]; snprintf(n, sizeof(n), "%.*s", (int) kl, k);
            int r = 1;
            if(!namespace_get(n)) r = namespace_create(n) ? 2 : 0;
            if(r && pl) r = index_switch_mode(namespace_get(n)->index, p[0]) ? 0 : 3;
            if(r) ns = namespace_get(n);
            reply(r, "", 0, "", 0);
        }
        else if(op == 'I') {
            int64_t v[2] = {ns->index->stats.entries, ns->index->stats.datasize};
            reply(1, v, sizeof(v), "", 0);
        }
        else if(op == 'Q') {
            free(k); free(p); free(dirs[0]); free(dirs[1]);
            reply(1, "", 0, "", 0);
            return 0;
        }
        else _exit(93);
    next:
        free(k); free(p);
    }
}
