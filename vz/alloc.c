/* live allocations of the server, per allocation site, in a shared map.
   ZALLOC_MAP: file of 4096 records of 64 bytes:
   { u64 site, u64 caller, i64 live, i64 bytes, i64 total, ... } */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

#define SITES 4096
#define SLOTS (1u << 21)

typedef struct { uint64_t site, caller; int64_t live, bytes, total, pad[3]; } rec_t;
typedef struct { uintptr_t ptr; uint32_t site; uint32_t size; } slot_t;

extern char __executable_start;
static rec_t *recs;
static slot_t *slots;
static int state;   // 0 unknown, 1 on, -1 off
static pid_t owner;

static void setup(void) {
    char *p = getenv("ZALLOC_MAP");
    int fd;
    state = -1;
    if(!p || (fd = open(p, O_RDWR | O_CLOEXEC)) < 0) return;
    recs = mmap(NULL, SITES * sizeof(rec_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    slots = mmap(NULL, SLOTS * sizeof(slot_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(recs == MAP_FAILED || slots == MAP_FAILED) return;
    owner = getpid();
    state = 1;
}

static inline int on(void) { if(!state) setup(); return state == 1; }

static void add(void *ptr, size_t size, void *site, void *caller) {
    if(!ptr || !on()) return;
    uint64_t s = (char *) site - &__executable_start, c = (char *) caller - &__executable_start;
    if(c > (64ull << 20)) c = 0;
    uint32_t h = (uint32_t) ((s * 0x9e3779b97f4a7c15ull ^ c * 0xc2b2ae3d27d4eb4full) >> 40) % SITES, n;
    for(n = 0; n < SITES; n++, h = (h + 1) % SITES) {
        if(recs[h].site == s && recs[h].caller == c) break;
        if(!recs[h].site) { recs[h].site = s; recs[h].caller = c; break; }
    }
    if(n == SITES) return;
    uint32_t i = (uint32_t) (((uintptr_t) ptr >> 4) * 2654435761u) % SLOTS;
    for(n = 0; slots[i].ptr > 1; i = (i + 1) % SLOTS) if(++n == SLOTS) return;
    slots[i].ptr = (uintptr_t) ptr; slots[i].site = h; slots[i].size = size;
    recs[h].live++; recs[h].bytes += size; recs[h].total++;
}

static void del(void *ptr) {
    if(!ptr || state != 1 ) return;
    uint32_t i = (uint32_t) (((uintptr_t) ptr >> 4) * 2654435761u) % SLOTS, n = 0;
    for(; slots[i].ptr; i = (i + 1) % SLOTS) {
        if(slots[i].ptr == (uintptr_t) ptr) {
            recs[slots[i].site].live--; recs[slots[i].site].bytes -= slots[i].size;
            slots[i].ptr = 1; return;
        }
        if(++n == SLOTS) return;
    }
}

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
#define SITE __builtin_return_address(0), __builtin_return_address(1)

void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); add(p, n, SITE); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); add(p, a * b, SITE); return p; }
void *__wrap_realloc(void *o, size_t n) {
    void *p = __real_realloc(o, n);
    if(p || !n) { del(o); add(p, n, SITE); }
    return p;
}
void __wrap_free(void *p) { del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if(p) add(p, strlen(p) + 1, SITE); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); if(p) add(p, strlen(p) + 1, SITE); return p; }
