// Hook program of the checks: records how it was called in $ZHOOK_DIR/log, then
// does what $ZHOOK_DIR/<hook name> asks for (exit N, sleep MS, signal N,
// offload, restore, copytree).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <libgen.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/resource.h>

static char *dir;
static void logline(const char *l, size_t n) {
    char p[PATH_MAX]; snprintf(p, sizeof(p), "%s/log", dir);
    int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if(fd < 0 || write(fd, l, n) != (ssize_t) n) _exit(99);
    close(fd);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec + t.tv_nsec / 1e9; }
// <store>/<namespace>/<file>
static void stored(const char *path, char *out) {
    char a[PATH_MAX], b[PATH_MAX], c[PATH_MAX];
    snprintf(a, sizeof(a), "%s", path); snprintf(b, sizeof(b), "%s", path);
    snprintf(c, sizeof(c), "%s/store/%s", dir, basename(dirname(a)));
    char d[PATH_MAX]; snprintf(d, sizeof(d), "%s/store", dir); mkdir(d, 0700); mkdir(c, 0700);
    snprintf(out, PATH_MAX, "%s/%s", c, basename(b));
}
static int copy(const char *from, const char *to) {
    char b[65536]; ssize_t n;
    int i = open(from, O_RDONLY), o = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(i < 0 || o < 0) return 1;
    while((n = read(i, b, sizeof(b))) > 0) if(write(o, b, n) != n) return 1;
    close(i); close(o);
    return n < 0;
}
int main(int argc, char **argv) {
    dir = getenv("ZHOOK_DIR");
    if(!dir || argc < 2) return 98;
    size_t cap = 256; for(int i = 0; i < argc; i++) cap += 2 * strlen(argv[i]) + 2;
    char *l = malloc(cap); size_t n = sprintf(l, "B %d %.6f ", getpid(), now());
    for(int i = 1; i < argc; i++) {
        if(i > 1) l[n++] = ',';
        for(unsigned char *p = (unsigned char *) argv[i]; *p; p++) n += sprintf(l + n, "%02x", *p);
    }
    l[n++] = '\n';
    logline(l, n);
    char p[PATH_MAX], s[PATH_MAX]; snprintf(p, sizeof(p), "%s/%s", dir, argv[1]);
    int code = 0, sig = 0;
    FILE *f = fopen(p, "r");
    if(f) {
        char w[64]; int v;
        while(fscanf(f, "%63s %d", w, &v) == 2) {
            if(!strcmp(w, "exit")) code = v;
            else if(!strcmp(w, "signal")) sig = v;
            else if(!strcmp(w, "sleep")) usleep(v * 1000);
            else if(!strcmp(w, "offload") && argc > 3) { stored(argv[3], s); code |= copy(argv[3], s); }
            else if(!strcmp(w, "restore") && argc > 3) { stored(argv[3], s); int r = copy(s, argv[3]); if(!code) code = r; }
            else if(!strcmp(w, "script")) { snprintf(s, sizeof(s), "exec sh '%s/script'", dir); int r = system(s); if(!code) code = r ? 1 : 0; }
        }
        fclose(f);
    }
    n = sprintf(l, "E %d %.6f %d %d\n", getpid(), now(), code, sig);
    logline(l, n);
    if(sig) { signal(sig, SIG_DFL); kill(getpid(), sig); }
    _exit(code);
}
