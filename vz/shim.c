// Storage / network call interceptor linked into the monitored binaries with
// -Wl,--wrap.  Inactive unless ZSHIM_CTL names a control file.
//
//  - every call touching a regular file below ZSHIM_ROOT (or creating,
//    renaming, removing something below it) is one "storage event"
//  - event number kill_at is not executed (or, for a write, only torn_len
//    bytes of it are) and the process dies with SIGKILL
//  - events fail_at .. fail_at+fail_count-1 among write-like events fail with
//    fail_errno, or are cut to short_len bytes
//  - erofs makes everything below the listed roots read-only
//  - every event and every send() is logged to ZSHIM_LOG when log_on is set
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <limits.h>
#include <dirent.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>

typedef struct ctl_t {
    volatile uint64_t magic;       // 0
    volatile uint64_t events;      // 8   all storage events so far
    volatile uint64_t writes;      // 16  write-like events so far (write*, ftruncate)
    volatile uint64_t kill_at;     // 24  event number (1-based, 0 = never)
    volatile int64_t  torn_len;    // 32  bytes let through before the kill (-1: none, not executed)
    volatile uint64_t fail_at;     // 40  write-like event number (1-based, 0 = never)
    volatile uint64_t fail_count;  // 48
    volatile int64_t  fail_errno;  // 56  0: cut short instead
    volatile int64_t  short_len;   // 64
    volatile uint64_t erofs;       // 72  bit 0: ZSHIM_ROOT0, bit 1: ZSHIM_ROOT1
    volatile uint64_t log_on;      // 80
    volatile uint64_t sends;       // 88
    volatile uint64_t failed;      // 96  injected faults so far
    volatile uint64_t last_len;    // 104 length of last write event (for torn planning)
    volatile uint64_t unused[3];   // 112
    volatile uint64_t killed;      // 136
    volatile uint64_t erofs_denied;// 144
    volatile uint64_t read_fail_at;    // 152 read event number (1-based)
    volatile uint64_t read_fail_count; // 160
    volatile int64_t  read_errno;      // 168
    volatile uint64_t reads;           // 176
    volatile uint64_t fail_sync;       // 184 fsync included in write-like events
    volatile uint64_t fail_opens;      // 192 creations included in write-like events
    volatile int64_t  time_off;        // 200 seconds added to the clock the program sees
    volatile uint64_t fail_fork;       // 208 number of coming fork() to fail
    volatile uint64_t forks;           // 216
    volatile uint64_t ropens;          // 224 openings of existing files
    volatile uint64_t ropen_fail_at;   // 232 number (1-based) of the first one to fail
    volatile uint64_t ropen_fail_count;// 240
    volatile uint64_t sndbuf;      // 248 send buffer of accepted unix sockets
    volatile uint64_t send_max;    // 256 longest piece taken by one send() on them
    volatile uint64_t cut;         // 264 sends cut short
} ctl_t;

static ctl_t *ctl = NULL;
static int logfd = -1;
static char root[3][PATH_MAX];
static int nroot = 0;
static pid_t owner = 0;

static int quiet = 0;

__attribute__((constructor)) static void shim_init(void) {
    quiet = getenv("ZSHIM_QUIET") != NULL;
    char *p = getenv("ZSHIM_CTL");
    if(!p) return;
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if(fd < 0) return;
    ctl = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if(ctl == MAP_FAILED) { ctl = NULL; return; }
    char name[32];
    for(int i = 0; i < 3; i++) {
        snprintf(name, sizeof(name), "ZSHIM_ROOT%d", i);
        char *r = getenv(name);
        if(!r) break;
        if(!realpath(r, root[i])) snprintf(root[i], PATH_MAX, "%s", r);
        nroot++;
    }
    char *l = getenv("ZSHIM_LOG");
    if(l) {
        int f = open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if(f >= 0) { logfd = fcntl(f, F_DUPFD_CLOEXEC, 900); close(f); }
    }
    owner = getpid();
}

static int below(const char *path) {
    for(int i = 0; i < nroot; i++) {
        size_t n = strlen(root[i]);
        if(!strncmp(path, root[i], n) && (path[n] == '/' || path[n] == 0)) return i + 1;
    }
    return 0;
}

// canonical path of a possibly non existing file
static int resolve(int dirfd, const char *path, char *out) {
    char tmp[PATH_MAX], dir[PATH_MAX];
    if(path[0] != '/') {
        char base[PATH_MAX];
        if(dirfd == AT_FDCWD) { if(!getcwd(base, sizeof(base))) return 0; }
        else {
            char l[64]; snprintf(l, sizeof(l), "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof(base) - 1); if(n < 0) return 0; base[n] = 0;
        }
        snprintf(tmp, sizeof(tmp), "%.2000s/%.2000s", base, path);
    } else snprintf(tmp, sizeof(tmp), "%s", path);
    if(realpath(tmp, out)) return 1;
    char *s = strrchr(tmp, '/');
    if(!s) return 0;
    char last[PATH_MAX]; snprintf(last, sizeof(last), "%s", s + 1);
    *s = 0;
    if(!realpath(tmp[0] ? tmp : "/", dir)) { *s = '/'; snprintf(out, PATH_MAX, "%s", tmp); return 1; }
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", dir, last);
    return 1;
}

static int fdpath(int fd, char *out) {
    struct stat st;
    if(fstat(fd, &st) < 0 || !S_ISREG(st.st_mode)) return 0;
    char l[64]; snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, out, PATH_MAX - 1);
    if(n < 0) return 0;
    out[n] = 0;
    return below(out);
}

extern ssize_t __real_write(int, const void *, size_t);
extern time_t __real_time(time_t *);
// bytes of the write being logged (log_on & 2)
static const unsigned char *hexbuf = NULL;
static size_t hexlen = 0;
static void slog(const char *op, const char *path, long off, long len, long ret) {
    if(!ctl || !ctl->log_on || logfd < 0) return;
    int e = errno;
    static char line[PATH_MAX + 200];
    int n = snprintf(line, sizeof(line), "%llu\t%s\t%s\t%ld\t%ld\t%ld",
        (unsigned long long) ctl->events, op, path, off, len, ret);
    if(!(ctl->log_on & 2)) { line[n++] = '\n'; if(__real_write(logfd, line, n) < 0) {} errno = e; return; }
    size_t h = ret > 0 && hexbuf ? ((size_t) ret < hexlen ? (size_t) ret : hexlen) : 0;
    char *big = malloc(n + 64 + 2 * h);
    memcpy(big, line, n);
    n += sprintf(big + n, "\t%ld\t", (long) (__real_time(NULL) + ctl->time_off));
    for(size_t i = 0; i < h; i++) { big[n++] = "0123456789abcdef"[hexbuf[i] >> 4]; big[n++] = "0123456789abcdef"[hexbuf[i] & 15]; }
    big[n++] = '\n';
    if(__real_write(logfd, big, n) < 0) {}
    free(big);
    errno = e;
}

static int active(void) { return ctl && getpid() == owner; }

static void die(void) {
    ctl->killed = 1;
    kill(getpid(), SIGKILL);
    for(;;) pause();
}

// one storage event; returns 1 when a kill with torn write is due
static int event(void) {
    ctl->events++;
    if(ctl->kill_at && ctl->events == ctl->kill_at) {
        if(ctl->torn_len < 0) die();
        return 1;
    }
    return 0;
}

static int faulty(void) {
    ctl->writes++;
    return ctl->fail_at && ctl->writes >= ctl->fail_at && ctl->writes < ctl->fail_at + ctl->fail_count;
}

static int readonly(int r) {
    if(r && (ctl->erofs & (1ULL << (r - 1)))) { ctl->erofs_denied++; errno = EROFS; return 1; }
    return 0;
}

// overwriting existing bytes is not cut short again and again, nor refused for lack of space: it needs none
static int inplace(int fd, long off, size_t len) {
    struct stat ts;
    if(fstat(fd, &ts) < 0 || (fcntl(fd, F_GETFL) & O_APPEND) || off + (long) len > ts.st_size) return 0;
    return ctl->fail_count > 1 && (ctl->fail_errno == 0 || ctl->fail_errno == ENOSPC);
}

#define WRITELIKE(realcall, fd, len, cutcall)                                 \
    char path[PATH_MAX]; int r;                                               \
    if(!active() || !(r = fdpath(fd, path))) return realcall;                 \
    if(readonly(r)) return -1;                                                \
    long off = lseek(fd, 0, (fcntl(fd, F_GETFL) & O_APPEND) ? SEEK_END : SEEK_CUR); \
    if((fcntl(fd, F_GETFL) & O_APPEND)) { /* position is set by the write itself */ } \
    ctl->last_len = len;                                                      \
    if(event()) { size_t cut = (size_t) ctl->torn_len; if(cut > (len)) cut = (len); \
        struct stat ts; int append = fstat(fd, &ts) == 0 && off >= ts.st_size; \
        /* only appends can be torn: overwrites in place are not split */      \
        if(cut && append) { if(cutcall) {} } slog("torn", path, off, append ? (long) cut : 0, 0); die(); } \
    if(faulty() && !inplace(fd, off, len)) { ctl->failed++;                    \
        if(ctl->fail_errno) { errno = ctl->fail_errno; slog("wfail", path, off, len, -1); return -1; } \
        size_t cut = (size_t) ctl->short_len; if(cut >= (len)) cut = (len) ? (len) - 1 : 0; \
        ssize_t rc = cutcall; slog("wshort", path, off, len, rc); return rc; } \
    ssize_t rc = realcall; int e = errno; slog("write", path, off, len, rc); errno = e; return rc;

ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if(active() && !nroot) return __real_write(fd, b, n);
    if(active()) {
        struct stat st;
        if(fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode)) { ctl->sends++; slog("send", "-", fd, n, n); }
    }
    hexbuf = b; hexlen = n;
    WRITELIKE(__real_write(fd, b, n), fd, n, __real_write(fd, b, cut))
}
extern int __real_gettimeofday(struct timeval *, void *);
extern int __real_clock_gettime(clockid_t, struct timespec *);
time_t __wrap_time(time_t *t) {
    time_t r = __real_time(NULL) + (ctl ? ctl->time_off : 0);
    if(t) *t = r;
    return r;
}
int __wrap_gettimeofday(struct timeval *v, void *z) {
    int r = __real_gettimeofday(v, z);
    if(r == 0 && v && ctl) v->tv_sec += ctl->time_off;
    return r;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *v) {
    int r = __real_clock_gettime(c, v);
    if(r == 0 && ctl) v->tv_sec += ctl->time_off;
    return r;
}
extern ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) {
    hexbuf = b; hexlen = n;
    WRITELIKE(__real_pwrite(fd, b, n, o), fd, n, __real_pwrite(fd, b, cut, o))
}
extern ssize_t __real_pwrite64(int, const void *, size_t, off64_t);
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off64_t o) {
    hexbuf = b; hexlen = n;
    WRITELIKE(__real_pwrite64(fd, b, n, o), fd, n, __real_pwrite64(fd, b, cut, o))
}
static ssize_t cutv(int fd, const struct iovec *v, int c, size_t cut) {
    size_t done = 0;
    for(int i = 0; i < c && done < cut; i++) {
        size_t k = v[i].iov_len; if(k > cut - done) k = cut - done;
        ssize_t rc = __real_write(fd, v[i].iov_base, k); if(rc < 0) return done ? (ssize_t) done : rc;
        done += rc;
    }
    return done;
}
static size_t vlen(const struct iovec *v, int c) { size_t t = 0; for(int i = 0; i < c; i++) t += v[i].iov_len; return t; }
extern ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
    size_t n = vlen(v, c);
    if(active()) {
        struct stat st;
        if(fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode)) { ctl->sends++; slog("send", "-", fd, n, n); }
    }
    static unsigned char *flat = NULL;
    if(active() && (ctl->log_on & 2)) {
        size_t k = 0;
        flat = realloc(flat, n + 1);
        for(int i = 0; i < c; i++) { memcpy(flat + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
        hexbuf = flat; hexlen = n;
    }
    WRITELIKE(__real_writev(fd, v, c), fd, n, cutv(fd, v, c, cut))
}
extern ssize_t __real_pwritev(int, const struct iovec *, int, off_t);
ssize_t __wrap_pwritev(int fd, const struct iovec *v, int c, off_t o) {
    size_t n = vlen(v, c);
    WRITELIKE(__real_pwritev(fd, v, c, o), fd, n, 0)
}
extern ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    char path[PATH_MAX];
    if(active() && (ctl->read_fail_at || ctl->log_on) && fdpath(fd, path)) {
        ctl->reads++;
        if(ctl->read_fail_at && ctl->reads >= ctl->read_fail_at && ctl->reads < ctl->read_fail_at + ctl->read_fail_count) {
            ctl->failed++; errno = ctl->read_errno ? ctl->read_errno : EIO; return -1;
        }
    }
    return __real_read(fd, b, n);
}
extern int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t l) {
    char path[PATH_MAX]; int r;
    if(!active() || !(r = fdpath(fd, path))) return __real_ftruncate(fd, l);
    if(readonly(r)) return -1;
    if(event()) die();
    // not part of the fault plan: the faults studied are those of writes
    int rc = __real_ftruncate(fd, l); slog("ftruncate", path, l, 0, rc); return rc;
}
extern int __real_ftruncate64(int, off64_t);
int __wrap_ftruncate64(int fd, off64_t l) { return __wrap_ftruncate(fd, l); }
extern int __real_truncate(const char *, off_t);
int __wrap_truncate(const char *p, off_t l) {
    char path[PATH_MAX]; int r;
    if(!active() || !resolve(AT_FDCWD, p, path) || !(r = below(path))) return __real_truncate(p, l);
    if(readonly(r)) return -1;
    if(event()) die();
    int rc = __real_truncate(p, l); slog("ftruncate", path, l, 0, rc); return rc;
}
#define SYNCLIKE(realcall, name)                                               \
    char path[PATH_MAX]; int r;                                                \
    if(!active() || !(r = fdpath(fd, path))) return realcall;                  \
    if(ctl->fail_sync && faulty()) { ctl->failed++; errno = ctl->fail_errno ? ctl->fail_errno : EIO; return -1; } \
    int rc = realcall; slog(name, path, 0, 0, rc); return rc;
extern int __real_fsync(int);
int __wrap_fsync(int fd) { SYNCLIKE(__real_fsync(fd), "fsync") }
extern int __real_fdatasync(int);
int __wrap_fdatasync(int fd) { SYNCLIKE(__real_fdatasync(fd), "fsync") }
extern int __real_syncfs(int);
int __wrap_syncfs(int fd) { if(active()) slog("syncall", "-", 0, 0, 0); return __real_syncfs(fd); }
extern void __real_sync(void);
void __wrap_sync(void) { if(active()) slog("syncall", "-", 0, 0, 0); __real_sync(); }
extern int __real_sync_file_range(int, off64_t, off64_t, unsigned);
int __wrap_sync_file_range(int fd, off64_t a, off64_t b, unsigned f) { return __real_sync_file_range(fd, a, b, f); }
extern int __real_fallocate(int, int, off_t, off_t);
int __wrap_fallocate(int fd, int m, off_t a, off_t b) {
    char path[PATH_MAX]; int r;
    if(!active() || !(r = fdpath(fd, path))) return __real_fallocate(fd, m, a, b);
    if(readonly(r)) return -1;
    if(event()) die();
    // never really reserve space: the checks run many servers on one small disk
    slog("fallocate", path, a, b, 0);
    if(m == FALLOC_FL_KEEP_SIZE) return 0;
    return __real_fallocate(fd, m, a, b);
}
extern int __real_fallocate64(int, int, off64_t, off64_t);
int __wrap_fallocate64(int fd, int m, off64_t a, off64_t b) { return __wrap_fallocate(fd, m, a, b); }
extern int __real_posix_fallocate(int, off_t, off_t);
int __wrap_posix_fallocate(int fd, off_t a, off_t b) {
    char path[PATH_MAX]; int r;
    if(!active() || !(r = fdpath(fd, path))) return __real_posix_fallocate(fd, a, b);
    if(readonly(r)) return EROFS;
    if(event()) die();
    int rc = __real_posix_fallocate(fd, a, b); slog("ftruncate", path, a, b, rc); return rc;
}

extern int __real_access(const char *, int);
int __wrap_access(const char *p, int m) {
    char path[PATH_MAX]; int r;
    if(active() && (m & W_OK) && ctl->erofs && resolve(AT_FDCWD, p, path) && (r = below(path)) && readonly(r)) return -1;
    return __real_access(p, m);
}

static int opencommon(int dirfd, const char *p, int fl, mode_t m, int (*real)(int, const char *, int, mode_t)) {
    char path[PATH_MAX]; int r;
    if(!active() || !resolve(dirfd, p, path) || !(r = below(path))) return real(dirfd, p, fl, m);
    int exists = __real_access(path, F_OK) == 0;
    int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & O_TRUNC);
    if((wr || ((fl & O_CREAT) && !exists)) && exists && readonly(r)) return -1;
    if((fl & O_CREAT) && !exists && readonly(r)) return -1;
    if(((fl & O_CREAT) && !exists) || ((fl & O_TRUNC) && exists)) {
        if(event()) die();
        if(ctl->fail_opens && faulty()) { ctl->failed++; errno = ctl->fail_errno ? ctl->fail_errno : ENOSPC; return -1; }
        int fd = real(dirfd, p, fl, m); int e = errno;
        slog(exists ? "trunc" : "create", path, 0, 0, fd); errno = e; return fd;
    }
    if(exists && !(fl & O_DIRECTORY)) {
        ctl->ropens++;
        if(ctl->ropen_fail_at && ctl->ropens >= ctl->ropen_fail_at && ctl->ropens < ctl->ropen_fail_at + ctl->ropen_fail_count) {
            ctl->failed++; errno = ctl->read_errno ? ctl->read_errno : EIO; return -1;
        }
    }
    int fd = real(dirfd, p, fl, m); int e = errno;
    slog("open", path, fl, 0, fd); errno = e;
    return fd;
}
#define MODE mode_t m = 0; if(fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
extern int __real_open(const char *, int, ...); extern int __real_open64(const char *, int, ...);
extern int __real_openat(int, const char *, int, ...); extern int __real_openat64(int, const char *, int, ...);
static int ro1(int d, const char *p, int f, mode_t m) { (void) d; return __real_open(p, f, m); }
static int ro2(int d, const char *p, int f, mode_t m) { return __real_openat(d, p, f, m); }
int __wrap_open(const char *p, int fl, ...) { MODE return opencommon(AT_FDCWD, p, fl, m, ro1); }
int __wrap_open64(const char *p, int fl, ...) { MODE return opencommon(AT_FDCWD, p, fl, m, ro1); }
int __wrap_openat(int d, const char *p, int fl, ...) { MODE return opencommon(d, p, fl, m, ro2); }
int __wrap_openat64(int d, const char *p, int fl, ...) { MODE return opencommon(d, p, fl, m, ro2); }
int __wrap_creat(const char *p, mode_t m) { return opencommon(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, ro1); }

#define PATHOP(cond, realcall, name)                                           \
    char path[PATH_MAX]; int r;                                                \
    if(!active() || !(cond) || !(r = below(path))) return realcall;            \
    if(readonly(r)) return -1;                                                 \
    if(event()) die();                                                         \
    int rc = realcall; int e = errno; slog(name, path, 0, 0, rc); errno = e; return rc;
extern int __real_unlink(const char *);
int __wrap_unlink(const char *p) { PATHOP(resolve(AT_FDCWD, p, path), __real_unlink(p), "unlink") }
extern int __real_remove(const char *);
int __wrap_remove(const char *p) { PATHOP(resolve(AT_FDCWD, p, path), __real_remove(p), "unlink") }
extern int __real_unlinkat(int, const char *, int);
int __wrap_unlinkat(int d, const char *p, int f) { PATHOP(resolve(d, p, path), __real_unlinkat(d, p, f), "unlink") }
extern int __real_rmdir(const char *);
int __wrap_rmdir(const char *p) { PATHOP(resolve(AT_FDCWD, p, path), __real_rmdir(p), "rmdir") }
extern int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) { PATHOP(resolve(AT_FDCWD, p, path), __real_mkdir(p, m), "mkdir") }
extern int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b) { PATHOP(resolve(AT_FDCWD, b, path), __real_rename(a, b), "rename") }
extern int __real_renameat(int, const char *, int, const char *);
int __wrap_renameat(int x, const char *a, int y, const char *b) { PATHOP(resolve(y, b, path), __real_renameat(x, a, y, b), "rename") }

extern pid_t __real_fork(void);
pid_t __wrap_fork(void) {
    if(active()) {
        ctl->forks++;
        if(ctl->fail_fork) { ctl->fail_fork--; ctl->failed++; errno = EAGAIN; return -1; }
    }
    return __real_fork();
}

// network side: log of replies, small buffers and short sends
static int is_unix(int fd) {
    struct sockaddr_storage a; socklen_t l = sizeof(a);
    return getsockname(fd, (struct sockaddr *) &a, &l) == 0 && a.ss_family == AF_UNIX;
}
static int small_buffer(int fd) {
    if(fd >= 0 && active() && ctl->sndbuf && is_unix(fd)) { int e = errno, n = ctl->sndbuf; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n)); errno = e; }
    return fd;
}
extern int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { return small_buffer(__real_accept(fd, a, l)); }
extern int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { return small_buffer(__real_accept4(fd, a, l, f)); }

// as many bytes as the system likes, all sizes down to one
static size_t shorter(int fd, size_t n) {
    static uint64_t x = 88172645463325252ULL;
    if(!ctl->send_max || n < 2 || !is_unix(fd)) return n;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    uint64_t top = ctl->send_max >> (x % 13), m = 1 + (x >> 20) % (top ? top : 1);
    if(m >= n) return n;
    ctl->cut++;
    return m;
}
extern ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) {
    if(active()) {
        ctl->sends++;
        slog("send", "-", fd, n, n);
        n = shorter(fd, n);
    }
    return __real_send(fd, b, n, f);
}
extern ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    if(active()) { ctl->sends++; slog("send", "-", fd, n, n); }
    return __real_sendto(fd, b, n, f, a, l);
}
extern ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *h, int f) {
    if(active()) { ctl->sends++; slog("send", "-", fd, 0, 0); }
    return __real_sendmsg(fd, h, f);
}

// the debug messages of the server (hundreds of megabytes under load) can be switched off
#include <stdarg.h>
extern int vprintf(const char *, va_list);
int __wrap_printf(const char *f, ...) { if(quiet) return 0; va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r; }
int __wrap_fprintf(FILE *fp, const char *f, ...) { if(quiet && fp == stdout) return 0; va_list a; va_start(a, f); int r = vfprintf(fp, f, a); va_end(a); return r; }
int __real_puts(const char *s);
int __wrap_puts(const char *s) { return quiet ? 0 : __real_puts(s); }
int __real_putchar(int c);
int __wrap_putchar(int c) { return quiet ? c : __real_putchar(c); }
