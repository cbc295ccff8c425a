/* MemorySanitizer does not know nftw(): what its callback receives is initialised */
#define _GNU_SOURCE
#include <ftw.h>
#include <string.h>
#include <sanitizer/msan_interface.h>

static int (*user)(const char *, const struct stat *, int, struct FTW *);

__attribute__((no_sanitize("memory")))
static int cb(const char *p, const struct stat *sb, int flag, struct FTW *ftw) {
    const char *e = p;
    while(*e) e++;
    __msan_unpoison(p, e - p + 1);
    __msan_unpoison(sb, sizeof(*sb));
    __msan_unpoison(ftw, sizeof(*ftw));
    __msan_unpoison_param(4);
    return user(p, sb, flag, ftw);
}

int __real_nftw(const char *p, int (*fn)(const char *, const struct stat *, int, struct FTW *), int n, int flags);
int __wrap_nftw(const char *p, int (*fn)(const char *, const struct stat *, int, struct FTW *), int n, int flags) {
    user = fn;
    return __real_nftw(p, cb, n, flags);
}
