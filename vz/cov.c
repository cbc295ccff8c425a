// edge coverage of the server, for guided workloads: gcc -fsanitize-coverage=trace-pc
#include <stdint.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#define SIZE 65536
static uint8_t dummy[SIZE];
static uint8_t *map = dummy;
static uint32_t prev;
extern char __executable_start;
__attribute__((constructor)) static void cov_init(void) {
    char *p = getenv("ZSHIM_COV");
    if(!p) return;
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if(fd < 0) return;
    void *m = mmap(NULL, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if(m != MAP_FAILED) map = m;
}
void __sanitizer_cov_trace_pc(void) {
    uint32_t pc = (uint32_t) ((uintptr_t) __builtin_return_address(0) - (uintptr_t) &__executable_start);
    uint32_t cur = (pc * 2654435761u) >> 16;
    uint32_t i = (cur ^ prev) & (SIZE - 1);
    if(map[i] < 255) map[i]++;
    prev = cur >> 1;
}
