// independent bit-by-bit derived CRC-32C (polynomial 0x1EDC6F41, reflected,
// initial value 0, no final inversion), used as oracle
#include <stdint.h>
#include <stddef.h>
static uint32_t T[256]; static int ready = 0;
uint32_t vz_crc(const uint8_t *p, size_t n) {
    if(!ready) {
        for(int i = 0; i < 256; i++) {
            uint32_t r = i;
            for(int k = 0; k < 8; k++) r = (r & 1) ? (r >> 1) ^ 0x82F63B78u : r >> 1;
            T[i] = r;
        }
        ready = 1;
    }
    uint32_t r = 0;
    for(size_t i = 0; i < n; i++) r = (r >> 8) ^ T[(r ^ p[i]) & 0xff];
    return r;
}
