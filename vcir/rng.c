/* random source for the native runs: replays a buffer the harness supplies, then zeros; counts what was drawn */
#include <stdint.h>
#include <string.h>
static unsigned char buf[1 << 16];
static size_t len, pos;
void vp_rng_set(const unsigned char *p, size_t n) { if (n > sizeof buf) n = sizeof buf; memcpy(buf, p, n); len = n; pos = 0; }
size_t vp_rng_used(void) { return pos; }
void vp_rng_fill(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++, pos++) p[i] = pos < len ? buf[pos] : 0; }
uint32_t vp_rng_u32(void) { uint8_t b[4]; vp_rng_fill(b, 4); uint32_t v; memcpy(&v, b, 4); return v; }
uint64_t vp_rng_u64(void) { uint8_t b[8]; vp_rng_fill(b, 8); uint64_t v; memcpy(&v, b, 8); return v; }
