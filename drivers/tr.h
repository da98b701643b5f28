/* Trace writing helpers shared by all drivers. */
#ifndef VF_TR_H
#define VF_TR_H
#include <inttypes.h>
#include <math.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE *TR;
static uint64_t tr_rng_s = 88172645463325252ULL;
/* TLC integers are 32 bit: anything outside becomes a value no spec expects */
static inline long long tr_clamp(long long v) {
  if (v > 2147483647LL) return 2147483647LL;
  if (v < -2147483647LL) return -2147483647LL;
  return v;
}
static inline void tr_open(int argc, char **argv) {
  if (argc < 2) exit(77);
  TR = fopen(argv[1], "w");
  if (!TR) exit(77);
  setvbuf(TR, NULL, _IOFBF, 1 << 20);
}
static inline void tr_begin(const char *e) { fprintf(TR, "{\"e\":\"%s\"", e); }
static inline void tr_i(const char *k, long long v) {
  fprintf(TR, ",\"%s\":%lld", k, tr_clamp(v));
}
static inline void tr_s(const char *k, const char *v) {
  fprintf(TR, ",\"%s\":\"%s\"", k, v);
}
static inline void tr_au8(const char *k, const uint8_t *a, long n) {
  fprintf(TR, ",\"%s\":[", k);
  for (long i = 0; i < n; i++) fprintf(TR, i ? ",%u" : "%u", a[i]);
  fprintf(TR, "]");
}
static inline void tr_ai(const char *k, const long long *a, long n) {
  fprintf(TR, ",\"%s\":[", k);
  for (long i = 0; i < n; i++) fprintf(TR, i ? ",%lld" : "%lld", tr_clamp(a[i]));
  fprintf(TR, "]");
}
static inline void tr_end(void) { fprintf(TR, "}\n"); }
static inline void tr_close(void) {
  if (fclose(TR)) exit(77);
}
/* deterministic generator */
static inline void rng_seed(uint64_t s) {
  tr_rng_s = s * 0x9E3779B97F4A7C15ULL + 0x1234567ULL;
  if (!tr_rng_s) tr_rng_s = 1;
}
static inline uint64_t rng(void) {
  uint64_t x = tr_rng_s;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  tr_rng_s = x;
  return x * 2685821657736338717ULL;
}
static inline uint32_t rnd(uint32_t n) { return (uint32_t)((rng() >> 32) % n); }
/* a 32-bit word as four bytes, most significant first */
static inline void tr_w32(const char *k, uint32_t v) {
  fprintf(TR, ",\"%s\":[%u,%u]", k, v >> 16, v & 0xffff);
}
#endif
