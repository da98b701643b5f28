/* Bit-field access on buffers allocated exactly as large as the addressed range
 * needs (AddressSanitizer build), every alignment and width. */
#include "tr.h"
#include <swiftnav/bits.h>
static void w64(u64 v) {
  fprintf(TR, "[%u,%u,%u,%u]", (unsigned)(v >> 48), (unsigned)(v >> 32 & 0xffff), (unsigned)(v >> 16 & 0xffff), (unsigned)(v & 0xffff));
}
static void fill(u8 *b, int n, int pat) {
  for (int i = 0; i < n; i++) b[i] = pat == 0 ? rng() >> 40 : pat == 1 ? 0xff : pat == 2 ? 0 : pat == 3 ? (i & 1 ? 0xff : 0) : 0xa7 ^ (i * 37);
}
static void gets_(int sgn, int wide, int pos, int pat) {
  int max = wide ? 64 : 32, n0 = sgn ? 1 : (wide ? 1 : 0);
  int nb = (pos + max + 7) / 8;
  u8 *full = malloc(nb);
  fill(full, nb, pat);
  tr_begin(sgn ? "gets" : "getu");
  tr_au8("b", full, nb);
  tr_i("p", pos);
  tr_i("n0", n0);
  tr_i("w", wide);
  fprintf(TR, ",\"v\":[");
  for (int len = n0; len <= max; len++) {
    int k = (pos + len + 7) / 8;
    u8 *b = malloc(k ? k : 1);
    memcpy(b, full, k);
    u64 v = wide ? (sgn ? (u64)getbitsl(b, pos, len) : getbitul(b, pos, len))
                 : (sgn ? (u64)(s64)getbits(b, pos, len) : (u64)getbitu(b, pos, len));
    if (len > n0) fprintf(TR, ",");
    w64(v);
    if (memcmp(b, full, k)) exit(96); /* input modified */
    free(b);
  }
  fprintf(TR, "]");
  tr_end();
  free(full);
}
static void set_(int fn, int pos, int len, u64 v, int pat) {
  int max = fn < 2 ? 32 : 64;
  int eff = len >= 1 && len <= max ? len : 0;
  int k = (pos + eff + 7) / 8;
  if (!k) k = 1;
  u8 *b = malloc(k);
  fill(b, k, pat);
  tr_begin("set");
  tr_au8("b", b, k);
  tr_i("p", pos);
  tr_i("n", len);
  tr_i("max", max);
  tr_i("fn", fn);
  fprintf(TR, ",\"v\":");
  w64(fn == 0 ? (u64)(u32)v : fn == 1 ? (u64)(s64)(s32)v : v);
  if (fn == 0) setbitu(b, pos, len, (u32)v);
  if (fn == 1) setbits(b, pos, len, (s32)v);
  if (fn == 2) setbitul(b, pos, len, v);
  if (fn == 3) setbitsl(b, pos, len, (s64)v);
  tr_au8("o", b, k);
  tr_end();
  free(b);
}
static void copy_(int dp, int sp, int n, int pat) {
  int dk = (dp + n + 7) / 8, sk = (sp + n + 7) / 8;
  if (!dk) dk = 1;
  if (!sk) sk = 1;
  u8 *d = malloc(dk), *s = malloc(sk);
  fill(d, dk, pat & 3);
  fill(s, sk, pat >> 2);
  tr_begin("copy");
  tr_au8("d", d, dk);
  tr_au8("s", s, sk);
  tr_i("dp", dp);
  tr_i("sp", sp);
  tr_i("n", n);
  bitcopy(d, dp, s, sp, n);
  tr_au8("o", d, dk);
  tr_au8("s2", s, sk);
  tr_end();
  free(d); free(s);
}
static void shl_(int size, int n, int pat) {
  u8 *b = malloc(size);
  fill(b, size, pat);
  tr_begin("shl");
  tr_au8("b", b, size);
  tr_i("n", n);
  bitshl(b, size, n);
  tr_au8("o", b, size);
  tr_end();
  free(b);
}
static u64 val(int k) {
  switch (k) {
    case 0: return rng();
    case 1: return ~0ULL;
    case 2: return 0;
    case 3: return 1ULL << rnd(64);
    default: return ~(1ULL << rnd(64));
  }
}
static void msb(const char *k, u64 v, int n) {
  fprintf(TR, ",\"%s\":[", k);
  for (int i = n - 1; i >= 0; i--) fprintf(TR, "%u%s", (unsigned)(v >> (8 * i) & 255), i ? "," : "");
  fprintf(TR, "]");
}
#define ENDIAN(T, N)                                    \
  do {                                                  \
    T v = (T)val(q % 5), be = htobe_##N(v), le = htole_##N(v); \
    tr_begin("end");                                    \
    msb("v", v, N / 8);                                 \
    tr_au8("be", (u8 *)&be, N / 8);                     \
    tr_au8("le", (u8 *)&le, N / 8);                     \
    msb("fbe", betoh_##N(be), N / 8);                   \
    msb("fle", letoh_##N(le), N / 8);                   \
    msb("sw", byte_swap_##N(v), N / 8);                 \
    tr_end();                                           \
  } while (0)
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  int reps = quick ? 1 : 6;
  for (int pos = 0; pos < (quick ? 24 : 80); pos++)
    for (int pat = 0; pat < 5; pat++)
      for (int r = 0; r < (pat ? 1 : 2 * reps); r++)
        for (int f = 0; f < 4; f++) gets_(f & 1, f >> 1, pos, pat);
  for (int i = 0; i < 20; i++) for (int f = 0; f < 4; f++) gets_(f & 1, f >> 1, 100 + rnd(2000), 0);
  for (int fn = 0; fn < 4; fn++)
    for (int pos = 0; pos < (quick ? 10 : 18); pos++)
      for (int len = 0; len <= (fn < 2 ? 34 : 66); len++)
        for (int r = 0; r < 3 * reps; r++) set_(fn, pos, len, val(r ? rnd(5) : 0), rnd(5));
  for (int fn = 0; fn < 4; fn++)
    for (int r = 0; r < 40; r++) {
      set_(fn, rnd(600), rnd(fn < 2 ? 33 : 65), val(0), 0);
      set_(fn, rnd(9), 33 + rnd(200) + (fn < 2 ? 0 : 32), val(0), 0);
    }
  for (int dp = 0; dp < 8; dp++)
    for (int sp = 0; sp < 8; sp++)
      for (int r = 0; r < (quick ? 8 : 40); r++)
        copy_(dp + 8 * rnd(3), sp + 8 * rnd(3), r == 0 ? 0 : r == 1 ? 32 : r == 2 ? 64 : r == 3 ? (int)rnd(33) : (int)rnd(140), rnd(16));
  for (int size = 1; size <= (quick ? 6 : 12); size++)
    for (int n = 0; n <= size * 8 + 9; n++)
      for (int r = 0; r < reps; r++) shl_(size, n, r ? rnd(5) : 0);
  for (int r = 0; r < 30; r++) { int z = 1 + rnd(40); shl_(z, rnd(z * 8 + 2), 0); }
  shl_(3, 1000000, 0);
  for (int k = 0; k < (quick ? 96 : 256); k++) {
    unsigned hi = k == 0 ? 0 : k == 1 ? 0xffff : rng() >> 48, lo = k < 2 ? 0 : (rng() >> 48) & 0xff00;
    if (k > 2 && k < 40) { hi = k & 1 ? 0 : 0x8000; lo = (k * 6) << 8; }
    tr_begin("par");
    tr_i("hi", hi);
    tr_i("lo", lo);
    long long r[256];
    for (int i = 0; i < 256; i++) r[i] = parity(hi << 16 | (lo + i));
    tr_ai("r", r, 256);
    tr_end();
  }
  for (int x = 0; x < 256; x += quick ? (x < 8 ? 1 : 5) : 1) {
    tr_begin("ilv");
    tr_i("x", x);
    long long r[256];
    for (int y = 0; y < 256; y++) r[y] = bytes_interleave(x, y);
    tr_ai("r", r, 256);
    tr_end();
  }
  for (int w = 8; w <= 64; w *= 2)
    for (int blk = 0; blk < 8; blk++) {
      long long r1[64], r0[64];
      tr_begin("cnt");
      tr_i("w", w);
      fprintf(TR, ",\"v\":[");
      for (int i = 0; i < 64; i++) {
        u64 v = w == 8 ? (blk * 64 + i) & 255 : blk == 0 ? 1ULL << i : blk == 1 ? ~(1ULL << i) : blk == 2 ? (1ULL << i) - 1 : val(0);
        if (w < 64) v &= (1ULL << w) - 1;
        r1[i] = w == 8 ? count_bits_u8(v, 1) : w == 16 ? count_bits_u16(v, 1) : w == 32 ? count_bits_u32(v, 1) : count_bits_u64(v, 1);
        r0[i] = w == 8 ? count_bits_u8(v, 0) : w == 16 ? count_bits_u16(v, 0) : w == 32 ? count_bits_u32(v, 0) : count_bits_u64(v, 0);
        if (i) fprintf(TR, ",");
        w64(v);
      }
      fprintf(TR, "]");
      tr_ai("r1", r1, 64);
      tr_ai("r0", r0, 64);
      tr_end();
    }
  for (int q = 0; q < 60; q++) { ENDIAN(u16, 16); ENDIAN(u32, 32); ENDIAN(u64, 64); }
  tr_close();
  return 0;
}
