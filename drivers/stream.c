/* Histories of the byte and bit stream cursors.  Buffers are exactly as large as
 * declared and the build uses AddressSanitizer. */
#include "tr.h"
#include <swiftnav/bits.h>
#include <swiftnav/common.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
static swiftnav_bytestream_t by;
static swiftnav_in_bitstream_t bi;
static swiftnav_out_bitstream_t bo;
static int kind; /* 0 bytes, 1 bits in, 2 bits out */
static u8 *buf;
static int nbuf, nunits;
static void w32(const char *k, u32 v) { fprintf(TR, ",\"%s\":[%u,%u]", k, v >> 16, v & 0xffff); }
static void w64(const char *k, u64 v) {
  fprintf(TR, ",\"%s\":[%u,%u,%u,%u]", k, (unsigned)(v >> 48), (unsigned)(v >> 32 & 0xffff), (unsigned)(v >> 16 & 0xffff), (unsigned)(v & 0xffff));
}
static u32 curoff(void) { return kind == 0 ? by.offset : kind == 1 ? bi.offset : bo.offset; }
static u32 rem(void) {
  return kind == 0 ? swiftnav_bytestream_remaining(&by)
                   : kind == 1 ? swiftnav_in_bitstream_remaining(&bi) : swiftnav_out_bitstream_remaining(&bo);
}
static void seen(void) { w32("off", curoff()); w32("rem", rem()); tr_end(); }
static void start(int k, int units, int claim_huge, u32 huge) {
  free(buf);
  kind = k;
  nunits = units;
  nbuf = k == 0 ? units : (units + 7) / 8;
  buf = malloc(nbuf ? nbuf : 1);
  for (int i = 0; i < nbuf; i++) buf[i] = rnd(256);
  u32 len = claim_huge ? huge : (u32)units;
  int end = rnd(2);
  memset(&by, 0x99, sizeof by); memset(&bi, 0x99, sizeof bi); memset(&bo, 0x99, sizeof bo);
  if (k == 0) { swiftnav_bytestream_init(&by, buf, len); by.endianess = end ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN; }
  if (k == 1) swiftnav_in_bitstream_init(&bi, buf, len);
  if (k == 2) swiftnav_out_bitstream_init(&bo, buf, len);
  tr_begin("init");
  fprintf(TR, ",\"kind\":\"%s\"", k == 0 ? "bytes" : k == 1 ? "in" : "out");
  w32("len", len);
  tr_i("end", end);
  tr_au8("d", buf, nbuf);
  seen();
}
static void rm(u32 n) {
  if ((u64)curoff() + n > 0xffffffffULL) return;
  if (kind == 0) swiftnav_bytestream_remove(&by, n);
  if (kind == 1) swiftnav_in_bitstream_remove(&bi, n);
  if (kind == 2) swiftnav_out_bitstream_remove(&bo, n);
  tr_begin("rm");
  w32("n", n);
  seen();
}
static void wo(u32 p, u32 n) {
  tr_begin("wo");
  w32("p", p);
  w32("n", n);
  tr_i("r", kind == 0 ? swiftnav_bytestream_would_overflow(&by, p, n)
                      : kind == 1 ? swiftnav_in_bitstream_would_overflow(&bi, p, n)
                                  : swiftnav_out_bitstream_would_overflow(&bo, p, n));
  seen();
}
static void bytes(u32 p, u32 n) {
  u8 dst[64], can[64];
  if (n > 64 && n < 0x7fffffff && n <= (u32)nunits) n = 64;
  for (int i = 0; i < 64; i++) dst[i] = can[i] = rnd(256);
  int r = swiftnav_bytestream_get_bytes(&by, p, n, dst);
  u32 m = r && n <= 64 ? n : 64;
  tr_begin("bytes");
  w32("p", p);
  w32("n", n);
  tr_i("r", r);
  tr_au8("o", dst, r ? m : 64);
  tr_au8("c", can, 64);
  seen();
}
static void msb(const char *k, u64 v) {
  u8 b[8];
  for (int i = 0; i < 8; i++) b[i] = v >> (56 - 8 * i);
  tr_au8(k, b, 8);
}
#define DEC(NAME, T, S)                                       \
  do {                                                        \
    T d, c;                                                   \
    memset(&d, 0x3c, sizeof d);                               \
    c = d;                                                    \
    int r = swiftnav_bytestream_decode_##NAME(&by, &d);       \
    tr_begin("dec");                                          \
    tr_i("n", sizeof d);                                      \
    tr_i("s", S);                                             \
    tr_i("r", r);                                             \
    msb("o", (u64)(S ? (u64)(s64)d : (u64)d));                \
    msb("c", (u64)(S ? (u64)(s64)c : (u64)c));                \
    seen();                                                   \
  } while (0)
static void dec(int k) {
  switch (k) {
    case 0: DEC(u8, u8, 0); break;
    case 1: DEC(s8, s8, 1); break;
    case 2: DEC(u16, u16, 0); break;
    case 3: DEC(s16, s16, 1); break;
    case 4: DEC(u32, u32, 0); break;
    case 5: DEC(s32, s32, 1); break;
    case 6: DEC(u64, u64, 0); break;
    case 7: DEC(s64, s64, 1); break;
  }
}
static void getb(int f, u32 p, u32 n) { /* f: bit 0 signed, bit 1 wide */
  if (n <= 64) {
    if (!(f & 2) && n > 32) n = 32;
    if ((f & 1) && n == 0) n = 1;
  }
  u64 c = 0x1122334455667788ULL, o = 0;
  u32 a = 0x55667788; s32 b = 0x55667788; u64 d = c; s64 e = c;
  int r = f == 0 ? swiftnav_in_bitstream_getbitu(&bi, &a, p, n)
        : f == 1 ? swiftnav_in_bitstream_getbits(&bi, &b, p, n)
        : f == 2 ? swiftnav_in_bitstream_getbitul(&bi, &d, p, n)
                 : swiftnav_in_bitstream_getbitsl(&bi, &e, p, n);
  o = f == 0 ? a : f == 1 ? (u64)(s64)b : f == 2 ? d : (u64)e;
  if (f < 2) c = 0x55667788;
  tr_begin("bits");
  w32("p", p);
  w32("n", n);
  tr_i("s", f & 1);
  tr_i("r", r);
  w64("o", o);
  w64("c", c);
  seen();
}
static void putb(int f, u32 p, u32 n) {
  if (n <= 64 && !(f & 2) && n > 32) n = 32;
  u64 v = rng();
  u32 a = v; s32 b = (s32)v; s64 e = (s64)v;
  int r = f == 0 ? swiftnav_out_bitstream_setbitu(&bo, &a, p, n)
        : f == 1 ? swiftnav_out_bitstream_setbits(&bo, &b, p, n)
        : f == 2 ? swiftnav_out_bitstream_setbitul(&bo, &v, p, n)
                 : swiftnav_out_bitstream_setbitsl(&bo, &e, p, n);
  tr_begin("put");
  w32("p", p);
  w32("n", n);
  tr_i("r", r);
  w64("v", f < 2 ? (u64)a : v);
  tr_au8("d", buf, nbuf);
  seen();
}
static void access_(u32 p, u32 n) {
  if (kind == 0) bytes(p, n);
  /* accepted widths must be supported ones: larger ones only where refused */
  else if (n <= 64 || (u64)curoff() + p + n > (u64)nunits) {
    if (kind == 1) getb(rnd(4), p, n); else putb(rnd(4), p, n);
  }
}
static u32 big(void) {
  static const u32 v[] = {0xffffffffu, 0xfffffffeu, 0xfffffff8u, 0xfffffff0u, 0xffffff00u, 0x80000000u, 0x7fffffffu, 0x80000001u, 0xffff0000u, 0x10000u, 0x100u, 0x101u, 0xffffffe0u};
  return v[rnd(13)];
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  /* every (length, cursor, position, count) in a small range */
  int U = quick ? 5 : 7;
  for (int k = 0; k < 3; k++)
    for (int len = 0; len <= U; len++)
      for (int o = 0; o <= U + 1; o++) {
        start(k, len, 0, 0);
        rm(o);
        for (int p = 0; p <= U + 1; p++)
          for (int n = 0; n <= U + 1; n++) { wo(p, n); access_(p, n); }
        if (k == 0) for (int d = 0; d < 8; d++) { start(0, len, 0, 0); rm(o); dec(d); dec(rnd(8)); }
      }
  /* numbers near the 32-bit limit */
  for (int t = 0; t < (quick ? 250 : 2500); t++) {
    int k = t % 3, len = rnd(4) == 0 ? 0 : (int)rnd(k ? 200 : 40);
    start(k, len, 0, 0);
    if (rnd(2)) rm(rnd(len + 2));
    for (int i = 0; i < 6; i++) {
      u32 p = rnd(2) ? big() : rnd(len + 2), n = rnd(2) ? big() : rnd(40);
      if (rnd(2)) n = (u32)(0u - p + rnd(len + 3) - curoff());
      wo(p, n);
      access_(p, n);
    }
    if (rnd(2)) { rm(rnd(2) ? big() : rnd(300)); wo(0, 0); access_(0, rnd(2)); access_(rnd(3), 8); access_((u32)(0u - curoff()), rnd(20)); access_((u32)(0u - curoff() + 1), 1 + rnd(3)); if (!k) dec(rnd(8)); }
  }
  for (int t = 0; t < 200; t++) { /* declared lengths near the limit: the test only */
    start(t % 3, 8, 1, rnd(2) ? big() : 0xffffffffu - rnd(20));
    if (rnd(2)) rm(big());
    for (int i = 0; i < 6; i++) { u32 p = rnd(3) ? big() : rnd(30), n = rnd(2) ? big() : (u32)(0u - p - rnd(20)); wo(p, n); }
  }
  for (int h = 0; h < (quick ? 300 : 3000); h++) {
    int k = h % 3, len = rnd(k ? 400 : 60);
    start(k, len, 0, 0);
    for (int i = 0; i < 25; i++) {
      int r = rnd(10);
      if (r < 3) rm(rnd(k ? 40 : 6));
      else if (r < 5 && k == 0) dec(rnd(8));
      else if (r < 9) access_(rnd(k ? 60 : 12), rnd(k ? 65 : 12));
      else wo(rnd(len + 3), rnd(len + 3));
    }
  }
  tr_close();
  return 0;
}
