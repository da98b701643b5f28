/* CRC-24Q over byte and bit messages in exactly-sized buffers. */
#include "tr.h"
#include <swiftnav/edc.h>
static u8 *mk(int n, int pat) {
  u8 *b = malloc(n ? n : 1);
  for (int i = 0; i < n; i++) b[i] = pat == 0 ? rng() >> 33 : pat == 1 ? 0 : pat == 2 ? 0xff : i == n / 2 ? 1 << rnd(8) : 0;
  return b;
}
static void bytes(int n, u32 crc, int pat) {
  u8 *b = mk(n, pat);
  u32 r = crc24q(b, n, crc);
  /* the same message in up to three pieces */
  int i = n ? rnd(n + 1) : 0, j = i + (n - i ? rnd(n - i + 1) : 0);
  u32 pc = crc24q(b + j, n - j, crc24q(b + i, j - i, crc24q(b, i, crc)));
  tr_begin("bytes");
  tr_au8("b", b, n);
  tr_i("crc", crc);
  tr_i("r", r);
  tr_i("pc", pc);
  tr_end();
  free(b);
}
static void bits(int n, u32 crc, int inv, int pat) {
  int k = (n + 7) / 8;
  u8 *b = mk(k, pat);
  if (n % 8 && rnd(2)) b[k - 1] |= rnd(256) >> (n % 8); /* junk behind the message */
  tr_begin("bits");
  tr_au8("b", b, k);
  tr_i("n", n);
  tr_i("crc", crc);
  tr_i("inv", inv);
  tr_i("r", crc24q_bits(crc, b, n, inv));
  tr_end();
  free(b);
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  for (int k = 0; k < (quick ? 60 : 400); k++) {
    u32 crc = k == 0 ? 0 : k < 25 ? 1u << (k - 1) : k == 25 ? 0xffffff : rng() >> 40;
    long long r[256];
    for (int x = 0; x < 256; x++) {
      u8 *b = malloc(1);
      *b = x;
      r[x] = crc24q(b, 1, crc);
      free(b);
    }
    tr_begin("tab");
    tr_i("crc", crc);
    tr_ai("r", r, 256);
    tr_end();
  }
  for (int n = 0; n <= 40; n++)
    for (int p = 0; p < 4; p++) bytes(n, p & 1 ? rng() >> 40 : 0, p);
  for (int t = 0; t < (quick ? 100 : 1000); t++) bytes(rnd(t % 10 ? 64 : 1024), rng() >> 40, rnd(4));
  bytes(2000, 0, 0);
  for (int n = 0; n <= (quick ? 130 : 700); n++)
    for (int inv = 0; inv < 2; inv++)
      for (int p = 0; p < (quick ? 3 : 6); p++) bits(n, p == 1 ? rng() >> 40 : 0, inv, p == 0 ? 0 : rnd(4));
  for (int t = 0; t < 60; t++) bits(t % 3 == 0 ? 276 : t % 3 == 1 ? 226 : (int)rnd(1500), t & 1 ? rng() >> 40 : 0, rnd(2), 0);
  tr_close();
  return 0;
}
