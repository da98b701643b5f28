/* BeiDou D1 ephemeris and ionosphere. argv: trace part quick seed */
#include <swiftnav/ephemeris.h>
#include <swiftnav/ionosphere.h>
#include "nav.h"
#define K(f) offsetof(ephemeris_t, data.kepler.f)
static const nav_field_t EPH[] = {
    {"health", 0, '1', 'B', offsetof(ephemeris_t, health_bits)},
    {"toc", 3, '1', 'd', K(toc.tow)}, {"tgd1", 0, 'd', 'f', K(tgd.bds_s[0])},
    {"tgd2", 0, 'd', 'f', K(tgd.bds_s[1])}, {"af2", -66, '1', 'd', K(af2)},
    {"af0", -33, '1', 'd', K(af0)}, {"af1", -50, '1', 'd', K(af1)},
    {"dn", -43, 'p', 'd', K(dn)}, {"cuc", -31, '1', 'd', K(cuc)},
    {"m0", -31, 'p', 'd', K(m0)}, {"ecc", -33, '1', 'd', K(ecc)},
    {"cus", -31, '1', 'd', K(cus)}, {"crc", -6, '1', 'd', K(crc)},
    {"crs", -6, '1', 'd', K(crs)}, {"sqrta", -19, '1', 'd', K(sqrta)},
    {"toe", 3, '1', 'd', offsetof(ephemeris_t, toe.tow)},
    {"inc", -31, 'p', 'd', K(inc)}, {"cic", -31, '1', 'd', K(cic)},
    {"omegadot", -43, 'p', 'd', K(omegadot)}, {"cis", -31, '1', 'd', K(cis)},
    {"inc_dot", -43, 'p', 'd', K(inc_dot)}, {"omega0", -31, 'p', 'd', K(omega0)},
    {"w", -31, 'p', 'd', K(w)}};
#define NE ((int)(sizeof EPH / sizeof EPH[0]))
#define I(f, k) {#f, k, '1', 'd', offsetof(ionosphere_t, f)}
static const nav_field_t IONO[] = {I(a0, -30), I(a1, -27), I(a2, -24), I(a3, -24),
                                   I(b0, 11), I(b1, 14), I(b2, 16), I(b3, 16)};
static uint32_t word(void) { return (uint32_t)(rng() >> 34); }
static void words(const char *k, const u32 w[10]) {
  fprintf(TR, "%s[", k);
  for (int i = 0; i < 10; i++) fprintf(TR, i ? ",%u" : "%u", w[i] & 0x3fffffff);
  fprintf(TR, "]");
}
static int only; /* 0 ephemeris, 1 ionosphere */
static void both(u32 w[3][10], bool noise) {
  ephemeris_t e;
  ionosphere_t io;
  memset(&e, noise ? 0xA5 : 0, sizeof e);
  memset(&io, noise ? 0xA5 : 0, sizeof io);
  gnss_signal_t s = construct_sid(rnd(2) ? CODE_BDS2_B1 : CODE_BDS2_B2, 1 + rnd(63));
  u32 c[3][10];
  memcpy(c, w, sizeof c);
  if (noise)
    for (int i = 0; i < 30; i++) c[i / 10][i % 10] |= (u32)rnd(4) << 30;
  decode_bds_d1_ephemeris((const u32(*)[10])c, s, &e);
  decode_bds_d1_iono(c[0], &io);
  if (only) goto iono;
  tr_begin("eph");
  fprintf(TR, ",\"w\":");
  for (int i = 0; i < 3; i++) words(i ? "," : "[", w[i]);
  fprintf(TR, "]");
  nav_values(&e, EPH, NE);
  tr_i("toewn", e.toe.wn);
  tr_i("tocwn", e.data.kepler.toc.wn);
  tr_i("iode", e.data.kepler.iode);
  tr_i("iodc", e.data.kepler.iodc);
  tr_m("ura", e.ura);
  tr_i("crc", get_bds2_iod_crc(&e));
  tr_i("src", e.source);
  long long a[2] = {s.sat, s.code}, b[2] = {e.sid.sat, e.sid.code};
  tr_ai("sid", a, 2);
  tr_ai("osid", b, 2);
  tr_end();
  return;
iono:
  tr_begin("iono");
  words(",\"w\":", w[0]);
  nav_values(&io, IONO, 8);
  tr_i("wn", io.toa.wn);
  tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  bool quick = atoi(argv[2]);
  rng_seed((uint64_t)atoll(argv[3]));
  only = atoi(argv[4]);
  u32 w[3][10];
  nav_units("eph", EPH, NE);
  nav_units("iono", IONO, 8);
  for (int base = 0; base < 2; base++)
    for (int i = -1; i < (only ? 300 : 900); i++) {
      if (quick && base && i >= 0 && (i % 5)) continue;
      for (int k = 0; k < 30; k++) w[k / 10][k % 10] = base ? 0x3fffffff : 0;
      if (i >= 0) w[i / 300][(i / 30) % 10] ^= 1u << (29 - i % 30);
      both(w, false);
    }
  for (int i = 0; i < (quick ? 900 : 15000); i++) {
    for (int k = 0; k < 30; k++) w[k / 10][k % 10] = word();
    both(w, true);
  }
  tr_close();
  return 0;
}
