/* Galileo I/NAV ephemeris. argv: trace quick seed */
#include <swiftnav/bits.h>
#include <swiftnav/ephemeris.h>
#include "nav.h"
#define K(f) offsetof(ephemeris_t, data.kepler.f)
static const nav_field_t EPH[] = {
    {"iod", 0, '1', 'h', K(iode)}, {"toe", 0, 'M', 'd', offsetof(ephemeris_t, toe.tow)},
    {"m0", -31, 'p', 'd', K(m0)}, {"ecc", -33, '1', 'd', K(ecc)},
    {"sqrta", -19, '1', 'd', K(sqrta)}, {"omega0", -31, 'p', 'd', K(omega0)},
    {"inc", -31, 'p', 'd', K(inc)}, {"w", -31, 'p', 'd', K(w)},
    {"inc_dot", -43, 'p', 'd', K(inc_dot)}, {"omegadot", -43, 'p', 'd', K(omegadot)},
    {"dn", -43, 'p', 'd', K(dn)}, {"cuc", -29, '1', 'd', K(cuc)},
    {"cus", -29, '1', 'd', K(cus)}, {"crc", -5, '1', 'd', K(crc)},
    {"crs", -5, '1', 'd', K(crs)}, {"cic", -29, '1', 'd', K(cic)},
    {"cis", -29, '1', 'd', K(cis)}, {"toc", 0, 'M', 'd', K(toc.tow)},
    {"af0", -34, '1', 'd', K(af0)}, {"af1", -46, '1', 'd', K(af1)},
    {"af2", -59, '1', 'd', K(af2)}, {"bgd5a", -32, '1', 'f', K(tgd.gal_s[0])},
    {"bgd5b", -32, '1', 'f', K(tgd.gal_s[1])}};
#define NE ((int)(sizeof EPH / sizeof EPH[0]))
static void put(u8 *w, int off, int n, u32 v) {
  for (int i = 0; i < n; i++) {
    int p = off + i;
    u8 m = 0x80 >> (p % 8);
    if ((v >> (n - 1 - i)) & 1)
      w[p / 8] |= m;
    else
      w[p / 8] &= ~m;
  }
}
static void one(u8 w[5][16], bool noise) {
  ephemeris_t e;
  memset(&e, noise ? 0xA5 : 0, sizeof e);
  e.sid.code = (code_t)(noise ? CODE_GAL_E7I : CODE_GAL_E1B);
  int code0 = e.sid.code;
  bool ok = decode_gal_ephemeris_safe((const u8(*)[16])w, &e);
  tr_begin("eph");
  fprintf(TR, ",\"w\":[");
  for (int i = 0; i < 5; i++) {
    fprintf(TR, i ? ",[" : "[");
    for (int k = 0; k < 16; k++) fprintf(TR, k ? ",%u" : "%u", w[i][k]);
    fprintf(TR, "]");
  }
  fprintf(TR, "]");
  tr_i("ok", ok);
  int same = 1; /* the variant that asserts success decodes the same */
  if (ok) {
    ephemeris_t e2;
    memset(&e2, noise ? 0xA5 : 0, sizeof e2);
    e2.sid.code = (code_t)code0;
    decode_gal_ephemeris((const u8(*)[16])w, &e2);
    same = memcmp(&e, &e2, sizeof e) == 0;
  }
  tr_i("same", same);
  nav_values(&e, EPH, NE);
  tr_i("iodc", e.data.kepler.iodc);
  tr_t("toe", e.toe.wn, e.toe.tow);
  tr_t("toc", e.data.kepler.toc.wn, e.data.kepler.toc.tow);
  tr_m("ura", e.ura);
  tr_i("valid", e.valid);
  tr_i("sat", e.sid.sat);
  tr_i("code", e.sid.code);
  tr_i("code0", code0);
  tr_i("fit", e.fit_interval);
  tr_i("src", e.source);
  tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  bool quick = atoi(argv[2]);
  rng_seed((uint64_t)atoll(argv[3]));
  u8 w[5][16];
  nav_units("eph", EPH, NE);
  for (int base = 0; base < 2; base++)
    for (int i = -1; i < 640; i++) {
      if (quick && base && i >= 0 && (i % 3)) continue;
      memset(w, base ? 0xff : 0, sizeof w);
      if (base) { /* keep the times possible */
        put(w[0], 16, 14, 10079);
        put(w[3], 54, 14, 10079);
        put(w[4], 85, 20, 604799);
      }
      if (i >= 0) w[i / 128][(i / 8) % 16] ^= 0x80 >> (i % 8);
      if (getbitu(w[4], 85, 20) >= 604800) continue;
      one(w, false);
    }
  /* accuracy and health: every value */
  memset(w, 0, sizeof w);
  for (int i = 0; i < 256; i++) {
    put(w[2], 120, 8, i);
    put(w[4], 67, 4, i);
    one(w, true);
  }
  static const int edge[] = {0, 1, 5039, 5040, 5041, 10078, 10079, 10080, 10081, 16383};
  static const int tows[] = {0, 1, 59, 302399, 302400, 302401, 302460, 302340, 604799, 604740};
  for (int i = 0; i < (quick ? 1500 : 20000); i++) {
    for (int k = 0; k < 80; k++) w[k / 16][k % 16] = (u8)(rng() >> 40);
    put(w[0], 16, 14, rnd(3) ? (u32)edge[rnd(10)] : rnd(10200));
    put(w[3], 54, 14, rnd(3) ? (u32)edge[rnd(8)] : rnd(10200));
    put(w[4], 85, 20, rnd(3) ? (u32)tows[rnd(10)] : rnd(604800));
    one(w, true);
  }
  tr_close();
  return 0;
}
