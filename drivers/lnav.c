/* GPS LNAV: ephemeris, ionosphere/UTC pages, almanac pages.
   argv: trace part quick seed */
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include "nav.h"
#define K(f) offsetof(ephemeris_t, data.kepler.f)
static const nav_field_t EPH[] = {
    {"tgd", -31, '1', 'f', K(tgd)}, {"iodc", 0, '1', 'h', K(iodc)},
    {"toc", 4, '1', 'd', offsetof(ephemeris_t, data.kepler.toc.tow)},
    {"af2", -55, '1', 'd', K(af2)}, {"af1", -43, '1', 'd', K(af1)},
    {"af0", -31, '1', 'd', K(af0)},
    {"health", 0, '1', 'B', offsetof(ephemeris_t, health_bits)},
    {"crs", -5, '1', 'd', K(crs)}, {"dn", -43, 'p', 'd', K(dn)},
    {"m0", -31, 'p', 'd', K(m0)}, {"cuc", -29, '1', 'd', K(cuc)},
    {"ecc", -33, '1', 'd', K(ecc)}, {"cus", -29, '1', 'd', K(cus)},
    {"sqrta", -19, '1', 'd', K(sqrta)},
    {"toe", 4, '1', 'd', offsetof(ephemeris_t, toe.tow)},
    {"cic", -29, '1', 'd', K(cic)}, {"omega0", -31, 'p', 'd', K(omega0)},
    {"cis", -29, '1', 'd', K(cis)}, {"inc", -31, 'p', 'd', K(inc)},
    {"crc", -5, '1', 'd', K(crc)}, {"w", -31, 'p', 'd', K(w)},
    {"omegadot", -43, 'p', 'd', K(omegadot)}, {"iode", 0, '1', 'h', K(iode)},
    {"inc_dot", -43, 'p', 'd', K(inc_dot)}};
#define NE ((int)(sizeof EPH / sizeof EPH[0]))
#define I(f, k) {#f, k, '1', 'd', offsetof(ionosphere_t, f)}
static const nav_field_t IONO[] = {I(a0, -30), I(a1, -27), I(a2, -24), I(a3, -24),
                                   I(b0, 11), I(b1, 14), I(b2, 16), I(b3, 16)};
static const nav_field_t UTC[] = {
    {"a1", -50, '1', 'd', offsetof(utc_params_t, a1)},
    {"a0", -30, '1', 'd', offsetof(utc_params_t, a0)},
    {"tot", 12, '1', 'd', offsetof(utc_params_t, tot.tow)},
    {"dt_ls", 0, '1', 'b', offsetof(utc_params_t, dt_ls)},
    {"dt_lsf", 0, '1', 'b', offsetof(utc_params_t, dt_lsf)}};
typedef struct { almanac_t a; double dinc; } alm2_t;
#define A(f) offsetof(alm2_t, a.data.kepler.f)
static const nav_field_t ALM[] = {
    {"ecc", -21, '1', 'd', A(ecc)}, {"toa", 12, '1', 'd', offsetof(alm2_t, a.toa.tow)},
    {"dinc", -19, 'p', 'd', offsetof(alm2_t, dinc)},
    {"omegadot", -38, 'p', 'd', A(omegadot)},
    {"health", 0, '1', 'B', offsetof(alm2_t, a.health_bits)},
    {"sqrta", -11, '1', 'd', A(sqrta)}, {"omega0", -23, 'p', 'd', A(omega0)},
    {"w", -23, 'p', 'd', A(w)}, {"m0", -23, 'p', 'd', A(m0)},
    {"af0", -20, '1', 'd', A(af0)}, {"af1", -38, '1', 'd', A(af1)}};

static uint32_t word(void) { return (uint32_t)(rng() >> 34); }
static void words(const char *k, const u32 w[8]) {
  fprintf(TR, "%s[", k);
  for (int i = 0; i < 8; i++) fprintf(TR, i ? ",%u" : "%u", w[i] & 0x3fffffff);
  fprintf(TR, "]");
}
static void setf(u32 *w, int a, int b, u32 v) {
  u32 m = ((1u << (b - a + 1)) - 1) << (30 - b);
  *w = (*w & ~m) | ((v << (30 - b)) & m);
}
static void eph(u32 w[3][8], int tot, int ref, bool dflt) {
  ephemeris_t e;
  memset(&e, 0xA5, sizeof e);
  e.data.kepler.tgd.gps_s[1] = 1;
  e.sid = construct_sid(rnd(4) ? CODE_GPS_L1CA : CODE_QZS_L1CA, 0);
  e.sid.sat = e.sid.code == CODE_GPS_L1CA ? 1 + rnd(32) : 193 + rnd(8);
  gnss_signal_t s0 = e.sid;
  u32 c[3][8];
  memcpy(c, w, sizeof c);
  /* bits above the 30 of a word are not part of the message */
  if (rnd(4) == 0)
    for (int i = 0; i < 24; i++) c[i / 8][i % 8] |= (u32)rnd(4) << 30;
  if (dflt)
    decode_ephemeris((const u32(*)[8])c, &e, tot);
  else
    decode_ephemeris_with_wn_ref((const u32(*)[8])c, &e, tot, (u16)ref);
  tr_begin("eph");
  fprintf(TR, ",\"w\":");
  for (int i = 0; i < 3; i++) words(i ? "," : "[", w[i]);
  fprintf(TR, "]");
  tr_i("tot", tot);
  tr_i("ref", dflt ? GPS_WEEK_REFERENCE : ref);
  nav_values(&e, EPH, NE);
  tr_i("toewn", e.toe.wn);
  tr_i("tocwn", e.data.kepler.toc.wn);
  tr_m("ura", e.ura);
  tr_i("fit", e.fit_interval);
  tr_i("valid", e.valid);
  tr_i("src", e.source);
  tr_m("tgd1", e.data.kepler.tgd.gps_s[1]);
  tr_i("same", s0.sat == e.sid.sat && s0.code == e.sid.code);
  tr_end();
}
static void eph_all(bool quick) {
  u32 w[3][8];
  nav_units("eph", EPH, NE);
  for (int base = 0; base < 2; base++)
    for (int i = -1; i < 720; i++) {
      if (quick && base && i >= 0 && i % 3) continue;
      for (int k = 0; k < 24; k++) w[k / 8][k % 8] = base ? 0x3fffffff : 0;
      if (i >= 0) w[i / 240][(i / 30) % 8] ^= 1u << (29 - i % 30);
      eph(w, 4, 2048, false);
    }
  int n = quick ? 700 : 12000;
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < 24; k++) w[k / 8][k % 8] = word();
    int m = rnd(8);
    if (m) { /* agreeing issues, possibly off by one bit */
      u32 iod = rnd(1024);
      if (rnd(3) == 0) iod = (u32[]){239, 240, 247, 248, 255, 256, 495, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 758, 1020, 1021, 1023}[rnd(22)];
      u32 a = iod & 255, b = a;
      if (m == 1) a ^= 1u << rnd(8);
      if (m == 2) b ^= 1u << rnd(8);
      setf(&w[0][0], 23, 24, iod >> 8);
      setf(&w[0][5], 1, 8, iod);
      setf(&w[1][0], 1, 8, a);
      setf(&w[2][7], 1, 8, b);
    }
    int ref = 1 + rnd(3000);
    int tot = rnd(100801) * 6;
    if (rnd(2)) { /* reference time of clock and ephemeris around the limits */
      u32 toe = (u32[]){0, 1, 37798, 37799, 37800, 37801, 18900, 18899, 18901}[rnd(9)];
      setf(&w[1][7], 1, 16, toe);
      tot = (int[]){0, 302400, 302384, 302416, 604784, 604794, 6, 302406, 302394}[rnd(9)];
    }
    if (rnd(2)) setf(&w[0][0], 1, 10, (u32)(ref + (int)rnd(5) - 2));
    eph(w, tot, ref, rnd(6) == 0);
  }
}
static void pages(bool quick) {
  u32 w[8];
  nav_units("iono", IONO, 8);
  nav_units("utc", UTC, 5);
  int n = quick ? 1500 : 20000;
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < 8; k++) w[k] = word();
    if (i < 480) {
      for (int k = 0; k < 8; k++) w[k] = i < 240 ? 0 : 0x3fffffff;
    }
    if (i < 480 || rnd(16)) {
      setf(&w[0], 1, 2, i >= 480 && rnd(12) == 0 ? rnd(4) : 1);
      setf(&w[0], 3, 8, i >= 480 && rnd(12) == 0 ? rnd(64) : 56);
    }
    if (i >= 480 && i < 480 + 256) setf(&w[0], 1, 8, i - 480);
    if (rnd(8)) setf(&w[6], 17, 24, rnd(9));
    if (i < 480) {
      setf(&w[6], 17, 24, 1 + i % 7);
      w[(i % 240) / 30] ^= 1u << (29 - i % 30);
    }
    if (i >= 480 && rnd(2)) { /* realistic: small offsets */
      setf(&w[6], 1, 8, 18);
      setf(&w[7], 1, 8, 17 + rnd(3));
      setf(&w[4], 1, 24, (u32)((int)rnd(200) - 100));
      setf(&w[5], 1, 8, (u32)-(int)rnd(2));
    }
    int ref = 1 + rnd(3000);
    if (i >= 480 && rnd(2)) {
      setf(&w[5], 17, 24, (u32)(ref + (int)rnd(3)));
      setf(&w[6], 9, 16, (u32)(ref + (int)rnd(3)));
    }
    bool dflt = rnd(6) == 0;
    u32 c[8];
    memcpy(c, w, sizeof c);
    if (rnd(4) == 0)
      for (int k = 0; k < 8; k++) c[k] |= (u32)rnd(4) << 30;
    ionosphere_t io;
    utc_params_t u;
    memset(&io, 0xA5, sizeof io);
    memset(&u, 0xA5, sizeof u);
    bool r1 = decode_iono_parameters(c, &io);
    bool r2 = dflt ? decode_utc_parameters(c, &u)
                   : decode_utc_parameters_with_wn_ref(c, &u, (u16)ref);
    tr_begin("iono");
    words(",\"w\":", w);
    tr_i("ok", r1);
    nav_values(&io, IONO, 8);
    tr_end();
    tr_begin("utc");
    words(",\"w\":", w);
    tr_i("ref", dflt ? GPS_WEEK_REFERENCE : ref);
    tr_i("ok", r2);
    if (r2) {
      nav_values(&u, UTC, 5);
      tr_i("totwn", u.tot.wn);
      double s = floor(u.t_lse.tow);
      long long t[3] = {u.t_lse.wn, (long long)s, llround((u.t_lse.tow - s) * 1048576.0)};
      tr_ai("lse", t, 3);
      tr_i("norm", u.t_lse.tow >= 0 && u.t_lse.tow < WEEK_SECS);
    }
    tr_end();
  }
}
static void alm1(const u32 w[8], int ref, bool dflt) {
  alm2_t a;
  almanac_ref_week_t rw;
  almanac_health_t h;
  memset(&a, 0xA5, sizeof a);
  memset(&rw, 0xA5, sizeof rw);
  memset(&h, 0xA5, sizeof h);
  bool r1 = almanac_decode(w, &a.a);
  bool r2 = dflt ? almanac_decode_week(w, &rw) : almanac_decode_week_with_wn_ref(w, &rw, (u16)ref);
  bool r3 = almanac_decode_health(w, &h);
  a.dinc = a.a.data.kepler.inc - 0.3 * 3.1415926535898;
  /* subtracting loses a few last bits of a value near one; put them back */
  a.dinc = nearbyint(a.dinc / nav_unit(-33, 'p')) * nav_unit(-33, 'p');
  tr_begin("alm");
  words(",\"w\":", w);
  tr_i("ok", r1);
  if (r1) {
    nav_values(&a, ALM, 11);
    tr_i("valid", a.a.valid);
    tr_i("sat", a.a.sid.sat);
    tr_i("code", a.a.sid.code);
    tr_i("fit", a.a.fit_interval);
    tr_i("ura", (long long)a.a.ura);
    tr_i("wn", a.a.toa.wn);
  }
  tr_i("ref", dflt ? GPS_WEEK_REFERENCE : ref);
  tr_i("rok", r2);
  if (r2) {
    tr_i("wna", rw.wna);
    tr_i("toa", rw.toa);
  }
  tr_i("hok", r3);
  if (r3) {
    long long b[32], v[32];
    for (int i = 0; i < 32; i++) {
      v[i] = (h.health_bits_valid >> i) & 1;
      b[i] = h.health_bits[i];
    }
    tr_ai("hv", v, 32);
    tr_ai("hb", b, 32);
  }
  tr_end();
}
static void almanac(bool quick) {
  u32 w[8];
  nav_units("alm", ALM, 11);
  for (int id = 0; id < 256; id++) {
    for (int r = 0; r < 2; r++) {
      for (int k = 0; k < 8; k++) w[k] = word();
      setf(&w[0], 1, 8, id);
      alm1(w, 1 + rnd(3000), rnd(4) == 0);
    }
  }
  const int ids[] = {1, 32, 51, 63, 7};
  for (int q = 0; q < 5; q++)
    for (int base = 0; base < 2; base++)
      for (int i = 8; i < 240; i++) {
        if (q > 3 && quick) continue;
        if (q != base && quick && q < 2) continue;
        for (int k = 0; k < 8; k++) w[k] = base ? 0x3fffffff : 0;
        w[i / 30] ^= 1u << (29 - i % 30);
        setf(&w[0], 1, 2, 1);
        setf(&w[0], 3, 8, ids[q]);
        alm1(w, 2048, false);
      }
  int n = quick ? 600 : 12000;
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < 8; k++) w[k] = word();
    setf(&w[0], 1, 2, rnd(16) ? 1 : rnd(4));
    int m = rnd(4);
    setf(&w[0], 3, 8, m == 0 ? rnd(64) : m == 1 ? 51 : m == 2 ? 63 : 1 + rnd(32));
    int ref = 1 + rnd(3000);
    if (rnd(2)) setf(&w[0], 17, 24, (u32)(ref + (int)rnd(5) - 2));
    alm1(w, ref, rnd(6) == 0);
  }
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = atoi(argv[2]);
  bool quick = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + 977 * part);
  if (part == 0) eph_all(quick);
  if (part == 1) pages(quick);
  if (part == 2) almanac(quick);
  tr_close();
  return 0;
}
