/* Whether ephemerides and almanacs may be used. argv: trace part quick seed */
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include "nav.h"
#define TPS 16.0
static const char *ST[] = {"NULL", "INVALID", "WN_EQ_0", "FIT_INTERVAL_EQ_0", "UNHEALTHY", "TOO_OLD", "INVALID_SID", "INVALID_IOD", "VALID"};
/* the names by value, whatever order the enumeration has */
static const char *name(ephemeris_status_t s) {
  return s == EPH_NULL ? "NULL" : s == EPH_INVALID ? "INVALID" : s == EPH_WN_EQ_0 ? "WN_EQ_0" :
         s == EPH_FIT_INTERVAL_EQ_0 ? "FIT_INTERVAL_EQ_0" : s == EPH_UNHEALTHY ? "UNHEALTHY" :
         s == EPH_TOO_OLD ? "TOO_OLD" : s == EPH_INVALID_SID ? "INVALID_SID" :
         s == EPH_INVALID_IOD ? "INVALID_IOD" : s == EPH_VALID ? "VALID" : ST[0];
}
static void tk(const char *k, gps_time_t t) { fprintf(TR, "%s[%d,%lld]", k, t.wn, (long long)llround(t.tow * TPS)); }
static gps_time_t at(int wn, double s) { /* normalised */
  long long w = (long long)floor(s / WEEK_SECS);
  gps_time_t t = {.tow = s - (double)w * WEEK_SECS, .wn = (s16)(wn < 0 ? wn : wn + w)};
  return t;
}
static const code_t REPS[] = {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5I, CODE_GPS_L1P, CODE_SBAS_L1CA, CODE_SBAS_L5I,
                              CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B1CI,
                              CODE_BDS3_B5I, CODE_QZS_L1CA, CODE_QZS_L2CM, CODE_QZS_L5I, CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E5I};
#define NR ((int)(sizeof REPS / sizeof REPS[0]))
static void orbit(ephemeris_t *e) {
  switch (sid_to_constellation(e->sid)) {
    case CONSTELLATION_GLO:
      e->data.glo.pos[0] = -14e6, e->data.glo.pos[1] = -16e6, e->data.glo.pos[2] = 14e6;
      e->data.glo.vel[0] = 2e3, e->data.glo.vel[1] = 300, e->data.glo.vel[2] = 2.5e3;
      break;
    case CONSTELLATION_SBAS:
      e->data.xyz.pos[0] = 24e6, e->data.xyz.pos[1] = -3e7;
      break;
    default:
      e->data.kepler.sqrta = 5153.6, e->data.kepler.ecc = 0.01, e->data.kepler.inc = 0.96;
  }
}
/* the times worth asking about */
static int times(gps_time_t *q, gps_time_t toe, double fit) {
  int wn = toe.wn < 1 ? 1500 : toe.wn, n = 0;
  double o[] = {0, fit / 2, fit, fit / 2 + 0.5, fit + 0.0625, 0.0625, -0.0625, -fit / 2, -fit / 2 - 0.0625, fit / 2 - 0.0625,
                fit - 0.0625, -fit, WEEK_SECS / 2, -WEEK_SECS / 2, WEEK_SECS, -WEEK_SECS, WEEK_SECS + fit / 2, WEEK_SECS - 3600,
                WEEK_SECS / 2 + 0.0625, rnd(700000) / 4.0, -(double)rnd(700000) / 4.0};
  for (unsigned i = 0; i < sizeof o / sizeof o[0]; i++) {
    gps_time_t t = at(wn, toe.tow + o[i]);
    if (t.wn < 2) continue;
    t.tow = floor(t.tow * TPS) / TPS;
    q[n++] = t;
    if (i % 2 == 0 || rnd(3) == 0) {
      t.wn = WN_UNKNOWN;
      q[n++] = t;
    }
  }
  return n;
}
static void eph(ephemeris_t *e) {
  constellation_t con = sid_to_constellation(e->sid);
  bool kep = con != CONSTELLATION_GLO && con != CONSTELLATION_SBAS;
  tr_begin("eph");
  fprintf(TR, ",\"p\":{\"c\":%d,\"valid\":%d,\"fit\":%u,\"w\":%d,\"src\":%d,\"iode\":%d,\"iodc\":%d,\"iod\":%d", e->sid.code,
          e->valid, e->fit_interval, e->health_bits, e->source, kep ? e->data.kepler.iode : 0, kep ? e->data.kepler.iodc : 0,
          con == CONSTELLATION_GLO ? e->data.glo.iod : 0);
  tr_m("ura", e->ura);
  tk(",\"toe\":", e->toe);
  tk(",\"toc\":", kep ? e->data.kepler.toc : e->toe);
  fprintf(TR, "}");
  tr_s("st", name(get_ephemeris_status_t(e)));
  tr_i("nt", ephemeris_valid(e, NULL));
  gps_time_t q[64];
  int n = times(q, e->toe, e->fit_interval);
  fprintf(TR, ",\"q\":[");
  for (int i = 0; i < n; i++) {
    double p[3], v[3], a[3], ce, cr;
    tk(i ? ",{\"t\":" : "{\"t\":", q[i]);
    tr_s("d", name(ephemeris_valid_detailed(e, &q[i])));
    tr_i("v", ephemeris_valid(e, &q[i]));
    tr_i("s", calc_sat_state(e, &q[i], p, v, a, &ce, &cr));
    fprintf(TR, "}");
  }
  fprintf(TR, "]");
  tr_end();
}
static void iods(ephemeris_t *e, int kind) { /* 0 good, otherwise any */
  static const u16 I[] = {0, 1, 17, 127, 128, 239, 240, 241, 255, 256, 257, 273, 496, 1023, 1024, 1041, 65535};
  u16 a = I[rnd(17)], b = rnd(2) ? I[rnd(17)] : a;
  if (kind == 0) a = rnd(240), b = a;
  switch (sid_to_constellation(e->sid)) {
    case CONSTELLATION_GLO:
      e->data.glo.iod = (u8)(kind ? (u8[]){127, 128, 0, 255}[rnd(4)] : rnd(128));
      break;
    case CONSTELLATION_SBAS:
      break;
    default:
      e->data.kepler.iodc = a;
      e->data.kepler.iode = b;
      if (kind && rnd(2)) e->data.kepler.iode = a & 255;
      if (!kind && rnd(3) == 0) { /* low bits in common */
        constellation_t c = sid_to_constellation(e->sid);
        if (c == CONSTELLATION_GPS || c == CONSTELLATION_QZS) e->data.kepler.iodc = (u16)(a + 256 * rnd(4));
        if (c == CONSTELLATION_GAL) e->data.kepler.iodc = e->data.kepler.iode = (u16)rnd(1024);
      }
  }
}
static void ephs(bool quick) {
  static const u32 F[] = {2, 7200, 14400, 21600, 28800, 10800, 4200, 5400, 50400, 604800, 1209600, 86400, 600};
  int n = quick ? 60 : 1000;
  for (int r = 0; r < NR; r++)
    for (int i = 0; i < n; i++) {
      ephemeris_t e;
      memset(&e, 0, sizeof e);
      e.sid = construct_sid(REPS[r], code_to_sig_count(REPS[r]) ? 1 : 1);
      orbit(&e);
      constellation_t con = sid_to_constellation(e.sid);
      bool kep = con != CONSTELLATION_GLO && con != CONSTELLATION_SBAS;
      /* one thing wrong, or several, or nothing */
      int wrong = i < 12 ? i : rnd(3) ? 0 : (int)rnd(12);
      e.valid = 1;
      e.source = rnd(3);
      e.ura = (float[]){0, 2, 4, 6144}[rnd(4)];
      e.fit_interval = F[rnd(13)];
      if (con == CONSTELLATION_BDS || con == CONSTELLATION_GAL) e.fit_interval += rnd(2);
      double tow = rnd(5) ? 16.0 * rnd(37800) : (double[]){0, 604784, 3600, 302400, 604799}[rnd(5)];
      e.toe = (gps_time_t){.tow = tow, .wn = (s16)(rnd(4) ? 2000 + rnd(400) : (int[]){300, 1023, 1024, 4000}[rnd(4)])};
      if (kep) {
        double d = rnd(3) ? 0 : (double[]){3600, -3600, 7200, -7200, 16, -16, 43200, -43200, 604800, -604800, 1, -1}[rnd(12)];
        if (rnd(6) == 0) d = (rnd(2) ? 1 : -1) * (double)(e.fit_interval / 2);
        e.data.kepler.toc = at(e.toe.wn, tow + d);
        if (rnd(12) == 0) e.data.kepler.toc.wn = WN_UNKNOWN;
      }
      if (rnd(8) == 0 && e.fit_interval <= 604800) e.toe.wn = WN_UNKNOWN;
      iods(&e, 0);
      for (int k = 0; k < (wrong == 11 ? 3 : 1); k++) {
        int x = wrong == 11 ? 1 + rnd(10) : wrong;
        if (x == 1) e.valid = 0;
        if (x == 2) e.toe.wn = 0;
        if (x == 3) e.fit_interval = 0;
        if (x == 4) e.health_bits = (u8)(1 + rnd(255));
        if (x == 5) e.ura = (float[]){-1, 6145, 7000, -0.5f}[rnd(4)];
        if (x == 6 || x == 7) iods(&e, 1);
        if (x == 8 && kep) e.data.kepler.toc.wn = 0;
        if (x == 9) e.health_bits = (u8)(32 * rnd(8));
        if (x == 10 && kep) e.data.kepler.toc = at(e.toe.wn, tow + (rnd(2) ? 1 : -1) * (e.fit_interval / 2 + 1.0));
        if (x == 10 && kep && rnd(2)) e.data.kepler.toc = at(e.toe.wn, tow + e.fit_interval + 1.0);
      }
      eph(&e);
    }
  /* windows given directly */
  for (int i = 0; i < (quick ? 300 : 5000); i++) {
    gps_time_t b = at(1000 + rnd(1000), 16.0 * rnd(37800)), e = at(b.wn, b.tow + F[rnd(13)]);
    bool has = rnd(2);
    tr_begin("par");
    tk(",\"bgn\":", b);
    tk(",\"end\":", e);
    tr_i("hastoc", has);
    fprintf(TR, ",\"q\":[");
    for (int k = 0; k < 24; k++) {
      double w = (e.wn - b.wn) * (double)WEEK_SECS + e.tow - b.tow;
      double o[] = {0, w, w / 2, -1, w + 1, -0.0625, w + 0.0625, 302400, -302400, rnd(604800)};
      gps_time_t t = at(b.wn, b.tow + o[k < 10 ? k : (int)rnd(3)]);
      gps_time_t c = at(b.wn, b.tow + o[k < 10 ? (int)rnd(3) : (int)rnd(10)]);
      t.tow = floor(t.tow * TPS) / TPS;
      c.tow = floor(c.tow * TPS) / TPS;
      if (rnd(8) == 0) t.wn = WN_UNKNOWN;
      if (rnd(10) == 0) c.wn = WN_UNKNOWN;
      if (rnd(10) == 0) c.wn = 0;
      tk(k ? ",{\"t\":" : "{\"t\":", t);
      tk(",\"toc\":", c);
      tr_i("v", ephemeris_params_valid(&b, &e, has ? &c : NULL, &t));
      fprintf(TR, "}");
    }
    fprintf(TR, "]");
    tr_end();
  }
  gps_time_t t = {.wn = 2000, .tow = 5};
  tr_begin("null");
  tr_s("st", name(get_ephemeris_status_t(NULL)));
  tr_i("v", ephemeris_valid(NULL, &t));
  tr_s("d", name(ephemeris_valid_detailed(NULL, &t)));
  tr_end();
}
static void alms(bool quick) {
  static const u32 F[] = {2, 144 * 3600, 7200, 604800, 604800 * 2, 86400, 518400, 0, 16};
  static const code_t C[] = {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GPS_L5I};
  for (int i = 0; i < (quick ? 1200 : 20000); i++) {
    almanac_t a;
    memset(&a, 0, sizeof a);
    a.sid = construct_sid(C[rnd(5)], 1 + rnd(32));
    a.valid = rnd(10) != 0;
    a.ura = (float[]){0, 0, 2, 900, 7000, -1}[rnd(6)];
    a.health_bits = (u8)(rnd(3) ? 0 : rnd(256));
    a.fit_interval = F[rnd(9)];
    a.toa = (gps_time_t){.tow = rnd(3) ? 4096.0 * rnd(147) : 16.0 * rnd(37800), .wn = (s16)(rnd(12) ? 1000 + rnd(1500) : rnd(2) ? 0 : WN_UNKNOWN)};
    a.data.kepler.sqrta = 5153.6, a.data.kepler.ecc = 0.01, a.data.kepler.inc = 0.96;
    tr_begin("alm");
    fprintf(TR, ",\"p\":{\"c\":%d,\"valid\":%d,\"fit\":%u,\"w\":%d", a.sid.code, a.valid, a.fit_interval, a.health_bits);
    tr_m("ura", a.ura);
    tk(",\"toa\":", a.toa);
    fprintf(TR, "},\"q\":[");
    gps_time_t q[64];
    int n = times(q, a.toa, a.fit_interval);
    for (int k = 0; k < n; k++) {
      double p[3], v[3], ac[3], ce, cr;
      tk(k ? ",{\"t\":" : "{\"t\":", q[k]);
      tr_i("v", almanac_valid(&a, &q[k]));
      tr_i("s", calc_sat_state_almanac(&a, &q[k], p, v, ac, &ce, &cr));
      fprintf(TR, "}");
    }
    fprintf(TR, "]");
    tr_end();
  }
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = atoi(argv[2]);
  bool quick = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + 7 * part);
  if (part == 0)
    ephs(quick);
  else
    alms(quick);
  tr_close();
  return 0;
}
