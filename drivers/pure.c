/* Independence of calls: every call below is run first in a process of its own
 * (nothing called before it), then in long histories of other calls, and
 * pre-empted after a chosen number of instructions by other calls.  Outcomes
 * are recorded as hashes; inputs and the storage around outputs are compared. */
#define _GNU_SOURCE
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include "tr.h"
#include <swiftnav/almanac.h>
#include <swiftnav/bits.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/constants.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/edc.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/set.h>
#include <swiftnav/shm.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/signal.h>
#include <swiftnav/single_epoch_solver.h>
#include <swiftnav/swift_strnlen.h>
#include <swiftnav/troposphere.h>
#define NM 12
typedef struct {
  int k[8];
  double x[64], y[64], z[16], w[16], ref[3], ref2[3], llh[3], f[8];
  float fl[4];
  u32 words[40], u;
  u8 by[256], page[5][GAL_INAV_CONTENT_BYTE];
  s32 si[64];
  s64 sl[64];
  gps_time_t t, t2, t3;
  utc_params_t utc;
  utc_tm tm;
  glo_time_t glo;
  glo_string_t str[5];
  ephemeris_t e, e2;
  almanac_t a, a2;
  ionosphere_t io, io2;
  glo_biases_t gb, gb2;
  gnss_signal_t sid, sids[16];
  gnss_sid_set_t set;
  code_t code;
  navigation_measurement_t nm[NM];
  obs_mask_config_t mask;
  s32 set1[12], set2[12];
  char name[32];
} in_t;
typedef struct {
  double d[192];
  long long i[24];
  float f[4];
  u8 b[512];
  u32 w[64];
  s64 l[64];
  gps_time_t t[3];
  gps_time_duration_t dt;
  utc_params_t utc;
  utc_tm tm;
  glo_time_t glo[3];
  ephemeris_t e;
  almanac_t a;
  ionosphere_t io;
  gnss_signal_t sid;
  gnss_sid_set_t set;
  gnss_solution so;
  dops_t dop;
  almanac_ref_week_t rw;
  almanac_health_t ah;
} out_t;

/* ---- inputs ---- */
static uint64_t G;
static uint64_t gr(void) {
  G ^= G << 13, G ^= G >> 7, G ^= G << 17;
  return G * 2685821657736338717ULL;
}
static uint32_t gn(uint32_t n) { return (uint32_t)((gr() >> 32) % n); }
static double gu(double a, double b) { return a + (b - a) * (gn(1u << 30) / (double)(1u << 30)); }
static gps_time_t gt(void) {
  gps_time_t t;
  memset(&t, 0, sizeof t);
  t.wn = (s16)(1600 + gn(900)), t.tow = gn(604800) + gn(4) * 0.25;
  return t;
}
static void geph(ephemeris_t *e, code_t c) {
  int n = code_to_constellation(c);
  e->sid = construct_sid(c, (u16)((n == CONSTELLATION_SBAS ? 120 : n == CONSTELLATION_QZS ? 193 : 1) + gn(n == CONSTELLATION_QZS ? 5 : 18)));
  e->toe = gt();
  e->toe.tow = (double)(7200 * gn(84));
  e->fit_interval = 14400, e->valid = 1, e->ura = 2.0f, e->health_bits = gn(4) ? 0 : (u8)gn(256);
  if (n == CONSTELLATION_GLO || n == CONSTELLATION_SBAS) {
    double th = gu(0, 6.28), ph = gu(-1, 1), R = n == CONSTELLATION_GLO ? 25.5e6 : 42.164e6, V = n == CONSTELLATION_GLO ? 3100 : 2;
    double p[3] = {R * cos(th) * cos(ph), R * sin(th) * cos(ph), R * sin(ph)}, v[3] = {-V * sin(th), V * cos(th), gu(-9, 9)};
    for (int i = 0; i < 3; i++) {
      double ac = gu(-4e-6, 4e-6);
      if (n == CONSTELLATION_GLO) e->data.glo.pos[i] = p[i], e->data.glo.vel[i] = v[i], e->data.glo.acc[i] = ac;
      else e->data.xyz.pos[i] = p[i], e->data.xyz.vel[i] = v[i], e->data.xyz.acc[i] = ac;
    }
    if (n == CONSTELLATION_GLO) e->data.glo.gamma = gu(-1e-9, 1e-9), e->data.glo.tau = gu(-1e-4, 1e-4), e->data.glo.d_tau = gu(-1e-8, 1e-8), e->data.glo.fcn = (u16)(1 + gn(14)), e->data.glo.iod = (u8)gn(99);
    else e->data.xyz.a_gf0 = gu(-1e-6, 1e-6), e->data.xyz.a_gf1 = gu(-1e-10, 1e-10);
    return;
  }
  ephemeris_kepler_t *k = &e->data.kepler;
  k->tgd.gps_s[0] = (float)gu(-1e-8, 1e-8), k->tgd.gps_s[1] = (float)gu(-1e-8, 1e-8);
  k->crc = gu(-300, 300), k->crs = gu(-90, 90), k->cuc = gu(-5e-6, 5e-6), k->cus = gu(-5e-6, 5e-6), k->cic = gu(-1e-7, 1e-7), k->cis = gu(-1e-7, 1e-7);
  k->dn = gu(0, 5e-9), k->m0 = gu(-3.1, 3.1), k->ecc = gu(0, 0.03), k->sqrta = gu(5153, 6493), k->omega0 = gu(-3.1, 3.1), k->omegadot = gu(-9e-9, 0);
  k->w = gu(-3.1, 3.1), k->inc = gu(0.9, 1), k->inc_dot = gu(-1e-10, 1e-10), k->af0 = gu(-1e-4, 1e-4), k->af1 = gu(-1e-11, 1e-11), k->af2 = 0;
  k->toc = e->toe, k->iodc = (u16)gn(1024), k->iode = (u16)(k->iodc & 255);
}
static const code_t ECODE[] = {CODE_GPS_L1CA, CODE_GLO_L1OF, CODE_SBAS_L1CA, CODE_BDS2_B1, CODE_GAL_E1B, CODE_QZS_L1CA};
static const code_t ACODE[] = {CODE_GPS_L1CA, CODE_SBAS_L1CA, CODE_GPS_L1CA};
/* strings 1 to 5 with plausible fields and check bits */
static void glo_bit(glo_string_t *s, int n, int v) {
  s->word[(n - 1) / 32] = (s->word[(n - 1) / 32] & ~(1u << ((n - 1) % 32))) | ((u32)v << ((n - 1) % 32));
}
static void glo_fix(in_t *in) {
  static const signed char B[5][14] = {{34, 62, 63, 76, 71}, {34, 62, 63, 76, -70}, {34, 62, 63}, {26, -16, 15}, {-32, 29, 30, 28, 27, 26}};
  for (int i = 0; i < 5; i++) {
    glo_string_t *s = &in->str[i];
    for (const signed char *b = B[i]; *b; b++) glo_bit(s, abs(*b), *b < 0);
    for (int j = 0; j < 4; j++) glo_bit(s, 81 + j, ((i + 1) >> j) & 1);
    for (int h = 0; h < 256; h++) {
      s->word[0] = (s->word[0] & ~255u) | (u32)h;
      if (error_detection_glo(s) == 0) break;
    }
  }
}
static void mk0(int v, in_t *in) {
  memset(in, 0, sizeof *in);
  G = (uint64_t)(v + 1) * 0x9E3779B97F4A7C15ULL + 77;
  for (int i = 0; i < 20; i++) gr();
  int kind = v % 6;
  for (int i = 0; i < 8; i++) in->k[i] = gn(1 << 30), in->f[i] = gu(-1, 1);
  for (int i = 0; i < 64; i++) in->x[i] = (int)gn(41) - 20 + (i % 9 == 0 ? 60 : 0), in->y[i] = (int)gn(21) - 10, in->si[i] = (int)gn(2001) - 1000, in->sl[i] = (int)gn(200001) - 100000;
  for (int i = 0; i < 16; i++) in->z[i] = (int)gn(21) - 10, in->w[i] = 1 + gn(9);
  in->llh[0] = gu(-1.5, 1.5), in->llh[1] = gu(-3.1, 3.1), in->llh[2] = gu(-100, 9000);
  wgsllh2ecef(in->llh, in->ref);
  double l2[3] = {gu(-1.5, 1.5), gu(-3.1, 3.1), gu(-100, 9000)};
  wgsllh2ecef(l2, in->ref2);
  for (int i = 0; i < 4; i++) in->fl[i] = (float)gu(0, 20);
  for (int i = 0; i < 40; i++) in->words[i] = (u32)gr();
  in->u = (u32)gr();
  for (int i = 0; i < 256; i++) in->by[i] = (u8)gr();
  for (int i = 0; i < 5; i++) for (int j = 0; j < GAL_INAV_CONTENT_BYTE; j++) in->page[i][j] = (u8)gr();
  in->page[0][2] = (u8)gn(100), in->page[3][6] = (u8)gn(4) | (in->page[3][6] & 0xfc);
  for (int i = 0; i < 5; i++) for (int j = 0; j < GLO_NAV_STR_WORDS; j++) in->str[i].word[j] = (u32)gr();
  glo_fix(in);
  geph(&in->e, ECODE[kind]);
  geph(&in->e2, ECODE[gn(6)]);
  if (gn(2)) in->e2 = in->e;
  in->t = in->e.toe;
  in->t.tow += gu(-5000, 5000);
  normalize_gps_time(&in->t);
  in->t2 = gt(), in->t3 = gt();
  in->utc.a0 = gu(-1e-7, 1e-7), in->utc.a1 = gu(-1e-12, 1e-12), in->utc.tot = gt(), in->utc.dt_ls = 18, in->utc.dt_lsf = (s8)(18 + gn(2));
  in->utc.t_lse = in->utc.tot, in->utc.t_lse.tow = (double)(86400 * gn(7)) + 18;
  in->tm.year = (u16)(1990 + gn(90)), in->tm.month = (u8)(1 + gn(12)), in->tm.month_day = (u8)(1 + gn(28)), in->tm.year_day = (u16)(1 + gn(360)), in->tm.hour = (u8)gn(24), in->tm.minute = (u8)gn(60), in->tm.second_int = (u8)gn(60), in->tm.second_frac = gu(0, 0.99);
  in->glo.nt = (u16)(1 + gn(1461)), in->glo.n4 = (u8)(1 + gn(20)), in->glo.h = (u8)gn(24), in->glo.m = (u8)gn(60), in->glo.s = gu(0, 59);
  for (int q = 0; q < 2; q++) {
    almanac_t *a = q ? &in->a2 : &in->a;
    code_t c = ACODE[gn(3)];
    a->sid = construct_sid(c, (u16)((c == CODE_SBAS_L1CA ? 120 : 1) + gn(18)));
    a->toa = in->t, a->toa.tow = floor(a->toa.tow), a->fit_interval = 518400, a->valid = 1, a->ura = 1, a->health_bits = gn(4) ? 0 : (u8)gn(256);
    if (c == CODE_GPS_L1CA) {
      almanac_kepler_t *k = &a->data.kepler;
      k->m0 = gu(-3, 3), k->ecc = gu(0, 0.02), k->sqrta = 5153.6, k->omega0 = gu(-3, 3), k->omegadot = gu(-9e-9, 0), k->w = gu(-3, 3), k->inc = 0.95, k->af0 = gu(-1e-4, 1e-4), k->af1 = gu(-1e-11, 1e-11);
    } else {
      a->data.xyz.pos[0] = 42.1e6 * cos(1.0 + q), a->data.xyz.pos[1] = 42.1e6 * sin(1.0 + q), a->data.xyz.vel[2] = gu(-2, 2), a->data.xyz.acc[1] = gu(-1e-4, 1e-4);
    }
  }
  if (gn(2)) in->a2 = in->a;
  in->io.toa = gt();
  double ia[8] = {1e-8, 2e-8, -6e-8, 1e-7, 9e4, 1e5, -6e4, -5e5};
  double *id = &in->io.a0;
  for (int i = 0; i < 8; i++) id[i] = ia[i] * gu(0.2, 2);
  in->io2 = in->io;
  in->gb.mask = (u8)gn(16), in->gb.l1of_bias_m = gu(-9, 9), in->gb.l1p_bias_m = gu(-9, 9), in->gb.l2of_bias_m = gu(-9, 9), in->gb.l2p_bias_m = gu(-9, 9);
  in->gb2 = in->gb;
  if (gn(2)) in->gb2.l2p_bias_m += 1;
  in->code = (code_t)gn(CODE_COUNT);
  for (int i = 0; i < 16; i++) {
    code_t c = (code_t)gn(CODE_COUNT);
    in->sids[i] = sid_from_code_index(c, (u16)gn(constellation_to_sat_count(code_to_constellation(c))));
    if (i % 3 == 0) sid_set_add(&in->set, in->sids[i]);
  }
  in->sid = in->sids[gn(16)];
  if (v % 3 == 0) in->sid = sid_from_code_index(v % 2 ? CODE_GLO_L1OF : CODE_GLO_L2OF, (u16)gn(28));
  for (int i = 0; i < NM; i++) {
    navigation_measurement_t *m = &in->nm[i];
    m->sid = construct_sid(i % 3 ? CODE_GPS_L1CA : CODE_GAL_E1B, (u16)(1 + i));
    double az = i * 2.399 + gu(0, 0.5), el = 0.2 + 1.2 * (i % 5) / 5, M[3][3], ned[3] = {cos(el) * cos(az), cos(el) * sin(az), -sin(el)}, r = gu(2e7, 2.6e7);
    wgs_ecef2ned_matrix(in->llh, M);
    for (int a = 0; a < 3; a++) {
      m->sat_pos[a] = in->ref[a];
      for (int b = 0; b < 3; b++) m->sat_pos[a] += r * M[b][a] * ned[b];
      m->sat_vel[a] = gu(-2000, 2000);
    }
    m->raw_pseudorange = r + (v % 4 == 3 && i == 5 ? 900 : gu(-1, 1));
    m->raw_measured_doppler = gu(-3000, 3000), m->raw_carrier_phase = gu(-1e8, 1e8), m->sat_clock_err = gu(-1e-6, 1e-6);
    double los = 0;
    for (int a = 0; a < 3; a++) los += m->sat_vel[a] * (m->sat_pos[a] - in->ref[a]) / r;
    if (v % 4 != 2) m->raw_measured_doppler = -los / 0.19029367279836487;
    m->sat_clock_err_rate = gu(-1e-10, 1e-10), m->cn0 = gu(32, 52), m->lock_time = gu(0, 9), m->elevation = el * 57;
    m->tot = in->t, m->flags = (nav_meas_flags_t)(NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_PHASE_VALID | NAV_MEAS_FLAG_CN0_VALID);
  }
  in->mask.cn0_mask.enable = v % 2, in->mask.cn0_mask.threshold_dbhz = 35;
  for (int i = 0, a = -9, b = -9; i < 12; i++) a += 1 + gn(4), b += 1 + gn(4), in->set1[i] = a, in->set2[i] = b;
  strcpy(in->name, code_to_string(in->code));
}

/* inputs above NB agree with two of those below in a part each: results kept
   for a part of the arguments do not fit the next call */
#define NB 24
#define NV 72
static void mk(int v, in_t *in) {
  if (v < NB) { mk0(v, in); return; }
  static in_t o;
  int b = v % NB, q = (b + 6 * (1 + v % 3)) % NB;
  mk0(b, in);
  mk0(q, &o);
  G = (uint64_t)(v + 1) * 0x9E3779B97F4A7C15ULL + 5;
  for (int i = 0; i < 20; i++) gr();
  uint32_t few = v < 2 * NB ? 2 : 5;
#define X(m) if (!gn(few)) memcpy(&in->m, &o.m, sizeof in->m)
  for (int i = 0; i < 8; i++) { X(k[i]); X(f[i]); }
  for (int i = 0; i < 64; i++) { X(x[i]); X(y[i]); X(si[i]); X(sl[i]); }
  for (int i = 0; i < 16; i++) { X(z[i]); X(w[i]); X(sids[i]); }
  for (int i = 0; i < 3; i++) { X(ref[i]); X(ref2[i]); X(llh[i]); }
  for (int i = 0; i < 4; i++) X(fl[i]);
  for (int i = 0; i < 40; i++) X(words[i]);
  for (int i = 0; i < 256; i++) X(by[i]);
  for (int i = 0; i < 5; i++) { X(str[i].word[0]); X(str[i].word[1]); X(str[i].word[2]); for (int j = 1; j < GAL_INAV_CONTENT_BYTE; j++) X(page[i][j]); }
  X(u); X(t.tow); X(t.wn); X(t2); X(t3); X(utc.a0); X(utc.a1); X(utc.tot); X(utc.dt_lsf); X(utc.t_lse);
  X(tm.year); X(tm.month); X(tm.month_day); X(tm.year_day); X(tm.hour); X(tm.minute); X(tm.second_int); X(tm.second_frac);
  X(glo.nt); X(glo.n4); X(glo.h); X(glo.m); X(glo.s);
  X(e.sid); X(e.toe); X(e.health_bits); X(e2.sid); X(e2.toe); X(e2.health_bits);
  if (IS_GLO(in->e.sid)) { X(e.data.glo.pos); X(e.data.glo.vel); X(e.data.glo.acc); X(e.data.glo.tau); X(e.data.glo.gamma); X(e.data.glo.iod); }
  else if (IS_SBAS(in->e.sid)) { X(e.data.xyz.pos); X(e.data.xyz.vel); X(e.data.xyz.acc); X(e.data.xyz.a_gf0); X(e.data.xyz.a_gf1); }
  else {
    X(e.data.kepler.tgd); X(e.data.kepler.crc); X(e.data.kepler.cuc); X(e.data.kepler.cic); X(e.data.kepler.m0); X(e.data.kepler.ecc); X(e.data.kepler.sqrta);
    X(e.data.kepler.omega0); X(e.data.kepler.w); X(e.data.kepler.inc); X(e.data.kepler.inc_dot); X(e.data.kepler.af0); X(e.data.kepler.toc); X(e.data.kepler.iode);
  }
  if (in->e2.sid.code != in->e.sid.code || gn(2)) in->e2 = in->e;
  X(a.toa); X(a.health_bits); X(a2.toa);
  if (in->a.sid.code == o.a.sid.code) { X(a.sid); X(a.data); }
  for (int i = 0; i < 8; i++) if (!gn(few)) (&in->io.a0)[i] = (&o.io.a0)[i];
  X(io.toa); X(gb.mask); X(gb.l1of_bias_m); X(gb.l2p_bias_m); X(code); X(sid); X(mask);
  if (v % 5 == 0) for (int i = 0; i < NM; i++) { X(nm[i].raw_pseudorange); X(nm[i].raw_measured_doppler); X(nm[i].cn0); X(nm[i].lock_time); X(nm[i].sat_vel[0]); }
  else for (int i = 0; i < NM; i++) { X(nm[i].cn0); X(nm[i].lock_time); X(nm[i].sat_vel[0]); }
  glo_fix(in);
  strcpy(in->name, code_to_string(in->code));
#undef X
}

/* ---- calls ---- */
typedef struct { const in_t *in; out_t *o; } cx;
#define F(n) static void n##_(const in_t *in, out_t *o)
#define D o->d
#define I o->i
F(calc_sat_state) { I[0] = calc_sat_state(&in->e, &in->t, D, D + 3, D + 6, D + 9, D + 10); }
F(calc_sat_state_orbit_type) { I[0] = calc_sat_state_orbit_type(&in->e, &in->t, in->k[0] % 2 ? MEO : GEO, D, D + 3, D + 6, D + 9, D + 10); }
F(calc_sat_state_n) { I[0] = calc_sat_state_n(&in->e, &in->t, MEO, D, D + 3, D + 6, D + 9, D + 10); }
F(calc_sat_az_el) { I[0] = calc_sat_az_el(&in->e, &in->t, in->ref, MEO, D, D + 1, in->k[0] % 2); }
F(calc_sat_doppler) { if (sid_to_constellation(in->e.sid) == CONSTELLATION_GLO && !glo_map_valid(in->e.sid)) return; I[0] = calc_sat_doppler(&in->e, &in->t, in->ref, in->ref2, MEO, D); }
F(ephemeris_status) { I[0] = get_ephemeris_status_t(&in->e); I[1] = ephemeris_valid_detailed(&in->e, &in->t); I[2] = ephemeris_valid(&in->e, &in->t); }
F(ephemeris_params_valid) { I[0] = ephemeris_params_valid(&in->t2, &in->t3, &in->e.toe, &in->t); }
F(decode_ephemeris) { o->e.sid = construct_sid(CODE_GPS_L1CA, 3); decode_ephemeris((const u32(*)[8])in->words, &o->e, 1000); }
F(decode_ephemeris_wn) { o->e.sid = construct_sid(CODE_GPS_L1CA, 4); decode_ephemeris_with_wn_ref((const u32(*)[8])in->words, &o->e, 1000, (u16)in->t.wn); }
F(decode_bds) { o->e.toe = in->t; decode_bds_d1_ephemeris((const u32(*)[10])in->words, construct_sid(CODE_BDS2_B1, 7), &o->e); }
F(decode_gal) { o->e.sid = construct_sid(CODE_GAL_E1B, 5); I[0] = decode_gal_ephemeris_safe(in->page, &o->e); }
F(decode_glo_1) { o->e = in->e; I[0] = decode_glo_string_1(&in->str[0], &o->e, &o->glo[0]); }
F(decode_glo_2) { o->e = in->e; I[0] = decode_glo_string_2(&in->str[1], &o->e, &o->glo[0]); }
F(decode_glo_3) { o->e = in->e; I[0] = decode_glo_string_3(&in->str[2], &o->e, &o->glo[0]); }
F(decode_glo_4) { o->e = in->e; o->glo[0] = o->glo[1] = in->glo; I[0] = decode_glo_string_4(&in->str[3], &o->e, &o->glo[0], &o->glo[1], &o->b[0]); }
F(decode_glo_5) { o->e = in->e; o->glo[0] = o->glo[1] = in->glo; I[0] = decode_glo_string_5(&in->str[4], &o->e, &o->glo[0], &o->glo[1], &o->f[0]); }
F(decode_glo_ephemeris) {
  ephemeris_t e = in->e;
  glo_time_t k = in->glo, t = in->glo;
  u8 age;
  float tau;
  I[0] = decode_glo_string_1(&in->str[0], &e, &k) && decode_glo_string_2(&in->str[1], &e, &t) && decode_glo_string_3(&in->str[2], &e, &k) && decode_glo_string_4(&in->str[3], &e, &k, &t, &age) && decode_glo_string_5(&in->str[4], &e, &k, &t, &tau);
  if (I[0]) decode_glo_ephemeris(in->str, construct_sid(CODE_GLO_L1OF, 4), in->k[0] % 2 ? &in->utc : NULL, &o->e);
}
F(error_detection_glo) { I[0] = error_detection_glo(&in->str[0]); I[1] = extract_word_glo(&in->str[1], (u16)(1 + in->k[0] % 40), (u8)(1 + in->k[1] % 32)); }
F(ephemeris_equal) { I[0] = ephemeris_equal(&in->e, &in->e2); }
F(ephemeris_healthy) { I[0] = ephemeris_healthy(&in->e, in->e.sid.code); }
F(ura) { I[0] = encode_ura(in->fl[0]); o->f[0] = decode_ura_index((u8)(in->k[0] % 16)); o->f[1] = decode_sisa_index((u8)in->k[1]); o->f[2] = decode_bds_ura_index((u8)(in->k[2] % 16)); I[1] = decode_fit_interval((u8)(in->k[3] % 2), (u16)(in->k[4] % 1024)); }
F(get_bds2_iod_crc) { ephemeris_t *e = &o->e; *e = in->e; I[0] = in->e.sid.code == CODE_BDS2_B1 ? get_bds2_iod_crc(&in->e) : 7; }
F(get_tgd_correction) { constellation_t c = sid_to_constellation(in->e.sid); I[0] = c == CONSTELLATION_SBAS || (c == CONSTELLATION_GLO && !glo_map_valid(in->e.sid)) ? 9 : get_tgd_correction(&in->e, &in->e.sid, &o->f[0]); }
F(almanac_state) { I[0] = calc_sat_state_almanac(&in->a, &in->t, D, D + 3, D + 6, D + 9, D + 10); }
F(almanac_az_el) { I[0] = calc_sat_az_el_almanac(&in->a, &in->t, in->ref, D, D + 1); }
F(almanac_doppler) { I[0] = calc_sat_doppler_almanac(&in->a, &in->t, in->ref, D); }
F(almanac_use) { I[0] = almanac_valid(&in->a, &in->t); I[1] = almanac_healthy(&in->a); I[2] = almanac_equal(&in->a, &in->a2); }
F(almanac_decode_week) { I[0] = almanac_decode_week(in->words, &o->rw); }
F(almanac_decode_week_wn) { I[0] = almanac_decode_week_with_wn_ref(in->words, &o->rw, (u16)in->t.wn); }
F(almanac_decode_health) { I[0] = almanac_decode_health(in->words, &o->ah); }
F(almanac_decode) { I[0] = almanac_decode(in->words, &o->a); }
F(calc_ionosphere) { D[0] = calc_ionosphere(&in->t, in->llh[0], in->llh[1], 3 * in->f[0], 0.8 + 0.7 * in->f[1], &in->io); }
F(decode_iono) { I[0] = decode_iono_parameters(in->words, &o->io); }
F(decode_bds_iono) { decode_bds_d1_iono(in->words, &o->io); }
F(calc_troposphere) { D[0] = calc_troposphere(183 + 180 * in->f[2], in->llh[0], in->llh[2], 0.8 + 0.7 * in->f[1]); }
F(geoid) { o->f[0] = get_geoid_offset(in->llh[0], in->llh[1]); }
F(wgsllh2ecef) { wgsllh2ecef(in->llh, D); }
F(wgsecef2llh) { wgsecef2llh(in->ref, D); }
F(wgsecef2ned) { wgsecef2ned(in->ref, in->ref2, D); wgsecef2ned_d(in->ref, in->ref2, D + 3); }
F(wgsned2ecef) { wgsned2ecef(in->ref, in->ref2, D); wgsned2ecef_d(in->ref, in->ref2, D + 3); }
F(wgsecef2azel) { wgsecef2azel(in->ref, in->ref2, D, D + 1); }
F(ned_matrix) { wgs_ecef2ned_matrix(in->llh, (double(*)[3])D); ecef2ned_matrix(in->ref, (double(*)[3])(D + 9)); }
F(llhdeg) { llhrad2deg(in->llh, D); llhdeg2rad(in->llh, D + 3); }
#define SZ(j) (1 + (u32)in->k[j] % 7)
F(matrix_inverse) { I[0] = matrix_inverse(SZ(0), in->x, D); }
F(matrix_multiply) { matrix_multiply(SZ(0), SZ(1), SZ(2), in->x, in->y, D); }
F(matrix_multiply_i) { matrix_multiply_i(SZ(0), SZ(1), SZ(2), in->si, in->si, (s32 *)o->w); matrix_multiply_s64(SZ(0), SZ(1), SZ(2), in->sl, in->sl, o->l); }
F(matrix_diag) { memcpy(D, in->x, sizeof in->x); matrix_multiply_diag_right(SZ(0), SZ(1), D, in->y); }
F(matrix_wlsq) { I[0] = matrix_wlsq_solve(8, SZ(0), in->x, in->y, in->w, D, D + 64); }
F(matrix_pseudoinverse) { I[0] = matrix_pseudoinverse(SZ(0), SZ(1), in->x, D); }
F(matrix_atwaiat) { I[0] = matrix_atwaiat(8, SZ(0), in->x, in->w, D); I[1] = matrix_ataiat(8, SZ(0), in->x, D + 64); }
F(matrix_atawati) { I[0] = matrix_atawati(SZ(0), 8, in->x, in->w, D); I[1] = matrix_ataati(SZ(0), 8, in->x, D + 64); }
F(matrix_udu) {
  double *S = D + 128;
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) S[5 * i + j] = in->x[i * 8 + j] * (i == j) + (i == j ? 90 : 0.5 * (in->y[i] + in->y[j]));
  matrix_udu(5, S, D, D + 25); matrix_reconstruct_udu(5, D, D + 25, D + 32);
}
F(matrix_misc) { matrix_transpose(SZ(0), SZ(1), in->x, D); matrix_add_sc(SZ(0), SZ(1), in->x, in->y, 0.5, D + 64); matrix_eye(SZ(2), D + 128); }
F(qrdecomp_square) { I[0] = qrdecomp_square(in->x, SZ(0), D, D + 64); }
F(qrsolve) { I[0] = qrsolve(in->x, 8, SZ(0), in->y, D); }
F(qt_r) { qtmult(in->x, SZ(0), in->y, D); rsolve(in->x, SZ(1), SZ(1), in->y, D + 16); }
F(submatrix) { static const u32 r[] = {2, 0}, c[] = {1, 3, 0}; submatrix(2, 3, 5, in->x, r, c, D); submatrix_ul(2, 3, 5, in->x, D + 16); }
F(vector) { D[0] = vector_dot(9, in->x, in->y); D[1] = vector_norm(9, in->x); D[2] = vector_mean(9, in->x); D[3] = vector_distance(9, in->x, in->y); vector_cross(in->x, in->y, D + 4); vector_add_sc(9, in->x, in->y, 2, D + 8); memcpy(D + 32, in->x, 72); vector_normalize(9, D + 32); }
F(vector_distance) { D[0] = vector_distance(1 + in->k[0] % 60, in->x, in->y); }
F(gps2utc) { gps2utc(&in->t2, &o->tm, in->k[0] % 2 ? &in->utc : NULL); }
F(make_utc_tm) { make_utc_tm(&in->t2, &o->tm); }
F(utc2gps) { utc2gps(&in->tm, &o->t[0], in->k[0] % 2 ? &in->utc : NULL); }
F(utc2date) { s32 a[5]; utc2date(&in->tm, a, a + 1, a + 2, a + 3, a + 4, D); for (int i = 0; i < 5; i++) I[i] = a[i]; D[1] = utc2mjd(&in->tm); }
F(date2) { D[0] = date2mjd(in->tm.year, in->tm.month, in->tm.month_day, in->tm.hour, in->tm.minute, in->tm.second_int); o->t[0] = date2gps(in->tm.year, in->tm.month, in->tm.month_day, in->tm.hour, in->tm.minute, in->tm.second_int); o->tm = date2utc(in->tm.year, in->tm.month, in->tm.month_day, in->tm.hour, in->tm.minute, in->tm.second_int); }
F(mjd2) { s32 a[5]; double m = 50000 + fabs(in->f[0]) * 20000; mjd2date(m, a, a + 1, a + 2, a + 3, a + 4, D); for (int i = 0; i < 5; i++) I[i] = a[i]; o->tm = mjd2utc(m); o->t[0] = mjd2gps(m); o->t[1] = mjd2gps_params(m, &in->utc); }
F(gps2mjd) { D[0] = gps2mjd(&in->t2); D[1] = gps2mjd_params(&in->t2, &in->utc); }
F(gps2date) { s32 a[5]; gps2date(&in->t2, a, a + 1, a + 2, a + 3, a + 4, D); for (int i = 0; i < 5; i++) I[i] = a[i]; gps2date_params(&in->t2, a, a + 1, a + 2, a + 3, a + 4, D + 1, &in->utc); for (int i = 0; i < 5; i++) I[8 + i] = a[i]; }
F(utc_offset) { D[0] = get_gps_utc_offset(&in->t2, in->k[0] % 2 ? &in->utc : NULL); D[1] = get_utc_gps_offset(&in->t2, in->k[0] % 2 ? &in->utc : NULL); I[0] = is_leap_second_event(&in->utc.t_lse, &in->utc); }
F(glo2gps) { o->t[0] = glo2gps(&in->glo, in->k[0] % 2 ? &in->utc : NULL); }
F(gps2glo) { o->glo[0] = gps2glo(&in->t2, in->k[0] % 2 ? &in->utc : NULL); }
F(utc2gmst) { D[0] = utc2gmst(in->tm, in->f[0] * 0.9); }
F(gps2doy) { I[0] = gps2doy(&in->t2); }
F(unix_time) { I[0] = gps2time(&in->t2); o->t[0] = time2gps_t((time_t)1460000000 + in->k[0] / 2); time_t x = 1200000000 + in->k[1] / 2; I[1] = unix_time_valid(&x); I[2] = unix_time_valid_with_wn_ref(&x, 1876); }
F(time_valid) { I[0] = gps_time_valid(&in->t2); I[1] = gps_current_time_valid(&in->t2); I[2] = gps_current_time_valid_with_wn_ref(&in->t2, (u16)in->t3.wn); I[3] = gpstime_in_range(&in->t, &in->t2, &in->t3); }
F(time_arith) { D[0] = gpsdifftime(&in->t2, &in->t3); I[0] = gpsdifftime_week_second(&in->t2, &in->t3, &o->dt); o->t[0] = in->t2; o->t[0].tow += 1e6 * in->f[0]; normalize_gps_time(&o->t[0]); o->t[1] = in->t3; add_secs(&o->t[1], 1e6 * in->f[1]); }
F(match_weeks) { o->t[0] = in->t2; o->t[0].wn = WN_UNKNOWN; I[0] = gps_time_match_weeks_safe(&o->t[0], &in->t3); I[1] = gps_adjust_week_cycle((u16)(in->k[0] % 1024), (u16)in->t.wn); I[2] = gps_adjust_week_cycle256((u16)(in->k[0] % 256), (u16)in->t.wn); }
F(epoch) { o->t[0] = round_to_epoch(&in->t2, 1 + in->k[0] % 10); o->t[1] = floor_to_epoch(&in->t2, 1 + in->k[0] % 10); }
F(decode_utc) { I[0] = decode_utc_parameters(in->words, &o->utc); }
F(decode_utc_wn) { I[0] = decode_utc_parameters_with_wn_ref(in->words, &o->utc, (u16)in->t.wn); }
F(sid_string) { I[0] = sid_to_string((char *)o->b, SID_STR_LEN_MAX, in->sid); I[1] = sat_code_to_string((char *)o->b + 64, 1, "-", in->sid.sat, in->sid.code); }
F(names) { const char *s = code_to_string(in->code); memcpy(o->b, s, strlen(s) + 1); I[0] = code_string_to_enum(in->name); constellation_t c = code_to_constellation(in->code); s = constellation_to_string(c); memcpy(o->b + 32, s, strlen(s) + 1); I[1] = constellation_string_to_enum(s); I[2] = c; s = sub_constellation_to_string((sub_constellation_t)(in->k[0] % SUB_CONSTELLATION_COUNT)); memcpy(o->b + 64, s, strlen(s) + 1); I[3] = sub_constellation_string_to_enum(s); }
F(carrier) { if (sid_to_constellation(in->sid) == CONSTELLATION_GLO && !glo_map_valid(in->sid)) { I[0] = -1; return; } D[0] = sid_to_carr_freq(in->sid); D[1] = sid_to_lambda(in->sid); }
F(signal) { code_t c = in->code; I[0] = code_to_chip_count(c); D[0] = code_to_chip_rate(c); I[1] = code_to_prn_period_ms(c); I[2] = code_requires_direct_acq(c); o->f[0] = code_to_sv_doppler_min(c); o->f[1] = code_to_sv_doppler_max(c); o->f[2] = code_to_phase_alignment(c); I[3] = code_to_sig_count(c); I[4] = code_requires_decoder(c); I[5] = sid_valid(in->sid); I[6] = sid_to_code_index(in->sid); I[7] = sid_compare(in->sid, in->sids[0]); I[8] = (long long)sid_hash(in->sid); I[9] = get_sbas_system(construct_sid(CODE_SBAS_L1CA, (u16)(120 + in->k[0] % 20))); }
F(glo_map) { u16 a = 0, b = 0; I[0] = sid_to_constellation(in->sid) == CONSTELLATION_GLO && glo_map_valid(in->sid); I[1] = I[0] ? glo_map_get_fcn(in->sid) : 0; I[2] = glo_map_get_slot_id((u16)(1 + in->k[0] % 14), &a, &b); I[3] = a; I[4] = b; }
F(get_glonass_bias) { D[0] = get_glonass_bias(in->k[0] % 2 ? CODE_GLO_L1OF : CODE_GLO_L2P, in->gb); I[0] = glonass_biases_are_equal(in->gb, in->gb2); I[1] = is_bias_mask_flag_set(in->gb.mask, 2); }
F(bits) { I[0] = getbitu(in->by, in->k[0] % 900, (u8)(in->k[1] % 33)); I[1] = (long long)getbitul(in->by, in->k[2] % 900, (u8)(in->k[3] % 65)); I[2] = getbits(in->by, in->k[4] % 900, (u8)(1 + in->k[5] % 32)); I[3] = getbitsl(in->by, in->k[6] % 900, (u8)(1 + in->k[7] % 64)); I[4] = parity(in->u); I[5] = bytes_interleave(in->by[0], in->by[1]); I[6] = count_bits_u64(((u64)in->u << 32) | in->words[0], 1); }
F(setbits) { memcpy(o->b, in->by, 256); setbitu(o->b, in->k[0] % 900, in->k[1] % 33, in->u); setbitul(o->b, in->k[2] % 900, in->k[3] % 65, ((u64)in->u << 32) | in->words[1]); setbitsl(o->b, in->k[4] % 900, 1 + in->k[5] % 64, in->sl[0]); }
F(bitcopy) { memcpy(o->b, in->by, 256); bitcopy(o->b + 64, in->k[0] % 100, in->by, in->k[1] % 100, in->k[2] % 700); bitshl(o->b + 200, 40, in->k[3] % 200); }
F(crc24q) { I[0] = crc24q(in->by, in->k[0] % 257, in->u & 0xffffff); I[1] = crc24q_bits(in->u & 0xffffff, in->by, in->k[1] % 2000, in->k[2] % 2); }
F(bitstream) { swiftnav_in_bitstream_t s; swiftnav_in_bitstream_init(&s, in->by, 800); u32 x = 9; u64 y = 9; I[0] = swiftnav_in_bitstream_getbitu(&s, &x, in->k[0] % 700, 17); swiftnav_in_bitstream_remove(&s, in->k[1] % 60); I[2] = swiftnav_in_bitstream_getbitul(&s, &y, in->k[2] % 700, 41); I[3] = swiftnav_in_bitstream_remaining(&s); I[4] = x; I[5] = (long long)y; }
F(bytestream) { swiftnav_bytestream_t s; swiftnav_bytestream_init(&s, in->by, 90); u32 x = 9; s16 y = 9; u64 z = 9; I[0] = swiftnav_bytestream_decode_u32(&s, &x); swiftnav_bytestream_remove(&s, in->k[1] % 70); I[2] = swiftnav_bytestream_decode_s16(&s, &y); I[3] = swiftnav_bytestream_decode_u64(&s, &z); I[4] = x; I[5] = y; I[6] = (long long)z; I[7] = swiftnav_bytestream_remaining(&s); }
F(sid_set) { o->set = in->set; sid_set_add(&o->set, in->sids[1]); sid_set_remove(&o->set, in->sids[3]); I[0] = sid_set_get_sat_count(&in->set); I[1] = sid_set_get_sig_count(&in->set); I[2] = sid_set_contains(&in->set, in->sid); }
F(sets) { s32 k = in->set2[3]; I[0] = is_set(12, 4, in->set1, cmp_s32_s32); I[1] = intersection(12, 4, in->set1, o->w, 12, 4, in->set2, o->w + 16, cmp_s32_s32); I[2] = insert_element(12, 4, in->set1, o->w + 32, &k, cmp_s32_s32); I[3] = remove_element(12, 4, in->set1, o->b + 256, &k, cmp_s32_s32); }
F(health) { I[0] = check_8bit_health_word((u8)in->k[0], CODE_GPS_L1CA); I[1] = check_6bit_health_word((u8)(in->k[1] % 64), CODE_GPS_L2CM); I[2] = check_alma_page25_health_word((u8)in->k[0], CODE_GPS_L1P); I[3] = check_nav_dhi((u8)in->k[3], (u8)in->k[4]); shm_gps_decode_shi_ephemeris(in->u, o->b); }
F(nav_meas) { const navigation_measurement_t *m = &in->nm[in->k[0] % NM]; D[0] = nav_meas_cor_sat_clk_on_pseudorange(m); D[1] = nav_meas_cor_sat_clk_on_measured_doppler(m); D[2] = nav_meas_cor_sat_clk_on_carrier_phase(m); I[0] = encode_lock_time(m->lock_time * 100); D[3] = decode_lock_time((u8)(in->k[1] % 16)); I[1] = pseudorange_valid(m); I[2] = nav_meas_cmp(m, &in->nm[3]); I[3] = nav_meas_equal(m, &in->nm[3]); }
F(bounded) { I[0] = memcpy_s(o->b, 100, in->by, (size_t)(in->k[0] % 120)); I[1] = (long long)swift_strnlen(in->name, (size_t)(in->k[1] % 32)); }
F(calc_PVT) { sid_set_init(&o->set); I[0] = calc_PVT((u8)(6 + in->k[0] % 7), in->nm, &in->t, in->k[1] % 2, in->k[2] % 2, &in->mask, (enum processing_strategy_t)(in->k[3] % 4), &o->so, &o->dop, &o->set); }
F(calc_PVT_raim) { sid_set_init(&o->set); I[0] = calc_PVT(NM, in->nm, &in->t, false, false, &in->mask, ALL_CONSTELLATIONS, &o->so, &o->dop, &o->set); }
F(counts) { I[0] = count_bits_u8(in->by[0], in->k[0] % 2); I[1] = count_bits_u16((u16)in->u, in->k[1] % 2); I[2] = count_bits_u32(in->u, in->k[2] % 2); I[3] = double_within(in->x[0], in->y[0], 9); I[4] = double_approx_eq(in->x[0], in->x[0] + 1e-13 * in->k[0]); I[5] = get_max_channels(); I[6] = get_geoid_model(); }
F(days_in_month) { for (int i = 0; i < 12; i++) I[i] = days_in_month((u16)(1996 + in->k[i % 4] % 9), (u8)(1 + (in->k[4 + i % 4] + i / 4) % 12)); I[12] = days_in_month(in->tm.year, in->tm.month); I[13] = is_leap_year(in->tm.year); }
F(normalize) { o->t[0] = in->t2, o->t[0].tow -= 700000 * fabs(in->f[0]); normalize_gps_time_safe(&o->t[0]); o->t[1] = in->t3, o->t[1].tow += 700000 * fabs(in->f[1]); unsafe_normalize_gps_time(&o->t[1]); o->dt.weeks = 4, o->dt.seconds = 1e6 * in->f[2]; normalize_gps_time_duration(&o->dt); o->t[2] = in->t2; o->t[2].wn = (s16)(in->t3.wn - 1); gps_time_match_weeks(&o->t[2], &in->t3); }
F(date2gps_params) { o->t[0] = date2gps_params(in->tm.year, in->tm.month, in->tm.month_day, in->tm.hour, in->tm.minute, in->tm.second_int, &in->utc); }
F(constellations) { for (int i = 0; i < 16; i++) { code_t c = in->sids[i].code; I[i] = is_gps(c) + 2 * is_glo(c) + 4 * is_sbas(c) + 8 * is_bds2(c) + 16 * is_gal(c) + 32 * is_qzss(c) + 64 * constellation_valid(code_to_constellation(c)); } I[16] = sub_constellation_to_constellation((sub_constellation_t)(in->k[0] % SUB_CONSTELLATION_COUNT)); }
static void pick(void *c, u32 n, const void *a, const void *b) { ((u32 *)c)[n] = (u32)(*(const s32 *)a * 100 + *(const s32 *)b); }
F(set_map) { s32 k = in->set2[5]; gnss_signal_t q[16]; memcpy(q, in->sids, sizeof q); I[0] = intersection_map(12, 4, in->set1, 12, 4, in->set2, cmp_s32_s32, o->w, pick); I[1] = insertion_index(12, 4, in->set1, &k, cmp_s32_s32); I[2] = is_sid_set(3, q); }
F(matrix_copy) { matrix_copy(SZ(0), SZ(1), in->x, D); memcpy(D + 64, in->x, 8 * SZ(2) * SZ(2)); matrix_triu(SZ(2), D + 64); vector_add(20, in->x, in->y, D + 130); vector_subtract(20, in->x, in->y, D + 160); }
F(std_equal) { measurement_std_t a = {in->sid, 1, in->f[0], 2, 3}, b = {in->sids[2], 1, in->f[in->k[0] % 2], 2, 3}; I[0] = measurement_std_equal(&a, &a); I[1] = measurement_std_equal(&a, &b); I[2] = nav_meas_flags_valid((nav_meas_flags_t)(in->k[0] % 2048)); I[3] = nav_meas_flags_valid(in->nm[0].flags); }
F(fifo) { fifo_t f; fifo_init(&f, o->b + 256, 64); I[0] = fifo_write(&f, in->by, in->k[0] % 90); I[1] = fifo_read(&f, o->b, in->k[1] % 70); I[2] = fifo_write(&f, in->by + 90, in->k[2] % 70); I[3] = fifo_peek(&f, o->b + 80, in->k[3] % 70); I[4] = fifo_remove(&f, in->k[4] % 70); I[5] = fifo_length(&f); I[6] = fifo_space(&f); }
#define E(n) {#n, n##_}
static const struct { const char *n; void (*f)(const in_t *, out_t *); } FN[] = {
    E(calc_sat_state), E(calc_sat_state_orbit_type), E(calc_sat_state_n), E(calc_sat_az_el), E(calc_sat_doppler), E(ephemeris_status), E(ephemeris_params_valid),
    E(decode_ephemeris), E(decode_ephemeris_wn), E(decode_bds), E(decode_gal), E(decode_glo_1), E(decode_glo_2), E(decode_glo_3), E(decode_glo_4), E(decode_glo_5),
    E(error_detection_glo), E(ephemeris_equal), E(ephemeris_healthy), E(ura), E(get_bds2_iod_crc), E(get_tgd_correction), E(almanac_state), E(almanac_az_el),
    E(almanac_doppler), E(almanac_use), E(almanac_decode_week), E(almanac_decode_week_wn), E(almanac_decode_health), E(almanac_decode), E(calc_ionosphere), E(decode_iono), E(decode_bds_iono),
    E(calc_troposphere), E(geoid), E(wgsllh2ecef), E(wgsecef2llh), E(wgsecef2ned), E(wgsned2ecef), E(wgsecef2azel), E(ned_matrix), E(llhdeg),
    E(matrix_inverse), E(matrix_multiply), E(matrix_multiply_i), E(matrix_diag), E(matrix_wlsq), E(matrix_pseudoinverse), E(matrix_atwaiat), E(matrix_atawati), E(matrix_udu),
    E(matrix_misc), E(qrdecomp_square), E(qrsolve), E(qt_r), E(submatrix), E(vector), E(vector_distance), E(gps2utc), E(make_utc_tm), E(utc2gps), E(utc2date), E(date2),
    E(mjd2), E(gps2mjd), E(gps2date), E(utc_offset), E(glo2gps), E(gps2glo), E(utc2gmst), E(gps2doy), E(unix_time), E(time_valid), E(time_arith), E(match_weeks),
    E(epoch), E(decode_utc), E(decode_utc_wn), E(sid_string), E(names), E(carrier), E(signal), E(glo_map), E(get_glonass_bias), E(bits), E(setbits), E(bitcopy),
    E(crc24q), E(bitstream), E(bytestream), E(sid_set), E(sets), E(health), E(nav_meas), E(bounded), E(calc_PVT), E(calc_PVT_raim), E(counts), E(days_in_month), E(normalize), E(date2gps_params), E(constellations), E(set_map), E(matrix_copy), E(std_equal), E(fifo)};
#define NF ((int)(sizeof FN / sizeof *FN))

/* ---- outcomes: values of the fields, not the padding between them ---- */
static uint64_t H;
static void hb(const void *p, size_t n) {
  for (size_t i = 0; i < n; i++) H = (H ^ ((const u8 *)p)[i]) * 1099511628211ULL;
}
static void hd(const double *p, int n) {
  for (int i = 0; i < n; i++) {
    double x = isnan(p[i]) ? 12345.6789 : p[i];
    hb(&x, 8);
  }
}
#define HF(x) hb(&(x), sizeof(x))
static void ht(const gps_time_t *t) { hd(&t->tow, 1); HF(t->wn); }
static void hash(const out_t *o, long long h[2]) {
  H = 1469598103934665603ULL;
  hd(o->d, 192);
  hb(o->i, sizeof o->i);
  for (int i = 0; i < 4; i++) { double x = o->f[i]; hd(&x, 1); }
  hb(o->b, sizeof o->b), hb(o->w, sizeof o->w), hb(o->l, sizeof o->l);
  for (int i = 0; i < 3; i++) ht(&o->t[i]);
  hd(&o->dt.seconds, 1), HF(o->dt.weeks);
  hd(&o->utc.a0, 3), ht(&o->utc.tot), ht(&o->utc.t_lse), HF(o->utc.dt_ls), HF(o->utc.dt_lsf);
  HF(o->tm.year), HF(o->tm.year_day), HF(o->tm.month), HF(o->tm.month_day), HF(o->tm.week_day), HF(o->tm.hour), HF(o->tm.minute), HF(o->tm.second_int), hd(&o->tm.second_frac, 1);
  for (int i = 0; i < 3; i++) HF(o->glo[i].nt), HF(o->glo[i].n4), HF(o->glo[i].h), HF(o->glo[i].m), hd(&o->glo[i].s, 1);
  const ephemeris_t *e = &o->e;
  HF(e->sid.sat), HF(e->sid.code), ht(&e->toe), HF(e->ura), HF(e->fit_interval), HF(e->valid), HF(e->health_bits), HF(e->source);
  if (e->sid.code == CODE_GLO_L1OF) hd(&e->data.glo.gamma, 12), HF(e->data.glo.fcn), HF(e->data.glo.iod);
  else if (e->sid.code == CODE_SBAS_L1CA) hd(e->data.xyz.pos, 11);
  else HF(e->data.kepler.tgd), hd(&e->data.kepler.crc, 18), ht(&e->data.kepler.toc), HF(e->data.kepler.iodc), HF(e->data.kepler.iode);
  const almanac_t *a = &o->a;
  HF(a->sid.sat), HF(a->sid.code), ht(&a->toa), HF(a->ura), HF(a->fit_interval), HF(a->valid), HF(a->health_bits), hd(&a->data.kepler.m0, 9);
  ht(&o->io.toa), hd(&o->io.a0, 8);
  HF(o->sid.sat), HF(o->sid.code), HF(o->set);
  const gnss_solution *s = &o->so;
  hd(s->pos_llh, 30), ht(&s->time), HF(s->valid), HF(s->velocity_valid), HF(s->n_sats_used), HF(s->n_sigs_used);
  hd(&o->dop.pdop, 5);
  HF(o->rw.wna), HF(o->rw.toa), HF(o->ah);
  H ^= H >> 29;
  h[0] = (long long)(H & 0x3fffffff), h[1] = (long long)((H >> 32) & 0x3fffffff);
}

/* ---- one call in guarded storage ---- */
#define GUARD 256
typedef struct {
  int f, v;
  u8 g0[GUARD];
  in_t in;
  u8 g1[GUARD];
  out_t o;
  u8 g2[GUARD];
} call_t;
static in_t pristine[3];
static call_t *cl; /* shared with the processes that run one call each */
static void prep(int c, int f, int v) {
  call_t *x = &cl[c];
  x->f = f, x->v = v;
  memset(x->g0, 0x3c, GUARD), memset(x->g1, 0x3c, GUARD), memset(x->g2, 0x3c, GUARD);
  mk(v, &x->in);
  memcpy(&pristine[c], &x->in, sizeof x->in);
  memset(&x->o, v & 1 ? 0xA5 : 0x42, sizeof x->o);
}
__attribute__((noinline)) static void perform(call_t *x) { FN[x->f].f(&x->in, &x->o); }
static char *key(int c) {
  static char b[3][64];
  snprintf(b[c], 64, "%s#%d", FN[cl[c].f].n, cl[c].v);
  return b[c];
}
static void outcome(int c) {
  call_t *x = &cl[c];
  long long h[2];
  hash(&x->o, h);
  int g = 1;
  for (int i = 0; i < GUARD; i++) g &= x->g0[i] == 0x3c && x->g1[i] == 0x3c && x->g2[i] == 0x3c;
  tr_s("f", key(c));
  tr_ai("r", h, 2);
  tr_i("in", memcmp(&x->in, &pristine[c], sizeof x->in) == 0);
  tr_i("g", g);
}
/* ---- registry ---- */
static void reg(int r) {
  glo_map_clear_all();
  if (r == 1) for (int s = 1; s <= 28; s++) glo_map_set_slot_id((u16)(1 + (s * 5) % 14), (u16)s);
  if (r == 2) for (int s = 2; s <= 28; s += 2) glo_map_set_slot_id((u16)(1 + s % 14), (u16)s);
}
/* the first call of a process: a server forked before anything was called
   forks a process for each */
static int to_srv[2], from_srv[2];
typedef struct { int r, c; } req_t;
static void server(void) {
  if (pipe(to_srv) || pipe(from_srv)) exit(77);
  if (fork()) {
    close(to_srv[0]), close(from_srv[1]);
    return;
  }
  close(to_srv[1]), close(from_srv[0]);
  req_t q;
  while (read(to_srv[0], &q, sizeof q) == sizeof q) {
    pid_t p = fork();
    if (p == 0) {
      if (q.r) reg(q.r);
      perform(&cl[q.c]);
      _exit(0);
    }
    int st = 1;
    if (p < 0 || waitpid(p, &st, 0) < 0) st = 1;
    if (write(from_srv[1], &st, sizeof st) != sizeof st) break;
  }
  _exit(0);
}
static void fresh(int r, int f, int v) {
  prep(0, f, v);
  req_t q = {r, 0};
  int st;
  if (write(to_srv[1], &q, sizeof q) != sizeof q || read(from_srv[0], &st, sizeof st) != sizeof st) exit(77);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "call %s#%d died\n", FN[f].n, v); abort(); }
  tr_begin("fresh");
  outcome(0);
  tr_end();
}

/* ---- pre-emption after chosen numbers of instructions ---- */
static ucontext_t cmain, cth[2];
static uint8_t stk[2][1 << 19];
static volatile int cur = -1, done[2], freerun;
static volatile long budget[2], steps[2];
static void tf_on(void) { __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void tf_off(void) { __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void on_trap(int s, siginfo_t *si, void *u) {
  int me = cur;
  if (me < 0) return;
  steps[me]++;
  if (--budget[me] <= 0) {
    cur = -1;
    swapcontext(&cth[me], &cmain);
    if (freerun) ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
  }
}
static void body(int me) {
  if (!freerun) tf_on();
  perform(&cl[me]);
  tf_off();
  done[me] = 1;
  cur = -1;
  setcontext(&cmain);
}
static void go(int t, long n) {
  budget[t] = n;
  cur = t;
  swapcontext(&cmain, &cth[t]);
  cur = -1;
}
static void start(int t) {
  getcontext(&cth[t]);
  cth[t].uc_stack.ss_sp = stk[t];
  cth[t].uc_stack.ss_size = sizeof stk[t];
  cth[t].uc_link = NULL;
  makecontext(&cth[t], (void (*)(void))body, 1, t);
  done[t] = 0, steps[t] = 0;
}
static long slen[NF];
#define LONGEST 400000
static long length_of(int f, int v) { /* instructions of the call, measured once */
  if (slen[f]) return slen[f];
  prep(0, f, v);
  freerun = 0;
  start(0);
  go(0, LONGEST);
  freerun = 1;
  if (!done[0]) go(0, 1L << 40);
  freerun = 0;
  return slen[f] = steps[0];
}
static const char *PN[] = {"a", "b", "c"};
static void ev(const char *e, int c) { tr_begin(e); tr_s("p", PN[c]); tr_s("f", key(c)); tr_end(); }
static void ret(int c) { tr_begin("return"); tr_s("p", PN[c]); outcome(c); tr_end(); }
static void seqcall(int c, int f, int v) {
  prep(c, f, v);
  ev("enter", c);
  perform(&cl[c]);
  ret(c);
}
/* a runs k instructions, b runs m instructions (all of them if m is 0), a finishes, b finishes */
static void nest(int fa, int va, long k, int fb, int vb, long m) {
  prep(0, fa, va);
  prep(1, fb, vb);
  start(0), start(1);
  freerun = 0;
  ev("enter", 0);
  go(0, k);
  if (done[0]) ret(0);
  ev("enter", 1);
  if (!m) freerun = 1, go(1, 1L << 40); else go(1, m);
  if (done[1]) ret(1);
  freerun = 1;
  if (!done[0]) { go(0, 1L << 40); ret(0); }
  if (!done[1]) { go(1, 1L << 40); ret(1); }
  freerun = 0;
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(strtoull(argv[3], NULL, 10));
  cl = mmap(NULL, 3 * sizeof *cl, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (cl == MAP_FAILED) exit(77);
  server();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
  int groups = quick ? 26 : 160;
  for (int g = 0; g < groups; g++) {
    enum { FS = 8, VS = 8 };
    int fs[FS], vs[FS][VS];
    for (int i = 0; i < FS; i++) {
      fs[i] = i < 4 ? (g * 4 + i) % NF : (int)rnd(NF);
      int b = (int)rnd(NB), q = (b + 6 * (1 + (int)rnd(3))) % NB;
      int fam[VS] = {b, b + NB, b + 2 * NB, q, q + NB, q + 2 * NB, (int)rnd(NV), (int)rnd(NV)};
      memcpy(vs[i], fam, sizeof fam);
    }
    int r0 = (int)rnd(3);
    tr_begin("begin"); tr_end();
    static char have[3][NF][NV];
    memset(have, 0, sizeof have);
    for (int r = 0; r < 3; r++) {
      if (r != r0 && (g + r) % 3) continue;
      tr_begin("process"); tr_i("g", r); tr_end();
      for (int i = 0; i < FS; i++) for (int j = 0; j < VS; j++) if (!have[r][fs[i]][vs[i][j]]) fresh(r, fs[i], vs[i][j]), have[r][fs[i]][vs[i][j]] = 1;
    }
    reg(r0);
    tr_begin("map"); tr_i("g", r0); tr_end();
    for (int k = 0; k < 200; k++) {
      int i = (int)rnd(FS);
      seqcall(rnd(2), fs[i], vs[i][rnd(4) ? rnd(VS) : rnd(3)]);
      if (rnd(40) == 0) {
        int r = (int)rnd(3);
        if (!have[r][fs[0]][vs[0][0]]) continue;
        reg(r);
        tr_begin("map"); tr_i("g", r); tr_end();
      }
    }
    int nn = quick ? 40 : 150;
    for (int k = 0; k < nn; k++) {
      int i = (int)rnd(k % 2 ? 4 : FS), q = rnd(3) ? i : (int)rnd(FS);
      int va = vs[i][rnd(VS)], vb = vs[q][rnd(VS)];
      long n = length_of(fs[i], va), m = length_of(fs[q], vb);
      long x = 1 + rnd((uint32_t)n), y = 1 + rnd((uint32_t)m);
      if (n > 60000 && rnd(4)) x = 1 + rnd(60000);
      nest(fs[i], va, x, fs[q], vb, rnd(2) && y < 60000 ? y : 0);
    }
  }
  tr_close();
  return 0;
}
