/* Satellite state from ephemerides and almanacs. */
#include "fx.h"
#include <swiftnav/almanac.h>
#include <swiftnav/constants.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
struct st { double pos[3], vel[3], acc[3], clk, rate; };
static double dy(double lo, double hi) { return floor(uni(lo, hi) * 1024) / 1024; } /* exact */
static gps_time_t plus(gps_time_t t, double s) {
  t.tow += s;
  while (t.tow < 0) { t.tow += 604800; t.wn--; }
  while (t.tow >= 604800) { t.tow -= 604800; t.wn++; }
  return t;
}
static double apart(gps_time_t a, gps_time_t b) { return (double)(a.wn - b.wn) * 604800 + (a.tow - b.tow); }
static void state(const struct st *s) {
  tr_fxv("pos", s->pos, 3, -6); tr_fxv("vel", s->vel, 3, -3); tr_fxv("acc", s->acc, 3, 0);
  tr_fx("clk", s->clk, 6); tr_fx("rate", s->rate, 9);
}
static double mostly(double v) { return rnd(8) ? v : 0; }
static double pm(double v) { return mostly(uni(-v, v)); }
static void observer(double r[3]) {
  double z = uni(-1, 1), a = uni(-M_PI, M_PI), p = sqrt(1 - z * z), R = uni(6.355e6, 6.385e6);
  r[0] = R * p * cos(a); r[1] = R * p * sin(a); r[2] = R * z;
}
static void az_event(const double ref[3], const double pos[3], double az, double el) {
  double g[3];
  wgsecef2llh(ref, g);
  tr_begin("az"); tr_fxv("r", ref, 3, -6); tr_fxv("v", pos, 3, -6);
  fprintf(TR, ",\"g\":["); fx_put(g[0], 0); fputc(',', TR); fx_put(g[1], 0); fputc(',', TR); fx_put(g[2], -6); fputc(']', TR);
  tr_fx("a", az, 0); tr_fx("el", el, 0); tr_end();
}
static void dop_event(double f, const struct st *s, const double ref[3], const double vr[3], double d) {
  tr_begin("dop"); tr_fx("f", f, -6); tr_fxv("p", s->pos, 3, -6); tr_fxv("v", s->vel, 3, -3);
  tr_fxv("q", ref, 3, -6); tr_fxv("u", vr, 3, -3); tr_fx("d", d, -3); tr_end();
}
static void kep_event(const char *c, int geo, const ephemeris_kepler_t *k, float tgd, double toe, double de, double dc, const struct st *s) {
  tr_begin("kep"); tr_s("c", c); tr_i("geo", geo);
  tr_fx("sa", k->sqrta, -3); tr_fx("ecc", k->ecc, 0); tr_fx("m0", k->m0, 0); tr_fx("w", k->w, 0); tr_fx("om0", k->omega0, 0); tr_fx("in", k->inc, 0);
  tr_fx("dn", k->dn, 3); tr_fx("omd", k->omegadot, 3); tr_fx("ind", k->inc_dot, 3);
  tr_fx("cus", k->cus, 0); tr_fx("cuc", k->cuc, 0); tr_fx("cis", k->cis, 0); tr_fx("cic", k->cic, 0); tr_fx("crs", k->crs, -6); tr_fx("crc", k->crc, -6);
  tr_fx("af0", k->af0, 6); tr_fx("af1", k->af1, 9); tr_fx("af2", k->af2, 12); tr_fx("tgd", tgd, 6);
  tr_fx("toe", toe, -3); tr_fx("de", de, -3); tr_fx("dc", dc, -3);
  state(s); tr_end();
}
static double toe_tow(void) {
  switch (rnd(6)) {
    case 0: return rnd(16);
    case 1: return 604799 - rnd(16);
    case 2: return 16.0 * rnd(37800);
    case 3: return 600.0 * rnd(1008);
    default: return 3600.0 * rnd(168);
  }
}
static double offset(double fit) {
  switch (rnd(8)) {
    case 0: return 0;
    case 1: return dy(-fit, fit) * 4;
    case 2: return dy(-0.5, 0.5);
    default: return dy(-fit, fit) * 0.625;
  }
}
static const struct { code_t c; const char *n; int nsat; } SIG[] = {
  {CODE_GPS_L1CA, "gps", 32}, {CODE_GPS_L2CM, "gps", 32}, {CODE_GPS_L5I, "gps", 32}, {CODE_QZS_L1CA, "qzs", 7}, {CODE_GAL_E1B, "gal", 36}, {CODE_GAL_E5I, "gal", 36},
  {CODE_GAL_E7I, "gal", 36}, {CODE_BDS2_B1, "bds", 63}, {CODE_BDS2_B2, "bds", 63}, {CODE_BDS3_B1CI, "bds", 63}, {CODE_BDS3_B5I, "bds", 63}};
static void ways(const ephemeris_t *e, const gps_time_t *t, satellite_orbit_type_t o, const struct st *s, int rcn) {
  struct st a, m;
  double ref[3], vr[3] = {0, 0, 0}, az = 99, el = 99, au = 99, eu = 99, d = 99;
  observer(ref);
  if (rnd(3)) for (int i = 0; i < 3; i++) vr[i] = uni(-300, 300);
  memset(&a, 0, sizeof a); memset(&m, 0, sizeof m);
  ephemeris_t e0 = *e;
  s8 rct = calc_sat_state_orbit_type(e, t, o, a.pos, a.vel, a.acc, &a.clk, &a.rate);
  s8 rcm = calc_sat_state(e, t, m.pos, m.vel, m.acc, &m.clk, &m.rate);
  s8 rca = calc_sat_az_el(e, t, ref, o, &az, &el, true);
  s8 rcu = calc_sat_az_el(e, t, ref, o, &au, &eu, false);
  s8 rcd = calc_sat_doppler(e, t, ref, vr, o, &d);
  struct st mm;
  memset(&mm, 0, sizeof mm);
  calc_sat_state_n(e, t, MEO, mm.pos, mm.vel, mm.acc, &mm.clk, &mm.rate);
  tr_begin("way"); tr_i("st", ephemeris_valid_detailed(e, t)); tr_i("valid", EPH_VALID); tr_i("rcn", rcn); tr_i("rct", rct); tr_i("rcm", rcm); tr_i("rca", rca);
  tr_i("rcu", rcu); tr_i("rcd", rcd); tr_i("samet", !memcmp(&a, s, sizeof a) && !memcmp(&e0, e, sizeof e0)); tr_i("samem", !memcmp(&m, &mm, sizeof m)); tr_end();
  if (rca == 0) az_event(ref, s->pos, az, el);
  if (rcu == 0 && rca) az_event(ref, s->pos, au, eu);
  if (rcd == 0) dop_event(sid_to_carr_freq(e->sid), s, ref, vr, d);
}
static void kep(void) {
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  int j = rnd(sizeof SIG / sizeof *SIG);
  bool bds = !strcmp(SIG[j].n, "bds"), qzs = !strcmp(SIG[j].n, "qzs");
  satellite_orbit_type_t o = MEO;
  if (bds) o = (satellite_orbit_type_t)rnd(3);
  else if (rnd(4) == 0) o = (satellite_orbit_type_t)rnd(3);
  bool geo = bds && o == GEO, high = geo || qzs || (bds && o == IGSO);
  e.sid = construct_sid(SIG[j].c, (u16)((qzs ? 193 : 1) + rnd((u32)SIG[j].nsat)));
  ephemeris_kepler_t *k = &e.data.kepler;
  k->sqrta = high ? uni(6490, 6500) : uni(5100, 5450);
  k->ecc = rnd(4) ? uni(0, qzs ? 0.1 : 0.02) : rnd(3) ? uni(0, 0.17) : 0;
  if (geo) k->ecc = uni(0, 0.001);
  k->m0 = uni(-M_PI, M_PI); k->w = uni(-M_PI, M_PI); k->omega0 = uni(-M_PI, M_PI);
  k->inc = geo ? uni(0, 0.2) : high ? uni(0.5, 1) : uni(0.9, 1);
  if (rnd(16) == 0) k->inc = uni(0, 2);
  k->dn = pm(6e-9); k->omegadot = pm(9e-9); k->inc_dot = pm(1.2e-9);
  k->cus = pm(3e-5); k->cuc = pm(3e-5); k->cis = pm(1e-6); k->cic = pm(1e-6); k->crs = pm(900); k->crc = pm(900);
  k->af0 = pm(9.7e-4); k->af1 = pm(4e-9); k->af2 = rnd(3) ? 0 : pm(3.5e-15);
  k->tgd.gps_s[0] = (float)pm(5e-8); k->tgd.gps_s[1] = (float)pm(5e-8);
  e.toe.wn = (s16)(1 + rnd(3000)); e.toe.tow = toe_tow();
  e.fit_interval = bds || !strcmp(SIG[j].n, "gal") ? 14400 : 14400;
  k->toc = rnd(4) ? e.toe : plus(e.toe, dy(-7200, 7200));
  gps_time_t t = plus(e.toe, offset(7200));
  k->iode = (u16)rnd(200); k->iodc = k->iode;
  e.valid = rnd(12) != 0; e.ura = 2; e.source = rnd(2) ? EPH_SOURCE_GPS_LNAV : EPH_SOURCE_GAL_INAV;
  if (bds) e.source = EPH_SOURCE_BDS_D1_D2_NAV;
  float tgd = 0;
  s8 rt = get_tgd_correction(&e, &e.sid, &tgd);
  struct st s;
  memset(&s, 0, sizeof s);
  s8 rc = calc_sat_state_n(&e, &t, o, s.pos, s.vel, s.acc, &s.clk, &s.rate);
  if (rt) return;
  kep_event(SIG[j].n, o == GEO, k, tgd, e.toe.tow, apart(t, e.toe), apart(t, k->toc), &s);
  ways(&e, &t, o, &s, rc);
}
static void glo(void) {
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid = construct_sid(rnd(2) ? CODE_GLO_L1OF : CODE_GLO_L2OF, (u16)(1 + rnd(24)));
  ephemeris_glo_t *g = &e.data.glo;
  double z = uni(-1, 1), a = uni(-M_PI, M_PI), p = sqrt(1 - z * z), R = rnd(8) ? uni(2.53e7, 2.57e7) : uni(2.4e7, 4e7), v[3], n;
  double x[3] = {R * p * cos(a), R * p * sin(a), R * z};
  for (int i = 0; i < 3; i++) v[i] = uni(-1, 1);
  n = (v[0] * x[0] + v[1] * x[1] + v[2] * x[2]) / R / R;
  for (int i = 0; i < 3; i++) v[i] -= n * x[i];
  n = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  for (int i = 0; i < 3; i++) { g->pos[i] = x[i]; g->vel[i] = v[i] / n * uni(3300, 3700); g->acc[i] = pm(5.6e-6); }
  if (rnd(3) == 0) g->vel[rnd(3)] += uni(-50, 50);
  g->tau = pm(1.9e-3); g->gamma = pm(1.8e-9); g->d_tau = pm(1.3e-8); g->fcn = (u16)(1 + rnd(14)); g->iod = (u8)rnd(128);
  e.toe.wn = (s16)(1 + rnd(3000)); e.toe.tow = rnd(3) ? 900.0 * rnd(672) + 18 : toe_tow();
  e.fit_interval = 2400; e.valid = rnd(12) != 0; e.ura = 5;
  double dt = rnd(6) ? dy(-1300, 1300) : rnd(2) ? dy(-1790, 1790) : rnd(2) ? 0 : 30.0 * ((int)rnd(60) - 30);
  gps_time_t t = plus(e.toe, dt);
  float tgd = 0;
  s8 rt = get_tgd_correction(&e, &e.sid, &tgd);
  struct st s;
  memset(&s, 0, sizeof s);
  glo_map_set_slot_id(e.sid.sat ? g->fcn : 1, e.sid.sat);
  s8 rc = calc_sat_state_n(&e, &t, MEO, s.pos, s.vel, s.acc, &s.clk, &s.rate);
  if (!rt) {
    tr_begin("glo"); tr_fxv("p0", g->pos, 3, -6); tr_fxv("v0", g->vel, 3, -3); tr_fxv("a0", g->acc, 3, 0);
    tr_fx("tau", g->tau, 6); tr_fx("gamma", g->gamma, 9); tr_fx("tgd", tgd, 6); tr_fx("de", dt, -3); state(&s); tr_end();
    ways(&e, &t, (satellite_orbit_type_t)rnd(3), &s, rc);
  }
  glo_map_clear_slot_id(e.sid.sat);
}
static void xyz(ephemeris_xyz_t *x) {
  double a = uni(-M_PI, M_PI);
  x->pos[0] = 42164e3 * cos(a); x->pos[1] = 42164e3 * sin(a); x->pos[2] = uni(-4e5, 4e5);
  for (int i = 0; i < 3; i++) { x->vel[i] = pm(40); x->acc[i] = pm(6e-3); }
  x->a_gf0 = pm(9e-7); x->a_gf1 = pm(1e-10);
}
static void sba_event(const ephemeris_xyz_t *x, double dt, const struct st *s) {
  tr_begin("sba"); tr_fxv("p0", x->pos, 3, -6); tr_fxv("v0", x->vel, 3, -3); tr_fxv("a0", x->acc, 3, 0);
  tr_fx("af0", x->a_gf0, 6); tr_fx("af1", x->a_gf1, 9); tr_fx("de", dt, -3); state(s); tr_end();
}
static void sba(void) {
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid = construct_sid(rnd(2) ? CODE_SBAS_L1CA : CODE_SBAS_L5I, (u16)(120 + rnd(39)));
  xyz(&e.data.xyz);
  e.toe.wn = (s16)(1 + rnd(3000)); e.toe.tow = toe_tow(); e.valid = rnd(12) != 0; e.fit_interval = 240;
  double dt = rnd(3) ? dy(-400, 400) : dy(-90000, 90000);
  gps_time_t t = plus(e.toe, dt);
  struct st s;
  memset(&s, 0, sizeof s);
  s8 rc = calc_sat_state_n(&e, &t, MEO, s.pos, s.vel, s.acc, &s.clk, &s.rate);
  sba_event(&e.data.xyz, dt, &s);
  ways(&e, &t, (satellite_orbit_type_t)rnd(3), &s, rc);
}
static void alm(void) {
  almanac_t a;
  memset(&a, 0, sizeof a);
  bool sb = rnd(4) == 0;
  a.sid = construct_sid(sb ? CODE_SBAS_L1CA : CODE_GPS_L1CA, (u16)(sb ? 120 + rnd(39) : 1 + rnd(32)));
  a.toa.wn = (s16)(rnd(12) ? 1 + rnd(3000) : 0); a.toa.tow = 4096.0 * rnd(148); a.ura = 900;
  a.fit_interval = rnd(12) ? 6 * 86400 : 0; a.valid = rnd(12) != 0;
  bool well = rnd(12) != 0;
  a.health_bits = well ? 0 : 0x1f; /* all signals bad */
  ephemeris_xyz_t x;
  ephemeris_kepler_t k;
  memset(&x, 0, sizeof x); memset(&k, 0, sizeof k);
  if (sb) {
    xyz(&x);
    x.a_gf0 = x.a_gf1 = 0;
    memcpy(a.data.xyz.pos, x.pos, sizeof x.pos); memcpy(a.data.xyz.vel, x.vel, sizeof x.vel); memcpy(a.data.xyz.acc, x.acc, sizeof x.acc);
  } else {
    a.data.kepler.m0 = k.m0 = uni(-M_PI, M_PI); a.data.kepler.ecc = k.ecc = uni(0, 0.03); a.data.kepler.sqrta = k.sqrta = uni(5140, 5160);
    a.data.kepler.omega0 = k.omega0 = uni(-M_PI, M_PI); a.data.kepler.omegadot = k.omegadot = pm(9e-9); a.data.kepler.w = k.w = uni(-M_PI, M_PI);
    a.data.kepler.inc = k.inc = uni(0.8, 1.1); a.data.kepler.af0 = k.af0 = pm(9e-4); a.data.kepler.af1 = k.af1 = pm(3e-9);
  }
  double lim = sb ? 300 : 300000, dt = dy(-lim, lim);
  if (a.fit_interval && fabs(fabs(dt) - 3 * 86400) < 1) dt = 0;
  gps_time_t t = plus(a.toa, dt);
  if (a.toa.wn == 0 && t.wn < 0) { t = a.toa; t.tow += 1; dt = 1; }
  struct st s;
  memset(&s, 0, sizeof s);
  double ref[3], z[3] = {0, 0, 0}, az = 99, el = 99, d = 99;
  observer(ref);
  almanac_t a0 = a;
  s8 rc = calc_sat_state_almanac(&a, &t, s.pos, s.vel, s.acc, &s.clk, &s.rate);
  s8 rca = calc_sat_az_el_almanac(&a, &t, ref, &az, &el);
  s8 rcd = calc_sat_doppler_almanac(&a, &t, ref, &d);
  tr_begin("alm"); tr_i("v", a.valid); tr_i("h", well); tr_i("wn", a.toa.wn > 0); tr_i("fit", a.fit_interval > 0); tr_i("near", sb || fabs(dt) <= a.fit_interval / 2.0);
  tr_i("rc", rc); tr_i("rca", rca); tr_i("rcd", rcd); tr_i("same", !memcmp(&a, &a0, sizeof a)); tr_end();
  if (rc) return;
  if (sb) sba_event(&x, dt, &s);
  else kep_event("gps", 0, &k, 0, a.toa.tow, dt, dt, &s);
  az_event(ref, s.pos, az, el);
  dop_event(sid_to_carr_freq(a.sid), &s, ref, z, d);
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + 7000);
  int n = q ? 500 : 5000;
  for (int i = 0; i < n; i++) {
    kep();
    if (i % 2 == 0) alm();
    if (i % 5 == 0) { glo(); sba(); }
  }
  tr_close();
  return 0;
}
