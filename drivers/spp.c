/* Single-epoch solver: measurements built from a known receiver state. */
#include <sys/wait.h>
#include <unistd.h>
#include "tr.h"
#include <swiftnav/constants.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
#include <swiftnav/single_epoch_solver.h>
#define MAXM 63
static int DIR[30][3];
typedef struct { int c, s, d, q, f, dop, el, pl, code, lk, e, v; } m_t;
typedef struct {
  int n, st, mon, mt, nr, nv, ax, alt, sp, sd, lock, fast;
  int bias[6], drift;
  m_t m[MAXM];
} case_t;
static const int CODES[] = {0, 1, 5, 6, 7, 8, 9, 10, 11, 3, 4, 12, 13, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55,
                            14, 15, 16, 20, 21, 22, 26, 27, 28, 31, 35, 36, 37, 38, 39, 40};
#define NC ((int)(sizeof CODES / sizeof *CODES))
static const char *ST[] = {"gps", "all", "l1ca", "l1"};
static const enum processing_strategy_t STE[] = {GPS_ONLY, ALL_CONSTELLATIONS, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY};
static void dirs(void) {
  int n = 0;
  for (int a = 0; a < 3; a++)
    for (int s = 3; s >= -3; s -= 6) { DIR[n][0] = DIR[n][1] = DIR[n][2] = 0; DIR[n++][a] = s; }
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 8; b++) {
      for (int i = 0; i < 3; i++) DIR[n][i] = (i == a ? 1 : 2) * ((b >> (2 - i)) & 1 ? -1 : 1);
      n++;
    }
}
static const double SPD[6][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0.6, 0, -0.8}, {1. / 3, -2. / 3, 2. / 3}, {-2. / 3, 1. / 3, 2. / 3}};
static double rxp[3], rxv[3], srange[MAXM];
static double sign_f[MAXM];
static long long tick(double v, double u) {
  double n = v / u;
  return isfinite(n) && fabs(n) < 2e9 ? (long long)nearbyint(n) : 2147483647LL;
}
static void build(const case_t *k, navigation_measurement_t *nm) {
  double a = k->ax == 3 ? 6356752.314245179 : 6378137.0;
  memset(rxp, 0, sizeof rxp);
  rxp[k->ax - 1] = a + k->alt;
  for (int i = 0; i < 3; i++) rxv[i] = k->sp / 100.0 * SPD[k->sd][i];
  for (int j = 0; j < k->n; j++) {
    const m_t *m = &k->m[j];
    navigation_measurement_t *x = &nm[j];
    memset(x, 0, sizeof *x);
    x->sid = construct_sid((code_t)m->c, (u16)m->s);
    int con = sid_to_constellation(x->sid);
    double r = srange[j] = 19000000.0 + rnd(7000000);
    double l[3], p[3], v[3];
    for (int i = 0; i < 3; i++) {
      l[i] = DIR[m->d - 1][i] / 3.0;
      p[i] = rxp[i] + r * l[i];
      v[i] = (double)(k->fast ? rnd(5001) : rnd(301)) - (k->fast ? 2500 : 150);
    }
    /* transmission frame: turn back by the rotation during the flight */
    double w = GPS_OMEGAE_DOT * r / GPS_C, c = cos(w), s = sin(w);
    x->sat_pos[0] = c * p[0] - s * p[1];
    x->sat_pos[1] = s * p[0] + c * p[1];
    x->sat_pos[2] = p[2];
    x->sat_vel[0] = c * v[0] - s * v[1];
    x->sat_vel[1] = s * v[0] + c * v[1];
    x->sat_vel[2] = v[2];
    x->sat_clock_err = ((double)rnd(2001) - 1000) * 1e-6;
    x->sat_clock_err_rate = ((double)rnd(201) - 100) * 1e-11;
    double pdot = 0;
    for (int i = 0; i < 3; i++) pdot += l[i] * (v[i] - rxv[i]);
    pdot += k->drift * 0.01 + m->v * 1e-3;
    double lam = sid_to_lambda(x->sid), f = GPS_C / lam;
    x->raw_pseudorange = r + k->bias[con] * 1e-9 * GPS_C - x->sat_clock_err * GPS_C + m->e * 0.01;
    sign_f[j] = 0;
    if (m->f == 2) pdot += (rnd(2) ? 1 : -1) * (2000.0 + rnd(50000));
    if (m->f == 1) {
      sign_f[j] = (rnd(2) ? 1 : -1) * (2e5 + rnd(800000));
      x->raw_pseudorange += sign_f[j];
    }
    x->raw_measured_doppler = m->dop ? -pdot / lam + x->sat_clock_err_rate * f : 1e7;
    x->raw_computed_doppler = 12345;
    x->raw_carrier_phase = 999;
    x->cn0 = m->q / 10.0;
    x->lock_time = k->lock < 0 ? m->lk / 10.0 : k->lock;
    x->elevation = m->el;
    x->tot.wn = 2000;
    x->tot.tow = 1000;
    x->flags = (m->code ? NAV_MEAS_FLAG_CODE_VALID : 0) | (m->pl ? NAV_MEAS_FLAG_PHASE_VALID : 0) |
               (m->dop ? NAV_MEAS_FLAG_MEAS_DOPPLER_VALID : NAV_MEAS_FLAG_COMP_DOPPLER_VALID) |
               NAV_MEAS_FLAG_CN0_VALID | NAV_MEAS_FLAG_HALF_CYCLE_KNOWN;
  }
}
static void emit_case(const case_t *k) {
  fprintf(TR, ",\"ms\":[");
  for (int j = 0; j < k->n; j++)
    fprintf(TR, "%s{\"c\":%d,\"s\":%d,\"d\":%d,\"q\":%d,\"f\":%d,\"dop\":%d,\"el\":%d,\"pl\":%d}", j ? "," : "", k->m[j].c, k->m[j].s,
            k->m[j].d, k->m[j].q, k->m[j].f, k->m[j].dop, k->m[j].el == 30, k->m[j].pl);
  fprintf(TR, "]");
  tr_s("st", ST[k->st]);
  fprintf(TR, ",\"mask\":{\"on\":%d,\"t\":%d}", k->mon, k->mt);
  tr_i("nr", k->nr); tr_i("nv", k->nv); tr_i("ax", k->ax); tr_i("alt", k->alt); tr_i("sp", k->sp);
  tr_i("lk", k->lock); tr_i("fd", k->drift);
  fprintf(TR, ",\"b\":[%d,%d,%d,%d,%d,%d]", k->bias[0], k->bias[1], k->bias[2], k->bias[3], k->bias[4], k->bias[5]);
}
static void run(const case_t *k) {
  static navigation_measurement_t store[MAXM];
  build(k, store);
  navigation_measurement_t *nm = malloc((k->n ? k->n : 1) * sizeof *nm), *ref = malloc((k->n ? k->n : 1) * sizeof *nm);
  memcpy(nm, store, k->n * sizeof *nm);
  memcpy(ref, store, k->n * sizeof *nm);
  gnss_solution so;
  dops_t d;
  gnss_sid_set_t rem;
  memset(&so, 0x55, sizeof so);
  so.valid = so.velocity_valid = 1;
  memset(&d, 0x55, sizeof d);
  sid_set_init(&rem);
  static const double TOW[] = {0, 1e-4, 302400, 604799.9999, 345678.25};
  gps_time_t tor = {.tow = TOW[rnd(5)], .wn = 2000};
  obs_mask_config_t mask;
  mask.cn0_mask.enable = k->mon;
  mask.cn0_mask.threshold_dbhz = k->mt / 10.0f;
  int null = rnd(4) == 0;
  int rc = calc_PVT((u8)k->n, nm, &tor, k->nr, k->nv, &mask, STE[k->st], &so, &d, null ? NULL : &rem);
  tr_begin("spp");
  emit_case(k);
  tr_i("rc", rc); tr_i("val", so.valid); tr_i("vv", so.velocity_valid);
  int same = 1;
  for (int j = 0; j < k->n; j++) same &= memcmp(&nm[j], &ref[j], sizeof *nm) == 0;
  tr_i("same", same);
  tr_i("ns", so.n_sats_used); tr_i("ng", so.n_sigs_used);
  if (rc >= 0) {
    double pe = 0, ve = 0, vl = 0;
    for (int i = 0; i < 3; i++) {
      pe += (so.pos_ecef[i] - rxp[i]) * (so.pos_ecef[i] - rxp[i]);
      ve += (so.vel_ecef[i] - rxv[i]) * (so.vel_ecef[i] - rxv[i]);
    }
    tr_i("pe", tick(sqrt(pe), 1e-4)); tr_i("ve", tick(sqrt(ve), 1e-3));
    /* velocity in axis components of the local level frame, cm/s */
    long long e[3], nd[3];
    for (int i = 0; i < 3; i++) { e[i] = tick(so.vel_ecef[i], 1e-2); nd[i] = tick(so.vel_ned[i], 1e-2); }
    tr_ai("ev", e, 3); tr_ai("nv3", nd, 3);
    tr_i("h", tick(so.pos_llh[2], 1e-2));
    tr_i("td", tick(gpsdifftime(&tor, &so.time), 1e-10));
    tr_i("tn", so.time.tow >= 0 && so.time.tow < 604800);
    tr_i("co", tick(so.clock_offset, 1e-10));
    tr_i("cd", tick(so.clock_drift * GPS_C, 1e-3));
    double q[5] = {d.pdop, d.tdop, d.gdop, d.vdop, d.hdop};
    long long dq[5];
    for (int i = 0; i < 5; i++) dq[i] = tick(q[i] * q[i], 1e-4);
    tr_ai("dop", dq, 5);
    long long cv[6], cw[6];
    double lam = k->n ? sid_to_lambda(nm[0].sid) : 1;
    for (int i = 0; i < 6; i++) { cv[i] = tick(so.err_cov[i], 1e-4); cw[i] = tick(so.vel_cov[i] / (lam * lam), 1e-4); }
    tr_ai("cv", cv, 6); tr_ai("cw", cw, 6);
    double ob[2] = {so.clock_offset_var * GPS_C * GPS_C, so.clock_drift_var * GPS_C * GPS_C / (lam * lam)};
    tr_i("bv", tick(ob[0], 1e-4)); tr_i("dv", tick(ob[1], 1e-4));
    tr_i("gd", tick(so.err_cov[6] * so.err_cov[6], 1e-4));
    tr_i("gv", tick(so.vel_cov[6] * so.vel_cov[6], 1e-4));
    fprintf(TR, ",\"rm\":[");
    int first = 1, cnt = null ? 0 : (int)sid_set_get_sig_count(&rem);
    for (int j = 0; j < k->n && !null; j++)
      if (sid_set_contains(&rem, nm[j].sid)) { fprintf(TR, "%s%d", first ? "" : ",", j + 1); first = 0; }
    fprintf(TR, "]");
    tr_i("rn", null ? -1 : cnt);
  }
  tr_end();
  free(nm); free(ref);
}
/* missing pseudorange in an admitted measurement stops the program */
static void run_abort(const case_t *k) {
  fflush(TR);
  pid_t p = fork();
  if (p == 0) {
    freopen("/dev/null", "w", stderr);
    static navigation_measurement_t nm[MAXM];
    build(k, nm);
    gnss_solution so; dops_t d; gps_time_t tor = {.tow = 1000, .wn = 2000};
    obs_mask_config_t mask;
    mask.cn0_mask.enable = k->mon;
    mask.cn0_mask.threshold_dbhz = k->mt / 10.0f;
    calc_PVT((u8)k->n, nm, &tor, k->nr, k->nv, &mask, STE[k->st], &so, &d, NULL);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  tr_begin("nocode");
  emit_case(k);
  fprintf(TR, ",\"cv\":[");
  for (int j = 0; j < k->n; j++) fprintf(TR, "%s%d", j ? "," : "", k->m[j].code);
  fprintf(TR, "]");
  tr_i("stopped", !(WIFEXITED(st) && WEXITSTATUS(st) == 0));
  tr_end();
}
/* measurements with errors: the estimate itself */
static void gen(case_t *k, int style);
static int first_sat(int c);
static int nsat(int c);
static gnss_solution lso;
static gnss_sid_set_t lrem;
static navigation_measurement_t lnm[MAXM];
static int solve_lsq(const case_t *k, uint64_t seed) {
  dops_t d;
  rng_seed(seed); /* the same satellites each time */
  build(k, lnm);
  memset(&lso, 0x55, sizeof lso);
  memset(&d, 0x55, sizeof d);
  sid_set_init(&lrem);
  gps_time_t tor = {.tow = 1000, .wn = 2000};
  obs_mask_config_t mask;
  mask.cn0_mask.enable = false;
  mask.cn0_mask.threshold_dbhz = 0;
  return calc_PVT((u8)k->n, lnm, &tor, k->nr, k->nv, &mask, ALL_CONSTELLATIONS, &lso, &d, &lrem);
}
static void emit_lsq(const case_t *k, uint64_t seed) {
  int rc = solve_lsq(k, seed);
  tr_begin("lsq");
  fprintf(TR, ",\"ms\":[");
  for (int j = 0; j < k->n; j++) {
    const m_t *m = &k->m[j];
    fprintf(TR, "%s{\"c\":%d,\"s\":%d,\"d\":%d,\"q\":%d,\"el\":%d,\"pl\":%d,\"lk\":%d,\"e\":%d,\"v\":%d,\"fcn\":%d}", j ? "," : "", m->c,
            m->s, m->d, m->q, m->el, m->pl, m->lk, m->e, m->v, 1 + (m->s - 1) % 14);
  }
  fprintf(TR, "]");
  tr_i("nr", k->nr); tr_i("nv", k->nv); tr_i("rc", rc);
  if (rc >= 0) {
    long long v[6];
    int con = k->n ? sid_to_constellation(lnm[0].sid) : 0;
    tr_i("vv", lso.velocity_valid); tr_i("ns", lso.n_sats_used); tr_i("ng", lso.n_sigs_used);
    for (int i = 0; i < 3; i++) v[i] = tick(lso.pos_ecef[i] - rxp[i], 1e-4);
    tr_ai("px", v, 3);
    tr_i("co", tick(lso.clock_offset * GPS_C - k->bias[con] * 1e-9 * GPS_C, 1e-4));
    for (int i = 0; i < 3; i++) v[i] = tick(lso.vel_ecef[i] - rxv[i], 1e-8);
    tr_ai("vx", v, 3);
    tr_i("cd", tick(lso.clock_drift * GPS_C - k->drift * 0.01, 1e-8));
    for (int i = 0; i < 6; i++) v[i] = tick(lso.err_cov[i], 1e-4);
    tr_ai("cv", v, 6);
    for (int i = 0; i < 6; i++) v[i] = tick(lso.vel_cov[i], 1e-8);
    tr_ai("cw", v, 6);
    tr_i("bv", tick(lso.clock_offset_var * GPS_C * GPS_C, 1e-4));
    tr_i("dv", tick(lso.clock_drift_var * GPS_C * GPS_C, 1e-8));
  }
  fprintf(TR, ",\"rm\":[");
  int first = 1;
  for (int j = 0; j < k->n; j++)
    if (sid_set_contains(&lrem, lnm[j].sid)) { fprintf(TR, "%s%d", first ? "" : ",", j + 1); first = 0; }
  fprintf(TR, "]");
  tr_end();
}
static void scaled(case_t *o, const case_t *k, double f) {
  *o = *k;
  for (int j = 0; j < k->n; j++) {
    o->m[j].e = (int)nearbyint(k->m[j].e * f);
    o->m[j].v = (int)nearbyint(k->m[j].v * f);
  }
}
static void run_lsq(int i) {
  case_t k, o;
  int style = rnd(8), probe = style < 2, three = style == 2;
  do gen(&k, 5); while (k.n < (three ? 9 : 7) && rnd(4));
  k.st = 1; k.mon = 0; k.alt = 100; k.sp = rnd(1000); k.lock = -1; k.fast = 0;
  k.nr = !probe && rnd(6) == 0; k.nv = rnd(3) != 0;
  int want = three ? 9 + rnd(3) : 5 + rnd(7), mode = three ? 3 : probe ? 1 + rnd(2) : rnd(5), one = rnd(2);
  int lk = rnd(2) ? 40 : rnd(50), pl = rnd(2), el = 5 + rnd(86), q = 250 + rnd(300);
  if (k.n > want) k.n = want;
  if ((three || (probe && one)) && k.n > nsat(k.m[0].c)) k.n = nsat(k.m[0].c);
  for (int j = 0; j < k.n; j++) {
    m_t *m = &k.m[j];
    if (three || (probe && one)) { m->c = k.m[0].c; m->s = first_sat(m->c) + j; }
    m->f = 0; m->dop = 1; m->code = 1;
    m->q = one ? q : 250 + rnd(300);
    m->el = one ? el : rnd(3) ? 10 + rnd(81) : 2 + rnd(20);
    m->pl = one ? pl : rnd(4) != 0;
    m->lk = one ? lk : rnd(3) ? 40 + rnd(60) : rnd(45);
    if (three || probe) { m->q = 380 + rnd(100); m->pl = 1; m->lk = 90; m->el = 30 + rnd(60); }
    m->e = rnd(301) - 150; m->v = mode == 4 ? 0 : (int)rnd(101) - 50;
    for (int t = 0; t < 40 && DIR[m->d - 1][k.ax - 1] < 0; t++) m->d = 1 + rnd(30);
  }
  for (int j = 0; j < k.n; j++) /* signals of one satellite come from one place */
    for (int p = 0; p < j; p++)
      if (k.m[p].s == k.m[j].s && code_to_constellation((code_t)k.m[j].c) == code_to_constellation((code_t)k.m[p].c)) k.m[j].d = k.m[p].d;
  for (int b = 0; b < mode && b < 3 && k.n; b++) {
    static const int R[] = {400, 1000, 3000, 9800};
    int j = rnd(k.n), r = R[probe ? 3 : rnd(4)];
    if (probe && !k.nv && rnd(2)) k.m[j].v = (rnd(2) ? 1 : -1) * 5000;
    else if (rnd(4) || three) k.m[j].e = (rnd(2) ? 1 : -1) * (r / 2 + (int)rnd(r / 2));
    else if (mode != 4) k.m[j].v = (rnd(2) ? 1 : -1) * (int)(100 + rnd(r / 2));
  }
  uint64_t seed = ((uint64_t)rnd(1 << 30) << 20) + i;
  if (probe) { /* the largest errors that still pass, and a little more */
    double lo = 0, hi = 1;
    int at1 = solve_lsq(&k, seed), at0;
    scaled(&o, &k, 0);
    at0 = solve_lsq(&o, seed);
    if (at0 == 0 && at1 != 0) {
      for (int n = 0; n < 14; n++) {
        scaled(&o, &k, (lo + hi) / 2);
        if (solve_lsq(&o, seed) == 0) lo = (lo + hi) / 2; else hi = (lo + hi) / 2;
      }
      scaled(&o, &k, lo * 0.985); emit_lsq(&o, seed);
      scaled(&o, &k, lo * 1.015); emit_lsq(&o, seed);
      return;
    }
  }
  emit_lsq(&k, seed);
}
static int first_sat(int c) {
  switch (code_to_constellation((code_t)c)) {
    case CONSTELLATION_QZS: return 193;
    case CONSTELLATION_SBAS: return 120;
    default: return 1;
  }
}
static int nsat(int c) {
  switch (code_to_constellation((code_t)c)) {
    case CONSTELLATION_QZS: return 10;
    case CONSTELLATION_SBAS: return 19;
    case CONSTELLATION_GLO: return 28;
    default: return 32;
  }
}
static void gen(case_t *k, int style) {
  memset(k, 0, sizeof *k);
  k->st = rnd(3) ? 1 : rnd(4);
  k->mon = rnd(3) == 0;
  k->mt = 250 + 5 * rnd(20);
  k->nr = rnd(4) == 0;
  k->nv = rnd(2);
  k->ax = 1 + rnd(3);
  static const int ALT[] = {0, 0, 100, 8000, -999, -1001, 999999, 1000001, 500000};
  k->alt = rnd(3) ? 100 : ALT[rnd(9)];
  static const int SPS[] = {0, 0, 1, 1000, 30000, 51430, 51460, 51400, 51500, 60000};
  k->sp = SPS[rnd(10)];
  k->sd = rnd(6);
  k->lock = 10;
  for (int i = 0; i < 6; i++) k->bias[i] = (int)rnd(2000001) - 1000000;
  k->drift = (int)rnd(20001) - 10000;
  k->fast = rnd(3) != 0;
  /* constellations in play and their codes */
  int npal = 1 + rnd(style == 3 ? 2 : 4), pal[6];
  for (int i = 0; i < npal; i++) pal[i] = CODES[rnd(NC)];
  if (rnd(2)) pal[0] = 0;
  if (rnd(4) == 0) { pal[0] = 0; npal = 1; }
  int many = style != 4 && rnd(8) == 0; /* five or six constellations at once */
  static const int FAM[] = {0, 12, 3, 14, 31, 2};
  if (many) {
    npal = style == 5 ? 5 : 5 + rnd(2);
    int at = style == 5 ? 0 : rnd(6);
    for (int i = 0; i < npal; i++) pal[i] = FAM[(at + i) % 6];
  }
  int lo = style == 4 ? 14 : 3, hi = style == 4 ? 40 : style == 3 ? 12 : 11;
  k->n = lo + rnd(hi - lo + 1);
  int deep = rnd(12) == 0, narrow = rnd(8) == 0, d0 = 1 + rnd(22);
  for (int j = 0; j < k->n; j++) {
    m_t *m = &k->m[j];
    for (int tries = 0;; tries++) {
      m->c = pal[rnd(npal)];
      m->s = first_sat(m->c) + rnd(nsat(m->c));
      if (j && rnd(5) == 0) { /* another signal of the same satellite */
        int o = rnd(j);
        m->s = k->m[o].s;
        m->c = CODES[rnd(NC)];
        if (code_to_constellation((code_t)m->c) != code_to_constellation((code_t)k->m[o].c)) m->c = k->m[o].c;
      }
      int dup = 0;
      do m->d = narrow ? d0 + rnd(8) : 1 + rnd(30);
      while (!deep && DIR[m->d - 1][k->ax - 1] < 0 && ++tries < 40);
      for (int o = 0; o < j; o++) {
        if (k->m[o].s == m->s && k->m[o].c == m->c) dup = 1;
        if (k->m[o].s == m->s && code_to_constellation((code_t)m->c) == code_to_constellation((code_t)k->m[o].c)) m->d = k->m[o].d;
      }
      if (!dup) break;
      if (tries > 60) { k->n = j; break; }
    }
    m->q = k->mon ? 250 + 5 * rnd(40) : 300 + 5 * rnd(40);
    if (k->mon && rnd(2)) m->q = 500;
    if (rnd(4) == 0) m->q = k->mt;
    m->el = rnd(2) ? 90 : 30;
    m->pl = rnd(4) != 0;
    m->dop = 1;
    m->code = 1;
  }
  if (style == 2 || rnd(10) == 0) { /* one class of strong measurements */
    static const int L[] = {10, 10, 4, 2, 0};
    k->lock = L[rnd(5)];
    int el = rnd(2) ? 90 : 30, pl = rnd(2), c = rnd(2) ? -1 : CODES[rnd(NC)];
    if (c >= 0 && k->n > nsat(c)) k->n = nsat(c);
    for (int j = 0; j < k->n; j++) {
      k->m[j].q = 2500;
      k->m[j].el = el;
      k->m[j].pl = pl;
      if (c >= 0) { k->m[j].c = c; k->m[j].s = first_sat(c) + j; }
    }
  }
  if (rnd(12) == 0) k->m[rnd(k->n ? k->n : 1)].dop = 0;
  if (style == 3) k->m[rnd(k->n ? k->n : 1)].f = rnd(4) ? 1 : 2;
  if (style == 3 && rnd(6) == 0) k->m[rnd(k->n ? k->n : 1)].f = 1;
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = atoi(argv[2]), q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) * 16 + part);
  dirs();
  glo_map_clear_all();
  for (u16 s = 1; s <= 28; s++) glo_map_set_slot_id(1 + (s - 1) % 14, s);
  case_t k;
  if (part == 5) {
    for (int i = 0; i < (q ? 60 : 400); i++) {
      gen(&k, 1);
      for (int j = 0; j < k.n; j++) k.m[j].code = rnd(2 * k.n) != 0;
      run_abort(&k);
    }
  } else if (part >= 6) {
    int n = q ? 500 : 6000;
    if (argc > 5) n = atoi(argv[5]);
    for (int i = 0; i < n; i++) run_lsq(i);
  } else {
    int n = q ? 1500 : 12000;
    if (argc > 5) n = atoi(argv[5]);
    for (int i = 0; i < n; i++) { gen(&k, part); run(&k); }
  }
  tr_close();
  return 0;
}
