/* Group delays of every signal, satellite clocks, SBAS states. */
#include <sys/wait.h>
#include <unistd.h>
#include "tr.h"
#include <swiftnav/ephemeris.h>
#include <swiftnav/signal.h>
#define U 9.094947017729282379150390625e-13 /* 2^-40 */
static long long units(double v, double u) {
  double n = v / u;
  return fabs(n) < 2e9 ? (long long)nearbyint(n) : 2147483647LL;
}
static long long exact(double v, double u) {
  double n = v / u;
  return fabs(n) < 2e9 && n == nearbyint(n) ? (long long)n : 2147483647LL;
}
static int refused(const ephemeris_t *e, gnss_signal_t s) {
  fflush(TR);
  pid_t p = fork();
  if (p == 0) {
    freopen("/dev/null", "w", stderr);
    float t;
    s8 r = get_tgd_correction(e, &s, &t);
    _exit(r == 0 ? 0 : 1);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static u16 sat(constellation_t c) {
  return c == CONSTELLATION_SBAS ? 120 + rnd(19) : c == CONSTELLATION_QZS ? 193 + rnd(9) : 1 + rnd(28);
}
static int amount(void) { return (int)rnd(40001) - 20000; }
static void set_eph(ephemeris_t *e, int code, const int d[3]) {
  memset(e, 0, sizeof *e);
  e->sid.code = (code_t)code;
  constellation_t c = code_to_constellation(e->sid.code);
  e->sid.sat = sat(c);
  e->toe = (gps_time_t){.wn = 2000, .tow = 100000};
  e->valid = 1;
  if (c == CONSTELLATION_GLO) e->data.glo.d_tau = d[2] * U;
  else if (c != CONSTELLATION_SBAS) {
    e->data.kepler.tgd.gps_s[0] = (float)(d[0] * U);
    e->data.kepler.tgd.gps_s[1] = (float)(d[1] * U);
    e->data.kepler.toc = e->toe;
    e->data.kepler.sqrta = 5153.5;
  }
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = argc > 2 ? atoi(argv[2]) : 0;
  int quick = argc > 3 ? atoi(argv[3]) : 1;
  rng_seed(argc > 4 ? strtoull(argv[4], NULL, 10) : 1);
  ephemeris_t e;
  if (part == 0) {
    for (int code = 0; code < CODE_COUNT; code++) {
      constellation_t c = code_to_constellation((code_t)code);
      for (int r = 0; r < (quick ? 40 : 2000); r++) {
        int d[3] = {amount(), amount(), amount()};
        if (r < 3) { d[0] = r == 0 ? 20000 : 0; d[1] = r == 1 ? 20000 : 0; d[2] = r == 2 ? 20000 : 0; }
        /* any ephemeris of the constellation */
        int ec;
        do ec = (int)rnd(CODE_COUNT); while (code_to_constellation((code_t)ec) != c);
        set_eph(&e, r % 2 ? code : ec, d);
        gnss_signal_t s = {.sat = e.sid.sat, .code = (code_t)code};
        tr_begin("tgd"); tr_i("c", code); tr_i("ec", e.sid.code);
        long long dd[3] = {d[0], d[1], d[2]};
        tr_ai("d", dd, 3);
        if (c == CONSTELLATION_SBAS) {
          if (r > 1) { tr_i("rc", -1); tr_i("r", 0); tr_end(); continue; }
          tr_i("rc", refused(&e, s) ? -1 : 0); tr_i("r", 0);
        } else {
          float t = 1e9f;
          tr_i("rc", get_tgd_correction(&e, &s, &t)); tr_i("r", units(t, U));
        }
        tr_end();
      }
      /* ephemerides of other constellations */
      for (int ec = 0; ec < CODE_COUNT; ec += quick ? 7 : 1) {
        if (code_to_constellation((code_t)ec) == c) continue;
        int d[3] = {1, 2, 3};
        set_eph(&e, ec, d);
        gnss_signal_t s = {.sat = sat(c), .code = (code_t)code};
        tr_begin("mis"); tr_i("c", code); tr_i("ec", ec); tr_i("ref", refused(&e, s)); tr_end();
      }
    }
  } else if (part == 1) {
    for (int code = 0; code < CODE_COUNT; code++) {
      constellation_t c = code_to_constellation((code_t)code);
      for (int r = 0; r < (quick ? 40 : 2000); r++) {
        int d[3] = {amount(), amount(), amount()};
        set_eph(&e, code, d);
        int k = (int)rnd(14401) - 7200, lag = rnd(3) ? 0 : (int)rnd(7200) - 3600;
        if (r == 0) k = 0;
        int a0 = (int)rnd(2000001) - 1000000, a1 = (int)rnd(4001) - 2000, a2 = rnd(3) ? (int)rnd(7) - 3 : 0;
        gps_time_t t = e.toe;
        t.tow += k;
        double pos[3], vel[3], acc[3], ce = 1e9, cr = 1e9;
        if (c == CONSTELLATION_GLO) {
          e.data.glo.tau = -a0 * U; e.data.glo.gamma = a1 * U; a2 = 0; lag = 0;
          e.data.glo.pos[0] = 25.5e6; e.data.glo.vel[1] = 2600;
          t.tow = e.toe.tow + (k %= 60);
        } else if (c == CONSTELLATION_SBAS) {
          e.data.xyz.a_gf0 = a0 * U; e.data.xyz.a_gf1 = a1 * U; a2 = 0; lag = 0;
        } else {
          e.data.kepler.af0 = a0 * U; e.data.kepler.af1 = a1 * U; e.data.kepler.af2 = a2 * U;
          e.data.kepler.toc.tow += lag;
          if (e.data.kepler.toc.tow < 0) lag = 0;
        }
        s8 rc = calc_sat_state_n(&e, &t, MEO, pos, vel, acc, &ce, &cr);
        long long dd[3] = {d[0], d[1], d[2]}, a[3] = {a0, a1, a2};
        tr_begin("clk"); tr_i("c", code); tr_ai("d", dd, 3); tr_ai("a", a, 3); tr_i("dt", k - lag); tr_i("rc", rc);
        tr_i("r", units(ce, U)); tr_i("q", exact(cr, U)); tr_end();
      }
    }
  } else {
    /* SBAS: everything exact in half metres; the clock error moves the time */
    for (int r = 0; r < (quick ? 800 : 40000); r++) {
      memset(&e, 0, sizeof e);
      e.sid = (gnss_signal_t){.sat = 120 + (u16)rnd(19), .code = rnd(2) ? CODE_SBAS_L1CA : CODE_SBAS_L5I};
      int wrap = (int)rnd(4);
      e.toe = (gps_time_t){.wn = 2000, .tow = wrap == 0 ? 604799 - rnd(300) : wrap == 1 ? rnd(300) : rnd(604800)};
      e.valid = 1;
      long long p[3], v[3], a[3], op[3], ov[3], oa[3];
      int k = (int)rnd(601) - 300, c0 = rnd(2) ? 0 : (int)rnd(21) - 10, c1 = rnd(2) ? 0 : (int)rnd(9) - 4;
      for (int i = 0; i < 3; i++) {
        p[i] = (int)rnd(84000001) - 42000000; v[i] = (int)rnd(8001) - 4000; a[i] = (int)rnd(401) - 200;
        e.data.xyz.pos[i] = (double)p[i]; e.data.xyz.vel[i] = (double)v[i]; e.data.xyz.acc[i] = (double)a[i];
      }
      /* clock error c0 + c1 * dt / 4 seconds */
      k -= k % 4;
      e.data.xyz.a_gf0 = c0; e.data.xyz.a_gf1 = c1 / 4.0;
      gps_time_t t = e.toe;
      add_secs(&t, k);
      double pos[3], vel[3], acc[3], ce, cr;
      s8 rc = calc_sat_state_n(&e, &t, GEO, pos, vel, acc, &ce, &cr);
      for (int i = 0; i < 3; i++) { op[i] = exact(pos[i], 0.5); ov[i] = exact(vel[i], 1); oa[i] = exact(acc[i], 1); }
      tr_begin("sbas"); tr_ai("p", p, 3); tr_ai("v", v, 3); tr_ai("a", a, 3); tr_i("dt", k); tr_i("c0", c0); tr_i("c1", c1);
      tr_i("rc", rc); tr_ai("op", op, 3); tr_ai("ov", ov, 3); tr_ai("oa", oa, 3); tr_i("ce", exact(ce, 1)); tr_i("cr", exact(cr, 0.25));
      tr_end();
    }
  }
  tr_close();
  return 0;
}
