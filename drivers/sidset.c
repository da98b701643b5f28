/* Histories of the signal set; after every operation the whole observable state
 * (both counts and the membership of every valid signal) is recorded. */
#include "tr.h"
#include <swiftnav/sid_set.h>
static gnss_sid_set_t *S;
static void obs(void) {
  tr_i("sig", sid_set_get_sig_count(S));
  tr_i("sat", sid_set_get_sat_count(S));
  fprintf(TR, ",\"all\":[");
  int first = 1;
  for (int c = 0; c < CODE_COUNT; c++) {
    int n = constellation_to_sat_count(code_to_constellation(c));
    for (int i = 0; i < n; i++) {
      gnss_signal_t s = sid_from_code_index(c, i);
      if (sid_set_contains(S, s)) {
        fprintf(TR, first ? "[%d,%d]" : ",[%d,%d]", c, s.sat);
        first = 0;
      }
    }
  }
  fprintf(TR, "]");
  tr_end();
}
static void do_init(void) { sid_set_init(S); tr_begin("init"); obs(); }
static void op(int add, gnss_signal_t s) {
  if (add) sid_set_add(S, s); else sid_set_remove(S, s);
  tr_begin(add ? "add" : "del");
  tr_i("c", s.code);
  tr_i("s", s.sat);
  obs();
}
static void load(const gnss_signal_t *x, int n) {
  sid_set_init(S);
  tr_begin("load");
  fprintf(TR, ",\"xs\":[");
  for (int i = 0; i < n; i++) {
    sid_set_add(S, x[i]);
    fprintf(TR, "%s[%d,%d]", i ? "," : "", x[i].code, x[i].sat);
  }
  fprintf(TR, "]");
  obs();
}
static gnss_signal_t rsid(int mode) {
  code_t c = rnd(CODE_COUNT);
  int n = constellation_to_sat_count(code_to_constellation(c));
  int i = mode == 0 ? (int)rnd(n) : mode == 1 ? n - 1 - (int)rnd(2) : (int)rnd(3);
  return sid_from_code_index(c, i);
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  S = malloc(sizeof *S);
  memset(S, 0x5a, sizeof *S);
  do_init();
  /* all subsets of a small universe x all operations on it */
  gnss_signal_t U[8] = {
      {1, CODE_GPS_L1CA}, {1, CODE_GPS_L2CM}, {1, CODE_GAL_E1B}, {33, CODE_BDS2_B1},
      {32, CODE_GPS_L5I}, {64, CODE_BDS3_B3I}, {138, CODE_SBAS_L1CA}, {64, CODE_AUX_BDS}};
  int nu = quick ? 7 : 8;
  for (int A = 0; A < 1 << nu; A++)
    for (int k = 0; k < 2 * nu; k++) {
      gnss_signal_t x[8];
      int n = 0;
      for (int i = 0; i < nu; i++) if (A >> i & 1) x[n++] = U[i];
      load(x, n);
      op(k & 1, U[k >> 1]);
    }
  /* every signal alone: added, added again, another code of the satellite, removed */
  do_init();
  for (int c = 0; c < CODE_COUNT; c++) {
    int n = constellation_to_sat_count(code_to_constellation(c));
    for (int i = 0; i < n; i++) {
      gnss_signal_t s = sid_from_code_index(c, i);
      op(1, s);
      if (rnd(4) == 0) op(1, s);
      op(0, s);
    }
  }
  for (int i = 0; i < (quick ? 40 : 200); i++) {
    gnss_signal_t last = rsid(0);
    do_init();
    int n = 5 + rnd(80), bias = 1 + rnd(4);
    for (int k = 0; k < n; k++) {
      gnss_signal_t s = rnd(3) ? rsid(rnd(3)) : last;
      /* often another signal of a satellite seen before */
      if (rnd(3) == 0) {
        code_t c = rnd(CODE_COUNT);
        if (code_to_constellation(c) == code_to_constellation(last.code)) s = construct_sid(c, last.sat);
      }
      op(rnd(bias + 1) != 0, s);
      last = s;
    }
  }
  /* everything at once */
  do_init();
  static gnss_signal_t all[4096];
  int n = 0;
  for (int c = 0; c < CODE_COUNT; c++)
    for (int i = 0; i < constellation_to_sat_count(code_to_constellation(c)); i++) all[n++] = sid_from_code_index(c, i);
  load(all, n);
  for (int i = 0; i < 20; i++) op(0, all[rnd(n)]);
  tr_close();
  return 0;
}
