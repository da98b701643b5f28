/* Histories of the GLONASS slot map with the whole observable map, all reverse
 * lookups and the map at every lock/unlock callback recorded. */
#include "tr.h"
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
static const code_t GC[] = {CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GLO_L2P};
static int gci;
static void snap(long long *m) {
  for (int s = 1; s <= 28; s++) {
    gnss_signal_t sid = construct_sid(GC[gci++ & 3], s);
    m[s - 1] = glo_map_valid(sid) ? glo_map_get_fcn(sid) : 0;
  }
}
static struct { char k; long long m[28]; } LK[128];
static int nlk, cbs;
static void cb(char k) {
  if (nlk < 128) {
    LK[nlk].k = k;
    snap(LK[nlk].m);
  }
  if (nlk < 128) nlk++;
}
static void lock(void) { cb('L'); }
static void unlock(void) { cb('U'); }
static void obs(void) {
  long long m[28];
  snap(m);
  tr_ai("m", m, 28);
  fprintf(TR, ",\"lu\":[");
  for (int f = 1; f <= 14; f++) {
    u16 a = 999, b = 999;
    int n = glo_map_get_slot_id(f, &a, &b);
    fprintf(TR, "%s[%d,%d,%d]", f > 1 ? "," : "", n, a, b);
  }
  fprintf(TR, "]");
  static const u16 of[] = {15, 16, 127, 128, 255, 256, 257, 258, 263, 270, 32768, 65535};
  int oth = 0;
  for (unsigned i = 0; i < sizeof of / sizeof *of; i++) {
    u16 a = 999, b = 999;
    oth += glo_map_get_slot_id(of[i], &a, &b) || a || b;
  }
  tr_i("oth", oth);
  tr_i("cb", cbs);
  fprintf(TR, ",\"lk\":[");
  for (int i = 0; i < nlk; i++) {
    fprintf(TR, "%s{\"k\":\"%c\"", i ? "," : "", LK[i].k);
    tr_ai("m", LK[i].m, 28);
    fprintf(TR, "}");
  }
  fprintf(TR, "]");
  tr_end();
}
static void do_set(int f, int s) {
  nlk = 0;
  glo_map_set_slot_id(f, s);
  tr_begin("set");
  tr_i("f", f);
  tr_i("s", s);
  obs();
}
static void do_clr(int s) {
  nlk = 0;
  glo_map_clear_slot_id(s);
  tr_begin("clr");
  tr_i("s", s);
  obs();
}
static void do_all(void) {
  nlk = 0;
  glo_map_clear_all();
  tr_begin("all");
  obs();
}
static void set_locks(int on) {
  nlk = 0;
  if (on) glo_map_init(lock, unlock); else glo_map_init(NULL, NULL);
  cbs = on;
  tr_begin("nolock");
  obs();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  set_locks(0);
  do_all();
  for (int s = 1; s <= 28; s++)
    for (int f = 1; f <= 14; f++) do_set(f, s);
  for (int s = 28; s >= 1; s--) do_clr(s);
  set_locks(1);
  do_all();
  for (int a = 1; a <= 28; a++)
    for (int b = a + 1; b <= 28; b += quick ? 3 : 1) {
      int f = 1 + rnd(14), c = 1 + rnd(28);
      do_set(f, b);
      do_set(f, a);
      do_set(f, c);
      do_clr(rnd(2) ? a : b);
      do_clr(c);
      if (rnd(2)) do_all(); else { do_clr(a); do_clr(b); }
    }
  static const int odd[] = {0, 15, 29, 30, 28, 14, 255, 256, 257, 264, 270, 284, 285, 32768, 32769, 65535, 65534, 65280, 512 + 5};
  for (int i = 0; i < 19; i++)
    for (int j = 0; j < 19; j++) {
      do_set(odd[i], odd[j]);
      if (i % 4 == 0) do_set(1 + rnd(14), odd[j]);
      if (i % 4 == 1) do_set(odd[j], 1 + rnd(28));
    }
  for (int h = 0; h < (quick ? 30 : 400); h++) {
    set_locks(rnd(3) != 0);
    if (rnd(4) == 0) do_all();
    int n = 20 + rnd(60), few = rnd(2);
    for (int k = 0; k < n; k++) {
      int s = few ? 1 + rnd(5) : 1 + rnd(28), f = few ? 6 + rnd(3) : 1 + rnd(14);
      int r = rnd(12);
      if (r < 7) do_set(f, s);
      else if (r < 10) do_clr(s);
      else if (r == 10) do_set(rnd(65536), rnd(rnd(2) ? 65536 : 40));
      else if (rnd(6) == 0) do_all();
    }
  }
  tr_close();
  return 0;
}
