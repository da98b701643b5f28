/* GLONASS bias corrections for every code and mask. */
#include "tr.h"
#include <swiftnav/glonass_phase_biases.h>
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = argc > 2 ? atoi(argv[2]) : 1;
  rng_seed(argc > 3 ? strtoull(argv[3], NULL, 10) : 1);
  for (int rep = 0; rep < (quick ? 3 : 200); rep++)
    for (int c = -1; c <= CODE_COUNT; c++) {
      glo_biases_t b = {0};
      long long v[4], r[256];
      for (int i = 0; i < 4; i++) v[i] = (int)rnd(200001) - 100000;
      if (rep == 1) v[rnd(4)] = 0;
      b.l1of_bias_m = v[0] / 1024.0; b.l1p_bias_m = v[1] / 1024.0; b.l2of_bias_m = v[2] / 1024.0; b.l2p_bias_m = v[3] / 1024.0;
      for (int m = 0; m < 256; m++) {
        b.mask = (u8)m;
        double x = get_glonass_bias((code_t)c, b) * 1024.0;
        r[m] = x == nearbyint(x) && fabs(x) < 1e9 ? (long long)x : 2147483647LL;
      }
      tr_begin("bias"); tr_i("c", c); tr_ai("b", v, 4); tr_ai("r", r, 256); tr_end();
    }
  for (int f = 0; f < 256; f++) {
    long long r[256];
    for (int m = 0; m < 256; m++) r[m] = is_bias_mask_flag_set((u8)m, (u8)f);
    tr_begin("flag"); tr_i("f", f); tr_ai("r", r, 256); tr_end();
  }
  tr_close();
  return 0;
}
