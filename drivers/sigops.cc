/* The C++ comparison operators of signal ids, on all pairs of a sample. */
#include "tr.h"
#include <swiftnav/signal.h>
static int prs[400][2];
static int np;
int main(int argc, char **argv) {
  tr_open(argc, argv);
  rng_seed((uint64_t)atoi(argv[2]));
  for (int c = 0; c < CODE_COUNT; c++) {
    int n = constellation_to_sat_count(code_to_constellation((code_t)c));
    int f = sid_from_code_index((code_t)c, 0).sat;
    prs[np][0] = c; prs[np++][1] = f;
    prs[np][0] = c; prs[np++][1] = f + (int)rnd(n);
    if (c % 5 == 0) { prs[np][0] = c; prs[np++][1] = 65535; }
  }
  for (int i = 0; i < np; i++) {
    gnss_signal_t a = construct_sid((code_t)prs[i][0], (u16)prs[i][1]);
    long long bc[400], bs[400], m[400];
    for (int j = 0; j < np; j++) {
      gnss_signal_t b = construct_sid((code_t)prs[j][0], (u16)prs[j][1]);
      bc[j] = b.code;
      bs[j] = b.sat;
      m[j] = (a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b);
    }
    tr_begin("ops");
    tr_i("c", a.code);
    tr_i("s", a.sat);
    tr_ai("bc", bc, np);
    tr_ai("bs", bs, np);
    tr_ai("m", m, np);
    tr_end();
  }
  tr_close();
  return 0;
}
