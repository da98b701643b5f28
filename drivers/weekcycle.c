/* Week number resolution: runs of raw numbers against one reference. */
#include "tr.h"
#include <swiftnav/gnss_time.h>
static void run(int m, int raw, int n, int ref) {
  long long r[1024];
  for (int i = 0; i < n; i++)
    r[i] = m == 1024 ? gps_adjust_week_cycle(raw + i, ref) : gps_adjust_week_cycle256(raw + i, ref);
  tr_begin("run");
  tr_i("m", m); tr_i("raw", raw); tr_i("ref", ref);
  tr_ai("r", r, n);
  tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  /* every raw number of the cycle, every reference of several cycles */
  for (int ref = 0; ref <= (quick ? 3200 : 20000); ref++) run(256, 0, 256, ref);
  for (int ref = 0; ref <= (quick ? 3200 : 20000); ref += 1)
    if (!quick || ref % 4 == 0 || ref % 1024 < 3 || ref % 1024 > 1020 || ref == 1876) run(1024, 0, 1024, ref);
  /* later references and raw numbers beyond one cycle */
  for (int i = 0; i < (quick ? 600 : 20000); i++) {
    int ref = rnd(65536), m = i % 2 ? 256 : 1024;
    run(m, rnd(65536 - 64), 64, ref);
    int a = ref > 32 ? ref - 32 : 0;
    run(m, a > 65472 ? 65472 : a, 64, ref);
    run(m, 0, m, ref);
  }
  tr_close();
  return 0;
}
