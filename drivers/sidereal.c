/* Sidereal time and the validity of the current time. */
#include "fx.h"
#include <swiftnav/gnss_time.h>
static void gmst(int y, int m, int d, int h, int mi, int s, double f, double ut1) {
  utc_tm u;
  memset(&u, 0, sizeof u);
  u.year = (u16)y; u.month = (u8)m; u.month_day = (u8)d; u.hour = (u8)h; u.minute = (u8)mi; u.second_int = (u8)s; u.second_frac = f;
  double g = utc2gmst(u, ut1);
  long long a[3] = {y, m, d}, b[3] = {h, mi, s};
  tr_begin("gmst"); tr_ai("d", a, 3); tr_ai("t", b, 3); tr_fx("f", f, 0); tr_fx("ut1", ut1, 0); tr_fx("g", g, 0); tr_end();
}
static int len(int y, int m) {
  static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0) ? 29 : L[m - 1];
}
static void cur(int wn, double tow, int ref) {
  gps_time_t t = {.wn = (s16)wn, .tow = tow};
  tr_begin("cur"); tr_i("wn", wn); tr_i("tow", tow >= 0 && tow < 604800 && wn >= 0); tr_i("ref", ref); tr_i("ref0", GPS_WEEK_REFERENCE);
  tr_i("ok", gps_current_time_valid_with_wn_ref(&t, (u16)ref)); tr_i("ok0", gps_current_time_valid(&t)); tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + 9000);
  for (int i = 0; i < (q ? 4000 : 60000); i++) {
    int y = 1980 + (int)rnd(120), m = 1 + (int)rnd(12);
    int d = rnd(4) ? 1 + (int)rnd((u32)len(y, m)) : rnd(2) ? len(y, m) : 1;
    int k = rnd(6);
    gmst(y, m, d, k == 0 ? 0 : k == 1 ? 23 : (int)rnd(24), k == 0 ? 0 : k == 1 ? 59 : (int)rnd(60), k == 0 ? (int)rnd(2) : k == 1 ? 58 + (int)rnd(2) : (int)rnd(60),
         rnd(1024) / 1024.0, ((int)rnd(1845) - 922) / 1024.0);
  }
  /* every day of some years at midnight */
  for (int y = q ? 2024 : 1980; y < (q ? 2025 : 2100); y++)
    for (int m = 1; m <= 12; m++)
      for (int d = 1; d <= len(y, m); d++) gmst(y, m, d, 0, 0, 0, 0, 0);
  static const double W[] = {0, 1, 604799.9990234375, 604800, -1, 302400, -0.0009765625, INFINITY, NAN};
  static const int R[] = {0, 1, 1000, GPS_WEEK_REFERENCE, 31000, 65535};
  for (int r = 0; r < 6; r++)
    for (int d = -3; d <= 1030; d++)
      if (q ? (d < 4 || d > 1018 || d % 64 == 0) : true)
        for (int w = 0; w < 9; w++)
          if (R[r] + d <= 32767 && (w == 0 || d < 4 || d > 1018)) cur(R[r] + d, W[w], R[r]);
  for (int w = -5; w < 32767; w += q ? 97 : 7) cur(w, 5, (int)rnd(65536));
  tr_close();
  return 0;
}
