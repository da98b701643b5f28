/* Accuracy indices and lock time indicators. */
#include "tr.h"
#include <swiftnav/ephemeris.h>
#include <swiftnav/nav_meas.h>
static long long deci(float v) {
  /* tenths of a metre, or a number nobody expects */
  double r = nearbyint((double)v * 10);
  return fabs((double)v * 10 - r) > 1e-4 ? 999999 : (long long)r;
}
static long long centi(float v) {
  double r = nearbyint((double)v * 100);
  return fabs((double)v * 100 - r) > 1e-3 ? 999999 : (long long)r;
}
static long long milli(double v) {
  double r = nearbyint(v * 1000);
  return r / 1000.0 != v ? 2147483647LL : (long long)r;
}
static void dec(const char *k) {
  long long r[256];
  for (int i = 0; i < 256; i++)
    r[i] = k[0] == 'u'   ? deci(decode_ura_index((u8)i))
           : k[0] == 'b' ? deci(decode_bds_ura_index((u8)i))
           : k[0] == 's' ? centi(decode_sisa_index((u8)i))
                         : milli(decode_lock_time((u8)i));
  tr_begin("dec"); tr_s("k", k); tr_ai("r", r, 256); tr_end();
}
static float tenths(int n) { return (float)(n / 10.0); }
static void enc(int n, int len) {
  tr_begin("enc"); tr_i("n", n);
  fprintf(TR, ",\"r\":[");
  for (int i = 0; i < len; i++) {
    float v = tenths(n + i);
    fprintf(TR, "%s[%u,%u,%u]", i ? "," : "", encode_ura(nextafterf(v, -INFINITY)), encode_ura(v),
            encode_ura(nextafterf(v, INFINITY)));
  }
  fprintf(TR, "]"); tr_end();
}
static void lock(long long n, int step, int len, double frac) {
  long long r[1024];
  for (int i = 0; i < len; i++) r[i] = encode_lock_time((double)(n + (long long)i * step) / 1000.0 + frac / 1000.0);
  tr_begin("lock"); tr_i("n", n); tr_i("step", step); tr_ai("r", r, len); tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = argc > 2 ? atoi(argv[2]) : 1;
  rng_seed(argc > 3 ? strtoull(argv[3], NULL, 10) : 1);
  dec("ura"); dec("bds"); dec("sisa"); dec("lock");
  for (int n = -40; n < 62000; n += 500) if (!quick || n < 1500 || rnd(4) == 0) enc(n, 500);
  const int tb[16] = {20, 28, 40, 57, 80, 113, 160, 320, 640, 1280, 2560, 5120, 10240, 20480, 40960, 61440};
  for (int i = 0; i < 16; i++) enc(tb[i] - 5, 10);
  enc(100000, 10); enc(20000000, 10); enc(-20000000, 10);
  for (int k = 5; k < 31; k++) {
    lock((1LL << k) - 4, 1, 9, 0.25);
    lock((1LL << k) - 4, 1, 9, 0.75);
    /* exactly the minimum of a code */
    if (k < 20) { lock(1LL << k, 1, 1, 0); lock((1LL << k) + 1, 1, 5, 0.5); }
  }
  lock(0, 1, 1000, 0.5);
  for (int i = 0; i < (quick ? 60 : 2000); i++) lock(rnd(1u << (6 + rnd(15))), 1 + (int)rnd(40), 900, 0.5);
  lock(2147480000LL, 3, 1000, 0.5);
  /* days, months, ages */
  long long h[64]; int n = 0;
  for (int i = 0; i < 30; i++) h[n++] = encode_lock_time(4294960.0 + i);
  for (int i = 0; i < 20; i++) h[n++] = encode_lock_time(5e6 * pow(10, i));
  h[n++] = encode_lock_time(4294967295.0); h[n++] = encode_lock_time(4294967296.0); h[n++] = encode_lock_time(1e300); h[n++] = encode_lock_time(INFINITY);
  h[n++] = encode_lock_time(4294967.296); h[n++] = encode_lock_time(8589934.592); h[n++] = encode_lock_time(4294967294.9);
  tr_begin("huge"); tr_ai("r", h, n); tr_end();
  long long u[16], l[16];
  for (int i = 0; i < 16; i++) { u[i] = encode_ura(decode_ura_index((u8)i)); l[i] = encode_lock_time(decode_lock_time((u8)i)); }
  tr_begin("inv"); tr_ai("u", u, 16); tr_ai("l", l, 16); tr_end();
  tr_close();
  return 0;
}
