/* Ionosphere, neutral atmosphere and geoid. */
#include "fx.h"
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/troposphere.h>
static double pick(const double *a, int n) { return a[rnd(n)]; }
static double lat(void) {
  static const double s[] = {0, M_PI_2, -M_PI_2, M_PI / 12, -M_PI / 12, 5 * M_PI / 12, M_PI / 6, -M_PI / 4};
  int k = rnd(6);
  if (k == 0) return pick(s, 8);
  if (k == 1) return pick(s + 3, 5) * (1 + (rnd(2) ? 1e-9 : -1e-9));
  if (k == 2) return M_PI / 180 * ((int)rnd(181) - 90);
  return uni(-M_PI_2, M_PI_2);
}
static double lon(void) {
  int k = rnd(5);
  if (k == 0) return (rnd(2) ? 1 : -1) * (M_PI - (rnd(2) ? pow(10, -(double)rnd(14)) : 0));
  if (k == 1) return M_PI / 180 * ((int)rnd(721) - 360);
  return uni(-M_PI, M_PI);
}
static void iono(void) {
  ionosphere_t i, i0;
  memset(&i, 0, sizeof i);
  double *c = &i.a0;
  (void)c;
  int z = rnd(6);
  i.a0 = ((int)rnd(256) - 128) * pow(2, -30); i.a1 = ((int)rnd(256) - 128) * pow(2, -27);
  i.a2 = ((int)rnd(256) - 128) * pow(2, -24); i.a3 = ((int)rnd(256) - 128) * pow(2, -24);
  i.b0 = ((int)rnd(256) - 128) * pow(2, 11); i.b1 = ((int)rnd(256) - 128) * pow(2, 14);
  i.b2 = ((int)rnd(256) - 128) * pow(2, 16); i.b3 = ((int)rnd(256) - 128) * pow(2, 16);
  if (z == 0) { i.a0 = i.a1 = i.a2 = i.a3 = 0; }
  if (z == 1) { i.b0 = i.b1 = i.b2 = i.b3 = 0; }
  if (z == 2) { i.a0 = fabs(i.a0); i.a1 = i.a2 = i.a3 = 0; i.b0 = 100000; i.b1 = i.b2 = i.b3 = 0; }
  if (z >= 4) { i.a0 = fabs(i.a0); i.b0 = fabs(i.b0); i.a1 /= 8; i.a2 /= 8; i.a3 /= 8; i.b1 /= 16; i.b2 /= 16; i.b3 /= 16; }
  i0 = i;
  double la = lat(), lo = rnd(2) ? lon() : uni(-M_PI, M_PI), az = rnd(4) ? uni(0, 2 * M_PI) : M_PI_2 * rnd(5), el = rnd(4) ? uni(0, M_PI_2) : rnd(2) ? 0 : M_PI_2;
  gps_time_t t = {.tow = rnd(3) ? uni(0, 604800) : rnd(604800), .wn = 2000};
  if (rnd(3) == 0) { /* near the peak of the day */
    double local = 50400 + uni(-20000, 20000);
    t.tow = fmod(local - 43200 * lo / M_PI + 86400 * (1 + rnd(6)), 604800);
  }
  double d = calc_ionosphere(&t, la, lo, az, el, &i);
  tr_begin("iono"); tr_fx("lat", la, 0); tr_fx("lon", lo, 0); tr_fx("az", az, 0); tr_fx("el", el, 0); tr_fx("tow", t.tow, -3);
  double a[4] = {i0.a0, i0.a1, i0.a2, i0.a3}, b[4] = {i0.b0, i0.b1, i0.b2, i0.b3};
  tr_fxv("a", a, 4, 9); tr_fxv("b", b, 4, -3); tr_fx("d", d, 0);
  tr_i("same", i.a0 == i0.a0 && i.a1 == i0.a1 && i.a2 == i0.a2 && i.a3 == i0.a3 && i.b0 == i0.b0 && i.b1 == i0.b1 && i.b2 == i0.b2 && i.b3 == i0.b3);
  tr_end();
}
static void tropo(void) {
  double doy = rnd(3) ? uni(0, 367) : rnd(367), la = lat(), h, el;
  switch (rnd(6)) {
    case 0: h = 0; break;
    case 1: h = -uni(0, 1000); break;
    case 2: h = 11000; break;
    case 3: h = 11000 + uni(0.001, 50000); break;
    default: h = uni(0, 11000);
  }
  switch (rnd(6)) {
    case 0: el = M_PI_2; break;
    case 1: el = -uni(0, 1); break;
    case 2: el = M_PI / 1800 * uni(0.9, 3); break;
    case 3: el = uni(0, 0.2); break;
    default: el = uni(0, M_PI_2);
  }
  double d = calc_troposphere(doy, la, h, el);
  tr_begin("tropo"); tr_fx("doy", doy, 0); tr_fx("lat", la, 0); tr_fx("h", h, -3); tr_fx("el", el, 0); tr_fx("d", d, 0); tr_i("same", 1); tr_end();
}
static void geoid(void) {
  double la = lat(), lo = lon();
  int out = 0;
  switch (rnd(8)) {
    case 0: la = (rnd(2) ? 1 : -1) * (M_PI_2 - M_PI / 180 * uni(0, 3)); break; /* the caps */
    case 1: lo = M_PI / 180 * uni(-3, 3); break;                             /* the seam */
    case 2: lo = M_PI / 180 * (360 - uni(0, 3)); break;
    case 3: la = M_PI / 180 * (90 - (int)rnd(3) + (rnd(2) ? 1e-6 : -1e-6)); if (la > M_PI_2) la = M_PI_2; break;
    case 4: if (rnd(4) == 0) { la = (rnd(2) ? 1 : -1) * uni(M_PI_2 + 0.001, 4); out = 1; } break;
    case 5: if (rnd(4) == 0) { lo = (rnd(2) ? 1 : -1) * uni(2 * M_PI + 0.001, 20); out = 1; } break;
    default: break;
  }
  double d = get_geoid_offset(la, lo);
  tr_begin("geoid"); tr_fx("lat", la, 0); tr_fx("lon", lo, 0); tr_i("out", out); tr_fx("d", d, 0); tr_i("m", get_geoid_model()); tr_i("same", 1); tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = atoi(argv[2]), q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) * 8 + 600 + part);
  int n = q ? 3000 : 30000;
  for (int i = 0; i < n; i++) {
    if (part == 0) iono();
    if (part == 1) tropo();
    if (part == 2) geoid();
  }
  if (part == 2 && !q) { /* every node */
    for (int y = -90; y <= 90; y++)
      for (int x = 0; x < 360; x++) {
        double la = M_PI / 180 * y, lo = M_PI / 180 * x, d = get_geoid_offset(la, lo);
        tr_begin("geoid"); tr_fx("lat", la, 0); tr_fx("lon", lo, 0); tr_i("out", 0); tr_fx("d", d, 0); tr_i("m", get_geoid_model()); tr_i("same", 1); tr_end();
      }
  }
  tr_close();
  return 0;
}
