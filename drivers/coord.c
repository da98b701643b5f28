/* Conversions between geodetic, Earth-centred and local coordinates. */
#include "fx.h"
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <swiftnav/coord_system.h>
static void scaled(const char *k, const double *v, int n, int sh) { tr_fxv(k, v, n, sh); }
static void geo(const char *k, const double g[3]) { /* radians, radians, height in Mm */
  fprintf(TR, ",\"%s\":[", k);
  fx_put(g[0], 0); fputc(',', TR); fx_put(g[1], 0); fputc(',', TR); fx_put(g[2], -6);
  fputc(']', TR);
}
static double small(void) { return (rnd(2) ? 1 : -1) * pow(10, -(double)rnd(14)); }
static double lat(void) {
  switch (rnd(8)) {
    case 0: return (rnd(2) ? 1 : -1) * M_PI_2;
    case 1: { double s = fabs(small()); return (rnd(2) ? 1 : -1) * (M_PI_2 - (s > 1 ? 0.5 : s)); }
    case 2: return 0;
    case 3: return small() * 0.9;
    case 4: return M_PI / 180 * ((int)rnd(181) - 90);
    default: return uni(-M_PI_2, M_PI_2);
  }
}
static double lon(void) {
  switch (rnd(7)) {
    case 0: return (rnd(2) ? 1 : -1) * M_PI;
    case 1: { double s = fabs(small()); return (rnd(2) ? 1 : -1) * (M_PI - s); }
    case 2: return M_PI_2 * ((int)rnd(5) - 2);
    case 3: return small();
    default: return uni(-M_PI, M_PI);
  }
}
static double hgt(void) {
  switch (rnd(6)) {
    case 0: return 0;
    case 1: return uni(-12000, 9000);
    case 2: return uni(-6.0e6, 0);
    case 3: return uni(1e7, 4.3e7);
    case 4: return pow(10, uni(0, 8));
    default: return uni(0, 2e6);
  }
}
static void point(double x[3]) {
  double r;
  switch (rnd(5)) {
    case 0: r = uni(6.3e6, 6.4e6); break;
    case 1: r = uni(6e4, 6e6); break;
    case 2: r = uni(2e7, 5e7); break;
    case 3: r = pow(10, uni(4.8, 8)); break;
    default: r = 6378137 + uni(-20, 20); break;
  }
  double z = uni(-1, 1), a = uni(-M_PI, M_PI), p;
  int k = rnd(6);
  if (k == 0) z = 0;
  if (k == 1) z = rnd(2) ? 1 : -1;
  p = sqrt(1 - z * z);
  if (rnd(4) == 0) a = M_PI_2 * ((int)rnd(5) - 2);
  x[0] = r * p * cos(a); x[1] = r * p * sin(a); x[2] = r * z;
  if (k == 1) { /* along the axis, or a little off */
    double off = rnd(3) ? pow(10, (int)rnd(18) - 12) : 0;
    x[0] = off * cos(a); x[1] = off * sin(a); x[2] = r * z;
  }
  if (rnd(6) == 0) x[rnd(3)] = rnd(2) ? 0.0 : -0.0;
}
static bool deep(const double x[3]) { return sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) < 6e4; }
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + 5000);
  int n = q ? 700 : 7000;
  for (int i = 0; i < n; i++) {
    double g[3] = {lat(), lon(), hgt()}, g0[3], x[3], x0[3], b[3];
    memcpy(g0, g, sizeof g);
    wgsllh2ecef(g, x);
    memcpy(x0, x, sizeof x);
    wgsecef2llh(x, b);
    tr_begin("fwd"); geo("g", g0); scaled("x", x0, 3, -6); geo("b", b);
    tr_i("same", !memcmp(g, g0, sizeof g) && !memcmp(x, x0, sizeof x)); tr_end();
    do point(x); while (deep(x));
    memcpy(x0, x, sizeof x);
    wgsecef2llh(x, g);
    memcpy(g0, g, sizeof g);
    wgsllh2ecef(g, b);
    tr_begin("inv"); scaled("x", x0, 3, -6); geo("g", g0); scaled("b", b, 3, -6); tr_i("pole", x0[0] == 0 && x0[1] == 0);
    tr_i("same", !memcmp(g, g0, sizeof g) && !memcmp(x, x0, sizeof x)); tr_end();
    if (i % 4 == 0) {
      double r[3] = {lat(), lon() * (rnd(3) ? 1 : 2), hgt()}, r0[3], d[3], bk[3];
      memcpy(r0, r, sizeof r);
      llhrad2deg(r, d);
      llhdeg2rad(d, bk);
      tr_begin("deg"); tr_fxv("r", r0, 2, 0); fseek(TR, -1, SEEK_CUR); fputc(',', TR); fx_put(r0[2], -6); fputc(']', TR);
      tr_fxv("d", d, 2, 0); tr_fxv("b", bk, 2, 0); tr_fxv("hd", d + 2, 1, -6); tr_fxv("hb", bk + 2, 1, -6);
      tr_i("same", !memcmp(r, r0, sizeof r)); tr_end();
    }
    double ref[3], ref0[3], v[3], v0[3], m[9], m2[9], nn[3], nd[3], e[3], ed[3], back[3], az = 9, el = 9;
    do point(ref); while (deep(ref));
    memcpy(ref0, ref, sizeof ref);
    point(v);
    if (rnd(3) == 0) for (int j = 0; j < 3; j++) v[j] = uni(-1000, 1000);
    memcpy(v0, v, sizeof v);
    wgsecef2llh(ref, g);
    wgs_ecef2ned_matrix(g, (double(*)[3])m);
    ecef2ned_matrix(ref, (double(*)[3])m2);
    wgsecef2ned(v, ref, nn);
    wgsecef2ned_d(v, ref, nd);
    wgsned2ecef(v, ref, e);
    wgsned2ecef_d(v, ref, ed);
    wgsned2ecef_d(nd, ref, back);
    tr_begin("ned"); scaled("r", ref0, 3, -6); geo("g", g); scaled("v", v0, 3, -6); tr_fxv("m", m, 9, 0); tr_fxv("m2", m2, 9, 0);
    scaled("n", nn, 3, -6); scaled("nd", nd, 3, -6); scaled("ec", e, 3, -6); scaled("ed", ed, 3, -6); scaled("back", back, 3, -6);
    tr_i("same", !memcmp(ref, ref0, sizeof ref) && !memcmp(v, v0, sizeof v)); tr_end();
    /* a direction: anywhere, overhead, underneath, along an axis of the frame */
    double up[3] = {0, 0, 0};
    int w = rnd(5);
    if (w) {
      if (w == 1) up[2] = -uni(1, 1e7);
      if (w == 2) up[2] = uni(1, 1e7);
      if (w >= 3) {
        up[rnd(2)] = uni(-1e7, 1e7);
        if (rnd(2)) up[rnd(2)] += small();
        if (w == 4) up[2] = uni(-1e7, 1e7);
      }
      wgsned2ecef_d(up, ref, v);
    }
    if (v[0] == ref[0] && v[1] == ref[1] && v[2] == ref[2]) v[0] += 5;
    wgsecef2azel(v, ref, &az, &el);
    tr_begin("az"); scaled("r", ref0, 3, -6); geo("g", g); scaled("v", v, 3, -6); tr_fx("a", az, 0); tr_fx("el", el, 0);
    tr_i("same", !memcmp(ref, ref0, sizeof ref)); tr_end();
  }
  tr_close();
  return 0;
}
