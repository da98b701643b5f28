/* Navigation message helpers: decoded values in units of a field's resolution. */
#ifndef VF_NAV_H
#define VF_NAV_H
#include "tr.h"
/* base: 1, pi (semicircles), m (kilometres to metres), M (minutes), d (1e-10 s) */
typedef struct {
  const char *n;
  int k;
  char b;
  char t; /* d double, f float, h u16, B u8 */
  size_t off;
} nav_field_t;
static double nav_unit(int k, char b) {
  double u = ldexp(1.0, k);
  return b == 'p' ? u * 3.1415926535898 : b == 'm' ? u * 1000.0 : b == 'M' ? u * 60.0 : b == 'd' ? u * 1e-10 : u;
}
/* number of units as [hi, lo], value = hi * 65536 + lo; not a whole number of
   units: a pair no specification expects */
static void nav_num(double v, double u) {
  double q = v / u, n = nearbyint(q);
  if (!(fabs(q - n) <= 1e-3) || fabs(n) > 1e13) {
    fprintf(TR, "[2147483647,-1]");
    return;
  }
  double hi = floor(n / 65536.0);
  fprintf(TR, "[%lld,%lld]", tr_clamp((long long)hi), (long long)(n - hi * 65536.0));
}
static void tr_q(const char *k, double v, double u) {
  fprintf(TR, ",\"%s\":", k);
  nav_num(v, u);
}
static double nav_get(const void *base, const nav_field_t *f) {
  const char *p = (const char *)base + f->off;
  switch (f->t) {
    case 'd': { double x; memcpy(&x, p, sizeof x); return x; }
    case 'f': { float x; memcpy(&x, p, sizeof x); return x; }
    case 'h': { uint16_t x; memcpy(&x, p, sizeof x); return x; }
    case 'B': { uint8_t x; memcpy(&x, p, sizeof x); return x; }
    case 'b': { int8_t x; memcpy(&x, p, sizeof x); return x; }
    default: return NAN;
  }
}
static void nav_units(const char *kind, const nav_field_t *f, int n) {
  tr_begin("units");
  tr_s("m", kind);
  fprintf(TR, ",\"u\":{");
  for (int i = 0; i < n; i++)
    fprintf(TR, "%s\"%s\":[%d,\"%c\"]", i ? "," : "", f[i].n, f[i].k, f[i].b);
  fprintf(TR, "}");
  tr_end();
}
static void nav_values(const void *base, const nav_field_t *f, int n) {
  fprintf(TR, ",\"v\":{");
  for (int i = 0; i < n; i++) {
    fprintf(TR, "%s\"%s\":", i ? "," : "", f[i].n);
    nav_num(nav_get(base, &f[i]), nav_unit(f[i].k, f[i].b));
  }
  fprintf(TR, "}");
}
/* seconds and week of a gps time; a time of week that is not whole seconds
   becomes a value no specification expects */
static void tr_t(const char *k, int wn, double tow) {
  fprintf(TR, ",\"%s\":[%d,", k, wn);
  if (!(tow == floor(tow)) || fabs(tow) > 2e9)
    fprintf(TR, "2147483647]");
  else
    fprintf(TR, "%lld]", (long long)tow);
}
/* metres in tenths of a millimetre: accuracy values */
static void tr_m(const char *k, double v) {
  tr_i(k, isfinite(v) && fabs(v) < 1e5 ? llround(v * 1e4) : 2147483647LL);
}
#endif
