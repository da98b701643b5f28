/* Real numbers as the limbs of specs/Fix.tla: v * 10^sh with sixteen decimals. */
#ifndef VF_FX_H
#define VF_FX_H
#include "tr.h"
static inline void fx_put(double v, int sh) {
  char b[400], d[400];
  int k = 0;
  if (!isfinite(v) || fabs(v) * pow(10, sh) >= 19999) {
    fprintf(TR, "[99999,0,0,0,0]");
    return;
  }
  snprintf(b, sizeof b, "%.*f", 16 + sh, fabs(v));
  memset(d, '0', 40);
  k = 40;
  for (char *p = b; *p; p++)
    if (*p != '.') d[k++] = *p;
  int l[5];
  for (int i = 0; i < 5; i++) {
    int n = 0;
    const char *p = d + k - 16 + 4 * (i - 1);
    if (i == 0) p = d + k - 24;
    for (int j = 0; j < (i ? 4 : 8); j++) n = n * 10 + p[j] - '0';
    l[i] = n;
  }
  if (signbit(v) && (l[0] || l[1] || l[2] || l[3] || l[4])) {
    int c = 0;
    for (int i = 4; i > 0; i--) {
      l[i] = -l[i] - c;
      c = 0;
      if (l[i] < 0) { l[i] += 10000; c = 1; }
    }
    l[0] = -l[0] - c;
  }
  fprintf(TR, "[%d,%d,%d,%d,%d]", l[0], l[1], l[2], l[3], l[4]);
}
static inline void tr_fx(const char *k, double v, int sh) {
  fprintf(TR, ",\"%s\":", k);
  fx_put(v, sh);
}
static inline void tr_fxv(const char *k, const double *v, int n, int sh) {
  fprintf(TR, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) {
    if (i) fputc(',', TR);
    fx_put(v[i], sh);
  }
  fputc(']', TR);
}
static inline double uni(double lo, double hi) { return lo + (hi - lo) * ((double)(rng() >> 11) / 9007199254740992.0); }
#endif
