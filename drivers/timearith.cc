/* GPS time arithmetic on instants that are whole numbers of 1/1024 s, so every
 * operation is exact; plus instants a hair from a boundary. */
#include <initializer_list>
#include "tr.h"
#include <swiftnav/gnss_time.h>
static const double TK = 1024.0;
static const int64_t WKT = 604800LL * 1024;
static int inr(double tow) { return tow >= 0 && tow < 604800; }
/* nearest tick; *x tells whether it is exactly that */
static int64_t ticks(double v, int *x) {
  double r = nearbyint(v * TK);
  if (!(fabs(r) < 4e15)) { *x = 0; return 2147483647LL; }
  if (r / TK != v) *x = 0;
  return (int64_t)r;
}
static void pair(const char *k, int64_t a, int64_t b) {
  long long v[2] = {a, b};
  tr_ai(k, v, 2);
}
static void ptime(const char *k, gps_time_t t, int *x) { pair(k, t.wn, ticks(t.tow, x)); }
/* a number of seconds as <weeks, ticks>, floored */
static void pdiff(const char *k, double s, int *x) {
  int64_t n = ticks(s, x), w = n / WKT, r = n % WKT;
  if (r < 0) { r += WKT; w--; }
  pair(k, w, r);
}
static gps_time_t mk(int wn, int64_t k) { gps_time_t t; t.wn = wn; t.tow = (double)k / TK; return t; }
static void e_diff(int aw, int64_t ak, int bw, int64_t bk) {
  gps_time_t a = mk(aw, ak), b = mk(bw, bk);
  int x = 1;
  tr_begin("diff");
  pair("a", aw, ak); pair("b", bw, bk);
  pdiff("d", gpsdifftime(&a, &b), &x);
  pdiff("m", a - b, &x);
  long long c[5] = {a == b, a < b, a > b, a <= b, a >= b};
  tr_ai("cmp", c, 5);
  tr_i("x", x);
  tr_end();
}
static void e_dws(int aw, int64_t ak, int bw, int64_t bk) {
  gps_time_t a = mk(aw, ak), b = mk(bw, bk);
  int x = 1;
  gps_time_duration_t d; d.seconds = 77; d.weeks = 77;
  bool ok = gpsdifftime_week_second(&a, &b, &d);
  tr_begin("dws");
  pair("a", aw, ak); pair("b", bw, bk);
  tr_i("ok", ok);
  pair("d", d.weeks, ticks(d.seconds, &x));
  tr_i("x", x);
  tr_end();
}
static void e_dur(int w, int64_t k) {
  int x = 1;
  gps_time_duration_t d; d.seconds = k / TK; d.weeks = w;
  normalize_gps_time_duration(&d);
  tr_begin("dur");
  pair("a", w, k);
  pair("d", d.weeks, ticks(d.seconds, &x));
  tr_i("x", x);
  tr_end();
}
static void e_match(int aw, int64_t ak, int bw, int64_t bk) {
  gps_time_t a = mk(aw, ak), b = mk(bw, bk), c;
  int x = 1;
  bool ok = gps_time_match_weeks_safe(&a, &b);
  if (ok) { c = mk(aw, ak); gps_time_match_weeks(&c, &b); if (c.wn != a.wn || c.tow != a.tow) ok = 2; }
  tr_begin("match");
  pair("a", aw, ak); pair("b", bw, bk);
  tr_i("ok", ok);
  ptime("t", a, &x);
  tr_end();
}
static void e_norm(int w, int64_t k) {
  int x = 1;
  gps_time_t t = mk(w, k), u = t;
  bool ok = normalize_gps_time_safe(&t);
  if (ok) { normalize_gps_time(&u); if (u.wn != t.wn || u.tow != t.tow) x = 0; }
  tr_begin("norm");
  pair("a", w, k);
  tr_i("ok", ok);
  ptime("t", t, &x);
  tr_i("x", x);
  tr_end();
}
static void e_tiny(int w, double tow) {
  int x = 1;
  gps_time_t t; t.wn = w; t.tow = tow;
  tr_begin("tiny");
  ptime("a", t, &x);
  normalize_gps_time_safe(&t);
  ptime("t", t, &x);
  tr_i("in", inr(t.tow));
  tr_end();
}
/* durations within a rounding error of a whole number of weeks */
static void e_tdur(int w, double sec, int diff) {
  int x = 1;
  gps_time_duration_t d; d.weeks = w; d.seconds = sec;
  if (diff) {
    /* the same as the difference of two times */
    gps_time_t e = mk(1000 + w, 0), b = mk(1000, 0);
    if (sec < 0) b.tow = -sec; else e.tow = sec;
    gpsdifftime_week_second(&e, &b, &d);
  } else {
    normalize_gps_time_duration(&d);
  }
  tr_begin("tdur");
  pair("a", w, ticks(sec, &x));
  pair("d", d.weeks, ticks(d.seconds, &x));
  tr_i("in", fabs(d.seconds) < 604800);
  tr_i("sg", d.weeks == 0 || d.seconds == 0 || (d.weeks > 0) == (d.seconds > 0));
  tr_end();
}
static void e_valid(int w, double tow) {
  gps_time_t t; t.wn = w; t.tow = tow;
  int x = 1;
  tr_begin("valid");
  tr_i("fin", isfinite(tow) ? 1 : 0);
  pair("a", w, isfinite(tow) ? ticks(tow, &x) : 0);
  tr_i("ge", tow >= 0); tr_i("lt", tow < 604800);
  tr_i("ok", gps_time_valid(&t));
  tr_end();
}
static void e_range(int bw, int64_t bk, int ew, int64_t ek, int tw, int64_t tk) {
  gps_time_t b = mk(bw, bk), e = mk(ew, ek), t = mk(tw, tk);
  tr_begin("range");
  pair("bgn", bw, bk); pair("end", ew, ek); pair("a", tw, tk);
  tr_i("ok", gpstime_in_range(&b, &e, &t));
  tr_end();
}
static void e_start(gps_time_t t) {
  int x = 1;
  tr_begin("start");
  ptime("t", t, &x);
  tr_end();
}
static void e_add(gps_time_t *t, int64_t k, int how) {
  int x = 1;
  double s = k / TK;
  switch (how) {
    case 0: add_secs(t, s); break;
    case 1: *t = *t + s; break;
    case 2: *t += s; break;
    case 3: *t = *t - (-s); break;
    case 4: *t -= -s; break;
    case 5: *t = s + *t; break;
    case 6: t->tow += s; unsafe_normalize_gps_time(t); break;
    case 7: { gps_time_t u = *t; u.tow += s; normalize_gps_time(&u); *t = u; break; }
  }
  tr_begin("add");
  tr_i("k", k); tr_i("how", how);
  ptime("t", *t, &x);
  tr_i("x", x); tr_i("in", inr(t->tow));
  tr_end();
}
/* epochs: f = fn/fd Hz; the week has wk eighths of an epoch */
static void e_epoch(int fl, int fn, int fd, int wn, int64_t n8) {
  int64_t wk = 604800LL * 8 * fn / fd;
  double f = (double)fn / fd;
  gps_time_t t; t.wn = wn; t.tow = (double)n8 * fd / (8.0 * fn);
  gps_time_t r = fl ? floor_to_epoch(&t, f) : round_to_epoch(&t, f);
  double v = r.tow * 8.0 * fn / fd, q = nearbyint(v);
  tr_begin(fl ? "floor" : "round");
  pair("a", wn, n8);
  tr_i("wk", wk); tr_i("dec", (fn & (fn - 1)) != 0);
  pair("t", r.wn, (int64_t)q);
  tr_i("near", fabs(v - q) < 1e-3); tr_i("in", inr(r.tow));
  tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[3]);
  rng_seed(atoi(argv[4]));
  int part = atoi(argv[2]);
  static const int64_t H = WKT / 2;
  const int64_t K[] = {0, 1, 2, 1024, 1023, 1025, H - 1024, H - 1, H, H + 1, H + 1024, WKT / 7,
                       WKT - 1025, WKT - 1024, WKT - 1023, WKT - 2, WKT - 1, 315964800 % WKT};
  const int NK = sizeof(K) / sizeof(*K);
  const int W[] = {-1, 0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2200, 16384, 32766, 32767};
  const int NW = sizeof(W) / sizeof(*W);
  int reps = quick ? 1 : 12;
  if (part == 1) {
    const int fr[][2] = {{1, 1}, {2, 1}, {4, 1}, {8, 1}, {16, 1}, {1, 2}, {1, 4}, {1, 64}, {1, 128},
                         {5, 1}, {10, 1}, {20, 1}, {50, 1}, {100, 1}, {25, 1}, {1, 10}, {1, 5}, {3, 1}, {1, 7}};
    for (unsigned i = 0; i < sizeof(fr) / sizeof(*fr); i++)
      for (int w : {-1, 0, 1, 2045, 32000}) {
        int64_t wk = 604800LL * 8 * fr[i][0] / fr[i][1];
        for (int fl = 0; fl < 2; fl++) {
          for (int j = 0; j <= 24; j++) {
            e_epoch(fl, fr[i][0], fr[i][1], w, j);
            e_epoch(fl, fr[i][0], fr[i][1], w, wk - 1 - j);
            e_epoch(fl, fr[i][0], fr[i][1], w, wk / 2 - 12 + j);
          }
          for (int j = 0; j < 60 * reps; j++) e_epoch(fl, fr[i][0], fr[i][1], w, rng() % wk);
        }
      }
    tr_close();
    return 0;
  }
  /* independent records */
  if (part == 0) {
  for (int i = 0; i < NK; i++)
    for (int w = 0; w < NW; w++) {
      for (int m = -3; m <= 3; m++) {
        int64_t k = K[i] + m * WKT;
        if (W[w] + m > 32766 || k > 2147000000LL || k < -2147000000LL) continue;
        e_norm(W[w], k);
      }
      e_norm(-2, K[i]); e_norm(-2, K[i] + WKT); e_norm(-300, K[i]);
    }
  const double tiny[] = {1e-300, 1e-20, 1e-12, 1.0 / (1LL << 40), 5e-11, 1e-10, 1e-9, 1e-7};
  for (double d : tiny)
    for (int w : {-1, 1, 1024, 2200}) {
      for (int m = -2; m <= 2; m++) { e_tiny(w, m * 604800.0 - d); e_tiny(w, m * 604800.0 + d); }
      e_tiny(w, nextafter(604800.0, 0)); e_tiny(w, nextafter(604800.0, 1e9)); e_tiny(w, -0.0);
      for (int v : {-3, -1, 0, 1, 2}) {
        for (int m = -2; m <= 2; m++) { e_tdur(v, m * 604800.0 - d, 0); e_tdur(v, m * 604800.0 + d, 0); }
        e_tdur(v, nextafter(604800.0, 0), 0); e_tdur(v, -nextafter(604800.0, 0), 0); e_tdur(v, -nextafter(604800.0, 1e9), 0);
        for (double q : {d, -d, nextafter(604800.0, 0), -nextafter(604800.0, 0)}) e_tdur(v, q, 1);
      }
      e_valid(w, -d); e_valid(w, d); e_valid(w, 604800 - d); e_valid(w, 604800 + d);
    }
  for (int w = 0; w < NW; w++)
    for (double v : {-1.0, -0.0, 0.0, 1.0, 604799.0, nextafter(604800.0, 0), 604800.0, 604801.0, 1e39, -1e39,
                     (double)INFINITY, -(double)INFINITY, (double)NAN}) {
      e_valid(W[w], v); e_valid(-2, v); e_valid(-32768, v);
    }
  for (int i = 0; i < NK; i++)
    for (int j = 0; j < NK; j++) {
      for (int w = 0; w < NW; w++)
        for (int v = 0; v < NW; v++) {
          if (quick && (i * 7 + j * 3 + w + v) % 3) continue;
          e_diff(W[w], K[i], W[v], K[j]);
          e_dws(W[w], K[i], W[v], K[j]);
        }
      for (int w = 0; w < NW; w++)
        for (int a : {-1, 0, 5, 2200}) {
          if (W[w] == 32767) continue;
          if (quick && (i + j + w + a) % 2) continue;
          e_match(a, K[i], W[w], K[j]);
        }
      for (int b = -1; b <= 1; b++)
        for (int m = -2; m <= 2; m++) {
          if (K[i] + m * WKT > 2147000000LL || K[i] + m * WKT < -2147000000LL) continue;
          e_dur(b * 3, K[i] + m * WKT);
          e_dur(b, -K[i] + m * WKT);
        }
      e_match(-1, K[i] + WKT, 5, K[j]);
      e_match(-1, K[i] - WKT, 5, K[j]);
      e_dws(5, K[i] + WKT, 5, K[j]);
      e_dws(5, K[i], 5, K[j] - WKT);
    }
  for (int i = 0; i < NK; i++)
    for (int j = 0; j < NK; j++)
      for (int m = 0; m < NK; m++) {
        if (quick && (i + 5 * j + 3 * m) % 4) continue;
        for (int e = -1; e <= 2; e++)
          for (int t = -2; t <= 3; t++) e_range(1000, K[i], 1000 + e, K[j], t == -2 ? -1 : 1000 + t, K[m]);
      }
  for (int n = 0; n < 6000 * reps; n++) {
    int64_t a = rng() % WKT, b = rng() % WKT, c = rng() % WKT;
    int w = rnd(32700), v = rnd(3) ? (int)rnd(32700) : w + (int)rnd(3) - 1;
    if (rnd(9) == 0) w = -1;
    if (rnd(9) == 0 || v < 0) v = -1;
    switch (rnd(5)) {
      case 0: e_diff(w, a, v, b); break;
      case 1: e_dws(w, a, v, b); break;
      case 2: e_match(w, a, v, b); break;
      case 3: e_norm(w, a + ((int)rnd(3) - 1) * WKT); break;
      case 4: w = rnd(30000); e_range(w, a, w + rnd(3), b, rnd(6) ? w + (int)rnd(3) : -1, c); break;
    }
  }
  }
  /* histories: a clock moved about */
  if (part == 2)
  for (int h = 0; h < 150 * reps; h++) {
    gps_time_t t = mk(20 + rnd(32000), rng() % WKT);
    if (h % 3 == 0) t = mk(20 + rnd(32000), K[rnd(NK)]);
    e_start(t);
    for (int n = 0; n < 60; n++) {
      int64_t k;
      switch (rnd(5)) {
        case 0: k = K[rnd(NK)]; break;
        case 1: k = (int64_t)(rng() % (3 * WKT)) - 3 * WKT / 2; break;
        case 2: k = (int)rnd(3) - 1; break;
        case 3: k = WKT - (int64_t)nearbyint(t.tow * TK) + (int)rnd(3) - 1; break;
        default: k = -(int64_t)nearbyint(t.tow * TK) + (int)rnd(3) - 1; break;
      }
      if (rnd(2)) k = -k;
      e_add(&t, k, rnd(8));
    }
  }
  tr_close();
  return 0;
}
