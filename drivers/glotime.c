/* GPS time to GLONASS time and back. */
#include "tr.h"
#include <swiftnav/gnss_time.h>
#define WKT (604800LL * 1024)
#define DAYT (86400LL * 1024)
static void pair(const char *k, int64_t a, int64_t b) {
  long long v[2] = {a, b};
  tr_ai(k, v, 2);
}
static int exact;
static int64_t tk(double v) {
  double r = nearbyint(v * 1024);
  if (!(fabs(r) < 9e15)) { exact = 0; return 2147483647LL; }
  if (r / 1024 != v) exact = 0;
  return (int64_t)r;
}
static gps_time_t mk(int64_t wn, int64_t k) {
  while (k < 0) { k += WKT; wn--; }
  while (k >= WKT) { k -= WKT; wn++; }
  return (gps_time_t){.wn = (s16)wn, .tow = k / 1024.0};
}
static gps_time_t plus(gps_time_t t, int64_t k) { return mk(t.wn, (int64_t)(t.tow * 1024) + k); }
static void par(const utc_params_t *p) {
  int use = p && p->t_lse.wn > 0;
  tr_i("use", use);
  if (use) {
    tr_i("a0", (int64_t)(p->a0 * 1024));
    pair("lse", p->t_lse.wn, (int64_t)(p->t_lse.tow * 1024));
    tr_i("ls", p->dt_ls); tr_i("lsf", p->dt_lsf);
  }
}
static void pglo(const char *k, glo_time_t g) {
  long long v[5] = {g.n4, g.nt, g.h, g.m, tk(g.s)};
  tr_ai(k, v, 5);
}
static void fwd(gps_time_t t, const utc_params_t *p) {
  gps_time_t ep = {.wn = GLO_EPOCH_WN, .tow = GLO_EPOCH_TOW};
  if (gpsdifftime(&t, &ep) < 0) return;
  exact = 1;
  tr_begin("fwd");
  pair("t", t.wn, (int64_t)(t.tow * 1024));
  par(p);
  glo_time_t g = gps2glo(&t, p);
  pglo("g", g);
  gps_time_t b = glo2gps(&g, p);
  pair("back", b.wn, tk(b.tow));
  tr_i("x", exact);
  tr_end();
}
static void bwd(int n4, int nt, int h, int m, int k, const utc_params_t *p) {
  glo_time_t g = {.n4 = n4, .nt = nt, .h = h, .m = m, .s = k / 1024.0};
  exact = 1;
  tr_begin("bwd");
  par(p);
  pglo("g", g);
  gps_time_t b = glo2gps(&g, p);
  pair("t", b.wn, tk(b.tow));
  tr_i("x", exact);
  tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  const int64_t edge[] = {-3 * 3600 * 1024LL - 1, -3 * 3600 * 1024LL, -2 * 3600 * 1024LL, -1536, -1025, -1024, -1023, -512, -1,
                          0, 1, 512, 1023, 1024, 1025, 1536, 2048, 3600 * 1024LL, 21 * 3600 * 1024LL - 1,
                          21 * 3600 * 1024LL, 21 * 3600 * 1024LL + 1};
  const int NE = sizeof(edge) / sizeof(*edge);
  /* every day: the Moscow midnight and one more instant */
  int last = (int)((2119 - 1980) * 365.2425);
  for (int d = 5838; d < last; d++) { /* 31 December 1995 */
    gps_time_t t0 = mk(d / 7, (d % 7) * DAYT);
    int off = (int)get_gps_utc_offset(&t0, NULL);
    utc_tm u;
    gps2utc(&t0, &u, NULL);
    int ends = u.month_day >= 30 || u.month_day == 1 || (u.month == 2 && u.month_day >= 27);
    int hot = (u.month == 12 || u.month == 6 || u.month == 1 || u.month == 7) && ends;
    if (hot && (!quick || d % 3 == 0 || d < 14000))
      for (int i = 0; i < NE; i++) fwd(plus(t0, edge[i] + off * 1024LL), NULL);
    else if (ends || !quick || d % 4 == 0)
      for (int i = 18; i < NE; i++) fwd(plus(t0, edge[i] + off * 1024LL), NULL);
    if (!quick || d % 3 == 0) fwd(plus(t0, rng() % DAYT), NULL);
  }
  fwd((gps_time_t){.wn = GLO_EPOCH_WN, .tow = GLO_EPOCH_TOW}, NULL);
  /* announced seconds */
  for (int i = 0; i < (quick ? 200 : 3000); i++) {
    utc_params_t p;
    memset(&p, 0, sizeof p);
    int day = 6000 + rnd(40000);
    p.dt_ls = rnd(60);
    p.dt_lsf = p.dt_ls + (rnd(4) ? 1 : 0);
    p.a0 = rnd(2) ? ((int)rnd(1023) - 511) / 1024.0 : 0;
    p.t_lse = mk(day / 7, (day % 7) * DAYT + (int64_t)(p.a0 * 1024) + p.dt_ls * 1024LL);
    p.tot = plus(p.t_lse, -(int64_t)(rng() % (3 * WKT)));
    for (int j = 0; j < NE; j++) fwd(plus(p.t_lse, edge[j]), &p);
    fwd(plus(p.t_lse, (int64_t)(rng() % (400 * DAYT)) - 200 * DAYT), &p);
    bwd(1 + rnd(31), 1 + rnd(1460), rnd(24), rnd(60), rnd(61440), &p);
    p.t_lse.wn = rnd(2) ? 0 : -1;
    fwd(mk(day / 7, rng() % WKT), &p);
  }
  /* every day number of every cycle number, valid or not */
  for (int n4 = 0; n4 <= 255; n4++)
    for (int i = 0; i < 1470; i++) {
      if (n4 == 27 && i == 1461) continue; /* the cycle of 2100 has 1460 days */
      int edge_day = i <= 2 || (i >= 365 && i <= 368) || (i >= 730 && i <= 733) || (i >= 1095 && i <= 1098) || i >= 1458;
      if (!edge_day && (quick ? rnd(60) : rnd(4))) continue;
      if (n4 > 33 && n4 < 254 && i > 2 && rnd(20)) continue;
      bwd(n4, i, rnd(24), rnd(60), rnd(61440), NULL);
    }
  for (int i = 0; i < 300; i++) bwd(1 + rnd(31), 1462 + rnd(64000), rnd(24), rnd(60), rnd(61440), NULL);
  bwd(5, 65535, 0, 0, 0, NULL);
  tr_close();
  return 0;
}
