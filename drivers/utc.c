/* UTC, calendar, MJD and Unix conversions at instants of whole 1/1024 s. */
#include "tr.h"
#include <math.h>
#include <swiftnav/gnss_time.h>
#define WKT (604800LL * 1024)
#define DAYT (86400LL * 1024)
static void pair(const char *k, int64_t a, int64_t b) {
  long long v[2] = {a, b};
  tr_ai(k, v, 2);
}
static int near_ok;
static int64_t near1024(double v, double tol) {
  double r = nearbyint(v * 1024);
  if (!(fabs(r) < 9e15)) { near_ok = 0; return 2147483647LL; }
  if (!(fabs(v * 1024 - r) <= tol)) near_ok = 0;
  return (int64_t)r;
}
/* one number of days as <day, ticks> */
static void pmjd(const char *k, double mjd) {
  double r = nearbyint(mjd * DAYT);
  if (!(fabs(r) < 9e15) || fabs(mjd * DAYT - r) > 0.02) near_ok = 0, r = 0;
  int64_t n = (int64_t)r, d = n / DAYT, q = n % DAYT;
  if (q < 0) { q += DAYT; d--; }
  pair(k, d, q);
}
static void pgps(const char *k, gps_time_t t) { pair(k, t.wn, near1024(t.tow, 0.02)); }
static void putc_(const char *k, const utc_tm *u, double tol) {
  long long v[9] = {u->year, u->year_day, u->month, u->month_day, u->week_day,
                    u->hour, u->minute, u->second_int, near1024(u->second_frac, tol)};
  tr_ai(k, v, 9);
}
static void pdate(const char *k, s32 y, s32 m, s32 d, s32 h, s32 mi, double s) {
  long long v[6] = {y, m, d, h, mi, near1024(s, 0.02)};
  tr_ai(k, v, 6);
}
static gps_time_t mk(int64_t wn, int64_t k) {
  while (k < 0) { k += WKT; wn--; }
  while (k >= WKT) { k -= WKT; wn++; }
  return (gps_time_t){.wn = (s16)wn, .tow = k / 1024.0};
}
static gps_time_t plus(gps_time_t t, int64_t k) { return mk(t.wn, (int64_t)(t.tow * 1024) + k); }
static void e_cv(gps_time_t t, const utc_params_t *p) {
  utc_tm u;
  gps_time_t g;
  s32 y, m, d, h, mi;
  double s;
  if (t.wn < 0) return;
  near_ok = 1;
  memset(&u, 0xa5, sizeof u);
  tr_begin("cv");
  pair("t", t.wn, (int64_t)(t.tow * 1024));
  int use = p && p->t_lse.wn > 0;
  tr_i("use", use);
  if (use) {
    tr_i("a0", (int64_t)(p->a0 * 1024));
    pair("lse", p->t_lse.wn, (int64_t)(p->t_lse.tow * 1024));
    tr_i("ls", p->dt_ls); tr_i("lsf", p->dt_lsf);
  }
  fflush(TR);
  gps2utc(&t, &u, p);
  putc_("utc", &u, 0);
  tr_i("off", near1024(get_gps_utc_offset(&t, p), 0));
  tr_i("il", is_leap_second_event(&t, p));
  utc2gps(&u, &g, p);
  pgps("back", g);
  double mjd = gps2mjd_params(&t, p);
  pmjd("mjd", mjd);
  pmjd("umjd", utc2mjd(&u));
  pgps("mjdg", mjd2gps_params(mjd, p));
  gps2date_params(&t, &y, &m, &d, &h, &mi, &s, p);
  pdate("date", y, m, d, h, mi, s);
  pgps("dateg", date2gps_params(y, m, d, h, mi, s, p));
  tr_i("near", near_ok);
  if (!use) {
    int64_t x = gps2time(&t);
    pair("unix", x >= 0 ? x / 86400 : -1, x >= 0 ? x % 86400 : -1);
    tr_i("doy", gps2doy(&t));
    if (!p) {
      pmjd("mjd0", gps2mjd(&t));
      pgps("mjdg0", mjd2gps(mjd));
      gps2date(&t, &y, &m, &d, &h, &mi, &s);
      pdate("date0", y, m, d, h, mi, s);
      pgps("dateg0", date2gps(y, m, d, h, mi, s));
    }
  }
  tr_end();
}
/* calendar only: no leap seconds involved */
static void e_date(int y, int m, int d, int h, int mi, int sk) {
  s32 a, b, c, e, f;
  double s;
  near_ok = 1;
  tr_begin("date");
  pdate("in", y, m, d, h, mi, sk / 1024.0);
  double mjd = date2mjd(y, m, d, h, mi, sk / 1024.0);
  pmjd("mjd", mjd);
  mjd2date(mjd, &a, &b, &c, &e, &f, &s);
  pdate("out", a, b, c, e, f, s);
  int post = y >= 1981;
  tr_i("post", post);
  if (post) {
    utc_tm u = mjd2utc(mjd), v = date2utc(y, m, d, h, mi, sk / 1024.0);
    putc_("utc", &u, 0.02);
    putc_("utc2", &v, 0.02);
  }
  tr_i("near", near_ok);
  tr_i("dim", days_in_month(y, m));
  tr_i("leap", is_leap_year(y));
  tr_end();
}
/* Unix seconds given as day and second of day */
static void e_unix(int64_t day, int64_t sec, int ref) {
  time_t x = day * 86400 + sec;
  int ok = unix_time_valid_with_wn_ref(&x, ref);
  tr_begin("unix");
  pair("in", day, sec);
  tr_i("ref", ref);
  tr_i("ok", ok);
  tr_i("ok0", unix_time_valid(&x));
  if (unix_time_valid(&x) && day < 200000) {
    gps_time_t t = time2gps_t(x);
    near_ok = 1;
    pgps("t", t);
    tr_i("near", near_ok);
  }
  tr_end();
}
/* the offset polynomial: dt whole seconds from tot */
static void e_off(int a0, int a1, int a2, int dt, int ls, int lsf, int rel) {
  utc_params_t p = {.a0 = a0 / 1024.0, .a1 = a1 / 1024.0, .a2 = a2 / 1024.0, .dt_ls = ls, .dt_lsf = lsf};
  p.tot = mk(2000, 300000 * 1024LL);
  gps_time_t t = plus(p.tot, dt * 1024LL);
  p.t_lse = plus(t, -(int64_t)rel);
  near_ok = 1;
  tr_begin("off");
  tr_i("a0", a0); tr_i("a1", a1); tr_i("a2", a2); tr_i("dt", dt);
  tr_i("ls", ls); tr_i("lsf", lsf); tr_i("rel", rel);
  tr_i("g2u", near1024(get_gps_utc_offset(&t, &p), 0));
  tr_i("u2g", near1024(get_utc_gps_offset(&t, &p), 0));
  tr_i("near", near_ok);
  tr_end();
}
/* --- within seconds of a UTC midnight, in units of 2^-30 s --- */
#define FT 1073741824.0
typedef struct {
  int use, wn, dn, leap, ls, a0, a1, k;
  utc_params_t p;
  gps_time_t base; /* GPS time of that midnight plus ls */
} edge_t;
static void pfine(const char *k, double d) {
  double s = floor(d), n = nearbyint((d - s) * FT);
  if (!(fabs(s) < 2e9)) s = 2e9, n = 0;
  if (n >= FT) s += 1, n = 0;
  pair(k, (int64_t)s, (int64_t)n);
}
static void pedge(const edge_t *e) {
  tr_i("use", e->use);
  pair("m", e->wn, e->dn);
  tr_i("leap", e->leap); tr_i("ls", e->ls);
  tr_i("a0", e->a0); tr_i("a1", e->a1); tr_i("k", e->k);
}
static const utc_params_t *par(const edge_t *e) { return e->use ? &e->p : NULL; }
static int fine_frac(double f) { return f >= 0 && f < 1; }
static void putcf(const utc_tm *u) {
  long long v[9] = {u->year, u->year_day, u->month, u->month_day, u->week_day, u->hour, u->minute, u->second_int,
                    (int64_t)nearbyint(u->second_frac * FT)};
  tr_ai("utc", v, 9);
}
static void pglof(const glo_time_t *g) {
  double s = floor(g->s);
  long long v[6] = {g->n4, g->nt, g->h, g->m, (int64_t)s, (int64_t)nearbyint((g->s - s) * FT)};
  tr_ai("glo", v, 6);
}
static void e_edge(const edge_t *e, gps_time_t t, int glo) {
  gps_time_t b;
  tr_begin(glo ? "gedge" : "edge");
  pedge(e);
  pfine("x", gpsdifftime(&t, &e->base));
  fflush(TR);
  if (glo) {
    glo_time_t g = gps2glo(&t, par(e));
    pglof(&g);
    tr_i("fr", fine_frac(g.s - floor(g.s)) && g.s >= 0 && g.s < 61);
    b = glo2gps(&g, par(e));
  } else {
    utc_tm u;
    memset(&u, 0xa5, sizeof u);
    gps2utc(&t, &u, par(e));
    putcf(&u);
    tr_i("fr", fine_frac(u.second_frac));
    tr_i("il", is_leap_second_event(&t, par(e)));
    pfine("off", get_gps_utc_offset(&t, par(e)) - e->ls);
    utc2gps(&u, &b, par(e));
  }
  pfine("back", gpsdifftime(&b, &e->base));
  tr_end();
}
/* the reading s + f seconds from the end of 23:59:59, without asking gps2utc */
static void e_back(const edge_t *e, int s, double f, int glo) {
  gps_time_t b, day = {.wn = (s16)e->wn, .tow = e->dn * 86400.0 - 43200};
  int before = s < 0, in = !before && s < e->leap;
  tr_begin(glo ? "guedge" : "uedge");
  pedge(e);
  utc_tm u;
  if (!before && !in) day.tow += 86400;
  normalize_gps_time(&day);
  make_utc_tm(&day, &u);
  int sec = before ? 60 + s : in ? 60 : s - e->leap;
  if (glo) {
    if (before || in) day.tow += 86400; /* it is past midnight in Moscow */
    normalize_gps_time(&day);
    make_utc_tm(&day, &u);
    glo_time_t g = {.h = before || in ? 2 : 3, .m = before || in ? 59 : 0, .s = sec + f};
    int c = (u.year - 1996) / 4;
    g.n4 = c + 1;
    g.nt = (u.year - 1996 - 4 * c) * 365 + u.year_day + (u.year > 1996 + 4 * c);
    pglof(&g);
    b = glo2gps(&g, par(e));
  } else {
    u.hour = before || in ? 23 : 0;
    u.minute = before || in ? 59 : 0;
    u.second_int = sec;
    u.second_frac = f;
    putcf(&u);
    utc2gps(&u, &b, par(e));
  }
  pfine("back", gpsdifftime(&b, &e->base));
  tr_end();
}
static void edges(const edge_t *e, gps_time_t lse, int quick, int glo) {
  for (int s = -2; s <= 3; s++)
    for (int j = 0; j < (quick ? 9 : 21); j++) {
      gps_time_t t = lse;
      t.tow += s;
      if (j < 7)
        for (int i = 0; i < abs(j - 3); i++) t.tow = nextafter(t.tow, j < 3 ? -1e9 : 1e9);
      else if (j & 1)
        t.tow += ((int)rnd(33) - 16) / FT * (1 << rnd(12));
      else
        t.tow += (rng() >> 11) * 0x1p-53;
      normalize_gps_time(&t);
      e_edge(e, t, glo);
    }
  static const double fr[] = {0, 0x1p-52, 0x1p-40, 1e-9, 1e-6, 0.25, 0.5, 0.75, 1 - 1e-6, 1 - 5e-7, 1 - 1e-7, 1 - 1e-9, 1 - 0x1p-40, 1 - 0x1p-47};
  for (int s = -2; s <= 3; s++)
    for (int j = 0; j < 14; j++)
      if (!quick || j == 0 || j == 13 || rnd(3) == 0) e_back(e, s, fr[j], glo);
}
static void all_edges(int quick, int glo) {
  edge_t e;
  /* the built-in history */
  memset(&e, 0, sizeof e);
  e.leap = 1;
  for (int d = glo ? 5844 : 1; d < 15000; d++) { /* midnights from 6 January 1980 */
    gps_time_t m = {.wn = (s16)(d / 7), .tow = d % 7 * 86400.0}, a = m, z = m;
    a.tow -= 60, z.tow += 60;
    normalize_gps_time(&a);
    if (get_gps_utc_offset(&z, NULL) == get_gps_utc_offset(&a, NULL)) continue;
    e.wn = (d - 1) / 7, e.dn = (d - 1) % 7 + 1;
    e.ls = (int)get_gps_utc_offset(&a, NULL);
    e.base = m;
    e.base.tow += e.ls;
    normalize_gps_time(&e.base);
    for (int i = 0; i < (quick ? 1 : 10); i++) edges(&e, e.base, quick, glo);
  }
  /* announced by subframe 4 page 18 */
  for (int i = 0; i < (quick ? 60 : 1500); i++) {
    memset(&e, 0, sizeof e);
    int ref = 1200 + rnd(1400), wt = ref + rnd(i % 4 ? 8 : 256), tot = rnd(147);
    e.use = 1;
    e.wn = ref + rnd(i % 4 ? 8 : 256), e.dn = 1 + rnd(7);
    e.ls = rnd(2) ? 18 : rnd(60);
    e.leap = rnd(6) > 0;
    e.a0 = rnd(6) ? (int)rnd(2001) - 1000 : (int)rnd(400000000) - 200000000;
    e.a1 = rnd(5) ? (int)rnd(2001) - 1000 : 0;
    e.k = ((e.wn - wt) * 604800 + e.dn * 86400 - tot * 4096) / 128;
    u32 w[8], a0 = (u32)e.a0;
    memset(w, 0, sizeof w);
    w[0] = (1u << 28) | (56u << 22);
    w[3] = ((u32)e.a1 & 0xFFFFFF) << 6;
    w[4] = (a0 >> 8) << 6;
    w[5] = (a0 & 0xFF) << 22 | (u32)tot << 14 | (u32)(wt & 255) << 6;
    w[6] = (u32)e.ls << 22 | (u32)(e.wn & 255) << 14 | (u32)e.dn << 6;
    w[7] = (u32)(e.ls + e.leap) << 22;
    if (!decode_utc_parameters_with_wn_ref(w, &e.p, ref)) {
      tr_begin("undecoded");
      tr_end();
      continue;
    }
    e.base = (gps_time_t){.wn = (s16)e.wn, .tow = e.dn * 86400.0 + e.ls};
    normalize_gps_time(&e.base);
    edges(&e, e.p.t_lse, quick, glo);
  }
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = atoi(argv[2]), quick = atoi(argv[3]);
  rng_seed(atoi(argv[4]));
  const int64_t edge[] = {-86400 * 1024LL, -3601 * 1024LL, -2 * 1024, -1536, -1025, -1024, -1023, -512, -1, 0, 1, 511,
                          512, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 61 * 1024LL, 3600 * 1024LL, 86400 * 1024LL};
  const int NE = sizeof(edge) / sizeof(*edge);
  if (part == 0) {
    /* ends of June and December of every year, with the built-in history */
    int lasty = quick ? 2075 : 2600;
    int64_t day = 0; /* days since 6 January 1980 */
    for (int y = 1980; y <= lasty; y++)
      for (int m = 1; m <= 12; m++) {
        int len = days_in_month(y, m);
        if (len < 28 || len > 31) len = 30;
        int d0 = (y == 1980 && m == 1) ? 6 : 1;
        for (int d = d0; d <= len; d++, day++) {
          int wn = day / 7;
          int64_t k = (day % 7) * DAYT;
          int off = 0;
          /* any guess of the offset will do: it only picks where to look */
          gps_time_t t0 = mk(wn, k);
          off = (int)get_gps_utc_offset(&t0, NULL);
          if (d == 1 && (m == 1 || m == 7))
            for (int i = 0; i < NE; i++)
              for (int o = (quick && y > 2030) ? 1 : 0; o < 2; o++)
                e_cv(plus(t0, edge[i] + (off - 1 + o) * 1024LL), NULL);
          else if (d == 1 || (m == 2 && d >= 28) || y % 100 == 0)
            for (int i = 8; i <= 10; i++) e_cv(plus(t0, edge[i] + off * 1024LL), NULL);
          if (!quick || day % 2 == (y & 1)) e_cv(plus(t0, rng() % DAYT), NULL);
        }
      }
  }
  if (part == 1) {
    /* broadcast parameters, consistent with an event at a UTC midnight */
    int n = quick ? 260 : 4000;
    for (int i = 0; i < n; i++) {
      utc_params_t p;
      memset(&p, 0, sizeof p);
      int day = 2500 + rnd(i % 3 ? 40000 : 14000);
      p.dt_ls = rnd(4) ? 10 + rnd(12) : rnd(100);
      p.dt_lsf = p.dt_ls + (rnd(4) ? 1 : 0);
      p.a0 = rnd(3) ? ((int)rnd(1025) - 512) / 1024.0 : 0;
      p.t_lse = mk(day / 7, (day % 7) * DAYT + (int64_t)(p.a0 * 1024) + p.dt_ls * 1024LL);
      p.tot = plus(p.t_lse, -(int64_t)(rng() % (3 * WKT)));
      for (int j = 0; j < NE; j++) e_cv(plus(p.t_lse, edge[j]), &p);
      for (int j = 0; j < 4; j++) e_cv(plus(p.t_lse, (int64_t)(rng() % (400 * DAYT)) - 200 * DAYT), &p);
      /* parameters without a valid event time do not count */
      p.t_lse.wn = rnd(2) ? 0 : -1;
      gps_time_t t = mk(day / 7, rng() % WKT);
      e_cv(t, &p);
    }
    for (int i = 0; i < (quick ? 3000 : 40000); i++) {
      int z = rnd(3);
      e_off((int)rnd(2049) - 1024, z ? (int)rnd(41) - 20 : 0, z > 1 ? (int)rnd(5) - 2 : 0, (int)rnd(1201) - 600,
            rnd(60), rnd(60), (int)rnd(4) * 512 + (rnd(2) ? 0 : (int)rnd(200000) - 100000));
    }
  }
  if (part == 2) {
    int lasty = quick ? 2110 : 2600;
    for (int y = 1859; y <= lasty; y++)
      for (int m = 1; m <= 12; m++) {
        int len = days_in_month(y, m);
        if (len < 28 || len > 31) len = 30;
        for (int d = 1; d <= len; d++) {
          if (quick && d > 1 && d < len - 1 && (y * 3 + m * 5 + d) % 8) continue;
          if (d == 1 || d == len) e_date(y, m, d, 0, 0, 0);
          if (d == len) e_date(y, m, d, 23, 59, 59 * 1024 + 1023);
          e_date(y, m, d, rnd(24), rnd(60), rnd(60 * 1024));
        }
      }
    for (int i = 0; i < (quick ? 3000 : 30000); i++) {
      int r = rnd(4) ? 1876 : rnd(i % 2 ? 9000 : 65536);
      int64_t d = rnd(60000), s = rnd(86400);
      if (rnd(3) == 0) {
        int64_t x = (int64_t)r * 604800 + 315964800 + (int)rnd(5) - 2;
        d = x / 86400, s = x % 86400;
      }
      if (rnd(4) == 0) s = rnd(2) ? 0 : 86399;
      e_unix(d, s, r);
    }
    e_unix(-1, 86399, 1876); e_unix(-1, 86399, 0); e_unix(0, 0, 0); e_unix(3657, 0, 0); e_unix(3657, 1, 0);
  }
  if (part >= 3) all_edges(quick, part == 4);
  tr_close();
  return 0;
}
