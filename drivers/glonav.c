/* GLONASS navigation strings. argv: trace part quick seed */
#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
#include "nav.h"
typedef struct {
  ephemeris_t e;
  glo_time_t tk, toe;
  u8 age;
  float taugps;
  double fit; /* copies of integer members */
  double satd;
} st_t;
#define G(f) offsetof(st_t, e.data.glo.f)
static const nav_field_t OUT[] = {
    {"posx", -11, 'm', 'd', G(pos[0])}, {"posy", -11, 'm', 'd', G(pos[1])},
    {"posz", -11, 'm', 'd', G(pos[2])}, {"velx", -20, 'm', 'd', G(vel[0])},
    {"vely", -20, 'm', 'd', G(vel[1])}, {"velz", -20, 'm', 'd', G(vel[2])},
    {"accx", -30, 'm', 'd', G(acc[0])}, {"accy", -30, 'm', 'd', G(acc[1])},
    {"accz", -30, 'm', 'd', G(acc[2])}, {"gamma", -40, '1', 'd', G(gamma)},
    {"tau", -30, '1', 'd', G(tau)}, {"dtau", -30, '1', 'd', G(d_tau)},
    {"iod", 0, '1', 'B', G(iod)}, {"health", 0, '1', 'B', offsetof(st_t, e.health_bits)},
    {"ura", -1, '1', 'f', offsetof(st_t, e.ura)}, {"fit", 0, '1', 'd', offsetof(st_t, fit)},
    {"sat", 0, '1', 'd', offsetof(st_t, satd)}, {"age", 0, '1', 'B', offsetof(st_t, age)},
    {"taugps", -30, '1', 'f', offsetof(st_t, taugps)},
    {"tkh", 0, '1', 'B', offsetof(st_t, tk.h)}, {"tkm", 0, '1', 'B', offsetof(st_t, tk.m)},
    {"tks", 0, '1', 'd', offsetof(st_t, tk.s)}, {"tknt", 0, '1', 'h', offsetof(st_t, tk.nt)},
    {"tkn4", 0, '1', 'h', offsetof(st_t, tk.n4)},
    {"toeh", 0, '1', 'B', offsetof(st_t, toe.h)}, {"toem", 0, '1', 'B', offsetof(st_t, toe.m)},
    {"toes", 0, '1', 'd', offsetof(st_t, toe.s)}, {"toent", 0, '1', 'h', offsetof(st_t, toe.nt)},
    {"toen4", 0, '1', 'h', offsetof(st_t, toe.n4)}};
#define NO ((int)(sizeof OUT / sizeof OUT[0]))
static nav_field_t out2[NO];
static int bit(const glo_string_t *s, int b) { return (s->word[(b - 1) / 32] >> ((b - 1) % 32)) & 1; }
static void flip(glo_string_t *s, int b) { s->word[(b - 1) / 32] ^= 1u << ((b - 1) % 32); }
static void put(glo_string_t *s, int hi, int lo, u32 v) {
  for (int b = lo; b <= hi; b++)
    if (bit(s, b) != (int)((v >> (b - lo)) & 1)) flip(s, b);
}
static void checks(glo_string_t *s) { /* make the check bits fit the data */
  int n = 3, syn = 0, tot = 0;
  for (int b = 9; b <= 85; b++, n++) {
    while ((n & (n - 1)) == 0) n++;
    if (bit(s, b)) syn ^= n;
  }
  put(s, 7, 1, syn);
  put(s, 8, 8, 0);
  for (int b = 1; b <= 85; b++) tot ^= bit(s, b);
  put(s, 8, 8, tot);
}
static void halves(const char *k, const glo_string_t *s) {
  fprintf(TR, "%s[", k);
  for (int i = 0; i < 3; i++)
    fprintf(TR, "%s%u,%u", i ? "," : "", s->word[i] & 0xffff, s->word[i] >> 16);
  fprintf(TR, "]");
}
static void rnd_state(st_t *x, bool zero) {
  memset(x, 0, sizeof *x);
  x->e.sid = construct_sid(rnd(2) ? CODE_GLO_L1OF : CODE_GLO_L2OF, 1 + rnd(28));
  if (zero) return;
  for (int i = 0; i < 3; i++) {
    x->e.data.glo.pos[i] = ((int)rnd(1 << 26) - (1 << 25)) * ldexp(1000, -11);
    x->e.data.glo.vel[i] = ((int)rnd(1 << 22) - (1 << 21)) * ldexp(1000, -20);
    x->e.data.glo.acc[i] = ((int)rnd(12) - 6) * ldexp(1000, -30);
  }
  x->e.data.glo.gamma = ((int)rnd(2000) - 1000) * ldexp(1, -40);
  x->e.data.glo.tau = ((int)rnd(20000) - 10000) * ldexp(1, -30);
  x->e.data.glo.d_tau = ((int)rnd(30) - 15) * ldexp(1, -30);
  x->e.data.glo.iod = rnd(128);
  x->e.health_bits = (u8[]){0, 1, 2, 0xfe, 0}[rnd(5)];
  x->e.ura = (float)rnd(600);
  x->e.fit_interval = (u32[]){0, 0, 2400, 3300, 4200, 1234, 600}[rnd(7)];
  x->age = rnd(32);
  x->taugps = (float)(((int)rnd(4000) - 2000) * ldexp(1, -30));
  x->tk = (glo_time_t){.n4 = (u16)(1 + rnd(31)), .nt = (u16)(1 + rnd(1461)), .h = rnd(24), .m = rnd(60), .s = rnd(60)};
  x->toe = (glo_time_t){.n4 = (u16)(1 + rnd(31)), .nt = (u16)(1 + rnd(1461)), .h = rnd(24), .m = rnd(60), .s = rnd(60)};
}
static void show(const char *k, st_t *x) {
  x->fit = x->e.fit_interval;
  x->satd = x->e.sid.sat;
  fprintf(TR, ",\"%s\":{", k);
  for (int i = 0; i < NO; i++) {
    fprintf(TR, "%s\"%s\":", i ? "," : "", OUT[i].n);
    nav_num(nav_get(x, &out2[i]), nav_unit(OUT[i].k, OUT[i].b));
  }
  fprintf(TR, "}");
}
static bool dec(int k, const glo_string_t *s, st_t *x) {
  switch (k) {
    case 1: return decode_glo_string_1(s, &x->e, &x->tk);
    case 2: return decode_glo_string_2(s, &x->e, &x->toe);
    case 3: return decode_glo_string_3(s, &x->e, &x->toe);
    case 4: return decode_glo_string_4(s, &x->e, &x->tk, &x->toe, &x->age);
    default: return decode_glo_string_5(s, &x->e, &x->tk, &x->toe, &x->taugps);
  }
}
static void str(int k, const glo_string_t *s, bool zero) {
  st_t x;
  rnd_state(&x, zero);
  tr_begin("str");
  tr_i("k", k);
  halves(",\"w\":", s);
  show("b", &x);
  tr_i("ok", dec(k, s, &x));
  show("a", &x);
  tr_end();
}
/* a string whose parameters are mostly inside their limits */
static void inside(glo_string_t *s, int k, int wild) {
  for (int i = 0; i < 3; i++) s->word[i] = (u32)(rng() >> 32);
  s->word[2] &= 0x1fffff;
  put(s, 84, 81, k);
  if (k <= 3) {
    put(s, 34, 9, rnd(wild) ? rnd(55296001) : 55296000 + (int)rnd(4) - 1);
    put(s, 63, 41, rnd(wild) ? rnd(4508877) : 4508876 + (int)rnd(4) - 1);
    put(s, 39, 36, rnd(wild) ? rnd(7) : 5 + rnd(11));
  }
  if (k == 1) {
    put(s, 76, 72, rnd(wild) ? rnd(24) : 22 + rnd(10));
    put(s, 71, 66, rnd(wild) ? rnd(60) : 58 + rnd(6));
  }
  if (k == 2) put(s, 76, 70, rnd(wild) ? 1 + rnd(95) : (u32[]){0, 1, 95, 96, 127}[rnd(5)]);
  if (k == 4) {
    put(s, 15, 11, rnd(wild) ? 1 + rnd(28) : (u32[]){0, 1, 24, 28, 29, 31}[rnd(6)]);
    put(s, 26, 16, rnd(wild) ? 1 + rnd(1461) : (u32[]){0, 1, 366, 1461, 1462, 2047}[rnd(6)]);
  }
  if (k == 5) {
    put(s, 36, 32, rnd(wild) ? 1 + rnd(31) : rnd(4));
    put(s, 30, 10, rnd(wild) ? rnd(2040110) : 2040109 + (int)rnd(5) - 2);
  }
}
static void strings(bool quick) {
  glo_string_t s;
  for (int k = 1; k <= 5; k++) {
    for (int b = 8; b <= 85; b++) { /* one bit */
      memset(&s, 0, sizeof s);
      put(&s, 84, 81, k);
      if (k == 2) put(&s, 76, 70, b > 69 && b < 77 ? 0 : 1);
      if (k == 4 && !(b >= 11 && b <= 15)) put(&s, 15, 11, 1);
      if (k == 5 && !(b >= 32 && b <= 36)) put(&s, 36, 32, 1);
      if (b > 8) flip(&s, b);
      checks(&s);
      str(k, &s, true);
    }
    for (int v = 0; v < 128; v++) { /* each value of the small fields */
      inside(&s, k, 100000);
      if (k <= 3) put(&s, 39, 36, v);
      if (k == 1) put(&s, 76, 72, v & 31);
      if (k == 1 && v >= 64) put(&s, 76, 72, 3), put(&s, 71, 66, v & 63);
      if (k == 2) put(&s, 76, 70, v);
      if (k == 4) put(&s, 15, 11, 1 + v % 28), put(&s, 33, 30, v);
      if (k == 4 && v >= 96) put(&s, 15, 11, v & 31);
      if (k == 5) put(&s, 36, 32, v & 31);
      checks(&s);
      str(k, &s, false);
    }
    int n = quick ? 220 : 4000;
    for (int i = 0; i < n; i++) {
      inside(&s, k, 12);
      if (rnd(20) == 0) put(&s, 84, 81, rnd(16));
      checks(&s);
      if (rnd(8) == 0) flip(&s, 1 + rnd(85));
      if (rnd(12) == 0) flip(&s, 1 + rnd(85));
      str(k, &s, rnd(8) == 0);
    }
    for (int o = 1; o <= 15; o++) { /* the other strings */
      inside(&s, o > 5 ? k : o, 100000);
      put(&s, 84, 81, o);
      checks(&s);
      str(k, &s, false);
    }
  }
  int n = quick ? 250 : 4000;
  for (int i = 0; i < n; i++) {
    glo_string_t q[5];
    int bad = rnd(3) ? 0 : 1 + rnd(5);
    for (int k = 0; k < 5; k++) {
      inside(&q[k], k + 1, k + 1 == bad ? 2 : 100000);
      if (k == 3 && bad == 0 && rnd(10) == 0) put(&q[k], 26, 16, rnd(2) ? 0 : 1461);
      if (bad == 0 && rnd(40) == 0) put(&q[k], 84, 81, rnd(16));
      checks(&q[k]);
      if (k + 1 == bad && rnd(3) == 0) flip(&q[k], 9 + rnd(77));
    }
    /* the last day of the cycle that starts in 2100 does not exist */
    if (extract_word_glo(&q[4], 32, 5) == 27 && extract_word_glo(&q[3], 16, 11) == 1461) continue;
    st_t x;
    rnd_state(&x, rnd(4) == 0);
    x.e.valid = rnd(2);
    x.e.source = rnd(4);
    x.e.toe = (gps_time_t){.wn = 7, .tow = 3};
    int code0 = x.e.sid.code;
    tr_begin("eph");
    fprintf(TR, ",\"w\":");
    for (int k = 0; k < 5; k++) halves(k ? "," : "[", &q[k]);
    fprintf(TR, "]");
    show("b", &x);
    decode_glo_ephemeris(q, x.e.sid, NULL, &x.e);
    show("a", &x);
    tr_t("toe", x.e.toe.wn, x.e.toe.tow);
    tr_i("valid", x.e.valid);
    tr_i("src", x.e.source);
    tr_i("code0", code0);
    tr_i("code", x.e.sid.code);
    tr_end();
  }
}
static void code(bool quick) {
  glo_string_t s;
  int n = quick ? 160 : 3000;
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < 3; k++) s.word[k] = (u32)(rng() >> 32);
    if (i == 0) memset(&s, 0, sizeof s);
    if (i == 1) memset(&s, 0xff, sizeof s);
    s.word[2] &= 0x1fffff;
    if (i % 4 != 3) checks(&s);
    bool two = i < (quick ? 24 : 300);
    tr_begin("code");
    halves(",\"w\":", &s);
    tr_i("r", error_detection_glo(&s));
    fprintf(TR, ",\"r1\":[");
    for (int b = 1; b <= 85; b++) {
      flip(&s, b);
      fprintf(TR, b > 1 ? ",%d" : "%d", error_detection_glo(&s));
      flip(&s, b);
    }
    fprintf(TR, "]");
    tr_i("two", two);
    if (two) {
      fprintf(TR, ",\"r2\":[");
      for (int b = 1; b <= 85; b++) {
        fprintf(TR, b > 1 ? ",[" : "[");
        flip(&s, b);
        for (int a = 1; a < b; a++) {
          flip(&s, a);
          fprintf(TR, a > 1 ? ",%d" : "%d", error_detection_glo(&s));
          flip(&s, a);
        }
        flip(&s, b);
        fprintf(TR, "]");
      }
      fprintf(TR, "]");
    }
    tr_end();
  }
  for (int i = 0; i < (quick ? 4 : 40); i++)
    for (int b = 1; b <= 85; b++) {
      glo_string_t *h = malloc(sizeof *h); /* its end is watched */
      for (int k = 0; k < 3; k++) h->word[k] = i == 0 ? 0xffffffff : (u32)(rng() >> 32);
      tr_begin("ext");
      halves(",\"w\":", h);
      tr_i("i", b);
      fprintf(TR, ",\"v\":[");
      for (int m = 1; m <= 32 && b + m - 1 <= 85; m++) {
        u32 v = extract_word_glo(h, b, m);
        fprintf(TR, "%s[%u,%u]", m > 1 ? "," : "", v >> 16, v & 0xffff);
      }
      fprintf(TR, "]");
      tr_end();
      free(h);
    }
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = atoi(argv[2]);
  bool quick = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + part);
  /* members that are narrower than their description */
  memcpy(out2, OUT, sizeof OUT);
  for (int i = 0; i < NO; i++) {
    if (!strcmp(OUT[i].n, "tkn4") || !strcmp(OUT[i].n, "toen4"))
      out2[i].t = sizeof(((glo_time_t *)0)->n4) == 1 ? 'B' : 'h';
  }
  if (part == 0) {
    nav_units("out", OUT, NO);
    strings(quick);
  } else
    code(quick);
  tr_close();
  return 0;
}
