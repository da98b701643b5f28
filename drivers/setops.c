/* Drives the sorted-array operations.  Built with AddressSanitizer: arrays are
 * allocated exactly as large as declared, so a stray access stops the run. */
#include "tr.h"
#include <swiftnav/set.h>
#include <swiftnav/signal.h>
typedef struct { u8 pad[3]; s32 rank; u16 tag; } __attribute__((packed)) ea_t; /* 9 bytes */
typedef struct { double rank; u32 tag; u32 pad[5]; } eb_t;                      /* 32 bytes */
static int cmp_ab(const void *a, const void *b) {
  s32 x; memcpy(&x, (const char *)a + 3, 4);
  double y = ((const eb_t *)b)->rank;
  return x < y ? -37 : x > y ? 41 : 0;
}
static int cmp_aa(const void *a, const void *b) {
  s32 x, y;
  memcpy(&x, (const char *)a + 3, 4);
  memcpy(&y, (const char *)b + 3, 4);
  return x < y ? -1000000 : x > y ? 5 : 0;
}
static ea_t *mka(const int *v, int n) {
  ea_t *p = malloc(n * sizeof *p + (n == 0));
  for (int i = 0; i < n; i++) { p[i].rank = v[i]; p[i].tag = i; memset(p[i].pad, 0xa5, 3); }
  return p;
}
static eb_t *mkb(const int *v, int n) {
  eb_t *p = malloc(n * sizeof *p + (n == 0));
  memset(p, 0, n * sizeof *p);
  for (int i = 0; i < n; i++) { p[i].rank = v[i]; p[i].tag = i; }
  return p;
}
static void arr(const char *k, const int *v, int n) {
  fprintf(TR, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) fprintf(TR, i ? ",%d" : "%d", v[i]);
  fprintf(TR, "]");
}
static void outa(const char *k, const ea_t *p, int n) {
  fprintf(TR, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) {
    int ok = p[i].pad[0] == 0xa5 && p[i].pad[1] == 0xa5 && p[i].pad[2] == 0xa5;
    fprintf(TR, "%s[%d,%d]", i ? "," : "", p[i].rank, ok ? p[i].tag : -1);
  }
  fprintf(TR, "]");
}
static void do_isset(const int *v, int n) {
  ea_t *a = mka(v, n), *c = mka(v, n);
  tr_begin("isset");
  arr("a", v, n);
  tr_i("r", is_set(n, sizeof *a, a, cmp_aa));
  tr_i("same", !memcmp(a, c, n * sizeof *a));
  tr_end();
  free(a); free(c);
}
static struct { int n; long long t[2000][3]; const ea_t *a; const eb_t *b; int ctx; } CB;
static void cb(void *context, u32 n, const void *a, const void *b) {
  if (context != &CB.ctx) CB.ctx = 0;
  if (CB.n >= 2000) return;
  CB.t[CB.n][0] = n;
  CB.t[CB.n][1] = (const ea_t *)a - CB.a;
  CB.t[CB.n][2] = (const eb_t *)b - CB.b;
  CB.n++;
}
static void do_isect(const int *va, int na, const int *vb, int nb, int common) {
  ea_t *a = mka(va, na), *a0 = mka(va, na), *ao = malloc(common * sizeof *ao + 1);
  eb_t *b = mkb(vb, nb), *b0 = mkb(vb, nb), *bo = malloc(common * sizeof *bo + 1);
  CB.n = 0; CB.a = a; CB.b = b; CB.ctx = 1;
  s32 m = intersection_map(na, sizeof *a, a, nb, sizeof *b, b, cmp_ab, &CB.ctx, cb);
  s32 r = intersection(na, sizeof *a, a, ao, nb, sizeof *b, b, bo, cmp_ab);
  /* either output may be left out */
  ea_t *ao2 = malloc(common * sizeof *ao + 1);
  eb_t *bo2 = malloc(common * sizeof *bo + 1);
  s32 r2 = intersection(na, sizeof *a, a, ao2, nb, sizeof *b, b, NULL, cmp_ab);
  s32 r3 = intersection(na, sizeof *a, a, NULL, nb, sizeof *b, b, bo2, cmp_ab);
  tr_begin("isect");
  arr("a", va, na);
  arr("b", vb, nb);
  tr_i("m", m);
  int rr = r >= 0 && r <= common ? r : 0;
  tr_i("r", r == r2 && r == r3 && !memcmp(ao, ao2, rr * sizeof *ao) && !memcmp(bo, bo2, rr * sizeof *bo) ? r : -99);
  outa("ao", ao, rr);
  fprintf(TR, ",\"bo\":[");
  for (int i = 0; i < rr; i++) fprintf(TR, "%s[%d,%u]", i ? "," : "", (int)bo[i].rank, bo[i].tag);
  fprintf(TR, "],\"cb\":[");
  for (int i = 0; i < CB.n; i++)
    fprintf(TR, "%s[%lld,%lld,%lld]", i ? "," : "", CB.t[i][0], CB.t[i][1], CB.t[i][2]);
  fprintf(TR, "]");
  tr_i("same", !memcmp(a, a0, na * sizeof *a) && !memcmp(b, b0, nb * sizeof *b));
  tr_i("ctx", CB.ctx);
  tr_end();
  free(a); free(a0); free(ao); free(b); free(b0); free(bo); free(ao2); free(bo2);
}
static void do_edit(const int *v, int n, int k) {
  ea_t *a = mka(v, n), *a0 = mka(v, n), key;
  memset(&key, 0xa5, sizeof key);
  key.rank = k; key.tag = 777;
  ea_t *o = malloc((n + 1) * sizeof *o);
  u32 p = insertion_index(n, sizeof *a, a, &key, cmp_aa);
  u32 r = insert_element(n, sizeof *a, a, o, &key, cmp_aa);
  tr_begin("ins");
  arr("a", v, n);
  tr_i("k", k);
  tr_i("p", p);
  tr_i("r", r);
  outa("out", o, n + 1);
  tr_i("same", !memcmp(a, a0, n * sizeof *a));
  tr_end();
  free(o);
  o = malloc(n > 1 ? (n - 1) * sizeof *o : 1);
  r = remove_element(n, sizeof *a, a, o, &key, cmp_aa);
  tr_begin("rem");
  arr("a", v, n);
  tr_i("k", k);
  tr_i("r", r);
  outa("out", o, n ? n - 1 : 0);
  tr_i("same", !memcmp(a, a0, n * sizeof *a));
  tr_end();
  free(o); free(a); free(a0);
}
static int mkset(int *v, int n, int gap) {
  int x = -(int)rnd(50) * gap;
  for (int i = 0; i < n; i++) { x += 1 + rnd(gap); v[i] = x; }
  return n;
}
static int ncommon(const int *a, int na, const int *b, int nb) {
  int c = 0;
  for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) c += a[i] == b[j];
  return c;
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  int v[1200], w[1200];
  int U = quick ? 6 : 8;
  /* every sequence of length <= 5 over 4 values */
  for (int n = 0; n <= (quick ? 5 : 6); n++) {
    int tot = 1;
    for (int i = 0; i < n; i++) tot *= 4;
    for (int x = 0; x < tot; x++) {
      for (int i = 0, y = x; i < n; i++, y /= 4) v[i] = y % 4;
      do_isset(v, n);
      if (n <= 4) for (int k = -1; k <= 4; k++) { /* edits need only a sorted array */
        int ok = 1;
        for (int i = 1; i < n; i++) ok &= v[i - 1] <= v[i];
        if (ok) do_edit(v, n, k);
      }
    }
  }
  for (int A = 0; A < 1 << U; A++) {
    int na = 0;
    for (int i = 0; i < U; i++) if (A >> i & 1) v[na++] = i;
    for (int k = -1; k <= U; k++) do_edit(v, na, k);
    for (int B = 0; B < 1 << U; B++) {
      int nb = 0;
      for (int i = 0; i < U; i++) if (B >> i & 1) w[nb++] = i;
      do_isect(v, na, w, nb, __builtin_popcount(A & B));
    }
  }
  /* long sets; is_set counts with eight bits, the others with 32 */
  int reps = quick ? 12 : 120;
  for (int t = 0; t < reps; t++) {
    int na = t == 0 ? 255 : 1 + rnd(255);
    mkset(v, na, 3);
    do_isset(v, na);
    int i = 1 + rnd(na - 1 ? na - 1 : 1);
    if (i < na) {
      int keep = v[i];
      v[i] = v[i - 1]; do_isset(v, na);
      v[i] = v[i - 1] - 1; do_isset(v, na);
      v[i] = keep;
      int last = v[na - 1];
      v[na - 1] = v[na - 2]; do_isset(v, na); v[na - 1] = last;
    }
    na = t % 3 ? rnd(60) : 250 + rnd(80);
    int nb = t % 2 ? rnd(60) : 250 + rnd(80);
    mkset(v, na, 3); mkset(w, nb, t % 4 ? 3 : 9);
    do_isect(v, na, w, nb, ncommon(v, na, w, nb));
    for (int q = 0; q < 5; q++) do_edit(v, na, q == 0 && na ? v[na - 1] + 1 : q == 1 ? -2000 : (int)rnd(400) - 150);
  }
  static const s32 sv[] = {0, 1, -1, 2, -2, 7, 65535, 65536, -65536, 2147483647, -2147483647, -2147483647 - 1, 1073741824, -1073741824};
  for (int i = 0; i < 14; i++) for (int j = 0; j < 14; j++) {
    tr_begin("s32");
    fprintf(TR, ",\"a\":%d,\"b\":%d", sv[i], sv[j]);
    int r = cmp_s32_s32(&sv[i], &sv[j]);
    tr_i("r", (r > 0) - (r < 0));
    tr_end();
  }
  int R = quick ? 3000 : 30000;
  for (int t = 0; t < R; t++) {
    gnss_signal_t s[8];
    int n = rnd(6);
    long long k[8][3];
    code_t c0 = rnd(64);
    for (int i = 0; i < n; i++) {
      code_t c = rnd(3) ? c0 : rnd(64);
      s[i] = sid_from_code_index(c, rnd(4));
    }
    if (rnd(3)) /* mostly ordered */
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        int ca = code_to_constellation(s[i].code), cb_ = code_to_constellation(s[j].code);
        if (ca > cb_ || (ca == cb_ && (s[i].code > s[j].code || (s[i].code == s[j].code && s[i].sat > s[j].sat)))) {
          gnss_signal_t x = s[i]; s[i] = s[j]; s[j] = x;
        }
      }
    tr_begin("sids");
    fprintf(TR, ",\"a\":[");
    for (int i = 0; i < n; i++)
      fprintf(TR, "%s[%d,%d,%d]", i ? "," : "", code_to_constellation(s[i].code), s[i].code, s[i].sat);
    fprintf(TR, "]");
    tr_i("r", is_sid_set(n, s));
    tr_i("r2", is_set(n, sizeof s[0], s, cmp_sid_sid));
    tr_end();
  }
  tr_close();
  return 0;
}
