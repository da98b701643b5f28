/* Matrices of real numbers with singular values between 0.3 and 3. */
#include "fx.h"
#include <swiftnav/common.h>
#include <swiftnav/linear_algebra.h>
static double *fresh(u32 n) {
  double *r = malloc(n * sizeof *r);
  for (u32 i = 0; i < n; i++) r[i] = NAN;
  return r;
}
static double *dup(const double *a, u32 n) { double *r = malloc(n * sizeof *r); memcpy(r, a, n * sizeof *r); return r; }
static int same(const double *a, const double *b, u32 n) { return memcmp(a, b, n * sizeof *a) == 0; }
static void dims(u32 n, u32 m, u32 p) { tr_i("n", n); tr_i("m", m); tr_i("p", p); }
static void mix(double *a, u32 n, u32 m, bool rows) { /* plane rotations */
  u32 k = rows ? n : m;
  if (k < 2) return;
  for (u32 t = 0; t < 3 * k; t++) {
    u32 i = rnd(k), j = rnd(k);
    if (i == j) continue;
    double g = uni(-4, 4), c = cos(g), s = sin(g);
    for (u32 l = 0; l < (rows ? m : n); l++) {
      double *p = rows ? a + i * m + l : a + l * m + i, *q = rows ? a + j * m + l : a + l * m + j, u = *p;
      *p = c * u - s * *q;
      *q = s * u + c * *q;
    }
  }
}
static double *good(u32 n, u32 m) {
  double *a = calloc(n * m, sizeof *a);
  for (u32 i = 0; i < n && i < m; i++) a[i * m + i] = (rnd(2) ? 1 : -1) * uni(0.3, 3);
  if (rnd(5)) mix(a, n, m, true);
  if (rnd(5)) mix(a, n, m, false);
  if (rnd(6) == 0 && n == m) /* rows in another order: the first pivot may vanish */
    for (u32 t = 0; t < n; t++) {
      u32 i = rnd(n), j = rnd(n);
      for (u32 l = 0; l < m; l++) { double u = a[i * m + l]; a[i * m + l] = a[j * m + l]; a[j * m + l] = u; }
    }
  return a;
}
static double *vec(u32 n, double lo, double hi) { double *v = malloc(n * sizeof *v); for (u32 i = 0; i < n; i++) v[i] = uni(lo, hi); return v; }
static void one(void) {
  u32 n = 1 + rnd(7);
  double *a = good(n, n), *a0 = dup(a, n * n), *x = fresh(n * n), *qt = fresh(n * n), *r = fresh(n * n), *b = vec(n, -5, 5), *b0 = dup(b, n), *y = fresh(n);
  int rc = matrix_inverse(n, a, x);
  tr_begin("inv"); dims(n, n, 0); tr_fxv("a", a0, n * n, 0); tr_i("rc", rc); tr_fxv("x", x, n * n, 0); tr_i("same", same(a, a0, n * n)); tr_end();
  rc = qrdecomp_square(a, n, qt, r);
  tr_begin("qr"); dims(n, n, 0); tr_fxv("a", a0, n * n, 0); tr_i("rc", rc); tr_fxv("qt", qt, n * n, 0); tr_fxv("r", r, n * n, 0); tr_i("same", same(a, a0, n * n)); tr_end();
  rc = qrsolve(a, n, n, b, y);
  tr_begin("solve"); dims(n, n, 0); tr_fxv("a", a0, n * n, 0); tr_fxv("b", b0, n, 0); tr_i("rc", rc); tr_fxv("x", y, n, 0); tr_i("same", same(a, a0, n * n) && same(b, b0, n)); tr_end();
  /* a vanishing row or column */
  u32 z = rnd(n), byrow = rnd(2);
  for (u32 i = 0; i < n; i++) a[byrow ? z * n + i : i * n + z] = 0;
  int r1 = matrix_inverse(n, a, x), r2 = matrix_pseudoinverse(n, n, a, x), r3 = qrsolve(a, n, n, b, y);
  tr_begin("sing"); dims(n, n, 0); tr_i("r1", r1); tr_i("r2", r2); tr_i("r3", r3); tr_i("same", 1); tr_end();
  free(a); free(a0); free(x); free(qt); free(r); free(b); free(b0); free(y);
  /* rectangular */
  u32 p = 1 + rnd(5), m = 1 + rnd(5);
  n = 1 + rnd(8);
  double *A = good(n, m), *A0 = dup(A, n * m), *C = good(m, p), *M = fresh(n * p);
  matrix_multiply(n, m, p, A, C, M);
  tr_begin("prod"); dims(n, m, p); tr_fxv("a", A0, n * m, 0); tr_fxv("b", C, m * p, 0); tr_fxv("c", M, n * p, 0); tr_i("same", same(A, A0, n * m)); tr_end();
  double *w = vec(n, 0.5, 2), *w0 = dup(w, n), *wm = vec(m, 0.5, 2), *q = fresh(m * n), *q2 = fresh(m * n), *q3 = fresh(m * n);
  r1 = matrix_pseudoinverse(n, m, A, q); r2 = matrix_atwaiat(n, m, A, w, q2); r3 = matrix_atawati(n, m, A, wm, q3);
  tr_begin("pinv"); dims(n, m, 0); tr_fxv("a", A0, n * m, 0); tr_fxv("w", w0, n, 0); tr_fxv("wm", wm, m, 0); tr_i("r1", r1); tr_i("r2", r2); tr_i("r3", r3);
  tr_fxv("q", q, m * n, 0); tr_fxv("q2", q2, m * n, 0); tr_fxv("q3", q3, m * n, 0); tr_i("same", same(A, A0, n * m) && same(w, w0, n)); tr_end();
  if (n >= m) {
    double *rhs = vec(n, -5, 5), *rhs0 = dup(rhs, n), *s = fresh(m), *V = fresh(m * m);
    int nw = rnd(3) == 0, nx = rnd(5) == 0, nv = rnd(4) == 0;
    rc = matrix_wlsq_solve(n, m, A, rhs, nw ? NULL : w, nx ? NULL : s, nv ? NULL : V);
    tr_begin("lsq"); dims(n, m, 0); tr_fxv("a", A0, n * m, 0); tr_fxv("b", rhs0, n, 0); tr_fxv("w", w0, n, 0); tr_i("nw", nw); tr_i("nx", nx); tr_i("nv", nv); tr_i("rc", rc);
    tr_fxv("x", s, m, 0); tr_fxv("v", V, m * m, 0); tr_i("same", same(A, A0, n * m) && same(rhs, rhs0, n) && same(w, w0, n)); tr_end();
    free(rhs); free(rhs0); free(s); free(V);
  }
  free(A); free(A0); free(C); free(M); free(w); free(w0); free(wm); free(q); free(q2); free(q3);
  /* symmetric and positive: U D U' */
  u32 k = 1 + rnd(6);
  double *S = good(k, k), *T = fresh(k * k), *G = fresh(k * k), *G0, *U = fresh(k * k), *D = fresh(k), *R = fresh(k * k);
  matrix_transpose(k, k, S, T);
  matrix_multiply(k, k, k, T, S, G);
  for (u32 i = 0; i < k; i++) for (u32 j = 0; j < i; j++) G[i * k + j] = G[j * k + i];
  G0 = dup(G, k * k);
  matrix_udu(k, G, U, D);
  matrix_reconstruct_udu(k, U, D, R);
  tr_begin("udu"); dims(k, k, 0); tr_fxv("a", G0, k * k, 0); tr_fxv("u", U, k * k, 0); tr_fxv("d", D, k, 0); tr_fxv("r", R, k * k, 0); tr_i("same", 1); tr_end();
  free(S); free(T); free(G); free(G0); free(U); free(D); free(R);
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + 3400);
  for (int i = 0; i < (q ? 250 : 2500); i++) one();
  tr_close();
  return 0;
}
