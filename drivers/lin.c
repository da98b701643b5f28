/* Matrix and vector operations on integer contents. */
#include "tr.h"
#include <swiftnav/common.h>
#include <swiftnav/linear_algebra.h>
static int B = 9; /* largest entry */
static double *dup(const double *a, u32 n) {
  double *r = malloc(n * sizeof *r);
  memcpy(r, a, n * sizeof *r);
  return r;
}
static double *fresh(u32 n) { /* exactly sized, filled with a value no result has */
  double *r = malloc(n * sizeof *r);
  for (u32 i = 0; i < n; i++) r[i] = 7e8;
  return r;
}
static double *ints(u32 n) {
  double *r = malloc(n * sizeof *r);
  int z = rnd(4);
  for (u32 i = 0; i < n; i++) r[i] = z == 0 && rnd(2) ? 0 : (int)rnd(2 * B + 1) - B;
  return r;
}
static void put(const char *k, const double *a, u32 n, double unit) {
  fprintf(TR, ",\"%s\":[", k);
  for (u32 i = 0; i < n; i++) {
    double v = a[i] / unit;
    long long q = isfinite(v) && fabs(v) < 2e9 && (unit != 1 || v == nearbyint(v)) ? (long long)nearbyint(v) : 2147483647LL;
    fprintf(TR, i ? ",%lld" : "%lld", q);
  }
  fprintf(TR, "]");
}
static int same(const double *a, const double *b, u32 n) { return memcmp(a, b, n * sizeof *a) == 0; }
static void dims(u32 n, u32 m, u32 p) { tr_i("n", n); tr_i("m", m); tr_i("p", p); }
static u32 dim(void) { return rnd(4) == 0 ? 1 : 1 + rnd(6); }
static void basic(void) {
  u32 n = dim(), m = dim(), p = dim();
  double *a = ints(n * m), *b = ints(m * p), *a0 = dup(a, n * m), *b0 = dup(b, m * p);
  double *c = fresh(n * p);
  matrix_multiply(n, m, p, a, b, c);
  tr_begin("mul"); dims(n, m, p); put("a", a0, n * m, 1); put("b", b0, m * p, 1); put("c", c, n * p, 1);
  tr_i("same", same(a, a0, n * m) && same(b, b0, m * p)); tr_end();
  free(c);
  /* integers */
  s32 *ia = malloc(n * m * 4), *ib = malloc(m * p * 4), *ic = malloc(n * p * 4);
  s64 *la = malloc(n * m * 8), *lb = malloc(m * p * 8), *lc = malloc(n * p * 8);
  for (u32 i = 0; i < n * m; i++) ia[i] = la[i] = (s32)a[i];
  for (u32 i = 0; i < m * p; i++) ib[i] = lb[i] = (s32)b[i];
  memset(ic, 0x55, n * p * 4); memset(lc, 0x55, n * p * 8);
  s64 big = rnd(2) ? 1 : 3000000007LL; /* beyond 32 bits */
  for (u32 i = 0; i < n * m; i++) la[i] *= big;
  matrix_multiply_i(n, m, p, ia, ib, ic);
  matrix_multiply_s64(n, m, p, la, lb, lc);
  tr_begin("muli"); dims(n, m, p); put("a", a0, n * m, 1); put("b", b0, m * p, 1);
  int sm = 1;
  for (u32 i = 0; i < n * m; i++) sm &= ia[i] == (s32)a[i] && la[i] == big * (s32)a[i];
  for (u32 i = 0; i < m * p; i++) sm &= ib[i] == (s32)b[i] && lb[i] == (s32)b[i];
  fprintf(TR, ",\"c\":[");
  for (u32 i = 0; i < n * p; i++) fprintf(TR, i ? ",%d" : "%d", ic[i]);
  fprintf(TR, "],\"d\":[");
  for (u32 i = 0; i < n * p; i++) fprintf(TR, i ? ",%lld" : "%lld", lc[i] % big ? 2147483647LL : tr_clamp(lc[i] / big));
  fprintf(TR, "]"); tr_i("same", sm); tr_end();
  free(ia); free(ib); free(ic); free(la); free(lb); free(lc);
  /* transpose, copy, scaled sum, right scaling */
  double *t = fresh(n * m), *cp = fresh(n * m), *e = ints(n * m), *e0 = dup(e, n * m), *s = fresh(n * m), *d = ints(m), *d0 = dup(d, m);
  int g = (int)rnd(11) - 5;
  matrix_transpose(n, m, a, t);
  matrix_copy(n, m, a, cp);
  matrix_add_sc(n, m, a, e, g, s);
  double *sc = dup(a, n * m);
  matrix_multiply_diag_right(n, m, sc, d);
  tr_begin("elem"); dims(n, m, 0); put("a", a0, n * m, 1); put("b", e0, n * m, 1); put("w", d0, m, 1); tr_i("g", g);
  put("t", t, n * m, 1); put("cp", cp, n * m, 1); put("s", s, n * m, 1); put("sc", sc, n * m, 1);
  tr_i("same", same(a, a0, n * m) && same(e, e0, n * m) && same(d, d0, m)); tr_end();
  free(t); free(cp); free(s); free(sc); free(d); free(d0);
  /* selections */
  u32 r = 1 + rnd(6), q = 1 + rnd(6), ul_r = 1 + rnd(n), ul_c = 1 + rnd(m), *ri = malloc(r * 4), *ci = malloc(q * 4);
  for (u32 i = 0; i < r; i++) ri[i] = rnd(n);
  for (u32 i = 0; i < q; i++) ci[i] = rnd(m);
  double *sb = fresh(r * q), *ul = fresh(ul_r * ul_c);
  submatrix(r, q, m, a, ri, ci, sb);
  submatrix_ul(ul_r, ul_c, m, a, ul);
  long long tmp[6];
  tr_begin("sub"); dims(n, m, 0); put("a", a0, n * m, 1);
  for (u32 i = 0; i < r; i++) tmp[i] = ri[i];
  tr_ai("r", tmp, r);
  for (u32 i = 0; i < q; i++) tmp[i] = ci[i];
  tr_ai("c", tmp, q);
  put("s", sb, r * q, 1); tr_i("ur", ul_r); tr_i("uc", ul_c); put("u", ul, ul_r * ul_c, 1);
  tr_i("same", same(a, a0, n * m)); tr_end();
  free(sb); free(ul); free(ri); free(ci);
  /* square forms */
  double *sq = ints(n * n), *sq0 = dup(sq, n * n), *id = fresh(n * n);
  matrix_triu(n, sq);
  matrix_eye(n, id);
  tr_begin("form"); dims(n, n, 0); put("a", sq0, n * n, 1); put("u", sq, n * n, 1); put("i", id, n * n, 1); tr_i("same", 1); tr_end();
  free(sq); free(sq0); free(id);
  /* vectors */
  double *v = ints(n), *w = ints(n), *v0 = dup(v, n), *w0 = dup(w, n), *x = fresh(n), *y = fresh(n), *z = fresh(n);
  tr_begin("vec"); dims(n, 0, 0); put("v", v0, n, 1); put("w", w0, n, 1); tr_i("g", g);
  double sca[5] = {vector_dot(n, v, w), vector_mean(n, v) * n, vector_norm(n, v), vector_distance(n, v, w), 0};
  vector_add_sc(n, v, w, g, x);
  vector_add(n, v, w, y);
  vector_subtract(n, v, w, z);
  put("dot", sca, 1, 1); put("sum", sca + 1, 1, 1e-3); put("nrm", sca + 2, 1, 1e-3); put("dst", sca + 3, 1, 1e-3);
  put("x", x, n, 1); put("y", y, n, 1); put("z", z, n, 1);
  tr_i("same", same(v, v0, n) && same(w, w0, n));
  double nz = vector_norm(n, v);
  tr_i("nz", nz > 0);
  if (nz > 0) vector_normalize(n, v);
  put("nv", v, n, 1e-4); tr_end();
  free(v); free(w); free(v0); free(w0); free(x); free(y); free(z);
  double *p3 = ints(3), *q3 = ints(3), *p0 = dup(p3, 3), *q0 = dup(q3, 3), *c3 = fresh(3);
  vector_cross(p3, q3, c3);
  tr_begin("cross"); put("v", p0, 3, 1); put("w", q0, 3, 1); put("c", c3, 3, 1); tr_i("same", same(p3, p0, 3) && same(q3, q0, 3)); tr_end();
  free(p3); free(q3); free(p0); free(q0); free(c3);
  free(a); free(a0); free(b); free(b0); free(e); free(e0);
}
/* square matrices: products of elementary operations, arbitrary, singular */
static double *square(u32 n, int *kind) {
  *kind = rnd(4);
  double *a;
  if (*kind <= 1) { /* unimodular */
    a = calloc(n * n, sizeof *a);
    for (u32 i = 0; i < n; i++) a[i * n + i] = rnd(2) ? 1 : -1;
    for (int t = 0; t < (int)(4 * n); t++) {
      u32 i = rnd(n), j = rnd(n);
      int g = (int)rnd(5) - 2;
      if (i == j) continue;
      double big = 0;
      double row[8];
      for (u32 k = 0; k < n; k++) {
        row[k] = *kind ? a[i * n + k] + g * a[j * n + k] : a[j * n + k];
        if (fabs(row[k]) > big) big = fabs(row[k]);
      }
      if (big > B) continue;
      if (*kind == 0) /* permutation and sign */
        for (u32 k = 0; k < n; k++) a[j * n + k] = a[i * n + k];
      for (u32 k = 0; k < n; k++) a[i * n + k] = row[k];
    }
  } else {
    int keep = B;
    if (rnd(2)) B = 2;
    a = ints(n * n);
    B = keep;
    if (*kind == 3) {
      u32 i = rnd(n), j = rnd(n), m = rnd(3);
      for (u32 k = 0; k < n; k++) {
        if (m == 0) a[i * n + k] = 0;
        if (m == 1) a[k * n + i] = 0;
        if (m == 2 && i != j) a[i * n + k] = a[j * n + k];
      }
    }
  }
  return a;
}
static void inverse(void) {
  u32 n = 1 + rnd(7);
  int kind;
  double *a = square(n, &kind), *a0 = dup(a, n * n), *b = fresh(n * n);
  int rc = rnd(4) ? matrix_inverse(n, a, b) : matrix_pseudoinverse(n, n, a, b);
  tr_begin("inv"); dims(n, n, 0); put("a", a0, n * n, 1); tr_i("rc", rc); put("x", b, n * n, 1e-3); tr_i("same", same(a, a0, n * n)); tr_end();
  /* linear systems by orthogonal factorisation */
  double *qt = fresh(n * n), *r = fresh(n * n);
  rc = qrdecomp_square(a, n, qt, r);
  tr_begin("qr"); dims(n, n, 0); put("a", a0, n * n, 1); tr_i("rc", rc); put("qt", qt, n * n, 1e-3); put("r", r, n * n, 1e-3);
  int low = 1;
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < i; j++) low &= r[i * n + j] == 0;
  tr_i("low", low); tr_i("same", same(a, a0, n * n)); tr_end();
  double *x0 = ints(n), *rhs = fresh(n), *rhs0, *x = fresh(n);
  matrix_multiply(n, n, 1, a0, x0, rhs);
  rhs0 = dup(rhs, n);
  rc = qrsolve(a, n, n, rhs, x);
  tr_begin("solve"); dims(n, n, 0); put("a", a0, n * n, 1); put("b", rhs0, n, 1); tr_i("rc", rc); put("x", x, n, 1e-3);
  tr_i("same", same(a, a0, n * n) && same(rhs, rhs0, n)); tr_end();
  /* back substitution on a triangular system, in place too; product with Q' */
  double *u = ints(n * n), *u0, *y = dup(x0, n), *z = fresh(n), *ub = fresh(n);
  for (u32 i = 0; i < n; i++) {
    for (u32 j = 0; j < i; j++) u[i * n + j] = rnd(2) ? 0 : 5; /* below the diagonal: ignored */
    u[i * n + i] = rnd(2) ? 1 : -1;
    for (u32 j = i + 1; j < n; j++) u[i * n + j] = (int)rnd(3) - 1;
  }
  u0 = dup(u, n * n);
  qtmult(u, n, x0, ub);
  rsolve(u, n, n, x0, z);
  rsolve(u, n, n, y, y);
  tr_begin("tri"); dims(n, n, 0); put("a", u0, n * n, 1); put("b", x0, n, 1); put("q", ub, n, 1); put("z", z, n, 1); put("y", y, n, 1);
  tr_i("same", same(u, u0, n * n)); tr_end();
  free(a); free(a0); free(b); free(qt); free(r); free(x0); free(rhs); free(rhs0); free(x); free(u); free(u0); free(y); free(z); free(ub);
}
static void lsq(void) {
  u32 m = 1 + rnd(5), n = 1 + rnd(8);
  B = 3;
  double *a = ints(n * m), *a0 = dup(a, n * m), *x0 = ints(m), *b = fresh(n), *w = malloc(n * sizeof *w), *b0, *w0;
  for (u32 i = 0; i < n; i++) w[i] = 1 + rnd(3);
  matrix_multiply(n, m, 1, a0, x0, b);
  int noisy = rnd(3) == 0;
  if (noisy) for (u32 i = 0; i < n; i++) b[i] += (int)rnd(3) - 1;
  b0 = dup(b, n); w0 = dup(w, n);
  int nw = rnd(3) == 0, nx = rnd(5) == 0, nv = rnd(4) == 0;
  double *x = fresh(m), *V = fresh(m * m);
  int rc = matrix_wlsq_solve(n, m, a, b, nw ? NULL : w, nx ? NULL : x, nv ? NULL : V);
  tr_begin("lsq"); dims(n, m, 0); put("a", a0, n * m, 1); put("b", b0, n, 1); put("w", w0, n, 1);
  tr_i("nw", nw); tr_i("nx", nx); tr_i("nv", nv); tr_i("rc", rc); put("x", x, m, 1e-3); put("v", V, m * m, 1e-3);
  tr_i("same", same(a, a0, n * m) && same(b, b0, n) && same(w, w0, n)); tr_end();
  double *wm = malloc(m * sizeof *wm), *q = fresh(m * n), *q2 = fresh(m * n), *q3 = fresh(m * n);
  for (u32 i = 0; i < m; i++) wm[i] = 1 + rnd(3);
  int r1 = matrix_pseudoinverse(n, m, a, q), r2 = matrix_atwaiat(n, m, a, w, q2), r3 = matrix_atawati(n, m, a, wm, q3);
  tr_begin("pinv"); dims(n, m, 0); put("a", a0, n * m, 1); put("w", w0, n, 1); put("wm", wm, m, 1);
  tr_i("r1", r1); tr_i("r2", r2); tr_i("r3", r3); put("q", q, m * n, 1e-3); put("q2", q2, m * n, 1e-3); put("q3", q3, m * n, 1e-3);
  tr_i("same", same(a, a0, n * m) && same(w, w0, n)); tr_end();
  /* U D U' */
  u32 k = 1 + rnd(6);
  double *U = fresh(k * k), *D = fresh(k), *M = fresh(k * k), *R = fresh(k * k), *d0 = malloc(k * sizeof *d0), *u0 = calloc(k * k, sizeof *u0);
  for (u32 i = 0; i < k; i++) {
    u0[i * k + i] = 1;
    for (u32 j = i + 1; j < k; j++) u0[i * k + j] = (int)rnd(5) - 2;
    d0[i] = rnd(3) ? 1 << rnd(4) : 0;
  }
  matrix_reconstruct_udu(k, u0, d0, M);
  double *M0 = dup(M, k * k);
  matrix_udu(k, M, U, D);
  matrix_reconstruct_udu(k, U, D, R);
  tr_begin("udu"); dims(k, k, 0); put("u0", u0, k * k, 1); put("d0", d0, k, 1); put("a", M0, k * k, 1); put("u", U, k * k, 1); put("d", D, k, 1); put("r", R, k * k, 1);
  tr_i("same", 1); tr_end();
  free(a); free(a0); free(x0); free(b); free(b0); free(w); free(w0); free(x); free(V); free(wm); free(q); free(q2); free(q3);
  free(U); free(D); free(M); free(M0); free(R); free(d0); free(u0);
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = atoi(argv[2]), q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) * 8 + part);
  int n = q ? 700 : 6000;
  for (int i = 0; i < n; i++) {
    if (part == 0) { B = rnd(3) ? 9 : 2000; basic(); }
    if (part == 1) { B = rnd(2) ? 4 : 9; inverse(); }
    if (part == 2) lsq();
  }
  tr_close();
  return 0;
}
