/* Checked copies, bounded lengths, membership, paths and the log. */
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <sys/wait.h>
#include <unistd.h>
static int the_level = 6;
static bool the_debug = false;
#define LOG_LEVEL the_level
#define DEBUG the_debug
#include "tr.h"
#include <swiftnav/array_tools.h>
#include <swiftnav/logging.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/swift_strnlen.h>
static void arr(const u8 *a, long n) {
  fprintf(TR, "[");
  for (long i = 0; i < n; i++) fprintf(TR, i ? ",%u" : "%u", a[i]);
  fprintf(TR, "]");
}
static u8 *heap; /* exactly n bytes: a touch outside is caught */
static FILE *chg;
static char *chgbuf;
static size_t chglen;
static void batch_begin(int n) {
  tr_begin("copy"); tr_i("n", n); fprintf(TR, ",\"q\":[");
  chg = open_memstream(&chgbuf, &chglen);
}
static void batch_end(void) {
  fclose(chg);
  fprintf(TR, "],\"ch\":[%s]", chgbuf);
  tr_end();
  free(chgbuf);
}
static void copy(int n, int d, long long ds, int s, unsigned long long c, int first) {
  u8 *m = malloc(n);
  for (int i = 0; i < n; i++) m[i] = (u8)(i + 1);
  int rc = (int)memcpy_s(d ? m + d - 1 : NULL, (size_t)ds, s ? m + s - 1 : NULL, (size_t)c);
  fprintf(TR, "%s[%d,%lld,%d,%lld,%d]", first ? "" : ",", d, tr_clamp(ds), s, c > 2147483647ULL ? 2147483647LL : (long long)c, rc);
  fprintf(chg, "%s[", first ? "" : ",");
  int k = 0;
  for (int i = 0; i < n; i++)
    if (m[i] != i + 1) fprintf(chg, "%s[%d,%u]", k++ ? "," : "", i + 1, m[i]);
  fprintf(chg, "]");
  free(m);
}
static void len(const u8 *s, int n) {
  /* bounds up to the whole block; the block ends there */
  tr_begin("len");
  fprintf(TR, ",\"b\":"); arr(s, n);
  fprintf(TR, ",\"r\":[");
  for (int max = 0; max <= n; max++) {
    char *p = malloc(max ? max : 1);
    memcpy(p, s, max);
    fprintf(TR, "%s%zu", max ? "," : "", swift_strnlen(max ? p : p + 1, max));
    free(p);
  }
  fprintf(TR, "]");
  tr_end();
}
static void mem(const u16 *a, int n, u16 x, int wide) {
  tr_begin("mem"); tr_i("x", x);
  fprintf(TR, ",\"a\":[");
  for (int i = 0; i < n; i++) fprintf(TR, i ? ",%u" : "%u", a[i]);
  fprintf(TR, "],\"r\":[");
  for (int k = 0; k <= n; k++) {
    int r;
    if (wide) {
      u16 *p = malloc(k ? 2 * k : 1);
      memcpy(p, a, 2 * k);
      r = is_value_in_array_u16(p, (u8)k, x);
      free(p);
    } else {
      u8 *p = malloc(k ? k : 1);
      for (int i = 0; i < k; i++) p[i] = (u8)a[i];
      r = is_value_in_array(p, (u8)k, (u8)x);
      free(p);
    }
    fprintf(TR, k ? ",%d" : "%d", r);
  }
  fprintf(TR, "]");
  tr_end();
}
static void path(const u8 *s, int n) {
  char *p = malloc(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  tr_begin("path");
  fprintf(TR, ",\"p\":"); arr(s, n);
  const char *r = truncate_path_(p);
  fprintf(TR, ",\"r\":"); arr((const u8 *)r, (long)strlen(r));
  tr_end();
  free(p);
}
/* ---- the log ---- */
static FILE *got;
static int gotn;
static void emit(const char *sink, const char *kind, const char *lv, const char *m, int line, const char *f) {
  fprintf(got, "%s{\"s\":\"%s\",\"k\":\"%s\",\"lv\":\"%s\",\"m\":\"%s\",\"line\":%d,\"f\":[", gotn++ ? "," : "", sink, kind, lv, m, line);
  for (size_t i = 0; f && f[i]; i++) fprintf(got, i ? ",%u" : "%u", (u8)f[i]);
  fprintf(got, "]}");
}
#define PLAIN(N) static void plain_##N(int level, const char *msg, ...) { \
  char b[200]; va_list ap; va_start(ap, msg); vsnprintf(b, sizeof b, msg, ap); va_end(ap); emit(#N, "log", level_string[level], b, 0, ""); }
#define DETAIL(N) static void detail_##N(int level, const char *f, const int line, const char *msg, ...) { \
  char b[200]; va_list ap; va_start(ap, msg); vsnprintf(b, sizeof b, msg, ap); va_end(ap); emit(#N, "detailed", level_string[level], b, line, f); }
PLAIN(A) PLAIN(B) DETAIL(A) DETAIL(B) DETAIL(C)
static const char *pn[] = {"none", "A", "B"}, *dn[] = {"none", "A", "B", "C"};
static const pfn_log pf[] = {NULL, plain_A, plain_B};
static const pfn_detailed_log df[] = {NULL, detail_A, detail_B, detail_C};
static int cap = -1;
static void drain(void) {
  /* what the default implementation wrote to the standard error stream */
  fflush(stderr);
  char b[4096];
  off_t n = lseek(cap, 0, SEEK_CUR);
  lseek(cap, 0, SEEK_SET);
  n = read(cap, b, sizeof b - 1);
  if (n < 0) n = 0;
  b[n] = 0;
  if (ftruncate(cap, 0)) exit(77);
  lseek(cap, 0, SEEK_SET);
  for (char *s = b, *e; (e = strchr(s, '\n')); s = e + 1) {
    *e = 0;
    char f[300] = "", lv[40] = "", m[300] = "";
    int line = 0;
    if (sscanf(s, "(lsn::%299[^:]:%d) %39[A-Z]: %299[^\n]", f, &line, lv, m) == 4) emit("default", "detailed", lv, m, line, f);
    else if (sscanf(s, "%39[A-Z]: %299[^\n]", lv, m) == 2) emit("default", "log", lv, m, 0, "");
    else emit("default", "garbled", "?", "?", 0, "");
  }
}
#define PATHS 7
static const char *paths[PATHS] = {"/home/x/src/file.c", "file.c", "/file.c", "a/b/", "//", "x", "dir//name.h//"};
static void say(int o, int level, int id, int line, int pi) {
#define ONE(FN) FN("m%d-%s", id, "v%")
  if (o == 0) {
    switch (level) {
      case 0: ONE(log_emerg); break; case 1: ONE(log_alert); break; case 2: ONE(log_crit); break; case 3: ONE(log_error); break;
      case 4: ONE(log_warn); break; case 5: ONE(log_notice); break; case 6: ONE(log_info); break; default: ONE(log_debug); break;
    }
    return;
  }
#define DET(P) detailed_log_truncated_(level, P, line, "m%d-%s", id, "v%")
  switch (pi) {
    case 0: DET("/home/x/src/file.c"); break; case 1: DET("file.c"); break; case 2: DET("/file.c"); break; case 3: DET("a/b/"); break;
    case 4: DET("//"); break; case 5: DET("x"); break; default: DET("dir//name.h//"); break;
  }
}
/* the same through the per-level macros: file and line come from #line */
static void say_here(int level, int id) {
  switch (level) {
#line 11 "/src/here.c"
    case 0: detailed_log_emerg("m%d-%s", id, "v%"); break;
    case 1: detailed_log_alert("m%d-%s", id, "v%"); break;
    case 2: detailed_log_crit("m%d-%s", id, "v%"); break;
    case 3: detailed_log_error("m%d-%s", id, "v%"); break;
    case 4: detailed_log_warn("m%d-%s", id, "v%"); break;
    case 5: detailed_log_notice("m%d-%s", id, "v%"); break;
    case 6: detailed_log_info("m%d-%s", id, "v%"); break;
    default: detailed_log_debug("m%d-%s", id, "v%"); break;
#line 2000 "bounded.c"
  }
}
static void history(int steps, int dflt) {
  char *gb;
  size_t gl;
  logging_set_implementation(NULL, NULL);
  tr_begin("hist"); tr_i("dflt", dflt); fprintf(TR, ",\"h\":[");
  for (int i = 0; i < steps; i++) {
    if (i) fprintf(TR, ",");
    int o = (int)rnd(5);
    if (o == 0) {
      int p = (int)rnd(3), d = (int)rnd(4), ref = 0;
      if (!p != !d) {
        if (rnd(8)) { d = p ? 1 + (int)rnd(3) : 0; }
        else {
          fflush(TR);
          pid_t c = fork();
          if (c == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 2);
            logging_set_implementation(pf[p], df[d]);
            _exit(0);
          }
          int st;
          waitpid(c, &st, 0);
          ref = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        }
      }
      if (!p == !d) logging_set_implementation(pf[p], df[d]);
      fprintf(TR, "{\"o\":\"set\",\"p\":\"%s\",\"d\":\"%s\",\"ref\":%d}", pn[p], dn[d], ref);
      continue;
    }
    int level = (int)rnd(8), kind = o > 2, id = (int)rnd(1000), line = (int)rnd(3000), pi = (int)rnd(PATHS + 2);
    the_level = (int)rnd(8);
    the_debug = rnd(3) == 0;
    int th = the_level, db = the_debug;
    if (kind && pi < PATHS) { th = 7; db = 0; } /* this form knows no threshold */
    gotn = 0;
    got = open_memstream(&gb, &gl);
    if (kind && pi >= PATHS) { say_here(level, id); line = 11 + level; }
    else say(kind, level, id, line, pi);
    drain();
    fclose(got);
    const char *f = pi < PATHS ? paths[pi] : "/src/here.c";
    fprintf(TR, "{\"o\":\"%s\",\"lv\":%d,\"th\":%d,\"db\":%d,\"m\":\"m%d-v%%\",\"line\":%d,\"f\":", kind ? "detailed" : "log", level, th, db, id, line);
    arr((const u8 *)f, (long)strlen(f));
    fprintf(TR, ",\"got\":[%s]}", gb);
    free(gb);
  }
  fprintf(TR, "]");
  tr_end();
}
static void rate(void) {
  /* one call site, its memory carried from history to history */
  static u32 last = 0;
  static int first = 1;
  long long t[300], g[300];
  int n = 1 + (int)rnd(300);
  long long now = rnd(100000);
  tr_begin("rate"); tr_i("first", first); tr_i("last", last); tr_i("th", LOG_RATE_THRESH);
  for (int i = 0; i < n; i++) {
    switch (rnd(6)) {
      case 0: now = last + 999 + rnd(3); break;
      case 1: now += rnd(3000); break;
      case 2: now += rnd(400); break;
      case 3: if (now > 5) now -= rnd(5); break;
      case 4: if (rnd(10) == 0) now = rnd(2000000000); break;
      default: now += rnd(10);
    }
    if (now > 2147000000) now = rnd(1000);
    t[i] = now;
    int hit = 0;
    LOG_RATE_LIMIT((u32)now, hit = 1);
    g[i] = hit;
    if (hit) { last = (u32)now; first = 0; }
  }
  tr_ai("t", t, n); tr_ai("got", g, n);
  tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int part = argc > 2 ? atoi(argv[2]) : 0;
  int quick = argc > 3 ? atoi(argv[3]) : 1;
  rng_seed(argc > 4 ? strtoull(argv[4], NULL, 10) : 1);
  if (part == 0) {
    int n = quick ? 5 : 7;
    for (int d = 0; d <= n; d++)
      for (int ds = 0; ds <= n; ds++) {
        if (d && d + ds > n + 1) continue;
        batch_begin(n);
        int first = 1;
        for (int s = 0; s <= n; s++)
          for (int c = 0; c <= n + 1; c++) {
            if (s && c <= ds && s + c > n + 1) continue;
            copy(n, d, ds, s, (unsigned long long)c, first);
            first = 0;
          }
        for (int k = 0; k < 4; k++) copy(n, d, ds, 1 + (int)rnd(n), (1ULL << (8 + 8 * k)) + (ds ? rnd(ds) : 0), 0);
        copy(n, d, ds, 1, ~0ULL, 0);
        batch_end();
      }
    for (int r = 0; r < (quick ? 60 : 2000); r++) {
      int big = 60 + (int)rnd(140), first = 1;
      batch_begin(big);
      for (int k = 0; k < 12; k++) {
        int d = 1 + (int)rnd(big), ds = (int)rnd(big - d + 2), s = 1 + (int)rnd(big), c = (int)rnd(big - s + 2);
        copy(big, d, ds, s, c, first);
        first = 0;
      }
      batch_end();
    }
    u8 b[300];
    for (int v = 0; v < 128; v++) { for (int i = 0; i < 7; i++) b[i] = (v >> i & 1) ? 1 + (u8)rnd(255) : 0; len(b, 7); }
    for (int r = 0; r < (quick ? 20 : 200); r++) { for (int i = 0; i < 280; i++) b[i] = rnd(200) ? 1 + (u8)rnd(255) : 0; len(b, r % 3 ? 270 : 280); }
    u16 a[256];
    for (int r = 0; r < (quick ? 200 : 5000); r++) {
      int w = (int)rnd(2), n2 = (int)rnd(r % 10 ? 8 : 256), range = 1 + (int)rnd(r % 3 ? 5 : w ? 65536 : 256);
      for (int i = 0; i < n2; i++) a[i] = (u16)(rnd(range) + (w && range < 100 ? 65280 : 0));
      u16 x = rnd(2) && n2 ? a[rnd(n2)] : (u16)rnd(range);
      if (w && rnd(3) == 0) x ^= (u16)(1u << rnd(16));
      mem(a, n2, x, w);
    }
  } else if (part == 1) {
    u8 b[300];
    int L = quick ? 6 : 8, pw = 1;
    for (int n = 0; n <= L; n++, pw *= 3)
      for (int v = 0; v < pw; v++) {
        int x = v;
        for (int i = 0; i < n; i++, x /= 3) b[i] = x % 3 == 0 ? '/' : x % 3 == 1 ? 'a' : '.';
        path(b, n);
      }
    for (int r = 0; r < (quick ? 100 : 3000); r++) {
      int n = 1 + (int)rnd(290);
      for (int i = 0; i < n; i++) b[i] = rnd(6) ? (u8)(1 + rnd(127)) : '/';
      path(b, n);
    }
  } else {
    int dflt = part == 3;
    char t[] = "/tmp/vf_log_XXXXXX";
    cap = mkstemp(t);
    if (cap < 0) exit(77);
    unlink(t);
    int keep = dup(2);
    dup2(cap, 2);
    for (int r = 0; r < (quick ? 80 : 3000); r++) history(1 + (int)rnd(40), dflt);
    for (int r = 0; r < (quick ? 40 : 1000); r++) rate();
    fflush(stderr);
    dup2(keep, 2);
  }
  tr_close();
  return 0;
}
