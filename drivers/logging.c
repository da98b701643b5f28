/* Every logging macro in translation units of every level and debug setting,
 * with two installed sinks and the built-in one, and the rate limiters. */
#define _GNU_SOURCE
#include "tr.h"
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <swiftnav/logging.h>
#include <swiftnav/signal.h>
/* what a file sees that sets nothing */
static const int DEF_LEVEL = LOG_LEVEL, DEF_DEBUG = DEBUG;
#undef LOG_LEVEL
#undef DEBUG
static int evals;
static int arg(int a) { evals++; return a; }
#define U u_default
#define LOG_LEVEL LOG_INFO
#define DEBUG false
#define PATH_ "plain/default.c"
#include "logunit.h"
#define U u_1
#define LOG_LEVEL (-1)
#define DEBUG 0
#define PATH_ "beta.c"
#include "logunit.h"
#define U u_2
#define LOG_LEVEL (-1)
#define DEBUG 1
#define PATH_ "../x/gamma.cc"
#include "logunit.h"
#define U u_3
#define LOG_LEVEL 0
#define DEBUG 0
#define PATH_ "/delta.h"
#include "logunit.h"
#define U u_4
#define LOG_LEVEL 0
#define DEBUG 1
#define PATH_ "/w/src/alpha.c"
#include "logunit.h"
#define U u_5
#define LOG_LEVEL 1
#define DEBUG 0
#define PATH_ "beta.c"
#include "logunit.h"
#define U u_6
#define LOG_LEVEL 1
#define DEBUG 1
#define PATH_ "../x/gamma.cc"
#include "logunit.h"
#define U u_7
#define LOG_LEVEL 2
#define DEBUG 0
#define PATH_ "/delta.h"
#include "logunit.h"
#define U u_8
#define LOG_LEVEL 2
#define DEBUG 1
#define PATH_ "/w/src/alpha.c"
#include "logunit.h"
#define U u_9
#define LOG_LEVEL 3
#define DEBUG 0
#define PATH_ "beta.c"
#include "logunit.h"
#define U u_10
#define LOG_LEVEL 3
#define DEBUG 1
#define PATH_ "../x/gamma.cc"
#include "logunit.h"
#define U u_11
#define LOG_LEVEL 4
#define DEBUG 0
#define PATH_ "/delta.h"
#include "logunit.h"
#define U u_12
#define LOG_LEVEL 4
#define DEBUG 1
#define PATH_ "/w/src/alpha.c"
#include "logunit.h"
#define U u_13
#define LOG_LEVEL 5
#define DEBUG 0
#define PATH_ "beta.c"
#include "logunit.h"
#define U u_14
#define LOG_LEVEL 5
#define DEBUG 1
#define PATH_ "../x/gamma.cc"
#include "logunit.h"
#define U u_15
#define LOG_LEVEL 6
#define DEBUG 0
#define PATH_ "/delta.h"
#include "logunit.h"
#define U u_16
#define LOG_LEVEL 6
#define DEBUG 1
#define PATH_ "/w/src/alpha.c"
#include "logunit.h"
#define U u_17
#define LOG_LEVEL 7
#define DEBUG 0
#define PATH_ "beta.c"
#include "logunit.h"
#define U u_18
#define LOG_LEVEL 7
#define DEBUG 1
#define PATH_ "../x/gamma.cc"
#include "logunit.h"
#define LOG_LEVEL 0
#define DEBUG 0
static const struct { int lev, dbg; const char *file; void (*f)(int, int, int, gnss_signal_t); } UN[] = {
{6, 0, "default.c", u_default},
{-1, 0, "beta.c", u_1},
{-1, 1, "gamma.cc", u_2},
{0, 0, "delta.h", u_3},
{0, 1, "alpha.c", u_4},
{1, 0, "beta.c", u_5},
{1, 1, "gamma.cc", u_6},
{2, 0, "delta.h", u_7},
{2, 1, "alpha.c", u_8},
{3, 0, "beta.c", u_9},
{3, 1, "gamma.cc", u_10},
{4, 0, "delta.h", u_11},
{4, 1, "alpha.c", u_12},
{5, 0, "beta.c", u_13},
{5, 1, "gamma.cc", u_14},
{6, 0, "delta.h", u_15},
{6, 1, "alpha.c", u_16},
{7, 0, "beta.c", u_17},
{7, 1, "gamma.cc", u_18}};
#define NU ((int)(sizeof UN / sizeof *UN))
static struct { char sink; int lev; char file[64]; int line; char text[256]; } OBS[16];
static int nobs;
static void rec(char sink, int lev, const char *file, int line, const char *fmt, va_list ap) {
  if (nobs >= 16) return;
  OBS[nobs].sink = sink; OBS[nobs].lev = lev; OBS[nobs].line = line;
  snprintf(OBS[nobs].file, 64, "%s", file);
  vsnprintf(OBS[nobs].text, 256, fmt, ap);
  nobs++;
}
static void la(int l, const char *m, ...) { va_list ap; va_start(ap, m); rec('A', l, "", 0, m, ap); va_end(ap); }
static void lb(int l, const char *m, ...) { va_list ap; va_start(ap, m); rec('B', l, "", 0, m, ap); va_end(ap); }
static void da(int l, const char *f, const int n, const char *m, ...) { va_list ap; va_start(ap, m); rec('A', l, f, n, m, ap); va_end(ap); }
static void db(int l, const char *f, const int n, const char *m, ...) { va_list ap; va_start(ap, m); rec('B', l, f, n, m, ap); va_end(ap); }
/* a sink that installs another sink while a message is delivered */
static void lc(int l, const char *m, ...) { va_list ap; va_start(ap, m); rec('C', l, "", 0, m, ap); va_end(ap); logging_set_implementation(la, da); }
static void dc(int l, const char *f, const int n, const char *m, ...) { va_list ap; va_start(ap, m); rec('C', l, f, n, m, ap); va_end(ap); logging_set_implementation(NULL, NULL); }
static int errfd, realerr;
static long errpos;
static void set(int k) {
  if (k == 0) logging_set_implementation(NULL, NULL);
  if (k == 1) logging_set_implementation(la, da);
  if (k == 2) logging_set_implementation(lb, db);
  if (k == 3) logging_set_implementation(lc, dc);
  tr_begin("set");
  char s[2] = {"DABC"[k], 0};
  tr_s("to", s);
  tr_end();
}
static void call(int u, int kind, int a, int b, gnss_signal_t sid) {
  nobs = 0; evals = 0;
  fflush(stderr);
  dup2(errfd, 2);
  UN[u].f(kind, a, b, sid);
  fflush(stderr);
  dup2(realerr, 2);
  char e[1024];
  long n = pread(errfd, e, sizeof e - 1, errpos);
  if (n < 0) n = 0;
  e[n] = 0;
  errpos += n;
  tr_begin("call");
  tr_i("lev", UN[u].lev); tr_i("dbg", UN[u].dbg); tr_s("file", UN[u].file);
  char fn[16]; if (u) snprintf(fn, 16, "u_%d", u); else strcpy(fn, "u_default");
  tr_s("fn", fn);
  tr_i("k", kind); tr_i("a", a); tr_i("b", b); tr_i("ev", evals);
  char s[SID_STR_LEN_MAX]; sid_to_string(s, sizeof s, sid); tr_s("nm", s);
  fprintf(TR, ",\"obs\":[");
  for (int i = 0; i < nobs; i++) {
    char k[2] = {OBS[i].sink, 0};
    for (char *p = OBS[i].text; *p; p++) if (*p == '\n') *p = '~';
    fprintf(TR, "%s{\"s\":\"%s\",\"l\":%d,\"f\":\"%s\",\"n\":%d,\"t\":\"%s\"}", i ? "," : "", k, OBS[i].lev, OBS[i].file, OBS[i].line, OBS[i].text);
  }
  fprintf(TR, "]");
  for (char *p = e; *p; p++) if (*p == '\n') *p = '~';
  tr_s("err", e);
  tr_end();
}
static const int KINDS[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33, 34, 35, 40, 41};
#define NK ((int)(sizeof KINDS / sizeof *KINDS))
/* rate limiters: independent sites */
static int ran;
#undef LOG_RATE_THRESH
#define LOG_RATE_THRESH (1000u)
static void r0(u32 t) { LOG_RATE_LIMIT(t, ran++); }
static void r1(u32 t) { LOG_RATE_LIMIT(t, ran++); }
#undef LOG_RATE_THRESH
#define LOG_RATE_THRESH (1u)
static void r2(u32 t) { LOG_RATE_LIMIT(t, ran++); }
#undef LOG_RATE_THRESH
#define LOG_RATE_THRESH (30000u)
static void r3(u32 t) { LOG_RATE_LIMIT(t, ran++); }
static void (*const RL[])(u32) = {r0, r1, r2, r3};
static const int TH[] = {1000, 1000, 1, 30000};
static void e0(int n) { DO_EVERY(n, ran++); }
static void e1(int n) { DO_EVERY(n, ran++); }
static void e2(int n) { DO_EVERY(n, ran++); }
static void (*const DE[])(int) = {e0, e1, e2};
static void rate(int s, u32 t) {
  ran = 0; RL[s](t);
  tr_begin("rate"); tr_i("s", s + 1); tr_i("th", TH[s]); tr_i("t", t); tr_i("r", ran); tr_end();
}
static void every(int s, int n) {
  ran = 0; DE[s](n);
  tr_begin("every"); tr_i("s", s + 1); tr_i("n", n); tr_i("r", ran); tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  char fn[4096];
  snprintf(fn, sizeof fn, "%s.stderr", argv[1]);
  errfd = open(fn, O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600);
  if (errfd < 0) exit(77);
  realerr = dup(2);
  tr_begin("def"); tr_i("lev", DEF_LEVEL); tr_i("dbg", DEF_DEBUG);
  tr_i("se", atoi(argv[4]));   /* the built-in sink was built to write to stderr */
  fprintf(TR, ",\"names\":[");
  for (int i = 0; i < 8; i++) fprintf(TR, "%s\"%s\"", i ? "," : "", level_string[i]);
  fprintf(TR, "]");
  tr_end();
  for (int s = 0; s < 5; s++) {
    if (s) set(s == 4 ? 0 : s - (s == 3));
    if (s == 3) set(0);
    for (int u = 0; u < NU; u++)
      for (int k = 0; k < NK; k++)
        if (s < 4 || k % 3 == u % 3)
        call(u, KINDS[k], (int)rnd(2000) - 1000, rnd(100), construct_sid((code_t)rnd(CODE_COUNT), 1 + rnd(60)));
  }
  int N = quick ? 3000 : 30000;
  for (int i = 0; i < N; i++) {
    if (rnd(12) == 0) set(rnd(4));
    call(rnd(NU), KINDS[rnd(NK)], (int)rnd(2000) - 1000, rnd(100), construct_sid((code_t)rnd(CODE_COUNT), 1 + rnd(60)));
  }
  static const u32 step[] = {0, 1, 999, 1000, 1001, 29999, 30000, 30001, 2, 500};
  u32 t[4] = {0, 5, 0, 604799000};
  for (int i = 0; i < N; i++) {
    int s = rnd(4), r = rnd(20);
    if (r < 14) t[s] += step[rnd(10)];
    else if (r < 17) t[s] += rnd(2500);
    else if (r == 17) t[s] = t[s] > 100 ? t[s] - 1 - rnd(100) : 7;
    else if (r == 18) t[s] %= 604800000;
    else t[s] = rnd(4) ? t[s] : rnd(604800000);
    if (t[s] >= 604800000) t[s] -= 604800000;
    rate(s, t[s]);
  }
  for (int i = 0; i < N; i++) {
    static const int ns[3] = {1, 3, 10};
    int s = rnd(3);
    every(s, i < N / 2 ? ns[s] : (int)rnd(6) - (int)rnd(3));
  }
  tr_close();
  unlink(fn);
  return 0;
}
