/* Histories of status report registration; the receivers live in memory that
 * starts out as garbage. */
#include "tr.h"
#include <swiftnav/subsystem_status_report.h>
typedef swiftnav_subsystem_status_report_callback_node_t node_t;
#define NN 6
static node_t *N[NN + 1];
static int selfd[NN + 1];       /* deregister yourself when called */
static int nest;                /* depth budget for a nested report */
static long long calls[400][5];
static int ncalls;
static int ns, sends[4][3];
static int ctxs[13];
static void got(int cb, uint16_t c, uint8_t g, uint8_t s, void *ctx) {
  long x = (int *)ctx - ctxs;
  if (ncalls >= 300) { /* far more deliveries than receivers: never ends */
    tr_begin("runaway");
    tr_end();
    tr_close();
    fprintf(stderr, "report delivery does not terminate\n");
    exit(98);
  }
  calls[ncalls][0] = cb;
  calls[ncalls][1] = ctx && x >= 0 && x < 12 ? x : -1;
  calls[ncalls][2] = c;
  calls[ncalls][3] = g;
  calls[ncalls++][4] = s;
  if (nest > 0) {
    nest--;
    sends[ns][0] = c ^ 1;
    sends[ns][1] = 255 - g;
    sends[ns][2] = s / 2;
    ns++;
    swiftnav_send_subsystem_status_report(c ^ 1, 255 - g, s / 2);
  }
  /* the context of a self-removing receiver is its number */
  if (x >= 1 && x <= NN && selfd[x] && cb == 3)
    swiftnav_subsystem_status_report_callback_deregister(N[x]);
}
static void cb1(uint16_t c, uint8_t g, uint8_t s, void *x) { got(1, c, g, s, x); }
static void cb2(uint16_t c, uint8_t g, uint8_t s, void *x) { got(2, c, g, s, x); }
static void cb3(uint16_t c, uint8_t g, uint8_t s, void *x) { got(3, c, g, s, x); }
static pfn_subsystem_status_report CB[4] = {NULL, cb1, cb2, cb3};
static void do_reg(int n, int cb, int ctx) {
  tr_begin("reg");
  tr_i("n", n);
  tr_i("cb", cb);
  tr_i("ctx", ctx);
  tr_end();
  fflush(TR);
  selfd[n] = 0;
  swiftnav_subsystem_status_report_callback_register(N[n], CB[cb], &ctxs[ctx]);
}
static void do_der(int n) {
  tr_begin("der");
  tr_i("n", n);
  tr_end();
  selfd[n] = 0;
  swiftnav_subsystem_status_report_callback_deregister(N[n]);
}
static void do_rst(void) {
  tr_begin("rst");
  tr_end();
  memset(selfd, 0, sizeof selfd);
  swiftnav_subsystem_status_report_callback_reset();
  if (rnd(2)) for (int i = 1; i <= NN; i++) memset(N[i], 0xd5, sizeof(node_t));
}
static void do_send(int nested) {
  int c = rnd(4) ? rnd(65536) : 65535, g = rnd(4) ? rnd(256) : 255, s = rnd(4) ? rnd(256) : 255;
  ncalls = 0;
  ns = 1;
  sends[0][0] = c, sends[0][1] = g, sends[0][2] = s;
  nest = nested;
  int was[NN + 1];
  memcpy(was, selfd, sizeof was);
  swiftnav_send_subsystem_status_report(c, g, s);
  tr_begin("send");
  fprintf(TR, ",\"sends\":[");
  for (int i = 0; i < ns; i++) fprintf(TR, "%s[%d,%d,%d]", i ? "," : "", sends[i][0], sends[i][1], sends[i][2]);
  fprintf(TR, "],\"self\":[");
  int f = 0;
  for (int i = 1; i <= NN; i++)
    if (was[i]) { fprintf(TR, f++ ? ",%d" : "%d", i); selfd[i] = 0; }
  fprintf(TR, "],\"calls\":[");
  for (int i = 0; i < ncalls; i++) {
    fprintf(TR, i ? ",[" : "[");
    for (int k = 0; k < 5; k++) fprintf(TR, k ? ",%lld" : "%lld", calls[i][k]);
    fprintf(TR, "]");
  }
  fprintf(TR, "]");
  tr_end();
}
/* apply one numbered operation of a small alphabet over m receivers */
static int nops(int m) { return 4 * m + 1; }
static void apply(int o, int m) {
  if (o == 4 * m) { do_rst(); return; }
  int n = 1 + o % m;
  switch (o / m) {
    case 0: do_reg(n, 1, n); break;
    case 1: do_reg(n, 2, n + 5); break;
    case 2: do_reg(n, 0, 0); break;
    case 3: do_der(n); break;
  }
}
/* changes of the registrations while a report is delivered: the context of a
 * receiver is its number, or its number + NN */
static struct { int cb, at, op, n, arg; } plan[4]; /* at the at-th delivery by cb: op on receiver n */
static int nplan, ndel, depth, busy[NN + 1]; /* busy: in its callback */
static void live(int cb, uint16_t c, uint8_t g, uint8_t s, void *ctx);
static void lb1(uint16_t c, uint8_t g, uint8_t s, void *x) { live(1, c, g, s, x); }
static void lb2(uint16_t c, uint8_t g, uint8_t s, void *x) { live(2, c, g, s, x); }
static pfn_subsystem_status_report LB[3] = {NULL, lb1, lb2};
static int registered[NN + 1], removed[NN + 1]; /* removed: since the report was sent */
static void live_reg(int n, int cb, int ctx) {
  tr_begin("reg"), tr_i("n", n), tr_i("cb", cb), tr_i("ctx", ctx), tr_end();
  removed[n] |= registered[n] && !cb;
  registered[n] = cb;
  swiftnav_subsystem_status_report_callback_register(N[n], LB[cb], &ctxs[ctx]);
}
static void live_der(int n) {
  tr_begin("der"), tr_i("n", n), tr_end();
  removed[n] |= registered[n];
  registered[n] = 0;
  swiftnav_subsystem_status_report_callback_deregister(N[n]);
}
static void live_rst(const char *e) {
  tr_begin(e), tr_end();
  for (int n = 1; n <= NN; n++) removed[n] |= registered[n], registered[n] = 0;
  swiftnav_subsystem_status_report_callback_reset();
}
static void live_send(void) {
  int c = rnd(65536), g = rnd(256), s = rnd(256);
  tr_begin("sb"), tr_i("c", c), tr_i("g", g), tr_i("s", s), tr_end();
  swiftnav_send_subsystem_status_report(c, g, s);
  tr_begin("se"), tr_end();
}
static void live(int cb, uint16_t c, uint8_t g, uint8_t s, void *ctx) {
  long x = (int *)ctx - ctxs;
  tr_begin("dl"), tr_i("cb", cb), tr_i("ctx", ctx && x >= 0 && x < 13 ? x : -1), tr_i("c", c), tr_i("g", g), tr_i("s", s), tr_end();
  if (++ndel > 300) {
    tr_begin("runaway"), tr_end(), tr_close();
    fprintf(stderr, "report delivery does not terminate\n");
    exit(98);
  }
  int me = x < 1 || x > 2 * NN ? 0 : 1 + (int)(x - 1) % NN, now = ndel;
  busy[me]++;
  for (int i = 0; i < nplan; i++) {
    if (plan[i].at != now) continue;
    int n = plan[i].n, intact = 1; /* nobody being called has been removed */
    for (int k = 1; k <= NN; k++) intact &= !busy[k] || registered[k];
    switch (plan[i].op) {
      case 0: live_der(n); break;
      case 1: if (intact && !registered[n] && !removed[n]) live_reg(n, 1 + plan[i].arg % 2, n + NN * (plan[i].arg / 2 % 2)); break;
      case 2: if (registered[n]) live_reg(n, 1 + plan[i].arg % 2, n + NN * (plan[i].arg / 2 % 2)); break;
      case 3: if (me) live_der(me); break;
      case 4: if (depth < 2) { depth++; live_send(); depth--; } break;
      case 5: live_der(n), live_reg(n, 1, n); break;
      case 6: if (registered[n]) live_reg(n, 0, n); break;
      case 7: live_rst("clr"); break;
    }
  }
  busy[me]--;
}
static void live_start(void) {
  live_rst("rst");
  ndel = depth = nplan = 0;
  memset(removed, 0, sizeof removed);
}
static void live_histories(int m, int count) {
  static const int OPS[] = {0, 0, 1, 1, 2, 3, 3, 4, 4, 6, 7};
  for (int h = 0; h < count; h++) {
    live_start();
    for (int k = 0; k < 6; k++) {
      int n = 1 + rnd(m);
      if (rnd(5)) live_reg(n, 1 + rnd(2), n + NN * rnd(2)); else live_der(n);
    }
    for (int r = 0; r < 3; r++) {
      ndel = depth = 0;
      memset(removed, 0, sizeof removed);
      nplan = 1 + rnd(4);
      for (int i = 0; i < nplan; i++) plan[i].at = 1 + rnd(m), plan[i].op = OPS[rnd(rnd(4) ? 10 : 11)], plan[i].n = 1 + rnd(m), plan[i].arg = rnd(4);
      if (rnd(3) == 0) nplan = 1, plan[0].op = 3;
      live_send();
      nplan = 0, ndel = 0;
      live_send();
    }
  }
}
/* the history of the known finding: a receiver being called removes itself and
 * registers again */
static void live_known(void) {
  live_start();
  for (int n = 1; n <= 3; n++) live_reg(n, 1, n);
  nplan = 1, plan[0].at = 1, plan[0].op = 5, plan[0].n = 1;
  live_send();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = atoi(argv[2]);
  rng_seed(atoi(argv[3]));
  for (int i = 1; i <= NN; i++) { N[i] = malloc(sizeof(node_t)); memset(N[i], 0xd5, sizeof(node_t)); }
  if (quick == 2) { live_known(); tr_close(); return 0; }
  do_rst();
  /* every history of up to D operations over three receivers, sending at the end
   * and (for half of them) in between */
  int m = 3, k = nops(m), D = quick ? 4 : 5;
  long tot = 1;
  for (int d = 1; d <= D; d++) {
    tot *= k;
    long step = d < 4 ? 1 : quick ? 5 : 3;
    for (long x = d < 4 ? 0 : rnd(step); x < tot; x += step) {
      do_rst();
      long y = x;
      for (int i = 0; i < d; i++, y /= k) apply(y % k, m);
      do_send(0);
    }
  }
  for (int h = 0; h < (quick ? 150 : 1500); h++) {
    do_rst();
    int n = 5 + rnd(40), mm = 2 + rnd(5);
    for (int i = 0; i < n; i++) {
      int r = rnd(14), q = 1 + rnd(mm);
      if (r < 5) do_reg(q, 1 + rnd(2), rnd(12));
      else if (r < 6) do_reg(q, 0, rnd(12));
      else if (r < 8) do_der(q);
      else if (r < 10) { do_reg(q, 3, q); selfd[q] = 1; do_send(0); }
      else if (r < 13) do_send(rnd(3) == 0 ? 1 + rnd(2) : 0);
      else if (rnd(5) == 0) do_rst();
    }
    do_send(0);
  }
  for (int m = 2; m <= NN; m++) live_histories(m, quick ? 200 : 2000);
  tr_close();
  return 0;
}
