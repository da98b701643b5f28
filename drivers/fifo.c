/* Drives the byte queue through (a) every abstract state x operation,
 * (b) random sequential histories, (c) instruction-level interleavings of one
 * writer call with one reader call, using the x86 trap flag: both calls run on
 * their own stacks and are pre-empted after chosen numbers of instructions. */
#define _GNU_SOURCE
#include <signal.h>
#include <ucontext.h>
#include "tr.h"
#include <swiftnav/fifo_byte.h>

#define GUARD 64
#define MAXB 64
typedef struct {
  uint8_t store[GUARD + MAXB + GUARD];
  fifo_t f;
} q_t;
static q_t q;
static uint32_t B;
static unsigned long accepted; /* bytes accepted in this scenario */

enum { WRITE, READ, PEEK, REMOVE, LENGTH, SPACE };
static const char *opn[] = {"write", "read", "peek", "remove", "length", "space"};

typedef struct {
  int op;
  uint32_t len;
  uint8_t src[64];
  uint8_t dst[64];
  uint32_t ret;
  int clean;
} call_t;

static void guards(q_t *x) {
  memset(x->store, 0xA5, GUARD);
  memset(x->store + GUARD + B, 0x5A, sizeof(x->store) - GUARD - B);
}
static int guards_ok(q_t *x) {
  for (int i = 0; i < GUARD; i++)
    if (x->store[i] != 0xA5) return 0;
  for (unsigned i = GUARD + B; i < sizeof(x->store); i++)
    if (x->store[i] != 0x5A) return 0;
  return 1;
}
static void prep(call_t *c, int op, uint32_t len) {
  c->op = op;
  c->len = len;
  for (int i = 0; i < 64; i++) c->src[i] = (uint8_t)((accepted + i) % 251);
  memset(c->dst, 0xEE, sizeof(c->dst));
}
__attribute__((noinline)) static void perform(call_t *c) {
  switch (c->op) {
    case WRITE: c->ret = fifo_write(&q.f, c->src, c->len); break;
    case READ: c->ret = fifo_read(&q.f, c->dst, c->len); break;
    case PEEK: c->ret = fifo_peek(&q.f, c->dst, c->len); break;
    case REMOVE: c->ret = fifo_remove(&q.f, c->len); break;
    case LENGTH: c->ret = fifo_length(&q.f); break;
    case SPACE: c->ret = fifo_space(&q.f); break;
  }
}
static void after(call_t *c) {
  unsigned n = (c->op == READ || c->op == PEEK) ? c->ret : 0;
  c->clean = 1;
  if (n > 64) { c->clean = 0; n = 64; }
  for (unsigned i = n; i < 64; i++)
    if (c->dst[i] != 0xEE) c->clean = 0;
  if (c->op == WRITE) accepted += c->ret;
}

/* ---- scenario text, deduplicated ---- */
static char sb[1 << 16];
static int sl;
#define OUT(...) (sl += snprintf(sb + sl, sizeof(sb) - sl, __VA_ARGS__))
static void ev_call(char p, call_t *c) {
  OUT("{\"e\":\"call\",\"p\":\"%c\",\"op\":\"%s\",\"len\":%lld}\n", p, opn[c->op], tr_clamp(c->len));
}
static void ev_ret(char p, call_t *c) {
  OUT("{\"e\":\"ret\",\"p\":\"%c\",\"op\":\"%s\",\"n\":%lld,\"clean\":%d,\"d\":[", p, opn[c->op],
      tr_clamp(c->ret), c->clean);
  unsigned n = (c->op == READ || c->op == PEEK) ? c->ret : 0;
  if (n > 64) n = 0;
  for (unsigned i = 0; i < n; i++) OUT(i ? ",%u" : "%u", c->dst[i]);
  OUT("]}\n");
}
#define HS (1 << 20)
static uint64_t seen[HS];
static unsigned long n_scen, n_uniq;
static void flush_scenario(void) {
  OUT("{\"e\":\"end\",\"ok\":%d}\n", guards_ok(&q));
  n_scen++;
  uint64_t h = 1469598103934665603ULL;
  for (int i = 0; i < sl; i++) h = (h ^ (uint8_t)sb[i]) * 1099511628211ULL;
  if (!h) h = 1;
  unsigned i = h % HS;
  while (seen[i] && seen[i] != h) i = (i + 1) % HS;
  if (seen[i] != h && n_uniq < HS / 2) {
    seen[i] = h;
    n_uniq++;
    fwrite(sb, 1, sl, TR);
  }
  sl = 0;
}
static void seq(char p, int op, uint32_t len) {
  call_t c;
  prep(&c, op, len);
  ev_call(p, &c);
  perform(&c);
  after(&c);
  ev_ret(p, &c);
}
static void drain(void) {
  seq('r', LENGTH, 0);
  seq('w', SPACE, 0);
  seq('r', PEEK, 0xffffffffu);
  seq('r', READ, 1);
  seq('r', READ, 0xffffffffu);
  seq('r', LENGTH, 0);
}
static q_t base; /* empty queue at the wanted index offset */
static void begin(void) {
  sl = 0;
  accepted = 0;
  q = base;
  q.f = base.f;
  OUT("{\"e\":\"init\",\"B\":%u}\n", B);
}
static void make_base(uint32_t b, uint64_t advance) {
  B = b;
  memset(&q, 0, sizeof(q));
  guards(&q);
  fifo_init(&q.f, q.store + GUARD, B);
  uint8_t tmp[64] = {0};
  uint64_t big = advance / B, i;
  for (i = 0; i < big; i++) {
    fifo_write(&q.f, tmp, B);
    fifo_remove(&q.f, B);
  }
  for (i = 0; i < advance % B; i++) {
    fifo_write(&q.f, tmp, 1);
    fifo_remove(&q.f, 1);
  }
  base = q;
}
/* the advance above used q's own storage pointer, so q must stay in place */

/* ---- two-context pre-emptive scheduler ---- */
static ucontext_t cmain, cth[2];
static uint8_t stk[2][1 << 16];
static call_t cl[2];
static volatile int cur = -1, done[2];
static volatile long budget[2], steps[2];
static void tf_on(void) { __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void tf_off(void) { __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void on_trap(int s, siginfo_t *si, void *u) {
  int me = cur;
  if (me < 0) return;
  steps[me]++;
  if (steps[me] > 200000) { /* the call does not terminate */
    sl = 0;
    OUT("{\"e\":\"hang\"}\n");
    fwrite(sb, 1, sl, TR);
    fclose(TR);
    _exit(0);
  }
  if (--budget[me] <= 0) {
    cur = -1;
    swapcontext(&cth[me], &cmain);
  }
}
static void body(int me) {
  tf_on();
  perform(&cl[me]);
  tf_off();
  done[me] = 1;
  cur = -1;
  setcontext(&cmain);
}
static void go(int t, long n) {
  if (done[t]) return;
  budget[t] = n;
  cur = t;
  swapcontext(&cmain, &cth[t]);
  cur = -1;
}
static void start(int t) {
  getcontext(&cth[t]);
  cth[t].uc_stack.ss_sp = stk[t];
  cth[t].uc_stack.ss_size = sizeof(stk[t]);
  cth[t].uc_link = NULL;
  makecontext(&cth[t], (void (*)(void))body, 1, t);
  done[t] = 0;
  steps[t] = 0;
}
static const char pn[2] = {'w', 'r'};
static int called[2], returned[2];
static void run(int t, long n) {
  if (returned[t]) return;
  if (!called[t]) {
    ev_call(pn[t], &cl[t]);
    called[t] = 1;
  }
  go(t, n);
  if (done[t]) {
    after(&cl[t]);
    ev_ret(pn[t], &cl[t]);
    returned[t] = 1;
  }
}
/* run the schedule (first side, step counts...) after the given prologue */
static void scenario(uint32_t fill, int wop, uint32_t wlen, int rop, uint32_t rlen, int first,
                     const long *sched, int ns, long *total) {
  begin();
  if (fill) seq('w', WRITE, fill);
  prep(&cl[0], wop, wlen);
  prep(&cl[1], rop, rlen);
  called[0] = called[1] = returned[0] = returned[1] = 0;
  start(0);
  start(1);
  int t = first;
  for (int i = 0; i < ns; i++, t ^= 1)
    if (sched[i] > 0) run(t, sched[i]);
  run(t, 1L << 40);
  run(t ^ 1, 1L << 40);
  if (total) {
    total[0] = steps[0];
    total[1] = steps[1];
  }
  drain();
  flush_scenario();
}

int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = argc > 2 ? atoi(argv[2]) : 1;
  rng_seed(argc > 3 ? strtoull(argv[3], 0, 10) : 1);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);

  static const uint32_t caps[] = {1, 2, 4, 8, 16, 32};
  /* (a) every (capacity, offset, fill) x operation x length */
  for (unsigned ci = 0; ci < 5; ci++) {
    uint32_t b = caps[ci];
    for (uint32_t off = 0; off < b; off++) {
      make_base(b, off);
      for (uint32_t fill = 0; fill <= b; fill++)
        for (int op = WRITE; op <= SPACE; op++) {
          uint32_t lens[40], nl = 0;
          if (b <= 8)
            for (uint32_t k = 0; k <= b + 2; k++) lens[nl++] = k;
          else {
            lens[nl++] = 0; lens[nl++] = 1; lens[nl++] = b / 2; lens[nl++] = b - 1;
            lens[nl++] = b; lens[nl++] = b + 1; lens[nl++] = b - fill; lens[nl++] = b - off;
          }
          lens[nl++] = 0xffffffffu;
          lens[nl++] = 0x80000000u;
          for (uint32_t li = 0; li < nl; li++) {
            begin();
            if (fill) seq('w', WRITE, fill);
            seq(op == WRITE || op == SPACE ? 'w' : 'r', op, lens[li]);
            seq('w', WRITE, 1);
            drain();
            flush_scenario();
            if (op == LENGTH || op == SPACE) break;
          }
        }
    }
  }
  /* (b) histories, including across the 2^32 counter wrap */
  for (int pass = 0; pass < 2; pass++) {
    for (unsigned ci = 0; ci < 6; ci++) {
      if (pass == 1 && caps[ci] != 32 && !(caps[ci] == 16 && !quick)) continue;
      make_base(caps[ci], pass == 0 ? rnd(caps[ci]) : 0x100000000ULL - 3 - rnd(20));
      for (int h = 0; h < (quick ? 40 : 400); h++) {
        begin();
        for (int k = 0; k < 40; k++) {
          int op = rnd(8);
          if (op > 5) op = op == 6 ? WRITE : READ;
          uint32_t len = rnd(10) == 0 ? (uint32_t)rng() : rnd(B + 2);
          char p = op == WRITE ? 'w' : op < LENGTH ? 'r' : "wr"[rnd(2)];
          seq(p, op, len);
        }
        drain();
        flush_scenario();
      }
      if (pass == 1) {
        /* every fill and length right at the wrap */
        for (int d = 0; d <= 36; d += quick ? 4 : 1) {
          q_t keep = base;
          q = base;
          uint8_t t[1] = {0};
          for (int j = 0; j < d; j++) { fifo_write(&q.f, t, 1); fifo_remove(&q.f, 1); }
          base = q;
          for (uint32_t fill = 0; fill <= B; fill += 4)
            for (uint32_t len = 0; len <= B; len += 3)
              for (int op = READ; op <= REMOVE; op++) {
                begin();
                seq('w', WRITE, fill);
                seq('r', op, len);
                seq('w', WRITE, len + 1);
                drain();
                flush_scenario();
              }
          base = keep;
        }
      }
    }
  }
  /* (c) interleavings */
  static const int rops[] = {READ, PEEK, REMOVE, LENGTH, SPACE};
  static const int wops[] = {WRITE, SPACE, LENGTH};
  long nsched = 0;
  for (unsigned ci = 0; ci < 4; ci++) {
    uint32_t b = caps[ci];
    for (uint32_t off = 0; off < b; off += (b > 4 ? 3 : 1)) {
      make_base(b, (quick || off) ? off : 0x100000000ULL % 1 + off);
      for (uint32_t fill = 0; fill <= b; fill += (b > 4 ? 3 : 1))
        for (int wi = 0; wi < 3; wi++)
          for (int ri = 0; ri < 5; ri++)
            for (int var = 0; var < 3; var++) {
              if ((wi > 0 || ri > 2) && var) continue;
              if (wi > 0 && ri > 2) continue;
              uint32_t wl = var == 0 ? b : var == 1 ? 1 : (b + 1) / 2;
              uint32_t rl = var == 0 ? b : var == 1 ? (b + 1) / 2 : b + 1;
              long tot[2] = {0, 0};
              scenario(fill, wops[wi], wl, rops[ri], rl, 0, NULL, 0, tot);
              for (int first = 0; first < 2; first++) {
                /* one call nested at every instruction of the other */
                long stride = quick ? (b > 4 || var ? 5 : 2) : 1;
                for (long k = 1; k <= tot[first]; k += stride) {
                  long s[1] = {k};
                  scenario(fill, wops[wi], wl, rops[ri], rl, first, s, 1, NULL);
                  nsched++;
                }
                /* two and three pre-emptions */
                int m = quick ? 4 : 400;
                for (int j = 0; j < m; j++) {
                  long s[3] = {1 + rnd(tot[first] + 1), 1 + rnd(tot[first ^ 1] + 1), 1 + rnd(40)};
                  scenario(fill, wops[wi], wl, rops[ri], rl, first, s, 2 + rnd(2), NULL);
                  nsched++;
                }
              }
            }
    }
  }
  if (!quick) { /* all pairs of pre-emption points for chosen scenarios */
    static const uint32_t sc[][6] = {/* b off fill wlen rop rlen */
                                     {4, 3, 2, 2, READ, 4}, {4, 2, 0, 4, READ, 4}, {4, 1, 4, 2, READ, 2},
                                     {2, 1, 1, 1, PEEK, 2}, {4, 3, 3, 4, REMOVE, 2}, {8, 6, 4, 8, READ, 8}};
    for (unsigned i = 0; i < sizeof(sc) / sizeof(sc[0]); i++) {
      make_base(sc[i][0], sc[i][1]);
      long tot[2];
      scenario(sc[i][2], WRITE, sc[i][3], sc[i][4], sc[i][5], 0, NULL, 0, tot);
      for (int first = 0; first < 2; first++)
        for (long k = 1; k <= tot[first]; k++)
          for (long j = 1; j <= tot[first ^ 1]; j++) {
            long s[2] = {k, j};
            scenario(sc[i][2], WRITE, sc[i][3], sc[i][4], sc[i][5], first, s, 2, NULL);
            nsched++;
          }
    }
  }
  fprintf(stderr, "scenarios %lu distinct %lu preempted %ld\n", n_scen, n_uniq, nsched);
  tr_close();
  return 0;
}
