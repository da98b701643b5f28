/* Records the signal catalogue (part "code") and signal identifiers (part "sid"). */
#include "tr.h"
#include <swiftnav/glo_map.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/signal.h>
static void tr_str(const char *k, const char *s) {
  fprintf(TR, ",\"%s\":\"", k);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\' || (unsigned char)*s < 32 || (unsigned char)*s > 126)
      fprintf(TR, "#");
    else
      fputc(*s, TR);
  }
  fprintf(TR, "\"");
}
static long long hzint(double hz, int *ex) {
  long long r = llround(hz);
  *ex = ((double)r == hz);
  return r;
}
static int sgn(int x) { return (x > 0) - (x < 0); }

static void part_code(void) {
  int ex;
  for (u16 i = 1; i <= NUM_SATS_GLO; i++) glo_map_set_slot_id(8, i);
  for (int c = 0; c < CODE_COUNT; c++) {
    tr_begin("code");
    tr_i("c", c);
    tr_i("cons", code_to_constellation(c));
    tr_i("scons", sid_to_constellation(construct_sid(c, sid_from_code_index(c, 0).sat)));
    long long pr[6] = {is_gps(c), is_sbas(c), is_glo(c), is_bds2(c), is_qzss(c), is_gal(c)};
    tr_ai("is", pr, 6);
    tr_str("name", code_to_string(c));
    tr_i("back", code_string_to_enum(code_to_string(c)));
    gnss_signal_t s = sid_from_code_index(c, 0);
    tr_i("first", s.sat);
    tr_i("nsat", constellation_to_sat_count(code_to_constellation(c)));
    tr_i("sig", code_to_sig_count(c));
    tr_i("chips", code_to_chip_count(c));
    tr_i("rate", hzint(code_to_chip_rate(c), &ex));
    tr_i("ratex", ex);
    tr_i("acq", code_requires_direct_acq(c));
    tr_i("prn", code_to_prn_period_ms(c));
    tr_i("dmax", llround(code_to_sv_doppler_max(c)));
    tr_i("dmin", llround(code_to_sv_doppler_min(c)));
    tr_i("sym", code_to_sv_doppler_max(c) == -code_to_sv_doppler_min(c));
    tr_i("ph", llround(code_to_phase_alignment(c) * 4096.));
    tr_i("dec", code_requires_decoder(c));
    tr_i("l1", sid_to_l1_code(s));
    tr_i("l5", sid_to_l5_code(s));
    tr_end();
    for (int k = 0; k < 28; k++) {
      if (k >= constellation_to_sat_count(code_to_constellation(c))) break;
      for (int f = 1; f <= (is_glo(c) ? 14 : 1); f++) {
        gnss_signal_t t = sid_from_code_index(c, k);
        if (is_glo(c)) glo_map_set_slot_id(f, t.sat);
        tr_begin("carr");
        tr_i("c", c);
        tr_i("s", t.sat);
        tr_i("fcn", is_glo(c) ? f : 0);
        double hz = sid_to_carr_freq(t);
        tr_i("hz", hzint(hz, &ex));
        tr_i("hzx", ex);
        /* wavelength times frequency, relative to the speed of light, in 1e-12 */
        tr_i("ppt", llround((sid_to_lambda(t) * hz / 299792458.0 - 1.0) * 1e12));
        tr_end();
      }
    }
  }
  for (int c = -40; c <= 300; c++) {
    tr_begin("cv");
    tr_i("c", c);
    tr_i("v", code_valid((code_t)c));
    tr_end();
  }
  for (int k = -5; k <= 20; k++) {
    tr_begin("consv");
    tr_i("k", k);
    tr_i("v", constellation_valid((constellation_t)k));
    char ch[2] = {constellation_to_char((constellation_t)k), 0};
    tr_str("ch", ch);
    tr_i("l1", constellation_to_l1_code((constellation_t)k));
    tr_i("l5", constellation_to_l5_code((constellation_t)k));
    tr_end();
  }
  for (int k = 0; k < CONSTELLATION_COUNT; k++) {
    tr_begin("cons");
    tr_i("k", k);
    tr_str("str", constellation_to_string(k));
    tr_i("back", constellation_string_to_enum(constellation_to_string(k)));
    tr_i("n", constellation_to_sat_count(k));
    tr_end();
  }
  for (int k = 0; k < SUB_CONSTELLATION_COUNT; k++) {
    tr_begin("sub");
    tr_i("k", k);
    tr_str("str", sub_constellation_to_string(k));
    tr_i("back", sub_constellation_string_to_enum(sub_constellation_to_string(k)));
    tr_i("cons", sub_constellation_to_constellation(k));
    tr_end();
  }
  for (int x = 32; x < 127; x++) {
    if (x == '"' || x == '\\') continue;
    char ch[2] = {(char)x, 0};
    tr_begin("ch");
    tr_str("ch", ch);
    tr_i("r", char_to_constellation((char)x));
    tr_end();
  }
  for (int x = 0; x < 256; x++)
    if (x < 32 || x > 126) {
      tr_begin("chx");
      tr_i("x", x);
      tr_i("r", char_to_constellation((char)x));
      tr_end();
    }
  /* near misses of names */
  for (int c = 0; c < CODE_COUNT; c++) {
    char b[40];
    for (int v = 0; v < 8; v++) {
      strcpy(b, code_to_string(c));
      size_t n = strlen(b);
      if (v == 0) b[n - 1] = 0;
      if (v == 1) strcat(b, " ");
      if (v == 2) b[0] |= 32;
      if (v == 3) memmove(b, b + 1, n);
      if (v == 4) strcat(b, "X");
      if (v == 5) b[n - 1] = 'Z';
      if (v == 6) b[3 % n] = 0;
      if (v == 7) b[0] = 0;
      tr_begin("s2c");
      tr_str("s", b);
      tr_i("r", code_string_to_enum(b));
      tr_i("k", constellation_string_to_enum(b));
      tr_i("u", sub_constellation_string_to_enum(b));
      tr_end();
    }
  }
  for (int k = 0; k < SBAS_COUNT; k++) {
    tr_begin("sbl");
    tr_i("k", k);
    tr_au8("l", get_sbas_prn_list(k), MAX_SBAS_SATS_PER_SYSTEM);
    tr_end();
  }
  static const code_t sb[] = {CODE_SBAS_L1CA, CODE_SBAS_L5I, CODE_SBAS_L5Q, CODE_SBAS_L5X, CODE_AUX_SBAS};
  for (int i = 0; i < 5; i++)
    for (int s = 0; s < 900; s++) {
      tr_begin("sbs");
      tr_i("s", s);
      tr_i("r", get_sbas_system(construct_sid(sb[i], s)));
      tr_end();
    }
}

static void one_sid(int c, int s) {
  gnss_signal_t sid = construct_sid((code_t)c, (u16)s);
  char buf[64];
  memset(buf, 0x7e, sizeof buf);
  tr_begin("sid");
  tr_i("c", c);
  tr_i("s", s);
  tr_i("cc", sid.code);
  tr_i("cs", sid.sat);
  int v = sid_valid(sid);
  tr_i("v", v);
  int n = sid_to_string(buf, SID_STR_LEN_MAX, sid);
  int term = 0, over = 0;
  for (int i = 0; i < SID_STR_LEN_MAX; i++)
    if (!buf[i]) { term = 1; break; }
  for (int i = SID_STR_LEN_MAX; i < 64; i++) over |= buf[i] != 0x7e;
  buf[63] = 0;
  tr_i("n", n);
  tr_i("term", term);
  tr_i("over", over);
  tr_i("slen", strlen(buf));
  tr_str("name", buf);
  static const char *suf[] = {"", "-", ":", "0"};
  const char *sx = suf[(c + s) & 3];
  memset(buf, 0x7e, sizeof buf);
  tr_s("sx", sx);
  tr_i("sn", sat_code_to_string(buf, strlen(sx), sx, (u16)s, (code_t)c));
  tr_i("sl", strlen(buf));
  tr_str("sname", buf);
  navigation_measurement_t nm = {0};
  nm.sid = sid;
  tr_i("nl2p", not_l2p_sid(nm));
  if (v && c >= 0 && c < CODE_COUNT) {
    u16 ix = sid_to_code_index(sid);
    tr_i("ix", ix);
    if (ix < constellation_to_sat_count(code_to_constellation(c))) {
      gnss_signal_t b = sid_from_code_index(c, ix);
      tr_i("bc", b.code);
      tr_i("bs", b.sat);
    }
  }
  tr_end();
}
static int prs[400][2];
static int np;
static void part_sid(int quick) {
  static const int bad[] = {-1, -2, -128, 64, 65, 100, 127, 128, 255, 256, 1000};
  static const int big[] = {255, 256, 257, 300, 447, 448, 576, 999, 1000, 1001, 9999, 10000, 10203, 32767, 32768, 40000, 65534, 65535};
  for (int c = 0; c < CODE_COUNT; c++) {
    for (int s = 0; s <= 254; s++) one_sid(c, s);
    for (unsigned i = 0; i < sizeof big / sizeof *big; i++) one_sid(c, big[i]);
    int m = quick ? 20 : 300;
    for (int i = 0; i < m; i++) one_sid(c, rnd(65536));
  }
  for (unsigned b = 0; b < sizeof bad / sizeof *bad; b++) {
    for (int s = 0; s <= 254; s += 3) one_sid(bad[b], s);
    for (unsigned i = 0; i < sizeof big / sizeof *big; i++) one_sid(bad[b], big[i]);
  }
  for (int c = 0; c < CODE_COUNT; c++) {
    int n = constellation_to_sat_count(code_to_constellation(c));
    int f = sid_from_code_index(c, 0).sat;
    prs[np][0] = c, prs[np++][1] = f;
    prs[np][0] = c, prs[np++][1] = f + n - 1;
    prs[np][0] = c, prs[np++][1] = c % 7 == 0 ? 65535 : f + (int)rnd(n);
    if (c % 9 == 0) prs[np][0] = c, prs[np++][1] = 0;
  }
  for (int i = 0; i < np; i++) {
    gnss_signal_t a = construct_sid(prs[i][0], prs[i][1]);
    long long bc[400], bs[400], lt[400], cm[400], eq[400], he[400];
    for (int j = 0; j < np; j++) {
      gnss_signal_t b = construct_sid(prs[j][0], prs[j][1]);
      bc[j] = b.code;
      bs[j] = b.sat;
      lt[j] = sgn(sid_compare(a, b));
      cm[j] = sgn(cmp_sid_sid(&a, &b));
      eq[j] = sid_is_equal(a, b);
      he[j] = sid_hash(a) == sid_hash(b);
    }
    tr_begin("cmp");
    tr_i("c", a.code);
    tr_i("s", a.sat);
    tr_ai("bc", bc, np);
    tr_ai("bs", bs, np);
    tr_ai("lt", lt, np);
    tr_ai("cm", cm, np);
    tr_ai("eq", eq, np);
    tr_ai("he", he, np);
    tr_end();
  }
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  rng_seed(atoi(argv[4]));
  if (argv[2][0] == 'c') part_code(); else part_sid(atoi(argv[3]));
  tr_close();
  return 0;
}
