/* Health words, every one of them. argv: trace quick seed */
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/shm.h>
#include "nav.h"
static long long r6[256], r8[256], rp[256];
int main(int argc, char **argv) {
  tr_open(argc, argv);
  bool quick = atoi(argv[2]);
  rng_seed((uint64_t)atoll(argv[3]));
  for (int c = -2; c <= CODE_COUNT + 3; c++) {
    code_t code = (code_t)(c == CODE_COUNT + 3 ? 127 : c);
    for (int w = 0; w < 256; w++) {
      r6[w] = check_6bit_health_word((u8)w, code);
      r8[w] = check_8bit_health_word((u8)w, code);
      rp[w] = check_alma_page25_health_word((u8)w, code);
    }
    tr_begin("words");
    tr_i("c", code);
    tr_ai("six", r6, 256);
    tr_ai("eight", r8, 256);
    tr_ai("page", rp, 256);
    tr_end();
    if (c < 0 || c >= CODE_COUNT) continue;
    almanac_t a;
    memset(&a, 0, sizeof a);
    a.sid = construct_sid(code, 1);
    for (int w = 0; w < 256; w++) {
      a.health_bits = (u8)w;
      r6[w] = almanac_healthy(&a);
    }
    tr_begin("alm");
    tr_i("c", code);
    tr_ai("r", r6, 256);
    tr_end();
    float uras[] = {0, 2, 2.4f, 6144, 6144.5f, 6200, -1, -0.5f, 4096, 30000, 5000, (float)rnd(7000)};
    for (int u = 0; u < 12; u++)
      for (int v = 0; v < 2; v++) {
        if (quick && u >= 6 && (u + v + c) % 3) continue;
        ephemeris_t e;
        memset(&e, 0, sizeof e);
        e.sid = construct_sid(CODE_GPS_L1CA, 5); /* the code asked for counts */
        e.valid = v;
        e.ura = uras[u];
        for (int w = 0; w < 256; w++) {
          e.health_bits = (u8)w;
          r6[w] = ephemeris_healthy(&e, code);
        }
        tr_begin("eph");
        tr_i("c", code);
        tr_i("valid", v);
        tr_m("ura", e.ura);
        tr_ai("r", r6, 256);
        tr_end();
      }
  }
  for (int m = 0; m < 256; m++) {
    for (int w = 0; w < 256; w++) r6[w] = check_nav_dhi((u8)w, (u8)m);
    tr_begin("dhi");
    tr_i("m", m);
    tr_ai("r", r6, 256);
    tr_end();
  }
  for (int i = 0; i < 600; i++) {
    u32 w = i < 32 ? 1u << i : i < 64 ? ~(1u << (i - 32)) : (u32)(rng() >> 32);
    /* GPS words as the receiver holds them: 22 leading data bits, 8 others behind */
    u8 h = 0xA5;
    shm_gps_decode_shi_ephemeris(w, &h);
    tr_begin("sf1");
    tr_i("d", (w >> 8) & 0xffffff);
    tr_i("h", h);
    tr_end();
  }
  tr_close();
  return 0;
}
