/* Satellite clock corrections of single measurements. */
#include "fx.h"
#include <swiftnav/glo_map.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/signal.h>
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int q = atoi(argv[3]);
  rng_seed((uint64_t)atoll(argv[4]) + 11000);
  for (u16 s = 1; s <= 24; s++) glo_map_set_slot_id((u16)(1 + (s * 5) % 14), s);
  for (int i = 0; i < (q ? 6000 : 60000); i++) {
    gnss_signal_t sid = {.code = (code_t)(i % CODE_COUNT), .sat = 0};
    if (!code_valid(sid.code)) continue;
    sid.sat = (u16)(code_to_sig_count(sid.code) ? 1 + rnd(20) : 1);
    constellation_t c = code_to_constellation(sid.code);
    if (c == CONSTELLATION_SBAS) sid.sat += 119;
    if (c == CONSTELLATION_QZS) sid.sat = (u16)(193 + rnd(5));
    if (!sid_valid(sid)) continue;
    navigation_measurement_t m, m0;
    memset(&m, 0, sizeof m);
    m.sid = sid;
    m.raw_pseudorange = uni(1.9e7, 4.2e7);
    m.raw_carrier_phase = uni(-3e8, 3e8);
    m.raw_measured_doppler = uni(-8000, 8000);
    m.raw_computed_doppler = uni(-8000, 8000);
    m.sat_clock_err = rnd(10) ? uni(-1.9e-3, 1.9e-3) : 0;
    m.sat_clock_err_rate = rnd(10) ? uni(-4e-9, 4e-9) : 0;
    m.flags = (u16)rnd(256);
    m0 = m;
    double pc = nav_meas_cor_sat_clk_on_pseudorange(&m), lc = nav_meas_cor_sat_clk_on_carrier_phase(&m), dc = nav_meas_cor_sat_clk_on_measured_doppler(&m);
    tr_begin("obs"); tr_fx("p", m0.raw_pseudorange, -6); tr_fx("ph", m0.raw_carrier_phase, -6); tr_fx("d", m0.raw_measured_doppler, -3);
    tr_fx("f", sid_to_carr_freq(sid), -9); tr_fx("b", m0.sat_clock_err, 6); tr_fx("r", m0.sat_clock_err_rate, 9);
    tr_fx("pc", pc, -6); tr_fx("lc", lc, -6); tr_fx("dc", dc, -3); tr_i("same", !memcmp(&m, &m0, sizeof m)); tr_end();
  }
  tr_close();
  return 0;
}
