/* Equality of ephemerides, almanacs, measurements, standard deviations,
 * GLONASS biases and ionosphere parameters under every single difference,
 * pairs of differences and differences in data that must not count. */
#include <vector>
#include <stddef.h>
#include "tr.h"
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/float_equality.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/signal.h>
#include <swiftnav/ionosphere.h>
/* d double, f float, 1/2/4 discrete of that many bytes, v valid flag,
   S satellite, C code, W week number */
struct fld { const char *n; char t; size_t off; };
#define D(s, f) {#f, 'd', offsetof(s, f)}
#define N(n, t, s, f) {n, t, offsetof(s, f)}
#define P3(n, s, f) {n "0", 'd', offsetof(s, f[0])}, {n "1", 'd', offsetof(s, f[1])}, {n "2", 'd', offsetof(s, f[2])}
#define K(f) {#f, 'd', offsetof(ephemeris_t, data.kepler.f)}
static const std::vector<fld> eph_head = {
    N("sat", 'S', ephemeris_t, sid.sat), N("code", 'C', ephemeris_t, sid.code), N("toe.wn", 'W', ephemeris_t, toe.wn),
    N("toe.tow", 'd', ephemeris_t, toe.tow), N("valid", 'v', ephemeris_t, valid), N("health_bits", '1', ephemeris_t, health_bits),
    N("ura", 'f', ephemeris_t, ura), N("fit_interval", '4', ephemeris_t, fit_interval), N("source", '1', ephemeris_t, source)};
static const std::vector<fld> eph_kep = {
    N("tgd0", 'f', ephemeris_t, data.kepler.tgd.gps_s[0]), N("tgd1", 'f', ephemeris_t, data.kepler.tgd.gps_s[1]),
    K(crc), K(crs), K(cuc), K(cus), K(cic), K(cis), K(dn), K(m0), K(ecc), K(sqrta), K(omega0), K(omegadot), K(w), K(inc),
    K(inc_dot), K(af0), K(af1), K(af2), N("toc.tow", 'd', ephemeris_t, data.kepler.toc.tow),
    N("toc.wn", 'W', ephemeris_t, data.kepler.toc.wn), N("iodc", '2', ephemeris_t, data.kepler.iodc),
    N("iode", '2', ephemeris_t, data.kepler.iode)};
#undef K
static const std::vector<fld> eph_glo = {
    N("gamma", 'd', ephemeris_t, data.glo.gamma), N("tau", 'd', ephemeris_t, data.glo.tau), N("d_tau", 'd', ephemeris_t, data.glo.d_tau),
    P3("pos", ephemeris_t, data.glo.pos), P3("vel", ephemeris_t, data.glo.vel), P3("acc", ephemeris_t, data.glo.acc),
    N("fcn", '2', ephemeris_t, data.glo.fcn), N("iod", '1', ephemeris_t, data.glo.iod),
    N("junk", 'j', ephemeris_t, data.glo)};
static const std::vector<fld> eph_xyz = {
    P3("pos", ephemeris_t, data.xyz.pos), P3("vel", ephemeris_t, data.xyz.vel), P3("acc", ephemeris_t, data.xyz.acc),
    N("a_gf0", 'd', ephemeris_t, data.xyz.a_gf0), N("a_gf1", 'd', ephemeris_t, data.xyz.a_gf1), N("junk", 'J', ephemeris_t, data.xyz)};
static const std::vector<fld> alm_head = {
    N("sat", 'S', almanac_t, sid.sat), N("code", 'C', almanac_t, sid.code), N("toa.wn", 'W', almanac_t, toa.wn),
    N("toa.tow", 'd', almanac_t, toa.tow), N("valid", 'v', almanac_t, valid), N("health_bits", '1', almanac_t, health_bits),
    N("ura", 'f', almanac_t, ura), N("fit_interval", '4', almanac_t, fit_interval)};
#define A(f) {#f, 'd', offsetof(almanac_t, data.kepler.f)}
static const std::vector<fld> alm_kep = {A(m0), A(ecc), A(sqrta), A(omega0), A(omegadot), A(w), A(inc), A(af0), A(af1)};
#undef A
#define A(f) {#f, 'd', offsetof(almanac_t, data.glo.f)}
static const std::vector<fld> alm_glo = {A(lambda), A(t_lambda), A(i), A(t), A(t_dot), A(epsilon), A(omega), N("junk", 'k', almanac_t, data.glo)};
#undef A
static const std::vector<fld> alm_xyz = {P3("pos", almanac_t, data.xyz.pos), P3("vel", almanac_t, data.xyz.vel), P3("acc", almanac_t, data.xyz.acc)};
typedef navigation_measurement_t nm;
static const std::vector<fld> meas = {
    N("sat", 'S', nm, sid.sat), N("code", 'C', nm, sid.code), D(nm, raw_pseudorange), D(nm, raw_carrier_phase),
    D(nm, raw_measured_doppler), D(nm, raw_computed_doppler), P3("sat_pos", nm, sat_pos), P3("sat_vel", nm, sat_vel),
    P3("sat_acc", nm, sat_acc), N("eph_key", '2', nm, eph_key), D(nm, sat_clock_err), D(nm, sat_clock_err_rate), D(nm, cn0),
    D(nm, lock_time), D(nm, elevation), N("tot.wn", 'W', nm, tot.wn), N("tot.tow", 'd', nm, tot.tow), N("flags", '2', nm, flags)};
static const std::vector<fld> stdd = {
    N("sat", 'S', measurement_std_t, sid.sat), N("code", 'C', measurement_std_t, sid.code), D(measurement_std_t, iono_std),
    D(measurement_std_t, tropo_std), D(measurement_std_t, range_std), N("flags", '1', measurement_std_t, flags)};
static const std::vector<fld> bias = {
    N("mask", '1', glo_biases_t, mask), N("l1of", 'd', glo_biases_t, l1of_bias_m), N("l1p", 'd', glo_biases_t, l1p_bias_m),
    N("l2of", 'd', glo_biases_t, l2of_bias_m), N("l2p", 'd', glo_biases_t, l2p_bias_m)};
static const std::vector<fld> iono = {
    N("toa.wn", 'W', ionosphere_t, toa.wn), N("toa.tow", 'd', ionosphere_t, toa.tow), D(ionosphere_t, a0), D(ionosphere_t, a1),
    D(ionosphere_t, a2), D(ionosphere_t, a3), D(ionosphere_t, b0), D(ionosphere_t, b1), D(ionosphere_t, b2), D(ionosphere_t, b3)};

struct kind { const char *n; size_t size; };
static bool call(char k, const void *a, const void *b) {
  switch (k) {
    case 'e': return ephemeris_equal((const ephemeris_t *)a, (const ephemeris_t *)b);
    case 'a': return almanac_equal((const almanac_t *)a, (const almanac_t *)b);
    case 'm': return nav_meas_equal((const nm *)a, (const nm *)b);
    case 's': return measurement_std_equal((const measurement_std_t *)a, (const measurement_std_t *)b);
    case 'b': return glonass_biases_are_equal(*(const glo_biases_t *)a, *(const glo_biases_t *)b);
    default: return *(const ionosphere_t *)a == *(const ionosphere_t *)b;
  }
}
static const char *kname(char k) {
  switch (k) {
    case 'e': return "eph"; case 'a': return "alm"; case 'm': return "meas"; case 's': return "std"; case 'b': return "bias";
    default: return "iono";
  }
}
template <class T> static T get(const void *p) { T x; memcpy(&x, p, sizeof x); return x; }
template <class T> static void put(void *p, T x) { memcpy(p, &x, sizeof x); }
static void fill(char *a, const std::vector<fld> &F, int code, bool zero) {
  for (const fld &f : F) {
    char *p = a + f.off;
    switch (f.t) {
      case 'd': put<double>(p, zero ? 0 : ((int)rnd(17) - 8) * 0.125); break;
      case 'f': put<float>(p, zero ? 0.0f : ((int)rnd(17) - 8) * 0.125f); break;
      case '1': put<uint8_t>(p, (uint8_t)rng()); break;
      case '2': put<uint16_t>(p, (uint16_t)rng()); break;
      case '4': put<uint32_t>(p, (uint32_t)rng()); break;
      case 'v': put<uint8_t>(p, rnd(2)); break;
      case 'W': put<int16_t>(p, (int16_t)(1 + rnd(4000))); break;
      case 'S': put<uint16_t>(p, code_to_constellation((code_t)code) == CONSTELLATION_SBAS ? 120 + rnd(19)
                                 : code_to_constellation((code_t)code) == CONSTELLATION_QZS ? 193 + rnd(10) : 1 + rnd(28)); break;
      case 'C': put<code_t>(p, (code_t)code); break;
    }
  }
  for (const fld &f : F) if (!strcmp(f.n, "toe.tow") || !strcmp(f.n, "tot.tow") || !strcmp(f.n, "toa.tow") || !strcmp(f.n, "toc.tow"))
    put<double>(a + f.off, zero ? 4 : rnd(64) * 0.125 + 2);
}
/* applies a difference, returns its name (NULL: nothing to say) */
static const char *perturb(char *b, const fld &f, int over, int how) {
  char *p = b + f.off;
  const double small[4] = {1.0 / (1ULL << 41), -1.0 / (1ULL << 41), 1.0 / (1ULL << 43), -1.0 / (1ULL << 43)};
  const double big[8] = {1.0 / (1ULL << 39), -1.0 / (1ULL << 39), 1.0 / (1ULL << 38), -1.0 / (1ULL << 30), 1.0 / 1024, -0.5, 1, -4096};
  double d = over ? big[how % 8] : small[how % 4];
  const char *s = over ? "over" : "within";
  switch (f.t) {
    case 'd': put<double>(p, get<double>(p) + d); break;
    case 'f': { float x = get<float>(p), y = (float)(x + d);
      if (x == y || fabs((double)x - y) != fabs(d)) return NULL;
      put<float>(p, y); break; }
    case '1': put<uint8_t>(p, (uint8_t)(get<uint8_t>(p) ^ (1u << (how % 8)))); s = "over"; break;
    case '2': put<uint16_t>(p, (uint16_t)(get<uint16_t>(p) ^ (1u << (how % 16)))); s = "over"; break;
    case '4': put<uint32_t>(p, get<uint32_t>(p) ^ (1u << (how % 32))); s = "over"; break;
    case 'v': put<uint8_t>(p, !get<uint8_t>(p)); s = "over"; break;
    case 'W': put<int16_t>(p, (int16_t)(get<int16_t>(p) + (how % 2 ? 1 : 1024))); s = "over"; break;
    case 'S': { uint16_t x = get<uint16_t>(p); x = (uint16_t)(x % 2 ? x + 1 : x - 1);
      if (x == 0) x = 2; if (x == 192) x = 194; if (x == 119) x = 121; if (x == 139) x = 137; if (x == 203) x = 201; if (x == 29) x = 27;
      put<uint16_t>(p, x); s = "over"; break; }
    case 'C': { code_t c = get<code_t>(p); int n = 0;
      for (int i = 0; i < CODE_COUNT; i++)
        if (i != c && code_to_constellation((code_t)i) == code_to_constellation(c)) n++;
      int pick = how % n;
      for (int i = 0; i < CODE_COUNT; i++)
        if (i != c && code_to_constellation((code_t)i) == code_to_constellation(c) && pick-- == 0) { put<code_t>(p, (code_t)i); break; }
      s = "over"; break; }
    case 'j': b[offsetof(ephemeris_t, data) + sizeof(ephemeris_glo_t) + how % (sizeof(ephemeris_kepler_t) - sizeof(ephemeris_glo_t))] ^= 0x55; s = "over"; break;
    case 'J': b[offsetof(ephemeris_t, data) + sizeof(ephemeris_xyz_t) + how % (sizeof(ephemeris_kepler_t) - sizeof(ephemeris_xyz_t))] ^= 0x55; s = "over"; break;
    case 'k': b[offsetof(almanac_t, data) + sizeof(almanac_glo_t) + how % (sizeof(almanac_kepler_t) - sizeof(almanac_glo_t))] ^= 0x55; s = "over"; break;
  }
  return s;
}
struct dif { size_t f; int over, how; };
static void one(char k, const std::vector<fld> &F, size_t size, int code, const std::vector<dif> &ds, bool zero) {
  std::vector<char> a(size), b(size);
  for (auto &x : a) x = (char)rng();
  fill(a.data(), F, code, zero);
  b = a;
  tr_begin("eq"); tr_s("k", kname(k)); tr_i("c", code);
  fprintf(TR, ",\"ch\":[");
  int n = 0;
  for (const dif &d : ds) {
    const char *s = perturb(b.data(), F[d.f], d.over, d.how);
    if (s) fprintf(TR, "%s[\"%s\",\"%s\"]", n++ ? "," : "", F[d.f].n, s);
  }
  fprintf(TR, "]");
  tr_i("ab", call(k, a.data(), b.data())); tr_i("ba", call(k, b.data(), a.data()));
  tr_end();
}
static std::vector<fld> cat(const std::vector<fld> &a, const std::vector<fld> &b) { auto r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static void sweep(char k, const std::vector<fld> &F, size_t size, int code, bool full, int reps) {
  one(k, F, size, code, {}, false); one(k, F, size, code, {}, true);
  for (size_t i = 0; i < F.size(); i++)
    for (int over = 0; over < 2; over++) {
      int hows = F[i].t == '1' ? 8 : F[i].t == '2' ? 16 : F[i].t == '4' ? 32 : F[i].t == 'C' ? 4 : 8;
      if (!full) hows = hows > 2 ? 2 : hows;
      for (int h = 0; h < hows; h++) { int how = full ? h : (int)rnd(96); one(k, F, size, code, {{i, over, how}}, h % 2); }
    }
  for (int r = 0; r < reps; r++) {
    std::vector<dif> ds;
    int n = 1 + rnd(4);
    size_t seen[4];
    for (int i = 0; i < n; i++) {
      size_t f = rnd((uint32_t)F.size());
      bool dup = false;
      for (int j = 0; j < (int)ds.size(); j++) dup |= seen[j] == f;
      if (dup) continue;
      seen[ds.size()] = f;
      ds.push_back({f, rnd(4) == 0, (int)rnd(96)});
    }
    one(k, F, size, code, ds, rnd(2));
  }
  /* everything that must not count, all at once */
}
/* numbers d ticks of 2^-46 apart, held against a tolerance of t ticks */
static void tol(long long base, long long d, long long t) {
  const double T = 1.0 / (1ULL << 46);
  double x = (double)base * T, y = (double)(base + d) * T;
  bool fl = llabs(base) < (1 << 23) && llabs(base + d) < (1 << 23);
  long long r[4] = {double_equal(x, y), double_approx_eq(x, y), fl ? float_equal((float)x, (float)y) : -1, double_within(x, y, (double)t * T)};
  tr_begin("tol"); tr_i("d", d); tr_i("t", t); tr_ai("r", r, 4); tr_end();
}
int main(int argc, char **argv) {
  tr_open(argc, argv);
  int quick = argc > 2 ? atoi(argv[2]) : 1;
  rng_seed(argc > 3 ? strtoull(argv[3], NULL, 10) : 1);
  const int reps_c[6] = {0, 2, 3, 12, 31, 14};
  int reps = quick ? 60 : 2500;
  if (argc > 4) { /* biases only */
    sweep('b', bias, sizeof(glo_biases_t), -1, true, reps * 10);
    tr_close();
    return 0;
  }
  for (int code = 0; code < CODE_COUNT; code++) {
    bool full = false;
    for (int r : reps_c) full |= r == code;
    if (!full && quick && code % 4 != (int)(tr_rng_s % 4)) continue;
    constellation_t c = code_to_constellation((code_t)code);
    const auto &em = c == CONSTELLATION_GLO ? eph_glo : c == CONSTELLATION_SBAS ? eph_xyz : eph_kep;
    sweep('e', cat(eph_head, em), sizeof(ephemeris_t), code, full || !quick, full ? reps * 3 : reps / 4);
    if (c == CONSTELLATION_GPS || c == CONSTELLATION_GLO || c == CONSTELLATION_SBAS) {
      const auto &am = c == CONSTELLATION_GLO ? alm_glo : c == CONSTELLATION_SBAS ? alm_xyz : alm_kep;
      sweep('a', cat(alm_head, am), sizeof(almanac_t), code, full || !quick, full ? reps * 2 : reps / 4);
    }
    sweep('m', meas, sizeof(nm), code, full, full ? reps * 2 : reps / 4);
    sweep('s', stdd, sizeof(measurement_std_t), code, full, full ? reps : reps / 4);
  }
  sweep('b', bias, sizeof(glo_biases_t), -1, true, reps * 2);
  sweep('i', iono, sizeof(ionosphere_t), -1, true, reps * 2);
  for (int i = 0; i < (quick ? 600 : 8000); i++) {
    nm a, b;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    a.sid.code = (code_t)rnd(CODE_COUNT); b.sid.code = rnd(3) ? (code_t)rnd(CODE_COUNT) : a.sid.code;
    uint16_t fa = code_to_constellation(a.sid.code) == CONSTELLATION_SBAS ? 120 : code_to_constellation(a.sid.code) == CONSTELLATION_QZS ? 193 : 1;
    uint16_t fb = code_to_constellation(b.sid.code) == CONSTELLATION_SBAS ? 120 : code_to_constellation(b.sid.code) == CONSTELLATION_QZS ? 193 : 1;
    a.sid.sat = (uint16_t)(fa + rnd(10)); b.sid.sat = (uint16_t)(fb + rnd(10));
    a.raw_pseudorange = rnd(9); b.raw_pseudorange = rnd(9);
    int r = nav_meas_cmp(&a, &b);
    long long va[2] = {a.sid.code, a.sid.sat}, vb[2] = {b.sid.code, b.sid.sat};
    tr_begin("cmp"); tr_ai("a", va, 2); tr_ai("b", vb, 2); tr_i("r", (r > 0) - (r < 0)); tr_end();
  }
  for (int i = 0; i < (quick ? 1500 : 30000); i++) {
    static const long long sp[] = {0, 1, 2, 35, 69, 70, 71, 72, 140, 1 << 20, 1 << 30};
    long long d = rnd(3) ? sp[rnd(11)] : (long long)rnd(i % 2 ? 200 : 1 << 28);
    if (rnd(2)) d = -d;
    static const int sh[] = {1, 8, 20, 31};
    long long base = (long long)rnd(1u << sh[rnd(4)]) << (rnd(3) ? 0 : rnd(20));
    if (rnd(2)) base = -base;
    if (rnd(4) == 0) base = -d / 2;
    tol(base, d, rnd(4) ? llabs(d) + (int)rnd(3) - 1 : (long long)rnd(1 << 20));
  }
  for (int f = 0; f < 1024; f += 64) {
    long long v[64];
    for (int i = 0; i < 64; i++) {
      nm a; memset(&a, 0, sizeof a); a.flags = (nav_meas_flags_t)(f >= 512 ? (f + i) * 64 + rnd(64) * 0 : f + i);
      v[i] = pseudorange_valid(&a);
      if (f >= 512) v[i] = -1;
    }
    if (f >= 512) break;
    tr_begin("pr"); tr_i("f", f); tr_ai("r", v, 64); tr_end();
  }
  tr_close();
  return 0;
}
