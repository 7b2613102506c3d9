// K01, K02: kernel loading, constants and third-body attraction over a simulated CSPICE toolkit
#include "../sim/sim.hpp"
#include "orbit_integration.hpp"
#include "planetpos.hpp"
#include "egravity.hpp"
#include <algorithm>
#include <cmath>
#include <type_traits>
#include "spice_kit.hpp"
using namespace sim;
namespace {
// ------------------------------------------------------------ workload
std::string kname(Rng &r, int i, const std::vector<KFile> &have) {
  static const char *base[] = {"/data/naif0012.tls", "de421.bsp", "./ker/gm_de431.tpc", "/data/pck00010.tpc", "a", "latest_leapseconds.tls", "/data/moon_pa_de421.bpc"};
  switch (r.below(have.empty() ? 2 : 6)) {
  case 0: return base[r.below(7)];
  case 1: return std::string(base[r.below(7)]) + std::to_string(i);
  case 2: return have[r.below(have.size())].name + (r.below(2) ? ".pc" : "x");       // longer than another
  case 3: { auto s = have[r.below(have.size())].name; return s.size() > 1 ? s.substr(0, s.size() - 1 - r.below(std::min<size_t>(3, s.size() - 1))) : s + "b"; } // shorter
  case 4: { auto s = have[r.below(have.size())].name; for (auto &c : s) if (isalpha(c)) { c = isupper(c) ? tolower(c) : toupper(c); break; } return s; }
  default: return "/data/" + std::string(80 + r.below(200), 'd') + "/k" + std::to_string(i) + (r.below(2) ? ".bsp" : ".tls"); // 87..
  }
}
void setup(Rng &r) {
  kit = Kit();
  int n = 3 + r.below(r.below(4) ? 6 : 24);
  for (int i = 0; i < n; i++) {
    KFile f; f.name = kname(r, i, kit.files);
    if (find(f.name) >= 0) f.name += "-" + std::to_string(i);
    if (f.name.size() > 300) f.name.resize(300);
    f.kind = i < 3 ? (i == 0 ? LSK : i == 1 ? SPK : TPCK) : (Kind)r.below(4); f.id = i + 1; // files have various kinds
    f.good = r.below(8) != 0; f.gone = r.below(10) == 0;
    for (int b = 0; b < 2; b++) { f.gm[b] = (b ? 4902.8 : 1.32712440041e11) * (1 + 1e-4 * r.d(-1, 1)); f.has[b] = f.kind == TPCK && r.below(6); f.cov[b] = f.kind == SPK && r.below(6); }
    kit.files.push_back(f);
  }
  if (r.below(3) == 0) { KFile f; f.name = "/data/all.tm"; f.kind = META; for (int i = 0; i < n; i++) if (r.below(2) && kit.files[i].name.size() < 256) f.members.push_back(i); kit.files.push_back(f); }
  switch (draw(CONF, 4)) { case 1: kit.load_fail = 50 + draw(CONF, 300); break; case 2: kit.read_fail = 20 + draw(CONF, 200); break; case 3: kit.limit = 2 + draw(CONF, 10); break; }
  kit.ret = draw(CONF, 3) != 0;
}
std::string show(const std::string &s) { return s.size() > 60 ? s.substr(0, 20) + fmt("..(%zu)..", s.size()) + s.substr(s.size() - 12) : s; }
std::vector<int> pool_now() { std::vector<int> v; for (auto &e : kit.pool) v.push_back(e.file); return v; }
bool external = false; // an error signalled by other code is pending

template <class F> int status(F &&f) { if constexpr (std::is_void_v<decltype(f())>) { f(); return 0; } else return f(); }
// rc of a call against what the toolkit signalled during it
void judge(const char *what, int rc, int e0, bool pend) {
  bool failed = kit.errors > e0;
  if (rc && !failed && !pend) fail("spurious-failure", "%s failed (%d) although nothing went wrong", what, rc);
  if (rc && kit.misuse) fail("spurious-failure", "%s failed (%d) because it asks the toolkit for something else: %s", what, rc, kit.reason.c_str());
  kit.misuse = 0;
  if (!rc && (failed || pend)) fail("failure-unreported", "%s reports success although: %s", what, pend ? "an error was pending" : kit.reason.c_str());
  observe_u(rc);
}
void request(int f, int how) {
  auto before = pool_now(); int e0 = kit.errors; bool pend = kit.err && external, stuck = kit.err && !external;
  const std::string nm = f >= 0 ? kit.files[f].name : "/data/none.bsp";
  int n0 = f >= 0 ? loaded(f) : 0;
  note("request %d: %s (%s), loaded %d times", how, show(nm).c_str(), f >= 0 ? kindname(kit.files[f].kind) : "absent", n0);
  kit.conditional = how < 3;
  int rc = how == 0 ? dso::cspice::load_if_unloaded_lsk(nm.c_str()) : how == 1 ? dso::cspice::load_if_unloaded_spk(nm.c_str()) : how == 2 ? dso::cspice::load_if_unloaded_pck(nm.c_str()) : dso::cspice::load_kernel(nm.c_str());
  kit.conditional = false;
  note("  -> %d", rc);
  observe_u(rc);
  int n1 = f >= 0 ? loaded(f) : 0;
  if (rc == 0 && !n1) fail("not-loaded", "the request for %s succeeded, but it is not loaded", show(nm).c_str());
  if (rc == 0 && how < 3 && n1 != std::max(n0, 1)) fail("loaded-twice", "%s is loaded %d times (before: %d)", show(nm).c_str(), n1, n0);
  if (rc && kit.errors == e0 && !pend) fail(stuck ? "no-retry" : "spurious-failure", "the request for %s failed (%d) although nothing went wrong%s", show(nm).c_str(), rc, stuck ? " since the failure reported before" : "");
  if (rc && kit.pool.size() != before.size()) fail("half-loaded", "the request for %s failed, but something was loaded", show(nm).c_str());
  auto now = pool_now(); if (!std::equal(before.begin(), before.end(), now.begin())) fail("others-changed", "other kernels changed");
  if (now.size() > before.size() + 1 && !(f >= 0 && kit.files[f].kind == META)) fail("loaded-twice", "%zu kernels were loaded", now.size() - before.size());
  external = false; kit.conditional = false;
  if (!rc && n0) count("requests for loaded kernels"); else if (!rc) count("kernels loaded"); else count("requests refused");
  nontrivial();
}
void constants(int f) {
  kit.misuse = 0;  int e0 = kit.errors; bool pend = kit.err && external; const std::string nm = f >= 0 ? kit.files[f].name : "";
  auto before = pool_now(); int n0 = f >= 0 ? loaded(f) : 0;
  note("constants from %s", f >= 0 ? show(nm).c_str() : "what is loaded");
  double s = 1e77, m = 1e77; kit.conditional = true;
  int rc = dso::get_sun_moon_GM(f >= 0 ? nm.c_str() : nullptr, s, m);
  kit.conditional = false;
  judge("get_sun_moon_GM", rc, e0, pend); external = false;
  auto now = pool_now(); if (now.size() > before.size() + (f >= 0 && !n0)) fail("loaded-twice", "kernels were loaded needlessly");
  if (rc) { count("constants refused"); return; }
  if (f >= 0 && !loaded(f)) fail("not-loaded", "constants were requested from %s, which is not loaded", show(nm).c_str());
  int a = gm_source(0), b = gm_source(1);
  if (a < 0 || b < 0 || s != kit.files[a].gm[0] || m != kit.files[b].gm[1]) fail("wrong-constants", "constants %.17g %.17g, the loaded kernels have %.17g %.17g", s, m, a < 0 ? 0. : kit.files[a].gm[0], b < 0 ? 0. : kit.files[b].gm[1]);
  observe_d(s); observe_d(m); count("constants compared"); nontrivial();
}
// make everything available for the epoch part of a K02 history, unless faults are in the way
void attraction(Rng &r, bool k02) {
  kit.misuse = 0;  int e0 = kit.errors; bool pend = kit.err && external;
  double mjd = 50000 + r.below(12000) + r.u();
  LD jd = (LD)mjd + 2400000.5L;
  if (r.below(3) == 0 || !k02) { // a position
    int b = r.below(2); double p[3] = {1e77, 1e77, 1e77}; int rc; LD q[3]; bool tt = r.below(2); double tol = 1e-9;
    long day = (long)mjd; LD sod = floorl(((LD)mjd - day) * 86400);
    if (tt) { dso::datetime<dso::nanoseconds> t(dso::modified_julian_day(day), dso::nanoseconds((long)sod * 1000000000L)); rc = b ? dso::moon_vector_cspice(t, p) : dso::sun_vector_cspice(t, p); jd = 2400000.5L + day + sod / 86400; }
    else { double et = dso::cspice::jd2et((double)jd); rc = dso::cspice::j2planet_pos_from(et, b ? 301 : 10, 399, p); jd = (double)jd; tol = 1e-12; }
    judge("position", rc, e0, pend); external = false;
    if (rc) { count("positions refused"); return; }
    body_pos(kit.files[spk_source(b)].id, b, et_of(jd), q);
    LD n = sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
    for (int i = 0; i < 3; i++) { if (!(fabsl(p[i] - q[i]) <= tol * n)) fail("wrong-position", "%s at JD %.9f: component %d is %.12g km, the ephemeris gives %.12g", b ? "Moon" : "Sun", (double)jd, i, p[i], (double)q[i]); observe_d(p[i]); }
    count("positions compared"); nontrivial();
    return;
  }
  double gms = 1.327124400e11 * (1 + 1e-3 * r.d(-1, 1)), gmm = 4902.8 * (1 + 1e-3 * r.d(-1, 1));
  Eigen::Matrix<double, 3, 1> rs, sa, ma, sp; Eigen::Matrix<double, 3, 3> P;
  double rad = r.d(6.6e6, r.below(4) ? 8e6 : 4.5e7), la = r.d(0, 6.283), z = r.d(-1, 1);
  rs << rad * sqrt(1 - z * z) * cos(la), rad * sqrt(1 - z * z) * sin(la), rad * z;
  sa.setConstant(1e77); ma = sp = sa; P.setConstant(1e77);
  note("attraction at MJD %.9f, %.0f km", mjd, rad * 1e-3);
  int rc = status([&] { return dso::SunMoon(mjd, rs, gms, gmm, sa, ma, sp, P); });
  judge("SunMoon", rc, e0, pend); external = false;
  if (rc) { count("attractions refused"); return; }
  LD et = et_of(jd + 32.184L / 86400.0L);
  for (int b = 0; b < 2; b++) {
    LD q[3], d[3], a[3], n = 0, dn = 0, an = 0; body_pos(kit.files[spk_source(b)].id, b, et, q);
    for (int i = 0; i < 3; i++) { q[i] *= 1e3L; d[i] = rs(i) - q[i]; n += q[i] * q[i]; dn += d[i] * d[i]; } n = sqrtl(n); dn = sqrtl(dn);
    LD gm = (b ? gmm : gms) * 1e9L;
    for (int i = 0; i < 3; i++) { a[i] = -gm * (d[i] / (dn * dn * dn) + q[i] / (n * n * n)); an += a[i] * a[i]; } an = sqrtl(an);
    an = std::max(an, 1e-3L * gm * rad / (n * n * n));
    auto &A = b ? ma : sa;
    for (int i = 0; i < 3; i++) { if (!(fabsl(A(i) - a[i]) <= 1e-7L * an)) fail(b ? "wrong-moon-attraction" : "wrong-sun-attraction", "MJD %.9f: component %d is %.12g m/s^2, the ephemeris gives %.12g", mjd, i, A(i), (double)a[i]); observe_d(A(i)); }
    if (!b) for (int i = 0; i < 3; i++) if (!(fabsl(sp(i) - q[i]) <= 1e-9L * n)) fail("wrong-sun-position", "component %d is %.12g m, the ephemeris gives %.12g", i, sp(i), (double)q[i]);
    if (b) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD w = -gm * ((i == j) / (dn * dn * dn) - 3 * d[i] * d[j] / (dn * dn * dn * dn * dn)); if (!(fabsl(P(i, j) - w) <= 1e-8L * gm / (dn * dn * dn))) fail("wrong-partials", "partial %d,%d of the Moon's attraction is %.12g, should be %.12g", i, j, P(i, j), (double)w); }
  }
  count("attractions compared"); nontrivial();
}
void point_mass(Rng &r) { // the attraction of any point mass, in its three forms
  double gm = pow(10, r.d(10, 21)), R = pow(10, r.d(6, 8)), D = R * pow(10, r.d(-.5, 5)), x[3], y[3];
  auto dir = [&](double *v, double n) { double z = r.d(-1, 1), l = r.d(0, 6.3); v[0] = n * sqrt(1 - z * z) * cos(l); v[1] = n * sqrt(1 - z * z) * sin(l); v[2] = n * z; if (r.below(10) == 0) v[0] = v[1] = 0, v[2] = n; };
  dir(x, R); dir(y, D);
  LD d[3], n = 0, dn = 0, a[3]; for (int i = 0; i < 3; i++) { d[i] = (LD)x[i] - y[i]; n += (LD)y[i] * y[i]; dn += d[i] * d[i]; } n = sqrtl(n); dn = sqrtl(dn);
  if (dn < 1e-2L * R) return;
  for (int i = 0; i < 3; i++) a[i] = -(LD)gm * (d[i] / (dn * dn * dn) + y[i] / (n * n * n));
  Eigen::Matrix<double, 3, 1> X(x[0], x[1], x[2]), Y(y[0], y[1], y[2]); Eigen::Matrix<double, 3, 3> P; P.setConstant(r.below(2) ? 7e77 : NAN);
  dso::Vector3 vx, vy; vx.x() = x[0], vx.y() = x[1], vx.z() = x[2], vy.x() = y[0], vy.y() = y[1], vy.z() = y[2];
  auto A = dso::point_mass_accel(gm, X, Y), B = dso::point_mass_accel(gm, X, Y, P); auto C = dso::point_mass_accel(vx, vy, gm);
  double got[3][3] = {{A(0), A(1), A(2)}, {B(0), B(1), B(2)}, {C.x(), C.y(), C.z()}}; LD tol = 3e-15L * gm * ((R + n) / (dn * dn * dn) + 1 / (n * n));
  for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) if (!(fabsl(got[k][i] - a[i]) <= tol)) fail("wrong-point-mass", "form %d: component %d of the attraction is %.12g, should be %.12g", k, i, got[k][i], (double)a[i]);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD w = -(LD)gm * ((i == j) / (dn * dn * dn) - 3 * d[i] * d[j] / (dn * dn * dn * dn * dn)); if (!(fabsl(P(i, j) - w) <= 2e-14L * gm * (R + n) / (dn * dn * dn * dn))) fail("wrong-partials", "partial %d,%d of the attraction of a point mass is %.12g, should be %.12g", i, j, P(i, j), (double)w); }
  observe_d(A(0)); count("point masses");
}
void history(bool k02) {
  uint64_t seed = W(1u << 30); Rng r(seed);
  setup(r);
  int n = 4 + (int)W(40), done = 0, process = 0;
  external = false;
  if (k02 && Wc(800)) { for (auto &f : kit.files) if (f.kind == LSK || f.kind == SPK) f.good = true, f.gone = false; for (auto &f : kit.files) if (f.kind == SPK) f.cov[0] = f.cov[1] = true; }
  while (done < n) { // a process ended by the toolkit is followed by another one
    process++;
    bool dead = true;
    spawn(fmt("process %d", process).c_str(), [&] {
      while (done < n) {
        done++;
        if (k02 && r.below(6) == 0) { point_mass(r); continue; }
        int nf = (int)kit.files.size(), f = (int)r.below(nf);
        uint32_t w = r.below(k02 ? 14 : 20);
        if (k02 && done < 4) { request(done - 1 < 2 ? done - 1 : 1, done == 1 ? 0 : 1); continue; }
        auto fits = [&](int x) { return kit.files[x].kind == LSK ? 0 : kit.files[x].kind == SPK ? 1 : 2; };
        if (w < (k02 ? 3u : 8u)) { if (r.below(20) == 0) request(-1, r.below(3)); else if (kit.files[f].kind == META) request(f, 3); else request(f, fits(f)); }
        else if (!k02 && w < 9) request(f, 3);
        else if (!k02 && w < 12) constants(r.below(3) ? (kit.files[f].kind == TPCK ? f : 2) : -1);
        else if (!k02 && w < 14) { note("other code unloads %s", show(kit.files[f].name).c_str()); unload_c(kit.files[f].name.c_str()); }
        else if (!k02 && w < 15) { if (r.below(4) == 0) { note("other code unloads everything"); kclear_c(); } }
        else if (!k02 && w < 16) { auto &F = kit.files[f]; if (F.gone || !F.good) { F.gone = false; F.good = true; note("%s is repaired", show(F.name).c_str()); } else if (!loaded(f) && r.below(3) == 0) { F.good = false; note("%s is damaged", show(F.name).c_str()); } }
        else if (!k02 && w < 17) { if (kit.ret && !kit.err && r.below(3) == 0) { note("other code leaves an error pending"); kit.err = true; external = true; } }
        else if (!k02 && w < 18) { bool q = r.below(2); if (!kit.err) { char b[16]; strcpy(b, q ? "RETURN" : "ABORT"); erract_c("SET", 16, b); note("error action %s", b); } }
        else attraction(r, k02);
      }
      dead = false;
    });
    run_tasks();
    if (dead) { kit.pool.clear(); kit.err = false; external = false; kit.conditional = false; count("processes ended by the toolkit"); }
  }
  observe_u(kit.pool.size());
}
void k01() { history(false); }
void k02() { history(true); }
} // namespace
int main(int argc, char **argv) { return main_driver(argc, argv, {{"K01", k01, "a run counts if a kernel was requested or a value compared"}, {"K02", k02, "a run counts if an attraction or position was compared"}}); }
