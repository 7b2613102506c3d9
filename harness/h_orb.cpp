// A03, V01: Earth rotation and the equations of motion, assembled from simulated files and ephemerides
#include "../sim/sim.hpp"
#include "orbit_integration.hpp"
#include "astrodynamics.hpp"
#include "datetime/utcdates.hpp"
#include "iers2010/iers2010.hpp"
#include "iers2010/iau.hpp"
#include "satellites/jason3.hpp"
#include "sgode.hpp"
#include "spice_kit.hpp"
#include "grav_ref.hpp"
#include <array>
using namespace sim;
namespace {
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef dso::modified_julian_day Mjd;
const double NANV = __builtin_nan("");
const int LEAP = 37; // TAI-UTC of all epochs used
void maybe_preempt() { if (draw(CONF, 3)) set_preempt_rate(300 << draw(CONF, 8)); }
// ------------------------------------------------------------ Earth orientation
struct Earth { long first; int n; std::string path, text; std::vector<std::array<double, 6>> v; dso::EopLookUpTable T; std::vector<double> tt;
  double from() const { return first + LEAP / 86400.; } double to() const { return first + n - 1 + LEAP / 86400.; } // TAI
};
void make_earth(Earth &E, long mid, int tag) {
  Rng r = Wrng();
  int before = Wc(300) ? 1 + (int)W(3) : 5 + (int)W(6), after = Wc(300) ? (int)W(3) : 5 + (int)W(6);
  E.first = mid - before; E.n = before + after + 1; E.path = fmt("/sim/eopc04.%d", tag);
  double xp = r.d(-.3, .3), yp = r.d(.1, .6), dut = r.d(-.6, .6), lod = r.d(-.001, .002), dx = r.d(-5e-4, 5e-4), dy = r.d(-5e-4, 5e-4), vx = r.d(-.003, .003), vy = r.d(-.003, .003);
  E.text = "                         EOP (IERS) 14 C04 TIME SERIES\n\n";
  for (int i = 0; i < E.n; i++) {
    int y, m, d; dso::mjd2ymd(E.first + i, y, m, d); double k = i - before, l = lod + 2e-5 * k;
    double q[6] = {xp + vx * k, yp + vy * k, dut - lod * k - 1e-5 * k * k, l, dx + 1e-5 * k, dy - 1e-5 * k};
    static const int dec[6] = {6, 6, 7, 7, 6, 6}, wid[6] = {11, 11, 12, 12, 11, 11};
    E.text += fmt("%4d%4d%4d%7ld", y, m, d, E.first + i);
    std::array<double, 6> a; for (int j = 0; j < 6; j++) { std::string f = fmt("%*.*f", wid[j], dec[j], q[j]); a[j] = strtod(f.c_str(), 0); E.text += f; }
    for (int j = 0; j < 6; j++) E.text += fmt("%12.6f", 4e-5);
    E.text += "\n"; E.v.push_back(a); E.tt.push_back(E.first + i + (LEAP + 32.184) / 86400.);
  }
  fs::put(E.path, E.text);
  note("Earth orientation: %d days from %ld", E.n, E.first);
}
bool load_earth(Earth &E) { // false: refused because of a fault
  uint64_t h = fs::harmful_fired();
  int rc = dso::parse_iers_C04(E.path.c_str(), Mjd(E.first), Mjd(E.first + E.n), E.T);
  if (rc && fs::harmful_fired() == h) fail("table-refused", "the table of %d days from %ld was refused", E.n, E.first);
  if (rc) { note("table refused"); count("tables refused"); return false; }
  return true;
}
struct Rot { M3 Q, W, R, dR; double era, lod; bool ok; M3 U() const { return W * R * Q; } M3 dU() const { return W * dR * Q; } };
Rot rotation(const Earth &E, double tai) {
  Rot o; o.ok = tai >= E.from() && tai <= E.to(); if (!o.ok) return o;
  L day = floorl((L)tai), sec = ((L)tai - day) * 86400;
  double ttm = (double)(day + (sec + 32.184L) / 86400), w[8];
  // tabulated values, interpolated and corrected (record: xp yp dut lod dx dy)
  for (int f = 0; f < 6; f++) { std::vector<double> y; for (auto &a : E.v) y.push_back(a[f]); int idx = -1; iers2010::interp::lagint(E.tt.data(), y.data(), E.n, ttm, w[f], idx, 9 < E.n ? 5 : 5); }
  double jc = ((floor(ttm) - 51544.5) + (ttm - floor(ttm))) / 36525., d1, dl, dom, cx, cy, cd, cl;
  iers2010::rg_zont2(jc, d1, dl, dom); w[2] += d1; w[3] += dl;
  iers2010::interp::pmut1_oceans(jc, cx, cy, cd, cl); w[0] += cx; w[1] += cy; w[2] += cd; w[3] += cl;
  iers2010::interp::pm_gravi(jc, cx, cy); w[0] += cx; w[1] += cy;
  const double as = M_PI / 648000;
  double X, Y; iers2010::sofa::xy06(2400000.5, ttm, X, Y); double s = iers2010::sofa::s06(2400000.5, ttm, X, Y);
  X += w[4] * as; Y += w[5] * as;
  // published form of the celestial-to-intermediate matrix
  L a = 1 / (1 + sqrtl(1 - (L)X * X - (L)Y * Y)); M3 C; C << (double)(1 - a * X * X), (double)(-a * X * Y), X, (double)(-a * X * Y), (double)(1 - a * Y * Y), Y, -X, -Y, (double)(1 - a * ((L)X * X + (L)Y * Y));
  M3 S; S << cos(s), sin(s), 0, -sin(s), cos(s), 0, 0, 0, 1; o.Q = S.transpose() * C.transpose();
  L ut = day - 51544.5L + (sec - LEAP + w[2]) / 86400; // days since J2000 in UT1
  L th = 2 * M_PIl * fmodl(fmodl(ut, 1.0L) + 0.7790572732640L + 0.00273781191135448L * ut, 1.0L); if (th < 0) th += 2 * M_PIl;
  o.era = (double)th; o.lod = w[3];
  double c = cosl(th), n = sinl(th), om = 7.292115e-5 * (1 - o.lod / 86400);
  o.R << c, n, 0, -n, c, 0, 0, 0, 1; o.dR << -n * om, c * om, 0, -c * om, -n * om, 0, 0, 0, 0;
  double sp = iers2010::sofa::sp00(2400000.5, ttm), x = w[0] * as, y = w[1] * as;
  M3 A, B, D; A << 1, 0, 0, 0, cos(y), -sin(y), 0, sin(y), cos(y); B << cos(x), 0, sin(x), 0, 1, 0, -sin(x), 0, cos(x); D << cos(sp), sin(sp), 0, -sin(sp), cos(sp), 0, 0, 0, 1;
  o.W = A * B * D;
  return o;
}
double off(const M3 &a, const M3 &b) { double w = (a - b).cwiseAbs().maxCoeff(); return w == w ? w : 1e99; }
struct Got { M3 q, w; double era, lod; };
int ask(const Earth &E, double tai, Got &g, double junk) { g.q.setConstant(junk); g.w.setConstant(junk); g.era = g.lod = junk; return dso::gcrs2itrs(tai, E.T, g.q, g.era, g.w, g.lod); }
double pick_epoch(const Earth &E, Rng &r) {
  double t;
  switch (r.below(8)) {
  case 0: t = E.from() - (r.below(2) ? 1e-6 : r.u() * 3); break;
  case 1: t = E.to() + (r.below(2) ? 1e-6 : r.u() * 3); break;
  case 2: t = E.first + r.below(E.n) + r.d(-60, 60) / 86400; break; // around midnight of the three time scales
  case 3: t = E.first + r.below(E.n) + LEAP / 86400. + r.d(-1e-3, 1e-3) / 86400; break;
  case 4: t = r.below(2) ? E.from() + 1e-6 : E.to() - 1e-6; break;
  default: t = E.from() + r.u() * (E.n - 1);
  }
  if (fabs(t - E.from()) < 5e-7 || fabs(t - E.to()) < 5e-7) t += 1e-6;
  return t;
}
void a03() {
  int nf = 1 + (int)W(2); std::vector<Earth> F(nf); long mid = 57765 + W(2500);
  for (int i = 0; i < nf; i++) make_earth(F[i], mid + W(20), i);
  if (draw(CONF, 3) == 1) swarm_benign(); else if (draw(CONF, 3) == 2) swarm_read_faults();
  max_edges = edges() + 50000000;
  maybe_preempt();
  std::vector<char> up(nf); for (int i = 0; i < nf; i++) up[i] = load_earth(F[i]);
  int nt = 1 + (int)W(3);
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int calls = 1 + W(12);
    spawn(fmt("user %d", i).c_str(), [&, s, calls, i] {
      Rng r(s); std::string who = fmt("user %d", i);
      for (int c = 0; c < calls; c++) {
        int k = r.below(nf); Earth &E = F[k]; if (!up[k]) continue;
        double tai = pick_epoch(E, r); Rot w = rotation(E, tai); Got g, h;
        int rc = ask(E, tai, g, r.below(2) ? 7e77 : NANV);
        if (!w.ok) { if (!rc) fail("epoch-outside-accepted", "%s: Earth rotation at TAI %.9f, the table covers %.9f to %.9f", who.c_str(), tai, E.from(), E.to()); count("epochs outside"); nontrivial(); continue; }
        if (rc) fail("epoch-refused", "%s: Earth rotation at TAI %.9f is refused (%d), the table covers %.9f to %.9f", who.c_str(), tai, rc, E.from(), E.to());
        double dt = fabs(remainder(g.era - w.era, 2 * M_PI));
        if (!(dt < 2e-10) || !(g.era > -1e-9 && g.era < 2 * M_PI + 1e-9)) fail("wrong-rotation-angle", "%s: rotation angle at TAI %.9f is %.12f, should be %.12f", who.c_str(), tai, g.era, w.era);
        if (!(off(g.q, w.Q) < 1e-12)) fail("wrong-celestial-matrix", "%s: celestial-to-intermediate matrix at TAI %.9f is off by %.3g", who.c_str(), tai, off(g.q, w.Q));
        if (!(off(g.w, w.W) < 1e-12)) fail("wrong-polar-motion", "%s: polar motion matrix at TAI %.9f is off by %.3g", who.c_str(), tai, off(g.w, w.W));
        if (!(fabs(g.lod - w.lod) < 1e-10)) fail("wrong-length-of-day", "%s: length of day at TAI %.9f is %.10f, should be %.10f", who.c_str(), tai, g.lod, w.lod);
        for (const M3 *m : {&g.q, &g.w}) if (!(off(*m * m->transpose(), M3::Identity()) < 1e-13) || !(fabs(m->determinant() - 1) < 1e-13)) fail("not-a-rotation", "%s: at TAI %.9f", who.c_str(), tai);
        if (r.below(3) == 0) { if (ask(E, tai, h, 1e30) || memcmp(g.q.data(), h.q.data(), 72) || memcmp(g.w.data(), h.w.data(), 72) || g.era != h.era || g.lod != h.lod) fail("rotation-has-memory", "%s: two requests for TAI %.9f differ", who.c_str(), tai); }
        observe_d(g.era); count("rotations"); nontrivial();
        // vectors
        V6 y; for (int j = 0; j < 6; j++) y(j) = r.d(-1, 1) * (j < 3 ? 8e6 : 8e3); if (r.below(8) == 0) y.setZero(), y(r.below(6)) = 1e6;
        V3 p = y.head<3>(), v = y.tail<3>(); double n = p.norm() + 1, m = v.norm() + n * 7.3e-5 + 1e-3;
        M3 U = g.w * w.R * g.q, dU = g.w * w.dR * g.q;
        { double cc = cos(g.era), ss = sin(g.era), om = 7.292115e-5 * (1 - g.lod / 86400); M3 R, dR; R << cc, ss, 0, -ss, cc, 0, 0, 0, 1; dR << -ss * om, cc * om, 0, -cc * om, -ss * om, 0, 0, 0, 0; U = g.w * R * g.q; dU = g.w * dR * g.q; }
        V3 a = dso::rcel2ter(p, g.q, g.era, g.w), b = dso::rter2cel(p, g.q, g.era, g.w);
        V6 ya = dso::ycel2ter(y, g.q, g.era, g.lod, g.w), yb = dso::yter2cel(y, g.q, g.era, g.lod, g.w);
        if (!((a - U * p).norm() < 1e-14 * n)) fail("wrong-transformation", "%s: celestial to terrestrial position is off by %.3g m at TAI %.9f", who.c_str(), (a - U * p).norm(), tai);
        if (!((b - U.transpose() * p).norm() < 1e-14 * n)) fail("wrong-transformation", "%s: terrestrial to celestial position is off by %.3g m at TAI %.9f", who.c_str(), (b - U.transpose() * p).norm(), tai);
        if (!((ya.head<3>() - U * p).norm() < 1e-14 * n) || !((ya.tail<3>() - (U * v + dU * p)).norm() < 1e-13 * m)) fail("wrong-state-transformation", "%s: celestial to terrestrial state is off by %.3g m, %.3g m/s at TAI %.9f", who.c_str(), (ya.head<3>() - U * p).norm(), (ya.tail<3>() - (U * v + dU * p)).norm(), tai);
        if (!((yb.head<3>() - U.transpose() * p).norm() < 1e-14 * n) || !((yb.tail<3>() - (U.transpose() * v + dU.transpose() * p)).norm() < 1e-13 * m)) fail("wrong-state-transformation", "%s: terrestrial to celestial state is off by %.3g m, %.3g m/s at TAI %.9f", who.c_str(), (yb.head<3>() - U.transpose() * p).norm(), (yb.tail<3>() - (U.transpose() * v + dU.transpose() * p)).norm(), tai);
        V6 back = dso::yter2cel(ya, g.q, g.era, g.lod, g.w);
        if (!((back - y).head<3>().norm() < 1e-13 * n) || !((back - y).tail<3>().norm() < 1e-12 * m)) fail("no-round-trip", "%s: a state comes back off by %.3g m, %.3g m/s at TAI %.9f", who.c_str(), (back - y).head<3>().norm(), (back - y).tail<3>().norm(), tai);
        // the velocity is the derivative of the position
        const double H = 20; Got g1, g2;
        if (n < 2e7 && rotation(E, tai - H / 86400).ok && rotation(E, tai + H / 86400).ok && !ask(E, tai - H / 86400, g1, 0) && !ask(E, tai + H / 86400, g2, 0)) {
          V3 lo = dso::rcel2ter(p - H * v, g1.q, g1.era, g1.w), hi = dso::rcel2ter(p + H * v, g2.q, g2.era, g2.w), num = (hi - lo) / (2 * H);
          // third derivative and what is not in the model (motion of the pole, of the celestial pole; rounding of the epoch)
          double tol = H * H / 6 * (7.3e-5 * 7.3e-5) * (3 * m + n * 7.3e-5) + n * 1e-10 + 1e-3;
          if (!((num - ya.tail<3>()).norm() < tol)) fail("velocity-is-not-derivative", "%s: velocity at TAI %.9f is off by %.3g m/s (tolerance %.3g)", who.c_str(), tai, (num - ya.tail<3>()).norm(), tol);
          count("velocities");
        }
      }
    });
  }
  run_tasks();
}
// ------------------------------------------------------------ space weather
struct Day { int ap[8]; double avg, obs, oc; };
struct Csv { long first; int n; std::vector<Day> d; std::string path, text; };
void make_csv(Csv &C, long mid, int tag) {
  Rng r = Wrng(); int before = Wc(200) ? 3 + (int)W(2) : 5 + (int)W(8), after = Wc(300) ? (int)W(3) : 4 + (int)W(8);
  C.first = mid - before; C.n = before + after + 1; C.path = fmt("/sim/SW-All%d.csv", tag);
  C.text = "DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81\n";
  for (int i = 0; i < C.n; i++) {
    Day d; int y, m, dd; dso::mjd2ymd(C.first + i, y, m, dd); std::string s = fmt("%04d-%02d-%02d,2500,%d", y, m, dd, 1 + i % 27); int sum = 0;
    for (int j = 0; j < 9; j++) s += fmt(",%d", (int)r.below(60));
    for (int j = 0; j < 8; j++) { d.ap[j] = (int)r.below(r.below(4) ? 20 : 150); sum += d.ap[j]; s += fmt(",%d", d.ap[j]); }
    d.avg = sum / 8; d.obs = (600 + (int)r.below(1800)) / 10.; d.oc = (600 + (int)r.below(1800)) / 10.;
    s += fmt(",%.0f,0.5,3,40,%.1f,71.5,OBS,%.1f,72.5,73.5,74.5\n", d.avg, d.obs, d.oc); d.obs = strtod(fmt("%.1f", d.obs).c_str(), 0); d.oc = strtod(fmt("%.1f", d.oc).c_str(), 0);
    C.text += s; C.d.push_back(d);
  }
  fs::put(C.path, C.text); note("space weather: %d days from %ld", C.n, C.first);
}
bool has(const Csv &C, long m) { return m - 3 >= C.first && m < C.first + C.n; }
namespace ms = dso::nrlmsise00;
typedef ms::InParams<ms::detail::FluxDataFeedType::ST_CSV_SW> Params;
void flux(const Csv &C, long m, double sec, ms::detail::InParamsCore &p) {
  auto slot = [&](long g) { return (double)C.d[g / 8 - C.first].ap[g % 8]; };
  p.f107A = C.d[m - C.first].oc; p.f107 = C.d[m - 1 - C.first].obs; p.ap = p.aparr.a[0] = C.d[m - C.first].avg; long g = m * 8 + (int)(sec / 10800.);
  for (int i = 0; i < 4; i++) p.aparr.a[1 + i] = slot(g - i);
  p.aparr.a[5] = p.aparr.a[6] = 0; for (int i = 4; i < 12; i++) { p.aparr.a[5] += slot(g - i) / 8.; p.aparr.a[6] += slot(g - i - 8) / 8.; }
}
// ------------------------------------------------------------ attitude
struct Att { std::string path, text; std::vector<double> t; std::vector<Eigen::Quaterniond> q; };
void make_att(Att &A, double start, int n, double step, int tag) { // TAI of the first record, spacing in seconds
  Rng r = Wrng(); A.path = fmt("/sim/qbody%d.txt", tag);
  V3 ax(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1)); ax.normalize(); double rate = r.d(1e-5, r.below(2) ? 1e-3 : 1e-4), ph = r.d(0, 6), w = std::min(rate * step, 2.);
  long ms0 = (long)llround((start * 86400 - LEAP) * 1000); if (r.below(3)) A.text = "# comment\n";
  for (int i = 0; i < n; i++) {
    long t = ms0 + (long)llround(i * step * 1000), day = t / 86400000, ms_ = t % 86400000; int y, m, d; dso::mjd2ymd(day, y, m, d);
    ph += w * r.d(.5, 1) / 2; double s[4] = {cos(ph), ax(0) * sin(ph), ax(1) * sin(ph), ax(2) * sin(ph)}, q[4];
    A.text += fmt("%04d-%02d-%02d %02ld:%02ld:%02ld.%03ld\t%010d\t", y, m, d, ms_ / 3600000, ms_ / 60000 % 60, ms_ / 1000 % 60, ms_ % 1000, 1);
    for (int k = 0; k < 4; k++) { std::string v = fmt("%.10f", s[k]); q[k] = strtod(v.c_str(), 0); if (k) A.text += "0001\t0000000001\t"; A.text += v + "\t"; }
    A.text += "0001\n";
    A.t.push_back((double)((L)t / 86400000 + (L)LEAP / 86400)); Eigen::Quaterniond Q(q[0], q[1], q[2], q[3]); Q.normalize(); A.q.push_back(Q);
  }
  fs::put(A.path, A.text); note("attitude: %d records every %.3f s from TAI %.9f", n, step, start);
}
int pair_of(const Att &A, double t) { int p = -1; for (size_t j = 0; j + 1 < A.t.size(); j++) if (A.t[j] <= t && t < A.t[j + 1]) p = j; return p; }
Eigen::Quaterniond attitude(const Att &A, double t, int p) { return A.q[p].slerp((t - A.t[p]) / (A.t[p + 1] - A.t[p]), A.q[p + 1]); }
// ------------------------------------------------------------ the whole
struct World { Earth E; Model M; int ord; double gms, gmm; bool consts; };
struct Craft { Csv C; Att A; std::vector<dso::MacroModelComponent> plates; double mass, cd; bool aparr, meters; double alt; };
struct Rhs { bool ok; std::string why; V3 a; L tol[3]; Eigen::Matrix<double, 6, 6> J, J2, Jt; V3 dC; double dCt; };
double ell(const V3 &g, ms::detail::InParamsCore &p, double sec) { V3 e = dso::car2ell<dso::ellipsoid::grs80>(g); p.glon = e(0) * 180 / M_PI; p.glat = e(1) * 180 / M_PI; p.alt = e(2) / 1000; p.lst = sec / 3600 + p.glon / 15; return p.alt; }
double density(ms::detail::InParamsCore p, const V3 &g, double sec) { dso::Nrlmsise00 N; ms::OutParams o; ell(g, p, sec); N.gtd7d(&p, &o); return o.d[5]; }
double density(dso::Nrlmsise00 &N, ms::detail::InParamsCore p, const V3 &g, double sec) { ms::OutParams o; ell(g, p, sec); N.gtd7d(&p, &o); return o.d[5]; }
Rhs reference(const World &w, const Craft &c, double tai, const V3 &r, const V3 &v, bool partials) {
  Rhs o; o.ok = false;
  Rot R = rotation(w.E, tai); if (!R.ok) { o.why = "no Earth orientation"; return o; }
  int p = pair_of(c.A, tai); if (p < 0) { o.why = "no attitude"; return o; }
  L day = floorl((L)tai), sec = ((L)tai - day) * 86400 - LEAP; if (sec < 0) sec += 86400, day -= 1;
  double s = (double)(floorl(sec * 1000) / 1000);
  if (!has(c.C, (long)day)) { o.why = "no space weather"; return o; }
  if (!w.consts) { o.why = "no constants"; return o; }
  o.ok = true;
  M3 U = R.U(); V3 g = U * r; o.J.setZero(); o.Jt.setZero(); o.J.block<3, 3>(0, 3).setIdentity();
  // gravity
  double gp[3] = {g(0), g(1), g(2)}; Result e = expected(w.M, w.M.deg, w.ord, gp); V3 ga((double)e.acc[0], (double)e.acc[1], (double)e.acc[2]);
  M3 G; for (int k = 0; k < 6; k++) G(HI[k], HJ[k]) = G(HJ[k], HI[k]) = (double)e.part[k];
  o.a = U.transpose() * ga;
  // rounding of the series, and of the rotation angle for what is not central
  double rn = r.norm(), cent = w.M.gm / (rn * rn); M3 G0 = w.M.gm / (rn * rn * rn) * (3 * g * g.transpose() / (rn * rn) - M3::Identity());
  double gt = 1e-12 * std::max((double)e.sa, cent) + 3e-10 * ((ga + cent / rn * g).norm() + (G - G0).norm() * rn), tolJ = 2e-11 * std::max((double)e.sp, 2 * cent / rn) + 3e-10 * (w.M.deg + 4) * (G - G0).norm();
  M3 GI = U.transpose() * G * U, Sun;
  // Sun and Moon
  L et = et_of((L)tai + 2400000.5L + 32.184L / 86400.0L);
  for (int b = 0; b < 2; b++) {
    L q[3], d[3], n = 0, dn = 0, gm = (b ? w.gmm : w.gms) * 1e9L; body_pos(kit.files[spk_source(b)].id, b, et, q);
    for (int i = 0; i < 3; i++) { q[i] *= 1e3L; d[i] = r(i) - q[i]; n += q[i] * q[i]; dn += d[i] * d[i]; } n = sqrtl(n); dn = sqrtl(dn);
    for (int i = 0; i < 3; i++) o.a(i) += (double)(-gm * (d[i] / (dn * dn * dn) + q[i] / (n * n * n)));
    gt += (double)(1e-8L * gm * 1e7L / (n * n * n));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = (double)(-gm * ((i == j) / (dn * dn * dn) - 3 * d[i] * d[j] / (dn * dn * dn * dn * dn))); if (b) GI(i, j) += x; else Sun(i, j) = x; }
    if (b) tolJ += (double)(1e-8L * gm / (dn * dn * dn));
  }
  // drag
  V3 om(0, 0, 7.292115e-5), vr = v - om.cross(r), vh = vr.normalized(); Eigen::Quaterniond q = attitude(c.A, tai, p); M3 B = q.conjugate().toRotationMatrix();
  double area = 0, edge = 0; for (auto &k : c.plates) { V3 n(k.m_normal[0], k.m_normal[1], k.m_normal[2]); double x = (B * n).dot(vh); if (x > 0) area += k.m_surf * x; edge += k.m_surf; }
  ms::detail::InParamsCore P(Mjd((long)day), s); P.sw.set_on(); if (c.aparr) P.use_aparray(); P.meters_ = c.meters; flux(c.C, (long)day, s, P);
  static dso::Nrlmsise00 *fresh = nullptr; (void)fresh;
  std::unique_ptr<dso::Nrlmsise00> N(new dso::Nrlmsise00);
  double rho = density(*N, P, g, s), k = .5 * c.cd * area / c.mass; V3 drag = -k * rho * vr.norm() * vr; o.a += drag;
  double pe = 2e-7 * edge / std::max(area, 1e-30); // attitude: times are held as days
  gt += drag.norm() * (1e-7 + std::min(pe, 1e9)); for (int i = 0; i < 3; i++) o.tol[i] = gt;
  o.dC = -.5 * area / c.mass * rho * vr.norm() * vr; o.dCt = o.dC.norm() * (1e-7 + pe);
  if (!partials) return o;
  // the model is not smooth everywhere: what the derivative is depends on the step
  V3 dg; double uneven = 0; for (double H : {.5, 1., 5.}) { V3 x; for (int i = 0; i < 3; i++) { V3 u = V3::Zero(); u(i) = H; x(i) = (density(*N, P, g + u, s) - density(*N, P, g - u, s)) / (2 * H); } if (H == .5) dg = x; else uneven = std::max(uneven, (x - dg).norm()); if (H == 1) dg = x; }
  V3 di = U.transpose() * dg; M3 X; X << 0, -om(2), 0, om(2), 0, 0, 0, 0, 0;
  M3 dv = -k * rho * (vr.norm() * M3::Identity() + vr * vr.transpose() / vr.norm());
  M3 dr = -k * vr.norm() * vr * di.transpose() - dv * X;
  o.J.block<3, 3>(3, 0) = GI + dr; o.J.block<3, 3>(3, 3) = dv; o.J2 = o.J; o.J2.block<3, 3>(3, 0) += Sun;
  o.Jt.block<3, 3>(3, 0).setConstant(tolJ + k * vr.squaredNorm() * ((1e-4 + pe) * di.norm() + 3 * uneven) + 1e-9 * k * rho * vr.squaredNorm() + (1e-6 + pe) * k * rho * vr.norm() * om(2) * 2);
  o.Jt.block<3, 3>(3, 3).setConstant((1e-7 + pe) * 2 * k * rho * vr.norm());
  return o;
}
struct Sat { // one user's objects
  const World *w; Craft *c; std::string who;
  std::unique_ptr<dso::IntegrationParameters> P; std::unique_ptr<dso::JasonQuaternionHunter> Q; std::unique_ptr<Params> F; std::unique_ptr<dso::Nrlmsise00> N;
  double maxreq = -1; int held = -1; double ref = 0; std::string pck;
  bool open(double tai, double ref_) {
    uint64_t h = fs::harmful_fired(); ref = ref_;
    L utc = (L)tai - (L)LEAP / 86400; long day = (long)floorl(utc); double sec = (double)((utc - day) * 86400);
    try { Q.reset(new dso::JasonQuaternionHunter(c->A.path.c_str())); } catch (std::exception &) { if (fs::harmful_fired() == h) fail("attitude-refused", "%s: the attitude file was refused", who.c_str()); return false; }
    try { F.reset(new Params(c->C.path.c_str(), Mjd(day), sec)); } catch (std::exception &) { if (fs::harmful_fired() == h && has(c->C, day)) fail("feed-refused", "%s: the feed at day %ld was refused", who.c_str(), day); return false; }
    N.reset(new dso::Nrlmsise00);
    P.reset(new dso::IntegrationParameters(w->M.deg, w->ord, w->E.T, *w->M.hc, pck.c_str()));
    F->params_.set_switches_on(); if (c->aparr) F->params_.use_aparray(); if (c->meters) F->params_.meters_on();
    P->macromodel = c->plates.data(); P->numMacroModelComponents = c->plates.size(); P->qhunt = Q.get(); P->SatMass = &c->mass; P->AtmDataFeed = F.get(); P->nrlmsise00 = N.get(); P->drag_coef = &c->cd; P->mjd_tai = ref;
    maxreq = -1; held = -1;
    return true;
  }
  void eval(double tsec, Rng &r, uint64_t h0) {
    double tai = ref + tsec / 86400.;
    double rad = 6378137 + c->alt, la = r.d(0, 6.3), z = r.below(20) ? r.d(-1, 1) : (r.below(2) ? .99999 : -.99999); V3 x(rad * sqrt(1 - z * z) * cos(la), rad * sqrt(1 - z * z) * sin(la), rad * z);
    V3 n(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1)); n -= n.dot(x) / x.squaredNorm() * x; n.normalize(); V3 v = n * sqrt(3.986e14 / rad) * r.d(.9, 1.1) + x.normalized() * r.d(-50, 50);
    Eigen::VectorXd y(48), yp(48); y.head<3>() = x; y.segment<3>(3) = v; Eigen::Matrix<double, 6, 7> Phi; Phi.setZero(); bool unit = r.below(2);
    if (unit) Phi.block<6, 6>(0, 0).setIdentity(); else for (int i = 0; i < 42; i++) Phi(i) = r.d(-1, 1) * (i % 6 < 3 ? 1 : 1e-3);
    for (int i = 0; i < 42; i++) y(6 + i) = Phi(i);
    double junk = r.below(2) ? 7e77 : NANV; yp.setConstant(junk); Eigen::VectorXd before = y;
    c->cd = r.below(3) ? c->cd : r.d(1, 4); c->mass = r.below(6) ? c->mass : c->mass * r.d(.9, 1.1);
    int e0 = kit.errors, m0 = kit.misuse;
    dso::VariationalEquations(tsec, y, yp, *P);
    Rhs e = reference(*w, *c, tai, x, v, true); int p = pair_of(c->A, tai); bool excused = fs::harmful_fired() > h0 || kit.errors > e0 + (kit.misuse - m0);
    bool fin = true; for (int i = 3; i < 6; i++) fin = fin && std::isfinite(yp(i));
    bool ahead = tai >= maxreq || p == held; double mr = maxreq; maxreq = std::max(maxreq, tai);
    if (memcmp(before.data(), y.data(), 48 * 8)) fail("state-changed", "%s: the evaluation at TAI %.9f changed the state", who.c_str(), tai);
    if (!fin) {
      if (e.ok && ahead && !excused) fail("evaluation-refused", "%s: no derivative at TAI %.9f (records %d, last epoch %.9f)", who.c_str(), tai, p, mr);
      note("%s: TAI %.9f refused (%s)", who.c_str(), tai, e.ok ? excused ? "fault" : "back in time" : e.why.c_str()); count("evaluations refused"); observe_u(1); nontrivial(); held = -1; return;
    }
    if (!e.ok) fail("evaluated-without-data", "%s: a derivative at TAI %.9f although there is %s", who.c_str(), tai, e.why.c_str());
    if (kit.errors > e0) fail("evaluated-without-data", "%s: a derivative at TAI %.9f although the ephemeris could not be read", who.c_str(), tai);
    held = p;
    for (int i = 0; i < 3; i++) if (!same_double(yp(i), v(i))) fail("wrong-velocity", "%s: derivative of the position at TAI %.9f is %.12g, the velocity is %.12g", who.c_str(), tai, yp(i), v(i));
    for (int i = 0; i < 3; i++) if (!(fabs(yp(3 + i) - e.a(i)) <= (double)e.tol[i])) fail("wrong-acceleration", "%s: acceleration %d at TAI %.9f, %.0f km is %.15g, should be %.15g (tolerance %.2g)", who.c_str(), i, tai, c->alt / 1e3, yp(3 + i), e.a(i), (double)e.tol[i]);
    Eigen::Matrix<double, 6, 7> D1 = e.J * Phi, D2 = e.J2 * Phi, T = e.Jt * Phi.cwiseAbs(); D1.block<3, 1>(3, 6) += e.dC; D2.block<3, 1>(3, 6) += e.dC; T.block<3, 1>(3, 6).array() += e.dCt;
    T += 1e-14 * (e.J.cwiseAbs() * Phi.cwiseAbs());
    bool a = true, b = true; int w1 = 0; for (int i = 0; i < 42; i++) { if (!(fabs(yp(6 + i) - D1(i)) <= T(i))) { if (a) w1 = i; a = false; } if (!(fabs(yp(6 + i) - D2(i)) <= T(i))) b = false; }
    if (!a && !b) fail(w1 >= 36 ? "wrong-sensitivity" : "wrong-transition", "%s: element (%d,%d) of the derivative of the %s at TAI %.9f, %.0f km is %.12g, should be %.12g (tolerance %.2g)", who.c_str(), w1 % 6, w1 / 6, w1 >= 36 ? "sensitivity matrix" : "transition matrix", tai, c->alt / 1e3, yp(6 + w1), D1(w1), T(w1));
    observe_d(yp(3)); count("evaluations"); nontrivial();
  }
};
void propagate(World &w, Craft &c, Sat &S, double tai0, Rng &r) { // an arc, against a fixed-step integration of the reference
  double rad = 6378137 + c.alt, la = r.d(0, 6.3); V3 x(rad * cos(la), rad * sin(la) * .8, rad * sin(la) * .6), n(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1)); n -= n.dot(x) / x.squaredNorm() * x; n.normalize(); V3 v = n * sqrt(w.M.gm / x.norm());
  double span = 60 + r.below(540), t = (tai0 - S.ref) * 86400, tout = t + span, t0 = t; 
  Eigen::VectorXd y(48), yo(48); y.setZero(); y.head<3>() = x; y.segment<3>(3) = v; for (int i = 0; i < 6; i++) y(6 + 7 * i) = 1;
  dso::SGOde I(dso::VariationalEquations, 48, 1e-10, 1e-7, S.P.get());
  int rc = 0, tries = 0; do { rc = I.de(t, tout, y, yo); if (I.flag() == 2) break; y = yo; } while (++tries < 20 && (I.flag() == 3 || I.flag() == 4));
  bool done = I.flag() == 2 && t == tout;
  bool ok = true;
  auto f = [&](double tt, const V3 &a, const V3 &b) { Rhs e = reference(w, c, S.ref + tt / 86400., a, b, false); ok = ok && e.ok; return e.a; };
  auto fixed = [&](int steps, V3 &X, V3 &Vv) {
    double h = span / steps; X = x; Vv = v;
    for (int s = 0; s < steps; s++) {
      double q = t0 + s * h; V3 a1 = f(q, X, Vv), x2 = X + h / 2 * Vv, v2 = Vv + h / 2 * a1, a2 = f(q + h / 2, x2, v2), x3 = X + h / 2 * v2, v3 = Vv + h / 2 * a2, a3 = f(q + h / 2, x3, v3), x4 = X + h * v3, v4 = Vv + h * a3, a4 = f(q + h, x4, v4);
      V3 nx = X + h / 6 * (Vv + 2 * v2 + 2 * v3 + v4), nv = Vv + h / 6 * (a1 + 2 * a2 + 2 * a3 + a4); X = nx; Vv = nv;
    }
  };
  V3 X, Vv, Xc, Vc; int n15 = (int)ceil(span / 15); fixed(2 * n15, X, Vv); fixed(n15, Xc, Vc);
  bool fin = done; for (int i = 0; i < 48; i++) fin = fin && std::isfinite(yo(i));
  if (!ok) { if (fin) fail("evaluated-without-data", "%s: an arc over %.0f s was propagated without data", S.who.c_str(), span); count("arcs without data"); return; }
  if (I.flag() != 2 || t != tout) fail("arc-not-finished", "%s: the propagation over %.0f s stopped at %.3f s (flag %d, %d)", S.who.c_str(), span, t - t0, I.flag(), rc);
  if (!fin) fail("arc-undefined", "%s: the state after %.0f s is undefined", S.who.c_str(), span);
  double dx = (yo.head<3>() - X).norm(), dv = (yo.segment<3>(3) - Vv).norm();
  if (!(dx < 3e-2 + 1e-7 * span * span + (X - Xc).norm()) || !(dv < 2e-4 + (Vv - Vc).norm())) fail("wrong-arc", "%s: after %.0f s the position is off by %.4g m, the velocity by %.4g m/s", S.who.c_str(), span, dx, dv);
  // the transition matrix maps a small displacement
  observe_d(yo(0)); count("arcs"); nontrivial();
}
void v01() {
  max_edges = edges() + 400000000;
  World w; kit = Kit(); kit.ret = true; Rng r = Wrng();
  long mid = 57775 + W(2500);
  make_earth(w.E, mid, 0);
  { Model &m = w.M; m.deg = 1 + (int)W(Wc(200) ? 12 : 5); w.ord = Wc(400) ? (int)W(m.deg + 1) : m.deg; m.gm = 3.986004415e14; m.re = 6378136.3; m.hc.reset(new dso::HarmonicCoeffs(m.deg, m.gm, m.re)); m.hc->denormalize(); m.C.assign(m.deg + 1, std::vector<double>(m.deg + 1, 0.)); m.S = m.C;
    for (int n = 0; n <= m.deg; n++) for (int j = 0; j <= n; j++) { m.C[n][j] = n ? r.d(-1, 1) * 1e-3 * nf(n, j) : 1; m.hc->C(n, j) = m.C[n][j]; if (j) { m.S[n][j] = r.d(-1, 1) * 1e-3 * nf(n, j); m.hc->S(n, j) = m.S[n][j]; } } }
  { KFile f; f.name = "/data/naif0012.tls"; f.kind = LSK; kit.files.push_back(f); f.name = "/data/de421.bsp"; f.kind = SPK; f.id = 1 + W(5); f.cov[0] = f.cov[1] = true; kit.files.push_back(f); f.name = "/data/gm.tpc"; f.kind = TPCK; f.has[0] = !Wc(30); f.has[1] = !Wc(30); w.gms = f.gm[0] = 1.32712440041e11 * r.d(.9, 1.1); w.gmm = f.gm[1] = 4902.8 * r.d(.9, 1.1); f.gone = Wc(20); w.consts = f.has[0] && f.has[1] && !f.gone; kit.files.push_back(f);
    dso::cspice::load_if_unloaded_lsk("/data/naif0012.tls"); dso::cspice::load_if_unloaded_spk("/data/de421.bsp"); if (Wc(500)) { if (w.consts) dso::cspice::load_kernel("/data/gm.tpc"); } }
  if (!load_earth(w.E)) return;
  bool arc = Wc(60); int nt = arc ? 1 : 1 + (int)W(3);
  std::vector<Craft> C(nt); std::vector<double> start(nt);
  for (int i = 0; i < nt; i++) {
    Craft &c = C[i]; make_csv(c.C, mid, i); double step = arc ? 7200 : Wc(300) ? 600 + W(20000) : Wc(500) ? 30 : .5 + W(20); int n = arc ? 3 : 6 + (int)W(60);
    start[i] = mid + (Wc(300) ? -1 - (int)W(3) : 0) + W(86400) / 86400.; make_att(c.A, start[i], n, step, i);
    c.mass = r.d(100, 1000); c.cd = r.d(1.5, 3); c.aparr = r.below(4); c.meters = r.below(6); c.alt = r.below(3) ? r.d(2.5e5, 6e5) : r.d(6e5, 1.4e6);
    if (r.below(3) == 0) { for (auto &k : dso::MacroModel<dso::SATELLITE::Jason3>::mmcomponents) c.plates.push_back(k); }
    else for (int k = (int)r.below(9); k--;) { V3 q(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1)); q.normalize(); dso::MacroModelComponent m{}; m.m_surf = r.d(.1, 30); for (int j = 0; j < 3; j++) m.m_normal[j] = q(j); c.plates.push_back(m); }
  }
  uint32_t sw = draw(CONF, 5); if (sw == 1) swarm_benign(); else if (sw == 2 && !arc) swarm_read_faults(); else if (sw == 3 && nt == 1 && !arc) kit.read_fail = 20 + draw(CONF, 200); else if (sw == 4 && !arc) { swarm_benign(); if (draw(CONF, 2)) fs::bad_sector(C[0].C.path, draw(FAULT, C[0].C.text.size() + 1)); else fs::bad_sector(C[0].A.path, draw(FAULT, C[0].A.text.size() + 1)); }
  uint64_t h0 = fs::harmful_fired();
  maybe_preempt();
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int calls = 1 + W(10);
    spawn(fmt("craft %d", i).c_str(), [&, s, calls, i, arc, h0] {
      Rng q(s); Craft &c = C[i]; Sat S; S.w = &w; S.c = &c; S.who = fmt("craft %d", i); S.pck = "/data/gm.tpc";
      double ref = q.below(3) ? mid : start[i], t = start[i] + (arc ? 10. / 86400 : c.A.t.size() > 2 ? (c.A.t[1] - c.A.t[0]) * .5 : 0);
      if (!S.open(t, ref)) { count("set-ups refused"); nontrivial(); return; }
      if (arc) { propagate(w, c, S, t, q); return; }
      double step = c.A.t[1] - c.A.t[0];
      for (int k = 0; k < calls; k++) {
        switch (q.below(12)) {
        case 0: break;                                                       // the same epoch
        case 1: t -= step * q.u() * 2; break;                                // back
        case 2: t = floor(t) + q.below(9) * .125 + LEAP / 86400. + q.d(-1, 1) / 86400; break; // about a boundary of the index
        case 3: t = floor(t) + q.below(2) + q.d(-60, 60) / 86400; break;     // about midnight
        case 4: t = c.A.t[0] + q.d(-1, 1) * step + q.below(c.A.t.size()) * step; break; // anywhere, and outside
        case 5: t += q.below(20) * step; break;
        default: t += step * q.u() * 1.5;
        }
        if (pair_of(c.A, t) < 0 && q.below(6)) { double lo = std::max(c.A.t[0], std::min(S.maxreq, c.A.t.back() - step / 86400)); t = lo + q.u() * (c.A.t.back() - lo); }
        L sec = fmodl(((L)t - floorl((L)t)) * 86400 - LEAP + 86400, 10800); if (sec < .01L || sec > 10799.99L) t += .03 / 86400; // whole milliseconds are used
        int p = pair_of(c.A, t); for (size_t j = 0; j < c.A.t.size(); j++) if (fabs(t - c.A.t[j]) < 2e-8) t = c.A.t[j] + 4e-8; (void)p;
        for (double z : {w.E.from(), w.E.to()}) if (fabs(t - z) < 5e-7) t = z + 1e-6;
        double tsec = (t - ref) * 86400; 
        if (ref + tsec / 86400. != t) t = ref + tsec / 86400.;
        if (q.below(15) == 0) { if (!S.open(t, ref)) { count("set-ups refused"); return; } }
        S.eval(tsec, q, h0);
      }
    });
  }
  run_tasks();
}
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {{"A03", a03, "a run counts if an Earth rotation was compared or an epoch refused"}, {"V01", v01, "a run counts if a derivative or an arc was compared, or refused"}});
}
