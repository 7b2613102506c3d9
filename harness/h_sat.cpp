// B01, Q01, Q02: beacon tables, attitude records and mass history over simulated storage
#include "../sim/sim.hpp"
#include "beacon_tbl.hpp"
#include "satellites.hpp"
#include "satellites/cryosat2.hpp"
#include "satellites/jason3.hpp"
#include "satellites/jason3_quaternions.hpp"
#include <memory>
using namespace sim;
namespace {
typedef dso::datetime<dso::nanoseconds> T;
const int64_t DAY = 86400000000000LL;
T when(int64_t mjd, int64_t ns) { return T(dso::modified_julian_day(mjd), dso::nanoseconds(ns)); }
std::string stamp(int64_t mjd, int64_t ns, int dec) {
  int y, m, d; dso::mjd2ymd(mjd, y, m, d); int64_t s = ns / 1000000000;
  std::string r = fmt("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
  if (dec) r += fmt(".%09d", (int)(ns % 1000000000)).substr(0, 1 + dec);
  return r;
}
void storage_swarm(const std::string &path, size_t size) {
  switch (draw(CONF, 4)) {
  case 1: swarm_benign(); break;
  case 2: swarm_read_faults(); break;
  case 3: swarm_benign(); fs::bad_sector(path, draw(FAULT, size + 1)); break;
  }
}
void maybe_preempt() { if (draw(CONF, 3)) set_preempt_rate(100 << draw(CONF, 8)); }

// ------------------------------------------------------------ B01
struct Row { std::string name; double h; int64_t f, t; bool open_end; }; // seconds since MJD 0
struct Table { std::vector<Row> rows; std::string text; bool bad = false, any = false; std::string what = "none"; };
Table make_table(int tag) {
  Table B; Rng r = Wrng();
  int n = Wc(100) ? 0 : 1 + (int)W(Wc(200) ? 120 : 12);
  int64_t base = 50000 + r.below(8000);
  std::vector<std::string> L{"Site From                To                  Height   "};
  bool whole = Wc(400);
  for (int i = 0; i < n; i++) {
    Row w; w.name = fmt("%c%c%cB", 'A' + (int)r.below(26), 'A' + (int)r.below(26), 'A' + i % 26); w.name[3] = "ABC"[r.below(3)];
    w.f = (base + r.below(1500)) * 86400 + (whole ? 0 : r.below(86400));
    w.open_end = r.below(4) == 0;
    w.t = w.f + 1 + r.below(1000) * 86400LL + (whole ? 86399 : r.below(86400));
    if (i && r.below(3) == 0) { w.name = B.rows.back().name; if (!B.rows.back().open_end) { w.f = B.rows.back().t; w.t = std::max(w.t, w.f + 1); } }
    std::string h = fmt("%9.6f", r.below(8) == 0 ? 0. : (r.u() - .1) * 12); w.h = strtod(h.c_str(), 0);
    std::string to = w.open_end ? "9999-12-31 23:59:59" : stamp(w.t / 86400, w.t % 86400 * 1000000000, 0);
    if (w.open_end) w.t = dso::ymd2mjd(9999, 12, 31) * 86400LL + 86399;
    L.push_back(w.name + " " + stamp(w.f / 86400, w.f % 86400 * 1000000000, 0) + " " + to + " " + h);
    B.rows.push_back(w);
  }
  uint32_t dmg = Wc(400) ? 1 + W(5) : 0;
  int k = n ? 1 + (int)W(n) : 0;
  if (!n && dmg && dmg != 5) dmg = 0;
  switch (dmg) {
  case 1: { static const int at[] = {5, 10, 13, 16, 22, 23, 25, 30, 42, 43}; int p = at[W(10)]; L[k][p] = "*?x"[W(3)]; B.bad = true; B.what = fmt("row %d has an unreadable date", k); break; }
  case 2: if (W(3) == 0) { L[k] += W(2) ? "x" : "  7"; } else L[k].replace(45, std::string::npos, std::vector<const char *>{"  none   ", " *.00000", "         "}[W(3)]); B.bad = true; B.what = fmt("row %d has an unreadable height", k); break;
  case 3: { size_t c = W(2) ? 5 + W(19) : 24 + W(20); if (c == 10 || c == 0) c = 12; L[k].resize(c); B.bad = true; B.what = fmt("row %d is cut to %zu characters", k, c); break; }
  case 4: L[k] += std::string(300 + W(300), W(2) ? ' ' : 'x'); B.bad = true; B.what = fmt("row %d is overlong", k); break;
  }
  for (auto &l : L) B.text += l + "\n";
  if (dmg == 5) {
    size_t c = W(B.text.size()); B.bad = true;
    B.what = fmt("cut after %zu of %zu bytes", c, B.text.size());
    size_t at = 0; bool line_end = false; size_t keep = 0;
    for (size_t i = 0; i < L.size(); i++) { at += L[i].size() + 1; if (at == c) { line_end = true; keep = i; } if (at == c + 1) { B.any = true; line_end = true; keep = i; } }
    B.text.resize(c);
    if (line_end) { B.rows.resize(keep); B.bad = false; } // a shorter, but complete table
  }
  note("table %d: %d rows, %zu bytes, %s", tag, n, B.text.size(), B.what.c_str());
  return B;
}
void b01() {
  int nf = 1 + (int)W(2);
  std::vector<Table> F(nf); std::vector<std::string> path;
  for (int i = 0; i < nf; i++) { F[i] = make_table(i); path.push_back(fmt("/sim/%sbeacons%d.tbl", Wc(50) ? std::string(280, 'd').c_str() : "", i)); if (!Wc(30)) fs::put(path[i], F[i].text); else F[i].bad = true, F[i].what = "missing"; }
  storage_swarm(path[0], F[0].text.size());
  max_edges = edges() + 50000000;
  auto load = [&](int k, Rng &r, const char *who) {
    Table &B = F[k];
    int64_t t, ns = r.below(2) ? 0 : r.below(1000000000);
    if (!B.rows.empty()) { const Row &w = B.rows[r.below(B.rows.size())]; t = r.below(3) == 0 ? w.f : r.below(2) && !w.open_end ? w.t : w.f + (int64_t)(r.u() * std::min<int64_t>(w.t - w.f, 400LL * 86400)); t += (int)r.below(3) - 1; }
    else t = (50000 + r.below(8000)) * 86400LL;
    if (r.below(4)) errno = 0; else errno = ERANGE; // whatever happened before
    dso::BeaconInformationTable tbl(path[k].c_str());
    std::vector<dso::BeaconInformationTableEntry> got; bool threw = false;
    uint64_t h0 = fs::harmful_fired();
    try { got = tbl.load_to_memmory(when(t / 86400, t % 86400 * 1000000000 + ns)); } catch (std::exception &) { threw = true; }
    if (threw) { note("%s: refused", who); if (!B.bad && !B.any && !fs::harmful_fired()) fail("intact-table-refused", "%s: the table (%s) was refused", who, B.what.c_str()); count("tables refused"); nontrivial(); observe_u(1); return; }
    if (B.bad) fail("damaged-table-accepted", "%s: %zu entries from a damaged table: %s", who, got.size(), B.what.c_str());
    size_t j = 0;
    for (size_t i = 0; i < B.rows.size(); i++) {
      const Row &w = B.rows[i];
      if (!(w.f <= t && t < w.t)) continue;
      if (j >= got.size() || std::string(got[j]._4charid, 4) != w.name || !same_double(got[j]._height, w.h) || got[j].from != when(w.f / 86400, w.f % 86400 * 1000000000) || got[j].to != when(w.t / 86400, w.t % 86400 * 1000000000))
        fail("wrong-entries", "%s: entry %zu is %s, row %zu has %s height %.6f (%s, read faults %d)", who, j, j < got.size() ? fmt("%.4s height %.6f", got[j]._4charid, got[j]._height).c_str() : "missing", i, w.name.c_str(), w.h, B.what.c_str(), (int)(fs::harmful_fired() - h0));
      j++;
    }
    if (j != got.size()) fail("wrong-entries", "%s: %zu entries, %zu rows are valid at the epoch (%s)", who, got.size(), j, B.what.c_str());
    observe_u(got.size()); count("tables read"); nontrivial();
  };
  int nt = 1 + (int)W(3);
  maybe_preempt();
  for (int i = 0; i < nt; i++) { uint64_t s = W(1u << 30); int calls = 1 + W(3); spawn(fmt("caller %d", i).c_str(), [&, s, calls, i] { Rng r(s); for (int c = 0; c < calls; c++) load(r.below(nf), r, fmt("caller %d", i).c_str()); }); }
  run_tasks();
}

// ------------------------------------------------------------ Q02
struct Event { int64_t mjd, ms; double v[4]; };
struct History { std::vector<Event> ev; std::string text; int bad_at = -1; bool cut_any = false; std::string what = "none"; };
History make_history(int tag) {
  History H; Rng r = Wrng();
  int n = Wc(80) ? 0 : 1 + (int)W(Wc(150) ? 80 : 10);
  int64_t t = (57000 + r.below(2000)) * 86400000LL + r.below(86400000);
  int lead = W(3), gap = 1 + W(3), style = W(3);
  std::vector<std::string> L; std::vector<int> ix;
  auto comment = [&] { L.push_back(r.below(2) ? "C  Maneuver dates and mass corrections" : "// correction"); ix.push_back(-1); };
  for (int i = 0, c = W(4); i < c; i++) comment();
  for (int i = 0; i < n; i++) {
    Event e; e.mjd = t / 86400000; e.ms = t % 86400000;
    std::string l = std::string(lead, ' ') + fmt("%.1f", e.mjd + 2400000.5) + std::string(gap, ' ') + (style == 0 ? fmt("%9.3f", e.ms / 1000.) : fmt("%.3f", e.ms / 1000.));
    for (int k = 0; k < 4; k++) {
      std::string s = k == 0 ? fmt("%.3f", (r.u() - .7) * 30) : fmt("%.4f", (r.u() - .5) * .2);
      if (r.below(6) == 0) s = "0.000";
      e.v[k] = strtod(s.c_str(), 0);
      l += std::string(gap, ' ') + (style == 0 ? fmt("%9s", s.c_str()) : s);
    }
    if (style == 2) l += " ";
    H.ev.push_back(e); L.push_back(l); ix.push_back(i);
    if (r.below(10) == 0) comment();
    t += 1 + (r.below(3) ? r.below(86400000 * 20ULL > 4000000000ULL ? 1700000000 : 1700000000) : r.below(80000000));
  }
  uint32_t dmg = Wc(400) && n ? 1 + W(4) : 0;
  size_t li = 0; int victim = dmg ? (int)W(n) : -1;
  for (size_t i = 0; i < ix.size(); i++) if (ix[i] == victim) li = i;
  if (dmg == 1) { // an unreadable field
    std::string &l = L[li]; int f = W(6), k = -1; size_t p = 0;
    while (p < l.size()) { while (p < l.size() && l[p] == ' ') p++; if (++k == f) break; while (p < l.size() && l[p] != ' ') p++; }
    l[p] = "*x"[W(2)]; H.bad_at = victim; H.what = fmt("field %d of event %d unreadable", f, victim);
  } else if (dmg == 2) { std::string &l = L[li]; int drop = 1 + W(4); for (int i = 0; i < drop; i++) { size_t q = l.find_last_not_of(' '); q = l.find_last_of(' ', q); l.resize(q); } if (W(2)) { size_t q = l.find_last_not_of(' '); l.resize(q + 1); } H.bad_at = victim; H.what = fmt("last %d fields of event %d missing", drop, victim); }
  else if (dmg == 3) { L[li] += std::string(300, W(2) ? ' ' : 'x'); H.bad_at = victim; H.what = fmt("event %d is overlong", victim); }
  size_t cut = 0;
  for (size_t i = 0; i < L.size(); i++) {
    if (dmg == 4 && i == li) { cut = H.text.size() + W(L[i].size() + 1); }
    H.text += L[i] + "\n";
  }
  if (dmg == 4) {
    size_t start = 0; for (size_t i = 0; i < li; i++) start += L[i].size() + 1;
    H.what = fmt("cut after %zu of %zu bytes", cut, H.text.size());
    H.text.resize(cut);
    if (cut == start) H.ev.resize(victim);                                        // shorter, complete
    else if (cut == start + L[li].size()) { H.ev.resize(victim + 1); H.cut_any = true; } // only the newline missing
    else { H.ev.resize(victim + 1); H.bad_at = victim; if (cut - start <= (size_t)lead) { H.cut_any = true; H.ev.resize(victim); H.bad_at = -1; } else if (cut - start < lead + 9u + gap + (style == 0 ? 9 : fmt("%.3f", H.ev[victim].ms / 1000.).size())) H.bad_at = -2 - victim; }
  }
  note("history %d: %zu events, %zu bytes, %s", tag, H.ev.size(), H.text.size(), H.what.c_str());
  return H;
}
// DORIS satellite models document: phase centres [m], surfaces [m^2] with normal, optical and infrared properties (specular, diffuse, absorbed)
void published_constants(Rng &r, const char *who) {
  static const double PCO[2][6] = {{2.4128, -.1325, .9235, 2.4128, -.1325, .7555}, {1.848, -.2, -.751, 1.832, -.2, -.598}};
  static const double MM[8][10] = {{.783, -1, 0, 0, .341, .646, .013, 0, .987, .013}, {.783, 1, 0, 0, .149, .851, 0, 0, 1, 0}, {2.04, 0, -1, 0, .573, .384, .043, .104, .569, .328}, {2.04, 0, 1, 0, .539, .424, .037, .089, .627, .283},
    {3.105, 0, 0, -1, .246, .752, .002, .005, .977, .017}, {3.105, 0, 0, 1, .213, .453, .334, .037, .287, .676}, {9.8, 1, 0, 0, .06, .407, .533, .097, .098, .803}, {9.8, -1, 0, 0, .004, .298, .697, .035, .035, .931}};
  typedef dso::SatelliteInfo<dso::SATELLITE::Jason3> J; typedef dso::SatelliteInfo<dso::SATELLITE::Cryosat2> C; typedef dso::MacroModel<dso::SATELLITE::Jason3> M;
  int sat = r.below(2); Eigen::Matrix<double, 3, 1> a(7e77, 7e77, 7e77), b = a;
  int rc = sat ? C::pco(a, b) : J::pco(a, b);
  for (int i = 0; i < 3; i++) if (rc || a(i) != PCO[sat][i] || b(i) != PCO[sat][3 + i]) fail("wrong-phase-centre", "%s: satellite %d: component %d is %g and %g, published are %g and %g (%d)", who, sat, i, a(i), b(i), PCO[sat][i], PCO[sat][3 + i], rc);
  if (strcmp(sat ? C::sp3Id : J::sp3Id, sat ? "L12" : "L39") || strcmp(sat ? C::rnxId : J::rnxId, sat ? "CRYOSAT-2" : "JASON-3")) fail("wrong-satellite-name", "%s: satellite %d", who, sat);
  if (M::NumPlates != 8 || sizeof(M::mmcomponents) / sizeof(M::mmcomponents[0]) != 8) fail("wrong-macro-model", "%s: %d surfaces", who, M::NumPlates);
  for (int k = 0; k < 8; k++) {
    const auto &c = M::mmcomponents[k]; double g[10] = {c.m_surf}; for (int i = 0; i < 3; i++) g[1 + i] = c.m_normal[i], g[4 + i] = c.m_optical_properties[i], g[7 + i] = c.m_infrared_properties[i];
    for (int i = 0; i < 10; i++) if (g[i] != MM[k][i]) fail("wrong-macro-model", "%s: number %d of surface %d is %g, published is %g", who, i, k, g[i], MM[k][i]);
  }
  count("satellite constants");
}
void q02() {
  int nf = 1 + (int)W(2);
  std::vector<History> F(nf); std::vector<std::string> path; std::vector<char> gone(nf);
  for (int i = 0; i < nf; i++) { F[i] = make_history(i); path.push_back(fmt("/sim/mass%d.txt", i)); if (!Wc(30)) fs::put(path[i], F[i].text); else gone[i] = 1; }
  storage_swarm(path[0], F[0].text.size());
  max_edges = edges() + 50000000;
  auto look = [&](int k, Rng &r, const char *who) {
    History &H = F[k];
    int64_t t;
    if (!H.ev.empty() && r.below(8)) {
      size_t i = r.below(H.ev.size());
      const Event &e = H.ev[i];
      t = e.mjd * DAY + e.ms * 1000000;
      switch (r.below(5)) {
      case 0: t += 1 + r.below(999999); break;           // just after
      case 1: t -= 1000000 + r.below(999999999); break;  // just before
      case 2: t = t / DAY * DAY + (int64_t)(r.u() * DAY); break; // the same day
      case 3: t += DAY * (1 + r.below(3)) - (int64_t)(r.u() * DAY / 2); break;
      default: t += (int64_t)((r.u() - .3) * 20 * DAY);
      }
    } else t = (56000 + r.below(6000)) * DAY + (int64_t)(r.u() * DAY);
    double got[4] = {7e77, 7e77, 7e77, 7e77};
    T tt = when(t / DAY, t % DAY);
    if (r.below(6) == 0) published_constants(r, who);
    // the correction itself, or the satellite's mass and centre of gravity (initial values of the DORIS satellite models document)
    static const double I[3][4] = {{0, 0, 0, 0}, {509.6, 1.0023, 0, -0.0021}, {724.6, 1.6312, 0.0112, 0.0137}};
    int sat = r.below(3), rc; const double *I0 = I[sat];
    if (sat == 0) rc = dso::get_satellite_corrections(path[k].c_str(), tt, got);
    else {
      double m = 7e77; Eigen::Matrix<double, 3, 1> c(7e77, 7e77, 7e77);
      rc = sat == 1 ? dso::SatelliteInfo<dso::SATELLITE::Jason3>::mass_cog(tt, path[k].c_str(), m, c) : dso::SatelliteInfo<dso::SATELLITE::Cryosat2>::mass_cog(tt, path[k].c_str(), m, c);
      got[0] = m; for (int i = 0; i < 3; i++) got[i + 1] = c(i);
      if (!rc) count("mass and centre of gravity lookups");
    }
    double ts = t % DAY / 1e9;
    auto before = [&](const Event &e) { return e.mjd * DAY + e.ms * 1000000 <= t; };
    bool needs_bad = gone[k] || (H.bad_at >= 0 && before(H.ev[H.bad_at]));
    bool maybe_bad = needs_bad || H.bad_at != -1 || H.cut_any || fs::harmful_fired();
    (void)ts;
    if (rc) { note("%s: refused", who); if (!maybe_bad) fail("lookup-refused", "%s: lookup at MJD %.9f refused (%s)", who, tt.as_mjd(), H.what.c_str()); count("lookups refused"); nontrivial(); observe_u(1); return; }
    if (needs_bad) fail("damaged-history-accepted", "%s: lookup at MJD %.9f succeeded although %s", who, tt.as_mjd(), gone[k] ? "the file is missing" : H.what.c_str());
    const Event *last = nullptr, *prev = nullptr;
    size_t n = H.bad_at < -1 ? H.ev.size() - 1 : H.ev.size();
    for (size_t i = 0; i < n; i++) if (before(H.ev[i])) { prev = last; last = &H.ev[i]; }
    bool tie = last && last->mjd * DAY + last->ms * 1000000 == t;
    if (H.bad_at < -1 && before(H.ev.back())) fail("damaged-history-accepted", "%s: lookup at MJD %.9f succeeded although %s", who, tt.as_mjd(), H.what.c_str());
    auto same = [&](const Event *e) { for (int i = 0; i < 4; i++) if (!same_double(got[i] + 0., I0[i] + (e ? e->v[i] : 0.) + 0.)) return false; return true; };
    if (!same(last) && !(tie && same(prev))) fail("wrong-correction", "%s: corrections at MJD %.9f are %g %g %g %g, the last event %s has %g %g %g %g (%s)", who, tt.as_mjd(), got[0], got[1], got[2], got[3], last ? fmt("at MJD %.9f", last->mjd + last->ms / 86400e3).c_str() : "(none)", last ? last->v[0] : 0, last ? last->v[1] : 0, last ? last->v[2] : 0, last ? last->v[3] : 0, H.what.c_str());
    for (double g : got) observe_d(g);
    count("lookups"); if (last) nontrivial();
  };
  int nt = 1 + (int)W(3);
  maybe_preempt();
  for (int i = 0; i < nt; i++) { uint64_t s = W(1u << 30); int calls = 1 + W(4); spawn(fmt("caller %d", i).c_str(), [&, s, calls, i] { Rng r(s); for (int c = 0; c < calls; c++) look(r.below(nf), r, fmt("caller %d", i).c_str()); }); }
  run_tasks();
}

// ------------------------------------------------------------ Q01
struct Quat { double q[4]; };
struct Att { std::vector<double> t; std::vector<int64_t> tms; std::vector<Quat> q; std::string text; size_t good; bool last_any = false, lax = false; std::string what = "none"; }; // good: records before the damage
Quat slerp(const Quat &a, const Quat &b, double u) {
  long double d = 0; for (int i = 0; i < 4; i++) d += (long double)a.q[i] * b.q[i];
  long double s = d < 0 ? -1 : 1, ang = acosl(std::min<long double>(1, d * s)), n = 0; Quat r; long double v[4];
  for (int i = 0; i < 4; i++) { v[i] = ang < 1e-9 ? (1 - u) * a.q[i] + u * s * b.q[i] : (sinl((1 - u) * ang) * a.q[i] + s * sinl(u * ang) * b.q[i]) / sinl(ang); n += v[i] * v[i]; }
  n = sqrtl(n); for (int i = 0; i < 4; i++) r.q[i] = (double)(v[i] / n);
  return r;
}
Att make_att(int tag) {
  Att A; Rng r = Wrng();
  int n = Wc(100) ? (int)W(6) : 2 + (int)W(Wc(150) ? 60 : 14);
  int64_t t = (57400 + r.below(3000)) * 86400000LL + r.below(86400000); // UTC ms
  std::vector<std::string> L; std::vector<int> ix;
  double ax = r.d(-1, 1), ay = r.d(-1, 1), az = r.d(-1, 1), rate = r.d(0.01, 0.5), ph = r.d(0, 6);
  { double m = sqrt(ax * ax + ay * ay + az * az) + 1e-9; ax /= m; ay /= m; az /= m; }
  auto comment = [&] { L.push_back(fmt("# %s", r.below(2) ? "comment\twith tab" : "")); ix.push_back(-1); };
  for (int i = 0, c = W(3); i < c; i++) comment();
  for (int i = 0; i < n; i++) {
    if (i && r.below(20) == 0) ph += r.d(0.3, 1);
    ph += rate * .2 * r.u();
    double s[4] = {cos(ph), ax * sin(ph), ay * sin(ph), az * sin(ph)}; int sg = r.below(12) ? 1 : -1;
    Quat q; std::string l = stamp(t / 86400000, t % 86400000 * 1000000, 3) + "\t" + fmt("%010d", (int)r.below(1000000000)) + "\t";
    for (int k = 0; k < 4; k++) { std::string v = fmt(k == 0 ? "%.10f" : "%.10f", sg * s[k]); q.q[k] = strtod(v.c_str(), 0); if (k) l += fmt("%04d\t%010d\t", (int)r.below(1000), (int)r.below(1000000)); l += v + "\t"; }
    l += fmt("%04d", (int)r.below(100));
    { double m = 0; for (double x : q.q) m += x * x; if (fabs(m - 1) > 1e-6) abort(); }
    A.tms.push_back(t);
    { dso::modified_julian_day u(t / 86400000), a; double f = dso::utc2tai(u, t % 86400000 / 86400e3, a); A.t.push_back(a.as_underlying_type() + f); }
    A.q.push_back(q); L.push_back(l); ix.push_back(i);
    t += 250 + (r.below(5) ? 0 : r.below(60000)) + r.below(3) * 250;
    if (r.below(12) == 0) comment();
  }
  if (W(4) == 0) comment();
  A.good = n;
  uint32_t dmg = Wc(400) && n ? 1 + W(5) : 0;
  int victim = dmg ? (int)W(n) : -1; size_t li = 0;
  for (size_t i = 0; i < ix.size(); i++) if (ix[i] == victim) li = i;
  if (dmg == 5) { // an earlier record again, or records in another order
    int o = W(victim + 1); std::string dup; for (size_t i = 0; i < ix.size(); i++) if (ix[i] == o) dup = L[i];
    A.lax = true; A.good = victim + 1; L.insert(L.begin() + li + 1, dup); ix.insert(ix.begin() + li + 1, -1); A.what = fmt("record %d again after record %d", o, victim);
  } else if (dmg && dmg < 4) {
    std::string &l = L[li]; A.good = victim;
    // where the fields that matter begin
    std::vector<size_t> at; size_t p = 0; for (int f = 0; f < 13; f++) { at.push_back(p); p = l.find('\t', p); if (p == std::string::npos) break; p++; }
    static const int qf[] = {2, 5, 8, 11};
    if (dmg == 1) { int k = W(5); if (k == 4) { l[W(2) ? 5 : 17] = '*'; A.what = fmt("record %d has an unreadable date", victim); } else { l[at[qf[k]] + W(3)] = "*x"[W(2)]; A.what = fmt("record %d: component %d unreadable", victim, k); } }
    else if (dmg == 2) { size_t c = W(2) ? at[qf[W(4)]] - W(2) : 1 + W(at[11]); l.resize(c); A.what = fmt("record %d is cut to %zu characters", victim, c); }
    else { l += std::string(300, W(2) ? '\t' : 'x'); A.what = fmt("record %d is overlong", victim); }
  }
  size_t cut = 0;
  for (size_t i = 0; i < L.size(); i++) { if (dmg == 4 && i == li) cut = A.text.size() + W(L[i].size() + 1); A.text += L[i] + "\n"; }
  if (dmg == 4) { A.what = fmt("cut after %zu of %zu bytes, in record %d", cut, A.text.size(), victim); size_t start = 0; for (size_t i = 0; i < li; i++) start += L[i].size() + 1; 
    A.good = victim; 
    std::string &l = L[li]; if (cut - start > l.rfind('\t')) { A.good = victim + 1; A.last_any = true; } // everything that matters is there
    A.text.resize(cut); }
  note("attitude file %d: %d records, %zu bytes, %s", tag, n, A.text.size(), A.what.c_str());
  return A;
}
struct Hunt {
  const Att *A; std::string who, path; std::unique_ptr<dso::JasonQuaternionHunter> h; double maxreq = -1; int pair = -1, held = -1;
  bool open() {
    try { h.reset(new dso::JasonQuaternionHunter(path.c_str())); }
    catch (std::exception &) {
      if (A->good >= 2u + A->last_any && !fs::harmful_fired()) fail("file-refused", "%s: a file with %zu good records was refused (%s)", who.c_str(), A->good, A->what.c_str());
      count("files refused"); nontrivial(); return false;
    }
    if (A->good < 2 && !A->lax) fail("damaged-file-accepted", "%s: a file with %zu good records was accepted (%s)", who.c_str(), A->good, A->what.c_str());
    return true;
  }
  void ask(Rng &r) {
    size_t n = A->t.size(); double t; uint32_t k = r.below(20);
    size_t i = pair < 0 ? 0 : pair;
    auto in = [&](size_t i) { double u = r.below(4) ? r.d(.002, .998) : r.below(2) ? .002 : .998; return A->t[i] + u * (A->t[i + 1] - A->t[i]); };
    if (n < 2) t = n ? A->t[0] + r.d(-1, 1) : 57500;
    else if (k < 8) t = in(std::min(i, n - 2));                        // the same pair
    else if (k < 13) t = in(std::min(i + 1, n - 2));                   // the next
    else if (k < 17) t = in(std::min(i + 2 + r.below(6), n - 2));      // further on
    else if (k == 17) t = A->t[n - 1] + r.d(1e-6, 1);                  // after the end
    else if (k == 18) t = i ? in(i - 1 - r.below(std::min<size_t>(i, 4))) : A->t[0] - r.d(1e-6, 1); // a little back
    else t = r.below(2) ? A->t[0] - r.d(1e-6, 1) : in(r.below(n - 1)); // before the start, anywhere
    if (k < 17 && t < maxreq && r.below(3)) t = maxreq;
    Eigen::Quaterniond q(9, 9, 9, 9);
    int rc = h->get_at(t, q);
    int p = -1; for (size_t j = 0; j + 1 < n; j++) if (A->t[j] <= t && t < A->t[j + 1]) p = j;
    bool have = p >= 0 && (size_t)p + 1 < A->good;
    if (rc) {
      if (have && !((size_t)p + 2 == A->good && A->last_any) && !fs::harmful_fired() && (t >= maxreq || p == held)) fail("lookup-refused", "%s: lookup at %.12f refused, records %d and %d bracket it (%s)", who.c_str(), t, p, p + 1, A->what.c_str());
      held = -1; count("lookups refused"); observe_u(1); note("%s: %.10f refused", who.c_str(), t);
    } else {
      if (!have && !(A->lax && p >= 0)) fail("lookup-without-records", "%s: lookup at %.12f succeeded, no two good consecutive records bracket it (%s)", who.c_str(), t, A->what.c_str());
      double u = (t - A->t[p]) / (A->t[p + 1] - A->t[p]);
      Quat e = slerp(A->q[p], A->q[p + 1], u); double d = e.q[0] * q.w() + e.q[1] * q.x() + e.q[2] * q.y() + e.q[3] * q.z(), nn = q.norm();
      double g[4] = {q.w(), q.x(), q.y(), q.z()}, worst = 0; for (int j = 0; j < 4; j++) worst = std::max(worst, fabs(g[j] - (d < 0 ? -1 : 1) * e.q[j]));
      // times are held as days: about a microsecond of resolution in a quarter of a second
      if (!(fabs(nn - 1) < 1e-12) || !(worst < 1e-4 * std::max(.01, 2 * acos(std::min(1., fabs(A->q[p].q[0] * A->q[p + 1].q[0] + A->q[p].q[1] * A->q[p + 1].q[1] + A->q[p].q[2] * A->q[p + 1].q[2] + A->q[p].q[3] * A->q[p + 1].q[3]))))))
        fail("wrong-attitude", "%s: attitude at %.12f is (%.10f %.10f %.10f %.10f), records %d and %d give (%.10f %.10f %.10f %.10f)", who.c_str(), t, g[0], g[1], g[2], g[3], p, p + 1, e.q[0], e.q[1], e.q[2], e.q[3]);
      for (double x : g) observe_d(x);
      pair = held = p; count("lookups"); nontrivial();
    }
    maxreq = std::max(maxreq, t);
  }
};
void q01() {
  int nf = 1 + (int)W(2);
  std::vector<Att> F(nf); std::vector<std::string> path;
  for (int i = 0; i < nf; i++) { F[i] = make_att(i); path.push_back(fmt("/sim/qbody%d.txt", i)); if (!Wc(30)) fs::put(path[i], F[i].text); else F[i].good = 0, F[i].what = "missing", F[i].last_any = false; }
  storage_swarm(path[0], F[0].text.size());
  max_edges = edges() + 50000000;
  maybe_preempt();
  int nt = 1 + (int)W(3);
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int calls = 1 + W(Wc(300) ? 60 : 12), f = W(nf);
    spawn(fmt("hunter %d", i).c_str(), [&, s, calls, i, f] { Rng r(s); Hunt H; H.A = &F[f]; H.who = fmt("hunter %d", i); H.path = path[f]; dso::JasonQuaternionHunter *x = nullptr; (void)x; if (H.open()) for (int c = 0; c < calls; c++) H.ask(r); });
  }
  run_tasks();
}
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {
    {"B01", b01, "a run counts if a table was read or refused"},
    {"Q01", q01, "a run counts if a lookup succeeded or a file was refused"},
    {"Q02", q02, "a run counts if a lookup found an event or was refused"},
  });
}
