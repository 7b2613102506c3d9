// E01, E02: Earth-orientation extraction over simulated storage, tables as values
#include "../sim/sim.hpp"
#include "eop.hpp"
#include "datetime/utcdates.hpp"
#include "iers2010/iers2010.hpp"
#include <array>
#include <memory>
using namespace sim;
namespace {
typedef std::array<double, 8> Row; // mjd xp yp dut dx dy lod omega
typedef dso::modified_julian_day Mjd;
const double NANV = __builtin_nan("");
double tt(long mjd) { return mjd + (dso::dat(mjd) + 32.184) / 86400.; }
void maybe_preempt() { if (draw(CONF, 3)) set_preempt_rate(100 << draw(CONF, 8)); }
struct Day { std::array<double, 6> v; bool bad = false; }; // xp yp dut lod dx dy, as in the file
struct File { long first = 0; int n = 0; std::map<long, std::vector<Day>> days; std::string text, path, what = "none"; bool gone = false, any = false; long order_from = 1L << 40, any_from = 1L << 40; };
std::string row(long mjd, Day &d, Rng &r, int style, bool quiet = false) {
  int y, m, dd; dso::mjd2ymd(mjd, y, m, dd);
  static const double amp[6] = {.3, .5, .8, .003, .0005, .0005}; static const int dec[6] = {6, 6, 7, 7, 6, 6}, wid[6] = {11, 11, 12, 12, 11, 11};
  std::string s = fmt("%4d%4d%4d%7ld", y, m, dd, mjd);
  for (int i = 0; i < 6; i++) {
    double x = quiet ? 0 : (r.u() - .4) * amp[i];
    if (r.below(12) == 0) x = 0; // before 1984 the celestial pole offsets are zero
    std::string f = fmt("%*.*f", style == 1 ? 1 : wid[i], dec[i], x);
    d.v[i] = strtod(f.c_str(), 0);
    s += (style == 1 ? "  " : "") + f;
  }
  for (int i = 0; i < 6; i++) s += fmt("%*.*f", i == 2 || i == 3 ? 11 : 12, i == 2 || i == 3 ? 7 : 6, .00002 * (1 + r.below(20)));
  return s;
}
void make_file(File &F, int tag) {
  Rng r = Wrng();
  F.path = fmt("/sim/eopc04.%d", tag);
  F.first = 41400 + r.below(20000); F.n = Wc(60) ? 0 : 1 + (int)W(Wc(200) ? Wc(60) ? 5000 : 300 : 30);
  int style = W(2);
  std::vector<std::string> L; std::vector<long> day;
  if (Wc(700)) for (const char *h : {"                         EOP (IERS) 14 C04 TIME SERIES", "# FORMAT(3(I4),I7,2(F11.6),2(F12.7),2(F11.6),2(F11.6),2(F11.7),2(F12.6))", "", "      Date      MJD      x          y        UT1-UTC       LOD         dX        dY", "     (0h UTC)", ""}) if (r.below(4)) { L.push_back(h); day.push_back(-1); }
  for (int i = 0; i < F.n; i++) { Day d; L.push_back(row(F.first + i, d, r, style)); day.push_back(F.first + i); F.days[F.first + i].push_back(d); }
  int dmg = Wc(500) && F.n ? 1 + (int)W(8) : 0;
  int k = F.n ? (int)W(F.n) : 0; long vm = F.first + k;
  size_t li = 0; for (size_t i = 0; i < day.size(); i++) if (day[i] == vm) li = i;
  auto field = [&](const std::string &l, int f, size_t &b, size_t &e) { size_t p = 0; for (int i = 0; ; i++) { b = l.find_first_not_of(' ', p); e = l.find(' ', b); if (e == std::string::npos) e = l.size(); if (i == f) return; p = e; } };
  size_t b, e;
  switch (dmg) {
  case 1: { int f = 3 + (int)W(7); field(L[li], f, b, e); size_t at = W(2) ? b : b + W(e - b); if (f == 3) at = b; L[li][at] = "*?x"[W(3)]; F.days[vm][0].bad = true; F.what = fmt("field %d of day %ld unreadable", f, vm); break; }
  case 2: { int f = 3 + (int)W(7); field(L[li], f, b, e); size_t c = W(2) ? b : (W(2) ? W(b) : 0); L[li].resize(c); if (W(2)) { size_t q = L[li].find_last_not_of(' '); L[li].resize(q == std::string::npos ? 0 : q + 1); } F.days[vm][0].bad = true; F.what = fmt("day %ld cut to %zu characters", vm, L[li].size()); break; }
  case 3: { L[li] += std::string(200 + W(300), W(2) ? ' ' : '0'); F.any_from = vm; F.what = fmt("day %ld is overlong", vm); break; }
  case 4: { L.erase(L.begin() + li); day.erase(day.begin() + li); F.days.erase(vm); F.what = fmt("day %ld missing", vm); break; }
  case 5: case 6: { // repeated, with or without another one missing
    Day d; std::string l = row(vm, d, r, style); L.insert(L.begin() + li + (W(2) ? 0 : 1), l); day.insert(day.begin() + li, vm); F.days[vm].push_back(d); F.any_from = vm; F.what = fmt("day %ld repeated", vm);
    if (dmg == 6 && F.n > 1) { long o = F.first + (int)W(F.n); if (o == vm) o = vm == F.first ? vm + 1 : vm - 1; for (size_t i = 0; i < L.size(); i++) { size_t p = L[i].find(fmt("%7ld", o), 12); if (p == 12) { L.erase(L.begin() + i); break; } } F.days.erase(o); F.what += fmt(", day %ld missing", o); }
    break; }
  case 7: { if (k + 1 < F.n) { std::swap(L[li], L[li + 1]); F.any = true; F.what = fmt("day %ld after day %ld", vm, vm + 1); } break; }
  }
  for (auto &l : L) F.text += l + "\n";
  if (dmg == 8) {
    size_t at = 0; for (size_t i = 0; i < li; i++) at += L[i].size() + 1;
    size_t c = W(L[li].size() + 2); // within this row
    for (int i = k; i < F.n; i++) if (i > k || c <= L[li].size()) { if (i == k) { field(L[li], 9, b, e); Day d = F.days[vm][0]; if (c >= e - 1 && c > b) F.any = true; else d.bad = true; F.days[vm][0] = d; if (c == 0) F.days.erase(vm); } else F.days.erase(F.first + i); }
    F.text.resize(at + c); F.what = fmt("cut in day %ld after %zu of %zu characters", vm, c, L[li].size());
  }
  note("file %d: %d days from %ld, %zu bytes, %s", tag, F.n, F.first, F.text.size(), F.what.c_str());
  if (Wc(30)) { F.gone = true; F.what = "missing"; } else fs::put(F.path, F.text);
}
void storage_swarm(const File &F) {
  switch (draw(CONF, 4)) {
  case 1: swarm_benign(); break;
  case 2: swarm_read_faults(); break;
  case 3: swarm_benign(); fs::bad_sector(F.path, draw(FAULT, F.text.size() + 1)); break;
  }
}
// one extraction; true if it succeeded (and was right)
bool extract(File &F, Rng &r, dso::EopLookUpTable &T, const char *who, long *ps = nullptr, int *pn = nullptr) {
  long s, e;
  switch (r.below(8)) {
  case 0: s = F.first - 3 + r.below(F.n + 6); e = s + r.below(F.n + 6); break;
  case 1: s = F.first + r.below(F.n + 1); e = s; break;                        // nothing
  case 2: s = F.first + r.below(F.n + 1); e = s - 1 - (long)r.below(30); break; // reversed
  case 3: s = F.first; e = s + F.n; break;                                     // everything
  default: s = F.first + (F.n ? r.below(F.n) : 0); e = s + 1 + r.below(F.first + F.n > s ? F.first + F.n - s : 1);
  }
  uint64_t h0 = fs::harmful_fired(); (void)h0;
  int rc = dso::parse_iers_C04(F.path.c_str(), Mjd(s), Mjd(e), T);
  int n = (int)std::max(0L, e - s);
  bool lost = F.gone, hazy = F.any;
  for (long d = s; d < e; d++) { auto it = F.days.find(d); if (it == F.days.end()) lost = true; else { bool ok = false; for (auto &x : it->second) if (!x.bad) ok = true; if (!ok) lost = true; } }
  for (auto &d : F.days) for (auto &x : d.second) if (x.bad) hazy = true;
  if (F.what != "none") hazy = true; // a reader may look at the whole file
  if (rc) {
    note("%s: [%ld,%ld) refused", who, s, e);
    if (!lost && !hazy && e >= s && !fs::harmful_fired()) fail("intact-file-refused", "%s: [%ld,%ld) was refused (%s)", who, s, e, F.what.c_str());
    count("extractions refused"); nontrivial(); observe_u(1);
    return false;
  }
  if (e < s) fail("reversed-interval-accepted", "%s: [%ld,%ld) succeeded", who, s, e);
  if (lost) fail("missing-day-accepted", "%s: [%ld,%ld) succeeded although %s", who, s, e, F.gone ? "the file is missing" : F.what != "none" ? F.what.c_str() : "not all days are in the file");
  if (T.size() != n) fail("wrong-days", "%s: [%ld,%ld) gave %d days (%s)", who, s, e, T.size(), F.what.c_str());
  for (int i = 0; i < n; i++) {
    const dso::EopLookUpTable &C = T;
    if (!(std::fabs(*C.mjd(i) - tt(s + i)) < 1e-10)) fail("wrong-days", "%s: [%ld,%ld): day %d is %.9f, should be %.9f (%s)", who, s, e, i, *C.mjd(i), tt(s + i), F.what.c_str());
    bool ok = false;
    for (auto &d : F.days[s + i]) if (!d.bad && same_double(*C.xp(i), d.v[0]) && same_double(*C.yp(i), d.v[1]) && same_double(*C.dut(i), d.v[2]) && same_double(*C.lod(i), d.v[3]) && same_double(*C.dx(i), d.v[4]) && same_double(*C.dy(i), d.v[5])) ok = true;
    if (!ok) { auto &d = F.days[s + i][0].v; fail("wrong-values", "%s: [%ld,%ld): day %ld is %g %g %g %g %g %g, the file has %g %g %g %g %g %g (%s)", who, s, e, s + i, *C.xp(i), *C.yp(i), *C.dut(i), *C.lod(i), *C.dx(i), *C.dy(i), d[0], d[1], d[2], d[3], d[4], d[5], F.what.c_str()); }
    observe_d(*C.xp(i));
  }
  count("extractions"); if (n) nontrivial();
  if (ps) { *ps = s; *pn = n; }
  return true;
}
void e01() {
  int nf = 1 + (int)W(2);
  std::vector<File> F(nf);
  for (int i = 0; i < nf; i++) make_file(F[i], i);
  storage_swarm(F[0]);
  max_edges = edges() + 50000000;
  int nt = 1 + (int)W(3);
  maybe_preempt();
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int calls = 1 + W(5); bool reuse = W(2);
    spawn(fmt("caller %d", i).c_str(), [&, s, calls, i, reuse] {
      Rng r(s); std::string who = fmt("caller %d", i);
      std::unique_ptr<dso::EopLookUpTable> T(r.below(2) ? new dso::EopLookUpTable() : new dso::EopLookUpTable(1 + r.below(40)));
      for (int c = 0; c < calls; c++) {
        if (!reuse) T.reset(new dso::EopLookUpTable());
        extract(F[r.below(nf)], r, *T, who.c_str());
      }
    });
  }
  run_tasks();
}
// ------------------------------------------------------------ E02
typedef dso::EopLookUpTable Tab;
struct Slot { std::unique_ptr<Tab> t; std::vector<Row> m; bool known = false; }; // known: size and values defined (NaN: not defined)
double *at(Tab &t, int f, int i) { switch (f) { case 0: return t.mjd(i); case 1: return t.xp(i); case 2: return t.yp(i); case 3: return t.dut(i); case 4: return t.dx(i); case 5: return t.dy(i); case 6: return t.lod(i); default: return t.omega(i); } }
const double *at(const Tab &t, int f, int i) { switch (f) { case 0: return t.mjd(i); case 1: return t.xp(i); case 2: return t.yp(i); case 3: return t.dut(i); case 4: return t.dx(i); case 5: return t.dy(i); case 6: return t.lod(i); default: return t.omega(i); } }
const char *FN[] = {"mjd", "xp", "yp", "dut", "dx", "dy", "lod", "omega"};
void check(const Slot &s, const char *who, int id) {
  if (!s.t || !s.known) return;
  const Tab &t = *s.t;
  if (t.size() != (int)s.m.size()) fail("wrong-size", "%s: table %d has %d days, should have %zu", who, id, t.size(), s.m.size());
  for (size_t i = 0; i < s.m.size(); i++) for (int f = 0; f < 8; f++) {
    if (s.m[i][f] != s.m[i][f]) continue;
    if (!same_double(*at(t, f, i), s.m[i][f]) || !same_double(*at(*s.t, f, i), s.m[i][f])) fail("wrong-table-value", "%s: %s of day %zu of table %d is %.17g, should be %.17g", who, FN[f], i, id, *at(t, f, i), s.m[i][f]);
    observe_d(s.m[i][f]);
  }
}
bool full(const std::vector<Row> &m) { for (auto &r : m) for (int f = 0; f < 7; f++) if (r[f] != r[f]) return false; return true; }
void lookup(const Tab &t, const std::vector<Row> &m, Rng &r, const char *who) {
  int n = m.size(); double x; int order = 1 + 2 * (int)r.below(5); bool tab = false; int ti = 0;
  if (!n) x = 50000 + r.below(9000);
  else switch (r.below(5)) {
  case 0: ti = r.below(n); x = m[ti][0]; tab = true; break;
  case 1: x = m[0][0] - (r.below(2) ? 1e-3 : r.u() * 20); break;
  case 2: x = m[n - 1][0] + (r.below(2) ? 1e-3 : r.u() * 20); break;
  default: x = m[0][0] + (m[n - 1][0] - m[0][0]) * r.u();
  }
  bool out = !n || !(x >= m[0][0] && x <= m[n - 1][0]);
  bool plain = r.below(2);
  dso::EopRecord a, b; double fa = r.u(), fb = r.u() * 1e3;
  a = {fa, fa, fa, fa, fa, fa, fa, fa}; b = {fb, fb, fb, fb, fb, fb, fb, fb};
  auto call = [&](dso::EopRecord &q) { return plain ? t.interpolate_lagrange(x, q, order) : t.interpolate(x, q, order); };
  int rc = call(a), rc2 = call(b);
  if ((rc == 0) != (rc2 == 0)) fail("lookup-has-memory", "%s: two lookups at %.6f return %d and %d", who, x, rc, rc2);
  if (out) { if (!rc) fail("epoch-outside-accepted", "%s: %s at %.6f succeeds, the table covers %s", who, plain ? "interpolate_lagrange" : "interpolate", x, n ? fmt("%.6f to %.6f", m[0][0], m[n - 1][0]).c_str() : "nothing"); count("lookups outside"); observe_u(2); return; }
  if (rc) fail("lookup-refused", "%s: %s at %.6f, order %d, fails, the table covers %.6f to %.6f (%d days)", who, plain ? "interpolate_lagrange" : "interpolate", x, order, m[0][0], m[n - 1][0], n);
  const double *pa = &a.mjd, *pb = &b.mjd;
  for (int f = 0; f < 8; f++) if (!same_double(pa[f], pb[f])) fail("lookup-has-memory", "%s: two lookups at %.6f differ in field %d: %.17g and %.17g", who, x, f, pa[f], pb[f]);
  std::vector<double> mj(n), y(n); for (int i = 0; i < n; i++) mj[i] = m[i][0];
  double w[8]; int idx = -1;
  for (int f = 1; f < 7; f++) { for (int i = 0; i < n; i++) y[i] = m[i][f]; if (tab) w[f] = m[ti][f]; else iers2010::interp::lagint(mj.data(), y.data(), n, x, w[f], idx, order); }
  double s[8] = {0, 1, 1, 1, 1, 1, 1, 0}; // magnitude of the table
  for (int f = 1; f < 7; f++) { s[f] = 0; for (int i = 0; i < n; i++) s[f] = std::max(s[f], std::fabs(m[i][f])); s[f] = s[f] * 1e-8 + 1e-15; }
  if (!plain) {
    double im, fd = std::modf(x, &im), jc = (im + dso::mjd0_jd - dso::j2000_jd) / 36525. + fd / 36525.;
    double d1, dl, dom, cx, cy, cd, cl; iers2010::rg_zont2(jc, d1, dl, dom); w[3] += d1; w[6] += dl;
    iers2010::interp::pmut1_oceans(jc, cx, cy, cd, cl); w[1] += cx; w[2] += cy; w[3] += cd; w[6] += cl;
    iers2010::interp::pm_gravi(jc, cx, cy); w[1] += cx; w[2] += cy;
    for (int f = 1; f < 7; f++) s[f] += 1e-11;
  }
  double g[8] = {a.mjd, a.xp, a.yp, a.dut, a.dx, a.dy, a.lod, a.omega};
  if (!same_double(g[0], x)) fail("wrong-lookup", "%s: the record at %.9f is labelled %.9f", who, x, g[0]);
  for (int f = 1; f < 7; f++) if (!(std::fabs(g[f] - w[f]) <= s[f])) fail("wrong-lookup", "%s: %s at %.6f (order %d%s%s) is %.12g, should be %.12g", who, FN[f], x, order, tab ? ", a tabulated day" : "", plain ? "" : ", corrected", g[f], w[f]);
  observe_d(g[1]); count("lookups"); nontrivial();
}
void fill(Slot &s, Rng &r) {
  Tab &t = *s.t; int n = t.size(); double m0 = 41400 + r.below(18000) + 8e-4; s.m.assign(n, Row());
  for (int i = 0; i < n; i++) for (int f = 0; f < 8; f++) { double v = f ? (r.u() - .4) * (f == 7 ? 1e-10 : .5) : m0 + i; *at(t, f, i) = v; s.m[i][f] = v; }
  s.known = true;
}
void table_ops(Rng r, int nops, const char *who, std::vector<File> *F) {
  std::vector<Slot> S(3);
  for (int q = 0; q < nops; q++) {
    int ia = r.below(3), ib = r.below(3); Slot &a = S[ia], &b = S[ib];
    int op = r.below(12);
    switch (op) {
    case 0: case 1: { int n = 1 + r.below(r.below(4) ? 12 : r.below(8) ? 60 : 3000); alloc_track(true); a.t.reset(r.below(5) ? new Tab(n) : new Tab()); alloc_track(false); a.known = false; note("%s: new table %d", who, ia); fill(a, r); break; }
    case 2: if (a.t && ia != ib) { note("%s: table %d is a copy of %d", who, ib, ia); alloc_track(true); b.t.reset(new Tab(*a.t)); alloc_track(false); b.m = a.m; b.known = a.known; } break;
    case 3: if (a.t && b.t) { note("%s: table %d = %d", who, ib, ia); alloc_track(true); *b.t = *a.t; alloc_track(false); b.m = a.m; b.known = a.known; } break;
    case 4: if (a.t && ia != ib) { note("%s: table %d takes over %d", who, ib, ia); alloc_track(true); b.t.reset(new Tab(std::move(*a.t))); alloc_track(false); b.m = a.m; b.known = a.known; a.known = false; if (r.below(2)) { alloc_track(true); a.t.reset(); alloc_track(false); } else if (r.below(2) && b.t) { alloc_track(true); *a.t = *b.t; alloc_track(false); a.m = b.m; a.known = b.known; } else { alloc_track(true); int n = 1 + r.below(20); a.t->resize(n); alloc_track(false); fill(a, r); } } break;
    case 5: if (a.t && b.t && ia != ib) { note("%s: table %d = move(%d)", who, ib, ia); alloc_track(true); *b.t = std::move(*a.t); alloc_track(false); b.m = a.m; b.known = a.known; a.known = false; alloc_track(true); if (r.below(2)) a.t.reset(); else { a.t->resize(1 + r.below(9)); alloc_track(false); fill(a, r); } alloc_track(false); } break;
    case 6: if (a.t && a.known) { int n = r.below(3) ? 1 + r.below(30) : (int)a.m.size() + (int)r.below(3); note("%s: table %d resized from %zu to %d days", who, ia, a.m.size(), n); alloc_track(true); a.t->resize(n); alloc_track(false); Row u; u.fill(NANV); a.m.resize(n, u); if (r.below(2)) { double m0 = a.m[0][0] == a.m[0][0] ? a.m[0][0] : 50000.; for (int i = 0; i < n; i++) for (int f = 0; f < 8; f++) if (a.m[i][f] != a.m[i][f]) { a.m[i][f] = f ? r.u() : m0 + i; *at(*a.t, f, i) = a.m[i][f]; } } } break;
    case 7: if (a.t && a.known && !a.m.empty()) for (int k = 1 + r.below(5); k--;) { int i = r.below(a.m.size()), f = 1 + r.below(7); double v = r.u(); *at(*a.t, f, i) = v; a.m[i][f] = v; } break;
    case 8: if (a.t && a.known && full(a.m)) { note("%s: table %d regularized", who, ia); a.t->regularize(); for (size_t i = 0; i < a.m.size(); i++) { Row &w = a.m[i]; double im, fd = std::modf(w[0], &im), jc = (im + dso::mjd0_jd - dso::j2000_jd) / 36525. + fd / 36525., d1, dl, dom; iers2010::rg_zont2(jc, d1, dl, dom); Row g; const Tab &c = *a.t; for (int f = 0; f < 8; f++) g[f] = *at(c, f, i);
        if (!(std::fabs(g[3] - (w[3] - d1)) < 1e-11 && std::fabs(g[6] - (w[6] - dl)) < 1e-11 && (w[7] != w[7] || std::fabs(g[7] - (w[7] - dom)) < 1e-18))) fail("wrong-regularized", "%s: regularized day %zu of table %d: dut %.12g, should be %.12g; lod %.12g, should be %.12g; omega %.12g, should be %.12g", who, i, ia, g[3], w[3] - d1, g[6], w[6] - dl, g[7], w[7] - dom);
        w[3] = g[3]; w[6] = g[6]; w[7] = g[7]; } } break;
    case 9: if (F && a.t) { long s; int n; if (extract((*F)[r.below(F->size())], r, *a.t, who, &s, &n)) { a.m.assign(n, Row()); const Tab &c = *a.t; for (int i = 0; i < n; i++) for (int f = 0; f < 8; f++) a.m[i][f] = f == 7 ? 0. : *at(c, f, i); a.known = true; for (int i = 0; i < n; i++) { if (!same_double(*at(c, 7, i), 0.)) fail("undefined-value", "%s: day %d of a freshly extracted table has the undefined rotation rate offset %g", who, i, *at(c, 7, i)); } } else a.known = false; } break;
    default: if (a.t && a.known && full(a.m)) for (int k = 1 + r.below(4); k--;) lookup(*a.t, a.m, r, who);
    }
    yield_point("op");
    for (int i = 0; i < 3; i++) check(S[i], who, i);
  }
  nontrivial();
}
void e02() {
  std::vector<File> F;
  if (Wc(500)) { F.resize(1); make_file(F[0], 0); if (draw(CONF, 2)) swarm_benign(); }
  max_edges = edges() + 50000000;
  int64_t live = alloc_live_tracked();
  int nt = 1 + (int)W(3); bool shared = Wc(400);
  maybe_preempt();
  Slot base; 
  if (shared) { base.t.reset(new Tab(2 + W(40))); Rng r = Wrng(); fill(base, r); }
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int n = 2 + W(14);
    spawn(fmt("owner %d", i).c_str(), [&, s, n, i] {
      std::string who = fmt("owner %d", i); Rng r(s);
      if (shared && r.below(2)) { for (int k = 0; k < n; k++) { lookup(*base.t, base.m, r, who.c_str()); yield_point("op"); } }
      else table_ops(r, n, who.c_str(), F.empty() ? nullptr : &F);
    });
  }
  run_tasks();
  check(base, "end", 9); base.t.reset();
  int64_t leak = alloc_live_tracked() - live;
  if (leak) fail("memory-balance", "%lld tracked blocks are left after all tables are gone", (long long)leak);
}
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {{"E01", e01, "on success the table holds exactly the requested days with the file's values; intact files are never refused, missing or damaged days always are"},
    {"E02", e02, "tables keep exactly the values of a model under copies, moves and resizes and give back their memory; lookups equal the model and do not depend on the record passed in"}});
}
