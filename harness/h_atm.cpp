// S01, S02, N01: space-weather files over simulated storage, the data feed, the density model
#include "../sim/sim.hpp"
#include "atmosphere/nrlmsise00.hpp"
#include "var/celestrak.hpp"
#include "msis_ref.hpp"
#include <array>
#include <memory>
using namespace sim;
namespace {
namespace ct = dso::utils::celestrak::details;
typedef dso::modified_julian_day Mjd;
typedef ct::CelestTrakSWFlux Flux;
const char HEAD[] = "DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81";
void maybe_preempt() { if (draw(CONF, 3)) set_preempt_rate(100 << draw(CONF, 8)); }
struct Day { int ap[8]; double avg, obs, adj, oc, ol, ac; char flag[4]; bool bad = false; };
struct Csv { long first = 0; int n = 0; std::vector<Day> d; std::vector<std::string> lines; std::string text, path, what = "none"; int eol = 0; bool gone = false; bool dup = false; };
std::string csv_line(long mjd, Day &d, Rng &r, int wide) {
  int y, m, dd; dso::mjd2ymd(mjd, y, m, dd);
  std::string s = fmt("%04d-%02d-%02d,%d,%d", y, m, dd, 1000 + (int)(mjd / 27 % 2000) * (wide & 1 ? 10 : 1), (int)(mjd % 27) + 1);
  static const int aps[] = {0, 2, 3, 4, 5, 6, 7, 9, 12, 15, 18, 22, 27, 32, 39, 48, 56, 67, 80, 94, 111, 132, 154, 179, 207, 236, 300, 400};
  for (int i = 0; i < 9; i++) s += fmt(",%d", i < 8 ? (int)r.below(91) : (int)r.below(500));
  int sum = 0; for (int i = 0; i < 8; i++) { d.ap[i] = aps[r.below(r.below(4) ? 12 : 28)]; sum += d.ap[i]; s += fmt(",%d", d.ap[i]); }
  auto num = [&](double v, int dec) { std::string t = fmt("%.*f", dec, v); s += "," + t; return strtod(t.c_str(), 0); };
  d.avg = num(sum / 8, 0);
  s += fmt(",%.1f,%d,%d", r.u() * 2.5, (int)r.below(10), (int)r.below(wide & 2 ? 10 : 300));
  d.obs = num(60 + r.u() * 240, 1); d.adj = num(60 + r.u() * 240, 1);
  const char *f = r.below(8) == 0 ? (r.below(2) ? "INT" : "PRD") : "OBS"; memcpy(d.flag, f, 4); s += "," + std::string(f);
  d.oc = num(60 + r.u() * 200, 1); d.ol = num(60 + r.u() * 200, 1); d.ac = num(60 + r.u() * 200, 1); num(60 + r.u() * 200, 1);
  return s;
}
void text_of(Csv &C, bool head = true) {
  C.text = head ? std::string(HEAD) + (C.eol == 1 ? "\r\n" : "\n") : "";
  for (auto &l : C.lines) C.text += l + (C.eol == 1 ? "\r\n" : "\n");
}
void make_csv(Csv &C, int tag, bool damage) {
  Rng r = Wrng();
  C.path = fmt("/sim/%sSW-All%d.csv", Wc(60) ? std::string(300, 's').c_str() : "", tag);
  C.first = 36112 + r.below(24000); C.n = 1 + (int)W(Wc(150) ? Wc(60) ? 3000 : 200 : 25); C.eol = Wc(150) ? 1 : 0; int wide = W(4);
  for (int i = 0; i < C.n; i++) { Day d; C.lines.push_back(csv_line(C.first + i, d, r, wide)); C.d.push_back(d); }
  if (Wc(300)) { // monthly predictions at the end, without geomagnetic indices
    int y, m, dd; dso::mjd2ymd(C.first + C.n + 3, y, m, dd);
    for (int k = 1 + W(4); k--;) { if (++m > 12) { m = 1; y++; } C.lines.push_back(fmt("%04d-%02d-01,,,,,,,,,,,,,,,,,,,,,,,%d,%.1f,%.1f,PRM,%.1f,%.1f,%.1f,%.1f", y, m, (int)r.below(200), 60 + r.u() * 200, 70., 71., 72., 73., 74.)); }
  }
  int dmg = damage && Wc(500) ? 1 + (int)W(9) : 0, k = (int)W(C.n);
  bool head = true;
  auto field = [&](std::string &l, int f, size_t &b, size_t &e) { b = 0; for (int i = 0; i < f; i++) b = l.find(',', b) + 1; e = l.find(',', b); if (e == std::string::npos) e = l.size(); };
  std::string &l = C.lines[k]; size_t b, e;
  static const int F[] = {12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 27, 28, 29};
  switch (dmg) {
  case 1: { int f = F[W(14)]; field(l, f, b, e); l[b] = "*?x"[W(3)]; C.d[k].bad = true; C.what = fmt("column %d of day %ld unreadable", f + 1, C.first + k); break; }
  case 2: { int f = W(3); static const int at[] = {0, 5, 8}; l[at[f]] = '?'; C.d[k].bad = true; C.what = fmt("date of day %ld unreadable", C.first + k); break; }
  case 3: { if (W(2) && l.compare(8, 2, "01")) { static const char *no[] = {"02-29", "02-30", "04-31", "06-31", "09-31", "11-31", "01-32", "00-11", "05-00", "12-99"}; int q = W(10), y = atoi(l.c_str()); if (q == 0 && ((y % 4 == 0 && y % 100) || y % 400 == 0)) q = 1; l.replace(5, 5, no[q]); C.d[k].bad = true; C.what = fmt("day %ld is dated %.10s", C.first + k, l.c_str()); break; }
    l[5] = '1'; l[6] = '3' + W(7); C.d[k].bad = true; C.what = fmt("day %ld has an impossible month", C.first + k); break; }
  case 4: { field(l, 30, b, e); size_t c = 1 + W(b - 2); l.resize(c); C.d[k].bad = true; C.what = fmt("day %ld cut to %zu characters", C.first + k, c); break; }
  case 5: { l += std::string(400 + W(600), W(2) ? ' ' : '0'); C.what = fmt("day %ld is overlong", C.first + k); C.dup = true; break; }
  case 6: { C.lines.erase(C.lines.begin() + k); C.d[k].bad = true; C.what = fmt("day %ld missing", C.first + k); break; }
  case 7: { C.lines.insert(C.lines.begin() + k, l); C.dup = true; C.what = fmt("day %ld repeated", C.first + k); break; }
  case 8: { head = false; for (auto &d : C.d) d.bad = true; C.what = "header missing"; break; }
  }
  text_of(C, head);
  if (dmg == 9) {
    size_t at = sizeof(HEAD) - 1 + (C.eol == 1 ? 2 : 1); for (int i = 0; i < k; i++) at += C.lines[i].size() + (C.eol == 1 ? 2 : 1);
    size_t c = W(C.lines[k].size() + 1); field(C.lines[k], 30, b, e);
    for (int i = k; i < C.n; i++) if (i > k || c < b) C.d[i].bad = true;
    C.text.resize(at + c); C.what = fmt("cut in day %ld after %zu characters", C.first + k, c); C.dup = true;
  } else if (Wc(150)) { // complete, but no newline at the end
    C.text.resize(C.text.size() - (C.eol == 1 ? 2 : 1)); if (dmg == 0) C.what = "no newline at the end";
  }
  note("file %d: %d days from %ld, %zu bytes, %s", tag, C.n, C.first, C.text.size(), C.what.c_str());
  if (damage && Wc(30)) { C.gone = true; C.what = "missing"; } else fs::put(C.path, C.text);
}
void storage_swarm(const Csv &F) {
  switch (draw(CONF, 4)) {
  case 1: swarm_benign(); break;
  case 2: swarm_read_faults(); break;
  case 3: swarm_benign(); fs::bad_sector(F.path, draw(FAULT, F.text.size() + 1)); break;
  }
}
bool same(const Flux &f, long mjd, const Day &d) {
  if (f.mjd_.as_underlying_type() != mjd || strncmp(f.flag, d.flag, 3)) return false;
  for (int i = 0; i < 8; i++) if (f.ApIndexes[i] != d.ap[i]) return false;
  return same_double(f.ApDailyAverage, d.avg) && same_double(f.f107Obs, d.obs) && same_double(f.f107Adj, d.adj) && same_double(f.f107ObsC81, d.oc) && same_double(f.f107ObsL81, d.ol) && same_double(f.f107AdjC81, d.ac);
}
bool lost(const Csv &C, long a, long b) { for (long m = a; m <= b; m++) if (C.gone || m < C.first || m >= C.first + C.n || C.d[m - C.first].bad) return true; return false; }
// ------------------------------------------------------------ S01
void grow(Csv &C, Rng &r) { // the provider publishes a newer file: more days, other widths in columns that are not used
  int wide = r.below(4), add = 1 + r.below(5);
  for (int i = 0; i < add; i++) { Day d; C.lines.push_back(csv_line(C.first + C.n, d, r, wide)); C.d.push_back(d); C.n++; }
  for (int i = 0; i < C.n; i++) { std::string &l = C.lines[i]; size_t p = 11, q = l.find(',', p); l.replace(p, q - p, fmt("%d", (int)r.below(wide & 1 ? 100000 : 1000))); }
  C.text.clear(); text_of(C); fs::put(C.path, C.text); C.what = "replaced by a newer file"; note("%s is replaced by a newer file of %d days", C.path.c_str(), C.n);
}
void s01() {
  int nf = 1 + (int)W(2); bool growing = Wc(200);
  std::vector<Csv> F(nf);
  for (int i = 0; i < nf; i++) { make_csv(F[i], i, !growing); if (growing) { F[i].lines.resize(F[i].n); } }
  storage_swarm(F[0]);
  if (growing) fs::faults.open_fail = fs::faults.read_eio = 0;
  max_edges = edges() + 100000000;
  int nt = growing ? 1 : 1 + (int)W(3);
  maybe_preempt();
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int calls = 1 + W(7);
    spawn(fmt("caller %d", i).c_str(), [&, s, calls, i] {
      Rng r(s); std::string who = fmt("caller %d", i);
      int k = r.below(nf); std::ifstream::pos_type pos = 0; long last = F[k].first + r.below(F[k].n);
      for (int c = 0; c < calls; c++) {
        Csv &C = F[k];
        if (growing && r.below(3) == 0) grow(C, r);
        if (r.below(5) == 0) { k = r.below(nf); pos = 0; last = F[k].first; continue; }
        int nb = r.below(5), na = r.below(3) ? 0 : r.below(4); bool next = r.below(3) == 0; if (next) nb = na = 0;
        long m;
        switch (r.below(6)) { case 0: m = C.first - 3 + r.below(C.n + 6); break; case 1: m = last; break; case 2: m = C.first + C.n - 1 - r.below(3); break; default: m = last + 1; }
        std::vector<Flux> out(next ? 1 + r.below(5) : nb + 1 + na); size_t n = out.size();
        for (auto &f : out) { f.mjd_ = Mjd(-77); memset(f.ApIndexes, 0x5a, sizeof f.ApIndexes); }
        if (next) for (size_t q = 0; q < n; q++) out[q].mjd_ = Mjd(m - (long)n + q);
        uint64_t h0 = fs::harmful_fired(); (void)h0;
        int rc = next ? ct::get_next(Mjd(m), C.path.c_str(), out.data(), n, pos) : ct::parse_csv_for_date(Mjd(m), C.path.c_str(), out.data(), pos, nb, na);
        if (r.below(8) == 0) pos = 0; // the caller starts from the top
        bool hole = lost(C, m - nb, m + na);
        if (rc) {
          note("%s: days %ld to %ld refused", who.c_str(), m - nb, m + na);
          if (!hole && !fs::harmful_fired() && (C.what == "none" || C.what[0] == 'n' || C.what[0] == 'r')) fail("present-days-refused", "%s: days %ld to %ld were refused (%s)", who.c_str(), m - nb, m + na, C.what.c_str());
          count("extractions refused"); nontrivial(); observe_u(1); continue;
        }
        if (hole) fail("missing-day-accepted", "%s: days %ld to %ld succeeded: %s", who.c_str(), m - nb, m + na, C.what.c_str());
        if (next) { // the others move one place to the left
          for (size_t q = 0; q + 1 < n; q++) if (out[q].mjd_.as_underlying_type() != m - (long)n + (long)q + 1) fail("wrong-shift", "%s: element %zu holds day %ld after adding day %ld to %zu days", who.c_str(), q, out[q].mjd_.as_underlying_type(), m, n);
          if (!same(out[n - 1], m, C.d[m - C.first])) fail("wrong-values", "%s: day %ld differs from the file (%s)", who.c_str(), m, C.what.c_str());
        } else for (size_t q = 0; q < n; q++) {
          long d = m - nb + q;
          if (!same(out[q], d, C.d[d - C.first])) fail("wrong-values", "%s: record %zu of days %ld to %ld is of day %ld and differs from the file (%s)", who.c_str(), q, m - nb, m + na, out[q].mjd_.as_underlying_type(), C.what.c_str());
        }
        last = m; observe_u(m); count("extractions"); nontrivial();
      }
    });
  }
  run_tasks();
}
// ------------------------------------------------------------ S02
namespace ms = dso::nrlmsise00;
typedef ms::detail::InParamsCore Core;
typedef ms::InParams<ms::detail::FluxDataFeedType::ST_CSV_SW> Params;
struct Want { double f107A, f107, ap, a[7]; };
Want expected(const Csv &C, long m, double sec) {
  auto D = [&](long x) -> const Day & { return C.d[x - C.first]; };
  auto slot = [&](long g) { return (double)D(g / 8).ap[g % 8]; };
  Want w; w.f107A = D(m).oc; w.f107 = D(m - 1).obs; w.ap = w.a[0] = D(m).avg;
  long g = m * 8 + (int)(sec / 10800.);
  for (int i = 0; i < 4; i++) w.a[1 + i] = slot(g - i);
  w.a[5] = w.a[6] = 0; for (int i = 4; i < 12; i++) { w.a[5] += slot(g - i) / 8.; w.a[6] += slot(g - i - 8) / 8.; }
  return w;
}
void compare(const Core &p, const Csv &C, long m, double sec, const char *who, const char *how) {
  Want w = expected(C, m, sec);
  if (!same_double(p.f107A, w.f107A) || !same_double(p.f107, w.f107) || !same_double(p.ap, w.ap)) fail("wrong-inputs", "%s: %s to day %ld, %.3f s gives f107A %g f107 %g ap %g, should be %g %g %g (%s)", who, how, m, sec, p.f107A, p.f107, p.ap, w.f107A, w.f107, w.ap, C.what.c_str());
  for (int i = 0; i < 7; i++) if (!close_to(p.aparr.a[i], w.a[i], 1e-12)) fail("wrong-inputs", "%s: %s to day %ld, %.3f s gives ap[%d] %g, should be %g (%s)", who, how, m, sec, i, p.aparr.a[i], w.a[i], C.what.c_str());
  observe_d(p.ap);
}
void rubbish(Core &p) { p.f107A = p.f107 = p.ap = 7e77; for (double &a : p.aparr.a) a = 7e77; }
void s02() {
  int nf = 1 + (int)W(2); bool growing = Wc(150);
  std::vector<Csv> F(nf);
  for (int i = 0; i < nf; i++) { make_csv(F[i], i, !growing && Wc(600)); if (growing) F[i].lines.resize(F[i].n); }
  int sw = draw(CONF, 4);
  if (sw == 1) swarm_benign(); else if (sw == 2 && !growing) swarm_read_faults(); else if (sw == 3 && !growing) { swarm_benign(); fs::bad_sector(F[0].path, draw(FAULT, F[0].text.size() + 1)); }
  max_edges = edges() + 100000000;
  int nt = growing ? 1 : 1 + (int)W(3);
  maybe_preempt();
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int calls = 1 + W(14), style = W(3);
    spawn(fmt("user %d", i).c_str(), [&, s, calls, style, i] {
      Rng r(s); std::string who = fmt("user %d", i);
      Csv &C = F[r.below(nf)];
      long m = C.first + std::min(3, C.n - 1) + r.below(std::max(1, C.n - 3)); double sec = r.below(86400000) / 1000.;
      std::unique_ptr<Params> P; Core other; bool whole = style == 2;
      for (int c = 0; c < calls; c++) {
        if (growing && r.below(4) == 0) grow(C, r);
        // the next epoch
        switch (r.below(8)) {
        case 0: m = C.first - 2 + r.below(C.n + 4); sec = r.below(86400); break;   // anywhere, maybe outside
        case 1: sec = r.below(9) * 10800. - (r.below(2) ? .001 : 0); if (sec < 0) sec = 0; if (sec >= 86400) { sec = 0; m++; } break; // at a boundary
        case 2: m += 1; sec = r.below(86400); break;
        case 3: m -= r.below(3); break;
        case 4: m += 2 + r.below(3); break;
        default: sec += r.below(12000); if (sec >= 86400) { sec -= 86400; m++; }
        }
        bool hole = lost(C, m - 3, m), hazy = hole || fs::harmful_fired() || !(C.what == "none" || C.what[0] == 'n' || C.what[0] == 'r');
        if (!P || (r.below(12) == 0)) {
          bool threw = false; P.reset();
          try { P.reset(new Params(C.path.c_str(), Mjd(m), sec)); } catch (std::exception &) { threw = true; }
          hazy |= fs::harmful_fired() || C.path.size() > 255;
          if (threw) { note("%s: no feed at day %ld", who.c_str(), m); if (!hazy) fail("feed-refused", "%s: a feed at day %ld, %.3f s was refused (%s)", who.c_str(), m, sec, C.what.c_str()); count("feeds refused"); nontrivial(); continue; }
          if (hole) fail("missing-day-accepted", "%s: a feed at day %ld was created: %s", who.c_str(), m, C.what.c_str());
          compare(P->params_, C, m, sec, who.c_str(), "a new feed"); count("feeds"); continue;
        }
        if (r.below(4)) rubbish(P->params_);
        int rc; Core *used = &P->params_; const char *how = "update";
        if (whole && r.below(2)) { // another set of parameters, fed by the same feed
          other = Core(Mjd(m), sec); rubbish(other); used = &other; how = "update of other parameters"; rc = P->feed_.update(other);
        } else if (whole && r.below(3) == 0 && m > C.first) { // the epoch as seconds of the day before
          used = &other; other = Core(Mjd(m - 1), 0); other.sec = 86400. + sec; rubbish(other); how = "update with more than a day of seconds"; rc = P->feed_.update(other);
        } else rc = P->update_params((int)m, sec);
        hazy |= fs::harmful_fired();
        if (rc) { note("%s: update to day %ld, %.3f s refused", who.c_str(), m, sec); if (!hazy) fail("update-refused", "%s: update to day %ld, %.3f s was refused (%s)", who.c_str(), m, sec, C.what.c_str()); count("updates refused"); nontrivial(); observe_u(1); continue; }
        if (hole && C.gone) fail("missing-day-accepted", "%s: update to day %ld succeeded: %s", who.c_str(), m, C.what.c_str());
        if (hole) fail("missing-day-accepted", "%s: update to day %ld succeeded: %s", who.c_str(), m, C.what.c_str());
        compare(*used, C, m, sec, who.c_str(), how); count("updates"); nontrivial();
      }
      // the disk is healthy again: the next update recovers
      if (P && nt == 1) {
        fs::faults = fs::Faults(); fs::bad_sector(F[0].path, -1); m = C.first + 3 + r.below(std::max(1, C.n - 3)); sec = r.below(86400);
        if (!lost(C, m - 3, m)) { rubbish(P->params_); if (P->update_params((int)m, sec)) { if (C.what == "none" || C.what[0] == 'n' || C.what[0] == 'r') fail("no-recovery", "%s: update to day %ld on a healthy file fails after earlier faults", who.c_str(), m); } else { compare(P->params_, C, m, sec, who.c_str(), "update after the faults"); count("recoveries"); } }
      }
    });
  }
  run_tasks();
}
// ------------------------------------------------------------ N01
typedef ms::OutParams Out;
Core conditions(Rng &r) {
  Core c; c.year = 2000 + r.below(25); c.doy = 1 + r.below(366); c.sec = r.u() * 86400;
  switch (r.below(6)) { case 0: c.alt = r.u() * 32.5; break; case 1: c.alt = 32.5 + r.u() * 40; break; case 2: c.alt = 72.5 + r.u() * 60; break; case 3: { static const double at[] = {0, 10, 15, 20, 32.5, 45, 55, 62.5, 72.5, 90, 100, 110, 120, 123.435, 160, 200, 240, 250, 300, 320, 450}; c.alt = at[r.below(21)]; break; } default: c.alt = 120 + r.u() * 880; }
  c.glat = r.below(12) == 0 ? (r.below(2) ? 90. : -90.) : r.u() * 180 - 90; c.glon = r.u() * 360 - 180; c.lst = r.below(4) ? std::fmod(c.sec / 3600 + c.glon / 15 + 48, 24.) : r.u() * 24;
  c.f107A = 65 + r.u() * 200; c.f107 = 65 + r.u() * 200; c.ap = r.below(4) ? r.below(30) : r.below(400);
  c.aparr.a[0] = c.ap; for (int i = 1; i < 7; i++) c.aparr.a[i] = r.below(4) ? r.below(30) : r.below(400);
  if (r.below(3) == 0) c.meters_on();
  if (r.below(3) == 0) c.use_aparray();
  if (r.below(4) == 0) switch (r.below(4)) {
  case 0: for (int i = 0; i < 23; i++) if (r.below(2)) c.set_switch(i, 0); break;
  case 1: { static const int fam[][4] = {{6, 7, 13, 6}, {6, 7, 13, 8}, {9, 10, 11, 12}, {2, 3, 4, 5}, {0, 14, 15, 16}, {17, 18, 19, 20}}; for (int i : fam[r.below(6)]) c.set_switch(i, 0); break; } // all terms of one kind
  default: for (int k = 1 + r.below(4); k--;) { int i = r.below(23); c.set_switch(i, i == 8 ? (int)r.below(4) - 1 : (int)r.below(3)); }
  }
  return c;
}
Core vary(const Core &o, Rng &r) { // nearly the same conditions
  Core c = o, f = conditions(r);
  switch (r.below(11)) { case 8: c.glat += r.d(-1, 1) * (r.below(2) ? 1e-6 : 1e-5); break; case 9: c.lst += r.d(-1, 1) * (r.below(2) ? 1e-6 : 1e-5); break; case 10: c.alt += r.d(-1, 1) * 1e-6; c.glon += r.d(-1, 1) * 1e-6; break; case 0: c.doy = f.doy; break; case 1: c.glat = f.glat; break; case 2: c.lst = f.lst; break; case 3: c.alt = f.alt; break; case 4: c.f107A = f.f107A; c.f107 = f.f107; break; case 5: c.glon = f.glon; c.sec = f.sec; break; case 6: if (r.below(2)) c.sw = f.sw; else c.set_switches_on(); break; default: c.ap = f.ap; c.aparr = f.aparr; }
  return c;
}
struct Eval { Core in; int mass; bool td; Out out; };
void evaluate(dso::Nrlmsise00 &M, Eval &e, double junk) {
  for (double &d : e.out.d) d = junk;
  e.out.t[0] = e.out.t[1] = junk;
  Core before = e.in;
  int rc = e.td ? M.gtd7d(&e.in, &e.out, e.mass) : M.gtd7(&e.in, &e.out, e.mass);
  if (rc) fail("evaluation-refused", "evaluation at %.3f km returns %d", e.in.alt, rc);
  if (memcmp(&before.glat, &e.in.glat, sizeof(double)) || memcmp(before.aparr.a, e.in.aparr.a, sizeof before.aparr.a) || memcmp(before.sw.sw, e.in.sw.sw, sizeof before.sw.sw)) fail("inputs-changed", "evaluation at %.3f km changed its inputs", e.in.alt);
}
void compare(const Eval &a, const Eval &b, const char *who, const char *what) {
  for (int k = 0; k < 11; k++) {
    double x = k < 9 ? a.out.d[k] : a.out.t[k - 9], y = k < 9 ? b.out.d[k] : b.out.t[k - 9];
    if (!same_double(x, y) && !close_to(x, y, 1e-12)) fail(k < 9 ? "density-differs" : "temperature-differs", "%s: %s[%d] at %.3f km, lat %.3f, doy %d, lst %.2f, mass %d%s is %.10g, %s gives %.10g", who, k < 9 ? "d" : "t", k < 9 ? k : k - 9, a.in.alt, a.in.glat, a.in.doy, a.in.lst, a.mass, a.td ? " (gtd7d)" : "", x, what, y);
    if (k != 8) observe_d(x);
  }
}
void n01() {
  max_edges = edges() + 50000000;
  int nt = 1 + (int)W(3), shared = Wc(500), n = 1 + (int)W(8);
  maybe_preempt();
  std::vector<std::vector<Eval>> H(nt);
  std::vector<Core> pool; { Rng r = Wrng(); pool.push_back(conditions(r)); for (int k = 1 + (int)W(5); k--;) pool.push_back(r.below(3) ? vary(pool[r.below(pool.size())], r) : conditions(r)); }
  static const int masses[] = {48, 48, 48, 48, 0, 4, 16, 28, 32, 40, 1, 49, 14, 17, 3};
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30);
    spawn(fmt("task %d", i).c_str(), [&, s, i] {
      Rng r(s); std::unique_ptr<dso::Nrlmsise00> A(new dso::Nrlmsise00), B(new dso::Nrlmsise00);
      for (int c = 0; c < n; c++) {
        Eval e; e.in = shared ? pool[r.below(pool.size())] : r.below(3) || !c ? conditions(r) : vary(H[i].back().in, r);
        e.mass = r.below(3) ? 48 : masses[r.below(15)]; e.td = r.below(3) == 0;
        if (r.below(10) == 0) B.reset(new dso::Nrlmsise00);
        evaluate(r.below(3) ? *A : *B, e, r.below(2) ? 0. : 1e40 * r.u());
        H[i].push_back(e); count("evaluations"); nontrivial();
      }
    });
  }
  run_tasks();
  // each again: by a new model, and by one that has just been used for something else
  Rng r = Wrng();
  for (int i = 0; i < nt; i++) for (auto &e : H[i]) {
    std::string who = fmt("task %d", i);
    Eval f = e, x = e; std::unique_ptr<dso::Nrlmsise00> M(new dso::Nrlmsise00);
    evaluate(*M, f, -1e30); compare(e, f, who.c_str(), "a new model");
    x.in = conditions(r); x.in.doy = e.in.doy % 366 + 1; x.in.glat = e.in.glat > 0 ? e.in.glat - 37 : e.in.glat + 41; x.in.lst = std::fmod(e.in.lst + 7, 24.); x.in.set_switches_on(); x.mass = 48; x.td = false;
    evaluate(*M, x, 1.); evaluate(*M, f, 2e30); compare(e, f, who.c_str(), "a model used for other conditions before");
  }
}
// ------------------------------------------------------------ N02
// the switches as set one by one
struct Sw { int v[25]; Sw() { for (int &x : v) x = 1; } };
void spread(Core &c, Sw &w, Rng &r) { // conditions beyond those of N01
  c.set_switches_on(); c.meters_ = r.below(3) == 0;
  int mode = r.below(4);
  if (mode == 1) { w.v[8] = -1; c.use_aparray(); }
  else if (mode == 2) for (int k = 1 + r.below(6); k--;) { int i = r.below(23); w.v[i] = i == 8 ? (int)r.below(4) - 1 : (int)r.below(3); c.set_switch(i, w.v[i]); }
  else if (mode == 3 && r.below(4) == 0) { c.set_switches_off(); for (int &x : w.v) x = 0; for (int k = r.below(12); k--;) { int i = r.below(23); w.v[i] = i == 8 ? (int)r.below(4) - 1 : (int)r.below(3); c.set_switch(i, w.v[i]); } }
  if (r.below(10) == 0) { static const double at[] = {62.5, 72.5, 123.435, 160, 200, 240, 250, 300, 320, 450, 1000}; c.alt = at[r.below(11)]; }
  if (r.below(20) == 0) c.glon = r.below(2) ? -1001. : -1000.;
}
void n02() {
  max_edges = edges() + 50000000;
  // the cases published with the model, which was run with slightly different constants
  static const struct { int doy; double sec, alt, lat, d[9], t[2]; } pub[] = {
    {172, 29000, 400, 60, {6.665177e5, 1.138806e8, 1.998211e7, 4.022764e5, 3.557465e3, 4.074714e-15, 3.475312e4, 4.095913e6, 2.667273e4}, {1250.540, 1241.416}},
    {81, 29000, 400, 60, {3.407293e6, 1.586333e8, 1.391117e7, 3.262560e5, 1.559618e3, 5.001846e-15, 4.854208e4, 4.380967e6, 6.956682e3}, {1166.754, 1161.710}},
    {172, 75000, 1000, 60, {1.123767e5, 6.934130e4, 4.247105e1, 1.322750e-1, 2.618848e-5, 2.756772e-18, 2.016750e4, 5.741256e3, 2.374394e4}, {1239.892, 1239.891}},
    {172, 29000, 100, 60, {5.411554e7, 1.918893e11, 6.115826e12, 1.225201e12, 6.023212e10, 3.584426e-10, 1.059880e7, 2.615737e5, 2.819879e-42}, {1027.318, 206.8878}},
    {172, 29000, 400, 0, {1.851122e6, 1.476555e8, 1.579356e7, 2.633795e5, 1.588781e3, 4.809630e-15, 5.816167e4, 5.478984e6, 1.264446e3}, {1212.396, 1208.135}}};
  { auto &q = pub[W(5)]; Core c; c.year = 2000; c.doy = q.doy; c.sec = q.sec; c.alt = q.alt; c.glat = q.lat; c.glon = -70; c.lst = 16; c.f107A = c.f107 = 150; c.ap = 4; for (double &x : c.aparr.a) x = 4;
    std::unique_ptr<dso::Nrlmsise00> M(new dso::Nrlmsise00); Out o; if (M->gtd7(&c, &o, 48)) fail("evaluation-refused", "a published case is refused");
    for (int k = 0; k < 11; k++) { double x = k < 9 ? o.d[k] : o.t[k - 9], y = k < 9 ? q.d[k] : q.t[k - 9]; if (!(std::fabs(x - y) <= 1e-2 * y)) fail("published-case", "%s[%d] of the published case on day %d at %g km, latitude %g is %.7g, published is %.7g", k < 9 ? "d" : "t", k < 9 ? k : k - 9, q.doy, q.alt, q.lat, x, y); } }
  int nt = 1 + (int)W(3), n = 1 + (int)W(10);
  maybe_preempt();
  static const int masses[] = {48, 48, 48, 48, 48, 0, 4, 16, 28, 32, 40, 1, 14, 17, 49}, gas[] = {-1, -1, -1, -1, -1, -2, 0, 1, 2, 3, 4, 6, 7, 8, -2};
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30);
    spawn(fmt("task %d", i).c_str(), [&, s, i] {
      Rng r(s); std::unique_ptr<dso::Nrlmsise00> A(new dso::Nrlmsise00); msis::Model R; Core c;
      for (int k = 0; k < n; k++) {
        if (!k || r.below(3)) c = conditions(r); else c = vary(c, r);
        Sw w; spread(c, w, r);
        int mi = r.below(15); Eval e; e.in = c; e.mass = masses[mi]; e.td = r.below(3) == 0;
        evaluate(*A, e, r.below(2) ? 0. : 1e40 * r.u());
        msis::In x; x.doy = c.doy; x.sec = c.sec; x.alt = c.alt; x.lat = c.glat; x.lon = c.glon; x.lst = c.lst; x.f107A = c.f107A; x.f107 = c.f107; x.ap = c.ap; memcpy(x.a, c.aparr.a, sizeof x.a); x.meters = c.meters();
        for (int q = 0; q < 25; q++) { x.sw[q] = w.v[q] % 2; x.swc[q] = w.v[q] > 0; }
        msis::Res o = R.eval(x, e.mass, e.td);
        if (R.outside) { count("outside the model"); continue; }
        for (int q = 0; q < 11; q++) {
          if (q < 9 && (gas[mi] == -2 || (gas[mi] >= 0 && q != gas[mi]))) continue;
          double g = q < 9 ? e.out.d[q] : e.out.t[q - 9], m = q < 9 ? o.d[q] : o.t[q - 9];
          if (!(std::fabs(g - m) <= 1e-9 * std::fabs(m)) && !same_double(g, m) && !(g != g && m != m)) fail(q < 9 ? "wrong-density" : "wrong-temperature", "task %d: %s[%d] at %.6f km, lat %.4f, lon %.3f, doy %d, sec %.1f, lst %.3f, f107 %.1f/%.1f, ap %.1f, mass %d%s%s%s is %.12g, the model gives %.12g", i, q < 9 ? "d" : "t", q < 9 ? q : q - 9, c.alt, c.glat, c.glon, c.doy, c.sec, c.lst, c.f107, c.f107A, c.ap, e.mass, e.td ? " (gtd7d)" : "", w.v[8] < 0 ? " (ap array)" : "", c.meters() ? " (SI)" : "", g, m);
          if (q != 8) observe_d(g);
        }
        count("evaluations"); nontrivial();
      }
    });
  }
  run_tasks();
}
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {{"S01", s01, "on success every requested day is there with the file's indices; days that are there are found from any remembered position; missing or damaged ones are refused"},
    {"S02", s02, "after each successful update the inputs are those of the epoch computed directly from the generated days; failures are justified by a fault or a missing day; the feed recovers"},
    {"N01", n01, "every evaluation equals the same one by a new model and by a model used for other conditions"},
    {"N02", n02, "every evaluation equals an independent evaluation of the published model; the published cases are met"}});
}
