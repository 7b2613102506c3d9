// G01, G02: the real ICGEM model loader over simulated storage.
// -DVAR: the stand-alone copy under var/icgem.
#include "../sim/sim.hpp"
#include "icgemio.hpp"
#ifndef VAR
#include "egravity.hpp"
#endif
#include <algorithm>
#include <cmath>
#include <memory>
using namespace sim;
namespace {
struct Model {
  int N = 0;
  std::string gm_txt, re_txt, norm; // norm empty: not written
  double gm, re;
  std::vector<std::vector<std::string>> ct, st;
  std::vector<std::vector<double>> c, s;
  bool egm = false;      // C10, C11 not written
  std::string file;
  bool damaged = false;
  std::string damage = "none";
  bool normalized() const { return norm.empty() || norm == "fully_normalized"; }
};
std::string number(Rng &r, double scale) {
  double v = (r.u() * 2 - 1) * scale;
  if (r.below(12) == 0) v = 0;
  if (r.below(25) == 0) v = -999;
  switch (r.below(5)) {
  case 0: return fmt("%.15e", v);
  case 1: return fmt("%22.12E", v).substr(fmt("%22.12E", v).find_first_not_of(' '));
  case 2: return fmt("%+.10e", v);
  case 3: return fmt("%.18f", v);
  default: return fmt("%.17g", v);
  }
}
void make(Model &M, const char *damage_from, int tag) {
  M.N = Wc(120) ? (Wc(80) ? (Wc(40) ? 254 + (int)W(8) : 60 + (int)W(60)) : 13 + (int)W(12)) : 1 + (int)W(8);
  Rng r = Wrng();
  M.gm_txt = r.below(3) ? fmt("%.10E", 3.986004415e14 * (1 + tag * 1e-6)) : fmt("%.4f", 3.986004415e14 + tag);
  M.re_txt = r.below(3) ? fmt("%.4f", 6378136.3 + tag) : fmt("%.10e", 6378137.0 + tag);
  M.gm = strtod(M.gm_txt.c_str(), 0);
  M.re = strtod(M.re_txt.c_str(), 0);
  static const char *norms[] = {"", "fully_normalized", "unnormalized", "fully_normalized"};
  M.norm = norms[W(4)];
  M.ct.assign(M.N + 1, {}); M.st = M.ct;
  M.c.assign(M.N + 1, {}); M.s = M.c;
  for (int n = 0; n <= M.N; n++)
    for (int k = 0; k <= n; k++) {
      std::string a = n == 0 ? "1.0e+00" : number(r, std::pow(10., -(double)n / 3 - 2)), b = k ? number(r, std::pow(10., -(double)n / 3 - 2)) : (r.below(2) ? "0.0" : "0.000000000000E+00");
      M.ct[n].push_back(a); M.st[n].push_back(b);
      M.c[n].push_back(strtod(a.c_str(), 0)); M.s[n].push_back(strtod(b.c_str(), 0));
    }
  M.egm = M.N >= 2 && Wc(150);
  if (M.egm) { M.c[1][0] = M.c[1][1] = M.s[1][1] = 0; }

  // ---- header
  const char *eol = Wc(120) ? "\r\n" : "\n";
  bool trail = Wc(250), tabs = Wc(100);
  auto gap = [&] { return tabs && r.below(2) ? std::string(1 + r.below(2), '\t') : std::string(1 + r.below(24), ' '); };
  std::vector<std::string> H;
  auto kw = [&](const char *k, const std::string &v) { H.push_back((r.below(12) == 0 ? std::string(1 + r.below(3), ' ') : "") + k + gap() + v + (trail && r.below(2) ? std::string(1 + r.below(5), ' ') : "")); };
  kw("product_type", "gravity_field");
  kw("modelname", fmt("SIM-%d", tag));
  kw("earth_gravity_constant", M.gm_txt);
  kw("radius", M.re_txt);
  kw("max_degree", fmt("%d", M.N));
  if (Wc(800)) kw("errors", std::vector<std::string>{"formal", "calibrated", "no"}[r.below(3)]);
  if (Wc(500)) kw("tide_system", "tide_free");
  if (!M.norm.empty()) kw("norm", M.norm);
  if (Wc(200)) kw("url", "http://example.org/model");
  if (Wc(100)) H.push_back("normalization_note: see the paper by Smith");
  if (Wc(100)) H.push_back("");
  if (Wc(100)) { H.push_back("comment " + std::string(1 + r.below(246), "-x "[r.below(3)])); if (r.below(2)) for (int k = r.below(r.below(4) ? 100 : 900); k > 0; k--) H.push_back(fmt("note %d of the authors", k)); }
  if (Wc(80)) H.push_back(std::vector<std::string>{"the records follow end_of_head", "note: max_degree 3, radius 1.0 and norm unnormalized are only mentioned here", "radius_of_validity 1.0", "norms fully"}[r.below(4)]);
  for (size_t i = H.size(); i > 1; i--) std::swap(H[i - 1], H[r.below(i)]);
  std::string drop_key;
  uint32_t dmg = damage_from ? W(9) : 0;
  if (dmg == 1) { // drop a mandatory header entry
    drop_key = std::vector<std::string>{"earth_gravity_constant", "radius", "max_degree"}[W(3)];
    for (size_t i = 0; i < H.size(); i++) if (H[i].find(drop_key) != std::string::npos) { H.erase(H.begin() + i); break; }
    M.damaged = true; M.damage = "header entry " + drop_key + " missing";
  } else if (dmg == 2) { // value of a header entry missing
    drop_key = std::vector<std::string>{"earth_gravity_constant", "radius", "max_degree"}[W(3)];
    const uint32_t how = W(6);
    for (auto &h : H) if (h.find(drop_key) != std::string::npos) {
      if (how == 0) h = drop_key;
      else if (how == 1) { while (h.back() == ' ') h.pop_back(); h += "x*?"[W(3)]; }
      else if (how == 2) h = drop_key + " *****";
      else if (how >= 4) { size_t e = h.find_last_not_of(" \t"), b = h.find_last_of(" \t", e) + 1; h[b + W(e - b + 1)] = "OIx,#"[W(5)]; }
      else h = drop_key + " 0";
    }
    M.damaged = true; M.damage = fmt("value of header entry %s missing or damaged (%u)", drop_key.c_str(), how);
  }
  std::string f;
  if (Wc(400)) { f += std::string("free text: a model") + eol; if (Wc(300)) f += std::string("gfc  0  0  9.0e-01  0.0e+00 are the first fields of a record") + eol + "gfc 1 1 .5 .25" + eol; if (Wc(500)) f += eol; f += std::string("begin_of_head ====================") + eol; }
  for (auto &h : H) f += h + eol;
  if (Wc(700)) f += std::string("key    L    M    C       S        sigma C    sigma S") + eol;
  if (dmg == 3) { M.damaged = true; M.damage = "end_of_head missing"; }
  else f += (Wc(500) ? std::string("end_of_head ======================================") : std::string("end_of_head")) + eol;
  size_t head = f.size();
  // ---- records
  std::vector<std::pair<int, int>> order;
  int ordering = W(3);
  if (ordering == 1) { for (int k = 0; k <= M.N; k++) for (int n = k; n <= M.N; n++) order.push_back({n, k}); }
  else for (int n = 0; n <= M.N; n++) for (int k = 0; k <= n; k++) order.push_back({n, k});
  if (ordering == 2 && dmg >= 7) ordering = 0; // a cut could not be told from 'C(1,0) and C(1,1) not written'
  if (ordering == 2) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  bool sig = Wc(600), longer = Wc(150);
  std::vector<std::string> L;
  std::pair<int, int> victim{-1, -1};
  if (dmg >= 4 && dmg <= 6) victim = order[W(order.size())];
  for (auto &nk : order) {
    int n = nk.first, k = nk.second;
    if (M.egm && n == 1) continue;
    std::string a = M.ct[n][k], b = M.st[n][k];
    std::string rec;
    auto mk = [&](const std::string &x, const std::string &y) {
      std::string q = "gfc " + std::string(r.below(4), ' ') + fmt("%d", n) + std::string(1 + r.below(4), ' ') + fmt("%d", k) + std::string(1 + r.below(4), ' ') + x + std::string(1 + r.below(3), ' ') + y;
      if (sig) q += fmt(" %.4e %.4e", r.u() * 1e-10, r.u() * 1e-10);
      return q;
    };
    if (nk == victim) {
      M.damaged = true;
      if (dmg == 4) { M.damage = fmt("record (%d,%d) missing", n, k); continue; }
      if (dmg == 5) { // another record twice instead of this one
        M.damage = fmt("record (%d,%d) missing, another one repeated", n, k);
        if (!L.empty()) L.push_back(L.back());
        continue;
      }
      uint32_t how = W(7);
      M.damage = fmt("record (%d,%d) damaged (%u)", n, k, how);
      if (how == 0) a = "*****"; else if (how == 1) { size_t e = a.find_first_of("eE"); if (e != std::string::npos) a[e] = 'D'; else a = "?"; }
      else if (how == 2) { size_t e = b.find_first_of("eE"); if (e != std::string::npos && k) b[e] = 'D'; else a = "-"; }
      else if (how == 3) { L.push_back(fmt("gfc %d %d", n, k)); continue; }
      else if (how == 4) { L.push_back(fmt("gfc %d %d ", n, W(2) ? -1 : n + 1 + (int)W(3)) + a + " " + b); continue; }
      else if (how == 5) { L.push_back(W(2) ? fmt("gfc x %d ", k) + a + " " + b : fmt("gfc %d ? ", n) + a + " " + b); continue; }
      else b += "x";
    }
    L.push_back(mk(a, b));
    if (longer && r.below(8) == 0) L.back() += " " + std::string(1 + r.below(460 - L.back().size()), " 0"[r.below(2)]) + (r.below(2) ? " #" : "");
    if (r.below(30) == 0) L.push_back(fmt("gfct%s %d %d 7.25e-01 8.5e-01 20050101", r.below(2) ? "" : " ", n, k));
    if (r.below(30) == 0) L.push_back(fmt("trnd %d %d 1.0e-11 1.0e-12", n, k));
    if (r.below(40) == 0) L.push_back("");
  }
  for (auto &l : L) f += l + eol;
  if (dmg >= 7) { // cut short
    size_t cut = dmg == 7 ? head + W(f.size() - head) : W(f.size());
    M.damaged = true; M.damage = fmt("cut after %zu of %zu bytes", cut, f.size());
    f.resize(cut);
  }
  M.file = f;
}
// independent normalisation factor
double nfac(int n, int k) {
  long double p = 1;
  for (int i = n - k + 1; i <= n + k; i++) p *= i;
  return (double)sqrtl(p / (2 * n + 1) / (k ? 2 : 1));
}
struct Outcome { bool ok = false; };
// one load into hc of the given model; checks everything
void load(const Model &M, const std::string &path, int l, int m, dso::HarmonicCoeffs *hc, bool via_iface, bool denorm) {
  if (l > 140) denorm = false; // un-normalised values beyond double range
  uint64_t h0 = fs::harmful_fired();
  int rc = 0;
  double gm = 0, re = 0;
  bool nrm = true;
  note("[load] %s degree %d order %d of %d (file: %s)%s", path.c_str(), l, m, M.N, M.damage.c_str(), via_iface ? " via parse_gravity_model" : "");
#ifndef VAR
  if (via_iface) {
    rc = dso::parse_gravity_model(path.c_str(), l, m, *hc, denorm);
    if (!rc) { gm = hc->GM(); re = hc->Re(); nrm = hc->normalized(); }
  } else
#endif
  {
    denorm = false;
    dso::Icgem g(path.c_str());
    rc = g.parse_header();
    if (!rc && Wc(100)) { rc = g.parse_header(); }
    if (!rc) {
      if (!rc) rc = g.parse_data(l, m, hc) ? 20 : 0;
      if (!rc) {
        gm = g.gm(); re = g.earth_radius();
        if (g.degree() != M.N) fail("wrong-degree", "the header says degree %d, the model object says %d", M.N, g.degree());
#ifndef VAR
        nrm = hc->normalized();
        if (g.is_normalized() != M.normalized()) fail("wrong-normalisation", "the file says norm '%s', the model object says normalized=%d", M.norm.c_str(), g.is_normalized());
        gm = hc->GM(); re = hc->Re();
#endif
      }
    }
  }
  bool faulted = fs::harmful_fired() != h0;
  bool invalid = l > M.N || m > l;
  note("[load] -> %d", rc);
  observe_u(rc ? 2 : 1);
  count(rc ? "loads_failed" : "loads_ok");
  if (rc) {
    if (!faulted && !invalid && !M.damaged) fail("intact-load-failed", "an intact model (degree %d, order %d of %d) was refused with status %d", l, m, M.N, rc);
    nontrivial();
    return;
  }
  if (invalid) fail("beyond-model", "degree/order %d/%d were accepted for a model of degree %d", l, m, M.N);
  if (l > 0) nontrivial();
  if (!same_double(gm, M.gm) || !same_double(re, M.re)) fail("wrong-constants", "success reported but GM=%.17g (file %s), R=%.17g (file %s); file: %s", gm, M.gm_txt.c_str(), re, M.re_txt.c_str(), M.damage.c_str());
#ifndef VAR
  bool expn = M.normalized() && !denorm;
  if (nrm != expn) fail("wrong-normalisation", "normalized=%d but the file says norm='%s' (denormalize=%d)", nrm, M.norm.c_str(), denorm);
#endif
#ifndef VAR
  if (via_iface && hc->degree() != l) fail("wrong-degree", "degree %d was asked for, the container is of degree %d", l, hc->degree());
#endif
  bool conv = denorm && M.normalized();
  for (int n = 0; n <= l; n++)
    for (int k = 0; k <= std::min(n, m); k++) {
      double c = hc->C(n, k), ec = M.c[n][k];
      double s = k ? hc->S(n, k) : 0, es = k ? M.s[n][k] : 0;
      observe_d(c); observe_d(s);
      bool ok;
      if (conv && n > 0) { double q = nfac(n, k); ok = close_to(c, ec / q, 1e-12) && close_to(s, es / q, 1e-12); }
      else ok = same_double(c, ec) && same_double(s, es);
      if (!ok) fail("wrong-coefficient", "success reported but (C,S)(%d,%d) = (%.17g,%.17g), the file has (%.17g,%.17g); file: %s, read faults in this load: %d", n, k, c, s, ec, es, M.damage.c_str(), (int)faulted);
    }
}
std::unique_ptr<dso::HarmonicCoeffs> storage(int l) {
  int d = Wc(300) ? l + (int)W(4) : l;
  if (d < 1 && Wc(500)) d = 1;
  return std::unique_ptr<dso::HarmonicCoeffs>(new dso::HarmonicCoeffs(d));
}
void pick(const Model &M, int &l, int &m) {
  uint32_t k = W(10);
  l = k == 0 ? 0 : k == 1 ? 1 : k < 6 ? M.N : (int)W(M.N + 1);
  if (Wc(30)) l = M.N + 1 + W(2);
  m = Wc(600) ? l : (int)W(l + 1);
  if (Wc(20)) m = l + 1;
}
void g01() {
  Model M;
  bool dmg = Wc(500);
  make(M, dmg ? "x" : nullptr, 1);
  fs::put("/sim/model.gfc", M.file);
  uint32_t cfg = draw(CONF, 4);
  if (cfg == 1) swarm_benign();
  else if (cfg == 2) swarm_read_faults();
  else if (cfg == 3) { swarm_benign(); fs::bad_sector("/sim/model.gfc", draw(FAULT, M.file.size() + 1)); }
  int l, m;
  pick(M, l, m);
  bool via = Wc(400), den = Wc(400);
  lone([&] {
    auto hc = storage(std::max(l, 0));
    if (den && l < 1) den = false;
    load(M, "/sim/model.gfc", l, m, hc.get(), via, den);
  });
}
void g02() {
  int nm = 1 + W(3);
  std::vector<Model> ms(nm);
  for (int i = 0; i < nm; i++) { make(ms[i], Wc(150) ? "x" : nullptr, 1 + i); fs::put(fmt("/sim/m%d.gfc", i), ms[i].file); }
  uint32_t cfg = draw(CONF, 4);
  if (cfg == 1) swarm_benign();
  else if (cfg >= 2) swarm_read_faults();
  if (draw(CONF, 3)) set_preempt_rate(200 << draw(CONF, 8));
  int nt = Wc(700) ? 2 + (int)W(2) : 1;
  for (int t = 0; t < nt; t++) {
    int nl = 1 + W(nt == 1 ? 5 : 3);
    struct Op { int mod, l, m; bool via, den, fresh; };
    std::vector<Op> ops;
    for (int i = 0; i < nl; i++) { Op o; o.mod = W(nm); pick(ms[o.mod], o.l, o.m); o.via = Wc(500); o.den = o.l > 0 && Wc(400); o.fresh = Wc(300); ops.push_back(o); }
    spawn(fmt("loader%d", t).c_str(), [&ms, ops] {
      std::unique_ptr<dso::HarmonicCoeffs> hc;
      for (auto &o : ops) {
        if (!hc || o.fresh) hc = std::unique_ptr<dso::HarmonicCoeffs>(new dso::HarmonicCoeffs(o.l < 1 ? 1 : o.l));
#ifdef VAR
        if (hc->degree() < o.l) hc = std::unique_ptr<dso::HarmonicCoeffs>(new dso::HarmonicCoeffs(o.l));
#else
        if (!o.via && (hc->degree() < o.l)) hc->resize(o.l);
#endif
        load(ms[o.mod], fmt("/sim/m%d.gfc", o.mod), o.l, o.m, hc.get(), o.via, o.den);
        yield_point("between");
      }
    });
  }
  run_tasks();
  // recovery: storage healthy again, the same models load
  fs::faults = fs::Faults();
  set_preempt_rate(0);
  lone([&] {
    for (int i = 0; i < nm; i++) if (!ms[i].damaged) {
      dso::HarmonicCoeffs hc(ms[i].N);
      load(ms[i], fmt("/sim/m%d.gfc", i), ms[i].N, ms[i].N, &hc, false, false);
    }
  });
}
} // namespace
int main(int argc, char **argv) {
  const char *rule = "a run is non-trivial when a load was refused, or succeeded with degree above 0 so that coefficients were compared";
  return main_driver(argc, argv, {{"G01", g01, rule}, {"G02", g02, rule}});
}
