// D01: beacon coordinates extrapolated from solutions on simulated storage
#include "../sim/sim.hpp"
#include "doris_utils.hpp"
#include <cmath>
using namespace sim;
namespace {
struct Site { std::string id; bool listed = true, complete = true; double x[3], v[3]; long ref[3]; };
struct Sol { std::vector<Site> s; std::string text, damage = "none"; bool damaged = false; };
void make(Sol &F, int tag, bool may_damage) {
  Rng r = Wrng();
  int n = 1 + (int)W(12);
  for (int i = 0; i < n; i++) {
    Site s; s.id = fmt("%c%c%c%c", 'A' + (int)r.below(26), 'A' + (int)r.below(26), 'A' + i, "ABC"[r.below(3)]);
    if (i && r.below(3) == 0) { s.id = F.s[r.below(i)].id; for (int k = 0; k < i; k++) if (F.s[k].id == s.id) s.id[3] = 'A' + (s.id[3] - 'A' + 1) % 26, k = -1; } // a neighbour of another site
    long ref = 51000 + r.below(4000);
    for (int k = 0; k < 3; k++) { s.x[k] = strtod(fmt("%21.14E", (r.u() - .5) * 1.2e7).c_str(), 0); s.v[k] = strtod(fmt("%21.14E", (r.u() - .5) * .2).c_str(), 0); s.ref[k] = r.below(12) ? ref : ref + r.below(500);  }
    F.s.push_back(s);
  }
  std::string t = "%=SNX 2.01 IDS 20:001:00000 IDS 93:003:00000 19:364:86370 D 00144 0 S\n*---\n+FILE/COMMENT\n generated\n-FILE/COMMENT\n+SITE/ID\n*CODE PT __DOMES__ T\n";
  std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
  for (int i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  for (int i : ord) t += fmt(" %s  A %05dS%03d D station %d\n", F.s[i].id.c_str(), (int)r.below(99999), (int)r.below(999), i);
  t += "-SITE/ID\n";
  int dmg = may_damage ? 1 + (int)W(5) : 0; int vic = W(n), vc = W(6), alt = W(3);
  std::string e = "+SOLUTION/ESTIMATE\n*INDEX _TYPE_ CODE PT SOLN _REF_EPOCH__ UNIT S ESTIMATED_VALUE______ STD_DEV____\n";
  int ix = 0;
  if (r.below(2)) for (int i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  for (int i : ord) for (int k = 0; k < 6; k++) {
    auto &s = F.s[i];
    long ref = k < 3 || r.below(6) ? s.ref[k % 3] : s.ref[k % 3] + r.below(900); int Y, M, D; dso::mjd2ymd(ref, Y, M, D); long doy = ref - dso::ymd2mjd(Y, 1, 1) + 1;
    std::string ty = fmt("%s%c", k < 3 ? "STA" : "VEL", 'X' + k % 3), un = k < 3 ? "m   " : "m/y ";
    if (dmg == 1 && i == vic && k == vc) { F.damage = "no " + ty + " of " + s.id; F.damaged = true; s.complete = false; continue; }
    if (dmg == 2 && i == vic && k == vc) { F.damage = ty + " of " + s.id + " in other units"; F.damaged = true; s.complete = false; un = k < 3 ? (alt ? alt == 1 ? "mas " : "km  " : "mm  ") : (alt ? alt == 1 ? "m   " : "m/d " : "mm/y"); }
    e += fmt(" %5d %-6s %s  A    1 %02d:%03ld:%05d %s 2 %21.14E %11.5E\n", ++ix, ty.c_str(), s.id.c_str(), Y % 100, doy, 0, un.c_str(), k < 3 ? s.x[k] : s.v[k - 3], 0.001);
    F.s[i] = s;
  }
  e += "-SOLUTION/ESTIMATE\n";
  if (dmg == 3) { F.damage = "no solution block"; F.damaged = true; e = ""; }
  t += e + "%ENDSNX\n";
  if (dmg == 4) { size_t cut = W(t.size() - 30); F.damage = fmt("cut after %zu of %zu bytes", cut, t.size()); F.damaged = true; t.resize(cut); }
  if (dmg == 5) { F.damage = "empty"; F.damaged = true; t = ""; }
  F.text = t;
  note("solution %d: %d sites, %s", tag, n, F.damage.c_str());
}
void d01() {
  int nf = 1 + (int)W(2);
  std::vector<Sol> F(nf);
  for (int i = 0; i < nf; i++) { make(F[i], i, Wc(250)); fs::put(fmt("/sim/dpod%d.snx", i), F[i].text); }
  uint32_t cfg = draw(CONF, 4);
  if (cfg == 1) swarm_benign();
  else if (cfg == 2) swarm_read_faults();
  else if (cfg == 3) { swarm_benign(); fs::bad_sector("/sim/dpod0.snx", draw(FAULT, F[0].text.size() + 1)); }
  if (draw(CONF, 3)) set_preempt_rate(100 << draw(CONF, 8));
  auto one = [&](Rng &r, const char *who, std::vector<dso::BeaconCoordinates> &out) {
    int f = r.below(nf); bool gone = r.below(20) == 0; const Sol &S = F[f];
    std::vector<dso::BeaconStation> b; std::vector<int> site; int missing = 0, broken = 0;
    std::vector<int> ix; for (int i = 0; i < (int)S.s.size(); i++) ix.push_back(i);
    for (int i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[r.below(i)]);
    int take = 1 + r.below(ix.size()); if (r.below(40) == 0) take = 0;
    bool extra = r.below(3) == 0;
    for (int i = 0; i < take; i++) {
      if (extra && r.below(3) == 0) { dso::BeaconStation m; memcpy(m.m_station_id, (r.below(2) ? S.s[r.below(S.s.size())].id.substr(0, 3) + (char)('0' + i % 10) : fmt("%c%c9X", 'A' + (int)r.below(26), 'A' + i)).c_str(), 4); b.push_back(m); site.push_back(-1); missing++; }
      dso::BeaconStation m; memcpy(m.m_station_id, S.s[ix[i]].id.c_str(), 4); b.push_back(m); site.push_back(ix[i]); broken += !S.s[ix[i]].complete;
    }
    bool strict = r.below(2); long day = 48000 + r.below(13000); long ns = r.below(4) ? (long)(r.u() * 86400e9) / 1000 * 1000 : 0;
    dso::datetime<dso::nanoseconds> t{dso::modified_julian_day(day), dso::nanoseconds(ns)};
    std::string path = gone ? "/sim/none.snx" : fmt("/sim/dpod%d.snx", f);
    uint64_t h0 = fs::harmful_fired();
    abort_sig = "process-ended";
    int rc = r.below(2) ? dso::extrapolate_sinex_coordinates(path.c_str(), b, t, out, strict) : dso::extrapolate_sinex_coordinates(path.c_str(), b, t.cast_to<dso::microseconds>(), out, strict);
    abort_sig = nullptr;
    note("%s: %zu stations (%d unknown, %d incomplete) from solution %d%s, %s -> %d, %zu results", who, b.size(), missing, broken, f, gone ? " (missing file)" : "", strict ? "strict" : "lenient", rc, out.size());
    bool harm = fs::harmful_fired() != h0 || fs::harmful_fired();
    if (rc == 0) {
      if (gone) fail("missing-file-accepted", "%s: success without a file", who);
      if (strict && missing) fail("missing-station-accepted", "%s: success although %d stations are unknown", who, missing);
      if (strict && broken) fail("incomplete-station-accepted", "%s: success although %d stations have no complete solution (%s)", who, broken, S.damage.c_str());
      if (out.size() > b.size()) fail("extra-results", "%s: %zu results for %zu stations", who, out.size(), b.size());
      size_t k = 0;
      for (size_t i = 0; i < b.size(); i++) {
        if (site[i] < 0) continue;
        const Site &s = S.s[site[i]];
        if (!s.complete) { if (k < out.size() && !strncmp(out[k].id, s.id.c_str(), 4)) fail("wrong-coordinates", "%s: coordinates for %s without a complete solution (%s)", who, s.id.c_str(), S.damage.c_str()); continue; }
        if (k >= out.size()) fail("station-lost", "%s: success, but no coordinates for %s", who, s.id.c_str());
        auto &o = out[k++];
        if (strncmp(o.id, s.id.c_str(), 4) || o.id[4]) fail("wrong-station", "%s: result %zu is %.4s, expected %s", who, k - 1, o.id, s.id.c_str());
        const double *g[] = {&o.x, &o.y, &o.z};
        for (int c = 0; c < 3; c++) {
          long double w = s.x[c] + s.v[c] * (((day - s.ref[c]) + ns / 86400e9L) / 365.25L);
          observe_d(*g[c]);
          if (!(std::fabs((double)(*g[c] - w)) < 1e-8)) fail("wrong-coordinates", "%s: %c of %s is %.9f, expected %.9f", who, 'x' + c, s.id.c_str(), *g[c], (double)w);
        }
      }
      if (k != out.size()) fail("extra-results", "%s: %zu results, %zu stations known", who, out.size(), k);
      count("coordinates compared", k); nontrivial();
    } else {
      if (!gone && !harm && !S.damaged && !(strict && missing)) fail("spurious-failure", "%s: error %d although the solution is intact (%d unknown stations, %s)", who, rc, missing, strict ? "strict" : "lenient");
      count("failures"); nontrivial();
    }
  };
  max_edges = edges() + 100000000;
  int nt = 1 + (int)W(3), calls = 1 + (int)W(4); uint64_t seed = W(1u << 30);
  if (nt == 1) lone([&] { Rng r(seed); std::vector<dso::BeaconCoordinates> out; for (int c = 0; c < calls; c++) one(r, "caller", out); });
  else { for (int i = 0; i < nt; i++) spawn(fmt("caller %d", i).c_str(), [&, i] { Rng r(seed * 7 + i); std::vector<dso::BeaconCoordinates> out; std::string n = fmt("caller %d", i); for (int c = 0; c < calls; c++) one(r, n.c_str(), out); }); run_tasks(); }
}
} // namespace
int main(int argc, char **argv) { return main_driver(argc, argv, {{"D01", d01, "a run counts if coordinates were compared or a failure judged"}}); }
