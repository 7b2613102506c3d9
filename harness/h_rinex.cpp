// R01, R02: the real observation-file reader over simulated storage
#include "../sim/sim.hpp"
#include "doris_rinex.hpp"
#include "datetime/datetime_write.hpp"
#include "rinex_gen.hpp"
#include <memory>
#include <stdexcept>
using namespace sim;
namespace {
template <class Fn> std::string printed(Fn f) {
  char *buf = nullptr; size_t len = 0;
  FILE *keep = stdout; stdout = open_memstream(&buf, &len);
  f();
  fclose(stdout); stdout = keep;
  std::string out(buf, len); free(buf);
  return out;
}
void same_header(const File &F, const dso::DorisObsRinex &x) {
  auto &c = x.observation_codes();
  if (c.size() != F.codes.size()) fail("wrong-header", "%zu observables, the file has %zu", c.size(), F.codes.size());
  for (size_t i = 0; i < c.size(); i++) {
    std::string s(1, dso::ObservationType_to_char(c[i].type())); if (c[i].has_frequency()) s += fmt("%d", (int)c[i].m_freq);
    if (s != F.codes[i]) fail("wrong-header", "observable %zu is %s, the file has %s", i, s.c_str(), F.codes[i].c_str());
    { std::unique_ptr<char[]> b(new char[3]); const char *o = c[i].to_str(b.get()); std::string w = F.codes[i].size() < 2 ? F.codes[i] + "0" : F.codes[i]; if (o != b.get() || w != o) fail("wrong-header", "observable %s is printed as %s", w.c_str(), o); }
    if (x.get_observation_code_index(c[i]) != (int)i) fail("wrong-header", "index of observable %s is %d instead of %zu", s.c_str(), x.get_observation_code_index(c[i]), i);
  }
  auto &st = x.stations();
  if (st.size() != F.sta.size()) fail("wrong-header", "%zu stations, the file has %zu", st.size(), F.sta.size());
  for (size_t i = 0; i < st.size(); i++) {
    const Sta &e = F.sta[i];
    std::string nm(st[i].m_station_name, strnlen(st[i].m_station_name, 30)), dm(st[i].m_station_domes, strnlen(st[i].m_station_domes, 10));
    { std::unique_ptr<char[]> b(new char[53]); const char *o = st[i].to_str(b.get()); std::string w = "[" + e.code + "/" + e.id + "_" + e.domes.substr(0, 9) + "](" + e.name + ")"; if (o != b.get() || w != o) fail("wrong-header", "station %zu is printed as %s instead of %s", i, o, w.c_str()); }
    int k = 0;
    if (std::string(st[i].m_internal_code, 3) != e.code || std::string(st[i].m_station_id, 4) != e.id || nm != e.name || dm != e.domes || st[i].m_type != e.type || st[i].m_shift_factor != e.shift)
      fail("wrong-header", "station %zu is %.3s %.4s '%s' %s %d %d, the file has %s %s '%s' %s %d %d", i, st[i].m_internal_code, st[i].m_station_id, nm.c_str(), dm.c_str(), (int)st[i].m_type, st[i].m_shift_factor, e.code.c_str(), e.id.c_str(), e.name.c_str(), e.domes.c_str(), e.type, e.shift);
    const char *id = x.beacon_internal_id2id(e.code.c_str()), *in = x.beacon_id2internal_id(e.id.c_str());
    auto bs = x.beacon_internal_id2BeaconStation(e.code.c_str());
    if (bs == st.cend() || std::string(bs->m_station_id, 4) != e.id) fail("wrong-header", "looking up station %s gives another station", e.code.c_str());
    if (st[i].type() != (e.id[3] == 'A' ? dso::GroundAntennaType::Alcatel : e.id[3] == 'B' ? dso::GroundAntennaType::Starec_B : dso::GroundAntennaType::Starec_C)) fail("wrong-header", "antenna of station %s", e.id.c_str());
    if (!id || strncmp(id, e.id.c_str(), 4) || !in || strncmp(in, e.code.c_str(), 3) || x.beacon_shift_factor(e.code.c_str(), k) || k != e.shift) fail("wrong-header", "looking up station %s/%s gives another station", e.code.c_str(), e.id.c_str());
  }
  if (x.time_of_first_obs() != F.first) fail("wrong-header", "time of first observation %.12f, the file has %.12f", x.time_of_first_obs().as_mjd(), F.first.as_mjd());
  if (F.has_ref && x.ref_datetime() != F.ref) fail("wrong-header", "reference epoch %.12f, the file has %.12f", x.ref_datetime().as_mjd(), F.ref.as_mjd());
  if (x.receiver_clock_offsets_applied() != (F.has_applied && F.applied)) fail("wrong-header", "clock offsets applied: %d, the file has %d", x.receiver_clock_offsets_applied(), F.applied);
  if (x.l21_date_offset().as_underlying_type() != std::llround((F.has_l12 ? F.l12 : 0) * 1e3)) fail("wrong-header", "L2/L1 offset %ld ns, the file has %.3f us", x.l21_date_offset().as_underlying_type(), F.l12);
}
void same_metadata(const File &F, const dso::DorisObsRinex &x) {
  std::string out = printed([&] { x.print_metadata(); }), want = fmt("Satellite Name: %s\nCOSPAR NR     : %s\nRecvr Chain   : %s\nRecvr Type    : %s\nRecvr Version : %s\nAntenna Type  : STAREC\nAntenna Number: DORIS\n", F.sat.c_str(), F.cospar.c_str(), F.chain.c_str(), F.type.c_str(), F.vers.c_str());
  want += fmt("Apprx Position: [%.3f, %.3f, %.3f]\nMass Center   : [%.3f, %.3f, %.3f]\n", (float)F.pos[0], (float)F.pos[1], (float)F.pos[2], (float)F.cm[0], (float)F.cm[1], (float)F.cm[2]);
  size_t a = out.find("Satellite Name"), b = out.find("Obs. Codes");
  if (a == std::string::npos || b == std::string::npos || out.substr(a, b - a) != want) fail("wrong-header", "the description printed is\n%s, the file has\n%s", out.c_str(), want.c_str());
}
void same_epoch(const Epoch &E, size_t i, const dso::RinexDataRecordHeader &h, const char *who) {
  if (h.m_epoch != E.t) fail("wrong-epoch", "%s: block %zu has time %.14f, the file has %.14f", who, i, h.m_epoch.as_mjd(), E.t.as_mjd());
  if (h.m_flag != E.flag || h.m_clock_flag != E.clkflag || h.m_num_stations != (int)E.b.size()) fail("wrong-epoch", "%s: block %zu has flags %d/%d and %d beacons, the file has %d/%d and %zu", who, i, (int)h.m_flag, (int)h.m_clock_flag, (int)h.m_num_stations, E.flag, E.clkflag, E.b.size());
  double eo = E.hasoff ? E.off : dso::RECEIVER_CLOCK_OFFSET_MISSING;
  if (!same_double(h.m_clock_offset, eo)) fail("wrong-epoch", "%s: block %zu has clock offset %.17g, the file has %.17g", who, i, h.m_clock_offset, eo);
}
void same_block(const File &F, size_t i, const dso::RinexDataBlockIterator &it, const char *who) {
  const Epoch &E = F.ep[i];
  same_epoch(E, i, it.cheader, who);
  if (it.cblock.size() != E.b.size()) fail("wrong-block", "%s: block %zu has %zu beacons, the file has %zu", who, i, it.cblock.size(), E.b.size());
  for (size_t b = 0; b < E.b.size(); b++) {
    auto &g = it.cblock[b];
    if (std::string(g.id(), 3) != E.b[b].id) fail("wrong-block", "%s: beacon %zu of block %zu is %.3s, the file has %s", who, b, i, g.id(), E.b[b].id.c_str());
    if (g.m_values.size() != E.b[b].v.size()) fail("wrong-block", "%s: %zu values for beacon %s of block %zu, the file has %zu", who, g.m_values.size(), E.b[b].id.c_str(), i, E.b[b].v.size());
    for (size_t o = 0; o < g.m_values.size(); o++) {
      auto &v = g.m_values[o]; auto &e = E.b[b].v[o];
      double ev = e.missing ? dso::OBSERVATION_VALUE_MISSING : e.v;
      observe_d(v.m_value);
      if (!same_double(v.m_value, ev)) fail(e.missing ? "missing-not-marked" : "wrong-value", "%s: %s of beacon %s in block %zu is %.17g, the file has %s%.17g", who, F.codes[o].c_str(), E.b[b].id.c_str(), i, v.m_value, e.missing ? "no value: " : "", ev);
      if (v.m_flag1 != e.f1 || v.m_flag2 != e.f2) fail("wrong-flag", "%s: flags of %s of beacon %s in block %zu are '%c%c', the file has '%c%c'", who, F.codes[o].c_str(), E.b[b].id.c_str(), i, v.m_flag1, v.m_flag2, e.f1, e.f2);
    }
  }
  for (auto &st : F.sta) {
    auto p = const_cast<dso::RinexDataBlockIterator &>(it).contains_beacon(st.code.c_str());
    size_t b = 0; while (b < E.b.size() && E.b[b].id != st.code) b++;
    if ((size_t)(p - const_cast<dso::RinexDataBlockIterator &>(it).cblock.begin()) != b) fail("wrong-beacon", "%s: beacon %s of block %zu is looked up wrongly", who, st.code.c_str(), i);
  }
  if (it.proper_time() != E.t) fail("wrong-epoch", "%s: proper time of block %zu", who, i);
  // times derived from the block
  { auto hd = it.cheader; hd.apply_clock_offset(); auto tc = E.t; if (E.hasoff) tc.add_seconds(dso::nanoseconds(std::llround(E.off * 1e9)));
    if (hd.m_epoch != tc) fail("wrong-corrected-time", "%s: applying the clock offset of block %zu leaves the epoch %ld ns off", who, i, hd.m_epoch.delta_sec(tc).as_underlying_type()); }
  auto t1 = E.t;
  if (!(F.has_applied && F.applied) && E.hasoff) t1.add_seconds(dso::nanoseconds(std::llround(E.off * 1e9)));
  auto g1 = it.corrected_l1_epoch();
  dso::datetime<dso::nanoseconds> g2, g1b = it.corrected_l1_epoch(g2);
  auto t2 = t1; t2.add_seconds(dso::nanoseconds(std::llround((F.has_l12 ? F.l12 : 0) * 1e3)));
  if (g1 != t1 || g1b != t1 || g2 != t2) fail("wrong-corrected-time", "%s: corrected epochs of block %zu are off by %ld, %ld, %ld ns", who, i, g1.delta_sec(t1).as_underlying_type(), g1b.delta_sec(t1).as_underlying_type(), g2.delta_sec(t2).as_underlying_type());
}
struct Reader {
  const File *F; std::string who, path;
  std::unique_ptr<dso::DorisObsRinex> x; std::unique_ptr<dso::RinexDataBlockIterator> it;
  size_t at = 0; bool over = false, gap = false, meta = false;
  bool open() {
    try { x.reset(new dso::DorisObsRinex(path.c_str())); }
    catch (std::runtime_error &) {
      if (!F->bad_header && !F->any_header && !fs::harmful_fired()) fail("intact-file-refused", "%s: the file (%s) was refused", who.c_str(), F->damage.c_str());
      note("%s: refused", who.c_str()); over = true; count("files refused"); nontrivial();
      return false;
    }
    if (F->bad_header) fail("damaged-header-accepted", "%s: accepted a file with a damaged header (%s)", who.c_str(), F->damage.c_str());
    same_header(*F, *x);
    if (meta) same_metadata(*F, *x);
    it.reset(new dso::RinexDataBlockIterator(x.get()));
    return true;
  }
  void ended(int rc) {
    over = true;
    note("%s: block %zu -> %d", who.c_str(), at, rc);
    if (rc == -1) {
      if (at < F->bad_from || !F->end_ok || gap) fail("early-end-of-data", "%s: end of data reported after %zu of %zu blocks (%s, read faults %d)", who.c_str(), at, F->ep.size(), F->damage.c_str(), (int)fs::harmful_fired());
      count("ends of data");
    } else {
      if (!fs::harmful_fired() && at < F->bad_from && at != F->maybe) fail("intact-block-refused", "%s: block %zu of %zu refused with %d (%s)", who.c_str(), at, F->ep.size(), rc, F->damage.c_str());
      if (!fs::harmful_fired() && !F->damaged) fail("error-at-end", "%s: error %d instead of end of data after %zu blocks", who.c_str(), rc, at);
      count("blocks refused");
    }
    observe_u(rc + 100);
  }
  void next() {
    int rc = it->next();
    if (rc) return ended(rc);
    if (at >= F->bad_from) fail("damaged-block-delivered", "%s: block %zu was delivered although the file is damaged: %s", who.c_str(), at, F->damage.c_str());
    same_block(*F, at, *it, who.c_str());
    at++; count("blocks delivered"); nontrivial();
  }
  void skip() {
    char line[dso::DorisObsRinex::MAX_RECORD_CHARS];
    if (!x->stream().getline(line, sizeof line)) return ended(x->stream().eof() ? -1 : 1);
    if (x->stream().eof()) return ended(1);
    dso::RinexDataRecordHeader h;
    if (int e = x->resolve_data_epoch(line, h)) return ended(2 + e);
    if (at >= F->ep.size()) fail("damaged-block-delivered", "%s: an epoch after the last", who.c_str());
    same_epoch(F->ep[at], at, h, who.c_str());
    x->skip_data_block(h);
    if (at >= F->bad_from) gap = true; // never to be mistaken for a complete file
    at++; count("blocks skipped");
  }
};
void r01() {
  File F;
  make(F, Wc(500), 1);
  fs::put("/sim/obs.rnx", F.text);
  uint32_t cfg = draw(CONF, 4);
  if (cfg == 1) swarm_benign();
  else if (cfg == 2) swarm_read_faults();
  else if (cfg == 3) { swarm_benign(); fs::bad_sector("/sim/obs.rnx", draw(FAULT, F.text.size() + 1)); }
  if (Wc(200)) errno = ERANGE; // whatever the caller did before
  lone([&] {
    Reader R; R.F = &F; R.who = "reader"; R.path = "/sim/obs.rnx"; R.meta = !F.cospar.empty();
    if (R.open()) { max_edges = edges() + 20000000; while (!R.over) R.next(); }
  });
}
void r02() {
  int nf = 1 + (int)W(3);
  std::vector<File> fs_(nf);
  for (int i = 0; i < nf; i++) { make(fs_[i], Wc(250), i); fs::put(fmt("/sim/o%d.rnx", i), fs_[i].text); }
  uint32_t cfg = draw(CONF, 4);
  if (cfg == 1) swarm_benign();
  else if (cfg == 2) swarm_read_faults();
  if (draw(CONF, 3)) set_preempt_rate(200 << draw(CONF, 8));
  int nr = 2 + (int)W(3);
  std::vector<int> which; std::vector<int> skips; for (int i = 0; i < nr; i++) { which.push_back(W(nf)); skips.push_back(fs_[which[i]].damaged && fs_[which[i]].damage.compare(0, 3, "cut") ? 0 : (int)W(600)); }
  auto mk = [&](int i) { auto R = std::make_shared<Reader>(); R->F = &fs_[which[i]]; R->who = fmt("reader %d", i); R->path = fmt("/sim/o%d.rnx", which[i]); return R; };
  max_edges = edges() + 100000000;
  if (Wc(600)) { // one task each
    for (int i = 0; i < nr; i++) {
      uint64_t seed = W(1u << 30); int sk = skips[i];
      spawn(fmt("reader %d", i).c_str(), [&, i, seed, sk] { Rng r(seed); auto R = mk(i); if (R->open()) while (!R->over) { if ((int)r.below(1000) < sk) R->skip(); else R->next(); yield_point("block"); } });
    }
    run_tasks();
  } else { // one task, calls in any order
    lone([&] {
      std::vector<std::shared_ptr<Reader>> all;
      for (int i = 0; i < nr; i++) { auto R = mk(i); if (R->open()) all.push_back(R); }
      while (!all.empty()) {
        size_t k = W(all.size());
        if ((int)W(1000) < skips[all[k]->who.back() - '0']) all[k]->skip(); else all[k]->next();
        if (all[k]->over) all.erase(all.begin() + k);
      }
    });
  }
}

// R03: Doppler counts, one line per pair of consecutive observations of a beacon
struct Count { size_t block; std::string id; double mjd, d1, d2, dt; };
std::vector<Count> expected_counts(const File &F) {
  std::vector<Count> R;
  int i1 = -1, i2 = -1;
  for (size_t i = 0; i < F.codes.size(); i++) { if (F.codes[i] == "L1") i1 = i; if (F.codes[i] == "L2") i2 = i; }
  if (i1 < 0 || i2 < 0) return R;
  std::map<std::string, std::pair<dso::datetime<dso::nanoseconds>, const Beacon *>> last;
  for (size_t e = 0; e < F.ep.size(); e++) {
    for (auto &b : F.ep[e].b) {
      auto it = last.find(b.id);
      if (it == last.end()) continue;
      auto &o = *it->second.second;
      if (b.v[i1].missing || b.v[i2].missing || o.v[i1].missing || o.v[i2].missing) continue;
      R.push_back({e, b.id, F.ep[e].t.as_mjd(), b.v[i1].v - o.v[i1].v, b.v[i2].v - o.v[i2].v, F.ep[e].t.delta_sec(it->second.first).as_underlying_type() / 1e9});
    }
    for (auto &b : F.ep[e].b) last[b.id] = {F.ep[e].t, &b};
  }
  return R;
}
void r03() {
  File F;
  make(F, Wc(400), 1);
  fs::put("/sim/obs.rnx", F.text);
  uint32_t cfg = draw(CONF, 4);
  if (cfg == 1) swarm_benign();
  else if (cfg == 2) swarm_read_faults();
  else if (cfg == 3) { swarm_benign(); fs::bad_sector("/sim/obs.rnx", draw(FAULT, F.text.size() + 1)); }
  int calls = 1 + (int)W(3), before = (int)W(3);
  bool has = std::find(F.codes.begin(), F.codes.end(), "L1") != F.codes.end() && std::find(F.codes.begin(), F.codes.end(), "L2") != F.codes.end();
  auto want = expected_counts(F);
  lone([&] {
    Reader R; R.F = &F; R.who = "reader"; R.path = "/sim/obs.rnx";
    if (!R.open()) return;
    max_edges = edges() + 50000000;
    for (int i = 0; i < before && !R.over; i++) R.next(); // some blocks may have been read already
    for (int c = 0; c < calls; c++) {
      int rc;
      std::string out = printed([&] { rc = R.x->get_doppler_counts(); });
      std::vector<std::string> L;
      for (size_t a = 0, b; a < out.size(); a = b + 1) { b = out.find('\n', a); if (b == std::string::npos) b = out.size(); if (out.compare(a, 6, "Number")) L.push_back(out.substr(a, b - a)); }
      note("counts: %d, %zu lines, %zu expected", rc, L.size(), want.size());
      for (size_t i = 0; i < L.size(); i++) {
        char id[64]; double m, d1, d2, dt;
        if (sscanf(L[i].c_str(), "%60s %lf %lf %lf %lf", id, &m, &d1, &d2, &dt) != 5) fail("wrong-line", "line %zu: %s", i, L[i].c_str());
        if (i >= want.size()) fail("extra-count", "line %zu: %s, but the file holds %zu pairs", i, L[i].c_str(), want.size());
        auto &w = want[i];
        if (w.block >= F.bad_from) fail("damaged-block-used", "line %zu (%s) comes from block %zu, damaged: %s", i, L[i].c_str(), w.block, F.damage.c_str());
        if (w.id != id || !close_to(m, w.mjd, 0, 6e-6) || !close_to(d1, w.d1, 1e-12, 6e-6) || !close_to(d2, w.d2, 1e-12, 6e-6) || !close_to(dt, w.dt, 1e-12, 6e-8)) fail("wrong-count", "line %zu: %s, expected %s %.5f %.5f %.5f %.7f", i, L[i].c_str(), w.id.c_str(), w.mjd, w.d1, w.d2, w.dt);
        observe_d(d1); observe_d(dt);
      }
      if (rc == 0) {
        if (!has) fail("no-phases", "success without both phases");
        size_t n = 0; for (auto &w : want) n += w.block < F.bad_from;
        if (L.size() != n) fail("counts-missing", "success with %zu of %zu counts", L.size(), n);
        if (!F.end_ok) fail("damage-unnoticed", "success although the file is damaged (%s)", F.damage.c_str());
        count("count lists compared"); count("counts compared", L.size()); nontrivial();
      } else {
        if (has && !(F.damaged && F.damage != "none") && !fs::harmful_fired()) fail("intact-file-refused", "error %d for an intact file", rc);
        count("failures"); nontrivial();
      }
    }
  });
}
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {
    {"R01", r01, "a run counts if a block was delivered or a file was refused"},
    {"R03", r03, "a run counts if a list of counts was compared or a failure judged"},
    {"R02", r02, "a run counts if a block was delivered or a file was refused"},
  });
}
