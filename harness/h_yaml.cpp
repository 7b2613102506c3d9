// Y01: configuration look-ups over generated configurations, with failing allocations
#include "../sim/sim.hpp"
#include "var_utils.hpp"
#include <cmath>
#include <memory>
using namespace sim;
namespace {
typedef YAML::Node N;
N leaf(const std::string &s) { N n; n.d->type = YAML::NodeType::Scalar; n.d->scalar = s; return n; }
std::string word(Rng &r) {
  static const char *w[] = {"data", "foo", "bar", "gravity", "degree", "order", "model", "eop-file", "spk", "a", "", "data2", "dat", "Data", "station-list", "drag coefficient"};
  return w[r.below(16)];
}
std::string scalar(Rng &r) {
  switch (r.below(10)) {
  case 0: return "";
  case 1: return fmt("%d", (int)r.below(100000) - 50000);
  case 2: return fmt("%.17g", r.d(-1, 1) * pow(10, r.d(-9, 9)));
  case 3: return fmt("%de%d", (int)r.below(99), (int)r.below(20) - 10);
  case 4: return "12x";
  case 5: return "1 2";
  case 6: return std::string(1 + r.below(300), 'p') + "/file.dat";
  case 7: return r.below(2) ? "true" : "no";
  case 8: return "foo/bar.txt";
  default: return fmt("%d", (int)r.below(20));
  }
}
N tree(Rng &r, int depth) {
  N n; uint32_t k = r.below(10);
  if (depth == 0 ? k < 7 : k == 0) return leaf(scalar(r));
  if (k == 9) return n; // null
  if (k == 8) { n.d->type = YAML::NodeType::Sequence; for (int i = r.below(3); i--;) n.d->seq.push_back(leaf(scalar(r))); return n; }
  if (depth == 0) return leaf(scalar(r));
  n.d->type = YAML::NodeType::Map; for (int i = 1 + r.below(6); i--;) { std::string w = word(r); bool dup = false; for (auto &p : n.d->map) dup = dup || p.first == w; if (!dup) n.d->map.push_back({w, tree(r, depth - 1)}); }
  return n;
}
// what the configuration holds
const N *find(const N *n, const std::string &k) { if (!n || n->d->type != YAML::NodeType::Map) return nullptr; for (auto &p : n->d->map) if (p.first == k) return &p.second; return nullptr; }
template <class T> bool number(const N *n, T &v) {
  if (!n || n->d->type != YAML::NodeType::Scalar || n->d->scalar.empty()) return false;
  const char *c = n->d->scalar.c_str(); char *e; if (!(isdigit(*c) || *c == '-')) return false;
  if (std::is_same<T, int>::value) v = (T)strtol(c, &e, 0); else v = (T)strtod(c, &e);
  return !*e;
}
struct Keys { std::string k[3]; };
template <class T, class Get> void judge(const char *what, const N *n, bool have, const T &want, bool faulted, Get get) {
  T got{}; int rc = -1; bool thrown = false;
  try { rc = get(got); } catch (...) { thrown = true; }
  (void)n;
  if (thrown) { if (have && !faulted) fail("look-up-threw", "%s: an exception instead of the value", what); count("look-ups refused"); return; }
  if (rc) { if (have && !faulted) fail("value-not-found", "%s: error %d although the value is there", what, rc); count("look-ups refused"); observe_u(1); return; }
  if (!have) fail("value-from-nowhere", "%s: success although there is no such value", what);
  if (!(got == want)) fail("wrong-value", "%s: another value than in the configuration", what);
  count("values"); observe_u(2);
}
void y01() {
  uint64_t s = W(1u << 30); int calls = 1 + W(12); uint32_t faults = draw(CONF, 3);
  spawn("program", [s, calls, faults] {
    Rng r(s); N root = tree(r, 3);
    for (int c = 0; c < calls; c++) {
      // mostly a path that exists
      Keys q; const N *n = &root; int depth = 2 + r.below(2);
      for (int i = 0; i < depth; i++) { if (n && n->d->type == YAML::NodeType::Map && !n->d->map.empty() && r.below(5)) { auto &p = n->d->map[r.below(n->d->map.size())]; q.k[i] = p.first; n = &p.second; } else { q.k[i] = word(r); n = find(n, q.k[i]); } }
      std::string what = q.k[0] + "::" + q.k[1] + (depth == 3 ? "::" + q.k[2] : "");
      const char *a = q.k[0].c_str(), *b = q.k[1].c_str(), *d = q.k[2].c_str();
      bool sc = n && n->d->type == YAML::NodeType::Scalar;
      int fi = faults && r.below(3) == 0 ? 1 + (int)r.below(4) : -1; YAML::sim_seam::fail_in = fi; bool flt = fi > 0; if (flt) count("failing steps");
      note("%s%s", what.c_str(), flt ? " with a failing step" : "");
      switch (r.below(4)) {
      case 0: { int w = 0; bool have = number(n, w); judge<int>(what.c_str(), n, have, w, flt, [&](int &v) { return depth == 2 ? dso::get_yaml_value_depth2(root, a, b, v) : dso::get_yaml_value_depth3(root, a, b, d, v); }); break; }
      case 1: { double w = 0; bool have = number(n, w); judge<double>(what.c_str(), n, have, w, flt, [&](double &v) { return depth == 2 ? dso::get_yaml_value_depth2(root, a, b, v) : dso::get_yaml_value_depth3(root, a, b, d, v); }); break; }
      case 2: { std::string w = sc ? n->d->scalar : ""; judge<std::string>(what.c_str(), n, sc, w, flt, [&](std::string &v) { return depth == 2 ? dso::get_yaml_value_depth2(root, a, b, v) : dso::get_yaml_value_depth3(root, a, b, d, v); }); break; }
      default: { std::string w = sc ? n->d->scalar : ""; std::unique_ptr<char[]> buf(new char[w.size() + 1]); memset(buf.get(), 'j', w.size() + 1); // exactly as long as needed
        judge<std::string>(what.c_str(), n, sc, w, flt, [&](std::string &v) { int rc = depth == 2 ? dso::get_yaml_value_depth2(root, a, b, buf.get()) : dso::get_yaml_value_depth3(root, a, b, d, buf.get()); if (!rc) v = std::string(buf.get(), strnlen(buf.get(), w.size() + 1)); return rc; }); }
      }
      YAML::sim_seam::fail_in = -1;
      nontrivial();
    }
  });
  run_tasks();
}
} // namespace
int main(int argc, char **argv) { return main_driver(argc, argv, {{"Y01", y01, "a run counts if a value was looked up"}}); }
