// the simulated CSPICE toolkit: kernel list, error actions, constants, ephemerides
#pragma once
#include "../sim/sim.hpp"
#include "cppspice/SpiceUsr.h"
#include <algorithm>
#include <cmath>
using namespace sim;
namespace {
typedef long double LD;
// ------------------------------------------------------------ the simulated toolkit
enum Kind { LSK, SPK, TPCK, BPCK, META };
struct KFile { std::string name; Kind kind; bool good = true, gone = false; double gm[2] = {0, 0}; bool has[2] = {false, false}; int id = 0; bool cov[2] = {false, false}; std::vector<int> members; };
struct Entry { int file; std::string source; };
struct Kit {
  std::vector<KFile> files; std::vector<Entry> pool;
  bool ret = false, err = false;         // error action RETURN; error signalled
  uint32_t load_fail = 0, read_fail = 0; // permille
  size_t limit = 5300;
  // what happened since the last look
  int errors = 0, unexcused = 0, misuse = 0; bool conditional = false;
  std::string reason;
} kit;
int find(const std::string &n) { for (size_t i = 0; i < kit.files.size(); i++) if (kit.files[i].name == n) return (int)i; return -1; }
int loaded(int f) { int n = 0; for (auto &e : kit.pool) n += e.file == f; return n; }
const char *kindname(Kind k) { switch (k) { case SPK: return "SPK"; case BPCK: return "PCK"; case META: return "META"; default: return "TEXT"; } }
void signal_error(const char *why, bool ext = false) {
  kit.err = true; kit.errors++; kit.reason = why;
  note("[spice] error: %s%s", why, kit.ret ? "" : ", the toolkit ends the process");
  if (!kit.ret) crash_current();
}
bool kind_match(const char *list, Kind k) {
  std::string s; for (const char *p = list; *p; p++) s += (char)toupper(*p);
  size_t i = 0; while (i < s.size()) { while (i < s.size() && (s[i] == ' ' || s[i] == ',')) i++; size_t j = i; while (j < s.size() && s[j] != ' ' && s[j] != ',') j++; std::string t = s.substr(i, j - i); i = j; if (t == "ALL" || t == kindname(k)) return true; }
  return false;
}
// the ground truth: value of a constant, position of a body, offset of the time scale
int gm_source(int body) { for (size_t i = kit.pool.size(); i-- > 0;) { auto &f = kit.files[kit.pool[i].file]; if (f.kind == TPCK && f.has[body]) return kit.pool[i].file; } return -1; }
int spk_source(int body) { for (size_t i = kit.pool.size(); i-- > 0;) { auto &f = kit.files[kit.pool[i].file]; if (f.kind == SPK && f.cov[body]) return kit.pool[i].file; } return -1; }
bool have_lsk() { for (auto &e : kit.pool) if (kit.files[e.file].kind == LSK) return true; return false; }
void body_pos(int id, int body, LD et, LD *p) {
  LD a = body ? 384400.0L * (1 + 1e-3L * id) : 1.496e8L * (1 + 1e-3L * id), w = body ? 2.66e-6L : 1.991e-7L, ph = 0.7L * id + (body ? 1 : 0), inc = body ? 0.4L : 0.409L;
  LD u = w * et + ph, r = a * (1 - 0.05L * cosl(u * 0.9L));
  p[0] = r * cosl(u); p[1] = r * sinl(u) * cosl(inc); p[2] = r * sinl(u) * sinl(inc);
}
LD et_of(LD jd_tt) { LD t = (jd_tt - 2451545.0L) * 86400.0L; return t + 1.657e-3L * sinl(1.991e-7L * t + 6.24L); }
int body_of(int naif) { return naif == 10 ? 0 : naif == 301 ? 1 : -1; }
} // namespace
extern "C" {
void furnsh_c(const char *name) {
  yield_point("furnsh");
  if (kit.err) return;
  if (!name || !*name) return signal_error("empty file name");
  if (strlen(name) > 255) return signal_error("file name too long");
  int f = find(name);
  if (f >= 0 && kit.conditional && loaded(f)) { sim::fail("loaded-twice", "%s is loaded, and is loaded once more", name); }
  if (f < 0 || kit.files[f].gone) { count("fault.kernel_missing"); return signal_error("no such file"); }
  if (kit.load_fail && chance(FAULT, kit.load_fail)) { count("fault.kernel_load"); return signal_error("cannot read the file"); }
  if (!kit.files[f].good) { count("fault.kernel_damaged"); return signal_error("damaged file"); }
  if (kit.pool.size() >= kit.limit) { count("fault.kernel_table_full"); return signal_error("too many kernels"); }
  kit.pool.push_back({f, ""});
  note("[spice] %s loaded as %s", name, kindname(kit.files[f].kind));
  for (int m : kit.files[f].members) kit.pool.push_back({m, name});
}
void unload_c(const char *name) { if (kit.err) return; int f = find(name); for (size_t i = kit.pool.size(); i-- > 0;) if (kit.pool[i].file == f) { if (kit.files[f].kind == META) kit.pool.erase(std::remove_if(kit.pool.begin(), kit.pool.end(), [&](Entry &e) { return e.source == name; }), kit.pool.end()); for (size_t j = kit.pool.size(); j-- > 0;) if (kit.pool[j].file == f) { kit.pool.erase(kit.pool.begin() + j); break; } break; } }
void kclear_c(void) { if (!kit.err) kit.pool.clear(); }
void ktotal_c(const char *kind, int *n) { if (kit.err) return; *n = 0; for (auto &e : kit.pool) *n += kind_match(kind, kit.files[e.file].kind); }
static void put_str(char *o, int len, const std::string &s) { if (len > 0) { size_t n = std::min<size_t>(len - 1, s.size()); memcpy(o, s.data(), n); o[n] = 0; } }
void kdata_c(int which, const char *kind, int fl, int tl, int sl, char *file, char *typ, char *src, int *handle, int *found) {
  if (kit.err) return;
  *found = 0; int k = 0;
  for (size_t i = 0; i < kit.pool.size(); i++) { auto &f = kit.files[kit.pool[i].file]; if (!kind_match(kind, f.kind)) continue; if (k++ == which) { put_str(file, fl, f.name); put_str(typ, tl, kindname(f.kind)); put_str(src, sl, kit.pool[i].source); *handle = (f.kind == SPK || f.kind == BPCK) ? (int)i + 1 : 0; *found = 1; return; } }
}
void kinfo_c(const char *name, int tl, int sl, char *typ, char *src, int *handle, int *found) {
  if (kit.err) return; *found = 0;
  for (size_t i = 0; i < kit.pool.size(); i++) { auto &f = kit.files[kit.pool[i].file]; if (f.name != name) continue; put_str(typ, tl, kindname(f.kind)); put_str(src, sl, kit.pool[i].source); *handle = (f.kind == SPK || f.kind == BPCK) ? (int)i + 1 : 0; *found = 1; return; }
}
int failed_c(void) { return kit.err; }
void reset_c(void) { kit.err = false; }
void erract_c(const char *op, int, char *action) { std::string o = op, a = action; for (auto &c : o) c = toupper(c); for (auto &c : a) c = toupper(c); if (o == "SET") kit.ret = a == "RETURN"; }
void getmsg_c(const char *, int n, char *msg) { put_str(msg, n, kit.reason); }
void bodvcd_c(int body, const char *item, int maxn, int *dim, double *v) {
  if (kit.err) return;
  int b = body_of(body), f = b < 0 || strcasecmp(item, "GM") ? -1 : gm_source(b);
  if (b < 0 || strcasecmp(item, "GM") || maxn < 1) kit.misuse++;
  if (f < 0) return signal_error("no such constant");
  if (maxn < 1) return signal_error("array too short");
  *dim = 1; *v = kit.files[f].gm[b];
}
void bodvrd_c(const char *name, const char *item, int maxn, int *dim, double *v) { if (kit.err) return; if (!strcasecmp(name, "SUN")) bodvcd_c(10, item, maxn, dim, v); else if (!strcasecmp(name, "MOON")) bodvcd_c(301, item, maxn, dim, v); else { kit.misuse++; signal_error("no such body"); } }
double unitim_c(double e, const char *in, const char *out) {
  if (kit.err) return 0;
  if (!have_lsk()) { signal_error("no leap second kernel"); return 0; }
  std::string i = in, o = out; LD jd;
  if (i == "JDTDT") jd = e; else if (i == "TDT" || i == "TT") jd = 2451545.0L + e / 86400.0L; else if (i == "TAI") jd = 2451545.0L + (e + 32.184L) / 86400.0L; else { kit.misuse++; signal_error("unknown time scale"); return 0; }
  if (o != "ET" && o != "TDB") { kit.misuse++; signal_error("unknown time scale"); return 0; }
  return (double)et_of(jd);
}
void spkezp_c(int targ, double et, const char *ref, const char *corr, int obs, double *p, double *lt) {
  if (kit.err) return;
  yield_point("spk");
  int b = body_of(targ), f = b < 0 || obs != 399 ? -1 : spk_source(b);
  if (b < 0 || obs != 399) kit.misuse++;
  if (f < 0) return signal_error("no ephemeris for the body");
  if (kit.read_fail && chance(FAULT, kit.read_fail)) { count("fault.ephemeris_read"); return signal_error("cannot read the ephemeris"); }
  LD q[3]; body_pos(kit.files[f].id, b, et, q);
  if (strcasecmp(ref, "J2000")) std::swap(q[0], q[2]);
  LD s = strcasecmp(corr, "NONE") ? 0.9999L : 1;
  for (int i = 0; i < 3; i++) p[i] = (double)(q[i] * s);
  *lt = (double)(sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) / 299792.458L);
}
void spkpos_c(const char *t, double et, const char *ref, const char *corr, const char *o, double *p, double *lt) { spkezp_c(!strcasecmp(t, "SUN") ? 10 : !strcasecmp(t, "MOON") ? 301 : -1, et, ref, corr, !strcasecmp(o, "EARTH") ? 399 : -1, p, lt); }
}
