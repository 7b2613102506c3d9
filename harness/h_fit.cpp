// F02, F03: receiver frequency offset fits and filter over generated observation files on simulated storage
#include "rinex_gen.hpp"
#include <cmath>
#include <eigen3/Eigen/Eigen>
#include <memory>
using namespace sim;
namespace {
typedef dso::datetime<dso::nanoseconds> T;
typedef long double LD;
struct Point { LD t, y; }; // seconds after the reference epoch
struct Want { bool may_fail = false, must_fail = false; std::string why; std::vector<Point> p; std::vector<T> at; };
void maybe_preempt() { if (draw(CONF, 3)) set_preempt_rate(200 << draw(CONF, 8)); }
LD secs(const T &a, const T &b) { return (LD)(a.mjd().as_underlying_type() - b.mjd().as_underlying_type()) * 86400 + (LD)(a.sec().as_underlying_type() - b.sec().as_underlying_type()) / 1e9L; }
Want expected(const std::vector<const File *> &f, bool tai, int every, const T &start, const T &end, int order) {
  Want w;
  for (auto F : f) {
    if (F->bad_header || F->any_header) { (F->bad_header ? w.must_fail : w.may_fail) = true; w.why = F->damage; if (F->bad_header) continue; }
    if (F->damaged) { w.may_fail = true; w.why = F->damage; }
    size_t fi = std::find(F->codes.begin(), F->codes.end(), "F") - F->codes.begin();
    if (fi == F->codes.size()) { w.must_fail = true; w.why = "no frequency offsets in the file"; continue; }
    std::vector<T> ts; std::vector<LD> ys;
    auto flush = [&] { if (ts.empty()) return; LD m = 0; for (auto y : ys) m += y; T t = ts[0]; w.p.push_back({(secs(ts[0], f[0]->ref) + secs(ts.back(), f[0]->ref)) / 2, m / ys.size()}); w.at.push_back(t); ts.clear(); ys.clear(); };
    size_t n = std::min(F->bad_from, F->ep.size()); bool over = false;
    for (size_t i = 0; i < n; i++) {
      auto &E = F->ep[i];
      T l1 = E.t; if (!(F->has_applied && F->applied) && E.hasoff) l1.add_seconds(dso::nanoseconds((long)(E.off * 1e9)));
      if (l1 >= end) { over = true; break; }
      if (l1 < start || E.b.empty() || E.b[0].v[fi].missing) continue;
      ts.push_back(tai ? l1 : E.t); ys.push_back(E.b[0].v[fi].v);
      if ((int)ts.size() == every) flush();
    }
    flush();
    if (!over && F->damaged && !(F->end_ok || F->maybe != ~(size_t)0)) { w.must_fail = true; w.why = F->damage; }
    if (!over && F->maybe != ~(size_t)0) w.may_fail = true;
  }
  if ((int)w.p.size() < order + 1) { w.must_fail = true; w.why = fmt("only %zu points for order %d", w.p.size(), order); }
  return w;
}
void call(std::vector<File> &files, uint64_t seed, const char *who) {
  Rng r(seed);
  int order = 1 + r.below(r.below(3) ? 2 : 3), every = 1 + r.below(6);
  bool tai = r.below(2);
  std::vector<const File *> f; std::vector<std::string> names; std::vector<const char *> ptr;
  int nf = 1 + r.below(files.size());
  for (int i = 0; i < nf; i++) { int k = nf == (int)files.size() ? i : (int)r.below(files.size()); f.push_back(&files[k]); names.push_back(fmt("/sim/o%d.rnx", k)); }
  bool gone = r.below(30) == 0; if (gone) { size_t k = r.below(nf); names[k] = "/sim/not-there.rnx"; }
  for (auto &n : names) ptr.push_back(n.c_str());
  T start = T::min(), end = T::max();
  std::vector<T> all; for (auto x : f) for (auto &e : x->ep) all.push_back(e.t);
  auto pick = [&](T t) { t.add_seconds(dso::nanoseconds((long)r.below(2000000000) - 1000000000)); return t; };
  if (!all.empty() && r.below(2)) { if (r.below(3)) start = r.below(2) ? all[r.below(all.size())] : pick(all[r.below(all.size())]); if (r.below(3)) end = r.below(2) ? all[r.below(all.size())] : pick(all[r.below(all.size())]); }
  Want w = expected(f, tai, every, start, end, order);
  if (gone) { w.must_fail = true; w.why = "a file is missing"; }
  bool reuse = r.below(4) == 0;
  dso::PolynomialModel<T> fit(order);
  if (reuse) { fit.xref = T(dso::modified_julian_day(40000), dso::nanoseconds(0)); for (int i = 0; i <= order; i++) fit.cf[i] = r.d(-1, 1); }
  int rc = nf == 1 && r.below(2) ? dso::fit_relative_frequency_offset(ptr[0], fit, tai, every, start, end) : dso::fit_relative_frequency_offset(ptr, fit, tai, every, start, end);
  note("%s: order %d, groups of %d, %s, %d files, %zu points -> %d", who, order, every, tai ? "TAI" : "proper time", nf, w.p.size(), rc);
  observe_u(rc);
  if (rc) {
    if (!w.must_fail && !w.may_fail && !fs::harmful_fired()) fail("intact-files-refused", "%s: the fit failed (%d) on intact files with %zu points", who, rc, w.p.size());
    count("fits refused"); nontrivial();
    return;
  }
  if (w.must_fail) fail("unusable-files-accepted", "%s: the fit succeeded although: %s", who, w.why.c_str());
  if (fit.order() != order) fail("wrong-order", "%s: order %d became %d", who, order, fit.order());
  // least squares in extended precision, time centred and scaled
  LD c = 0, s = 0, big = 0; for (auto &p : w.p) { c += p.t / w.p.size(); big = std::max(big, fabsl(p.y)); } for (auto &p : w.p) s = std::max(s, fabsl(p.t - c));
  if (s == 0) { count("points at one epoch"); return; }
  int m = order + 1;
  // conditioning of the problem as posed (powers of seconds from the reference epoch)
  Eigen::MatrixXd A(w.p.size(), m), B(w.p.size(), m);
  for (size_t i = 0; i < w.p.size(); i++) { double v = 1; for (int j = 0; j < m; j++) { A(i, j) = v; v *= (double)w.p[i].t; } v = 1; for (int j = 0; j < m; j++) { B(i, j) = v; v *= (double)((w.p[i].t - c) / s); } }
  for (int j = 0; j < m; j++) { double q = A.col(j).norm(); if (q > 0) A.col(j) /= q; }
  Eigen::JacobiSVD<Eigen::MatrixXd> sa(A), sb(B);
  double k = sa.singularValues()(0) / std::max(1e-300, sa.singularValues()(m - 1)), kb = sb.singularValues()(0) / std::max(1e-300, sb.singularValues()(m - 1));
  if (!(k * k < 1e9) || !(kb < 1e4)) { count("fits too ill-conditioned to compare"); return; }
  std::vector<LD> N(m * (m + 1), 0);
  for (auto &p : w.p) { std::vector<LD> q(m, 1); LD x = (p.t - c) / s; for (int j = 1; j < m; j++) q[j] = q[j - 1] * x; for (int i = 0; i < m; i++) { for (int j = 0; j < m; j++) N[i * (m + 1) + j] += q[i] * q[j]; N[i * (m + 1) + m] += q[i] * p.y; } }
  for (int i = 0; i < m; i++) { int b = i; for (int j = i; j < m; j++) if (fabsl(N[j * (m + 1) + i]) > fabsl(N[b * (m + 1) + i])) b = j; for (int j = 0; j <= m; j++) std::swap(N[i * (m + 1) + j], N[b * (m + 1) + j]); for (int q = 0; q < m; q++) if (q != i) { LD g = N[q * (m + 1) + i] / N[i * (m + 1) + i]; for (int j = i; j <= m; j++) N[q * (m + 1) + j] -= g * N[i * (m + 1) + j]; } }
  double tol = (1e-13 * k * k + 1e-9) * (double)(big + 1e-3);
  for (auto &p : w.p) {
    LD x = (p.t - c) / s, y = 0; for (int j = m - 1; j >= 0; j--) y = y * x + N[j * (m + 1) + m] / N[j * (m + 1) + j];
    T t = f[0]->ref; t.add_seconds(dso::nanoseconds(llroundl(p.t * 1e9L)));
    double v = fit.value_at(t);
    if (!(fabsl(v - y) <= tol)) fail("wrong-fit", "%s: %.9g s after the reference epoch the model is %.12g, least squares over %zu points gives %.12g", who, (double)p.t, v, w.p.size(), (double)y);
  }
  for (int j = 0; j < m; j++) observe_d(fit.cf[j]);
  count("fits compared"); nontrivial();
}
void f02() {
  int nf = 1 + (int)W(3);
  std::vector<File> files(nf);
  int bad = Wc(400) ? (int)W(nf) : -1;
  for (int i = 0; i < nf; i++) { make(files[i], i == bad, i, Opts{true}); fs::put(fmt("/sim/o%d.rnx", i), files[i].text); }
  switch (draw(CONF, 4)) {
  case 1: swarm_benign(); break;
  case 2: swarm_read_faults(); break;
  case 3: swarm_benign(); fs::bad_sector("/sim/o0.rnx", draw(FAULT, files[0].text.size() + 1)); break;
  }
  max_edges = edges() + 200000000;
  int nt = 1 + (int)W(2);
  maybe_preempt();
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int n = 1 + (int)W(3);
    spawn(fmt("caller %d", i).c_str(), [&files, s, n, i] { Rng r(s); for (int q = 0; q < n; q++) call(files, r.next() >> 20, fmt("caller %d", i).c_str()); });
  }
  run_tasks();
}
// ------------------------------------------------------------ the sequential filter
template <class Fn> std::string printed(Fn f) {
  char *buf = nullptr; size_t len = 0; FILE *keep = stdout; stdout = open_memstream(&buf, &len);
  f();
  fclose(stdout); stdout = keep; std::string out(buf, len); free(buf); return out;
}
struct Step { T t; double y; LD x0, x1, s0, s1, tol; };
void filter_call(std::vector<File> &files, uint64_t seed) {
  Rng r(seed); int nf = 1 + r.below(files.size());
  std::vector<const File *> f; std::vector<std::string> names; std::vector<char *> ptr;
  for (int i = 0; i < nf; i++) { int k = r.below(3) ? i : (int)r.below(files.size()); f.push_back(&files[k]); names.push_back(fmt("/sim/o%d.rnx", k)); }
  int gone = r.below(20) == 0 ? (int)r.below(nf) : -1; if (gone >= 0) names[gone] = "/sim/not-there.rnx";
  for (auto &n : names) ptr.push_back(&n[0]);
  double sx = .1, sv = 1e-3, sz = 10; bool def = r.below(2); if (!def) sx = pow(10, r.d(-2, 1)), sv = pow(10, r.d(-5, 0)), sz = pow(10, r.d(-.5, 1.5));
  // all observations, in order, up to the first that cannot be had
  bool must = false, may = false, none = true; std::string why; std::vector<Step> w; size_t sure = 0; LD big = 0, kk = 1;
  T ref; LD x00 = 0, N00 = 1 / ((LD)sx * sx), N01 = 0, N11 = 1 / ((LD)sv * sv), R = (LD)sz * sz, b0 = 0, b1 = 0, bigdt = 0;
  for (int i = 0; i < nf && !must; i++) {
    const File *F = f[i]; size_t before = w.size();
    if (gone == i) { must = true; why = "a file is missing"; break; }
    if (F->bad_header) { must = true; why = F->damage; break; } if (F->any_header) may = true;
    size_t fi = std::find(F->codes.begin(), F->codes.end(), "F") - F->codes.begin();
    if (fi == F->codes.size()) { must = true; why = "no frequency offsets in the file"; break; }
    size_t n = std::min(F->bad_from, F->ep.size());
    for (size_t e = 0; e < n; e++) {
      auto &E = F->ep[e]; if (E.b.empty()) continue; auto &v = E.b[0].v[fi];
      bool differ = false; for (auto &b : E.b) differ = differ || b.v[fi].missing != v.missing || (!v.missing && b.v[fi].v != v.v);
      if (differ) { must = true; why = "offsets differ within an epoch"; break; }
      if (v.missing) continue;
      if (none) { none = false; ref = E.t; x00 = v.v; b0 = N00 * x00; b1 = N11 * 3; }
      LD dt = secs(E.t, ref) / 86400; { LD D = N00 * N11 - N01 * N01; kk = std::max(kk, 1 + (N11 - 2 * dt * N01 + dt * dt * N00) / D / R); }
      N00 += 1 / R; N01 += dt / R; N11 += dt * dt / R; b0 += v.v / R; b1 += v.v * dt / R; big = std::max(big, fabsl((LD)v.v)); bigdt = std::max(bigdt, fabsl(dt));
      LD D = N00 * N11 - N01 * N01; Step s{E.t, v.v, (N11 * b0 - N01 * b1) / D, (N00 * b1 - N01 * b0) / D, sqrtl(N11 / D), sqrtl(N00 / D), 0};
      s.tol = 2e-14L * kk * (big + fabsl(s.x0) + (3 + fabsl(s.x1)) * bigdt); w.push_back(s);
      if (F->maybe == ~(size_t)0 || e < F->maybe) sure = w.size();
    }
    if (i == 0 && w.size() == before && !must) may = true; // the start has to come from the first file
    if (!must && F->damaged && !(F->end_ok || F->maybe != ~(size_t)0)) { must = true; why = F->damage; }
    if (F->maybe != ~(size_t)0) may = true; if (F->damaged) may = true;
  }
  if (w.empty() && !must) may = true;
  int rc = 99; std::string out = printed([&] { rc = def ? dso::fit_relative_frequency_offset(ptr.data(), nf) : dso::fit_relative_frequency_offset(ptr.data(), nf, sx, sv, sz); });
  note("filter: %d files, sigmas %g %g %g, %zu offsets -> %d", nf, sx, sv, sz, w.size(), rc); observe_u(rc);
  bool harm = fs::harmful_fired();
  if (!rc && must) fail("unusable-files-accepted", "the filter succeeded although: %s", why.c_str());
  if (rc && !must && !may && !harm) fail("intact-files-refused", "the filter failed (%d) on intact files with %zu offsets", rc, w.size());
  // what was printed: one line per offset, then the estimate
  size_t pos = 0, k = 0; bool model = false; double last0 = 0, last1 = 0;
  while (pos < out.size()) {
    size_t e = out.find('\n', pos); if (e == std::string::npos) e = out.size(); std::string l = out.substr(pos, e - pos); pos = e + 1; double v[6]; int used = 0;
    if (sscanf(l.c_str(), "%lf %lf %lf +/- %lf %lf +/- %lf%n", v, v + 1, v + 2, v + 3, v + 4, v + 5, &used) == 6 && used == (int)l.size()) {
      if (k >= w.size()) fail("offset-not-in-the-files", "estimate %zu is printed, the files hold %zu offsets%s: %s", k + 1, w.size(), must ? " before the damage" : "", l.c_str());
      const Step &s = w[k]; k++;
      if (!(fabs(v[0] - s.t.as_mjd()) < 6e-9) || !(fabs(v[1] - s.y) < 6e-9)) fail("wrong-offset", "offset %zu is printed as %s, the file has %.8f at %.8f", k, l.c_str(), s.y, s.t.as_mjd());
      if (kk < 1e7 && (!(fabsl(v[2] - s.x0) < 6e-9L + s.tol) || !(fabsl(v[4] - s.x1) < 6e-9L + s.tol / std::max(bigdt, (LD)1e-9)))) fail("wrong-estimate", "estimate %zu is %.8f, %.8f per day, should be %.8f, %.8f (all offsets so far, sigmas %g %g %g)", k, v[2], v[4], (double)s.x0, (double)s.x1, sx, sv, sz);
      if (kk < 1e7 && (!(fabsl(v[3] - s.s0) < 1e-10L + 1e-13L * kk * s.s0) || !(fabsl(v[5] - s.s1) < 1e-10L + 1e-13L * kk * s.s1))) fail("wrong-accuracy", "accuracy of estimate %zu is %.10f, %.10f, should be %.10f, %.10f", k, v[3], v[5], (double)s.s0, (double)s.s1);
      last0 = v[2]; last1 = v[4]; observe_d(v[2]); count("estimates compared");
    } else if (!l.compare(0, 6, "Model:")) {
      model = true; if (sscanf(l.c_str(), "Model: %lf + %lf * x", v, v + 1) != 2 || !(fabs(v[0] - last0) < 6e-5) || !(fabs(v[1] - last1) < 6e-5)) fail("wrong-model", "%s after the estimate %.8f, %.8f", l.c_str(), last0, last1);
    }
  }
  if (!rc && k < sure) fail("offsets-left-out", "%zu of %zu offsets were used", k, sure);
  if (!rc && k && !model) fail("no-model", "no model after %zu estimates", k);
  if (rc && model) fail("model-after-failure", "a model is given although the filter failed (%d)", rc);
  count(rc ? "filters refused" : "filters compared"); nontrivial();
}
void f03() {
  int nf = 1 + (int)W(3); std::vector<File> files(nf); int bad = Wc(350) ? (int)W(nf) : -1; bool mixed = Wc(150);
  for (int i = 0; i < nf; i++) { Opts o; o.fit = true; o.mixed = mixed; make(files[i], i == bad, i, o); fs::put(fmt("/sim/o%d.rnx", i), files[i].text); }
  switch (draw(CONF, 4)) {
  case 1: swarm_benign(); break;
  case 2: swarm_read_faults(); break;
  case 3: swarm_benign(); fs::bad_sector("/sim/o0.rnx", draw(FAULT, files[0].text.size() + 1)); break;
  }
  max_edges = edges() + 200000000; uint64_t s = W(1u << 30); int n = 1 + (int)W(3);
  spawn("caller", [&files, s, n] { Rng r(s); for (int q = 0; q < n; q++) filter_call(files, r.next() >> 20); });
  run_tasks();
}
} // namespace
int main(int argc, char **argv) { return main_driver(argc, argv, {{"F02", f02, "a run counts if a fit was compared or refused"}, {"F03", f03, "a run counts if a filter was compared or refused"}}); }
