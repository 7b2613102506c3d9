// F01: the orbit filter against a long-double least-squares filter; polynomial models as values
#include "../sim/sim.hpp"
#include "datetime/dtcalendar.hpp"
#include <cassert>
#define printf(...) ((void)0)
#include "filters/filters.hpp"
#include "filters/models.hpp"
#undef printf
#include <cmath>
#include <memory>
using namespace sim;
namespace {
typedef long double LD;
typedef dso::datetime<dso::nanoseconds> Epoch;
struct Ref { // the same estimator in extended precision, covariance form, plain loops
  int n; std::vector<LD> x, P;
  Ref(int n) : n(n), x(n, 0), P(n * n, 0) { for (int i = 0; i < n; i++) P[i * n + i] = 1; }
  void predict(const Eigen::VectorXd &xk, const Eigen::MatrixXd &F, const Eigen::MatrixXd *Q) {
    std::vector<LD> T(n * n, 0), R(n * n, 0);
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (F(i, k) != 0) for (int j = 0; j < n; j++) T[i * n + j] += F(i, k) * P[k * n + j];
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (F(i, k) != 0) for (int j = 0; j < n; j++) R[j * n + i] += T[j * n + k] * F(i, k);
    if (Q) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i * n + j] += (*Q)(i, j);
    P = R; for (int i = 0; i < n; i++) x[i] = xk(i);
  }
  void update(double z, double g, double s, const Eigen::VectorXd &H) {
    std::vector<LD> b(n, 0); LD w = (LD)s * s;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[i] += P[i * n + j] * H(j);
    for (int i = 0; i < n; i++) w += H(i) * b[i];
    LD y = (LD)z - g;
    for (int i = 0; i < n; i++) x[i] += b[i] / w * y;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P[i * n + j] -= b[i] * b[j] / w;
  }
};
// one filter with its reference; the largest standard deviation each parameter has had sets the scale of rounding
struct Scale { std::vector<LD> sd, mag; };
void compare(const char *who, const Eigen::VectorXd &x, const Eigen::MatrixXd &P, const Ref &R, Scale &S, const char *after) {
  int n = R.n;
  if (x.rows() != n || P.rows() != n || P.cols() != n) fail("wrong-size", "%s: state of %ld, covariance %ldx%ld, %d parameters", who, (long)x.rows(), (long)P.rows(), (long)P.cols(), n);
  S.sd.resize(n, 0); S.mag.resize(n, 0);
  for (int i = 0; i < n; i++) { S.sd[i] = std::max(S.sd[i], sqrtl(fabsl(R.P[i * n + i]))); S.mag[i] = std::max(S.mag[i], fabsl(R.x[i])); }
  for (int i = 0; i < n; i++) {
    observe_d(x(i));
    if (!(fabsl(x(i) - R.x[i]) <= 1e-7L * (S.sd[i] + S.mag[i]) + 1e-12L)) fail("wrong-estimate", "%s: after %s parameter %d is %.15g, least squares gives %.15g", who, after, i, x(i), (double)R.x[i]);
    if (!(P(i, i) >= -1e-9L * S.sd[i] * S.sd[i])) fail("negative-variance", "%s: after %s variance %d is %g", who, after, i, P(i, i));
    for (int j = 0; j < n; j++) {
      LD tol = 1e-7L * S.sd[i] * S.sd[j] + 1e-15L;
      if (!(fabsl(P(i, j) - P(j, i)) <= 1e-10L * S.sd[i] * S.sd[j] + 1e-18L)) fail("asymmetric", "%s: after %s covariance (%d,%d) is %.17g, (%d,%d) is %.17g", who, after, i, j, P(i, j), j, i, P(j, i));
      if (!(fabsl(P(i, j) - R.P[i * n + j]) <= tol)) fail("wrong-covariance", "%s: after %s covariance (%d,%d) is %.15g, least squares gives %.15g", who, after, i, j, P(i, j), (double)R.P[i * n + j]);
    }
  }
}
Eigen::VectorXd partials(Rng &r, int n) {
  Eigen::VectorXd H = Eigen::VectorXd::Zero(n);
  int k = 1 + r.below(4); if (r.below(3) == 0) k = n;
  for (int i = 0; i < k; i++) H(k == n ? i : r.below(n)) = r.d(-2, 2) * (r.below(4) ? 1 : 10);
  return H;
}
Eigen::MatrixXd transition(Rng &r, int n, int dyn) {
  Eigen::MatrixXd F = Eigen::MatrixXd::Identity(n, n);
  if (r.below(8)) { double dt = r.d(0, .5); for (int i = 0; i < 3 && i + 3 < n; i++) F(i, i + 3) = dt; for (int i = 0; i < dyn; i++) for (int j = 0; j < dyn; j++) if (r.below(3) == 0) F(i, j) += r.d(-.1, .1); }
  return F;
}
void maybe_preempt() { if (draw(CONF, 3)) set_preempt_rate(50 << draw(CONF, 10)); }
template <int Np, dso::BeaconClockModel M> struct Run {
  static constexpr bool lin = M == dso::BeaconClockModel::Linear;
  static constexpr int per = lin ? 3 : 2;
  typedef dso::EkfFilter<Np, M> F;
  static void go(uint64_t seed, const char *who) {
    Rng r(seed);
    int ns = r.below(40) ? r.below(6) : 6 + r.below(65), n = 6 + Np + per * ns;
    Epoch t0(dso::modified_julian_day(58000 + r.below(1000)), dso::nanoseconds((long)(r.u() * 86400e9)));
    std::vector<std::unique_ptr<F>> f; std::vector<Ref> R; std::vector<Scale> S;
    f.emplace_back(new F(ns, t0)); R.emplace_back(n); S.emplace_back();
    if ((int)f[0]->num_params() != n) fail("wrong-size", "%s: %zu parameters for %d beacons, should be %d", who, f[0]->num_params(), ns, n);
    int steps = 3 + r.below(ns > 5 ? 6 : 25);
    std::string what = "construction";
    for (int q = 0; q < steps; q++) {
      int id = r.below(f.size()); F &e = *f[id]; Ref &m = R[id]; auto &E = e._ekf._ekf;
      auto put = [&](int i, double v, bool sig) { if (sig) m.P[i * n + i] = v; else m.x[i] = v; };
      int b = ns ? (int)r.below(ns + 1) - 1 : -1; // -1: all
      double v = r.d(-3, 3), w = r.d(-.1, .1), sv = r.d(.01, 4), sw = r.d(.0001, .5);
      auto each = [&](auto fn) { for (int k = 0; k < ns; k++) if (b < 0 || b == k) fn(6 + Np + per * k); };
      bool fresh = q < 6 && r.below(2); // a priori values are set before the estimation starts
      for (int i = 0; i < n && fresh; i++) for (int j = 0; j < n; j++) if (i != j && m.P[i * n + j] != 0) fresh = false;
      switch (fresh ? r.below(8) : 8 + r.below(8)) {
      case 0: case 1: e.set_tropo_apriori(v, b); each([&](int i) { put(i, v, 0); }); what = fmt("set_tropo_apriori(%d)", b); break;
      case 2: e.set_tropo_apriori_sigma(sv, b); each([&](int i) { put(i, sv, 1); }); what = fmt("set_tropo_apriori_sigma(%d)", b); break;
      case 3: case 4:
        if constexpr (lin) { e.set_rfoff_apriori(v, w, b); each([&](int i) { put(i + 1, v, 0); put(i + 2, w, 0); }); } else { e.set_rfoff_apriori(v, b); each([&](int i) { put(i + 1, v, 0); }); }
        what = fmt("set_rfoff_apriori(%d)", b); break;
      case 5:
        if constexpr (lin) { e.set_rfoff_apriori_sigma(sv, sw, b); each([&](int i) { put(i + 1, sv, 1); put(i + 2, sw, 1); }); } else { e.set_rfoff_apriori_sigma(sv, b); each([&](int i) { put(i + 1, sv, 1); }); }
        what = fmt("set_rfoff_apriori_sigma(%d)", b); break;
      case 6: if constexpr (Np > 0) { e.set_drag_coef_apriori(v); put(6, v, 0); what = "set_drag_coef_apriori"; } break;
      case 7: if constexpr (Np > 0) { e.set_drag_coef_apriori_sigma(sv); put(6, sv, 1); what = "set_drag_coef_apriori_sigma"; } break;
      case 8: case 9: { // time update, the state propagated by the caller
        Eigen::MatrixXd phi = transition(r, n, std::min(n, 6 + Np)); Eigen::VectorXd xk = phi * e.estimates(); if (r.below(3) == 0) xk(r.below(6)) += r.d(-1, 1);
        Epoch t = t0; t.add_seconds(dso::nanoseconds((long)(r.u() * 1e12)));
        if (r.below(3) == 0) { Eigen::MatrixXd Q = Eigen::MatrixXd::Zero(n, n); for (int i = 0; i < n; i++) Q(i, i) = r.below(2) ? 0 : r.d(0, .1); E.time_update(t, xk, phi, Q); m.predict(xk, phi, &Q); what = "a time update with process noise"; }
        else { e.time_update(t, xk, phi); m.predict(xk, phi, nullptr); what = "a time update"; }
        if (E.time() != t) fail("wrong-time", "%s: the filter is not at the epoch of the time update", who);
        count("time updates"); break; }
      case 10: { f.emplace_back(new F(e)); Ref c = m; Scale s = S[id]; R.push_back(c); S.push_back(s); what = "copying"; break; }
      case 11: { int o = r.below(f.size()); if (o != id) { *f[o] = e; R[o] = m; S[o] = S[id]; what = "assignment"; id = o; } break; }
      default: { Eigen::VectorXd H = partials(r, n); double g = r.d(-10, 10), z = g + r.d(-2, 2), s = r.below(6) ? r.d(.05, 2) : .001; e.observation_update(z, g, s, H); m.update(z, g, s, H); what = fmt("an observation update (sigma %g)", s); count("observation updates"); nontrivial(); }
      }
      for (size_t i = 0; i < f.size(); i++) compare(who, f[i]->_ekf._ekf.state(), f[i]->P(), R[i], S[i], what.c_str());
      for (int k = 0; k < ns; k++) {
        int i = 6 + Np + per * k; const F &c = *f[id]; const Eigen::VectorXd &x = c._ekf._ekf.x;
        if (!same_double(c.tropo_estimate(k), x(i))) fail("wrong-parameter", "%s: the troposphere estimate of beacon %d is not parameter %d", who, k, i);
        if constexpr (lin) { Epoch t = t0; double dt = r.d(-1e5, 1e5); t.add_seconds(dso::nanoseconds((long)(dt * 1e9))); double want = x(i + 1) + dt * x(i + 2); if (!close_to(c.rfoff_estimate(k, t), want, 1e-9, 1e-9 * (1 + std::fabs(x(i + 1))))) fail("wrong-parameter", "%s: frequency offset of beacon %d is %.12g %g s from the reference epoch, should be %.12g", who, k, c.rfoff_estimate(k, t), dt, want); if (!close_to(c.deltat(t), dt, 1e-9, 1e-6)) fail("wrong-parameter", "%s: deltat is off", who); }
        else if (!same_double(c.rfoff_estimate(k), x(i + 1))) fail("wrong-parameter", "%s: the frequency offset of beacon %d is not parameter %d", who, k, i + 1);
      }
      if constexpr (Np > 0) if (!same_double(const_cast<const F &>(*f[id]).drag_coef(), f[id]->_ekf._ekf.x(6))) fail("wrong-parameter", "%s: drag coefficient", who);
    }
    count("filters"); nontrivial();
  }
};
// the bare filter: processing in another order or in one batch gives the same
void order(uint64_t seed, const char *who) {
  Rng r(seed);
  int n = 2 + r.below(9), m = 2 + r.below(8);
  Eigen::VectorXd x0(n); Eigen::MatrixXd A(n, n);
  for (int i = 0; i < n; i++) { x0(i) = r.d(-3, 3); for (int j = 0; j < n; j++) A(i, j) = r.d(-1, 1); }
  Eigen::MatrixXd P0 = A * A.transpose() + Eigen::MatrixXd::Identity(n, n) * .1; P0 = (P0 + P0.transpose()).eval() / 2;
  Epoch t(dso::modified_julian_day(58000), dso::nanoseconds(0));
  typedef dso::ExtendedKalmanFilter<dso::nanoseconds> K;
  std::vector<Eigen::VectorXd> H; std::vector<double> z, s;
  for (int k = 0; k < m; k++) { H.push_back(partials(r, n)); z.push_back(r.d(-5, 5)); s.push_back(r.d(.05, 2)); }
  K a(t, x0, P0), b(n); if (a.K.rows() != n) fail("wrong-size", "%s: gain of %ld for %d parameters", who, (long)a.K.rows(), n);
  b.t = t; b.x = x0; b.P = P0;
  std::vector<int> ix; for (int k = 0; k < m; k++) ix.push_back(k);
  for (int k = m - 1; k > 0; k--) std::swap(ix[k], ix[r.below(k + 1)]);
  Ref R(n); for (int i = 0; i < n; i++) { R.x[i] = x0(i); for (int j = 0; j < n; j++) R.P[i * n + j] = P0(i, j); }
  Scale S, T;
  compare(who, a.state(), a.P, R, S, "construction"); T = S;
  for (int k = 0; k < m; k++) { a.observation_update(z[k], H[k].dot(a.state()), s[k], H[k]); R.update(z[k], H[k].dot(a.state()), s[k], H[k]); b.observation_update(z[ix[k]], H[ix[k]].dot(b.state()), s[ix[k]], H[ix[k]]); }
  // least squares with the prior, from the normal equations in extended precision
  std::vector<LD> N(n * n, 0), q(n, 0);
  { // inverse of P0 by elimination
    std::vector<LD> M(n * 2 * n, 0); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i * 2 * n + j] = P0(i, j); M[i * 2 * n + n + i] = 1; }
    for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(M[i * 2 * n + c]) > fabsl(M[p * 2 * n + c])) p = i; for (int j = 0; j < 2 * n; j++) std::swap(M[c * 2 * n + j], M[p * 2 * n + j]); LD d = M[c * 2 * n + c]; for (int j = 0; j < 2 * n; j++) M[c * 2 * n + j] /= d; for (int i = 0; i < n; i++) if (i != c) { LD f = M[i * 2 * n + c]; for (int j = 0; j < 2 * n; j++) M[i * 2 * n + j] -= f * M[c * 2 * n + j]; } }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) N[i * n + j] = M[i * 2 * n + n + j];
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q[i] += N[i * n + j] * x0(j);
  for (int k = 0; k < m; k++) for (int i = 0; i < n; i++) { q[i] += H[k](i) * (LD)z[k] / ((LD)s[k] * s[k]); for (int j = 0; j < n; j++) N[i * n + j] += H[k](i) * (LD)H[k](j) / ((LD)s[k] * s[k]); }
  Ref L(n);
  { std::vector<LD> M(n * 2 * n, 0); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i * 2 * n + j] = N[i * n + j]; M[i * 2 * n + n + i] = 1; }
    for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(M[i * 2 * n + c]) > fabsl(M[p * 2 * n + c])) p = i; for (int j = 0; j < 2 * n; j++) std::swap(M[c * 2 * n + j], M[p * 2 * n + j]); LD d = M[c * 2 * n + c]; for (int j = 0; j < 2 * n; j++) M[c * 2 * n + j] /= d; for (int i = 0; i < n; i++) if (i != c) { LD f = M[i * 2 * n + c]; for (int j = 0; j < 2 * n; j++) M[i * 2 * n + j] -= f * M[c * 2 * n + j]; } }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) L.P[i * n + j] = M[i * 2 * n + n + j];
    for (int i = 0; i < n; i++) { L.x[i] = 0; for (int j = 0; j < n; j++) L.x[i] += L.P[i * n + j] * q[j]; } }
  compare(who, a.state(), a.P, L, S, "all observations"); compare(who, b.state(), b.P, L, T, "all observations in another order");
  count("batches"); nontrivial();
}
void f01() {
  max_edges = edges() + 400000000;
  int nt = 1 + (int)W(3);
  maybe_preempt();
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int k = W(9);
    std::string who = fmt("filter %d", i);
    note("%s: kind %d", who.c_str(), k);
    spawn(who.c_str(), [s, k, who] {
      using C = dso::BeaconClockModel;
      switch (k) {
      case 0: order(s, who.c_str()); break;
      case 1: Run<1, C::None>::go(s, who.c_str()); break;
      case 2: Run<1, C::Linear>::go(s, who.c_str()); break;
      case 3: Run<0, C::Linear>::go(s, who.c_str()); break;
      case 4: Run<2, C::None>::go(s, who.c_str()); break;
      case 5: Run<3, C::Linear>::go(s, who.c_str()); break;
      case 6: Run<3, C::None>::go(s, who.c_str()); break;
      default: Run<1, C::Linear>::go(s, who.c_str());
      }
    });
  }
  run_tasks();
}
// ---------------------------------------------------------------- polynomial models
struct Track { Track() { alloc_track(true); } ~Track() { alloc_track(false); } };
template <class X> struct Poly {
  typedef dso::PolynomialModel<X> P;
  struct M { int n = 0; double ref = 0; std::vector<double> c; bool known = false; };
  struct Slot { std::unique_ptr<P> o; M m; };
  static X at(double s) { if constexpr (std::is_arithmetic_v<X>) return X(s); else { X t(dso::modified_julian_day(58000), dso::nanoseconds(0)); t.add_seconds(dso::nanoseconds((long)(s * 1e9))); return t; } }
  static void check(Slot &s, int id, Rng &r, const char *who) {
    if (!s.o || !s.m.known) return;
    if (s.o->order() != s.m.n) fail("poly-order", "%s: model %d has order %d, should have %d", who, id, s.o->order(), s.m.n);
    for (int i = 0; i <= s.m.n; i++) { observe_d(s.o->cf[i]); if (!same_double(s.o->cf[i], s.m.c[i])) fail("poly-value", "%s: coefficient %d of model %d is %g, was set to %g", who, i, id, s.o->cf[i], s.m.c[i]); }
    double t = r.below(5) ? (double)(int64_t)r.d(-200, 200) / 8 : 0; LD y = 0, a = 0;
    for (int i = s.m.n; i >= 0; i--) { y = y * t + s.m.c[i]; a = a * std::fabs(t) + std::fabs(s.m.c[i]); }
    double v = s.o->value_at(at(s.m.ref + t));
    if (!(fabsl(v - y) <= 1e-13L * a)) fail("poly-eval", "%s: model %d of order %d is %.17g at distance %g, should be %.17g", who, id, s.m.n, v, t, (double)y);
  }
  static void fill(Slot &s, Rng &r) {
    s.m.ref = (double)r.below(1000) / 8; s.m.c.assign(s.m.n + 1, 0); s.o->xref = at(s.m.ref);
    for (int i = 0; i <= s.m.n; i++) s.o->cf[i] = s.m.c[i] = r.d(-2, 2);
    s.m.known = true;
  }
  static void go(uint64_t seed, const char *who) {
    Rng r(seed);
    {
      std::vector<Slot> S(3);
      int ops = 4 + r.below(20);
      for (int q = 0; q < ops; q++) {
        int a = r.below(3), b = r.below(3); Slot &x = S[a], &y = S[b];
        Track t;
        switch (r.below(8)) {
        case 0: case 1: x.o.reset(); x.m = M(); x.m.n = r.below(6) ? r.below(6) : r.below(20); x.o.reset(new P(x.m.n)); fill(x, r); break;
        case 2: if (y.o && y.m.known && a != b) { x.o.reset(new P(*y.o)); x.m = y.m; } break;
        case 3: if (y.o && y.m.known && a != b) { x.o.reset(new P(std::move(*y.o))); x.m = y.m; y.o.reset(); y.m = M(); } break;
        case 4: if (x.o && y.o && y.m.known) { *x.o = *y.o; x.m = y.m; } break;
        case 5: if (x.o && y.o && y.m.known) { *x.o = std::move(*y.o); if (a != b) { x.m = y.m; y.o.reset(); y.m = M(); } } break;
        case 6: if (x.o) { int n = r.below(6); bool same = n == x.m.n; x.o->resize(n); x.m.n = n; if (!same) fill(x, r); } break;
        case 7: x.o.reset(); x.m = M(); break;
        }
        for (int i = 0; i < 3; i++) check(S[i], i, r, who);
      }
      { Track t; S.clear(); }
      { Track t; std::vector<P> v; int n = 1 + r.below(4); std::vector<M> ms;
        for (int i = 0; i < n; i++) { Slot s; s.m.n = r.below(4); s.o.reset(new P(s.m.n)); fill(s, r); v.push_back(*s.o); ms.push_back(s.m); }
        for (int i = 0; i < n; i++) for (int j = 0; j <= ms[i].n; j++) if (!same_double(v[i].cf[j], ms[i].c[j])) fail("poly-value", "%s: a model kept in a vector changed", who); }
    }
    count("polynomial histories"); nontrivial();
  }
};
void poly_run() {
  max_edges = edges() + 100000000;
  int nt = 1 + (int)W(2); int64_t live = alloc_live_tracked();
  maybe_preempt();
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); bool d = W(2); std::string who = fmt("user %d", i);
    note("%s: polynomials over %s", who.c_str(), d ? "dates" : "numbers");
    auto fn = [s, d, who] { if (d) Poly<Epoch>::go(s, who.c_str()); else Poly<double>::go(s, who.c_str()); };
    if (nt == 1) fn(); else spawn(who.c_str(), fn);
  }
  if (nt > 1) { run_tasks(); return; }
  if (alloc_live_tracked() != live) fail("poly-leak", "%ld blocks are still allocated after all models are gone", (long)(alloc_live_tracked() - live));
}
void both() { if (W(3) == 2) poly_run(); else f01(); }
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {{"F01", both, "a run counts when a filter was updated (or a polynomial model copied) and compared with the reference"}});
}
