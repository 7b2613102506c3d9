// I01, I02: variable-step multistep integrator (src/integrators, -DVAR: var/ode_solvers)
// I03 (-DRKF): Runge-Kutta-Fehlberg integrator (var/ode_solvers)
#include "../sim/sim.hpp"
#ifdef RKF
#include "rkf45.hpp"
#else
#include "sgode.hpp"
#endif
#include <algorithm>
#include <cmath>
#include <memory>
#include <new>
using namespace sim;
using Eigen::VectorXd;
namespace {
// ------------------------------------------------- problems with known solution
struct Block {
  int kind = 0, dim = 1, off = 0;
  double a = 1, b = 1, c = 0, scale = 1;
  double w = 1; // time scale: solution in s = w (t - t0)
};
double kepler(double M, double e) {
  M = std::remainder(M, 2 * M_PI);
  double E = e < 0.8 ? M : M_PI;
  for (int i = 0; i < 60; i++) { double d = (E - e * std::sin(E) - M) / (1 - e * std::cos(E)); E -= d; if (std::fabs(d) < 1e-16) break; }
  return E;
}
void jacobi(double u, double m, double *sn, double *cn, double *dn) {
  double a[16], g[16]; a[0] = 1; double b = std::sqrt(1 - m); int n = 0;
  while (n < 14) { a[n + 1] = (a[n] + b) / 2; g[n + 1] = (a[n] - b) / 2; b = std::sqrt(a[n] * b); n++; if (std::fabs(g[n]) < 1e-17) break; }
  double ph = std::ldexp(a[n] * u, n), prev = ph;
  for (int i = n; i > 0; i--) { prev = ph; ph = (std::asin(g[i] / a[i] * std::sin(ph)) + ph) / 2; }
  (void)prev;
  *sn = std::sin(ph); *cn = std::cos(ph); *dn = std::sqrt(1 - m * *sn * *sn);
}
double logcosh(double x) { x = std::fabs(x); return x + std::log1p(std::exp(-2 * x)) - M_LN2; }
struct Problem {
  std::vector<Block> B;
  int n = 0;
  double t0 = 0, span = 1; // solution is used for |t-t0| <= span
  bool back = false;       // uses both sides of t0
  void exact(double t, double *y) const {
    for (auto &b : B) {
      double s = b.w * (t - t0), *q = y + b.off;
      switch (b.kind) {
      case 0: q[0] = b.scale * std::exp(b.a * s); break;
      case 1: q[0] = b.scale * std::exp(b.c * s) * std::cos(s + b.a); q[1] = b.scale * std::exp(b.c * s) * std::sin(s + b.a); break;
      case 2: q[0] = b.scale * (b.a + std::sin(s)); break;
      case 3: { double e = b.a, E = kepler(s + b.c, e); double r = 1 - e * std::cos(E), sq = std::sqrt(1 - e * e);
        q[0] = b.scale * (std::cos(E) - e); q[1] = b.scale * sq * std::sin(E); q[2] = b.scale * b.w * -std::sin(E) / r; q[3] = b.scale * b.w * sq * std::cos(E) / r; break; }
      case 4: { double sn, cn, dn; jacobi(s, b.a, &sn, &cn, &dn); q[0] = sn; q[1] = cn; q[2] = dn; break; }
      case 5: q[0] = b.scale / (1 + b.a * std::exp(-s)); break;
      case 6: q[0] = b.scale * (((b.a * s + b.b) * s + b.c) * s + 1.5); break;
      case 7: q[0] = b.scale * std::exp(b.a * std::sin(s)); break;
      case 8: { double ph = s + b.a * (s + (logcosh(b.b * (s - b.c)) - logcosh(b.b * b.c)) / b.b); q[0] = b.scale * std::sin(ph); q[1] = b.scale * std::cos(ph); break; }
      }
    }
  }
  void rhs(double t, const double *y, double *f) const {
    for (auto &b : B) {
      double s = b.w * (t - t0); const double *q = y + b.off; double *g = f + b.off;
      switch (b.kind) {
      case 0: g[0] = b.w * b.a * q[0]; break;
      case 1: g[0] = b.w * (b.c * q[0] - q[1]); g[1] = b.w * (b.c * q[1] + q[0]); break;
      case 2: g[0] = b.w * b.scale * std::cos(s); break;
      case 3: { double r2 = (q[0] * q[0] + q[1] * q[1]) / (b.scale * b.scale), k = b.w * b.w / (r2 * std::sqrt(r2)); g[0] = q[2]; g[1] = q[3]; g[2] = -k * q[0]; g[3] = -k * q[1]; break; }
      case 4: g[0] = b.w * q[1] * q[2]; g[1] = -b.w * q[0] * q[2]; g[2] = -b.w * b.a * q[0] * q[1]; break;
      case 5: g[0] = b.w * q[0] * (1 - q[0] / b.scale); break;
      case 6: g[0] = b.w * b.scale * ((3 * b.a * s + 2 * b.b) * s + b.c); break;
      case 7: g[0] = b.w * b.a * std::cos(s) * q[0]; break;
      case 8: { double r = b.w * (1 + b.a * (1 + std::tanh(b.b * (s - b.c)))); g[0] = r * q[1]; g[1] = -r * q[0]; break; } // a rotation that speeds up
      }
    }
  }
  // how much an early error can grow by the end (per block)
  double growth(const Block &b) const {
    double s = b.w * span;
    switch (b.kind) {
    case 0: return std::exp(std::fabs(b.a) * s);
    case 1: return std::exp(std::fabs(b.c) * s);
    case 3: return (1 + 3 * s) / std::pow(1 - b.a, 4);
    case 4: return 1 + 3 * s;
    case 5: return std::exp(s);
    case 7: return std::exp(2 * std::fabs(b.a));
    case 8: return 1 + 2 * b.a;
    default: return 1;
    }
  }
};
Problem make_problem(int maxblocks, double maxarc) {
  Problem P;
  int nb = 1 + (int)W(maxblocks);
  P.t0 = Wc(300) ? Wd(-1000, 1000) : 0;
  double w = Wc(300) ? std::pow(10., Wd(-3, 2)) : 1;
  double arc = Wd(0.5, maxarc);
  P.span = arc / w;
  for (int i = 0; i < nb; i++) {
    Block b;
    b.kind = std::min((int)W(12), 8);
    b.scale = Wc(300) ? std::pow(10., Wd(-2, 3)) : 1;
    b.w = w;
    if (b.kind == 3 && w < 0.05) b.kind = 1;
    if (b.kind == 3) b.scale = std::max(b.scale, 0.1 / w);
    switch (b.kind) {
    case 0: b.a = Wd(-1, 1) * std::min(1., 3 / arc); break;
    case 1: b.dim = 2; b.a = Wd(0, 6); b.c = Wd(-1, 1) * std::min(.3, 2 / arc); break;
    case 2: b.a = Wd(-2, 2); break;
    case 3: b.dim = 4; b.a = Wd(0, 0.5); b.c = Wd(0, 6); break;
    case 4: b.dim = 3; b.a = Wd(0.1, 0.9); b.scale = 1; break;
    case 5: b.a = Wd(0.2, 5); b.w = std::min(w, 4 / P.span); break;
    case 6: b.a = Wd(-.1, .1); b.b = Wd(-1, 1); b.c = Wd(-1, 1); b.w = std::min(w, 5 / P.span); break;
    case 7: b.a = Wd(-1, 1); break;
    case 8: b.dim = 2; b.a = Wd(0.5, 10); b.b = std::pow(10., Wd(0, 1.5)); b.c = Wd(0, 1) * arc; break;
    }
    b.off = P.n; P.n += b.dim;
    P.B.push_back(b);
  }
  return P;
}
// ------------------------------------------------- the equations as the integrator sees them
struct Ctx {
  const Problem *P = nullptr;
  uint64_t evals = 0;
  bool limit = false; double lim = 0, dir = 1; // times beyond lim must not be asked for
  bool yields = false;
  std::function<void()> nested;
  uint64_t nest_at = 0;
  const char *who = "";
};
void eval(double x, const VectorXd &y, Eigen::Ref<VectorXd> yp, Ctx *c) {
  c->evals++;
  if (y.size() != c->P->n || yp.size() != c->P->n) fail("equation-arguments", "the equations of %d variables were called with vectors of %d and %d", c->P->n, (int)y.size(), (int)yp.size());
  if (c->limit && (x - c->lim) * c->dir > 1e-12 * (std::fabs(c->lim) + std::fabs(c->P->span))) fail("past-the-limit", "%s: the equations were evaluated at %.17g, beyond the last allowed time %.17g", c->who, x, c->lim);
  if (c->yields) yield_point("equation");
  if (c->nested && c->evals == c->nest_at) { auto f = c->nested; f(); }
  VectorXd out(c->P->n);
  c->P->rhs(x, y.data(), out.data());
  yp = out;
}
#if defined(RKF) || defined(VAR)
void feval(double x, const VectorXd &y, Eigen::Ref<VectorXd> yp, void *p) { eval(x, y, yp, (Ctx *)p); }
#else
void feval(double x, const VectorXd &y, Eigen::Ref<VectorXd> yp, dso::IntegrationParameters &p) noexcept { eval(x, y, yp, (Ctx *)p.user); }
#endif
// leave seeded rubbish on the stack below the caller
__attribute__((noinline, noipa)) void dirty_stack(uint32_t w) {
  volatile uint32_t a[4096];
  for (int i = 0; i < 4096; i++) a[i] = w;
}
uint32_t mem_word() {
  switch (draw(MEM, 6)) { case 0: return 0; case 1: return 3; case 2: return 0xffffffffu; case 3: return 1 + draw(MEM, 8); case 4: return 0x7ff7a5a5u; default: return draw(MEM, 0x7fffffff); }
}
// an integrator living in memory with arbitrary content
#ifdef RKF
typedef dso::RKF45 Int;
#else
typedef dso::SGOde Int;
#endif
struct Holder {
  alignas(16) unsigned char buf[sizeof(Int)];
  Int *o = nullptr;
  uint32_t word;
#if !defined(RKF) && !defined(VAR)
  dso::IntegrationParameters par;
#endif
  Holder(Ctx *c, double re, double ae, uint32_t w) : word(w) {
    for (size_t i = 0; i + 4 <= sizeof buf; i += 4) memcpy(buf + i, &w, 4);
#if defined(RKF) || defined(VAR)
    o = new (buf) Int(feval, c->P->n, re, ae, c);
#else
    par.user = c;
    o = new (buf) Int(feval, c->P->n, re, ae, &par);
#endif
  }
  ~Holder() { o->~Int(); }
  void call(double &t, double tout, VectorXd &y) {
    dirty_stack(word);
#ifdef RKF
    o->solve(t, tout, y);
#else
    VectorXd out(y.size());
    o->de(t, tout, y, out);
    int fl = std::abs(o->flag());
    if (fl >= 2 && fl <= 5) y = out;
#endif
  }
  int flag() { return o->flag(); }
};
// ------------------------------------------------- cost of a textbook integrator (Fehlberg 4(5)) from a to b
uint64_t textbook_cost(const Problem &P, double a, double b, double re, double ae) {
  static const double A[6][5] = {{}, {1. / 4}, {3. / 32, 9. / 32}, {1932. / 2197, -7200. / 2197, 7296. / 2197}, {439. / 216, -8, 3680. / 513, -845. / 4104}, {-8. / 27, 2, -3544. / 2565, 1859. / 4104, -11. / 40}};
  static const double C[6] = {0, 1. / 4, 3. / 8, 12. / 13, 1, 1. / 2}, b5[6] = {16. / 135, 0, 6656. / 12825, 28561. / 56430, -9. / 50, 2. / 55}, er[6] = {1. / 360, 0, -128. / 4275, -2197. / 75240, 1. / 50, 2. / 55};
  int n = P.n; std::vector<double> y(n), k(6 * n), z(n); P.exact(a, y.data());
  double t = a, h = 0; uint64_t evals = 1;
  P.rhs(t, y.data(), k.data());
  h = std::fabs(b - a);
  for (int i = 0; i < n; i++) { double tol = re * std::fabs(y[i]) + ae, q = std::fabs(k[i]); if (q * std::pow(h, 5) > tol) h = std::pow(tol / q, .2); }
  h = std::copysign(h, b - a);
  for (int it = 0; it < 2000000 && t != b; it++) {
    bool last = std::fabs(b - t) <= std::fabs(h); if (last) h = b - t;
    P.rhs(t, y.data(), k.data());
    for (int s = 1; s < 6; s++) { for (int i = 0; i < n; i++) { z[i] = y[i]; for (int j = 0; j < s; j++) z[i] += h * A[s][j] * k[j * n + i]; } P.rhs(t + C[s] * h, z.data(), k.data() + s * n); }
    double e = 0;
    for (int i = 0; i < n; i++) { double d = 0, u = y[i]; for (int s = 0; s < 6; s++) { d += h * er[s] * k[s * n + i]; u += h * b5[s] * k[s * n + i]; } z[i] = u; e = std::max(e, std::fabs(d) / (re * (std::fabs(y[i]) + std::fabs(u)) / 2 + ae)); }
    evals += 6;
    double f = std::min(5., std::max(.1, .9 / std::pow(std::max(e, 1e-30), .2)));
    if (e <= 1) { t = last ? b : t + h; y = z; } else f = std::min(f, .9);
    h *= f;
    if (std::fabs(h) < 1e-13 * std::max(std::fabs(t), std::fabs(b - a))) h = std::copysign(1e-13 * std::max(std::fabs(t), std::fabs(b - a)), h);
  }
  return evals;
}
// ------------------------------------------------- one integration history
struct Plan {
  Problem P;
  std::vector<double> size; // largest value per block
  double re = 1e-6, ae = 1e-6;
  std::vector<double> touts;
  std::vector<char> limit;
  std::vector<char> again;
  bool restart = false; // a new start (flag 1) at each call
};
struct Out { std::vector<double> v; std::vector<int> flags; uint64_t evals = 0; };

// allowed error per kind of equation, in units of the estimate below; about three times the largest seen in long runs
#ifdef RKF
const double COST = 2.5, COST_SEG = 10;
const double RATIO[] = {15, 15, 15, 15, 15, 15, 15, 15, 15};
#else
const double COST = 4, COST_SEG = 40;
const double RATIO[] = {1, 6, 10, 2, .8, 1.5, 2.5, 2.5, 5};
#endif
Plan make_plan(int maxblocks, double maxarc, bool limits) {
  Plan L;
  L.P = make_problem(maxblocks, maxarc);
  L.size.assign(L.P.B.size(), 0);
  for (int i = -32; i <= 32; i++) {
    VectorXd y(L.P.n); L.P.exact(L.P.t0 + i * L.P.span / 32, y.data());
    for (size_t b = 0; b < L.P.B.size(); b++) for (int q = 0; q < L.P.B[b].dim; q++) L.size[b] = std::max(L.size[b], std::fabs(y[L.P.B[b].off + q]));
  }
  double e = std::pow(10., Wc(150) ? -Wd(12, 13.5) : -Wd(4, 11));
#ifdef RKF
  e = std::pow(10., -Wd(4, 9));
#endif
  // stay clear of tolerances that let the numerical orbit fall into the centre
  for (auto &b : L.P.B) if (b.kind >= 3 && b.kind <= 5) e = std::min(e, 1e-2 * std::min(1., b.scale * std::min(1., b.w)) / (L.P.growth(b) * (1 + 10 * b.w * L.P.span)));
  switch (W(3)) {
  case 0: L.re = L.ae = e; break;
  case 1: L.re = e; L.ae = e * std::pow(10., -Wd(0, 3)); break;
  default: L.ae = e; L.re = e * std::pow(10., -Wd(0, 3)); break;
  }
#ifdef RKF
  L.re = Wc(60) ? Wd(0, 9e-13) : std::max(L.re, 1e-11); // a relative tolerance that is too small is raised
  if (Wc(60)) { bool ok = true; for (auto &b : L.P.B) ok = ok && (b.kind == 0 || b.kind == 5 || b.kind == 7); if (ok) L.ae = 0; }
#endif
  int n = 1 + (int)W(Wc(200) ? 40 : 10);
  int style = (int)W(5);
  bool neg = Wc(250);
  double pos = 0, sp = L.P.span;
  for (int i = 0; i < n; i++) {
    switch (style) {
    case 0: pos = sp * (i + 1) / n; break;                                  // even, forwards
    case 1: pos = Wd(0, 1) * sp; break;                                     // anywhere
    case 2: pos += (i % 7 == 6 ? 0.2 : 1e-6 * (1 + W(1000))) * sp; if (pos > sp) pos = sp * Wd(0, .1); break; // dense with jumps
    case 3: pos = (i & 1) ? pos - Wd(0, pos) : pos + Wd(0, sp - pos); break; // forth and back
    default: pos += Wd(0, 2. / n) * sp; if (pos > sp) pos = sp; break;      // uneven, forwards
    }
    double t = L.P.t0 + (neg ? -pos : pos);
    if (!L.touts.empty() && Wc(40)) { t = L.touts.back(); for (int k = 1 + (int)W(25), up = (int)W(2); k--;) t = std::nextafter(t, up ? 1e300 : -1e300); } // as close as it gets
    if (!L.touts.empty() && L.touts.back() == t) continue;
    if (L.touts.empty() && t == L.P.t0) continue;
    L.touts.push_back(t);
    L.limit.push_back(limits && Wc(300));
    L.again.push_back(limits && Wc(30));
  }
  if (L.touts.empty()) { L.touts.push_back(L.P.t0 + L.P.span); L.limit.push_back(0); L.again.push_back(0); }
  L.restart = limits && Wc(150);
  return L;
}
Out play(const Plan &L, Ctx &c, uint32_t word, const char *who, bool judge, Holder *use = nullptr) {
  const Problem &P = L.P;
  c.P = &P; c.who = who;
  Out R;
  std::unique_ptr<Holder> own;
  Holder *H = use;
  if (!H) { own.reset(new Holder(&c, L.re, L.ae, word)); H = own.get(); }
  VectorXd y(P.n), ex(P.n);
  double t = P.t0, at = P.t0, moved = 0, fastest = 0, re = L.re, ae = L.ae; int raised = 0;
  for (auto &b : P.B) fastest = std::max(fastest, b.kind == 8 ? b.w * (1 + 2 * b.a) : b.w);
  P.exact(t, y.data());
  for (size_t i = 0; i < L.touts.size(); i++) {
    double tout = L.touts[i];
    double dist = std::fabs(tout - at);
    if (!(dist > 0)) continue;
    bool tiny = dist < 1e-11 * std::max(std::fabs(tout), std::fabs(at)) ;
    int calls = 0;
    for (;;) {
#if !defined(RKF) && !defined(VAR)
      if (calls == 0 && L.restart && i) H->o->flag() = 1; // as the orbit programs do
      if (calls == 0 && i && L.again[i]) { // asked for the time it is at: refused, and nothing changes
        int keep = H->o->flag(); double tt = t; VectorXd yy = y;
        H->call(tt, t, yy);
        if (H->flag() != 6 || tt != t) fail("empty-interval", "%s: a call without an interval gave flag %d and time %.17g (was %.17g)", who, H->flag(), tt, t);
        for (int q = 0; q < P.n; q++) if (!same_double(y[q], yy[q])) fail("empty-interval", "%s: a call without an interval changed the state", who);
        H->o->flag() = keep;
        count("calls without an interval");
      }
      if (L.limit[i]) H->o->flag() = -std::abs(H->o->flag());
      c.limit = L.limit[i]; c.lim = tout; c.dir = tout > at ? 1 : -1;
#endif
      double tb = t;
      H->call(t, tout, y);
      c.limit = false;
      calls++;
      int fl = std::abs(H->flag());
      R.flags.push_back(fl);
      if (fl == 2) break;
      if (judge) note("%s: call %zu to %.17g stopped at %.17g with flag %d", who, i, tout, t, fl);
      for (int q = 0; q < P.n; q++) R.v.push_back(y[q]);
      R.v.push_back(t);
#ifdef RKF
      if (fl == 3 && L.re < 1.0000000001e-12 && i == 0 && calls == 1) {
        if (t != tb || c.evals) fail("refusal-moved", "%s: the relative tolerance was refused after %d evaluations, at %.17g instead of %.17g", who, (int)c.evals, t, tb);
        count("tolerance raised");
        continue;
      }
      if (fl != 4) fail("gives-up", "%s: flag %d for a smooth problem on the way to %.17g (from %.17g, tolerances %.1e/%.1e)", who, fl, tout, tb, L.re, L.ae);
#else
      if (fl == 3) { // tolerance refused
        double big = 0; for (int q = 0; q < P.n; q++) { double wt = (re * std::fabs(y[q]) + ae) / std::max(re, ae); big += (y[q] / wt) * (y[q] / wt); }
        if (std::max(re, ae) > 1e-14 * (1 + std::sqrt(big)) && !tiny) fail("tolerance-refused", "%s: tolerances %.1e/%.1e refused on the way to %.17g", who, re, ae, tout);
        // the tolerances have been raised to what can be reached, in the same proportion: going on must work
        double now = std::max(H->o->relerr, H->o->abserr), old = std::max(re, ae);
        if (!(H->o->relerr >= re && H->o->abserr >= ae && now > old) || now > 1e-14 * (1 + std::sqrt(big)) * 4 || std::fabs(H->o->relerr * ae - H->o->abserr * re) > 1e-12 * now * old) fail("tolerance-not-raised", "%s: refused tolerances %.6e/%.6e were changed to %.6e/%.6e", who, re, ae, H->o->relerr, H->o->abserr);
        re = H->o->relerr; ae = H->o->abserr;
        count("tolerance raised");
        if (++raised > 60) { R.evals = c.evals; return R; }
        continue;
      }
      if (fl != 4 && fl != 5) fail("gives-up", "%s: flag %d for a smooth problem on the way to %.17g (from %.17g)", who, fl, tout, tb);
#endif
      if (calls > 10 + 2 * dist * fastest) fail("no-progress", "%s: %d calls did not reach %.17g (at %.17g)", who, calls, tout, t);
      if (!((t - tb) * (tout - tb) >= 0) || (t - tout) * (tout - tb) > std::fabs(9 * dist * (tout - tb))) fail("wrong-way", "%s: moved from %.17g to %.17g on the way to %.17g", who, tb, t, tout);
      count("step limit stops");
    }
    moved += dist; at = tout;
    if (t != tout) fail("not-at-the-requested-time", "%s: success reported at %.17g instead of %.17g", who, t, tout);
    P.exact(tout, ex.data());
    for (auto &b : P.B) {
      double g = P.growth(b), size = L.size[&b - &P.B[0]];
      for (int q = 0; q < b.dim; q++) {
        double v = y[b.off + q], S = size, A = 1;
        if (b.kind == 3) { S = q < 2 ? b.scale : b.scale * b.w; A = q < 2 ? std::max(1., 1 / b.w) : std::max(1., b.w); }
        double bound = (re * S + ae * A + (b.kind == 8 ? 1e-13 : b.kind == 2 || b.kind == 1 ? 2e-14 : 6e-14) * S * std::sqrt(1. + c.evals)) * g * (1 + b.w * moved + i) + (2e-14 + 7e-17 * c.evals) * (std::fabs(tout) + P.span) * b.w * S * g; // the times are rounded at each step
        double ratio = std::fabs(v - ex[b.off + q]) / bound;
        // coarse tolerances: few, long steps
        if (!(ratio <= RATIO[b.kind] * (std::max(re, ae) > 3e-6 ? 5 : 1))) fail("wrong-solution", "%s: at %.17g variable %d is %.17g, the solution is %.17g (%.1f times the error allowed by tolerances %.1e/%.1e)", who, tout, b.off + q, v, ex[b.off + q], ratio, re, ae);
      }
    }
    observe_u(calls);
    for (int q = 0; q < P.n; q++) { R.v.push_back(y[q]); observe_d(y[q]); }
  }
  R.evals = c.evals;
#ifdef RKF
  if (judge && !use) { // no interval: refused, nothing changes
    double tt = t; VectorXd yy = y;
    H->call(tt, t, yy);
    if (H->flag() != 8 || tt != t || c.evals != R.evals) fail("empty-interval", "%s: a call without an interval gave flag %d and time %.17g (was %.17g)", who, H->flag(), tt, t);
    for (int q = 0; q < P.n; q++) if (!same_double(y[q], yy[q])) fail("empty-interval", "%s: a call without an interval changed the state", who);
  }
#endif
  return R;
}

void accuracy() {
  Plan L = make_plan(3, Wc(100) ? 60 : 15, true);
  Ctx c;
  max_edges = 400000000;
  note("dimension %d, tolerances %.2e/%.2e, t0 %.17g, span %g, %zu output times", L.P.n, L.re, L.ae, L.P.t0, L.P.span, L.touts.size());
  Out R = play(L, c, mem_word(), "integrator", true);
  observe_u(R.evals);
  if (R.flags.empty() || R.flags.back() == 2) { // the work is that of the method, not much more
    double ref = 0, at = L.P.t0;
#ifdef RKF
    double re = std::max(L.re, 1e-12), ae = L.ae;
#else
    double sc = std::max(1., 1e-9 / std::max(L.re, L.ae)), re = L.re * sc, ae = L.ae * sc;
#endif
    for (double t : L.touts) { if (t != at) ref += COST_SEG + textbook_cost(L.P, at, t, re, ae); at = t; }

    if (R.evals > COST * ref) fail("too-much-work", "%llu evaluations of the equations for an integration that takes a textbook method %g", (unsigned long long)R.evals, ref);
  }
  if (L.touts.size() > 2) nontrivial();
  if (Wc(80)) { // tolerances that mean nothing are refused, whatever is in the way
    Ctx z; z.P = &L.P;
#ifdef RKF
    const int refused = 8; int k = 1 + (int)W(3);
#else
    const int refused = 6; int k = (int)W(4);
#endif
    double re = k == 0 ? 0 : k == 1 || k == 3 ? -1e-6 : 1e-6, ae = k == 0 ? 0 : k == 2 || k == 3 ? -1e-6 : 1e-6;
    Holder H(&z, re, ae, mem_word());
    VectorXd y(L.P.n), y0(L.P.n); L.P.exact(L.P.t0, y.data()); y0 = y;
    double t = L.P.t0;
    H.call(t, L.touts[0], y);
    if (H.flag() != refused) fail("bad-tolerance", "tolerances %g/%g gave flag %d", re, ae, H.flag());
    if (t != L.P.t0) fail("bad-tolerance", "refused tolerances %g/%g moved the time", re, ae);
    for (int q = 0; q < L.P.n; q++) if (!same_double(y[q], y0[q])) fail("bad-tolerance", "refused tolerances %g/%g changed the state", re, ae);
    count("tolerances refused at once");
  }
  count("output times", L.touts.size());
}
bool same(const Out &a, const Out &b, std::string *why) {
  if (a.flags != b.flags) { *why = "statuses differ"; return false; }
  if (a.v.size() != b.v.size()) { *why = "number of results differs"; return false; }
  for (size_t i = 0; i < a.v.size(); i++) if (!same_double(a.v[i], b.v[i])) { *why = fmt("result %zu is %.17g instead of %.17g", i, b.v[i], a.v[i]); return false; }
  if (a.evals != b.evals) { *why = fmt("%d evaluations of the equations instead of %d", (int)b.evals, (int)a.evals); return false; }
  return true;
}
void isolation() {
  max_edges = 400000000;
  int n = 1 + (int)W(3);
  std::vector<Plan> L;
  for (int i = 0; i < n; i++) L.push_back(make_plan(2, Wc(150) ? 60 : 8, true));
  if (n > 1 && Wc(300)) { auto t = L[0].touts; L[1] = L[0]; }
  std::vector<Out> alone(n), R(n);
  std::vector<Ctx> C(n);
  for (int i = 0; i < n; i++) { Ctx c; alone[i] = play(L[i], c, 0, "alone", true); }
  std::string why;
  int how = n == 1 ? 2 : (int)W(3);
  if (how == 0) { // at the same time
    set_preempt_rate(draw(CONF, 3) ? 20 + draw(CONF, 3000) : 0);
    for (int i = 0; i < n; i++) {
      C[i].yields = true;
      uint32_t w = mem_word();
      spawn("integration", [&, i, w] { R[i] = play(L[i], C[i], w, "at the same time", false); });
    }
    run_tasks();
    set_preempt_rate(0);
    nontrivial();
    count("concurrent integrations");
  } else if (how == 1) { // one inside the equations of another
    uint32_t w = mem_word(), w2 = mem_word();
    C[0].nest_at = 1 + W((uint32_t)std::max<uint64_t>(1, alone[0].evals));
    C[0].nested = [&] { R[1] = play(L[1], C[1], w2, "nested", false); };
    R[0] = play(L[0], C[0], w, "outer", false);
    n = 2;
    nontrivial();
    count("nested integrations");
  } else { // one after the other
    for (int i = 0; i < n; i++) R[i] = play(L[i], C[i], mem_word(), "later", false);
    count("integrations in used memory");
  }
  for (int i = 0; i < n; i++) if (!(how == 1 && i == 1 && C[0].evals < C[0].nest_at) && !same(alone[i], R[i], &why)) fail("differs-from-alone", "integration %d (%s) gives another result than alone: %s", i, how == 0 ? "at the same time as another" : how == 1 ? "nested" : "again, in other memory", why.c_str());
#if !defined(RKF) && !defined(VAR)
  if (Wc(400)) { // the same object for a new problem of the same size
    Plan A = L[0], B = L[0];
    for (auto &b : B.P.B) if (b.kind != 3 && b.kind != 4) b.a *= 0.7;
    if (Wc(500)) { std::reverse(B.touts.begin(), B.touts.end()); std::reverse(B.limit.begin(), B.limit.end()); std::reverse(B.again.begin(), B.again.end()); }
    if (B.touts[0] == B.P.t0) return;
    Ctx ca, cb, cf;
    Out fresh = play(B, cf, 0, "fresh", true);
    ca.P = &A.P;
    Holder H(&ca, A.re, A.ae, mem_word());
    if (A.touts.size() > 1 && Wc(500)) { A.touts.resize(1 + W(A.touts.size())); A.limit.resize(A.touts.size()); }
    play(A, ca, 0, "first problem", false, &H);
    if (std::abs(H.flag()) == 3) return; // it changed its tolerances
    H.par.user = &cb;
    H.o->flag() = 1;
    Out again = play(B, cb, 0, "second problem", false, &H);
    nontrivial();
    count("reused integrators");
    if (!same(fresh, again, &why)) fail("reuse-differs", "a reused integrator gives another result than a fresh one: %s", why.c_str());
  }
#endif
  if (Wc(150)) { // long enough to hit the step limit
    Plan Q;
    Block b; b.kind = 1; b.dim = 2; b.a = Wd(0, 6); b.c = 0; b.w = Wc(500) ? 1 : Wd(.1, 100);
    Q.P.n = 2; Q.P.B.push_back(b); Q.size.push_back(1);
    Q.P.t0 = Wc(500) ? 0 : Wd(-10, 10);
    Q.P.span = (600 + 10 * W(100)) / b.w;
#ifdef RKF
    Q.re = Q.ae = 1e-6;
#else
    Q.re = Q.ae = std::pow(10., -Wd(5, 10));
#endif
    bool neg = Wc(300);
    Q.touts.push_back(Q.P.t0 + (neg ? -1 : 1) * Q.P.span * (1 + W(4)) / 5);
    Q.touts.push_back(Q.P.t0 + (neg ? -1 : 1) * Q.P.span);
    if (Q.touts[0] == Q.touts[1]) Q.touts.pop_back();
    Q.limit = Q.again = {0, 0};
    Ctx c;
    play(Q, c, mem_word(), "long integration", true);
    nontrivial();
    count("integrations past the step limit");
  }
}
} // namespace
int main(int argc, char **argv) {
#ifdef RKF
  return main_driver(argc, argv, {{"I03", [] { if (Wc(600)) accuracy(); else isolation(); }, "every reported success is at the requested time with the known solution within a small multiple of the tolerance; smooth problems are completed; integrations at the same time, nested or later give bitwise the same results"}});
#else
  return main_driver(argc, argv, {{"I01", accuracy, "every reported success is at the requested time with the known solution within a small multiple of the tolerance; smooth problems are completed; never evaluated past a limit"},
                                  {"I02", isolation, "bitwise equal to the same integration alone in fresh memory, for concurrent, nested, later and reused integrators; step-limit stops resume and finish"}});
#endif
}
