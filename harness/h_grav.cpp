// A01: gravity evaluations by several tasks sharing models, with work matrices reused over rubbish
#include "../sim/sim.hpp"
#include "harmonic_coeffs.hpp"
#include "egravity.hpp"
#include <cmath>
#include <memory>
#ifdef VAR
#include "compact2dmat.hpp"
#else
#include "cmat2d.hpp"
#endif
#include "grav_ref.hpp"
using namespace sim;
namespace {
typedef dso::Mat2D<dso::MatrixStorageType::Trapezoid> Mat;
struct Work { std::unique_ptr<Mat> V, W; int rows = 0, cols = 0; void make(int r, int c) { V.reset(new Mat(r, c)); W.reset(new Mat(r, c)); rows = r; cols = c; } };
struct Call { int m, degree, order, form; double pos[3]; };
const double poison = 1.2345e77;
void evaluate(const Model &m, const Call &c, Work &w, double *acc, double *part, bool &has_part, Rng &r) {
  has_part = false;
#ifdef VAR
  (void)r;
  if (w.rows < c.degree + 2 || w.cols < c.order + 2) w.make(c.degree + 2, c.order + 2);
  if (dso::lagrange_polynomials(c.pos[0], c.pos[1], c.pos[2], m.re, c.degree + 1, c.order + 1, *w.V, *w.W)) fail("refused", "polynomials of degree %d and order %d were refused", c.degree + 1, c.order + 1);
  for (int i = 0; i < 3; i++) acc[i] = poison;
  if (dso::grav_potential_accel(c.degree, c.order, m.re, m.gm, *w.V, *w.W, *m.hc, acc)) fail("refused", "degree %d and order %d were refused", c.degree, c.order);
#else
  Eigen::Matrix<double, 3, 1> P(c.pos[0], c.pos[1], c.pos[2]), a;
  Eigen::Matrix<double, 3, 3> G; for (int i = 0; i < 9; i++) G(i) = r.below(2) ? poison * (i + 1) : std::nan("");
  int extra = c.form & 1 ? 3 : 2; has_part = c.form & 1;
  switch (c.form) {
  case 0: // polynomials and acceleration in one call
    if (w.rows < c.degree + 2 || w.cols < c.order + 2) w.make(c.degree + 2, c.order + 2);
    a = dso::grav_potential_accel(P, c.degree, c.order, *w.V, *w.W, *m.hc); break;
  case 1: // with partials (exact sizes required)
    if (w.rows != c.degree + 3 || w.cols != c.order + 3) w.make(c.degree + 3, c.order + 3);
    a = dso::grav_potential_accel(P, c.degree, c.order, *w.V, *w.W, *m.hc, G); break;
  default: // step by step, in work matrices that may be larger
    if (w.rows < c.degree + extra || w.cols < c.order + extra) w.make(c.degree + extra + r.below(3), c.order + extra);
    if (w.cols > w.rows) w.make(c.degree + extra, c.order + extra);
    if (dso::lagrange_polynomials(P, m.re, c.degree + extra - 1, c.order + extra - 1, *w.V, *w.W)) fail("refused", "polynomials of degree %d and order %d were refused", c.degree + extra - 1, c.order + extra - 1);
    if (has_part) a = c.form & 4 ? dso::grav_potential_accel(c.degree, c.order, m.re, m.gm, *w.V, *w.W, *m.hc, G) : dso::grav_potential_accel(c.degree, c.order, *w.V, *w.W, *m.hc, G);
    else a = c.form & 4 ? dso::grav_potential_accel(c.degree, c.order, m.re, m.gm, *w.V, *w.W, *m.hc) : dso::grav_potential_accel(c.degree, c.order, *w.V, *w.W, *m.hc);
  }
  for (int i = 0; i < 3; i++) acc[i] = a(i);
  if (has_part) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) part[3 * i + j] = G(i, j);
#endif
  (void)part;
}
void check(const Model &m, const Call &c, const double *acc, const double *part, bool has_part, const char *who) {
  Result e = expected(m, c.degree, c.order, c.pos);
  std::string what = fmt("%s: degree %d, order %d at (%.1f %.1f %.1f)", who, c.degree, c.order, c.pos[0], c.pos[1], c.pos[2]);
  for (int i = 0; i < 3; i++) if (!(fabsl(acc[i] - e.acc[i]) <= 1e-11L * e.sa)) fail("acceleration", "%s: acceleration[%d] is %.15g, the gradient of the series is %.15Lg", what.c_str(), i, acc[i], e.acc[i]);
  if (has_part) for (int k = 0; k < 6; k++) for (int z = 0; z < 2; z++) {
    int i = z ? HJ[k] : HI[k], j = z ? HI[k] : HJ[k];
    if (!(fabsl(part[3 * i + j] - e.part[k]) <= 1e-11L * e.sp)) fail("partials", "%s: partial (%d,%d) is %.15g, the derivative of the series is %.15Lg", what.c_str(), i, j, part[3 * i + j], e.part[k]);
  }
  for (int i = 0; i < 3; i++) observe_d(acc[i]);
}
void a01() {
  max_edges = edges() + 800000000;
  if (draw(CONF, 3)) set_preempt_rate(100 << draw(CONF, 8));
  int nm = 1 + (int)W(2), nt = 1 + (int)W(3);
  std::vector<Model> M(nm);
  for (int k = 0; k < nm; k++) {
    Model &m = M[k]; Rng r = Wrng(); m.deg = 1 + (int)W(Wc(200) ? (Wc(150) ? (Wc(100) ? 210 : 130) : 20) : 7); m.gm = 3.986e14 * (1 + r.below(2) * r.u()); m.re = 6.378e6 * (1 + r.below(2) * r.u() * .1);
#ifdef VAR
    m.hc.reset(new dso::HarmonicCoeffs(m.deg));
#else
    m.hc.reset(new dso::HarmonicCoeffs(m.deg, m.gm, m.re)); m.hc->denormalize();
#endif
    double all = r.below(2) ? 1 : 1e-3;
    m.C.assign(m.deg + 1, std::vector<double>(m.deg + 1, 0.)); m.S = m.C;
    for (int n = 0; n <= m.deg; n++) for (int j = 0; j <= n; j++) {
      m.C[n][j] = n ? r.d(-1, 1) * all * nf(n, j) : r.below(2); m.hc->C(n, j) = m.C[n][j];
      if (j) { m.S[n][j] = r.d(-1, 1) * all * nf(n, j); m.hc->S(n, j) = m.S[n][j]; }
    }
    note("model %d: degree %d", k, m.deg);
  }
  for (int i = 0; i < nt; i++) {
    uint64_t s = W(1u << 30); int calls = 1 + (int)W(M[0].deg > 40 || M.back().deg > 40 ? 2 : 8); bool own = Wc(500);
    spawn(fmt("task %d", i).c_str(), [&, s, calls, own, i] {
      Rng r(s); Work w, w2; std::string who = fmt("task %d", i);
      for (int q = 0; q < calls; q++) {
        Call c; c.m = r.below(nm); Model &m = M[c.m];
        c.degree = r.below(25) ? 1 + r.below(m.deg) : 0; c.order = r.below(3) ? r.below(c.degree + 1) : c.degree; if (c.order > 140) c.order = r.below(140); c.form = r.below(8);
        L rad = m.re * (1 + r.u() * (r.below(3) ? .3 : 5)); double z = r.below(15) == 0 ? (r.below(2) ? 1 : -1) : r.d(-1, 1), lon = r.below(15) == 0 ? r.below(4) * M_PI / 2 : r.d(0, 7);
        c.pos[0] = rad * sqrt(1 - z * z) * cos(lon); c.pos[1] = rad * sqrt(1 - z * z) * sin(lon); c.pos[2] = rad * z;
        Work &u = own && r.below(2) ? w2 : w; if (r.below(3) == 0) u = Work();
        double acc[3], part[9]; bool hp;
        evaluate(m, c, u, acc, part, hp, r);
        check(m, c, acc, part, hp, who.c_str());
        count("evaluations"); if (hp) count("evaluations with partials"); nontrivial();
      }
    });
  }
  run_tasks();
}
} // namespace
int main(int argc, char **argv) { return main_driver(argc, argv, {{"A01", a01, "every evaluation equals the gradient (and the partials the second derivatives) of the series, whatever the work matrices held before and whatever runs at the same time"}}); }
