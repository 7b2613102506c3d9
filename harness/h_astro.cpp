// A02, A04, A05, A06: orbits, force formulas, observation corrections and analytic Sun and Moon, asked for by
// satellites and stations that run as preempted tasks over rubbish memory, along simulated flights
#include "../sim/sim.hpp"
#include "astrodynamics.hpp"
#include "atmosphere.hpp"
#include "doris_observation_equations.hpp"
#include "geodesy/units.hpp"
#include "planetpos.hpp"
#include <array>
#include <cmath>
using namespace sim;
typedef long double L;
namespace {
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef std::array<L, 6> S6;
const L PI2 = 2 * M_PIl;
void maybe_preempt() { if (draw(CONF, 3)) set_preempt_rate(60 << draw(CONF, 8)); }
__attribute__((noinline)) void rubbish(Rng &r) { // what earlier calls leave on the stack
  volatile uint64_t a[400]; uint64_t k = r.below(3), v = k == 0 ? 0x7ff8dead00000000ull : k == 1 ? r.next() : 0x4340000000000000ull;
  for (auto &x : a) x = v;
}
int users(int max) { return 1 + (int)W(max); }
template <class F> void crowd(const char *kind, F f) {
  maybe_preempt();
  int nt = users(3);
  for (int i = 0; i < nt; i++) { uint64_t s = W(1u << 30); int calls = 1 + (int)W(25); spawn(fmt("%s %d", kind, i).c_str(), [=] { Rng r(s); f(r, fmt("%s %d", kind, i), calls); }); }
  run_tasks();
}
double ang(double a, L b) { return (double)fabsl(remainderl((L)a - b, PI2)); }
// ------------------------------------------------------------ two-body motion in extended precision
struct El { double a, e, i, O, o, M; };
void rot313(L O, L i, L o, L R[3][3]) {
  L cO = cosl(O), sO = sinl(O), ci = cosl(i), si = sinl(i), co = cosl(o), so = sinl(o);
  R[0][0] = cO * co - sO * so * ci; R[0][1] = -cO * so - sO * co * ci; R[0][2] = sO * si;
  R[1][0] = sO * co + cO * so * ci; R[1][1] = -sO * so + cO * co * ci; R[1][2] = -cO * si;
  R[2][0] = so * si; R[2][1] = co * si; R[2][2] = ci;
}
L solve(L ec, L es, L m) { // x - ec sin x + es (1 - cos x) = m
  L lo = m - 4, hi = m + 4, x = m;
  for (int k = 0; k < 400; k++) {
    L f = x - ec * sinl(x) + es * (1 - cosl(x)) - m, d = 1 - ec * cosl(x) + es * sinl(x);
    (f > 0 ? hi : lo) = x;
    L y = x - f / d; if (!(y > lo && y < hi)) y = (lo + hi) / 2;
    if (fabsl(y - x) < 1e-20L * (1 + fabsl(x))) { x = y; break; }
    x = y;
  }
  return x;
}
S6 perifocal(L GM, L a, L e, L M) {
  M = fmodl(M, PI2); L E = solve(e, 0, M), c = cosl(E), s = sinl(E), f = sqrtl((1 - e) * (1 + e)), r = a * (1 - e * c), v = sqrtl(GM * a) / r;
  return {a * (c - e), a * f * s, 0, -v * s, v * f * c, 0};
}
S6 rotate(const S6 &p, L O, L i, L o) { L R[3][3]; rot313(O, i, o, R); S6 y; for (int k = 0; k < 3; k++) { y[k] = y[k + 3] = 0; for (int j = 0; j < 3; j++) y[k] += R[k][j] * p[j], y[k + 3] += R[k][j] * p[j + 3]; } return y; }
S6 at_l(L GM, const L *q, L dt) { return rotate(perifocal(GM, q[0], q[1], q[5] + sqrtl(GM / q[0]) / q[0] * dt), q[3], q[2], q[4]); }
S6 at(L GM, const El &q, L dt) { L x[6] = {q.a, q.e, q.i, q.O, q.o, q.M}; return at_l(GM, x, dt); }
S6 fly(L GM, const S6 &y, L dt) {
  L r = sqrtl(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), v2 = y[3] * y[3] + y[4] * y[4] + y[5] * y[5], rv = y[0] * y[3] + y[1] * y[4] + y[2] * y[5];
  L a = 1 / (2 / r - v2 / GM), n = sqrtl(GM / a) / a, ec = 1 - r / a, es = rv / sqrtl(GM * a), m = fmodl(n * dt, PI2), x = solve(ec, es, m);
  L f = 1 - a / r * (1 - cosl(x)), g = (m - (x - sinl(x))) / n, q = a * (1 - ec * cosl(x) + es * sinl(x)), fd = -sqrtl(GM * a) / (r * q) * sinl(x), gd = 1 - a / q * (1 - cosl(x));
  S6 z; for (int k = 0; k < 3; k++) z[k] = f * y[k] + g * y[k + 3], z[k + 3] = fd * y[k] + gd * y[k + 3];
  return z;
}
V6 dbl(const S6 &y) { V6 o; for (int k = 0; k < 6; k++) o(k) = (double)y[k]; return o; }
S6 lng(const V6 &y) { S6 o; for (int k = 0; k < 6; k++) o[k] = y(k); return o; }
struct Orbit {
  double GM; El q; std::string who; dso::OrbitalElements E;
  double n() const { return sqrt(GM / q.a) / q.a; }
  void set() { E.semimajor() = q.a; E.eccentricity() = q.e; E.inclination() = q.i; E.Omega() = q.O; E.omega() = q.o; E.mean_anomaly() = q.M; }
};
double angle(Rng &r) {
  switch (r.below(8)) { case 0: return 0; case 1: return M_PI / 2; case 2: return M_PI; case 3: return 1.5 * M_PI; case 4: return r.u() * 1e-7; case 5: return 2 * M_PI - r.u() * 1e-7; default: return r.u() * 2 * M_PI; }
}
void pick(Orbit &o, Rng &r) {
  o.GM = r.below(4) ? 3.986004418e14 : r.d(1e13, 2e15);
  switch (r.below(6)) { case 0: o.q.e = 0; break; case 1: o.q.e = r.u() * 1e-6; break; case 2: o.q.e = r.d(1e-4, 2e-3); break; case 3: o.q.e = r.d(.7, .95); break; default: o.q.e = r.d(0, .7); }
  o.q.a = r.d(6.7e6, 5e7); o.q.i = r.below(4) == 0 ? M_PI / 2 + r.d(-1, 1) * 1e-3 : r.d(.03, M_PI - .03); if (r.below(12) == 0) o.q.i = M_PI / 2;
  o.q.O = angle(r); o.q.o = angle(r); o.q.M = angle(r);
  o.set();
}
// how far a result may be off: rounding of the inputs and of the phase, carried along the orbit
struct Tol { double p, v; };
Tol tolerance(const Orbit &o, double ndt, double cond = 1) {
  double k = 4e-15 * (20 + 3 * fabs(ndt)) * cond, g = 1 - o.q.e, n = sqrt(o.GM / o.q.a) / o.q.a;
  return {o.q.a * k / (g * g), n * o.q.a * k / (g * g * g * g)};
}
void same(const Orbit &o, const char *what, const V6 &got, const S6 &want, Tol t) {
  double dp = 0, dv = 0; bool ok = true;
  for (int k = 0; k < 3; k++) { dp = std::max(dp, (double)fabsl(got(k) - want[k])); dv = std::max(dv, (double)fabsl(got(k + 3) - want[k + 3])); ok &= got(k) == got(k) && got(k + 3) == got(k + 3); }
  if (!ok || !(dp <= t.p) || !(dv <= t.v)) fail("wrong-state", "%s: %s of the orbit a=%.3f e=%.10f i=%.6f node=%.6f perigee=%.6f M=%.6f is off by %.4g m, %.4g m/s (allowed %.2g, %.2g)", o.who.c_str(), what, o.q.a, o.q.e, o.q.i, o.q.O, o.q.o, o.q.M, dp, dv, t.p, t.v);
}
V6 join(const dso::Vector3 &r, const dso::Vector3 &v) { V6 y; y << r.x(), r.y(), r.z(), v.x(), v.y(), v.z(); return y; }
dso::Vector3 v3(double a, double b, double c) { dso::Vector3 v; v.x() = a; v.y() = b; v.z() = c; return v; }
void elements_ok(const Orbit &o, const char *what, const dso::OrbitalElements &g, double M) {
  double k = 2e-13 / ((1 - o.q.e) * (1 - o.q.e)), si = sin(o.q.i), e = o.q.e;
  bool bad = !(fabs(g.semimajor() - o.q.a) < o.q.a * k) || !(fabs(g.eccentricity() - e) < k + (e < 1e-6 ? 2e-8 : 0)) || !(fabs(g.inclination() - o.q.i) < k / si) || !(ang(g.Omega(), o.q.O) < k / si);
  double ang0 = std::min(4., k / std::max(e, 1e-30) / si);
  if (e > 1e-9) bad |= !(ang(g.omega(), o.q.o) < ang0) || !(ang(g.mean_anomaly(), M) < ang0);
  for (double x : {g.Omega(), g.omega(), g.mean_anomaly()}) bad |= !(x >= 0 && x <= 2 * M_PI);
  if (bad) fail("wrong-elements", "%s: %s gives a=%.4f e=%.12f i=%.10f node=%.10f perigee=%.10f M=%.10f for a=%.4f e=%.12f i=%.10f node=%.10f perigee=%.10f M=%.10f", o.who.c_str(), what, g.semimajor(), g.eccentricity(), g.inclination(), g.Omega(), g.omega(), g.mean_anomaly(), o.q.a, e, o.q.i, o.q.O, o.q.o, M);
}
void kepler_extreme(Rng &r, const std::string &who) { // nearly parabolic, or a tolerance out of reach: the status has to tell
  double e = r.below(3) ? 1 - pow(10, -r.d(1.5, 15)) : r.d(0, .99), M; int st = 99;
  switch (r.below(5)) { case 0: M = 0; break; case 1: M = r.d(-1, 1) * pow(10, -r.d(2, 15)); break; case 2: M = 2 * M_PI * (int)(r.below(3)) + pow(10, -r.d(2, 15)); break; default: M = r.d(-7, 14); }
  double tol = r.below(3) ? 1e2 * 2.220446049250313e-16 : r.below(4) ? pow(10, -r.d(3, 13)) : r.below(2) ? 1e-18 : 0;
  bool val = r.below(2);
  double E = val ? dso::kepler_vallado(e, M, st, tol) : dso::kepler(e, M, st, tol), m = fmod(M, 2 * M_PI); if (m < 0) m += 2 * M_PI;
  count(st ? "Kepler equations given up" : "Kepler equations (extreme)"); observe_u(!st);
  if (st) return;
  double res = fabs((double)((L)E - (L)e * sinl((L)E) - m)); if (!(res <= tol + 8e-15)) fail("kepler-wrong", "%s: the solution %.15g of Kepler's equation%s for e=1-%.3g M=%.9g leaves %.3g (tolerance %.2g), the status is 0", who.c_str(), E, val ? " (Vallado)" : "", 1 - e, M, res, tol);
}
void kepler_ok(Rng &r, const std::string &who) {
  if (r.below(3) == 0) return kepler_extreme(r, who);
  double e = r.below(5) == 0 ? 0 : r.below(3) ? r.d(0, .8) : r.d(.75, .97), M; int st = 99;
  switch (r.below(6)) { case 0: M = 0; break; case 1: M = r.d(-1, 1) * 1e-6; break; case 2: M = r.d(-1e4, 1e4); break; case 3: M = M_PI * (int)(r.below(9)) - 4 * M_PI; break; default: M = r.d(0, 2 * M_PI); }
  double tol = r.below(3) ? 1e2 * 2.220446049250313e-16 : pow(10, -r.d(6, 13));
  bool val = r.below(2);
  double E = val ? dso::kepler_vallado(e, M, st, tol) : dso::kepler(e, M, st, tol);
  L want = solve(e, 0, fmodl(M, 2 * (L)M_PI)); // the normalisation uses the double value of 2 pi
  double d = ang(E, want), allow = (tol + 4e-15 * (1 + fabs(M) * 1e-1)) / (1 - e);
  if (st) fail("kepler-not-solved", "%s: %s equation for e=%.6f M=%.9g: status %d", who.c_str(), val ? "Kepler's (Vallado)" : "Kepler's", e, M, st);
  if (!(d <= allow)) fail("kepler-wrong", "%s: the solution %.15g of Kepler's equation%s for e=%.9f M=%.9g is off by %.3g (tolerance %.2g)", who.c_str(), E, val ? " (Vallado)" : "", e, M, d, tol);
  if (!(E > -1e-5 && E < 2 * M_PI + 1e-5)) fail("kepler-range", "%s: eccentric anomaly %.9g", who.c_str(), E);
  count("Kepler equations"); observe_d(E);
}
void a02() {
  crowd("craft", [](Rng &r, std::string who, int calls) {
    Orbit o; o.who = who; pick(o, r);
    double t = 0; S6 now = at(o.GM, o.q, 0); V6 run = dbl(now); S6 runref = lng(run); double phase = 0;
    for (int c = 0; c < calls; c++) {
      rubbish(r);
      double P = 2 * M_PI / o.n(), dt;
      switch (r.below(7)) { case 0: dt = 0; break; case 1: dt = r.d(-1, 1); break; case 2: dt = -t; break; case 3: dt = r.d(-20, 20) * P; break; case 4: dt = P * ((int)r.below(9) - 4) / 4.; break; default: dt = r.d(-.7, .7) * P; }
      if (r.below(40) == 0) { pick(o, r); t = dt = phase = 0; run = dbl(at(o.GM, o.q, 0)); runref = lng(run); }
      double T = t + dt, ndt = o.n() * T; S6 y = at(o.GM, o.q, T); Tol tol = tolerance(o, ndt);
      V6 yd = dbl(y); int st = 99;
      double Mt = (double)fmodl((L)o.q.M + sqrtl((L)o.GM / o.q.a) / o.q.a * T, PI2); if (Mt < 0) Mt += 2 * M_PI;
      Orbit ot = o; ot.q.M = Mt; ot.set();
      auto elements = [&](int k) { dso::OrbitalElements g; if (k) g = dso::state2elements(o.GM, yd); else if (dso::state2elements(v3(yd(0), yd(1), yd(2)), v3(yd(3), yd(4), yd(5)), g, o.GM)) fail("conversion-refused", "%s: state2elements", who.c_str()); return g; };
      switch (r.below(12)) {
      case 0: {
        dso::Vector3 a = v3(7e77, 7e77, 7e77), b = a;
        if (dso::elements2state(o.E, T, a, b, o.GM)) fail("conversion-refused", "%s: elements2state", who.c_str());
        same(o, "the state from the elements", join(a, b), y, tol); count("states from elements"); break;
      }
      case 1: { V6 g = dso::elements2state(o.GM, T, o.E, st); if (st) fail("conversion-refused", "%s: elements2state: %d", who.c_str(), st); same(o, "the state from the elements", g, y, tol); observe_d(g(0)); count("states from elements"); break; }
      case 2: same(o, "the propagated state", dso::propagate_state(o.GM, o.E, T), y, tol); count("propagations"); break;
      case 3: { auto g = elements(r.below(2)); elements_ok(o, "state2elements", g, Mt); count("elements from states");
        int k = r.below(2); V6 z; if (k) z = dso::elements2state(o.GM, 0, g, st); else z = dso::propagate_state(o.GM, g, 0.);
        same(o, "the state converted to elements and back", z, y, tolerance(o, 0, 30 / sin(o.q.i))); count("round trips"); break; }
      case 4: { // perifocal frame
        V6 p; int k = r.below(2); p = k ? dso::elements2perifocal(o.GM, o.E, T) : dso::elements2perifocal(o.GM, ot.E);
        S6 w = perifocal(o.GM, o.q.a, o.q.e, (L)o.q.M + sqrtl((L)o.GM / o.q.a) / o.q.a * T);
        same(o, "the perifocal state", p, w, tol);
        if (r.below(2)) same(o, "the perifocal state turned to the equatorial frame", dso::perifocal2equatorial(o.E, p), y, tolerance(o, ndt, 3));
        else { dso::Vector3 a, b; if (dso::perifocal2equatorial(o.E, v3(p(0), p(1), p(2)), v3(p(3), p(4), p(5)), a, b)) fail("conversion-refused", "%s: perifocal2equatorial", who.c_str()); same(o, "the perifocal state turned to the equatorial frame", join(a, b), y, tolerance(o, ndt, 3)); }
        count("perifocal states"); break;
      }
      case 5: { S6 w = perifocal(o.GM, o.q.a, o.q.e, (L)o.q.M + sqrtl((L)o.GM / o.q.a) / o.q.a * T);
        if (r.below(2)) same(o, "the equatorial state turned to the perifocal frame", dso::equatorial2perifocal(o.E, yd), w, tolerance(o, ndt, 3));
        else { dso::Vector3 a, b; if (dso::equatorial2perifocal(o.E, v3(yd(0), yd(1), yd(2)), v3(yd(3), yd(4), yd(5)), a, b)) fail("conversion-refused", "%s: equatorial2perifocal", who.c_str()); same(o, "the equatorial state turned to the perifocal frame", join(a, b), w, tolerance(o, ndt, 3)); }
        dso::Mat3x3 m = dso::perifocal2equatorial_matrix(o.q.O, o.q.o, o.q.i); L R[3][3]; rot313(o.q.O, o.q.i, o.q.o, R);
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (!(fabsl(m(a, b) - R[a][b]) < 1e-15L * 4)) fail("wrong-rotation", "%s: element (%d,%d) of the rotation to the perifocal frame is %.12f, should be %.12Lf", who.c_str(), a, b, m(a, b), R[a][b]);
        count("perifocal states"); break; }
      case 6: { // on from the last state
        double P2 = o.n() * dt; phase += fabs(P2); runref = fly(o.GM, runref, dt);
        M6 phi; if (o.q.e > 1e-5 && r.below(3) == 0) run = dso::propagate_state(o.GM, run, dt, phi); else run = dso::propagate_state(o.GM, run, dt);
        same(o, "the state propagated step by step", run, runref, tolerance(o, phase * 20, 30 * (1 + c) / sin(o.q.i))); count("propagation steps"); t = T; break;
      }
      case 7: { // transition matrix
        if (o.q.e < 1e-4) { count("skipped (circular)"); break; }
        double P3 = std::max(-40., std::min(40., o.n() * dt)); dt = P3 / o.n();
        V6 y0 = dbl(at(o.GM, o.q, t)); M6 phi; phi.setConstant(r.below(2) ? 7e77 : 0);
        V6 z = dso::propagate_state(o.GM, y0, dt, phi); S6 zr = fly(o.GM, lng(y0), dt);
        same(o, "the state propagated with partials", z, zr, tolerance(o, P3 * 20, 30 / sin(o.q.i)));
        L sp = o.q.a, sv = o.n() * o.q.a; double g = 1 - o.q.e, kt = 1e-11 * (1 + fabs(P3)) * (1 + fabs(P3)) / (o.q.e * sin(o.q.i) * g * g * g * g * g);
        for (int j = 0; j < 6; j++) {
          L h = (j < 3 ? sp : sv) * g * g * 1e-5L / (1 + fabsl(P3)); S6 d; S6 p[4]; int q = 0;
          for (int m : {-2, -1, 1, 2}) { S6 x = lng(y0); x[j] += m * h; p[q++] = fly(o.GM, x, dt); }
          for (int k = 0; k < 6; k++) { d[k] = (8 * (p[2][k] - p[1][k]) - (p[3][k] - p[0][k])) / (12 * h); L sc = (k < 3 ? sp : sv) / (j < 3 ? sp : sv); double er = (double)(fabsl(phi(k, j) - d[k]) / sc);
            if (!(er < kt + 1e-9 / (g * g * g * g * g * g))) fail("wrong-transition", "%s: element (%d,%d) of the transition matrix over %.1f s is %.9g, should be %.9Lg (e=%.6f i=%.4f, off by %.2g, allowed %.2g)", who.c_str(), k, j, dt, phi(k, j), d[k], o.q.e, o.q.i, er, kt); }
        }
        count("transition matrices"); break;
      }
      case 8: { // partials with respect to the elements
        double P3 = std::max(-40., std::min(40., o.n() * dt)); dt = P3 / o.n();
        M6 A = dso::state_partials(o.GM, o.E, dt); L q[6] = {o.q.a, o.q.e, o.q.i, o.q.O, o.q.o, o.q.M}; double g = 1 - o.q.e;
        if (o.q.e < 1e-4) { count("skipped (circular)"); break; }
        for (int j = 0; j < 6; j++) {
          L h = (j == 0 ? (L)o.q.a * 1e-5L : j == 1 ? std::min<L>(o.q.e / 4, 1e-5L) : 1e-5L) * g * g * g / (1 + fabsl(P3)), d; S6 p[4]; int k2 = 0;
          for (int m : {-2, -1, 1, 2}) { L x[6]; std::copy(q, q + 6, x); x[j] += m * h; p[k2++] = at_l(o.GM, x, dt); }
          for (int k = 0; k < 6; k++) { d = (8 * (p[2][k] - p[1][k]) - (p[3][k] - p[0][k])) / (12 * h); L sc = (k < 3 ? o.q.a : o.n() * o.q.a) / (j == 0 ? o.q.a : 1); double er = (double)(fabsl(A(k, j) - d) / sc);
            if (!(er < 1e-9 * (1 + fabs(P3)) / (g * g * g * g * g * g))) fail("wrong-partials", "%s: derivative of state component %d with respect to element %d after %.1f s is %.9g, should be %.9Lg (e=%.6f)", who.c_str(), k, j, dt, A(k, j), d, o.q.e); }
        }
        count("element partials"); break;
      }
      case 9: { // classical elements, three ways
        if (o.q.e < 1e-3) { count("skipped (circular)"); break; }
        double s[6], k[6] = {7e77, 7e77, 7e77, 7e77, 7e77, 7e77}; for (int j = 0; j < 6; j++) s[j] = yd(j);
        int w = r.below(3), rc = w == 0 ? dso::state2kepler(s, k, o.GM) : w == 1 ? dso::alternatives::state2kepler_vallado(s, k, o.GM) : dso::alternatives::state2kepler_montenbruck(s, k, o.GM);
        static const char *nm[] = {"state2kepler", "state2kepler_vallado", "state2kepler_montenbruck"};
        L E = solve(o.q.e, 0, Mt), nu = atan2l(sqrtl((1 - (L)o.q.e) * (1 + (L)o.q.e)) * sinl(E), cosl(E) - o.q.e), h = sqrtl((L)o.GM * o.q.a * (1 - (L)o.q.e) * (1 + (L)o.q.e));
        double at = 2e-6 / (o.q.e * sin(o.q.i) * (1 - o.q.e) * (1 - o.q.e));
        if (rc || !(fabs(k[0] - (double)h) < 1e-12 * (double)h / (1 - o.q.e)) || !(fabs(k[1] - o.q.i) < 1e-12 / sin(o.q.i)) || !(ang(k[2], o.q.O) < 1e-7 / sin(o.q.i)) || !(fabs(k[3] - o.q.e) < 1e-12 / (1 - o.q.e) / (1 - o.q.e) / o.q.e) || !(ang(k[4], o.q.o) < at) || !(ang(k[5], nu) < at))
          fail("wrong-elements", "%s: %s gives h=%.9g i=%.9f node=%.9f e=%.9f perigee=%.9f anomaly=%.9f (%d) for h=%.9Lg i=%.9f node=%.9f e=%.9f perigee=%.9f anomaly=%.9Lf", who.c_str(), nm[w], k[0], k[1], k[2], k[3], k[4], k[5], rc, h, o.q.i, o.q.O, o.q.e, o.q.o, nu);
        for (int j : {2, 4, 5}) if (!(k[j] >= 0 && k[j] <= 2 * M_PI) && w != 2) fail("element-range", "%s: %s gives an angle of %.9g", who.c_str(), nm[w], k[j]);
        count("classical elements"); break;
      }
      case 10: { // right ascension and declination
        double x = yd(0), yy = yd(1), z = yd(2), a = 7e77, d = 7e77;
        switch (r.below(6)) { case 0: yy = 0; break; case 1: x = 0; break; case 2: z = 0; break; case 3: yy = yd(1) * 1e-9; break; default: break; }
        if (x == 0 && yy == 0) x = 1e6;
        if (dso::pos2ad(v3(x, yy, z), a, d)) fail("conversion-refused", "%s: pos2ad", who.c_str());
        L wa = atan2l(yy, x), wd = atan2l(z, sqrtl((L)x * x + (L)yy * yy));
        double al = 3e-8 / (double)cosl(wd); // an arc cosine may have been used
        if (!(ang(a, wa) < al) || !(fabs(d - (double)wd) < 1e-7) || !(a >= 0 && a <= 2 * M_PI)) fail("wrong-direction", "%s: right ascension %.9f declination %.9f of (%.6g, %.6g, %.6g), should be %.9Lf %.9Lf", who.c_str(), a, d, x, yy, z, wa < 0 ? wa + PI2 : wa, wd);
        count("directions"); break;
      }
      default: kepler_ok(r, who);
      }
      nontrivial();
    }
  });
}
// ------------------------------------------------------------ force formulas
struct Shadow { double v[4]; bool sure[4]; }; // conical, cylinder, scaled cylinder, cones (three states)
const L RE = 6378136.6L, RS = 696000000.L, AU = 149597870700.L;
Shadow shadow(const dso::Vector3 &a, const dso::Vector3 &b) {
  Shadow o; for (int k = 0; k < 4; k++) o.v[k] = 1, o.sure[k] = true;
  L s[3] = {a.d[0], a.d[1], a.d[2]}, u[3] = {b.d[0], b.d[1], b.d[2]}, d[3]; for (int k = 0; k < 3; k++) d[k] = u[k] - s[k];
  auto nrm = [](const L *x) { return sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); };
  auto cross = [&](const L *x, const L *y) { L c[3] = {x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; return nrm(c); };
  auto dot = [](const L *x, const L *y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
  L r = nrm(s), D = nrm(d), te = asinl(RE / r), ts = asinl(RS / D), t = atan2l(cross(s, d), -dot(s, d));
  // discs of Earth and Sun as seen from the satellite
  if (t >= te + ts) o.v[0] = 1; else if (t <= te - ts) o.v[0] = 0;
  else { L A = acosl((ts * ts + t * t - te * te) / (2 * ts * t)), B = acosl((te * te + t * t - ts * ts) / (2 * te * t)); o.v[0] = (double)(1 - (ts * ts * (A - sinl(A) * cosl(A)) + te * te * (B - sinl(B) * cosl(B))) / (M_PIl * ts * ts)); }
  o.sure[0] = fabsl(t - te - ts) > 1e-12L && fabsl(t - te + ts) > 1e-12L;
  L U = nrm(u), along = dot(s, u) / U, perp = cross(s, u) / U;
  o.v[1] = along > 0 || perp > RE; o.sure[1] = fabsl(along) > 1e-3L && fabsl(perp - RE) > 1e-3L;
  L f = 1 + 1 / 298.257222101L, zs[3] = {s[0], s[1], s[2] * f}, zu[3] = {u[0], u[1], u[2] * f}, za = dot(zs, zu) / nrm(zu), zp = cross(zs, zu) / nrm(zu);
  o.v[2] = za >= 0 || zp >= RE; o.sure[2] = fabsl(za) > 1e-3L && fabsl(zp - RE) > 1e-1L;
  L sp = (RS + RE) / AU, su = (RS - RE) / AU, pen = tanl(asinl(sp)) * (RE / sp - along), umb = tanl(asinl(su)) * (RE / su + along);
  o.v[3] = along >= 0 || perp > pen ? 1 : perp <= umb ? 0 : .5; o.sure[3] = fabsl(along) > 1e-3L && fabsl(perp - pen) > 1e-1L && fabsl(perp - umb) > 1e-1L;
  return o;
}
double table_density(double h) {
  static const double T[][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549}, {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523}, {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.00}};
  int k = 0; while (k < 27 && h >= T[k + 1][0]) k++;
  return T[k][1] * exp(-(h - T[k][0]) / T[k][2]);
}
V3 dir(Rng &r) { V3 d; do d << r.d(-1, 1), r.d(-1, 1), r.d(-1, 1); while (d.norm() < .1 || d.norm() > 1); return d.normalized(); }
double rel(const M3 &a, const M3 &b) { double w = (a - b).cwiseAbs().maxCoeff() / (b.cwiseAbs().maxCoeff() + 1e-300); return w == w ? w : 1e99; }
double rel(const V3 &a, const V3 &b) { double w = (a - b).norm() / (b.norm() + 1e-300); return w == w ? w : 1e99; }
void a04() {
  crowd("craft", [](Rng &r, std::string who, int calls) {
    double R = r.d(6.45e6, 4.3e7), sunday = r.d(0, 6.3); V3 u = dir(r), w = u.cross(dir(r)).normalized(), x = u.cross(w); // plane of the orbit
    double phase = r.d(0, 6.3); V3 sundir = r.below(3) ? V3((u * cos(sunday) + x * sin(sunday) + r.d(-.2, .2) * w).normalized()) : dir(r);
    if (r.below(6) == 0) { sundir.setZero(); sundir((int)r.below(3)) = r.below(2) ? 1 : -1; }
    for (int c = 0; c < calls; c++) {
      rubbish(r);
      phase += r.d(0, .5); V3 p = R * (u * cos(phase) + x * sin(phase)); V3 sun = sundir * r.d(1.47e11, 1.521e11);
      switch (r.below(5)) {
      case 0: case 1: { // eclipse
        V3 n = sundir.cross(V3(sundir(1), sundir(2), -sundir(0) + .3)).normalized(); V3 m = sundir.cross(n);
        switch (r.below(8)) {
        case 0: p = sun * (-R / sun.norm()); break;                                       // the Earth's centre before that of the Sun
        case 1: p = sun * (R / sun.norm()); break;                                        // the Sun behind
        case 2: case 3: { double q = r.u() * 6.3, b = (double)RE * (1 + r.d(-1, 1) * (r.below(2) ? .02 : 1e-4)); p = -sundir * sqrt(std::max(1e12, R * R - b * b)) + b * (n * cos(q) + m * sin(q)); break; } // about the edge of the shadow
        case 4: { // first or last contact, to the last digits
          double q = r.u() * 6.3, lo = 0, hi = M_PI / 2; int which = r.below(2);
          for (int k = 0; k < 60; k++) { double th = (lo + hi) / 2; V3 g = R * (-sundir * cos(th) + (n * cos(q) + m * sin(q)) * sin(th)); dso::Vector3 a = v3(g(0), g(1), g(2)), b = v3(sun(0), sun(1), sun(2)); double f = shadow(a, b).v[0]; ((which ? f >= 1 : f > 0) ? hi : lo) = th; p = g; }
          break; }
        case 5: p = dir(r) * R; break;
        default: break;
        }
        dso::Vector3 a = v3(p(0), p(1), p(2)), b = v3(sun(0), sun(1), sun(2)); Shadow s = shadow(a, b);
        double got[5] = {utest::conical_shadow(a, b), utest::montebruck_shadow(a, b), utest::bernese_shadow1(a, b), utest::vallado_shadow(a, b), utest::montebruck_shadow(p, sun)};
        static const char *nm[] = {"conical_shadow", "montebruck_shadow", "bernese_shadow1", "vallado_shadow", "montebruck_shadow (Eigen)"};
        for (int k = 0; k < 5; k++) {
          int j = k == 4 ? 1 : k; double tol = k ? 0 : 2e-6;
          if (!(got[k] >= -1e-9 && got[k] <= 1 + 1e-9)) fail("shadow-out-of-range", "%s: %s gives %.9g at (%.6f, %.6f, %.6f), Sun at (%.3f, %.3f, %.3f)", who.c_str(), nm[k], got[k], p(0), p(1), p(2), sun(0), sun(1), sun(2));
          if ((s.sure[j] || k == 0) && !(fabs(got[k] - s.v[j]) <= tol)) fail("wrong-shadow", "%s: %s gives %.9g at (%.6f, %.6f, %.6f), Sun at (%.3f, %.3f, %.3f), should be %.9g", who.c_str(), nm[k], got[k], p(0), p(1), p(2), sun(0), sun(1), sun(2), s.v[j]);
        }
        count(s.v[0] >= 1 ? "in sunlight" : s.v[0] <= 0 ? "in full shadow" : "in half shadow"); observe_d(got[0]); break;
      }
      case 2: { // radiation pressure
        double A = r.d(.1, 60), m = r.d(50, 5000), C = r.d(.2, 2.5); M3 da; V3 dC; da.setConstant(7e77); dC.setConstant(7e77);
        V3 a = dso::solar_radiation_acceleration(p, sun, A, m, C), b = dso::solar_radiation_acceleration(p, sun, A, m, C, da, dC);
        V3 d = p - sun; double D = d.norm(), k = C * A / m * 4.56316e-6 * (double)AU * (double)AU; V3 want = k * d / (D * D * D); M3 wd = k * (M3::Identity() - 3 * (d / D) * (d / D).transpose()) / (D * D * D);
        if (!(rel(a, want) < 1e-13) || !(rel(b, want) < 1e-13)) fail("wrong-radiation-pressure", "%s: radiation pressure at (%.3f, %.3f, %.3f) is off by %.3g, %.3g", who.c_str(), p(0), p(1), p(2), rel(a, want), rel(b, want));
        if (!(rel(da, wd) < 1e-12) || !(rel(dC, V3(want / C)) < 1e-12)) fail("wrong-partials", "%s: derivatives of the radiation pressure are off by %.3g, %.3g", who.c_str(), rel(da, wd), rel(dC, V3(want / C)));
        count("radiation pressures"); break;
      }
      case 3: { // analytic density
        double h; switch (r.below(4)) { case 0: { static const int e[] = {25, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 180, 200, 250, 300, 350, 400, 450, 500, 600, 700, 800, 900, 1000}; h = e[r.below(27)]; if (r.below(2)) h = std::nextafter(h, r.below(2) ? 0. : 1e9); break; } case 1: h = r.d(1e-9, 150); break; case 2: h = r.d(100, 1100); break; default: h = r.d(900, 4000); }
        double g = dso::air_density_models::exponential::density(h), want = table_density(h);
        if (!(fabs(g - want) < 1e-12 * want)) fail("wrong-density", "%s: exponential density at %.9f km is %.6g, the table gives %.6g", who.c_str(), h, g, want);
        count("densities"); break;
      }
      default: { // drag
        double A = r.d(.1, 60), m = r.d(50, 5000), C = r.d(1, 4), rho = pow(10, -r.d(9, 15)); V3 v = w.cross(p).normalized() * sqrt(3.986e14 / R) + dir(r) * r.d(0, 500), g = dir(r) * rho / r.d(1e4, 1e5);
        V3 ax = dir(r); double an = r.below(3) ? r.d(-.01, .01) : r.d(-3, 3); M3 T = Eigen::AngleAxisd(an, ax).toRotationMatrix(); if (r.below(4) == 0) T.setIdentity();
        auto ref = [&](const V3 &p, const V3 &v, V3 &w) { V3 o(0, 0, 7.292115e-5); w = v - o.cross(p); return V3(-.5 * C * A / m * rho * w.norm() * w); };
        V3 w0, w1; V3 want = ref(p, v, w0), turned = T.transpose() * ref(T * p, T * v, w1); M3 dr, dv, X; V3 dC; dr.setConstant(7e77); dv.setConstant(7e77); dC.setConstant(7e77);
        V3 a = dso::drag_accel(p, v, A, C, m, rho), b = dso::drag_accel(p, v, T, A, C, m, rho), d = dso::drag_accel(p, v, A, C, m, rho, g, dr, dv, dC);
        X << 0, -7.292115e-5, 0, 7.292115e-5, 0, 0, 0, 0, 0; double k = .5 * C * A / m, n = w0.norm();
        M3 wv = -k * rho * (n * M3::Identity() + w0 * w0.transpose() / n), wr = -k * n * w0 * g.transpose() - wv * X;
        if (!(rel(a, want) < 1e-12) || !(rel(d, want) < 1e-12)) fail("wrong-drag", "%s: drag is off by %.3g, with partials %.3g", who.c_str(), rel(a, want), rel(d, want));
        if (!(rel(b, turned) < 1e-12)) fail("wrong-drag", "%s: drag in the system of the true equator is off by %.3g", who.c_str(), rel(b, turned));
        if (!(rel(dr, wr) < 1e-11) || !(rel(dv, wv) < 1e-11) || !(rel(dC, V3(want / C)) < 1e-11)) fail("wrong-partials", "%s: derivatives of the drag are off by %.3g, %.3g, %.3g", who.c_str(), rel(dr, wr), rel(dv, wv), rel(dC, V3(want / C)));
        count("drags");
      }
      }
      nontrivial();
    }
  });
}
// ------------------------------------------------------------ corrections of an observation
const double ALC[] = {0, 2.05, 7.24, 9.21, 6.71, 8.14, 11.87, 12.48, 12.28, 13.67, 13.91, 13.01, 13.01, 11.87, 9.70, 7.94, 4.99, .41, -3.93};
const double STA[] = {0, .06, -.32, -1.12, -2.87, -4.02, -3.44, -2.15, -1.73, -1.73, -.08, 1.37, 2.20, 5.37, 7.02, 10.70, 13.86, 17.27, 22.37};
template <dso::GroundAntennaType T, int F> void antenna(Rng &r, const std::string &who, const char *nm, const double *tab, double up) {
  typedef dso::AntennaOffset<T, F> A; V3 o = A::pco();
  if (A::deast() != 0 || A::dnorth() != 0 || A::dup() != up || o(0) != 0 || o(1) != 0 || o(2) != up) fail("wrong-offset", "%s: offset of %s frequency %d: %.3f %.3f %.3f", who.c_str(), nm, F, A::deast(), A::dnorth(), A::dup());
  double z; const double H = dso::DPI / 2;
  switch (r.below(9)) { case 0: z = H; break; case 1: z = 0; break; case 2: z = std::nextafter(H, r.below(2) ? 9. : 0.); break; case 3: z = r.below(2) ? -1e-300 : -r.u(); break; case 4: z = H + r.d(1e-9, 3); break; case 5: z = r.below(19) * 5 * M_PI / 180; if (r.below(2)) z = std::nextafter(z, r.below(2) ? 9. : -1.); break; case 6: z = r.below(3) ? __builtin_nan("") : r.below(2) ? __builtin_inf() : -__builtin_inf(); break; default: z = r.u() * H; }
  int flag = 77; double g = A::pcv(z, flag);
  bool in = z >= 0 && z <= H;
  if (!in) { if (!flag || g != 0) fail("angle-accepted", "%s: the phase correction of %s frequency %d at zenith angle %.17g is %.6g, flag %d", who.c_str(), nm, F, z, g, flag); count("angles refused"); return; }
  L d = (L)z * 180 / M_PIl; int k = std::min(17, (int)(d / 5)); double want = tab ? (double)(tab[k] + (d - 5 * k) * ((L)tab[k + 1] - tab[k]) / 5) : 0;
  if (flag) fail("angle-refused", "%s: zenith angle %.17g of %s frequency %d is refused", who.c_str(), z, nm, F);
  if (!(fabs(g - want) < 1e-11)) fail("wrong-phase-correction", "%s: the phase correction of %s frequency %d at %.6Lf degrees is %.9f, should be %.9f", who.c_str(), nm, F, d, g, want);
  count("phase corrections"); observe_d(g);
}
void a05() {
  crowd("station", [](Rng &r, std::string who, int calls) {
    dso::BeaconStation st; memset(&st, 0, sizeof st); char ty = "ABC"[r.below(3)]; memcpy(st.m_station_id, "TLS", 3); st.m_station_id[3] = ty; int shift = (int)r.below(200) - 100; st.m_shift_factor = shift;
    for (int c = 0; c < calls; c++) {
      rubbish(r);
      const L g2 = (2036.25L / 401.25L) * (2036.25L / 401.25L);
      switch (r.below(6)) {
      case 0: case 1:
        switch (r.below(6)) { case 0: antenna<dso::GroundAntennaType::Alcatel, 1>(r, who, "Alcatel", ALC, 510); break; case 1: antenna<dso::GroundAntennaType::Alcatel, 2>(r, who, "Alcatel", 0, 335); break; case 2: antenna<dso::GroundAntennaType::Starec_B, 1>(r, who, "Starec B", STA, 487); break; case 3: antenna<dso::GroundAntennaType::Starec_B, 2>(r, who, "Starec B", 0, 0); break; case 4: antenna<dso::GroundAntennaType::Starec_C, 1>(r, who, "Starec C", STA, 487); break; default: antenna<dso::GroundAntennaType::Starec_C, 2>(r, who, "Starec C", 0, 0); }
        break;
      case 2: {
        auto t = st.type(); if ((ty == 'A') != (t == dso::GroundAntennaType::Alcatel) || (ty == 'B') != (t == dso::GroundAntennaType::Starec_B)) fail("wrong-antenna", "%s: type of a beacon ending in %c", who.c_str(), ty);
        V3 p = st.iono_free_phase_center(); L a = ty == 'A' ? 510 : 487, b = ty == 'A' ? 335 : 0, want = (a + (a - b) / (g2 - 1)) / 1000;
        if (!(fabs(p(0)) < 1e-14) || !(fabs(p(1)) < 1e-14) || !(fabs(p(2) - (double)want) < 1e-12)) fail("wrong-phase-centre", "%s: ionosphere-free phase centre of a type %c antenna: %.9g %.9g %.9g, should be 0 0 %.9Lf", who.c_str(), ty, p(0), p(1), p(2), want);
        count("phase centres"); break;
      }
      case 3: {
        int k = r.below(3) ? shift : (int)r.below(65536) - 32768; double s1 = 7e77, u2 = 7e77;
        L f = 5e6L * (.75L + 87.L * k / (5.L * 67108864));
        if (dso::beacon_nominal_frequency(k, s1, u2) || !(fabs(s1 - (double)(543 * f)) < 1e-5) || !(fabs(u2 - (double)(107 * f)) < 1e-5)) fail("wrong-frequency", "%s: nominal frequencies for shift %d: %.4f %.4f, should be %.4Lf %.4Lf", who.c_str(), k, s1, u2, 543 * f, 107 * f);
        count("frequencies"); break;
      }
      case 4: {
        double a = r.d(-1, 1) * pow(10, r.d(0, 10)), b = a / sqrt((double)g2) * (1 + r.d(-1, 1) * 1e-4), g = dso::carrier_iono_correction(a, b); L want = (a - sqrtl(g2) * b) / (g2 - 1);
        if (!(fabs(g - (double)want) < 1e-15 * (fabs(a) + 1))) fail("wrong-ionosphere", "%s: ionosphere correction of %.6f and %.6f cycles is %.9f, should be %.9Lf", who.c_str(), a, b, g, want);
        // a delay that goes with the inverse square of the frequency is removed
        double pure = r.d(-1e3, 1e3), x1 = a - pure, x2 = a / sqrt((double)g2) - pure * sqrt((double)g2);
        double res = x1 + dso::carrier_iono_correction(x1, x2) - a; if (!(fabs(res + 0) < 1e-13 * (fabs(a) + 1e4)) && !(fabs(res) > 0 && fabs(res) < 1e-9 * fabs(a))) fail("ionosphere-left", "%s: %.6g cycles of a delay of %.3f remain", who.c_str(), res, pure);
        count("ionosphere corrections"); break;
      }
      default: {
        bool sat = r.below(2); V3 p = dir(r) * (sat ? r.d(6.6e6, 9e6) : 6.37e6 + r.d(0, 9e3)), v = dir(r) * (sat ? r.d(6e3, 8e3) : r.d(0, 500)); double GM = 3.986004418e14, J2 = r.below(4) ? 1.0826359e-3 : r.d(0, 2e-3), Re = 6378136.6;
        double R = p.norm(), a = dso::relativistic_clock_correction(p, v, GM), b = dso::relativistic_clock_correction(p, v, GM, J2, Re), w = (GM / R + v.squaredNorm() / 2) / 299792458.;
        if (!(fabs(a - w) < 1e-12 * w)) fail("wrong-clock-correction", "%s: relativistic clock correction %.9g, should be %.9g", who.c_str(), a, w);
        double s = p(2) / R, q = GM / R * (Re / R) * (Re / R) * J2 / 2 / 299792458., w2 = w - q * (3 * s * s - 1); // geodetic or geocentric latitude
        if (!(fabs(b - w2) < q * .021 + 1e-12 * w)) fail("wrong-clock-correction", "%s: relativistic clock correction with J2 %.9g, should be %.9g", who.c_str(), b, w2);
        count("clock corrections");
      }
      }
      nontrivial();
    }
  });
}
// ------------------------------------------------------------ analytic Sun and Moon
L deg(L x) { return fmodl(x, 360) * M_PIl / 180; }
void ref_sun(int k, L t, L *o) { // t: centuries since J2000
  if (k == 0) { L M = PI2 * (.9931267L + 99.9973583L * t), l = PI2 * .7859444L + M + PI2 * (6892 * sinl(M) + 72 * sinl(2 * M)) / 1296e3L, r = 149.619e6L - 2.499e6L * cosl(M) - .021e6L * cosl(2 * M), e = deg(23.43929111L); o[0] = r * cosl(l); o[1] = r * sinl(l) * cosl(e); o[2] = r * sinl(l) * sinl(e); return; }
  L M, l, e, r;
  if (k == 1) { M = deg(357.5291092L + 35999.05034L * t); l = deg(280.460L + 36000.771L * t) + deg(1.914666471L * sinl(M) + .019994643L * sinl(2 * M)); e = deg(23.439291L - .0130042L * t); r = 1.000140612L - .016708617L * cosl(M) - .000139589L * cosl(2 * M); }
  else { L n = t * 36525; M = deg(357.529L + .98560023L * n); l = deg(280.459L + .98564736L * n) + deg(1.915L * sinl(M) + .0200L * sinl(2 * M)); e = deg(23.439L - 3.56e-7L * n); r = 1.00014L - .01671L * cosl(M) - .000140L * cosl(2 * M); }
  r *= 149597870.7L; o[0] = r * cosl(l); o[1] = r * cosl(e) * sinl(l); o[2] = r * sinl(e) * sinl(l);
}
void ref_moon(int k, L t, L *o) {
  L l, b, r, e;
  if (k == 0) {
    const L as = M_PIl / 648000; auto arg = [&](L a, L b, L c, L d, L f) { return fmodl(a + t * (b + t * (c + t * (d + t * f))), 1296000.L) * as; };
    L m = arg(485868.249036L, 1717915923.2178L, 31.8792L, .051635L, -.00024470L), s = arg(1287104.793048L, 129596581.0481L, -.5532L, .000136L, -.00001149L), F = arg(335779.526232L, 1739527262.8478L, -12.7512L, -.001037L, .00000417L), D = arg(1072260.703692L, 1602961601.2090L, -6.3706L, .006593L, -.00003169L);
    static const int T[][5] = {{22640, 1, 0, 0, 0}, {769, 2, 0, 0, 0}, {-4586, 1, 0, 0, -2}, {2370, 0, 0, 0, 2}, {-668, 0, 1, 0, 0}, {-412, 0, 0, 2, 0}, {-212, 2, 0, 0, -2}, {-206, 1, 1, 0, -2}, {192, 1, 0, 0, 2}, {-165, 0, 1, 0, -2}, {148, 1, -1, 0, 0}, {-125, 0, 0, 0, 1}, {-110, 1, 1, 0, 0}, {-55, 0, 0, 2, -2}};
    static const int N[][5] = {{-526, 0, 0, 1, -2}, {44, 1, 0, 1, -2}, {-31, -1, 0, 1, -2}, {-25, -2, 0, 1, 0}, {-23, 0, 1, 1, -2}, {21, -1, 0, 1, 0}, {11, 0, -1, 1, -2}};
    static const int Q[][5] = {{-20905, 1, 0, 0, 0}, {-3699, -1, 0, 0, 2}, {-2956, 0, 0, 0, 2}, {-570, 2, 0, 0, 0}, {246, 2, 0, 0, -2}, {-205, 0, 1, 0, -2}, {-171, 1, 0, 0, 2}, {-152, 1, 1, 0, -2}};
    auto ph = [&](const int *q) { return q[1] * m + q[2] * s + q[3] * F + q[4] * D; };
    L dl = 0, n = 0; for (auto &q : T) dl += q[0] * sinl(ph(q)); for (auto &q : N) n += q[0] * sinl(ph(q));
    r = 385000; for (auto &q : Q) r += q[0] * cosl(ph(q));
    l = PI2 * fmodl(.606433L + 1336.851344L * t, 1) + dl * as; b = (18520 * sinl(F + (dl + 412 * sinl(2 * F) + 541 * sinl(s)) * as) + n) * as; e = deg(23.43929111L);
  } else {
    auto S = [&](L a, L c) { return sinl(deg(a + c * t)); }; auto C = [&](L a, L c) { return cosl(deg(a + c * t)); };
    l = deg(218.32L + 481267.8813L * t) + deg(6.29L * S(134.9L, 477198.85L) - 1.27L * S(259.2L, -413335.38L) + .66L * S(235.7L, 890534.23L) + .21L * S(269.9L, 954397.70L) - .19L * S(357.5L, 35999.05L) - .11L * S(186.6L, 966404.05L));
    b = deg(5.13L * S(93.3L, 483202.03L) + .28L * S(228.2L, 960400.87L) - .28L * S(318.3L, 6003.18L) - .17L * S(217.6L, -407332.20L));
    L p = deg(.9508L + .0518L * C(134.9L, 477198.85L) + .0095L * C(259.2L, -413335.38L) + .0078L * C(235.7L, 890534.23L) + .0028L * C(269.9L, 954397.70L));
    r = 6378.1366L / sinl(p); e = deg(23.439291L + t * (-.0130042L + t * (-1.64e-7L + 5.04e-7L * t)));
  }
  L x = r * cosl(l) * cosl(b), y = r * sinl(l) * cosl(b), z = r * sinl(b); o[0] = x; o[1] = cosl(e) * y - sinl(e) * z; o[2] = sinl(e) * y + cosl(e) * z;
}
void a06() {
  crowd("clock", [](Rng &r, std::string who, int calls) {
    double t = r.d(-1, 1);
    for (int c = 0; c < calls; c++) {
      rubbish(r);
      switch (r.below(6)) { case 0: t = 0; break; case 1: t = r.d(-1.5, 1.5); break; case 2: t += r.d(-1, 1) / 36525; break; case 3: t = -t; break; default: t += r.u() * 40 / 36525; }
      bool date = r.below(3) == 0; int k = r.below(5); double v[4] = {7e77, 7e77, 7e77, 7e77}; L w[3], tt = t; int rc;
      long mjd = 51544 + (long)floor(t * 36525), ns = (long)r.below(86400) * 1000000000L + r.below(1000000000); dso::datetime<dso::nanoseconds> T{dso::modified_julian_day(mjd), dso::nanoseconds(ns)};
      if (date) tt = (mjd - 51544.5L + ns / 86400e9L) / 36525;
      switch (k) {
      case 0: rc = date ? dso::sun_vector_montenbruck(T, v) : dso::sun_vector_montenbruck(t, v); break;
      case 1: rc = date ? dso::sun_vector_vallado(T, v) : dso::sun_vector_vallado(t, v); break;
      case 2: rc = date ? dso::sun_vector_curtis(T, v) : dso::sun_vector_curtis(t * 36525, v); break;
      case 3: rc = date ? dso::moon_vector_approx(T, v) : dso::moon_vector_approx(t, v); break;
      default: rc = date ? dso::moon_vector_vallado(T, v) : dso::moon_vector_vallado(t, v);
      }
      if (k < 3) ref_sun(k, tt, w); else ref_moon(k - 3, tt, w);
      static const char *nm[] = {"sun_vector_montenbruck", "sun_vector_vallado", "sun_vector_curtis", "moon_vector_approx", "moon_vector_vallado"};
      double d = 0; bool ok = v[3] == 7e77; for (int j = 0; j < 3; j++) { d = std::max(d, fabs(v[j] - (double)w[j])); ok &= v[j] == v[j]; }
      if (rc || !ok || !(d < (k < 3 ? .05 : 2e-3))) fail("wrong-position", "%s: %s%s at %.9Lf centuries gives (%.3f, %.3f, %.3f) km, should be (%.3Lf, %.3Lf, %.3Lf)", who.c_str(), nm[k], date ? " (date)" : "", tt, v[0], v[1], v[2], w[0], w[1], w[2]);
      count(k < 3 ? "positions of the Sun" : "positions of the Moon"); observe_d(v[0]); nontrivial();
    }
  });
}
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {{"A02", a02, "a run counts if a state, elements or an anomaly were compared"}, {"A04", a04, "a run counts if an acceleration, density or eclipse was compared"}, {"A05", a05, "a run counts if a correction was compared"}, {"A06", a06, "a run counts if a position was compared"}});
}
