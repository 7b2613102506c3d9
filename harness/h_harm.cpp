// G03: coefficient and packed-matrix containers as independent values.
#include "../sim/sim.hpp"
#include "harmonic_coeffs.hpp"
#ifdef VAR
#include "compact2dmat.hpp"
#else
#include "cmat2d.hpp"
#endif
#include <algorithm>
#include <cmath>
#include <memory>
using namespace sim;
namespace {
struct Track { Track() { alloc_track(true); } ~Track() { alloc_track(false); } };
double value() { return Wd(-1, 1) * (1 + W(1000)); }
double nfac(int n, int k) {
  long double p = 1;
  for (int i = n - k + 1; i <= n + k; i++) p *= i;
  return (double)sqrtl(p / (2 * n + 1) / (k ? 2 : 1));
}
// ------------------------------------------------ harmonic coefficients
struct HM { // model of one instance
  int n = 0;
  bool has = false, norm = true;
  double gm = 0, re = 0;
  std::map<std::pair<int, int>, double> c, s; // what has been written (and is still defined)
};
struct Slot { std::unique_ptr<dso::HarmonicCoeffs> o; HM m; };
void check(Slot &x, int id) {
  if (!x.o) return;
  if (x.o->degree() != x.m.n) fail("degree", "container %d: degree() is %d, expected %d", id, x.o->degree(), x.m.n);
#ifndef VAR
  if (!same_double(x.o->GM(), x.m.gm) || !same_double(x.o->Re(), x.m.re) || x.o->normalized() != x.m.norm) fail("constants", "container %d: GM/Re/normalized are %g/%g/%d, expected %g/%g/%d", id, x.o->GM(), x.o->Re(), x.o->normalized(), x.m.gm, x.m.re, x.m.norm);
#endif
  if (!x.m.has) return;
  for (auto &e : x.m.c) { double v = x.o->C(e.first.first, e.first.second); observe_d(v); if (!close_to(v, e.second, 1e-13)) fail("value-C", "container %d: C(%d,%d) is %.17g, written was %.17g", id, e.first.first, e.first.second, v, e.second); }
  for (auto &e : x.m.s) { double v = x.o->S(e.first.first, e.first.second); if (!close_to(v, e.second, 1e-13)) fail("value-S", "container %d: S(%d,%d) is %.17g, written was %.17g", id, e.first.first, e.first.second, v, e.second); }
  const dso::HarmonicCoeffs &k = *x.o;
  for (auto &e : x.m.c) if (!close_to(k.C(e.first.first, e.first.second), e.second, 1e-13)) fail("value-C-const", "container %d: C(%d,%d) of a constant container differs", id, e.first.first, e.first.second);
  for (auto &e : x.m.s) if (!close_to(k.S(e.first.first, e.first.second), e.second, 1e-13)) fail("value-S-const", "container %d: S(%d,%d) of a constant container differs", id, e.first.first, e.first.second);
#ifndef VAR
  if (auto e = x.m.c.find({2, 0}); e != x.m.c.end() && !close_to(k.J2(), -e->second, 1e-13)) fail("value-J2", "container %d: J2 is %.17g, C(2,0) is %.17g", id, k.J2(), e->second);
#endif
  for (auto &e : x.m.c) if (!close_to(k.C_row(e.first.first)[e.first.second], e.second, 1e-13)) fail("value-C-row", "container %d: C_row(%d)[%d] differs", id, e.first.first, e.first.second);
  for (auto &e : x.m.s) if (!close_to(k.S_row(e.first.first)[e.first.second - 1], e.second, 1e-13)) fail("value-S-row", "container %d: S_row(%d)[%d] differs", id, e.first.first, e.first.second - 1);
}
void write_some(Slot &x) {
  if (!x.o || !x.m.has) return;
  int n = x.m.n;
  bool all = Wc(300);
  int k = all ? 0 : 1 + W(6);
  auto wc = [&](int i, int j) { double v = value(); x.o->C(i, j) = v; x.m.c[{i, j}] = v; };
  auto ws = [&](int i, int j) { double v = value(); x.o->S(i, j) = v; x.m.s[{i, j}] = v; };
  if (all) { for (int i = 0; i <= n; i++) for (int j = 0; j <= i; j++) { wc(i, j); if (j) ws(i, j); } }
  else for (int q = 0; q < k; q++) { int i = W(n + 1), j = W(i + 1); if (Wc(500) || !j) wc(i, j); else ws(i, j); }
}
void harmonic_ops(int nops, const char *who) {
  std::vector<Slot> S(3);
  for (int q = 0; q < nops; q++) {
    int a = W(3), b = W(3);
    Slot &x = S[a], &y = S[b];
    switch (W(10)) {
    case 0: {
      int n = Wc(50) ? 0 : Wc(15) ? 10 + (int)W(130) : 1 + (int)W(8);
      Track t;
      x.o.reset(); note("%s: new HarmonicCoeffs(%d) in slot %d", who, n, a); x.m = HM(); x.m.n = n; x.m.has = true;
#ifndef VAR
      if (Wc(500)) { x.m.gm = value(); x.m.re = value(); x.o.reset(new dso::HarmonicCoeffs(n, x.m.gm, x.m.re)); break; }
#endif
      x.o.reset(new dso::HarmonicCoeffs(n));
      break;
    }
    case 1: { Track t; x.o.reset(new dso::HarmonicCoeffs()); x.m = HM(); note("%s: default in slot %d", who, a); break; }
    case 2: write_some(x); break;
    case 3: write_some(y); break;
    case 4: // move construction
      if (y.o && a != b) { note("%s: slot %d = new(move(slot %d))", who, a, b); Track t; x.o.reset(new dso::HarmonicCoeffs(std::move(*y.o))); x.m = y.m; y.o.reset(); y.m = HM(); }
      break;
    case 5: // move assignment (to itself too)
      if (x.o && y.o) {
        note("%s: slot %d = move(slot %d)", who, a, b);
        Track t;
        *x.o = std::move(*y.o);
        if (a != b) { x.m = y.m; if (Wc(500)) { y.o.reset(); y.m = HM(); } else {
          // a moved-from container can be given a new value
          y.o.reset(new dso::HarmonicCoeffs(2)); y.m = HM(); y.m.n = 2; y.m.has = true; } }
      }
      break;
    case 6: { note("%s: delete slot %d", who, a); x.o.reset(); x.m = HM(); break; }
#ifndef VAR
    case 7: if (x.o) { int n = Wc(15) ? 10 + (int)W(130) : Wc(300) ? std::max(0, x.m.n - 1 + (int)W(4)) : (int)W(10); note("%s: slot %d resize(%d) from %d", who, a, n, x.m.n); Track t; x.o->resize(n); x.m.n = n; x.m.has = true; x.m.c.clear(); x.m.s.clear(); } break;
#endif
    case 8:
      if (x.o && x.m.has && x.m.n > 0) {
        // all values known first, so that every converted value is defined
        int n = x.m.n;
        for (int i = 0; i <= n; i++) for (int j = 0; j <= i; j++) { if (!x.m.c.count({i, j})) { x.o->C(i, j) = x.m.c[{i, j}] = value(); } if (j && !x.m.s.count({i, j})) x.o->S(i, j) = x.m.s[{i, j}] = value(); }
        int ord = Wc(500) ? -1 : (int)W(n + 1);
        note("%s: slot %d denormalize(%d)", who, a, ord);
        Track t;
        if (x.o->denormalize(ord)) fail("denormalize", "denormalize(%d) of a degree %d container failed", ord, n);
        int o = ord < 0 ? n : ord;
        if (x.m.norm)
          for (int i = 1; i <= n; i++) for (int j = 0; j <= std::min(i, o); j++) { x.m.c[{i, j}] /= nfac(i, j); if (j) x.m.s[{i, j}] /= nfac(i, j); }
#ifndef VAR
        x.m.norm = false;
#endif
      }
      break;
    default:
#ifndef VAR
      if (x.o) { x.o->GM() = x.m.gm = value(); x.o->Re() = x.m.re = value(); if (Wc(300)) x.o->normalized() = x.m.norm = true; }
#endif
      break;
    }
    yield_point("op");
    for (int i = 0; i < 3; i++) check(S[i], i);
  }
}
// ------------------------------------------------ packed matrices
template <dso::MatrixStorageType T> struct MS { std::unique_ptr<dso::Mat2D<T>> o; std::vector<std::vector<double>> v; std::vector<std::vector<char>> def; int r = 0, c = 0; };
template <dso::MatrixStorageType T> bool valid(int i, int j) { return T != dso::MatrixStorageType::Trapezoid || j <= i; }
template <dso::MatrixStorageType T> void mcheck(MS<T> &x, int id) {
  if (!x.o) return;
  if (x.o->rows() != x.r || x.o->cols() != x.c) fail("mat-size", "matrix %d is %dx%d, expected %dx%d", id, x.o->rows(), x.o->cols(), x.r, x.c);
  const dso::Mat2D<T> &k = *x.o;
  long cnt = 0;
  for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) if (valid<T>(i, j)) {
    cnt++;
    if (!x.def[i][j]) continue;
    double v = k(i, j);
    observe_d(v);
    if (!same_double(v, x.v[i][j])) fail("mat-value", "matrix %d: element (%d,%d) is %.17g, written was %.17g", id, i, j, v, x.v[i][j]);
    double w = T == dso::MatrixStorageType::ColumnWise ? k.slice(j)[i] : k.slice(i)[j];
    if (!same_double(w, x.v[i][j])) fail("mat-slice", "matrix %d: slice access of (%d,%d) is %.17g, written was %.17g", id, i, j, w, x.v[i][j]);
  }
  if (k.num_elements() != cnt) fail("mat-count", "matrix %d: %ld elements stored, expected %ld", id, (long)k.num_elements(), cnt);
}
template <dso::MatrixStorageType T> void mset(MS<T> &x, int r, int c) { x.r = r; x.c = c; x.v.assign(r, std::vector<double>(c, 0)); x.def.assign(r, std::vector<char>(c, 0)); }
template <dso::MatrixStorageType T> void mat_ops(int nops, const char *who) {
  std::vector<MS<T>> S(3);
  for (int q = 0; q < nops; q++) {
    int a = W(3), b = W(3);
    MS<T> &x = S[a], &y = S[b];
    switch (W(8)) {
    case 0: { int big = Wc(20) ? 150 : 7, r = 1 + (int)W(big), c = T == dso::MatrixStorageType::Trapezoid ? 1 + (int)W(r) : 1 + (int)W(big); note("%s: slot %d = matrix(%d,%d)", who, a, r, c); Track t; x.o.reset(new dso::Mat2D<T>(r, c)); mset(x, r, c); break; }
    case 1: case 2: if (x.o) { int n = 1 + W(8); for (int k = 0; k < n; k++) { int i = W(x.r), j = W(x.c); if (!valid<T>(i, j)) continue; double v = value(); if (Wc(300)) { if (T == dso::MatrixStorageType::ColumnWise) x.o->slice(j)[i] = v; else x.o->slice(i)[j] = v; } else (*x.o)(i, j) = v; x.v[i][j] = v; x.def[i][j] = 1; } } break;
    case 3: if (x.o) { double v = value(); x.o->fill_with(v); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) { x.v[i][j] = v; x.def[i][j] = 1; } } break;
    case 4: if (y.o && a != b) { note("%s: slot %d = copy of slot %d", who, a, b); Track t; x.o.reset(new dso::Mat2D<T>(*y.o)); x.v = y.v; x.def = y.def; x.r = y.r; x.c = y.c; } break;
    case 5: if (x.o && y.o) { note("%s: slot %d := slot %d", who, a, b); Track t; dso::Mat2D<T> &r = (*x.o = *y.o); if (&r != x.o.get()) fail("mat-assign-result", "assignment does not return its left side"); if (a != b) { x.v = y.v; x.def = y.def; x.r = y.r; x.c = y.c; } } break;
    case 6: if (y.o && a != b) { note("%s: slot %d = moved from slot %d", who, a, b); Track t; x.o.reset(new dso::Mat2D<T>(std::move(*y.o))); x.v = y.v; x.def = y.def; x.r = y.r; x.c = y.c; y.o.reset(); } break;
    default: if (x.o && y.o) { note("%s: slot %d := move(slot %d)", who, a, b); Track t; *x.o = std::move(*y.o); if (a != b) { x.v = y.v; x.def = y.def; x.r = y.r; x.c = y.c;
        // give the moved-from one a new value by assignment, or drop it
        if (Wc(500)) { *y.o = *x.o; y.v = x.v; y.def = x.def; y.r = x.r; y.c = x.c; } else y.o.reset(); } } break;
    }
    yield_point("op");
    for (int i = 0; i < 3; i++) mcheck(S[i], i);
  }
}
void one(const char *who) {
  int n = 4 + W(25);
  switch (W(5)) {
  case 0: case 1: harmonic_ops(n, who); break;
  case 2: mat_ops<dso::MatrixStorageType::Trapezoid>(n, who); break;
  case 3: mat_ops<dso::MatrixStorageType::RowWise>(n, who); break;
  default: mat_ops<dso::MatrixStorageType::ColumnWise>(n, who); break;
  }
}
void g03() {
  int nt = Wc(300) ? 2 : 1;
  if (nt > 1) set_preempt_rate(50 << draw(CONF, 6));
  for (int t = 0; t < nt; t++) spawn(t ? "B" : "A", [t] { one(t ? "B" : "A"); });
  run_tasks();
  if (alloc_stats().total > 2) nontrivial();
  if (alloc_live_tracked() != 0) fail("leak", "%ld block(s) allocated by the containers were never given back after all of them were destroyed", (long)alloc_live_tracked());
}
} // namespace
int main(int argc, char **argv) {
  return main_driver(argc, argv, {{"G03", g03, "a run is non-trivial when the containers allocated memory at least three times"}});
}
