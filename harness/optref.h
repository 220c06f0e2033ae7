// Reference arithmetic for spline optimisation: Hermite interpolation, costs and constraint checks in long double.
#pragma once
#include "mathlib.h"
#include "mav_trajectory_generation/polynomial_optimization_linear.h"
namespace oref {
using ref::R; using ref::P;
// polynomial of 2h coefficients on [0,T] with derivatives a[0..h-1] at 0 and b[0..h-1] at T
inline P hermite(const std::vector<R>& a, const std::vector<R>& b, R T) {
  int h = a.size(); P c(2 * h, 0); std::vector<R> A(h), B(h); R s = 1;
  for (int k = 0; k < h; k++) { A[k] = a[k] * s; B[k] = b[k] * s; s *= T; }           // normalised time
  R f = 1; for (int k = 0; k < h; k++) { if (k) f *= k; c[k] = A[k] / f; }
  std::vector<std::vector<R>> M(h, std::vector<R>(h + 1));
  for (int r = 0; r < h; r++) { for (int j = 0; j < h; j++) M[r][j] = ref::falling(h + j, r); R v = B[r]; for (int j = r; j < h; j++) v -= ref::falling(j, r) * c[j]; M[r][h] = v; }
  for (int i = 0; i < h; i++) { int p = i; for (int r = i; r < h; r++) if (fabsl(M[r][i]) > fabsl(M[p][i])) p = r; std::swap(M[i], M[p]);
    for (int r = 0; r < h; r++) if (r != i) { R q = M[r][i] / M[i][i]; if (q != 0) for (int j = i; j <= h; j++) M[r][j] -= q * M[i][j]; } }
  for (int i = 0; i < h; i++) c[h + i] = M[i][h] / M[i][i];
  s = 1; for (auto& v : c) { v /= s; s *= T; }
  return c;
}
inline R inner(const P& a, const P& b, int der, R T) { return ref::integral(ref::mul(ref::deriv(a, der), ref::deriv(b, der)), 0, T); }
// sum of absolute values of the terms of the integral of the squared derivative
inline R inner_mag(const P& a, int der, R T) { P d = ref::deriv(a, der); for (auto& x : d) x = fabsl(x); return ref::integral(ref::mul(d, d), 0, T); }
inline P poly(const Segment& s, int d) { Eigen::VectorXd c = s[d].getCoefficients(); P p; for (int i = 0; i < c.size(); i++) p.push_back(c[i]); return p; }
inline Traj read(const Trajectory& t) { Traj o; mtg::Segment::Vector v; t.getSegments(&v); for (auto& s : v) { Seg g; g.T = s.getTime(); for (int d = 0; d < s.D(); d++) g.dims.push_back(poly(s, d)); o.push_back(g); } return o; }
inline R cost(const Traj& t, int der) { R s = 0; for (auto& g : t) for (auto& p : g.dims) s += inner(p, p, der, g.T); return s; }
inline R cost_mag(const Traj& t, int der) { R s = 0; for (auto& g : t) for (auto& p : g.dims) s += inner_mag(p, der, g.T); return s; }
// size of a segment's end data in normalised time: what rounding errors of a solution have to be measured against
inline R datascale(const P& p, R T) { R s = 0, f = 1; int h = p.size() / 2; for (int k = 0; k < h; k++) { s += f * (fabsl(ref::at(p, 0, k)) + fabsl(ref::at(p, T, k))); f *= T; } return s; }
// all vertex constraints hold from both sides and derivatives below h are continuous; returns the worst relative error
inline R constraint_error(const Traj& t, const Vertex::Vector& v, int h, std::string* what) {
  R worst = 0; auto upd = [&](R e, const char* k, int vert, int der, int dim) { if (!(e <= worst)) { worst = std::isfinite((double)e) ? e : 1e9L; char b[120]; snprintf(b, sizeof b, "%s of vertex %d, derivative %d, dimension %d", k, vert, der, dim); *what = b; } };
  int K = t.size(), D = t[0].dims.size();
  for (int i = 0; i <= K; i++) for (int k = 0; k < h; k++) {
    Eigen::VectorXd c; bool fixed = v[i].getConstraint(k, &c);
    for (int d = 0; d < D; d++) {
      R l = 0, r = 0, ml = 0, mr = 0; bool hl = i > 0, hr = i < K;
      if (hl) { auto& g = t[i - 1]; l = ref::at(g.dims[d], g.T, k); ml = datascale(g.dims[d], g.T) / powl(g.T, k); }
      if (hr) { auto& g = t[i]; r = ref::at(g.dims[d], 0, k); mr = datascale(g.dims[d], g.T) / powl(g.T, k); }
      R scale = ml + mr + 1e-9L + (fixed ? fabsl((R)c[d]) : 0);
      if (hl && hr) upd(fabsl(l - r) / scale, "continuity", i, k, d);
      if (fixed && hl) upd(fabsl(l - c[d]) / scale, "constraint (from the left)", i, k, d);
      if (fixed && hr) upd(fabsl(r - c[d]) / scale, "constraint (from the right)", i, k, d);
    }
  }
  return worst;
}
}  // namespace oref
