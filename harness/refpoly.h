// Independent reference arithmetic on polynomials (increasing powers), in long double.
#pragma once
#include <cmath>
#include <complex>
#include <vector>
namespace ref {
typedef long double R;
typedef std::vector<R> P;
inline R falling(int j, int d) { R v = 1; for (int k = 0; k < d; k++) v *= (R)(j - k); return v; }  // 0 when j < d
inline P deriv(const P& p, int d = 1) { P o; for (int j = d; j < (int)p.size(); j++) o.push_back(p[j] * falling(j, d)); return o; }
inline R at(const P& p, R t, int d = 0) { R s = 0; for (int j = (int)p.size() - 1; j >= d; j--) s = s * t + p[j] * falling(j, d); return s; }
// sum of absolute values of the terms: the scale rounding errors have to be measured against
inline R mag(const P& p, R t, int d = 0) { R s = 0; t = fabsl(t); for (int j = (int)p.size() - 1; j >= d; j--) s = s * t + fabsl(p[j]) * falling(j, d); return s; }
inline P add(const P& a, const P& b) { P o(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); i++) o[i] += a[i]; for (size_t i = 0; i < b.size(); i++) o[i] += b[i]; return o; }
inline P mul(const P& a, const P& b) { if (a.empty() || b.empty()) return P(); P o(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) o[i + j] += a[i] * b[j]; return o; }
inline P scale(const P& a, R s) { P o(a); for (auto& v : o) v *= s; return o; }
inline P timescale(const P& a, R b) { P o(a); R s = 1; for (auto& v : o) { v *= s; s *= b; } return o; }
inline R integral(const P& p, R a, R b) { R s = 0; for (int j = (int)p.size() - 1; j >= 0; j--) s += p[j] / (j + 1) * (powl(b, j + 1) - powl(a, j + 1)); return s; }
inline bool close(R a, R b, R scale, R rel = 1e-11L) { return std::isfinite((double)a) && fabsl(a - b) <= rel * (fabsl(scale) + 1e-300L) + 1e-290L; }
}  // namespace ref
namespace ref {
// every point of [a,b] where p changes sign (and, within bisection accuracy, where it is zero), by recursion on the derivative
inline void sign_changes(const P& p0, R a, R b, std::vector<R>& out) {
  P p = p0; while (!p.empty() && p.back() == 0) p.pop_back();
  out.clear();
  if (p.size() < 2) return;
  std::vector<R> k; sign_changes(deriv(p), a, b, k);
  std::vector<R> pts{a}; for (R t : k) pts.push_back(t); pts.push_back(b);
  for (size_t i = 0; i + 1 < pts.size(); i++) {
    R lo = pts[i], hi = pts[i + 1], fl = at(p, lo), fh = at(p, hi);
    if (fl == 0) out.push_back(lo);
    if (fh == 0 && i + 2 == pts.size()) out.push_back(hi);
    if ((fl < 0 && fh > 0) || (fl > 0 && fh < 0)) {
      for (int n = 0; n < 120 && hi - lo > 0; n++) { R m = (lo + hi) / 2; if (m == lo || m == hi) break; R fm = at(p, m); if ((fm < 0) == (fl < 0)) lo = m; else hi = m; }
      out.push_back((lo + hi) / 2);
    }
  }
}
// exact minimum and maximum of p on [a,b]
inline void minmax(const P& p, R a, R b, R& mn, R& mx) {
  std::vector<R> k; sign_changes(deriv(p), a, b, k); k.push_back(a); k.push_back(b);
  mn = 1e300L; mx = -1e300L; for (R t : k) { R v = at(p, t); mn = std::min(mn, v); mx = std::max(mx, v); }
}
}  // namespace ref
