// Rotation algebra for reference, in long double, independent of Eigen's geometry module.
#pragma once
#include <array>
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace rot {
typedef long double R;
struct M { R a[3][3]; };
struct V { R x[3]; };
inline V v(const Eigen::Vector3d& e) { return {{e[0], e[1], e[2]}}; }
inline M I() { M m{}; for (int i = 0; i < 3; i++) m.a[i][i] = 1; return m; }
inline M mul(const M& a, const M& b) { M m{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) m.a[i][j] += a.a[i][k] * b.a[k][j]; return m; }
inline V mul(const M& a, const V& b) { V o{}; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) o.x[i] += a.a[i][k] * b.x[k]; return o; }
inline M tr(const M& a) { M m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = a.a[j][i]; return m; }
inline M add(const M& a, const M& b, R s = 1) { M m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = a.a[i][j] + s * b.a[i][j]; return m; }
inline M skew(const V& r) { M m{}; m.a[0][1] = -r.x[2]; m.a[0][2] = r.x[1]; m.a[1][0] = r.x[2]; m.a[1][2] = -r.x[0]; m.a[2][0] = -r.x[1]; m.a[2][1] = r.x[0]; return m; }
// matrix exponential by its power series with scaling and squaring
inline M expm(const V& r) {
  M k = skew(r); R n = sqrtl(r.x[0] * r.x[0] + r.x[1] * r.x[1] + r.x[2] * r.x[2]); int s = 0; while (n > 0.125L) { n /= 2; s++; }
  R f = ldexpl(1, -s); for (auto& row : k.a) for (auto& e : row) e *= f;
  M o = I(), t = I(); for (int i = 1; i < 18; i++) { t = mul(t, k); for (auto& row : t.a) for (auto& e : row) e /= i; o = add(o, t); }
  for (int i = 0; i < s; i++) o = mul(o, o);
  return o;
}
inline V at(const V& r, const V& d, const V& dd, R h) { V o; for (int i = 0; i < 3; i++) o.x[i] = r.x[i] + h * d.x[i] + h * h / 2 * dd.x[i]; return o; }
// world angular velocity of exp(r(t)) at 0 by a symmetric difference of matrices: [w] = dR/dt R^T
inline V omega(const V& r, const V& d, const V& dd, R h0 = 0) {
  const R h = 1e-4L; M a = expm(at(r, d, dd, h0 - 2 * h)), b = expm(at(r, d, dd, h0 - h)), c = expm(at(r, d, dd, h0 + h)), e = expm(at(r, d, dd, h0 + 2 * h)), R0 = expm(at(r, d, dd, h0));
  M D{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) D.a[i][j] = (a.a[i][j] - 8 * b.a[i][j] + 8 * c.a[i][j] - e.a[i][j]) / (12 * h);
  M W = mul(D, tr(R0));
  return {{(W.a[2][1] - W.a[1][2]) / 2, (W.a[0][2] - W.a[2][0]) / 2, (W.a[1][0] - W.a[0][1]) / 2}};
}
inline V omegadot(const V& r, const V& d, const V& dd) {
  const R h = 1e-3L; V a = omega(r, d, dd, -2 * h), b = omega(r, d, dd, -h), c = omega(r, d, dd, h), e = omega(r, d, dd, 2 * h); V o;
  for (int i = 0; i < 3; i++) o.x[i] = (a.x[i] - 8 * b.x[i] + 8 * c.x[i] - e.x[i]) / (12 * h);
  return o;
}
inline R diff(const Eigen::Matrix3d& e, const M& m) { R s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { R d = fabsl(e(i, j) - m.a[i][j]); if (!(d <= s)) s = d; } return s; }
inline R diff(const Eigen::Vector3d& e, const V& m) { R s = 0; for (int i = 0; i < 3; i++) { R d = fabsl(e[i] - m.x[i]); if (!(d <= s)) s = d; } return s; }
inline R norm(const V& r) { return sqrtl(r.x[0] * r.x[0] + r.x[1] * r.x[1] + r.x[2] * r.x[2]); }
inline M fromq(const Eigen::Quaterniond& q) {
  R w = q.w(), x = q.x(), y = q.y(), z = q.z(); M m;
  m.a[0][0] = 1 - 2 * (y * y + z * z); m.a[0][1] = 2 * (x * y - w * z); m.a[0][2] = 2 * (x * z + w * y);
  m.a[1][0] = 2 * (x * y + w * z); m.a[1][1] = 1 - 2 * (x * x + z * z); m.a[1][2] = 2 * (y * z - w * x);
  m.a[2][0] = 2 * (x * z - w * y); m.a[2][1] = 2 * (y * z + w * x); m.a[2][2] = 1 - 2 * (x * x + y * y); return m;
}
inline R diff(const M& a, const M& b) { R s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { R d = fabsl(a.a[i][j] - b.a[i][j]); if (!(d <= s)) s = d; } return s; }
inline Eigen::Matrix3d e(const M& m) { Eigen::Matrix3d o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o(i, j) = (double)m.a[i][j]; return o; }
}  // namespace rot
