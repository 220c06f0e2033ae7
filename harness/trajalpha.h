// The alphabet of trajectories shared by C16/C17/C18 and comparisons of a real trajectory with its reference.
#pragma once
#include "mathlib.h"
// coefficient shapes: deliberately different in every segment and dimension, so that a wrong segment or dimension shows
inline P shape(int id, int N) {
  static const std::vector<P> S = {{0, 1}, {1, -2, 0.5}, {0, 0, 0, 10, -15, 6}, {2, 0, -1, 0.25}, {-1, 0.5, 0, 0, 1}, {3}, {0, 0, 1, -0.5, 0.125, -0.0625}, {0.75, -1, 2, -3, 1, 0.5, -0.25},
                                   {0, 0, 0, 0, 0, 126, -420, 540, -315, 70}};
  P p = S[id % S.size()]; p.resize(N, 0); return p;
}
inline Traj mkref(int D, int K, int N, int seed, const std::vector<double>& times) {
  Traj t; int id = seed;
  for (int k = 0; k < K; k++) { Seg s; s.T = times[k]; for (int d = 0; d < D; d++) s.dims.push_back(shape(id += 1 + (seed + k + d) % 3, N)); t.push_back(s); }
  return t;
}
// times of many segments
inline std::vector<double> many_times(int K, int pat) { static const double a[3][5] = {{1, 0.5, 2, 0.25, 0.75}, {0.1, 0.2, 0.3, 0.1, 0.7}, {0.05, 1.0 / 3, 4, 0.9, 0.6}}; std::vector<double> o; for (int i = 0; i < K; i++) o.push_back(a[pat % 3][(i * (1 + pat / 3) + i / 5) % 5]); return o; }
// all values the motion may have at time t (two at a segment boundary that cannot be told from t)
inline std::vector<std::pair<int, R>> locate(const Traj& tr, R t, R eps) {
  std::vector<std::pair<int, R>> o; R a = 0;
  for (size_t k = 0; k < tr.size(); k++) { R b = a + tr[k].T; if (t >= a - eps && t <= b + eps) o.push_back({(int)k, t - a}); a = b; }
  return o;
}
inline bool value_ok(const Traj& tr, R t, int der, const Eigen::VectorXd& v, R eps, bool right_only = false, R rel = 1e-10L) {
  if (v.size() != (int)tr[0].dims.size()) return false;
  auto l = locate(tr, t, eps);
  if (right_only && l.size() > 1) l.erase(l.begin(), l.end() - 1);
  for (auto& q : l) {
    bool ok = true; const Seg& s = tr[q.first];
    for (int d = 0; d < v.size() && ok; d++)
      ok = std::isfinite(v[d]) && fabsl(v[d] - ref::at(s.dims[d], q.second, der)) <=
           rel * (ref::mag(s.dims[d], std::max(fabsl(q.second), (R)1e-3), der) + 1e-9L) + 1e-13L * (1 + fabsl(t)) * ref::mag(s.dims[d], fabsl(q.second) + 1e-13L * (1 + fabsl(t)), der + 1);
    if (ok) return true;
  }
  return false;
}
// times worth looking at: all boundaries, just beside them, inside, both ends
inline std::vector<double> probe_times(const Traj& tr) {
  std::vector<double> o; double a = 0;
  for (auto& s : tr) {
    o.push_back(a); o.push_back(std::nextafter(a, 1e9)); if (a > 0) o.push_back(std::nextafter(a, -1));
    for (double f : {0.125, 0.5, 0.9375}) o.push_back(a + f * s.T);
    a += s.T;
  }
  o.push_back(a); o.push_back(std::nextafter(a, -1));
  return o;
}
inline bool dyadic(const Traj& tr) { for (auto& s : tr) { double x = s.T * 1024; if (x != std::floor(x)) return false; } return true; }
inline std::string str(const std::vector<double>& v) { std::string s = "("; char b[40]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, i ? ",%.6g" : "%.6g", v[i]); s += b; } return s + ")"; }
// complete comparison
inline void compare(en::Ctx& c, const char* what, const Trajectory& t, const Traj& r, R rel = 1e-10L) {
  char sig[64]; auto S = [&](const char* x) { snprintf(sig, sizeof sig, "%s-%s", what, x); return sig; };
  if (!c.check(S("segments"), t.K() == (int)r.size(), "%d segments, expected %zu", t.K(), r.size())) return;
  if (!c.check(S("dimension"), t.D() == (int)r[0].dims.size(), "dimension %d, expected %zu", t.D(), r[0].dims.size())) return;
  if (!c.check(S("order"), t.N() == (int)r[0].dims[0].size(), "N %d, expected %zu", t.N(), r[0].dims[0].size())) return;
  c.check(S("max-time"), ref::close(t.getMaxTime(), total(r), total(r), 1e-12L), "max time %.17g, expected %.17Lg", t.getMaxTime(), total(r));
  auto st = t.getSegmentTimes();
  for (size_t k = 0; k < r.size(); k++) c.check(S("segment-time"), ref::close(st[k], r[k].T, r[k].T, 1e-12L), "segment %zu takes %.17g, expected %.17g", k, st[k], r[k].T);
  R eps = 1e-11L * (1 + total(r));
  for (double tt : probe_times(r)) {
    double q = std::min(tt, t.getMaxTime());
    for (int k : {0, 1, 2, 3, 5}) {
      Eigen::VectorXd v = t.evaluate(q, k); c.op();
      c.check(S("value"), value_ok(r, q, k, v, eps, false, rel), "derivative %d at %.17g is %s", k, q, str(v).c_str());
      for (int d = 0; d < v.size(); d++) c.obs(v[d]);
    }
  }
}
