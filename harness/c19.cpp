// C19: segment time estimates.
#include <glog/logging.h>
#include "mav_trajectory_generation/vertex.h"
#include "enumr.h"
namespace mtg = mav_trajectory_generation; using mtg::Vertex; typedef Eigen::VectorXd X;
static const double kMin = 0.1;
static Vertex V(const X& p, int kind, const X& dir) {   // kind 0: free speed, 1: at rest, 2: moving, 3: at rest incl. acceleration
  Vertex v(p.size()); v.addConstraint(0, p);
  if (kind == 1 || kind == 3) v.addConstraint(1, X(X::Zero(p.size())));
  if (kind == 2) v.addConstraint(1, dir);
  if (kind == 3) v.addConstraint(2, X(X::Zero(p.size())));
  return v;
}
// rest-to-rest time along a straight line with limits v, a: numerically from the phase plane, not from a closed formula
static double trapezoid(double d, double v, double a) {
  if (d <= 0) return 0;
  // peak speed by bisection: the distance needed to reach s and stop again is s^2/a
  double lo = 0, hi = v; for (int i = 0; i < 200; i++) { double m = (lo + hi) / 2; (m * m / a <= d ? lo : hi) = m; }
  return 2 * lo / a + (d - lo * lo / a) / lo;
}
int main(int argc, char** argv) {
  google::InitGoogleLogging("c19"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C19", [](en::Ctx& c) {
    const bool T = c.thorough;
    std::vector<double> vs{0.05, 0.5, 1, 2.5, 5, 20}, as{0.3, 1, 9.81, 50}; if (T) { vs.insert(vs.end(), {0.1, 0.2, 1.5, 3, 10, 100}); as.insert(as.end(), {0.1, 3, 200}); }
    std::vector<double> ds{0, 1e-9, 1e-3, 0.01, 0.1, 0.5, 1, 2, 5, 10, 50, 400, 1e4}; if (T) for (double d = 0.05; d < 30; d *= 1.07) ds.push_back(d);
    std::sort(ds.begin(), ds.end()); std::sort(vs.begin(), vs.end()); std::sort(as.begin(), as.end());
    c.group("trapezoid");
    for (int dim : {1, 2, 3, 4}) for (double v : vs) for (double a : as) if (c.take()) {
      c.describe("dimension %d, limits %g %g, %zu distances", dim, v, a, ds.size()); c.nontrivial();
      double last = -1;
      for (double d : ds) {
        X s = X::Constant(dim, 0.75), g = s; for (int i = 0; i < dim; i++) g[i] += (i % 2 ? -1 : 1) * d / std::sqrt((double)dim);
        double t = mtg::computeTimeVelocityRamp(s, g, v, a), b = mtg::computeTimeVelocityRamp(g, s, v, a); c.op(2); c.obs(t);
        double dd = (g - s).norm(), e = trapezoid(dd, v, a);
        c.check("exact", std::isfinite(t) && std::fabs(t - e) <= 1e-9 * (1 + e), "distance %.9g: %.12g, the trapezoidal profile takes %.12g", dd, t, e);
        c.check("symmetric", std::fabs(t - b) <= 1e-12 * (1 + t), "there %.12g, back %.12g", t, b);
        c.check("grows-with-distance", t >= last - 1e-12, "distance %.9g takes %.12g, a shorter one %.12g", dd, t, last); last = t;
        for (double v2 : vs) if (v2 >= v) c.check("not-slower-with-speed", mtg::computeTimeVelocityRamp(s, g, v2, a) <= t * (1 + 1e-12), "speed limit %g is slower than %g", v2, v);
        for (double a2 : as) if (a2 >= a) c.check("not-slower-with-acceleration", mtg::computeTimeVelocityRamp(s, g, v, a2) <= t * (1 + 1e-12), "acceleration limit %g is slower than %g", a2, a);
      }
    }
    // vertex lists
    std::vector<std::vector<double>> P{{0, 0, 0}, {1, 0, 0}, {0, -0.02, 0}, {4, 3, 0}, {-30, 10, 20}}; if (T) P.insert(P.end(), {{0.3, 0.3, 0.3}, {0, 0, 500}});
    auto x = [](const std::vector<double>& p, int dim) { X o(dim); for (int i = 0; i < dim; i++) o[i] = p[i]; return o; };
    typedef std::vector<double> (*Est)(const Vertex::Vector&, double, double);
    struct E { const char* n; Est f; int kind; };
    const E ests[3] = {{"preferred", [](const Vertex::Vector& v, double a, double b) { return mtg::estimateSegmentTimes(v, a, b); }, 0},
                       {"nfabian", [](const Vertex::Vector& v, double a, double b) { return mtg::estimateSegmentTimesNfabian(v, a, b); }, 0},
                       {"ramp", [](const Vertex::Vector& v, double a, double b) { return mtg::estimateSegmentTimesVelocityRamp(v, a, b); }, 1}};
    c.group("lists");
    for (int dim : {1, 3}) for (int n = 2; n <= 4; n++) {
      long np = 1, nk = 1; for (int i = 0; i < n; i++) { np *= P.size(); nk *= 4; }
      for (long ip = 0; ip < np; ip++) if (c.take()) {
        std::vector<X> p; long q = ip; std::string d; for (int i = 0; i < n; i++, q /= P.size()) { p.push_back(x(P[q % P.size()], dim)); char b[60]; snprintf(b, sizeof b, " p%ld", q % (long)P.size()); d += b; }
        c.describe("%d vertices of dimension %d:%s", n, dim, d.c_str()); c.nontrivial();
        for (long ik = 0; ik < nk; ik += (n == 4 && !T) ? 7 : 1) {
          Vertex::Vector vv; long k = ik; std::vector<int> kinds; for (int i = 0; i < n; i++, k /= 4) { kinds.push_back(k % 4); vv.push_back(V(p[i], k % 4, X(X::Constant(dim, 0.7)))); }
          for (auto& e : ests) for (double v : {0.5, 2.5, 20.0}) for (double a : {0.3, 9.81}) {
            auto t = e.f(vv, v, a); c.op();
            if (!c.check("count", (int)t.size() == n - 1, "%s: %zu times for %d vertices", e.n, t.size(), n)) continue;
            for (int i = 0; i + 1 < n; i++) {
              double dist = (p[i + 1] - p[i]).norm(); bool rest = kinds[i] == 1 || kinds[i] == 3 || kinds[i + 1] == 1 || kinds[i + 1] == 3; double tr = trapezoid(dist, v, a);
              c.check("positive", std::isfinite(t[i]) && t[i] >= kMin - 1e-12, "%s: segment %d takes %g", e.n, i, t[i]);
              c.check("speed-limit", t[i] >= dist / v * (1 - 1e-12), "%s: segment %d of length %g in %g s exceeds %g", e.n, i, dist, t[i], v);
              if (e.kind == 1 || rest) c.check("rest-time", t[i] >= tr * (1 - 1e-9), "%s: segment %d of length %g in %g s, from rest it takes %g", e.n, i, dist, t[i], tr);
              if (e.kind == 1) c.check("ramp-exact", std::fabs(t[i] - std::max(kMin, tr)) <= 1e-9 * (1 + tr), "%s: segment %d takes %g, expected %g", e.n, i, t[i], std::max(kMin, tr));
              c.check("not-needless", t[i] <= std::max(kMin, dist / v + 2 * v / a) * (1 + 1e-12), "%s: segment %d of length %g takes %g", e.n, i, dist, t[i]);
              auto one = e.f({vv[i], vv[i + 1]}, v, a); c.op();
              c.check("local", one.size() == 1 && one[0] == t[i], "%s: segment %d takes %g in the list and %g alone", e.n, i, t[i], one.empty() ? -1 : one[0]);
              c.obs(t[i]);
            }
          }
        }
      }
    }
    c.group("long-lists");
    for (int dim : {1, 3}) for (int n : {5, 6, 8, 9, 13, 24, 40}) for (int pat = 0; pat < (T ? 40 : 12); pat++) if (c.take()) {
      c.describe("%d vertices of dimension %d, pattern %d", n, dim, pat); c.nontrivial();
      Vertex::Vector vv; for (int i = 0; i < n; i++) vv.push_back(V(x(P[(i * (1 + pat % 4) + i * i * (pat / 4)) % P.size()], dim), (i + pat) % 5 == 0 ? pat % 4 : (pat / 3) % 4, X(X::Constant(dim, 0.7))));
      for (auto& e : ests) for (double v : {0.5, 20.0}) for (double a : {0.3, 9.81}) {
        auto t = e.f(vv, v, a); c.op(); if (!c.check("count", (int)t.size() == n - 1, "%s: %zu times for %d vertices", e.n, t.size(), n)) continue;
        for (int i = 0; i + 1 < n; i++) { auto one = e.f({vv[i], vv[i + 1]}, v, a); c.op(); c.check("local", one.size() == 1 && one[0] == t[i], "%s: segment %d of %d takes %g in the list and %g alone", e.n, i, n, t[i], one.empty() ? -1 : one[0]); c.obs(t[i]); }
      }
    }
    c.group("monotone");
    for (int k0 = 0; k0 < 4; k0++) for (int k1 = 0; k1 < 4; k1++) for (double v : vs) for (double a : as) if (c.take()) {
      c.describe("end constraints %d %d, limits %g %g", k0, k1, v, a); c.nontrivial();
      for (auto& e : ests) { double last = 0; for (double d : ds) {
        X s = X::Zero(3), g(3); g << 0, 0.6 * d, -0.8 * d; Vertex::Vector vv{V(s, k0, X(X::Constant(3, 1.0))), V(g, k1, X(X::Constant(3, 1.0)))};
        double t = e.f(vv, v, a)[0]; c.op(); c.check("grows-with-distance", t >= last * (1 - 1e-12), "%s: distance %g takes %g, a shorter one %g", e.n, d, t, last); last = t;
        for (double a2 : as) if (a2 > a) { c.check("not-slower-with-acceleration", e.f(vv, v, a2)[0] <= t * (1 + 1e-12), "%s: acceleration limit %g is slower than %g", e.n, a2, a); c.op(); }
        bool rest = k0 == 1 || k0 == 3 || k1 == 1 || k1 == 3;
        for (double v2 : vs) if (v2 > v && (e.kind == 1 || !rest || v2 * v2 <= d * a)) { c.check("not-slower-with-speed", e.f(vv, v2, a)[0] <= t * (1 + 1e-12), "%s: speed limit %g is slower than %g (distance %g)", e.n, v2, v, d); c.op(); }
      } }
    }
    c.group("time-factor");
    for (double f : {1.0, 1.5, 2.0, 10.0}) for (double v : vs) for (double a : as) if (c.take()) {
      c.describe("time factor %g, limits %g %g", f, v, a); c.nontrivial();
      for (double d : ds) { X s = X::Zero(3), g(3); g << 0, 0.6 * d, -0.8 * d; Vertex::Vector vv{V(s, 0, s), V(g, 0, s)};
        double t = mtg::estimateSegmentTimesVelocityRamp(vv, v, a, f)[0]; c.op(); double tr = trapezoid(d, v, a);
        c.check("factor", t >= std::max(kMin, tr * f) * (1 - 1e-9) && t <= std::max(kMin * f, tr * f) * (1 + 1e-9), "distance %g takes %g, unscaled %g", d, t, tr); c.obs(t); }
    }
  });
}
