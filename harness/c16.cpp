// C16: trajectory operations against a reference that keeps plain coefficient lists.
#include "trajalpha.h"

static std::vector<std::vector<double>> time_sets(int K) {
  if (K == 1) return {{1}, {0.5}, {0.1}, {3}, {1.0 / 3}};
  if (K == 2) return {{1, 1}, {0.5, 2}, {0.1, 0.2}, {1.0 / 3, 0.7}, {3, 0.25}};
  if (K == 3) return {{1, 1, 1}, {0.5, 2, 0.25}, {0.1, 0.2, 0.3}, {0.7, 1.0 / 3, 1.1}};
  return {{1, 0.5, 2, 0.25}, {0.1, 0.2, 0.3, 0.1}};
}
template <class F> static void all_traj(bool T, F f) {
  for (int D = 1; D <= 4; D++) for (int K = 1; K <= (T ? 4 : 3); K++) for (int N : {2, 4, 6, 10, 12}) for (int seed = 0; seed < (T ? 9 : 3); seed++)
    for (auto& ts : time_sets(K)) f(mkref(D, K, N, seed, ts));
  for (int K : T ? std::vector<int>{5, 6, 7, 8, 9, 11, 16, 17, 24, 33, 70} : std::vector<int>{5, 9, 17, 34}) for (int D : {1, 3}) for (int N : {4, 10}) for (int pat = 0; pat < (T ? 6 : 3); pat++) f(mkref(D, K, N, K + pat, many_times(K, pat)));
}
static Traj scaled(const Traj& t, double s) { Traj o = t; for (auto& g : o) { g.T *= s; for (auto& p : g.dims) p = ref::timescale(p, 1 / (R)s); } return o; }
static Traj offs(const Traj& t, const std::vector<double>& v) { Traj o = t; for (auto& g : o) for (size_t d = 0; d < std::min<size_t>(3, g.dims.size()); d++) g.dims[d][0] += v[d]; return o; }
static Traj single(const Traj& t, int d) { Traj o = t; for (auto& g : o) g.dims = {g.dims[d]}; return o; }
static Traj appended(const Traj& a, const Traj& b) {
  Traj o; int N = std::max(a[0].dims[0].size(), b[0].dims[0].size());
  for (size_t k = 0; k < a.size(); k++) {
    Seg s; s.T = std::max(a[k].T, b[k].T);
    for (auto& p : a[k].dims) s.dims.push_back(pad(ref::timescale(p, (R)a[k].T / s.T), N));
    for (auto& p : b[k].dims) s.dims.push_back(pad(ref::timescale(p, (R)b[k].T / s.T), N));
    o.push_back(s);
  }
  return o;
}
static Traj joined(const Traj& a, const Traj& b) { Traj o = a; o.insert(o.end(), b.begin(), b.end()); return o; }
static bool equal_motion(const Traj& a, const Traj& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); k++) {
    if (a[k].T != b[k].T || a[k].dims.size() != b[k].dims.size()) return false;
    for (size_t d = 0; d < a[k].dims.size(); d++) { size_t n = std::max(a[k].dims[d].size(), b[k].dims[d].size()); if (pad(a[k].dims[d], n) != pad(b[k].dims[d], n)) return false; }
  }
  return true;
}
static void maxmag(const Traj& t, int der, R& mx) {
  mx = 0;
  for (auto& s : t) { P m; for (auto& p : s.dims) { P d = ref::deriv(p, der); m = ref::add(m, ref::mul(d, d)); } R lo, hi; ref::minmax(m, 0, s.T, lo, hi); mx = std::max(mx, sqrtl(std::max((R)0, hi))); }
}

int main(int argc, char** argv) {
  google::InitGoogleLogging("c16"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C16", [](en::Ctx& c) {
    const bool T = c.thorough;
    c.group("evaluate");
    all_traj(T, [&](const Traj& r) {
      if (!c.take()) return;
      c.describe("evaluate %s", str(r).c_str()); c.nontrivial();
      Trajectory t = mkt(r); int N = r[0].dims[0].size();
      c.check("shape", t.K() == (int)r.size() && t.D() == (int)r[0].dims.size() && t.N() == N && t.getMinTime() == 0 && !t.empty(), "wrong shape");
      c.check("max-time", ref::close(t.getMaxTime(), total(r), total(r), 1e-14L), "max time %.17g", t.getMaxTime());
      bool dy = dyadic(r); R eps = dy ? 0 : 1e-13L * (1 + total(r));
      double acc = 0; std::vector<double> B{0}; for (auto& s : r) B.push_back(acc += s.T);
      for (double q : probe_times(r)) if (q <= t.getMaxTime())
        for (int k = 0; k < N; k++) {
          Eigen::VectorXd v = t.evaluate(q, k); c.op();
          c.check("value", value_ok(r, q, k, v, eps, dy), "derivative %d at %.17g is %s", k, q, str(v).c_str());
          for (int d = 0; d < v.size(); d++) c.obs(v[d]);
        }
      c.check("outside", t.evaluate(total(r) + 0.5, 0).size() == t.D(), "wrong size outside");
      // vertices
      for (int md : {0, 1, 3}) {
        Vertex::Vector vs; bool ok = t.getVertices(md, &vs); c.op();
        if (c.check("vertices-count", ok && vs.size() == r.size() + 1, "%zu vertices", vs.size()))
          for (size_t i = 0; i < vs.size(); i++) {
            c.check("vertex-constraints", (int)vs[i].getNumberOfConstraints() == md + 1 && vs[i].D() == t.D(), "vertex %zu has %zu constraints", i, vs[i].getNumberOfConstraints());
            for (int k = 0; k <= md; k++) { Eigen::VectorXd v; bool has = vs[i].getConstraint(k, &v); c.check("vertex-value", has && value_ok(r, B[i], k, v, 1e-13L * (1 + total(r)), dy), "vertex %zu derivative %d: %s", i, k, has ? str(v).c_str() : "none"); }
          }
        Vertex a = t.getStartVertex(md), b = t.getGoalVertex(md), m = t.getVertexAtTime(total(r) / 2, md); c.op(3);
        for (int k = 0; k <= md; k++) {
          Eigen::VectorXd v;
          c.check("start-vertex", a.getConstraint(k, &v) && value_ok(r, 0, k, v, 0), "start derivative %d", k);
          c.check("goal-vertex", b.getConstraint(k, &v) && value_ok(Traj{r.back()}, r.back().T, k, v, 1e-9L), "goal derivative %d", k);
          c.check("mid-vertex", m.getConstraint(k, &v) && value_ok(r, total(r) / 2, k, v, 1e-13L), "mid derivative %d", k);
        }
      }
      { Vertex::Vector pv, yv; bool ok = t.getVertices(2, 1, &pv, &yv); c.op();
        if (t.D() < 4) c.check("yaw-vertices-refused", !ok, "a %d-dimensional trajectory gave yaw vertices", t.D());
        else if (c.check("yaw-vertices", ok && pv.size() == r.size() + 1 && yv.size() == r.size() + 1, "%zu/%zu vertices", pv.size(), yv.size()))
          for (size_t i = 0; i < pv.size(); i++) {
            c.check("yaw-vertex-shape", pv[i].D() == 3 && yv[i].D() == 1 && pv[i].getNumberOfConstraints() == 3 && yv[i].getNumberOfConstraints() == 2, "vertex %zu: %zu and %zu constraints", i, pv[i].getNumberOfConstraints(), yv[i].getNumberOfConstraints());
            for (int k = 0; k <= 2; k++) {
              Eigen::VectorXd v, w, all(4); bool h = pv[i].getConstraint(k, &v); bool hy = yv[i].getConstraint(k, &w);
              c.check("yaw-vertex-orders", h && hy == (k <= 1), "vertex %zu derivative %d", i, k);
              if (h && hy && v.size() == 3 && w.size() == 1) { all << v, w; c.check("yaw-vertex-value", value_ok(r, B[i], k, all, 1e-13L * (1 + total(r)), dy), "vertex %zu derivative %d", i, k); }
            }
          }
      }
    });
    c.group("single-dimension");
    all_traj(T, [&](const Traj& r) {
      if (!c.take()) return;
      c.describe("single dimensions of %s", str(r).c_str()); c.nontrivial();
      Trajectory t = mkt(r);
      for (int d = 0; d < t.D(); d++) { compare(c, "single", t.getTrajectoryWithSingleDimension(d), single(r, d)); c.op(); }
      Segment s = mks(r[0]), o(0, 0);
      for (int d = 0; d < t.D(); d++) {
        bool ok = s.getSegmentWithSingleDimension(d, &o); c.op();
        c.check("segment", ok && o.D() == 1 && o.N() == s.N() && o.getTime() == s.getTime() && o[0] == s[d], "dimension %d", d);
      }
      for (int d : {-1, t.D(), t.D() + 3}) { c.check("segment-refused", !s.getSegmentWithSingleDimension(d, &o), "dimension %d accepted", d); c.op(); }
    });
    c.group("append-dimension");
    std::vector<Traj> al;
    for (int K = 1; K <= 3; K++) for (int D : {1, 2, 3}) for (int N : {4, 6, 10}) { auto ts = time_sets(K); for (size_t i = 0; i < ts.size(); i += T ? 1 : 2) al.push_back(mkref(D, K, N, (int)(K + D + N + i), ts[i])); }
    for (auto& a : al) for (auto& b : al) if (a.size() == b.size()) if (c.take()) {
      c.describe("append %s to %s", str(b).c_str(), str(a).c_str()); c.nontrivial();
      Trajectory o; bool ok = mkt(a).getTrajectoryWithAppendedDimension(mkt(b), &o); c.op();
      if (c.check("accepted", ok, "refused")) compare(c, "appended", o, appended(a, b));
      Segment s(0, 0); ok = mks(a[0]).getSegmentWithAppendedDimension(mks(b[0]), &s); c.op();
      Trajectory ts; ts.setSegments({s});
      if (c.check("segment-accepted", ok, "refused")) compare(c, "segment-appended", ts, appended({a[0]}, {b[0]}));
    }
    for (auto& a : al) if (c.take()) {
      c.describe("append empty to / append to empty %s", str(a).c_str()); c.nontrivial();
      Trajectory e, o, o2; bool ok = mkt(a).getTrajectoryWithAppendedDimension(e, &o); bool ok2 = e.getTrajectoryWithAppendedDimension(mkt(a), &o2); c.op(2);
      if (c.check("empty-accepted", ok && ok2, "refused")) { compare(c, "append-empty", o, a); compare(c, "append-to-empty", o2, a); }
    }
    c.group("join");
    std::vector<Traj> js;
    for (int D : {1, 3, 4}) for (int N : {4, 10}) for (int K : {1, 2}) for (int seed : {1, 4}) js.push_back(mkref(D, K, N, seed, time_sets(K)[seed % 4]));
    for (auto& a : js) for (auto& b : js) for (size_t ci = 0; ci <= js.size(); ci++) if (c.take()) {
      bool third = ci < js.size();
      c.describe("join %s | %s | %s", str(a).c_str(), str(b).c_str(), third ? str(js[ci]).c_str() : "-"); c.nontrivial();
      std::vector<Trajectory> l{mkt(b)}; if (third) l.push_back(mkt(js[ci]));
      Trajectory m, base = mkt(a); bool ok = base.addTrajectories(l, &m); c.op();
      auto comp = [&](const Traj& x) { return x[0].dims.size() == a[0].dims.size() && x[0].dims[0].size() == a[0].dims[0].size(); };
      bool want = comp(b) && (!third || comp(js[ci]));
      c.check("accepts", ok == want, "returned %d, expected %d", ok, want);
      if (ok && want) { Traj r = joined(a, b); if (third) r = joined(r, js[ci]); compare(c, "joined", m, r); }
      compare(c, "source-untouched", base, a);
    }
    for (int n : {3, 4, 6, 9, 17}) for (int which = 0; which < 4; which++) if (c.take()) {     // many at once
      std::vector<Trajectory> l; Traj a = js[which * 2 % js.size()], r = a; std::vector<Traj> cand; for (auto& x : js) if (x[0].dims.size() == a[0].dims.size() && x[0].dims[0].size() == a[0].dims[0].size()) cand.push_back(x);
      for (int i = 0; i < n; i++) { auto& x = cand[(i * (which + 1) + which) % cand.size()]; l.push_back(mkt(x)); r = joined(r, x); }
      c.describe("join %d to %s", n, str(a).c_str()); c.nontrivial(); Trajectory m, base = mkt(a); bool ok = base.addTrajectories(l, &m); c.op(); if (c.check("accepts-many", ok, "refused")) compare(c, "joined-many", m, r); compare(c, "source-untouched", base, a);
    }
    if (c.take()) { c.describe("join with nothing"); Trajectory m; Traj a = js[0]; bool ok = mkt(a).addTrajectories({}, &m); c.op(); c.check("none", ok, "refused"); compare(c, "joined", m, a); }
    c.group("offset");
    all_traj(false, [&](const Traj& r) {
      if (!c.take()) return;
      c.describe("offset %s", str(r).c_str()); c.nontrivial();
      for (int n = 0; n <= 5; n++) {
        Eigen::VectorXd v(n); std::vector<double> s; for (int i = 0; i < n; i++) { v[i] = 0.5 + i * 1.25; s.push_back(v[i]); }
        Trajectory t = mkt(r); int need = std::min(t.D(), 3); bool ok = t.offsetTrajectory(v); c.op();
        c.check("accepts", ok == (n >= need), "offset of size %d on dimension %d returned %d", n, t.D(), ok);
        if (n >= need) compare(c, "offset", t, offs(r, s)); else compare(c, "refused-unchanged", t, r);
        Segment g = mks(r[0]); ok = g.offsetSegment(v); c.op();
        c.check("segment-accepts", ok == (n >= need), "offset of size %d returned %d", n, ok);
        Trajectory gt; gt.setSegments({g}); compare(c, "segment-offset", gt, n >= need ? offs({r[0]}, s) : Traj{r[0]});
      }
    });
    c.group("scale-time");
    all_traj(false, [&](const Traj& r) {
      if (!c.take()) return;
      c.describe("scale %s", str(r).c_str()); c.nontrivial();
      for (double s : {0.5, 1.0, 2.0, 3.7, 0.1, 10.0}) { Trajectory t = mkt(r); bool ok = t.scaleSegmentTimes(s); c.op(); if (c.check("accepted", ok, "factor %g refused", s)) compare(c, "scaled", t, scaled(r, s)); }
      for (double s : {0.0, -1.0, 1e-7}) { Trajectory t = mkt(r); bool ok = t.scaleSegmentTimes(s); c.op(); c.check("refused", !ok, "factor %g accepted", s); compare(c, "refused-unchanged", t, r); }
    });
    c.group("scale-to-limits");
    all_traj(T, [&](const Traj& r) {
      if (!c.take()) return;
      c.describe("limits %s", str(r).c_str());
      R v0, a0; maxmag(r, 1, v0); maxmag(r, 2, a0);
      for (double v : {0.1, 1.0, 3.0, 50.0, 1e6}) for (double a : {0.05, 1.0, 10.0, 400.0, 1e6}) {
        Trajectory t = mkt(r); bool ok = t.scaleSegmentTimesToMeetConstraints(v, a); c.op();
        R f = std::max({(R)1, v0 / v, sqrtl(a0 / a)});      // the least stretch that meets both limits
        R got = t.getMaxTime() / total(r);
        c.check("success", ok, "reported failure (limits %g %g)", v, a);
        c.check("only-lengthens", got >= 1 - 1e-12L, "shortened by %.9Lg", got);
        c.check("least-stretch", got >= f * (1 - 1.1e-3L) && got <= f * (1 + 1.1e-3L), "stretched by %.9Lg, needed %.9Lg (limits %g %g)", got, f, v, a);
        if (ok) {
          Traj n = scaled(r, (double)got); R v1, a1; maxmag(n, 1, v1); maxmag(n, 2, a1);
          c.check("limits-met", v1 <= v * 1.0011L && a1 <= a * 1.0011L, "velocity %.6Lg of %g, acceleration %.6Lg of %g", v1, v, a1, a);
          if (f > 1.01L) c.nontrivial();
        }
        compare(c, "path-kept", t, scaled(r, (double)got), 1e-8L);
      }
    });
    c.group("equality");
    std::vector<Traj> es;
    for (int D : {1, 2}) for (int K : {1, 2}) for (int N : {4, 6}) for (int seed : {1, 2}) {
      Traj b = mkref(D, K, N, seed, K == 1 ? std::vector<double>{1} : std::vector<double>{1, 0.5}); es.push_back(b);
      Traj x = b; x.back().T = 0.75; es.push_back(x);
      for (double dt : {1e-3, 1e-6, -1e-8}) { x = b; x[0].T += dt; es.push_back(x); }
      for (double dc : {-1e-6, 1e-12}) { x = b; x.back().dims.back().back() += dc; es.push_back(x); }
      x = b; x.back().dims.back().back() += 1; es.push_back(x);
      x = b; x[0].dims[0][0] += 1e-9; es.push_back(x);
      x = b; for (auto& s : x) for (auto& p : s.dims) p.push_back(0); es.push_back(x);
      if (K == 2) { x = b; std::swap(x[0], x[1]); es.push_back(x); }
      if (D == 2) { x = b; for (auto& s : x) std::swap(s.dims[0], s.dims[1]); es.push_back(x); }
    }
    for (auto& a : es) for (auto& b : es) if (c.take()) {
      c.describe("compare %s with %s", str(a).c_str(), str(b).c_str()); c.nontrivial();
      if (a[0].dims[0].size() != b[0].dims[0].size() && equal_motion(a, b)) { c.describe(" (not specified: same motion, different number of coefficients)"); continue; }
      bool w = equal_motion(a, b), g = mkt(a) == mkt(b), n = mkt(a) != mkt(b); c.op(2); c.obs((int)g);
      c.check("equal", g == w, "== gave %d, motion equal %d", g, w); c.check("unequal", n == !g, "!= disagrees with ==");
      if (a.size() == 1 && b.size() == 1) { bool sg = mks(a[0]) == mks(b[0]); c.check("segment-equal", sg == w, "segment == gave %d, expected %d", sg, w); c.op(); }
    }
    c.group("sequences");
    // every sequence of operations up to a length, model alongside
    const int L = T ? 4 : 3, NOPS = 9;
    std::vector<Traj> st{mkref(1, 1, 4, 1, {0.5}), mkref(3, 2, 6, 2, {0.1, 0.3}), mkref(4, 3, 10, 5, {1, 0.7, 0.25})};
    for (auto& s0 : st) { long n = 1; for (int i = 0; i < L; i++) n *= NOPS;
      for (long code = 0; code < n; code++) if (c.take()) {
        Traj r = s0; Trajectory t = mkt(r); std::string d; long x = code; bool skip = false;
        c.describe("start %s", str(r).c_str());
        for (int i = 0; i < L && !skip; i++, x /= NOPS) {
          int o = x % NOPS; c.op();
          switch (o) {
            case 0: t.scaleSegmentTimes(2); r = scaled(r, 2); c.describe(" scale2"); break;
            case 1: t.scaleSegmentTimes(0.3); r = scaled(r, 0.3); c.describe(" scale0.3"); break;
            case 2: { Eigen::Vector3d v(1, -2, 0.5); c.check("offset", t.offsetTrajectory(v), "refused"); r = offs(r, {1, -2, 0.5}); c.describe(" offset"); break; }
            case 3: { int k = t.D() - 1; t = t.getTrajectoryWithSingleDimension(k); r = single(r, k); c.describe(" last-dimension"); break; }
            case 4: { if (t.D() > 8) { skip = true; break; } Trajectory n2; Trajectory sub = t.getTrajectoryWithSingleDimension(0); c.check("append", t.getTrajectoryWithAppendedDimension(sub, &n2), "refused"); t = n2; r = appended(r, single(r, 0)); c.describe(" append-first-dimension"); break; }
            case 5: { Trajectory m; c.check("join", t.addTrajectories({t}, &m), "refused"); t = m; r = joined(r, r); c.describe(" join-self"); break; }
            case 6: { Trajectory cp(t); Segment::Vector sv; cp.getSegments(&sv); t.clear(); c.check("clear", t.empty() && t.K() == 0 && t.D() == 0 && t.N() == 0 && t.getMaxTime() == 0, "not empty after clear"); t.setSegments(sv); c.describe(" rebuild"); break; }
            case 7: { Segment::Vector sv = t.segments(); t.addSegments({sv[0]}); r.push_back(r[0]); c.describe(" add-first-segment"); break; }
            case 8: { Traj q = mkref(1, (int)r.size(), 4, 3, std::vector<double>(r.size(), 0.6)); Trajectory n2; c.check("append", t.getTrajectoryWithAppendedDimension(mkt(q), &n2), "refused"); t = n2; r = appended(r, q); c.describe(" append-other"); if (r[0].dims.size() > 9) skip = true; break; }
          }
        }
        c.nontrivial();
        compare(c, "after", t, r, 1e-9L);
      }
    }
  });
}
