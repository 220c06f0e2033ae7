// C06: velocity and acceleration are the time derivatives of the position, and all three are continuous.
#include "pathlat.h"

static const double GX[5] = {0.04691007703066800, 0.23076534494715845, 0.5, 0.76923465505284155, 0.95308992296933200};
static const double GW[5] = {0.11846344252809454, 0.23931433524968324, 0.28444444444444444, 0.23931433524968324, 0.11846344252809454};

struct Cut { double t, d, sigma; };   // a documented cut-off of a move's influence: time and size of the move

// integrals over [a, b] (trajectory time) of velocity and acceleration against the differences of position and velocity
struct Err { double p = 0, v = 0, scale_v = 0, scale_a = 0; };
static Err interval(Flight& f, double a, double b) {
  double c = f.g->getTimeCompensation();
  auto ev = [&](double tau, double* real) { dtg::References r; float t = (float)(tau - c); f.g->evaluateTrajectory(t, r, false, true); *real = (double)t + c; return r; };
  double ra, rb;
  auto A = ev(a, &ra), B = ev(b, &rb);
  Vector3d iv = Vector3d::Zero(), ia = Vector3d::Zero();
  Err e;
  for (int i = 0; i < 5; i++) {
    double rt, want = ra + (rb - ra) * GX[i];
    auto r = ev(want, &rt);
    iv += GW[i] * (r.velocity + r.acceleration * (want - rt)); ia += GW[i] * r.acceleration;
    e.scale_v = std::max(e.scale_v, r.velocity.norm()); e.scale_a = std::max(e.scale_a, r.acceleration.norm());
    MC_CHECK("finite", fin(r), "reference at %.5f is not finite", want);
  }
  e.p = (B.position - A.position - iv * (rb - ra)).norm();
  e.v = (B.velocity - A.velocity - ia * (rb - ra)).norm();
  return e;
}
static double third_difference(Flight& f, double t, double e, double* scale) {
  Vector3d a[4];
  for (int i = 0; i < 4; i++) { a[i] = f.at(t + (2 * i - 3) * e).acceleration; *scale = std::max(*scale, a[i].norm()); }
  return (a[3] - 3 * a[2] + 3 * a[1] - a[0]).norm();
}

static void check(Flight& f, const char* nm, double sub, const std::vector<Cut>& cuts, double from = -1) {
  auto d = f.wps();
  std::vector<double> knots;
  for (auto& w : d) knots.push_back(w.getTime());
  for (size_t i = 0; i + 1 < knots.size(); i++) {
    double a = knots[i], b = knots[i + 1];
    if (i + 2 == knots.size()) b -= 4e-6 * std::max(1.0, b);   // not the instant of the end itself, where the reference stops (float times may lie past it)
    if (from > b - 1e-3) continue;
    if (a < from) a = from;
    int n = std::max(4, (int)std::ceil((b - a) / sub));
    for (int k = 0; k < n; k++) {
      double x = a + (b - a) * k / n, y = a + (b - a) * (k + 1) / n;
      double jp = 0, jv = 0;
      for (auto& c : cuts) if (c.t > x - 1e-3 && c.t < y + 1e-3) { jp += c.d * 0.0035; jv += c.d * 3.5 / c.sigma * 0.0035; }
      auto e = interval(f, x, y);
      double rp = e.p / (1e-3 + e.scale_v * (y - x)), rv = e.v / (1e-3 + e.scale_a * (y - x));
      if (!jv) { stat("dp", rp, nm); stat("dv", rv, nm); }
      MC_CHECK("velocity is not the derivative of position", rp < 1e-5 || e.p < jp + 1e-5, "%s: over [%.4f, %.4f] the position changes by %.3g more than the integral of the velocity (speed %.3g)", nm, x, y, e.p, e.scale_v);
      MC_CHECK("acceleration is not the derivative of velocity", rv < 1e-3 || e.v < jv + 1e-3 * (0.1 + e.scale_a), "%s: over [%.4f, %.4f] the velocity changes by %.3g more than the integral of the acceleration (%.3g)", nm, x, y, e.v, e.scale_a);
    }
    if (i + 2 < knots.size()) {
      double t = knots[i + 1], h = std::max(4e-6 * std::max(1.0, t), std::min(5e-4, std::min(b - knots[i], knots[i + 2] - b) / 1000));
      bool near = false;
      for (auto& c : cuts) if (std::abs(c.t - t) < 4 * h + 1e-3) near = true;
      double sc = 0; auto td = third_difference(f, t, h, &sc);
      if (!near) {
        stat("jump", td / (1e-2 + sc), nm);
        MC_CHECK("acceleration jumps", td < 0.03 * (0.1 + sc), "%s: acceleration is not continuous at waypoint %zu (t=%.4f): third difference %.3g of %.3g", nm, i + 1, t, td, sc);
        auto e = interval(f, t - h, t + h);
        MC_CHECK("velocity jumps", e.v < 0.02 * (0.05 + e.scale_a * h) + 1e-4, "%s: velocity jumps by %.3g at waypoint %zu (t=%.4f)", nm, e.v, i + 1, t);
        MC_CHECK("position jumps", e.p < 0.02 * (0.02 + e.scale_v * h), "%s: position jumps by %.3g at waypoint %zu (t=%.4f)", nm, e.p, i + 1, t);
      }
    }
  }
  mc::observe("%s end=%.5f", nm, knots.back());
}

struct Move { double frac; int wp; Vector3d d; };
// the flight has been replanned before: 1 at once, 2 some way on, 3 twice
static void replan(Flight& f, const Path& p, int pre, const char* nm) {
  for (int i = 0; i < (pre == 3 ? 2 : 1); i++) {
    if (pre > 1) { double until = f.clock() + 0.12 * f.g->getMaxTime(); while (f.clock() < until) f.step(); }
    f.g->appendWaypoint(mk("Z" + std::to_string(i), p.w.back().p + Vector3d(3 + 3 * i, 2, 1)));
    MC_CHECK("replan", f.settle(), "%s: never idle", nm);
  }
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C06", [](bool th) {
    std::vector<mc::Scenario> v;
    for (auto& p : lattice(th ? 2 : 1)) {
      mc::Scenario s; s.name = "path/" + p.name; s.bound = 0; s.horizon_s = 4000; s.params = "one path, no moves";
      s.body = [p] {
        Flight f;
        f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
        f.g->setWaypoints(p.make());
        f.eval();
        check(f, p.name.c_str(), 1e9, {});
      };
      v.push_back(s);
    }
    // moves without regeneration: every waypoint, displacements, moments of the request; single moves and pairs
    std::vector<Vector3d> ds{{0.5, 0, 0}, {0, -1, 0.3}, {0.03, 2, -0.05}, {-0.1, 0.1, 0.025}};
    std::vector<double> fr{0.1, 0.5, 0.9};
    if (th) { ds.push_back({0, 0, 1}); ds.push_back({-1, -1, 0.019}); fr = {0.05, 0.25, 0.5, 0.75, 0.95}; }
    std::vector<Move> single;
    for (int w = 0; w < 3; w++) for (double x : fr) for (auto& d : ds) single.push_back({x, w, d});
    std::vector<std::vector<Move>> sets;
    for (auto& m : single) sets.push_back({m});
    for (size_t i = 0; i < single.size(); i++) for (size_t j = 0; j < single.size(); j++)
      if (th || (i * 7 + j) % 5 == 0) sets.push_back({single[i], single[j]});
    std::vector<Path> ps;
    { Path p; p.name = "L"; p.speed = 1.5; p.w = {{"A", {4, 0, 1}}, {"B", {8, 3, 2}}, {"C", {12, 0, 1}}}; ps.push_back(p);
      p.name = "U"; p.speed = 1; p.w = {{"A", {0.5, 3, 1}}, {"B", {3, 3, 3}}, {"C", {3, -0.5, 1}}}; ps.push_back(p); }
    // streams of moves; and all of it after replanning
    const size_t plain = sets.size();
    for (int n : th ? std::vector<int>{3, 4, 5, 8, 12, 20} : std::vector<int>{3, 9}) for (int pat = 0; pat < 6; pat++) {
      std::vector<Move> m; for (int i = 0; i < n; i++) m.push_back({n > 8 ? 0.02 : 0.07, pat < 3 ? pat : pat == 3 ? i % 3 : pat == 4 ? 2 - i % 2 : (i / 2) % 3, pat % 2 ? ds[i % ds.size()] : Vector3d(i % 2 ? -0.3 : 0.4, 0.1, 0.05)});
      sets.push_back(m);
    }
    for (auto& p : ps) for (size_t k = 0; k < sets.size(); k++) for (int pre = 0; pre < 4; pre++) {
      if (pre && !th && k < plain && (k * 3 + pre) % 20) continue;
      auto ms = sets[k];
      char b[60]; snprintf(b, sizeof b, "moves%zu/%s%zu%s", ms.size(), p.name.c_str(), k, pre == 1 ? "_r" : pre == 2 ? "_rl" : pre == 3 ? "_rr" : "");
      mc::Scenario s; s.name = b; s.bound = 0; s.horizon_s = 4000; s.params = "waypoints moved without regeneration in flight";
      s.compute_ms = 12;
      s.body = [p, ms, pre, b = std::string(b)] {
        Flight f;
        f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
        f.g->setWaypoints(p.make());
        f.eval();
        if (pre) replan(f, p, pre, b.c_str());
        std::vector<Cut> cuts;
        auto d0 = f.wps();
        std::map<std::string, Vector3d> pos;
        for (auto& w : d0) pos[w.getName()] = w.getCurrentPosition();
        std::string desc = b;
        double smin = 1e9;
        for (auto& m : ms) {
          const std::string n = p.w[m.wp].name;
          if (!find(d0, n)) continue;                            // passed before the replanning
          double tw = find(d0, n)->getTime(), prev = f.clock();
          // the moment: the given fraction of the time left until the waypoint (at once when it has been passed)
          double when = tw > prev ? prev + m.frac * (tw - prev) : prev + 0.2;
          do f.step(); while (f.clock() + f.dt < when);
          pos[n] += m.d;
          double tq = f.log.back().t + f.log.back().comp;      // on the time scale of the waypoints
          f.g->modifyWaypoint(n, pos[n], false);
          mc::sleep_ms(15);
          f.eval();      // served by now (idle generator)
          char q[100]; snprintf(q, sizeof q, " %s by %s at %.3f", n.c_str(), vs(m.d).c_str(), tq); desc += q;
          double sigma = (tw - tq) / 3;
          if (sigma > 0) { smin = std::min(smin, sigma); cuts.push_back({tw - 3.5 * sigma, m.d.norm(), sigma}); cuts.push_back({tw + 3.5 * sigma, m.d.norm(), sigma}); }
        }
        check(f, desc.c_str(), std::max(0.02, std::min(0.5, smin / 3)), cuts, f.log.back().t + f.log.back().comp);
      };
      v.push_back(s);
    }
    return v;
  });
}
