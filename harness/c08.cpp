// C08: a move without regeneration bends the path locally.
#include "pathlat.h"

struct Move { double frac; std::string name; Vector3d d; bool burst = false; };   // burst: issued together with the previous one
static const int GRID = 240;

struct Picture { std::vector<double> t; std::vector<Vector3d> p; };
static Picture picture(Flight& f, const std::vector<double>& ts) { Picture r; r.t = ts; for (double t : ts) r.p.push_back(f.at(t, true).position); return r; }

// the correction a group of moves has made: `d` per waypoint index
static void check_group(Flight& f, const Picture& B, const DynamicWaypoint::Deque& wb, const std::map<std::string, Vector3d>& target,
                        std::map<std::string, Vector3d>& pending, double teval, const char* nm, bool& other_moved) {
  auto wa = f.wps();
  MC_CHECK("waypoint list", wa.size() == wb.size(), "%s: %zu waypoints before, %zu after the move", nm, wb.size(), wa.size());
  struct Bend { double t, sigma; Vector3d d, lo, hi; std::string n; };
  std::vector<Bend> bends;
  for (size_t i = 0; i < wa.size(); i++) {
    const auto &a = wa[i], &b = wb[i];
    const std::string n = a.getName();
    MC_CHECK("waypoint times", a.getTime() == b.getTime() && n == b.getName(), "%s: waypoint %zu was %s at %.4f and is %s at %.4f after the move", nm, i, b.getName().c_str(), b.getTime(), n.c_str(), a.getTime());
    if (!target.count(n) || n.empty()) {
      MC_CHECK("other waypoint moved", (a.getCurrentPosition() - b.getCurrentPosition()).norm() < 1e-12, "%s: waypoint %zu (%s) moved from %s to %s", nm, i, n.c_str(), vs(b.getCurrentPosition()).c_str(), vs(a.getCurrentPosition()).c_str());
      continue;
    }
    MC_CHECK("reported position", (a.getCurrentPosition() - target.at(n)).norm() < 1e-12, "%s: %s is reported at %s instead of %s", nm, n.c_str(), vs(a.getCurrentPosition()).c_str(), vs(target.at(n)).c_str());
    if (a.getTime() <= teval) continue;                              // already passed by the reference
    Bend e; e.t = a.getTime(); e.n = n; e.d = a.getCurrentPosition() - b.getCurrentPosition();
    e.sigma = (e.t - teval) / 3;
    // what may be missing: displacements below the dead band of 2 cm per axis wait
    std::string key = n + "#" + std::to_string(i);
    if (!pending.count(key)) pending[key] = Vector3d::Zero();
    for (int k = 0; k < 3; k++) {
      double all = pending[key][k] + e.d[k];
      if (std::abs(all) < 0.02 - 1e-9) { e.lo[k] = e.hi[k] = 0; pending[key][k] = all; }
      else { e.lo[k] = e.hi[k] = all; pending[key][k] = 0; if (std::abs(std::abs(all) - 0.02) < 1e-9) { e.lo[k] = std::min(0.0, all); e.hi[k] = std::max(0.0, all); } }
    }
    bends.push_back(e);
  }
  auto A = picture(f, B.t);
  for (size_t i = 0; i < A.t.size(); i++) {
    Vector3d D = A.p[i] - B.p[i];
    // outside every window
    bool outside = true; double lim = 0;
    for (auto& e : bends) { double reach = 4 * e.sigma; if (std::abs(A.t[i] - e.t) < reach) outside = false; lim += e.d.norm(); }
    if (outside && A.t[i] < f.g->getMaxTime()) MC_CHECK("outside the window", D.norm() < 1e-6, "%s: the reference at %.3f changes by %s (moved waypoints at %s)", nm, A.t[i], vs(D).c_str(), [&] { std::string s; for (auto& e : bends) s += " " + std::to_string(e.t); return s; }().c_str());
    for (int k = 0; k < 3; k++) {
      double lo = 0, hi = 0; for (auto& e : bends) { lo += std::min(0.0, e.lo[k]); hi += std::max(0.0, e.hi[k]); }
      MC_CHECK("bends beyond the displacement", D[k] > lo - 1e-6 && D[k] < hi + 1e-6, "%s: the reference at %.3f changes by %s, more than the moves", nm, A.t[i], vs(D).c_str());
    }
  }
  if (bends.size() == 1) {
    auto& e = bends[0];
    // exactly the displacement at the waypoint's time, ever less away from it
    auto at = [&](double t) { double best = 1e9; size_t bi = 0; for (size_t i = 0; i < A.t.size(); i++) if (std::abs(A.t[i] - t) < best) { best = std::abs(A.t[i] - t); bi = i; } return bi; };
    size_t iw = at(e.t);
    Vector3d D = A.p[iw] - B.p[iw];
    for (int k = 0; k < 3; k++) MC_CHECK("not by the displacement", D[k] > e.lo[k] - 1e-4 * (0.1 + std::abs(e.d[k])) && D[k] < e.hi[k] + 1e-4 * (0.1 + std::abs(e.d[k])), "%s: at the time of %s (%.4f) the path changes by %s for a move by %s", nm, e.n.c_str(), e.t, vs(D).c_str(), vs(e.d).c_str());
    for (int dir : {-1, 1}) {
      Vector3d last = D;
      for (size_t i = iw; i + dir < A.t.size() && (int)i + dir >= 0; i += dir) {
        Vector3d x = A.p[i + dir] - B.p[i + dir];
        for (int k = 0; k < 3; k++) MC_CHECK("bend is not local", std::abs(x[k]) < std::abs(last[k]) + 1e-6, "%s: away from %s the correction grows: %s at %.3f, %s at %.3f", nm, e.n.c_str(), vs(last).c_str(), A.t[i], vs(x).c_str(), A.t[i + dir]);
        last = x;
      }
    }
    // effective: half a standard window away there is still a good part of it (it is a bend, not a spike)
    double q = e.t - 0.25 * (e.t - teval);
    if (e.t - teval > 0.8 && e.d.norm() > 0.1) {
      size_t j = at(q); Vector3d x = A.p[j] - B.p[j];
      stat("quarter", x.norm() / e.d.norm(), nm);
      MC_CHECK("spike", x.norm() > 0.4 * e.d.norm() && x.norm() < 0.98 * e.d.norm(), "%s: a quarter of the way before %s the correction is %s of %s", nm, e.n.c_str(), vs(x).c_str(), vs(e.d).c_str());
    }
    // not at the moment of the request
    if (e.t - teval > 0.02) {
      size_t j = at(teval);
      Vector3d x = A.p[j] - B.p[j];
      stat("moment", x.norm() / e.d.norm(), nm);
      Vector3d all = e.lo.cwiseAbs().cwiseMax(e.hi.cwiseAbs());      // with what had waited below the dead band
      MC_CHECK("jump at the request", x.norm() < 0.02 * std::max(e.d.norm(), all.norm()) + 1e-6, "%s: at the moment of the request the reference jumps by %s for a move by %s, %.3f s ahead", nm, vs(x).c_str(), vs(e.d).c_str(), e.t - teval);
    }
    // through the new position, when nothing else bends the path there
    if (!other_moved) {
      Vector3d at_wp = A.p[iw];
      for (int k = 0; k < 3; k++) MC_CHECK("not through the new position", std::abs(at_wp[k] - target.at(e.n)[k]) < 0.0201 + 1e-4, "%s: at %.4f the path is at %s, %s has been moved to %s", nm, e.t, vs(at_wp).c_str(), e.n.c_str(), vs(target.at(e.n)).c_str());
    }
  }
}

// `pre`: the flight has been replanned before: 1 at once, 2 some way on, 3 twice
static void flight(const Path& p, const std::vector<Move>& ms, const std::string& name, int pre = 0) {
  Flight f(0.0473);
  f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
  f.g->setWaypoints(p.make());
  f.eval();
  std::map<std::string, Vector3d> pos, pending;
  for (auto& w : p.w) pos[w.name] = w.p;
  for (int i = 0; i < (pre == 3 ? 2 : pre ? 1 : 0); i++) {
    if (pre > 1) { double until = f.clock() + 0.12 * f.g->getMaxTime(); while (f.clock() < until) f.step(); }
    std::string z = "Z" + std::to_string(i); pos[z] = p.w.back().p + Vector3d(3 + 3 * i, 2, 1);
    f.g->appendWaypoint(mk(z, pos[z]));
    MC_CHECK("replan", f.settle(), "%s: never idle", name.c_str());
  }
  auto d0 = f.wps();
  std::string desc = name, moved;
  bool other = false;
  const double T = f.g->getMaxTime(), t0 = f.g->getMinTime();
  long opts = mc::optimizations_started();
  // two waypoints of one name start from different positions but move to the same one
  for (size_t k = 0; k < ms.size(); k++) {
    auto& m = ms[k];
    auto w = find(d0, m.name);
    double tw = w ? w->getTime() : 0.5 * T;
    double tq = f.log.back().t, when = m.frac < 0 ? tw + 0.15 : m.frac == 0 ? tq : tw > tq ? tq + m.frac * (tw - tq) : tq + 0.1;
    if (m.frac == -2) when = tw - f.g->getTimeCompensation() + 0.004;      // the reference has just passed it
    while (f.clock() + f.dt < when) f.step();
    if (m.frac == -2 && f.clock() < when) { mc::sleep_ms((when - f.clock()) * 1e3); f.eval(); }
    double te = f.log.back().t + f.log.back().comp;        // the moment on the time scale of the waypoints
    std::vector<double> ts{te};
    for (int i = 0; i <= GRID; i++) ts.push_back(t0 + (T + 3 - t0) * i / GRID);
    for (auto& x : f.wps()) { ts.push_back(x.getTime()); if (te > 0) ts.push_back(x.getTime() - 0.25 * (x.getTime() - te)); }
    std::sort(ts.begin(), ts.end());
    auto wb = f.wps();
    auto B = picture(f, ts);
    std::map<std::string, Vector3d> target;
    for (;; k++) {
      auto& q = ms[k];
      if (!pos.count(q.name)) pos[q.name] = Vector3d(1, 1, 1);
      pos[q.name] += q.d; target[q.name] = pos[q.name];
      f.g->modifyWaypoint(q.name, pos[q.name], false);
      char b[120]; snprintf(b, sizeof b, " %s by %s at %.3f", q.name.c_str(), vs(q.d).c_str(), te); desc += b;
      if (find(wb, q.name) && !q.name.empty()) { if (!moved.empty() && moved != q.name) other = true; moved = q.name; int n = 0; for (auto& x : wb) n += x.getName() == q.name; if (n > 1) other = true; }
      if (k + 1 >= ms.size() || !ms[k + 1].burst) break;
    }
    mc::sleep_ms(25);
    check_group(f, B, wb, target, pending, te, desc.c_str(), other);
    MC_CHECK("regenerates", mc::optimizations_started() == opts && f.idle(), "%s: a new trajectory is computed", desc.c_str());
    MC_CHECK("times", std::abs(f.g->getMaxTime() - T) < 1e-12 && std::abs(f.g->getMinTime() - t0) < 1e-12, "%s: the trajectory now lasts from %.4f to %.4f", desc.c_str(), f.g->getMinTime(), f.g->getMaxTime());
  }
  // the reference flown afterwards is the one that was announced
  auto ts = std::vector<double>(); for (int i = 0; i <= 50; i++) ts.push_back(f.log.back().t + (T - f.log.back().t) * i / 50.0);
  auto P = picture(f, ts);
  for (size_t i = 0; i < ts.size(); i++) {
    dtg::References r; f.g->evaluateTrajectory((float)(ts[i] - f.g->getTimeCompensation()), r);
    MC_CHECK("flown differently", (r.position - P.p[i]).norm() < 1e-9, "%s: flown through %s at %.3f, announced was %s", desc.c_str(), vs(r.position).c_str(), ts[i], vs(P.p[i]).c_str());
  }
  mc::observe("%s %.6f", name.c_str(), P.p[20].norm());
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C08", [](bool th) {
    std::vector<mc::Scenario> v;
    std::vector<Path> ps;
    { Path p; p.speed = 1.5;
      p.name = "L"; p.w = {{"A", {4, 0, 1}}, {"B", {8, 3, 2}}, {"C", {12, 0, 1}}}; ps.push_back(p);
      p.name = "S"; p.w = {{"A", {6, 0, 1}}}; ps.push_back(p);
      p.name = "D"; p.w = {{"A", {4, 0, 1}}, {"", {8, 3, 2}}, {"A", {12, 0, 1}}, {"B", {15, 0, 3}}}; ps.push_back(p);
      p.name = "U"; p.speed = 1; p.w = {{"A", {0.5, 3, 1}}, {"B", {3, 3, 3}}, {"C", {3, -0.5, 1}}}; ps.push_back(p);
      if (th) { p.name = "F"; p.speed = 4; p.w = {{"A", {5, 0, 1}}, {"B", {25, 8, 2}}, {"C", {26, 0, 9}}, {"E", {26, 0, 12}}}; ps.push_back(p); } }
    std::vector<Vector3d> ds{{0.5, 0, 0}, {0, -1, 0.3}, {0.03, 2, -0.05}, {-0.1, 0.015, 0.025}, {0.012, -0.012, 0.0213}};
    std::vector<double> fr{0, 0.1, 0.5, 0.9, -1, -2};
    if (th) { ds.push_back({-3, 0, 1}); ds.push_back({0.0199, 0.0201, -0.019}); fr = {0, 0.02, 0.1, 0.3, 0.5, 0.7, 0.95, -1, -2}; }
    for (auto& p : ps) {
      std::vector<std::string> nms; for (auto& w : p.w) if (!w.name.empty() && std::find(nms.begin(), nms.end(), w.name) == nms.end()) nms.push_back(w.name);
      std::vector<Move> one, lean;
      for (auto& n : nms) for (double x : fr) for (auto& d : ds) one.push_back({x, n, d});
      for (std::string n : {"", "X"}) one.push_back({0.5, n, ds[0]});
      std::vector<std::vector<Move>> h;
      for (auto& m : one) h.push_back({m});
      for (size_t i = 0; i < one.size(); i++) for (size_t j = 0; j < one.size(); j++) {
        if (!th && (i * 5 + j) % 11) continue;
        if (th && (i * 5 + j) % 7) continue;
        h.push_back({one[i], one[j]});
        Move b = one[j]; b.burst = true;
        if ((i + j) % 4 == 0) h.push_back({one[i], b});
      }
      size_t st = th ? 9973 : 9967;
      for (size_t x = 0, n = one.size() * one.size() * one.size(); x < n; x += st) {
        Move a = one[x % one.size()], b = one[x / one.size() % one.size()], c = one[x / one.size() / one.size()];
        h.push_back({a, b, c});
        b.name = c.name = a.name; h.push_back({a, b, c});
      }
      // streams: a waypoint that is moved again and again, as a tracked target is
      for (int n : th ? std::vector<int>{5, 9, 16, 24, 33, 48, 65, 130} : std::vector<int>{9, 17, 36}) for (size_t k = 0; k < nms.size(); k++) for (int pat = 0; pat < 5; pat++) for (double x : {0.0, 0.03}) {
        std::vector<Move> m;
        for (int i = 0; i < n; i++) {
          std::string nm = nms[k]; Vector3d d(0.1, 0, 0);
          if (pat == 1) d = Vector3d(0, i % 2 ? -0.3 : 0.35, i % 2 ? 0.1 : -0.1);
          if (pat == 2) d = ds[i % ds.size()];
          if (pat == 3) { nm = nms[(k + i) % nms.size()]; d = Vector3d(0.06, -0.05, 0.03); }
          if (pat == 4) d = Vector3d(0.012, 0.018, -0.007);
          m.push_back({x, nm, d});
        }
        h.push_back(m);
        if (x == 0) { for (int i = 1; i < n; i++) m[i].burst = i % 8 != 0; h.push_back(m); }
      }
      auto P = std::make_shared<Path>(p); auto H = std::make_shared<std::vector<std::vector<Move>>>(h);
      for (size_t k = 0; k < h.size(); k++) for (int pre = 0; pre < 4; pre++) {
        if (pre && !th && h[k].size() < 9 && (k * 3 + pre) % 7) continue;
        char b[60]; snprintf(b, sizeof b, "%s%zu/%s%zu%s", th ? "tmoves" : "moves", h[k].size(), p.name.c_str(), k, pre == 1 ? "_r" : pre == 2 ? "_rl" : pre == 3 ? "_rr" : "");
        mc::Scenario s; s.name = b; s.bound = 0; s.compute_ms = 12; s.horizon_s = 4000; s.params = "moves of waypoints without regeneration in flight";
        s.body = [P, H, k, pre, nm = s.name] { flight(*P, (*H)[k], nm, pre); };
        v.push_back(s);
      }
    }
    return v;
  });
}
