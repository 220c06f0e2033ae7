// C05: the generated reference starts at the vehicle at rest, visits all waypoints, ends at rest.
#include "pathlat.h"

static void check_path(Flight& f, const Path& p, double base, const char* ph) {
  DynamicTrajectory& g = *f.g;
  auto d = f.wps();
  const double tmin = g.getMinTime(), tmax = g.getMaxTime(), comp = g.getTimeCompensation();
  const char* nm = p.name.c_str();
  double L = p.length(), sc = 1 + p.start.norm() * 1e-3;
  MC_CHECK("count", d.size() == p.w.size() + 1, "%s %s: %zu waypoints reported for a list of %zu and the vehicle: %s", ph, nm, d.size(), p.w.size(), names(d).c_str());
  auto r = f.at(tmin);
  stat("start_p", (r.position - p.start).norm() / sc, nm); stat("start_v", r.velocity.norm(), nm); stat("start_a", r.acceleration.norm(), nm);
  MC_CHECK("start position", (r.position - p.start).norm() < 1e-4 * sc, "%s %s: starts at %s instead of the vehicle position %s", ph, nm, vs(r.position).c_str(), vs(p.start).c_str());
  MC_CHECK("start velocity", r.velocity.norm() < 1e-3 && r.acceleration.norm() < 0.02, "%s %s: starts with velocity %s acceleration %s", ph, nm, vs(r.velocity).c_str(), vs(r.acceleration).c_str());
  double prev = d[0].getTime();
  MC_CHECK("start time", std::abs(prev - tmin) < 1e-6 && std::abs(tmin - base) < 1e-5, "%s %s: first waypoint at %.6f, minimum time %.6f, generated at %.6f", ph, nm, prev, tmin, base);
  for (size_t i = 0; i < p.w.size(); i++) {
    const auto& w = d[i + 1];
    double t = w.getTime();
    MC_CHECK("waypoint identity", w.getName() == p.w[i].name && (w.getCurrentPosition() - p.w[i].p).norm() < 1e-9, "%s %s: waypoint %zu is '%s' at %s instead of '%s' at %s", ph, nm, i, w.getName().c_str(), vs(w.getCurrentPosition()).c_str(), p.w[i].name.c_str(), vs(p.w[i].p).c_str());
    MC_CHECK("waypoint times", t > prev, "%s %s: waypoint %zu at %.6f not after %.6f", ph, nm, i, t, prev);
    prev = t;
    auto x = f.at(t);
    double e = (x.position - p.w[i].p).norm();
    stat("wp", e / sc, nm);
    double tol = 1e-3 * sc;
    MC_CHECK("waypoint missed", e < tol, "%s %s: reference at the time %.4f of waypoint %zu is %s, waypoint %s", ph, nm, t, i, vs(x.position).c_str(), vs(p.w[i].p).c_str());
    if (p.vel.count(i) && i + 1 < p.w.size()) {
      double ev = (x.velocity - p.vel.at(i)).norm();
      stat("wpv", ev, nm);
      MC_CHECK("velocity constraint", ev < 2e-3 * (1 + p.speed), "%s %s: velocity at waypoint %zu is %s, asked for %s", ph, nm, i, vs(x.velocity).c_str(), vs(p.vel.at(i)).c_str());
    }
    if (p.acc.count(i) && i + 1 < p.w.size()) {
      double ea = (x.acceleration - p.acc.at(i)).norm();
      stat("wpa", ea, nm);
      MC_CHECK("acceleration constraint", ea < 0.02, "%s %s: acceleration at waypoint %zu is %s, asked for %s", ph, nm, i, vs(x.acceleration).c_str(), vs(p.acc.at(i)).c_str());
    }
  }
  MC_CHECK("end time", std::abs(prev - tmax) < 1e-5, "%s %s: last waypoint at %.6f, end of the trajectory at %.6f", ph, nm, prev, tmax);
  auto e = f.at(tmax);
  stat("end_v", e.velocity.norm(), nm); stat("end_a", e.acceleration.norm(), nm); stat("end_p", (e.position - p.w.back().p).norm(), nm);
  MC_CHECK("end at rest", e.velocity.norm() < 1e-3 && e.acceleration.norm() < 0.02, "%s %s: velocity %s acceleration %s at the end", ph, nm, vs(e.velocity).c_str(), vs(e.acceleration).c_str());
  MC_CHECK("end position", (e.position - p.w.back().p).norm() < 1e-3 * sc, "%s %s: ends at %s instead of %s", ph, nm, vs(e.position).c_str(), vs(p.w.back().p).c_str());
  mc::observe("%s n=%zu T=%.6f comp=%.4f", ph, d.size(), tmax - tmin, comp);
  (void)L;
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C05", [](bool th) {
    std::vector<mc::Scenario> v;
    auto paths = lattice(th ? 2 : 1);
    for (size_t i = 0; i < paths.size(); i++) {
      Path p = paths[i];
      mc::Scenario s; s.name = "path/" + p.name; s.bound = 0; s.horizon_s = 4000; s.params = "one path from a resting vehicle";
      s.body = [p] {
        Flight f;
        f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
        f.g->setWaypoints(p.make());
        f.eval();
        check_path(f, p, 0, "first");
      };
      v.push_back(s);
    }
    // long lists
    for (int n : th ? std::vector<int>{7, 8, 9, 10, 12, 16, 17, 25} : std::vector<int>{8, 11, 18}) for (int pat = 0; pat < (th ? 12 : 5); pat++) for (double sp : {1.0, 3.0}) {
      Path p = long_path(n, pat, sp);
      mc::Scenario s; s.name = "long/" + p.name; s.bound = 0; s.horizon_s = 6000; s.maxeval_cap = 25; s.params = "long waypoint lists";
      s.body = [p] { Flight f; f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed); f.g->setWaypoints(p.make()); f.eval(); check_path(f, p, 0, "first"); };
      v.push_back(s);
    }
    // waypoints close to the vehicle and to one another, and a vehicle whose position changes little by little
    for (double e : th ? std::vector<double>{0, 0.003, 0.02, 0.06, 0.1, 0.15, 0.25, 0.4, 0.6} : std::vector<double>{0, 0.02, 0.1, 0.25}) for (int dir = 0; dir < 3; dir++) for (int at = 0; at < 3; at++) for (double sp : th ? std::vector<double>{0.5, 1, 3} : std::vector<double>{1}) for (int mv = 0; mv < 2; mv++) {
      Path p; p.speed = sp; Vector3d q = p.start, small = e * (dir == 0 ? Vector3d(1, 0, 0) : dir == 1 ? Vector3d(0, -0.6, 0.8) : Vector3d(0, 0, -1));
      char b[80]; snprintf(b, sizeof b, "near%d_%d_%g_v%g_%d", at, dir, e, sp, mv); p.name = b;
      for (int i = 0; i < 3; i++) { q += i == at ? small : Vector3d(2, 1 - i, 0.5 * i); p.w.push_back({std::string(1, 'A' + i), q}); }
      mc::Scenario s; s.name = std::string("close/") + b; s.bound = 0; s.horizon_s = 4000; s.params = "waypoints close to the vehicle or to one another";
      s.body = [p, mv, small] {
        Flight f;
        if (mv) for (double o : {0.3, 0.03, 0.003}) { f.g->updateVehiclePosition(p.start + Vector3d(0.8, -0.6, 0) * o); mc::sleep_ms(5); }
        f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
        f.g->setWaypoints(p.make());
        f.eval();
        check_path(f, p, 0, "first");
      };
      v.push_back(s);
    }
    // a second path, from scratch, after the first has been flown to its end; and a position update in between
    auto seconds = lattice(th ? 1 : 0);
    for (size_t i = 0; i < seconds.size(); i++) {
      Path p = seconds[i];
      mc::Scenario s; s.name = "second/" + p.name; s.bound = 0; s.horizon_s = 4000; s.params = "a path after another one has been flown to its end";
      s.body = [p] {
        Flight f;
        Path q = p; q.name = p.name + "(2nd)";
        f.g->updateVehiclePosition(Vector3d(3, 2, 1)); f.g->setSpeed(2);
        f.g->setWaypoints(mkv({{"X", Vector3d(3, 3, 1.5)}, {"Y", Vector3d(4, 3, 1)}}));
        f.eval();
        while (f.clock() < f.g->getMaxTime() + 0.2) f.step();
        f.g->updateVehiclePosition(Vector3d(9, 9, 9)); f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
        double before = f.clock();
        f.g->setWaypoints(p.make());
        MC_CHECK("second path", f.settle(), "%s: no new trajectory", p.name.c_str());
        double base = f.g->getMinTime();
        MC_CHECK("second path base", base >= before - 1e-5 && base <= before + 1, "%s: second trajectory is based at %.4f, asked for at %.4f", p.name.c_str(), base, before);
        check_path(f, q, base, "second");
      };
      v.push_back(s);
    }
    // constraints given with the waypoints still hold after replanning in flight
    int k = 0;
    for (auto& p : lattice(th ? 2 : 1)) {
      if (p.vel.empty() || p.w.size() < 2 || p.w[0].name.empty() || (!th && k++ % 2)) continue;
      mc::Scenario s; s.name = "replan/" + p.name; s.bound = 0; s.horizon_s = 4000; s.params = "a waypoint is appended in flight"; s.compute_ms = 12; s.maxeval_cap = 60;
      s.body = [p] {
        Flight f;
        const char* nm = p.name.c_str();
        f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
        f.g->setWaypoints(p.make());
        f.eval(); f.step();
        f.g->appendWaypoint(mk("Z", p.w.back().p + Vector3d(4, 2, 1)));
        MC_CHECK("replan", f.settle(), "%s: never idle", nm);
        auto d = f.wps();
        const double sc = 1 + p.start.norm() * 1e-3;
        for (size_t i = 0; i < p.w.size(); i++) {
          auto w = find(d, p.w[i].name);
          if (!w) continue;                                 // passed before; see C02
          auto x = f.at(w->getTime());
          MC_CHECK("replan position", (x.position - p.w[i].p).norm() < 2e-3 * sc, "%s replanned: at waypoint %zu the reference is %s", nm, i, vs(x.position).c_str());
          if (p.vel.count(i)) MC_CHECK("replan velocity", (x.velocity - p.vel.at(i)).norm() < 4e-3 * (1 + p.speed), "%s replanned: velocity at waypoint %zu is %s, asked for %s", nm, i, vs(x.velocity).c_str(), vs(p.vel.at(i)).c_str());
          if (p.acc.count(i)) MC_CHECK("replan acceleration", (x.acceleration - p.acc.at(i)).norm() < 0.05, "%s replanned: acceleration at waypoint %zu is %s, asked for %s", nm, i, vs(x.acceleration).c_str(), vs(p.acc.at(i)).c_str());
          stat("rp_v", p.vel.count(i) ? (x.velocity - p.vel.at(i)).norm() : 0, nm); stat("rp_a", p.acc.count(i) ? (x.acceleration - p.acc.at(i)).norm() : 0, nm); stat("rp_p", (x.position - p.w[i].p).norm(), nm);
        }
        auto e = f.at(f.g->getMaxTime());
        MC_CHECK("replan end", e.velocity.norm() < 1e-3 && e.acceleration.norm() < 0.02 && (e.position - p.w.back().p - Vector3d(4, 2, 1)).norm() < 2e-3 * sc, "%s replanned: ends at %s with velocity %s", nm, vs(e.position).c_str(), vs(e.velocity).c_str());
        mc::observe("%zu %.4f", d.size(), f.g->getMaxTime());
      };
      v.push_back(s);
    }
    return v;
  });
}
