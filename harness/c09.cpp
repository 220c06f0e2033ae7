// C09: the configured speed governs the flown speed and duration.
#include <set>
#include "pathlat.h"

struct Fl { double T = 0, vmax = 0, amax = 0; std::vector<double> times; };
static Fl measure(Flight& f) {
  Fl r;
  double a = f.g->getMinTime(), b = f.g->getMaxTime();
  r.T = b - a;
  for (int i = 0; i <= 300; i++) { auto x = f.at(a + r.T * i / 300); r.vmax = std::max(r.vmax, x.velocity.norm()); r.amax = std::max(r.amax, x.acceleration.norm()); }
  for (auto& w : f.wps()) r.times.push_back(w.getTime() - a);
  return r;
}
static Fl fly(const Path& p, double speed) {
  Flight f;
  f.g->updateVehiclePosition(p.start); f.g->setSpeed(speed);
  f.g->setWaypoints(p.make());
  f.eval();
  return measure(f);
}
static bool same(const Fl& a, const Fl& b) {
  if (a.times.size() != b.times.size()) return false;
  for (size_t i = 0; i < a.times.size(); i++) if (std::abs(a.times[i] - b.times[i]) > 1e-4 * (1 + a.T)) return false;
  return std::abs(a.vmax - b.vmax) < 1e-3 * (1 + a.vmax);
}
static const double AMAX = 9.81;

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C09", [](bool th) {
    std::vector<mc::Scenario> v;
    std::set<std::string> seen;
    auto lat = lattice(th ? 2 : 1);
    for (int n : th ? std::vector<int>{7, 8, 9, 12, 17, 25} : std::vector<int>{8, 13}) for (int pat = 0; pat < (th ? 10 : 3); pat++) lat.push_back(long_path(n, pat, 1));
    for (auto& p : lat) {
      if (p.speed != 1) continue;
      mc::Scenario s; s.name = "speeds/" + p.name; s.bound = 0; s.horizon_s = 4000; s.params = "one path at up to ten speeds";
      s.body = [p] {
        std::vector<double> sp{0.25, 0.5, 1, 2, 3, 4, 6, 10, 15};
        if (p.vel.empty() && p.acc.empty()) sp.insert(sp.begin(), 0.1);    // (at a walking pace motions asked for at waypoints are what decides)
        double prev = 0; std::map<double, double> all;
        const double len = p.length(), shortest = p.shortest();
        const int n = p.w.size();
        double given = 0; for (auto& c : p.vel) given = std::max(given, c.second.norm());     // a velocity asked for at a waypoint
        for (double x : sp) {
          auto r = fly(p, x);
          std::string nms = p.name + "@" + std::to_string(x); const char* nm = nms.c_str();
          // what the path needs at this speed, with an allowance for getting up to speed and slowing down
          double need = len / x + n * x / AMAX, fast = len / x;
          stat("fast", r.T / fast, nm); stat("need", r.T / need, nm); stat("peak", r.vmax / x, nm);
          if (n == 1) { stat("peak1", r.vmax / x, nm); stat("acc1", r.amax / AMAX, nm); }
          MC_CHECK("faster than configured", r.T > 0.7 * fast, "%s: a path of %.3f m at %.2f m/s is flown in %.3f s", nm, len, x, r.T);
          MC_CHECK("needlessly slow", r.T < 1.8 * need, "%s: a path of %.3f m at %.2f m/s takes %.3f s", nm, len, x, r.T);
          MC_CHECK("peak speed", r.vmax < 5.5 * std::max(x, given), "%s: speed reaches %.3f m/s with %.2f configured", nm, r.vmax, x);
          if (n == 1) MC_CHECK("peak speed straight", r.vmax < 2.6 * x, "%s: speed reaches %.3f m/s with %.2f configured on a single leg", nm, r.vmax, x);
          if (n == 1) MC_CHECK("peak acceleration straight", r.amax < 2.5 * AMAX, "%s: acceleration reaches %.3f on a single leg", nm, r.amax);
          // a higher speed is not slower as long as the legs are long enough to reach it
          if (x * x < 0.5 * AMAX * shortest) for (auto& [y, Ty] : all) if (y <= 0.51 * x) {
            stat("mono", r.T / Ty, nm);
            MC_CHECK("higher speed slower", r.T < Ty, "%s: takes %.4f s, at %.2f m/s %.4f s", nm, r.T, y, Ty);
          }
          all[x] = r.T;
          prev = r.T;
        }
        mc::observe("%s %.6f", p.name.c_str(), prev);
      };
      if (seen.insert(s.name).second) v.push_back(s);
    }
    // legs long enough for high speeds
    for (int k = 0; k < (th ? 24 : 8); k++) {
      Path p; p.name = "wide" + std::to_string(k); p.speed = 1; Vector3d q = p.start;
      for (int i = 0; i <= k % 4; i++) { q += Vector3d(200 + 40 * (k / 4) + 30 * i, (i + k) % 3 * 25 - 20, (i % 2) * 10); p.w.push_back({k / 4 % 2 ? "" : "W" + std::to_string(i), q}); }
      mc::Scenario s; s.name = "wide/" + p.name; s.bound = 0; s.horizon_s = 400000; s.params = "long legs at 0.3 to 32 m/s";
      s.body = [p] {
        const double len = p.length(); const int n = p.w.size(); std::map<double, double> all;
        for (double x : {0.3, 1.0, 4.0, 7.0, 9.0, 12.0, 18.0, 25.0, 32.0}) {
          auto r = fly(p, x);
          std::string nms = p.name + "@" + std::to_string(x); const char* nm = nms.c_str();
          double need = len / x + n * x / AMAX, fast = len / x;
          stat("wfast", r.T / fast, nm); stat("wneed", r.T / need, nm); stat("wpeak", r.vmax / x, nm); stat("wacc", r.amax / AMAX, nm);
          MC_CHECK("faster than configured", r.T > 0.7 * fast, "%s: a path of %.3f m at %.2f m/s is flown in %.3f s", nm, len, x, r.T);
          MC_CHECK("needlessly slow", r.T < 1.8 * need, "%s: a path of %.3f m at %.2f m/s takes %.3f s", nm, len, x, r.T);
          MC_CHECK("peak speed", r.vmax < 5.5 * x, "%s: speed reaches %.3f m/s with %.2f configured", nm, r.vmax, x);
          for (auto& [y, Ty] : all) if (y <= 0.51 * x) { stat("wmono", r.T / Ty, nm); MC_CHECK("higher speed slower", r.T < Ty, "%s: takes %.4f s, at %.2f m/s %.4f s", nm, r.T, y, Ty); }
          all[x] = r.T;
        }
        mc::observe("%s %.6f", p.name.c_str(), all.rbegin()->second);
      };
      v.push_back(s);
    }
    // which of several speeds applies: the one in force when the trajectory is generated
    std::vector<double> sp{0.5, 1, 2.5, 4};
    if (th) sp = {0.3, 0.5, 1, 1.7, 2.5, 4, 6};
    auto paths = lattice(0);
    std::vector<std::pair<double, double>> pairs{{1, 1.03}, {1.03, 1}, {4, 3.99}, {0.3, 0.303}, {12, 12.5}};     // (small changes count as well)
    for (double x : sp) for (double y : sp) if (x != y) pairs.push_back({x, y});
    for (size_t i = 0; i < paths.size(); i += th ? 3 : 9) for (auto [x0, y0] : pairs) {
      const double x = x0, y = y0;
      Path p = paths[i];
      char b[100]; snprintf(b, sizeof b, "force/%s_%g_%g", p.name.c_str(), x, y);
      mc::Scenario s; s.name = b; s.bound = 0; s.horizon_s = 4000; s.params = "speed changed before, during and after generation";
      s.body = [p, x, y] {
        const char* nm = p.name.c_str();
        auto rx = fly(p, x), ry = fly(p, y);
        {
          Flight f;                                    // the last value set before the request counts
          f.g->updateVehiclePosition(p.start);
          f.g->setSpeed(y); MC_CHECK("read back", f.g->getSpeed() == y, "%s: speed reads %g after setting %g", nm, f.g->getSpeed(), y);
          f.g->setSpeed(x); MC_CHECK("read back", f.g->getSpeed() == x, "%s: speed reads %g after setting %g", nm, f.g->getSpeed(), x);
          mc::sleep_ms(50);
          f.g->setWaypoints(p.make());
          f.eval();
          auto r = measure(f);
          MC_CHECK("speed in force", same(r, rx), "%s: set %g then %g, flown in %.4f s instead of %.4f s", nm, y, x, r.T, rx.T);
          f.g->setSpeed(y);                            // afterwards: no effect on the present trajectory
          MC_CHECK("read back", f.g->getSpeed() == y, "%s: speed reads %g after setting %g", nm, f.g->getSpeed(), y);
          for (int k = 0; k < 4; k++) f.step();
          r = measure(f);
          MC_CHECK("speed changes a flown trajectory", same(r, rx), "%s: set to %g in flight, now %.4f s instead of %.4f s", nm, y, r.T, rx.T);
          MC_CHECK("read back", f.g->getSpeed() == y, "%s: speed reads %g after setting %g and evaluating", nm, f.g->getSpeed(), y);
          // to the end; the next path is flown at the new speed
          while (f.clock() < f.g->getMaxTime() + 0.2) f.step();
          f.g->setWaypoints(p.make());
          MC_CHECK("second path", f.settle(), "%s: no second trajectory", nm);
          r = measure(f);
          MC_CHECK("speed in force", same(r, ry), "%s: second path flown in %.4f s instead of %.4f s at %g", nm, r.T, ry.T, y);
          MC_CHECK("read back", f.g->getSpeed() == y, "%s: speed reads %g after setting %g and a new trajectory", nm, f.g->getSpeed(), y);
        }
        {
          Flight f;                                    // changed while the first trajectory is being computed
          f.g->updateVehiclePosition(p.start); f.g->setSpeed(x);
          f.g->setWaypoints(p.make());
          mc::sleep_ms(25);
          MC_CHECK("scenario", f.g->getComputingNewTrajectoryStatus(), "%s: not being computed after 25 ms", nm);
          f.g->setSpeed(y);
          f.eval();
          auto r = measure(f);
          MC_CHECK("speed in force", same(r, rx), "%s: set to %g while computing, flown in %.4f s instead of %.4f s", nm, y, r.T, rx.T);
          MC_CHECK("read back", f.g->getSpeed() == y, "%s: speed reads %g after setting %g during a computation", nm, f.g->getSpeed(), y);
          f.step();
          MC_CHECK("read back", f.g->getSpeed() == y, "%s: speed reads %g after setting %g during a computation", nm, f.g->getSpeed(), y);
          while (f.clock() < f.g->getMaxTime() + 0.2) f.step();
          f.g->setWaypoints(p.make());
          MC_CHECK("second path", f.settle(), "%s: no second trajectory", nm);
          r = measure(f);
          MC_CHECK("speed in force", same(r, ry), "%s: second path flown in %.4f s instead of %.4f s at %g", nm, r.T, ry.T, y);
        }
        {
          // replanned in flight: the speed in force at the moment of the request counts, whenever it was set
          Fl got[3];
          for (int k = 0; k < 3; k++) {
            Flight f;
            f.g->updateVehiclePosition(p.start); f.g->setSpeed(x);
            f.g->setWaypoints(p.make());
            f.eval();
            if (k == 0) f.g->setSpeed(y);
            for (int i = 0; i < 3; i++) f.step();
            if (k == 1) f.g->setSpeed(y);
            if (k == 2) { f.g->setSpeed(10 * x); f.g->setSpeed(y); }
            f.g->appendWaypoint(mk("Z", p.w.back().p + Vector3d(3, 4, 0)));
            MC_CHECK("replanned", f.settle(), "%s: no new trajectory", nm);
            got[k] = measure(f);
            MC_CHECK("read back", f.g->getSpeed() == y, "%s: speed reads %g after setting %g and replanning", nm, f.g->getSpeed(), y);
          }
          for (int k = 1; k < 3; k++) MC_CHECK("speed in force", same(got[0], got[k]), "%s: replanned flight takes %.4f s or %.4f s depending on when the speed %g was set", nm, got[0].T, got[k].T, y);
        }
        mc::observe("%s %.5f %.5f", nm, rx.T, ry.T);
      };
      if (seen.insert(s.name).second) v.push_back(s);
    }
    return v;
  });
}
