// A client of the trajectory generator that flies in virtual time: it evaluates every `dt`, issues
// requests at chosen moments and records everything that is reported.
#pragma once
#include "dyn_common.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>

struct Sample { double t; dtg::References r; double comp; };

inline bool fin(const Vector3d& v) { return std::isfinite(v[0]) && std::isfinite(v[1]) && std::isfinite(v[2]); }
inline bool fin(const dtg::References& r) { return fin(r.position) && fin(r.velocity) && fin(r.acceleration); }
inline std::string vs(const Vector3d& v) { char b[100]; snprintf(b, sizeof b, "(%.4f %.4f %.4f)", v[0], v[1], v[2]); return b; }

// measurements for calibrating tolerances: FLIGHT_STATS=<file>
inline void stat(const char* key, double v, const char* what = "") {
  static const char* f = getenv("FLIGHT_STATS");
  if (!f) return;
  FILE* o = fopen(f, "a"); if (!o) return;
  char b[300]; int n = snprintf(b, sizeof b, "%s %.9g %s\n", key, v, what); fwrite(b, 1, n, o); fclose(o);
}

struct Flight {
  std::unique_ptr<DynamicTrajectory> g;
  double t0 = 0, dt = 0.05;
  std::vector<Sample> log;
  explicit Flight(double step = 0.05) : dt(step) { t0 = mc::now(); g.reset(new DynamicTrajectory()); }
  ~Flight() { g.reset(); }
  double clock() const { return (double)(float)(std::round((mc::now() - t0) * 1e6) * 1e-6); }
  // evaluation at the present moment
  Sample eval() {
    Sample s; s.t = clock();
    g->evaluateTrajectory((float)s.t, s.r);
    s.comp = g->getTimeCompensation();
    log.push_back(s);
    return s;
  }
  Sample step() { mc::sleep_ms(dt * 1e3); return eval(); }
  bool idle() { return !g->getGenerateNewTraj() && !g->getComputingNewTrajectoryStatus(); }
  // evaluate until the generator has nothing left to do
  bool settle(double limit = 60) {
    double end = mc::now() + limit;
    while (mc::now() < end) { step(); if (idle()) return true; }
    return false;
  }
  // reference at trajectory time tau (the time scale of the waypoint times) without being noticed
  dtg::References at(double tau, bool only_pos = false) {
    dtg::References r;
    r.velocity = r.acceleration = Vector3d::Zero();
    g->evaluateTrajectory((float)(tau - g->getTimeCompensation()), r, only_pos, true);
    return r;
  }
  DynamicWaypoint::Deque wps() { return g->getDynamicWaypoints(); }
};
inline const DynamicWaypoint* find(const DynamicWaypoint::Deque& d, const std::string& n) { for (auto& w : d) if (w.getName() == n) return &w; return nullptr; }
