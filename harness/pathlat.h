// The lattice of waypoint lists used by the path properties.
#pragma once
#include "flight.h"

struct Path {
  std::string name;
  Vector3d start{0.5, -0.5, 1};
  std::vector<Wp> w;
  std::map<int, Vector3d> vel, acc;      // constraints given with waypoint i
  double speed = 1;
  double length() const { double l = 0; Vector3d q = start; for (auto& x : w) { l += (x.p - q).norm(); q = x.p; } return l; }
  double shortest() const { double l = 1e9; Vector3d q = start; for (auto& x : w) { l = std::min(l, (x.p - q).norm()); q = x.p; } return l; }
  DynamicWaypoint::Vector make() const {
    DynamicWaypoint::Vector v;
    for (size_t i = 0; i < w.size(); i++) {
      DynamicWaypoint d = mk(w[i].name, w[i].p);
      if (vel.count(i)) d.setConstraint(1, vel.at(i));
      if (acc.count(i)) d.setConstraint(2, acc.at(i));
      v.emplace_back(d);
    }
    return v;
  }
};
inline std::vector<Vector3d> lat_dirs() { return {{1,0,0},{0,1,0},{0,0,1},{-1,0,0},{1,1,0},{0.3,0.2,0.1},{5,0,0},{0,-4,3},{20,10,5}}; }

// a long list: n waypoints on a winding way
inline Path long_path(int n, int pat, double speed) {
  Path p; p.speed = speed; p.name = "long" + std::to_string(n) + "_" + std::to_string(pat) + "_v" + std::to_string((int)speed); Vector3d q = p.start; auto dirs = lat_dirs();
  for (int i = 0; i < n; i++) {
    q += dirs[(i * (1 + pat % 5) + pat) % dirs.size()] + Vector3d(0.5, 0.1 * (i % 3), 0); p.w.push_back({"P" + std::to_string(i), q});
    if (pat % 3 == 1 && i == n / 2) p.vel[i] = Vector3d(0.3 * speed, 0, 0.1 * speed);
    if (pat % 3 == 2 && i + 2 == n) p.vel[i] = Vector3d::Zero();
  }
  return p;
}
// all lists of 1..2 (3) steps, plus longer ones and ones with constraints; `level` 0 = small, 1 = quick, 2 = thorough
inline std::vector<Path> lattice(int level) {
  std::vector<Path> out;
  auto dirs = lat_dirs();
  std::vector<double> speeds = level == 0 ? std::vector<double>{1, 3} : level == 1 ? std::vector<double>{0.5, 1, 2, 5} : std::vector<double>{0.25, 0.5, 1, 2, 3, 5, 8};
  static const char* nm[] = {"A", "B", "C", "D", "E", "F", "G", "H"};
  auto add = [&](std::vector<int> st, double sp, std::string tag, Vector3d start, bool named) {
    Path p; p.speed = sp; p.start = start; Vector3d q = start;
    std::string s;
    for (size_t i = 0; i < st.size(); i++) { q += dirs[st[i]]; p.w.push_back({named ? nm[i] : "", q}); s += std::to_string(st[i]); }
    char b[80]; snprintf(b, sizeof b, "%s%s_v%g", tag.c_str(), s.c_str(), sp); p.name = b;
    out.push_back(p);
  };
  Vector3d s0(0.5, -0.5, 1), s1(0, 0, 0), s2(-120, 300, -7);
  int n = dirs.size();
  for (double sp : speeds) {
    for (int a = 0; a < n; a++) {
      add({a}, sp, "", s0, true);
      for (int b = 0; b < n; b++) {
        add({a, b}, sp, "", s0, true);
        int lim = level == 0 ? 0 : level == 1 ? 3 : n;
        for (int c = 0; c < lim; c++) { int cc = level == 1 ? (a + 2 * b + 3 * c) % n : c; add({a, b, cc}, sp, "", s0, true); }
      }
    }
    for (int a = 0; a < n; a++) {
      add({a, (a + 1) % n}, sp, "s1-", s1, true);
      add({a, (a + 4) % n}, sp, "s2-", s2, true);
      add({a, (a + 2) % n, (a + 3) % n}, sp, "un-", s0, false);
      if (level >= 1) {
        add({a, (a + 1) % n, (a + 5) % n, (a + 3) % n}, sp, "", s0, true);
        add({a, (a + 1) % n, (a + 1) % n, (a + 7) % n, 0, (a + 3) % n}, sp, "", s0, true);
      }
    }
  }
  // constraints given with the waypoints (not the last one, which is the end of the path)
  size_t m = out.size();
  int k = 0;
  for (size_t i = 0; i < m; i++) {
    if (out[i].w.size() < 2 || out[i].w[0].name.empty()) continue;
    if (k++ % (level == 2 ? 3 : level == 1 ? 4 : 9)) continue;
    double v = 0.5 * out[i].speed;
    int which = (k / 4) % 6;
    Path p = out[i];
    if (which == 0) { p.vel[0] = Vector3d(v, 0, 0); p.name += "-v0"; }
    else if (which == 1) { p.vel[0] = Vector3d::Zero(); p.name += "-stop"; }
    else if (which == 2) { p.vel[0] = Vector3d(0.3 * v, v, -0.2 * v); p.acc[0] = Vector3d(0.1, 0, 0.2); p.name += "-va"; }
    else if (which == 3) { for (size_t j = 0; j + 1 < p.w.size(); j++) p.vel[j] = Vector3d(0, 0.4 * v, 0.1 * v * j); p.name += "-vall"; }
    else if (which == 5) { p.vel[p.w.size() - 1] = Vector3d(v, 0.5 * v, 0); p.acc[p.w.size() - 1] = Vector3d(0.3, 0, 0.2); p.name += "-vlast"; }   // the rest takes precedence
    else { p.vel[p.w.size() - 1] = Vector3d::Zero(); p.vel[0] = Vector3d(-v, 0, 0); p.name += "-vend"; }
    out.push_back(p);
  }
  return out;
}
