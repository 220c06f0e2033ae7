// Clients on several threads: small request scripts, the list model they are judged by, and the
// public operations of the generator as an alphabet.
#pragma once
#include "flight.h"
#include <set>

struct Req {
  char k;                      // S set  A append  M move  R move with regeneration  B moves of several (with regeneration)  w wait
  std::string n;               // names, one character each
  Vector3d d = Vector3d::Zero();
  double ms = 0;
};
using Script = std::vector<Req>;
using List = std::vector<std::pair<std::string, Vector3d>>;

// where the j-th waypoint of a set/append goes
inline Vector3d place(char n, const Vector3d& d) { return Vector3d(20 + 9 * (n % 8), 3 * (n % 3), 1 + n % 4) + d; }

inline void issue(DynamicTrajectory& g, const Req& r) {
  switch (r.k) {
    case 'S': { DynamicWaypoint::Vector v; for (char c : r.n) v.emplace_back(mk(std::string(1, c), place(c, r.d))); g.setWaypoints(v); break; }
    case 'A': for (char c : r.n) g.appendWaypoint(mk(std::string(1, c), place(c, r.d))); break;
    case 'M': case 'R': for (char c : r.n) g.modifyWaypoint(std::string(1, c), place(c, r.d), r.k == 'R'); break;
    case 'B': { std::vector<std::pair<std::string, Vector3d>> b; for (char c : r.n) b.emplace_back(std::string(1, c), place(c, r.d)); g.modifyWaypoints(b); break; }
    case 'w': mc::sleep_ms(r.ms); break;
  }
}
// the list model: a request is a sequence of atomic steps (each append, each move on its own)
inline void apply_req(List& l, const Req& r) {
  if (r.k == 'S') { l.clear(); for (char c : r.n) l.emplace_back(std::string(1, c), place(c, r.d)); }
  else if (r.k == 'A') { for (char c : r.n) l.emplace_back(std::string(1, c), place(c, r.d)); }
  else if (r.k != 'w') for (char c : r.n) for (auto& w : l) if (w.first == std::string(1, c)) w.second = place(c, r.d);
}
inline std::vector<Req> steps(const Script& s) {
  std::vector<Req> o;
  for (auto& r : s) { if (r.k == 'w') continue; if (r.k == 'S' || r.n.size() < 2) { o.push_back(r); continue; } for (char c : r.n) { Req q = r; q.n = std::string(1, c); o.push_back(q); } }
  return o;
}
inline std::string str(const List& l) { std::string s; for (auto& w : l) s += w.first + vs(w.second) + " "; return s; }
inline std::string str(const Script& s) { std::string o; for (auto& r : s) { if (!o.empty()) o += "."; o += r.k; if (r.k == 'w') o += std::to_string((int)r.ms); else { o += r.n; if (!r.d.isZero()) o += "'"; } } return o; }
// all lists the interleavings of the clients' requests can lead to
inline void outcomes(const List& l, std::vector<std::vector<Req>> left, std::vector<List>& out) {
  bool any = false;
  for (size_t i = 0; i < left.size(); i++) if (!left[i].empty()) {
    any = true;
    auto x = left; List m = l; apply_req(m, x[i][0]); x[i].erase(x[i].begin());
    outcomes(m, x, out);
  }
  if (!any) { for (auto& o : out) if (str(o) == str(l)) return; out.push_back(l); }
}
// what the generator reports: named waypoints only, without the points added by stitching
inline List reported(const DynamicWaypoint::Deque& d) {
  List l;
  for (auto& w : d) if (!w.getName().empty() && w.getName() != "stitching_point") l.emplace_back(w.getName(), w.getCurrentPosition());
  return l;
}
inline bool same(const List& a, const List& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i].first != b[i].first || (a[i].second - b[i].second).norm() > 1e-9) return false;
  return true;
}

// long lists and many requests: n waypoints, then k requests of one kind or of several in turn, at a given moment
//   when: 'f' in flight  'b' while a trajectory is being computed  'r' while one waits to be switched to  's' one per evaluation  't' two per evaluation
inline void bulk(int n, int k, const std::string& kinds, char when, const std::string& what) {
  Flight f(0.0473);
  f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
  List l; int fresh = 0;
  auto next = [&] { fresh++; return std::make_pair("W" + std::to_string(fresh), Vector3d(22 + 3.5 * fresh, 2.0 * (fresh % 3), 1 + fresh % 4)); };
  auto put = [&] { DynamicWaypoint::Vector v; for (auto& w : l) v.emplace_back(mk(w.first, w.second)); f.g->setWaypoints(v); };
  auto app = [&] { l.push_back(next()); f.g->appendWaypoint(mk(l.back().first, l.back().second)); };
  for (int i = 0; i < n; i++) l.push_back(next());
  put(); f.eval();
  MC_CHECK("stalled", f.settle(60), "%s: never idle", what.c_str());
  if (when == 'b' || when == 'r') { app(); mc::sleep_ms(when == 'b' ? 17 : 1.5 * mc::compute_ms_of_this_run()); }
  bool bends = false;
  for (int i = 0; i < k; i++) {
    auto& w = l[(7 * i + 1) % l.size()]; const Vector3d to = w.second + Vector3d(0.2, i % 2 ? 0.7 : -0.6, 0.1 * (i % 5));
    switch (kinds[i % kinds.size()]) {
      case 'A': app(); bends = false; break;
      case 'M': w.second = to; f.g->modifyWaypoint(w.first, to, false); bends = true; break;
      case 'R': w.second = to; f.g->modifyWaypoint(w.first, to, true); bends = false; break;
      case 'B': { std::vector<std::pair<std::string, Vector3d>> b; for (auto& x : l) { x.second[1] += i % 2 ? 0.4 : -0.3; b.emplace_back(x); } f.g->modifyWaypoints(b); bends = false; break; }
      case 'S': { size_t m = l.size(); l.clear(); for (size_t j = 0; j < m; j++) { l.push_back(next()); l.back().second[0] -= 20; } put(); bends = false; break; }
    }
    if (when == 's' || (when == 't' && i % 2)) f.step();
  }
  MC_CHECK("stalled", f.settle(120), "%s: never idle", what.c_str());
  for (int i = 0; i < 3; i++) f.step();
  MC_CHECK("not idle", f.idle(), "%s: the generator starts again without a request", what.c_str());
  auto d = f.wps(); List got = reported(d);
  MC_CHECK("bulk list", same(l, got), "%s: requested were %s, reported are %s", what.c_str(), str(l).c_str(), str(got).c_str());
  if (!bends) for (auto& w : d) {
    auto r = f.at(w.getTime(), true);
    MC_CHECK("bulk flown", (r.position - w.getCurrentPosition()).norm() < 0.02, "%s: %s is reported at %s, flown is %s", what.c_str(), w.getName().c_str(), vs(w.getCurrentPosition()).c_str(), vs(r.position).c_str());
  }
  mc::observe("%s %s", what.c_str(), str(got).c_str());
}
// every combination of the sizes, kinds and moments given
inline void add_bulk(std::vector<mc::Scenario>& v, const std::vector<int>& ns, const std::vector<int>& ks, const std::string& moments, int bound) {
  for (int n : ns) for (int k : ks) for (const char* kinds : {"A", "M", "R", "B", "S", "AM", "MA", "AR", "MR", "BA", "AMRB", "MMMA"}) for (char w : moments) {
    mc::Scenario s; s.name = std::string("bulk/n") + std::to_string(n) + "_k" + std::to_string(k) + "_" + kinds + "_" + w; s.bound = bound;
    s.compute_ms = w == 'b' || w == 'r' ? 120 : 40; s.maxeval_cap = 4; s.horizon_s = 3000; s.params = "long lists and many requests";
    s.body = [=, nm = s.name] { bulk(n, k, kinds, w, nm); };
    v.push_back(s);
  }
}

// the public operations
struct PubOp { const char* n; std::function<void(Flight&, int)> f; };
inline std::vector<PubOp> pub_ops() {
  auto refs = [] { dtg::References r; r.position = r.velocity = r.acceleration = Vector3d::Zero(); return r; };
  return {
    {"set", [](Flight& f, int i) { issue(*f.g, {'S', i ? "PQ" : "PR"}); }},
    {"append", [](Flight& f, int i) { issue(*f.g, {'A', i ? "Y" : "Z"}); }},
    {"move", [](Flight& f, int i) { issue(*f.g, {'M', i ? "A" : "B", Vector3d(0, 1, 0)}); }},
    {"moveR", [](Flight& f, int i) { issue(*f.g, {'R', i ? "B" : "A", Vector3d(0, 1, i)}); }},
    {"moves", [](Flight& f, int i) { issue(*f.g, {'B', "AB", Vector3d(0, -1, i)}); }},
    {"eval", [refs](Flight& f, int) { auto r = refs(); f.g->evaluateTrajectory((float)f.clock(), r); MC_CHECK("not finite", fin(r), "reference not finite"); }},
    {"evalpos", [refs](Flight& f, int) { auto r = refs(); f.g->evaluateTrajectory((float)f.clock(), r, true); MC_CHECK("not finite", fin(r.position), "reference not finite"); }},
    {"plot", [refs](Flight& f, int) { auto r = refs(); f.g->evaluateTrajectory((float)f.clock() + 1, r, false, true); MC_CHECK("not finite", fin(r), "reference not finite"); }},
    {"setSpeed", [](Flight& f, int i) { f.g->setSpeed(1.5 + i); }},
    {"getSpeed", [](Flight& f, int) { (void)f.g->getSpeed(); }},
    {"maxTime", [](Flight& f, int) { double t = f.g->getMaxTime(); MC_CHECK("max time", std::isfinite(t), "maximum time not finite"); }},
    {"minTime", [](Flight& f, int) { double t = f.g->getMinTime(); MC_CHECK("min time", std::isfinite(t), "minimum time not finite"); }},
    {"waypoints", [](Flight& f, int) { auto w = f.g->getDynamicWaypoints(); MC_CHECK("no waypoints", !w.empty(), "no waypoints reported after a trajectory was generated"); }},
    {"compensation", [](Flight& f, int) { (void)f.g->getTimeCompensation(); }},
    {"changed", [](Flight& f, int) { (void)f.g->getWasTrajectoryRegenerated(); }},
    {"pending", [](Flight& f, int) { (void)f.g->getGenerateNewTraj(); }},
    {"computing", [](Flight& f, int) { (void)f.g->getComputingNewTrajectoryStatus(); }},
    {"vehicle", [](Flight& f, int i) { f.g->updateVehiclePosition(Vector3d(0.1 * i, 0, 0)); }},
    {"next", [](Flight& f, int) { auto w = f.g->getNextTrajectoryWaypoints(); for (auto& x : w) MC_CHECK("next", fin(x.getCurrentPosition()), "position not finite"); }},
    {"remaining", [](Flight& f, int) { int n = f.g->getRemainingWaypoints(); MC_CHECK("remaining", n >= 0, "%d waypoints remain", n); }},
  };
}
