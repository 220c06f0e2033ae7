// C02: the waypoint list follows the request history.   (argument "status": C11, the reports follow the flight)
#include "conc.h"

static bool g_status = false;
static const std::string kStitch = "stitching_point";

struct Step { char op; char gap; };     // gap before the request: 0 none, s one evaluation, i until idle, f until the next waypoint is passed, n until it is as near as moves with regeneration may come
static std::string str(const std::vector<Step>& h) { std::string s; for (auto& x : h) { s += x.gap; s += x.op; s += ' '; } if (!s.empty()) s.pop_back(); for (auto& c : s) if (c == ' ') c = '_'; return s; }

struct Watch {                           // C11
  Flight& f; const std::string& what;
  double tmin = -1, tmax = -1; List pos; std::vector<double> times; int count = -1; bool quiet_since = true; long owed = 0;
  bool first = true;
  void requested() { quiet_since = false; }
  void look() {
    if (!g_status) return;
    auto& s = f.log.back();
    const bool working = mc::optimizations_started() != mc::optimizations();
    if (working) MC_CHECK("not busy", f.g->getComputingNewTrajectoryStatus(), "%s: at %.3f a trajectory is being computed but not reported so", what.c_str(), s.t);
    auto d = f.wps();
    double t0 = f.g->getMinTime(), t1 = f.g->getMaxTime(), comp = f.g->getTimeCompensation();
    bool idle = f.idle();
    auto nx = f.g->getNextTrajectoryWaypoints();
    int rem = f.g->getRemainingWaypoints();
    bool flag = f.g->getWasTrajectoryRegenerated();
    MC_CHECK("flag twice", !f.g->getWasTrajectoryRegenerated(), "%s: reading the flag does not clear it", what.c_str());
    MC_CHECK("no waypoints", !d.empty(), "%s: no waypoints", what.c_str());
    double prev = -1e9;
    for (auto& w : d) {
      MC_CHECK("bracket", w.getTime() >= t0 - 1e-6 && w.getTime() <= t1 + 1e-6, "%s: waypoint '%s' at %.4f is outside the trajectory's time %.4f..%.4f", what.c_str(), w.getName().c_str(), w.getTime(), t0, t1);
      MC_CHECK("order", w.getTime() > prev, "%s: waypoint times do not increase", what.c_str()); prev = w.getTime();
    }
    MC_CHECK("ends", std::abs(d.front().getTime() - t0) < 1e-6 && std::abs(d.back().getTime() - t1) < 1e-6, "%s: the waypoints reach from %.4f to %.4f, the trajectory from %.4f to %.4f", what.c_str(), d.front().getTime(), d.back().getTime(), t0, t1);
    // remaining = those after the reference's present time
    std::vector<const DynamicWaypoint*> want; bool edge = false;
    for (auto& w : d) { double dtm = w.getTime() - (s.t + comp); if (std::abs(dtm) < 1e-5) edge = true; if (dtm > 0) want.push_back(&w); }
    if (!edge) {
      bool eq = want.size() == nx.size(); for (size_t i = 0; eq && i < nx.size(); i++) eq = want[i]->getName() == nx[i].getName() && want[i]->getTime() == nx[i].getTime();
      MC_CHECK("remaining list", eq, "%s: at %.3f (compensation %.3f) %zu waypoints remain, %zu are listed as remaining", what.c_str(), s.t, comp, want.size(), nx.size());
      int head = 0; while (head < (int)want.size() && want[head]->getName() == kStitch) head++;
      MC_CHECK("remaining count", rem == (int)want.size() - head, "%s: at %.3f the remaining count is %d for %zu waypoints of which the first %d are stitching points", what.c_str(), s.t, rem, want.size(), head);
    }
    List p; std::vector<double> tm; for (auto& w : d) { p.emplace_back(w.getName(), w.getCurrentPosition()); tm.push_back(w.getTime()); }
    bool changed = first || t0 != tmin || t1 != tmax || tm != times || !same(p, pos);
    MC_CHECK("flag", flag == changed, "%s: at %.3f the trajectory or a waypoint has %schanged but the flag is %d", what.c_str(), s.t, changed ? "" : "not ", (int)flag);
    if (quiet_since && !first) {
      MC_CHECK("changes by itself", !changed, "%s: at %.3f the path changes without a request", what.c_str(), s.t);
      MC_CHECK("count grows", rem <= count, "%s: at %.3f the remaining count grows from %d to %d without a request", what.c_str(), s.t, count, rem);
      MC_CHECK("busy when idle", idle, "%s: at %.3f busy without a request (pending %d, computing %d)", what.c_str(), s.t, (int)f.g->getGenerateNewTraj(), (int)f.g->getComputingNewTrajectoryStatus());
    }
    first = false; tmin = t0; tmax = t1; pos = p; times = tm; count = rem;
  }
};

static void history(const std::vector<Step>& h, double comp, const std::string& name, double dt) {
  mc::set_compute_ms(comp);
  Flight f(dt);
  const std::string what = name;
  f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
  List L; std::set<std::string> passed, gone;      // gone: passed before a request that makes a new trajectory
  auto put = [&](const std::vector<std::pair<std::string, Vector3d>>& l) { DynamicWaypoint::Vector v; for (auto& w : l) v.emplace_back(mk(w.first, w.second)); return v; };
  L = {{"A", {4, 0, 1}}, {"B", {8, 3, 2}}, {"C", {12, 0, 1}}};
  f.g->setWaypoints(put(L));
  Watch watch{f, what};
  watch.requested();
  auto tick = [&] { f.g->updateVehiclePosition(f.log.back().r.position); f.step(); watch.look(); for (auto& w : f.wps()) if (!w.getName().empty() && w.getTime() <= f.log.back().t + f.g->getTimeCompensation()) passed.insert(w.getName()); };
  auto settle = [&](double lim) { double end = mc::now() + lim; while (mc::now() < end) { tick(); if (f.idle()) return true; } return false; };
  f.eval(); watch.look();
  MC_CHECK("stalled", settle(30), "%s: never idle", what.c_str());
  for (int i = 0; i < 2; i++) tick();
  watch.quiet_since = true;
  auto fly = [&] {
    std::string nx; for (auto& w : L) if (!passed.count(w.first)) { nx = w.first; break; }
    if (nx.empty()) { tick(); return; }
    for (int i = 0; i < 600 && !passed.count(nx); i++) tick();
    for (int i = 0; i < 3; i++) tick();
  };
  auto near = [&] {
    for (int i = 0; i < 600; i++) {
      double next = 1e9; for (auto& w : f.wps()) if (!w.getName().empty()) { double a = w.getTime() - f.log.back().t - f.g->getTimeCompensation(); if (a > 0) next = std::min(next, a); }
      if (next > 1e8 || next < 11e-3 * comp + 2 * dt) return;
      tick();
    }
  };
  int fresh = 0; bool any_set = false, may_bend = false;     // may_bend: moves without regeneration since the last regeneration
  auto compare = [&](const char* when) {
    auto d = f.wps();
    List got = reported(d);
    if (g_status) return;
    // the list without some waypoints that were passed; those passed before the request are gone
    List all = L; size_t j = 0; bool ok = true;
    std::string why; bool nothing_left = true;      // then there is no new trajectory
    for (auto& w : L) if (!passed.count(w.first)) nothing_left = false;
    for (auto& w : all) {
      bool here = j < got.size() && got[j].first == w.first && (passed.count(w.first) || (got[j].second - w.second).norm() < 1e-9);
      if (here) { if (!nothing_left && gone.count(w.first)) { ok = false; why = w.first + " had been passed and is flown again"; } j++; }
      else if (!passed.count(w.first)) { ok = false; why = w.first + " is missing or at a wrong place"; }
    }
    if (j != got.size()) { ok = false; if (why.empty()) why = got[j].first + " does not belong there"; }
    MC_CHECK("list", ok, "%s %s: %s; requested were %s, reported are %s", what.c_str(), when, why.c_str(), str(L).c_str(), str(got).c_str());
    bool bent = false; for (auto& w : d) bent |= w.hasModifiers();
    bent = bent && (may_bend || nothing_left);
    if (!bent) for (auto& w : d) {
      auto r = f.at(w.getTime(), true);
      if (!w.getName().empty()) MC_CHECK("flown", (r.position - w.getCurrentPosition()).norm() < 0.02, "%s %s: %s is reported at %s, flown is %s", what.c_str(), when, w.getName().c_str(), vs(w.getCurrentPosition()).c_str(), vs(r.position).c_str());
    }
  };
  auto regen = [&] { if (f.idle()) {} gone = passed; };
  for (size_t k = 0; k < h.size(); k++) {
    switch (h[k].gap) {
      case 's': tick(); break;
      case 'i': MC_CHECK("stalled", settle(30), "%s: never idle", what.c_str()); for (int i = 0; i < 2; i++) tick(); compare("in between"); watch.quiet_since = true; tick(); break;
      case 'f': fly(); break;
      case 'n': near(); break;
    }
    // what the reference has passed by now
    for (auto& w : f.wps()) if (!w.getName().empty() && w.getTime() <= f.log.back().t + f.g->getTimeCompensation()) passed.insert(w.getName());
    watch.requested();
    const Vector3d x = L.empty() ? Vector3d(0, 0, 1) : L.back().second;
    const Vector3d sh(0.3 + 0.1 * k, 0.8, 0.2 * (k + 1));
    auto move = [&](const std::string& n, const Vector3d& p, bool r) { f.g->modifyWaypoint(n, p, r); for (auto& w : L) if (w.first == n) w.second = p; if (r) regen(); };
    auto newname = [&](char c) { std::string s(1, c); s += std::to_string(++fresh); return s; };
    const Vector3d me = f.log.back().r.position;
    if (std::string("mn").find(h[k].op) != std::string::npos) may_bend = true; else if (h[k].op != 'u') may_bend = false;
    switch (h[k].op) {
      case 'S': { L = {{newname('P'), me + Vector3d(3, 1, 0.5)}, {newname('Q'), me + Vector3d(6, -1, 0)}, {newname('R'), me + Vector3d(9, 0, 1)}}; gone.clear(); any_set = true; f.g->setWaypoints(put(L)); break; }
      case 'T': { L = {{newname('T'), me + Vector3d(2, 3, 0.5)}}; gone.clear(); any_set = true; f.g->setWaypoints(put(L)); break; }
      case 'A': { L.emplace_back(newname('E'), x + Vector3d(3, 1, 0)); f.g->appendWaypoint(put({L.back()})[0]); regen(); break; }
      case 'm': { for (auto& w : L) if (!passed.count(w.first)) { move(w.first, w.second + sh, false); break; } break; }
      case 'n': if (!L.empty()) move(L.back().first, L.back().second + sh, false); break;
      case 'r': { for (auto& w : L) if (!passed.count(w.first)) { move(w.first, w.second + sh, true); break; } break; }
      case 'q': if (!L.empty()) move(L.back().first, L.back().second - sh, true); break;
      case 'B': { std::vector<std::pair<std::string, Vector3d>> b; for (auto& w : L) if (!passed.count(w.first)) { w.second += sh; b.push_back(w); } b.emplace_back("nobody", Vector3d(1, 2, 3)); f.g->modifyWaypoints(b); regen(); break; }
      case 'u': f.g->modifyWaypoint("nobody", {1, 2, 3}, false); f.g->modifyWaypoint("", {1, 2, 3}, false); break;
      case 'v': f.g->modifyWaypoint("nobody", {1, 2, 3}, true); regen(); break;
      case 'H': {   // the remaining waypoints are handed back, in reverse order
        DynamicWaypoint::Vector v; List n; for (auto& w : f.g->getNextTrajectoryWaypoints()) if (!w.getName().empty() && w.getName() != kStitch) { DynamicWaypoint x = w; x.setName(newname('H')); v.insert(v.begin(), x); n.insert(n.begin(), {x.getName(), x.getCurrentPosition()}); }
        if (v.empty()) break;
        L = n; gone.clear(); any_set = true; f.g->setWaypoints(v); break; }
    }
    if (g_status && std::string("STABrqv").find(h[k].op) != std::string::npos && (h[k].op != 'r' || !L.empty()))
      MC_CHECK("not pending", !f.idle() || h[k].op == 'r', "%s: right after a request the generator reports to be idle", what.c_str());
  }
  MC_CHECK("stalled", settle(60), "%s: never idle", what.c_str());
  for (int i = 0; i < 3; i++) tick();
  compare("at the end");
  watch.quiet_since = true;
  if (g_status) for (int i = 0; i < 200 && f.log.back().t + f.log.back().comp < f.g->getMaxTime() + 0.2; i++) tick();
  mc::observe("%s %s", what.c_str(), str(reported(f.wps())).c_str());
}

// lists with repeated and empty names and names that are the beginning of another
static void names(const std::vector<Step>& h, double comp, const std::string& what) {
  mc::set_compute_ms(comp);
  Flight f(0.0473);
  f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
  List L;
  auto list = [&](double y) { List l; const char* nm[] = {"A", "", "AB", "A", ""}; for (int i = 0; i < 5; i++) l.emplace_back(nm[i], Vector3d(25 + 6 * i, y + 2 * (i % 2), 1 + 0.5 * i)); return l; };
  auto put = [&](const List& l) { DynamicWaypoint::Vector v; for (auto& w : l) v.emplace_back(mk(w.first, w.second)); return v; };
  L = list(0);
  f.g->setWaypoints(put(L));
  f.eval();
  MC_CHECK("stalled", f.settle(30), "%s: never idle", what.c_str());
  bool may_bend = false;
  auto compare = [&](const char* when) {
    auto d = f.wps();
    if (!d.empty() && d.front().getName().empty()) d.pop_front();       // the vehicle's position
    List got; for (auto& w : d) if (w.getName() != kStitch) got.emplace_back(w.getName(), w.getCurrentPosition());
    MC_CHECK("names", same(L, got), "%s %s: requested were %s, reported are %s", what.c_str(), when, str(L).c_str(), str(got).c_str());
    if (!may_bend) for (auto& w : d) {
      auto r = f.at(w.getTime(), true);
      MC_CHECK("names flown", (r.position - w.getCurrentPosition()).norm() < 0.02, "%s %s: '%s' is reported at %s, flown is %s", what.c_str(), when, w.getName().c_str(), vs(w.getCurrentPosition()).c_str(), vs(r.position).c_str());
    }
  };
  for (size_t k = 0; k < h.size(); k++) {
    if (h[k].gap == 's') f.step();
    if (h[k].gap == 'i') { MC_CHECK("stalled", f.settle(30), "%s: never idle", what.c_str()); f.step(); compare("in between"); }
    const Vector3d to(30 + k, 4 + 0.5 * k, 2);
    auto move = [&](const char* n, const Vector3d& p, bool r) { f.g->modifyWaypoint(n, p, r); if (*n) for (auto& w : L) if (w.first == n) w.second = p; if (r) may_bend = false; else may_bend = true; };
    switch (h[k].op) {
      case 'a': move("A", to, false); break;
      case 'A': move("A", to, true); break;
      case 'b': move("AB", to, false); break;
      case 'B': move("AB", to, true); break;
      case 'e': f.g->modifyWaypoint("", to, false); break;
      case 'E': f.g->modifyWaypoint("", to, true); may_bend = false; break;
      case 'D': { List b{{"A", to}, {"", to}, {"AB", to + Vector3d(3, 0, 0)}, {"A", to + Vector3d(6, 1, 0)}}; f.g->modifyWaypoints(std::vector<std::pair<std::string, Vector3d>>(b.begin(), b.end()));
        for (auto& m : b) if (!m.first.empty()) for (auto& w : L) if (w.first == m.first) w.second = m.second; may_bend = false; break; }
      case 'p': L.emplace_back("A", Vector3d(60 + 3 * k, 1, 1)); f.g->appendWaypoint(put({L.back()})[0]); may_bend = false; break;
      case 'q': L.emplace_back("", Vector3d(60 + 3 * k, -1, 1)); f.g->appendWaypoint(put({L.back()})[0]); may_bend = false; break;
      case 'S': L = list(5 + k); f.g->setWaypoints(put(L)); may_bend = false; break;
    }
  }
  MC_CHECK("stalled", f.settle(60), "%s: never idle", what.c_str());
  for (int i = 0; i < 3; i++) f.step();
  compare("at the end");
  mc::observe("%s %s", what.c_str(), str(L).c_str());
}

int main(int argc, char** argv) {
  quiet();
  g_status = argc > 1 && std::string(argv[argc - 1]) == "status";
  return mc::run_main(argc, argv, g_status ? "C11" : "C02", [](bool th) {
    std::vector<mc::Scenario> v;
    const std::string ops = "STAmnrqBuvH", gaps = "0sifn";
    auto add = [&](const char* g, std::vector<Step> h, double c, double dt) {
      mc::Scenario s; char b[60]; snprintf(b, sizeof b, "_c%g_dt%g", c, dt * 1e3);
      s.name = std::string(g) + "/" + str(h) + b; s.bound = 0; s.compute_ms = c; s.maxeval_cap = 25; s.horizon_s = 2000;
      s.params = "histories of requests with evaluations in between";
      s.body = [h, c, dt, n = s.name] { history(h, c, n, dt); };
      v.push_back(s);
    };
    if (!g_status) {
      const std::string nops = "aAbBeEDpqS", ngaps = "0si";
      auto addn = [&](const char* g, std::vector<Step> h, double c) {
        mc::Scenario s; s.name = std::string(g) + "/" + str(h) + "_c" + std::to_string((int)c); s.bound = 0; s.compute_ms = c; s.maxeval_cap = 8; s.horizon_s = 2000;
        s.params = "histories of requests on lists with repeated and empty names"; s.body = [h, c, n = s.name] { names(h, c, n); };
        v.push_back(s);
      };
      long j = 0;
      for (char a : nops) for (char ga : ngaps) {
        addn("names1", {{a, ga}}, 20);
        for (char b : nops) for (char gb : ngaps) {
          if (ga != 's' || th) addn("names2", {{a, ga}, {b, gb}}, gb == 's' ? 80 : 20);
          for (char e : nops) for (char ge : ngaps) if (ga == 'i' && (th || ++j % 11 == 0)) addn("names3", {{a, ga}, {b, gb}, {e, ge}}, j % 2 ? 80 : 20);
        }
      }
    }
    if (!g_status) add_bulk(v, th ? std::vector<int>{1, 3, 9, 17, 33} : std::vector<int>{2, 17}, th ? std::vector<int>{3, 9, 18, 34, 66} : std::vector<int>{9, 33}, th ? "fbrst" : "fbs", 0);
    long k = 0;
    // long histories: a pair or a triple of requests over and over
    for (char a : ops) for (char ga : gaps) for (char b : ops) for (char gb : gaps) {
      k++;
      if (!th && k % 5) continue;
      std::vector<Step> h; for (int i = 0; i < (th ? 10 : 7); i++) h.push_back(i % 2 ? Step{b, gb} : Step{a, ga});
      add(th ? "tlong2" : "long2", h, k % 2 ? 60 : 15, k % 3 ? 0.0473 : 0.0197);
      for (char e : ops) for (char ge : std::string("0si")) {
        if (!th && k * 33 % 1000 > 20) continue;
        if ((k * 7 + e + ge) % (th ? 9 : 1)) continue;
        std::vector<Step> h3; for (int i = 0; i < (th ? 12 : 9); i++) h3.push_back(i % 3 == 2 ? Step{e, ge} : i % 3 ? Step{b, gb} : Step{a, ga});
        add(th ? "tlong3" : "long3", h3, k % 2 ? 60 : 15, 0.0473);
      }
    }
    k = 0;
    for (char a : ops) for (char ga : gaps) {
      for (double c : {5.0, 60.0, 150.0}) for (double dt : {0.0473, 0.0119}) add(th ? "t1" : "one", {{a, ga}}, c, dt);
      for (char b : ops) for (char gb : gaps) {
        for (double c : {20.0, 90.0}) if (th || (c > 50) == (gb == 's' || gb == '0' || gb == 'n')) add(th ? "t2" : "two", {{a, ga}, {b, gb}}, c, 0.0473);
        for (char e : ops) for (char ge : gaps) {
          k++;
          if (ga == '0' || (gb == 'f' && ge == 'f' && ga == 'f')) continue;
          if (!th && k % 7) continue;
          add(th ? "t3" : "three", {{a, ga}, {b, gb}, {e, ge}}, k % 2 ? 90 : 20, 0.0473);
        }
      }
    }
    return v;
  });
}
