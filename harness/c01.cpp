// C01: no request is lost or stalled, whatever the background generation is doing at that moment.
#include "conc.h"

enum { NONE, FLYING, BUSY, READY, ZONE, NST, DONE = NST };      // DONE: every waypoint has been passed
static const char* kSt[] = {"none", "flying", "busy", "ready", "zone", "done"};

// the reported waypoints are a result of the requests
static List listed(Flight& f, const List& l0, const std::vector<Script>& cl, bool& took_changed, bool done, const char* when, const std::string& what) {
  auto d = f.wps();
  List got = reported(d);
  std::vector<std::vector<Req>> st; for (auto& c : cl) st.push_back(steps(c));
  std::vector<List> ok; outcomes(l0, st, ok);
  bool only_moves = false;
  if (done) { outcomes({}, st, ok); if (std::all_of(cl.begin(), cl.end(), [](const Script& c) { return std::all_of(c.begin(), c.end(), [](const Req& r) { return r.k == 'M' || r.k == 'R' || r.k == 'B'; }); })) only_moves = took_changed = true; }   // what has been passed is not flown again
  bool any = false; std::string all;
  for (auto& o : ok) { List m = o; if (!m.empty() && m[0].first == "H") m.erase(m.begin());    // passed by the time
    if (same(o, got) || (m.size() < o.size() && same(m, got))) any = true; all += "[" + str(o) + "] "; }
  if (only_moves && got.size() == l0.size()) {     // each of them may or may not be moved in place
    any = true;
    for (size_t i = 0; i < got.size(); i++) {
      bool fit = got[i].first == l0[i].first && (got[i].second - l0[i].second).norm() < 1e-9;
      for (auto& c : st) for (auto& r : c) if (r.n == got[i].first && got[i].first == l0[i].first && (got[i].second - place(r.n[0], r.d)).norm() < 1e-9) fit = true;
      any = any && fit;
    }
  }
  MC_CHECK("lost", any, "%s %s: the waypoints are %s, allowed are %s", what.c_str(), when, str(got).c_str(), all.c_str());
  return got;
}
static void judge(Flight& f, const List& l0, const std::vector<Script>& cl, bool took_changed, bool done, const std::string& what) {
  bool idle = f.settle(60);
  MC_CHECK("stalled", idle, "%s: the generator never becomes idle (pending %d, computing %d)", what.c_str(), (int)f.g->getGenerateNewTraj(), (int)f.g->getComputingNewTrajectoryStatus());
  for (int i = 0; i < 3; i++) f.step();
  MC_CHECK("not idle", f.idle(), "%s: the generator starts again without a request", what.c_str());
  List got = listed(f, l0, cl, took_changed, done, "at the end", what);
  auto d = f.wps();
  bool changed = f.g->getWasTrajectoryRegenerated();
  MC_CHECK("flag", changed || took_changed, "%s: the change is not reported", what.c_str());
  // what is reported is what is flown
  bool moved = false; for (auto& c : cl) for (auto& r : c) if (r.k == 'M' || r.k == 'R' || r.k == 'B') moved = true;
  for (auto& w : d) if (!w.getName().empty() && w.getName() != "stitching_point") {
    auto r = f.at(w.getTime());
    double e = (r.position - w.getCurrentPosition()).norm();
    stat(moved ? "flownm" : "flown", e, what.c_str());
    if (!moved) MC_CHECK("not flown", e < 0.02, "%s: %s is reported at %s, the reference is at %s then", what.c_str(), w.getName().c_str(), vs(w.getCurrentPosition()).c_str(), vs(r.position).c_str());
  }
  mc::observe("%s", str(got).c_str());
}

// one or two clients issue their requests while the evaluation goes on
static void run(int st, const std::vector<Script>& cl, double gap, bool poll, const std::string& what) {
  mc::explore(false);
  Flight f(0.0473);
  f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
  List l0;
  std::vector<Script> judged = cl;
  if (st != NONE) {
    const Req all{'S', "AB", Vector3d(st == DONE ? -27 : 0, 0, 0)};
    if (st == DONE) f.g->setSpeed(5);
    issue(*f.g, all); apply_req(l0, all);
    f.eval(); f.step(); f.g->getWasTrajectoryRegenerated();
  }
  if (st == BUSY || st == READY) { issue(*f.g, {'A', "C"}); apply_req(l0, {'A', "C"}); mc::sleep_ms(st == BUSY ? 17 : 110); }
  if (st == ZONE) { 
    const Req near{'S', "HAB", Vector3d(-18.5, 0, 0)}; issue(*f.g, near); apply_req(l0, near); f.settle(30);
    for (int i = 0; i < 200; i++) { auto h = find(f.wps(), "H"); MC_CHECK("zone", h, "H is missing"); if (h->getTime() - f.log.back().t - f.log.back().comp < 9.5e-3 * mc::compute_ms_of_this_run()) break; f.step(); }
  }
  if (st == DONE) { f.settle(30); double end = f.g->getMaxTime(); for (int i = 0; i < 4000 && f.log.back().t + f.log.back().comp < end + 0.4; i++) { f.g->updateVehiclePosition(f.log.back().r.position); f.step(); } f.g->setSpeed(2); f.g->getWasTrajectoryRegenerated(); }
  mc::explore(true);
  std::vector<std::thread> ts;
  for (size_t i = 1; i < cl.size(); i++) ts.emplace_back([&, i] { for (auto& r : cl[i]) issue(*f.g, r); });
  std::thread first([&] { for (auto& r : cl[0]) { issue(*f.g, r); if (gap > 0) mc::sleep_ms(gap); } });
  bool changed = false;
  if (st != NONE) for (int i = 0; i < 3; i++) { f.eval(); if (poll) changed |= f.g->getWasTrajectoryRegenerated(); mc::sleep_ms(11.3); }
  first.join(); for (auto& t : ts) t.join();
  if (st == NONE) f.eval();
  bool in_place = false, seen = false; for (auto& c : cl) for (auto& r : c) in_place |= r.k == 'M';
  for (int i = 0; i < 8; i++) { f.step(); if (!in_place && !seen && f.idle()) { bool t = false; seen = true; listed(f, l0, judged, t, st == DONE, "when the generator says that it has nothing left to do", what); } if (poll) changed |= f.g->getWasTrajectoryRegenerated(); }
  mc::explore(false);
  judge(f, l0, judged, changed, st == DONE, what);
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C01", [](bool th) {
    std::vector<mc::Scenario> v;
    const Vector3d d(0, 1.5, 0.5), e(0.5, -1, 0);
    const std::vector<Script> one{{{'S', "PQ"}}, {{'A', "E"}}, {{'M', "B", d}}, {{'R', "B", d}}, {{'B', "AB", d}}};
    auto add = [&](const char* g, int st, const std::vector<Script>& cl, double comp, double gap, bool poll, int bound, long cap) {
      mc::Scenario s; s.name = std::string(g) + "/" + kSt[st] + "_c" + std::to_string((int)comp) + (gap ? "_g" + std::to_string((int)gap) : "") + (poll ? "_poll" : "");
      for (auto& c : cl) s.name += "_" + str(c);
      s.unlock_points = std::string(g) == "seq" && gap > 0;
      s.params = "clients issue requests while the reference is evaluated";
      s.bound = bound; s.max_exec = cap; s.compute_ms = comp; s.maxeval_cap = 6; s.freeze_ms = 130; s.horizon_s = 900;
      s.body = [=, nm = s.name] { run(st, cl, gap, poll, nm); };
      v.push_back(s);
    };
    add_bulk(v, th ? std::vector<int>{1, 3, 12} : std::vector<int>{3}, th ? std::vector<int>{4, 9, 17, 34} : std::vector<int>{17}, th ? "fbrst" : "fb", 0);
    // one client, one request; one client, two requests; two clients
    for (int st = 0; st < NST; st++) for (double comp : {20.0, 60.0}) {
      for (auto& a : one) {
        if (st == NONE && a[0].k != 'S') continue;
        if (th || (comp < 30) == (st == BUSY || st == NONE || st == ZONE)) add("one", st, {a}, comp, 0, !th && st % 2, 1, 0);
        if (th) { add("one", st, {a}, comp, 0, true, 1, 0); if (comp < 30) add("two", st, {a}, comp, 0, false, 2, 60000); }
        for (auto& b : one) {
          Script ab = a; Req q = b[0]; if (q.k == 'M' || q.k == 'R') { q.n = a[0].k == 'S' ? "P" : "A"; q.d = e; } else if (q.k == 'A') q.n = "F"; else if (q.k == 'S') { q.n = "TU"; if (a[0].k != 'S' && a[0].k != 'A') { q.n = "BA"; q.d = e; } } else { q.d = e; if (a[0].k == 'S') q.n = "PQ"; }
          ab.push_back(q);
          if (th || (comp > 30 && st == BUSY) || (comp < 30 && st == NONE)) add("seq", st, {ab}, comp, 0, false, 1, 0);
          if (st != NONE && (th || (comp < 30 && st == FLYING))) add("seq", st, {ab}, comp, 23, false, 1, 0);
          Script bb{q};
                    if (a[0].k == 'S' && (q.k == 'M' || q.k == 'R' || q.k == 'B')) bb = b;     // moves of the old list
          if (th || (comp < 30 && ((st != BUSY && st != ZONE && a[0].k <= q.k) || st == NONE))) add("par", st, {a, bb}, comp, 0, false, 1, 0);
        }
      }
    }
    // nothing left to fly to, or nothing there yet: requests that ask for nothing, and real ones among them
    for (auto& a : one) {
      for (double comp : {20.0, 60.0}) if (th || comp < 30) {
        add("done", DONE, {a}, comp, 0, false, 1, 0);
        for (auto& b : one) {
          Script ab = a; Req q = b[0]; if (q.k == 'M' || q.k == 'R') { q.n = "A"; q.d = e; } else if (q.k == 'A') q.n = "F"; else if (q.k == 'S') { q.n = "TU"; } else q.d = e;
          ab.push_back(q);
          if (th || (strchr("RA", a[0].k) && strchr("RAS", q.k))) add("done", DONE, {ab}, comp, 0, false, 1, 0);
          if (th || (a[0].k == 'R' && strchr("MRA", q.k))) add("done", DONE, {ab}, comp, 23, false, 1, 0);
          if (th || (a[0].k == 'R' && q.k != 'M')) add("done", DONE, {a, {q}}, comp, 0, false, 1, 0);
          if (a[0].k == 'S' || q.k != 'S') continue;
          add("first", NONE, {ab}, comp, 0, false, 1, 0);
          if (a[0].k == 'R' || a[0].k == 'B' || th) { Script t = a; t.push_back(a[0]); t.push_back(q); add("first", NONE, {t}, comp, 0, false, 1, 0); }
        }
      }
    }
    if (th) for (int st : {FLYING, BUSY}) for (auto& a : one) for (auto& b : one) {
      add("deep", st, {a, b}, 20, 0, false, 2, 20000);
    }
    return v;
  });
}
