// C03: no deadlock, hang, crash or use of destroyed state; destruction returns at any moment.
#include "conc.h"

enum { NONE, FIRST, FLYING, BUSY, READY, MOVED, PENDING, NST };
static const char* kSt[] = {"none", "first", "flying", "busy", "ready", "moved", "pending"};

static void prepare(Flight& f, int st) {
  f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
  if (st == NONE) return;
  issue(*f.g, {'S', "AB"});
  if (st == FIRST) return;
  f.eval(); f.step();
  if (st == MOVED) issue(*f.g, {'M', "AB", Vector3d(0, 1, 0)});
  if (st == BUSY || st == READY || st == PENDING) { issue(*f.g, {'A', "C"}); mc::sleep_ms(st == READY ? 120 : 15); }
  if (st == PENDING) issue(*f.g, {'A', "D"});
}

int main(int argc, char** argv) {
  quiet();
  const bool race = argc > 1 && std::string(argv[argc - 1]) == "race";
  return mc::run_main(argc, argv, "C03", [race](bool th) {
    std::vector<mc::Scenario> v;
    auto ops = std::make_shared<std::vector<PubOp>>(pub_ops());
    auto base = [&](const std::string& name, int bound) { mc::Scenario s; s.name = name; s.bound = bound; s.horizon_s = 400; s.race = race; s.ignore_opt = race; s.maxeval_cap = 2; s.compute_ms = 40; s.freeze_ms = 100; return s; };
    const int n = ops->size();
    // destruction at every moment of everything the generator can be busy with
    for (int st = 0; st < NST; st++) for (double comp : {0.5, 40.0}) {
      const int N = th ? 80 : 20;
      for (int i = 0; i < N; i++) {
        double at = i < 4 ? i * 0.3 : (i - 3) * 80.0 / N;
        auto s = base(std::string("destroy/") + kSt[st] + "_c" + (comp < 1 ? "0" : "40") + "_" + std::to_string(i), th ? (i % 8 == 0 && !race ? 2 : 1) : (race ? (i % 3 == 0) : 1));
        s.params = "the generator is destroyed at a given moment"; s.compute_ms = comp; 
        s.body = [st, at] {
          mc::explore(false);
          auto f = std::make_unique<Flight>(0.0473);
          prepare(*f, st);
          mc::explore(true);
          mc::sleep_ms(at);
          f.reset();
          mc::explore(false);
          mc::covered();
          mc::sleep_ms(200);
          mc::observe("%s %.2f", kSt[st], at);
        };
        v.push_back(s);
      }
    }
    if (race) return v;
    // two and three clients at once, in every state; afterwards everything still works
    auto clients = [&](const std::string& g, int st, std::vector<int> a, int bound, long cap) {
      auto s = base(g + "/" + kSt[st], bound);
      for (int k : a) s.name += std::string("+") + (*ops)[k].n;
      s.params = "clients issue one call each at the same time; one keeps evaluating, then the generator is destroyed"; s.max_exec = cap;
      s.body = [=] {
        mc::explore(false);
        Flight f(0.0473);
        prepare(f, st);
        mc::explore(true);
        std::vector<std::thread> t;
        for (size_t i = 1; i < a.size(); i++) t.emplace_back([&, i] { (*ops)[a[i]].f(f, i); });
        if (st == NONE) t.emplace_back([&] { mc::sleep_ms(25); issue(*f.g, {'S', "A"}); });
        (*ops)[a[0]].f(f, 0);
        for (auto& x : t) x.join();
        mc::explore(false);
        f.eval();
        bool idle = f.settle(40);
        MC_CHECK("hang", idle, "the generator does not become idle");
        Sample z = f.step();
        MC_CHECK("not finite", fin(z.r), "the reference is not finite");
        mc::observe("%.3f", z.r.position[0]);
      };
      v.push_back(s);
    };
    auto is = [&](int i, const char* s) { return std::string((*ops)[i].n) == s; };
    for (int st = 0; st < NST; st++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
      bool key = is(a, "eval") || is(a, "waypoints") || is(a, "maxTime");
      bool q = (is(a, "eval") && (st == NONE || st == FIRST || st == READY || st == PENDING)) || (key && is(b, "plot") && (st == FIRST || st == READY));
      if (th) clients("two-t", st, {a, b}, is(a, "eval") && (is(b, "eval") || is(b, "waypoints") || is(b, "maxTime") || is(b, "append") || is(b, "move")) && (st == FIRST || st == READY) ? 2 : 1, 0);
      else clients("two", st, {a, b}, q ? 1 : 0, 0);
    }
    for (int st = 0; st < NST; st++) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int c = b; c < n; c++) {
      if (!th && ((a + b + c + st) % 3)) continue;
      clients(th ? "three-t" : "three", st, {a, b, c}, 0, 0);
    }
    // exceptions: requests that cannot be flown, repeated requests, odd values
    struct Odd { const char* n; std::function<void(Flight&)> f; };
    static const std::vector<Odd> odd{
      {"same-point", [](Flight& f) { DynamicWaypoint::Vector w{mk("A", {0, 0, 0}), mk("B", {0, 0, 0}), mk("C", {0, 0, 0})}; f.g->setWaypoints(w); }},
      {"empty-set", [](Flight& f) { f.g->setWaypoints({}); }},
      {"unknown-move", [](Flight& f) { f.g->modifyWaypoint("nobody", {1, 1, 1}, true); f.g->modifyWaypoint("nobody", {1, 1, 1}, false); f.g->modifyWaypoints({{"nobody", {1, 1, 1}}}); }},
      {"empty-moves", [](Flight& f) { f.g->modifyWaypoints({}); }},
      {"unnamed", [](Flight& f) { f.g->setWaypoints({mk("", {3, 0, 1}), mk("", {6, 0, 1})}); f.g->modifyWaypoint("", {1, 1, 1}, false); }},
      {"same-name", [](Flight& f) { f.g->setWaypoints({mk("A", {3, 0, 1}), mk("A", {6, 0, 1})}); f.g->modifyWaypoint("A", {5, 1, 1}, true); }},
      {"stitching-name", [](Flight& f) { f.g->setWaypoints({mk("stitching_point", {3, 0, 1}), mk("stitching_point", {6, 0, 1})}); }},
      {"many", [](Flight& f) { for (int i = 0; i < 12; i++) f.g->appendWaypoint(mk("N" + std::to_string(i), {3.0 * i + 3, 0.2 * i, 1})); }},
      {"flood", [](Flight& f) { for (int i = 0; i < 20; i++) { f.g->appendWaypoint(mk("N" + std::to_string(i % 3), {3.0 * i + 3, 0.2 * i, 1})); f.g->modifyWaypoint("N1", {0, 0.3 * i, 1}, i % 2); if (i % 7 == 6) f.eval(); } }},
      {"far", [](Flight& f) { f.g->setWaypoints({mk("A", {1e4, 0, 1}), mk("B", {1e4, 1e4, 1})}); }},
      {"returned", [](Flight& f) { DynamicWaypoint::Vector w; for (auto& x : f.wps()) w.push_back(x); f.g->setWaypoints(w); }},
      {"remaining", [](Flight& f) { f.g->setWaypoints(f.g->getNextTrajectoryWaypoints()); }},
    };
    for (int st = FLYING; st < NST; st++) for (auto& o : odd) for (double comp : {0.5, 40.0}) {
      auto s = base(std::string("odd/") + kSt[st] + "_" + o.n + (comp < 1 ? "_c0" : "_c40"), th && comp > 1 && (st == FLYING || st == BUSY || st == READY) ? 1 : 0); s.compute_ms = comp; s.maxeval_cap = 10;
      s.params = "unusual requests in every state";
      s.body = [st, &o] {
        Flight f(0.0473);
        prepare(f, st);
        o.f(f);
        f.eval();
        bool idle = f.settle(60);
        MC_CHECK("hang", idle, "the generator does not become idle");
        issue(*f.g, {'S', "PQ"});
        idle = f.settle(60);
        MC_CHECK("hang", idle, "the generator does not become idle");
        auto r = reported(f.wps());
        MC_CHECK("stuck", r.size() == 2 && r[0].first == "P", "a later request is not served: %s", str(r).c_str());
        Sample z = f.step();
        MC_CHECK("not finite", fin(z.r), "the reference is not finite");
      };
      v.push_back(s);
    }
    return v;
  });
}
