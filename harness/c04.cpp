// C04: no data races between any two calls, the background generation and other generators.
#include "conc.h"
#include <sstream>
#include "mav_trajectory_generation/timing.h"

enum { NONE, FIRST, FLYING, BUSY, READY, MOVED, NST };
static const char* kSt[] = {"none", "first", "flying", "busy", "ready", "moved"};

static void prepare(Flight& f, int st) {
  f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
  if (st == NONE) return;
  issue(*f.g, {'S', "AB"});
  if (st == FIRST) { mc::sleep_ms(15); return; }
  f.eval(); f.step();
  if (st == FLYING) return;
  if (st == MOVED) { issue(*f.g, {'M', "AB", Vector3d(0, 1, 0)}); return; }
  issue(*f.g, {'A', "C"}); mc::sleep_ms(st == BUSY ? 15 : 120);
}
static void finish(Flight& f) {
  f.eval();
  f.settle(30);
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C04", [](bool th) {
    std::vector<mc::Scenario> v;
    auto ops = std::make_shared<std::vector<PubOp>>(pub_ops());
    auto base = [&](const std::string& name, int bound) { mc::Scenario s; s.name = name; s.bound = bound; s.horizon_s = 300; s.race = true; s.ignore_opt = true; s.maxeval_cap = 2; s.compute_ms = 40; s.freeze_ms = 100; return s; };
    const int n = ops->size();
    auto pair = [&](const char* g, int st, int a, int b, int bound) {
      auto s = base(std::string(g) + kSt[st] + "/" + (*ops)[a].n + "+" + (*ops)[b].n, bound);
      s.params = "two clients issue one call each at the same time";
      s.body = [ops, a, b, st] {
        mc::explore(false);
        Flight f(0.0473);
        prepare(f, st);
        mc::explore(true);
        std::thread t([&] { (*ops)[b].f(f, 1); }), u;
        if (st == NONE) u = std::thread([&] { mc::sleep_ms(25); issue(*f.g, {'S', "A"}); });
        (*ops)[a].f(f, 0);
        t.join(); if (u.joinable()) u.join();
        mc::explore(false);
        finish(f);
      };
      v.push_back(s);
    };
    for (int st = 0; st < NST; st++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) pair("", st, a, b, 0);
    // every single deviation from the default schedule
    for (int st = 0; st < NST; st++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
      std::string x = (*ops)[a].n, y = (*ops)[b].n;
      bool q = (x == "eval" && (y == "eval" || y == "set" || y == "move" || y == "waypoints" || y == "next" || y == "maxTime")) && (st == READY || st == MOVED || st == FIRST);
      if (th || q) pair(th ? "d1t-" : "d1-", st, a, b, 1);
    }
    // requests one after the other while the generation works on the first
    const std::vector<Script> one{{{'S', "PQ"}}, {{'A', "E"}}, {{'M', "B", Vector3d(0, 1, 0)}}, {{'R', "B", Vector3d(0, 1, 0)}}, {{'B', "AB", Vector3d(0, 1, 0)}}};
    for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (double gap : {23.0, 61.0}) {
      if (!th && gap > 30) continue;
      auto s = base("seq/" + str(one[a]) + "+" + str(one[b]) + "_g" + std::to_string((int)gap), 1);
      s.params = "one client issues two requests, another evaluates"; s.compute_ms = 30; s.freeze_ms = 130; s.freeze_only = !th;
      s.body = [=] {
        mc::explore(false);
        Flight f(0.0473);
        prepare(f, FLYING);
        mc::explore(true);
        std::thread t([&] { issue(*f.g, one[a][0]); mc::sleep_ms(gap); issue(*f.g, one[b][0]); });
        for (int i = 0; i < 3; i++) { mc::sleep_ms(31.3); f.eval(); }
        t.join();
        mc::explore(false);
        finish(f);
      };
      v.push_back(s);
    }
    // several generators: everything one of them does while another does something else
    const char* acts[] = {"first", "fly", "replan", "moves", "create"};
    auto act = [](int k) {
      Flight f(0.0473);
      f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
      if (k == 4) return;
      issue(*f.g, {'S', k == 0 ? "ABC" : "A"});
      f.eval(); f.step();
      if (k == 2) issue(*f.g, {'A', "C"});
      if (k == 3) issue(*f.g, {'M', "A", Vector3d(0, 1, 0)});
      if (k) f.settle(30);
    };
    for (int a = 0; a < 5; a++) for (int b = a; b < 5; b++) for (int opt = 0; opt < 2; opt++) {
      auto s = base(std::string(opt ? "gens-full/" : "gens/") + acts[a] + "+" + acts[b], 0);
      s.params = "two generators in two threads"; s.ignore_opt = !opt; s.compute_ms = 5; s.maxeval_cap = opt ? 4 : 2;
      s.body = [act, a, b] { std::thread t([=] { act(b); }); act(a); t.join(); };
      v.push_back(s);
      if (!opt && (th || (a == 1 && b == 2))) { s.name = "gens-d1/" + std::string(acts[a]) + "+" + acts[b]; s.bound = 1; s.max_exec = th ? 20000 : 1500; v.push_back(s); }
    }
    // the timer registry, shared by everything in the process
    const char* tops[] = {"timer", "scope", "mean", "count", "print", "reset-handle", "window"};
    auto top = [](int k, int who) {
      namespace t = mtg::timing;
      std::string tag = "x" + std::to_string(who % 2);
      std::ostringstream o;
      switch (k) {
        case 0: { t::Timer a("shared"); a.Stop(); break; }
        case 1: { t::Timer a(tag, false); } break;
        case 2: (void)t::Timing::GetMeanSeconds("shared"); break;
        case 3: (void)t::Timing::GetNumSamples("shared"); break;
        case 4: t::Timing::Print(o); break;
        case 5: (void)t::Timing::GetHandle("new" + tag); break;
        case 6: (void)t::Timing::GetVarianceSeconds("shared"); break;
      }
    };
    for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b++) {
      auto s = base(std::string("timing/") + tops[a] + "+" + tops[b], th ? 2 : 1);
      s.params = "timers and statistics in two threads"; s.max_exec = th ? 20000 : 3000;
      s.body = [top, a, b] {
        { mtg::timing::Timer w("shared"); w.Stop(); }
        std::thread t([=] { top(b, 1); top(b, 1); }); top(a, 0); top(a, 0); t.join();
        long n = mtg::timing::Timing::GetNumSamples("shared"), want = 1 + 2 * (a == 0) + 2 * (b == 0);
        MC_CHECK("samples", n == want, "%ld samples recorded for %ld intervals", n, want);
      };
      v.push_back(s);
    }
    return v;
  });
}
