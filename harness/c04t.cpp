// C04: a reference evaluated while the state changes belongs wholly to the state before or after.
#include "conc.h"

static bool eq(const dtg::References& a, const dtg::References& b) {
  return (a.position - b.position).norm() < 1e-9 && (a.velocity - b.velocity).norm() < 1e-9 && (a.acceleration - b.acceleration).norm() < 1e-9;
}
static std::string rs(const dtg::References& r) { return vs(r.position) + vs(r.velocity) + vs(r.acceleration); }

// two threads evaluate at the same fixed time while the change is made
static void torn(const Script& init, const Script& change, double t, int evals, bool plot, double pause) {
  mc::explore(false);
  // a move with regeneration may be applied in place before the new trajectory arrives
  std::vector<dtg::References> between;
  for (auto& r : change) if (r.k == 'R' || r.k == 'B') for (size_t k = 1; k <= r.n.size(); k++) {
    Flight f(0.0473);
    f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
    for (auto& i : init) issue(*f.g, i);
    dtg::References x; f.g->evaluateTrajectory((float)t, x); mc::sleep_ms(30); f.g->evaluateTrajectory((float)t, x);
    issue(*f.g, {'M', r.n.substr(0, k), r.d}); mc::sleep_ms(100);
    f.g->evaluateTrajectory((float)t, x); between.push_back(x);
  }
  Flight f(0.0473);
  f.g->updateVehiclePosition({0, 0, 0}); f.g->setSpeed(2);
  for (auto& r : init) issue(*f.g, r);
  auto at = [&](bool for_plot) { dtg::References r; f.g->evaluateTrajectory((float)t, r, false, for_plot); return r; };
  at(false); mc::sleep_ms(30);
  const auto s0 = at(false);
  MC_CHECK("state", eq(s0, at(false)), "two evaluations at the same time differ");
  mc::explore(true);
  std::vector<dtg::References> seen[2];
  std::thread c([&] { for (auto& r : change) issue(*f.g, r); });
  std::thread e([&] { for (int i = 0; i < evals; i++) { seen[1].push_back(at(true)); mc::sleep_ms(pause); } });
  for (int i = 0; i < evals; i++) { seen[0].push_back(at(plot)); mc::sleep_ms(pause); }
  c.join(); e.join();
  mc::explore(false);
  for (int i = 0; i < 3000 && (!f.idle() || i < 3); i++) { at(false); mc::sleep_ms(13); }
  MC_CHECK("stalled", f.idle(), "the generator does not become idle");
  const auto s1 = at(false);
  int n0 = 0;
  for (int w = 0; w < 2; w++) { bool fresh = false; for (auto& r : seen[w]) {
    bool o = eq(r, s0), nw = eq(r, s1);
    bool mid = false; for (auto& x : between) if (eq(r, x)) mid = true;
    MC_CHECK("torn", o || nw || mid, "an evaluation gives %s, before the change it was %s, afterwards %s", rs(r).c_str(), rs(s0).c_str(), rs(s1).c_str());
    if ((nw || mid) && !o) fresh = true; else if (o && !nw) { n0++; MC_CHECK("went back", !fresh, "an evaluation gives the state before the change after one that gave the state after it"); }
  } }
  mc::observe("%d %s", n0, rs(s1).c_str());
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C04", [](bool th) {
    std::vector<mc::Scenario> v;
    struct Ch { const char* n; Script s; };
    const Vector3d d(0, 2, 1);
    const Ch cs[] = {{"move", {{'M', "A", d}}}, {"moveB", {{'M', "B", d}}}, {"moveR", {{'R', "A", d}}}, {"append", {{'A', "C"}}}, {"set", {{'S', "PQ"}}}, {"batch", {{'B', "AB", d}}}};
    for (auto& c : cs) for (double t : {3.0, 9.0}) for (int plot = 0; plot < 2; plot++) for (double comp : {20.0, 55.0}) {
      if (plot && c.n[0] != 'm') continue;           // without real evaluations the new trajectory is taken by a plotting one
      mc::Scenario s; char b[80]; snprintf(b, sizeof b, "%s_t%g_p%d_c%g", c.n, t, plot, comp);
      s.name = std::string("torn/") + b; s.params = "two threads evaluate at a fixed time while a third changes the path";
      s.bound = th && t < 5 && !plot && comp < 30 ? 2 : 1; s.compute_ms = comp; s.maxeval_cap = 6; s.freeze_ms = 60; s.horizon_s = 600;
      Script init{{'S', "AB"}}, ch = c.s; int ev = comp > 30 ? 5 : 3; if (c.n[0] == 'm' && std::string(c.n) != "moveR") ev = 3;
      s.body = [=] { torn(init, ch, t, ev, plot, 12.3); };
      v.push_back(s);
    }
    return v;
  });
}
