// C10: evaluation is total, finite, clamped, repeatable; plotting evaluations have no effect.
#include "pathlat.h"
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static bool same(const Vector3d& a, const Vector3d& b) { return (a - b).norm() <= 1e-12 * (1 + a.norm()); }
static bool same(const dtg::References& a, const dtg::References& b) { return same(a.position, b.position) && same(a.velocity, b.velocity) && same(a.acceleration, b.acceleration); }

static const std::vector<double> FAR{-1e9, -1e6, -4321.5, -100, -10, -2, -1, -0.5, -0.2, -0.11};

// everything about evaluation in the present state of the generator
static void probe(Flight& f, const char* ph, bool before = true) {
  DynamicTrajectory& g = *f.g;
  const double tmin = g.getMinTime(), c = g.getTimeCompensation(), a = tmin - c, b = g.getMaxTime() - c;
  auto ev = [&](double t, bool only, bool plot) { dtg::References r; r.position = r.velocity = r.acceleration = Vector3d::Constant(777); g.evaluateTrajectory((float)t, r, only, plot); return r; };
  auto S = ev(a - 1e-3, false, true), E = ev(b + 1e-3, false, true);
  std::vector<double> ts;
  for (double x : FAR) ts.push_back(a + x);
  for (int i = 0; i <= 40; i++) ts.push_back(a + (b - a) * i / 40.0);
  for (double x : FAR) ts.push_back(b - x);
  for (auto& w : f.wps()) { ts.push_back(w.getTime() - c); ts.push_back(std::nextafterf((float)(w.getTime() - c), 1e9f)); ts.push_back(std::nextafterf((float)(w.getTime() - c), -1e9f)); }
  ts.push_back(0); ts.push_back(-0.0); ts.push_back(INFINITY); ts.push_back(-INFINITY); ts.push_back(std::numeric_limits<float>::max()); ts.push_back(std::numeric_limits<float>::denorm_min());
  for (double t : ts) {
    auto r = ev(t, false, true);
    MC_CHECK("finite", fin(r), "%s: reference at %.6g (trajectory %.3f..%.3f) is %s %s %s", ph, t, a, b, vs(r.position).c_str(), vs(r.velocity).c_str(), vs(r.acceleration).c_str());
    auto r2 = ev(t, false, true);
    MC_CHECK("repeatable", same(r, r2), "%s: two evaluations at %.6g differ: %s %s", ph, t, vs(r.position).c_str(), vs(r2.position).c_str());
    auto p = ev(t, true, true);
    MC_CHECK("position only", same(r.position, p.position), "%s: position only %s, full %s at %.6g", ph, vs(p.position).c_str(), vs(r.position).c_str(), t);
    if (std::abs(t) > 2e9) continue;      // finite and repeatable only
    if (before && (float)t < (float)(a - 1e-3)) {
      // (moves reach back at most to just before the moment they were requested)
      MC_CHECK("before the start", (r.position - S.position).norm() < 1e-9, "%s: at %.6g, before the start %.4f, %s instead of %s", ph, t, a, vs(r.position).c_str(), vs(S.position).c_str());
    }
    if ((float)t > (float)(b + 1e-3)) {
      MC_CHECK("after the end", (r.position - E.position).norm() < 1e-9 + 1e-14 * std::abs(t), "%s: at %.6g, after the end %.4f, %s instead of %s", ph, t, b, vs(r.position).c_str(), vs(E.position).c_str());
      MC_CHECK("moving after the end", r.velocity.norm() < 1e-3 && r.acceleration.norm() < 0.02, "%s: at %.6g, after the end, velocity %s acceleration %s", ph, t, vs(r.velocity).c_str(), vs(r.acceleration).c_str());
    }
  }
}

// the end position is that of the last waypoint as it is now
static void end_position(Flight& f, const char* ph) {
  auto d = f.wps();
  auto r = f.at(d.back().getTime() + 5);
  bool overlap = false;      // documented limitation: influence windows of close waypoints overlap
  (void)overlap;
  double e = (r.position - d.back().getCurrentPosition()).norm();
  stat("endpos", e, ph);
  MC_CHECK("end position", e < 0.021 * std::sqrt(3.0), "%s: stays at %s, last waypoint is at %s", ph, vs(r.position).c_str(), vs(d.back().getCurrentPosition()).c_str());
}

struct Ev { double at; int kind; int wp; Vector3d d; };   // kind 0 move in place, 1 move with regeneration, 2 append, 3 set

static void issue(Flight& f, const Path& p, const Ev& e, std::map<std::string, Vector3d>& pos) {
  if (e.kind <= 1) { auto n = p.w[e.wp % p.w.size()].name; pos[n] += e.d; f.g->modifyWaypoint(n, pos[n], e.kind == 1); }
  else if (e.kind == 2) f.g->appendWaypoint(mk("Z" + std::to_string(e.wp), p.w.back().p + e.d * 4));
  else { std::vector<Wp> l; Vector3d q = p.w.back().p; for (int i = 0; i < 3; i++) { q += e.d * 3 + Vector3d(i, 1, 0); l.push_back({std::string("S") + char('0' + i), q}); } f.g->setWaypoints(mkv(l)); }
}

// one flight; `plot` > 0: plotting evaluations of various times after every evaluation
struct Step { Sample s; size_t nw; double tmin, tmax; bool regen, busy, pend; int remaining; std::string nm; size_t next; };
static std::vector<Step> fly(const Path& p, const std::vector<Ev>& evs, int plot) {
  Flight f(0.0473137);
  std::map<std::string, Vector3d> pos; for (auto& w : p.w) pos[w.name] = w.p;
  std::vector<Step> out;
  f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
  f.g->setWaypoints(p.make());
  f.eval();
  size_t k = 0;
  double T = f.g->getMaxTime();
  double last = 0;
  while (f.clock() < T + 1 && out.size() < 3000) {
    while (k < evs.size() && f.clock() >= evs[k].at * T) { issue(f, p, evs[k], pos); k++; last = f.clock(); }
    Step st; st.s = f.step();
    if (plot) {
      double t = st.s.t, c = st.s.comp;
      for (double x : {-5.0, -0.3, 0.0, 0.4, 3.0, 1e5}) { dtg::References r; f.g->evaluateTrajectory((float)(t + x * plot), r, x > 1, true); }
      (void)c;
    }
    st.busy = f.g->getComputingNewTrajectoryStatus(); st.pend = f.g->getGenerateNewTraj(); st.regen = f.g->getWasTrajectoryRegenerated();
    st.nw = f.wps().size(); st.tmin = f.g->getMinTime(); st.tmax = f.g->getMaxTime(); st.remaining = f.g->getRemainingWaypoints(); st.next = f.g->getNextTrajectoryWaypoints().size(); st.nm = names(f.wps());
    out.push_back(st);
    T = std::max(T, std::min(60.0, st.tmax));
  }
  return out;
}

// Both flights start at the same instant: the first is made in a child process.
struct Rec { double v[16]; char nm[400]; };
static Rec rec(const Step& x) {
  Rec r{}; double* v = r.v; const auto& s = x.s;
  double a[16] = {s.t, s.r.position[0], s.r.position[1], s.r.position[2], s.r.velocity[0], s.r.velocity[1], s.r.velocity[2], s.comp, (double)x.nw, x.tmin, x.tmax, (double)x.regen, (double)x.busy, (double)x.pend, (double)x.remaining, (double)x.next};
  memcpy(v, a, sizeof a); snprintf(r.nm, sizeof r.nm, "%s", x.nm.c_str());
  return r;
}
static std::vector<Rec> recs(const std::vector<Step>& v) { std::vector<Rec> o; for (auto& x : v) o.push_back(rec(x)); return o; }
static std::vector<Rec> in_child(const std::function<std::vector<Rec>()>& fn) {
  const size_t cap = 3001;
  struct Sh { size_t n; Rec r[cap]; };
  Sh* sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) { auto o = fn(); sh->n = std::min(cap, o.size()); for (size_t i = 0; i < sh->n; i++) sh->r[i] = o[i]; _exit(77); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
  if (WEXITSTATUS(st) != 77) _exit(WEXITSTATUS(st));       // (the failure has been reported by the child)
  std::vector<Rec> o(sh->r, sh->r + sh->n);
  munmap(sh, sizeof(Sh));
  return o;
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C10", [](bool th) {
    std::vector<mc::Scenario> v;
    auto paths = lattice(th ? 1 : 0);
    for (size_t i = 0; i < paths.size(); i++) {
      Path p = paths[i];
      if (p.w[0].name.empty() && i % 2) continue;
      mc::Scenario s; s.name = "probe/" + p.name; s.bound = 0; s.horizon_s = 4000; s.params = "all evaluation times at every phase of a flight with moves and a regeneration";
      s.body = [p, i] {
        Flight f; const char* nm = p.name.c_str();
        f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
        f.g->setWaypoints(p.make());
        std::string ph = std::string(nm) + " before the first evaluation";
        probe(f, ph.c_str());
        f.eval();
        probe(f, (std::string(nm) + " at the start").c_str()); end_position(f, nm);
        double T = f.g->getMaxTime();
        while (f.clock() < T * 0.3) f.step();
        probe(f, (std::string(nm) + " in flight").c_str());
        if (!p.w[0].name.empty()) {
          // move the last waypoint, and another one, in place
          std::string n = p.w.back().name;
          double tl = find(f.wps(), n)->getTime();
          f.g->modifyWaypoint(n, p.w.back().p + Vector3d(0.5, -0.3, 0.2), false);
          mc::sleep_ms(15); f.eval();
          probe(f, (std::string(nm) + " last waypoint moved in place").c_str());
          if (f.clock() < tl - 0.5) end_position(f, (std::string(nm) + " moved").c_str());
          while (f.clock() < T * 0.5) f.step();
          f.g->appendWaypoint(mk("Z", p.w.back().p + Vector3d(4, 0, 1)));
          mc::sleep_ms(20);
          probe(f, (std::string(nm) + " append requested").c_str());
          MC_CHECK("idle", f.settle(), "%s: append not served", nm);
          probe(f, (std::string(nm) + " appended").c_str()); end_position(f, (std::string(nm) + " appended").c_str());
        }
        while (f.clock() < f.g->getMaxTime() + 0.5) f.step();
        probe(f, (std::string(nm) + " after the end").c_str());
        // flown samples: once beyond the end, the reference stays
        Sample e = f.eval();
        for (int k = 0; k < 40; k++) { Sample x = f.step(); MC_CHECK("after the end", (x.r.position - e.r.position).norm() < 1e-9, "%s: reference moves from %s to %s after the end", nm, vs(e.r.position).c_str(), vs(x.r.position).c_str()); }
        mc::observe("%s %.5f", nm, e.t);
      };
      v.push_back(s);
    }
    // waypoints before the last one moved in place: their influence may reach beyond the end
    for (auto& p : paths) {
      if (p.w.size() < 2 || p.w[0].name.empty()) continue;
      for (double at : th ? std::vector<double>{0.01, 0.1, 0.25, 0.4} : std::vector<double>{0.01, 0.3}) for (int m = 1; m < std::min(1 << (int)p.w.size(), th ? 32 : 8); m++) {
        char b[100]; snprintf(b, sizeof b, "rest/%s_%g_%d", p.name.c_str(), at, m);
        mc::Scenario s; s.name = b; s.bound = 0; s.horizon_s = 4000; s.params = "rest after the end with waypoints moved in place";
        s.body = [p, at, m, b = std::string(b)] {
          Flight f(0.0473137);
          f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
          f.g->setWaypoints(p.make());
          f.eval();
          double T = f.g->getMaxTime();
          while (f.clock() < T * at) f.step();
          for (size_t i = 0; i < p.w.size(); i++) if (m >> i & 1) f.g->modifyWaypoint(p.w[i].name, p.w[i].p + Vector3d(0.9 - 0.4 * i, -0.6, 0.3), false);
          mc::sleep_ms(15); f.eval();
          probe(f, (b + " moved").c_str(), false);
          while (f.clock() < f.g->getMaxTime() + 0.5) f.step();
          probe(f, (b + " after the end").c_str(), false);
          Sample e = f.eval();
          for (int k = 0; k < 10; k++) { Sample x = f.step(); MC_CHECK("after the end", (x.r.position - e.r.position).norm() < 1e-9, "%s: reference moves from %s to %s after the end", b.c_str(), vs(e.r.position).c_str(), vs(x.r.position).c_str()); }
          mc::observe("%s %.5f", b.c_str(), e.t);
        };
        v.push_back(s);
      }
    }
    // with and without plotting evaluations
    std::vector<Ev> one;
    for (double at : {0.0, 0.15, 0.4, 0.8}) for (int kind = 0; kind < 4; kind++) for (int w = 0; w < (kind < 2 ? 3 : 1); w++) one.push_back({at, kind, w, Vector3d(0.6, -0.4, 0.1 * w)});
    std::vector<std::vector<Ev>> hist{{}};
    for (auto& e : one) hist.push_back({e});
    for (size_t i = 0; i < one.size(); i++) for (size_t j = i; j < one.size(); j++) if (one[j].at >= one[i].at && (th || (i + 3 * j) % 4 == 0)) hist.push_back({one[i], one[j]});
    if (th) for (size_t i = 0; i < one.size(); i++) for (size_t j = i; j < one.size(); j++) for (size_t k = j; k < one.size(); k++) if (one[j].at >= one[i].at && one[k].at >= one[j].at && (i + j + k) % 7 == 0) hist.push_back({one[i], one[j], one[k]});
    std::vector<Path> ps;
    { Path p; p.name = "L"; p.speed = 1.5; p.w = {{"A", {4, 0, 1}}, {"B", {8, 3, 2}}, {"C", {12, 0, 1}}}; ps.push_back(p);
      p.name = "s"; p.speed = 2; p.w = {{"A", {2, 0, 1}}}; ps.push_back(p); }
    for (auto& p : ps) for (size_t k = 0; k < hist.size(); k++) {
      if (!th && p.name == "s" && hist[k].size() > 1) continue;
      auto evs = hist[k];
      char b[60]; snprintf(b, sizeof b, "plot/%s%zu", p.name.c_str(), k);
      mc::Scenario s; s.name = b; s.bound = 0; s.horizon_s = 4000; s.params = "the same flight with and without plotting evaluations";
      s.body = [p, evs, b = std::string(b)] {
        auto A = in_child([&] { return recs(fly(p, evs, 0)); });
        auto B = recs(fly(p, evs, 1));
        std::string d; for (auto& e : evs) { char q[60]; snprintf(q, sizeof q, " [kind %d wp %d at %.2f]", e.kind, e.wp, e.at); d += q; }
        static const char* what[] = {"time", "position x", "position y", "position z", "velocity x", "velocity y", "velocity z", "time compensation", "number of waypoints", "start time", "end time", "trajectory changed", "computing", "request pending", "remaining waypoints", "next waypoints"};
        static const double tol[] = {1e-6, 1e-6, 1e-6, 1e-6, 1e-5, 1e-5, 1e-5, 1e-6, 0, 1e-6, 1e-6, 0, 0, 0, 0, 0};
        for (size_t i = 0; i < std::min(A.size(), B.size()); i++) {
          for (int j = 0; j < 16; j++) MC_CHECK("plotting has an effect", std::abs(A[i].v[j] - B[i].v[j]) <= tol[j], "%s%s: at %.3f %s is %.9g without and %.9g with plotting evaluations", b.c_str(), d.c_str(), A[i].v[0], what[j], A[i].v[j], B[i].v[j]);
          MC_CHECK("plotting changes reports", !strcmp(A[i].nm, B[i].nm), "%s%s: at %.3f waypoints %s without and %s with plotting evaluations", b.c_str(), d.c_str(), A[i].v[0], A[i].nm, B[i].nm);
        }
        MC_CHECK("plotting changes the flight", A.size() == B.size(), "%s%s: %zu evaluations without plotting, %zu with", b.c_str(), d.c_str(), A.size(), B.size());
        mc::observe("%s %zu", b.c_str(), A.size());
      };
      v.push_back(s);
    }
    return v;
  });
}
