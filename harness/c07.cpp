// C07: replanning in flight: no jump, and every remaining waypoint is still visited in order.
#include "pathlat.h"

struct Req { double at; int kind; int wp; Vector3d d; };     // kind 0 append, 1 move with regeneration, 2 set, 3 batch of moves (with regeneration)
// at < 0: as soon as a query between two evaluations has brought in the new trajectory

static double seg_dist(const Vector3d& a, const Vector3d& b, const Vector3d& q) {
  Vector3d u = b - a; double l = u.squaredNorm();
  double t = l > 0 ? std::min(1.0, std::max(0.0, (q - a).dot(u) / l)) : 0;
  return (a + t * u - q).norm();
}
struct Target { std::string n; Vector3d p; std::vector<Vector3d> alt = {}; double slack = 0; bool late = false; };   // alt: where it was before moves

static void flight(const Path& p, const std::vector<Req>& rs, double comp_ms, double dt, const std::string& name, int query = 0) {
  mc::set_compute_ms(comp_ms);
  Flight f(dt);
  f.g->updateVehiclePosition(p.start); f.g->setSpeed(p.speed);
  f.g->setWaypoints(p.make());
  f.eval();
  std::vector<Target> want; for (auto& w : p.w) want.push_back({w.name, w.p});
  std::string desc = name;
  double T = f.g->getMaxTime(), tmin = f.g->getMinTime();
  const double T0 = T;
  long swaps = 0;
  Sample last = f.log.back();
  size_t k = 0, set_from = 0;
  bool moves = false, near_move = false, must_swap = false, carry = false, arrived = false;
  double near_d = 0;
  std::vector<std::pair<Vector3d, Vector3d>> flown;
  bool ended = false;
  for (int n = 0; n < 6000; n++) {
    bool taken = arrived, asking = query && !(k == rs.size() && f.idle()), asked = false;
    if (asking) for (int q = 0; q < 9 && !taken; q++) {     // queries between the evaluations
      mc::sleep_ms(dt * 100);
      if (query == 1) f.wps(); else f.at(last.t, true);
      taken = std::abs(f.g->getMinTime() - tmin) > 1e-9;
      if (taken) { Sample e = last; e.comp = f.g->getTimeCompensation(); e.r = f.at(last.t + e.comp); f.log.insert(f.log.end() - 1, e); }   // where the new trajectory has the client
    }
    while (k < rs.size() && (rs[k].at < 0 ? taken : last.t >= rs[k].at * T0)) {
      if (rs[k].at < 0) { taken = arrived = false; asked = true; }
      auto& e = rs[k];
      char q[160];
      auto ws = f.wps();
      double now = last.t + f.g->getTimeCompensation();
      const bool busy = !f.idle();
      if (e.kind == 0 || e.kind == 2) must_swap = true;      // (a move of a passed waypoint asks for nothing)
      if (e.kind == 0) {
        std::string nm = "Z" + std::to_string(k); Vector3d x = want.back().p + e.d * 4;
        f.g->appendWaypoint(mk(nm, x)); want.push_back({nm, x});
        snprintf(q, sizeof q, " [append %s at %.3f]", vs(x).c_str(), last.t);
      } else if (e.kind == 1 || e.kind == 3) {
        DynamicWaypoint::Deque none;
        std::vector<std::pair<std::string, Vector3d>> batch;
        for (size_t j = 0; j < want.size(); j++) {
          if (e.kind == 1 ? j != e.wp % want.size() : (int)(j % 2) != e.wp % 2) continue;
          auto& w = want[j];
          Vector3d x = w.p + e.d * (1 - 0.5 * (j % 3 == 2));
          w.alt.push_back(w.p); w.p = x; const Vector3d was = w.alt.back();
          batch.push_back({w.n, x});
          auto c = find(ws, w.n);
          w.late |= c && c->getTime() < now + 1.0;     // moved when it is (all but) reached
          double tw = c ? c->getTime() : 1e9;
          if (tw > now + 0.15) for (auto& o : ws) if (!o.getName().empty() && o.getTime() > now + 12 * comp_ms * 1e-3 + 0.2) must_swap = true;   // else there is nothing left to fly to afterwards
          // while a named waypoint is less than five computation times (twice the duration of the last
          // computation) away, moves are applied in place at once; the bend also reaches the passes
          // at other waypoints
          bool zone = false;
          for (auto& o : ws) if (!o.getName().empty() && o.getTime() > now && o.getTime() - now < 10 * comp_ms * 1e-3 * 1.2 + 0.2) zone = true;
          if (busy) zone = true;               // it is applied to a trajectory that is not known yet
          if (busy || (tw > now - 0.1 && zone)) {
            if (busy) for (auto& o : want) o.slack += (o.n == w.n ? 0.15 : 1.0) * (x - was).norm();
            near_move = true; near_d = std::max(near_d, (tw < now + 0.3 ? 2 : 1) * (x - was).norm());
            double sg = (tw - last.t) / 3;
            for (auto& o : want) if (o.n != w.n) if (auto co = find(ws, o.n)) { double z = (co->getTime() - tw) / sg; o.slack += 1.3 * (x - was).norm() * std::exp(-z * z / 2); }
          }
        }
        if (e.kind == 1) f.g->modifyWaypoint(batch[0].first, batch[0].second, true); else f.g->modifyWaypoints(batch);
        moves = true;
        snprintf(q, sizeof q, " [%s %s to %s at %.3f]", e.kind == 1 ? "move" : "move several from", batch[0].first.c_str(), vs(batch[0].second).c_str(), last.t);
      } else {
        std::vector<Wp> l; Vector3d x = last.r.position; std::vector<Target> nw;
        for (int i = 0; i < 3; i++) { x += Vector3d(2, 0, 0) + e.d * (i + 1); l.push_back({std::string("S") + std::to_string(k) + char('a' + i), x}); nw.push_back({l.back().name, x}); }
        f.g->setWaypoints(mkv(l)); want = nw; set_from = flown.size();
        snprintf(q, sizeof q, " [set at %.3f]", last.t);
      }
      desc += q; k++;
    }
    f.g->updateVehiclePosition(last.r.position);
    mc::sleep_ms(asked ? 25 : asking ? dt * 100 : dt * 1e3);   // (the worker looks every 10 ms)
    Sample s = f.eval();
    MC_CHECK("not finite", fin(s.r), "%s: the reference at %.3f is not finite", desc.c_str(), s.t);
    flown.push_back({last.r.position, s.r.position});
    double step = (s.r.position - last.r.position).norm(), el = s.t - last.t;
    double t1 = f.g->getMinTime(), Tn = f.g->getMaxTime();
    bool swapped = std::abs(t1 - tmin) > 1e-9 || std::abs(Tn - T) > 1e-9;
    // the new trajectory may also arrive with one of the queries after the evaluation
    const bool after = swapped && f.g->getTimeCompensation() != s.comp;
    const bool switching = (swapped && !after) || carry;
    carry = after;
    double tau = s.t + s.comp;
    double v = std::max(last.r.velocity.norm(), s.r.velocity.norm());
    // the new trajectory's speed just before the present moment
    for (double x = 0.01; x < (switching ? 0.36 : el + 0.005); x += 0.02) v = std::max(v, f.at(tau - x).velocity.norm());
    if (swapped) swaps++;
    arrived = after || (swapped && !taken && query);
    if (switching) {
      bool st = find(f.wps(), "stitching_point");
      double near = 1e9; for (double x = t1; x < std::min(Tn, t1 + 4); x += 0.02) near = std::min(near, (f.at(x, true).position - last.r.position).norm());
      char key[80]; snprintf(key, sizeof key, "%s_%s", st ? "st" : "scr", !moves ? "nomove" : near_move ? "near" : "far");
      stat((std::string("off_") + key).c_str(), near, desc.c_str());
      stat((std::string("jump_") + key).c_str(), step / std::max(0.05, v) - el, desc.c_str());
      if (st && !near_move) {
        // the new trajectory starts with a state of motion that the old one had
        auto r0 = f.at(t1 + 2e-6);
        double best = 1e9, ep = 0, evl = 0, ea = 0;
        for (size_t i = f.log.size() - 1; i-- > 0 && f.log[i].t > s.t - 2.5;) {
          auto& o = f.log[i].r;
          double m = (o.position - r0.position).norm() + (o.velocity - r0.velocity).norm() + (o.acceleration - r0.acceleration).norm();
          if (m < best) { best = m; ep = (o.position - r0.position).norm(); evl = (o.velocity - r0.velocity).norm(); ea = (o.acceleration - r0.acceleration).norm(); }
        }
        stat((std::string("state_p_") + key).c_str(), ep, desc.c_str());
        stat((std::string("state_v_") + key).c_str(), evl, desc.c_str());
        stat((std::string("state_a_") + key).c_str(), ea, desc.c_str());
        MC_CHECK("the new path starts with another motion", ep < 1e-3 && evl < 1e-2 && ea < 0.1 + 0.05 * r0.acceleration.norm(), "%s: the trajectory that takes over at %.3f starts at %s with velocity %s and acceleration %s: no recent reference is like that (%.2g, %.2g, %.2g off the nearest)", desc.c_str(), s.t, vs(r0.position).c_str(), vs(r0.velocity).c_str(), vs(r0.acceleration).c_str(), ep, evl, ea);
      }
      double lim = 0.16, off = 0.1;
      if (near_move) { off += 1.5 * near_d; lim += near_d / std::max(0.3, v); }
      MC_CHECK("jump at the switch", step <= v * (el + lim) + 0.02 + 0.2 * near_d, "%s: at %.3f the reference jumps by %.3f m from %s to %s (speed %.3f)", desc.c_str(), s.t, step, vs(last.r.position).c_str(), vs(s.r.position).c_str(), v);
      MC_CHECK("the new path leaves the old one", near <= off, "%s: at %.3f the new path starts %.3f m away from the reference %s", desc.c_str(), s.t, near, vs(last.r.position).c_str());
    } else if (!after) {
      stat(near_move ? "stepnear" : "step", step - v * el, desc.c_str());
      MC_CHECK("jump", step <= v * el * 1.02 + 2e-3 + near_d, "%s: without a new trajectory the reference jumps by %.3f m at %.3f from %s to %s (speed %.3f)", desc.c_str(), step, s.t, vs(last.r.position).c_str(), vs(s.r.position).c_str(), v);
    }
    tmin = t1; T = Tn; last = s;
    if (k == rs.size() && f.idle() && s.t + s.comp > Tn + 0.3) { ended = true; break; }
  }
  MC_CHECK("never ends", ended, "%s: the flight does not end (time %.3f, end %.3f)", desc.c_str(), last.t + last.comp, T);
  stat("swaps", swaps, desc.c_str());
  MC_CHECK("no switch", swaps >= (must_swap ? 1 : 0) && swaps <= (long)rs.size(), "%s: %ld new trajectories for %zu requests", desc.c_str(), swaps, rs.size());
  // visited in order, beginning with the flight (or the last set)
  size_t pos = set_from;
  for (auto& w : want) {
    double best = 1e9; size_t at = pos;
    double tol = 0.06 + (near_move ? 0.05 : 0) + (w.late ? 0.15 : 0) + w.slack;
    for (size_t i = pos; i < flown.size(); i++) {
      double d = seg_dist(flown[i].first, flown[i].second, w.p);
      for (auto& q : w.alt) d = std::min(d, seg_dist(flown[i].first, flown[i].second, q));
      if (d < best - 1e-3) { best = d; at = i; }
      if (best < tol && d > best + 0.3) break;
    }
    stat(near_move ? "missed_near" : moves ? "missed_far" : "missed_nomove", best - w.slack, (desc + " " + w.n).c_str());
    MC_CHECK("waypoint not visited", best <= tol, "%s: %s at %s is not visited in its turn, the reference comes as near as %.3f m", desc.c_str(), w.n.c_str(), vs(w.p).c_str(), best);
    pos = at;
  }
  const Target& z = want.back();
  double fe = (last.r.position - z.p).norm();
  stat("final", fe, desc.c_str());
  bool old = false; for (auto& q : z.alt) if ((last.r.position - q).norm() < 0.03) old = true;
  MC_CHECK("end", fe < 0.03 + z.slack || (z.late && old), "%s: the flight ends at %s, %.3f m from the last waypoint %s", desc.c_str(), vs(last.r.position).c_str(), fe, vs(z.p).c_str());
  MC_CHECK("rest", last.r.velocity.norm() < 1e-9 && last.r.acceleration.norm() < 1e-9, "%s: not at rest after the end", desc.c_str());
  mc::observe("%s %.6f %ld", name.c_str(), T, swaps);
}

int main(int argc, char** argv) {
  quiet();
  return mc::run_main(argc, argv, "C07", [](bool th) {
    std::vector<mc::Scenario> v;
    std::vector<Path> ps;
    { Path p; p.speed = 1.5;
      p.name = "L"; p.w = {{"A", {4, 0, 1}}, {"B", {8, 3, 2}}, {"C", {12, 0, 1}}}; ps.push_back(p);
      p.name = "S"; p.w = {{"A", {6, 0, 1}}}; ps.push_back(p);
      p.name = "U"; p.speed = 1; p.w = {{"A", {0.5, 3, 1}}, {"B", {3, 3, 3}}, {"C", {3, -0.5, 1}}}; ps.push_back(p);
      p.name = "F"; p.speed = 4; p.w = {{"A", {5, 0, 1}}, {"B", {25, 8, 2}}, {"C", {30, 0, 9}}, {"E", {40, 0, 12}}}; ps.push_back(p);
      if (th) { p.name = "M"; p.speed = 0.7; p.w = {{"A", {2, -0.5, 1}}, {"B", {3.5, 0.5, 1}}, {"C", {5, 0.5, 2}}, {"E", {6, 2, 2}}, {"G", {6, 4, 2}}}; ps.push_back(p); } }
    auto P = std::make_shared<std::vector<Path>>(ps);
    auto add = [&](const char* g, int pi, double c, const std::vector<Req>& r, double dt, const std::string& tag) {
      mc::Scenario s; s.name = std::string(g) + "/" + (*P)[pi].name + "_c" + std::to_string((int)c) + tag; s.bound = 0; s.horizon_s = 4000;
      s.params = "requests in flight, vehicle following the reference";
      s.body = [P, pi, r, c, dt, nm = s.name] { flight((*P)[pi], r, c, dt, nm); };
      v.push_back(s);
    };
    const Vector3d d0(0.3, 0.9, 0.2);
    std::vector<double> cs{10, 40, 90, 200};
    // many requests in one flight
    for (int pi = 0; pi < (int)ps.size(); pi++) for (double c : {10.0, 40.0, 90.0}) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int gap = 0; gap < 3; gap++) {
      if (ps[pi].w.size() == 1 && (a == 3 || b == 3)) continue;
      if (!th && (a + b + gap + pi) % 2) continue;
      std::vector<Req> r; for (int i = 0; i < (th ? 9 : 6); i++) r.push_back({0.06 + i * (gap == 0 ? 0.03 : gap == 1 ? 0.09 : 0.21), i % 2 ? b : a, i, i % 3 ? d0 : Vector3d(-0.2, 0.5, -0.3)});
      char t[40]; snprintf(t, sizeof t, "_g%d_k%dk%d", gap, a, b);
      add(th ? "tmany" : "many", pi, c, r, 0.0473, t);
    }
    // the new trajectory arrives with a query between two evaluations, the next request follows at once
    for (int pi = 0; pi < (int)ps.size(); pi++) for (double c : {40.0, 200.0, 400.0}) for (int i = 0; i < (th ? 24 : 6); i++) for (int a : {0, 2}) for (int b = 0; b < 4; b++) for (int q = 1; q <= 2; q++) {
      if (ps[pi].w.size() == 1 && b == 3) continue;
      char t[40]; snprintf(t, sizeof t, "_%d_k%dk%d_q%d", i, a, b, q);
      mc::Scenario s; s.name = std::string(th ? "ttaken/" : "taken/") + ps[pi].name + "_c" + std::to_string((int)c) + t; s.bound = 0; s.horizon_s = 4000;
      s.params = "requests in flight, vehicle following the reference, queries between the evaluations";
      std::vector<Req> r{{(i + 0.5) / (th ? 27. : 7.), a, i, d0}, {-1, b, i + 1, Vector3d(-0.2, 0.6, -0.4)}};
      s.body = [P, pi, r, c, q, nm = s.name] { flight((*P)[pi], r, c, 0.0473, nm, q); };
      v.push_back(s);
    }
    for (int pi = 0; pi < (int)ps.size(); pi++) {
      int nw = ps[pi].w.size();
      auto kinds = [&](int i) { std::vector<std::pair<int, int>> o{{0, 0}, {2, 0}}; for (int w = 0; w < nw; w++) o.push_back({1, w}); if (nw > 1) { o.push_back({3, 0}); o.push_back({3, 1}); } (void)i; return o; };
      for (double c : cs) {
        int N = th ? 96 : 24;
        for (int i = 0; i <= N + N / 12; i++) for (auto [kd, w] : kinds(i)) {
          char t[40]; snprintf(t, sizeof t, "_k%dw%d_%d", kd, w, i);
          add(th ? "tone" : "one", pi, c, {{i / (double)N, kd, w, d0}}, 0.0473, t);
        }
        if (!th) {
          if (c == 90) continue;
          for (int i = 0; i < 5; i++) for (int j = 0; j < 3; j++) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
            if ((i + j + a + b + pi) % 3 || (nw == 1 && (a == 3 || b == 3))) continue;
            double at = 0.04 + i * 0.18, gap = j == 0 ? 0 : j == 1 ? 0.012 : 0.15;
            char t[40]; snprintf(t, sizeof t, "_%d_%d_k%dk%d", i, j, a, b);
            add("two", pi, c, {{at, a, i, d0}, {at + gap, b, i + j, Vector3d(-0.2, 0.6, -0.4)}}, 0.0473, t);
          }
        } else {
          for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) for (auto [a, wa] : kinds(i)) for (auto [b, wb] : kinds(j)) {
            double at = 0.02 + i * 0.12, gap = j == 0 ? 0 : j == 1 ? 0.02 : j == 2 ? 0.06 : 0.3;
            char t[50]; snprintf(t, sizeof t, "_%d_%d_k%dw%dk%dw%d", i, j, a, wa, b, wb);
            add("ttwo", pi, c, {{at, a, wa, d0}, {at + gap, b, wb, Vector3d(-0.2, 0.6, -0.4)}}, 0.0473, t);
          }
          for (int i = 0; i <= 24; i++) for (auto [kd, w] : kinds(i)) for (double dt : {0.0119, 0.1013}) {
            char t[60]; snprintf(t, sizeof t, "_k%dw%d_%d_dt%g", kd, w, i, dt);
            add("trate", pi, c, {{i / 24.0, kd, w, d0}}, dt, t);
          }
        }
      }
    }
    return v;
  });
}
