// C23: DynamicWaypoint as a value.  Every operation sequence, with copies taken at every point; the original is
// judged after each step against a model of the promised state, the copies against the original.
#include <array>
#include <deque>
#include <memory>
#include "dynamic_waypoint.hpp"
#include "enumr.h"
using dynamic_traj_generator::DynamicWaypoint; typedef Eigen::Vector3d V3; typedef mav_trajectory_generation::Vertex Vertex;
static std::string s3(const V3& v) { char b[80]; snprintf(b, sizeof b, "(%.9g %.9g %.9g)", v[0], v[1], v[2]); return b; }
static V3 comp(DynamicWaypoint& w, double t, int d = 0) { return w.trajectoryCompensation(t, d); }

struct Model {
  std::string name; int index = -1; double t = 0; V3 orig, cur, rest = V3::Zero(), sum = V3::Zero(); std::map<int, V3> con; bool mods = false;
};
struct Op { const char* n; int kind; V3 p; double a; };
enum { MOVE, TIME, RESETCUR, RESET, CON, NAME, INDEX, SHIFT };

// the observable state of w, as numbers
static std::vector<double> see(DynamicWaypoint& w, const std::vector<double>& ts) {
  std::vector<double> o; auto add = [&](const V3& v) { o.insert(o.end(), {v[0], v[1], v[2]}); };
  o.push_back(w.getIndex()); o.push_back(w.getTime()); o.push_back(w.hasModifiers()); add(w.getOriginalPosition()); add(w.getCurrentPosition());
  Vertex v = w.getVertex(); for (int d = 0; d <= 4; d++) { Eigen::VectorXd c; bool h = v.getConstraint(d, &c); o.push_back(h); if (h) for (int i = 0; i < c.size(); i++) o.push_back(c[i]); }
  for (double t : ts) for (int d = 0; d < 3; d++) add(comp(w, t, d));
  for (char c : w.getName()) o.push_back(c);
  return o;
}
static bool same(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(a[i])))) return false;
  return true;
}
int main(int argc, char** argv) {
  std::cout.rdbuf(nullptr);
  return en::run_main(argc, argv, "C23", [](en::Ctx& c) {
    const bool T = c.thorough;
    const V3 A(1, 2, 3);
    // a move's "a" is the time of the request relative to the waypoint's time; 1000: no time given
    std::vector<Op> ops = {
      {"move+x,3s", MOVE, V3(0.5, 0, 0), -3}, {"move all,1.2s", MOVE, V3(-0.3, 0.25, 1.5), -1.2}, {"move y,notime", MOVE, V3(0, -0.75, 0), 1000}, {"move all,notime", MOVE, V3(0.4, 0.4, -0.4), 1000},
      {"move tiny,2s", MOVE, V3(0.013, -0.013, 0.3), -2}, {"move tiny2,2s", MOVE, V3(0.013, 0.012, 0), -2}, {"move late", MOVE, V3(0.6, 0.6, 0), 0.5}, {"move at", MOVE, V3(0, 0, 0.6), 0},
      {"time=5", TIME, V3::Zero(), 5}, {"time=8.25", TIME, V3::Zero(), 8.25}, {"resetcur", RESETCUR, V3::Zero(), 0}, {"reset", RESET, V3(7, -1, 0.5), 0},
      {"con0", CON, V3(-2, 0.25, 9), 0}, {"con1", CON, V3(0.1, 0.2, 0.3), 1}, {"con2", CON, V3(0, 0, -1), 2},
      {"name", NAME, V3::Zero(), 0}, {"index=4", INDEX, V3::Zero(), 4}, {"shift-2", SHIFT, V3::Zero(), -2},
    };
    std::vector<double> base; for (double x : {0.0, 0.05, 0.3, 0.7, 1.0, 1.7, 3.1, 5.3, 20.0}) { base.push_back(x); if (x > 0) base.push_back(-x); }
    auto run = [&](const std::vector<int>& seq, double t0, int ctor, bool withvel) {
      Vertex vx(3); vx.addConstraint(0, A); if (withvel) vx.addConstraint(1, V3(0.5, 0, -0.5));
      DynamicWaypoint w = ctor == 0 ? DynamicWaypoint(vx, "wp") : DynamicWaypoint(vx, 3, "wp");
      Model m; m.name = "wp"; m.index = ctor == 0 ? -1 : 3; m.orig = m.cur = A; m.con[0] = A; if (withvel) m.con[1] = V3(0.5, 0, -0.5);
      if (t0 > 0) { w.setTime(t0); m.t = t0; }
      std::deque<DynamicWaypoint> clones; std::vector<std::string> how;
      auto fork = [&](int step) {
        clones.emplace_back(w); how.push_back("copy construction before step " + std::to_string(step));
        Vertex other(3); other.addConstraint(0, V3(9, 9, 9)); other.addConstraint(3, V3(1, 1, 1)); DynamicWaypoint d(other, "dirty"); d.setTime(2); d.setCurrentPosition(V3(8, 8, 8), 0.5);
        d = w; clones.push_back(d); how.push_back("assignment before step " + std::to_string(step));
        std::vector<DynamicWaypoint> v; for (int i = 0; i < 3; i++) v.insert(v.begin(), i == 1 ? w : d); v.erase(v.begin()); clones.push_back(v[0]); how.push_back("vector move before step " + std::to_string(step));
      };
      auto apply = [&](DynamicWaypoint& x, const Op& o, const V3& cur, double t) {
        switch (o.kind) {
          case MOVE: if (o.a == 1000) x.setCurrentPosition(cur + o.p); else x.setCurrentPosition(cur + o.p, t + o.a); break;
          case TIME: x.setTime(o.a); break;
          case RESETCUR: x.resetWaypointWithCurrentPosition(); break;
          case RESET: x.resetWaypoint(o.p); break;
          case CON: x.setConstraint((int)o.a, o.p); break;
          case NAME: x.setName("other"); break;
          case INDEX: x.setIndex((int)o.a); break;
          case SHIFT: x.displaceIndex((int)o.a); break;
        }
      };
      for (size_t st = 0; st <= seq.size(); st++) {
        if (seq.size() <= 8 || st % (seq.size() / 4) == 0) fork((int)st);
        if (st == seq.size()) break;
        const Op& o = ops[seq[st]];
        bool notime = o.kind == MOVE && (o.a == 1000 || m.t + o.a <= 0);
        // grid: fixed offsets from the waypoint's time and the places where a correction of known width matters
        std::vector<double> off = base; double sg = o.kind == MOVE && !notime ? -o.a / 3 : 0;
        if (sg > 0) for (double k : {0.5, 1.0, 2.0, 2.9, 3.4, 3.6, 5.0}) { off.push_back(k * sg); off.push_back(-k * sg); }
        DynamicWaypoint before = w; const double tb = m.t; const V3 cur = m.cur;
        apply(w, o, cur, tb); c.op();
        for (auto& x : clones) { apply(x, o, cur, tb); c.op(); }
        V3 eff = V3::Zero();
        switch (o.kind) {
          case MOVE: { V3 d = o.p + m.rest; for (int i = 0; i < 3; i++) { if (std::fabs(d[i]) < 0.02) m.rest[i] = d[i]; else { m.rest[i] = 0; eff[i] = d[i]; } }
            m.cur = cur + o.p; m.con[0] = m.cur; m.mods = true; if (notime || sg > 0) m.sum += eff; else { eff.setZero(); } break; }
          case TIME: m.t = o.a; break;
          case RESET: case CON: if (o.kind == CON && o.a != 0) { m.con[(int)o.a] = o.p; break; } m.cur = o.p;   // fallthrough
          case RESETCUR: m.orig = m.cur; m.con[0] = m.cur; m.mods = false; m.sum.setZero(); m.rest.setZero(); break;
          case NAME: m.name = "other"; break;
          case INDEX: m.index = (int)o.a; break;
          case SHIFT: m.index += (int)o.a; break;
        }
        const char* n = o.n;
        c.check("name", w.getName() == m.name, "after %s: %s, expected %s", n, w.getName().c_str(), m.name.c_str());
        c.check("index", w.getIndex() == m.index, "after %s: %d, expected %d", n, w.getIndex(), m.index);
        c.check("time", w.getTime() == m.t, "after %s: %g, expected %g", n, w.getTime(), m.t);
        c.check("has-modifiers", w.hasModifiers() == m.mods, "after %s: %d", n, w.hasModifiers());
        c.check("current-position", (w.getCurrentPosition() - m.cur).norm() < 1e-12, "after %s: %s, expected %s", n, s3(w.getCurrentPosition()).c_str(), s3(m.cur).c_str());
        c.check("original-position", (w.getOriginalPosition() - m.orig).norm() < 1e-12, "after %s: %s, expected %s", n, s3(w.getOriginalPosition()).c_str(), s3(m.orig).c_str());
        Vertex v = w.getVertex();
        for (int d = 0; d <= 5; d++) { Eigen::VectorXd k; bool h = v.getConstraint(d, &k), e = m.con.count(d); c.check("constraint-set", h == e, "after %s: derivative %d %s", n, d, h ? "constrained" : "free");
          if (h && e) c.check("constraint", k.size() == 3 && (V3(k) - m.con[d]).norm() < 1e-12, "after %s: derivative %d: %s, expected %s", n, d, s3(k).c_str(), s3(m.con[d]).c_str()); }
        // the sum of the moves that can have an effect, at the waypoint's own time
        c.check("peak", (comp(w, m.t) - m.sum).norm() < 1e-9, "after %s: correction %s at the waypoint, expected %s", n, s3(comp(w, m.t)).c_str(), s3(m.sum).c_str());
        for (int d = 1; d < 2; d++) c.check("peak-flat", comp(w, m.t, 1).norm() < 1e-9, "after %s: correction has velocity %s at the waypoint", n, s3(comp(w, m.t, 1)).c_str());
        for (double x : off) for (int d = 0; d < 3; d++) {
          V3 got = comp(w, m.t + x, d), was = comp(before, tb + x, d), exp = was;
          if (o.kind == RESETCUR || o.kind == RESET || (o.kind == CON && o.a == 0)) exp.setZero();
          if (o.kind == MOVE && sg > 0) {
            double g = std::fabs(x) > 3.5 * sg ? 0 : std::exp(-x * x / (2 * sg * sg)), s2 = sg * sg;
            double f = d == 0 ? g : d == 1 ? -x / s2 * g : (x * x / s2 - 1) / s2 * g; exp += f * eff;
          } else if (o.kind == MOVE && notime) {   // width not promised: a symmetric bump inside the default window
            if (d == 0) for (int i = 0; i < 3; i++) { double b = got[i] - was[i], mirror = comp(w, m.t - x)[i] - comp(before, tb - x)[i];
              c.check("bump-symmetric", std::fabs(b - mirror) < 1e-9, "after %s: axis %d, %g before and %g after the waypoint", n, i, mirror, b);
              c.check("bump-bounded", b * eff[i] >= 0 && std::fabs(b) <= std::fabs(eff[i]) + 1e-12, "after %s: axis %d, correction %g of a move by %g", n, i, b, eff[i]);
              if (std::fabs(x) > 5.3) c.check("bump-local", std::fabs(b) < 1e-12, "after %s: axis %d, correction %g at %g s", n, i, b, x); }
            continue;
          }
          c.check(d == 0 ? "correction" : d == 1 ? "correction-velocity" : "correction-acceleration", (got - exp).norm() <= 1e-9 * (1 + exp.norm()), "after %s: derivative %d at %+g s: %s, expected %s", n, d, x, s3(got).c_str(), s3(exp).c_str());
        }
        // derivatives belong to the correction itself (away from the cut-offs)
        for (double x : {-0.31, -0.12, 0.07, 0.2}) for (int d = 0; d < 2; d++) { const double h = 1e-5; V3 num = (comp(w, m.t + x + h, d) - comp(w, m.t + x - h, d)) / (2 * h), an = comp(w, m.t + x, d + 1);
          c.check("derivative", (num - an).norm() < 1e-4 * (1 + an.norm() + comp(w, m.t + x, d).norm() * 10), "after %s: derivative %d at %+g s: %s, difference quotient %s", n, d + 1, x, s3(an).c_str(), s3(num).c_str()); }
        std::vector<double> ts; for (double x : off) ts.push_back(m.t + x);
        auto a = see(w, ts);
        for (double q : a) c.obs(q);
        for (size_t i = 0; i < clones.size(); i++) c.check("copy", same(a, see(clones[i], ts)), "a copy (%s) differs from the original after %s", how[i].c_str(), n);
      }
      // the original is not affected by what is done to a copy
      std::vector<double> ts{m.t - 1, m.t, m.t + 0.4}; auto a = see(w, ts);
      for (auto& x : clones) { x.setCurrentPosition(V3(50, 50, 50), m.t - 1); x.setTime(77); x.setName("zz"); x.setConstraint(1, V3(4, 4, 4)); x.displaceIndex(9); }
      c.check("copy-independent", same(a, see(w, ts)), "changing a copy changed the original");
    };
    const int N = (int)ops.size();
    for (int depth = 0; depth <= (T ? 4 : 3); depth++) {
      c.group(("depth" + std::to_string(depth)).c_str());
      long n = 1; for (int i = 0; i < depth; i++) n *= N;
      for (long k = 0; k < n; k++) for (int cfg = 0; cfg < (depth <= 2 ? 4 : 1); cfg++) if (c.take()) {
        std::vector<int> seq; long q = k; for (int i = 0; i < depth; i++, q /= N) seq.push_back(q % N);
        c.describe("time %s, %s:", cfg == 1 ? "0" : "12.5", cfg == 2 ? "indexed" : cfg == 3 ? "with velocity" : "plain"); for (int i : seq) c.describe(" [%s]", ops[i].n);
        if (depth) c.nontrivial();
        run(seq, cfg == 1 ? 0 : 12.5, cfg == 2, cfg == 3);
      }
    }
    // long histories: nothing is lost or damped however often an object is used
    c.group("long");
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int cfg = 0; cfg < (T ? 2 : 1); cfg++) if (c.take()) {
      std::vector<int> seq; for (int k = 0; k < (T ? 20 : 10); k++) { seq.push_back(i); seq.push_back(j); }
      if (i == j && T) for (int k = 0; k < 60; k++) seq.push_back(i);
      c.describe("time %s, %zu operations alternating [%s] and [%s]", cfg ? "0" : "12.5", seq.size(), ops[i].n, ops[j].n); c.nontrivial();
      run(seq, cfg ? 0 : 12.5, false, false);
    }
  });
}
