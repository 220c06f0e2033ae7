// C17: sampling.
#include "trajalpha.h"
#include "refrot.h"
#include "mav_trajectory_generation/trajectory_sampling.h"
using mav_msgs::EigenTrajectoryPoint;

// does a sampled state carry exactly the trajectory's values at time t?
static bool state_ok(en::Ctx& c, const char* sig, const Traj& r, double t, const EigenTrajectoryPoint& s, R eps, bool yaw_untouched) {
  int D = r[0].dims.size(); bool any = false; char why[200] = "no segment";
  for (auto& q : locate(r, t, eps)) {
    const Seg& g = r[q.first]; bool ok = true;
    R te = 1e-13L * (1 + fabsl(t)) + eps;
    auto val = [&](int d, int k) { return ref::at(g.dims[d], q.second, k); };
    auto tol = [&](int d, int k) { return 1e-10L * (ref::mag(g.dims[d], std::max(fabsl(q.second), (R)1e-3), k) + 1e-9L) + 2 * te * ref::mag(g.dims[d], fabsl(q.second) + te, k + 1); };
    const Eigen::Vector3d* f[5] = {&s.position_W, &s.velocity_W, &s.acceleration_W, &s.jerk_W, &s.snap_W};
    for (int k = 0; k < 5 && ok; k++) for (int d = 0; d < 3 && ok; d++) if (!(fabsl((*f[k])[d] - val(d, k)) <= tol(d, k))) { ok = false; snprintf(why, sizeof why, "derivative %d dimension %d is %.12g, expected %.12Lg", k, d, (*f[k])[d], val(d, k)); }
    if (ok && D == 4) {
      rot::V y{{0, 0, val(3, 0)}};
      if (rot::diff(rot::fromq(s.orientation_W_B), rot::expm(y)) > 1e-11L + tol(3, 0)) { ok = false; snprintf(why, sizeof why, "orientation is not the yaw %.12Lg", y.x[2]); }
      if (ok && (s.angular_velocity_W.head<2>().norm() != 0 || fabsl(s.angular_velocity_W[2] - val(3, 1)) > tol(3, 1))) { ok = false; snprintf(why, sizeof why, "yaw rate %.12g, expected %.12Lg", s.angular_velocity_W[2], val(3, 1)); }
      if (ok && (s.angular_acceleration_W.head<2>().norm() != 0 || fabsl(s.angular_acceleration_W[2] - val(3, 2)) > tol(3, 2))) { ok = false; snprintf(why, sizeof why, "yaw acceleration %.12g, expected %.12Lg", s.angular_acceleration_W[2], val(3, 2)); }
      if (ok && s.degrees_of_freedom != mav_msgs::DOF4) { ok = false; snprintf(why, sizeof why, "not marked as 4 degrees of freedom"); }
    } else if (ok && D == 6) {
      rot::V r0{{val(3, 0), val(4, 0), val(5, 0)}}, r1{{val(3, 1), val(4, 1), val(5, 1)}}, r2{{val(3, 2), val(4, 2), val(5, 2)}};
      R m0 = tol(3, 0) + tol(4, 0) + tol(5, 0), n1 = rot::norm(r1), n2 = rot::norm(r2), tt = tol(3, 1) + tol(4, 1) + tol(5, 1) + tol(3, 2) + tol(4, 2) + tol(5, 2);
      bool small = rot::norm(r0) < 1.1e-3L;
      if (rot::diff(rot::fromq(s.orientation_W_B), rot::expm(r0)) > 1e-11L + 4 * m0) { ok = false; snprintf(why, sizeof why, "orientation differs from the rotation vector"); }
      R dw = rot::diff(s.angular_velocity_W, rot::omega(r0, r1, r2));
      if (ok && dw > 1e-9L * (1 + n1 + n1 * n1 * n1 * n1 * n1 * 1e-3L) + (small ? 7e-4L * n1 : 0) + tt) { ok = false; snprintf(why, sizeof why, "angular velocity is off by %.3Lg", dw); }
      R da = rot::diff(s.angular_acceleration_W, rot::omegadot(r0, r1, r2));
      if (ok && da > 1e-5L * (1 + n1 + n2 + powl(n1 + sqrtl(n2), 6) * 1e-4L) + (small ? 1e-3L * (n2 + n1 * n1) : 0) + tt * (1 + n1)) { ok = false; snprintf(why, sizeof why, "angular acceleration is off by %.3Lg (|r'|=%.3Lg |r''|=%.3Lg)", da, n1, n2); }
      if (ok && s.degrees_of_freedom != mav_msgs::DOF6) { ok = false; snprintf(why, sizeof why, "not marked as 6 degrees of freedom"); }
    } else if (ok && yaw_untouched) {
      if (s.degrees_of_freedom != mav_msgs::DOF4) { ok = false; snprintf(why, sizeof why, "not marked as 4 degrees of freedom"); }
    }
    if (ok && std::llabs(s.time_from_start_ns - llroundl((R)t * 1e9L)) > 1 + (long long)(1e-13L * t * 1e9L)) { ok = false; snprintf(why, sizeof why, "time stamp %lld ns", (long long)s.time_from_start_ns); }
    any |= ok;
  }
  return c.check(sig, any, "at %.15g: %s", t, why);
}

int main(int argc, char** argv) {
  google::InitGoogleLogging("c17"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C17", [](en::Ctx& c) {
    const bool T = c.thorough;
    std::vector<Traj> al;
    const std::vector<std::vector<double>> tss[3] = {{{1}, {0.3}, {2.5}}, {{1, 1}, {0.25, 0.5}, {0.1, 0.7}, {1.0 / 3, 1}}, {{1, 0.5, 0.25}, {0.1, 0.2, 0.3}, {0.7, 0.05, 1}}};
    for (int D : {1, 2, 3, 4, 5, 6}) for (int K = 1; K <= 3; K++) for (int N : {6, 10}) for (auto& ts : tss[K - 1]) for (int seed = 0; seed < (T ? 4 : 1); seed++) al.push_back(mkref(D, K, N, seed + D, ts));
    for (int K : T ? std::vector<int>{5, 6, 8, 12, 20, 33} : std::vector<int>{5, 12}) for (int D : {3, 4, 6}) for (int pat = 0; pat < 3; pat++) al.push_back(mkref(D, K, 10, K + pat, many_times(K, pat)));
    for (int D : {3, 4}) { al.push_back(mkref(D, 3, 6, D, {100, 40.5, 60.25})); if (T) al.push_back(mkref(D, 2, 6, D, {1000, 0.3})); }
    std::vector<double> dts{0.01, 0.1, 0.125, 0.25, 0.3, 1.0 / 3, 0.7, 1, 5};
    if (T) dts.insert(dts.end(), {0.003, 0.05, 0.2, 0.5, 0.9, 1e-3});
    auto ends = [&](const Traj& r) { std::vector<double> e{0}; double a = 0; for (auto& s : r) { e.push_back(a + 0.37 * s.T); e.push_back(a += s.T); } e.back() = mkt(r).getMaxTime(); if (r.size() > 3 || a > 50) { std::vector<double> f{e[0], e[1], e[2], e[e.size() / 2], e[e.size() - 2], e.back()}; return f; } return e; };
    auto count_ok = [&](const char* sig, double t0, double t1, double dt, size_t n) {
      double eps = 1e-9 * (1 + std::fabs(t1)); double lo = (t1 - t0 - eps) / dt, hi = (t1 - t0 + eps) / dt;   // samples at t0 + i dt, i < n; the end itself may or may not be included
      bool ok = t1 <= t0 ? n <= 1 : ((double)n >= lo && (double)n <= hi + 1);
      return c.check(sig, ok, "%zu samples of [%.9g,%.9g] every %.9g", n, t0, t1, dt);
    };
    c.group("range");
    for (auto& r : al) for (double dt : dts) if (c.take()) {
      c.describe("sample every %.6g: %s", dt, str(r).c_str()); c.nontrivial();
      Trajectory t = mkt(r); auto e = ends(r); R eps = 1e-11L; int D = t.D();
      for (double t0 : e) for (double t1 : e) {
        for (int k : {0, 1, 2, 4}) {
          std::vector<Eigen::VectorXd> v, v2; std::vector<double> st{99};
          v.resize(3); t.evaluateRange(t0, t1, dt, k, &v, &st); t.evaluateRange(t0, t1, dt, k, &v2); c.op(2);
          c.obs((long)v.size());
          if (!c.check("times-per-sample", st.size() == v.size() && v2.size() == v.size(), "%zu samples, %zu times, %zu without times", v.size(), st.size(), v2.size())) continue;
          count_ok("count", t0, t1, dt, v.size());
          for (size_t i = 0; i < v.size(); i++) {
            c.check("time", std::fabs(st[i] - (t0 + i * dt)) <= 1e-11 * (1 + t1), "sample %zu of [%.9g,%.9g] is reported at %.15g", i, t0, t1, st[i]);
            c.check("inside", st[i] >= t0 && st[i] <= t1 + 1e-9, "sample %zu at %.15g lies outside [%.9g,%.9g]", i, st[i], t0, t1);
            if (!c.check("value", value_ok(r, st[i], k, v[i], eps) && v2[i] == v[i], "derivative %d, sample %zu of [%.9g,%.9g] at %.15g is %s", k, i, t0, t1, st[i], str(v[i]).c_str())) break;
          }
        }
        mav_msgs::EigenTrajectoryPointVector s(2), sd; bool ok = mtg::sampleTrajectoryInRange(t, t0, t1, dt, &s); c.op();
        if (D < 3) { c.check("low-dimension-refused", !ok, "accepted"); continue; }
        if (t1 < t0) { c.check("reversed", !ok || s.empty(), "a reversed range gave %zu samples", s.size()); continue; }
        if (!c.check("accepted", ok, "[%.9g,%.9g] refused", t0, t1)) continue;
        count_ok("state-count", t0, t1, dt, s.size());
        size_t step = s.size() > 40 ? s.size() / 20 : 1;
        for (size_t i = 0; i < s.size(); i += step) if (!state_ok(c, "state", r, t0 + i * dt, s[i], eps, false)) break;
        if (t1 >= t0 && mtg::sampleTrajectoryStartDuration(t, t0, t1 - t0, dt, &sd)) {
          c.op(); c.check("start-duration", sd.size() + 1 >= s.size() && sd.size() <= s.size() + 1, "%zu samples, %zu by range", sd.size(), s.size());
          for (size_t i = 0; i < std::min(s.size(), sd.size()); i++) if (!c.check("start-duration-same", sd[i].position_W == s[i].position_W && sd[i].velocity_W == s[i].velocity_W && sd[i].time_from_start_ns == s[i].time_from_start_ns, "sample %zu differs", i)) break;
        } else c.check("start-duration-refused", t0 + (t1 - t0) > t.getMaxTime(), "[%.9g,%.9g] refused by start and duration", t0, t1);
      }
      if (D >= 3) {
        mav_msgs::EigenTrajectoryPointVector w, s; bool a = mtg::sampleWholeTrajectory(t, dt, &w), b = mtg::sampleTrajectoryInRange(t, 0, t.getMaxTime(), dt, &s); c.op(2);
        c.check("whole", a && b && w.size() == s.size(), "whole %zu, range %zu", w.size(), s.size());
        for (size_t i = 0; i < std::min(w.size(), s.size()); i++) if (!c.check("whole-same", w[i].position_W == s[i].position_W && w[i].snap_W == s[i].snap_W && w[i].time_from_start_ns == s[i].time_from_start_ns && w[i].orientation_W_B.coeffs() == s[i].orientation_W_B.coeffs(), "sample %zu differs", i)) break;
        double T1 = t.getMaxTime();
        for (auto& o : std::vector<std::pair<double, double>>{{-0.1, T1}, {0, T1 + 0.1}, {-1, -0.5}, {T1 + 1, T1 + 2}, {-1e-6, T1}}) {
          mav_msgs::EigenTrajectoryPointVector x; bool ok = mtg::sampleTrajectoryInRange(t, o.first, o.second, dt, &x); c.op();
          c.check("outside-refused", !ok, "[%g,%g] of a trajectory of %g accepted", o.first, o.second, T1);
        }
        for (double bad : {0.0, -0.1}) { mav_msgs::EigenTrajectoryPointVector x; bool ok = mtg::sampleTrajectoryInRange(t, 0, T1, bad, &x); c.op(); c.check("bad-interval", !ok || x.size() <= 1, "an interval of %g gave %zu samples", bad, x.size()); }
      } else { mav_msgs::EigenTrajectoryPointVector w; c.check("low-dimension-refused", !mtg::sampleWholeTrajectory(t, dt, &w), "accepted"); c.op(); }
    }
    c.group("at-time");
    for (auto& r : al) if (c.take()) {
      c.describe("sample at times of %s", str(r).c_str()); c.nontrivial();
      Trajectory t = mkt(r); bool dy = dyadic(r); R eps = dy ? 0 : 1e-13L * (1 + total(r)); int D = t.D();
      for (double q : probe_times(r)) if (q >= 0 && q <= t.getMaxTime()) {
        EigenTrajectoryPoint s; s.orientation_W_B = Eigen::Quaterniond(0.5, 0.5, 0.5, 0.5); s.angular_velocity_W << 7, 8, 9; s.timestamp_ns = 77;
        bool ok = mtg::sampleTrajectoryAtTime(t, q, &s); c.op();
        if (D < 3) { c.check("low-dimension-refused", !ok, "accepted"); continue; }
        if (!c.check("accepted", ok, "%.17g refused", q)) continue;
        state_ok(c, "state", r, q, s, eps, true);
        if (D == 3) c.check("orientation-left", s.orientation_W_B.w() == 0.5 && s.angular_velocity_W[0] == 7, "orientation changed by a trajectory without one");
        c.check("stamp-left", s.timestamp_ns == 77, "time stamp changed");
        c.obs(s.position_W[0]); c.obs(s.snap_W[2]);
      }
      for (double q : {-1e-9, -1.0, t.getMaxTime() + 1e-9, t.getMaxTime() + 3}) { EigenTrajectoryPoint s; c.check("outside-refused", !mtg::sampleTrajectoryAtTime(t, q, &s), "%.12g accepted", q); c.op(); }
      Segment g = mks(r[0]); Traj one{r[0]};
      for (double f : {0.0, 0.25, 0.5, 1.0}) {
        EigenTrajectoryPoint s; bool ok = mtg::sampleSegmentAtTime(g, f * g.getTime(), &s); c.op();
        if (D < 3) c.check("segment-low-dimension-refused", !ok, "accepted"); else if (c.check("segment-accepted", ok, "refused")) state_ok(c, "segment-state", one, f * g.getTime(), s, 0, true);
      }
      for (double q : {-1e-9, g.getTime() + 1e-9}) { EigenTrajectoryPoint s; c.check("segment-outside-refused", !mtg::sampleSegmentAtTime(g, q, &s), "%.12g accepted", q); c.op(); }
    }
  });
}
