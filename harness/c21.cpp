// C21: rotation utilities and trajectory points.
#include <new>
#include "enumr.h"
#include "refrot.h"
#include "mav_msgs/eigen_mav_msgs.hpp"
using Eigen::Vector3d; using Eigen::Quaterniond; using Eigen::Matrix3d;
using namespace mav_msgs;
static std::string S(const Vector3d& v) { char b[90]; snprintf(b, sizeof b, "(%.9g,%.9g,%.9g)", v[0], v[1], v[2]); return b; }
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
int main(int argc, char** argv) {
  return en::run_main(argc, argv, "C21", [](en::Ctx& c) {
    const bool T = c.thorough;
    std::vector<Vector3d> axes;
    for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) axes.push_back(Vector3d(x, y, z).normalized());
    axes.push_back(Vector3d(1, 2, 3).normalized()); axes.push_back(Vector3d(-0.01, 1, 0.02).normalized()); axes.push_back(Vector3d(3, -1, 0.5).normalized()); axes.push_back(Vector3d(1e-4, 0, -1).normalized());
    std::vector<double> angles{0, 1e-9, 1e-7, 1e-5, 5e-4, 9.9e-4, 1.01e-3, 2e-3, 0.01, 0.1, 0.5, 1, M_PI / 2, 2, 2.5, 3, M_PI - 0.02, M_PI - 0.0101, M_PI - 0.0099, M_PI - 1e-3, M_PI - 1e-4, M_PI - 1e-6, M_PI - 1e-9, M_PI, M_PI + 1e-9, M_PI + 1e-6, M_PI + 1e-3, M_PI + 0.5, 5, 2 * M_PI - 0.01, 2 * M_PI, 2 * M_PI + 0.3, 7.5, 3 * M_PI, 12, 50};
    if (T) for (double a = 0.05; a < 13; a += 0.05) angles.push_back(a);
    c.group("rotation-vector");
    for (auto& a : axes) for (double th : angles) if (c.take()) {
      Vector3d r = a * th; c.describe("rotation vector %s, angle %.12g", S(r).c_str(), th); c.nontrivial();
      Matrix3d m; matrixFromRotationVector(r, &m); c.op(); rot::M ref = rot::expm(rot::v(r));
      c.check("matrix", rot::diff(m, ref) <= 1e-13L * (1 + th), "the matrix is off by %.3Lg", rot::diff(m, ref));
      c.check("is-rotation", isRotationMatrix(m), "not accepted as a rotation matrix"); c.op();
      Vector3d b(9, 9, 9); bool ok = vectorFromRotationMatrix(m, &b); c.op();
      if (c.check("vector-found", ok, "no rotation vector found")) {
        {
          rot::M back = rot::expm(rot::v(b)); long double tol = std::fabs(wrap(th)) < 3e-6 ? 2e-6L : 1e-7L;
          c.check("round-trip", rot::diff(back, ref) <= tol, "vector %s gives a matrix off by %.3Lg", S(b).c_str(), rot::diff(back, ref));
          c.check("half-turn", b.norm() <= M_PI + 1e-6, "angle %.9g exceeds half a turn", b.norm());
          if (th < M_PI - 1e-5) c.check("same-vector", (b - r).norm() <= 2e-6, "vector %s came back as %s", S(r).c_str(), S(b).c_str());
        }
      }
      Quaterniond q(m); Vector3d e(9, 9, 9); getEulerAnglesFromQuaternion(q, &e); c.op();
      { rot::M x = rot::expm({{e[0], 0, 0}}), y = rot::expm({{0, e[1], 0}}), z = rot::expm({{0, 0, e[2]}}); rot::M all = rot::mul(z, rot::mul(y, x));
        long double tol = std::fabs(std::fabs(e[1]) - M_PI / 2) < 1e-6 ? 10 : 1e-7L;      // at the singularity roll and yaw are not separately defined
        c.check("euler", std::isfinite(e.sum()) && (tol > 1 || rot::diff(all, ref) <= tol), "euler angles %s give a matrix off by %.3Lg", S(e).c_str(), rot::diff(all, ref));
        c.check("euler-ranges", std::fabs(e[0]) <= M_PI + 1e-12 && std::fabs(e[1]) <= M_PI / 2 + 1e-12 && std::fabs(e[2]) <= M_PI + 1e-12, "euler angles %s", S(e).c_str());
        double y1 = yawFromQuaternion(q); c.op(); c.check("yaw-is-euler", std::fabs(wrap(y1 - e[2])) < 1e-12, "yaw %.12g, euler yaw %.12g", y1, e[2]);
        c.check("yaw-sign-invariant", std::fabs(wrap(yawFromQuaternion(Quaterniond(-q.w(), -q.x(), -q.y(), -q.z())) - y1)) < 1e-12, "q and -q give different yaw");
      }
      Matrix3d sk; skewMatrixFromVector(r, &sk); c.op();
      for (auto& o : axes) c.check("skew", (sk * o - r.cross(o)).norm() <= 1e-13 * (1 + th), "skew matrix is not the cross product");
      Vector3d us; bool u = vectorFromSkewMatrix(sk, &us); c.op(); c.check("unskew", u && us == r, "unskew gave %s", S(us).c_str());
      Matrix3d bad = sk; bad(0, 1) += 1e-3; c.check("unskew-refused", !vectorFromSkewMatrix(bad, &us) && us.norm() == 0, "a matrix that is not skew-symmetric was accepted"); c.op();
      for (int i = 0; i < 3; i++) { Matrix3d n = m; n.col(i) *= -1; c.check("reflection-refused", !isRotationMatrix(n) && !vectorFromRotationMatrix(n, &us), "a reflection was accepted"); n = m; n.row(i) *= 1.001; c.check("scaled-refused", !isRotationMatrix(n) && !vectorFromRotationMatrix(n, &us), "a scaled matrix was accepted"); c.op(2); }
      c.obs(m(0, 1)); c.obs(b[0]); c.obs(e[2]);
    }
    c.group("angular-rates");
    std::vector<Vector3d> rates{{0, 0, 0}, {1, 0, 0}, {0, -2, 0}, {0, 0, 3}, {1, 1, 1}, {0.3, -0.7, 0.2}, {-2, 1, 0.5}};
    std::vector<double> rang{0, 1e-6, 5e-4, 9.9e-4, 1.01e-3, 3e-3, 0.02, 0.3, 1, 2, M_PI, 4, 6, 2 * M_PI, 8};
    if (T) for (double a = 0.1; a < 10; a += 0.1) rang.push_back(a);
    for (auto& a : axes) for (double th : rang) if (c.take()) {
      Vector3d r = a * th; c.describe("rates at rotation vector %s", S(r).c_str()); c.nontrivial();
      for (auto& d : rates) {
        Vector3d w = omegaFromRotationVector(r, d); c.op(); bool small = th < 1.001e-3;
        long double e = rot::diff(w, rot::omega(rot::v(r), rot::v(d), {{0, 0, 0}}));
        c.check("velocity", e <= 1e-9L + (small ? 6e-4L * d.norm() : 0), "rates %s: angular velocity %s is off by %.3Lg", S(d).c_str(), S(w).c_str(), e);
        for (auto& dd : rates) {
          Vector3d al = omegaDotFromRotationVector(r, d, dd); c.op();
          long double e2 = rot::diff(al, rot::omegadot(rot::v(r), rot::v(d), rot::v(dd)));
          c.check("acceleration", e2 <= 2e-6L + (small ? 6e-4L * (dd.norm() + d.squaredNorm()) : 0), "rates %s %s: angular acceleration %s is off by %.3Lg", S(d).c_str(), S(dd).c_str(), S(al).c_str(), e2);
          c.obs(al[1]);
        }
      }
    }
    c.group("yaw");
    for (double y = -12; y <= 12; y += T ? 0.03125 : 0.25) for (double y2 : {0.0, 1.0, -2.5, M_PI, 100.0}) if (c.take()) {
      c.describe("yaw %.6g, second %.6g", y, y2); c.nontrivial();
      Quaterniond q = quaternionFromYaw(y); c.op(2);
      c.check("quaternion", rot::diff(rot::fromq(q), rot::expm({{0, 0, y}})) < 1e-13L, "quaternion of the yaw is wrong");
      c.check("round-trip", std::fabs(wrap(yawFromQuaternion(q) - y)) < 1e-12, "yaw came back as %.12g", yawFromQuaternion(q));
      EigenTrajectoryPoint p(5, {1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 15}, Quaterniond(0.5, 0.5, 0.5, 0.5), {16, 17, 18}, {19, 20, 21}, MavActuation::DOF6); p.timestamp_ns = 99;
      auto rest = [&](const EigenTrajectoryPoint& z) { return z.timestamp_ns == 99 && z.time_from_start_ns == 5 && z.position_W == Vector3d(1, 2, 3) && z.velocity_W == Vector3d(4, 5, 6) && z.acceleration_W == Vector3d(7, 8, 9) && z.jerk_W == Vector3d(10, 11, 12) && z.snap_W == Vector3d(13, 14, 15) && z.degrees_of_freedom == MavActuation::DOF6; };
      EigenTrajectoryPoint a = p; a.setFromYaw(y); c.op();
      c.check("set-yaw", rest(a) && std::fabs(wrap(a.getYaw() - y)) < 1e-12 && a.angular_velocity_W == p.angular_velocity_W && a.angular_acceleration_W == p.angular_acceleration_W, "setting the yaw changed something else");
      a.setFromYaw(y2); c.check("set-yaw-again", std::fabs(wrap(a.getYaw() - y2)) < 1e-10, "second yaw %.12g", a.getYaw());
      a = p; a.setFromYawRate(y); c.op(); c.check("set-rate", rest(a) && a.angular_velocity_W == Vector3d(0, 0, y) && a.getYawRate() == y && a.orientation_W_B.coeffs() == p.orientation_W_B.coeffs() && a.angular_acceleration_W == p.angular_acceleration_W, "setting the yaw rate changed something else");
      a = p; a.setFromYawAcc(y); c.op(); c.check("set-acc", rest(a) && a.angular_acceleration_W == Vector3d(0, 0, y) && a.getYawAcc() == y && a.orientation_W_B.coeffs() == p.orientation_W_B.coeffs() && a.angular_velocity_W == p.angular_velocity_W, "setting the yaw acceleration changed something else");
      EigenOdometry o({1, 2, 3}, Quaterniond(0.5, 0.5, -0.5, 0.5), {4, 5, 6}, {7, 8, 9}); EigenOdometry o2 = o; o2.setFromYaw(y); c.op(2);
      c.check("odometry-yaw", std::fabs(wrap(o2.getYaw() - y)) < 1e-12 && o2.velocity_B == o.velocity_B && o2.angular_velocity_B == o.angular_velocity_B && o2.position_W == o.position_W, "odometry yaw");
      o2 = o; o2.setFromYawRate(y); c.check("odometry-rate", o2.angular_velocity_B == Vector3d(0, 0, y) && o2.getYawRate() == y && o2.orientation_W_B.coeffs() == o.orientation_W_B.coeffs(), "odometry yaw rate");
      EigenOdometry def; c.check("odometry-default", def.timestamp_ns == -1 && def.position_W.norm() == 0 && def.velocity_B.norm() == 0 && def.getYaw() == 0, "odometry defaults");
    }
    c.group("points");
    for (auto& a : axes) for (double th : {0.0, 0.4, M_PI / 2, M_PI, 4.0}) if (c.take()) {
      c.describe("transform about %s by %.6g", S(a).c_str(), th); c.nontrivial();
      rot::M Rm = rot::expm(rot::v(Vector3d(a * th))); Matrix3d Re = rot::e(Rm); Vector3d tr(1, -2, 0.5);
      Eigen::Affine3d A = Eigen::Translation3d(tr) * Eigen::Quaterniond(Eigen::AngleAxisd(th, a));
      for (auto& b : axes) for (double ph : {0.0, 1.0, 3.0}) {
        rot::M Q = rot::expm(rot::v(Vector3d(b * ph))); EigenTrajectoryPoint p(5, {1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 15}, Quaterniond(rot::e(Q)), {16, 17, 18}, {19, 20, 21}, MavActuation::DOF6); p.timestamp_ns = 42;
        EigenTrajectoryPoint t = A * p; c.op();
        auto near = [](const Vector3d& x, const Vector3d& y) { return (x - y).norm() < 1e-10; };
        c.check("transform", near(t.position_W, Re * p.position_W + tr) && near(t.velocity_W, Re * p.velocity_W) && near(t.acceleration_W, Re * p.acceleration_W) && near(t.jerk_W, Re * p.jerk_W) && near(t.snap_W, Re * p.snap_W) && near(t.angular_velocity_W, Re * p.angular_velocity_W) && near(t.angular_acceleration_W, Re * p.angular_acceleration_W), "a vector is not transformed correctly");
        c.check("transform-orientation", rot::diff(rot::fromq(t.orientation_W_B), rot::mul(Rm, Q)) < 1e-10L, "the orientation is not transformed correctly");
        c.check("transform-rest", t.timestamp_ns == 42 && t.time_from_start_ns == 5 && t.degrees_of_freedom == MavActuation::DOF6, "other fields changed");
        EigenOdometry o; o.orientation_W_B = Quaterniond(rot::e(Q)); Vector3d v = a * 3; o.setVelocityWorld(v); c.op(2);
        c.check("velocity-world", near(o.getVelocityWorld(), v) && near(rot::e(Q) * o.velocity_B, v), "world velocity came back as %s", S(o.getVelocityWorld()).c_str());
        c.obs(t.position_W[0]);
      }
    }
    if (c.take()) {
      c.describe("constructors on dirty memory"); c.nontrivial();
      alignas(64) unsigned char buf[sizeof(EigenTrajectoryPoint)];
      memset(buf, 0x5a, sizeof buf); auto* p = new (buf) EigenTrajectoryPoint(5, {1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 15}, Quaterniond(0.5, 0.5, 0.5, 0.5), {16, 17, 18}, {19, 20, 21}, MavActuation::DOF6); c.op();
      c.check("fields", p->time_from_start_ns == 5 && p->position_W == Vector3d(1, 2, 3) && p->velocity_W == Vector3d(4, 5, 6) && p->acceleration_W == Vector3d(7, 8, 9) && p->jerk_W == Vector3d(10, 11, 12) && p->snap_W == Vector3d(13, 14, 15) && p->angular_velocity_W == Vector3d(16, 17, 18) && p->angular_acceleration_W == Vector3d(19, 20, 21) && p->degrees_of_freedom == MavActuation::DOF6 && p->orientation_W_B.x() == 0.5, "a field is not the one given");
      c.check("invalid-stamp", p->timestamp_ns < 0, "a point without a time stamp claims the stamp %lld", (long long)p->timestamp_ns);
      memset(buf, 0x5a, sizeof buf); p = new (buf) EigenTrajectoryPoint(5, {1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 15}, Quaterniond(0.5, 0.5, 0.5, 0.5), {16, 17, 18}); c.op();
      c.check("fields-short", p->time_from_start_ns == 5 && p->angular_velocity_W == Vector3d(16, 17, 18) && p->angular_acceleration_W.norm() == 0 && p->degrees_of_freedom == MavActuation::DOF4 && p->timestamp_ns < 0, "defaults of the short form");
      memset(buf, 0x5a, sizeof buf); p = new (buf) EigenTrajectoryPoint(); c.op();
      c.check("default", p->timestamp_ns == -1 && p->time_from_start_ns == 0 && p->position_W.norm() + p->velocity_W.norm() + p->acceleration_W.norm() + p->jerk_W.norm() + p->snap_W.norm() + p->angular_velocity_W.norm() + p->angular_acceleration_W.norm() == 0 && p->orientation_W_B.w() == 1 && p->getYaw() == 0 && p->degrees_of_freedom == MavActuation::DOF4, "defaults");
    }
    c.group("time-and-forces");
    for (double s : {0.0, 1e-9, 0.1, 0.29, 0.3, 1.0, 1.5, 12345.678901234, -0.25, -3.1}) if (c.take()) {
      c.describe("seconds %.12g", s); c.nontrivial(); int64_t n = secondsToNanoseconds(s); c.op(2);
      c.check("nanoseconds", std::fabs((double)n - s * 1e9) <= 1.0 + std::fabs(s) * 1e-6, "%lld", (long long)n);
      c.check("seconds", std::fabs(nanosecondsToSeconds(n) - s) <= 1.1e-9 + std::fabs(s) * 1e-15, "%.12g", nanosecondsToSeconds(n));
    }
    for (int i = 0; i < (int)axes.size(); i++) if (c.take()) {
      c.describe("rotor speeds, axis %d", i); c.nontrivial();
      Eigen::MatrixXd al(6, 4); for (int r = 0; r < 6; r++) for (int k = 0; k < 4; k++) al(r, k) = (r + 1) * 0.3 - k * k * 0.7 + r * k * 0.1;
      Vector3d J(0.1, 0.2, 0.4), w = axes[i] * 2, wd = axes[(i * 7 + 3) % axes.size()] * 3, acc = axes[(i * 5 + 1) % axes.size()] * 9.81; Eigen::VectorXd out(2); double m = 1.7;
      getSquaredRotorSpeedsFromAllocationAndState(al, J, m, w, wd, acc, &out); c.op();
      double tq[4] = {J[0] * wd[0] + (J[2] - J[1]) * w[1] * w[2], J[1] * wd[1] + (J[0] - J[2]) * w[2] * w[0], J[2] * wd[2] + (J[1] - J[0]) * w[0] * w[1], m * 9.81};
      c.check("rotor-count", out.size() == 6, "%ld rotors", (long)out.size());
      for (int r = 0; r < 6 && out.size() == 6; r++) { double e = 0; for (int k = 0; k < 4; k++) e += al(r, k) * tq[k]; c.check("rotor-speed", std::fabs(out[r] - e) < 1e-10, "rotor %d %.12g, expected %.12g", r, out[r], e); }
    }
    for (double lat : {0.0, M_PI / 4, M_PI / 2, -M_PI / 2, 0.8}) for (double h : {0.0, 100.0, 3000.0}) if (c.take()) {
      c.describe("gravity at %.3g m, %.3g rad", h, lat); double g = MagnitudeOfGravity(h, lat); c.op(); c.nontrivial();
      double s = std::sin(lat) * std::sin(lat), s2 = std::sin(2 * lat) * std::sin(2 * lat);
      c.check("gravity", std::fabs(g - 9.780327 * (1 + 0.0053024 * s - 0.0000058 * s2)) < 4e-6 * h + 1e-9 && (h == 0 || g < MagnitudeOfGravity(0, lat)), "%.9g", g);
    }
  });
}
