// Builders and printers shared by the enumeration harnesses of the trajectory library.
#pragma once
#include <glog/logging.h>
#include "mav_trajectory_generation/trajectory.h"
#include "enumr.h"
#include "refpoly.h"
namespace mtg = mav_trajectory_generation;
using mtg::Polynomial; using mtg::Segment; using mtg::Trajectory; using mtg::Vertex; using mtg::Extremum;
using ref::P; using ref::R;
inline std::string str(const P& p) { std::string s = "["; char b[40]; for (size_t i = 0; i < p.size(); i++) { snprintf(b, sizeof b, i ? " %.4g" : "%.4g", (double)p[i]); s += b; } return s + "]"; }
inline std::string str(const Eigen::VectorXd& v) { P p; for (int i = 0; i < v.size(); i++) p.push_back(v[i]); return str(p); }
inline Eigen::VectorXd ev(const P& p) { Eigen::VectorXd v(p.size()); for (size_t i = 0; i < p.size(); i++) v[i] = (double)p[i]; return v; }
struct Seg { double T; std::vector<P> dims; };          // a segment as the reference sees it
typedef std::vector<Seg> Traj;
inline std::string str(const Seg& s) { char b[40]; snprintf(b, sizeof b, "{T=%.4g", s.T); std::string o = b; for (auto& p : s.dims) o += " " + str(p); return o + "}"; }
inline std::string str(const Traj& t) { std::string o; for (auto& s : t) o += str(s); return o; }
inline Segment mks(const Seg& s) {
  Segment g(s.dims[0].size(), s.dims.size());
  for (size_t d = 0; d < s.dims.size(); d++) g[d].setCoefficients(ev(s.dims[d]));
  g.setTime(s.T); return g;
}
inline Trajectory mkt(const Traj& t) { Segment::Vector v; for (auto& s : t) v.push_back(mks(s)); Trajectory r; r.setSegments(v); return r; }
inline R total(const Traj& t) { R s = 0; for (auto& g : t) s += g.T; return s; }
// smooth-step shapes used in real trajectories (rest to rest) of n coefficients: 4: cubic, 6: quintic, 8, 10
inline P step(int n) {
  switch (n) { case 2: return {0, 1}; case 4: return {0, 0, 3, -2}; case 6: return {0, 0, 0, 10, -15, 6}; case 8: return {0, 0, 0, 0, 35, -84, 70, -20};
    case 10: return {0, 0, 0, 0, 0, 126, -420, 540, -315, 70}; default: return {0, 1}; }
}
inline P pad(P p, int n) { if ((int)p.size() < n) p.resize(n, 0); return p; }
