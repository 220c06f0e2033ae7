#pragma once
#include <cmath>
#include <iostream>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "dynamic_trajectory.hpp"
#include "mc.h"

namespace dtg = dynamic_traj_generator;
using dtg::DynamicTrajectory;
using dtg::DynamicWaypoint;
using Eigen::Vector3d;
namespace mtg = mav_trajectory_generation;

struct Wp { std::string name; Vector3d p; };
inline DynamicWaypoint mk(const std::string& name, const Vector3d& p) {
  mtg::Vertex v(3);
  v.addConstraint(mtg::derivative_order::POSITION, Eigen::VectorXd(p));
  DynamicWaypoint w(v, name);
  return w;
}
inline DynamicWaypoint::Vector mkv(const std::vector<Wp>& l) {
  DynamicWaypoint::Vector v;
  for (auto& w : l) v.emplace_back(mk(w.name, w.p));
  return v;
}
inline void quiet() { std::cout.rdbuf(nullptr); }
inline std::string names(const DynamicWaypoint::Deque& d) {
  std::string s;
  for (auto& w : d) { s += w.getName().empty() ? "_" : w.getName(); s += ' '; }
  return s;
}
