// C13: the nonlinear optimiser.
#include "optref.h"
#include "mav_trajectory_generation/polynomial_optimization_nonlinear.h"
using namespace oref;
typedef mtg::NonlinearOptimizationParameters Par;
struct Limit { int der; double val; };
struct Case { const char* list; Vertex::Vector v; std::vector<double> T; int D, der; Par p; std::vector<Limit> lim; };
static const char* mname(int m) { static const char* n[] = {"T^2", "T", "mellinger", "T^2 and free derivatives", "T and free derivatives", "unknown"}; return n[m]; }
static R maximum(const Traj& r, int der) { R mx = 0; for (auto& s : r) { P m; for (auto& p : s.dims) { P q = ref::deriv(p, der); m = ref::add(m, ref::mul(q, q)); } R lo, hi; ref::minmax(m, 0, s.T, lo, hi); mx = std::max(mx, hi); } return sqrtl(std::max((R)0, mx)); }
struct Parts { R J, M, time, soft; R max[8]; R total() const { return J + time + soft; } };
static Parts parts(const Case& k, const Traj& r, double cap = 1e12) {
  Parts o; o.J = cost(r, k.der); o.M = cost_mag(r, k.der); R tt = 0; for (auto& s : r) tt += s.T;
  bool lin = k.p.time_alloc_method == Par::kRichterTime || k.p.time_alloc_method == Par::kRichterTimeAndConstraints;
  o.time = k.p.time_penalty * (lin ? tt : tt * tt); o.soft = 0;
  for (size_t i = 0; i < k.lim.size(); i++) { o.max[i] = maximum(r, k.lim[i].der); o.soft += std::min((R)cap, expl((o.max[i] - k.lim[i].val) / k.lim[i].val * k.p.soft_constraint_weight)); }
  if (!k.p.use_soft_constraints) o.soft = 0;
  return o;
}
static long n_same, n_better, n_capped; static R worst_feas; static std::map<int, long> results; static std::map<int, long> byalg;
template <int N> static bool constraints(en::Ctx& c, const char* w, mtg::PolynomialOptimizationNonLinear<N>& o, const Case& k, Traj* out, bool bounded = true) {
  constexpr int h = N / 2; char sig[64]; auto S = [&](const char* x) { snprintf(sig, sizeof sig, "%s-%s", w, x); return sig; };
  Trajectory t; o.getTrajectory(&t); if (!c.check(S("shape"), t.K() == (int)k.T.size() && t.D() == k.D && t.N() == N, "%d segments, %d dimensions, %d coefficients", t.K(), t.D(), t.N())) return false;
  *out = read(t); std::string what; bool fin = true, low = true; std::string low_s;
  for (size_t i = 0; i < out->size(); i++) { auto& s = (*out)[i]; for (auto& p : s.dims) for (R x : p) fin &= std::isfinite((double)x); low &= s.T >= (bounded ? std::min(mtg::kOptimizationTimeLowerBound, k.T[i]) * (1 - 1e-12) : 1e-6); char b[40]; snprintf(b, sizeof b, " %.17g", s.T); low_s += b; }
  if (!c.check(S("finite"), fin, "coefficients are not finite")) return false;
  c.check(S("times"), low, "a segment takes less than the minimum: %s", low_s.c_str());
  R e = constraint_error(*out, k.v, h, &what); c.check(S("constraints"), e < 1e-6L, "%s violated: relative error %.3Lg", what.c_str(), e);
  c.obs((double)e < 1e-6); for (auto& s : *out) c.obs(s.T);
  return true;
}
// the solution's parts as reported
template <int N> static void reported(en::Ctx& c, mtg::PolynomialOptimizationNonLinear<N>& o, const Case& k, const Traj& r, int result) {
  mtg::OptimizationInfo i = o.getOptimizationInfo(); Parts p = parts(k, r), q = parts(k, r, 1e9);
  auto rel = [](R a, R b, R scale) { return fabsl(a - b) <= 1e-9L * (fabsl(b) + scale) + 1e-12L; };
  c.check("reason", i.stopping_reason == result, "reported reason %d, result %d", i.stopping_reason, result);
  c.check("duration", i.optimization_time >= 0 && std::isfinite(i.optimization_time), "took %g s", i.optimization_time);
  c.check("iterations", i.n_iterations >= 1 && i.n_iterations <= k.p.max_iterations + (k.p.time_alloc_method == Par::kMellingerOuterLoop ? 30 : 0), "%d evaluations, at most %d", i.n_iterations, k.p.max_iterations);
  c.check("cost", rel(o.getCost(), p.J, p.M), "getCost %.9g, integral %.9Lg", o.getCost(), p.J);
  R sens = 0; for (size_t j = 0; j < k.lim.size(); j++) sens += q.soft * k.p.soft_constraint_weight * 1e-4L * p.max[j] / k.lim[j].val;
  // the total compares methods: always with the squared time
  R tt = 0; for (auto& s : r) tt += s.T; R soft = 0; for (size_t j = 0; j < k.lim.size(); j++) soft += std::min((R)1e9, expl((p.max[j] - k.lim[j].val) / k.lim[j].val * k.p.soft_constraint_weight)); R all = p.J + tt * tt * k.p.time_penalty + soft; sens = soft * k.p.soft_constraint_weight * 1e-4L;
  for (size_t j = 0; j < k.lim.size(); j++) sens *= 1 + p.max[j] / k.lim[j].val;
  double tot = o.getTotalCostWithSoftConstraints(); c.check("total", fabsl(tot - all) <= 1e-9L * (all + p.M) + sens + 1e-9L, "total cost %.12g, expected %.12Lg + %.12Lg + %.12Lg", tot, p.J, tt * tt * k.p.time_penalty, soft); c.obs(tot);
  if (k.p.time_alloc_method == Par::kMellingerOuterLoop) return;
  c.check("part-trajectory", rel(i.cost_trajectory, p.J, p.M), "reported %.9g, is %.9Lg", i.cost_trajectory, p.J);
  c.check("part-time", rel(i.cost_time, p.time, 0), "reported %.9g, is %.9Lg", i.cost_time, p.time);
  R s2 = 0; for (size_t j = 0; j < k.lim.size(); j++) s2 += std::min((R)1e12, p.soft) * k.p.soft_constraint_weight * 1e-4L * (1 + p.max[j] / k.lim[j].val);
  c.check("part-limits", fabsl(i.cost_soft_constraints - p.soft) <= s2 + 1e-9L, "reported %.9g, is %.9Lg", i.cost_soft_constraints, p.soft);
  for (size_t j = 0; j < k.lim.size(); j++) { bool has = i.maxima.count(k.lim[j].der); double m = has ? i.maxima[k.lim[j].der].value : -1; c.check("maxima", has && fabsl(m - p.max[j]) <= 1e-5L * (p.max[j] + 1e-6L), "derivative %d: reported maximum %.9g, is %.9Lg", k.lim[j].der, m, p.max[j]); }
}
template <int N> static int solve(en::Ctx& c, mtg::PolynomialOptimizationNonLinear<N>& o, const Case& k, Traj* r) {
  bool ok = o.setupFromVertices(k.v, k.T, k.der); for (auto& l : k.lim) ok &= o.addMaximumMagnitudeConstraint(l.der, l.val); ok &= o.solveLinear(); c.op(2 + k.lim.size());
  if (!c.check("setup", ok, "refused")) return 0;
  Traj s0; if (!constraints<N>(c, "linear", o, k, &s0, false)) return 0;
  int res = o.optimize(); c.op(); results[res]++; c.obs(res);
  const bool mell = k.p.time_alloc_method == Par::kMellingerOuterLoop;
  if (!constraints<N>(c, "optimised", o, k, r)) return res;
  // the solver may also stop at what rounding leaves it
  c.check("result", res > 0 || res == nlopt::FAILURE || res == nlopt::ROUNDOFF_LIMITED, "optimisation fails with %d", res);
  reported<N>(c, o, k, *r, res);
  Parts a = parts(k, s0), b = parts(k, *r); R eps = 1e-9L * (a.M + b.M) + 1e-9L;
  if (mell) {
    bool huge = true; for (auto& l : k.lim) huge &= l.val > 1e5;
    // scaling in time carries over to the solution where nothing but positions and rest is prescribed
    bool plain = true; for (auto& g : *r) plain &= N <= 6 || g.T >= 0.4; for (auto& v : k.v) for (int q = 1; q < N / 2; q++) { Eigen::VectorXd x; if (v.getConstraint(q, &x)) plain &= x.norm() == 0; }
    if (plain) for (auto& l : k.lim) { R m = maximum(*r, l.der); c.check("scaled", m <= l.val * 1.002L, "derivative %d reaches %.9Lg, limit %g", l.der, m, l.val); }
    if (huge) c.check("not-worse", b.J <= a.J + eps, "cost %.9Lg, at the start %.9Lg", b.J, a.J);
  } else {
    bool feas0 = true; if (!k.p.use_soft_constraints) for (size_t j = 0; j < k.lim.size(); j++) feas0 &= a.max[j] <= k.lim[j].val;
    R sens = a.soft >= 0 ? a.soft * k.p.soft_constraint_weight * 1e-6L : 0;
    const bool times = k.p.time_alloc_method == Par::kSquaredTime || k.p.time_alloc_method == Par::kRichterTime;
    if (feas0 && (k.p.use_soft_constraints || (res > 0 && times))) c.check("not-worse", b.total() <= a.total() + eps + sens, "cost %.9Lg + %.9Lg + %.9Lg, at the start %.9Lg + %.9Lg + %.9Lg", b.J, b.time, b.soft, a.J, a.time, a.soft);
    // free derivatives at the vertices are kept within the limits on them, or where they started
    if (!times) for (auto& l : k.lim) if (l.der < N / 2) for (size_t i = 0; i < k.v.size(); i++) if (!k.v[i].hasConstraint(l.der)) for (int d = 0; d < k.D; d++) {
      auto at = [&](const Traj& t) { return fabsl(i < t.size() ? ref::at(t[i].dims[d], 0, l.der) : ref::at(t[i - 1].dims[d], t[i - 1].T, l.der)); }; R x = at(*r), y = at(s0), sc = 0; for (auto& g : *r) sc = std::max(sc, datascale(g.dims[d], g.T) / powl(g.T, l.der));
      c.check("vertex-limit", x <= std::max((R)l.val, y) + 1e-6L * (1 + sc), "derivative %d of vertex %zu is %.6Lg in dimension %d, limit %g, at the start %.6Lg", l.der, i, x, d, l.val, y); }
    if (b.total() < a.total()) n_better++; else n_same++;
    // a solver for hard limits may fail to find its way in, but does not leave them
    if (!k.p.use_soft_constraints && feas0 && res > 0 && res != nlopt::MAXEVAL_REACHED && times) for (size_t j = 0; j < k.lim.size(); j++) { R v = b.max[j] - k.lim[j].val; worst_feas = std::max(worst_feas, v); c.check("feasible", v <= k.p.inequality_constraint_tolerance + 1e-6L, "derivative %d reaches %.9Lg, limit %g, from %.9Lg at the start", k.lim[j].der, b.max[j], k.lim[j].val, a.max[j]); }
  }
  return res;
}
template <int N> static void one(en::Ctx& c, const Case& k, bool twice) {
  c.describe("%s, dimension %d, %d coefficients, method %s, algorithm %d, penalty %g, %s, weight %g, at most %d evaluations, f_rel %g, times", k.list, k.D, N, mname(k.p.time_alloc_method), (int)k.p.algorithm, k.p.time_penalty, k.p.use_soft_constraints ? "soft" : "hard", k.p.soft_constraint_weight, k.p.max_iterations, k.p.f_rel); for (double t : k.T) c.describe(" %g", t); for (auto& l : k.lim) c.describe(", derivative %d up to %g", l.der, l.val);
  c.nontrivial();
  mtg::PolynomialOptimizationNonLinear<N> o(k.D, k.p); Traj r; int res = solve<N>(c, o, k, &r);
  if (!twice || r.empty()) return;
  // the same problem gives the same answer
  mtg::PolynomialOptimizationNonLinear<N> o2(k.D, k.p); Traj r2; int res2 = solve<N>(c, o2, k, &r2); bool same = res == res2 && r.size() == r2.size(); for (size_t i = 0; same && i < r.size(); i++) same = r[i].T == r2[i].T && r[i].dims == r2[i].dims;
  c.check("repeatable", same, "the same problem gives another result");
  if (k.lim.empty()) {   // also on an object that has solved another problem before (limits belong to the object, so there are none)
    mtg::PolynomialOptimizationNonLinear<N> o4(k.D, k.p); Case q = k; std::reverse(q.v.begin(), q.v.end()); if (q.T.size() > 1) { q.T.pop_back(); q.v.erase(q.v.begin() + 1); } else { q.T.push_back(1); Vertex m(k.D); q.v.insert(q.v.begin() + 1, m); }
    o4.setupFromVertices(q.v, q.T, q.der); o4.solveLinear(); o4.optimize(); c.op(3);
    Traj r4; int res4 = solve<N>(c, o4, k, &r4); bool alike = res == res4 && r.size() == r4.size(); for (size_t i = 0; alike && i < r.size(); i++) alike = r[i].T == r4[i].T && r[i].dims == r4[i].dims;
    c.check("reused", alike, "an object used for another problem before gives another result");
  }
  // going on from the solution does not lose what was reached
  if (k.p.time_alloc_method == Par::kMellingerOuterLoop || res <= 0) return;
  Parts a = parts(k, r); int res3 = o.optimize(); c.op(); Traj r3; if (!constraints<N>(c, "continued", o, k, &r3) || res3 <= 0) return; reported<N>(c, o, k, r3, res3); Parts b = parts(k, r3);
  // methods that also move the free derivatives start from the linear solution for the times reached
  bool only_time = k.p.time_alloc_method == Par::kSquaredTime || k.p.time_alloc_method == Par::kRichterTime, feas = true; if (!k.p.use_soft_constraints) for (size_t j = 0; j < k.lim.size(); j++) feas &= a.max[j] <= k.lim[j].val;
  if (only_time && feas) c.check("continued-not-worse", b.total() <= a.total() * (1 + 1e-9L) + 1e-9L * (a.M + b.M) + a.soft * k.p.soft_constraint_weight * 1e-6L + 1e-9L, "cost %.9Lg after continuing, %.9Lg before", b.total(), a.total());
}
static Eigen::VectorXd pos(int D, int i, int salt) { static const double v[] = {0, 2, 5, 1, -3, 4, 8, -1, 6, 3}; Eigen::VectorXd p(D); for (int j = 0; j < D; j++) p[j] = v[(i * (1 + j) + salt + 3 * j) % 10] + i; return p; }
static std::vector<Case> lists(int D, int der, int K, bool all) {
  std::vector<Case> o; auto add = [&](const char* n, Vertex::Vector v) { Case k; k.list = n; k.v = v; k.D = D; k.der = der; o.push_back(k); };
  auto base = [&](int salt) { Vertex::Vector v; for (int i = 0; i <= K; i++) { Vertex x(D); if (i == 0 || i == K) x.makeStartOrEnd(pos(D, i, salt), der); else x.addConstraint(0, pos(D, i, salt)); v.push_back(x); } return v; };
  add("rest to rest", base(0));
  if (K > 1) { auto v = base(2); v[1].addConstraint(1, Eigen::VectorXd::Constant(D, 0.5)); add("velocity inside", v); }
  { auto v = base(1); v[0].addConstraint(1, Eigen::VectorXd::Constant(D, 1.0)); v[0].addConstraint(2, Eigen::VectorXd::Constant(D, -0.5)); add("moving start", v); }
  if (all) {
    { auto v = base(3); Vertex e(D); e.addConstraint(0, pos(D, K, 3)); v[K] = e; add("free end", v); }
    { auto v = base(4); Vertex e(D); e.addConstraint(0, pos(D, K, 4)); e.addConstraint(1, Eigen::VectorXd::Constant(D, -0.25)); v[K] = e; add("end velocity only", v); }
    if (K > 1) { auto v = base(5); Vertex e(D); e.addConstraint(1, Eigen::VectorXd::Constant(D, 0.5)); v[1] = e; add("only a velocity inside", v); }
    { Vertex::Vector v; for (int i = 0; i <= K; i++) { Vertex x(D); x.makeStartOrEnd(pos(D, i, 6), der); v.push_back(x); } add("rest everywhere", v); }
    { auto v = base(0); for (int i = 0; i <= K; i++) { Vertex x(D); x.addConstraint(0, pos(D, 0, 0)); if (i == 0 || i == K) x.makeStartOrEnd(pos(D, 0, 0), der); v[i] = x; } add("staying", v); }
  }
  return o;
}
static std::vector<std::vector<double>> times(int K, bool all) { std::vector<std::vector<double>> o = {{2, 2, 2}, {0.5, 3, 1}}; if (all) for (auto x : std::vector<std::vector<double>>{{6, 0.4, 2}, {0.1, 1, 0.1}, {0.6, 0.6, 0.6}}) o.push_back(x); for (auto& x : o) x.resize(K); return o; }
static const std::vector<std::vector<Limit>> LIM = {{{1, 2}, {2, 3}}, {}, {{1, 10}, {2, 20}}, {{1, 0.8}}, {{2, 1}}, {{1, 3}, {2, 2}, {3, 20}}};
template <int N> static void sizes(en::Ctx& c) {
  const bool T = c.thorough; char b[40]; const int h = N / 2;
  auto run = [&](const char* g, int m, bool soft, std::vector<nlopt::algorithm> algs, bool twice, int iters, const std::vector<std::vector<Limit>>& lims, std::vector<double> pens) {
    snprintf(b, sizeof b, "%s-N%d", g, N); c.group(b); int q = 0;
    for (int K = 1; K <= 3; K++) for (int D = 1; D <= 3; D++) for (int der = std::min(h - 1, 2); der < h; der += T ? 1 : 2) for (auto k0 : lists(D, der, K, T || D == 1 + K % 3)) for (auto& t : times(K, T || D == 1)) for (auto& l : lims) for (double pen : pens) for (auto a : algs) {
      q++; if (m == Par::kMellingerOuterLoop && N > 6 && *std::min_element(t.begin(), t.end()) < 0.4) continue;   // beyond what the linear solution resolves
      if (!T && K * D > 2 && q % (K * D) ) continue;
      if (c.take()) { Case k = k0; k.T = t; k.lim = l; k.p.time_alloc_method = (Par::TimeAllocMethod)m; k.p.use_soft_constraints = soft; k.p.time_penalty = pen; k.p.algorithm = a; k.p.max_iterations = q % 5 == 0 ? 7 : iters; if (q % 3 == 0) k.p.f_rel = 1e-3; if (q % 7 == 0) k.p.soft_constraint_weight = 3; if (q % 4 == 0) k.p.initial_stepsize_rel = 0.4; one<N>(c, k, twice && q % 3 == 1); }
    }
    // many segments
    for (int K : T ? std::vector<int>{4, 5, 7, 10} : std::vector<int>{5, 9}) for (int D : {1, 3}) for (auto k0 : lists(D, std::min(h - 1, 2), K, false)) for (size_t li = 0; li < (T ? lims.size() : 1); li++) for (auto a : algs) {
      q++; if (c.take()) { Case k = k0; k.lim = lims[(li + K) % lims.size()]; for (int i = 0; i < K; i++) k.T.push_back(std::vector<double>{2, 1, 3, 0.75}[(i + D) % 4]); k.p.time_alloc_method = (Par::TimeAllocMethod)m; k.p.use_soft_constraints = soft; k.p.time_penalty = pens[0]; k.p.algorithm = a; k.p.max_iterations = std::min(iters, 60); one<N>(c, k, false); }
    }
  };
  std::vector<double> pens = {500, 1}; if (T) pens = {500, 1, 0.01};
  for (int m : {Par::kSquaredTime, Par::kRichterTime}) run(m == Par::kSquaredTime ? "squared-time" : "linear-time", m, true, {nlopt::LN_BOBYQA, nlopt::LN_SBPLX}, true, 150, LIM, pens);
  for (int m : {Par::kSquaredTimeAndConstraints, Par::kRichterTimeAndConstraints}) run(m == Par::kSquaredTimeAndConstraints ? "squared-all" : "linear-all", m, true, {nlopt::LN_BOBYQA, nlopt::LN_SBPLX}, true, 250, {LIM[0], LIM[1], LIM[5]}, pens);
  for (int m : {Par::kSquaredTime, Par::kRichterTimeAndConstraints}) run(m == Par::kSquaredTime ? "hard-time" : "hard-all", m, false, {nlopt::LN_COBYLA}, true, 400, {LIM[2], LIM[0], LIM[3]}, {10});
  run("mellinger", Par::kMellingerOuterLoop, true, {nlopt::LD_LBFGS}, true, 20, {{{1, 1e6}, {2, 1e6}}, {{1, 2}, {2, 3}}}, {1});
  snprintf(b, sizeof b, "unknown-N%d", N); c.group(b);
  for (auto k : lists(2, h - 1, 2, false)) if (c.take()) { k.T = {1, 2}; k.p.time_alloc_method = Par::kUnknown; c.describe("%s, unknown method", k.list); c.nontrivial(); mtg::PolynomialOptimizationNonLinear<N> o(k.D, k.p); o.setupFromVertices(k.v, k.T, k.der); o.solveLinear(); c.op(3); Trajectory a, z; o.getTrajectory(&a); int res = o.optimize(); o.getTrajectory(&z); c.obs(res); c.check("unknown-method", res == nlopt::FAILURE && a == z && o.getOptimizationInfo().stopping_reason == nlopt::FAILURE, "result %d, trajectory %s", res, a == z ? "kept" : "changed"); }
}
int main(int argc, char** argv) {
  google::InitGoogleLogging("c13"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C13", [](en::Ctx& c) {
    sizes<6>(c); sizes<8>(c); sizes<10>(c);
    if (getenv("C13_STAT")) { fprintf(stderr, "better %ld, same %ld, worst infeasibility %.3Lg; results:", n_better, n_same, worst_feas); for (auto& x : results) fprintf(stderr, " %d: %ld", x.first, x.second); fprintf(stderr, "; infeasible:"); for (auto& x : byalg) fprintf(stderr, " %d: %ld", x.first, x.second); fprintf(stderr, "\n"); }
  });
}
