// C12: the linear optimiser.
#include "optref.h"
using namespace oref;
static R worst_con = 0, worst_grad = 0, worst_n[14];
struct Case { std::vector<unsigned> sub; std::vector<double> T; int D, der; };
template <int N> static Vertex::Vector verts(const Case& k, int salt = 0) {
  static const double val[] = {0.5, -1, 2, 0, -0.25, 3, 1.5, -2, 0.75, 1}; int id = salt * 3;
  Vertex::Vector v;
  for (size_t i = 0; i < k.sub.size(); i++) { Vertex x(k.D); for (int d = 0; d < N / 2; d++) if (k.sub[i] >> d & 1) { Eigen::VectorXd c(k.D); for (int j = 0; j < k.D; j++) c[j] = val[(id += 1 + (i + j + salt) % 3) % 10] * (d > 1 ? 0.5 : 1) + (d == 0 ? 1.0 * i : 0); x.addConstraint(d, c); } v.push_back(x); }
  return v;
}
template <int N> static void judge(en::Ctx& c, mtg::PolynomialOptimization<N>& o, const Vertex::Vector& v, const Case& k, const char* w, bool optimal) {
  constexpr int h = N / 2; const int K = k.T.size(), D = k.D; char sig[64]; auto S = [&](const char* x) { snprintf(sig, sizeof sig, "%s-%s", w, x); return sig; };
  Trajectory t; o.getTrajectory(&t); if (!c.check(S("shape"), t.K() == K && t.D() == D && t.N() == N, "%d segments, %d dimensions, %d coefficients", t.K(), t.D(), t.N())) return;
  Traj r = read(t); std::string what;
  for (int i = 0; i < K; i++) c.check(S("time"), r[i].T == k.T[i], "segment %d takes %g, expected %g", i, r[i].T, k.T[i]);
  R e = constraint_error(r, v, h, &what); worst_con = std::max(worst_con, e);
  c.check(S("constraints"), e < 1e-6L, "%s violated: relative error %.3Lg", what.c_str(), e);
  R J = cost(r, k.der), Jm = cost_mag(r, k.der); double rep = o.computeCost();
  c.check(S("cost"), std::isfinite(rep) && fabsl(rep - J) <= 1e-10L * Jm + 1e-280L, "reported cost %.12g, integral %.12Lg", rep, J); c.obs(rep);
  // free and fixed parameters are the derivatives at the vertices
  std::vector<Eigen::VectorXd> fr, fx; o.getFreeConstraints(&fr); o.getFixedConstraints(&fx); int nfree = 0, nfix = 0;
  for (int i = 0; i <= K; i++) for (int q = 0; q < h; q++) {
    bool fixed = v[i].hasConstraint(q); int at = fixed ? nfix++ : nfree++;
    for (int d = 0; d < D; d++) { auto& f = fixed ? fx[d] : fr[d]; if (!c.check(S("parameter-count"), at < f.size(), "%ld %s parameters", (long)f.size(), fixed ? "fixed" : "free")) continue;
      R val = i < K ? ref::at(r[i].dims[d], 0, q) : ref::at(r[i - 1].dims[d], r[i - 1].T, q), m = (i < K ? datascale(r[i].dims[d], r[i].T) / powl(r[i].T, q) : 0) + (i > 0 ? datascale(r[i - 1].dims[d], r[i - 1].T) / powl(r[i - 1].T, q) : 0);
      c.check(S("parameter"), fabsl(val - f[at]) <= 1e-6L * (m + fabsl((R)f[at]) + 1e-9L), "%s parameter %d of dimension %d is %.9g, the trajectory has %.9Lg", fixed ? "fixed" : "free", at, d, f[at], val); } }
  c.check(S("numbers"), (int)o.getNumberFreeConstraints() == nfree && (int)o.getNumberFixedConstraints() == nfix && (int)o.getNumberAllConstraints() == K * N && (int)o.getNumberSegments() == K && (int)o.getDimension() == D && o.getDerivativeToOptimize() == k.der, "%zu free, %zu fixed, %zu all", o.getNumberFreeConstraints(), o.getNumberFixedConstraints(), o.getNumberAllConstraints());
  if (!optimal) return;
  // cost of the trajectory that has all free derivatives at zero
  R J0 = 0; for (int i = 0; i < K; i++) for (int d = 0; d < D; d++) { std::vector<R> a(h, 0), b(h, 0); for (int q = 0; q < h; q++) { Eigen::VectorXd x; if (v[i].getConstraint(q, &x)) a[q] = x[d]; if (v[i + 1].getConstraint(q, &x)) b[q] = x[d]; } P p = hermite(a, b, k.T[i]); J0 += inner(p, p, k.der, k.T[i]); }
  c.check(S("not-worse"), J <= J0 * (1 + 1e-6L) + 1e-9L * Jm + 1e-12L, "cost %.9Lg, with all free derivatives at zero %.9Lg", J, J0);
  // stationary along every admissible direction (the cost is convex, so that is the optimum)
  for (int i = 0; i <= K; i++) for (int q = 0; q < h; q++) if (!v[i].hasConstraint(q)) for (int d = 0; d < D; d++) {
    R g = 0, B = 0, gm = 0; auto E = [&](int n) { R x = datascale(r[n].dims[d], k.T[n]); return x * x * powl(k.T[n], 1 - 2 * k.der); }; std::vector<R> z(h, 0), u(h, 0); u[q] = 1;
    if (i > 0) { P b = hermite(z, u, k.T[i - 1]); g += inner(r[i - 1].dims[d], b, k.der, k.T[i - 1]); B += inner(b, b, k.der, k.T[i - 1]); gm += E(i - 1); }
    if (i < K) { P b = hermite(u, z, k.T[i]); g += inner(r[i].dims[d], b, k.der, k.T[i]); B += inner(b, b, k.der, k.T[i]); gm += E(i); }
    R rel = fabsl(g) / (sqrtl(B) * sqrtl(J0 + gm + 1e-12L) + 1e-30L); worst_grad = std::max(worst_grad, rel); const double tmin = *std::min_element(k.T.begin(), k.T.end()); if (tmin >= 0.4) worst_n[N] = std::max(worst_n[N], rel);
    // short segments with many coefficients are at the limit of what doubles resolve
    if (N <= 6 || tmin >= 0.4) c.check(S("optimal"), rel < (N <= 6 ? 1e-9L : N == 8 ? 1e-7L : N == 10 ? 3e-3L : 1e-2L), "changing derivative %d of vertex %d, dimension %d, improves the cost (slope %.3Lg)", q, i, d, rel);
  }
}
template <int N> static void matrices(en::Ctx& c, mtg::PolynomialOptimization<N>& o, const Case& k) {
  Eigen::MatrixXd A, Ai, M, Rm, Mp; o.getA(&A); o.getAInverse(&Ai); o.getM(&M); o.getR(&Rm); o.getMpinv(&Mp);
  int n = k.T.size() * N; c.check("matrix-sizes", A.rows() == n && Ai.rows() == n && M.rows() == n && Mp.cols() == n && Rm.rows() == M.cols(), "A %ld, M %ldx%ld", (long)A.rows(), (long)M.rows(), (long)M.cols());
  c.check("inverse", (Ai * A - Eigen::MatrixXd::Identity(n, n)).cwiseAbs().maxCoeff() <= 1e-7 * Ai.cwiseAbs().maxCoeff() * 1e3 + 1e-6, "the inverse mapping matrix is off by %g", (Ai * A - Eigen::MatrixXd::Identity(n, n)).cwiseAbs().maxCoeff());
  c.check("pseudo-inverse", (Mp * M - Eigen::MatrixXd::Identity(M.cols(), M.cols())).cwiseAbs().maxCoeff() < 1e-12, "the pseudo inverse is off");
  std::vector<Eigen::VectorXd> fr, fx; o.getFreeConstraints(&fr); o.getFixedConstraints(&fx); double s = 0, m = 0; Trajectory t; o.getTrajectory(&t); Traj r = read(t);
  for (int d = 0; d < k.D; d++) { Eigen::VectorXd a(fx[d].size() + fr[d].size()); a << fx[d], fr[d]; s += 0.5 * a.dot(Rm * a); m += 0.5 * a.cwiseAbs().dot(Rm.cwiseAbs() * a.cwiseAbs());
    Eigen::VectorXd all = M * a; for (size_t i = 0; i < r.size(); i++) for (int q = 0; q < N; q++) { R val = q < N / 2 ? ref::at(r[i].dims[d], 0, q) : ref::at(r[i].dims[d], r[i].T, q - N / 2), mg = datascale(r[i].dims[d], r[i].T) / powl(r[i].T, q % (N / 2)); c.check("mapping", fabsl(val - all[i * N + q]) <= 1e-6L * (mg + fabsl((R)all[i * N + q]) + 1e-9L), "row %d of segment %zu is %g, the trajectory has %Lg", q, i, all[i * N + q], val); } }
  R J = cost(r, k.der); c.check("quadratic-form", fabsl(s - J) <= 1e-8L * (fabsl(J) + m), "quadratic form %g, cost %Lg", s, J);
}
template <int N> static void one(en::Ctx& c, const Case& k, bool heavy) {
  Vertex::Vector v = verts<N>(k);
  mtg::PolynomialOptimization<N> o(k.D); bool ok = o.setupFromVertices(v, k.T, k.der); c.check("setup", ok, "refused"); ok = o.solveLinear(); c.op(2); c.check("solve", ok, "failed");
  judge<N>(c, o, v, k, "solved", true);
  std::vector<double> st; o.getSegmentTimes(&st); c.check("segment-times", st == k.T, "changed"); Vertex::Vector vv; o.getVertices(&vv); c.check("vertices", vv.size() == v.size() && std::equal(v.begin(), v.end(), vv.begin(), [](const Vertex& a, const Vertex& b) { return a.isEqualTol(b, 0); }), "changed");
  if (!heavy) return;
  double J = o.computeCost();
  matrices<N>(c, o, k);
  // set the free parameters: back to the same, to something else, one at a time
  std::vector<Eigen::VectorXd> fr; o.getFreeConstraints(&fr); Trajectory t0, t1; o.getTrajectory(&t0);
  o.setFreeConstraints(fr); c.op(); o.getTrajectory(&t1); c.check("reset-same", t0 == t1, "setting the same free parameters changes the trajectory");
  int nf = o.getNumberFreeConstraints();
  if (nf > 0) for (int j = 0; j < nf; j++) for (int d = 0; d < k.D; d++) { auto g = fr; g[d][j] += j % 2 ? 0.75 : -1.25; o.setFreeConstraints(g); c.op(); judge<N>(c, o, v, k, "perturbed", false); std::vector<Eigen::VectorXd> b; o.getFreeConstraints(&b); c.check("read-back", b == g, "free parameters read back differently");
    Trajectory tp; o.getTrajectory(&tp); c.check("perturbed-not-better", o.computeCost() >= J - 1e-9 * (double)cost_mag(read(tp), k.der) - 1e-9 * (double)cost_mag(read(t0), k.der), "cost %.9g below the optimum %.9g", o.computeCost(), J); }
  o.solveLinear(); judge<N>(c, o, v, k, "resolved", true);
  // other times on the same object, and back
  Case k2 = k; for (size_t i = 0; i < k2.T.size(); i++) k2.T[i] *= i % 2 ? 0.5 : 1.75; o.updateSegmentTimes(k2.T); o.solveLinear(); c.op(2); judge<N>(c, o, v, k2, "retimed", true);
  // times changed by very little, as an optimiser approaching its optimum does
  Case k5 = k2; for (double step : {3e-3, -7e-4, 1e-4, -2e-5, 1e-6, 1e-8}) { for (size_t i = 0; i < k5.T.size(); i++) k5.T[i] += i % 2 ? -0.5 * step : step; o.updateSegmentTimes(k5.T); o.solveLinear(); c.op(2); judge<N>(c, o, v, k5, "retimed-slightly", step == -7e-4); }
  for (size_t i = 0; i < k5.T.size(); i++) { k5.T[i] += 5e-4; o.updateSegmentTimes(k5.T); o.solveLinear(); c.op(2); judge<N>(c, o, v, k5, "retimed-one", false); }
  // times without solving: the free parameters stay
  o.getFreeConstraints(&fr); o.updateSegmentTimes(k.T); o.setFreeConstraints(fr); c.op(2); judge<N>(c, o, v, k, "retimed-fixed", false);
  // the object used for another problem
  Case k3 = k; std::reverse(k3.sub.begin(), k3.sub.end()); k3.sub.back() |= 1; if (k3.T.size() > 1) { k3.sub.pop_back(); k3.T.pop_back(); } Vertex::Vector v3 = verts<N>(k3, 1);
  o.setupFromVertices(v3, k3.T, k3.der); o.solveLinear(); c.op(2); judge<N>(c, o, v3, k3, "reused", true);
  o.setupFromVertices(v, k.T, k.der); o.solveLinear(); c.op(2); judge<N>(c, o, v, k, "reused-back", true);
  { std::vector<Eigen::VectorXd> a, b; o.getFreeConstraints(&a); o.getFixedConstraints(&b); for (int d = 0; d < k.D; d++) c.check("parameter-sizes", a[d].size() == (long)o.getNumberFreeConstraints() && b[d].size() == (long)o.getNumberFixedConstraints(), "%ld free, %ld fixed parameters of %zu and %zu", (long)a[d].size(), (long)b[d].size(), o.getNumberFreeConstraints(), o.getNumberFixedConstraints()); }
  // constraints beyond the polynomial's order are ignored, nothing else is
  Vertex::Vector v4 = v; v4[0].addConstraint(N / 2, Eigen::VectorXd::Constant(k.D, 3.0)); mtg::PolynomialOptimization<N> o4(k.D); o4.setupFromVertices(v4, k.T, k.der); o4.solveLinear(); c.op(2); judge<N>(c, o4, v, k, "ignored-order", true);
}
template <int N> static void extrema(en::Ctx& c, const Case& k) {
  Vertex::Vector v = verts<N>(k); mtg::PolynomialOptimization<N> o(k.D); o.setupFromVertices(v, k.T, k.der); o.solveLinear(); Trajectory t; o.getTrajectory(&t); Traj r = read(t);
  for (int der = 0; der < 4 && der + 1 < N - 1; der++) {
    R mx = 0; for (auto& s : r) { P m; for (auto& p : s.dims) { P q = ref::deriv(p, der); m = ref::add(m, ref::mul(q, q)); } R lo, hi; ref::minmax(m, 0, s.T, lo, hi); mx = std::max(mx, sqrtl(std::max((R)0, hi))); }
    std::vector<Extremum> cand; Extremum e = o.computeMaximumOfMagnitude(der, &cand), f = o.computeMaximumOfMagnitude(der, nullptr); c.op(2); c.obs(e.value);
    c.check("maximum", fabsl(e.value - mx) <= 1e-5L * (mx + 1e-6L), "maximum of derivative %d: %.12g, expected %.12Lg", der, e.value, mx);
    c.check("maximum-same", e.value == f.value && e.time == f.time && e.segment_idx == f.segment_idx, "with and without candidates: %g and %g", e.value, f.value);
    bool in = e.segment_idx >= 0 && e.segment_idx < (int)r.size(); c.check("maximum-place", in && e.time >= 0 && e.time <= r[e.segment_idx].T, "segment %d, time %g", e.segment_idx, e.time);
    auto mag = [&](int s, double tt) { R m = 0; for (auto& p : r[s].dims) { R q = ref::at(p, tt, der); m += q * q; } return sqrtl(m); };
    if (in) c.check("maximum-attained", fabsl(mag(e.segment_idx, e.time) - e.value) <= 1e-8L * (1 + mx), "value there is %.9Lg", mag(e.segment_idx, e.time));
    for (auto& x : cand) { bool ok = x.segment_idx >= 0 && x.segment_idx < (int)r.size() && x.time >= 0 && x.time <= r[x.segment_idx].T; c.check("candidate", ok && fabsl(mag(x.segment_idx, x.time) - x.value) <= 1e-8L * (1 + mx) && x.value <= e.value, "candidate in segment %d at %g has %g", x.segment_idx, x.time, x.value); }
  }
}
template <int N> static void family(en::Ctx& c, const std::vector<Case>& ks, const char* g, bool heavy, bool ext = false) {
  char b[64]; snprintf(b, sizeof b, "%s-N%d", g, N); c.group(b);
  for (auto& k : ks) if (c.take()) {
    c.describe("dimension %d, optimise derivative %d, times", k.D, k.der); for (double t : k.T) c.describe(" %g", t); c.describe(", constrained derivatives per vertex"); for (unsigned s : k.sub) { c.describe(" {"); for (int d = 0; d < N / 2; d++) if (s >> d & 1) c.describe("%d", d); c.describe("}"); }
    c.nontrivial();
    if (ext) extrema<N>(c, k); else one<N>(c, k, heavy);
  }
}
template <int N> static void sizes(en::Ctx& c) {
  const bool T = c.thorough; const int h = N / 2; const unsigned F = 1u << h;
  auto times = [&](int K) { std::vector<std::vector<double>> o; if (K == 1) o = {{1}, {0.25}, {4}}; else if (K == 2) o = {{1, 1}, {0.5, 3}, {2, 0.4}}; else o = {{1, 1, 1}, {0.5, 2, 1}, {3, 0.6, 0.6}}; if (T) for (auto x : std::vector<std::vector<double>>{{8, 1, 2}, {0.15, 0.6, 0.3}}) { x.resize(K); o.push_back(x); } return o; };
  auto ders = [&](int want) { std::vector<int> o; for (int d = 0; d < h; d++) if (T || d == h - 1 || d == want) o.push_back(d); return o; };
  std::vector<Case> full, heavy, ext;
  // one and two segments: every subset at every vertex (one subset list for larger N in the quick tier)
  std::vector<unsigned> all, some; for (unsigned s = 0; s < F; s++) all.push_back(s); for (unsigned s : {1u, 3u, F - 1, 2u, 5u, 0u}) { s &= F - 1; if (std::find(some.begin(), some.end(), s) == some.end()) some.push_back(s); }
  for (int K = 1; K <= 3; K++) {
    const auto& S = (K == 1 && (h <= 5 || T)) || (K == 2 && (h <= 3 || (T && h <= 4))) || (K == 3 && h <= 2) ? all : some;
    long n = 1; for (int i = 0; i <= K; i++) n *= S.size();
    for (long q = 0; q < n; q++) { Case k; long z = q; for (int i = 0; i <= K; i++, z /= S.size()) k.sub.push_back(S[z % S.size()]);
      if (!(k.sub[0] & 1) && !(k.sub[K] & 1) && (q % 3)) continue;       // few of the lists without any fixed end
      int ti = 0; for (auto& t : times(K)) { k.T = t; for (int der : ders(2)) { k.der = der; k.D = 1; full.push_back(k); if (ti == 0 && q % 5 == 0) { k.D = 1 + q % 4; heavy.push_back(k); } if (ti < 3 && q % 7 == 0 && (k.sub[0] & 1) && (k.sub[K] & 1)) { k.D = 1 + q % 3; ext.push_back(k); } } ti++; } }
  }
  // many segments
  for (int K : T ? std::vector<int>{4, 5, 6, 8, 9, 12, 17, 20} : std::vector<int>{4, 5, 9, 12}) for (int pat = 0; pat < (T ? 12 : 6); pat++) for (int tp = 0; tp < 2; tp++) {
    Case k; const unsigned inner[6] = {1, 3, 1, 0, 2, F - 1}; for (int i = 0; i <= K; i++) k.sub.push_back(i == 0 || i == K ? (pat % 3 == 2 ? 3u : F - 1) & (F - 1) : inner[pat < 6 ? (pat < 2 ? pat : (i * pat + i) % 6) : (i + pat) % 3] & (F - 1));
    for (int i = 0; i < K; i++) k.T.push_back(tp ? 1.0 : std::vector<double>{1, 0.5, 2, 0.75, 1.25}[(i + pat) % 5]); k.der = std::min(h - 1, 2 + pat % 3); k.D = 1 + pat % 3; full.push_back(k); if (pat < 2 && K < 7) heavy.push_back(k); if (pat % 2 == 0) ext.push_back(k);
  }
  family<N>(c, full, "solve", false); family<N>(c, heavy, "reuse", true); family<N>(c, ext, "maximum", false, true);
}
int main(int argc, char** argv) {
  google::InitGoogleLogging("c12"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C12", [](en::Ctx& c) {
    sizes<2>(c); sizes<4>(c); sizes<6>(c); sizes<8>(c); sizes<10>(c); sizes<12>(c);
    if (getenv("C12_STAT")) { fprintf(stderr, "worst constraint %.3Lg, gradient %.3Lg:", worst_con, worst_grad); for (int i = 2; i < 14; i += 2) fprintf(stderr, " %.2Lg", worst_n[i]); fprintf(stderr, "\n"); }
    // the cost matrix itself
    c.group("cost-matrix");
    for (double t : {0.1, 0.5, 1.0, 2.0, 7.5}) for (int der = 0; der < 9; der++) if (c.take()) { c.describe("time %g, derivative %d", t, der); c.nontrivial();
      auto run = [&](auto tag) { constexpr int N = decltype(tag)::value; if (der >= N) return; typename mtg::PolynomialOptimization<N>::SquareMatrix Q; mtg::PolynomialOptimization<N>::computeQuadraticCostJacobian(der, t, &Q); c.op();
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { P a(N, 0), b(N, 0); a[i] = 1; b[j] = 1; R e = 2 * inner(a, b, der, t); c.check("entry", fabsl(Q(i, j) - e) <= 1e-12L * fabsl(e) + 1e-300L, "N %d entry %d,%d: %.12g, expected %.12Lg", N, i, j, Q(i, j), e); c.obs(Q(i, j)); } };
      run(std::integral_constant<int, 2>()); run(std::integral_constant<int, 4>()); run(std::integral_constant<int, 6>()); run(std::integral_constant<int, 8>()); run(std::integral_constant<int, 10>()); run(std::integral_constant<int, 12>()); }
  });
}
