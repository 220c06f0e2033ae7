// C15: roots and extrema.
#include "mathlib.h"
#include "optref.h"
#include "mav_trajectory_generation/rpoly/rpoly_ak1.h"
typedef std::complex<R> C;

static void poly_extrema(en::Ctx& c, const Polynomial& q, const P& p, int d, double a, double b, R rel = 1e-7L) {
  std::pair<double, double> mn(99, 99), mx(99, 99);
  bool ok = q.computeMinMax(a, b, d, &mn, &mx); c.op();
  if (!c.check("success", ok, "derivative %d on [%g,%g] failed", d, a, b)) return;
  P pd = ref::deriv(p, d); R lo, hi; if (pd.empty()) pd = {0};
  ref::minmax(pd, a, b, lo, hi);
  R sc = 0; for (double t : {a, b}) sc = std::max(sc, ref::mag(pd, t));
  R tol = rel * sc + 1e-12L;
  c.check("minimum", mn.second <= lo + tol, "derivative %d on [%g,%g]: minimum %.12g, but the value %.12Lg occurs", d, a, b, mn.second, lo);
  c.check("maximum", mx.second >= hi - tol, "derivative %d on [%g,%g]: maximum %.12g, but the value %.12Lg occurs", d, a, b, mx.second, hi);
  c.check("attained-inside", mn.first >= a && mn.first <= b && mx.first >= a && mx.first <= b, "derivative %d on [%g,%g]: extrema reported at %g and %g", d, a, b, mn.first, mx.first);
  c.check("attained-value", ref::close(mn.second, ref::at(pd, mn.first), sc, 1e-9L) && ref::close(mx.second, ref::at(pd, mx.first), sc, 1e-9L), "derivative %d on [%g,%g]: value at the reported time differs", d, a, b);
  // the two-step interface gives the same answer
  Eigen::VectorXcd roots; bool rok = q.getRoots(d + 1, &roots);
  std::pair<double, double> mn2, mx2; bool ok2 = q.selectMinMaxFromRoots(a, b, d, roots, &mn2, &mx2); c.op(2);
  c.check("from-roots", ok2 && mn2.second == mn.second && mx2.second == mx.second, "selectMinMaxFromRoots disagrees with computeMinMax");
  std::vector<double> cand; ok2 = q.computeMinMaxCandidates(a, b, d, &cand); c.op();
  bool in = true, hasa = false, hasb = false; for (double t : cand) { in = in && t >= a && t <= b; hasa = hasa || t == a; hasb = hasb || t == b; }
  c.check("candidates", ok2 && in && hasa && hasb, "candidates on [%g,%g] miss an end point or lie outside", a, b);
  (void)rok; c.obs(mn.second); c.obs(mx.second);
}

// deflation behind a multiple root costs accuracy in all roots; only their number is claimed above multiplicity 2
static void roots_ok(en::Ctx& c, const P& p0, const Eigen::VectorXcd& r, const std::vector<C>* known, int maxmult = 1) {
  P p = p0; while (!p.empty() && p.back() == 0) p.pop_back();
  size_t deg = p.size() ? p.size() - 1 : 0;
  if (!c.check("count", (size_t)r.size() == deg, "%s has degree %zu but %ld roots are reported", str(p).c_str(), deg, (long)r.size())) return;
  if (maxmult > 2) return;
  if (maxmult == 1) for (int i = 0; i < r.size(); i++) {
    C z(r[i].real(), r[i].imag()), v = 0; R m = 0, az = std::abs(z);
    for (int j = (int)p.size() - 1; j >= 0; j--) { v = v * z + p[j]; m = m * az + fabsl(p[j]); }
    c.check("is-root", std::isfinite((double)az) && std::abs(v) <= 1e-6L * m, "%s: %g%+gi is not a root (value %Lg)", str(p).c_str(), r[i].real(), r[i].imag(), std::abs(v));
  }
  // the product of (t - root) has to give the polynomial back
  std::vector<C> q{1}; for (int i = 0; i < r.size(); i++) { C z(r[i].real(), r[i].imag()); std::vector<C> n(q.size() + 1, 0); for (size_t j = 0; j < q.size(); j++) { n[j + 1] += q[j]; n[j] -= q[j] * z; } q = n; }
  R sc = 0; for (auto& v : q) sc = std::max(sc, std::abs(v));
  for (size_t j = 0; j < q.size() && deg && maxmult == 1; j++) c.check("all-roots", std::abs(q[j] * p.back() - C(p[j])) <= 1e-5L * sc * fabsl(p.back()), "%s: the reported roots belong to another polynomial (coefficient %zu is %Lg)", str(p).c_str(), j, (q[j] * p.back()).real());
  if (known) {
    std::vector<bool> used(r.size(), false);
    for (auto& k : *known) {
      int best = -1; R bd = 1e9; int mult = 0; for (auto& o : *known) if (std::abs(o - k) < 0.3L) mult++;
      for (int i = 0; i < r.size(); i++) if (!used[i]) { R d = std::abs(C(r[i].real(), r[i].imag()) - k); if (d < bd) { bd = d; best = i; } }
      if (best >= 0) used[best] = true;
      c.check("known-root", bd < (maxmult == 1 ? 1e-5L : 0.01L), "%s: root %Lg%+Lgi is missing (nearest is off by %Lg)", str(p).c_str(), k.real(), k.imag(), bd);
    }
  }
  for (int i = 0; i < r.size(); i++) { c.obs(std::round(r[i].real() * 1e6)); }
}

static void traj_extrema(en::Ctx& c, const Traj& t, int der, const std::vector<int>& dims) {
  Trajectory tr = mkt(t); Extremum mn, mx;
  bool ok = tr.computeMinMaxMagnitude(der, dims, &mn, &mx); c.op();
  std::string ds; for (int d : dims) ds += std::to_string(d);
  if (!c.check("success", ok, "derivative %d dimensions %s failed", der, ds.c_str())) return;
  R lo = 1e300L, hi = -1e300L, sc = 0;
  for (size_t k = 0; k < t.size(); k++) {
    P q{0}; R m = 0; for (int d : dims) { P pd = ref::deriv(t[k].dims[d], der); q = ref::add(q, ref::mul(pd, pd)); R x = ref::mag(pd, t[k].T); m += x * x; }
    R a, b; ref::minmax(q, 0, t[k].T, a, b); lo = std::min(lo, a); hi = std::max(hi, b); sc = std::max(sc, sqrtl(m));
    // segment level
    std::vector<Extremum> cand; Extremum smn, smx; Segment s = mks(t[k]);
    bool o2 = s.computeMinMaxMagnitudeCandidates(der, 0, t[k].T, dims, &cand) && s.selectMinMaxMagnitudeFromCandidates(der, 0, t[k].T, dims, cand, &smn, &smx); c.op();
    R tol = 1e-6L * sqrtl(m) + 1e-9L;
    c.check("segment", o2 && fabsl(smn.value - sqrtl(std::max<R>(a, 0))) <= tol && fabsl(smx.value - sqrtl(std::max<R>(b, 0))) <= tol, "segment %zu derivative %d dimensions %s: [%.9g,%.9g], exact [%.9Lg,%.9Lg]", k, der, ds.c_str(), smn.value, smx.value, sqrtl(std::max<R>(a, 0)), sqrtl(b));
    // any sub-interval
    for (auto iv : {std::pair<double, double>{0.25, 0.75}, {0.0, 0.5}, {0.5, 1.0}, {0.375, 0.375}}) {
      double A = iv.first * t[k].T, B = iv.second * t[k].T; Extremum x, y;
      o2 = s.computeMinMaxMagnitudeCandidates(der, A, B, dims, &cand) && s.selectMinMaxMagnitudeFromCandidates(der, A, B, dims, cand, &x, &y); c.op();
      R aa, bb; ref::minmax(q, A, B, aa, bb);
      c.check("sub-interval", o2 && fabsl(x.value - sqrtl(std::max<R>(aa, 0))) <= tol && fabsl(y.value - sqrtl(std::max<R>(bb, 0))) <= tol && x.time >= A && x.time <= B && y.time >= A && y.time <= B,
              "segment %zu derivative %d dimensions %s on [%g,%g]: [%.9g at %g,%.9g at %g], exact [%.9Lg,%.9Lg]", k, der, ds.c_str(), A, B, x.value, x.time, y.value, y.time, sqrtl(std::max<R>(aa, 0)), sqrtl(bb));
    }
  }
  lo = sqrtl(std::max<R>(lo, 0)); hi = sqrtl(std::max<R>(hi, 0)); R tol = 1e-6L * sc + 1e-9L;
  c.check("minimum", fabsl(mn.value - lo) <= tol, "derivative %d dimensions %s: minimum magnitude %.9g, exact %.9Lg", der, ds.c_str(), mn.value, lo);
  c.check("maximum", fabsl(mx.value - hi) <= tol, "derivative %d dimensions %s: maximum magnitude %.9g, exact %.9Lg", der, ds.c_str(), mx.value, hi);
  for (auto* e : {&mn, &mx}) {
    bool idx = e->segment_idx >= 0 && e->segment_idx < (int)t.size();
    if (!c.check("segment-index", idx, "segment index %d", e->segment_idx)) continue;
    auto& s = t[e->segment_idx]; R m = 0; for (int d : dims) { R x = ref::at(s.dims[d], e->time, der); m += x * x; }
    c.check("attained", e->time >= 0 && e->time <= s.T && fabsl(sqrtl(m) - e->value) <= tol, "derivative %d dimensions %s: %.9g is reported at %g of segment %d (duration %g) where the magnitude is %.9Lg", der, ds.c_str(), e->value, e->time, e->segment_idx, s.T, sqrtl(m));
  }
  c.obs(mn.value); c.obs(mx.value);
}

// segments between given states at both ends, as the optimisers produce them: short ones have coefficients of very different size
static R worst_spline = 0;
static void splines(en::Ctx& c, int h, bool T) {
  char b[40]; snprintf(b, sizeof b, "splines-%d", 2 * h); c.group(b);
  static const double v[] = {-2, 0, 1, 5}; long m = 1; for (int i = 0; i < 2 * h - 1; i++) m *= 4;
  const long stride = T ? (h == 5 ? 29 : h == 4 ? 3 : 1) : (h == 5 ? 401 : h == 4 ? 31 : 3);
  for (double t : {0.05, 0.1, 0.2, 0.5, 1.0, 3.0, 20.0}) for (long q = 0; q < m; q += stride) if (c.take()) {
    std::vector<R> s0(h, 0), s1(h), u0(h, 0), u1(h); long z = q; for (int k = 1; k < h; k++, z /= 4) s0[k] = v[z % 4]; for (int k = 0; k < h; k++, z /= 4) s1[k] = v[z % 4];
    for (int k = 0; k < h; k++) { u0[k] = k < 1 ? 1 : 0; u1[k] = k < 2 ? v[(q / stride + k) % 4] : 0; }
    Traj tr{{t, {}}}; for (auto& p : {oref::hermite(s0, s1, t), oref::hermite(u0, u1, t), oref::hermite(u1, s1, t)}) { P r; for (R x : p) r.push_back((double)x); tr[0].dims.push_back(r); }
    c.describe("%s", str(tr).c_str()); c.nontrivial(); Segment s = mks(tr[0]);
    for (int der = 0; der < 4; der++) for (auto& dims : std::vector<std::vector<int>>{{0}, {0, 1}, {2, 0, 1}}) {
      P q2{0}; R sc = 0; for (int d : dims) { P pd = ref::deriv(tr[0].dims[d], der); q2 = ref::add(q2, ref::mul(pd, pd)); sc += oref::datascale(tr[0].dims[d], t) / powl(t, der); }
      R lo, hi; ref::minmax(q2, 0, t, lo, hi); lo = sqrtl(std::max<R>(lo, 0)); hi = sqrtl(std::max<R>(hi, 0)); std::vector<Extremum> cand; Extremum a, e;
      bool ok = s.computeMinMaxMagnitudeCandidates(der, 0, t, dims, &cand) && s.selectMinMaxMagnitudeFromCandidates(der, 0, t, dims, cand, &a, &e); c.op(2);
      R err = std::max(fabsl(a.value - lo), fabsl(e.value - hi)) / (sc + hi + 1e-12L); if (ok) worst_spline = std::max(worst_spline, err); c.obs(e.value);
      c.check("spline", ok && err <= 1e-5L, "derivative %d of %zu dimensions: magnitude within [%.9g,%.9g], exact [%.9Lg,%.9Lg]", der, dims.size(), a.value, e.value, lo, hi);
    }
  }
}
int main(int argc, char** argv) {
  google::InitGoogleLogging("c15"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C15", [](en::Ctx& c) {
    const bool T = c.thorough;
    const std::vector<std::pair<double, double>> iv = {{0, 1}, {0, 3}, {-1, 2}, {1, 1}, {-3, 0}, {0.5, 4}};
    // ---- every small integer polynomial
    c.group("small-polynomials");
    for (int n = 1; n <= (T ? 6 : 5); n++) {
      const int al = 5; long cnt = 1; for (int i = 0; i < n; i++) cnt *= al;
      for (long m = 0; m < cnt; m++) if (c.take()) {
        P p; long k = m; for (int i = 0; i < n; i++) { p.push_back(k % al - 2); k /= al; }
        c.describe("polynomial %s: roots and extrema of all derivatives on %zu intervals", str(p).c_str(), iv.size());
        Polynomial q(ev(p));
        for (int d = 0; d < n; d++) {
          Eigen::VectorXcd r; q.getRoots(d, &r); c.op(); roots_ok(c, ref::deriv(p, d), r, nullptr);
          for (auto& i : iv) poly_extrema(c, q, p, d, i.first, i.second);
        }
        std::pair<double, double> a, b; std::vector<double> cd;
        c.check("reversed-interval", !q.computeMinMax(2, 1, 0, &a, &b) && !q.computeMinMaxCandidates(2, 1, 0, &cd), "a reversed interval is accepted");
        c.check("order-too-high", !q.computeMinMax(0, 1, n, &a, &b), "derivative %d of %d coefficients is accepted", n, n);
        c.nontrivial();
      }
    }
    // ---- polynomials with known roots (simple, double, triple, complex, clustered, at the interval ends)
    c.group("known-roots");
    std::vector<double> rs = {-2, -1, 0, 0.5, 1, 2, 3, 7}; std::vector<std::pair<double, double>> cs = {{0, 1}, {1, 2}, {-1, 0.5}, {2, 0.125}};
    for (int nr = 0; nr <= (T ? 6 : 4); nr++) for (int ncx = 0; ncx <= (T ? 2 : 1); ncx++) {
      std::vector<int> ix(nr, 0);
      std::function<void(int, int)> rec = [&](int i, int from) {
        if (i < nr) { for (int k = from; k < (int)rs.size(); k++) { ix[i] = k; rec(i + 1, k); } return; }
        for (size_t cx = 0; cx < (ncx ? cs.size() : 1); cx++) for (double lead : {1.0, -0.5}) if (c.take()) {
          P p{lead}; std::vector<C> known;
          for (int j = 0; j < nr; j++) { p = ref::mul(p, {-rs[ix[j]], 1}); known.push_back(rs[ix[j]]); }
          for (int j = 0; j < ncx; j++) { auto z = cs[(cx + j) % cs.size()]; p = ref::mul(p, {z.first * z.first + z.second * z.second, -2 * z.first, 1}); known.push_back(C(z.first, z.second)); known.push_back(C(z.first, -z.second)); }
          c.describe("%s", str(p).c_str());
          Polynomial q(ev(p)); Eigen::VectorXcd r; q.getRoots(0, &r); c.op();
          int mm = 1; for (auto& k : known) { int m = 0; for (auto& o : known) if (std::abs(o - k) < 0.3L) m++; mm = std::max(mm, m); }
          roots_ok(c, p, r, &known, mm);
          // p as the derivative: extrema of its integral
          P I{1}; for (size_t j = 0; j < p.size(); j++) I.push_back(p[j] / (j + 1));
          Polynomial qi(ev(I));
          P Id; for (auto v : I) Id.push_back((double)v);
          for (auto& i : iv) { poly_extrema(c, q, p, 0, i.first, i.second, mm > 2 ? 1e-4L : mm > 1 ? 1e-6L : 1e-7L); poly_extrema(c, qi, Id, 0, i.first, i.second, mm > 2 ? 1e-4L : mm > 1 ? 1e-6L : 1e-7L); }
          Eigen::VectorXd lead0 = ev(pad(p, p.size() + 2)); Eigen::VectorXcd r2; mtg::findRootsJenkinsTraub(lead0, &r2); c.op();
          c.check("trailing-zeros", r2.size() == r.size(), "two zero coefficients on top change the number of roots from %ld to %ld", (long)r.size(), (long)r2.size());
          c.nontrivial();
        }
      };
      rec(0, 0);
    }
    for (int h = 3; h <= 5; h++) splines(c, h, T);
    if (getenv("C15_STAT")) fprintf(stderr, "worst spline error %.3Lg\n", worst_spline);
    // ---- segments and trajectories
    std::vector<P> shapes;   // of 10 coefficients, or of 6
    for (int N : {6, 10}) {
      shapes.clear();
      for (int n : {4, 6, 8, 10}) if (n <= N) shapes.push_back(pad(step(n), N));
      shapes.push_back(pad({1}, N)); shapes.push_back(pad({0, 2}, N)); shapes.push_back(pad({1, -3, 1}, N)); shapes.push_back(pad({0, 1, 0, -1}, N)); shapes.push_back(pad({-0.5, 2, -1, 0.25, 0, 0.125}, N));
      shapes.push_back(pad({0}, N));
      const int ns = shapes.size();
      c.group(N == 6 ? "one-segment-6" : "one-segment-10");
      std::vector<std::vector<int>> sets1 = {{0}}, sets2 = {{0}, {1}, {0, 1}, {1, 0}}, sets3 = {{0}, {2}, {0, 2}, {2, 1}, {0, 1, 2}, {2, 1, 0}};
      for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) for (double t : {1.0, 0.5, 2.5}) if (c.take()) {
        Traj tr{{t, {shapes[a], ref::scale(shapes[b], -1.5)}}};
        c.describe("%s", str(tr).c_str());
        for (int d = 0; d < (T ? N : 6); d++) for (auto& s : sets2) traj_extrema(c, tr, d, s);
        c.nontrivial();
      }
      c.group(N == 6 ? "trajectory-6" : "trajectory-10");
      for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) for (int e = 0; e < ns; e += T ? 1 : 3) for (int tc = 0; tc < 2; tc++) if (c.take()) {
        double t0 = tc ? 0.5 : 2, t1 = tc ? 3 : 1;
        Traj tr{{t0, {shapes[a], shapes[b], ref::scale(shapes[e], 2)}}, {t1, {ref::scale(shapes[b], -1), shapes[e], shapes[a]}}, {1.0, {shapes[e], shapes[a], ref::scale(shapes[b], 0.5)}}};
        c.describe("%s", str(tr).c_str());
        for (int d = 0; d < (T ? 5 : 3); d++) for (auto& s : sets3) traj_extrema(c, tr, d, s);
        Trajectory x = mkt(tr); double v = -1, ac = -1; bool ok = x.computeMaxVelocityAndAcceleration(&v, &ac); c.op();
        R mv = 0, ma = 0, sv = 0, sa = 0;
        for (auto& s : tr) { P qv{0}, qa{0}; for (auto& p : s.dims) { P pv = ref::deriv(p, 1), pa = ref::deriv(p, 2); qv = ref::add(qv, ref::mul(pv, pv)); qa = ref::add(qa, ref::mul(pa, pa)); sv += ref::mag(pv, s.T); sa += ref::mag(pa, s.T); }
          R l, h; ref::minmax(qv, 0, s.T, l, h); mv = std::max(mv, h); ref::minmax(qa, 0, s.T, l, h); ma = std::max(ma, h); }
        if (a == b || e == 0) {     // many segments: the extremum in any of them
          for (int K : {5, 9, 18}) for (int at = 0; at < K; at += K > 6 ? 4 : 1) { Traj big; for (int k = 0; k < K; k++) big.push_back({0.5 + 0.25 * (k % 3), {ref::scale(shapes[a], k == at ? 3 : 0.5), ref::scale(shapes[b], k == at ? -3 : 0.25), ref::scale(shapes[e], 0.1)}});
            for (int d = 0; d < 2; d++) for (auto& s : std::vector<std::vector<int>>{{0}, {1, 0}}) traj_extrema(c, big, d, s); } }
        c.check("max-velocity", ok && fabsl(v - sqrtl(mv)) <= 1e-6L * sv + 1e-9L, "maximum velocity %.9g, exact %.9Lg", v, sqrtl(mv));
        c.check("max-acceleration", ok && fabsl(ac - sqrtl(ma)) <= 1e-6L * sa + 1e-9L, "maximum acceleration %.9g, exact %.9Lg", ac, sqrtl(ma));
        // refused: no dimension, dimension out of range
        Extremum m1, m2;
        for (auto& s : std::vector<std::vector<int>>{{}, {3}, {-1}, {0, 3}, {0, -1}}) c.check("refused", !x.computeMinMaxMagnitude(1, s, &m1, &m2), "%zu dimensions out of range are accepted", s.size());
        c.nontrivial();
      }
    }
  });
}
