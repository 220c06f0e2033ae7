// C14: polynomial algebra against exact reference arithmetic.
#include <glog/logging.h>
#include "mav_trajectory_generation/polynomial.h"
#include "mav_trajectory_generation/convolution.h"
#include "enumr.h"
#include "refpoly.h"
using mav_trajectory_generation::Polynomial;
namespace mtg = mav_trajectory_generation;
using ref::P; using ref::R;

static std::string str(const P& p) { std::string s = "["; char b[40]; for (auto v : p) { snprintf(b, sizeof b, "%g ", (double)v); s += b; } return s + "]"; }
static Eigen::VectorXd ev(const P& p) { Eigen::VectorXd v(p.size()); for (size_t i = 0; i < p.size(); i++) v[i] = (double)p[i]; return v; }
static Polynomial mkp(const P& p, int how) {
  if (how == 0) return Polynomial(ev(p));
  if (how == 1) return Polynomial((int)p.size(), ev(p));
  Polynomial q((int)p.size()); q.setCoefficients(ev(p)); return q;
}
static bool same(const Eigen::VectorXd& a, const P& b) {
  if (a.size() != (int)b.size()) return false;
  for (size_t i = 0; i < b.size(); i++) if (!ref::close(a[i], b[i], b[i])) return false;
  return true;
}
static std::string estr(const Eigen::VectorXd& v) { P p; for (int i = 0; i < v.size(); i++) p.push_back(v[i]); return str(p); }

// all coefficient vectors of length n over `al`, but with at most `nz` non-zero entries
static void vectors(int n, const std::vector<double>& al, int nz, std::vector<P>& out) {
  P cur(n, 0);
  std::function<void(int, int)> rec = [&](int i, int left) {
    if (i == n) { out.push_back(cur); return; }
    cur[i] = 0; rec(i + 1, left);
    if (left) for (double a : al) { cur[i] = a; rec(i + 1, left - 1); cur[i] = 0; }
  };
  rec(0, nz);
}

template <int D, int K> static void conv_t(en::Ctx& c, const std::vector<double>& al, int nz) {
  std::vector<P> as, bs; vectors(D, al, nz, as); vectors(K, al, nz, bs);
  for (auto& a : as) if (c.take()) {
    c.describe("template convolve<%d,%d> a=%s against %zu kernels", D, K, str(a).c_str(), bs.size());
    Eigen::Matrix<double, D, 1> d; for (int i = 0; i < D; i++) d[i] = (double)a[i];
    for (auto& b : bs) {
      Eigen::Matrix<double, K, 1> k; for (int i = 0; i < K; i++) k[i] = (double)b[i];
      auto r = mtg::convolve(d, k); c.op();
      Eigen::VectorXd rv = r;
      c.check("convolve-template", same(rv, ref::mul(a, b)), "%s * %s gave %s", str(a).c_str(), str(b).c_str(), estr(rv).c_str());
      for (int i = 0; i < rv.size(); i++) c.obs(rv[i]);
    }
    c.nontrivial();
  }
}

int main(int argc, char** argv) {
  google::InitGoogleLogging("c14"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C14", [](en::Ctx& c) {
    const bool T = c.thorough;
    c.group("base-coefficients");
    for (int N = 1; N <= Polynomial::kMaxConvolutionSize; N++) if (c.take()) {
      c.describe("computeBaseCoefficients(%d)", N);
      Eigen::MatrixXd m = mtg::computeBaseCoefficients(N); c.op();
      c.check("size", m.rows() == N && m.cols() == N, "%ldx%ld", (long)m.rows(), (long)m.cols());
      for (int d = 0; d < N; d++) for (int j = 0; j < N; j++) {
        R e = j < d ? 0 : ref::falling(j, d);
        c.check("entry", ref::close(m(d, j), e, e), "N=%d (%d,%d) is %.17g, expected %.17Lg", N, d, j, m(d, j), e);
        c.check("static-entry", ref::close(Polynomial::base_coefficients_(d, j), e, e), "(%d,%d) is %.17g, expected %.17Lg", d, j, Polynomial::base_coefficients_(d, j), e);
        c.obs(m(d, j));
      }
      c.nontrivial();
    }
    c.group("base-coefficients-with-time");
    for (int N = 1; N <= Polynomial::kMaxConvolutionSize; N++) for (int d = 0; d < N; d++)
      for (double t : {0.0, 1.0, 2.0, -1.0, -2.0, 0.5, 3.25, 1e-17, -1e-17, 1e-3, 0.1, 10.0}) if (c.take()) {
        c.describe("baseCoeffsWithTime(N=%d, derivative=%d, t=%g)", N, d, t);
        Eigen::VectorXd a = Polynomial::baseCoeffsWithTime(N, d, t), b(3); b << 7, 7, 7;
        Polynomial::baseCoeffsWithTime(N, d, t, &b); c.op(2);
        c.check("size", a.size() == N && b.size() == N, "sizes %ld %ld", (long)a.size(), (long)b.size());
        for (int j = 0; j < N && j < a.size() && j < b.size(); j++) {
          R e = j < d ? 0 : ref::falling(j, d) * powl(t, j - d);
          bool ok = ref::close(a[j], e, e) || (std::fabs(t) < 1e-15 && j > d && fabsl(a[j] - e) <= 1e-14L * ref::falling(j, d));
          c.check("entry", ok, "entry %d is %.17g, expected %.17Lg", j, a[j], e);
          c.check("two-forms", a[j] == b[j], "entry %d differs between the two forms: %.17g %.17g", j, a[j], b[j]);
          c.obs(a[j]);
        }
        c.nontrivial();
      }
    // ---- polynomials
    std::vector<P> ps;
    for (int n = 1; n <= 12; n++) {
      if (n <= 4) vectors(n, {-2, -1, 1, 2, 3}, n, ps);
      else if (n <= 6) vectors(n, {-1, 2}, T ? n : 4, ps);
      else vectors(n, {-3, 1}, T ? 4 : 2, ps);
    }
    for (int n = 13; n <= Polynomial::kMaxConvolutionSize; n++) vectors(n, {-3, 1}, T ? 2 : 1, ps);
    const std::vector<double> ts = {-2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3, 10};
    c.group("evaluate");
    for (auto& p : ps) if (c.take()) {
      const int N = p.size();
      c.describe("polynomial %s, all derivatives, %zu times", str(p).c_str(), ts.size());
      Polynomial q = mkp(p, c.index() % 3), q2 = mkp(p, (c.index() + 1) % 3);
      c.check("N", q.N() == N, "N()=%d", q.N());
      c.check("constructors-agree", q == q2 && !(q != q2), "two constructions of the same polynomial differ");
      Polynomial z(N); bool allz = true;
      for (int i = 0; i < N; i++) { c.check("zero-init", z.getCoefficients()[i] == 0, "default coefficient %d is %g", i, z.getCoefficients()[i]); allz = allz && p[i] == 0; }
      for (int d = 0; d <= N && d < Polynomial::kMaxConvolutionSize; d++) {
        Eigen::VectorXd g = q.getCoefficients(d); c.op();
        P e = ref::deriv(p, d); e.resize(N, 0);
        c.check("derivative-coefficients", same(g, e), "derivative %d: %s expected %s", d, estr(g).c_str(), str(e).c_str());
        if (d == N) break;
        for (double t : ts) {
          double v = q.evaluate(t, d); c.op();
          c.check("evaluate", ref::close(v, ref::at(p, t, d), ref::mag(p, t, d)), "derivative %d at %g: %.17g expected %.17Lg", d, t, v, ref::at(p, t, d));
          c.obs(v);
        }
      }
      for (int d = N; d < N + 3; d++) c.check("beyond-order", q.evaluate(1.5, d) == 0, "derivative %d is %g", d, q.evaluate(1.5, d));
      for (int len = 1; len <= N; len++) for (double t : ts) {
        Eigen::VectorXd r(len); r.setConstant(99); q.evaluate(t, &r); c.op();
        for (int d = 0; d < len; d++) c.check("evaluate-vector", ref::close(r[d], ref::at(p, t, d), ref::mag(p, t, d)), "%d values at %g: entry %d is %.17g expected %.17Lg", len, t, d, r[d], ref::at(p, t, d));
      }
      if (!allz) c.nontrivial();
    }
    c.group("unary");
    for (auto& p : ps) if (c.take()) {
      const int N = p.size();
      c.describe("polynomial %s: scalar product, time scaling, offset, padding, equality", str(p).c_str());
      for (double s : {-1.0, 0.0, 0.5, 3.0}) {
        Polynomial q = mkp(p, 0), r = q * s; c.op();
        c.check("scalar-product", same(r.getCoefficients(), ref::scale(p, s)), "* %g gave %s", s, estr(r.getCoefficients()).c_str());
        c.check("operand-unchanged", same(q.getCoefficients(), p), "the operand of a scalar product changed");
        q.scalePolynomialInTime(s); c.op();
        c.check("time-scaling", same(q.getCoefficients(), ref::timescale(p, s)) && q.N() == N, "time scaling by %g gave %s", s, estr(q.getCoefficients()).c_str());
        for (double t : {0.0, 1.0, 1.5}) c.check("time-scaling-value", ref::close(q.evaluate(t, 0), ref::at(p, t * s), ref::mag(p, t * s)), "scaled by %g, at %g: %g", s, t, q.evaluate(t, 0));
        Polynomial o = mkp(p, 1); o.offsetPolynomial(s); c.op(); P e = p; e[0] += s;
        c.check("offset", same(o.getCoefficients(), e), "offset by %g gave %s", s, estr(o.getCoefficients()).c_str());
        for (int i = 0; i < r.N(); i++) { c.obs(r.getCoefficients()[i]); c.obs(q.getCoefficients()[i]); }
      }
      for (int n2 : {N - 1, N, N + 1, N + 3, 12}) {
        if (n2 < 1) continue;
        Polynomial q = mkp(p, 2), r(1); bool ok = q.getPolynomialWithAppendedCoefficients(n2, &r); c.op();
        P e = p; if (n2 > N) e.resize(n2, 0);
        c.check("padding", ok == (n2 >= N) && r.N() == (int)e.size() && same(r.getCoefficients(), e), "padding %d to %d: returned %d, %s", N, n2, ok, estr(r.getCoefficients()).c_str());
        Polynomial self = q; bool ok2 = self.getPolynomialWithAppendedCoefficients(n2, &self); c.op();
        c.check("padding-in-place", ok2 == ok && same(self.getCoefficients(), e), "padding in place %d to %d gave %s", N, n2, estr(self.getCoefficients()).c_str());
      }
      for (int i = 0; i < N; i++) {
        P o = p; o[i] += 1; Polynomial a = mkp(p, 0), b = mkp(o, 0); c.op();
        c.check("inequality", a != b && !(a == b), "polynomials that differ in coefficient %d compare equal", i);
      }
      { P o = p; o.push_back(0); Polynomial a = mkp(p, 0), b = mkp(o, 0); c.op(); c.check("inequality-order", !(a == b) && a != b, "polynomials of different order compare equal"); }
      c.nontrivial();
    }
    c.group("binary");
    std::vector<P> qs;
    for (int n = 1; n <= 3; n++) vectors(n, {-2, 1, 3}, n, qs);
    for (int n = 4; n <= 12; n++) vectors(n, {-2, 3}, n <= 6 && T ? 2 : 1, qs);
    for (auto& a : qs) if (c.take()) {
      c.describe("%s with every one of %zu polynomials: sum and product", str(a).c_str(), qs.size());
      for (auto& b : qs) {
        Polynomial x = mkp(a, 0), y = mkp(b, 1);
        if (a.size() == b.size()) {
          Polynomial s = x + y; c.op(2);
          c.check("sum", same(s.getCoefficients(), ref::add(a, b)) && s.N() == (int)a.size(), "+ %s gave %s", str(b).c_str(), estr(s.getCoefficients()).c_str());
          Polynomial z = x; z += y;
          c.check("sum-in-place", z == s, "+= %s gave %s", str(b).c_str(), estr(z.getCoefficients()).c_str());
          c.check("equality", (x == y) == (a == b) && (x != y) == (a != b), "equality with %s is wrong", str(b).c_str());
        }
        Polynomial pr = x * y; c.op(3);
        c.check("product", same(pr.getCoefficients(), ref::mul(a, b)) && pr.N() == (int)(a.size() + b.size() - 1), "* %s gave %s", str(b).c_str(), estr(pr.getCoefficients()).c_str());
        Eigen::VectorXd cv = Polynomial::convolve(ev(a), ev(b));
        c.check("convolve", same(cv, ref::mul(a, b)), "convolve with %s gave %s", str(b).c_str(), estr(cv).c_str());
        c.check("convolution-length", Polynomial::getConvolutionLength(a.size(), b.size()) == (int)(a.size() + b.size() - 1), "length");
        c.check("operands-unchanged", same(x.getCoefficients(), a) && same(y.getCoefficients(), b), "operands changed");
        for (int i = 0; i < cv.size(); i++) c.obs(cv[i]);
      }
      c.nontrivial();
    }
    c.group("template-convolution");
    conv_t<1, 1>(c, {-2, 1, 3}, 1); conv_t<1, 3>(c, {-2, 1, 3}, 3); conv_t<3, 1>(c, {-2, 1, 3}, 3);
    conv_t<2, 3>(c, {-2, 1, 3}, 3); conv_t<3, 2>(c, {-2, 1, 3}, 3); conv_t<4, 4>(c, {-2, 1}, 4);
    conv_t<6, 5>(c, {-2, 1}, 2); conv_t<5, 6>(c, {-2, 1}, 2); conv_t<10, 9>(c, {-2, 1}, 2); conv_t<12, 11>(c, {-2, 1}, T ? 2 : 1); conv_t<9, 10>(c, {-2, 1}, 2);
    // ---- sequences of mutating operations on one object, against the reference
    c.group("operation-sequences");
    const int depth = T ? 6 : 4; const char* opn[] = {"+=q", "scale(1/2)", "scale(2)", "offset(-3)", "*2", "set(q)", "pad+1", "copy"};
    std::vector<P> starts = {{1}, {0, 1}, {1, -2, 3}, {2, 0, 0, -1}};
    for (auto& s0 : starts) {
      std::vector<int> seq;
      std::function<void()> rec = [&]() {
        if ((int)seq.size() == depth) {
          if (!c.take()) return;
          c.describe("start %s:", str(s0).c_str()); for (int o : seq) c.describe(" %s", opn[o]);
          P m = s0; Polynomial q = mkp(s0, 0); bool fine = true;
          for (int o : seq) {
            P w(m.size()); for (size_t i = 0; i < w.size(); i++) w[i] = (R)(int)i - 1;
            switch (o) {
              case 0: q += mkp(w, 0); m = ref::add(m, w); break;
              case 1: q.scalePolynomialInTime(0.5); m = ref::timescale(m, 0.5); break;
              case 2: q.scalePolynomialInTime(2); m = ref::timescale(m, 2); break;
              case 3: q.offsetPolynomial(-3); m[0] -= 3; break;
              case 4: q = q * 2; m = ref::scale(m, 2); break;
              case 5: q.setCoefficients(ev(w)); m = w; break;
              case 6: { Polynomial r(1); q.getPolynomialWithAppendedCoefficients(m.size() + 1, &r); q = r; m.push_back(0); break; }
              case 7: { Polynomial r(q); r.offsetPolynomial(5); Polynomial r2(1); r2 = q; r2.scalePolynomialInTime(3); break; }
            }
            c.op();
            fine = fine && same(q.getCoefficients(), m) && q.N() == (int)m.size() && ref::close(q.evaluate(1.5, 1), ref::at(m, 1.5, 1), ref::mag(m, 1.5, 1));
            if (!fine) break;
          }
          c.check("sequence", fine, "after the sequence the polynomial is %s, expected %s", estr(q.getCoefficients()).c_str(), str(m).c_str());
          for (int i = 0; i < q.N(); i++) c.obs(q.getCoefficients()[i]);
          c.nontrivial(); return;
        }
        for (int o = 0; o < 8; o++) { seq.push_back(o); rec(); seq.pop_back(); }
      };
      rec();
    }
  });
}
