// C20: vertices against a plain map.
#include <glog/logging.h>
#include <map>
#include "mav_trajectory_generation/vertex.h"
#include "enumr.h"
namespace mtg = mav_trajectory_generation; using mtg::Vertex; typedef Eigen::VectorXd X; typedef std::map<int, std::vector<double>> M;
static X ex(const std::vector<double>& v) { X x(v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }
static std::string str(const M& m) { std::string s = "{"; for (auto& e : m) { s += std::to_string(e.first) + ":"; for (double d : e.second) { char b[30]; snprintf(b, sizeof b, "%g,", d); s += b; } s += " "; } return s + "}"; }
static bool eq(const X& a, const std::vector<double>& b) { if (a.size() != (int)b.size()) return false; for (size_t i = 0; i < b.size(); i++) if (a[i] != b[i]) return false; return true; }
static void same(en::Ctx& c, const char* what, const Vertex& v, int D, const M& m) {
  std::string s = what; auto S = [&](const char* x) { static std::string t; t = s + "-" + x; return t.c_str(); };
  c.check(S("dimension"), v.D() == D, "%d, expected %d", v.D(), D);
  c.check(S("count"), v.getNumberOfConstraints() == m.size(), "%zu constraints, expected %zu of %s", v.getNumberOfConstraints(), m.size(), str(m).c_str());
  auto it = m.begin(); bool ok = true; for (auto q = v.cBegin(); q != v.cEnd(); ++q, ++it) { if (it == m.end() || q->first != it->first || !eq(q->second, it->second)) { ok = false; break; } }
  c.check(S("iteration"), ok && it == m.end(), "iteration does not list %s", str(m).c_str());
  for (int o = -1; o <= 6; o++) {
    X out(2); out << 5, 6; bool h = v.hasConstraint(o), g = v.getConstraint(o, &out); bool w = m.count(o);
    c.check(S("has"), h == w && g == w, "order %d: has %d, get %d, expected %d", o, h, g, w);
    if (w && g) c.check(S("get"), eq(out, m.at(o)), "order %d has another value", o);
  }
}
int main(int argc, char** argv) {
  google::InitGoogleLogging("c20"); FLAGS_minloglevel = 3;
  return en::run_main(argc, argv, "C20", [](en::Ctx& c) {
    const bool T = c.thorough;
    c.group("sequences");
    const int deep = T ? 5 : 4, NO = 11;
    for (int D : {1, 2, 3, 4, 7}) { const int L = D > 3 ? deep - 1 : deep; long n = 1; for (int i = 0; i < L; i++) n *= NO;
      for (long code = 0; code < n; code++) if (c.take()) {
        Vertex v(D); M m; long q = code; c.describe("dimension %d:", D);
        auto vec = [&](double a) { std::vector<double> o; for (int i = 0; i < D; i++) o.push_back(a + i * 0.5); return o; };
        for (int i = 0; i < L; i++, q /= NO) {
          c.op();
          switch (q % NO) {
            case 0: v.addConstraint(0, ex(vec(1))); m[0] = vec(1); c.describe(" add0"); break;
            case 1: v.addConstraint(0, ex(vec(-2))); m[0] = vec(-2); c.describe(" add0b"); break;
            case 2: v.addConstraint(1, ex(vec(3))); m[1] = vec(3); c.describe(" add1"); break;
            case 3: v.addConstraint(2, 4.0); m[2] = std::vector<double>(D, 4.0); c.describe(" addscalar2"); break;
            case 4: v.addConstraint(4, ex(vec(0))); m[4] = vec(0); c.describe(" add4"); break;
            case 5: for (int o : {0, 1}) { bool r = v.removeConstraint(o); c.check("remove", r == (m.erase(o) > 0), "remove %d returned %d", o, r); } c.describe(" remove01"); break;
            case 6: { bool r = v.removeConstraint(2); c.check("remove", r == (m.erase(2) > 0), "remove 2 returned %d", r); c.describe(" remove2"); break; }
            case 7: v.makeStartOrEnd(ex(vec(7)), 2); m[0] = vec(7); m[1] = m[2] = std::vector<double>(D, 0); c.describe(" startorend2"); break;
            case 8: v.makeStartOrEnd(0.25, 1); m[0] = std::vector<double>(D, 0.25); m[1] = std::vector<double>(D, 0); c.describe(" startorend1"); break;
            case 9: { Vertex w(v); w.addConstraint(3, 9.0); w.removeConstraint(0); Vertex u(5); u = v; v = u; c.describe(" copy"); break; }
            case 10: { Vertex s(1); bool r = v.getSubdimension({(size_t)(D - 1)}, 3, &s); c.check("sub", r, "refused"); c.describe(" sub"); M sm; for (auto& e : m) if (e.first <= 3) sm[e.first] = {e.second[D - 1]}; same(c, "sub", s, 1, sm); break; }
          }
          same(c, "after", v, D, m);
        }
        c.nontrivial(); for (auto& e : m) { c.obs(e.first); for (double d : e.second) c.obs(d); }
      } }
    c.group("subdimension");
    std::vector<std::vector<size_t>> subs{{}}; for (size_t a = 0; a < 5; a++) { subs.push_back({a}); for (size_t b = 0; b < 5; b++) { subs.push_back({a, b}); for (size_t d = 0; d < 5; d++) subs.push_back({a, b, d}); } }
    for (int D : {1, 2, 3, 4, 7}) for (int mask = 0; mask < 32; mask++) for (int mo = -1; mo <= 5; mo++) if (c.take()) {
      Vertex v(D); M m; for (int o = 0; o < 5; o++) if (mask >> o & 1) { std::vector<double> x; for (int i = 0; i < D; i++) x.push_back(10 * o + i); m[o] = x; v.addConstraint(o, ex(x)); }
      c.describe("dimension %d constraints %s up to order %d", D, str(m).c_str(), mo); c.nontrivial();
      for (auto& s : subs) {
        for (int pre = 0; pre < 2; pre++) {      // the output held something else, of another or of the same dimension
        Vertex o(pre && !s.empty() ? s.size() : 9); if (pre) for (int q : {0, 2, 4}) o.addConstraint(q, -77.0); o.addConstraint(5, 1.0); bool r = v.getSubdimension(s, mo, &o); c.op(); bool want = true; for (size_t i : s) want &= (int)i < D;
        if (!c.check("accepts", r == want, "returned %d, expected %d", r, want) || !want) continue;
        M e; for (auto& p : m) if (p.first <= mo) { std::vector<double> x; for (size_t i : s) x.push_back(p.second[i]); e[p.first] = x; }
        same(c, "sub", o, (int)s.size(), e);
        }
      }
    }
    c.group("equality");
    struct Q { int D; M m; }; std::vector<Q> al;
    for (int D : {1, 2, 3}) for (int mask = 0; mask < 8; mask++) for (int var = 0; var < 5; var++) {
      M m; for (int o = 0; o < 3; o++) if (mask >> o & 1) { std::vector<double> x; for (int i = 0; i < D; i++) x.push_back(o + i); if (var == 1) x[0] += 1e-3; if (var == 2) x.back() -= 1e-3; if (var == 3 && o == 1) x[0] += 0.5; if (var == 4) x.back() += 1e-9; m[o * (var == 3 ? 1 : 1)] = x; }
      al.push_back({D, m});
    }
    for (size_t i = 0; i < al.size(); i++) for (size_t j = 0; j < al.size(); j++) if (c.take()) {
      c.describe("%d%s against %d%s", al[i].D, str(al[i].m).c_str(), al[j].D, str(al[j].m).c_str()); c.nontrivial();
      Vertex a(al[i].D), b(al[j].D); for (auto& e : al[i].m) a.addConstraint(e.first, ex(e.second)); for (auto& e : al[j].m) b.addConstraint(e.first, ex(e.second));
      for (double tol : {1e-12, 1e-6, 1e-2, 1.0}) {
        bool w = al[i].D == al[j].D && al[i].m.size() == al[j].m.size();
        for (auto& e : al[i].m) if (w) { auto it = al[j].m.find(e.first); if (it == al[j].m.end()) { w = false; break; } for (size_t k = 0; k < e.second.size(); k++) w &= std::fabs(e.second[k] - it->second[k]) <= tol; }
        bool g = a.isEqualTol(b, tol), h = b.isEqualTol(a, tol); c.op(2); c.check("equal", g == w, "tolerance %g: %d, expected %d", tol, g, w); c.check("symmetric", g == h, "not symmetric"); c.obs((int)g);
      }
    }
    c.group("random-vertices");
    for (int D : {1, 2, 3, 4, 7}) for (int n : {1, 2, 3, 4, 5, 6, 11, 30}) for (int md : {1, 2, 4}) for (int box = 0; box < 3; box++) for (size_t seed = 0; seed < (T ? 40u : 6u); seed++) if (c.take()) {
      X lo = X::Constant(D, box == 0 ? -3 : box == 1 ? 0.5 : -100), hi = X::Constant(D, box == 0 ? 4 : box == 1 ? 1.1 : 100); for (int i = 0; i < D; i++) hi[i] += 0.1 * i;
      c.describe("createRandomVertices(%d,%d) dimension %d box %d seed %zu", md, n, D, box, seed); c.nontrivial();
      auto v = mtg::createRandomVertices(md, n, lo, hi, seed), w = mtg::createRandomVertices(md, n, lo, hi, seed), u = mtg::createRandomVertices(md, n, lo, hi, seed + 1); c.op(3);
      if (!c.check("count", (int)v.size() == n + 1, "%zu vertices for %d segments", v.size(), n)) continue;
      bool rep = w.size() == v.size(), dif = false; X last;
      for (int i = 0; i <= n; i++) {
        bool end = i == 0 || i == n; X p, z; bool h = v[i].getConstraint(0, &p);
        c.check("position", h && v[i].D() == D && p.size() == D && (p.array() >= lo.array()).all() && (p.array() <= hi.array()).all(), "vertex %d lies outside the bounds", i);
        c.check("constraints", (int)v[i].getNumberOfConstraints() == (end ? md + 1 : 1), "vertex %d has %zu constraints", i, v[i].getNumberOfConstraints());
        if (end) for (int o = 1; o <= md; o++) c.check("end-at-rest", v[i].getConstraint(o, &z) && z.size() == D && z.norm() == 0, "vertex %d order %d", i, o);
        if (i) c.check("apart", (p - last).norm() > 0.2 - 1e-12, "vertices %d and %d are %g apart", i - 1, i, (p - last).norm());
        last = p; rep = rep && v[i].isEqualTol(w[i], 0); dif = dif || !v[i].isEqualTol(u[i], 1e-9); c.obs(p[0]);
      }
      c.check("reproducible", rep, "the same seed gives other vertices"); c.check("seeded", dif, "another seed gives the same vertices");
      if (D == 1) { auto o = mtg::createRandomVertices1D(md, n, lo[0], hi[0], seed); bool ok = o.size() == v.size(); for (size_t i = 0; ok && i < o.size(); i++) ok = o[i].isEqualTol(v[i], 0); c.check("one-dimensional", ok, "the 1D form differs"); c.op(); }
    }
    c.group("square-vertices");
    for (double s : {0.5, 1.0, 10.0}) for (int r : {1, 2, 3, 4, 9, 25}) for (int md : {1, 2, 4}) for (double z : {0.0, -2.0, 3.5}) if (c.take()) {
      Eigen::Vector3d ce(1, -2, z); c.describe("square of %g, %d rounds, %d derivatives, height %g", s, r, md, z); c.nontrivial();
      auto v = mtg::createSquareVertices(md, ce, s, r); c.op();
      if (!c.check("count", (int)v.size() == 4 * r + 1, "%zu vertices", v.size())) continue;
      X first, last; v[0].getConstraint(0, &first);
      for (size_t i = 0; i < v.size(); i++) {
        X p, y; bool end = i == 0 || i + 1 == v.size(); bool h = v[i].getConstraint(0, &p);
        if (!c.check("position", h && p.size() == 3, "vertex %zu has no position", i)) break;
        c.check("corner", std::fabs(std::fabs(p[0] - ce[0]) - s / 2) < 1e-12 && std::fabs(std::fabs(p[1] - ce[1]) - s / 2) < 1e-12 && p[2] == z, "vertex %zu is no corner", i);
        if (i) c.check("side", std::fabs((p - last).norm() - s) < 1e-12, "vertices %zu and %zu are %g apart", i - 1, i, (p - last).norm());
        if (i >= 2) { X pp; v[i - 2].getConstraint(0, &pp); c.check("goes-round", std::fabs((p - pp).norm() - s * std::sqrt(2.0)) < 1e-12, "vertex %zu turns back", i); }
        if (i % 4 == 0) c.check("closed", (p - first).norm() < 1e-12, "round %zu does not end where it started", i / 4);
        c.check("constraints", (int)v[i].getNumberOfConstraints() == (end ? md + 1 : 1), "vertex %zu has %zu constraints", i, v[i].getNumberOfConstraints());
        if (end) for (int o = 1; o <= md; o++) c.check("end-at-rest", v[i].getConstraint(o, &y) && y.norm() == 0, "order %d", o);
        last = p; c.obs(p[0]);
      }
    }
    c.group("names");
    const char* pn[] = {"position", "velocity", "acceleration", "jerk", "snap"}; const char* on[] = {"orientation", "angular_velocity", "angular_acceleration"};
    for (int d = -3; d <= 9; d++) if (c.take()) {
      c.describe("derivative %d", d); c.nontrivial(); c.op(2);
      std::string p = mtg::positionDerivativeToString(d), o = mtg::orintationDerivativeToString(d);
      c.check("position-name", p == (d >= 0 && d <= 4 ? pn[d] : "invalid"), "%s", p.c_str()); c.check("orientation-name", o == (d >= 0 && d <= 2 ? on[d] : "invalid"), "%s", o.c_str());
      c.check("position-back", mtg::positionDerivativeToInt(p) == (d >= 0 && d <= 4 ? d : -1), "%s", p.c_str()); c.check("orientation-back", mtg::orientationDerivativeToInt(o) == (d >= 0 && d <= 2 ? d : -1), "%s", o.c_str());
      c.check("highest", d < 2 || mtg::getHighestDerivativeFromN(2 * d) == d - 1, "highest derivative of %d coefficients", 2 * d);
    }
    for (const char* s : {"", "Position", "velocity ", "vel", "snapp", "invalid", "0"}) if (c.take()) { c.describe("name '%s'", s); c.op(2); c.nontrivial(); c.check("unknown", mtg::positionDerivativeToInt(s) == -1 && mtg::orientationDerivativeToInt(s) == -1, "accepted"); }
  });
}
