// C18: trajectory files.  Round trips, every truncation point, every torn write, every single structural mutation and
// every single damaged byte; an independent reading of the document tree says what may be accepted.
#include <sys/resource.h>
#include <yaml-cpp/yaml.h>
#include "trajalpha.h"
#include "mav_trajectory_generation/io.h"
#include "mav_trajectory_generation/trajectory_sampling.h"
using YAML::Node;
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spill(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
struct Plain { long long ns; std::vector<std::vector<double>> dims; };     // what a document describes
typedef std::vector<Plain> Doc;
// ---- independent, strict reading of a document tree
// number notation (hexadecimal, octal, blanks, special values) is yaml-cpp's business
template <class I> static bool rd_int(const Node& n, long long* v) { if (!n.IsDefined() || !n.IsScalar()) return false; I x; if (!YAML::convert<I>::decode(n, x)) return false; *v = (long long)x; return true; }
static bool rd_real(const Node& n, double* v) { return n.IsDefined() && n.IsScalar() && YAML::convert<double>::decode(n, *v); }
static bool rd_segment(const Node& n, Plain* p) {
  if (!n.IsDefined() || !n.IsMap()) return false;
  long long N, D, t; if (!rd_int<int>(n["N"], &N) || !rd_int<int>(n["D"], &D) || !rd_int<uint64_t>(n["time"], &t) || N < 0 || D < 0 || t < 0) return false;
  Node c = n["coefficients"]; if (!c.IsDefined() || !c.IsSequence() || (long long)c.size() != D) return false;
  p->ns = t; p->dims.clear();
  for (long long d = 0; d < D; d++) { if (!c[d].IsSequence() || (long long)c[d].size() != N) return false; std::vector<double> r(N); for (long long i = 0; i < N; i++) if (!rd_real(c[d][i], &r[i])) return false; p->dims.push_back(r); }
  return true;
}
static bool rd_segments(const Node& n, Doc* d) {
  d->clear(); if (!n.IsDefined() || !n.IsSequence()) return false;
  for (size_t i = 0; i < n.size(); i++) { Plain p; if (!rd_segment(n[i], &p)) return false; d->push_back(p); if (p.dims.size() != d->front().dims.size() || (!p.dims.empty() && p.dims[0].size() != d->front().dims[0].size())) return false; }
  return true;
}
static bool rd_doc(const Node& n, Doc* d) { d->clear(); return n.IsDefined() && n.IsMap() && rd_segments(n["segments"], d); }
static bool rd_text(const std::string& s, Doc* d) { try { Node n = YAML::Load(s); return rd_doc(n, d); } catch (const std::exception&) { return false; } }
// ---- comparisons
static bool biteq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool same(const Doc& a, const mtg::Segment::Vector& b, std::string* why) {
  char m[200];
  if (a.size() != b.size()) { snprintf(m, sizeof m, "%zu segments instead of %zu", b.size(), a.size()); *why = m; return false; }
  for (size_t k = 0; k < a.size(); k++) {
    if (b[k].D() != (int)a[k].dims.size()) { snprintf(m, sizeof m, "segment %zu has dimension %d instead of %zu", k, b[k].D(), a[k].dims.size()); *why = m; return false; }
    if (!(std::fabs(b[k].getTime() - a[k].ns * 1e-9) <= 1.001e-9 + a[k].ns * 1e-24)) { snprintf(m, sizeof m, "segment %zu takes %.12g instead of %.12g", k, b[k].getTime(), a[k].ns * 1e-9); *why = m; return false; }
    for (size_t d = 0; d < a[k].dims.size(); d++) { Eigen::VectorXd c = b[k][d].getCoefficients();
      if (c.size() != (long)a[k].dims[d].size() || b[k].N() != c.size()) { snprintf(m, sizeof m, "segment %zu has %ld coefficients", k, (long)c.size()); *why = m; return false; }
      for (int i = 0; i < c.size(); i++) if (!biteq(c[i], a[k].dims[d][i])) { snprintf(m, sizeof m, "segment %zu dimension %zu coefficient %d is %.17g instead of %.17g", k, d, i, c[i], a[k].dims[d][i]); *why = m; return false; } }
  }
  return true;
}
static Doc plain(const mtg::Segment::Vector& s) {
  Doc o; for (auto& g : s) { Plain p; p.ns = llroundl((R)g.getTime() * 1e9L); for (int d = 0; d < g.D(); d++) { Eigen::VectorXd c = g[d].getCoefficients(); p.dims.push_back(std::vector<double>(c.data(), c.data() + c.size())); } o.push_back(p); }
  return o;
}
static Doc head(const Doc& d, size_t n) { return Doc(d.begin(), d.begin() + std::min(n, d.size())); }
// read by every file reader; either refused, or exactly one of the allowed documents
static void read_file(en::Ctx& c, const std::string& f, const std::vector<Doc>& allowed, bool must, const char* what) {
  mtg::Segment::Vector s; bool ok = mtg::segmentsFromFile(f, &s); c.op(); std::string why = "nothing may be read";
  if (must) c.check("segments-file-refused", ok, "%s: refused", what);
  if (ok) { bool m = false; for (auto& a : allowed) m |= same(a, s, &why); c.check("segments-file-wrong", m, "%s: %s", what, why.c_str()); c.obs((long)s.size()); } else c.obs(-1L);
  Trajectory t; bool ok2 = mtg::trajectoryFromFile(f, &t); c.op();
  if (must) c.check("trajectory-file-refused", ok2 || allowed[0].empty(), "%s: refused", what);
  if (ok2) { mtg::Segment::Vector q; t.getSegments(&q); bool m = false; for (auto& a : allowed) m |= !a.empty() && same(a, q, &why); c.check("trajectory-file-wrong", m, "%s: %s", what, why.c_str());
    R sum = 0; for (auto& g : q) sum += g.getTime(); c.check("trajectory-file-time", std::fabs((R)t.getMaxTime() - sum) <= 1e-9L * (1 + sum), "%s: trajectory takes %g, its segments %g", what, t.getMaxTime(), (double)sum); }
}
static void read_nodes(en::Ctx& c, const Node& n, const char* what) {
  Doc d; bool v = rd_doc(n, &d); std::string why;
  { Trajectory t; bool ok = mtg::trajectoryFromYaml(n, &t); c.op(); c.obs(ok);
    c.check("trajectory-yaml", ok == (v && !d.empty()), "%s: %s", what, ok ? "accepted" : "refused"); if (ok && v) { mtg::Segment::Vector q; t.getSegments(&q); c.check("trajectory-yaml-wrong", same(d, q, &why), "%s: %s", what, why.c_str()); } }
  if (n.IsDefined() && n.IsMap()) { Node s = n["segments"]; Doc e; bool vs = rd_segments(s, &e); mtg::Segment::Vector q; bool ok = mtg::segmentsFromYaml(s, &q); c.op(); c.obs(ok);
    c.check("segments-yaml", ok == vs, "%s: %s", what, ok ? "accepted" : "refused"); if (ok && vs) c.check("segments-yaml-wrong", same(e, q, &why), "%s: %s", what, why.c_str());
    if (s.IsDefined() && s.IsSequence()) for (size_t i = 0; i < s.size(); i++) { Plain p; bool vp = rd_segment(s[i], &p); Segment g(1, 1); bool og = mtg::segmentFromYaml(s[i], &g); c.op(); c.obs(og);
      c.check("segment-yaml", og == vp, "%s: segment %zu %s", what, i, og ? "accepted" : "refused"); if (og && vp) c.check("segment-yaml-wrong", same({p}, {g}, &why), "%s: %s", what, why.c_str());
      if (s[i].IsMap() && s[i]["coefficients"].IsSequence()) for (size_t k = 0; k < s[i]["coefficients"].size(); k++) { Node cn = s[i]["coefficients"][k]; std::vector<double> r; bool vc = cn.IsSequence(); if (vc) for (size_t j = 0; j < cn.size(); j++) { double x = 0; if (!rd_real(cn[j], &x)) vc = false; r.push_back(x); }
        Eigen::VectorXd o; bool oc = mtg::coefficientsFromYaml(cn, &o); c.op(); c.check("coefficients-yaml", oc == vc, "%s: coefficients %s", what, oc ? "accepted" : "refused");
        if (oc && vc) { bool m = o.size() == (long)r.size(); for (size_t j = 0; m && j < r.size(); j++) m = biteq(o[j], r[j]); c.check("coefficients-yaml-wrong", m, "%s", what); } } } }
}
// ---- structural mutations of a tree: the k-th place, the j-th replacement
static Node clone(const Node& n) { return YAML::Clone(n); }
static const std::vector<std::string> REPL = {"~", "abc", "''", "'1 2'", "-1", "0", "1", "2", "3", "3.5", "1e300", "999999999", "99999999999999999999", "-99999999999999999999", "0x10", "true", "[]", "{}", "[1]", "[[1]]", "{a: 1}", "[1, 2, 3, 4]", "[~]", ".nan", "-.inf", "1.0", "1e2"};
struct Mut { std::string what; std::function<Node(const Node&)> f; };
static void places(const Node& n, std::vector<std::vector<int>>& out, std::vector<int> at = {}) {
  out.push_back(at);
  if (n.IsSequence()) for (size_t i = 0; i < n.size(); i++) { auto a = at; a.push_back(i); places(n[i], out, a); }
  if (n.IsMap()) { int i = 0; for (auto kv : n) { auto a = at; a.push_back(i++); places(kv.second, out, a); } }
}
static Node rebuild(const Node& n, const std::vector<int>& at, size_t lvl, const std::function<bool(Node&, bool inmap, std::string& key, int& copies)>& edit) {
  // returns a copy of n in which the child named by `at` has been edited
  Node o;
  if (n.IsSequence()) { o = Node(YAML::NodeType::Sequence); for (size_t i = 0; i < n.size(); i++) { Node ch = clone(n[i]); int copies = 1; std::string key; if ((int)i == at[lvl]) { if (lvl + 1 == at.size()) edit(ch, false, key, copies); else ch = rebuild(n[i], at, lvl + 1, edit); } for (int k = 0; k < copies; k++) o.push_back(clone(ch)); } }
  else { o = Node(YAML::NodeType::Map); int i = 0; for (auto kv : n) { Node ch = clone(kv.second); int copies = 1; std::string key = kv.first.as<std::string>(); if (i++ == at[lvl]) { if (lvl + 1 == at.size()) edit(ch, true, key, copies); else ch = rebuild(kv.second, at, lvl + 1, edit); } if (copies > 0) o[key] = ch; } }
  return o;
}
int main(int argc, char** argv) {
  google::InitGoogleLogging("c18"); FLAGS_minloglevel = 4; signal(SIGXFSZ, SIG_IGN);
  return en::run_main(argc, argv, "C18", [](en::Ctx& c) {
    const bool T = c.thorough; const std::string F = c.scratch() + "/f.yaml", G = c.scratch() + "/g.yaml";
    std::vector<Traj> al;
    const std::vector<std::vector<double>> tss[3] = {{{1}, {0.3}, {123.456789012}}, {{1, 1}, {0.1, 0.7}, {1.0 / 3, 2e-9}}, {{1, 0.5, 0.25}, {0.1, 0.2, 0.3}, {4000.000000001, 0.05, 1}}};
    for (int D = 1; D <= 6; D++) for (int K = 1; K <= 3; K++) for (int N : {1, 2, 6, 10, 12}) for (auto& ts : tss[K - 1]) for (int seed = 0; seed < (T ? 4 : 1); seed++) al.push_back(mkref(D, K, N, seed + D, ts));
    for (int K : T ? std::vector<int>{4, 5, 8, 9, 10, 11, 16, 33, 101} : std::vector<int>{5, 11, 34}) for (int D : {1, 3}) for (int N : {4, 10}) al.push_back(mkref(D, K, N, K, many_times(K, K)));
    for (int D : {7, 11}) al.push_back(mkref(D, 2, 6, D, {1, 0.4}));
    { // values that need every digit, extreme and special values
      for (double v : {1.0 / 3, 0.1, 1e-300, 5e-324, 1.7976931348623157e308, -0.0, 123456789.123456789, 9007199254740993.0, 2.2250738585072014e-308, (double)INFINITY, -(double)INFINITY, (double)NAN, 1e21, 1e-7, 12345678901234567.0})
        al.push_back({{1, {{(R)v, 1, -(R)v, 0.3L}, {0, (R)v, 2.0L / 7, 0}}}, {0.7, {{1, (R)v, 0, 1.0L / 9}, {(R)v, 0, 0, 1}}}});
    }
    c.group("roundtrip");
    for (auto& r : al) if (c.take()) {
      c.describe("%s", str(r).c_str()); c.nontrivial();
      Trajectory t = mkt(r); mtg::Segment::Vector sg; t.getSegments(&sg); Doc d = plain(sg); std::string why;
      unlink(F.c_str());
      c.check("write", mtg::trajectoryToFile(F, t), "trajectoryToFile failed"); c.op();
      Doc back; c.check("document", rd_text(slurp(F), &back) && back.size() == d.size(), "the written file is not a valid document");
      for (auto& x : d) for (auto& y : x.dims) for (double z : y) c.obs(z);
      read_file(c, F, {d}, true, "round trip");
      c.check("write-segments", mtg::segmentsToFile(G, sg), "segmentsToFile failed"); c.check("same-file", slurp(F) == slurp(G), "segmentsToFile and trajectoryToFile differ");
      // writing over a longer file leaves nothing of it
      spill(F, slurp(G) + slurp(G) + slurp(G)); mtg::trajectoryToFile(F, t); c.check("overwrite", slurp(F) == slurp(G), "old contents remain");
      Node n = mtg::trajectoryToYaml(t); read_nodes(c, n, "round trip through YAML");
      { Trajectory q; c.check("yaml-read", mtg::trajectoryFromYaml(n, &q), "refused"); mtg::Segment::Vector s2; q.getSegments(&s2); c.check("yaml-same", same(d, s2, &why), "%s", why.c_str()); }
      std::ostringstream os; os << n; Node n2 = YAML::Load(os.str()); { Trajectory q; c.check("yaml-text-read", mtg::trajectoryFromYaml(n2, &q), "refused"); mtg::Segment::Vector s2; q.getSegments(&s2); c.check("yaml-text-values", s2.size() == d.size(), "%zu", s2.size());
        bool close = s2.size() == d.size(); for (size_t k = 0; close && k < d.size(); k++) for (size_t i = 0; close && i < d[k].dims.size(); i++) for (size_t j = 0; close && j < d[k].dims[i].size(); j++) close = biteq(s2[k][i].getCoefficients()[j], d[k].dims[i][j]); c.check("yaml-text-same", close, "coefficients changed on the way through text"); }
      // a second generation changes nothing
      Trajectory t2; if (mtg::trajectoryFromFile(F, &t2)) { mtg::trajectoryToFile(G, t2); Doc g; rd_text(slurp(G), &g); for (size_t k = 0; k < g.size() && k < d.size(); k++) c.check("second-generation", std::llabs(g[k].ns - d[k].ns) <= 2, "time of segment %zu drifts from %lld to %lld ns", k, d[k].ns, g[k].ns); }
      // read into objects that hold something else
      Trajectory used = mkt({{3, {{1, 2, 3}, {4, 5, 6}}}}); if (mtg::trajectoryFromFile(F, &used)) { mtg::Segment::Vector s3; used.getSegments(&s3); c.check("reuse", same(d, s3, &why), "%s", why.c_str()); }
      mtg::Segment::Vector u(5, mks({1, {{1, 2}}})); if (mtg::segmentsFromFile(F, &u)) c.check("reuse-segments", same(d, u, &why), "%s", why.c_str());
    }
    std::vector<Traj> small{mkref(1, 1, 2, 0, {1}), mkref(2, 2, 3, 1, {1.0 / 3, 2}), mkref(3, 3, 4, 2, {0.5, 12.25, 0.1})}; if (T) { small.push_back(mkref(4, 2, 10, 3, {1, 2})); small.push_back(mkref(3, 5, 6, 1, {1, 2, 0.1, 0.7, 10})); }
    auto written = [&](const Traj& r, Doc* d) { Trajectory t = mkt(r); mtg::Segment::Vector sg; t.getSegments(&sg); *d = plain(sg); mtg::segmentsToFile(F, sg); std::string s = slurp(F); Doc q; if (rd_text(s, &q)) *d = q; return s; };
    c.group("truncated");
    for (size_t w = 0; w < small.size(); w++) { std::string s; Doc d; s = written(small[w], &d);
      for (size_t k = 0; k < s.size(); k++) if (c.take()) {
        c.describe("trajectory %zu cut after %zu of %zu bytes", w, k, s.size()); c.nontrivial();
        spill(F, s.substr(0, k)); std::vector<Doc> ok; for (size_t i = 1; i <= d.size(); i++) ok.push_back(head(d, i));
        // a cut inside the last number of all may go unnoticed by any reader only if the number is complete
        read_file(c, F, ok, false, "cut file");
        try { Node n = YAML::Load(s.substr(0, k)); read_nodes(c, n, "cut document"); } catch (const YAML::Exception&) {}
      } }
    c.group("torn-write");
    for (size_t w = 0; w < small.size(); w++) { std::string s; Doc d; s = written(small[w], &d); Trajectory t = mkt(small[w]); mtg::Segment::Vector sg; t.getSegments(&sg);
      for (size_t k = 0; k <= s.size() + 1; k++) if (c.take()) {
        c.describe("trajectory %zu, space for %zu of %zu bytes", w, k, s.size()); c.nontrivial(); unlink(G.c_str());
        rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &lim);
        bool ok = k % 2 ? mtg::segmentsToFile(G, sg) : mtg::trajectoryToFile(G, t); setrlimit(RLIMIT_FSIZE, &old); c.op(); c.obs(ok);
        c.check("write-result", ok == (slurp(G) == s), "%zu bytes were written, reported as %s", slurp(G).size(), ok ? "success" : "failure");
        std::vector<Doc> al2; for (size_t i = 1; i <= d.size(); i++) al2.push_back(head(d, i)); read_file(c, G, al2, ok, "torn file");
      } }
    c.group("damaged-byte");
    const std::string subst = std::string(" -:[]{}#\"',\n0.e&*!|>%@`x\t") + '\0' + '\xff';
    for (size_t w = 0; w < (T ? small.size() : 2); w++) { std::string s; Doc d; s = written(small[w], &d);
      for (size_t k = 0; k < s.size(); k++) if (c.take()) {
        c.describe("trajectory %zu, byte %zu (%c) replaced, removed or doubled", w, k, s[k]); c.nontrivial();
        for (size_t j = 0; j < subst.size() + 2; j++) {
          std::string q = s; if (j == subst.size()) q.erase(k, 1); else if (j == subst.size() + 1) q.insert(k, 1, q[k]); else q[k] = subst[j];
          spill(F, q); Doc e; bool v = rd_text(q, &e); read_file(c, F, v ? std::vector<Doc>{e} : std::vector<Doc>{}, v, "damaged file");
        }
      } }
    c.group("mutated");
    for (size_t w = 0; w < small.size(); w++) { Doc d; std::string s = written(small[w], &d); Node root = YAML::Load(s); std::vector<std::vector<int>> pl; places(root, pl);
      for (auto& at : pl) if (c.take()) {
        c.describe("trajectory %zu, node", w); for (int i : at) c.describe(" %d", i); c.nontrivial();
        std::vector<std::pair<std::string, Node>> ms;
        if (at.empty()) for (auto& r : REPL) ms.push_back({"root := " + r, YAML::Load(r)});
        else {
          for (auto& r : REPL) ms.push_back({":= " + r, rebuild(root, at, 0, [&](Node& n, bool, std::string&, int&) { n = YAML::Load(r); return true; })});
          ms.push_back({"removed", rebuild(root, at, 0, [&](Node&, bool, std::string&, int& k) { k = 0; return true; })});
          ms.push_back({"doubled", rebuild(root, at, 0, [&](Node&, bool, std::string&, int& k) { k = 2; return true; })});
          ms.push_back({"renamed", rebuild(root, at, 0, [&](Node&, bool, std::string& key, int&) { key += "x"; return true; })});
          ms.push_back({"wrapped", rebuild(root, at, 0, [&](Node& n, bool, std::string&, int&) { Node o(YAML::NodeType::Sequence); o.push_back(YAML::Clone(n)); n = o; return true; })});
          ms.push_back({"shortened", rebuild(root, at, 0, [&](Node& n, bool, std::string&, int&) { if (n.IsSequence() && n.size()) { Node o(YAML::NodeType::Sequence); for (size_t i = 1; i < n.size(); i++) o.push_back(YAML::Clone(n[i])); n = o; } return true; })});
          ms.push_back({"lengthened", rebuild(root, at, 0, [&](Node& n, bool, std::string&, int&) { if (n.IsSequence()) n.push_back(n.size() ? YAML::Clone(n[0]) : Node(1)); return true; })});
        }
        for (auto& m : ms) {
          read_nodes(c, m.second, m.first.c_str());
          std::ostringstream os; os << m.second; spill(F, os.str()); Doc e; bool v = rd_text(os.str(), &e);
          read_file(c, F, v ? std::vector<Doc>{e} : std::vector<Doc>{}, v, m.first.c_str());
        }
      } }
    c.group("not-together");     // whole segments of other sizes than the first
    for (int N : {4, 6, 10}) for (int D : {1, 3, 4}) for (int n2 : {N - 1, N, N + 1, N + 6}) for (int d2 : {D, D - 1, D + 1}) for (int at = 0; at < 4; at++) for (int K : {2, 3, 12}) if (d2 > 0 && c.take()) {
      int pos = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? K / 2 : K - 1;
      Traj r; for (int i = 0; i < K; i++) r.push_back(mkref(i == pos ? d2 : D, 1, i == pos ? n2 : N, i, {0.5 + i})[0]);
      c.describe("%d segments of %d coefficients in %d dimensions, segment %d of %d in %d", K, N, D, pos, n2, d2); c.nontrivial();
      mtg::Segment::Vector sg; for (auto& q : r) sg.push_back(mks(q));
      mtg::segmentsToFile(F, sg); Doc e; std::string q = slurp(F); bool v = rd_text(q, &e); c.check("document", v == (n2 == N && d2 == D), "the written file %s", v ? "belongs together" : "cannot be read");
      read_file(c, F, v ? std::vector<Doc>{e} : std::vector<Doc>{}, v, "segments of several sizes"); read_nodes(c, YAML::Load(q), "segments of several sizes"); read_nodes(c, mtg::segmentsToYaml(sg), "segments of several sizes");
    }
    c.group("no-file");
    for (int k = 0; k < 9; k++) if (c.take()) {
      const char* what[] = {"missing file", "missing directory", "a directory", "empty file", "blank file", "binary file", "only a comment", "two documents", "file of another kind"}; c.describe("%s", what[k]); c.nontrivial();
      std::string f = F; unlink(F.c_str());
      if (k == 1) f = c.scratch() + "/none/f.yaml"; if (k == 2) f = c.scratch(); if (k == 3) spill(F, ""); if (k == 4) spill(F, "\n\n  \n"); if (k == 5) spill(F, std::string("\x00\x01\xfe\xff\x80YAML", 9)); if (k == 6) spill(F, "# nothing here\n"); if (k == 7) spill(F, "a: 1\n---\nb: 2\n"); if (k == 8) spill(F, "t,x,y\n0,1,2\n");
      read_file(c, f, {}, false, what[k]);
      if (k == 1 || k == 2) { Trajectory t = mkt(small[1]); c.check("unwritable", !mtg::trajectoryToFile(f, t) && !mtg::sampledTrajectoryStatesToFile(f, mkt(mkref(3, 1, 6, 0, {1}))), "writing to %s is reported as success", what[k]); c.op(2); }
    }
    if (c.take()) { c.describe("full device"); Trajectory t = mkt(mkref(3, 2, 6, 0, {1, 2})); if (access("/dev/full", W_OK) == 0) { c.check("full", !mtg::trajectoryToFile("/dev/full", t), "writing to a full device is reported as success"); c.check("full-sampled", !mtg::sampledTrajectoryStatesToFile("/dev/full", t), "writing samples to a full device is reported as success"); c.op(2); } }
    c.group("sampled");
    for (int D : {3, 4, 6}) for (int K : {1, 2, 3, 7, 12}) for (auto& ts0 : std::vector<std::vector<double>>{{1, 1, 1}, {0.05, 0.3, 0.1}, {0.004, 0.003, 0.002}, {2.5, 0.01, 0.7}}) for (int seed = 0; seed < (T ? 4 : 2); seed++) if (c.take()) {
      Traj r = mkref(D, K, 6, seed, [&] { std::vector<double> t; for (int i = 0; i < K; i++) t.push_back(ts0[i % 3]); return t; }()); c.describe("%s", str(r).c_str()); c.nontrivial(); Trajectory t = mkt(r); unlink(F.c_str());
      bool w = mtg::sampledTrajectoryStatesToFile(F, t); c.op(); if (!c.check("write", w, "failed")) continue;
      mav_msgs::EigenTrajectoryPoint::Vector pts; bool sp = mtg::sampleWholeTrajectory(t, 0.01, &pts);
      std::istringstream is(slurp(F)); std::string l; std::vector<std::vector<double>> rows; while (std::getline(is, l)) { std::istringstream ls(l); std::vector<double> v; double x; while (ls >> x) v.push_back(x); if (!v.empty()) rows.push_back(v); }
      c.check("rows", sp && rows.size() == pts.size(), "%zu rows for %zu samples", rows.size(), pts.size());
      double acc = 0, cum = 0; (void)acc;
      for (size_t i = 0; i < rows.size() && i < pts.size(); i++) {
        if (!c.check("columns", rows[i].size() == 27, "row %zu has %zu columns", i, rows[i].size())) break;
        auto& p = pts[i]; std::vector<double> e{(double)p.time_from_start_ns}; for (auto* v : {&p.position_W, &p.velocity_W, &p.acceleration_W, &p.jerk_W, &p.snap_W}) for (int k = 0; k < 3; k++) e.push_back((*v)[k]);
        e.insert(e.end(), {p.orientation_W_B.w(), p.orientation_W_B.x(), p.orientation_W_B.y(), p.orientation_W_B.z()}); for (auto* v : {&p.angular_velocity_W, &p.angular_acceleration_W}) for (int k = 0; k < 3; k++) e.push_back((*v)[k]);
        // the values themselves, from the reference
        double ti = i * 0.01; bool any = false; for (auto& q : locate(r, ti, 1e-9L)) { bool ok = true; for (int k = 0; k < 5; k++) for (int d = 0; d < 3; d++) ok &= fabsl(rows[i][1 + 3 * k + d] - ref::at(r[q.first].dims[d], q.second, k)) <= 1e-5L * (1 + ref::mag(r[q.first].dims[d], q.second, k) + ref::mag(r[q.first].dims[d], q.second, k + 1)); any |= ok; }
        c.check("state", any, "row %zu does not hold the state at %g", i, ti);
        for (int k = 0; k < 26; k++) { c.obs(rows[i][k]); if (!c.check("value", std::fabs(rows[i][k] - e[k]) <= 1e-5 * std::fabs(e[k]) + 1e-300, "row %zu column %d: %g, sampled %g", i, k, rows[i][k], e[k])) break; }
        if ((int)i < K) { cum += r[i].T; c.check("segment-end", std::fabs(rows[i][26] - cum) <= 1e-5 * cum, "segment %zu ends at %g, expected %g", i, rows[i][26], cum); } else c.check("segment-end-none", rows[i][26] == 0, "row %zu: %g", i, rows[i][26]);
      }
    }
  });
}
