// C22: timing statistics, under a virtual clock.
#include <chrono>
static long long g_now = 1000000000000LL;       // ns
namespace std { namespace chrono { inline namespace _V2 {
  system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now)); }
  steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now)); }
} } }
#include <memory>
#include "mav_trajectory_generation/timing.h"
#include "enumr.h"
using namespace mav_trajectory_generation::timing;
typedef long double LD;
struct Stat { std::vector<LD> s; };
template <typename A> static void judge(en::Ctx& c, const A& a, const std::vector<LD>& s, int N, LD tol, const char* after) {
  c.check("count", a.TotalSamples() == (int)s.size(), "%s: %d samples, %zu recorded", after, a.TotalSamples(), s.size());
  LD sum = 0; for (LD x : s) sum += x;
  c.check("sum", std::fabs((LD)a.Sum() - sum) <= tol, "%s: sum %.12g, expected %.12g", after, a.Sum(), (double)sum);
  c.obs(a.Sum());
  if (s.empty()) { c.check("variance-empty", a.LazyVariance() == 0, "%s: variance %g without samples", after, a.LazyVariance()); return; }
  LD mn = *std::min_element(s.begin(), s.end()), mx = *std::max_element(s.begin(), s.end());
  c.check("mean", std::fabs((LD)a.Mean() - sum / s.size()) <= tol, "%s: mean %.12g, expected %.12g", after, a.Mean(), (double)(sum / s.size()));
  c.check("min", std::fabs((LD)a.Min() - mn) <= tol, "%s: minimum %.12g, expected %.12g", after, a.Min(), (double)mn);
  c.check("max", std::fabs((LD)a.Max() - mx) <= tol, "%s: maximum %.12g, expected %.12g", after, a.Max(), (double)mx);
  size_t k = std::min<size_t>(s.size(), N); LD ws = 0, wv = 0; for (size_t i = s.size() - k; i < s.size(); i++) ws += s[i]; ws /= k; for (size_t i = s.size() - k; i < s.size(); i++) wv += (s[i] - ws) * (s[i] - ws); wv /= k;
  c.check("rolling-mean", std::fabs((LD)a.RollingMean() - ws) <= tol, "%s: mean of the window %.12g, expected %.12g", after, a.RollingMean(), (double)ws);
  c.check("variance", std::fabs((LD)a.LazyVariance() - wv) <= tol, "%s: variance of the window %.12g, expected %.12g", after, a.LazyVariance(), (double)wv);
  c.obs(a.Max()); c.obs(a.Min()); c.obs(a.RollingMean()); c.obs(a.LazyVariance());
}
template <typename TT, typename Total, int N> static void accumulators(en::Ctx& c, const char* what, const std::vector<TT>& vals, int len) {
  long n = 1; for (int i = 0; i < len; i++) n *= vals.size();
  for (long k = 0; k < n; k++) if (c.take()) {
    c.describe("%s, window %d:", what, N); c.nontrivial();
    Accumulator<TT, Total, N> a; std::vector<LD> s; long q = k;
    judge(c, a, s, N, 0, "new");
    for (int i = 0; i < len; i++, q /= vals.size()) { TT v = vals[q % vals.size()]; c.describe(" %g", (double)v); a.Add(v); s.push_back(v); c.op(); judge(c, a, s, N, 1e-9L, "after a sample"); }
    for (int i = 0; i < 3 * N + 1; i++) { TT v = vals[(i * 7 + k) % vals.size()]; a.Add(v); s.push_back(v); c.op(); judge(c, a, s, N, 1e-8L, "past the window"); }
    auto b = a; b.Add(vals[0]); judge(c, a, s, N, 1e-8L, "after changing a copy"); s.push_back(vals[0]); judge(c, b, s, N, 1e-8L, "copy");
  }
}
static void judge_tag(en::Ctx& c, const std::string& tag, size_t h, const std::vector<LD>& s, const char* after) {
  c.check("handle", Timing::GetHandle(tag) == h, "%s: handle of %s changed from %zu to %zu", after, tag.c_str(), h, Timing::GetHandle(tag));
  c.check("tag", Timing::GetTag(h) == tag, "%s: tag of handle %zu is %s, expected %s", after, h, Timing::GetTag(h).c_str(), tag.c_str());
  c.check("count", Timing::GetNumSamples(h) == s.size() && Timing::GetNumSamples(tag) == s.size(), "%s: %s has %zu samples, expected %zu", after, tag.c_str(), Timing::GetNumSamples(tag), s.size());
  LD sum = 0; for (LD x : s) sum += x; const LD tol = 1e-9L;
  c.check("sum", std::fabs((LD)Timing::GetTotalSeconds(h) - sum) <= tol && Timing::GetTotalSeconds(tag) == Timing::GetTotalSeconds(h), "%s: %s total %.12g, expected %.12g", after, tag.c_str(), Timing::GetTotalSeconds(tag), (double)sum);
  c.obs(Timing::GetTotalSeconds(h)); c.obs((long)s.size());
  if (s.empty()) return;
  LD mn = *std::min_element(s.begin(), s.end()), mx = *std::max_element(s.begin(), s.end());
  c.check("mean", std::fabs((LD)Timing::GetMeanSeconds(h) - sum / s.size()) <= tol && Timing::GetMeanSeconds(tag) == Timing::GetMeanSeconds(h), "%s: %s mean %.12g, expected %.12g", after, tag.c_str(), Timing::GetMeanSeconds(tag), (double)(sum / s.size()));
  c.check("min", std::fabs((LD)Timing::GetMinSeconds(h) - mn) <= tol && Timing::GetMinSeconds(tag) == Timing::GetMinSeconds(h), "%s: %s minimum %.12g, expected %.12g", after, tag.c_str(), Timing::GetMinSeconds(tag), (double)mn);
  c.check("max", std::fabs((LD)Timing::GetMaxSeconds(h) - mx) <= tol && Timing::GetMaxSeconds(tag) == Timing::GetMaxSeconds(h), "%s: %s maximum %.12g, expected %.12g", after, tag.c_str(), Timing::GetMaxSeconds(tag), (double)mx);
  size_t k = std::min<size_t>(s.size(), 50); LD ws = 0, wv = 0; for (size_t i = s.size() - k; i < s.size(); i++) ws += s[i]; ws /= k; for (size_t i = s.size() - k; i < s.size(); i++) wv += (s[i] - ws) * (s[i] - ws); wv /= k;
  c.check("variance", std::fabs((LD)Timing::GetVarianceSeconds(h) - wv) <= tol && Timing::GetVarianceSeconds(tag) == Timing::GetVarianceSeconds(h), "%s: %s variance %.12g, expected %.12g", after, tag.c_str(), Timing::GetVarianceSeconds(tag), (double)wv);
  if (ws > 0) c.check("hz", std::fabs((LD)Timing::GetHz(h) - 1 / ws) <= 1e-9L / ws / ws + 1e-9L / ws && Timing::GetHz(tag) == Timing::GetHz(h), "%s: %s rate %.12g, expected %.12g", after, tag.c_str(), Timing::GetHz(tag), (double)(1 / ws));
}
static std::string timestr(LD x) { char b[64]; snprintf(b, sizeof b, "%09.6f", (double)x); return b; }
// every number printed in the row of a tag, in the order count, total, mean, deviation, min, max
static bool row(const std::string& text, const std::string& tag, std::vector<double>* out) {
  std::istringstream is(text); std::string l; bool found = false;
  while (std::getline(is, l)) {
    std::istringstream w(l); std::string first; w >> first;
    if (first != tag) continue;
    if (found) return false; found = true; out->clear();
    std::string rest; std::getline(w, rest); for (char& ch : rest) if (!isdigit((unsigned char)ch) && ch != '.' && ch != '-' && ch != 'e') ch = ' '; else if (ch == '-') ch = '-';
    std::istringstream v(rest); std::string tok; while (v >> tok) { char* e; double d = strtod(tok.c_str(), &e); if (*e == 0 && e != tok.c_str()) out->push_back(d); }
  }
  return found;
}
static int g_serial = 0;
int main(int argc, char** argv) {
  return en::run_main(argc, argv, "C22", [](en::Ctx& c) {
    const bool T = c.thorough;
    c.group("accumulator");
    std::vector<double> dv{0, 1, -2, 0.5, 3.25}; std::vector<int> iv{0, -3, 1, 7};
    accumulators<double, double, 1>(c, "double", dv, T ? 6 : 4);
    accumulators<double, double, 2>(c, "double", dv, T ? 7 : 5);
    accumulators<double, double, 3>(c, "double", dv, T ? 7 : 5);
    accumulators<double, double, 5>(c, "double", dv, T ? 7 : 5);
    accumulators<float, double, 3>(c, "float", {0.f, -0.25f, 2.f}, T ? 9 : 6);
    accumulators<int, long, 4>(c, "int", iv, T ? 7 : 5);
    c.group("window50");
    for (int period = 1; period <= (T ? 13 : 6); period++) for (int len : {1, 49, 50, 51, 99, 100, 101, 163}) if (c.take()) {
      c.describe("%d samples with period %d", len, period); c.nontrivial();
      Accumulator<double, double, 50> a; std::vector<LD> s; for (int i = 0; i < len; i++) { double v = (i % period) * 0.125 + (i > 60 ? 4 : 0); a.Add(v); s.push_back(v); c.op(); judge(c, a, s, 50, 1e-9L, "after a sample"); }
    }
    for (long len : {255L, 256L, 257L, 32769L, 65537L, T ? 1100000L : 140000L}) if (c.take()) {     // counters do not wrap
      c.describe("%ld samples", len); c.nontrivial();
      Accumulator<double, double, 50> a; LD sum = 0; for (long i = 0; i < len; i++) { double v = (i % 64) * 0.125; a.Add(v); sum += v; } c.op(len);
      c.check("long-count", (long)a.TotalSamples() == len, "%ld samples, reported %ld", len, (long)a.TotalSamples()); c.check("long-sum", fabsl(a.Sum() - sum) <= 1e-9L * sum, "sum %.12g, expected %.12Lg", a.Sum(), sum); c.check("long-mean", fabsl(a.Mean() - sum / len) <= 1e-9L, "mean %.12g, expected %.12Lg", a.Mean(), sum / len);
      c.check("long-extremes", a.Min() == 0 && a.Max() == 63 * 0.125, "minimum %g, maximum %g", a.Min(), a.Max());
    }
    // registry: operation sequences of two timers on two tags
    c.group("registry");
    enum { START0, STOP0, KILL0, MAKE0A, MAKE0AS, MAKE0H, START1, STOP1, KILL1, MAKE1B, MAKE1BS, MAKE1A, ADV1, ADV2, NOPS };
    const char* on[NOPS] = {"start0", "stop0", "destroy0", "timer0(a)", "timer0(a,stopped)", "timer0(handle a)", "start1", "stop1", "destroy1", "timer1(b)", "timer1(b,stopped)", "timer1(a)", "advance1", "advance2"};
    struct MT { bool running = false; long long at = 0; int tag = 0; };
    auto run = [&](const std::vector<int>& seq) {
      if (g_serial % 64 == 0) Timing::Reset();
      std::string base = "t" + std::to_string(getpid()) + "_" + std::to_string(g_serial++), tags[3] = {base + "a", base + "b", base + "other"};
      size_t h[3]; for (int i = 0; i < 3; i++) h[i] = Timing::GetHandle(tags[i]);
      c.check("handles-differ", h[0] != h[1] && h[1] != h[2] && h[0] != h[2], "handles %zu %zu %zu", h[0], h[1], h[2]);
      std::vector<LD> s[3]; std::unique_ptr<Timer> t[2]; MT m[2];
      auto stop = [&](int i) { if (m[i].running) { s[m[i].tag].push_back((LD)(g_now - m[i].at) / 1e9L); m[i].running = false; } };
      auto make = [&](int i, int tag, bool stopped, bool byhandle) {
        if (t[i]) { stop(i); t[i].reset(); }
        t[i].reset(byhandle ? new Timer(h[tag], stopped) : new Timer(tags[tag], stopped)); m[i] = MT(); m[i].tag = tag; if (!stopped) { m[i].running = true; m[i].at = g_now; }
      };
      for (int o : seq) {
        switch (o) {
          case START0: case START1: { int i = o == START1; if (t[i]) { t[i]->Start(); m[i].running = true; m[i].at = g_now; } break; }   // a second start begins anew
          case STOP0: case STOP1: { int i = o == STOP1; if (t[i]) { t[i]->Stop(); stop(i); } break; }
          case KILL0: case KILL1: { int i = o == KILL1; if (t[i]) { stop(i); t[i].reset(); } break; }
          case MAKE0A: make(0, 0, false, false); break;
          case MAKE0AS: make(0, 0, true, false); break;
          case MAKE0H: make(0, 0, false, true); break;
          case MAKE1B: make(1, 1, false, false); break;
          case MAKE1BS: make(1, 1, true, false); break;
          case MAKE1A: make(1, 0, false, false); break;
          case ADV1: g_now += 125000000; break;
          case ADV2: g_now += 3500000000LL; break;
        }
        c.op();
        for (int i = 0; i < 2; i++) if (t[i]) c.check("is-timing", t[i]->IsTiming() == m[i].running, "after %s: timer %d %s", on[o], i, t[i]->IsTiming() ? "running" : "stopped");
      }
      for (int i = 0; i < 3; i++) judge_tag(c, tags[i], h[i], s[i], "at the end");
      t[0].reset(); t[1].reset(); stop(0); stop(1);
      for (int i = 0; i < 3; i++) judge_tag(c, tags[i], h[i], s[i], "after destruction");
    };
    for (int depth = 0; depth <= (T ? 6 : 5); depth++) { long n = 1; for (int i = 0; i < depth; i++) n *= NOPS;
      for (long k = 0; k < n; k++) {
        std::vector<int> seq; long q = k; for (int i = 0; i < depth; i++, q /= NOPS) seq.push_back(q % NOPS);
        bool ok = true, live[2] = {false, false};   // operations on a timer that does not exist add nothing
        for (int o : seq) { if ((o == START0 || o == STOP0 || o == KILL0) && !live[0]) ok = false; if ((o == START1 || o == STOP1 || o == KILL1) && !live[1]) ok = false;
          if (o == MAKE0A || o == MAKE0AS || o == MAKE0H) live[0] = true; if (o == MAKE1A || o == MAKE1B || o == MAKE1BS) live[1] = true; if (o == KILL0) live[0] = false; if (o == KILL1) live[1] = false; }
        if (!ok) continue;
        if (c.take()) { for (int o : seq) c.describe("%s ", on[o]); c.nontrivial(); run(seq); }
      } }
    // long runs through the window, nested and interleaved tags, registry growth, table, reset
    c.group("registry-long");
    for (int ntags : {1, 2, 5, 20, 150}) for (int len : {1, 50, 51, 130}) for (int pat = 0; pat < 4; pat++) if (c.take()) {
      c.describe("%d tags, %d intervals each, pattern %d", ntags, len, pat); c.nontrivial();
      std::string base = "L" + std::to_string(getpid()) + "_" + std::to_string(g_serial++) + "_"; std::vector<std::string> tags; std::vector<size_t> h; std::vector<std::vector<LD>> s(ntags);
      for (int i = 0; i < ntags; i++) { tags.push_back(base + std::string(i % 7, 'x') + std::to_string(i)); }
      for (int r = 0; r < len; r++) {
        std::vector<std::unique_ptr<Timer>> open; std::vector<long long> at; std::vector<int> who;
        for (int i = 0; i < ntags; i++) { if (pat == 3 && r % 2) { h.size() > (size_t)i ? open.emplace_back(new Timer(h[i])) : open.emplace_back(new Timer(tags[i])); } else open.emplace_back(new Timer(tags[i])); at.push_back(g_now); who.push_back(i); g_now += 1000000 * (1 + (r * 3 + i) % 5); if (pat == 0) { s[i].push_back((LD)(g_now - at.back()) / 1e9L); open.back()->Stop(); open.pop_back(); at.pop_back(); who.pop_back(); } c.op(); }
        while (!open.empty()) { size_t k = pat == 1 ? open.size() - 1 : 0; g_now += 2000000; s[who[k]].push_back((LD)(g_now - at[k]) / 1e9L); if (pat == 2) open[k]->Stop(); open.erase(open.begin() + k); at.erase(at.begin() + k); who.erase(who.begin() + k); }
        if (r == 0) for (auto& t : tags) h.push_back(Timing::GetHandle(t));
      }
      for (int i = 0; i < ntags; i++) judge_tag(c, tags[i], h[i], s[i], "at the end");
      // handles are one to one over everything that was registered
      std::set<size_t> seen; for (auto& kv : Timing::GetTimers()) c.check("handles-unique", seen.insert(kv.second).second, "handle %zu is used by two tags", kv.second);
      for (auto& t : tags) c.check("listed", Timing::GetTimers().count(t) == 1, "%s is not listed", t.c_str());
      std::string text = Timing::Print(); std::ostringstream os; Timing::Print(os); c.check("print-same", os.str() == text, "the two tables differ");
      std::string never = base + "never"; Timing::GetHandle(never); text = Timing::Print();
      std::vector<double> v; c.check("print-empty", row(text, never, &v) && v.size() == 1 && v[0] == 0, "row of a tag without samples");
      for (int i = 0; i < ntags; i++) {
        bool r = row(text, tags[i], &v); c.check("print-row", r && v.size() == 6, "row of %s has %zu numbers", tags[i].c_str(), v.size()); if (!r || v.size() != 6) continue;
        LD sum = 0; for (LD x : s[i]) sum += x; size_t k = std::min<size_t>(s[i].size(), 50); LD ws = 0, wv = 0; for (size_t j = s[i].size() - k; j < s[i].size(); j++) ws += s[i][j]; ws /= k; for (size_t j = s[i].size() - k; j < s[i].size(); j++) wv += (s[i][j] - ws) * (s[i][j] - ws); wv /= k;
        double e[6] = {(double)s[i].size(), (double)sum, (double)(sum / s[i].size()), (double)std::sqrt(wv), (double)*std::min_element(s[i].begin(), s[i].end()), (double)*std::max_element(s[i].begin(), s[i].end())};
        for (int j = 0; j < 6; j++) c.check("print-value", std::fabs(v[j] - e[j]) <= 2e-6, "row of %s, number %d: %.9g, expected %.9g", tags[i].c_str(), j, v[j], e[j]);
      }
    }
    c.group("reset");
    for (int n : {1, 3}) for (int live = 0; live < 2; live++) if (c.take()) {
      c.describe("%d tags, %s timer across the reset", n, live ? "a running" : "no"); c.nontrivial();
      std::string base = "R" + std::to_string(getpid()) + "_" + std::to_string(g_serial++) + "_"; std::vector<std::string> tags; for (int i = 0; i < n; i++) tags.push_back(base + std::to_string(i));
      for (auto& t : tags) { Timer x(t); g_now += 1000000; }
      std::unique_ptr<Timer> over; if (live) over.reset(new Timer(tags[0]));
      Timing::Reset(); c.op();
      c.check("cleared", Timing::GetTimers().empty() && Timing::Print().empty(), "%zu tags left", Timing::GetTimers().size());
      // what was started before the reset is not added to tags that are registered afterwards
      std::vector<std::string> fresh; if (live) for (int i = 0; i < 400; i++) { fresh.push_back(base + "new" + std::to_string(i)); Timing::GetHandle(fresh.back()); }
      g_now += 7000000; over.reset();
      for (auto& t : fresh) c.check("new-tag-count", Timing::GetNumSamples(t) == 0, "%s, registered after the reset, has %zu samples", t.c_str(), Timing::GetNumSamples(t));
      for (auto& t : tags) { c.check("new-count", Timing::GetNumSamples(t) == 0, "%s has %zu samples after the reset", t.c_str(), Timing::GetNumSamples(t)); }
      for (auto& t : tags) { size_t h = Timing::GetHandle(t); { Timer x(t); g_now += 2000000; } judge_tag(c, t, h, {0.002L}, "after the reset"); }
    }
    c.group("format");
    for (double s : {0.0, 1e-6, 0.5, 1.0, 9.999999, 12.25, 99.5, 123.456789, 4000.0}) if (c.take()) { c.describe("%g s", s); if (s) c.nontrivial(); std::string t = Timing::SecondsToTimeString(s); c.op(); c.obs(t); c.check("value", std::fabs(strtod(t.c_str(), nullptr) - s) <= 5e-7, "%s", t.c_str()); c.check("width", t.size() >= 9, "%s", t.c_str()); }
    c.group("minitimer");
    enum { S, E, A1, A2, BACK, G, NM }; const char* mn[NM] = {"start", "stop", "advance", "advance", "back", "get"};
    for (int depth = 0; depth <= (T ? 7 : 5); depth++) { long n = 1; for (int i = 0; i < depth; i++) n *= NM;
      for (long k = 0; k < n; k++) if (c.take()) {
        MiniTimer t; long long st = g_now, en = 0; bool ended = false; long q = k; if (depth) c.nontrivial();
        for (int i = 0; i < depth; i++, q /= NM) { int o = q % NM; c.describe("%s ", mn[o]); c.op();
          if (o == S) { t.start(); st = g_now; } else if (o == A1) g_now += 20000000; else if (o == A2) g_now += 1000000; else if (o == BACK) g_now -= 3000000;
          else if (o == E) { en = g_now; ended = true; double x = t.stop(), e = en < st ? 0 : (en - st) / 1e9; c.check("stop", std::fabs(x - e) < 1e-12, "%g, expected %g", x, e); c.obs(x); }
          double x = t.getTime(), e = !ended || en < st ? 0 : (en - st) / 1e9; c.check("time", std::fabs(x - e) < 1e-12, "after %s: %g, expected %g", mn[o], x, e); c.obs(x); }
      } }
    c.group("dummy");
    if (c.take()) { std::string tag = "D" + std::to_string(getpid()); size_t before = Timing::GetTimers().size(); { DummyTimer d(tag); d.Start(); c.check("never-timing", !d.IsTiming(), "running"); d.Stop(); DummyTimer e((size_t)0, true); } c.check("no-tag", Timing::GetTimers().size() == before, "the inactive timer registered a tag"); c.nontrivial(); }
  });
}
