// enumr: exhaustive enumeration of a bounded input / operation-sequence space on the real code.
//
// The body is a deterministic program that walks the whole space and calls ctx.take() once per case; the
// cases are dealt out to worker processes by index, so that every case is executed exactly once.  A case
// that crashes, aborts or hangs its worker is a violation of its own; the worker is replaced and goes on
// behind that case.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace en {

struct Shared {            // one per worker
  volatile long cur;       // index of the case being executed (-1: none)
  volatile long beat;      // changes with every case
  volatile int phase;      // 0 idle, 1 in a case, 2 finished
  char group[96];
  char desc[4096];
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

class Ctx {
 public:
  bool thorough = false;
  // ---- enumeration
  void group(const char* g) { group_ = g; }
  // true when this worker has to execute the next case
  bool take() {
    end_case();
    idx_++;
    if (only_ >= 0) { if (idx_ != only_) return false; }
    else if (idx_ % nw_ != w_ || idx_ < resume_ || skip_.count(idx_)) return false;
    begin_case();
    return true;
  }
  void describe(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, fmt);
    size_t n = strlen(sh_->desc);
    if (n + 2 < sizeof sh_->desc) vsnprintf(sh_->desc + n, sizeof sh_->desc - n, fmt, ap);
    va_end(ap);
  }
  // ---- oracle
  bool check(const char* sig, bool ok, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
    oracle_++; g_oracle_[group_]++;
    if (ok) return true;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    std::string s = group_ + "/" + sig;
    nviol_[s]++;
    if (nviol_[s] <= 3) emit("V", s, b);
    if (only_ >= 0) printf("FAIL %s: %s\n  case: %s\n", s.c_str(), b, sh_->desc);
    return false;
  }
  void op(long n = 1) { ops_ += n; }                 // transitions: operations executed on the real code
  void state(uint64_t h) { states_.insert(h); }      // a distinct abstract state / outcome
  // fold observations of the current case into one outcome
  void obs(double v) { uint64_t u; memcpy(&u, &v, 8); fold(u); }
  void obs(long v) { fold((uint64_t)v); }
  void obs(int v) { fold((uint64_t)(long)v); }
  void obs(const std::string& s) { for (char c : s) fold((unsigned char)c); fold(0x1ff); }
  void nontrivial() { if (!nontriv_case_) { nontriv_case_ = true; } }
  bool replaying() const { return only_ >= 0; }
  const char* case_desc() const { return sh_->desc; }
  std::string scratch() const { return scratch_; }   // a private directory of this worker
  long index() const { return idx_; }

 private:
  friend int run_main(int, char**, const char*, std::function<void(Ctx&)>);
  void fold(uint64_t u) { h_ ^= u + 0x9e3779b97f4a7c15ull + (h_ << 6) + (h_ >> 2); h_ *= 0xff51afd7ed558ccdull; h_ ^= h_ >> 32; observed_ = true; }
  void begin_case() {
    sh_->desc[0] = 0;
    snprintf(sh_->group, sizeof sh_->group, "%s", group_.c_str());
    sh_->cur = idx_; sh_->beat++; sh_->phase = 1;
    h_ = 1469598103934665603ull; observed_ = false; nontriv_case_ = false; in_ = true;
    for (char c : group_) fold((unsigned char)c);
    observed_ = false;
  }
  void end_case() {
    if (!in_) return;
    in_ = false; cases_++; g_cases_[group_in_case()]++;
    if (observed_) states_.insert(h_);
    if (nontriv_case_) nontriv_++;
    if (idx_ - last_sample_ > sample_gap_ || last_sample_ < 0) { last_sample_ = idx_; sample_gap_ = sample_gap_ * 3 + 7;
      emit("S", sh_->group, ""); }
    sh_->phase = 0;
  }
  std::string group_in_case() const { return sh_->group; }
  void emit(const char* kind, const std::string& sig, const std::string& msg) {
    fprintf(out_, "%s\t%ld\t%s\t%s\t%s\n", kind, idx_, jesc(sig).c_str(), jesc(msg).c_str(), jesc(sh_->desc).c_str());
    fflush(out_);
  }
  void finish() {
    end_case();
    fprintf(out_, "T\t%ld\t%ld\t%ld\t%ld\t%ld\n", idx_ + 1, cases_, oracle_, ops_, nontriv_);
    for (auto& g : g_cases_) fprintf(out_, "G\t%s\t%ld\t%ld\n", jesc(g.first).c_str(), g.second, g_oracle_[g.first]);
    for (auto h : states_) fprintf(out_, "H\t%016llx\n", (unsigned long long)h);
    fflush(out_);
    sh_->phase = 2;
  }
  std::string group_ = "all", scratch_;
  long idx_ = -1, only_ = -1, resume_ = 0, w_ = 0, nw_ = 1, last_sample_ = -1, sample_gap_ = 0;
  std::set<long> skip_;
  long cases_ = 0, oracle_ = 0, ops_ = 0, nontriv_ = 0;
  std::map<std::string, long> nviol_, g_cases_, g_oracle_;
  std::unordered_set<uint64_t> states_;
  uint64_t h_ = 0; bool observed_ = false, in_ = false, nontriv_case_ = false;
  Shared* sh_ = nullptr; FILE* out_ = nullptr;
};

inline double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline void rmtree(const std::string& d) {   // only ever called on a directory made by mkdtemp below
  if (DIR* D = opendir(d.c_str())) {
    while (dirent* e = readdir(D)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      unlink((d + "/" + n).c_str());
    }
    closedir(D);
  }
  rmdir(d.c_str());
}

inline int run_main(int argc, char** argv, const char* prop, std::function<void(Ctx&)> body) {
  bool thorough = false; std::string out, replay; int jobs = 8; double case_limit = 30;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") thorough = true;
    else if (a == "--out" && i + 1 < argc) out = argv[++i];
    else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
    else if (a == "--case-limit" && i + 1 < argc) case_limit = atof(argv[++i]);
    else if (a == "--budget" || a == "--replay-dir" || a == "--max-viol") i++;
  }
  char tmpl[] = "/tmp/enumr.XXXXXX"; std::string dir = mkdtemp(tmpl);
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!replay.empty()) {
    std::ifstream f(replay); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    auto p = s.find("\"index\":"); long idx = p == std::string::npos ? -1 : atol(s.c_str() + p + 8);
    if (s.find("\"thorough\": true") != std::string::npos) thorough = true;
    if (idx < 0) { fprintf(stderr, "bad replay file\n"); return 3; }
    pid_t pid = fork();
    if (!pid) {
      Ctx c; c.thorough = thorough; c.only_ = idx; c.sh_ = sh; c.out_ = fopen("/dev/null", "w"); c.scratch_ = dir;
      body(c); long nv = 0; for (auto& v : c.nviol_) nv += v.second; c.finish(); fflush(stdout); _exit(nv ? 1 : 0);
    }
    int st; waitpid(pid, &st, 0); rmtree(dir);
    if (WIFSIGNALED(st)) { printf("CRASH signal %d\n  case: %s\n", WTERMSIG(st), sh->desc); return 1; }
    return WEXITSTATUS(st);
  }
  struct W { pid_t pid = 0; std::set<long> skip; long resume = 0; long beat = -1; double since = 0; bool done = false; int gen = 0; };
  std::vector<W> ws(jobs);
  struct V { std::string sig, msg, desc; long idx; }; std::vector<V> viol;
  std::map<std::string, int> crashcnt;
  std::vector<std::string> files; std::string error;
  auto start = [&](int w, long only, const std::string& fn) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (!pid) {
      Ctx c; c.thorough = thorough; c.w_ = w; c.nw_ = jobs; c.skip_ = ws[w].skip; c.resume_ = ws[w].resume; c.only_ = only;
      c.sh_ = &sh[w]; c.out_ = fopen(fn.c_str(), "w");
      if (int dn = open("/dev/null", O_WRONLY); dn >= 0 && !getenv("ENUMR_STDERR")) { dup2(dn, 2); dup2(dn, 1); close(dn); }
      c.scratch_ = dir + "/s" + std::to_string(w); mkdir(c.scratch_.c_str(), 0700);
      body(c); c.finish(); fclose(c.out_); fflush(stdout); rmtree(c.scratch_); _exit(0);
    }
    return pid;
  };
  auto launch = [&](int w) {
    sh[w].cur = -1; sh[w].phase = 0; sh[w].desc[0] = 0;
    std::string fn = dir + "/o" + std::to_string(w) + "." + std::to_string(ws[w].gen++);
    files.push_back(fn); ws[w].pid = start(w, -1, fn); ws[w].beat = -1; ws[w].since = wall();
  };
  for (int w = 0; w < jobs; w++) launch(w);
  int alive = jobs; double t0 = wall();
  bool truncated = false;
  while (alive) {
    bool any = false;
    for (int w = 0; w < jobs; w++) {
      if (ws[w].done) continue;
      int st; pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
      bool hang = false;
      if (!r) {
        if (sh[w].beat != ws[w].beat) { ws[w].beat = sh[w].beat; ws[w].since = wall(); continue; }
        else if (wall() - ws[w].since > case_limit && sh[w].phase == 1) {
          kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0); hang = true;
        } else continue;
      }
      any = true;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].phase == 2) { ws[w].done = true; alive--; continue; }
      if (sh[w].phase != 1) { error = "worker died outside a case"; ws[w].done = true; alive--; continue; }
      std::string g = sh[w].group; char b[160];
      long cur = sh[w].cur; std::string desc = sh[w].desc;
      if (hang) {      // run it again alone, with a longer limit, before calling it a hang
        sh[w].phase = 0;
        std::string fn = dir + "/o" + std::to_string(w) + "." + std::to_string(ws[w].gen++);
        pid_t p2 = start(w, cur, fn); double t1 = wall(); int s2 = 0; pid_t q = 0;
        while (wall() - t1 < 3 * case_limit && !(q = waitpid(p2, &s2, WNOHANG))) usleep(20000);
        if (!q) {
          kill(p2, SIGKILL); waitpid(p2, &s2, 0); snprintf(b, sizeof b, "does not return within %.0f s", 3 * case_limit); viol.push_back({g + "/hang", b, desc, cur});
          // one confirmed hang decides the run: others of the same kind would each cost as long again
          for (int k = 0; k < jobs; k++) if (k != w && !ws[k].done) { kill(ws[k].pid, SIGKILL); waitpid(ws[k].pid, nullptr, 0); }
          truncated = true; alive = 0; break;
        }
        files.push_back(fn);   // merely slow: what it found counts
      } else {
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "the code under test crashed or aborted (signal %d)", WTERMSIG(st));
        else snprintf(b, sizeof b, "the code under test ended the process (exit %d)", WEXITSTATUS(st));
        viol.push_back({g + "/crash", b, desc, cur});
      }
      // results of the completed cases of this generation stay valid except the totals: rerun is not needed
      // for violations, but counts must be complete, so go on behind the offending case
      ws[w].skip.insert(cur); ws[w].resume = cur; crashcnt[g]++;
      if (crashcnt[g] > 12) { truncated = true; ws[w].done = true; alive--; continue; }
      launch(w);
    }
    if (!any) usleep(5000);
  }
  long total = 0, cases = 0, oracle = 0, ops = 0, nontriv = 0; std::set<std::string> H; std::vector<V> samples;
  std::map<std::string, std::pair<long, long>> G; std::map<std::string, int> seen;
  auto split = [](const std::string& l) { std::vector<std::string> v; size_t p = 0; for (;;) { auto q = l.find('\t', p); v.push_back(l.substr(p, q - p)); if (q == std::string::npos) break; p = q + 1; } return v; };
  std::vector<V> soft;
  for (auto& fn : files) {
    std::ifstream f(fn); std::string l;
    while (std::getline(f, l)) {
      auto v = split(l); if (v.size() < 2) continue;
      if (v[0] == "T" && v.size() > 5) { total = std::max(total, atol(v[1].c_str())); cases += atol(v[2].c_str()); oracle += atol(v[3].c_str()); ops += atol(v[4].c_str()); nontriv += atol(v[5].c_str()); }
      else if (v[0] == "H") H.insert(v[1]);
      else if (v[0] == "G" && v.size() > 3) { G[v[1]].first += atol(v[2].c_str()); G[v[1]].second += atol(v[3].c_str()); }
      else if (v[0] == "V" && v.size() > 4) soft.push_back({v[2], v[3], v[4], atol(v[1].c_str())});
      else if (v[0] == "S" && v.size() > 4 && samples.size() < 24) samples.push_back({v[2], "", v[4], atol(v[1].c_str())});
    }
    unlink(fn.c_str());
  }
  for (int w = 0; w < jobs; w++) rmtree(dir + "/s" + std::to_string(w));
  rmtree(dir);
  std::vector<V> all;   // already JSON-escaped
  for (auto& v : viol) all.push_back({jesc(v.sig), jesc(v.msg), jesc(v.desc), v.idx});
  for (auto& v : soft) all.push_back(v);
  std::sort(all.begin(), all.end(), [](const V& a, const V& b) { return a.idx < b.idx; });
  std::vector<V> first; for (auto& v : all) if (seen[v.sig]++ < 2) first.push_back(v);
  if (!out.empty()) {
    FILE* o = fopen(out.c_str(), "w");
    fprintf(o, "{\"engine\": \"enumr\", \"property\": \"%s\", \"thorough\": %s, \"cases_in_space\": %ld, \"executions\": %ld, \"distinct_outcomes\": %zu, \"transitions\": %ld, \"oracle_checks\": %ld, \"nontrivial\": %ld, \"exhausted\": %s, \"wall_s\": %.1f,\n", prop, thorough ? "true" : "false", total, cases, H.size(), ops, oracle, nontriv, (truncated || !viol.empty()) ? "false" : "true", wall() - t0);
    fprintf(o, " \"groups\": {"); bool f1 = true;
    for (auto& g : G) { fprintf(o, "%s\"%s\": {\"cases\": %ld, \"oracle_checks\": %ld}", f1 ? "" : ", ", g.first.c_str(), g.second.first, g.second.second); f1 = false; }
    fprintf(o, "},\n \"samples\": ["); f1 = true;
    for (auto& s : samples) { fprintf(o, "%s{\"group\": \"%s\", \"case\": %ld, \"what\": \"%s\"}", f1 ? "" : ", ", s.sig.c_str(), s.idx, s.desc.c_str()); f1 = false; }
    fprintf(o, "],\n \"violations\": ["); f1 = true;
    for (auto& v : first) { fprintf(o, "%s{\"sig\": \"%s\", \"msg\": \"%s\", \"case\": \"%s\", \"index\": %ld}", f1 ? "" : ",\n  ", v.sig.c_str(), v.msg.c_str(), v.desc.c_str(), v.idx); f1 = false; }
    fprintf(o, "],\n \"error\": \"%s\"}\n", jesc(error).c_str());
    fclose(o);
  } else {
    printf("space %ld executed %ld outcomes %zu ops %ld oracle %ld nontrivial %ld wall %.1f\n", total, cases, H.size(), ops, oracle, nontriv, wall() - t0);
    for (auto& g : G) printf("  group %-32s cases %ld oracle %ld\n", g.first.c_str(), g.second.first, g.second.second);
    for (auto& v : first) printf("VIOL %s [%ld]: %s\n     %s\n", v.sig.c_str(), v.idx, v.msg.c_str(), v.desc.c_str());
    if (!error.empty()) printf("ERROR %s\n", error.c_str());
  }
  if (!first.empty()) return 1;
  if (!error.empty()) return 3;
  return 0;
}
}  // namespace en
