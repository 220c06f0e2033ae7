// mcrt: a small stateless model checker for real C++ threads.
// The code under test is compiled with `clang++ -fsanitize=thread` (compile step only) and linked
// against mcrt.cpp, which supplies the __tsan_* callbacks, and interposes pthread/futex/clock/sleep.
// Exactly one thread runs at a time; which one is a recorded choice.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Scenario {
  std::string name;
  std::string params;              // free text, goes into evidence
  std::function<void()> body;      // runs on the controlled main thread of a fresh process
  int bound = 1;                   // deviation bound for the exhaustive search
  // run parameters
  double compute_ms = 40;          // virtual duration of one optimisation
  int maxeval_cap = 0;             // 0: do not cap the optimiser's evaluations
  double freeze_ms = 400;          // the "descheduled for a long time" deviation
  double horizon_s = 120;          // virtual time after which the execution counts as hung
  bool race = false;               // track data races / use after free
  bool unlock_points = false;      // a thread may also be suspended right after it has released a mutex
  bool freeze_only = false;        // deviations are suspensions only
  bool ignore_opt = false;         // no memory tracking inside nlopt callbacks
  long max_points = 400000;
  long max_exec = 0;               // 0: unlimited (until the deadline)
  int alarm_s = 60;
};

// ---- to be used inside scenario bodies -------------------------------------------------------
double now();                      // virtual seconds since the start of the execution
void sleep_ms(double ms);          // virtual sleep (a controlled blocking operation)
[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void observe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // folded into the outcome digest
void covered(long n = 1);          // counts oracle evaluations
bool replaying();
uint64_t thread_count();
double compute_ms_of_this_run();
void set_compute_ms(double ms);
void explore(bool on);              // points met while off are not branched on (default: on)
long optimizations();              // number of optimiser runs finished so far
long optimizations_started();

#define MC_CHECK(sig, cond, ...) do { mc::covered(); if (!(cond)) mc::fail(sig, __VA_ARGS__); } while (0)

// ---- driver ------------------------------------------------------------------------------
struct Result {
  long executions = 0, points = 0, transitions = 0, distinct_traces = 0, outcomes = 0, oracle = 0;
  bool exhausted = true;
  int bound_completed = -1;
  std::vector<std::string> notes;
};
// Explores all scenarios for `prop`; writes evidence; returns process exit code.
int run_main(int argc, char** argv, const char* prop,
             std::function<std::vector<Scenario>(bool thorough)> make);

}  // namespace mc
