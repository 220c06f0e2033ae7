// mcrt runtime. See mc.h. Compiled WITHOUT -fsanitize=thread.
#include "mc.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>

#include <algorithm>
#include <atomic>
#include <bits/atomic_futex.h>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start, etext;
}

namespace mc {

// ------------------------------------------------------------------ internal containers
// The runtime's own containers must not go through the tracked malloc: a thread-local "inside the
// runtime" flag makes malloc/free behave plainly.
static thread_local int tl_inside = 0;
struct In { In() { ++tl_inside; } ~In() { --tl_inside; } };

static const int MAXT = 30;
enum State { READY, BLK_MUTEX, BLK_RD, BLK_WR, SLEEP, FUTEX, COND, JOIN, ONCE, FINISHED };
static const char* kStateName[] = {"ready", "mutex", "rwlock-read", "rwlock-write", "sleep", "future",
                                   "condvar", "join", "once", "finished"};
enum Kind { K_LOCK, K_ATOMIC, K_FUTEX, K_SLEEP, K_CREATE, K_JOIN, K_COND, K_ONCE, K_BLOCK, K_TRY, K_UNLOCK };
static const char* kKindName[] = {"lock", "atomic", "future", "sleep", "create", "join", "cond", "once", "blocked", "trylock", "unlock"};

struct Clock {
  uint32_t c[MAXT];
  Clock() { memset(c, 0, sizeof c); }
  void join(const Clock& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Thr {
  int id = 0;
  pthread_t pt{};
  State st = READY;
  bool timed = false, woken = false, timedout = false, detached = false;
  double wake = 0;
  void* obj = nullptr;
  int join_target = -1;
  int sem = 0;               // futex word
  Clock vc;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  std::vector<void*> stack;  // shadow call stack
  long frozen_until = 0;
};

struct Mutex { int owner = -1; int depth = 0; int readers = 0; Clock vc; };

// ------------------------------------------------------------------ shared memory (explorer <-> run)
struct PointRec {
  uint8_t nopts, chosen, kind, tid;
  uint8_t flags;             // 1 = object shared between threads (filled at the end)
  uint32_t obj;
  uint64_t hash;             // hash of the execution up to (not including) this decision
};
struct Dev { uint32_t idx; uint8_t choice; uint64_t hash; };
static const int MAXP = 400000;
static const int MAXDEV = 4;
struct Shm {
  // in
  int ndev; Dev dev[MAXDEV];
  int scenario;
  bool replay;
  // out
  int status;                // 0 running, 1 ok, 2 violation, 3 divergence
  char sig[128];
  char msg[8192];
  int np;
  uint64_t outcome, trace;
  long oracle;
  int ops;
  double vtime;
  int nthreads;
  char log[16384]; int logn;
  PointRec p[MAXP];
};
static Shm* shm = nullptr;

static const Scenario* cur_sc = nullptr;
static bool g_active = false;
static std::vector<Thr*> thr;
static thread_local Thr* self = nullptr;
static Thr* running = nullptr;
static double g_now = 0;
static uint64_t g_hash = 1469598103934665603ULL;
static int g_np = 0, g_nextdev = 0;
static long g_points = 0, g_spin = 0;
static std::unordered_map<void*, Mutex>* g_mtx;
static std::unordered_map<void*, Clock>* g_sync;
static std::unordered_map<void*, int>* g_objid;
static std::vector<uint32_t>* g_objthreads;
static std::unordered_map<void*, int>* g_once;   // 1 in progress, 2 done
static double g_compute_ms;
static long g_opts_done = 0, g_opts_started = 0;
static bool g_verbose = false;
static bool g_explore = true;

static void hmix(uint64_t v) { for (int i = 0; i < 8; i++) { g_hash ^= (v >> (8 * i)) & 255; g_hash *= 1099511628211ULL; } }

static inline bool from_exe(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }

static void futex_wait(int* w, int v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void sem_down(Thr* t) {
  while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) futex_wait(&t->sem, 0);
  __atomic_store_n(&t->sem, 0, __ATOMIC_RELEASE);
}
static void sem_up(Thr* t) { __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE); futex_wake(&t->sem); }

static void finish_run(int status) {
  if (shm->status == 0) shm->status = status;
  shm->np = g_np; shm->vtime = g_now; shm->trace = g_hash; shm->nthreads = (int)thr.size();
  for (int i = 0; i < g_np; i++) {
    uint32_t o = shm->p[i].obj;
    if (o && __builtin_popcount((*g_objthreads)[o]) > 1) shm->p[i].flags |= 1;
    if (!o) shm->p[i].flags |= 1;
  }
  _exit(status == 1 ? 0 : 42);
}

static void append_where(char* buf, size_t n) {
  size_t k = strlen(buf);
  for (Thr* t : thr) {
    if (t->st == FINISHED) continue;
    k += snprintf(buf + k, k < n ? n - k : 0, "\n  thread %d: %s", t->id, t == running ? "running" : kStateName[t->st]);
    if (k >= n) break;
    if (t->st == BLK_MUTEX) {
      auto it = g_mtx->find(t->obj);
      if (it != g_mtx->end()) k += snprintf(buf + k, k < n ? n - k : 0, " (mutex held by thread %d)", it->second.owner);
      if (k >= n) break;
    }
    int shown = 0;
    for (int i = (int)t->stack.size() - 1; i >= 0 && shown < 6; i--, shown++) {
      k += snprintf(buf + k, k < n ? n - k : 0, " <- exe+0x%lx", (unsigned long)((char*)t->stack[i] - &__executable_start));
      if (k >= n) break;
    }
    if (k >= n) break;
  }
}

[[noreturn]] static void vfail(const char* sig, const char* fmt, va_list ap, bool where) {
  tl_inside++;
  snprintf(shm->sig, sizeof shm->sig, "%s", sig);
  vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
  if (where) append_where(shm->msg, sizeof shm->msg);
  finish_run(2);
  abort();
}
[[noreturn]] void fail(const char* sig, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vfail(sig, fmt, ap, false);
}
[[noreturn]] static void rt_fail(const char* sig, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vfail(sig, fmt, ap, true);
}
static void diverge(const char* what) {
  snprintf(shm->msg, sizeof shm->msg, "replay divergence: %s at point %d", what, g_np);
  finish_run(3);
}

void observe(const char* fmt, ...) {
  In in; char b[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  uint64_t h = shm->outcome ? shm->outcome : 1469598103934665603ULL;
  for (int i = 0; i < n; i++) { h ^= (unsigned char)b[i]; h *= 1099511628211ULL; }
  shm->outcome = h;
  if (shm->logn + n + 2 < (int)sizeof shm->log) {
    memcpy(shm->log + shm->logn, b, n); shm->logn += n; shm->log[shm->logn++] = '\n'; shm->log[shm->logn] = 0;
  }
  if (g_verbose) fprintf(stderr, "[%.6f t%d] %s\n", g_now, self ? self->id : -1, b);
}
void covered(long n) { shm->oracle += n; }
double now() { return g_now; }
bool replaying() { return shm && shm->replay; }
uint64_t thread_count() { return thr.size(); }
double compute_ms_of_this_run() { return g_compute_ms; }
void set_compute_ms(double ms) { g_compute_ms = ms; }
long optimizations() { return g_opts_done; }
void explore(bool on) { g_explore = on; }
long optimizations_started() { return g_opts_started; }

// ------------------------------------------------------------------ scheduler
static bool enabled(Thr* t) {
  switch (t->st) {
    case READY: return true;
    case BLK_MUTEX: { auto it = g_mtx->find(t->obj); return it == g_mtx->end() || (it->second.owner < 0 && it->second.readers == 0) || (t->timed && t->wake <= g_now); }
    case BLK_WR: { auto& m = (*g_mtx)[t->obj]; return m.owner < 0 && m.readers == 0; }
    case BLK_RD: { auto& m = (*g_mtx)[t->obj]; return m.owner < 0; }
    case SLEEP: return t->wake <= g_now;
    case FUTEX: case COND: return t->woken || (t->timed && t->wake <= g_now);
    case JOIN: return thr[t->join_target]->st == FINISHED;
    case ONCE: return (*g_once)[t->obj] != 1;
    case FINISHED: return false;
  }
  return false;
}
static bool has_timer(Thr* t) { return t->st == SLEEP || ((t->st == FUTEX || t->st == COND || t->st == BLK_MUTEX) && t->timed && !t->woken); }

// Option encoding: 0..n-1 where options are, in order: [current if enabled], other enabled threads by
// id, [earliest sleeper, advancing the clock] , [freeze the current thread].
struct Opt { Thr* t; int what; };   // what: 0 run, 1 advance to t's timer, 2 freeze current

static int objid(void* o) {
  if (!o) return 0;
  auto r = g_objid->emplace(o, (int)g_objthreads->size());
  if (r.second) g_objthreads->push_back(0);
  int id = r.first->second;
  if (self) (*g_objthreads)[id] |= 1u << self->id;
  return id;
}

// Decide who runs next. The calling thread holds the token. `voluntary`: it could continue.
static void reschedule(Kind kind, void* obj) {
  Thr* me = self;
  int oid = objid(obj);
  if (++g_points > cur_sc->max_points) rt_fail("hang:livelock", "no progress: more than %ld scheduling points in one execution", cur_sc->max_points);
  bool meen = me->st != FINISHED && enabled(me);
  Opt opt[MAXT * 2 + 4]; int n = 0;
  if (meen) opt[n++] = {me, 0};
  for (Thr* t : thr) if (t != me && enabled(t)) opt[n++] = {t, 0};
  Thr* early = nullptr;
  for (Thr* t : thr) if (t != me && !enabled(t) && has_timer(t) && (!early || t->wake < early->wake)) early = t;
  if (n == 0) {
    // also consider me's own timer
    Thr* e = early;
    if (me->st != FINISHED && has_timer(me) && (!e || me->wake < e->wake)) e = me;
    if (!e) {
      bool all_fin = true; for (Thr* t : thr) if (t->st != FINISHED) all_fin = false;
      if (all_fin) finish_run(1);
      rt_fail("deadlock", "deadlock: no thread can run");
    }
    if (e->wake > g_now) g_now = e->wake;
    if (g_now > cur_sc->horizon_s) rt_fail("hang:horizon", "execution still going after %.1f virtual seconds", g_now);
    // everything that became enabled, lowest id first
    for (Thr* t : thr) if (enabled(t)) opt[n++] = {t, 0};
  } else {
    if (early) opt[n++] = {early, 1};
    if (meen && cur_sc->freeze_ms > 0 && n > 1 && kind != K_SLEEP) opt[n++] = {me, 2};
  }
  int ch = 0;
  if (n > 1) {
    if (g_np >= MAXP) rt_fail("hang:points", "too many decision points");
    PointRec& r = shm->p[g_np];
    r.nopts = n; r.kind = kind; r.tid = me->id; r.obj = oid; r.flags = (g_explore ? 0 : 2) | (opt[n - 1].what == 2 ? 4 : 0); r.hash = g_hash;
    if (g_nextdev < shm->ndev && shm->dev[g_nextdev].idx == (uint32_t)g_np) {
      Dev& d = shm->dev[g_nextdev++];
      if (d.hash && d.hash != g_hash) diverge("history hash differs");
      if (d.choice >= n) diverge("choice out of range");
      ch = d.choice;
    } else if (meen && ++g_spin > 20000) {
      // fairness: a thread that never blocks must not starve the rest for ever
      ch = 1; g_spin = 0;
    }
    r.chosen = ch;
    g_np++;
    hmix(((uint64_t)n << 40) | ((uint64_t)kind << 32) | ((uint64_t)me->id << 16) | ch);
    if (g_verbose && ch) fprintf(stderr, "[%.6f] deviation at point %d (%s by t%d): choice %d/%d -> %s t%d\n", g_now, g_np - 1, kKindName[kind], me->id, ch, n, opt[ch].what == 2 ? "freeze" : opt[ch].what == 1 ? "advance clock to" : "run", opt[ch].t->id);
  }
  Opt o = opt[ch];
  if (o.what == 1 && o.t->wake > g_now) g_now = o.t->wake;
  Thr* next = o.t;
  State saved = me->st; double savedwake = me->wake; bool savedtimed = me->timed;
  bool froze = false;
  if (o.what == 2) {
    me->st = SLEEP; me->wake = g_now + cur_sc->freeze_ms / 1e3; me->timed = true; froze = true;
    next = nullptr;
    for (Thr* t : thr) if (t != me && enabled(t)) { next = t; break; }
    if (!next) {
      Thr* e = me; for (Thr* t : thr) if (has_timer(t) && t->wake < e->wake) e = t;
      if (e->wake > g_now) g_now = e->wake;
      next = e;
    }
  }
  if (next != me) {
    g_spin = 0;
    running = next;
    sem_up(next);
    if (me->st == FINISHED) return;
    sem_down(me);
  } else running = me;
  if (froze) { me->st = saved; me->wake = savedwake; me->timed = savedtimed; }
}

static inline void release_to(Clock& c) { c.join(self->vc); self->vc.c[self->id]++; }
static inline void acquire_from(const Clock& c) { self->vc.join(c); }

static void block_until(State st, void* obj, Kind kind) {
  while (true) {
    self->st = st; self->obj = obj;
    if (enabled(self)) { self->st = READY; return; }
    reschedule(kind, nullptr);
    if (enabled(self)) { self->st = READY; return; }
  }
}
static inline bool controlled() { return g_active && self && tl_inside == 0; }

static void v_sleep(double dt, Kind k = K_SLEEP) {
  self->timed = true; self->wake = g_now + (dt > 0 ? dt : 0);
  self->st = SLEEP;
  // always give the token away, even for a zero sleep
  if (dt <= 0) self->wake = g_now;
  while (true) {
    reschedule(k, nullptr);
    if (self->wake <= g_now) break;
    self->st = SLEEP;
  }
  self->st = READY; self->timed = false;
}
void sleep_ms(double ms) { In in; v_sleep(ms / 1e3); }

// ------------------------------------------------------------------ shadow memory / race detection
struct Rec { uint32_t clk; uint8_t tid; uint8_t mask; uint8_t flags; uint8_t pad; void* pc; void* pc2; };  // flags: 1 write, 2 atomic, 4 free
static const int NREC = 6;
struct Cell { Rec r[NREC]; };
struct Page { Cell c[512]; };       // one 4 KB page of application memory
static Page*** g_top = nullptr;     // [2^18][2^17] of page pointers: 47-12=35 bits
static bool g_race = false;
static std::vector<std::pair<uintptr_t, uintptr_t>>* g_ignored;

static Page* page_of(uintptr_t a, bool create) {
  uintptr_t pn = a >> 12;
  if (pn >> 35) return nullptr;
  Page**& l2 = g_top[pn >> 17];
  if (!l2) {
    if (!create) return nullptr;
    l2 = (Page**)mmap(nullptr, sizeof(Page*) << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  Page*& p = l2[pn & ((1u << 17) - 1)];
  if (!p) {
    if (!create) return nullptr;
    p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  return p;
}
static void clear_range(void* a, size_t n) {
  uintptr_t s = (uintptr_t)a, e = s + n;
  for (uintptr_t g = s & ~7ul; g < e;) {
    Page* p = page_of(g, false);
    uintptr_t pe = (g | 4095) + 1;
    uintptr_t stop = std::min(pe, e);
    if (p) memset(&p->c[(g >> 3) & 511], 0, ((stop - g + 7) / 8) * sizeof(Cell));
    g = pe;
  }
}
static void describe(char* b, size_t n, void* pc) {
  snprintf(b, n, "exe+0x%lx", (unsigned long)((char*)pc - &__executable_start));
}
[[noreturn]] static void race_report(uintptr_t addr, const Rec& old, int flags, void* pc, void* pc2) {
  char a[64], b[64], a2[64], b2[64];
  describe(a, sizeof a, old.pc); describe(b, sizeof b, pc);
  describe(a2, sizeof a2, old.pc2); describe(b2, sizeof b2, pc2);
  auto nm = [](int f) { return (f & 4) ? "free" : (f & 1) ? ((f & 2) ? "atomic write" : "write") : ((f & 2) ? "atomic read" : "read"); };
  if ((old.flags & 4)) {
    rt_fail("use-after-free", "use after free: thread %d %s at %s (in %s); freed by thread %d at %s (in %s)", self->id, nm(flags), b, b2, old.tid, a, a2);
  }
  rt_fail("data-race", "data race: thread %d %s at %s (in %s) is unordered with thread %d %s at %s (in %s)", self->id, nm(flags), b, b2, old.tid, nm(old.flags), a, a2);
}
static void access8(uintptr_t a, int mask, int flags, void* pc) {
  Page* p = page_of(a, true);
  if (!p) return;
  Cell& c = p->c[(a >> 3) & 511];
  Thr* me = self;
  int free_slot = -1, evict = -1;
  for (int i = 0; i < NREC; i++) {
    Rec& r = c.r[i];
    if (!r.mask) { if (free_slot < 0) free_slot = i; continue; }
    if (!(r.mask & mask)) continue;
    if (r.flags & 4) { race_report(a, r, flags, pc, me->stack.empty() ? nullptr : me->stack.back()); }
    if (r.tid == me->id) {
      if ((r.mask & ~mask) == 0 && (!(r.flags & 1) || (flags & 1)) && (!(flags & 2) || (r.flags & 2))) { r.mask = 0; if (free_slot < 0) free_slot = i; }
      continue;
    }
    bool hb = me->vc.c[r.tid] >= r.clk;
    if (hb) {
      if ((r.mask & ~mask) == 0 && (!(r.flags & 1) || (flags & 1))) { r.mask = 0; if (free_slot < 0) free_slot = i; }
      else evict = i;
      continue;
    }
    if (!((r.flags | flags) & 1)) continue;      // two reads
    if ((r.flags & 2) && (flags & 2)) continue;  // two atomics
    for (auto& g : *g_ignored) if (a >= g.first && a < g.second) return;
    race_report(a, r, flags, pc, me->stack.empty() ? nullptr : me->stack.back());
  }
  int s = free_slot >= 0 ? free_slot : evict >= 0 ? evict : (int)((a >> 3) % NREC);
  c.r[s] = Rec{me->vc.c[me->id], (uint8_t)me->id, (uint8_t)mask, (uint8_t)flags, 0, pc, me->stack.empty() ? nullptr : me->stack.back()};
}
static inline void access(const void* ap, size_t n, int flags, void* pc) {
  if (!g_race || !controlled()) return;
  In in;
  uintptr_t a = (uintptr_t)ap, e = a + n;
  while (a < e) {
    uintptr_t g = a & ~7ul, ge = g + 8;
    int lo = (int)(a - g), hi = (int)(std::min(e, ge) - g);
    int mask = ((1 << hi) - 1) & ~((1 << lo) - 1);
    access8(g, mask, flags, pc);
    a = ge;
  }
}

static std::deque<std::pair<void*, size_t>>* g_quar;
static size_t g_quar_bytes = 0;
static void on_alloc(void* p, size_t n) { if (g_race && p) { In in; clear_range(p, malloc_usable_size(p)); } }
static bool on_free(void* p, void* pc) {   // true: quarantined
  if (!g_race || !controlled() || !p) return false;
  size_t n = malloc_usable_size(p);
  access(p, n, 1, pc);
  In in;
  uintptr_t a = (uintptr_t)p, e = a + n;
  for (uintptr_t g = a & ~7ul; g < e; g += 8) {
    Page* pg = page_of(g, true);
    if (!pg) break;
    Cell& c = pg->c[(g >> 3) & 511];
    memset(&c, 0, sizeof c);
    c.r[0] = Rec{self->vc.c[self->id], (uint8_t)self->id, 255, 5, 0, pc, self->stack.empty() ? nullptr : self->stack.back()};
  }
  g_quar->emplace_back(p, n); g_quar_bytes += n;
  while (g_quar_bytes > (48u << 20)) {
    auto q = g_quar->front(); g_quar->pop_front(); g_quar_bytes -= q.second;
    clear_range(q.first, q.second);
    __libc_free(q.first);
  }
  return true;
}

// ------------------------------------------------------------------ real functions
template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

// ------------------------------------------------------------------ mutexes
static int mtx_lock(void* m, bool recursive, bool timed, double deadline) {
  In in;
  reschedule(K_LOCK, m);
  if (g_race) { tl_inside--; access(m, 1, 2, __builtin_return_address(0)); tl_inside++; }  // UAF of the mutex itself
  Mutex* s = &(*g_mtx)[m];
  if (s->owner == self->id && recursive) { s->depth++; return 0; }
  while (s->owner >= 0 || s->readers > 0) {
    self->timed = timed; self->wake = deadline;
    self->st = BLK_MUTEX; self->obj = m;
    reschedule(K_BLOCK, nullptr);
    s = &(*g_mtx)[m];
    if (timed && (s->owner >= 0) && self->wake <= g_now) { self->st = READY; self->timed = false; return ETIMEDOUT; }
  }
  self->st = READY; self->timed = false;
  s->owner = self->id; s->depth = 1;
  acquire_from(s->vc);
  return 0;
}
static int mtx_unlock(void* m) {
  In in;
  if (g_race) { tl_inside--; access(m, 1, 2, __builtin_return_address(0)); tl_inside++; }
  Mutex& s = (*g_mtx)[m];
  if (s.owner != self->id) { if (s.readers > 0) { s.readers--; release_to(s.vc); return 0; }
    rt_fail("bad-unlock", "thread %d unlocks a mutex it does not hold (owner %d)", self->id, s.owner); }
  if (--s.depth == 0) { s.owner = -1; release_to(s.vc); }
  return 0;
}
static inline bool known_mutex(void* m) { return g_mtx && g_mtx->count(m); }

// ------------------------------------------------------------------ child entry
static struct sigaction g_old;
static void on_signal(int sig) {
  tl_inside++;
  if (shm && shm->status == 0) {
    const char* n = sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGBUS ? "bus" : sig == SIGALRM ? "timeout" : "signal";
    snprintf(shm->sig, sizeof shm->sig, sig == SIGALRM ? "hang:%s" : "crash:%s", n);
    snprintf(shm->msg, sizeof shm->msg, "%s (signal %d) in thread %d at virtual time %.3f", sig == SIGALRM ? "no end of the execution in real time" : "crash", sig, self ? self->id : -1, g_now);
    if (self) append_where(shm->msg, sizeof shm->msg);
    shm->status = sig == SIGALRM ? 4 : 2;
    shm->np = g_np; shm->vtime = g_now; shm->trace = g_hash;
  }
  _exit(43);
}

static void run_child(const Scenario& sc, int alarm_s) {
  In in;
  cur_sc = &sc;
  g_mtx = new std::unordered_map<void*, Mutex>; g_sync = new std::unordered_map<void*, Clock>;
  g_objid = new std::unordered_map<void*, int>; g_objthreads = new std::vector<uint32_t>(1, ~0u);
  g_once = new std::unordered_map<void*, int>; g_quar = new std::deque<std::pair<void*, size_t>>;
  g_ignored = new std::vector<std::pair<uintptr_t, uintptr_t>>;
  g_mtx->reserve(4096); g_sync->reserve(4096);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
  static char altstack[65536]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  alarm(alarm_s);
  g_race = sc.race;
  if (g_race) g_top = (Page***)mmap(nullptr, sizeof(Page**) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_compute_ms = sc.compute_ms;
  Thr* t = new Thr; t->id = 0; t->pt = pthread_self(); t->vc.c[0] = 1; t->stack.reserve(256);
  thr.reserve(MAXT); thr.push_back(t); self = t; running = t;
  g_active = true;
  tl_inside--;
  try {
    sc.body();
  } catch (const std::exception& e) {
    fail("exception", "uncaught exception in the client: %s", e.what());
  }
  tl_inside++;
  g_active = false;
  for (size_t i = 1; i < thr.size(); i++)
    if (thr[i]->st != FINISHED && getenv("MC_LEAK_OK") == nullptr) { snprintf(shm->sig, sizeof shm->sig, "thread-leak"); snprintf(shm->msg, sizeof shm->msg, "thread %d is still alive after every object was destroyed", (int)i); append_where(shm->msg, sizeof shm->msg); finish_run(2); }
  finish_run(1);
}

static void* thread_tramp(void* a) {
  Thr* t = (Thr*)a;
  tl_inside++;
  self = t;
  sem_down(t);
  if (g_race) {
    pthread_attr_t at; void* sp; size_t sz;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &sp, &sz); clear_range(sp, sz); pthread_attr_destroy(&at); }
  }
  tl_inside--;
  void* r = t->fn(t->arg);
  tl_inside++;
  t->st = FINISHED;
  // final clock is read by join
  reschedule(K_JOIN, nullptr);
  return r;
}

}  // namespace mc

using namespace mc;

// =================================================================== interposed symbols
extern "C" {

void* malloc(size_t n) { void* p = __libc_malloc(n); if (g_race) on_alloc(p, n); return p; }
void free(void* p) { if (g_race && on_free(p, __builtin_return_address(0))) return; __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (g_race) on_alloc(p, a * b); return p; }
void* realloc(void* p, size_t n) {
  if (!g_race || !controlled() || !p) { void* q = __libc_realloc(p, n); if (g_race) on_alloc(q, n); return q; }
  void* q = malloc(n); size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); return q;
}
void* memalign(size_t al, size_t n) { void* p = __libc_memalign(al, n); if (g_race) on_alloc(p, n); return p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return *out ? 0 : ENOMEM; }

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!controlled()) return r(out, attr, fn, arg);
  In in;
  if (thr.size() >= (size_t)MAXT) rt_fail("hang:threads", "more than %d threads created", MAXT);
  Thr* t = new Thr; t->id = (int)thr.size(); t->fn = fn; t->arg = arg; t->stack.reserve(256);
  thr.push_back(t);
  t->vc = self->vc; t->vc.c[t->id] = 1; self->vc.c[self->id]++;
  int rc = r(&t->pt, attr, thread_tramp, t);
  if (rc) { t->st = FINISHED; return rc; }
  *out = t->pt;
  reschedule(K_CREATE, nullptr);
  return 0;
}
int pthread_join(pthread_t pt, void** ret) {
  static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!controlled()) return r(pt, ret);
  In in;
  Thr* t = nullptr;
  for (Thr* x : thr) if (x->id && pthread_equal(x->pt, pt) && !x->detached) t = x;
  if (!t) return r(pt, ret);
  if (t == self) return EDEADLK;
  self->join_target = t->id;
  reschedule(K_JOIN, nullptr);
  block_until(JOIN, nullptr, K_BLOCK);
  acquire_from(t->vc);
  t->detached = true;   // id may be reused by the system
  return r(pt, ret);
}
int pthread_detach(pthread_t pt) {
  static auto r = real<int (*)(pthread_t)>("pthread_detach");
  if (controlled()) { In in; for (Thr* x : thr) if (x->id && pthread_equal(x->pt, pt)) x->detached = true; }
  return r(pt);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!controlled() || !(from_exe(__builtin_return_address(0)) || known_mutex(m))) return r(m);
  return mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!controlled() || !(from_exe(__builtin_return_address(0)) || known_mutex(m))) return r(m);
  In in;
  reschedule(K_TRY, m);
  Mutex& s = (*g_mtx)[m];
  if (s.owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
  if (s.owner >= 0 || s.readers > 0) return EBUSY;
  s.owner = self->id; s.depth = 1; acquire_from(s.vc);
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  static auto r = real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock");
  if (!controlled()) return r(m, c, ts);
  return mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, (double)ts->tv_sec - 1000000 + ts->tv_nsec * 1e-9);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  static auto r = real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
  if (!controlled()) return r(m, ts);
  return mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, (double)ts->tv_sec - 1000000 + ts->tv_nsec * 1e-9);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!controlled() || !known_mutex(m)) return r(m);
  int e = mtx_unlock(m);
  if (cur_sc->unlock_points && e == 0) { In in; reschedule(K_UNLOCK, m); }
  return e;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  if (controlled() && known_mutex(m)) { In in; g_mtx->erase(m); return 0; }
  return r(m);
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  if (!controlled() || !from_exe(__builtin_return_address(0))) return r(m);
  In in;
  reschedule(K_LOCK, m);
  block_until(BLK_RD, m, K_BLOCK);
  Mutex& s = (*g_mtx)[m]; s.readers++; acquire_from(s.vc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  if (!controlled() || !from_exe(__builtin_return_address(0))) return r(m);
  In in; reschedule(K_TRY, m); Mutex& s = (*g_mtx)[m]; if (s.owner >= 0) return EBUSY; s.readers++; acquire_from(s.vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  if (!controlled() || !from_exe(__builtin_return_address(0))) return r(m);
  In in;
  reschedule(K_LOCK, m);
  block_until(BLK_WR, m, K_BLOCK);
  Mutex& s = (*g_mtx)[m]; s.owner = self->id; s.depth = 1; acquire_from(s.vc); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  if (!controlled() || !from_exe(__builtin_return_address(0))) return r(m);
  In in; reschedule(K_TRY, m); Mutex& s = (*g_mtx)[m]; if (s.owner >= 0 || s.readers) return EBUSY; s.owner = self->id; s.depth = 1; acquire_from(s.vc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!controlled() || !known_mutex(m)) return r(m);
  return mtx_unlock(m);
}

// condition variables
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed, double deadline) {
  In in;
  reschedule(K_COND, c);
  mtx_unlock(m);
  self->woken = false; self->timed = timed; self->wake = deadline;
  self->st = COND; self->obj = c;
  while (true) { reschedule(K_BLOCK, nullptr); if (self->woken || (timed && self->wake <= g_now)) break; self->st = COND; }
  bool to = !self->woken;
  self->st = READY; self->timed = false;
  acquire_from((*g_sync)[c]);
  mtx_lock(m, false, false, 0);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!controlled() || !known_mutex(m)) return r(c, m);
  return cond_wait_impl(c, m, false, 0);
}
static double clk_base(const struct timespec* ts) { return (double)ts->tv_sec - 1000000 + ts->tv_nsec * 1e-9; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  if (!controlled() || !known_mutex(m)) return r(c, m, ts);
  return cond_wait_impl(c, m, true, clk_base(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
  static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  if (!controlled() || !known_mutex(m)) return r(c, m, ck, ts);
  return cond_wait_impl(c, m, true, clk_base(ts));
}
static int cond_wake(pthread_cond_t* c, bool all) {
  In in;
  release_to((*g_sync)[c]);
  for (Thr* t : thr) if (t->st == COND && t->obj == c && !t->woken) { t->woken = true; if (!all) break; }
  reschedule(K_COND, c);
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!controlled()) return r(c);
  return cond_wake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!controlled()) return r(c);
  return cond_wake(c, true);
}

int pthread_once(pthread_once_t* o, void (*f)(void)) {
  static auto r = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
  if (!controlled() || !from_exe(__builtin_return_address(0))) return r(o, f);
  In in;
  reschedule(K_ONCE, o);
  if (*(volatile int*)o == 0) g_once->erase(o);      // fresh memory: the flag of an object that is gone does not count
  block_until(ONCE, o, K_BLOCK);
  int st = *(volatile int*)o;
  if (st == 2) { acquire_from((*g_sync)[o]); return 0; }
  (*g_once)[o] = 1; *(volatile int*)o = 1;
  tl_inside--;
  try { f(); } catch (...) { tl_inside++; (*g_once)[o] = 0; *(volatile int*)o = 0; tl_inside--; throw; }
  tl_inside++;
  (*g_once)[o] = 2; *(volatile int*)o = 2;
  release_to((*g_sync)[o]);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) { if (controlled()) { In in; acquire_from((*g_sync)[g]); } return 0; }
  if (!controlled()) { *((char*)g + 1) = 1; return 1; }
  In in;
  reschedule(K_ONCE, g);
  block_until(ONCE, g, K_BLOCK);
  if (*(char*)g) { acquire_from((*g_sync)[g]); return 0; }
  (*g_once)[g] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE);
  if (controlled()) { In in; (*g_once)[g] = 2; release_to((*g_sync)[g]); }
}
void __cxa_guard_abort(uint64_t* g) { if (controlled()) { In in; (*g_once)[g] = 0; } }

// time
static void to_ts(double t, struct timespec* ts) { t += 1000000 + 0.5e-9; ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9); if (ts->tv_nsec < 0) ts->tv_nsec = 0; if (ts->tv_nsec > 999999999) ts->tv_nsec = 999999999; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!controlled() || c == CLOCK_THREAD_CPUTIME_ID || c == CLOCK_PROCESS_CPUTIME_ID) return (int)syscall(SYS_clock_gettime, c, ts);
  to_ts(g_now, ts);
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec* rq, struct timespec* rm) {
  if (!controlled()) return (int)syscall(SYS_nanosleep, rq, rm);
  In in; v_sleep(rq->tv_sec + rq->tv_nsec * 1e-9); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* rq, struct timespec* rm) {
  if (!controlled()) return (int)syscall(SYS_clock_nanosleep, c, fl, rq, rm);
  In in; double d = rq->tv_sec + rq->tv_nsec * 1e-9; if (fl & TIMER_ABSTIME) d = clk_base(rq) - g_now; v_sleep(d); return 0;
}
int usleep(useconds_t us) { if (!controlled()) { struct timespec t{us / 1000000, (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); } In in; v_sleep(us * 1e-6); return 0; }
int sched_yield() { if (!controlled()) return (int)syscall(SYS_sched_yield); In in; v_sleep(0.0001); return 0; }

// nlopt: virtual duration, evaluation cap
typedef struct nlopt_opt_s* nlopt_opt;
int nlopt_set_maxeval(nlopt_opt o, int n) {
  static auto r = real<int (*)(nlopt_opt, int)>("nlopt_set_maxeval");
  if (controlled() && cur_sc->maxeval_cap > 0 && (n <= 0 || n > cur_sc->maxeval_cap)) n = cur_sc->maxeval_cap;
  return r(o, n);
}
int nlopt_optimize(nlopt_opt o, double* x, double* f) {
  static auto r = real<int (*)(nlopt_opt, double*, double*)>("nlopt_optimize");
  if (!controlled()) return r(o, x, f);
  g_opts_started++;
  int rc = r(o, x, f);
  if (g_compute_ms > 0) { In in; v_sleep(g_compute_ms / 1e3); }
  g_opts_done++;
  return rc;
}

}  // extern "C"

// std::future's wait primitive
namespace std {
static bool futex_wait_common(unsigned* addr, unsigned val, bool timed, double deadline) {
  In in;
  reschedule(K_FUTEX, addr);
  if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != val) { return true; }
  self->woken = false; self->timed = timed; self->wake = deadline; self->st = FUTEX; self->obj = addr;
  while (true) { reschedule(K_BLOCK, nullptr); if (self->woken || (timed && self->wake <= g_now)) break; self->st = FUTEX; }
  bool ok = self->woken;
  self->st = READY; self->timed = false;
  return ok;
}
static bool raw_futex(unsigned* addr, unsigned val, bool timed, long s, long ns, bool mono) {
  struct timespec ts{s, ns};
  long rc = syscall(SYS_futex, addr, FUTEX_WAIT, val, timed ? nullptr : nullptr, nullptr, 0);
  (void)ts; (void)mono; return rc == 0 || errno != ETIMEDOUT;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool timed, chrono::seconds s, chrono::nanoseconds ns) {
  if (!controlled()) return raw_futex(addr, val, timed, s.count(), ns.count(), false);
  return futex_wait_common(addr, val, timed, s.count() - 1000000.0 + ns.count() * 1e-9);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool timed, chrono::seconds s, chrono::nanoseconds ns) {
  if (!controlled()) return raw_futex(addr, val, timed, s.count(), ns.count(), true);
  return futex_wait_common(addr, val, timed, s.count() - 1000000.0 + ns.count() * 1e-9);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (!controlled()) { syscall(SYS_futex, addr, FUTEX_WAKE, 1 << 30, nullptr, nullptr, 0); return; }
  In in;
  for (Thr* t : thr) if (t->st == FUTEX && t->obj == addr) t->woken = true;
}
}  // namespace std

// =================================================================== __tsan_* callbacks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (self && g_active) { ++tl_inside; self->stack.push_back(PC); --tl_inside; } }
void __tsan_func_exit() { if (self && g_active && !self->stack.empty()) self->stack.pop_back(); }
#define RW(N) \
  void __tsan_read##N(void* a) { access(a, N, 0, PC); } \
  void __tsan_write##N(void* a) { access(a, N, 1, PC); } \
  void __tsan_unaligned_read##N(void* a) { access(a, N, 0, PC); } \
  void __tsan_unaligned_write##N(void* a) { access(a, N, 1, PC); } \
  void __tsan_read_write##N(void* a) { access(a, N, 1, PC); } \
  void __tsan_unaligned_read_write##N(void* a) { access(a, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, 0, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, 1, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, 1, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, 0, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, 1, PC); return memset(d, c, n); }

static inline void at_pre(const volatile void* a, int size, bool w, bool point, void* pc) {
  if (!controlled()) return;
  if (point) { In in; reschedule(K_ATOMIC, (void*)a); }
  access((void*)a, size, w ? 3 : 2, pc);
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_load_hb(const volatile void* a, int mo) { if (controlled() && acq(mo)) { In in; auto it = g_sync->find((void*)a); if (it != g_sync->end()) acquire_from(it->second); } }
static inline void at_store_hb(const volatile void* a, int mo, bool rmw) {
  if (!controlled()) return;
  In in;
  if (rel(mo)) { Clock& c = (*g_sync)[(void*)a]; if (!rmw) c = Clock(); release_to(c); }
  else if (!rmw) { auto it = g_sync->find((void*)a); if (it != g_sync->end()) it->second = Clock(); }
}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { at_pre(a, B / 8, false, true, PC); T v = *a; at_load_hb(a, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, true, PC); at_store_hb(a, mo, false); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, true, PC); at_load_hb(a, mo); at_store_hb(a, mo, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, B != 32, PC); at_load_hb(a, mo); at_store_hb(a, mo, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, B != 32, PC); at_load_hb(a, mo); at_store_hb(a, mo, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, true, PC); at_load_hb(a, mo); at_store_hb(a, mo, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, true, PC); at_load_hb(a, mo); at_store_hb(a, mo, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, true, PC); at_load_hb(a, mo); at_store_hb(a, mo, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, B / 8, true, true, PC); at_load_hb(a, mo); at_store_hb(a, mo, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { at_pre(a, B / 8, true, true, PC); T o = *a; if (o == *c) { at_load_hb(a, mo); at_store_hb(a, mo, true); *a = v; return 1; } at_load_hb(a, fmo); *c = o; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (controlled()) { In in; static Clock f; if (acq(mo)) acquire_from(f); if (rel(mo)) release_to(f); } }
void __tsan_atomic_signal_fence(int) {}
}

// =================================================================== explorer
namespace mc {

struct Job { int ndev; Dev dev[MAXDEV]; };
struct Viol { std::string scenario, sig, msg, params; Job job; int sc_index; };

static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o;
}

static Shm* new_shm() {
  return (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void reset_shm(Shm* s, const Job& j, int sc) {
  s->ndev = j.ndev; memcpy(s->dev, j.dev, sizeof j.dev); s->scenario = sc; s->status = 0; s->sig[0] = s->msg[0] = 0; s->np = 0; s->outcome = s->trace = 0; s->oracle = 0; s->logn = 0; s->log[0] = 0; s->replay = false; s->vtime = 0;
}

// Executions are forked from small helper processes, not from the explorer with its long queues.
struct Cmd { int sc, alarm_s; bool verbose; };
struct Worker { int to = -1, from = -1; Shm* s = nullptr; };
static std::vector<Worker> workers;        // the last one is used for executions run alone
static void start_workers(const std::vector<Scenario>& scs, int n) {
  for (int i = 0; i < n; i++) {
    int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); exit(2); }
    Worker w; w.s = new_shm(); w.to = a[1]; w.from = b[0];
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      close(a[1]); close(b[0]);
      for (auto& o : workers) { close(o.to); close(o.from); }
      Cmd c;
      while (read(a[0], &c, sizeof c) == (ssize_t)sizeof c) {
        pid_t k = fork();
        if (k == 0) { close(a[0]); close(b[1]); shm = w.s; shm->replay = c.verbose; g_verbose = c.verbose; run_child(scs[c.sc], c.alarm_s); _exit(99); }
        int st = 0x7f00; if (k > 0) waitpid(k, &st, 0);
        if (write(b[1], &st, sizeof st) != (ssize_t)sizeof st) break;
      }
      _exit(0);
    }
    close(a[0]); close(b[1]);
    workers.push_back(w);
  }
}
static void launch(Worker& w, int sc, int alarm_s, bool verbose) { Cmd c{sc, alarm_s, verbose}; if (write(w.to, &c, sizeof c) != (ssize_t)sizeof c) { perror("worker"); exit(2); } }
static int collect(Worker& w) { int st = 0x7f00; if (read(w.from, &st, sizeof st) != (ssize_t)sizeof st) { fprintf(stderr, "a worker died\n"); exit(2); } return st; }

// run one execution alone, synchronously; the result is in the last worker's memory
static int run_one(int idx, const Job& j, int alarm_s, bool verbose) {
  Worker& w = workers.back(); Shm* s = w.s;
  reset_shm(s, j, idx);
  launch(w, idx, alarm_s, verbose);
  int st = collect(w);
  if (s->status == 0) {
    s->status = 2; snprintf(s->sig, sizeof s->sig, "crash:exit"); snprintf(s->msg, sizeof s->msg, "the process ended by itself (wait status 0x%x)", st);
  }
  return s->status;
}

static std::string symbolize(const std::string& msg) {
  // turn exe+0x... into function (file:line) with addr2line, best effort
  std::string out; size_t i = 0;
  char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n <= 0) return msg; exe[n] = 0;
  std::map<std::string, std::string> cache;
  while (i < msg.size()) {
    size_t p = msg.find("exe+0x", i);
    if (p == std::string::npos) { out += msg.substr(i); break; }
    out += msg.substr(i, p - i);
    size_t q = p + 6; while (q < msg.size() && isxdigit((unsigned char)msg[q])) q++;
    std::string hex = msg.substr(p + 6, q - p - 6);
    if (!cache.count(hex)) {
      std::string cmd = "addr2line -Cfs -e '" + std::string(exe) + "' 0x" + hex + " 2>/dev/null";
      FILE* f = popen(cmd.c_str(), "r"); char fn[600] = "", ln[300] = "";
      if (f) { if (!fgets(fn, sizeof fn, f)) fn[0] = 0; if (!fgets(ln, sizeof ln, f)) ln[0] = 0; pclose(f); }
      std::string a = fn, b = ln; while (!a.empty() && a.back() == '\n') a.pop_back(); while (!b.empty() && b.back() == '\n') b.pop_back();
      if (a.size() > 110) a = a.substr(0, 107) + "...";
      cache[hex] = a.empty() || a[0] == '?' ? "exe+0x" + hex : a + " (" + b + ")";
    }
    out += cache[hex]; i = q;
  }
  return out;
}

static std::string dev_str(const Job& j) {
  std::string s; char b[64];
  for (int i = 0; i < j.ndev; i++) { snprintf(b, sizeof b, "%s%u:%u:%llx", i ? "," : "", j.dev[i].idx, j.dev[i].choice, (unsigned long long)j.dev[i].hash); s += b; }
  return s;
}

int run_main(int argc, char** argv, const char* prop, std::function<std::vector<Scenario>(bool)> make) {
  setenv("GLOG_minloglevel", "4", 1);
  bool thorough = false; std::string out, replay, only; double budget = 300; int jobs = 8; int maxviol = 1; std::string rdir = "/verif/evidence/replays"; int force_bound = -1; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") thorough = true;
    else if (a == "--out") out = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--bound") force_bound = atoi(argv[++i]);
    else if (a == "--replay-dir") rdir = argv[++i];
    else if (a == "--max-viol") maxviol = atoi(argv[++i]);
    else if (a == "--list") list = true;
  }
  auto scs = make(thorough || !replay.empty());
  if (list) { for (auto& s : scs) printf("%s %s\n", s.name.c_str(), s.params.c_str()); return 0; }
  { // make sure lazily resolved symbols and allocator state are initialised before forking
    void* p = malloc(1 << 20); free(p); }
  start_workers(scs, replay.empty() ? jobs + 1 : 1);
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
    char line[4096]; std::string name; Job j{};
    while (fgets(line, sizeof line, f)) {
      char nm[400], dv[3000];
      if (sscanf(line, "scenario %399s", nm) == 1) name = nm;
      if (sscanf(line, "deviations %2999s", dv) == 1 && strcmp(dv, "-")) {
        for (char* q = strtok(dv, ","); q; q = strtok(nullptr, ",")) { unsigned a, b; unsigned long long h; if (sscanf(q, "%u:%u:%llx", &a, &b, &h) == 3 && j.ndev < MAXDEV) j.dev[j.ndev++] = Dev{a, (uint8_t)b, h}; }
      }
    }
    fclose(f);
    for (size_t i = 0; i < scs.size(); i++) if (scs[i].name == name) {
      Shm* s = workers.back().s; int st = run_one((int)i, j, 600, true);
      printf("scenario %s: status=%d %s\n%s\n%s", name.c_str(), st, s->sig, symbolize(s->msg).c_str(), s->log);
      printf("points=%d vtime=%.3f outcome=%llx trace=%llx\n", s->np, s->vtime, (unsigned long long)s->outcome, (unsigned long long)s->trace);
      return st == 1 ? 0 : 1;
    }
    fprintf(stderr, "no such scenario %s\n", name.c_str()); return 2;
  }

  double t0 = wall(), deadline = t0 + budget;
  struct PerSc { long exec = 0, points = 0, oracle = 0; std::set<uint64_t> outcomes, traces; std::deque<Job> q[MAXDEV + 1]; long left = 0; int maxpts = 0; bool capped = false; int bound; std::string firstlog; double vt = 0; long bydev[MAXDEV + 1] = {0}; };
  std::vector<PerSc> ps(scs.size());
  std::set<int> active[MAXDEV + 1];      // scenarios with work left, by number of deviations
  std::vector<Viol> viols; std::set<std::string> sigs;
  std::string error;
  struct Slot { bool busy = false; Worker* w = nullptr; Shm* s = nullptr; int sc = 0; Job j; };
  std::vector<Slot> slots(jobs);
  for (int i = 0; i < jobs; i++) { slots[i].w = &workers[i]; slots[i].s = workers[i].s; }
  for (size_t i = 0; i < scs.size(); i++) {
    ps[i].bound = force_bound >= 0 ? force_bound : scs[i].bound;
    if (!only.empty() && scs[i].name != only && scs[i].name.compare(0, only.size(), only) != 0) { ps[i].bound = -1; continue; }
    ps[i].q[0].push_back(Job{}); active[0].insert((int)i); ps[i].left = 1;
  }
  long total_left = 0; for (auto& p : ps) total_left += p.left;
  int running_n = 0;
  const bool many = scs.size() > 100;   // many scenarios: one in sixteen is run twice, and the report is per group (name up to the first '/')
  bool stop = false;
  long determinism_checks = 0;
  size_t rr = 0;
  while ((total_left > 0 && !stop) || running_n > 0) {
    // fill
    for (auto& sl : slots) {
      if (stop || total_left == 0) break;
      if (sl.busy) continue;
      if (wall() > deadline) { stop = true; break; }
      // iterate the bound: the smallest number of deviations first, round robin over scenarios
      int best = -1, bd = 0;
      for (; bd <= MAXDEV; bd++) if (!active[bd].empty()) { auto it = active[bd].lower_bound((int)rr); if (it == active[bd].end()) it = active[bd].begin(); best = *it; break; }
      if (best < 0) break;
      rr = best + 1;
      sl.j = ps[best].q[bd].front(); ps[best].q[bd].pop_front(); if (ps[best].q[bd].empty()) active[bd].erase(best); ps[best].left--; total_left--;
      sl.sc = best; reset_shm(sl.s, sl.j, best);
      launch(*sl.w, best, scs[best].alarm_s, false);
      sl.busy = true; running_n++;
    }
    if (!running_n) break;
    std::vector<pollfd> pf; std::vector<Slot*> who;
    for (auto& sl : slots) if (sl.busy) { pf.push_back({sl.w->from, POLLIN, 0}); who.push_back(&sl); }
    if (poll(pf.data(), pf.size(), -1) < 0) { if (errno == EINTR) continue; break; }
    for (size_t pi = 0; pi < pf.size(); pi++) if (pf[pi].revents) {
      Slot& sl = *who[pi];
      int st = collect(*sl.w);
      sl.busy = false; running_n--;
      Shm* s = sl.s; const Scenario& sc = scs[sl.sc]; PerSc& p = ps[sl.sc];
      p.exec++; p.points += s->np; p.oracle += s->oracle; p.bydev[sl.j.ndev]++;
      if (s->status == 0) { s->status = 2; snprintf(s->sig, sizeof s->sig, "crash:exit"); snprintf(s->msg, sizeof s->msg, "the process ended by itself (wait status 0x%x)", st); }
      if (s->status == 1 && sl.j.ndev == 0 && p.exec == 1) { if (many && sl.sc % 16) { p.vt = s->vtime; if (sl.sc % 97 == 0) p.firstlog = s->log; } else {
        // determinism: the same schedule twice must give the same observations
        p.firstlog = s->log; uint64_t o1 = s->outcome, tr1 = s->trace; int n1 = s->np; p.vt = s->vtime;
        Shm* s2 = workers.back().s; run_one(sl.sc, sl.j, sc.alarm_s * 4, false); determinism_checks++;
        if (s2->outcome != o1 || s2->trace != tr1 || s2->np != n1) { if (error.empty()) error = "nondeterministic replay of the default schedule in " + sc.name; }
      } }
      if (s->status == 3) { error = std::string(s->msg) + " in " + sc.name + " [" + dev_str(sl.j) + "]"; }
      if (s->status == 2 || s->status == 4) {
        // replay alone before reporting
        std::string sig = s->sig, msg = s->msg;
        int st2 = run_one(sl.sc, sl.j, s->status == 4 ? 300 : sc.alarm_s * 4, false); determinism_checks++;
        s = workers.back().s;
        if ((st2 == 2 || st2 == 4) && (sig == s->sig || sig.compare(0, 5, "hang:") == 0)) {
          sig = s->sig; msg = s->msg;
          if (sigs.insert(sc.name + sig).second) viols.push_back({sc.name, sig, symbolize(msg), sc.params, sl.j, sl.sc});
          if ((int)viols.size() >= maxviol) stop = true;
        } else if (st2 == 1 && sig == "hang:timeout") {
          // slow machine: the long re-run finished normally
        } else error = "violation " + sig + " in " + sc.name + " did not replay (" + s->sig + ")";
      }
      if (s->status == 1) { p.outcomes.insert(s->outcome); }
      p.traces.insert(s->trace); p.maxpts = std::max(p.maxpts, s->np);
      // children
      if (sl.j.ndev < p.bound && s->status != 3) {
        int from = sl.j.ndev ? (int)sl.j.dev[sl.j.ndev - 1].idx + 1 : 0;
        for (int i = from; i < s->np; i++) {
          if (!(s->p[i].flags & 1) || (s->p[i].flags & 2)) continue;     // object used by one thread only in this execution
          for (int c = 1; c < s->p[i].nopts; c++) {
            if (c == s->p[i].chosen) continue;
            if ((sc.freeze_only || s->p[i].kind == K_UNLOCK) && !((s->p[i].flags & 4) && c == s->p[i].nopts - 1)) continue;
            Job j = sl.j; j.dev[j.ndev++] = Dev{(uint32_t)i, (uint8_t)c, s->p[i].hash};
            if (sc.max_exec && p.exec + p.left >= sc.max_exec) { p.capped = true; goto done; }
            p.q[j.ndev].push_back(j); active[j.ndev].insert(sl.sc); p.left++; total_left++;
          }
        }
        done:;
      }
    }
    if (!error.empty()) stop = true;
  }
  double dt = wall() - t0;
  // report
  long exec = 0, points = 0, oracle = 0, outcomes = 0, traces = 0; bool exhausted = true;
  std::string parts, samples;
  struct Agg { long n = 0, exec = 0, bydev[4] = {0}, points = 0, oracle = 0; size_t traces = 0, outcomes = 0; int maxpts = 0, bound = 0, done = 0; bool ex = true; double vt = 0; std::string params; };
  std::map<std::string, Agg> agg;
  for (size_t i = 0; i < ps.size(); i++) {
    PerSc& p = ps[i]; if (p.bound < 0) continue;
    exec += p.exec; points += p.points; oracle += p.oracle; outcomes += p.outcomes.size(); traces += p.traces.size();
    bool ex = p.left == 0 && !p.capped && !stop; exhausted &= ex;
    int done = -1; for (int d = 0; d <= p.bound; d++) { if (!p.q[d].empty() || (p.capped && d >= p.bound)) break; done = d; }
    if (ex) done = p.bound;
    Agg& g = agg[many ? scs[i].name.substr(0, scs[i].name.find('/')) : scs[i].name];
    if (!g.n++) { g.params = scs[i].params; g.ex = true; g.done = 99; }
    g.exec += p.exec; for (int d = 0; d < 4; d++) g.bydev[d] += p.bydev[d]; g.points += p.points; g.maxpts = std::max(g.maxpts, p.maxpts);
    g.traces += p.traces.size(); g.outcomes += p.outcomes.size(); g.bound = std::max(g.bound, p.bound); if (!ex) g.done = std::min(g.done, done); g.ex &= ex; g.oracle += p.oracle; g.vt += p.vt;
    if (samples.size() < 4000 && !p.firstlog.empty()) samples += std::string(samples.empty() ? "" : ",") + "\"" + jesc(scs[i].name + ": " + p.firstlog.substr(0, 600)) + "\"";
  }
  for (auto& [name, g] : agg) {
    g.done = std::min(g.done, g.bound);
    char b[1200];
    snprintf(b, sizeof b, "%s{\"scenario\":\"%s\",\"scenarios\":%ld,\"params\":\"%s\",\"executions\":%ld,\"by_deviations\":[%ld,%ld,%ld,%ld],\"choice_points\":%ld,\"max_points\":%d,\"distinct_schedules\":%zu,\"distinct_outcomes\":%zu,\"bound\":%d,\"bound_completed\":%d,\"exhausted\":%s,\"oracle_checks\":%ld,\"virtual_s\":%.2f}",
             parts.empty() ? "" : ",", jesc(name).c_str(), g.n, jesc(g.params).substr(0, 300).c_str(), g.exec, g.bydev[0], g.bydev[1], g.bydev[2], g.bydev[3], g.points, g.maxpts, g.traces, g.outcomes, g.bound, g.done, g.ex ? "true" : "false", g.oracle, g.vt);
    parts += b;
  }
  std::string vs;
  int vn = 0;
  for (auto& v : viols) {
    std::string cmd = "mkdir -p '" + rdir + "'"; if (system(cmd.c_str())) {}
    char path[600]; snprintf(path, sizeof path, "%s/%s-%s-%d.replay", rdir.c_str(), prop, v.scenario.c_str(), vn++);
    for (char* c = path + rdir.size() + 1; *c; c++) if (*c == '/' || *c == ' ') *c = '_';
    FILE* f = fopen(path, "w");
    if (f) { fprintf(f, "property %s\nengine sched\nbinary %s\nscenario %s\ndeviations %s\nsignature %s\nparams %s\n\n%s\n", prop, argv[0], v.scenario.c_str(), v.job.ndev ? dev_str(v.job).c_str() : "-", v.sig.c_str(), v.params.c_str(), v.msg.c_str()); fclose(f); }
    vs += std::string(vs.empty() ? "" : ",") + "{\"sig\":\"" + jesc(v.scenario + "/" + v.sig) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"replay\":\"" + jesc(path) + "\"}";
  }
  std::string js = "{\"engine\":\"sched\",\"property\":\"" + std::string(prop) + "\",\"executions\":" + std::to_string(exec) + ",\"choice_points\":" + std::to_string(points) + ",\"distinct_schedules\":" + std::to_string(traces) + ",\"distinct_outcomes\":" + std::to_string(outcomes) + ",\"oracle_checks\":" + std::to_string(oracle) + ",\"replays_checked\":" + std::to_string(determinism_checks) + ",\"exhausted\":" + (exhausted ? "true" : "false") + ",\"wall_s\":" + std::to_string(dt) + ",\"error\":\"" + jesc(error) + "\",\"parts\":[" + parts + "],\"samples\":[" + samples + "],\"violations\":[" + vs + "]}";
  if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  else puts(js.c_str());
  return error.empty() ? (viols.empty() ? 0 : 1) : 3;
}

}  // namespace mc
