// mcrt.cc - stateless model checker for real C++ threads.
//
// Provides (a) the __tsan_* entry points that -fsanitize=thread instruments the harness with,
// (b) interposed pthread / clock / guard / futex functions, (c) a deterministic scheduler that lets one
// thread run at a time and asks the explorer at every synchronisation operation which one goes next,
// (d) vector-clock race detection, (e) the explorer: depth-first over all schedules up to a bound on
// deviations (preemptions, early time-outs, spurious wake-ups), each schedule in a freshly forked process.
#include "mc.hh"
#include <bits/atomic_futex.h>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>
#include <vector>

#define HOT __attribute__((hot))
extern char __executable_start;

namespace {

  // ---------------------------------------------------------------- shared memory (one block per explorer worker)
  constexpr int MAXT = 10, MAXOPT = 24;
  constexpr uint32_t MAXP = 6000;
  struct Point {
    uint8_t n, chosen, kind, cur;
    uint16_t who;                 // hash of the option list, for divergence detection
    uint8_t cost[MAXOPT];
    uint8_t lab[MAXOPT];          // tid | 0x40 timeout | 0x80 spurious | for choose(): value
  };
  struct Shm {
    // in
    uint32_t nprefix;
    uint8_t prefix[MAXP];
    uint16_t expect[MAXP];
    // out
    volatile uint32_t npoints;
    Point pts[MAXP];
    volatile int status;          // 0 running, 1 finished, 2 violation, 3 divergence, 4 horizon
    char sig[512];
    char desc[6000];
    char outcome[4000];
    uint64_t accesses, syncs;
    uintptr_t pcs[2][24];         // stacks of a reported race
  };
  Shm *S = nullptr;

  enum { ST_RUN = 1, ST_MUTEX, ST_MUTEX_T, ST_COND, ST_RDLOCK, ST_WRLOCK, ST_JOIN, ST_ONCE, ST_GUARD, ST_FUTEX, ST_SLEEP, ST_YIELD, ST_DONE, ST_BARRIER };
  char const *stname[] = {"?", "running", "locking a mutex", "timed mutex lock", "waiting on a condition", "rdlock", "wrlock", "join", "once", "static-init guard", "waiting on a future/atomic", "sleeping", "yield", "done", "barrier"};

  struct VC { uint32_t c[MAXT]; };
  void vc_join(VC &a, VC const &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

  struct Thread {
    int st = 0;
    void *obj = nullptr, *obj2 = nullptr;
    int target = -1;
    bool has_deadline = false, timed_out = false, timed_wait = false, woken = false;
    uint64_t deadline = 0;
    uint64_t seq = 0;
    volatile int go = 0;
    VC vc{};
    pthread_t pt{};
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr, *ret = nullptr;
    bool joined = false, detached = false;
    uintptr_t stk[64];
    int sp = 0;
  };

  bool managed = false;            // true inside a controlled execution
  bool opt_spurious = false, opt_atomics = true;
  Thread T[MAXT];
  int NT = 0, CUR = 0;
  uint64_t vnow = 1700000000ull * 1000000000ull;
  uint64_t seqno = 0;
  int idle_yields = 0;
  int64_t counters[64];
  __thread int in_rt = 0;          // inside the runtime: do not instrument
  std::string *g_log = nullptr;

  // ---------------------------------------------------------------- tiny allocators / maps (never freed: each execution is a process)
  char *arena = nullptr;
  size_t arena_left = 0;
  void *ralloc(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (n > arena_left) {
      size_t sz = n > (4u << 20) ? n : (4u << 20);
      arena      = (char *) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      arena_left = sz;
    }
    void *p = arena;
    arena += n;
    arena_left -= n;
    return p;
  }

  template<class V>
  struct PMap { // open addressing, pointer keys
    struct E { uintptr_t k; V *v; };
    E *tab     = nullptr;
    size_t cap = 0, n = 0;
    void grow() {
      size_t oc = cap; E *ot = tab;
      cap = cap ? cap * 2 : 4096;
      tab = (E *) ralloc(cap * sizeof(E));
      memset(tab, 0, cap * sizeof(E));
      for (size_t i = 0; i < oc; i++) if (ot[i].k) {
          size_t h = hash(ot[i].k);
          while (tab[h].k) h = (h + 1) & (cap - 1);
          tab[h] = ot[i];
        }
    }
    size_t hash(uintptr_t k) const { return ((k >> 3) * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1); }
    V *find(uintptr_t k) {
      if (!cap) return nullptr;
      size_t h = hash(k);
      while (tab[h].k) { if (tab[h].k == k) return tab[h].v; h = (h + 1) & (cap - 1); }
      return nullptr;
    }
    V &get(uintptr_t k) {
      if (n * 2 >= cap) grow();
      size_t h = hash(k);
      while (tab[h].k) { if (tab[h].k == k) return *tab[h].v; h = (h + 1) & (cap - 1); }
      tab[h].k = k; n++;
      tab[h].v = new (ralloc(sizeof(V))) V();
      return *tab[h].v;
    }
  };

  struct Mutex { int owner = -1; int count = 0; VC vc{}; bool destroyed = false; };
  struct Cond { int nwait = 0; };
  struct RW { int writer = -1; int readers = 0; VC wvc{}, rvc{}; };
  struct Once { int st = 0; VC vc{}; };
  struct AtomVC { VC vc{}; };
  struct Barrier { int dummy; };
  PMap<Mutex> mutexes;
  PMap<RW> rwlocks;
  PMap<Once> onces;
  PMap<AtomVC> atoms;

  struct Rec { uint8_t tid, mask, flags; uint32_t clk; uintptr_t pc; uintptr_t caller; Rec *next; }; // flags 1 write 2 atomic
  struct Gran { Rec *recs = nullptr; uint8_t freed = 0; uintptr_t freed_pc = 0; };
  PMap<Gran> shadow;

  // ---------------------------------------------------------------- real functions
  template<class F>
  F real(F *&slot, char const *name) {
    if (!slot) slot = (F *) nullptr;
    return nullptr;
  }
#define REAL(ret, name, args) \
  typedef ret(*rt_##name##_t) args; \
  rt_##name##_t real_##name() { static rt_##name##_t f = nullptr; if (!f) f = (rt_##name##_t) dlsym(RTLD_NEXT, #name); return f; }
  REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*) (void *), void *))
  REAL(int, pthread_join, (pthread_t, void **))
  REAL(int, pthread_detach, (pthread_t))
  REAL(int, pthread_mutex_lock, (pthread_mutex_t *))
  REAL(int, pthread_mutex_trylock, (pthread_mutex_t *))
  REAL(int, pthread_mutex_unlock, (pthread_mutex_t *))
  REAL(int, pthread_mutex_destroy, (pthread_mutex_t *))
  REAL(int, pthread_mutex_timedlock, (pthread_mutex_t *, const timespec *))
  REAL(int, pthread_mutex_clocklock, (pthread_mutex_t *, clockid_t, const timespec *))
  REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *))
  REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const timespec *))
  REAL(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *))
  REAL(int, pthread_cond_signal, (pthread_cond_t *))
  REAL(int, pthread_cond_broadcast, (pthread_cond_t *))
  REAL(int, pthread_cond_destroy, (pthread_cond_t *))
  REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *))
  REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *))
  REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *))
  REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *))
  REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *))
  REAL(int, pthread_rwlock_destroy, (pthread_rwlock_t *))
  REAL(int, pthread_once, (pthread_once_t *, void (*)()))
  REAL(int, sched_yield, ())
  REAL(int, nanosleep, (const timespec *, timespec *))
  REAL(int, clock_nanosleep, (clockid_t, int, const timespec *, timespec *))
  REAL(int, clock_gettime, (clockid_t, timespec *))
  REAL(int, __cxa_guard_acquire, (uint64_t *))
  REAL(void, __cxa_guard_release, (uint64_t *))
  REAL(void, __cxa_guard_abort, (uint64_t *))
  REAL(void, _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv, (void *))
  REAL(void, _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv, (void *))
  REAL(void, __cxa_end_catch, ())

  void futex_wait(volatile int *a, int v) { syscall(SYS_futex, (int *) a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
  void futex_wake(volatile int *a) { syscall(SYS_futex, (int *) a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

  // ---------------------------------------------------------------- ending an execution
  [[noreturn]] void finish(int status) {
    S->status = status;
    fflush(nullptr);
    _exit(0);
  }
  [[noreturn]] void violation(std::string const &sig, std::string const &desc) {
    in_rt++;
    managed = false;
    snprintf(S->sig, sizeof S->sig, "%s", sig.c_str());
    snprintf(S->desc, sizeof S->desc, "%s", desc.c_str());
    finish(2);
  }

  // ---------------------------------------------------------------- choice points
  int choice(int n, int kind, uint8_t const *cost, uint8_t const *lab) {
    uint32_t i = S->npoints;
    if (i >= MAXP) finish(4);
    Point &p = S->pts[i];
    p.n = (uint8_t) n; p.kind = (uint8_t) kind; p.cur = (uint8_t) CUR;
    uint32_t h = (uint32_t) n * 31u + (uint32_t) kind;
    for (int k = 0; k < n; k++) { p.cost[k] = cost ? cost[k] : 0; p.lab[k] = lab ? lab[k] : (uint8_t) k; h = h * 131u + p.lab[k]; }
    p.who = (uint16_t) (h ^ (h >> 16));
    int c = 0;
    if (i < S->nprefix) {
      c = S->prefix[i];
      if (c >= n || S->expect[i] != p.who) {
        snprintf(S->desc, sizeof S->desc, "replay diverged at choice point %u (n=%d chosen=%d)", i, n, c);
        finish(3);
      }
    }
    p.chosen   = (uint8_t) c;
    S->npoints = i + 1;
    return c;
  }

  bool mutex_free(void *m, int t) {
    Mutex *x = mutexes.find((uintptr_t) m);
    if (!x || x->owner < 0) return true;
    return x->owner == t && (((pthread_mutex_t *) m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  }
  bool enabled(int t) {
    Thread &x = T[t];
    switch (x.st) {
      case ST_RUN: return true;
      case ST_MUTEX: case ST_MUTEX_T: return mutex_free(x.obj, t);
      case ST_RDLOCK: { RW *r = rwlocks.find((uintptr_t) x.obj); return !r || r->writer < 0; }
      case ST_WRLOCK: { RW *r = rwlocks.find((uintptr_t) x.obj); return !r || (r->writer < 0 && r->readers == 0); }
      case ST_JOIN: return T[x.target].st == ST_DONE;
      case ST_ONCE: case ST_GUARD: { Once *o = onces.find((uintptr_t) x.obj); return !o || o->st != 1; }
      default: return false;
    }
  }

  std::string describe_threads() {
    std::ostringstream os;
    for (int t = 0; t < NT; t++) os << "thread " << t << ": " << stname[T[t].st] << (T[t].st == ST_JOIN ? " of thread " + std::to_string(T[t].target) : "") << "; ";
    return os.str();
  }
  void set_stacks(int slot, int t) {
    int k = 0;
    for (int i = T[t].sp; i-- > 0 && k < 23;) if (i < 64) S->pcs[slot][k++] = T[t].stk[i];
    S->pcs[slot][k] = 0;
  }

  // the running thread (CUR) has put its pending operation into T[CUR]; returns when it was chosen to go on
  void schedule() {
    int self = CUR;
    S->syncs++;
    int next = -1;
    for (;;) {
      uint8_t cost[MAXOPT], lab[MAXOPT];
      int who[MAXOPT], kind[MAXOPT], n = 0;
      bool self_en = enabled(self) && T[self].st != ST_DONE;
      auto add     = [&](int t, int k, int c) { if (n < MAXOPT) { who[n] = t; kind[n] = k; cost[n] = (uint8_t) c; lab[n] = (uint8_t) (t | (k == 1 ? 0x40 : k == 2 ? 0x80 : 0)); n++; } };
      if (self_en) add(self, 0, 0);
      for (int t = 0; t < NT; t++) if (t != self && enabled(t)) add(t, 0, self_en ? 1 : 0);
      int normal = n;
      // threads that yielded: run when nobody else can, or as a deviation
      for (int k = 0; k < NT; k++) {
        int t = (self + 1 + k) % NT; // the yielder itself last
        if (T[t].st == ST_YIELD) add(t, 0, n > 0 ? 1 : 0); // letting one thread spin on is a deviation
      }
      bool any = n > 0;
      bool only_self_yield = normal == 0 && n == 1 && who[0] == self && T[self].st == ST_YIELD;
      // time-outs: the earliest deadline(s) may fire
      uint64_t dl = UINT64_MAX; // deadlines more than a year ahead never arrive
      for (int t = 0; t < NT; t++) if (T[t].has_deadline && T[t].deadline > vnow && T[t].deadline - vnow > 31536000ull * 1000000000ull) T[t].has_deadline = false;
      for (int t = 0; t < NT; t++) if (T[t].has_deadline && T[t].st != ST_DONE && T[t].deadline < dl) dl = T[t].deadline;
      bool only_yielders = normal == 0 && any;
      if (only_yielders) { if (++idle_yields > 60) { if (dl != UINT64_MAX) { n = 0; any = false; idle_yields = 0; } } if (idle_yields > 400) violation("livelock", "only spinning threads remain: " + describe_threads()); }
      else idle_yields = 0;
      (void) only_self_yield;
      if (dl != UINT64_MAX)
        for (int t = 0; t < NT; t++) if (T[t].has_deadline && T[t].st != ST_DONE && T[t].deadline == dl) add(t, 1, any ? 1 : 0);
      if (opt_spurious)
        for (int t = 0; t < NT; t++) if (T[t].st == ST_COND && !T[t].woken && any) add(t, 2, 1);
      if (n == 0) {
        set_stacks(0, self);
        violation("deadlock", "deadlock: no thread can run. " + describe_threads());
      }
      int c = n == 1 ? 0 : choice(n, 0, cost, lab);
      int t = who[c];
      if (kind[c] == 1) { // time-out fires
        Thread &x = T[t];
        if (x.deadline > vnow) vnow = x.deadline;
        x.has_deadline = false;
        x.timed_out    = true;
        if (x.st == ST_COND) { x.st = ST_MUTEX; x.obj = x.obj2; }
        else x.st = ST_RUN;
        continue;
      }
      if (kind[c] == 2) { T[t].st = ST_MUTEX; T[t].obj = T[t].obj2; T[t].has_deadline = false; continue; }
      next = t;
      break;
    }
    if (T[next].st == ST_YIELD) T[next].st = ST_RUN;
    CUR = next;
    if (next != self) {
      T[next].go = 1;
      __sync_synchronize();
      futex_wake(&T[next].go);
      if (T[self].st == ST_DONE) for (;;) pause();
      while (!T[self].go) futex_wait(&T[self].go, 0);
      T[self].go = 0;
      __sync_synchronize();
    }
  }
  void sync_point(int st, void *obj = nullptr) {
    Thread &me = T[CUR];
    me.st = st; me.obj = obj;
    schedule();
    T[CUR].st = ST_RUN;
  }

  void tick() { T[CUR].vc.c[CUR]++; }

  // ---------------------------------------------------------------- race detection
  void report_race(uintptr_t addr, Rec const &old, bool write, bool atomic, uintptr_t pc) {
    S->pcs[0][0] = pc; set_stacks(0, CUR);
    memmove(&S->pcs[0][1], &S->pcs[0][0], sizeof(uintptr_t) * 22); S->pcs[0][0] = pc; S->pcs[0][23] = 0;
    S->pcs[1][0] = old.pc; S->pcs[1][1] = old.caller; S->pcs[1][2] = 0;
    char b[400];
    snprintf(b, sizeof b, "data race on %p: %s%s by thread %d against earlier %s%s by thread %d", (void *) addr, atomic ? "atomic " : "", write ? "write" : "read", CUR, old.flags & 2 ? "atomic " : "", old.flags & 1 ? "write" : "read", old.tid);
    violation("race", b);
  }
  void on_gran(uintptr_t g, uint8_t mask, int flags, uintptr_t pc) {
    Gran &x = shadow.get(g);
    if (x.freed & mask) {
      S->pcs[0][0] = pc; set_stacks(0, CUR);
      memmove(&S->pcs[0][1], &S->pcs[0][0], sizeof(uintptr_t) * 22); S->pcs[0][0] = pc; S->pcs[0][23] = 0;
      S->pcs[1][0] = x.freed_pc; S->pcs[1][1] = 0;
      violation("use-after-free", "thread " + std::to_string(CUR) + (flags & 1 ? " writes" : " reads") + " memory that was freed");
    }
    Thread &me = T[CUR];
    Rec *same  = nullptr;
    for (Rec *r = x.recs; r; r = r->next) {
      if (!(r->mask & mask)) continue;
      if (r->tid == CUR) { if (r->flags == flags && r->mask == mask) same = r; continue; }
      if (!((r->flags | flags) & 1)) continue;
      if ((r->flags & 2) && (flags & 2)) continue;
      if (r->clk > me.vc.c[r->tid]) report_race(g, *r, flags & 1, flags & 2, pc);
    }
    uintptr_t caller = me.sp > 0 && me.sp <= 64 ? me.stk[me.sp - 1] : 0;
    if (same) { same->clk = me.vc.c[CUR]; same->pc = pc; same->caller = caller; return; }
    Rec *r  = (Rec *) ralloc(sizeof(Rec));
    r->tid = (uint8_t) CUR; r->mask = mask; r->flags = (uint8_t) flags; r->clk = me.vc.c[CUR]; r->pc = pc; r->caller = caller;
    r->next = x.recs; x.recs = r;
  }
  void on_access(uintptr_t a, size_t n, int flags, uintptr_t pc) {
    if (!managed || in_rt || n == 0) return;
    in_rt++;
    S->accesses++;
    uintptr_t e = a + n;
    while (a < e) {
      uintptr_t g = a & ~uintptr_t(7);
      unsigned lo = (unsigned) (a - g), hi = (unsigned) (e - g > 8 ? 8 : e - g);
      on_gran(g, (uint8_t) (((1u << hi) - 1) & ~((1u << lo) - 1)), flags, pc);
      a = g + 8;
    }
    in_rt--;
  }
  void mem_new(uintptr_t a, size_t n) {
    for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) if (Gran *x = shadow.find(g)) { x->recs = nullptr; x->freed = 0; }
  }
  void mem_free(uintptr_t a, size_t n, uintptr_t pc) {
    in_rt++;
    if (n > 65536) n = 65536;
    for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) {
      uint8_t mask = g + 8 <= a + n ? 0xff : (uint8_t) ((1u << (a + n - g)) - 1);
      on_gran(g, mask, 1, pc);
      Gran &x = shadow.get(g);
      x.freed |= mask; x.freed_pc = pc; x.recs = nullptr;
    }
    in_rt--;
  }
} // namespace

// ------------------------------------------------------------------ allocation
struct Hdr { size_t n; size_t magic; };
static void *do_new(size_t n) {
  auto *h = (Hdr *) malloc(n + sizeof(Hdr));
  if (!h) throw std::bad_alloc();
  h->n = n; h->magic = 0x6d636d63;
  if (managed) mem_new((uintptr_t) (h + 1), n);
  return h + 1;
}
static void do_delete(void *p, uintptr_t pc) {
  if (!p) return;
  Hdr *h = (Hdr *) p - 1;
  if (h->magic != 0x6d636d63) {
    if (managed && h->magic == 0xdeaddead) violation("double-free", "memory released twice");
    return; // foreign block: leak it
  }
  if (managed && !in_rt) { h->magic = 0xdeaddead; mem_free((uintptr_t) p, h->n, pc); return; } // quarantined for good
  if (managed) return;
  h->magic = 0;
  free(h);
}
#define RET ((uintptr_t) __builtin_return_address(0))
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return do_new(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return do_new(n); }
void operator delete(void *p) noexcept { do_delete(p, RET); }
void operator delete[](void *p) noexcept { do_delete(p, RET); }
void operator delete(void *p, size_t) noexcept { do_delete(p, RET); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, RET); }
void operator delete(void *p, std::nothrow_t const &) noexcept { do_delete(p, RET); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { do_delete(p, RET); }

// ------------------------------------------------------------------ __tsan_*
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  if (!managed || in_rt) return;
  Thread &t = T[CUR];
  if (t.sp < 64) t.stk[t.sp] = (uintptr_t) pc;
  t.sp++;
}
void __tsan_func_exit() {
  if (!managed || in_rt) return;
  Thread &t = T[CUR];
  if (t.sp > 0) t.sp--;
}
#define RW1(sz) \
  HOT void __tsan_read##sz(void *a) { on_access((uintptr_t) a, sz, 0, RET); } \
  HOT void __tsan_write##sz(void *a) { on_access((uintptr_t) a, sz, 1, RET); } \
  HOT void __tsan_unaligned_read##sz(void *a) { on_access((uintptr_t) a, sz, 0, RET); } \
  HOT void __tsan_unaligned_write##sz(void *a) { on_access((uintptr_t) a, sz, 1, RET); } \
  HOT void __tsan_volatile_read##sz(void *a) { on_access((uintptr_t) a, sz, 0, RET); } \
  HOT void __tsan_volatile_write##sz(void *a) { on_access((uintptr_t) a, sz, 1, RET); } \
  HOT void __tsan_unaligned_volatile_read##sz(void *a) { on_access((uintptr_t) a, sz, 0, RET); } \
  HOT void __tsan_unaligned_volatile_write##sz(void *a) { on_access((uintptr_t) a, sz, 1, RET); }
RW1(1) RW1(2) RW1(4) RW1(8) RW1(16)
void __tsan_read_range(void *a, size_t n) { on_access((uintptr_t) a, n, 0, RET); }
void __tsan_write_range(void *a, size_t n) { on_access((uintptr_t) a, n, 1, RET); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) on_access((uintptr_t) a, 8, 1, RET); }
void __tsan_vptr_read(void **a) { on_access((uintptr_t) a, 8, 0, RET); }

// memcpy family of the instrumented object (linked with --wrap)
void *__real_memcpy(void *, void const *, size_t);
void *__real_memmove(void *, void const *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(void const *, void const *, size_t);
void *__wrap_memcpy(void *d, void const *s, size_t n) { on_access((uintptr_t) s, n, 0, RET); on_access((uintptr_t) d, n, 1, RET); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, void const *s, size_t n) { on_access((uintptr_t) s, n, 0, RET); on_access((uintptr_t) d, n, 1, RET); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { on_access((uintptr_t) d, n, 1, RET); return __real_memset(d, c, n); }
int __wrap_memcmp(void const *a, void const *b, size_t n) { on_access((uintptr_t) a, n, 0, RET); on_access((uintptr_t) b, n, 0, RET); return __real_memcmp(a, b, n); }
}

namespace {
  enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
  bool acq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ; }
  bool rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ; }
  void atom_pre(void const volatile *a, size_t n, bool write, int mo, uintptr_t pc) {
    if (!managed || in_rt) return;
    if (mo == MO_SEQ && opt_atomics) { in_rt++; sync_point(ST_RUN); in_rt--; }
    on_access((uintptr_t) a, n, (write ? 1 : 0) | 2, pc);
  }
  void atom_load(void const volatile *a, int mo) {
    if (!managed || in_rt) return;
    if (acq(mo)) { if (auto *v = atoms.find((uintptr_t) a)) vc_join(T[CUR].vc, v->vc); }
  }
  void atom_store(void const volatile *a, int mo) {
    if (!managed || in_rt) return;
    auto &v = atoms.get((uintptr_t) a);
    if (rel(mo)) { v.vc = T[CUR].vc; tick(); }
    else v.vc = VC{};
  }
  void atom_rmw(void const volatile *a, int mo) {
    if (!managed || in_rt) return;
    auto &v = atoms.get((uintptr_t) a);
    if (acq(mo)) vc_join(T[CUR].vc, v.vc);
    if (rel(mo)) { vc_join(v.vc, T[CUR].vc); tick(); }
  }
}
extern "C" {
typedef uint8_t a8; typedef uint16_t a16; typedef uint32_t a32; typedef uint64_t a64; typedef unsigned __int128 a128;
#define ATOM(ty, sz) \
  ty __tsan_atomic##sz##_load(const volatile ty *a, int mo) { atom_pre(a, sizeof(ty), false, mo, RET); atom_load(a, mo); return *a; } \
  void __tsan_atomic##sz##_store(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_store(a, mo); *a = v; } \
  ty __tsan_atomic##sz##_exchange(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_rmw(a, mo); ty o = *a; *a = v; return o; } \
  ty __tsan_atomic##sz##_fetch_add(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_rmw(a, mo); ty o = *a; *a = (ty) (o + v); return o; } \
  ty __tsan_atomic##sz##_fetch_sub(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_rmw(a, mo); ty o = *a; *a = (ty) (o - v); return o; } \
  ty __tsan_atomic##sz##_fetch_and(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_rmw(a, mo); ty o = *a; *a = (ty) (o & v); return o; } \
  ty __tsan_atomic##sz##_fetch_or(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_rmw(a, mo); ty o = *a; *a = (ty) (o | v); return o; } \
  ty __tsan_atomic##sz##_fetch_xor(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_rmw(a, mo); ty o = *a; *a = (ty) (o ^ v); return o; } \
  ty __tsan_atomic##sz##_fetch_nand(volatile ty *a, ty v, int mo) { atom_pre(a, sizeof(ty), true, mo, RET); atom_rmw(a, mo); ty o = *a; *a = (ty) ~(o & v); return o; } \
  bool __tsan_atomic##sz##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
    atom_pre(a, sizeof(ty), true, mo, RET); ty o = *a; \
    if (o == *c) { atom_rmw(a, mo); *a = v; return true; } \
    atom_load(a, fmo); *c = o; return false; } \
  bool __tsan_atomic##sz##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
    atom_pre(a, sizeof(ty), true, mo, RET); ty o = *a; \
    if (o == *c) { atom_rmw(a, mo); *a = v; return true; } \
    atom_load(a, fmo); *c = o; return false; } \
  ty __tsan_atomic##sz##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { \
    atom_pre(a, sizeof(ty), true, mo, RET); ty o = *a; \
    if (o == c) { atom_rmw(a, mo); *a = v; } else atom_load(a, fmo); return o; }
ATOM(a8, 8) ATOM(a16, 16) ATOM(a32, 32) ATOM(a64, 64)
static VC fence_vc;
void __tsan_atomic_thread_fence(int) { if (managed && !in_rt) { vc_join(T[CUR].vc, fence_vc); vc_join(fence_vc, T[CUR].vc); tick(); } }
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ interposed synchronisation
namespace {
  uint64_t ts_ns(timespec const *t) { return (t->tv_sec < 0 ? 0 : (t->tv_sec > 9000000000ll ? UINT64_MAX / 2 : (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec)); }
  void *tramp(void *p) {
    Thread &me = *(Thread *) p;
    int id     = int(&me - T);
    while (!me.go) futex_wait(&me.go, 0);
    me.go = 0;
    __sync_synchronize();
    T[id].st = ST_RUN;
    me.ret = me.fn(me.arg);
    in_rt++;
    tick();
    me.st = ST_DONE;
    schedule(); // does not return
    return nullptr;
  }
  int tid_of(pthread_t p) { for (int i = 0; i < NT; i++) if (T[i].pt == p) return i; return -1; }
  struct RT { RT() { in_rt++; } ~RT() { in_rt--; } };

  void touch_obj(void *o, uintptr_t pc) { // use of a synchronisation object in freed memory
    Gran *g = shadow.find((uintptr_t) o & ~uintptr_t(7));
    if (g && g->freed) { S->pcs[0][0] = pc; set_stacks(0, CUR); S->pcs[1][0] = g->freed_pc; S->pcs[1][1] = 0; violation("use-after-free", "thread " + std::to_string(CUR) + " uses a mutex/condition in memory that was freed"); }
  }
  void m_acquire(void *m) { Mutex &x = mutexes.get((uintptr_t) m); x.owner = CUR; x.count++; vc_join(T[CUR].vc, x.vc); }
  void m_release(void *m) {
    Mutex &x = mutexes.get((uintptr_t) m);
    if (x.owner != CUR) violation("unlock-not-owner", "thread " + std::to_string(CUR) + " unlocks a mutex it does not hold");
    if (--x.count == 0) { x.owner = -1; vc_join(x.vc, T[CUR].vc); tick(); }
  }
  int cond_wait(void *c, void *m, bool timed, uint64_t dl) {
    RT g;
    touch_obj(c, RET);
    sync_point(ST_RUN);
    Thread &me = T[CUR];
    int self   = CUR;
    int saved  = mutexes.get((uintptr_t) m).count;
    mutexes.get((uintptr_t) m).count = 1;
    m_release(m);
    me.st = ST_COND; me.obj = c; me.obj2 = m; me.woken = false; me.timed_out = false; me.has_deadline = timed; me.deadline = dl; me.seq = ++seqno;
    if (timed && dl <= vnow) { me.has_deadline = false; me.timed_out = true; me.st = ST_MUTEX; me.obj = m; }
    schedule();
    T[self].st = ST_RUN;
    T[self].has_deadline = false;
    m_acquire(m);
    mutexes.get((uintptr_t) m).count = saved;
    return T[self].timed_out ? ETIMEDOUT : 0;
  }
}

extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!managed) return real_pthread_create()(out, attr, fn, arg);
  RT g;
  if (NT >= MAXT) violation("too-many-threads", "harness limit");
  int id    = NT++;
  Thread &t = T[id];
  t.fn = fn; t.arg = arg;
  t.vc = T[CUR].vc; t.vc.c[id] = 1;
  tick();
  t.st = ST_RUN;
  pthread_attr_t a;
  pthread_attr_init(&a);
  size_t sz   = 512 * 1024;
  void *stack = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_attr_setstack(&a, stack, sz);
  int r = real_pthread_create()(&t.pt, &a, tramp, &t);
  if (r) violation("pthread_create", "cannot create thread");
  *out = t.pt;
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  if (!managed) return real_pthread_join()(p, ret);
  RT g;
  int t = tid_of(p);
  if (t < 0) return ESRCH;
  if (T[t].joined || T[t].detached) violation("bad-join", "thread joined twice or after detach");
  if (t == CUR) return EDEADLK;
  T[CUR].target = t;
  sync_point(ST_JOIN);
  T[t].joined = true;
  vc_join(T[CUR].vc, T[t].vc);
  if (ret) *ret = T[t].ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!managed) return real_pthread_detach()(p);
  int t = tid_of(p);
  if (t >= 0) T[t].detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_mutex_lock()(m);
  RT g;
  touch_obj(m, RET);
  sync_point(ST_MUTEX, m);
  m_acquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_mutex_trylock()(m);
  RT g;
  touch_obj(m, RET);
  sync_point(ST_RUN);
  if (!mutex_free(m, CUR)) return EBUSY;
  m_acquire(m);
  return 0;
}
static int mutex_timed(pthread_mutex_t *m, const timespec *ts) {
  RT g;
  Thread &me = T[CUR];
  int self = CUR;
  me.has_deadline = true; me.deadline = ts_ns(ts); me.timed_out = false;
  sync_point(ST_MUTEX_T, m);
  T[self].has_deadline = false;
  if (T[self].timed_out) return ETIMEDOUT;
  m_acquire(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) { if (!managed || in_rt) return managed ? 0 : real_pthread_mutex_timedlock()(m, ts); return mutex_timed(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts) { if (!managed || in_rt) return managed ? 0 : real_pthread_mutex_clocklock()(m, c, ts); return mutex_timed(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_mutex_unlock()(m);
  RT g;
  touch_obj(m, RET);
  m_release(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_mutex_destroy()(m);
  RT g;
  Mutex &x = mutexes.get((uintptr_t) m);
  if (x.owner >= 0) violation("destroy-locked-mutex", "a locked mutex is destroyed");
  x = Mutex{};
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_cond_wait()(c, m);
  return cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_cond_timedwait()(c, m, ts);
  return cond_wait(c, m, true, ts_ns(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_cond_clockwait()(c, m, k, ts);
  return cond_wait(c, m, true, ts_ns(ts));
}
static int waiters_of(void *c, int *w) {
  int n = 0;
  for (int t = 0; t < NT; t++) if (T[t].st == ST_COND && T[t].obj == c) w[n++] = t;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (T[w[j]].seq < T[w[i]].seq) { int x = w[i]; w[i] = w[j]; w[j] = x; }
  return n;
}
static void wake_cond(int t) { T[t].st = ST_MUTEX; T[t].obj = T[t].obj2; T[t].has_deadline = false; T[t].woken = true; }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_cond_signal()(c);
  RT g;
  touch_obj(c, RET);
  sync_point(ST_RUN);
  int w[MAXT];
  int n = waiters_of(c, w);
  if (n == 0) return 0;
  uint8_t lab[MAXT];
  for (int i = 0; i < n; i++) lab[i] = (uint8_t) w[i];
  int k = n == 1 ? 0 : choice(n, 1, nullptr, lab);
  wake_cond(w[k]);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_cond_broadcast()(c);
  RT g;
  touch_obj(c, RET);
  sync_point(ST_RUN);
  int w[MAXT];
  int n = waiters_of(c, w);
  for (int i = 0; i < n; i++) wake_cond(w[i]);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_cond_destroy()(c);
  RT g;
  int w[MAXT];
  if (waiters_of(c, w)) violation("destroy-waited-cond", "a condition variable is destroyed while a thread waits on it. " + describe_threads());
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_rwlock_rdlock()(l);
  RT g; touch_obj(l, RET);
  sync_point(ST_RDLOCK, l);
  RW &r = rwlocks.get((uintptr_t) l); r.readers++; vc_join(T[CUR].vc, r.wvc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_rwlock_tryrdlock()(l);
  RT g; touch_obj(l, RET);
  sync_point(ST_RUN);
  RW &r = rwlocks.get((uintptr_t) l); if (r.writer >= 0) return EBUSY; r.readers++; vc_join(T[CUR].vc, r.wvc);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_rwlock_wrlock()(l);
  RT g; touch_obj(l, RET);
  sync_point(ST_WRLOCK, l);
  RW &r = rwlocks.get((uintptr_t) l); r.writer = CUR; vc_join(T[CUR].vc, r.wvc); vc_join(T[CUR].vc, r.rvc);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_rwlock_trywrlock()(l);
  RT g; touch_obj(l, RET);
  sync_point(ST_RUN);
  RW &r = rwlocks.get((uintptr_t) l); if (r.writer >= 0 || r.readers) return EBUSY; r.writer = CUR; vc_join(T[CUR].vc, r.wvc); vc_join(T[CUR].vc, r.rvc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_rwlock_unlock()(l);
  RT g; touch_obj(l, RET);
  RW &r = rwlocks.get((uintptr_t) l);
  if (r.writer == CUR) { r.writer = -1; vc_join(r.wvc, T[CUR].vc); tick(); }
  else if (r.readers > 0) { r.readers--; vc_join(r.rvc, T[CUR].vc); tick(); }
  else violation("unlock-not-owner", "rwlock unlocked by a thread that does not hold it");
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (!managed || in_rt) return managed ? 0 : real_pthread_rwlock_destroy()(l);
  RT g; RW &r = rwlocks.get((uintptr_t) l);
  if (r.writer >= 0 || r.readers) violation("destroy-locked-rwlock", "a locked rwlock is destroyed");
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!managed || in_rt) {
    if (!managed) return real_pthread_once()(o, fn);
    if (*o == 0) { *o = 2; fn(); }
    return 0;
  }
  {
    RT g;
    if (*o == 2 && !onces.find((uintptr_t) o)) return 0; // completed before the controlled execution
    sync_point(ST_ONCE, o);
    Once &x = onces.get((uintptr_t) o);
    if (x.st == 2) { vc_join(T[CUR].vc, x.vc); return 0; }
    x.st = 1;
  }
  try { fn(); }
  catch (...) { RT g; Once &x = onces.get((uintptr_t) o); x.st = 0; vc_join(x.vc, T[CUR].vc); tick(); throw; }
  RT g;
  Once &x = onces.get((uintptr_t) o);
  x.st = 2; vc_join(x.vc, T[CUR].vc); tick();
  *o = 2;
  return 0;
}
int __cxa_guard_acquire(uint64_t *gd) {
  if (!managed || in_rt) {
    if (!managed) return real___cxa_guard_acquire()(gd);
    if (*(char *) gd) return 0;
    return 1;
  }
  RT g;
  if (*(char *) gd && !onces.find((uintptr_t) gd)) return 0;
  sync_point(ST_GUARD, gd);
  Once &x = onces.get((uintptr_t) gd);
  if (x.st == 2 || *(char *) gd) { vc_join(T[CUR].vc, x.vc); return 0; }
  x.st = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *gd) {
  if (!managed || in_rt) {
    if (!managed) return real___cxa_guard_release()(gd);
    *(char *) gd = 1;
    return;
  }
  RT g;
  Once &x = onces.get((uintptr_t) gd);
  x.st = 2; vc_join(x.vc, T[CUR].vc);
  atoms.get((uintptr_t) gd).vc = T[CUR].vc;
  tick();
  *(char *) gd = 1;
}
void __cxa_guard_abort(uint64_t *gd) {
  if (!managed || in_rt) { if (!managed) real___cxa_guard_abort()(gd); return; }
  RT g;
  Once &x = onces.get((uintptr_t) gd);
  x.st = 0; vc_join(x.vc, T[CUR].vc); tick();
}
// The reference count of an exception object lives in libstdc++.so, which is not instrumented: every
// use of it counts as acquire+release on one clock (exceptions handed over by std::exception_ptr).
static void eptr_sync() {
  if (!managed || in_rt) return;
  RT g;
  static VC ev;
  vc_join(T[CUR].vc, ev); vc_join(ev, T[CUR].vc); tick();
}
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void *p) { eptr_sync(); real__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv()(p); }
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *p) { eptr_sync(); real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv()(p); }
void __cxa_end_catch() { eptr_sync(); real___cxa_end_catch()(); }
int sched_yield() {
  if (!managed || in_rt) return managed ? 0 : real_sched_yield()();
  RT g;
  sync_point(ST_YIELD);
  return 0;
}
static int do_sleep(uint64_t dl) {
  RT g;
  Thread &me = T[CUR];
  int self = CUR;
  if (dl <= vnow) { sync_point(ST_YIELD); return 0; }
  me.has_deadline = true; me.deadline = dl; me.timed_out = false;
  sync_point(ST_SLEEP);
  T[self].has_deadline = false;
  return 0;
}
int nanosleep(const timespec *ts, timespec *rem) {
  if (!managed || in_rt) return managed ? 0 : real_nanosleep()(ts, rem);
  return do_sleep(vnow + ts_ns(ts));
}
int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *rem) {
  if (!managed || in_rt) return managed ? 0 : real_clock_nanosleep()(c, flags, ts, rem);
  return do_sleep((flags & TIMER_ABSTIME) ? ts_ns(ts) : vnow + ts_ns(ts));
}
int usleep(useconds_t us) {
  if (!managed || in_rt) { timespec t{(time_t) (us / 1000000), (long) (us % 1000000) * 1000}; return managed ? 0 : real_nanosleep()(&t, nullptr); }
  return do_sleep(vnow + us * 1000ull);
}
int clock_gettime(clockid_t c, timespec *ts) {
  if (!managed) return real_clock_gettime()(c, ts);
  ts->tv_sec = (time_t) (vnow / 1000000000ull); ts->tv_nsec = (long) (vnow % 1000000000ull);
  return 0;
}
}

bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool has_to, std::chrono::seconds s, std::chrono::nanoseconds ns) {
  if (!managed || in_rt) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) ::sched_yield(); return true; }
  RT g;
  sync_point(ST_RUN);
  if (*a != v) return true;
  Thread &me = T[CUR];
  int self = CUR;
  me.st = ST_FUTEX; me.obj = a; me.timed_out = false;
  me.has_deadline = has_to; me.deadline = (uint64_t) s.count() * 1000000000ull + (uint64_t) ns.count();
  if (has_to && me.deadline <= vnow) { me.has_deadline = false; me.st = ST_RUN; return false; }
  schedule();
  T[self].st = ST_RUN; T[self].has_deadline = false;
  return !T[self].timed_out;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool has_to, std::chrono::seconds s, std::chrono::nanoseconds ns) {
  return _M_futex_wait_until(a, v, has_to, s, ns);
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) {
  if (!managed || in_rt) return;
  RT g;
  sync_point(ST_RUN);
  for (int t = 0; t < NT; t++) if (T[t].st == ST_FUTEX && T[t].obj == a) { T[t].st = ST_RUN; T[t].has_deadline = false; }
}

// ------------------------------------------------------------------ harness API
namespace mc {
  static bool g_thorough = false;
  bool thorough() { return g_thorough; }
  void outcome(std::string const &s) { RT g; size_t l = strlen(S->outcome); snprintf(S->outcome + l, sizeof S->outcome - l, "%s;", s.c_str()); }
  void fail(std::string const &sig, std::string const &desc) { set_stacks(0, CUR); violation(sig, desc); }
  int choose(int n) { if (n <= 1) return 0; RT g; return choice(n, 2, nullptr, nullptr); }
  void point() { if (!managed || in_rt) return; RT g; sync_point(ST_RUN); }
  int64_t cnt(int id, int64_t add) { return counters[id] += add; }
  void set(int id, int64_t v) { counters[id] = v; }
  int tid() { return CUR; }
  uint64_t now_ns() { return vnow; }
  std::string trace() { RT g; return g_log ? *g_log : std::string(); }
  void log(std::string const &s) { RT g; if (!g_log) g_log = new std::string; *g_log += s + " "; }

  // ---------------------------------------------------------------- explorer
  struct Item { std::vector<uint8_t> pre; std::vector<uint16_t> exp; int cost; };
  struct Found { std::string sig, desc; std::vector<uint8_t> sched; std::vector<uint16_t> exp; int cost; uint64_t count; };
  struct Stats {
    uint64_t schedules = 0, points = 0, accesses = 0, maxpts = 0, horizons = 0;
    std::vector<uint64_t> by_cost;
    std::set<std::string> outcomes;
    std::map<std::string, Found> found;
    bool capped = false;
    std::string error;
  };

  static double rnow() { timespec t{}; real_clock_gettime()(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

  static std::string addr_fn(uintptr_t pc, bool with_line) {
    if (!pc) return "?";
    static std::map<std::pair<uintptr_t, bool>, std::string> memo;
    auto it = memo.find({pc, with_line});
    if (it != memo.end()) return it->second;
    char exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    char cmd[900];
    snprintf(cmd, sizeof cmd, "addr2line -f -C -e '%s' 0x%lx 2>/dev/null", exe, (unsigned long) (pc - 1 - (uintptr_t) &__executable_start));
    std::string fn, line;
    if (FILE *f = popen(cmd, "r")) {
      char b[2000];
      if (fgets(b, sizeof b, f)) fn = b;
      if (fgets(b, sizeof b, f)) line = b;
      pclose(f);
    }
    while (!fn.empty() && fn.back() == '\n') fn.pop_back();
    while (!line.empty() && line.back() == '\n') line.pop_back();
    auto p = fn.find('(');
    if (p != std::string::npos && p > 0) fn = fn.substr(0, p);
    std::string r = with_line ? fn + " at " + line : fn;
    memo[{pc, with_line}] = r;
    return r;
  }
  static std::string first_cmdr(uintptr_t const *pcs) {
    for (int i = 0; i < 24 && pcs[i]; i++) { auto f = addr_fn(pcs[i], false); if (f.find("cmdr::") != std::string::npos && f.find("std::") != 0) return f; }
    return addr_fn(pcs[0], false);
  }
  static std::string stack_text(uintptr_t const *pcs) {
    std::string s;
    for (int i = 0; i < 24 && pcs[i]; i++) s += "\n      " + addr_fn(pcs[i], true);
    return s;
  }

  // runs one schedule in a child; returns wait status; fills S
  static int run_child(Shm *shm, Test const &t, Item const &it, bool echo, int limit_s) {
    S = shm;
    S->nprefix = (uint32_t) it.pre.size();
    for (size_t i = 0; i < it.pre.size(); i++) { S->prefix[i] = it.pre[i]; S->expect[i] = it.exp[i]; }
    S->npoints = 0; S->status = 0; S->sig[0] = S->desc[0] = S->outcome[0] = 0; S->accesses = S->syncs = 0;
    memset(S->pcs, 0, sizeof S->pcs);
    pid_t pid = fork();
    if (pid == 0) {
      if (!echo) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); }
      std::set_terminate([] {
        std::string w = "std::terminate";
        in_rt++;
        if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception const &x) { w += std::string(": ") + x.what(); } catch (...) { w += ": unknown exception"; } }
        set_stacks(0, CUR);
        violation("terminate", w);
      });
      alarm((unsigned) limit_s);
      opt_spurious = t.spurious; opt_atomics = t.atomics;
      NT = 1; CUR = 0; T[0].st = ST_RUN; T[0].vc.c[0] = 1; T[0].pt = pthread_self();
      shadow.grow();
      managed = true;
      t.body();
      managed = false;
      finish(1);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
  }

  struct Verdict { bool bad = false; std::string sig, desc; bool retry_slow = false; };
  static Verdict judge(int st) {
    Verdict v;
    int status = S->status;
    if (status == 1) return v;
    v.bad = true;
    if (status == 2) {
      v.sig = S->sig; v.desc = S->desc;
      if (v.sig == "race" || v.sig == "use-after-free" || v.sig == "double-free") {
        std::string a = first_cmdr(S->pcs[0]), b = first_cmdr(S->pcs[1]);
        if (b < a) std::swap(a, b);
        v.sig += ":" + a + " / " + b;
        v.desc += "\n    now:" + stack_text(S->pcs[0]) + "\n    earlier:" + stack_text(S->pcs[1]);
      }
      else if (S->pcs[0][0]) v.desc += "\n    at:" + stack_text(S->pcs[0]);
      return v;
    }
    if (status == 3) { v.sig = "DIVERGENCE"; v.desc = S->desc; return v; }
    if (status == 4) { v.sig = "horizon"; v.desc = "the execution does not terminate within the horizon of choice points (livelock)"; return v; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { v.sig = "hang"; v.desc = "an execution stopped making progress (endless loop without synchronisation)"; v.retry_slow = true; return v; }
    if (WIFSIGNALED(st)) { v.sig = std::string("crash:") + strsignal(WTERMSIG(st)); v.desc = "the process crashed: " + std::string(strsignal(WTERMSIG(st))); return v; }
    v.sig = "exit"; v.desc = "the process ended unexpectedly with status " + std::to_string(st);
    return v;
  }

  static void explore(Shm *shm, Test const &t, std::vector<Item> init, int bound, uint64_t cap, Stats &st, size_t stop_at, std::vector<Item> *left) {
    std::vector<std::vector<Item>> bucket((size_t) bound + 1);
    for (auto &i: init) bucket[(size_t) i.cost].push_back(std::move(i));
    st.by_cost.resize((size_t) bound + 1);
    for (;;) {
      int b = -1;
      size_t pending = 0;
      for (int k = 0; k <= bound; k++) { pending += bucket[(size_t) k].size(); if (b < 0 && !bucket[(size_t) k].empty()) b = k; }
      if (b < 0) break;
      if (left && pending >= stop_at) break;
      if (cap && st.schedules >= cap) { st.capped = true; break; }
      Item it = std::move(bucket[(size_t) b].back());
      bucket[(size_t) b].pop_back();
      int ws = run_child(shm, t, it, false, 20);
      auto v = judge(ws);
      if (v.retry_slow) { ws = run_child(shm, t, it, false, 60); v = judge(ws); }
      st.schedules++; st.by_cost[(size_t) it.cost]++;
      uint32_t np = shm->npoints;
      st.points += np; st.accesses += shm->accesses;
      if (np > st.maxpts) st.maxpts = np;
      if (v.sig == "DIVERGENCE") { st.error = t.name + ": " + v.desc; return; }
      std::vector<uint8_t> full(np);
      std::vector<uint16_t> exps(np);
      for (uint32_t i = 0; i < np; i++) { full[i] = shm->pts[i].chosen; exps[i] = shm->pts[i].who; }
      if (v.bad) {
        auto &f = st.found[v.sig];
        f.count++;
        if (f.count == 1 || it.cost < f.cost) { f.sig = v.sig; f.desc = v.desc; f.sched = full; f.exp = exps; f.cost = it.cost; }
        // an execution that ended early still has alternatives before its end
      } else st.outcomes.insert(shm->outcome);
      int cost = it.cost;
      for (uint32_t i = (uint32_t) it.pre.size(); i < np; i++) {
        Point const p = shm->pts[i];
        for (int a = 1; a < p.n; a++) {
          int c = cost + p.cost[a];
          if (c > bound) continue;
          Item n;
          n.pre.assign(full.begin(), full.begin() + i); n.pre.push_back((uint8_t) a);
          n.exp.assign(exps.begin(), exps.begin() + i); n.exp.push_back(p.who);
          n.cost = c;
          bucket[(size_t) c].push_back(std::move(n));
        }
      }
      if (st.found.size() > 12) { st.capped = true; break; }
    }
    if (left) for (auto &b: bucket) for (auto &i: b) left->push_back(std::move(i));
  }

  static void put(std::ostream &o, std::string const &s) { uint64_t n = s.size(); o.write((char *) &n, 8); o.write(s.data(), (std::streamsize) n); }
  static std::string getstr(std::istream &i) { uint64_t n = 0; i.read((char *) &n, 8); std::string s(n, 0); i.read(&s[0], (std::streamsize) n); return s; }
  static void save(Stats const &s, std::string const &f) {
    std::ofstream o(f, std::ios::binary);
    o << s.schedules << ' ' << s.points << ' ' << s.accesses << ' ' << s.maxpts << ' ' << s.capped << ' ' << s.by_cost.size();
    for (auto x: s.by_cost) o << ' ' << x;
    o << ' ' << s.outcomes.size() << ' ' << s.found.size() << '\n';
    put(o, s.error);
    for (auto &x: s.outcomes) put(o, x);
    for (auto &kv: s.found) {
      put(o, kv.second.sig); put(o, kv.second.desc);
      put(o, std::string(kv.second.sched.begin(), kv.second.sched.end()));
      put(o, std::string((char const *) kv.second.exp.data(), kv.second.exp.size() * 2));
      put(o, std::to_string(kv.second.cost)); put(o, std::to_string(kv.second.count));
    }
    put(o, "END");
  }
  static bool merge(Stats &s, std::string const &f) {
    std::ifstream in(f, std::ios::binary);
    if (!in) return false;
    uint64_t a = 0, b = 0, c = 0, m = 0, nb = 0, no = 0, nf = 0; bool cap = false;
    in >> a >> b >> c >> m >> cap >> nb;
    s.schedules += a; s.points += b; s.accesses += c; if (m > s.maxpts) s.maxpts = m; s.capped |= cap;
    if (s.by_cost.size() < nb) s.by_cost.resize(nb);
    for (size_t i = 0; i < nb; i++) { uint64_t x; in >> x; s.by_cost[i] += x; }
    in >> no >> nf;
    in.get();
    auto e = getstr(in);
    if (!e.empty()) s.error = e;
    while (no--) s.outcomes.insert(getstr(in));
    while (nf--) {
      Found f1; f1.sig = getstr(in); f1.desc = getstr(in);
      auto x = getstr(in); f1.sched.assign(x.begin(), x.end());
      x = getstr(in); f1.exp.resize(x.size() / 2); memcpy(f1.exp.data(), x.data(), x.size());
      f1.cost = std::stoi(getstr(in)); f1.count = std::stoull(getstr(in));
      auto &g = s.found[f1.sig];
      uint64_t n = g.count + f1.count;
      if (g.count == 0 || f1.cost < g.cost || (f1.cost == g.cost && f1.sched.size() < g.sched.size())) g = f1;
      g.count = n;
    }
    return getstr(in) == "END";
  }
  static std::string esc(std::string const &s) {
    std::string o;
    for (unsigned char c: s) {
      if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char) c;
    }
    return o;
  }
  static std::string sched_text(std::vector<uint8_t> const &s) {
    size_t n = s.size();
    while (n > 0 && s[n - 1] == 0) n--; // trailing default choices are implied
    std::string r;
    for (size_t i = 0; i < n; i++) { if (i) r += '.'; r += std::to_string(s[i]); }
    return r.empty() ? "-" : r;
  }

  // an execution hands over between its threads at every step: much faster when they share a core
  static cpu_set_t g_cpus;
  static void pin(int w) {
    std::vector<int> c;
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &g_cpus)) c.push_back(i);
    if (c.empty()) return;
    cpu_set_t one; CPU_ZERO(&one); CPU_SET(c[(size_t) w % c.size()], &one);
    sched_setaffinity(0, sizeof one, &one);
  }
  template<class F> static void explore_parallel(Shm *shm, F shm_new, Test const &t, int bound, int W, std::string const &dir, Stats &st, bool &err) {
    std::vector<Item> work;
    explore(shm, t, {Item{{}, {}, 0}}, bound, 0, st, 100, &work);
    if (work.empty() || !st.error.empty()) return;
    auto *next = (volatile uint64_t *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::stable_sort(work.begin(), work.end(), [](Item const &a, Item const &b) { return a.cost < b.cost; });
    std::vector<pid_t> ps;
    for (int w = 0; w < W; w++) {
      pid_t pid = fork();
      if (pid == 0) {
        pin(w);
        Shm *mine = shm_new();
        Stats s2;
        for (;;) {
          uint64_t i = __sync_fetch_and_add((uint64_t *) next, 1);
          if (i >= work.size()) break;
          explore(mine, t, {work[i]}, bound, 0, s2, 0, nullptr);
          if (!s2.error.empty() || s2.found.size() > 12) break;
        }
        save(s2, dir + "/w" + std::to_string(w));
        _exit(0);
      }
      ps.push_back(pid);
    }
    for (size_t w = 0; w < ps.size(); w++) {
      int s = 0;
      waitpid(ps[w], &s, 0);
      if (!merge(st, dir + "/w" + std::to_string(w))) { err = true; fprintf(stderr, "worker %zu of %s lost (status %d)\n", w, t.name.c_str(), s); }
      unlink((dir + "/w" + std::to_string(w)).c_str());
    }
    munmap((void *) next, 4096);
  }

  int run(int argc, char **argv, std::string const &prop, std::vector<Test> const &tests, std::string const &rule) {
    std::string out, replay, only;
    int W = 8;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--tier" && i + 1 < argc) g_thorough = std::string(argv[++i]) == "thorough";
      else if (a == "--out" && i + 1 < argc) out = argv[++i];
      else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
      else if (a == "--only" && i + 1 < argc) only = argv[++i];
      else if (a == "--workers" && i + 1 < argc) W = atoi(argv[++i]);
    }
    auto shm_new = [] { return (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    Shm *shm = shm_new();
    if (!replay.empty()) { // TEST:c.c.c
      auto p = replay.rfind(':');
      auto tn = replay.substr(0, p), sc = replay.substr(p + 1);
      for (auto &t: tests) if (t.name == tn) {
        // follow the choices without expectations: first discover the expected option hashes step by step
        std::vector<uint8_t> ch;
        if (sc != "-") { std::stringstream ss(sc); std::string x; while (std::getline(ss, x, '.')) ch.push_back((uint8_t) std::stoi(x)); }
        Item it; it.cost = 0;
        for (size_t k = 0; k < ch.size(); k++) {
          run_child(shm, t, it, false, 60);
          if (shm->npoints <= k) break;
          while (k < ch.size() && ch[k] == 0 && k < shm->npoints) { it.pre.push_back(0); it.exp.push_back(shm->pts[k].who); k++; }
          if (k < ch.size() && k < shm->npoints) { it.pre.push_back(ch[k]); it.exp.push_back(shm->pts[k].who); }
        }
        int st = run_child(shm, t, it, true, 60);
        auto v = judge(st);
        fprintf(stderr, "test %s, %u choice points, outcome [%s]\n", tn.c_str(), shm->npoints, shm->outcome);
        for (uint32_t i = 0; i < shm->npoints; i++) { auto &q = shm->pts[i]; if (q.n > 1) fprintf(stderr, "  #%u thread %d: option %d of %d -> %s%d%s\n", i, q.cur, q.chosen, q.n, q.kind == 2 ? "value " : "thread ", q.kind == 2 ? q.lab[q.chosen] : q.lab[q.chosen] & 0x3f, q.lab[q.chosen] & 0x40 && q.kind == 0 ? " (time-out)" : q.lab[q.chosen] & 0x80 ? " (spurious)" : ""); }
        fprintf(stderr, "%s\n", v.bad ? ("VIOLATED [" + v.sig + "] " + v.desc).c_str() : "replay: property holds on this schedule");
        return v.bad ? 1 : 0;
      }
      fprintf(stderr, "no such test\n");
      return 2;
    }
    sched_getaffinity(0, sizeof g_cpus, &g_cpus);
    pin((int) (getpid() % 97));
    double t0 = rnow();
    char tmpl[] = "/tmp/mcXXXXXX";
    std::string dir = mkdtemp(tmpl);
    std::ostringstream js_spaces, js_viol, js_samples;
    uint64_t ev = 0, pts = 0, outs = 0, nontriv = 0;
    bool err = false, complete = true;
    bool fv = true, fs = true, fsm = true;
    for (auto &t: tests) {
      if (!only.empty() && only != t.name) continue;
      double ts = rnow();
      int least = g_thorough ? t.bound_thorough : t.bound_quick;
      uint64_t budget = g_thorough ? t.cap_thorough : t.cap_quick;
      if (budget == 0) budget = g_thorough ? 400000 : 8000;
      Stats st;
      int bound = least;
      bool exhaustive = false;
      uint64_t spent = 0; // also bounds loops that can time out or wake spuriously for ever
      // raise the bound as long as the next one is expected to fit the budget (decided by counts, not by time)
      for (;; bound++) {
        st = Stats{};
        explore_parallel(shm, shm_new, t, bound, W, dir, st, err);
        if (!st.error.empty() || !st.found.empty() || err) break;
        auto at = [&](int i) { return i >= 0 && i < (int) st.by_cost.size() ? (double) st.by_cost[i] : 0.0; };
        if (at(bound) == 0) { exhaustive = true; break; } // nothing deviates that often: every schedule was run
        double growth = at(bound - 1) > 0 ? at(bound) / at(bound - 1) : 8;
        spent += st.schedules;
        if (st.schedules + at(bound) * growth > (double) budget || spent > 2 * budget || bound >= (g_thorough ? 20 : 14)) break;
      }
      if (!st.error.empty()) { fprintf(stderr, "ERROR %s\n", st.error.c_str()); err = true; }
      // replay each finding twice before believing it
      for (auto &kv: st.found) {
        auto &f = kv.second;
        for (int k = 0; k < 2; k++) {
          Item it{f.sched, f.exp, f.cost};
          auto v = judge(run_child(shm, t, it, false, 60));
          if (!v.bad || v.sig != f.sig) { fprintf(stderr, "ERROR %s: finding [%s] did not replay (got [%s])\n", t.name.c_str(), f.sig.c_str(), v.sig.c_str()); err = true; }
        }
        js_viol << (fv ? "" : ",") << "{\"sig\":\"" << esc(t.name + ":" + f.sig) << "\",\"desc\":\"" << esc(f.desc) << "\",\"case\":\"" << esc(t.name) << " with " << f.cost << " deviation(s)\",\"count\":" << f.count
                << ",\"replay\":\"" << esc(t.name) << ":" << sched_text(f.sched) << "\"}";
        fv = false;
      }
      ev += st.schedules; pts += st.points; outs += st.outcomes.size(); nontriv += st.schedules - (st.by_cost.empty() ? 0 : st.by_cost[0]);
      js_spaces << (fs ? "" : ",") << "{\"space\":\"" << esc(t.name) << "\",\"schedules\":" << st.schedules << ",\"deviation_bound\":" << bound << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"by_deviations\":[";
      for (size_t i = 0; i < st.by_cost.size(); i++) js_spaces << (i ? "," : "") << st.by_cost[i];
      js_spaces << "],\"distinct_outcomes\":" << st.outcomes.size() << ",\"choice_points\":" << st.points << ",\"max_points\":" << st.maxpts << ",\"plain_accesses\":" << st.accesses << ",\"wall_s\":" << (rnow() - ts) << "}";
      fs = false;
      int k = 0;
      for (auto &o: st.outcomes) { if (k++ >= 4) break; js_samples << (fsm ? "" : ",") << "\"" << esc(t.name + " -> " + o) << "\""; fsm = false; }
    }
    std::string rm = "rm -rf -- '" + dir + "'";
    if (system(rm.c_str()) != 0) fprintf(stderr, "cleanup failed\n");
    std::ostringstream js;
    js << "{\"property\":\"" << prop << "\",\"evaluations\":" << ev << ",\"transitions\":" << pts << ",\"states\":" << outs << ",\"outcomes\":" << outs << ",\"nontrivial\":" << nontriv
       << ",\"complete\":" << (complete ? "true" : "false") << ",\"rule\":\"" << esc(rule) << "\",\"wall_s\":" << (rnow() - t0) << ",\"spaces\":[" << js_spaces.str() << "],\"samples\":[" << js_samples.str() << "],\"violations\":[" << js_viol.str() << "]"
       << ",\"assumptions\":[\"sequentially consistent memory between synchronisation operations (races are reported instead)\",\"thread and operation counts of the drivers; deviation bounds as listed per space\"]}";
    if (!out.empty()) { std::ofstream o(out); o << js.str() << "\n"; }
    else printf("%s\n", js.str().c_str());
    return err ? 3 : 0;
  }
}
