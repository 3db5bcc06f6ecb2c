// Core: decisions, clock, event queue, scheduler and the pthread seam.
#include "sim.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {

Sim S;
void shm_record(int s, u64 i, u32 v); void shm_trace();
static void record(Stream s, u64 i, u32 v) { S.rec.v[s].push_back({i, v}); shm_record(s, i, v); }

struct Thread {
  int id = 0;
  std::atomic<int> go{0};
  enum { RUN, BLOCK, DEAD } state = RUN;
  WaitQ *wq = nullptr;
  bool timed_out = false;
  u64 gen = 0;
  int prio = 0;
  WaitQ joiners;
  void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
  pthread_t real{};
};

static __thread Thread *self = nullptr;
__thread int in_kernel = 0;
static std::unordered_map<u64, Thread *> *by_real;

Kernel::Kernel() { ++in_kernel; }
Kernel::~Kernel() { --in_kernel; }
bool managed() { return S.active && self && !in_kernel; }
// AddressSanitizer is about to print its report, with its own locks held: this thread runs to its end undisturbed
extern "C" void __asan_on_error() { ++in_kernel; }
int cur_tid() { return self ? self->id : -1; }

long rawsys(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void futex_wait(std::atomic<int> *a, int v) { int e = errno; rawsys(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0); errno = e; }
static void futex_wake(std::atomic<int> *a) { int e = errno; rawsys(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1); errno = e; }

// ---------------------------------------------------------------- trace
void trace(u32 code, u64 a, u64 b) {
  u64 v[4] = {code, a, b, (u64)cur_tid()};
  S.trace_hash = mix(S.trace_hash ^ mix(v[0], v[1]), mix(v[2], v[3]));
  shm_trace();
}
void logf(const char *fmt, ...) {
  if (!S.verbose) return;
  char buf[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  char h[64]; snprintf(h, sizeof h, "%12.6f T%d ", S.now / 1e9, cur_tid());
  S.log += h; S.log.append(buf, n); S.log += '\n';
}

// ---------------------------------------------------------------- decisions
u32 choose(Stream s, u32 n, double p) {
  if (n <= 1) return 0;
  u64 i = S.count[s]++;
  u32 v = 0;
  if (S.replay) { auto it = S.rep[s].find(i); if (it != S.rep[s].end()) v = it->second % n; }
  else if (p > 0 && S.rng.unit() < p) v = 1 + S.rng.below(n - 1);
  if (v) record(s, i, v);
  trace(1, s * 1000 + n, v);
  return v;
}

void at(i64 t, std::function<void()> fn) {
  if (t < S.now) t = S.now;
  S.q.emplace(std::make_pair(t, S.evseq++), Sim::Ev{std::move(fn)});
}

void finish(const std::string &why) {
  ++in_kernel;
  S.active = false;
  if (S.on_finish) S.on_finish(why);
  _exit(0);
}

// ---------------------------------------------------------------- scheduler
static const i64 TICK = 1000; // every synchronisation point costs 1 us of simulated time

static bool pop_event() {
  if (S.q.empty()) return false;
  auto it = S.q.begin();
  if (it->first.first > S.now) S.now = it->first.first;
  auto fn = std::move(it->second.fn);
  u64 seq = it->first.second;
  S.q.erase(it);
  S.st.events++;
  trace(2, S.now, seq);
  fn();
  return true;
}
static void run_due() { while (!S.q.empty() && S.q.begin()->first.first <= S.now) pop_event(); }

static std::vector<u64> pct_points; static int pct_low = 0;

static Thread *pick(bool can_stay) {
  for (;;) {
    run_due();
    Thread *cand[600]; u32 n = 0;
    if (can_stay || self->state == Thread::RUN) if (self->state == Thread::RUN) cand[n++] = self;
    for (Thread *t : S.threads) if (t != self && t->state == Thread::RUN && n < 600) cand[n++] = t;
    if (n == 0) {
      if (pop_event()) continue;
      if (S.on_quiescent) { auto before = S.q.size(); (void)before; S.on_quiescent(); if (!S.q.empty()) continue; bool any = false; for (Thread *t : S.threads) any |= t->state == Thread::RUN; if (any) continue; }
      finish("quiescent");
    }
    // a slow machine: the world moves on although a thread could run
    if (!S.q.empty() && S.q.begin()->first.first < S.now + 10000000 && (S.replay ? S.rep[S_TIME].size() > 0 : S.pol.p_jump > 0)) {
      if (choose(S_TIME, 2, S.pol.p_jump)) { S.st.jumps++; pop_event(); continue; }
    }
    if (n == 1) return cand[0];
    u32 k = 0;
    if (!S.replay && S.pol.pct > 0) {
      u64 i = S.count[S_SCHED]++;
      if (cand[0] == self) for (u64 p : pct_points) if (p == S.st.sync_points) self->prio = --pct_low;
      for (u32 j = 1; j < n; j++) if (cand[j]->prio > cand[k]->prio) k = j;
      if (k) record(S_SCHED, i, k);
      trace(1, n, k);
    } else {
      // when the current thread blocks any choice is a plain choice; otherwise it is a preemption
      bool blocked = cand[0] != self;
      k = choose(S_SCHED, n, blocked ? 0.5 : S.pol.p_switch);
    }
    return cand[k];
  }
}

static void switch_to(Thread *n) {
  Thread *me = self;
  if (n == me) return;
  S.st.switches++;
  S.cur = n;
  n->go.store(1, std::memory_order_release);
  futex_wake(&n->go);
  while (me->go.load(std::memory_order_acquire) == 0) futex_wait(&me->go, 0);
  me->go.store(0, std::memory_order_relaxed);
}

void yield_point(u32 kind, const void *) {
  Kernel k;
  S.now += TICK;
  if (++S.st.sync_points > S.max_sync) finish("step-limit");
  trace(3, kind);
  switch_to(pick(true));
}

static void block_self() {
  self->state = Thread::BLOCK;
  S.now += TICK;
  if (++S.st.sync_points > S.max_sync) finish("step-limit");
  switch_to(pick(false));
}

static void wake(Thread *t) { t->state = Thread::RUN; t->wq = nullptr; t->gen++; }

bool block_on(WaitQ &w, i64 deadline) {
  Kernel k;
  Thread *me = self;
  w.q.push_back(me);
  me->wq = &w; me->timed_out = false;
  if (deadline >= 0) {
    u64 g = me->gen;
    at(deadline, [me, g] {
      if (me->state == Thread::BLOCK && me->gen == g) {
        auto &q = me->wq->q;
        for (auto it = q.begin(); it != q.end(); ++it) if (*it == me) { q.erase(it); break; }
        wake(me); me->timed_out = true;
      }
    });
  }
  block_self();
  return !me->timed_out;
}
void wake_one(WaitQ &w) { if (!w.q.empty()) { Thread *t = w.q.front(); w.q.pop_front(); wake(t); } }
void wake_all(WaitQ &w) { while (!w.q.empty()) wake_one(w); }

// a thread that spins gives way: the next runnable thread in order, or time passes
void spin_point() {
  Kernel k;
  S.now += TICK;
  if (++S.st.sync_points > S.max_sync) finish("step-limit");
  trace(7);
  run_due();
  size_t n = S.threads.size();
  for (size_t i = 1; i < n; i++) { Thread *t = S.threads[(self->id + i) % n]; if (t->state == Thread::RUN) { switch_to(t); return; } }
  pop_event();
}

void mem_preempt() {
  Kernel k;
  // record: (access number, 1 + index among the other runnable threads)
  Thread *cand[600]; u32 n = 0;
  for (Thread *t : S.threads) if (t != self && t->state == Thread::RUN && n < 600) cand[n++] = t;
  u64 step = S.st.mem_accesses;
  u32 v = 0;
  if (S.replay) { v = S.mem_list[S.mem_pos].second; S.mem_pos++; S.next_mem = S.mem_pos < S.mem_list.size() ? S.mem_list[S.mem_pos].first : ~0ull; if (n) v = 1 + (v - 1) % n; }
  else {
    if (n) v = 1 + S.rng.below(n);
    u64 gap = 1 + (u64)(S.rng.unit() * 2 * S.pol.mem_gap);
    S.next_mem = step + gap;
    if (S.pol.mem_max && (int)S.rec.v[S_MEM].size() + 1 >= S.pol.mem_max) S.next_mem = ~0ull;
  }
  if (!n || !v) return;
  record(S_MEM, step, v);
  S.st.mem_preempts++;
  S.now += TICK;
  trace(4, step, v);
  switch_to(cand[v - 1]);
}

void sim_begin() {
  by_real = new std::unordered_map<u64, Thread *>();
  Thread *t = new Thread(); t->id = 0; t->real = pthread_self();
  (*by_real)[(u64)t->real] = t;
  S.threads.push_back(t); S.cur = t; self = t;
  S.rng = Rng(S.pol.seed);
  S.now = 1000000000ll;
  if (!S.replay && S.pol.pct > 0) { t->prio = 1000 + S.rng.below(1000); for (int i = 0; i < S.pol.pct; i++) pct_points.push_back(S.rng.below(3000)); }
  if (S.replay) {
    for (int s = 0; s < S_COUNT; s++) if (s != S_MEM) { }
    S.next_mem = S.mem_list.empty() ? ~0ull : S.mem_list[0].first;
  } else if (S.pol.mem_gap) S.next_mem = 1 + (u64)(S.rng.unit() * 2 * S.pol.mem_gap);
  tsan_begin();
  S.active = true;
}

} // namespace sim

using namespace sim;
extern void *real_sym(const char *name);
void *real_sym(const char *name) { void *p = dlsym(RTLD_NEXT, name); if (!p) { fprintf(stderr, "no real %s\n", name); abort(); } return p; }
#define REAL(name) ([]() { static decltype(&::name) f; if (!f) f = (decltype(&::name))real_sym(#name); return f; }())

// ================================================================= pthread seam
namespace {
struct Mutex { Thread *owner = nullptr; int depth = 0; WaitQ w; };
struct RW { Thread *writer = nullptr; int readers = 0; WaitQ w; };
struct Cond { WaitQ w; };
struct Once { int state = 0; WaitQ w; };
std::unordered_map<const void *, Mutex> &mutexes() { static auto *m = new std::unordered_map<const void *, Mutex>(); return *m; }
std::unordered_map<const void *, RW> &rws() { static auto *m = new std::unordered_map<const void *, RW>(); return *m; }
std::unordered_map<const void *, Cond> &conds() { static auto *m = new std::unordered_map<const void *, Cond>(); return *m; }
std::unordered_map<const void *, Once> &onces() { static auto *m = new std::unordered_map<const void *, Once>(); return *m; }

int mutex_lock(pthread_mutex_t *p, bool tr, i64 deadline = -1) {
  Kernel k;
  for (;;) {
    Mutex &m = mutexes()[p];
    if (!m.owner) { m.owner = self; m.depth = 1; hb_acquire(p); return 0; }
    if (m.owner == self) {
      int kind = p->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { m.depth++; return 0; }
      if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
      if (tr) return EBUSY;
      // a self-deadlock blocks for ever, as it does in reality
    }
    if (tr) return EBUSY;
    if (!block_on(m.w, deadline)) return ETIMEDOUT;
  }
}
int mutex_unlock(pthread_mutex_t *p) {
  Kernel k;
  auto it = mutexes().find(p);
  if (it == mutexes().end() || it->second.owner != self) return EPERM;
  Mutex &m = it->second;
  if (--m.depth > 0) return 0;
  hb_release(p);
  m.owner = nullptr;
  if (m.w.q.empty()) mutexes().erase(it); else wake_one(m.w);
  return 0;
}
i64 abs_deadline(clockid_t c, const timespec *t) {
  i64 v = (i64)t->tv_sec * 1000000000ll + t->tv_nsec;
  if (c == CLOCK_REALTIME) v -= 1700000000ll * 1000000000ll;
  return v < S.now ? S.now : v;
}
const i64 EPOCH = 1700000000ll * 1000000000ll; // realtime = EPOCH + simulated monotonic time

struct StartInfo { Thread *t; };
void *trampoline(void *a) {
  Thread *t = (Thread *)a;
  self = t;
  // tell the creator we are parked, then wait for the scheduler
  t->go.store(2, std::memory_order_release); futex_wake(&t->go);
  while (t->go.load(std::memory_order_acquire) != 1) { int v = t->go.load(); if (v == 1) break; futex_wait(&t->go, v); }
  t->go.store(0, std::memory_order_relaxed);
  void *r = t->fn(t->arg);
  ++in_kernel;
  t->ret = r;
  hb_release(t);
  t->state = Thread::DEAD;
  wake_all(t->joiners);
  trace(5, t->id);
  Thread *n = pick(false);
  switch_to(n); // never comes back
  abort();
}
int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline) {
  Kernel k;
  S.st.syscalls++;
  if (S.pol.p_spurious > 0 || S.replay) if (choose(S_NET, 2, S.pol.p_spurious)) { S.st.spurious++; mutex_unlock(m); yield_point(12, c); mutex_lock(m, false); return 0; }
  // enqueue before releasing the mutex so that no wake-up is lost
  Thread *me = self; Cond &cd = conds()[c];
  (void)me;
  mutex_unlock(m);
  bool ok = block_on(cd.w, deadline);
  hb_acquire(c);
  mutex_lock(m, false);
  return ok ? 0 : ETIMEDOUT;
}
} // namespace

extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!managed()) return REAL(pthread_create)(out, attr, fn, arg);
  Kernel k;
  if (S.threads.size() >= 500) finish("harness: more threads than the simulator holds");
  Thread *t = new Thread(); t->id = (int)S.threads.size(); t->fn = fn; t->arg = arg;
  if (S.pol.pct > 0 && !S.replay) t->prio = 1000 + S.rng.below(1000);
  int r = REAL(pthread_create)(out, attr, trampoline, t);
  if (r) return r;
  while (t->go.load(std::memory_order_acquire) != 2) futex_wait(&t->go, 0);
  t->real = *out;
  (*by_real)[(u64)*out] = t;
  S.threads.push_back(t); S.st.threads++;
  hb_fork(t->id);
  trace(6, t->id);
  yield_point(1, t);
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (!managed()) return REAL(pthread_join)(th, ret);
  Kernel k;
  auto it = by_real->find((u64)th);
  if (it == by_real->end()) return ESRCH;
  Thread *t = it->second;
  while (t->state != Thread::DEAD) block_on(t->joiners, -1);
  hb_acquire(t);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t th) { if (!managed()) return REAL(pthread_detach)(th); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!managed()) return self && S.active ? 0 : REAL(pthread_mutex_lock)(m); yield_point(2, m); return mutex_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!managed()) return self && S.active ? 0 : REAL(pthread_mutex_trylock)(m); yield_point(2, m); return mutex_lock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) { if (!managed()) return REAL(pthread_mutex_timedlock)(m, t); yield_point(2, m); return mutex_lock(m, false, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!managed()) return self && S.active ? 0 : REAL(pthread_mutex_unlock)(m); int r = mutex_unlock(m); yield_point(3, m); return r; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!managed()) return REAL(pthread_mutex_destroy)(m); Kernel k; mutexes().erase(m); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!managed()) return REAL(pthread_cond_wait)(c, m); return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { if (!managed()) return REAL(pthread_cond_timedwait)(c, m, t); return cond_wait(c, m, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t cl, const timespec *t) { if (!managed()) return REAL(pthread_cond_clockwait)(c, m, cl, t); return cond_wait(c, m, abs_deadline(cl, t)); }
int pthread_cond_signal(pthread_cond_t *c) { if (!managed()) return REAL(pthread_cond_signal)(c); { Kernel k; hb_release(c); wake_one(conds()[c].w); } yield_point(4, c); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!managed()) return REAL(pthread_cond_broadcast)(c); { Kernel k; hb_release(c); wake_all(conds()[c].w); } yield_point(4, c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { if (!managed()) return REAL(pthread_cond_destroy)(c); Kernel k; auto it = conds().find(c); if (it != conds().end() && it->second.w.q.empty()) conds().erase(it); return 0; }

static int rw_lock(pthread_rwlock_t *p, bool wr, bool tr, i64 deadline = -1) {
  yield_point(wr ? 6 : 5, p);
  Kernel k;
  for (;;) {
    RW &r = rws()[p];
    bool ok = wr ? (!r.writer && !r.readers) : !r.writer;
    if (ok) {
      if (wr) r.writer = self; else r.readers++;
      hb_acquire(p); if (wr) hb_acquire((const char *)p + 1);   // +1: releases by readers, which order writers only
      S.cache_hash = mix(S.cache_hash, (u64)(wr ? 2 : 1) * 1000 + cur_tid());
      return 0;
    }
    if (r.writer == self) return EDEADLK;
    if (tr) return EBUSY;
    if (!block_on(r.w, deadline)) return ETIMEDOUT;
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *p) { if (!managed()) return self && S.active ? 0 : REAL(pthread_rwlock_rdlock)(p); return rw_lock(p, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *p) { if (!managed()) return self && S.active ? 0 : REAL(pthread_rwlock_wrlock)(p); return rw_lock(p, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *p) { if (!managed()) return REAL(pthread_rwlock_tryrdlock)(p); return rw_lock(p, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *p) { if (!managed()) return REAL(pthread_rwlock_trywrlock)(p); return rw_lock(p, true, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *p, const timespec *t) { if (!managed()) return REAL(pthread_rwlock_timedrdlock)(p, t); return rw_lock(p, false, false, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *p, const timespec *t) { if (!managed()) return REAL(pthread_rwlock_timedwrlock)(p, t); return rw_lock(p, true, false, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_rwlock_unlock(pthread_rwlock_t *p) {
  if (!managed()) return self && S.active ? 0 : REAL(pthread_rwlock_unlock)(p);
  {
    Kernel k; RW &r = rws()[p];
    if (r.writer == self) { hb_release(p); r.writer = nullptr; } else if (r.readers > 0) { hb_release((const char *)p + 1); r.readers--; }
    wake_all(r.w);
  }
  yield_point(7, p);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *p) { if (!managed()) return REAL(pthread_rwlock_destroy)(p); Kernel k; rws().erase(p); return 0; }

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!managed()) return REAL(pthread_once)(o, fn);
  yield_point(8, o);
  for (;;) {
    { Kernel k;
      if (*(int *)o == 2) { hb_acquire(o); return 0; }   // 2 = done, as in glibc
      Once &c = onces()[o];
      if (c.state == 0) { c.state = 1; }
      else { block_on(c.w, -1); continue; } }
    struct Undo { pthread_once_t *o; bool ok = false; ~Undo() { Kernel k; Once &c = onces()[o]; if (ok) *(int *)o = 2; c.state = 0; hb_release(o); wake_all(c.w); } } u{o};
    fn();
    u.ok = true;
    return 0;
  }
}
int sched_yield() { if (!managed()) return REAL(sched_yield)(); spin_point(); return 0; }
void sim_spin_pause() noexcept { if (managed()) spin_point(); }

// static-local initialisation guards
int __cxa_guard_acquire(long long *g) {
  static auto real = (int (*)(long long *))nullptr;
  if (!managed()) { if (*(volatile u8 *)g) return 0; if (!real) real = (int (*)(long long *))real_sym("__cxa_guard_acquire"); return real(g); }
  for (;;) {
    Kernel k;
    if (*(volatile u8 *)g) { hb_acquire(g); return 0; }
    Once &c = onces()[g];
    if (c.state == 0) { c.state = 1 + cur_tid(); return 1; }
    block_on(c.w, -1);
  }
}
void __cxa_guard_release(long long *g) {
  static auto real = (void (*)(long long *))nullptr;
  if (!S.active || !self || !onces().count(g)) { if (!real) real = (void (*)(long long *))real_sym("__cxa_guard_release"); return real(g); }
  Kernel k; *(volatile u8 *)g = 1; hb_release(g); auto it = onces().find(g); wake_all(it->second.w); onces().erase(it);
}
void __cxa_guard_abort(long long *g) {
  static auto real = (void (*)(long long *))nullptr;
  if (!S.active || !self || !onces().count(g)) { if (!real) real = (void (*)(long long *))real_sym("__cxa_guard_abort"); return real(g); }
  Kernel k; auto it = onces().find(g); wake_all(it->second.w); onces().erase(it);
}

// ================================================================= clocks
int clock_gettime(clockid_t c, timespec *t) noexcept {
  if (!S.active || !self) return rawsys(SYS_clock_gettime, c, (long)t);
  i64 v = S.now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? EPOCH : 0);
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(timeval *tv, void *) noexcept {
  if (!S.active || !self) { timespec t; rawsys(SYS_clock_gettime, CLOCK_REALTIME, (long)&t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  i64 v = S.now + EPOCH; tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0;
}
time_t time(time_t *p) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
clock_t clock() noexcept { if (!S.active || !self) return REAL(clock)(); return S.now / 1000; }
static int sleep_until(i64 t) { WaitQ w; S.st.syscalls++; block_on(w, t); return 0; }
int nanosleep(const timespec *r, timespec *) { if (!managed()) return REAL(nanosleep)(r, nullptr); return sleep_until(S.now + (i64)r->tv_sec * 1000000000ll + r->tv_nsec); }
int clock_nanosleep(clockid_t c, int flags, const timespec *r, timespec *rem) {
  if (!managed()) return REAL(clock_nanosleep)(c, flags, r, rem);
  if (flags & TIMER_ABSTIME) return sleep_until(abs_deadline(c, r));
  return sleep_until(S.now + (i64)r->tv_sec * 1000000000ll + r->tv_nsec);
}
int usleep(useconds_t u) { if (!managed()) return REAL(usleep)(u); return sleep_until(S.now + (i64)u * 1000); }
unsigned sleep(unsigned s) { if (!managed()) return REAL(sleep)(s); sleep_until(S.now + (i64)s * 1000000000ll); return 0; }

// futexes used directly by libraries (std::future, kj)
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (n != SYS_futex || !managed()) return rawsys(n, a, b, c, d, e, f);
  int op = (int)b & 127; int *addr = (int *)a;
  static auto *futexes = new std::unordered_map<const void *, WaitQ>();
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    yield_point(10, addr);
    Kernel k;
    if (*addr != (int)c) { errno = EAGAIN; return -1; }
    i64 dl = -1; auto *ts = (const timespec *)d;
    if (ts) dl = op == FUTEX_WAIT ? S.now + (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec : abs_deadline(b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
    if (!block_on((*futexes)[addr], dl)) { errno = ETIMEDOUT; return -1; }
    hb_acquire(addr);
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    long cnt = 0;
    { Kernel k; hb_release(addr); auto it = futexes->find(addr); if (it != futexes->end()) { while (cnt < (int)c && !it->second.q.empty()) { wake_one(it->second); cnt++; } } }
    yield_point(11, addr);
    return cnt;
  }
  return rawsys(n, a, b, c, d, e, f);
}
} // extern "C"
