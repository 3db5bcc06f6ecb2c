// Our own runtime behind gcc's -fsanitize=thread instrumentation (tsan build only).
// The simulator runs one thread at a time, so this needs no synchronisation:
//  * preemption points at memory accesses,
//  * a vector-clock happens-before race detector (the order of execution does not hide a race),
//  * a heap lifetime shadow: access to freed memory.
#include "sim.hpp"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <link.h>
#include <string>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>

namespace sim {
extern __thread int in_kernel;
static bool on = false;

static const int MAXT = 512;
struct VC { std::vector<u32> c; u32 get(int i) const { return i < (int)c.size() ? c[i] : 0; } void set(int i, u32 v) { if ((int)c.size() <= i) c.resize(i + 1, 0); c[i] = v; }
  void join(const VC &o) { if (c.size() < o.c.size()) c.resize(o.c.size(), 0); for (size_t i = 0; i < o.c.size(); i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
static std::vector<VC> *tvc;
static std::unordered_map<const void *, VC> *sync_;
static std::vector<u64> *stacks[MAXT];

struct Acc { u32 clk; u16 tid; u8 mask; u8 flags; u32 pc; };       // flags: 1 write, 2 atomic
struct Cell { Acc a[4]; u8 freed; u8 nxt; u16 ftid; u32 fpc; u64 pad; };
struct Page { u64 tag; Cell c[512]; };
static const u32 NB = 1u << 18;
static Page **tab;

static Page *page(u64 addr) {
  u64 pn = addr >> 12; u32 h = (u32)((pn * 0x9E3779B97F4A7C15ull) >> 46);
  while (tab[h]) { if (tab[h]->tag == pn) return tab[h]; h = (h + 1) & (NB - 1); }
  Page *p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  p->tag = pn; tab[h] = p;
  return p;
}
static Page *page_if(u64 addr) {
  u64 pn = addr >> 12; u32 h = (u32)((pn * 0x9E3779B97F4A7C15ull) >> 46);
  while (tab[h]) { if (tab[h]->tag == pn) return tab[h]; h = (h + 1) & (NB - 1); }
  return nullptr;
}
static u64 base_addr;
static u32 rel(void *pc) { return (u32)((u64)pc - base_addr); }

// Writable data of the system libraries (the classic locale's caches and the like): inlined library code touches it in ways that are
// known to be harmless, and it is not the program's.
static u64 lib_lo[64], lib_hi[64]; static int lib_n = 0;
static int lib_cb(dl_phdr_info *i, size_t, void *) {
  const char *b = i->dlpi_name ? strrchr(i->dlpi_name, '/') : nullptr; if (!b) return 0;
  std::string n = b + 1; bool sys = false; for (const char *k : {"libstdc++.so", "libc.so", "libm.so", "libgcc_s.so", "ld-linux", "libpthread.so"}) sys |= n.compare(0, strlen(k), k) == 0;
  if (sys) for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_W) && lib_n < 64) { lib_lo[lib_n] = i->dlpi_addr + h.p_vaddr; lib_hi[lib_n++] = i->dlpi_addr + h.p_vaddr + h.p_memsz; } }
  return 0;
}
static bool in_lib(u64 a) { for (int i = 0; i < lib_n; i++) if (a >= lib_lo[i] && a < lib_hi[i]) return true; return false; }
static __thread u64 stk_lo = 0, stk_hi = 0;
static void stack_bounds() {
  pthread_attr_t a; void *p; size_t n;
  ++in_kernel; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a); --in_kernel;
  stk_lo = (u64)p; stk_hi = stk_lo + n;
}

[[noreturn]] static void report(const char *kind, void *addr, u32 pc1, int t1, bool w1, u32 pc2, int t2, bool w2) {
  ++in_kernel;
  char b[400];
  snprintf(b, sizeof b, "%s @+0x%x %s T%d / @+0x%x %s T%d", kind, pc1, w1 ? "write" : "read", t1, pc2, w2 ? "write" : "read", t2);
  std::string s = b; s += "\nstack:";
  auto *st = stacks[t1]; if (st) for (int i = (int)st->size() - 1, n = 0; i >= 0 && n < 40; i--, n++) { snprintf(b, sizeof b, " +0x%lx", (unsigned long)((*st)[i] - base_addr)); s += b; }
  finish(s);
}

void tsan_begin() {
  tab = (Page **)mmap(nullptr, NB * sizeof(Page *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  tvc = new std::vector<VC>(MAXT); sync_ = new std::unordered_map<const void *, VC>();
  for (int i = 0; i < MAXT; i++) (*tvc)[i].set(i, 1);
  base_addr = 0; // non-PIE executable
  dl_iterate_phdr(lib_cb, nullptr);
  on = true;
}
void hb_acquire(const void *o) { if (!on) return; auto it = sync_->find(o); if (it != sync_->end()) (*tvc)[cur_tid()].join(it->second); }
void hb_release(const void *o) { if (!on) return; int t = cur_tid(); (*sync_)[o].join((*tvc)[t]); auto &v = (*tvc)[t]; v.c[t]++; }
void hb_fork(int ch) { if (!on) return; int t = cur_tid(); (*tvc)[ch].join((*tvc)[t]); (*tvc)[t].c[t]++; }
void hb_join(int) {}

static inline void access(void *ptr, unsigned size, bool wr, bool atomic, void *pc) {
  if (!S.active || in_kernel || cur_tid() < 0) return;
  ++in_kernel;
  if (++S.st.mem_accesses >= S.next_mem) mem_preempt();
  if (S.st.mem_accesses > S.max_mem) finish("step-limit");
  u64 a = (u64)ptr;
  if (!stk_hi) stack_bounds();
  if (a >= stk_lo && a < stk_hi) { --in_kernel; return; }
  int t = cur_tid(); VC &vc = (*tvc)[t];
  u32 now = vc.c[t];
  u8 fl = (wr ? 1 : 0) | (atomic ? 2 : 0);
  while (size) {
    unsigned off = a & 7, n = 8 - off < size ? 8 - off : size;
    u8 m = (u8)(((1u << n) - 1) << off);
    Cell &c = page(a)->c[(a >> 3) & 511];
    if (__builtin_expect(c.freed, 0)) report("use-after-free", (void *)a, rel(pc), t, wr, c.fpc, c.ftid, true);
    int slot = -1;
    for (int i = 0; i < 4; i++) {
      Acc &x = c.a[i];
      if (!x.mask) { if (slot < 0) slot = i; continue; }
      if (x.tid == t) { if (x.mask == m && (x.flags == fl)) slot = i; else if (slot < 0 && (x.mask & ~m) == 0 && (x.flags <= fl || x.clk < now) && x.flags == fl) slot = i; continue; }
      if ((x.mask & m) && ((x.flags | fl) & 1) && !((x.flags & 2) && (fl & 2)) && x.clk > vc.get(x.tid) && !in_lib(a))
        report("data-race", (void *)a, rel(pc), t, wr, x.pc, x.tid, x.flags & 1);
    }
    if (slot < 0) { // evict: prefer one that happens-before us
      for (int i = 0; i < 4 && slot < 0; i++) if (c.a[i].clk <= vc.get(c.a[i].tid)) slot = i;
      if (slot < 0) slot = (c.nxt++) & 3;
    }
    c.a[slot] = Acc{now, (u16)t, m, fl, rel(pc)};
    a += n; size -= n;
  }
  --in_kernel;
}
static void reset_range(void *p, size_t n, u8 freed, u32 pc) {
  u64 a = (u64)p & ~7ull, e = (u64)p + n; int t = cur_tid();
  while (a < e) {
    Page *pg = freed ? page(a) : page_if(a);
    u64 pe = (a | 4095) + 1; if (pe > e) pe = e;
    if (pg) for (; a < pe; a += 8) { Cell &c = pg->c[(a >> 3) & 511]; memset(&c, 0, sizeof c); c.freed = freed; c.ftid = (u16)t; c.fpc = pc; }
    a = pe;
  }
}
struct Q { void *p; size_t n; };
static std::deque<Q> *quar; static size_t quar_bytes = 0;
} // namespace sim
using namespace sim;

extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);

static inline bool tracked() { return on && S.active && !in_kernel && cur_tid() >= 0; }
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && tracked()) { ++in_kernel; reset_range(p, malloc_usable_size(p), 0, 0); --in_kernel; } return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && tracked()) { ++in_kernel; reset_range(p, malloc_usable_size(p), 0, 0); --in_kernel; } return p; }
void free(void *p) {
  if (!p) return;
  if (!tracked()) { __libc_free(p); return; }
  ++in_kernel;
  // a block reached through uninstrumented code may be freed concurrently with an access: check as a write
  size_t n = malloc_usable_size(p);
  int t = cur_tid(); VC &vc = (*tvc)[t]; u32 pc = rel(__builtin_return_address(0));
  for (u64 a = (u64)p & ~7ull; a < (u64)p + n; a += 8) {
    Page *pg = page_if(a); if (!pg) { a |= 4095 & ~7; continue; }
    Cell &c = pg->c[(a >> 3) & 511];
    if (c.freed) report("double-free", p, pc, t, true, c.fpc, c.ftid, true);
    for (auto &x : c.a) if (x.mask && x.tid != t && x.clk > vc.get(x.tid) && !(x.flags & 2)) report("data-race", p, pc, t, true, x.pc, x.tid, x.flags & 1);
  }
  reset_range(p, n, 1, pc);
  if (!quar) quar = new std::deque<Q>();
  quar->push_back({p, n}); quar_bytes += n;
  while (quar_bytes > (48u << 20)) { Q q = quar->front(); quar->pop_front(); quar_bytes -= q.n; reset_range(q.p, q.n, 0, 0); __libc_free(q.p); }
  --in_kernel;
}
void *realloc(void *p, size_t n) {
  if (!tracked()) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  if (!n) { free(p); return nullptr; }
  size_t o = malloc_usable_size(p); void *q = malloc(n); if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n); free(p); return q;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p && tracked()) { ++in_kernel; reset_range(p, malloc_usable_size(p), 0, 0); --in_kernel; } return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return 12; *o = p; return 0; }

void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (!S.active) return; int t = cur_tid(); if (t < 0 || t >= MAXT || in_kernel) return; ++in_kernel; if (!stacks[t]) stacks[t] = new std::vector<u64>(); stacks[t]->push_back((u64)pc); --in_kernel; }
void __tsan_func_exit() { if (!S.active) return; int t = cur_tid(); if (t < 0 || t >= MAXT || in_kernel) return; if (stacks[t] && !stacks[t]->empty()) stacks[t]->pop_back(); }
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *a) { access(a, n, false, false, PC); } void __tsan_write##n(void *a) { access(a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false, false, PC); } void __tsan_unaligned_write##n(void *a) { access(a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void *a) { access(a, n, false, true, PC); } void __tsan_volatile_write##n(void *a) { access(a, n, true, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, false, true, PC); } void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, true, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, false, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access(a, 8, true, false, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, false, false, PC); }

// atomics: executed for real; acquire/release edges kept per address
static u64 spin_sync = 0, spin_n = 0;
static void spin_guard() { if (!managed()) return; if (S.st.sync_points != spin_sync) { spin_sync = S.st.sync_points; spin_n = 0; } else if (++spin_n > 2000) { spin_n = 0; spin_point(); } }
static void at_pre(void *a, int mo) { if (!S.active || in_kernel || cur_tid() < 0) return; ++in_kernel; if (mo >= 3) hb_release(a); --in_kernel; }
static void at_post(void *a, int mo) { if (!S.active || in_kernel || cur_tid() < 0) return; ++in_kernel; if (mo == 1 || mo == 2 || mo >= 4) hb_acquire(a); --in_kernel; }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { spin_guard(); access((void *)a, sizeof(T), false, true, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_post((void *)a, mo == 5 ? 2 : mo); return v; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { spin_guard(); access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_post((void *)a, mo); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_post((void *)a, mo); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_post((void *)a, mo); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_post((void *)a, mo); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_post((void *)a, mo); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_post((void *)a, mo); return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { access((void *)a, sizeof(T), true, true, PC); at_pre((void *)a, mo); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_post((void *)a, mo); return r; } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { spin_guard(); access((void *)a, sizeof(T), true, true, PC); bool ok = __atomic_load_n(a, __ATOMIC_SEQ_CST) == *e; if (ok) at_pre((void *)a, mo); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post((void *)a, r ? mo : fmo); return r; } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, u8) AT(16, unsigned short) AT(32, u32) AT(64, u64)
// a fence is a release and an acquire on one global object: it may hide a race that fences alone order, never invent one
static char fence_obj;
void __tsan_atomic_thread_fence(int) { if (!S.active || in_kernel || cur_tid() < 0) return; ++in_kernel; hb_release(&fence_obj); hb_acquire(&fence_obj); --in_kernel; }
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(d, n, true, false, PC); access((void *)s, n, false, false, PC); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(d, n, true, false, PC); access((void *)s, n, false, false, PC); return memmove(d, s, n); }
}
