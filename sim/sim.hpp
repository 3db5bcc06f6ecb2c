// Deterministic simulator core: threads, clock, events, decisions, trace.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include <deque>

namespace sim {

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n <= 1 ? 0 : next() % n; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 6)); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull) { auto b = (const u8 *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
inline u64 hash_str(std::string_view s) { return hash_bytes(s.data(), s.size()); }

// ---------------------------------------------------------------- decisions
// Value 0 is always the benign default. Everything non-zero is recorded, and a
// recorded list replays the run without the PRNG.
enum Stream { S_SCHED = 0, S_NET, S_DISK, S_TIME, S_MEM, S_COUNT };

struct Decisions { std::vector<std::pair<u64, u32>> v[S_COUNT]; size_t total() const { size_t n = 0; for (auto &x : v) n += x.size(); return n; } };

// Knobs of the seeded policy of one run (swarm: drawn per case).
struct Policy {
  u64 seed = 1;
  double p_switch = 0;        // chance that another runnable thread is picked at a sync point
  double p_jump = 0;          // chance that the clock jumps to the next event although a thread is runnable (slow thread)
  u64 mem_gap = 0;            // mean memory accesses between forced preemptions (tsan build); 0 = never
  int mem_max = 0;            // at most that many forced preemptions (0 = unlimited)
  int pct = 0;                // >0: PCT scheduling with that many priority change points
  double p_delay = 0;         // network: extra delay per segment
  double p_frag = 0;          // network: split a segment
  u32 sndbuf = 65536;         // socket send buffer (small => partial writes, EPOLLOUT waits)
  double p_short = 0;         // disk: short read
  double p_eintr = 0;         // disk: EINTR
  double p_spurious = 0;      // spurious condvar wake-up
  double p_accept_err = 0;    // accept(): ECONNABORTED
};

struct Stats {
  u64 sync_points = 0, switches = 0, mem_accesses = 0, mem_preempts = 0, syscalls = 0, events = 0;
  u64 frag = 0, delays = 0, partial_writes = 0, short_reads = 0, eintrs = 0, jumps = 0, spurious = 0, accept_errs = 0;
  u64 threads = 0, disk_opens = 0, disk_enoent = 0, disk_eio = 0;
};

struct Thread;
struct Sim {
  bool active = false;
  bool replay = false;
  Policy pol;
  Rng rng{1};
  u64 count[S_COUNT] = {};
  Decisions rec;                                   // recorded in this run
  std::unordered_map<u64, u32> rep[S_COUNT];       // replayed
  i64 now = 0;                                     // ns
  u64 evseq = 0;
  struct Ev { std::function<void()> fn; };
  std::map<std::pair<i64, u64>, Ev> q;
  std::vector<Thread *> threads;
  Thread *cur = nullptr;
  Stats st;
  u64 trace_hash = 0, order_hash = 0;
  u64 cache_hash = 0;
  u64 max_sync = 20000000, max_mem = 4000000000ull;
  bool verbose = false; std::string log;
  std::function<void()> on_quiescent;              // nothing runnable and no event left
  std::function<void(const std::string &)> on_finish;
  u64 next_mem = ~0ull;                            // tsan: access number of the next forced preemption
  std::vector<std::pair<u64, u32>> mem_list; size_t mem_pos = 0;
};
extern Sim S;
long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);   // a system call that the seam below does not see

u32 choose(Stream s, u32 n, double p);      // 0 with probability 1-p
void at(i64 t, std::function<void()> fn);   // absolute sim time
inline void after(i64 d, std::function<void()> fn) { at(S.now + d, std::move(fn)); }
void trace(u32 code, u64 a = 0, u64 b = 0);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish(const std::string &why);   // ends the run (child process)

void sim_begin();      // current thread becomes simulated thread 0

bool managed();        // current thread is simulated and not inside the simulator
struct Kernel { Kernel(); ~Kernel(); };

// wait queues
struct WaitQ { std::deque<Thread *> q; };
int cur_tid();
void yield_point(u32 kind, const void *obj);
void spin_point();
bool block_on(WaitQ &w, i64 deadline);      // false: timed out
void wake_one(WaitQ &w);
void wake_all(WaitQ &w);
void mem_preempt();                         // tsan: forced preemption at a memory access

// tsan happens-before hooks (no-ops in the asan build)
void hb_acquire(const void *obj);
void hb_release(const void *obj);
void hb_fork(int child); void hb_join(int child);
void tsan_begin();

// ---------------------------------------------------------------- network
struct Sock;
using SockP = std::shared_ptr<Sock>;
struct Peer : std::enable_shared_from_this<Peer> {
  SockP sock;                 // the server-side endpoint
  i64 last_tx = 0;            // ordering of peer->process bytes
  bool gone = false;
  virtual ~Peer() {}
  virtual void on_accepted() {}
  virtual void on_data(std::string_view) {}
  virtual void on_fin() {}
  virtual void on_rst() {}
  void send(const std::string &bytes, double p_frag, double p_delay);
  void fin();
  void rst();
};
using PeerP = std::shared_ptr<Peer>;
bool client_connect(int port, PeerP p);                    // false: nobody listens
bool listening(int port);
// outgoing connections of the process: decided by the router
struct ConnectDecision { int err = 0; bool immediate = false; PeerP peer; };
extern std::function<ConnectDecision(int port)> outgoing_connect;
extern std::function<int(const char *host, const char *service)> resolve_hook;  // 0 or EAI_*
extern std::function<void()> on_listen;
int open_sim_fds();

// ---------------------------------------------------------------- disk
struct Disk {
  std::map<std::string, std::string> files;           // full path -> content
  std::map<std::string, int> open_err;                // path -> errno on open
  std::map<std::string, std::pair<u64, int>> read_err;// path -> (offset from which read fails, errno)
  std::map<std::string, u64> opened;                  // path -> times opened
};
extern Disk disk;
extern const char *DISK_ROOT;

} // namespace sim
