#include "work.hpp"
#include <malloc.h>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern int trrouting_main(int, char **) __asm__("trrouting_main");

extern "C" __attribute__((weak)) void __asan_init();
namespace sim {
double g_cpu_limit = 25;

// ---------------------------------------------------------------- JSON
json policy_json(const Policy &p) {
  return {{"seed", p.seed}, {"p_switch", p.p_switch}, {"p_jump", p.p_jump}, {"mem_gap", p.mem_gap}, {"mem_max", p.mem_max}, {"pct", p.pct}, {"p_delay", p.p_delay}, {"p_frag", p.p_frag}, {"sndbuf", p.sndbuf}, {"p_short", p.p_short}, {"p_eintr", p.p_eintr}, {"p_spurious", p.p_spurious}, {"p_accept_err", p.p_accept_err}};
}
Policy policy_from(const json &j) {
  Policy p; p.seed = j["seed"]; p.p_switch = j["p_switch"]; p.p_jump = j["p_jump"]; p.mem_gap = j["mem_gap"]; p.mem_max = j["mem_max"]; p.pct = j["pct"]; p.p_delay = j["p_delay"]; p.p_frag = j["p_frag"]; p.sndbuf = j["sndbuf"]; p.p_short = j["p_short"]; p.p_eintr = j["p_eintr"]; p.p_spurious = j["p_spurious"]; p.p_accept_err = j["p_accept_err"]; return p;
}
static const char *SN[S_COUNT] = {"sched", "net", "disk", "time", "mem"};
json decisions_json(const Decisions &d) { json j = json::object(); for (int s = 0; s < S_COUNT; s++) { json a = json::array(); for (auto &x : d.v[s]) a.push_back({x.first, x.second}); j[SN[s]] = a; } return j; }
Decisions decisions_from(const json &j) { Decisions d; for (int s = 0; s < S_COUNT; s++) if (j.contains(SN[s])) for (auto &x : j[SN[s]]) d.v[s].push_back({x[0], x[1]}); return d; }

static std::string hex(const std::string &s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
static std::string unhex(const std::string &s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
static bool printable(const std::string &s) { for (unsigned char c : s) if (c < 32 || c > 126) return false; return true; }

json Case::to_json() const {
  json j = {{"prop", prop}, {"build", build}, {"variant", variant}, {"threads", threads}, {"cacheAll", cacheAll}, {"euclid", euclid}, {"debug", debug}, {"policy", policy_json(pol)}, {"extra", extra}};
  j["datasets"] = json::array(); for (auto &d : datasets) j["datasets"].push_back(d->to_json());
  j["images"] = json::array();
  for (auto &i : images) { json f = json::array(); for (auto &x : i.faults) f.push_back({{"file", x.file}, {"kind", x.kind}, {"a", x.a}, {"b", x.b}, {"hex", hex(x.s)}}); j["images"].push_back({{"dataset", i.dataset}, {"faults", f}}); if (i.alt >= 0) j["images"].back()["alt"] = i.alt; }
  j["steps"] = json::array();
  for (auto &s : steps) {
    json o = json::array(); for (auto &x : s.ops) { json q = {{"conn", x.conn}, {"mode", x.mode}, {"delay", x.delay}}; if (printable(x.target)) q["target"] = x.target; else q["target_hex"] = hex(x.target); if (!x.expect.empty()) q["expect"] = x.expect; o.push_back(q); }
    json r = json::array(); for (auto &x : s.router) r.push_back({{"n", x.n}, {"kind", x.kind}, {"a", x.a}, {"b", x.b}});
    j["steps"].push_back({{"image", s.image}, {"ops", o}, {"router", r}});
  }
  if (replay) j["decisions"] = decisions_json(dec);
  return j;
}
Case Case::from_json(const json &j) {
  Case c; c.prop = j["prop"]; c.build = j["build"]; c.variant = j["variant"]; c.threads = j["threads"]; c.cacheAll = j["cacheAll"]; c.euclid = j["euclid"]; c.debug = j["debug"]; c.pol = policy_from(j["policy"]); c.extra = j["extra"];
  for (auto &d : j["datasets"]) c.datasets.push_back(std::make_shared<Dataset>(Dataset::from_json(d)));
  for (auto &i : j["images"]) { Image m; m.dataset = i["dataset"]; m.alt = i.value("alt", -1); for (auto &f : i["faults"]) m.faults.push_back({f["file"], f["kind"], f["a"], f["b"], unhex(f["hex"])}); c.images.push_back(m); }
  for (auto &s : j["steps"]) {
    Step t; t.image = s["image"];
    for (auto &o : s["ops"]) { Op x; x.target = o.contains("target") ? o["target"].get<std::string>() : unhex(o["target_hex"]); x.conn = o["conn"]; x.mode = o["mode"]; x.delay = o["delay"]; if (o.contains("expect")) x.expect = o["expect"]; t.ops.push_back(x); }
    for (auto &r : s["router"]) t.router.push_back({r["n"], r["kind"], r["a"], r["b"]});
    c.steps.push_back(t);
  }
  if (j.contains("decisions")) { c.replay = true; c.dec = decisions_from(j["decisions"]); }
  return c;
}

// ---------------------------------------------------------------- disk images
const std::map<std::string, std::string> &files_of(const std::shared_ptr<Dataset> &d) {
  static std::map<Dataset *, std::pair<std::shared_ptr<Dataset>, std::map<std::string, std::string>>> cache;
  auto it = cache.find(d.get());
  if (it == cache.end()) { if (cache.size() > 64) cache.clear(); it = cache.emplace(d.get(), std::make_pair(d, serialise(*d))).first; }
  return it->second.second;
}
std::map<std::string, std::string> build_image(const Case &c, int image, std::map<std::string, int> *oe, std::map<std::string, std::pair<u64, int>> *re) {
  const Image &m = c.images.at(image);
  auto f = files_of(c.datasets.at(m.dataset));
  if (m.alt >= 0) for (auto &kv : files_of(c.datasets.at(m.alt))) f["alt/" + kv.first] = kv.second;
  for (auto &x : m.faults) {
    auto it = f.find(x.file);
    if (x.kind == "delete") f.erase(x.file);
    else if (x.kind == "set") f[x.file] = x.s;
    else if (x.kind == "openerr") { if (oe) (*oe)[x.file] = (int)x.a; }
    else if (x.kind == "readerr") { if (re) (*re)[x.file] = {x.a, (int)x.b}; }
    else if (it == f.end()) continue;
    else if (x.kind == "empty") it->second.clear();
    else if (x.kind == "trunc") it->second.resize(std::min<size_t>(x.a, it->second.size()));
    else if (x.kind == "flip") { if (x.a < it->second.size()) it->second[x.a] ^= 1 << (x.b & 7); }
    else if (x.kind == "zero") { for (u64 i = x.a; i < x.a + x.b && i < it->second.size(); i++) it->second[i] = 0; }
    else if (x.kind == "append") it->second += x.s;
    else if (x.kind == "copy") { auto s = f.find(x.s); if (s != f.end()) it->second = std::string(s->second); }
  }
  return f;
}
struct RawImage { std::vector<std::pair<std::string, std::string>> files; std::vector<std::pair<std::string, int>> oe; std::vector<std::pair<std::string, std::pair<u64, int>>> re; };
static std::vector<RawImage> *raw_images;     // of the run, in the child
static void mount_image(int image) {
  disk.files.clear(); disk.open_err.clear(); disk.read_err.clear();
  std::string root = std::string(DISK_ROOT) + "cache/"; RawImage &m = raw_images->at(image);
  for (auto &kv : m.files) disk.files[root + kv.first] = kv.second;
  for (auto &kv : m.oe) disk.open_err[root + kv.first] = kv.second;
  for (auto &kv : m.re) disk.read_err[root + kv.first] = kv.second;
}

// ---------------------------------------------------------------- walking table
std::string coord_str(int lon, int lat) { char b[64]; snprintf(b, sizeof b, "%.6f,%.6f", lon / 1e6, lat / 1e6); return b; }
static bool parse_coord(const std::string &s, double &lon, double &lat) { return sscanf(s.c_str(), "%lf,%lf", &lon, &lat) == 2; }
static double straight(const std::string &a, const std::string &b) {
  double x1, y1, x2, y2; if (!parse_coord(a, x1, y1) || !parse_coord(b, x2, y2)) return 0;
  double m = 0.5 * (y1 + y2) * M_PI / 180; double dx = (x2 - x1) * 111320.0 * std::cos(m), dy = (y2 - y1) * 111194.0;
  return std::sqrt(dx * dx + dy * dy);
}
static u64 pair_hash(const std::string &a, const std::string &b) { return a < b ? mix(hash_str(a), hash_str(b)) : mix(hash_str(b), hash_str(a)); }
int walk_time(const std::string &a, const std::string &b) { if (a == b) return 0; return (int)(straight(a, b) * 1.01 / 1.2) + 1 + (int)(pair_hash(a, b) % 80); }
int walk_dist(const std::string &a, const std::string &b) { if (a == b) return 0; return (int)straight(a, b) + (int)(pair_hash(a, b) / 97 % 60); }

std::string url_param(const std::string &t, const std::string &key) {
  size_t p = t.find('?'); 
  while (p != std::string::npos && p + 1 <= t.size()) {
    size_t e = t.find('&', p + 1); std::string kv = t.substr(p + 1, e == std::string::npos ? e : e - p - 1);
    if (kv.compare(0, key.size() + 1, key + "=") == 0) return kv.substr(key.size() + 1);
    p = e;
  }
  return "";
}

// ---------------------------------------------------------------- shared with the parent
struct Shm { volatile pid_t pid; u64 trace_hash, order_hash; i64 now; u64 sync; u32 ndec; struct { u64 i; u32 v, s; } dec[1 << 18]; };
static Shm *shm = nullptr;
void shm_record(int s, u64 i, u32 v) { if (shm && shm->ndec < (1u << 18)) { auto &d = shm->dec[shm->ndec++]; d.i = i; d.v = v; d.s = s; } }
void shm_trace() { if (shm) { shm->trace_hash = S.trace_hash; shm->now = S.now; shm->sync = S.st.sync_points; } }

struct Wr { std::string o; void u(u64 v) { o.append((char *)&v, 8); } void s(const std::string &v) { u(v.size()); o += v; } };
struct Rd { const std::string &o; size_t p = 0; bool bad = false; u64 u() { if (p + 8 > o.size()) { bad = true; return 0; } u64 v; memcpy(&v, &o[p], 8); p += 8; return v; } std::string s() { u64 n = u(); if (bad || n > o.size() - p) { bad = true; return ""; } std::string v = o.substr(p, n); p += n; return v; } };

// ---------------------------------------------------------------- child: client and router
struct Conn;
using ConnP = std::shared_ptr<Conn>;
struct Drv {
  const Case *c; int out_fd;
  std::vector<std::vector<OpResult>> res;
  std::vector<Exchange> exch; std::map<std::string, u64> hits;
  int step = -1; int pending = 0; int exno = 0; std::deque<int> resolved; u64 seq = 0;
  std::map<int, ConnP> conns; std::vector<ConnP> all;
  bool listened = false, done = false; u64 step_gen = 0;
  std::map<int, std::vector<int>> lanes; int nlane = 0;
  void start_step(); void begin_lane(int lane, size_t k); void op_done(int op); void send_ops(int lane, size_t k);
} *D;

struct Conn : Peer {
  std::deque<std::pair<int, bool>> out;    // (op, on a connection that already served a request)
  std::string buf; bool open = true, served = false, rx_any = false; int last_op = -1, last_step = -1; int lane = 0; size_t lane_pos = 0;
  bool in_body = false; size_t need = 0; std::string head; bool until_close = false;
  void fail_all(const char *why);
  void finish_op(const std::string &body);
  void on_data(std::string_view d) override;
  void on_fin() override { if (!open) return; open = false; if (in_body && until_close) { auto b = buf; buf.clear(); finish_op(b); } fail_all("connection closed before the response was complete"); if (!gone) fin(); }
  void on_rst() override { if (!open) return; open = false; fail_all("connection reset before the response was complete"); }
};

static std::string low(std::string s) { for (auto &c : s) c = tolower(c); return s; }
static std::string header_of(const std::string &head, const std::string &name) {
  std::string h = low(head); size_t p = h.find("\r\n" + name + ":"); if (p == std::string::npos) return "";
  p += 3 + name.size(); size_t e = head.find("\r\n", p); std::string v = head.substr(p, e - p); size_t a = v.find_first_not_of(' '); return a == std::string::npos ? "" : v.substr(a);
}
void Conn::fail_all(const char *why) {
  auto q = out; out.clear();
  if (q.empty()) return;
  for (size_t i = 0; i < q.size(); i++) {
    int op = q[i].first; OpResult &r = D->res[D->step][op];
    // a reused keep-alive connection may be closed under the client, and requests pipelined behind a closing one are not served: retried once, as HTTP clients do
    if ((((q[i].second || served) && head.empty() && buf.empty()) || i > 0) && r.retries < 2 && S.now - r.t_sent < 100000000000ll) {
      r.retries++; auto nc = std::make_shared<Conn>(); nc->lane = lane; nc->lane_pos = lane_pos;
      const Op &o = D->c->steps[D->step].ops[op];
      if (!client_connect(4000, nc)) { r.anomaly = "connection refused"; D->op_done(op); continue; }
      D->all.push_back(nc); nc->out.push_back({op, false});
      nc->send("GET " + o.target + " HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", 0, 0);
      continue;
    }
    r.anomaly = why; r.head = head; r.body = buf; head.clear(); buf.clear();
    D->op_done(op);
  }
}
void Conn::finish_op(const std::string &body) {
  int op = out.front().first; out.pop_front();
  OpResult &r = D->res[D->step][op];
  r.answered = true; r.head = head; r.body = body; r.t_done = S.now; r.seq = ++D->seq;
  trace(40, op, hash_str(head + body));
  if (!S.replay || true) S.order_hash = mix(S.order_hash, D->step * 1000 + op);
  logf("answer step=%d op=%d %.15s len=%zu", D->step, op, head.c_str(), body.size());
  if (until_close) r.anomaly = "no Content-Length";
  head.clear(); in_body = false; served = true; last_op = op; last_step = D->step;
  D->op_done(op);
}
void Conn::on_data(std::string_view d) {
  buf.append(d);
  for (;;) {
    if (out.empty()) {
      if (!buf.empty() && last_step >= 0) { auto &a = D->res[last_step][last_op].anomaly; if (a.empty()) a = "bytes after the response: " + buf.substr(0, 60); buf.clear(); }
      return;
    }
    if (!in_body) {
      size_t e = buf.find("\r\n\r\n"); if (e == std::string::npos) return;
      head = buf.substr(0, e + 2); buf.erase(0, e + 4); in_body = true; until_close = false;
      std::string cl = header_of(head, "content-length");
      if (cl.empty()) until_close = true; else need = strtoull(cl.c_str(), nullptr, 10);
    }
    if (until_close || buf.size() < need) return;
    std::string b = buf.substr(0, need); buf.erase(0, need);
    finish_op(b);
  }
}
void Drv::op_done(int op) {
  --pending;
  // next op of the same lane
  for (auto &l : lanes) for (size_t k = 0; k < l.second.size(); k++) if (l.second[k] == op && k + 1 < l.second.size()) {
    int nx = l.second[k + 1]; if (!res[step][nx].sent) { int lane = l.first; size_t kk = k + 1; u64 g = step_gen; after(1000 + c->steps[step].ops[nx].delay * 1000, [this, lane, kk, g] { if (g == step_gen) begin_lane(lane, kk); }); }
  }
  if (pending == 0) { u64 g = step_gen; after(1000000, [this, g] { if (g == step_gen) start_step(); }); }
}
void Drv::begin_lane(int lane, size_t k) {
  auto &v = lanes[lane]; const Step &s = c->steps[step];
  const Op &o = s.ops[v[k]];
  ConnP cn;
  if (o.conn >= 0) { auto it = conns.find(o.conn); if (it != conns.end() && it->second->open && !it->second->gone && it->second->out.empty()) cn = it->second; }
  bool reused = (bool)cn;
  if (!cn) {
    cn = std::make_shared<Conn>(); all.push_back(cn);
    if (!client_connect(4000, cn)) { OpResult &r = res[step][v[k]]; r.sent = true; r.anomaly = "connection refused"; op_done(v[k]); return; }
    if (o.conn >= 0) conns[o.conn] = cn;
  }
  cn->lane = lane; cn->lane_pos = k;
  std::string bytes;
  for (size_t i = k; i < v.size(); i++) {
    const Op &x = s.ops[v[i]];
    if (i > k && x.mode != "pipe") break;
    OpResult &r = res[step][v[i]]; r.sent = true; r.t_sent = S.now;
    bool more = i + 1 < v.size() && s.ops[v[i + 1]].mode == "pipe";
    std::string ver = x.mode == "http10" ? "HTTP/1.0" : "HTTP/1.1";
    std::string one = "GET " + x.target + " " + ver + "\r\nHost: localhost\r\n" + (x.mode == "close" && !more ? "Connection: close\r\n" : "") + "\r\n";
    logf("send step=%d op=%d %s", step, v[i], x.target.c_str());
    if (x.mode.compare(0, 5, "abort") == 0) {
      hits["client_" + x.mode]++; r.aborted = true;
      if (x.mode == "abort_half") one.resize(one.size() / 2);
      cn->send(bytes + one, S.pol.p_frag, S.pol.p_delay); cn->out.clear(); cn->open = false;
      int op = v[i]; ConnP cc = cn; conns.erase(o.conn);
      after(50000 + (i64)(x.delay % 1000) * 1000, [this, cc, op, m = x.mode] { if (m == "abort_fin") cc->fin(); else cc->rst(); op_done(op); });
      return;
    }
    cn->out.push_back({v[i], reused}); bytes += one;
  }
  cn->send(bytes, S.pol.p_frag, S.pol.p_delay);
}
void Drv::start_step() {
  step_gen++; step++;
  for (auto it = conns.begin(); it != conns.end();) it = it->second->open ? std::next(it) : conns.erase(it);
  if (step >= (int)c->steps.size()) { done = true; after(20000000, [] { finish("ok"); }); return; }
  const Step &s = c->steps[step];
  trace(41, step); logf("=== step %d", step);
  if (s.image >= 0) { mount_image(s.image); hits["disk_swap"]++; }
  exno = 0; resolved.clear();
  lanes.clear(); int fresh = 1000000;
  for (size_t i = 0; i < s.ops.size(); i++) lanes[s.ops[i].conn >= 0 ? s.ops[i].conn : fresh++].push_back((int)i);
  pending = (int)s.ops.size();
  if (!pending) { u64 g = step_gen; after(1000, [this, g] { if (g == step_gen) start_step(); }); return; }
  for (auto &l : lanes) { int lane = l.first; after(s.ops[l.second[0]].delay * 1000, [this, lane, g = step_gen] { if (g == step_gen) begin_lane(lane, 0); }); }
  u64 g = step_gen;
  after(600ll * 1000000000, [this, g] { if (g == step_gen && !done) { for (size_t i = 0; i < res[step].size(); i++) if (!res[step][i].answered && !res[step][i].aborted) finish("hang: step " + std::to_string(step) + " request " + std::to_string(i) + " unanswered after 600 simulated seconds"); } });
}

struct Router : Peer {
  std::string buf; RFault f; bool faulty = false; bool answered = false;
  void on_accepted() override {
    if (f.kind == "close0") { D->exch.push_back({"", f.kind, D->step, {}}); fin(); answered = true; }
    if (f.kind == "rst0") { D->exch.push_back({"", f.kind, D->step, {}}); rst(); answered = true; }
  }
  void on_data(std::string_view d) override {
    buf.append(d); if (answered || buf.find("\r\n\r\n") == std::string::npos) return;
    answered = true;
    std::string line = buf.substr(0, buf.find("\r\n"));
    size_t p = line.find("/table/v1/"), q = line.find('?');
    std::vector<std::string> co; bool dest = false;
    if (p != std::string::npos) {
      size_t b = line.find('/', p + 10) + 1; std::string cs = line.substr(b, (q == std::string::npos ? line.find(' ', b) : q) - b);
      size_t i = 0; while (i <= cs.size()) { size_t e = cs.find(';', i); if (e == std::string::npos) e = cs.size(); co.push_back(cs.substr(i, e - i)); i = e + 1; }
      dest = line.find("destinations=0") != std::string::npos;
    }
    Exchange ex; ex.step = D->step; ex.point = co.empty() ? "" : co[0]; ex.stops.assign(co.size() > 1 ? co.begin() + 1 : co.end(), co.end()); ex.kind = f.kind;
    bool benign = f.kind.empty() || f.kind == "chunked" || f.kind == "slow" || f.kind == "keepalive" || f.kind == "fraction";
    if (benign) ex.kind = "";
    D->exch.push_back(ex);
    trace(50, hash_str(line), hash_str(f.kind));
    logf("router: %s fault=%s", line.substr(0, 200).c_str(), f.kind.c_str());
    if (!f.kind.empty()) D->hits["router_" + f.kind]++;
    size_t n = co.size(); json dur = json::array(), dis = json::array();
    for (size_t i = 0; i < n; i++) { double t = walk_time(co[0], co[i]), m = walk_dist(co[0], co[i]); if (f.kind == "fraction" && t > 1) { t -= 0.5; } dur.push_back(t); dis.push_back(m); }
    auto drop = [&](json &a) { if (f.kind == "null") { for (size_t i = 1; i < n; i++) if (f.a >> ((i - 1) % 60) & 1) a[i] = nullptr; } if (f.kind == "fewer") { size_t k = f.a % n; while (a.size() > k) a.erase(a.size() - 1); } if (f.kind == "far") { for (size_t i = 1; i < n; i++) if (f.b == 1 ? i >= (f.a % n) : (f.a >> ((i - 1) % 60) & 1)) a[i] = 1000000000.0; } };
    if (f.kind == "null") { if (f.b != 1) drop(dur); if (f.b != 2) drop(dis); } else if (f.kind == "fewer") { drop(dur); if (f.b != 2) drop(dis); } else if (f.kind == "far") { drop(dur); }
    json j; j["code"] = "Ok";
    auto shape = [&](const json &a) { if (!dest) return json::array({a}); json r = json::array(); for (auto &x : a) r.push_back(json::array({x})); return r; };
    j["durations"] = shape(dur); j["distances"] = shape(dis);
    j["sources"] = json::array(); j["destinations"] = json::array();
    if (f.kind == "nodur") { if (f.a != 1) j.erase("durations"); if (f.a != 2) j.erase("distances"); if (f.a == 3) j = {{"code", "NoTable"}}; }
    if (f.kind == "nulldur") { if (f.a != 1) j["durations"] = nullptr; if (f.a != 2) j["distances"] = nullptr; }
    if (f.kind == "nullrow") { if (f.a != 1) j["durations"] = json::array({nullptr}); if (f.a != 2) j["distances"] = json::array({nullptr}); }
    if (f.kind == "emptyrow") { if (f.a == 1) { j["durations"] = json::array(); j["distances"] = json::array(); } else { j["durations"] = json::array({json::array()}); j["distances"] = json::array({json::array()}); } }
    std::string body = j.dump();
    if (f.kind == "empty") body = f.a == 1 ? " " : "";
    if (f.kind == "nonjson") { static const char *t[] = {"<html><body>502 Bad Gateway</body></html>", "{\"code\":\"Ok\",\"durations\":[[0,", "null", "[]", "\"Ok\"", "12", "{}", "\xff\xfe\x00", "true", "{\"durations\":\"x\",\"distances\":5}"}; body = t[f.a % 10]; }
    std::string status = "200 OK";
    if (f.kind == "status") { static const char *t[] = {"500 Internal Server Error", "502 Bad Gateway", "503 Service Unavailable", "404 Not Found", "400 Bad Request", "204 No Content", "429 Too Many Requests", "301 Moved Permanently"}; status = t[f.a % 8]; if (f.b) body = "{\"code\":\"InvalidQuery\",\"message\":\"x\"}"; }
    std::string out;
    if (f.kind == "chunked") {
      out = "HTTP/1.1 " + status + "\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n";
      size_t i = 0; while (i < body.size()) { size_t k = std::min<size_t>(1 + (f.a + i) % 40, body.size() - i); char b[16]; snprintf(b, sizeof b, "%zx\r\n", k); out += b + body.substr(i, k) + "\r\n"; i += k; } out += "0\r\n\r\n";
    } else out = "HTTP/1.1 " + status + "\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n" + (f.kind == "keepalive" ? "" : "Connection: close\r\n") + "\r\n" + body;
    size_t he = out.find("\r\n\r\n") + 4;
    bool rstend = false;
    if (f.kind == "trunc_head") { out.resize(f.a % he); rstend = f.b; }
    if (f.kind == "trunc_body") { size_t bl = out.size() - he; if (bl) out.resize(he + f.a % bl); rstend = f.b; }
    i64 lag = f.kind == "slow" ? (i64)(f.a % 20000) * 1000000ll : 0;
    bool close = f.kind != "keepalive";
    auto self = std::static_pointer_cast<Router>(shared_from_this());
    auto go = [self, out, rstend, close] { self->send(out, S.pol.p_frag, S.pol.p_delay); if (rstend) self->rst(); else if (close) self->fin(); };
    if (lag) after(lag, go); else go();
  }
};

static ConnectDecision router_connect(int port) {
  ConnectDecision d;
  if (D->step < 0 || D->step >= (int)D->c->steps.size()) { d.err = ECONNREFUSED; return d; }
  int n; if (!D->resolved.empty()) { n = D->resolved.front(); D->resolved.pop_front(); } else n = D->exno++;
  RFault f; f.n = n; for (auto &x : D->c->steps[D->step].router) if (x.n == n || x.n == -1) f = x;
  if (f.kind == "refuse" || f.kind == "timeout" || f.kind == "unreach") {
    D->hits["router_" + f.kind]++; D->exch.push_back({"", f.kind, D->step, {}});
    d.err = f.kind == "refuse" ? ECONNREFUSED : f.kind == "timeout" ? ETIMEDOUT : EHOSTUNREACH; d.immediate = f.a == 1; return d;
  }
  auto r = std::make_shared<Router>(); r->f = f; d.peer = r;
  if (f.kind == "close0" || f.kind == "rst0") D->hits["router_" + f.kind]++;
  return d;
}
static int router_resolve(const char *, const char *) {
  if (D->step < 0 || D->step >= (int)D->c->steps.size()) return 0;
  int n = D->exno++;
  for (auto &x : D->c->steps[D->step].router) if ((x.n == n || x.n == -1) && x.kind == "resolve") { D->hits["router_resolve"]++; D->exch.push_back({"", "resolve", D->step, {}}); return x.a == 1 ? EAI_AGAIN : EAI_NONAME; }
  D->resolved.push_back(n);
  return 0;
}

static void write_all(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t n = rawsys(SYS_write, fd, (long)(s.data() + o), s.size() - o); if (n <= 0) return; o += n; } }
static void child_finish(const std::string &why) {
  Wr w; w.s(why); w.u(D->listened);
  w.u(D->res.size());
  for (auto &s : D->res) { w.u(s.size()); for (auto &r : s) { w.u(r.sent); w.u(r.answered); w.u(r.aborted); w.u(r.retries); w.s(r.head); w.s(r.body); w.s(r.anomaly); w.u(r.t_sent); w.u(r.t_done); w.u(r.seq); } }
  w.u(D->exch.size()); for (auto &e : D->exch) { w.s(e.point); w.s(e.kind); w.u(e.step); w.u(e.stops.size()); for (auto &x : e.stops) w.s(x); }
  w.u(disk.opened.size()); for (auto &kv : disk.opened) { w.s(kv.first); w.u(kv.second); }
  w.u(D->hits.size()); for (auto &kv : D->hits) { w.s(kv.first); w.u(kv.second); }
  w.s(std::string((char *)&S.st, sizeof S.st));
  w.u(S.cache_hash); w.u(S.order_hash);
  w.s(S.log);
  write_all(D->out_fd, w.o);
}
static void child_main(const Case &c, int out_fd, int err_fd, bool verbose) {
  dup2(err_fd, 2); int nul = ::open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 0);
  rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = (rlim_t)g_cpu_limit; rl.rlim_max = (rlim_t)g_cpu_limit + 5; setrlimit(RLIMIT_CPU, &rl);
  if (!&__asan_init) { rlimit as{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_DATA, &as); }   // runaway memory ends the run (not RLIMIT_AS: idle thread arenas would count)
  mallopt(M_PERTURB, (int)(c.pol.seed % 251) + 1);   // fresh and freed heap memory differs from run to run
  D = new Drv(); D->c = &c; D->out_fd = out_fd;
  for (auto &s : c.steps) D->res.emplace_back(s.ops.size());
  mount_image(0);
  S.verbose = verbose; S.pol = c.pol; S.replay = c.replay;
  if (c.replay) { for (int s = 0; s < S_COUNT; s++) if (s != S_MEM) for (auto &x : c.dec.v[s]) S.rep[s][x.first] = x.second; S.mem_list = c.dec.v[S_MEM]; }
  S.on_finish = child_finish;
  S.on_quiescent = [] { if (D->step < (int)D->c->steps.size()) finish(D->listened ? "hang: nothing left to run and requests unanswered in step " + std::to_string(D->step) : "hang: start-up blocked for ever"); finish("ok"); };
  on_listen = [] { if (!D->listened) { D->listened = true; after(1000000, [] { D->start_step(); }); } };
  outgoing_connect = router_connect; resolve_hook = router_resolve;
  std::vector<std::string> a = {"trRouting", "--port=4000", std::string("--cachePath=") + DISK_ROOT + "cache", "--threads=" + std::to_string(c.threads), std::string("--cacheAllConnectionSets=") + (c.cacheAll ? "true" : "false"), std::string("--useEuclideanDistance=") + (c.euclid ? "true" : "false"), "--osrmPort=5000", "--osrmHost=router.sim"};
  if (c.debug) a.push_back("--debug=1");
  static std::vector<char *> av; for (auto &x : a) av.push_back(strdup(x.c_str())); av.push_back(nullptr);
  setenv("TZ", "UTC", 1);
  atexit([] { if (S.active) finish("exit: the process ended"); });
  sim_begin();
  int r = trrouting_main((int)av.size() - 1, av.data());
  finish("exit: main returned " + std::to_string(r));
}

static double mono() { timespec t; rawsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + t.tv_nsec / 1e9; }

// ---------------------------------------------------------------- the zygote
// Every run is forked from a process that was itself forked before the worker did anything, so the address space
// (heap layout included) a run starts from does not depend on what the worker did before.
static int z_req = -1, z_resp = -1, z_out = -1, z_err = -1;
static std::string encode(const Case &c, bool verbose) {
  Wr w; w.u(c.threads); w.u(c.cacheAll); w.u(c.euclid); w.u(c.debug); w.u(verbose); w.u(c.replay); w.s(std::string((const char *)&c.pol, sizeof c.pol));
  for (int k = 0; k < S_COUNT; k++) { w.u(c.dec.v[k].size()); for (auto &x : c.dec.v[k]) { w.u(x.first); w.u(x.second); } }
  w.u(c.images.size());
  for (int i = 0; i < (int)c.images.size(); i++) {
    std::map<std::string, int> oe; std::map<std::string, std::pair<u64, int>> re; auto f = build_image(c, i, &oe, &re);
    w.u(f.size()); for (auto &kv : f) { w.s(kv.first); w.s(kv.second); } w.u(oe.size()); for (auto &kv : oe) { w.s(kv.first); w.u(kv.second); } w.u(re.size()); for (auto &kv : re) { w.s(kv.first); w.u(kv.second.first); w.u(kv.second.second); }
  }
  w.u(c.steps.size());
  for (auto &s : c.steps) { w.u((u64)(i64)s.image); w.u(s.ops.size()); for (auto &o : s.ops) { w.s(o.target); w.u((u64)(i64)o.conn); w.s(o.mode); w.u(o.delay); } w.u(s.router.size()); for (auto &f : s.router) { w.u((u64)(i64)f.n); w.s(f.kind); w.u(f.a); w.u(f.b); } }
  return w.o;
}
static Case decode(const std::string &in, bool *verbose) {
  Rd d{in}; Case c; c.threads = d.u(); c.cacheAll = d.u(); c.euclid = d.u(); c.debug = d.u(); *verbose = d.u(); c.replay = d.u(); { auto p = d.s(); memcpy((void *)&c.pol, p.data(), sizeof c.pol); }
  for (int k = 0; k < S_COUNT; k++) { u64 n = d.u(); for (u64 i = 0; i < n; i++) { u64 a = d.u(); u32 b = (u32)d.u(); c.dec.v[k].push_back({a, b}); } }
  raw_images = new std::vector<RawImage>();
  for (u64 n = d.u(); n--;) { RawImage m; for (u64 k = d.u(); k--;) { auto a = d.s(); auto b = d.s(); m.files.push_back({a, b}); } for (u64 k = d.u(); k--;) { auto a = d.s(); int b = (int)d.u(); m.oe.push_back({a, b}); } for (u64 k = d.u(); k--;) { auto a = d.s(); u64 x = d.u(); int b = (int)d.u(); m.re.push_back({a, {x, b}}); } raw_images->push_back(std::move(m)); }
  for (u64 n = d.u(); n--;) { Step s; s.image = (int)(i64)d.u(); for (u64 k = d.u(); k--;) { Op o; o.target = d.s(); o.conn = (int)(i64)d.u(); o.mode = d.s(); o.delay = d.u(); s.ops.push_back(o); } for (u64 k = d.u(); k--;) { RFault f; f.n = (int)(i64)d.u(); f.kind = d.s(); f.a = d.u(); f.b = d.u(); s.router.push_back(f); } c.steps.push_back(s); }
  return c;
}
static bool read_all(int fd, void *p, size_t n) { size_t o = 0; while (o < n) { long k = rawsys(SYS_read, fd, (long)((char *)p + o), n - o); if (k == -EINTR) continue; if (k <= 0) return false; o += k; } return true; }
void start_zygote() {
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int a[2], b[2], o[2]; if (pipe(a) || pipe(b) || pipe(o)) abort();
  fcntl(a[1], F_SETPIPE_SZ, 1 << 20); fcntl(o[1], F_SETPIPE_SZ, 1 << 20);
  z_err = (int)rawsys(SYS_memfd_create, (long)"err", 0);
  pid_t z = fork(); if (z < 0) abort();
  if (z) { ::close(a[0]); ::close(b[1]); ::close(o[1]); z_req = a[1]; z_resp = b[0]; z_out = o[0]; fcntl(z_out, F_SETFL, O_NONBLOCK); return; }
  ::close(a[1]); ::close(b[0]); ::close(o[0]);
  for (;;) {
    u64 len; if (!read_all(a[0], &len, 8)) _exit(0);
    pid_t pid = fork();
    if (pid == 0) { std::string in(len, 0); if (!read_all(a[0], in.data(), len)) _exit(97); ::close(a[0]); ::close(b[1]); bool v; Case c = decode(in, &v); child_main(c, o[1], z_err, v); _exit(98); }
    shm->pid = pid;
    int st = -1; if (pid > 0) while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    rawsys(SYS_write, b[1], (long)&st, sizeof st);
  }
}

Run run_case(const Case &c, bool verbose) {
  Run r; double t0 = mono();
  if (z_req < 0) { r.end = "harness: no zygote"; return r; }
  shm->ndec = 0; shm->trace_hash = 0; shm->now = 0; shm->sync = 0; shm->pid = 0;
  ftruncate(z_err, 0); lseek(z_err, 0, SEEK_SET);
  std::string in = encode(c, verbose); u64 len = in.size(); write_all(z_req, std::string((char *)&len, 8)); write_all(z_req, in);
  std::string out; static char buf[65536]; bool timeout = false; double limit = g_cpu_limit * 8 + 30, idle0 = t0, used = -1; int status = -1;
  auto drain = [&] { for (;;) { ssize_t k = read(z_out, buf, sizeof buf); if (k <= 0) break; out.append(buf, k); } };
  for (;;) {
    pollfd pf[2] = {{z_out, POLLIN, 0}, {z_resp, POLLIN, 0}}; int n = poll(pf, 2, 1000);
    if (n > 0) { if (pf[0].revents) drain(); if (pf[1].revents) { if (!read_all(z_resp, &status, sizeof status)) { fprintf(stderr, "the zygote ended\n"); _exit(3); } drain(); break; } }
    else if (!timeout && shm->pid > 0) {
      clockid_t ck; timespec ts{}; double u = clock_getcpuclockid(shm->pid, &ck) || rawsys(SYS_clock_gettime, ck, (long)&ts) ? used : ts.tv_sec + ts.tv_nsec / 1e9;
      if (u > used + 0.02) { used = u; idle0 = mono(); }   // blocked outside the simulator: nothing can wake it
      if (mono() - t0 > limit || mono() - idle0 > 20) { timeout = true; kill(shm->pid, SIGKILL); }
    }
  }
  const int err_fd = z_err;
  r.wall = mono() - t0;
  { off_t n = lseek(err_fd, 0, SEEK_END); n = std::min<off_t>(n, 60000); r.err.resize(n); pread(err_fd, r.err.data(), n, 0); }
  for (u32 i = 0; i < shm->ndec; i++) r.rec.v[shm->dec[i].s].push_back({shm->dec[i].i, shm->dec[i].v});
  r.trace_hash = shm->trace_hash; r.sim_ns = shm->now;
  Rd d{out}; r.end = d.s();
  if (!d.bad) {
    r.listened = d.u(); u64 ns = d.u();
    for (u64 i = 0; i < ns && !d.bad; i++) { u64 n = d.u(); std::vector<OpResult> v; for (u64 k = 0; k < n && !d.bad; k++) { OpResult o; o.sent = d.u(); o.answered = d.u(); o.aborted = d.u(); o.retries = (int)d.u(); o.head = d.s(); o.body = d.s(); o.anomaly = d.s(); o.t_sent = d.u(); o.t_done = d.u(); o.seq = d.u(); v.push_back(std::move(o)); } r.res.push_back(std::move(v)); }
    u64 n = d.u(); for (u64 i = 0; i < n && !d.bad; i++) { Exchange e; e.point = d.s(); e.kind = d.s(); e.step = (int)d.u(); u64 m = d.u(); for (u64 k = 0; k < m && !d.bad; k++) e.stops.push_back(d.s()); r.exchanges.push_back(e); }
    n = d.u(); for (u64 i = 0; i < n && !d.bad; i++) { auto k = d.s(); r.opened[k] = d.u(); }
    n = d.u(); for (u64 i = 0; i < n && !d.bad; i++) { auto k = d.s(); r.fault_hits[k] = d.u(); }
    std::string st = d.s(); if (st.size() == sizeof r.st) memcpy(&r.st, st.data(), sizeof r.st);
    r.cache_hash = d.u(); r.order_hash = d.u(); r.log = d.s();
  }
  if (d.bad) {
    char b[200];
    if (timeout) snprintf(b, sizeof b, "hang: no progress in wall time");
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 99) {
      size_t e = r.err.find("ERROR: AddressSanitizer: "); std::string k = e == std::string::npos ? "?" : r.err.substr(e + 25, r.err.find_first_of(" \n", e + 25) - e - 25);
      snprintf(b, sizeof b, "crash: AddressSanitizer %s", k.c_str());
    } else if (WIFSIGNALED(status)) {
      int sg = WTERMSIG(status);
      std::string what; size_t e = r.err.find("terminate called"); if (e != std::string::npos) what = r.err.substr(e, std::min<size_t>(150, r.err.size() - e)); for (auto &ch : what) if (ch == '\n') ch = ' ';
      if (what.empty() && (e = r.err.find("Assertion")) != std::string::npos) { size_t s = r.err.rfind('\n', e); s = s == std::string::npos ? 0 : s + 1; what = r.err.substr(s, std::min<size_t>(170, r.err.size() - s)); for (auto &ch : what) if (ch == '\n') ch = ' '; }
      if (sg == SIGXCPU || sg == SIGKILL) snprintf(b, sizeof b, "hang: %.0f s of processor time without an end", g_cpu_limit);
      else snprintf(b, sizeof b, "crash: signal %d %s", sg, what.substr(0, 150).c_str());
    } else snprintf(b, sizeof b, "crash: the process exited with %d", WEXITSTATUS(status));
    r.end = b;
    r.res.clear(); for (auto &s : c.steps) r.res.emplace_back(s.ops.size());
  }
  return r;
}

u64 Run::digest() const {
  u64 h = hash_str(end); h = mix(h, trace_hash);
  for (auto &s : res) for (auto &o : s) { h = mix(h, hash_str(o.head)); h = mix(h, hash_str(o.body)); h = mix(h, hash_str(o.anomaly)); h = mix(h, o.t_done); }
  return h;
}
} // namespace sim
