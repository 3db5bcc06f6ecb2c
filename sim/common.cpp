#include "props.hpp"
#include <cstdio>
#include <unistd.h>
namespace sim {
Ctx ctx;
std::string ep_of(const std::string &t) { return t.substr(0, t.find('?')); }

static u64 dataset_hash(const std::shared_ptr<Dataset> &d) {
  static std::map<Dataset *, std::pair<std::shared_ptr<Dataset>, u64>> m;
  auto it = m.find(d.get()); if (it != m.end()) return it->second.second;
  if (m.size() > 256) m.clear();
  u64 h = 7; for (auto &kv : files_of(d)) { h = mix(h, hash_str(kv.first)); h = mix(h, hash_str(kv.second)); }
  m[d.get()] = {d, h}; return h;
}
static std::unordered_map<u64, Solo> cache;
static Solo solo_case(Case &c, u64 key) {
  auto it = cache.find(key); if (it != cache.end()) { ctx.solo_hits++; return it->second; }
  if (cache.size() > 4000) cache.clear();
  ctx.solo_runs++;
  Run r = run_case(c); Solo s; s.end = r.end; s.ok = r.ok() && r.res[0][0].answered && r.res[0][0].anomaly.empty(); if (!r.res.empty() && !r.res[0].empty()) s.r = r.res[0][0]; s.ex = r.exchanges;
  return cache[key] = s;
}
Solo solo(const std::shared_ptr<Dataset> &d, bool euclid, const std::string &target, const std::vector<RFault> &rf) {
  u64 key = mix(dataset_hash(d), mix(hash_str(target), euclid)); for (auto &f : rf) key = mix(key, mix(mix(f.n, hash_str(f.kind)), mix(f.a, f.b)));
  Case c; c.threads = 1; c.cacheAll = false; c.euclid = euclid; c.datasets.push_back(d); c.images.push_back({0, {}});
  Step s; Op o; o.target = target; s.ops.push_back(o); s.router = rf; c.steps.push_back(s);
  return solo_case(c, key);
}
Solo solo_files(const Case &k, int image, const std::string &target) {
  Case c; c.threads = 1; c.cacheAll = false; c.euclid = k.euclid; c.datasets = k.datasets; c.images.push_back(k.images[image]);
  u64 key = mix(hash_str(target), k.euclid); 
  std::map<std::string, int> oe; std::map<std::string, std::pair<u64, int>> re;
  for (auto &kv : build_image(k, image, &oe, &re)) { key = mix(key, hash_str(kv.first)); key = mix(key, hash_str(kv.second)); }
  for (auto &kv : oe) key = mix(key, mix(hash_str(kv.first), kv.second)); for (auto &kv : re) key = mix(key, mix(hash_str(kv.first), kv.second.first));
  Step s; Op o; o.target = target; s.ops.push_back(o); c.steps.push_back(s);
  return solo_case(c, key);
}

static std::string sh(const std::string &cmd) { std::string o; FILE *f = popen(cmd.c_str(), "r"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); pclose(f); return o; }
std::string symbolise(const std::vector<std::string> &addrs, std::vector<std::pair<std::string, std::string>> *frames) {
  static char exe[512]; if (!exe[0]) { ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n > 0) exe[n] = 0; }
  std::string cmd = std::string("addr2line -f -C -e ") + exe; for (size_t i = 0; i < addrs.size() && i < 40; i++) cmd += " " + addrs[i];
  std::string o = sh(cmd + " 2>/dev/null"), t; size_t p = 0;
  while (p < o.size()) { size_t e = o.find('\n', p); if (e == std::string::npos) break; std::string fn = o.substr(p, e - p); size_t e2 = o.find('\n', e + 1); if (e2 == std::string::npos) break; std::string loc = o.substr(e + 1, e2 - e - 1); p = e2 + 1; if (frames) frames->push_back({fn, loc}); t += "  " + fn + " at " + loc + "\n"; }
  return t;
}
static bool project(const std::string &loc) { return (loc.find("/src/") != std::string::npos || loc.find("/include/") != std::string::npos) && loc.find("/usr/") == std::string::npos && loc.find("/verif/") == std::string::npos && loc.find("libsanitizer") == std::string::npos && loc.find("/build/") == std::string::npos; }
static std::string short_fn(std::string f) { size_t p = f.find('('); if (p != std::string::npos) f.resize(p); p = f.find('<'); if (p != std::string::npos && p > 0) f.resize(p); return f; }
static std::string base(const std::string &loc) { size_t a = loc.rfind('/'); std::string b = loc.substr(a == std::string::npos ? 0 : a + 1); size_t c = b.find(':'); return b.substr(0, c); }
std::string crash_sig(const Run &r) {
  std::vector<std::string> addrs; std::string kind = r.end.substr(0, r.end.find_first_of(" @"));
  if (r.end.compare(0, 5, "crash") == 0 || r.err.find("AddressSanitizer") != std::string::npos) {
    kind = r.end.substr(0, 60);
    size_t p = 0; while ((p = r.err.find("    #", p)) != std::string::npos) { size_t q = r.err.find("0x", p); if (q == std::string::npos) break; size_t e = r.err.find(' ', q); if (addrs.size() < 30) addrs.push_back(r.err.substr(q, e - q)); p = e; }
  } else {
    size_t p = 0; while ((p = r.end.find("+0x", p)) != std::string::npos) { size_t e = r.end.find_first_of(" \n", p + 1); addrs.push_back(r.end.substr(p + 1, (e == std::string::npos ? r.end.size() : e) - p - 1)); p += 3; }
  }
  std::vector<std::pair<std::string, std::string>> fr; symbolise(addrs, &fr);
  std::string s = kind; int n = 0;
  for (auto &f : fr) if (project(f.second) && n < 2) { s += "|" + short_fn(f.first) + "@" + base(f.second); n++; }
  return s;
}
Verdict run_failure(const Run &r) {
  if (r.ok()) return {};
  Verdict v; v.bad = true; v.what = r.end.substr(0, 600);
  if (r.end.compare(0, 5, "crash") == 0 || r.end.compare(0, 9, "data-race") == 0 || r.end.compare(0, 14, "use-after-free") == 0 || r.end.compare(0, 11, "double-free") == 0) v.sig = crash_sig(r);
  else if (r.end.compare(0, 4, "hang") == 0) v.sig = "hang";
  else if (r.end.compare(0, 10, "step-limit") == 0) v.sig = "hang (step limit)";
  else v.sig = r.end.substr(0, 30);
  if (!r.err.empty()) v.detail["stderr"] = r.err.substr(0, 3000);
  return v;
}

Policy gen_policy(Rng &r, bool tsan, bool conc) {
  Policy p; p.seed = r.next() >> 1;
  if (conc) {
    switch (r.below(5)) { case 0: p.p_switch = 0.02; break; case 1: p.p_switch = 0.1; break; case 2: p.p_switch = 0.4; break; case 3: p.pct = 1 + r.below(4); break; case 4: p.p_switch = 0.25; p.p_jump = 0.03; break; }
    if (r.chance(0.2)) p.p_spurious = 0.02;
    if (tsan) { if (r.chance(0.7)) { static const u64 g[] = {300, 2000, 10000, 60000}; p.mem_gap = g[r.below(4)]; p.mem_max = r.chance(0.5) ? 0 : 1 + (int)r.below(8); if (p.mem_max == 0 && p.mem_gap < 2000) p.mem_gap = 2000; } }
  } else if (r.chance(0.3)) p.p_switch = 0.1;
  switch (r.below(4)) { case 0: break; case 1: p.p_frag = 0.3; break; case 2: p.p_delay = 0.3; break; case 3: p.p_frag = 0.15; p.p_delay = 0.15; break; }
  if (r.chance(0.15)) p.sndbuf = 16 + (u32)r.below(200);
  if (r.chance(0.2)) p.p_short = 0.2;
  if (r.chance(0.15)) p.p_eintr = 0.05;
  return p;
}
static std::string status_line(const std::string &h) { return h.substr(0, h.find("\r\n")); }
bool same_response(const OpResult &a, const OpResult &b, std::string *diff) {
  if (a.status() != b.status()) { if (diff) *diff = "status " + std::to_string(a.status()) + " instead of " + std::to_string(b.status()) + ": " + a.body.substr(0, 200); return false; }
  if (a.body != b.body) {
    size_t i = 0; while (i < a.body.size() && i < b.body.size() && a.body[i] == b.body[i]) i++;
    size_t s = i > 60 ? i - 60 : 0; if (diff) *diff = "body differs at byte " + std::to_string(i) + ": got \"" + a.body.substr(s, 160) + "\" expected \"" + b.body.substr(s, 160) + "\""; return false;
  }
  return true;
}
bool well_formed(const OpResult &o, json *body, std::string *why) {
  auto bad = [&](const std::string &w) { if (why) *why = w; return false; };
  if (!o.answered) return bad("no response (" + o.anomaly + ")");
  if (!o.anomaly.empty()) return bad(o.anomaly);
  std::string sl = status_line(o.head);
  if (sl.compare(0, 5, "HTTP/") != 0 || sl.size() < 12) return bad("malformed status line " + sl);
  std::string h = o.head; for (auto &c : h) c = tolower(c);
  size_t n = 0, p = 0; while ((p = h.find("\r\ncontent-length:", p)) != std::string::npos) { n++; p++; }
  if (n != 1) return bad("Content-Length appears " + std::to_string(n) + " times");
  if (h.find("\r\ncontent-type: application/json") == std::string::npos) return bad("the content type is not JSON");
  json j; try { j = json::parse(o.body); } catch (std::exception &e) { return bad(std::string("body is not JSON: ") + o.body.substr(0, 120)); }
  if (!j.is_object()) return bad("body is not a JSON object");
  if (body) *body = std::move(j);
  return true;
}
} // namespace sim
