// Worker: explores seeded cases of one property, minimises what it finds, replays files.
#include "props.hpp"
#include <cstdio>
#include <fstream>
#include <sstream>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>
using namespace sim;

static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string read_file(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string jdump(const json &j) { return j.dump(1, ' ', false, json::error_handler_t::replace); }
static void write_file(const std::string &p, const std::string &s) { std::string t = p + ".tmp"; { std::ofstream f(t, std::ios::binary); f << s; } rename(t.c_str(), p.c_str()); }

struct Tried { Verdict v; Run r; };
static Verdict judge(Prop *p, const Case &c, const Run &r) { if (r.end.compare(0, 7, "harness") == 0) { ctx.n["runs_beyond_the_simulator"]++; return {}; } return p->check(c, r); }   // a limit of the simulator was met: no verdict
static Tried attempt(Prop *p, const Case &c) { Tried t; t.r = run_case(c); t.v = judge(p, c, t.r); return t; }

// ---------------------------------------------------------------- minimisation
struct Min {
  Prop *p; std::string sig; double until; Case best; u64 tries = 0, kept = 0; bool frozen = false;
  bool over() { return mono() > until; }
  bool take(Case c) {
    if (over()) return false; tries++;
    Tried t = attempt(p, c);
    if (!t.v.bad || t.v.sig != sig) return false;
    kept++; best = std::move(c); return true;
  }
  void policy() {
    Case c = best; u64 s = c.pol.seed; c.pol = Policy(); c.pol.seed = s; if (take(c)) return;
    auto knob = [&](auto f) { Case k = best; f(k.pol); take(k); };
    knob([](Policy &q) { q.p_frag = q.p_delay = 0; q.sndbuf = 65536; }); knob([](Policy &q) { q.p_short = q.p_eintr = 0; }); knob([](Policy &q) { q.p_spurious = q.p_accept_err = 0; }); knob([](Policy &q) { q.p_jump = 0; }); knob([](Policy &q) { q.mem_gap = 0; q.mem_max = 0; });
  }
  void config() {
    if (best.threads > 1) { for (int t : {1, 2, best.threads - 1}) if (t < best.threads) { Case c = best; c.threads = t; if (take(c)) break; } }
    if (best.cacheAll) { Case c = best; c.cacheAll = false; take(c); }
    if (!best.euclid && p->id() != "C20") { bool any = false; for (auto &s : best.steps) any |= !s.router.empty(); if (!any) { Case c = best; c.euclid = true; take(c); } }
    if (best.debug) { Case c = best; c.debug = false; take(c); }
  }
  void steps() {
    for (size_t chunk = best.steps.size() / 2; chunk >= 1 && !over(); chunk /= 2)
      for (size_t i = 0; i < best.steps.size() && !over();) {
        if (best.steps.size() <= chunk) break;
        Case c = best; int carry = -1; for (size_t k = i; k < i + chunk && k < c.steps.size(); k++) if (c.steps[k].image >= 0) carry = c.steps[k].image;
        c.steps.erase(c.steps.begin() + i, c.steps.begin() + std::min(i + chunk, c.steps.size()));
        if (carry >= 0 && i < c.steps.size() && c.steps[i].image < 0) { (void)carry; }
        if (!take(c)) i += chunk;
      }
    for (size_t s = 0; s < best.steps.size(); s++) for (size_t k = 0; k < best.steps[s].ops.size() && !over();) { if (best.steps[s].ops.size() == 1 && best.steps.size() == 1) break; Case c = best; c.steps[s].ops.erase(c.steps[s].ops.begin() + k); if (!take(c)) k++; }
    for (size_t s = 0; s < best.steps.size(); s++) for (size_t k = 0; k < best.steps[s].router.size() && !over();) { Case c = best; c.steps[s].router.erase(c.steps[s].router.begin() + k); if (!take(c)) k++; }
    for (size_t i = 0; i < best.images.size(); i++) for (size_t k = 0; k < best.images[i].faults.size() && !over();) { Case c = best; c.images[i].faults.erase(c.images[i].faults.begin() + k); if (!take(c)) k++; }
    for (size_t s = 0; s < best.steps.size(); s++) for (size_t k = 0; k < best.steps[s].ops.size() && !over(); k++) { Op &o = best.steps[s].ops[k]; if (o.mode != "close" || o.delay || o.conn >= 0) { Case c = best; Op &x = c.steps[s].ops[k]; x.mode = "close"; x.delay = 0; x.conn = -1; take(c); } }
  }
  void params() {   // drop query parameters
    for (size_t s = 0; s < best.steps.size(); s++) for (size_t k = 0; k < best.steps[s].ops.size(); k++)
      for (int round = 0, i = 0; round < 24 && !over(); round++) {
        std::string t = best.steps[s].ops[k].target; size_t q = t.find('?'); if (q == std::string::npos) break;
        std::vector<std::string> v; size_t a = q + 1; while (a <= t.size()) { size_t e = t.find('&', a); if (e == std::string::npos) e = t.size(); v.push_back(t.substr(a, e - a)); a = e + 1; }
        if (i >= (int)v.size() || v.size() < 2) break;
        std::string n = t.substr(0, q + 1); bool first = true; for (int m = 0; m < (int)v.size(); m++) if (m != i) { n += (first ? "" : "&") + v[m]; first = false; }
        Case c = best; for (auto &st : c.steps) for (auto &o : st.ops) if (o.target == t) o.target = n;
        if (!take(c)) i++;
      }
  }
  template <class F> void edit(size_t d, F f) { Case c = best; auto n = std::make_shared<Dataset>(*c.datasets[d]); if (!f(*n)) return; c.datasets[d] = n; take(c); }
  static void drop_line(Dataset &d, const std::string &u) {
    d.lines.erase(std::remove_if(d.lines.begin(), d.lines.end(), [&](auto &l) { return l.uuid == u; }), d.lines.end());
    d.paths.erase(std::remove_if(d.paths.begin(), d.paths.end(), [&](auto &l) { return l.line == u; }), d.paths.end());
    auto rm = [&](auto &v) { v.erase(std::remove(v.begin(), v.end(), u), v.end()); };
    for (auto &s : d.scenarios) { rm(s.onlyLines); rm(s.exceptLines); }
  }
  void data() {
    for (size_t d = 0; d < best.datasets.size(); d++) {
      if (!best.datasets[d]->sources.empty()) edit(d, [](Dataset &x) { x.sources.clear(); return true; });
      for (size_t i = 0; i < best.datasets[d]->lines.size() && !over();) { size_t n = best.datasets[d]->lines.size(); if (n < 2) break; edit(d, [&](Dataset &x) { std::string u = x.lines[i].uuid; drop_line(x, u); return true; }); if (best.datasets[d]->lines.size() == n) i++; }
      for (size_t l = 0; l < best.datasets[d]->lines.size() && !over(); l++) for (size_t s = 0; s < best.datasets[d]->lines[l].schedules.size(); s++) for (size_t p = 0; p < best.datasets[d]->lines[l].schedules[s].periods.size(); p++)
        for (size_t t = 0; t < best.datasets[d]->lines[l].schedules[s].periods[p].trips.size() && !over();) { size_t n = best.datasets[d]->trip_count(); edit(d, [&](Dataset &x) { auto &v = x.lines[l].schedules[s].periods[p].trips; v.erase(v.begin() + t); return true; }); if (best.datasets[d]->trip_count() == n) t++; }
      auto used = [](const Dataset &x, const std::string &u) { for (auto &p : x.paths) for (auto &n : p.nodes) if (n == u) return true; for (auto &s : x.sources) for (auto &o : s.ods) { for (auto &f : o.on) if (f.to == u) return true; for (auto &f : o.dn) if (f.to == u) return true; } return false; };
      for (size_t i = 0; i < best.datasets[d]->nodes.size() && !over();) { size_t n = best.datasets[d]->nodes.size(); if (!used(*best.datasets[d], best.datasets[d]->nodes[i].uuid)) edit(d, [&](Dataset &x) { std::string u = x.nodes[i].uuid; x.nodes.erase(x.nodes.begin() + i); for (auto &m : x.nodes) m.foot.erase(std::remove_if(m.foot.begin(), m.foot.end(), [&](auto &f) { return f.to == u; }), m.foot.end()); return true; }); if (best.datasets[d]->nodes.size() == n) i++; }
      for (size_t i = 0; i < best.datasets[d]->scenarios.size() && !over();) { size_t n = best.datasets[d]->scenarios.size(); if (n < 2) break; edit(d, [&](Dataset &x) { x.scenarios.erase(x.scenarios.begin() + i); return true; }); if (best.datasets[d]->scenarios.size() == n) i++; }
      for (size_t i = 0; i < best.datasets[d]->paths.size() && !over();) { size_t n = best.datasets[d]->paths.size(); std::string u = best.datasets[d]->paths[i].uuid; bool in = false; for (auto &l : best.datasets[d]->lines) for (auto &s : l.schedules) for (auto &p : s.periods) for (auto &t : p.trips) in |= t.path == u; if (!in && n > 1) edit(d, [&](Dataset &x) { x.paths.erase(x.paths.begin() + i); return true; }); if (best.datasets[d]->paths.size() == n) i++; }
      edit(d, [](Dataset &x) { bool ch = false; for (auto &n : x.nodes) { size_t k = n.foot.size(); n.foot.erase(std::remove_if(n.foot.begin(), n.foot.end(), [&](auto &f) { return f.to != n.uuid; }), n.foot.end()); ch |= n.foot.size() != k; } return ch; });
    }
  }
  void freeze() {
    Run r = run_case(best); Case c = best; c.replay = true; c.dec = r.rec; if (take(c)) frozen = true;
  }
  void decisions() {
    if (!frozen) return;
    { Case c = best; c.dec = Decisions(); if (take(c)) return; }
    for (int s = 0; s < S_COUNT; s++) { if (best.dec.v[s].empty()) continue; Case c = best; c.dec.v[s].clear(); take(c); }
    for (int s = 0; s < S_COUNT; s++)
      for (size_t chunk = std::max<size_t>(1, best.dec.v[s].size() / 2); !best.dec.v[s].empty() && !over();) {
        bool any = false;
        for (size_t i = 0; i < best.dec.v[s].size() && !over();) { Case c = best; auto &v = c.dec.v[s]; v.erase(v.begin() + i, v.begin() + std::min(i + chunk, v.size())); if (take(c)) any = true; else i += chunk; }
        if (chunk == 1) { if (!any) break; } else chunk /= 2;
      }
  }
  void run() { policy(); steps(); config(); data(); params(); steps(); policy(); freeze(); decisions(); }
};

static json run_json(const Run &r, const Case &c) {
  json j = {{"end", r.end}, {"digest", r.digest()}, {"trace_hash", r.trace_hash}, {"sim_seconds", r.sim_ns / 1e9}};
  j["responses"] = json::array();
  for (size_t s = 0; s < r.res.size(); s++) for (size_t k = 0; k < r.res[s].size(); k++) { auto &o = r.res[s][k]; j["responses"].push_back({{"step", s}, {"target", c.steps[s].ops[k].target}, {"status", o.status()}, {"body", o.body.substr(0, 1500)}, {"anomaly", o.anomaly}}); }
  return j;
}

int main(int argc, char **argv) {
  // fixed addresses and environment: one seed is one execution
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("TRR_REEXEC") && personality(per | ADDR_NO_RANDOMIZE) != -1) {
    char *e[] = {(char *)"PATH=/usr/bin:/bin", (char *)"TRR_REEXEC=1", (char *)"LANG=C", nullptr};
    execve("/proc/self/exe", argv, e);
  }
  start_zygote();
  std::map<std::string, std::string> a; for (int i = 1; i < argc; i++) { std::string k = argv[i]; if (k.compare(0, 2, "--") == 0) { std::string v = i + 1 < argc && strncmp(argv[i + 1], "--", 2) ? argv[++i] : "1"; a[k.substr(2)] = v; } }
#ifdef TRR_BUILD_NAME
  ctx.build = TRR_BUILD_NAME;
#endif
  if (a.count("build")) ctx.build = a["build"];
  if (a.count("tier")) ctx.tier = a["tier"];
  if (a.count("replay")) {
    json j; try { j = json::parse(read_file(a["replay"])); } catch (std::exception &e) { fprintf(stderr, "cannot read the replay file: %s\n", e.what()); return 2; }
    Case c = Case::from_json(j["case"]); Prop *p = find_prop(c.prop); if (!p) return 2;
    if (a.count("dump-files")) { auto f = build_image(c, a.count("image") ? atoi(a["image"].c_str()) : 0); for (auto &kv : f) { std::string q = a["dump-files"] + "/" + kv.first; if (system(("mkdir -p '" + q.substr(0, q.rfind('/')) + "'").c_str())) return 2; write_file(q, kv.second); } return 0; }
    Run r = run_case(c, a.count("verbose")); Verdict v = judge(p, c, r);
    if (a.count("verbose")) printf("%s\n%s\n%s\n", r.log.c_str(), r.err.c_str(), jdump(run_json(r, c)).c_str());
    if (v.bad) { printf("{\"violation\":true,\"sig\":%s,\"what\":%s,\"digest\":\"%llx\"}\n", json(v.sig).dump(-1, ' ', false, json::error_handler_t::replace).c_str(), json(v.what).dump(-1, ' ', false, json::error_handler_t::replace).c_str(), (unsigned long long)r.digest()); return 1; }
    printf("{\"violation\":false,\"end\":%s,\"digest\":\"%llx\"}\n", json(r.end).dump().c_str(), (unsigned long long)r.digest()); return 0;
  }
  Prop *p = find_prop(a["prop"]); if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
  u64 seed = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1;
  ctx.worker = a.count("worker") ? atoi(a["worker"].c_str()) : 0; ctx.total_workers = a.count("workers") ? atoi(a["workers"].c_str()) : 1;
  double secs = a.count("seconds") ? atof(a["seconds"].c_str()) : 1e9; u64 count = a.count("count") ? strtoull(a["count"].c_str(), nullptr, 10) : ~0ull;
  double min_secs = a.count("min-seconds") ? atof(a["min-seconds"].c_str()) : 40;
  u64 det_every = a.count("det") ? atoi(a["det"].c_str()) : 50; std::string out = a.count("out") ? a["out"] : "/tmp";
  std::set<std::string> known; if (a.count("known")) { try { json kj = json::parse(read_file(a["known"])); for (auto &k : kj) if (k.value("property", "") == p->id() && k.value("status", "") == "known") known.insert(k["sig"].get<std::string>()); } catch (...) {} }
  std::set<std::string> seen; json viol = json::array(), samples = json::array(); std::map<std::string, u64> known_hits, faults, ends;
  std::unordered_set<u64> traces, orders, caches, nt_traces;
  u64 runs = 0, cases = 0, nontrivial = 0, det_checked = 0, det_bad = 0, unrepro = 0, responses = 0; double sim_s = 0; Stats tot; memset((void *)&tot, 0, sizeof tot);
  double t0 = mono(); bool stop = false; u64 first = a.count("first") ? strtoull(a["first"].c_str(), nullptr, 10) : 0;
  for (u64 i = first; i < first + count && !stop && mono() - t0 < secs; i++) {
    ctx.index = i * ctx.total_workers + ctx.worker;
    u64 cs = mix(mix(seed, hash_str(p->id())), mix(ctx.index, hash_str(ctx.build)));
    Rng r(cs); Case c = p->gen(r);
    if (a.count("dump")) printf("%s\n", jdump(c.to_json()).c_str());
    Run x = run_case(c, a.count("verbose")); Verdict v = judge(p, c, x); cases++; runs++;
    if (a.count("verbose")) printf("%s\n%s\n", x.log.c_str(), x.err.c_str());
    if (a.count("v")) printf("case %llu end=%s wall=%.2f steps=%zu verdict=%d %s\n", (unsigned long long)ctx.index, x.end.substr(0, 100).c_str(), x.wall, c.steps.size(), v.bad, v.what.substr(0, 300).c_str());
    if (i % det_every == 7 % det_every) { Run y = run_case(c); runs++; det_checked++; if (y.digest() != x.digest()) { det_bad++; fprintf(stderr, "nondeterministic: case %llu of %s (%s / %s)\n", (unsigned long long)ctx.index, p->id().c_str(), x.end.c_str(), y.end.c_str()); } }
    traces.insert(x.trace_hash); orders.insert(x.order_hash); caches.insert(x.cache_hash); sim_s += x.sim_ns / 1e9; ends[x.end.substr(0, 24)]++;
    { u64 *d = (u64 *)&tot; const u64 *s = (const u64 *)&x.st; for (size_t k = 0; k < sizeof tot / 8; k++) d[k] += s[k]; }
    for (auto &h : x.fault_hits) faults[h.first] += h.second;
    for (auto &im : c.images) for (auto &f : im.faults) faults["disk_" + f.kind]++;
    for (auto &s : x.res) for (auto &o : s) { responses += o.answered; }
    bool nt = x.listened && !x.res.empty(); if (nt) { bool got = false; for (auto &s : x.res) for (auto &o : s) got |= o.answered && o.status() == 200; nt = got; } nontrivial += nt; if (nt) nt_traces.insert(x.trace_hash);
    if (samples.size() < 2 && nt && i % 7 == 3) { json st = json::array(); for (size_t s = 0; s < c.steps.size() && s < 6; s++) for (auto &o : c.steps[s].ops) { json q = {{"step", s}, {"get", o.target}, {"mode", o.mode}}; if (c.steps[s].image >= 0) q["disk_image"] = c.steps[s].image; if (!c.steps[s].router.empty()) { q["router_fault"] = c.steps[s].router[0].kind; } st.push_back(q); }
      json im = json::array(); for (auto &m : c.images) for (auto &f : m.faults) if (im.size() < 5) im.push_back(f.kind + " " + f.file + " " + std::to_string(f.a));
      samples.push_back({{"case", ctx.index}, {"seed", cs}, {"build", c.build}, {"threads", c.threads}, {"cacheAll", c.cacheAll}, {"disk_faults", im}, {"requests", st}, {"end", x.end}, {"thread_switches", x.st.switches}, {"simulated_s", x.sim_ns / 1e9}}); }
    if (v.bad) {
      if (known.count(v.sig)) { known_hits[v.sig]++; continue; }
      if (seen.count(v.sig)) continue;
      Tried again = attempt(p, c); runs++;
      if (!again.v.bad || again.v.sig != v.sig || again.r.digest() != x.digest()) { unrepro++; fprintf(stderr, "not repeated: case %llu %s / %s\n", (unsigned long long)ctx.index, v.what.substr(0, 200).c_str(), again.v.what.substr(0, 200).c_str()); continue; }
      seen.insert(v.sig);
      Min m; m.p = p; m.sig = v.sig; m.best = c; m.until = mono() + min_secs; m.run();
      Tried fin = attempt(p, m.best);
      if (!fin.v.bad || fin.v.sig != v.sig) { m.best = c; fin = again; m.frozen = false; }
      if (!m.frozen) { Case f = m.best; f.replay = true; f.dec = fin.r.rec; Tried t = attempt(p, f); if (t.v.bad && t.v.sig == v.sig) { m.best = f; fin = t; } }
      char nm[64]; snprintf(nm, sizeof nm, "%s-%016llx.json", p->id().c_str(), (unsigned long long)mix(hash_str(v.sig), cs));
      json f = {{"property", p->id()}, {"build", ctx.build}, {"seed", cs}, {"case_index", ctx.index}, {"what", fin.v.what}, {"sig", fin.v.sig}, {"detail", fin.v.detail}, {"minimiser_runs", m.tries}, {"decisions_left", m.best.dec.total()}, {"original_decisions", x.rec.total()}, {"run", run_json(fin.r, m.best)}, {"case", m.best.to_json()}};
      write_file(out + "/" + nm, jdump(f));
      viol.push_back({{"sig", fin.v.sig}, {"what", fin.v.what}, {"replay", out + "/" + nm}, {"build", ctx.build}, {"digest", fin.r.digest()}});
      if (a.count("v")) printf("VIOL %s\n  %s\n  -> %s\n", fin.v.sig.c_str(), fin.v.what.c_str(), (out + "/" + nm).c_str());
      if (seen.size() >= 4) stop = true;
      if (a.count("stop-first")) stop = true;
    }
  }
  auto list = [](const std::unordered_set<u64> &s) { json j = json::array(); for (u64 v : s) j.push_back(v); return j; };
  json s = {{"sync_points", tot.sync_points}, {"thread_switches", tot.switches}, {"instrumented_memory_accesses", tot.mem_accesses}, {"forced_preemptions", tot.mem_preempts}, {"simulated_syscalls", tot.syscalls}, {"events", tot.events}, {"segments_split", tot.frag}, {"segments_delayed", tot.delays}, {"partial_socket_writes", tot.partial_writes}, {"short_disk_reads", tot.short_reads}, {"eintr", tot.eintrs}, {"slow_thread_clock_jumps", tot.jumps}, {"spurious_wakeups", tot.spurious}, {"accept_errors", tot.accept_errs}, {"threads_created", tot.threads}, {"files_opened", tot.disk_opens}, {"files_absent", tot.disk_enoent}, {"disk_read_errors", tot.disk_eio}};
  json j = {{"cases", cases}, {"runs", runs + ctx.solo_runs}, {"baseline_runs", ctx.solo_runs}, {"baseline_reused", ctx.solo_hits}, {"nontrivial", nontrivial}, {"responses", responses}, {"sim_seconds", sim_s}, {"wall", mono() - t0}, {"det_checked", det_checked}, {"det_bad", det_bad}, {"unrepro", unrepro}, {"violations", viol}, {"known_hits", known_hits}, {"faults", faults}, {"ends", ends}, {"stats", s}, {"counters", ctx.n}, {"samples", samples}, {"traces", list(traces)}, {"nt_traces", list(nt_traces)}, {"orders", list(orders)}, {"caches", list(caches)}};
  if (a.count("report")) write_file(a["report"], jdump(j)); else { j["traces"] = traces.size(); j["nt_traces"] = nt_traces.size(); j["orders"] = orders.size(); j["caches"] = caches.size(); printf("%s\n", jdump(j).c_str()); }
  return viol.empty() ? 0 : 1;
}
