// Properties decided by comparing a simulated run with what a fresh, idle server answers, or two exchanges with each other.
#include "props.hpp"
#include <algorithm>
namespace sim {

static GenOpt small_opt(Rng &r) {
  GenOpt o; o.nodes_lo = 3; o.nodes_hi = 7; o.lines_lo = 1; o.lines_hi = 4; o.trips_hi = 3; o.scen_lo = 2; o.scen_hi = 4;
  if (r.chance(0.25)) { o.nodes_hi = 12; o.lines_hi = 7; o.trips_hi = 6; }
  if (r.chance(0.2)) o.late = true;
  if (r.chance(0.3)) o.p_zero_hop = 0;
  return o;
}
static std::string swap_scenario(const std::string &t, const std::string &uuid) { size_t p = t.find("scenario_id="); if (p == std::string::npos) return t; std::string o = t; size_t e = o.find('&', p); o.replace(p + 12, (e == std::string::npos ? o.size() : e) - p - 12, uuid); return o; }

// Compares every answered request of the run with the idle server. Requests whose walking-router exchange failed are skipped.
struct Source { int dataset = 0, image = -1; };      // image: the files of that image, damage included; -2: not determined
static Verdict compare_data(const Case &c, const Run &r, const std::function<Source(int)> &source_at) {
  for (size_t s = 0; s < c.steps.size(); s++) {
    const Step &st = c.steps[s];
    for (size_t k = 0; k < st.ops.size(); k++) {
      const Op &o = st.ops[k]; const OpResult &q = r.res[s][k];
      if (q.aborted || o.expect == "skip") continue;
      const Source src = source_at((int)s); if (src.image == -2) { ctx.n["not_compared"]++; continue; }
      const Solo b = src.image >= 0 ? solo_files(c, src.image, o.target) : solo(c.datasets[src.dataset], c.euclid, o.target);
      if (src.image >= 0 && b.ok) ctx.n["compared_with_damaged_files"]++;
      if (!b.ok) { ctx.n["baseline_unusable"]++; continue; }
      if (!q.answered || !q.anomaly.empty()) {
        return fail("no-answer " + ep_of(o.target), "step " + std::to_string(s) + " request " + std::to_string(k) + " GET " + o.target + ": " + (q.anomaly.empty() ? "unanswered" : q.anomaly));
      }
      if (!st.router.empty()) {
        // A request whose client went away may still be under way and ask about the same point: then the failed exchange can be either's.
        bool left = false; for (size_t z = 0; z < s; z++) for (auto &w : r.res[z]) left |= w.aborted;
        std::multiset<std::string> good; bool failed = false;
        for (auto &e : r.exchanges) if (e.step == (int)s) { if (e.kind.empty()) good.insert(e.point); else failed = true; }
        bool hit = left && failed; std::multiset<std::string> need; for (auto &e : b.ex) need.insert(e.point);
        for (auto &p : need) hit |= good.count(p) < need.count(p);
        if (hit) { ctx.n["compared_skipped_router"]++; continue; }
      }
      std::string diff; ctx.n["responses_compared"]++;
      if (!same_response(q, b.r, &diff)) return fail("response-differs " + ep_of(o.target), "step " + std::to_string(s) + " request " + std::to_string(k) + " GET " + o.target + ": " + diff);
    }
  }
  return {};
}

static Verdict compare_all(const Case &c, const Run &r) { return compare_data(c, r, [&](int) { return Source{c.images[0].dataset, -1}; }); }

// ---------------------------------------------------------------- C13
struct C13 : Prop {
  std::string id() const override { return "C13"; }
  Case gen(Rng &r) override {
    Case c; c.prop = "C13"; c.build = ctx.build; c.threads = r.chance(0.7) ? 1 : 3; c.cacheAll = r.chance(0.5); c.euclid = r.chance(0.6); c.debug = r.chance(0.1);
    GenOpt o = small_opt(r); if (r.chance(0.6)) { o.scen_lo = 3; o.scen_hi = 5; }
    bool lengthy = r.chance(ctx.tier == "thorough" ? 0.06 : 0.03), many = r.chance(0.06); if (many) { o.scen_lo = 6; o.scen_hi = 24; }
    if (!many && !lengthy && r.chance(0.01)) o.large(150 + r.below(150), 10 + r.below(20), 30);
    auto d = std::make_shared<Dataset>(gen_dataset(r, o)); c.datasets.push_back(d); c.images.push_back({0, {}});
    ReqOpt q; q.p_alt = 0.3; q.w_summary = 0.3;
    int pool_n = 2 + r.below(5), n = (ctx.tier == "thorough" ? 8 : 5) + r.below(14); if (many) n = 2 * (int)d->scenarios.size() + r.below(10); if (lengthy) { n = 60 + r.below(140); pool_n = 2; if (r.chance(0.15)) n = 260 + r.below(1000); if (n > 90) c.euclid = true; /* every OSRM exchange takes threads, and the simulator holds 500 */ }
    std::vector<std::string> pool; for (int i = 0; i < pool_n; i++) pool.push_back(gen_request(r, *d, q));
    bool sticky = r.chance(0.3), idle = r.chance(0.15);
    for (int i = 0; i < n; i++) {
      Step s; Op x;
      double u = r.unit();
      if (lengthy && u > 0.55 && u < 0.9) u = r.unit() * 0.55;
      if (many && i < (int)d->scenarios.size() && u < 0.8) x.target = swap_scenario(r.pick(pool), d->scenarios[i].uuid);
      else if (lengthy && u < 0.5) x.target = r.pick(pool);
      else if (u < 0.55) { x.target = r.pick(pool); if (r.chance(0.5)) x.target = swap_scenario(x.target, r.pick(d->scenarios).uuid); if (sticky && r.chance(0.5)) x.target = swap_scenario(x.target, d->scenarios[0].uuid); if (r.chance(0.45)) x.target = vary(r, *d, x.target); }
      else if (u < 0.75) x.target = gen_request(r, *d, q);
      else if (u < 0.90) { ReqOpt z = q; z.p_invalid = 1; x.target = gen_request(r, *d, z); }
      else if (u < 0.95) { x.target = r.pick(pool); x.mode = r.chance(0.5) ? "abort_half" : r.chance(0.5) ? "abort_sent" : "abort_fin"; x.delay = r.below(400); }
      else { x.target = r.pick(pool); if (!c.euclid) { static const char *k[] = {"refuse", "rst0", "status", "nonjson", "trunc_body", "close0"}; RFault f; f.n = (int)r.below(2); f.kind = k[r.below(6)]; f.a = r.below(7); s.router.push_back(f); } }
      if (x.mode == "close" && r.chance(0.3)) { x.mode = "ka"; x.conn = (int)r.below(2); }
      else if (x.mode == "close" && idle && r.chance(0.2)) x.delay = 1000 * (1 + r.below(r.chance(0.5) ? 30 : 7200));   // nothing happens for a while
      s.ops.push_back(x); c.steps.push_back(s);
    }
    c.pol = gen_policy(r, false, false);
    return c;
  }
  Verdict check(const Case &c, const Run &r) override {
    if (auto v = run_failure(r); v.bad) return v;
    return compare_all(c, r);
  }
};

// ---------------------------------------------------------------- C14
struct C14 : Prop {
  std::string id() const override { return "C14"; }
  Case gen(Rng &r) override {
    Case c; c.prop = "C14"; c.build = ctx.build; c.threads = 2 + r.below(r.chance(0.2) ? 7 : 3); c.cacheAll = r.chance(0.4); c.euclid = r.chance(0.75); c.debug = r.chance(0.05);
    GenOpt o = small_opt(r); o.scen_lo = 2; o.scen_hi = 4; if (r.chance(0.5)) { o.nodes_hi = 5; o.lines_hi = 3; o.trips_hi = 2; }
    auto d = std::make_shared<Dataset>(gen_dataset(r, o)); c.datasets.push_back(d); c.images.push_back({0, {}});
    ReqOpt q; q.p_alt = 0.25; q.w_summary = 0.3; q.w_access = 0.6;
    std::vector<std::string> pool; int pn = 2 + r.below(4); for (int i = 0; i < pn; i++) pool.push_back(gen_request(r, *d, q));
    int steps = 1 + r.below(3); bool pipe = r.chance(0.15);
    for (int i = 0; i < steps; i++) {
      Step s; int n = 2 + r.below(r.chance(0.3) ? 7 : 3); int spread = r.chance(0.5) ? 0 : r.chance(0.5) ? 60 : 400;
      if (r.chance(0.3)) { Step w; Op x; x.target = r.pick(pool); w.ops.push_back(x); c.steps.push_back(w); }   // something is cached already
      for (int k = 0; k < n; k++) {
        Op x; x.target = r.chance(0.8) ? r.pick(pool) : gen_request(r, *d, q); if (r.chance(0.3)) x.target = vary(r, *d, x.target);
        x.target = swap_scenario(x.target, d->scenarios[k % 2 == 0 && r.chance(0.7) ? 0 : r.below(d->scenarios.size())].uuid);
        if (r.chance(0.06)) { ReqOpt z = q; z.p_invalid = 1; x.target = gen_request(r, *d, z); }
        if (spread) x.delay = r.below(spread);
        if (r.chance(0.06)) x.mode = r.chance(0.5) ? "abort_half" : "abort_sent";
        else if (r.chance(0.25)) { x.mode = pipe && r.chance(0.5) ? "pipe" : "ka"; x.conn = (int)r.below(3); }
        s.ops.push_back(x);
      }
      c.steps.push_back(s);
    }
    { Step s; Op x; x.target = r.pick(pool); s.ops.push_back(x); c.steps.push_back(s); }
    { Step s; Op x; x.target = swap_scenario(r.pick(pool), r.pick(d->scenarios).uuid); s.ops.push_back(x); c.steps.push_back(s); }
    c.pol = gen_policy(r, ctx.build == "tsan", true);
    return c;
  }
  Verdict check(const Case &c, const Run &r) override {
    if (auto v = run_failure(r); v.bad) return v;
    return compare_all(c, r);
  }
};

// ---------------------------------------------------------------- C15
struct C15 : Prop {
  std::string id() const override { return "C15"; }
  static Dataset cripple(Rng &r, Dataset d) { // data that is not ready
    switch (r.below(8)) { case 5: d.nodes.clear(); break; case 6: d.lines.clear(); break; case 7: d.paths.clear(); break; case 0: d.scenarios.clear(); break; case 1: for (auto &l : d.lines) l.schedules.clear(); break; case 2: d.agencies.clear(); break; case 3: d.services.clear(); for (auto &l : d.lines) l.schedules.clear(); for (auto &s : d.scenarios) s.services.clear(); break; case 4: d = Dataset(); break; }
    return d;
  }
  Case gen(Rng &r) override {
    Case c; c.prop = "C15"; c.build = ctx.build; c.threads = r.chance(0.7) ? 1 : 3; c.cacheAll = r.chance(0.5); c.euclid = r.chance(0.75);
    GenOpt o = small_opt(r);
    auto d = std::make_shared<Dataset>(gen_dataset(r, o)); 
    c.datasets.push_back(d); 
    int mode = r.below(5); // 0,1 all; 2 schedules; 3 schedules+scenarios; 4 mixed sequence
    bool start_crippled = (mode <= 1) && r.chance(0.12);
    if (start_crippled) { c.datasets.push_back(std::make_shared<Dataset>(cripple(r, *d))); c.images.push_back({1, {}}); } else c.images.push_back({0, {}});
    ReqOpt q; q.p_alt = 0.2; q.w_summary = 0.3;
    std::vector<std::string> pool; for (int i = 0; i < 3; i++) pool.push_back(gen_request(r, *d, q));
    auto ask = [&](int n, const Dataset &cur) { for (int i = 0; i < n; i++) { Step s; Op x; x.target = r.chance(0.75) || cur.scenarios.empty() || cur.nodes.empty() || cur.lines.empty() ? r.pick(pool) : gen_request(r, cur, q); if (r.chance(0.25)) x.target = vary(r, cur.nodes.empty() ? *d : cur, x.target); if (r.chance(0.3)) { x.mode = "ka"; x.conn = 0; } s.ops.push_back(x); c.steps.push_back(s); } };
    ask(r.below(4), *d);
    int refreshes = 1 + r.below(ctx.tier == "thorough" ? 5 : 3);
    std::shared_ptr<Dataset> cur = c.datasets[c.images[0].dataset]; int root = c.images[0].dataset, alt = -1, loaded = root; bool damaged = false, hurt = r.chance(0.25); std::set<int> ruined;
    for (int k = 0; k < refreshes; k++) {
      int m = mode == 4 ? (int)r.below(4) : mode; if ((start_crippled && k == 0) || damaged) m = 0;
      bool custom = r.chance(0.2);           // the refresh reads another folder
      std::shared_ptr<Dataset> nx; int idx = -1;
      int again = custom ? alt : root;       // files that are there already
      if (!(start_crippled && k == 0) && again >= 0 && again != loaded && !ruined.count(again) && m <= 1 && r.chance(0.5)) idx = again;
      else if (start_crippled && k == 0) nx = d;
      else if (m <= 1 && r.chance(0.08)) nx = std::make_shared<Dataset>(cripple(r, *cur));
      else if (cur->nodes.empty() || cur->services.empty() || cur->scenarios.empty() || cur->agencies.empty() || cur->lines.empty()) { m = 0; nx = d; }
      else nx = std::make_shared<Dataset>(evolve_dataset(r, *cur, o, m >= 2, m == 3));
      if (idx < 0) { c.datasets.push_back(nx); idx = (int)c.datasets.size() - 1; }
      cur = c.datasets[idx];
      Image img{root, {}, alt}; damaged = false;
      if (hurt && !custom && r.chance(0.6) && cur->nodes.size() && cur->lines.size() && cur->paths.size() && cur->agencies.size() && cur->services.size() && cur->scenarios.size()) {   // the new files are damaged, too
        if (m <= 1 && r.chance(0.3)) { auto e = std::make_shared<Dataset>(*cur); std::string what; int n = 1 + r.below(2), tries = 0; while (n && tries++ < 50) if (structural(r, *e, &what)) n--; c.datasets.push_back(e); idx = (int)c.datasets.size() - 1; damaged = true; ruined.insert(idx); }
        else {
          std::map<std::string, std::string> f; for (auto &kv : files_of(cur)) if (m <= 1 || !kv.first.compare(0, 6, "lines/") || (m == 3 && kv.first == "scenarios.capnpbin")) f.insert(kv);
          if (f.size()) for (int n = r.chance(0.8) ? 1 : 2 + r.below(3); n--;) { Fault x = r.chance(0.7) ? byte_fault(r, f) : word_fault(r, f); damaged |= x.file.compare(0, 6, "lines/") != 0; img.faults.push_back(x); }
        }
      }
      (custom ? alt : root) = idx; loaded = damaged || img.faults.size() ? -1 : idx; img.dataset = root; img.alt = alt;
      c.images.push_back(img);
      Step s; s.image = (int)c.images.size() - 1; Op x;
      static const char *keys[] = {"names", "caches", "cache_names", "name", "cache", "cache_name"}, *pkeys[] = {"path", "custom_path", "custom_cache_path"};
      std::string key = r.chance(0.6) ? "names" : keys[r.below(6)];
      std::vector<std::string> parts;      // one refresh, or the same caches one request after the other
      if (m <= 1 && r.chance(0.1)) { auto k = kinds(); for (size_t i = 0; i < k.size();) { size_t n = 1 + r.below(r.chance(0.5) ? 2 : 5); std::string p; for (; n-- && i < k.size(); i++) p += (p.empty() ? "" : ",") + k[i]; parts.push_back(p); } }
      else parts.push_back(m <= 1 ? (r.chance(0.15) ? ALL : r.chance(0.05) ? "schedules,all" : r.chance(0.05) ? "all,unknown" : "all") : m == 2 ? "schedules" : r.chance(0.5) ? "scenarios,schedules" : "schedules,scenarios");
      for (auto &names : parts) {
        std::string at = custom ? std::string(pkeys[r.below(3)]) + "=alt" : "";
        x.target = "/updateCache?" + (at.empty() ? key + "=" + names : r.chance(0.5) ? at + "&" + key + "=" + names : key + "=" + names + "&" + at);
        if (c.threads > 1 && r.chance(0.1)) x.mode = "ka", x.conn = 0;
        x.expect = "skip"; s.ops.push_back(x); c.steps.push_back(s); s = Step();
      }
      if (parts.size() == 1 && r.chance(0.15)) { Step s2; Op y = x; s2.ops.push_back(y); c.steps.push_back(s2); }
      ask(1 + r.below(4), *cur);
      if (r.chance(0.3)) pool.push_back(cur->nodes.empty() || cur->lines.empty() || cur->scenarios.empty() ? r.pick(pool) : gen_request(r, *cur, q));
    }
    c.pol = gen_policy(r, false, false);
    return c;
  }
  Verdict check(const Case &c, const Run &r) override {
    if (auto v = run_failure(r); v.bad) return v;
    int disk = 0, loaded = 0, pending_disk = -1; bool in_alt = false, pending_alt = false, known = true; size_t pending = 0; std::vector<Source> at;
    for (size_t s = 0; s < c.steps.size(); s++) {
      if (c.steps[s].image >= 0) disk = c.steps[s].image;
      for (size_t k = 0; k < c.steps[s].ops.size(); k++) {
        const std::string &t = c.steps[s].ops[k].target; if (t.compare(0, 12, "/updateCache")) continue;
        ctx.n["refreshes"]++; std::string w; json b; if (!well_formed(r.res[s][k], &b, &w)) return fail("no-answer /updateCache", "refresh in step " + std::to_string(s) + ": " + w);
        std::string names; for (const char *n : {"names", "caches", "cache_names", "name", "cache", "cache_name"}) if (names.empty()) names = url_param(t, n);
        bool custom = t.find("=alt") != std::string::npos; if (custom && c.images[disk].alt < 0) return {};
        if (custom) ctx.n["refreshes_from_another_folder"]++;
        if (!custom && c.images[disk].faults.size()) ctx.n["refreshes_onto_damaged_files"]++;
        std::set<std::string> scope = split(names); bool here = pending_disk == disk && pending_alt == custom;
        if (scope.count("all")) pending = 0, known = true;
        else if (scope.count("schedules") && (scope.size() == 1 || (scope.size() == 2 && scope.count("scenarios"))) && known) {
          // a refresh of the schedules alone is only asked about when nothing else differs (a shortened history may not keep that)
          known = stripped(c, loaded, in_alt, scope.size() == 2) == stripped(c, disk, custom, scope.size() == 2);
        } else {
          const auto k = kinds(); if (!here) pending = 0; known = false; pending_disk = disk; pending_alt = custom;
          for (size_t p = 0; p <= names.size();) { size_t e = std::min(names.find(',', p), names.size()); if (pending < k.size() && names.substr(p, e - p) == k[pending]) pending++; p = e + 1; }
          if (pending == k.size()) pending = 0, known = true, ctx.n["refreshes_of_all_kinds_by_name"]++;
        }
        loaded = disk; in_alt = custom;
      }
      at.push_back({in_alt ? c.images[loaded].alt : c.images[loaded].dataset, known ? (!in_alt && c.images[loaded].faults.size() ? loaded : -1) : -2});
    }
    return compare_data(c, r, [&](int s) { return at[s]; });
  }
  static constexpr const char *ALL = "data_sources,persons,od_trips,agencies,services,nodes,lines,paths,scenarios,schedules";
  static std::vector<std::string> kinds() { return {"data_sources", "persons", "od_trips", "agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules"}; }
  static std::set<std::string> split(const std::string &n) { std::set<std::string> o; for (size_t p = 0; p <= n.size();) { size_t e = std::min(n.find(',', p), n.size()); o.insert(n.substr(p, e - p)); p = e + 1; } return o; }
  // everything in a folder but the schedules (and the scenarios)
  static std::map<std::string, std::string> stripped(const Case &c, int image, bool alt, bool scen) {
    std::map<std::string, int> oe; std::map<std::string, std::pair<u64, int>> re; std::map<std::string, std::string> o;
    auto keep = [&](std::string n) { bool a = !n.compare(0, 4, "alt/"); if (a != alt) return std::string(); if (a) n.erase(0, 4); return !n.compare(0, 6, "lines/") || (scen && n == "scenarios.capnpbin") ? std::string() : n; };
    for (auto &kv : build_image(c, image, &oe, &re)) if (auto n = keep(kv.first); n.size()) o[n] = kv.second;
    for (auto &kv : oe) if (auto n = keep(kv.first); n.size()) o[n + " open"] = std::to_string(kv.second);
    for (auto &kv : re) if (auto n = keep(kv.first); n.size()) o[n + " read"] = std::to_string(kv.second.first) + " " + std::to_string(kv.second.second);
    return o;
  }
};

// ---------------------------------------------------------------- C19
struct C19 : Prop {
  std::string id() const override { return "C19"; }
  Case gen(Rng &r) override {
    Case c; c.prop = "C19"; c.build = ctx.build; c.threads = r.chance(0.6) ? 1 : 3; c.cacheAll = r.chance(0.5); c.euclid = r.chance(0.75);
    GenOpt o = small_opt(r); o.p_revisit = 0.3; if (r.chance(0.5)) { o.nodes_lo = 5; o.nodes_hi = 12; o.lines_lo = 3; o.lines_hi = 8; o.trips_hi = 5; }
    auto d = std::make_shared<Dataset>(gen_dataset(r, o)); c.datasets.push_back(d); c.images.push_back({0, {}});
    if (r.chance(0.3)) for (auto &l : d->lines) if (r.chance(0.4)) { l.shortname = d->lines[0].shortname; l.longname = d->lines[0].longname; }   // lines that share their names
    if (r.chance(0.2)) for (auto &l : d->lines) l.shortname += " \"x\" é";
    ReqOpt q; q.p_alt = 0.5; q.w_route = 1; q.w_summary = 0; q.w_access = 0; q.p_invalid = 0.03;
    int n = 3 + r.below(6);
    for (int i = 0; i < n; i++) {
      std::string t = gen_request(r, *d, q); if (t.compare(0, 9, "/v2/route") != 0) continue;
      std::string u = "/v2/summary" + t.substr(9);
      if (r.chance(0.2) && t.find('?') != std::string::npos) { // the routes' longest walks allowed: more routes
        t += "&max_travel_time=-1&max_first_waiting_time=0"; u += "&max_travel_time=-1&max_first_waiting_time=0"; }
      Step a, b; Op x, y; x.target = t; y.target = u; 
      if (r.chance(0.5)) std::swap(x, y);
      if (c.threads > 1 && r.chance(0.5)) { a.ops.push_back(x); a.ops.push_back(y); c.steps.push_back(a); }
      else { a.ops.push_back(x); b.ops.push_back(y); c.steps.push_back(a); c.steps.push_back(b); }
    }
    c.pol = gen_policy(r, false, c.threads > 1);
    return c;
  }
  static Verdict relate(const json &ro, const json &su, const Dataset &d, const std::string &t) {
    auto bad = [&](const std::string &sig, const std::string &w) { return fail(sig, "GET " + t + ": " + w); };
    std::string rs = ro.value("status", ""), ss = su.value("status", "");
    if (rs == "query_error" || rs == "data_error") { if (ss != rs || ro.value("errorCode", "") != su.value("errorCode", "")) return bad("status", "route answers " + rs + " " + ro.value("errorCode", "") + ", summary " + ss + " " + su.value("errorCode", "")); return {}; }
    if (ss != "success") return bad("status", "route answers " + rs + ", summary " + ss);
    if (!su.contains("result") || !su["result"].contains("nbRoutes") || !su["result"].contains("lines") || !su["result"]["lines"].is_array()) return bad("shape", "summary without result.nbRoutes or result.lines: " + su.dump().substr(0, 300));
    long nb = su["result"]["nbRoutes"]; const json &sl = su["result"]["lines"];
    std::map<std::string, long> boards; std::map<std::string, json> ident; size_t nr = 0;
    if (rs == "success") {
      if (!ro.contains("result") || !ro["result"].contains("routes")) return bad("shape", "route answer without result.routes");
      nr = ro["result"]["routes"].size();
      if (nr == 0) return bad("shape", "route answers success without a route");
      for (auto &rt : ro["result"]["routes"]) for (auto &st : rt["steps"]) if (st.value("action", "") == "boarding") { std::string u = st["lineUuid"]; boards[u]++; ident[u] = st; }
    } else if (rs != "no_routing_found") return bad("status", "route status " + rs);
    ctx.n["pairs"]++; if (nr) ctx.n["pairs_with_routes"]++; if (nr > 1) ctx.n["pairs_with_alternatives"]++; if (boards.size() > 1) ctx.n["pairs_with_several_lines"]++;
    for (auto &b : boards) if (b.second > 1) { ctx.n["pairs_with_repeated_lines"]++; break; }
    if (nb != (long)nr) return bad("nbRoutes", "nbRoutes " + std::to_string(nb) + " but route returns " + std::to_string(nr));
    std::set<std::string> seen;
    for (auto &l : sl) {
      std::string u = l.value("lineUuid", "?"); if (!seen.insert(u).second) return bad("lines", "line " + u + " listed twice");
      if (!boards.count(u)) return bad("lines", "line " + u + " listed but not boarded");
      long n = l.value("alternativeCount", -1l); if (n != boards[u]) return bad("count", "line " + u + " counted " + std::to_string(n) + " but boarded " + std::to_string(boards[u]) + " times");
      const json &i = ident[u];
      for (const char *k : {"lineShortname", "lineLongname", "agencyUuid", "agencyAcronym", "agencyName"}) if (!l.contains(k) || !i.contains(k) || l[k] != i[k]) return bad(std::string("field ") + k, "line " + u + " field " + k + ": summary " + (l.contains(k) ? l[k].dump() : "absent") + ", route " + (i.contains(k) ? i[k].dump() : "absent"));
      // and the identifying fields are those of the data
      const DLine *dl = d.line(u); if (!dl) return bad("lines", "unknown line " + u);
      const DAgency *da = d.agency(dl->agency);
      if (l["lineShortname"] != dl->shortname || l["lineLongname"] != dl->longname || !da || l["agencyUuid"] != da->uuid || l["agencyAcronym"] != da->acronym || l["agencyName"] != da->name) return bad("identity", "line " + u + " is described as " + l.dump());
    }
    for (auto &b : boards) if (!seen.count(b.first)) return bad("lines", "boarded line " + b.first + " is not listed");
    return {};
  }
  Verdict check(const Case &c, const Run &r) override {
    if (auto v = run_failure(r); v.bad) return v;
    std::map<std::string, json> route, sum;
    for (size_t s = 0; s < c.steps.size(); s++) for (size_t k = 0; k < c.steps[s].ops.size(); k++) {
      const std::string &t = c.steps[s].ops[k].target; json b; std::string w;
      if (!well_formed(r.res[s][k], &b, &w)) return fail("malformed", "GET " + t + ": " + w);
      std::string q = t.substr(std::min(t.size(), t.find('?')));
      if (t.compare(0, 9, "/v2/route") == 0) route[q] = b; else if (t.compare(0, 11, "/v2/summary") == 0) sum[q] = b;
    }
    for (auto &x : route) if (sum.count(x.first)) if (auto v = relate(x.second, sum[x.first], *c.datasets[0], "/v2/summary" + x.first); v.bad) return v;
    return {};
  }
};

// ---------------------------------------------------------------- C20
struct C20 : Prop {
  std::string id() const override { return "C20"; }
  static RFault fault(Rng &r) {
    static const char *k[] = {"refuse", "timeout", "unreach", "resolve", "close0", "rst0", "trunc_head", "trunc_body", "status", "empty", "nonjson", "nodur", "nulldur", "nullrow", "emptyrow", "null", "fewer"};
    RFault f; f.kind = k[r.below(17)];
    if (f.kind == "refuse" || f.kind == "unreach" || f.kind == "resolve" || f.kind == "empty") f.a = r.below(2);
    if (f.kind == "trunc_head") { f.a = r.below(120); f.b = r.below(2); }
    if (f.kind == "trunc_body") { f.a = r.below(400); f.b = r.below(2); }
    if (f.kind == "status") { f.a = r.below(8); f.b = r.below(2); }
    if (f.kind == "nonjson") f.a = r.below(10);
    if (f.kind == "nodur") f.a = r.below(4);
    if (f.kind == "nulldur" || f.kind == "nullrow") f.a = r.below(3);
    if (f.kind == "emptyrow") f.a = 1 + r.below(2);
    if (f.kind == "null") { f.a = r.chance(0.3) ? ~0ull >> 4 : 1 + r.below(63); f.b = r.below(3); }
    if (f.kind == "fewer") { f.a = 1 + r.below(8); f.b = r.chance(0.3) ? 2 : 0; }
    return f;
  }
  Case gen(Rng &r) override {
    Case c; c.prop = "C20"; c.build = ctx.build; c.threads = r.chance(0.5) ? 1 : 2 + r.below(3); c.cacheAll = r.chance(0.5); c.euclid = false;
    GenOpt o = small_opt(r); o.nodes_lo = 4;
    auto d = std::make_shared<Dataset>(gen_dataset(r, o)); c.datasets.push_back(d); c.images.push_back({0, {}});
    ReqOpt q; q.p_alt = 0.2; q.w_summary = 0.3; q.w_access = 0.5;
    std::vector<std::string> pool; for (int i = 0; i < 3; i++) pool.push_back(gen_request(r, *d, q));
    int n = 3 + r.below(6);
    for (int i = 0; i < n; i++) {
      Step s; int m = c.threads > 1 ? 1 + r.below(4) : 1;
      for (int k = 0; k < m; k++) { Op x; x.target = r.chance(0.6) ? r.pick(pool) : gen_request(r, *d, q); if (r.chance(0.2)) { x.mode = "ka"; x.conn = (int)r.below(3); } x.delay = r.chance(0.5) ? 0 : r.below(300); s.ops.push_back(x); }
      double u = r.unit();
      if (u < 0.7 || i == 0) { int nf = 1 + r.below(2 * m); if (r.chance(0.15)) { RFault f = fault(r); f.n = -1; s.router.push_back(f); } else for (int k = 0; k < nf; k++) { RFault f = fault(r); f.n = (int)r.below(2 * m); s.router.push_back(f); } }
      else if (u < 0.85) { static const char *k[] = {"chunked", "slow", "keepalive"}; RFault f; f.kind = k[r.below(3)]; f.n = (int)r.below(2 * m); f.a = r.below(f.kind == "slow" && r.chance(0.2) ? 20000 : 900); s.router.push_back(f); }
      c.steps.push_back(s);
    }
    if (r.chance(0.25)) {   // an outage over many requests
      int m = 3 + r.below(ctx.tier == "thorough" ? 40 : 14); RFault f = fault(r); bool same = r.chance(0.5); std::string one = r.pick(pool); bool fixed = r.chance(0.3);
      for (int i = 0; i < m; i++) { Step s; Op x; x.target = fixed ? one : r.chance(0.8) ? r.pick(pool) : gen_request(r, *d, q); s.ops.push_back(x); if (!same) f = fault(r); f.n = -1; s.router.push_back(f); c.steps.push_back(s); }
      if (r.chance(0.3)) { Step s; Op x; x.target = r.pick(pool); x.delay = 1000 * (1 + r.below(400)); s.ops.push_back(x); c.steps.push_back(s); }   // the recovery may come later
    }
    // after the router has recovered
    for (auto &t : pool) { Step s; Op x; x.target = t; s.ops.push_back(x); c.steps.push_back(s); }
    c.pol = gen_policy(r, ctx.build == "tsan", c.threads > 1);
    return c;
  }
  static bool documented(const Op &o, const json &b, int status, std::string *w) {
    static const std::set<std::string> reasons = {"NO_ROUTING_FOUND", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION", "NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE"};
    static const std::set<std::string> codes = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_PLACE", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_PLACE", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
    std::string st = b.value("status", ""), ep = ep_of(o.target);
    if (st == "query_error") { if (status == 400 && codes.count(b.value("errorCode", ""))) return true; *w = "query_error with status " + std::to_string(status) + " and code " + b.value("errorCode", "(none)"); return false; }
    if (status != 200) { *w = "HTTP status " + std::to_string(status) + " with body status " + st; return false; }
    if (st == "no_routing_found") { if (reasons.count(b.value("reason", "")) && b.contains("query")) return true; *w = "no_routing_found with reason " + b.value("reason", "(none)"); return false; }
    if (st == "success" && ep.find("summary") != std::string::npos && b.contains("result") && b["result"].value("nbRoutes", -1) == 0 && b["result"]["lines"].empty()) return true;   // the summary's way to say: no route
    *w = "status " + st + " although the walking router failed: " + b.dump().substr(0, 200); return false;
  }
  Verdict check(const Case &c, const Run &r) override {
    if (auto v = run_failure(r); v.bad) return v;
    auto d = c.datasets[0];
    for (size_t s = 0; s < c.steps.size(); s++) {
      const Step &st = c.steps[s];
      std::multiset<std::string> good; for (auto &e : r.exchanges) if (e.step == (int)s && e.kind.empty()) good.insert(e.point);
      std::multimap<std::string, std::string> badk; for (auto &e : r.exchanges) if (e.step == (int)s && !e.kind.empty()) badk.emplace(e.point, e.kind);
      for (size_t k = 0; k < st.ops.size(); k++) {
        const Op &o = st.ops[k]; const OpResult &q = r.res[s][k];
        const Solo b = solo(d, false, o.target);
        if (!b.ok) { ctx.n["baseline_unusable"]++; continue; }
        json body; std::string w;
        if (!well_formed(q, &body, &w)) return fail("malformed " + ep_of(o.target), "step " + std::to_string(s) + " request " + std::to_string(k) + " GET " + o.target + ": " + w);
        // is it certain that every table this request needs was delivered to it?
        std::set<std::string> pts; std::multiset<std::string> need; for (auto &e : b.ex) { pts.insert(e.point); need.insert(e.point); }
        bool all_good = true; for (auto &p : pts) all_good &= good.count(p) >= need.count(p) && !badk.count(p);
        int sharers = 0; for (auto &z : st.ops) { const Solo bz = solo(d, false, z.target); for (auto &e : bz.ex) if (pts.count(e.point)) { sharers++; break; } }
        bool conn_faults = badk.count("") > 0;
        std::string diff; bool same = same_response(q, b.r, &diff);
        if (all_good && (sharers == 1 || !conn_faults)) {
          ctx.n["unaffected_compared"]++;
          if (!same) return fail("response-differs " + ep_of(o.target), "step " + std::to_string(s) + " request " + std::to_string(k) + " GET " + o.target + " (its own router exchanges were healthy): " + diff);
          continue;
        }
        ctx.n["affected_requests"]++;
        // the client tries a dropped connection again: a later healthy exchange makes up for the lost one
        bool every = true; for (auto &p : pts) every &= good.count(p) >= need.count(p);
        if (same && every) { ctx.n["affected_but_table_delivered"]++; continue; }
        if (same) { // identical to the healthy answer: right only if the lost table was not needed for it, or another request of the step lost it
          if (sharers > 1) continue;
          if (body.value("status", "") != "success") continue;
        }
        if (documented(o, body, q.status(), &w)) { ctx.n["affected_documented"]++; continue; }
        // entries missing from a table that did arrive: those stops are out of reach, the others are served
        bool partial_ok = false; bool partial = false;
        for (auto &f : st.router) if (f.kind == "fewer" || f.kind == "null" || f.kind == "nullrow" || f.kind == "emptyrow") partial = true;
        if (partial && body.value("status", "") == "success") {
          std::vector<std::vector<RFault>> alts; std::vector<std::string> op; for (auto &e : b.ex) op.push_back(e.point);
          for (auto &f : st.router) if (f.kind == "fewer" || f.kind == "null") for (int mask = 1; mask < (1 << (int)std::min<size_t>(2, op.size())); mask++) {
            std::vector<RFault> v; for (int i = 0; i < 2; i++) if (mask >> i & 1) { RFault g = f; g.kind = "far"; g.n = i; g.b = f.kind == "fewer" ? 1 : 0; v.push_back(g); } alts.push_back(v);
          }
          // two different partial tables, one for each end
          for (auto &f : st.router) for (auto &g : st.router) if ((f.kind == "fewer" || f.kind == "null") && (g.kind == "fewer" || g.kind == "null")) { RFault x = f, y = g; x.kind = y.kind = "far"; x.n = 0; y.n = 1; x.b = f.kind == "fewer"; y.b = g.kind == "fewer"; alts.push_back({x, y}); }
          for (auto &v : alts) { const Solo z = solo(d, false, o.target, v); if (z.ok && same_response(q, z.r, nullptr)) { partial_ok = true; break; } }
          if (partial_ok) { ctx.n["affected_partial_table"]++; continue; }
        }
        return fail("affected-answer " + ep_of(o.target), "step " + std::to_string(s) + " request " + std::to_string(k) + " GET " + o.target + " answered although its walking table was lost: " + w);
      }
    }
    return {};
  }
};

Prop *make_c16(); Prop *make_c17(); Prop *make_c18();
Prop *find_prop(const std::string &id) {
  if (id == "C13") return new C13(); if (id == "C14") return new C14(); if (id == "C15") return new C15(); if (id == "C19") return new C19(); if (id == "C20") return new C20();
  if (id == "C16") return make_c16(); if (id == "C17") return make_c17(); if (id == "C18") return make_c18();
  return nullptr;
}
} // namespace sim
