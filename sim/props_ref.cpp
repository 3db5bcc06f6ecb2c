// C16: what the server answers from cache files versus the reference evaluation of the dataset those files encode.
#include "ref.hpp"
namespace sim {
struct C16 : Prop {
  std::string id() const override { return "C16"; }
  Case gen(Rng &r) override {
    Case c; c.prop = "C16"; c.build = ctx.build; c.threads = r.chance(0.85) ? 1 : 3; c.cacheAll = r.chance(0.5); c.euclid = false; c.debug = r.chance(0.03);
    GenOpt o; o.p_zero_hop = 0; o.p_transferable = 0; o.nodes_lo = 3; o.nodes_hi = 8; o.lines_hi = 5; o.trips_hi = 4; o.scen_lo = 2; o.scen_hi = 5; o.p_restrict = 0.8;
    if (r.chance(0.35)) { o.nodes_lo = 6; o.nodes_hi = 14; o.lines_lo = 3; o.lines_hi = 9; o.trips_hi = 8; }
    if (r.chance(0.3)) { o.nodes_lo = 5; o.nodes_hi = 9; o.lines_lo = 5; o.lines_hi = 12; o.trips_hi = 5; o.p_revisit = r.chance(0.5) ? 0.3 : 0; }   // many lines over few stops: journeys the optimiser rewrites
    if (r.chance(0.2)) o.late = true; if (r.chance(0.3)) o.p_noflag = 0.3; if (r.chance(0.3)) o.p_revisit = 0.5;
    if (r.chance(0.2)) o.p_zero_hop = r.chance(0.5) ? 0.05 : 0.4; if (r.chance(0.12)) o.p_transferable = r.chance(0.5) ? 0.15 : 0.5;
    bool large = r.chance(0.02); if (large) o.large(200 + r.below(120), 10 + r.below(60), r.chance(0.5) ? 20 + r.below(60) : 250 + r.below(60));
    c.datasets.push_back(std::make_shared<Dataset>(gen_dataset(r, o))); c.images.push_back({0, {}});
    ReqOpt q; q.exact = !r.chance(0.15); q.p_alt = 0.25; q.w_summary = 0; q.w_access = 0.8;
    auto ask = [&](const Dataset &d) { int n = large ? 4 : 5 + r.below(8); for (int i = 0; i < n; i++) { Step s; Op x; x.target = gen_request(r, d, q); if (r.chance(0.2)) { x.mode = "ka"; x.conn = 0; } s.ops.push_back(x); c.steps.push_back(s); } };
    ask(*c.datasets[0]);
    if (r.chance(0.3)) {   // the same loaders, run a second time in one process
      auto nx = std::make_shared<Dataset>(r.chance(0.5) ? gen_dataset(r, o) : evolve_dataset(r, *c.datasets[0], o, false, true));
      { c.datasets.push_back(nx); c.images.push_back({1, {}}); Step s; s.image = 1; Op x; x.target = "/updateCache?names=all"; x.expect = "skip"; s.ops.push_back(x); c.steps.push_back(s); ask(*nx); }
    }
    c.pol = gen_policy(r, false, false); if (r.chance(0.7)) { c.pol.p_short = r.chance(0.5) ? 0.3 : 0.9; c.pol.p_eintr = r.chance(0.5) ? 0.2 : 0; }
    return c;
  }
  Verdict check(const Case &c, const Run &r) override {
    if (auto v = run_failure(r); v.bad) return v;
    if (c.euclid) return {};   // the reference walks by the router's table
    int img = 0;
    for (size_t s = 0; s < c.steps.size(); s++) {
      if (c.steps[s].image >= 0) img = c.steps[s].image;
      const Dataset &d = *c.datasets[c.images[img].dataset];
      for (size_t k = 0; k < c.steps[s].ops.size(); k++) {
        const std::string &t = c.steps[s].ops[k].target; json b; std::string w;
        if (!well_formed(r.res[s][k], &b, &w)) return fail("malformed", "GET " + t + ": " + w);
        if (t.compare(0, 12, "/updateCache") == 0) continue;
        if (!d.trip_count() || d.scenarios.empty() || d.services.empty() || d.agencies.empty()) continue;
        bool whole = !url_param(t, "scenario_id").empty() && !url_param(t, "time_of_trip").empty();   // the minimiser may drop any parameter
        if (t.find("accessibility") != std::string::npos) whole &= !url_param(t, "place").empty(); else whole &= !url_param(t, "origin").empty() && !url_param(t, "destination").empty();
        if (!whole) continue;
        Ref f(d, Query::parse(t)); f.solve(); ctx.n["answers_checked"]++;
        bool acc = f.q.ep.find("accessibility") != std::string::npos;
        Verdict v = acc ? f.check_access_answer(b) : f.check_route_answer(b);
        if (v.bad) { v.sig += f.q.rev ? " reverse" : " forward"; if (acc) v.sig += " accessibility"; return v; }
        if (b.value("status", "") == "success") { ctx.n[acc ? "maps_checked" : "itineraries_checked"] += acc ? 1 : b["result"]["routes"].size(); if (acc) ctx.n["stop_times_checked"] += f.nodes.size(); } else ctx.n["reason " + b.value("reason", b.value("errorCode", "?"))]++;
      }
    }
    return {};
  }
};
Prop *make_c16() { return new C16(); }
} // namespace sim
