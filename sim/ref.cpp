#include "ref.hpp"
#include <algorithm>
#include <climits>
#include <cmath>
namespace sim {
static const long INF = 1l << 40;
static long num(const std::string &t, const char *k, long dflt) { std::string v = url_param(t, k); return v.empty() ? dflt : atol(v.c_str()); }
static long limit(long v) { return v <= 0 ? INF : v; }
Query Query::parse(const std::string &t) {
  Query q; q.target = t; q.ep = t.substr(0, t.find('?')); q.origin = url_param(t, "origin"); q.dest = url_param(t, "destination"); q.place = url_param(t, "place"); q.scenario = url_param(t, "scenario_id");
  q.time = num(t, "time_of_trip", 0); q.rev = num(t, "time_type", 0) == 1; std::string a = url_param(t, "alternatives"); q.alt = a == "true" || a == "1";
  q.min_wait = num(t, "min_waiting_time", 180); q.max_total = limit(num(t, "max_travel_time", 0)); q.max_access = limit(num(t, "max_access_travel_time", 1200)); q.max_egress = limit(num(t, "max_egress_travel_time", 1200)); q.max_transfer = limit(num(t, "max_transfer_travel_time", 1200)); q.max_first = num(t, "max_first_waiting_time", 1800);
  return q;
}
static bool in(const std::vector<std::string> &v, const std::string &x) { return std::find(v.begin(), v.end(), x) != v.end(); }

Ref::Ref(const Dataset &d_, const Query &q_) : d(d_), q(q_) {
  sc = d.scenario(q.scenario);
  if (sc) for (auto &l : d.lines) for (auto &s : l.schedules) {
    if (!in(sc->services, s.service)) continue;
    if (!sc->onlyLines.empty() && !in(sc->onlyLines, l.uuid)) continue; if (in(sc->exceptLines, l.uuid)) continue;
    if (!sc->onlyAgencies.empty() && !in(sc->onlyAgencies, l.agency)) continue; if (in(sc->exceptAgencies, l.agency)) continue;
    if (!sc->onlyModes.empty() && !in(sc->onlyModes, l.mode)) continue; if (in(sc->exceptModes, l.mode)) continue;
    for (auto &p : s.periods) for (auto &t : p.trips) trips.push_back({&t, &l, d.path(t.path), s.service});
  }
  for (auto &t : trips) by_trip[t.t->uuid] = &t;
  for (auto &t : trips) { uniform &= t.l->mode != "transferable"; for (size_t i = 0; i + 1 < t.t->dep.size(); i++) zero |= t.t->dep[i] >= t.t->arr[i + 1]; }
  capped = !q.rev && q.max_first > 0;
  // A hop without travel time is no obstacle as long as every change of vehicle takes time
  bool ordered = !zero || (uniform && q.min_wait > 0);
  best_arr = ordered && !capped; best_dep = ordered && !capped && uniform;
  bool access = q.ep.find("accessibility") != std::string::npos;
  for (auto &n : d.nodes) {
    std::string c = coord_str(n.lon, n.lat);
    if (!access || !q.rev) { int t = walk_time(access ? q.place : q.origin, c); if (t <= q.max_access) acc[n.uuid] = t; }
    if (!access || q.rev) { int t = walk_time(access ? q.place : q.dest, c); if (t <= q.max_egress) egr[n.uuid] = t; }
  }
}
// earliest time at which one can stand at each stop, and earliest alighting there
std::map<std::string, long> Ref::earliest(std::map<std::string, long> *alight) const {
  std::map<std::string, long> ready; for (auto &a : acc) ready[a.first] = q.time + a.second;
  for (bool again = true; again;) {
    again = false;
    for (auto &x : trips) {
      const auto &n = x.p->nodes; bool on = false;
      for (size_t i = 0; i < n.size(); i++) {
        if (on && x.t->unboard[i]) {
          long a = x.t->arr[i]; auto it = alight->find(n[i]); if (it == alight->end() || it->second > a) { (*alight)[n[i]] = a; again = true; }
          for (auto &f : d.node(n[i])->foot) if (f.time <= q.max_transfer) { auto r = ready.find(f.to); if (r == ready.end() || r->second > a + f.time) { ready[f.to] = a + f.time; again = true; } }
        }
        if (!on && x.t->board[i] && i + 1 < n.size()) { auto r = ready.find(n[i]); if (r != ready.end() && r->second <= x.t->dep[i] - wait(*x.l)) on = true; }
      }
    }
  }
  return ready;
}
// latest time at which one may arrive at each stop and still, after the minimum waiting, board a journey that reaches the end by `arrival`
std::map<std::string, long> Ref::latest(long arrival) const {
  std::map<std::string, long> R, X; for (auto &e : egr) X[e.first] = arrival - e.second;
  for (bool again = true; again;) {
    again = false;
    for (auto &x : trips) {
      const auto &n = x.p->nodes; bool off = false;
      for (size_t i = n.size(); i-- > 0;) {
        if (off && x.t->board[i]) { long r = x.t->dep[i] - wait(*x.l); auto it = R.find(n[i]); if (it == R.end() || it->second < r) { R[n[i]] = r; again = true; } }
        if (!off && x.t->unboard[i] && i > 0) { auto it = X.find(n[i]); if (it != X.end() && x.t->arr[i] <= it->second) off = true; }
      }
    }
    for (auto &m : d.nodes) for (auto &f : m.foot) if (f.time <= q.max_transfer) { auto r = R.find(f.to); if (r == R.end()) continue; auto it = X.find(m.uuid); if (it == X.end() || it->second < r->second - f.time) { X[m.uuid] = r->second - f.time; again = true; } }
  }
  return R;
}
void Ref::solve() {
  bool access = q.ep.find("accessibility") != std::string::npos;
  if (!sc) { status = "query_error"; return; }
  status = "no_routing_found";
  if (access) { if ((q.rev ? egr : acc).empty()) { reasons = {"NO_ACCESS_AT_PLACE"}; return; } }
  else {
    if (acc.empty() && egr.empty()) { reasons = {"NO_ACCESS_AT_ORIGIN_AND_DESTINATION"}; return; }
    if (acc.empty()) { reasons = {"NO_ACCESS_AT_ORIGIN"}; return; }
    if (egr.empty()) { reasons = {"NO_ACCESS_AT_DESTINATION"}; return; }
  }
  bool strict = false, loose = false;
  for (auto &x : trips) for (size_t i = 0; i + 1 < x.p->nodes.size(); i++) {
    if (!q.rev) { auto a = acc.find(x.p->nodes[i]); if (a == acc.end() || q.time + a->second > x.t->dep[i] - wait(*x.l) || x.t->dep[i] - q.time > q.max_total) continue; loose = true; strict |= x.t->board[i]; }
    else { auto e = egr.find(x.p->nodes[i + 1]); if (e == egr.end() || x.t->arr[i + 1] > q.time - e->second || q.time - x.t->arr[i + 1] > q.max_total) continue; loose = true; strict |= x.t->unboard[i + 1]; }
  }
  std::string none = access ? "NO_SERVICE_AT_PLACE" : q.rev ? "NO_SERVICE_TO_DESTINATION" : "NO_SERVICE_FROM_ORIGIN";
  if (!strict || capped) reasons.insert(none);
  if (loose) reasons.insert("NO_ROUTING_FOUND");
  if (access) {
    if (!q.rev) { std::map<std::string, long> al; earliest(&al); for (auto &a : al) if (a.second - q.time <= q.max_total) nodes[a.first] = a.second; }
    else { auto R = latest(q.time); for (auto &r : R) if (q.time - r.second <= q.max_total) nodes[r.first] = r.second; }
    found = strict; if (strict) status = "success"; else if (loose) status = "either";
    return;
  }
  if (!q.rev) {
    std::map<std::string, long> al; earliest(&al); long best = INF;
    for (auto &a : al) { auto e = egr.find(a.first); if (e != egr.end()) best = std::min(best, a.second + e->second); }
    if (best >= INF || best - q.time > q.max_total) return;
    found = true; arrival = best; auto R = latest(best); departure = -INF;
    for (auto &r : R) { auto a = acc.find(r.first); if (a != acc.end()) departure = std::max(departure, r.second - a->second); }
  } else {
    auto R = latest(q.time); long best = -INF;
    for (auto &r : R) { auto a = acc.find(r.first); if (a != acc.end()) best = std::max(best, r.second - a->second); }
    if (best < 0 || q.time - best > q.max_total) return;
    found = true; departure = best; arrival = q.time;
  }
  status = "success";
}

static std::string S_(long v) { return std::to_string(v); }
static std::string mode_name(const std::string &m) {
  static const std::map<std::string, std::string> n = {{"bus", "Bus"}, {"rail", "Rail"}, {"highSpeedRail", "High speed rail"}, {"metro", "Subway/Metro"}, {"monorail", "Monorail"}, {"tram", "Tram/LRT"}, {"tramTrain", "Tram Train"}, {"water", "Ferry/Boat"}, {"gondola", "Gondola/Aerial tram"}, {"funicular", "Funicular"}, {"taxi", "Taxi/Cab/Minivan"}, {"cableCar", "Cable car"}, {"horse", "Horse carriage"}, {"other", "Other"}, {"transferable", "Transferable"}};
  auto it = n.find(m); return it == n.end() ? "?" : it->second;
}
Verdict Ref::check_itinerary(const json &r) const {
  auto bad = [&](const std::string &sig, const std::string &w) { return fail("itinerary " + sig, "GET " + q.target + ": " + w + " in " + r.dump()); };
  try {
    if (!r["steps"].is_array() || r["steps"].size() < 4) return bad("steps", "too few steps");
    const json &st = r["steps"]; size_t n = st.size();
    long access = 0, egress = 0, transfer = 0, waiting = 0, wait1 = 0, veh = 0, vehd = 0, accd = 0, egrd = 0, trd = 0; int rides = 0; bool nodist = false, walked = false;
    long now = 0; const T *cur = nullptr; size_t from = 0; std::string here; // stop where the traveller stands
    std::set<size_t> board_at; bool aboard = false; (void)from;
    for (size_t i = 0; i < n; i++) {
      const json &s = st[i]; std::string a = s["action"];
      if (a == "walking") {
        std::string ty = s["type"]; long t = s["travelTime"], ds = s["distance"], de = s["departureTime"], ar = s["arrivalTime"];
        if (aboard) return bad("order", "walking while aboard");
        if (de + t != ar) return bad("walk-clock", "walk " + S_(i) + " does not last its duration");
        if (ty == "access") {
          if (i != 0) return bad("order", "access walk in the middle");
          std::string to = st[1]["nodeUuid"]; auto w = acc.find(to); const DNode *nd = d.node(to);
          if (!nd || w == acc.end()) return bad("access", "access to a stop that the router does not offer");
          if (t != w->second) return bad("access-time", "access walk of " + S_(t) + " s instead of " + S_(w->second));
          int wd = walk_dist(q.origin, coord_str(nd->lon, nd->lat)); if (ds != wd) return bad("access-distance", "access distance " + S_(ds) + " instead of " + S_(wd));
          if (!q.rev && de < q.time) return bad("early", "leaves before the requested time"); if (de < 0) return bad("early", "leaves before 0:00");
          access = t; accd = ds; here = to; now = ar; if (r["departureTime"].get<long>() != de) return bad("clock", "route departure is not that of its first step");
        } else if (ty == "transfer") {
          if (i == 0 || i + 1 >= n || de != now) return bad("clock", "transfer walk starts at " + S_(de) + " instead of " + S_(now));
          std::string to = st[i + 1]["nodeUuid"]; const DNode *nd = d.node(here); bool ok = false; long wt = -1, wd = -1;
          for (auto &f : nd->foot) if (f.to == to) { wt = f.time; wd = f.dist; ok |= f.time == t && f.dist == ds; }
          if (!ok) return bad("transfer", "transfer walk of " + S_(t) + " s, " + S_(ds) + " m instead of " + S_(wt) + " s, " + S_(wd) + " m");
          if (t > q.max_transfer) return bad("transfer-limit", "transfer walk beyond the maximum");
          transfer += t; trd += ds; here = to; now = ar;
        } else if (ty == "egress") {
          if (i + 1 != n || de != now) return bad("clock", "egress walk out of place or time");
          const DNode *nd = d.node(here); auto w = egr.find(here); if (w == egr.end()) return bad("egress", "egress from a stop that the router does not offer");
          if (t != w->second) return bad("egress-time", "egress walk of " + S_(t) + " s instead of " + S_(w->second));
          int wd = walk_dist(q.dest, coord_str(nd->lon, nd->lat)); if (ds != wd) return bad("egress-distance", "egress distance " + S_(ds) + " instead of " + S_(wd));
          egress = t; egrd = ds; now = ar; if (r["arrivalTime"].get<long>() != ar) return bad("clock", "route arrival is not that of its last step");
        } else return bad("order", "unknown walk");
        if (ty != "egress") {
          auto nx = i + 1 < n && st[i + 1].contains("tripUuid") ? by_trip.find(st[i + 1]["tripUuid"].get<std::string>()) : by_trip.end();
          if (nx == by_trip.end()) return bad("order", "a walk that leads to no boarding");
          if (s["readyToBoardAt"].get<long>() != ar + wait(*nx->second->l)) return bad("ready", "readyToBoardAt is not arrival plus minimum waiting");
        }
      } else {
        bool b = a == "boarding"; if (!b && a != "unboarding") return bad("order", "unknown step");
        if (b == aboard || i == 0) return bad("order", "boarding and alighting do not alternate");
        std::string tu = s["tripUuid"], nu = s["nodeUuid"]; auto it = by_trip.find(tu);
        if (it == by_trip.end()) return bad("trip", "trip " + tu + " is not one the scenario admits");
        const T *x = it->second; const DLine &l = *x->l; const DAgency *ag = d.agency(l.agency); const DNode *nd = d.node(nu); if (!nd) return bad("stop", "unknown stop");
        auto eq = [&](const char *k, const std::string &v) { return s.contains(k) && s[k] == v; };
        struct KV { const char *k; std::string v; } kv[] = {{"lineUuid", l.uuid}, {"lineShortname", l.shortname}, {"lineLongname", l.longname}, {"agencyUuid", ag->uuid}, {"agencyAcronym", ag->acronym}, {"agencyName", ag->name}, {"pathUuid", x->p->uuid}, {"mode", l.mode}, {"modeName", mode_name(l.mode)}, {"nodeName", nd->name}, {"nodeCode", nd->code}};
        for (auto &e : kv) if (!eq(e.k, e.v)) return bad(std::string("field ") + e.k, std::string(e.k) + " is not " + e.v + " at step " + S_(i));
        if (std::fabs(s["nodeCoordinates"][0].get<double>() - nd->lon / 1e6) > 2e-6 || std::fabs(s["nodeCoordinates"][1].get<double>() - nd->lat / 1e6) > 2e-6) return bad("coordinates", "coordinates of the stop at step " + S_(i));
        long seq = s["stopSequenceInTrip"], leg = s["legSequenceInTrip"]; if (seq < 1 || seq > (long)x->p->nodes.size()) return bad("sequence", "stop sequence out of the trip");
        size_t k = seq - 1; if (x->p->nodes[k] != nu) return bad("sequence", "stop " + S_(seq) + " of the trip is another stop");
        if (b) {
          if (leg != seq) return bad("sequence", "leg sequence");
          long de = s["departureTime"], w = s["waitingTime"];
          if (nu != here) return bad("stop", "boards at a stop where the traveller is not");
          if (x->t->dep[k] != de) return bad("board-time", "boards at " + S_(de) + ", scheduled " + S_(x->t->dep[k]));
          if (!x->t->board[k]) return bad("board-flag", "boards where boarding is not permitted");
          if (de < now + wait(l)) return bad("min-waiting", "boards " + S_(de - now) + " s after arriving at the stop");
          if (w != de - now) return bad("waiting", "waitingTime " + S_(w) + " instead of " + S_(de - now));
          if (!rides) { wait1 = w; if (!q.rev && q.max_first > 0 && q.max_first >= wait(l) && de - q.time - access > q.max_first) return bad("first-waiting", "waits longer at the first stop than allowed"); }
          waiting += w; rides++; walked |= l.mode == "transferable"; cur = x; from = k; now = de; aboard = true;
        } else {
          if (leg != seq - 1) return bad("sequence", "leg sequence at alighting");
          if (x != cur || k <= from) return bad("ride", "alights another trip or not after boarding");
          long ar = s["arrivalTime"]; if (x->t->arr[k] != ar) return bad("alight-time", "alights at " + S_(ar) + ", scheduled " + S_(x->t->arr[k]));
          if (!x->t->unboard[k]) return bad("alight-flag", "alights where alighting is not permitted");
          if (s["inVehicleTime"].get<long>() != ar - now) return bad("in-vehicle", "inVehicleTime");
          long dd = s["inVehicleDistance"], want = 0; if (x->p->has_dist) { for (size_t m = from; m < k; m++) want += x->p->dist[m]; if (dd != want) return bad("in-vehicle-distance", "inVehicleDistance " + S_(dd) + " instead of " + S_(want)); } else { nodist = true; if (dd > 0) return bad("in-vehicle-distance", "distance on a path without distances"); }
          veh += ar - now; vehd += dd; now = ar; here = nu; aboard = false;
        }
      }
    }
    if (aboard || st[0]["action"] != "walking" || st[0]["type"] != "access" || st[n - 1]["action"] != "walking" || st[n - 1]["type"] != "egress") return bad("order", "does not start with an access and end with an egress walk");
    long dep = r["departureTime"], arr = r["arrivalTime"];
    if (q.rev && arr > q.time) return bad("late", "arrives after the requested time");
    if ((q.rev ? q.time - dep : arr - q.time) > q.max_total) return bad("max-travel-time", "longer than the maximum");
    struct KN { const char *k; long v; } tot[] = {{"totalTravelTime", arr - dep}, {"accessTravelTime", access}, {"egressTravelTime", egress}, {"transferWalkingTime", transfer}, {"totalWaitingTime", waiting}, {"firstWaitingTime", wait1}, {"transferWaitingTime", waiting - wait1}, {"totalInVehicleTime", veh}, {"totalNonTransitTravelTime", access + egress + transfer}, {"numberOfBoardings", rides}, {"numberOfTransfers", rides - 1}, {"accessDistance", accd}, {"egressDistance", egrd}};
    // rides of "transferable" lines are booked as walks where the path has distances: the counts and the walking totals are not claimed for them
    for (auto &t : tot) if (walked && (std::string(t.k) == "transferWalkingTime" || std::string(t.k) == "totalNonTransitTravelTime" || !std::string(t.k).compare(0, 8, "numberOf"))) continue; else if (r[t.k].get<long>() != t.v) return bad(std::string("total ") + t.k, std::string(t.k) + " is " + r[t.k].dump() + " instead of " + S_(t.v));
    if (access + egress + transfer + veh + waiting != arr - dep) return bad("total", "the parts do not add up");
    if (!nodist && !walked) { struct KN td[] = {{"totalInVehicleDistance", vehd}, {"totalDistance", vehd + accd + egrd + trd}, {"totalNonTransitDistance", accd + egrd + trd}, {"transferWalkingDistance", trd}}; for (auto &t : td) if (r[t.k].get<long>() != t.v) return bad(std::string("total ") + t.k, std::string(t.k) + " is " + r[t.k].dump() + " instead of " + S_(t.v)); }
  } catch (std::exception &e) { return bad("shape", std::string("unexpected shape: ") + e.what()); }
  return {};
}

Verdict Ref::check_route_answer(const json &b) const {
  auto bad = [&](const std::string &sig, const std::string &w) { return fail(sig, "GET " + q.target + ": " + w); };
  std::string st = b.value("status", "");
  if (status == "success" && st == "no_routing_found" && !(q.rev ? best_dep : best_arr)) {
    std::string re = b.value("reason", ""); if (re.compare(0, 10, "NO_ACCESS_") == 0) return bad("reason", "reason " + re + " although the router offers stops at both ends");
    if (!reasons.count(re)) return bad("reason", "reason " + re + " instead of " + *reasons.begin());
    return {};
  }
  if (status == "success" && st != "success") return bad("status", "answers " + st + " " + b.value("reason", "") + " although a journey exists, leaving " + S_(departure) + " arriving " + S_(arrival));
  if (status != "success") {
    if (st == "success") return bad("status", "answers a route although none is admissible: " + b["result"].dump().substr(0, 1500));
    if (st != status) return bad("status", "answers " + st + " instead of " + status);
    if (st == "no_routing_found" && !reasons.count(b.value("reason", ""))) return bad("reason", "reason " + b.value("reason", "") + " instead of " + *reasons.begin());
    return {};
  }
  const json &rs = b["result"]["routes"]; if (!rs.is_array() || rs.empty()) return bad("shape", "success without routes");
  for (auto &r : rs) if (auto v = check_itinerary(r); v.bad) return v;
  long dep = rs[0]["departureTime"], arr = rs[0]["arrivalTime"];
  if (!q.rev && arr < arrival) return bad("arrival", "arrives at " + S_(arr) + ", earliest possible is " + S_(arrival));
  if (q.rev && dep > departure) return bad("departure", "leaves at " + S_(dep) + ", latest possible is " + S_(departure));
  if (!q.rev && best_arr && arr != arrival) return bad("arrival", "arrives at " + S_(arr) + ", earliest possible is " + S_(arrival));
  if (!q.rev && arr == arrival && dep > departure) return bad("departure", "leaves at " + S_(dep) + ", latest possible is " + S_(departure));
  if (best_dep && dep != departure) return bad("departure", "leaves at " + S_(dep) + ", latest possible is " + S_(departure));
  if (!q.alt && rs.size() != 1) return bad("shape", "several routes without alternatives");
  if (rs.size() > 50) return bad("alternatives", "more than 50 routes");
  std::set<std::multiset<std::string>> lines;
  for (auto &r : rs) {
    std::multiset<std::string> m; for (auto &s : r["steps"]) if (s["action"] == "boarding") m.insert(s["lineUuid"].get<std::string>());
    if (!lines.insert(m).second) return bad("alternatives", "two routes board the same lines");
    if (!q.rev && best_arr && r["arrivalTime"].get<long>() < arr) return bad("alternatives", "an alternative arrives before the first route");
    if (q.rev && best_dep && r["departureTime"].get<long>() > dep) return bad("alternatives", "an alternative leaves after the first route");
  }
  return {};
}
Verdict Ref::check_access_answer(const json &b) const {
  auto bad = [&](const std::string &sig, const std::string &w) { return fail(sig, "GET " + q.target + ": " + w); };
  std::string st = b.value("status", ""); bool best = q.rev ? best_dep : best_arr;
  if (st == "success") {
    if (status == "no_routing_found") return bad("status", "answers success although " + *reasons.begin());
    const json &r = b["result"]; if (!r.contains("nodes") || !r["nodes"].is_array()) return bad("shape", "no nodes");
    if (r.value("totalNodeCount", -1l) != (long)d.nodes.size()) return bad("totalNodeCount", "totalNodeCount " + r["totalNodeCount"].dump() + " instead of " + S_(d.nodes.size()));
    std::set<std::string> seen;
    for (auto &n : r["nodes"]) {
      std::string u = n.value("nodeUuid", ""); const DNode *nd = d.node(u); if (!nd) return bad("stop", "unknown stop " + u);
      if (!seen.insert(u).second) return bad("stop", "stop " + u + " twice");
      auto it = nodes.find(u); long t = n.value("nodeTime", -1l); if (it == nodes.end()) return bad("extra-stop", "stop " + nd->code + " listed at " + S_(t) + " but not reachable");
      if (best ? t != it->second : q.rev ? t > it->second : t < it->second) return bad("node-time", "stop " + nd->code + " at " + S_(t) + " instead of " + S_(it->second));
      if (n.value("totalTravelTime", -1l) != (q.rev ? q.time - t : t - q.time)) return bad("total", "totalTravelTime of stop " + nd->code);
      if (!n.contains("numberOfTransfers") || !n["numberOfTransfers"].is_number_integer() || n["numberOfTransfers"].get<long>() < (uniform ? 0 : -1)) return bad("transfers", "numberOfTransfers of stop " + nd->code);
      if (n.value("nodeName", "") != nd->name || n.value("nodeCode", "") != nd->code) return bad("name", "name or code of stop " + u);
      if (std::fabs(n["nodeCoordinates"][0].get<double>() - nd->lon / 1e6) > 2e-6 || std::fabs(n["nodeCoordinates"][1].get<double>() - nd->lat / 1e6) > 2e-6) return bad("coordinates", "coordinates of stop " + u);
    }
    if (best) for (auto &n : nodes) if (!seen.count(n.first)) return bad("missing-stop", "stop " + d.node(n.first)->code + " (" + S_(n.second) + ") not listed");
    return {};
  }
  if (!best && st == "no_routing_found" && status == "success") return reasons.count(b.value("reason", "")) || b.value("reason", "") == "NO_ROUTING_FOUND" ? Verdict{} : bad("reason", "reason " + b.value("reason", ""));
  if (status == "success" || (status != st && !(status == "either" && st == "no_routing_found"))) return bad("status", "answers " + st + " " + b.value("reason", "") + " instead of " + status + " with " + S_(nodes.size()) + " stops");
  if (st == "no_routing_found" && !reasons.count(b.value("reason", ""))) return bad("reason", "reason " + b.value("reason", "") + " instead of " + *reasons.begin());
  return {};
}
} // namespace sim
