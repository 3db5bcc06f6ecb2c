#include "data.hpp"
#include "capnp/agencyCollection.capnp.h"
#include "capnp/dataSourceCollection.capnp.h"
#include "capnp/line.capnp.h"
#include "capnp/lineCollection.capnp.h"
#include "capnp/node.capnp.h"
#include "capnp/nodeCollection.capnp.h"
#include "capnp/odTripCollection.capnp.h"
#include "capnp/pathCollection.capnp.h"
#include "capnp/personCollection.capnp.h"
#include "capnp/scenarioCollection.capnp.h"
#include "capnp/serviceCollection.capnp.h"
#include <algorithm>
#include <capnp/message.h>
#include <capnp/serialize-packed.h>
#include <cstring>
#include <cmath>
#include <kj/io.h>
#include <set>

namespace sim {

static std::string pack(capnp::MessageBuilder &b) {
  kj::VectorOutputStream os; capnp::writePackedMessage(os, b);
  auto a = os.getArray(); return std::string((const char *)a.begin(), a.size());
}
bool unpack(const std::string &p, std::string *words, size_t *hdr) {
  try {
    kj::ArrayInputStream in(kj::arrayPtr((const kj::byte *)p.data(), p.size())); capnp::_::PackedInputStream ps(in);
    words->clear(); u32 n; char b[8]; ps.read(b, 8); words->append(b, 8); memcpy(&n, b, 4); u32 segs = n + 1; size_t total; u32 s0; memcpy(&s0, b + 4, 4); total = s0;
    if (segs > 64) return false;
    size_t rest = (segs / 2) * 8; std::string h(rest, 0); if (rest) ps.read(h.data(), rest); *words += h;
    for (u32 i = 1; i < segs; i++) { u32 k; memcpy(&k, &(*words)[4 + 4 * i], 4); total += k; }
    if (total > (1u << 20)) return false;
    std::string body(total * 8, 0); if (total) ps.read(body.data(), total * 8); *hdr = words->size() / 8; *words += body; return true;
  } catch (...) { return false; }
}
std::string repack(const std::string &w) {
  kj::VectorOutputStream os; { kj::BufferedOutputStreamWrapper bo(os); { capnp::_::PackedOutputStream ps(bo); ps.write(w.data(), w.size()); } bo.flush(); }
  auto a = os.getArray(); return std::string((const char *)a.begin(), a.size());
}
template <class L> static void fill(L l, const std::vector<std::string> &v) { for (size_t i = 0; i < v.size(); i++) l.set(i, v[i]); }
template <class L> static void filli(L l, const std::vector<int> &v) { for (size_t i = 0; i < v.size(); i++) l.set(i, v[i]); }

std::map<std::string, std::string> serialise(const Dataset &d) {
  std::map<std::string, std::string> f;
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<nodeCollection::NodeCollection>().initNodes(d.nodes.size());
    for (size_t i = 0; i < d.nodes.size(); i++) { auto n = l[i]; auto &x = d.nodes[i]; n.setUuid(x.uuid); n.setId(x.id); n.setCode(x.code); n.setName(x.name); n.setInternalId(x.iid); n.setLatitude(x.lat); n.setLongitude(x.lon); n.setIsEnabled(1); }
    f["nodes.capnpbin"] = pack(m); }
  for (auto &x : d.nodes) {
    capnp::MallocMessageBuilder m; auto n = m.initRoot<node::Node>(); n.setUuid(x.uuid); n.setId(x.id); n.setCode(x.code); n.setName(x.name); n.setInternalId(x.iid); n.setLatitude(x.lat); n.setLongitude(x.lon); n.setIsEnabled(1);
    auto u = n.initTransferableNodesUuids(x.foot.size()); size_t nt = x.foot.size() - std::min<size_t>(x.cut_t, x.foot.size()), nd = x.foot.size() - std::min<size_t>(x.cut_d, x.foot.size());
    auto t = n.initTransferableNodesTravelTimes(nt); auto s = n.initTransferableNodesDistances(nd);
    for (size_t i = 0; i < x.foot.size(); i++) { u.set(i, x.foot[i].to); if (i < nt) t.set(i, x.foot[i].time); if (i < nd) s.set(i, x.foot[i].dist); }
    f["nodes/node_" + x.uuid + ".capnpbin"] = pack(m);
  }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<agencyCollection::AgencyCollection>().initAgencies(d.agencies.size());
    for (size_t i = 0; i < d.agencies.size(); i++) { l[i].setUuid(d.agencies[i].uuid); l[i].setAcronym(d.agencies[i].acronym); l[i].setName(d.agencies[i].name); l[i].setIsEnabled(1); }
    f["agencies.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<serviceCollection::ServiceCollection>().initServices(d.services.size());
    for (size_t i = 0; i < d.services.size(); i++) { auto s = l[i]; s.setUuid(d.services[i].uuid); s.setName(d.services[i].name); s.setStartDate(d.services[i].start); s.setEndDate("2030-12-31"); s.setMonday(1); s.setTuesday(1); s.setWednesday(1); s.setThursday(1); s.setFriday(1); s.setIsEnabled(1); auto od = s.initOnlyDates(1); od.set(0, d.services[i].only); auto xd = s.initExceptDates(1); xd.set(0, "2024-12-25"); }
    f["services.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<lineCollection::LineCollection>().initLines(d.lines.size());
    for (size_t i = 0; i < d.lines.size(); i++) { auto n = l[i]; auto &x = d.lines[i]; n.setUuid(x.uuid); n.setAgencyUuid(x.agency); n.setMode(x.mode); n.setShortname(x.shortname); n.setLongname(x.longname); n.setInternalId(x.iid); n.setAllowSameLineTransfers(x.same); n.setIsEnabled(1); }
    f["lines.capnpbin"] = pack(m); }
  for (auto &x : d.lines) {
    capnp::MallocMessageBuilder m; auto n = m.initRoot<line::Line>(); n.setUuid(x.uuid); n.setAgencyUuid(x.agency); n.setMode(x.mode); n.setShortname(x.shortname); n.setLongname(x.longname); n.setInternalId(x.iid); n.setAllowSameLineTransfers(x.same); n.setIsEnabled(1);
    auto sl = n.initSchedules(x.schedules.size());
    for (size_t i = 0; i < x.schedules.size(); i++) {
      sl[i].setUuid(x.schedules[i].uuid); sl[i].setServiceUuid(x.schedules[i].service);
      auto pl = sl[i].initPeriods(x.schedules[i].periods.size());
      for (size_t k = 0; k < x.schedules[i].periods.size(); k++) {
        auto &tr = x.schedules[i].periods[k].trips; pl[k].setPeriodShortname("p" + std::to_string(k));
        auto tl = pl[k].initTrips(tr.size());
        for (size_t q = 0; q < tr.size(); q++) {
          auto t = tl[q]; auto &y = tr[q]; t.setUuid(y.uuid); t.setPathUuid(y.path); t.setTotalCapacity(y.cap); t.setSeatedCapacity(y.seat);
          if (!y.dep.empty()) t.setDepartureTimeSeconds(y.dep[0]); if (!y.arr.empty()) t.setArrivalTimeSeconds(y.arr.back());
          filli(t.initNodeArrivalTimesSeconds(y.arr.size()), y.arr); filli(t.initNodeDepartureTimesSeconds(y.dep.size()), y.dep);
          filli(t.initNodesCanBoard(y.board.size()), y.board); filli(t.initNodesCanUnboard(y.unboard.size()), y.unboard);
        }
      }
    }
    f["lines/line_" + x.uuid + ".capnpbin"] = pack(m);
  }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<pathCollection::PathCollection>().initPaths(d.paths.size());
    for (size_t i = 0; i < d.paths.size(); i++) {
      auto n = l[i]; auto &x = d.paths[i]; n.setUuid(x.uuid); n.setLineUuid(x.line); n.setDirection(x.direction); n.setInternalId(x.iid); n.setIsEnabled(1);
      fill(n.initNodesUuids(x.nodes.size()), x.nodes);
      json j; j["segments"] = json::array();
      if (x.has_dist) for (size_t k = 0; k < x.dist.size(); k++) j["segments"].push_back({{"distanceMeters", x.dist[k]}, {"travelTimeSeconds", x.tt[k]}});
      n.setData(x.data_override.empty() ? j.dump() : x.data_override);
    }
    f["paths.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<scenarioCollection::ScenarioCollection>().initScenarios(d.scenarios.size());
    for (size_t i = 0; i < d.scenarios.size(); i++) {
      auto n = l[i]; auto &x = d.scenarios[i]; n.setUuid(x.uuid); n.setName(x.name); n.setIsEnabled(1); if (!x.simulation.empty()) n.setSimulationUuid(x.simulation);
      fill(n.initServicesUuids(x.services.size()), x.services);
      fill(n.initOnlyLinesUuids(x.onlyLines.size()), x.onlyLines); fill(n.initExceptLinesUuids(x.exceptLines.size()), x.exceptLines);
      fill(n.initOnlyAgenciesUuids(x.onlyAgencies.size()), x.onlyAgencies); fill(n.initExceptAgenciesUuids(x.exceptAgencies.size()), x.exceptAgencies);
      fill(n.initOnlyNodesUuids(x.onlyNodes.size()), x.onlyNodes); fill(n.initExceptNodesUuids(x.exceptNodes.size()), x.exceptNodes);
      fill(n.initOnlyModesShortnames(x.onlyModes.size()), x.onlyModes); fill(n.initExceptModesShortnames(x.exceptModes.size()), x.exceptModes);
    }
    f["scenarios.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<dataSourceCollection::DataSourceCollection>().initDataSources(d.sources.size());
    for (size_t i = 0; i < d.sources.size(); i++) { l[i].setUuid(d.sources[i].uuid); l[i].setName(d.sources[i].name); l[i].setType((dataSource::DataSource::Type)d.sources[i].type); }
    f["dataSources.capnpbin"] = pack(m); }
  for (auto &s : d.sources) if (s.files) {
    std::string b = "dataSources/" + s.uuid + "/";
    { capnp::MallocMessageBuilder m; auto l = m.initRoot<personCollection::PersonCollection>().initPersons(s.persons.size());
      for (size_t i = 0; i < s.persons.size(); i++) { auto p = l[i]; p.setUuid(s.persons[i].uuid); p.setDataSourceUuid(s.persons[i].ds); p.setId(s.persons[i].id); p.setExpansionFactor(1.5); p.setAge(30); p.setUsualWorkPlaceLatitude(45500000); p.setUsualWorkPlaceLongitude(-73600000); }
      f[b + "persons.capnpbin"] = pack(m); f[b + "persons.capnpbin.count"] = "1"; }
    { capnp::MallocMessageBuilder m; auto l = m.initRoot<odTripCollection::OdTripCollection>().initOdTrips(s.ods.size());
      for (size_t i = 0; i < s.ods.size(); i++) {
        auto o = l[i]; auto &x = s.ods[i]; o.setUuid(x.uuid); o.setDataSourceUuid(x.ds); o.setPersonUuid(x.person); o.setId(x.id); o.setDepartureTimeSeconds(x.dep); o.setArrivalTimeSeconds(x.dep + 600); o.setExpansionFactor(1.0);
        o.setOriginLatitude(45500000); o.setOriginLongitude(-73600000); o.setDestinationLatitude(45510000); o.setDestinationLongitude(-73610000); o.setMode(odTrip::OdTrip::Mode::TRANSIT);
        auto f1 = [](auto u, auto t, auto ds, const std::vector<Foot> &v) { for (size_t i = 0; i < v.size(); i++) { u.set(i, v[i].to); if (i < t.size()) t.set(i, v[i].time); if (i < ds.size()) ds.set(i, v[i].dist); } };
        auto less = [](size_t n, int c) { return n - std::min<size_t>(n, c); };
        f1(o.initOriginNodesUuids(x.on.size()), o.initOriginNodesTravelTimes(less(x.on.size(), x.cut_t)), o.initOriginNodesDistances(less(x.on.size(), x.cut_d)), x.on);
        f1(o.initDestinationNodesUuids(x.dn.size()), o.initDestinationNodesTravelTimes(less(x.dn.size(), x.cut_t)), o.initDestinationNodesDistances(less(x.dn.size(), x.cut_d)), x.dn);
      }
      f[b + "odTrips.capnpbin"] = pack(m); f[b + "odTrips.capnpbin.count"] = "1"; }
  }
  return f;
}

// ---------------------------------------------------------------- JSON
static json jf(const std::vector<Foot> &v) { json a = json::array(); for (auto &x : v) a.push_back({x.to, x.time, x.dist}); return a; }
static std::vector<Foot> pf(const json &j) { std::vector<Foot> v; for (auto &x : j) v.push_back({x[0], x[1], x[2]}); return v; }
json Dataset::to_json() const {
  json j;
  auto A = [&](const char *k) -> json & { j[k] = json::array(); return j[k]; };
  { auto &a = A("nodes"); for (auto &n : nodes) a.push_back({{"uuid", n.uuid}, {"id", n.id}, {"code", n.code}, {"name", n.name}, {"iid", n.iid}, {"lat", n.lat}, {"lon", n.lon}, {"foot", jf(n.foot)}, {"cut", {n.cut_t, n.cut_d}}}); }
  { auto &a = A("agencies"); for (auto &n : agencies) a.push_back({n.uuid, n.acronym, n.name}); }
  { auto &a = A("services"); for (auto &n : services) a.push_back({n.uuid, n.name, n.start, n.only}); }
  { auto &a = A("lines"); for (auto &n : lines) {
      json s = json::array(); for (auto &x : n.schedules) { json p = json::array(); for (auto &y : x.periods) { json t = json::array(); for (auto &z : y.trips) t.push_back({{"uuid", z.uuid}, {"path", z.path}, {"arr", z.arr}, {"dep", z.dep}, {"board", z.board}, {"unboard", z.unboard}}); p.push_back(t); } s.push_back({{"uuid", x.uuid}, {"service", x.service}, {"periods", p}}); }
      a.push_back({{"uuid", n.uuid}, {"agency", n.agency}, {"mode", n.mode}, {"short", n.shortname}, {"long", n.longname}, {"iid", n.iid}, {"same", n.same}, {"schedules", s}}); } }
  { auto &a = A("paths"); for (auto &n : paths) a.push_back({{"uuid", n.uuid}, {"line", n.line}, {"dir", n.direction}, {"iid", n.iid}, {"nodes", n.nodes}, {"dist", n.dist}, {"tt", n.tt}, {"has_dist", n.has_dist}, {"data", n.data_override}}); }
  { auto &a = A("scenarios"); for (auto &n : scenarios) a.push_back({{"uuid", n.uuid}, {"name", n.name}, {"sim", n.simulation}, {"services", n.services}, {"ol", n.onlyLines}, {"xl", n.exceptLines}, {"oa", n.onlyAgencies}, {"xa", n.exceptAgencies}, {"on", n.onlyNodes}, {"xn", n.exceptNodes}, {"om", n.onlyModes}, {"xm", n.exceptModes}}); }
  { auto &a = A("sources"); for (auto &n : sources) { json p = json::array(), o = json::array(); for (auto &x : n.persons) p.push_back({x.uuid, x.ds, x.id}); for (auto &x : n.ods) o.push_back({{"uuid", x.uuid}, {"ds", x.ds}, {"person", x.person}, {"id", x.id}, {"dep", x.dep}, {"on", jf(x.on)}, {"dn", jf(x.dn)}, {"cut", {x.cut_t, x.cut_d}}}); a.push_back({{"uuid", n.uuid}, {"name", n.name}, {"type", n.type}, {"files", n.files}, {"persons", p}, {"ods", o}}); } }
  return j;
}
Dataset Dataset::from_json(const json &j) {
  Dataset d;
  for (auto &n : j["nodes"]) d.nodes.push_back({n["uuid"], n["id"], n["code"], n["name"], n["iid"], n["lat"], n["lon"], pf(n["foot"]), n.value("cut", json{0, 0})[0], n.value("cut", json{0, 0})[1]});
  for (auto &n : j["agencies"]) d.agencies.push_back({n[0], n[1], n[2]});
  for (auto &n : j["services"]) { DService s{n[0], n[1]}; if (n.size() > 3) { s.start = n[2]; s.only = n[3]; } d.services.push_back(s); }
  for (auto &n : j["lines"]) {
    DLine l; l.uuid = n["uuid"]; l.agency = n["agency"]; l.mode = n["mode"]; l.shortname = n["short"]; l.longname = n["long"]; l.iid = n["iid"]; l.same = n["same"];
    for (auto &s : n["schedules"]) { DSchedule x; x.uuid = s["uuid"]; x.service = s["service"]; for (auto &p : s["periods"]) { DPeriod q; for (auto &t : p) { DTrip z; z.uuid = t["uuid"]; z.path = t["path"]; z.arr = t["arr"].get<std::vector<int>>(); z.dep = t["dep"].get<std::vector<int>>(); z.board = t["board"].get<std::vector<int>>(); z.unboard = t["unboard"].get<std::vector<int>>(); q.trips.push_back(z); } x.periods.push_back(q); } l.schedules.push_back(x); }
    d.lines.push_back(l);
  }
  for (auto &n : j["paths"]) { DPath p; p.uuid = n["uuid"]; p.line = n["line"]; p.direction = n["dir"]; p.iid = n["iid"]; p.nodes = n["nodes"].get<std::vector<std::string>>(); p.dist = n["dist"].get<std::vector<int>>(); p.tt = n["tt"].get<std::vector<int>>(); p.has_dist = n["has_dist"]; p.data_override = n["data"]; d.paths.push_back(p); }
  using VS = std::vector<std::string>;
  for (auto &n : j["scenarios"]) { DScenario s; s.uuid = n["uuid"]; s.name = n["name"]; s.simulation = n["sim"]; s.services = n["services"].get<VS>(); s.onlyLines = n["ol"].get<VS>(); s.exceptLines = n["xl"].get<VS>(); s.onlyAgencies = n["oa"].get<VS>(); s.exceptAgencies = n["xa"].get<VS>(); s.onlyNodes = n["on"].get<VS>(); s.exceptNodes = n["xn"].get<VS>(); s.onlyModes = n["om"].get<VS>(); s.exceptModes = n["xm"].get<VS>(); d.scenarios.push_back(s); }
  for (auto &n : j["sources"]) { DSource s; s.uuid = n["uuid"]; s.name = n["name"]; s.type = n["type"]; s.files = n["files"]; for (auto &p : n["persons"]) s.persons.push_back({p[0], p[1], p[2]}); for (auto &o : n["ods"]) s.ods.push_back({o["uuid"], o["ds"], o["person"], o["id"], o["dep"], pf(o["on"]), pf(o["dn"]), o.value("cut", json{0, 0})[0], o.value("cut", json{0, 0})[1]}); d.sources.push_back(s); }
  return d;
}

// ---------------------------------------------------------------- generator
// Some datasets draw all their identifiers from one family that differs in a few digits of one group only.
static struct { std::string base; int pos = 0, len = 0, depth = 0; std::set<std::string> used; } family;
struct FamilyScope { FamilyScope(Rng &r) { static const int P[5][2] = {{0, 8}, {9, 4}, {15, 3}, {20, 3}, {24, 12}}; if (family.depth++ == 0) { family.base.clear(); family.used.clear(); bool f = r.chance(0.15); std::string b = gen_uuid(r); if (f) { int k = r.below(5); family.pos = P[k][0]; family.len = P[k][1]; family.base = b; } } } ~FamilyScope() { if (--family.depth == 0) family.base.clear(); } };
std::string gen_uuid(Rng &r) {
  if (!family.base.empty()) for (int i = 0; i < 60; i++) {
    std::string s = family.base; int n = 1 + r.below(2); if (family.used.size() > 60 || i > 5) n = 3;
    if (family.pos == 20) s[19] = "89ab"[r.below(4)];
    for (int k = 0; k < n; k++) s[family.pos + r.below(family.len)] = "0123456789abcdef"[r.below(16)];
    if (family.used.insert(s).second) return s;
  }
  u64 a = r.next(), b = r.next(); char s[40];
  snprintf(s, sizeof s, "%08x-%04x-4%03x-%04x-%012llx", (u32)(a >> 32), (u32)(a >> 16) & 0xffff, (u32)a & 0xfff, 0x8000 | ((u32)(b >> 48) & 0x3fff), (unsigned long long)(b & 0xffffffffffffull));
  return s;
}
static const char *MODES[] = {"bus", "rail", "metro", "tram", "water", "gondola", "other"};

static void gen_trips(Rng &r, Dataset &d, DLine &l, const GenOpt &o) {
  std::vector<int> pi; for (size_t i = 0; i < d.paths.size(); i++) if (d.paths[i].line == l.uuid) pi.push_back(i);
  if (pi.empty()) return;
  l.schedules.clear();
  int ns = 1 + r.below(std::min<size_t>(2, d.services.size()));
  std::vector<int> sv; for (size_t i = 0; i < d.services.size(); i++) sv.push_back(i);
  for (int k = 0; k < ns; k++) {
    int i = r.below(sv.size()); DSchedule s; s.uuid = gen_uuid(r); s.service = d.services[sv[i]].uuid; sv.erase(sv.begin() + i);
    int np = 1 + r.below(2);
    for (int p = 0; p < np; p++) {
      DPeriod pe; int nt = 1 + r.below(o.trips_hi);
      for (int t = 0; t < nt; t++) {
        const DPath &pa = d.paths[r.pick(pi)];
        DTrip x; x.uuid = gen_uuid(r); x.path = pa.uuid; x.cap = 40 + r.below(50); x.seat = 10 + r.below(20);
        int T = o.late && r.chance(0.25) ? (int)r.range(23 * 3600, 31 * 3600) : (int)r.range(o.t_lo, o.t_hi);
        if (r.chance(0.3)) T = T / 3600 * 3600 + (int)r.range(-2, 2);   // near an hour boundary
        size_t n = pa.nodes.size();
        for (size_t q = 0; q < n; q++) {
          int a = T; int dw = r.chance(n > 40 ? 0.9 : 0.5) ? 0 : (int)r.range(1, 90); int dep = a + dw;
          x.arr.push_back(a); x.dep.push_back(dep);
          x.board.push_back(r.chance(o.p_noflag) ? 0 : 1); x.unboard.push_back(r.chance(o.p_noflag) ? 0 : 1);
          T = dep + (r.chance(o.p_zero_hop) ? 0 : n <= 40 ? (int)r.range(30, 900) : (int)r.range(10, 120));
        }
        if (x.arr.back() >= 32 * 3600 || x.dep.back() >= 32 * 3600) continue;
        pe.trips.push_back(x);
      }
      s.periods.push_back(pe);
    }
    l.schedules.push_back(s);
  }
}
static void gen_scenarios(Rng &r, Dataset &d, const GenOpt &o, int n) {
  for (int i = 0; i < n; i++) {
    DScenario s; s.uuid = gen_uuid(r); s.name = "scenario " + std::to_string(i); if (r.chance(0.3)) s.simulation = gen_uuid(r);
    for (auto &x : d.services) if (r.chance(i == 0 ? 1.0 : 0.65)) s.services.push_back(x.uuid);
    if (s.services.empty()) s.services.push_back(r.pick(d.services).uuid);
    if (i > 0 && r.chance(o.p_restrict)) {
      int k = r.below(6); auto sub = [&](auto &from, double p) { std::vector<std::string> v; for (auto &x : from) if (r.chance(p)) v.push_back(x.uuid); return v; };
      if (k == 0) s.onlyLines = sub(d.lines, 0.6); if (k == 1) s.exceptLines = sub(d.lines, 0.4); if (k == 2) s.onlyAgencies = sub(d.agencies, 0.6);
      if (k == 3) s.exceptAgencies = sub(d.agencies, 0.3);
      if (k == 4) for (auto &l : d.lines) if (r.chance(0.6)) s.onlyModes.push_back(l.mode);
      if (k == 5) s.exceptModes.push_back(r.pick(d.lines).mode);
      if (r.chance(0.2)) s.exceptLines = sub(d.lines, 0.3);
      if (r.chance(0.3)) { // both lists of one kind, sharing members
        int z = r.below(3);
        if (z == 0) { s.onlyAgencies = sub(d.agencies, 0.8); s.exceptAgencies = sub(d.agencies, 0.4); }
        if (z == 1) { s.onlyLines = sub(d.lines, 0.8); s.exceptLines = sub(d.lines, 0.4); }
        if (z == 2) { s.onlyModes.clear(); s.exceptModes.clear(); for (auto &l : d.lines) { if (r.chance(0.8)) s.onlyModes.push_back(l.mode); if (r.chance(0.3)) s.exceptModes.push_back(l.mode); } }
      }
    }
    if (r.chance(0.06)) { for (auto &x : d.nodes) if (r.chance(0.3)) (r.chance(0.5) ? s.onlyNodes : s.exceptNodes).push_back(x.uuid); }   // loaded, but no calculation reads them
    d.scenarios.push_back(s);
  }
}
Dataset gen_dataset(Rng &r, const GenOpt &o) {
  Dataset d; FamilyScope scope(r);
  int nn = r.range(o.nodes_lo, o.nodes_hi);
  std::set<std::pair<int, int>> used;
  static const int CITY[][2] = {{45500000, -73600000}, {-33868000, 151209000}, {3000, -2000}, {-22906000, -43172000}, {64146000, -21942000}, {35000, 179960000}};
  const int *city = CITY[r.chance(0.8) ? 0 : r.below(6)]; bool odd = r.chance(0.1);
  static const char *ODD[] = {"", " ", "\\", "\"", "a\nb", "\xe2\x82\xac", "<b>&amp;", "null", "%s", "\t", "Gare d'Ahuntsic / \xc3\x89t\xc3\xa9"};
  for (int i = 0; i < nn; i++) {
    DNode n; n.uuid = gen_uuid(r); n.id = 100 + i; n.code = "C" + std::to_string(i); n.name = "Stop " + std::to_string(i) + (r.chance(0.1) ? " \"É\"" : ""); n.iid = "I" + std::to_string(i);
    if (odd && r.chance(0.5)) n.name = ODD[r.below(11)]; if (odd && r.chance(0.3)) n.code = ODD[r.below(11)];
    do { n.lat = city[0] + (int)r.range(-14000, 14000); n.lon = city[1] + (int)r.range(-20000, 20000); } while (!used.insert({n.lat, n.lon}).second);
    d.nodes.push_back(n);
  }
  for (auto &n : d.nodes) {
    std::vector<Foot> v;
    for (auto &m : d.nodes) if (m.uuid != n.uuid && r.chance(nn > 40 ? 8.0 / nn : 0.35)) {
      double dx = (m.lon - n.lon) * 0.0782, dy = (m.lat - n.lat) * 0.1111; int dist = (int)std::sqrt(dx * dx + dy * dy);
      v.push_back({m.uuid, (int)(dist / 1.2) + (int)r.range(0, 120), dist + (int)r.range(0, 50)});
    }
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    for (auto &f : v) { f.time = std::min(f.time, 32000); f.dist = std::min(f.dist, 32000); }
    v.insert(v.begin() + (r.chance(0.8) ? 0 : r.below(v.size() + 1)), Foot{n.uuid, 0, 0});
    n.foot = v;
  }
  int na = 1 + r.below(3); for (int i = 0; i < na; i++) d.agencies.push_back({gen_uuid(r), "AG" + std::to_string(i), "Agency " + std::to_string(i)});
  int ns = 1 + r.below(3); for (int i = 0; i < ns; i++) d.services.push_back({gen_uuid(r), "Service " + std::to_string(i)});
  int nl = r.range(o.lines_lo, o.lines_hi);
  for (int i = 0; i < nl; i++) {
    DLine l; l.uuid = gen_uuid(r); l.agency = r.pick(d.agencies).uuid; l.mode = r.chance(o.p_transferable) ? "transferable" : MODES[r.below(7)]; l.shortname = "L" + std::to_string(i); l.longname = "Line number " + std::to_string(i); l.iid = "LI" + std::to_string(i); l.same = r.below(2);
    int np = 1 + r.below(2);
    for (int p = 0; p < np; p++) {
      DPath x; x.uuid = gen_uuid(r); x.line = l.uuid; x.direction = p ? "inbound" : "outbound"; x.iid = "P" + std::to_string(p);
      int len = 2 + r.below(std::min(nn, o.len_hi)); bool rev = r.chance(o.p_revisit); if (o.long_path && i == 0 && p == 0) { len = o.long_path; rev = true; }
      for (int q = 0; q < len; q++) { for (int tries = 0; tries < 20; tries++) { auto &u = r.pick(d.nodes).uuid; if (!x.nodes.empty() && x.nodes.back() == u) continue; if (!rev && std::find(x.nodes.begin(), x.nodes.end(), u) != x.nodes.end()) continue; x.nodes.push_back(u); break; } }
      if (x.nodes.size() < 2) continue;
      for (size_t q = 0; q + 1 < x.nodes.size(); q++) { x.dist.push_back(r.chance(0.08) ? 0 : r.chance(0.02) ? r.range(32000, 200000) : r.range(50, 6000)); x.tt.push_back(r.range(30, 900)); }
      x.has_dist = !r.chance(o.p_nodist);
      d.paths.push_back(x);
    }
    d.lines.push_back(l);
  }
  if (odd) { for (auto &x : d.lines) { if (r.chance(0.3)) x.shortname = ODD[r.below(11)]; if (r.chance(0.3)) x.longname = ODD[r.below(11)]; } for (auto &x : d.agencies) { if (r.chance(0.3)) x.acronym = ODD[r.below(11)]; if (r.chance(0.3)) x.name = ODD[r.below(11)]; } }
  if (r.chance(0.1)) for (auto &x : d.lines) if (r.chance(0.5)) { x.shortname = d.lines[0].shortname; if (r.chance(0.5)) x.longname = d.lines[0].longname; }
  if (r.chance(0.08)) { // names that identify nothing
    if (r.chance(0.5)) for (auto &x : d.nodes) if (r.chance(0.6)) { x.name = d.nodes[0].name; if (r.chance(0.5)) x.code = d.nodes[0].code; if (r.chance(0.3)) x.id = d.nodes[0].id; }
    if (r.chance(0.5)) for (auto &x : d.services) x.name = d.services[0].name;
    if (r.chance(0.5)) for (auto &x : d.agencies) { x.name = d.agencies[0].name; x.acronym = d.agencies[0].acronym; }
    if (r.chance(0.5)) for (auto &x : d.lines) x.iid = d.lines[0].iid;
    if (r.chance(0.5)) for (auto &x : d.paths) x.direction = d.paths[0].direction, x.iid = d.paths[0].iid;
  }
  if (d.paths.empty()) return gen_dataset(r, o);
  for (auto &l : d.lines) gen_trips(r, d, l, o);
  if (!d.trip_count()) return gen_dataset(r, o);
  gen_scenarios(r, d, o, r.range(o.scen_lo, o.scen_hi));
  if (r.chance(0.1)) for (auto &x : d.scenarios) { x.name = d.scenarios[0].name; if (r.chance(0.5)) x.simulation = d.scenarios[0].simulation; }
  if (r.chance(o.p_sources)) {
    DSource s; s.uuid = gen_uuid(r); s.name = "survey"; s.files = r.chance(0.8);
    int n = 1 + r.below(2);
    for (int i = 0; i < n; i++) { s.persons.push_back({gen_uuid(r), s.uuid, (u32)i}); DOd od{gen_uuid(r), s.uuid, s.persons[i].uuid, (u32)i, 28800 + i * 60, {}, {}}; od.on.push_back({r.pick(d.nodes).uuid, 100, 120}); od.dn.push_back({r.pick(d.nodes).uuid, 200, 230}); s.ods.push_back(od); }
    d.sources.push_back(s);
  }
  return d;
}
Dataset evolve_dataset(Rng &r, const Dataset &src, const GenOpt &o, bool schedules_only, bool with_scenarios) {
  Dataset d = src;
  if (!schedules_only && r.chance(0.5)) {
    if (r.chance(0.3)) { d = gen_dataset(r, o); // unrelated network; keep the first scenario's id so that old queries still hit
      d.scenarios[0].uuid = src.scenarios[0].uuid; return d; }
    for (auto &n : d.nodes) for (auto &f : n.foot) if (f.to != n.uuid && r.chance(0.3)) f.time = std::min(32000, f.time + (int)r.range(0, 300));
    if (r.chance(0.5)) for (auto &n : d.nodes) if (r.chance(0.3)) n.name += " bis";
    if (r.chance(0.3)) for (auto &l : d.lines) if (r.chance(0.3)) l.agency = r.pick(d.agencies).uuid;
    if (r.chance(0.4)) for (auto &a : d.agencies) if (r.chance(0.5)) { a.acronym += "x"; a.name += " new"; }
    if (r.chance(0.4)) for (auto &l : d.lines) if (r.chance(0.4)) { l.shortname += "'"; l.longname += " (new)"; if (r.chance(0.5)) l.mode = MODES[r.below(7)]; }
    if (r.chance(0.3)) for (auto &p : d.paths) for (auto &x : p.dist) if (r.chance(0.3)) x += 10;
    if (r.chance(0.3)) { d.services.push_back({gen_uuid(r), "Service " + std::to_string(d.services.size())}); for (auto &s : d.scenarios) if (r.chance(0.5)) s.services.push_back(d.services.back().uuid); gen_trips(r, d, d.lines[r.below(d.lines.size())], o); }
    if (r.chance(0.2)) { d.agencies.push_back({gen_uuid(r), "NA", "New agency"}); d.lines[r.below(d.lines.size())].agency = d.agencies.back().uuid; }
    if (d.nodes.size() > 2 && r.chance(0.3)) for (auto &n : d.nodes) if (r.chance(0.2)) { n.lat += (int)r.range(-1500, 1500); n.lon += (int)r.range(-1500, 1500); }
    if (r.chance(0.2)) { auto &l = d.lines[r.below(d.lines.size())]; if (d.lines.size() > 1) { // a line disappears
      std::string u = l.uuid; d.lines.erase(d.lines.begin() + (&l - &d.lines[0])); d.paths.erase(std::remove_if(d.paths.begin(), d.paths.end(), [&](auto &p) { return p.line == u; }), d.paths.end());
      for (auto &s : d.scenarios) for (auto *v : {&s.onlyLines, &s.exceptLines}) { bool had = !v->empty(); v->erase(std::remove(v->begin(), v->end(), u), v->end()); if (had && v->empty()) v->push_back(d.lines[0].uuid); } } }
    if (d.paths.empty()) return src;
  }
  int k = r.below(4);
  for (auto &l : d.lines) if (k == 0 || r.chance(0.5)) gen_trips(r, d, l, o);
  if (k == 1) { // shift everything
    int s = (int)r.range(-1800, 1800);
    for (auto &l : d.lines) for (auto &sc : l.schedules) for (auto &p : sc.periods) for (auto &t : p.trips) { for (auto &x : t.arr) x = std::min(std::max(0, x + s), 32 * 3600 - 1); for (auto &x : t.dep) x = std::min(std::max(0, x + s), 32 * 3600 - 1); }
  }
  if (k == 2) for (auto &l : d.lines) if (r.chance(0.4)) for (auto &sc : l.schedules) for (auto &p : sc.periods) p.trips.clear();
  if (!d.trip_count()) gen_trips(r, d, d.lines[0], o);
  if (!d.trip_count()) return src;
  if (with_scenarios || !schedules_only) if (r.chance(0.5)) {
    for (auto &s : d.scenarios) if (r.chance(0.5)) { auto id = s.uuid; s.services.clear(); for (auto &x : d.services) if (r.chance(0.6)) s.services.push_back(x.uuid); if (s.services.empty()) s.services.push_back(r.pick(d.services).uuid); s.exceptLines.clear(); if (r.chance(0.4)) s.exceptLines.push_back(r.pick(d.lines).uuid); s.uuid = id; }
    if (r.chance(0.3)) gen_scenarios(r, d, o, 1);
    if (d.scenarios.size() > 1 && r.chance(0.35)) d.scenarios.erase(d.scenarios.begin() + r.below(d.scenarios.size()));
  }
  return d;
}

static std::string coord(Rng &r, const Dataset &d) {
  char b[64];
  int k = r.below(12);
  if (k == 0) snprintf(b, sizeof b, "%.6f,%.6f", d.nodes[0].lon / 1e6 + r.range(-40000, 40000) / 1e6, d.nodes[0].lat / 1e6 + r.range(-30000, 30000) / 1e6);
  else if (k == 1 && r.chance(0.3)) snprintf(b, sizeof b, "-60.100000,40.200000");
  else { auto &n = r.pick(d.nodes); snprintf(b, sizeof b, "%.6f,%.6f", n.lon / 1e6 + r.range(-3000, 3000) / 1e6, n.lat / 1e6 + r.range(-2000, 2000) / 1e6); }
  return b;
}
std::string gen_request(Rng &r, const Dataset &d, const ReqOpt &o) {
  double w = r.unit() * (o.w_route + o.w_summary + o.w_access);
  int kind = w < o.w_route ? 0 : w < o.w_route + o.w_summary ? 1 : 2;
  std::string q;
  auto add = [&](const std::string &k, const std::string &v) { q += (q.empty() ? "" : "&") + k + "=" + v; };
  if (kind < 2) { add("origin", coord(r, d)); add("destination", coord(r, d)); } else add("place", coord(r, d));
  add("scenario_id", (r.chance(0.5) ? d.scenarios[0] : r.pick(d.scenarios)).uuid);
  // a time around some trip
  std::vector<int> ts; for (auto &l : d.lines) for (auto &s : l.schedules) for (auto &p : s.periods) for (auto &t : p.trips) { ts.push_back(t.dep[0]); ts.push_back(t.arr.back()); }
  bool rev = r.chance(o.p_reverse);
  int t = ts.empty() ? 30000 : r.pick(ts) + (rev ? (int)r.range(-600, 3600) : (int)r.range(-3600, 600));
  t = std::max(0, std::min(t, 32 * 3600 - 1));
  int tight_wait = -1;
  if (r.chance(0.12) && !ts.empty()) { // standing at the stop when the vehicle leaves (or arrives), to the second
    std::vector<std::pair<std::string, int>> at; for (auto &l : d.lines) for (auto &s : l.schedules) for (auto &p : s.periods) for (auto &x : p.trips) { auto *pa = d.path(x.path); if (!pa) continue; for (size_t i = 0; i < pa->nodes.size() && i < x.dep.size() && i < x.arr.size(); i++) at.push_back({pa->nodes[i], rev ? x.arr[i] : x.dep[i]}); }
    std::vector<std::pair<std::string, int>> hour; for (auto &x : at) if (x.second % 3600 == 0) hour.push_back(x);
    if (!hour.empty() && r.chance(0.5)) at = hour;
    if (!at.empty()) if (auto x = r.pick(at); auto *n = d.node(x.first)) {
      static const int W[] = {0, 0, 60, 180}; tight_wait = W[r.below(4)]; t = std::max(0, x.second - (rev ? 0 : tight_wait) + (r.chance(0.2) ? (r.chance(0.5) ? 1 : -1) : 0)); if (t >= 32 * 3600) t = 32 * 3600 - 1;
      char b[64]; snprintf(b, sizeof b, "%.6f,%.6f", n->lon / 1e6, n->lat / 1e6); const char *k = kind == 2 ? "place=" : rev ? "destination=" : "origin="; size_t p = q.find(k), e = q.find('&', p); p += strlen(k); q.replace(p, e == std::string::npos ? e : e - p, b);
    }
  }
  add("time_of_trip", std::to_string(t));
  if (rev) add("time_type", "1"); else if (r.chance(0.3)) add("time_type", "0");
  if (o.exact) { add("max_first_waiting_time", r.chance(0.5) ? "0" : "-1"); }
  else if (r.chance(0.3)) add("max_first_waiting_time", std::to_string(r.range(-1, 3600)));
  if (tight_wait >= 0) add("min_waiting_time", std::to_string(tight_wait));
  else if (r.chance(0.6)) add("min_waiting_time", std::to_string(r.chance(0.3) ? 0 : r.range(0, 400)));
  if (r.chance(0.3)) add("max_travel_time", std::to_string(r.range(600, 14400)));
  if (r.chance(0.3)) add("max_access_travel_time", std::to_string(r.range(0, 1800)));
  if (r.chance(0.3)) add("max_egress_travel_time", std::to_string(r.range(0, 1800)));
  if (r.chance(0.3)) add("max_transfer_travel_time", std::to_string(r.range(0, 1200)));
  if (kind < 2 && r.chance(o.p_alt)) add("alternatives", r.chance(0.5) ? "true" : "1"); else if (r.chance(0.1)) add("alternatives", "false");
  const char *ep[] = {"/v2/route?", "/v2/summary?", "/v2/accessibility?"};
  std::string full = ep[kind] + q;
  if (o.p_invalid > 0 && r.chance(o.p_invalid)) {
    switch (r.below(8)) {
      case 0: full = std::string(ep[kind]) + "time_of_trip=abc&" + q; break;
      case 1: { auto p = full.find("scenario_id="); std::string u = gen_uuid(r); if (r.chance(0.5)) { u = full.substr(p + 12, 36); static const int P[] = {0, 7, 9, 15, 21, 24, 35}; size_t i = P[r.below(7)]; u[i] = u[i] == '3' ? '5' : '3'; if (d.scenario(u)) u = gen_uuid(r); } full.replace(p + 12, 36, u); break; }
      case 2: { auto p = full.find("time_of_trip="); auto e = full.find('&', p); full.erase(p, e == std::string::npos ? e : e - p + 1); break; }
      case 3: full = "/v2/unknown?" + q; break;
      case 4: full = ep[kind]; full.pop_back(); break;
      case 5: { auto p = full.find(','); full.erase(p, 1); break; }
      case 6: { auto p = full.find("scenario_id="); full.replace(p + 12, 36, "not-a-uuid"); break; }
      case 7: full += "&min_waiting_time=99999999999999"; break;
    }
  }
  return full;
}
// The same question with one parameter changed.
std::string vary(Rng &r, const Dataset &d, const std::string &t) {
  size_t qm = t.find('?'); if (qm == std::string::npos) return t;
  std::string path = t.substr(0, qm); std::vector<std::pair<std::string, std::string>> kv;
  for (size_t p = qm + 1; p <= t.size();) { size_t e = t.find('&', p); if (e == std::string::npos) e = t.size(); std::string x = t.substr(p, e - p); size_t q = x.find('='); if (q != std::string::npos) kv.push_back({x.substr(0, q), x.substr(q + 1)}); p = e + 1; }
  auto set = [&](const std::string &k, const std::string &v) { for (auto &x : kv) if (x.first == k) { x.second = v; return; } kv.push_back({k, v}); };
  auto get = [&](const std::string &k) -> std::string { for (auto &x : kv) if (x.first == k) return x.second; return ""; };
  static const char *LIM[] = {"max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_travel_time", "max_first_waiting_time", "min_waiting_time"};
  static const int VAL[] = {-1, 0, 60, 180, 300, 600, 900, 1200, 1800, 7200};
  switch (r.below(14)) {
    case 12: { const char *k = LIM[r.below(6)]; std::string v = get(k); set(k, std::to_string((v.empty() ? VAL[1 + r.below(9)] : atoi(v.c_str())) + (int)r.range(-40, 40))); break; }      // nearly the same
    case 13: { static const char *P[] = {"origin", "destination", "place"}; const char *k = path == "/v2/accessibility" ? P[2] : P[r.below(2)]; double lo, la; if (sscanf(get(k).c_str(), "%lf,%lf", &lo, &la) == 2) { int m = r.chance(0.5) ? 5 : r.chance(0.5) ? 60 : 900; char b[64]; snprintf(b, sizeof b, "%.6f,%.6f", lo + (int)r.range(-m, m) / 1e6, la + (int)r.range(-m, m) / 1e6); set(k, b); } break; }
    case 0: case 1: set(LIM[r.below(2)], std::to_string(VAL[r.below(10)])); break;
    case 2: case 3: case 4: set(LIM[r.below(6)], std::to_string(VAL[r.below(10)])); break;
    case 5: set("time_of_trip", std::to_string(std::max(0, std::min(32 * 3600 - 1, atoi(get("time_of_trip").c_str()) + (r.chance(0.4) ? (int)r.range(-59, 59) : (int)r.range(-1800, 1800)))))); break;
    case 6: set("time_type", get("time_type") == "1" ? "0" : "1"); break;
    case 7: if (path != "/v2/accessibility") set("alternatives", get("alternatives").empty() || get("alternatives") == "false" ? "true" : "false"); else set("time_type", get("time_type") == "1" ? "0" : "1"); break;
    case 8: if (path != "/v2/accessibility") { auto a = get("origin"), b = get("destination"); set("origin", b); set("destination", a); } else set("place", coord(r, d)); break;
    case 9: if (path == "/v2/route") path = "/v2/summary"; else if (path == "/v2/summary") path = "/v2/route"; else set("place", coord(r, d)); break;
    case 10: // a route and an accessibility request about the same point
      if (path == "/v2/accessibility") { path = "/v2/route"; std::string p = get("place"); kv.erase(std::remove_if(kv.begin(), kv.end(), [](auto &x) { return x.first == "place"; }), kv.end()); bool o = r.chance(0.5); set(o ? "origin" : "destination", p); set(o ? "destination" : "origin", coord(r, d)); }
      else { path = "/v2/accessibility"; std::string p = get(r.chance(0.5) ? "origin" : "destination"); kv.erase(std::remove_if(kv.begin(), kv.end(), [](auto &x) { return x.first == "origin" || x.first == "destination" || x.first == "alternatives"; }), kv.end()); set("place", p); }
      break;
    case 11: if (!kv.empty()) { size_t i = r.below(kv.size()); const std::string k = kv[i].first; if (k.find("time") != std::string::npos && k != "time_of_trip") kv.erase(kv.begin() + i); else set(k == "origin" || k == "destination" || k == "place" ? k : "min_waiting_time", k == "origin" || k == "destination" || k == "place" ? coord(r, d) : "0"); } break;
  }
  std::string o = path; char sep = '?'; for (auto &x : kv) { o += sep + x.first + "=" + x.second; sep = '&'; }
  return o;
}
} // namespace sim
