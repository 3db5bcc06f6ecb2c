// The abstract dataset, its generator, and its serialisation to the cache schema.
#pragma once
#include "sim.hpp"
#include <nlohmann/json.hpp>
#include <map>
#include <string>
#include <vector>

namespace sim {
using json = nlohmann::json;

struct Foot { std::string to; int time, dist; };
struct DNode { std::string uuid; u32 id; std::string code, name, iid; int lat, lon; std::vector<Foot> foot; int cut_t = 0, cut_d = 0; };   // cut: missing elements at the end of the parallel lists
struct DAgency { std::string uuid, acronym, name; };
struct DService { std::string uuid, name, start = "2020-01-01", only = "2024-02-29"; };
struct DTrip { std::string uuid, path; std::vector<int> arr, dep, board, unboard; int cap = 50, seat = 20; };
struct DPeriod { std::vector<DTrip> trips; };
struct DSchedule { std::string uuid, service; std::vector<DPeriod> periods; };
struct DLine { std::string uuid, agency, mode, shortname, longname, iid; int same = 0; std::vector<DSchedule> schedules; };
struct DPath { std::string uuid, line, direction, iid; std::vector<std::string> nodes; std::vector<int> dist, tt; bool has_dist = true; std::string data_override; };
struct DScenario { std::string uuid, name, simulation; std::vector<std::string> services, onlyLines, exceptLines, onlyAgencies, exceptAgencies, onlyNodes, exceptNodes, onlyModes, exceptModes; };
struct DPerson { std::string uuid, ds; u32 id; };
struct DOd { std::string uuid, ds, person; u32 id; int dep; std::vector<Foot> on, dn; int cut_t = 0, cut_d = 0; };
struct DSource { std::string uuid, name; int type = 3; std::vector<DPerson> persons; std::vector<DOd> ods; bool files = true; };

struct Dataset {
  std::vector<DNode> nodes; std::vector<DAgency> agencies; std::vector<DService> services;
  std::vector<DLine> lines; std::vector<DPath> paths; std::vector<DScenario> scenarios; std::vector<DSource> sources;
  json to_json() const;
  static Dataset from_json(const json &j);
  const DNode *node(const std::string &u) const { for (auto &n : nodes) if (n.uuid == u) return &n; return nullptr; }
  const DLine *line(const std::string &u) const { for (auto &n : lines) if (n.uuid == u) return &n; return nullptr; }
  const DPath *path(const std::string &u) const { for (auto &n : paths) if (n.uuid == u) return &n; return nullptr; }
  const DAgency *agency(const std::string &u) const { for (auto &n : agencies) if (n.uuid == u) return &n; return nullptr; }
  const DScenario *scenario(const std::string &u) const { for (auto &n : scenarios) if (n.uuid == u) return &n; return nullptr; }
  size_t trip_count() const { size_t n = 0; for (auto &l : lines) for (auto &s : l.schedules) for (auto &p : s.periods) n += p.trips.size(); return n; }
};

// message bytes of a packed file and back
bool unpack(const std::string &packed, std::string *words, size_t *header_words);
std::string repack(const std::string &words);
// relative file name -> packed bytes
std::map<std::string, std::string> serialise(const Dataset &d);

struct GenOpt {
  int nodes_lo = 3, nodes_hi = 8, lines_lo = 1, lines_hi = 4, trips_hi = 4, scen_lo = 2, scen_hi = 4;
  double p_transferable = 0.08;   // a line of the special mode
  double p_zero_hop = 0.05;       // hop without travel time
  double p_noflag = 0.1;          // boarding / alighting forbidden
  double p_revisit = 0.15;        // path that revisits a stop
  double p_nodist = 0.15;         // path without segment distances
  double p_sources = 0.5;
  double p_restrict = 0.5;        // scenario carries only/except lists
  int t_lo = 6 * 3600, t_hi = 11 * 3600;
  bool late = false;              // some trips between 24 h and 32 h
  int len_hi = 5, long_path = 0;  // stops of a path; one path that long
  void large(int nodes, int lines, int longest) { nodes_lo = nodes; nodes_hi = nodes + 40; lines_lo = lines; lines_hi = lines + 10; len_hi = 40; long_path = longest; trips_hi = 3; }
};
Dataset gen_dataset(Rng &r, const GenOpt &o);
// a second timetable on (mostly) the same stops/lines
Dataset evolve_dataset(Rng &r, const Dataset &d, const GenOpt &o, bool schedules_only, bool with_scenarios);
std::string gen_uuid(Rng &r);

struct ReqOpt {
  bool osrm = false; double p_alt = 0.25, p_reverse = 0.4, p_invalid = 0.0; bool exact = false; // exact: inside the domain where the answer is determined
  double w_route = 1, w_summary = 0.4, w_access = 0.6;
};
std::string gen_request(Rng &r, const Dataset &d, const ReqOpt &o);
std::string vary(Rng &r, const Dataset &d, const std::string &target);   // the same request with one parameter changed
} // namespace sim
