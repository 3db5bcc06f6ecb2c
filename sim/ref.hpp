// An independent evaluation of one query on the abstract dataset: what the best journey is, and whether an itinerary can be travelled.
// It knows nothing of the server's code or data structures; times come from the dataset and from the simulated router's table.
#pragma once
#include "props.hpp"
namespace sim {
struct Query {
  std::string target, ep; std::string origin, dest, place, scenario; long time = 0; bool rev = false, alt = false;
  long min_wait = 180, max_total = 0, max_access = 0, max_egress = 0, max_transfer = 0, max_first = 0;
  static Query parse(const std::string &target);
};
struct Ref {
  const Dataset &d; Query q; const DScenario *sc;
  struct T { const DTrip *t; const DLine *l; const DPath *p; std::string service; };
  std::vector<T> trips;                          // admitted by the scenario
  std::map<std::string, int> acc, egr;           // stop -> walking seconds, within the maxima
  Ref(const Dataset &d, const Query &q);
  // Where the properties claim the best journey: arrival (departure-time queries), departure (both), the stops of a map. Elsewhere an answer
  // has to be a journey that can be travelled, no better than the best.
  bool uniform = true, zero = false, capped = false, best_arr = true, best_dep = true;
  long wait(const DLine &l) const { return l.mode == "transferable" ? 0 : q.min_wait; }   // minimum waiting time in force for its departures
  // what the answer has to say
  bool found = false; long arrival = 0, departure = 0; std::set<std::string> reasons; std::string status;
  std::map<std::string, long> nodes;             // accessibility
  void solve();
  Verdict check_route_answer(const json &b) const;
  Verdict check_access_answer(const json &b) const;
  Verdict check_itinerary(const json &route) const;
private:
  std::map<std::string, long> earliest(std::map<std::string, long> *alight) const;
  std::map<std::string, long> latest(long arrival) const;
  std::map<std::string, const T *> by_trip;
};
} // namespace sim
