// One simulated run: a case (data, configuration, steps, faults, policy) and its outcome.
#pragma once
#include "data.hpp"

namespace sim {

struct Fault { std::string file, kind; u64 a = 0, b = 0; std::string s; };      // kind: delete empty trunc flip zero openerr readerr set copy
struct Image { int dataset = 0; std::vector<Fault> faults; int alt = -1; };      // alt: a second dataset, in the sub-folder alt/
struct Op { std::string target; int conn = -1; std::string mode = "close"; i64 delay = 0; std::string expect; };   // mode: close ka pipe http10 abort_half abort_sent abort_fin
struct RFault { int n = 0; std::string kind; u64 a = 0, b = 0; };                // n: ordinal of the exchange within the step
struct Step { int image = -1; std::vector<Op> ops; std::vector<RFault> router; };

struct Case {
  std::string prop, build = "asan", variant;
  int threads = 1; bool cacheAll = false, euclid = true, debug = false;
  std::vector<std::shared_ptr<Dataset>> datasets;
  std::vector<Image> images;                                                     // images[0] is on disk at start
  std::vector<Step> steps;
  Policy pol;
  bool replay = false; Decisions dec;
  json extra;                                                                    // property specific
  json to_json() const;
  static Case from_json(const json &j);
  size_t op_count() const { size_t n = 0; for (auto &s : steps) n += s.ops.size(); return n; }
};

struct Exchange { std::string point; std::string kind; int step = 0; std::vector<std::string> stops; };  // kind "" = healthy and completely delivered
struct OpResult {
  bool sent = false, answered = false, aborted = false; int retries = 0;
  std::string head, body, anomaly; i64 t_sent = 0, t_done = 0; u64 seq = 0;
  int status() const { return head.size() > 12 ? atoi(head.c_str() + 9) : 0; }
};
struct Run {
  std::string end;                      // "ok" or what went wrong
  bool listened = false;
  std::vector<std::vector<OpResult>> res;
  std::vector<Exchange> exchanges;
  std::map<std::string, u64> opened, fault_hits;
  Stats st; Decisions rec; u64 trace_hash = 0, cache_hash = 0, order_hash = 0; i64 sim_ns = 0;
  std::string err, log;
  double wall = 0;
  bool ok() const { return end == "ok"; }
  u64 digest() const;                   // everything that must repeat when the run is repeated
};
void start_zygote();                    // once, before anything else
Run run_case(const Case &c, bool verbose = false);
std::map<std::string, std::string> build_image(const Case &c, int image, std::map<std::string, int> *open_err = nullptr, std::map<std::string, std::pair<u64, int>> *read_err = nullptr);
const std::map<std::string, std::string> &files_of(const std::shared_ptr<Dataset> &d);

// the walking table of the simulated router (both directions alike)
int walk_time(const std::string &a, const std::string &b);      // seconds, "lon,lat" with six decimals
int walk_dist(const std::string &a, const std::string &b);
std::string coord_str(int lon_e6, int lat_e6);
std::string url_param(const std::string &target, const std::string &key);        // first value or ""
extern double g_cpu_limit;

json policy_json(const Policy &p); Policy policy_from(const json &j);
json decisions_json(const Decisions &d); Decisions decisions_from(const json &j);
} // namespace sim
