#pragma once
#include "work.hpp"
#include <set>

namespace sim {
struct Verdict { bool bad = false; std::string what, sig; json detail; };
inline Verdict fail(const std::string &sig, const std::string &what) { Verdict v; v.bad = true; v.sig = sig; v.what = what; return v; }

struct Ctx {                               // statistics of one worker
  std::map<std::string, u64> n;            // counters that go to the evidence
  u64 solo_runs = 0, solo_hits = 0;
  std::string tier = "quick", build = "asan";
  u64 index = 0, total_workers = 1, worker = 0;   // enumeration position
};
extern Ctx ctx;

struct Prop {
  virtual ~Prop() {}
  virtual std::string id() const = 0;
  virtual Case gen(Rng &r) = 0;
  virtual Verdict check(const Case &c, const Run &r) = 0;
};
Prop *find_prop(const std::string &id);

// what a fresh, idle, single-threaded server answers
struct Solo { bool ok = false; std::string end; OpResult r; std::vector<Exchange> ex; };
Solo solo(const std::shared_ptr<Dataset> &d, bool euclid, const std::string &target, const std::vector<RFault> &rf = {});
Solo solo_files(const Case &c, int image, const std::string &target);   // on a faulted image

// damage to a cache directory
Fault byte_fault(Rng &r, const std::map<std::string, std::string> &files);
Fault word_fault(Rng &r, const std::map<std::string, std::string> &files);
bool structural(Rng &r, Dataset &d, std::string *what);

std::string crash_sig(const Run &r);
Policy gen_policy(Rng &r, bool tsan, bool concurrent);
bool same_response(const OpResult &a, const OpResult &b, std::string *diff);
// response hygiene shared by all properties: exactly one answer, correct framing, JSON
bool well_formed(const OpResult &o, json *body, std::string *why);
Verdict run_failure(const Run &r);          // crash / hang / race verdict of a run, or good
std::string ep_of(const std::string &target);
} // namespace sim
