// C17: faulted cache directories at start-up and before a refresh.
#include "props.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstring>
namespace sim {

static const char *REQ_FILE[] = {"agencies.capnpbin", "services.capnpbin", "nodes.capnpbin", "lines.capnpbin", "paths.capnpbin", "scenarios.capnpbin"};
static const char *REQ_CODE[] = {"MISSING_DATA_AGENCIES", "MISSING_DATA_SERVICES", "MISSING_DATA_NODES", "MISSING_DATA_LINES", "MISSING_DATA_PATHS", "MISSING_DATA_SCENARIOS"};
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

// ---------------------------------------------------------------- byte level
static std::string pick_file(Rng &r, const std::map<std::string, std::string> &f) {
  // by kind first, so that the many node files do not dominate
  std::map<std::string, std::vector<std::string>> k;
  for (auto &kv : f) { std::string c = starts(kv.first, "nodes/") ? "n" : starts(kv.first, "lines/") ? "l" : starts(kv.first, "dataSources/") ? "d" : kv.first; k[c].push_back(kv.first); if (c == "l") k["l2"].push_back(kv.first); }
  auto it = k.begin(); std::advance(it, r.below(k.size())); return r.pick(it->second);
}
Fault byte_fault(Rng &r, const std::map<std::string, std::string> &f) {
  Fault x; x.file = pick_file(r, f); const std::string &b = f.at(x.file); size_t n = b.size();
  if (x.file.find(".count") != std::string::npos && r.chance(0.7)) { static const char *v[] = {"0", "2", "3", "-1", "", "abc", "1 1", "\n", "99", "-99", "0x5", "1.5", "17"}; x.kind = "set"; x.s = v[r.below(13)]; return x; }
  switch (r.below(14)) {
    case 0: case 1: x.kind = "delete"; break;
    case 2: x.kind = "empty"; break;
    case 3: case 4: case 5: x.kind = "trunc"; x.a = r.chance(0.2) ? r.below(std::min<size_t>(n, 16) + 1) : r.below(n + 1); break;
    case 6: case 7: case 8: x.kind = "flip"; x.a = r.below(n + 1); x.b = r.below(8); break;
    case 9: x.kind = "zero"; x.a = r.below(n + 1); x.b = 1 + r.below(r.chance(0.5) ? 4 : 600); break;
    case 10: { static const int e[] = {EACCES, EIO, EMFILE, EISDIR, ENOTDIR, ENOENT, EPERM, EROFS}; x.kind = "openerr"; x.a = e[r.below(8)]; break; }
    case 11: x.kind = "readerr"; x.a = r.below(n + 1); x.b = r.chance(0.7) ? EIO : EINTR; if (x.b == EINTR) x.b = ESTALE; break;
    case 12: { x.kind = "append"; int k = 1 + r.below(40); for (int i = 0; i < k; i++) x.s += (char)r.below(256); break; }
    case 13: { auto it = f.begin(); std::advance(it, r.below(f.size())); x.kind = "copy"; x.s = it->first; break; }
  }
  return x;
}
// words of the message, below the packing: pointers, sizes, list lengths, scalar fields
Fault word_fault(Rng &r, const std::map<std::string, std::string> &f) {
  for (int tries = 0; tries < 20; tries++) {
    Fault x; x.file = pick_file(r, f); std::string w; size_t h; if (!unpack(f.at(x.file), &w, &h) || w.size() < 16) continue;
    int n = r.chance(0.7) ? 1 : 1 + r.below(6);
    for (int i = 0; i < n; i++) {
      size_t k = r.chance(0.04) ? 0 : r.chance(0.2) ? r.below(std::min<size_t>(w.size() / 8, 12)) : r.below(w.size() / 8); u64 v; memcpy(&v, &w[k * 8], 8);
      switch (r.below(10)) {
        case 0: case 1: case 2: v ^= 1ull << r.below(64); break;
        case 3: v = 0; break;
        case 4: v = r.next(); break;
        case 5: v = ~0ull; break;
        case 6: v += r.chance(0.5) ? 1 : (u64)-1; break;
        case 7: v += r.chance(0.5) ? (1ull << 32) : (u64) - (1ll << 32); break;
        case 8: { size_t o = r.below(w.size() / 8); u64 t; memcpy(&t, &w[o * 8], 8); memcpy(&w[o * 8], &v, 8); v = t; break; }
        case 9: { u32 t = r.chance(0.5) ? (u32)INT_MAX - (u32)r.below(4000) : r.chance(0.5) ? (u32)INT_MIN + (u32)r.below(10) : (u32)-(int)r.below(100000); if (r.chance(0.5)) v = (v & 0xffffffffull) | ((u64)t << 32); else v = (v & ~0xffffffffull) | t; break; }
      }
      memcpy(&w[k * 8], &v, 8);
    }
    x.kind = "set"; x.s = repack(w); return x;
  }
  return byte_fault(r, f);
}

// ---------------------------------------------------------------- identifiers and list sizes
static std::string bad_id(Rng &r) {
  static const char *v[] = {"", "not-a-uuid", "12345678", "{", "zzzzzzzz-zzzz-zzzz-zzzz-zzzzzzzzzzzz", "00000000-0000-0000-0000-000000000000", "01234567-89ab-cdef-0123-456789abcdef0", "01234567-89ab-cdef-0123-456789abcde", " ", "é"};
  return r.chance(0.5) ? gen_uuid(r) : v[r.below(10)];
}
static int wild(Rng &r) {
  switch (r.below(9)) { case 0: return INT_MAX - (int)r.below(4000); case 1: return INT_MIN + (int)r.below(3); case 2: return -1 - (int)r.below(100000); case 3: return 32 * 3600 + (int)r.range(-3, 7200); case 4: return 0; case 5: return 1000000 + (int)r.below(2000000000); case 6: return 24 * 3600 + (int)r.range(-2, 2); case 7: return 33 * 3600 + (int)r.range(-2, 2); default: return (int)r.range(0, 130000); }
}
bool structural(Rng &r, Dataset &d, std::string *what) {
  std::vector<DTrip *> tr; std::vector<DSchedule *> sc; for (auto &l : d.lines) for (auto &s : l.schedules) { sc.push_back(&s); for (auto &p : s.periods) for (auto &t : p.trips) tr.push_back(&t); }
  auto any = [&](auto &v) -> auto & { return v[r.below(v.size())]; };
  int k = r.below(34); if (what) *what += (what->empty() ? "" : ",") + std::to_string(k);
  auto vec = [&](DTrip &t) -> std::vector<int> & { switch (r.below(4)) { case 0: return t.arr; case 1: return t.dep; case 2: return t.board; default: return t.unboard; } };
  switch (k) {
    case 0: if (tr.empty()) return false; any(tr)->path = bad_id(r); return true;
    case 1: if (tr.empty()) return false; any(tr)->path = any(d.paths).uuid; return true;                                       // a path of another line, other length
    case 2: if (sc.empty()) return false; any(sc)->service = bad_id(r); return true;
    case 3: { if (tr.empty()) return false; DTrip &t = *any(tr); t.arr.clear(); t.dep.clear(); t.board.clear(); t.unboard.clear(); return true; }
    case 4: { if (tr.empty()) return false; DTrip &t = *any(tr); for (auto *v : {&t.arr, &t.dep, &t.board, &t.unboard}) v->resize(std::min<size_t>(1, v->size())); return true; }
    case 5: case 6: { if (tr.empty()) return false; DTrip &t = *any(tr); int n = 1 + r.below(r.chance(0.8) ? 4 : 40); for (int i = 0; i < n && !t.arr.empty() && !t.dep.empty(); i++) { t.arr.push_back(t.dep.back() + 60); t.dep.push_back(t.arr.back()); t.board.push_back(1); t.unboard.push_back(1); } return true; }
    case 7: case 8: { if (tr.empty()) return false; auto &v = vec(*any(tr)); if (v.empty()) return false; v.resize(r.below(v.size())); return true; }   // one of the parallel lists too short
    case 9: { if (tr.empty()) return false; auto &v = vec(*any(tr)); int n = 1 + r.below(5); for (int i = 0; i < n; i++) v.push_back(r.chance(0.5) ? 1 : wild(r)); return true; }
    case 10: { if (tr.size() < 2) return false; any(tr)->uuid = any(tr)->uuid; return true; }
    case 11: if (tr.empty()) return false; any(tr)->uuid = bad_id(r); return true;
    case 12: any(d.lines).agency = bad_id(r); return true;
    case 13: { static const char *m[] = {"", "hovercraft", "BUS", "bus ", "transferable"}; any(d.lines).mode = m[r.below(5)]; return true; }
    case 14: any(d.lines).uuid = r.chance(0.4) ? any(d.lines).uuid : bad_id(r); return true;
    case 15: any(d.paths).line = bad_id(r); return true;
    case 16: { auto &p = any(d.paths); if (p.nodes.empty()) return false; p.nodes[r.below(p.nodes.size())] = bad_id(r); return true; }
    case 17: { auto &p = any(d.paths); p.nodes.resize(r.below(p.nodes.size() + 1)); return true; }
    case 18: any(d.paths).uuid = r.chance(0.5) ? any(d.paths).uuid : bad_id(r); return true;
    case 19: case 20: { static const char *v[] = {" ", "{", "{}", "[]", "null", "12", "\"x\"", "{\"segments\":null}", "{\"segments\":{}}", "{\"segments\":\"abc\"}", "{\"segments\":[1,2,3]}", "{\"segments\":[{\"distanceMeters\":\"x\"}]}", "{\"segments\":[{\"distanceMeters\":null,\"travelTimeSeconds\":5}]}", "{\"segments\":[{\"distanceMeters\":1e300}]}", "{\"segments\":[null]}", "{\"segments\":[{\"distanceMeters\":10},{\"travelTimeSeconds\":[]}]}", "{\"segments\":[{\"distanceMeters\":-99999999999}]}", "{\"segments\":[[],[],[]]}", "{\"segments\":[{\"distanceMeters\":7}]}"}; any(d.paths).data_override = v[r.below(19)]; return true; }
    case 21: { auto &n = any(d.nodes); if (n.foot.empty()) return false; n.foot[r.below(n.foot.size())].to = bad_id(r); return true; }
    case 22: { auto &n = any(d.nodes); if (n.foot.empty()) return false; (r.chance(0.5) ? n.cut_t : n.cut_d) = 1 + r.below(n.foot.size()); return true; }
    case 23: { auto &n = any(d.nodes); if (n.foot.empty()) return false; auto &f = n.foot[r.below(n.foot.size())]; f.time = wild(r); if (r.chance(0.3)) f.dist = wild(r); return true; }
    case 24: { auto &s = any(d.scenarios); std::vector<std::string> *v[] = {&s.services, &s.onlyLines, &s.exceptLines, &s.onlyAgencies, &s.exceptAgencies, &s.onlyNodes, &s.exceptNodes, &s.onlyModes, &s.exceptModes}; auto *w = v[r.below(9)]; if (r.chance(0.3)) w->clear(); w->push_back(bad_id(r)); return true; }
    case 25: any(d.scenarios).uuid = r.chance(0.3) ? any(d.scenarios).uuid : bad_id(r); return true;
    case 26: { auto &s = any(d.services); int z = r.below(4); static const char *dt[] = {"", "2024-13-45", "abc", "20240101", "2024-02-30", "0000-00-00", "9999-12-31", "2024-1-1-1-1"}; if (z == 0) s.uuid = bad_id(r); else if (z == 1) s.start = dt[r.below(8)]; else if (z == 2) s.only = dt[r.below(8)]; else s.uuid = any(d.services).uuid; return true; }
    case 27: any(d.agencies).uuid = bad_id(r); return true;
    case 28: { if (d.sources.empty()) return false; auto &s = d.sources[0]; int z = r.below(7); if (z == 0) s.uuid = bad_id(r); if (z == 1 && !s.persons.empty()) s.persons[0].ds = bad_id(r); if (z == 2 && !s.persons.empty()) s.persons[0].uuid = bad_id(r); if (z == 3 && !s.ods.empty()) s.ods[0].person = bad_id(r); if (z == 4 && !s.ods.empty()) s.ods[0].ds = bad_id(r); if (z == 5 && !s.ods.empty()) s.ods[0].on[0].to = bad_id(r); if (z == 6 && !s.ods.empty()) s.ods[0].uuid = bad_id(r); return true; }
    case 29: { if (d.sources.empty() || d.sources[0].ods.empty()) return false; auto &o = d.sources[0].ods[0]; (r.chance(0.5) ? o.cut_t : o.cut_d) = 1; return true; }
    case 30: case 31: { if (tr.empty()) return false; DTrip &t = *any(tr); if (t.arr.empty() || t.dep.empty()) return false; if (r.chance(0.5)) t.arr[r.below(t.arr.size())] = wild(r); if (r.chance(0.7)) t.dep[r.below(t.dep.size())] = wild(r); return true; }
    case 32: { auto &n = any(d.nodes); if (r.chance(0.4)) n.uuid = bad_id(r); else (r.chance(0.5) ? n.lat : n.lon) = wild(r) * (r.chance(0.5) ? 1 : -1); return true; }
    case 33: { if (tr.empty()) return false; DTrip &t = *any(tr); for (auto &x : t.arr) x = -x; for (auto &x : t.dep) x = -x; if (r.chance(0.5)) { std::reverse(t.arr.begin(), t.arr.end()); std::reverse(t.dep.begin(), t.dep.end()); for (auto &x : t.arr) x = -x; for (auto &x : t.dep) x = -x; } return true; }
  }
  return false;
}

// ---------------------------------------------------------------- the property
struct C17 : Prop {
  std::string id() const override { return "C17"; }
  static void ask(Rng &r, Case &c, int n) {
    const Dataset &d = *c.datasets[0]; ReqOpt q; q.p_alt = 0.3;
    for (int i = 0; i < n; i++) { Step s; Op x; x.target = gen_request(r, d, q); s.ops.push_back(x); c.steps.push_back(s); }
  }
  Case gen(Rng &r) override {
    g_cpu_limit = 10;
    Case c; c.prop = "C17"; c.build = ctx.build; c.threads = r.chance(0.85) ? 1 : 3; c.cacheAll = r.chance(0.3); c.euclid = r.chance(0.85); c.debug = r.chance(0.1);
    GenOpt o; o.nodes_lo = 3; o.nodes_hi = 6; o.lines_lo = 1; o.lines_hi = 4; o.trips_hi = 3; o.scen_lo = 1; o.scen_hi = 3; o.p_sources = 0.6; o.p_revisit = 0.3; if (r.chance(0.2)) { o.nodes_hi = 9; o.lines_hi = 6; o.trips_hi = 5; }
    c.datasets.push_back(std::make_shared<Dataset>(gen_dataset(r, o)));
    Image bad; auto &f = files_of(c.datasets[0]);
    double u = r.unit(); std::string what;
    if (u < 0.33) bad.faults.push_back(byte_fault(r, f));
    else if (u < 0.55) bad.faults.push_back(word_fault(r, f));
    else if (u < 0.83) { auto e = std::make_shared<Dataset>(*c.datasets[0]); int n = r.chance(0.7) ? 1 : 1 + r.below(3), tries = 0; while (n && tries++ < 50) if (structural(r, *e, &what)) n--; c.datasets.push_back(e); bad.dataset = 1; if (r.chance(0.1)) bad.faults.push_back(byte_fault(r, files_of(e))); }
    else if (u < 0.93) { int n = 2 + r.below(4); for (int i = 0; i < n; i++) bad.faults.push_back(r.chance(0.6) ? byte_fault(r, f) : word_fault(r, f)); }
    else { double p = r.chance(0.5) ? 0.3 : 0.85; for (auto &kv : f) if (r.chance(p)) { Fault x; x.file = kv.first; x.kind = "delete"; bad.faults.push_back(x); } }     // any subset missing
    if (what.size()) c.extra["edits"] = what;
    bool at_start = r.chance(0.65);
    if (at_start) { c.images.push_back(bad); ask(r, c, 2 + r.below(3)); }
    else {
      c.images.push_back({0, {}}); if (r.chance(0.8)) ask(r, c, 1 + r.below(2));
      c.images.push_back(bad); Step s; s.image = 1; Op x; x.expect = "refresh";
      static const char *nm[] = {"all", "all", "all", "schedules", "scenarios,schedules", "schedules,scenarios", "data_sources,persons,od_trips,agencies,services,nodes,lines,paths,scenarios,schedules"};
      x.target = std::string("/updateCache?names=") + nm[r.below(7)]; if (r.chance(0.05)) x.target = "/updateCache?names=all&path=absent";
      s.ops.push_back(x); c.steps.push_back(s); ask(r, c, 2 + r.below(3));
    }
    if (r.chance(0.4)) {   // the files are repaired and read again
      c.images.push_back({0, {}}); Step s; s.image = (int)c.images.size() - 1; Op x; x.expect = "refresh"; x.target = "/updateCache?names=all"; s.ops.push_back(x); c.steps.push_back(s); ask(r, c, 1 + r.below(2));
    }
    c.pol = gen_policy(r, false, false); if (r.chance(0.3)) { c.pol.p_short = 0.3; }
    return c;
  }
  struct Expect { std::set<std::string> codes; std::shared_ptr<Dataset> reduced; bool maybe_error = false, files_equal = false; };
  // what the faults of an image leave no doubt about
  static Expect expect(const Case &c, int image) {
    Expect e; const Image &m = c.images[image]; if (m.dataset != 0) return e;
    const Dataset &d = *c.datasets[0]; auto &files = files_of(c.datasets[0]); std::set<std::string> absent, unreadable; bool other = false;
    for (auto &f : m.faults) {
      if (!files.count(f.file)) { if (f.kind != "delete") other = true; continue; }
      bool none = f.kind == "empty" || f.kind == "openerr" || (f.kind == "trunc" && f.a == 0), req = false; for (auto *q : REQ_FILE) req |= f.file == q;
      if (f.kind == "delete" || (f.kind == "openerr" && f.a == ENOENT) || (req && none)) absent.insert(f.file);
      else if (starts(f.file, "lines/") && none) unreadable.insert(f.file);
      else if (starts(f.file, "dataSources")) continue;   // not used by any answer
      else other = true;
    }
    if (other) return e;
    for (int i = 0; i < 6; i++) if (absent.count(REQ_FILE[i])) e.codes.insert(REQ_CODE[i]);
    auto red = std::make_shared<Dataset>(d); bool nodes = false;
    for (auto &l : red->lines) if (absent.count("lines/line_" + l.uuid + ".capnpbin") || unreadable.count("lines/line_" + l.uuid + ".capnpbin")) l.schedules.clear();
    for (auto &f : absent) nodes |= starts(f, "nodes/");
    if (!red->trip_count()) e.codes.insert("MISSING_DATA_SCHEDULES");
    else if (e.codes.empty() && !nodes) { e.reduced = red; e.maybe_error = !unreadable.empty(); }
    e.files_equal = unreadable.empty();
    return e;
  }
  Verdict check(const Case &c, const Run &r) override {
    int img = 0;
    if (!r.ok()) { Verdict v = run_failure(r); return v; }
    std::string state_code; bool have = false, start = true, all = true; int disk = 0;
    for (size_t s = 0; s < c.steps.size(); s++) {
      if (c.steps[s].image >= 0) disk = c.steps[s].image;
      for (size_t k = 0; k < c.steps[s].ops.size(); k++) {
        const Op &o = c.steps[s].ops[k]; json b; std::string w;
        if (!well_formed(r.res[s][k], &b, &w)) return fail("malformed " + ep_of(o.target), "GET " + o.target + ": " + w);
        if (o.expect == "refresh") { have = false; start = false; all = o.target == "/updateCache?names=all" || o.target.find("data_sources") != std::string::npos; if (o.target.find("path=") != std::string::npos) { img = -1; } else img = disk; continue; }
        int st = r.res[s][k].status(); std::string status = b.value("status", ""), code = b.value("errorCode", "");
        ctx.n["answer_" + status + (status == "data_error" || status == "query_error" ? "_" + code : "")]++;
        if (!((st == 200 && (status == "success" || status == "no_routing_found" || status == "data_error")) || (st == 400 && status == "query_error"))) return fail("status " + ep_of(o.target), "GET " + o.target + ": HTTP " + std::to_string(st) + " with status \"" + status + "\"");
        std::string mark = status == "data_error" ? code : "";
        if (status == "data_error" && !starts(code, "MISSING_DATA_") && code != "DATA_ERROR") return fail("data error code", "data_error without a documented code: " + code);
        if (have && mark != state_code) return fail("mixed data errors", "GET " + o.target + ": answered " + (mark.empty() ? status : mark) + " after an answer with " + (state_code.empty() ? "data" : state_code) + " from the same data");
        have = true; state_code = mark;
        if (img < 0) { if (mark.empty()) return fail("served without data", "GET " + o.target + ": " + status + " although no file of the refreshed directory exists"); continue; }
        if (!all) continue;
        Expect e = expect(c, img);
        if (!e.codes.empty()) {
          ctx.n["missing_kind_named"]++;
          if (!e.codes.count(mark)) { std::string l; for (auto &x : e.codes) l += " " + x; return fail("missing kind", "GET " + o.target + ": " + (mark.empty() ? status : mark) + " although the missing data is" + l); }
        } else if (e.reduced && c.euclid) {
          if (e.maybe_error && !mark.empty()) continue;
          const Solo b0 = solo(e.reduced, c.euclid, o.target); if (!b0.ok) continue;
          std::string diff; ctx.n["compared_with_remaining_data"]++;
          if (!same_response(r.res[s][k], b0.r, &diff)) return fail(start ? "remaining data" : "remaining data after refresh", "GET " + o.target + ": not what the remaining files say: " + diff);
        } else if (!start && e.files_equal && c.images[img].dataset == 0 && expect(c, img).reduced) {
          const Solo b0 = solo_files(c, img, o.target); if (!b0.ok) continue; std::string diff;
          if (!same_response(r.res[s][k], b0.r, &diff)) return fail("refresh differs", "GET " + o.target + ": " + diff);
        }
      }
    }
    return {};
  }
};
Prop *make_c17() { return new C17(); }
} // namespace sim
