// C18: arbitrary query strings and cache refreshes; every GET gets one well-formed, correctly classified answer.
#include "props.hpp"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
namespace sim {
namespace {
using Params = std::vector<std::pair<std::string, std::string>>;
using Multi = std::multimap<std::string, std::string>;

// ---------------------------------------------------------------- reading a query string the way the documentation means it
bool bad_escape = false;
std::string decode(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%') { if (i + 2 < s.size() && isxdigit((u8)s[i + 1]) && isxdigit((u8)s[i + 2])) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else { bad_escape = true; o += '%'; } }
    else if (s[i] == '+') o += ' ';
    else o += s[i];
  }
  return o;
}
Multi parse(const std::string &target) {
  Multi m; bad_escape = false; size_t p = target.find('?'); if (p == std::string::npos) return m;
  std::string q = target.substr(p + 1); size_t i = 0;
  while (i <= q.size()) { size_t e = q.find('&', i); if (e == std::string::npos) e = q.size(); std::string f = q.substr(i, e - i); i = e + 1; size_t k = f.find('='); std::string name = f.substr(0, k); if (!name.empty()) m.emplace(name, k == std::string::npos ? "" : decode(f.substr(k + 1))); }
  return m;
}
std::vector<std::string> all(const Multi &m, const std::string &k) { std::vector<std::string> v; for (auto e = m.equal_range(k); e.first != e.second; ++e.first) v.push_back(e.first->second); return v; }

enum Kind { OK, BAD, MAYBE };
Kind int_kind(const std::string &v, long *out) {       // a documented integer / certainly not a number / in between
  size_t i = 0; if (i < v.size() && v[i] == '-') i++;
  size_t d = i; while (d < v.size() && isdigit((u8)v[d])) d++;
  if (d == v.size() && d > i && d - i <= 11 && (v[i] != '0' || d - i == 1)) { long x = atol(v.c_str()); if (x >= INT_MIN && x <= INT_MAX && v != "-0") { *out = x; return OK; } return MAYBE; }
  size_t j = 0; while (j < v.size() && isspace((u8)v[j])) j++;
  if (j == v.size()) return BAD;                        // nothing there
  if (v[j] == '-' || v[j] == '+') j++;
  if (j < v.size() && isdigit((u8)v[j])) return MAYBE;   // starts with a number
  if (j + 1 < v.size() && v[j] == '.' && isdigit((u8)v[j + 1])) return MAYBE;
  std::string l = v.substr(j); for (auto &c : l) c = tolower(c); if (l.compare(0, 3, "inf") == 0 || l.compare(0, 3, "nan") == 0) return MAYBE;
  return BAD;
}
Kind num_kind(const std::string &v, double *out) {     // one coordinate
  size_t i = 0; if (i < v.size() && v[i] == '-') i++;
  size_t d = i; while (d < v.size() && isdigit((u8)v[d])) d++;
  bool ok = d > i && d - i <= 3; if (ok && d < v.size()) { if (v[d] == '.') { size_t f = d + 1; while (f < v.size() && isdigit((u8)v[f])) f++; ok = f > d + 1 && f == v.size() && f - d <= 16; } else ok = false; }
  if (ok) { *out = strtod(v.c_str(), nullptr); return fabs(*out) <= 180 ? OK : MAYBE; }
  long x; Kind k = int_kind(v, &x); return k == BAD ? BAD : MAYBE;
}
Kind point_kind(const std::string &v, double *lon, double *lat) {
  if (std::count(v.begin(), v.end(), ',') != 1) return BAD;
  size_t c = v.find(','); Kind a = num_kind(v.substr(0, c), lon), b = num_kind(v.substr(c + 1), lat);
  if (a == BAD || b == BAD) return BAD; if (a == MAYBE || b == MAYBE || fabs(*lat) > 90) return MAYBE; return OK;
}
bool hexes(const std::string &s) { for (char c : s) if (!isxdigit((u8)c)) return false; return true; }
bool uuid_strict(const std::string &v) { if (v.size() != 36) return false; for (size_t i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) { if (v[i] != '-') return false; } else if (!isxdigit((u8)v[i])) return false; return true; }
bool uuid_sloppy(const std::string &v) { std::string h; for (char c : v) if (isxdigit((u8)c)) h += c; return h.size() >= 32; }   // braces, no dashes, trailing characters

const char *INTS[] = {"time_of_trip", "min_waiting_time", "max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time"};

struct Defects { std::set<std::string> must, may; void add(Kind k, std::initializer_list<const char *> codes) { for (auto c : codes) (k == BAD ? must : may).insert(c); } };
Defects defects(const std::string &ep, const Multi &m, const Dataset &d) {
  Defects D;
  auto point = [&](const char *name, const char *missing, const char *invalid) {
    auto v = all(m, name); if (v.empty()) { D.add(BAD, {missing}); return; }
    size_t bad = 0; for (auto &x : v) { double a, b; Kind k = point_kind(x, &a, &b); bad += k == BAD; if (k != OK) { D.add(MAYBE, {invalid}); if (x.empty()) D.add(MAYBE, {missing}); } }
    if (bad == v.size()) { D.add(BAD, {invalid}); }
  };
  if (ep == "accessibility") point("place", "MISSING_PARAM_PLACE", "INVALID_PLACE");
  else { point("origin", "MISSING_PARAM_ORIGIN", "INVALID_ORIGIN"); point("destination", "MISSING_PARAM_DESTINATION", "INVALID_DESTINATION"); }
  for (auto n : INTS) {
    auto v = all(m, n); bool time = !strcmp(n, "time_of_trip");
    if (v.empty()) { if (time) D.add(BAD, {"MISSING_PARAM_TIME_OF_TRIP"}); continue; }
    size_t bad = 0;
    for (auto &x : v) { long i = 0; Kind k = int_kind(x, &i);
      if (k != OK) { D.add(MAYBE, {"INVALID_NUMERICAL_DATA"}); if (time) D.add(MAYBE, {"MISSING_PARAM_TIME_OF_TRIP"}); bad += k == BAD; }
      else if (time && i < 0) { D.add(MAYBE, {"MISSING_PARAM_TIME_OF_TRIP", "INVALID_NUMERICAL_DATA"}); bad++; } }
    if (bad == v.size()) { D.must.insert("INVALID_NUMERICAL_DATA"); }
  }
  auto sc = all(m, "scenario_id");
  if (sc.empty()) D.add(BAD, {"MISSING_PARAM_SCENARIO"});
  else {
    size_t bad = 0;
    for (auto &x : sc) {
      std::string l = x; for (auto &c : l) c = tolower(c);
      if (uuid_strict(x)) { const DScenario *s = d.scenario(l); if (!s) { D.add(MAYBE, {"MISSING_PARAM_SCENARIO"}); bad++; } else { bool any = false; for (auto &u : s->services) { for (auto &e : d.services) any |= e.uuid == u; } if (!any) { D.add(MAYBE, {"EMPTY_SCENARIO"}); bad++; } } }
      else { D.add(MAYBE, {"PARAM_ERROR_UNKNOWN", "MISSING_PARAM_SCENARIO"}); if (uuid_sloppy(x)) D.add(MAYBE, {"EMPTY_SCENARIO"}); else bad++; }
    }
    if (bad == sc.size()) D.must.insert("(scenario)");
  }
  for (auto &x : all(m, "time_type")) if (x != "0" && x != "1") D.add(MAYBE, {"INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"});
  for (auto &x : all(m, "alternatives")) if (x != "true" && x != "false" && x != "1" && x != "0") D.add(MAYBE, {"INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"});
  if (bad_escape) { D.add(MAYBE, {"PARAM_ERROR_UNKNOWN"}); }
  return D;
}

// ---------------------------------------------------------------- generation
std::string enc(Rng &r, const std::string &v, int mode) {       // mode 0: only what must be escaped; 1: everything odd; 2: everything
  static const char *H = "0123456789ABCDEF"; std::string o;
  for (char ch : v) { u8 c = ch; bool plain = isalnum(c) || strchr("-._~", c); bool must = c <= 32 || c >= 127 || strchr("&=+%#\"<>", c);
    if (c == ' ' && r.chance(0.5)) { o += '+'; continue; }
    if (c == 0 || must || mode == 2 || (mode == 1 && !plain)) { o += '%'; o += H[c >> 4]; o += H[c & 15]; } else o += ch; }
  return o;
}
std::string build(Rng &r, const std::string &path, const Params &p, int mode) {
  std::string t = path; bool first = true; for (auto &x : p) { t += first ? "?" : "&"; first = false; t += x.first + "=" + enc(r, x.second, mode); } return t;
}
void set(Params &p, const std::string &k, const std::string &v) { for (auto &x : p) if (x.first == k) { x.second = v; return; } p.push_back({k, v}); }
void drop(Params &p, const std::string &k) { p.erase(std::remove_if(p.begin(), p.end(), [&](auto &x) { return x.first == k; }), p.end()); }
std::string path_of(int kind) { return kind == 0 ? "/v2/route" : kind == 1 ? "/v2/summary" : "/v2/accessibility"; }

std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.6f", x); return b; }
std::string near_node(Rng &r, const DNode &n, double metres) { // a point that many metres away
  double a = r.unit() * 6.2831853; return num(n.lon / 1e6 + metres * cos(a) / (111320.0 * cos(n.lat / 1e6 * 0.0174533))) + "," + num(n.lat / 1e6 + metres * sin(a) / 111190.0);
}
struct Base { int kind; Params p; };
Base base_request(Rng &r, const Dataset &d) {
  ReqOpt q; q.w_access = 1; q.w_summary = 0.5; std::string t = gen_request(r, d, q); Base b; b.kind = t.compare(0, 9, "/v2/route") == 0 ? 0 : t.compare(0, 11, "/v2/summary") == 0 ? 1 : 2;
  std::string s = t.substr(t.find('?') + 1); size_t i = 0; while (i < s.size()) { size_t e = s.find('&', i); if (e == std::string::npos) e = s.size(); std::string f = s.substr(i, e - i); b.p.push_back({f.substr(0, f.find('=')), f.substr(f.find('=') + 1)}); i = e + 1; }
  return b;
}
// a request whose answer hangs on the limits: walks and waits around the defaults
Base edge_request(Rng &r, const Dataset &d) {
  Base b = base_request(r, d); if (d.nodes.empty() || d.lines.empty()) return b;
  bool rev = false; for (auto &x : b.p) if (x.first == "time_type" && x.second == "1") rev = true;
  auto walk = [&] { return r.chance(0.4) ? r.unit() * 300 : (1200 + (double)r.range(-500, 700)) * 1.3888; };
  // an actual trip
  std::vector<std::pair<const DTrip *, const DPath *>> ts; for (auto &l : d.lines) for (auto &s : l.schedules) for (auto &p : s.periods) for (auto &t : p.trips) if (const DPath *q = d.path(t.path)) if (q->nodes.size() > 1) ts.push_back({&t, q});
  if (ts.empty()) return b; auto &t = r.pick(ts); size_t n = t.second->nodes.size(), i = r.below(n - 1), j = i + 1 + r.below(n - 1 - i); const DNode *A = d.node(t.second->nodes[i]), *B = d.node(t.second->nodes[j]); if (!A || !B || i >= t.first->dep.size() || j >= t.first->arr.size()) return b;
  double wa = walk(), wb = walk();
  if (b.kind < 2) { set(b.p, "origin", near_node(r, *A, wa)); set(b.p, "destination", near_node(r, *B, wb)); } else set(b.p, "place", near_node(r, rev ? *B : *A, rev ? wb : wa));
  long tm = rev ? t.first->arr[j] + (long)(wb / 1.3888) + (long)r.range(-60, 700) : t.first->dep[i] - (long)(wa / 1.3888) - (r.chance(0.5) ? (long)r.range(0, 500) : (long)r.range(1500, 2300));
  set(b.p, "time_of_trip", std::to_string(std::max(0l, tm)));
  return b;
}
const char *LIMITS[] = {"max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time"};
const std::pair<const char *, const char *> DEFAULTS[] = {{"min_waiting_time", "180"}, {"max_access_travel_time", "1200"}, {"max_egress_travel_time", "1200"}, {"max_transfer_travel_time", "1200"}, {"max_first_waiting_time", "1800"}, {"max_travel_time", "0"}, {"time_type", "0"}, {"alternatives", "false"}};

std::string odd_int(Rng &r) {
  static const char *ok[] = {"0", "-1", "1", "2147483647", "-2147483648", "2147483646", "-2147483647", "32767", "32768", "-32768", "65535", "65536", "40000", "86399", "86400", "115199", "115200", "118799", "118800", "122400", "360000", "1000000", "1073741823", "1073741824", "2147480000", "2147483647", "2000000000", "600", "7200", "-3600", "60", "32767000", "255", "256", "4294967", "2147479000"};
  static const char *maybe[] = {"12abc", " 12", "+12", "1e3", "12.5", "2147483648", "-2147483649", "4294967296", "99999999999", "9223372036854775808", "-99999999999999999999", "0x10", "007", "nan", "inf", "-inf", "1 2", "1,2", "-0", "+0", "1_000", "12;", "0 ", "1.", ".5", "1e400"};
  static const char *bad[] = {"", "abc", "--5", "one", "null", "true", "x12", "-", "+", ".", "\xc3\xa9", "[]", "{}", "\"", "\\", "$5", "(1)", "a1b2", "-a", "e5", "\t", " ", "NULL", "undefined", "%", "'; drop table", "<script>"};
  double u = r.unit(); if (u < 0.6) return ok[r.below(sizeof ok / sizeof *ok)]; if (u < 0.75) return maybe[r.below(sizeof maybe / sizeof *maybe)]; if (u < 0.95) return bad[r.below(sizeof bad / sizeof *bad)];
  if (u < 0.97) return std::string("12\0" "34", 5); if (u < 0.98) return std::string(1 + r.below(9000), r.chance(0.5) ? '9' : 'a'); return std::to_string((int)r.next());
}
std::string odd_point(Rng &r, const Dataset &d) {
  static const char *v[] = {"", ",", "45.5", "45.5,", ",45.5", "abc", "abc,def", "-73.6,abc", "x,45.5", "-73.6,45.5,0", "-73.6;45.5", "-73.6 45.5", "-73.6,45.5 ", " -73.6,45.5", "1e1,45", "nan,nan", "inf,45", "-73.6,nan", "1e300,1e300", "-1e308,1e308", "1e400,5", "200,95", "-180,-90", "180,90", "0,0", "-73.6,90.0", "-73.6,-91", "-73.6abc,45.5", "0x10,45", "-0,0", "--1,2", "999,999", "-73.600001,45.500001", ",,", "-73.6,,45.5", "{},[]", "\"a\",\"b\"", "179.999999,45.5", "-73.6,89.999999", "1e-320,1e-320", "-73,45", "١,٢", "45.5,-73.6"};
  if (r.chance(0.05)) return std::string(1 + r.below(5000), '1') + "," + "45";
  if (r.chance(0.1) && !d.nodes.empty()) { auto &n = r.pick(d.nodes); return num(n.lon / 1e6) + "," + num(n.lat / 1e6); }
  return v[r.below(sizeof v / sizeof *v)];
}
std::string odd_uuid(Rng &r, const Dataset &d) {
  std::string u = d.scenarios.empty() ? gen_uuid(r) : r.pick(d.scenarios).uuid;
  switch (r.below(16)) {
    case 0: return ""; case 1: return "not-a-uuid"; case 2: return gen_uuid(r); case 3: return "00000000-0000-0000-0000-000000000000"; case 4: for (auto &c : u) c = toupper(c); return u;
    case 5: return "{" + u + "}"; case 6: return u + "x"; case 7: return u.substr(0, 35); case 8: u.erase(std::remove(u.begin(), u.end(), '-'), u.end()); return u; case 9: return " " + u; case 10: u[r.below(36)] = 'g'; return u;
    case 11: return d.services.empty() ? gen_uuid(r) : d.services[0].uuid; case 12: return u.substr(0, r.below(37)); case 13: return u + "," + u; case 14: return "{" + u; case 15: u[8] = '_'; return u;
  }
  return u;
}
void mutate(Rng &r, Base &b, const Dataset &d) {
  int n = 1 + (r.chance(0.35) ? r.below(4) : 0);
  for (int i = 0; i < n; i++) {
    std::string pt = b.kind == 2 ? "place" : r.chance(0.5) ? "origin" : "destination";
    switch (r.below(14)) {
      case 0: if (!b.p.empty()) b.p.erase(b.p.begin() + r.below(b.p.size())); break;
      case 1: drop(b.p, r.chance(0.3) ? pt : r.chance(0.5) ? "scenario_id" : "time_of_trip"); break;
      case 2: set(b.p, pt, odd_point(r, d)); break;
      case 3: set(b.p, "scenario_id", odd_uuid(r, d)); break;
      case 4: case 5: set(b.p, "time_of_trip", odd_int(r)); break;
      case 6: case 7: case 8: set(b.p, INTS[1 + r.below(6)], odd_int(r)); break;
      case 9: { static const char *v[] = {"0", "1", "2", "-1", "", "true", "01", "1 ", "abc", "10"}; set(b.p, "time_type", v[r.below(10)]); break; }
      case 10: { static const char *v[] = {"true", "1", "false", "0", "", "TRUE", "yes", "2", "True", "null"}; set(b.p, "alternatives", v[r.below(10)]); break; }
      case 11: { // a parameter twice
        if (b.p.empty()) break; auto x = r.pick(b.p); double u = r.unit(); if (u < 0.5) { bool in = false; for (auto k : INTS) in |= x.first == k; x.second = in ? odd_int(r) : x.first == "scenario_id" ? odd_uuid(r, d) : x.first == "origin" || x.first == "destination" || x.first == "place" ? odd_point(r, d) : "1"; }
        b.p.insert(b.p.begin() + r.below(b.p.size() + 1), x); break; }
      case 12: { static const char *k[] = {"foo", "type", "place", "origin", "data_source_id", "names", "", "time_of_trip_", "&", "cache"}; b.p.push_back({k[r.below(10)], r.chance(0.5) ? "line" : odd_int(r)}); break; }
      case 13: if (!d.services.empty() && !d.scenarios.empty()) { for (auto &s : d.scenarios) if (s.services.empty()) set(b.p, "scenario_id", s.uuid); } break;
    }
  }
}
std::string raw_noise(Rng &r, std::string t) { // damage at the level of the query string
  switch (r.below(9)) {
    case 0: { size_t q = t.find('?'); if (q != std::string::npos) t.insert(q, "/"); break; }
    case 1: t += "&"; break;
    case 2: { size_t q = t.find('&'); if (q != std::string::npos) t.insert(q, "&&=&=x&"); break; }
    case 3: { size_t q = t.find('='); if (q != std::string::npos) t.erase(q, 1); break; }
    case 4: { size_t q = t.find('?'); if (q != std::string::npos) t.resize(q + (r.chance(0.5) ? 1 : 0)); break; }
    case 5: { size_t q = t.find('&'); if (q != std::string::npos && q + 1 < t.size()) t = t.substr(0, t.find('?') + 1) + t.substr(q + 1) + "&" + t.substr(t.find('?') + 1, q - t.find('?') - 1); break; }
    case 6: t += r.chance(0.5) ? "&max_travel_time=%" : "&max_travel_time=5%0"; break;
    case 7: { size_t q = t.find(','); if (q != std::string::npos) t.replace(q, 1, "%2c"); break; }
    case 8: t += "&x=" + std::string(r.below(12000), 'y'); break;
  }
  return t;
}
const char *KNOWN[] = {"all", "data_sources", "persons", "od_trips", "agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules"};
const char *NKEYS[] = {"names", "caches", "cache_names", "name", "cache", "cache_name"};
const char *PKEYS[] = {"path", "custom_path", "custom_cache_path"};
bool known_name(const std::string &s) { for (auto k : KNOWN) if (s == k) return true; return false; }
std::string unknown_name(Rng &r) { static const char *v[] = {"", "foo", "ALL", "All", " all", "all ", "schedule", "node", "x\"y", "a\\b", "households", "places", "modes", "0", "null", "*", "caf\xc3\xa9", "../x", "{}", "a b", "\n", "all;", "nodes\n", "\x01"}; return v[r.below(24)]; }
std::string update_target(Rng &r, int what) { // 0 unknown only, 1 any mix, 2 only schedules/scenarios/all, 3 no names, 4 structural kinds
  Params p; static const char *safe[] = {"all", "schedules", "scenarios,schedules", "schedules,scenarios", "data_sources,persons,od_trips"};
  auto list = [&]() { int n = 1 + r.below(4); std::string s; for (int i = 0; i < n; i++) { if (i) s += ","; bool unk = what == 0 || (what != 4 && r.chance(0.4)); s += unk ? unknown_name(r) : what == 2 ? safe[r.below(5)] : KNOWN[r.below(11)]; } return s; };
  if (what != 3) { int n = r.chance(0.8) ? 1 : 2; for (int i = 0; i < n; i++) p.push_back({NKEYS[r.chance(0.6) ? 0 : r.below(6)], list()}); }
  if (r.chance(0.2)) p.push_back({r.chance(0.5) ? "foo" : "namess", r.chance(0.5) ? "all" : ""});
  std::string t = "/updateCache"; if (r.chance(0.2)) t += "/";
  return build(r, t, p, (int)r.below(3) == 0 ? 1 : 0);
}
const char *CODES_RS[] = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
std::string endpoint(const std::string &t) { std::string e = ep_of(t); while (!e.empty() && e.back() == '/') e.pop_back(); if (e == "/v2/route") return "route"; if (e == "/v2/summary") return "summary"; if (e == "/v2/accessibility") return "accessibility"; if (e == "/updateCache") return "updateCache"; return ""; }
std::set<std::string> split(const std::string &s) { std::set<std::string> o; size_t i = 0; while (true) { size_t e = s.find(',', i); o.insert(s.substr(i, e == std::string::npos ? e : e - i)); if (e == std::string::npos) break; i = e + 1; } return o; }
std::string cut(const std::string &s) { return s.size() > 260 ? s.substr(0, 260) + "..." : s; }
} // namespace

struct C18 : Prop {
  std::string id() const override { return "C18"; }
  Case gen(Rng &r) override {
    g_cpu_limit = 12;
    Case c; c.prop = "C18"; c.build = ctx.build; c.threads = r.chance(0.75) ? 1 : 3; c.cacheAll = r.chance(0.5); c.euclid = r.chance(0.8); c.debug = r.chance(0.1);
    GenOpt o; o.nodes_lo = 3; o.nodes_hi = 8; o.lines_lo = 1; o.lines_hi = 4; o.trips_hi = 4; o.scen_lo = 2; o.scen_hi = 4; o.late = r.chance(0.3);
    Dataset d0 = gen_dataset(r, o);
    if (r.chance(0.35)) for (auto &n : d0.nodes) for (auto &f : n.foot) if (f.to != n.uuid && r.chance(0.5)) f.time = 1000 + r.below(500);      // transfers around the default limit
    if (r.chance(0.2)) { int sh = 3600 * (int)r.below(41); for (auto &l : d0.lines) for (auto &s : l.schedules) for (auto &p : s.periods) for (auto &t : p.trips) { for (auto &x : t.arr) x += sh; for (auto &x : t.dep) x += sh; } }
    if (r.chance(0.3) && !d0.scenarios.empty()) d0.scenarios.back().services.clear();
    auto full = std::make_shared<Dataset>(d0); auto d = full;
    bool crippled = r.chance(0.1);
    if (crippled) { Dataset x = d0; switch (r.below(8)) { case 0: x.scenarios.clear(); break; case 1: for (auto &l : x.lines) l.schedules.clear(); break; case 2: x.agencies.clear(); break; case 3: x.services.clear(); break; case 4: x = Dataset(); break; case 5: x.nodes.clear(); break; case 6: x.lines.clear(); break; case 7: x.paths.clear(); break; } d = std::make_shared<Dataset>(x); }
    c.datasets.push_back(d); c.images.push_back({0, {}});
    if (crippled && r.chance(0.4)) { c.datasets.push_back(full); c.images.push_back({1, {}}); }
    int n = 3 + r.below(6), group = 0; bool dirty = false; std::vector<std::string> pool;
    auto step = [&](const std::string &t, const std::string &expect = "") { Step s; Op x; x.target = t; x.expect = expect; double u = r.unit(); if (u < 0.15) { x.mode = "ka"; x.conn = (int)r.below(2); } else if (u < 0.2) x.mode = "http10"; s.ops.push_back(x); c.steps.push_back(s); };
    const Dataset *live = full.get();
    for (int i = 0; i < n; i++) {
      double u = r.unit();
      if (u < 0.42) { // arbitrary query strings
        Base b = r.chance(0.5) ? base_request(r, *live) : edge_request(r, *live); if (r.chance(0.93)) mutate(r, b, *live); if (r.chance(0.25)) for (size_t k = b.p.size(); k > 1; k--) std::swap(b.p[k - 1], b.p[r.below(k)]);
        std::string t = build(r, path_of(b.kind), b.p, r.chance(0.6) ? 0 : r.chance(0.5) ? 1 : 2); if (r.chance(0.2)) t = raw_noise(r, t); pool.push_back(t); step(t);
        if (c.threads > 1 && r.chance(0.3)) { Op x; x.target = r.pick(pool); c.steps.back().ops.push_back(x); c.steps.back().ops[0].mode = "close"; }
      } else if (u < 0.60) { // omitted optional parameters and the documented defaults
        Base b = edge_request(r, *live); std::string g = "eq:" + std::to_string(group++); 
        if (r.chance(0.5)) for (auto &x : DEFAULTS) drop(b.p, x.first); else drop(b.p, DEFAULTS[r.below(6)].first);
        auto has = [&](const char *k) { for (auto &x : b.p) if (x.first == k) return true; return false; };
        step(build(r, path_of(b.kind), b.p, 0), g);
        Base full_b = b; for (auto &x : DEFAULTS) if (!has(x.first) && (strcmp(x.first, "alternatives") || b.kind < 2)) full_b.p.push_back({x.first, x.second});
        for (size_t k = full_b.p.size(); k > 1; k--) std::swap(full_b.p[k - 1], full_b.p[r.below(k)]);
        step(build(r, path_of(b.kind) + (r.chance(0.2) ? "/" : ""), full_b.p, r.chance(0.3)), g);
        if (r.chance(0.3)) { Base one = b; for (auto &x : DEFAULTS) if (!has(x.first) && (strcmp(x.first, "alternatives") || b.kind < 2) && r.chance(0.4)) one.p.push_back({x.first, x.second}); step(build(r, path_of(b.kind), one.p, 0), g); }
      } else if (u < 0.80) { // no limit
        Base b = edge_request(r, *live); std::string g = "eq:" + std::to_string(group++); int which = r.below(6);
        static const char *np[] = {"0", "-1", "-5", "-2147483648", "-2147483647", "-32768", "-65536", "-1200", "-86400"};
        std::vector<std::string> keys; if (which < 5) keys.push_back(LIMITS[which]); else { for (auto k : LIMITS) if (r.chance(0.5)) keys.push_back(k); if (keys.empty()) keys.push_back(LIMITS[r.below(5)]); }
        int m = 2 + r.below(2);
        for (int v = 0; v < m; v++) { Base z = b; for (auto &k : keys) set(z.p, k, v == 0 ? (r.chance(0.5) ? "1000000" : "300000") : np[r.below(9)]); step(build(r, path_of(z.kind), z.p, 0), g); }
        if (r.chance(0.3)) { std::string h = "eq:" + std::to_string(group++); for (int v = 0; v < 2; v++) { Base z = b; set(z.p, "min_waiting_time", v ? np[1 + r.below(8)] : "0"); step(build(r, path_of(z.kind), z.p, 0), h); } }
      } else { // cache refreshes
        double w = r.unit(); int what = w < 0.3 ? 0 : w < 0.45 ? 1 : w < 0.75 ? 2 : w < 0.85 ? 3 : 4;
        std::string t = update_target(r, what); if (r.chance(0.06)) t += (t.find('?') == std::string::npos ? "?" : "&") + std::string(PKEYS[r.below(3)]) + "=" + enc(r, r.chance(0.5) ? "nowhere" : r.chance(0.5) ? "a\"b" : "x\\y\n", 0);
        step(t, "update");
        Multi m = parse(t); bool structural = false, knownn = false, path = false; std::set<std::string> names; for (auto k : NKEYS) for (auto &v : all(m, k)) for (auto &x : split(v)) if (known_name(x)) { knownn = true; names.insert(x); if (x != "all" && x != "schedules" && x != "scenarios") structural = true; } for (auto k : PKEYS) path |= m.count(k) > 0;
        dirty = knownn && (structural || path) ;
        if (dirty) step("/updateCache?names=all", "update");       // the other caches refer to the replaced ones
        if (crippled && c.images.size() > 1 && r.chance(0.4)) { Step s; s.image = 1; Op x; x.target = "/updateCache?names=all"; x.expect = "update"; s.ops.push_back(x); c.steps.push_back(s); }
        if (!pool.empty()) step(r.pick(pool));
      }
    }
    c.pol = gen_policy(r, false, c.threads > 1);
    return c;
  }
  Verdict check(const Case &c, const Run &r) override {
    if (auto v = run_failure(r); v.bad) return v;
    std::map<std::string, std::pair<std::string, const OpResult *>> groups; int img = 0, disk = 0; bool unsure = false;
    for (size_t s = 0; s < c.steps.size(); s++) {
      if (c.steps[s].image >= 0) { disk = c.steps[s].image; if (s == 0) img = disk; }
      for (size_t k = 0; k < c.steps[s].ops.size(); k++) {
        const Op &o = c.steps[s].ops[k]; const OpResult &q = r.res[s][k]; json b; std::string w; std::string ep = endpoint(o.target);
        auto bad = [&](const std::string &sig, const std::string &what) { return fail(ep + " " + sig, "GET " + cut(o.target) + ": " + what); };
        if (!well_formed(q, &b, &w)) return bad("malformed", w);
        if (ep.empty()) continue;
        Multi m = parse(o.target);
        if (ep == "updateCache") {
          ctx.n["updates"]++;
          std::set<std::string> names, cutn; bool path = false;
          for (auto x : NKEYS) for (auto &v : all(m, x)) { for (auto &y : split(v)) if (known_name(y)) names.insert(y); if (v.find('=') != std::string::npos) cutn.insert("="); }
          for (auto x : PKEYS) path |= m.count(x) > 0;
          if (q.status() != 200) return bad("status", "answered with HTTP " + std::to_string(q.status()));
          std::string st = b.value("status", "");
          if (names.empty()) { ctx.n["updates_without_known_name"]++; if (st != "error" || !b.contains("error")) return bad("unknown names", "no known cache name was given, but the answer is " + cut(q.body)); continue; }
          if (st != "success") return bad("known names", "answered " + cut(q.body));
          std::set<std::string> told; const json &cn = b.contains("cache_names") ? b["cache_names"] : json();
          if (cn.is_string()) told = split(cn.get<std::string>()); else if (cn.is_array()) { for (auto &x : cn) if (x.is_string()) told.insert(x.get<std::string>()); }
          if (told != names) return bad("names", "names of the refreshed caches: " + cn.dump(-1, ' ', true, json::error_handler_t::replace) + " in the answer");
          unsure = path || (unsure && !names.count("all"));
          if (names.count("all") || names.size() >= 7) img = disk;
          continue;
        }
        const Dataset &d = *c.datasets[c.images[img].dataset];
        Defects D = defects(ep, m, d); std::string st = b.value("status", ""), code = b.value("errorCode", ""); int hs = q.status();
        std::set<std::string> missing; if (d.agencies.empty()) missing.insert("MISSING_DATA_AGENCIES"); if (d.services.empty()) missing.insert("MISSING_DATA_SERVICES"); if (d.nodes.empty()) missing.insert("MISSING_DATA_NODES"); if (d.lines.empty()) missing.insert("MISSING_DATA_LINES"); if (d.paths.empty()) missing.insert("MISSING_DATA_PATHS"); if (d.scenarios.empty()) missing.insert("MISSING_DATA_SCENARIOS");
        bool usable = d.trip_count() > 0 && missing.empty(); if (!usable) missing.insert("MISSING_DATA_SCHEDULES");
        ctx.n["answer_" + st + (code.empty() ? "" : "_" + code)]++;
        if (st == "query_error") {
          if (hs != 400) return bad("status", "query_error with HTTP " + std::to_string(hs));
          bool listed = false; for (auto x : CODES_RS) listed |= code == x; if (ep == "accessibility") listed = (listed && code.find("ORIGIN") == std::string::npos && code.find("DESTINATION") == std::string::npos) || code == "MISSING_PARAM_PLACE" || code == "INVALID_PLACE";
          if (!listed) return bad("code", "errorCode \"" + code + "\" is not documented for this endpoint");
          if (!D.must.count(code) && !D.may.count(code)) { if (!usable || unsure) { ctx.n["query_error_without_data"]++; continue; } std::string l; for (auto &x : D.must) l += " " + x; for (auto &x : D.may) l += " (" + x + ")"; return bad("wrong code", "errorCode " + code + " names no defect of the request; its defects:" + (l.empty() ? " none" : l)); }
          ctx.n["defect_named"]++;
        } else if (st == "data_error") {
          if (hs != 200) return bad("status", "data_error with HTTP " + std::to_string(hs));
          if (unsure) { if (code.compare(0, 13, "MISSING_DATA_") && code != "DATA_ERROR") return bad("code", "data_error with code \"" + code + "\""); continue; }
          if (usable) return bad("data error", "data_error " + code + " although the data is complete");
          if (!missing.count(code)) { std::string l; for (auto &x : missing) l += " " + x; return bad("data error", "data_error " + code + " although the missing data is" + l); }
        } else if (st == "success" || st == "no_routing_found") {
          if (hs != 200) return bad("status", st + " with HTTP " + std::to_string(hs));
          if (!usable && !unsure) return bad("data error", st + " without data");
          if (!D.must.empty()) { std::string l; for (auto &x : D.must) l += " " + x; return bad("defect overlooked", "answered " + st + " although the request has the defects" + l); }
          if (auto v = echo(ep, m, b, o.target); v.bad) return v;
          if (auto v = shape(ep, st, b, o.target); v.bad) return v;
          ctx.n["echo_checked"]++;
        } else return bad("status", "HTTP " + std::to_string(hs) + " with status \"" + st + "\"");
        if (o.expect.compare(0, 3, "eq:") == 0 && !unsure) {
          auto it = groups.find(o.expect); if (it == groups.end()) groups[o.expect] = {o.target, &q};
          else { std::string diff; ctx.n["equal_answers_compared"]++; if (st == "success") ctx.n["equal_answers_with_result"]++; if (!same_response(q, *it->second.second, &diff)) return bad("not equivalent", "should be answered like " + cut(it->second.first) + ": " + diff); }
        }
      }
    }
    return {};
  }
  static Verdict echo(const std::string &ep, const Multi &m, const json &b, const std::string &t) {
    auto bad = [&](const std::string &what) { return fail(ep + " echo", "GET " + cut(t) + ": " + what + " in " + (b.contains("query") ? b["query"].dump() : "(no query)")); };
    if (!b.contains("query") || !b["query"].is_object()) return bad("no query object");
    const json &q = b["query"];
    auto point = [&](const char *name) -> bool {
      bool any = false; auto v = all(m, name); if (!q.contains(name) || !q[name].is_array() || q[name].size() != 2) return false;
      for (auto &x : v) { double lon = 0, lat = 0; Kind k = point_kind(x, &lon, &lat); if (k == MAYBE) return true; if (k == OK && q[name][0].is_number() && q[name][1].is_number() && fabs(q[name][0].get<double>() - lon) < 1e-9 && fabs(q[name][1].get<double>() - lat) < 1e-9) any = true; }
      return any;
    };
    if (ep == "accessibility") { if (!point("place")) return bad("place is not echoed"); } else { if (!point("origin")) return bad("origin is not echoed"); if (!point("destination")) return bad("destination is not echoed"); }
    bool ok = false; for (auto &x : all(m, "time_of_trip")) { long i = 0; Kind k = int_kind(x, &i); if (k == MAYBE) ok = true; if (k == OK && q.contains("timeOfTrip") && q["timeOfTrip"] == i) ok = true; } if (!ok) return bad("timeOfTrip is not echoed");
    auto tt = all(m, "time_type"); bool strict = true; std::set<int> can; if (tt.empty()) can.insert(0); for (auto &x : tt) if (x == "0") can.insert(0); else if (x == "1") can.insert(1); else strict = false;
    if (!q.contains("timeType") || !q["timeType"].is_number_integer()) return bad("no timeType"); if (strict && !can.count(q["timeType"].get<int>())) return bad("timeType is not echoed");
    return {};
  }
  static Verdict shape(const std::string &ep, const std::string &st, const json &b, const std::string &t) {
    auto bad = [&](const std::string &what) { return fail(ep + " shape", "GET " + cut(t) + ": " + what + ": " + cut(b.dump())); };
    if (st == "no_routing_found") {
      if (ep == "summary") return bad("the summary has no status no_routing_found");
      std::set<std::string> R = {"NO_ROUTING_FOUND"}; if (ep == "accessibility") { R.insert("NO_ACCESS_AT_PLACE"); R.insert("NO_SERVICE_AT_PLACE"); } else for (auto x : {"NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION"}) R.insert(x);
      if (!R.count(b.value("reason", ""))) return bad("undocumented reason");
      return {};
    }
    if (!b.contains("result") || !b["result"].is_object()) return bad("success without a result"); const json &x = b["result"];
    if (ep == "route" && (!x.contains("routes") || !x["routes"].is_array() || x["routes"].empty())) return bad("success without routes");
    if (ep == "summary" && (!x.contains("nbRoutes") || !x["nbRoutes"].is_number_integer() || !x.contains("lines") || !x["lines"].is_array())) return bad("summary without nbRoutes and lines");
    if (ep == "accessibility" && (!x.contains("nodes") || !x["nodes"].is_array() || !x.contains("totalNodeCount"))) return bad("success without nodes");
    return {};
  }
};
Prop *make_c18() { return new C18(); }
} // namespace sim
