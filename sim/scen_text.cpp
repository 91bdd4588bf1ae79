// Text rendering into character areas of every size: C18. Only in builds with MSG_TO_STRING.
#include "util.h"
#include <cmath>
#include <set>
#ifdef MSG_TO_STRING
namespace {
struct Area {                                        // exactly sized block between guards that only the sanitizer sees
  uint32_t n; char* p;
  explicit Area(uint32_t size) : n(size), p(static_cast<char*>(malloc(size ? size : 1))) { memset(p, 'x', size ? size : 1); }
  ~Area() { free(p); } Area(const Area&) = delete; Area& operator=(const Area&) = delete;
};
struct Rendered { std::string text; uint32_t left; size_t used; };
// renders at the beginning of an area of n characters and judges the use of the area
Rendered render(const MsgOps* t, const void* obj, uint32_t n, bool null_area) {
  Area a(n); char* end = nullptr; char* area = null_area ? nullptr : a.p; Rendered r; r.left = t->to_string(obj, area, n, &end); r.used = static_cast<size_t>(end - area);
  REQUIRE(end >= area && end <= area + n && r.used + r.left == n, "view", "%s: of %u characters %zu are used and %u left", label_of(t), n, r.used, r.left);
  if(n) { size_t k = strnlen(a.p, n); REQUIRE(k < n, "unterminated", "%s: the text in an area of %u characters is not terminated", label_of(t), n); r.text.assign(a.p, k); REQUIRE(r.used == k, "view", "%s: the text has %zu characters and the rest starts at %zu", label_of(t), k, r.used); }
  return r;
}
std::string render_full(const MsgOps* t, const void* obj) {
  for(uint32_t n = 4096; n <= (1u << 27); n *= 4) { Rendered r = render(t, obj, n, false); if(r.text.size() + 1 < n) return r.text; }
  violation("endless", "%s: the text does not fit into 128 MB", label_of(t));
}
void prefix(const MsgOps* t, const void* obj, const std::string& full, uint32_t n) {
  Rendered r = render(t, obj, n, n == 0 && coin()); step(); if(n <= full.size()) count_fault("text_area_too_small"); if(!n) return;
  REQUIRE(r.text.size() <= full.size() && 0 == full.compare(0, r.text.size(), r.text), "prefix", "%s: the text in %u characters is not the beginning of the full text: ...%s", label_of(t), n, r.text.substr(r.text.size() > 60 ? r.text.size() - 60 : 0).c_str());
  REQUIRE(r.text.size() == std::min<size_t>(full.size(), n - 1), "prefix", "%s: %zu of %zu characters were written although there is room for %u", label_of(t), r.text.size(), full.size(), n - 1);
}
// ---- reading the text; white space does not matter
struct Tok { const std::string& s; size_t i = 0; explicit Tok(const std::string& x) : s(x) {}
  void ws() { while(i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i; }
  bool is(char c) { ws(); if(i < s.size() && s[i] == c) { ++i; return true; } return false; }
  bool str(std::string& o) { ws(); if(i >= s.size() || s[i] != '"') return false; size_t e = s.find('"', i + 1); if(e == std::string::npos) return false; o = s.substr(i + 1, e - i - 1); i = e + 1; return true; }
  std::string word() { ws(); size_t b = i; while(i < s.size() && (isalnum(static_cast<unsigned char>(s[i])) || s[i] == '-' || s[i] == '+' || s[i] == '.')) ++i; return s.substr(b, i - b); }
};
#define SHOWS(c, ...) REQUIRE(c, "shown", __VA_ARGS__)
void shown_scalar(const FieldOps& fo, uint64_t raw, const std::string& w) {
  bool ok; char want[400];
  switch(fo.kind) {
    case K_BOOL: snprintf(want, sizeof want, "%s", raw ? "true" : "false"); ok = w == want || w == (raw ? "1" : "0"); break;
    case K_FLOAT: case K_DOUBLE: { double v; if(fo.kind == K_FLOAT) { float f; uint32_t x = static_cast<uint32_t>(raw); memcpy(&f, &x, 4); v = f; } else memcpy(&v, &raw, 8); snprintf(want, sizeof want, "%f", v); char* e = nullptr; double g = strtod(w.c_str(), &e); ok = !w.empty() && *e == 0 && (std::isnan(v) ? std::isnan(g) : std::isinf(v) ? g == v : std::fabs(g - v) <= 1e-6 * (1 + std::fabs(v))); break; }
    case K_INT32: case K_SINT32: case K_SFIXED32: snprintf(want, sizeof want, "%d", static_cast<int32_t>(raw)); ok = w == want; break;
    case K_INT64: case K_SINT64: case K_SFIXED64: snprintf(want, sizeof want, "%lld", static_cast<long long>(raw)); ok = w == want; break;
    case K_ENUM: snprintf(want, sizeof want, "%d", static_cast<int32_t>(raw)); ok = w == want || w == std::to_string(static_cast<uint32_t>(raw)); break;
    default: snprintf(want, sizeof want, "%llu", static_cast<unsigned long long>(raw)); ok = w == want;
  }
  SHOWS(ok, "%s is %s and shown as '%s'", fo.name, want, w.substr(0, 100).c_str());
}
void shown_msg(const MsgVal& v, Tok& k);
void shown_bytes(const FieldOps& fo, const std::string& b, Tok& k) {
  SHOWS(k.is('['), "%s: no list of bytes", fo.name); for(size_t i = 0; i < b.size(); ++i) { SHOWS(!i || k.is(','), "%s: no comma before byte %zu", fo.name, i); std::string w = k.word(); SHOWS(w == std::to_string(static_cast<uint8_t>(b[i])), "%s: byte %zu is %u and shown as '%s'", fo.name, i, static_cast<uint8_t>(b[i]), w.c_str()); } SHOWS(k.is(']'), "%s: more than %zu bytes are shown", fo.name, b.size());
}
void shown_one(const FieldOps& fo, const FVal& f, int at, Tok& k) {
  if(is_scalar(fo.kind)) shown_scalar(fo, at < 0 ? f.s : f.rs[at], k.word());
  else if(fo.kind == K_MSG) shown_msg(f.m[at < 0 ? 0 : at], k);
  else if(fo.kind == K_BYTES) shown_bytes(fo, at < 0 ? f.b : f.rb[at], k);
  else { const std::string& b = at < 0 ? f.b : f.rb[at]; std::string s; SHOWS(k.str(s), "%s: no text", fo.name); SHOWS(s == b, "%s is '%s' (%zu) and shown as '%s' (%zu)", fo.name, b.substr(0, 60).c_str(), b.size(), s.substr(0, 60).c_str(), s.size()); }
}
void shown_msg(const MsgVal& v, Tok& k) {
  SHOWS(k.is('{'), "%s: no opening brace", label_of(v.t)); std::set<uint32_t> seen; std::string name;
  while(!k.is('}')) {
    SHOWS(seen.empty() || k.is(','), "%s: no comma behind %s", label_of(v.t), name.c_str());
    SHOWS(k.str(name) && k.is(':'), "%s: neither a name nor the end after %zu characters", label_of(v.t), k.i); uint32_t i = 0; while(i < v.t->nfields && name != v.t->fields[i].name) ++i; SHOWS(i < v.t->nfields, "%s: unknown name '%s'", label_of(v.t), name.c_str());
    const FieldOps& fo = v.t->fields[i]; SHOWS(fo.card != C_ONEOF || v.which[fo.oneof] == fo.num, "%s: %s is shown and not set", label_of(v.t), fo.name); SHOWS(seen.insert(i).second, "%s: %s is shown twice", label_of(v.t), fo.name);
    if(fo.card != C_REP) { shown_one(fo, v.f[i], -1, k); continue; }
    SHOWS(k.is('['), "%s: no list", fo.name); size_t n = v.f[i].rs.size() + v.f[i].rb.size() + v.f[i].m.size(); for(size_t q = 0; q < n; ++q) { k.ws(); SHOWS(k.i < k.s.size() && k.s[k.i] != ']', "%s: %zu of %zu elements are shown", fo.name, q, n); SHOWS(!q || k.is(','), "%s: no comma before element %zu", fo.name, q); shown_one(fo, v.f[i], static_cast<int>(q), k); } SHOWS(k.is(']'), "%s: more than %zu elements are shown", fo.name, n);
  }
  for(uint32_t i = 0; i < v.t->nfields; ++i) { const FieldOps& fo = v.t->fields[i]; if(fo.card == C_ONEOF && v.which[fo.oneof] != fo.num) continue; SHOWS(seen.count(i), "%s: %s is not shown", label_of(v.t), fo.name); }
}
void shown(const MsgVal& v, const std::string& text) { Tok k(text); shown_msg(v, k); k.ws(); SHOWS(k.i == text.size(), "%s: text after the end: '%s'", label_of(v.t), text.substr(k.i, 60).c_str()); }
void areas(const MsgOps* t, const void* obj, const std::string& full) {
  uint32_t n = static_cast<uint32_t>(full.size()); if(n < 500 && chance(1, 6)) { for(uint32_t k = 0; k <= n + 2; ++k) prefix(t, obj, full, k); return; }
  uint32_t m = 2 + pick(6); for(uint32_t k = 0; k < m; ++k) { uint32_t a; switch(pick(7)) { case 0: a = n + 1; break; case 1: a = n; break; case 2: a = n ? n - 1 : 0; break; case 3: a = pick(4); break; case 4: a = n + 2 + pick(50); break; default: a = pick(n + 2); } prefix(t, obj, full, a); }
}
}
SCENARIO("C18", text_areas, 5) { // any content, any area
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); ObjP o = obj_of(v, g); nontrivial(); std::string full = render_full(t, o->p); NOTE("%s %s: %zu characters", label_of(t), show(v).c_str(), full.size()); ev_bytes("text", reinterpret_cast<const uint8_t*>(full.data()), full.size());
  areas(t, o->p, full); check_same("unchanged", v, snap(t, o->p), 0, "the message after rendering");
}
SCENARIO("C18", text_content, 5) { // what is shown
  GenCfg g = swarm_cfg(); g.alnum = true; const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); ObjP o = obj_of(v, g); nontrivial(); std::string full = render_full(t, o->p); NOTE("%s %s\n%s", label_of(t), show(v).c_str(), full.c_str()); ev_bytes("text", reinterpret_cast<const uint8_t*>(full.data()), full.size()); shown(v, full); if(coin()) areas(t, o->p, full);
}
SCENARIO("C18", names_of_numbers, 1) { // a log names fields by number
  const MsgOps* t = pick_message(); nontrivial(); ev("names", t->nfields); NOTE("%s", label_of(t)); for(uint32_t i = 0; i < t->nfields; ++i) { const char* n = t->num_name(t->fields[i].num); REQUIRE(n && 0 == strcmp(n, t->fields[i].name), "field-name", "%s: number %u is called %s, its name is %s", label_of(t), t->fields[i].num, n ? n : "(null)", t->fields[i].name); }
  for(uint32_t k = 0; k < 6; ++k) { uint32_t u = k == 0 ? 0 : pick(1u << (1 + pick(29))); bool known = false; for(uint32_t i = 0; i < t->nfields; ++i) known = known || t->fields[i].num == u; if(known) continue; const char* n = t->num_name(u); for(uint32_t i = 0; n && i < t->nfields; ++i) REQUIRE(strcmp(n, t->fields[i].name), "field-name", "%s: the unknown number %u is called %s", label_of(t), u, n); }
}
SCENARIO("C18", text_history, 4) { // a log of one object through its life: set, received (also half), copied, cleared
  GenCfg g = swarm_cfg(); g.alnum = true; const MsgOps* t = pick_message(false); ObjP o = default_obj(t, g); uint32_t n = 2 + pick(6); nontrivial(); MsgVal v(t);
  for(uint32_t k = 0; k < n; ++k) {
    switch(pick(6)) { case 0: t->o.clear(o->p); v = MsgVal(t); break; case 1: { ObjP c(new Obj(t, o->p, 0)); o = std::move(c); break; } case 2: { Bytes b = encode(gen_msg(t, g)); if(!b.empty()) b.resize(pick(static_cast<uint32_t>(b.size()))); parse(t, o->p, b, pick(RK_N)); count_fault("input_cut"); v = snap(t, o->p); break; } case 3: { MsgVal m = gen_msg(t, g); Bytes b = encode(m); if(parse(t, o->p, b, pick(RK_N)) != E_OK) count_fault("parse_failed"); v = snap(t, o->p); break; } case 4: { if(t->nfields) { const FieldOps& fo = t->fields[pick(t->nfields)]; fo.clear(o->p); v = snap(t, o->p); } break; } default: v = gen_msg(t, g); t->o.clear(o->p); build(t, o->p, v); }
    std::string full = render_full(t, o->p); NOTE("%s", full.c_str()); ev_bytes("text", reinterpret_cast<const uint8_t*>(full.data()), full.size()); shown(v, full); if(chance(1, 3)) areas(t, o->p, full);
  }
}
SCENARIO("C18", shared_area, 3) { // several messages one behind the other in one area, as a logger does
  GenCfg g = swarm_cfg(); uint32_t n = 2 + pick(3); nontrivial(); std::vector<ObjP> o; std::string all; for(uint32_t i = 0; i < n; ++i) { const MsgOps* t = pick_message(false); o.push_back(obj_of(gen_msg(t, g), g)); all += render_full(t, o.back()->p); }
  uint32_t room = coin() ? static_cast<uint32_t>(all.size()) + 1 + pick(20) : pick(static_cast<uint32_t>(all.size()) + 2); if(room <= all.size()) count_fault("text_area_too_small"); Area a(room); char* at = a.p; uint32_t left = room;
  for(uint32_t i = 0; i < n; ++i) { char* e = nullptr; uint32_t l = o[i]->t->to_string(o[i]->p, at, left, &e); REQUIRE(e >= at && e <= a.p + room && static_cast<uint32_t>(a.p + room - e) == l, "view", "message %u: the rest starts at %td of %u with %u left", i, e - a.p, room, l); at = e; left = l; }
  ev("log", room, left); if(room) { size_t k = strnlen(a.p, room); REQUIRE(k < room, "unterminated", "the text in an area of %u characters is not terminated", room); std::string got(a.p, k); bool nul = all.find('\0') != std::string::npos; (void)nul; REQUIRE(got == all.substr(0, std::min<size_t>(all.size(), room - 1)), "prefix", "%u messages rendered one after the other into %u characters give %zu characters that are not the beginning of their texts", n, room, k); }
}
#endif
