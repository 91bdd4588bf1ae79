#include "model.h"
#include <cmath>
#include "ReadBufferFixedSize.h"
#include "WriteBufferFixedSize.h"

// ---------------------------------------------------------------------------------------------------------------
static std::vector<const MsgOps*> g_msgs; static std::vector<std::string> g_labels;
void register_message(const MsgOps* m, const char* label) { g_msgs.push_back(m); g_labels.push_back(label); }
extern void register_all();
void check_tables() {
  register_all();
  std::vector<size_t> ix(g_msgs.size()); for(size_t i = 0; i < ix.size(); ++i) ix[i] = i;
  std::sort(ix.begin(), ix.end(), [](size_t a, size_t b) { return g_labels[a] < g_labels[b]; });
  std::vector<const MsgOps*> m; std::vector<std::string> l; for(size_t i : ix) { m.push_back(g_msgs[i]); l.push_back(g_labels[i]); } g_msgs = m; g_labels = l;
}
const std::vector<const MsgOps*>& all_messages() { return g_msgs; }
const char* label_of(const MsgOps* t) { for(size_t i = 0; i < g_msgs.size(); ++i) if(g_msgs[i] == t) return g_labels[i].c_str(); return t->name; }
const MsgOps* msg_by_name(const char* n) {
  for(size_t i = 0; i < g_msgs.size(); ++i) if(g_labels[i] == n) return g_msgs[i];
  for(size_t i = 0; i < g_msgs.size(); ++i) if(std::string(g_msgs[i]->name) == n) return g_msgs[i];
  fprintf(stderr, "no message %s\n", n); abort();
}
bool is_heavy(const MsgOps* t) { return t->o.size > 9000; }
const std::vector<const MsgOps*>& drawn_messages() { static std::vector<const MsgOps*> d; static bool done = false; if(!done) { done = true; for(const MsgOps* t : g_msgs) if(0 == strncmp(t->name, "rx.", 3)) d.push_back(t); } return d; }
const MsgOps* pick_message(bool allow_heavy) {
  const std::vector<const MsgOps*>& d = drawn_messages(); if(!d.empty() && chance(1, 6)) return d[pick(static_cast<uint32_t>(d.size()))];
  for(int k = 0; k < 8; ++k) {
    const MsgOps* t = g_msgs[pick(static_cast<uint32_t>(g_msgs.size()))];
    if(is_heavy(t)) { if(!allow_heavy || !chance(1, 3)) continue; count_probe("heavy_message"); }
    return t;
  }
  return g_msgs[0];
}
int wiretype(Kind k) {
  switch(k) { case K_FIXED64: case K_SFIXED64: case K_DOUBLE: return 1; case K_FIXED32: case K_SFIXED32: case K_FLOAT: return 5; case K_STRING: case K_BYTES: case K_MSG: return 2; default: return 0; }
}
MsgVal::MsgVal(const MsgOps* ops) : t(ops), f(ops->nfields), which(ops->noneofs, 0) {
  for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].kind == K_MSG && t->fields[i].card != C_REP) { if(t->fields[i].card != C_ONEOF) f[i].m.emplace_back(t->fields[i].msg()); }
}
FVal* MsgVal::by_num(uint32_t n, const FieldOps** fo) { for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].num == n) { if(fo) *fo = &t->fields[i]; return &f[i]; } return nullptr; }
void reset_field(const FieldOps& fo, FVal& v) { v = FVal(); if(fo.kind == K_MSG && fo.card != C_REP && fo.card != C_ONEOF) v.m.emplace_back(fo.msg()); }
void set_which(MsgVal& v, int of, uint32_t num) {
  if(v.which[of] == num) return;
  for(uint32_t i = 0; i < v.t->nfields; ++i) {
    const FieldOps& fo = v.t->fields[i]; if(fo.oneof != of) continue;
    reset_field(fo, v.f[i]);
    if(fo.num == num) { v.f[i].has = true; if(fo.kind == K_MSG) v.f[i].m.emplace_back(fo.msg()); }
  }
  v.which[of] = num;
}

// ---------------------------------------------------------------------------------------------------------------
static uint32_t g_dirty_mode = 0; static uint64_t g_dirty_ctr = 0;
void dirty(void* p, size_t n) {
  uint8_t* q = static_cast<uint8_t*>(p); ++g_dirty_ctr;
  switch(g_dirty_mode) { case 0: memset(q, 0xA5, n); break; case 1: memset(q, 0xFF, n); break; case 2: memset(q, 0x01, n); break;
    default: { Prng r(g_dirty_ctr); for(size_t i = 0; i < n; ++i) q[i] = static_cast<uint8_t>(r.next()); } }
}
GenCfg swarm_cfg() {
  GenCfg c; static const uint32_t D[] = { 50, 10, 25, 75, 95 }; c.density = D[pick(5)]; c.style = pick(5); g_dirty_mode = pick(4); g_dirty_ctr = 0; return c;
}
static uint64_t trunc_kind(Kind k, uint64_t v) { if(k == K_BOOL) return v != 0; return is64(k) ? v : (v & 0xffffffffu); }
uint64_t gen_scalar(Kind k, const GenCfg& c) {
  if(k == K_BOOL) return pick(2);
  if(k == K_DOUBLE || k == K_FLOAT) {
    static const double F[] = { 0.0, 1.0, -1.0, 0.5, 3.141592653589793, 1e10, -2.5e-7, 123456.789 };
    uint32_t q = pick(c.finite ? 10 : 16); double d;
    if(q < 8) d = F[q]; else if(q < 10) d = (static_cast<double>(pick(2000001)) - 1000000.0) / 64.0;
    else if(q == 10) d = INFINITY; else if(q == 11) d = -INFINITY; else if(q == 12) d = NAN; else if(q == 13) d = -0.0;
    else { uint64_t r = pick64(); return k == K_FLOAT ? (r & 0xffffffffu) : r; }
    if(k == K_FLOAT) { float x = static_cast<float>(d); return Raw<float>::to(x); } return Raw<double>::to(d);
  }
  if(k == K_ENUM) { static const uint32_t E[] = { 0, 1, 2, 127, 128, 200, 300, 16384, 0x7fffffff, 3, 0xffffffff, 0x80000000 }; uint32_t q = pick(14); if(q < 12) return E[q]; return pick(0); }
  uint32_t bits = is64(k) ? 64 : 32, q; uint64_t v = 0;
  static const uint32_t W[5][9] = { {2,2,3,3,2,2,2,1,2}, {4,4,4,0,0,0,0,0,0}, {0,1,0,8,1,1,1,0,0}, {0,0,1,1,4,4,4,0,1}, {0,0,0,0,0,0,0,4,4} };
  q = pickw(W[c.style]);
  switch(q) {
    case 0: v = 0; break; case 1: v = 1 + pick(3); break; case 2: v = pick(300); break;
    case 3: { uint32_t sh = 7 * (1 + pick(bits / 7)); v = (sh >= 64 ? 0 : (1ull << sh)); v += pick(3); v -= 1; if(k == K_SINT32 || k == K_SINT64) { v = (v >> 1) ^ (~(v & 1) + 1); } break; }
    case 4: v = ~0ull; break;                                    // -1 or the unsigned maximum
    case 5: v = (1ull << (bits - 1)) - 1 + pick(2); break;       // signed maximum, signed minimum
    case 6: v = 0ull - (1 + pick(300)); break;                   // small negatives
    case 7: v = pick(0); break;
    default: v = pick64(); break;
  }
  return trunc_kind(k, v);
}
uint32_t gen_len(uint32_t cap, const GenCfg& c) {
  uint32_t m = std::min(cap, c.maxlen), r;
  switch(pick(9)) {
    case 0: r = std::min(1u, m); break; case 1: r = 0; break; case 2: r = std::min(2u, m); break; case 3: r = m; break; case 4: r = m ? m - 1 : 0; break;
    case 5: r = std::min(m, 126 + pick(4)); break; case 6: r = m > 300 ? std::min(m, 16382 + pick(4)) : pick(m + 1); break; default: r = pick(std::min(m, 64u) + 1); break;
  }
  return r;
}
std::string gen_str(uint32_t cap, Kind k, const GenCfg& c) {
  uint32_t n = gen_len(cap, c); std::string s(n, 'a'); if(!n) return s;
  uint32_t pat = pick(5);
  if(c.alnum) pat = (pat == 0) ? 0 : 5;
  if(c.utf8 && k == K_STRING && pat > 1) pat = 5;
  switch(pat) {
    case 0: for(uint32_t i = 0; i < n; ++i) s[i] = static_cast<char>('a' + i % 26); break;
    case 1: { char ch = static_cast<char>('A' + pick(26)); s.assign(n, ch); break; }
    case 2: { Prng r(pick(1u << 16)); for(auto& ch : s) ch = static_cast<char>(r.next()); break; }
    case 3: s.assign(n, static_cast<char>(pick(2) ? 0xFF : 0)); break;
    case 4: { Prng r(pick(1u << 16)); for(auto& ch : s) ch = static_cast<char>((r.next() & 7) | 0x08); break; } // looks like tags and lengths
    default: { Prng r(pick(1u << 16)); static const char* A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; for(auto& ch : s) ch = A[r.below(62)]; break; }
  }
  return s;
}
MsgVal gen_msg(const MsgOps* t, const GenCfg& c, int depth) {
  MsgVal v(t);
  for(uint32_t i = 0; i < t->nfields; ++i) {
    const FieldOps& fo = t->fields[i]; FVal& f = v.f[i];
    if(fo.card == C_ONEOF) continue;
    if(!chance(c.density, 100)) continue;
    f.has = fo.card == C_OPT;
    if(fo.card == C_REP) {
      uint32_t n;
      if(fo.rep->max > 200) { n = gen_len(fo.rep->max, c); if(!chance(1, 4)) n = std::min(n, 40u); } else n = gen_len(fo.rep->max, c);
      if(fo.kind == K_MSG && depth > 1) n = std::min(n, 2u);
      if(n > 40 && is_scalar(fo.kind)) { // long runs: values from one choice
        Prng r(pick(1u << 16)); for(uint32_t k = 0; k < n; ++k) { uint64_t x = r.next(); x >>= (r.next() & 63); f.rs.push_back(trunc_kind(fo.kind, x)); }
      } else for(uint32_t k = 0; k < n; ++k) {
        if(is_scalar(fo.kind)) f.rs.push_back(gen_scalar(fo.kind, c)); else if(fo.kind == K_MSG) f.m.push_back(gen_msg(fo.msg(), c, depth + 1)); else f.rb.push_back(gen_str(fo.str->max, fo.kind, c));
      }
    }
    else if(is_scalar(fo.kind)) f.s = gen_scalar(fo.kind, c);
    else if(fo.kind == K_MSG) f.m[0] = gen_msg(fo.msg(), c, depth + 1);
    else f.b = gen_str(fo.str->max, fo.kind, c);
  }
  for(uint32_t o = 0; o < t->noneofs; ++o) {
    std::vector<uint32_t> mem; for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].oneof == static_cast<int>(o)) mem.push_back(i);
    if(!chance(std::min(90u, c.density + 20), 100)) continue;
    uint32_t i = mem[pick(static_cast<uint32_t>(mem.size()))]; const FieldOps& fo = t->fields[i];
    set_which(v, static_cast<int>(o), fo.num);
    if(is_scalar(fo.kind)) v.f[i].s = gen_scalar(fo.kind, c); else if(fo.kind == K_MSG) v.f[i].m[0] = gen_msg(fo.msg(), c, depth + 1); else v.f[i].b = gen_str(fo.str->max, fo.kind, c);
  }
  return v;
}

// ---------------------------------------------------------------------------------------------------------------
static bool zero_num(Kind k, uint64_t s) { if(k == K_DOUBLE) return (s << 1) == 0; if(k == K_FLOAT) return (s & 0x7fffffffu) == 0; return s == 0; }
static bool same_scalar(const FieldOps& fo, uint64_t a, uint64_t b, int mode) { if(a == b) return true; return (mode & 1) && fo.card == C_SING && zero_num(fo.kind, a) && zero_num(fo.kind, b); }
static std::string q(const std::string& s) { return "'" + hex(reinterpret_cast<const uint8_t*>(s.data()), s.size(), 24) + "'(" + std::to_string(s.size()) + ")"; }
static bool same_(const MsgVal& a, const MsgVal& b, const std::string& path, std::string* why, int mode);
bool same_field(const FieldOps& fo, const FVal& a, const FVal& b, const std::string& path, std::string* why, int mode) {
  std::string p = path + fo.name;
  if(fo.card == C_OPT && a.has != b.has) { if(why) *why = p + ": present " + std::to_string(a.has) + " vs " + std::to_string(b.has); return false; }
  if(fo.card == C_REP) {
    size_t na = a.rs.size() + a.rb.size() + a.m.size(), nb = b.rs.size() + b.rb.size() + b.m.size();
    if(na != nb) { if(why) *why = p + ": " + std::to_string(na) + " vs " + std::to_string(nb) + " elements"; return false; }
    for(size_t i = 0; i < a.rs.size(); ++i) if(a.rs[i] != b.rs[i]) { if(why) *why = p + "[" + std::to_string(i) + "]: " + std::to_string(a.rs[i]) + " vs " + std::to_string(b.rs[i]); return false; }
    for(size_t i = 0; i < a.rb.size(); ++i) if(a.rb[i] != b.rb[i]) { if(why) *why = p + "[" + std::to_string(i) + "]: " + q(a.rb[i]) + " vs " + q(b.rb[i]); return false; }
    for(size_t i = 0; i < a.m.size(); ++i) if(!same_(a.m[i], b.m[i], p + "[" + std::to_string(i) + "].", why, mode)) return false;
    return true;
  }
  if(is_scalar(fo.kind)) { if(!same_scalar(fo, a.s, b.s, mode)) { if(why) *why = p + ": raw " + std::to_string(a.s) + " vs " + std::to_string(b.s); return false; } return true; }
  if(fo.kind == K_MSG) return same_(a.m[0], b.m[0], p + ".", why, mode);
  if(a.b != b.b) { if(why) *why = p + ": " + q(a.b) + " vs " + q(b.b); return false; }
  return true;
}
static bool same_(const MsgVal& a, const MsgVal& b, const std::string& path, std::string* why, int mode) {
  for(uint32_t o = 0; o < a.t->noneofs; ++o) if(a.which[o] != b.which[o]) { if(why) *why = path + "oneof " + std::to_string(o) + ": member " + std::to_string(a.which[o]) + " vs " + std::to_string(b.which[o]); return false; }
  for(uint32_t i = 0; i < a.t->nfields; ++i) {
    const FieldOps& fo = a.t->fields[i];
    if(fo.card == C_ONEOF && a.which[fo.oneof] != fo.num) continue;
    if(!same_field(fo, a.f[i], b.f[i], path, why, mode)) return false;
  }
  return true;
}
bool same(const MsgVal& a, const MsgVal& b, std::string* why, int mode) { return same_(a, b, "", why, mode); }
bool is_default(const MsgVal& a) { return same(a, MsgVal(a.t), nullptr); }
static void show_(const MsgVal& v, std::string& s, size_t max) {
  s += "{";
  for(uint32_t i = 0; i < v.t->nfields && s.size() < max; ++i) {
    const FieldOps& fo = v.t->fields[i]; const FVal& f = v.f[i];
    if(fo.card == C_ONEOF && v.which[fo.oneof] != fo.num) continue;
    if(fo.card == C_OPT && !f.has && !f.s && f.b.empty()) continue;
    std::string n = std::string(" ") + fo.name + (fo.card == C_OPT && f.has ? "!" : "") + "=";
    if(fo.card == C_REP) { if(f.rs.empty() && f.rb.empty() && f.m.empty()) continue; s += n + "["; for(auto x : f.rs) { s += std::to_string(x) + ","; if(s.size() > max) break; } for(auto& x : f.rb) { s += q(x) + ","; if(s.size() > max) break; } for(auto& x : f.m) { show_(x, s, max); if(s.size() > max) break; } s += "]"; }
    else if(is_scalar(fo.kind)) { if(f.s || f.has) s += n + std::to_string(f.s); }
    else if(fo.kind == K_MSG) { if(f.has || !is_default(f.m[0])) { s += n; show_(f.m[0], s, max); } }
    else if(!f.b.empty() || f.has) s += n + q(f.b);
  }
  s += " }";
}
std::string show(const MsgVal& v, size_t max) { std::string s; show_(v, s, max); if(s.size() > max) { s.resize(max); s += "..."; } return s; }
uint64_t hash_val(const MsgVal& v) { Bytes b = encode(v); uint64_t h = 7; for(uint8_t c : b) h = mix(h, c); return h; }
void check_same(const char* cls, const MsgVal& want, const MsgVal& got, int mode, const char* what) {
  std::string why;
  if(!same(want, got, &why, mode)) violation(cls, "%s: %s of %s (expected vs found); expected %s", what, why.c_str(), label_of(want.t), show(want, 400).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
void Obj::alloc() { mem = static_cast<char*>(malloc(t->o.size)); p = mem; dirty(p, t->o.size); alive = true; }
Obj::Obj(const MsgOps* ops) : t(ops) { alloc(); t->o.construct(p); }
Obj::Obj(const MsgOps* ops, const void* src, int how, void* mv) : t(ops) { alloc(); if(how) t->move(p, mv); else t->o.copy(p, src); }
void Obj::destroy() { if(alive) { t->o.destroy(p); alive = false; } }
Obj::~Obj() { destroy(); free(mem); }
Raw_::Raw_(const ObjOps* ops, uint32_t k) : o(ops), n(k) { mem = static_cast<char*>(malloc(o->size * (n ? n : 1))); p = mem; dirty(p, o->size * n); for(uint32_t i = 0; i < n; ++i) o->construct(at(i)); }
Raw_::Raw_(const ObjOps* ops, const void* src) : o(ops), n(1) { mem = static_cast<char*>(malloc(o->size)); p = mem; dirty(p, o->size); o->copy(p, src); }
Raw_::~Raw_() { for(uint32_t i = 0; i < n; ++i) o->destroy(at(i)); free(mem); }

static std::string read_str(const StrOps* so, const void* s, int how) {
  uint32_t n = so->length(s);
  REQUIRE(so->max_length(s) == so->max, "capacity", "a string of capacity %u reports capacity %u", so->max, so->max_length(s));
  REQUIRE(n <= so->max, "capacity", "a string of capacity %u reports length %u", so->max, n);
  std::string r;
  if(how & 1) { r.resize(n); for(uint32_t i = 0; i < n; ++i) { uint8_t b = 0; if(how & 2) { int e = so->get_checked(s, i, &b); REQUIRE(e == E_OK, "checked-get", "checked get of byte %u of %u: %s", i, n, errname(e)); } else b = *so->get_const(s, i, (how >> 2) & 1); r[i] = static_cast<char>(b); } }
  else r.assign(reinterpret_cast<const char*>(so->data(s)), n);
  return r;
}
FVal snap_field(const FieldOps& fo, const void* obj, int how) {
  FVal f;
  if(fo.has) f.has = fo.has(obj);
  if(fo.card == C_REP) {
    const void* r = fo.cget(obj, how & 1); uint32_t n = fo.rep->length(r);
    REQUIRE(fo.rep->max_length(r) == fo.rep->max, "capacity", "%s: capacity %u reported as %u", fo.name, fo.rep->max, fo.rep->max_length(r));
    REQUIRE(n <= fo.rep->max, "capacity", "%s holds %u elements, capacity %u", fo.name, n, fo.rep->max);
    const ElemOps* e = fo.rep->elem;
    for(uint32_t i = 0; i < n; ++i) {
      const void* x = (how & 4) ? fo.ridx(obj, i) : fo.rep->get_const(r, i, how % 3);
      if(is_scalar(fo.kind)) f.rs.push_back(e->get(x)); else if(fo.kind == K_MSG) f.m.push_back(snap(fo.msg(), x, how)); else f.rb.push_back(read_str(fo.str, x, how));
    }
    return f;
  }
  if(is_scalar(fo.kind)) f.s = fo.sget(obj, how & 1);
  else if(fo.kind == K_MSG) f.m.push_back(snap(fo.msg(), fo.cget(obj, how & 1), how));
  else {
    f.b = read_str(fo.str, fo.cget(obj, 0), how);
    if(how & 1) REQUIRE(0 == memcmp(fo.cptr(obj), f.b.data(), f.b.size()), "pointer-getter", "%s(): other bytes than get_%s()", fo.name, fo.name);
  }
  return f;
}
MsgVal snap(const MsgOps* t, const void* obj, int how) {
  MsgVal v; v.t = t; v.f.resize(t->nfields); v.which.resize(t->noneofs);
  for(uint32_t o = 0; o < t->noneofs; ++o) v.which[o] = t->which[o](obj);
  for(uint32_t i = 0; i < t->nfields; ++i) {
    const FieldOps& fo = t->fields[i];
    if(fo.card == C_ONEOF) {
      bool has = fo.has(obj);
      REQUIRE(has == (v.which[fo.oneof] == fo.num), "oneof-has", "has_%s() is %d while the oneof says member %u", fo.name, has, v.which[fo.oneof]);
      if(!has) continue;
    }
    v.f[i] = snap_field(fo, obj, how);
  }
  for(uint32_t o = 0; o < t->noneofs; ++o) if(v.which[o]) { bool known = false; for(uint32_t i = 0; i < t->nfields; ++i) known = known || (t->fields[i].oneof == static_cast<int>(o) && t->fields[i].num == v.which[o]); REQUIRE(known, "oneof-has", "the oneof reports member %u, which it does not have", v.which[o]); }
  return v;
}
static bool has_nul(const std::string& s) { return s.find('\0') != std::string::npos; }
void put_str(const StrOps* so, void* s, const std::string& b, int vary) {
  const uint8_t* d = reinterpret_cast<const uint8_t*>(b.data()); uint32_t n = static_cast<uint32_t>(b.size());
  uint32_t how = vary ? pick(5) : 0;
  if(how == 3 && n > 64) how = 0;
  // the source of a copy ends exactly where its memory ends
  std::unique_ptr<uint8_t[]> src(new uint8_t[n + (how == 1 ? 1 : 0)]); memcpy(src.get(), d, n); d = src.get();
  switch(how) {
    case 1: if(so->is_string && !has_nul(b)) { src[n] = 0; so->set_cstr(s, reinterpret_cast<const char*>(src.get()), static_cast<int>(pick(2))); break; } // fall through
    case 0: default: { static const uint8_t none = 0; int e = so->set(s, n ? d : &none, n); REQUIRE(e == E_OK, "set-refused", "setting %u bytes in a field of capacity %u: %s", n, so->max, errname(e)); break; }
    case 2: { int e = n ? so->set_other(s, d, n, static_cast<int>(pick(3)), static_cast<int>(pick(2))) : -1; if(e == -1) { static const uint8_t none = 0; e = so->set(s, n ? d : &none, n); } REQUIRE(e == E_OK || e == -2, "set-refused", "assigning %u bytes to a field of capacity %u: %s", n, so->max, errname(e)); break; }
    case 3: so->o.clear(s); for(uint32_t i = 0; i < n; ++i) *so->get(s, i, static_cast<int>(i & 1)) = d[i]; break;
    case 4: { Raw_ t(&so->o); static const uint8_t none = 0; so->set(t.p, n ? d : &none, n); so->o.assign(s, t.p); break; }
  }
}
void put_elem(const ElemOps* e, void* x, const FieldOps& fo, const FVal& v, size_t i) {
  if(is_scalar(fo.kind)) e->set(x, v.rs[i], static_cast<int>(pick(4))); else if(fo.kind == K_MSG) build(fo.msg(), x, v.m[i]); else put_str(fo.str, x, v.rb[i], 1);
}
void build(const MsgOps* t, void* obj, const MsgVal& v, int vary) {
  for(uint32_t i = 0; i < t->nfields; ++i) {
    const FieldOps& fo = t->fields[i]; const FVal& f = v.f[i];
    if(fo.card == C_ONEOF && v.which[fo.oneof] != fo.num) continue;
    if(fo.card == C_OPT && !f.has) continue;
    if(fo.card == C_REP) {
      size_t n = f.rs.size() + f.rb.size() + f.m.size(); const ElemOps* e = fo.rep->elem; if(!n) continue;
      uint32_t how = vary ? pick(6) : 0;
      if(n > 40) how = how % 2 ? 4 : 0;
      if(how == 4) { Raw_ arr(&e->o, static_cast<uint32_t>(n)); for(size_t k = 0; k < n; ++k) { if(n > 40) e->set(arr.at(static_cast<uint32_t>(k)), f.rs[k], 0); else put_elem(e, arr.at(static_cast<uint32_t>(k)), fo, f, k); }
        int r = fo.rep->set_data(fo.mut(obj), arr.p, static_cast<uint32_t>(n)); REQUIRE(r == E_OK, "set-refused", "%s: set_data of %zu elements: %s", fo.name, n, errname(r)); continue; }
      if(how == 5) { Raw_ r(&fo.rep->o); for(size_t k = 0; k < n; ++k) { Raw_ x(&e->o); put_elem(e, x.p, fo, f, k); fo.rep->add(r.p, x.p); } fo.oset(obj, r.p, 0); continue; }
      fo.clear(obj);
      for(size_t k = 0; k < n; ++k) {
        if(how == 3) { void* x = (k & 1) ? fo.rep->get(fo.mut(obj), static_cast<uint32_t>(k), 0) : fo.rmut(obj, static_cast<uint32_t>(k)); put_elem(e, x, fo, f, k); continue; }
        Raw_ x(&e->o); if(n > 40) e->set(x.p, f.rs[k], 0); else put_elem(e, x.p, fo, f, k);
        if(how == 0) fo.radd(obj, x.p); else if(how == 1) { int r = fo.rep->add(fo.mut(obj), x.p); REQUIRE(r == E_OK, "set-refused", "%s: add of element %zu: %s", fo.name, k, errname(r)); } else fo.rset(obj, static_cast<uint32_t>(k), x.p, static_cast<int>(k & 1));
      }
      continue;
    }
    if(is_scalar(fo.kind)) { if(fo.card == C_SING && f.s == 0 && !(vary && i % 3 == 0)) continue; fo.sset(obj, f.s, vary ? static_cast<int>(pick(fo.smut ? 3 : 2)) : 0); continue; }
    if(fo.kind == K_MSG) {
      if(vary && chance(1, 3)) { Obj tmp(fo.msg()); build(fo.msg(), tmp.p, f.m[0]); fo.oset(obj, tmp.p, static_cast<int>(pick(2))); }
      else { if(fo.card == C_SING && is_default(f.m[0])) continue; build(fo.msg(), fo.mut(obj), f.m[0], vary); }
      continue;
    }
    if(fo.card == C_SING && f.b.empty()) continue;
    if(vary && chance(1, 3)) { Raw_ tmp(&fo.str->o); put_str(fo.str, tmp.p, f.b, vary); fo.oset(obj, tmp.p, 0); } else put_str(fo.str, fo.mut(obj), f.b, vary);
  }
}
static void str_beyond(const char* cls, const StrOps* so, const void* s, const char* name) {
  for(uint32_t i = so->length(s); i < so->max; ++i) { uint8_t b = *so->get_const(s, i, 0); if(b) violation(cls, "%s: byte %u past the length %u holds %02x", name, i, so->length(s), b); }
}
void check_default_beyond(const char* cls, const MsgOps* t, const void* obj) {
  for(uint32_t i = 0; i < t->nfields; ++i) {
    const FieldOps& fo = t->fields[i];
    if(fo.card == C_ONEOF && !fo.has(obj)) continue;
    if(fo.card == C_REP) {
      const void* r = fo.cget(obj, 0); uint32_t n = fo.rep->length(r);
      for(uint32_t k = 0; k < fo.rep->max; ++k) {
        const void* x = fo.rep->get_const(r, k, 0);
        if(k < n) { if(is_strk(fo.kind)) str_beyond(cls, fo.str, x, fo.name); else if(fo.kind == K_MSG) check_default_beyond(cls, fo.msg(), x); continue; }
        if(is_scalar(fo.kind)) { uint64_t v = fo.rep->elem->get(x); if(v) violation(cls, "%s: unused element %u (length %u) holds %llu", fo.name, k, n, (unsigned long long)v); }
        else if(fo.kind == K_MSG) { std::string why; if(!same(MsgVal(fo.msg()), snap(fo.msg(), x), &why)) violation(cls, "%s: unused element %u (length %u) holds old data: %s", fo.name, k, n, why.c_str()); check_default_beyond(cls, fo.msg(), x); }
        else { if(fo.str->length(x)) violation(cls, "%s: unused element %u (length %u) has length %u", fo.name, k, n, fo.str->length(x)); str_beyond(cls, fo.str, x, fo.name); }
      }
    }
    else if(is_strk(fo.kind)) str_beyond(cls, fo.str, fo.cget(obj, 0), fo.name);
    else if(fo.kind == K_MSG) check_default_beyond(cls, fo.msg(), fo.cget(obj, 0));
  }
}

// ---------------------------------------------------------------------------------------------------------------
static int varlen(uint64_t v) { int n = 1; while(v >= 128) { v >>= 7; ++n; } return n; }
void put_varint(Bytes& o, uint64_t v, int extra, int maxb) {
  int n = varlen(v) ; int total = std::min(maxb, n + extra); if(total < n) total = n;
  for(int i = 0; i < total; ++i) { uint8_t b = static_cast<uint8_t>(v & 0x7f); v >>= 7; if(i + 1 < total) b |= 0x80; o.push_back(b); }
}
void put_tag(Bytes& o, uint32_t num, int wt, int extra) { put_varint(o, (static_cast<uint64_t>(num) << 3) | static_cast<uint32_t>(wt), extra, 5); }
static uint64_t zz(Kind k, uint64_t s) { if(k == K_SINT32) { int32_t n = static_cast<int32_t>(s); return (static_cast<uint32_t>(n) << 1) ^ static_cast<uint32_t>(n >> 31); } int64_t n = static_cast<int64_t>(s); return (static_cast<uint64_t>(n) << 1) ^ static_cast<uint64_t>(n >> 63); }
void put_scalar(Bytes& o, Kind k, uint64_t s, int extra, bool peer) {
  switch(k) {
    case K_FIXED64: case K_SFIXED64: case K_DOUBLE: for(int i = 0; i < 8; ++i) o.push_back(static_cast<uint8_t>(s >> (8 * i))); break;
    case K_FIXED32: case K_SFIXED32: case K_FLOAT: for(int i = 0; i < 4; ++i) o.push_back(static_cast<uint8_t>(s >> (8 * i))); break;
    case K_SINT32: case K_SINT64: put_varint(o, zz(k, s), extra); break;
    case K_UINT32: put_varint(o, s, extra, 5); break;
    case K_INT32: case K_ENUM: if(peer && (s & 0x80000000u)) s |= 0xffffffff00000000ull; put_varint(o, s, extra); break;
    default: put_varint(o, s, extra); break;
  }
}
static void put_ld(Bytes& o, uint32_t num, const uint8_t* p, size_t n, int te = 0, int le = 0) { put_tag(o, num, 2, te); put_varint(o, n, le, 5); o.insert(o.end(), p, p + n); }
static bool emitted(const MsgVal& v, uint32_t i) {
  const FieldOps& fo = v.t->fields[i]; const FVal& f = v.f[i];
  if(fo.card == C_ONEOF) return v.which[fo.oneof] == fo.num; if(fo.card == C_OPT) return f.has;
  if(fo.card == C_REP) return !(f.rs.empty() && f.rb.empty() && f.m.empty());
  if(is_scalar(fo.kind)) return !zero_num(fo.kind, f.s); if(fo.kind == K_MSG) return canonical_size(f.m[0]) > 0; return !f.b.empty();
}
static void encode_field(Bytes& o, const FieldOps& fo, const FVal& f) {
  if(fo.card == C_REP) {
    if(is_scalar(fo.kind)) { Bytes t; for(auto x : f.rs) put_scalar(t, fo.kind, x); put_ld(o, fo.num, t.data(), t.size()); }
    else if(fo.kind == K_MSG) for(auto& x : f.m) { Bytes t = encode(x); put_ld(o, fo.num, t.data(), t.size()); }
    else for(auto& x : f.rb) put_ld(o, fo.num, reinterpret_cast<const uint8_t*>(x.data()), x.size());
  }
  else if(is_scalar(fo.kind)) { put_tag(o, fo.num, wiretype(fo.kind)); put_scalar(o, fo.kind, f.s); }
  else if(fo.kind == K_MSG) { Bytes t = encode(f.m[0]); put_ld(o, fo.num, t.data(), t.size()); }
  else put_ld(o, fo.num, reinterpret_cast<const uint8_t*>(f.b.data()), f.b.size());
}
Bytes encode(const MsgVal& v) { Bytes o; for(uint32_t i = 0; i < v.t->nfields; ++i) if(emitted(v, i)) encode_field(o, v.t->fields[i], v.f[i]); return o; }
uint32_t canonical_size(const MsgVal& v) { return static_cast<uint32_t>(encode(v).size()); }
Bytes unknown_field(const MsgOps* t, int depth) {
  uint32_t num = 0;
  for(int k = 0; k < 20; ++k) {
    switch(pick(6)) { case 0: num = 1 + pick(120); break; case 1: { static const uint32_t E[] = { 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911, 19000 }; num = E[pick(10)]; break; }
      case 2: num = t->nfields ? t->fields[pick(t->nfields)].num + 1 : 5; break; case 3: num = t->nfields ? t->fields[pick(t->nfields)].num ^ (1u << pick(28)) : 6; break; case 4: num = t->nfields ? t->fields[pick(t->nfields)].num + (1u << (pick(20) + 5)) : 7; break; default: num = 1 + pick(536870911u); break; }
    num &= 0x1fffffffu; if(!num) continue;
    bool known = false; for(uint32_t i = 0; i < t->nfields; ++i) known = known || t->fields[i].num == num;
    if(!known) break; num = 0;
  }
  if(!num) { num = 536870910; for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].num == num) --num; }
  static const int W[] = { 0, 2, 5, 1 }; int wt = W[pick(4)]; Bytes o; GenCfg c; c.style = pick(5);
  put_tag(o, num, wt, chance(1, 6) ? static_cast<int>(pick(5)) : 0);
  if(wt == 0) put_varint(o, gen_scalar(K_UINT64, c), chance(1, 4) ? static_cast<int>(pick(10)) : 0); else if(wt == 5) put_scalar(o, K_FIXED32, pick(0)); else if(wt == 1) put_scalar(o, K_FIXED64, pick64());
  else {
    Bytes in; uint32_t kind = pick(4);
    if(kind == 0) { std::string s = gen_str(300, K_BYTES, c); in.assign(s.begin(), s.end()); }
    else if(kind == 1 && depth < 2) { GenCfg g; g.maxlen = 20; in = encode(gen_msg(t, g, 1)); if(in.size() > 600) in.resize(600); }
    else if(kind == 2 && depth < 2) { Bytes a = unknown_field(t, depth + 1), b = unknown_field(t, depth + 1); in = a; in.insert(in.end(), b.begin(), b.end()); }
    else { uint32_t n = pick(2) ? 127 + pick(3) : pick(20); if(depth == 0 && chance(1, 12)) { static const uint32_t L[] = { 255, 256, 257, 4096, 16383, 16384, 32768, 65535, 65536, 70000 }; n = L[pick(10)]; count_probe("long_unknown_field"); } in.assign(n, static_cast<uint8_t>(pick(256))); }
    put_varint(o, in.size(), chance(1, 6) ? static_cast<int>(pick(5)) : 0, 5); o.insert(o.end(), in.begin(), in.end());
  }
  return o;
}
// any number but zero on the wire is true
static uint64_t any_true(const EncCfg& c, Kind k, uint64_t s) { if(k != K_BOOL || !s || !c.longvar || !chance(1, 4)) return s; switch(pick(4)) { case 0: return 2 + pick(300); case 1: return 1ull << (8 * (1 + pick(7))); case 2: return 1ull << pick(64); default: { uint64_t v = pick64(); return v ? v : 1; } } }
static int xl(const EncCfg& c, int m) { return c.longvar && chance(1, 3) ? static_cast<int>(pick(static_cast<uint32_t>(m) + 1)) : 0; }
// every element: the pieces of one field or oneof, whose order matters
static std::vector<std::vector<Bytes>> queues(const MsgVal& v, const EncCfg& c, int depth) {
  std::vector<std::vector<Bytes>> qs; std::vector<std::vector<Bytes>> oq(v.t->noneofs);
  GenCfg g; g.utf8 = true; // what other implementations accept in a string
  auto scalar_piece = [&](const FieldOps& fo, uint64_t s) { Bytes o; put_tag(o, fo.num, wiretype(fo.kind), xl(c, 4)); put_scalar(o, fo.kind, any_true(c, fo.kind, s), wiretype(fo.kind) == 0 ? xl(c, 9) : 0, (fo.kind == K_INT32) ? pick(2) == 0 : false); return o; };
  auto str_piece = [&](const FieldOps& fo, const std::string& s) { Bytes o; put_ld(o, fo.num, reinterpret_cast<const uint8_t*>(s.data()), s.size(), xl(c, 4), xl(c, 4)); return o; };
  auto msg_pieces = [&](const FieldOps& fo, const MsgVal& m, std::vector<Bytes>& out) {
    if(c.split_msg && coin()) {
      std::vector<std::vector<Bytes>> in = queues(m, c, depth + 1); std::vector<Bytes> flat; for(auto& x : in) for(auto& y : x) flat.push_back(y);
      uint32_t pieces = 2 + pick(2); size_t per = flat.size() / pieces + 1; size_t k = 0;
      for(uint32_t p = 0; p < pieces; ++p) { Bytes body; for(size_t j = 0; j < per && k < flat.size(); ++j, ++k) body.insert(body.end(), flat[k].begin(), flat[k].end()); if(p == pieces - 1) for(; k < flat.size(); ++k) body.insert(body.end(), flat[k].begin(), flat[k].end()); Bytes o; put_ld(o, fo.num, body.data(), body.size(), xl(c, 4), xl(c, 4)); out.push_back(o); }
      return;
    }
    Bytes body = encode_varied(m, c, depth + 1), o; put_ld(o, fo.num, body.data(), body.size(), xl(c, 4), xl(c, 4)); out.push_back(o);
  };
  for(uint32_t i = 0; i < v.t->nfields; ++i) {
    const FieldOps& fo = v.t->fields[i]; const FVal& f = v.f[i]; std::vector<Bytes> q1; std::vector<Bytes>& qq = fo.card == C_ONEOF ? oq[fo.oneof] : q1;
    if(fo.card == C_ONEOF) {
      if(v.which[fo.oneof] != fo.num) continue;
      if(c.dup && coin()) { // another member of the oneof was sent before
        std::vector<uint32_t> mem; for(uint32_t k = 0; k < v.t->nfields; ++k) if(v.t->fields[k].oneof == fo.oneof && k != i) mem.push_back(k);
        if(!mem.empty()) { const FieldOps& of = v.t->fields[mem[pick(static_cast<uint32_t>(mem.size()))]]; if(is_scalar(of.kind)) qq.push_back(scalar_piece(of, gen_scalar(of.kind, g))); else if(of.kind == K_MSG) { Bytes b = encode(gen_msg(of.msg(), g, 2)), o; put_ld(o, of.num, b.data(), b.size()); qq.push_back(o); } else { g.utf8 = true; qq.push_back(str_piece(of, gen_str(of.str->max, of.kind, g))); } }
      }
    }
    bool em = fo.card == C_OPT ? f.has : true;
    if(fo.card == C_SING && !emitted(v, i) && !(is_scalar(fo.kind) && f.s)) em = c.explicit_default && coin();
    if(!em) continue;
    if(fo.card == C_REP) {
      if(is_scalar(fo.kind)) {
        size_t k = 0, n = f.rs.size(); if(!n && !(c.explicit_default && coin())) continue;
        do { size_t take = n - k; if(c.split_packed && take && coin()) take = pick(static_cast<uint32_t>(take) + 1); Bytes t; for(size_t j = 0; j < take; ++j) put_scalar(t, fo.kind, n < 60 ? any_true(c, fo.kind, f.rs[k + j]) : f.rs[k + j], wiretype(fo.kind) == 0 && n < 60 ? xl(c, 9) : 0, fo.kind == K_INT32); k += take; Bytes o; put_ld(o, fo.num, t.data(), t.size(), xl(c, 4), xl(c, 4)); qq.push_back(o); } while(k < n);
      }
      else if(fo.kind == K_MSG) for(auto& x : f.m) { Bytes body = encode_varied(x, c, depth + 1), o; put_ld(o, fo.num, body.data(), body.size(), xl(c, 4), xl(c, 4)); qq.push_back(o); }
      else for(auto& x : f.rb) qq.push_back(str_piece(fo, x));
    }
    else if(is_scalar(fo.kind)) { if(c.dup && coin()) qq.push_back(scalar_piece(fo, gen_scalar(fo.kind, g))); qq.push_back(scalar_piece(fo, f.s)); }
    else if(fo.kind == K_MSG) msg_pieces(fo, f.m[0], qq);
    else { g.utf8 = true; if(c.dup && coin()) qq.push_back(str_piece(fo, gen_str(fo.str->max, fo.kind, g))); qq.push_back(str_piece(fo, f.b)); }
    if(fo.card != C_ONEOF && !q1.empty()) qs.push_back(q1);
  }
  for(auto& x : oq) if(!x.empty()) qs.push_back(x);
  return qs;
}
Bytes encode_varied(const MsgVal& v, const EncCfg& c, int depth) {
  std::vector<std::vector<Bytes>> qs = queues(v, c, depth); Bytes o; std::vector<size_t> at(qs.size(), 0);
  auto unk = [&]() { if(c.unknown) while(chance(c.unknown, 100)) { Bytes u = unknown_field(v.t); o.insert(o.end(), u.begin(), u.end()); count_probe("unknown_field_sent"); } };
  unk();
  if(!c.shuffle) { for(auto& x : qs) for(auto& y : x) { o.insert(o.end(), y.begin(), y.end()); unk(); } return o; }
  for(;;) {
    std::vector<size_t> live; for(size_t i = 0; i < qs.size(); ++i) if(at[i] < qs[i].size()) live.push_back(i);
    if(live.empty()) break; size_t i = live[pick(static_cast<uint32_t>(live.size()))]; o.insert(o.end(), qs[i][at[i]].begin(), qs[i][at[i]].end()); ++at[i]; unk();
  }
  return o;
}

// ---------------------------------------------------------------------------------------------------------------
namespace {
struct Rd { const uint8_t* p; size_t n, i; };
const uint32_t B_END = 1u << E_END, B_WT = 1u << E_WT, B_ARR = 1u << E_ARR, B_ID = 1u << E_ID, B_LONG = 1u << E_LONG;
// returns 0 or the acceptable errors
uint32_t rd_varint(Rd& r, int maxb, uint64_t& v, uint32_t& may) {
  v = 0; int k = 0;
  for(;;) {
    if(r.i >= r.n) { if(k >= maxb) return B_LONG | B_END; return B_END; }
    if(k >= 10) return B_LONG;
    uint8_t b = r.p[r.i++]; if(k < 10) v |= static_cast<uint64_t>(b & 0x7f) << (7 * k > 63 ? 63 : 7 * k); ++k;
    if(k == 10) { v &= 0x7fffffffffffffffull; v |= static_cast<uint64_t>(b & 1) << 63; }
    if(!(b & 0x80)) {
      if(k == 10 && b > 1) may |= B_LONG;
      if(maxb == 5) { if(k > 5 || (k == 5 && b > 0x0f)) may |= B_LONG; v &= 0xffffffffu; }
      return 0;
    }
    if(k == 10) return B_LONG | (r.i >= r.n ? B_END : 0);
  }
}
uint32_t rd_scalar(Rd& r, Kind k, uint64_t& s, uint32_t& may) {
  int w = wiretype(k);
  if(w == 1 || w == 5) { size_t n = w == 1 ? 8 : 4; if(r.n - r.i < n) { r.i = r.n; return B_END; } s = 0; for(size_t j = 0; j < n; ++j) s |= static_cast<uint64_t>(r.p[r.i + j]) << (8 * j); r.i += n; return 0; }
  uint64_t v; uint32_t e = rd_varint(r, k == K_UINT32 ? 5 : 10, v, may); if(e) return e;
  switch(k) { case K_BOOL: s = v != 0; break; case K_SINT32: { uint32_t u = static_cast<uint32_t>(v); s = static_cast<uint32_t>((u >> 1) ^ (~(u & 1) + 1)); break; } case K_SINT64: s = (v >> 1) ^ (~(v & 1) + 1); break;
    case K_INT32: case K_UINT32: case K_ENUM: s = v & 0xffffffffu; break; default: s = v; break; }
  return 0;
}
Dec dec_msg(MsgVal& v, const uint8_t* p, size_t n);
uint32_t dec_str(Rd& r, const StrOps* so, std::string& out, uint32_t& may, bool full) {
  uint64_t len; uint32_t e = rd_varint(r, 5, len, may); if(e) return full ? e | B_ARR : e;
  size_t rem = r.n - r.i; uint32_t errs = full ? B_ARR : 0;
  if(len > so->max) errs |= B_ARR | (len > rem ? B_END : 0); else if(len > rem) errs |= B_END;
  if(errs) return errs;
  out.assign(reinterpret_cast<const char*>(r.p + r.i), len); r.i += len; return 0;
}
uint32_t dec_sub(Rd& r, MsgVal& m, uint32_t& may, bool full) {
  uint64_t len; uint32_t e = rd_varint(r, 5, len, may); if(e) return full ? e | B_ARR : e;
  size_t rem = r.n - r.i; bool clip = len > rem; size_t n = clip ? rem : static_cast<size_t>(len);
  if(clip || full) { MsgVal t = full ? MsgVal(m.t) : m; Dec d = dec_msg(t, r.p + r.i, n); return ((d.accepted() & ~1u)) | (clip ? B_END : 0) | (full ? B_ARR : 0); }
  Dec d = dec_msg(m, r.p + r.i, n); may |= d.may; r.i += n; return d.ok() ? 0 : d.fin;
}
uint32_t dec_packed(Rd& r, const FieldOps& fo, FVal& f, uint32_t& may) {
  uint64_t len; uint32_t e = rd_varint(r, 5, len, may); if(e) return e;
  size_t rem = r.n - r.i; bool clip = len > rem; size_t n = clip ? rem : static_cast<size_t>(len);
  Rd s = { r.p + r.i, n, 0 }; std::vector<uint64_t> vals = f.rs; uint32_t err = 0, m2 = 0;
  while(s.i < s.n && !err) { uint64_t x; bool full = vals.size() >= fo.rep->max; err = rd_scalar(s, fo.kind, x, m2); if(full) err |= B_ARR; if(!err) vals.push_back(x); }
  if(clip) return B_END | err | m2;
  may |= m2; f.rs = vals; r.i += n; return err;
}
uint32_t dec_field(MsgVal& v, Rd& r, uint32_t num, int wt, uint32_t& may) {
  const FieldOps* fo = nullptr; FVal* f = v.by_num(num, &fo);
  if(!f) {
    uint64_t x; uint32_t e;
    switch(wt) { case 0: return rd_varint(r, 10, x, may); case 1: return rd_scalar(r, K_FIXED64, x, may); case 5: return rd_scalar(r, K_FIXED32, x, may);
      case 2: e = rd_varint(r, 5, x, may); if(e) return e; if(x > r.n - r.i) return B_END; r.i += static_cast<size_t>(x); return 0; default: return B_WT; }
  }
  int want = fo->card == C_REP ? 2 : wiretype(fo->kind);
  if(wt != want) return B_WT;
  if(fo->card == C_REP) {
    size_t n = f->rb.size() + f->m.size(); bool full = n >= fo->rep->max;
    if(is_scalar(fo->kind)) return dec_packed(r, *fo, *f, may);
    if(fo->kind == K_MSG) { MsgVal m(fo->msg()); uint32_t e = dec_sub(r, m, may, full); if(!full) f->m.push_back(m); return e; }
    std::string s; uint32_t e = dec_str(r, fo->str, s, may, full); if(!e) f->rb.push_back(s); return e;
  }
  if(fo->card == C_ONEOF) { set_which(v, fo->oneof, num); f = v.by_num(num); }
  uint32_t e;
  if(is_scalar(fo->kind)) { uint64_t s; e = rd_scalar(r, fo->kind, s, may); if(!e) f->s = s; }
  else if(fo->kind == K_MSG) e = dec_sub(r, f->m[0], may, false);
  else { std::string s; e = dec_str(r, fo->str, s, may, false); if(!e) f->b = s; }
  if(!e && fo->card == C_OPT) f->has = true;
  return e;
}
Dec dec_msg(MsgVal& v, const uint8_t* p, size_t n) {
  Dec d; Rd r = { p, n, 0 };
  while(r.i < r.n) {
    uint64_t tag; uint32_t e = rd_varint(r, 5, tag, d.may); if(e) { d.fin = e; d.fail_oneof_depth = 0; return d; }
    uint32_t num = static_cast<uint32_t>(tag >> 3); int wt = static_cast<int>(tag & 7);
    if(num == 0) { d.fin = B_ID | ((wt == 3 || wt == 4 || wt > 5) ? B_WT : 0); d.fail_oneof_depth = 0; return d; }
    if(wt > 5) { d.fin = B_WT; d.fail_oneof_depth = 0; return d; }
    e = dec_field(v, r, num, wt, d.may);
    if(e) { d.fin = e; d.fail_oneof_depth = static_cast<int>(num); return d; }
    d.boundary = r.i;
  }
  d.fin = 1; d.boundary = n; return d;
}
}
Dec decode(MsgVal& v, const uint8_t* p, size_t n) { return dec_msg(v, p, n); }
std::vector<size_t> boundaries(const uint8_t* p, size_t n) {
  std::vector<size_t> b(1, 0); Rd r = { p, n, 0 }; uint32_t may = 0;
  while(r.i < r.n) {
    uint64_t tag, x; if(rd_varint(r, 5, tag, may)) break; int wt = static_cast<int>(tag & 7); uint32_t e;
    switch(wt) { case 0: e = rd_varint(r, 10, x, may); break; case 1: e = rd_scalar(r, K_FIXED64, x, may); break; case 5: e = rd_scalar(r, K_FIXED32, x, may); break;
      case 2: e = rd_varint(r, 5, x, may); if(!e) { if(x > r.n - r.i) e = 1; else r.i += static_cast<size_t>(x); } break; default: e = 1; }
    if(e) break; b.push_back(r.i);
  }
  return b;
}

// ---------------------------------------------------------------------------------------------------------------
void SimWriter::clear() { SimScope s; out.clear(); taken = 0; }
uint32_t SimWriter::get_size() const { return base + static_cast<uint32_t>(out.size()) - taken; }
uint32_t SimWriter::get_max_size() const { return cap; }
uint32_t SimWriter::avail() const { uint64_t used = static_cast<uint64_t>(base) + out.size() - taken; return used >= cap ? 0 : static_cast<uint32_t>(cap - used); }
uint32_t SimWriter::get_available_size() const {
  SimScope s; SimWriter* me = const_cast<SimWriter*>(this); step();
  if(hook) hook();
  if(drain) me->taken = static_cast<uint32_t>(std::min<size_t>(out.size(), taken + me->drain()));
  uint32_t a = avail(); if(hide_room && refuse_at >= 0 && calls >= refuse_at && calls < refuse_at + refuse_n) a = 0;
  int64_t reach = static_cast<int64_t>(out.size()) + a; if(min_avail < 0 || reach < min_avail) me->min_avail = reach;
  return a;
}
bool SimWriter::room(uint32_t n, bool block) {
  step(); if(hook) hook(); if(drain) taken = static_cast<uint32_t>(std::min<size_t>(out.size(), taken + drain()));
  int64_t c = calls++; bool ok = avail() >= n; if(refuse_at >= 0 && c >= refuse_at && c < refuse_at + refuse_n) { if(ok) count_fault("output_refused_momentarily"); ok = false; }
  offered_bytes += n;
  if(refused) { if(block) ++block_after; else ++single_after; }
  if(!ok) { if(!refused) at_refusal = out.size(); ++refused; ev("refuse", static_cast<uint64_t>(c), n); NOTE("output refuses call %lld (%u bytes) after %zu bytes", (long long)c, n, out.size()); }
  return ok;
}
bool SimWriter::push(const uint8_t byte) { SimScope s; if(!room(1, false)) return false; out.push_back(byte); return true; }
bool SimWriter::push(const uint8_t* p, const uint32_t n) { SimScope s; if(!room(n, true)) return false; out.insert(out.end(), p, p + n); return true; }

void SimReader::tick() const { step(); SimReader* me = const_cast<SimReader*>(this); ++me->calls; if(hook) hook(); if(arrive) me->arrive(*me); if(max_calls && static_cast<uint64_t>(calls) > max_calls) violation("unbounded-work", "%lld input operations for %zu bytes", (long long)calls, data.size()); }
void SimReader::took(size_t n) { if(refused) taken_after_refusal += static_cast<int64_t>(n); max_pos = std::max(max_pos, pos); }
uint32_t SimReader::get_size() const { SimScope s; tick(); return static_cast<uint32_t>(announced ? announced - pos : arrived - pos); }
uint32_t SimReader::get_max_size() const { return maxsize == 0xffffffffu ? static_cast<uint32_t>(data.size()) : maxsize; }
bool SimReader::peek(uint8_t& b) const { SimScope s; tick(); if(pos >= arrived) return false; b = data[pos]; return true; }
bool SimReader::advance() { SimScope s; tick(); if(pos >= arrived) { ++refused; return false; } ++pos; took(1); return true; }
bool SimReader::advance(const uint32_t n) {
  SimScope s; tick();
  if(n > arrived - pos) { ++refused; if(adv_to_end) pos = arrived; max_pos = std::max(max_pos, pos); return false; }
  pos += n; took(n); return true;
}
bool SimReader::pop(uint8_t& b) { SimScope s; tick(); if(pos >= arrived) { ++refused; return false; } b = data[pos++]; took(1); return true; }

const uint32_t FIXED_SIZES[] = { 1, 2, 3, 7, 16, 64, 256, 1024, 4096, 100000 }; const uint32_t N_FIXED_SIZES = 10;
namespace {
template<uint32_t N> struct FW : AnyWriter { EP::WriteBufferFixedSize<N>* b; void* mem; FW() { mem = malloc(sizeof *b); dirty(mem, sizeof *b); b = new (mem) EP::WriteBufferFixedSize<N>; cap = N; } ~FW() override { typedef EP::WriteBufferFixedSize<N> T; b->~T(); free(mem); } WBI& w() override { return *b; } uint8_t* data() override { return b->get_data(); } };
template<uint32_t N> struct FR : AnyReader { EP::ReadBufferFixedSize<N>* b; void* mem; FR() { mem = malloc(sizeof *b); dirty(mem, sizeof *b); b = new (mem) EP::ReadBufferFixedSize<N>; cap = N; } ~FR() override { typedef EP::ReadBufferFixedSize<N> T; b->~T(); free(mem); } RBI& r() override { return *b; } uint8_t* data() override { return b->get_data(); }
  void set_bytes_written(uint32_t n) override { LibScope l; b->set_bytes_written(n); } void clear() override { LibScope l; b->clear(); } bool push(uint8_t x) override { LibScope l; return b->push(x); } };
template<template<uint32_t> class T, class A> std::unique_ptr<A> make(uint32_t n) {
  if(n <= 1) return std::unique_ptr<A>(new T<1>); if(n <= 2) return std::unique_ptr<A>(new T<2>); if(n <= 3) return std::unique_ptr<A>(new T<3>); if(n <= 7) return std::unique_ptr<A>(new T<7>); if(n <= 16) return std::unique_ptr<A>(new T<16>);
  if(n <= 64) return std::unique_ptr<A>(new T<64>); if(n <= 256) return std::unique_ptr<A>(new T<256>); if(n <= 1024) return std::unique_ptr<A>(new T<1024>); if(n <= 4096) return std::unique_ptr<A>(new T<4096>); if(n <= 100000) return std::unique_ptr<A>(new T<100000>);
  return nullptr;
}
}
std::unique_ptr<AnyWriter> make_fixed_writer(uint32_t n) { return make<FW, AnyWriter>(n); }
std::unique_ptr<AnyReader> make_fixed_reader(uint32_t n) { return make<FR, AnyReader>(n); }
Bytes serialize_ok(const MsgOps* t, const void* obj, const char* cls) {
  SimWriter w; int e = t->o.ser(obj, w);
  REQUIRE(e == E_OK && w.refused == 0, cls, "serialising into an output with room returned %s", errname(e));
  return w.out;
}

uint32_t read_number(const Bytes& b, size_t& at, Kind k, uint64_t& v, uint32_t& may) { Rd r = { b.data(), b.size(), at }; uint32_t e = rd_scalar(r, k, v, may); at = r.i; return e; }
uint32_t read_tag(const Bytes& b, size_t& at, uint32_t& num, int& wt, uint32_t& may) { Rd r = { b.data(), b.size(), at }; uint64_t v; uint32_t e = rd_varint(r, 5, v, may); at = r.i; num = static_cast<uint32_t>(v >> 3); wt = static_cast<int>(v & 7); return e; }
