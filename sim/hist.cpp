// History engine: random public calls on real objects next to their models.
#include "util.h"

static std::string read_back(const StrOps* so, const void* s) { return std::string(reinterpret_cast<const char*>(so->data(s)), std::min(so->length(s), so->max)); }
// lengths far beyond any capacity, at which sums and products in 32 bits wrap around
static uint32_t absurd(uint32_t max, size_t unit) { uint32_t n; switch(pick(4)) { case 0: n = 0xffffffffu - pick(4); break; case 1: n = (0x80000000u >> pick(5)) + pick(4); break; case 2: n = static_cast<uint32_t>((1ull << 32) / unit) + pick(4); break; default: n = (1u << (8 * (1 + pick(3)))) + pick(std::min(max, 1000u) + 1); } return n > max ? n : 0xffffffffu; }
static uint32_t wild_index(uint32_t max) { switch(pick(8)) { case 0: return 0; case 1: return max - 1; case 2: return max; case 3: return max + 1 + pick(5); case 4: { static const uint32_t H[] = { 0xffffffffu, 0x80000000u, 0x7fffffffu, 0xfffffffeu, 0x10000u }; return H[pick(5)]; } default: return pick(max); } }

static void str_op(const StrOps* so, void* s, std::string& m, const GenCfg& g, const HistCfg& h, Kind k, const char* name) {
  uint32_t wo = h.w_over; const uint32_t W[] = { 6, 3, wo, wo, wo, 3, 2 + wo, h.w_shrink };
  switch(pickw(W)) {
    case 0: { std::string n = gen_str(so->max, k, g); put_str(so, s, n); m = n; break; }
    case 1: so->o.clear(s); m.clear(); break;
    case 2: { // does not fit
      uint32_t n = so->max + 1 + pick(4), said = chance(1, 4) ? absurd(so->max, 1) : n; if(n > 4000) break; std::unique_ptr<uint8_t[]> d(new uint8_t[n]); memset(d.get(), 'Z', n); int e = so->set(s, d.get(), said); count_fault(said == n ? "oversize_set" : "absurd_length"); n = said;
      REQUIRE(e == E_ARR, "oversize", "%s: setting %u bytes in a capacity of %u returned %s", name, n, so->max, errname(e)); break; }
    case 3: { // from an object of another capacity
      static const uint32_t C[] = { 3, 40, 260 }; uint32_t w = pick(3), n = pick(2) ? C[w] : pick(C[w] + 1); if(!n) break; std::unique_ptr<uint8_t[]> d(new uint8_t[n]); for(uint32_t i = 0; i < n; ++i) d[i] = static_cast<uint8_t>('b' + i % 20); int how = static_cast<int>(pick(2)); int e = so->set_other(s, d.get(), n, static_cast<int>(w), how);
      bool fits = n <= so->max; if(!fits) count_fault("oversize_set"); if(how == 0) REQUIRE(e == (fits ? E_OK : E_ARR), "oversize", "%s: assigning %u bytes to a capacity of %u returned %s", name, n, so->max, errname(e)); if(fits) m.assign(reinterpret_cast<char*>(d.get()), n); break; }
    case 4: if(so->is_string) { // c string, cut to the capacity
      uint32_t n = pick(so->max < 300 ? so->max + 20 : 300); std::unique_ptr<char[]> d(new char[n + 1]); for(uint32_t i = 0; i < n; ++i) d[i] = static_cast<char>('A' + i % 26); d[n] = 0; if(n > so->max) count_fault("oversize_set"); so->set_cstr(s, d.get(), static_cast<int>(pick(2))); m.assign(d.get(), std::min(n, so->max)); } break;
    case 5: { // grow or change by index
      uint32_t i = wild_index(so->max), lim = std::min(i, so->max - 1); if(i >= so->max) count_fault("index_beyond_capacity"); uint8_t* p = so->get(s, i, static_cast<int>(pick(2))); REQUIRE(p == so->data(s) + lim, "outside", "%s: byte %u of a capacity of %u is at offset %td", name, i, so->max, p - so->data(s)); uint8_t old = *p; if(m.size() <= lim) m.resize(lim + 1, '\0');
      REQUIRE(old == static_cast<uint8_t>(m[lim]), h.check_stale ? "stale" : "history", "%s[%u] gives %02x, expected %02x", name, i, old, static_cast<uint8_t>(m[lim])); if(coin()) { uint8_t b = static_cast<uint8_t>(pick(256)); *p = b; m[lim] = static_cast<char>(b); } break; }
    case 6: { // reads
      uint32_t i = wild_index(so->max); uint8_t out = 0x5c; int e = so->get_checked(s, i, &out); if(i < m.size()) REQUIRE(e == E_OK && out == static_cast<uint8_t>(m[i]), "checked-get", "%s: checked get of byte %u of %zu: %s, %02x", name, i, m.size(), errname(e), out);
      else { count_fault("index_beyond_length"); REQUIRE(e == E_IDX, "checked-get", "%s: checked get of byte %u of %zu returned %s", name, i, m.size(), errname(e)); REQUIRE(out == 0x5c, "checked-get", "%s: refused checked get changed the output", name); }
      const uint8_t* p = so->get_const(s, i, static_cast<int>(pick(2))); REQUIRE(p >= so->data(s) && p < so->data(s) + so->max, "outside", "%s: byte %u of a capacity of %u is read at offset %td", name, i, so->max, p - so->data(s)); if(i < m.size()) REQUIRE(*p == static_cast<uint8_t>(m[i]), "history", "%s: byte %u", name, i); break; }
    default: { std::string n = m.substr(0, m.empty() ? 0 : pick(static_cast<uint32_t>(m.size()))); put_str(so, s, n); m = n; }
  }
  REQUIRE(so->length(s) <= so->max && read_back(so, s) == m && so->length(s) == m.size(), h.cls, "%s: %u bytes '%s', expected %zu bytes '%s'", name, so->length(s), hex(reinterpret_cast<const uint8_t*>(so->data(s)), std::min(so->length(s), so->max), 40).c_str(), m.size(), hex(reinterpret_cast<const uint8_t*>(m.data()), m.size(), 40).c_str());
}
static size_t rep_len(const FVal& f) { return f.rs.size() + f.rb.size() + f.m.size(); }
static void rep_resize(const FieldOps& fo, FVal& f, size_t n) { if(is_scalar(fo.kind)) f.rs.resize(n, 0); else if(fo.kind == K_MSG) f.m.resize(n, MsgVal(fo.msg())); else f.rb.resize(n); }
static void gen_elem(const FieldOps& fo, FVal& one, const GenCfg& g) { one = FVal(); if(is_scalar(fo.kind)) one.rs.push_back(gen_scalar(fo.kind, g)); else if(fo.kind == K_MSG) one.m.push_back(gen_msg(fo.msg(), g, 1)); else one.rb.push_back(gen_str(fo.str->max, fo.kind, g)); }
static void model_set(const FieldOps& fo, FVal& f, size_t i, const FVal& one) { if(f.rs.size() + f.rb.size() + f.m.size() <= i) rep_resize(fo, f, i + 1); if(is_scalar(fo.kind)) f.rs[i] = one.rs[0]; else if(fo.kind == K_MSG) f.m[i] = one.m[0]; else f.rb[i] = one.rb[0]; }
static FVal elem_of(const FieldOps& fo, const FVal& f, size_t i) { FVal o; if(is_scalar(fo.kind)) o.rs.push_back(f.rs[i]); else if(fo.kind == K_MSG) o.m.push_back(f.m[i]); else o.rb.push_back(f.rb[i]); return o; }
static FVal snap_elem(const FieldOps& fo, const void* x) { FVal o; if(is_scalar(fo.kind)) o.rs.push_back(fo.rep->elem->get(x)); else if(fo.kind == K_MSG) o.m.push_back(snap(fo.msg(), x)); else o.rb.push_back(read_back(fo.str, x)); return o; }
static FVal snap_rep(const FieldOps& fo, const void* r) { FVal f; uint32_t n = fo.rep->length(r); REQUIRE(n <= fo.rep->max, "capacity", "%s holds %u elements, capacity %u", fo.name, n, fo.rep->max); for(uint32_t i = 0; i < n; ++i) { FVal e = snap_elem(fo, fo.rep->get_const(r, i, 0)); if(is_scalar(fo.kind)) f.rs.push_back(e.rs[0]); else if(fo.kind == K_MSG) f.m.push_back(e.m[0]); else f.rb.push_back(e.rb[0]); } return f; }

static void msg_field_op(MsgVal& v, void* obj, const GenCfg& g, const HistCfg& h, int depth);
static void elem_op(const FieldOps& fo, void* x, FVal& f, size_t i, const GenCfg& g, const HistCfg& h, int depth) {
  if(is_scalar(fo.kind)) { uint64_t s = gen_scalar(fo.kind, g); fo.rep->elem->set(x, s, static_cast<int>(pick(4))); f.rs[i] = s; }
  else if(fo.kind == K_MSG) { uint32_t n = 1 + pick(2); for(uint32_t k = 0; k < n; ++k) msg_field_op(f.m[i], x, g, h, depth + 1); }
  else str_op(fo.str, x, f.rb[i], g, h, fo.kind, fo.name);
}
// r: the repeated field itself; obj: the message holding it, or null for a field standing alone
static void rep_op(const FieldOps& fo, void* r, void* obj, FVal& f, const GenCfg& g, const HistCfg& h, int depth) {
  const RepOps* ro = fo.rep; const ElemOps* el = ro->elem; uint32_t wo = h.w_over; size_t len = rep_len(f);
  const uint32_t W[] = { 6, 4, 5, 3, 2, wo, wo, 2 + wo, h.w_shrink, 2, len ? 2u : 0u, h.w_shrink };
  FVal one;
  switch(pickw(W)) {
    case 0: { // append
      gen_elem(fo, one, g); Raw_ x(&el->o); put_elem(el, x.p, fo, one, 0); if(obj && coin()) fo.radd(obj, x.p); else { int e = ro->add(r, x.p); if(len >= ro->max) REQUIRE(e == E_ARR, "oversize", "%s: appending to a full field returned %s", fo.name, errname(e)); else REQUIRE(e == E_OK, "set-refused", "%s: appending element %zu of %u returned %s", fo.name, len, ro->max, errname(e)); }
      if(len >= ro->max) count_fault("append_to_full"); else model_set(fo, f, len, one); break; }
    case 1: { // set by index
      uint32_t i = wo || coin() ? wild_index(ro->max) : pick(ro->max), lim = std::min(i, ro->max - 1); if(ro->max > 200 && lim > len + 20) { i = lim = static_cast<uint32_t>(len < ro->max ? len : ro->max - 1); } if(i >= ro->max) count_fault("index_beyond_capacity"); gen_elem(fo, one, g); Raw_ x(&el->o); put_elem(el, x.p, fo, one, 0); if(obj && coin()) fo.rset(obj, i, x.p, static_cast<int>(pick(2))); else ro->set(r, i, x.p); model_set(fo, f, lim, one); break; }
    case 2: { // change through a reference, growing
      uint32_t i = coin() && len ? pick(static_cast<uint32_t>(len)) : wild_index(ro->max), lim = std::min(i, ro->max - 1); if(ro->max > 200 && lim > len + 20) { i = lim = static_cast<uint32_t>(len < ro->max ? len : ro->max - 1); } if(i >= ro->max) count_fault("index_beyond_capacity"); bool exposed = lim >= len; void* x = obj && coin() ? fo.rmut(obj, i) : ro->get(r, i, static_cast<int>(pick(2))); { const char* base = static_cast<const char*>(ro->base(r)); REQUIRE(x >= base && x < base + ro->max * el->o.size, "outside", "%s: element %u of a capacity of %u is at offset %td", fo.name, i, ro->max, static_cast<const char*>(x) - base); } if(exposed) { rep_resize(fo, f, lim + 1); count_probe("grown_by_index"); }
      { std::string why; FVal a = elem_of(fo, f, lim), b = snap_elem(fo, x); REQUIRE(same_field(fo, a, b, "", &why), h.check_stale ? "stale" : "history", "%s[%u] after %s: expected vs found %s", fo.name, i, exposed ? "growing" : "access", why.c_str()); }
      if(coin()) elem_op(fo, x, f, lim, g, h, depth); break; }
    case 3: if(obj && coin()) fo.clear(obj); else ro->o.clear(r); rep_resize(fo, f, 0); break;
    case 4: { // all at once
      uint32_t n = gen_len(std::min(ro->max, 40u), g); if(fo.kind == K_MSG) n = std::min(n, 4u); FVal nf; Raw_ arr(&el->o, n); for(uint32_t k = 0; k < n; ++k) { gen_elem(fo, one, g); put_elem(el, arr.at(k), fo, one, 0); model_set(fo, nf, k, one); } int e = ro->set_data(r, arr.p, n); REQUIRE(e == E_OK, "set-refused", "%s: set_data of %u of %u: %s", fo.name, n, ro->max, errname(e)); f = nf; break; }
    case 5: { // all at once, too many
      if(ro->max > 200) break; uint32_t n = ro->max + 1 + pick(3); Raw_ arr(&el->o, n); if(is_scalar(fo.kind)) for(uint32_t k = 0; k < n; ++k) el->set(arr.at(k), 1, 0); if(chance(1, 3)) n = absurd(ro->max, el->o.size); count_fault("oversize_set"); int e = ro->set_data(r, arr.p, n); REQUIRE(e == E_ARR, "oversize", "%s: set_data of %u elements in a capacity of %u returned %s", fo.name, n, ro->max, errname(e)); break; }
    case 6: { // fill to the brim, then one more
      if(ro->max > 150) break; Raw_ x(&el->o); one = FVal(); if(is_scalar(fo.kind)) { el->set(x.p, 1, 0); one.rs.push_back(1); } else if(fo.kind == K_MSG) one.m.emplace_back(fo.msg()); else one.rb.emplace_back(); while(rep_len(f) < ro->max) { int e = ro->add(r, x.p); REQUIRE(e == E_OK, "set-refused", "%s: appending element %zu of %u: %s", fo.name, rep_len(f), ro->max, errname(e)); model_set(fo, f, rep_len(f), one); } count_fault("append_to_full"); int e = ro->add(r, x.p); REQUIRE(e == E_ARR, "oversize", "%s: appending to a full field returned %s", fo.name, errname(e)); break; }
    case 7: { // reads
      uint32_t i = wild_index(ro->max); if(i < len) { Raw_ o(&el->o); int e = ro->get_checked(r, i, o.p); REQUIRE(e == E_OK, "checked-get", "%s: checked get %u of %zu: %s", fo.name, i, len, errname(e)); std::string why; REQUIRE(same_field(fo, elem_of(fo, f, i), snap_elem(fo, o.p), "", &why), "checked-get", "%s", why.c_str()); }
      else { Raw_ o(&el->o); gen_elem(fo, one, g); put_elem(el, o.p, fo, one, 0); count_fault("index_beyond_length"); int e = ro->get_checked(r, i, o.p); REQUIRE(e == E_IDX, "checked-get", "%s: checked get %u of %zu returned %s", fo.name, i, len, errname(e)); std::string why; REQUIRE(same_field(fo, one, snap_elem(fo, o.p), "", &why), "checked-get", "%s: refused checked get changed the output: %s", fo.name, why.c_str()); }
      const void* a = obj && coin() ? fo.ridx(obj, i) : ro->get_const(r, i, static_cast<int>(pick(2))); const char* base = static_cast<const char*>(ro->base(r)); REQUIRE(a >= base && a < base + ro->max * el->o.size, "outside", "%s: element %u of a capacity of %u is read at offset %td", fo.name, i, ro->max, static_cast<const char*>(a) - base); const void* b = ro->get_const(r, std::min(i, ro->max - 1), 0); REQUIRE(a == b, "history", "%s: element %u of %u is read from another place", fo.name, i, ro->max);
      uint32_t sz = ro->get_size(r); REQUIRE(len == 0 ? sz == 0 : sz % len == 0, "history", "%s: get_size() %u with %zu elements", fo.name, sz, len); break; }
    case 8: { // shorten
      size_t n = len ? pick(static_cast<uint32_t>(len)) : 0; if(n > 40) n = 40; FVal nf; Raw_ arr(&el->o, static_cast<uint32_t>(n)); for(size_t k = 0; k < n; ++k) { FVal e1 = elem_of(fo, f, k); put_elem(el, arr.at(static_cast<uint32_t>(k)), fo, e1, 0); model_set(fo, nf, k, e1); } int e = ro->set_data(r, arr.p, static_cast<uint32_t>(n)); REQUIRE(e == E_OK, "set-refused", "%s: set_data: %s", fo.name, errname(e)); f = nf; count_probe("shortened"); break; }
    case 9: { // replaced by another object
      FVal nf; Raw_ o(&ro->o); uint32_t n = gen_len(std::min(ro->max, 20u), g); if(fo.kind == K_MSG) n = std::min(n, 3u); for(uint32_t k = 0; k < n; ++k) { gen_elem(fo, one, g); Raw_ x(&el->o); put_elem(el, x.p, fo, one, 0); ro->add(o.p, x.p); model_set(fo, nf, k, one); } if(coin() && ro->max > 1) { Raw_ q(&ro->o); q.o->destroy(q.p); dirty(q.p, ro->o.size); ro->from_half(q.p, o.p, static_cast<int>(pick(2))); if(n > ro->max / 2) rep_resize(fo, nf, ro->max / 2); if(obj && coin()) fo.oset(obj, q.p, 0); else ro->o.assign(r, q.p); } else if(obj && coin()) fo.oset(obj, o.p, 0); else ro->o.assign(r, o.p); f = nf; break; }
    case 10: { // an element of this very field is appended to it or put in another place
      uint32_t j = pick(static_cast<uint32_t>(len)); one = elem_of(fo, f, j); const void* x = obj && coin() ? fo.ridx(obj, j) : ro->get_const(r, j, static_cast<int>(pick(2))); count_probe("element_of_itself");
      if(coin()) { if(obj && coin()) fo.radd(obj, x); else { int e = ro->add(r, x); if(len >= ro->max) REQUIRE(e == E_ARR, "oversize", "%s: appending to a full field returned %s", fo.name, errname(e)); else REQUIRE(e == E_OK, "set-refused", "%s: appending element %zu of %u returned %s", fo.name, len, ro->max, errname(e)); } if(len >= ro->max) count_fault("append_to_full"); else model_set(fo, f, len, one); }
      else { uint32_t i = pick(std::min(ro->max, static_cast<uint32_t>(len) + 3)); if(obj && coin()) fo.rset(obj, i, x, static_cast<int>(pick(2))); else ro->set(r, i, x); model_set(fo, f, i, one); } break; }
    default: { ro->o.clear(r); rep_resize(fo, f, 0); }
  }
  std::string why; FVal got = snap_rep(fo, r); REQUIRE(same_field(fo, f, got, "", &why), h.cls, "after a call on %s (expected vs found): %s", fo.name, why.c_str());
}
void field_op(MsgVal& v, void* obj, const FieldOps& fo, FVal& f, const GenCfg& g, const HistCfg& h, int depth) {
  auto touch = [&]() { if(fo.card == C_OPT) f.has = true; else if(fo.card == C_ONEOF) set_which(v, fo.oneof, fo.num); };
  if(fo.card == C_REP) { rep_op(fo, fo.mut(obj), obj, f, g, h, depth); return; }
  if(chance(1, 5)) { // clear the field
    fo.clear(obj); if(fo.card == C_ONEOF) { if(v.which[fo.oneof] == fo.num) set_which(v, fo.oneof, 0); } else reset_field(fo, f);
    return;
  }
  if(is_scalar(fo.kind)) {
    if(fo.smut && chance(1, 5)) { uint64_t s = fo.smut(obj); touch(); REQUIRE(s == f.s, h.cls, "mutable_%s() refers to %llu, expected %llu", fo.name, (unsigned long long)s, (unsigned long long)f.s); return; }
    uint64_t s = chance(1, 6) ? 0 : gen_scalar(fo.kind, g); fo.sset(obj, s, static_cast<int>(pick(fo.smut ? 3 : 2))); touch(); f.s = s; return;
  }
  if(is_strk(fo.kind)) {
    if(chance(1, 4)) { Raw_ t(&fo.str->o); std::string n = gen_str(fo.str->max, fo.kind, g); put_str(fo.str, t.p, n); fo.oset(obj, t.p, 0); touch(); f.b = n; }
    else { void* s = fo.mut(obj); touch(); str_op(fo.str, s, f.b, g, h, fo.kind, fo.name); }
    return;
  }
  if(chance(1, 4)) { MsgVal n = gen_msg(fo.msg(), g, 1); ObjP t(new Obj(fo.msg())); build(fo.msg(), t->p, n); fo.oset(obj, t->p, static_cast<int>(pick(2))); touch(); f.m[0] = n; }
  else { void* s = fo.mut(obj); touch(); uint32_t n = pick(3); for(uint32_t k = 0; k < n; ++k) msg_field_op(f.m[0], s, g, h, depth + 1); if(n == 0) check_same(h.cls, f.m[0], snap(fo.msg(), s), 0, "a sub-message accessed for modification"); }
}
static void msg_field_op(MsgVal& v, void* obj, const GenCfg& g, const HistCfg& h, int depth) {
  if(!v.t->nfields || depth > 5) return; uint32_t i = pick(v.t->nfields); ev("op", i, static_cast<uint64_t>(depth)); field_op(v, obj, v.t->fields[i], v.f[i], g, h, depth);
  NOTE("%*soperation on %s.%s: %s", depth, "", v.t->name, v.t->fields[i].name, show(v, 300).c_str());
}
// After a failed parse: oneofs hold what they held before the failing field, or, the failing one, nothing.
static void judge_oneofs(const MsgVal& pre, const MsgVal& got, const Bytes& b) {
  MsgVal x = pre; Dec d = decode(x, b.data(), b.size()); if(d.ok() || d.may) return; MsgVal before = pre; decode(before, b.data(), d.boundary); uint32_t fail = static_cast<uint32_t>(std::max(0, d.fail_oneof_depth));
  for(uint32_t o = 0; o < got.t->noneofs; ++o) {
    bool failing = false; for(uint32_t i = 0; i < got.t->nfields; ++i) if(got.t->fields[i].oneof == static_cast<int>(o) && got.t->fields[i].num == fail) failing = true;
    if(failing && got.which[o] == 0) { count_probe("oneof_reset_by_failed_parse"); continue; }
    auto eq = [&](const MsgVal& w) { if(w.which[o] != got.which[o]) return false; for(uint32_t i = 0; i < got.t->nfields; ++i) if(got.t->fields[i].oneof == static_cast<int>(o) && got.t->fields[i].num == got.which[o]) return same_field(got.t->fields[i], w.f[i], got.f[i], "", nullptr); return true; };
    REQUIRE(eq(before) || eq(pre), "half-parsed", "after a failed parse (field %u, %s) oneof %u of %s reports member %u with a value that is neither the earlier one nor a complete one; got %s", fail, hex(b, 60).c_str(), o, label_of(got.t), got.which[o], show(got, 300).c_str());
  }
  for(uint32_t i = 0; i < got.t->nfields; ++i) {
    const FieldOps& fo = got.t->fields[i]; if(fo.num != fail || fo.kind != K_MSG || (fo.card != C_SING && fo.card != C_OPT)) continue;
    size_t p = d.boundary; while(p < b.size() && (b[p] & 0x80)) ++p; if(p < b.size()) ++p; else return;
    uint64_t len = 0; int k = 0; while(p < b.size() && k < 5) { uint8_t c = b[p++]; len |= static_cast<uint64_t>(c & 0x7f) << (7 * k++); if(!(c & 0x80)) break; }
    if(len > b.size() - p) return; judge_oneofs(before.f[i].m[0], got.f[i].m[0], Bytes(b.begin() + p, b.begin() + p + len));
  }
}
void history(const MsgOps* t, const GenCfg& g, const HistCfg& h, uint32_t nops) {
  std::vector<Slot> s(1 + pick(3)); for(auto& x : s) { x.o.reset(new Obj(t)); x.v = MsgVal(t); check_same("fresh", x.v, snap(t, x.o->p), 0, "a new message"); }
  auto slot = [&]() -> Slot& { return s[pick(static_cast<uint32_t>(s.size()))]; };
  const uint32_t W[] = { h.w_field, h.w_copy, h.w_move, h.w_clear, h.w_parse, h.w_bad, h.w_ser, h.w_new };
  for(uint32_t k = 0; k < nops; ++k) {
    step(); g_now += 10;
    switch(pickw(W)) {
      case 0: { Slot& a = slot(); msg_field_op(a.v, a.o->p, g, h, 0); break; }
      case 1: { Slot& a = slot(); Slot& b = slot(); ev("assign", static_cast<uint64_t>(&a - &s[0]), static_cast<uint64_t>(&b - &s[0])); NOTE("message %d = message %d", static_cast<int>(&a - &s[0]), static_cast<int>(&b - &s[0])); if(&a == &b) count_probe("self_assignment");
        if(coin() && &a != &b && t->nfields) { // one part only
          uint32_t i = pick(t->nfields); const FieldOps& fo = t->fields[i]; if(!is_scalar(fo.kind) || fo.card == C_REP) { if(fo.card == C_ONEOF && b.v.which[fo.oneof] != fo.num) break; fo.oset(a.o->p, fo.cget(b.o->p, 0), static_cast<int>(pick(2))); if(fo.card == C_ONEOF) set_which(a.v, fo.oneof, fo.num); bool hs = a.v.f[i].has; a.v.f[i] = b.v.f[i]; a.v.f[i].has = fo.card == C_OPT ? true : hs; } break; }
        t->o.assign(a.o->p, b.o->p); if(&a != &b) a.v = b.v; break; }
      case 2: { Slot& a = slot(); Slot& b = slot(); if(&a == &b) break; ev("move"); NOTE("message moved"); if(coin()) t->move_assign(a.o->p, b.o->p); else { ObjP n(new Obj(t, nullptr, 1, b.o->p)); a.o = std::move(n); } a.v = b.v; b.v = snap(t, b.o->p); break; }
      case 3: { Slot& a = slot(); ev("clear"); NOTE("clear"); t->o.clear(a.o->p); a.v = MsgVal(t); break; }
      case 4: { Slot& a = slot(); GenCfg g2 = g; g2.density = 10 + pick(50); Bytes b = gen_frame(gen_msg(t, g2), true); Expect x = expect(a.v, b); MsgVal pre = a.v; ev_bytes("parse", b.data(), b.size()); NOTE("parse %s", hex(b, 100).c_str()); Parsed r = parse_with(t->o, a.o->p, b, pick(RK_N)); check_err("parse", x.d, r.err, b, t, "parse in a history"); if(r.err == E_OK) a.v = x.v; else { if(h.tight) judge_oneofs(pre, snap(t, a.o->p), b); a.v = snap(t, a.o->p); } break; }
      case 5: { Slot& a = slot(); Bytes b = bad_frame(t, g); Expect x = expect(a.v, b); MsgVal pre = a.v; ev_bytes("parse", b.data(), b.size()); NOTE("parse bad %s", hex(b, 100).c_str()); Parsed r = parse_with(t->o, a.o->p, b, pick(RK_N)); check_err("parse", x.d, r.err, b, t, "bad frame in a history"); if(r.err == E_OK) a.v = x.v; else { count_fault("failed_parse_into_used_object"); MsgVal got = snap(t, a.o->p); if(h.tight) judge_oneofs(pre, got, b); a.v = got; } break; }
      case 6: { Slot& a = slot(); Bytes b = serialize_ok(t, a.o->p, "serialise"); ev_bytes("serialised", b.data(), b.size()); ObjP n(new Obj(t)); build(t, n->p, a.v); Bytes c = serialize_ok(t, n->p, "serialise"); REQUIRE(b == c, "same-bytes", "%s with equal contents serialises differently: %s and %s", label_of(t), hex(b, 60).c_str(), hex(c, 60).c_str());
        MsgVal d(t); Dec dd = decode(d, b.data(), b.size()); REQUIRE(dd.ok(), "wire", "%s serialises to malformed bytes: %s", label_of(t), hex(b, 80).c_str()); check_same("wire", a.v, d, 1, "content on the wire"); break; }
      default: { Slot& a = slot(); Slot& b = slot(); ev("copy"); NOTE("copy constructed"); ObjP n(new Obj(t, b.o->p, 0)); MsgVal nv = b.v; a.o = std::move(n); a.v = nv; break; }
    }
    for(auto& a : s) { check_same(h.cls, a.v, snap(t, a.o->p, static_cast<int>(k % 8)), 0, "content after a history of calls"); if(h.check_stale) check_default_beyond("stale", t, a.o->p); }
    if(h.check_stale) { Slot& a = slot(); Bytes b = serialize_ok(t, a.o->p, "serialise"); MsgVal d(t); decode(d, b.data(), b.size()); check_same("stale", a.v, d, 1, "content on the wire"); }
  }
}
// ------------------------------------------------------------------------------------------------ C12 C08 C13 C14 C20
static void hist_scenario(const MsgOps* t, HistCfg h, uint32_t lo, uint32_t hi) { GenCfg g = swarm_cfg(); g.maxlen = pick(3) ? 40 : 0xffffffffu; nontrivial(); NOTE("%s", label_of(t)); ev(label_of(t)); history(t, g, h, range(lo, hi)); }
SCENARIO("C12", value_histories, 4) { HistCfg h; uint32_t m = pick(8); if(m & 1) h.w_copy = 15; if(m & 2) h.w_over = 0; if(m & 4) h.w_bad = 0; hist_scenario(pick_message(), h, 4, 40); }
SCENARIO("C12", copies_are_independent, 2) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); ObjP a = obj_of(v, g); nontrivial(); uint32_t n = 1 + pick(4); HistCfg h; ObjP b(new Obj(t, a->p, 0)); ObjP c = default_obj(t, g); if(!is_heavy(t) && coin()) build(t, c->p, gen_msg(t, g)); t->o.assign(c->p, a->p); MsgVal vb = v, vc = v;
  check_same("copy", v, snap(t, b->p), 0, "a copy"); check_same("copy", v, snap(t, c->p), 0, "an assigned copy");
  for(uint32_t k = 0; k < n; ++k) { msg_field_op(vb, b->p, g, h, 0); check_same("copy", v, snap(t, a->p), 0, "the original after its copy changed"); check_same("copy", vc, snap(t, c->p), 0, "a copy after another changed"); }
  for(uint32_t k = 0; k < n; ++k) { msg_field_op(v, a->p, g, h, 0); check_same("copy", vb, snap(t, b->p), 0, "a copy after the original changed"); check_same("copy", vc, snap(t, c->p), 0, "a copy after the original changed"); }
  if(coin()) { t->o.clear(a->p); a.reset(); } check_same("copy", vb, snap(t, b->p), 0, "a copy after the original was cleared and destroyed"); check_same("copy", vc, snap(t, c->p), 0, "an assigned copy after the original was destroyed");
}
SCENARIO("C08", capacity_histories, 4) { HistCfg h; h.w_over = 12; h.w_bad = 6; h.w_copy = 3; h.cls = "capacity-history"; static const char* const N[] = { "st.Strs", "st.StrsT<5,9,31>", "st.RepStrs", "st.OptStrs", "rp.RepAll", "rp.RepMsgs", "rp.Rec<8,4>", "rp.Rec<130,1>", "oo.OneofAll", "oo.OneofDeep", "oo.Oneof5", "ne.deep.L4", "ne.deep.L2", "rp.OnlyRep", "ve.ReportV3", "st.BigStr", "rp.BigRep", "oo.Inner" }; const MsgOps* t = pick_of(N, 'c'); hist_scenario(t, h, 3, is_heavy(t) ? 8 : 30); }
static void alone(const FieldOps& fo, const GenCfg& g, HistCfg h) { // a field object by itself, its memory exactly its size
  uint32_t n = 4 + pick(25);
  if(fo.card == C_REP) { Raw_ r(&fo.rep->o); FVal f; for(uint32_t k = 0; k < n; ++k) { rep_op(fo, r.p, nullptr, f, g, h, 3); if(chance(1, 6)) { Raw_ c(&fo.rep->o, r.p); std::string why; REQUIRE(same_field(fo, f, snap_rep(fo, c.p), "", &why), h.cls, "copy of %s: %s", fo.name, why.c_str()); fo.rep->o.assign(r.p, c.p); } } }
  else { Raw_ s(&fo.str->o); std::string m; for(uint32_t k = 0; k < n; ++k) { str_op(fo.str, s.p, m, g, h, fo.kind, fo.name);
      if(chance(1, 6)) { Bytes in; uint32_t len; switch(pick(4)) { case 0: len = fo.str->max; break; case 1: len = fo.str->max + 1; break; case 2: len = 0xffffffffu - pick(3); break; default: len = pick(fo.str->max + 1); } put_varint(in, len); uint32_t have = std::min(len, fo.str->max < 5000 ? fo.str->max + 4 : 64u); if(coin()) have = pick(have + 1); in.insert(in.end(), have, 'q'); SimReader r(in); int e = fo.str->o.des(s.p, r); count_fault("parse_length_extreme");
        if(len > fo.str->max) { REQUIRE(e == E_ARR || (e == E_END && have < len), "oversize", "%s: parsing %u bytes into a capacity of %u returned %s", fo.name, len, fo.str->max, errname(e)); } else if(have < len) REQUIRE(e == E_END, "truncated", "%s: %u of %u bytes there: %s", fo.name, have, len, errname(e)); else REQUIRE(e == E_OK, "set-refused", "%s: parsing %u bytes in %u: %s", fo.name, len, fo.str->max, errname(e));
        REQUIRE(fo.str->length(s.p) <= fo.str->max, "capacity", "%s has length %u of %u", fo.name, fo.str->length(s.p), fo.str->max); if(e == E_OK) REQUIRE(read_back(fo.str, s.p) == std::string(len, 'q'), h.cls, "%s: parsed content", fo.name); m = read_back(fo.str, s.p); } } }
}
static const FieldOps* pick_container() { for(int k = 0; k < 12; ++k) { const MsgOps* t = pick_message(); if(!t->nfields) continue; const FieldOps& fo = t->fields[pick(t->nfields)]; if(fo.card == C_REP || is_strk(fo.kind)) return &fo; } return &msg_by_name("rp.OnlyRep")->fields[0]; }
struct Tmp { const ObjOps& o; std::vector<char> m; void* p; explicit Tmp(const ObjOps& ops) : o(ops), m(ops.size + ops.align) { uintptr_t a = reinterpret_cast<uintptr_t>(m.data()); p = reinterpret_cast<void*>((a + o.align - 1) / o.align * o.align); o.construct(p); } ~Tmp() { o.destroy(p); } Tmp(const Tmp&) = delete; };
SCENARIO("C08", configured_capacity, 1) { // what the schema or the template argument says is what the field offers, takes and refuses beyond
  const MsgOps* t = pick_message(); nontrivial(); Obj o(t); ev("configured", t->nfields); NOTE("%s", label_of(t));
  for(uint32_t i = 0; i < t->nfields; ++i) {
    const FieldOps& f = t->fields[i]; uint32_t cr = t->caps[2 * i], cs = t->caps[2 * i + 1]; if(f.card == C_ONEOF || !f.mut) continue; void* p = f.mut(o.p);
    if(f.rep) { REQUIRE(f.rep->max_length(p) == cr, "configured-capacity", "%s.%s is configured for %u elements and says %u", label_of(t), f.name, cr, f.rep->max_length(p)); Tmp e(f.rep->elem->o); if(cr <= 200) { for(uint32_t k = 0; k < cr; ++k) { int r = f.rep->add(p, e.p); REQUIRE(r == E_OK, "configured-capacity", "%s.%s: element %u of %u refused: %s", label_of(t), f.name, k + 1, cr, errname(r)); } int r = f.rep->add(p, e.p); count_fault("append_when_full"); REQUIRE(r == E_ARR && f.rep->length(p) == cr, "configured-capacity", "%s.%s: element %u of %u: %s, length %u", label_of(t), f.name, cr + 1, cr, errname(r), f.rep->length(p)); } }
    if(f.str) { Tmp e(f.str->o); void* q = f.rep ? e.p : p; REQUIRE(f.str->max_length(q) == cs, "configured-capacity", "%s.%s is configured for %u characters and says %u", label_of(t), f.name, cs, f.str->max_length(q)); Bytes b(cs + 1, 'x'); int r = f.str->set(q, b.data(), cs + 1); count_fault("set_too_long"); REQUIRE(r == E_ARR, "configured-capacity", "%s.%s: %u of %u characters: %s", label_of(t), f.name, cs + 1, cs, errname(r)); r = f.str->set(q, b.data(), cs); REQUIRE(r == E_OK && f.str->length(q) == cs, "configured-capacity", "%s.%s: %u of %u characters: %s", label_of(t), f.name, cs, cs, errname(r)); }
  }
}
SCENARIO("C08", containers_alone, 4) { GenCfg g = swarm_cfg(); HistCfg h; h.w_over = 8; h.w_shrink = 2; h.cls = "capacity-history"; nontrivial(); const FieldOps* f = pick_container(); NOTE("%s alone", f->name); ev(f->name, f->num); alone(*f, g, h); }
SCENARIO("C08", refused_calls_change_nothing, 2) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(false); MsgVal v = gen_msg(t, g); ObjP o = obj_of(v, g); if(!t->nfields) return; HistCfg h; h.w_over = 30; h.cls = "refused-changed"; nontrivial(); uint32_t n = 3 + pick(12); for(uint32_t k = 0; k < n; ++k) { msg_field_op(v, o->p, g, h, 0); check_same("refused-changed", v, snap(t, o->p), 0, "content after calls that do not fit"); } }
SCENARIO("C08", oversize_frames, 3) { GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); ObjP o = default_obj(t, g); nontrivial(); MsgVal m(t); uint32_t n = 1 + pick(5); for(uint32_t k = 0; k < n; ++k) { Bytes b = coin() ? bad_frame(t, g) : gen_frame(gen_msg(t, g), false); Expect x = expect(m, b); ev_bytes("frame", b.data(), b.size()); Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); if(r.err == E_ARR || ((x.d.accepted() >> E_ARR) & 1u)) check_err("capacity-verdict", x.d, r.err, b, t, "frame beyond capacity"); else check_err("parse", x.d, r.err, b, t, "frame"); MsgVal got = snap(t, o->p); if(r.err == E_OK) check_same("capacity-history", x.v, got, 0, "content"); m = got; serialize_ok(t, o->p, "serialise"); } }
static const char* const ONEOFS[] = { "oo.OneofAll", "oo.OnlyOneof", "oo.EnumOneof", "oo.OneofDeep", "oo.Oneof5", "ne.deep.L4", "ne.deep.L2", "ve.ReportV1", "ve.ReportV2", "ne.deep.Frame" };
SCENARIO("C13", oneof_histories, 5) { HistCfg h; h.tight = true; h.w_parse = 8; h.w_bad = 8; h.w_copy = 6; h.w_ser = 5; h.cls = "oneof-history"; hist_scenario(pick_of(ONEOFS, 'o'), h, 4, 30); }
// only calls on oneof members
SCENARIO("C13", oneof_switching, 4) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_of(ONEOFS, 'o'); HistCfg h; h.cls = "oneof-history"; std::vector<uint32_t> mem; for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].card == C_ONEOF) mem.push_back(i); if(mem.empty()) return; nontrivial();
  std::vector<Slot> s(2); for(auto& x : s) { x.o.reset(new Obj(t)); x.v = MsgVal(t); } uint32_t n = 5 + pick(25); const MsgVal def(t);
  for(uint32_t k = 0; k < n; ++k) {
    Slot& a = s[pick(2)]; Slot& b = s[&a == &s[0] ? 1 : 0]; ev("oneof"); 
    switch(pick(6)) { default: { uint32_t i = mem[pick(static_cast<uint32_t>(mem.size()))]; NOTE("member %s", t->fields[i].name); field_op(a.v, a.o->p, t->fields[i], a.v.f[i], g, h, 0); break; }
      case 3: NOTE("assign"); t->o.assign(a.o->p, b.o->p); a.v = b.v; break; case 4: { NOTE("copy"); ObjP nn(new Obj(t, b.o->p, 0)); a.o = std::move(nn); a.v = b.v; break; }
      case 5: { // sent several members of the same oneof: the last one wins
        Bytes w; uint32_t q = 1 + pick(3); MsgVal x = a.v; for(uint32_t z = 0; z < q; ++z) { uint32_t i = mem[pick(static_cast<uint32_t>(mem.size()))]; MsgVal one(t); set_which(one, t->fields[i].oneof, t->fields[i].num); if(is_scalar(t->fields[i].kind)) one.f[i].s = gen_scalar(t->fields[i].kind, g); else if(t->fields[i].kind == K_MSG) one.f[i].m[0] = gen_msg(t->fields[i].msg(), g, 1); else one.f[i].b = gen_str(t->fields[i].str->max, t->fields[i].kind, g); Bytes e = encode(one); w.insert(w.end(), e.begin(), e.end()); }
        bool cut = chance(1, 3) && !w.empty(); if(cut) { w.resize(pick(static_cast<uint32_t>(w.size()))); count_fault("input_cut"); } Expect e = expect(a.v, w); MsgVal pre = a.v; NOTE("parse %s", hex(w, 80).c_str()); Parsed r = parse_with(t->o, a.o->p, w, pick(RK_N)); check_err("parse", e.d, r.err, w, t, "members of a oneof"); if(r.err == E_OK) a.v = e.v; else { MsgVal got = snap(t, a.o->p); judge_oneofs(pre, got, w); a.v = got; } break; } }
    for(auto& x : s) { check_same("oneof-history", x.v, snap(t, x.o->p, static_cast<int>(k & 7)), 0, "oneofs after a history of calls"); Bytes w = serialize_ok(t, x.o->p, "serialise"); MsgVal d(t); decode(d, w.data(), w.size()); check_same("oneof-wire", x.v, d, 1, "oneofs on the wire"); }
  }
}
static const char* const OPTS[] = { "sc.OptScalars", "sc.Opt70", "st.OptStrs", "ne.deep.L4", "ne.deep.L3", "ne.deep.L1", "ne.deep.Frame", "oo.Small", "oo.EnumOneof", "ve.ItemV2", "ve.ReportV3", "rp.RepMsgs" };
SCENARIO("C14", presence_histories, 4) { HistCfg h; h.w_ser = 5; h.w_copy = 8; h.w_bad = 1; h.w_parse = 5; h.cls = "presence-history"; hist_scenario(pick_of(OPTS, 'p'), h, 5, 40); }
SCENARIO("C14", presence_transmitted, 5) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_of(OPTS, 'p'); nontrivial(); ObjP a(new Obj(t)), b(new Obj(t)); MsgVal v(t); std::vector<uint32_t> op; for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].card == C_OPT) op.push_back(i); uint32_t rounds = 1 + pick(4); HistCfg h; h.cls = "presence-history";
  for(uint32_t r = 0; r < rounds; ++r) {
    uint32_t n = pick(10); for(uint32_t k = 0; k < n && !op.empty(); ++k) { uint32_t i = op[pick(static_cast<uint32_t>(op.size()))]; const FieldOps& fo = t->fields[i]; ev("presence", i);
      switch(pick(4)) { case 0: field_op(v, a->p, fo, v.f[i], g, h, 0); break; case 1: fo.clear(a->p); reset_field(fo, v.f[i]); break;
        case 2: if(is_scalar(fo.kind)) { fo.sset(a->p, 0, static_cast<int>(pick(2))); v.f[i].s = 0; v.f[i].has = true; } else { fo.mut(a->p); v.f[i].has = true; } break; // present with a default value
        default: if(is_scalar(fo.kind)) { if(fo.smut) { fo.smut(a->p); v.f[i].has = true; } } else if(fo.kind == K_MSG) { Obj d(fo.msg()); fo.oset(a->p, d.p, 0); v.f[i].m[0] = MsgVal(fo.msg()); v.f[i].has = true; } else { Raw_ d(&fo.str->o); fo.oset(a->p, d.p, 0); v.f[i].b.clear(); v.f[i].has = true; } }
      check_same("presence-history", v, snap(t, a->p), 0, "presence after a call"); }
    Bytes w = serialize_ok(t, a->p, "serialise"); ev_bytes("wire", w.data(), w.size()); NOTE("%s %s", show(v).c_str(), hex(w, 100).c_str()); MsgVal d(t); Dec dd = decode(d, w.data(), w.size()); REQUIRE(dd.ok(), "presence-wire", "malformed bytes"); check_same("presence-wire", v, d, 1, "presence on the wire");
    // nothing absent is transmitted, not even as a default
    for(uint32_t i : op) if(!v.f[i].has) { std::vector<size_t> bd = boundaries(w.data(), w.size()); for(size_t k = 0; k + 1 < bd.size(); ++k) { uint64_t tag = 0; for(size_t p = bd[k], s = 0; p < w.size(); ++p, s += 7) { tag |= static_cast<uint64_t>(w[p] & 0x7f) << s; if(!(w[p] & 0x80)) break; } REQUIRE((tag >> 3) != t->fields[i].num, "presence-wire", "absent field %s was transmitted", t->fields[i].name); } }
    t->o.clear(b->p); Parsed p = parse_with(t->o, b->p, w, pick(RK_N)); REQUIRE(p.err == E_OK, "presence-wire", "parsing: %s", errname(p.err)); check_same("presence-wire", v, snap(t, b->p), 1, "presence at the receiver");
    switch(pick(3)) { case 0: { ObjP c(new Obj(t, b->p, 0)); check_same("presence-history", v, snap(t, c->p), 1, "presence in a copy"); break; } case 1: { ObjP c = default_obj(t, g); if(coin()) build(t, c->p, gen_msg(t, g)); t->o.assign(c->p, b->p); check_same("presence-history", v, snap(t, c->p), 1, "presence after assignment"); break; } default: break; }
  }
}
SCENARIO("C14", presence_received, 3) { // received fields are present, others keep their state
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_of(OPTS, 'p'); nontrivial(); ObjP a(new Obj(t)); MsgVal v(t); uint32_t n = 1 + pick(5);
  for(uint32_t k = 0; k < n; ++k) { GenCfg g2 = g; g2.density = 8 + pick(40); MsgVal m = gen_msg(t, g2); EncCfg e = swarm_enc(true); Bytes b = encode_varied(m, e); Expect x = expect(v, b); Parsed r = parse_with(t->o, a->p, b, pick(RK_N)); check_err("parse", x.d, r.err, b, t, "received"); ev_bytes("frame", b.data(), b.size()); if(r.err != E_OK) { t->o.clear(a->p); v = MsgVal(t); continue; } v = x.v; check_same("presence-received", v, snap(t, a->p), 0, "presence after reception"); if(chance(1, 5)) { t->o.clear(a->p); v = MsgVal(t); check_same("presence-received", v, snap(t, a->p), 0, "presence after clear"); } }
}
SCENARIO("C20", shrink_and_grow, 5) { HistCfg h; h.check_stale = true; h.w_shrink = 12; h.w_clear = 5; h.w_bad = 4; h.w_copy = 6; h.cls = "stale"; static const char* const N[] = { "st.Strs", "st.StrsT<5,9,31>", "st.RepStrs", "st.OptStrs", "rp.RepAll", "rp.RepMsgs", "rp.Rec<8,4>", "oo.OneofAll", "oo.OneofDeep", "oo.Inner", "ne.deep.L4", "ne.deep.L3", "ne.deep.L2", "rp.OnlyRep", "ve.ReportV2", "ve.ItemV2" }; hist_scenario(pick_of(N, 'c'), h, 4, 30); }
SCENARIO("C20", containers_alone_stale, 3) { GenCfg g = swarm_cfg(); HistCfg h; h.check_stale = true; h.w_shrink = 10; h.cls = "stale"; nontrivial(); const FieldOps* f = pick_container(); ev(f->name, f->num); alone(*f, g, h); }
// one object receives long and short frames in turn
SCENARIO("C20", reused_receiver, 4) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(false); ObjP o(new Obj(t)); MsgVal v(t); uint32_t n = 3 + pick(8); nontrivial();
  for(uint32_t k = 0; k < n; ++k) {
    GenCfg g2 = g; g2.density = k & 1 ? 15 : 85; bool clear = pick(4) != 0; if(clear) { t->o.clear(o->p); v = MsgVal(t); check_same("stale", v, snap(t, o->p), 0, "content after clear"); check_default_beyond("stale", t, o->p); }
    Bytes b = chance(1, 4) ? bad_frame(t, g2) : gen_frame(gen_msg(t, g2), true); Expect x = expect(v, b); Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); ev_bytes("frame", b.data(), b.size()); check_err("parse", x.d, r.err, b, t, "frame in traffic"); MsgVal got = snap(t, o->p); if(r.err == E_OK) check_same("stale", x.v, got, 0, "content of a reused receiver"); v = got; check_default_beyond("stale", t, o->p);
    Bytes w = serialize_ok(t, o->p, "serialise"); MsgVal d(t); decode(d, w.data(), w.size()); check_same("stale", v, d, 1, "content sent by a reused object");
  }
}
// ------------------------------------------------------------------------------------------------ C09
SCENARIO("C09", histories_without_heap, 4) { g_forbid_heap = true; HistCfg h; h.w_bad = 5; h.w_parse = 5; h.w_ser = 5; h.w_over = 5; h.w_shrink = 3; hist_scenario(pick_message(), h, 4, 25); g_forbid_heap = false; count_fault("allocator_fails"); }
SCENARIO("C09", faults_without_heap, 4) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); g_forbid_heap = true; count_fault("allocator_fails"); nontrivial(); MsgVal v = gen_msg(t, g); ObjP o = obj_of(v, g); t->o.ssize(o->p); Bytes full = serialize_ok(t, o->p, "serialise"); ev_bytes("full", full.data(), full.size());
  { SimWriter w; w.cap = pick(static_cast<uint32_t>(full.size()) + 1); count_fault("output_full"); t->o.ser(o->p, w); } { SimWriter w; w.refuse_at = pick(20); w.refuse_n = 1; t->o.ser(o->p, w); } { std::unique_ptr<AnyWriter> w = make_fixed_writer(std::max<uint32_t>(1, static_cast<uint32_t>(full.size()))); if(w) t->o.ser(o->p, w->w()); }
  uint32_t n = 1 + pick(4); for(uint32_t k = 0; k < n; ++k) { Bytes b = pick(3) ? bad_frame(t, g) : gen_frame(v, true); parse(t, o->p, b, pick(RK_N)); if(coin()) { ObjP c(new Obj(t, o->p, 0)); t->o.ssize(c->p); } if(coin()) t->o.clear(o->p); }
  g_forbid_heap = false;
}
// ------------------------------------------------------------------------------------------------ C11
SCENARIO("C11", recover_after_failure, 6) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); ObjP o = coin() ? default_obj(t, g) : obj_of(gen_msg(t, g), g); uint32_t rounds = 1 + pick(4); NOTE("%s", label_of(t));
  for(uint32_t k = 0; k < rounds; ++k) {
    uint32_t fails = 1 + pick(2); for(uint32_t q = 0; q < fails; ++q) { Bytes b = bad_frame(t, g); NOTE("bad frame %s", hex(b, 100).c_str()); int e; if(chance(1, 4)) { SimReader r(b); r.arrived = pick(static_cast<uint32_t>(b.size()) + 1); count_fault("input_stalls"); e = t->o.des(o->p, r); } else e = parse(t, o->p, b, pick(RK_N)); ev("failed", static_cast<uint64_t>(e)); if(e != E_OK) count_fault("parse_failed"); }
    // the message can be used
    MsgVal left = snap(t, o->p, static_cast<int>(pick(8)));
    switch(pick(5)) { case 0: { Bytes w = serialize_ok(t, o->p, "after-failure"); REQUIRE(w.size() == t->o.ssize(o->p), "after-failure", "size after a failed parse"); break; } case 1: { ObjP c(new Obj(t, o->p, 0)); check_same("after-failure", left, snap(t, c->p), 0, "a copy of a message whose parse failed"); break; } case 2: { ObjP c = obj_of(gen_msg(t, g), g); t->o.assign(c->p, o->p); check_same("after-failure", left, snap(t, c->p), 0, "assigned from a message whose parse failed"); break; } case 3: { ObjP c(new Obj(t, o->p, 0)); o = std::move(c); break; } default: break; }
    t->o.clear(o->p); check_same("after-clear", MsgVal(t), snap(t, o->p), 0, "content after clear"); REQUIRE(t->o.ssize(o->p) == 0 && serialize_ok(t, o->p, "after-clear").empty(), "after-clear", "%s: cleared message serialises to %u bytes", label_of(t), t->o.ssize(o->p));
    Bytes b = chance(1, 4) ? bad_frame(t, g) : gen_frame(gen_msg(t, g), true); uint32_t kind = pick(RK_N); NOTE("next frame %s", hex(b, 100).c_str()); ObjP f(new Obj(t)); int e1 = parse(t, o->p, b, kind), e2 = parse(t, f->p, b, kind); ev("next", static_cast<uint64_t>(e1), static_cast<uint64_t>(e2));
    REQUIRE(e1 == e2, "recovery", "%s: after clear the next frame gives %s, in a new object %s: %s", label_of(t), errname(e1), errname(e2), hex(b, 80).c_str()); check_same("recovery", snap(t, f->p), snap(t, o->p), 0, "next frame in a cleared object vs a new one");
    Expect x = expect(MsgVal(t), b); REQUIRE(serialize_ok(t, o->p, "recovery") == serialize_ok(t, f->p, "recovery"), "recovery", "%s: cleared and new object serialise differently after the same frame", label_of(t));
  }
}
SCENARIO("C11", buffers_after_clear, 2) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(false); ObjP o(new Obj(t)), f(new Obj(t)); std::unique_ptr<AnyReader> rd = make_fixed_reader(4096); nontrivial(); uint32_t rounds = 2 + pick(4); std::unique_ptr<AnyWriter> wr = make_fixed_writer(1024); 
  for(uint32_t k = 0; k < rounds; ++k) {
    Bytes b = coin() ? bad_frame(t, g) : gen_frame(gen_msg(t, g), true); if(b.size() > rd->cap) continue; rd->clear(); REQUIRE(rd->r().get_size() == 0, "buffer-clear", "a cleared input buffer says it holds %u bytes", rd->r().get_size()); uint8_t z = 7; { LibScope l; REQUIRE(!rd->r().pop(z) && !rd->r().peek(z) && !rd->r().advance(), "buffer-clear", "a cleared input buffer delivers data"); }
    if(coin()) { if(!b.empty()) memcpy(rd->data(), b.data(), b.size()); rd->set_bytes_written(static_cast<uint32_t>(b.size())); } else for(uint8_t x : b) rd->push(x);
    t->o.clear(o->p); t->o.clear(f->p); int e1 = t->o.des(o->p, rd->r()); SimReader s(b); int e2 = t->o.des(f->p, s); ev("buf", static_cast<uint64_t>(e1), static_cast<uint64_t>(e2)); REQUIRE(e1 == e2, "recovery", "%s: in a reused input buffer %s, in a new one %s", label_of(t), errname(e1), errname(e2)); check_same("recovery", snap(t, f->p), snap(t, o->p), 0, "parsed from a reused input buffer"); if(e1) count_fault("parse_failed");
    { LibScope l; wr->w().clear(); } REQUIRE(wr->w().get_size() == 0 && wr->w().get_available_size() == wr->cap, "buffer-clear", "a cleared output buffer holds %u", wr->w().get_size()); Bytes full = serialize_ok(t, o->p, "recovery"); int e = t->o.ser(o->p, wr->w()); if(full.size() > wr->cap) count_fault("output_full"); REQUIRE(e == (full.size() <= wr->cap ? E_OK : E_FULL), "recovery", "reused output buffer: %s", errname(e)); if(e == E_OK) REQUIRE(wr->w().get_size() == full.size() && (full.empty() || 0 == memcmp(wr->data(), full.data(), full.size())), "recovery", "reused output buffer holds other bytes");
  }
}
// ------------------------------------------------------------------------------------------------ C21
// a frame that is not even parsed rightly into a new object says nothing about merging
static void merge_control(const MsgOps* t, const Bytes& b) { Expect x = expect(MsgVal(t), b); ObjP o(new Obj(t)); int e = parse(t, o->p, b); check_err("control", x.d, e, b, t, "a frame in a new object"); if(e == E_OK) check_same("control", x.v, snap(t, o->p), 0, "a frame in a new object"); }
SCENARIO("C21", merge_frames, 6) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); bool setters = coin(); MsgVal v = setters ? gen_msg(t, g) : MsgVal(t); ObjP o = setters ? obj_of(v, g) : default_obj(t, g); uint32_t n = 1 + pick(5); std::vector<Bytes> old;
  for(uint32_t k = 0; k < n; ++k) {
    Bytes b; if(!old.empty() && chance(1, 4)) { b = old[pick(static_cast<uint32_t>(old.size()))]; count_fault("frame_duplicated"); } else { GenCfg g2 = g; g2.density = 8 + pick(50); g2.maxlen = 2 + pick(20); b = gen_frame(gen_msg(t, g2), true); old.push_back(b); merge_control(t, b); }
    Expect x = expect(v, b); Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); ev_bytes("frame", b.data(), b.size()); NOTE("merge %s: %s", hex(b, 100).c_str(), errname(r.err)); check_err("merge-verdict", x.d, r.err, b, t, "merged frame"); if(r.err != E_OK) { count_fault("frame_exceeds_capacity"); return; } v = x.v; check_same("merge", v, snap(t, o->p), 0, "content after merging a frame");
  }
  Bytes w = serialize_ok(t, o->p, "merge"); MsgVal d(t); decode(d, w.data(), w.size()); check_same("merge", v, d, 1, "merged content on the wire");
}
SCENARIO("C21", concatenation, 4) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); MsgVal v = coin() ? gen_msg(t, g) : MsgVal(t); ObjP a = obj_of(v, g); ObjP b(new Obj(t, a->p, 0)); uint32_t n = 2 + pick(4); std::vector<Bytes> fr; for(uint32_t k = 0; k < n; ++k) { GenCfg g2 = g; g2.density = 8 + pick(40); g2.maxlen = 2 + pick(20); fr.push_back(gen_frame(gen_msg(t, g2), true)); merge_control(t, fr.back()); }
  if(chance(1, 3)) { for(uint32_t k = n - 1; k > 0; --k) std::swap(fr[k], fr[pick(k + 1)]); count_fault("frames_reordered"); } if(chance(1, 3)) { fr.push_back(fr[pick(n)]); count_fault("frame_duplicated"); }
  Bytes all; bool ok = true; for(auto& x : fr) { all.insert(all.end(), x.begin(), x.end()); if(ok) ok = parse(t, a->p, x, pick(RK_N)) == E_OK; } Expect x = expect(v, all); ev_bytes("all", all.data(), all.size()); Parsed r = parse_with(t->o, b->p, all, pick(RK_N)); check_err("merge-verdict", x.d, r.err, all, t, "concatenated frames"); REQUIRE(x.d.may || (r.err == E_OK) == ok, "concat", "%s: one by one the frames %s, together they give %s", label_of(t), ok ? "parse" : "fail", errname(r.err)); if(r.err == E_OK && ok) { check_same("concat", snap(t, a->p), snap(t, b->p), 0, "frames one by one vs concatenated"); check_same("merge", x.v, snap(t, b->p), 0, "concatenated frames"); }
  // any split at field boundaries gives the same
  if(r.err == E_OK) { std::vector<size_t> bd = boundaries(all.data(), all.size()); ObjP c = obj_of(v, g); size_t at = 0; while(at < all.size()) { size_t best = all.size(); uint32_t skip = pick(4); for(size_t q = 0; q < bd.size(); ++q) if(bd[q] > at) { best = bd[std::min(q + skip, bd.size() - 1)]; break; } Bytes piece(all.begin() + at, all.begin() + best); int e = parse(t, c->p, piece, pick(RK_N)); REQUIRE(e == E_OK, "concat", "%s: a piece of the stream gives %s", label_of(t), errname(e)); at = best; count_fault("stream_split"); } check_same("concat", x.v, snap(t, c->p), 0, "stream split at field boundaries"); }
}
