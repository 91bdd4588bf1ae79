#include "util.h"

Parsed parse_with(const ObjOps& o, void* obj, const Bytes& b, uint32_t kind, uint64_t max_calls) {
  Parsed r = { 0, 0, false, 0, 0 };
  if(kind == RK_FIXED_BULK || kind == RK_FIXED_PUSH) {
    std::unique_ptr<AnyReader> rd = b.size() <= 100000 ? make_fixed_reader(static_cast<uint32_t>(b.size())) : nullptr;
    if(rd) {
      if(kind == RK_FIXED_BULK) { if(!b.empty()) memcpy(rd->data(), b.data(), b.size()); rd->set_bytes_written(static_cast<uint32_t>(b.size())); }
      else for(uint8_t x : b) REQUIRE(rd->push(x), "input-buffer", "the fixed input buffer of %u bytes refused a byte although it holds fewer", rd->cap);
      r.err = o.des(obj, rd->r());
      uint32_t left = rd->r().get_size();
      REQUIRE(left <= b.size(), "input-buffer", "after parsing %zu bytes the input says %u bytes are left", b.size(), left);
      r.consumed = b.size() - left; r.consumed_known = true; return r;
    }
  }
  if(kind == RK_SECTION) {
    SimReader s(b); s.max_calls = max_calls; static const uint8_t tail[] = { 0xff, 0x08, 0x96, 0x01, 0xff, 0xff, 0xff, 0x0a }; s.data.insert(s.data.end(), tail, tail + 8); s.arrived = s.data.size();
    EP::ReadBufferSection sec(s, static_cast<uint32_t>(b.size()));
    r.err = o.des(obj, sec);
    REQUIRE(s.max_pos <= b.size(), "bound", "parsing a view of %zu bytes took %zu bytes from the buffer behind it", b.size(), s.max_pos);
    r.consumed = s.pos; r.consumed_known = true; r.refused = s.refused; return r;
  }
  SimReader s(b); s.adv_to_end = kind == RK_SIM_ADV; s.max_calls = max_calls;
  r.err = o.des(obj, s); r.consumed = s.pos; r.consumed_known = true; r.refused = s.refused; r.after = s.taken_after_refusal;
  return r;
}
EncCfg swarm_enc(bool unknown) {
  EncCfg e; uint32_t m = pick(64); e.shuffle = m & 1; e.dup = m & 2; e.split_msg = m & 4; e.split_packed = m & 8; e.longvar = m & 16; e.explicit_default = m & 32;
  if(unknown) e.unknown = 30 * pick(2);
  return e;
}
Bytes gen_frame(const MsgVal& v, bool unknown) { if(coin()) return encode_varied(v, swarm_enc(unknown)); return encode(v); }
Bytes damage(Bytes b, const MsgOps* t, uint32_t times) {
  for(uint32_t k = 0; k < times; ++k) {
    uint32_t n = static_cast<uint32_t>(b.size());
    switch(pick(10)) {
      case 0: if(n) { uint32_t i = pick(n); b[i] ^= static_cast<uint8_t>(1u << pick(8)); count_fault("bit_flipped"); } break;
      case 1: if(n) { uint32_t i = pick(n); uint32_t m = 1 + pick(std::min(4u, n - i)); b.erase(b.begin() + i, b.begin() + i + m); count_fault("bytes_lost"); } break;
      case 2: if(n) { uint32_t i = pick(n); uint32_t m = 1 + pick(std::min(6u, n - i)); Bytes c(b.begin() + i, b.begin() + i + m); b.insert(b.begin() + i, c.begin(), c.end()); count_fault("bytes_repeated"); } break;
      case 3: { uint32_t i = pick(n + 1); b.insert(b.begin() + i, static_cast<uint8_t>(pick(256))); count_fault("byte_inserted"); } break;
      case 4: if(n > 1) { uint32_t i = pick(n - 1); std::swap(b[i], b[i + 1]); count_fault("bytes_swapped"); } break;
      case 5: if(n) { static const uint8_t V[] = { 0xff, 0x80, 0x7f, 0x00, 0x01 }; b[pick(n)] = V[pick(5)]; count_fault("byte_overwritten"); } break;
      case 6: if(n) { b.resize(pick(n)); count_fault("input_cut"); } break;
      case 7: if(t->nfields) { Bytes x; put_tag(x, t->fields[pick(t->nfields)].num, static_cast<int>(pick(8))); uint32_t m = pick(4); for(uint32_t q = 0; q < m; ++q) x.push_back(static_cast<uint8_t>(pick(256))); std::vector<size_t> bd = boundaries(b.data(), b.size()); size_t i = bd[pick(static_cast<uint32_t>(bd.size()))]; b.insert(b.begin() + i, x.begin(), x.end()); count_fault("wiretype_forged"); } break;
      case 8: { Bytes x; uint32_t m = 1 + pick(12); for(uint32_t q = 0; q < m; ++q) x.push_back(0x80 | static_cast<uint8_t>(pick(128))); if(coin()) x.push_back(static_cast<uint8_t>(pick(128))); uint32_t i = pick(n + 1); b.insert(b.begin() + i, x.begin(), x.end()); count_fault("varint_overlong"); } break;
      default: if(n) { // a fault inside: rewrite one byte that is a length of a top level field
        std::vector<size_t> bd = boundaries(b.data(), b.size()); size_t i = bd[pick(static_cast<uint32_t>(bd.size()))]; size_t j = i; while(j < b.size() && (b[j] & 0x80)) ++j; ++j; if(j < b.size()) { b[j] = static_cast<uint8_t>(b[j] + 1 + pick(4) - 2 * pick(2)); count_fault("length_changed"); } }
    }
  }
  return b;
}
Bytes hostile(const MsgOps* t) {
  Bytes b; uint32_t n = 1 + pick(4);
  for(uint32_t k = 0; k < n; ++k) {
    uint32_t num; bool known = t->nfields && coin();
    const FieldOps* fo = known ? &t->fields[pick(t->nfields)] : nullptr; num = fo ? fo->num : 1 + pick(536870911u);
    uint32_t wt = 2; if(chance(1, 4)) wt = pick(8); else if(fo && fo->card != C_REP) wt = static_cast<uint32_t>(wiretype(fo->kind));
    put_tag(b, num, static_cast<int>(wt));
    static const uint64_t L[] = { 0xffffffffull, 0xfffffffeull, 0x80000000ull, 0x7fffffffull, 0x100000000ull, 0xffffffffffffffffull, 0x10000, 0xffff, 0x3fff, 0x4000, 300, 0xfffffff0ull, 0xffffff00ull };
    uint64_t len = L[pick(13)]; if(coin()) len -= pick(40);
    put_varint(b, len, chance(1, 5) ? static_cast<int>(pick(5)) : 0); uint32_t m = pick(24); for(uint32_t q = 0; q < m; ++q) b.push_back(static_cast<uint8_t>(pick(256)));
    count_fault("hostile_length");
  }
  return b;
}
Bytes bad_frame(const MsgOps* t, const GenCfg& c) {
  switch(pick(5)) {
    case 0: { Bytes b = gen_frame(gen_msg(t, c), true); if(!b.empty()) { b.resize(pick(static_cast<uint32_t>(b.size()))); count_fault("input_cut"); } return b; }
    case 1: return damage(gen_frame(gen_msg(t, c), true), t, 1);
    case 2: return damage(gen_frame(gen_msg(t, c), true), t, 1 + pick(4));
    case 3: { Bytes b = gen_frame(gen_msg(t, c), false), h = hostile(t); b.insert(b.end(), h.begin(), h.end()); return b; }
    default: { // more elements or bytes than fit
      Bytes b = gen_frame(gen_msg(t, c), false); std::vector<uint32_t> f; for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].card == C_REP || is_strk(t->fields[i].kind)) f.push_back(i);
      if(f.empty()) return damage(b, t, 1);
      const FieldOps& fo = t->fields[f[pick(static_cast<uint32_t>(f.size()))]]; count_fault("frame_exceeds_capacity");
      if(fo.card == C_REP && fo.rep->max < 200) { Bytes one; if(is_scalar(fo.kind)) { uint32_t n = fo.rep->max + 1; Bytes p(n * (wiretype(fo.kind) == 1 ? 8 : wiretype(fo.kind) == 5 ? 4 : 1), 1); put_tag(one, fo.num, 2); put_varint(one, p.size()); one.insert(one.end(), p.begin(), p.end()); b.insert(b.end(), one.begin(), one.end()); }
        else for(uint32_t k = 0; k <= fo.rep->max; ++k) { Bytes o; put_tag(o, fo.num, 2); put_varint(o, 0); b.insert(b.end(), o.begin(), o.end()); } return b; }
      if(is_strk(fo.kind)) { uint32_t n = fo.str->max + 1 + pick(3); if(n < 3000) { put_tag(b, fo.num, 2); put_varint(b, n); b.insert(b.end(), n, 'x'); } return b; }
      return damage(b, t, 2);
    }
  }
}
ObjP default_obj(const MsgOps* t, const GenCfg& c) {
  ObjP o(new Obj(t));
  if(is_heavy(t)) return o;
  switch(pick(6)) {
    case 0: case 1: break;
    case 2: build(t, o->p, gen_msg(t, c)); t->o.clear(o->p); break;
    case 3: { parse(t, o->p, gen_frame(gen_msg(t, c), true)); t->o.clear(o->p); break; }
    case 4: { parse(t, o->p, bad_frame(t, c)); t->o.clear(o->p); break; }
    case 5: { build(t, o->p, gen_msg(t, c)); Obj d(t); t->o.assign(o->p, d.p); break; }
  }
  return o;
}
ObjP obj_of(const MsgVal& v, const GenCfg& c) {
  ObjP o = default_obj(v.t, c); build(v.t, o->p, v);
  switch(pick(4)) {
    default: return o;
    case 2: { ObjP q(new Obj(v.t, o->p, 0)); return q; }
    case 3: { ObjP q = default_obj(v.t, c); v.t->o.assign(q->p, o->p); return q; }
  }
}
void check_err(const char* cls, const Dec& d, int e, const Bytes& b, const MsgOps* t, const char* what) {
  if((d.accepted() >> e) & 1u) return;
  std::string want; for(int k = 0; k < 8; ++k) if((d.accepted() >> k) & 1u) { if(!want.empty()) want += " or "; want += errname(k); }
  violation(cls, "%s: parsing %zu bytes as %s returned %s instead of %s: %s", what, b.size(), label_of(t), errname(e), want.c_str(), hex(b, 96).c_str());
}
uint64_t fingerprint(const MsgOps* t, const void* obj) {
  MsgVal v = snap(t, obj); uint64_t h = hash_val(v); Bytes b = serialize_ok(t, obj, "serialise"); for(uint8_t x : b) h = mix(h, x); return mix(h, t->o.ssize(obj));
}
const MsgOps* pick_of(const char* const* names, uint32_t n, char kind) {
  if(chance(1, 4)) {
    std::vector<const MsgOps*> c;
    for(const MsgOps* t : drawn_messages()) for(uint32_t i = 0; i < t->nfields; ++i) { const FieldOps& f = t->fields[i]; if(kind == 'o' ? f.card == C_ONEOF : kind == 'p' ? f.card == C_OPT : kind == 'c' ? f.card == C_REP || is_strk(f.kind) : f.kind == K_MSG) { c.push_back(t); break; } }
    if(!c.empty()) return c[pick(static_cast<uint32_t>(c.size()))];
  }
  return msg_by_name(names[pick(n)]);
}
