// Peers running Google's protobuf with the same schema: C02.
#include "util.h"
#include <fstream>
#include <map>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/stubs/logging.h>
#include <google/protobuf/unknown_field_set.h>
#include <deque>
namespace pb = ::google::protobuf;
typedef std::unique_ptr<pb::Message> PeerMsg;
namespace {
struct Peer {
  pb::DescriptorPool pool; pb::DynamicMessageFactory factory;
  Peer() {
    const char* f = getenv("SIM_DS"); std::ifstream in(f ? f : "", std::ios::binary); pb::FileDescriptorSet ds; if(!f || !ds.ParseFromIstream(&in)) violation("harness-peer", "no descriptor set");
    for(auto& x : ds.file()) if(!pool.BuildFile(x)) violation("harness-peer", "descriptor %s", x.name().c_str());
    static pb::LogHandler* old = pb::SetLogHandler(nullptr); (void)old;
  }
  PeerMsg make(const MsgOps* t) { const pb::Descriptor* d = pool.FindMessageTypeByName(t->name); if(!d) violation("harness-peer", "the peer does not know %s", t->name); return PeerMsg(factory.GetPrototype(d)->New()); }
};
Peer& peer() { static Peer* p = new Peer; return *p; }
template<class T, class U> T bits(U u) { T t; memcpy(&t, &u, sizeof t); return t; }

void to_peer(const MsgVal& v, pb::Message& m) {
  const pb::Descriptor* d = m.GetDescriptor(); const pb::Reflection* r = m.GetReflection();
  for(uint32_t i = 0; i < v.t->nfields; ++i) {
    const FieldOps& fo = v.t->fields[i]; const FVal& f = v.f[i]; const pb::FieldDescriptor* fd = d->FindFieldByNumber(static_cast<int>(fo.num)); if(!fd) violation("harness-peer", "no field %u", fo.num);
    if(fo.card == C_ONEOF && v.which[fo.oneof] != fo.num) continue; if(fo.card == C_OPT && !f.has) continue;
    if(fo.card == C_REP) {
      for(uint64_t s : f.rs) switch(fo.kind) { case K_INT32: case K_SINT32: case K_SFIXED32: r->AddInt32(&m, fd, static_cast<int32_t>(s)); break; case K_INT64: case K_SINT64: case K_SFIXED64: r->AddInt64(&m, fd, static_cast<int64_t>(s)); break; case K_UINT32: case K_FIXED32: r->AddUInt32(&m, fd, static_cast<uint32_t>(s)); break; case K_UINT64: case K_FIXED64: r->AddUInt64(&m, fd, s); break; case K_BOOL: r->AddBool(&m, fd, s != 0); break; case K_ENUM: r->AddEnumValue(&m, fd, static_cast<int32_t>(s)); break; case K_FLOAT: r->AddFloat(&m, fd, bits<float>(static_cast<uint32_t>(s))); break; default: r->AddDouble(&m, fd, bits<double>(s)); }
      for(auto& s : f.rb) r->AddString(&m, fd, s); for(auto& x : f.m) to_peer(x, *r->AddMessage(&m, fd)); continue;
    }
    if(is_strk(fo.kind)) { r->SetString(&m, fd, f.b); continue; }
    if(fo.kind == K_MSG) { if(fo.card != C_SING || !is_default(f.m[0])) to_peer(f.m[0], *r->MutableMessage(&m, fd)); continue; }
    uint64_t s = f.s;
    switch(fo.kind) { case K_INT32: case K_SINT32: case K_SFIXED32: r->SetInt32(&m, fd, static_cast<int32_t>(s)); break; case K_INT64: case K_SINT64: case K_SFIXED64: r->SetInt64(&m, fd, static_cast<int64_t>(s)); break; case K_UINT32: case K_FIXED32: r->SetUInt32(&m, fd, static_cast<uint32_t>(s)); break; case K_UINT64: case K_FIXED64: r->SetUInt64(&m, fd, s); break; case K_BOOL: r->SetBool(&m, fd, s != 0); break; case K_ENUM: r->SetEnumValue(&m, fd, static_cast<int32_t>(s)); break; case K_FLOAT: r->SetFloat(&m, fd, bits<float>(static_cast<uint32_t>(s))); break; default: r->SetDouble(&m, fd, bits<double>(s)); }
  }
}
uint64_t scalar_of(const pb::Message& m, const pb::Reflection* r, const pb::FieldDescriptor* fd, Kind k, int at) {
  bool rep = at >= 0;
  switch(k) {
    case K_INT32: case K_SINT32: case K_SFIXED32: return static_cast<uint32_t>(rep ? r->GetRepeatedInt32(m, fd, at) : r->GetInt32(m, fd));
    case K_INT64: case K_SINT64: case K_SFIXED64: return static_cast<uint64_t>(rep ? r->GetRepeatedInt64(m, fd, at) : r->GetInt64(m, fd));
    case K_UINT32: case K_FIXED32: return rep ? r->GetRepeatedUInt32(m, fd, at) : r->GetUInt32(m, fd);
    case K_UINT64: case K_FIXED64: return rep ? r->GetRepeatedUInt64(m, fd, at) : r->GetUInt64(m, fd);
    case K_BOOL: return (rep ? r->GetRepeatedBool(m, fd, at) : r->GetBool(m, fd)) ? 1 : 0;
    case K_ENUM: return static_cast<uint32_t>(rep ? r->GetRepeatedEnumValue(m, fd, at) : r->GetEnumValue(m, fd));
    case K_FLOAT: return bits<uint32_t>(rep ? r->GetRepeatedFloat(m, fd, at) : r->GetFloat(m, fd));
    default: return bits<uint64_t>(rep ? r->GetRepeatedDouble(m, fd, at) : r->GetDouble(m, fd));
  }
}
// false: does not fit the device's capacities
bool from_peer(const pb::Message& m, MsgVal& v) {
  const pb::Descriptor* d = m.GetDescriptor(); const pb::Reflection* r = m.GetReflection();
  for(uint32_t i = 0; i < v.t->nfields; ++i) {
    const FieldOps& fo = v.t->fields[i]; FVal& f = v.f[i]; const pb::FieldDescriptor* fd = d->FindFieldByNumber(static_cast<int>(fo.num));
    if(fo.card == C_REP) {
      int n = r->FieldSize(m, fd); if(static_cast<uint32_t>(n) > fo.rep->max) return false;
      for(int k = 0; k < n; ++k) { if(is_scalar(fo.kind)) f.rs.push_back(scalar_of(m, r, fd, fo.kind, k)); else if(fo.kind == K_MSG) { f.m.emplace_back(fo.msg()); if(!from_peer(r->GetRepeatedMessage(m, fd, k), f.m.back())) return false; } else { f.rb.push_back(r->GetRepeatedString(m, fd, k)); if(f.rb.back().size() > fo.str->max) return false; } }
      continue;
    }
    if(fo.card == C_OPT) { f.has = r->HasField(m, fd); if(!f.has) continue; }
    if(fo.card == C_ONEOF) { if(!r->HasField(m, fd)) continue; set_which(v, fo.oneof, fo.num); }
    if(is_scalar(fo.kind)) f.s = scalar_of(m, r, fd, fo.kind, -1); else if(fo.kind == K_MSG) { if(!from_peer(r->GetMessage(m, fd), f.m[0])) return false; } else { f.b = r->GetString(m, fd); if(f.b.size() > fo.str->max) return false; }
  }
  return true;
}
bool has_unknown(const pb::Message& m) {
  const pb::Reflection* r = m.GetReflection(); if(!r->GetUnknownFields(m).empty()) return true; std::vector<const pb::FieldDescriptor*> fs; r->ListFields(m, &fs);
  for(auto f : fs) if(f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) { if(f->is_repeated()) { for(int i = 0; i < r->FieldSize(m, f); ++i) if(has_unknown(r->GetRepeatedMessage(m, f, i))) return true; } else if(has_unknown(r->GetMessage(m, f))) return true; }
  return false;
}
Bytes peer_bytes(const pb::Message& m) { std::string s; { pb::io::StringOutputStream so(&s); pb::io::CodedOutputStream co(&so); co.SetSerializationDeterministic(true); if(!m.SerializeToCodedStream(&co)) violation("harness-peer", "the peer cannot serialise"); } return Bytes(s.begin(), s.end()); }
bool peer_parse(pb::Message& m, const Bytes& b) { return m.ParseFromArray(b.data(), static_cast<int>(b.size())); }

// numbers of repeated fields travel packed, at every level
void check_packed(const MsgOps* t, const uint8_t* p, size_t n) {
  size_t i = 0; auto vi = [&](uint64_t& v) { v = 0; for(int k = 0; k < 10 && i < n; ++k) { uint8_t x = p[i++]; v |= static_cast<uint64_t>(x & 0x7f) << (7 * k); if(!(x & 0x80)) return true; } return false; };
  while(i < n) {
    uint64_t tag, v; if(!vi(tag)) return; const FieldOps* fo = nullptr; for(uint32_t q = 0; q < t->nfields; ++q) if(t->fields[q].num == tag >> 3) fo = &t->fields[q];
    if(fo && fo->card == C_REP && is_scalar(fo->kind)) REQUIRE((tag & 7) == 2, "packed", "%s of %s was sent with wire type %u, not packed", fo->name, label_of(t), static_cast<unsigned>(tag & 7));
    switch(tag & 7) { case 0: if(!vi(v)) return; break; case 1: i += 8; break; case 5: i += 4; break; case 2: if(!vi(v) || v > n - i) return; if(fo && fo->kind == K_MSG) check_packed(fo->msg(), p + i, static_cast<size_t>(v)); i += static_cast<size_t>(v); break; default: return; }
  }
}
GenCfg peer_cfg() { GenCfg g = swarm_cfg(); g.utf8 = true; return g; }
// the device's message must reach the peer
void judge_sent(const MsgOps* t, const MsgVal& v, const Bytes& b, const char* what) {
  PeerMsg m = peer().make(t); REQUIRE(peer_parse(*m, b), "rejected-by-peer", "%s: protobuf cannot parse %s sent by the device: %s", what, label_of(t), hex(b, 120).c_str());
  REQUIRE(!has_unknown(*m), "rejected-by-peer", "%s: protobuf finds unknown fields in %s sent by the device: %s", what, label_of(t), hex(b, 120).c_str());
  MsgVal got(t); REQUIRE(from_peer(*m, got), "peer-content", "%s: protobuf reads more than the device can hold from %s: %s", what, label_of(t), hex(b, 120).c_str());
  check_same("peer-content", v, got, 1, what); check_packed(t, b.data(), b.size());
}
void judge_received(const MsgOps* t, const MsgVal& want, const Bytes& b, const GenCfg& g, const char* what) {
  ObjP o = default_obj(t, g); Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); NOTE("%s: %s -> %s", what, hex(b, 160).c_str(), errname(r.err)); ev("parsed", static_cast<uint64_t>(r.err));
  REQUIRE(r.err == E_OK, "rejected-by-device", "%s: the device cannot parse %s sent by a protobuf peer: %s: %s", what, label_of(t), errname(r.err), hex(b, 120).c_str());
  check_same("device-content", want, snap(t, o->p, static_cast<int>(pick(8))), 1, what);
}
}
SCENARIO("C02", device_to_peer, 5) {
  GenCfg g = peer_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); ObjP o = obj_of(v, g); Bytes b = serialize_ok(t, o->p, "send"); ev_bytes("wire", b.data(), b.size()); NOTE("%s %s: %s", label_of(t), show(v).c_str(), hex(b, 160).c_str()); if(!is_default(v)) nontrivial();
  judge_sent(t, v, b, "content at the protobuf peer");
}
SCENARIO("C02", peer_to_device, 4) {
  GenCfg g = peer_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); PeerMsg m = peer().make(t); to_peer(v, *m); Bytes b = peer_bytes(*m); ev_bytes("wire", b.data(), b.size()); NOTE("%s %s", label_of(t), show(v).c_str()); if(!is_default(v)) nontrivial();
  judge_received(t, v, b, g, "content sent by a protobuf peer");
}
// every legal encoding: protobuf itself says what it means
SCENARIO("C02", legal_encodings, 6) {
  GenCfg g = peer_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); EncCfg e = swarm_enc(true); Bytes b = encode_varied(v, e); ev_bytes("wire", b.data(), b.size()); NOTE("%s %s", label_of(t), show(v).c_str()); nontrivial();
  if(e.shuffle) count_fault("fields_reordered"); if(e.dup) count_fault("field_sent_twice"); if(e.split_msg) count_fault("submessage_split"); if(e.split_packed) count_fault("packed_run_split"); if(e.longvar) count_fault("varint_padded"); if(e.unknown) count_fault("unknown_fields_added");
  PeerMsg m = peer().make(t); MsgVal want(t); REQUIRE(peer_parse(*m, b), "harness-encoder", "protobuf refuses an encoding taken to be legal: %s", hex(b, 200).c_str()); if(!from_peer(*m, want)) { count_probe("exceeds_capacity"); return; }
  { Expect x = expect(MsgVal(t), b); std::string why; REQUIRE(x.d.ok() && same(x.v, want, &why, 0), "harness-model", "the reference decoder and protobuf disagree (%s): %s", why.c_str(), hex(b, 200).c_str()); }
  judge_received(t, want, b, g, "content of a legal encoding");
}
// frames pass through a chain of devices and protobuf peers; links keep order, fragment and delay; each device reads its frame out of the stream
SCENARIO("C02", mixed_chain, 3) {
  GenCfg g = peer_cfg(); const MsgOps* t = pick_message(false); MsgVal v = gen_msg(t, g); uint32_t hops = 2 + pick(5); bool device = coin(); nontrivial(); Bytes b; ObjP held; PeerMsg pm;
  if(device) { held = obj_of(v, g); b = serialize_ok(t, held->p, "send"); } else { pm = peer().make(t); to_peer(v, *pm); b = peer_bytes(*pm); }
  if(device) judge_sent(t, v, b, "first hop");
  for(uint32_t h = 0; h < hops; ++h) {
    ev_bytes("hop", b.data(), b.size()); NOTE("hop %u from %s: %s", h, device ? "device" : "peer", hex(b, 160).c_str()); bool next = coin(); size_t at = 0; uint32_t pieces = 0; while(at < b.size()) { at += 1 + pick(40); g_now += pick(2000); ++pieces; } count_fault("fragmented", pieces);
    if(next) { held = default_obj(t, g); Bytes stream = b; Bytes later = encode(gen_msg(t, g)); stream.insert(stream.end(), later.begin(), later.end()); SimReader r(stream); EP::ReadBufferSection sec(r, static_cast<uint32_t>(b.size())); int e = t->o.des(held->p, sec); REQUIRE(e == E_OK, "rejected-by-device", "hop %u: the device cannot parse %s: %s: %s", h, label_of(t), errname(e), hex(b, 120).c_str()); check_same("device-content", v, snap(t, held->p), 1, "content after some hops"); b = serialize_ok(t, held->p, "send"); judge_sent(t, v, b, "content forwarded by a device"); }
    else { pm = peer().make(t); if(!device) REQUIRE(peer_parse(*pm, b), "harness-peer", "peer to peer"); else REQUIRE(peer_parse(*pm, b), "rejected-by-peer", "hop %u: protobuf cannot parse %s", h, label_of(t)); MsgVal got(t); REQUIRE(from_peer(*pm, got), "peer-content", "too long"); check_same("peer-content", v, got, 1, "content after some hops"); b = peer_bytes(*pm); }
    device = next;
  }
}
// a device that keeps its message and a peer that keeps its own receive the same updates
SCENARIO("C02", shared_state, 3) {
  GenCfg g = peer_cfg(); const MsgOps* t = pick_message(false); ObjP o = default_obj(t, g); PeerMsg m = peer().make(t); uint32_t n = 2 + pick(4); nontrivial(); MsgVal ref(t);
  for(uint32_t k = 0; k < n; ++k) {
    GenCfg g2 = g; g2.density = 8 + pick(40); g2.maxlen = 2 + pick(12); MsgVal u = gen_msg(t, g2); Bytes b = coin() ? encode_varied(u, swarm_enc(true)) : encode(u); std::string s(b.begin(), b.end()); if(!m->MergeFromString(s)) violation("harness-encoder", "protobuf refuses an encoding taken to be legal"); MsgVal want(t); Expect x = expect(ref, b); /* capacity may be exceeded on the way to content that fits */ if(!x.d.ok() || !from_peer(*m, want)) { count_fault("frame_exceeds_capacity"); return; } ref = x.v;
    { ObjP f(new Obj(t)); if(parse(t, f->p, b) != E_OK) violation("rejected-by-device", "%s: %s", label_of(t), hex(b, 120).c_str()); }
    Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); ev_bytes("update", b.data(), b.size()); NOTE("update %s: %s", hex(b, 120).c_str(), errname(r.err)); REQUIRE(r.err == E_OK, "shared-state", "%s: update %u: %s", label_of(t), k, errname(r.err)); check_same("shared-state", want, snap(t, o->p), 1, "content after the same updates"); 
  }
}
