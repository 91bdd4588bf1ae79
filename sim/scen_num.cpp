// The wire format used directly by an application with a hand-written message: numbers and tags without a generated
// message around them. C02 C04 C05 C06.
#include "util.h"
#include "WireFormatter.h"
namespace {
typedef EP::WireFormatter WF;
enum class HandEnum : uint32_t { ZERO = 0, ONE = 1, BIG = 0x7fffffff };
struct Rec { uint32_t num; Kind k; uint64_t v; };
const Kind KINDS[] = { K_INT32, K_INT64, K_UINT32, K_UINT64, K_SINT32, K_SINT64, K_FIXED32, K_FIXED64, K_SFIXED32, K_SFIXED64, K_FLOAT, K_DOUBLE, K_BOOL, K_ENUM };
template<class T, class U> T bits(U u) { T t; memcpy(&t, &u, sizeof t); return t; }
int write_rec(const Rec& r, WBI& w) {
  LibScope l; EP::Error e;
  switch(r.k) {
    case K_INT32: e = WF::SerializeInt(r.num, static_cast<int32_t>(r.v), w); break;
    case K_INT64: e = WF::SerializeInt(r.num, static_cast<int64_t>(r.v), w); break;
    case K_UINT32: e = WF::SerializeUInt(r.num, static_cast<uint32_t>(r.v), w); break;
    case K_UINT64: e = WF::SerializeUInt(r.num, static_cast<uint64_t>(r.v), w); break;
    case K_SINT32: e = WF::SerializeSInt(r.num, static_cast<int32_t>(r.v), w); break;
    case K_SINT64: e = WF::SerializeSInt(r.num, static_cast<int64_t>(r.v), w); break;
    case K_FIXED32: e = WF::SerializeFixed(r.num, static_cast<uint32_t>(r.v), w); break;
    case K_FIXED64: e = WF::SerializeFixed(r.num, static_cast<uint64_t>(r.v), w); break;
    case K_SFIXED32: e = WF::SerializeSFixed(r.num, static_cast<int32_t>(r.v), w); break;
    case K_SFIXED64: e = WF::SerializeSFixed(r.num, static_cast<int64_t>(r.v), w); break;
    case K_FLOAT: e = WF::SerializeFloat(r.num, bits<float>(static_cast<uint32_t>(r.v)), w); break;
    case K_DOUBLE: e = WF::SerializeDouble(r.num, bits<double>(r.v), w); break;
    case K_BOOL: e = WF::SerializeBool(r.num, r.v != 0, w); break;
    default: e = WF::SerializeEnum(r.num, static_cast<uint32_t>(r.v), w); break;
  }
  return static_cast<int>(e);
}
int read_num(Kind k, RBI& b, uint64_t& v) {
  LibScope l; EP::Error e;
  switch(k) {
    case K_INT32: { int32_t x = 0; e = WF::DeserializeInt(b, x); v = static_cast<uint32_t>(x); break; }
    case K_INT64: { int64_t x = 0; e = WF::DeserializeInt(b, x); v = static_cast<uint64_t>(x); break; }
    case K_UINT32: { uint32_t x = 0; e = WF::DeserializeUInt(b, x); v = x; break; }
    case K_UINT64: { uint64_t x = 0; e = WF::DeserializeUInt(b, x); v = x; break; }
    case K_SINT32: { int32_t x = 0; e = WF::DeserializeSInt(b, x); v = static_cast<uint32_t>(x); break; }
    case K_SINT64: { int64_t x = 0; e = WF::DeserializeSInt(b, x); v = static_cast<uint64_t>(x); break; }
    case K_FIXED32: { uint32_t x = 0; e = WF::DeserializeFixed(b, x); v = x; break; }
    case K_FIXED64: { uint64_t x = 0; e = WF::DeserializeFixed(b, x); v = x; break; }
    case K_SFIXED32: { int32_t x = 0; e = WF::DeserializeSFixed(b, x); v = static_cast<uint32_t>(x); break; }
    case K_SFIXED64: { int64_t x = 0; e = WF::DeserializeSFixed(b, x); v = static_cast<uint64_t>(x); break; }
    case K_FLOAT: { float x = 0; e = WF::DeserializeFloat(b, x); v = bits<uint32_t>(x); break; }
    case K_DOUBLE: { double x = 0; e = WF::DeserializeDouble(b, x); v = bits<uint64_t>(x); break; }
    case K_BOOL: { bool x = false; e = WF::DeserializeBool(b, x); v = x; break; }
    default: { HandEnum x = HandEnum::ZERO; e = WF::DeserializeEnum(b, x); v = static_cast<uint32_t>(x); break; }
  }
  return static_cast<int>(e);
}
uint32_t gen_num() { switch(pick(4)) { case 0: return 1 + pick(15); case 1: return 1 + pick(2047); case 2: return 1 + pick(536870911u); default: { static const uint32_t N[] = { 1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911 }; return N[pick(10)]; } } }
std::vector<Rec> gen_recs(const GenCfg& g) { std::vector<Rec> v; uint32_t n = 1 + pick(6); for(uint32_t i = 0; i < n; ++i) { Rec r; r.num = gen_num(); r.k = KINDS[pick(14)]; r.v = gen_scalar(r.k, g); if(r.k == K_ENUM && coin()) r.v = static_cast<uint32_t>(pick64()) & 0x7fffffffu; v.push_back(r); NOTE("field %u kind %d value %llx", r.num, static_cast<int>(r.k), (unsigned long long)r.v); } return v; }
Bytes enc(const std::vector<Rec>& v, bool varied) { Bytes b; for(auto& r : v) { put_tag(b, r.num, wiretype(r.k), varied && chance(1, 3) ? static_cast<int>(pick(5)) : 0); put_scalar(b, r.k, varied && r.k == K_BOOL && r.v && coin() ? 1ull << pick(64) : r.v, varied && chance(1, 3) ? static_cast<int>(pick(10)) : 0, varied && r.k == K_INT32); } return b; }
struct In { SimReader s; std::unique_ptr<AnyReader> f; std::unique_ptr<EP::ReadBufferSection> sec; RBI* r;
  In(const Bytes& b, uint32_t kind) : s(b), r(&s) {
    if(kind == 1) { f = make_fixed_reader(static_cast<uint32_t>(b.size())); for(uint8_t x : b) f->push(x); r = &f->r(); }
    if(kind == 2) { s.data.push_back(0x00); s.data.push_back(0x01); s.arrived = s.data.size(); sec.reset(new EP::ReadBufferSection(s, static_cast<uint32_t>(b.size()))); r = sec.get(); } } };
// reads fields until the first failure; every outcome is compared with the reference reader
void read_all(const char* cls, const Bytes& b, const std::vector<Rec>& v, uint32_t kind, bool must) {
  In in(b, kind); size_t at = 0;
  for(auto& r : v) {
    uint32_t num = 0, may = 0; int wt = 0; uint32_t want = read_tag(b, at, num, wt, may); if(!want && wt > 5) want = 1u << E_WT; if(wt == 3 || wt == 4) may |= 1u << E_WT; if(!num) may |= 1u << E_ID;
    EP::WireFormatter::WireType t = WF::WireType::VARINT; uint32_t id = 0; int e; { LibScope l; e = static_cast<int>(WF::DeserializeTag(*in.r, t, id)); } ev("tag", static_cast<uint64_t>(e), id);
    if(e != E_OK) { REQUIRE(!must && ((want | may) >> e & 1), cls, "reading a tag: %s, expected %s (bytes %s)", errname(e), want ? "another error" : "a tag", hex(b).c_str()); return; }
    REQUIRE(!want, cls, "reading a tag succeeded with field %u although the input is cut or not a tag (bytes %s)", id, hex(b).c_str());
    if(may) return; REQUIRE(id == num && static_cast<int>(t) == wt, cls, "read tag of field %u type %d, written was field %u type %d (bytes %s)", id, static_cast<int>(t), num, wt, hex(b).c_str());
    if(wt != wiretype(r.k)) return;
    uint64_t x = 0, y = 0; want = read_number(b, at, r.k, x, may); e = read_num(r.k, *in.r, y); ev("number", static_cast<uint64_t>(e), y);
    if(e != E_OK) { REQUIRE(!must && ((want | may) >> e & 1), cls, "reading a number of kind %d: %s, expected %s (bytes %s)", static_cast<int>(r.k), errname(e), want ? "another error" : "success", hex(b).c_str()); return; }
    REQUIRE(!want, cls, "reading a number of kind %d succeeded although the input is cut or malformed (bytes %s)", static_cast<int>(r.k), hex(b).c_str());
    if(may) return; REQUIRE(x == y, cls, "read %llx as number of kind %d, written was %llx (bytes %s)", (unsigned long long)y, static_cast<int>(r.k), (unsigned long long)x, hex(b).c_str());
  }
  if(!must) return;
  uint32_t id; WF::WireType t; int e; { LibScope l; e = static_cast<int>(WF::DeserializeTag(*in.r, t, id)); } REQUIRE(e == E_END, cls, "reading a tag at the end of the input: %s", errname(e));
}
}
SCENARIO("C02", numbers_alone, 2) {
  GenCfg g = swarm_cfg(); std::vector<Rec> v = gen_recs(g); nontrivial(); Bytes want = enc(v, false); SimWriter w;
  for(auto& r : v) { size_t n = w.out.size(); int e = write_rec(r, w); REQUIRE(e == E_OK, "number-written", "writing field %u of kind %d: %s", r.num, static_cast<int>(r.k), errname(e)); Bytes one = enc(std::vector<Rec>(1, r), false); REQUIRE(Bytes(w.out.begin() + static_cast<long>(n), w.out.end()) == one, "number-written", "field %u of kind %d with value %llx is written as %s, the wire format has %s", r.num, static_cast<int>(r.k), (unsigned long long)r.v, hex(Bytes(w.out.begin() + static_cast<long>(n), w.out.end())).c_str(), hex(one).c_str()); }
  ev_bytes("wire", w.out.data(), w.out.size()); read_all("number-read", w.out, v, pick(3), true); Bytes b = enc(v, true); count_fault("peer_encoding_varied"); read_all("number-read", b, v, pick(3), true);
}
SCENARIO("C04", numbers_into_full_output, 1) {
  GenCfg g = swarm_cfg(); std::vector<Rec> v = gen_recs(g); Bytes want = enc(v, false); SimWriter w; w.hide_room = coin();
  if(coin()) { w.refuse_at = pick(static_cast<uint32_t>(want.size())); w.refuse_n = 1; count_fault("output_refuses_once"); } else { w.cap = pick(static_cast<uint32_t>(want.size()) + 1); count_fault("output_full"); } nontrivial();
  for(auto& r : v) {
    size_t n = w.out.size(); int e = write_rec(r, w); Bytes one = enc(std::vector<Rec>(1, r), false); ev("write", static_cast<uint64_t>(e), w.out.size());
    if(e == E_OK) { REQUIRE(w.refused == 0, "number-lost", "writing field %u reports success although the output refused a byte", r.num); REQUIRE(Bytes(w.out.begin() + static_cast<long>(n), w.out.end()) == one, "number-lost", "writing field %u of kind %d reports success; written is %s of %s", r.num, static_cast<int>(r.k), hex(Bytes(w.out.begin() + static_cast<long>(n), w.out.end())).c_str(), hex(one).c_str()); continue; }
    REQUIRE(e == E_FULL, "number-error", "writing into a full output: %s", errname(e)); REQUIRE(w.refused > 0, "number-error", "writing field %u failed although nothing was refused", r.num); return;
  }
  REQUIRE(w.out == want && w.refused == 0, "number-lost", "all fields written successfully, the output holds %s of %s", hex(w.out).c_str(), hex(want).c_str());
}
SCENARIO("C05", numbers_cut, 1) {
  GenCfg g = swarm_cfg(); std::vector<Rec> v = gen_recs(g); Bytes b = enc(v, coin()); b.resize(pick(static_cast<uint32_t>(b.size()))); count_fault("input_cut"); nontrivial(); ev_bytes("cut", b.data(), b.size()); read_all("number-cut", b, v, pick(3), false);
}
SCENARIO("C06", numbers_damaged, 1) {
  GenCfg g = swarm_cfg(); std::vector<Rec> v = gen_recs(g); Bytes b = enc(v, coin()); uint32_t n = 1 + pick(3); nontrivial();
  for(uint32_t k = 0; k < n; ++k) switch(pick(4)) {
    case 0: b[pick(static_cast<uint32_t>(b.size()))] ^= static_cast<uint8_t>(1u << pick(8)); count_fault("bit_flipped"); break;
    case 1: { Bytes x(1 + pick(12), 0x80); if(coin()) x.assign(x.size(), 0xff); if(coin()) x.push_back(static_cast<uint8_t>(pick(128))); uint32_t i = pick(static_cast<uint32_t>(b.size()) + 1); b.insert(b.begin() + i, x.begin(), x.end()); count_fault("varint_overlong"); } break;
    case 2: b[pick(static_cast<uint32_t>(b.size()))] |= 0x80; count_fault("byte_overwritten"); break;
    default: b.insert(b.begin() + pick(static_cast<uint32_t>(b.size()) + 1), static_cast<uint8_t>(pick(256))); count_fault("byte_inserted"); }
  ev_bytes("damaged", b.data(), b.size()); read_all("number-damaged", b, v, pick(3), false);
}
