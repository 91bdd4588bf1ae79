// One sender or receiver against a faulty output or input: C03 C04 C05 C06 C07 C16.
#include "util.h"

// ------------------------------------------------------------------------------------------------ C03
static void size_of_parts(const MsgOps* t, const void* obj) {     // the size of strings and bytes on their own
  for(uint32_t i = 0; i < t->nfields; ++i) {
    const FieldOps& fo = t->fields[i]; if(fo.card == C_ONEOF && !fo.has(obj)) continue;
    if(!is_strk(fo.kind) || fo.card == C_REP) continue;
    const void* s = fo.cget(obj, 0); SimWriter w; int e = fo.str->o.ser(s, w);
    REQUIRE(e == E_OK && w.out.size() == fo.str->o.ssize(s), "size", "%s announces %u bytes, %zu were written (%s)", fo.name, fo.str->o.ssize(s), w.out.size(), errname(e));
  }
}
SCENARIO("C03", announced_size, 4) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, c); ObjP o = obj_of(v, c);
  uint32_t n = t->o.ssize(o->p); Bytes full = serialize_ok(t, o->p, "size"); NOTE("%s %s: announced %u", label_of(t), show(v).c_str(), n); ev_bytes("full", full.data(), full.size());
  REQUIRE(n == full.size(), "size", "%s announces %u bytes, %zu were written: %s", label_of(t), n, full.size(), show(v, 300).c_str());
  REQUIRE(t->o.ssize(o->p) == n, "size", "%s announces another size the second time", label_of(t));
  { EP::MessageSizeCalculator mc; int e = t->o.ser(o->p, mc); REQUIRE(e == E_OK && mc.get_size() == n, "size", "the size counter counted %u of %u bytes (%s)", mc.get_size(), n, errname(e)); }
  if(n) nontrivial();
  if(!is_heavy(t)) size_of_parts(t, o->p);
  static const uint32_t B[] = { 0, 1, 5, 100, 0x7fffff00u };
  uint32_t tries = 4 + (n < 80 ? pick(2) * n : 0); bool all = tries > 4;
  for(uint32_t k = 0; k < tries; ++k) {
    uint32_t room; if(all) room = k; else switch(k) { case 0: room = n; break; case 1: room = n ? n - 1 : 0; break; case 2: room = pick(n + 1); break; default: room = n + 1 + pick(40); }
    uint32_t base = B[pick(5)];
    SimWriter w; w.base = base; w.cap = base + room; int e = t->o.ser(o->p, w);
    if(room < n) { count_fault("output_too_small"); REQUIRE(e == E_FULL, "room", "%s needs %u bytes; an output with %u bytes of room returned %s", label_of(t), n, room, errname(e)); }
    else { REQUIRE(e == E_OK, "room", "%s needs %u bytes; an output with %u bytes of room returned %s: %s", label_of(t), n, room, errname(e), show(v, 300).c_str()); REQUIRE(w.out == full, "room", "%s wrote other bytes into an output with %u bytes of room", label_of(t), room); }
    step();
  }
}
SCENARIO("C03", announced_size_fixed_buffer, 3) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, c); ObjP o = obj_of(v, c); uint32_t n = t->o.ssize(o->p); Bytes full = serialize_ok(t, o->p, "size"); ev_bytes("full", full.data(), full.size());
  NOTE("%s %s: announced %u", label_of(t), show(v).c_str(), n);
  std::unique_ptr<AnyWriter> w = make_fixed_writer(n + (coin() ? pick(40) : 0)); if(!w) return;
  if(n) nontrivial();
  uint32_t rounds = 1 + pick(3);
  for(uint32_t r = 0; r < rounds; ++r) {
    { LibScope l; w->w().clear(); }
    uint32_t fill; switch(pick(4)) { case 0: fill = w->cap - n; break; case 1: fill = w->cap - n + (n ? 1 : 0); break; case 2: fill = 0; break; default: fill = pick(w->cap + 1); }
    Bytes pre(fill); for(uint32_t i = 0; i < fill; ++i) pre[i] = static_cast<uint8_t>(i * 7 + r);
    bool block = coin(); { LibScope l; if(block && fill) REQUIRE(w->w().push(pre.data(), fill), "room", "a block of %u bytes was refused by an empty output of %u bytes", fill, w->cap); else for(uint8_t x : pre) REQUIRE(w->w().push(x), "room", "a byte was refused by an output with room"); }
    uint32_t room = w->cap - fill; REQUIRE(w->w().get_available_size() == room && w->w().get_size() == fill && w->w().get_max_size() == w->cap, "room", "an output of %u bytes holding %u reports size %u, room %u, maximum %u", w->cap, fill, w->w().get_size(), w->w().get_available_size(), w->w().get_max_size());
    int e = t->o.ser(o->p, w->w()); NOTE("room %u: %s", room, errname(e));
    REQUIRE(fill == 0 || 0 == memcmp(w->data(), pre.data(), fill), "room", "serialising changed bytes already in the output");
    if(room < n) { count_fault("output_too_small"); REQUIRE(e == E_FULL, "room", "%s needs %u bytes; the fixed output with %u bytes of room returned %s", label_of(t), n, room, errname(e)); }
    else { REQUIRE(e == E_OK, "room", "%s needs %u bytes; the fixed output with %u bytes of room returned %s", label_of(t), n, room, errname(e)); REQUIRE(w->w().get_size() == fill + n && (n == 0 || 0 == memcmp(w->data() + fill, full.data(), n)), "room", "%s: the fixed output holds %u bytes, expected %u with the message's encoding", label_of(t), w->w().get_size() - fill, n); }
  }
}
// the announced size of a message that changes while the program runs
SCENARIO("C03", announced_size_history, 2) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(false); ObjP o = default_obj(t, c); uint32_t k = 2 + pick(5);
  for(uint32_t i = 0; i < k; ++i) {
    switch(pick(4)) { case 0: t->o.clear(o->p); break; case 1: parse(t, o->p, gen_frame(gen_msg(t, c), true), pick(RK_N)); break; case 2: parse(t, o->p, bad_frame(t, c), pick(RK_N)); nontrivial(); break; default: build(t, o->p, gen_msg(t, c)); nontrivial(); }
    uint32_t n = t->o.ssize(o->p); Bytes full = serialize_ok(t, o->p, "size"); ev_bytes("full", full.data(), full.size());
    REQUIRE(n == full.size(), "size", "%s announces %u bytes, %zu were written", label_of(t), n, full.size());
    SimWriter w; w.cap = n; int e = t->o.ser(o->p, w); REQUIRE(e == E_OK && w.out == full, "room", "%s needs %u bytes; an output with that room returned %s", label_of(t), n, errname(e));
    if(n) { SimWriter s; s.cap = pick(n); count_fault("output_too_small"); e = t->o.ser(o->p, s); REQUIRE(e == E_FULL, "room", "%s needs %u bytes; an output with %u returned %s", label_of(t), n, s.cap, errname(e)); }
  }
}

// ------------------------------------------------------------------------------------------------ C04
static void judge_output(const MsgOps* t, const SimWriter& w, int e, const Bytes& full, const char* what) {
  REQUIRE(e == E_OK || e == E_FULL, "refusal", "%s: serialising %s returned %s", what, label_of(t), errname(e));
  if(w.refused) {
    REQUIRE(e == E_FULL, "refusal", "%s: the output of %s refused data after %zu of %zu bytes and serialising returned %s", what, label_of(t), w.at_refusal, full.size(), errname(e));
    REQUIRE(w.block_after == 0 && w.single_after <= 1, "refusal", "%s: after the output of %s refused data at byte %zu, %lld more bytes and %lld more blocks were offered", what, label_of(t), w.at_refusal, (long long)w.single_after, (long long)w.block_after);
  }
  size_t k = w.refused ? w.at_refusal : w.out.size();
  REQUIRE(k <= full.size() && std::equal(w.out.begin(), w.out.begin() + k, full.begin()), "prefix", "%s: the bytes %s handed to the output before its first refusal are not the beginning of its encoding", what, label_of(t));
  REQUIRE(w.out.size() <= k + 1, "prefix", "%s: %zu bytes were written after the refusal", what, w.out.size() - k);
  if(e == E_OK) REQUIRE(w.out.size() == full.size(), "success", "%s: serialising %s reports success; %zu of %zu bytes were written", what, label_of(t), w.out.size(), full.size());
  else if(!w.refused) REQUIRE(w.min_avail >= 0 && w.min_avail < static_cast<int64_t>(full.size()), "refusal", "%s: %s reports a full output which refused nothing and always had room", what, label_of(t));
}
SCENARIO("C04", refused_output, 6) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, c); ObjP o = obj_of(v, c); Bytes full = serialize_ok(t, o->p, "serialise"); NOTE("%s %s", label_of(t), show(v).c_str()); ev_bytes("full", full.data(), full.size());
  SimWriter probe; t->o.ser(o->p, probe); int64_t calls = probe.calls; if(!calls) return; nontrivial();
  bool all = calls <= 60 && chance(1, 3); uint32_t tries = all ? static_cast<uint32_t>(calls) : 1 + pick(4); uint32_t mode = pick(6);
  for(uint32_t k = 0; k < tries; ++k) {
    SimWriter w; int64_t at = all ? k : static_cast<int64_t>(pick(static_cast<uint32_t>(calls))); if(!all && k) mode = pick(6);
    const char* what = "momentary refusal";
    switch(mode) {
      case 0: w.refuse_at = at; w.refuse_n = 1; count_fault("refuse_once"); break;
      case 1: w.refuse_at = at; w.refuse_n = 1 + pick(6); count_fault("refuse_some"); break;
      case 2: w.refuse_at = at; w.refuse_n = 1; w.hide_room = true; count_fault("refuse_once_room_hidden"); break;
      case 3: w.refuse_at = at; w.refuse_n = 1 << 30; what = "lasting refusal"; count_fault("refuse_for_good"); break;
      case 4: w.cap = pick(static_cast<uint32_t>(full.size())); what = "full output"; count_fault("output_full"); break;
      default: { uint32_t burst = 1 + pick(8), den = 2 + pick(6); w.cap = 1 + pick(static_cast<uint32_t>(full.size()) + 4); w.drain = [burst, den]() { return chance(1, den) ? burst : 0u; }; what = "draining output"; count_fault("output_drains"); }
    }
    int e = t->o.ser(o->p, w); judge_output(t, w, e, full, what); step();
  }
  check_same("unchanged", v, snap(t, o->p), 0, "the message after refused serialisations");
  Bytes again = serialize_ok(t, o->p, "serialise"); REQUIRE(again == full, "again", "%s: serialising again after a refusal gives %zu bytes, before %zu", label_of(t), again.size(), full.size());
}
// parts on their own: every public serialize_with_id of fields
SCENARIO("C04", refused_output_parts, 2) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(false); MsgVal v = gen_msg(t, c); ObjP o = obj_of(v, c); if(!t->nfields) return;
  for(uint32_t k = 0; k < 3; ++k) {
    const FieldOps& fo = t->fields[pick(t->nfields)]; if(fo.card == C_ONEOF && !fo.has(o->p)) continue; const ObjOps* ops; const void* p;
    if(fo.card == C_REP) { ops = &fo.rep->o; p = fo.cget(o->p, 0); } else if(is_strk(fo.kind)) { ops = &fo.str->o; p = fo.cget(o->p, 0); } else if(fo.kind == K_MSG) { ops = &fo.msg()->o; p = fo.cget(o->p, 0); } else continue;
    bool opt = coin(); SimWriter full; int e = ops->ser_id(p, fo.num, full, opt); REQUIRE(e == E_OK, "serialise", "%s: %s into an output with room", fo.name, errname(e));
    if(!full.calls) continue; nontrivial();
    SimWriter w; if(coin()) { w.cap = pick(static_cast<uint32_t>(full.out.size())); count_fault("output_full"); } else { w.refuse_at = static_cast<int64_t>(pick(static_cast<uint32_t>(full.calls))); w.refuse_n = coin() ? 1 : 1 << 30; count_fault("refuse_once"); }
    e = ops->ser_id(p, fo.num, w, opt); judge_output(t, w, e, full.out, fo.name);
  }
}
// a node with a slow output: serialise, on refusal wait for the output to drain, start over
SCENARIO("C04", retry_until_delivered, 2) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(false); MsgVal v = gen_msg(t, c); ObjP o = obj_of(v, c); Bytes full = serialize_ok(t, o->p, "serialise"); if(full.empty()) return; nontrivial();
  uint32_t attempts = 1 + pick(5); SimWriter w; w.cap = static_cast<uint32_t>(full.size());
  for(uint32_t k = 0; k < attempts; ++k) {
    bool last = k + 1 == attempts; w.clear(); w.refused = w.single_after = w.block_after = 0; w.min_avail = -1; w.calls = 0; w.base = last ? 0 : 1 + pick(static_cast<uint32_t>(full.size())); if(!last) count_fault("output_full");
    g_now += 1000 * (1 + pick(50)); int e = t->o.ser(o->p, w); judge_output(t, w, e, full, last ? "retry with room" : "retry without room");
    if(!last) REQUIRE(e == E_FULL, "refusal", "%s: %zu bytes written into %u bytes of room", label_of(t), full.size(), w.cap - w.base); else REQUIRE(e == E_OK && w.out == full, "again", "%s: with room again serialising returns %s", label_of(t), errname(e));
  }
}

// ------------------------------------------------------------------------------------------------ C05
static void cut_once(const MsgOps* t, const Bytes& b, size_t cut, const GenCfg& c, uint32_t kind, const MsgVal& prior_v, const Obj* prior) {
  Bytes p(b.begin(), b.begin() + cut); Expect x = expect(prior_v, p);
  ObjP o(prior ? new Obj(t, prior->p, 0) : new Obj(t)); (void)c;
  Parsed r = parse_with(t->o, o->p, p, kind); count_fault("input_cut"); step();
  if(!x.d.ok()) REQUIRE(r.err != E_OK, "truncated-accepted", "%s: %zu of %zu bytes end inside a field, parsing reports success: %s", label_of(t), cut, b.size(), hex(p, 80).c_str());
  check_err("truncated", x.d, r.err, p, t, "cut input");
  if(kind == RK_SIM || kind == RK_SIM_ADV) REQUIRE(r.after == 0, "reads-on", "%s: %lld bytes were taken after the input had refused one", label_of(t), (long long)r.after);
  if(r.err == E_OK) check_same("truncated-content", x.v, snap(t, o->p), 0, "content parsed from input cut at a field boundary");
}
SCENARIO("C05", cut_input, 5) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, c); Bytes b = gen_frame(v, true); NOTE("%s %s", label_of(t), hex(b, 200).c_str()); ev_bytes("frame", b.data(), b.size());
  if(b.empty()) return; nontrivial(); uint32_t kind = pick(RK_N);
  ObjP prior; MsgVal pv(t); if(!is_heavy(t) && chance(1, 4)) { GenCfg c2 = c; c2.density = 25; pv = gen_msg(t, c2); prior = obj_of(pv, c); }
  // repeated fields of a used object may be full: let the reference decide
  if(b.size() <= 70 && chance(1, 3)) for(size_t k = 0; k < b.size(); ++k) cut_once(t, b, k, c, kind, pv, prior.get());
  else { uint32_t n = 1 + pick(6); for(uint32_t k = 0; k < n; ++k) cut_once(t, b, pick(static_cast<uint32_t>(b.size())), c, k ? pick(RK_N) : kind, pv, prior.get()); }
}
SCENARIO("C05", stalled_input, 5) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, c); Bytes b = gen_frame(v, true); if(b.empty()) return; ev_bytes("frame", b.data(), b.size()); nontrivial();
  NOTE("%s %s", label_of(t), hex(b, 200).c_str());
  // bytes arrive while the parser runs
  uint32_t burst = 1 + pick(8), den = 1 + pick(6); size_t stop = coin() ? b.size() : pick(static_cast<uint32_t>(b.size()) + 1); ObjP o = default_obj(t, c);
  SimReader r(b); r.arrived = std::min<size_t>(stop, pick(static_cast<uint32_t>(b.size()) + 1)); size_t start = r.arrived; r.adv_to_end = coin();
  r.arrive = [&](SimReader& s) { if(s.arrived < stop && chance(1, den)) { s.arrived = std::min(stop, s.arrived + 1 + pick(burst)); g_now += 87; } };
  count_fault("input_arrives_late"); if(stop < b.size()) count_fault("input_stalls");
  int e = t->o.des(o->p, r); NOTE("available at start %zu, arrives up to %zu of %zu: %s after %zu bytes", start, stop, b.size(), errname(e), r.pos);
  ev("parsed", static_cast<uint64_t>(e), r.pos);
  REQUIRE(r.taken_after_refusal == 0, "reads-on", "%s: %lld bytes were taken after the input had refused one", label_of(t), (long long)r.taken_after_refusal);
  REQUIRE(e == E_OK || e == E_END, "stalled", "%s: parsing a valid message that has not arrived completely returned %s", label_of(t), errname(e));
  if(e == E_OK) {
    Bytes used(b.begin(), b.begin() + r.pos); Expect x = expect(MsgVal(t), used);
    REQUIRE(x.d.ok(), "truncated-accepted", "%s: parsing reports success after %zu of %zu bytes, which end inside a field: %s", label_of(t), r.pos, b.size(), hex(used, 80).c_str());
    check_same("truncated-content", x.v, snap(t, o->p), 0, "content of the bytes consumed from a stalling input");
    if(r.pos < b.size()) count_probe("success_on_boundary_of_stalled_input");
  } else REQUIRE(start < b.size(), "stalled", "%s: end of buffer although all %zu bytes were there", label_of(t), b.size());
  // once everything has arrived the message is delivered
  t->o.clear(o->p); Parsed p = parse_with(t->o, o->p, b, pick(RK_N)); REQUIRE(p.err == E_OK, "delivery", "%s: with all bytes there parsing returns %s", label_of(t), errname(p.err));
  check_same("delivery", v, snap(t, o->p), 1, "content after the rest of the bytes arrived");
}
// frames back to back in one input that is being filled: each is parsed inside its own bounded view
SCENARIO("C05", framed_stream, 3) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(false); uint32_t n = 2 + pick(4); std::vector<MsgVal> vs; std::vector<uint32_t> lens; Bytes all;
  for(uint32_t i = 0; i < n; ++i) { vs.push_back(gen_msg(t, c)); Bytes b = gen_frame(vs.back(), true); lens.push_back(static_cast<uint32_t>(b.size())); all.insert(all.end(), b.begin(), b.end()); }
  SimReader r(all); r.arrived = 0; uint32_t burst = 1 + pick(40); nontrivial(); ev_bytes("stream", all.data(), all.size());
  size_t at = 0; ObjP o = default_obj(t, c);
  for(uint32_t i = 0; i < n; ++i) {
    bool early = chance(1, 3); size_t target = at + (early && lens[i] ? pick(lens[i]) : lens[i]); while(r.arrived < target) r.arrived = std::min(all.size(), r.arrived + 1 + pick(burst)); if(early && r.arrived > target) r.arrived = target;
    bool complete = r.arrived >= at + lens[i]; t->o.clear(o->p); r.refused = 0; r.taken_after_refusal = 0;
    EP::ReadBufferSection s(r, lens[i]); int e = t->o.des(o->p, s); NOTE("frame %u of %u bytes, arrived %zu: %s", i, lens[i], r.arrived - at, errname(e));
    REQUIRE(r.pos <= at + lens[i], "bound", "frame %u of %u bytes: %zu bytes were taken", i, lens[i], r.pos - at);
    if(complete) { REQUIRE(e == E_OK, "delivery", "%s: complete frame: %s", label_of(t), errname(e)); check_same("delivery", vs[i], snap(t, o->p), 1, "content of a framed message"); REQUIRE(r.pos == at + lens[i], "bound", "success after %zu of %u bytes", r.pos - at, lens[i]); }
    else { count_fault("input_cut"); Bytes used(all.begin() + at, all.begin() + r.arrived); Expect x = expect(MsgVal(t), used); check_err("truncated", x.d, e, used, t, "frame not completely there"); if(e == E_OK) check_same("truncated-content", x.v, snap(t, o->p), 0, "content of the bytes there"); }
    at += lens[i]; r.pos = at; if(r.arrived < at) r.arrived = at;
  }
}

// ------------------------------------------------------------------------------------------------ C06
static void judge_parse(const MsgOps* t, const Bytes& b, const GenCfg& c, uint32_t kind, const char* what) {
  ObjP o = default_obj(t, c); Expect x = expect(MsgVal(t), b); ev_bytes("frame", b.data(), b.size());
  Parsed r = parse_with(t->o, o->p, b, kind, 64 + 32ull * b.size()); NOTE("%s: %s -> %s", what, hex(b, 200).c_str(), errname(r.err)); ev("verdict", static_cast<uint64_t>(r.err));
  count_probe((std::string("verdict_") + errname(r.err)).c_str());
  if(x.d.ok() && r.err == E_OK) { check_same("wrong-content", x.v, snap(t, o->p), 0, what); return; }
  if(!x.d.ok()) REQUIRE(r.err != E_OK, "malformed-accepted", "%s: malformed input was accepted as %s: %s", what, label_of(t), hex(b, 96).c_str());
  check_err("verdict", x.d, r.err, b, t, what);
}
SCENARIO("C06", damaged_frames, 6) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, c); Bytes b = gen_frame(v, true); uint32_t n = 1 + pick(4); nontrivial();
  for(uint32_t k = 0; k < n; ++k) judge_parse(t, damage(b, t, 1 + (coin() ? pick(4) : 0)), c, pick(RK_N), "damaged frame");
}
SCENARIO("C06", hostile_frames, 2) { GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); Bytes b; if(coin()) b = gen_frame(gen_msg(t, c), false); Bytes h = hostile(t); b.insert(b.end(), h.begin(), h.end()); if(coin()) { Bytes z = gen_frame(gen_msg(t, c), false); b.insert(b.end(), z.begin(), z.end()); } judge_parse(t, b, c, pick(RK_N), "hostile frame"); }
SCENARIO("C06", bad_frames, 2) { GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); judge_parse(t, bad_frame(t, c), c, pick(RK_N), "bad frame"); }
SCENARIO("C06", noise, 2) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); uint32_t n = pick(40); Bytes b; uint32_t style = pick(3); nontrivial(); count_fault("noise_instead_of_frame");
  for(uint32_t i = 0; i < n; ++i) { if(style == 0) b.push_back(static_cast<uint8_t>(pick(256))); else if(style == 1) b.push_back(static_cast<uint8_t>(pick(3) ? pick(32) : pick(256))); else if(t->nfields && coin()) put_tag(b, t->fields[pick(t->nfields)].num, static_cast<int>(pick(6))); else b.push_back(static_cast<uint8_t>(pick(20))); }
  judge_parse(t, b, c, pick(RK_N), "noise");
}
SCENARIO("C06", misrouted, 1) { GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); const MsgOps* s = pick_message(false); nontrivial(); count_fault("frame_misrouted"); judge_parse(t, gen_frame(gen_msg(s, c), false), c, pick(RK_N), "frame of another type"); }
// numbers: every shape of varint and fixed content in every scalar field
SCENARIO("C06", damaged_numbers, 3) {
  GenCfg c = swarm_cfg(); static const char* const N[] = { "sc.Scalars", "sc.OptScalars", "sc.HighNums", "sc.OnlyBool", "oo.OneofAll", "rp.RepAll", "rp.OnlyRep", "oo.EnumOneof" }; const MsgOps* t = pick_of(N, 'c'); nontrivial(); Bytes b; uint32_t n = 1 + pick(3);
  for(uint32_t k = 0; k < n; ++k) {
    const FieldOps& fo = t->fields[pick(t->nfields)]; Bytes x; uint32_t m = 1 + pick(3);
    for(uint32_t q = 0; q < m; ++q) { uint32_t len = 1 + pick(12); for(uint32_t i = 0; i + 1 < len; ++i) x.push_back(0x80 | static_cast<uint8_t>(chance(1, 3) ? pick(128) : (coin() ? 0x7f : 0))); x.push_back(static_cast<uint8_t>(pick(4) ? pick(3) : pick(128))); if(fo.card != C_REP) break; }
    count_fault("varint_overlong"); int wt = fo.card == C_REP ? 2 : wiretype(fo.kind); put_tag(b, fo.num, wt, static_cast<int>(chance(1, 5) ? pick(6) : 0)); if(wt == 2) put_varint(b, x.size() + (chance(1, 6) ? pick(3) : 0)); b.insert(b.end(), x.begin(), x.end());
  }
  judge_parse(t, b, c, pick(RK_N), "numbers of odd shape");
}

// ------------------------------------------------------------------------------------------------ C07
// far above what the largest frame needs, far below what a loop over a forged length takes
static uint64_t block_allowance(const MsgOps* t, size_t n) { return 20000 + (n + 1) * (500 + 2ull * t->o.size); }
static void bounded_parse(const MsgOps* t, const Bytes& b, const GenCfg& c, uint32_t kind) {
  ObjP o = default_obj(t, c); ev_bytes("frame", b.data(), b.size()); NOTE("%s %s", label_of(t), hex(b, 200).c_str()); BlockLimit work(block_allowance(t, b.size()));
  if(kind == RK_FIXED_BULK || kind == RK_FIXED_PUSH) {
    // the real input buffer: what it says is left must go down to the end of the data and no further
    std::unique_ptr<AnyReader> rd = make_fixed_reader(static_cast<uint32_t>(b.size())); if(!rd) return; if(!b.empty()) memcpy(rd->data(), b.data(), b.size()); rd->set_bytes_written(static_cast<uint32_t>(b.size()));
    int e = t->o.des(o->p, rd->r()); uint32_t left = rd->r().get_size(); REQUIRE(left <= b.size(), "position", "after parsing (%s) %u of %zu bytes are left", errname(e), left, b.size());
    uint32_t can = 0; uint8_t x; { LibScope l; while(rd->r().pop(x)) { REQUIRE(can < left, "position", "the input delivers more than the %u bytes it says are left", left); REQUIRE(x == b[b.size() - left + can], "position", "after parsing (%s) the input delivers byte %u as %02x", errname(e), can, x); ++can; } }
    REQUIRE(can == left, "position", "the input says %u bytes are left and delivers %u", left, can); return;
  }
  Parsed r = parse_with(t->o, o->p, b, kind, 64 + 32ull * b.size()); REQUIRE(r.consumed <= b.size(), "position", "%zu of %zu bytes consumed", r.consumed, b.size()); ev("verdict", static_cast<uint64_t>(r.err));
}
SCENARIO("C07", hostile_input, 5) { GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); Bytes b; if(chance(1, 3)) b = gen_frame(gen_msg(t, c), true); Bytes h = hostile(t); b.insert(b.end(), h.begin(), h.end()); if(coin()) b = damage(b, t, 1 + pick(3)); bounded_parse(t, b, c, pick(RK_N)); }
SCENARIO("C07", damaged_input, 3) { GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); Bytes b = damage(gen_frame(gen_msg(t, c), true), t, 1 + pick(4)); bounded_parse(t, b, c, pick(RK_N)); }
SCENARIO("C07", bad_input, 2) { GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); bounded_parse(t, bad_frame(t, c), c, pick(RK_N)); }
// lengths near the 32 bit limit inside nested messages, with an input that stalls and resumes
SCENARIO("C07", stalling_hostile_input, 3) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(false); nontrivial(); Bytes b = gen_frame(gen_msg(t, c), true); Bytes h = hostile(t); size_t at = pick(static_cast<uint32_t>(b.size()) + 1); b.insert(b.begin() + at, h.begin(), h.end()); ev_bytes("frame", b.data(), b.size());
  SimReader r(b); r.arrived = pick(static_cast<uint32_t>(b.size()) + 1); r.max_calls = 64 + 32ull * b.size(); uint32_t den = 1 + pick(5); bool lie = chance(1, 3); r.arrive = [&](SimReader& s) { if(s.arrived < s.data.size() && chance(1, den)) ++s.arrived; }; if(lie) r.maxsize = 0xffffffffu; count_fault("input_arrives_late");
  ObjP o = default_obj(t, c); BlockLimit work(block_allowance(t, b.size())); int e = t->o.des(o->p, r); ev("verdict", static_cast<uint64_t>(e), r.pos); REQUIRE(r.pos <= b.size(), "position", "%zu of %zu bytes consumed", r.pos, b.size());
}
// many tiny or empty pieces: work stays proportional to the bytes
SCENARIO("C07", many_small_pieces, 2) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); nontrivial(); Bytes b; uint32_t n = 200 + pick(400);
  Bytes unit; switch(pick(4)) { case 0: unit = unknown_field(t); break; case 1: if(t->nfields) { put_tag(unit, t->fields[pick(t->nfields)].num, 2); unit.push_back(0); break; } // fall through
    case 2: put_tag(unit, 1 + pick(1000), 2); unit.push_back(0); break; default: put_tag(unit, 1 + pick(1000), 0); unit.push_back(1); }
  if(unit.size() > 40) unit.resize(40); for(uint32_t i = 0; i < n; ++i) b.insert(b.end(), unit.begin(), unit.end()); bounded_parse(t, b, c, pick(2) ? RK_SIM : RK_SECTION);
}
SCENARIO("C07", bounded_serialising, 2) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, c); ObjP o = obj_of(v, c); Bytes full = serialize_ok(t, o->p, "serialise"); nontrivial(); ev_bytes("full", full.data(), full.size());
  SimWriter w; uint64_t before = g_steps; if(coin()) { w.refuse_at = static_cast<int64_t>(pick(static_cast<uint32_t>(full.size()) + 1)); w.refuse_n = 1 + pick(3); count_fault("refuse_some"); } else if(coin()) { w.cap = pick(static_cast<uint32_t>(full.size()) + 1); count_fault("output_full"); }
  BlockLimit work(block_allowance(t, full.size())); t->o.ser(o->p, w); uint64_t used = g_steps - before; REQUIRE(used <= 64 + 8ull * t->nfields + 16ull * full.size(), "unbounded-work", "%llu output operations for %zu bytes of %s", (unsigned long long)used, full.size(), label_of(t));
}

// ------------------------------------------------------------------------------------------------ C16
static const char* const NESTED[] = { "ne.deep.Frame", "ne.deep.L1", "ne.deep.L2", "ne.deep.L3", "rp.RepMsgs", "oo.OneofDeep", "oo.OneofAll", "oo.Inner", "ve.ReportV2", "ve.ReportV3", "oo.OnlyOneof", "rp.Rec", "st.RepStrs", "rp.RepAll", "st.Strs" };
struct LenAt { size_t at; int n; uint64_t len; int depth; };
// positions of all length prefixes, following the schema
static void find_lens(const MsgOps* t, const Bytes& b, size_t from, size_t to, int depth, std::vector<LenAt>& out) {
  size_t i = from; auto vi = [&](uint64_t& v, int& k) { v = 0; k = 0; while(i < to && k < 10) { uint8_t x = b[i++]; v |= static_cast<uint64_t>(x & 0x7f) << (7 * k > 63 ? 63 : 7 * k); ++k; if(!(x & 0x80)) return true; } return false; };
  while(i < to) {
    uint64_t tag, v; int k; if(!vi(tag, k)) return;
    switch(tag & 7) { case 0: if(!vi(v, k)) return; break; case 1: i += 8; break; case 5: i += 4; break;
      case 2: { size_t at = i; if(!vi(v, k)) return; if(v > to - i) return; out.push_back(LenAt{at, k, v, depth}); for(uint32_t q = 0; q < t->nfields; ++q) if(t->fields[q].num == (tag >> 3) && t->fields[q].kind == K_MSG) find_lens(t->fields[q].msg(), b, i, i + static_cast<size_t>(v), depth + 1, out); i += static_cast<size_t>(v); break; }
      default: return; }
  }
}
SCENARIO("C16", tampered_lengths, 6) {
  GenCfg c = swarm_cfg(); if(c.density < 50) c.density = 60; const MsgOps* t = pick_of(NESTED, 'n'); MsgVal v = gen_msg(t, c); Bytes b = gen_frame(v, true); std::vector<LenAt> L; find_lens(t, b, 0, b.size(), 0, L); if(L.empty()) return; nontrivial();
  uint32_t n = 1 + pick(3);
  for(uint32_t k = 0; k < n; ++k) {
    Bytes m = b; const LenAt& l = L[pick(static_cast<uint32_t>(L.size()))]; uint64_t nl = l.len; 
    switch(pick(6)) { case 0: nl = l.len + 1 + pick(4); break; case 1: nl = l.len ? pick(static_cast<uint32_t>(std::min<uint64_t>(l.len, 1u << 20))) : 0; break; case 2: nl = l.len ? l.len - 1 : 1; break; case 3: nl = b.size() - l.at + pick(9); break; case 4: { static const uint64_t H[] = { 0xffffffff, 0x80000000u, 0x7fffffff, 0xfffffff0u }; nl = H[pick(4)]; break; } default: nl = pick(300); }
    Bytes p; put_varint(p, nl, 0, 5); while(static_cast<int>(p.size()) < l.n && coin()) { p.back() |= 0x80; p.push_back(0); } // keep the size of the prefix when possible
    m.erase(m.begin() + l.at, m.begin() + l.at + l.n); m.insert(m.begin() + l.at, p.begin(), p.end()); count_fault("length_changed"); count_probe(("length_changed_at_depth_" + std::to_string(l.depth)).c_str());
    Expect x = expect(MsgVal(t), m); ObjP o = default_obj(t, c); uint32_t kind = pick(RK_N); Parsed r = parse_with(t->o, o->p, m, kind, 64 + 32ull * m.size()); ev_bytes("frame", m.data(), m.size()); ev("verdict", static_cast<uint64_t>(r.err));
    NOTE("%s length at %zu (depth %d) %llu -> %llu: %s", label_of(t), l.at, l.depth, (unsigned long long)l.len, (unsigned long long)nl, errname(r.err));
    if(r.err == E_OK && x.d.ok()) check_same("bleed", x.v, snap(t, o->p), 0, "content with a changed inner length");
    else { REQUIRE(r.err != E_OK, "overrun-accepted", "%s: an inner length that does not fit its content was accepted: %s", label_of(t), hex(m, 96).c_str()); check_err("verdict", x.d, r.err, m, t, "changed inner length"); }
  }
}
// one field directly from an input in which other data follows
SCENARIO("C16", exact_consumption, 5) {
  GenCfg c = swarm_cfg(); const MsgOps* t = pick_of(NESTED, 'n'); std::vector<uint32_t> f; for(uint32_t i = 0; i < t->nfields; ++i) if(t->fields[i].card == C_REP || !is_scalar(t->fields[i].kind)) f.push_back(i); if(f.empty()) return;
  const FieldOps& fo = t->fields[f[pick(static_cast<uint32_t>(f.size()))]]; MsgVal v = gen_msg(t, c); FVal& fv = v.f[&fo - t->fields]; (void)fv;
  // the body of one occurrence of the field
  Bytes body; { MsgVal one(t); for(int k = 0; k < 4; ++k) { MsgVal g = gen_msg(t, c); one.f[&fo - t->fields] = g.f[&fo - t->fields]; if(fo.card == C_ONEOF) { set_which(one, fo.oneof, fo.num); } Bytes e = encode(one); std::vector<size_t> bd = boundaries(e.data(), e.size()); if(bd.size() > 1) { size_t i = bd[0]; while(e[i] & 0x80) ++i; ++i; while(e[i] & 0x80) ++i; ++i; body.assign(e.begin() + i, e.begin() + bd[1]); break; } } }
  bool bad = chance(1, 3); if(bad) { body = damage(body, fo.kind == K_MSG ? fo.msg() : t, 1); }
  Bytes in; put_varint(in, body.size(), chance(1, 6) ? static_cast<int>(pick(4)) : 0, 5); size_t pre = in.size(); in.insert(in.end(), body.begin(), body.end()); size_t end = in.size(); uint32_t trail = 1 + pick(12); for(uint32_t i = 0; i < trail; ++i) in.push_back(static_cast<uint8_t>(pick(256)));
  nontrivial(); ev_bytes("field", in.data(), in.size());
  MsgVal ref(t); Bytes whole; put_tag(whole, fo.num, 2); whole.insert(whole.end(), in.begin(), in.begin() + end); Dec d = decode(ref, whole.data(), whole.size());
  const ObjOps* ops = fo.card == C_REP ? &fo.rep->o : fo.kind == K_MSG ? &fo.msg()->o : &fo.str->o;
  SimReader r(in); r.adv_to_end = false; Obj holder(t); void* p = fo.mut(holder.p);
  int e; if(fo.kind == K_MSG && fo.card != C_REP) e = ops->des_ct(p, r, 2); else e = ops->des_ct(p, r, 2);
  NOTE("%s of %s: length %zu, %u bytes follow: %s after %zu", fo.name, label_of(t), body.size(), trail, errname(e), r.pos); ev("verdict", static_cast<uint64_t>(e), r.pos);
  REQUIRE(r.max_pos <= end, "bound", "%s declares %zu bytes; parsing it took %zu bytes behind its length (%s)", fo.name, body.size(), r.max_pos - pre, errname(e));
  check_err("verdict", d, e, whole, t, "one field");
  if(e == E_OK) { REQUIRE(r.pos == end, "bound", "%s declares %zu bytes; parsing it succeeded after %zu", fo.name, body.size(), r.pos - pre); std::string why; MsgVal got = snap(t, holder.p); FVal gf = got.f[&fo - t->fields], rf = ref.f[&fo - t->fields]; gf.has = rf.has; REQUIRE(same_field(fo, rf, gf, "", &why), "bleed", "content of %s (expected vs found): %s", fo.name, why.c_str()); }
}
// well-formed inner fields with any content, siblings around them
SCENARIO("C16", siblings, 3) {
  GenCfg c = swarm_cfg(); c.density = 80; const MsgOps* t = pick_of(NESTED, 'n'); MsgVal v = gen_msg(t, c); EncCfg ec = swarm_enc(true); ec.unknown = 30; Bytes b = encode_varied(v, ec); nontrivial(); ev_bytes("frame", b.data(), b.size());
  ObjP o = default_obj(t, c); Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); REQUIRE(r.err == E_OK, "verdict", "%s: a valid frame with unknown fields: %s: %s", label_of(t), errname(r.err), hex(b, 96).c_str()); check_same("bleed", v, snap(t, o->p), 0, "content with unknown fields at every level");
}
