// Nodes, tasks, links and buffers: C01 C10 C15 C17.
#include "util.h"
#include <deque>
#include <map>

// ------------------------------------------------------------------------------------------------ C01
namespace {
// A one-way link that keeps order, cuts the bytes in fragments and delays them.
struct Link {
  struct Frag { uint64_t due; Bytes b; };
  std::deque<Frag> q; uint64_t last = 0; uint32_t maxfrag, maxdelay;
  void send(const Bytes& b) { size_t i = 0; uint64_t t = std::max(last, g_now); while(i < b.size()) { size_t n = std::min<size_t>(b.size() - i, 1 + pick(maxfrag)); t += maxdelay ? pick(maxdelay) : 0; q.push_back(Frag{t, Bytes(b.begin() + i, b.begin() + i + n)}); i += n; count_fault("fragmented"); if(maxdelay) count_fault("delayed"); } last = t; }
};
struct Frame { uint32_t len; };
struct Wire { MsgVal v; Bytes bytes; };
}
SCENARIO("C01", nodes_on_links, 4) {
  // every node: a sending task, a receiving interrupt (the link), a parsing task
  uint32_t nodes = 2; bool yields = coin(); GenCfg g = swarm_cfg(); g.maxlen = 60; Sched s; std::vector<Link> link(nodes); uint32_t total = 0, delivered = 0;
  struct Node { std::vector<const MsgOps*> types; std::vector<Wire> sent; Bytes inbox; size_t parsed = 0; size_t at = 0; std::vector<uint32_t> lens; bool done_sending = false; };
  std::vector<Node> N(nodes); nontrivial();
  for(auto& l : link) { l.maxfrag = 1 + pick(3) * 20; l.maxdelay = pick(3) * 500; }
  std::vector<uint32_t> msgs(nodes); for(uint32_t i = 0; i < nodes; ++i) { msgs[i] = 1 + pick(3); total += msgs[i]; const MsgOps* t = pick_message(false); for(uint32_t k = 0; k < msgs[i]; ++k) N[i].types.push_back(coin() ? t : pick_message(false)); }
  auto hook = [yields]() { if(yields && chance(1, 3)) yield_point("buffer"); };
  for(uint32_t i = 0; i < nodes; ++i) s.spawn("sender", [&, i]() {
    Node& me = N[i]; ObjP o; const MsgOps* last = nullptr;
    for(uint32_t k = 0; k < msgs[i]; ++k) {
      const MsgOps* t = me.types[k]; MsgVal v = gen_msg(t, g); if(last == t && o && coin()) { t->o.clear(o->p); build(t, o->p, v); } else { o = obj_of(v, g); last = t; }
      Bytes out; 
      if(coin()) { // the library's output buffer; the message is sent when complete
        std::unique_ptr<AnyWriter> w = make_fixed_writer(t->o.ssize(o->p)); if(!w) w = make_fixed_writer(100000); uint32_t fill = w->cap - t->o.ssize(o->p); (void)fill; int e = t->o.ser(o->p, w->w()); REQUIRE(e == E_OK, "send", "%s: serialising into an output buffer of sufficient size: %s", label_of(t), errname(e)); out.assign(w->data(), w->data() + w->w().get_size());
      } else {
        uint32_t need = t->o.ssize(o->p); SimWriter w; w.hook = hook; w.cap = need; w.base = chance(1, 3) ? 1 + pick(need + 1) : 0; uint32_t attempts = 0;
        for(;;) { w.clear(); int e = t->o.ser(o->p, w); yield_point("sent"); if(e == E_OK) break; REQUIRE(e == E_FULL && w.base > 0 && attempts < 50, "send", "%s: serialising into an output with %u of %u bytes of room: %s", label_of(t), w.cap - std::min(w.base, w.cap), need, errname(e)); ++attempts; count_fault("output_full"); w.base -= std::min(w.base, 1 + pick(w.base)); g_now += 100; }
        out = w.out;
      }
      NOTE("node %u sends %s %s", i, label_of(t), hex(out, 100).c_str()); ev_bytes("send", out.data(), out.size()); me.sent.push_back(Wire{v, out}); N[1 - i].lens.push_back(static_cast<uint32_t>(out.size())); link[i].send(out); yield_point("next");
    }
    me.done_sending = true; });
  for(uint32_t i = 0; i < nodes; ++i) s.spawn("link", [&, i]() { // delivers what node i sent
    for(;;) { block_until([&, i]() { return !link[i].q.empty() || N[i].done_sending; }); if(link[i].q.empty()) return; Link::Frag f = link[i].q.front(); link[i].q.pop_front(); g_now = std::max(g_now, f.due); Bytes& in = N[1 - i].inbox; in.insert(in.end(), f.b.begin(), f.b.end()); ev("arrive", f.b.size(), in.size()); yield_point("arrived"); } });
  for(uint32_t i = 0; i < nodes; ++i) s.spawn("receiver", [&, i]() {
    Node& me = N[i]; Node& peer = N[1 - i]; std::map<const MsgOps*, ObjP> pool; std::unique_ptr<AnyReader> rd = make_fixed_reader(100000);
    for(uint32_t k = 0; k < msgs[1 - i]; ++k) {
      block_until([&]() { return me.lens.size() > k && me.inbox.size() >= me.at + me.lens[k]; });
      const MsgOps* t = peer.types[k]; ObjP& o = pool[t]; if(!o) o = default_obj(t, g); else t->o.clear(o->p); Bytes b(me.inbox.begin() + me.at, me.inbox.begin() + me.at + me.lens[k]); int e;
      switch(pick(4)) {
        case 0: { SimReader r(b); r.hook = hook; e = t->o.des(o->p, r); break; }
        case 1: { rd->clear(); if(!b.empty()) memcpy(rd->data(), b.data(), b.size()); rd->set_bytes_written(static_cast<uint32_t>(b.size())); e = t->o.des(o->p, rd->r()); break; }
        case 2: { rd->clear(); for(uint8_t x : b) { REQUIRE(rd->push(x), "receive", "the input buffer refused a byte"); if(chance(1, 20)) yield_point("isr"); } e = t->o.des(o->p, rd->r()); break; }
        default: { SimReader r(me.inbox); r.pos = me.at; r.hook = hook; EP::ReadBufferSection sec(r, me.lens[k]); e = t->o.des(o->p, sec); } // straight from the stream, later traffic behind it
      }
      NOTE("node %u parses %s: %s", i, label_of(t), errname(e)); REQUIRE(e == E_OK, "receive", "%s arrived complete and unchanged; parsing returned %s: %s", label_of(t), errname(e), hex(b, 96).c_str()); check_same("delivered", peer.sent[k].v, snap(t, o->p, static_cast<int>(pick(8))), 1, "content after an intact transfer"); me.at += me.lens[k]; ++delivered; yield_point("parsed");
    } });
  s.run(); REQUIRE(delivered == total, "delivered", "%u of %u messages were delivered", delivered, total);
}
SCENARIO("C01", one_transfer, 8) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); ObjP a = obj_of(v, g); if(!is_default(v)) nontrivial(); NOTE("%s %s", label_of(t), show(v).c_str()); check_same("built", v, snap(t, a->p, static_cast<int>(pick(8))), 0, "content set by the application");
  Bytes b; uint32_t n = t->o.ssize(a->p); if(coin()) b = serialize_ok(t, a->p, "send"); else { std::unique_ptr<AnyWriter> w = make_fixed_writer(n); if(!w) w = make_fixed_writer(100000); int e = t->o.ser(a->p, w->w()); if(n <= w->cap) { REQUIRE(e == E_OK, "send", "%s: %s", label_of(t), errname(e)); b.assign(w->data(), w->data() + w->w().get_size()); } else b = serialize_ok(t, a->p, "send"); }
  ev_bytes("wire", b.data(), b.size()); ObjP c = default_obj(t, g); Parsed r = parse_with(t->o, c->p, b, pick(RK_N)); REQUIRE(r.err == E_OK, "receive", "%s arrived complete; parsing returned %s: %s", label_of(t), errname(r.err), hex(b, 96).c_str()); check_same("delivered", v, snap(t, c->p, static_cast<int>(pick(8))), 1, "content after an intact transfer");
  if(chance(1, 3)) { // forwarded by the receiver to a third node
    Bytes b2 = serialize_ok(t, c->p, "send"); ObjP d = default_obj(t, g); REQUIRE(parse(t, d->p, b2, pick(RK_N)) == E_OK, "receive", "forwarded %s does not parse", label_of(t)); check_same("delivered", v, snap(t, d->p), 1, "content after two transfers"); }
}
// request/response traffic with reused objects and buffers on both sides
SCENARIO("C01", long_conversation, 3) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(false); std::unique_ptr<AnyWriter> w = make_fixed_writer(4096); std::unique_ptr<AnyReader> r = make_fixed_reader(4096); ObjP a(new Obj(t)), b(new Obj(t)); uint32_t n = 2 + pick(8); nontrivial();
  for(uint32_t k = 0; k < n; ++k) {
    GenCfg g2 = g; g2.density = pick(2) ? 20 : 80; MsgVal v = gen_msg(t, g2); t->o.clear(a->p); build(t, a->p, v); { LibScope l; w->w().clear(); } int e = t->o.ser(a->p, w->w()); uint32_t len = t->o.ssize(a->p); g_now += 5000; if(len > w->cap) { count_fault("output_full"); REQUIRE(e == E_FULL, "send", "%u bytes fit into %u?", len, w->cap); continue; } REQUIRE(e == E_OK && w->w().get_size() == len, "send", "%s: %s with %u of %u bytes", label_of(t), errname(e), w->w().get_size(), len);
    r->clear(); if(coin()) { memcpy(r->data(), w->data(), len); r->set_bytes_written(len); } else for(uint32_t i = 0; i < len; ++i) r->push(w->data()[i]); ev_bytes("wire", w->data(), len); t->o.clear(b->p); e = t->o.des(b->p, r->r()); REQUIRE(e == E_OK, "receive", "message %u, %s: %s", k, label_of(t), errname(e)); check_same("delivered", v, snap(t, b->p, static_cast<int>(k & 7)), 1, "content in a conversation"); }
}

// ------------------------------------------------------------------------------------------------ C10
namespace {
struct Job { int kind; const MsgOps* t; MsgVal v, extra; Bytes in; uint32_t cap; int64_t refuse; size_t avail; std::shared_ptr<Obj> shared; };
struct Result { std::vector<uint64_t> x; bool operator==(const Result& o) const { return x == o.x; } };
void put(Result& r, const Bytes& b) { uint64_t h = b.size(); for(uint8_t c : b) h = mix(h, c); r.x.push_back(h); }
// runs one job; everything in it is decided by the job alone, hook is called inside buffer operations
Result run_job(const Job& j, const std::function<void()>& hook) {
  Result r;
  switch(j.kind) {
    case 0: case 1: { // serialise own or shared message
      std::unique_ptr<Obj> own; const void* p; if(j.shared) p = j.shared->p; else { own.reset(new Obj(j.t)); build(j.t, own->p, j.v, 0); p = own->p; } SimWriter w; w.cap = j.cap; w.refuse_at = j.refuse; w.refuse_n = 1; w.hook = hook; int e = j.t->o.ser(p, w); r.x.push_back(static_cast<uint64_t>(e)); put(r, w.out); r.x.push_back(static_cast<uint64_t>(w.calls)); r.x.push_back(j.t->o.ssize(p)); r.x.push_back(hash_val(snap(j.t, p))); break; }
    case 2: { // parse
      Obj o(j.t); SimReader s(j.in); s.arrived = j.avail; s.hook = hook; int e = j.t->o.des(o.p, s); r.x.push_back(static_cast<uint64_t>(e)); r.x.push_back(s.pos); r.x.push_back(static_cast<uint64_t>(s.calls)); r.x.push_back(hash_val(snap(j.t, o.p))); break; }
    case 3: { // parse, change, copy, serialise
      Obj o(j.t); SimReader s(j.in); s.hook = hook; int e = j.t->o.des(o.p, s); r.x.push_back(static_cast<uint64_t>(e)); if(hook) hook(); build(j.t, o.p, j.extra, 0); if(hook) hook(); Obj c(j.t, o.p, 0); j.t->o.clear(o.p); r.x.push_back(hash_val(snap(j.t, o.p))); SimWriter w; w.hook = hook; e = j.t->o.ser(c.p, w); r.x.push_back(static_cast<uint64_t>(e)); put(r, w.out); r.x.push_back(hash_val(snap(j.t, c.p))); break; }
    case 5: { // the library's own buffers
      Obj o(j.t), b(j.t); build(j.t, o.p, j.v, 0); EP::WriteBufferFixedSize<600> w; EP::ReadBufferFixedSize<600> in; w.push(0x55); if(hook) hook(); int e = j.t->o.ser(o.p, w); r.x.push_back(static_cast<uint64_t>(e)); if(hook) hook(); put(r, Bytes(w.get_data(), w.get_data() + w.get_size()));
      for(uint32_t i = 1; i < w.get_size(); ++i) { r.x.push_back(in.push(w.get_data()[i])); if(hook && i % 8 == 0) hook(); } if(hook) hook(); e = j.t->o.des(b.p, in); r.x.push_back(static_cast<uint64_t>(e)); if(hook) hook(); r.x.push_back(in.get_size()); w.clear(); r.x.push_back(w.get_available_size()); r.x.push_back(hash_val(snap(j.t, b.p))); break; }
    default: { // nested in a view on a shared-size input
      Obj o(j.t); SimReader s(j.in); s.hook = hook; s.data.push_back(0xff); s.arrived = s.data.size(); EP::ReadBufferSection sec(s, static_cast<uint32_t>(j.in.size())); int e = j.t->o.des(o.p, sec); r.x.push_back(static_cast<uint64_t>(e)); r.x.push_back(s.pos); r.x.push_back(hash_val(snap(j.t, o.p))); put(r, serialize_ok(j.t, o.p, "serialise")); }
  }
  return r;
}
Job gen_job(const GenCfg& g, std::vector<std::shared_ptr<Obj>>& shared) {
  Job j; j.kind = static_cast<int>(pick(6)); j.t = pick_message(false); j.v = gen_msg(j.t, g); GenCfg g2 = g; g2.density = 30; j.extra = gen_msg(j.t, g2); j.cap = 0xffffffffu; j.refuse = -1; Bytes full = encode(j.v);
  if(j.kind == 1 && !shared.empty()) { j.shared = shared[pick(static_cast<uint32_t>(shared.size()))]; j.t = j.shared->t; } if(j.kind <= 1 && chance(1, 3)) { j.cap = pick(static_cast<uint32_t>(full.size()) + 1); count_fault("output_full"); } if(j.kind <= 1 && chance(1, 4)) { j.refuse = pick(12); }
  j.in = chance(1, 3) ? bad_frame(j.t, g) : gen_frame(j.v, true); j.avail = j.in.size(); if(chance(1, 4)) { j.avail = pick(static_cast<uint32_t>(j.in.size()) + 1); count_fault("input_cut"); } return j;
}
}
SCENARIO("C10", interleaved_tasks, 6) {
  GenCfg g = swarm_cfg(); g.maxlen = 40; uint32_t tasks = 2 + pick(3); std::vector<std::shared_ptr<Obj>> shared; uint32_t ns = pick(3); for(uint32_t i = 0; i < ns; ++i) { const MsgOps* t = pick_message(false); shared.emplace_back(new Obj(t)); build(t, shared.back()->p, gen_msg(t, g)); }
  std::vector<std::vector<Job>> jobs(tasks); std::vector<std::vector<Result>> solo(tasks), got(tasks); nontrivial();
  bool same_type = chance(1, 3); const MsgOps* t0 = nullptr;
  for(uint32_t i = 0; i < tasks; ++i) { uint32_t n = 1 + pick(2); for(uint32_t k = 0; k < n; ++k) { Job j = gen_job(g, shared); if(same_type && !j.shared) { if(!t0) t0 = j.t; else if(j.t != t0) { j.t = t0; j.v = gen_msg(t0, g); j.extra = gen_msg(t0, g); j.in = gen_frame(j.v, true); j.avail = j.in.size(); } } jobs[i].push_back(j); } }
  for(uint32_t i = 0; i < tasks; ++i) for(auto& j : jobs[i]) solo[i].push_back(run_job(j, nullptr));
  Sched s; uint32_t den = 1 + pick(4), fine = pick(3) ? 1 + pick(9) : 0;
  uint32_t left = 200; auto again = [&left, fine]() { if(left) { --left; block_preempt_after(1 + pick(1u << (1 + pick(fine)))); } };
  BlockHook bh([&]() { count_fault("preempted_between_instructions"); ev("preempted", static_cast<uint64_t>(current_task())); again(); yield_point("block"); }); if(fine) again();
  for(uint32_t i = 0; i < tasks; ++i) s.spawn("task", [&, i]() { for(auto& j : jobs[i]) { got[i].push_back(run_job(j, [den]() { if(chance(1, den)) { yield_point("buffer"); count_fault("preempted_in_buffer_call"); } })); yield_point("job"); } });
  s.run();
  for(uint32_t i = 0; i < tasks; ++i) for(size_t k = 0; k < jobs[i].size(); ++k) if(!(got[i][k] == solo[i][k])) { size_t q = 0; while(q < got[i][k].x.size() && q < solo[i][k].x.size() && got[i][k].x[q] == solo[i][k].x[q]) ++q; violation("interference", "task %u job %zu (kind %d on %s) gives another result when interleaved with other tasks (observation %zu: %llx alone, %llx interleaved)", i, k, jobs[i][k].kind, label_of(jobs[i][k].t), q, (unsigned long long)(q < solo[i][k].x.size() ? solo[i][k].x[q] : 0), (unsigned long long)(q < got[i][k].x.size() ? got[i][k].x[q] : 0)); }
}
SCENARIO("C10", interrupts, 4) { // an interrupt handler parses or serialises inside another call's buffer operation
  GenCfg g = swarm_cfg(); g.maxlen = 40; std::vector<std::shared_ptr<Obj>> shared; if(coin()) { const MsgOps* t = pick_message(false); shared.emplace_back(new Obj(t)); build(t, shared.back()->p, gen_msg(t, g)); } nontrivial();
  uint32_t n = 2 + pick(3); std::vector<Job> jobs; std::vector<Result> solo; for(uint32_t i = 0; i < n; ++i) jobs.push_back(gen_job(g, shared)); if(coin()) for(uint32_t i = 1; i < n; ++i) if(!jobs[i].shared && !jobs[0].shared) { jobs[i] = jobs[0]; jobs[i].v = gen_msg(jobs[0].t, g); jobs[i].in = gen_frame(jobs[i].v, false); jobs[i].avail = jobs[i].in.size(); } for(auto& j : jobs) solo.push_back(run_job(j, nullptr));
  uint32_t den = 1 + pick(10), depth = 0; int budget = 12; bool fine = coin();
  auto arm = [&]() { if(fine && budget > 0) block_preempt_after(1 + pick(1u << (1 + pick(11)))); };
  std::function<void(uint32_t)> level = [&](uint32_t d) { depth = d; arm(); Result r = run_job(jobs[d], [&, d]() { if(d + 1 < n && budget > 0 && chance(1, den)) { --budget; count_fault("interrupt_in_buffer_call"); ev("interrupt", d); level(d + 1); depth = d; } }); if(!(r == solo[d])) violation("interference", "job %u (kind %d on %s) gives another result when interrupted by others or run inside others", d, jobs[d].kind, label_of(jobs[d].t)); };
  BlockHook bh([&]() { uint32_t d = depth; if(d + 1 < n && budget > 0) { --budget; count_fault("interrupt_between_instructions"); ev("interrupt", d, 1); level(d + 1); depth = d; } arm(); });
  level(0);
}

// ------------------------------------------------------------------------------------------------ C15
static uint32_t wild_n(uint32_t around) { switch(pick(7)) { case 0: return around; case 1: return around + 1; case 2: return around ? around - 1 : 0; case 3: { static const uint32_t H[] = { 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0xffffff00u }; return H[pick(5)]; } case 4: return 0; default: return pick(around + 4); } }
SCENARIO("C15", fixed_input_buffer, 5) {
  uint32_t want = FIXED_SIZES[pick(7)]; std::unique_ptr<AnyReader> b = make_fixed_reader(want); Bytes stored; size_t rd = 0; uint32_t cap = b->cap, n = 6 + pick(60); uint8_t next = static_cast<uint8_t>(pick(256)); nontrivial(); RBI& r = b->r();
  for(uint32_t k = 0; k < n; ++k) {
    step(); uint32_t op = pick(9); ev("in", op); uint8_t x = 0x5a; size_t left = stored.size() - rd; LibScope l;
    switch(op) {
      case 0: case 1: { uint8_t v = next++; bool ok = b->push(v); REQUIRE(ok == (stored.size() < cap), "input-queue", "push into an input buffer holding %zu of %u bytes returned %d", stored.size(), cap, ok); if(ok) stored.push_back(v); else count_fault("push_when_full"); NOTE("push %02x -> %d", v, ok); break; }
      case 2: case 3: { bool ok = r.pop(x); NOTE("pop -> %d %02x", ok, x); REQUIRE(ok == (left > 0), "input-queue", "pop with %zu bytes left returned %d", left, ok); if(ok) { REQUIRE(x == stored[rd], "input-queue", "pop gave %02x, expected %02x", x, stored[rd]); ++rd; } else { count_fault("pop_when_empty"); REQUIRE(x == 0x5a, "input-queue", "a failed pop changed the output"); } break; }
      case 4: { bool ok = r.peek(x); NOTE("peek -> %d %02x", ok, x); REQUIRE(ok == (left > 0), "input-queue", "peek with %zu bytes left returned %d", left, ok); if(ok) REQUIRE(x == stored[rd], "input-queue", "peek gave %02x, expected %02x", x, stored[rd]); else REQUIRE(x == 0x5a, "input-queue", "a failed peek changed the output"); break; }
      case 5: { bool ok = r.advance(); REQUIRE(ok == (left > 0), "input-queue", "advance with %zu bytes left returned %d", left, ok); if(ok) ++rd; break; }
      case 6: { uint32_t m = wild_n(static_cast<uint32_t>(left)); bool ok = r.advance(m); NOTE("advance(%u) of %zu -> %d", m, left, ok); REQUIRE(ok == (m <= left), "input-queue", "advance(%u) with %zu bytes left returned %d", m, left, ok); if(ok) rd += m; else count_fault("advance_beyond_end"); break; }
      case 7: { if(coin()) break; b->clear(); stored.clear(); rd = 0; NOTE("clear"); if(coin()) { uint32_t m = wild_n(cap); uint32_t real = std::min(m, cap); for(uint32_t i = 0; i < real; ++i) b->data()[i] = static_cast<uint8_t>(next + i * 3); b->set_bytes_written(m); if(m > cap) count_fault("bulk_load_too_large"); for(uint32_t i = 0; i < real; ++i) stored.push_back(static_cast<uint8_t>(next + i * 3)); NOTE("bulk load %u", m); } break; }
      default: { // more bytes appended behind those already there
        if(stored.size() >= cap) break; uint32_t m = 1 + pick(static_cast<uint32_t>(cap - stored.size())); for(uint32_t i = 0; i < m; ++i) { b->data()[stored.size()] = next; stored.push_back(next++); } b->set_bytes_written(static_cast<uint32_t>(stored.size())); NOTE("bulk append %u", m); break; }
    }
    left = stored.size() - rd; REQUIRE(r.get_size() == left, "input-queue", "the input buffer reports %u bytes, %zu are left of %zu", r.get_size(), left, stored.size()); REQUIRE(r.get_max_size() == cap, "input-queue", "maximum %u of %u", r.get_max_size(), cap);
  }
  uint8_t x; { LibScope l; while(rd < stored.size()) { REQUIRE(r.pop(x) && x == stored[rd], "input-queue", "draining: byte %zu of %zu", rd, stored.size()); ++rd; } REQUIRE(!r.pop(x), "input-queue", "more bytes come out than went in"); }
}
SCENARIO("C15", fixed_output_buffer, 4) {
  uint32_t want = FIXED_SIZES[pick(7)]; std::unique_ptr<AnyWriter> b = make_fixed_writer(want); uint32_t cap = b->cap, n = 6 + pick(50); Bytes m; WBI& w = b->w(); nontrivial(); uint8_t next = static_cast<uint8_t>(pick(256));
  for(uint32_t k = 0; k < n; ++k) {
    step(); uint32_t op = pick(6); ev("out", op); uint32_t room = cap - static_cast<uint32_t>(m.size()); bool ok;
    switch(op) {
      case 0: case 1: { uint8_t v = next++; { LibScope l; ok = w.push(v); } REQUIRE(ok == (room > 0), "output-queue", "push with %u bytes of room returned %d", room, ok); if(ok) m.push_back(v); else count_fault("push_when_full"); break; }
      case 2: case 3: { uint32_t len = wild_n(room); uint32_t real = std::min(len, cap + 8); std::unique_ptr<uint8_t[]> d(new uint8_t[real ? real : 1]); for(uint32_t i = 0; i < real; ++i) d[i] = static_cast<uint8_t>(next + i); if(len > real && room >= real) break; { LibScope l; ok = w.push(d.get(), len); } NOTE("block %u, room %u -> %d", len, room, ok); REQUIRE(ok == (len <= room), "output-queue", "a block of %u bytes with %u bytes of room returned %d", len, room, ok); if(ok) m.insert(m.end(), d.get(), d.get() + len); else count_fault("block_too_large"); break; }
      case 4: if(chance(1, 3)) { LibScope l; w.clear(); m.clear(); } break;
      default: break;
    }
    REQUIRE(w.get_size() == m.size() && w.get_available_size() == cap - m.size() && w.get_max_size() == cap, "output-queue", "the output buffer reports size %u room %u maximum %u; it holds %zu of %u", w.get_size(), w.get_available_size(), w.get_max_size(), m.size(), cap); REQUIRE(m.empty() || 0 == memcmp(b->data(), m.data(), m.size()), "output-queue", "the output buffer holds other bytes than were pushed");
  }
}
SCENARIO("C15", bounded_views, 5) { // views on views on an input that is being filled
  Bytes d(20 + pick(60)); for(size_t i = 0; i < d.size(); ++i) d[i] = static_cast<uint8_t>(i * 37 + 11); bool fixed = coin(); SimReader sim(d); std::unique_ptr<AnyReader> fr; RBI* base = &sim; nontrivial(); if(fixed) { fr = make_fixed_reader(static_cast<uint32_t>(d.size())); memcpy(fr->data(), d.data(), d.size()); fr->set_bytes_written(static_cast<uint32_t>(d.size())); base = &fr->r(); }
  // levels: views with remaining counts; reading at the innermost level takes from all
  std::vector<std::unique_ptr<EP::ReadBufferSection>> v; std::vector<uint32_t> rem; size_t pos = 0; rem.push_back(static_cast<uint32_t>(d.size())); std::vector<uint32_t> maxs; uint32_t n = 10 + pick(60);
  auto top = [&]() -> RBI& { return v.empty() ? *base : static_cast<RBI&>(*v.back()); };
  auto take = [&](uint32_t m) { pos += m; for(auto& q : rem) q -= m; };
  for(uint32_t k = 0; k < n; ++k) {
    step(); uint32_t op = pick(8); ev("view", op, v.size()); uint32_t left = rem.back(); uint8_t x = 0x5a; RBI& r = top();
    switch(op) {
      case 0: if(v.size() < 4) { uint32_t s = wild_n(left); LibScope l; v.emplace_back(new EP::ReadBufferSection(r, s)); rem.push_back(std::min(s, left)); maxs.push_back(std::min(s, left)); NOTE("view of %u on %u left", s, left); if(s > left) count_fault("view_larger_than_input"); } break;
      case 1: if(!v.empty()) { v.pop_back(); rem.pop_back(); maxs.pop_back(); NOTE("view dropped"); } break;
      case 2: case 3: { bool ok; { LibScope l; ok = r.pop(x); } REQUIRE(ok == (left > 0), "view", "pop on a view with %u bytes left returned %d", left, ok); if(ok) { REQUIRE(x == d[pos], "view", "pop gave %02x, expected %02x", x, d[pos]); take(1); } else { REQUIRE(x == 0x5a, "view", "a failed pop changed the output"); count_fault("pop_when_empty"); } break; }
      case 4: { bool ok; { LibScope l; ok = r.peek(x); } REQUIRE(ok == (left > 0), "view", "peek on a view with %u bytes left returned %d", left, ok); if(ok) REQUIRE(x == d[pos], "view", "peek gave %02x, expected %02x", x, d[pos]); else REQUIRE(x == 0x5a, "view", "a failed peek changed the output"); break; }
      case 5: { bool ok; { LibScope l; ok = r.advance(); } REQUIRE(ok == (left > 0), "view", "advance on a view with %u bytes left returned %d", left, ok); if(ok) take(1); break; }
      case 6: { uint32_t m = wild_n(left); bool ok; { LibScope l; ok = r.advance(m); } NOTE("advance(%u) with %u left -> %d", m, left, ok); REQUIRE(ok == (m <= left), "view", "advance(%u) on a view with %u bytes left returned %d", m, left, ok); if(ok) take(m); else { count_fault("advance_beyond_end"); // a refused skip may leave the view at its position or at its end
            uint32_t now; { LibScope l; now = r.get_size(); } REQUIRE(now == left || now == 0, "view", "a refused advance(%u) left %u of %u bytes", m, now, left); if(now == 0 && left) take(left); } break; }
      default: { LibScope l; REQUIRE(v.empty() || v.back()->get_max_size() == maxs.back(), "view", "a view reports maximum %u, expected %u", v.empty() ? 0 : v.back()->get_max_size(), v.empty() ? 0 : maxs.back()); }
    }
    for(size_t q = 0; q < v.size(); ++q) REQUIRE(v[q]->get_size() == rem[q + 1], "view", "a view reports %u bytes, %u are left", v[q]->get_size(), rem[q + 1]); REQUIRE(base->get_size() == rem[0], "view", "the input behind the views has %u bytes left, expected %u", base->get_size(), rem[0]);
  }
}
SCENARIO("C15", view_on_stalling_input, 4) { // the input behind the view runs dry, or others read from it too; the view never delivers more than its bound nor invents bytes, and says when nothing is there
  Bytes d(10 + pick(60)); for(size_t i = 0; i < d.size(); ++i) d[i] = static_cast<uint8_t>(i * 37 + 11); SimReader s(d); s.arrived = pick(static_cast<uint32_t>(d.size()) + 1); if(coin()) s.announced = d.size(); uint32_t bound = s.announced ? wild_n(static_cast<uint32_t>(d.size())) : pick(static_cast<uint32_t>(s.arrived) + 8); uint32_t den = 2 + pick(9); s.arrive = [&](SimReader& r) { if(r.arrived < r.data.size() && chance(1, den)) ++r.arrived; }; bool shared = coin(); nontrivial(); count_fault("input_arrives_late");
  std::unique_ptr<EP::ReadBufferSection> outer; if(chance(1, 3)) { LibScope l; outer.reset(new EP::ReadBufferSection(s, wild_n(static_cast<uint32_t>(s.announced ? s.announced : s.arrived)))); } RBI& in = outer ? static_cast<RBI&>(*outer) : s;
  EP::ReadBufferSection v(in, bound); size_t got = 0, others = 0, missing = 0; uint32_t n = 5 + pick(80), most; { LibScope l; most = v.get_size(); } REQUIRE(most <= bound, "view", "a view of %u bytes reports %u", bound, most);
  for(uint32_t k = 0; k < n; ++k) {
    step(); uint8_t x = 0x5a; bool ok; uint32_t left, behind; { LibScope l; left = v.get_size(); behind = in.get_size(); } size_t before = s.pos; bool sure = left > 0 && behind > 0 && before < s.arrived; uint32_t op = pick(6); ev("late", op);
    switch(op) {
      case 0: case 1: { LibScope l; ok = v.pop(x); } if(ok) { REQUIRE(x == d[before], "view", "pop gave %02x, expected %02x", x, d[before]); ++got; } else REQUIRE(x == 0x5a, "view", "a failed pop changed the output"); break;
      case 2: { LibScope l; ok = v.peek(x); } if(ok) REQUIRE(x == d[before], "view", "peek gave %02x, expected %02x", x, d[before]); else REQUIRE(x == 0x5a, "view", "a failed peek changed the output"); REQUIRE(s.pos == before && v.get_size() == left, "view", "peeking took a byte"); break;
      case 3: { LibScope l; ok = v.advance(); } if(ok) ++got; break;
      case 4: { uint32_t m = left ? 1 + pick(left) : 0; ok = false; if(!m) { sure = false; break; } if(before + m > s.arrived || m > behind) sure = false; { LibScope l; ok = v.advance(m); } if(ok) { REQUIRE(s.pos == before + m, "view", "advance(%u) took %zu bytes and reported success", m, s.pos - before); got += m; } else missing += s.pos - before; break; }
      default: { ok = false; sure = false; if(!shared) break; uint8_t y; LibScope l; if(s.pop(y)) { ++others; count_fault("input_shared"); } }
    }
    NOTE("op %u, %u left in the view, %zu of %zu arrived, at %zu -> %d", op, left, s.arrived, d.size(), before, ok);
    if(op <= 3) { REQUIRE(ok || !sure, "view", "%s on a view with %u bytes left and %zu available failed", op == 2 ? "peek" : op == 3 ? "advance" : "pop", left, s.arrived - before); REQUIRE(!ok || (left > 0 && before < s.arrived), "view", "%s on a view with %u bytes left reported a byte, %zu are available behind it", op == 2 ? "peek" : op == 3 ? "advance" : "pop", left, s.arrived - before); }
    else if(op == 4) REQUIRE(ok || !sure, "view", "a skip within the %u bytes left failed", left);
    REQUIRE(s.pos == got + others + missing, "view", "a view reported %zu bytes, %zu were taken from the input", got, s.pos - others); REQUIRE(got + missing <= most, "view", "a view of %u bytes delivered %zu", most, got); uint32_t now; { LibScope l; now = v.get_size(); } REQUIRE(now <= left && now + got + missing <= most, "view", "a view of %u bytes that delivered %zu reports %u left", most, got, now);
  }
}
SCENARIO("C15", producer_consumer, 4) { // an interrupt fills the input buffer while a task reads it, byte by byte
  uint32_t cap = FIXED_SIZES[2 + pick(5)]; std::unique_ptr<AnyReader> b = make_fixed_reader(cap); cap = b->cap; Bytes in, out; uint32_t total = 1 + pick(2 * cap + 2); nontrivial(); Sched s; uint32_t refused = 0; bool done = false;
  s.spawn("producer", [&]() { for(uint32_t i = 0; i < total; ++i) { uint8_t x = static_cast<uint8_t>(i * 29 + 3); if(b->push(x)) in.push_back(x); else { ++refused; count_fault("push_when_full"); } if(chance(2, 3)) yield_point("isr"); } done = true; });
  s.spawn("consumer", [&]() { for(;;) { uint8_t x = 0; bool ok; switch(pick(3)) { case 0: { { LibScope l; ok = b->r().pop(x); } if(ok) out.push_back(x); break; } case 1: { { LibScope l; ok = b->r().peek(x) && b->r().advance(); } if(ok) out.push_back(x); break; } default: { uint32_t m = b->r().get_size(); if(m) { m = 1 + pick(m); Bytes part; { LibScope l; for(uint32_t i = 0; i < m; ++i) { REQUIRE(b->r().pop(x), "input-queue", "the buffer says %u bytes are there and delivers %u", m, i); part.push_back(x); } } out.insert(out.end(), part.begin(), part.end()); } } } if(done && b->r().get_size() == 0) return; yield_point("task"); } });
  s.run(); REQUIRE(out == in, "input-queue", "%zu bytes went in, %zu came out%s", in.size(), out.size(), out.size() == in.size() ? " with other values" : ""); REQUIRE(in.size() == std::min(total, cap) && refused == total - in.size(), "input-queue", "%zu of %u bytes accepted by a buffer of %u", in.size(), total, cap);
}
SCENARIO("C15", size_counter, 1) {
  EP::MessageSizeCalculator c; uint64_t m = 0; uint32_t n = 3 + pick(30); nontrivial(); uint8_t z[64] = {};
  for(uint32_t k = 0; k < n; ++k) { step(); LibScope l; switch(pick(4)) { case 0: REQUIRE(c.push(1), "counter", "refused"); ++m; break; case 1: { uint32_t q = pick(65); REQUIRE(c.push(z, q), "counter", "refused"); m += q; break; } case 2: if(chance(1, 4)) { c.clear(); m = 0; } break; default: break; } REQUIRE(c.get_size() == m, "counter", "the size counter says %u, %llu bytes were pushed", c.get_size(), (unsigned long long)m); }
}

// ------------------------------------------------------------------------------------------------ C17
// content of a under the schema of type t: common fields by number, kinds must agree
static void project(const MsgVal& a, MsgVal& out) {
  for(uint32_t i = 0; i < out.t->nfields; ++i) {
    const FieldOps& fo = out.t->fields[i]; const FieldOps* af = nullptr; uint32_t ai = 0; for(uint32_t k = 0; k < a.t->nfields; ++k) if(a.t->fields[k].num == fo.num) { af = &a.t->fields[k]; ai = k; } if(!af) continue; const FVal& f = a.f[ai];
    if(af->card == C_ONEOF) { if(a.which[af->oneof] != af->num) continue; set_which(out, fo.oneof, fo.num); }
    FVal& o = out.f[i]; o.has = f.has; if(fo.kind == K_MSG) { if(fo.card == C_REP) { o.m.clear(); for(auto& x : f.m) { MsgVal y(fo.msg()); project(x, y); o.m.push_back(y); } } else { MsgVal y(fo.msg()); project(f.m[0], y); o.m[0] = y; } } else { o.s = f.s; o.b = f.b; o.rs = f.rs; o.rb = f.rb; }
  }
}
static const char* const REP[] = { "ve.ReportV1", "ve.ReportV2", "ve.ReportV3" };
SCENARIO("C17", mixed_fleet, 6) { // devices with three firmware versions exchange reports and are up- and downgraded
  GenCfg g = swarm_cfg(); uint32_t nd = 2 + pick(3), n = 3 + pick(10); std::vector<uint32_t> ver(nd); for(auto& x : ver) x = pick(3); std::vector<ObjP> box(nd); nontrivial();
  for(uint32_t k = 0; k < n; ++k) {
    if(chance(1, 4)) { uint32_t d = pick(nd), nv = pick(3); if(nv != ver[d]) { ver[d] = nv; box[d].reset(); count_fault(nv > ver[d] ? "firmware_upgraded" : "firmware_changed"); NOTE("device %u now runs version %u", d, nv + 1); } }
    uint32_t a = pick(nd), b = pick(nd); const MsgOps* ta = msg_by_name(REP[ver[a]]); const MsgOps* tb = msg_by_name(REP[ver[b]]); MsgVal v = gen_msg(ta, g); ObjP o = obj_of(v, g); Bytes w = serialize_ok(ta, o->p, "send"); if(coin()) { EncCfg ec = swarm_enc(false); ec.longvar = false; w = encode_varied(v, ec); } ev_bytes("report", w.data(), w.size()); NOTE("device %u (v%u) to %u (v%u): %s", a, ver[a] + 1, b, ver[b] + 1, hex(w, 100).c_str()); if(ver[a] != ver[b]) count_fault("version_skew");
    { Obj q(ta); int e = parse(ta, q.p, w); REQUIRE(e == E_OK, "control", "own version"); check_same("control", v, snap(ta, q.p), 1, "own version"); } // the sender's own version understands it
    box[b].reset(new Obj(tb)); Parsed r = parse_with(tb->o, box[b]->p, w, pick(RK_N)); REQUIRE(r.err == E_OK, "skew", "version %u refuses a report of version %u: %s: %s", ver[b] + 1, ver[a] + 1, errname(r.err), hex(w, 96).c_str()); MsgVal want(tb); project(v, want); check_same("skew", want, snap(tb, box[b]->p), 1, "common fields of a report of another version");
    if(chance(1, 3)) { // forwarded to a third device
      uint32_t c = pick(nd); const MsgOps* tc = msg_by_name(REP[ver[c]]); Bytes w2 = serialize_ok(tb, box[b]->p, "send"); ObjP q(new Obj(tc)); REQUIRE(parse(tc, q->p, w2, pick(RK_N)) == E_OK, "skew", "a forwarded report is refused"); MsgVal w3(tc); project(want, w3); check_same("skew", w3, snap(tc, q->p), 1, "common fields of a forwarded report"); }
  }
}
SCENARIO("C17", unknown_anywhere, 6) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); EncCfg e; e.unknown = 20 + pick(50); e.shuffle = coin(); Bytes b = encode_varied(v, e); nontrivial(); ev_bytes("frame", b.data(), b.size()); NOTE("%s %s", label_of(t), hex(b, 200).c_str()); ObjP o(new Obj(t)), p(new Obj(t)); { EncCfg e0 = e; e0.unknown = 0; Bytes plain = e.shuffle ? encode(v) : encode_varied(v, e0); int k = parse(t, p->p, plain); REQUIRE(k == E_OK, "control", "without unknown fields"); check_same("control", v, snap(t, p->p), 1, "without unknown fields"); t->o.clear(p->p); }
  Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); REQUIRE(r.err == E_OK, "unknown", "%s with unknown fields: %s: %s", label_of(t), errname(r.err), hex(b, 120).c_str()); check_same("unknown", v, snap(t, o->p), 0, "known fields between unknown ones");
  count_fault("unknown_fields_injected"); Bytes plain = encode(v); REQUIRE(parse(t, p->p, plain, pick(RK_N)) == E_OK, "unknown", "plain frame refused"); check_same("unknown", snap(t, p->p), snap(t, o->p), 1, "with and without unknown fields");
}
// a receiver in use: unknown fields must not disturb what it already holds
SCENARIO("C17", unknown_only, 2) {
  GenCfg g = swarm_cfg(); const MsgOps* t = pick_message(); MsgVal v = gen_msg(t, g); ObjP o = obj_of(v, g); Bytes b; uint32_t n = 1 + pick(6); for(uint32_t k = 0; k < n; ++k) { Bytes u = unknown_field(t); b.insert(b.end(), u.begin(), u.end()); } nontrivial(); ev_bytes("frame", b.data(), b.size()); count_fault("unknown_fields_injected"); Parsed r = parse_with(t->o, o->p, b, pick(RK_N)); REQUIRE(r.err == E_OK && r.consumed == b.size(), "unknown", "%s: only unknown fields: %s after %zu of %zu bytes: %s", label_of(t), errname(r.err), r.consumed, b.size(), hex(b, 120).c_str()); check_same("unknown", v, snap(t, o->p), 0, "content after only unknown fields"); }
