// Shared pieces of the scenarios.
#ifndef SIM_UTIL_H
#define SIM_UTIL_H
#include "model.h"
#include "ReadBufferFixedSize.h"
#include "ReadBufferSection.h"
#include "WriteBufferFixedSize.h"
#include "MessageSizeCalculator.h"

// how bytes reach the parser
enum ReaderKind { RK_SIM, RK_FIXED_BULK, RK_FIXED_PUSH, RK_SIM_ADV, RK_SECTION, RK_N };
struct Parsed { int err; size_t consumed; bool consumed_known; int64_t refused, after; };
Parsed parse_with(const ObjOps& o, void* obj, const Bytes& b, uint32_t kind, uint64_t max_calls = 0);
inline int parse(const MsgOps* t, void* obj, const Bytes& b, uint32_t kind = RK_SIM) { return parse_with(t->o, obj, b, kind).err; }

EncCfg swarm_enc(bool unknown);
Bytes gen_frame(const MsgVal& v, bool unknown);           // some legal encoding of v
Bytes damage(Bytes b, const MsgOps* t, uint32_t times);   // flipped bits, lost, repeated, inserted, swapped, retyped bytes
Bytes hostile(const MsgOps* t);                           // fields with lengths and numbers at the extremes
Bytes bad_frame(const MsgOps* t, const GenCfg& c);        // a frame that very likely fails: cut, damaged, too long or hostile
ObjP default_obj(const MsgOps* t, const GenCfg& c);       // default content, reached in various ways
ObjP obj_of(const MsgVal& v, const GenCfg& c);            // given content, reached in various ways
void check_err(const char* cls, const Dec& d, int e, const Bytes& b, const MsgOps* t, const char* what);
// what an observer sees of a message, for comparing runs: text of everything incl. bytes
uint64_t fingerprint(const MsgOps* t, const void* obj);
struct Expect { Dec d; MsgVal v; };
inline Expect expect(const MsgVal& before, const Bytes& b) { Expect x; x.v = before; x.d = decode(x.v, b.data(), b.size()); return x; }
// one of the named messages, or a message of the drawn schema with such a field: o(neof) p(resence) c(ontainer) n(ested)
const MsgOps* pick_of(const char* const* names, uint32_t n, char kind);
template<size_t N> const MsgOps* pick_of(const char* const (&names)[N], char kind) { return pick_of(names, N, kind); }

// history engine: any number of message objects with their models
struct Slot { ObjP o; MsgVal v; };
struct HistCfg {
  uint32_t w_field = 30, w_copy = 4, w_move = 2, w_clear = 2, w_parse = 3, w_bad = 2, w_ser = 2, w_over = 3, w_new = 1, w_shrink = 0;
  bool check_stale = false; bool tight = false; // tight: judge oneofs after failed parses
  const char* cls = "history";
};
void history(const MsgOps* t, const GenCfg& g, const HistCfg& h, uint32_t nops);
void field_op(MsgVal& v, void* obj, const FieldOps& fo, FVal& f, const GenCfg& g, const HistCfg& h, int depth);
#endif
