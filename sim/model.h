// Reference model: contents as plain values, an independent encoder and decoder, and the glue that builds and
// observes the real objects through their public calls.
#ifndef SIM_MODEL_H
#define SIM_MODEL_H
#include "sim.h"

struct MsgVal;
struct FVal {
  bool has = false;                 // optional and oneof members
  uint64_t s = 0;
  std::string b;
  std::vector<uint64_t> rs;
  std::vector<std::string> rb;
  std::vector<MsgVal> m;            // one for a singular message, n for repeated ones
};
struct MsgVal {
  const MsgOps* t = nullptr;
  std::vector<FVal> f;
  std::vector<uint32_t> which;
  MsgVal() {}
  explicit MsgVal(const MsgOps* ops);
  FVal* by_num(uint32_t n, const FieldOps** fo = nullptr);
};

// all registered messages
const std::vector<const MsgOps*>& all_messages();
const char* label_of(const MsgOps*);
const MsgOps* msg_by_name(const char* name);        // label or, without capacities, the first of that name
bool is_heavy(const MsgOps*);
const MsgOps* pick_message(bool allow_heavy = true);
const std::vector<const MsgOps*>& drawn_messages();   // those of the schema drawn for this build
inline bool is_scalar(Kind k) { return k < K_STRING; }
inline bool is_strk(Kind k) { return k == K_STRING || k == K_BYTES; }
inline bool is64(Kind k) { return k == K_INT64 || k == K_UINT64 || k == K_SINT64 || k == K_FIXED64 || k == K_SFIXED64 || k == K_DOUBLE; }
int wiretype(Kind k);

// ---- content generation
struct GenCfg { uint32_t density = 50; uint32_t style = 0; bool utf8 = false; uint32_t maxlen = 0xffffffff; bool alnum = false; bool finite = false; };
GenCfg swarm_cfg();                                 // a configuration drawn for this run
uint64_t gen_scalar(Kind k, const GenCfg& c);
std::string gen_str(uint32_t cap, Kind k, const GenCfg& c);
uint32_t gen_len(uint32_t cap, const GenCfg& c);
MsgVal gen_msg(const MsgOps* t, const GenCfg& c, int depth = 0);

// ---- comparison. mode bit 0: the sign of a negative zero without explicit presence may be lost
bool same(const MsgVal& a, const MsgVal& b, std::string* why, int mode = 0);
bool same_field(const FieldOps& fo, const FVal& a, const FVal& b, const std::string& path, std::string* why, int mode = 0);
bool is_default(const MsgVal& a);
std::string show(const MsgVal& v, size_t max = 600);
uint64_t hash_val(const MsgVal& v);
void set_which(MsgVal& v, int oneof, uint32_t num); // switch, resetting the others

// ---- real objects
struct Obj {                                        // one message object in its own block of dirty memory
  const MsgOps* t; char* mem; void* p; bool alive;
  explicit Obj(const MsgOps* ops);                  // default constructed
  Obj(const MsgOps* ops, const void* src, int how, void* movable = nullptr);  // copy (0) or move (1) constructed
  ~Obj();
  Obj(const Obj&) = delete; Obj& operator=(const Obj&) = delete;
  void destroy();
private: void alloc();
};
struct Raw_ {                                       // any Field object in an exactly sized block of dirty memory
  const ObjOps* o; char* mem; void* p; uint32_t n;
  Raw_(const ObjOps* ops, uint32_t n = 1); Raw_(const ObjOps* ops, const void* copy_of); ~Raw_();
  void* at(uint32_t i) { return static_cast<char*>(p) + i * o->size; }
  Raw_(const Raw_&) = delete; Raw_& operator=(const Raw_&) = delete;
};
typedef std::unique_ptr<Obj> ObjP;
void dirty(void* p, size_t n);
MsgVal snap(const MsgOps* t, const void* obj, int how = 0);   // through getters; checks lengths against capacities
FVal snap_field(const FieldOps& fo, const void* obj, int how = 0);
void build(const MsgOps* t, void* obj, const MsgVal& v, int vary = 1);  // sets every set field, through varied calls
void put_str(const StrOps* so, void* s, const std::string& b, int vary = 1);
void reset_field(const FieldOps& fo, FVal& v);
void put_elem(const ElemOps* e, void* elem, const FieldOps& fo, const FVal& v, size_t i);
void check_same(const char* cls, const MsgVal& want, const MsgVal& got, int mode, const char* what);
void check_default_beyond(const char* cls, const MsgOps* t, const void* obj); // unused slots show no old data

// ---- reference encoder
struct EncCfg { bool shuffle = false, dup = false, split_msg = false, split_packed = false, longvar = false, explicit_default = false; uint32_t unknown = 0; };
Bytes encode(const MsgVal& v);                      // the library's own canonical form, fields in declared order, oneofs last not required
Bytes encode_varied(const MsgVal& v, const EncCfg& c, int depth = 0);
uint32_t canonical_size(const MsgVal& v);
void put_varint(Bytes& o, uint64_t v, int extra = 0, int maxb = 10);
void put_tag(Bytes& o, uint32_t num, int wt, int extra = 0);
void put_scalar(Bytes& o, Kind k, uint64_t s, int extra = 0, bool peer = false);
// one number or tag at a position; 0 or the acceptable errors
uint32_t read_number(const Bytes& b, size_t& at, Kind k, uint64_t& v, uint32_t& may);
uint32_t read_tag(const Bytes& b, size_t& at, uint32_t& num, int& wt, uint32_t& may);
Bytes unknown_field(const MsgOps* t, int depth = 0);    // a random well-formed field this type does not know

// ---- reference decoder: merges into v, as the protobuf rules say
struct Dec {
  uint32_t may = 0;                 // acceptable errors besides the final outcome (bit per error)
  uint32_t fin = 0;                 // final outcome: bit(E_OK) or acceptable errors
  uint32_t accepted() const { return may | fin; }
  bool ok() const { return (fin & 1u) != 0; }
  int fail_oneof_depth = -1;
  size_t boundary = 0;              // end of the last complete top level field
};
Dec decode(MsgVal& v, const uint8_t* p, size_t n);
// ends of complete top level fields (including 0 and n when complete)
std::vector<size_t> boundaries(const uint8_t* p, size_t n);

// ---- buffers at the seam
struct Seam {                                       // what happens inside a buffer call besides the call itself
  std::function<void()> hook;                       // another task or an interrupt runs here
};
struct SimWriter : WBI {
  Bytes out; uint32_t cap = 0xffffffffu; uint32_t base = 0; // base: room taken by earlier data
  std::function<void()> hook;
  // momentary refusal: the n-th push call (0 based) is refused; from then for_n calls
  int64_t refuse_at = -1; int64_t refuse_n = 0; bool hide_room = false; // hide_room: available size shows the shortage
  int64_t calls = 0, refused = 0, single_after = 0, block_after = 0, min_avail = -1; size_t at_refusal = 0; size_t offered_bytes = 0;
  std::function<uint32_t()> drain;                  // bytes taken away at each call
  uint32_t taken = 0;
  void clear() override; uint32_t get_size() const override; uint32_t get_max_size() const override; uint32_t get_available_size() const override;
  bool push(const uint8_t byte) override; bool push(const uint8_t* bytes, const uint32_t length) override;
private: bool room(uint32_t n, bool block); uint32_t avail() const;
};
struct SimReader : RBI {
  Bytes data; size_t pos = 0; size_t arrived; size_t start_avail; bool adv_to_end = false;
  std::function<void()> hook; std::function<void(SimReader&)> arrive; // called at each call, may increase arrived
  int64_t calls = 0, refused = 0, taken_after_refusal = 0; size_t max_pos = 0; uint64_t max_calls = 0; uint32_t maxsize = 0xffffffffu; size_t announced = 0; // announced: an input that knows how much will come reports that, not what has arrived
  explicit SimReader(const Bytes& d) : data(d), arrived(d.size()), start_avail(d.size()) {}
  uint32_t get_size() const override; uint32_t get_max_size() const override; bool peek(uint8_t& byte) const override; bool advance() override; bool advance(const uint32_t n) override; bool pop(uint8_t& byte) override;
private: void tick() const; void took(size_t n);
};
// factories for the real fixed size buffers of several capacities
struct AnyWriter { virtual ~AnyWriter() {} virtual WBI& w() = 0; virtual uint8_t* data() = 0; uint32_t cap = 0; };
struct AnyReader { virtual ~AnyReader() {} virtual RBI& r() = 0; virtual uint8_t* data() = 0; virtual void set_bytes_written(uint32_t n) = 0; virtual void clear() = 0; virtual bool push(uint8_t b) = 0; uint32_t cap = 0; };
extern const uint32_t FIXED_SIZES[]; extern const uint32_t N_FIXED_SIZES;
std::unique_ptr<AnyWriter> make_fixed_writer(uint32_t at_least); // smallest with that capacity, null when none
std::unique_ptr<AnyReader> make_fixed_reader(uint32_t at_least);
Bytes serialize_ok(const MsgOps* t, const void* obj, const char* cls);
#endif
