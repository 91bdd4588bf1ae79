// Function tables through which the simulator uses the generated messages of /repo.
// Only public calls of the library and of generated code are used. This header must stay C++11: the adapter
// translation units are compiled under every language standard the library supports.
#ifndef SIM_ADAPT_H
#define SIM_ADAPT_H

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <new>
#include <type_traits>
#include <utility>

#include "Errors.h"
#include "Fields.h"
#include "MessageInterface.h"
#include "FieldStringBytes.h"
#include "RepeatedFieldFixedSize.h"
#include "WriteBufferInterface.h"
#include "ReadBufferInterface.h"

namespace EP = ::EmbeddedProto;
typedef EP::WriteBufferInterface WBI;
typedef EP::ReadBufferInterface RBI;

// > 0 while library code runs; switched off again while a simulated buffer or other seam runs.
extern int g_in_lib;
struct LibScope { LibScope() { ++g_in_lib; } ~LibScope() { --g_in_lib; } };
struct SimScope { int s; SimScope() : s(g_in_lib) { g_in_lib = 0; } ~SimScope() { g_in_lib = s; } };

enum Kind { K_INT32, K_INT64, K_UINT32, K_UINT64, K_SINT32, K_SINT64, K_BOOL, K_ENUM, K_FIXED64, K_SFIXED64,
            K_DOUBLE, K_FIXED32, K_SFIXED32, K_FLOAT, K_STRING, K_BYTES, K_MSG };
enum Card { C_SING, C_OPT, C_REP, C_ONEOF };

struct MsgOps;

// Raw representation of scalars: 32 bit types zero extended, floating point as its bits.
template<class T> struct Raw {
  static uint64_t to(T v) { return static_cast<uint64_t>(static_cast<typename std::make_unsigned<T>::type>(v)); }
  static T from(uint64_t r) { return static_cast<T>(r); }
};
template<> struct Raw<bool> { static uint64_t to(bool v) { return v ? 1 : 0; } static bool from(uint64_t r) { return r != 0; } };
template<> struct Raw<float> {
  static uint64_t to(float v) { uint32_t r; memcpy(&r, &v, 4); return r; }
  static float from(uint64_t r) { uint32_t x = static_cast<uint32_t>(r); float v; memcpy(&v, &x, 4); return v; } };
template<> struct Raw<double> {
  static uint64_t to(double v) { uint64_t r; memcpy(&r, &v, 8); return r; }
  static double from(uint64_t r) { double v; memcpy(&v, &r, 8); return v; } };
template<class T, bool E> struct RawSel { typedef Raw<T> type; };
template<class T> struct RawEnum {
  static uint64_t to(T v) { return static_cast<uint32_t>(v); }
  static T from(uint64_t r) { return static_cast<T>(static_cast<uint32_t>(r)); } };
template<class T> struct RawSel<T, true> { typedef RawEnum<T> type; };
template<class T> struct RawOf : RawSel<typename std::decay<T>::type, std::is_enum<typename std::decay<T>::type>::value>::type {};
template<class T> inline uint64_t toraw(const T& v) { return RawOf<T>::to(v); }

// Operations every Field object has.
struct ObjOps {
  size_t size, align;
  void (*construct)(void*);
  void (*destroy)(void*);
  void (*copy)(void* uninit, const void* src);
  void (*assign)(void*, const void* src);
  void (*clear)(void*);
  int (*ser)(const void*, WBI&);
  int (*ser_id)(const void*, uint32_t num, WBI&, bool opt);
  int (*des)(void*, RBI&);
  int (*des_ct)(void*, RBI&, int wt);
  uint32_t (*ssize)(const void*);
};

struct StrOps {
  ObjOps o;
  uint32_t max;
  bool is_string;
  uint32_t (*length)(const void*);
  uint32_t (*max_length)(const void*);
  const uint8_t* (*data)(const void*);
  int (*set)(void*, const uint8_t*, uint32_t);
  void (*set_cstr)(void*, const char*, int how);                 // strings: set(const char*) or = const char*
  uint8_t* (*get)(void*, uint32_t, int how);                     // get(i) or [i], grows
  const uint8_t* (*get_const)(const void*, uint32_t, int how);   // address of the byte
  int (*get_checked)(const void*, uint32_t, uint8_t*);
  int (*set_other)(void*, const uint8_t*, uint32_t n, int which, int how); // from an object of other capacity: -1 n/a
};

struct ElemOps {
  ObjOps o;
  Kind kind;                     // only to tell scalar/string/msg apart: K_UINT32 stands for any scalar
  const StrOps* str;
  const MsgOps* (*msg)();
  uint64_t (*get)(const void*);
  void (*set)(void*, uint64_t, int how);
};

struct RepOps {
  ObjOps o;
  uint32_t max;
  const ElemOps* elem;
  uint32_t (*length)(const void*);
  uint32_t (*max_length)(const void*);
  uint32_t (*get_size)(const void*);
  uint32_t (*get_max_size)(const void*);
  void* (*get)(void*, uint32_t, int how);
  const void* (*get_const)(const void*, uint32_t, int how);
  const void* (*base)(const void*);                              // first element
  int (*get_checked)(const void*, uint32_t, void* out);
  void (*set)(void*, uint32_t, const void* elem);
  int (*set_data)(void*, const void* elems, uint32_t n);
  int (*add)(void*, const void* elem);
  void (*from_half)(void* uninit, const void* src, int how);     // through an object of half the capacity
};

struct FieldOps {
  const char* name;
  uint32_t num;
  Kind kind;
  Card card;
  int oneof;                     // index of the oneof or -1
  const StrOps* str;             // singular or element
  const MsgOps* (*msg)();
  const RepOps* rep;
  bool (*has)(const void*);
  void (*clear)(void*);
  // scalars
  uint64_t (*sget)(const void*, int how);
  void (*sset)(void*, uint64_t, int how);                        // 0 const&, 1 &&, 2 through mutable_
  uint64_t (*smut)(void*);                                       // mutable_x(), value read; null when there is none
  // objects: string, bytes, message, whole repeated field
  void* (*mut)(void*);
  const void* (*cget)(const void*, int how);
  const uint8_t* (*cptr)(const void*);                           // x() of strings and bytes
  void (*oset)(void*, const void*, int how);
  // repeated
  const void* (*ridx)(const void*, uint32_t);
  void* (*rmut)(void*, uint32_t);
  void (*rset)(void*, uint32_t, const void* elem, int how);
  void (*radd)(void*, const void* elem);
};

struct MsgOps {
  const char* name;              // full proto name
  const char* label;             // with capacities
  ObjOps o;
  void (*move)(void* uninit, void* src);
  void (*move_assign)(void*, void* src);
  uint32_t nfields;
  const FieldOps* fields;
  uint32_t noneofs;
  uint32_t (*const* which)(const void*);
  const char* (*num_name)(uint32_t);
  // text: returns room left; end receives the continuation pointer
  uint32_t (*to_string)(const void*, char* buf, uint32_t size, char** end);
  const uint32_t* caps;          // per field: elements and string length as configured, 0 when there is none
};

template<class M> struct Desc;   // specialised by the generated adapters: static const MsgOps* ops()

template<class T> struct ObjFns {
  static void construct(void* p) { LibScope l; new (p) T; }
  static void destroy(void* p) { LibScope l; static_cast<T*>(p)->~T(); }
  static void copy(void* p, const void* s) { LibScope l; new (p) T(*static_cast<const T*>(s)); }
  static void assign(void* p, const void* s) { LibScope l; *static_cast<T*>(p) = *static_cast<const T*>(s); }
  static void clear(void* p) { LibScope l; static_cast<T*>(p)->clear(); }
  static int ser(const void* p, WBI& b) { LibScope l; return static_cast<int>(static_cast<const T*>(p)->serialize(b)); }
  static int ser_id(const void* p, uint32_t n, WBI& b, bool o) { LibScope l; return static_cast<int>(static_cast<const T*>(p)->serialize_with_id(n, b, o)); }
  static int des(void* p, RBI& b) { LibScope l; return static_cast<int>(static_cast<T*>(p)->deserialize(b)); }
  static int des_ct(void* p, RBI& b, int wt) { LibScope l; return static_cast<int>(static_cast<T*>(p)->deserialize_check_type(b, static_cast<EP::WireFormatter::WireType>(wt))); }
  static uint32_t ssize(const void* p) { LibScope l; return static_cast<const T*>(p)->serialized_size(); }
  static void move(void* p, void* s) { LibScope l; new (p) T(std::move(*static_cast<T*>(s))); }
  static void move_assign(void* p, void* s) { LibScope l; *static_cast<T*>(p) = std::move(*static_cast<T*>(s)); }
};
#define OBJ_OPS(T) { sizeof(T), alignof(T), &ObjFns<T>::construct, &ObjFns<T>::destroy, &ObjFns<T>::copy, &ObjFns<T>::assign, \
  &ObjFns<T>::clear, &ObjFns<T>::ser, &ObjFns<T>::ser_id, &ObjFns<T>::des, &ObjFns<T>::des_ct, &ObjFns<T>::ssize }

template<class S> struct StrCstr {  // bytes: no c strings
  static void set(void*, const char*, int) {}
};
template<uint32_t N> struct StrCstr<EP::FieldString<N> > {
  static void set(void* p, const char* s, int how) { LibScope l; EP::FieldString<N>& f = *static_cast<EP::FieldString<N>*>(p); if(how) f = s; else f.set(s); }
};
template<class S> struct StrTraits;
template<uint32_t N> struct StrTraits<EP::FieldString<N> > { typedef char C; static const bool is_string = true; static const uint32_t max = N;
  typedef EP::FieldString<3> O0; typedef EP::FieldString<40> O1; typedef EP::FieldString<260> O2; };
template<uint32_t N> struct StrTraits<EP::FieldBytes<N> > { typedef uint8_t C; static const bool is_string = false; static const uint32_t max = N;
  typedef EP::FieldBytes<3> O0; typedef EP::FieldBytes<40> O1; typedef EP::FieldBytes<260> O2; };

template<class S> struct StrFns {
  typedef typename StrTraits<S>::C C;
  static const S& c(const void* p) { return *static_cast<const S*>(p); }
  static S& m(void* p) { return *static_cast<S*>(p); }
  static uint32_t length(const void* p) { LibScope l; return c(p).get_length(); }
  static uint32_t max_length(const void* p) { LibScope l; return c(p).get_max_length(); }
  static const uint8_t* data(const void* p) { LibScope l; return reinterpret_cast<const uint8_t*>(c(p).get_const()); }
  static int set(void* p, const uint8_t* d, uint32_t n) { LibScope l; return static_cast<int>(m(p).set(reinterpret_cast<const C*>(d), n)); }
  static uint8_t* get(void* p, uint32_t i, int how) { LibScope l; C& r = how ? m(p)[i] : m(p).get(i); return reinterpret_cast<uint8_t*>(&r); }
  static const uint8_t* get_const(const void* p, uint32_t i, int how) { LibScope l; const C& r = how ? c(p)[i] : c(p).get_const(i); return reinterpret_cast<const uint8_t*>(&r); }
  static int get_checked(const void* p, uint32_t i, uint8_t* o) { LibScope l; return static_cast<int>(c(p).get_const(i, *reinterpret_cast<C*>(o))); }
  template<class O> static int other(void* p, const uint8_t* d, uint32_t n, int how) {
    LibScope l;
    O o;
    if(EP::Error::NO_ERRORS != o.set(reinterpret_cast<const C*>(d), n)) return -1;
    if(how) { m(p) = o; return -2; }
    return static_cast<int>(m(p).set(o));
  }
  static int set_other(void* p, const uint8_t* d, uint32_t n, int which, int how) {
    switch(which) { case 0: return other<typename StrTraits<S>::O0>(p, d, n, how); case 1: return other<typename StrTraits<S>::O1>(p, d, n, how);
      default: return other<typename StrTraits<S>::O2>(p, d, n, how); }
  }
};
template<class S> struct StrOpsFor { static const StrOps* ops() {
  static const StrOps s = { OBJ_OPS(S), StrTraits<S>::max, StrTraits<S>::is_string, &StrFns<S>::length, &StrFns<S>::max_length, &StrFns<S>::data, &StrFns<S>::set,
    &StrCstr<S>::set, &StrFns<S>::get, &StrFns<S>::get_const, &StrFns<S>::get_checked, &StrFns<S>::set_other };
  return &s; } };

// Elements of repeated fields.
template<class E> struct ElemOpsFor {            // messages
  static const ElemOps* ops() { static const ElemOps e = { OBJ_OPS(E), K_MSG, nullptr, &Desc<E>::ops, nullptr, nullptr }; return &e; } };
template<EP::Field::FieldTypes F, class V, EP::WireFormatter::WireType W> struct ElemOpsFor<EP::FieldTemplate<F, V, W> > {
  typedef EP::FieldTemplate<F, V, W> E;
  static uint64_t get(const void* p) { LibScope l; return toraw(static_cast<const E*>(p)->get()); }
  static void set(void* p, uint64_t v, int how) { LibScope l; E& e = *static_cast<E*>(p); V x = RawOf<V>::from(v);
    switch(how) { case 0: e = x; break; case 1: e.set(x); break; case 2: e.get() = x; break; default: e = E(x); break; } }
  static const ElemOps* ops() { static const ElemOps e = { OBJ_OPS(E), K_UINT32, nullptr, nullptr, &get, &set }; return &e; } };
template<uint32_t N> struct ElemOpsFor<EP::FieldString<N> > { typedef EP::FieldString<N> E;
  static const ElemOps* ops() { static const ElemOps e = { OBJ_OPS(E), K_STRING, StrOpsFor<E>::ops(), nullptr, nullptr, nullptr }; return &e; } };
template<uint32_t N> struct ElemOpsFor<EP::FieldBytes<N> > { typedef EP::FieldBytes<N> E;
  static const ElemOps* ops() { static const ElemOps e = { OBJ_OPS(E), K_BYTES, StrOpsFor<E>::ops(), nullptr, nullptr, nullptr }; return &e; } };

template<class R> struct RepOpsFor;
template<class E, uint32_t N, bool BIG> struct HalfFn {
  static void from_half(void* p, const void* s, int how) {
    typedef EP::RepeatedFieldFixedSize<E, N> R; typedef EP::RepeatedFieldFixedSize<E, (N / 2)> H;
    LibScope l; const R& src = *static_cast<const R*>(s); H h;
    for(uint32_t i = 0; (i < src.get_length()) && (i < N / 2); ++i) h.add(src.get_const(i));
    if(how) new (p) R(std::move(h)); else new (p) R(h);
  } };
template<class E, uint32_t N> struct HalfFn<E, N, false> {
  static void from_half(void* p, const void* s, int) { typedef EP::RepeatedFieldFixedSize<E, N> R; LibScope l; new (p) R(*static_cast<const R*>(s)); } };
template<class E, uint32_t N> struct RepOpsFor<EP::RepeatedFieldFixedSize<E, N> > {
  typedef EP::RepeatedFieldFixedSize<E, N> R;
  typedef E Elem;
  static const R& c(const void* p) { return *static_cast<const R*>(p); }
  static R& m(void* p) { return *static_cast<R*>(p); }
  static uint32_t length(const void* p) { LibScope l; return c(p).get_length(); }
  static uint32_t max_length(const void* p) { LibScope l; return c(p).get_max_length(); }
  static uint32_t get_size(const void* p) { LibScope l; return c(p).get_size(); }
  static uint32_t get_max_size(const void* p) { LibScope l; return c(p).get_max_size(); }
  static void* get(void* p, uint32_t i, int how) { LibScope l; E& e = how ? m(p)[i] : m(p).get(i); return &e; }
  static const void* get_const(const void* p, uint32_t i, int how) { LibScope l; const E& e = (how == 0) ? c(p).get_const(i) : (how == 1) ? c(p)[i] : c(p).get_data_const()[i]; return &e; }
  static const void* base(const void* p) { LibScope l; return c(p).get_data_const().data(); }
  static int get_checked(const void* p, uint32_t i, void* o) { LibScope l; return static_cast<int>(c(p).get_const(i, *static_cast<E*>(o))); }
  static void set(void* p, uint32_t i, const void* e) { LibScope l; m(p).set(i, *static_cast<const E*>(e)); }
  static int set_data(void* p, const void* e, uint32_t n) { LibScope l; return static_cast<int>(m(p).set_data(static_cast<const E*>(e), n)); }
  static int add(void* p, const void* e) { LibScope l; return static_cast<int>(m(p).add(*static_cast<const E*>(e))); }
  static const RepOps* ops() { static const RepOps r = { OBJ_OPS(R), N, ElemOpsFor<E>::ops(), &length, &max_length, &get_size, &get_max_size, &get, &get_const, &base,
      &get_checked, &set, &set_data, &add, &HalfFn<E, N, (N > 1)>::from_half }; return &r; }
};

#define DECAY_GET(x) typename std::decay<decltype(std::declval<const M&>().get_##x())>::type
#define CM static_cast<const M*>(m)
#define MM static_cast<M*>(m)
#define HAS_(x) [](const void* m) -> bool { LibScope l; return CM->has_##x(); }
#define CLR_(x) [](void* m) { LibScope l; MM->clear_##x(); }
#define SGET_(x) [](const void* m, int how) -> uint64_t { LibScope l; return how ? toraw(CM->x()) : toraw(CM->get_##x()); }
#define SSET_(x) [](void* m, uint64_t v, int how) { LibScope l; const DECAY_GET(x) t = RawOf<DECAY_GET(x)>::from(v); if(how == 0) MM->set_##x(t); else MM->set_##x(RawOf<DECAY_GET(x)>::from(v)); }
#define SSETM_(x) [](void* m, uint64_t v, int how) { LibScope l; const DECAY_GET(x) t = RawOf<DECAY_GET(x)>::from(v); if(how == 0) MM->set_##x(t); else if(how == 1) MM->set_##x(RawOf<DECAY_GET(x)>::from(v)); else MM->mutable_##x() = t; }
#define SMUT_(x) [](void* m) -> uint64_t { LibScope l; return toraw(MM->mutable_##x()); }
#define MUT_(x) [](void* m) -> void* { LibScope l; return &MM->mutable_##x(); }
#define CGETS_(x) [](const void* m, int) -> const void* { LibScope l; return &CM->get_##x(); }
#define CGET_(x) [](const void* m, int how) -> const void* { LibScope l; return how ? &CM->x() : &CM->get_##x(); }
#define CPTR_(x) [](const void* m) -> const uint8_t* { LibScope l; return reinterpret_cast<const uint8_t*>(CM->x()); }
#define OSET1_(x) [](void* m, const void* o, int) { LibScope l; MM->set_##x(*static_cast<const DECAY_GET(x)*>(o)); }
#define OSET2_(x) [](void* m, const void* o, int how) { LibScope l; const DECAY_GET(x)& t = *static_cast<const DECAY_GET(x)*>(o); if(how == 0) MM->set_##x(t); else MM->set_##x(std::move(t)); }
#define NO nullptr

// has: HAS_(x) or NO; smut: SMUT_(x) or NO
#define F_SCALAR(x, num, kind, card, of, has) { #x, num, kind, card, of, NO, NO, NO, has, CLR_(x), SGET_(x), SSETM_(x), SMUT_(x), NO, NO, NO, NO, NO, NO, NO, NO }
#define F_SCALAR_NM(x, num, kind, card, of, has) { #x, num, kind, card, of, NO, NO, NO, has, CLR_(x), SGET_(x), SSET_(x), NO, NO, NO, NO, NO, NO, NO, NO, NO }
#define F_STR(x, num, kind, card, of, has) { #x, num, kind, card, of, StrOpsFor<DECAY_GET(x)>::ops(), NO, NO, has, CLR_(x), NO, NO, NO, MUT_(x), CGETS_(x), CPTR_(x), OSET1_(x), NO, NO, NO, NO }
#define F_MSG(x, num, kind, card, of, has) { #x, num, kind, card, of, NO, &Desc<DECAY_GET(x)>::ops, NO, has, CLR_(x), NO, NO, NO, MUT_(x), CGET_(x), NO, OSET2_(x), NO, NO, NO, NO }
#define ELEM_(x) typename RepOpsFor<DECAY_GET(x)>::Elem
#define F_REP(x, num, kind, strp, msgp) { #x, num, kind, C_REP, -1, strp, msgp, RepOpsFor<DECAY_GET(x)>::ops(), NO, CLR_(x), NO, NO, NO, MUT_(x), CGET_(x), NO, OSET1_(x), \
  [](const void* m, uint32_t i) -> const void* { LibScope l; return &CM->x(i); }, \
  [](void* m, uint32_t i) -> void* { LibScope l; return &MM->mutable_##x(i); }, \
  [](void* m, uint32_t i, const void* e, int how) { LibScope l; const ELEM_(x)& t = *static_cast<const ELEM_(x)*>(e); if(how == 0) MM->set_##x(i, t); else MM->set_##x(i, std::move(t)); }, \
  [](void* m, const void* e) { LibScope l; MM->add_##x(*static_cast<const ELEM_(x)*>(e)); } }
#define F_REP_S(x, num, kind) F_REP(x, num, kind, NO, NO)
#define F_REP_STR(x, num, kind) F_REP(x, num, kind, StrOpsFor<ELEM_(x)>::ops(), NO)
#define F_REP_MSG(x, num, kind) F_REP(x, num, kind, NO, &Desc<ELEM_(x)>::ops)

#ifdef MSG_TO_STRING
#define TO_STRING_ [](const void* m, char* buf, uint32_t size, char** end) -> uint32_t { LibScope l; EP::string_view v{buf, size}; EP::string_view r = CM->to_string(v); *end = r.data; return r.size; }
#else
#define TO_STRING_ nullptr
#endif

#endif
