// Deterministic simulator core: one list of choices decides one run exactly.
#ifndef SIM_SIM_H
#define SIM_SIM_H

#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>

#include "adapt.h"

typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------------------------------------------------------
// Choices. Every decision of a run (workload, content, schedule, fault) is one call of pick(). Zero is always the
// simplest alternative: minimisation deletes choices and lowers their values, and a replay answers zero after the
// end of its list.
uint32_t pick(uint32_t n);                          // 0 .. n-1
uint64_t pick64();
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }  // inclusive
inline bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; }   // false is simplest
inline bool coin() { return pick(2) == 1; }
void weighted_reset();
// index chosen with weights; entry 0 is the simplest
uint32_t pickw(const uint32_t* w, uint32_t n);
template<size_t N> uint32_t pickw(const uint32_t (&w)[N]) { return pickw(w, N); }

// ---------------------------------------------------------------------------------------------------------------
// The history of a run: hashed always, printed on replay.
extern bool g_verbose;
void ev_(const char* tag, uint64_t a, uint64_t b);
inline void ev(const char* tag, uint64_t a = 0, uint64_t b = 0) { ev_(tag, a, b); }
void ev_bytes(const char* tag, const uint8_t* p, size_t n);
void note_(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define NOTE(...) do { if(g_verbose) { SimScope s_; note_(__VA_ARGS__); } } while(0)

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define REQUIRE(c, cls, ...) do { if(!(c)) violation(cls, __VA_ARGS__); } while(0)

// Counters: injected faults and reached conditions, summed over all runs.
void count_fault(const char* kind, uint64_t n = 1);
void count_probe(const char* name, uint64_t n = 1);
void count_stat(const char* name, uint64_t n);
void step();                                        // one scheduler or seam operation; bounded per run
extern uint64_t g_steps;
extern uint64_t g_now;                              // simulated microseconds
void nontrivial();                                  // this run exercised what its property is about

// ---------------------------------------------------------------------------------------------------------------
// Tasks as fibers of one thread. The simulator alone decides who runs.
struct Sched {
  struct Task;
  std::vector<std::unique_ptr<Task>> tasks;
  Sched(); ~Sched();
  int spawn(const char* name, std::function<void()> fn);
  void run();                                       // until all tasks ended
  uint64_t switches;
};
void yield_point(const char* where);                // may switch to another task of the running Sched
void block_until(std::function<bool()> cond);       // task waits
int current_task();
// Basic blocks executed inside library code (the code under test is compiled with -fsanitize-coverage=trace-pc): the
// measure of its work, and the places where it can be preempted.
extern uint64_t g_blocks, g_block_limit, g_block_preempt, g_block_stop;
extern std::function<void()> g_block_hook;
void block_preempt_after(uint32_t n);               // the hook runs once, n blocks from now
void block_bound(uint64_t limit);
struct BlockLimit { uint64_t old; explicit BlockLimit(uint64_t n) : old(g_block_limit) { block_bound(std::min(old, g_blocks + n)); } ~BlockLimit() { block_bound(old); } };
struct BlockHook { explicit BlockHook(std::function<void()> h) { g_block_hook = std::move(h); } ~BlockHook(); };
void run_on_fresh_stack(std::function<void()> fn);  // stack filled with a fixed pattern first

// ---------------------------------------------------------------------------------------------------------------
typedef void (*ScenarioFn)();
struct Scenario { const char* prop; const char* name; ScenarioFn fn; uint32_t weight; };
void add_scenario(const char* prop, const char* name, ScenarioFn fn, uint32_t weight = 1);
#define SCENARIO(prop, name, weight) static void name(); \
  static struct name##_reg { name##_reg() { add_scenario(prop, #name, &name, weight); } } name##_reg_; static void name()

extern bool g_forbid_heap;                          // a heap request inside library code is a violation
extern bool g_thorough;
extern const char* g_prop;

std::string hex(const uint8_t* p, size_t n, size_t max = 64);
inline std::string hex(const Bytes& b, size_t max = 64) { return hex(b.data(), b.size(), max); }
const char* errname(int e);
uint64_t mix(uint64_t a, uint64_t b);
struct Prng { uint64_t s; explicit Prng(uint64_t x) : s(x) {} uint64_t next(); uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>(next() % n) : static_cast<uint32_t>(next()); } };

enum { E_OK = 0, E_END = 1, E_FULL = 2, E_WT = 3, E_ARR = 4, E_ID = 5, E_LONG = 6, E_IDX = 7 };

#endif
