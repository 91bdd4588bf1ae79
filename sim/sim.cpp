#include "sim.h"
#include <csignal>
#include <ctime>
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/personality.h>
#include <map>
#include <set>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

int g_in_lib = 0;
bool g_verbose = false;
bool g_forbid_heap = false;
bool g_thorough = false;
const char* g_prop = "";
uint64_t g_steps = 0, g_now = 0;

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; return x;
}
uint64_t Prng::next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// ---------------------------------------------------------------------------------------------------------------
// Memory shared between the process that runs simulations and its supervisor; it survives a crash of the former.
static const uint32_t MAX_CHOICES = 1u << 20, MAX_CTR = 512, MAX_RUNS = 1u << 12;
struct Counter { char name[56]; uint64_t n; };
struct Shared {
  uint32_t state;                  // 0 idle, 1 running, 2 ended well, 3 violation
  uint64_t run;                    // index of the current run
  uint64_t hash;
  uint32_t nontriv;
  uint32_t nchoices;
  char cls[96];
  char msg[1600];
  uint64_t runs_done, steps, nontrivial, sim_us, choices;
  uint32_t nctr;
  Counter ctr[MAX_CTR];
  uint32_t nsig; uint64_t sig[MAX_RUNS]; uint8_t sig_nt[MAX_RUNS];
  uint32_t choice[MAX_CHOICES];
};
static Shared* S = nullptr;
static bool g_replaying = false;
static std::vector<uint32_t> g_list; static size_t g_pos = 0;
static Prng g_rng(1);
static FILE* g_trace = nullptr;

uint32_t pick(uint32_t n) {
  uint32_t v;
  if(g_replaying) { v = (g_pos < g_list.size()) ? g_list[g_pos] : 0; ++g_pos; }
  else v = static_cast<uint32_t>(g_rng.next() >> 17);
  if(n) v %= n;
  if(S->nchoices >= MAX_CHOICES) violation("harness-choice-limit", "a run needs more than %u choices", MAX_CHOICES);
  S->choice[S->nchoices++] = v;
  return v;
}
uint64_t pick64() { uint64_t hi = pick(0); return (hi << 32) | pick(0); }
uint32_t pickw(const uint32_t* w, uint32_t n) {
  uint32_t t = 0; for(uint32_t i = 0; i < n; ++i) t += w[i];
  uint32_t v = pick(t ? t : 1); for(uint32_t i = 0; i < n; ++i) { if(v < w[i]) return i; v -= w[i]; } return 0;
}
void ev_(const char* tag, uint64_t a, uint64_t b) {
  uint64_t h = S->hash; for(const char* p = tag; *p; ++p) h = (h ^ static_cast<uint8_t>(*p)) * 0x100000001B3ull;
  S->hash = mix(mix(h, a), b);
  if(g_trace) { fprintf(g_trace, "%llu us  %s %llu %llu\n", (unsigned long long)g_now, tag, (unsigned long long)a, (unsigned long long)b); }
}
void ev_bytes(const char* tag, const uint8_t* p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull; for(size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001B3ull;
  ev_(tag, n, h);
}
void note_(const char* fmt, ...) {
  if(!g_trace) return;
  va_list ap; va_start(ap, fmt); fprintf(g_trace, "%llu us  ", (unsigned long long)g_now); vfprintf(g_trace, fmt, ap); fputc('\n', g_trace); va_end(ap);
}
// Deviations that belong to another property end the run without a verdict: its own check reports them.
struct Foreign {};
static bool is_foreign(const char* cls) {
  static const struct { const char* prop; const char* cls; } T[] = {
    { "C05", " delivery " }, { "C08", " parse history wire same-bytes serialise stale truncated fresh " }, { "C11", " model " }, { "C12", " parse serialise wire " },
    { "C13", " history fresh set-refused oversize checked-get capacity " }, { "C14", " history serialise set-refused oversize checked-get capacity " },
    { "C17", " control " }, { "C20", " parse history wire same-bytes serialise set-refused oversize checked-get capacity " }, { "C21", " control " } };
  if(0 == strcmp(g_prop, "C09")) return strcmp(cls, "heap-use") != 0 && strncmp(cls, "harness", 7) != 0 && strcmp(cls, "hang") != 0;
  std::string k = std::string(" ") + cls + " "; for(auto& t : T) if(0 == strcmp(t.prop, g_prop) && strstr(t.cls, k.c_str())) return true; return false;
}
void violation(const char* cls, const char* fmt, ...) {
  bool in_seam = g_in_lib != 0; g_in_lib = 0; g_forbid_heap = false;
  if(!in_seam && is_foreign(cls)) { ev_("foreign", 0, 0); count_probe((std::string("deviation_of_another_property:") + cls).c_str()); if(g_trace) fprintf(g_trace, "deviation outside this property: %s\n", cls); throw Foreign(); }
  va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  ev_("violation", 0, 0);
  if(g_trace) { fprintf(g_trace, "VIOLATION %s: %s\n", cls, S->msg); fflush(g_trace); }
  S->state = 3;
  _exit(3);
}
static void count_(char pre, const char* name, uint64_t n) {
  for(uint32_t i = 0; i < S->nctr; ++i) if(S->ctr[i].name[0] == pre && 0 == strcmp(S->ctr[i].name + 1, name)) { S->ctr[i].n += n; return; }
  if(S->nctr < MAX_CTR) { Counter& c = S->ctr[S->nctr]; c.name[0] = pre; snprintf(c.name + 1, sizeof c.name - 1, "%s", name); c.n = n; ++S->nctr; }
}
void count_fault(const char* k, uint64_t n) { SimScope s; count_('F', k, n); ev_(k, n, 1); }
void count_probe(const char* k, uint64_t n) { SimScope s; count_('P', k, n); }
void count_stat(const char* k, uint64_t n) { SimScope s; count_('S', k, n); }
void nontrivial() { S->nontriv = 1; }
static const uint64_t MAX_BLOCKS = 400000000;
uint64_t g_blocks = 0, g_block_limit = ~0ull, g_block_preempt = ~0ull, g_block_stop = ~0ull;
std::function<void()> g_block_hook;
static uint64_t g_block_run_start = 0;
void block_bound(uint64_t limit) { g_block_limit = limit; g_block_stop = std::min(g_block_limit, g_block_preempt); }
void block_preempt_after(uint32_t n) { g_block_preempt = g_blocks + n; g_block_stop = std::min(g_block_limit, g_block_preempt); }
BlockHook::~BlockHook() { g_block_hook = nullptr; g_block_preempt = ~0ull; block_bound(g_block_limit); }
static void block_event() {
  SimScope s;
  if(g_blocks >= g_block_limit) { uint64_t n = g_blocks - g_block_run_start; violation(n >= MAX_BLOCKS ? "hang" : "unbounded-work", "no end within the bound on the work of this call (%llu basic blocks executed in library code so far)", (unsigned long long)n); }
  if(g_blocks >= g_block_preempt) { g_block_preempt = ~0ull; block_bound(g_block_limit); if(g_block_hook) g_block_hook(); }
}
extern "C" void __sanitizer_cov_trace_pc() { if(g_in_lib <= 0) return; if(++g_blocks >= g_block_stop) block_event(); }
static const uint64_t MAX_STEPS = 8000000;
void step() { if(++g_steps > MAX_STEPS) violation("hang", "no end after %llu seam operations", (unsigned long long)MAX_STEPS); }

std::string hex(const uint8_t* p, size_t n, size_t max) {
  static const char* d = "0123456789abcdef"; std::string s;
  for(size_t i = 0; i < n && i < max; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  if(n > max) s += "..(" + std::to_string(n) + ")"; return s;
}
const char* errname(int e) {
  static const char* n[] = { "NO_ERRORS", "END_OF_BUFFER", "BUFFER_FULL", "INVALID_WIRETYPE", "ARRAY_FULL", "INVALID_FIELD_ID", "OVERLONG_VARINT", "INDEX_OUT_OF_BOUND" };
  return (e >= 0 && e < 8) ? n[e] : "?";
}

// ---------------------------------------------------------------------------------------------------------------
// Heap seam.
static void heap_request(size_t n, const char* what) {
  if(g_in_lib > 0 && g_forbid_heap) { violation("heap-use", "library code requested %zu bytes of heap memory (%s)", n, what); }
}
void* operator new(size_t n) { heap_request(n, "operator new"); void* p = malloc(n ? n : 1); if(!p) abort(); return p; }
void* operator new[](size_t n) { heap_request(n, "operator new[]"); void* p = malloc(n ? n : 1); if(!p) abort(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { heap_request(n, "operator new"); return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { heap_request(n, "operator new[]"); return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { heap_request(n, "operator new"); void* p = nullptr; if(posix_memalign(&p, std::max<size_t>(static_cast<size_t>(a), sizeof(void*)), n ? n : 1)) abort(); return p; }
void* operator new[](size_t n, std::align_val_t a) { heap_request(n, "operator new[]"); void* p = nullptr; if(posix_memalign(&p, std::max<size_t>(static_cast<size_t>(a), sizeof(void*)), n ? n : 1)) abort(); return p; }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { heap_request(n, "malloc"); return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { heap_request(a * b, "calloc"); return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { heap_request(n, "realloc"); return __real_realloc(p, n); }
}

// ---------------------------------------------------------------------------------------------------------------
// Fibers.
struct Fiber {
  ucontext_t ctx; char* stack = nullptr; size_t size = 0; std::function<void()> fn; bool done = false; int saved_in_lib = 0;
  const void* bottom = nullptr; size_t bsize = 0; void* fake = nullptr;
};
static const size_t STACK = 1u << 20;
static std::vector<char*> g_stacks;
static char* get_stack(bool fill) {
  char* p;
  if(!g_stacks.empty()) { p = g_stacks.back(); g_stacks.pop_back(); }
  else { p = static_cast<char*>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if(p == MAP_FAILED) abort(); mprotect(p, 4096, PROT_NONE); p += 4096; }
#ifdef SIM_ASAN
  // the previous user of the stack may have ended in the middle of a frame
  extern void __asan_unpoison_memory_region(void const volatile*, size_t) asm("__asan_unpoison_memory_region");
  __asan_unpoison_memory_region(p, STACK);
#endif
  if(fill) memset(p + STACK - (192u << 10), 0xA5, 192u << 10);
  return p;
}
static Fiber g_main; static Fiber* g_cur = &g_main;
static void switch_to(Fiber* to) {
  Fiber* from = g_cur; from->saved_in_lib = g_in_lib; g_cur = to;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(from->done ? nullptr : &from->fake, to->bottom, to->bsize);
#endif
  swapcontext(&from->ctx, &to->ctx);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(from->fake, nullptr, nullptr);
#endif
  g_cur = from; g_in_lib = from->saved_in_lib;
}
static Fiber* g_parent_of_new = nullptr;
static void fiber_entry() {
  Fiber* f = g_cur;
#ifdef SIM_ASAN
  const void* b; size_t s; __sanitizer_finish_switch_fiber(nullptr, &b, &s);
  if(g_parent_of_new && !g_parent_of_new->bottom) { g_parent_of_new->bottom = b; g_parent_of_new->bsize = s; }
#endif
  g_in_lib = 0;
  try { f->fn(); } catch(const Foreign&) { }
  f->done = true;
  extern Fiber* fiber_next_after_end(Fiber*);
  switch_to(fiber_next_after_end(f));
  abort();
}
static void fiber_init(Fiber* f, std::function<void()> fn, bool fill) {
  f->fn = std::move(fn); f->stack = get_stack(fill); f->size = STACK; f->bottom = f->stack; f->bsize = STACK;
  getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, fiber_entry, 0);
}
struct Sched::Task { std::string name; Fiber f; std::function<bool()> wait; Fiber* home; };
static Sched* g_sched = nullptr; static int g_task = -1; static Fiber* g_sched_home = nullptr;
static Fiber* g_fresh_home = nullptr;
Fiber* fiber_next_after_end(Fiber* f) {
  if(g_sched) for(auto& t : g_sched->tasks) if(&t->f == f) return t->home;
  return g_fresh_home;
}
Sched::Sched() : switches(0) {}
Sched::~Sched() { for(auto& t : tasks) if(t->f.stack) g_stacks.push_back(t->f.stack); }
int Sched::spawn(const char* name, std::function<void()> fn) {
  tasks.emplace_back(new Task); Task& t = *tasks.back(); t.name = name; fiber_init(&t.f, std::move(fn), false); return static_cast<int>(tasks.size()) - 1;
}
void Sched::run() {
  Sched* outer = g_sched; int outer_task = g_task; Fiber* outer_home = g_sched_home; g_sched = this; g_sched_home = g_cur;
  for(auto& t : tasks) t->home = g_cur;
  int last = -1;
  for(;;) {
    std::vector<int> ready; bool any = false;
    for(size_t i = 0; i < tasks.size(); ++i) if(!tasks[i]->f.done) { any = true; if(!tasks[i]->wait || tasks[i]->wait()) ready.push_back(static_cast<int>(i)); }
    if(!any) break;
    if(ready.empty()) violation("harness-deadlock", "all simulated tasks wait");
    step();
    int next = ready[pick(static_cast<uint32_t>(ready.size()))];
    if(next != last) { ++switches; last = next; }
    ev_("run", static_cast<uint64_t>(next), 0);
    tasks[next]->wait = nullptr; g_task = next; g_parent_of_new = g_cur;
    switch_to(&tasks[next]->f);
    g_task = -1;
  }
  count_stat("task_switches", switches);
  g_sched = outer; g_task = outer_task; g_sched_home = outer_home;
}
int current_task() { return g_task; }
void yield_point(const char*) {
  if(!g_sched || g_task < 0) return;
  int me = g_task; Sched::Task& t = *g_sched->tasks[me];
  switch_to(t.home);
  g_task = me;
}
void block_until(std::function<bool()> cond) {
  if(cond()) return;
  int me = g_task; Sched::Task& t = *g_sched->tasks[me]; t.wait = std::move(cond); switch_to(t.home); g_task = me;
}
void run_on_fresh_stack(std::function<void()> fn) {
  Fiber f; Fiber* home = g_cur; Fiber* oh = g_fresh_home; g_fresh_home = home; fiber_init(&f, std::move(fn), true); g_parent_of_new = home;
  switch_to(&f);
  g_fresh_home = oh; g_stacks.push_back(f.stack);
}

// ---------------------------------------------------------------------------------------------------------------
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
void add_scenario(const char* p, const char* n, ScenarioFn f, uint32_t w) { scenarios().push_back(Scenario{p, n, f, w}); }
static std::vector<Scenario> mine; static uint32_t total_w = 0;

static void run_body() {
  uint32_t v = pick(total_w); const Scenario* sc = &mine[0];
  for(auto& m : mine) { if(v < m.weight) { sc = &m; break; } v -= m.weight; }
  ev_(sc->name, 0, 0);
  { std::string nm = std::string("scenario:") + sc->name; count_stat(nm.c_str(), 1); }
  sc->fn();
}
static void arm_timer(int sec) { itimerval t = {{0, 0}, {sec, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
static void on_timer(int) {
  if(S->state == 1) { snprintf(S->cls, sizeof S->cls, "hang"); snprintf(S->msg, sizeof S->msg, "a call did not return within the processor time limit"); S->state = 3; }
  _exit(3);
}
static uint64_t run_seed(uint64_t seed, const char* prop, uint64_t idx) { uint64_t h = mix(seed, 0x51); for(const char* p = prop; *p; ++p) h = mix(h, static_cast<uint8_t>(*p)); return mix(h, idx); }
// One run in this process. Returns only when it ended well.
static void one_run(uint64_t idx) {
  S->run = idx; S->hash = 0x1234; S->nchoices = 0; S->nontriv = 0; S->cls[0] = 0; S->msg[0] = 0; g_steps = 0; g_now = 0; g_pos = 0; g_in_lib = 0; g_forbid_heap = false;
  g_block_hook = nullptr; g_block_preempt = ~0ull; g_block_run_start = g_blocks; block_bound(g_blocks + MAX_BLOCKS);
  S->state = 1; arm_timer(20);
  run_on_fresh_stack(run_body);
  arm_timer(0);
  S->state = 2;
}

// ---------------------------------------------------------------------------------------------------------------
// Supervisor.
struct Opt { std::string mode, prop, out, file, trace; uint64_t seed = 1, from = 0, count = 100, stride = 1; double budget = 60; double shrink_budget = 60; bool thorough = false; bool noshrink = false; } O;
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { std::string cls, msg, log; uint64_t hash = 0; std::vector<uint32_t> choices; bool failed = false; };
static std::string slurp(const std::string& f, size_t max = 20000) { FILE* fp = fopen(f.c_str(), "rb"); if(!fp) return ""; std::string s(max, 0); s.resize(fread(&s[0], 1, max, fp)); fclose(fp); return s; }
static std::string errfile() { return O.out + ".stderr." + std::to_string(getpid()); }
static std::string crash_text(int st, const std::string& log) {
  size_t a = log.find("SUMMARY:"); if(a == std::string::npos) a = log.find("runtime error:"); if(a == std::string::npos) a = log.find("Assertion");
  std::string t; if(a != std::string::npos) { size_t b = log.rfind('\n', a); b = (b == std::string::npos) ? 0 : b + 1; t = log.substr(b, log.find('\n', a) - b); }
  if(t.empty()) t = WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
  return t;
}
static std::string crash_class(const std::string& log) {
  if(log.find("AddressSanitizer") != std::string::npos) return "crash-memory";
  if(log.find("runtime error:") != std::string::npos) return "crash-undefined";
  if(log.find("Assertion") != std::string::npos) return "crash-assertion";
  return "crash";
}
// Replays pre-runs (by their seeds) and then the choices in a new process.
static Outcome attempt(const std::vector<uint32_t>& choices, const std::vector<uint64_t>& pre, const std::string& trace) {
  S->state = 0;
  std::string ef = errfile();           // named before the fork: the child writes it, we read it
  pid_t p = fork();
  if(p == 0) {
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    signal(SIGVTALRM, on_timer);
    for(uint64_t i : pre) { g_replaying = false; g_rng = Prng(run_seed(O.seed, O.prop.c_str(), i)); one_run(i); }
    g_replaying = true; g_list = choices;
    if(!trace.empty()) { g_trace = fopen(trace.c_str(), "w"); g_verbose = g_trace != nullptr; if(g_trace) setvbuf(g_trace, nullptr, _IOLBF, 0); }
    one_run(0); if(g_trace) fclose(g_trace); _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  Outcome o; o.hash = S->hash; o.choices.assign(S->choice, S->choice + S->nchoices);
  if(S->state == 3) { o.failed = true; o.cls = S->cls; o.msg = S->msg; }
  else if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { o.failed = true; o.log = slurp(ef); o.cls = crash_class(o.log); o.msg = crash_text(st, o.log); }
  unlink(ef.c_str());
  return o;
}
static std::string jstr(const std::string& s) { std::string r = "\""; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); } else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += static_cast<char>(c); } return r + "\""; }

static std::vector<uint32_t> shrink(std::vector<uint32_t> c, const std::vector<uint64_t>& pre, const std::string& cls, double budget, uint32_t& tries) {
  double end = now_s() + budget; tries = 0;
  auto bad = [&](const std::vector<uint32_t>& x, std::vector<uint32_t>& used) { ++tries; Outcome o = attempt(x, pre, ""); if(o.failed && o.cls == cls) { used = o.choices; while(!used.empty() && used.back() == 0) used.pop_back(); return true; } return false; };
  while(!c.empty() && c.back() == 0) c.pop_back();
  bool progress = true; std::vector<uint32_t> used;
  auto better = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if(a.size() != b.size()) return a.size() < b.size(); return a < b; };
  while(progress && now_s() < end) {
    progress = false;
    for(size_t len = std::max<size_t>(1, c.size() / 2); len >= 1; len /= 2) {          // delete
      for(size_t i = 0; i < c.size() && now_s() < end;) {
        std::vector<uint32_t> x(c.begin(), c.begin() + i); if(i + len < c.size()) x.insert(x.end(), c.begin() + i + len, c.end());
        if(bad(x, used) && better(used, c)) { c = used; progress = true; } else i += len;
      }
      if(len == 1) break;
    }
    for(size_t len = std::max<size_t>(1, c.size() / 2); len >= 1; len /= 2) {          // zero
      for(size_t i = 0; i < c.size() && now_s() < end; i += len) {
        std::vector<uint32_t> x = c; bool ch = false; for(size_t k = i; k < i + len && k < x.size(); ++k) { if(x[k]) ch = true; x[k] = 0; }
        if(ch && bad(x, used) && better(used, c)) { c = used; progress = true; }
      }
      if(len == 1) break;
    }
    for(size_t i = 0; i < c.size() && now_s() < end; ++i) {                            // lower
      uint32_t lo = 0;
      while(i < c.size() && c[i] > lo && now_s() < end) {
        uint32_t mid = lo + (c[i] - lo) / 2; std::vector<uint32_t> x = c; x[i] = mid;
        if(bad(x, used) && better(used, c)) { c = used; progress = true; if(i < c.size() && c[i] < lo) break; } else lo = mid + 1;
      }
    }
  }
  return c;
}
static void report(const Outcome& first, uint64_t idx, std::vector<uint64_t> batch) {
  // 1. Does the list of choices alone reproduce it in a new process, twice?
  std::vector<uint64_t> pre;
  std::string cls = first.cls;
  auto cut = [](std::vector<uint32_t> v) { while(!v.empty() && v.back() == 0) v.pop_back(); return v; };
  std::vector<uint32_t> c = cut(first.choices);
  Outcome a = attempt(c, pre, "");
  if(!(a.failed && a.cls == cls)) {
    pre = batch; a = attempt(c, pre, "");
    if(!(a.failed && a.cls == cls)) { printf("NOREPRO %s run=%llu cls=%s msg=%s\n", O.prop.c_str(), (unsigned long long)idx, cls.c_str(), first.msg.c_str()); fflush(stdout); return; }
    // the violation needs state left by earlier runs of the process: keep as few of them as possible
    double end = now_s() + 20;
    for(size_t len = std::max<size_t>(1, pre.size() / 2); len >= 1; len /= 2) {
      for(size_t i = 0; i < pre.size() && now_s() < end;) { std::vector<uint64_t> x(pre.begin(), pre.begin() + i); if(i + len < pre.size()) x.insert(x.end(), pre.begin() + i + len, pre.end()); Outcome o = attempt(c, x, ""); if(o.failed && o.cls == cls) pre = x; else i += len; }
      if(len == 1) break;
    }
  }
  uint32_t tries = 0; size_t before = c.size();
  if(!O.noshrink) c = shrink(c, pre, cls, O.shrink_budget, tries);
  std::string tf = O.out + ".trace." + std::to_string(getpid());
  Outcome b = attempt(c, pre, tf), d = attempt(c, pre, "");
  if(!(b.failed && d.failed && b.cls == cls && d.cls == cls && b.hash == d.hash)) { printf("NOREPRO %s run=%llu cls=%s second replay differs\n", O.prop.c_str(), (unsigned long long)idx, cls.c_str()); fflush(stdout); return; }
  std::string trace = slurp(tf, 60000); unlink(tf.c_str());
  std::string rf = O.out + ".replay." + std::to_string(idx) + ".json";
  FILE* f = fopen(rf.c_str(), "w");
  fprintf(f, "{\n \"property\": %s,\n \"seed\": %llu,\n \"run\": %llu,\n \"class\": %s,\n \"what\": %s,\n \"event_hash\": \"%016llx\",\n \"choices_before_minimising\": %zu,\n \"minimising_attempts\": %u,\n \"earlier_runs\": [", jstr(O.prop).c_str(), (unsigned long long)O.seed, (unsigned long long)idx, jstr(cls).c_str(), jstr(b.msg).c_str(), (unsigned long long)b.hash, before, tries);
  for(size_t i = 0; i < pre.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)pre[i]);
  fprintf(f, "],\n \"choices\": [");
  for(size_t i = 0; i < c.size(); ++i) fprintf(f, "%s%u", i ? "," : "", c[i]);
  fprintf(f, "],\n \"log\": %s,\n \"trace\": [", jstr(b.log.substr(0, 4000)).c_str());
  size_t s0 = 0; bool firstl = true; while(s0 < trace.size()) { size_t e = trace.find('\n', s0); if(e == std::string::npos) e = trace.size(); fprintf(f, "%s\n  %s", firstl ? "" : ",", jstr(trace.substr(s0, e - s0)).c_str()); firstl = false; s0 = e + 1; }
  fprintf(f, "]\n}\n"); fclose(f);
  printf("FAIL %s %s\n", rf.c_str(), (cls + ": " + b.msg).c_str()); fflush(stdout);
}
static int batch() {
  double t0 = now_s(); uint64_t i = 0; const uint64_t per = 200; std::unordered_set<uint64_t> seen; uint64_t distinct_nt = 0;
  FILE* sf = fopen((O.out + ".sig").c_str(), "wb");
  bool failed = false; uint64_t left_out = 0;
  S->runs_done = 0;
  while(i < O.count && !failed) {
    if(now_s() - t0 > O.budget) { left_out = O.count - i; break; }
    uint64_t n = std::min(per, O.count - i);
    S->state = 0; S->nsig = 0;
    std::string ef = errfile();
    fflush(stdout);
    pid_t p = fork();
    if(p == 0) {
      int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
      signal(SIGVTALRM, on_timer);
      for(uint64_t k = 0; k < n; ++k) {
        uint64_t idx = O.from + (i + k) * O.stride; g_replaying = false; g_rng = Prng(run_seed(O.seed, O.prop.c_str(), idx)); one_run(idx);
        ++S->runs_done; S->steps += g_steps; S->nontrivial += S->nontriv; S->sim_us += g_now; S->choices += S->nchoices; S->sig[S->nsig] = S->hash; S->sig_nt[S->nsig] = static_cast<uint8_t>(S->nontriv); ++S->nsig;
        if((k & 7) == 7 && now_s() - t0 > O.budget + 30) break;
      }
      S->state = 4; _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    for(uint32_t k = 0; k < S->nsig; ++k) { fwrite(&S->sig[k], 8, 1, sf); fputc(S->sig_nt[k], sf); }
    if(S->state == 4) { i += n; unlink(ef.c_str()); continue; }
    Outcome o; o.failed = true; o.choices.assign(S->choice, S->choice + S->nchoices);
    if(S->state == 3) { o.cls = S->cls; o.msg = S->msg; } else { o.log = slurp(ef); o.cls = crash_class(o.log); o.msg = crash_text(st, o.log); }
    unlink(ef.c_str());
    uint64_t idx = S->run; std::vector<uint64_t> pre; for(uint64_t k = 0; k < n; ++k) { uint64_t x = O.from + (i + k) * O.stride; if(x == idx) break; pre.push_back(x); }
    ++S->runs_done;
    FILE* js = fopen((O.out + ".stats").c_str(), "w"); if(js) fclose(js);
    failed = true;
    // save the statistics: replaying adds to the counters
    Counter* save = static_cast<Counter*>(malloc(sizeof S->ctr)); memcpy(save, S->ctr, sizeof S->ctr); uint32_t sn = S->nctr; uint64_t sv[4] = { S->runs_done, S->steps, S->nontrivial, S->sim_us };
    report(o, idx, pre);
    memcpy(S->ctr, save, sizeof S->ctr); S->nctr = sn; S->runs_done = sv[0]; S->steps = sv[1]; S->nontrivial = sv[2]; S->sim_us = sv[3]; free(save);
  }
  fclose(sf); (void)distinct_nt;
  FILE* f = fopen((O.out + ".stats").c_str(), "w");
  fprintf(f, "{\"runs\": %llu, \"steps\": %llu, \"nontrivial\": %llu, \"sim_us\": %llu, \"choices\": %llu, \"left_out\": %llu, \"wall\": %.3f, \"counters\": {", (unsigned long long)S->runs_done, (unsigned long long)S->steps, (unsigned long long)S->nontrivial, (unsigned long long)S->sim_us, (unsigned long long)S->choices, (unsigned long long)left_out, now_s() - t0);
  for(uint32_t k = 0; k < S->nctr; ++k) fprintf(f, "%s%s: %llu", k ? ", " : "", jstr(S->ctr[k].name).c_str(), (unsigned long long)S->ctr[k].n);
  fprintf(f, "}}\n"); fclose(f);
  return failed ? 1 : 0;
}
static std::vector<uint64_t> jarr(const std::string& s, const char* key) {
  std::vector<uint64_t> v; size_t p = s.find(std::string("\"") + key + "\""); if(p == std::string::npos) return v; p = s.find('[', p); size_t e = s.find(']', p);
  while(p < e) { ++p; while(p < e && !isdigit(static_cast<unsigned char>(s[p]))) ++p; if(p >= e) break; v.push_back(strtoull(&s[p], nullptr, 10)); while(p < e && isdigit(static_cast<unsigned char>(s[p]))) ++p; }
  return v;
}
static std::string jval(const std::string& s, const char* key) { size_t p = s.find(std::string("\"") + key + "\""); if(p == std::string::npos) return ""; p = s.find(':', p) + 1; while(s[p] == ' ') ++p; if(s[p] == '"') { size_t e = s.find('"', p + 1); return s.substr(p + 1, e - p - 1); } size_t e = s.find_first_of(",\n", p); return s.substr(p, e - p); }
static int replay() {
  std::string s = slurp(O.file, 32u << 20); O.prop = jval(s, "property"); O.seed = strtoull(jval(s, "seed").c_str(), nullptr, 10);
  std::vector<uint64_t> cc = jarr(s, "choices"), pre = jarr(s, "earlier_runs"); std::vector<uint32_t> c(cc.begin(), cc.end());
  extern void select_prop(); select_prop();
  std::string tf = O.trace.empty() ? O.out + ".trace" : O.trace;
  Outcome o = attempt(c, pre, tf);
  char h[20]; snprintf(h, sizeof h, "%016llx", (unsigned long long)o.hash);
  bool same = o.failed && o.cls == jval(s, "class") && jval(s, "event_hash") == h;
  printf("REPLAY %s class=%s hash=%s %s\n%s\n", O.prop.c_str(), o.failed ? o.cls.c_str() : "none", h, same ? "REPRODUCED" : "DIFFERENT", o.msg.c_str());
  return o.failed ? (same ? 1 : 4) : 0;
}
void select_prop() {
  mine.clear(); total_w = 0; for(auto& s : scenarios()) if(O.prop == s.prop) { mine.push_back(s); }
  std::sort(mine.begin(), mine.end(), [](const Scenario& a, const Scenario& b) { return strcmp(a.name, b.name) < 0; });
  for(auto& m : mine) total_w += m.weight;
  static std::string keep; keep = O.prop; g_prop = keep.c_str();
  if(mine.empty()) { fprintf(stderr, "no scenario for %s\n", O.prop.c_str()); exit(2); }
}
extern void check_tables();
int main(int argc, char** argv) {
  O.mode = argc > 1 ? argv[1] : ""; O.out = "/tmp/sim";
  for(int i = 2; i + 1 < argc + 1; ++i) {
    std::string k = argv[i]; auto val = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if(k == "--prop") O.prop = val(); else if(k == "--seed") O.seed = strtoull(val().c_str(), nullptr, 10); else if(k == "--from") O.from = strtoull(val().c_str(), nullptr, 10);
    else if(k == "--count") O.count = strtoull(val().c_str(), nullptr, 10); else if(k == "--stride") O.stride = strtoull(val().c_str(), nullptr, 10); else if(k == "--out") O.out = val();
    else if(k == "--budget") O.budget = atof(val().c_str()); else if(k == "--shrink") O.shrink_budget = atof(val().c_str()); else if(k == "--file") O.file = val(); else if(k == "--trace") O.trace = val(); else if(k == "--thorough") O.thorough = true; else if(k == "--noshrink") O.noshrink = true;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
  }
  if(!getenv("SIM_ASLR_OFF")) { // the same addresses in every execution
    setenv("SIM_ASLR_OFF", "1", 1); int per = personality(0xffffffff);
    if(per != -1 && personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if(S == MAP_FAILED) { perror("mmap"); return 2; }
  memset(S, 0, sizeof(Shared) - sizeof S->choice);
  g_thorough = O.thorough;
  check_tables();
  if(O.mode == "batch") { select_prop(); return batch(); }
  if(O.mode == "replay") return replay();
  if(O.mode == "show") { // one run by its index, history written to --trace
    select_prop(); g_trace = fopen(O.trace.c_str(), "w"); if(!g_trace) return 2; g_verbose = true; signal(SIGVTALRM, on_timer);
    g_rng = Prng(run_seed(O.seed, O.prop.c_str(), O.from)); one_run(O.from); fclose(g_trace); return 0;
  }
  if(O.mode == "list") { for(auto& s : scenarios()) printf("%s %s %u\n", s.prop, s.name, s.weight); return 0; }
  fprintf(stderr, "usage: batch|replay|list\n"); return 2;
}
