#include "sim.hpp"
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
extern "C" void __sanitizer_start_switch_fiber(void**, const void*, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=66:abort_on_error=0:detect_stack_use_after_return=0:"
         "max_malloc_fill_size=268435456:malloc_fill_byte=205:quarantine_size_mb=32:"
         "allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0:"
         "print_legend=0:symbolize=1:alloc_dealloc_mismatch=0:handle_segv=1";
}
#endif

extern "C" void sim_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.section .note.GNU-stack,"",@progbits
.text
)");

// Absurd allocations fail as they would on a real machine; others when the run says so.
namespace sim { bool allocation_fails(); }
__attribute__((weak)) void* operator new(size_t n) {
  if(sim::allocation_fails()) throw std::bad_alloc();
  if(n > (size_t)1 << 31) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  return p;
}
__attribute__((weak)) void* operator new[](size_t n) { return operator new(n); }
__attribute__((weak)) void operator delete(void* p) noexcept { free(p); }
__attribute__((weak)) void operator delete[](void* p) noexcept { free(p); }
__attribute__((weak)) void operator delete(void* p, size_t) noexcept { free(p); }
__attribute__((weak)) void operator delete[](void* p, size_t) noexcept { free(p); }

namespace simio { void reset_run(); void set_scratch(const std::string&); }

namespace sim {

// ------------------------------------------------------------------ state --
struct EhGlobals { void* caught; unsigned int uncaught; };
extern "C" EhGlobals* __cxa_get_globals();

struct Ctx {
  void* sp = nullptr;
  char* stack = nullptr;
  size_t size = 0;
  void* fake = nullptr;
  EhGlobals eh{nullptr, 0};
};

struct Fiber {
  Ctx ctx;
  std::function<void()> fn;
  std::string name, error;
  void* user = nullptr;
  bool done = false, blocked = false;
  std::function<bool()> pred;
  const char* where = "start";
  int id = 0;
  int prio = 0;
  uint64_t clock = 0;
};

static const uint32_t TAPE_CAP = 1u << 20;
struct TapeMap { uint32_t magic, count; uint64_t seed; uint32_t data[TAPE_CAP]; };

struct RunState {
  uint64_t seed = 0;
  bool replay = false;
  std::vector<uint32_t> in;
  size_t pos = 0;
  std::vector<uint32_t> out;
  Rng rng{0};
  uint64_t hash = 0, shash = 0;
  uint64_t steps = 0, sim_ns = 0;
  bool nontriv = false;
  std::string cls, msg;
  bool failed = false;
  std::map<std::string, uint64_t> faults, probes;
  std::vector<std::string> log;
  std::string policy = "-";
};

static RunState R;
static bool g_running = false, g_verbose = false;
static TapeMap* g_tape = nullptr;
static std::string g_scratch, g_mode;
static Ctx g_base;               // outside of any run
static Fiber* g_mainf = nullptr; // fiber executing harness_run
static Fiber* g_cur = nullptr;
static std::vector<std::unique_ptr<Fiber>> g_fibers;
static std::vector<std::pair<char*, size_t>> g_stackpool;
static std::function<size_t()> g_ev_count;
static std::function<void(size_t)> g_ev_fire;
static std::function<std::string()> g_dl_report;
static bool g_aborted = false, g_fixed = false;
static std::string g_abort_why;

// ------------------------------------------------------ failing allocations --
static bool g_mem_on = false, g_mem_fired = false;
static uint64_t g_mem_skip = 0, g_mem_len = 0;
static int g_mem_quiet = 0;
Internal::Internal() { ++g_mem_quiet; }
Internal::~Internal() { --g_mem_quiet; }
void fail_allocations(uint64_t skip, uint64_t len) { g_mem_on = true; g_mem_fired = false; g_mem_skip = skip; g_mem_len = len; g_mem_quiet = 0; }
void allocations_ok() { g_mem_on = false; }
bool allocation_failed() { return g_mem_fired; }
bool allocation_fails() {
  if(!g_mem_on || g_mem_quiet || !g_cur || g_cur == g_mainf) return false;
  if(g_mem_skip) { --g_mem_skip; return false; }
  if(g_mem_len == 0) return false;
  --g_mem_len;
  Internal quiet;
  if(!g_mem_fired) note("an allocation fails");
  g_mem_fired = true;
  fault("memory.allocation-failed");
  return true;
}

// ---------------------------------------------------------------- choices --
static inline void hmix(uint64_t& h, uint64_t x) {
  h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
}
void mix(uint64_t x) { hmix(R.hash, x); }
void mix_bytes(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  uint64_t h = 1469598103934665603ull;
  for(size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  mix(h ^ n);
}
uint32_t choose(uint32_t n, const char*) {
  if(n <= 1) return 0;
  Internal quiet;
  uint32_t v;
  if(R.replay) {
    v = R.pos < R.in.size() ? R.in[R.pos] : 0;
    R.pos++;
    v %= n;
  } else
    v = (uint32_t)((R.rng.next() >> 16) % n);
  R.out.push_back(v);
  if(g_tape && g_tape->count < TAPE_CAP) { g_tape->data[g_tape->count] = v; g_tape->count++; }
  mix(v);
  return v;
}
bool flip(uint32_t num, uint32_t den, const char* tag) {
  if(num == 0) return false;
  if(num >= den) return true;
  return choose(den, tag) >= den - num;
}
Rng data_rng(const char* tag) {
  return Rng(choose(0x7fffffffu, tag) + 1);
}

// -------------------------------------------------------------- reporting --
void note(const char* fmt, ...) {
  Internal quiet;
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if(n < 0) n = 0;
  if(n > (int)sizeof buf - 1) n = sizeof buf - 1;
  mix_bytes(buf, n);
  if(g_verbose && R.log.size() < 20000) R.log.emplace_back(buf);
}
bool verbose() { return g_verbose; }
void fault(const char* kind, uint64_t n) { Internal quiet; R.faults[kind] += n; }
void probe(const char* name, uint64_t n) { Internal quiet; R.probes[name] += n; }
void nontrivial() { R.nontriv = true; }
std::string scratch_dir() { return g_scratch; }
const std::string& mode() { return g_mode; }
bool in_run() { return g_running; }

// --------------------------------------------------------------- switching --
static void do_switch(Ctx& from, Ctx& to, bool dying = false) {
  EhGlobals* eh = __cxa_get_globals();
  from.eh = *eh;
  *eh = to.eh;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(dying ? nullptr : &from.fake, to.stack, to.size);
#endif
  sim_switch(&from.sp, to.sp);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(from.fake, nullptr, nullptr);
#endif
}

static void fiber_entry();
static void prepare(Fiber* f, size_t sz) {
  char* st = nullptr;
  for(size_t i = 0; i < g_stackpool.size(); ++i)
    if(g_stackpool[i].second == sz) {
      st = g_stackpool[i].first;
      g_stackpool.erase(g_stackpool.begin() + i);
      break;
    }
  if(!st) {
    st = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(st == MAP_FAILED) { perror("mmap stack"); _exit(3); }
    mprotect(st, 4096, PROT_NONE);
  }
#ifdef SIM_ASAN
  __asan_unpoison_memory_region(st + 4096, sz - 4096);
#endif
  memset(st + sz - 65536, 0xAB, 65536);
  f->ctx = Ctx{};
  f->ctx.stack = st;
  f->ctx.size = sz;
  uintptr_t top = (uintptr_t)(st + sz) & ~(uintptr_t)15;
  void** p = (void**)top;
  *--p = nullptr;                 // fake return address: keeps alignment
  *--p = (void*)&fiber_entry;     // ret target
  for(int i = 0; i < 6; ++i) *--p = nullptr;
  --p;
  uint32_t mx = 0x1f80; uint16_t cw = 0x37f;
  memset(p, 0, 8);
  memcpy((char*)p, &mx, 4);
  memcpy((char*)p + 4, &cw, 2);
  f->ctx.sp = p;
}
static void release(Fiber* f) {
  if(f->ctx.stack) g_stackpool.emplace_back(f->ctx.stack, f->ctx.size);
  f->ctx.stack = nullptr;
}

Fiber* current() { return g_cur; }
void* fiber_user(Fiber* f) { return f ? f->user : nullptr; }
bool fiber_done(Fiber* f) { return f->done; }
const char* fiber_where(Fiber* f) { return f->where; }
const std::string& fiber_error(Fiber* f) { return f->error; }
uint64_t steps() { return R.steps; }
void set_event_source(std::function<size_t()> c, std::function<void(size_t)> f) { g_ev_count = std::move(c); g_ev_fire = std::move(f); }
void set_deadlock_report(std::function<std::string()> f) { g_dl_report = std::move(f); }
void advance_time(uint64_t ns) { if(g_cur) g_cur->clock += ns; }
uint64_t task_time() { return g_cur ? g_cur->clock : 0; }
void add_sim_time(uint64_t ns) { R.sim_ns += ns; }
const char* policy_name() { return R.policy.c_str(); }
void fixed_schedule(bool on) { g_fixed = on; }

[[noreturn]] static void to_base() {
  Fiber* self = g_cur;
  g_cur = nullptr;
  do_switch(self->ctx, g_base);
  abort();
}
void fail(const char* cls, const char* fmt, ...) {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  Internal quiet;
  if(!R.failed) { R.failed = true; R.cls = cls; R.msg = buf; mix_bytes(cls, strlen(cls)); }
  if(!g_cur) { fprintf(stderr, "sim::fail outside run: %s %s\n", cls, buf); _exit(4); }
  to_base();
}

static void fiber_entry() {
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  Fiber* f = g_cur;
  try {
    f->fn();
  } catch(const std::exception& e) {
    Internal quiet;
    f->error = std::string(e.what());
    for(size_t q; !g_scratch.empty() && (q = f->error.find(g_scratch)) != std::string::npos;) f->error.replace(q, g_scratch.size(), "$SCRATCH");
    if(f->error.empty()) f->error = "exception";
  } catch(...) {
    Internal quiet;
    f->error = "unknown exception";
  }
  g_mem_on = false;
  f->done = true;
  f->where = "done";
  f->fn = nullptr;
  if(f == g_mainf) {
    g_cur = nullptr;
    do_switch(f->ctx, g_base, true);
  } else {
    g_cur = g_mainf;
    do_switch(f->ctx, g_mainf->ctx, true);
  }
  abort();
}

Fiber* spawn(std::function<void()> fn, const std::string& name, void* user) {
  auto f = std::make_unique<Fiber>();
  f->fn = std::move(fn);
  f->name = name;
  f->user = user;
  f->id = (int)g_fibers.size();
  prepare(f.get(), 1u << 20);
  g_fibers.push_back(std::move(f));
  return g_fibers.back().get();
}
static void to_main() {
  Fiber* self = g_cur;
  g_cur = g_mainf;
  do_switch(self->ctx, g_mainf->ctx);
}
void yield(const char* where) {
  if(!g_cur || g_cur == g_mainf) return;
  g_cur->where = where;
  to_main();
}
void block_until(const std::function<bool()>& pred, const char* where) {
  if(!g_cur || g_cur == g_mainf) {
    if(!pred()) fail("deadlock", "main task blocks at %s", where);
    return;
  }
  Fiber* f = g_cur;
  f->where = where;
  f->pred = pred;
  f->blocked = true;
  to_main();
  f->blocked = false;
  f->pred = nullptr;
}
void abort_job(const char* why) {
  g_aborted = true;
  g_abort_why = why;
  note("job aborted: %s", why);
  if(g_cur == g_mainf || !g_cur) fail("internal", "abort_job outside task");
  Fiber* self = g_cur;
  g_cur = g_mainf;
  do_switch(self->ctx, g_mainf->ctx);
  abort();
}

static const char* const POL[] = {"roundrobin", "uniform", "sticky", "priority", "starve-one", "slow-network", "reverse"};

RunStatus run_all(uint64_t max_steps) {
  std::vector<Fiber*> all;
  for(auto& f : g_fibers) if(!f->done && f->ctx.stack) all.push_back(f.get());
  const size_t nf = all.size();
  int policy = (g_fixed || nf <= 1) ? 0 : (int)choose(7, "sched.policy");
  R.policy = POL[policy];
  probe((std::string("policy.") + POL[policy]).c_str());
  size_t victim = 0;
  uint32_t gap = 0;
  int ev_prio = 0;
  if(policy == 4) victim = choose(nf, "sched.victim");
  if(policy == 3) {
    for(size_t i = 0; i < nf; ++i) all[i]->prio = (int)choose(1000, "sched.prio") + 1;
    ev_prio = (int)choose(1000, "sched.evprio") + 1;
    gap = 1 + choose(64, "sched.gap");
  }
  size_t last = nf, rr = 0;
  uint64_t st = 0;
  g_aborted = false;
  std::vector<size_t> en;
  RunStatus result = RunStatus::done;
  while(true) {
    en.clear();
    bool alive = false;
    for(size_t i = 0; i < nf; ++i) {
      Fiber* f = all[i];
      if(f->done) continue;
      alive = true;
      if(!f->blocked || f->pred()) en.push_back(i);
    }
    size_t nev = g_ev_count ? g_ev_count() : 0;
    if(!alive) break;   // in-flight messages stay; leak checks see them
    if(en.empty() && nev == 0) {
      std::string rep;
      for(auto* f : all) {
        rep += f->name + "=" + (f->done ? (f->error.empty() ? "finished" : "threw(" + f->error + ")") : f->where) + "; ";
      }
      if(g_dl_report) rep += g_dl_report();
      fail("deadlock", "no task can make progress: %s", rep.c_str());
    }
    if(++st > max_steps) fail("liveness", "no completion within %llu scheduler steps", (unsigned long long)max_steps);
    R.steps++;
    // pick: index < en.size() -> fiber, else event
    size_t tot = en.size() + nev, pick = 0;
    bool last_enabled = false; size_t last_pos = 0;
    for(size_t k = 0; k < en.size(); ++k) if(en[k] == last) { last_enabled = true; last_pos = k; }
    switch(policy) {
      case 0: {
        if(nev) { pick = en.size(); break; }
        size_t k = 0;
        while(k < en.size() && en[k] < rr) ++k;
        if(k == en.size()) k = 0;
        pick = k;
        rr = en[k] + (g_fixed ? 0 : 0);
        if(!last_enabled || en[k] != last) {}
        break;
      }
      case 1: pick = choose(tot, "sched"); break;
      case 2:
        if(last_enabled && !flip(1, 6, "sched.sw")) pick = last_pos;
        else pick = choose(tot, "sched");
        break;
      case 3: {
        if(--gap == 0) {
          gap = 1 + choose(64, "sched.gap");
          uint32_t w = choose(nf + 1, "sched.demote");
          if(w < nf) all[w]->prio = -(int)st; else ev_prio = -(int)st;
        }
        size_t b = 0; bool have = false; int bp = 0;
        for(size_t k = 0; k < en.size(); ++k) if(!have || all[en[k]]->prio > bp) { have = true; b = k; bp = all[en[k]]->prio; }
        if(nev && (!have || ev_prio > bp)) b = en.size() + choose(nev, "sched.ev");
        pick = b;
        break;
      }
      case 4: {
        std::vector<size_t> o;
        for(size_t k = 0; k < tot; ++k) if(k >= en.size() || en[k] != victim) o.push_back(k);
        if(o.empty()) pick = 0; else { pick = o[choose(o.size(), "sched")]; if(o.size() < tot) fault("stall.rank"); }
        break;
      }
      case 5:
        if(!en.empty()) { pick = choose(en.size(), "sched"); if(nev) fault("net.delay"); }
        else pick = choose(nev, "sched.ev");
        break;
      case 6:
        if(!en.empty()) pick = en.size() - 1; else pick = nev - 1;
        break;
    }
    if(pick < en.size()) {
      Fiber* f = all[en[pick]];
      last = en[pick];
      hmix(R.shash, (uint64_t)f->id * 131 + (uint64_t)(uint8_t)f->where[0]);
      g_cur = f;
      Fiber* m = g_mainf;
      do_switch(m->ctx, f->ctx);
      g_cur = g_mainf;
      if(f->done) {
        release(f);
        if(!f->error.empty()) note("%s threw: %s", f->name.c_str(), f->error.c_str());
      }
      if(g_aborted) { result = RunStatus::aborted; break; }
      // round robin: move on once the task blocks or finishes
      if(policy == 0 && (f->done || f->blocked)) rr = last + 1;
    } else {
      hmix(R.shash, 7777 + (pick - en.size()));
      g_ev_fire(pick - en.size());
    }
  }
  uint64_t mx = 0;
  for(auto* f : all) mx = std::max(mx, f->clock);
  R.sim_ns += mx;
  if(result == RunStatus::aborted)
    for(auto* f : all) if(!f->done) { f->done = true; f->where = "killed"; release(f); }
  return result;
}

// ------------------------------------------------------------------ runs ---
static void clean_dir(const std::string& d) {
  DIR* dp = opendir(d.c_str());
  if(!dp) return;
  while(dirent* e = readdir(dp)) {
    std::string n = e->d_name;
    if(n == "." || n == "..") continue;
    unlink((d + "/" + n).c_str());
  }
  closedir(dp);
}
static void arm(unsigned s) {   // CPU time, so that a busy machine cannot cause it
  itimerval tv{};
  tv.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &tv, nullptr);
}
static void on_alarm(int) { static const char m[] = "SIM-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
static unsigned g_alarm = 30;

static void run_one(uint64_t seed, const std::vector<uint32_t>* tape) {
  R = RunState{};
  R.seed = seed;
  if(tape) { R.replay = true; R.in = *tape; }
  R.rng = Rng(seed);
  if(g_tape) { g_tape->magic = 0x51A7; g_tape->count = 0; g_tape->seed = seed; }
  clean_dir(g_scratch);
  simio::reset_run();
  g_fibers.clear();
  g_ev_count = nullptr; g_ev_fire = nullptr; g_dl_report = nullptr;
  g_fixed = false;
  g_aborted = false;
  static Fiber mainf;
  mainf.fn = [] { harness_run(); };
  mainf.name = "main";
  mainf.error.clear();
  mainf.done = false;
  mainf.where = "start";
  mainf.clock = 0;
  if(!mainf.ctx.stack) prepare(&mainf, 8u << 20);
  else { auto st = mainf.ctx.stack; auto sz = mainf.ctx.size; g_stackpool.emplace_back(st, sz); prepare(&mainf, sz); }
  g_mainf = &mainf;
  g_cur = &mainf;
  g_running = true;
  arm(g_alarm);
  do_switch(g_base, mainf.ctx);
  arm(0);
  g_running = false;
  g_cur = nullptr;
  simio::reset_run();
  if(!R.failed && !mainf.error.empty()) {
    R.failed = true;
    R.cls = "unexpected-exception";
    R.msg = mainf.error;
  }
  if(!R.failed) g_fibers.clear();
}

static std::string jesc(const std::string& s) {
  std::string o;
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static void write_result(const std::string& path, bool with_log) {
  FILE* f = fopen(path.c_str(), "w");
  if(!f) { perror("result"); _exit(3); }
  fprintf(f, "{\"seed\":%llu,\"failed\":%s,\"class\":\"%s\",\"message\":\"%s\",\"hash\":\"%016llx\",\"shash\":\"%016llx\",\"steps\":%llu,\"sim_ns\":%llu,\"policy\":\"%s\",\"nontrivial\":%s,\n\"tape\":[",
          (unsigned long long)R.seed, R.failed ? "true" : "false", jesc(R.cls).c_str(), jesc(R.msg).c_str(),
          (unsigned long long)R.hash, (unsigned long long)R.shash, (unsigned long long)R.steps, (unsigned long long)R.sim_ns, jesc(R.policy).c_str(), R.nontriv ? "true" : "false");
  for(size_t i = 0; i < R.out.size(); ++i) fprintf(f, "%s%u", i ? "," : "", R.out[i]);
  fprintf(f, "],\n\"faults\":{");
  bool first = true;
  for(auto& [k, v] : R.faults) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  fprintf(f, "},\"probes\":{");
  first = true;
  for(auto& [k, v] : R.probes) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  fprintf(f, "}");
  if(with_log) {
    fprintf(f, ",\n\"trace\":[");
    for(size_t i = 0; i < R.log.size(); ++i) fprintf(f, "%s\n\"%s\"", i ? "," : "", jesc(R.log[i]).c_str());
    fprintf(f, "]");
  }
  fprintf(f, "}\n");
  fclose(f);
}
static std::vector<uint32_t> read_tape(const std::string& path) {
  std::vector<uint32_t> t;
  FILE* f = fopen(path.c_str(), "r");
  if(!f) { perror("tape"); _exit(3); }
  unsigned v;
  while(fscanf(f, "%u", &v) == 1) t.push_back(v);
  fclose(f);
  return t;
}
static double now_s() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// Outcome of a tape in a forked child: "" ok, class, or "crash:<code>"
static std::string probe_tape(const std::vector<uint32_t>& t, std::vector<uint32_t>* used) {
  static std::string tmp = g_scratch + "-min.json";
  int pfd[2];
  if(pipe(pfd)) return "";
  pid_t p = fork();
  if(p == 0) {
    close(pfd[0]);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(dn, 2);
    run_one(0, &t);
    std::string c = R.failed ? R.cls : "";
    uint32_t n = R.out.size(), cl = c.size();
    (void)!write(pfd[1], &cl, 4); (void)!write(pfd[1], c.data(), cl); (void)!write(pfd[1], &n, 4);
    size_t off = 0, tot = n * 4;
    while(off < tot) { ssize_t w = write(pfd[1], (char*)R.out.data() + off, tot - off); if(w <= 0) break; off += w; }
    _exit(0);
  }
  close(pfd[1]);
  std::string buf;
  char b[65536];
  ssize_t r;
  while((r = read(pfd[0], b, sizeof b)) > 0) buf.append(b, r);
  close(pfd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if(WIFSIGNALED(st)) return "crash:signal" + std::to_string(WTERMSIG(st));
  if(WEXITSTATUS(st) != 0) return "crash:exit" + std::to_string(WEXITSTATUS(st));
  uint32_t cl = 0, n = 0;
  if(buf.size() < 8) return "";
  memcpy(&cl, buf.data(), 4);
  std::string c = buf.substr(4, cl);
  memcpy(&n, buf.data() + 4 + cl, 4);
  if(used) { used->resize(n); memcpy(used->data(), buf.data() + 8 + cl, n * 4); }
  return c;
}
static void minimize(std::vector<uint32_t> t, const std::string& want, double budget, const std::string& outp) {
  double t0 = now_s();
  g_alarm = 10;
  std::vector<uint32_t> used;
  uint64_t tries = 0;
  auto ok = [&](const std::vector<uint32_t>& c, std::vector<uint32_t>* u) { ++tries; return probe_tape(c, u) == want; };
  bool crash = want.rfind("crash:", 0) == 0;
  auto accept = [&](std::vector<uint32_t> c) {
    std::vector<uint32_t> u;
    if(!ok(c, crash ? nullptr : &u)) return false;
    if(!crash && u.size() <= c.size()) c = u;
    while(!c.empty() && c.back() == 0) c.pop_back();
    t = c;
    return true;
  };
  size_t orig = t.size();
  bool improved = true;
  while(improved && now_s() - t0 < budget) {
    improved = false;
    for(size_t len = std::max<size_t>(1, t.size() / 2); len >= 1 && now_s() - t0 < budget; len /= 2) {
      // cut tail
      if(t.size() > len) { auto c = t; c.resize(c.size() - len); if(accept(c)) { improved = true; } }
      for(size_t i = 0; i + len <= t.size() && now_s() - t0 < budget;) {
        auto c = t;
        c.erase(c.begin() + i, c.begin() + i + len);
        if(accept(c)) { improved = true; continue; }
        bool nz = false;
        for(size_t k = i; k < i + len; ++k) nz |= t[k] != 0;
        if(nz) {
          c = t;
          std::fill(c.begin() + i, c.begin() + i + len, 0u);
          if(accept(c)) { improved = true; if(i >= t.size()) break; }
        }
        i += len;
      }
      if(len == 1) break;
    }
    for(size_t i = 0; i < t.size() && now_s() - t0 < budget; ++i) {
      if(t[i] > 1) {
        auto c = t; c[i] = 1;
        if(accept(c)) { improved = true; continue; }
        c = t; c[i] = t[i] / 2;
        if(accept(c)) { improved = true; }
      }
    }
  }
  FILE* f = fopen(outp.c_str(), "w");
  for(auto v : t) fprintf(f, "%u ", v);
  fprintf(f, "\n");
  fclose(f);
  fprintf(stdout, "minimize: %zu -> %zu draws, %llu runs\n", orig, t.size(), (unsigned long long)tries);
}
}  // namespace sim

using namespace sim;
int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for(int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto get = [&](const char* k, const char* d) { auto it = a.find(k); return it == a.end() ? std::string(d) : it->second; };
  g_scratch = get("--scratch", "");
  if(g_scratch.empty()) { fprintf(stderr, "need --scratch\n"); return 3; }
  mkdir(g_scratch.c_str(), 0700);
  simio::set_scratch(g_scratch);
  g_mode = get("--mode", "");
  g_alarm = atoi(get("--alarm", "40").c_str());
  signal(SIGPROF, on_alarm);
  signal(SIGPIPE, SIG_IGN);
  std::string tp = get("--tapemap", "");
  if(!tp.empty()) {
    int fd = open(tp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if(fd < 0 || ftruncate(fd, sizeof(TapeMap))) { perror("tapemap"); return 3; }
    g_tape = (TapeMap*)mmap(nullptr, sizeof(TapeMap), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  g_verbose = get("--verbose", "0") == "1";
  harness_init();
  std::string op = get("--op", "seeds"), out = get("--out", "/dev/null");
  if(op == "replay") {
    auto t = read_tape(get("--tape", ""));
    run_one(strtoull(get("--seed", "0").c_str(), nullptr, 10), &t);
    write_result(out, g_verbose);
    return R.failed ? 10 : 0;
  }
  if(op == "minimize") {
    auto t = read_tape(get("--tape", ""));
    minimize(t, get("--class", ""), atof(get("--budget", "20").c_str()), out);
    return 0;
  }
  // op seeds
  uint64_t base = strtoull(get("--base", "1").c_str(), nullptr, 10), stride = strtoull(get("--stride", "1").c_str(), nullptr, 10),
           count = strtoull(get("--count", "1").c_str(), nullptr, 10);
  double tmax = atof(get("--time", "1e9").c_str()), t0 = now_s();
  std::string keys = get("--keys", ""), vres = get("--viol", "/dev/null");
  FILE* kf = keys.empty() ? nullptr : fopen(keys.c_str(), "wb");
  uint64_t runs = 0, nontriv = 0, steps_ = 0, ns = 0, sched = 0;
  std::map<std::string, uint64_t> F, Pb;
  bool failed = false;
  uint64_t failseed = 0;
  std::vector<uint64_t> list;   // explicit seeds, run in this order by this one process
  if(a.count("--list")) {
    FILE* lf = fopen(a["--list"].c_str(), "r");
    unsigned long long v;
    while(lf && fscanf(lf, "%llu", &v) == 1) list.push_back(v);
    if(lf) fclose(lf);
  }
  if(!list.empty()) count = list.size();
  for(uint64_t i = 0; i < count; ++i) {
    if(now_s() - t0 > tmax) break;
    uint64_t s = list.empty() ? base + i * stride : list[i];
    run_one(s, nullptr);
    runs++;
    nontriv += R.nontriv;
    steps_ += R.steps;
    ns += R.sim_ns;
    for(auto& [k, v] : R.faults) F[k] += v;
    for(auto& [k, v] : R.probes) Pb[k] += v;
    if(kf) { uint64_t rec[4] = {s, R.hash, R.shash, (uint64_t)R.nontriv}; fwrite(rec, 8, 4, kf); }
    if(g_verbose) { fprintf(stderr, "seed %llu hash %llx\n", (unsigned long long)s, (unsigned long long)R.hash); for(auto& l : R.log) fprintf(stderr, "  %s\n", l.c_str()); }
    if(R.failed) { failed = true; failseed = s; write_result(vres, true); break; }
  }
  (void)sched;
  if(kf) fclose(kf);
  FILE* f = fopen(out.c_str(), "w");
  fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"sim_ns\":%llu,\"wall\":%.3f,\"failed\":%s,\"failseed\":%llu,\"faults\":{",
          (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps_, (unsigned long long)ns, now_s() - t0, failed ? "true" : "false", (unsigned long long)failseed);
  bool first = true;
  for(auto& [k, v] : F) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  fprintf(f, "},\"probes\":{");
  first = true;
  for(auto& [k, v] : Pb) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  fprintf(f, "}}\n");
  fclose(f);
  fflush(nullptr);
  _exit(failed ? 10 : 0);
}
