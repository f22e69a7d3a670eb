#include "simomp.hpp"
#include <link.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <deque>
#include <map>
#include <new>
#include <string>
#include <vector>
#include "sim.hpp"

using sim::fail;
extern "C" char __executable_start;

namespace {
constexpr int MAXT = 12;
struct VC {
  uint32_t c[MAXT] = {};
  void join(const VC& o) { for(int i = 0; i < MAXT; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Work { bool init = false; bool single = false; long next = 0, end = 0, incr = 1, chunk = 1; bool up = true; VC vc; };
struct Team;
struct Thread { Team* team = nullptr; int tid = 0; VC vc; size_t ws = 0; long left = 0; int depth = 0; };
struct Team {
  int n = 1;
  Thread th[MAXT];
  int arrived = 0; uint64_t bgen = 0; VC bvc[2];
  std::map<size_t, Work> work;
};
struct Lock { bool held = false; int owner = -1; VC vc; };

simomp::Config cfg;
simomp::Stats st;
bool busy = true;          // inside the runtime: no checks
std::map<void*, Lock>* locks;
std::map<uintptr_t, VC>* atomics;

Thread* self() {
  if(!sim::in_run()) return nullptr;
  sim::Fiber* f = sim::current();
  return f ? (Thread*)sim::fiber_user(f) : nullptr;
}
struct Busy { bool o; Busy() : o(busy) { busy = true; } ~Busy() { busy = o; } };

// ------------------------------------------------------------- heap blocks --
struct Head { uint32_t magic, id; size_t size; };   // 16 bytes in front of the front red zone
constexpr size_t RZ = 32;
constexpr uint32_t MAGIC = 0x51A0C0DE;
uint32_t next_id = 0;
std::vector<void*>* quarantine;
bool in_new = false;

// poisoned bytes: granule -> mask, valid for one run
struct PEnt { uintptr_t g; uint32_t gen; uint8_t mask; };
constexpr size_t PN = 1u << 16;
PEnt* ptab; uint32_t pgen = 0; size_t pcount = 0;
PEnt* pfind(uintptr_t g, bool add) {
  if(!ptab) {
    if(!add) return nullptr;
    ptab = (PEnt*)mmap(nullptr, PN * sizeof(PEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 48;
  for(;; h = (h + 1) & (PN - 1)) {
    PEnt& e = ptab[h];
    if(e.gen != pgen || !e.g) {
      if(!add || pcount > PN * 3 / 4) return nullptr;
      pcount++;
      e = {g, pgen, 0};
      return &e;
    }
    if(e.g == g) return &e;
  }
}
void poison(const void* p, size_t n, bool on) {
  uintptr_t a = (uintptr_t)p, e = a + n;
  while(a < e) {
    uintptr_t g = a >> 3;
    size_t lo = a & 7, hi = std::min<uintptr_t>(8, lo + (e - a));
    uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    PEnt* q = pfind(g, on);
    if(q) { if(on) q->mask |= m; else q->mask &= ~m; }
    a += hi - lo;
  }
}

// ------------------------------------------------------------------ shadow --
struct Cell { uint8_t tid, mask, write, atomic; uint32_t clk; };
constexpr int NC = 15;
struct SEnt { uintptr_t g; uint32_t gen; uint32_t n; Cell c[NC]; };
constexpr size_t SN = 1u << 16;
SEnt* stab; uint32_t sgen = 1; size_t scount = 0; bool sfull = false;
SEnt* sfind(uintptr_t g, bool add) {
  if(!stab) stab = (SEnt*)mmap(nullptr, SN * sizeof(SEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 48;
  for(;; h = (h + 1) & (SN - 1)) {
    SEnt& e = stab[h];
    if(e.gen != sgen) {
      if(!add) return nullptr;
      if(scount > SN * 3 / 4) { sfull = true; return nullptr; }
      scount++;
      e.g = g; e.gen = sgen; e.n = 0;
      return &e;
    }
    if(e.g == g) return &e;
  }
}
void forget(const void* p, size_t n) {
  if(!stab) return;
  for(uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3 && n; ++g)
    if(SEnt* e = sfind(g, false)) e->n = 0;
}
struct Blk { uintptr_t a; size_t n; uint32_t id; };
Blk* blks; size_t nblk = 0, cblk = 0;
std::string heap_where(uintptr_t a, size_t n) {
  for(size_t i = nblk; i-- > 0;)
    if(a + RZ + 16 >= blks[i].a && a < blks[i].a + blks[i].n + RZ) {
      char b[160];
      snprintf(b, sizeof b, "byte %ld (+%zu) of heap block %u of %zu bytes", (long)(a - blks[i].a), n, blks[i].id, blks[i].n);
      return b;
    }
  return "stack or static memory";
}

[[noreturn]] void race(const Cell& o, int tid, bool w, uintptr_t a, size_t n, const void* pc) {
  busy = true;
  fail("data-race", "threads %d and %d: unordered %s and %s of %s (code offset 0x%lx)", (int)o.tid, tid, o.write ? "write" : "read",
       w ? "write" : "read", heap_where(a, n).c_str(), (unsigned long)((uintptr_t)pc - (uintptr_t)&__executable_start));
}

void touch(Thread* t, uintptr_t a, size_t n, bool w, bool atomic, const void* pc) {
  while(n) {
    uintptr_t g = a >> 3;
    size_t lo = a & 7, hi = std::min<size_t>(8, lo + n);
    uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    SEnt* e = sfind(g, true);
    if(e) {
      Cell* mine = nullptr;
      for(uint32_t i = 0; i < e->n; ++i) {
        Cell& c = e->c[i];
        if(c.tid == t->tid) { if(c.mask == m && c.write == w && c.atomic == atomic) mine = &c; continue; }
        if(!(c.mask & m) || (!c.write && !w) || (c.atomic && atomic)) continue;
        if(c.clk > t->vc.c[c.tid]) race(c, t->tid, w, a, hi - lo, pc);
      }
      if(mine) mine->clk = t->vc.c[t->tid];
      else if(e->n < NC) e->c[e->n++] = {(uint8_t)t->tid, m, (uint8_t)w, (uint8_t)atomic, t->vc.c[t->tid]};
      else e->c[st.accesses % NC] = {(uint8_t)t->tid, m, (uint8_t)w, (uint8_t)atomic, t->vc.c[t->tid]};
    }
    a += hi - lo;
    n -= hi - lo;
  }
}
// thread_local variables of the program: one image per simulated thread, kept
// for the whole run as a pooled thread would
char* tls_base = nullptr;
size_t tls_size = 0, tls_init = 0;
const char* tls_image = nullptr;
char* tls_of[MAXT];
struct Dtor { void (*f)(void*); void* o; int tid; };
std::vector<Dtor>* dtors;
int tls_cur = 0;
void tls_setup() {
  static bool done = false;
  if(done) return;
  done = true;
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
    for(int k = 0; k < i->dlpi_phnum; ++k)
      if(i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
        tls_base = (char*)i->dlpi_tls_data;
        tls_size = i->dlpi_phdr[k].p_memsz;
        tls_init = i->dlpi_phdr[k].p_filesz;
        tls_image = (const char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      }
    return 1;   // the first object is the program itself
  }, nullptr);
  for(auto& t : tls_of) if(tls_size) t = (char*)calloc(1, tls_size);
}
void tls_fresh(char* p) { memset(p, 0, tls_size); memcpy(p, tls_image, tls_init); }
void tls_select(int tid) {   // save the current image, load another
  if(!tls_size || tid == tls_cur) return;
  memcpy(tls_of[tls_cur], tls_base, tls_size);
  memcpy(tls_base, tls_of[tid], tls_size);
  tls_cur = tid;
}
void tls_in() { Thread* t = self(); tls_select(t ? t->tid : 0); }
void tls_begin() {   // between runs: all threads end
  tls_setup();
  if(!dtors) dtors = new std::vector<Dtor>;
  while(!dtors->empty()) {
    Dtor d = dtors->back();
    dtors->pop_back();
    tls_select(d.tid);
    d.f(d.o);
  }
  if(!tls_size) return;
  tls_cur = 0;
  tls_fresh(tls_base);
  for(auto& t : tls_of) tls_fresh(t);
}
void preempt(const char* what) {
  busy = true;
  st.preemptions++;
  sim::yield(what);
  tls_in();
  busy = false;
}
long draw_gap() {
  if(cfg.gap <= 0) return 1L << 40;
  uint32_t d = sim::choose((uint32_t)cfg.gap * 2, "omp.gap");
  return d ? (long)d : cfg.gap * 8L;
}
inline void access(const void* p, size_t n, bool w, const void* pc, bool atomic = false) {
  if(busy || !n || !sim::in_run()) return;
  uintptr_t a = (uintptr_t)p;
  if(ptab) {
    uintptr_t e = a + n;
    for(uintptr_t x = a; x < e;) {
      size_t lo = x & 7, hi = std::min<uintptr_t>(8, lo + (e - x));
      uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
      PEnt* q = pfind(x >> 3, false);
      if(q && (q->mask & m)) {
        busy = true;
        fail("bad-access", "%s of %zu bytes outside any live heap block: %s (code offset 0x%lx)", w ? "write" : "read", n, heap_where(x, hi - lo).c_str(),
             (unsigned long)((uintptr_t)pc - (uintptr_t)&__executable_start));
      }
      x += hi - lo;
    }
  }
  Thread* t = self();
  if(!t) return;
  if(tls_size && a - (uintptr_t)tls_base < tls_size) return;   // thread_local
  st.accesses++;
  if(--t->left <= 0) {
    busy = true;
    t->left = draw_gap();
    busy = false;
    preempt(w ? "write" : "read");
  }
  touch(t, a, n, w, atomic, pc);
}
}  // namespace

namespace simomp {
void configure(const Config& c) {
  cfg = c;
  if(cfg.max_threads > MAXT) cfg.max_threads = MAXT;
}
void begin() {
  Busy b;
  tls_begin();
  cfg = Config{};
  nblk = 0;
  st = Stats{};
  next_id = 0;
  if(!locks) locks = new std::map<void*, Lock>;
  if(!atomics) atomics = new std::map<uintptr_t, VC>;
  if(!quarantine) quarantine = new std::vector<void*>;
  locks->clear();
  atomics->clear();
  auto q = *quarantine;
  quarantine->clear();
  for(void* p : q) free(p);
  pgen++;
  pcount = 0;
  sgen++;
  scount = 0;
  sfull = false;
  b.o = false;
}
const Stats& stats() { return st; }
}  // namespace simomp

// ---------------------------------------------------------- operator new ----
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
static void* new_block(size_t n) {
  if(n > (size_t)1 << 31) throw std::bad_alloc();
  char* p = (char*)__real_malloc(n + 16 + 2 * RZ);
  if(!p) abort();
  Head* h = (Head*)p;
  h->magic = MAGIC;
  h->size = n;
  h->id = 0;
  char* u = p + 16 + RZ;
  if(sim::in_run()) {
    h->id = ++next_id;
    if(!busy) {
      if(nblk == cblk) blks = (Blk*)__real_realloc(blks, (cblk = cblk ? 2 * cblk : 1024) * sizeof(Blk));
      blks[nblk++] = {(uintptr_t)u, n, h->id};
    }
    forget(p, n + 16 + 2 * RZ);
    if(ptab && !busy) poison(p, n + 16 + 2 * RZ, false);
    if(!busy) {
      poison(p, 16 + RZ, true);
      poison(u + n, RZ, true);
      bool o = busy; busy = true; memset(u, 0xCD, n); busy = o;
    }
  }
  return u;
}
static void delete_block(void* u) {
  if(!u) return;
  char* p = (char*)u - 16 - RZ;
  Head* h = (Head*)p;
  if(h->magic != MAGIC) {
    if(sim::in_run()) { busy = true; fail("bad-access", "delete of memory that was not allocated or was released before"); }
    abort();
  }
  h->magic = ~MAGIC;
  if(sim::in_run() && !busy && quarantine && h->size < 65536) {
    Thread* t = self();
    if(t) touch(t, (uintptr_t)u, h->size, true, false, __builtin_return_address(0));
    poison(u, h->size, true);
    bool o = busy; busy = true;
    quarantine->push_back(p);
    busy = o;
    return;
  }
  if(sim::in_run()) forget(p, h->size + 16 + 2 * RZ);
  if(ptab && sim::in_run()) poison(p, h->size + 16 + 2 * RZ, false);
  __real_free(p);
}
void* operator new(size_t n) { return new_block(n); }
void* operator new[](size_t n) { return new_block(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_block(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_block(n); }
void operator delete(void* p) noexcept { delete_block(p); }
void operator delete[](void* p) noexcept { delete_block(p); }
void operator delete(void* p, size_t) noexcept { delete_block(p); }
void operator delete[](void* p, size_t) noexcept { delete_block(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delete_block(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delete_block(p); }

// ---------------------------------------------------- libc memory functions --
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  access(s, n, false, __builtin_return_address(0));
  access(d, n, true, __builtin_return_address(0));
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  access(s, n, false, __builtin_return_address(0));
  access(d, n, true, __builtin_return_address(0));
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  access(d, n, true, __builtin_return_address(0));
  return __real_memset(d, c, n);
}
void* __wrap_malloc(size_t n) {
  void* p = __real_malloc(n);
  if(p && sim::in_run()) { size_t u = malloc_usable_size(p); forget(p, u); if(ptab) poison(p, u, false); }
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  void* p = __real_calloc(a, b);
  if(p && sim::in_run()) { size_t u = malloc_usable_size(p); forget(p, u); if(ptab) poison(p, u, false); }
  return p;
}
void* __wrap_realloc(void* q, size_t n) {
  void* p = __real_realloc(q, n);
  if(p && sim::in_run()) { size_t u = malloc_usable_size(p); forget(p, u); if(ptab) poison(p, u, false); }
  return p;
}
void __wrap_free(void* p) { __real_free(p); }
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void*) {
  Busy b;
  Thread* t = self();
  if(!dtors) dtors = new std::vector<Dtor>;
  dtors->push_back({f, o, t ? t->tid : 0});
  return 0;
}

// --------------------------------------------------------- instrumentation --
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define PC __builtin_return_address(0)
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_write##N(void* p) { access(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
}
static void at_pre(const volatile void* p, size_t n, int mo, bool w, const void* pc) {
  access((const void*)p, n, w, pc, true);
  Thread* t = busy ? nullptr : self();
  if(!t) return;
  Busy b;
  VC& v = (*atomics)[(uintptr_t)p];
  bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if(acq) t->vc.join(v);
  if(w && rel) { v.join(t->vc); t->vc.c[t->tid]++; }
}
extern "C" {
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { at_pre(a, B / 8, mo, false, PC); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); T o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); T o = *a; *a = (T)(o ^ v); return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, B / 8, mo, true, PC); T o = *a; *a = (T)~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { \
    at_pre(a, B / 8, mo, true, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { \
    at_pre(a, B / 8, mo, true, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { \
    at_pre(a, B / 8, mo, true, PC); T o = *a; if(o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------ OpenMP runtime --
static void run_team(void (*fn)(void*), void* data, unsigned nt, const std::function<void(Team&)>& setup = {}) {
  Thread* outer = self();
  if(!sim::in_run()) { fn(data); return; }
  if(outer) {   // nested: one thread
    outer->depth++;
    fn(data);
    outer->depth--;
    return;
  }
  bool o = busy;
  busy = true;
  int want = nt ? (int)nt : cfg.max_threads;
  if(want > MAXT) want = MAXT;
  int n = want;
  if(cfg.deliver > 0 && cfg.deliver < n) { n = cfg.deliver; st.fewer++; sim::fault("omp.fewer-threads"); }
  st.regions++;
  st.threads += n;
  auto team = new Team;
  team->n = n;
  if(setup) setup(*team);
  sgen++;
  scount = 0;
  atomics->clear();
  sim::Fiber* fib[MAXT];
  for(int i = 0; i < n; ++i) {
    Thread& t = team->th[i];
    t.team = team;
    t.tid = i;
    t.vc.c[i] = 1;
    t.left = draw_gap();
    fib[i] = sim::spawn([fn, data] {
      tls_in();
      busy = false;
      fn(data);
      busy = true;
    }, "thread" + std::to_string(i), &t);
  }
  sim::note("parallel region, %d threads (%d asked for)", n, want);
  sim::run_all(5000000);
  tls_in();
  for(int i = 0; i < n; ++i)
    if(!sim::fiber_error(fib[i]).empty()) fail("threw", "thread %d of a parallel region ended by an exception: %s", i, sim::fiber_error(fib[i]).c_str());
  delete team;
  sgen++;
  scount = 0;
  busy = o;
}
static int tnum() { Thread* t = self(); return !t || t->depth ? 0 : t->tid; }
static int tcount() { Thread* t = self(); return !t || t->depth ? 1 : t->team->n; }

static bool alone() { Thread* t = self(); return !t || t->depth; }
static void barrier() {
  Thread* t = self();
  if(!t || t->depth || t->team->n == 1) return;
  busy = true;
  Team& m = *t->team;
  uint64_t g = m.bgen;
  VC& v = m.bvc[g & 1];
  v.join(t->vc);
  if(++m.arrived == m.n) {
    m.arrived = 0;
    m.bgen++;
    m.bvc[m.bgen & 1] = VC{};
  } else
    sim::block_until([&m, g] { return m.bgen != g; }, "barrier");
  busy = true;
  tls_in();
  t->vc.join(v);
  t->vc.c[t->tid]++;
  busy = false;
}
static void lock(void* key) {
  Thread* t = self();
  if(!t) return;
  busy = true;
  Lock& l = (*locks)[key];
  if(l.held) sim::block_until([&l] { return !l.held; }, "lock");
  busy = true;
  tls_in();
  l.held = true;
  l.owner = t->tid;
  t->vc.join(l.vc);
  busy = false;
}
static void unlock(void* key) {
  Thread* t = self();
  if(!t) return;
  busy = true;
  Lock& l = (*locks)[key];
  l.vc = t->vc;
  t->vc.c[t->tid]++;
  l.held = false;
  busy = false;
  preempt("unlock");
}
static Work& work(bool advance) {
  Thread* t = self();
  if(advance) t->ws++;
  return t->team->work[t->ws];
}
static bool take(Work& w, long* s, long* e, bool guided) {
  Thread* t = self();
  if(w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  long c = w.chunk;
  if(guided) {
    long left = (w.end - w.next + w.incr + (w.incr > 0 ? -1 : 1)) / w.incr;
    c = std::max(c, left / t->team->n);
  }
  long nx = w.next + c * w.incr;
  if(w.incr > 0 ? nx > w.end : nx < w.end) nx = w.end;
  *s = w.next;
  *e = nx;
  w.next = nx;
  return true;
}
static bool loop_next(long* s, long* e, bool guided) {
  if(alone()) return false;
  preempt("loop");
  busy = true;
  bool r = take(work(false), s, e, guided);
  busy = false;
  return r;
}
static bool loop_start(long st_, long en, long inc, long chunk, long* s, long* e, bool guided) {
  if(alone()) {   // orphaned or nested: everything at once
    if(inc > 0 ? st_ >= en : st_ <= en) return false;
    *s = st_; *e = en;
    return true;
  }
  busy = true;
  Work& w = work(true);
  if(!w.init) { w.init = true; w.next = st_; w.end = en; w.incr = inc; w.chunk = chunk > 0 ? chunk : 1; }
  busy = false;
  return loop_next(s, e, guided);
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { run_team(fn, d, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
void GOMP_critical_start() { lock((void*)1); }
void GOMP_critical_end() { unlock((void*)1); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock((void*)2); }
void GOMP_atomic_end() { unlock((void*)2); }
bool GOMP_single_start() {
  if(alone()) return true;
  preempt("single");
  busy = true;
  Work& w = work(true);
  bool first = !w.single;
  w.single = true;
  busy = false;
  return first;
}
#define PLOOP(NAME, G) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    run_team(fn, d, n, [=](Team& t) { Work& w = t.work[0]; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; }); } \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b, G); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b, G); }
PLOOP(dynamic, false) PLOOP(nonmonotonic_dynamic, false) PLOOP(guided, true) PLOOP(nonmonotonic_guided, true) PLOOP(static, false)
#define PLOOPR(NAME) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { \
    run_team(fn, d, n, [=](Team& t) { Work& w = t.work[0]; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = 1; }); } \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b, false); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b, false); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
#define ULOOP(NAME, G) \
  bool GOMP_loop_ull_##NAME##_start(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loop_start((long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b, G); } \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return loop_next((long*)a, (long*)b, G); }
ULOOP(dynamic, false) ULOOP(nonmonotonic_dynamic, false) ULOOP(guided, true) ULOOP(nonmonotonic_guided, true) ULOOP(static, false)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) {
  run_team(fn, d, n, [=](Team& t) { Work& w = t.work[0]; w.init = true; w.next = 1; w.end = cnt + 1; });
}
unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e, false) ? (unsigned)s : 0; }
unsigned GOMP_sections_start(unsigned c) { long s, e; return loop_start(1, (long)c + 1, 1, 1, &s, &e, false) ? (unsigned)s : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if(cpy) {
    std::vector<char> b(sz + al);
    char* p = (char*)(((uintptr_t)b.data() + al - 1) & ~(uintptr_t)(al - 1));
    cpy(p, data);
    fn(p);
  } else fn(data);
}
void GOMP_taskwait() {}
int omp_get_thread_num() { return tnum(); }
int omp_get_num_threads() { return tcount(); }
int omp_get_max_threads() { return cfg.max_threads; }
int omp_get_num_procs() { return cfg.max_threads; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return tcount() > 1; }
int omp_get_level() { return self() ? 1 + self()->depth : 0; }
int omp_get_dynamic() { return 1; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_num_threads(int n) { cfg.max_threads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
double omp_get_wtime() { return 0; }
void omp_init_lock(void** l) { *l = nullptr; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock(l); }
void omp_unset_lock(void** l) { unlock(l); }
}
