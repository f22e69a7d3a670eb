#include "simmpi.hpp"
#include "simio.hpp"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <algorithm>
#include <chrono>
#include <random>
#include <ctime>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>

using sim::fail;

// ------------------------------------------------------------------ handles --
struct simmpi_type {
  const char* name;
  char cls;            // i u f c b p z
  size_t esize;        // basic element
  size_t n;            // basic elements per item
  bool predefined;
  bool committed;
  bool freed;
  int owner;
  size_t size() const { return esize * n; }
};
struct simmpi_op { const char* name; int id; MPI_User_function* fn = nullptr; bool commute = true; bool freed = false; };

struct Sig {           // type signature of a buffer
  char cls = 0;
  size_t esize = 0, n = 0;  // n basic elements
  bool operator==(const Sig& o) const { return n == o.n && (n == 0 || (esize == o.esize && norm() == o.norm())); }
  char norm() const { return cls == 'u' ? 'i' : (cls == 'b' ? 'c' : cls); }
  std::string str() const { char b[64]; snprintf(b, 64, "%zu x %c%zu", n, cls, esize); return b; }
};

enum Kind { BARRIER, BCAST, REDUCE, ALLREDUCE, REDSCAT, SCAN, EXSCAN, GATHER, SCATTER, ALLGATHER, ALLTOALL, DUP, SPLIT, NKIND };
static const char* const KN[] = {"Barrier", "Bcast", "Reduce", "Allreduce", "Reduce_scatter", "Scan", "Exscan", "Gather", "Scatter", "Allgather", "Alltoall", "Comm_dup", "Comm_split"};

struct Contrib {
  bool arrived = false, left = false;
  std::vector<char> data;
  std::vector<Sig> sigs;              // per destination for alltoall/scatter
  std::vector<size_t> off;            // offsets in data
  std::vector<Sig> expect;            // what the rank expects from each other rank
  int color = 0, key = 0;
};
struct Slot {
  Kind kind;
  int root = -1;
  MPI_Op op = nullptr;
  Sig sig;
  bool variant_drawn = false;
  uint32_t variant = 0;
  std::vector<int> counts;
  bool have_counts = false, nb = false;
  std::vector<Contrib> c;
  std::vector<MPI_Comm> result;
  size_t arrived = 0, left = 0;
};
struct simmpi_req;
struct Msg {
  int src, dst, tag;
  std::vector<char> data;
  const void* sbuf = nullptr;
  size_t bytes = 0;
  uint64_t csum = 0;
  bool sampled = false, matched = false;
  Sig sig;
  simmpi_req* sreq = nullptr;
  uint64_t id = 0;
};
struct simmpi_comm {
  int id = 0;
  bool predefined = false;
  std::vector<int> mem;                // world ranks
  std::vector<uint64_t> seq;           // collectives entered, per member
  std::vector<char> freed;
  std::map<uint64_t, Slot> slots;
  std::map<std::pair<int, int>, std::deque<Msg*>> net;   // (src,dst) comm ranks
  std::map<int, std::list<Msg*>> unexpected;             // by dst
  std::map<int, std::list<simmpi_req*>> posted;
};
struct simmpi_req {
  bool send = false, complete = false, delivered = false, live = true;
  void* buf = nullptr;
  size_t cap = 0;
  Sig sig;
  int src = 0, tag = 0, owner = -1;
  MPI_Comm comm = nullptr;
  std::vector<char> orig;
  Msg* msg = nullptr;
  MPI_Status st{};
  const char* what = "";
  std::function<bool()> pred;         // of a non-blocking collective: may it complete?
  std::function<void()> finish;
};
static bool ready(simmpi_req* q) { return q->complete || (q->pred && q->pred()); }

extern "C" {
struct simmpi_comm simmpi_world, simmpi_self;
#define T(n, c, t) struct simmpi_type simmpi_t_##n = {#n, c, sizeof(t), 1, true, true, false, -1};
struct dint { double d; int i; };
struct fint { float f; int i; };
struct lint { long l; int i; };
struct iint { int a, b; };
T(CHAR, 'c', char) T(SIGNED_CHAR, 'i', char) T(UNSIGNED_CHAR, 'u', char) T(BYTE, 'b', char) T(SHORT, 'i', short)
T(UNSIGNED_SHORT, 'u', short) T(INT, 'i', int) T(UNSIGNED, 'u', unsigned) T(LONG, 'i', long) T(UNSIGNED_LONG, 'u', long)
T(LONG_LONG, 'i', long long) T(UNSIGNED_LONG_LONG, 'u', long long) T(FLOAT, 'f', float) T(DOUBLE, 'f', double)
T(LONG_DOUBLE, 'f', long double) T(INT8_T, 'i', int8_t) T(UINT8_T, 'u', int8_t) T(INT16_T, 'i', int16_t) T(UINT16_T, 'u', int16_t)
T(INT32_T, 'i', int32_t) T(UINT32_T, 'u', int32_t) T(INT64_T, 'i', int64_t) T(UINT64_T, 'u', int64_t) T(CXX_BOOL, 'c', bool)
T(C_BOOL, 'c', bool) T(DOUBLE_INT, 'p', dint) T(FLOAT_INT, 'p', fint) T(LONG_INT, 'p', lint) T(2INT, 'p', iint) T(AINT, 'i', MPI_Aint)
T(OFFSET, 'i', MPI_Offset) T(COUNT, 'i', MPI_Count) T(PACKED, 'b', char) 
struct simmpi_type simmpi_t_C_FLOAT_COMPLEX = {"C_FLOAT_COMPLEX", 'z', 8, 1, true, true, false, -1};
struct simmpi_type simmpi_t_C_DOUBLE_COMPLEX = {"C_DOUBLE_COMPLEX", 'z', 16, 1, true, true, false, -1};
#undef T
enum { OP_SUM, OP_PROD, OP_MAX, OP_MIN, OP_LAND, OP_BAND, OP_LOR, OP_BOR, OP_LXOR, OP_BXOR, OP_MINLOC, OP_MAXLOC, OP_REPLACE, OP_USER };
#define X(n) struct simmpi_op simmpi_op_##n = {#n, OP_##n};
SIMMPI_OPS(X)
#undef X
}

namespace simmpi {
struct RankCtx {
  uint64_t libc_rand = 1;
  int rank = 0;
  sim::Rng rng{0};
  int64_t skew = 0;
  bool jumps = false;
  uint64_t steady = 0;
  uint64_t spins = 0;
  uint64_t lat = 0;
};
static RankCtx g_main;
struct Job {
  bool active = false;
  int n = 0;
  std::vector<std::unique_ptr<RankCtx>> ctx;
  std::vector<std::unique_ptr<simmpi_comm>> comms;
  std::vector<std::unique_ptr<simmpi_type>> types;
  std::vector<std::unique_ptr<simmpi_op>> ops;
  std::vector<std::unique_ptr<simmpi_req>> reqs;
  std::vector<std::unique_ptr<Msg>> msgs;
  std::vector<MPI_Comm> with_net;     // all communicators, in creation order
  uint64_t coll = 0, p2p = 0, progress = 0, points = 0, crash_at = 0;
  int next_comm = 1;
  uint64_t msgid = 0;
};
static Job J;
static struct Init { Init() { simmpi_world.predefined = simmpi_self.predefined = true; } } g_init;
static bool g_clock_faults = true;

static RankCtx& me() {
  auto f = sim::current();
  auto p = f ? (RankCtx*)sim::fiber_user(f) : nullptr;
  return p ? *p : g_main;
}
static bool in_job() { auto f = sim::current(); return f && sim::fiber_user(f); }
int world_rank() { return in_job() ? me().rank : -1; }
uint64_t collectives() { return J.coll; }
uint64_t messages() { return J.p2p; }
void clock_faults(bool b) { g_clock_faults = b; }

void crash_point() {
  if(!in_job() || !J.active) return;
  J.points++;
  if(J.crash_at && J.points == J.crash_at) {
    sim::fault("crash.job");
    sim::abort_job("process crash");
  }
}
static void enter_call(const char* name) {
  if(!in_job()) return;
  crash_point();
  auto& r = me();
  r.lat = r.lat * 6364136223846793005ull + 1442695040888963407ull;
  sim::advance_time(500 + (r.lat >> 44) % 20000);
  sim::yield(name);
}
static std::vector<int> main_mem{0};
static const std::vector<int>& members(MPI_Comm c) {
  if(c == &simmpi_self) { static thread_local std::vector<int> v{0}; v[0] = me().rank; return v; }
  if(c == &simmpi_world && !in_job()) return main_mem;
  return c->mem;
}
static void check_comm(MPI_Comm c, const char* fn) {
  if(!c) fail("mpi-misuse", "%s on MPI_COMM_NULL", fn);
  if(!c->predefined) {
    bool known = false;
    for(auto& p : J.comms) known |= p.get() == c;
    if(!known) fail("mpi-misuse", "%s on an invalid communicator", fn);
  }
}
static int rank_in(MPI_Comm c) {
  auto& m = members(c);
  int w = me().rank;
  for(size_t i = 0; i < m.size(); ++i) if(m[i] == w) return (int)i;
  return -1;
}
static void check_member(MPI_Comm c, const char* fn) {
  check_comm(c, fn);
  int r = rank_in(c);
  if(r < 0) fail("mpi-misuse", "%s: rank %d is not in the communicator", fn, me().rank);
  if(!c->predefined && c->freed[r]) fail("mpi-misuse", "%s: communicator already freed", fn);
}
static void check_type(MPI_Datatype t, const char* fn) {
  if(!t) fail("mpi-misuse", "%s with MPI_DATATYPE_NULL", fn);
  if(!t->predefined) {
    bool known = false;
    for(auto& p : J.types) known |= p.get() == t;
    if(!known) fail("mpi-misuse", "%s with an invalid datatype handle", fn);
  }
  if(t->freed) fail("mpi-misuse", "%s with a datatype that was freed", fn);
  if(!t->committed) fail("mpi-misuse", "%s with an uncommitted datatype", fn);
}
static Sig mksig(int count, MPI_Datatype t, const char* fn) {
  check_type(t, fn);
  if(count < 0) fail("mpi-misuse", "%s with negative count %d", fn, count);
  return Sig{t->cls, t->esize, t->n * (size_t)count};
}
static uint64_t csum(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  uint64_t h = 14695981039346656037ull;
  for(size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
static bool overlap(const void* a, size_t n, const void* b, size_t m) {
  if(!n || !m) return false;
  auto x = (uintptr_t)a, y = (uintptr_t)b;
  return x < y + m && y < x + n;
}
static void copyin(std::vector<char>& d, const void* p, size_t n) {
  d.assign(n, 0);
  if(n) memcpy(d.data(), p, n);
}

// -------------------------------------------------------------- reductions --
template <class V> static void red_num(V* a, const V* b, size_t n, int op) {
  for(size_t i = 0; i < n; ++i) switch(op) {
      case OP_SUM: a[i] = a[i] + b[i]; break;
      case OP_PROD: a[i] = a[i] * b[i]; break;
      case OP_MAX: a[i] = a[i] < b[i] ? b[i] : a[i]; break;
      case OP_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
      case OP_LAND: a[i] = (a[i] && b[i]); break;
      case OP_LOR: a[i] = (a[i] || b[i]); break;
      case OP_LXOR: a[i] = (!a[i] != !b[i]); break;
      case OP_REPLACE: a[i] = b[i]; break;
      default: fail("mpi-misuse", "reduction operator not defined for this type");
    }
}
template <class V> static void red_int(V* a, const V* b, size_t n, int op) {
  switch(op) {
    case OP_BAND: for(size_t i = 0; i < n; ++i) a[i] &= b[i]; return;
    case OP_BOR: for(size_t i = 0; i < n; ++i) a[i] |= b[i]; return;
    case OP_BXOR: for(size_t i = 0; i < n; ++i) a[i] ^= b[i]; return;
    case OP_SUM: for(size_t i = 0; i < n; ++i) a[i] = (V)((uint64_t)a[i] + (uint64_t)b[i]); return;
    case OP_PROD: for(size_t i = 0; i < n; ++i) a[i] = (V)((uint64_t)a[i] * (uint64_t)b[i]); return;
    default: red_num(a, b, n, op);
  }
}
template <class P> static void red_loc(P* a, const P* b, size_t n, int op) {
  for(size_t i = 0; i < n; ++i) {
    auto av = *(decltype(P::v)*)&a[i].v;
    if(op == OP_MINLOC) { if(b[i].v < av || (b[i].v == av && b[i].i < a[i].i)) a[i] = b[i]; }
    else if(op == OP_MAXLOC) { if(av < b[i].v || (b[i].v == av && b[i].i < a[i].i)) a[i] = b[i]; }
    else fail("mpi-misuse", "operator on pair type");
  }
}
struct pd { double v; int i; }; struct pf { float v; int i; }; struct pl { long v; int i; }; struct pi2 { int v; int i; };
static void reduce_range(char* a, const char* b, const Sig& s, size_t n, MPI_Op op, MPI_Datatype t) {
  if(op->fn) { int len = (int)(n / (t->n ? t->n : 1)); MPI_Datatype tt = t; op->fn((void*)b, a, &len, &tt); return; }
  int o = op->id;
  switch(s.cls) {
    case 'f':
      if(s.esize == 8) red_num((double*)a, (const double*)b, n, o);
      else if(s.esize == 4) red_num((float*)a, (const float*)b, n, o);
      else red_num((long double*)a, (const long double*)b, n, o);
      break;
    case 'i': case 'c': case 'b':
      if(s.cls == 'c' && !(s.esize == 1)) fail("mpi-misuse", "type");
      if(s.esize == 1) red_int((int8_t*)a, (const int8_t*)b, n, o);
      else if(s.esize == 2) red_int((int16_t*)a, (const int16_t*)b, n, o);
      else if(s.esize == 4) red_int((int32_t*)a, (const int32_t*)b, n, o);
      else red_int((int64_t*)a, (const int64_t*)b, n, o);
      break;
    case 'u':
      if(s.esize == 1) red_int((uint8_t*)a, (const uint8_t*)b, n, o);
      else if(s.esize == 2) red_int((uint16_t*)a, (const uint16_t*)b, n, o);
      else if(s.esize == 4) red_int((uint32_t*)a, (const uint32_t*)b, n, o);
      else red_int((uint64_t*)a, (const uint64_t*)b, n, o);
      break;
    case 'z':
      if(o != OP_SUM) fail("mpi-misuse", "complex reduction");
      if(s.esize == 16) red_num((double*)a, (const double*)b, 2 * n, o); else red_num((float*)a, (const float*)b, 2 * n, o);
      break;
    case 'p':
      if(s.esize == sizeof(pd) && t == MPI_DOUBLE_INT) red_loc((pd*)a, (const pd*)b, n, o);
      else if(t == MPI_FLOAT_INT) red_loc((pf*)a, (const pf*)b, n, o);
      else if(t == MPI_LONG_INT) red_loc((pl*)a, (const pl*)b, n, o);
      else red_loc((pi2*)a, (const pi2*)b, n, o);
      break;
  }
}
// Combine contributions [0,upto) of a slot in the order the slot drew.
static std::vector<char> reduce_all(Slot& s, size_t upto, MPI_Datatype t) {
  size_t P = upto, n = s.sig.n, es = s.sig.esize;
  bool fp = s.sig.cls == 'f' || s.sig.cls == 'z';
  if(!s.variant_drawn) {
    s.variant_drawn = true;
    if(fp && s.c.size() > 2 && s.op->commute && n) s.variant = sim::choose(8, "mpi.redorder");
    if(s.variant) sim::fault("mpi.reduction-order");
  }
  std::vector<char> out(n * es);
  if(!n) return out;
  std::vector<int> ord(P);
  for(size_t i = 0; i < P; ++i) ord[i] = (int)i;
  auto perm = [&](uint64_t v) {
    for(size_t i = 0; i < P; ++i) ord[i] = (int)i;
    if(!v) return;
    sim::Rng g(v);
    for(size_t i = P; i > 1; --i) std::swap(ord[i - 1], ord[g.below((uint32_t)i)]);
  };
  if(s.variant >= 4 && t->n == 1) {
    for(size_t e = 0; e < n; ++e) {
      perm(s.variant * 1000 + e);
      memcpy(&out[e * es], &s.c[ord[0]].data[e * es], es);
      for(size_t k = 1; k < P; ++k) reduce_range(&out[e * es], &s.c[ord[k]].data[e * es], s.sig, 1, s.op, t);
    }
    return out;
  }
  perm(s.variant);
  memcpy(out.data(), s.c[ord[0]].data.data(), n * es);
  for(size_t k = 1; k < P; ++k) {
    if(s.op->fn && !s.op->commute) {   // op(a,b): inout = b on the right
      std::vector<char> r = s.c[ord[k]].data;
      reduce_range(r.data(), out.data(), s.sig, n, s.op, t);
      out = r;
    } else reduce_range(out.data(), s.c[ord[k]].data.data(), s.sig, n, s.op, t);
  }
  return out;
}

// -------------------------------------------------------------- collectives --
struct Entry { Slot* s; int r; size_t P; MPI_Comm c; uint64_t seq; };
static Entry coll_enter(MPI_Comm c, Kind k, int root, MPI_Op op, const Sig* sig, const std::vector<int>* counts, bool nb = false) {
  std::string fn = std::string("MPI_") + KN[k];
  check_member(c, fn.c_str());
  auto& m = members(c);
  size_t P = m.size();
  int r = rank_in(c);
  if(root != -1 && (root < 0 || (size_t)root >= P)) fail("mpi-misuse", "%s: invalid root %d of %zu", fn.c_str(), root, P);
  if(op && op->freed) fail("mpi-misuse", "%s: operator was freed", fn.c_str());
  enter_call(KN[k]);
  J.coll++;
  J.progress++;
  // communicators private to one process (self, or used outside a job) get fresh slots
  static Slot solo;
  if(P == 1) {
    solo = Slot{};
    solo.kind = k; solo.root = root; solo.op = op; if(sig) solo.sig = *sig;
    solo.c.resize(1);
    solo.c[0].arrived = true; solo.arrived = 1;
    return Entry{&solo, 0, 1, c, 0};
  }
  if(c->seq.size() != P) c->seq.assign(P, 0);
  uint64_t sq = c->seq[r]++;
  auto it = c->slots.find(sq);
  if(it == c->slots.end()) {
    Slot s;
    s.kind = k; s.root = root; s.op = op; s.nb = nb; if(sig) s.sig = *sig;
    if(counts) { s.counts = *counts; s.have_counts = true; }
    s.c.resize(P);
    it = c->slots.emplace(sq, std::move(s)).first;
  }
  Slot& s = it->second;
  if(s.kind != k) fail("collective-mismatch", "rank %d calls MPI_%s where another rank of the communicator called MPI_%s (collective #%llu)", r, KN[k], KN[s.kind], (unsigned long long)sq);
  if(s.nb != nb) fail("collective-mismatch", "MPI_%s: a blocking call on one rank meets a non-blocking one on another", KN[k]);
  if(s.root != root) fail("collective-mismatch", "MPI_%s: rank %d uses root %d, another rank root %d", KN[k], r, root, s.root);
  if(s.op != op) fail("collective-mismatch", "MPI_%s: rank %d uses operator %s, another rank %s", KN[k], r, op ? op->name : "-", s.op ? s.op->name : "-");
  if(sig && !(s.sig == *sig)) fail("collective-mismatch", "MPI_%s: rank %d passes %s, another rank %s", KN[k], r, sig->str().c_str(), s.sig.str().c_str());
  if(counts && s.have_counts && s.counts != *counts) fail("collective-mismatch", "MPI_%s: receive counts differ between ranks", KN[k]);
  if(counts && !s.have_counts) { s.counts = *counts; s.have_counts = true; }
  s.c[r].arrived = true;
  s.arrived++;
  return Entry{&s, r, P, c, sq};
}
static void wait_all(Entry& e, const char* fn) {
  Slot* s = e.s;
  if(s->arrived < e.P) sim::block_until([s, &e] { return s->arrived == e.P; }, fn);
}
static void wait_upto(Entry& e, int upto, const char* fn) {
  Slot* s = e.s;
  auto ok = [s, upto] { for(int i = 0; i <= upto; ++i) if(!s->c[i].arrived) return false; return true; };
  if(!ok()) sim::block_until(ok, fn);
}
static void wait_root(Entry& e, const char* fn) {
  Slot* s = e.s;
  int root = s->root;
  if(!s->c[root].arrived) sim::block_until([s, root] { return s->c[root].arrived; }, fn);
}
static void coll_leave(Entry& e) {
  if(e.P == 1) return;
  e.s->c[e.r].left = true;
  if(++e.s->left == e.P) e.c->slots.erase(e.seq);
}
static bool early(Entry& e) {   // may a rank whose part is done return before the others?
  return e.P > 1 && sim::flip(1, 2, "mpi.early");
}

// ---------------------------------------------------------- point to point --
static void poison(simmpi_req* q) {
  copyin(q->orig, q->buf, q->cap);
  memset(q->buf, 0xCB, q->cap);
}
static void sample(Msg* m) {
  if(m->sampled) return;
  m->sampled = true;
  if(m->bytes && csum(m->sbuf, m->bytes) != m->csum)
    fail("send-buffer-modified", "send buffer of message %d->%d tag %d changed before the send completed", m->src, m->dst, m->tag);
  copyin(m->data, m->sbuf, m->bytes);
}
static void deliver(simmpi_req* q) {
  if(q->delivered || !q->msg) return;
  q->delivered = true;
  Msg* m = q->msg;
  for(size_t i = 0; i < q->cap; ++i)
    if((unsigned char)((char*)q->buf)[i] != 0xCB) fail("recv-buffer-touched", "receive buffer for message %d->%d tag %d was written before the receive completed", m->src, m->dst, m->tag);
  if(m->bytes > q->cap) fail("mpi-truncate", "message %d->%d tag %d of %zu bytes exceeds receive buffer of %zu bytes", m->src, m->dst, m->tag, m->bytes, q->cap);
  if(m->bytes && (m->sig.norm() != q->sig.norm() || m->sig.esize != q->sig.esize))
    fail("mpi-type-mismatch", "message %d->%d tag %d sent as %s received as %s", m->src, m->dst, m->tag, m->sig.str().c_str(), q->sig.str().c_str());
  if(q->cap) memcpy(q->buf, q->orig.data(), q->cap);
  if(m->bytes) memcpy(q->buf, m->data.data(), m->bytes);
}
static void match(simmpi_req* q, Msg* m) {
  sample(m);
  m->matched = true;
  q->msg = m;
  q->st.MPI_SOURCE = m->src;
  q->st.MPI_TAG = m->tag;
  q->st._bytes = m->bytes;
  if(m->sreq) m->sreq->complete = true;
  q->complete = true;
  J.progress++;
  if(sim::flip(1, 2, "mpi.deliver-early")) deliver(q);
}
static bool fits(int src, int tag, const Msg* m) {
  return (src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag);
}
static void arrive(MPI_Comm c, Msg* m) {
  if(m->sreq || m->sbuf) { if(!m->sampled) sample(m); }
  J.progress++;
  auto& po = c->posted[m->dst];
  for(auto it = po.begin(); it != po.end(); ++it)
    if(fits((*it)->src, (*it)->tag, m)) { auto q = *it; po.erase(it); match(q, m); return; }
  c->unexpected[m->dst].push_back(m);
}
static Msg* post_send(const void* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, simmpi_req* q, bool eager, const char* fn) {
  Sig s = mksig(count, t, fn);
  if(tag < 0) fail("mpi-misuse", "%s with tag %d", fn, tag);
  auto m = std::make_unique<Msg>();
  Msg* p = m.get();
  p->src = rank_in(c); p->dst = dst; p->tag = tag; p->sig = s;
  p->bytes = s.esize * s.n;
  p->sbuf = buf;
  p->csum = csum(buf, p->bytes);
  p->sreq = q;
  p->id = ++J.msgid;
  if(eager) sample(p);
  J.msgs.push_back(std::move(m));
  c->net[{p->src, dst}].push_back(p);
  J.p2p++;
  J.progress++;
  return p;
}
static void check_peer(int p, MPI_Comm c, const char* fn, bool any) {
  if(any && p == MPI_ANY_SOURCE) return;
  if(p < 0 || (size_t)p >= members(c).size()) fail("mpi-misuse", "%s: invalid peer rank %d of %zu", fn, p, members(c).size());
}
static simmpi_req* new_req(bool send, MPI_Comm c, const char* what) {
  auto q = std::make_unique<simmpi_req>();
  q->send = send; q->comm = c; q->owner = me().rank; q->what = what;
  J.reqs.push_back(std::move(q));
  return J.reqs.back().get();
}
static simmpi_req* do_irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, const char* fn) {
  Sig s = mksig(count, t, fn);
  auto q = new_req(false, c, fn);
  q->buf = buf; q->sig = s; q->cap = s.esize * s.n; q->src = src; q->tag = tag;
  poison(q);
  int r = rank_in(c);
  auto& un = c->unexpected[r];
  for(auto it = un.begin(); it != un.end(); ++it)
    if(fits(src, tag, *it)) { auto m = *it; un.erase(it); match(q, m); return q; }
  c->posted[r].push_back(q);
  return q;
}
static void check_req(simmpi_req* q, const char* fn) {
  bool known = false;
  for(auto& p : J.reqs) known |= p.get() == q;
  if(!known) fail("mpi-misuse", "%s on an invalid request", fn);
  if(!q->live) fail("mpi-misuse", "%s on a request that was already completed", fn);
}
static void finish_req(MPI_Request* rq, MPI_Status* st) {
  simmpi_req* q = *rq;
  if(q->finish) q->finish(); else if(!q->send) deliver(q);
  if(st) *st = q->st;
  q->live = false;
  *rq = MPI_REQUEST_NULL;
}
static void empty_status(MPI_Status* st) { if(st) { *st = MPI_Status{MPI_ANY_SOURCE, MPI_ANY_TAG, 0, 0, 0}; } }
// Polling without success must not starve the network for ever.
static void spin(const char* fn) {
  auto& r = me();
  if(++r.spins > 4) {
    uint64_t p = J.progress;
    r.spins = 0;
    sim::block_until([p] { return J.progress != p; }, fn);
  }
}

// --------------------------------------------------------------------- jobs --
static size_t ev_count() {
  size_t n = 0;
  for(auto c : J.with_net) for(auto& kv : c->net) n += !kv.second.empty();
  return n;
}
static void ev_fire(size_t i) {
  for(auto c : J.with_net)
    for(auto& kv : c->net)
      if(!kv.second.empty()) {
        if(i == 0) { Msg* m = kv.second.front(); kv.second.pop_front(); arrive(c, m); return; }
        --i;
      }
}
static void reset_comm(simmpi_comm& c) {
  c.seq.clear(); c.freed.clear(); c.slots.clear(); c.net.clear(); c.unexpected.clear(); c.posted.clear();
}
static MPI_Comm make_comm(std::vector<int> mem) {
  auto c = std::make_unique<simmpi_comm>();
  c->id = J.next_comm++;
  c->mem = std::move(mem);
  c->seq.assign(c->mem.size(), 0);
  c->freed.assign(c->mem.size(), 0);
  J.with_net.push_back(c.get());
  J.comms.push_back(std::move(c));
  return J.comms.back().get();
}
JobResult run_job(int n, const std::function<void(int, MPI_Comm)>& body, JobOptions opt) {
  J = Job{};
  J.active = true;
  int kind = opt.comm_kind >= 0 ? opt.comm_kind : (int)sim::choose(4, "job.comm");
  if(kind == 3) kind = 0;
  int extra = kind == 2 ? (int)sim::choose(3, "job.extra") : 0;
  int nw = n + extra;
  J.n = nw;
  reset_comm(simmpi_world); reset_comm(simmpi_self);
  simmpi_world.mem.clear();
  for(int i = 0; i < nw; ++i) simmpi_world.mem.push_back(i);
  simmpi_world.seq.assign(nw, 0);
  J.with_net = {&simmpi_world, &simmpi_self};
  if(opt.allow_crash && sim::flip(1, 2, "job.crash")) {
    static const uint32_t sc[] = {8, 40, 200, 1000};
    J.crash_at = 1 + sim::choose(sc[sim::choose(4, "job.crash-scale")], "job.crash-at");
  }
  uint64_t cs = g_clock_faults ? sim::choose(0x7fffffff, "job.clocks") : 0;
  bool clockf = g_clock_faults && cs % 2 == 1;
  for(int i = 0; i < nw; ++i) {
    auto r = std::make_unique<RankCtx>();
    r->rank = i;
    r->rng = sim::Rng(cs * 64 + i);
    r->lat = cs + i;
    if(clockf) { r->skew = (int64_t)(r->rng.sym() * 3.6e12); r->jumps = r->rng.below(2); }
    J.ctx.push_back(std::move(r));
  }
  if(clockf) sim::fault("clock.skew");
  std::vector<int> order(nw);
  for(int i = 0; i < nw; ++i) order[i] = i;
  MPI_Comm comm = MPI_COMM_WORLD;
  if(kind == 2) {
    sim::Rng g(sim::choose(1000, "job.shuffle"));
    for(int i = nw; i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
    comm = make_comm(std::vector<int>(order.begin(), order.begin() + n));
    sim::probe("comm.subset-shuffled");
  } else if(kind == 1) { comm = make_comm(order); sim::probe("comm.dup"); }
  else sim::probe("comm.world");
  sim::set_event_source(ev_count, ev_fire);
  sim::set_deadlock_report([] {
    std::string s;
    for(auto c : J.with_net) for(auto& kv : c->posted) for(auto q : kv.second) s += "posted recv on comm rank " + std::to_string(kv.first) + " from " + std::to_string(q->src) + " tag " + std::to_string(q->tag) + "; ";
    return s;
  });
  JobResult res;
  res.errors.assign(n, "");
  std::vector<sim::Fiber*> fs;
  for(int i = 0; i < n; ++i) {
    RankCtx* ctx = J.ctx[order[i]].get();
    fs.push_back(sim::spawn([&body, i, comm] { body(i, comm); }, "rank" + std::to_string(i), ctx));
  }
  simio::set_hook([](const char* w) { if(in_job()) { crash_point(); sim::yield(w); } });
  auto st = sim::run_all(opt.max_steps);
  simio::set_hook(nullptr);
  J.active = false;
  res.crashed = st == sim::RunStatus::aborted;
  for(int i = 0; i < n; ++i) res.errors[i] = sim::fiber_error(fs[i]);
  sim::set_event_source(nullptr, nullptr);
  sim::set_deadlock_report(nullptr);
  sim::note("job ranks=%d comm=%d coll=%llu p2p=%llu crashed=%d", n, kind, (unsigned long long)J.coll, (unsigned long long)J.p2p, (int)res.crashed);
  return res;
}
void check_clean() {
  for(auto& q : J.reqs) if(q->live) fail("leak-request", "a request of %s on rank %d was never completed", q->what, q->owner);
  for(auto c : J.with_net) {
    for(auto& kv : c->net) if(!kv.second.empty()) fail("leak-message", "%zu messages %d->%d were never delivered", kv.second.size(), kv.first.first, kv.first.second);
    for(auto& kv : c->unexpected) if(!kv.second.empty()) fail("leak-message", "%zu messages for rank %d were never received (first: from %d tag %d)", kv.second.size(), kv.first, kv.second.front()->src, kv.second.front()->tag);
    for(auto& kv : c->slots) fail("collective-mismatch", "MPI_%s was not entered by every rank of the communicator", KN[kv.second.kind]);
  }
  for(auto& t : J.types) if(!t->freed) fail("leak-type", "a datatype (%s) created by rank %d was never freed", t->name, t->owner);
}
bool same_collectives(std::string* why) {
  for(auto c : J.with_net)
    for(size_t i = 1; i < c->seq.size(); ++i)
      if(c->seq[i] != c->seq[0] ) { if(why) *why = "ranks entered different numbers of collectives"; return false; }
  return true;
}
static int64_t clock_now(bool steady) {
  static int64_t outside = 0;
  if(!sim::in_run() || !sim::current()) return outside += 1000;
  auto& r = me();
  r.steady += 1000;
  int64_t t = (int64_t)sim::task_time() + (int64_t)r.steady;
  if(steady) return t + 1000000000;
  if(r.jumps && r.rng.below(4) == 0) {
    r.skew += (int64_t)(r.rng.sym() * 7.2e12);
    sim::fault("clock.jump");
  }
  return 1700000000000000000ll + t + r.skew;
}
}  // namespace simmpi

// clocks read by the library: simulated
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(simmpi::clock_now(false))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(simmpi::clock_now(true))); }
}}}

// Randomness from the machine: drawn from the run's seed, different on every rank.  rand() is per process, as deployed.
namespace simmpi {
static uint64_t entropy() {
  static sim::Rng outside(7);
  if(!in_job()) return outside.next();
  sim::probe("machine-randomness-read");
  return me().rng.next();
}
static uint64_t* libc_rand() { static uint64_t outside; return in_job() ? &me().libc_rand : &outside; }
}
namespace std {
random_device::result_type random_device::_M_getval() { return (result_type)simmpi::entropy(); }
}
extern "C" {
ssize_t getrandom(void* b, size_t n, unsigned) { for(size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)simmpi::entropy(); return (ssize_t)n; }
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
void srand(unsigned s) noexcept { *simmpi::libc_rand() = s; }
int rand() noexcept { auto& s = *simmpi::libc_rand(); sim::Rng g(s); s = g.next() >> 1; return (int)(s & 0x7fffffff); }
void srandom(unsigned s) noexcept { srand(s); }
long random() noexcept { return rand(); }
time_t time(time_t* t) noexcept { time_t v = simmpi::clock_now(false) / 1000000000; if(t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void*) noexcept { int64_t v = simmpi::clock_now(false); tv->tv_sec = v / 1000000000; tv->tv_usec = v / 1000 % 1000000; return 0; }
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if(!simmpi::in_job()) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t v = simmpi::clock_now(id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE);
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
}

// --------------------------------------------------------------------- C API --
using namespace simmpi;
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int req, int* p) { if(p) *p = req; return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Abort(MPI_Comm, int) { if(in_job()) sim::abort_job("MPI_Abort"); fail("mpi-abort", "MPI_Abort"); }
double MPI_Wtime(void) { return 1e-9 * (double)(simmpi::clock_now(false) - 1699990000000000000ll); }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "sim"); *n = 3; return 0; }
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }

int MPI_Comm_rank(MPI_Comm c, int* r) { check_comm(c, "MPI_Comm_rank"); check_member(c, "MPI_Comm_rank"); *r = rank_in(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { check_member(c, "MPI_Comm_size"); *n = (int)members(c).size(); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { *r = a == b ? MPI_IDENT : (members(a) == members(b) ? MPI_CONGRUENT : MPI_UNEQUAL); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
static MPI_Comm split_impl(Kind k, MPI_Comm c, int color, int key) {
  Entry e = coll_enter(c, k, -1, nullptr, nullptr, nullptr);
  if(e.P == 1) { if(color == MPI_UNDEFINED) return nullptr; auto mm = members(c); return make_comm(mm); }
  e.s->c[e.r].color = color; e.s->c[e.r].key = key;
  wait_all(e, KN[k]);
  if(e.s->result.empty()) {
    e.s->result.assign(e.P, nullptr);
    std::map<int, std::vector<std::pair<int, int>>> g;
    for(size_t i = 0; i < e.P; ++i) if(e.s->c[i].color != MPI_UNDEFINED) g[e.s->c[i].color].push_back({e.s->c[i].key, (int)i});
    for(auto& kv : g) {
      std::sort(kv.second.begin(), kv.second.end());
      std::vector<int> m;
      for(auto& p : kv.second) m.push_back(c->mem[p.second]);
      MPI_Comm nc = make_comm(m);
      for(auto& p : kv.second) e.s->result[p.second] = nc;
    }
  }
  MPI_Comm r = e.s->result[e.r];
  coll_leave(e);
  return r;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { *n = split_impl(DUP, c, 0, 0); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) { *n = split_impl(SPLIT, c, color, key); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* n) { *n = split_impl(SPLIT, c, 0, key); return 0; }
int MPI_Comm_free(MPI_Comm* c) {
  if(!c || !*c) fail("mpi-misuse", "MPI_Comm_free of MPI_COMM_NULL");
  if((*c)->predefined) fail("mpi-misuse", "MPI_Comm_free of a predefined communicator");
  check_member(*c, "MPI_Comm_free");
  (*c)->freed[rank_in(*c)] = 1;
  *c = MPI_COMM_NULL;
  return 0;
}

int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o) {
  if(!t || t->freed) fail("mpi-misuse", "MPI_Type_contiguous on an invalid type");
  if(n < 0) fail("mpi-misuse", "MPI_Type_contiguous with count %d", n);
  auto p = std::make_unique<simmpi_type>(*t);
  p->name = "contiguous"; p->n = t->n * n; p->predefined = false; p->committed = false; p->freed = false; p->owner = me().rank;
  J.types.push_back(std::move(p));
  *o = J.types.back().get();
  return 0;
}
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype* o) { MPI_Type_contiguous(1, t, o); (*o)->committed = t->committed; return 0; }
int MPI_Type_commit(MPI_Datatype* t) {
  if(!t || !*t || (*t)->freed) fail("mpi-misuse", "MPI_Type_commit on an invalid type");
  (*t)->committed = true;
  return 0;
}
int MPI_Type_free(MPI_Datatype* t) {
  if(!t || !*t) fail("mpi-misuse", "MPI_Type_free of MPI_DATATYPE_NULL");
  if((*t)->predefined) fail("mpi-misuse", "MPI_Type_free of predefined type %s", (*t)->name);
  bool known = false;
  for(auto& p : J.types) known |= p.get() == *t;
  if(!known) fail("mpi-misuse", "MPI_Type_free of an invalid handle");
  if((*t)->freed) fail("mpi-misuse", "datatype freed twice");
  (*t)->freed = true;
  *t = MPI_DATATYPE_NULL;
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)t->size(); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = 0; *e = t->size(); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = t->size() ? (int)(s->_bytes / t->size()) : 0; return 0; }
int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* o) {
  auto p = std::make_unique<simmpi_op>(simmpi_op{"user", OP_USER, f, commute != 0});
  J.ops.push_back(std::move(p));
  *o = J.ops.back().get();
  return 0;
}
int MPI_Op_free(MPI_Op* o) { if(!o || !*o || !(*o)->fn) fail("mpi-misuse", "MPI_Op_free"); (*o)->freed = true; *o = nullptr; return 0; }

int MPI_Barrier(MPI_Comm c) {
  Entry e = coll_enter(c, BARRIER, -1, nullptr, nullptr, nullptr);
  wait_all(e, "MPI_Barrier");
  coll_leave(e);
  return 0;
}
int MPI_Bcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm c) {
  Sig s = mksig(count, t, "MPI_Bcast");
  Entry e = coll_enter(c, BCAST, root, nullptr, &s, nullptr);
  if(e.P == 1) return 0;
  if(e.r == root) {
    copyin(e.s->c[root].data, buf, s.n * s.esize);
    if(early(e)) sim::probe("mpi.bcast-root-early"); else wait_all(e, "MPI_Bcast");
  } else {
    wait_root(e, "MPI_Bcast");
    if(s.n) memcpy(buf, e.s->c[root].data.data(), s.n * s.esize);
  }
  coll_leave(e);
  return 0;
}
static const void* redin(const void* sb, void* rb, size_t bytes, const char* fn, bool check = true) {
  if(sb == MPI_IN_PLACE) return rb;
  if(check && overlap(sb, bytes, rb, bytes)) fail("mpi-misuse", "%s: send and receive buffers overlap", fn);
  return sb;
}
int MPI_Allreduce(const void* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  Sig s = mksig(count, t, "MPI_Allreduce");
  if(!op) fail("mpi-misuse", "MPI_Allreduce with MPI_OP_NULL");
  const void* in = redin(sb, rb, s.n * s.esize, "MPI_Allreduce");
  Entry e = coll_enter(c, ALLREDUCE, -1, op, &s, nullptr);
  copyin(e.s->c[e.r].data, in, s.n * s.esize);
  e.s->sig.cls = s.cls; e.s->sig.esize = s.esize;
  wait_all(e, "MPI_Allreduce");
  auto out = reduce_all(*e.s, e.P, t);
  if(s.n) memcpy(rb, out.data(), out.size());
  coll_leave(e);
  return 0;
}
int MPI_Reduce(const void* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  Sig s = mksig(count, t, "MPI_Reduce");
  if(!op) fail("mpi-misuse", "MPI_Reduce with MPI_OP_NULL");
  check_member(c, "MPI_Reduce");
  bool isroot = rank_in(c) == root;
  if(sb == MPI_IN_PLACE && !isroot) fail("mpi-misuse", "MPI_Reduce: MPI_IN_PLACE on a rank that is not the root");
  const void* in = redin(sb, rb, s.n * s.esize, "MPI_Reduce", isroot);
  Entry e = coll_enter(c, REDUCE, root, op, &s, nullptr);
  copyin(e.s->c[e.r].data, in, s.n * s.esize);
  e.s->sig.cls = s.cls; e.s->sig.esize = s.esize;
  if(isroot) {
    wait_all(e, "MPI_Reduce");
    auto out = reduce_all(*e.s, e.P, t);
    if(s.n) memcpy(rb, out.data(), out.size());
  } else if(early(e)) sim::probe("mpi.reduce-early"); else wait_root(e, "MPI_Reduce");
  coll_leave(e);
  return 0;
}
int MPI_Reduce_scatter(const void* sb, void* rb, const int* rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  check_member(c, "MPI_Reduce_scatter");
  int P = (int)members(c).size(), tot = 0;
  std::vector<int> cnt(rc, rc + P);
  for(int x : cnt) tot += x;
  Sig s = mksig(tot, t, "MPI_Reduce_scatter");
  const void* in = redin(sb, rb, s.n * s.esize, "MPI_Reduce_scatter", false);
  Entry e = coll_enter(c, REDSCAT, -1, op, &s, &cnt);
  copyin(e.s->c[e.r].data, in, s.n * s.esize);
  e.s->sig.cls = s.cls; e.s->sig.esize = s.esize;
  wait_all(e, "MPI_Reduce_scatter");
  auto out = reduce_all(*e.s, e.P, t);
  size_t o = 0;
  for(int i = 0; i < e.r; ++i) o += (size_t)cnt[i] * t->size();
  if(cnt[e.r]) memcpy(rb, out.data() + o, (size_t)cnt[e.r] * t->size());
  coll_leave(e);
  return 0;
}
int MPI_Reduce_scatter_block(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  check_member(c, "MPI_Reduce_scatter_block");
  std::vector<int> cnt(members(c).size(), n);
  return MPI_Reduce_scatter(sb, rb, cnt.data(), t, op, c);
}
static int scan_impl(Kind k, const void* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  Sig s = mksig(count, t, KN[k]);
  if(!op) fail("mpi-misuse", "MPI_Scan with MPI_OP_NULL");
  const void* in = redin(sb, rb, s.n * s.esize, KN[k]);
  Entry e = coll_enter(c, k, -1, op, &s, nullptr);
  copyin(e.s->c[e.r].data, in, s.n * s.esize);
  e.s->sig.cls = s.cls; e.s->sig.esize = s.esize;
  bool all = !early(e);
  if(all) wait_all(e, KN[k]); else wait_upto(e, k == SCAN ? e.r : e.r - 1, KN[k]);
  size_t upto = k == SCAN ? e.r + 1 : e.r;
  if(upto) { auto out = reduce_all(*e.s, upto, t); if(s.n) memcpy(rb, out.data(), out.size()); }
  coll_leave(e);
  return 0;
}
int MPI_Scan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan_impl(SCAN, sb, rb, n, t, op, c); }
int MPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan_impl(EXSCAN, sb, rb, n, t, op, c); }

// gather-like: every rank sends one block, receivers place block i at displs[i]
static int gather_impl(Kind k, const void* sb, int sc, MPI_Datatype st, void* rb, const std::vector<int>& rc, const std::vector<int>& dis, MPI_Datatype rt, int root, MPI_Comm c, bool vec, const char* fn) {
  int r = rank_in(c), P = (int)members(c).size();
  bool receiver = k == ALLGATHER || r == root;
  std::vector<char> data;
  Sig s;
  if(sb == MPI_IN_PLACE) {
    if(!receiver) fail("mpi-misuse", "%s: MPI_IN_PLACE on a rank that is not the root", fn);
    s = mksig(rc[r], rt, fn);
    copyin(data, (char*)rb + (size_t)dis[r] * rt->size(), s.n * s.esize);
  } else {
    s = mksig(sc, st, fn);
    copyin(data, sb, s.n * s.esize);
  }
  if(receiver) {
    for(int i = 0; i < P; ++i) {
      mksig(rc[i], rt, fn);
      if(rc[i] && sb != MPI_IN_PLACE && overlap(sb, data.size(), (char*)rb + (ptrdiff_t)dis[i] * (ptrdiff_t)rt->size(), (size_t)rc[i] * rt->size()))
        fail("mpi-misuse", "%s: send and receive buffers overlap", fn);
    }
    for(int i = 0; i < P; ++i) for(int j = i + 1; j < P; ++j)
      if(overlap((char*)rb + (ptrdiff_t)dis[i] * (ptrdiff_t)rt->size(), (size_t)rc[i] * rt->size(), (char*)rb + (ptrdiff_t)dis[j] * (ptrdiff_t)rt->size(), (size_t)rc[j] * rt->size()))
        fail("mpi-misuse", "%s: blocks of ranks %d and %d overlap in the receive buffer", fn, i, j);
  }
  // counts of an allgatherv must agree between ranks
  std::vector<int> cc;
  if(k == ALLGATHER) for(int i = 0; i < P; ++i) cc.push_back((int)(rc[i] * rt->n));
  Entry e = coll_enter(c, k, root, nullptr, nullptr, k == ALLGATHER ? &cc : nullptr);
  auto& me_c = e.s->c[e.r];
  me_c.data = std::move(data);
  me_c.sigs = {s};
  if(receiver) {
    wait_all(e, fn);
    for(int i = 0; i < P; ++i) {
      auto& ci = e.s->c[i];
      Sig want = mksig(rc[i], rt, fn);
      if(!(ci.sigs[0] == want)) fail("collective-mismatch", "%s: rank %d sent %s, rank %d expects %s from it", fn, i, ci.sigs[0].str().c_str(), e.r, want.str().c_str());
      if(i == e.r && sb == MPI_IN_PLACE) continue;
      if(!ci.data.empty()) memcpy((char*)rb + (ptrdiff_t)dis[i] * (ptrdiff_t)rt->size(), ci.data.data(), ci.data.size());
    }
  } else if(!early(e)) wait_root(e, fn);
  (void)vec;
  coll_leave(e);
  return 0;
}
static std::vector<int> iota_counts(int P, int n) { return std::vector<int>(P, n); }
static std::vector<int> iota_displ(int P, int n) { std::vector<int> d(P); for(int i = 0; i < P; ++i) d[i] = i * n; return d; }
int MPI_Gather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  check_member(c, "MPI_Gather");
  int P = (int)members(c).size();
  if(rank_in(c) != root) { rc = 0; rt = st; }
  return gather_impl(GATHER, sb, sc, st, rb, iota_counts(P, rc), iota_displ(P, rc), rt, root, c, false, "MPI_Gather");
}
int MPI_Gatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* d, MPI_Datatype rt, int root, MPI_Comm c) {
  check_member(c, "MPI_Gatherv");
  int P = (int)members(c).size();
  bool isroot = rank_in(c) == root;
  return gather_impl(GATHER, sb, sc, st, rb, isroot ? std::vector<int>(rc, rc + P) : iota_counts(P, 0), isroot ? std::vector<int>(d, d + P) : iota_counts(P, 0), isroot ? rt : st, root, c, true, "MPI_Gatherv");
}
int MPI_Allgather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c) {
  check_member(c, "MPI_Allgather");
  int P = (int)members(c).size();
  return gather_impl(ALLGATHER, sb, sc, st, rb, iota_counts(P, rc), iota_displ(P, rc), rt, -1, c, false, "MPI_Allgather");
}
int MPI_Allgatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* d, MPI_Datatype rt, MPI_Comm c) {
  check_member(c, "MPI_Allgatherv");
  int P = (int)members(c).size();
  return gather_impl(ALLGATHER, sb, sc, st, rb, std::vector<int>(rc, rc + P), std::vector<int>(d, d + P), rt, -1, c, true, "MPI_Allgatherv");
}
static int scatter_impl(const void* sb, const std::vector<int>& sc, const std::vector<int>& sd, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c, const char* fn) {
  int r = rank_in(c), P = (int)members(c).size();
  Entry e = coll_enter(c, SCATTER, root, nullptr, nullptr, nullptr);
  if(r == root || P == 1) {
    auto& m = e.s->c[e.r];
    for(int i = 0; i < P; ++i) {
      Sig s = mksig(sc[i], st, fn);
      m.off.push_back(m.data.size());
      m.sigs.push_back(s);
      const char* p = (const char*)sb + (ptrdiff_t)sd[i] * (ptrdiff_t)st->size();
      if(s.n) m.data.insert(m.data.end(), p, p + s.n * s.esize);
    }
    m.off.push_back(m.data.size());
  }
  if(r != root) wait_root(e, fn);
  auto& m = e.s->c[P == 1 ? 0 : root];
  if(rb != MPI_IN_PLACE) {
    Sig want = mksig(rc, rt, fn);
    if(!(m.sigs[r] == want)) fail("collective-mismatch", "%s: root sends %s, rank %d expects %s", fn, m.sigs[r].str().c_str(), r, want.str().c_str());
    if(want.n) memcpy(rb, m.data.data() + m.off[r], m.off[r + 1] - m.off[r]);
  }
  if(r == root && !early(e)) wait_all(e, fn);
  coll_leave(e);
  return 0;
}
int MPI_Scatter(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  check_member(c, "MPI_Scatter");
  int P = (int)members(c).size();
  return scatter_impl(sb, iota_counts(P, sc), iota_displ(P, sc), st, rb, rc, rt, root, c, "MPI_Scatter");
}
int MPI_Scatterv(const void* sb, const int* sc, const int* d, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  check_member(c, "MPI_Scatterv");
  int P = (int)members(c).size();
  bool isroot = rank_in(c) == root;
  return scatter_impl(sb, isroot ? std::vector<int>(sc, sc + P) : iota_counts(P, 0), isroot ? std::vector<int>(d, d + P) : iota_counts(P, 0), st, rb, rc, rt, root, c, "MPI_Scatterv");
}
static int alltoall_impl(const void* sb, const std::vector<int>& sc, const std::vector<int>& sd, MPI_Datatype st, void* rb, const std::vector<int>& rc, const std::vector<int>& rd, MPI_Datatype rt, MPI_Comm c, const char* fn) {
  int r = rank_in(c), P = (int)members(c).size();
  std::vector<char> data;
  std::vector<Sig> sigs;
  std::vector<size_t> off;
  bool inpl = sb == MPI_IN_PLACE;
  for(int i = 0; i < P; ++i) {
    Sig s = inpl ? mksig(rc[i], rt, fn) : mksig(sc[i], st, fn);
    const char* p = inpl ? (const char*)rb + (ptrdiff_t)rd[i] * (ptrdiff_t)rt->size() : (const char*)sb + (ptrdiff_t)sd[i] * (ptrdiff_t)st->size();
    off.push_back(data.size());
    sigs.push_back(s);
    if(s.n) data.insert(data.end(), p, p + s.n * s.esize);
    if(!inpl && rc[i]) for(int j = 0; j < P; ++j)
      if(sc[j] && overlap((const char*)sb + (ptrdiff_t)sd[j] * (ptrdiff_t)st->size(), (size_t)sc[j] * st->size(), (char*)rb + (ptrdiff_t)rd[i] * (ptrdiff_t)rt->size(), (size_t)rc[i] * rt->size()))
        fail("mpi-misuse", "%s: send and receive buffers overlap", fn);
  }
  off.push_back(data.size());
  Entry e = coll_enter(c, ALLTOALL, -1, nullptr, nullptr, nullptr);
  auto& m = e.s->c[e.r];
  m.data = std::move(data); m.sigs = std::move(sigs); m.off = std::move(off);
  wait_all(e, fn);
  for(int i = 0; i < P; ++i) {
    auto& ci = e.s->c[i];
    Sig want = mksig(rc[i], rt, fn);
    if(!(ci.sigs[r] == want)) fail("collective-mismatch", "%s: rank %d sends %s to rank %d, which expects %s", fn, i, ci.sigs[r].str().c_str(), r, want.str().c_str());
    if(want.n) memcpy((char*)rb + (ptrdiff_t)rd[i] * (ptrdiff_t)rt->size(), ci.data.data() + ci.off[r], ci.off[r + 1] - ci.off[r]);
  }
  coll_leave(e);
  return 0;
}
int MPI_Alltoall(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c) {
  check_member(c, "MPI_Alltoall");
  int P = (int)members(c).size();
  return alltoall_impl(sb, iota_counts(P, sc), iota_displ(P, sc), st, rb, iota_counts(P, rc), iota_displ(P, rc), rt, c, "MPI_Alltoall");
}
int MPI_Alltoallv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  check_member(c, "MPI_Alltoallv");
  int P = (int)members(c).size();
  std::vector<int> z(P, 0);
  bool inpl = sb == MPI_IN_PLACE;
  return alltoall_impl(sb, inpl ? z : std::vector<int>(sc, sc + P), inpl ? z : std::vector<int>(sd, sd + P), st, rb, std::vector<int>(rc, rc + P), std::vector<int>(rd, rd + P), rt, c, "MPI_Alltoallv");
}

// -- non-blocking collectives: the send buffer must stay as it is and the receive buffer is
// unusable until completion
struct Region { char* p; size_t n; };
static int icoll(Entry e, const char* fn, const void* in, size_t inb, std::vector<Region> rec, std::function<bool()> pred, std::function<void()> fin, MPI_Request* rq) {
  auto q = new_req(false, e.c, fn);
  *rq = q;
  auto saved = std::make_shared<std::vector<std::vector<char>>>();
  bool alias = false;
  for(auto& r : rec) alias |= overlap(in, inb, r.p, r.n);
  for(auto& r : rec) { saved->emplace_back(r.p, r.p + r.n); if(r.n) memset(r.p, 0xCB, r.n); }
  uint64_t cs = inb ? csum(in, inb) : 0;
  q->pred = pred;
  q->finish = [=]() mutable {
    if(inb && !alias && csum(in, inb) != cs) fail("send-buffer-modified", "%s: the send buffer changed before the operation completed", fn);
    for(size_t k = 0; k < rec.size(); ++k) {
      for(size_t i = 0; i < rec[k].n; ++i) if((unsigned char)rec[k].p[i] != 0xCB) fail("recv-buffer-touched", "%s: the receive buffer was written before the operation completed", fn);
      if(rec[k].n) memcpy(rec[k].p, (*saved)[k].data(), rec[k].n);
    }
    fin();
    coll_leave(e);
  };
  J.progress++;
  return 0;
}
static std::function<bool()> all_in(Entry e) { return [e] { return e.s->arrived == e.P; }; }
static std::function<bool()> root_in(Entry e) { return [e] { return e.s->c[e.s->root].arrived; }; }
static int done_now(MPI_Comm c, const char* fn, MPI_Request* rq) { auto q = new_req(false, c, fn); q->finish = [] {}; q->complete = true; *rq = q; return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* rq) {
  check_member(c, "MPI_Ibarrier");
  if(members(c).size() == 1) { MPI_Barrier(c); return done_now(c, "MPI_Ibarrier", rq); }
  Entry e = coll_enter(c, BARRIER, -1, nullptr, nullptr, nullptr, true);
  return icoll(e, "MPI_Ibarrier", nullptr, 0, {}, all_in(e), [] {}, rq);
}
int MPI_Ibcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* rq) {
  check_member(c, "MPI_Ibcast");
  if(members(c).size() == 1) { MPI_Bcast(buf, count, t, root, c); return done_now(c, "MPI_Ibcast", rq); }
  Sig s = mksig(count, t, "MPI_Ibcast");
  Entry e = coll_enter(c, BCAST, root, nullptr, &s, nullptr, true);
  size_t b = s.n * s.esize;
  if(e.r == root) {
    copyin(e.s->c[root].data, buf, b);
    bool soon = early(e);
    return icoll(e, "MPI_Ibcast", buf, b, {}, soon ? std::function<bool()>([] { return true; }) : all_in(e), [] {}, rq);
  }
  return icoll(e, "MPI_Ibcast", nullptr, 0, {{(char*)buf, b}}, root_in(e), [=] { if(b) memcpy(buf, e.s->c[root].data.data(), b); }, rq);
}
static int ired(Kind k, const void* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, const char* fn, MPI_Request* rq) {
  Sig s = mksig(count, t, fn);
  if(!op) fail("mpi-misuse", "%s with MPI_OP_NULL", fn);
  bool rec = root == -1 || rank_in(c) == root;
  if(sb == MPI_IN_PLACE && !rec) fail("mpi-misuse", "%s: MPI_IN_PLACE on a rank that is not the root", fn);
  const void* in = redin(sb, rb, s.n * s.esize, fn, rec);
  Entry e = coll_enter(c, k, root, op, &s, nullptr, true);
  size_t b = s.n * s.esize;
  copyin(e.s->c[e.r].data, in, b);
  e.s->sig.cls = s.cls; e.s->sig.esize = s.esize;
  if(!rec) return icoll(e, fn, in, b, {}, root_in(e), [] {}, rq);
  return icoll(e, fn, in, b, {{(char*)rb, b}}, all_in(e), [=] { auto out = reduce_all(*e.s, e.P, t); if(b) memcpy(rb, out.data(), b); }, rq);
}
int MPI_Iallreduce(const void* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* rq) {
  check_member(c, "MPI_Iallreduce");
  if(members(c).size() == 1) { MPI_Allreduce(sb, rb, count, t, op, c); return done_now(c, "MPI_Iallreduce", rq); }
  return ired(ALLREDUCE, sb, rb, count, t, op, -1, c, "MPI_Iallreduce", rq);
}
int MPI_Ireduce(const void* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* rq) {
  check_member(c, "MPI_Ireduce");
  if(members(c).size() == 1) { MPI_Reduce(sb, rb, count, t, op, root, c); return done_now(c, "MPI_Ireduce", rq); }
  return ired(REDUCE, sb, rb, count, t, op, root, c, "MPI_Ireduce", rq);
}
int MPI_Iallgatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* d, MPI_Datatype rt, MPI_Comm c, MPI_Request* rq) {
  check_member(c, "MPI_Iallgatherv");
  const char* fn = "MPI_Iallgatherv";
  int P = (int)members(c).size();
  if(P == 1) { MPI_Allgatherv(sb, sc, st, rb, rc, d, rt, c); return done_now(c, fn, rq); }
  int r = rank_in(c);
  bool inpl = sb == MPI_IN_PLACE;
  std::vector<int> cnt(rc, rc + P), dis(d, d + P), cc;
  auto at = [=](int i) { return (char*)rb + (ptrdiff_t)dis[i] * (ptrdiff_t)rt->size(); };
  Sig s = inpl ? mksig(cnt[r], rt, fn) : mksig(sc, st, fn);
  const void* in = inpl ? at(r) : sb;
  size_t b = s.n * s.esize;
  std::vector<Region> rec;
  for(int i = 0; i < P; ++i) {
    Region g{at(i), (size_t)cnt[i] * rt->size()};
    if(!inpl && overlap(in, b, g.p, g.n)) fail("mpi-misuse", "%s: send and receive buffers overlap", fn);
    for(auto& o : rec) if(overlap(o.p, o.n, g.p, g.n)) fail("mpi-misuse", "%s: blocks overlap in the receive buffer", fn);
    rec.push_back(g);
    cc.push_back((int)(cnt[i] * rt->n));
  }
  Entry e = coll_enter(c, ALLGATHER, -1, nullptr, nullptr, &cc, true);
  copyin(e.s->c[e.r].data, in, b);
  e.s->c[e.r].sigs = {s};
  return icoll(e, fn, in, b, rec, all_in(e), [=] {
    for(int i = 0; i < P; ++i) {
      auto& ci = e.s->c[i];
      Sig want = mksig(cnt[i], rt, fn);
      if(!(ci.sigs[0] == want)) fail("collective-mismatch", "%s: rank %d sent %s, rank %d expects %s from it", fn, i, ci.sigs[0].str().c_str(), r, want.str().c_str());
      if(!ci.data.empty()) memcpy(at(i), ci.data.data(), ci.data.size());
    }
  }, rq);
}
int MPI_Iallgather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c, MPI_Request* rq) {
  check_member(c, "MPI_Iallgather");
  int P = (int)members(c).size();
  auto cnt = iota_counts(P, rc), dis = iota_displ(P, rc);
  return MPI_Iallgatherv(sb, sc, st, rb, cnt.data(), dis.data(), rt, c, rq);
}
int MPI_Reduce_local(const void* in, void* io, int count, MPI_Datatype t, MPI_Op op) {
  Sig s = mksig(count, t, "MPI_Reduce_local");
  if(s.n) reduce_range((char*)io, (const char*)in, s, s.n, op, t);
  return 0;
}

// -- point to point
static int send_impl(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync, const char* fn) {
  check_member(c, fn);
  if(dst == MPI_PROC_NULL) return 0;
  check_peer(dst, c, fn, false);
  enter_call(fn);
  bool eager = !sync && !sim::flip(1, 2, "mpi.rendezvous");
  if(!eager) sim::fault("mpi.rendezvous-send");
  Msg* m = post_send(b, n, t, dst, tag, c, nullptr, true, fn);
  if(!eager) sim::block_until([m] { return m->matched; }, fn);
  return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_impl(b, n, t, d, tag, c, false, "MPI_Send"); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_impl(b, n, t, d, tag, c, false, "MPI_Rsend"); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_impl(b, n, t, d, tag, c, true, "MPI_Ssend"); }
static int isend_impl(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* rq, bool sync, const char* fn) {
  check_member(c, fn);
  enter_call(fn);
  auto q = new_req(true, c, fn);
  *rq = q;
  if(dst == MPI_PROC_NULL) { q->complete = true; return 0; }
  check_peer(dst, c, fn, false);
  bool eager = !sync && !sim::flip(1, 2, "mpi.lazy-isend");
  if(!eager) sim::fault("mpi.lazy-isend");
  post_send(b, n, t, dst, tag, c, q, eager, fn);
  if(eager) q->complete = true;
  return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend_impl(b, n, t, d, tag, c, r, false, "MPI_Isend"); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend_impl(b, n, t, d, tag, c, r, true, "MPI_Issend"); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) {
  check_member(c, "MPI_Irecv");
  enter_call("MPI_Irecv");
  if(src == MPI_PROC_NULL) { *r = new_req(false, c, "MPI_Irecv"); (*r)->complete = (*r)->delivered = true; (*r)->st.MPI_SOURCE = MPI_PROC_NULL; return 0; }
  check_peer(src, c, "MPI_Irecv", true);
  *r = do_irecv(b, n, t, src, tag, c, "MPI_Irecv");
  return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) {
  check_member(c, "MPI_Recv");
  if(src == MPI_PROC_NULL) { if(st) { empty_status(st); st->MPI_SOURCE = MPI_PROC_NULL; } return 0; }
  check_peer(src, c, "MPI_Recv", true);
  enter_call("MPI_Recv");
  MPI_Request q = do_irecv(b, n, t, src, tag, c, "MPI_Recv");
  simmpi_req* p = q;
  if(!p->complete) sim::block_until([p] { return p->complete; }, "MPI_Recv");
  finish_req(&q, st);
  return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st) {
  MPI_Request q[2];
  MPI_Irecv(rb, rn, rt, src, rtag, c, &q[0]);
  MPI_Isend(sb, sn, stt, dst, stag, c, &q[1]);
  MPI_Status s2[2];
  MPI_Waitall(2, q, s2);
  if(st) *st = s2[0];
  return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status* st) {
  Sig s = mksig(n, t, "MPI_Sendrecv_replace");
  std::vector<char> tmp;
  copyin(tmp, b, s.n * s.esize);
  return MPI_Sendrecv(tmp.data(), n, t, dst, stag, b, n, t, src, rtag, c, st);
}
int MPI_Wait(MPI_Request* rq, MPI_Status* st) {
  if(!*rq) { empty_status(st); return 0; }
  check_req(*rq, "MPI_Wait");
  enter_call("MPI_Wait");
  simmpi_req* q = *rq;
  if(!ready(q)) sim::block_until([q] { return ready(q); }, "MPI_Wait");
  finish_req(rq, st);
  return 0;
}
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) {
  for(int i = 0; i < n; ++i) if(rq[i]) check_req(rq[i], "MPI_Waitall");
  enter_call("MPI_Waitall");
  auto ok = [n, rq] { for(int i = 0; i < n; ++i) if(rq[i] && !ready(rq[i])) return false; return true; };
  if(!ok()) sim::block_until(ok, "MPI_Waitall");
  for(int i = 0; i < n; ++i) if(rq[i]) finish_req(&rq[i], st ? st + i : nullptr); else empty_status(st ? st + i : nullptr);
  return 0;
}
int MPI_Waitsome(int n, MPI_Request* rq, int* outc, int* idx, MPI_Status* st) {
  bool any = false;
  for(int i = 0; i < n; ++i) if(rq[i]) { check_req(rq[i], "MPI_Waitsome"); any = true; }
  if(!any) { *outc = MPI_UNDEFINED; return 0; }
  enter_call("MPI_Waitsome");
  auto ok = [n, rq] { for(int i = 0; i < n; ++i) if(rq[i] && ready(rq[i])) return true; return false; };
  if(!ok()) sim::block_until(ok, "MPI_Waitsome");
  int k = 0;
  for(int i = 0; i < n; ++i) if(rq[i] && ready(rq[i]) && (k == 0 || sim::flip(1, 2, "mpi.waitsome"))) { idx[k] = i; finish_req(&rq[i], st ? st + k : nullptr); ++k; }
  *outc = k;
  return 0;
}
int MPI_Waitany(int n, MPI_Request* rq, int* idx, MPI_Status* st) {
  bool any = false;
  for(int i = 0; i < n; ++i) if(rq[i]) { check_req(rq[i], "MPI_Waitany"); any = true; }
  if(!any) { *idx = MPI_UNDEFINED; empty_status(st); return 0; }
  enter_call("MPI_Waitany");
  std::vector<int> r;
  auto scan = [&r, n, rq] { r.clear(); for(int i = 0; i < n; ++i) if(rq[i] && ready(rq[i])) r.push_back(i); return !r.empty(); };
  if(!scan()) sim::block_until(scan, "MPI_Waitany");
  scan();
  *idx = r[sim::choose((uint32_t)r.size(), "mpi.waitany")];
  finish_req(&rq[*idx], st);
  return 0;
}
int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st) {
  if(!*rq) { *flag = 1; empty_status(st); return 0; }
  check_req(*rq, "MPI_Test");
  enter_call("MPI_Test");
  *flag = ready(*rq);
  if(*flag) { finish_req(rq, st); me().spins = 0; } else spin("MPI_Test");
  return 0;
}
int MPI_Testall(int n, MPI_Request* rq, int* flag, MPI_Status* st) {
  enter_call("MPI_Testall");
  *flag = 1;
  for(int i = 0; i < n; ++i) if(rq[i]) { check_req(rq[i], "MPI_Testall"); if(!ready(rq[i])) *flag = 0; }
  if(*flag) { for(int i = 0; i < n; ++i) if(rq[i]) finish_req(&rq[i], st ? st + i : nullptr); me().spins = 0; } else spin("MPI_Testall");
  return 0;
}
int MPI_Testany(int n, MPI_Request* rq, int* idx, int* flag, MPI_Status* st) {
  enter_call("MPI_Testany");
  bool any = false;
  for(int i = 0; i < n; ++i) if(rq[i]) { any = true; if(ready(rq[i])) { *idx = i; *flag = 1; finish_req(&rq[i], st); me().spins = 0; return 0; } }
  if(!any) { *flag = 1; *idx = MPI_UNDEFINED; return 0; }
  *flag = 0;
  spin("MPI_Testany");
  return 0;
}
static Msg* find_un(int src, int tag, MPI_Comm c) {
  for(auto m : c->unexpected[rank_in(c)]) if(fits(src, tag, m)) return m;
  return nullptr;
}
static void probe_status(Msg* m, MPI_Status* st) { if(st) { *st = MPI_Status{}; st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->_bytes = m->bytes; } }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  check_member(c, "MPI_Probe");
  enter_call("MPI_Probe");
  while(!find_un(src, tag, c)) { uint64_t p = J.progress; sim::block_until([p] { return J.progress != p; }, "MPI_Probe"); }
  probe_status(find_un(src, tag, c), st);
  return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  check_member(c, "MPI_Iprobe");
  enter_call("MPI_Iprobe");
  Msg* m = find_un(src, tag, c);
  *flag = m != nullptr;
  if(m) { probe_status(m, st); me().spins = 0; } else spin("MPI_Iprobe");
  return 0;
}
int MPI_Request_free(MPI_Request* rq) { check_req(*rq, "MPI_Request_free"); if(!(*rq)->send) fail("mpi-misuse", "MPI_Request_free of a pending receive"); (*rq)->live = false; *rq = nullptr; return 0; }
int MPI_Cancel(MPI_Request* rq) {
  check_req(*rq, "MPI_Cancel");
  auto q = *rq;
  if(!q->send && !q->complete) { auto& po = q->comm->posted[rank_in(q->comm)]; po.remove(q); if(q->cap) memcpy(q->buf, q->orig.data(), q->cap); q->delivered = true; q->complete = true; q->st._cancelled = 1; }
  return 0;
}
}
