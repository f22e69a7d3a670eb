// C08: typed communication wrappers of MACIS and sparsexx.
#include <macis/util/mpi.hpp>
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/util/mpi.hpp>
#include <complex>
#include <memory>
#include "simmpi.hpp"
const char* const harness_property = "C08";
void harness_init() {}
using namespace sim;

// One operation of the program every rank runs.  Data is a function of
// (operation, rank, element), so that any rank's expectation can be computed.
struct Step { int kind; int type; int op; int count; int root; uint64_t seed; bool inplace; };
template <class T>
static T val(uint64_t seed, int r, int i) {
  Rng g(seed * 1315423911u + r * 2654435761u + i);
  if constexpr(std::is_floating_point_v<T>) return (T)((int)g.below(17) - 8);
  else if constexpr(std::is_same_v<T, char>) return (T)(g.below(256));
  else if constexpr(std::is_signed_v<T>) return (T)((int)g.below(201) - 100);
  else if constexpr(sizeof(T) == 8) return (T)(g.below(8) == 0 ? (1ull << 40) + g.below(1000) : g.below(201));
  else return (T)g.below(201);
}
template <class T>
static T fold(const Step& s, int P, int i) {
  T a = val<T>(s.seed, 0, i);
  for(int r = 1; r < P; ++r) {
    T b = val<T>(s.seed, r, i);
    switch(s.op) {
      case 0: a = a + b; break;
      case 1: a = std::max(a, b); break;
      case 2: a = std::min(a, b); break;
      case 3: if constexpr(std::is_integral_v<T>) a = a | b; else a = a + b; break;
      case 4: if constexpr(std::is_integral_v<T>) a = a & b; else a = std::max(a, b); break;
      case 5: if constexpr(std::is_integral_v<T>) a = (T)((bool)a && (bool)b); else a = std::min(a, b); break;
    }
  }
  if(P == 1 && s.op == 5 && std::is_integral_v<T>) return a;
  return a;
}
template <class T>
static MPI_Op op_of(const Step& s) {
  switch(s.op) {
    case 0: return MPI_SUM;
    case 1: return MPI_MAX;
    case 2: return MPI_MIN;
    case 3: return std::is_integral_v<T> ? MPI_BOR : MPI_SUM;
    case 4: return std::is_integral_v<T> ? MPI_BAND : MPI_MAX;
    default: return std::is_integral_v<T> ? MPI_LAND : MPI_MIN;
  }
}
template <class T>
static bool differs(T a, T b) { return !(a == b); }
#define BAD(what, ...) fail(what, __VA_ARGS__)

template <class T>
static void macis_reduce(const Step& s, int r, int P, MPI_Comm c) {
  int n = s.count;
  auto mine = std::make_unique<T[]>(n), out = std::make_unique<T[]>(n);
  for(int i = 0; i < n; ++i) mine[i] = val<T>(s.seed, r, i), out[i] = T(77);
  if(s.kind == 0 && s.inplace) { macis::allreduce(mine.get(), (size_t)n, op_of<T>(s), c); std::swap(mine, out); }
  else if(s.kind == 0) macis::allreduce(mine.get(), out.get(), (size_t)n, op_of<T>(s), c);
  else { n = 1; if(s.count == 0) { mine = std::make_unique<T[]>(1); out = std::make_unique<T[]>(1); mine[0] = val<T>(s.seed, r, 0); }
         out[0] = macis::allreduce(mine[0], op_of<T>(s), c); }
  for(int i = 0; i < n; ++i) {
    if(differs(out[i], fold<T>(s, P, i))) BAD("allreduce", "rank %d element %d of %d: %.17g, sequential definition gives %.17g", r, i, n, (double)out[i], (double)fold<T>(s, P, i));
    if(!(s.kind == 0 && s.inplace) && differs(mine[i], val<T>(s.seed, r, i))) BAD("input-modified", "allreduce changed its input on rank %d", r);
  }
}
template <class T>
static void sx_reduce(const Step& s, int r, int P, MPI_Comm c) {
  T got = sparsexx::detail::mpi_allreduce(val<T>(s.seed, r, 0), op_of<T>(s), c);
  if(differs(got, fold<T>(s, P, 0))) BAD("allreduce", "sparsexx: rank %d got %.17g, sequential definition gives %.17g", r, (double)got, (double)fold<T>(s, P, 0));
}
template <class T>
static void macis_bcast(const Step& s, int r, MPI_Comm c) {
  auto b = std::make_unique<T[]>(s.count);
  for(int i = 0; i < s.count; ++i) b[i] = r == s.root ? val<T>(s.seed, s.root, i) : T(5);
  macis::bcast(b.get(), (size_t)s.count, s.root, c);
  for(int i = 0; i < s.count; ++i)
    if(differs(b[i], val<T>(s.seed, s.root, i))) BAD("bcast", "rank %d element %d of %d is not the root's", r, i, s.count);
}
template <size_t N>
static void bits_bcast(const Step& s, int r, int P, MPI_Comm c) {
  using B = std::bitset<N>;
  auto bits = [&](int i) { B x; Rng g(s.seed + i); for(size_t k = 0; k < N; ++k) x[k] = g.below(2); return x; };
  auto b = std::make_unique<B[]>(s.count);
  if(r == s.root) for(int i = 0; i < s.count; ++i) b[i] = bits(i);
  macis::bcast(b.get(), (size_t)s.count, s.root, c);
  for(int i = 0; i < s.count; ++i) if(b[i] != bits(i)) BAD("bcast", "rank %d bitset<%zu> %d of %d is not the root's", r, N, i, s.count);
  // the datatype itself: one item is exactly one bitset; used in a gather
  auto dt = macis::mpi_traits<B>::datatype();
  int sz = 0;
  MPI_Type_size(dt, &sz);
  if(sz != (int)sizeof(B)) BAD("datatype", "datatype of bitset<%zu> is %d bytes, the type %zu", N, sz, sizeof(B));
  std::vector<B> mine(s.count), all((size_t)s.count * P);
  for(int i = 0; i < s.count; ++i) mine[i] = bits(i + 1000 * r);
  macis::mpi_datatype moved = std::move(dt);
  MPI_Allgather(mine.data(), s.count, moved, all.data(), s.count, moved, c);
  for(int q = 0; q < P; ++q) for(int i = 0; i < s.count; ++i)
    if(all[(size_t)q * s.count + i] != bits(i + 1000 * q)) BAD("gather", "rank %d: bitset<%zu> %d of rank %d is wrong", r, N, i, q);
}
template <class T>
static void contiguous(const Step& s, int r, MPI_Comm c) {
  int n = 1 + s.op;
  std::vector<T> v((size_t)n * s.count);
  for(size_t i = 0; i < v.size(); ++i) v[i] = r == s.root ? val<T>(s.seed, s.root, (int)i) : T(3);
  {
    auto dt = macis::make_contiguous_mpi_datatype<T>(n);
    MPI_Bcast(v.data(), s.count, dt, s.root, c);
  }
  for(size_t i = 0; i < v.size(); ++i) if(differs(v[i], val<T>(s.seed, s.root, (int)i))) BAD("bcast", "rank %d: element %zu through a contiguous type is not the root's", r, i);
}
template <class T>
static void sx_gather(const Step& s, int r, int P, MPI_Comm c) {
  std::vector<T> mine(s.count);
  for(int i = 0; i < s.count; ++i) mine[i] = val<T>(s.seed, r, i);
  std::vector<T> all;
  if(s.inplace) { all.assign((size_t)s.count * P, T(9)); sparsexx::detail::mpi_allgather(mine.data(), (size_t)s.count, all.data(), c); }
  else all = sparsexx::detail::mpi_allgather(mine, c);
  if(all.size() != (size_t)s.count * P) BAD("gather", "rank %d gathered %zu elements, expected %zu", r, all.size(), (size_t)s.count * P);
  for(int q = 0; q < P; ++q) for(int i = 0; i < s.count; ++i)
    if(differs(all[(size_t)q * s.count + i], val<T>(s.seed, q, i))) BAD("gather", "rank %d: element %d of rank %d is wrong", r, i, q);
}
template <class T>
static void sx_bcast(const Step& s, int r, MPI_Comm c) {
  std::vector<T> v(s.count, T(4));
  if(r == s.root) for(int i = 0; i < s.count; ++i) v[i] = val<T>(s.seed, s.root, i);
  if(s.inplace) sparsexx::detail::mpi_bcast(v.data(), v.size(), s.root, c); else sparsexx::detail::mpi_bcast(v, s.root, c);
  for(int i = 0; i < s.count; ++i) if(differs(v[i], val<T>(s.seed, s.root, i))) BAD("bcast", "sparsexx: rank %d element %d is not the root's", r, i);
}
template <class T>
static void sx_p2p(const Step& s, int r, int P, MPI_Comm c) {
  // a pattern: who sends how many messages to whom (including itself)
  auto cnt = [&](int a, int b) { Rng g(s.seed * 31 + a * 64 + b); return (int)g.below(3) == 0 ? 0 : (int)g.below(s.count + 1); };
  auto nmsg = [&](int a, int b) { Rng g(s.seed * 77 + a * 64 + b); return (int)g.below(3); };
  std::vector<MPI_Request> rr, sr;
  std::vector<std::vector<T>> rb, sb;
  size_t tot = 0;
  for(int q = 0; q < P; ++q) tot += nmsg(q, r) + nmsg(r, q);
  rb.reserve(tot); sb.reserve(tot);
  for(int q = 0; q < P; ++q) for(int k = 0; k < nmsg(q, r); ++k) {
    rb.emplace_back(cnt(q, r), T(6));
    int tag = s.inplace ? 0 : k;
    if(k & 1) rr.push_back(sparsexx::detail::mpi_irecv(rb.back(), q, tag, c)); else rr.push_back(sparsexx::detail::mpi_irecv(rb.back().data(), rb.back().size(), q, tag, c));
  }
  for(int q = 0; q < P; ++q) for(int k = 0; k < nmsg(r, q); ++k) {
    sb.emplace_back(cnt(r, q));
    for(size_t i = 0; i < sb.back().size(); ++i) sb.back()[i] = val<T>(s.seed + k, r * 64 + q, (int)i);
    int tag = s.inplace ? 0 : k;
    if(k & 1) sr.push_back(sparsexx::detail::mpi_isend(sb.back().data(), sb.back().size(), q, tag, c));
    else { const auto& cs = sb.back(); sr.push_back(sparsexx::detail::mpi_isend(cs, q, tag, c)); }
  }
  sparsexx::detail::mpi_waitall_ignore_status(rr);
  size_t at = 0;
  for(int q = 0; q < P; ++q) for(int k = 0; k < nmsg(q, r); ++k, ++at)
    for(size_t i = 0; i < rb[at].size(); ++i)
      if(differs(rb[at][i], val<T>(s.seed + k, q * 64 + r, (int)i))) BAD("p2p", "rank %d: element %zu of message %d from rank %d is wrong", r, i, k, q);
  sparsexx::detail::mpi_waitall_ignore_status(sr);
}

static void exec(const Step& s, int r, int P, MPI_Comm c) {
  switch(s.kind) {
    case 0: case 1:
      switch(s.type % 4) { case 0: macis_reduce<int>(s, r, P, c); break; case 1: macis_reduce<double>(s, r, P, c); break;
                           case 2: macis_reduce<float>(s, r, P, c); break; default: macis_reduce<size_t>(s, r, P, c); } break;
    case 2:
      switch(s.type % 5) { case 0: macis_bcast<int>(s, r, c); break; case 1: macis_bcast<double>(s, r, c); break; case 2: macis_bcast<float>(s, r, c); break;
                           case 3: macis_bcast<size_t>(s, r, c); break; default: macis_bcast<char>(s, r, c); } break;
    case 3:
      switch(s.type % 5) { case 0: bits_bcast<32>(s, r, P, c); break; case 1: bits_bcast<64>(s, r, P, c); break; case 2: bits_bcast<128>(s, r, P, c); break;
                           case 3: bits_bcast<192>(s, r, P, c); break; default: bits_bcast<7>(s, r, P, c); } break;
    case 4:
      switch(s.type % 4) { case 0: contiguous<int>(s, r, c); break; case 1: contiguous<double>(s, r, c); break; case 2: contiguous<char>(s, r, c); break; default: contiguous<size_t>(s, r, c); } break;
    case 5:
      switch(s.type % 5) { case 0: sx_reduce<int>(s, r, P, c); break; case 1: sx_reduce<double>(s, r, P, c); break; case 2: sx_reduce<int64_t>(s, r, P, c); break;
                           case 3: sx_reduce<uint64_t>(s, r, P, c); break; default: sx_reduce<unsigned>(s, r, P, c); } break;
    case 6:
      switch(s.type % 5) { case 0: sx_gather<int>(s, r, P, c); break; case 1: sx_gather<double>(s, r, P, c); break; case 2: sx_gather<int64_t>(s, r, P, c); break;
                           case 3: sx_gather<uint64_t>(s, r, P, c); break; default: sx_gather<unsigned>(s, r, P, c); } break;
    case 7:
      switch(s.type % 5) { case 0: sx_bcast<int>(s, r, c); break; case 1: sx_bcast<double>(s, r, c); break; case 2: sx_bcast<int64_t>(s, r, c); break;
                           case 3: sx_bcast<uint64_t>(s, r, c); break; default: sx_bcast<unsigned>(s, r, c); } break;
    case 8:
      switch(s.type % 5) { case 0: sx_p2p<int>(s, r, P, c); break; case 1: sx_p2p<double>(s, r, P, c); break; case 2: sx_p2p<int64_t>(s, r, P, c); break;
                           case 3: sx_p2p<uint64_t>(s, r, P, c); break; default: sx_p2p<unsigned>(s, r, P, c); } break;
    case 9: {
      // counts beyond what one MPI call can carry must not silently truncate
      size_t n = (size_t)std::numeric_limits<int>::max() + (size_t)s.count;
      double x = 0;
      int threw = 0;
      try { if(s.inplace) macis::allreduce(&x, n, MPI_SUM, c); else if(s.type % 2) macis::allreduce(&x, &x, n, MPI_SUM, c); else macis::bcast(&x, n, 0, c); }
      catch(const std::exception&) { threw = 1; }
      if(!threw) BAD("huge-count", "a count of %zu was accepted", n);
      break;
    }
  }
  if(macis::comm_rank(c) != r || macis::comm_size(c) != P || sparsexx::detail::get_mpi_rank(c) != r || sparsexx::detail::get_mpi_size(c) != P)
    BAD("rank", "wrong rank or size on rank %d", r);
}
void harness_run() {
  int P = 1 + (int)choose(flip(1, 8, "bigP") ? 14 : 6, "ranks");
  int n = 1 + (int)choose(6, "steps");
  std::vector<Step> prog(n);
  for(auto& s : prog) {
    s.kind = (int)choose(flip(1, 6, "huge") ? 10 : 9, "kind");
    s.type = (int)choose(20, "type");
    s.op = (int)choose(6, "op");
    s.count = (int)choose(4, "cntkind") == 0 ? 0 : 1 + (int)choose(flip(1, 6, "bigcount") ? flip(1, 8, "vast") ? 20000 : 200 : 9, "count");
    s.root = (int)choose(P, "root");
    s.seed = data_rng("stepseed").next() % 1000003;
    s.inplace = flip(1, 2, "inplace");
    if(s.count == 0) probe("zero-count");
    note("kind %d type %d op %d count %d root %d", s.kind, s.type, s.op, s.count, s.root);
  }
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
    for(auto& s : prog) exec(s, r, P, c);
  });
  for(int r = 0; r < P; ++r)
    if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
  simmpi::check_clean();
  std::string why;
  if(!simmpi::same_collectives(&why)) fail("collective-mismatch", "%s", why.c_str());
  if(P > 1) nontrivial();
  mix(simmpi::collectives() * 1000 + simmpi::messages());
}
