// C09: distributing / copying a sparse matrix conserves every entry.
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include "simmpi.hpp"
#include "spmat.hpp"
const char* const harness_property = "C09";
void harness_init() {}
using namespace sim;

struct Piece { int64_t lo = -1, hi = -1, m = -1, n = -1, nnz = -1; std::vector<hx::Entry> diag, off; std::vector<std::pair<int64_t, int64_t>> rb; };
template <class D>
static Piece describe(const D& d, int P, int r) {
  Piece p;
  p.m = d.m(); p.n = d.n(); p.nnz = d.nnz();
  p.lo = d.local_row_start(); p.hi = p.lo + (int64_t)d.local_row_extent();
  for(int q = 0; q < P; ++q) {
    auto [a, b] = d.row_bounds(q);
    p.rb.push_back({(int64_t)a, (int64_t)b});
    if((int64_t)d.row_extent(q) != (int64_t)b - (int64_t)a) fail("row-extent", "row_extent(%d) disagrees with row_bounds", q);
  }
  auto rd = [&](const auto& t, int64_t coff, std::vector<hx::Entry>& out, const char* what) {
    int64_t base = t.indexing();
    if(base != 0) fail("indexing", "rank %d: the %s tile is not zero based", r, what);
    if((int64_t)t.m() != p.hi - p.lo) fail("tile-shape", "rank %d: the %s tile has %ld rows for %ld local rows", r, what, (long)t.m(), (long)(p.hi - p.lo));
    if((int64_t)t.rowptr().size() != t.m() + 1 || t.rowptr()[0] != 0 || (int64_t)t.rowptr()[t.m()] != (int64_t)t.nnz() ||
       (int64_t)t.colind().size() != t.nnz() || (int64_t)t.nzval().size() != t.nnz())
      fail("tile-structure", "rank %d: inconsistent %s tile", r, what);
    for(int64_t i = 0; i < (int64_t)t.m(); ++i)
      for(int64_t q = t.rowptr()[i]; q < (int64_t)t.rowptr()[i + 1]; ++q)
        out.push_back({p.lo + i, (int64_t)t.colind()[q] + coff, (double)t.nzval()[q]});
  };
  size_t foot = 0;
  if(d.diagonal_tile_ptr()) foot += d.diagonal_tile_ptr()->mem_footprint();
  if(d.off_diagonal_tile_ptr()) foot += d.off_diagonal_tile_ptr()->mem_footprint();
  if(d.mem_footprint() != foot) fail("footprint", "rank %d: reports %zu bytes of storage, its parts have %zu", r, (size_t)d.mem_footprint(), foot);
  if(d.diagonal_tile_ptr()) rd(*d.diagonal_tile_ptr(), p.lo, p.diag, "diagonal");
  if(d.off_diagonal_tile_ptr()) rd(*d.off_diagonal_tile_ptr(), 0, p.off, "off-diagonal");
  return p;
}
static void judge(const char* what, const std::vector<Piece>& ps, const hx::Mat& A, int P, const std::vector<std::pair<int64_t, int64_t>>* tiles) {
  std::vector<hx::Entry> all;
  int64_t at = 0;
  for(int r = 0; r < P; ++r) {
    auto& p = ps[r];
    if(p.m != A.m || p.n != A.n) fail("shape", "%s: rank %d reports %ldx%ld, the matrix is %ldx%ld", what, r, (long)p.m, (long)p.n, (long)A.m, (long)A.n);
    if(p.lo != at || p.hi < p.lo) fail("partition", "%s: rank %d owns rows [%ld,%ld), previous ended at %ld", what, r, (long)p.lo, (long)p.hi, (long)at);
    at = p.hi;
    for(int q = 0; q < P; ++q)
      if(p.rb[q] != ps[0].rb[q] || (q == r && p.rb[q] != std::make_pair(p.lo, p.hi))) fail("partition", "%s: ranks disagree on the rows of rank %d", what, q);
    if(tiles && (*tiles)[r] != std::make_pair(p.lo, p.hi)) fail("partition", "%s: rank %d owns [%ld,%ld) instead of the requested [%ld,%ld)", what, r, (long)p.lo, (long)p.hi, (long)(*tiles)[r].first, (long)(*tiles)[r].second);
    if(p.nnz != (int64_t)(p.diag.size() + p.off.size())) fail("nnz", "%s: rank %d reports %ld entries and stores %zu", what, r, (long)p.nnz, p.diag.size() + p.off.size());
    for(auto& e : p.diag) { if(e.j < p.lo || e.j >= p.hi) fail("misplaced", "%s: rank %d local part holds column %ld", what, r, (long)e.j); all.push_back(e); }
    for(auto& e : p.off) { if(e.j >= p.lo && e.j < p.hi) fail("misplaced", "%s: rank %d remote part holds local column %ld", what, r, (long)e.j); all.push_back(e); }
  }
  if(at != A.m) fail("partition", "%s: the ranks own %ld of %ld rows", what, (long)at, (long)A.m);
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; });
  if(all.size() != A.e.size()) fail("entries", "%s: %zu entries stored, the matrix has %zu", what, all.size(), A.e.size());
  for(size_t k = 0; k < all.size(); ++k)
    if(all[k].i != A.e[k].i || all[k].j != A.e[k].j || all[k].v != A.e[k].v)
      fail("entries", "%s: stored (%ld,%ld)=%.17g, expected (%ld,%ld)=%.17g", what, (long)all[k].i, (long)all[k].j, all[k].v, (long)A.e[k].i, (long)A.e[k].j, A.e[k].v);
}
template <class I>
static void run_typed() {
  using M = sparsexx::csr_matrix<double, I>;
  using D = sparsexx::dist_sparse_matrix<M>;
  int P = 1 + (int)choose(flip(1, 8, "bigP") ? 14 : 7, "ranks");
  hx::MatOpt o;
  o.square = !flip(1, 3, "rect");
  hx::Mat A = hx::random_matrix(o);
  int base = (int)choose(2, "base");
  int scenario = (int)choose(4, "scenario");   // 0,1: build (+copy/move); 2: empty ctor + copy; 3: invalid partition
  bool custom = flip(1, 2, "custom");
  auto tiles = hx::random_tiles<I>(A.m, P);
  note("P=%d %ldx%ld nnz=%zu base=%d scenario=%d custom=%d", P, (long)A.m, (long)A.n, A.e.size(), base, scenario, (int)custom);
  if(scenario == 3) {
    // make it invalid
    std::string why;
    switch(choose(6, "invalid")) {
      case 0: tiles.push_back({(I)A.m, (I)A.m}); why = "one range too many"; break;
      case 1: tiles.pop_back(); if(!tiles.empty()) tiles.back().second = A.m; why = "one range too few"; break;
      case 2: tiles[0].first = 1; if(tiles[0].second < 1) tiles[0].second = 1; why = "does not start at 0"; break;
      case 3: tiles.back().second = A.m + 1; why = "ends beyond the last row"; break;
      case 4: tiles.back().second = A.m - 1; if(tiles.back().first > A.m - 1) tiles.back().first = A.m - 1; why = "last row not covered"; break;
      case 5: {
        if(P < 2) { tiles.push_back({(I)A.m, (I)A.m}); why = "one range too many"; break; }
        int b = (int)choose(P - 1, "where");
        int kind = (int)choose(3, "how");
        if(kind == 0) { tiles[b + 1].first += 1; why = "gap"; if(tiles[b + 1].second < tiles[b + 1].first) tiles[b + 1].second = tiles[b + 1].first; }
        else if(kind == 1) { tiles[b].second += 1; why = "overlap"; }
        else { // a reversed range, still chained end to start
          tiles[b].second = tiles[b].first - 1; tiles[b + 1].first = tiles[b].second; why = "reversed range";
        }
      }
    }
    bool with_matrix = flip(1, 2, "withmat");
    std::vector<char> accepted(P, 0);
    auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
      if(with_matrix) { D d = hx::distribute<M, I>(c, hx::to_csr<M>(A, base), &tiles); } else { D d(c, A.m, A.n, tiles); }
      accepted[r] = 1;
    });
    for(int r = 0; r < P; ++r)
      if(accepted[r]) fail("invalid-accepted", "rank %d of %d accepted a partition that is invalid (%s)", r, P, why.c_str());
    nontrivial();
    probe("invalid-partition");
    return;
  }
  std::vector<std::pair<int64_t, int64_t>> want;
  for(auto& t : tiles) want.push_back({(int64_t)t.first, (int64_t)t.second});
  std::vector<Piece> orig(P), copy(P), moved(P), orig2(P), shallow(P);
  int how = (int)choose(3, "how");   // what to do with it afterwards
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
    if(scenario == 2) {
      // tiles set one at a time by the caller
      D src = hx::distribute<M, I>(c, hx::to_csr<M>(A, base), custom ? &tiles : nullptr);
      D d = custom ? D(c, A.m, A.n, tiles) : D(c, A.m, A.n);
      if(d.nnz() != 0) fail("nnz", "rank %d: a matrix without tiles reports entries", r);
      if(how == 0) {
        d.set_diagonal_tile(src.diagonal_tile());
        d.set_off_diagonal_tile(src.off_diagonal_tile());
      } else {
        M a = src.diagonal_tile(), b = src.off_diagonal_tile();
        d.set_diagonal_tile(std::move(a));
        d.set_off_diagonal_tile(std::move(b));
      }
      orig[r] = describe(d, P, r);
      D e(d);
      copy[r] = describe(e, P, r);
      D f(std::move(e));
      moved[r] = describe(f, P, r);
      return;
    }
    D d = hx::distribute<M, I>(c, hx::to_csr<M>(A, base), custom ? &tiles : nullptr);
    orig[r] = describe(d, P, r);
    D e(d);
    copy[r] = describe(e, P, r);
    orig2[r] = describe(d, P, r);
    if(how == 1) {   // a copy owns its entries: changing it leaves the original alone
      auto t = e.diagonal_tile_ptr();
      for(auto& x : t->nzval()) x = 1e9;
      auto u = e.off_diagonal_tile_ptr();
      for(auto& x : u->nzval()) x = 1e9;
      orig2[r] = describe(d, P, r);
      D e2(d);
      D f(std::move(e2));
      moved[r] = describe(f, P, r);
    } else if(how == 2) {
      D e2(e);           // copy of a copy, then move
      D f(std::move(e2));
      moved[r] = describe(f, P, r);
    } else {
      D f(std::move(d));
      moved[r] = describe(f, P, r);
    }
  });
  for(int r = 0; r < P; ++r)
    if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
  auto* w = custom ? &want : nullptr;
  judge("distributed", orig, A, P, w);
  judge("copy", copy, A, P, w);
  judge("move", moved, A, P, w);
  if(scenario != 2) judge("original after copying", orig2, A, P, w);
  auto same = [&](const std::vector<Piece>& a) { for(int r = 0; r < P; ++r) if(a[r].rb != orig[r].rb) return false; return true; };
  if(!same(copy)) fail("copy-partition", "the copy has another row partition than the original");
  if(!same(moved)) fail("move-partition", "the moved matrix has another row partition than the original");
  simmpi::check_clean();
  if(P > 1) nontrivial();
  if(A.m < P) probe("fewer-rows-than-ranks");
  if(A.m != A.n) probe("rectangular");
  if(custom) probe("custom-partition");
  for(auto& e : A.e) mix(e.i * 1000 + e.j);
}
void harness_run() {
  if(flip(1, 2, "index64")) run_typed<int64_t>(); else run_typed<int32_t>();
}
