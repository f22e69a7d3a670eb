// Random sparse matrices for the sparsexx harnesses.
#pragma once
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <algorithm>
#include <map>
#include <vector>
#include "sim.hpp"

namespace hx {
struct Entry { int64_t i, j; double v; };
struct Mat {
  int64_t m = 0, n = 0;
  std::vector<Entry> e;   // sorted by row, then column; unique
};
struct MatOpt { int max_m = 40; bool square = true; bool integer = false; };
// Draws a shape and a sparsity pattern (with empty rows/columns, dense rows, banded, ... ).
inline Mat random_matrix(const MatOpt& o) {
  using namespace sim;
  Mat A;
  bool vast = flip(1, 80, "vast"), thick = vast && flip(1, 4, "thick");   // many rows, or many entries
  int big = thick ? 150 : vast ? 300 : flip(1, 5, "bigm") ? o.max_m : 10;
  A.m = range(thick ? 60 : 1, big, "m");
  A.n = o.square ? A.m : range(1, big, "n");
  int pat = (int)choose(7, "pattern");
  if(thick) { if(pat != 0) pat = 6; sim::probe("thousands-of-entries"); }
  Rng g = data_rng("matrix");
  auto val = [&]() {
    if(o.integer) { int v = (int)g.below(19) - 9; return (double)(v ? v : 7); }
    double x = g.sym();
    return x == 0 ? 0.5 : x;
  };
  std::vector<char> rowz(A.m, 0), colz(A.n, 0);
  if(g.below(3) == 0) for(auto& z : rowz) z = g.below(3) == 0;
  if(g.below(3) == 0) for(auto& z : colz) z = g.below(3) == 0;
  int dens = 1 + (int)g.below(9);
  for(int64_t i = 0; i < A.m; ++i)
    for(int64_t j = 0; j < A.n; ++j) {
      bool in;
      switch(pat) {
        case 0: in = g.below(vast && !thick ? 300 : 10) < (uint32_t)dens; break;
        case 1: in = i == j; break;
        case 2: in = std::abs(i - j) <= 1; break;
        case 3: in = i == 0 || j == 0 || i == j; break;              // arrow
        case 4: in = i == A.m - 1 || j == A.n - 1; break;            // last row/column dense
        case 5: in = g.below(A.m * A.n) < 3; break;                  // nearly empty
        default: in = thick || !vast || g.below(20) == 0;
      }
      if(in && (pat == 1 || (!rowz[i] && !colz[j]))) A.e.push_back({i, j, val()});
    }
  return A;
}
template <class M>
M to_csr(const Mat& A, int base) {
  using T = typename M::value_type;
  M C(A.m, A.n, (int64_t)A.e.size(), base);
  std::vector<int64_t> cnt(A.m + 1, 0);
  for(auto& x : A.e) cnt[x.i + 1]++;
  for(int64_t i = 0; i < A.m; ++i) cnt[i + 1] += cnt[i];
  for(int64_t i = 0; i <= A.m; ++i) C.rowptr()[i] = cnt[i] + base;
  for(size_t q = 0; q < A.e.size(); ++q) { C.colind()[q] = A.e[q].j + base; C.nzval()[q] = (T)A.e[q].v; }
  return C;
}
// A contiguous partition of M rows over P ranks, possibly with empty ranks.
template <class I>
std::vector<std::pair<I, I>> random_tiles(int64_t M, int P) {
  std::vector<int64_t> cut(P + 1, 0);
  cut[P] = M;
  sim::Rng g = sim::data_rng("tiles");
  int kind = (int)sim::choose(4, "tilekind");
  for(int p = 1; p < P; ++p)
    switch(kind) {
      case 0: cut[p] = M * p / P; break;
      case 1: cut[p] = g.below((uint32_t)M + 1); break;
      case 2: cut[p] = M; break;                      // everything on rank 0
      case 3: cut[p] = g.below(2) ? 0 : (int64_t)g.below((uint32_t)M + 1); break;
    }
  std::sort(cut.begin(), cut.end());
  std::vector<std::pair<I, I>> t;
  for(int p = 0; p < P; ++p) t.push_back({(I)cut[p], (I)cut[p + 1]});
  return t;
}
inline std::vector<std::pair<int64_t, int64_t>> default_tiles_expected(int64_t M, int P) {
  std::vector<std::pair<int64_t, int64_t>> t;
  int64_t b = M / P;
  for(int p = 0; p < P; ++p) t.push_back({p * b, (p + 1) * b});
  t.back().second = M;
  return t;
}
// Distribute a matrix.  The constructor that splits a whole matrix does not compile for
// 64-bit indices; there the tiles are cut with the same library functions and set.
template <class M, class I>
sparsexx::dist_sparse_matrix<M> distribute(MPI_Comm c, const M& A, const std::vector<std::pair<I, I>>* tiles) {
  using D = sparsexx::dist_sparse_matrix<M>;
  if constexpr(sizeof(I) == 4) {
    if(tiles) return D(c, A, *tiles);
    return D(c, A);
  } else {
    D d = tiles ? D(c, A.m(), A.n(), *tiles) : D(c, A.m(), A.n());
    int64_t lo = d.local_row_start(), hi = lo + (int64_t)d.local_row_extent();
    std::pair<int64_t, int64_t> l{lo, lo}, u{hi, hi};
    auto a = sparsexx::extract_submatrix(A, l, u);
    auto b = sparsexx::extract_submatrix_inclrow_exclcol(A, l, u);
    a.set_indexing(0);
    b.set_indexing(0);
    d.set_diagonal_tile(std::move(a));
    d.set_off_diagonal_tile(b);
    return d;
  }
}
}  // namespace hx
