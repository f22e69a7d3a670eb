// Comparing sparse matrices of any storage with the reference entries.
#pragma once
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <cmath>
#include <cstring>
#include "spmat.hpp"
namespace hx {
inline void special_values(Mat& A) {
  sim::Rng g = sim::data_rng("special");
  if(g.below(2)) return;
  for(auto& e : A.e)
    switch(g.below(8)) {
      case 0: e.v = g.sym() * 1e-300; break;
      case 1: e.v = g.sym() * 1e17; break;
      case 2: e.v = 0.1; break;
      case 3: { uint64_t b; do { b = g.next(); memcpy(&e.v, &b, 8); } while(!std::isfinite(e.v) || std::fabs(e.v) < 2.3e-308); break; }
      case 4: e.v = (double)(int)g.below(1000) - 500; break;
      case 5: e.v = 0.0; break;       // an explicitly stored zero is an entry
    }
}
template <class M> M to_coo(const Mat& A, int base, bool shuffled) {
  using I = typename M::index_type;
  std::vector<Entry> e = A.e;
  if(shuffled) { sim::Rng g = sim::Rng(A.e.size() * 7 + A.m); for(size_t i = 0; i + 1 < e.size(); ++i) std::swap(e[i], e[i + g.below((uint32_t)(e.size() - i))]); }
  std::vector<I> r, c;
  std::vector<typename M::value_type> v;
  for(auto& x : e) { r.push_back(x.i + base); c.push_back(x.j + base); v.push_back(x.v); }
  return M(A.m, A.n, std::move(c), std::move(r), std::move(v), base);
}
inline void tidy(Mat& A) { std::sort(A.e.begin(), A.e.end(), [](auto& a, auto& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; }); }
// The returned entries keep the indices as stored; *base is what the matrix says about itself.
template <class M> Mat from_csr(const M& C, int64_t* base) {
  Mat A;
  A.m = C.m(); A.n = C.n(); *base = C.indexing();
  if((int64_t)C.rowptr().size() != A.m + 1 || (int64_t)C.colind().size() != C.nnz() || (int64_t)C.nzval().size() != C.nnz()) sim::fail("structure", "inconsistent row-compressed matrix");
  if((int64_t)C.rowptr()[0] != *base || (int64_t)C.rowptr()[A.m] != *base + (int64_t)C.nnz()) sim::fail("structure", "row pointer runs from %ld to %ld for %ld entries with base %ld", (long)C.rowptr()[0], (long)C.rowptr()[A.m], (long)C.nnz(), (long)*base);
  for(int64_t i = 0; i < A.m; ++i) {
    if((int64_t)C.rowptr()[i + 1] < (int64_t)C.rowptr()[i]) sim::fail("structure", "row pointer decreases at row %ld: %ld after %ld", (long)i, (long)C.rowptr()[i + 1], (long)C.rowptr()[i]);
    for(int64_t q = C.rowptr()[i] - *base; q < (int64_t)C.rowptr()[i + 1] - *base; ++q) A.e.push_back({i + *base, (int64_t)C.colind()[q], (double)C.nzval()[q]});
  }
  tidy(A);
  return A;
}
template <class M> Mat from_csc(const M& C, int64_t* base) {
  Mat A;
  A.m = C.m(); A.n = C.n(); *base = C.indexing();
  if((int64_t)C.colptr().size() != A.n + 1 || (int64_t)C.rowind().size() != C.nnz() || (int64_t)C.nzval().size() != C.nnz()) sim::fail("structure", "inconsistent column-compressed matrix");
  if((int64_t)C.colptr()[0] != *base || (int64_t)C.colptr()[A.n] != *base + (int64_t)C.nnz()) sim::fail("structure", "column pointer runs from %ld to %ld for %ld entries with base %ld", (long)C.colptr()[0], (long)C.colptr()[A.n], (long)C.nnz(), (long)*base);
  for(int64_t j = 0; j < A.n; ++j) {
    if((int64_t)C.colptr()[j + 1] < (int64_t)C.colptr()[j]) sim::fail("structure", "column pointer decreases at column %ld", (long)j);
    for(int64_t q = C.colptr()[j] - *base; q < (int64_t)C.colptr()[j + 1] - *base; ++q) A.e.push_back({(int64_t)C.rowind()[q], j + *base, (double)C.nzval()[q]});
  }
  tidy(A);
  return A;
}
template <class M> Mat from_coo(const M& C, int64_t* base) {
  Mat A;
  A.m = C.m(); A.n = C.n(); *base = C.indexing();
  if((int64_t)C.rowind().size() != C.nnz() || (int64_t)C.colind().size() != C.nnz() || (int64_t)C.nzval().size() != C.nnz()) sim::fail("structure", "inconsistent triplet matrix");
  for(int64_t q = 0; q < (int64_t)C.nnz(); ++q) A.e.push_back({(int64_t)C.rowind()[q], (int64_t)C.colind()[q], (double)C.nzval()[q]});
  tidy(A);
  return A;
}
// got (indices as stored, base gb) equals want (zero based) written with base wb.  The file does not
// record the base; a matrix in which no index is 0 may be taken as one based, but then consistently.
inline bool same_mat(const Mat& got, int64_t gb, const Mat& want, int64_t wb, std::string* why) {
  char m[240];
  if(got.m != want.m || got.n != want.n) { snprintf(m, 240, "%ldx%ld instead of %ldx%ld", (long)got.m, (long)got.n, (long)want.m, (long)want.n); *why = m; return false; }
  if(got.e.size() != want.e.size()) { snprintf(m, 240, "%zu entries instead of %zu", got.e.size(), want.e.size()); *why = m; return false; }
  for(size_t q = 0; q < got.e.size(); ++q) {
    auto& a = got.e[q]; auto& b = want.e[q];
    if(a.i != b.i + wb || a.j != b.j + wb || memcmp(&a.v, &b.v, 8)) {
      snprintf(m, 240, "entry %zu is (%ld,%ld)=%.17g instead of (%ld,%ld)=%.17g", q, (long)a.i, (long)a.j, a.v, (long)(b.i + wb), (long)(b.j + wb), b.v);
      *why = m;
      return false;
    }
  }
  bool zero = false;
  for(auto& e : want.e) zero |= e.i + wb == 0 || e.j + wb == 0;
  if(!want.e.empty()) {
    if(zero && gb != 0) { *why = "a zero-based matrix came back as one based"; return false; }
    if(!zero && wb == 1 && gb != 1) { *why = "a one-based matrix came back as zero based"; return false; }
  }
  return true;
}
}  // namespace hx
