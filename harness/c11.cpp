// C11: the threaded sparse kernels under the simulated OpenMP runtime.
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/util/permute.hpp>
#include <algorithm>
#include <cstring>
#include <map>
#include <numeric>
#include "sim.hpp"
#include "simomp.hpp"
const char* const harness_property = "C11";
void harness_init() {}
using namespace sim;

// Everything is a small integer, so that any order of summation gives the same value.
struct Entry { int64_t i, j; int v; };
struct Mat { int64_t m, n; std::vector<Entry> e; };   // entries row by row, columns unique

static Mat draw_matrix() {
  Mat A;
  int big = flip(1, 40, "vast") ? 150 : flip(1, 6, "big") ? 30 : 9;
  A.m = range(1, big, "m");
  A.n = flip(1, 2, "square") ? A.m : range(1, big, "n");
  Rng g = data_rng("matrix");
  int pat = (int)choose(6, "pattern"), dens = 1 + (int)g.below(9);
  std::vector<char> rz(A.m, 0);
  if(g.below(2)) for(auto& z : rz) z = g.below(3) == 0;
  for(int64_t i = 0; i < A.m; ++i)
    for(int64_t j = 0; j < A.n; ++j) {
      bool in = false;
      switch(pat) {
        case 0: in = g.below(10) < (uint32_t)dens; break;
        case 1: in = i == j; break;
        case 2: in = i == 0 || j == 0; break;
        case 3: in = i == A.m - 1 || j == A.n - 1; break;
        case 4: in = g.below(A.m * A.n) < 3; break;
        case 5: in = true; break;
      }
      if(in && !rz[i]) { int v = (int)g.below(19) - 9; A.e.push_back({i, j, v ? v : 5}); }
    }
  return A;
}
static std::vector<int64_t> draw_perm(int64_t n, Rng& g) {
  std::vector<int64_t> p(n);
  std::iota(p.begin(), p.end(), 0);
  uint32_t k = g.below(5);
  if(k == 0) return p;
  if(k == 1) { std::reverse(p.begin(), p.end()); return p; }
  if(k == 2) { std::rotate(p.begin(), p.begin() + g.below(n), p.end()); return p; }
  if(k == 3) {   // group by part, as a partitioner's result is used
    int64_t np = 1 + g.below(4);
    std::vector<int64_t> part(n);
    for(auto& x : part) x = g.below(np);
    auto [perm, ptr] = sparsexx::perm_from_part(np, part);
    std::vector<int64_t> want, wp(1, 0);
    for(int64_t q = 0; q < np; ++q) {
      for(int64_t i = 0; i < n; ++i) if(part[i] == q) want.push_back(i);
      wp.push_back((int64_t)want.size());
    }
    if(perm != want || ptr != wp) fail("partition-order", "the permutation of a partition into %ld parts does not list the parts one after the other", (long)np);
    return perm;
  }
  for(int64_t i = n - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
  return p;
}
template <class M>
static M csr(const Mat& A, int base, Rng* shuffle) {
  M C(A.m, A.n, (int64_t)A.e.size(), base);
  std::vector<std::vector<Entry>> rows(A.m);
  for(auto& x : A.e) rows[x.i].push_back(x);
  int64_t q = 0;
  C.rowptr()[0] = base;
  for(int64_t i = 0; i < A.m; ++i) {
    if(shuffle) for(size_t k = rows[i].size(); k > 1; --k) std::swap(rows[i][k - 1], rows[i][shuffle->below(k)]);
    for(auto& x : rows[i]) { C.colind()[q] = x.j + base; C.nzval()[q] = x.v; ++q; }
    C.rowptr()[i + 1] = q + base;
  }
  return C;
}
template <class M>
static M coo(const Mat& A, int base, Rng* shuffle) {
  auto e = A.e;
  if(shuffle) for(size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[shuffle->below(k)]);
  M C(A.m, A.n, (int64_t)e.size(), base);
  for(size_t q = 0; q < e.size(); ++q) { C.rowind()[q] = e[q].i + base; C.colind()[q] = e[q].j + base; C.nzval()[q] = e[q].v; }
  return C;
}
template <class M>
static std::map<std::pair<int64_t, int64_t>, double> content(const M& C, const char* what) {
  std::map<std::pair<int64_t, int64_t>, double> r;
  int64_t b = C.indexing();
  if((int64_t)C.rowptr().size() != C.m() + 1 || C.rowptr()[0] != b || C.rowptr()[C.m()] - b != C.nnz())
    fail("structure", "%s: row pointers do not frame the entries", what);
  for(int64_t i = 0; i < C.m(); ++i) {
    if(C.rowptr()[i + 1] < C.rowptr()[i]) fail("structure", "%s: row pointers decrease", what);
    int64_t last = -1;
    for(int64_t q = C.rowptr()[i] - b; q < C.rowptr()[i + 1] - b; ++q) {
      int64_t j = C.colind()[q] - b;
      if(j < 0 || j >= C.n()) fail("structure", "%s: column %ld out of range", what, (long)j);
      if(!r.emplace(std::make_pair(i, j), (double)C.nzval()[q]).second) fail("structure", "%s: (%ld,%ld) twice", what, (long)i, (long)j);
      last = j;
    }
    (void)last;
  }
  return r;
}
static void compare(const std::map<std::pair<int64_t, int64_t>, double>& got, const std::map<std::pair<int64_t, int64_t>, double>& want, const char* what) {
  if(got.size() != want.size()) fail("entries", "%s: %zu entries instead of %zu", what, got.size(), want.size());
  for(auto& [k, v] : want) {
    auto it = got.find(k);
    if(it == got.end()) fail("entries", "%s: entry (%ld,%ld) missing", what, (long)k.first, (long)k.second);
    if(it->second != v) fail("entries", "%s: entry (%ld,%ld) is %g instead of %g", what, (long)k.first, (long)k.second, it->second, v);
  }
}

template <class T> struct Block {   // a column-major block inside an array with padding all round
  int64_t m, n, ld;
  std::vector<T> a;
  Block(int64_t m, int64_t n, int64_t ld) : m(m), n(n), ld(ld), a(n ? ld * (n - 1) + m : 0) {}
  T* p() { return a.data(); }
};

template <class T, class I>
static void one_op(const Mat& A, int op, int base, int K, bool shuffled, bool reuse) {
  using CSR = sparsexx::csr_matrix<T, I>;
  using COO = sparsexx::coo_matrix<T, I>;
  Rng g = data_rng("op");
  Rng* sh = shuffled ? &g : nullptr;
  if(op == 0 || op == 1) {
    int64_t ldv = A.n + g.below(4), lda = A.m + g.below(4);
    Block<T> V(A.n, K, ldv), Y(A.m, K, lda);
    for(auto& x : V.a) x = (T)((int)g.below(15) - 7);
    for(auto& x : Y.a) x = (T)((int)g.below(15) - 7);
    int al = g.below(3) ? (int)g.below(7) - 3 : 1, be = g.below(3) ? (int)g.below(7) - 3 : 0;
    auto want = Y.a;
    for(int64_t k = 0; k < K; ++k)
      for(int64_t i = 0; i < A.m; ++i) want[i + k * lda] *= be;
    for(auto& x : A.e)
      for(int64_t k = 0; k < K; ++k) want[x.i + k * lda] += al * x.v * V.a[x.j + k * ldv];
    auto v0 = V.a;
    const char* what = op == 0 ? "row-compressed product" : "triplet product";
    if(op == 0) {
      auto C = csr<CSR>(A, base, sh);
      if(g.below(2)) sparsexx::spblas::gespmbv(K, (T)al, C, V.p(), ldv, (T)be, Y.p(), lda);
      else sparsexx::spblas::gespmbv(K, al, C, V.p(), ldv, be, Y.p(), lda);
    } else {
      auto C = !shuffled && g.below(2) ? COO(csr<CSR>(A, base, nullptr)) : coo<COO>(A, base, sh);
      sparsexx::spblas::gespmbv(K, (T)al, C, V.p(), ldv, (T)be, Y.p(), lda);
    }
    if(V.a != v0) fail("input-changed", "%s changed its input block", what);
    for(size_t q = 0; q < want.size(); ++q)
      if(Y.a[q] != want[q])
        fail((int64_t)q % lda < A.m ? "wrong-value" : "padding", "%s (%ldx%ld, %d columns, base %d): element (%ld,%ld) is %g instead of %g", what, (long)A.m, (long)A.n, K, base,
             (long)(q % lda), (long)(q / lda), (double)Y.a[q], (double)want[q]);
    for(auto& x : Y.a) mix((uint64_t)(int64_t)x);
  } else if(op <= 4) {
    auto C = csr<CSR>(A, base, sh);
    auto rp = draw_perm(A.m, g), cp = draw_perm(A.n, g);
    std::vector<I> r(rp.begin(), rp.end()), c(cp.begin(), cp.end());
    if(op == 3) std::iota(rp.begin(), rp.end(), 0);
    if(op == 2) std::iota(cp.begin(), cp.end(), 0);
    const char* what = op == 2 ? "row permutation" : op == 3 ? "column permutation" : "row and column permutation";
    auto P = op == 2 ? sparsexx::permute_rows(C, r) : op == 3 ? sparsexx::permute_cols(C, c) : sparsexx::permute_rows_cols(C, r, c);
    if(P.m() != A.m || P.n() != A.n || P.nnz() != (int64_t)A.e.size() || P.indexing() != base) fail("structure", "%s changed the dimensions", what);
    std::vector<int64_t> ir(A.m), ic(A.n);
    for(int64_t i = 0; i < A.m; ++i) ir[rp[i]] = i;
    for(int64_t j = 0; j < A.n; ++j) ic[cp[j]] = j;
    std::map<std::pair<int64_t, int64_t>, double> want;
    for(auto& x : A.e) want[{ir[x.i], ic[x.j]}] = x.v;
    compare(content(P, what), want, what);
    if(op != 2)   // columns come out in order
      for(int64_t i = 0; i < A.m; ++i)
        for(int64_t q = P.rowptr()[i] - base; q + 1 < P.rowptr()[i + 1] - base; ++q)
          if(P.colind()[q] >= P.colind()[q + 1]) fail("structure", "%s: the columns of row %ld are not in order", what, (long)i);
    {   // the product with the permuted matrix is the permuted product
      int64_t ldv = A.n + g.below(3), lda = A.m + g.below(3);
      std::vector<T> x(ldv), y(lda), want(A.m, (T)0), z(A.m);
      for(auto& q : x) q = (T)((int)g.below(15) - 7);
      for(auto& q : A.e) want[q.i] += (T)q.v * x[q.j];
      std::vector<I> fc(cp.begin(), cp.end()), fr(rp.begin(), rp.end());
      auto x0 = x;
      if(g.below(2)) sparsexx::permute_vector(A.n, x.data(), fc.data(), sparsexx::PermuteDirection::Backward);
      else { std::vector<I> inv = sparsexx::invert_perm(fc); sparsexx::permute_vector(A.n, x0.data(), inv.data(), x.data(), sparsexx::PermuteDirection::Forward); }
      sparsexx::spblas::gespmbv(1, (T)1, P, x.data(), ldv, (T)0, y.data(), lda);
      sparsexx::permute_vector(A.m, y.data(), fr.data(), z.data(), sparsexx::PermuteDirection::Forward);
      for(int64_t i = 0; i < A.m; ++i)
        if(z[i] != want[i]) fail("permuted-product", "%s: the product with the permuted matrix is not the permuted product", what);
    }
    if(reuse) {   // permuting back restores the matrix
      std::vector<I> br(ir.begin(), ir.end()), bc(ic.begin(), ic.end());
      auto B = op == 2 ? sparsexx::permute_rows(P, br) : op == 3 ? sparsexx::permute_cols(P, bc) : sparsexx::permute_rows_cols(P, br, bc);
      std::map<std::pair<int64_t, int64_t>, double> orig;
      for(auto& x : A.e) orig[{x.i, x.j}] = x.v;
      compare(content(B, "inverse permutation"), orig, "inverse permutation");
    }
    for(auto& x : P.colind()) mix((uint64_t)x);
  } else {
    int64_t ld = A.m + g.below(4);
    Block<T> D(A.m, A.n, ld);
    for(auto& x : D.a) x = (T)0;
    auto want = D.a;
    for(int64_t j = 0; j < A.n; ++j)
      for(int64_t i = A.m; i < ld && j + 1 < A.n; ++i) want[i + j * ld] = D.a[i + j * ld] = (T)77;
    for(auto& x : A.e) want[x.i + x.j * ld] = (T)x.v;
    if(op == 5) sparsexx::convert_to_dense(csr<CSR>(A, base, sh), D.p(), ld);
    else if(!shuffled && g.below(2)) sparsexx::convert_to_dense(COO(csr<CSR>(A, base, nullptr)), D.p(), ld);
    else sparsexx::convert_to_dense(coo<COO>(A, base, sh), D.p(), ld);
    for(size_t q = 0; q < want.size(); ++q)
      if(D.a[q] != want[q])
        fail("wrong-value", "expansion to dense of %s (%ldx%ld, base %d): element (%ld,%ld) is %g instead of %g", op == 5 ? "rows" : "triplets", (long)A.m, (long)A.n, base,
             (long)(q % ld), (long)(q / ld), (double)D.a[q], (double)want[q]);
    if(A.m > 1) {   // a leading dimension that is too small is refused
      bool threw = false;
      auto before = D.a;
      try {
        if(op == 5) sparsexx::convert_to_dense(csr<CSR>(A, base, sh), D.p(), A.m - 1);
        else sparsexx::convert_to_dense(coo<COO>(A, base, sh), D.p(), A.m - 1);
      } catch(const std::exception&) { threw = true; }
      if(!threw || D.a != before) fail("bad-leading-dimension", "expansion to dense accepted a leading dimension below the row count");
    }
    for(auto& x : D.a) mix((uint64_t)(int64_t)x);
  }
}
template <class T, class I>
static void typed() {
  simomp::Config c;
  c.max_threads = range(1, flip(1, 6, "many") ? 12 : 6, "threads");
  if(flip(1, 5, "fewer")) c.deliver = range(1, c.max_threads, "deliver");
  static const int gaps[] = {0, 3, 10, 40, 200};
  c.gap = gaps[choose(5, "gap")];
  int nop = range(1, 3, "ops");
  for(int k = 0; k < nop; ++k) {
    Mat A = draw_matrix();
    int op = (int)choose(7, "op"), base = (int)choose(2, "base"), K = range(1, flip(1, 8, "manyK") ? 20 : 5, "K");
    bool shuffled = flip(1, 3, "shuffled"), reuse = flip(1, 3, "reuse");
    note("op %d: %ldx%ld nnz %zu base %d K %d threads %d/%d gap %d", op, (long)A.m, (long)A.n, A.e.size(), base, K, c.max_threads, c.deliver, c.gap);
    if(k && flip(1, 4, "rethread")) { c.max_threads = range(1, flip(1, 6, "many") ? 12 : 6, "threads"); if(c.deliver > c.max_threads) c.deliver = 0; }
    simomp::configure(c);
    static const char* const N[] = {"csr-product", "coo-product", "permute-rows", "permute-cols", "permute-both", "dense-csr", "dense-coo"};
    probe(N[op]);
    one_op<T, I>(A, op, base, K, shuffled, reuse);
  }
  auto& s = simomp::stats();
  probe("parallel-regions", s.regions);
  probe("simulated-threads", s.threads);
  probe("checked-accesses", s.accesses);
  fault("omp.preemption", s.preemptions);
  add_sim_time(s.accesses);
  if(s.accesses && s.threads > s.regions) nontrivial();
}
void harness_run() {
  simomp::begin();
  switch(choose(4, "type")) {
    case 0: typed<double, int32_t>(); break;
    case 1: typed<double, int64_t>(); break;
    case 2: typed<float, int32_t>(); break;
    case 3: typed<int64_t, int64_t>(); break;
  }
  simomp::begin();
}
