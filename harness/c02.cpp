// C02: distributed SpMV against the serial product.
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <cmath>
#include "simmpi.hpp"
#include "spmat.hpp"
const char* const harness_property = "C02";
void harness_init() {}
#include <set>
using namespace sim;

template <class T> struct Case {
  hx::Mat A;
  bool custom;
  std::vector<std::pair<int64_t, int64_t>> tiles;
};
template <class M, class T, class I>
static void run_typed() {
  constexpr bool exact = std::is_integral_v<T>;
  int P = 1 + (int)choose(flip(1, 8, "bigP") ? 14 : 6, "ranks");
  int nmat = 1 + (int)choose(2, "nmat");
  std::vector<hx::Mat> A(nmat);
  std::vector<char> custom(nmat);
  std::vector<std::vector<std::pair<I, I>>> tiles(nmat);
  for(int q = 0; q < nmat; ++q) {
    hx::MatOpt o;
    o.integer = exact;
    A[q] = hx::random_matrix(o);
    custom[q] = flip(1, 2, "custom") || A[q].m < P ? 1 : 0;
    if(A[q].m < P && flip(1, 3, "defsmall")) custom[q] = 0;
    if(custom[q]) tiles[q] = hx::random_tiles<I>(A[q].m, P);
  }
  int nprod = 1 + (int)choose(4, "nprod");
  struct Prod { int mat; T alpha, beta; std::vector<T> x, y; };
  std::vector<Prod> prods(nprod);
  Rng g = data_rng("vectors");
  for(auto& p : prods) {
    p.mat = (int)g.below(nmat);
    auto val = [&]() -> T { return exact ? (T)((int)g.below(21) - 10) : (T)g.sym(); };
    p.alpha = g.below(3) == 0 ? T(1) : val();
    p.beta = g.below(3) == 0 ? T(0) : val();
    for(int64_t i = 0; i < A[p.mat].m; ++i) p.x.push_back(val()), p.y.push_back(val());
  }
  note("P=%d nmat=%d nprod=%d exact=%d", P, nmat, nprod, (int)exact);
  // per product, per rank: the output
  std::vector<std::vector<std::vector<T>>> out(nprod, std::vector<std::vector<T>>(P));
  std::vector<std::vector<std::pair<int64_t, int64_t>>> bounds(nmat, std::vector<std::pair<int64_t, int64_t>>(P));
  std::vector<std::vector<size_t>> vol(nmat, std::vector<size_t>(P, 0));
  std::vector<char> ask_vol(nmat);
  for(auto& a : ask_vol) a = flip(1, 4, "volume");
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
    std::vector<sparsexx::dist_sparse_matrix<M>> D;
    D.reserve(nmat);
    std::vector<sparsexx::spblas::spmv_info<I>> info;
    for(int q = 0; q < nmat; ++q) {
      M full = hx::to_csr<M>(A[q], 0);
      D.push_back(hx::distribute<M, I>(c, full, custom[q] ? &tiles[q] : nullptr));
      bounds[q][r] = {D.back().local_row_start(), D.back().local_row_start() + D.back().local_row_extent()};
      info.push_back(sparsexx::spblas::generate_spmv_comm_info(D.back()));
      if(ask_vol[q]) vol[q][r] = info.back().communication_volume();
    }
    for(int k = 0; k < nprod; ++k) {
      auto& p = prods[k];
      auto [lo, hi] = bounds[p.mat][r];
      // exact-size buffers, so that any access outside the local rows is caught
      std::vector<T> x(p.x.begin() + lo, p.x.begin() + hi), y(p.y.begin() + lo, p.y.begin() + hi);
      auto x0 = x;
      x.shrink_to_fit(); y.shrink_to_fit();
      sparsexx::spblas::pgespmv(p.alpha, D[p.mat], x.data(), p.beta, y.data(), info[p.mat]);
      if(x != x0) fail("input-modified", "rank %d: the input vector changed", r);
      out[k][r] = y;
    }
  });
  for(int r = 0; r < P; ++r)
    if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
  for(int k = 0; k < nprod; ++k) {
    auto& p = prods[k];
    auto& a = A[p.mat];
    std::vector<long double> want(a.m), mag(a.m, 0);
    for(int64_t i = 0; i < a.m; ++i) want[i] = (long double)p.beta * p.y[i], mag[i] = std::abs((double)want[i]);
    for(auto& e : a.e) { long double t = (long double)p.alpha * (T)e.v * p.x[e.j]; want[e.i] += t; mag[e.i] += std::abs((double)t); }
    int64_t covered = 0;
    for(int r = 0; r < P; ++r) {
      auto [lo, hi] = bounds[p.mat][r];
      if(lo != covered) fail("rows", "rank %d starts at row %ld, expected %ld", r, (long)lo, (long)covered);
      covered = hi;
      for(int64_t i = lo; i < hi; ++i) {
        long double got = out[k][r][i - lo], err = std::abs((double)(got - want[i]));
        if(exact ? err != 0 : !(err <= 1e-12 * (1 + mag[i])))
          fail("wrong-product", "product %d rank %d of %d row %ld: got %.17g, serial %.17g", k, r, P, (long)i, (double)got, (double)want[i]);
        mix((uint64_t)(long long)(got * 1e6));
      }
    }
    if(covered != a.m) fail("rows", "the ranks cover %ld of %ld rows", (long)covered, (long)a.m);
  }
  // elements some process needs from another one
  auto needed = [&](int q) {
    std::set<std::pair<int, int64_t>> need;
    for(auto& e : A[q].e)
      for(int r = 0; r < P; ++r) {
        auto [lo, hi] = bounds[q][r];
        if(e.i >= lo && e.i < hi && !(e.j >= lo && e.j < hi)) need.insert({r, e.j});
      }
    return need.size();
  };
  for(int q = 0; q < nmat; ++q)
    if(ask_vol[q])
      for(int r = 0; r < P; ++r)
        if(vol[q][r] != needed(q)) fail("volume", "rank %d of %d reports %zu exchanged elements per product, %zu are needed", r, P, vol[q][r], needed(q));
  simmpi::check_clean();
  std::string why;
  if(!simmpi::same_collectives(&why)) fail("collective-mismatch", "%s", why.c_str());
  if(simmpi::messages()) nontrivial();
  for(int q = 0; q < nmat; ++q) {
    for(int r = 0; r < P; ++r) if(bounds[q][r].first == bounds[q][r].second) { probe("rank-without-rows"); break; }
    if(A[q].m < P) probe("fewer-rows-than-ranks");
  }
  if(nmat > 1) probe("two-matrices-interleaved");
  if(nprod > 1) probe("repeated-product");
}
void harness_run() {
  switch(choose(3, "type")) {
    case 0: run_typed<sparsexx::csr_matrix<double, int32_t>, double, int32_t>(); break;
    case 1: run_typed<sparsexx::csr_matrix<double, int64_t>, double, int64_t>(); break;
    case 2: run_typed<sparsexx::csr_matrix<int64_t, int64_t>, int64_t, int64_t>(); break;
  }
}
