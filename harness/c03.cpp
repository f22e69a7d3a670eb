// C03: the parallel Davidson / selected-CI eigensolver against a dense eigensolver.
#include <cstdint>
#include <sparsexx/sparsexx_config.hpp>
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include "simmpi.hpp"
#include "spmat.hpp"
#include "ci.hpp"
#include "eig.hpp"
const char* const harness_property = "C03";
void harness_init() { ci::null_loggers(); }
using namespace sim;
static Dense random_sym(int n, Rng& g, int pat, int ties) {
  Dense H(n, std::vector<double>(n, 0));
  std::vector<double> d;
  double x = (g.below(3) == 0 ? 2 : g.below(2) ? -4 : -20) + g.uni();
  for(int i = 0; i < n; ++i) { d.push_back(x); x += 0.4 + g.uni(); }
  for(int i = 0; i + 1 < n; ++i) std::swap(d[i], d[i + g.below(n - i)]);
  for(size_t lo = std::min_element(d.begin(), d.end()) - d.begin(); ties > 0; --ties) d[g.below(n)] = d[lo];   // equal smallest elements
  double c = g.below(2) ? 0.3 : 0.05;
  int blk = 2 + (int)g.below(5);
  for(int i = 0; i < n; ++i) {
    H[i][i] = d[i];
    for(int j = 0; j < i; ++j) {
      bool in = pat == 0 ? true : pat == 1 ? i - j <= 2 : pat == 2 ? g.below(4) == 0 : pat == 3 ? i / blk == j / blk : pat == 4 ? i % blk == j % blk : false;
      if(in) H[i][j] = H[j][i] = c * g.sym();
    }
  }
  return H;
}
static hx::Mat sparse(const Dense& H) {
  hx::Mat A;
  A.m = A.n = (int64_t)H.size();
  for(int64_t i = 0; i < A.m; ++i) for(int64_t j = 0; j < A.n; ++j) if(H[i][j] != 0 || i == j) A.e.push_back({i, j, H[i][j]});
  return A;
}
static std::vector<double> draw_start(int n, const Dense& Z, Rng& g, int kind) {
  std::vector<double> s(n, 0);
  switch(kind) {
    case 1: for(auto& x : s) x = (g.below(2) ? 1 : -1) * (0.05 + g.uni()); break;       // dense
    case 2: { double m = 0; for(auto& x : s) { x = g.below(3) ? 0 : g.sym(); m = std::max(m, std::fabs(x)); } if(m < 0.05) s[g.below(n)] = 1; break; }
    case 3: s[g.below(n)] = g.below(2) ? 1 : -1; break;
    case 4: { int k = g.below(2) ? 0 : (int)g.below(n); for(int i = 0; i < n; ++i) s[i] = Z[i][k]; break; }   // an eigenvector
    case 5: for(int i = 0; i < n; ++i) s[i] = Z[i][0] + 0.1 * g.sym(); break;            // near the solution
  }
  return s;
}
template <class I>
static void run_matrix() {
  typedef sparsexx::csr_matrix<double, I> M;
  int P = flip(1, 8, "bigP") ? range(1, 12, "P") : range(1, 6, "P");
  int n = flip(1, 5, "bign") ? range(1, 40, "n") : range(1, 10, "n");
  int pat = (int)choose(6, "pattern");
  Rng g = data_rng("matrix");
  int ties = flip(1, 4, "ties") ? range(1, 3, "nties") : 0;
  Dense H = random_sym(n, g, pat, ties), Z;
  auto w = ci::eigen(H, &Z);
  auto A = sparse(H);
  bool custom = flip(1, 2, "custom");
  std::vector<std::pair<I, I>> tiles;
  if(custom) tiles = hx::random_tiles<I>(n, P);
  bool direct = flip(1, 3, "direct");                 // p_davidson itself
  int kind = (int)choose(7, "guess");                 // 0 none, 6 tiny
  std::vector<double> s = draw_start(n, Z, g, kind);
  double len = norm(s);
  if(len > 0) for(auto& x : s) x /= len;
  double big = 1;
  if(flip(1, 4, "unnormalised")) { big = g.below(3) ? std::pow(10.0, 1.5 * g.sym()) : g.below(2) ? 7 : 0.9; for(auto& x : s) x *= big; }
  if(kind == 6) { s = draw_start(n, Z, g, 1); double m = 0; for(auto& x : s) m = std::max(m, std::fabs(x)); for(auto& x : s) x *= 0.5 / (n * m); }
  bool only_holder = flip(1, 3, "absent-elsewhere");  // ranks whose slice is zero pass no vector at all
  double tol = std::pow(10.0, -(4 + (int)choose(6, "tol")));
  bool roomy = !flip(1, 4, "tight");
  size_t max_m = roomy ? n + choose(60, "room") : 1 + choose(n + 2, "maxm");
  int again = (int)flip(1, 3, "again");               // solve a neighbouring problem from the result
  Dense H2 = H, Z2;
  std::vector<double> w2;
  if(again) {
    for(int i = 0; i < n; ++i) H2[i][i] += 0.02 * g.sym();
    w2 = ci::eigen(H2, &Z2);
  }
  auto A2 = sparse(H2);
  // the vector the iteration starts from
  double mx = 0;
  for(double x : s) mx = std::max(mx, std::fabs(x));
  if(!direct && mx > 0.99 / n && mx < 1.01 / n) { for(auto& x : s) x *= 1.5; mx *= 1.5; }
  bool own = !direct && !(mx > 1.0 / n);              // the solver chooses the start vector itself
  auto starts = own ? own_starts(H) : std::vector<std::vector<double>>{s};
  note("P=%d n=%d pat=%d direct=%d guess=%d max_m=%zu tol=%g again=%d", P, n, pat, (int)direct, kind, max_m, tol, again);
  std::vector<double> E(P), E2(P);
  std::vector<int64_t> it(P);
  std::vector<std::string> err(P), err2(P);
  std::vector<double> X(n, 0), X2(n, 0);
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
    for(int q = 0; q <= again; ++q) {
      auto D = hx::distribute<M, I>(c, hx::to_csr<M>(q ? A2 : A, 0), custom ? &tiles : nullptr);
      int64_t lo = D.local_row_start(), ext = D.local_row_extent();
      std::vector<double> C(s.begin() + lo, s.begin() + lo + ext);
      if(q) C.assign(X.begin() + lo, X.begin() + lo + ext);
      else if(!direct) { bool z = true; for(double x : C) z &= x == 0; if(z && (kind == 0 || only_holder)) C.clear(); }
      C.shrink_to_fit();
      double e = 0;
      int64_t iters = 0;
      try {
        if(direct) {
          auto Dl = extract_diagonal_elements(D.diagonal_tile());
          macis::SparseMatrixOperator op(D);
          auto [k, x] = macis::p_davidson(ext, (int64_t)max_m, op, Dl.data(), tol, C.data(), c);
          e = x; iters = k;
        } else e = macis::parallel_selected_ci_diag(D, max_m, tol, C, c);
      } catch(std::exception& x) { (q ? err2 : err)[r] = x.what(); break; }
      if((int64_t)C.size() != ext) fail("shape", "rank %d: the vector has %zu of %ld elements", r, C.size(), (long)ext);
      for(int64_t i = 0; i < ext; ++i) (q ? X2 : X)[lo + i] = C[i];
      (q ? E2 : E)[r] = e;
      it[r] = iters;
    }
  });
  for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
  simmpi::check_clean();
  for(int q = 0; q <= again; ++q) {
    auto& er = q ? err2 : err;
    auto& e = q ? E2 : E;
    for(int r = 1; r < P; ++r) {
      if(er[r].empty() != er[0].empty()) fail("split-outcome", "rank 0 %s, rank %d %s", er[0].empty() ? "succeeded" : er[0].c_str(), r, er[r].empty() ? "succeeded" : er[r].c_str());
      if(er[r].empty() && memcmp(&e[r], &e[0], 8)) fail("ranks-differ", "rank %d reports the energy %.17g, rank 0 %.17g", r, e[r], e[0]);
    }
    if(!er[0].empty()) {
      bool zero = direct && !q && mx == 0;
      if(roomy && !zero && !q && own) fail("no-convergence", "P=%d n=%d max_m=%zu tol=%g: %s", P, n, max_m, tol, er[0].c_str());
      probe("reported-failure");
      break;
    }
    if(q == 0) judge(direct ? "p_davidson" : "selected-ci", P, H, w, Z, starts, E[0], X, tol);
    else judge(direct ? "p_davidson(2)" : "selected-ci(2)", P, H2, w2, Z2, X, E2[0], X2, tol);
    mix((uint64_t)(long long)(e[0] * 1e4));
  }
  if(P > 1 && n > 1) nontrivial();
  if(P > n) probe("more-ranks-than-rows");
  if(n == 1) probe("order-one");
  if(own && starts.size() > 1) probe("own-start-with-ties");
  if(kind == 4) probe("eigenvector-guess");
  if(big != 1 && kind) probe("unnormalised-guess");
  if(n % P) probe("uneven-rows");
}
// the serial solver with either a sparse matrix or its own guess
static void run_serial() {
  int n = flip(1, 5, "bign") ? range(1, 40, "n") : range(1, 10, "n");
  Rng g = data_rng("matrix");
  int pat = (int)choose(6, "pattern"), ties = flip(1, 4, "ties") ? range(1, 3, "nties") : 0;
  Dense H = random_sym(n, g, pat, ties), Z;
  auto w = ci::eigen(H, &Z);
  auto A = sparse(H);
  bool direct = flip(1, 3, "direct");
  int kind = (int)choose(6, "guess");
  auto s = draw_start(n, Z, g, kind);
  double len = norm(s), mx = 0;
  if(len > 0) for(auto& x : s) x /= len;
  if(flip(1, 4, "unnormalised")) { double big = g.below(3) ? std::pow(10.0, 1.5 * g.sym()) : 7; for(auto& x : s) x *= big; }
  for(double x : s) mx = std::max(mx, std::fabs(x));
  if(direct && mx == 0) s[g.below(n)] = 1;
  if(!direct && mx > 0 && mx < 1.01 / n) { double f = 2 / (n * mx); for(auto& x : s) x *= f; mx *= f; }   // not taken for a missing guess
  double tol = std::pow(10.0, -(4 + (int)choose(6, "tol")));
  bool roomy = !flip(1, 4, "tight");
  size_t max_m = roomy ? n + choose(60, "room") : 1 + choose(n + 2, "maxm");
  auto starts = !direct && mx == 0 ? own_starts(H) : std::vector<std::vector<double>>{s};
  auto C = s;
  if(!direct && mx == 0) C.clear();
  auto S = hx::to_csr<sparsexx::csr_matrix<double, int32_t>>(A, 0);
  double E = 0;
  note("serial n=%d direct=%d guess=%d max_m=%zu", n, (int)direct, kind, max_m);
  try {
    if(direct) {
      auto D = extract_diagonal_elements(S);
      macis::SparseMatrixOperator op(S);
      E = macis::davidson(n, (int64_t)max_m, op, D.data(), tol, C.data()).second;
    } else E = macis::serial_selected_ci_diag(S, max_m, tol, C);
  } catch(std::exception& x) {
    if(roomy && !direct && mx == 0) fail("no-convergence", "serial n=%d max_m=%zu tol=%g: %s", n, max_m, tol, x.what());
    probe("reported-failure");
    return;
  }
  judge("serial", 1, H, w, Z, starts, E, C, tol);
  probe("serial");
}
// from determinants
template <class I>
static void run_dets() {
  int P = range(1, 6, "P");
  int norb = range(1, 5, "norb");
  int na = (int)choose(norb + 1, "na"), nb = (int)choose(norb + 1, "nb");
  Rng g = data_rng("ints");
  ci::IntOpt o;
  o.dominant = true; o.vscale = g.below(2) ? 0.3 : 0.1; o.tscale = 0.3;
  auto ints = ci::random_ints(norb, g, o);
  auto dets = ci::sector(norb, na, nb);
  if(flip(1, 2, "subset")) { ci::shuffle(dets, g); dets.resize(1 + g.below((uint32_t)dets.size())); }
  int n = (int)dets.size();
  auto H = ci::dense_h(ints, dets);
  Dense Z;
  auto w = ci::eigen(H, &Z);
  double tol = std::pow(10.0, -(5 + (int)choose(4, "tol")));
  size_t max_m = n + choose(100, "room");
  std::vector<double> E(P), X(n, 0);
  note("dets P=%d norb=%d na=%d nb=%d n=%d", P, norb, na, nb, n);
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
    auto T = ints.T, V = ints.V;
    auto words = ci::to_bits<64>(dets);
    macis::DoubleLoopHamiltonianGenerator<64> gen(macis::matrix_span<double>(T.data(), norb, norb), macis::rank4_span<double>(V.data(), norb, norb, norb, norb));
    std::vector<double> C;
    E[r] = macis::selected_ci_diag<64, I>(words.begin(), words.end(), gen, 1e-14, max_m, tol, C, c, true);
    int64_t b = n / P;
    int64_t want = r == P - 1 ? n - b * r : b;
    if((int64_t)C.size() != want) fail("shape", "rank %d of %d: the vector has %zu of %ld elements", r, P, C.size(), (long)want);
    for(size_t i = 0; i < C.size(); ++i) X[b * r + i] = C[i];
  });
  for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) fail("no-convergence", "rank %d, n=%d, max_m=%zu: %s", r, n, max_m, res.errors[r].c_str());
  simmpi::check_clean();
  for(int r = 1; r < P; ++r) if(memcmp(&E[r], &E[0], 8)) fail("ranks-differ", "rank %d reports the energy %.17g, rank 0 %.17g", r, E[r], E[0]);
  judge("determinants", P, H, w, Z, own_starts(H), E[0], X, tol);
  if(P > 1 && n > 1) nontrivial();
  probe("from-determinants");
}
void harness_run() {
  simmpi::clock_faults(true);
  switch(choose(6, "kind")) {
    case 0: case 1: case 2: run_matrix<int32_t>(); break;
    case 3: run_matrix<int64_t>(); break;
    case 4: if(choose(2, "idx")) run_dets<int64_t>(); else run_dets<int32_t>(); break;
    default: run_serial();
  }
}
