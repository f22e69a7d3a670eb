// C19: the older exact-diagonalisation library (attic) with its threads under the simulated OpenMP runtime.
#include <cmz_ed/bandlan.h++>
#include <cmz_ed/ed.h++>
#include <cmz_ed/hamil.h++>
#include <cmz_ed/utils.h++>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <numeric>
#include "sim.hpp"
#include "simmpi.hpp"
#include "simomp.hpp"
const char* const harness_property = "C19";
void harness_init() { std::cout.setstate(std::ios::badbit); std::cerr.setstate(std::ios::badbit); }
namespace ed = cmz::ed;
using namespace sim;
using cd = std::complex<double>;
using Table = std::vector<std::vector<double>>;

static simomp::Config cfg;
static void draw_threads() {
  cfg = {};
  cfg.max_threads = range(1, flip(1, 6, "many") ? 12 : 6, "threads");
  if(flip(1, 5, "fewer")) cfg.deliver = range(1, cfg.max_threads, "deliver");
  static const int gaps[] = {0, 3, 10, 40, 200, 1000};
  cfg.gap = gaps[choose(6, "gap")];
  simomp::configure(cfg);
}
template <class F> static void guarded(const char* what, F&& f) {
  try { f(); }
  catch(const std::string& s) { fail("refused", "%s: %s", what, s.c_str()); }
  catch(const char* s) { fail("refused", "%s: %s", what, s); }
  catch(const std::exception& e) { fail("refused", "%s: %s", what, e.what()); }
}

// ------------------------------------------------------ reference operator --
struct Ham {
  int n;
  ed::VecD t, u;
  double h(int i, int a) const { return t[i + n * a]; }
  double g(int i, int a, int j, int b) const { return u[i + n * (a + n * (j + n * b))]; }   // (ia|jb)
};
static Ham draw_ham(Rng& r, int n) {
  Ham H;
  H.n = n;
  H.t.assign(n * n, 0.); H.u.assign(n * n * n * n, 0.);
  int kind = (int)r.below(4), dens = 1 + (int)r.below(10);
  auto val = [&] { return (int)r.below(10) < dens ? r.sym() : 0.; };
  if(kind == 0) {           // a chain with on-site repulsion: many vanishing elements
    for(int i = 0; i + 1 < n; ++i) H.t[i + n * (i + 1)] = H.t[i + 1 + n * i] = -1;
    for(int i = 0; i < n; ++i) { H.t[i + n * i] = 0.1 * r.sym(); H.u[i + n * (i + n * (i + n * i))] = 4; }
    return H;
  }
  for(int i = 0; i < n; ++i) for(int a = 0; a <= i; ++a) H.t[i + n * a] = H.t[a + n * i] = val() * (i == a ? 3 : 1);
  for(int i = 0; i < n; ++i) for(int a = 0; a <= i; ++a) for(int j = 0; j <= i; ++j) for(int b = 0; b <= j; ++b) {
    double v = val();
    if(kind == 3 && r.below(3) == 0) v *= 1e-11;     // below the threshold that the library drops
    for(int s = 0; s < 8; ++s) {
      int p = i, q = a, x = j, y = b;
      if(s & 1) std::swap(p, q);
      if(s & 2) std::swap(x, y);
      if(s & 4) { std::swap(p, x); std::swap(q, y); }
      H.u[p + n * (q + n * (x + n * y))] = v;
    }
  }
  return H;
}
static Ham draw_sparse(Rng& r, int n) {      // many orbitals: a value for every element, from a hash of its sorted indices
  Ham H;
  H.n = n;
  H.t.assign(n * n, 0.); H.u.assign((size_t)n * n * n * n, 0.);
  uint64_t salt = r.next();
  auto val = [&](uint64_t x) { x = (x + salt) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (double)(int64_t)(x & 0xffff) / 32768. - 1; };
  for(int i = 0; i < n; ++i) for(int a = 0; a <= i; ++a) H.t[i + n * a] = H.t[a + n * i] = val(i * 64 + a);
  size_t q = 0;
  for(int b = 0; b < n; ++b) for(int j = 0; j < n; ++j) for(int a = 0; a < n; ++a) for(int i = 0; i < n; ++i, ++q) {
    uint64_t x = std::max(i, a) * 64 + std::min(i, a), y = std::max(j, b) * 64 + std::min(j, b);
    H.u[q] = val(std::max(x, y) * 4096 + std::min(x, y) + 100000);
  }
  return H;
}
static bool kill(uint64_t& s, int q, double& sg) { if(!(s >> q & 1)) return false; if(__builtin_parityll(s & ((1ull << q) - 1))) sg = -sg; s ^= 1ull << q; return true; }
static bool make(uint64_t& s, int q, double& sg) { if(s >> q & 1) return false; if(__builtin_parityll(s & ((1ull << q) - 1))) sg = -sg; s ^= 1ull << q; return true; }
// <L|H|R> by applying every product of creators and annihilators
static Table reference(const Ham& H, const std::vector<uint64_t>& st) {
  int n = H.n;
  std::map<uint64_t, size_t> pos;
  for(size_t k = 0; k < st.size(); ++k) pos[st[k]] = k;
  Table M(st.size(), std::vector<double>(st.size(), 0.));
  for(size_t R = 0; R < st.size(); ++R)
    for(int q = 0; q < 2 * n; ++q) {
      uint64_t s1 = st[R]; double g1 = 1;
      if(!kill(s1, q, g1)) continue;
      for(int p = 0; p < 2 * n; ++p) if((p < n) == (q < n)) {
        uint64_t s = s1; double g = g1;
        if(!make(s, p, g)) continue;
        auto it = pos.find(s);
        if(it != pos.end()) M[it->second][R] += g * H.h(p % n, q % n);
      }
      for(int v = 0; v < 2 * n; ++v) {          // 1/2 (pq|uv) p+ u+ v q
        uint64_t s2 = s1; double g2 = g1;
        if(!kill(s2, v, g2)) continue;
        for(int w = 0; w < 2 * n; ++w) if((w < n) == (v < n)) {
          uint64_t s3 = s2; double g3 = g2;
          if(!make(s3, w, g3)) continue;
          for(int p = 0; p < 2 * n; ++p) if((p < n) == (q < n)) {
            uint64_t s = s3; double g = g3;
            if(!make(s, p, g)) continue;
            auto it = pos.find(s);
            if(it != pos.end()) M[it->second][R] += 0.5 * g * H.g(p % n, q % n, w % n, v % n);
          }
        }
      }
    }
  return M;
}
static void compare(const ed::SpMatD& m, const Table& want, const char* what) {
  size_t n = want.size();
  if((size_t)m.rows() != n || (size_t)m.cols() != n) fail("dimensions", "%s: %ld x %ld instead of %zu", what, (long)m.rows(), (long)m.cols(), n);
  Table got(n, std::vector<double>(n, 0.));
  std::vector<std::vector<char>> seen(n, std::vector<char>(n, 0));
  for(int r = 0; r < m.outerSize(); ++r)
    for(ed::SpMatD::InnerIterator it(m, r); it; ++it) {
      if(it.row() < 0 || it.row() >= (long)n || it.col() < 0 || it.col() >= (long)n) fail("structure", "%s: entry outside the matrix", what);
      if(seen[it.row()][it.col()]) fail("structure", "%s: (%ld,%ld) twice", what, (long)it.row(), (long)it.col());
      seen[it.row()][it.col()] = 1;
      got[it.row()][it.col()] = it.value();
    }
  for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
    double w = want[i][j], g = got[i][j];
    bool ok = std::abs(g - w) <= 1e-11 * (1 + std::abs(w));
    if(!ok && g == 0 && std::abs(w) < 1.1e-9) ok = true;
    if(!ok) fail("wrong-element", "%s: element (%zu,%zu) is %.15g instead of %.15g", what, i, j, g, w);
    if(std::abs(g) > 0 && std::abs(w) < 0.9e-9 && std::abs(g) >= 1e-9) fail("wrong-element", "%s: negligible element (%zu,%zu) kept as %g", what, i, j, g);
    mix((uint64_t)(int64_t)std::llround(g * 1e6));
  }
}
static bool identical(const ed::SpMatD& a, const ed::SpMatD& b) {
  if(a.rows() != b.rows() || a.nonZeros() != b.nonZeros()) return false;
  for(int r = 0; r < a.outerSize(); ++r) {
    ed::SpMatD::InnerIterator x(a, r), y(b, r);
    for(; x && y; ++x, ++y) if(x.col() != y.col() || x.value() != y.value()) return false;
    if(x || y) return false;
  }
  return true;
}

// determinants of many orbitals: a walk of single and double replacements
static ed::SetSlaterDets draw_wide(Rng& r, int n, int nu, int nd) {
  ed::SetSlaterDets set;
  uint64_t a = 0, b = 0;
  while(__builtin_popcountll(a) < nu) a |= 1ull << r.below(n);
  while(__builtin_popcountll(b) < nd) b |= 1ull << r.below(n);
  int want = 1 + (int)r.below(25);
  for(int k = 0; k < want; ++k) {
    set.insert(ed::slater_det(a | b << n, n, nu, nd));
    for(int e = 1 + (int)r.below(2); e; --e) {
      uint64_t& s = r.below(2) ? a : b;
      int c = __builtin_popcountll(s);
      if(c == 0 || c == n) continue;
      int o, v;
      do o = (int)r.below(n); while(!(s >> o & 1));
      do v = (int)r.below(n); while(s >> v & 1);
      s ^= 1ull << o | 1ull << v;
    }
  }
  return set;
}
static void run_hamiltonian() {
  Rng r = data_rng("ham");
  bool wide = flip(1, 6, "wide");
  int n = wide ? (flip(1, 3, "very-wide") ? range(13, flip(1, 6, "widest") ? 31 : 18, "norb") : range(5, 12, "norb")) : range(1, flip(1, 8, "large") ? 5 : 4, "norb");
  int nu = range(0, std::min(n, 5), "nup"), nd = range(0, std::min(n, 4), "ndown");
  if(!wide && n == 5) { nu = std::min(nu, 2); nd = std::min(nd, 1); }
  Ham H = wide ? draw_sparse(r, n) : draw_ham(r, n);
  ed::intgrls::integrals ints(n, H.t, H.u);
  ed::FermionHamil op(ints);
  ed::SetSlaterDets set;
  if(wide) {
    set = draw_wide(r, n, nu, nd);
    probe(n > 15 ? "wide-strings" : "many-orbitals");
  } else {
    ed::SetSlaterDets full = ed::BuildFullHilbertSpace(n, nu, nd);
    auto bin = [](int a, int b) { size_t x = 1; for(int k = 0; k < b; ++k) x = x * (a - k) / (k + 1); return x; };
    size_t c = bin(n, nu) * bin(n, nd);
    if(full.size() != c) fail("space", "the space of %d orbitals, %d+%d electrons has %zu determinants instead of %zu", n, nu, nd, full.size(), c);
    bool whole = flip(1, 2, "whole");
    for(auto& d : full) if(whole || r.below(3)) set.insert(d);
    if(set.empty()) set.insert(*full.begin());
  }
  std::vector<uint64_t> st;
  for(auto& d : set) {
    uint64_t s = d.GetState();
    if(__builtin_popcountll(s & ((1ull << n) - 1)) != nu || __builtin_popcountll(s >> n) != nd) fail("space", "determinant %lx has other electron numbers", (unsigned long)s);
    st.push_back(s);
  }
  Table want = reference(H, st);
  int how = (int)choose(3, "how");
  note("Hamiltonian of %d orbitals, %d+%d electrons, %zu determinants, variant %d, threads %d/%d gap %d", n, nu, nd, st.size(), how, cfg.max_threads, cfg.deliver, cfg.gap);
  std::vector<std::pair<size_t, size_t>> pairs;
  if(how == 1) {              // any list of pairs, in any order
    for(size_t i = 0; i < st.size(); ++i) for(size_t j = 0; j < st.size(); ++j) if(i != j) {
      if(r.below(2)) pairs.push_back({i, j}); else want[i][j] = 0;
    }
    for(size_t k = pairs.size(); k > 1; --k) std::swap(pairs[k - 1], pairs[r.below(k)]);
  }
  if(how == 2) {
    pairs = ed::GetSingDoublPairs(set);
    std::sort(pairs.begin(), pairs.end());
    pairs.erase(std::unique(pairs.begin(), pairs.end()), pairs.end());
  }
  auto build = [&] { return how == 0 ? ed::GetHmat(&op, set, flip(1, 4, "print")) : ed::GetHmat_FromPairs(&op, set, pairs); };
  auto m = build();
  compare(m, want, how == 0 ? "Hamiltonian" : how == 1 ? "Hamiltonian from listed pairs" : "Hamiltonian from single and double excitations");
  if(flip(1, 2, "again")) {   // another number of threads, another schedule: the same matrix
    draw_threads();
    auto m2 = build();
    if(!identical(m, m2)) fail("thread-dependent", "the Hamiltonian differs between two thread counts or schedules");
    probe("rebuilt-with-other-threads");
  }
  probe(how == 0 ? "hamiltonian" : how == 1 ? "hamiltonian-listed-pairs" : "hamiltonian-excitations");
}

static void run_vectors() {
  Rng r = data_rng("vec");
  size_t n = choose(flip(1, 5, "large") ? 400 : 30, "length");
  note("vector kernels of length %zu, threads %d/%d gap %d", n, cfg.max_threads, cfg.deliver, cfg.gap);
  ed::VecD a(n), b(n), c(n, 9.);
  ed::VecCompD x(n), y(n), z(n, cd(9., 9.));
  auto si = [&] { return (double)((int)r.below(15) - 7); };
  for(size_t i = 0; i < n; ++i) { a[i] = si(); b[i] = si(); x[i] = cd(si(), si()); y[i] = cd(si(), si()); }
  auto a0 = a, b0 = b; auto x0 = x, y0 = y;
  double w1 = 0; cd w2 = 0, w3 = 0;
  for(size_t i = 0; i < n; ++i) { w1 += a[i] * b[i]; w2 += std::conj(x[i]) * y[i]; w3 += std::conj(x[i]) * a[i]; }
  double al = si(), be = si();
  cd ca(si(), si()), cb(si(), si());
  for(int k = range(1, 3, "ops"); k; --k) {
    switch(choose(5, "op")) {
      case 0: { double g = ed::MyInnProd(a, b); if(g != w1) fail("wrong-value", "real inner product of %zu elements is %g instead of %g", n, g, w1); break; }
      case 1: { cd g = ed::MyInnProd(x, y); if(g != w2) fail("wrong-value", "complex inner product of %zu elements is wrong", n); break; }
      case 2: { cd g = ed::MyInnProd(x, a); if(g != w3) fail("wrong-value", "mixed inner product of %zu elements is wrong", n); break; }
      case 3:
        guarded("MyAdd", [&] { ed::MyAdd(al, a, be, b, c); });
        for(size_t i = 0; i < n; ++i) if(c[i] != al * a[i] + be * b[i]) fail("wrong-value", "element %zu of the real sum is %g instead of %g", i, c[i], al * a[i] + be * b[i]);
        break;
      case 4:
        guarded("MyAdd", [&] { ed::MyAdd(ca, x, cb, y, z); });
        for(size_t i = 0; i < n; ++i) if(z[i] != ca * x[i] + cb * y[i]) fail("wrong-value", "element %zu of the complex sum is wrong", i);
        break;
    }
    if(k > 1 && flip(1, 3, "rethread")) draw_threads();
  }
  if(a != a0 || b != b0 || x != x0 || y != y0) fail("input-changed", "a vector kernel changed its input");
  if(n) {
    bool threw = false;
    ed::VecD small(n - 1, 1.);
    try { ed::MyAdd(al, a, be, b, small); } catch(const char*) { threw = true; } catch(const std::exception&) { threw = true; } catch(const std::string&) { threw = true; }
    if(!threw) fail("size-mismatch", "adding vectors of different lengths was accepted");
  }
  probe("vector-kernels");
}

// ------------------------------------------------------------ band Lanczos --
using DSM = sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>>;
static double dot(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static std::vector<cd> solve(std::vector<std::vector<cd>> A, std::vector<cd> b) {   // Gauss with pivoting
  size_t n = b.size();
  for(size_t k = 0; k < n; ++k) {
    size_t p = k;
    for(size_t i = k + 1; i < n; ++i) if(std::abs(A[i][k]) > std::abs(A[p][k])) p = i;
    std::swap(A[p], A[k]); std::swap(b[p], b[k]);
    for(size_t i = k + 1; i < n; ++i) {
      cd f = A[i][k] / A[k][k];
      for(size_t j = k; j < n; ++j) A[i][j] -= f * A[k][j];
      b[i] -= f * b[k];
    }
  }
  for(size_t k = n; k--;) { for(size_t j = k + 1; j < n; ++j) b[k] -= A[k][j] * b[j]; b[k] /= A[k][k]; }
  return b;
}
static void run_resolvent(MPI_Comm comm) {
  Rng r = data_rng("res");
  int m = range(2, 14, "dim"), nb = range(1, std::min(m, 4), "bands");
  int its = range(nb, std::min(3 * m, 16), "its");
  int nw = range(1, 6, "freqs");
  bool part = flip(1, 2, "particle"), both = flip(1, 4, "eigen-only");
  double E0 = 2 * r.sym();
  Table H(m, std::vector<double>(m, 0.));
  int pat = (int)r.below(3);
  for(int i = 0; i < m; ++i) for(int j = 0; j <= i; ++j) if(i == j || (pat == 0) || (pat == 1 && i == j + 1) || (pat == 2 && r.below(3) == 0)) H[i][j] = H[j][i] = r.sym() * (i == j ? 2 : 1);
  Table V(nb, std::vector<double>(m));
  bool unit = r.below(3) == 0;
  for(int k = 0; k < nb; ++k) for(int i = 0; i < m; ++i) V[k][i] = unit ? (i == k) : r.sym();
  std::vector<cd> ws;
  for(int k = 0; k < nw; ++k) ws.push_back(cd(4 * r.sym(), 0.3 + r.below(10) * 0.1));
  note("resolvent of a %d-dimensional operator, %d vectors, %d iterations, %d frequencies, %s, threads %d/%d gap %d", m, nb, its, nw, part ? "particle" : "hole", cfg.max_threads, cfg.deliver, cfg.gap);
  // reference: orthonormal Krylov vectors in the same order, with full orthogonalisation
  Table Q; std::vector<int> src;
  auto ortho = [&](std::vector<double> v, double& nrm) {
    for(int pass = 0; pass < 3; ++pass) for(auto& q : Q) { double s = dot(q, v); for(int i = 0; i < m; ++i) v[i] -= s * q[i]; }
    nrm = std::sqrt(dot(v, v));
    return v;
  };
  bool exact = true;
  for(int k = 0; k < nb; ++k) {
    double nrm, n0 = std::sqrt(dot(V[k], V[k]));
    auto v = ortho(V[k], nrm);
    if(nrm < 0.02 * n0) exact = false;      // start vectors nearly dependent
    for(auto& x : v) x /= nrm;
    Q.push_back(v);
  }
  if(!exact) { probe("start-vectors-nearly-dependent"); return; }
  // sequence position p (0..its-1): index into Q or -1 for a vanishing vector
  std::vector<int> at(its, -1);
  for(int p = 0; p < nb; ++p) at[p] = p;
  for(int p = 0; p + nb < its; ++p) {
    if(at[p] < 0) continue;
    std::vector<double> v(m, 0.);
    for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) v[i] += H[i][j] * Q[at[p]][j];
    double nrm;
    v = ortho(v, nrm);
    if(nrm < 1e-11) continue;
    if(nrm < 1e-2) { exact = false; break; }
    for(auto& x : v) x /= nrm;
    at[p + nb] = (int)Q.size();
    Q.push_back(v);
  }
  if(!exact) { probe("krylov-space-nearly-exhausted"); return; }
  int d = (int)Q.size();
  std::vector<std::vector<std::vector<cd>>> want(nw, std::vector<std::vector<cd>>(nb, std::vector<cd>(nb)));
  {
    Table Hp(d, std::vector<double>(d, 0.));
    for(int a = 0; a < d; ++a) for(int b = 0; b < d; ++b) for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) Hp[a][b] += Q[a][i] * H[i][j] * Q[b][j];
    for(int w = 0; w < nw; ++w) {
      std::vector<std::vector<cd>> A(d, std::vector<cd>(d));
      for(int a = 0; a < d; ++a) for(int b = 0; b < d; ++b) A[a][b] = (a == b ? ws[w] + (part ? E0 : -E0) : cd(0)) + (part ? -Hp[a][b] : Hp[a][b]);
      for(int l = 0; l < nb; ++l) {
        std::vector<cd> rhs(d);
        for(int a = 0; a < d; ++a) rhs[a] = dot(Q[a], V[l]);
        auto x = solve(A, rhs);
        for(int k = 0; k < nb; ++k) { cd s = 0; for(int a = 0; a < d; ++a) s += dot(Q[a], V[k]) * x[a]; want[w][k][l] = s; }
      }
    }
  }
  // the library
  int32_t nnz = 0;
  for(auto& row : H) for(double x : row) nnz += x != 0;
  sparsexx::csr_matrix<double, int32_t> C(m, m, nnz, 0);
  int32_t q = 0;
  C.rowptr()[0] = 0;
  for(int i = 0; i < m; ++i) { for(int j = 0; j < m; ++j) if(H[i][j] != 0) { C.colind()[q] = j; C.nzval()[q] = H[i][j]; ++q; } C.rowptr()[i + 1] = q; }
  DSM D(comm, C);
  std::vector<std::vector<std::vector<cd>>> res(3);      // holds something already
  auto vecs = V;
  guarded("resolvent", [&] { ed::BandResolvent(D, vecs, ws, res, its, E0, part, false); });
  if((int)res.size() != nw) fail("dimensions", "%zu frequencies instead of %d", res.size(), nw);
  double scale = 0;
  for(auto& a : want) for(auto& b : a) for(auto& c : b) scale = std::max(scale, std::abs(c));
  for(int w = 0; w < nw; ++w) for(int k = 0; k < nb; ++k) for(int l = 0; l < nb; ++l)
    if(!(std::abs(res[w][k][l] - want[w][k][l]) <= 1e-7 * (1 + scale)))
      fail("wrong-value", "resolvent element (%d,%d) at frequency %d is %.12g%+.12gi instead of %.12g%+.12gi", k, l, w, res[w][k][l].real(), res[w][k][l].imag(), want[w][k][l].real(), want[w][k][l].imag());
  probe(nb == 1 ? "resolvent-one-vector" : "resolvent-block");
  if(d < its) probe("krylov-space-exhausted");
  (void)both;
}

static size_t G2(int n, int i, int j, int a, int b) { return i + n * (a + n * (j + (size_t)n * b)); }
static void run_ed() {
  Rng r = data_rng("ed");
  int n = range(2, flip(1, 4, "large") ? 4 : 3, "norb"), nu = range(1, n, "nup"), nd = range(1, n, "ndown");
  Ham H = draw_ham(r, n);
  ed::intgrls::integrals ints(n, H.t, H.u);
  ints.core_energy = r.sym();
  ed::Input_t in;
  in["norbs"] = std::to_string(n); in["nups"] = std::to_string(nu); in["ndos"] = std::to_string(nd);
  if(flip(1, 4, "print")) in["print"] = "F";
  note("ground state of %d orbitals, %d+%d electrons, threads %d/%d gap %d", n, nu, nd, cfg.max_threads, cfg.deliver, cfg.gap);
  double e1 = 0, e2 = 0;
  std::vector<double> d1, d2, f1, f2;
  std::string x1, x2;
  auto run = [&](double& e, std::vector<double>& a, std::vector<double>& b, std::string& x) {
    try { ed::RunED(in, ints, e, a, b); } catch(const std::string& s) { x = s; } catch(const char* s) { x = s; }
  };
  run(e1, d1, d2, x1);
  draw_threads();
  run(e2, f1, f2, x2);
  if(x1 != x2) fail("thread-dependent", "one thread count reports '%s', another '%s'", x1.c_str(), x2.c_str());
  if(!x1.empty()) { probe("ed-refused"); return; }
  ed::SetSlaterDets full = ed::BuildFullHilbertSpace(n, nu, nd);
  std::vector<uint64_t> st;
  for(auto& d : full) st.push_back(d.GetState());
  Table M = reference(H, st);
  Eigen::MatrixXd A(st.size(), st.size());
  double scale = 1;
  for(size_t i = 0; i < st.size(); ++i) for(size_t j = 0; j < st.size(); ++j) { A(i, j) = M[i][j]; scale = std::max(scale, std::abs(M[i][j])); }
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(A);
  double e0 = es.eigenvalues()(0) + ints.core_energy;
  if(std::abs(e1 - e2) > 1e-6 * scale) fail("thread-dependent", "the ground-state energy depends on the number of threads: %.15g and %.15g", e1, e2);
  auto check = [&](double e, const std::vector<double>& g1, const std::vector<double>& g2) {
    if(!(e >= e0 - 1e-8 * scale)) fail("energy", "energy %.15g below the lowest eigenvalue %.15g", e, e0);
    if((int)g1.size() != n * n || (int)g2.size() != n * n * n * n) fail("dimensions", "density matrices of %zu and %zu elements", g1.size(), g2.size());
    double etr = ints.core_energy, ntr = 0;
    for(int i = 0; i < n; ++i) for(int a = 0; a < n; ++a) etr += H.h(i, a) * g1[i + n * a];
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) etr += H.g(i, a, j, b) * g2[G2(n, i, j, a, b)];
    for(int i = 0; i < n; ++i) ntr += g1[i + n * i];
    if(!(std::abs(etr - e) <= 1e-6 * scale)) fail("density-matrix", "the density matrices give the energy %.12g, the solver %.12g", etr, e);
    if(!(std::abs(ntr - nu - nd) <= 1e-8)) fail("density-matrix", "trace %.12g for %d electrons", ntr, nu + nd);
    for(int i = 0; i < n; ++i) for(int a = 0; a < n; ++a) {
      if(!(std::abs(g1[i + n * a] - g1[a + n * i]) <= 1e-8)) fail("density-matrix", "one-body matrix not symmetric at (%d,%d)", i, a);
      double s = 0;
      for(int j = 0; j < n; ++j) s += g2[G2(n, i, j, a, j)];
      if(!(std::abs(s - 0.5 * (nu + nd - 1) * g1[i + n * a]) <= 1e-7)) fail("density-matrix", "the partial trace of the two-body matrix is %.12g at (%d,%d) instead of %.12g", s, i, a, 0.5 * (nu + nd - 1) * g1[i + n * a]);
      for(int j = 0; j < n; ++j) for(int b = 0; b < n; ++b)
        if(!(std::abs(g2[G2(n, i, j, a, b)] - g2[G2(n, j, i, b, a)]) <= 1e-8)) fail("density-matrix", "two-body matrix changes when the two electrons are exchanged");
    }
  };
  check(e1, d1, d2);
  check(e2, f1, f2);
  // the start vector decides which eigenvector is found; where it overlaps the ground state well, that one
  double ov = es.eigenvectors().col(0).sum() / std::sqrt((double)st.size());
  bool gap = st.size() == 1 || es.eigenvalues()(1) - es.eigenvalues()(0) > 0.05;
  if(gap && std::abs(ov) > 0.1 && st.size() <= 100) {
    if(e1 - e0 > 1e-4 * scale) fail("energy", "energy %.12g instead of %.12g", e1, e0);
    auto v = es.eigenvectors().col(0);
    std::map<uint64_t, size_t> pos;
    for(size_t k = 0; k < st.size(); ++k) pos[st[k]] = k;
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
      double s = 0;
      for(size_t R = 0; R < st.size(); ++R) for(int sp = 0; sp < 2; ++sp) {
        uint64_t x = st[R]; double sg = 1;
        if(!kill(x, q + sp * n, sg) || !make(x, p + sp * n, sg)) continue;
        s += sg * v(R) * v(pos.at(x));
      }
      if(!(std::abs(s - d1[p + n * q]) <= 0.05)) fail("density-matrix", "one-body matrix (%d,%d) is %.8g instead of %.8g", p, q, d1[p + n * q], s);
    }
    probe("ground-state-found");
  }
  probe("ground-state");
}

void harness_run() {
  simomp::begin();
  draw_threads();
  switch(choose(5, "part")) {
    case 0: case 1: run_hamiltonian(); break;
    case 2: run_vectors(); break;
    case 3: run_resolvent(MPI_COMM_WORLD); break;
    default: run_ed();
  }
  auto& s = simomp::stats();
  probe("parallel-regions", s.regions);
  probe("simulated-threads", s.threads);
  probe("checked-accesses", s.accesses);
  fault("omp.preemption", s.preemptions);
  add_sim_time(s.accesses);
  if(s.accesses && s.threads > s.regions) nontrivial();
  simomp::begin();
}
