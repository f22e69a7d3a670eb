// C18: complete-active-space energies, density matrices and orbital optimisation on several ranks.
#include <cstdint>
#include <sparsexx/sparsexx_config.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/util/cas.hpp>
#include <macis/util/mcscf.hpp>
#include "simmpi.hpp"
#include "ci.hpp"
#include "eig.hpp"
const char* const harness_property = "C18";
#include <spdlog/sinks/base_sink.h>
// Whether the optimisation converged is only said in its log.
static int converged_lines;
struct Listen : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
  void sink_it_(const spdlog::details::log_msg& m) override { if(std::string(m.payload.data(), m.payload.size()).find("MCSCF Converged") != std::string::npos) ++converged_lines; }
  void flush_() override {}
};
void harness_init() {
  if(!getenv("SIM_LOG")) spdlog::register_logger(std::make_shared<spdlog::logger>("mcscf", std::make_shared<Listen>()));
  ci::null_loggers();
}
using namespace sim;

struct Rdm {
  int n;
  std::vector<double> D, G;          // D(p,q); G(p,q,r,s), energy = sum T D + sum V G
  double g(int p, int q, int r, int s) const { return G[p + n * (q + (size_t)n * (r + (size_t)n * s))]; }
};
static Rdm own_rdm(int n, const std::vector<ci::Det>& dets, const std::vector<double>& X) {
  Rdm R{n, std::vector<double>((size_t)n * n, 0), std::vector<double>((size_t)n * n * n * n, 0)};
  std::map<ci::Det, double> c;
  for(size_t i = 0; i < dets.size(); ++i) c[dets[i]] = X[i];
  auto amp = [&](uint64_t w) { auto it = c.find(ci::Det{(uint32_t)w, (uint32_t)(w >> 32)}); return it == c.end() ? 0.0 : it->second; };
  for(auto& [d, cd] : c) {
    uint64_t w0 = d.a | (uint64_t)d.b << 32;
    for(int sp = 0; sp < 64; sp += 32)
      for(int q = 0; q < n; ++q) {
        uint64_t w1 = w0; int s1 = 1;
        if(!ci::annihilate(w1, q + sp, s1)) continue;
        for(int p = 0; p < n; ++p) {
          uint64_t w = w1; int s = s1;
          if(ci::create(w, p + sp, s)) R.D[p + (size_t)q * n] += s * cd * amp(w);
        }
        for(int sq = 0; sq < 64; sq += 32)
          for(int s_ = 0; s_ < n; ++s_) {
            uint64_t w2 = w1; int s2 = s1;
            if(!ci::annihilate(w2, s_ + sq, s2)) continue;
            for(int r = 0; r < n; ++r) {
              uint64_t w3 = w2; int s3 = s2;
              if(!ci::create(w3, r + sq, s3)) continue;
              for(int p = 0; p < n; ++p) {
                uint64_t w4 = w3; int s4 = s3;
                if(ci::create(w4, p + sp, s4)) R.G[p + n * (q + (size_t)n * (r + (size_t)n * s_))] += 0.5 * s4 * cd * amp(w4);
              }
            }
          }
      }
  }
  return R;
}
// Which representative of equivalent integral indices carries a term is open: compare the averages.
static std::vector<double> averaged(int n, const std::vector<double>& G) {
  std::vector<double> R(G.size());
  auto id = [&](int p, int q, int r, int s) { return p + n * (q + (size_t)n * (r + (size_t)n * s)); };
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s)
    R[id(p, q, r, s)] = (G[id(p, q, r, s)] + G[id(q, p, r, s)] + G[id(p, q, s, r)] + G[id(q, p, s, r)] + G[id(r, s, p, q)] + G[id(s, r, p, q)] + G[id(r, s, q, p)] + G[id(s, r, q, p)]) / 8;
  return R;
}
static double contract(const ci::Ints& I, const std::vector<double>& D, const std::vector<double>& G) {
  long double e = 0;
  for(size_t i = 0; i < D.size(); ++i) e += (long double)I.T[i] * D[i];
  for(size_t i = 0; i < G.size(); ++i) e += (long double)I.V[i] * G[i];
  return (double)e;
}
// What any pair of density matrices of na+nb electrons satisfies.
static void judge_rdms(const char* what, int P, int n, int na, int nb, const std::vector<double>& D, const std::vector<double>& raw) {
  auto G = averaged(n, raw);
  double tr = 0, tr2 = 0, N = na + nb;
  for(int p = 0; p < n; ++p) tr += D[p + (size_t)p * n];
  auto at = [&](int p, int q, int r, int s) { return G[p + n * (q + (size_t)n * (r + (size_t)n * s))]; };
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) tr2 += at(p, p, q, q);
  if(!(std::fabs(tr - N) < 1e-7)) fail("trace", "%s P=%d: the one-body trace is %.10g for %g electrons", what, P, tr, N);
  if(!(std::fabs(tr2 - N * (N - 1) / 2) < 1e-7 * (1 + N * N))) fail("trace", "%s P=%d: the two-body trace is %.10g for %g electrons", what, P, tr2, N);
  for(int p = 0; p < n; ++p)
    for(int q = 0; q < n; ++q) {
      if(std::fabs(D[p + (size_t)q * n] - D[q + (size_t)p * n]) > 1e-9) fail("symmetry", "%s P=%d: the one-body matrix is not symmetric", what, P);
      double s = 0;                                   // partial trace of the two-body matrix
      for(int r = 0; r < n; ++r) s += at(p, q, r, r);
      if(std::fabs(s - (N - 1) / 2 * D[p + (size_t)q * n]) > 1e-7 * (1 + N)) fail("partial-trace", "%s P=%d: the two-body matrix does not reduce to the one-body matrix", what, P);
    }
}
// The ground state in the active space of the given orbitals.
struct Cas { std::vector<ci::Det> dets; Dense H, Z; std::vector<double> w; };
static Cas cas(const ci::Ints& I, int ni, int nact, int na, int nb) {
  Cas c;
  uint64_t core = (1ull << ni) - 1;
  for(auto a : ci::strings(nact, na)) for(auto b : ci::strings(nact, nb)) c.dets.push_back({core | a << ni, core | b << ni});
  c.H = ci::dense_h(I, c.dets);
  c.w = ci::eigen(c.H, &c.Z);
  return c;
}
// An orbital optimisation of our own: Newton steps on the exact gradient of the active-space energy.
static ci::Ints rotated(const ci::Ints& I, const Dense& U) {
  int n = I.n;
  ci::Ints R = I;
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    double x = 0;
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) x += U[i][p] * U[j][q] * I.t(i, j);
    R.T[p + (size_t)q * n] = x;
  }
  std::vector<double> a = I.V, b(a.size());
  size_t n3 = (size_t)n * n * n;
  for(int pass = 0; pass < 4; ++pass, a.swap(b))       // one index after another, moved to the end each time
    for(size_t rest = 0; rest < n3; ++rest)
      for(int p = 0; p < n; ++p) {
        double x = 0;
        for(int i = 0; i < n; ++i) x += U[i][p] * a[i + n * rest];
        b[rest + n3 * p] = x;
      }
  R.V = a;
  return R;
}
static const double MINHESS = 0.1, MAXTURN = 1;
struct Optimum { bool usable = false; double E = 0; };
static Optimum own_optimum(ci::Ints I, int ni, int nact, int na, int nb) {
  int n = I.n;
  std::vector<std::pair<int, int>> rot;
  auto space = [&](int p) { return p < ni ? 0 : p < ni + nact ? 1 : 2; };
  for(int p = 0; p < n; ++p) for(int q = 0; q < p; ++q) if(space(p) != space(q)) rot.push_back({p, q});
  size_t m = rot.size();
  auto expo = [&](const std::vector<double>& k) {
    Dense K(n, std::vector<double>(n, 0)), U = K, X = K;
    for(size_t i = 0; i < m; ++i) { K[rot[i].first][rot[i].second] += k[i]; K[rot[i].second][rot[i].first] -= k[i]; }
    for(int i = 0; i < n; ++i) U[i][i] = X[i][i] = 1;
    for(int t = 1; t < 30; ++t) {
      Dense Y(n, std::vector<double>(n, 0));
      for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int l = 0; l < n; ++l) Y[i][j] += X[i][l] * K[l][j] / t;
      X = Y;
      for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) U[i][j] += X[i][j];
    }
    return U;
  };
  bool ok = true;
  auto gradient = [&](const ci::Ints& J, double* E) {
    Cas c = cas(J, ni, nact, na, nb);
    if(c.w.size() > 1 && c.w[1] - c.w[0] < 0.15) ok = false;
    std::vector<double> x(c.dets.size());
    for(size_t i = 0; i < x.size(); ++i) x[i] = c.Z[i][0];
    Rdm R = own_rdm(n, c.dets, x);
    auto G = averaged(n, R.G);
    *E = c.w[0];
    auto Y = [&](int x, int p) {
      double y = 0;
      for(int q = 0; q < n; ++q) y += J.t(x, q) * (R.D[p + (size_t)q * n] + R.D[q + (size_t)p * n]);
      for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) y += 4 * J.v(x, q, r, s) * G[p + n * (q + (size_t)n * (r + (size_t)n * s))];
      return y;
    };
    std::vector<double> g;
    for(auto [p, q] : rot) g.push_back(Y(p, q) - Y(q, p));
    return g;
  };
  Optimum o;
  double total = 0;
  for(int it = 0; it < 12 && ok; ++it) {
    auto g = gradient(I, &o.E);
    double nrm = 0;
    for(double x : g) nrm = std::max(nrm, std::fabs(x));
    if(nrm < 1e-9) { o.usable = true; break; }
    Dense H(m, std::vector<double>(m)), Z;
    for(size_t k = 0; k < m; ++k) {
      double e, h = 1e-4;
      std::vector<double> d(m, 0.0);
      d[k] = h;
      auto gp = gradient(rotated(I, expo(d)), &e);
      d[k] = -h;
      auto gm = gradient(rotated(I, expo(d)), &e);
      for(size_t i = 0; i < m; ++i) { H[i][k] += (gp[i] - gm[i]) / (4 * h); H[k][i] += (gp[i] - gm[i]) / (4 * h); }
    }
    auto w = ci::eigen(H, &Z);
    if(!ok || w[0] < MINHESS) return o;
    std::vector<double> step(m, 0.0);
    for(size_t j = 0; j < m; ++j) {
      double c = 0;
      for(size_t i = 0; i < m; ++i) c -= Z[i][j] * g[i] / w[j];
      for(size_t i = 0; i < m; ++i) step[i] += c * Z[i][j];
    }
    for(double x : step) total += std::fabs(x);
    if(total > MAXTURN) return o;
    I = rotated(I, expo(step));
  }
  return o;
}
static void run_casci() {
  int P = flip(1, 8, "bigP") ? range(1, 12, "P") : range(1, 6, "P");
  bool vast = flip(1, 100, "vast");
  int n = vast ? 6 : flip(1, 3, "bign") ? 5 : range(1, 4, "n");
  int na = (int)choose(n + 1, "na"), nb = (int)choose(n + 1, "nb");
  if(vast) { na = 2 + (int)choose(3, "na"); nb = 1 + (int)choose(2, "nb"); probe("six-orbitals"); }
  if(n == 5 && na > 1 && na < 4 && nb > 1 && nb < 4) na = flip(1, 3, "large") ? na : 1;
  Rng g = data_rng("ints");
  ci::IntOpt o;
  o.dominant = g.below(4) != 0;
  o.vscale = g.below(2) ? 0.5 : 0.15;
  o.tscale = g.below(2) ? 0.5 : 0.2;
  ci::Ints I = ci::random_ints(n, g, o), Bad;
  Cas c = cas(I, 0, n, na, nb);
  size_t dim = c.dets.size();
  macis::MCSCFSettings s;
  s.ci_matel_tol = 1e-14;
  s.ci_res_tol = flip(1, 2, "tight") ? 1e-10 : 1e-7;
  s.ci_max_subspace = dim + 20 + choose(50, "room");
  bool again = flip(1, 3, "again");
  size_t k = 0, ties = 0;
  for(size_t i = 1; i < dim; ++i) if(c.H[i][i] < c.H[k][k]) k = i;
  for(size_t i = 0; i < dim; ++i) ties += std::fabs(c.H[i][i] - c.H[k][k]) < 1e-9;
  note("casci P=%d n=%d na=%d nb=%d dim=%zu again=%d", P, n, na, nb, dim, (int)again);
  struct Got { double E; std::vector<double> D, G, C; };
  std::vector<Got> got(P);
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm comm) {
    Got& q = got[r];
    auto T = I.T, V = I.V;
    for(int x = 0; x < 1 + (int)again; ++x) {         // the second time from the first result
      q.D.assign((size_t)n * n, 0);
      q.G.assign((size_t)n * n * n * n, 0);
      q.E = macis::CASRDMFunctor<macis::DoubleLoopHamiltonianGenerator<64>>::rdms(s, macis::NumOrbital(n), (size_t)na, (size_t)nb, T.data(), V.data(), q.D.data(), q.G.data(), q.C, comm);
    }
  });
  for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) fail("threw", "casci P=%d rank %d: %s", P, r, res.errors[r].c_str());
  simmpi::check_clean();
  const Got& a = got[0];
  for(int r = 1; r < P; ++r) {
    if(memcmp(&a.E, &got[r].E, 8)) fail("ranks-differ", "casci: rank %d of %d has the energy %.17g, rank 0 %.17g", r, P, got[r].E, a.E);
    if(memcmp(a.D.data(), got[r].D.data(), 8 * a.D.size()) || memcmp(a.G.data(), got[r].G.data(), 8 * a.G.size())) fail("ranks-differ", "casci: rank %d of %d has other density matrices than rank 0", r, P);
  }
  double scale = 1;
  for(double x : c.w) scale = std::max(scale, std::fabs(x));
  size_t hit = 0;
  for(size_t i = 1; i < dim; ++i) if(std::fabs(c.w[i] - a.E) < std::fabs(c.w[hit] - a.E)) hit = i;
  if(!(std::fabs(c.w[hit] - a.E) <= s.ci_res_tol + 1e-10 * scale)) fail("energy", "casci P=%d: %.12g is not an eigenvalue, the lowest is %.12g", P, a.E, c.w[0]);
  if(ties == 1 && std::fabs(c.Z[k][0]) > 0.85 && hit != 0 && a.E > c.w[0] + s.ci_res_tol + 1e-10 * scale) fail("not-lowest", "casci P=%d: energy %.12g, the lowest is %.12g", P, a.E, c.w[0]);
  double e = contract(I, a.D, a.G);
  if(!(std::fabs(e - a.E) <= 1e-9 * scale * (1 + n) + s.ci_res_tol)) fail("contraction", "casci P=%d: the density matrices give the energy %.12g, reported %.12g", P, e, a.E);
  judge_rdms("casci", P, n, na, nb, a.D, a.G);
  bool separate = (hit == 0 || c.w[hit] - c.w[hit - 1] > 0.02) && (hit + 1 == dim || c.w[hit + 1] - c.w[hit] > 0.02);
  if(separate) {
    std::vector<double> x(dim);
    for(size_t i = 0; i < dim; ++i) x[i] = c.Z[i][hit];
    Rdm R = own_rdm(n, c.dets, x);
    double tol = 1e-8 + 400 * s.ci_res_tol;
    for(size_t i = 0; i < R.D.size(); ++i) if(!(std::fabs(R.D[i] - a.D[i]) < tol)) fail("one-body", "casci P=%d: one-body element %zu is %.10g, should be %.10g", P, i, a.D[i], R.D[i]);
    auto g0 = averaged(n, R.G), g1 = averaged(n, a.G);
    for(size_t i = 0; i < g0.size(); ++i) if(!(std::fabs(g0[i] - g1[i]) < tol)) fail("two-body", "casci P=%d: two-body element %zu is %.10g, should be %.10g", P, i, g1[i], g0[i]);
    probe("density-matrices-compared");
  }
  // every process forms the contributions of its own determinants (the others blanked out); together they are the whole
  if(flip(1, 3, "parts")) {
    bool onebody = flip(1, 2, "onebody");     // the two-body matrix is not asked for
    int dist = (int)choose(3, "dist");
    std::vector<double> x;
    for(auto& q : got) x.insert(x.end(), q.C.begin(), q.C.end());
    if(x.size() != dim) fail("vector", "casci P=%d: the processes hold %zu of %zu coefficients", P, x.size(), dim);
    auto words = macis::generate_hilbert_space<64>((size_t)n, (size_t)na, (size_t)nb);
    struct Part { std::vector<double> D, G; };
    std::vector<Part> part(P);
    auto res2 = simmpi::run_job(P, [&](int r, MPI_Comm comm) {
      auto T = I.T, V = I.V;
      Part& q = part[r];
      q.D.assign((size_t)n * n, 0);
      q.G.assign(onebody ? 0 : (size_t)n * n * n * n, 0);
      macis::DoubleLoopHamiltonianGenerator<64> gen(macis::matrix_span<double>(T.data(), n, n), macis::rank4_span<double>(V.data(), n, n, n, n));
      auto mine = words;
      for(size_t i = 0; i < dim; ++i) if((dist == 0 ? i * P / dim : dist == 1 ? i % P : (i * 7 + 3) % P) != (size_t)r) mine[i] = 0;
      gen.form_rdms(mine.begin(), mine.end(), words.begin(), words.end(), x.data(), macis::matrix_span<double>(q.D.data(), n, n), macis::rank4_span<double>(onebody ? nullptr : q.G.data(), n, n, n, n));
      macis::allreduce(q.D.data(), q.D.size(), MPI_SUM, comm);
      if(!onebody) macis::allreduce(q.G.data(), q.G.size(), MPI_SUM, comm);
    });
    for(int r = 0; r < P; ++r) if(!res2.errors[r].empty()) fail("threw", "casci parts P=%d rank %d: %s", P, r, res2.errors[r].c_str());
    simmpi::check_clean();
    for(int r = 0; r < P; ++r) {
      for(size_t i = 0; i < a.D.size(); ++i) if(!(std::fabs(part[r].D[i] - a.D[i]) < 1e-10)) fail("parts", "casci P=%d: the one-body contributions of the processes%s add up to %.12g for element %zu instead of %.12g", P, onebody ? " (one-body only)" : "", part[r].D[i], i, a.D[i]);
      for(size_t i = 0; i < part[r].G.size(); ++i) if(!(std::fabs(part[r].G[i] - a.G[i]) < 1e-10)) fail("parts", "casci P=%d: the two-body contributions of the processes add up to %.12g for element %zu instead of %.12g", P, part[r].G[i], i, a.G[i]);
    }
    probe(onebody ? "one-body-only" : "density-matrices-in-parts");
  }
  if(P > 1 && dim > 1) nontrivial();
  if((size_t)P > dim) probe("more-ranks-than-determinants");
  if(again) probe("restarted");
}
// Density matrices handed over with the right electron count are the start: without a step they give the energy and stay.
static void run_handed_over() {
  int P = range(1, 4, "P");
  int n = range(1, 4, "n");
  int ni = (int)choose(n, "ni"), nact = 1 + (int)choose(n - ni, "nact"), nv = n - ni - nact;
  int na = (int)choose(nact + 1, "na"), nb = (int)choose(nact + 1, "nb");
  if(na + nb == 0) na = 1;                             // an empty trace cannot be told from absent matrices
  Rng g = data_rng("ints");
  ci::Ints I = ci::random_ints(n, g, ci::IntOpt());
  double ecore = g.sym();
  Cas c = cas(I, ni, nact, na, nb);
  size_t root = g.below((uint32_t)c.dets.size());      // any state, not the lowest
  ci::Ints A;                                          // the active space on its own
  A.n = nact;
  for(int q = 0; q < nact; ++q) for(int p = 0; p < nact; ++p) {
    double x = I.t(ni + p, ni + q);
    for(int i = 0; i < ni; ++i) x += 2 * I.v(ni + p, ni + q, i, i) - I.v(ni + p, i, i, ni + q);
    A.T.push_back(x);
  }
  for(int t = 0; t < nact; ++t) for(int r = 0; r < nact; ++r) for(int q = 0; q < nact; ++q) for(int p = 0; p < nact; ++p) A.V.push_back(I.v(ni + p, ni + q, ni + r, ni + t));
  double want = ecore;
  for(int i = 0; i < ni; ++i) { want += 2 * I.t(i, i); for(int j = 0; j < ni; ++j) want += 2 * I.v(i, i, j, j) - I.v(i, j, j, i); }
  std::vector<double> x(c.dets.size());
  for(size_t i = 0; i < x.size(); ++i) x[i] = c.Z[i][root];
  auto own = c.dets;
  for(auto& d : own) d.a >>= ni, d.b >>= ni;
  Rdm R = own_rdm(nact, own, x);
  want += contract(A, R.D, R.G);
  int ld1 = nact + (int)choose(3, "ld1+"), ld2 = nact + (int)choose(2, "ld2+");
  macis::MCSCFSettings s;
  s.max_macro_iter = 0;
  s.ci_max_subspace = c.dets.size() + 50;
  note("handed over P=%d n=%d ni=%d nact=%d na=%d nb=%d state=%zu", P, n, ni, nact, na, nb, root);
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm comm) {
    auto T = I.T, V = I.V;
    std::vector<double> D((size_t)ld1 * nact, -55.0), G((size_t)ld2 * ld2 * ld2 * nact, -55.0);
    for(int p = 0; p < nact; ++p) for(int q = 0; q < nact; ++q) D[p + (size_t)ld1 * q] = R.D[p + (size_t)nact * q];
    for(int p = 0; p < nact; ++p) for(int q = 0; q < nact; ++q) for(int u = 0; u < nact; ++u) for(int v = 0; v < nact; ++v)
      G[p + ld2 * (q + ld2 * (u + (size_t)ld2 * v))] = R.g(p, q, u, v);
    auto D0 = D, G0 = G;
    double E = macis::casscf_diis(s, macis::NumElectron(na), macis::NumElectron(nb), macis::NumOrbital(n), macis::NumInactive(ni), macis::NumActive(nact), macis::NumVirtual(nv), ecore, T.data(), n, V.data(), n, D.data(), ld1, G.data(), ld2, comm);
    if(!(std::fabs(E - want) < 1e-8 * (1 + std::fabs(want)))) fail("handed-over", "casscf P=%d rank %d: the density matrices handed over give the energy %.12g, reported %.12g", P, r, want, E);
    if(D != D0 || G != G0) fail("handed-over", "casscf P=%d rank %d: the density matrices handed over were changed without a step", P, r);
  });
  for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) fail("threw", "casscf P=%d rank %d: %s", P, r, res.errors[r].c_str());
  simmpi::check_clean();
  if(P > 1) nontrivial();
  probe("matrices-handed-over");
}
static void run_casscf() {
  int P = range(1, 5, "P");
  int n = flip(1, 12, "bign") ? 5 : range(1, 4, "n");
  int ni = (int)choose(n, "ni"), nact = 1 + (int)choose(n - ni, "nact"), nv = n - ni - nact;
  int na = (int)choose(nact + 1, "na"), nb = (int)choose(nact + 1, "nb");
  Rng g = data_rng("ints");
  ci::IntOpt o;
  o.dominant = true;
  o.vscale = 0.1;
  o.tscale = g.below(2) ? 0.2 : g.below(2) ? 0.05 : 0.6;
  if(o.tscale > 0.5) probe("strongly-coupled");
  ci::Ints I = ci::random_ints(n, g, o);
  double ecore = g.below(2) ? g.sym() : 0;
  Cas c = cas(I, ni, nact, na, nb);
  double start = c.w[0] + ecore;
  double fci = ci::eigen(ci::dense_h(I, ci::sector(n, ni + na, ni + nb)))[0] + ecore;
  macis::MCSCFSettings s;
  s.ci_matel_tol = 1e-14;
  s.ci_res_tol = 1e-9;
  s.ci_max_subspace = c.dets.size() + 50;
  s.max_macro_iter = flip(1, 2, "short") ? choose(6, "macro") : 100;
  s.enable_diis = !flip(1, 4, "nodiis");
  s.diis_nkeep = flip(1, 3, "fewkept") ? 2 + choose(4, "nkeep") : 10;
  s.diis_start_iter = choose(5, "diis_start");
  s.orb_grad_tol_mcscf = flip(1, 2, "loose") ? 1e-4 : 5e-6;
  int guess = flip(1, 3, "guess");
  int ldt = n + (flip(1, 4, "ldt") ? 1 + (int)choose(3, "ldt+") : 0), ldv = n + (flip(1, 4, "ldv") ? 1 + (int)choose(2, "ldv+") : 0);
  std::vector<double> T0((size_t)ldt * n, 77.0), V0((size_t)ldv * ldv * ldv * n, 77.0);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) T0[p + (size_t)ldt * q] = I.t(p, q);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int t = 0; t < n; ++t)
    V0[p + ldv * (q + ldv * (r + (size_t)ldv * t))] = I.V[p + n * (q + n * (r + (size_t)n * t))];
  if(ldt > n || ldv > n) probe("padded-integrals");
  int ld1 = nact + (flip(1, 4, "ld1") ? 1 + (int)choose(3, "ld1+") : 0), ld2 = nact + (flip(1, 4, "ld2") ? 1 + (int)choose(2, "ld2+") : 0);
  if(ld1 > nact || ld2 > nact) probe("padded-density-matrices");
  note("casscf P=%d n=%d ni=%d nact=%d nv=%d na=%d nb=%d macro=%zu diis=%d guess=%d", P, n, ni, nact, nv, na, nb, s.max_macro_iter, (int)s.enable_diis, guess);
  bool many_conv = false, many_known = false;
  struct Got { double E; std::vector<double> D, G; };
  auto run = [&](int ranks, std::vector<Got>& got) {
    got.assign(ranks, Got());
    converged_lines = 0;
    auto res = simmpi::run_job(ranks, [&](int r, MPI_Comm comm) {
      Got& q = got[r];
      auto T = T0, V = V0;
      q.D.assign((size_t)nact * nact, 0);
      q.G.assign((size_t)nact * nact * nact * nact, 0);
      std::vector<double> D((size_t)ld1 * nact, -55.0), G((size_t)ld2 * ld2 * ld2 * nact, -55.0);
      auto each = [&](auto f) {                        // f(element handed over, its packed place)
        for(int p = 0; p < ld1; ++p) for(int t = 0; t < nact; ++t) f(D[p + (size_t)ld1 * t], p < nact ? &q.D[p + (size_t)nact * t] : nullptr);
        for(int p = 0; p < ld2; ++p) for(int t = 0; t < ld2; ++t) for(int u = 0; u < ld2; ++u) for(int v = 0; v < nact; ++v)
          f(G[p + ld2 * (t + ld2 * (u + (size_t)ld2 * v))], p < nact && t < nact && u < nact ? &q.G[p + nact * (t + nact * (u + (size_t)nact * v))] : nullptr);
      };
      each([](double& x, double* packed) { if(packed) x = 0; });
      auto go = [&](macis::MCSCFSettings t) {
        q.E = macis::casscf_diis(t, macis::NumElectron(na), macis::NumElectron(nb), macis::NumOrbital(n), macis::NumInactive(ni), macis::NumActive(nact), macis::NumVirtual(nv), ecore, T.data(), ldt, V.data(), ldv, D.data(), ld1, G.data(), ld2, comm);
      };
      if(guess) { auto t = s; t.max_macro_iter = 0; t.orb_grad_tol_mcscf = 0; go(t); }      // leaves the start density matrices
      go(s);
      bool outside = false;
      each([&](double& x, double* packed) { if(packed) *packed = x; else if(x != -55.0) outside = true; });
      if(outside) fail("padding", "casscf P=%d: storage beyond the density matrices was written", ranks);
      if(T != T0 || V != V0) fail("input-changed", "casscf P=%d: the integrals were changed", ranks);
    });
    for(int r = 0; r < ranks; ++r) if(!res.errors[r].empty()) fail("threw", "casscf P=%d rank %d: %s", ranks, r, res.errors[r].c_str());
    simmpi::check_clean();
    for(int r = 1; r < ranks; ++r) {
      if(memcmp(&got[0].E, &got[r].E, 8)) fail("ranks-differ", "casscf: rank %d of %d has the energy %.17g, rank 0 %.17g", r, ranks, got[r].E, got[0].E);
      if(memcmp(got[0].D.data(), got[r].D.data(), 8 * got[0].D.size()) || memcmp(got[0].G.data(), got[r].G.data(), 8 * got[0].G.size())) fail("ranks-differ", "casscf: rank %d of %d has other density matrices than rank 0", r, ranks);
    }
    double E = got[0].E;
    if(!std::isfinite(E)) fail("not-finite", "casscf P=%d: the energy is %g", ranks, E);
    if(E < fci - 1e-7) fail("below-exact", "casscf P=%d: the energy %.12g is below the exact %.12g", ranks, E, fci);
    bool conv = s.max_macro_iter && converged_lines >= ranks;
    if(s.max_macro_iter && converged_lines % ranks) fail("ranks-differ", "casscf: only some of %d ranks converged", ranks);
    if(conv) probe("converged");
    if(!many_known) many_conv = conv, many_known = true;
    if(s.max_macro_iter == 0 && std::fabs(E - start) > 1e-7) fail("start-energy", "casscf P=%d: without a step the energy is %.12g, should be %.12g", ranks, E, start);
    judge_rdms("casscf", ranks, nact, na, nb, got[0].D, got[0].G);
  };
  std::vector<Got> one, many;
  run(P, many);
  // With extrapolation rounding errors are amplified and the path is not reproducible; a few plain steps are.
  bool stable = s.max_macro_iter < 6 && (!s.enable_diis || s.diis_start_iter + 2 >= s.max_macro_iter);
  if(P > 1) nontrivial();
  if(P > 1 && stable) {
    run(1, one);
    probe("compared-with-one-rank");
    if(std::fabs(one[0].E - many[0].E) > 1e-7) fail("rank-count", "casscf: %d ranks give the energy %.12g, one gives %.12g", P, many[0].E, one[0].E);
    auto occ = [&](const Got& q) { Dense M(nact, std::vector<double>(nact)); for(int i = 0; i < nact; ++i) for(int j = 0; j < nact; ++j) M[i][j] = q.D[i + (size_t)j * nact]; return ci::eigen(M); };
    auto o1 = occ(one[0]), o2 = occ(many[0]);          // the orbitals within the active space are not unique, their occupations are
    for(int i = 0; i < nact; ++i) if(std::fabs(o1[i] - o2[i]) > 5e-3) fail("rank-count", "casscf: natural occupation %d is %.9g with %d ranks, %.9g with one", i, o2[i], P, o1[i]);
  }
  // A well-conditioned problem (definite Hessian all along, a short way to the minimum) is solved.
  int nrot = nv * (ni + nact) + nact * ni;
  if(s.max_macro_iter && nrot && flip(1, 2, "reference")) {
    Optimum o = own_optimum(I, ni, nact, na, nb);
    if(o.usable) {
      o.E += ecore;
      probe("optimum-compared");
      double E = many[0].E;
      if(E < o.E - 1e-7) fail("below-optimum", "casscf P=%d: the energy %.12g is below the optimum %.12g", P, E, o.E);
      if(E > start + 1e-7) fail("energy-raised", "casscf P=%d: the energy %.12g is above the one at the start, %.12g", P, E, start);
      if(s.max_macro_iter == 100 && !many_conv) fail("not-converged", "casscf P=%d: 100 iterations did not reach the optimum, energy %.12g, %.12g there", P, E, o.E);
      if(many_conv && E > o.E + 1e-8 + 20 * nrot * s.orb_grad_tol_mcscf * s.orb_grad_tol_mcscf) fail("not-optimal", "casscf P=%d: converged at the energy %.12g, the optimum has %.12g", P, E, o.E);
    }
  }
  if(many[0].E < start - 1e-6) probe("energy-lowered");
  if(nv * (ni + nact) + nact * ni == 0) probe("nothing-to-rotate");
  probe("orbital-optimisation");
}
void harness_run() {
  simmpi::clock_faults(true);
  if(flip(1, 12, "handed")) run_handed_over();
  else if(choose(3, "kind") == 0) run_casscf();
  else run_casci();
}
