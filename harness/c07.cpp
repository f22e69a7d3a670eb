// C07: the grow/refine workflow against a sequential model of it.
#include <cstdint>
#include <sparsexx/sparsexx_config.hpp>
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include "simmpi.hpp"
#include "ci.hpp"
#include "eig.hpp"
const char* const harness_property = "C07";
void harness_init() { ci::null_loggers(); }
using namespace sim;

struct State { double E; std::vector<ci::Det> dets; std::vector<double> X; ci::Ints ints; };
// Sequential model.  ambiguous: some decision on the way was too close to call.
struct Model {
  bool ambiguous = false;
  std::string error;
  macis::ASCISettings s;
  bool close(double a, double b) { return std::fabs(a - b) < 1e-4 * (std::fabs(a) + std::fabs(b)) + 1e-7; }
  void solve(State& x) {
    auto H = ci::dense_h(x.ints, x.dets);
    Dense Z;
    auto w = ci::eigen(H, &Z);
    size_t n = w.size(), k = 0;
    for(size_t i = 1; i < n; ++i) if(H[i][i] < H[k][k]) k = i;
    if(std::fabs(Z[k][0]) < 0.7) ambiguous = true;
    if(n > 1 && w[1] - w[0] < 0.05) ambiguous = true;
    x.E = w[0];
    x.X.resize(n);
    for(size_t i = 0; i < n; ++i) x.X[i] = Z[i][0];
  }
  void iter(State& x, size_t nmax) {
    std::vector<size_t> id(x.dets.size());
    for(size_t i = 0; i < id.size(); ++i) id[i] = i;
    std::sort(id.begin(), id.end(), [&](size_t a, size_t b) { return std::fabs(x.X[a]) > std::fabs(x.X[b]); });
    size_t nk = std::min(s.ncdets_max, id.size());
    if(nk < id.size() && close(x.X[id[nk - 1]], x.X[id[nk]])) ambiguous = true;
    if(nk < id.size() && close(x.X[id[nk - 1]], -x.X[id[nk]])) ambiguous = true;
    std::vector<ci::Det> core;
    std::vector<double> C;
    for(size_t i = 0; i < nk; ++i) { core.push_back(x.dets[id[i]]); C.push_back(x.X[id[i]]); }
    auto W = ci::weights(x.ints, core, C, x.E, s.just_singles, s.h_el_tol, s.pair_size_max < core.size() * 150 ? s.rv_prune_tol : 0);   // at most 117 substitutions each
    struct Cand { double first; ci::Det second; double slack; };
    std::vector<Cand> v;
    for(auto& [d, w] : W) {
      if(w.core) continue;
      if(std::fabs(x.E - ci::diag(x.ints, d)) < 0.02) ambiguous = true;
      double slack = w.slack;
      if(std::fabs(w.w) < 1e-4 * w.mag + 1e-7 + slack * (1 + 1e-6)) ambiguous = true;
      v.push_back({std::fabs(w.w), d, slack});
    }
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first > b.first; });
    size_t k = nmax > nk ? nmax - nk : 0;
    if(k < v.size() && k > 0) {
      double in = HUGE_VAL, out = 0;
      for(size_t i = 0; i < v.size(); ++i) if(i < k) in = std::min(in, v[i].first - v[i].slack); else out = std::max(out, v[i].first + v[i].slack);
      if(in <= out || close(in, out)) ambiguous = true;
    }
    x.dets = core;
    for(size_t i = 0; i < std::min(k, v.size()); ++i) x.dets.push_back(v[i].second);
    solve(x);
  }
  void rotate(State& x) {
    int n = x.ints.n;
    std::map<ci::Det, double> c;
    for(size_t i = 0; i < x.dets.size(); ++i) c[x.dets[i]] = x.X[i];
    Dense D(n, std::vector<double>(n, 0)), Z;
    for(auto& [d, cd] : c)
      for(int spin = 0; spin < 2; ++spin)
        for(int q = 0; q < n; ++q)
          for(int p = 0; p < n; ++p) {
            uint64_t w = d.a | (uint64_t)d.b << 32;
            int sg = 1;
            if(!ci::annihilate(w, q + 32 * spin, sg) || !ci::create(w, p + 32 * spin, sg)) continue;
            auto it = c.find(ci::Det{(uint32_t)w, (uint32_t)(w >> 32)});
            if(it != c.end()) D[p][q] -= sg * cd * it->second;
          }
    auto occ = ci::eigen(D, &Z);
    for(int i = 0; i + 1 < n; ++i) if(occ[i + 1] - occ[i] < 1e-3) ambiguous = true;
    ci::Ints o = x.ints;
    for(int p = 0; p < n; ++p)
      for(int q = 0; q < n; ++q) {
        double t = 0;
        for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) t += Z[i][p] * Z[j][q] * o.t(i, j);
        x.ints.T[p + (size_t)q * n] = t;
      }
    std::vector<double> A = o.V, B(A.size());
    size_t n3 = (size_t)n * n * n;
    for(int pass = 0; pass < 4; ++pass) {          // transform the first index, then cycle the indices
      for(size_t r = 0; r < n3; ++r)
        for(int p = 0; p < n; ++p) {
          double t = 0;
          for(int i = 0; i < n; ++i) t += Z[i][p] * A[i + n * r];
          B[r + n3 * p] = t;
        }
      std::swap(A, B);
    }
    x.ints.V = A;
  }
  bool grow(State& x) {
    while(x.dets.size() < s.ntdets_max) {
      size_t was = x.dets.size();
      size_t want = std::min(std::max(s.ntdets_min, was * s.grow_factor), s.ntdets_max);
      iter(x, want);
      if(x.dets.size() < want || x.dets.size() <= was) { error = "didn't grow"; return false; }
      if(s.grow_with_rot && x.dets.size() >= s.rot_size_start) { rotate(x); solve(x); }
    }
    return true;
  }
  bool refine(State& x) {
    size_t n = x.dets.size();
    for(size_t i = 0; i < s.max_refine_iter; ++i) {
      double e = x.E;
      iter(x, n);
      if(x.dets.size() != n) { error = "size changed"; return false; }
      double d = std::fabs(x.E - e);
      if(d > s.refine_energy_tol / 2 && d < s.refine_energy_tol * 2) ambiguous = true;
      if(d < s.refine_energy_tol) return true;
    }
    error = "not converged";
    return false;
  }
};

template <size_t N, class I>
static void run_typed() {
  bool vast = flip(1, 80, "vast");
  int P = flip(1, 8, "bigP") ? range(1, 10, "P") : range(1, 5, "P");
  int norb = vast ? 6 : flip(1, 3, "bignorb") ? 5 : range(1, 4, "norb");
  int na = (int)choose(norb + 1, "na"), nb = (int)choose(norb + 1, "nb");
  if(flip(1, 4, "closed")) nb = na;
  bool wide = !vast && flip(1, 15, "wide");   // many orbitals and few electrons or holes
  if(wide) {
    norb = range(6, 10, "norb");
    na = 1; nb = (int)choose(2, "nb");
    if(flip(1, 4, "holes")) { na = norb - na; nb = norb - nb; }
    probe("six-to-ten-orbitals");
    P = std::min(P, 6);
  }
  Rng g = data_rng("problem");
  ci::IntOpt o;
  o.dominant = g.below(6) != 0;
  o.vscale = g.below(2) ? 0.5 : 0.15;
  o.tscale = g.below(2) ? 0.5 : 0.2;
  auto ints = ci::random_ints(norb, g, o);
  auto sec = ci::sector(norb, na, nb);
  size_t dim = sec.size();
  if(vast) { na = 2 + (int)choose(2, "na"); nb = 1 + (int)choose(2, "nb"); sec = ci::sector(norb, na, nb); dim = sec.size(); }
  else if(dim > 60 && !wide) { na = 1; sec = ci::sector(norb, na, nb); dim = sec.size(); }

  Model m;
  auto& s = m.s;
  static const double tol[] = {0, 1e-14, 1e-14, 1e-8, 1e-8, 1e-4};
  s.h_el_tol = tol[choose(6, "htol")];
  s.rv_prune_tol = tol[choose(6, "prunetol")];
  s.pair_size_max = flip(1, 3, "smallpairs") ? 1 + choose(100, "pairmax") : 20000;
  s.just_singles = flip(1, 10, "singles");
  s.ntdets_max = 1 + choose((uint32_t)dim + (flip(1, 12, "toomany") ? 3 : 0), "ntdets_max");
  if(vast) { s.ntdets_max = dim / 2 + choose((uint32_t)dim / 2, "ntdets_max"); probe("many-determinants"); }
  s.ntdets_min = 1 + choose(8, "ntdets_min");
  s.ncdets_max = flip(1, 2, "allcore") ? 1000 : 1 + choose(10, "ncdets");
  s.grow_factor = flip(1, 15, "factor1") ? 1 : 2 + choose(3, "factor");
  s.max_refine_iter = 1 + choose(12, "refine_iter");
  s.refine_energy_tol = flip(1, 2, "loose") ? 1e-2 : 1e-6;
  s.grow_with_rot = flip(2, 5, "rot");
  s.rot_size_start = 1 + choose(10, "rot_size");
  s.constraint_level = (int)choose(5, "level");
  bool grow = !flip(1, 5, "nogrow"), refine = flip(1, 2, "refine");
  macis::MCSCFSettings ms;
  ms.ci_matel_tol = 1e-14;
  ms.ci_res_tol = flip(1, 2, "tight") ? 1e-9 : 1e-7;
  ms.ci_max_subspace = dim + 20 + choose(50, "room");

  // The start: the determinant of lowest energy, or a small solved list
  std::sort(sec.begin(), sec.end(), [&](auto& a, auto& b) { double x = ci::diag(ints, a), y = ci::diag(ints, b); return x != y ? x < y : a < b; });
  State st;
  st.ints = ints;
  if(flip(2, 3, "single")) {
    st.dets = {sec[flip(1, 8, "otherdet") ? choose((uint32_t)dim, "det") : 0]};
    st.X = {flip(1, 4, "minus") ? -1.0 : 1.0};
    st.E = ci::diag(ints, st.dets[0]);
  } else {
    if(!flip(1, 2, "lowdets")) ci::shuffle(sec, g);
    st.dets.assign(sec.begin(), sec.begin() + 1 + choose((uint32_t)std::min<size_t>(dim, 8), "nstart"));
    Model t;
    t.solve(st);
    if(t.ambiguous) m.ambiguous = true;
  }
  note("htol=%g prune=%g@%zu", s.h_el_tol, s.rv_prune_tol, s.pair_size_max);
  note("P=%d norb=%d na=%d nb=%d dim=%zu start=%zu max=%zu min=%zu core=%zu factor=%zu rot=%d@%zu refine=%d tol=%g", P, norb, na, nb, dim, st.dets.size(), s.ntdets_max, s.ntdets_min, s.ncdets_max, s.grow_factor, (int)s.grow_with_rot, s.rot_size_start, (int)refine, ms.ci_res_tol);
  simmpi::clock_faults(true);
  struct Got { double E; std::vector<macis::wfn_t<N>> w; std::vector<double> X, T, V; bool stale = false; };
  std::vector<Got> got(P);
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
    Got& q = got[r];
    q.T = ints.T; q.V = ints.V;
    macis::DoubleLoopHamiltonianGenerator<N> gen(macis::matrix_span<double>(q.T.data(), norb, norb), macis::rank4_span<double>(q.V.data(), norb, norb, norb, norb));
    q.E = st.E; q.w = ci::to_bits<N>(st.dets); q.X = st.X;
    if(grow) std::tie(q.E, q.w, q.X) = macis::asci_grow<N, I>(s, ms, q.E, q.w, q.X, gen, norb, c);
    if(refine) std::tie(q.E, q.w, q.X) = macis::asci_refine<N, I>(s, ms, q.E, q.w, q.X, gen, norb, c);
    // the generator's own intermediates must belong to the integrals then in force
    macis::DoubleLoopHamiltonianGenerator<N> fresh(macis::matrix_span<double>(q.T.data(), norb, norb), macis::rank4_span<double>(q.V.data(), norb, norb, norb, norb));
    for(size_t i = 0; i < fresh.G_pqrs_data_.size(); ++i) if(!(std::fabs(fresh.G()[i] - gen.G()[i]) < 1e-10)) q.stale = true;
    for(size_t i = 0; i < fresh.G_red_data_.size(); ++i) if(!(std::fabs(fresh.G_red()[i] - gen.G_red()[i]) < 1e-10)) q.stale = true;
    for(size_t i = 0; i < fresh.V_red_data_.size(); ++i) if(!(std::fabs(fresh.V_red()[i] - gen.V_red()[i]) < 1e-10)) q.stale = true;
  });
  simmpi::check_clean();
  State ref = st;
  bool ok = true;
  if(grow) ok = m.grow(ref);
  if(ok && refine) ok = m.refine(ref);
  if(m.ambiguous) probe("too-close-to-call");
  int nerr = 0;
  for(auto& e : res.errors) nerr += !e.empty();
  if(P > 1) nontrivial();
  if(nerr) {
    std::string one;
    for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) one = res.errors[r];
    if(nerr < P) fail("ranks-differ", "%d of %d ranks threw (%s), the others finished", nerr, P, one.c_str());
    if(one.find("Davidson") != std::string::npos) fail("solver", "P=%d: the solver failed with room for every vector: %s", P, one.c_str());
    if(ok && !m.ambiguous) fail("threw", "P=%d: %s", P, one.c_str());
    probe("stopped-on-every-rank");
    return;
  }
  if(!ok && !m.ambiguous) fail("no-error", "P=%d: finished, although the workflow cannot (%s)", P, m.error.c_str());
  const Got& a = got[0];
  for(int r = 1; r < P; ++r) {
    const Got& b = got[r];
    if(memcmp(&a.E, &b.E, 8)) fail("ranks-differ", "rank %d ends with the energy %.17g, rank 0 with %.17g", r, b.E, a.E);
    if(a.w != b.w) fail("ranks-differ", "rank %d ends with another determinant list than rank 0", r);
    if(a.X.size() != b.X.size() || memcmp(a.X.data(), b.X.data(), 8 * a.X.size())) fail("ranks-differ", "rank %d ends with other coefficients than rank 0", r);
    if(memcmp(a.T.data(), b.T.data(), 8 * a.T.size()) || memcmp(a.V.data(), b.V.data(), 8 * a.V.size())) fail("ranks-differ", "rank %d ends with other integrals than rank 0", r);
  }
  for(int r = 0; r < P; ++r) if(got[r].stale) fail("intermediates", "rank %d of %d: the generator's intermediates do not belong to its integrals", r, P);
  std::vector<ci::Det> dets;
  std::set<ci::Det> seen;
  for(auto& x : a.w) {
    ci::Det d;
    if(!ci::from_bits<N>(x, norb, &d)) fail("outside", "a determinant lies outside the orbital range");
    if(__builtin_popcountll(d.a) != na || __builtin_popcountll(d.b) != nb) fail("electrons", "%s has other electron counts", ci::text(d).c_str());
    if(!seen.insert(d).second) fail("repeated", "%s is in the list twice", ci::text(d).c_str());
    dets.push_back(d);
  }
  size_t want = grow ? std::max(s.ntdets_max, st.dets.size()) : st.dets.size();
  if(dets.size() != want || a.X.size() != want) fail("size", "P=%d: %zu determinants and %zu coefficients, %zu wanted", P, dets.size(), a.X.size(), want);
  ci::Ints fin = ints;
  fin.T = a.T; fin.V = a.V;
  bool rotated = memcmp(fin.T.data(), ints.T.data(), 8 * fin.T.size()) || memcmp(fin.V.data(), ints.V.data(), 8 * fin.V.size());
  if(rotated) {
    if(!s.grow_with_rot || !grow) fail("integrals-changed", "the integrals changed without orbital rotation");
    auto before = ci::eigen(ci::dense_h(ints, sec)), after = ci::eigen(ci::dense_h(fin, sec));
    for(size_t i = 0; i < dim; ++i)
      if(!(std::fabs(before[i] - after[i]) < 1e-9 * (1 + std::fabs(before[dim - 1])) * (1 + norb))) fail("spectrum", "rotation changed the full-space eigenvalue %zu from %.12g to %.12g", i, before[i], after[i]);
    probe("rotated");
  }
  auto H = ci::dense_h(fin, dets);
  Dense Z;
  auto w = ci::eigen(H, &Z);
  std::vector<double> start(dets.size(), 0);
  size_t k = 0, ties = 0;
  for(size_t i = 1; i < dets.size(); ++i) if(H[i][i] < H[k][k]) k = i;
  for(size_t i = 0; i < dets.size(); ++i) ties += std::fabs(H[i][i] - H[k][k]) < 1e-9;
  bool untouched = (!grow || st.dets.size() >= s.ntdets_max) && !refine;
  if(ties == 1 && !untouched) start[k] = 1;
  judge("workflow", P, H, w, Z, start, a.E, a.X, untouched ? 1e-6 : ms.ci_res_tol);
  mix(dets.size());
  if(!m.ambiguous) {
    if(std::fabs(a.E - ref.E) > 1e-6) fail("energy", "P=%d: the energy is %.12g, the sequential workflow gives %.12g", P, a.E, ref.E);
    if(std::set<ci::Det>(ref.dets.begin(), ref.dets.end()) != seen) fail("list", "P=%d: the list differs from that of the sequential workflow", P);
    std::map<ci::Det, double> rx;
    for(size_t i = 0; i < ref.dets.size(); ++i) rx[ref.dets[i]] = ref.X[i];
    for(size_t i = 0; i < dets.size(); ++i)
      if(std::fabs(std::fabs(rx[dets[i]]) - std::fabs(a.X[i])) > 1e-4) fail("coefficients", "P=%d: the coefficient of %s is %.9g, the sequential workflow gives %.9g", P, ci::text(dets[i]).c_str(), a.X[i], rx[dets[i]]);
    probe("compared-with-model");
  }
  if(refine) probe("refined");
}
void harness_run() {
  switch(choose(3, "types")) {
    case 0: run_typed<64, int32_t>(); break;
    case 1: run_typed<128, int32_t>(); break;
    default: run_typed<64, int64_t>();
  }
}
