// Inputs of the selected-CI search.
#pragma once
#include <macis/asci/determinant_search.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <memory>
#include "simmpi.hpp"
#include "ci.hpp"
namespace as {
struct Problem {
  int norb, na, nb;
  ci::Ints ints;
  std::vector<ci::Det> core;
  std::vector<double> C;
  double E;
  bool singles;
  size_t pair_max;
  double h_tol, prune_tol = 0;
  int level;
  std::map<ci::Det, ci::Weight> W;
};
inline void thresholds(Problem& p) {
  static const double tol[] = {0, 1e-14, 1e-14, 1e-8, 1e-5, 1e-3, 1e-2};
  p.h_tol = tol[sim::choose(7, "htol")];
  p.prune_tol = tol[sim::choose(7, "prunetol")];
  if(p.h_tol > 1e-9) sim::probe("element-threshold");
  if(p.prune_tol > 1e-9 && p.pair_max < 3000) sim::probe("pruning-threshold");
  // a list that never outgrows the limit is not pruned
  p.W = ci::weights(p.ints, p.core, p.C, p.E, p.singles, p.h_tol, p.pair_max < 3000 ? p.prune_tol : 0);
}
// More than 32 orbitals, or as many as the determinant type can hold (half its N bits)
inline Problem draw_wide(size_t N) {
  using namespace sim;
  Problem p;
  bool widest = N == 128 && flip(1, 3, "widest");   // up to the capacity of the determinants
  p.norb = N == 64 ? 30 + (int)choose(3, "norb") : widest ? (flip(1, 2, "limit") ? 64 - (int)choose(2, "norb") : 37 + (int)choose(28, "norb")) : 31 + (int)choose(6, "norb");
  auto electrons = [&](const char* w) { int k = (int)choose(4, w); return !widest && flip(1, 5, "nearlyfull") ? p.norb - k : k; };
  p.na = electrons("na"); p.nb = electrons("nb");
  if(flip(1, 3, "six")) { p.na = 3 + (int)choose(4, "na"); p.nb = (int)choose(2, "nb"); }
  if(p.na > 3 && p.nb > 3) p.nb = 1;
  Rng g = data_rng("problem");
  ci::IntOpt o;
  o.vscale = g.below(2) ? 1 : 0.2;
  o.zeros = 2 + (int)g.below(7);
  p.ints = ci::random_ints(p.norb, g, o);
  p.core = ci::wide_dets(p.norb, p.na, p.nb, range(1, 4, "ncore"), g);
  for(size_t i = 0; i < p.core.size(); ++i) p.C.push_back(g.sym());
  p.singles = flip(1, 6, "singles");
  p.pair_max = flip(1, 4, "smallpairs") ? 500 + choose(2000, "pairmax") : 100000;
  p.level = (int)choose(6, "level");
  std::set<ci::Det> reach(p.core.begin(), p.core.end());
  for(auto& c : p.core) for(auto& [d, h] : ci::apply_h(p.ints, c)) reach.insert(d);
  double lo = HUGE_VAL;
  for(auto& d : reach) lo = std::min(lo, ci::diag(p.ints, d));
  p.E = lo - 0.1 - g.uni();
  thresholds(p);
  note("norb=%d na=%d nb=%d core=%zu singles=%d pairmax=%zu level=%d cand=%zu", p.norb, p.na, p.nb, p.core.size(), (int)p.singles, p.pair_max, p.level, p.W.size());
  probe("thirty-or-more-orbitals");
  if(p.norb > 32) probe("more-than-32-orbitals");
  if(p.norb == 64) probe("64-orbitals");
  return p;
}
inline Problem draw(bool ties, size_t N) {
  using namespace sim;
  if(flip(1, 150, "wide")) return draw_wide(N);
  Problem p;
  bool any = flip(1, 3, "any");      // also the shapes with nothing to find
  p.norb = !any ? (flip(1, 5, "bignorb") ? range(6, 8, "norb") : range(3, 5, "norb")) : flip(1, 3, "bignorb") ? range(1, 8, "norb") : range(1, 5, "norb");
  bool vast = flip(1, 150, "vast");  // a long list of core determinants
  if(vast) { p.norb = range(5, 6, "norb"); sim::probe("more-than-30-core-determinants"); }
  p.na = any ? (int)choose(p.norb + 1, "na") : range(1, p.norb - 1, "na");
  p.nb = any ? (int)choose(p.norb + 1, "nb") : range(1, p.norb - 1, "nb");
  if(flip(1, 4, "closed")) p.nb = p.na;
  Rng g = data_rng("problem");
  ci::IntOpt o;
  o.vscale = g.below(2) ? 1 : 0.2;
  o.dominant = g.below(2);
  o.discrete = flip(ties ? 1 : 0, 3, "discrete");
  o.zeros = flip(1, 3, "zeros") ? 1 + (int)g.below(7) : 0;
  bool tied = flip(ties ? 1 : 0, 5, "tied");
  if(tied) o.discrete = true;
  p.ints = ci::random_ints(p.norb, g, o);
  if(tied) {
    // all determinants have the same diagonal element, so that many weights are equal to the last bit
    int n = p.norb;
    auto at = [&](int i, int j, int k, int l) -> double& { return p.ints.V[i + n * (j + (size_t)n * (k + (size_t)n * l))]; };
    for(int i = 0; i < n; ++i) {
      p.ints.T[i + (size_t)i * n] = -1;
      for(int j = 0; j < n; ++j) {
        at(i, i, j, j) = 0.5;
        if(i != j) at(i, j, i, j) = at(i, j, j, i) = at(j, i, i, j) = at(j, i, j, i) = 0.25;
      }
    }
    sim::probe("many-equal-weights");
  }
  auto sec = ci::sector(p.norb, p.na, p.nb);
  int nc = vast ? range(31, 150, "ncore") : flip(1, 6, "manycore") ? range(1, 30, "ncore") : range(1, 6, "ncore");
  p.E = ci::pick_energy(p.ints, sec, g);
  if(flip(1, 2, "lowcore")) std::sort(sec.begin(), sec.end(), [&](auto& a, auto& b) { double x = ci::diag(p.ints, a), y = ci::diag(p.ints, b); return x != y ? x < y : a < b; });
  else ci::shuffle(sec, g);
  if(p.norb > 6) nc = std::min(nc, 8);
  p.core.assign(sec.begin(), sec.begin() + std::min<size_t>(nc, sec.size()));
  bool equal = flip(tied ? 3 : 1, 4, "equalC");
  double nrm = 0;
  for(size_t i = 0; i < p.core.size(); ++i) {
    double c = equal ? (g.below(2) ? 1 : -1) : g.sym();
    if(!equal && g.below(12) == 0) c *= 1e-4;
    if(!equal && g.below(15) == 0) c = 0;
    p.C.push_back(c);
    nrm += c * c;
  }
  if(nrm > 0 && !equal) for(auto& c : p.C) c /= std::sqrt(nrm);
  if(equal && flip(1, 2, "nearties")) {   // weights that differ in the last digits only
    static const double delta[] = {1e-6, 1e-7, 1e-8, 1e-9};
    double d = delta[g.below(4)];
    for(auto& c : p.C) c *= 1 + d * g.uni();
    sim::probe("nearly-equal-weights");
  }
  if(flip(1, 12, "scaleC")) {
    static const double scale[] = {1e-9, 1e-4, 1e3, 1e6};
    double f = scale[g.below(4)];
    for(auto& c : p.C) c *= f;
    sim::probe("vector-not-normalised");
  }
  p.singles = flip(1, 6, "singles");
  p.pair_max = flip(1, 4, "smallpairs") ? 1 + choose(60, "pairmax") : 20000;
  p.level = (int)choose(6, "level");
  thresholds(p);
  note("norb=%d na=%d nb=%d core=%zu singles=%d pairmax=%zu level=%d cand=%zu", p.norb, p.na, p.nb, p.core.size(), (int)p.singles, p.pair_max, p.level, p.W.size());
  return p;
}
// The integrals and the generator of one process; several processes share very large ones
template <size_t N> struct Operator {
  std::vector<double> T, V;
  macis::DoubleLoopHamiltonianGenerator<N> gen;
  explicit Operator(const Problem& p) : T(p.ints.T), V(p.ints.V),
    gen(macis::matrix_span<double>(T.data(), p.norb, p.norb), macis::rank4_span<double>(V.data(), p.norb, p.norb, p.norb, p.norb)) {}
  static std::shared_ptr<Operator> shared(const Problem& p) { return p.norb > 36 ? std::make_shared<Operator>(p) : nullptr; }
};
inline macis::ASCISettings settings(const Problem& p) {
  macis::ASCISettings s;
  s.h_el_tol = p.h_tol;
  s.rv_prune_tol = p.prune_tol;
  s.pair_size_max = p.pair_max;
  s.just_singles = p.singles;
  s.constraint_level = p.level;
  return s;
}
inline void probes(const Problem& p, int P) {
  if(p.na < 3) sim::probe("fewer-than-three-alpha");
  if(p.na == 0 || p.nb == 0) sim::probe("one-spin-empty");
  if(p.level > 3) sim::probe("deep-division");
  if(p.pair_max < 100) sim::probe("pruning");
  if(P > 4) sim::probe("many-ranks");
}
// the uncertainty of a weight, below which a candidate counts as zero
inline double eps(const ci::Weight& w) { return 1e-11 * (1e-2 + w.mag); }
}  // namespace as
