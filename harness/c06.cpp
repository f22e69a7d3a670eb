// C06: the parallel search covers each candidate exactly once across processes.
#include <cstdint>
#include <sparsexx/sparsexx_config.hpp>
#include "asci.hpp"
const char* const harness_property = "C06";
void harness_init() { ci::null_loggers(); }
using namespace sim;

template <size_t N>
static void run_typed() {
  as::Problem p = as::draw(false, N);
  auto shared = as::Operator<N>::shared(p);
  int P = p.norb > 8 ? range(1, 4, "P") : flip(1, 6, "bigP") ? range(1, 12, "P") : range(1, 6, "P");
  int nlev = 1 + (int)flip(1, 4, "second");
  std::vector<int> levels{p.level, (int)choose(6, "level2")};
  for(int q = 0; q < nlev; ++q) {
    p.level = levels[q];
    std::vector<macis::asci_contrib_container<macis::wfn_t<N>>> got(P);
    auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
      auto op = shared ? shared : std::make_shared<as::Operator<N>>(p);
      auto& [T, V, gen] = *op;
      int n = p.norb;
      auto core = ci::to_bits<N>(p.core);
      auto C = p.C;
      got[r] = macis::asci_contributions_constraint<N>(as::settings(p), core.begin(), core.end(), p.E, C, n, T.data(), gen.G_red(), gen.V_red(), gen.G(), V.data(), gen, c);
    });
    for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
    simmpi::check_clean();
    std::map<ci::Det, std::pair<int, double>> seen;
    int busy = 0;
    for(int r = 0; r < P; ++r) {
      busy += !got[r].empty();
      for(auto& x : got[r]) {
        ci::Det d;
        if(!ci::from_bits<N>(x.state, p.norb, &d)) fail("outside", "rank %d produced a determinant outside the orbital range", r);
        auto it = p.W.find(d);
        if(it == p.W.end()) {
          // no term, or a term that is exactly zero
          if(x.rv != 0) fail("not-connected", "P=%d level=%d: rank %d produced %s, which no core determinant reaches", P, p.level, r, ci::text(d).c_str());
          bool ok = false;
          for(auto& c : p.core) {
            int ea = __builtin_popcountll(c.a ^ d.a), eb = __builtin_popcountll(c.b ^ d.b);
            ok |= ea + eb > 0 && ea + eb <= (p.singles ? 2 : 4) && __builtin_popcountll(c.a) == __builtin_popcountll(d.a) && __builtin_popcountll(c.b) == __builtin_popcountll(d.b);
          }
          if(!ok) fail("not-connected", "P=%d level=%d: rank %d produced %s, which is no substitution of a core determinant", P, p.level, r, ci::text(d).c_str());
        }
        auto ins = seen.emplace(d, std::make_pair(r, x.rv));
        if(!ins.second) fail("twice", "P=%d level=%d: %s is produced by rank %d and by rank %d", P, p.level, ci::text(d).c_str(), ins.first->second.first, r);
        if(it != p.W.end() && !(std::fabs(x.rv - it->second.w) <= 10 * as::eps(it->second) + it->second.slack))
          fail("wrong-weight", "P=%d level=%d: %s has weight %.15g on rank %d, the sum over the core is %.15g", P, p.level, ci::text(d).c_str(), x.rv, r, it->second.w);
      }
    }
    for(auto& [d, w] : p.W)
      if(std::fabs(w.w) > as::eps(w) + w.slack && !seen.count(d)) fail("lost", "P=%d level=%d: no rank produced %s with weight %.12g", P, p.level, ci::text(d).c_str(), w.w);
    mix(seen.size());
    if(P > 1 && !p.W.empty()) nontrivial();
    if(busy > 1) probe("work-on-several-ranks");
    as::probes(p, P);
  }
}
void harness_run() {
  if(choose(2, "width")) run_typed<128>();
  else run_typed<64>();
}
