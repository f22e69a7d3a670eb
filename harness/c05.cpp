// C05: the selected-CI search against a brute-force ranking.
#include <cstdint>
#include <sparsexx/sparsexx_config.hpp>
#include "asci.hpp"
const char* const harness_property = "C05";
void harness_init() { ci::null_loggers(); }
using namespace sim;

template <size_t N>
static void run_typed() {
  as::Problem p = as::draw(true, N);
  auto shared = as::Operator<N>::shared(p);
  int P = p.norb > 8 ? range(1, 4, "P") : flip(1, 6, "bigP") ? range(1, 12, "P") : range(1, 6, "P");
  simmpi::clock_faults(true);
  std::vector<double> w, wl, wh;    // magnitudes and their bounds, largest first
  size_t definite = 0;
  for(auto& [d, x] : p.W) if(!x.core) { w.push_back(std::fabs(x.w)); wl.push_back(std::max(0., std::fabs(x.w) - x.slack)); wh.push_back(std::fabs(x.w) + x.slack); definite += std::fabs(x.w) > as::eps(x) + x.slack; }
  for(auto* v : {&w, &wl, &wh}) std::sort(v->begin(), v->end(), std::greater<double>());
  size_t nc = p.core.size();
  int nsearch = 1 + (int)flip(1, 4, "second");
  for(int q = 0; q < nsearch; ++q) {
    size_t k;
    switch(choose(5, "k")) {
      case 0: k = w.empty() ? 0 : choose((uint32_t)w.size() + 1, "kk"); break;
      case 1: k = 0; break;
      case 2: k = w.size() + choose(20, "more"); break;
      case 3: k = definite; break;
      default: k = 1 + choose(10, "few");
    }
    note("P=%d k=%zu of %zu", P, k, w.size());
    std::vector<std::vector<macis::wfn_t<N>>> got(P);
    auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
      auto op = shared ? shared : std::make_shared<as::Operator<N>>(p);
      auto& [T, V, gen] = *op;
      int n = p.norb;
      auto core = ci::to_bits<N>(p.core);
      auto C = p.C;
      got[r] = macis::asci_search<N>(as::settings(p), nc + k, core.begin(), core.end(), p.E, C, n, T.data(), gen.G_red(), gen.V_red(), gen.G(), V.data(), gen, c);
    });
    for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
    simmpi::check_clean();
    for(int r = 1; r < P; ++r)
      if(got[r] != got[0]) fail("ranks-differ", "rank %d holds another list than rank 0 (%zu and %zu determinants)", r, got[r].size(), got[0].size());
    std::set<ci::Det> core(p.core.begin(), p.core.end()), seen;
    // the k-th largest is at least kth and at most kth_high
    double kth = k == 0 ? HUGE_VAL : k <= w.size() ? wl[k - 1] : 0, kth_high = k == 0 ? HUGE_VAL : k <= w.size() ? wh[k - 1] : 0;
    for(auto& x : got[0]) {
      ci::Det d;
      if(!ci::from_bits<N>(x, p.norb, &d)) fail("outside", "a determinant lies outside the orbital range");
      if(!seen.insert(d).second) fail("repeated", "P=%d: %s is in the list twice", P, ci::text(d).c_str());
      if(core.count(d)) continue;
      auto it = p.W.find(d);
      if(it == p.W.end()) fail("not-connected", "P=%d: %s is in the list but has no weight", P, ci::text(d).c_str());
      if(std::fabs(it->second.w) + it->second.slack < kth - 20 * as::eps(it->second)) fail("not-best", "P=%d: %s with weight %.12g is kept, but the %zu-th best of %zu is %.12g", P, ci::text(d).c_str(), it->second.w, k, w.size(), kth);
    }
    for(auto& c : p.core) if(!seen.count(c)) fail("core-lost", "P=%d: core determinant %s is not in the list", P, ci::text(c).c_str());
    size_t kept = seen.size() - nc, lo = std::min(k, definite), hi = std::min(k, w.size());
    if(kept < lo || kept > hi) fail("size", "P=%d: %zu determinants beyond the %zu core ones; %zu requested, %zu candidates (%zu with a weight that is surely not zero)", P, kept, nc, k, w.size(), definite);
    for(auto& [d, x] : p.W)
      if(!x.core && !seen.count(d) && k > 0 && std::fabs(x.w) - x.slack > kth_high + 20 * as::eps(x) + 1e-13)
        fail("better-dropped", "P=%d: %s with weight %.12g is not kept, the %zu-th best of %zu is %.12g", P, ci::text(d).c_str(), x.w, k, w.size(), kth_high);
    mix(seen.size());
    if(P > 1 && !w.empty()) nontrivial();
    as::probes(p, P);
    if(k == 0) probe("nothing-requested");
    if(k > w.size()) probe("fewer-candidates-than-requested");
    if(k && k < w.size() && std::fabs(w[k - 1] - w[k]) < 1e-12) probe("tie-at-the-cut");
  }
}
void harness_run() {
  if(choose(2, "width")) run_typed<128>();
  else run_typed<64>();
}
