// C01: distributed quickselect against a sort of all values.
#include <macis/util/dist_quickselect.hpp>
#include <numeric>
#include "simmpi.hpp"
const char* const harness_property = "C01";
void harness_init() {}

// The selection counts what all ranks hold with this helper. Where a tree has none of that name (a
// refactoring may inline it), the fallback below is the better match and the direct runs are skipped.
struct no_helper {};
struct anything { template <class T> anything(T&&) {} };
static no_helper total_gather_and_exclusive_scan(anything, anything, anything, anything) { return {}; }

template <class T> static std::string show(T v) { return std::to_string(v); }

template <class T, class Ord, class Eq>
static void run_typed(const char* ordname, Ord ord, Eq eq) {
  using namespace sim;
  int P = 1 + (int)choose(flip(1, 12, "bigP") ? 20 : 9, "ranks");
  // value pool: few or many distinct values
  int layout = (int)choose(7, "layout");
  int n = range(1, flip(1, 60, "vast") ? 5000 : flip(1, 5, "big") ? 400 : 40, "n");
  int distinct = flip(1, 2, "dups") ? range(1, 6, "distinct") : 100000;
  Rng g = data_rng("values");
  std::vector<T> all(n);
  for(auto& x : all) {
    long v = (long)g.below(distinct);
    if constexpr(std::is_floating_point_v<T>) x = (T)((v - distinct / 2) * (distinct > 1000 ? 1e-3 : 1.0));
    else if constexpr(std::is_signed_v<T>) x = (T)(v - distinct / 2);
    else x = (T)v;
    if(std::is_floating_point_v<T> && g.below(40) == 0) x = (T)(g.below(2) ? 1e300 : -1e300);
  }
  if(std::is_same_v<T, float>) for(auto& x : all) if(x > T(1e30) || x < T(-1e30)) x = T(1e30);
  if(layout == 1) std::stable_sort(all.begin(), all.end(), ord);
  if(layout == 2) { std::stable_sort(all.begin(), all.end(), ord); std::reverse(all.begin(), all.end()); }
  // distribution over ranks
  std::vector<std::vector<T>> local(P);
  int dist = (int)choose(5, "dist");
  for(int i = 0; i < n; ++i) {
    int r = 0;
    switch(dist) {
      case 0: r = (int)((long)i * P / n); break;      // blocks
      case 1: r = i % P; break;
      case 2: r = (int)g.below(P); break;
      case 3: r = P - 1; break;                        // all on the last rank
      case 4: r = std::min<int>(P - 1, (int)(g.uni() * g.uni() * P)); break;
    }
    local[r].push_back(all[i]);
  }
  int k = 1 + (int)choose(n, "k");
  if(flip(1, 6, "kend")) k = flip(1, 2, "klast") ? n : 1;
  auto sorted = all;
  std::sort(sorted.begin(), sorted.end(), ord);
  T want = sorted[k - 1];
  note("n=%d P=%d k=%d dist=%d layout=%d distinct=%d ord=%s sizeof=%zu", n, P, k, dist, layout, distinct, ordname, sizeof(T));
  std::vector<T> got(P);
  auto before = local;
  // repeated selections in one job check that nothing leaks between calls
  int reps = 1 + (int)choose(2, "reps");
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
    for(int q = 0; q < reps; ++q) got[r] = macis::dist_quickselect(local[r].begin(), local[r].end(), k, c, ord, eq);
  });
  for(int r = 0; r < P; ++r) {
    if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
    if(!(got[r] == want)) fail("wrong-value", "rank %d of %d returned %s, sorting gives %s (k=%d of %d)", r, P, show(got[r]).c_str(), show(want).c_str(), k, n);
    auto a = before[r], b = local[r];
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if(a != b) fail("values-lost", "rank %d no longer holds the values it started with", r);
  }
  simmpi::check_clean();
  std::string why;
  if(!simmpi::same_collectives(&why)) fail("collective-mismatch", "%s", why.c_str());
  int empties = 0;
  for(auto& v : before) empties += v.empty();
  if(empties) probe("empty-rank");
  if(n < P) probe("fewer-values-than-ranks");
  if(simmpi::collectives() > (uint64_t)(6 * P)) probe("several-rounds");
  if(P > 1) nontrivial();
  for(auto x : got) mix((uint64_t)(double)x);
}
template <class T> static void by_order() {
  switch(sim::choose(3, "order")) {
    case 0: run_typed<T>("less", std::less<T>{}, std::equal_to<T>{}); break;
    case 1: run_typed<T>("greater", std::greater<T>{}, std::equal_to<T>{}); break;
    default:
      if constexpr(std::is_signed_v<T>) {   // by magnitude, then sign: a different strict order
        auto ord = [](T a, T b) { T x = a < 0 ? -a : a, y = b < 0 ? -b : b; return x != y ? x > y : a > b; };
        run_typed<T>("magnitude", ord, std::equal_to<T>{});
      } else run_typed<T>("greater", std::greater<T>{}, std::equal_to<T>{});
  }
}
// What all ranks hold together, and where each rank's part starts, for counts as large as a search over
// many nodes reaches (billions of values in total): no simulated run can hold such data.
template <class Int, class Helper> static void run_counts(Helper helper) {
  using namespace sim;
  int P = 1 + (int)choose(9, "ranks");
  Rng g = data_rng("counts");
  std::vector<Int> count(P);
  const uint64_t cap = (sizeof(Int) == 4 ? (uint64_t)2000000000 : (uint64_t)1 << 40) / P;
  for(auto& c : count) c = g.below(4) ? (Int)(g.next() % cap) : (Int)g.below(3);
  std::vector<std::vector<Int>> gather(P), scan(P);
  std::vector<Int> total(P);
  auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) { total[r] = helper(count[r], gather[r], scan[r], c); });
  Int sum = 0;
  for(int r = 0; r < P; ++r) {
    if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
    for(int q = 0; q < P; ++q) {
      if((int)scan[q].size() != P || (int)gather[q].size() != P) fail("wrong-counts", "rank %d of %d has %zu starts", q, P, scan[q].size());
      if(gather[q][r] != count[r]) fail("wrong-counts", "rank %d was told that rank %d holds %s values, it holds %s", q, r, show(gather[q][r]).c_str(), show(count[r]).c_str());
      if(scan[q][r] != sum) fail("wrong-start", "rank %d was told that the values of rank %d start at %s, they start at %s", q, r, show(scan[q][r]).c_str(), show(sum).c_str());
    }
    sum += count[r];
  }
  for(int r = 0; r < P; ++r)
    if(total[r] != sum) fail("wrong-counts", "rank %d counted %s values, there are %s", r, show(total[r]).c_str(), show(sum).c_str());
  simmpi::check_clean();
  probe("counts-beyond-32-bits", (uint64_t)sum > 0x7fffffffu);
  if(P > 1) nontrivial();
  mix((uint64_t)sum);
}
using namespace macis;
template <class Int> static bool try_counts() {
  using res = decltype(total_gather_and_exclusive_scan(Int(), std::declval<std::vector<Int>&>(), std::declval<std::vector<Int>&>(), MPI_COMM_NULL));
  if constexpr(std::is_same_v<res, Int>) {
    run_counts<Int>([](Int v, std::vector<Int>& a, std::vector<Int>& b, MPI_Comm c) { return total_gather_and_exclusive_scan(v, a, b, c); });
    return true;
  }
  return false;
}
void harness_run() {
  if(sim::flip(1, 25, "counts") && (sim::flip(1, 3, "int") ? try_counts<int>() : try_counts<size_t>())) return;
  switch(sim::choose(4, "type")) {
    case 0: by_order<double>(); break;
    case 1: by_order<int>(); break;
    case 2: by_order<float>(); break;
    case 3: by_order<size_t>(); break;
  }
}
