// C04: the distributed Hamiltonian against the second-quantised one.
#include <cstdint>
#include <sparsexx/sparsexx_config.hpp>
#include <macis/csr_hamiltonian.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include "simmpi.hpp"
#include "ci.hpp"
const char* const harness_property = "C04";
void harness_init() { ci::null_loggers(); }
using namespace sim;

struct Got { int64_t i, j; double v; };
template <size_t N, class I>
static void run_typed() {
  bool wide = flip(1, 150, "wide");    // more than 32 orbitals, or as many as the determinant type can hold
  int norb = wide ? N == 64 ? 30 + (int)choose(3, "norb") : 31 + (int)choose(6, "norb") : range(1, 6, "norb");
  bool vast = !wide && flip(1, 250, "vast");
  if(vast) { norb = range(5, 6, "norb"); probe("more-than-80-determinants"); }
  auto electrons = [&](const char* w) { int k = (int)choose(wide ? 4 : norb + 1, w); return wide && flip(1, 4, "nearlyfull") ? norb - k : k; };
  int na = electrons("na"), nb = electrons("nb");
  if(vast) { na = range(2, 3, "na"); nb = range(2, 4, "nb"); }
  Rng g = data_rng("ints");
  ci::IntOpt o;
  o.vscale = g.below(2) ? 1 : 0.1;
  o.discrete = flip(1, 4, "discrete");
  o.zeros = flip(1, 3, "zeros") ? 1 + (int)g.below(8) : 0;
  ci::Ints ints = ci::random_ints(norb, g, o);
  auto dets = wide ? ci::wide_dets(norb, na, nb, 24, g) : ci::sector(norb, na, nb);
  ci::shuffle(dets, g);
  int want = vast ? range(81, 400, "ndets") : !wide && flip(1, 6, "many") ? range(25, 80, "ndets") : range(1, 24, "ndets");
  if(wide) probe(norb > 32 ? "more-than-32-orbitals" : "thirty-or-more-orbitals");
  if((int)dets.size() > want) dets.resize(want);
  if(flip(1, 4, "sorted")) std::sort(dets.begin(), dets.end());
  int n = (int)dets.size();
  auto H = ci::dense_h(ints, dets);
  for(int i = 0; i < n; ++i) if(std::fabs(H[i][i] - ci::diag(ints, dets[i])) > 1e-10) fail("harness", "reference diagonal");
  double thresh;
  switch(choose(5, "thresh")) {
    case 0: thresh = 0; break;
    case 1: thresh = 1e-12; break;
    case 2: thresh = 1e-2; break;
    case 3: thresh = 0.3; break;
    default: thresh = std::fabs(H[g.below(n)][g.below(n)]) * (g.below(2) ? 1.5 : 0.5);
  }
  int nrun = 1 + (int)flip(1, 3, "again");
  for(int rep = 0; rep < nrun; ++rep) {
    int P = flip(1, 8, "bigP") ? range(1, 12, "P") : range(1, 6, "P");
    note("norb=%d na=%d nb=%d n=%d P=%d thresh=%g", norb, na, nb, n, P, thresh);
    std::vector<std::vector<Got>> got(P);
    std::vector<std::pair<int64_t, int64_t>> rows(P);
    auto res = simmpi::run_job(P, [&](int r, MPI_Comm c) {
      auto T = ints.T, V = ints.V;
      auto words = ci::to_bits<N>(dets);
      auto words0 = words;
      macis::DoubleLoopHamiltonianGenerator<N> gen(macis::matrix_span<double>(T.data(), norb, norb), macis::rank4_span<double>(V.data(), norb, norb, norb, norb));
      auto D = macis::make_dist_csr_hamiltonian<I>(c, words.begin(), words.end(), gen, thresh);
      if(words != words0) fail("list-modified", "rank %d: the determinant list changed", r);
      if((int64_t)D.m() != n || (int64_t)D.n() != n) fail("shape", "rank %d: %ldx%ld for %d determinants", r, (long)D.m(), (long)D.n(), n);
      int64_t lo = D.local_row_start(), ext = D.local_row_extent();
      rows[r] = {lo, lo + ext};
      auto take = [&](const auto& t, int64_t coff, bool diag) {
        if((int64_t)t.m() != ext) fail("shape", "rank %d: a tile has %ld rows of %ld", r, (long)t.m(), (long)ext);
        if((int64_t)t.rowptr().size() != ext + 1 || (int64_t)t.colind().size() != (int64_t)t.nnz() || (int64_t)t.nzval().size() != (int64_t)t.nnz()) fail("shape", "rank %d: inconsistent tile", r);
        int64_t base = t.indexing();
        for(int64_t i = 0; i < ext; ++i)
          for(int64_t q = t.rowptr()[i] - base; q < t.rowptr()[i + 1] - base; ++q) {
            int64_t j = t.colind()[q] - base + coff;
            if(j < 0 || j >= n) fail("column", "rank %d: column %ld of %d", r, (long)j, n);
            if(diag != (j >= lo && j < lo + ext)) fail("wrong-tile", "rank %d: column %ld is held in the %s tile", r, (long)j, diag ? "diagonal" : "off-diagonal");
            got[r].push_back({i + lo, j, t.nzval()[q]});
          }
      };
      if(D.diagonal_tile_ptr()) take(D.diagonal_tile(), lo, true);
      else if(ext) fail("no-tile", "rank %d has no diagonal tile", r);
      if(D.off_diagonal_tile_ptr()) take(D.off_diagonal_tile(), 0, false);
      else if(P > 1 && ext) fail("no-tile", "rank %d has no off-diagonal tile", r);
    });
    for(int r = 0; r < P; ++r) if(!res.errors[r].empty()) fail("threw", "rank %d threw: %s", r, res.errors[r].c_str());
    simmpi::check_clean();
    int64_t covered = 0;
    std::map<std::pair<int64_t, int64_t>, double> all;
    for(int r = 0; r < P; ++r) {
      if(rows[r].first != covered) fail("rows", "rank %d of %d starts at row %ld instead of %ld", r, P, (long)rows[r].first, (long)covered);
      covered = rows[r].second;
      for(auto& e : got[r])
        if(!all.emplace(std::make_pair(e.i, e.j), e.v).second) fail("twice", "element (%ld,%ld) is stored twice", (long)e.i, (long)e.j);
    }
    if(covered != n) fail("rows", "the ranks cover %ld of %d rows", (long)covered, n);
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) {
        auto it = all.find({i, j});
        double h = H[i][j], tol = 1e-11 * (1 + std::fabs(h)) * (1 + norb * norb);
        if(it == all.end()) {
          if(std::fabs(h) > thresh + tol) fail("missing", "P=%d: element (%d,%d) between %s and %s is missing, value %.12g, threshold %g", P, i, j, ci::text(dets[i]).c_str(), ci::text(dets[j]).c_str(), h, thresh);
        } else {
          if(!(std::fabs(it->second - h) <= tol)) fail("wrong-element", "P=%d: element (%d,%d) between %s and %s is %.15g instead of %.15g", P, i, j, ci::text(dets[i]).c_str(), ci::text(dets[j]).c_str(), it->second, h);
          if(std::fabs(h) < thresh - tol) fail("below-threshold", "P=%d: element (%d,%d) = %.12g is kept below the threshold %g", P, i, j, h, thresh);
        }
      }
    for(auto& [k, v] : all) { auto it = all.find({k.second, k.first}); double w = it == all.end() ? 0 : it->second; if(std::fabs(v - w) > thresh * (it == all.end() ? 1.0000001 : 0) + 1e-11 * (1 + std::fabs(v)) * (1 + norb * norb)) fail("asymmetric", "(%ld,%ld)=%.15g but transposed %.15g", (long)k.first, (long)k.second, v, w); }
    mix(all.size());
    if(P > 1 && n > 1) nontrivial();
    if(P > n) probe("more-ranks-than-determinants");
    if(na != nb) probe("open-shell");
    if(n > 40) probe("large-list");
  }
}
void harness_run() {
  switch(choose(4, "type")) {
    case 0: run_typed<64, int32_t>(); break;
    case 1: run_typed<64, int64_t>(); break;
    case 2: run_typed<128, int32_t>(); break;
    default: run_typed<128, int64_t>();
  }
}
