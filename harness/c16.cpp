// C16: binary triplet files.
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include "iofx.hpp"
#include "spmat.hpp"
#include "spread.hpp"
const char* const harness_property = "C16";
void harness_init() { iofx::quiet(); }
using namespace sim;

template <class I>
static void go() {
  using CSR = sparsexx::csr_matrix<double, I>;
  using COO = sparsexx::coo_matrix<double, I>;
  hx::MatOpt mo;
  mo.square = flip(1, 2, "square");
  hx::Mat A = hx::random_matrix(mo), O = hx::random_matrix(mo);
  hx::special_values(A);
  int base = (int)choose(2, "base");
  bool tri = false;
  hx::Mat stored = A, want = A;
  if(A.m == A.n && flip(1, 3, "triangle")) {   // a symmetric matrix of which one triangle is stored
    bool lower = flip(1, 2, "lower");
    bool fulldiag = flip(1, 2, "fulldiag");
    stored.e.clear();
    if(fulldiag) {   // make the diagonal complete
      std::vector<char> d(A.m, 0);
      for(auto& e : A.e) if(e.i == e.j) d[e.i] = 1;
      for(int64_t i = 0; i < A.m; ++i) if(!d[i]) A.e.push_back({i, i, 1.5});
      std::sort(A.e.begin(), A.e.end(), [](auto& a, auto& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; });
    }
    for(auto& e : A.e) if(lower ? e.i >= e.j : e.i <= e.j) stored.e.push_back(e);
    bool off = false;
    want.e.clear();
    for(auto& e : stored.e) { want.e.push_back(e); if(e.i != e.j) { want.e.push_back({e.j, e.i, e.v}); off = true; } }
    std::sort(want.e.begin(), want.e.end(), [](auto& a, auto& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; });
    tri = true;
    probe(off ? (fulldiag ? "triangle" : "triangle-with-diagonal-gaps") : "triangle-is-diagonal");
  } else {
    // a general matrix whose entries all lie in one triangle is indistinguishable from a stored triangle: give it one entry on each side
    bool lo = false, up = false;
    for(auto& e : A.e) { lo |= e.i > e.j; up |= e.i < e.j; }
    if(lo != up && A.m == A.n) {
      if(A.m > 1 && A.n > 1) {
        hx::Entry x = lo ? hx::Entry{0, 1, 2.5} : hx::Entry{1, 0, 2.5};
        A.e.push_back(x);
        std::sort(A.e.begin(), A.e.end(), [](auto& a, auto& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; });
      } else A.e.erase(std::remove_if(A.e.begin(), A.e.end(), [](auto& e) { return e.i != e.j; }), A.e.end());
    }
    stored = want = A;
  }
  {   // keep the older matrix out of that ambiguity
    bool lo = false, up = false;
    for(auto& e : O.e) { lo |= e.i > e.j; up |= e.i < e.j; }
    if(lo != up) O.e.erase(std::remove_if(O.e.begin(), O.e.end(), [](auto& e) { return e.i != e.j; }), O.e.end());
  }
  int wfmt = (int)choose(2, "wfmt"), rfmt = (int)choose(2, "rfmt");
  note("%ldx%ld nnz=%zu base=%d tri=%d write %s read %s", (long)A.m, (long)A.n, stored.e.size(), base, (int)tri, wfmt ? "coo" : "csr", rfmt ? "coo" : "csr");
  auto writer = [wfmt, base](const hx::Mat& m, const std::string& f) {
    if(wfmt == 0) sparsexx::write_binary_triplet(hx::to_csr<CSR>(m, base), f);
    else sparsexx::write_binary_triplet(hx::to_coo<COO>(m, base, true), f);
  };
  iofx::Case c;
  c.write = [&](const std::string& f) { writer(stored, f); };
  c.write_old = [&](const std::string& f) { writer(O, f); };
  c.read = [&](const std::string& f, std::string* why) {
    hx::Mat got; int64_t b;
    if(rfmt == 0) got = hx::from_csr(sparsexx::read_binary_triplet<CSR>(f), &b); else got = hx::from_coo(sparsexx::read_binary_triplet<COO>(f), &b);
    if(hx::same_mat(got, b, want, base, why)) return 0;
    std::string tmp;
    if(hx::same_mat(got, b, O, base, &tmp)) return 1;
    *why += " / " + tmp;
    return 2;
  };
  if(!stored.e.empty() && flip(1, 10, "damaged")) {   // an index outside the matrix
    writer(stored, simio::path(c.file));
    std::string f = simio::slurp(c.file);
    size_t nnz = stored.e.size(), at = 2 * sizeof(I) + sizeof(size_t), off = at + (choose(2, "col") * nnz + choose((uint32_t)nnz, "which")) * sizeof(I);
    bool col = off >= at + nnz * sizeof(I);
    static const I far[] = {1, 2, 7, 100000};
    I bad = flip(1, 3, "below") ? -far[choose(4, "far")] : (I)((col ? A.n : A.m) + far[choose(4, "far")]);
    memcpy(&f[off], &bad, sizeof(I));
    simio::spit(c.file, f);
    nontrivial();
    probe("index-out-of-range");
    fault("io.damaged-index");
    std::string why; int v = -1;
    auto r = iofx::call([&] { v = c.read(simio::path(c.file), &why); }, simio::draw_transparent());
    if(!r.threw) fail("damage-accepted", "a file with an index outside the matrix was accepted (%s)", v == 0 ? "content intact" : why.c_str());
    return;
  }
  iofx::run(c);
}
void harness_run() {
  if(flip(1, 2, "index64")) go<int64_t>(); else go<int32_t>();
}
