// C14: binary density-matrix files.
#include <macis/util/detail/rdm_files.hpp>
#include <cmath>
#include <cstring>
#include <vector>
#include "iofx.hpp"
const char* const harness_property = "C14";
void harness_init() { iofx::quiet(); }
using namespace sim;
struct Rdm {
  size_t n, l1, l2;
  std::vector<double> o, t;    // packed values
  std::vector<double> O, T;    // with leading dimensions
  void layout(size_t a, size_t b, double pad) {
    l1 = a; l2 = b;
    // no padding after the last column: an access beyond the block is caught
    O.assign(n ? (n - 1) * l1 + n : 0, pad);
    T.assign(n ? (n - 1) * l2 * l2 * l2 + (n - 1) * l2 * l2 + (n - 1) * l2 + n : 0, pad);
    O.shrink_to_fit(); T.shrink_to_fit();
  }
  size_t i1(size_t i, size_t j) const { return i + j * l1; }
  size_t i2(size_t i, size_t j, size_t k, size_t l) const { return i + j * l2 + k * l2 * l2 + l * l2 * l2 * l2; }
};
static Rdm make(Rng& g, size_t n, size_t l1, size_t l2) {
  Rdm r;
  r.n = n;
  r.layout(l1, l2, 3.5);
  auto val = [&]() { uint64_t b; double d; switch(g.below(5)) { case 0: return 0.0; case 1: b = g.next(); memcpy(&d, &b, 8); return d; default: return g.sym(); } };
  for(auto* v : {&r.O, &r.T}) for(auto& x : *v) x = val();
  return r;
}
static bool eq(double a, double b) { return !memcmp(&a, &b, 8); }
void harness_run() {
  Rng g = data_rng("rdm");
  size_t n = flip(1, 80, "vast") ? 10 + choose(7, "norb") : 1 + choose(flip(1, 5, "large") ? 7 : 4, "norb");
  Rdm w = make(g, n, n + choose(3, "ld1"), n + choose(3, "ld2"));
  size_t no = flip(1, 2, "oldsame") ? n : 1 + choose(5, "nold");
  Rdm o = make(g, no, no, no);
  size_t rl1 = n + choose(3, "rld1"), rl2 = n + choose(3, "rld2");
  note("n=%zu lds %zu %zu -> %zu %zu", n, w.l1, w.l2, rl1, rl2);
  auto copy1 = w.O; auto copy2 = w.T;
  iofx::Case c;
  c.write = [&](const std::string& f) {
    macis::write_rdms_binary(f, n, w.O.data(), w.l1, w.T.data(), w.l2);
    if(memcmp(copy1.data(), w.O.data(), 8 * w.O.size()) || memcmp(copy2.data(), w.T.data(), 8 * w.T.size())) fail("input-modified", "the writer changed its input");
  };
  c.write_old = [&](const std::string& f) { macis::write_rdms_binary(f, no, o.O.data(), o.l1, o.T.data(), o.l2); };
  auto compare = [&](const Rdm& r, const Rdm& x, std::string* why) {
    char m[160];
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j)
      if(!eq(r.O[r.i1(i, j)], x.O[x.i1(i, j)])) { snprintf(m, 160, "one-body (%zu,%zu) is %.17g instead of %.17g", i, j, r.O[r.i1(i, j)], x.O[x.i1(i, j)]); *why = m; return false; }
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) for(size_t l = 0; l < n; ++l)
      if(!eq(r.T[r.i2(i, j, k, l)], x.T[x.i2(i, j, k, l)])) { snprintf(m, 160, "two-body (%zu,%zu,%zu,%zu) is %.17g instead of %.17g", i, j, k, l, r.T[r.i2(i, j, k, l)], x.T[x.i2(i, j, k, l)]); *why = m; return false; }
    return true;
  };
  auto padding = [&](const Rdm& r) {
    std::vector<char> in1(r.O.size(), 0), in2(r.T.size(), 0);
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) in1[r.i1(i, j)] = 1;
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) for(size_t l = 0; l < n; ++l) in2[r.i2(i, j, k, l)] = 1;
    for(size_t q = 0; q < r.O.size(); ++q) if(!in1[q] && r.O[q] != 8.25) fail("outside-block", "one-body memory outside the requested block changed");
    for(size_t q = 0; q < r.T.size(); ++q) if(!in2[q] && r.T[q] != 8.25) fail("outside-block", "two-body memory outside the requested block changed");
  };
  c.read = [&](const std::string& f, std::string* why) {
    Rdm r;
    r.n = n;
    r.layout(rl1, rl2, 8.25);
    try { macis::read_rdms_binary(f, n, r.O.data(), rl1, r.T.data(), rl2); }
    catch(...) { padding(r); throw; }
    padding(r);
    if(compare(r, w, why)) return 0;
    std::string tmp;
    if(no == n && compare(r, o, &tmp)) return 1;
    return 2;
  };
  if(flip(1, 8, "othersize")) {   // a file made for another orbital count
    if(no == n) { o = make(g, no = n + 1, n + 1, n + 1); }
    auto a = iofx::call([&] { c.write_old(simio::path("other")); }, simio::Plan{});
    if(a.threw) fail("spurious-error", "%s", a.error.c_str());
    std::string why;
    auto r = iofx::call([&] { c.read(simio::path("other"), &why); }, simio::draw_transparent());
    if(!r.threw) fail("wrong-size-accepted", "a file for %zu orbitals was read as %zu orbitals", no, n);
    nontrivial();
    probe("other-orbital-count");
    return;
  }
  iofx::run(c);
}
