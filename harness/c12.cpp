// C12: wavefunction files.
#include <cstdint>
#include <macis/wavefunction_io.hpp>
#include <cmath>
#include <cstring>
#include "iofx.hpp"
const char* const harness_property = "C12";
void harness_init() { iofx::quiet(); }
using namespace sim;

static double coeff(Rng& g) {
  switch(g.below(8)) {
    case 0: return 0.0;
    case 1: return g.below(2) ? 1.0 : -1.0;
    case 2: return g.sym() * 1e-300;
    case 3: return g.sym() * 1e-12;
    case 4: { uint64_t b; double d; do { b = g.next(); memcpy(&d, &b, 8); } while(!std::isfinite(d) || std::fabs(d) < 2.3e-308); return d; }
    case 5: return -0.0;
    default: return g.sym();
  }
}
template <size_t N>
struct Wfn { size_t norb; std::vector<std::bitset<N>> s; std::vector<double> c; };
template <size_t N>
static Wfn<N> make(int n) {
  Rng g = data_rng("wfn");
  Wfn<N> w;
  w.norb = flip(1, 4, "full") ? N / 2 : 2 + g.below(std::min<size_t>(N / 2 - 1, 12));
  size_t na = g.below((uint32_t)w.norb + 1), nb = g.below((uint32_t)w.norb + 1);
  if(na + nb == 0) na = 1;
  auto occ = [&](size_t k) {
    std::vector<int> o(w.norb);
    for(size_t i = 0; i < w.norb; ++i) o[i] = (int)i;
    for(size_t i = 0; i < w.norb; ++i) std::swap(o[i], o[i + g.below((uint32_t)(w.norb - i))]);
    o.resize(k);
    return o;
  };
  for(int i = 0; i < n; ++i) {
    std::bitset<N> b;
    for(int p : occ(na)) b.set(p);
    for(int p : occ(nb)) b.set(p + N / 2);
    w.s.push_back(b);
    w.c.push_back(coeff(g));
  }
  return w;
}
static bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
template <size_t N>
static void go() {
  int n = (int)choose(flip(1, 8, "many") ? flip(1, 10, "vast") ? 3000 : 300 : 9, "n");
  auto w = make<N>(n), o = make<N>((int)choose(30, "nold"));
  note("N=%zu norb=%zu n=%d", N, w.norb, n);
  iofx::Case c;
  c.write = [&](const std::string& f) { macis::write_wavefunction(f, w.norb, w.s, w.c); };
  c.write_old = [&](const std::string& f) { macis::write_wavefunction(f, o.norb, o.s, o.c); };
  c.read = [&](const std::string& f, std::string* why) {
    std::vector<std::bitset<N>> s(3);
    std::vector<double> x(2, 9.0);
    macis::read_wavefunction(f, s, x);
    for(auto& b : s) mix(b.count());
    if(s == w.s && same(x, w.c)) return 0;
    if(s == o.s && same(x, o.c)) return 1;
    char m[200];
    if(s.size() != w.s.size() || x.size() != w.c.size()) snprintf(m, 200, "%zu determinants and %zu coefficients instead of %zu", s.size(), x.size(), w.s.size());
    else { size_t i = 0; while(i < s.size() && s[i] == w.s[i] && !memcmp(&x[i], &w.c[i], 8)) ++i;
      snprintf(m, 200, "entry %zu of %zu differs (coefficient %.17g instead of %.17g, determinant %s)", i, s.size(), x[i], w.c[i], s[i] == w.s[i] ? "equal" : "different"); }
    *why = m;
    return 2;
  };
  // writer and reader disagree about sizes: refused, nothing written over
  if(flip(1, 20, "badsize")) {
    auto c2 = w.c;
    c2.push_back(1);
    simio::spit("keep", "precious");
    auto r = iofx::call([&] { macis::write_wavefunction(simio::path("keep"), w.norb, w.s, c2); }, simio::Plan{});
    if(!r.threw) fail("bad-dimensions-accepted", "coefficients and determinants of different length were accepted");
    nontrivial();
    return;
  }
  // a file whose determinants do not fit the reader's width: refused
  if(N > 64 && n && w.norb > 32 && flip(1, 3, "narrow")) {
    simio::clear();
    c.write(simio::path("wide"));
    std::vector<std::bitset<64>> s;
    std::vector<double> x;
    auto r = iofx::call([&] { macis::read_wavefunction(simio::path("wide"), s, x); }, simio::Plan{});
    if(!r.threw) fail("truncated-determinants", "determinants over %zu orbitals were read into 64 bits", w.norb);
    nontrivial();
    return;
  }
  iofx::run(c);
}
void harness_run() {
  if(flip(1, 2, "width")) go<64>(); else go<128>();
}
