// C17: Rutherford-Boeing reader.
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/io/read_rb.hpp>
#include "iofx.hpp"
#include "spmat.hpp"
#include "spread.hpp"
const char* const harness_property = "C17";
void harness_init() { iofx::quiet(); }
using namespace sim;

// one block of numbers, `per` to a line, `w` characters each
static std::string block(const std::vector<std::string>& t, int per, int w, bool trail) {
  std::string s;
  for(size_t i = 0; i < t.size(); ++i) {
    std::string x = t[i];
    while((int)x.size() < w) x = " " + x;
    s += " " + x;
    if((i + 1) % per == 0 || i + 1 == t.size()) s += trail ? "  \n" : "\n";
  }
  return s;
}
template <class I>
static void go() {
  hx::MatOpt mo;
  mo.square = flip(1, 2, "square");
  hx::Mat A = hx::random_matrix(mo);
  hx::special_values(A);
  bool symm = A.m == A.n && flip(1, 3, "symm");
  if(symm) A.e.erase(std::remove_if(A.e.begin(), A.e.end(), [](auto& e) { return e.i < e.j; }), A.e.end());
  auto byc = A.e;
  std::sort(byc.begin(), byc.end(), [](auto& a, auto& b) { return a.j != b.j ? a.j < b.j : a.i < b.i; });
  std::vector<std::string> cp, ri, va;
  std::vector<int64_t> cnt(A.n + 1, 0);
  for(auto& e : byc) cnt[e.j + 1]++;
  for(int64_t j = 0; j < A.n; ++j) cnt[j + 1] += cnt[j];
  for(auto c : cnt) cp.push_back(std::to_string(c + 1));
  int vfmt = (int)choose(5, "vfmt");
  for(auto& e : byc) {
    ri.push_back(std::to_string(e.i + 1));
    char b[64];
    switch(vfmt) {
      case 0: snprintf(b, 64, "%.16e", e.v); break;
      case 1: snprintf(b, 64, "%.17g", e.v); break;
      case 2: snprintf(b, 64, "%.16E", e.v); break;
      case 4: { snprintf(b, 64, "%.16e", e.v); char* q = strchr(b, 'e'); if(q) *q = 'd'; break; }
      case 3: { snprintf(b, 64, "%.16E", e.v); char* q = strchr(b, 'E'); if(q) *q = 'D'; break; }   // Fortran double precision
    }
    va.push_back(b);
  }
  // a pattern file carries no values: those the reader makes up are not judged
  bool pattern = flip(1, 6, "pattern");
  if(pattern) { va.clear(); probe("pattern-file"); for(auto& e : A.e) e.v = 0; }
  std::string type = symm ? "rsa" : "rua";
  if(pattern) type[0] = 'p';
  if(flip(1, 3, "capitals")) for(auto& t : type) t = (char)(t - 32);
  char h[512];
  int per1 = 1 + (int)choose(12, "per1"), per2 = 1 + (int)choose(12, "per2"), per3 = 1 + (int)choose(5, "per3");
  bool trail = flip(1, 4, "trailing");
  auto nl = [](size_t n, int per) { return (n + per - 1) / per; };
  size_t l1 = nl(cp.size(), per1), l2 = nl(ri.size(), per2), l3 = nl(va.size(), per3);
  snprintf(h, 512, "%-72s%-8s\n%14zu%14zu%14zu%14zu\n%-14s%14ld%14ld%14zu%14d\n(%dI8)        (%dI8)        (%dE26.16)\n", "A matrix; simulated | 1 2 3", "key",
    l1 + l2 + l3, l1, l2, l3, type.c_str(), (long)A.m, (long)A.n, A.e.size(), 0, per1, per2, per3);
  std::string head = h, b1 = block(cp, per1, 8, trail), b2 = block(ri, per2, 8, trail), b3 = block(va, per3, 24, trail);
  std::string full = head + b1 + b2 + b3;
  bool csc = flip(1, 2, "csc");
  note("%ldx%ld nnz=%zu per %d %d %d fmt %d", (long)A.m, (long)A.n, A.e.size(), per1, per2, per3, vfmt);
  iofx::Case c;
  c.exempt = iofx::exempt_last_number;
  c.read = [&](const std::string& f, std::string* why) {
    hx::Mat got; int64_t b;
    if(csc) got = hx::from_csc(sparsexx::read_rb<sparsexx::csc_matrix<double, I>>(f), &b);
    else got = hx::from_csr(sparsexx::read_rb<sparsexx::csr_matrix<double, I>>(f), &b);
    if(pattern) for(auto& e : got.e) e.v = 0;
    return hx::same_mat(got, b, A, 1, why) ? 0 : 2;
  };
  nontrivial();
  if(flip(1, 8, "damaged")) {   // an index outside the matrix, column starts out of order
    std::vector<std::string> p = cp, q = ri;
    int kind = (int)choose(3, "damage");
    int64_t nnz = (int64_t)A.e.size();
    static const int64_t far[] = {1, 2, 7, 100000};
    if(kind == 0 && nnz) q[choose((uint32_t)nnz, "which")] = std::to_string(flip(1, 2, "below") ? 1 - far[choose(4, "far")] : A.m + far[choose(4, "far")]);
    else if(kind == 1) p[flip(1, 2, "last") ? p.size() - 1 : 0] = std::to_string(choose(2, "end") ? nnz + 1 + far[choose(4, "far")] : -far[choose(4, "far")]);
    else {
      size_t w = choose((uint32_t)p.size(), "which");
      int64_t lo = w ? atoll(p[w - 1].c_str()) : 1;
      p[w] = std::to_string(w == 0 || flip(1, 2, "low") ? lo - far[choose(4, "far")] : (w + 1 < p.size() ? atoll(p[w + 1].c_str()) : nnz + 1) + far[choose(4, "far")]);
    }
    if(flip(1, 4, "wraps")) {        // indices that are good ones in 32 bits
      p = cp; q = ri;
      auto& t = nnz && choose(2, "row") ? q[choose((uint32_t)nnz, "which")] : p[choose((uint32_t)p.size(), "which")];
      t = std::to_string(atoll(t.c_str()) + (1ll << 32));
      probe("index-wraps");
    }
    simio::spit(c.file, head + block(p, per1, 8, trail) + block(q, per2, 8, trail) + b3);
    probe("index-out-of-range");
    fault("io.damaged-index");
    std::string why; int v = -1;
    auto r = iofx::call([&] { v = c.read(simio::path(c.file), &why); }, simio::draw_transparent());
    if(!r.threw) fail("damage-accepted", "a file with an index outside the matrix was accepted (%s)", v == 0 ? "content intact" : why.c_str());
    return;
  }
  switch(choose(5, "scenario")) {
    case 0:
      simio::spit(c.file, full);
      iofx::judge_read(c, "well-formed file", simio::draw_transparent(), full, full, true, false);
      if(simio::open_files()) fail("fd-leak", "the reader left a file open");
      break;
    case 1:
      if(flip(1, 4, "missing")) { probe("missing-file"); c.file = "no-such-file"; iofx::judge_read(c, "missing file", simio::Plan{}, "", full, false, false); break; }
      simio::spit(c.file, full);
      iofx::judge_read(c, "error while reading", iofx::draw_read_fault(true), full, full, false, false);
      break;
    case 2: {   // more numbers than announced, in one of the three blocks
      int which = (int)choose(pattern ? 2 : 3, "block");
      int extra = 1 + (int)choose(flip(1, 4, "lots") ? 200 : 4, "extra");
      auto grow = [&](std::vector<std::string> v, const std::string& x) { for(int q = 0; q < extra; ++q) v.push_back(x); return v; };
      std::string s = head;
      if(which == 0) s += block(grow(cp, cp.back()), per1, 8, trail) + b2 + b3;
      else if(which == 1) s += b1 + block(grow(ri, "1"), per2, 8, trail) + b3;
      else s += b1 + b2 + block(grow(va, "1.0"), per3, 24, trail);
      simio::spit(c.file, s);
      probe("too-many-numbers");
      fault("io.extra-numbers");
      std::string why; int v = -1;
      auto r = iofx::call([&] { v = c.read(simio::path(c.file), &why); }, simio::draw_transparent());
      if(!r.threw) fail("excess-accepted", "a file with %d numbers too many in block %d was accepted (%s)", extra, which, v == 0 ? "content intact" : why.c_str());
      break;
    }
    default: {
      size_t t = iofx::draw_cut(full);
      std::string got = full.substr(0, t);
      simio::spit(c.file, got);
      fault("io.truncated-file");
      iofx::judge_read(c, "cut file", flip(1, 2, "faulty") ? simio::draw_transparent() : simio::Plan{}, got, full, false, false);
    }
  }
}
void harness_run() {
  if(flip(1, 2, "index64")) go<int64_t>(); else go<int32_t>();
}
