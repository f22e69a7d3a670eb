// C15: matrix-market files.
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/io/read_mm.hpp>
#include "iofx.hpp"
#include "spmat.hpp"
#include "spread.hpp"
const char* const harness_property = "C15";
void harness_init() { iofx::quiet(); }
using namespace sim;

static hx::Mat expand(const hx::Mat& A) {
  hx::Mat w = A;
  w.e.clear();
  for(auto& e : A.e) { w.e.push_back(e); if(e.i != e.j) w.e.push_back({e.j, e.i, e.v}); }
  std::sort(w.e.begin(), w.e.end(), [](auto& a, auto& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; });
  return w;
}
// The text another program would have written: comments, blank padding, any entry order, any number format.
static std::string foreign(const hx::Mat& A, int base, bool symm, bool pattern, int* lastnum) {
  std::string kind = std::string(" matrix coordinate ") + (pattern ? "pattern" : "real") + (symm ? " symmetric\n" : " general\n");
  int cs = flip(1, 4, "capitals") ? 1 + (int)choose(2, "allcaps") : 0;    // the banner is not case sensitive
  for(size_t i = 1; cs && i < kind.size(); ++i) if(cs == 2 || kind[i - 1] == ' ') kind[i] = (char)toupper(kind[i]);
  std::string s = "%%MatrixMarket" + kind;
  if(flip(1, 30, "longcomment")) s += "%" + std::string(50 + choose(5000, "length"), '-') + "\n";
  int nc = (int)choose(3, "comments");
  for(int q = 0; q < nc; ++q) s += q ? "%\n" : "% comment with 1 2 3\n";
  char b[200];
  snprintf(b, 200, "%ld %ld %zu\n", (long)A.m, (long)A.n, A.e.size());
  s += b;
  auto e = A.e;
  if(symm && flip(1, 4, "upper")) { for(auto& x : e) std::swap(x.i, x.j); probe("upper-triangle-stored"); }
  int order = (int)choose(3, "order");
  if(order == 1) std::sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.j != b.j ? a.j < b.j : a.i < b.i; });
  if(order == 2) { Rng g = data_rng("order"); for(size_t i = 0; i + 1 < e.size(); ++i) std::swap(e[i], e[i + g.below((uint32_t)(e.size() - i))]); }
  int vf = (int)choose(3, "vfmt"), pad = (int)choose(3, "pad");
  const char* sp = pad == 1 ? "   " : " ";
  for(auto& x : e) {
    snprintf(b, 200, "%s%ld%s%ld", pad == 2 ? "  " : "", (long)x.i + base, sp, (long)x.j + base);
    s += b;
    if(!pattern) { snprintf(b, 200, vf == 0 ? "%s%.17g" : vf == 1 ? "%s%.16e" : "%s%.16E", sp, x.v); s += b; }
    s += pad == 2 ? " \n" : "\n";
  }
  *lastnum = pattern;
  return s;
}
template <class I>
static void go() {
  using CSR = sparsexx::csr_matrix<double, I>;
  using CSC = sparsexx::csc_matrix<double, I>;
  using COO = sparsexx::coo_matrix<double, I>;
  hx::MatOpt mo;
  mo.square = flip(1, 2, "square");
  hx::Mat A = hx::random_matrix(mo), O = hx::random_matrix(mo);
  hx::special_values(A);
  int rfmt = (int)choose(4, "rfmt");
  auto reader = [rfmt](const std::string& f, int64_t* b) {
    switch(rfmt) {
      case 0: return hx::from_csr(sparsexx::read_mm<CSR>(f), b);
      case 1: return hx::from_csc(sparsexx::read_mm<CSC>(f), b);
      case 2: return hx::from_coo(sparsexx::read_mm<COO>(f), b);
      default: return hx::from_csr(CSR(sparsexx::read_mm<CSC>(f)), b);
    }
  };
  iofx::Case c;
  c.exempt = iofx::exempt_last_number;
  if(flip(2, 3, "own")) {
    int base = (int)choose(2, "base"), obase = (int)choose(2, "obase");
    int forced = (int)choose(3, "forced") - 1, oforced = (int)choose(3, "oforced") - 1;
    int fb = forced < 0 ? base : forced, ofb = oforced < 0 ? obase : oforced;
    note("%ldx%ld nnz=%zu base=%d forced=%d read as %d", (long)A.m, (long)A.n, A.e.size(), base, forced, rfmt);
    c.write = [&, base, forced](const std::string& f) { sparsexx::write_mm(f, hx::to_csr<CSR>(A, base), false, forced); };
    c.write_old = [&, obase, oforced](const std::string& f) { sparsexx::write_mm(f, hx::to_csr<CSR>(O, obase), false, oforced); };
    c.read = [&, fb, ofb](const std::string& f, std::string* why) {
      int64_t b;
      hx::Mat got = reader(f, &b);
      if(hx::same_mat(got, b, A, fb, why)) return 0;
      std::string tmp;
      if(hx::same_mat(got, b, O, ofb, &tmp)) return 1;
      *why += " / " + tmp;
      return 2;
    };
    iofx::run(c);
    return;
  }
  // a file of another program
  probe("foreign-file");
  bool symm = A.m == A.n && flip(1, 2, "symm"), pattern = flip(1, 4, "pattern");
  if(symm) A.e.erase(std::remove_if(A.e.begin(), A.e.end(), [](auto& e) { return e.i < e.j; }), A.e.end());
  if(pattern) for(auto& e : A.e) e.v = 1;
  int base = (int)choose(2, "base"), dummy;
  hx::Mat want = symm ? expand(A) : A;
  std::string full = foreign(A, base, symm, pattern, &dummy);
  nontrivial();
  note("foreign %ldx%ld nnz=%zu symm=%d pattern=%d base=%d read as %d", (long)A.m, (long)A.n, A.e.size(), symm, pattern, base, rfmt);
  c.read = [&](const std::string& f, std::string* why) {
    int64_t b;
    hx::Mat got = reader(f, &b);
    return hx::same_mat(got, b, want, base, why) ? 0 : 2;
  };
  if(flip(1, 12, "otherkind")) {   // a kind of file the reader does not know: refused, never taken for one it does know
    static const char* const K[] = {"coordinate real skew-symmetric", "coordinate integer Skew-Symmetric", "coordinate real hermitian", "coordinate complex general", "coordinate complex hermitian", "array real general", "coordinate real unknown"};
    const char* k = K[choose(7, "kind")];
    size_t l1 = full.find('\n');
    simio::spit(c.file, std::string("%%MatrixMarket matrix ") + k + full.substr(l1));
    probe("unsupported-kind");
    std::string why; int v = -1;
    auto r = iofx::call([&] { v = c.read(simio::path(c.file), &why); }, simio::draw_transparent());
    simio::clear();
    if(!r.threw) fail("wrong-kind", "a file announced as '%s' was read as if it were another kind", k);
    return;
  }
  int sc = (int)choose(6, "fscenario");
  if(sc == 0 || A.e.empty()) {
    simio::spit(c.file, full);
    iofx::judge_read(c, "well-formed file", simio::draw_transparent(), full, full, true, false);
    if(simio::open_files()) fail("fd-leak", "the reader left a file open");
  } else if(sc == 1) {
    simio::spit(c.file, full);
    iofx::judge_read(c, "error while reading", iofx::draw_read_fault(true), full, full, false, false);
  } else if(sc == 2) {
    std::string got = full.substr(0, iofx::draw_cut(full));
    simio::spit(c.file, got);
    fault("io.truncated-file");
    iofx::judge_read(c, "cut file", flip(1, 2, "faulty") ? simio::draw_transparent() : simio::Plan{}, got, full, false, false);
  } else {   // an entry line is lost, or loses a field (as from a lost block in the middle of the file)
    std::vector<std::string> L;
    size_t p = 0;
    while(p < full.size()) { size_t q = full.find('\n', p); L.push_back(full.substr(p, q - p + 1)); p = q + 1; }
    size_t first = L.size() - A.e.size(), at = first + choose((uint32_t)A.e.size(), "line");
    bool field = sc == 4, index = sc == 5;
    if(index) {                    // or one index is damaged and points outside the matrix
      auto& l = L[at];
      size_t b1 = l.find_first_not_of(' '), e1 = l.find(' ', b1), b2 = l.find_first_not_of(' ', e1), e2 = l.find_first_of(" \n", b2);
      bool second = flip(1, 2, "column");
      long m = second ? A.n : A.m;
      std::string bad = flip(1, 4, "negative") ? "-" + std::to_string(1 + choose(3, "by")) : std::to_string(m + 1 + (choose(2, "far") ? choose(1000, "by") : 0));
      if(flip(1, 4, "wraps")) bad = std::to_string((1l << 32) + 1 + (long)choose((uint32_t)m, "by")), probe("index-wraps");     // the same as a good one in 32 bits
      if(second) l.replace(b2, e2 - b2, bad); else l.replace(b1, e1 - b1, bad);
      probe("index-outside");
    }
    if(field) {
      auto& l = L[at];
      size_t e = l.find_last_not_of(" \n"), b = l.find_last_of(' ', e);
      if(b == std::string::npos || l.find_last_not_of(' ', b) == std::string::npos) field = false;
      else { l = l.substr(0, b) + "\n"; probe("lost-field"); }
    }
    if(!field && !index) { L.erase(L.begin() + at); probe("lost-entry"); }
    fault("io.lost-range");
    std::string got;
    for(auto& l : L) got += l;
    simio::spit(c.file, got);
    std::string why; int v = -1;
    auto r = iofx::call([&] { v = c.read(simio::path(c.file), &why); }, simio::draw_transparent());
    simio::clear();
    if(!r.threw) fail("silent-loss", "a file lacking %s was accepted: %s", index ? "a valid index" : field ? "a field" : "an entry", v == 0 ? "content intact" : why.c_str());
  }
}
void harness_run() {
  if(flip(1, 2, "index64")) go<int64_t>(); else go<int32_t>();
}
