// C13: integral (FCIDUMP) files.
#include <macis/util/fcidump.hpp>
#include <cmath>
#include <cstring>
#include <vector>
#include "iofx.hpp"
const char* const harness_property = "C13";
void harness_init() { iofx::quiet(); }
using namespace sim;

struct Ints {
  size_t n;
  double core;
  std::vector<double> t, v;   // packed n*n, n^4
  size_t i4(size_t p, size_t q, size_t r, size_t s) const { return p + n * (q + n * (r + n * s)); }
};
static double value(Rng& g) {
  uint64_t b; double d;
  switch(g.below(8)) {
    case 0: return 0.0;
    case 1: do { b = g.next(); memcpy(&d, &b, 8); } while(!std::isfinite(d)); return d;
    case 2: return g.sym() * 1e-310;    // subnormal
    case 3: return -0.0;
    case 4: return (double)g.below(100) - 50;
    default: return g.sym();
  }
}
static Ints make(Rng& g, size_t n, bool sparse = false) {
  Ints a;
  a.n = n;
  a.core = value(g);
  a.t.resize(n * n); a.v.resize(n * n * n * n);
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) a.t[p + n * q] = a.t[q + n * p] = value(g);
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q)
    for(size_t r = 0; r < n; ++r) for(size_t s = 0; s <= r; ++s) {
      if(p + n * q < r + n * s) continue;
      if(sparse && g.below(40)) continue;
      double x = value(g);
      for(auto i : {a.i4(p, q, r, s), a.i4(q, p, r, s), a.i4(p, q, s, r), a.i4(q, p, s, r), a.i4(r, s, p, q), a.i4(s, r, p, q), a.i4(r, s, q, p), a.i4(s, r, q, p)}) a.v[i] = x;
    }
  return a;
}
static bool nonzero(double d) { double z = 0; return memcmp(&d, &z, 8); }   // -0.0 is written out
static bool eq(double a, double b) { return !memcmp(&a, &b, 8); }
static size_t ext2(size_t n, size_t l) { return n ? (n - 1) * l + n : 0; }
static size_t ext4(size_t n, size_t l) { return n ? (n - 1) * (l * l * l + l * l + l) + n : 0; }
// arrays without a byte beyond the last element
struct Arr {
  size_t n, lt, lv;
  std::vector<double> T, V;
  Arr(size_t n_, size_t lt_, size_t lv_, double pad) : n(n_), lt(lt_), lv(lv_), T(ext2(n_, lt_), pad), V(ext4(n_, lv_), pad) { T.shrink_to_fit(); V.shrink_to_fit(); }
};
static const double PAD = 12345.678;
static bool g_holes = false;   // the file leaves out entries that are zero
static void put(Arr& a, const Ints& x) {
  for(size_t p = 0; p < x.n; ++p) for(size_t q = 0; q < x.n; ++q) {
    a.T[p + q * a.lt] = x.t[p + x.n * q];
    for(size_t r = 0; r < x.n; ++r) for(size_t s = 0; s < x.n; ++s) a.V[p + a.lv * (q + a.lv * (r + a.lv * s))] = x.v[x.i4(p, q, r, s)];
  }
}
static bool same(const Arr& a, const Ints& x, std::string* why) {
  char m[200];
  for(size_t q = 0; q < x.n; ++q) for(size_t p = 0; p < x.n; ++p)
    if(!eq(a.T[p + q * a.lt], x.t[p + x.n * q])) { snprintf(m, 200, "T(%zu,%zu)=%.17g instead of %.17g", p, q, a.T[p + q * a.lt], x.t[p + x.n * q]); *why = m; return false; }
  for(size_t s = 0; s < x.n; ++s) for(size_t r = 0; r < x.n; ++r) for(size_t q = 0; q < x.n; ++q) for(size_t p = 0; p < x.n; ++p) {
    double g = a.V[p + a.lv * (q + a.lv * (r + a.lv * s))], w = x.v[x.i4(p, q, r, s)];
    if(!eq(g, w)) { snprintf(m, 200, "V(%zu,%zu,%zu,%zu)=%.17g instead of %.17g", p, q, r, s, g, w); *why = m; return false; }
  }
  // what lies between the columns is not the reader's
  size_t touched = 0;
  for(size_t i = 0; i < a.T.size(); ++i) if(i % a.lt >= a.n && a.T[i] != PAD) touched++;
  for(size_t i = 0; i < a.V.size(); ++i) if((i % a.lv >= a.n || i / a.lv % a.lv >= a.n || i / a.lv / a.lv % a.lv >= a.n) && a.V[i] != PAD) touched++;
  if(touched) fail("overrun", "the reader changed %zu values outside the block it was given", touched);
  return true;
}
// reads everything; true when equal to x
static bool read_all(const std::string& f, const Ints& x, int api, size_t lt, size_t lv, std::string* why) {
  char m[100];
  size_t n = macis::read_fcidump_norb(f);
  if(n != x.n) { snprintf(m, 100, "%zu orbitals instead of %zu", n, x.n); *why = m; return false; }
  double c = macis::read_fcidump_core(f);
  if(!eq(c, x.core)) { snprintf(m, 100, "core %.17g instead of %.17g", c, x.core); *why = m; return false; }
  if(api) lt = lv = n;
  Arr a(n, lt, lv, PAD);
  if(n >= 10 || g_holes) { Ints z = x; for(auto& e : z.t) e = 0; for(auto& e : z.v) e = 0; put(a, z); }  // entries left out of a large file are zero if the caller says so
  if(api) {
    macis::read_fcidump_1body(f, macis::col_major_span<double, 2>(a.T.data(), n, n));
    macis::read_fcidump_2body(f, macis::col_major_span<double, 4>(a.V.data(), n, n, n, n));
  } else {
    macis::read_fcidump_1body(f, a.T.data(), lt);
    macis::read_fcidump_2body(f, a.V.data(), lv);
  }
  return same(a, x, why);
}
// --- a file of another program: unique entries only, any order, comment and header lines
static std::vector<std::string> foreign(const Ints& x, bool* dform) {
  Rng g = data_rng("foreign");
  bool idx_first = flip(1, 2, "idxfirst");
  int vf = (int)choose(3, "vfmt");
  *dform = vf == 2;
  std::vector<std::string> L;
  auto line = [&](size_t p, size_t q, size_t r, size_t s, double v) {
    char b[64], o[256];
    snprintf(b, 64, vf == 0 ? "%.16e" : "%.17E", v);
    if(vf == 2) { char* e = strchr(b, 'E'); if(e) *e = 'D'; }
    if(idx_first) snprintf(o, 256, "%4zu %4zu %4zu %4zu   %s", p, q, r, s, b);
    else snprintf(o, 256, "  %s %4zu %4zu %4zu %4zu", b, p, q, r, s);
    L.push_back(o);
  };
  for(size_t p = 0; p < x.n; ++p) for(size_t q = 0; q <= p; ++q) {
    for(size_t r = 0; r < x.n; ++r) for(size_t s = 0; s <= r; ++s) if(p + x.n * q >= r + x.n * s) {
      if(double z = 0; (x.n >= 10 || g_holes) && !memcmp(&x.v[x.i4(p, q, r, s)], &z, 8)) continue;
      size_t k[4] = {p + 1, q + 1, r + 1, s + 1};
      if(g.below(2)) std::swap(k[0], k[1]);
      if(g.below(2)) std::swap(k[2], k[3]);
      if(g.below(2)) { std::swap(k[0], k[2]); std::swap(k[1], k[3]); }
      line(k[0], k[1], k[2], k[3], x.v[x.i4(p, q, r, s)]);
    }
    if(double z = 0; g_holes && !memcmp(&x.t[p + x.n * q], &z, 8)) continue;
    if(g.below(2)) line(p + 1, q + 1, 0, 0, x.t[p + x.n * q]); else line(q + 1, p + 1, 0, 0, x.t[p + x.n * q]);
  }
  line(0, 0, 0, 0, x.core);
  if(!g_holes && flip(1, 3, "energies")) { probe("orbital-energies"); for(size_t p = 0; p < x.n; ++p) line(p + 1, 0, 0, 0, g.sym()); }
  if(flip(1, 2, "shuffle")) for(size_t i = 0; i + 1 < L.size(); ++i) std::swap(L[i], L[i + g.below((uint32_t)(L.size() - i))]);
  return L;
}
static const char* const HEAD[] = {"&FCI", " ORBSYM=1,1,1,1,", " ISYM=1", " &END", ""};
void harness_run() {
  g_holes = false;
  Rng g = data_rng("ints");
  bool wide = flip(1, 120, "wide");         // two-digit orbital numbers
  size_t n = wide ? 10 + choose(4, "norb") : 1 + choose(flip(1, 6, "large") ? 5 : 3, "norb");
  Ints x = make(g, n, wide);
  size_t lt = n + choose(3, "rldt"), lv = n + choose(3, "rldv");
  int api = (int)choose(2, "api");
  nontrivial();
  iofx::Case c;
  c.truncation = false;
  c.scenarios = 3;
  if(wide ? n == 10 && flip(1, 4, "own") : flip(2, 3, "own")) {
    size_t no = flip(1, 3, "oldsame") ? n : 1 + choose(4, "nold");
    Ints o = make(g, no);
    Arr w(n, n + choose(3, "wldt"), n + choose(3, "wldv"), 9.25), wo(no, no, no, 9.25);
    put(w, x);
    put(wo, o);
    note("n=%zu old n=%zu write lds %zu %zu read %s lds %zu %zu", n, no, w.lt, w.lv, api ? "span" : "raw", lt, lv);
    c.write = [&](const std::string& f) { macis::write_fcidump(f, n, w.T.data(), w.lt, w.V.data(), w.lv, x.core); };
    c.write_old = [&](const std::string& f) { macis::write_fcidump(f, no, wo.T.data(), no, wo.V.data(), no, o.core); };
    c.read = [&](const std::string& f, std::string* why) { return read_all(f, x, api, lt, lv, why) ? 0 : 2; };
    iofx::run(c);
    return;
  }
  bool dform;
  if((g_holes = n < 10 && flip(1, 3, "holes"))) {
    // the largest orbital number may then be named by a single entry, in any position
    Ints z = make(g, n, true);
    for(auto& e : z.t) e = 0;
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < p; ++q) if(!g.below(4)) z.t[p + n * q] = z.t[q + n * p] = value(g);
    bool named = false;
    for(size_t p = 0; p < n; ++p) named = named || nonzero(z.t[p + n * (n - 1)]);
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t r = 0; r < n; ++r) named = named || nonzero(z.v[z.i4(n - 1, p, q, r)]);
    if(!named) {
      size_t q = g.below((uint32_t)n), r = g.below((uint32_t)n), t = g.below((uint32_t)n);
      if(g.below(2)) z.t[n - 1 + n * q] = z.t[q + n * (n - 1)] = 0.75;
      else for(auto i : {z.i4(n - 1, q, r, t), z.i4(q, n - 1, r, t), z.i4(n - 1, q, t, r), z.i4(q, n - 1, t, r), z.i4(r, t, n - 1, q), z.i4(t, r, n - 1, q), z.i4(r, t, q, n - 1), z.i4(t, r, q, n - 1)}) z.v[i] = -1.5;
    }
    x = z;
    probe("sparse-file");
  }
  auto L = foreign(x, &dform);
  probe("foreign-file");
  c.read = [&](const std::string& f, std::string* why) { return read_all(f, x, api, lt, lv, why) ? 0 : 2; };
  auto text = [&](const std::vector<std::string>& v, bool head) { std::string s; if(head) for(auto h : HEAD) s += std::string(h) + "\n"; for(auto& l : v) s += l + "\n"; return s; };
  bool head = flip(1, 2, "head");
  std::string full = text(L, head);
  int sc = (int)choose(5, "fscenario");
  note("foreign n=%zu lines=%zu scenario %d read %s lds %zu %zu", n, L.size(), sc, api ? "span" : "raw", lt, lv);
  if(sc == 0) {
    simio::spit(c.file, full);
    iofx::judge_read(c, "well-formed file", simio::draw_transparent(), full, full, true, false);
    if(simio::open_files()) fail("fd-leak", "the reader left a file open");
    return;
  }
  if(sc == 1) {
    simio::spit(c.file, full);
    iofx::judge_read(c, "error while reading", iofx::draw_read_fault(true), full, full, false, false);
    return;
  }
  std::string bad;
  std::vector<std::string> M = L;
  size_t wrong_lt = lt, wrong_lv = lv;
  bool dims = sc == 2;
  if(!dims) {   // a malformed entry
    char b[200];
    size_t p = 1 + g.below((uint32_t)n);
    static const char* const pat[] = {"%zu %zu %zu 0 0.5e0", "0.5e0 0 %zu %zu %zu", "%zu 0 %zu 0 0.5e0", "0 %zu 0 0 0.5e0", "0.5e0 0 0 %zu 0", "0.5e0 0 0 0 %zu", "-%zu %zu 0 0 0.5e0", "0.5e0 %zu -%zu 0 0",
      "%zu %zu 0 0 0.5x", "%zu %zu 0 0 1.2.3", "0.5e0 %zux %zu 0 0", "0.5e0 %zu %zu 0 1.0", "%zu %zu %zu %zu abc", "0.5e %zu %zu 0 0", "%zu,1 %zu 0 0 1.0e0", "0.5e0 99999999999%zu 1 0 0", "0.5e0 300000000%zu 1 0 0", "8589934593 %zu 0 0 0.5e0", "0 0 0 0 0.5e0.1"};
    uint32_t k = choose(sizeof pat / sizeof *pat, "malformed");
    snprintf(b, 200, pat[k], p, p, p, p);
    bad = b;
    M.insert(M.begin() + g.below((uint32_t)M.size() + 1), bad);
    probe("malformed-entry");
    fault("io.damaged-entry");
  } else {
    if(n < 2) return;
    wrong_lt = n - 1 - choose((uint32_t)n - 1, "shortt"); wrong_lv = n - 1 - choose((uint32_t)n - 1, "shortv");
    probe("array-too-small");
  }
  simio::spit(c.file, text(M, head));
  for(int body = 1; body <= 2; ++body) {
    auto r = iofx::call([&] {
      std::string f = simio::path(c.file);
      Arr a(dims ? (api ? wrong_lt : n) : n, wrong_lt, wrong_lv, PAD);
      size_t k = api ? (dims ? (body == 1 ? wrong_lt : wrong_lv) : n) : 0;
      std::vector<double> buf;
      if(api) {
        buf.assign(body == 1 ? k * k : k * k * k * k, PAD);
        if(body == 1) macis::read_fcidump_1body(f, macis::col_major_span<double, 2>(buf.data(), k, k));
        else macis::read_fcidump_2body(f, macis::col_major_span<double, 4>(buf.data(), k, k, k, k));
      } else {
        // the caller owns n columns of the leading dimension it states
        if(body == 1) { buf.assign(wrong_lt * n, PAD); macis::read_fcidump_1body(f, buf.data(), wrong_lt); }
        else { buf.assign(ext4(n, wrong_lv) > wrong_lv * wrong_lv * wrong_lv * n ? ext4(n, wrong_lv) : wrong_lv * wrong_lv * wrong_lv * n, PAD); macis::read_fcidump_2body(f, buf.data(), wrong_lv); }
      }
    }, simio::draw_transparent());
    simio::clear();
    if(r.threw) { probe("reader-rejected"); continue; }
    if(dims) fail("bounds-accepted", "%d-body reader accepted an array of dimension %zu for %zu orbitals", body, body == 1 ? wrong_lt : wrong_lv, n);
    fail("malformed-accepted", "%d-body reader accepted a file with the entry '%s'", body, bad.c_str());
  }
}
