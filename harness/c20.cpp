// C20: the files of the older exact-diagonalisation library (attic).
#include <cmz_ed/integrals.h++>
#include <cmz_ed/rdms.h++>
#include <cmz_ed/utils.h++>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include "iofx.hpp"
const char* const harness_property = "C20";
void harness_init() { iofx::quiet(); std::cerr.setstate(std::ios::badbit); }
namespace ed = cmz::ed;
using sim::choose; using sim::flip; using sim::range; using sim::note; using sim::fail; using sim::probe; using sim::nontrivial; using sim::Rng;

// The library reports by throwing strings or by returning false; both count as a refusal.
struct Refused : std::runtime_error { using std::runtime_error::runtime_error; };
template <class F> static void guarded(F&& f) {
  try { f(); }
  catch(const std::string& s) { throw Refused(s); }
  catch(const char* s) { throw Refused(s); }
}
static std::string fmt(const char* f, ...) {
  char b[256];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}
static double value(Rng& g, bool small_ok) {
  switch(g.below(8)) {
    case 0: return (double)((int)g.below(9) - 4);
    case 1: return std::ldexp(g.sym(), (int)g.below(60) - 30);
    case 2: return small_ok ? g.sym() * 1e-13 : g.sym();
    case 3: return std::ldexp(g.sym(), (int)g.below(600) - 300);
    default: return g.sym();
  }
}
static bool same(double a, double b) { return !memcmp(&a, &b, 8) || (a == 0 && b == 0); }

// ------------------------------------------------------------ integrals ----
struct Ints {
  size_t n;
  ed::VecD t, u;
  double core;
  size_t T(size_t i, size_t a) const { return i + n * a; }
  size_t U(size_t i, size_t j, size_t a, size_t b) const { return i + n * (a + n * (j + n * b)); }
};
static Ints draw_ints(Rng& g, size_t n) {
  Ints x;
  x.n = n;
  x.t.assign(n * n, 0.); x.u.assign(n * n * n * n, 0.);
  int dens = 1 + g.below(10);
  auto val = [&] { return (int)g.below(10) < dens ? value(g, true) : 0.; };
  for(size_t i = 0; i < n; ++i) for(size_t a = 0; a <= i; ++a) x.t[x.T(i, a)] = x.t[x.T(a, i)] = val();
  // the stated symmetry: i<->a and j<->b; the two pairs are independent entries
  for(size_t i = 0; i < n; ++i) for(size_t a = 0; a <= i; ++a) for(size_t j = 0; j < n; ++j) for(size_t b = 0; b <= j; ++b) {
    double v = val();
    for(auto& p : {x.U(i, j, a, b), x.U(a, j, i, b), x.U(i, b, a, j), x.U(a, b, i, j)}) x.u[p] = v;
  }
  x.core = g.below(4) ? value(g, true) : 0.;
  return x;
}
static bool near12(double got, double want) {   // twelve digits, tiny values dropped
  if(std::abs(want) < 1e-10 && got == 0) return true;
  return std::abs(got - want) <= 1e-11 * std::abs(want);
}
// twelve: written by the library; else the numbers were printed with all digits and only those below 1e-16 may vanish
static bool equal_ints(const ed::intgrls::integrals& r, const Ints& w, bool twelve, std::string* why) {
  auto ok = [&](double got, double want) { return twelve ? near12(got, want) : same(got, want) || (std::abs(want) < 1e-16 && got == 0); };
  size_t n = w.n;
  if(r.norbitals != (int64_t)n || r.t.size() != w.t.size() || r.u.size() != w.u.size()) { *why = "wrong sizes"; return false; }
  if(!(std::abs(w.core) < 1e-16 && r.core_energy == 0) && !(twelve ? std::abs(r.core_energy - w.core) <= 1e-11 * std::abs(w.core) : same(r.core_energy, w.core))) { *why = fmt("core energy %.17g instead of %.17g", r.core_energy, w.core); return false; }
  for(size_t i = 0; i < n; ++i) for(size_t a = 0; a < n; ++a) {
    if(!ok(r.t[w.T(i, a)], w.t[w.T(i, a)])) { *why = fmt("one-body (%zu,%zu) is %.17g instead of %.17g", i, a, r.t[w.T(i, a)], w.t[w.T(i, a)]); return false; }
    if(!ok(r.get(i, a), w.t[w.T(i, a)]) || !ok(r.get(i + n, a + n), w.t[w.T(i, a)]) || r.get(i, a + n) != 0) { *why = "one-body access by spin orbital"; return false; }
  }
  for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) for(size_t a = 0; a < n; ++a) for(size_t b = 0; b < n; ++b) {
    double v = w.u[w.U(i, j, a, b)];
    if(!ok(r.u[w.U(i, j, a, b)], v)) { *why = fmt("two-body (%zu %zu|%zu %zu) is %.17g instead of %.17g", i, a, j, b, r.u[w.U(i, j, a, b)], v); return false; }
    if(!ok(r.getChem(i, a, j + n, b + n), v) || !ok(r.getPhys(i, j + n, a, b + n), v) || r.getChem(i, a + n, j, b) != 0) { *why = "two-body access by spin orbital"; return false; }
  }
  return true;
}
static ed::intgrls::integrals read_ints(const std::string& f, size_t n, int how, bool* singles) {
  bool s = false;
  if(how == 0) return ed::intgrls::integrals(n, f);
  if(how == 1) { ed::intgrls::integrals r(n, f, s, true); *singles = s; return r; }
  ed::intgrls::integrals r(n);
  // a reader that already holds other data starts afresh
  r.t_store.insert({ed::intgrls::two_indx(0, 0), 77.});
  r.u_store.insert({ed::intgrls::four_indx(0, 0, 0, 0, true), 78.});
  r.core_energy = 79.;
  r.read_FCIdump(f);
  r.copy_to_vectors();
  return r;
}
static void run_dump_written() {
  Rng g = sim::data_rng("ints");
  size_t n = 1 + choose(flip(1, 4, "large") ? 6 : 3, "norb");
  Ints w = draw_ints(g, n), o = draw_ints(g, 1 + choose(4, "nold"));
  int how = (int)choose(3, "reader");
  note("integrals of %zu orbitals written and read", n);
  auto writer = [](const Ints& x, const std::string& f) {
    guarded([&] {
      ed::intgrls::integrals r(x.n, x.t, x.u);
      r.core_energy = x.core;
      r.write_FCIdump(f);
    });
  };
  iofx::Case c;
  c.truncation = false;
  c.scenarios = 3;
  c.write = [&](const std::string& f) { writer(w, f); };
  c.write_old = [&](const std::string& f) { writer(o, f); };
  c.read = [&](const std::string& f, std::string* why) {
    int v = 2;
    guarded([&] {
      bool s = true;
      auto r = read_ints(f, n, how, &s);
      v = equal_ints(r, w, true, why) ? 0 : o.n == n && equal_ints(r, o, true, why) ? 1 : 2;
    });
    return v;
  };
  probe("dump-written");
  iofx::run(c);
}
// One read of a given text under a plan. want: 0 must equal, 1 may be refused but not differ, 2 must be refused.
static void judge(const std::string& text, const simio::Plan& plan, int want, const char* when, const std::function<bool(const std::string&, std::string*)>& rd) {
  simio::spit("data", text);
  bool eq = false;
  std::string why;
  auto r = iofx::call([&] { guarded([&] { eq = rd(simio::path("data"), &why); }); }, plan);
  bool fired = simio::fired();
  simio::clear();
  if(r.crashed) fail("internal", "reader crashed");
  if(simio::open_files()) fail("fd-leak", "the reader left a file open");
  nontrivial();
  if(r.threw) {
    probe("reader-refused");
    if(want == 0 || (want == 1 && !fired)) fail("rejected", "%s: a complete file was refused: %s", when, r.error.c_str());
    return;
  }
  if(want == 2) fail("damage-accepted", "%s: the file was accepted", when);
  if(!eq) fail(fired ? "read-error-silent" : "altered", "%s: read as something else: %s", when, why.c_str());
}
// intact with hidden faults, or an I/O error while reading, or a missing file
static void judge_intact(const std::string& text, const char* what, const std::function<bool(const std::string&, std::string*)>& rd) {
  switch(choose(4, "readfault")) {
    case 0: judge(text, simio::Plan{}, 0, what, rd); break;
    case 1: judge(text, simio::draw_transparent(), 0, what, rd); break;
    case 2: judge(text, iofx::draw_read_fault(true), 1, what, rd); break;
    default: {
      bool eq = false; std::string why;
      auto r = iofx::call([&] { guarded([&] { eq = rd(simio::path("no-such-file"), &why); }); }, simio::Plan{});
      nontrivial();
      probe("missing-file");
      if(!r.threw) fail("missing-accepted", "%s: a missing file was accepted", what);
    }
  }
}
static std::string number(Rng& g, double v) {
  char b[64];
  snprintf(b, sizeof b, g.below(2) ? "%.17g" : "%.16e", v);
  if(strtod(b, nullptr) != v) snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static std::string gap(Rng& g) { return std::string(1 + g.below(4), g.below(6) ? ' ' : '\t'); }
struct Lines {
  std::vector<std::string> l;
  std::string text(bool final_newline) const {
    std::string s;
    for(size_t i = 0; i < l.size(); ++i) s += l[i] + (i + 1 < l.size() || final_newline ? "\n" : "");
    return s;
  }
};
static void run_dump_foreign() {
  Rng g = sim::data_rng("ints");
  size_t n = 1 + choose(3, "norb");
  Ints w = draw_ints(g, n);
  int how = (int)choose(3, "reader");
  bool zeros = g.below(2), energies = g.below(2);
  bool want_singles = true;
  struct E { int i, a, j, b; double v; };
  std::vector<E> e;
  auto put = [&](int i, int a, int j, int b, double v) {
    if(i > 0 && a > 0 && g.below(2)) std::swap(i, a);
    if(j > 0 && b > 0 && g.below(2)) std::swap(j, b);
    if(v != 0 || zeros) e.push_back({i, a, j, b, v});
  };
  if(w.core != 0) e.push_back({0, 0, 0, 0, w.core});
  for(size_t i = 0; i < n; ++i) for(size_t a = 0; a <= i; ++a) put(i + 1, a + 1, 0, 0, w.t[w.T(i, a)]);
  for(size_t i = 0; i < n; ++i) for(size_t a = 0; a <= i; ++a) for(size_t j = 0; j < n; ++j) for(size_t b = 0; b <= j; ++b) {
    double v = w.u[w.U(i, j, a, b)];
    put(i + 1, a + 1, j + 1, b + 1, v);
    if(std::abs(v) >= 1e-16 && i != a && j != b) want_singles = false;
  }
  if(energies) for(size_t i = 0; i < n; ++i) e.push_back({(int)i + 1, 0, 0, 0, g.sym()});
  for(size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[g.below(k)]);
  Lines L;
  for(auto& x : e) L.l.push_back((g.below(2) ? gap(g) : "") + std::to_string(x.i) + gap(g) + std::to_string(x.a) + gap(g) + std::to_string(x.j) + gap(g) + std::to_string(x.b) + gap(g) + number(g, x.v) + (g.below(4) ? "" : gap(g)));
  auto rd = [&](const std::string& f, std::string* why) {
    bool s = want_singles;
    auto r = read_ints(f, n, how, &s);
    if(!equal_ints(r, w, false, why)) return false;
    if(s != want_singles) { *why = "wrong answer about double excitations"; return false; }
    return true;
  };
  note("integral file of another program, %zu orbitals, %zu lines, reader %d", n, L.l.size(), how);
  if(!e.empty() && flip(1, 3, "damage")) {
    size_t at = choose((uint32_t)e.size(), "line");
    int kind = (int)choose(5, "kind");
    auto& x = e[at];
    std::string v = number(g, x.v);
    switch(kind) {
      case 0: L.l[at] = fmt("%d %d %d %d", x.i, x.a, x.j, x.b); break;             // value lost
      case 1: L.l[at] = fmt("%d %d %d %d x%s", x.i, x.a, x.j, x.b, v.c_str()); break; // not a number
      case 2: L.l[at] = fmt("%d ? %d %d %s", x.i, x.j, x.b, v.c_str()); break;       // not an index
      case 3: L.l[at] = fmt("%d %d 1 0 1.25", (int)choose(n, "i") + 1, (int)choose(n, "a") + 1); break;
      default: L.l[at] = fmt("0 %d 1 1 1.25", (int)choose(n, "a") + 1); break;
    }
    probe("damaged-entry");
    judge(L.text(g.below(2)), flip(1, 2, "faulty") ? simio::draw_transparent() : simio::Plan{}, 2, "a damaged entry", rd);
    return;
  }
  probe("dump-foreign");
  judge_intact(L.text(e.empty() || g.below(2)), "integral file", rd);
}

// -------------------------------------------------------- density matrices --
static void run_rdm() {
  Rng g = sim::data_rng("rdm");
  size_t n = 1 + choose(flip(1, 4, "large") ? 6 : 3, "norb");
  std::vector<double> d1(n * n), d2(n * n * n * n);
  for(auto* v : {&d1, &d2}) for(auto& x : *v) { if(g.below(5) == 0) { uint64_t b = g.next(); memcpy(&x, &b, 8); } else x = value(g, true); }
  auto make = [&](int nn) {
    std::string s((const char*)&nn, 4);
    s.append((const char*)d1.data(), 8 * d1.size());
    s.append((const char*)d2.data(), 8 * d2.size());
    return s;
  };
  bool ctor = flip(1, 2, "constructor");
  auto rd = [&](const std::string& f, std::string* why) {
    std::unique_ptr<ed::rdm::rdms> r;
    if(ctor) r.reset(new ed::rdm::rdms(n, f));
    else { r.reset(new ed::rdm::rdms(n)); for(auto& x : r->rdm1) x = 5; r->read_RDMs(f); }
    if(r->rdm1.size() != d1.size() || r->rdm2.size() != d2.size()) { *why = "wrong sizes"; return false; }
    if(memcmp(r->rdm1.data(), d1.data(), 8 * d1.size())) { *why = "one-body values differ"; return false; }
    if(memcmp(r->rdm2.data(), d2.data(), 8 * d2.size())) { *why = "two-body values differ"; return false; }
    return true;
  };
  note("density matrices of %zu orbitals", n);
  std::string full = make((int)n);
  switch(choose(4, "rdmcase")) {
    case 0: {
      int other = (int)n + 1 + (int)choose(3, "other");
      if(flip(1, 2, "fewer") && n > 1) other = (int)choose(n - 1, "other") + 1;
      probe("other-orbital-count");
      judge(make(other), simio::draw_transparent(), 2, "a file for another orbital count", rd);
      return;
    }
    case 1: {
      probe("cut-file");
      sim::fault("io.truncated-file");
      judge(full.substr(0, iofx::draw_cut(full)), flip(1, 2, "faulty") ? simio::draw_transparent() : simio::Plan{}, 2, "a cut file", rd);
      return;
    }
    default: probe("rdm-file"); judge_intact(full, "density-matrix file", rd);
  }
}

// --------------------------------------------------------- sparse matrices --
static void run_mat() {
  Rng g = sim::data_rng("mat");
  int n = 1 + (int)choose(8, "n");
  int dens = 1 + (int)g.below(10);
  Lines L;
  struct E { int r, c; double v; };
  std::vector<E> e;
  for(int r = 0; r < n; ++r) for(int c = 0; c <= r; ++c) if((int)g.below(10) < dens) { double v = value(g, false); e.push_back(g.below(2) ? E{r, c, v} : E{c, r, v}); }
  if(g.below(4) == 0 && !e.empty()) e.push_back(e[g.below(e.size())]);     // repeated entries add up
  for(size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[g.below(k)]);
  std::vector<double> want(n * n, 0.), mag(n * n, 0.);
  for(auto& x : e) { want[x.r * n + x.c] += x.v; if(x.r != x.c) want[x.c * n + x.r] += x.v; mag[x.r * n + x.c] += std::abs(x.v); if(x.r != x.c) mag[x.c * n + x.r] += std::abs(x.v); }
  int rows = n;
  L.l.push_back(fmt("%d %d %zu", n, n, e.size()));
  for(auto& x : e) L.l.push_back((g.below(3) ? "" : gap(g)) + std::to_string(x.r) + gap(g) + std::to_string(x.c) + gap(g) + number(g, x.v));
  auto rd = [&](const std::string& f, std::string* why) {
    if(sim::flip(1, 2, "size")) {
      size_t s = ed::ReadMatSize(f);
      if(s == 0) throw Refused("no size");
      if(s != (size_t)n) { *why = fmt("size %zu instead of %d", s, n); return false; }
    }
    ed::SpMatD m(rows, rows);
    if(rows && sim::flip(1, 2, "used")) m.coeffRef(0, 0) = 4.5;     // holds something already
    if(!ed::ReadMat(f, m)) throw Refused("false");
    if(m.rows() != n || m.cols() != n) { *why = "wrong dimensions"; return false; }
    for(int r = 0; r < n; ++r) for(int c = 0; c < n; ++c) {
      double v = m.coeff(r, c);
      if(!(std::abs(v - want[r * n + c]) <= 1e-15 * mag[r * n + c])) { *why = fmt("(%d,%d) is %.17g instead of %.17g", r, c, v, want[r * n + c]); return false; }
    }
    return true;
  };
  note("matrix file %d x %d, %zu entries", n, n, e.size());
  if(flip(1, 2, "damage")) {
    int kind = (int)choose(e.empty() ? 3 : 9, "kind");
    size_t at = e.empty() ? 1 : 1 + choose((uint32_t)e.size(), "line");
    switch(kind) {
      case 0: rows = n + 1; break;                                            // matrix of another size
      case 1: L.l.push_back(fmt("%d %d 1.5", (int)choose(n, "r"), (int)choose(n, "c"))); break;
      case 2: L.l[0] = flip(1, 2, "empty") ? "" : fmt("%d %d", n, n); break;
      case 3: L.l.erase(L.l.begin() + at); break;
      case 4: L.l[at] = fmt("%d %d", e[at - 1].r, e[at - 1].c); break;
      case 5: L.l[at] = fmt("%d %d %s", n + (int)choose(3, "off"), e[at - 1].c, "1.5"); break;
      case 6: L.l[at] = fmt("%d %d %s", e[at - 1].r, -1 - (int)choose(2, "off"), "1.5"); break;
      case 7: L.l[at] = fmt("%d %d nonsense", e[at - 1].r, e[at - 1].c); break;
      default: {
        std::string s = L.text(true), t;
        // a cut before the last number is complete: only inside the digits of the very last number it cannot be seen
        size_t c = s.size() - L.l.back().size() - 1;
        c = choose((uint32_t)c + 1, "cut");
        probe("cut-file");
        sim::fault("io.truncated-file");
        judge(s.substr(0, c), simio::draw_transparent(), 2, "a cut matrix file", rd);
        return;
      }
    }
    probe("damaged-entry");
    judge(L.text(g.below(2)), flip(1, 2, "faulty") ? simio::draw_transparent() : simio::Plan{}, 2, "a damaged matrix file", rd);
    return;
  }
  if(g.below(4) == 0) L.l.push_back("");
  probe("matrix-file");
  judge_intact(L.text(e.empty() || g.below(2)), "matrix file", rd);
}

// ------------------------------------------------------------------ vectors --
template <class V> static void vec_case(Rng& g) {
  int n = (int)choose(flip(1, 6, "large") ? 3000 : 12, "n");
  std::vector<double> want(n);
  for(auto& x : want) x = value(g, false);
  Lines L;
  L.l.push_back(std::to_string(n));
  bool oneline = g.below(3) == 0;
  for(auto& x : want) { if(oneline) L.l.back() += gap(g) + number(g, x); else L.l.push_back(number(g, x)); }
  int old = (int)g.below(20);
  auto rd = [&](const std::string& f, std::string* why) {
    V v;
    v.resize(old);
    for(int i = 0; i < old; ++i) v[i] = 3.5;
    if(!ed::ReadVec(f, v)) throw Refused("false");
    if((int)v.size() != n) { *why = fmt("%d values instead of %d", (int)v.size(), n); return false; }
    for(int i = 0; i < n; ++i) if(std::complex<double>(v[i]) != std::complex<double>(want[i], 0)) { *why = fmt("value %d differs", i); return false; }
    return true;
  };
  note("vector file of %d values", n);
  if(flip(1, 2, "damage")) {
    int kind = (int)choose(n > 1 ? 5 : 3, "kind");
    std::string s;
    switch(kind) {
      case 0: L.l.push_back("1.5"); s = L.text(g.below(2)); break;             // more values than announced
      case 1: s = ""; break;
      case 2: s = "x" + L.text(true); break;
      case 3: { std::string full = L.text(true); size_t e = full.find_last_not_of(" \n"); size_t b = full.find_last_of(" \t\n", e);
                size_t c = choose((uint32_t)b + 1, "cut"); s = full.substr(0, c); probe("cut-file"); sim::fault("io.truncated-file");
                // inside the digits of the announced length a cut may leave a shorter complete file
                if(c < std::to_string(n).size()) s = "";
                break; }
      default: { size_t k = 1 + choose(n, "k"); Lines M; M.l.push_back(std::to_string(n)); for(int i = 0; i < n; ++i) M.l.push_back(i + 1 == (int)k ? "nonsense" : number(g, want[i])); s = M.text(g.below(2)); }
    }
    probe("damaged-entry");
    judge(s, flip(1, 2, "faulty") ? simio::draw_transparent() : simio::Plan{}, 2, "a damaged vector file", rd);
    return;
  }
  probe("vector-file");
  judge_intact(L.text(g.below(2)), "vector file", rd);
}

// ------------------------------------------------------------------- input --
static void run_input() {
  Rng g = sim::data_rng("input");
  std::map<std::string, std::string> want;
  Lines L;
  static const char* names[] = {"norbs", "nups", "print", "fcidump_file", "x", "Lantol", "orbs", "flags", "E0tol", "a-long-key-name"};
  int k = (int)choose(10, "keys");
  std::vector<int> ord{0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
  for(size_t q = 10; q > 1; --q) std::swap(ord[q - 1], ord[g.below(q)]);
  std::map<std::string, int> ints; std::map<std::string, double> dbl; std::map<std::string, bool> bools;
  std::map<std::string, std::vector<int>> iv; std::map<std::string, std::vector<double>> dv; std::map<std::string, std::vector<bool>> bv;
  std::string dup;
  for(int q = 0; q < k; ++q) {
    std::string key = names[ord[q]], val;
    switch(g.below(8)) {
      case 0: { int v = (int)g.next() >> (g.below(31)); ints[key] = v; val = std::to_string(v); break; }
      case 1: { double v = value(g, true); if(v != 0 && std::abs(v) < 1e-290) v = 0; dbl[key] = v; val = number(g, v); break; }
      case 2: { bool v = g.below(2); bools[key] = v; val = v ? "T" : "F"; break; }
      case 3: { for(uint32_t i = 1 + g.below(6); i; --i) { int v = (int)g.below(200) - 100; iv[key].push_back(v); val += (val.empty() ? "" : gap(g)) + std::to_string(v); } break; }
      case 4: { for(uint32_t i = 1 + g.below(6); i; --i) { double v = value(g, false); if(std::abs(v) < 1e-290) v = 0; dv[key].push_back(v); val += (val.empty() ? "" : gap(g)) + number(g, v); } break; }
      case 5: { for(uint32_t i = 1 + g.below(6); i; --i) { bool v = g.below(2); bv[key].push_back(v); val += std::string(val.empty() ? "" : " ") + (v ? "T" : "F"); } break; }
      case 6: val = g.below(2) ? "/some path/with blanks" : "word # not a comment"; break;
      default: val = "";                                   // a key without a value
    }
    want[key] = val;
    if(g.below(3) == 0) L.l.push_back(g.below(2) ? "" : std::string(1, "#!%"[g.below(3)]) + " norbs 999");
    L.l.push_back((g.below(4) ? "" : gap(g)) + key + (val.empty() ? "" : gap(g) + val));
    dup = key;
  }
  if(g.below(3) == 0) L.l.push_back(g.below(2) ? "" : "   ");
  ed::Input_t pre;
  if(g.below(4) == 0) pre["preset"] = want["preset"] = "7";
  auto rd = [&](const std::string& f, std::string* why) {
    ed::Input_t in = pre;
    if(!ed::ReadInput(f, in)) throw Refused("false");
    if(in != want) {
      *why = "other parameters";
      for(auto& [a, b] : want) if(!in.count(a)) *why = "parameter " + a + " missing"; else if(in[a] != b) *why = "parameter " + a + " is '" + in[a] + "' instead of '" + b + "'";
      return false;
    }
    auto bad = [&](const std::string& key) { *why = "value of " + key + " converted wrongly"; return false; };
    for(auto& [a, b] : ints) if(ed::getParam<int>(in, a) != b) return bad(a);
    for(auto& [a, b] : dbl) if(ed::getParam<double>(in, a) != b) return bad(a);
    for(auto& [a, b] : bools) if(ed::getParam<bool>(in, a) != b) return bad(a);
    for(auto& [a, b] : iv) if(ed::getParam<ed::VecInt>(in, a) != b) return bad(a);
    for(auto& [a, b] : dv) if(ed::getParam<ed::VecD>(in, a) != b) return bad(a);
    for(auto& [a, b] : bv) if(ed::getParam<std::vector<bool>>(in, a) != b) return bad(a);
    for(auto& [a, b] : want) if(ed::getParam<std::string>(in, a) != b) return bad(a);
    bool threw = false;
    try { ed::getParam<int>(in, "not there"); } catch(...) { threw = true; }
    if(!threw) { *why = "an absent parameter has a value"; return false; }
    return true;
  };
  note("input file of %d parameters", k);
  if(k && flip(1, 6, "twice")) {
    L.l.insert(L.l.begin() + choose((uint32_t)L.l.size() + 1, "where"), dup + " 12");
    probe("key-twice");
    judge(L.text(g.below(2)), simio::draw_transparent(), 2, "a key given twice", rd);
    return;
  }
  probe("input-file");
  judge_intact(L.text(L.l.empty() || L.l.back().empty() || g.below(2)), "input file", rd);
}

void harness_run() {
  switch(choose(6, "format")) {
    case 0: run_dump_written(); break;
    case 1: run_dump_foreign(); break;
    case 2: run_rdm(); break;
    case 3: run_mat(); break;
    case 4: { Rng g = sim::data_rng("vec"); if(flip(1, 2, "complex")) vec_case<Eigen::VectorXcd>(g); else vec_case<ed::VecD>(g); break; }
    default: run_input();
  }
}
