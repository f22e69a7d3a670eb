// C21: whole calculations of the driver program, interrupted and restarted.
#include <cstdint>
#include <spdlog/spdlog.h>
#include <cmath>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
#include <iostream>
#include <sstream>
#include "simmpi.hpp"
#include "iofx.hpp"
#include "ci.hpp"
#include "eig.hpp"
const char* const harness_property = "C21";
extern "C" int driver_main(int, char**);
using namespace sim;

namespace {
struct Registry { std::map<std::string, std::shared_ptr<spdlog::logger>> l; std::vector<simlog::Line> lines; };
std::map<int, Registry>& registries() { static std::map<int, Registry> r; return r; }
}  // namespace
int simlog::process() { return simmpi::world_rank(); }
std::vector<simlog::Line>& simlog::lines(int p) { return registries()[p].lines; }
void simlog::reset() { registries().clear(); }
std::shared_ptr<spdlog::logger> spdlog::get(const std::string& n) {
  auto& r = registries()[simlog::process()].l;
  auto it = r.find(n);
  return it == r.end() ? nullptr : it->second;
}
std::shared_ptr<spdlog::logger> spdlog::sim_register(const std::string& n, bool null) {
  auto& r = registries()[simlog::process()].l;
  if(r.count(n)) throw spdlog_ex("logger with name '" + n + "' already exists");
  return r[n] = std::make_shared<logger>(n, null);
}
void harness_init() { iofx::quiet(); }

// --- files the program is given -----------------------------------------------------------------
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
static std::string integrals_text(const ci::Ints& I, double core) {
  std::string s;
  int n = I.n;
  auto line = [&](double v, int p, int q, int r, int t) { char b[120]; snprintf(b, 120, "%4d %4d %4d %4d %25.17e\n", p, q, r, t, v); s += b; };
  auto pair = [](int a, int b) { return a * (a + 1) / 2 + b; };
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) for(int r = 0; r <= p; ++r) for(int t = 0; t <= r; ++t)
    if(pair(r, t) <= pair(p, q) && I.v(p, q, r, t) != 0) line(I.v(p, q, r, t), p + 1, q + 1, r + 1, t + 1);
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) line(I.t(p, q), p + 1, q + 1, 0, 0);
  line(core, 0, 0, 0, 0);
  return s;
}
// Independent readers.
static bool parse_integrals(const std::string& text, int n, ci::Ints* I, double* core, std::string* why) {
  I->n = n;
  I->T.assign((size_t)n * n, 0);
  I->V.assign((size_t)n * n * n * n, 0);
  std::vector<char> seen(I->T.size() + I->V.size() + 1, 0);
  std::istringstream in(text);
  std::string l;
  while(std::getline(in, l)) {
    int p, q, r, s, used = 0; double v;
    if(sscanf(l.c_str(), "%d %d %d %d %lf %n", &p, &q, &r, &s, &v, &used) != 5 || used != (int)l.size()) { *why = "bad line: " + l.substr(0, 60); return false; }
    if(p < 0 || q < 0 || r < 0 || s < 0 || p > n || q > n || r > n || s > n) { *why = "index out of range: " + l.substr(0, 60); return false; }
    if(p == 0) { *core = v; seen.back() = 1; }
    else if(r == 0) { size_t k = p - 1 + (size_t)(q - 1) * n; I->T[k] = v; seen[k] = 1; }
    else { size_t k = p - 1 + n * (q - 1 + (size_t)n * (r - 1 + (size_t)n * (s - 1))); I->V[k] = v; seen[I->T.size() + k] = 1; }
  }
  for(char c : seen) if(!c) { *why = "elements are missing"; return false; }
  return true;
}
struct Wfn { std::vector<ci::Det> d; std::vector<double> c; };
static bool parse_wfn(const std::string& text, int norb, Wfn* w, std::string* why) {
  std::istringstream in(text);
  std::string l;
  size_t n, no, a, b;
  if(!std::getline(in, l) || sscanf(l.c_str(), "%zu %zu %zu %zu", &n, &no, &a, &b) != 4) { *why = "bad header"; return false; }
  if((int)no != norb) { *why = "header with another number of orbitals"; return false; }
  *w = Wfn();
  while(std::getline(in, l)) {
    double c; char o[200]; int used = 0;
    if(sscanf(l.c_str(), "%lf %199s %n", &c, o, &used) != 2 || used != (int)l.size()) { *why = "bad line: " + l.substr(0, 60); return false; }
    ci::Det d;
    size_t len = strlen(o);
    if((int)len < norb) { *why = "short determinant"; return false; }
    for(size_t i = 0; i < len; ++i) {
      if(o[i] == '0') continue;
      if((int)i >= norb || !strchr("2ud", o[i])) { *why = "bad determinant"; return false; }
      if(o[i] != 'd') d.a |= 1ull << i;
      if(o[i] != 'u') d.b |= 1ull << i;
    }
    if((size_t)__builtin_popcountll(d.a) != a || (size_t)__builtin_popcountll(d.b) != b) { *why = "determinant with another number of electrons than the header"; return false; }
    w->d.push_back(d);
    w->c.push_back(c);
  }
  if(w->d.size() != n) { *why = "number of determinants differs from the header"; return false; }
  return true;
}
// --- reference model ----------------------------------------------------------------------------
struct Problem {
  ci::Ints I;
  double core;
  int n, ni, nact, ne;               // orbitals, inactive, active, active electron pairs
  Dense H, Z;                        // in the active space (core electrons included)
  std::vector<ci::Det> dets;
  std::vector<double> w;
  double fci, scale;
  bool signs = false;                // orbitals are known up to their signs
  bool full() const { return ni == 0 && nact == n; }
  ci::Det embed(const ci::Det& d) const { uint64_t c = (1ull << ni) - 1; return {c | d.a << ni, c | d.b << ni}; }
};
// sum C_i H_ij C_j; where the signs of the orbitals are free, the value closest to that expected
static double rayleigh(const Problem& p, const Wfn& w, double expected) {
  std::vector<ci::Det> d;
  for(auto& x : w.d) d.push_back(p.embed(x));
  Dense H = ci::dense_h(p.I, d);
  double best = 0;
  for(uint64_t m = 0; m < (p.signs ? 1ull << p.nact : 1); ++m) {
    auto c = [&](size_t i) { return (__builtin_popcountll(w.d[i].a & m) + __builtin_popcountll(w.d[i].b & m)) & 1 ? -w.c[i] : w.c[i]; };
    long double e = 0;
    for(size_t i = 0; i < d.size(); ++i) for(size_t j = 0; j < d.size(); ++j) e += (long double)c(i) * H[i][j] * c(j);
    if(m == 0 || std::fabs((double)e - expected) < std::fabs(best - expected)) best = (double)e;
  }
  return best;
}
static void solve(Problem& p) {
  uint64_t c = (1ull << p.ni) - 1;
  p.dets.clear();
  for(auto a : ci::strings(p.nact, p.ne)) for(auto b : ci::strings(p.nact, p.ne)) p.dets.push_back({c | a << p.ni, c | b << p.ni});
  p.H = ci::dense_h(p.I, p.dets);
  p.w = ci::eigen(p.H, &p.Z);
}
// Natural orbitals of the second-order density, from its definition. False where they are not well defined.
static bool mp2_orbitals(const Problem& p, Problem* q) {
  int n = p.n, no = p.ni + p.ne;
  const ci::Ints& I = p.I;
  std::vector<long double> eps(n);
  for(int k = 0; k < n; ++k) {
    eps[k] = I.t(k, k);
    for(int i = 0; i < no; ++i) eps[k] += 2 * (long double)I.v(k, k, i, i) - I.v(k, i, i, k);
  }
  auto gap = [&](int i, int j, int a, int b) { return eps[i] + eps[j] - eps[a] - eps[b]; };
  for(int i = 0; i < no; ++i) for(int j = 0; j < no; ++j) for(int a = no; a < n; ++a) for(int b = no; b < n; ++b) if(std::fabs((double)gap(i, j, a, b)) < 0.05) return false;
  auto amp = [&](int i, int j, int a, int b) { return (long double)I.v(i, a, j, b) / gap(i, j, a, b); };
  Dense D(n, std::vector<double>(n, 0)), U;
  for(int i = 0; i < no; ++i) for(int j = 0; j < no; ++j) {
    long double t = 0;
    for(int k = 0; k < no; ++k) for(int a = no; a < n; ++a) for(int b = no; b < n; ++b) t += amp(i, k, a, b) * (2 * amp(j, k, a, b) - amp(j, k, b, a));
    D[i][j] = (double)(2 * t) - (i == j ? 2 : 0);
  }
  for(int a = no; a < n; ++a) for(int b = no; b < n; ++b) {
    long double t = 0;
    for(int i = 0; i < no; ++i) for(int j = 0; j < no; ++j) for(int c = no; c < n; ++c) t += amp(i, j, c, a) * (2 * amp(i, j, c, b) - amp(i, j, b, c));
    D[a][b] = -(double)(2 * t);
  }
  auto occ = ci::eigen(D, &U);     // of the negated density: decreasing occupation
  for(int k = 1; k < n; ++k) if(occ[k] - occ[k - 1] < 1e-5) return false;
  *q = p;
  q->signs = true;
  for(int x = 0; x < n; ++x) for(int y = 0; y < n; ++y) {
    long double t = 0;
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) t += (long double)U[i][x] * U[j][y] * I.t(i, j);
    q->I.T[x + (size_t)y * n] = (double)t;
  }
  std::vector<long double> A(I.V.begin(), I.V.end()), B(A.size());
  for(int pass = 0; pass < 4; ++pass) {      // the first index is transformed and moved to the end
    size_t m = A.size() / n;
    for(size_t r = 0; r < m; ++r) for(int x = 0; x < n; ++x) {
      long double t = 0;
      for(int i = 0; i < n; ++i) t += U[i][x] * A[i + r * n];
      B[r + x * m] = t;
    }
    std::swap(A, B);
  }
  q->I.V.assign(A.begin(), A.end());
  solve(*q);
  return true;
}
static Problem draw_problem() {
  Problem p;
  p.n = flip(1, 4, "small") ? range(1, 3, "n") : range(3, 5, "n");
  bool all = flip(1, 2, "full");
  p.ni = all ? 0 : (int)choose(std::min(p.n, 3), "ni");
  p.nact = all ? p.n : 1 + (int)choose(p.n - p.ni, "nact");
  p.ne = flip(1, 10, "extreme") ? (int)choose(p.nact + 1, "ne") : p.nact / 2 + (int)choose(2, "ne");
  if(p.ne > p.nact) p.ne = p.nact;
  Rng g = data_rng("ints");
  ci::IntOpt o;
  o.dominant = true;
  o.vscale = g.below(2) ? 0.1 : 0.25;
  o.tscale = g.below(2) ? 0.05 : 0.2;
  p.I = ci::random_ints(p.n, g, o);
  p.core = g.below(2) ? g.sym() * 3 : 0;
  solve(p);
  p.fci = p.full() ? p.w[0] : ci::eigen(ci::dense_h(p.I, ci::sector(p.n, p.ni + p.ne, p.ni + p.ne)))[0];
  p.scale = 1;
  for(double x : p.w) p.scale = std::max(p.scale, std::fabs(x));
  return p;
}
// --- one run of the program ---------------------------------------------------------------------
enum Kind { CAS, ASCI, MCSCF };
struct Settings {
  int kind = CAS;
  bool mp2 = false, rot = false, refine = true, diis = true, fci_out = false, prints = false;
  size_t ntmin = 4, ntmax = 10, nc = 100, macro = 5;
  int clevel = 2, grow = 8;
  std::string wfn_in, wfn_out, rdm;
};
static std::string input_text(const Problem& p, const Settings& s) {
  std::string t = "# generated\n[CI]\nFCIDUMP = " + simio::path("ints") + "\nNALPHA = " + std::to_string(p.ne) + "\nNBETA = " + std::to_string(p.ne) + "\nJOB = " + (s.kind == MCSCF ? "MCSCF" : "CI") + "\nEXPANSION = " + (s.kind == ASCI ? "ASCI" : "CAS") + "\n";
  if(p.ni) t += "NINACTIVE = " + std::to_string(p.ni) + "\n";
  if(p.ni + p.nact != p.n) t += "NACTIVE = " + std::to_string(p.nact) + "\n";
  if(s.fci_out) t += "FCIDUMP_OUT = " + simio::path("ints.out") + "\n";
  if(s.rdm.size()) t += "RDMFILE = " + simio::path(s.rdm) + "\n";
  t += "\n[MCSCF]\nCI_RES_TOL = 1e-9\nCI_MATEL_TOL = 1e-14\nCI_MAX_SUB = " + std::to_string(p.dets.size() + 40) + "\nMAX_MACRO_ITER = " + std::to_string(s.macro) + "\n";
  if(!s.diis) t += "ENABLE_DIIS = FALSE\n";
  if(s.mp2) t += "MP2_GUESS = TRUE\n";
  if(s.kind == ASCI) {
    t += "\n[ASCI]\nNTDETS_MAX = " + std::to_string(s.ntmax) + "\nNTDETS_MIN = " + std::to_string(s.ntmin) + "\nNCDETS_MAX = " + std::to_string(s.nc) + "\nGROW_FACTOR = " + std::to_string(s.grow) + "\nPAIR_MAX_LIM = 1000\nCONSTRAINT_LVL = " + std::to_string(s.clevel) + "\n";
    t += "HAM_EL_TOL = 1e-12\nRV_PRUNE_TOL = 1e-14\nREFINE_ETOL = 1e-6\nMAX_REFINE_ITER = " + std::string(s.refine ? "6" : "0") + "\n";
    if(s.rot) t += "GROW_WITH_ROT = TRUE\nROT_SIZE_START = 2\n";
    if(s.wfn_in.size()) t += "WFN_FILE = " + simio::path(s.wfn_in) + "\n";
    if(s.wfn_out.size()) t += "WFN_OUT_FILE = " + simio::path(s.wfn_out) + "\n";
  }
  if(s.prints) t += "\n[PRINT]\nDAVIDSON = TRUE\nCI = TRUE\nDIIS = TRUE\nASCI_SEARCH = TRUE\n";
  return t;
}
struct Outcome { bool killed = false; std::string error; int error_rank = -1; std::vector<simlog::Line> log; bool fired = false; bool done() const { return !killed && error.empty(); } };
static bool logged(const Outcome& o, const char* logger, const char* key, double* v) {
  for(auto& l : o.log)
    if(l.logger == logger) { auto at = l.text.find(key); if(at != std::string::npos) { *v = strtod(l.text.c_str() + at + strlen(key), nullptr); return true; } }
  return false;
}
static Outcome run_program(int P, const std::string& input, bool may_die) {
  simlog::reset();
  // The option file belongs to the test suite's parser: it is handed over outside the simulated disk.
  int fd = memfd_create("input", 0);
  if(fd < 0 || pwrite(fd, input.data(), input.size(), 0) != (ssize_t)input.size()) fail("internal", "option file");
  Outcome o;
  simmpi::JobOptions jo;
  jo.comm_kind = 0;
  jo.allow_crash = may_die;
  jo.max_steps = 4000000;
  std::string in = "/proc/self/fd/" + std::to_string(fd);
  auto r = simmpi::run_job(P, [&](int me, MPI_Comm c) {
    std::string err;
    std::string a0 = "macis", a1 = in;
    char* argv[] = {&a0[0], &a1[0], nullptr};
    try { driver_main(2, argv); }
    catch(const std::exception& e) { err = std::string("exception: ") + e.what(); }
    if(err.size()) {                 // an uncaught exception ends the process, and the launcher ends the job
      o.error = err;
      o.error_rank = me;
      MPI_Abort(c, 1);
    }
  }, jo);
  o.fired = simio::fired();
  simio::clear();
  close(fd);
  o.killed = r.crashed && o.error.empty();
  for(size_t k = 0; k < r.errors.size(); ++k) if(!r.errors[k].empty() && o.error.empty()) { o.error = r.errors[k]; o.error_rank = (int)k; }
  o.log = simlog::lines(0);
  if(o.done()) {
    simmpi::check_clean();
    if(simio::open_files()) fail("fd-leak", "the program left a file open");
    for(int k = 1; k < P; ++k) for(auto& l : simlog::lines(k)) if(l.logger == "standalone_driver") fail("console", "process %d wrote to the console: %s", k, l.text.c_str());
  }
  simio::process_gone();
  return o;
}
static bool expected_refusal(const Outcome& o, const Settings& s) {
  if(s.kind != ASCI) return false;
  return o.error.find("didn't grow enough") != std::string::npos || o.error.find("did not converge") != std::string::npos;
}
// What a run that ended normally has to have left behind.
static void judge_success(const Problem& p, const Settings& s, const Outcome& o, int P, const char* when, double* energy) {
  double E;
  if(!logged(o, "standalone_driver", "E(CI)  = ", &E)) fail("no-result", "%s: the program ended normally without reporting an energy", when);
  if(!std::isfinite(E)) fail("not-finite", "%s: the reported energy is %g", when, E);
  *energy = E;
  double e = E - p.core, tol = 1e-7 * p.scale;
  bool known = !s.mp2 || p.signs, same_orbitals = known || p.full();
  if(e < p.fci - tol) fail("below-exact", "%s P=%d: the energy %.12g is below the exact %.12g", when, P, e, p.fci);
  if(s.kind == CAS && same_orbitals) {
    size_t hit = 0, k = 0, ties = 0;
    for(size_t i = 1; i < p.w.size(); ++i) if(std::fabs(p.w[i] - e) < std::fabs(p.w[hit] - e)) hit = i;
    if(std::fabs(p.w[hit] - e) > tol) fail("energy", "%s P=%d: %.12g is not an eigenvalue, the lowest is %.12g", when, P, e, p.w[0]);
    for(size_t i = 1; i < p.w.size(); ++i) if(p.H[i][i] < p.H[k][k]) k = i;
    for(size_t i = 0; i < p.w.size(); ++i) ties += std::fabs(p.H[i][i] - p.H[k][k]) < 1e-9;
    if(known && ties == 1 && std::fabs(p.Z[k][0]) > 0.85 && e > p.w[0] + tol) fail("not-lowest", "%s P=%d: energy %.12g, the lowest is %.12g", when, P, e, p.w[0]);
  }
  if(s.kind == ASCI && same_orbitals && e < p.w[0] - tol) fail("below-exact", "%s P=%d: the energy %.12g is below the lowest %.12g of the active space", when, P, e, p.w[0]);
  if(s.kind == MCSCF && (s.macro == 0 || p.full()) && same_orbitals && std::fabs(e - p.w[0]) > tol && s.rdm.empty()) {
    bool eig = false;
    for(double x : p.w) eig |= std::fabs(x - e) < tol;
    if(!eig) fail("start-energy", "%s P=%d: without a step the energy is %.12g, should be %.12g", when, P, e, p.w[0]);
  }
  if(s.kind == ASCI && s.wfn_out.size()) {
    Wfn w;
    std::string why;
    if(!simio::exists(s.wfn_out)) fail("output-missing", "%s: the program ended normally without writing the wavefunction", when);
    if(!parse_wfn(simio::slurp(s.wfn_out), p.nact, &w, &why)) fail("output-damaged", "%s: the wavefunction on disk is damaged: %s", when, why.c_str());
    std::set<ci::Det> u(w.d.begin(), w.d.end());
    if(u.size() != w.d.size()) fail("output-wrong", "%s: the wavefunction on disk repeats a determinant", when);
    double nn = 0;
    for(double x : w.c) nn += x * x;
    if(std::fabs(nn - 1) > 1e-8) fail("output-wrong", "%s: the wavefunction on disk has the norm %.12g", when, nn);
    for(auto& d : w.d) if(__builtin_popcountll(d.a) != p.ne || __builtin_popcountll(d.b) != p.ne) fail("output-wrong", "%s: a determinant on disk has other electron numbers", when);
    if(!s.rot && known) {
      double q = rayleigh(p, w, e);
      if(std::fabs(q - e) > tol) fail("output-wrong", "%s P=%d: the wavefunction on disk has the energy %.12g, the program reported %.12g", when, P, q, e);
    }
    if(s.wfn_in.empty() && w.d.size() != s.ntmax) fail("output-wrong", "%s: %zu determinants on disk instead of %zu", when, w.d.size(), s.ntmax);
  }
  if(s.fci_out) {
    ci::Ints J;
    double core = 0;
    std::string why;
    if(!simio::exists("ints.out")) fail("output-missing", "%s: the program ended normally without writing the integrals", when);
    if(!parse_integrals(simio::slurp("ints.out"), p.n, &J, &core, &why)) fail("output-damaged", "%s: the integrals on disk are damaged: %s", when, why.c_str());
    if(core != p.core) fail("output-wrong", "%s: the core energy on disk is %.17g instead of %.17g", when, core, p.core);
    if(!s.mp2) {
      if(J.T != p.I.T || J.V != p.I.V) fail("output-wrong", "%s: the integrals on disk are not those of the calculation", when);
    } else {
      double x = ci::eigen(ci::dense_h(J, ci::sector(p.n, p.ni + p.ne, p.ni + p.ne)))[0];
      if(known) for(size_t k = 0; k < J.T.size() + J.V.size(); ++k) {
        double got = k < J.T.size() ? J.T[k] : J.V[k - J.T.size()], want = k < J.T.size() ? p.I.T[k] : p.I.V[k - J.T.size()];
        if(!(std::fabs(std::fabs(got) - std::fabs(want)) < 1e-8)) fail("output-wrong", "%s: element %zu of the rotated integrals on disk is %.12g, should be (up to sign) %.12g", when, k, got, want);
      }
      if(std::fabs(x - p.fci) > 1e-8 * p.scale) fail("output-wrong", "%s: the rotated integrals on disk have the ground state %.12g instead of %.12g", when, x, p.fci);
    }
  }
}
static void binary_rdms(const Problem& p, double* energy) {
  // density matrices of the active ground state over all orbitals, from the definition
  int n = p.n;
  std::vector<double> D((size_t)n * n, 0), G((size_t)n * n * n * n, 0);
  std::map<ci::Det, double> c;
  for(size_t i = 0; i < p.dets.size(); ++i) { const auto& d = p.dets[i]; c[{d.a >> p.ni, d.b >> p.ni}] = p.Z[i][0]; }
  auto amp = [&](uint64_t w) { auto it = c.find(ci::Det{(uint32_t)w, (uint32_t)(w >> 32)}); return it == c.end() ? 0.0 : it->second; };
  int m = p.nact, o = p.ni;
  for(auto& [d, cd] : c) {
    uint64_t w0 = d.a | (uint64_t)d.b << 32;
    for(int sp = 0; sp < 64; sp += 32)
      for(int q = 0; q < m; ++q) {
        uint64_t w1 = w0; int s1 = 1;
        if(!ci::annihilate(w1, q + sp, s1)) continue;
        for(int x = 0; x < m; ++x) { uint64_t w = w1; int s = s1; if(ci::create(w, x + sp, s)) D[o + x + (size_t)(o + q) * n] += s * cd * amp(w); }
        for(int sq = 0; sq < 64; sq += 32)
          for(int s_ = 0; s_ < m; ++s_) {
            uint64_t w2 = w1; int s2 = s1;
            if(!ci::annihilate(w2, s_ + sq, s2)) continue;
            for(int r = 0; r < m; ++r) {
              uint64_t w3 = w2; int s3 = s2;
              if(!ci::create(w3, r + sq, s3)) continue;
              for(int x = 0; x < m; ++x) {
                uint64_t w4 = w3; int s4 = s3;
                if(ci::create(w4, x + sp, s4)) G[o + x + n * (o + q + (size_t)n * (o + r + (size_t)n * (o + s_)))] += 0.5 * s4 * cd * amp(w4);
              }
            }
          }
      }
  }
  for(int i = 0; i < o; ++i) D[i + (size_t)i * n] = 2;   // what lies outside the active block is not used
  std::string s((const char*)&n, 4);
  s.append((const char*)D.data(), D.size() * 8);
  s.append((const char*)G.data(), G.size() * 8);
  simio::spit("rdms", s);
  *energy = p.w[0];
}
void harness_run() {
  simmpi::clock_faults(true);
  Problem p = draw_problem();
  Settings s;
  s.kind = (int)choose(3, "kind");
  int P = flip(1, 6, "bigP") ? range(1, 8, "P") : range(1, 4, "P");
  s.fci_out = flip(1, 2, "fci_out");
  s.prints = flip(1, 4, "prints");
  s.mp2 = p.ne > 0 && p.ni + p.ne < p.n && flip(1, 5, "mp2");
  s.macro = choose(5, "macro");
  s.diis = !flip(1, 3, "nodiis");
  size_t dim = p.dets.size();
  if(s.kind == ASCI) {
    s.ntmax = 1 + choose((uint32_t)std::min<size_t>(dim, 30), "ntmax");
    s.ntmin = 1 + choose(12, "ntmin");
    s.grow = 2 + (int)choose(7, "grow");
    s.nc = flip(1, 2, "fewcores") ? 1 + choose(8, "nc") : 100;
    s.clevel = (int)choose(4, "clevel");
    s.rot = !s.mp2 && flip(1, 6, "rot");
    s.refine = !flip(1, 3, "norefine");
    s.wfn_out = flip(5, 6, "wfn_out") ? "wfn" : "";
  }
  Problem rotated;
  std::string ints = integrals_text(p.I, p.core);
  if(s.mp2 && mp2_orbitals(p, &rotated)) { p = rotated; probe("perturbative-orbitals-known"); }
  bool known = !s.mp2 || p.signs;
  double erdm = 0;
  if(s.kind == MCSCF && !s.mp2 && flip(1, 3, "rdms")) { binary_rdms(p, &erdm); s.rdm = "rdms"; }
  simio::spit("ints", ints);
  simio::sync_files();
  int sc = (int)choose(6, "scenario");       // 0,1 undisturbed; 2 write fault; 3 read fault; 4 killed; 5 machine down
  note("kind=%d P=%d n=%d ni=%d nact=%d ne=%d dim=%zu ntmax=%zu mp2=%d rot=%d scenario=%d", s.kind, P, p.n, p.ni, p.nact, p.ne, dim, s.ntmax, (int)s.mp2, (int)s.rot, sc);
  if(P > 1) nontrivial();
  static const char* const KN[] = {"cas-runs", "selected-ci-runs", "orbital-optimisations"};
  probe(KN[s.kind]);
  auto attempt = [&](Settings& t, int ranks, int how, const char* when, double* E, bool damaged = false, bool overwrites = false) {
    simio::Plan pl = how == 3 ? iofx::draw_read_fault() : how == 2 ? iofx::draw_write_fault(600) : simio::draw_transparent();
    if(how == 3 && pl.hard == simio::READ_EIO) pl.at = choose(ranks * 8 + 4, "fault.at.read");
    if((how == 2 || how == 3) && pl.hard == simio::OPEN_FAIL) pl.at = choose(ranks * 6 + 4, "fault.at.open");
    simio::plan(pl);
    Outcome o = run_program(ranks, input_text(p, t), how >= 4);
    if(o.done()) { judge_success(p, t, o, ranks, when, E); mix((uint64_t)(int64_t)std::llround(*E * 1e6)); }
    else if(o.killed) probe("killed");
    else if(overwrites && o.error_rank > 0 && !o.fired && (o.error.find("stoi") != std::string::npos || o.error.find("/wfn ") != std::string::npos)) probe("known:restart-file-replaced-early");
    else if(o.error.size() && !o.fired && !damaged && !expected_refusal(o, t)) fail("spurious-error", "%s P=%d: process %d failed without a fault: %s", when, ranks, o.error_rank, o.error.c_str());
    else probe(o.fired ? "fault-reported" : "refused");
    if(how == 2 || how == 3) if(o.fired && o.done()) probe("fault-survived");
    if(simio::slurp("ints") != ints) fail("input-changed", "%s: the integral file was changed", when);
    if(o.killed && how == 5) simio::crash_files();
    return o;
  };
  double E = 0, E2 = 0;
  Outcome o = attempt(s, P, sc, "first run", &E);
  double x;
  if(o.done() && s.rdm.size()) {
    if(!logged(o, "standalone_driver", "E(RDM)  = ", &x) || std::fabs(x - (p.w[0] + p.core)) > 1e-7 * p.scale) fail("rdm-energy", "the density matrices read from disk give the energy %.12g instead of %.12g", x, p.w[0] + p.core);
    probe("density-matrices-read");
  }
  if(o.done() && s.kind == ASCI) {
    Wfn hf;
    hf.d.push_back({(1ull << p.ne) - 1, (1ull << p.ne) - 1});
    hf.c.push_back(1);
    double q = rayleigh(p, hf, 0) + p.core;
    if(!logged(o, "standalone_driver", "ASCI E0 = ", &x) || (known && std::fabs(x - q) > 1e-8 * p.scale)) fail("start-energy", "the calculation starts at the energy %.12g instead of %.12g", x, q);
  }
  // again, from what is on disk
  if(!(sc >= 2 || flip(1, 2, "again"))) return;
  Settings t = s;
  int P2 = flip(1, 2, "otherP") ? range(1, 5, "P2") : P;
  std::string left;
  Wfn w;
  std::string why;
  bool complete = false;
  if(s.kind == ASCI && s.wfn_out.size() && !s.rot && known && simio::exists("wfn") && flip(3, 4, "from-file")) {
    left = simio::slurp("wfn");
    complete = parse_wfn(left, p.nact, &w, &why);
    t.wfn_in = "wfn";
    t.wfn_out = flip(1, 2, "elsewhere") ? "wfn2" : "wfn";
    if(complete && flip(1, 2, "larger")) t.ntmax = std::min<size_t>(dim, w.d.size() + choose(10, "more"));
    probe(complete ? "restart-from-complete-file" : "restart-from-damaged-file");
  }
  int how2 = complete && flip(1, 3, "die-again") ? 4 + (int)choose(2, "how2") : 0;
  Outcome o2 = attempt(t, P2, how2, t.wfn_in.size() ? "restart" : "rerun", &E2, t.wfn_in.size() && !complete,
                       P2 > 1 && t.wfn_in.size() && t.wfn_in == t.wfn_out && !t.refine && w.d.size() >= t.ntmax);   // known finding: nothing is left to do and process 0 replaces the file others still read
  bool judged_start = false;
  if(t.wfn_in.size()) {
    if(!complete && o2.done()) fail("damaged-restart", "the program restarted from a damaged wavefunction (%s) and ended normally", why.c_str());
    if(complete && logged(o2, "standalone_driver", "ASCI E0 = ", &x)) {
      judged_start = true;
      double q = rayleigh(p, w, x - p.core) + p.core;
      if(std::fabs(x - q) > 1e-8 * p.scale) fail("restart-energy", "restarting from the file: the start energy is %.12g, the file holds %.12g", x, q);
      if(o.done() && std::fabs(x - E) > 2e-7 * p.scale) fail("restart-energy", "restarting from the file: the start energy is %.12g, the first run ended at %.12g", x, E);
    }
    if(o2.done() && !judged_start) fail("no-result", "the restart did not report its start energy");
  } else if(o.done() && o2.done() && s.kind == CAS && P == P2 && std::fabs(E - E2) > 1e-7 * p.scale) {
    // equal input, equal process count: only the order of summation may differ; both are eigenvalues
    probe("rerun-other-eigenvalue");
  }
  if(!o2.done() && o2.killed) {              // third time, undisturbed
    Settings u = t;
    std::string text = simio::exists("wfn") ? simio::slurp("wfn") : "";
    Wfn w3;
    bool ok3 = parse_wfn(text, p.nact, &w3, &why);
    if(!ok3 || t.wfn_in.empty()) u.wfn_in = "";
    else u.wfn_in = "wfn", u.ntmax = std::max<size_t>(1, w3.d.size());
    double E3;
    Outcome o3 = attempt(u, P, 0, "third run", &E3);
    if(u.wfn_in.size() && logged(o3, "standalone_driver", "ASCI E0 = ", &x)) {
      double q = rayleigh(p, w3, x - p.core) + p.core;
      if(std::fabs(x - q) > 1e-8 * p.scale) fail("restart-energy", "third run: the start energy is %.12g, the file holds %.12g", x, q);
    }
    probe("third-run");
  }
}
