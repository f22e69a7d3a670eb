// C10: parallel matrix-market export.
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sstream>
#include "simmpi.hpp"
#include "iofx.hpp"
#include "spmat.hpp"
#include "spread.hpp"
const char* const harness_property = "C10";
void harness_init() { iofx::quiet(); }
using namespace sim;

// Independent reader of what the export must look like.
static std::string judge_text(const std::string& s, const hx::Mat& A, int base) {
  std::istringstream in(s);
  std::string l;
  if(!std::getline(in, l) || l != "%%MatrixMarket matrix coordinate real general") return "bad banner: " + l.substr(0, 60);
  while(std::getline(in, l)) if(l.empty() || l[0] != '%') break;
  long m = -1, n = -1, z = -1;
  if(sscanf(l.c_str(), "%ld %ld %ld", &m, &n, &z) != 3) return "bad size line";
  char b[200];
  if(m != A.m || n != A.n || z != (long)A.e.size()) { snprintf(b, 200, "header says %ld %ld %ld, the matrix is %ld %ld %zu", m, n, z, (long)A.m, (long)A.n, A.e.size()); return b; }
  std::vector<hx::Entry> e;
  while(std::getline(in, l)) {
    if(l.find_first_not_of(" \t\r") == std::string::npos) continue;
    long i, j; double v; int used = 0;
    if(sscanf(l.c_str(), "%ld %ld %lf %n", &i, &j, &v, &used) != 3 || used != (int)l.size()) return "bad line: " + l.substr(0, 80);
    e.push_back({i - base, j - base, v});
  }
  std::sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; });
  if(e.size() != A.e.size()) { snprintf(b, 200, "%zu entries in the file, %zu in the matrix", e.size(), A.e.size()); return b; }
  for(size_t k = 0; k < e.size(); ++k)
    if(e[k].i != A.e[k].i || e[k].j != A.e[k].j || memcmp(&e[k].v, &A.e[k].v, 8)) {
      snprintf(b, 200, "the file holds (%ld,%ld)=%.17g where the matrix has (%ld,%ld)=%.17g", (long)e[k].i, (long)e[k].j, e[k].v, (long)A.e[k].i, (long)A.e[k].j, A.e[k].v);
      return b;
    }
  return "";
}
template <class I>
static void go() {
  using CSR = sparsexx::csr_matrix<double, I>;
  using D = sparsexx::dist_sparse_matrix<CSR>;
  int P = 1 + (int)choose(flip(1, 8, "bigP") ? 14 : 6, "ranks");
  hx::MatOpt mo;
  mo.square = !flip(1, 3, "rect");
  hx::Mat A = hx::random_matrix(mo), O = hx::random_matrix(mo);
  hx::special_values(A);
  int base = (int)choose(2, "base"), forced = (int)choose(3, "forced") - 1, fb = forced < 0 ? 0 : forced;
  bool custom = flip(1, 2, "custom");
  auto tiles = hx::random_tiles<I>(A.m, P);
  int sc = (int)choose(4, "scenario");
  bool old = flip(1, 3, "old");
  const std::string name = "data", f = simio::path(name);
  std::string oldtext;
  if(old) {   // a file of an earlier run
    char b[100];
    snprintf(b, 100, "%%%%MatrixMarket matrix coordinate real general\n%ld %ld %zu\n", (long)O.m, (long)O.n, O.e.size());
    oldtext = b;
    for(auto& e : O.e) { snprintf(b, 100, "%ld %ld %.17g\n", (long)e.i, (long)e.j, e.v); oldtext += b; }
    simio::spit(name, oldtext);
    simio::sync_files();
  }
  note("P=%d %ldx%ld nnz=%zu base=%d forced=%d custom=%d scenario=%d old=%zu", P, (long)A.m, (long)A.n, A.e.size(), base, forced, custom, sc, oldtext.size());
  if(P > 1) nontrivial();
  // 0 transparent; 1 lasting write fault; 2 the job dies; 3 the machine dies
  size_t guess = 60 + A.e.size() * 20;
  simio::Plan pl = sc == 1 ? iofx::draw_write_fault(guess) : simio::draw_transparent();
  if(sc == 1 && pl.hard != simio::DISK_FULL) pl.at = choose(3 * P + 3, "fault.at.p");
  bool twice = sc == 0 && flip(1, 4, "twice");
  simmpi::JobOptions jo;
  jo.allow_crash = sc >= 2;
  bool sharp = sc == 0;
  auto r = simmpi::run_job(P, [&](int me, MPI_Comm c) {
    auto M = hx::to_csr<CSR>(A, base);
    auto d = hx::distribute<CSR, I>(c, M, custom ? &tiles : nullptr);
    if(me == 0) simio::plan(pl);
    MPI_Barrier(c);
    for(int q = 0; q <= (int)twice; ++q) {
      sparsexx::write_dist_mm(f, d, forced);
      if(sharp && (q == (int)twice || P == 1)) {
        auto why = judge_text(simio::slurp(name), A, fb);
        if(!why.empty()) fail("incomplete-at-return", "the export returned on rank %d and the file is wrong: %s", me, why.c_str());
      }
    }
  }, jo);
  bool fired = simio::fired();
  simio::clear();
  if(r.crashed && sc == 3) simio::crash_files();
  std::string got = simio::exists(name) ? simio::slurp(name) : "";
  if(!r.crashed) simmpi::check_clean();
  bool whole = judge_text(got, A, fb).empty();
  if(!r.crashed && !r.all_error() && !whole) {
    int k = 0;
    while(!r.errors[k].empty()) ++k;
    fail(fired ? "write-error-silent" : "wrong-file", "the export succeeded on rank %d and the file is wrong: %s", k, judge_text(got, A, fb).c_str());
  }
  if(!r.crashed && !fired && r.any_error()) { for(auto& e : r.errors) if(!e.empty()) fail("spurious-error", "the export failed without a lasting fault: %s", e.c_str()); }
  if(fired) probe(r.any_error() ? "writer-reported" : "write-recovered");
  if(r.crashed) probe(whole ? "crash-file-complete" : got.empty() ? "crash-file-empty" : "crash-file-partial");
  // a later read: the whole matrix, an error, or what was there before
  iofx::Case c;
  c.file = name;
  c.exempt = [&](const std::string&, size_t) { return false; };
  c.read = [&](const std::string& fn, std::string* why) {
    int64_t b;
    hx::Mat g = hx::from_csr(sparsexx::read_mm<CSR>(fn), &b);
    if(hx::same_mat(g, b, A, fb, why)) return 0;
    std::string t;
    if(old && hx::same_mat(g, b, O, 0, &t)) return 1;
    return 2;
  };
  if(!simio::exists(name)) return;
  // a cut inside the digits of the very last number cannot be recognised by any reader
  if(!whole && !A.e.empty()) {
    std::string g2 = got;
    size_t e = g2.find_last_not_of(" \n");
    if(e != std::string::npos && g2.back() != '\n') {
      size_t b2 = g2.find_last_of(" \n", e);
      std::string cutline = g2.substr(b2 == std::string::npos ? 0 : b2 + 1);
      // only the last value may be short: the number of complete entries must be right
      std::istringstream in(g2);
      std::string l; size_t lines = 0; int f3 = 0;
      while(std::getline(in, l)) { lines++; std::istringstream ls(l); std::string t; f3 = 0; while(ls >> t) f3++; }
      if(lines == A.e.size() + 2 && f3 == 3) { probe("cut-inside-last-number"); return; }
    }
  }
  iofx::judge_read(c, r.crashed ? "after a crash during the export" : "after the export", simio::Plan{}, got, got, whole, old && got == oldtext);
}
void harness_run() {
  if(flip(1, 2, "index64")) go<int64_t>(); else go<int32_t>();
}
