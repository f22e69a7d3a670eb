// Random orbital integrals, determinants, and an independent second-quantised Hamiltonian.
#pragma once
#include <bitset>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <map>
#include <set>
#include <vector>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/null_sink.h>
#include "sim.hpp"

namespace ci {
inline void null_loggers() {
  for(const char* n : {"davidson", "ci_solver", "asci_search", "asci_grow", "asci_refine", "mcscf", "diis", "casscf"})
    if(!spdlog::get(n) && !(getenv("SIM_LOG") && strstr(n, getenv("SIM_LOG")))) spdlog::null_logger_mt(n);   // SIM_LOG=mcscf shows that log when debugging
}
typedef long double ld;
struct Ints {
  int n = 0;
  std::vector<double> T, V;  // column major; V(p,q,r,s) = (pq|rs)
  double t(int p, int q) const { return T[p + (size_t)q * n]; }
  double v(int p, int q, int r, int s) const { return V[p + n * (q + (size_t)n * (r + (size_t)n * s))]; }
};
struct IntOpt { double vscale = 1, tscale = 1; bool dominant = false, discrete = false; int zeros = 0; };
inline Ints random_ints(int n, sim::Rng& g, const IntOpt& o) {
  Ints I;
  I.n = n;
  I.T.assign((size_t)n * n, 0);
  I.V.assign((size_t)n * n * n * n, 0);
  auto val = [&](double s) {
    if(o.zeros && (int)g.below(10) < o.zeros) return 0.0;
    if(o.discrete) return s * ((int)g.below(5) - 2) * 0.25;
    return s * g.sym();
  };
  for(int p = 0; p < n; ++p)
    for(int q = 0; q <= p; ++q) {
      double x = val(o.tscale);
      if(p == q && o.dominant) x = -3.0 + 1.1 * p + 0.2 * g.uni();
      I.T[p + (size_t)q * n] = I.T[q + (size_t)p * n] = x;
    }
  auto at = [&](int p, int q, int r, int s) -> double& { return I.V[p + n * (q + (size_t)n * (r + (size_t)n * s))]; };
  for(int p = 0; p < n; ++p)
    for(int q = 0; q <= p; ++q)
      for(int r = 0; r <= p; ++r)
        for(int s = 0; s <= (r == p ? q : r); ++s) {
          double x = val(o.vscale);
          if(p == q && r == s) x = std::fabs(x) + (o.discrete ? 0.25 : 0.1) * o.vscale;
          at(p, q, r, s) = at(q, p, r, s) = at(p, q, s, r) = at(q, p, s, r) = x;
          at(r, s, p, q) = at(s, r, p, q) = at(r, s, q, p) = at(s, r, q, p) = x;
        }
  return I;
}
// A determinant: alpha and beta occupation.
struct Det {
  uint64_t a = 0, b = 0;
  bool operator<(const Det& o) const { return a != o.a ? a < o.a : b < o.b; }
  bool operator==(const Det& o) const { return a == o.a && b == o.b; }
};
inline std::vector<uint64_t> strings(int n, int k) {
  std::vector<uint64_t> r;
  for(uint64_t x = 0; x < (1ull << n); ++x) if(__builtin_popcountll(x) == k) r.push_back(x);
  return r;
}
inline std::vector<Det> sector(int n, int na, int nb) {
  std::vector<Det> r;
  for(auto a : strings(n, na)) for(auto b : strings(n, nb)) r.push_back({a, b});
  return r;
}
template <size_t N> std::bitset<N> to_bits(const Det& d) {
  std::bitset<N> w;
  for(int i = 0; i < (int)(N / 2); ++i) { if(d.a >> i & 1) w.set(i); if(d.b >> i & 1) w.set(i + N / 2); }
  return w;
}
// false if a bit lies outside the orbital range
template <size_t N> bool from_bits(const std::bitset<N>& w, int norb, Det* d) {
  *d = Det();
  for(size_t i = 0; i < N; ++i)
    if(w[i]) {
      size_t o = i % (N / 2);
      if((int)o >= norb) return false;
      (i < N / 2 ? d->a : d->b) |= 1ull << o;
    }
  return true;
}
inline std::string text(const Det& d) { char t[64]; snprintf(t, 64, "%llx|%llx", (unsigned long long)d.a, (unsigned long long)d.b); return t; }
// Occupation words of all spin orbitals: 64 bits (beta from bit 32) or 128 bits (beta from bit 64).
typedef unsigned __int128 Word;
inline bool odd(uint64_t w) { return __builtin_parityll(w); }
inline bool odd(Word w) { return __builtin_parityll((uint64_t)w ^ (uint64_t)(w >> 64)); }
template <class W> bool annihilate(W& w, int q, int& sign) {
  if(!(w >> q & 1)) return false;
  if(odd((W)(w & (((W)1 << q) - 1)))) sign = -sign;
  w &= ~((W)1 << q);
  return true;
}
template <class W> bool create(W& w, int q, int& sign) {
  if(w >> q & 1) return false;
  if(odd((W)(w & (((W)1 << q) - 1)))) sign = -sign;
  w |= (W)1 << q;
  return true;
}
typedef std::map<Det, ld> Column;
// H|ket>, by applying the second-quantised operators one after another
inline Column apply_h(const Ints& I, const Det& ket) {
  Column c;
  Word w0 = ket.a | (Word)ket.b << 64;
  auto add = [&](Word w, ld x) { if(x != 0) c[Det{(uint64_t)w, (uint64_t)(w >> 64)}] += x; };
  std::vector<int> occ;
  for(int i = 0; i < 128; ++i) if(w0 >> i & 1) occ.push_back(i);
  for(int q : occ)
    for(int p = 0; p < I.n; ++p) {
      Word w = w0;
      int s = 1, sp = q & 64;
      annihilate(w, q, s);
      if(!create(w, p + sp, s)) continue;
      add(w, s * (ld)I.t(p, q & 63));
    }
  // 1/2 sum (pq|rs) a+_p a+_r a_s a_q
  for(int q : occ)
    for(int s_ : occ) {
      if(s_ == q) continue;
      Word w1 = w0;
      int s1 = 1;
      annihilate(w1, q, s1);
      annihilate(w1, s_, s1);
      for(int r = 0; r < I.n; ++r) {
        Word w2 = w1;
        int s2 = s1;
        if(!create(w2, r + (s_ & 64), s2)) continue;
        for(int p = 0; p < I.n; ++p) {
          Word w3 = w2;
          int s3 = s2;
          if(!create(w3, p + (q & 64), s3)) continue;
          add(w3, 0.5L * s3 * (ld)I.v(p, q & 63, r, s_ & 63));
        }
      }
    }
  return c;
}
inline ld element(const Column& c, const Det& d) { auto it = c.find(d); return it == c.end() ? 0 : it->second; }
inline std::vector<std::vector<double>> dense_h(const Ints& I, const std::vector<Det>& dets) {
  size_t n = dets.size();
  std::map<Det, size_t> pos;
  for(size_t i = 0; i < n; ++i) pos[dets[i]] = i;
  std::vector<std::vector<double>> H(n, std::vector<double>(n, 0));
  for(size_t j = 0; j < n; ++j)
    for(auto& [d, x] : apply_h(I, dets[j])) { auto it = pos.find(d); if(it != pos.end()) H[it->second][j] = (double)x; }
  return H;
}
// <d|H|d>
inline double diag(const Ints& I, const Det& d) {
  ld e = 0;
  for(int x = 0; x < 2; ++x)
    for(int p = 0; p < I.n; ++p) {
      if(!((x ? d.b : d.a) >> p & 1)) continue;
      e += I.t(p, p);
      for(int y = 0; y < 2; ++y)
        for(int q = 0; q < I.n; ++q)
          if((y ? d.b : d.a) >> q & 1) e += 0.5L * ((ld)I.v(p, p, q, q) - (x == y ? (ld)I.v(p, q, q, p) : 0));
    }
  return (double)e;
}
// First-order weights sum_i C_i <d|H|i> / (E - <d|H|d>) of all determinants connected to a core determinant,
// and the sum of the magnitudes of the terms.
// slack: what thresholds (terms with |H| or |C H| below h_tol; while pruning, partial sums up to prune_tol) may leave out
struct Weight { double w = 0, mag = 0, slack = 0; bool core = false; };
inline std::map<Det, Weight> weights(const Ints& I, const std::vector<Det>& core, const std::vector<double>& C, double E, bool singles, double h_tol = 0, double prune_tol = 0) {
  std::map<Det, Weight> W;
  for(size_t i = 0; i < core.size(); ++i)
    for(auto& [d, h] : apply_h(I, core[i])) {
      if(d == core[i]) continue;
      int ex = __builtin_popcountll(d.a ^ core[i].a) + __builtin_popcountll(d.b ^ core[i].b);
      if(singles && ex > 2) continue;
      double t = C[i] * (double)h / (E - diag(I, d));
      W[d].w += t;
      W[d].mag += std::fabs(t);
      W[d].slack += (std::min(1., std::fabs(C[i])) * std::fabs((double)h) < h_tol * (1 + 1e-9) ? std::fabs(t) : 0) + prune_tol;
    }
  for(auto& c : core) { auto it = W.find(c); if(it != W.end()) it->second.core = true; }
  return W;
}
// Determinants of a wide orbital range: one at random and substitutions of it, mostly near the upper end.
inline std::vector<Det> wide_dets(int n, int na, int nb, int count, sim::Rng& g) {
  auto orb = [&](bool high) { return high ? n - 1 - (int)g.below((uint32_t)std::min(n, 6)) : (int)g.below((uint32_t)n); };
  auto draw = [&](int k) -> uint64_t {
    uint64_t w = 0;
    bool holes = k > n / 2;
    for(int left = holes ? n - k : k, t = 0; left; ++t) { int p = orb(t < 40 && g.below(2)); if(!(w >> p & 1)) { w |= 1ull << p; --left; } }
    return holes ? w ^ ((n == 64 ? 0 : 1ull << n) - 1) : w;
  };
  auto step = [&](uint64_t w) -> uint64_t {
    for(int t = 0; t < 200; ++t) {
      int p = orb(g.below(2)), q = orb(g.below(2));
      if((w >> p & 1) && !(w >> q & 1)) return w ^ (1ull << p) ^ (1ull << q);
    }
    return w;
  };
  std::vector<Det> r{{draw(na), draw(nb)}};
  for(int t = 0; t < 50 * count && (int)r.size() < count; ++t) {
    Det d = r[g.below((uint32_t)r.size())];
    for(int k = 1 + (int)g.below(3); k; --k) { auto& w = g.below(2) ? d.a : d.b; w = step(w); }
    if(std::find(r.begin(), r.end(), d) == r.end()) r.push_back(d);
  }
  return r;
}
// An energy below (mostly) all diagonal elements that may be divided by.
inline double pick_energy(const Ints& I, const std::vector<Det>& sector, sim::Rng& g) {
  std::vector<double> d;
  for(auto& x : sector) d.push_back(diag(I, x));
  double lo = *std::min_element(d.begin(), d.end());
  if(g.below(4) == 0)
    for(int k = 0; k < 20; ++k) {
      double e = d[g.below((uint32_t)d.size())] + 0.3 * g.sym(), gap = 1e9;
      for(double x : d) gap = std::min(gap, std::fabs(x - e));
      if(gap > 0.02) return e;
    }
  return lo - 0.1 - g.uni();
}
// All eigenvalues of a symmetric matrix (Householder + implicit QL); vectors in Z columns if asked.
inline std::vector<double> eigen(std::vector<std::vector<double>> a, std::vector<std::vector<double>>* Z = nullptr) {
  int n = (int)a.size();
  std::vector<double> d(n), e(n, 0);
  if(n == 0) return d;
  for(int i = n - 1; i > 0; --i) {
    int l = i - 1;
    double h = 0, scale = 0;
    if(l > 0) {
      for(int k = 0; k <= l; ++k) scale += std::fabs(a[i][k]);
      if(scale == 0) e[i] = a[i][l];
      else {
        for(int k = 0; k <= l; ++k) { a[i][k] /= scale; h += a[i][k] * a[i][k]; }
        double f = a[i][l], g = f >= 0 ? -std::sqrt(h) : std::sqrt(h);
        e[i] = scale * g;
        h -= f * g;
        a[i][l] = f - g;
        f = 0;
        for(int j = 0; j <= l; ++j) {
          a[j][i] = a[i][j] / h;
          g = 0;
          for(int k = 0; k <= j; ++k) g += a[j][k] * a[i][k];
          for(int k = j + 1; k <= l; ++k) g += a[k][j] * a[i][k];
          e[j] = g / h;
          f += e[j] * a[i][j];
        }
        double hh = f / (h + h);
        for(int j = 0; j <= l; ++j) {
          f = a[i][j];
          e[j] = g = e[j] - hh * f;
          for(int k = 0; k <= j; ++k) a[j][k] -= f * e[k] + g * a[i][k];
        }
      }
    } else e[i] = a[i][l];
    d[i] = h;
  }
  d[0] = 0; e[0] = 0;
  for(int i = 0; i < n; ++i) {
    int l = i - 1;
    if(d[i] != 0)
      for(int j = 0; j <= l; ++j) {
        double g = 0;
        for(int k = 0; k <= l; ++k) g += a[i][k] * a[k][j];
        for(int k = 0; k <= l; ++k) a[k][j] -= g * a[k][i];
      }
    d[i] = a[i][i];
    a[i][i] = 1;
    for(int j = 0; j <= l; ++j) a[j][i] = a[i][j] = 0;
  }
  for(int i = 1; i < n; ++i) e[i - 1] = e[i];
  e[n - 1] = 0;
  for(int l = 0; l < n; ++l) {
    int it = 0, m;
    do {
      for(m = l; m < n - 1; ++m) { double dd = std::fabs(d[m]) + std::fabs(d[m + 1]); if(std::fabs(e[m]) <= 1e-17 * dd || std::fabs(e[m]) + dd == dd) break; }
      if(m != l && it++ < 200) {
        double g = (d[l + 1] - d[l]) / (2 * e[l]), r = std::hypot(g, 1.0);
        g = d[m] - d[l] + e[l] / (g + (g >= 0 ? r : -r));
        double s = 1, c = 1, p = 0;
        int i;
        for(i = m - 1; i >= l; --i) {
          double f = s * e[i], b = c * e[i];
          e[i + 1] = (r = std::hypot(f, g));
          if(r == 0) { d[i + 1] -= p; e[m] = 0; break; }
          s = f / r; c = g / r;
          g = d[i + 1] - p;
          r = (d[i] - g) * s + 2 * c * b;
          d[i + 1] = g + (p = s * r);
          g = c * r - b;
          for(int k = 0; k < n; ++k) { f = a[k][i + 1]; a[k][i + 1] = s * a[k][i] + c * f; a[k][i] = c * a[k][i] - s * f; }
        }
        if(r == 0 && i >= l) continue;
        d[l] -= p; e[l] = g; e[m] = 0;
      }
    } while(m != l);
  }
  std::vector<int> idx(n);
  for(int i = 0; i < n; ++i) idx[i] = i;
  std::sort(idx.begin(), idx.end(), [&](int x, int y) { return d[x] < d[y]; });
  std::vector<double> w(n);
  for(int i = 0; i < n; ++i) w[i] = d[idx[i]];
  if(Z) {
    Z->assign(n, std::vector<double>(n));
    for(int i = 0; i < n; ++i) for(int k = 0; k < n; ++k) (*Z)[k][i] = a[k][idx[i]];
  }
  return w;
}
template <size_t N> std::vector<std::bitset<N>> to_bits(const std::vector<Det>& v) {
  std::vector<std::bitset<N>> r;
  for(auto& d : v) r.push_back(to_bits<N>(d));
  return r;
}
inline void shuffle(std::vector<Det>& v, sim::Rng& g) {
  for(size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + g.below((uint32_t)(v.size() - i))]);
}
}  // namespace ci
