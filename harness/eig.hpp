// What a reported eigenpair has to satisfy.
#pragma once
#include "sim.hpp"
#include <cmath>
#include <vector>
using sim::fail;
typedef std::vector<std::vector<double>> Dense;

inline std::vector<double> mul(const Dense& H, const std::vector<double>& x) {
  std::vector<double> y(x.size(), 0);
  for(size_t i = 0; i < x.size(); ++i) for(size_t j = 0; j < x.size(); ++j) y[i] += H[i][j] * x[j];
  return y;
}
inline double norm(const std::vector<double>& x) { long double s = 0; for(double v : x) s += (long double)v * v; return std::sqrt((double)s); }
// Is the energy compatible with an iteration that began at `start`?  "" or mode: text.
inline std::string judge_start(const char* what, int P, const Dense& H, const std::vector<double>& w, const Dense& Z, const std::vector<double>& start, double E, double tol, double scale) {
  size_t n = H.size();
  char t[300];
  double ns = norm(start);
  if(ns == 0) return "";
  auto hs = mul(H, start);
  double rq = 0;
  for(size_t i = 0; i < n; ++i) rq += start[i] * hs[i];
  rq /= ns * ns;
  if(E > rq + 1e-10 * scale) { snprintf(t, 300, "above-start: %s P=%d n=%zu: energy %.12g is above that of the start vector %.12g", what, P, n, E, rq); return t; }
  for(size_t k = 0; k < n; ++k) {
    double ov = 0;
    for(size_t i = 0; i < n; ++i) ov += Z[i][k] * start[i];
    if(std::fabs(ov) < 0.85 * ns) continue;          // with a smaller share, an excited state may legitimately converge first
    if(E > w[k] + 2 * tol + 1e-10 * scale) { snprintf(t, 300, "not-lowest: %s P=%d n=%zu: energy %.12g, but the start vector reaches the eigenvalue %.12g", what, P, n, E, w[k]); return t; }
    break;
  }
  return "";
}
// What has to be true of a reported result.  starts: the vectors the iteration may have begun with.
inline void judge(const char* what, int P, const Dense& H, const std::vector<double>& w, const Dense& Z, const std::vector<std::vector<double>>& starts, double E, const std::vector<double>& X, double tol) {
  size_t n = H.size();
  double scale = 1;
  for(double x : w) scale = std::max(scale, std::fabs(x));
  if(!std::isfinite(E)) fail("not-finite", "%s P=%d n=%zu: the energy is %g", what, P, n, E);
  double nx = norm(X);
  if(!(std::fabs(nx - 1) <= 1e-8)) fail("not-normalised", "%s P=%d n=%zu: the vector has norm %.12g", what, P, n, nx);
  auto r = mul(H, X);
  for(size_t i = 0; i < n; ++i) r[i] -= E * X[i];
  double rn = norm(r);
  if(!(rn <= tol * 1.001 + 1e-12 * scale * n)) fail("residual", "%s P=%d n=%zu: converged with residual %.6g, tolerance %.6g, energy %.12g", what, P, n, rn, tol, E);
  std::string why;
  for(auto& start : starts) {
    why = judge_start(what, P, H, w, Z, start, E, tol, scale);
    if(why.empty()) return;
  }
  if(!why.empty()) fail(why.substr(0, why.find(':')).c_str(), "%s", why.substr(why.find(':') + 2).c_str());
}
inline void judge(const char* what, int P, const Dense& H, const std::vector<double>& w, const Dense& Z, const std::vector<double>& start, double E, const std::vector<double>& X, double tol) {
  judge(what, P, H, w, Z, std::vector<std::vector<double>>{start}, E, X, tol);
}
// Unit vectors of the smallest diagonal elements (several if equal up to rounding).
inline std::vector<std::vector<double>> own_starts(const Dense& H) {
  size_t n = H.size();
  double lo = H[0][0];
  for(size_t i = 1; i < n; ++i) lo = std::min(lo, H[i][i]);
  std::vector<std::vector<double>> r;
  for(size_t i = 0; i < n; ++i) if(H[i][i] <= lo + 1e-10) { r.emplace_back(n, 0.0); r.back()[i] = 1; }
  return r;
}
