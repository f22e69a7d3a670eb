// Minimal stand-in for kokkos/mdspan (not installed here), with the parts MACIS
// uses.  Semantics follow the standard: a layout_left mdspan is dense; converting
// a strided sub-span to layout_left requires matching strides (upstream throws in
// debug builds; so does this).
#pragma once
#include <array>
#include <cstddef>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental
namespace Kokkos {
struct full_extent_t { explicit full_extent_t() = default; };
inline constexpr full_extent_t full_extent{};
struct layout_left {};
template <class I, std::size_t R> struct dextents { using index_type = I; static constexpr std::size_t rank() { return R; } };
namespace Experimental { template <class T, std::size_t R> struct strided_sub; }
template <class T, class E, class L = layout_left> class mdspan {
 public:
  static constexpr std::size_t R = E::rank();
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using index_type = std::size_t;
  using size_type = std::size_t;
  using reference = T&;
  using data_handle_type = T*;
  constexpr mdspan() : p_(nullptr), e_{} {}
  template <class... I, std::enable_if_t<sizeof...(I) == R && (std::is_convertible_v<I, std::size_t> && ...), int> = 0>
  constexpr explicit mdspan(T* p, I... i) : p_(p), e_{static_cast<std::size_t>(i)...} {}
  constexpr mdspan(T* p, const std::array<std::size_t, R>& e) : p_(p), e_(e) {}
  template <class U, std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]> && !std::is_same_v<U, T>, int> = 0>
  constexpr mdspan(const mdspan<U, E, L>& o) : p_(o.data_handle()), e_{} { for(std::size_t r = 0; r < R; ++r) e_[r] = o.extent(r); }
  mdspan(const Experimental::strided_sub<T, R>& s);
  constexpr std::size_t extent(std::size_t r) const { return e_[r]; }
  static constexpr std::size_t rank() { return R; }
  constexpr std::size_t stride(std::size_t r) const { std::size_t s = 1; for(std::size_t k = 0; k < r; ++k) s *= e_[k]; return s; }
  constexpr std::size_t size() const { std::size_t s = 1; for(auto x : e_) s *= x; return s; }
  constexpr bool empty() const { return size() == 0; }
  constexpr T* data_handle() const { return p_; }
  template <class... I, std::enable_if_t<sizeof...(I) == R, int> = 0>
  constexpr T& operator()(I... i) const {
    std::size_t idx[R] = {static_cast<std::size_t>(i)...}, o = 0, s = 1;
    for(std::size_t r = 0; r < R; ++r) { o += idx[r] * s; s *= e_[r]; }
    return p_[o];
  }
 private:
  T* p_;
  std::array<std::size_t, R> e_;
};
namespace Experimental {
template <class T, std::size_t R> struct strided_sub {
  T* p;
  std::array<std::size_t, R> e, s;
  std::size_t extent(std::size_t r) const { return e[r]; }
  T* data_handle() const { return p; }
  template <class... I> T& operator()(I... i) const {
    std::size_t idx[R] = {static_cast<std::size_t>(i)...}, o = 0;
    for(std::size_t r = 0; r < R; ++r) o += idx[r] * s[r];
    return p[o];
  }
};
namespace detail {
template <class A, class B> std::pair<std::size_t, std::size_t> slice(const std::pair<A, B>& p, std::size_t) { return {std::size_t(p.first), std::size_t(p.second)}; }
inline std::pair<std::size_t, std::size_t> slice(full_extent_t, std::size_t n) { return {0, n}; }
}
template <class T, class E, class L, class... S>
strided_sub<T, E::rank()> submdspan(const mdspan<T, E, L>& m, S... sl) {
  strided_sub<T, E::rank()> r{m.data_handle(), {}, {}};
  std::size_t k = 0;
  auto one = [&](auto s) { auto [a, b] = detail::slice(s, m.extent(k)); r.s[k] = m.stride(k); r.e[k] = b - a; r.p += a * r.s[k]; ++k; };
  (one(sl), ...);
  return r;
}
}
template <class T, class E, class L> mdspan<T, E, L>::mdspan(const Experimental::strided_sub<T, R>& s) : p_(s.p), e_(s.e) {
  std::size_t st = 1;
  for(std::size_t r = 0; r < R; ++r) {
    if(e_[r] > 1 && s.s[r] != st) throw std::runtime_error("Assigning layout_stride to layout_left with invalid strides.");
    st *= e_[r];
  }
}
using Experimental::submdspan;
}
