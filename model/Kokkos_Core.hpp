// Contract model of the parts of Kokkos (Serial/HostSpace) used by nlcglib.
// Views are (pointer, extents, strides); allocation is the ghost primitive nlv_alloc; parallel constructs are
// loops whose summarisation requires independent iterations, so the contract covers every execution order.
#pragma once
#include <string>
#include <cstddef>
#include <type_traits>
#include <stdexcept>
#include <cmath>
#include <initializer_list>
#include <iosfwd>
#include "Kokkos_Complex.hpp"

extern "C" void* nlv_alloc(unsigned long esz, unsigned long rank, unsigned long n0, unsigned long n1, int init);

#define KOKKOS_VERSION 30401
#define KOKKOS_LAMBDA [=]
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION

namespace Kokkos {
struct HostSpace;
struct Serial { using memory_space = HostSpace; using execution_space = Serial; };
struct HostSpace { using memory_space = HostSpace; using execution_space = Serial; };
struct LayoutLeft {};
struct LayoutRight {};
struct LayoutStride {
  LayoutStride() = default;
  LayoutStride(size_t n0, size_t s0, size_t n1 = 1, size_t s1 = 0) : n{n0, n1}, s{s0, s1} {}
  size_t n[2]; size_t s[2];
};
struct MemoryUnmanaged {};
struct MemoryManaged {};
template <class A, class B> struct SpaceAccessibility { static constexpr bool accessible = true; };
struct WithoutInitializing_t {};
constexpr WithoutInitializing_t WithoutInitializing{};
struct view_ctor_noinit { };
struct view_ctor_init { };
template <class S> view_ctor_noinit view_alloc(const WithoutInitializing_t&, const S&) { return {}; }
inline view_ctor_noinit view_alloc(const WithoutInitializing_t&) { return {}; }
template <class S> view_ctor_init view_alloc(const S&) { return {}; }

template <class D> struct nlv_dt { using value_type = D; static constexpr int rank = 0; };
template <class D> struct nlv_dt<D*> { using value_type = typename nlv_dt<D>::value_type; static constexpr int rank = nlv_dt<D>::rank + 1; };

template <class... P> struct nlv_layout { using type = LayoutRight; };
template <class... P> struct nlv_layout<LayoutLeft, P...> { using type = LayoutLeft; };
template <class... P> struct nlv_layout<LayoutRight, P...> { using type = LayoutRight; };
template <class... P> struct nlv_layout<LayoutStride, P...> { using type = LayoutStride; };
template <class X, class... P> struct nlv_traits { using type = MemoryManaged; };
template <class... P> struct nlv_has_unm : std::false_type {};
template <class Q, class... P> struct nlv_has_unm<Q, P...> : std::conditional_t<std::is_same<Q, MemoryUnmanaged>::value, std::true_type, nlv_has_unm<P...>> {};

template <class D, class... P>
class View {
public:
  using value_type = typename nlv_dt<D>::value_type;
  using data_type = D;
  struct dimension { static constexpr int rank = nlv_dt<D>::rank; };
  static constexpr int Rank = nlv_dt<D>::rank;
  static constexpr int rank = nlv_dt<D>::rank;
  using array_layout = typename nlv_layout<P...>::type;
  using memory_space = HostSpace;
  using execution_space = Serial;
  using memory_traits = std::conditional_t<nlv_has_unm<P...>::value, MemoryUnmanaged, MemoryManaged>;
  using HostMirror = View<D, array_layout, HostSpace>;

  View() : p(nullptr), n{0, 0}, s{1, 0} {}
  View(const std::string&, size_t n0, size_t n1 = 1) { alloc(n0, n1, 1); }
  View(const view_ctor_noinit&, size_t n0, size_t n1 = 1) { alloc(n0, n1, 0); }
  View(const view_ctor_init&, size_t n0, size_t n1 = 1) { alloc(n0, n1, 1); }
  explicit View(value_type* q, size_t n0) : p(q), n{n0, 1}, s{1, n0} {}
  View(value_type* q, size_t n0, size_t n1) : p(q), n{n0, n1} { dense(); }
  View(value_type* q, const LayoutStride& l) : p(q), n{l.n[0], l.n[1]}, s{l.s[0], l.s[1]} {}
  template <class D2, class... P2>
  View(const View<D2, P2...>& o) : p(o.data()), n{o.extent(0), o.extent(1)}, s{o.stride(0), o.stride(1)}
  {
    if (std::is_same<array_layout, LayoutLeft>::value && s[0] != 1) throw std::runtime_error("View assignment must have compatible layouts");
  }
  View(const View&) = default;
  View(View&&) = default;
  View& operator=(const View&) = default;
  View& operator=(View&&) = default;

  value_type& operator()(size_t i) const { return p[i * s[0]]; }
  value_type& operator()(size_t i, size_t j) const { return p[i * s[0] + j * s[1]]; }
  value_type& operator[](size_t i) const { return p[i * s[0]]; }
  value_type* data() const { return p; }
  size_t extent(int r) const { return n[r]; }
  int extent_int(int r) const { return (int)n[r]; }
  size_t stride(int r) const { return s[r]; }
  size_t stride_0() const { return s[0]; }
  size_t stride_1() const { return s[1]; }
  size_t size() const { return n[0] * n[1]; }
  size_t span() const { return n[0] * n[1]; }
  array_layout layout() const { return array_layout(); }
  bool is_allocated() const { return p != nullptr; }

private:
  void dense()
  {
    if (rank == 1) { s[0] = 1; s[1] = n[0]; }
    else if (std::is_same<array_layout, LayoutRight>::value) { s[0] = n[1]; s[1] = 1; }
    else { s[0] = 1; s[1] = n[0]; }
  }
  void alloc(size_t n0, size_t n1, int init)
  {
    n[0] = n0; n[1] = n1;
    dense();
    p = (value_type*)nlv_alloc(sizeof(value_type), rank, n0, n1, init);
  }
  value_type* p;
  size_t n[2];
  size_t s[2];
};

template <class... A> struct RangePolicy {
  RangePolicy(long b, long e) : b(b), e(e) {}
  long b, e;
};
template <int N> struct Rank {};
template <class... A> struct MDRangePolicy {
  struct idx { long v[2]; };
  MDRangePolicy(const idx& l, const idx& u) : b{l.v[0], l.v[1]}, e{u.v[0], u.v[1]} {}
  long b[2], e[2];
};

template <class... A, class F>
void parallel_for(const RangePolicy<A...>& r, const F& f)
{
  for (long i = r.b; i < r.e; ++i) f(i);
}
template <class... A, class F>
void parallel_for(const MDRangePolicy<A...>& r, const F& f)
{
  for (long j = r.b[1]; j < r.e[1]; ++j)
    for (long i = r.b[0]; i < r.e[0]; ++i) f(i, j);
}
template <class S, class R, class F> void parallel_for(const S&, const R& r, const F& f) { parallel_for(r, f); }
template <class F> void parallel_for(size_t n, const F& f) { parallel_for(RangePolicy<>(0, n), f); }

template <class... A, class F, class T>
void parallel_reduce(const RangePolicy<A...>& r, const F& f, T& result)
{
  T acc(0);
  for (long i = r.b; i < r.e; ++i) f(i, acc);
  result = acc;
}
template <class... A, class F, class T>
void parallel_reduce(const MDRangePolicy<A...>& r, const F& f, T& result)
{
  T acc(0);
  for (long j = r.b[1]; j < r.e[1]; ++j)
    for (long i = r.b[0]; i < r.e[0]; ++i) f(i, j, acc);
  result = acc;
}
template <class S, class R, class F, class T> void parallel_reduce(const S&, const R& r, const F& f, T& result) { parallel_reduce(r, f, result); }

template <class D1, class... P1, class D2, class... P2>
void deep_copy(const View<D1, P1...>& dst, const View<D2, P2...>& src)
{
  if (dst.extent(0) != src.extent(0) || dst.extent(1) != src.extent(1))
    throw std::runtime_error("Kokkos::deep_copy extents of views don't match");
  if (nlv_dt<D1>::rank == 1) {
    for (size_t i = 0; i < src.extent(0); ++i) dst(i) = src(i);
  } else {
    for (size_t j = 0; j < src.extent(1); ++j)
      for (size_t i = 0; i < src.extent(0); ++i) dst(i, j) = src(i, j);
  }
}
template <class D1, class... P1>
void deep_copy(const View<D1, P1...>& dst, const typename View<D1, P1...>::value_type& v)
{
  for (size_t j = 0; j < dst.extent(1); ++j)
    for (size_t i = 0; i < dst.extent(0); ++i) { if (nlv_dt<D1>::rank == 1) dst(i) = v; else dst(i, j) = v; }
}

template <class D, class... P>
typename View<D, P...>::HostMirror create_mirror(const View<D, P...>& v)
{
  return typename View<D, P...>::HostMirror(std::string(), v.extent(0), v.extent(1));
}
template <class Space, class D, class... P>
View<D, typename View<D, P...>::array_layout, Space> create_mirror(const Space&, const View<D, P...>& v)
{
  return View<D, typename View<D, P...>::array_layout, Space>(std::string(), v.extent(0), v.extent(1));
}
template <class D, class... P>
View<D, P...> create_mirror_view(const View<D, P...>& v) { return v; }
template <class Space, class D, class... P>
View<D, P...> create_mirror_view(const Space&, const View<D, P...>& v) { return v; }
template <class Space, class D, class... P>
View<D, P...> create_mirror_view_and_copy(const Space&, const View<D, P...>& v, const std::string& = std::string()) { return v; }

struct InitArguments { int num_threads; bool disable_warnings; };
inline void initialize(const InitArguments&) {}
inline void initialize() {}
inline void finalize() {}
inline void fence() {}
}  // namespace Kokkos
