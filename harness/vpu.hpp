// Shared helpers of the harnesses: symbolic sequences, iterators of every category over them, small oracles.
#ifndef VPU_HPP
#define VPU_HPP
#include "vp.hpp"
#include <iterator>
#include <sprout/config.hpp>
#ifdef VP_GCC   // the branches g++ takes: the symbolic executor reads clang's IR, whose configuration differs in this one macro (and in SPROUT_HAS_CONSTEXPR_*)
#undef SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE
#endif
#if defined(VP_CLANG) && !defined(SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE)   // and the other way round, for native replay with g++
#define SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE
#endif
#include <sprout/array.hpp>
typedef signed char sc;
typedef unsigned char uc;
typedef unsigned long long ull;
// an iterator over [b, e) with the given category; dereferencing or moving outside the range is a violation
template <class T, class Tag> struct Rng {
  typedef Tag iterator_category; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
  T* b; T* e; T* p;
  constexpr Rng() : b(0), e(0), p(0) {}
  constexpr Rng(T* b, T* e, T* p) : b(b), e(e), p(p) {}
  T& operator*() const { vp_assert(p >= b && p < e, 9001); return *p; }
  T* operator->() const { return p; }
  Rng& operator++() { vp_assert(p < e, 9002); ++p; return *this; }
  Rng operator++(int) { Rng r = *this; ++*this; return r; }
  Rng& operator--() { vp_assert(p > b, 9003); --p; return *this; }
  Rng operator--(int) { Rng r = *this; --*this; return r; }
  void swap(Rng& o) { Rng t = *this; *this = o; o = t; } friend void swap(Rng& x, Rng& y) { x.swap(y); }
  friend bool operator==(Rng const& x, Rng const& y) { return x.p == y.p; }
  friend bool operator!=(Rng const& x, Rng const& y) { return x.p != y.p; }
};
template <class T> struct RngRA {
  typedef std::random_access_iterator_tag iterator_category; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
  T* b; T* e; T* p;
  constexpr RngRA() : b(0), e(0), p(0) {}
  constexpr RngRA(T* b, T* e, T* p) : b(b), e(e), p(p) {}
  T& operator*() const { vp_assert(p >= b && p < e, 9001); return *p; }
  T* operator->() const { return p; }
  T& operator[](std::ptrdiff_t n) const { vp_assert(n >= b - p && n < e - p, 9004); return p[n]; }
  RngRA& operator++() { vp_assert(p < e, 9002); ++p; return *this; }
  RngRA operator++(int) { RngRA r = *this; ++*this; return r; }
  RngRA& operator--() { vp_assert(p > b, 9003); --p; return *this; }
  RngRA operator--(int) { RngRA r = *this; --*this; return r; }
  RngRA& operator+=(std::ptrdiff_t n) { vp_assert(n >= b - p && n <= e - p, 9005); p += n; return *this; }
  RngRA& operator-=(std::ptrdiff_t n) { return *this += -n; }
  void swap(RngRA& o) { RngRA t = *this; *this = o; o = t; } friend void swap(RngRA& x, RngRA& y) { x.swap(y); }
  friend RngRA operator+(RngRA x, std::ptrdiff_t n) { x += n; return x; }
  friend RngRA operator+(std::ptrdiff_t n, RngRA x) { x += n; return x; }
  friend RngRA operator-(RngRA x, std::ptrdiff_t n) { x -= n; return x; }
  friend std::ptrdiff_t operator-(RngRA const& x, RngRA const& y) { return x.p - y.p; }
  friend bool operator==(RngRA const& x, RngRA const& y) { return x.p == y.p; }
  friend bool operator!=(RngRA const& x, RngRA const& y) { return x.p != y.p; }
  friend bool operator<(RngRA const& x, RngRA const& y) { return x.p < y.p; }
  friend bool operator>(RngRA const& x, RngRA const& y) { return x.p > y.p; }
  friend bool operator<=(RngRA const& x, RngRA const& y) { return x.p <= y.p; }
  friend bool operator>=(RngRA const& x, RngRA const& y) { return x.p >= y.p; }
};
// iterator kinds: K::make(T* b, T* e, T* p)
struct KPtr { template <class T> static T* make(T* b, T* e, T* p) { return p; } template <class T> static std::ptrdiff_t at(T* b, T* it) { return it - b; } };
struct KRa { template <class T> static RngRA<T> make(T* b, T* e, T* p) { return RngRA<T>(b, e, p); } template <class T> static std::ptrdiff_t at(T* b, RngRA<T> it) { return it.p - b; } };
template <class Tag> struct KTag { template <class T> static Rng<T, Tag> make(T* b, T* e, T* p) { return Rng<T, Tag>(b, e, p); } template <class T> static std::ptrdiff_t at(T* b, Rng<T, Tag> it) { return it.p - b; } };
typedef KTag<std::input_iterator_tag> KIn;
typedef KTag<std::forward_iterator_tag> KFwd;
typedef KTag<std::bidirectional_iterator_tag> KBi;
// a symbolic sequence of at most N elements; its length n has one path per value
template <class T, int N> struct Seq {
  T v[N ? N : 1]; int n;
  explicit Seq(int lo = 0) { n = lo == N ? N : vp::pick<int>(lo, N); for (int i = 0; i < N; ++i) v[i] = vp::nd<T>(); }
  template <class K> auto b() const -> decltype(K::make((T const*)0, (T const*)0, (T const*)0)) { return K::make((T const*)v, (T const*)(v + n), (T const*)v); }
  template <class K> auto e() const -> decltype(K::make((T const*)0, (T const*)0, (T const*)0)) { return K::make((T const*)v, (T const*)(v + n), (T const*)(v + n)); }
  template <class K> auto mb() -> decltype(K::make((T*)0, (T*)0, (T*)0)) { return K::make((T*)v, (T*)(v + n), (T*)v); }
  template <class K> auto me() -> decltype(K::make((T*)0, (T*)0, (T*)0)) { return K::make((T*)v, (T*)(v + n), (T*)(v + n)); }
  template <class K> auto mp(int i) -> decltype(K::make((T*)0, (T*)0, (T*)0)) { return K::make((T*)v, (T*)(v + n), (T*)(v + i)); }
  template <class K> auto cp(int i) const -> decltype(K::make((T const*)0, (T const*)0, (T const*)0)) { return K::make((T const*)v, (T const*)(v + n), (T const*)(v + i)); }
  T& operator[](int i) { return v[i]; }
  T const& operator[](int i) const { return v[i]; }
  bool sorted() const { bool s = true; for (int i = 1; i < n; ++i) s &= !(v[i] < v[i - 1]); return s; }
};
template <class K, class T, int N, class It> int at(Seq<T, N> const& s, It it) { return (int)K::at((T const*)s.v, it); }
template <class K, class T, int N, class It> int mat(Seq<T, N>& s, It it) { return (int)K::at((T*)s.v, it); }
template <class T, std::size_t N> sprout::array<T, N> nd_array() { sprout::array<T, N> a{{}}; for (std::size_t i = 0; i < N; ++i) a[i] = vp::nd<T>(); return a; }
template <class A> int occ(A const& a, int n, int v) { int c = 0; for (int i = 0; i < n; ++i) c += a[i] == v; return c; }
// orders and predicates with state
struct Below { sc k; template <class T> bool operator()(T x) const { return x < k; } };
struct Odd { template <class T> bool operator()(T x) const { return (x & 1) != 0; } };
struct HalfLess { template <class T> bool operator()(T x, T y) const { return (x >> 1) < (y >> 1); } };   // a strict weak order with distinct equivalent elements
struct HalfEq { template <class T> bool operator()(T x, T y) const { return (x >> 1) == (y >> 1); } };
struct Greater { template <class T, class U> bool operator()(T x, U y) const { return y < x; } };
// elements that remember where they came from: key in the high 5 bits, original position in the low 3
struct KeyLess { bool operator()(uc x, uc y) const { return (x >> 3) < (y >> 3); } };
struct KeyGreater { bool operator()(uc x, uc y) const { return (x >> 3) > (y >> 3); } };
template <class A> void tag(A& a, int n) { for (int i = 0; i < n; ++i) a[i] = (uc)((vp::nd<uc>() << 3) | i); }
// o[0..n) holds the elements of a[0..n) in some order (all elements of a pairwise distinct through their tags)
template <class O, class A> bool tagged_perm(O const& o, A const& a, int n) {
  unsigned seen = 0; bool ok = true;
  for (int i = 0; i < n; ++i) { unsigned k = o[i] & 7u; seen |= 1u << k; bool m = false; for (int j = 0; j < n; ++j) m |= k == (unsigned)j & o[i] == a[j]; ok &= m; }
  return ok & (seen == (1u << n) - 1u);
}
template <class O, class A> bool is_perm(O const& o, A const& a, int n) { bool ok = true; for (int i = 0; i < n; ++i) ok &= occ(o, n, o[i]) == occ(a, n, o[i]); return ok; }
template <class O, class Q> bool ordered(O const& o, int f, int l, Q q) { bool ok = true; for (int i = f + 1; i < l; ++i) ok &= !q(o[i], o[i - 1]); return ok; }
template <class O, class Q> bool heap(O const& o, int n, Q q) { bool ok = true; for (int i = 1; i < n; ++i) ok &= !q(o[(i - 1) / 2], o[i]); return ok; }
template <class O, class A> bool same(O const& o, A const& a, int f, int l) { bool ok = true; for (int i = f; i < l; ++i) ok &= o[i] == a[i]; return ok; }
#endif
