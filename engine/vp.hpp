// Harness API.  The same source is (a) compiled by clang to LLVM IR and executed symbolically (every vp::nd<T>() is a symbolic
// bit-vector, every CHECK a solver query), and (b) compiled natively by g++/clang++ to replay solver models on the real code.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" {
std::uint8_t vp_nd_u8() noexcept;
std::uint16_t vp_nd_u16() noexcept;
std::uint32_t vp_nd_u32() noexcept;
std::uint64_t vp_nd_u64() noexcept;
void vp_assume(bool) noexcept;
void vp_assert(bool, unsigned) noexcept;
bool vp_fork(bool) noexcept;
std::uint64_t vp_concrete(std::uint64_t) noexcept;
}
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
#define HARNESS(name) extern "C" __attribute__((used)) void h_##name()
// explored in the thorough tier only
#define HARNESS_T(name) extern "C" __attribute__((used)) void ht_##name()
#define CHECK(...) vp_assert(bool(__VA_ARGS__), __LINE__)
#define ASSUME(...) vp_assume(bool(__VA_ARGS__))
namespace vp {
template <std::size_t N> struct ndraw;
template <> struct ndraw<1> { static std::uint8_t get() { return vp_nd_u8(); } };
template <> struct ndraw<2> { static std::uint16_t get() { return vp_nd_u16(); } };
template <> struct ndraw<4> { static std::uint32_t get() { return vp_nd_u32(); } };
template <> struct ndraw<8> { static std::uint64_t get() { return vp_nd_u64(); } };
template <class T, bool F = std::is_floating_point<T>::value> struct ndval { static T get() { return static_cast<T>(ndraw<sizeof(T)>::get()); } };
template <> struct ndval<bool, false> { static bool get() { return (vp_nd_u8() & 1) != 0; } };
template <class T> struct ndval<T, true> { static T get() { auto r = ndraw<sizeof(T)>::get(); T t; __builtin_memcpy(&t, &r, sizeof t); return t; } };
// an arbitrary value of T
template <class T> inline T nd() { return ndval<T>::get(); }
// an arbitrary value in [lo, hi]
template <class T> inline T range(T lo, T hi) { // small ranges are drawn from few bits
  unsigned long long span = static_cast<unsigned long long>(hi) - static_cast<unsigned long long>(lo); unsigned m = 1; while (m < span && m < 255) m = m * 2 + 1;
  if (!std::is_floating_point<T>::value && sizeof(T) > 1 && span <= 255) { std::uint8_t r = static_cast<std::uint8_t>(vp_nd_u8() & m); if (m != span) vp_assume(r <= span); return static_cast<T>(lo + static_cast<T>(r)); }
  T x = nd<T>(); vp_assume(x >= lo && x <= hi); return x; }
inline bool flag() { return nd<bool>(); }
// x, with one path per feasible value
template <class T> inline T concrete(T x) { return static_cast<T>(vp_concrete(static_cast<std::uint64_t>(x))); }
// an arbitrary value in [lo, hi], with one path per value
template <class T> inline T pick(T lo, T hi) { return concrete(range(lo, hi)); }
// c, with one path per truth value
inline bool fork(bool c) { return vp_fork(c); }
template <class T> inline T bits_of(T x) { return x; }
}
#endif
