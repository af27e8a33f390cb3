// P13: bitsets of three and four words: the harnesses of P13_bitset.cpp over a 256-bit reference
#include "vpu.hpp"
// VP-ONLY: gcc -DVP_GCC -DSPROUT_HAS_CONSTEXPR_BIT_OPERATION=1
// VP-VARIANT: clang -DVP_CLANG
struct W { unsigned __int128 l, h; W(unsigned __int128 a = 0, unsigned __int128 b = 0) : l(a), h(b) {}
  W operator~() const { return W(~l, ~h); } explicit operator bool() const { return (l | h) != 0; } explicit operator std::size_t() const { return (std::size_t)l; } explicit operator ull() const { return (ull)l; } };
inline W operator&(W a, W b) { return W(a.l & b.l, a.h & b.h); }
inline W operator|(W a, W b) { return W(a.l | b.l, a.h | b.h); }
inline W operator^(W a, W b) { return W(a.l ^ b.l, a.h ^ b.h); }
inline bool operator==(W a, W b) { return a.l == b.l && a.h == b.h; }
inline bool operator!=(W a, W b) { return !(a == b); }
inline W operator<<(W a, std::size_t p) { return p >= 256 ? W() : p >= 128 ? W(0, a.l << (p - 128)) : p ? W(a.l << p, a.h << p | a.l >> (128 - p)) : a; }
inline W operator>>(W a, std::size_t p) { return p >= 256 ? W() : p >= 128 ? W(a.h >> (p - 128)) : p ? W(a.l >> p | a.h << (128 - p), a.h >> p) : a; }
#define VP_WIDE
#include "P13_bitset.cpp"
ALL(150)
ALL(200)
