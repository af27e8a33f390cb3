// P15: checksums
#include "vpu.hpp"
#include <sprout/checksum.hpp>
#include <sprout/endian_traits.hpp>
#include <sprout/iterator/bytes_iterator.hpp>
// VP-ONLY: gcc -DVP_GCC -DSPROUT_HAS_CONSTEXPR_BIT_OPERATION=1
// VP-VARIANT: clang -DVP_CLANG
// VP-OPT: * max-instr=200000000
#include "digest.hpp"
template <std::size_t N> bool same(sprout::array<u8, N> const& v, u8 const* r) { bool ok = true; for (std::size_t i = 0; i < N; ++i) ok &= v[i] == r[i]; return ok; }
// a message of n bytes, one of them arbitrary (four of its bits in the quick tier)
struct Msg { u8 m[CAP]; int n; explicit Msg(int n, int at) : n(n) { for (int i = 0; i < n; ++i) m[i] = (u8)(37 * i + 11); if (n) m[at % n] = VP_THOROUGH ? vp::nd<u8>() : (u8)(0x42 | (vp::nd<u8>() & 0xb1)); } };
template <int N, int AT> void md5_len() { Msg q(N, AT); u8 r[16]; ref_md5(q.m, N * 8, r); CHECK(same(sprout::make_md5((u8 const*)q.m, (u8 const*)q.m + N), r)); }
template <int N, int AT> void md5_run() { Msg q(N, AT); u8 r[16]; ref_md5(q.m, N * 8, r); sprout::md5 s; s.process_bytes((u8 const*)q.m, N / 2); for (int i = N / 2; i < N; ++i) s.process_byte(q.m[i]); CHECK(same(s(), r)); s.reset(); ref_md5(q.m, 0, r); CHECK(same(s.checksum(), r)); }
template <int N, int AT> void sha_len() { Msg q(N, AT); u8 r[20]; ref_sha1(q.m, N, r); CHECK(same(sprout::make_sha1((u8 const*)q.m, (u8 const*)q.m + N), r)); }
template <int N, int AT> void sha_run() { Msg q(N, AT); u8 r[20]; ref_sha1(q.m, N, r); sprout::sha1 s; s.process_bytes((u8 const*)q.m, N / 2); for (int i = N / 2; i < N; ++i) s.process_byte(q.m[i]); CHECK(same(s(), r)); s.reset(); ref_sha1(q.m, 0, r); CHECK(same(s.checksum(), r)); }
template <int N> void sha_steps() { Msg q(N, N / 2); u8 r[20]; ref_sha1(q.m, N, r); sprout::sha1 const a = sprout::sha1().c_process_bytes((u8 const*)q.m, N / 3); sprout::sha1 const b = a.process_bytes((u8 const*)q.m + N / 3, N - N / 3 - 1); CHECK(same(b.process_byte(q.m[N - 1])(), r)); }
template <int N> void md5_steps() { Msg q(N, N / 2); u8 r[16]; ref_md5(q.m, N * 8, r); sprout::md5 const a = sprout::md5().c_process_bytes((u8 const*)q.m, N / 3); sprout::md5 const b = a.process_bytes((u8 const*)q.m + N / 3, N - N / 3 - 1); CHECK(same(b.process_byte(q.m[N - 1])(), r)); }
template <int BITS> void md5_bits() { Msg q(BITS / 8 + 1, BITS / 8); u8 r[16]; ref_md5(q.m, BITS, r); sprout::md5 const a = sprout::md5().c_process_bytes((u8 const*)q.m, BITS / 8); int rest = BITS % 8; CHECK(same(a.c_process_bits((u8)(q.m[BITS / 8] >> (8 - rest)), rest)(), r)); sprout::md5 s; s.process_bytes((u8 const*)q.m, BITS / 8); s.process_bits((u8)(q.m[BITS / 8] >> (8 - rest)), rest); CHECK(same(s(), r)); sprout::md5 t = a; for (int i = 0; i < rest; ++i) t = t.c_process_bit((q.m[BITS / 8] >> (7 - i)) & 1); CHECK(same(t(), r)); }
// bytes after bits that do not fill a byte
static void md5_unaligned() { u8 m[4] = {0x5a, 0, 0, 0}; u8 x = VP_THOROUGH ? vp::nd<u8>() : (u8)(0x42 | (vp::nd<u8>() & 0xb1)); u8 r[16]; u8 w[3] = {(u8)(0xa0 | (x >> 3)), (u8)(x << 5), 0}; ref_md5(w, 11, r); CHECK(same(sprout::md5().c_process_bits(5, 3).c_process_byte(x)(), r)); sprout::md5 s; s.process_bits(5, 3); s.process_byte(x); CHECK(same(s(), r)); (void)m; }
#define MD(n, at) HARNESS(md5_len_##n##_##at) { md5_len<n, at>(); } HARNESS(md5_run_##n##_##at) { md5_run<n, at>(); }
#define MD_T(n, at) HARNESS_T(md5_len_##n##_##at) { md5_len<n, at>(); } HARNESS_T(md5_run_##n##_##at) { md5_run<n, at>(); }
MD(0, 0) MD(1, 0) MD(55, 54) MD(56, 40) MD(64, 63) MD(65, 64) MD(120, 119)
MD_T(3, 1) MD_T(13, 5) MD_T(57, 0) MD_T(63, 62) MD_T(119, 90) MD_T(128, 127) MD_T(183, 182) MD_T(192, 64)
#define SHL(n, at) HARNESS(sha_len_##n##_##at) { sha_len<n, at>(); }
#define SHL_T(n, at) HARNESS_T(sha_len_##n##_##at) { sha_len<n, at>(); }
#define SHR(n, at) HARNESS(sha_run_##n##_##at) { sha_run<n, at>(); }
#define SHR_T(n, at) HARNESS_T(sha_run_##n##_##at) { sha_run<n, at>(); }
SHL(0, 0) SHL(1, 0) SHL(55, 54) SHL(56, 40) SHL(64, 63)
SHL_T(3, 1) SHL_T(13, 5) SHL_T(57, 0) SHL_T(63, 62)
SHR_T(0, 0) SHR_T(1, 0) SHR_T(3, 1) SHR_T(13, 5) SHR_T(56, 40) SHR_T(57, 0) SHR_T(63, 62) SHR_T(64, 63) SHR_T(119, 118)
#ifdef VP_GCC
SHR(55, 54) SHR(65, 64) SHL(65, 64) SHL(119, 118) SHL_T(120, 119) SHR_T(120, 119) SHL_T(128, 127) SHR_T(128, 127) SHL_T(183, 182)
HARNESS(sha_steps_70) { sha_steps<70>(); }
#else   // known: where the compiler needs the recursion workaround (clang), a block that reaches past the end of a 64-byte chunk is refused with an exception
extern "C" __attribute__((used)) void hk_sha1_clang_over_64() { sha_len<65, 64>(); }
#endif
HARNESS(md5_steps_9) { md5_steps<9>(); }
HARNESS(md5_steps_70) { md5_steps<70>(); }
HARNESS(sha_steps_9) { sha_steps<9>(); }
HARNESS(md5_bits_1) { md5_bits<1>(); }
HARNESS(md5_bits_13) { md5_bits<13>(); }
HARNESS_T(md5_bits_446) { md5_bits<446>(); }
HARNESS(md5_bits_447) { md5_bits<447>(); }
HARNESS_T(md5_bits_449) { md5_bits<449>(); }
HARNESS(md5_bits_511) { md5_bits<511>(); }
HARNESS(md5_unaligned) { md5_unaligned(); }
// wider elements go in byte by byte, in the order of the bytes iterator; strings up to their terminator
template <class T, int W> void put(T x, u8* o) { for (int i = 0; i < W; ++i) o[i] = sprout::endian_traits<T>::get_byte(x, i); }
HARNESS(wide) { char16_t c[3] = {vp::nd<char16_t>(), u'z', 0}; ASSUME(c[0] != 0); ASSUME((c[0] & 0x7ffa) == 0x0120); u8 b[4], r[20]; put<char16_t, 2>(c[0], b); put<char16_t, 2>(c[1], b + 2); ref_md5(b, 32, r); CHECK(same(sprout::make_md5(c), r)); ref_sha1(b, 4, r); CHECK(same(sprout::make_sha1(c), r)); u8 s = 0, x = 0; for (int i = 0; i < 4; ++i) { s += b[i]; x ^= b[i]; } CHECK(sprout::make_sum8(c) == s); CHECK(sprout::make_xor8(c) == x); }
HARNESS(text) { char c[3] = {vp::nd<char>(), 'q', 0}; ASSUME((c[0] & 0x2d) == 0); u8 b[2] = {(u8)c[0], 'q'}; int n = vp::concrete<bool>(c[0] != 0) ? 2 : 0; u8 r[20]; ref_md5(b, n * 8, r); CHECK(same(sprout::make_md5(c), r)); ref_sha1(b, n, r); CHECK(same(sprout::make_sha1(c), r)); sprout::basic_string<char, 4> s(c); ref_md5(b, n * 8, r); CHECK(same(sprout::make_md5(s), r)); ref_sha1(b, n, r); CHECK(same(sprout::make_sha1(s), r)); }
// ---- sums
template <class S, class Make> void sums(Make make, ull mask) { Seq<u8, 5> q; ull t = 0; for (int i = 0; i < q.n; ++i) t += q.v[i]; CHECK(make((u8 const*)q.v, (u8 const*)q.v + q.n) == (t & mask)); std::size_t s0 = vp::nd<std::size_t>(); int k = q.n / 2; S const a(s0); S const f = a.process_bytes((u8 const*)q.v, k).process_block((u8 const*)q.v + k, (u8 const*)q.v + q.n).process_byte(9); CHECK(f() == ((s0 + t + 9) & mask));
  S m; m.process_bytes((u8 const*)q.v, k); m.process_block((u8 const*)q.v + k, (u8 const*)q.v + q.n); m.process_byte(3); CHECK(m.checksum() == ((t + 3) & mask)); m.reset(s0); CHECK(m() == (s0 & mask)); sprout::array<u8, 3> r = nd_array<u8, 3>(); m.process_range(r); CHECK(m() == ((s0 + r[0] + r[1] + r[2]) & mask)); CHECK(a.process_range(r)() == ((s0 + r[0] + r[1] + r[2]) & mask)); }
struct M8 { template <class I> u8 operator()(I b, I e) const { return sprout::make_sum8(b, e); } };
struct M16 { template <class I> std::uint16_t operator()(I b, I e) const { return sprout::make_sum16(b, e); } };
struct M32 { template <class I> u32 operator()(I b, I e) const { return sprout::make_sum32(b, e); } };
HARNESS(sum8) { sums<sprout::sum8>(M8(), 0xff); }
HARNESS(sum16) { sums<sprout::sum16>(M16(), 0xffff); }
HARNESS(sum32) { sums<sprout::sum32>(M32(), 0xffffffff); }
HARNESS(xor8) { Seq<u8, 5> q; u8 t = 0; for (int i = 0; i < q.n; ++i) t ^= q.v[i]; CHECK(sprout::make_xor8((u8 const*)q.v, (u8 const*)q.v + q.n) == t); int k = q.n / 2; sprout::xor8 const a; CHECK(a.process_bytes((u8 const*)q.v, k).process_block((u8 const*)q.v + k, (u8 const*)q.v + q.n).process_byte(9)() == (u8)(t ^ 9)); sprout::xor8 m; m.process_bytes((u8 const*)q.v, k); m.process_block((u8 const*)q.v + k, (u8 const*)q.v + q.n); m.process_byte(3); CHECK(m.checksum() == (u8)(t ^ 3)); u8 s0 = vp::nd<u8>(); m.reset(s0); CHECK(m() == s0); }
// ---- bytes of integers
template <class T> void bytes() { const int W = sizeof(T); T x = vp::nd<T>(); typedef sprout::big_endian_traits<T> B; typedef sprout::little_endian_traits<T> L; typedef typename std::make_unsigned<T>::type U; CHECK(B::size() == W && L::size() == W); int i = vp::pick<int>(0, W - 1); u8 v = vp::nd<u8>(); CHECK(L::get_byte(x, i) == (u8)((U)x >> (8 * i))); CHECK(B::get_byte(x, i) == (u8)((U)x >> (8 * (W - 1 - i))));
  T y = x; L::set_byte(y, i, v); for (int j = 0; j < W; ++j) CHECK(L::get_byte(y, j) == (j == i ? v : L::get_byte(x, j))); y = x; B::set_byte(y, i, v); for (int j = 0; j < W; ++j) CHECK(B::get_byte(y, j) == (j == i ? v : B::get_byte(x, j))); }
HARNESS(bytes_8) { bytes<signed char>(); }
HARNESS(bytes_16) { bytes<short>(); bytes<unsigned short>(); }
HARNESS(bytes_32) { bytes<int>(); bytes<unsigned>(); }
HARNESS(bytes_64) { bytes<long>(); bytes<unsigned long long>(); }
// ---- a position in the bytes of three elements: every move lands where the byte count says
template <class T, class Tr, class K> void walk() { const int W = sizeof(T), N = 3; T v[N]; for (int i = 0; i < N; ++i) v[i] = vp::nd<T>(); typedef decltype(K::make((T const*)v, (T const*)v + N, (T const*)v)) I; typedef sprout::bytes_iterator<I, Tr> B; B b(K::make((T const*)v, (T const*)v + N, (T const*)v)); int p = vp::pick<int>(0, N * W); B it = b; for (int i = 0; i < p; ++i) ++it; CHECK(it.base() == K::make((T const*)v, (T const*)v + N, (T const*)v + p / W)); CHECK(it.index() == p % W); if (p < N * W) { CHECK(*it == Tr::get_byte(v[p / W], p % W)); B x = it; CHECK(*x++ == *it); CHECK(sprout::next(it) == x); }
  CHECK((it == b) == (p == 0)); CHECK((it != b) == (p != 0)); }
template <class T, class Tr, class K> void back() { const int W = sizeof(T), N = 3; T v[N]; for (int i = 0; i < N; ++i) v[i] = vp::nd<T>(); typedef decltype(K::make((T const*)v, (T const*)v + N, (T const*)v)) I; typedef sprout::bytes_iterator<I, Tr> B; B it(K::make((T const*)v, (T const*)v + N, (T const*)v + N)); int p = vp::pick<int>(0, N * W); for (int i = N * W; i > p; --i) --it; CHECK(it.base() == K::make((T const*)v, (T const*)v + N, (T const*)v + p / W)); CHECK(it.index() == p % W); if (p > 0) CHECK(*sprout::prev(it) == Tr::get_byte(v[(p - 1) / W], (p - 1) % W)); }
template <class T, class Tr> void jump() { const int W = sizeof(T), N = 3; T v[N]; for (int i = 0; i < N; ++i) v[i] = vp::nd<T>(); typedef sprout::bytes_iterator<T const*, Tr> B; B b((T const*)v); int p = vp::pick<int>(0, N * W), q = vp::pick<int>(0, N * W); B x = b + p; CHECK(x.base() == v + p / W); CHECK(x.index() == p % W); B y = x + (q - p); CHECK(y.base() == v + q / W); CHECK(y.index() == q % W); y = x - (p - q); CHECK(y.base() == v + q / W); CHECK(y.index() == q % W); y = x; y += q - p; CHECK(y.base() == v + q / W); CHECK(y.index() == q % W); y = x; y -= p - q; CHECK(y.base() == v + q / W); CHECK(y.index() == q % W); CHECK(y - x == q - p); CHECK((x < y) == (p < q)); CHECK((x > y) == (p > q)); CHECK((x <= y) == (p <= q)); CHECK((x >= y) == (p >= q)); if (q < N * W) { CHECK(x[q - p] == Tr::get_byte(v[q / W], q % W)); CHECK(*(p + (b + (q - p))) == Tr::get_byte(v[q / W], q % W)); } }
#define BY(n, T) HARNESS(bi_walk_fwd_##n) { walk<T, sprout::big_endian_traits<T>, KFwd>(); } HARNESS(bi_walk_##n) { walk<T, sprout::little_endian_traits<T>, KPtr>(); } HARNESS(bi_back_##n) { back<T, sprout::big_endian_traits<T>, KBi>(); } HARNESS(bi_jump_##n) { jump<T, sprout::little_endian_traits<T> >(); }
BY(8, unsigned char) BY(16, short) BY(32, unsigned)
