// P16: uuid
#include "vpu.hpp"
#include <sprout/uuid.hpp>
#include <stdexcept>
// VP-ONLY: gcc -DVP_GCC -DSPROUT_HAS_CONSTEXPR_BIT_OPERATION=1
// VP-VARIANT: clang -DVP_CLANG
// VP-OPT: * max-instr=200000000
#include "digest.hpp"
typedef sprout::uuids::uuid U;
static const char HEX[] = "0123456789abcdef";
static const u8 BASE[16] = {0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8};
static U base() { U u; for (int i = 0; i < 16; ++i) u.elems[i] = BASE[i]; return u; }
static U any() { U u; for (int i = 0; i < 16; ++i) u.elems[i] = vp::nd<u8>(); return u; }
// ---- reference text form and parser
template <class C> int text(U const& u, C* o, bool dashes) { int n = 0; for (int i = 0; i < 16; ++i) { o[n++] = (C)HEX[u.elems[i] >> 4]; o[n++] = (C)HEX[u.elems[i] & 15]; if (dashes && (i == 3 || i == 5 || i == 7 || i == 9)) o[n++] = (C)'-'; } o[n] = C(); return n; }
template <class C> int hexv(C c) { if (c >= (C)'0' && c <= (C)'9') return (int)(c - (C)'0'); if (c >= (C)'a' && c <= (C)'f') return (int)(c - (C)'a') + 10; if (c >= (C)'A' && c <= (C)'F') return (int)(c - (C)'A') + 10; return -1; }
template <class C> bool parse(C const* s, int n, u8* out) { int p = 0; bool open = false, dashes = false; if (p < n && s[p] == (C)'{') { open = true; ++p; }
  for (int i = 0; i < 16; ++i) { if (i == 4) { if (p >= n) return false; dashes = s[p] == (C)'-'; if (dashes) ++p; } else if ((i == 6 || i == 8 || i == 10) && dashes) { if (p >= n || s[p] != (C)'-') return false; ++p; }
    if (p >= n) return false; int h = hexv(s[p++]); if (h < 0) return false; if (p >= n) return false; int l = hexv(s[p++]); if (l < 0) return false; out[i] = (u8)(h * 16 + l); }
  if (open) { if (p >= n || s[p] != (C)'}') return false; } return true; }
template <class C, class F> void same_parse(C const* s, int n, F f) { u8 r[16] = {}; bool ok = parse(s, n, r); bool got = false, err = false; U u = base(); try { u = f(); got = true; } catch (std::runtime_error const&) { err = true; } CHECK(got == ok); CHECK(err == !ok); if (got) { bool e = true; for (int i = 0; i < 16; ++i) e &= u.elems[i] == r[i]; CHECK(e); } }
// ---- to_string
HARNESS(to_string_all) { U u = any(); char b[40]; text(u, b, true); auto s = sprout::uuids::to_string(u); CHECK(s.size() == 36); bool e = true; for (int i = 0; i < 36; ++i) e &= s[i] == b[i]; CHECK(e); CHECK(s.c_str()[36] == 0); }
HARNESS(to_wstring_all) { U u = any(); char b[40]; text(u, b, true); auto s = sprout::uuids::to_wstring(u); auto t = sprout::uuids::to_u16string(u); auto v = sprout::uuids::to_u32string(u); CHECK(s.size() == 36 && t.size() == 36 && v.size() == 36); bool e = true; for (int i = 0; i < 36; ++i) e &= s[i] == (wchar_t)b[i] && t[i] == (char16_t)b[i] && v[i] == (char32_t)b[i]; CHECK(e); }
// ---- parsing: a text in which one or two characters are arbitrary
template <class C, bool DASH, bool BRACE> struct Txt { C b[44]; int n; Txt() { U u = base(); n = 0; if (BRACE) b[n++] = (C)'{'; n += text(u, b + n, DASH); if (BRACE) b[n++] = (C)'}'; b[n] = C(); } };
template <class C, bool DASH, bool BRACE> void one_char() { Txt<C, DASH, BRACE> t; int p = vp::pick<int>(0, t.n - 1); t.b[p] = vp::nd<C>(); same_parse(t.b, t.n, [&] { return sprout::uuids::make_uuid((C const*)t.b, (C const*)t.b + t.n); }); }
HARNESS(parse_dash) { one_char<char, true, false>(); }
HARNESS(parse_plain) { one_char<char, false, false>(); }
HARNESS(parse_dash_brace) { one_char<char, true, true>(); }
HARNESS(parse_plain_brace) { one_char<char, false, true>(); }
HARNESS(parse_w) { one_char<wchar_t, true, false>(); }
HARNESS(parse_u16) { one_char<char16_t, true, true>(); }
HARNESS(parse_u32) { one_char<char32_t, false, false>(); }
template <class C> void shorter(bool brace) { C b[44]; U u = base(); int n = 0; if (brace) b[n++] = (C)'{'; n += text(u, b + n, true); if (brace) b[n++] = (C)'}'; n = vp::pick<int>(0, n); int p = n ? n - 1 : 0; C x = vp::nd<C>(); if (n) b[p] = x; same_parse(b, n, [&] { return sprout::uuids::string_generator()((C const*)b, (C const*)b + n); }); }
HARNESS(parse_cut) { shorter<char>(false); }
HARNESS(parse_cut_brace) { shorter<char>(true); }
// two arbitrary characters next to each other
template <bool DASH, bool BRACE> void two_char() { Txt<char, DASH, BRACE> t; static const int at[] = {0, 7, 8, 12, 13, 17, 18, 22, 23, 30}; int p = at[vp::pick<int>(0, 9)]; for (int k = 0; k < 2; ++k) { char c = vp::nd<char>(); ASSUME(c == '-' || c == '{' || c == '}' || c == '9' || c == 'f' || c == 'g' || c == 'A' || c == '/' || c == '\0'); t.b[p + k] = c; } same_parse(t.b, t.n, [&] { return sprout::uuids::make_uuid((char const*)t.b, (char const*)t.b + t.n); }); }
HARNESS(parse_two_dash) { two_char<true, false>(); }
HARNESS(parse_two_plain) { two_char<false, false>(); }
HARNESS(parse_two_brace) { two_char<true, true>(); }
// dashes only in some of the places
HARNESS(parse_some_dashes) { char b[44]; int n = 0; U u = base(); for (int i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) if (vp::nd<bool>()) b[n++] = '-'; b[n++] = HEX[u.elems[i] >> 4]; b[n++] = HEX[u.elems[i] & 15]; } b[n] = 0; same_parse(b, n, [&] { return sprout::uuids::make_uuid((char const*)b); }); }
HARNESS(parse_forms) { Txt<char, true, true> t; int p = vp::pick<int>(0, 3) * 12 + 1; char c = vp::nd<char>(); ASSUME(c != 0); t.b[p] = c; same_parse(t.b, t.n, [&] { return sprout::uuids::make_uuid((char const*)t.b); }); sprout::basic_string<char, 40> s((char const*)t.b); same_parse(t.b, t.n, [&] { return sprout::uuids::make_uuid(s); }); same_parse(t.b, t.n, [&] { return sprout::uuids::string_generator()(s); }); same_parse(t.b, t.n, [&] { return sprout::literals::operator"" _uuid(t.b, t.n); }); }
HARNESS(parse_wforms) { Txt<wchar_t, true, false> t; Txt<char16_t, true, false> u; Txt<char32_t, true, true> v; u8 x = vp::nd<u8>(); ASSUME(x != 0); t.b[3] = x; u.b[3] = x; v.b[3] = x; same_parse(t.b, t.n, [&] { return sprout::uuids::make_uuid((wchar_t const*)t.b); }); same_parse(u.b, u.n, [&] { return sprout::uuids::make_uuid((char16_t const*)u.b); }); same_parse(v.b, v.n, [&] { return sprout::uuids::make_uuid((char32_t const*)v.b); }); }
// what is printed reads back as the same value
HARNESS(round_trip) { U u = base(); int p = vp::pick<int>(0, 15); u.elems[p] = (u8)(VP_THOROUGH ? vp::nd<u8>() : vp::nd<bool>() ? vp::nd<u8>() & 0xf3 : vp::nd<u8>() | 0xc0); CHECK(sprout::uuids::make_uuid(sprout::uuids::to_string(u)) == u); }
HARNESS(round_trip_two) { U u = base(); int p = vp::pick<int>(0, 7) * 2; u.elems[p] = (u8)(vp::nd<u8>() & (VP_THOROUGH ? 0x8f : 0x89)); u.elems[p + 1] = (u8)(vp::nd<u8>() & (VP_THOROUGH ? 0xf1 : 0x91)); auto s = sprout::uuids::to_u16string(u); CHECK(sprout::uuids::make_uuid(s) == u); }
// ---- comparisons, classification, access
static int cmp(U const& a, U const& b) { int r = 0; for (int i = 15; i >= 0; --i) r = a.elems[i] < b.elems[i] ? -1 : a.elems[i] > b.elems[i] ? 1 : r; return r; }
HARNESS(compare_all) { U a = any(), b = any(); int c = cmp(a, b); CHECK((a == b) == (c == 0)); CHECK((a != b) == (c != 0)); CHECK((a < b) == (c < 0)); CHECK((a > b) == (c > 0)); CHECK((a <= b) == (c <= 0)); CHECK((a >= b) == (c >= 0)); }
HARNESS(nil) { U a = any(); bool z = true; for (int i = 0; i < 16; ++i) z &= a.elems[i] == 0; CHECK(a.is_nil() == z); CHECK(sprout::uuids::nil_uuid().is_nil()); CHECK((a == sprout::uuids::nil_uuid()) == z); CHECK((a == sprout::uuids::nil_generator()()) == z); }
HARNESS(kind) { U a = any(); int v = a.elems[6] >> 4; CHECK((int)a.version() == (v >= 1 && v <= 5 ? v : -1)); u8 x = a.elems[8]; int k = x < 0x80 ? 0 : x < 0xc0 ? 1 : x < 0xe0 ? 2 : 3; CHECK((int)a.variant() == k); CHECK(U::variant_ncs == 0 && U::variant_rfc_4122 == 1 && U::variant_microsoft == 2 && U::variant_future == 3); }
HARNESS(access) { U a = any(); U const& c = a; CHECK(a.size() == 16 && a.max_size() == 16 && !a.empty()); unsigned i = vp::pick<unsigned>(0, 18); bool thr = false; try { u8 v = c.at(i); CHECK(i < 16 && v == c.elems[i]); u8& w = a.at(i); CHECK(&w == &a.elems[i]); } catch (std::out_of_range const&) { thr = true; } CHECK(thr == (i >= 16)); thr = false; try { a.at(i); } catch (std::out_of_range const&) { thr = true; } CHECK(thr == (i >= 16)); thr = false; try { a.rangecheck(i); } catch (std::out_of_range const&) { thr = true; } CHECK(thr == (i >= 16)); if (i < 16) { CHECK(&a[i] == &a.elems[i] && &c[i] == &c.elems[i]); CHECK(a.begin()[i] == a.elems[i] && c.begin()[i] == c.elems[i] && c.cbegin()[i] == c.elems[i]); CHECK(a.rbegin()[i] == a.elems[15 - i] && c.rbegin()[i] == a.elems[15 - i] && c.crbegin()[i] == a.elems[15 - i]); } CHECK(&a.front() == a.elems && &a.back() == a.elems + 15 && &c.front() == c.elems && &c.back() == c.elems + 15 && a.data() == a.elems && c.data() == c.elems && a.c_array() == a.elems && c.c_array() == c.elems); CHECK(a.end() - a.begin() == 16 && c.end() - c.begin() == 16 && c.cend() - c.cbegin() == 16 && a.rend() - a.rbegin() == 16 && c.crend() - c.crbegin() == 16); CHECK(sprout::tuple_get<7>(a) == a.elems[7] && &sprout::tuple_get<15>(c) == &c.elems[15] && sprout::tuples::get<0>(c) == c.elems[0]); }
HARNESS(fill_swap) { U a = any(), b = any(), a0 = a, b0 = b; a.swap(b); CHECK(cmp(a, b0) == 0 && cmp(b, a0) == 0); swap(a, b); CHECK(cmp(a, a0) == 0 && cmp(b, b0) == 0); u8 x = vp::nd<u8>(); a.fill(x); b.assign(x); bool e = true; for (int i = 0; i < 16; ++i) e &= a.elems[i] == x && b.elems[i] == x; CHECK(e); }
HARNESS(hash_eq) { U a = any(), b = a; CHECK(sprout::hash_value(a) == sprout::hash_value(b)); CHECK(sprout::hash<U>()(a) == sprout::to_hash(b)); std::size_t seed = 0, r = 0; for (int i = 0; i < 16; ++i) seed = sprout::hash_combine(seed, a.elems[i]); r = sprout::hash_value(a); CHECK(seed == r); }
// ---- name-based: the digest of the namespace's bytes followed by the name's, with version and variant set
template <class D> static void named(U const& r, D const& d, int ver) { bool e = true; for (int i = 0; i < 16; ++i) { u8 x = d[i]; if (i == 6) x = (u8)((x & 0x0f) | (ver << 4)); if (i == 8) x = (u8)((x & 0x3f) | 0x80); e &= r.elems[i] == x; } CHECK(e); CHECK((int)r.version() == ver); CHECK(r.variant() == U::variant_rfc_4122); }
static U ns1() { U u = base(); u.elems[vp::pick<int>(0, 3) * 5] = (u8)(0x42 | (vp::nd<u8>() & (VP_THOROUGH ? 0xff : 0x91))); return u; }
template <int L> struct Name { char c[L + 1]; u8 all[16 + L]; Name(U const& u) { for (int i = 0; i < L; ++i) c[i] = (char)('a' + i * 3 % 26); if (L) c[L - 1] = (char)(0x40 | (vp::nd<u8>() & (VP_THOROUGH ? 0xff : 0x85))); c[L] = 0; for (int i = 0; i < 16; ++i) all[i] = u.elems[i]; for (int i = 0; i < L; ++i) all[16 + i] = (u8)c[i]; } };
template <int L, int F> void uuid3(U const& u) { Name<L> n(u); u8 d[16]; ref_md5(n.all, (16 + L) * 8, d); sprout::basic_string<char, L + 2> s((char const*)n.c); named(F == 0 ? sprout::uuids::make_uuid3(u, (char const*)n.c) : F == 1 ? sprout::uuids::make_uuid3(u)((char const*)n.c) : F == 2 ? sprout::uuids::make_uuid3(u, s) : sprout::uuids::make_uuid3(u)(s), d, 3); }
template <int L, int F> void uuid5(U const& u) { Name<L> n(u); u8 d[20]; ref_sha1(n.all, 16 + L, d); sprout::basic_string<char, L + 2> s((char const*)n.c); named(F == 0 ? sprout::uuids::make_uuid5(u, (char const*)n.c) : F == 1 ? sprout::uuids::make_uuid5(u)((char const*)n.c) : F == 2 ? sprout::uuids::make_uuid5(u, s) : sprout::uuids::make_uuid5(u)(s), d, 5); }
template <int F> void uuid3n() { Name<4> n(sprout::uuids::nil_uuid()); u8 d[16]; ref_md5(n.all, 160, d); sprout::basic_string<char, 6> s((char const*)n.c); named(F == 0 ? sprout::uuids::make_uuid3((char const*)n.c) : F == 1 ? sprout::uuids::make_uuid3()((char const*)n.c) : sprout::uuids::make_uuid3(s), d, 3); }
template <int F> void uuid5n() { Name<4> n(sprout::uuids::nil_uuid()); u8 d[20]; ref_sha1(n.all, 20, d); sprout::basic_string<char, 6> s((char const*)n.c); named(F == 0 ? sprout::uuids::make_uuid5((char const*)n.c) : F == 1 ? sprout::uuids::make_uuid5()((char const*)n.c) : sprout::uuids::make_uuid5(s), d, 5); }
HARNESS(uuid3_len0) { uuid3<0, 0>(base()); }
HARNESS(uuid3_len3) { uuid3<3, 1>(base()); }
HARNESS(uuid3_len15) { uuid3<15, 2>(base()); }
HARNESS(uuid3_len40) { uuid3<40, 0>(base()); }
HARNESS(uuid3_ns) { uuid3<1, 3>(ns1()); }
HARNESS(uuid3_nil0) { uuid3n<0>(); }
HARNESS(uuid3_nil1) { uuid3n<1>(); }
HARNESS(uuid3_nil2) { uuid3n<2>(); }
HARNESS(uuid5_len0) { uuid5<0, 0>(base()); }
HARNESS(uuid5_len3) { uuid5<3, 1>(base()); }
HARNESS_T(uuid5_len15) { uuid5<15, 2>(base()); }
HARNESS(uuid5_ns) { uuid5<1, 2>(ns1()); }
HARNESS_T(uuid5_nil0) { uuid5n<0>(); }
HARNESS(uuid5_nil1) { uuid5n<1>(); }
HARNESS_T(uuid5_nil2) { uuid5n<2>(); }
static U ns(int k) { U u = base(); u.elems[3] = (u8)(k == 3 ? 0x14 : 0x10 + k); return u; }
// a generator is its digest after the namespace: two of them are the same exactly when they make the same from one name
template <int K> void space() { using namespace sprout::uuids; U const n = K == 0 ? namespace_dns_uuid() : K == 1 ? namespace_url_uuid() : K == 2 ? namespace_oid_uuid() : namespace_x500_uuid(); CHECK(n == ns(K)); Name<1> m(n); u8 d[16]; ref_md5(m.all, 17 * 8, d); named((K == 0 ? make_uuid3_dns() : K == 1 ? make_uuid3_url() : K == 2 ? make_uuid3_oid() : make_uuid3_x500())((char const*)m.c), d, 3); }
template <int K> void space5() { using namespace sprout::uuids; Name<1> m(ns(K)); u8 d[20]; ref_sha1(m.all, 17, d); named((K == 0 ? make_uuid5_dns() : K == 1 ? make_uuid5_url() : K == 2 ? make_uuid5_oid() : make_uuid5_x500())((char const*)m.c), d, 5); }
HARNESS(space0) { space<0>(); }
HARNESS(space1) { space<1>(); }
HARNESS(space2) { space<2>(); }
HARNESS(space3) { space<3>(); }
HARNESS(space5_0) { space5<0>(); }
HARNESS(space5_1) { space5<1>(); }
HARNESS(space5_2) { space5<2>(); }
HARNESS(space5_3) { space5<3>(); }
// the literals name the same spaces in either case, or give a namespace as text
template <int K> void literal3() { char const* T = K == 0 ? "dns" : K == 1 ? "url" : K == 2 ? "oid" : "x500"; char b[5]; int n = K == 3 ? 4 : 3; for (int i = 0; i < n; ++i) { b[i] = T[i]; if (b[i] >= 'a') b[i] = (char)(b[i] - (vp::nd<bool>() ? 32 : 0)); } char const* p = "a"; CHECK(sprout::literals::operator"" _uuid3(b, n)(p) == sprout::uuids::make_uuid3(ns(K), p)); }
HARNESS(literal_dns) { literal3<0>(); }
HARNESS(literal_url) { literal3<1>(); }
HARNESS(literal_oid) { literal3<2>(); }
HARNESS(literal_x500) { literal3<3>(); }
template <int K> void literal5() { char const* T = K == 0 ? "dns" : K == 1 ? "uRl" : K == 2 ? "OID" : "x500"; CHECK(sprout::literals::operator"" _uuid5(T, K == 3 ? 4 : 3)("a") == sprout::uuids::make_uuid5(ns(K), "a")); }
HARNESS_T(literal5_dns) { literal5<0>(); }
HARNESS(literal5_url) { literal5<1>(); }
HARNESS_T(literal5_oid) { literal5<2>(); }
HARNESS_T(literal5_x500) { literal5<3>(); }
HARNESS(literal_text) { char t[40]; U u = base(); u.elems[5] = vp::nd<bool>() ? 1 : 0x7c; int m = text(u, t, true); CHECK(sprout::literals::operator"" _uuid3(t, m)("a") == sprout::uuids::make_uuid3(u, "a")); }
HARNESS(literal_bad) { char t[3] = {'u', 'r', 'l'}; int k = vp::pick<int>(0, 2); char c = vp::nd<char>(); ASSUME((c | 32) != t[k] && !(k == 0 && false)); t[k] = c; bool thr = false; try { sprout::literals::operator"" _uuid3(t, 3); } catch (std::runtime_error const&) { thr = true; } CHECK(thr); }
// names of wider characters: the digest covers every byte of every character, most significant first
template <class C, bool MD> void wide_name() { C c[4]; u8 all[16 + 4 * sizeof(C)]; U u = base(); for (int i = 0; i < 16; ++i) all[i] = u.elems[i]; for (int i = 0; i < 3; ++i) { c[i] = (C)(0x61 + i + (sizeof(C) > 1 ? 0x3000 : 0)); } c[1] = (C)(0x4040 | (vp::nd<u8>() & 0x85)); c[3] = 0; for (int i = 0; i < 3; ++i) for (unsigned k = 0; k < sizeof(C); ++k) all[16 + i * sizeof(C) + k] = (u8)((u32)c[i] >> (8 * (sizeof(C) - 1 - k))); if (MD) { u8 d[16]; ref_md5(all, (16 + 3 * sizeof(C)) * 8, d); named(sprout::uuids::make_uuid3(u, (C const*)c), d, 3); } else { u8 e[20]; ref_sha1(all, 16 + 3 * sizeof(C), e); named(sprout::uuids::make_uuid5(u, (C const*)c), e, 5); } }
HARNESS(name3_u16) { wide_name<char16_t, true>(); }
HARNESS(name5_u16) { wide_name<char16_t, false>(); }
HARNESS(name3_u32) { wide_name<char32_t, true>(); }
HARNESS_T(name5_u32) { wide_name<char32_t, false>(); }
HARNESS(name3_w) { wide_name<wchar_t, true>(); }
HARNESS_T(name5_w) { wide_name<wchar_t, false>(); }
// ---- random: four draws, version 4, variant RFC 4122; the other 122 bits are the draws'
struct G32 { typedef u32 result_type; u32 v[4]; int i; static constexpr u32 min() { return 0; } static constexpr u32 max() { return 0xffffffffu; } G32 nextg() const { G32 g(*this); ++g.i; return g; } u32 cur() const { CHECK(i < 4); return v[i & 3]; } u32 operator()() { u32 x = cur(); ++i; return x; } sprout::random::random_result<G32> operator()() const { return sprout::random::random_result<G32>(cur(), nextg()); } };
HARNESS(random_all) { G32 g; for (int i = 0; i < 4; ++i) g.v[i] = vp::nd<u32>(); g.i = 0; G32 const& c = g; U u = sprout::uuids::make_uuid4(c); CHECK((int)u.version() == 4); CHECK(u.variant() == U::variant_rfc_4122); u8 d[16]; for (int i = 0; i < 16; ++i) d[i] = (u8)(g.v[i / 4] >> (24 - 8 * (i % 4))); bool e = true; for (int i = 0; i < 16; ++i) { u8 m = i == 6 ? 0x0f : i == 8 ? 0x3f : 0xff; e &= (u.elems[i] & m) == (d[i] & m); } CHECK(e); CHECK(sprout::uuids::basic_random_generator<G32>()(c) == u); }
