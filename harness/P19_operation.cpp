// P19: container operations that return a changed copy (insert, erase, append, resize ...), fixed and fit form, against a plain sequence
#include "vpu.hpp"
#include <sprout/operation.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/string.hpp>
struct V { int n; int a[24]; V() : n(0) {} void ins(int p, int x) { for (int i = n; i > p; --i) a[i] = a[i - 1]; a[p] = x; ++n; } void del(int p) { for (int i = p; i + 1 < n; ++i) a[i] = a[i + 1]; --n; } void add(int x) { a[n++] = x; } };
template <class C> V load(C const& c) { V v; for (auto it = sprout::begin(c); it != sprout::end(c); ++it) v.add(*it); return v; }
template <class R> bool same(R const& r, V const& v) { if ((int)sprout::size(r) != v.n) return false; int i = 0; for (auto it = sprout::begin(r); it != sprout::end(r); ++it, ++i) if (*it != v.a[i]) return false; return i == v.n; }
// text: a zero character right after the last one
template <class C> bool term(C const&) { return true; }
template <class T, std::size_t N> bool term(sprout::basic_string<T, N> const& s) { return s.c_str()[s.size()] == T(); }
static char ch() { char c = (char)vp::nd<uc>(); ASSUME(c != 0); return c; }
static sprout::array<char, 4> mk_a() { sprout::array<char, 4> a{{}}; for (int i = 0; i < 4; ++i) a[i] = ch(); return a; }
typedef sprout::array<char, 5> A5;
static A5 mk_a5() { A5 a{{}}; for (int i = 0; i < 5; ++i) a[i] = ch(); return a; }
static sprout::basic_string<char, 4> mk_s() { int n = vp::pick<int>(0, 4); char b[5] = {0}; for (int i = 0; i < n; ++i) b[i] = ch(); return sprout::string_from_c_str<4>(b + 0, (std::size_t)n); }
template <class C> int nd_pos(C const& c, int extra) { int n = (int)sprout::size(c) - 1 + extra; return vp::pick<int>(0, n); }
#define BOTH(CALL, W) do { auto r = sprout::fixed::CALL; CHECK(same(r, W)); CHECK(term(r)); auto q = sprout::fit::CALL; CHECK(same(q, W)); } while (0)
struct Insert { template <class C> void operator()(C const& c) const { int p = nd_pos(c, 1); char x = ch(), y = ch(); V v = load(c); v.ins(p, x); BOTH(insert(c, p, x), v); BOTH(insert(c, sprout::next(sprout::begin(c), p), x), v); v.ins(p + 1, y); BOTH(insert(c, p, x, y), v); BOTH(insert(c, sprout::next(sprout::begin(c), p), x, y), v); CHECK(same(sprout::insert(c, p, x, y), v)); } };
struct InsertN { template <class C> void operator()(C const& c) const { int p = nd_pos(c, 1); char x = ch(), y = ch(); V v = load(c); v.ins(p, x); v.ins(p, x); BOTH(template insert_n<2>(c, p, x), v); BOTH(template insert_n<2>(c, sprout::next(sprout::begin(c), p), x), v); V w = load(c); w.ins(p, y); w.ins(p, x); w.ins(p, y); w.ins(p, x); BOTH(template insert_n<2>(c, p, x, y), w); V z = load(c); BOTH(template insert_n<0>(c, p, x, y), z); } };
struct Push { template <class C> void operator()(C const& c) const { char x = ch(), y = ch(); V v = load(c), w = load(c); v.add(x); BOTH(push_back(c, x), v); v.add(y); BOTH(push_back(c, x, y), v); w.ins(0, y); BOTH(push_front(c, y), w); w.ins(0, x); BOTH(push_front(c, x, y), w); } };
struct PushN { template <class C> void operator()(C const& c) const { char x = ch(), y = ch(); V v = load(c), w = load(c); v.add(x); v.add(x); BOTH(template push_back_n<2>(c, x), v); v.n -= 2; v.add(x); v.add(y); v.add(x); v.add(y); BOTH(template push_back_n<2>(c, x, y), v); w.ins(0, x); w.ins(0, x); w.ins(0, x); BOTH(template push_front_n<3>(c, x), w); } };
struct Erase { template <class C> void operator()(C const& c) const { if (sprout::size(c) == 0) return; int p = nd_pos(c, 0); V v = load(c); v.del(p); BOTH(erase(c, p), v); BOTH(erase(c, sprout::next(sprout::begin(c), p)), v); CHECK(same(sprout::erase(c, p), v)); } };
struct EraseN { template <class C> void operator()(C const& c) const { if (sprout::size(c) < 2) return; int p = nd_pos(c, -1); V v = load(c); v.del(p); v.del(p); BOTH(template erase_n<2>(c, p), v); BOTH(template erase_n<2>(c, sprout::next(sprout::begin(c), p)), v); V w = load(c); BOTH(template erase_n<0>(c, p), w); } };
struct Pop { template <class C> void operator()(C const& c) const { if (sprout::size(c) == 0) return; V v = load(c), w = load(c); v.del(v.n - 1); BOTH(pop_back(c), v); w.del(0); BOTH(pop_front(c), w); } };
struct PopN { template <class C> void operator()(C const& c) const { if (sprout::size(c) < 3) return; V v = load(c), w = load(c); v.n -= 3; BOTH(template pop_back_n<3>(c), v); for (int i = 0; i < 3; ++i) w.del(0); BOTH(template pop_front_n<3>(c), w); } };
// an array result has its full length whatever the length of the input: the elements first, then default values
template <class R> bool same0(R const& r, V v) { while (v.n < (int)sprout::size(r)) v.add(0); return same(r, v); }
template <class C> struct is_arr { static const bool value = false; };
template <class T, std::size_t N> struct is_arr<sprout::array<T, N> > { static const bool value = true; };
#define BOTH0(CALL, W) do { auto r = sprout::fixed::CALL; CHECK(is_arr<C>::value ? same0(r, W) : same(r, W)); CHECK(term(r)); auto q = sprout::fit::CALL; CHECK(same(q, W)); } while (0)
template <class I> struct Append { I in; template <class C> void operator()(C const& c) const { int p = nd_pos(c, 1); V u = load(in), v = load(c); for (int i = 0; i < u.n; ++i) v.ins(p + i, u.a[i]); BOTH0(append(c, p, in), v); BOTH0(append(c, sprout::next(sprout::begin(c), p), in), v); } };
template <class I> struct AppendEnds { I in; template <class C> void operator()(C const& c) const { V u = load(in), v = load(c), w = load(c); for (int i = 0; i < u.n; ++i) { v.add(u.a[i]); w.ins(i, u.a[i]); } BOTH0(append_back(c, in), v); BOTH0(append_front(c, in), w); } };
struct SetAt { template <class C> void operator()(C const& c) const { if (sprout::size(c) == 0) return; int p = nd_pos(c, 0); char x = ch(); V v = load(c); v.a[p] = x; BOTH(set(c, p, x), v); BOTH(set(c, sprout::next(sprout::begin(c), p), x), v); } };
#define EACH(NAME, F) HARNESS(NAME##_array) { F(mk_a()); } HARNESS(NAME##_sub) { A5 a = mk_a5(); int f = vp::pick<int>(0, 5), l = vp::pick<int>(f, 5); F(sprout::sub_array<A5>(a, f, l)); } HARNESS(NAME##_subref) { A5 a = mk_a5(); int f = vp::pick<int>(0, 5), l = vp::pick<int>(f, 5); F(sprout::sub_array<A5 const&>(a, f, l)); } HARNESS(NAME##_string) { F(mk_s()); }
EACH(insert, Insert()) EACH(insert_n, InsertN()) EACH(push, Push()) EACH(push_n, PushN()) EACH(erase, Erase()) EACH(erase_n, EraseN()) EACH(pop, Pop()) EACH(pop_n, PopN()) EACH(set, SetAt())
static sprout::array<char, 2> in_a() { sprout::array<char, 2> a{{}}; a[0] = ch(); a[1] = ch(); return a; }
static sprout::sub_array<sprout::array<char, 3> > in_s() { sprout::array<char, 3> a{{}}; for (int i = 0; i < 3; ++i) a[i] = ch(); int f = vp::pick<int>(0, 3), l = vp::pick<int>(f, 3); return sprout::sub_array<sprout::array<char, 3> >(a, f, l); }
static sprout::basic_string<char, 2> in_t() { int n = vp::pick<int>(0, 2); char b[3] = {0}; for (int i = 0; i < n; ++i) b[i] = ch(); return sprout::string_from_c_str<2>(b + 0, (std::size_t)n); }
EACH(append_a, (Append<sprout::array<char, 2> >{in_a()})) EACH(append_s, (Append<sprout::sub_array<sprout::array<char, 3> > >{in_s()})) EACH(append_t, (Append<sprout::basic_string<char, 2> >{in_t()}))
EACH(append_ends_a, (AppendEnds<sprout::array<char, 2> >{in_a()})) EACH(append_ends_s, (AppendEnds<sprout::sub_array<sprout::array<char, 3> > >{in_s()})) EACH(append_ends_t, (AppendEnds<sprout::basic_string<char, 2> >{in_t()}))
// resize, realign: the elements first, then copies of the given value (text ends where the elements do without one)
template <class C> bool istext(C const&) { return false; }
template <class T, std::size_t N> bool istext(sprout::basic_string<T, N> const&) { return true; }
template <class C, class R> void full(C const& c, R const& r, int n, bool withv, char x, bool back) { V v = load(c), w; int k = v.n < n ? v.n : n; if (back) { for (int i = 0; i < n - v.n; ++i) w.add(withv ? x : 0); for (int i = v.n < n ? 0 : v.n - n; i < v.n; ++i) w.add(v.a[i]); } else { for (int i = 0; i < k; ++i) w.add(v.a[i]); for (int i = k; i < n; ++i) w.add(withv ? x : 0); }
  if (istext(r) && !withv && !back) w.n = k; CHECK(same(r, w)); CHECK(term(r)); }
struct Resize { template <class C> void operator()(C const& c) const { char x = ch(); full(c, sprout::fixed::resize<7>(c, x), 7, true, x, false); full(c, sprout::fixed::resize<7>(c), 7, false, x, false); full(c, sprout::fixed::resize<2>(c, x), 2, true, x, false); full(c, sprout::fixed::resize<2>(c), 2, false, x, false); full(c, sprout::fit::resize<7>(c, x), 7, true, x, false); full(c, sprout::fit::resize<2>(c), 2, false, x, false); full(c, sprout::resize<5>(c, x), 5, true, x, false); } };
struct ResizeBack { template <class C> void operator()(C const& c) const { char x = ch(); full(c, sprout::fixed::resize_backward<7>(c, x), 7, true, x, true); full(c, sprout::fixed::resize_backward<2>(c, x), 2, true, x, true); full(c, sprout::fit::resize_backward<7>(c, x), 7, true, x, true); full(c, sprout::fit::resize_backward<2>(c, x), 2, true, x, true); if (!istext(c)) { full(c, sprout::fixed::resize_backward<7>(c), 7, false, x, true); full(c, sprout::fit::resize_backward<7>(c), 7, false, x, true); full(c, sprout::fit::resize_backward<3>(c), 3, false, x, true); } } };
struct Realign { template <class C> void operator()(C const& c) const { char x = ch(); int n = (int)sprout::container_traits<C>::static_size; full(c, sprout::fixed::realign(c, x), n, true, x, false); full(c, sprout::fixed::realign(c), n, false, x, false); full(c, sprout::fit::realign(c, x), (int)sprout::size(c), true, x, false); full(c, sprout::fit::realign(c), (int)sprout::size(c), false, x, false); typedef sprout::array<int, 6> R; full(c, sprout::fixed::realign_to<R>(c, x), 6, true, x, false); full(c, sprout::fixed::realign_to<R>(c), 6, false, x, false); full(c, sprout::fit::realign_to<R>(c, x), (int)sprout::size(c), true, x, false); full(c, sprout::fit::realign_to<R>(c), (int)sprout::size(c), false, x, false); full(c, sprout::realign_to<sprout::basic_string<char, 6> >(c), 6, false, x, false); } };
EACH(resize, Resize()) EACH(resize_backward, ResizeBack()) EACH(realign, Realign())
