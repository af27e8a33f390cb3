// P06: permutation generators and randomised rearrangements
#include "vpu.hpp"
// VP-ONLY: gcc -DVP_GCC
// VP-VARIANT: clang -DVP_CLANG
#include <sprout/algorithm.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/functional.hpp>
#include <sprout/random/random_result.hpp>
#include <sprout/random/generate_array.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/tuple.hpp>
static const int N = VP_THOROUGH ? 6 : 5;
typedef sprout::array<sc, N> A;
template <class X, class Y, class Q> bool lexless(X const& x, Y const& y, int b, int n, Q q) { bool r = false; for (int i = n - 1; i >= 0; --i) r = q(x[b + i], y[b + i]) | (!q(y[b + i], x[b + i]) & r); return r; }
// o (with flag more) must be the lexicographic neighbour of a in the permutations of [b, b + n), or the wrap-around when there is none; decided against an arbitrary permutation c
template <class O, class X, class Q> void neighbour(O const& o, bool more, X const& a, int b, int n, int total, Q q) {
  CHECK(is_perm(o, a, total)); CHECK(same(o, a, 0, b) && same(o, a, b + n, total));
  sc c[8]; for (int i = 0; i < total; ++i) c[i] = i >= b && i < b + n ? vp::nd<sc>() : a[i];
  ASSUME(is_perm(c, a, total));
  if (more) { CHECK(lexless(a, o, b, n, q)); CHECK(!(lexless(a, c, b, n, q) && lexless(c, o, b, n, q))); }
  else { CHECK(!lexless(a, c, b, n, q)); CHECK(!lexless(c, o, b, n, q)); }
}
struct Less { template <class T, class U> bool operator()(T x, U y) const { return x < y; } };
struct KL { bool operator()(sc x, sc y) const { return (uc)x < (uc)y; } };
template <int M> void np_fixed() { auto a = nd_array<sc, M>(); { auto r = sprout::fixed::next_permutation(a); neighbour(r.first, r.second, a, 0, M, M, Less()); } { auto r = sprout::fixed::prev_permutation(a); neighbour(r.first, r.second, a, 0, M, M, Greater()); } }
HARNESS(perm_fixed1) { np_fixed<1>(); }
HARNESS(perm_fixed2) { np_fixed<2>(); }
HARNESS(perm_fixed3) { np_fixed<3>(); }
HARNESS(perm_fixed4) { np_fixed<4>(); }
HARNESS(perm_fixed5) { np_fixed<N>(); }
HARNESS(perm_comp) { auto a = nd_array<sc, 4>(); { auto r = sprout::fixed::next_permutation(a, KL()); neighbour(r.first, r.second, a, 0, 4, 4, KL()); } { auto r = sprout::fixed::prev_permutation(a, Greater()); neighbour(r.first, r.second, a, 0, 4, 4, Less()); } }
HARNESS(perm_window) { A a = nd_array<sc, N>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N); auto s = sprout::sub_copy(a, b, l); { auto r = sprout::fixed::next_permutation(s); neighbour(r.first.get_array(), r.second, a, b, l - b, N, Less()); } { auto r = sprout::fixed::prev_permutation(s); neighbour(r.first.get_array(), r.second, a, b, l - b, N, Greater()); } }
HARNESS(perm_fit) { auto a = nd_array<sc, 4>(); { auto r = sprout::fit::next_permutation(a); CHECK(r.first.size() == 4); neighbour(r.first.get_array(), r.second, a, 0, 4, 4, Less()); } { auto r = sprout::fit::prev_permutation(a); CHECK(r.first.size() == 4); neighbour(r.first.get_array(), r.second, a, 0, 4, 4, Greater()); } { auto r = sprout::fit::next_permutation(a, Greater()); neighbour(r.first.get_array(), r.second, a, 0, 4, 4, Greater()); } { auto r = sprout::fit::prev_permutation(a, KL()); neighbour(r.first.get_array(), r.second, a, 0, 4, 4, [](sc x, sc y) { return KL()(y, x); }); } }
HARNESS(perm_fitw) { auto a = nd_array<sc, 4>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, 4); auto s = sprout::sub_copy(a, b, l); { auto r = sprout::fit::next_permutation(s); CHECK((int)r.first.size() == l - b); neighbour(r.first.get_array(), r.second, a, b, l - b, 4, Less()); } { auto r = sprout::fit::prev_permutation(s); CHECK((int)r.first.size() == l - b); neighbour(r.first.get_array(), r.second, a, b, l - b, 4, Greater()); } }
template <class K> void np_inplace() { Seq<sc, N> s; Seq<sc, N> a = s; bool m = sprout::next_permutation(s.template mb<K>(), s.template me<K>()); neighbour(s, m, a, 0, s.n, s.n, Less()); }
template <class K> void pp_inplace() { Seq<sc, N> s; Seq<sc, N> a = s; bool m = sprout::prev_permutation(s.template mb<K>(), s.template me<K>()); neighbour(s, m, a, 0, s.n, s.n, Greater()); }
HARNESS(next_inplace_bi) { np_inplace<KBi>(); }
HARNESS(next_inplace_ra) { np_inplace<KRa>(); }
HARNESS(next_inplace_ptr) { np_inplace<KPtr>(); }
HARNESS(prev_inplace_bi) { pp_inplace<KBi>(); }
HARNESS(prev_inplace_ra) { pp_inplace<KRa>(); }
HARNESS(prev_inplace_ptr) { pp_inplace<KPtr>(); }
HARNESS(next_inplace_comp) { Seq<sc, 4> s; Seq<sc, 4> a = s; bool m = sprout::next_permutation(s.mb<KBi>(), s.me<KBi>(), KL()); neighbour(s, m, a, 0, s.n, s.n, KL()); }
HARNESS(prev_inplace_comp) { Seq<sc, 4> s; Seq<sc, 4> a = s; bool m = sprout::prev_permutation(s.mb<KBi>(), s.me<KBi>(), KL()); neighbour(s, m, a, 0, s.n, s.n, [](sc x, sc y) { return KL()(y, x); }); }
// next undoes prev and the other way round
HARNESS(next_prev) { auto a = nd_array<sc, 4>(); auto r = sprout::fixed::next_permutation(a); auto p = sprout::fixed::prev_permutation(r.first); CHECK(same(p.first, a, 0, 4)); CHECK(p.second == r.second); }
// A generator whose first D outputs are arbitrary; afterwards it returns 0 (so that rejection loops end)
template <int D> struct Gen { typedef unsigned result_type; uc v[D]; int i; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 255; }
  unsigned cur() const { return i < D ? v[i] : 0; } Gen nextg() const { Gen g(*this); ++g.i; return g; }
  unsigned operator()() { unsigned x = cur(); ++i; return x; } sprout::random::random_result<Gen> operator()() const { return sprout::random::random_result<Gen>(cur(), nextg()); }
  Gen() : v(), i(0) {} static Gen make() { Gen g; for (int k = 0; k < D; ++k) g.v[k] = vp::nd<uc>(); g.i = 0; return g; }
  friend bool operator==(Gen const& a, Gen const& b) { return a.i == b.i; } };
static const int D = VP_THOROUGH ? 4 : 3;
typedef Gen<D> G;
typedef Gen<4> G4;
template <class K> void shuf() { Seq<uc, 4> s; tag(s.v, 4); Seq<uc, 4> a = s; G g = G::make(); sprout::shuffle(s.mb<K>(), s.me<K>(), g); CHECK(tagged_perm(s, a, s.n)); CHECK(same(s, a, s.n, 4)); }
HARNESS(shuffle_ra) { shuf<KRa>(); }
HARNESS(shuffle_ptr) { shuf<KPtr>(); }
HARNESS(shuffle_two) { // every arrangement is reachable and each draw picks one
  uc a[2] = {0, 1}; Gen<1> g = Gen<1>::make(); sprout::shuffle(a + 0, a + 2, g); CHECK(a[0] + a[1] == 1); }
HARNESS(random_swap_ra) { Seq<uc, 4> s; tag(s.v, 4); Seq<uc, 4> a = s; G g = G::make(); sprout::random_swap(s.mb<KRa>(), s.me<KRa>(), g); CHECK(tagged_perm(s, a, s.n)); int df = 0; for (int i = 0; i < s.n; ++i) df += s[i] != a[i]; CHECK(df == 0 || df == 2); CHECK(same(s, a, s.n, 4)); }
struct RF { uc v[5]; int i; int operator()(int n) { CHECK(n > 0); return v[i++] % n; } };
HARNESS(random_shuffle_ra) { Seq<uc, 5> s; tag(s.v, 5); Seq<uc, 5> a = s; RF f; for (int k = 0; k < 5; ++k) f.v[k] = vp::nd<uc>(); f.i = 0; sprout::random_shuffle(s.mb<KRa>(), s.me<KRa>(), f); CHECK(tagged_perm(s, a, s.n)); CHECK(f.i <= s.n); }
template <int M, class H> void shfix(H h) { sprout::array<uc, M> a; tag(a, M); Gen<3> const g = Gen<3>::make(); h(a, g); }
HARNESS(shuffle_fixed3) { shfix<3>([](sprout::array<uc, 3> const& a, Gen<3> const& g) { auto o = sprout::fixed::shuffle(a, g); CHECK(tagged_perm(o, a, 3)); auto r = sprout::fixed::shuffle_result(a, g); CHECK(same(r.first, o, 0, 3)); CHECK(r.second.i >= 3); }); }
HARNESS(shuffle_fixed1) { shfix<1>([](sprout::array<uc, 1> const& a, Gen<3> const& g) { auto o = sprout::fixed::shuffle(a, g); CHECK(o[0] == a[0]); CHECK(sprout::fixed::shuffle_result(a, g).first[0] == a[0]); CHECK(sprout::fixed::shuffle_result(a, g).second.i == 0); }); }
HARNESS(shuffle_fixed_window) { sprout::array<uc, 4> a; tag(a, 4); Gen<3> const g = Gen<3>::make(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, 4); auto s = sprout::sub_copy(a, b, l); auto o = sprout::fixed::shuffle(s, g); CHECK((int)o.size() == l - b); auto const& i = o.get_array(); CHECK(tagged_perm(i, a, 4)); CHECK(same(i, a, 0, b) && same(i, a, l, 4)); auto f = sprout::fit::shuffle(s, g); CHECK((int)f.size() == l - b); CHECK(same(f.get_array(), i, 0, 4)); }
HARNESS(shuffle_fit) { shfix<3>([](sprout::array<uc, 3> const& a, Gen<3> const& g) { auto o = sprout::fit::shuffle(a, g); CHECK(o.size() == 3); CHECK(tagged_perm(o, a, 3)); auto r = sprout::fit::shuffle_result(a, g); CHECK(same(sprout::tuples::get<0>(r), o, 0, 3)); }); }
HARNESS(random_swap_fixed) { shfix<4>([](sprout::array<uc, 4> const& a, Gen<3> const& g) { auto o = sprout::fixed::random_swap(a, g); CHECK(tagged_perm(o, a, 4)); int df = 0; for (int i = 0; i < 4; ++i) df += o[i] != a[i]; CHECK(df == 0 || df == 2); auto r = sprout::fixed::random_swap_result(a, g); CHECK(same(r.first, o, 0, 4)); CHECK(r.second.i >= 2); auto f = sprout::fit::random_swap(a, g); CHECK(f.size() == 4 && same(f, o, 0, 4)); auto fr = sprout::fit::random_swap_result(a, g); CHECK(same(sprout::tuples::get<0>(fr), o, 0, 4)); }); }
HARNESS(random_swap_fixed_window) { sprout::array<uc, 4> a; tag(a, 4); Gen<3> const g = Gen<3>::make(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, 4); auto s = sprout::sub_copy(a, b, l); auto o = sprout::fixed::random_swap(s, g).get_array(); CHECK(tagged_perm(o, a, 4)); CHECK(same(o, a, 0, b) && same(o, a, l, 4)); }
// in-place and container-returning forms of random_swap pick the same elements from the same generator
HARNESS(random_swap_same) { shfix<4>([](sprout::array<uc, 4> const& a, Gen<3> const& g) { auto o = sprout::fixed::random_swap(a, g); sprout::array<uc, 4> p = a; Gen<3> h = g; sprout::random_swap(p.begin(), p.end(), h); CHECK(same(o, p, 0, 4)); CHECK(h.i == sprout::fixed::random_swap_result(a, g).second.i); }); }
// sample: distinct elements of the population, min(n, size) of them; in order of the population when the sample iterator is not random access
template <class K> void samp() { Seq<uc, 4> s; tag(s.v, 4); int n = vp::pick<int>(0, 4); uc o[5] = {200, 200, 200, 200, 200}; G g = G::make(); uc* r = sprout::sample(s.b<K>(), s.e<K>(), o + 0, (std::ptrdiff_t)n, g); int k = n < s.n ? n : s.n; CHECK(r == o + k); unsigned seen = 0; for (int i = 0; i < k; ++i) { int t = o[i] & 7; CHECK(t < s.n && o[i] == s[t]); CHECK(!(seen >> t & 1)); seen |= 1u << t; } for (int i = k; i < 5; ++i) CHECK(o[i] == 200); }
HARNESS(sample_ptr) { samp<KPtr>(); }
HARNESS(sample_fwd) { samp<KFwd>(); }
HARNESS(sample_in) { samp<KIn>(); }
struct Out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; uc* p; int* c; Out& operator*() { return *this; } Out& operator++() { return *this; } Out& operator++(int) { return *this; } Out& operator=(uc x) { CHECK(*c < 4); p[(*c)++] = x; return *this; } };
template <class K> void sampo() { Seq<uc, 4> s; tag(s.v, 4); int n = vp::pick<int>(0, 4); uc o[4]; int c = 0; G g = G::make(); sprout::sample(s.b<K>(), s.e<K>(), Out{o, &c}, (std::ptrdiff_t)n, g); int k = n < s.n ? n : s.n; CHECK(c == k); for (int i = 0; i < c; ++i) { int t = o[i] & 7; CHECK(t < s.n && o[i] == s[t]); CHECK(i == 0 || (o[i - 1] & 7) < t); } }
// a larger population of a fixed size: selection sampling takes exactly n of them
template <int N> void sampn() { uc s[N], o[N]; for (int i = 0; i < N; ++i) s[i] = (uc)(vp::nd<uc>() & 0xf8u | (unsigned)i); int n = vp::pick<int>(1, 3); int c = 0; G g = G::make(); sprout::sample(KFwd::make(s + 0, s + N, s + 0), KFwd::make(s + 0, s + N, s + N), Out{o, &c}, (std::ptrdiff_t)n, g); CHECK(c == n); for (int i = 0; i < c; ++i) { int t = o[i] & 7; CHECK(t < N && o[i] == s[t]); CHECK(i == 0 || (o[i - 1] & 7) < t); } }
HARNESS(sample_six) { sampn<6>(); }
// draws that stay high once the first ones are made, so that the selection is decided by the last elements
struct Late : G { Late() {} explicit Late(G const& g) : G(g) {} unsigned operator()() { unsigned x = i < D ? v[i] : 200; ++i; return x; } };
template <int N> void samplate() { uc s[N], o[N]; for (int i = 0; i < N; ++i) s[i] = (uc)(vp::nd<uc>() & 0xf8u | (unsigned)i); int n = vp::pick<int>(1, 3); int c = 0; Late g(G::make()); sprout::sample(KFwd::make(s + 0, s + N, s + 0), KFwd::make(s + 0, s + N, s + N), Out{o, &c}, (std::ptrdiff_t)n, g); CHECK(c == n); for (int i = 0; i < c; ++i) { int t = o[i] & 7; CHECK(t < N && o[i] == s[t]); CHECK(i == 0 || (o[i - 1] & 7) < t); } }
HARNESS(sample_late5) { samplate<5>(); } HARNESS(sample_late7) { samplate<7>(); }
HARNESS(sample_fwd_out) { sampo<KFwd>(); }
HARNESS(sample_ptr_out) { sampo<KPtr>(); }
// when a randomised sort ends, the result is the sorted permutation (here: at most one or two rounds)
HARNESS(bogo_sort) { Seq<uc, 3> s; Seq<uc, 3> a = s; Gen<2> g = Gen<2>::make(); bool done = s.n == 3; if (s.n == 3) { sprout::array<uc, 3> t{{s[0], s[1], s[2]}}; Gen<2> h = g; if (!(t[0] <= t[1] && t[1] <= t[2])) { sprout::shuffle(t.begin(), t.end(), h); ASSUME(t[0] <= t[1] && t[1] <= t[2]); } } else done = s.n < 2; ASSUME(done); sprout::bogo_sort(s.mb<KRa>(), s.me<KRa>(), g); CHECK(is_perm(s, a, s.n)); CHECK(ordered(s, 0, s.n, Less())); }
HARNESS(bozo_sort) { sprout::array<uc, 3> a = nd_array<uc, 3>(), s = a; Gen<2> g = Gen<2>::make(); { sprout::array<uc, 3> t = a; Gen<2> h = g; if (!ordered(t, 0, 3, Less())) { sprout::random_swap(t.begin(), t.end(), h); ASSUME(ordered(t, 0, 3, Less())); } } sprout::bozo_sort(s.begin(), s.end(), g); CHECK(is_perm(s, a, 3)); CHECK(ordered(s, 0, 3, Less())); }
HARNESS(bogo_sort_fixed) { sprout::array<uc, 3> a = nd_array<uc, 3>(); Gen<3> const g = Gen<3>::make(); { auto t = sprout::fixed::shuffle(a, g); ASSUME(ordered(a, 0, 3, Greater()) || ordered(t, 0, 3, Greater())); } auto s = sprout::fixed::bogo_sort(a, g, Greater()); CHECK(is_perm(s, a, 3)); CHECK(ordered(s, 0, 3, Greater())); auto f = sprout::fit::bogo_sort(a, g, Greater()); CHECK(f.size() == 3 && same(f, s, 0, 3)); }
HARNESS(bozo_sort_fixed) { sprout::array<uc, 3> a = nd_array<uc, 3>(); Gen<3> const g = Gen<3>::make(); { auto t = sprout::fixed::random_swap(a, g); ASSUME(ordered(a, 0, 3, Less()) || ordered(t, 0, 3, Less())); } auto s = sprout::fixed::bozo_sort(a, g); CHECK(is_perm(s, a, 3)); CHECK(ordered(s, 0, 3, Less())); auto f = sprout::fit::bozo_sort(a, g); CHECK(f.size() == 3 && same(f, s, 0, 3)); }
// generate_array: the generator's outputs in order, in both forms
HARNESS(generate_array) { Gen<4> const g = Gen<4>::make(); auto r = sprout::random::generate_array<4>(g); Gen<4> h = g; auto o = sprout::random::generate_array<4>(h); for (int i = 0; i < 4; ++i) CHECK(r.first[i] == g.v[i] && o[i] == g.v[i]); CHECK(r.second.i == 4 && h.i == 4); }
