// P27: pair and tuple hold, move, compare and recombine exactly their elements
#include "vpu.hpp"
#include <sprout/tuple.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/tuple/operation.hpp>
#include <sprout/tuple/algorithm.hpp>
#include <sprout/tuple/apply.hpp>
#include <sprout/tuple/fused.hpp>
#include <sprout/tuple/make_from_tuple.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/utility/exchange.hpp>
#include <sprout/compressed_pair.hpp>
#include <tuple>
namespace T = sprout::tuples;
// a value ordered by its key only; equality looks at the key, copies keep the tag
struct K { sc k; uc t; constexpr K() : k(0), t(0) {} constexpr K(sc k, uc t) : k(k), t(t) {} friend constexpr bool operator<(K a, K b) { return a.k < b.k; } friend constexpr bool operator==(K a, K b) { return a.k == b.k; } };
inline bool same(K a, K b) { return a.k == b.k && a.t == b.t; }
inline K ndk() { sc k = vp::nd<sc>(); uc t = vp::nd<uc>(); return K(k, t); }
// moved-from objects show it
struct M { int v; bool moved; M(int v = 0) : v(v), moved(false) {} M(M const&) = default; M(M&& o) : v(o.v), moved(false) { o.moved = true; } M& operator=(M const&) = default; M& operator=(M&& o) { v = o.v; moved = false; o.moved = true; return *this; } };
template <class A, class B> void compare(A const& x, A const& y, B const& p, B const& q) {
    CHECK((x == y) == (p == q)); CHECK((x != y) == !(p == q)); CHECK((x < y) == (p < q)); CHECK((x > y) == (q < p)); CHECK((x <= y) == !(q < p)); CHECK((x >= y) == !(p < q));
}
HARNESS(pair_compare) {
    sc a = vp::nd<sc>(), c = vp::nd<sc>(); int b = vp::nd<int>(), d = vp::nd<int>(); compare(sprout::pair<sc, int>(a, b), sprout::pair<sc, int>(c, d), std::pair<sc, int>(a, b), std::pair<sc, int>(c, d));
    K e = ndk(), f = ndk(); compare(sprout::pair<K, sc>(e, a), sprout::pair<K, sc>(f, c), std::pair<K, sc>(e, a), std::pair<K, sc>(f, c)); compare(sprout::pair<sc, K>(a, e), sprout::pair<sc, K>(c, f), std::pair<sc, K>(a, e), std::pair<sc, K>(c, f));
}
HARNESS(pair_value) {
    K a = ndk(), c = ndk(); int b = vp::nd<int>(), d = vp::nd<int>(); typedef sprout::pair<K, int> P; P p(a, b), q = sprout::make_pair(c, d), z; CHECK(z.first.k == 0 && z.second == 0); CHECK(same(p.first, a) && p.second == b && same(q.first, c) && q.second == d);
    P r(p); CHECK(same(r.first, a) && r.second == b); r = q; CHECK(same(r.first, c) && r.second == d && same(q.first, c) && q.second == d); p.swap(q); CHECK(same(p.first, c) && p.second == d && same(q.first, a) && q.second == b); sprout::swap(p, q); CHECK(same(p.first, a) && p.second == b && same(q.first, c) && q.second == d);
    CHECK(same(T::get<0>(p), a) && T::get<1>(p) == b); T::get<1>(p) = d; CHECK(p.second == d && same(p.first, a)); std::pair<K, int> s = static_cast<std::pair<K, int> >(q); CHECK(same(s.first, c) && s.second == d);
    sprout::pair<sc, uc> n((sc)b, (uc)d); sprout::pair<int, long long> w(n); CHECK(w.first == (sc)b && w.second == (uc)d); w = sprout::pair<int, int>(d, b); CHECK(w.first == d && w.second == b); sprout::pair<short, int> h((short)d, b); w = h; CHECK(w.first == (short)d && w.second == b);
    int x = b, y = d; sprout::pair<int&, int&> ref(x, y); ref = sprout::pair<int, int>(7, 9); CHECK(x == 7 && y == 9); sprout::pair<int, int> src(b, d); ref = src; CHECK(x == b && y == d);
}
HARNESS(pair_tuple) {
    int a = vp::nd<int>(), b = vp::nd<int>(); sprout::tuple<int, int> t(a, b); sprout::pair<int, int> p(t); CHECK(p.first == a && p.second == b); sprout::pair<long long, short> q(sprout::tuple<int, short>(a, (short)b)); CHECK(q.first == a && q.second == (short)b);
    p = sprout::tuple<int, int>(b, a); CHECK(p.first == b && p.second == a); p = t; CHECK(p.first == a && p.second == b); sprout::tuple<long long, int> u(p); CHECK(T::get<0>(u) == a && T::get<1>(u) == b); sprout::tuple<int, int> v(sprout::pair<int, int>(b, a)); CHECK(T::get<0>(v) == b && T::get<1>(v) == a);
    sprout::pair<K, sprout::pair<int, int> > w(std::piecewise_construct, sprout::make_tuple((sc)a, (uc)b), sprout::make_tuple(b, a)); CHECK(same(w.first, K((sc)a, (uc)b)) && w.second.first == b && w.second.second == a);
}
HARNESS(tuple_from_pair_assign) { int a = vp::nd<int>(), b = vp::nd<int>(); sprout::tuple<int, int> t(0, 0); sprout::pair<int, int> p(a, b); t = p; CHECK(T::get<0>(t) == a && T::get<1>(t) == b); t = sprout::pair<int, int>(b, a); CHECK(T::get<0>(t) == b && T::get<1>(t) == a); }
HARNESS(tuple_compare) {
    sc a = vp::nd<sc>(), d = vp::nd<sc>(); K b = ndk(), e = ndk(); int c = vp::nd<int>(), f = vp::nd<int>();
    compare(sprout::tuple<sc, K, int>(a, b, c), sprout::tuple<sc, K, int>(d, e, f), std::tuple<sc, K, int>(a, b, c), std::tuple<sc, K, int>(d, e, f)); compare(sprout::tuple<K>(b), sprout::tuple<K>(e), std::tuple<K>(b), std::tuple<K>(e));
    sprout::tuple<int, int> x(a, c); sprout::tuple<sc, long long> y(d, f); CHECK((x == y) == (a == d && c == f)); CHECK((x < y) == (a < d || (a == d && c < f))); CHECK(sprout::tuple<>() == sprout::tuple<>() && !(sprout::tuple<>() < sprout::tuple<>()) && sprout::tuple<>() <= sprout::tuple<>());
    CHECK((sprout::tie(a, c) < sprout::tie(d, f)) == (a < d || (a == d && c < f)));
}
HARNESS(tuple_value) {
    sc a = vp::nd<sc>(), d = vp::nd<sc>(); K b = ndk(), e = ndk(); int c = vp::nd<int>(), f = vp::nd<int>(); typedef sprout::tuple<sc, K, int> U; U t(a, b, c), u = sprout::make_tuple(d, e, f), z;
    CHECK(T::get<0>(z) == 0 && T::get<1>(z).k == 0 && T::get<2>(z) == 0); CHECK(T::get<0>(t) == a && same(T::get<1>(t), b) && T::get<2>(t) == c); CHECK(T::get<0>(u) == d && same(T::get<1>(u), e) && T::get<2>(u) == f); CHECK(T::get<int>(t) == c && T::get<sc>(t) == a && same(T::get<K>(t), b));
    U r(t); CHECK(T::get<0>(r) == a && same(T::get<1>(r), b) && T::get<2>(r) == c); r = u; CHECK(T::get<0>(r) == d && same(T::get<1>(r), e) && T::get<2>(r) == f && T::get<2>(u) == f); t.swap(u); CHECK(T::get<0>(t) == d && same(T::get<1>(t), e) && T::get<2>(t) == f && T::get<0>(u) == a && same(T::get<1>(u), b) && T::get<2>(u) == c);
    sprout::swap(t, u); CHECK(T::get<0>(t) == a && T::get<2>(u) == f); T::get<2>(t) = f; CHECK(T::get<2>(t) == f && T::get<0>(t) == a); sprout::tuple<int, K, long long> w(u); CHECK(T::get<0>(w) == d && same(T::get<1>(w), e) && T::get<2>(w) == f); w = t; CHECK(T::get<0>(w) == a && same(T::get<1>(w), b) && T::get<2>(w) == f);
    std::tuple<sc, K, int> s = static_cast<std::tuple<sc, K, int> >(u); CHECK(std::get<0>(s) == d && same(std::get<1>(s), e) && std::get<2>(s) == f);
}
HARNESS(tuple_tie) {
    int a = vp::nd<int>(), b = vp::nd<int>(), x = 0, y = 0; sprout::tie(x, y) = sprout::make_tuple(a, b); CHECK(x == a && y == b); sprout::tuple<int, int> l(b, a); sprout::tie(x, y) = l; CHECK(x == b && y == a); sprout::tie(x, sprout::tuples::ignore) = sprout::make_tuple(a, 5); CHECK(x == a && y == a);
    auto f = sprout::forward_as_tuple(x, 3); CHECK(&T::get<0>(f) == &x); T::get<0>(f) = 77; CHECK(x == 77); auto m = sprout::make_tuple(std::ref(y), a); CHECK(&T::get<0>(m) == &y && T::get<1>(m) == a); T::get<0>(m) = b; CHECK(y == b);
}
HARNESS(tuple_moves) {
    int a = vp::nd<int>(), b = vp::nd<int>(); typedef sprout::tuple<M, M> U; M ma(a), mb(b); U t(ma, mb); CHECK(!ma.moved && !mb.moved); U const c(t); CHECK(!T::get<0>(t).moved && !T::get<1>(t).moved); U u; u = t; CHECK(!T::get<0>(t).moved && !T::get<1>(t).moved && T::get<0>(u).v == a && T::get<1>(u).v == b);
    U v(sprout::move(t)); CHECK(T::get<0>(t).moved && T::get<1>(t).moved && T::get<0>(v).v == a && T::get<1>(v).v == b); U w; w = sprout::move(v); CHECK(T::get<0>(v).moved && T::get<1>(v).moved && T::get<0>(w).v == a && T::get<1>(w).v == b); (void)c;
    sprout::pair<M, M> p(ma, mb), q(p); CHECK(!p.first.moved && !p.second.moved); q = p; CHECK(!p.first.moved && !p.second.moved); sprout::pair<M, M> r(sprout::move(p)); CHECK(p.first.moved && p.second.moved && r.first.v == a && r.second.v == b); q = sprout::move(r); CHECK(r.first.moved && r.second.moved && q.first.v == a && q.second.v == b);
}
HARNESS(tuple_moves_converting) { int a = vp::nd<int>(), b = vp::nd<int>(); M x(a), y(b); sprout::tuple<M&, M&> r(x, y); sprout::tuple<M, M> s; s = r; CHECK(!x.moved && !y.moved && T::get<0>(s).v == a && T::get<1>(s).v == b); sprout::tuple<M, M> t(r); CHECK(!x.moved && !y.moved && T::get<1>(t).v == b); }
HARNESS(tuple_cat) {
    sc a = vp::nd<sc>(); int b = vp::nd<int>(), c = vp::nd<int>(); K k = ndk(); auto t = sprout::tuple_cat(sprout::make_tuple(a, b), sprout::tuple<>(), sprout::make_tuple(k), sprout::make_tuple(c, a, b)); static_assert(T::tuple_size<decltype(t)>::value == 6, "");
    CHECK(T::get<0>(t) == a && T::get<1>(t) == b && same(T::get<2>(t), k) && T::get<3>(t) == c && T::get<4>(t) == a && T::get<5>(t) == b); auto o = sprout::tuple_cat(sprout::make_tuple(c)); CHECK(T::get<0>(o) == c);
}
HARNESS(tuple_operations) {
    sc a = vp::nd<sc>(); int b = vp::nd<int>(); K k = ndk(); sprout::tuple<sc, int> t(a, b);
    auto pb = T::push_back(t, k, b); CHECK(T::get<0>(pb) == a && T::get<1>(pb) == b && same(T::get<2>(pb), k) && T::get<3>(pb) == b); static_assert(T::tuple_size<decltype(pb)>::value == 4, ""); auto pf = T::push_front(t, k, b); CHECK(same(T::get<0>(pf), k) && T::get<1>(pf) == b && T::get<2>(pf) == a && T::get<3>(pf) == b);
    auto qb = T::pop_back(pb); static_assert(T::tuple_size<decltype(qb)>::value == 3, ""); CHECK(T::get<0>(qb) == a && T::get<1>(qb) == b && same(T::get<2>(qb), k)); auto qf = T::pop_front(pf); static_assert(T::tuple_size<decltype(qf)>::value == 3, ""); CHECK(T::get<0>(qf) == b && T::get<1>(qf) == a && T::get<2>(qf) == b);
    auto al = T::append_back(sprout::make_tuple(k), sprout::make_tuple(a, b, k)); CHECK(same(T::get<0>(al), k) && T::get<1>(al) == a && T::get<2>(al) == b && same(T::get<3>(al), k)); auto fl = T::append_front(sprout::make_tuple(k), sprout::make_tuple(a, b, b)); CHECK(T::get<0>(fl) == a && T::get<1>(fl) == b && T::get<2>(fl) == b && same(T::get<3>(fl), k)); auto el = T::append_back(sprout::tuple<>(), sprout::make_tuple(a, b)); CHECK(T::get<0>(el) == a && T::get<1>(el) == b);
    auto ab = T::append_back(t, sprout::make_tuple(k, b)); CHECK(T::get<0>(ab) == a && T::get<1>(ab) == b && same(T::get<2>(ab), k) && T::get<3>(ab) == b); auto af = T::append_front(t, sprout::make_tuple(k, a)); CHECK(same(T::get<0>(af), k) && T::get<1>(af) == a && T::get<2>(af) == a && T::get<3>(af) == b);
}
HARNESS(tuple_append_same) { int a = vp::nd<int>(), b = vp::nd<int>(), c = vp::nd<int>(); auto r = T::append_back(sprout::make_tuple(c), sprout::make_tuple(a, b, c)); CHECK(T::get<0>(r) == c && T::get<1>(r) == a && T::get<2>(r) == b && T::get<3>(r) == c); auto l = T::append_front(sprout::make_tuple(c, b), sprout::make_tuple(a, b, c)); CHECK(T::get<0>(l) == a && T::get<1>(l) == b && T::get<2>(l) == c && T::get<3>(l) == c && T::get<4>(l) == b); auto p = T::push_back(l, a, b, c); CHECK(T::get<4>(p) == b && T::get<5>(p) == a && T::get<6>(p) == b && T::get<7>(p) == c); auto q = T::push_front(l, b, c, a); CHECK(T::get<0>(q) == b && T::get<1>(q) == c && T::get<2>(q) == a && T::get<3>(q) == a && T::get<7>(q) == b); auto o = T::pop_front(T::pop_back(q)); CHECK(T::get<0>(o) == c && T::get<1>(o) == a && T::get<5>(o) == c); }
HARNESS(tuple_copy) {
    int a = vp::nd<int>(), b = vp::nd<int>(), c = vp::nd<int>(); sprout::tuple<int, int, int> t(1, 2, c); auto r = T::copy(t, sprout::make_tuple(a, b)); CHECK(T::get<0>(r) == a && T::get<1>(r) == b && T::get<2>(r) == c); auto s = T::copy(sprout::make_tuple(5, 6), sprout::make_tuple(a, b, c)); static_assert(T::tuple_size<decltype(s)>::value == 2, ""); CHECK(T::get<0>(s) == a && T::get<1>(s) == b);
    sprout::tuple<int, int, int> f(T::flexibly_construct_t(), a, b); CHECK(T::get<0>(f) == a && T::get<1>(f) == b && T::get<2>(f) == 0); sprout::tuple<int> g(T::flexibly_construct_t(), a, b); CHECK(T::get<0>(g) == a); sprout::tuple<int, int, int> h(T::flexibly_construct_t(), sprout::make_tuple(a, b)); CHECK(T::get<0>(h) == a && T::get<1>(h) == b && T::get<2>(h) == 0);
    sprout::tuple<int> i(T::flexibly_construct_t(), sprout::make_tuple(b, a)); CHECK(T::get<0>(i) == b);
}
struct Sub { template <class... A> constexpr int operator()(A...) const { return 0; } constexpr int operator()(int a, sc b, uc c) const { return (a & 0x3fff) * 65536 - b * 256 + c; } };
struct Three { int a; sc b; uc c; Three(int a, sc b, uc c) : a(a), b(b), c(c) {} };
HARNESS(tuple_apply) {
    int a = vp::nd<int>(); sc b = vp::nd<sc>(); uc c = vp::nd<uc>(); int w = Sub()(a, b, c); CHECK(T::apply(Sub(), sprout::make_tuple(a, b, c)) == w); sprout::tuple<int, sc, uc> const t(a, b, c); CHECK(T::apply(Sub(), t) == w); CHECK(T::make_fused(Sub())(t) == w); Three q = T::make_from_tuple<Three>(t); CHECK(q.a == a && q.b == b && q.c == c);
    auto n = sprout::make_tuple(a, sprout::make_tuple(b, sprout::make_pair(c, a))); CHECK((T::nested_get<1, 0>(n) == b) && (T::nested_get<1, 1>(n).first == c) && T::nested_get<0>(n) == a);
    int arr[3] = {a, b, c}; (void)arr; sprout::array<int, 3> s{{a, b, c}}; CHECK(T::get<0>(s) == a && T::get<1>(s) == b && T::get<2>(s) == c); CHECK(T::apply(Sub(), sprout::make_tuple(a, (sc)T::get<1>(s), (uc)T::get<2>(s))) == w);
}
HARNESS(exchange) { int a = vp::nd<int>(), b = vp::nd<int>(); int x = a; CHECK(sprout::exchange(x, b) == a && x == b); M m(a); M o = sprout::exchange(m, M(b)); CHECK(o.v == a && m.v == b && !m.moved); }
struct Empty {};
HARNESS(compressed) {
    int a = vp::nd<int>(); sc b = vp::nd<sc>(); sprout::compressed_pair<int, sc> p(a, b), q(5, (sc)6); CHECK(p.first() == a && p.second() == b); p.swap(q); CHECK(p.first() == 5 && p.second() == 6 && q.first() == a && q.second() == b); p.first() = 9; CHECK(p.first() == 9 && p.second() == 6);
    sprout::compressed_pair<Empty, int> e(Empty(), a); CHECK(e.second() == a); sprout::compressed_pair<int, Empty> f(a, Empty()); CHECK(f.first() == a); sprout::compressed_pair<int, int> s(a, b); CHECK(s.first() == a && s.second() == b); s.swap(s); CHECK(s.first() == a && s.second() == b);
}
