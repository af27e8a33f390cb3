// P28: function objects, binders, member functions, references and hashes mean the expression they stand for
#include "vpu.hpp"
#include <sprout/functional.hpp>
#include <sprout/functional/bind.hpp>
#include <sprout/functional/bind/placeholder.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/functional/invoke.hpp>
#include <sprout/functional/equiv.hpp>
#include <sprout/functional/functor.hpp>
#include <sprout/functional/various.hpp>
#include <sprout/array.hpp>
#include <sprout/array/hash.hpp>
#include <sprout/tuple.hpp>
#include <sprout/tuple/tuple/hash.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/utility/pair/hash.hpp>
#include <sprout/string.hpp>
#include <sprout/string/hash.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/optional.hpp>
#include <sprout/optional/hash.hpp>
#include <sprout/variant.hpp>
#include <sprout/variant/hash.hpp>
#include <sprout/rational.hpp>
#include <sprout/rational/hash.hpp>
#include <sprout/bitset.hpp>
#include <sprout/bitset/hash.hpp>
#include <sprout/complex.hpp>
#include <sprout/complex/hash.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/sub_array/hash.hpp>
#include <sprout/valarray.hpp>
#include <sprout/valarray/hash.hpp>
#include <functional>
typedef unsigned char uc;
using namespace sprout::placeholders;
template <class T> void arith(T a, T b) {
    CHECK(sprout::plus<T>()(a, b) == (T)(a + b)); CHECK(sprout::minus<T>()(a, b) == (T)(a - b)); CHECK(sprout::multiplies<T>()(a, b) == (T)(a * b)); CHECK(sprout::negate<T>()(a) == (T)-a); CHECK(sprout::posite<T>()(a) == (T)+a);
    CHECK(sprout::plus<>()(a, b) == a + b); CHECK(sprout::minus<>()(a, b) == a - b); CHECK(sprout::multiplies<>()(a, b) == a * b); CHECK(sprout::negate<>()(a) == -a); CHECK(sprout::posite<>()(a) == +a);
    if (b != 0) { CHECK(sprout::divides<T>()(a, b) == (T)(a / b)); CHECK(sprout::modulus<T>()(a, b) == (T)(a % b)); CHECK(sprout::divides<>()(a, b) == a / b); CHECK(sprout::modulus<>()(a, b) == a % b); }
    CHECK(sprout::bit_and<T>()(a, b) == (T)(a & b)); CHECK(sprout::bit_or<T>()(a, b) == (T)(a | b)); CHECK(sprout::bit_xor<T>()(a, b) == (T)(a ^ b)); CHECK(sprout::bit_not<T>()(a) == (T)~a); CHECK(sprout::bit_and<>()(a, b) == (a & b)); CHECK(sprout::bit_or<>()(a, b) == (a | b)); CHECK(sprout::bit_xor<>()(a, b) == (a ^ b)); CHECK(sprout::bit_not<>()(a) == ~a);
    CHECK(sprout::equal_to<T>()(a, b) == (a == b)); CHECK(sprout::not_equal_to<T>()(a, b) == (a != b)); CHECK(sprout::less<T>()(a, b) == (a < b)); CHECK(sprout::greater<T>()(a, b) == (a > b)); CHECK(sprout::less_equal<T>()(a, b) == (a <= b)); CHECK(sprout::greater_equal<T>()(a, b) == (a >= b));
    CHECK(sprout::equal_to<>()(a, b) == (a == b)); CHECK(sprout::not_equal_to<>()(a, b) == (a != b)); CHECK(sprout::less<>()(a, b) == (a < b)); CHECK(sprout::greater<>()(a, b) == (a > b)); CHECK(sprout::less_equal<>()(a, b) == (a <= b)); CHECK(sprout::greater_equal<>()(a, b) == (a >= b));
    CHECK(sprout::logical_and<T>()(a, b) == (a && b)); CHECK(sprout::logical_or<T>()(a, b) == (a || b)); CHECK(sprout::logical_not<T>()(a) == !a); CHECK(sprout::logical_and<>()(a, b) == (a && b)); CHECK(sprout::logical_or<>()(a, b) == (a || b)); CHECK(sprout::logical_not<>()(a) == !a);
}
HARNESS(functors) { sc a = vp::nd<sc>(), b = vp::nd<sc>(); uc c = vp::nd<uc>(), d = vp::nd<uc>(); arith<sc>(a, b); arith<uc>(c, d); }
HARNESS(functors_wide) { unsigned a = vp::nd<unsigned>(), b = vp::nd<unsigned>(); CHECK(sprout::plus<unsigned>()(a, b) == a + b && sprout::minus<>()(a, b) == a - b && sprout::less<>()(a, b) == (a < b) && sprout::greater_equal<unsigned>()(a, b) == (a >= b)); int c = vp::nd<int>(); long long d = vp::nd<long long>(); CHECK(sprout::less<>()(c, d) == (c < d) && sprout::bit_xor<>()(c, d) == (c ^ d) && sprout::equal_to<>()(c, d) == (c == d)); }
HARNESS(functors_assign) {
    uc a = vp::nd<uc>(), b = vp::nd<uc>(); unsigned x, w = a * 257u; unsigned s = b % 16;
#define A(F, OP, V) x = w; CHECK(&sprout::F<>()(x, V) == &x); { unsigned e = w; e OP V; CHECK(x == e); }
    A(assign, =, b) A(plus_assign, +=, b) A(minus_assign, -=, b) A(multiplies_assign, *=, b) A(bit_and_assign, &=, b) A(bit_or_assign, |=, b) A(bit_xor_assign, ^=, b) A(shift_left_assign, <<=, s) A(shift_right_assign, >>=, s) if (b != 0) { A(divides_assign, /=, b) A(modulus_assign, %=, b) }
    x = w; CHECK(&sprout::pre_increment<>()(x) == &x && x == w + 1); CHECK(&sprout::pre_decrement<>()(x) == &x && x == w); CHECK(sprout::post_increment<>()(x) == w && x == w + 1); CHECK(sprout::post_decrement<>()(x) == w + 1 && x == w);
    CHECK(sprout::shift_left<>()(w, s) == w << s && sprout::shift_right<>()(w, s) == w >> s); CHECK(sprout::cond<>()((a & 1) != 0, w, s) == ((a & 1) ? w : s)); unsigned arr[4] = {w, s, 3, 4}; CHECK(sprout::subscript<>()(arr, a & 3) == arr[a & 3]); CHECK(sprout::dereference<>()(arr + 1) == s); CHECK(sprout::address_of<>()(x) == &x); CHECK(sprout::call_fun<>()(sprout::minus<unsigned>(), w, s) == w - s); CHECK(sprout::comma<>()(x, s) == s);
}
struct Lt { typedef sc first_argument_type, second_argument_type; typedef bool result_type; int m; constexpr bool operator()(sc a, sc b) const { return (a & m) < (b & m); } };
struct OddP { typedef sc argument_type; typedef bool result_type; constexpr bool operator()(sc a) const { return a & 1; } };
struct LtX { int m; template <class T> constexpr bool operator()(T a, T b) const { return (a & m) < (b & m); } };
struct Minus { typedef int first_argument_type, second_argument_type, result_type; constexpr int operator()(int a, int b) const { return (a & 0xffff) - 2 * (b & 0xffff); } };
static int p_sub(int a, int b) { return (a & 0xffff) - 3 * (b & 0xffff); }
static int p_inv(int a) { return ~a; }
HARNESS(negators) {
    sc a = vp::nd<sc>(), b = vp::nd<sc>(); Lt lt = {0x3f}; LtX lx = {0x1f}; CHECK(sprout::not1(OddP())(a) == !(a & 1)); CHECK(sprout::not2(lt)(a, b) == !lt(a, b)); CHECK(sprout::equiv(lt)(a, b) == (!lt(a, b) && !lt(b, a))); CHECK(sprout::not2(lx)(a, b) == !lx(a, b)); CHECK(sprout::equiv(lx)(a, b) == ((a & 0x1f) == (b & 0x1f))); CHECK(sprout::equiv()(a, b) == (a == b));
    int x = vp::nd<int>(), y = vp::nd<int>(); CHECK(sprout::bind1st(Minus(), x)(y) == Minus()(x, y)); CHECK(sprout::bind2nd(Minus(), x)(y) == Minus()(y, x)); CHECK(sprout::ptr_fun(&p_sub)(x, y) == p_sub(x, y)); CHECK(sprout::ptr_fun(&p_inv)(x) == ~x); CHECK(sprout::not2(sprout::ptr_fun(&p_sub))(x, y) == !p_sub(x, y));
}
struct Rec { template <class... A> constexpr sprout::tuple<typename std::decay<A>::type...> operator()(A&&... a) const { return sprout::tuple<typename std::decay<A>::type...>(a...); } };
HARNESS(bind) {
    int a = vp::nd<int>(), b = vp::nd<int>(), c = vp::nd<int>(); Minus m; CHECK(sprout::bind(m, a, b)() == m(a, b)); CHECK(sprout::bind(m, _1, b)(c) == m(c, b)); CHECK(sprout::bind(m, b, _1)(c) == m(b, c)); CHECK(sprout::bind(m, _2, _1)(a, b) == m(b, a)); CHECK(sprout::bind(m, _1, _2)(a, b) == m(a, b)); CHECK(sprout::bind(m, _3, _1)(a, b, c) == m(c, a)); CHECK(sprout::bind(m, _1, _1)(a) == m(a, a)); CHECK(sprout::bind(m, _2, a)(b, c) == m(c, a));
    CHECK(sprout::bind(m, sprout::bind(m, _1, a), _2)(b, c) == m(m(b, a), c)); CHECK(sprout::bind(m, sprout::bind(m, _2, _1), sprout::bind(m, _1, _2))(b, c) == m(m(c, b), m(b, c))); CHECK(sprout::bind(&p_sub, _2, _1)(a, b) == p_sub(b, a)); CHECK(sprout::bind<long long>(m, _1, b)(c) == m(c, b)); CHECK(sprout::cbind(m, _2, _1)(a, b) == m(b, a)); CHECK(sprout::cbind(m, _1, c)(a) == m(a, c));
    CHECK(sprout::bind(m, sprout::bind(m, _1, _2), _3)(a, b, c) == m(m(a, b), c)); CHECK(sprout::bind(m, _1, sprout::bind(m, sprout::bind(m, _3, _2), _1))(a, b, c) == m(a, m(m(c, b), a)));
    auto const f = sprout::bind(m, _2, _1); CHECK(f(a, b) == m(b, a));
    auto r4 = sprout::bind(Rec(), _4, a, _2, _1, _3)(5, b, 6, c); CHECK(sprout::tuples::get<0>(r4) == c && sprout::tuples::get<1>(r4) == a && sprout::tuples::get<2>(r4) == b && sprout::tuples::get<3>(r4) == 5 && sprout::tuples::get<4>(r4) == 6);
}
HARNESS(bind_variadic) {
    int a = vp::nd<int>(), b = vp::nd<int>(), c = vp::nd<int>(); auto p = sprout::bind(Rec(), a, _va)(b, c, 7); static_assert(sprout::tuples::tuple_size<decltype(p)>::value == 4, ""); CHECK(sprout::tuples::get<0>(p) == a && sprout::tuples::get<1>(p) == b && sprout::tuples::get<2>(p) == c && sprout::tuples::get<3>(p) == 7);
    auto q = sprout::bind(Rec(), _1tail, a, _1)(b, c, 7); static_assert(sprout::tuples::tuple_size<decltype(q)>::value == 4, ""); CHECK(sprout::tuples::get<0>(q) == c && sprout::tuples::get<1>(q) == 7 && sprout::tuples::get<2>(q) == a && sprout::tuples::get<3>(q) == b);
    auto r = sprout::bind(Rec(), _3, _2tail, _va)(a, b, c); static_assert(sprout::tuples::tuple_size<decltype(r)>::value == 5, ""); CHECK(sprout::tuples::get<0>(r) == c && sprout::tuples::get<1>(r) == c && sprout::tuples::get<2>(r) == a && sprout::tuples::get<3>(r) == b && sprout::tuples::get<4>(r) == c);
}
HARNESS(bind_ref) {
    int a = vp::nd<int>(), b = vp::nd<int>(); int x = a; auto f = sprout::bind(sprout::plus<>(), sprout::ref(x), _1); CHECK(f(0) == a); x = b; CHECK(f(0) == b); auto g = sprout::bind(sprout::plus<>(), x, _1); x = a; CHECK(g(0) == b); int y = 1; sprout::bind(sprout::assign<>(), sprout::ref(y), _1)(a); CHECK(y == a); sprout::bind(sprout::assign<>(), _1, b)(y); CHECK(y == b); sprout::bind(sprout::assign<>(), std::ref(y), _1)(a); CHECK(y == a);
}
struct O { int v; int add(int k) { v ^= k; return v; } int get() const { return ~v; } int mix(int a, sc b) const { return v ^ (a & 0xffff) ^ (b << 16); } };
HARNESS(mem_fn) {
    int a = vp::nd<int>(), k = vp::nd<int>(); sc b = vp::nd<sc>(); O o = {a}; O const& co = o; CHECK(sprout::mem_fn(&O::get)(o) == ~a && sprout::mem_fn(&O::get)(co) == ~a && sprout::mem_fn(&O::get)(&o) == ~a && sprout::mem_fn(&O::get)(&co) == ~a); CHECK(sprout::mem_fn(&O::mix)(o, k, b) == co.mix(k, b) && sprout::mem_fn(&O::mix)(&co, k, b) == co.mix(k, b)); CHECK(sprout::mem_fn(&O::add)(o, k) == (a ^ k) && o.v == (a ^ k)); CHECK(sprout::mem_fn(&O::add)(&o, k) == a && o.v == a);
    CHECK(sprout::mem_fn(&O::v)(o) == a && sprout::mem_fn(&O::v)(&o) == a && sprout::mem_fn(&O::v)(co) == a && sprout::mem_fn(&O::v)(&co) == a); sprout::mem_fn(&O::v)(o) = k; CHECK(o.v == k); CHECK(sprout::bind(&O::mix, _2, _1, b)(a, o) == o.mix(a, b)); CHECK(sprout::bind(&O::get, _1)(&o) == ~k); CHECK(sprout::bind(&O::v, _1)(o) == k); sprout::bind(&O::add, &o, _1)(a); CHECK(o.v == (k ^ a));
    o.v = a; CHECK(sprout::mem_fun_ref(&O::get)(o) == ~a && sprout::mem_fun(&O::get)(&o) == ~a && sprout::mem_fun_ref(&O::add)(o, k) == (a ^ k) && sprout::mem_fun(&O::add)(&o, k) == a);
}
HARNESS(invoke) { int a = vp::nd<int>(), k = vp::nd<int>(); sc b = vp::nd<sc>(); O o = {a}; CHECK(sprout::invoke(&O::get, o) == ~a && sprout::invoke(&O::get, &o) == ~a && sprout::invoke(&O::mix, o, k, b) == o.mix(k, b) && sprout::invoke(&O::v, o) == a && sprout::invoke(&O::v, &o) == a); CHECK(sprout::invoke(Minus(), a, k) == Minus()(a, k) && sprout::invoke(&p_sub, a, k) == p_sub(a, k)); sprout::invoke(&O::add, o, k); CHECK(o.v == (a ^ k)); }
HARNESS(ref) {
    int a = vp::nd<int>(), b = vp::nd<int>(); int x = a, y = b; auto r = sprout::ref(x); CHECK(&r.get() == &x && r.get_pointer() == &x && (int&)r == a); r.get() = b; CHECK(x == b); auto s = sprout::ref(y); s = r; CHECK(&s.get() == &x && y == b); auto c = sprout::cref(y); CHECK(&c.get() == &y); auto d = sprout::cref(c); CHECK(&d.get() == &y); auto e = sprout::ref(r); CHECK(&e.get() == &x); Minus m; CHECK(sprout::ref(m)(a, b) == m(a, b)); CHECK(&sprout::unwrap_ref(r) == &x && &sprout::unwrap_ref(x) == &x); CHECK(sprout::get_pointer(r) == &x);
}
// ---- hashes
typedef std::size_t U;
inline U comb(U s, U h) { return s ^ (h + 0x9e3779b9 + (s << 6) + (s >> 2)); }
HARNESS(hash_integral) {
    int a = vp::nd<int>(); sc b = vp::nd<sc>(); unsigned long long c = vp::nd<unsigned long long>(); long long d = vp::nd<long long>(); bool e = vp::flag(); CHECK(sprout::to_hash(a) == (U)a && sprout::to_hash(b) == (U)b && sprout::to_hash(c) == c && sprout::to_hash(d) == (U)d && sprout::to_hash(e) == (U)e); CHECK(sprout::hash<int>()(a) == (U)a && sprout::hash<>()(d) == (U)d && sprout::hash<int const>()(a) == (U)a); CHECK(sprout::hash_value(a) == (U)a);
}
HARNESS(hash_combine) {
    int a = vp::nd<int>(); sc b = vp::nd<sc>(); U s = vp::nd<U>(), c = vp::nd<U>(); CHECK(sprout::hash_combine(s) == s); CHECK(sprout::hash_combine(s, a) == comb(s, (U)a)); CHECK(sprout::hash_combine(s, a, b, c) == comb(comb(comb(s, (U)a), (U)b), c)); CHECK(sprout::hash_values(a, b, c) == comb(comb(comb(0, (U)a), (U)b), c)); CHECK(sprout::hash_values() == 0);
    int x[4] = {a, b, (int)c, 5}; U e = s; for (int i = 0; i < 4; ++i) e = comb(e, (U)x[i]); CHECK(sprout::hash_range(s, x, x + 4) == e); U z = 0; for (int i = 0; i < 3; ++i) z = comb(z, (U)x[i]); CHECK(sprout::hash_range(x, x + 3) == z); sprout::array<int, 3> y{{a, b, (int)c}}; CHECK(sprout::hash_range(y) == z && sprout::to_hash(y) == z && sprout::hash_range(U(0), y) == z);
}
HARNESS(hash_compound) {
    int a = vp::nd<int>(); sc b = vp::nd<sc>(); uc c = vp::nd<uc>(); U h2 = comb(comb(0, (U)a), (U)b), h3 = comb(h2, c);
    CHECK(sprout::to_hash(sprout::pair<int, sc>(a, b)) == h2);
    CHECK(sprout::to_hash(sprout::make_tuple(a, b, c)) == h3);
    CHECK(sprout::hash<sprout::tuple<int, sc, uc> >()(sprout::make_tuple(a, b, c)) == h3);
    CHECK(sprout::to_hash(sprout::make_tuple(a, sprout::make_pair(b, c))) == comb(comb(0, (U)a), comb(comb(0, (U)b), c)));
    CHECK(sprout::to_hash(sprout::complex<int>(a, b)) == h2);
    CHECK(sprout::to_hash(sprout::valarray<int, 3>(a, 3)) == comb(comb(comb(0, (U)a), (U)a), (U)a));
    int arr[3] = {a, b, c};
    sprout::array<int, 4> big{{9, a, b, 7}}; CHECK(sprout::to_hash(sprout::sub_array<sprout::array<int, 4>&>(big, 1, 3)) == h2);
    CHECK(sprout::to_hash(arr) == comb(comb(comb(0, (U)a), (U)b), c));
}
HARNESS(hash_optional_variant) {
    int a = vp::nd<int>(), b = vp::nd<int>(); bool f = vp::flag(), g = vp::flag(); sprout::optional<int> x, y; if (f) x = a; if (g) y = b; if (x == y) CHECK(sprout::to_hash(x) == sprout::to_hash(y)); if (f) CHECK(sprout::to_hash(x) == sprout::to_hash(a)); typedef sprout::variant<int, long long> V; V v = f ? V(a) : V((long long)a), w = g ? V(b) : V((long long)b); if (v == w) CHECK(sprout::to_hash(v) == sprout::to_hash(w)); V s = v; CHECK(sprout::to_hash(s) == sprout::to_hash(v));
}
HARNESS(hash_string) {
    char c[3]; unsigned n = vp::range(0, 3); for (int i = 0; i < 3; ++i) { c[i] = vp::nd<char>(); ASSUME(c[i] != 0); } unsigned m = vp::concrete(n); sprout::basic_string<char, 3> s((char const*)c, m); sprout::basic_string<char, 7> t((char const*)c, m); sprout::string_view v((char const*)c, m); U z = 0; for (unsigned i = 0; i < m; ++i) z = comb(z, (U)c[i]); CHECK(sprout::to_hash(s) == z);
    CHECK(sprout::to_hash(t) == z);
    CHECK(sprout::to_hash(v) == z);
}
HARNESS(hash_rational) { sc a = vp::range(0, 6), b = vp::range(1, 6), k = vp::range(1, 3); sprout::rational<int> r(a * k, b * k), s(a, b); CHECK(r == s); CHECK(sprout::to_hash(r) == sprout::to_hash(s)); }
template <std::size_t N> void bits() { unsigned long long v = vp::nd<unsigned long long>(); sprout::bitset<N> x(v), y; for (std::size_t i = 0; i < N && i < 64; ++i) if (v >> i & 1) y.set(i); CHECK(x == y); CHECK(sprout::to_hash(x) == sprout::to_hash(y)); CHECK(sprout::to_hash(~~x) == sprout::to_hash(y)); }
HARNESS(hash_bitset) { bits<9>(); bits<64>(); }
HARNESS(hash_bitset_long) { bits<70>(); }
// ---- floating values: the two zeros are equal
HARNESS(hash_float) { bool n = vp::flag(); double z = n ? -0.0 : 0.0; CHECK(sprout::to_hash(z) == sprout::to_hash(0.0)); float zf = n ? -0.0f : 0.0f; CHECK(sprout::to_hash(zf) == sprout::to_hash(0.0f)); }
