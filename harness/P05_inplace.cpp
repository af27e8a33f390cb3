// P05: in-place and output-iterator (C++14) modifying algorithms leave exactly the elements the reading of the range prescribes,
// return the right end, and write nothing else.
#include "vpu.hpp"
#include <sprout/algorithm.hpp>
#include <sprout/functional.hpp>
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef KIn K; typedef KFwd KO; typedef KBi KB;
#elif KIND == 1
typedef KRa K; typedef KRa KO; typedef KRa KB;
#else
typedef KPtr K; typedef KPtr KO; typedef KPtr KB;
#endif
// VP-ONLY: input -DKIND=0
// VP-VARIANT: ra -DKIND=1
// VP-VARIANT: ptr -DKIND=2
static const int N = VP_THOROUGH ? 7 : 5;
typedef Seq<sc, N> S; typedef Seq<sc, N + 1> D; typedef Seq<sc, 4> S4;
struct Buf : D { sc o[N + 1]; Buf() : D(N + 1) { for (int i = 0; i <= N; ++i) o[i] = v[i]; } bool rest(int f) const { bool ok = true; for (int i = f; i <= N; ++i) ok &= v[i] == o[i]; return ok; } };
struct Old { sc o[N]; int n; template <class Q> explicit Old(Q const& s) : n(s.n) { for (int i = 0; i < n; ++i) o[i] = s[i]; } sc operator[](int i) const { return o[i]; } };
template <class A, class B> bool eqn(A const& a, B const& b, int n) { bool ok = true; for (int i = 0; i < n; ++i) ok &= a[i] == b[i]; return ok; }
// the kept elements of a range, in order: k[j] is the j-th index kept
template <class A, class Q> int keep(A const& a, int n, Q q, sc* out) { int k = 0; for (int i = 0; i < n; ++i) if (q(a[i])) out[k++] = a[i]; return k; }

HARNESS(copy) { S s; Buf d; CHECK(mat<KO>(d, sprout::copy(s.b<K>(), s.e<K>(), d.mb<KO>())) == s.n); CHECK(eqn(d, s, s.n)); CHECK(d.rest(s.n)); }
HARNESS(move) { S s; Buf d; CHECK(mat<KO>(d, sprout::move(s.b<K>(), s.e<K>(), d.mb<KO>())) == s.n); CHECK(eqn(d, s, s.n)); CHECK(d.rest(s.n)); }
HARNESS(copy_overlap) { S s; if (!s.n) return; Old o(s); int k = vp::pick<int>(0, s.n); sprout::copy(s.mp<KO>(k), s.me<KO>(), s.mb<KO>()); for (int i = 0; i < s.n - k; ++i) CHECK(s[i] == o[i + k]); for (int i = s.n - k; i < s.n; ++i) CHECK(s[i] == o[i]); }
HARNESS(copy_backward) { S s; Buf d; int e = vp::pick<int>(s.n, N + 1); CHECK(mat<KB>(d, sprout::copy_backward(s.b<KB>(), s.e<KB>(), d.mp<KB>(e))) == e - s.n); for (int i = 0; i <= N; ++i) CHECK(d[i] == (i >= e - s.n && i < e ? s[i - (e - s.n)] : d.o[i])); }
HARNESS(move_backward) { S s; Buf d; int e = vp::pick<int>(s.n, N + 1); CHECK(mat<KB>(d, sprout::move_backward(s.b<KB>(), s.e<KB>(), d.mp<KB>(e))) == e - s.n); for (int i = 0; i <= N; ++i) CHECK(d[i] == (i >= e - s.n && i < e ? s[i - (e - s.n)] : d.o[i])); }
HARNESS(move_backward_overlap) { S s; Old o(s); int k = vp::pick<int>(0, s.n); sprout::move_backward(s.mb<KB>(), s.mp<KB>(k), s.me<KB>()); for (int i = 0; i < k; ++i) CHECK(s[s.n - k + i] == o[i]); for (int i = 0; i < s.n - k; ++i) CHECK(s[i] == o[i]); }
HARNESS(copy_backward_overlap) { S s; Old o(s); int k = vp::pick<int>(0, s.n); sprout::copy_backward(s.mb<KB>(), s.mp<KB>(k), s.me<KB>()); for (int i = 0; i < k; ++i) CHECK(s[s.n - k + i] == o[i]); for (int i = 0; i < s.n - k; ++i) CHECK(s[i] == o[i]); }
HARNESS(copy_n) { S s; Buf d; int k = vp::pick<int>(0, s.n); CHECK(mat<KO>(d, sprout::copy_n(s.b<K>(), k, d.mb<KO>())) == k); CHECK(eqn(d, s, k)); CHECK(d.rest(k)); }
HARNESS(copy_if) { S s; Buf d; Below q = {vp::nd<sc>()}; sc e[N]; int k = keep(s, s.n, q, e); CHECK(mat<KO>(d, sprout::copy_if(s.b<K>(), s.e<K>(), d.mb<KO>(), q)) == k); CHECK(eqn(d, e, k)); CHECK(d.rest(k)); }
HARNESS(copy_while) { S s; Buf d; Below q = {vp::nd<sc>()}; int k = 0; while (k < s.n && q(s[k])) ++k; auto r = sprout::copy_while(s.b<K>(), s.e<K>(), d.mb<KO>(), q); CHECK(at<K>(s, r.first) == k); CHECK(mat<KO>(d, r.second) == k); CHECK(eqn(d, s, k)); CHECK(d.rest(k)); }
HARNESS(copy_until) { S s; Buf d; Below q = {vp::nd<sc>()}; int k = 0; while (k < s.n && !q(s[k])) ++k; auto r = sprout::copy_until(s.b<K>(), s.e<K>(), d.mb<KO>(), q); CHECK(at<K>(s, r.first) == k); CHECK(mat<KO>(d, r.second) == k); CHECK(eqn(d, s, k)); CHECK(d.rest(k)); }
HARNESS(remove_copy) { S s; Buf d; sc v = vp::nd<sc>(); sc e[N]; int k = keep(s, s.n, [v](sc x) { return x != v; }, e); CHECK(mat<KO>(d, sprout::remove_copy(s.b<K>(), s.e<K>(), d.mb<KO>(), v)) == k); CHECK(eqn(d, e, k)); CHECK(d.rest(k)); }
HARNESS(remove_copy_if) { S s; Buf d; Below q = {vp::nd<sc>()}; sc e[N]; int k = keep(s, s.n, [q](sc x) { return !q(x); }, e); CHECK(mat<KO>(d, sprout::remove_copy_if(s.b<K>(), s.e<K>(), d.mb<KO>(), q)) == k); CHECK(eqn(d, e, k)); CHECK(d.rest(k)); }
HARNESS(remove) { S s; Old o(s); sc v = vp::nd<sc>(); sc e[N]; int k = keep(o, s.n, [v](sc x) { return x != v; }, e); CHECK(mat<KO>(s, sprout::remove(s.mb<KO>(), s.me<KO>(), v)) == k); CHECK(eqn(s, e, k)); }
HARNESS(remove_if) { S s; Old o(s); Below q = {vp::nd<sc>()}; sc e[N]; int k = keep(o, s.n, [q](sc x) { return !q(x); }, e); CHECK(mat<KO>(s, sprout::remove_if(s.mb<KO>(), s.me<KO>(), q)) == k); CHECK(eqn(s, e, k)); }
HARNESS(replace) { S s; Old o(s); sc a = vp::nd<sc>(), b = vp::nd<sc>(); sprout::replace(s.mb<KO>(), s.me<KO>(), a, b); for (int i = 0; i < s.n; ++i) CHECK(s[i] == (o[i] == a ? b : o[i])); }
HARNESS(replace_if) { S s; Old o(s); Below q = {vp::nd<sc>()}; sc b = vp::nd<sc>(); sprout::replace_if(s.mb<KO>(), s.me<KO>(), q, b); for (int i = 0; i < s.n; ++i) CHECK(s[i] == (q(o[i]) ? b : o[i])); }
HARNESS(replace_copy) { S s; Buf d; sc a = vp::nd<sc>(), b = vp::nd<sc>(); CHECK(mat<KO>(d, sprout::replace_copy(s.b<K>(), s.e<K>(), d.mb<KO>(), a, b)) == s.n); for (int i = 0; i < s.n; ++i) CHECK(d[i] == (s[i] == a ? b : s[i])); CHECK(d.rest(s.n)); }
HARNESS(replace_copy_if) { S s; Buf d; Below q = {vp::nd<sc>()}; sc b = vp::nd<sc>(); CHECK(mat<KO>(d, sprout::replace_copy_if(s.b<K>(), s.e<K>(), d.mb<KO>(), q, b)) == s.n); for (int i = 0; i < s.n; ++i) CHECK(d[i] == (q(s[i]) ? b : s[i])); CHECK(d.rest(s.n)); }
HARNESS(reverse) { Seq<sc, 7> s; sc o[7]; for (int i = 0; i < s.n; ++i) o[i] = s[i]; sprout::reverse(s.mb<KB>(), s.me<KB>()); for (int i = 0; i < s.n; ++i) CHECK(s[i] == o[s.n - 1 - i]); }
HARNESS(reverse_copy) { S s; Buf d; CHECK(mat<KO>(d, sprout::reverse_copy(s.b<KB>(), s.e<KB>(), d.mb<KO>())) == s.n); for (int i = 0; i < s.n; ++i) CHECK(d[i] == s[s.n - 1 - i]); CHECK(d.rest(s.n)); }
HARNESS(rotate) { Seq<sc, 7> s; sc o[7]; for (int i = 0; i < s.n; ++i) o[i] = s[i]; int m = vp::pick<int>(0, s.n); int r = mat<KO>(s, sprout::rotate(s.mb<KO>(), s.mp<KO>(m), s.me<KO>())); CHECK(r == s.n - m); for (int i = 0; i < s.n; ++i) CHECK(s[i] == o[(i + m) % s.n]); }
HARNESS(rotate_copy) { S s; Buf d; int m = vp::pick<int>(0, s.n); CHECK(mat<KO>(d, sprout::rotate_copy(s.b<KO>(), s.cp<KO>(m), s.e<KO>(), d.mb<KO>())) == s.n); for (int i = 0; i < s.n; ++i) CHECK(d[i] == s[(i + m) % s.n]); CHECK(d.rest(s.n)); }
HARNESS(unique) { S s; Old o(s); sc e[N]; int k = 0; for (int i = 0; i < s.n; ++i) if (i == 0 || o[i] != o[i - 1]) e[k++] = o[i]; CHECK(mat<KO>(s, sprout::unique(s.mb<KO>(), s.me<KO>())) == k); CHECK(eqn(s, e, k)); }
HARNESS(unique_pred) { S s; Old o(s); sc e[N]; int k = 0; for (int i = 0; i < s.n; ++i) if (k == 0 || !HalfEq()(e[k - 1], o[i])) e[k++] = o[i]; CHECK(mat<KO>(s, sprout::unique(s.mb<KO>(), s.me<KO>(), HalfEq())) == k); CHECK(eqn(s, e, k)); }
HARNESS(unique_copy) { S s; Buf d; sc e[N]; int k = 0; for (int i = 0; i < s.n; ++i) if (i == 0 || s[i] != s[i - 1]) e[k++] = s[i]; CHECK(mat<KO>(d, sprout::unique_copy(s.b<K>(), s.e<K>(), d.mb<KO>())) == k); CHECK(eqn(d, e, k)); CHECK(d.rest(k)); }
HARNESS(unique_copy_pred) { S s; Buf d; sc e[N]; int k = 0; for (int i = 0; i < s.n; ++i) if (k == 0 || !HalfEq()(e[k - 1], s[i])) e[k++] = s[i]; CHECK(mat<KO>(d, sprout::unique_copy(s.b<K>(), s.e<K>(), d.mb<KO>(), HalfEq())) == k); CHECK(eqn(d, e, k)); CHECK(d.rest(k)); }
HARNESS(fill) { S s; sc v = vp::nd<sc>(); int a = vp::pick<int>(0, s.n), b = vp::pick<int>(a, s.n); Old o(s); sprout::fill(s.mp<KO>(a), s.mp<KO>(b), v); for (int i = 0; i < s.n; ++i) CHECK(s[i] == (i >= a && i < b ? v : o[i])); }
HARNESS(fill_n) { Buf d; sc v = vp::nd<sc>(); int k = vp::pick<int>(0, N + 1); CHECK(mat<KO>(d, sprout::fill_n(d.mb<KO>(), k, v)) == k); for (int i = 0; i < k; ++i) CHECK(d[i] == v); CHECK(d.rest(k)); }
struct Gen { sc* p; sc operator()() { return *p++; } };
HARNESS(generate) { S s, g(N); sprout::generate(s.mb<KO>(), s.me<KO>(), Gen{g.v}); for (int i = 0; i < s.n; ++i) CHECK(s[i] == g[i]); }
HARNESS(generate_n) { Buf d; S g(N); int k = vp::pick<int>(0, N); CHECK(mat<KO>(d, sprout::generate_n(d.mb<KO>(), k, Gen{g.v})) == k); CHECK(eqn(d, g, k)); CHECK(d.rest(k)); }
struct Neg { sc operator()(sc x) const { return (sc)~x; } };
struct Mix { sc operator()(sc x, sc y) const { return (sc)(x ^ (y << 1)); } };
HARNESS(transform) { S s; Buf d; CHECK(mat<KO>(d, sprout::transform(s.b<K>(), s.e<K>(), d.mb<KO>(), Neg())) == s.n); for (int i = 0; i < s.n; ++i) CHECK(d[i] == Neg()(s[i])); CHECK(d.rest(s.n)); }
HARNESS(transform2) { S s, t(N); Buf d; CHECK(mat<KO>(d, sprout::transform(s.b<K>(), s.e<K>(), t.b<K>(), d.mb<KO>(), Mix())) == s.n); for (int i = 0; i < s.n; ++i) CHECK(d[i] == Mix()(s[i], t[i])); CHECK(d.rest(s.n)); }
HARNESS(for_each) { S s; sc o[N]; int c = 0; sc h = 0; sprout::for_each(s.mb<KO>(), s.me<KO>(), [&](sc& x) { o[c++] = x; x = (sc)~x; }); CHECK(c == s.n); for (int i = 0; i < s.n; ++i) CHECK(s[i] == (sc)~o[i]); }
HARNESS(for_each_n) { S s; Old o(s); int k = vp::pick<int>(0, s.n); CHECK(mat<KO>(s, sprout::for_each_n(s.mb<KO>(), k, [](sc& x) { x = (sc)~x; })) == k); for (int i = 0; i < s.n; ++i) CHECK(s[i] == (i < k ? (sc)~o[i] : o[i])); }
HARNESS(swap_ranges) { S s; Buf d; Old o(s); CHECK(mat<KO>(d, sprout::swap_ranges(s.mb<KO>(), s.me<KO>(), d.mb<KO>())) == s.n); CHECK(eqn(s, d.o, s.n)); CHECK(eqn(d, o, s.n)); CHECK(d.rest(s.n)); }
HARNESS(iter_swap) { S4 s(1); int i = vp::pick<int>(0, s.n - 1), j = vp::pick<int>(0, s.n - 1); S4 o = s; sprout::iter_swap(s.mp<KO>(i), s.mp<KO>(j)); for (int k = 0; k < s.n; ++k) CHECK(s[k] == (k == i ? o[j] : k == j ? o[i] : o[k])); }
HARNESS(partition) { S s; Old o(s); Below q = {vp::nd<sc>()}; int c = 0; for (int i = 0; i < s.n; ++i) c += q(s[i]); int r = mat<KO>(s, sprout::partition(s.mb<KO>(), s.me<KO>(), q)); CHECK(r == c); for (int i = 0; i < s.n; ++i) CHECK(q(s[i]) == (i < r)); CHECK(is_perm(s.v, o.o, s.n)); }
HARNESS(stable_partition) { S s; Old o(s); Below q = {vp::nd<sc>()}; sc e[N]; int c = keep(o, s.n, q, e); keep(o, s.n, [q](sc x) { return !q(x); }, e + c); int r = mat<KB>(s, sprout::stable_partition(s.mb<KB>(), s.me<KB>(), q)); CHECK(r == c); CHECK(eqn(s, e, s.n)); }
HARNESS(partition_copy) { S s; Buf d, f; Below q = {vp::nd<sc>()}; sc e[N], g[N]; int c = keep(s, s.n, q, e), h = keep(s, s.n, [q](sc x) { return !q(x); }, g); auto r = sprout::partition_copy(s.b<K>(), s.e<K>(), d.mb<KO>(), f.mb<KO>(), q); CHECK(mat<KO>(d, r.first) == c); CHECK(mat<KO>(f, r.second) == h); CHECK(eqn(d, e, c)); CHECK(eqn(f, g, h)); CHECK(d.rest(c)); CHECK(f.rest(h)); }
struct IsOdd { typedef sc argument_type; typedef bool result_type; bool operator()(sc x) const { return (x & 1) != 0; } };
HARNESS(gather) { S s; Old o(s); IsOdd q; int p = vp::pick<int>(0, s.n); sc e[N]; int k = 0; for (int i = 0; i < p; ++i) if (!q(o[i])) e[k++] = o[i]; int a = k; for (int i = 0; i < p; ++i) if (q(o[i])) e[k++] = o[i]; for (int i = p; i < s.n; ++i) if (q(o[i])) e[k++] = o[i]; int b = k; for (int i = p; i < s.n; ++i) if (!q(o[i])) e[k++] = o[i];
  auto r = sprout::gather(s.mb<KB>(), s.me<KB>(), s.mp<KB>(p), q); CHECK(mat<KB>(s, r.first) == a); CHECK(mat<KB>(s, r.second) == b); CHECK(eqn(s, e, s.n)); }
