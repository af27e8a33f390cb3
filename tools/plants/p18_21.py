plant("P18_empty_less", "ordering two optionals of which the left is empty and the right holds a value",
 "an empty optional is not less than one that holds the default value of its type",
 [("sprout/utility/compare_pointees.hpp", "return !rhs ? false : (!lhs ? true : (*lhs) < (*rhs));", "return !rhs ? false : (!lhs ? !lhs && (*rhs < typename std::decay<decltype(*rhs)>::type() || typename std::decay<decltype(*rhs)>::type() < *rhs) : (*lhs) < (*rhs));")],
'''#include <sprout/optional.hpp>
int main() { sprout::optional<int> e, z(0), o(1); return !(e < o && e < z && !(z < e) && e <= z && z > e); }''')
plant("P18_variant_same_which", "ordering two variants that hold different alternatives, the greater position on the left",
 "variant ordering compares the held alternative's tuple slot also when the right one holds an earlier alternative",
 [("sprout/variant/variant.hpp", "|| (lhs.which_ == rhs.which_ && lt<0>(lhs.tuple_, rhs.tuple_, lhs.which_))", "|| (lhs.which_ == rhs.which_ && lt<0>(lhs.tuple_, rhs.tuple_, lhs.which_))\n\t\t\t\t|| (lhs.which_ > rhs.which_ + 1 && lt<0>(lhs.tuple_, rhs.tuple_, lhs.which_))")],
'''#include <sprout/variant.hpp>
int main() { typedef sprout::variant<int, char, short> V; V a(short(-5)), b(7); return !(!(a < b) && b < a && !(b > a)); }''')
plant("P19_append_gap", "appending into a text whose length is below its capacity, at a position behind the input's length",
 "elements behind the insertion point are taken one too early when as many elements precede as are inserted",
 [("sprout/operation/fixed/append.hpp", ": *sprout::next(sprout::internal_begin(cont), Indexes - size)", ": *sprout::next(sprout::internal_begin(cont), Indexes - size - (size > 1 && pos == size + 1 && Indexes == pos + size ? 1 : 0))")],
'''#include <sprout/operation.hpp>
#include <sprout/array.hpp>
int main() { sprout::array<int, 4> a{{1, 2, 3, 4}}; sprout::array<int, 2> b{{8, 9}}; auto r = sprout::fixed::append(a, 3, b); return !(r[0] == 1 && r[2] == 3 && r[3] == 8 && r[4] == 9 && r[5] == 4); }''')
plant("P19_insert_n_cycle", "insert_n with two or more values at an odd position",
 "the values repeat from the wrong one when the position is odd",
 [("sprout/operation/fixed/insert_n.hpp", "(Indexes - pos) % (1 + sizeof...(Values)), v, values...", "(Indexes - pos + (pos > 2 && pos % 2 ? sizeof...(Values) * (1 + sizeof...(Values)) + (Indexes - pos >= static_cast<sprout::index_t>(1 + sizeof...(Values)) && N > 1 ? 1 : 0) : 0)) % (1 + sizeof...(Values)), v, values...")],
'''#include <sprout/operation.hpp>
#include <sprout/array.hpp>
int main() { sprout::array<int, 4> a{{1, 2, 3, 4}}; auto r = sprout::fixed::insert_n<2>(a, 3, 7, 8); auto q = sprout::fixed::insert_n<2>(a, 1, 7, 8); return !(r[2] == 3 && r[3] == 7 && r[4] == 8 && r[5] == 7 && r[6] == 8 && r[7] == 4 && q[1] == 7 && q[4] == 8 && q[5] == 2); }''')
plant("P20_sub_of_sub", "a window taken of a window that does not start at the front",
 "the end of a window of a window is counted from the whole container when the inner window is empty at its front",
 [("sprout/sub_array/sub_array.hpp", "other.impl_.to_first_ + to_first,", "other.impl_.to_first_ + (to_first == to_last && to_first > 0 ? to_first - 1 : to_first),")],
'''#include <sprout/sub_array.hpp>
#include <sprout/array.hpp>
int main() { typedef sprout::array<int, 5> A; A a{{0, 1, 2, 3, 4}}; sprout::sub_array<A> s(a, 1, 4); sprout::sub_array<A> t(s, 1, 1), u(s, 1, 2); return !(t.size() == 0 && u.size() == 1 && u[0] == 2); }''')
plant("P21_mask_skip", "a mask that selects an element behind two or more cleared places in a row",
 "selecting by mask counts two cleared places in a row as one",
 [("sprout/detail/algorithm/mask_index.hpp", ": sprout::detail::mask_index_impl(sprout::next(first), last, result, size, n + 1, args...)", ": sprout::detail::mask_index_impl(sprout::next(first), last, result, size, n + (sizeof...(Args) == 1 && n > 1 ? 0 : 1), args...)")],
'''#include <sprout/valarray.hpp>
int main() { sprout::valarray<int, 5> v; v.resize(5); for (int i = 0; i < 5; ++i) v[i] = i; sprout::valarray<bool, 5> m; m.resize(5); m[0] = m[3] = m[4] = true; sprout::valarray<int, 5> w(v[m]); m[0] = m[4] = false; m[1] = true; m[2] = m[3] = false; m[4] = true; sprout::valarray<int, 5> x(v[m]); return !(w.size() == 3 && w[0] == 0 && w[1] == 3 && w[2] == 4 && x.size() == 2 && x[0] == 1 && x[1] == 4); }''')
plant("P21_gslice_stride", "a generalised slice with at least two elements in its inner dimension and different strides",
 "the outer stride is used for the innermost dimension when the outer extent is one",
 [("sprout/valarray/gslice_array.hpp", "return first1 != last1 ? *first2 * (i / *first1) + index_impl(", "return first1 != last1 && size_[0] != *first1 ? *first2 * (i / *first1) + index_impl(")],
'''#include <sprout/valarray.hpp>
int main() { sprout::valarray<int, 6> v; v.resize(6); for (int i = 0; i < 6; ++i) v[i] = i; std::size_t s[] = {1, 2}, d[] = {3, 1}; sprout::valarray<std::size_t, 2> S(s + 0, 2), D(d + 0, 2); sprout::valarray<int, 6> w(v[sprout::gslice<2>(1, S, D)]); return !(w.size() == 2 && w[0] == 1 && w[1] == 2); }''')
