plant("P22_union_swap_side", "two set_union iterators exchanged while one stands in the left and one in the right sequence",
 "swap of set_union iterators does not exchange the side the current element comes from",
 [("sprout/iterator/set_union_iterator.hpp", "			sprout::swap(in_left, other.in_left);\n", "			if (las1 != other.las1)\n				sprout::swap(in_left, other.in_left);\n")],
'''#include <sprout/iterator/set_union_iterator.hpp>
int main() { int a[] = {1, 4}, b[] = {2, 3}; auto i = sprout::make_set_union_iterator(a + 0, a + 2, b + 0, b + 2); auto j = i; ++j; i.swap(j); return !(*i == 2 && *j == 1); }''')
plant("P22_joint_post_decrement", "a post-decrement of a joint iterator standing exactly on the seam",
 "joint_iterator's post-decrement asks whether it is in the left part instead of whether it is at the begin of the right one",
 [("sprout/iterator/joint_iterator.hpp", "			joint_iterator temp(*this);\n			if (first2 == current2) {\n", "			joint_iterator temp(*this);\n			if (is_in_left()) {\n")],
'''#include <sprout/iterator/joint_iterator.hpp>
int main() { int a[] = {1, 2}, b[] = {0, 3, 4}; auto i = sprout::make_joint_iterator(a + 2, a + 2, b + 1, b + 1); i--; return !(*i == 2 && i.base() == a + 1); }''')
plant("P23_window_behind", "a window that ends behind the end of the range it is taken from",
 "window forgets to clip its end when it starts at 0",
 [("sprout/range/adaptor/window.hpp", "NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(rhs.to_last(), sprout::size(sprout::lvalue_forward<Range>(lhs)))", "(rhs.to_first() == 0 ? static_cast<difference_type>(rhs.to_last()) : NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(rhs.to_last(), sprout::size(sprout::lvalue_forward<Range>(lhs))))")],
'''#include <sprout/array.hpp>
#include <sprout/range/adaptor/window.hpp>
int main() { sprout::array<int, 3> a{{1, 2, 3}}; auto r = a | sprout::adaptors::window(0, 5); return r.size() != 3; }''')
plant("P24_find_end_pred", "find_end on ranges with a predicate and a chosen return kind",
 "the range form of find_end with a return kind drops the predicate",
 [("sprout/range/algorithm/find_end.hpp", "		template<sprout::range::range_return_value RetV, typename ForwardRange1, typename ForwardRange2, typename BinaryPredicate>\n		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange1, RetV>::type\n		find_end(ForwardRange1&& range1, ForwardRange2&& range2, BinaryPredicate pred) {\n			return sprout::range::range_return<ForwardRange1, RetV>::pack(\n				sprout::find_end(\n					sprout::begin(SPROUT_FORWARD(ForwardRange1, range1)),\n					sprout::end(SPROUT_FORWARD(ForwardRange1, range1)),\n					sprout::begin(SPROUT_FORWARD(ForwardRange2, range2)),\n					sprout::end(SPROUT_FORWARD(ForwardRange2, range2)),\n					pred\n					),\n",
   "		template<sprout::range::range_return_value RetV, typename ForwardRange1, typename ForwardRange2, typename BinaryPredicate>\n		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange1, RetV>::type\n		find_end(ForwardRange1&& range1, ForwardRange2&& range2, BinaryPredicate) {\n			return sprout::range::range_return<ForwardRange1, RetV>::pack(\n				sprout::find_end(\n					sprout::begin(SPROUT_FORWARD(ForwardRange1, range1)),\n					sprout::end(SPROUT_FORWARD(ForwardRange1, range1)),\n					sprout::begin(SPROUT_FORWARD(ForwardRange2, range2)),\n					sprout::end(SPROUT_FORWARD(ForwardRange2, range2))\n					),\n")],
'''#include <sprout/array.hpp>
#include <sprout/range/algorithm/find_end.hpp>
struct P { bool operator()(int x, int y) const { return x / 2 == y / 2; } };
int main() { sprout::array<int, 4> a{{1, 2, 3, 5}}; sprout::array<int, 1> b{{2}}; auto i = sprout::range::find_end<sprout::range::return_found>(a, b, P()); return i - a.begin() != 2; }''')
plant("P24_includes_comp", "includes with a comparator where the second range is longer than the first",
 "the range form of includes with a comparator leaves out the last element of a longer second range",
 [("sprout/range/algorithm/includes.hpp", "sprout::begin(range2), sprout::end(range2), comp)", "sprout::begin(range2), sprout::next(sprout::begin(range2), sprout::size(range2) - (sprout::size(range2) > sprout::size(range1) ? 1 : 0)), comp)")],
'''#include <sprout/array.hpp>
#include <sprout/range/algorithm/includes.hpp>
#include <sprout/functional.hpp>
int main() { sprout::array<int, 1> a{{5}}; sprout::array<int, 2> b{{5, 3}}; return sprout::range::includes(a, b, sprout::greater<>()); }''')
plant("P25_lfs_small_seed", "a linear feedback shift engine seeded with the largest value that has to be lifted",
 "the largest seed below 2^(w-k) is taken as it is, so that the state degenerates",
 [("sprout/random/linear_feedback_shift.hpp", "return x0 < (1 << (w - k)) ?", "return x0 < (1 << (w - k)) - 1 ?")],
'''#include <sprout/random/linear_feedback_shift.hpp>
typedef sprout::random::linear_feedback_shift_engine<std::uint32_t, 32, 31, 13, 12> E;
int main() { return !(E(1) == E(3) && E(0) == E(2)); }''')
plant("P25_mod_add_exact", "a state whose product plus the increment is exactly the modulus",
 "modular addition gives the modulus itself instead of 0",
 [("sprout/random/detail/const_mod.hpp", "						: x < m - c ? x + c\n", "						: x <= m - c ? x + c\n")],
'''#include <sprout/random/linear_congruential.hpp>
int main() { typedef sprout::random::linear_congruential_engine<unsigned, 48271, 5, 2147483647> E; unsigned long long a = 48271, m = 2147483647, inv = 1, b = a, e = m - 2; for (; e; e >>= 1, b = b * b % m) if (e & 1) inv = inv * b % m; E g((unsigned)((m - 5) * inv % m)); return g() != 0; }''')
