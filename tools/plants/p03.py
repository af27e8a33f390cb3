plant("P03_set_difference_dup", "a multiset: an element occurring more often in the first range than in the second",
 "fixed::set_difference keeps its place in the second range after a match, so one element of the second cancels all its equals of the first",
 [("sprout/algorithm/fixed/set_difference.hpp", "sprout::next(first1), last1, sprout::next(first2), last2, result, comp,\n\t\t\t\t\t\t\t\t\t\tsize, args...", "sprout::next(first1), last1, first2, last2, result, comp,\n\t\t\t\t\t\t\t\t\t\tsize, args...")],
 '''#include <sprout/algorithm.hpp>
#include <sprout/array.hpp>
int main() { sprout::array<int, 3> a{{1, 1, 2}}; sprout::array<int, 1> b{{1}}; sprout::array<int, 2> r{{9, 9}}; auto o = sprout::fixed::set_difference(a.begin(), a.end(), b.begin(), b.end(), r); return o[0] == 1 && o[1] == 2 ? 0 : 1; }''')
plant("P03_inplace_merge_stable", "equivalent elements on both sides of the middle with the longer first part",
 "inplace_merge looks for the upper instead of the lower bound when the first part is longer, so equal elements of the second part overtake",
 [("sprout/algorithm/cxx14/inplace_merge.hpp", "sprout::lower_bound(middle, last, *first_cut, comp)", "sprout::upper_bound(middle, last, *first_cut, comp)")],
 '''#include <sprout/algorithm.hpp>
struct L { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
int main() { int a[5] = {10, 11, 12, 13, 14}; sprout::inplace_merge(a + 0, a + 3, a + 5, L()); for (int i = 0; i < 5; ++i) if (a[i] != 10 + i) return 1; return 0; }''')
