plant("P01_minmax_tie", "an odd number of elements whose last one equals the maximum so far",
 "minmax_element returns the first instead of the last greatest element when the tie is with the odd element at the end",
 [("sprout/algorithm/minmax_element.hpp", "comp(*b, *sprout::second(a)) ? sprout::second(a) : b\n\t\t\t\t);\n\t\t}\n\t\ttemplate<typename ForwardIterator, typename Compare>\n\t\tinline SPROUT_CONSTEXPR sprout::pair<ForwardIterator, ForwardIterator>\n\t\titer_minmax(ForwardIterator const& a", "comp(*sprout::second(a), *b) ? b : sprout::second(a)\n\t\t\t\t);\n\t\t}\n\t\ttemplate<typename ForwardIterator, typename Compare>\n\t\tinline SPROUT_CONSTEXPR sprout::pair<ForwardIterator, ForwardIterator>\n\t\titer_minmax(ForwardIterator const& a")],
 '''#include <sprout/algorithm.hpp>
#include <sprout/array.hpp>
int main() { sprout::array<int, 5> a{{9, 2, 9, 4, 9}}; int const b[5] = {9, 2, 9, 4, 9}; return sprout::minmax_element(a.begin(), a.end()).second == a.begin() + 4 && sprout::minmax_element(b + 0, b + 5).second == b + 4 ? 0 : 1; }''')
plant("P01_upper_bound_half", "a sorted range of at least 6 elements with the bound at certain positions",
 "upper_bound drops one element of the right half for longer ranges",
 [("sprout/algorithm/upper_bound.hpp", "sprout::next(first, len / 2 + 1), len - (len / 2 + 1)", "sprout::next(first, len / 2 + 1), len - (len / 2 + 1 + (len > 5))")],
 '''#include <sprout/algorithm.hpp>
#include <sprout/array.hpp>
int main() { sprout::array<int, 6> a{{1, 2, 3, 4, 5, 6}}; for (int v = 0; v < 8; ++v) { auto e = a.begin(); while (e != a.end() && *e <= v) ++e; if (sprout::upper_bound(a.begin(), a.end(), v) != e) return 1; } return 0; }''')
