plant("P02_pop_heap_last_child", "a heap in which the sift-down reaches a node with only a left child",
 "fixed::pop_heap does not sift below a node whose only child is the last element, leaving a non-heap (and sort_heap unsorted)",
 [("sprout/algorithm/fixed/pop_heap.hpp", ": l < size\n\t\t\t\t\t\t? comp(", ": l + 1 < size || (l < size && n == 0)\n\t\t\t\t\t\t? comp(")],
 '''#include <sprout/algorithm.hpp>
#include <sprout/array.hpp>
int main() { sprout::array<int, 5> a{{9, 8, 3, 5, 1}}; auto o = sprout::fixed::pop_heap(a); if (!(o[4] == 9 && o[0] >= o[1] && o[0] >= o[2] && o[1] >= o[3])) return 1;
 sprout::array<int, 7> b{{1, 2, 3, 4, 5, 6, 7}}; auto s = sprout::fixed::sort_heap(sprout::fixed::make_heap(b)); for (int i = 0; i < 7; ++i) if (s[i] != i + 1) return 2;
 sprout::array<int, 5> c{{9, 8, 7, 4, 1}}; auto p = sprout::fixed::pop_heap(c); if (p[1] < p[3]) return 3;
 sprout::array<int, 9> d{{90, 80, 10, 70, 20, 5, 4, 60, 3}}; auto q = sprout::fixed::pop_heap(d); for (int i = 1; i < 8; ++i) if (q[(i - 1) / 2] < q[i]) return 4; return 0; }''')
plant("P02_nth_sorted_left", "in-place nth_element on at least 8 elements whose first partition pass makes no swaps, with the nth position left of the pivot",
 "nth_element believes the left part is sorted without checking it to its end, and returns with a wrong nth element",
 [("sprout/algorithm/cxx14/nth_element.hpp", "j = m = first;\n\t\t\t\t\t\t\twhile (++j != i) {", "j = m = first;\n\t\t\t\t\t\t\twhile (++j < i - 1) {")],
 '''#include <sprout/algorithm.hpp>
#include <algorithm>
int main() { int p[8] = {0, 1, 2, 3, 4, 5, 6, 7}; // every arrangement of the first five, the rest in place
 do { for (int n = 0; n < 8; ++n) { int a[8]; for (int i = 0; i < 8; ++i) a[i] = p[i]; sprout::nth_element(a + 0, a + n, a + 8); if (a[n] != n) return 1; for (int i = 0; i < n; ++i) if (a[i] > a[n]) return 1; } } while (std::next_permutation(p, p + 6)); return 0; }''')
