plant("P05_rotate_tail", "a rotation whose second phase has to restart one before the middle (lengths not multiples of one another)",
 "rotate stops too early in its second phase when one element is left in front of the middle",
 [("sprout/algorithm/cxx14/rotate.hpp", "\t\t\t\t\tif (first == middle) {\n\t\t\t\t\t\tbreak;", "\t\t\t\t\tif (first == middle || (first2 != sprout::next(middle) && sprout::next(first) == middle)) {\n\t\t\t\t\t\tbreak;")],
'''#include <sprout/algorithm.hpp>
int main() { for (int n = 0; n < 12; ++n) for (int m = 0; m <= n; ++m) { int a[12]; for (int i = 0; i < n; ++i) a[i] = i; int* r = sprout::rotate(a + 0, a + m, a + n); if (r != a + (n - m)) return 1; for (int i = 0; i < n; ++i) if (a[i] != (i + m) % n) return 2; } return 0; }''')
