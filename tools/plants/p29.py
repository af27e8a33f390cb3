plant("P29_round_half_even_own", "configuration without the compiler's math builtins; a positive number exactly halfway between two integers", "round(2.5) is 2 instead of 3",
 [("sprout/math/round.hpp", "return x - x0 < T(0.5) ? x0", "return x - x0 <= T(0.5) ? x0")],
 r'''#define SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
#include <sprout/math/round.hpp>
#include <cstdio>
int main() { volatile double x = 2.5, y = -2.5; if (sprout::math::round((double)x) != 3 || sprout::math::round((double)y) != -3) { std::puts("round"); return 1; } return 0; }''', prop="P29")
plant("P29_frac_int_neg_inf", "frac_int of minus infinity", "the fractional part of -inf is NaN instead of -0",
 [("sprout/math/frac_int.hpp", ": x == sprout::numeric_limits<T>::infinity() || x == -sprout::numeric_limits<T>::infinity() ? type(", ": x == sprout::numeric_limits<T>::infinity() ? type(")],
 r'''#include <sprout/math/frac_int.hpp>
#include <cstdio>
#include <cmath>
int main() { volatile double x = -INFINITY; auto p = sprout::math::frac_int((double)x); if (!(p.first == 0) || p.second != x) { std::puts("frac_int"); return 1; } return 0; }''', prop="P29")
plant("P29_fmin_nan", "fmin with a NaN as its first argument only", "NaN comes back instead of the number",
 [("sprout/math/fmin.hpp", "				: sprout::math::isnan(x) ? y\n", "				: sprout::math::isnan(x) ? x\n")],
 r'''#include <sprout/math/fmin.hpp>
#include <cstdio>
#include <cmath>
int main() { volatile double x = NAN, y = 3; if (sprout::math::fmin((double)x, (double)y) != 3 || sprout::math::fmin((double)y, (double)x) != 3) { std::puts("fmin"); return 1; } return 0; }''', prop="P29")
plant("P29_ge_equal_own", "configuration without builtins; equal arguments", "isgreaterequal(x, x) is false",
 [("sprout/math/isgreaterequal.hpp", "&& (x >= y)", "&& !(y >= x)")],
 r'''#define SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
#include <sprout/math/isgreaterequal.hpp>
#include <cstdio>
int main() { volatile double x = 3, y = 3; if (!sprout::math::isgreaterequal((double)x, (double)y)) { std::puts("isgreaterequal"); return 1; } return 0; }''', prop="P29")
