plant("P26_seed_threshold", "a seed sequence asked for exactly 39 words",
 "seed_array::generate uses the wrong mixing distance for 39 words",
 [("sprout/random/seed_array.hpp", "(n >= 39) ? 5", "(n > 39) ? 5")],
'''#include <sprout/random.hpp>
#include <sprout/random/seed_array.hpp>
#include <random>
int main() { sprout::array<unsigned, 2> a{{1u, 2u}}; sprout::random::seed_array<2> s(a.begin(), a.end()); std::seed_seq q{1u, 2u};
for (int n = 1; n < 80; ++n) { unsigned x[80], y[80]; s.generate(x + 0, x + n); q.generate(y + 0, y + n); for (int i = 0; i < n; ++i) if (x[i] != y[i]) return 1; } return 0; }''')
plant("P26_wrap_reject", "an engine narrower than the range, drawing the highest digits for a range that nearly fills the result type",
 "uniform_int_distribution accepts an attempt whose sum wrapped around",
 [("sprout/random/uniform_int_distribution.hpp", "if (result < result_increment) {\n\t\t\t\t\t\t\tcontinue;", "if (result < result_increment && mult > limit * 4) {\n\t\t\t\t\t\t\tcontinue;")],
'''#include <sprout/random/uniform_int_distribution.hpp>
struct E { typedef unsigned char result_type; int i; static constexpr result_type static_min() { return 0; } static constexpr result_type static_max() { return 9; } constexpr result_type min() const { return 0; } constexpr result_type max() const { return 9; }
 result_type operator()() { static int const v[] = {9, 9, 8, 3, 2, 0, 0, 0, 0}; return v[i++]; } };
int main() { E e{0}; sprout::random::uniform_int_distribution<unsigned char> d(0, 255); int r = d(e); return !(r == 23 && e.i == 6); }''', std="14")
