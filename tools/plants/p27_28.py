plant("P27_less_third", "comparing tuples of three or more elements whose second element is greater and whose third is less",
 "operator< of tuples lets a later element decide although the second is greater",
 [("sprout/tuple/tuple/comparison.hpp", "|| (!(sprout::tuples::get<I>(u) < sprout::tuples::get<I>(t))", "|| ((I == 1 || !(sprout::tuples::get<I>(u) < sprout::tuples::get<I>(t)))")],
'''#include <sprout/tuple.hpp>
int main() { sprout::tuple<int, int, int> a(1, 5, 2), b(1, 4, 3); return a < b || !(b < a); }''')
plant("P27_append_longer", "append_back with an appended tuple longer than the first",
 "append_back appends a longer tuple in reverse",
 [("sprout/tuple/operation/append_back.hpp", "					sprout::tuples::get<Indexes2>(input)...", "					sprout::tuples::get<(sizeof...(Indexes2) > sizeof...(Indexes1) ? sizeof...(Indexes2) - 1 - Indexes2 : Indexes2)>(input)...")],
'''#include <sprout/tuple.hpp>
#include <sprout/tuple/operation.hpp>
int main() { auto r = sprout::tuples::append_back(sprout::make_tuple(1), sprout::make_tuple(2, 3)); return !(sprout::tuples::get<1>(r) == 2 && sprout::tuples::get<2>(r) == 3); }''')
plant("P28_string_hash_capacity", "strings with the same characters in different capacities",
 "the hash of a string covers its whole capacity",
 [("sprout/string/hash.hpp", "return sprout::hash_range(v);", "return sprout::hash_range(v.data(), v.data() + N);")],
'''#include <sprout/string.hpp>
int main() { sprout::string_t<8>::type a("ab"); sprout::string_t<4>::type b("ab"); return sprout::to_hash(a) != sprout::to_hash(b); }''')
plant("P28_nested_bind_three", "a bind expression nested in another that is called with three arguments or more",
 "a nested bind expression gets the first two of three call arguments exchanged",
 [("sprout/functional/bind/bind.hpp", "return arg(SPROUT_FORWARD(Args, sprout::tuples::get<Indexes>(tuple))...);", "return arg(static_cast<Args&&>(sprout::tuples::get<(sizeof...(Args) > 2 && Indexes < 2 ? 1 - Indexes : Indexes)>(tuple))...);")],
'''#include <sprout/functional.hpp>
struct M { constexpr int operator()(int a, int b) const { return a - 2 * b; } };
int main() { using namespace sprout::placeholders; return sprout::bind(M(), sprout::bind(M(), _1, _2), _3)(7, 2, 1) != 1; }''')
plant("P28_hash_neg_long", "hashing a sequence whose running hash has its top bit set",
 "hash_combine shifts the running hash arithmetically",
 [("sprout/functional/hash/hash_combine.hpp", "(seed >> 2)", "static_cast<std::size_t>(static_cast<std::ptrdiff_t>(seed) >> 2)")],
'''#include <sprout/functional/hash.hpp>
int main() { std::size_t s = ~std::size_t(0) - 12345; return sprout::hash_combine(s, 7) != (s ^ (7 + 0x9e3779b9 + (s << 6) + (s >> 2))); }''')
