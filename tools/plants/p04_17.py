plant("P04_unique_copy_last", "neighbouring elements that are equal but distinguishable (an ordering key and a payload)",
 "fixed::unique_copy keeps the last instead of the first of a run of equal elements",
 [("sprout/algorithm/fixed/unique_copy.hpp", "unique_copy_impl(sprout::next(first), last, result, size, head, args...)\n\t\t\t\t\t: sprout::detail::container_complate(result, args..., head)\n\t\t\t\t\t;\n\t\t\t}\n\n\t\t\ttemplate<typename InputIterator, typename Result>\n\t\t\tinline SPROUT_CONSTEXPR typename std::enable_if<\n\t\t\t\tsprout::is_fixed_container<Result>::value,\n\t\t\t\ttypename sprout::fixed::results::algorithm<Result>::type\n\t\t\t>::type\n\t\t\tunique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {",
   "unique_copy_impl(sprout::next(first), last, result, size, *first, args...)\n\t\t\t\t\t: sprout::detail::container_complate(result, args..., head)\n\t\t\t\t\t;\n\t\t\t}\n\n\t\t\ttemplate<typename InputIterator, typename Result>\n\t\t\tinline SPROUT_CONSTEXPR typename std::enable_if<\n\t\t\t\tsprout::is_fixed_container<Result>::value,\n\t\t\t\ttypename sprout::fixed::results::algorithm<Result>::type\n\t\t\t>::type\n\t\t\tunique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {")],
'''#include <sprout/algorithm/fixed/unique_copy.hpp>
#include <sprout/array.hpp>
struct E { int k, id; constexpr bool operator==(E const& o) const { return k == o.k; } };
int main() { sprout::array<E, 4> a{{{1, 0}, {1, 1}, {2, 2}, {2, 3}}}; sprout::array<E, 3> r{{{9, 9}, {9, 9}, {9, 9}}};
auto q = sprout::fixed::unique_copy(a.begin(), a.end(), r); return !(q[0].id == 0 && q[1].id == 2 && q[2].id == 9); }''')
plant("P06_prev_equal", "a sequence with repeated elements, one of them equal to the pivot",
 "prev_permutation swaps the pivot with an element equal to it, so it repeats or skips arrangements of multisets",
 [("sprout/algorithm/cxx14/prev_permutation.hpp", "while (!comp(*--j, *i))", "while (comp(*i, *--j))")],
'''#include <sprout/algorithm/prev_permutation.hpp>
int main() { int a[] = {2, 1, 2}; bool b = sprout::prev_permutation(a + 0, a + 3); return !(b && a[0] == 1 && a[1] == 2 && a[2] == 2) || [] { int c[] = {2, 1, 1, 2}; bool d = sprout::prev_permutation(c + 0, c + 4); return !(d && c[0] == 1 && c[1] == 2 && c[2] == 2 && c[3] == 1) && 0; }() || [] { int c[] = {3, 1, 2, 3, 3}; sprout::prev_permutation(c + 0, c + 5); return !(c[0] == 2 && c[1] == 3 && c[2] == 3 && c[3] == 3 && c[4] == 1); }() || [] { int c[] = {2, 1, 1, 2, 1}; sprout::prev_permutation(c + 0, c + 5); return !(c[0] == 2 && c[1] == 1 && c[2] == 1 && c[3] == 1 && c[4] == 2); }() || [] { int c[] = {2, 2, 1, 2}; sprout::prev_permutation(c + 0, c + 4); return !(c[0] == 2 && c[1] == 1 && c[2] == 2 && c[3] == 2); }(); }''')
plant("P06_sample_forward", "sampling more elements than the population has, from forward iterators into a pure output iterator",
 "selection sampling does not clamp the requested number to the population when it asks for exactly one element too many",
 [("sprout/algorithm/cxx14/sample.hpp", "for (n = NS_SSCRISK_CEL_OR_SPROUT::min(n, unsampled_size); n != 0; ++first ) {", "for (n = NS_SSCRISK_CEL_OR_SPROUT::min(n, unsampled_size + 1); n != 0 && unsampled_size + 1 != 0; ++first ) {")],
'''#include <sprout/algorithm/sample.hpp>
#include <iterator>
struct G { typedef unsigned result_type; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xFFFFFFFFu; } unsigned operator()() { return 0; } };
struct O { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; int* p; int& operator*() { return *p; } O& operator++() { ++p; return *this; } O operator++(int) { O o = *this; ++p; return o; } };
int main() { int arr[5] = {0, 1, 2, 99, 99}; int out[6] = {-1, -1, -1, -1, -1, -1}; G g; O e = sprout::sample(arr + 0, arr + 3, O{out}, 4, g); return !(e.p == out + 3 && out[2] == 2 && out[3] == -1); }''')
plant("P07_exclusive_scan_order", "an operation + that is not commutative",
 "fixed::exclusive_scan adds the next element on the left of the running value",
 [("sprout/numeric/fixed/exclusive_scan.hpp", "exclusive_scan_impl_1(sprout::next(first), last, result, size, value + temp, *first, args..., value)", "exclusive_scan_impl_1(sprout::next(first), last, result, size, temp + value, *first, args..., value)")],
'''#include <sprout/numeric/fixed/exclusive_scan.hpp>
#include <sprout/array.hpp>
struct S { int v; constexpr S(int x = 0) : v(x) {} constexpr S operator+(S o) const { return S(v * 10 + o.v); } };
int main() { sprout::array<S, 4> a{{S(1), S(2), S(3), S(4)}}; sprout::array<S, 4> r; auto q = sprout::fixed::exclusive_scan(a.begin(), a.end(), r, S(5)); return !(q[0].v == 5 && q[1].v == 51 && q[2].v == 512 && q[3].v == 5123); }''')
plant("P08_append_empty_tail", "assigning a shorter range of forward iterators to a longer string, at most half as long",
 "assign from a forward range keeps the old length when the new text is at most a quarter as long",
 [("sprout/string/string.hpp", "lengthcheck(sprout::distance(first, last));\n\t\t\titerator it = begin();\n\t\t\tfor (; first != last; ++first, ++it) {\n\t\t\t\ttraits_type::assign(*it, *first);\n\t\t\t}\n\t\t\tput_terminator(sprout::distance(begin(), it));", "lengthcheck(sprout::distance(first, last));\n\t\t\titerator it = begin();\n\t\t\tfor (; first != last; ++first, ++it) {\n\t\t\t\ttraits_type::assign(*it, *first);\n\t\t\t}\n\t\t\tput_terminator(it == begin() && size() == max_size() ? size() : static_cast<size_type>(sprout::distance(begin(), it)));")],
'''#include <sprout/string.hpp>
#include <list>
int main() { sprout::basic_string<char, 4> s("abcd"); std::list<char> l; s.assign(l.begin(), l.end()); return !(s.size() == 0 && s == ""); }''')
plant("P08_compare_prefix", "comparing two texts of different length of which one is a prefix of the other and both are longer than two",
 "compare calls a string equal to a proper extension of it when it is longer than two characters and the extension is one longer",
 [("sprout/string/detail/compare.hpp", ": n1 < n2 ? -1\n", ": n1 < n2 && (n1 <= 2 || n2 - n1 > 1) ? -1\n")],
'''#include <sprout/string.hpp>
int main() { auto s = sprout::to_string("abc"); return !(s.compare("abcd") < 0 && s.compare("abc") == 0); }''')
plant("P09_strncpy_pad", "a source shorter than n by at least two",
 "strncpy pads one element too few behind a short source",
 [("sprout/cstring/strncpy.hpp", "\t\t\twhile (n) {\n\t\t\t\t--n;\n\t\t\t\t*s1++ = value_type();", "\t\t\twhile (n > 1) {\n\t\t\t\t--n;\n\t\t\t\t*s1++ = value_type();")],
'''#include <sprout/cstring/strncpy.hpp>
int main() { char b[6] = {'x', 'x', 'x', 'x', 'x', 'x'}; sprout::strncpy(b, "a", 5); return !(b[0] == 'a' && !b[1] && !b[2] && !b[3] && !b[4] && b[5] == 'x'); }''')
plant("P10_rfind_clamp", "rfind with a position at which the pattern no longer fits entirely",
 "rfind starts one too far left when the position lies between the last fitting place and the end",
 [("sprout/string/detail/find.hpp", "NS_SSCRISK_CEL_OR_SPROUT::min(typename String::size_type(len - n), pos), n", "pos < len && pos > len - n && len > n ? typename String::size_type(len - n - 1) : NS_SSCRISK_CEL_OR_SPROUT::min(typename String::size_type(len - n), pos), n")],
'''#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
int main() { sprout::string_view v("xabcabc", 7); return !(v.rfind("abc", 5) == 4 && v.rfind("abc") == 4 && v.rfind("abc", 3) == 1); }''')
plant("P11_overflow_digit", "a leading zero of a text read in base 16 that is not followed by x",
 "reading base 16 treats a plain leading zero as octal",
 [("sprout/cstdlib/str_to_int.hpp", "base ? base : 8,\n\t\t\t\t\t\tIntType(),", "base != 0 && base != 16 ? base : 8,\n\t\t\t\t\t\tIntType(),")],
'''#include <sprout/cstdlib.hpp>
int main() { return !(sprout::strtoull("017", nullptr, 16) == 0x17); }''')
plant("P12_underscore", "the single character _ asked for punctuation",
 "'_' is classified as graphic but not as punctuation",
 [("sprout/ctype/ascii.hpp", "/* 0x5F\t'_'\t*/ sprout::ascii::detail::graph | sprout::ascii::detail::print | sprout::ascii::detail::punct", "/* 0x5F\t'_'\t*/ sprout::ascii::detail::graph | sprout::ascii::detail::print")],
'''#include <sprout/ctype/ascii.hpp>
int main() { for (int c = 0; c < 128; ++c) { bool p = (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126); if ((sprout::ascii::ispunct(static_cast<char>(c)) != 0) != p) return 1; } return 0; }''')
plant("P13_shift_three_words", "a bitset of at least three words shifted by a distance that is not a multiple of the word size",
 "the left shift takes the carry into every word from the lowest word",
 [("sprout/bitset/bitset.hpp", "? (w_[Indexes - wshift] << offset) | (w_[Indexes - wshift - 1] >> sub_offset)\n", "? (w_[Indexes - wshift] << offset) | (w_[0] >> sub_offset)\n")],
'''#include <sprout/bitset.hpp>
int main() { sprout::bitset<200> b; sprout::bitset<200> c = b.set(127); auto d = static_cast<sprout::bitset<200> const&>(c) << 3; for (int i = 0; i < 200; ++i) if (d[i] != (i == 130)) return 1; return 0; }''')
plant("P14_bit_length_byte", "a value with a byte in one particular range above the lowest byte",
 "bit_length of multi-byte values ignores a most significant byte equal to 128",
 [("sprout/bit/bit_length.hpp", "return bit_len_8_table[i]\n", "return bit_len_8_table[i] && (i != 128 || next_size == 0)\n")],
'''#include <sprout/bit/operation.hpp>
int main() { for (int i = 0; i < 31; ++i) if (sprout::bit_length(1 << i) != i + 1) return 1; return sprout::bit_length(1u << 31) != 32u; }''')
plant("P15_md5_pad", "a message of exactly 56 modulo 64 bytes",
 "md5 pads one block too many when the message ends where the length field begins",
 [("sprout/checksum/md5.hpp", "return static_cast<std::size_t>((511 + 448 - bit_count_) % 512);", "return static_cast<std::size_t>((511 + 448 - bit_count_) % 512 + (bit_count_ % 512 == 448 ? 512 : 0));")],
'''#include <sprout/checksum/md5.hpp>
#include <cstring>
#include <cstdint>
int main() { char m[57]; for (int i = 0; i < 56; ++i) m[i] = 'a'; m[56] = 0; sprout::md5 const z; auto r = z.process_block(m + 0, m + 56)(); unsigned char d[16]; for (int i = 0; i < 16; ++i) d[i] = r[i];
static unsigned char const want[16] = {0x3b, 0x0c, 0x8a, 0xc7, 0x03, 0xf8, 0x28, 0xb0, 0x4c, 0x6c, 0x19, 0x70, 0x06, 0xd1, 0x72, 0x18}; return std::memcmp(d, want, 16) != 0; }''')
plant("P16_brace_dash", "a braced text without dashes",
 "string_generator demands the closing brace only for texts with dashes",
 [("sprout/uuid/string_generator.hpp", "generate_2(next_char<ForwardIterator> nc, Char open_brace, bool, Args... args) const {\n\t\t\t\treturn !open_brace ||", "generate_2(next_char<ForwardIterator> nc, Char open_brace, bool has_dashes, Args... args) const {\n\t\t\t\treturn !open_brace || !has_dashes ||")],
'''#include <sprout/uuid/uuid.hpp>
#include <sprout/uuid/string_generator.hpp>
#include <stdexcept>
int main() { try { sprout::uuids::string_generator()("{0123456789abcdef0123456789abcdef)"); return 1; } catch (std::runtime_error const&) { return 0; } }''')
plant("P17_add_reduce", "denominators with a common factor, whose sum has another common factor with the product of the reduced denominators",
 "adding rationals does not cancel the remaining common factor when the sum is negative",
 [("sprout/rational/arithmetic.hpp", "\t\t\t\trhs,\n\t\t\t\tsprout::gcd(num, g), den, num\n\t\t\t\t);\n\t\t}\n\t\ttemplate<typename IntType>\n\t\tinline SPROUT_CONSTEXPR sprout::rational<IntType>\n\t\trational_add_impl_1(", "\t\t\t\trhs,\n\t\t\t\tnum < 0 ? IntType(1) : sprout::gcd(num, g), den, num\n\t\t\t\t);\n\t\t}\n\t\ttemplate<typename IntType>\n\t\tinline SPROUT_CONSTEXPR sprout::rational<IntType>\n\t\trational_add_impl_1(")],
'''#include <sprout/rational.hpp>
int main() { sprout::rational<int> a(-1, 6), b(-1, 6); auto c = a + b; return !(c.numerator() == -1 && c.denominator() == 3); }''')
