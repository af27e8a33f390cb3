prop("P01", "Range queries equal a linear reading of the range",
 "For every range content, every length and every iterator category (input, forward, bidirectional, random access, pointer), each non-modifying algorithm - find/count/search families, all/any/none/one_of, adjacent_find, mismatch, equal, lexicographical compare (two- and three-way), is_permutation, min/max/minmax element, clamp, is_sorted(_until), is_heap(_until), is_partitioned, partition_point, lower/upper_bound, equal_range, binary_search - returns exactly the result defined by reading the range left to right (first match, last match, number of matches, and so on). No such algorithm reads outside the given range or fails to terminate.",
 "inputs configurations", "all contents, lengths, search values, predicates thresholds and iterator categories; C++11 and C++17",
 "The tests static_assert a few literal arrays per algorithm; each algorithm has up to three implementations chosen by iterator category, splitting the range by divide and conquer, so right answers on one array say little about other lengths and contents.",
 "sprout/algorithm sprout/algorithm/find.hpp sprout/algorithm/one_of.hpp sprout/algorithm/is_heap_until.hpp sprout/algorithm/search_n.hpp sprout/algorithm/equal_range.hpp",
 ["divide-and-conquer recursion split by iterator category @ sprout/algorithm/*.hpp", "is_constant_distance_iterator dispatch @ sprout/iterator/type_traits/is_iterator_of.hpp"],
 "ranges of at most 5-7 elements (9 in the thorough tier) of 8-bit signed values, patterns of at most 3; search_n with count >= 1 (count 0 returns last by design).")

prop("P02", "Sorting, selection and heaps permute the elements into the promised order",
 "For every content of the container and every comparator that is a strict weak order, sort, stable_sort, partial_sort, partial_sort_copy, nth_element, make_heap, push_heap, pop_heap, sort_heap and make_partial_heap - in the container-returning form, the fit form and the in-place form - yield a permutation of the input in the promised order: sorted, sorted prefix, n-th element in its place with no greater element before it and no smaller after it, or heap. Equivalent elements keep their relative order in stable_sort. No element outside the range or window is changed, read or written.",
 "inputs configurations", "all contents and all positions of the middle or n-th element; C++11 and C++17; default and user comparators",
 "The tests sort a few ten-element literals whose elements are mostly distinct; the property ranges over every arrangement, ties included, and the quicksort, heap and merge code takes different branches for each.",
 "sprout/algorithm/fixed/sort.hpp sprout/algorithm/fixed/stable_sort.hpp sprout/algorithm/fixed/pop_heap.hpp sprout/algorithm/fixed/nth_element.hpp sprout/algorithm/cxx14/sort.hpp sprout/algorithm/cxx14/stable_sort.hpp sprout/algorithm/cxx14/nth_element.hpp sprout/algorithm/cxx14/detail",
 ["functional swap_element recursion on whole containers @ sprout/algorithm/fixed/*.hpp", "introsort-like partition with small-range networks @ sprout/algorithm/cxx14/sort.hpp", "merge with a temporary buffer @ sprout/algorithm/cxx14/stable_sort.hpp"],
 "containers of up to 5-8 elements with arbitrary 5-bit keys and identities (6-7 for whole sorts), plus quickselect on 8 elements with a fixed pivot choice and the other five arbitrary, and sizes 16-33 with one to three arbitrary elements in fixed patterns.")

prop("P03", "Merging and set operations follow multiset semantics on sorted ranges",
 "For every pair of sorted ranges and every strict weak order, merge, set_union, set_intersection, set_difference and set_symmetric_difference take exactly the elements their multiset definition prescribes (m and n equivalent elements give max, min, m-n, |m-n| of them, from the prescribed range), in stable sorted order - in the output-iterator form, the container-returning form (which stops when the result container is full and otherwise leaves the remaining elements of the result) and the fit form (whose window holds the produced elements). The stepping functions find_/next_ visit exactly the same elements, includes decides multiset inclusion, and inplace_merge is a stable merge.",
 "inputs configurations", "all pairs of sorted ranges and every split of one range; input, random access and pointer iterators; C++11 and C++17",
 "The tests merge one pair of literals; multiplicities, ties across both ranges, exhaustion of one side first and results that do not fit cannot be covered by examples.",
 "sprout/algorithm/fixed/merge.hpp sprout/algorithm/fixed/set_union.hpp sprout/algorithm/fixed/set_difference.hpp sprout/algorithm/cxx14/set_symmetric_difference.hpp sprout/algorithm/next_union.hpp sprout/algorithm/includes.hpp sprout/algorithm/cxx14/inplace_merge.hpp",
 ["pack-building recursion over two ranges @ sprout/algorithm/fixed/set_*.hpp", "find_/next_ stepping @ sprout/algorithm/next_*.hpp"],
 "first and second range of at most 3 elements each (4 in the thorough tier), 5-bit keys with identities; result containers of 1 to 6 elements; inplace_merge up to 6 elements.")

prop("P04", "Container-returning algorithms return the result container with exactly the prescribed elements",
 "For every source range, every result container and every parameter, the functional forms of the copying and transforming algorithms (copy and remove families, replace, reverse, rotate, unique, transform, fill, generate, unfold, recurrence, partition families, swap_element, clamp_range) return a container of the result's type and size that starts with the elements the algorithm prescribes, in order, as many as fit, and keeps the result container's own elements after them; when the result is a window (sub_array) only the window is changed. The fit forms return a window that covers exactly the produced elements that fit, over the same container. Arguments are never modified, and nothing outside the ranges is read.",
 "inputs configurations", "all contents, lengths, result sizes, window positions, parameters and iterator categories",
 "Tests compare one ten-element literal per algorithm, always with a result container that is large enough and no or one window; shapes where the result is cut off, empty or windowed are not exercised.",
 "sprout/algorithm/fixed/copy.hpp sprout/algorithm/fixed/rotate_copy.hpp sprout/algorithm/fixed/unique_copy.hpp sprout/algorithm/fixed/transform.hpp sprout/algorithm/fit/unique_copy.hpp sprout/algorithm/fit/partition.hpp sprout/algorithm/fixed/partition.hpp sprout/sub_array/sub_array.hpp",
 ["pack-building recursion with container_complate and remake @ sprout/algorithm/fixed/*.hpp", "window arithmetic with internal_begin_offset @ sprout/algorithm/fit/*.hpp"],
 "source ranges of at most 4 elements (5 thorough), result containers of 2 to 6 elements, every window of a 6-element array; container-to-container forms on 5 (6) elements and their windows; counts of the _n forms within the container.")

prop("P05", "In-place and output-iterator algorithms write exactly what they promise",
 "For every range content, length, parameter and iterator category, the in-place and output-iterator algorithms - copy and move families (with the permitted overlaps), remove, replace, reverse, rotate, unique, fill, generate, transform, for_each, swap_ranges, iter_swap, partition families and gather - leave in the destination exactly the elements prescribed by their definition, in the prescribed order, and return the prescribed end position(s). They write nothing outside the prescribed destination and do not modify their source unless they are defined to.",
 "inputs configurations", "all contents, lengths, split points and predicate thresholds; input/forward, random access and pointer iterators; C++11 and C++17",
 "Most of these run-time forms are only compiled, never executed, by the test suite; the others see one literal.",
 "sprout/algorithm/cxx14/rotate.hpp sprout/algorithm/cxx14/stable_partition.hpp sprout/algorithm/cxx14/move_backward.hpp sprout/algorithm/cxx14/unique_copy.hpp sprout/algorithm/cxx14/for_each_n.hpp sprout/algorithm/cxx14/partition_copy.hpp",
 ["loops over iterators @ sprout/algorithm/cxx14/*.hpp"],
 "ranges of at most 5 elements (7 in the thorough tier; reverse and rotate 7) of 8-bit values.")

prop("P06", "Permutation steps and randomised rearrangements are exact permutations",
 "For every content (repeated elements included) next_permutation and prev_permutation, in the in-place, container-returning and fit forms, yield exactly the lexicographic successor or predecessor of the arrangement and report true, or wrap around to the first or last arrangement and report false when there is none; only the given range or window changes. For every sequence of values the generator can deliver, shuffle, random_shuffle, random_swap, bogo_sort and bozo_sort only permute the elements of the range (random_swap exchanges at most two; a randomised sort that ends has sorted), sample takes min(n, size) distinct elements of the population (in population order for a plain output iterator), the *_result forms agree with the plain ones, and no position outside the range is touched.",
 "inputs histories", "all contents, all generator outputs, window positions and iterator categories",
 "Tests check one permutation step of one literal and shuffle with one fixed seed; uniformly drawn indices that hit a boundary value, repeated elements and wrap-around need particular inputs.",
 "sprout/algorithm/fixed/next_permutation.hpp sprout/algorithm/cxx14/next_permutation.hpp sprout/algorithm/cxx14/prev_permutation.hpp sprout/algorithm/fixed/shuffle.hpp sprout/algorithm/cxx14/shuffle.hpp sprout/algorithm/cxx14/sample.hpp sprout/algorithm/fixed/random_swap.hpp sprout/random/uniform_smallint.hpp",
 ["suffix search, swap, reverse @ sprout/algorithm/fixed/next_permutation.hpp", "index draws through a uniform integer distribution @ sprout/algorithm/fixed/shuffle.hpp"],
 "ranges of up to 5 elements (6 thorough) for permutation steps; shuffles and samples of up to 4 elements with a generator whose first 3 (4) outputs are arbitrary 8-bit values (0 afterwards, so that rejection ends); bogo/bozo sort only runs that end after at most one round. Both the g++ and the clang configuration of the distribution are covered.")

prop("P07", "Numeric algorithms equal their left-to-right definitions",
 "For every range content and length, iterator category, initial value and operation (not assumed commutative or associative), accumulate, reduce, inner_product, transform_reduce and iota, and the sequences of partial_sum, inclusive_scan, exclusive_scan, transform_inclusive_scan, transform_exclusive_scan and adjacent_difference, equal the left-to-right fold the definition prescribes: each element is combined exactly once, in order. The output-iterator, container-returning and fit forms produce the same sequence; a result container that is too short receives a prefix, one that is longer (or a window of it) keeps its other elements.",
 "inputs configurations", "all contents, lengths, initial values, result sizes and windows; C++11 and C++17",
 "No numeric algorithm has a test beyond compiling; the value forms use divide and conquer, so order and coverage of every element matter for each length.",
 "sprout/numeric/accumulate.hpp sprout/numeric/inner_product.hpp sprout/numeric/transform_reduce.hpp sprout/numeric/fixed/partial_sum.hpp sprout/numeric/fixed/exclusive_scan.hpp sprout/numeric/fixed/adjacent_difference.hpp sprout/numeric/cxx14 sprout/numeric/fit",
 ["accumulate_ra / accumulate_impl_1 halving @ sprout/numeric/accumulate.hpp", "pack-building scans @ sprout/numeric/fixed/*.hpp"],
 "ranges of at most 5 elements (6 thorough) of 32-bit unsigned values (8-bit signed for plain inner products); results of 1 to 6 elements; exclusive scans of non-empty ranges. Inclusive scans with an initial value list that value first (n + 1 elements), as the library defines them in all three forms.")

prop("P08", "A fixed-capacity string always holds exactly the text its operations define",
 "For every text and every argument, sprout::basic_string<T, N> construction (from C strings, arrays, ranges, fills, views, parts of other strings and narrower strings), assignment, append, +=, push_back, pop_back, insertion of characters with operator+, substr, copy, clear, resize, swap and comparison yield exactly the text the std::basic_string operation of that name prescribes, always zero-terminated within capacity; an operation whose result exceeds N characters throws length_error (or out_of_range for a position behind the end) and never writes outside the string. find, rfind, find_first_of, find_last_of, find_first_not_of and find_last_not_of, in the position and the iterator forms, return exactly the position std::basic_string defines. Element access and (reverse) iteration show exactly the text.",
 "inputs histories configurations", "all texts up to the capacity, all positions and counts, sequences of modifying operations; char and char16_t; index and pointer iterators",
 "Tests static_assert a few literals; overlong results, empty texts, positions at and behind the end and parts of the string itself are not sampled.",
 "sprout/string/string.hpp sprout/string/char_traits.hpp sprout/string/concat.hpp sprout/string/io.hpp sprout/string/comparison.hpp sprout/string/shrink.hpp sprout/string/make_string.hpp",
 ["length bookkeeping and terminator in assign/append/resize @ sprout/string/string.hpp", "char_traits copy/move/find/compare @ sprout/string/char_traits.hpp"],
 "capacity 4 (5 in the thorough tier) and other texts of at most 2-6 characters, all character values except an embedded NUL (the library takes NUL as the end of the text); histories of two modifying steps; sub-string constructor with positions within the text.")

prop("P09", "The C string and memory functions give the C library's results and stay inside their buffers",
 "For every text and buffer content, strlen, strcmp, strncmp, strchr, strrchr, strspn, strcspn, strpbrk, strstr, strcpy, strncpy, strcat, strncat, memchr, memcmp, memcpy, memmove and memset - in the narrow, wide and generic range forms - return exactly what the C standard prescribes (sign of comparisons by unsigned character value, null or iterator past the end when not found), write exactly the prescribed elements of the destination, in particular for every overlap of memmove, and read or write nothing outside the prescribed buffers.",
 "inputs configurations", "all texts, buffers, counts and overlaps; char, wchar_t and char16_t",
 "The tests compare a few literals; characters above 127, empty strings, counts that cut the text and overlapping moves are not sampled.",
 "sprout/cstring/strcmp.hpp sprout/cstring/strncat.hpp sprout/cstring/strcat.hpp sprout/cstring/strstr.hpp sprout/cstring/memmove.hpp sprout/cwchar sprout/cstring/memcmp.hpp",
 ["recursive scans over pointers and iterators @ sprout/cstring/*.hpp"],
 "texts of at most 4 characters (5 thorough) with arbitrary contents; wide characters non-negative.")

prop("P10", "A string view shows exactly the characters it was given and searches them as std::string_view does",
 "For every text, sprout::basic_string_view built from a pointer and length, a C string, a sprout string or a window has exactly those characters; substr, remove_prefix, remove_suffix, clear, copy, front/back/at and iteration follow the std definitions (out_of_range for a position behind the end); comparison, find, rfind and the find_*_of families return exactly the std results in the position and iterator forms; to_string gives the same text. Nothing outside the viewed characters is read.",
 "inputs configurations", "all texts, positions and counts; char and char16_t; index and pointer iterators",
 "Tests static_assert a handful of literals; the boundary positions and views that are not zero-terminated are not sampled.",
 "sprout/utility/string_view/string_view.hpp sprout/utility/string_view/comparison.hpp sprout/utility/string_view/io.hpp sprout/string/string.hpp",
 ["find_*_impl recursion @ sprout/utility/string_view/string_view.hpp", "to_string conversion @ sprout/utility/string_view/string_view.hpp"],
 "views of at most 4 characters (5 thorough), patterns of at most 3, all character values except an embedded NUL.")

prop("P11", "Text-to-number and number-to-text conversions are exact and inverse",
 "For every text, the conversions from text to integers (strtol, strtoll, strtoul, strtoull, strtoimax, strtoumax, atoi, atol, atoll, ascii_to_int, str_to_int, string_to_int and the stoi family) skip leading white space, accept one sign and (for base 16 and base 0) a 0x or 0 prefix, read the longest run of digits of the base, and return exactly its value, clamped to the limits of the result type (negated modulo 2^n for unsigned types as strtoul prescribes); without digits they return 0. For every integer value and every base from 2 to 36, int_to_string (and, in base 10, the to_string family) produces exactly the digits of the value in that base, and reading the text back returns the value. abs and div of the C library headers satisfy their definitions. Nothing behind the terminator is read and no digit is lost or written outside the result.",
 "inputs configurations", "all texts and all values of every integer type, bases 2 to 36; char, wchar_t and char16_t",
 "Tests convert a few literals in base 10; limits, prefixes of other bases, wrap-around of the accumulator and digits above 9 are not sampled.",
 "sprout/cstdlib/str_to_int.hpp sprout/cstdlib/strtol.hpp sprout/cstdlib/strtoul.hpp sprout/cinttypes sprout/cwchar sprout/string/string_to_int.hpp sprout/string/int_to_string.hpp sprout/string/to_string.hpp sprout/detail/char_conversion.hpp",
 ["overflow test of the accumulator @ sprout/cstdlib/str_to_int.hpp", "digit generation by position @ sprout/string/int_to_string.hpp"],
 "texts of at most 4 arbitrary characters (5 thorough), and longer digit texts around the limits of each type; all 8- and 16-bit values, 32- and 64-bit values near zero and near the limits; the end-pointer forms call the C library and are not covered.")

prop("P12", "Character classification and case mapping follow the C locale for every character",
 "For every character value, the is* classification functions of ctype, cctype and cwctype (narrow, wide, char16_t and char32_t) and isclassified answer exactly as the C locale prescribes for ASCII and answer no for every other value; tolower and toupper map exactly the letters of the other case and leave every other value unchanged; the classes are consistent (alnum = alpha or digit, graph = alnum or punct, and so on) and no table is read outside its bounds, also for negative values.",
 "inputs", "all character values of char, signed and unsigned char values, wchar_t, char16_t and char32_t",
 "There is no test at all for classification; a table of 128 entries has one wrong entry easily overlooked.",
 "sprout/ctype sprout/ctype/ascii.hpp sprout/ctype/wascii.hpp sprout/ctype/functor.hpp sprout/cctype.hpp sprout/cwctype.hpp",
 ["attribute table lookup @ sprout/ctype/ascii.hpp"],
 "none: all values of the argument types (the solver treats the whole 8- to 32-bit value as unknown).")

prop("P13", "A bitset is the mathematical set of bit positions its operations define",
 "For every content, position and distance, sprout::bitset<N> construction (from integers, C strings, copies), set, reset, flip, test, operator[] and its references, count, size, all, any, none, find_first, find_next, shifts, &, |, ^, ~, comparison, to_ulong and to_ullong have exactly the results std::bitset defines: bits above N-1 never appear, shifts by N or more clear, test and the indexed modifiers throw out_of_range behind the end, to_ulong throws overflow_error when the value does not fit. Both the immutable operators and the in-place ones agree.",
 "inputs histories configurations", "all contents, positions and shift distances; N in one word, at the word limit and over several words; gcc and clang configuration; C++11 and C++17",
 "Tests check a few literal bitsets; carries between words, partial top words and shift distances that are multiples of the word size are not sampled.",
 "sprout/bitset/bitset.hpp sprout/bitset/bitwise.hpp",
 ["word-array recursion over index tuples @ sprout/bitset/bitset.hpp", "clearing of the unused top bits @ sprout/bitset/bitset.hpp"],
 "N = 1, 9, 64, 70, 128, 150 and 200; C-string construction with texts of at most 4 characters. The std::string forms of constructor and to_string run in the standard library and are not covered.")

prop("P14", "Bit operations are exact for every value of every integer type",
 "For every value of every integer type (signed and unsigned, 8 to 64 bits) and every valid distance or position, the bit operations - clz, ctz, cntl0/1, cntt0/1, clrsb, popcount, parity, bit_length, bit_reverse(_in), shll/shlr/shal/shar, rotl/rotr, test/set/rst/flipbit, the range forms *bitsle and *bitsge and the rightmost-bit functions - return exactly what their bit-by-bit definition says, with no shift by the full width and no signed overflow on the way.",
 "inputs configurations", "all values and all valid distances of the ten integer types; builtin (gcc) and portable (clang) implementation",
 "No test covers these functions; they are used as building blocks of checksums, bitset and random engines.",
 "sprout/bit/clz.hpp sprout/bit/ctz.hpp sprout/bit/popcount.hpp sprout/bit/parity.hpp sprout/bit/bit_length.hpp sprout/bit/bit_reverse.hpp sprout/bit/rotl.hpp sprout/bit/setbitsle.hpp sprout/bit/isols1b.hpp sprout/bit/clrsb.hpp",
 ["binary search over halves with shlr/shll @ sprout/bit/clz.hpp", "byte tables @ sprout/bit/bit_length.hpp"],
 "the whole value range of each type; the portable popcount of 32- and 64-bit types only for values within a mask of ten bits (it clears bit after bit); bit_reverse_in for lengths 1, half, width-1 and width.")

prop("P15", "Checksums equal their published definitions however the bytes are fed in",
 "For every message, sprout::md5 and sprout::sha1 return exactly the digest of RFC 1321 and RFC 3174, and sum8/16/32 and xor8 the sum or exclusive or of its bytes: whatever the length (in particular around the 55/56/64-byte padding limits), whether the message arrives in one block, in parts, byte by byte or (md5) bit by bit, through the functional or the in-place interface, after a reset, from C strings, sprout strings or ranges of wider elements (taken byte by byte in big-endian order). endian_traits reads and replaces exactly the addressed byte of an integer of any width, and bytes_iterator stands, after any sequence of moves, at the byte its position says.",
 "inputs histories configurations", "all byte values at the chosen places, message lengths and ways of splitting; gcc and clang configuration",
 "Tests hash one short literal; padding limits, split updates and the in-place interface (which did not compile) are not exercised.",
 "sprout/checksum/md5.hpp sprout/checksum/sha1.hpp sprout/checksum/sum.hpp sprout/checksum/xor.hpp sprout/iterator/bytes_iterator.hpp sprout/endian_traits.hpp",
 ["bit-wise block filling and padding @ sprout/checksum/md5.hpp", "block_byte_index bookkeeping @ sprout/checksum/sha1.hpp", "byte position arithmetic @ sprout/iterator/bytes_iterator.hpp"],
 "md5 and sha1: messages of 0 to 120 bytes (192 in the thorough tier) of which one byte is arbitrary in four of its bits (all eight in the thorough tier), the others fixed; sums: up to 5 arbitrary bytes and an arbitrary start; integers of 8 to 64 bits; positions in three elements.")

prop("P16", "UUIDs: text and value correspond exactly, and generated UUIDs are what RFC 4122 defines",
 "For every 16-byte value, to_string/to_wstring/to_u16string/to_u32string give exactly the 36-character lower-case form, and string_generator accepts exactly the plain, dashed and braced forms of either case (for char, wchar_t, char16_t and char32_t, from C strings, sprout strings and ranges) and returns the value they spell, throwing for every other text, however short, without reading behind its end. name_generator3 and 5 return for every name and name space the MD5 or SHA-1 digest of the name space followed by the name, cut to 16 bytes, with version and variant bits set; random_generator returns the bits its engine delivers with version 4 and variant bits. version, variant, nil, comparison, swap, fill, element access and hash agree with the bytes, and the user-defined literals equal the calls they abbreviate.",
 "inputs", "all values, every text that differs from a well-formed one in one or two places, names and name spaces with arbitrary bytes, all engine results",
 "Tests parse and print two literals; wrong digits, misplaced dashes, missing braces, cut-off texts and names of other lengths are not exercised.",
 "sprout/uuid/uuid.hpp sprout/uuid/string_generator.hpp sprout/uuid/name_generator.hpp sprout/uuid/random_generator.hpp sprout/uuid/tuple.hpp sprout/uuid/literals.hpp sprout/uuid/io.hpp sprout/uuid/hash.hpp",
 ["recursive parser over digit pairs and dashes @ sprout/uuid/string_generator.hpp", "digest truncation and version bits @ sprout/uuid/name_generator.hpp"],
 "texts of 0 to 40 characters with one or two arbitrary characters at every place; names of 0, 1, 3, 15 and 40 characters with one arbitrary byte (partly only four of its bits).")

prop("P17", "Rational arithmetic is exact and always in lowest terms",
 "For all integers, gcd(a, b) is the nonnegative greatest common divisor and lcm(a, b) the least common multiple of |a| and |b| (0 where one is 0). For all rationals (and for mixed operands with integers), construction, assign, copy, +, -, *, /, their compound forms (also with the object itself as operand), ++, --, unary operators, abs, rational_cast and conversion to bool return the exact mathematical result, in lowest terms with positive denominator; a zero denominator or divisor throws bad_rational and leaves the object unchanged; ==, !=, <, >, <=, >= order the exact values, without overflow also near the limits of the type; equal values hash alike and element access yields numerator and denominator.",
 "inputs configurations", "all pairs of small fractions and integers of either sign; gcd for all narrow and wide integer types in gcc and clang configuration",
 "Tests evaluate a few positive fractions; negative values, equal denominators, self-operations and cancelled common factors are not sampled.",
 "sprout/rational/rational.hpp sprout/rational/comparison.hpp sprout/rational/arithmetic.hpp sprout/rational/container.hpp sprout/math/gcd.hpp sprout/math/lcm.hpp",
 ["cancellation before multiplication @ sprout/rational/arithmetic.hpp", "comparison by continued fractions @ sprout/rational/comparison.hpp", "Euclid's algorithm @ sprout/math/gcd.hpp"],
 "numerators within +-5 and denominators to 4 (9 and 7 in the thorough tier) where gcd is replaced by its contract (a common divisor that is a linear combination), which P17_gcd decides for the real gcd with one operand to 63-255 and the other to 7 (all 8-bit pairs and wider ones to 40 in the thorough tier); the same operations with the real gcd for numerators within +-2 (4).")

prop("P18", "optional, variant and tribool hold exactly the state their history prescribes",
 "After any construction and any sequence of assignments, emplacements, resets, swaps and copies, an optional is engaged exactly if the last operation engaged it and yields exactly the last value (an optional of a reference designates exactly the object last bound); access to a disengaged one throws bad_optional_access, value_or yields the fallback, its iteration forwards and backwards shows the value once or nothing, and comparisons (between optionals, with nullopt and with values) order disengaged before every value. A variant holds exactly the alternative and value last assigned; which, get, visitation, comparison (by alternative, then value) and hash see only that alternative; a get of another alternative throws. Copying from const and non-const objects and swapping give both sides the right state. tribool operators follow Kleene's three-valued logic, also mixed with bool and named third states.",
 "inputs histories", "all values, alternatives and operations; two- and three-step histories",
 "Tests evaluate fixed literals at compile time; states left over from earlier assignments, copies of non-const objects and reverse iteration are not reached.",
 "sprout/optional/optional.hpp sprout/optional/comparison.hpp sprout/optional/get.hpp sprout/variant/variant.hpp sprout/variant/get.hpp sprout/variant/apply_visitor.hpp sprout/logic/tribool/tribool.hpp",
 ["holder with an initialised flag @ sprout/optional/optional.hpp", "tuple of alternatives with an index @ sprout/variant/variant.hpp", "visitor table @ sprout/variant/apply_visitor.hpp"],
 "optional of int, short, int& and a type with observable moves; variant of int, unsigned char and a struct; arbitrary values; histories of up to three arbitrary operations from an arbitrary state.")

prop("P19", "Container operations return the changed copy and nothing else",
 "For every container (array, string, owning and referring sub_array with any window), every position and every value, insert, insert_n, push_back, push_front (and _n), erase, erase_n, pop_back, pop_front (and _n), append, append_back, append_front, set, resize, resize_backward and realign return, by index and by iterator, exactly the sequence that the operation yields on a plain sequence: the other elements keep order and value, the result has the prescribed length, text stays terminated; the fit forms show exactly that sequence in their window. The original is unchanged.",
 "inputs configurations", "all contents, positions, window bounds and input lengths",
 "Tests insert into and erase from one literal array at one position; windows, empty inputs and the fit forms are not exercised.",
 "sprout/operation/fixed/insert.hpp sprout/operation/fixed/insert_n.hpp sprout/operation/fixed/erase.hpp sprout/operation/fixed/append.hpp sprout/operation/fixed/resize.hpp sprout/operation/fixed/realign.hpp sprout/operation/fixed/set.hpp sprout/operation/fit/erase_n.hpp sprout/operation/fit/append.hpp",
 ["pack expansion over source indexes @ sprout/operation/fixed/*.hpp", "window of the rebound container @ sprout/operation/fit/*.hpp"],
 "arrays of 4 and windows of arrays of 5 elements, strings of at most 4 characters, inserted ranges of at most 3.")

prop("P20", "array, sub_array and the container functions show exactly the underlying elements",
 "For every content, index and window, the access paths of array, pit and sub_array (begin/end in all variants, reverse iteration, indexing, at, nth, index_of, front, back, data) agree with one another and with the underlying storage; at, nth and rangecheck throw out_of_range for exactly the indexes outside; fill, assign, swap, assignment and conversion to and from C arrays and std::array move exactly the elements; iterators obey the arithmetic and ordering laws of random access iterators, reversed ones included. sub, csub, sub_copy, sub_window, sub_offset and the member functions window and offset yield exactly the requested part of the underlying container, also when taken from another sub_array; owning sub_arrays are independent copies, referring ones write through; push and pop move the window end; comparisons are equality and lexicographic order of the visible elements.",
 "inputs configurations", "all contents, indexes, window bounds; index iterators and raw pointer iterators; C++11 and C++17",
 "Tests use one array and one window; whole-range, empty, nested and differently long windows are not sampled.",
 "sprout/array/array.hpp sprout/array/comparison.hpp sprout/array/make_array.hpp sprout/sub_array/sub_array.hpp sprout/sub_array/sub.hpp sprout/sub_array/sub_window.hpp sprout/sub_array/sub_offset.hpp sprout/sub_array/comparison.hpp sprout/container/container_range_traits.hpp sprout/container/index_of.hpp sprout/container/empty.hpp sprout/iterator/index_iterator.hpp sprout/iterator/reverse_iterator.hpp sprout/pit/pit.hpp",
 ["window as two offsets into the container @ sprout/sub_array/sub_array.hpp", "access by const substitution and cast @ sprout/container/detail/range_at.hpp", "index iterators @ sprout/iterator/index_iterator.hpp"],
 "arrays of 4 and 5 elements (and of length 0) of 8-bit values, every window of them; comparison of windows from 1 to 4. The one-argument member window(first) is not claimed (its const and non-const forms differ by design).")

prop("P21", "valarray computes element by element and its subsets designate exactly the selected elements",
 "For every length within the capacity, every content and every operand, valarray's construction, assignment, resize, unary, binary and compound operators (array with array, array with scalar on either side), comparisons, apply, sum, min, max, shift and cshift yield exactly the element-wise result with the length of the operand; lengths beyond the capacity throw length_error and indexes beyond the length out_of_range; slice, gslice, mask and indirect subsets designate exactly the elements their definition selects, so reading them, assigning a value, an array or another subset and every compound assignment changes exactly those elements of the underlying array and no other.",
 "inputs configurations", "all lengths from 0 to the capacity, contents, scalars, shift counts, slices, masks and index lists",
 "There are no tests of valarray arithmetic beyond headers compiling; lengths below the capacity and subset-to-subset assignment are nowhere sampled.",
 "sprout/valarray/valarray.hpp sprout/valarray/slice_array.hpp sprout/valarray/gslice_array.hpp sprout/valarray/mask_array.hpp sprout/valarray/indirect_array.hpp sprout/valarray/comparison.hpp sprout/valarray/arithmetic.hpp sprout/valarray/bitwise.hpp sprout/valarray/make_valarray.hpp",
 ["fixed storage with a length @ sprout/valarray/valarray.hpp", "index mapping of subsets @ sprout/valarray/*_array.hpp"],
 "capacity 5 with 8-bit elements, lengths 0 to 5, shift counts within +-7 and +-12; two-dimensional gslices of at most 2 by 2. The transcendental functions are not covered.")

prop("P22", "Iterator adaptors walk exactly the sequence they stand for",
 "For every underlying sequence, the iterator adaptors - step, filter, remove, remove_if, while, adjacent_filter, unique, transform (one and two sequences), replace, replace_if, clamp, indexed, valued, move, counting, value, ptr_index, joint, alternate, merge, set_union, set_intersection, set_difference, set_symmetric_difference, insert_range, remake, bytes (big and little endian) and size_enum - dereference to exactly the elements of the sequence they stand for, in order, by increment, decrement, next, prev, += and -=, +, -, subscript and distance as far as their category goes; equality and ordering follow the positions, swap and copies keep them, and the underlying range is never read or left outside its bounds. The saturating arithmetic used for their distances saturates exactly at the limits.",
 "inputs configurations", "all contents, lengths, predicates, positions and step widths; forward, bidirectional and random access sources",
 "Only a few adaptors are touched by tests, forwards and on literals; backward and random moves, ends that are not aligned and empty sequences are not.",
 "sprout/iterator/step_iterator.hpp sprout/iterator/filter_iterator.hpp sprout/iterator/while_iterator.hpp sprout/iterator/adjacent_filter_iterator.hpp sprout/iterator/transform_iterator.hpp sprout/iterator/joint_iterator.hpp sprout/iterator/alternate_iterator.hpp sprout/iterator/merge_iterator.hpp sprout/iterator/set_union_iterator.hpp sprout/iterator/set_intersection_iterator.hpp sprout/iterator/set_difference_iterator.hpp sprout/iterator/set_symmetric_difference_iterator.hpp sprout/iterator/insert_range_iterator.hpp sprout/iterator/remake_iterator.hpp sprout/iterator/bytes_iterator.hpp sprout/iterator/size_enum_iterator.hpp sprout/iterator/clamp_iterator.hpp sprout/iterator/indexed_iterator.hpp sprout/iterator/counting_iterator.hpp sprout/iterator/value_iterator.hpp sprout/utility/limited.hpp",
 ["skipping to the next accepted element @ sprout/iterator/filter_iterator.hpp", "two positions in step @ sprout/iterator/joint_iterator.hpp", "merge position kept ordered @ sprout/iterator/merge_iterator.hpp"],
 "sequences of at most 4 elements (two of at most 3); step widths 1 to 3. while_iterator is walked forwards only (backwards it cannot know where the prefix ended), step iterators made without an end are outside.")
prop("P23", "Range adaptors give exactly the view they name, and compose",
 "For every underlying range and every argument in bounds, the range adaptors - taken, dropped, taken_end, dropped_end, window, offset and their adapted_ forms, jointed, alternated, transformed (one and two ranges), filtered, removed, removed_if, replaced, replaced_if, clamped, filled, uniqued, adjacent_filtered, reversed, steps, indexed, valued, counting, blanked, outdirected, moved, copied, deep_copied, sized, size_enumed, merged and the set adaptors, to_lower and to_upper - present exactly the sequence they name through begin, end, size, empty, front, back and subscript, convert to the containers they are assigned to, and compose with each other (operator|, piped, apply_adaptors) in the order written, without reading outside the underlying range.",
 "inputs configurations", "all contents, lengths and arguments (offsets, counts, step widths, values, thresholds), several compositions of two to four adaptors",
 "Tests only print a few adapted literals; empty results, arguments at the edges and compositions are not tested.",
 "sprout/range/adaptor.hpp sprout/range/range_container.hpp sprout/range/adaptor/taken.hpp sprout/range/adaptor/dropped_end.hpp sprout/range/adaptor/window.hpp sprout/range/adaptor/adapted_window.hpp sprout/range/adaptor/steps.hpp sprout/range/adaptor/removed_if.hpp sprout/range/adaptor/filtered.hpp sprout/range/adaptor/jointed.hpp sprout/range/adaptor/counting.hpp sprout/range/adaptor/piped.hpp sprout/range/adaptor/size_enumed.hpp sprout/range/adaptor/transformed.hpp sprout/range/adaptor/merged.hpp",
 ["cutting at the front or the back @ sprout/range/adaptor/dropped_end.hpp", "window arguments relative to the range @ sprout/range/adaptor/adapted_window.hpp", "order of composition @ sprout/range/adaptor/piped.hpp"],
 "ranges of at most 4 elements (two of at most 3). Outside: windows with first behind last, adapted_offset reaching outside the range, negative counts, counting whose distance overflows, move over a constant range.")
prop("P24", "The range algorithms mean the iterator algorithms over begin and end",
 "For every range and argument, sprout::range::X(rng, ...) gives exactly what sprout::X(begin(rng), end(rng), ...) gives - the same value or the same position, counted from the range's begin, the same elements written and nothing else - for the searching, comparing, ordering, set, heap, permutation, partition and modifying algorithms, their fixed and fit forms and the numeric ones, with and without predicates or comparators.",
 "inputs configurations", "all contents, lengths, predicates, comparators and values",
 "Tests call the range forms with one literal; swapped ranges, wrong return positions and overloads taken by mistake show only on other inputs.",
 "sprout/range/algorithm.hpp sprout/range/numeric.hpp sprout/range/algorithm/search.hpp sprout/range/algorithm/find_end.hpp sprout/range/algorithm/includes.hpp sprout/range/algorithm/mismatch.hpp sprout/range/algorithm/equal_range.hpp sprout/range/algorithm/cxx14/copy_while.hpp sprout/range/algorithm/cxx14/partition_copy.hpp sprout/range/algorithm/cxx14/nth_element.hpp sprout/range/algorithm/fit/merge.hpp sprout/range/algorithm/fixed/set_union.hpp sprout/range/algorithm/fixed/rotate_copy.hpp",
 ["begin and end of the two ranges in the order of the iterator form @ sprout/range/algorithm/includes.hpp", "overload chosen by the arguments @ sprout/range/algorithm/search.hpp", "results of the fit forms @ sprout/range/algorithm/fit/merge.hpp"],
 "ranges of at most 4 elements. partition_point has no form with a return kind; the shuffles are decided by P06's iterator forms and called here once with a symbolic generator.")
prop("P25", "Random engines follow their published recurrences, in the copying and in the mutating form",
 "From every seed, linear_congruential (any modulus the class accepts, including 0, powers of two, primes and Schrage's decomposition), inversive_congruential, linear_feedback_shift, mersenne_twister, xor_combine, additive_combine, shuffle_order, rand48 and taus88 produce exactly the sequence their defining recurrence gives, stay within min() and max(), discard(n) equals n calls, and the copying form (a constant engine returns the value together with its successor) and the mutating form give the same values and the same successor state; the copying form leaves the engine as it was; random iterators, ranges and generate_array deliver the engine's values in order.",
 "inputs configurations histories", "all seeds and all engine states reached within the stated number of steps, C++11 and C++14 forms",
 "Tests print a few values of one seed and check nothing of the two forms against each other.",
 "sprout/random/linear_congruential.hpp sprout/random/detail/const_mod.hpp sprout/random/inversive_congruential.hpp sprout/random/linear_feedback_shift.hpp sprout/random/mersenne_twister.hpp sprout/random/xor_combine.hpp sprout/random/additive_combine.hpp sprout/random/shuffle_order.hpp sprout/random/taus88.hpp sprout/random/random_result.hpp sprout/random/iterator.hpp sprout/random/generate_array.hpp",
 ["modular multiplication @ sprout/random/detail/const_mod.hpp", "tempering and twist @ sprout/random/mersenne_twister.hpp", "output table @ sprout/random/shuffle_order.hpp"],
 "one to four steps from a symbolic seed (mt19937: the first words of the state and the unrolled small twisters); LCGs with large moduli one or two steps, kreutzer with narrow seeds, Schrage with states near the multiples of q, inversive with small primes. Stream operators are not covered.")
prop("P26", "Distributions and seed sequences turn an engine's draws into the published answer",
 "For every draw of the engine, uniform_int_distribution (engines with a narrower, an equal and a wider range than asked for; signed and unsigned results of 8 to 64 bits; rejection included), uniform_smallint, bernoulli_distribution, uniform_01 and generate_canonical return exactly the value of the published algorithm, inside [a, b], using exactly its number of draws, the same in the copying form, the mutating form, with the distribution's own and with given parameters; seed_array::generate fills any length with the words of the standard's seed sequence algorithm, and an engine seeded from a seed sequence or an iterator pair takes the words the standard names; variate_generator joins an engine and a distribution without changing either's answers.",
 "inputs configurations", "all values of the draws, of the bounds where they are symbolic and of the seed words, C++11 and C++14 forms",
 "Tests print values drawn from one engine; none compares them with the algorithm, or the two forms with each other.",
 "sprout/random/uniform_int_distribution.hpp sprout/random/uniform_smallint.hpp sprout/random/bernoulli_distribution.hpp sprout/random/uniform_01.hpp sprout/random/generate_canonical.hpp sprout/random/seed_array.hpp sprout/random/detail/seed_impl.hpp sprout/random/variate_generator.hpp sprout/random/detail/signed_unsigned_tools.hpp",
 ["rejection and digit composition @ sprout/random/uniform_int_distribution.hpp", "mixing of seed words @ sprout/random/seed_array.hpp"],
 "up to 8 draws (bits) or 5 draws (digits, bytes); attempts beyond the draws at hand end the path; symbolic bounds for 8-bit results, listed widths for wider ones; one to nine seed words and up to ten generated words; uniform_01 and generate_canonical with one draw. The other distributions and stream operators are not covered.")
prop("P27", "Pairs and tuples hold, move, compare and recombine exactly their elements",
 "For every element value, sprout::pair, tuple and compressed_pair return from get, first and second what was put in; copies and assignments (also converting, between pair and tuple, through tie, references and ignore) set every element from its own counterpart, copy from lvalues and move from rvalues only; swap exchanges; the six comparisons are the lexicographic ones by ==, < alone; tuple_cat, push, pop, append, copy, flexible construction, apply, fused, make_from_tuple and nested_get deliver the elements in order; exchange returns the old value.",
 "inputs configurations", "all element values, the listed shapes (up to six elements)",
 "Tests compare a few literal tuples; order and lifetime mistakes show on other values, lengths and value categories.",
 "sprout/tuple/tuple/tuple_decl.hpp sprout/tuple/tuple/comparison.hpp sprout/tuple/functions.hpp sprout/tuple/apply.hpp sprout/tuple/operation/append_back.hpp sprout/tuple/operation/pop_front.hpp sprout/tuple/algorithm/copy.hpp sprout/utility/pair/pair_decl.hpp sprout/utility/pair/pair.hpp sprout/utility/pair/comparison.hpp sprout/compressed_pair.hpp sprout/utility/exchange.hpp",
 ["element by element assignment @ sprout/tuple/tuple/tuple_decl.hpp", "lexicographic comparison @ sprout/tuple/tuple/comparison.hpp", "index packs of the operations @ sprout/tuple/operation/append_back.hpp"],
 "tuples of up to six elements of listed types. nested_get with three levels and tuple_cat with a pair do not compile and are not covered.")
prop("P28", "Function objects, binders, references and hashes mean the expression they stand for",
 "For every argument, each function object (typed and transparent) returns the value of its operator and each assigning one assigns and returns its left operand; not1, not2, equiv, bind1st, bind2nd, ptr_fun, mem_fn, mem_fun, mem_fun_ref, invoke, ref and cref call the wrapped function with the arguments in their places and on the object itself; bind and cbind put bound values, references, placeholders in any order, nested binds and variadic tails where they belong; hashes follow the combining formula, element by element, in the order of the elements, and equal values (strings of any capacity, string views, bitsets, optionals, variants, fractions, both zeros) have equal hashes.",
 "inputs configurations", "all argument values, the listed shapes of bindings",
 "Tests of functional call each once; argument order, reference binding and hash consistency depend on the values.",
 "sprout/functional/bind/bind.hpp sprout/functional/bind/placeholder.hpp sprout/functional/mem_fn.hpp sprout/functional/ref.hpp sprout/functional/equiv.hpp sprout/functional/not2.hpp sprout/functional/bind2nd.hpp sprout/functional/modulus.hpp sprout/functional/shift_right_assign.hpp sprout/type_traits/detail/invoke.hpp sprout/functional/hash/hash_combine.hpp sprout/functional/hash/hash_range.hpp sprout/functional/hash/hash_value.hpp sprout/functional/hash/detail/hash_float.hpp sprout/string/hash.hpp sprout/optional/hash.hpp sprout/bitset/bitset.hpp",
 ["placement of arguments @ sprout/functional/bind/bind.hpp", "combination of hashes @ sprout/functional/hash/hash_combine.hpp", "wrapped pointer @ sprout/functional/ref.hpp"],
 "typed functors over signed and unsigned char, transparent ones also over wider types; up to five bound arguments; strings of up to three characters; bitsets of 9, 64 and 70 bits; of floating values only the zeros. Hashes of pointers and volatile call operators are not covered.")
prop("P29", "Rounding, classification and exact decomposition of floating-point numbers",
 "For every float and every double, floor, ceil, trunc and round return the integer the definition names (infinities and NaN unchanged), ifloor, iceil, itrunc, iround, lround and llround the same integer in the asked-for type; isnan, isinf, isfinite, isnormal, issubnormal, iszero, fpclassify and the six comparisons answer by the encoding; fabs, copysign, signbit, fmax, fmin and fdim, integer_part, fractional_part, frac_int and is_integer return the exact value; ldexp, scalbn and scalbln scale exactly, and float_sig_exp, float2_sig_exp, their parts, ilogb and logb decompose exactly, from the smallest subnormal to the largest number - with the compiler's builtins and with the library's own code alike.",
 "inputs configurations", "all bit patterns of float and double (scaling and decomposition: exponents from a list, all signs and mantissas), both configurations",
 "Tests print values at a few literals in the builtin configuration; the library's own code is only taken by other compilers, and the errors sit next to integers and at the ends of the range.",
 "sprout/math/floor.hpp sprout/math/ceil.hpp sprout/math/trunc.hpp sprout/math/round.hpp sprout/math/ifloor.hpp sprout/math/iceil.hpp sprout/math/itrunc.hpp sprout/math/iround.hpp sprout/math/lround.hpp sprout/math/fpclassify.hpp sprout/math/issubnormal.hpp sprout/math/isnormal.hpp sprout/math/islessequal.hpp sprout/math/fabs.hpp sprout/math/copysign.hpp sprout/math/fmax.hpp sprout/math/fmin.hpp sprout/math/fdim.hpp sprout/math/fractional_part.hpp sprout/math/frac_int.hpp sprout/math/ldexp.hpp sprout/math/scalbn.hpp sprout/math/float_sig_exp.hpp sprout/math/float2_sig_exp.hpp",
 ["adjusting the truncated value @ sprout/math/floor.hpp", "limits of the type @ sprout/math/issubnormal.hpp", "order of the special cases @ sprout/math/fdim.hpp", "scaling in two steps @ sprout/math/float_sig_exp.hpp"],
 "float and double. Conversions to integer types for values below half the type's range. Without the builtins the sign of zeros and NaNs is documented as unknown and left out. Scaling where the result is a normal number. fmod, rem_quo, is_even and is_odd (divisors from a list, mantissas of 14 bits) only in the thorough tier; logb and ilogb without the builtins (they start from a logarithm), long double and the transcendental functions are not covered. lround, scalbn, ilogb and their kin of the C library are modelled bit by bit for the builtin configuration.")
