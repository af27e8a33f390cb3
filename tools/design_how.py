HOW = {}
HOW["P01"] = """Own iterator classes of every category over symbolic 8-bit arrays, plus raw pointers; the length of the range is symbolic
(one path per length). Oracle: a loop over the array. All algorithms are also called with a predicate or comparator whose threshold is symbolic.
Not claimed: `search_n` with count 0 (returns last instead of first, consistently, in all overloads; treated as outside the contract)."""
HOW["P02"] = """Elements carry a key and an identity; CHECK order by key and that identities are a permutation (symbolic index trick: every identity
occurs exactly once). Comparators: less, greater, user-defined. Stability by identity order among equal keys. Whole sorts up to 6-7 symbolic elements,
longer ones (to reach the introsort/merge code above its small-size cut-offs) with symbolic elements in fixed surroundings."""
HOW["P03"] = """Sorted inputs by ASSUME; oracle: two-pointer reference over arrays of (key, identity). Result containers smaller than the result check the
cut-off. In-place merge is checked against a stable reference with every split point."""
HOW["P04"] = """The fixed:: and fit:: forms are compared with the in-place reference loop: elements written, elements kept from the target, size of
the returned window, for results longer and shorter than the container."""
HOW["P05"] = """In-place and output-iterator forms in C++17 mode with input iterators and pointers; guard elements around the range show writes outside."""
HOW["P06"] = """A symbolic random engine (every draw is an arbitrary value) turns "for every seed" into "for every sequence of draws". next/prev_permutation
against the lexicographic definition; shuffles and samples: permutation by identities, plus the documented draw order."""
HOW["P07"] = """Left-to-right references with a non-commutative, non-associative operation on symbolic values, so that wrong association or order shows."""
HOW["P08"] = """A reference string (plain array and length) runs beside the real one for one arbitrary operation from an arbitrary state: contents, length,
terminator, exception type and unchanged state after a throw."""
HOW["P09"] = """Against the C definitions on symbolic texts in exactly sized buffers; the executor's bounds checks make any read behind the terminator a violation."""
HOW["P10"] = """Symbolic haystack, needle and position; references by the std::string_view definitions, incl. npos and positions behind the end; views without terminator."""
HOW["P11"] = """Arbitrary texts of up to 4 characters and digit texts around every limit; reference in 128-bit arithmetic with clamping; int_to_string read back by the reference.
The end-pointer overloads forward to the C library (not constexpr) and are outside."""
HOW["P12"] = """The whole argument value is symbolic; the reference is the C-locale definition by ranges."""
HOW["P13"] = """Reference: array of bools; symbolic position/distance and contents; both configurations. std::string forms use the standard library and are outside."""
HOW["P14"] = """Whole value ranges; reference computed bit by bit. UBSan traps make shifts by the width violations."""
HOW["P15"] = """RFC 1321/3174 re-implemented in digest.hpp; message bytes symbolic at one place, fixed elsewhere (a fully symbolic digest equality would be a preimage-like query);
different ways of feeding the same bytes must agree. Known finding (listed): in the clang configuration sha1 throws for a block crossing a 64-byte boundary."""
HOW["P16"] = """Texts with one or two arbitrary characters anywhere; cut-off texts in exactly sized buffers; the reference digests of P15 for name-based UUIDs."""
HOW["P17"] = """Assume-guarantee: P17_gcd decides the contract of the real gcd; P17_rational uses a stub that returns *any* value satisfying that contract (which makes rational
arithmetic tractable to the solver; natively the replay computes the gcd), P17_rational_real repeats the operations with the real gcd on smaller values."""

HOW["P18"] = """The oracle is a small model (flag and value, alternative and value) updated in step with the object; the operation is chosen symbolically, its operands are
arbitrary, and after each step every observer is compared with the model. -O2 would let the compiler fold an access through a null holder away, so the intermediate
representation is generated with -fno-delete-null-pointer-checks and such an access is a memory violation."""
HOW["P19"] = """One harness per operation and container kind; the oracle performs the insertion or deletion on a plain C array; fixed and fit forms, index and iterator forms
are compared with it for every position and content."""
HOW["P20"] = """P20_array runs with index iterators and with raw pointers; P20_sub_array takes every window [f, l) of an owning, referring and const-referring sub_array and
every window of that. Identity of the referred object is checked by address."""
HOW["P21"] = """The oracle is a length and a C array; every operator is stated once as a macro over both. Subset harnesses compute the list of selected positions and check
all uses of the subset (read, scalar, array, subset and compound assignment) against it."""

HOW["P22"] = """Each harness states the expected sequence as an array and hands it with begin and end to one of three walkers (forward, bidirectional, random access) that
exercises every operation of the category from every position to every other; the underlying iterators check their own bounds."""
HOW["P23"] = """Each harness states the expected sequence as an array, builds the adapted range from symbolic contents and arguments, and walks it with
P22's walkers plus the container interface (size, empty, front, back, subscript, copies into containers); compositions are written with `|`, `piped` and `apply_adaptors`."""
HOW["P24"] = """Differential: the range form and the iterator form run on the same symbolic contents (copies, for the writing ones), and results are compared as positions
and contents. The iterator forms themselves are decided against independent oracles by P01-P07, so the two together decide the range forms."""
HOW["P25"] = """The recurrence is restated over 64-bit integers with explicit reduction; `same_step` compares the copying and the mutating form, the successor state and the bounds at
every step. Inverses modulo a prime are stated by their defining equation (`x * inv % p == 1`) rather than computed. Run in C++11 and C++14 mode, whose functional twists differ."""
HOW["P26"] = """An engine that plays a tape of symbolic draws feeds each distribution; `drawn` compares the answer, the number of draws and the distribution returned with the
restated algorithm (buckets and rejection when the engine's range is wider, digits in the engine's base when it is narrower) in four calling forms. The seed sequence is restated from
[rand.util.seedseq]; since both sides are long chains of multiplications, the query is first brought to a normal form (engine/norm.hpp: sums as linear combinations, bitwise operations
as sorted lists, truncations pushed to the leaves), in which the two sides coincide when they compute the same function; whatever does not coincide goes to the SAT solver as it is."""
HOW["P27"] = """Elements are symbolic; comparisons are checked against std::pair and std::tuple of the same values (keys with tags, so that equivalent elements are told apart), value
categories with a type that records being moved from. Every element is read back after each operation."""
HOW["P28"] = """Each function object is compared with the operator it names; binders with the call written out, on functors that weigh their arguments differently so that an exchange shows;
references by address. Hashes are compared with the combining formula restated over size_t; the chains of shifts and sums go through the normal form described under P26."""
HOW["P29"] = """The oracle reads the encoding: sign, exponent and mantissa taken from the bits, the fraction cut off with a mask, comparisons by an order-preserving integer key.
Exponents around the binary point are enumerated by forks (so that shifts are constants), mantissas and signs stay symbolic, everything else is one class. IEEE comparisons, rounding,
conversions, additions and products with powers of two are rewritten as bit-vector terms (engine/lower.hpp, compared with the hardware on 1.3 million operations at every build of the engine)
and decided by SAT; the rest goes to Z3's floating-point theory. Two configurations: with the compiler's builtins (g++) and without (clang)."""
