From d71de0cc63e3f69198254272f4fd87eab91a1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 001/121] fix: is_heap_until must accept a child equal to its
 parent

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From 432d08732b3700d3540c4b59983c4fc9ff099d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:57 +0000
Subject: [PATCH 002/121] fix: one_of and one_of_equal must count both halves
 of a random access range

---
 sprout/algorithm/one_of.hpp       | 10 +++++++---
 sprout/algorithm/one_of_equal.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..f237104 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, pred,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_impl_ra_1(
+						first, sprout::next(first, pivot), pred,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_impl_ra(
+							sprout::next(first, pivot), last, pred,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..7e04e85 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, value,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_equal_impl_ra_1(
+						first, sprout::next(first, pivot), value,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_equal_impl_ra(
+							sprout::next(first, pivot), last, value,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
-- 
2.43.0


From a41ceebcac2aad38b2cc46da36772f3cdd854c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 003/121] fix: stable_sort must not be ambiguous between the
 two insertion_sort helpers

---
 sprout/algorithm/cxx14/stable_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..3bdafa3 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::insertion_sort<RandomAccessIterator, Compare>(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From af240e3cab407da61ef6ad57d8c49c0a5479c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 004/121] fix: partial_sort_copy passes its comparator type
 first

---
 sprout/algorithm/cxx14/partial_sort_copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-- 
2.43.0


From c2b40c7ad2c9fcda5964789ce3c76c80e2261213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 005/121] fix: make_heap (in place) must sift up the element it
 has just included

---
 sprout/algorithm/cxx14/make_heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..a81325a 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -24,8 +24,8 @@ namespace sprout {
 			if (len > 1) {
 				last = first;
 				++last;
-				for (difference_type i = 1; i < len; ++i) {
-					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
+				for (difference_type i = 1; i < len;) {
+					sprout::detail::push_heap_back<Compare>(first, ++last, comp, ++i);
 				}
 			}
 		}
-- 
2.43.0


From 044233dbe50b627086bf656ed656533ff69436e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 006/121] fix: move_backward must walk its source from the end

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From 02208bd54953ce2b0abaacaae73a7f0c84f57011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:44 +0000
Subject: [PATCH 007/121] fix: fit::partition and fit::stable_partition return
 the elements that satisfy the predicate

---
 sprout/algorithm/fit/partition.hpp        | 2 +-
 sprout/algorithm/fit/stable_partition.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fit/partition.hpp b/sprout/algorithm/fit/partition.hpp
index 895b451..bbe9078 100644
--- a/sprout/algorithm/fit/partition.hpp
+++ b/sprout/algorithm/fit/partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/algorithm/fit/stable_partition.hpp b/sprout/algorithm/fit/stable_partition.hpp
index 728dca9..d4d1f20 100644
--- a/sprout/algorithm/fit/stable_partition.hpp
+++ b/sprout/algorithm/fit/stable_partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::stable_partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From 520afe1ba8364b3b7dad0550345d888c8b02ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 008/121] fix: copy_while and copy_until (in place) return a
 sprout::pair

---
 sprout/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From d6ae83650a668c12585bb737213ab8e0acac08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 009/121] fix: for_each_n (in place) must advance its counter

---
 sprout/algorithm/cxx14/for_each_n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/for_each_n.hpp b/sprout/algorithm/cxx14/for_each_n.hpp
index 473f30a..88946af 100644
--- a/sprout/algorithm/cxx14/for_each_n.hpp
+++ b/sprout/algorithm/cxx14/for_each_n.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	template<typename InputIterator, typename Size, typename Function>
 	inline SPROUT_CXX14_CONSTEXPR InputIterator
 	for_each_n(InputIterator first, Size n, Function f) {
-		for (Size i = 0; i < n; ++first) {
+		for (Size i = 0; i < n; ++i, ++first) {
 			f(*first);
 		}
 		return first;
-- 
2.43.0


From e1641d12f1ca2b2a9c40493b0e1134175b9d5c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 010/121] fix: stable_partition (in place) must recurse on a
 range that starts with an element to move

---
 sprout/algorithm/cxx14/stable_partition.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..eca653b 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -27,9 +27,13 @@ namespace sprout {
 			sprout::advance(middle, len / 2);
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
 			Distance right_len = len - len / 2;
-			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
+			BidirectionalIterator right_split = middle;
+			while (right_len && pred(*right_split)) {
+				++right_split;
+				--right_len;
+			}
 			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
+				right_split = sprout::detail::inplace_stable_partition(right_split, pred, right_len);
 			}
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
-- 
2.43.0


From c2f676e70fcdb055c162f0559701fb7494a0f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 011/121] fix: random_swap must not choose the past-the-end
 position

---
 sprout/algorithm/cxx14/random_swap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/random_swap.hpp b/sprout/algorithm/cxx14/random_swap.hpp
index 6f3ea74..9674d32 100644
--- a/sprout/algorithm/cxx14/random_swap.hpp
+++ b/sprout/algorithm/cxx14/random_swap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		typedef SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t> distribution_type;
 		difference_type d = last - first;
 		if (d > 1) {
-			distribution_type dist(0, d);
+			distribution_type dist(0, d - 1);
 			difference_type i = dist(g);
 			difference_type j = dist(g);
 			if (i != j) {
-- 
2.43.0


From 31b0183b60a0a9eee9fa66c47664d53120e2ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 012/121] fix: unique_copy must not write into an empty result
 window

---
 sprout/algorithm/fixed/unique_copy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 5fd51ac..91946df 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {
-				return first != last
+				return first != last && sprout::size(result) > 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -144,7 +144,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result, BinaryPredicate pred) {
-				return first != last
+				return first != last && sprout::size(result) > 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, pred, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From c87c8c520b3bc064ba6737b881dc62a395880e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:00 +0000
Subject: [PATCH 013/121] fix: inner_product did not compile for input or
 random access iterators

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From 4d53af086956d866197f55faae334a673fe5b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:00 +0000
Subject: [PATCH 014/121] fix: fixed::adjacent_difference entry points had the
 wrong name and did not compile

---
 sprout/numeric/fixed/adjacent_difference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..c614581 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
@@ -144,7 +144,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
-- 
2.43.0


From 75cf613da3d8cb079734a12d41535875bc4418a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:00 +0000
Subject: [PATCH 015/121] fix: fit::partial_sum and fit::adjacent_difference
 with an operation compared values of different types and did not compile

---
 sprout/numeric/fit/adjacent_difference.hpp | 2 +-
 sprout/numeric/fit/partial_sum.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..ff52387 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..46cd572 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From 458e5be7102c35fbdcb71c11e2a253b63e362e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:23 +0000
Subject: [PATCH 016/121] fix: fixed::exclusive_scan<Result> passed its result
 type twice and did not compile

---
 sprout/numeric/fixed/exclusive_scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index adb2cb4..eabf780 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -104,7 +104,7 @@ namespace sprout {
 		template<typename Result, typename InputIterator, typename T>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 		exclusive_scan(InputIterator first, InputIterator last, T init) {
-			return sprout::fixed::exclusive_scan<Result>(first, last, sprout::pit<Result>(), init);
+			return sprout::fixed::exclusive_scan(first, last, sprout::pit<Result>(), init);
 		}
 
 		namespace detail {
-- 
2.43.0


From 6a2f7dcfbd790869aea643d22986694928c68fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 017/121] fix: fixed::transform_inclusive_scan with an initial
 value did not compile for results of at most one element

---
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 0d3ca49..e2ad76a 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -114,7 +114,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-- 
2.43.0


From 0d32cbb4b26e70bde8464e2e78a884069b0e2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:22 +0000
Subject: [PATCH 018/121] fix: basic_string::rbegin and rend on a mutable
 string did not compile

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..d268f24 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -486,7 +486,7 @@ namespace sprout {
 #endif
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rbegin() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(end());
+			return reverse_iterator(end());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rbegin() const SPROUT_NOEXCEPT {
@@ -494,7 +494,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rend() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(begin());
+			return reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rend() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 469437d0f0ed90e948208bea6ce59ad8d397b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 019/121] fix: basic_string::nth const was misspelled when
 pointers are used as iterators

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index d268f24..de42ea6 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1112,13 +1112,13 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator
-		th(size_type i) const {
+		nth(size_type i) const {
 			return i < size()
 				? data() + i
 				: (throw std::out_of_range("basic_string<>: index out of range"), const_iterator())
 				;
-		}SPROUT_CXX14_CONSTEXPR
-		SPROUT_CONSTEXPR size_type
+		}
+		SPROUT_CXX14_CONSTEXPR size_type
 		index_of(iterator p) SPROUT_NOEXCEPT {
 			return sprout::distance(begin(), p);
 		}
-- 
2.43.0


From 336b1f0d481712d914984268676bb940e2251be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 020/121] fix: basic_string::find_*_of with a string iterator:
 wrong default position, calls that did not compile

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index de42ea6..f2ad3b7 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1016,7 +1016,7 @@ namespace sprout {
 			is_string_iterator<StringConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(StringConstIterator s, size_type pos = 0) const {
+		find_last_of(StringConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
@@ -1033,7 +1033,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(StringConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -1049,7 +1049,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(StringConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From f0b18e7d40cfe05f530e6626233e74ce06af1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:03 +0000
Subject: [PATCH 021/121] fix: assigning, appending or copying an empty string
 threw out_of_range: the position check rejected the end position

---
 sprout/string/string.hpp                   | 2 +-
 sprout/utility/string_view/string_view.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f2ad3b7..0c10851 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -891,7 +891,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string<>: index out of range")
 				: (void)0
 				;
 		}
diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..85d973b 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -438,7 +438,7 @@ namespace sprout {
 		// others:
 		SPROUT_CXX14_CONSTEXPR void
 		rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string_view<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string_view<>: index out of range")
 				: (void)0
 				;
 		}
-- 
2.43.0


From d491f948306585eecac428f7300e84ee1793a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:03 +0000
Subject: [PATCH 022/121] fix: basic_string assign and append of an input range
 accepted one character more than the capacity

---
 sprout/string/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 0c10851..1abdc51 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -306,7 +306,7 @@ namespace sprout {
 		assign(InputIterator first, InputIterator last, std::input_iterator_tag*) {
 			iterator it = begin();
 			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
+				if (static_cast<size_type>(sprout::distance(begin(), it)) >= max_size()) {
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
@@ -330,7 +330,8 @@ namespace sprout {
 		append(InputIterator first, InputIterator last, std::input_iterator_tag*) {
 			iterator it = end();
 			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
+				if (static_cast<size_type>(sprout::distance(begin(), it)) >= max_size()) {
+					traits_type::assign(end(), sprout::distance(end(), it), value_type());
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
-- 
2.43.0


From 43fcecc8c5476979641e4d488c69fb474b349328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:03 +0000
Subject: [PATCH 023/121] fix: basic_string::append(n, c) wrote out of bounds
 when size() + n wraps around

---
 sprout/string/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 1abdc51..45a3f38 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -631,6 +631,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(size_type n, value_type c) {
+			lengthcheck(n);
 			lengthcheck(size() + n);
 			traits_type::assign(end(), n, c);
 			put_terminator(size() + n);
-- 
2.43.0


From 346473f09a4fb876d905ad701b128bac9528e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:03 +0000
Subject: [PATCH 024/121] fix: char_traits::move corrupted the text when moving
 towards the front (a string assigned from a part of itself)

---
 sprout/string/char_traits.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 96bff81..4b7622b 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -114,7 +114,13 @@ namespace sprout {
 				);
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* move(char_type* s1, char_type const* s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, sprout::next(s1, n));
+			for (std::size_t i = 0; i != n; ++i) {
+				if (s2 + i == s1) {
+					sprout::copy_backward(s2, s2 + n, s1 + n);
+					return s1;
+				}
+			}
+			sprout::copy(s2, s2 + n, s1);
 			return s1;
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* copy(char_type* s1, char_type const* s2, std::size_t n) {
@@ -200,7 +206,13 @@ namespace sprout {
 		}
 		template<typename BidirectionalIterator1, typename BidirectionalIterator2>
 		static SPROUT_CXX14_CONSTEXPR BidirectionalIterator1 move(BidirectionalIterator1 s1, BidirectionalIterator2 s2, std::size_t n) {
-			sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
+			for (BidirectionalIterator2 it = s2, last = sprout::next(s2, n); it != last; ++it) {
+				if (&*it == &*s1) {
+					sprout::copy_backward(s2, last, sprout::next(s1, n));
+					return s1;
+				}
+			}
+			sprout::copy(s2, sprout::next(s2, n), s1);
 			return s1;
 		}
 		template<typename OutputIterator, typename BidirectionalIterator>
-- 
2.43.0


From 6202ba22e1d01a1ba3bd29cf0d2fb1d3636576dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 025/121] fix: strcat appended behind the terminator of its
 destination

---
 sprout/cstring/strcat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strcat.hpp b/sprout/cstring/strcat.hpp
index 8fb224a..6145231 100644
--- a/sprout/cstring/strcat.hpp
+++ b/sprout/cstring/strcat.hpp
@@ -16,8 +16,9 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR OutputNullTerminatedIterator
 		strcat(OutputNullTerminatedIterator s1, NullTerminatedIterator s2) {
 			OutputNullTerminatedIterator result = s1;
-			while (*s1++)
-				;
+			while (*s1) {
+				++s1;
+			}
 			while ((*s1++ = *s2++))
 				;
 			return result;
-- 
2.43.0


From bac5638cc3b2940758fb2c4cb5acc66c1db8080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 026/121] fix: strncat wrote one element past the terminator

---
 sprout/cstring/strncat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strncat.hpp b/sprout/cstring/strncat.hpp
index 8b8167c..fa04136 100644
--- a/sprout/cstring/strncat.hpp
+++ b/sprout/cstring/strncat.hpp
@@ -23,9 +23,10 @@ namespace sprout {
 			}
 			while (n) {
 				--n;
-				if (!(*s1++ = *s2++)) {
-					break;
+				if (!(*s1 = *s2++)) {
+					return result;
 				}
+				++s1;
 			}
 			*s1 = value_type();
 			return result;
-- 
2.43.0


From 6673c828754b70b46563a3188b47f8074a82ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 027/121] fix: memmove wrote in front of its destination, and
 copied in the wrong order for some overlaps

---
 sprout/cstring/memmove.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 30839a6..9d86d6b 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -19,7 +20,13 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, s1);
+			for (std::size_t i = 0; i != n; ++i) {
+				if (s2 + i == s1) {
+					sprout::copy_backward(s2, s2 + n, s1 + n);
+					return s1;
+				}
+			}
+			sprout::copy(s2, s2 + n, s1);
 			return s1;
 		}
 	}	// namespace detail
-- 
2.43.0


From 7f349cd3fab95916fafbc64fd587feb3a2d46b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 028/121] fix: strstr of an empty string in an empty string
 returned a null pointer

---
 sprout/cstring/strstr.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sprout/cstring/strstr.hpp b/sprout/cstring/strstr.hpp
index e860257..857dff4 100644
--- a/sprout/cstring/strstr.hpp
+++ b/sprout/cstring/strstr.hpp
@@ -135,15 +135,19 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR char const*
 	strstr(char const* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 	inline SPROUT_CONSTEXPR char*
 	strstr(char* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 
 	template<typename Elem>
@@ -152,9 +156,11 @@ namespace sprout {
 		Elem*
 	>::type
 	strstr(Elem* s1, typename std::remove_const<Elem>::type const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From c2e0145d24c98e7d2a1a979cd2fe2b3a60afe6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:45 +0000
Subject: [PATCH 029/121] fix: strcmp and strncmp ordered char as signed where
 C compares unsigned char

---
 sprout/cstring/strcmp.hpp  |  5 +++--
 sprout/cstring/strncmp.hpp |  4 +++-
 sprout/detail/str.hpp      | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/sprout/cstring/strcmp.hpp b/sprout/cstring/strcmp.hpp
index 944c9d5..b1bc507 100644
--- a/sprout/cstring/strcmp.hpp
+++ b/sprout/cstring/strcmp.hpp
@@ -16,6 +16,7 @@
 #include <sprout/tuple/tuple/tuple.hpp>
 #include <sprout/tuple/tuple/get.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/detail/str.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -36,8 +37,8 @@ namespace sprout {
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
 			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
-				: n == 1 ? (*sprout::tuples::get<0>(current)) < (*sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
-					: (*sprout::tuples::get<1>(current)) < (*sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
+				: n == 1 ? sprout::detail::str_less()(*sprout::tuples::get<0>(current), *sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
+					: sprout::detail::str_less()(*sprout::tuples::get<1>(current), *sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
 					: type(sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)), 0)
 				: sprout::detail::strcmp_impl_1(
 					sprout::detail::strcmp_impl_1(
diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index eaa463f..1524097 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -14,6 +14,7 @@
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
+#include <sprout/detail/str.hpp>
 
 namespace sprout {
 
@@ -26,7 +27,8 @@ namespace sprout {
 	strncmp(char const* s1, char const* s2, std::size_t n) {
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0'
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0',
+			sprout::detail::str_less()
 			);
 	}
 
diff --git a/sprout/detail/str.hpp b/sprout/detail/str.hpp
index 351477c..3841b23 100644
--- a/sprout/detail/str.hpp
+++ b/sprout/detail/str.hpp
@@ -12,6 +12,20 @@
 
 namespace sprout {
 	namespace detail {
+		//
+		// str_less
+		//	characters of type char are ordered as unsigned char (7.21.4)
+		//
+		struct str_less {
+			template<typename Elem>
+			SPROUT_CONSTEXPR bool operator()(Elem const& lhs, Elem const& rhs) const {
+				return lhs < rhs;
+			}
+			SPROUT_CONSTEXPR bool operator()(char lhs, char rhs) const {
+				return static_cast<unsigned char>(lhs) < static_cast<unsigned char>(rhs);
+			}
+		};
+
 		template<typename InputIterator>
 		inline SPROUT_CONSTEXPR InputIterator
 		str_find_check(InputIterator const& found) {
-- 
2.43.0


From d9c2111cfe6f427e1e87b6160f220511686b210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 030/121] fix: basic_string_view::find_*_of with a view
 iterator: wrong default position, calls that did not compile

---
 sprout/utility/string_view/string_view.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 85d973b..ae7c0a4 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -505,7 +505,7 @@ namespace sprout {
 			is_string_view_iterator<ConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(ConstIterator s, size_type pos = 0) const {
+		find_last_of(ConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
@@ -522,7 +522,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(ConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -538,7 +538,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(ConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From adfb2c51ee6bf1378b6eabfe18a784d310840917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 031/121] fix: basic_string_view::substr returned a view past
 the end when fewer than n characters remain

---
 sprout/utility/string_view/string_view.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index ae7c0a4..e7366a0 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -365,9 +365,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string_view
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? n == npos
-					? substr(pos, size() - pos)
-					: basic_string_view(c_str() + pos, n)
+			return !(size() < pos) ? basic_string_view(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
 				: throw std::out_of_range("basic_string_view<>: index out of range")
 				;
 		}
-- 
2.43.0


From b4dc6cd1c9b81bd2666703ab8b06643ecd371228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 032/121] fix: basic_string(s, n) and
 basic_string_view::to_string read past the n characters in search of a
 terminator

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 45a3f38..436abe0 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -397,7 +397,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(value_type const* s, size_type n)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				sprout::detail::string_checked_construct_t(), s, 0, NS_SSCRISK_CEL_OR_SPROUT::min(n, traits_type::length(s))
+				sprout::detail::string_checked_construct_t(), s, 0, sprout::char_traits_helper<traits_type>::length(s, n)
 				)
 		{}
 		SPROUT_CONSTEXPR basic_string(size_type n, value_type c)
-- 
2.43.0


From 5aa98cc5fe334d467c965cecb0fbcaa119515e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 033/121] fix: strtol, atoi and string_to_int returned the
 minimum for the most negative values above it, e.g. -2147483647

---
 sprout/cstdlib/ascii_to_int.hpp | 2 +-
 sprout/cstdlib/str_to_int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/ascii_to_int.hpp b/sprout/cstdlib/ascii_to_int.hpp
index 276ff83..6b125d4 100644
--- a/sprout/cstdlib/ascii_to_int.hpp
+++ b/sprout/cstdlib/ascii_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 			SPROUT_STATIC_ASSERT(sprout::detail::is_char_type_of_consecutive_digits<value_type>::value);
 			return !sprout::ascii::isdigit(*str)
 				? negative ? -val : val
-				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type)) - (negative ? 1 : 0)) / 10
+				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type))) / 10
 				? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::ascii_to_int_impl<IntType>(
 					sprout::next(str),
diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index af50e37..859edf4 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
-				: val > (sprout::numeric_limits<IntType>::max() - x - (negative ? 1 : 0)) / base
+				: val > (sprout::numeric_limits<IntType>::max() - x) / base
 					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
-- 
2.43.0


From 5295382ccce4363c76f6287501dd427fd27cd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 034/121] fix: strtol and string_to_int skipped a 0x prefix in
 bases other than 16

---
 sprout/cstdlib/str_to_int.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 859edf4..306ca9d 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -47,8 +47,10 @@ namespace sprout {
 		str_to_int_impl(NullTerminatedIterator const& str, int base, bool negative) {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return *str == SPROUT_CHAR_LITERAL('0', char_type)
-				? *sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
-					|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+				? (base == 0 || base == 16)
+					&& (*sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
+						|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+						)
 					? sprout::detail::str_to_int_impl_1<IntType>(
 						sprout::next(str, 2),
 						base ? base : 16,
-- 
2.43.0


From 84de6c4900c10fffe35d8ea11469676c471a176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 035/121] fix: strtoul and string_to_int of an unsigned type
 gave 0 for a text with a minus sign

---
 sprout/cstdlib/str_to_int.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 306ca9d..0518f72 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
 				: val > (sprout::numeric_limits<IntType>::max() - x) / base
-					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
+					? (negative && sprout::is_signed<IntType>::value ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
 					base,
@@ -83,6 +83,8 @@ namespace sprout {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return sprout::ascii::isspace(*str)
 					? sprout::detail::str_to_int<IntType>(sprout::next(str), base)
+				: *str == SPROUT_CHAR_LITERAL('-', char_type)
+					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, true)
 				: *str == SPROUT_CHAR_LITERAL('+', char_type)
 					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, false)
 				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
-- 
2.43.0


From 7c2c6580c592472ae5216ac9de1fedcc9b5ed404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 036/121] fix: int_to_string in bases above 10 asserted or
 printed wrong characters for digits above 9

---
 sprout/string/int_to_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index 2d465f8..a705d37 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -46,13 +46,13 @@ namespace sprout {
 			return val < 0 ? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
@@ -68,7 +68,7 @@ namespace sprout {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_integer_digits<IntType, Base>::value> access_type;
 			return access_type::raw_construct(
 				static_cast<std::size_t>(digits),
-				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 					: Elem()
 					)...
 				);
-- 
2.43.0


From a8e8f2f1ddee879c290a28127ad4f5aa6c7c54fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 037/121] fix: int_to_string of the minimum value in bases 2
 and 8: one digit more than the string holds, and digits of overflowed powers

---
 sprout/detail/math/int.hpp      | 13 ++++++++++---
 sprout/string/int_to_string.hpp | 19 +++++++++++++++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/sprout/detail/math/int.hpp b/sprout/detail/math/int.hpp
index 6c1465f..3d583fc 100644
--- a/sprout/detail/math/int.hpp
+++ b/sprout/detail/math/int.hpp
@@ -78,14 +78,21 @@ namespace sprout {
 		//
 		// int_digit_at
 		//
+		template<int Base, typename IntType>
+		inline SPROUT_CONSTEXPR int
+		int_digit_at_impl(IntType val, int digits) {
+			return digits ? sprout::detail::int_digit_at_impl<Base>(static_cast<IntType>(val / Base), digits - 1)
+				: static_cast<int>(val % Base)
+				;
+		}
 		template<
 			int Base = 10, typename IntType,
 			typename sprout::enabler_if<sprout::is_sint<IntType>::value>::type = sprout::enabler
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return val < 0 ? -((val / sprout::detail::int_pow<IntType, Base>(digits)) % Base)
-				: (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base
+			return val < 0 ? -sprout::detail::int_digit_at_impl<Base>(val, digits)
+				: sprout::detail::int_digit_at_impl<Base>(val, digits)
 				;
 		}
 		template<
@@ -94,7 +101,7 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base;
+			return sprout::detail::int_digit_at_impl<Base>(val, digits);
 		}
 	}	// namespace detail
 }	// namespace sprout
diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index a705d37..c7b9dca 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -11,6 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/string/string.hpp>
 #include <sprout/integer/integer_digits.hpp>
@@ -23,6 +24,20 @@
 #include <sprout/detail/math/int.hpp>
 
 namespace sprout {
+	namespace detail {
+		// the minimum value can have one digit more than the maximum
+		template<typename IntType, std::size_t Base>
+		struct printed_magnitude_digits
+			: public sprout::integral_constant<
+				std::size_t,
+				sprout::integer_digits<IntType, Base>::value
+				+ (static_cast<std::size_t>(sprout::detail::int_digits<static_cast<int>(Base)>(sprout::numeric_limits<IntType>::min()))
+					> sprout::integer_digits<IntType, Base>::value ? 1 : 0
+					)
+			>
+		{};
+	}	// namespace detail
+
 	//
 	// printed_integer_digits
 	//
@@ -30,7 +45,7 @@ namespace sprout {
 	struct printed_integer_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::integer_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
+			sprout::detail::printed_magnitude_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
 		>
 	{};
 
@@ -87,7 +102,7 @@ namespace sprout {
 		return sprout::detail::int_to_string<Elem, Base>(
 			val,
 			sprout::detail::int_digits<Base>(val),
-			sprout::make_index_tuple<sprout::integer_digits<IntType, Base>::value>::make()
+			sprout::make_index_tuple<sprout::detail::printed_magnitude_digits<IntType, Base>::value>::make()
 			);
 	}
 
-- 
2.43.0


From cd4533b32d75b3ab3feda0469558a7ea8a444312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 038/121] fix: isclassified returned true for every classified
 character, whatever the mask

---
 sprout/ctype/ascii.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/ctype/ascii.hpp b/sprout/ctype/ascii.hpp
index 0352dc1..32acd17 100644
--- a/sprout/ctype/ascii.hpp
+++ b/sprout/ctype/ascii.hpp
@@ -250,18 +250,18 @@ namespace sprout {
 		} \
 		inline SPROUT_CONSTEXPR bool \
 		SPROUT_PP_CAT(is, SPROUT_PP_CAT(PREFIX, classified))(sprout::ctypes::mask m, CHAR_TYPE c) { \
-			return (m | sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
-				|| (m | sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
-				|| (m | sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
-				|| (m | sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
-				|| (m | sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
-				|| (m | sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
-				|| (m | sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
-				|| (m | sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
-				|| (m | sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
-				|| (m | sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
-				|| (m | sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
-				|| (m | sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
+			return ((m & sprout::ctypes::alnum) == sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
+				|| ((m & sprout::ctypes::alpha) == sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
+				|| ((m & sprout::ctypes::blank) == sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
+				|| ((m & sprout::ctypes::cntrl) == sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
+				|| ((m & sprout::ctypes::digit) == sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
+				|| ((m & sprout::ctypes::graph) == sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
+				|| ((m & sprout::ctypes::lower) == sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
+				|| ((m & sprout::ctypes::print) == sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
+				|| ((m & sprout::ctypes::punct) == sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
+				|| ((m & sprout::ctypes::space) == sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
+				|| ((m & sprout::ctypes::upper) == sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
+				|| ((m & sprout::ctypes::xdigit) == sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
 				; \
 		}
 
-- 
2.43.0


From fd75e74eaaae18a164d60c7dccbe8e8de3c42194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 039/121] fix: bitset::find_first and find_next did not compile

---
 sprout/bitset/bitset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..f5080bd 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
@@ -1389,11 +1389,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From d78b20b6ae31244f2900e167ca6ad85501e6b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 040/121] fix: bitset could not be constructed from a C string
 (misspelled size_type)

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index f5080bd..b1cf2c9 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1146,7 +1146,7 @@ namespace sprout {
 		}
 		template<typename Char>
 		explicit SPROUT_NON_CONSTEXPR bitset(
-			Char const* str, typename std::basic_string<Char>::size_typeype n = std::basic_string<Char>::npos,
+			Char const* str, typename std::basic_string<Char>::size_type n = std::basic_string<Char>::npos,
 			Char zero = SPROUT_CHAR_LITERAL('0', Char), Char one = SPROUT_CHAR_LITERAL('1', Char)
 			)
 			: base_type()
-- 
2.43.0


From 2aabb8642a3a42a351683e5f8f1bb12d0809078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 041/121] fix: bitset(unsigned long long) of more than 64 bits
 shifted by the full width of its operand

---
 sprout/bitset/bitset.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index b1cf2c9..1a73654 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -230,7 +230,12 @@ namespace sprout {
 			{}
 			base_bitset(base_bitset<N> const&) = default;
 			SPROUT_CONSTEXPR base_bitset(unsigned long long val) SPROUT_NOEXCEPT
-				: w_{word_type(val), word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value))}
+				: w_{
+					word_type(val),
+					sprout::detail::sizeof_<unsigned long long>::value > sprout::detail::sizeof_<unsigned long>::value
+						? word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value / 2) >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value / 2))
+						: word_type(0)
+					}
 			{}
 			template<typename... Words>
 			SPROUT_CONSTEXPR base_bitset(sprout::detail::base_bitset_from_words_construct_tag, Words... words)
-- 
2.43.0


From e100532e565a938ecd1b85c378d8aceb2117efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 042/121] fix: cntl1 counted redundant sign bits, not leading
 ones

---
 sprout/bit/cntl1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/cntl1.hpp b/sprout/bit/cntl1.hpp
index a54b84f..b1cd2f8 100644
--- a/sprout/bit/cntl1.hpp
+++ b/sprout/bit/cntl1.hpp
@@ -10,7 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/bit/clrsb.hpp>
+#include <sprout/bit/clz.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntl1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::clrsb(x);
+		return sprout::clz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 9f3b807b74e1727b166a53265d3c2b8c5275caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 043/121] fix: clrsb without a builtin overload counted leading
 ones

---
 sprout/bit/clrsb.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/bit/clrsb.hpp b/sprout/bit/clrsb.hpp
index 96f5bc4..78ce5f2 100644
--- a/sprout/bit/clrsb.hpp
+++ b/sprout/bit/clrsb.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_BIT_CLRSB_HPP
 #define SPROUT_BIT_CLRSB_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/bit/clz.hpp>
+#include <sprout/bit/shar.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -31,7 +33,7 @@ namespace sprout {
 		template<typename Integral>
 		inline SPROUT_CONSTEXPR int
 		clrsb(Integral x) SPROUT_NOEXCEPT {
-			return sprout::clz(~x);
+			return sprout::clz(static_cast<Integral>(x ^ sprout::shar(x, sizeof(x) * CHAR_BIT - 1))) - 1;
 		}
 	}	// namespace detail
 	//
-- 
2.43.0


From 49851c57f342ab8bf2de58f88e66bf4522f4d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 044/121] fix: rotl and rotr by 0 shifted by the full width

---
 sprout/bit/rotl.hpp | 2 +-
 sprout/bit/rotr.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/rotl.hpp b/sprout/bit/rotl.hpp
index 3e39668..de7363f 100644
--- a/sprout/bit/rotl.hpp
+++ b/sprout/bit/rotl.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 		Integral
 	>::type
 	rotl(Integral x, int s) SPROUT_NOEXCEPT {
-		return (x << s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s);
+		return (x << s) | sprout::shlr(x, (sizeof(x) * CHAR_BIT - s) % (sizeof(x) * CHAR_BIT));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rotr.hpp b/sprout/bit/rotr.hpp
index 3327e01..352a90c 100644
--- a/sprout/bit/rotr.hpp
+++ b/sprout/bit/rotr.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 		Integral
 	>::type
 	rotr(Integral x, int s) SPROUT_NOEXCEPT {
-		return sprout::shlr(x, s) | (x << (sizeof(x) * CHAR_BIT - s));
+		return sprout::shlr(x, s) | (x << ((sizeof(x) * CHAR_BIT - s) % (sizeof(x) * CHAR_BIT)));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From f147b68c51bae1b3cf5935a0a59b5e3274d46398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 045/121] fix: set/rst/flipbitsle of the topmost bit shifted by
 the full width; signed overflow in the range masks

---
 sprout/bit/flipbitsge.hpp | 3 ++-
 sprout/bit/flipbitsle.hpp | 3 ++-
 sprout/bit/rstbitsge.hpp  | 3 ++-
 sprout/bit/rstbitsle.hpp  | 3 ++-
 sprout/bit/setbitsge.hpp  | 3 ++-
 sprout/bit/setbitsle.hpp  | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sprout/bit/flipbitsge.hpp b/sprout/bit/flipbitsge.hpp
index 06effdb..f6950b1 100644
--- a/sprout/bit/flipbitsge.hpp
+++ b/sprout/bit/flipbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x ^ ~((type(1) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/flipbitsle.hpp b/sprout/bit/flipbitsle.hpp
index 4590515..9ca13d5 100644
--- a/sprout/bit/flipbitsle.hpp
+++ b/sprout/bit/flipbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x ^ ((type(2) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsge.hpp b/sprout/bit/rstbitsge.hpp
index 61b605a..17966ba 100644
--- a/sprout/bit/rstbitsge.hpp
+++ b/sprout/bit/rstbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & ((type(1) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsle.hpp b/sprout/bit/rstbitsle.hpp
index 8f5044f..3245b15 100644
--- a/sprout/bit/rstbitsle.hpp
+++ b/sprout/bit/rstbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & ~((type(2) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsge.hpp b/sprout/bit/setbitsge.hpp
index ea82f41..76eed54 100644
--- a/sprout/bit/setbitsge.hpp
+++ b/sprout/bit/setbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x | ~((type(1) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsle.hpp b/sprout/bit/setbitsle.hpp
index 604ad71..0644ee1 100644
--- a/sprout/bit/setbitsle.hpp
+++ b/sprout/bit/setbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x | ((type(2) << b) - 1);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 692ab18a60c31f10978f7ad191b506cc75ca8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 046/121] fix: signed overflow in the rightmost bit operations
 at the limits

---
 sprout/bit/isols0b.hpp    | 3 ++-
 sprout/bit/isols1b.hpp    | 3 ++-
 sprout/bit/maskt0.hpp     | 3 ++-
 sprout/bit/maskt0ls1b.hpp | 3 ++-
 sprout/bit/maskt1.hpp     | 3 ++-
 sprout/bit/maskt1ls0b.hpp | 3 ++-
 sprout/bit/rstls1b.hpp    | 3 ++-
 sprout/bit/rstt1.hpp      | 3 ++-
 sprout/bit/setls0b.hpp    | 3 ++-
 sprout/bit/sett0.hpp      | 3 ++-
 10 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/sprout/bit/isols0b.hpp b/sprout/bit/isols0b.hpp
index c5dc1a2..9c65054 100644
--- a/sprout/bit/isols0b.hpp
+++ b/sprout/bit/isols0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols0b(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return ~x & (type(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/isols1b.hpp b/sprout/bit/isols1b.hpp
index 22102e8..9ac9604 100644
--- a/sprout/bit/isols1b.hpp
+++ b/sprout/bit/isols1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols1b(Integral x) SPROUT_NOEXCEPT {
-		return x & -x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & (0 - type(x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0.hpp b/sprout/bit/maskt0.hpp
index c8f7903..90b68b6 100644
--- a/sprout/bit/maskt0.hpp
+++ b/sprout/bit/maskt0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return ~x & (type(x) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0ls1b.hpp b/sprout/bit/maskt0ls1b.hpp
index 26c8ef9..59d7f20 100644
--- a/sprout/bit/maskt0ls1b.hpp
+++ b/sprout/bit/maskt0ls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0ls1b(Integral x) SPROUT_NOEXCEPT {
-		return (x - 1) ^ x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return (type(x) - 1) ^ x;
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1.hpp b/sprout/bit/maskt1.hpp
index 76190b3..42f3919 100644
--- a/sprout/bit/maskt1.hpp
+++ b/sprout/bit/maskt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1(Integral x) SPROUT_NOEXCEPT {
-		return ~(~x | (x + 1));
+		typedef typename std::make_unsigned<Integral>::type type;
+		return ~(~x | (type(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1ls0b.hpp b/sprout/bit/maskt1ls0b.hpp
index f218c31..2f35b14 100644
--- a/sprout/bit/maskt1ls0b.hpp
+++ b/sprout/bit/maskt1ls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1ls0b(Integral x) SPROUT_NOEXCEPT {
-		return x ^ (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x ^ (type(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstls1b.hpp b/sprout/bit/rstls1b.hpp
index d3ada72..d8fc607 100644
--- a/sprout/bit/rstls1b.hpp
+++ b/sprout/bit/rstls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstls1b(Integral x) SPROUT_NOEXCEPT {
-		return x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & (type(x) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstt1.hpp b/sprout/bit/rstt1.hpp
index 96253f6..b2dfdda 100644
--- a/sprout/bit/rstt1.hpp
+++ b/sprout/bit/rstt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstt1(Integral x) SPROUT_NOEXCEPT {
-		return x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & (type(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setls0b.hpp b/sprout/bit/setls0b.hpp
index 496971d..a18fbba 100644
--- a/sprout/bit/setls0b.hpp
+++ b/sprout/bit/setls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setls0b(Integral x) SPROUT_NOEXCEPT {
-		return x | (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x | (type(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/sett0.hpp b/sprout/bit/sett0.hpp
index 6c5f801..1c99421 100644
--- a/sprout/bit/sett0.hpp
+++ b/sprout/bit/sett0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	sett0(Integral x) SPROUT_NOEXCEPT {
-		return x | (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x | (type(x) - 1);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 51bc869c9585e3ab8b7c3e2f2a9dd5fdfee3ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 047/121] fix: cntt1 of all ones in a signed type narrower than
 int returned the width of int

---
 sprout/bit/cntt1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bit/cntt1.hpp b/sprout/bit/cntt1.hpp
index 0a6b207..76d9500 100644
--- a/sprout/bit/cntt1.hpp
+++ b/sprout/bit/cntt1.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntt1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::ctz(~x);
+		return sprout::ctz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 77a443d7148379a6e31104be596dfe8f22ec88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 048/121] fix: md5 and sha1: the in-place process_block,
 process_bytes and process_range did not compile

---
 sprout/checksum/md5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index fe8e468..77caf49 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -362,7 +362,7 @@ namespace sprout {
 			block_.assign(0);
 		}
 		template<typename InputIterator>
-		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator const& first, InputIterator const& last) {
+		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator first, InputIterator last) {
 			for (; first != last; ++first) {
 				process_byte(*first);
 			}
-- 
2.43.0


From fe493faff680bda176a40f280e2e98c33f4dc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 049/121] fix: endian_traits shifted int by up to 56 for 64-bit
 types

---
 sprout/endian_traits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/endian_traits.hpp b/sprout/endian_traits.hpp
index c18b994..3257e6c 100644
--- a/sprout/endian_traits.hpp
+++ b/sprout/endian_traits.hpp
@@ -53,14 +53,14 @@ namespace sprout {
 			static SPROUT_CONSTEXPR unsigned char
 			get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * ((size() - 1) - i)))
-						>> CHAR_BIT * ((size() - 1) - i)
+					(t >> CHAR_BIT * ((size() - 1) - i)) & UCHAR_MAX
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * ((size() - 1) - i));
-				t |= (value << CHAR_BIT * ((size() - 1) - i));
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t &= ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * ((size() - 1) - i));
+				t |= (static_cast<unsigned_type>(value) << CHAR_BIT * ((size() - 1) - i));
 			}
 		};
 
@@ -98,14 +98,14 @@ namespace sprout {
 			}
 			static SPROUT_CONSTEXPR unsigned char get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * i))
-						>> CHAR_BIT * i
+					(t >> CHAR_BIT * i) & UCHAR_MAX
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * i);
-				t |= (value << CHAR_BIT * i);
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t &= ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * i);
+				t |= (static_cast<unsigned_type>(value) << CHAR_BIT * i);
 			}
 		};
 	}	// namespace detail
-- 
2.43.0


From 986d6ba7ee8f086579e9b559037d8c761c874828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 050/121] fix: bytes_iterator moved to wrong positions
 backwards and on negative jumps (unsigned arithmetic)

---
 sprout/iterator/bytes_iterator.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index 65e73ee..2932e65 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -59,26 +59,30 @@ namespace sprout {
 	private:
 		iterator_type it_;
 		difference_type i_;
+	private:
+		static SPROUT_CONSTEXPR difference_type static_size() {
+			return static_cast<difference_type>(traits_type::size());
+		}
 	private:
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i)
 			: it_(it) , i_(i)
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, next_tag)
-			: it_(i / traits_type::size() == 0 ? it : sprout::next(it))
-			, i_(i % traits_type::size())
+			: it_(i / static_size() == 0 ? it : sprout::next(it))
+			, i_(i % static_size())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, prev_tag)
-			: it_((i + 1 - traits_type::size()) / traits_type::size() == 0 ? it : sprout::prev(it))
-			, i_(i % traits_type::size() + traits_type::size())
+			: it_(i >= 0 ? it : sprout::prev(it))
+			, i_(i >= 0 ? i : i + static_size())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
-				? sprout::next(it, i / traits_type::size())
-				: sprout::next(it, (i + 1 - traits_type::size()) / traits_type::size())
+				? sprout::next(it, i / static_size())
+				: sprout::next(it, (i + 1 - static_size()) / static_size())
 				)
 			, i_(i >= 0
-				? i % traits_type::size()
-				: i % traits_type::size() + traits_type::size()
+				? i % static_size()
+				: (i + 1) % static_size() + static_size() - 1
 				)
 		{}
 	public:
@@ -184,7 +188,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2, typename Traits>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::bytes_iterator<Iterator1, Traits> const& lhs, sprout::bytes_iterator<Iterator2, Traits> const& rhs) {
-		return (lhs.base() - rhs.base()) * Traits::size() + (lhs.index() - rhs.index());
+		return (lhs.base() - rhs.base()) * static_cast<std::ptrdiff_t>(Traits::size()) + (lhs.index() - rhs.index());
 	}
 	template<typename Iterator, typename Traits>
 	inline SPROUT_CONSTEXPR sprout::bytes_iterator<Iterator, Traits>
-- 
2.43.0


From f2e851ff876db46fb6257a3f8bce399045f03a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 051/121] fix: uuid.hpp did not include <cstdint>:
 sprout/uuid.hpp alone did not compile

---
 sprout/uuid/uuid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/uuid/uuid.hpp b/sprout/uuid/uuid.hpp
index c1f5770..4706e42 100644
--- a/sprout/uuid/uuid.hpp
+++ b/sprout/uuid/uuid.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_UUID_UUID_HPP
 #define SPROUT_UUID_UUID_HPP
 
+#include <cstdint>
 #include <utility>
 #include <stdexcept>
 #include <type_traits>
-- 
2.43.0


From 33c3e999851c8806d22a8e72c82964e711fe271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 052/121] fix: tuple_get of uuid was not in its namespace:
 sprout::tuples::get<I>(uuid) did not compile

---
 sprout/uuid/tuple.hpp | 44 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/sprout/uuid/tuple.hpp b/sprout/uuid/tuple.hpp
index 7ba170d..cfe1d07 100644
--- a/sprout/uuid/tuple.hpp
+++ b/sprout/uuid/tuple.hpp
@@ -20,26 +20,30 @@
 #include <sprout/detail/nil_base.hpp>
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
-	tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
-	tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
-	tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace uuids {
+		//
+		// tuple_get
+		//
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
+		tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
+		tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
+		tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
+			return sprout::move(sprout::tuples::get<I>(t));
+		}
+	}	// namespace uuids
+
+	using sprout::uuids::tuple_get;
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From 25d2bc80b8209b2a9870376822a773623af95060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 053/121] fix: hash_value of uuid was not in its namespace:
 std::hash<uuid> and sprout::hash<uuid> recursed without end

---
 sprout/uuid/hash.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sprout/uuid/hash.hpp b/sprout/uuid/hash.hpp
index 8b7e55d..ecb9a54 100644
--- a/sprout/uuid/hash.hpp
+++ b/sprout/uuid/hash.hpp
@@ -15,13 +15,15 @@
 #include <sprout/functional/hash.hpp>
 
 namespace sprout {
-	//
-	// hash_value
-	//
-	inline SPROUT_CONSTEXPR std::size_t
-	hash_value(sprout::uuids::uuid const& v) {
-		return sprout::hash_range(v);
-	}
+	namespace uuids {
+		//
+		// hash_value
+		//
+		inline SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::uuids::uuid const& v) {
+			return sprout::hash_range(v);
+		}
+	}	// namespace uuids
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From bc8beb437fabcf03e3501624b520977f9b8157e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 054/121] fix: rational assignment called itself through swap
 without end

---
 sprout/rational/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..9e94580 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -97,8 +97,8 @@ namespace sprout {
 		{}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator=(rational const& rhs) SPROUT_NOEXCEPT {
-			rational temp(rhs);
-			sprout::swap(temp, *this);
+			num_ = rhs.num_;
+			den_ = rhs.den_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator=(param_type n) SPROUT_NOEXCEPT {
-- 
2.43.0


From 651c221b3902bc531cfbe40f939a4570dde7037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 055/121] fix: rational_at used a missing value_type: iterating
 a rational did not compile

---
 sprout/rational/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/container.hpp b/sprout/rational/container.hpp
index e7159f9..3ad59c9 100644
--- a/sprout/rational/container.hpp
+++ b/sprout/rational/container.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		struct rational_at {
 		public:
 			template<typename Rational, typename Index>
-			SPROUT_CONSTEXPR typename Rational::value_type
+			SPROUT_CONSTEXPR typename Rational::int_type
 			operator()(Rational const& c, Index i) const {
 				return i == 0 ? c.numerator()
 					: i == 1 ? c.denominator()
-- 
2.43.0


From 64bc6b418eaed84366e02e5d0e8330b51981cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 056/121] fix: rational: r += r, r -= r and r /= r read the
 operand after changing it

---
 sprout/rational/rational.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 9e94580..9430943 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -118,21 +118,25 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator+=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const rhs_num = rhs.num_;
+			IntType const rhs_den = rhs.den_;
+			IntType g = sprout::gcd(den_, rhs_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) + rhs.num_ * den_;
+			num_ = num_ * (rhs_den / g) + rhs_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= rhs_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator-=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const rhs_num = rhs.num_;
+			IntType const rhs_den = rhs.den_;
+			IntType g = sprout::gcd(den_, rhs_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) - rhs.num_ * den_;
+			num_ = num_ * (rhs_den / g) - rhs_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= rhs_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator*=(rational const& rhs) {
@@ -149,10 +153,12 @@ namespace sprout {
 			if (num_ == IntType(0)) {
 				return *this;
 			}
-			IntType gcd1 = sprout::gcd(num_, rhs.num_);
-			IntType gcd2 = sprout::gcd(rhs.den_, den_);
-			num_ =(num_ / gcd1) * (rhs.den_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.num_ / gcd1);
+			IntType const rhs_num = rhs.num_;
+			IntType const rhs_den = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, rhs_num);
+			IntType gcd2 = sprout::gcd(rhs_den, den_);
+			num_ =(num_ / gcd1) * (rhs_den / gcd2);
+			den_ =(den_ / gcd2) * (rhs_num / gcd1);
 			if (den_ < IntType(0)) {
 				num_ = -num_;
 				den_ = -den_;
-- 
2.43.0


From 7f41bf8354f1a1643c8698c8c14e90f1b32ddff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 057/121] fix: rational < int with a negative remainder passed
 quotient and remainder in swapped order

---
 sprout/rational/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index 2518640..d406aa7 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 		{
 			return r < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					r + lhs.denominator(), q - 1
+					q - 1, r + lhs.denominator()
 					)
 				: q < rhs
 				;
-- 
2.43.0


From c06aee8fcb57ec7b4683d1b0c1e7e4b3cb7de529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 058/121] fix: variant's converting constructor and assignment
 no longer take over the copy of a non-const variant

---
 sprout/variant/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index f8917a6..1c86521 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -231,7 +231,10 @@ namespace sprout {
 		{}
 		variant(variant const&) = default;
 		variant(variant&&) = default;
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CONSTEXPR variant(T&& operand)
 			: impl_type(
 				SPROUT_FORWARD(T, operand),
@@ -254,7 +257,10 @@ namespace sprout {
 			static_cast<impl_type&>(*this) = sprout::move(rhs);
 			return *this;
 		}
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
 			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
 			return *this;
-- 
2.43.0


From bc5e10fb812d52ca2fa99bccaea0398830209ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 059/121] fix: optional: end() and cend() refer to the holder,
 so reverse iteration reaches the value

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..fbf1b78 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -371,10 +371,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -394,7 +398,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From c18b9b25432c02ff45bc7223654f43ca2e3afb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 060/121] fix: operation/fit: name the container type that
 container_traits provides

---
 sprout/operation/fit/append.hpp          | 9 ++++++---
 sprout/operation/fit/append_back.hpp     | 9 ++++++---
 sprout/operation/fit/append_front.hpp    | 9 ++++++---
 sprout/operation/fit/erase.hpp           | 9 ++++++---
 sprout/operation/fit/erase_n.hpp         | 9 ++++++---
 sprout/operation/fit/insert.hpp          | 9 ++++++---
 sprout/operation/fit/insert_n.hpp        | 9 ++++++---
 sprout/operation/fit/pop_back.hpp        | 9 ++++++---
 sprout/operation/fit/pop_back_n.hpp      | 9 ++++++---
 sprout/operation/fit/pop_front.hpp       | 9 ++++++---
 sprout/operation/fit/pop_front_n.hpp     | 9 ++++++---
 sprout/operation/fit/push_back.hpp       | 9 ++++++---
 sprout/operation/fit/push_back_n.hpp     | 9 ++++++---
 sprout/operation/fit/push_front.hpp      | 9 ++++++---
 sprout/operation/fit/push_front_n.hpp    | 9 ++++++---
 sprout/operation/fit/realign.hpp         | 9 ++++++---
 sprout/operation/fit/realign_to.hpp      | 9 ++++++---
 sprout/operation/fit/resize.hpp          | 9 ++++++---
 sprout/operation/fit/resize_backward.hpp | 9 ++++++---
 sprout/operation/fit/set.hpp             | 9 ++++++---
 20 files changed, 120 insertions(+), 60 deletions(-)

diff --git a/sprout/operation/fit/append.hpp b/sprout/operation/fit/append.hpp
index 7b72f91..ffcd0fe 100644
--- a/sprout/operation/fit/append.hpp
+++ b/sprout/operation/fit/append.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_HPP
 #define SPROUT_OPERATION_FIT_APPEND_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -25,9 +26,11 @@ namespace sprout {
 			struct append {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_back.hpp b/sprout/operation/fit/append_back.hpp
index f2495a1..1db6d30 100644
--- a/sprout/operation/fit/append_back.hpp
+++ b/sprout/operation/fit/append_back.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 #define SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -24,9 +25,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_back {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_back<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_back<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_front.hpp b/sprout/operation/fit/append_front.hpp
index a364222..a273bbd 100644
--- a/sprout/operation/fit/append_front.hpp
+++ b/sprout/operation/fit/append_front.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 #define SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -24,9 +25,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_front {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_front<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_front<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase.hpp b/sprout/operation/fit/erase.hpp
index 7939b44..3238dbd 100644
--- a/sprout/operation/fit/erase.hpp
+++ b/sprout/operation/fit/erase.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_HPP
 #define SPROUT_OPERATION_FIT_ERASE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct erase {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2266afa..1d2ae51 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_N_HPP
 #define SPROUT_OPERATION_FIT_ERASE_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct erase_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert.hpp b/sprout/operation/fit/insert.hpp
index 7ec7c34..f07eb4f 100644
--- a/sprout/operation/fit/insert.hpp
+++ b/sprout/operation/fit/insert.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_HPP
 #define SPROUT_OPERATION_FIT_INSERT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct insert {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert_n.hpp b/sprout/operation/fit/insert_n.hpp
index 48ee75b..75fad28 100644
--- a/sprout/operation/fit/insert_n.hpp
+++ b/sprout/operation/fit/insert_n.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_N_HPP
 #define SPROUT_OPERATION_FIT_INSERT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct insert_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back.hpp b/sprout/operation/fit/pop_back.hpp
index 2486e27..5b85cca 100644
--- a/sprout/operation/fit/pop_back.hpp
+++ b/sprout/operation/fit/pop_back.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct pop_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back_n.hpp b/sprout/operation/fit/pop_back_n.hpp
index dd491dd..04f3ef5 100644
--- a/sprout/operation/fit/pop_back_n.hpp
+++ b/sprout/operation/fit/pop_back_n.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct pop_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front.hpp b/sprout/operation/fit/pop_front.hpp
index b34f6d7..9a0e222 100644
--- a/sprout/operation/fit/pop_front.hpp
+++ b/sprout/operation/fit/pop_front.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct pop_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front_n.hpp b/sprout/operation/fit/pop_front_n.hpp
index a591b6c..5482752 100644
--- a/sprout/operation/fit/pop_front_n.hpp
+++ b/sprout/operation/fit/pop_front_n.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct pop_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back.hpp b/sprout/operation/fit/push_back.hpp
index b056ec2..e47e30d 100644
--- a/sprout/operation/fit/push_back.hpp
+++ b/sprout/operation/fit/push_back.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -25,9 +26,11 @@ namespace sprout {
 			struct push_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back_n.hpp b/sprout/operation/fit/push_back_n.hpp
index 3dd2372..bb76350 100644
--- a/sprout/operation/fit/push_back_n.hpp
+++ b/sprout/operation/fit/push_back_n.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -25,9 +26,11 @@ namespace sprout {
 			struct push_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front.hpp b/sprout/operation/fit/push_front.hpp
index 589bfad..fcf3057 100644
--- a/sprout/operation/fit/push_front.hpp
+++ b/sprout/operation/fit/push_front.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -25,9 +26,11 @@ namespace sprout {
 			struct push_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front_n.hpp b/sprout/operation/fit/push_front_n.hpp
index 7493c31..477578d 100644
--- a/sprout/operation/fit/push_front_n.hpp
+++ b/sprout/operation/fit/push_front_n.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -25,9 +26,11 @@ namespace sprout {
 			struct push_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign.hpp b/sprout/operation/fit/realign.hpp
index 3e65ad5..4b9a5da 100644
--- a/sprout/operation/fit/realign.hpp
+++ b/sprout/operation/fit/realign.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -25,9 +26,11 @@ namespace sprout {
 			struct realign {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 86e1557..58ab92f 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -25,9 +26,11 @@ namespace sprout {
 			struct realign_to {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign_to<Result, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign_to<Result, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize.hpp b/sprout/operation/fit/resize.hpp
index 69e70a1..4a70b49 100644
--- a/sprout/operation/fit/resize.hpp
+++ b/sprout/operation/fit/resize.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct resize {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize_backward.hpp b/sprout/operation/fit/resize_backward.hpp
index 00bdc8c..055027b 100644
--- a/sprout/operation/fit/resize_backward.hpp
+++ b/sprout/operation/fit/resize_backward.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct resize_backward {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize_backward<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize_backward<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/set.hpp b/sprout/operation/fit/set.hpp
index 1089748..5e47194 100644
--- a/sprout/operation/fit/set.hpp
+++ b/sprout/operation/fit/set.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_OPERATION_FIT_SET_HPP
 #define SPROUT_OPERATION_FIT_SET_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
@@ -26,9 +27,11 @@ namespace sprout {
 			struct set {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::set<Container, T>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::set<Container, T>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
-- 
2.43.0


From ffc94af71ce3a7771e5170dd383396c7c28cc6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 061/121] fix: operation::fit::erase_n: the window is shortened
 by the number of erased elements

---
 sprout/operation/fit/erase_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 1d2ae51..13c4541 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -45,7 +45,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 		template<std::size_t N, typename Container>
@@ -54,7 +54,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From e7c84cbf69e108b030dfbbf205730d0083ed0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 062/121] fix: sprout::empty compiles for containers and
 returns bool

---
 sprout/container/container_range_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/container/container_range_traits.hpp b/sprout/container/container_range_traits.hpp
index 0d3881a..5027219 100644
--- a/sprout/container/container_range_traits.hpp
+++ b/sprout/container/container_range_traits.hpp
@@ -142,7 +142,7 @@ namespace sprout {
 	template<typename Container>
 	struct container_range_empty_default {
 	public:
-		static SPROUT_CONSTEXPR typename sprout::container_traits<Container const>::size_type
+		static SPROUT_CONSTEXPR bool
 		range_empty(Container const& cont) {
 			using sprout_container_range_detail::range_empty;
 			using sprout_adl::range_empty;
@@ -291,6 +291,7 @@ namespace sprout {
 		: public sprout::container_range_begin_default<Container>
 		, public sprout::container_range_end_default<Container>
 		, public sprout::container_range_size_default<Container>
+		, public sprout::container_range_empty_default<Container>
 		, public sprout::container_range_front_default<Container>
 		, public sprout::container_range_back_default<Container>
 		, public sprout::container_range_subscript_at_default<Container>
-- 
2.43.0


From f05e81caec68e5fa5952f611a7c50cbab394daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 063/121] fix: sub, csub and sub_copy of a whole container are
 not ambiguous

---
 sprout/sub_array/sub.hpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/sprout/sub_array/sub.hpp b/sprout/sub_array/sub.hpp
index a5783df..8097910 100644
--- a/sprout/sub_array/sub.hpp
+++ b/sprout/sub_array/sub.hpp
@@ -137,12 +137,6 @@ namespace sprout {
 		return sprout::sub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container&> >::type
-	sub(Container& arr) {
-		return sprout::sub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// csub
 	//
@@ -224,12 +218,6 @@ namespace sprout {
 		return sprout::csub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container const&> >::type
-	csub(Container const& arr) {
-		return sprout::csub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// sub_copy
 	//
@@ -310,12 +298,6 @@ namespace sprout {
 	{
 		return sprout::sub_window_copy(arr, to_first);
 	}
-
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container> >::type
-	sub_copy(Container const& arr) {
-		return sprout::sub_copy(arr, sprout::begin(arr), sprout::end(arr));
-	}
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_SUB_ARRAY_SUB_HPP
-- 
2.43.0


From 98dcba8f25a7bc14704561dd7311226e44ca1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 064/121] fix: sub_array of a reference: const window and
 offset, push and pop use the container

---
 sprout/sub_array/sub_array.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index 4fbf582..f98f99d 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -426,10 +426,10 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first = 0) const {
-			return sub_array(impl_.array_, to_first, size());
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, size());
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first, difference_type to_last) const {
-			return sub_array(impl_.array_, to_first, to_last);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, to_last);
 		}
 		SPROUT_CONSTEXPR sub_array cwindow(difference_type to_first = 0) const {
 			return window(to_first);
@@ -444,7 +444,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array offset(difference_type from_begin = 0, difference_type from_end = 0) const {
-			return sub_array(impl_.array_, impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
 		}
 		SPROUT_CONSTEXPR sub_array coffset(difference_type from_begin = 0, difference_type from_end = 0) const {
 			return offset(from_begin, from_end);
@@ -470,30 +470,30 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type const& x) {
-			impl_.array_[impl_.to_last_] = x;
+			*sprout::next(sprout::begin(get_internal()), impl_.to_last_) = x;
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type&& x) {
-			impl_.array_[impl_.to_last_] = sprout::move(x);
+			*sprout::next(sprout::begin(get_internal()), impl_.to_last_) = sprout::move(x);
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_back() {
-			impl_.array_[impl_.to_last_ - 1] = value_type();
+			*sprout::next(sprout::begin(get_internal()), impl_.to_last_ - 1) = value_type();
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_back() {
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type const& x) {
-			impl_.array_[impl_.to_first_ - 1] = x;
+			*sprout::next(sprout::begin(get_internal()), impl_.to_first_ - 1) = x;
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type&& x) {
-			impl_.array_[impl_.to_first_ - 1] = sprout::move(x);
+			*sprout::next(sprout::begin(get_internal()), impl_.to_first_ - 1) = sprout::move(x);
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_front() {
-			impl_.array_[impl_.to_first_] = value_type();
+			*sprout::next(sprout::begin(get_internal()), impl_.to_first_) = value_type();
 			++impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_front() {
-- 
2.43.0


From f321fd3144dd17f111a85a18cef9b1d896e9175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 065/121] fix: sub_array: equality takes the lengths into
 account

---
 sprout/sub_array/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/sub_array/comparison.hpp b/sprout/sub_array/comparison.hpp
index 3d59886..2d31b8e 100644
--- a/sprout/sub_array/comparison.hpp
+++ b/sprout/sub_array/comparison.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sub_array<Container> const& lhs, sprout::sub_array<Container> const& rhs) {
-		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs));
+		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs), sprout::end(rhs));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 68179f80bb96352284fd6c25110968dcda08f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 066/121] fix: valarray: copy and move assignment compile

---
 sprout/valarray/valarray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 4fe2156..467d76d 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -227,14 +227,14 @@ namespace sprout {
 		// assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray const& rhs) {
-			impl_.array_ = rhs.array_;
-			impl_.size_ = rhs.size_;
+			impl_.array_ = rhs.impl_.array_;
+			impl_.size_ = rhs.impl_.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray&& rhs) SPROUT_NOEXCEPT {
-			impl_.array_ = sprout::move(rhs.array_);
-			impl_.size_ = sprout::move(rhs.size_);
+			impl_.array_ = sprout::move(rhs.impl_.array_);
+			impl_.size_ = sprout::move(rhs.impl_.size_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
-- 
2.43.0


From 75183c47f8f353b104f4ec2d71f376f08de21ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 067/121] fix: valarray::empty reported the opposite

---
 sprout/valarray/valarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 467d76d..8a53531 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -526,7 +526,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR bool
 		empty() const SPROUT_NOEXCEPT {
-			return size() != 0;
+			return size() == 0;
 		}
 		// element access (array):
 		SPROUT_CXX14_CONSTEXPR reference
-- 
2.43.0


From e985d1864e222db60eb9ee7ef03b597337b7c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:04 +0000
Subject: [PATCH 068/121] fix: valarray: computed assignment with a scalar
 compiles

---
 sprout/valarray/valarray.hpp | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 8a53531..e037c79 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -22,16 +22,16 @@
 #include <sprout/functional/negate.hpp>
 #include <sprout/functional/bit_not.hpp>
 #include <sprout/functional/logical_not.hpp>
-#include <sprout/functional/plus_assign.hpp>
-#include <sprout/functional/minus_assign.hpp>
-#include <sprout/functional/multiplies_assign.hpp>
-#include <sprout/functional/divides_assign.hpp>
-#include <sprout/functional/modulus_assign.hpp>
-#include <sprout/functional/bit_and_assign.hpp>
-#include <sprout/functional/bit_or_assign.hpp>
-#include <sprout/functional/bit_xor_assign.hpp>
-#include <sprout/functional/shift_left_assign.hpp>
-#include <sprout/functional/shift_right_assign.hpp>
+#include <sprout/functional/plus.hpp>
+#include <sprout/functional/minus.hpp>
+#include <sprout/functional/multiplies.hpp>
+#include <sprout/functional/divides.hpp>
+#include <sprout/functional/modulus.hpp>
+#include <sprout/functional/bit_and.hpp>
+#include <sprout/functional/bit_or.hpp>
+#include <sprout/functional/bit_xor.hpp>
+#include <sprout/functional/shift_left.hpp>
+#include <sprout/functional/shift_right.hpp>
 #include <sprout/functional/bind2nd.hpp>
 #include <sprout/algorithm/min_element.hpp>
 #include <sprout/algorithm/max_element.hpp>
@@ -41,7 +41,7 @@
 #include <sprout/algorithm/fixed/rotate.hpp>
 #include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/fill.hpp>
-#include <sprout/algorithm/cxx14/for_each.hpp>
+#include <sprout/algorithm/cxx14/transform.hpp>
 #include <sprout/numeric/accumulate.hpp>
 #include <sprout/utility/move.hpp>
 #include <sprout/utility/swap.hpp>
@@ -349,52 +349,52 @@ namespace sprout {
 		// computed assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator*=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::multiplies_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::multiplies<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator/=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::divides_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::divides<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator%=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::modulus_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::modulus<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator+=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::plus_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::plus<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator-=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::minus_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::minus<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator^=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::bit_xor_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::bit_xor<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator&=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::bit_and_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::bit_and<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator|=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::bit_or_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::bit_or<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator<<=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::shift_left_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::shift_left<>(), x));
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator>>=(value_type const& x) {
-			sprout::for_each(begin(), end(), sprout::bind2nd(sprout::shift_right_assign<>(), x));
+			sprout::transform(begin(), end(), begin(), sprout::bind2nd(sprout::shift_right<>(), x));
 			return *this;
 		}
 		// member functions:
-- 
2.43.0


From 7304fcd88d05664183fa99c5b01793b2bd35ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:04 +0000
Subject: [PATCH 069/121] fix: valarray subsets: assigning one subset to
 another of the same type copies the elements

---
 sprout/valarray/gslice_array.hpp   | 5 +++++
 sprout/valarray/indirect_array.hpp | 5 +++++
 sprout/valarray/mask_array.hpp     | 5 +++++
 sprout/valarray/slice_array.hpp    | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/sprout/valarray/gslice_array.hpp b/sprout/valarray/gslice_array.hpp
index 990c90a..c122d93 100644
--- a/sprout/valarray/gslice_array.hpp
+++ b/sprout/valarray/gslice_array.hpp
@@ -115,6 +115,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR gslice_array(gslice_array const& other)
 			: arr_(other.arr_), start_(other.start_), size_(other.size_), stride_(other.stride_)
 		{}
+		SPROUT_CXX14_CONSTEXPR gslice_array const&
+		operator=(gslice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR gslice_array const&
 		operator=(gslice_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/indirect_array.hpp b/sprout/valarray/indirect_array.hpp
index d11ba2c..7263193 100644
--- a/sprout/valarray/indirect_array.hpp
+++ b/sprout/valarray/indirect_array.hpp
@@ -51,6 +51,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR indirect_array(indirect_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR indirect_array const&
+		operator=(indirect_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR indirect_array const&
 		operator=(indirect_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/mask_array.hpp b/sprout/valarray/mask_array.hpp
index ca1585c..d692135 100644
--- a/sprout/valarray/mask_array.hpp
+++ b/sprout/valarray/mask_array.hpp
@@ -59,6 +59,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR mask_array(mask_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR mask_array const&
+		operator=(mask_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR mask_array const&
 		operator=(mask_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 062ff9c..a82bb60 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -74,6 +74,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR slice_array(slice_array const& other)
 			: arr_(other.arr_), slice_(other.slice_)
 		{}
+		SPROUT_CXX14_CONSTEXPR slice_array const&
+		operator=(slice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR slice_array const&
 		operator=(slice_array<T, N2> const& ar) const {
-- 
2.43.0


From 890eab9324fcc55a7c2dae9640cfd4c2be7d0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:04 +0000
Subject: [PATCH 070/121] fix: valarray: shift fills with value-initialised
 elements, shift and cshift take any count

---
 sprout/valarray/valarray.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index e037c79..b8693e2 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -33,6 +33,7 @@
 #include <sprout/functional/shift_left.hpp>
 #include <sprout/functional/shift_right.hpp>
 #include <sprout/functional/bind2nd.hpp>
+#include <sprout/container/remake.hpp>
 #include <sprout/algorithm/min_element.hpp>
 #include <sprout/algorithm/max_element.hpp>
 #include <sprout/algorithm/fixed/copy.hpp>
@@ -159,6 +160,23 @@ namespace sprout {
 				sprout::detail::valarray_raw_construct_t(), n, SPROUT_FORWARD(Args, args)...
 				)
 		{}
+		template<sprout::index_t... Indexes>
+		SPROUT_CONSTEXPR valarray
+		shift_impl(sprout::index_tuple<Indexes...>, difference_type i) const {
+			return sprout::remake<valarray>(
+				*this, size(),
+				(Indexes + i >= 0 && Indexes + i < static_cast<difference_type>(size()) ? impl_.array_[Indexes + i]
+					: value_type()
+					)...
+				);
+		}
+		SPROUT_CONSTEXPR valarray
+		cshift_impl(difference_type i) const {
+			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
+				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
+				: *this
+				;
+		}
 		SPROUT_CXX14_CONSTEXPR void
 		maxcheck(size_type n) const {
 			if (n > max_size()) {
@@ -421,16 +439,12 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		shift(int i) const {
-			return i > 0 ? sprout::fixed::copy(begin() + i, end(), *this)
-				: i < 0 ? sprout::fixed::copy_backward(begin(), end() + i, *this)
-				: *this
-				;
+			return shift_impl(sprout::make_index_tuple<N>::make(), i);
 		}
 		SPROUT_CONSTEXPR valarray
 		cshift(int i) const {
-			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
-				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
-				: *this
+			return empty() ? *this
+				: cshift_impl(i % static_cast<difference_type>(size()))
 				;
 		}
 		SPROUT_CONSTEXPR valarray
-- 
2.43.0


From 0b414eb292ef0fefba81f162eddb595db1de69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 071/121] fix: iterator adaptors: member swap compiles

---
 sprout/iterator/indexed_iterator.hpp |  8 ++++----
 sprout/iterator/move_iterator.hpp    |  4 ++--
 sprout/iterator/next_iterator.hpp    |  8 ++++----
 sprout/iterator/remake_iterator.hpp  | 24 ++++++++++++------------
 sprout/iterator/reverse_iterator.hpp |  4 ++--
 sprout/iterator/step_iterator.hpp    | 22 +++++++++++-----------
 sprout/iterator/valued_iterator.hpp  |  8 ++++----
 7 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/sprout/iterator/indexed_iterator.hpp b/sprout/iterator/indexed_iterator.hpp
index ac56dd5..dd1f1dc 100644
--- a/sprout/iterator/indexed_iterator.hpp
+++ b/sprout/iterator/indexed_iterator.hpp
@@ -121,12 +121,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(indexed_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(idx, other.idx))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(idx, other.idx))
 			)
 		{
-			swap(current, other.current);
-			swap(idx, other.idx);
+			sprout::swap(current, other.current);
+			sprout::swap(idx, other.idx);
 		}
 	};
 
diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 826af24..9df2cc5 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -123,10 +123,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(move_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/next_iterator.hpp b/sprout/iterator/next_iterator.hpp
index 9addf3f..3ac7e83 100644
--- a/sprout/iterator/next_iterator.hpp
+++ b/sprout/iterator/next_iterator.hpp
@@ -90,12 +90,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(next_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(holder_, other.holder_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(holder_, other.holder_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(holder_, other.holder_);
-			swap(current, other.current);
+			sprout::swap(holder_, other.holder_);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index af576e1..3feeba2 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -202,20 +202,20 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(remake_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current2, other.current2))
-			&& SPROUT_NOEXCEPT_EXPR(swap(fst, other.fst))
-			&& SPROUT_NOEXCEPT_EXPR(swap(lst_, other.lst_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(begin_off, other.begin_off))
-			&& SPROUT_NOEXCEPT_EXPR(swap(end_off, other.end_off))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current2, other.current2))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(fst, other.fst))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(lst_, other.lst_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(begin_off, other.begin_off))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(end_off, other.end_off))
 			)
 		{
-			swap(current, other.current);
-			swap(current2, other.current2);
-			swap(fst, other.fst);
-			swap(lst_, other.lst_);
-			swap(begin_off, other.begin_off);
-			swap(end_off, other.end_off);
+			sprout::swap(current, other.current);
+			sprout::swap(current2, other.current2);
+			sprout::swap(fst, other.fst);
+			sprout::swap(lst_, other.lst_);
+			sprout::swap(begin_off, other.begin_off);
+			sprout::swap(end_off, other.end_off);
 		}
 	};
 
diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 2990599..0d6c427 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -109,10 +109,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(reverse_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8e8a39c..0813a21 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -155,19 +155,19 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(step_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(last, other.last))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(is_last, other.is_last))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
-			swap(current, other.current);
-			swap(last, other.last);
-			swap(wid, other.wid);
-			swap(back, other.back);
-			swap(is_last, other.is_last);
+			sprout::swap(current, other.current);
+			sprout::swap(last, other.last);
+			sprout::swap(wid, other.wid);
+			sprout::swap(back, other.back);
+			sprout::swap(is_last, other.is_last);
 		}
 	};
 
diff --git a/sprout/iterator/valued_iterator.hpp b/sprout/iterator/valued_iterator.hpp
index 92e6fc6..70e5cbc 100644
--- a/sprout/iterator/valued_iterator.hpp
+++ b/sprout/iterator/valued_iterator.hpp
@@ -129,12 +129,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(valued_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(holder, other.holder))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(holder, other.holder))
 			)
 		{
-			swap(current, other.current);
-			swap(holder, other.holder);
+			sprout::swap(current, other.current);
+			sprout::swap(holder, other.holder);
 		}
 	};
 
-- 
2.43.0


From c562c878c8e16182c765f6702eaf3b2c323833e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 072/121] fix: sprout::index_of of a mutable container compiles

---
 sprout/container/detail/range_index_of.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/container/detail/range_index_of.hpp b/sprout/container/detail/range_index_of.hpp
index 332363b..087f662 100644
--- a/sprout/container/detail/range_index_of.hpp
+++ b/sprout/container/detail/range_index_of.hpp
@@ -71,7 +71,7 @@ namespace sprout {
 			typename sprout::container_traits<Container>::size_type
 		>::type
 		range_index_of_impl(Container& cont, typename sprout::container_traits<Container>::iterator p) {
-			typedef typename sprout::container_traits<Container>::iterator type;
+			typedef typename sprout::container_traits<Container const>::iterator type;
 			return sprout::index_of(sprout::as_const(cont), sprout::const_iterator_cast<type>(p));
 		}
 		template<typename Container>
-- 
2.43.0


From 6212c5e071dfe554dfa7e744b7322669b8c48ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 073/121] fix: reverse_iterator: ordering is the reverse of the
 base's

---
 sprout/iterator/reverse_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 0d6c427..edfbbc5 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::reverse_iterator<Iterator1> const& lhs, sprout::reverse_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base();
+		return rhs.base() < lhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 3ea12fde6d3bb8027db86f967694eeb1a21aef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 074/121] fix: make_clamp_iterator: the form without a
 comparator can be called

---
 sprout/iterator/clamp_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 418d065..8612ee7 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -196,15 +196,15 @@ namespace sprout {
 	{
 		return sprout::clamp_iterator<Iterator, Compare>(it, low, up, comp);
 	}
-	template<typename Iterator, typename Compare>
-	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator, Compare>
+	template<typename Iterator>
+	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator>
 	make_clamp_iterator(
 		Iterator it,
 		typename std::iterator_traits<Iterator>::value_type const& low,
 		typename std::iterator_traits<Iterator>::value_type const& up
 		)
 	{
-		return sprout::clamp_iterator<Iterator, Compare>(it, low, up);
+		return sprout::clamp_iterator<Iterator>(it, low, up);
 	}
 
 	//
-- 
2.43.0


From dea8611aa43f9637a945560a7c503aa583cf8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 075/121] fix: alternate_iterator: odd steps backwards and the
 distance from left to right

---
 sprout/iterator/alternate_iterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index db9af14..0097423 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -47,7 +47,10 @@ namespace sprout {
 		bool in_left;
 	private:
 		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n) const {
-			return alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2));
+			return n % 2 < 0
+				? alternate_iterator(sprout::next(current1, (n - 1) / 2), sprout::next(current2, (n - 1) / 2), false)
+				: alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2))
+				;
 		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl(difference_type n) const {
 			return advance_impl_1(n + (!is_in_left() ? 1 : 0));
@@ -250,7 +253,7 @@ namespace sprout {
 	{
 		return sprout::limited::plus(
 			sprout::limited::multiplies(lhs.base() - rhs.base(), 2),
-			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : 1) : (rhs.is_in_left() ? 1 : 0)
+			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : -1) : (rhs.is_in_left() ? 1 : 0)
 			);
 	}
 	template<typename LIterator, typename RIterator>
-- 
2.43.0


From 16b55132b8f7e79ea178b8d2c6e32dd8b944c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 076/121] fix: while_iterator: do not read the end when
 incrementing

---
 sprout/iterator/while_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index 27f0530..c8834c1 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 		Predicate pred;
 	private:
 		SPROUT_CXX14_CONSTEXPR void satisfy_predicate() {
-			if (!pred(*current)) {
+			if (current != last && !pred(*current)) {
 				current = last;
 			}
 		}
-- 
2.43.0


From a2dd67d56c85272215b2ea8478deb4c0d4a566fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 077/121] fix: insert_range_iterator: random access moves
 compile and land where they should

---
 sprout/iterator/insert_range_iterator.hpp | 33 ++++++++++-------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index 6ef839c..d6355e0 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -49,22 +49,18 @@ namespace sprout {
 	private:
 		SPROUT_CONSTEXPR insert_range_iterator advance_impl(difference_type n) const {
 			return n >= 0
-				? current1 > pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-					: current1 == pos1 ? current2 == last2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
-						: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
-					: n <= sprout::distance(current1, pos1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-					: n <= sprout::distance(current1, pos1) + sprout::distance(current2, last2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current1, pos1) - sprout::distance(current2, last2)), pos1, last2, first2, last2)
-				: current1 < pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-					: current1 == pos1 ? current2 == first2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
-						: insert_range_iterator(sprout::next(current1, n - sprout::distance(first2, current2)), pos1, first2, first2, last2)
-					: -n <= sprout::distance(pos1, current1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-					: -n <= sprout::distance(pos1, current1) + sprout::distance(first2, current2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(pos1, current1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(pos1, current1) - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+				? current1 < pos1 ? n <= sprout::distance(current1, pos1)
+						? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
+						: insert_range_iterator(pos1, pos1, first2, first2, last2).advance_impl(n - sprout::distance(current1, pos1))
+					: current1 == pos1 && n <= sprout::distance(current2, last2)
+						? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
+				: pos1 < current1 ? -n <= sprout::distance(pos1, current1)
+						? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
+						: insert_range_iterator(pos1, pos1, last2, first2, last2).advance_impl(n + sprout::distance(pos1, current1))
+					: current1 == pos1 && -n <= sprout::distance(first2, current2)
+						? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 				;
 		}
 	public:
@@ -222,9 +218,8 @@ namespace sprout {
 		sprout::insert_range_iterator<DstIterator2, SrcIterator2> const& rhs
 		)
 	{
-		return lhs.is_in_base() && rhs.is_in_base() ? lhs.base() < rhs.base()
-			: !lhs.is_in_base() && !rhs.is_in_base() ? lhs.base2() < rhs.base2()
-			: lhs.is_in_base()
+		return lhs.base() < rhs.base()
+			|| (lhs.base() == rhs.base() && lhs.base2() < rhs.base2())
 			;
 	}
 	template<
-- 
2.43.0


From 6a63a7d0aaf19e42af5213f24efd6c81045b75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 078/121] fix: size_enum_iterator: moves, subscripts and
 distances with separators; conversions compile

---
 sprout/iterator/size_enum_iterator.hpp | 31 ++++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 5dd6d0f..845a597 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U> const& it)
-			: current(it.current)
+			: current(it.base())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U> const& it) {
@@ -162,6 +162,13 @@ namespace sprout {
 		iterator_type current;
 		value_type sep_size;
 		bool is_sep;
+	private:
+		SPROUT_CONSTEXPR size_enum_iterator advance_impl(difference_type n) const {
+			return n % 2 < 0
+				? size_enum_iterator(current + (n - 1) / 2, sep_size, true)
+				: size_enum_iterator(current + n / 2, sep_size, n % 2 != 0)
+				;
+		}
 	public:
 		SPROUT_CONSTEXPR size_enum_iterator()
 			: current(), sep_size(), is_sep()
@@ -174,9 +181,9 @@ namespace sprout {
 		{}
 		template<typename U, bool V>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U, V> const& it)
-			: current(it.current)
-			, sep_size(it.sep_size)
-			, is_sep(it.is_sep)
+			: current(it.base())
+			, sep_size(it.separator_size())
+			, is_sep(it.is_separator())
 		{}
 		template<typename U, bool V>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U, V> const& it) {
@@ -238,23 +245,23 @@ namespace sprout {
 			return temp;
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator+(difference_type n) const {
-			return size_enum_iterator(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			return advance_impl(n + is_sep);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator-(difference_type n) const {
-			return size_enum_iterator(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			return advance_impl(is_sep - n);
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator+=(difference_type n) {
-			size_enum_iterator temp(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			size_enum_iterator temp(advance_impl(n + is_sep));
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator-=(difference_type n) {
-			size_enum_iterator temp(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			size_enum_iterator temp(advance_impl(is_sep - n));
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return sprout::size(current[(n + is_sep) / 2]);
+			return *advance_impl(n + is_sep);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator next() const {
 			return is_sep
@@ -367,10 +374,10 @@ namespace sprout {
 		sprout::size_enum_iterator<Iterator2, true> const& rhs
 		)
 	{
-		return lhs.base() - rhs.base() + (
+		return (lhs.base() - rhs.base()) * 2 + (
 			lhs.is_separator()
-				? rhs.is_separator() ? 0 : -1
-				: rhs.is_separator() ? 1 : 0
+				? rhs.is_separator() ? 0 : 1
+				: rhs.is_separator() ? -1 : 0
 				)
 		;
 	}
-- 
2.43.0


From a42a64d92e00074292034c05353ff506af87fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 079/121] fix: iterator adaptors: conversions between element
 types compile

---
 sprout/iterator/adjacent_filter_iterator.hpp |  6 +++---
 sprout/iterator/clamp_iterator.hpp           |  2 +-
 sprout/iterator/filter_iterator.hpp          |  6 +++---
 sprout/iterator/transform_iterator.hpp       | 12 ++++++------
 sprout/iterator/while_iterator.hpp           |  6 +++---
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 52ee63e..b0053f7 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -82,9 +82,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR adjacent_filter_iterator(adjacent_filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR adjacent_filter_iterator& operator=(adjacent_filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 8612ee7..2569203 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -49,7 +49,7 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR clamp_iterator(clamp_iterator<U, V> const& it)
-			: current(it.current), comp(it.comp), low(it.low), up(it.up)
+			: current(it.base()), comp(it.compare()), low(it.lower()), up(it.upper())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR clamp_iterator& operator=(clamp_iterator<U, V> const& it) {
diff --git a/sprout/iterator/filter_iterator.hpp b/sprout/iterator/filter_iterator.hpp
index 2a8c9ac..01a28c7 100644
--- a/sprout/iterator/filter_iterator.hpp
+++ b/sprout/iterator/filter_iterator.hpp
@@ -88,9 +88,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR filter_iterator(filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR filter_iterator& operator=(filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/transform_iterator.hpp b/sprout/iterator/transform_iterator.hpp
index 5393cd6..81c0d87 100644
--- a/sprout/iterator/transform_iterator.hpp
+++ b/sprout/iterator/transform_iterator.hpp
@@ -87,9 +87,9 @@ namespace sprout {
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V, W> const& it)
-			: current(it.current)
-			, current2(it.current2)
-			, func(it.func)
+			: current(it.base())
+			, current2(it.base2())
+			, func(it.functor())
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V, W> const& it) {
@@ -100,7 +100,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR iterator_type base() const {
 			return current;
 		}
-		SPROUT_CONSTEXPR iterator_type base2() const {
+		SPROUT_CONSTEXPR iterator2_type base2() const {
 			return current2;
 		}
 		SPROUT_CONSTEXPR BinaryFunction functor() const {
@@ -222,8 +222,8 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V> const& it)
-			: current(it.current)
-			, func(it.func)
+			: current(it.base())
+			, func(it.functor())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V> const& it) {
diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index c8834c1..ce185b9 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -94,9 +94,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR while_iterator(while_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR while_iterator& operator=(while_iterator<Predicate, U> const& it) {
-- 
2.43.0


From 37f11a5d6b9d479507f314c95927f8accc3cc561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 080/121] fix: limited::multiplies: no division overflow for
 factors of -1

---
 sprout/utility/limited.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index a33ad78..186be98 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -36,13 +36,13 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR typename sprout::arithmetic_promote<T, U>::type
 		multiplies(T const& lhs, U const& rhs) {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
-			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs + (sprout::numeric_limits<type>::max() % lhs ? 1 : 0) <= rhs
+			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs < rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
+				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / lhs > rhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
+				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / rhs > lhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs < 0 && -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
+				: lhs < 0 && rhs < 0 && sprout::numeric_limits<type>::max() / rhs > lhs
 					? sprout::numeric_limits<type>::max()
 				: lhs * rhs
 				;
-- 
2.43.0


From b8d32433d1c321d77409a373a43d6f3e251ffcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 081/121] fix: joint_iterator: distance from the left to the
 right part has the right sign

---
 sprout/iterator/joint_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 57702a1..1354301 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -271,7 +271,7 @@ namespace sprout {
 	{
 		return lhs.is_in_left() && rhs.is_in_left() ? lhs.base() - rhs.base()
 			: !lhs.is_in_left() && !rhs.is_in_left() ? lhs.base2() - rhs.base2()
-			: lhs.is_in_left() ? sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
+			: lhs.is_in_left() ? sprout::limited::plus(lhs.base() - lhs.left_end(), rhs.right_begin() - rhs.base2())
 			: sprout::limited::plus(lhs.base2() - lhs.right_begin(), rhs.left_end() - rhs.base())
 			;
 	}
-- 
2.43.0


From ed55eba7587b5e4d1ed9af105b76427843c3828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 082/121] fix: adjacent_filter_iterator: the first element is
 kept

---
 sprout/iterator/adjacent_filter_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index b0053f7..f1a22df 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 		{}
 		adjacent_filter_iterator(adjacent_filter_iterator const&) = default;
 		SPROUT_CONSTEXPR adjacent_filter_iterator(Predicate pred, iterator_type it, iterator_type last = iterator_type())
-			: current(find_next(it, last, pred))
+			: current(it)
 			, last(last)
 			, pred(pred)
 		{}
-- 
2.43.0


From 5873213952fb439a9dabb5caabf8ef306381461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 083/121] fix: remake_iterator: moves over a window that is
 longer than its source

---
 sprout/iterator/remake_iterator.hpp | 39 +++++++++--------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index 3feeba2..37ecd50 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -41,32 +41,17 @@ namespace sprout {
 		typedef typename sprout::common_iterator_pointer<DstIterator, SrcIterator>::type pointer;
 		typedef typename sprout::common_iterator_reference<DstIterator, SrcIterator>::type reference;
 	private:
-		SPROUT_CONSTEXPR remake_iterator advance_impl(difference_type n) const {
-			return n >= 0
-				? remake_iterator(
-					sprout::next(current, n),
-					begin_off - n >= 0 ? fst
-						: (end_off - begin_off >= sprout::distance(fst, lst_) && begin_off - n <= -sprout::distance(fst, lst_)) ? lst_
-						: begin_off <= 0
-							? sprout::next(current2, NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n, end_off), sprout::distance(current2, lst_)))
-							: sprout::next(current2, NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n - begin_off, end_off), sprout::distance(current2, lst_)))
-						,
-					fst, lst_,
-					begin_off - n, end_off - n
-					)
-				: remake_iterator(
-					sprout::next(current, n),
-					begin_off - n >= 0 ? fst
-						: (end_off - begin_off >= sprout::distance(fst, lst_) && begin_off - n <= -sprout::distance(fst, lst_)) ? lst_
-						: begin_off >= -sprout::distance(fst, lst_)
-							? sprout::next(current2, n)
-							: sprout::next(current2, n - (begin_off + sprout::distance(fst, lst_)))
-						,
-					fst, lst_,
-					begin_off - n, end_off - n
-					)
+		SPROUT_CONSTEXPR iterator2_type seek(difference_type n) const {
+			return n <= 0 ? fst
+				: sprout::next(fst, NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n, end_off - begin_off), sprout::distance(fst, lst_)))
 				;
 		}
+		SPROUT_CONSTEXPR remake_iterator advance_impl(difference_type n) const {
+			return remake_iterator(sprout::next(current, n), seek(n - begin_off), fst, lst_, begin_off - n, end_off - n);
+		}
+		SPROUT_CONSTEXPR bool is_after_copying() const {
+			return begin_off < 0 && end_off >= 0 && -begin_off <= sprout::distance(fst, lst_);
+		}
 	protected:
 		iterator_type current;
 		iterator2_type current2;
@@ -150,7 +135,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR remake_iterator& operator--() {
 			--current;
-			if (begin_off < 0 && end_off >= 0) {
+			if (is_after_copying()) {
 				--current2;
 			}
 			++begin_off;
@@ -160,7 +145,7 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR remake_iterator operator--(int) {
 			remake_iterator temp(*this);
 			--current;
-			if (begin_off < 0 && end_off >= 0) {
+			if (is_after_copying()) {
 				--current2;
 			}
 			++begin_off;
@@ -195,7 +180,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR remake_iterator prev() const {
 			return remake_iterator(
-				sprout::prev(current), (begin_off < 0 && end_off >= 0 ? sprout::prev(current2) : current2),
+				sprout::prev(current), (is_after_copying() ? sprout::prev(current2) : current2),
 				fst, lst_,
 				begin_off + 1, end_off + 1
 				);
-- 
2.43.0


From ba99673bb3cb0cb102b7e0049c4fd6aca2c8afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 084/121] fix: step_iterator: increments, distances and
 backward steps with the right phase

---
 sprout/iterator/step_iterator.hpp | 56 ++++++++++++++++---------------
 sprout/range/adaptor/steps.hpp    |  8 ++---
 2 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 0813a21..21469bd 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -35,13 +35,22 @@ namespace sprout {
 		typedef typename base_type::pointer pointer;
 		typedef typename base_type::reference reference;
 	private:
+		// the last position before the end that is reached from it
 		static SPROUT_CONSTEXPR iterator_type get_back(iterator_type it, difference_type wid, iterator_type last) {
-			return sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
+			return it == last ? last
+				: sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid)
+				;
+		}
+		static SPROUT_CONSTEXPR bool next_is_last(step_iterator const& it, difference_type n) {
+			return it.is_last ? n >= 0
+				: n > 0 && sprout::distance(it.current, it.last) <= n * it.wid
+				;
 		}
-		static SPROUT_CONSTEXPR difference_type next_distance(step_iterator const& it, difference_type n) {
-			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.back), n * it.wid)
-				: it.is_last ? 0
-				: NS_SSCRISK_CEL_OR_SPROUT::max(-sprout::distance(it.current, it.back), n * it.wid)
+		static SPROUT_CONSTEXPR iterator_type next_current(step_iterator const& it, difference_type n) {
+			return next_is_last(it, n) ? it.last
+				: !it.is_last ? sprout::next(it.current, n * it.wid)
+				: it.back == it.last ? sprout::next(it.last, n * it.wid)
+				: sprout::next(it.back, (n + 1) * it.wid)
 				;
 		}
 	protected:
@@ -53,8 +62,8 @@ namespace sprout {
 		bool is_last;
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
-			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.back), is_last(next_distance(other, n) == 0)
+			: current(next_current(other, n)), last(other.last), wid(other.wid)
+			, back(other.back), is_last(next_is_last(other, n))
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
@@ -99,34 +108,24 @@ namespace sprout {
 			return &*current;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator++() {
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			step_iterator temp(*this, 1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator++(int) {
 			step_iterator result(*this);
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			++*this;
 			return result;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator--() {
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
+			step_iterator temp(*this, -1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator--(int) {
-			step_iterator temp(*this);
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
-			return temp;
+			step_iterator result(*this);
+			--*this;
+			return result;
 		}
 		SPROUT_CONSTEXPR step_iterator operator+(difference_type n) const {
 			return step_iterator(*this, n);
@@ -145,7 +144,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return *(current + n * wid);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR step_iterator next() const {
 			return step_iterator(*this, 1);
@@ -204,7 +203,10 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return (lhs.base() - rhs.base()) / lhs.width() + (lhs.is_end() ? 1 : 0) - (rhs.is_end() ? 1 : 0);
+		return lhs.is_end() ? (lhs.base() - rhs.base() + lhs.width() - 1) / lhs.width()
+			: rhs.is_end() ? (lhs.base() - rhs.base() - lhs.width() + 1) / lhs.width()
+			: (lhs.base() - rhs.base()) / lhs.width()
+			;
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR sprout::step_iterator<Iterator>
diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 9e4e90d..45d695d 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -46,19 +46,19 @@ namespace sprout {
 			explicit SPROUT_CONSTEXPR steps_range(range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), 1, sprout::end(range)),
-					iterator(sprout::end(range), 1, sprout::end(range))
+					sprout::next(iterator(sprout::begin(range), 1, sprout::end(range)), sprout::size(range))
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					sprout::next(iterator(sprout::begin(range), width, sprout::end(range)), sprout::size(range))
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)),
+					sprout::next(iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)), sprout::size(range))
 					)
 			{}
 		};
-- 
2.43.0


From 1abe27b11dc2e45cf619d17a693246710b2124ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 085/121] fix: adaptors::removed/removed_if: construct the
 iterators with the arguments in the right order

---
 sprout/range/adaptor/removed.hpp    | 4 ++--
 sprout/range/adaptor/removed_if.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/removed.hpp b/sprout/range/adaptor/removed.hpp
index 32b8cbd..5e1d260 100644
--- a/sprout/range/adaptor/removed.hpp
+++ b/sprout/range/adaptor/removed.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_range(removed_range const&) = default;
 			SPROUT_CONSTEXPR removed_range(range_type& range, value_type const& value)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(value)),
-					iterator(sprout::end(range), typename iterator::predicate_type(value))
+					iterator(typename iterator::predicate_type(value), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(value), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
diff --git a/sprout/range/adaptor/removed_if.hpp b/sprout/range/adaptor/removed_if.hpp
index 3beeff5..4ff6b65 100644
--- a/sprout/range/adaptor/removed_if.hpp
+++ b/sprout/range/adaptor/removed_if.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_if_range(removed_if_range const&) = default;
 			SPROUT_CONSTEXPR removed_if_range(range_type& range, Predicate pred)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(pred)),
-					iterator(sprout::end(range), typename iterator::predicate_type(pred))
+					iterator(typename iterator::predicate_type(pred), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(pred), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 78debb72ee80a3ca9bdd36f76c4b0fa20afc9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 086/121] fix: adaptors::blanked: take the minimum of values of
 one type

---
 sprout/range/adaptor/blanked.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/blanked.hpp b/sprout/range/adaptor/blanked.hpp
index 1b4ea53..b1d5f88 100644
--- a/sprout/range/adaptor/blanked.hpp
+++ b/sprout/range/adaptor/blanked.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				difference_type n
 				)
 				: base_type(
-					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value_type(), 0)
 					)
 			{}
@@ -70,7 +70,7 @@ namespace sprout {
 				value_type const& value
 				)
 				: base_type(
-					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value, 0)
 					)
 			{}
-- 
2.43.0


From b5e4feac81d76ada06a483eb71e52fa75ee6ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 087/121] fix: adaptors: apply_adaptors and piped with three or
 more adaptors

---
 sprout/range/adaptor/piped.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sprout/range/adaptor/piped.hpp b/sprout/range/adaptor/piped.hpp
index d2f7cb4..747bf8e 100644
--- a/sprout/range/adaptor/piped.hpp
+++ b/sprout/range/adaptor/piped.hpp
@@ -35,11 +35,21 @@ namespace sprout {
 				return SPROUT_FORWARD(Range, range) | adaptor;
 			}
 			template<typename Range, typename Adaptor, typename... Tail>
-			inline SPROUT_CONSTEXPR auto
-			apply_adaptors_impl(Range&& range, Adaptor const& adaptor, Tail const&... tail)
-			-> decltype(sprout::adaptors::detail::apply_adaptors_impl(SPROUT_FORWARD(Range, range) | adaptor, tail...))
-			{
-				return sprout::adaptors::detail::apply_adaptors_impl(SPROUT_FORWARD(Range, range) | adaptor, tail...);
+			struct apply_adaptors_result
+				: public sprout::adaptors::detail::apply_adaptors_result<
+					decltype(std::declval<Range>() | std::declval<Adaptor const&>()),
+					Tail...
+				>
+			{};
+			template<typename Range, typename Adaptor>
+			struct apply_adaptors_result<Range, Adaptor> {
+			public:
+				typedef decltype(std::declval<Range>() | std::declval<Adaptor const&>()) type;
+			};
+			template<typename Range, typename Adaptor1, typename Adaptor2, typename... Tail>
+			inline SPROUT_CONSTEXPR typename sprout::adaptors::detail::apply_adaptors_result<Range, Adaptor1, Adaptor2, Tail...>::type
+			apply_adaptors_impl(Range&& range, Adaptor1 const& adaptor1, Adaptor2 const& adaptor2, Tail const&... tail) {
+				return sprout::adaptors::detail::apply_adaptors_impl(SPROUT_FORWARD(Range, range) | adaptor1, adaptor2, tail...);
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From e10ca2e4fdf9b6b6e799ff531eb08f715d134cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 088/121] fix: adaptors::moved: begin and end were exchanged

---
 sprout/range/adaptor/moved.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/moved.hpp b/sprout/range/adaptor/moved.hpp
index c1c8b47..0f00559 100644
--- a/sprout/range/adaptor/moved.hpp
+++ b/sprout/range/adaptor/moved.hpp
@@ -42,8 +42,8 @@ namespace sprout {
 			moved_range(moved_range const&) = default;
 			explicit SPROUT_CONSTEXPR moved_range(range_type& range)
 				: base_type(
-					iterator(sprout::end(range)),
-					iterator(sprout::begin(range))
+					iterator(sprout::begin(range)),
+					iterator(sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 67e295eafe331fd774356ca561b6b735dcad2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 089/121] fix: adaptors::counting(first) counts up from first
 instead of counting to 0

---
 sprout/range/adaptor/counting.hpp | 40 +++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/counting.hpp b/sprout/range/adaptor/counting.hpp
index f32f680..0031e3c 100644
--- a/sprout/range/adaptor/counting.hpp
+++ b/sprout/range/adaptor/counting.hpp
@@ -102,15 +102,33 @@ namespace sprout {
 			{}
 		};
 
+		//
+		// open_counting_range
+		//
+		template<typename Incrementable>
+		class open_counting_range
+			: public sprout::adaptors::counting_range<Incrementable>
+		{
+		public:
+			typedef sprout::adaptors::counting_range<Incrementable> base_type;
+			typedef typename base_type::value_type value_type;
+		public:
+			SPROUT_CONSTEXPR open_counting_range() SPROUT_DEFAULTED_DEFAULT_CONSTRUCTOR_DECL
+			open_counting_range(open_counting_range const&) = default;
+			explicit SPROUT_CONSTEXPR open_counting_range(value_type const& first)
+				: base_type(first)
+			{}
+		};
+
 		//
 		// counting_forwarder
 		//
 		class counting_forwarder {
 		public:
 			template<typename Incrementable>
-			SPROUT_CONSTEXPR sprout::adaptors::counting_range<Incrementable>
+			SPROUT_CONSTEXPR sprout::adaptors::open_counting_range<Incrementable>
 			operator()(Incrementable const& first) const {
-				return sprout::adaptors::counting_range<Incrementable>(first);
+				return sprout::adaptors::open_counting_range<Incrementable>(first);
 			}
 			template<typename Incrementable>
 			SPROUT_CONSTEXPR sprout::adaptors::counting_range<Incrementable>
@@ -144,6 +162,20 @@ namespace sprout {
 				*rhs.end()
 				);
 		}
+		template<typename Range, typename Incrementable>
+		inline SPROUT_CONSTEXPR sprout::adaptors::counting_range<
+			Incrementable,
+			typename std::remove_reference<typename sprout::lvalue_reference<Range>::type>::type
+		>
+		operator|(Range&& lhs, sprout::adaptors::open_counting_range<Incrementable> const& rhs) {
+			return sprout::adaptors::counting_range<
+				Incrementable,
+				typename std::remove_reference<typename sprout::lvalue_reference<Range>::type>::type
+			>(
+				sprout::lvalue_forward<Range>(lhs),
+				*rhs.begin()
+				);
+		}
 	}	// namespace adaptors
 
 	//
@@ -153,6 +185,10 @@ namespace sprout {
 	struct container_construct_traits<sprout::adaptors::counting_range<Incrementable, Range> >
 		: public sprout::container_construct_traits<typename sprout::adaptors::counting_range<Incrementable, Range>::base_type>
 	{};
+	template<typename Incrementable>
+	struct container_construct_traits<sprout::adaptors::open_counting_range<Incrementable> >
+		: public sprout::container_construct_traits<sprout::adaptors::counting_range<Incrementable> >
+	{};
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_RANGE_ADAPTOR_COUNTING_HPP
-- 
2.43.0


From 65f4f61b8dc4177de226c6f32ff01f396f905453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 090/121] fix: value_iterator, clamp_iterator: dereference to a
 value instead of a reference into the iterator

---
 sprout/iterator/clamp_iterator.hpp |  2 +-
 sprout/iterator/value_iterator.hpp | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 2569203..9db2990 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -35,7 +35,7 @@ namespace sprout {
 		typedef typename base_type::value_type value_type;
 		typedef typename base_type::difference_type difference_type;
 		typedef typename base_type::pointer pointer;
-		typedef typename base_type::reference reference;
+		typedef value_type reference;
 	protected:
 		iterator_type current;
 		Compare comp;
diff --git a/sprout/iterator/value_iterator.hpp b/sprout/iterator/value_iterator.hpp
index c506dae..33dced1 100644
--- a/sprout/iterator/value_iterator.hpp
+++ b/sprout/iterator/value_iterator.hpp
@@ -32,7 +32,11 @@ namespace sprout {
 			typename sprout::value_holder<T>::value_type,
 			std::ptrdiff_t,
 			typename sprout::value_holder<T>::mutable_or_const_pointer,
-			typename sprout::value_holder<T>::mutable_or_const_reference
+			typename std::conditional<
+				std::is_reference<T>::value,
+				typename sprout::value_holder<T>::mutable_or_const_reference,
+				typename sprout::value_holder<T>::value_type
+			>::type
 		>
 	{
 	public:
@@ -48,7 +52,11 @@ namespace sprout {
 			typename sprout::value_holder<T>::value_type,
 			std::ptrdiff_t,
 			typename sprout::value_holder<T>::mutable_or_const_pointer,
-			typename sprout::value_holder<T>::mutable_or_const_reference
+			typename std::conditional<
+				std::is_reference<T>::value,
+				typename sprout::value_holder<T>::mutable_or_const_reference,
+				typename sprout::value_holder<T>::value_type
+			>::type
 		> base_type;
 	public:
 		typedef typename base_type::iterator_category iterator_category;
-- 
2.43.0


From 6ac82a883e1ae026b31cf3a09f1c2c59fa49572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 091/121] fix: range::fit::merge, set_* and transform: declare
 the fit results they return

---
 sprout/range/algorithm/fit/merge.hpp                    | 4 ++--
 sprout/range/algorithm/fit/set_difference.hpp           | 4 ++--
 sprout/range/algorithm/fit/set_intersection.hpp         | 4 ++--
 sprout/range/algorithm/fit/set_symmetric_difference.hpp | 4 ++--
 sprout/range/algorithm/fit/set_union.hpp                | 4 ++--
 sprout/range/algorithm/fit/transform.hpp                | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/range/algorithm/fit/merge.hpp b/sprout/range/algorithm/fit/merge.hpp
index 96d9e88..e3b7898 100644
--- a/sprout/range/algorithm/fit/merge.hpp
+++ b/sprout/range/algorithm/fit/merge.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// merge
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_difference.hpp b/sprout/range/algorithm/fit/set_difference.hpp
index a1e126e..0187c00 100644
--- a/sprout/range/algorithm/fit/set_difference.hpp
+++ b/sprout/range/algorithm/fit/set_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_intersection.hpp b/sprout/range/algorithm/fit/set_intersection.hpp
index 82f4766..dd1e5f3 100644
--- a/sprout/range/algorithm/fit/set_intersection.hpp
+++ b/sprout/range/algorithm/fit/set_intersection.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_intersection
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_symmetric_difference.hpp b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
index 18073af..ae47a90 100644
--- a/sprout/range/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_symmetric_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_union.hpp b/sprout/range/algorithm/fit/set_union.hpp
index 14b1576..f005698 100644
--- a/sprout/range/algorithm/fit/set_union.hpp
+++ b/sprout/range/algorithm/fit/set_union.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_union
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/transform.hpp b/sprout/range/algorithm/fit/transform.hpp
index 1cd1568..285dca8 100644
--- a/sprout/range/algorithm/fit/transform.hpp
+++ b/sprout/range/algorithm/fit/transform.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// transform
 			//
 			template<typename InputRange, typename Result, typename UnaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange const& rng, Result const& result, UnaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng), sprout::end(rng), result, op);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result, typename BinaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, BinaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), result, op);
 			}
-- 
2.43.0


From d54cb3dd5f54750d3138aae83fb44c2c550fc342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 092/121] fix: range::copy_while/copy_until: return what the
 algorithm returns

---
 sprout/range/algorithm/cxx14/copy_until.hpp | 4 +++-
 sprout/range/algorithm/cxx14/copy_while.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/copy_until.hpp b/sprout/range/algorithm/cxx14/copy_until.hpp
index 605eeee..7799e30 100644
--- a/sprout/range/algorithm/cxx14/copy_until.hpp
+++ b/sprout/range/algorithm/cxx14/copy_until.hpp
@@ -9,9 +9,11 @@
 #define SPROUT_RANGE_ALGORITHM_CXX14_COPY_UNTIL_HPP
 
 #include <sprout/config.hpp>
+#include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/copy_until.hpp>
 
 namespace sprout {
@@ -23,7 +25,7 @@ namespace sprout {
 			typename InputRange, typename OutputIterator, typename Predicate,
 			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<typename sprout::container_traits<InputRange>::const_iterator, OutputIterator>
 		copy_until(InputRange const& rng, OutputIterator result, Predicate pred) {
 			return sprout::copy_until(sprout::begin(rng), sprout::end(rng), result, pred);
 		}
diff --git a/sprout/range/algorithm/cxx14/copy_while.hpp b/sprout/range/algorithm/cxx14/copy_while.hpp
index f2f6954..adf875d 100644
--- a/sprout/range/algorithm/cxx14/copy_while.hpp
+++ b/sprout/range/algorithm/cxx14/copy_while.hpp
@@ -9,9 +9,11 @@
 #define SPROUT_RANGE_ALGORITHM_CXX14_COPY_WHILE_HPP
 
 #include <sprout/config.hpp>
+#include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/copy_while.hpp>
 
 namespace sprout {
@@ -23,7 +25,7 @@ namespace sprout {
 			typename InputRange, typename OutputIterator, typename Predicate,
 			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<typename sprout::container_traits<InputRange>::const_iterator, OutputIterator>
 		copy_while(InputRange const& rng, OutputIterator result, Predicate pred) {
 			return sprout::copy_while(sprout::begin(rng), sprout::end(rng), result, pred);
 		}
-- 
2.43.0


From eaa4e51845a6bd947bc7efb8365749af9e06e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 093/121] fix: range::search: a constant pattern range is a
 range, not a searcher

---
 sprout/range/algorithm/search.hpp | 42 ++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/sprout/range/algorithm/search.hpp b/sprout/range/algorithm/search.hpp
index 8083109..ae2d5dd 100644
--- a/sprout/range/algorithm/search.hpp
+++ b/sprout/range/algorithm/search.hpp
@@ -11,17 +11,42 @@
 #ifndef SPROUT_RANGE_ALGORITHM_SEARCH_HPP
 #define SPROUT_RANGE_ALGORITHM_SEARCH_HPP
 
+#include <type_traits>
+#include <utility>
 #include <sprout/config.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/utility/forward.hpp>
+#include <sprout/type_traits/identity.hpp>
+#include <sprout/type_traits/integral_constant.hpp>
+#include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/range/range_return.hpp>
 #include <sprout/algorithm/search.hpp>
 
 namespace sprout {
 	namespace range {
+		namespace detail {
+			struct is_searcher_test {
+			public:
+				template<
+					typename ForwardRange, typename T,
+					typename = decltype(std::declval<T const&>()(sprout::begin(std::declval<ForwardRange>()), sprout::end(std::declval<ForwardRange>())))
+				>
+				static sprout::true_type test(int);
+				template<typename ForwardRange, typename T>
+				static sprout::false_type test(...);
+			};
+			template<typename ForwardRange, typename T>
+			struct is_searcher
+				: public sprout::identity<decltype(sprout::range::detail::is_searcher_test::test<ForwardRange, T>(0))>::type
+			{};
+		}	// namespace detail
+
 
 		// 25.2.13 Search
-		template<typename ForwardRange1, typename ForwardRange2>
+		template<
+			typename ForwardRange1, typename ForwardRange2,
+			typename sprout::enabler_if<!sprout::range::detail::is_searcher<ForwardRange1, ForwardRange2>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange1>::type
 		search(ForwardRange1&& range1, ForwardRange2&& range2) {
 			return sprout::range::range_return<ForwardRange1>::pack(
@@ -50,7 +75,10 @@ namespace sprout {
 				);
 		}
 
-		template<sprout::range::range_return_value RetV, typename ForwardRange1, typename ForwardRange2>
+		template<
+			sprout::range::range_return_value RetV, typename ForwardRange1, typename ForwardRange2,
+			typename sprout::enabler_if<!sprout::range::detail::is_searcher<ForwardRange1, ForwardRange2>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange1, RetV>::type
 		search(ForwardRange1&& range1, ForwardRange2&& range2) {
 			return sprout::range::range_return<ForwardRange1, RetV>::pack(
@@ -80,7 +108,10 @@ namespace sprout {
 		}
 
 		//
-		template<typename ForwardRange, typename Searcher>
+		template<
+			typename ForwardRange, typename Searcher,
+			typename sprout::enabler_if<sprout::range::detail::is_searcher<ForwardRange, Searcher>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange>::type
 		search(ForwardRange&& range, Searcher const& searcher) {
 			return sprout::range::range_return<ForwardRange>::pack(
@@ -93,7 +124,10 @@ namespace sprout {
 				);
 		}
 
-		template<sprout::range::range_return_value RetV, typename ForwardRange, typename Searcher>
+		template<
+			sprout::range::range_return_value RetV, typename ForwardRange, typename Searcher,
+			typename sprout::enabler_if<sprout::range::detail::is_searcher<ForwardRange, Searcher>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange, RetV>::type
 		search(ForwardRange&& range, Searcher const& searcher) {
 			return sprout::range::range_return<ForwardRange, RetV>::pack(
-- 
2.43.0


From 28e6ae1174c66ac3810093227db92ce399915b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 094/121] fix: range::partition_copy takes two outputs and
 returns both ends

---
 sprout/range/algorithm/cxx14/partition_copy.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/partition_copy.hpp b/sprout/range/algorithm/cxx14/partition_copy.hpp
index 716ac5f..76731e9 100644
--- a/sprout/range/algorithm/cxx14/partition_copy.hpp
+++ b/sprout/range/algorithm/cxx14/partition_copy.hpp
@@ -12,6 +12,7 @@
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/partition_copy.hpp>
 
 namespace sprout {
@@ -20,12 +21,12 @@ namespace sprout {
 		// partition_copy
 		//
 		template<
-			typename InputRange, typename OutputIterator, typename Predicate,
-			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
+			typename InputRange, typename OutputIterator1, typename OutputIterator2, typename Predicate,
+			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator1>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
-		partition_copy(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), result, pred);
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<OutputIterator1, OutputIterator2>
+		partition_copy(InputRange const& rng, OutputIterator1 out_true, OutputIterator2 out_false, Predicate pred) {
+			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), out_true, out_false, pred);
 		}
 	}	// namespace range
 }	// namespace sprout
-- 
2.43.0


From a130f1964427079abf0c86b86a5bfc83d045cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 095/121] fix: random::begin/end/make_range: iterate over a
 generator that is not const

---
 sprout/random/iterator.hpp | 24 ++++++++++++------------
 sprout/random/range.hpp    | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/random/iterator.hpp b/sprout/random/iterator.hpp
index 262927b..896c774 100644
--- a/sprout/random/iterator.hpp
+++ b/sprout/random/iterator.hpp
@@ -25,26 +25,26 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine))
+				? sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine), count)
+				: sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine))
 				;
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine(), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine())
+				? sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine(), count)
+				: sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine())
 				;
 		}
 
@@ -57,16 +57,16 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine, Distribution const& distribution)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>();
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(engine())>::type>();
 		}
 	}	// namespace random
 }	// namespace sprout
diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index ed96050..03d914d 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -27,11 +27,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >(
 				sprout::random::begin(engine, distribution, count),
 				sprout::random::end(engine, distribution)
 				);
@@ -40,11 +40,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From b24c6188401256f13a53bfef78a6c9f34986758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 096/121] fix: const_mod: accept the modulus 0 that
 linear_congruential_engine allows

---
 sprout/random/detail/const_mod.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sprout/random/detail/const_mod.hpp b/sprout/random/detail/const_mod.hpp
index 75e895d..9981594 100644
--- a/sprout/random/detail/const_mod.hpp
+++ b/sprout/random/detail/const_mod.hpp
@@ -26,9 +26,6 @@ namespace sprout {
 			private:
 				SPROUT_STATIC_CONSTEXPR IntType supress_warnings = m == 0;
 				SPROUT_STATIC_CONSTEXPR IntType modulus = m + supress_warnings;
-			private:
-				static_assert(supress_warnings == 0, "supress_warnings == 0");
-				static_assert(modulus == m, "modulus == m");
 			private:
 				static SPROUT_CONSTEXPR IntType pow_1(IntType a, std::uintmax_t exponent, IntType result = 1) {
 					return exponent != 0
-- 
2.43.0


From 0552852d74a70daedc6fb6da6b62b57720d467c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 097/121] fix: rand48: produce the 31 high bits of the state,
 not 15

---
 sprout/random/linear_congruential.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index cde06c9..85c8ce8 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -325,7 +325,7 @@ namespace sprout {
 			template<typename EngineResult>
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> generate(EngineResult const& rnd) const {
 				return sprout::random::random_result<rand48>(
-					static_cast<result_type>(sprout::random::result(rnd)) >> 17,
+					static_cast<result_type>(sprout::random::result(rnd) >> 17),
 					rand48(sprout::random::next(rnd), private_construct_t())
 					);
 			}
@@ -343,7 +343,7 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				return static_cast<result_type>(static_cast<result_type>(lcf_()) >> 17);
+				return static_cast<result_type>(lcf_() >> 17);
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> const operator()() const {
 				return generate(lcf_());
-- 
2.43.0


From a860114f4772dce2a9a8a9dececd9e8cf4188c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 098/121] fix: linear_feedback_shift_engine: keep the state
 within w bits

---
 sprout/random/linear_feedback_shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_feedback_shift.hpp b/sprout/random/linear_feedback_shift.hpp
index 13320e5..1529226 100644
--- a/sprout/random/linear_feedback_shift.hpp
+++ b/sprout/random/linear_feedback_shift.hpp
@@ -123,11 +123,11 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				 x_ = ((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s));
+				 x_ = (((x_ & ((wordmask() << (w - k)) & wordmask())) << s) & wordmask()) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s));
 				 return x_;
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<linear_feedback_shift_engine> const operator()() const {
-				return generate(((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s)));
+				return generate((((x_ & ((wordmask() << (w - k)) & wordmask())) << s) & wordmask()) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s)));
 			}
 			friend SPROUT_CONSTEXPR bool operator==(linear_feedback_shift_engine const& lhs, linear_feedback_shift_engine const& rhs) SPROUT_NOEXCEPT {
 				return lhs.x_ == rhs.x_;
-- 
2.43.0


From daefac7231d26a18d33ab2bd382a69a9c60117b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 099/121] fix: mersenne_twister_engine (C++11): regenerate the
 state word by word with the right shift

---
 sprout/random/mersenne_twister.hpp | 96 ++++++++----------------------
 1 file changed, 25 insertions(+), 71 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 91ad483..b3e301c 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -15,6 +15,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/cstdint.hpp>
 #include <sprout/random/random_result.hpp>
+#include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/array/array.hpp>
 #include <sprout/detail/integer/integer_mask.hpp>
 
@@ -295,82 +296,35 @@ namespace sprout {
 						)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
-				return mersenne_twister_engine(
-					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ ((x_[n - 1] & upper_mask) | (x_[0] & lower_mask) >> 1) ^ ((x_[0] & 1) * a)
-						}},
-					0,
-					private_construct_t()
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t, Args const&... args) const {
-				return twist_5(args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t i, Args const&... args) const {
-				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t, Args const&... args) const {
-				return twist_4(n - 1 - unroll_extra2, args...);
+			static SPROUT_CONSTEXPR result_type twist_value(sprout::array<result_type, n> const& x, std::size_t i) {
+				return x[(i + m) % n] ^ (((x[i] & upper_mask) | (x[(i + 1) % n] & lower_mask)) >> 1) ^ ((x[(i + 1) % n] & 1) * a);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t i, Args const&... args) const {
-				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
+			template<std::size_t First, sprout::index_t... Indexes>
+			static SPROUT_CONSTEXPR sprout::array<result_type, n>
+			twist_block(sprout::array<result_type, n> const& x, sprout::index_tuple<Indexes...>) {
+				return sprout::array<result_type, n>{{
+					(First <= static_cast<std::size_t>(Indexes) && static_cast<std::size_t>(Indexes) < First + (n - m)
+						? twist_value(x, Indexes)
+						: x[Indexes]
+						)...
+					}};
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t, Args const&... args) const {
-				return twist_3(n - m, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t i, Args const&... args) const {
-				return twist_2(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t, Args const&... args) const {
-				return twist_2(n - m - unroll_extra1, args...);
+			template<std::size_t First>
+			static SPROUT_CONSTEXPR typename std::enable_if<
+				(First >= n),
+				sprout::array<result_type, n>
+			>::type twist_1(sprout::array<result_type, n> const& x) {
+				return x;
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t i, Args const&... args) const {
-				return twist_1(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
+			template<std::size_t First>
+			static SPROUT_CONSTEXPR typename std::enable_if<
+				(First < n),
+				sprout::array<result_type, n>
+			>::type twist_1(sprout::array<result_type, n> const& x) {
+				return twist_1<First + (n - m)>(twist_block<First>(x, sprout::make_index_tuple<n>::make()));
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-				return twist_1(0);
+				return mersenne_twister_engine(twist_1<0>(x_), 0, private_construct_t());
 			}
 			SPROUT_CXX14_CONSTEXPR void do_twist() {
 				UIntType const upper_mask = (~static_cast<UIntType>(0)) << r;
-- 
2.43.0


From 5da334a8c06c690c4d29a667a76f4002acb303e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 100/121] fix: mersenne_twister_engine (C++11): temper the word
 itself

---
 sprout/random/mersenne_twister.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index b3e301c..a452b88 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -275,13 +275,13 @@ namespace sprout {
 				return z ^ (z >> l);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_3(result_type z) const {
-				return z ^ generate_impl_4((z << t) & c);
+				return generate_impl_4(z ^ ((z << t) & c));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_2(result_type z) const {
-				return z ^ generate_impl_3((z << s) & b);
+				return generate_impl_3(z ^ ((z << s) & b));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_1(result_type z) const {
-				return z ^ generate_impl_2((z >> u) & d);
+				return generate_impl_2(z ^ ((z >> u) & d));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl() const {
 				return generate_impl_1(x_[i_]);
-- 
2.43.0


From b530f29ae033088419340fa3d9b044c7b8b0d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:31 +0000
Subject: [PATCH 101/121] fix: detail/seed_impl.hpp: seeding an engine from a
 seed sequence compiles and reads the words the standard names

---
 sprout/random/detail/seed_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 03c93e2..acfba01 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -28,7 +28,7 @@ namespace sprout {
 				: public std::conditional<
 					m == 0,
 					sprout::integral_constant<int, sprout::numeric_limits<IntType>::digits>,
-					sprout::integral_constant<int, sprout::detail::static_log2<m>::value>
+					sprout::integral_constant<int, sprout::detail::static_log2<(m == 0 ? 1 : m)>::value>
 				>::type
 			{};
 			template<typename IntType, IntType m, int log>
@@ -39,7 +39,7 @@ namespace sprout {
 				>
 			{};
 
-			template<typename IntType, IntType m, int log, int k, typename Array>
+			template<typename IntType, IntType m, int k, typename Array>
 			inline SPROUT_CONSTEXPR IntType
 			seed_one_int_impl(Array const& arr, IntType s, int j) {
 				return j < k ? sprout::random::detail::seed_one_int_impl<IntType, m, k>(
@@ -60,7 +60,7 @@ namespace sprout {
 				typedef typename sprout::random::detail::seed_log<IntType, m>::type log_t;
 				typedef typename sprout::random::detail::seed_k<IntType, m, log_t::value>::type k_t;
 				return sprout::random::detail::seed_one_int_impl<IntType, m, k_t::value>(
-					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, log_t::value / 32 + 4> >()),
+					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, k_t::value + 3> >()),
 					0, 0
 					);
 			}
@@ -80,7 +80,7 @@ namespace sprout {
 				return s;
 			}
 
-			template<typename IntType, IntType m, int log, int k, typename InputIterator>
+			template<typename IntType, IntType m, int k, typename InputIterator>
 			inline SPROUT_CONSTEXPR IntType
 			get_one_int_impl(InputIterator first, InputIterator last, IntType s, int j) {
 				return j < k
-- 
2.43.0


From d8259e615f1ea8dec87b9fffd7545152a04c15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 102/121] fix: uniform_int_distribution: subtract the engine's
 minimum in the engine's own type

---
 sprout/random/uniform_int_distribution.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 62e9608..dd0aa41 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -48,7 +48,6 @@ namespace sprout {
 				if (range == 0) {
 					return min_value;
 				} else if (brange == range) {
-					base_unsigned v = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin);
 					return sprout::random::detail::add<base_unsigned, result_type>()(
 						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
 						min_value
-- 
2.43.0


From 7d8203c9648a6564efcd4b6fe3c59bdf9c7e91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 103/121] fix: uniform_int_distribution: results composed of
 several draws start at min

---
 sprout/random/uniform_int_distribution.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index dd0aa41..25c6486 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 						while (mult <= limit) {
 							result += static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) * mult);
 							if (mult * range_type(brange) == range - mult + 1) {
-								return result;
+								return sprout::random::detail::add<range_type, result_type>()(result, min_value);
 							}
 							mult *= range_type(brange) + range_type(1);
 						}
@@ -330,8 +330,11 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(
+								result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+								),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
@@ -646,8 +649,11 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(
+								result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+								),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
-- 
2.43.0


From de1b52f42f3d48ec250655c7d111bfff0c1d453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 104/121] fix: uniform_smallint: ranges taken in the engine's
 type

---
 sprout/random/uniform_smallint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/uniform_smallint.hpp b/sprout/random/uniform_smallint.hpp
index 30aca7e..d891736 100644
--- a/sprout/random/uniform_smallint.hpp
+++ b/sprout/random/uniform_smallint.hpp
@@ -102,11 +102,11 @@ namespace sprout {
 				typedef typename std::make_unsigned<base_result>::type base_unsigned;
 				typedef typename std::make_unsigned<result_type>::type range_type;
 				range_type range = sprout::random::detail::subtract<result_type>()(max_, min_);
-				base_unsigned base_range = sprout::random::detail::subtract<result_type>()(eng.max(), eng.min());
+				base_unsigned base_range = sprout::random::detail::subtract<base_result>()(eng.max(), eng.min());
 				base_unsigned val = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), eng.min());
 				return range >= base_range
 					? sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val), min_)
-					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_result>(range) + 1)), min_)
+					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_unsigned>(range) + 1)), min_)
 					;
 			}
 			template<typename Engine>
@@ -177,7 +177,7 @@ namespace sprout {
 					eng,
 					eng(),
 					range_type(sprout::random::detail::subtract<result_type>()(max_, min_)),
-					base_unsigned(sprout::random::detail::subtract<result_type>()(eng.max(), eng.min()))
+					base_unsigned(sprout::random::detail::subtract<base_result>()(eng.max(), eng.min()))
 					);
 			}
 			template<typename Engine, typename Random, typename RangeType>
-- 
2.43.0


From b06b9f8f63472a1b912330476972af75edba8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 105/121] fix: variate_generator: the copying call returns the
 generator's own engine and distribution

---
 sprout/random/variate_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index 986bb17..e37978a 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -47,7 +47,7 @@ namespace sprout {
 			>::type random_result_type;
 		private:
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::true_type) {
-				return random_result_type(g.distribution_(g.engine_), g.distribution_, g.engine_);
+				return random_result_type(g.distribution_(g.engine_), g.engine_, g.distribution_);
 			}
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::false_type) {
 				return g.distribution_(sprout::as_const(g.engine_));
-- 
2.43.0


From db7efbec9c0b1aaf4298483010bbbc8cf541ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 106/121] fix: generate_canonical: draw again when the result
 is 1, not 0

---
 sprout/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index 2b281b8..be73128 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -212,7 +212,7 @@ namespace sprout {
 			generate_canonical_check(sprout::pair<RealType, URNG> const& res) {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return SPROUT_ASSERT(res.first >= 0), SPROUT_ASSERT(res.first <= 1),
-					res.first == 0 ? generate_canonical_check_1(
+					res.first == 1 ? generate_canonical_check_1(
 							pair_type(res.first - sprout::numeric_limits<RealType>::epsilon() / 2, res.second)
 							)
 						: res
-- 
2.43.0


From e1ce896ff4511194edeab6dc35c394e1c49f4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 107/121] fix: uniform_int_distribution: add the offset in the
 result's width

---
 sprout/random/uniform_int_distribution.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 25c6486..9e89592 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -48,8 +48,8 @@ namespace sprout {
 				if (range == 0) {
 					return min_value;
 				} else if (brange == range) {
-					return sprout::random::detail::add<base_unsigned, result_type>()(
-						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
+					return sprout::random::detail::add<range_type, result_type>()(
+						static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
 						min_value
 						);
 				} else if (brange < range) {
@@ -104,7 +104,7 @@ namespace sprout {
 					for (; ; ) {
 						base_unsigned result = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) / bucket_size;
 						if (result <= static_cast<base_unsigned>(range)) {
-							return sprout::random::detail::add<base_unsigned, result_type>()(result, min_value);
+							return sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(result), min_value);
 						}
 					}
 				}
@@ -159,7 +159,7 @@ namespace sprout {
 				typedef T result_type;
 				return result <= static_cast<BaseUnsigned>(range)
 					? sprout::random::detail::generate_uniform_int_result<T, Engine>{
-						sprout::random::detail::add<BaseUnsigned, result_type>()(result, min_value),
+						sprout::random::detail::add<RangeType, result_type>()(static_cast<RangeType>(result), min_value),
 						eng
 						}
 					: sprout::random::detail::generate_uniform_int_true_3_1<D + 1>(
@@ -425,10 +425,10 @@ namespace sprout {
 				)
 			{
 				typedef T result_type;
-				typedef typename std::make_unsigned<BaseResult>::type base_unsigned;
+				typedef typename std::make_unsigned<T>::type range_type;
 				return sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-					sprout::random::detail::add<base_unsigned, result_type>()(
-						base_unsigned(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
+					sprout::random::detail::add<range_type, result_type>()(
+						static_cast<range_type>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
 						min_value
 						),
 					sprout::random::next(rnd)
@@ -545,7 +545,7 @@ namespace sprout {
 				typedef T result_type;
 				return result <= static_cast<BaseUnsigned>(range)
 					? sprout::random::detail::generate_uniform_int_result<T, Engine>{
-						sprout::random::detail::add<BaseUnsigned, result_type>()(result, min_value),
+						sprout::random::detail::add<RangeType, result_type>()(static_cast<RangeType>(result), min_value),
 						eng
 						}
 					: sprout::random::detail::generate_uniform_int_true_3_1(
@@ -716,10 +716,10 @@ namespace sprout {
 				)
 			{
 				typedef T result_type;
-				typedef typename std::make_unsigned<BaseResult>::type base_unsigned;
+				typedef typename std::make_unsigned<T>::type range_type;
 				return sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-					sprout::random::detail::add<base_unsigned, result_type>()(
-						base_unsigned(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
+					sprout::random::detail::add<range_type, result_type>()(
+						static_cast<range_type>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
 						min_value
 						),
 					sprout::random::next(rnd)
-- 
2.43.0


From 6b4b0299ce53056b6d8c012625b2c9fd2ff60f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 108/121] fix: uniform_int_distribution: engines narrower than
 the range

---
 sprout/random/uniform_int_distribution.hpp | 72 +++++++++++++---------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 9e89592..2c02cf1 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -187,7 +187,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1<D + 1>(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<int D, typename EngineResult, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -209,11 +209,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1<D + 1>(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
@@ -273,7 +275,9 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2<D + 1>(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4<D + 1>(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange,
+						static_cast<RangeType>(result + (result_increment * mult)),
+						static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -341,8 +345,10 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(
+							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+							),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -402,11 +408,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -564,7 +572,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -577,11 +585,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -617,7 +627,9 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange,
+						static_cast<RangeType>(result + (result_increment * mult)),
+						static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -660,8 +672,10 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(
+							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+							),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -702,11 +716,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<typename EngineResult, typename T, typename BaseResult>
-- 
2.43.0


From 3788df9d37cfc9de449d61eb96dbcd4ec132693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 109/121] fix: compressed_pair<T, Empty>: derive from the empty
 second type

---
 sprout/compressed_pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/compressed_pair.hpp b/sprout/compressed_pair.hpp
index 95e1afd..e0c93e1 100644
--- a/sprout/compressed_pair.hpp
+++ b/sprout/compressed_pair.hpp
@@ -145,7 +145,7 @@ namespace sprout {
 		};
 		template<typename T1, typename T2>
 		class compressed_pair_impl<T1, T2, 2>
-			: protected std::remove_cv<T1>::type
+			: protected std::remove_cv<T2>::type
 		{
 		public:
 			typedef T1 first_type;
-- 
2.43.0


From 474ba130b9c33e67d4a9ecead50bd98af28b73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 110/121] fix: pair = tuple assigns second from the second
 element

---
 sprout/utility/pair/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index a72ff99..28e79f9 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR sprout::pair<T1, T2>& sprout::pair<T1, T2>::operator=(sprout::tuples::tuple<U, V> const& rhs) {
 		first = sprout::tuples::get<0>(rhs);
-		second = sprout::tuples::get<0>(rhs);
+		second = sprout::tuples::get<1>(rhs);
 		return *this;
 	}
 	template<typename T1, typename T2>
-- 
2.43.0


From 6c3a8215b33156b15174371c5d946a2abe352c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 111/121] fix: tuple assignment from an lvalue tuple of
 references does not move from the referents

---
 sprout/tuple/tuple/tuple_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index 4110cdf..addb79b 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -297,7 +297,7 @@ namespace sprout {
 			SPROUT_CXX14_CONSTEXPR void
 			assign_impl(Tuple&& t, sprout::index_tuple<Indexes...>) {
 				typedef typename std::decay<Tuple>::type type;
-				sprout::swallow({((base_type::template get<Indexes>(*this) = sprout::move(type::template get<Indexes>(SPROUT_FORWARD(Tuple, t)))), 0)...});
+				sprout::swallow({((base_type::template get<Indexes>(*this) = type::template get<Indexes>(SPROUT_FORWARD(Tuple, t))), 0)...});
 			}
 			template<sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR std::tuple<Types...>
-- 
2.43.0


From ef909899a08df7619fe7ac720148ecad7b20bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 112/121] fix: hash_combine with no values

---
 sprout/functional/hash/hash_combine.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sprout/functional/hash/hash_combine.hpp b/sprout/functional/hash/hash_combine.hpp
index 6a9ae81..793a48e 100644
--- a/sprout/functional/hash/hash_combine.hpp
+++ b/sprout/functional/hash/hash_combine.hpp
@@ -15,7 +15,6 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename T>
 		inline SPROUT_CONSTEXPR std::size_t
 		hash_combine_impl(std::size_t seed) {
 			return seed;
-- 
2.43.0


From 7ec4a5a73504dcb22e63a817a946c8cf95629605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 113/121] fix: invoke: member pointers applied through a
 pointer

---
 sprout/type_traits/detail/invoke.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/detail/invoke.hpp b/sprout/type_traits/detail/invoke.hpp
index 9f80fce..046a9bc 100644
--- a/sprout/type_traits/detail/invoke.hpp
+++ b/sprout/type_traits/detail/invoke.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		template<typename PMD, typename Pointer>
 		inline SPROUT_CONSTEXPR decltype((*std::declval<Pointer>()).*(std::declval<PMD>()))
 		invoke(PMD&& pmd, Pointer&& ptr) SPROUT_NOEXCEPT_IF_EXPR((*std::declval<Pointer>()).*(std::declval<PMD>())) {
-			return SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMD, pmd));
+			return (*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMD, pmd));
 		}
 
 		template<typename Base, typename T, typename Derived, typename... Args>
@@ -44,7 +44,7 @@ namespace sprout {
 		template<typename PMF, typename Pointer, typename... Args>
 		inline SPROUT_CONSTEXPR decltype(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...))
 		invoke(PMF&& pmf, Pointer&& ptr, Args&&... args) SPROUT_NOEXCEPT_IF_EXPR(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...)) {
-			return (SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
+			return ((*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
 		}
 
 		template<typename R, typename F, typename... Args>
-- 
2.43.0


From 9ac0b36a360bafb2e1536918ec143be585ff432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 114/121] fix: floor, ceil, ifloor and iceil without the
 builtins compare exactly: floor(-1e-20) was -0, ceil(1e-20) was 0

---
 sprout/math/ceil.hpp   | 2 +-
 sprout/math/floor.hpp  | 2 +-
 sprout/math/iceil.hpp  | 2 +-
 sprout/math/ifloor.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index a72c3c2..b5785dc 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ceil_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 + T(1)
 					;
 			}
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b018752..5a4a150 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			floor_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 - T(1)
 					;
 			}
diff --git a/sprout/math/iceil.hpp b/sprout/math/iceil.hpp
index 86def99..fefc48e 100644
--- a/sprout/math/iceil.hpp
+++ b/sprout/math/iceil.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			iceil_impl(FloatType x, To x0) {
-				return sprout::math::less_equal(x, x0) ? x0
+				return x <= x0 ? x0
 					: x0 + 1
 					;
 			}
diff --git a/sprout/math/ifloor.hpp b/sprout/math/ifloor.hpp
index a664fc8..570005f 100644
--- a/sprout/math/ifloor.hpp
+++ b/sprout/math/ifloor.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			ifloor_impl(FloatType x, To x0) {
-				return sprout::math::greater_equal(x, x0) ? x0
+				return x >= x0 ? x0
 					: x0 - 1
 					;
 			}
-- 
2.43.0


From 642db0f4a9859633732bf1210616552bff0431a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 115/121] fix: floor, ceil, trunc and round without the
 builtins do not convert 2^64 to uintmax_t

---
 sprout/math/ceil.hpp  | 2 +-
 sprout/math/floor.hpp | 2 +-
 sprout/math/round.hpp | 2 +-
 sprout/math/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index b5785dc..2c49738 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_ceil(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("ceil: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::ceil_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index 5a4a150..520e90f 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_floor(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("floor: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::floor_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/round.hpp b/sprout/math/round.hpp
index 1d2a361..ea8e9d7 100644
--- a/sprout/math/round.hpp
+++ b/sprout/math/round.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_round(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("round: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::round_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/trunc.hpp b/sprout/math/trunc.hpp
index 80eaba3..291ef4c 100644
--- a/sprout/math/trunc.hpp
+++ b/sprout/math/trunc.hpp
@@ -51,7 +51,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_trunc(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("trunc: large float rounding."), x)
 				: x < 0 ? -static_cast<FloatType>(static_cast<std::uintmax_t>(-x))
 				: static_cast<FloatType>(static_cast<std::uintmax_t>(x))
-- 
2.43.0


From 45b1adf8295ca4b95c1234a8df2709a5b67667d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 116/121] fix: islessequal without the builtins is true for
 equal numbers

---
 sprout/math/islessequal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/islessequal.hpp b/sprout/math/islessequal.hpp
index 0f9896a..8e0d6d9 100644
--- a/sprout/math/islessequal.hpp
+++ b/sprout/math/islessequal.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				sprout::math::detail::builtin_islessequal(x, y)
 #else
-				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x < y)
+				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x <= y)
 #endif
 				;
 		}
-- 
2.43.0


From 568666fa1634e5c31c5ddcdd1ff56f462c3e725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 117/121] fix: fdim(inf, inf) is 0

---
 sprout/math/fdim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/fdim.hpp b/sprout/math/fdim.hpp
index 29cb58a..48dfff9 100644
--- a/sprout/math/fdim.hpp
+++ b/sprout/math/fdim.hpp
@@ -45,9 +45,9 @@ namespace sprout {
 		fdim(FloatType x, FloatType y) {
 			return sprout::math::isnan(y) ? y
 				: sprout::math::isnan(x) ? x
+				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
-				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == -sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				: sprout::math::detail::builtin_fdim(x, y)
-- 
2.43.0


From 67ecab0e672511235bfb8d266a658bea581e3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 118/121] fix: issubnormal, isnormal and fpclassify use the
 limits of the type they are given, not of double

---
 sprout/math/issubnormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/issubnormal.hpp b/sprout/math/issubnormal.hpp
index 5cf7230..2f60a1e 100644
--- a/sprout/math/issubnormal.hpp
+++ b/sprout/math/issubnormal.hpp
@@ -28,8 +28,8 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR bool
 			issubnormal_or_zero(FloatType x) {
 				return x > 0
-					? x < sprout::numeric_limits<double>::min()
-					: x > -sprout::numeric_limits<double>::min()
+					? x < sprout::numeric_limits<FloatType>::min()
+					: x > -sprout::numeric_limits<FloatType>::min()
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 9c010d19e81f02cba40439cfd1b9eb200e536d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 119/121] fix: lround and llround of an integer argument
 compile

---
 sprout/math/llround.hpp | 2 +-
 sprout/math/lround.hpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/llround.hpp b/sprout/math/llround.hpp
index 660fc75..3aca469 100644
--- a/sprout/math/llround.hpp
+++ b/sprout/math/llround.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		llround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_llround(x)
+				sprout::math::detail::builtin_llround(static_cast<double>(x))
 #else
 				sprout::math::iround<long long>(x)
 #endif
diff --git a/sprout/math/lround.hpp b/sprout/math/lround.hpp
index e2d42ca..7458ded 100644
--- a/sprout/math/lround.hpp
+++ b/sprout/math/lround.hpp
@@ -48,7 +48,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				: sprout::math::detail::builtin_lround(x)
 #else
-				: sprout::math::iround<long>(x);
+				: sprout::math::iround<long>(x)
 #endif
 				;
 		}
@@ -60,7 +60,7 @@ namespace sprout {
 		lround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_lround(x)
+				sprout::math::detail::builtin_lround(static_cast<double>(x))
 #else
 				sprout::math::iround<long>(x)
 #endif
-- 
2.43.0


From 06730cb705a657e0d57c21bb5d933f19449b8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 120/121] fix: float_sig_exp and float2_sig_exp of the largest
 numbers (0) and of subnormal numbers (inf)

---
 sprout/math/float2_sig_exp.hpp | 2 +-
 sprout/math/float_sig_exp.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/float2_sig_exp.hpp b/sprout/math/float2_sig_exp.hpp
index ccb3e85..c4f71d6 100644
--- a/sprout/math/float2_sig_exp.hpp
+++ b/sprout/math/float2_sig_exp.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float2_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(2), exp), exp);
+				return type(x / sprout::detail::pow_n(T(2), exp / 2) / sprout::detail::pow_n(T(2), exp - exp / 2), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float_sig_exp.hpp b/sprout/math/float_sig_exp.hpp
index 4f42b5a..7927632 100644
--- a/sprout/math/float_sig_exp.hpp
+++ b/sprout/math/float_sig_exp.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp), exp);
+				return type(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp / 2) / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp - exp / 2), exp);
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 4ec68370a708bcc383fbb2e76c8ffb556150fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:15 +0000
Subject: [PATCH 121/121] fix: float_significand and float2_significand of the
 largest numbers (0) and of subnormal numbers (inf)

---
 sprout/math/float2_significand.hpp | 3 ++-
 sprout/math/float_significand.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/math/float2_significand.hpp b/sprout/math/float2_significand.hpp
index c3098eb..9b8ffbc 100644
--- a/sprout/math/float2_significand.hpp
+++ b/sprout/math/float2_significand.hpp
@@ -32,7 +32,8 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x))
+				: x / sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x) / 2)
+					/ sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x) - sprout::float2_exponent(x) / 2)
 				;
 		}
 		template<
diff --git a/sprout/math/float_significand.hpp b/sprout/math/float_significand.hpp
index 0d7f7ff..5cda041 100644
--- a/sprout/math/float_significand.hpp
+++ b/sprout/math/float_significand.hpp
@@ -32,7 +32,8 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x))
+				: x / sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x) / 2)
+					/ sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x) - sprout::float_exponent(x) / 2)
 				;
 		}
 		template<
-- 
2.43.0

