From f116478dc4514c9e071e4d65e630d6fd437b7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 01/20] fix: search_all and tokenize must not yield the same
 empty match for ever

---
 include/ctre/iterators.hpp | 16 ++++++++++++++--
 include/ctre/wrapper.hpp   |  3 +++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 7964914..09522ed 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -44,12 +44,24 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return current_match;
 	}
 	constexpr CTRE_FORCE_INLINE regex_iterator & operator++() noexcept {
-		if (current == end) {
+		if (!current_match || current == end) {
 			current_match = decltype(current_match){};
 			return *this;
 		}
 		
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		auto position = current;
+		
+		// an empty match would be found again at the same position
+		if (current_match.template get<0>().begin() == current_match.template get<0>().end()) {
+			if constexpr (RE::is_contiguous) {
+				current_match = decltype(current_match){};
+				return *this;
+			} else {
+				++position;
+			}
+		}
+		
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, position, end);
 		
 		if (current_match) {
 			current = current_match.template get<0>().end();
diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index b31becf..82f90e1 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -160,6 +160,9 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 	constexpr CTRE_FORCE_INLINE regular_expression() noexcept { }
 	constexpr CTRE_FORCE_INLINE regular_expression(RE) noexcept { }
 
+	// next match must start where the previous one ended (tokenize)
+	static constexpr bool is_contiguous = std::is_same_v<Method, starts_with_method>;
+
 	template <typename ResultIterator, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec_with_result_iterator(IteratorBegin orig_begin, IteratorBegin begin, IteratorEnd end) noexcept {
 		return Method::template exec<Modifier, ResultIterator>(orig_begin, begin, end, RE{});
 	}
-- 
2.43.0


From 944c672d865a60f5a8f494d1a1e1e34b84e2f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 02/20] fix: split must end and keep the rest of the subject
 with empty or anchored delimiters

---
 include/ctre/iterators.hpp | 54 +++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 09522ed..83b8da5 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -126,23 +126,53 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
+		// the end is there set by search_method, but an anchored pattern is not searched till the end
+		auto rest_end = current;
+		rest_end = current_match.get_end_position();
+		while (!(rest_end == end)) ++rest_end;
+		
+		current_match = value_type{};
 		current_match.set_start_mark(current);
+		current_match.set_end_mark(rest_end);
 		current_match.matched();
-		current = current_match.template get<0>().end();
+		current = rest_end;
 		last_match = true;
 	}
+	
+	constexpr CTRE_FORCE_INLINE bool is_empty_match() const noexcept {
+		return current_match.template get<0>().begin() == current_match.template get<0>().end();
+	}
+	
+	constexpr CTRE_FORCE_INLINE void find_next() {
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		
+		if (current_match && is_empty_match() && current != end && current_match.template get<0>().begin() == current) {
+			// an empty match at the beginning of a piece doesn't delimit anything
+			auto position = current;
+			++position;
+			current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, position, end);
+		}
+		
+		if (current_match) {
+			auto match_end = current;
+			match_end = current_match.get_end_position();
+			
+			// neither does one at the end of the subject
+			if (!(is_empty_match() && match_end == end)) {
+				modify_match();
+				return;
+			}
+		}
+		
+		match_rest();
+	}
 
 	constexpr CTRE_FORCE_INLINE regex_split_iterator() noexcept = default;
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(const regex_split_iterator &) noexcept = default;
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(regex_split_iterator &&) noexcept = default;
 
-	constexpr CTRE_FORCE_INLINE regex_split_iterator(BeginIterator begin, EndIterator last) noexcept: orig_begin{begin}, current{begin}, end{last}, current_match{RE::template exec_with_result_iterator<ResultIterator>(current, last)} {
-		if (current_match) {
-			modify_match();
-		} else {
-			match_rest();
-		}
+	constexpr CTRE_FORCE_INLINE regex_split_iterator(BeginIterator begin, EndIterator last) noexcept: orig_begin{begin}, current{begin}, end{last}, current_match{} {
+		find_next();
 	}
 	
 	constexpr CTRE_FORCE_INLINE regex_split_iterator & operator=(const regex_split_iterator &) noexcept = default;
@@ -157,13 +187,7 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 	
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
-	
-		if (current_match) {
-			modify_match();
-		} else {
-			match_rest();
-		}
+		find_next();
 		return *this;
 	}
 	constexpr CTRE_FORCE_INLINE regex_split_iterator operator++(int) noexcept {
-- 
2.43.0


From 500640ef2610b7c1319ef37ce2f600555a46a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 03/20] fix: iterators at different steps of one range must not
 compare equal

---
 include/ctre/iterators.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 83b8da5..3c0fde1 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -74,10 +74,11 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) == bool(right.current_match);
+		return left.current == right.current && left.current_match.begin() == right.current_match.begin();
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
@@ -196,10 +197,11 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) == bool(right.current_match);
+		return left.current == right.current && left.current_match.begin() == right.current_match.begin();
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
-- 
2.43.0


From 0faccbb1d62a3bd0d77b374ca7ea16faaaf27160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 04/20] fix: comparison of the end with a multi-subject
 iterator was inverted

---
 include/ctre/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index d1412c3..b75227f 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -114,7 +114,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From 13b55b96bbc1a664635989c4c8b223aac61da4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 05/20] fix: UTF-8 stepping must stay inside of a truncated or
 malformed text

---
 include/ctre/utf8.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 6dfa027..e48cc9b 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -60,6 +60,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr};
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -121,7 +122,14 @@ struct utf8_iterator {
 		// & 0b11u  selects only needed two bits
 		// +1  because each iteration is at least one code unit forward
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		const unsigned length = static_cast<unsigned>((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		
+		// don't step over the end if the last sequence is truncated
+		if (end - ptr > static_cast<int>(length)) {
+			ptr += length;
+		} else {
+			ptr = end;
+		}
 		return *this;
 	}
 	
@@ -132,7 +140,8 @@ struct utf8_iterator {
 			--ptr;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
+		// don't step before the begin if the first sequence is malformed
+		while (ptr != begin && (*ptr & 0b11000000u) == 0b10'000000) {
 			--ptr;
 		}
 		
@@ -236,7 +245,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
-- 
2.43.0


From f4df2072a66cba078b7a6a776dbe77e81d9be4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 06/20] fix: evaluation of a repeat must not cycle on empty
 content

The flag which blocks empty cycles was cleared by a nested repeat even when
that repeat consumed nothing. Mandatory cycles may be empty.
---
 include/ctre/evaluation.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7e9f0e4..b1e3149 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -280,6 +280,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		while (less_than<A>(i)) {
 			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
+			// mandatory cycle can be empty
+			if (!outer_result) outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 			if (!outer_result) return not_matched;
 		
 			captures = outer_result.unmatch();
@@ -329,7 +331,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
-				return not_matched;
+				
+				// mandatory cycle can be empty
+				inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
+				if (!inner_result) return not_matched;
 			}
 		
 			captures = inner_result.unmatch();
@@ -360,21 +365,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -395,10 +400,14 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 #endif
 	else {
 		// A..B
+		const Iterator backup_current = current;
+		
 		size_t i{0};
 		while (less_than<A>(i)) {
 			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
+			// mandatory cycle can be empty
+			if (!inner_result) inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 			if (!inner_result) return not_matched;
 		
 			captures = inner_result.unmatch();
@@ -409,10 +418,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
-- 
2.43.0


From 0867453be031f137728672813c26b3c90f44fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 07/20] fix: a repeat which can be skipped doesn't anchor the
 pattern

---
 include/ctre/starts_with_anchor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 62c28b9..ae587c7 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -55,19 +55,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
-- 
2.43.0


From 60640017a770e0fb94cc8bc15809fcbed04dbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 08/20] fix: \B must be the negation of \b

---
 include/ctre/actions/boundaries.inc.hpp | 2 +-
 include/ctre/first.hpp                  | 6 ++++++
 include/ctre/starts_with_anchor.hpp     | 6 ++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/boundaries.inc.hpp b/include/ctre/actions/boundaries.inc.hpp
index 097bc9d..aa84780 100644
--- a/include/ctre/actions/boundaries.inc.hpp
+++ b/include/ctre/actions/boundaries.inc.hpp
@@ -8,7 +8,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index bc54b76..fea9163 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -51,6 +51,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index ae587c7..70bd7aa 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -28,6 +28,12 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	// check if all options starts with anchor or if they are empty, there is an anchor behind them
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-- 
2.43.0


From ff4240845501c35c27e2a8b3fdcaaf0efd603dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 09/20] fix: multiline ^ must not step a forward iterator past
 the subject

std::prev of a forward iterator increments it for ever. The preceding
position is now found from the begin.
---
 include/ctre/evaluation.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index b1e3149..3976807 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -185,12 +185,23 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 }
 
+// position just before current (which is not the begin), a forward iterator must be walked there from the begin
+template <typename BeginIterator, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator previous_position([[maybe_unused]] const BeginIterator begin, const Iterator current) noexcept {
+	if constexpr (is_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{})) {
+		return std::prev(current);
+	} else {
+		Iterator previous = begin;
+		for (Iterator it = begin; it != current; ++it) previous = it;
+		return previous;
+	}
+}
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_line_begin, Tail...>) noexcept {
 	if (multiline_mode(f)) {
 		if (begin == current) {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
-		} else if (*std::prev(current) == '\n') {
+		} else if (*previous_position(begin, current) == '\n') {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 		} else {
 			return not_matched;
-- 
2.43.0


From 16c3cccdf0a2ded9787be39f6284b149c1987117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 10/20] fix: lazy repeat must continue with the iterator of the
 subject, not of the result

On UTF-8 subjects the rest of the pattern was matched code unit by code
unit and the end was looked for as a terminating zero.
---
 include/ctre/evaluation.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 3976807..ab61c60 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -310,15 +310,16 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			// assigned, because the result doesn't have to use the iterator of the subject (UTF-8)
+			captures = inner_result.unmatch();
+			current = inner_result.get_end_position();
+		
+			auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
 		
 			if (outer_result) {
 				return outer_result;
 			}
 		
-			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
-		
 			++i;
 		}
 	
-- 
2.43.0


From abc1ee4b164301cc629df3da5351d612c303d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 11/20] fix: a group with more than one mode switch, (?im),
 lost all but the last

---
 include/ctre/actions/mode.inc.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/actions/mode.inc.hpp b/include/ctre/actions/mode.inc.hpp
index d4e612b..ed843a5 100644
--- a/include/ctre/actions/mode.inc.hpp
+++ b/include/ctre/actions/mode.inc.hpp
@@ -10,6 +10,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more modes in one group: (?im)
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<mode_switch<Previous>...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
-- 
2.43.0


From 065252876818e880a3ebed42b4657c4f00ba2b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 12/20] fix: a repeat is not possessive when what follows
 differs in case only and case is ignored

---
 include/ctre/evaluation.hpp |  8 +++++++-
 include/ctre/first.hpp      | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index ab61c60..70ef53b 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -406,11 +406,17 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...), true)) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
+#ifndef CTRE_DISABLE_GREEDY_OPT
+		// they differ only in case
+		if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			if (!is_case_insensitive(f)) return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+		}
+#endif
 		// A..B
 		const Iterator backup_current = current;
 		
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index fea9163..7798ee1 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -406,6 +406,7 @@ template <size_t Capacity> class point_set {
 	};
 	point points[Capacity+1]{};
 	size_t used{0};
+	bool ignore_case{false};
 	constexpr point * begin() {
 		return points;
 	}
@@ -464,11 +465,21 @@ template <size_t Capacity> class point_set {
 	}
 public:
 	constexpr point_set() { }
+	constexpr explicit point_set(bool ignore): ignore_case{ignore} { }
 	constexpr void insert(int64_t low, int64_t high) {
 		insert_point(low, high);
 		//insert_point(high, low);
 	}
 	constexpr bool check(int64_t low, int64_t high) {
+		return overlaps(low, high) || (ignore_case && (overlaps_shifted(low, high, 'a', 'z', 'A' - 'a') || overlaps_shifted(low, high, 'A', 'Z', 'a' - 'A')));
+	}
+	// letters of the range in their other case
+	constexpr bool overlaps_shifted(int64_t low, int64_t high, int64_t first, int64_t last, int64_t distance) {
+		if (low < first) low = first;
+		if (high > last) high = last;
+		return low <= high && overlaps(low + distance, high + distance);
+	}
+	constexpr bool overlaps(int64_t low, int64_t high) {
 		for (const auto & r: *this) {
 			if (r.low <= low && low <= r.high) {
 				return true;
@@ -545,10 +556,10 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
+template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs, bool ignore_case = false) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set;
+	point_set<capacity> set{ignore_case};
 	set.populate(rhs);
 	
 	return set.check(lhs);
-- 
2.43.0


From ae4ed835a851ea5f156f1b05bdf8d54b97218c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 13/20] fix: a repeat followed by an assertion which is not an
 end is not possessive

---
 include/ctre/first.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 7798ee1..0a8c6b1 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -47,20 +47,23 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 
 // boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<boundary<CharLike>, Tail...>) noexcept {
+	// it can hold after fewer cycles of what precedes it
+	return ctll::list<can_be_anything>{};
 }
 
 // not boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	// it can hold after fewer cycles of what precedes it
+	return ctll::list<can_be_anything>{};
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_begin, Tail...>) noexcept {
+	// it can hold after fewer cycles of what precedes it
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -75,9 +78,9 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_lin
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
-	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
+	// it can hold after fewer cycles of what precedes it
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
-- 
2.43.0


From f3297664d1266ab8e6379e159379fc3feafbb234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 14/20] fix: fusion of possessive repeats in front of a
 sequence swapped them

---
 include/ctre/actions/fusion.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bccb20b..bd77e16 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -62,7 +62,7 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
-- 
2.43.0


From 1df8b9cdbb868579bca10a302da7e7f4228a96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 15/20] fix: a repeat before a line end is not possessive in
 multiline mode when it can match a new-line

---
 include/ctre/evaluation.hpp | 13 +++++++----
 include/ctre/first.hpp      | 43 ++++++++++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 70ef53b..7400bc4 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -406,15 +406,20 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...), true)) {
+	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...), true, false) && !collides(calculate_first(Content{}...), calculate_first(Tail{}...), true, true)) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
 #ifndef CTRE_DISABLE_GREEDY_OPT
-		// they differ only in case
-		if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
-			if (!is_case_insensitive(f)) return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+		// they are exclusive in some of the modes only
+		constexpr bool exact_case = collides(calculate_first(Content{}...), calculate_first(Tail{}...), false, false);
+		constexpr bool exact_case_in_lines = collides(calculate_first(Content{}...), calculate_first(Tail{}...), false, true);
+		if constexpr (!exact_case || !exact_case_in_lines) {
+			constexpr bool any_case = collides(calculate_first(Content{}...), calculate_first(Tail{}...), true, false);
+			constexpr bool any_case_in_lines = collides(calculate_first(Content{}...), calculate_first(Tail{}...), true, true);
+			const bool collision = is_case_insensitive(f) ? (multiline_mode(f) ? any_case_in_lines : any_case) : (multiline_mode(f) ? exact_case_in_lines : exact_case);
+			if (!collision) return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 		}
 #endif
 		// A..B
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 0a8c6b1..ca596e7 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -7,6 +7,9 @@
 namespace ctre {
 	
 struct can_be_anything {};
+
+// the end of a line, which is followed by a new-line (or by nothing)
+struct can_be_line_end {};
 	
 
 template <typename... Content> 
@@ -72,9 +75,8 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -84,9 +86,8 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail.
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 // sequence
@@ -286,7 +287,7 @@ constexpr auto first(ctll::list<Content...>, ctll::list<char_range<A,B>, Tail...
 
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...>, ctll::list<any, Tail...>) noexcept {
-	return ctll::list<can_be_anything>{};
+	return ctll::list<Content..., any>{};
 }
 
 // negative
@@ -316,6 +317,10 @@ template <auto... V> constexpr size_t calculate_size_of_first(ctre::enumeration<
 	return sizeof...(V);
 }
 
+constexpr size_t calculate_size_of_first(any) {
+	return 2;
+}
+
 constexpr size_t calculate_size_of_first(...) {
 	return 1;
 }
@@ -410,6 +415,7 @@ template <size_t Capacity> class point_set {
 	point points[Capacity+1]{};
 	size_t used{0};
 	bool ignore_case{false};
+	bool multiline{false};
 	constexpr point * begin() {
 		return points;
 	}
@@ -468,7 +474,7 @@ template <size_t Capacity> class point_set {
 	}
 public:
 	constexpr point_set() { }
-	constexpr explicit point_set(bool ignore): ignore_case{ignore} { }
+	constexpr explicit point_set(bool ignore, bool lines): ignore_case{ignore}, multiline{lines} { }
 	constexpr void insert(int64_t low, int64_t high) {
 		insert_point(low, high);
 		//insert_point(high, low);
@@ -507,6 +513,12 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	constexpr bool check(any) {
+		return multiline ? check((std::numeric_limits<int64_t>::min)(), '\n' - 1) || check('\n' + 1, (std::numeric_limits<int64_t>::max)()) : check(can_be_anything{});
+	}
+	constexpr bool check(can_be_line_end) {
+		return multiline && check('\n', '\n');
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
@@ -541,6 +553,17 @@ public:
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
 	}
+	constexpr void populate(any) {
+		if (multiline) {
+			insert((std::numeric_limits<int64_t>::min)(), '\n' - 1);
+			insert('\n' + 1, (std::numeric_limits<int64_t>::max)());
+		} else {
+			populate(can_be_anything{});
+		}
+	}
+	constexpr void populate(can_be_line_end) {
+		insert('\n', '\n');
+	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
 		points[0].high = (std::numeric_limits<int64_t>::max)();
@@ -559,10 +582,10 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs, bool ignore_case = false) {
+template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs, bool ignore_case = false, bool multiline = false) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set{ignore_case};
+	point_set<capacity> set{ignore_case, multiline};
 	set.populate(rhs);
 	
 	return set.check(lhs);
-- 
2.43.0


From 9eb652a405fbc0316fa0f1354befa78b4fdfef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 16/20] fix: a back reference ignores case where the pattern
 does

---
 include/ctre/evaluation.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7400bc4..991d07a 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -474,9 +474,14 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename CharT> constexpr CTRE_FORCE_INLINE bool is_same_character(CharT a, CharT b, [[maybe_unused]] const flags & f) noexcept {
+	if (a == b) return true;
+	return is_case_insensitive(f) && is_ascii_alpha(a) && static_cast<CharT>(a ^ static_cast<CharT>(0x20)) == b;
+}
+
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (is_same_character(*current, *range_current, f)) {
 			current++;
 			range_current++;
 		} else {
-- 
2.43.0


From 45cf5b90338844d29998ab0ed17d7d9e01a1722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 17/20] fix: a failed search gives an empty result, not one
 which starts nowhere and ends in the subject

Converting it to a view gave a view of the address space from zero, and
converting it to a string terminated the program.
---
 include/ctre/wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index 82f90e1..228a3f9 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -96,7 +96,8 @@ struct search_method {
 
 		// ALERT: ugly hack
 		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// and the start with it, so the unmatched result is still an empty range
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
-- 
2.43.0


From 4ff14e4d2e2f930466e1b7882c3a123f7d51ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 18/20] fix: properties kept in flat tables, \p{Pd} of '-',
 were searched for as if these were sorted

---
 include/unicode-db/unicode-db.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 385576b..61d4af1 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -282,17 +282,12 @@ template<std::size_t size>
 struct flat_array {
     char32_t data[size];
     constexpr bool lookup(char32_t u) const {
-        if constexpr(size < 20) {
-            for(auto it = std::begin(data); it != std::end(data); ++it) {
-                if(*it == u)
-                    return true;
-                if(it == std::end(data))
-                    return false;
-            }
-            return false;
-        } else {
-            return detail::binary_search(std::begin(data), std::end(data), u);
+        // not sorted
+        for(auto it = std::begin(data); it != std::end(data); ++it) {
+            if(*it == u)
+                return true;
         }
+        return false;
     }
 };
 
-- 
2.43.0


From 85f2b507edcb44d71961535d329e98e53a59d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:11 +0000
Subject: [PATCH 19/20] fix: (?i)[X-^] did not match the lower case of its
 letters, only ranges bounded by letters did

---
 include/ctre/atoms_characters.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index ed9e66e..679f902 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -66,18 +66,14 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
+		// the range doesn't need to have letters as its bounds, [X-^] contains X, Y and Z
+		if constexpr ((A <= 'Z' && B >= 'A') || (A <= 'z' && B >= 'a')) {
+			if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+				const CharT other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+				if (other_case >= A && other_case <= B) {
 					return true;//
 				}
-			}	
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
-- 
2.43.0


From ebec9f182978a2434b59fa3b5c5f03b4c19c45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 20/20] fix: a std::u8string was matched by code units, unlike
 a view of it

---
 include/ctre/wrapper.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index 228a3f9..5a17878 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -203,7 +203,15 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 		return exec(sv.begin(), sv.end());
 	}
 	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
-		return exec(std::begin(range), std::end(range));
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		// UTF-8 text in a std::u8string is the same subject as a view of it
+		if constexpr (std::is_convertible_v<Range, std::u8string_view>) {
+			return exec(static_cast<std::u8string_view>(range));
+		} else
+#endif
+		{
+			return exec(std::begin(range), std::end(range));
+		}
 	}
 
 	// another api
-- 
2.43.0

