From 8b16718ba3c00ae7c673d07fbf710fc36cdfa9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 01/10] fix: choice: look up duplicate alternative types by
 their position among the distinct types

---
 include/k3/tok3n/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index e4368af..4570917 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -87,7 +87,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, std::index_sequence_for<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
@@ -107,7 +107,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, std::index_sequence_for<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
-- 
2.43.0


From 727328f9bfc39da7cdfe596cf20b0879d8335bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 02/10] fix: result: a converted result carries the converted
 value and never turns a failure into a success

---
 include/k3/tok3n/detail/result.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 863c4b2..09829e0 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -32,11 +32,19 @@ public:
 
 	template <class T2>
 	constexpr result(const result<T2, U>& other)
-		: _result(other._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*other._result);
+	}
 
 	template <class T2>
 	constexpr result(result<T2, U>&& other)
-		: _result(std::move(other)._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*std::move(other)._result);
+	}
 
 	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }
 	constexpr bool has_value() const noexcept         { return _result.has_value(); }
-- 
2.43.0


From 354a55533c60d1f15ef2aff8bc23eefa5b9e47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 03/10] fix: sub: descend into named parsers whose name has a
 different character type

---
 include/k3/tok3n/detail/modifiers/sub.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/k3/tok3n/detail/modifiers/sub.h b/include/k3/tok3n/detail/modifiers/sub.h
index a496abd..ca3fb71 100644
--- a/include/k3/tok3n/detail/modifiers/sub.h
+++ b/include/k3/tok3n/detail/modifiers/sub.h
@@ -27,7 +27,6 @@ struct substitute_one<named_parser<P, str>, Sub>
 };
 
 template <parser P, static_array str, substitution Sub>
-requires (Sub::name != str)
 struct substitute_one<named_parser<P, str>, Sub>
 {
 	using type = named_parser<typename substitute_one<P, Sub>::type, str>;
-- 
2.43.0


From 8e6cd8f7607903f0e4a13121ce59cd1eaf8c2b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 04/10] fix: result: initialise a default-constructed void
 result

---
 include/k3/tok3n/detail/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 09829e0..a3fa3d2 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -91,7 +91,7 @@ public:
 	constexpr input_span<U> remaining() const noexcept { return _remaining; }
 
 private:
-	bool _successful;
+	bool _successful = false;
 	input_span<U> _remaining;
 };
 
-- 
2.43.0


From 91a35d1a14a7babcc0f49acd553edebcbeb215ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 05/10] fix: span: take all elements of a character array
 except its terminator

---
 include/k3/tok3n/detail/span.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 7a1e351..45e7e7e 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -77,13 +77,15 @@ public:
 		: _value(value)
 	{}
 	
-	constexpr span(const T* data)
-		: _value(std::basic_string_view<T>(data))
+	template <class P>
+	requires std::is_pointer_v<std::remove_cvref_t<P>> and std::convertible_to<P, const T*>
+	constexpr span(P&& data) // A template, so that it isn't preferred over the constructor from an array
+		: _value(std::basic_string_view<T>(static_cast<const T*>(data)))
 	{}
 
 	template <std::size_t N>
 	constexpr span(const T(&arr)[N])
-		: _value(arr, N - 1)
+		: _value(arr, arr[N - 1] == T{} ? N - 1 : N) // Only the terminator is left out, if there is one
 	{}
 
 	constexpr operator std::basic_string_view<T>() const
@@ -141,7 +143,11 @@ struct span_equal_to
 	requires (not impl::is_span<std::remove_cvref_t<RHS>>)
 	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, RHS&& rhs)
 	{
-		if constexpr (std::is_bounded_array_v<std::remove_cvref_t<RHS>> or std::is_pointer_v<std::remove_cvref_t<RHS>>)
+		if constexpr (std::is_bounded_array_v<std::remove_reference_t<RHS>> and std::is_const_v<std::remove_reference_t<RHS>>)
+		{
+			return operator()(lhs, span<T>(rhs)); // The same elements as when parsing this array
+		}
+		else if constexpr (std::is_bounded_array_v<std::remove_cvref_t<RHS>> or std::is_pointer_v<std::remove_cvref_t<RHS>>)
 		{
 			return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(std::forward<RHS>(rhs));
 		}
-- 
2.43.0


From 9a6b0611496c3be4f53774465a59ad987e7a85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 06/10] fix: span_equal_to: make the call operator const

---
 include/k3/tok3n/detail/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 45e7e7e..fa120d2 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -122,7 +122,7 @@ struct span_equal_to
 	using is_transparent = void;
 
 	template <class T, class U>
-	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, const span<U>& rhs)
+	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, const span<U>& rhs) const
 	{
 		static_assert(equality_comparable_with<T, U>);
 
@@ -141,7 +141,7 @@ struct span_equal_to
 
 	template <class T, class RHS>
 	requires (not impl::is_span<std::remove_cvref_t<RHS>>)
-	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, RHS&& rhs)
+	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, RHS&& rhs) const
 	{
 		if constexpr (std::is_bounded_array_v<std::remove_reference_t<RHS>> and std::is_const_v<std::remove_reference_t<RHS>>)
 		{
-- 
2.43.0


From c31794baf45ab2ba0dad12e715bce64034efd057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 07/10] fix: sequence and choice: parse valueless elements
 instead of only looking ahead

---
 include/k3/tok3n/detail/helpers.h          | 14 +++++++++++---
 include/k3/tok3n/detail/parsers/choice.h   |  2 +-
 include/k3/tok3n/detail/parsers/sequence.h |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 075f7ab..cfb4645 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -152,16 +152,15 @@ struct compound_executor
 		: input(input_)
 	{}
 
-	template <parser P, std::size_t I = static_cast<std::size_t>(-1)>
+	template <parser P, std::size_t I>
 	constexpr bool execute()
 	{
 		if constexpr (I == static_cast<std::size_t>(-1))
-			return execute_lookahead<P>();
+			return execute_void<P>();
 		else
 			return execute_element<P, I>();
 	}
 
-private:
 	template <parser P>
 	constexpr bool execute_lookahead()
 	{
@@ -170,6 +169,15 @@ private:
 		return res.has_value();
 	}
 
+private:
+	template <parser P>
+	constexpr bool execute_void()
+	{
+		auto res = P::parse(input);
+		input = res.remaining();
+		return res.has_value();
+	}
+
 	template <parser P, std::size_t I>
 	constexpr bool execute_element()
 	{
diff --git a/include/k3/tok3n/detail/parsers/choice.h b/include/k3/tok3n/detail/parsers/choice.h
index 6e60c85..0de70f4 100644
--- a/include/k3/tok3n/detail/parsers/choice.h
+++ b/include/k3/tok3n/detail/parsers/choice.h
@@ -58,7 +58,7 @@ public:
 		using Executor = impl::choice_executor<void, V, _trait<V>::unwrapped>;
 		Executor executor{ input };
 
-		bool successful = (executor.template execute<P>() or ... or executor.template execute<Ps>());
+		bool successful = (executor.template execute_lookahead<P>() or ... or executor.template execute_lookahead<Ps>());
 
 		if (successful)
 			return result<void, V>{ success_tag, executor.input };
diff --git a/include/k3/tok3n/detail/parsers/sequence.h b/include/k3/tok3n/detail/parsers/sequence.h
index 7e05b97..f51ea30 100644
--- a/include/k3/tok3n/detail/parsers/sequence.h
+++ b/include/k3/tok3n/detail/parsers/sequence.h
@@ -59,7 +59,7 @@ public:
 		using Executor = impl::sequence_executor<void, V, _trait<V>::unwrapped>;
 		Executor executor{ input };
 
-		bool successful = (executor.template execute<P>() and ... and executor.template execute<Ps>());
+		bool successful = (executor.template execute_lookahead<P>() and ... and executor.template execute_lookahead<Ps>());
 
 		if (successful)
 			return result<void, V>{ success_tag, executor.input };
-- 
2.43.0


From 725a92e2e7310faae671a8d5e41cd47efd1d4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 08/10] fix: span_equal_to: mutable arrays without a terminator
 or of other elements

---
 include/k3/tok3n/detail/span.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index fa120d2..7b57b9f 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -147,7 +147,15 @@ struct span_equal_to
 		{
 			return operator()(lhs, span<T>(rhs)); // The same elements as when parsing this array
 		}
-		else if constexpr (std::is_bounded_array_v<std::remove_cvref_t<RHS>> or std::is_pointer_v<std::remove_cvref_t<RHS>>)
+		else if constexpr (std::is_bounded_array_v<std::remove_cvref_t<RHS>> and character<T>)
+		{
+			const std::span<const T> arr(rhs); // Up to the terminator, which might be missing
+			std::size_t length = 0;
+			while (length != arr.size() and arr[length] != T{})
+				++length;
+			return operator()(lhs, span<T>(arr.first(length)));
+		}
+		else if constexpr (std::is_pointer_v<std::remove_cvref_t<RHS>>)
 		{
 			return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(std::forward<RHS>(rhs));
 		}
-- 
2.43.0


From 7d64df4c05e773172646f2d6087321116dc15c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 09/10] fix: parsers declare their result types, so that
 recursion through any of them compiles

With deduced return types a recursive grammar compiled with clang, or with
gcc and optimization, only if every cycle went through a sequence or choice
at the top of the custom parser's definition.
---
 include/k3/tok3n/detail/parsers/basic_base.h   | 4 ++--
 include/k3/tok3n/detail/parsers/choice.h       | 4 ++--
 include/k3/tok3n/detail/parsers/complete.h     | 4 ++--
 include/k3/tok3n/detail/parsers/delimit.h      | 4 ++--
 include/k3/tok3n/detail/parsers/epsilon.h      | 4 ++--
 include/k3/tok3n/detail/parsers/exactly.h      | 4 ++--
 include/k3/tok3n/detail/parsers/filter.h       | 4 ++--
 include/k3/tok3n/detail/parsers/ignore.h       | 4 ++--
 include/k3/tok3n/detail/parsers/join.h         | 4 ++--
 include/k3/tok3n/detail/parsers/map.h          | 4 ++--
 include/k3/tok3n/detail/parsers/maybe.h        | 4 ++--
 include/k3/tok3n/detail/parsers/named.h        | 4 ++--
 include/k3/tok3n/detail/parsers/one_or_more.h  | 4 ++--
 include/k3/tok3n/detail/parsers/sequence.h     | 4 ++--
 include/k3/tok3n/detail/parsers/zero_or_more.h | 4 ++--
 15 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/include/k3/tok3n/detail/parsers/basic_base.h b/include/k3/tok3n/detail/parsers/basic_base.h
index 91dc00c..0c9e3fb 100644
--- a/include/k3/tok3n/detail/parsers/basic_base.h
+++ b/include/k3/tok3n/detail/parsers/basic_base.h
@@ -27,7 +27,7 @@ struct basic_parser_base
     using result_for = output_span<V>;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -40,7 +40,7 @@ struct basic_parser_base
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/choice.h b/include/k3/tok3n/detail/parsers/choice.h
index 0de70f4..38978ff 100644
--- a/include/k3/tok3n/detail/parsers/choice.h
+++ b/include/k3/tok3n/detail/parsers/choice.h
@@ -27,7 +27,7 @@ public:
 	static constexpr parser_family family = choice_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -50,7 +50,7 @@ public:
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/complete.h b/include/k3/tok3n/detail/parsers/complete.h
index 10bc074..3304f7f 100644
--- a/include/k3/tok3n/detail/parsers/complete.h
+++ b/include/k3/tok3n/detail/parsers/complete.h
@@ -19,7 +19,7 @@ struct complete_parser
 	static constexpr parser_family family = complete_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -32,7 +32,7 @@ struct complete_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/delimit.h b/include/k3/tok3n/detail/parsers/delimit.h
index 1c63481..44fd47b 100644
--- a/include/k3/tok3n/detail/parsers/delimit.h
+++ b/include/k3/tok3n/detail/parsers/delimit.h
@@ -34,7 +34,7 @@ struct delimit_parser
 	static constexpr parser_family family = delimit_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -79,7 +79,7 @@ struct delimit_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/epsilon.h b/include/k3/tok3n/detail/parsers/epsilon.h
index b48afa3..3b1b22b 100644
--- a/include/k3/tok3n/detail/parsers/epsilon.h
+++ b/include/k3/tok3n/detail/parsers/epsilon.h
@@ -19,7 +19,7 @@ struct epsilon_parser
 	static constexpr parser_family family = epsilon_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -27,7 +27,7 @@ struct epsilon_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/exactly.h b/include/k3/tok3n/detail/parsers/exactly.h
index 1403450..3ff262a 100644
--- a/include/k3/tok3n/detail/parsers/exactly.h
+++ b/include/k3/tok3n/detail/parsers/exactly.h
@@ -26,7 +26,7 @@ struct exactly_parser
 	static constexpr parser_family family = exactly_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -48,7 +48,7 @@ struct exactly_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/filter.h b/include/k3/tok3n/detail/parsers/filter.h
index 4aab922..4925a6b 100644
--- a/include/k3/tok3n/detail/parsers/filter.h
+++ b/include/k3/tok3n/detail/parsers/filter.h
@@ -27,7 +27,7 @@ struct filter_parser
 	static constexpr parser_family family = filter_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -55,7 +55,7 @@ struct filter_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/ignore.h b/include/k3/tok3n/detail/parsers/ignore.h
index 8904552..fbad875 100644
--- a/include/k3/tok3n/detail/parsers/ignore.h
+++ b/include/k3/tok3n/detail/parsers/ignore.h
@@ -19,13 +19,13 @@ struct ignore_parser
 	static constexpr parser_family family = ignore_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/join.h b/include/k3/tok3n/detail/parsers/join.h
index a8c7476..e25b07f 100644
--- a/include/k3/tok3n/detail/parsers/join.h
+++ b/include/k3/tok3n/detail/parsers/join.h
@@ -128,7 +128,7 @@ struct join_parser
 	static constexpr parser_family family = join_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -145,7 +145,7 @@ struct join_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/map.h b/include/k3/tok3n/detail/parsers/map.h
index a5f4f10..75c15df 100644
--- a/include/k3/tok3n/detail/parsers/map.h
+++ b/include/k3/tok3n/detail/parsers/map.h
@@ -25,7 +25,7 @@ struct map_parser
 	static constexpr parser_family family = map_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -60,7 +60,7 @@ struct map_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/maybe.h b/include/k3/tok3n/detail/parsers/maybe.h
index d312f7b..85854d4 100644
--- a/include/k3/tok3n/detail/parsers/maybe.h
+++ b/include/k3/tok3n/detail/parsers/maybe.h
@@ -25,7 +25,7 @@ struct maybe_parser
 	static constexpr parser_family family = maybe_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -40,7 +40,7 @@ struct maybe_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/named.h b/include/k3/tok3n/detail/parsers/named.h
index 4f259e3..e083f16 100644
--- a/include/k3/tok3n/detail/parsers/named.h
+++ b/include/k3/tok3n/detail/parsers/named.h
@@ -19,13 +19,13 @@ struct named_parser
 	static constexpr parser_family family = named_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		return P::parse(std::forward<R>(r));
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/one_or_more.h b/include/k3/tok3n/detail/parsers/one_or_more.h
index e3f3a62..54dd5d7 100644
--- a/include/k3/tok3n/detail/parsers/one_or_more.h
+++ b/include/k3/tok3n/detail/parsers/one_or_more.h
@@ -25,7 +25,7 @@ struct one_or_more_parser
 	static constexpr parser_family family = one_or_more_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -50,7 +50,7 @@ struct one_or_more_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/sequence.h b/include/k3/tok3n/detail/parsers/sequence.h
index f51ea30..9e7b9e0 100644
--- a/include/k3/tok3n/detail/parsers/sequence.h
+++ b/include/k3/tok3n/detail/parsers/sequence.h
@@ -27,7 +27,7 @@ public:
 	static constexpr parser_family family = sequence_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -51,7 +51,7 @@ public:
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/zero_or_more.h b/include/k3/tok3n/detail/parsers/zero_or_more.h
index c865dbd..517c6b6 100644
--- a/include/k3/tok3n/detail/parsers/zero_or_more.h
+++ b/include/k3/tok3n/detail/parsers/zero_or_more.h
@@ -25,7 +25,7 @@ struct zero_or_more_parser
 	static constexpr parser_family family = zero_or_more_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -45,7 +45,7 @@ struct zero_or_more_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
-- 
2.43.0


From 7d2821ef4ac6c818dd284fd055c76dd2d9561052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 10/10] fix: elements of different types in
 any_of/none_of/all_of<...> are converted to the element type

static_cast<Ts>(ts) casts every element to its own type, so that initialising
the array is a narrowing conversion, which compilers reject for types that do
not fit by type (any_of<'a', 98> with a constexpr function argument).
---
 include/k3/tok3n/detail/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/static_array.h b/include/k3/tok3n/detail/static_array.h
index d9471c4..3e75538 100644
--- a/include/k3/tok3n/detail/static_array.h
+++ b/include/k3/tok3n/detail/static_array.h
@@ -23,7 +23,7 @@ struct static_array
 	template <class... Ts>
 	requires (sizeof...(Ts) == N - 1) and (... and std::convertible_to<Ts, T>)
 	constexpr static_array(T t, Ts... ts)
-		: data{{t, static_cast<Ts>(ts)...}}
+		: data{{t, static_cast<T>(ts)...}}
 	{}
 
 	constexpr static_array(const T(&input)[N + 1]) noexcept requires character<T>
-- 
2.43.0

