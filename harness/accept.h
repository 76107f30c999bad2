// C24: asks the compiler which combinations it accepts.
#pragma once
#include "harness.h"
#include <deque>
#include <list>
#include <set>

namespace h {

template <class... Ts> struct tl {};
template <class T, class... Ts> constexpr int index_in(tl<Ts...>) { int i = 0, r = -1; ((std::same_as<T, Ts> ? (r = i) : 0, ++i), ...); return r; }
using Probes = tl<char, wchar_t, int>;

// 0 refused; 1 + i a parser over the i-th probe type; 50 a substitution; 100 + set of the element types a modifier accepts; 99 something else
template <class R0> constexpr int code()
{
	using R = std::remove_cvref_t<R0>;
	if constexpr (detail::substitution<R>) return 50;
	else if constexpr (detail::modifier<R>)
	{
		int m = 100;
		if constexpr (requires { { R{}("a"_any) } -> detail::parser; }) m += 1;
		if constexpr (requires { { R{}(L"a"_any) } -> detail::parser; }) m += 2;
		if constexpr (requires { { R{}(any_of<1>) } -> detail::parser; }) m += 4;
		return m;
	}
	else if constexpr (detail::parser<R>) return 1 + index_in<typename R::value_type>(Probes{});
	else return 99;
}

#define H_BIN(NAME, EXPR) \
	template <class X, class Y> constexpr int NAME() \
	{ \
		if constexpr (requires (const X& x, const Y& y) { EXPR; }) { using T = decltype([](const X& x, const Y& y) { return EXPR; }(std::declval<const X&>(), std::declval<const Y&>())); return code<T>(); } \
		else return 0; \
	}
H_BIN(q_or, x | y)
H_BIN(q_seq, x >> y)
H_BIN(q_mod, x % y)
H_BIN(q_call, x(y))
H_BIN(q_delimit, delimit(x, y))
H_BIN(q_delimit_keep, delimit_keep(x, y))
H_BIN(q_sub, sub(x, y))
#define H_UN(NAME, EXPR) \
	template <class X, class> constexpr int NAME() \
	{ \
		if constexpr (requires (const X& x) { EXPR; }) { using T = decltype([](const X& x) { return EXPR; }(std::declval<const X&>())); return code<T>(); } \
		else return 0; \
	}
H_UN(q_opt, ~x)
H_UN(q_plus, +x)
H_UN(q_star, *x)
H_UN(q_not, !x)
H_UN(q_name, (name<"x"> = x))

// 3 parse and lookahead accept it
template <class P, class R> constexpr int q_in()
{
	return (requires (R r) { P::parse(static_cast<R>(r)); } ? 1 : 0) + (requires (R r, P p) { p.lookahead(static_cast<R>(r)); } ? 2 : 0);
}
template <class V> using k_vector = const std::vector<V>&;
template <class V> using k_array = const std::array<V, 3>&;
template <class V> using k_carray = V (&)[3];
template <class V> using k_litarray = const V (&)[4];
template <class V> using k_cspan = std::span<const V>;
template <class V> using k_mspan = std::span<V>&;
template <class V> using k_string = std::basic_string<V>;
template <class V> using k_view = const std::basic_string_view<V>&;
template <class V> using k_pointer = const V*;
template <class V> using k_list = std::list<V>;
template <class V> using k_deque = std::deque<V>;
template <class V> using k_set = std::set<V>;
template <class V> using k_element = V;
template <class V> using k_nothing = std::nullptr_t;

// functions with one meaning each
using OS = detail::output_span<char>;
struct NoTruth {};
template <class R> constexpr R give() { if constexpr (not std::same_as<R, void>) return R{}; }
template <class A, class R> inline constexpr auto fun = [](A) { return give<R>(); };
template <class R> inline constexpr auto fun0 = [] { return give<R>(); };
template <class R> inline constexpr auto funAll = [](const auto&) { return give<R>(); };
template <class P> constexpr int q_fn()
{
	return (detail::parser_for<P, char> ? 1 : 0) + (requires { P::parse("x"); } ? 2 : 0) + (requires (std::string s) { P::parse(s); } ? 4 : 0);
}

} // namespace h
