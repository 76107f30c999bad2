// Equality of spans with other ranges (spec/SpanEq.tla).
#pragma once
#include "harness.h"
#include <map>
namespace h {
struct EqCase { std::vector<long long> s, t; std::map<std::string, bool> c, r; };
inline long eq_checks = 0, eq_bad = 0;
inline std::string eq_where;
inline void eq_expect(const char* how, bool want, bool got)
{
	++eq_checks;
	if (want == got) return;
	if (++eq_bad <= 60) printf("BAD\t%s %s\t%d\t%d\n", eq_where.c_str(), how, want, got);
}
template <class L, class RHS> void eq_one(const char* kind, const L& l, RHS&& r, bool want)
{
	std::string k = kind;
	eq_expect(kind, want, l == r);
	eq_expect((k + " !=").c_str(), not want, l != r);
	if constexpr (requires { r == l; }) eq_expect((k + " reversed").c_str(), want, r == l);
	const detail::span_equal_to eq{};
	eq_expect((k + " span_equal_to").c_str(), want, eq(l, r));
}
// equal to from_int(x), but other bytes where equality looks at less than all of them
template <class V> V twin(long long x)
{
	V v = from_int<V>(x);
	if constexpr (std::same_as<V, St>) v.tag += 77;
	else if constexpr (std::same_as<V, double>) v += 0.0;
	else if constexpr (std::same_as<V, Other>) v.pad += 1;
	return v;
}
template <class V> V* place(const std::vector<long long>& x, bool hi, std::size_t skip, bool zero)
{
	std::size_t n = x.size() + zero;
	V* p = hi ? reinterpret_cast<V*>(arena_hi) - n : reinterpret_cast<V*>(arena_lo) + skip;
	for (std::size_t i = 0; i != x.size(); ++i) p[i] = from_int<V>(x[i]);
	if (zero) p[x.size()] = V{};
	if (not hi) for (std::size_t i = 0; i != 8; ++i) p[n + i] = from_int<V>(97);
	return p;
}
template <class V, class W> void eq_spans(const char* name, EqCase& e)
{
	for (bool hi : { true, false })
	{
		std::vector<V> l; for (auto x : e.s) l.push_back(twin<V>(x));
		W* t = place<W>(e.t, hi, 100, false);
		bool want = e.r["span"];
		eq_where = name; for (auto x : e.s) eq_where += " " + std::to_string(x); eq_where += " /"; for (auto x : e.t) eq_where += " " + std::to_string(x);
		detail::span<V> ls(l); detail::output_span<V> lo(l); detail::input_span<V> li(l);
		detail::span<W> rs(t, e.t.size()); detail::output_span<W> ro(t, e.t.size()); detail::input_span<W> ri(t, e.t.size());
		eq_one("span/span", ls, rs, want); eq_one("output/output", lo, ro, want); eq_one("input/output", li, ro, want); eq_one("output/input", lo, ri, want); eq_one("output/span", lo, rs, want); eq_one("span/input", ls, ri, want);
		if constexpr (std::same_as<V, W>)
		{
			eq_expect("equal_to", want, std::equal_to<detail::span<V>>{}(ls, rs));
			auto head = [](auto& x, auto& y) { return x.size() <= y.size() and std::equal(x.begin(), x.end(), y.begin()); };
			auto tail = [](auto& x, auto& y) { return x.size() <= y.size() and std::equal(x.rbegin(), x.rend(), y.rbegin()); };
			auto same = [&](const char* kind, const std::vector<long long>& x, std::size_t i, std::size_t j) {   // both in one buffer
				V* p = place<V>(x, hi, 100, false);
				eq_one(kind, detail::output_span<V>(p + i, e.s.size()), detail::output_span<V>(p + j, e.t.size()), want);
				eq_one(kind, detail::span<V>(p + i, e.s.size()), std::span<const V>(p + j, e.t.size()), want);
			};
			if (head(e.s, e.t)) same("same start, right longer", e.t, 0, 0);
			if (head(e.t, e.s)) same("same start, left longer", e.s, 0, 0);
			if (tail(e.s, e.t)) same("same end, right longer", e.t, e.t.size() - e.s.size(), 0);
			if (tail(e.t, e.s)) same("same end, left longer", e.s, 0, e.s.size() - e.t.size());
			std::vector<long long> st(e.s); st.insert(st.end(), e.t.begin(), e.t.end());
			same("one behind the other", st, 0, e.s.size());
		}
	}
}
template <class V> void eq_ranges(const char* name, EqCase& e)
{
	eq_spans<V, V>(name, e);
	constexpr bool ch = detail::character<V>;
	auto& w = ch ? e.c : e.r;
	for (bool hi : { true, false })
	{
		std::vector<V> l; for (auto x : e.s) l.push_back(twin<V>(x));
		std::size_t n = e.t.size();
		V* t = place<V>(e.t, hi, 100, false); const V* c = t;
		auto both = [&](const char* kind, auto&& r, bool want) { eq_one(kind, detail::span<V>(l), r, want); eq_one(kind, detail::output_span<V>(l), r, want); };
		std::vector<V> v(t, t + n); v.reserve(n + 8);
		both("vector", v, w["vector"]); both("const vector", std::as_const(v), w["vector"]);
		both("std::span", std::span<const V>(c, n), w["stdspan"]); both("mutable std::span", std::span<V>(t, n), w["stdspan"]);
		auto arr = [&](auto N) {
			both("std::array", *reinterpret_cast<std::array<V, N>*>(t), w["stdarray"]);
			both("const array", *reinterpret_cast<const V(*)[N]>(c), w["array"]);
			both("array", *reinterpret_cast<V(*)[N]>(t), w["marray"]);
		};
		switch (n) { case 1: arr(std::integral_constant<std::size_t, 1>{}); break; case 2: arr(std::integral_constant<std::size_t, 2>{}); break; case 3: arr(std::integral_constant<std::size_t, 3>{}); break; case 4: arr(std::integral_constant<std::size_t, 4>{}); break; }
		if constexpr (ch)
		{
			both("string_view", std::basic_string_view<V>(c, n), w["view"]);
			both("string", std::basic_string<V>(c, n), w["string"]);
			V* z = place<V>(e.t, hi, 200, true);
			both("pointer", static_cast<const V*>(z), w["pointer"]); both("mutable pointer", z, w["mpointer"]);
			auto lit = [&](auto N) { both("literal", *reinterpret_cast<const V(*)[N]>(z), w["literal"]); };
			switch (n + 1) { case 1: lit(std::integral_constant<std::size_t, 1>{}); break; case 2: lit(std::integral_constant<std::size_t, 2>{}); break; case 3: lit(std::integral_constant<std::size_t, 3>{}); break; case 4: lit(std::integral_constant<std::size_t, 4>{}); break; case 5: lit(std::integral_constant<std::size_t, 5>{}); break; }
		}
	}
}
inline int eq_main(const char* file)
{
	make_arena();
	FILE* f = fopen(file, "r");
	if (not f) return 9;
	int n; char name[32], val[4];
	while (fscanf(f, "%d", &n) == 1)
	{
		EqCase e; long long x;
		e.s.resize(static_cast<std::size_t>(n)); for (auto& y : e.s) { if (fscanf(f, "%lld", &x) != 1) return 9; y = x; }
		if (fscanf(f, "%d", &n) != 1) return 9;
		e.t.resize(static_cast<std::size_t>(n)); for (auto& y : e.t) { if (fscanf(f, "%lld", &x) != 1) return 9; y = x; }
		for (auto m : { &e.c, &e.r }) { if (fscanf(f, "%d", &n) != 1) return 9; while (n--) { if (fscanf(f, "%31s %1s", name, val) != 2) return 9; (*m)[name] = val[0] == '1'; } }
		eq_ranges<char>("char", e); eq_ranges<wchar_t>("wchar_t", e); eq_ranges<char8_t>("char8_t", e); eq_ranges<char16_t>("char16_t", e); eq_ranges<char32_t>("char32_t", e);
		eq_ranges<int>("int", e); eq_ranges<St>("struct", e); eq_ranges<En>("enum", e); eq_ranges<unsigned char>("uchar", e); eq_ranges<double>("double", e); eq_spans<double, int>("double/int", e); eq_spans<short, double>("short/double", e);
		eq_spans<int, long>("int/long", e); eq_spans<char, int>("char/int", e); eq_spans<int, signed char>("int/schar", e); eq_spans<char, wchar_t>("char/wchar_t", e); eq_spans<St, Other>("struct/other", e); eq_spans<Other, int>("other/int", e); eq_spans<Other, Other>("other", e); eq_spans<long long, short>("llong/short", e);
	}
	printf("COUNT\t%ld\t%ld\n", eq_checks, eq_bad);
	return 0;
}
} // namespace h
