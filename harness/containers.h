// The same elements in every carrier the library accepts.
#pragma once
#include "harness.h"
#include <ranges>
namespace h {

template <class V> struct MyRange {              // a contiguous range of the user's own
	const V* b; const V* e;
	constexpr const V* begin() const { return b; }
	constexpr const V* end() const { return e; }
};

// ok pos value lookahead-ok lookahead-pos, relative to base
template <class P, class V, class In> std::string outcome(In&& in, const V* base, std::size_t len)
{
	std::string out;
	{ auto r = P::p.parse(std::forward<In>(in)); put_result(out, r, base, len, len); }
	out += '\t';
	{ auto r = P::p.lookahead(std::forward<In>(in)); put_result(out, r, base, len, len); }
	return out;
}

struct Rows {
	std::string last[4];
	void add(const char* kind, int slot, const char* carrier, const std::string& r)
	{
		if (r == last[slot]) return;              // same as the carrier before: nothing new
		if (last[slot].empty()) last[slot] = r;
		out_buf += cur_case; out_buf += '\t'; out_buf += kind; out_buf += '\t'; out_buf += carrier; out_buf += '\t'; out_buf += r; out_buf += '\n';
	}
};

template <std::size_t M, class F> void with_n(std::size_t n, F f)
{
	if (n == 300) f(std::integral_constant<std::size_t, 300>{});
	else if (n == 5000) f(std::integral_constant<std::size_t, 5000>{});
	else [&]<std::size_t... Is>(std::index_sequence<Is...>) { (void)((Is == n ? (f(std::integral_constant<std::size_t, Is>{}), true) : false) or ...); }(std::make_index_sequence<M + 1>{});
}

template <class P, class V, std::size_t MaxN> void run_containers(const long long* syms, std::size_t len)
{
	Rows rows;
	std::size_t zero = 0;                          // elements before the first zero
	while (zero < len and syms[zero] != 0) ++zero;
	bool changed = false;
	for (int place = 0; place != 2; ++place)
	{
		V* a = place == 0 ? reinterpret_cast<V*>(arena_hi) - len : reinterpret_cast<V*>(arena_lo);
		for (std::size_t i = 0; i != len; ++i) a[i] = from_int<V>(syms[i]);
		if (place) for (std::size_t i = 0; i != 32; ++i) a[len + i] = from_int<V>(len ? syms[i % len] : 97);
		const V* c = a;
		#define ROW(kind, slot, name, in, base, n) rows.add(kind, slot, place ? name " (noise behind)" : name, outcome<P, V>(in, base, n))
		{ std::span<const V> x(c, len); const auto y = x; ROW("all", 0, "span<const>&", x, c, len); ROW("all", 0, "const span<const>&", y, c, len); ROW("all", 0, "span<const>&&", (std::span<const V>(c, len)), c, len); }
		{ std::span<V> x(a, len); ROW("all", 0, "span&", x, c, len); ROW("all", 0, "span&&", (std::span<V>(a, len)), c, len); }
		{ MyRange<V> x{ c, c + len }; const auto y = x; ROW("all", 0, "user range&", x, c, len); ROW("all", 0, "const user range&", y, c, len); }
		ROW("all", 0, "subrange&&", (std::ranges::subrange<const V*>(c, c + len)), c, len);
		{ detail::input_span<V> x(c, len); const auto y = x; ROW("all", 0, "input_span&", x, c, len); ROW("all", 0, "const input_span&", y, c, len); ROW("all", 0, "input_span&&", (detail::input_span<V>(c, len)), c, len); }
		ROW("all", 0, "output_span&&", (detail::output_span<V>(c, len)), c, len);
		with_n<MaxN>(len, [&](auto N) {
			using A = std::array<V, N>;
			if constexpr (N > 0)
			{
				A& x = *reinterpret_cast<A*>(a);
				ROW("all", 0, "std::array&", x, c, len); ROW("all", 0, "const std::array&", std::as_const(x), c, len);
				V (&m)[N] = *reinterpret_cast<V(*)[N]>(a); const V (&k)[N] = *reinterpret_cast<const V(*)[N]>(a);
				ROW("all", 0, "array&", m, c, len);
				if constexpr (detail::character<V>) ROW("array", 1, "const array&", k, c, len - (syms[len - 1] == 0));
				else ROW("all", 0, "const array&", k, c, len);
				ROW("all", 0, "span<const, N>&&", (std::span<const V, N>(c, len)), c, len);
			}
			else { A x; ROW("all", 0, "std::array<0>&", x, x.data(), 0); }
		});
		if constexpr (detail::character<V>)
		{
			std::basic_string_view<V> x(c, len); const auto y = x;
			ROW("all", 0, "string_view&", x, c, len); ROW("all", 0, "const string_view&", y, c, len); ROW("all", 0, "string_view&&", (std::basic_string_view<V>(c, len)), c, len);
		}
		for (std::size_t i = 0; i != len; ++i) changed |= to_int(a[i]) != to_int(from_int<V>(syms[i]));
		// the remainder of one parse as the input of the next
		{
			auto r = P::p.parse(std::span<const V>(c, len));
			auto rem = r.remaining();
			ROW("rest", 3, "remaining()&", rem, rem.data(), rem.size());
			ROW("rest", 3, "remaining()&&", r.remaining(), rem.data(), rem.size());
			const auto r2 = P::p.lookahead(std::span<const V>(c, len));
			if (r2.remaining().data() == rem.data()) ROW("rest", 3, "lookahead remaining()&&", r2.remaining(), rem.data(), rem.size());
		}
		if constexpr (detail::character<V>)
		{
			V* z = place == 0 ? reinterpret_cast<V*>(arena_hi) - len - 1 : reinterpret_cast<V*>(arena_lo);
			for (std::size_t i = 0; i != len; ++i) z[i] = from_int<V>(syms[i]);
			z[len] = V{};
			if (place) for (std::size_t i = 0; i != 32; ++i) z[len + 1 + i] = from_int<V>(len ? syms[i % len] : 97);
			const V* p = z; const V* const q = z;
			ROW("pointer", 2, "const char*&", p, z, zero); ROW("pointer", 2, "const char* const&", q, z, zero); ROW("pointer", 2, "const char*&&", static_cast<const V*>(z), z, zero);
			with_n<MaxN>(len, [&](auto N) {   // as a literal: the elements and a terminator
				const V (&k)[N + 1] = *reinterpret_cast<const V(*)[N + 1]>(z);
				ROW("all", 0, "literal", k, z, len);
			});
		}
	}
	{
		std::vector<V> v; v.reserve(len + 32);
		for (std::size_t i = 0; i != len + 32; ++i) v.push_back(from_int<V>(i < len ? syms[i] : len ? syms[i % len] : 97));
		v.resize(len);
		const int place = 0; const auto& k = v;
		if (len == 0) { std::vector<V> none; ROW("all", 0, "empty vector&", none, none.data(), 0); }
		else { ROW("all", 0, "vector&", v, v.data(), len); ROW("all", 0, "const vector&", k, v.data(), len); }
		if constexpr (detail::character<V>)
		{
			std::basic_string<V> s(v.begin(), v.end()); const auto& t = s;
			ROW("all", 0, "string&", s, s.data(), len); ROW("all", 0, "const string&", t, s.data(), len);
			if (s != std::basic_string<V>(v.begin(), v.end())) changed = true;
		}
		for (std::size_t i = 0; i != len; ++i) changed |= to_int(v[i]) != to_int(from_int<V>(syms[i]));
	}
	if (changed) { out_buf += cur_case; out_buf += "\tCHANGED\n"; }
	out_buf += cur_case; out_buf += "\tDONE\n";
	if (out_buf.size() > 60000) flush_out();
}
template <class P> constexpr Entry centry() { return { &run_containers<P, typename P::V, 6>, &type_of<P, typename P::V> }; }
} // namespace h
