// Evaluation of parses in constant expressions.
#pragma once
#include "harness.h"
namespace h {
template <std::size_t N> struct Fix { char t[N] = {}; std::size_t n = 0; bool cut = false; };
constexpr std::size_t CUT = 900;

template <class R, class V> constexpr void put_cresult(std::string& out, const R& r, const V* base, std::size_t len)
{
	out += r.has_value() ? '1' : '0';
	if (static_cast<bool>(r) != r.has_value()) out += "!bool";
	out += '\t';
	auto rem = r.remaining();
	if (rem.data() == nullptr) out += "null";
	else
	{
		put(out, rem.data() - base);
		if (rem.size() != len - static_cast<std::size_t>(rem.data() - base)) { out += "!size"; put(out, static_cast<long long>(rem.size())); }
	}
	out += '\t';
	if constexpr (not std::same_as<typename R::value_type, void>)
	{ if (r.has_value()) ren(out, base, len, *r); else out += '-'; }
	else out += '-';
}

template <class P, class V> consteval auto ceval(const V* base, std::size_t len)
{
	std::string out;
	typename carrier<V>::type in(base, len);
	{ auto r = P::p.parse(in); put_cresult(out, r, base, len); }
	out += '\t';
	{ auto r = P::p.lookahead(in); put_cresult(out, r, base, len); }
	Fix<CUT> f;
	for (char c : out) { if (f.n == CUT) { f.cut = true; break; } f.t[f.n++] = c; }
	return f;
}
inline void print_fix(int i, int k, const Fix<CUT>& f) { printf("%d\t%d\t%s%.*s\n", i, k, f.cut ? "CUT\t" : "", static_cast<int>(f.n), f.t); }
} // namespace h
