#include <string_view>
#include <string>
#include <vector>
#include <optional>
#include <stdexcept>
#include "examples.h"
#include EXAMPLE_SOURCE
namespace x {
std::string ren(const expr::result_type& v);
std::string ren(const term::result_type& v);
std::string ren(const number::result_type& n) { return "N" + nm(n.integer) + "," + part(n.decimal) + "," + part(n.exponent) + ";"; }
std::string ren(const powterm::result_type& p)
{
	if (auto* b = std::get_if<powterm::result_type::bracketed_expr>(&p.data)) return "B(" + ren(b->data) + ")";
	if (auto* b = std::get_if<powterm::result_type::negated_expr>(&p.data)) return "M(" + ren(b->data) + ")";
	return ren(std::get<number::result_type>(p.data));
}
std::string ren(const factor::result_type& f) { std::string s; for (std::size_t i = 0; i != f.size(); ++i) s += (i ? "^" : "") + ren(f[i]); return s; }
template <class V> std::string list(const V& v)
{
	if (v.first.size() != v.second.size() + 1) return "!counts";
	std::string s;
	for (std::size_t i = 0; i != v.first.size(); ++i) { if (i) s += v.second[i - 1]; s += ren(v.first[i]); }
	return s;
}
std::string ren(const term::result_type& v) { return list(v); }
std::string ren(const expr::result_type& v) { return list(v); }
} // namespace x
int main()
{
	x::each_line([](std::string_view in) {
		auto r = input::parse(in);
		auto l = input::lookahead(in);
		if (not r) { printf("%d\t%d\t\t", -1, l ? 1 : -1); return; }
		printf("%ld\t%d\t%s\t", static_cast<long>(r.remaining().data() - in.data()), l ? 1 : -1, x::ren(*r).c_str());
		fflush(stdout);
		printf("%.17g", evaluate(*r));
	});
}
