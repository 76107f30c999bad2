#include <string_view>
#include <string>
#include <tuple>
#include <vector>
#include "examples.h"
#define main example_main
#include EXAMPLE_SOURCE
#undef main
namespace x {
std::string ren(const number_type& n) { return "N" + nm(n.integer) + "," + part(n.fraction) + "," + part(n.exponent) + ";"; }
std::string ren(const std::string& s) { return "S" + codes(s) + ";"; }
std::string ren(const JsonValue::result_type& v);
std::string ren(const JsonObject::result_type& o) { std::string s = "O("; for (auto& [k, v] : o) s += ren(k) + ren(v); return s + ")"; }
std::string ren(const JsonArray::result_type& a) { std::string s = "A("; for (auto& v : a) s += ren(v); return s + ")"; }
std::string ren(const JsonValue::result_type& v)
{
	switch (v.variant.index())
	{
	case 0: return ren(std::get<0>(v.variant));
	case 1: return ren(std::get<1>(v.variant));
	case 2: return ren(std::get<2>(v.variant));
	case 3: return ren(std::get<3>(v.variant));
	case 4: return std::get<4>(v.variant) ? "T" : "F";
	default: return "0";
	}
}
template <class P> void one(P, std::string_view in)
{
	auto r = P::parse(in);
	auto l = P::lookahead(in);
	auto end = [&](auto& q) { return q.has_value() ? static_cast<long>(q.remaining().data() - in.data()) : (q.remaining().data() == in.data() and q.remaining().size() == in.size() ? -1L : -2L); };
	bool sizes = r.remaining().data() + r.remaining().size() == in.data() + in.size();
	printf("%ld\t%ld\t%s\t", end(r), end(l), r.has_value() ? ren(*r).c_str() : (sizes ? "" : "!size"));
}
} // namespace x
int main()
{
	x::each_line([](std::string_view in) { x::one(JsonValue{}, in); x::one(JsonObject{}, in); x::one(JsonArray{}, in); x::one(number, in); x::one(string, in); });
}
