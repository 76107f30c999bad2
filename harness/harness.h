// Common part of every generated test program: the library of user functions that the specification knows
// (Tok3n.tla: MapVal, FilVal), rendering of values and types in the specification's notation, and the runner.
#pragma once
#include <k3/tok3n.h>
#include <array>
#include <compare>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <csignal>
#include <initializer_list>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

using namespace k3::tok3n;

#ifdef __SANITIZE_ADDRESS__
extern "C" __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1"; }
#endif

namespace h {

// ------------------------------------------------------------------------------------------------ element types
enum class En : int {};                        // an enumeration
struct St {                                     // a user-defined structural type; the tag is no part of what == and < look at
	int v = 0;
	int tag = 0;
	constexpr St() = default;
	constexpr explicit St(int x) : v(x) {}
	friend constexpr bool operator==(const St& a, const St& b) { return a.v == b.v; }
	friend constexpr auto operator<=>(const St& a, const St& b) { return a.v <=> b.v; }
};
struct Other {                                  // comparable with int and St, in either direction
	int v = 0;
	int pad = 12345;
	constexpr Other() = default;
	constexpr explicit Other(int x) : v(x) {}
	friend constexpr bool operator==(const Other& a, int b) { return a.v == b; }
	friend constexpr bool operator==(const Other& a, const St& b) { return a.v == b.v; }
	friend constexpr bool operator==(const Other& a, const Other& b) { return a.v == b.v; }
};
template <class V> constexpr long long to_int(const V& v)
{
	if constexpr (requires { v.v; }) return v.v;
	else return static_cast<long long>(v);
}
template <class V> constexpr V from_int(long long x)
{
	if constexpr (std::same_as<V, St>) { St s(static_cast<int>(x)); s.tag = 1 + (static_cast<int>(x) & 1); return s; }
	else if constexpr (std::same_as<V, double>) return x == 0 ? -0.0 : static_cast<double>(x);   // equal to 0.0, but other bytes
	else if constexpr (requires { V{}.v; }) return V(static_cast<int>(x));
	else return static_cast<V>(x);
}

// ------------------------------------------------------------------------------------------------ user types
struct KBox { int v = 0; template <int K> constexpr int kI() const; template <int K> constexpr bool kP() const; friend constexpr bool operator==(const KBox&, const KBox&) = default; };
struct UBox {                                   // can only be moved; remembers that it was moved from
	int v = 0; bool dead = false;
	constexpr UBox() = default;
	constexpr explicit UBox(int x) : v(x) {}
	constexpr UBox(UBox&& o) noexcept : v(o.v), dead(o.dead) { o.dead = true; }
	constexpr UBox& operator=(UBox&& o) noexcept { v = o.v; dead = o.dead; o.dead = true; return *this; }
};

inline constexpr int MOD = 9973;
constexpr int H(int a, int b) { return (a * 31 + b + 7) % MOD; }

struct Into; struct RBox;

template <class T> concept span_like =
	requires (const T& t) { t.data(); t.size(); t.empty(); t.front(); typename T::value_type; } and
	not requires (T& t) { t.push_back(t.front()); } and
	not requires { std::tuple_size<T>::value; } and
	not std::same_as<T, std::string_view>;
template <class T> struct is_view : std::false_type {};
template <class C> struct is_view<std::basic_string_view<C>> : std::true_type {};

template <class T> struct vt { static constexpr char kind = '?'; };
template <class T> struct vt<std::optional<T>> { static constexpr char kind = 'o'; };
template <class T, class A> struct vt<std::vector<T, A>> { static constexpr char kind = 'v'; };
template <class T, std::size_t N> struct vt<std::array<T, N>> { static constexpr char kind = 'r'; };
template <class... Ts> struct vt<std::tuple<Ts...>> { static constexpr char kind = 't'; };
template <class... Ts> struct vt<std::variant<Ts...>> { static constexpr char kind = 'x'; };
template <class A, class B> struct vt<std::pair<A, B>> { static constexpr char kind = 'p'; };

template <class T> constexpr int dig(const T& v);
template <class... Ts> constexpr int diglist(const Ts&... vs) { int a = 1; ((a = H(a, dig(vs))), ...); return a; }

struct Into {
	int n = 0, d = 0;
	constexpr Into() : n(0), d(0) {}
	template <class A> constexpr Into(std::initializer_list<A> l) : n(-static_cast<int>(l.size()) - 1), d(-1) {}   // a list of elements is another thing than arguments
	template <class... As> requires (sizeof...(As) >= 1 and not (sizeof...(As) == 1 and (... and std::same_as<std::remove_cvref_t<As>, Into>)))
	constexpr Into(As&&... as) : n(sizeof...(As)), d((... or std::is_lvalue_reference_v<As>) ? H(diglist(as...), 4444) : diglist(as...)) { (consume(std::forward<As>(as)), ...); }
	template <class A> static constexpr void consume(A&& a) { [[maybe_unused]] std::remove_cvref_t<A> x(std::forward<A>(a)); }
};
struct RBox {                                   // constructible from anything
	int n = 0;
	constexpr RBox() = default;
	template <class A> requires (not std::same_as<std::remove_cvref_t<A>, RBox>)
	constexpr RBox(A&& a) : n(dig(a)) { Into::consume(std::forward<A>(a)); }
};

template <class T> constexpr int dig(const T& v)
{
	if constexpr (std::same_as<T, int>) return H(23, v);
	else if constexpr (std::same_as<T, long>) return H(25, static_cast<int>(v));
	else if constexpr (std::same_as<T, bool>) return H(29, v);
	else if constexpr (std::same_as<T, KBox>) return H(37, v.v);
	else if constexpr (std::same_as<T, UBox>) return v.dead ? 7777 : H(41, v.v);
	else if constexpr (std::same_as<T, Into>) return H(H(43, v.n), v.d);
	else if constexpr (std::same_as<T, RBox>) return H(47, v.n);
	else if constexpr (vt<T>::kind == 'o') return v ? H(5, diglist(*v)) : H(5, diglist());
	else if constexpr (vt<T>::kind == 'v' or vt<T>::kind == 'r')
	{
		int a = 1;
		for (std::size_t i = 0; i != v.size(); ++i) { if constexpr (std::same_as<T, std::vector<bool>>) a = H(a, dig(bool(v[i]))); else a = H(a, dig(v[i])); }
		return H(vt<T>::kind == 'v' ? 7 : 11, a);
	}
	else if constexpr (vt<T>::kind == 't') return H(13, std::apply([](const auto&... e) { return diglist(e...); }, v));
	else if constexpr (vt<T>::kind == 'p') return H(19, diglist(v.first, v.second));
	else if constexpr (vt<T>::kind == 'x') return H(17 + static_cast<int>(v.index()), std::visit([](const auto& e) { return diglist(e); }, v));
	else
	{
		int a = 3 + static_cast<int>(v.size());
		for (std::size_t i = 0; i != v.size(); ++i) a = H(a, static_cast<int>(((to_int(v.data()[i]) % 256) + 256) % 256));
		return a;
	}
}

// ------------------------------------------------------------------------------------------------ rendering
struct Ctx { const void* base = nullptr; std::size_t len = 0; };

constexpr void put(std::string& s, long long n)
{
	if (n < 0) { s += '-'; n = -n; }
	char b[24]; int k = 0;
	do { b[k++] = static_cast<char>('0' + n % 10); n /= 10; } while (n);
	while (k) s += b[--k];
}

template <class V> constexpr void put_offset(std::string& s, const V* p, const void* base, std::size_t len)
{
	if (std::is_constant_evaluated())
		put(s, p - static_cast<const V*>(nullptr));
	else
	{
		auto d = reinterpret_cast<std::intptr_t>(p) - reinterpret_cast<std::intptr_t>(base);
		if (d < 0 or static_cast<std::size_t>(d) > len * sizeof(V) or d % static_cast<std::intptr_t>(sizeof(V)) != 0) s += "OUTSIDE";
		else put(s, d / static_cast<std::intptr_t>(sizeof(V)));
	}
}

// B: pointer to the first element (typed, so that it also works in constant evaluation)
template <class B, class T> constexpr void ren(std::string& s, B base, std::size_t len, const T& v)
{
	using V = std::remove_cv_t<std::remove_pointer_t<B>>;
	auto list = [&](const auto& c) {
		bool first = true;
		for (std::size_t i = 0; i != c.size(); ++i) { if (not first) s += ','; first = false;
			if constexpr (std::same_as<T, std::vector<bool>>) ren(s, base, len, bool(c[i])); else ren(s, base, len, c[i]); }
	};
	if constexpr (std::same_as<T, int>) { s += 'i'; put(s, v); }
	else if constexpr (std::same_as<T, long>) { s += 'l'; put(s, v); }
	else if constexpr (std::same_as<T, bool>) { s += 'b'; put(s, v); }
	else if constexpr (std::same_as<T, KBox>) { s += 'k'; put(s, v.v); }
	else if constexpr (std::same_as<T, UBox>) { s += 'u'; if (v.dead) s += "DEAD"; else put(s, v.v); }
	else if constexpr (std::same_as<T, Into>) { s += "I("; put(s, v.n); s += ','; put(s, v.d); s += ')'; }
	else if constexpr (std::same_as<T, RBox>) { s += 'R'; put(s, v.n); }
	else if constexpr (vt<T>::kind == 'o') { s += "o("; if (v) ren(s, base, len, *v); s += ')'; }
	else if constexpr (vt<T>::kind == 'v') { s += "v("; list(v); s += ')'; }
	else if constexpr (vt<T>::kind == 'r') { s += "r("; list(v); s += ')'; }
	else if constexpr (vt<T>::kind == 't')
	{
		s += "t(";
		bool first = true;
		std::apply([&](const auto&... e) { ((first ? void() : void(s += ','), first = false, ren(s, base, len, e)), ...); }, v);
		s += ')';
	}
	else if constexpr (vt<T>::kind == 'p') { s += "p("; ren(s, base, len, v.first); s += ','; ren(s, base, len, v.second); s += ')'; }
	else if constexpr (vt<T>::kind == 'x')
	{
		s += 'x'; put(s, static_cast<long long>(v.index())); s += '(';
		std::visit([&](const auto& e) { ren(s, base, len, e); }, v);
		s += ')';
	}
	else if constexpr (span_like<T> or is_view<T>::value)
	{
		if (v.data() == nullptr) s += "s(null)";
		else
		{
			s += "s(";
			if (std::is_constant_evaluated()) put(s, v.data() - base);
			else
			{
				auto d = reinterpret_cast<std::intptr_t>(v.data()) - reinterpret_cast<std::intptr_t>(base);
				auto sz = static_cast<std::intptr_t>(sizeof(V));
				if (d < 0 or d % sz != 0 or static_cast<std::size_t>(d / sz) + v.size() > len) s += "OUTSIDE";
				else put(s, d / sz);
			}
			s += '+'; put(s, static_cast<long long>(v.size())); s += ')';
		}
	}
	else s += '?';
}

template <class T> struct tn { static constexpr void put_name(std::string& s)
{
	if constexpr (std::same_as<T, void>) s += 'V';
	else if constexpr (std::same_as<T, int>) s += 'i';
	else if constexpr (std::same_as<T, long>) s += 'l';
	else if constexpr (std::same_as<T, bool>) s += 'b';
	else if constexpr (std::same_as<T, KBox>) s += 'k';
	else if constexpr (std::same_as<T, UBox>) s += 'u';
	else if constexpr (std::same_as<T, Into>) s += 'I';
	else if constexpr (std::same_as<T, RBox>) s += 'R';
	else if constexpr (is_view<T>::value) s += 'w';
	else if constexpr (span_like<T>) s += 'S';
	else s += '?';
} };
template <class... Ts> constexpr void put_names(std::string& s)
{ bool first = true; ((first ? void() : void(s += ','), first = false, tn<Ts>::put_name(s)), ...); }
template <class T> struct tn<std::optional<T>> { static constexpr void put_name(std::string& s) { s += "o("; put_names<T>(s); s += ')'; } };
template <class T> struct tn<std::vector<T>> { static constexpr void put_name(std::string& s) { s += "v("; put_names<T>(s); s += ')'; } };
template <class T, std::size_t N> struct tn<std::array<T, N>> { static constexpr void put_name(std::string& s) { s += 'r'; put(s, N); s += '('; put_names<T>(s); s += ')'; } };
template <class... Ts> struct tn<std::tuple<Ts...>> { static constexpr void put_name(std::string& s) { s += "t("; put_names<Ts...>(s); s += ')'; } };
template <class... Ts> struct tn<std::variant<Ts...>> { static constexpr void put_name(std::string& s) { s += "x("; put_names<Ts...>(s); s += ')'; } };
template <class A, class B> struct tn<std::pair<A, B>> { static constexpr void put_name(std::string& s) { s += "p("; put_names<A, B>(s); s += ')'; } };

// ------------------------------------------------------------------------------------------------ call log
struct Log {
	const void* base = nullptr; std::size_t len = 0; std::string text; bool on = false;
	void (*hook)() = nullptr;      // run inside every logged call (nested parses, yields)
};
inline thread_local Log tlog;

template <class V> struct as_elem { using type = V; };
template <class A> void log_arg(std::string& s, const A& a, const char*) { ren(s, static_cast<const char*>(tlog.base), tlog.len, a); }

// the element type of the spans inside a value decides how offsets are computed
template <class T> struct elem_of { using type = void; };
template <class T> requires (span_like<T>) struct elem_of<T> { using type = typename T::value_type; };
template <class C> struct elem_of<std::basic_string_view<C>> { using type = C; };
template <class... Ts> struct first_elem { using type = void; };
template <class T, class... Ts> struct first_elem<T, Ts...> { using type = std::conditional_t<std::same_as<typename elem_of<T>::type, void>, typename first_elem<Ts...>::type, typename elem_of<T>::type>; };
template <class T> struct elem_of<std::optional<T>> : elem_of<T> {};
template <class T> struct elem_of<std::vector<T>> : elem_of<T> {};
template <class T, std::size_t N> struct elem_of<std::array<T, N>> : elem_of<T> {};
template <class... Ts> struct elem_of<std::tuple<Ts...>> : first_elem<Ts...> {};
template <class... Ts> struct elem_of<std::variant<Ts...>> : first_elem<Ts...> {};
template <class A, class B> struct elem_of<std::pair<A, B>> : first_elem<A, B> {};

template <class... As> void rt_log(const char* f, int n, const As&... as)
{
	if (not tlog.on) return;
	std::string& s = tlog.text;
	if (not s.empty()) s += ';';
	s += f; put(s, n); s += '(';
	bool first = true;
	auto one = [&](const auto& a) {
		if (not first) s += ',';
		first = false;
		using E = typename elem_of<std::remove_cvref_t<decltype(a)>>::type;
		if constexpr (std::same_as<E, void>) ren(s, static_cast<const char*>(nullptr), 0, a);
		else ren(s, static_cast<const E*>(tlog.base), tlog.len, a);
	};
	(one(as), ...);
	s += ')';
	if (tlog.hook) tlog.hook();
}

// Functions are given the value itself, not a reference to something that stays where it was.
template <class... As> constexpr int digmoved(int d) { return (... or std::is_lvalue_reference_v<As>) ? H(d, 4444) : d; }
#define H_LOG(name) if (not std::is_constant_evaluated()) rt_log(name, K, as...)
#define H_FN(name, R, expr) \
	template <int K> struct name { template <class... As> constexpr R operator()(As&&... as) const { H_LOG(#name); [[maybe_unused]] int d = digmoved<As...>(diglist(as...)); return expr; } };
H_FN(mI, int, (d + K) % MOD)
H_FN(aI, int, (d + K) % MOD)
H_FN(mB, bool, (d + K) % 2 != 0)
H_FN(mK, KBox, KBox{ (d + K) % MOD })
H_FN(aK, KBox, KBox{ (d + K) % MOD })
H_FN(mU, UBox, UBox{ (d + K) % MOD })
H_FN(aU, UBox, UBox{ (d + K) % MOD })
H_FN(mV, void, void())
H_FN(aV, void, void())
H_FN(mO, std::optional<int>, d % 2 == 0 ? std::optional<int>(d) : std::nullopt)
// values that look like those of combinators
using TupIK = std::tuple<int, KBox>; using VarIK = std::variant<int, KBox>; using ArrI = std::array<int, 2>; using PairBI = std::pair<bool, int>;
constexpr std::vector<int> some_ints(int d) { std::vector<int> v; for (int i = 1; i <= d % 3; ++i) v.push_back((d + i) % MOD); return v; }
H_FN(mT, TupIK, (TupIK{ (d + K) % MOD, KBox{ d } }))
H_FN(mE, std::tuple<>, std::tuple<>{})
H_FN(mX, VarIK, (d % 2 == 0 ? VarIK{ std::in_place_index<0>, (d + K) % MOD } : VarIK{ std::in_place_index<1>, KBox{ (d + K) % MOD } }))
H_FN(mL, std::vector<int>, some_ints(d))
H_FN(mA, ArrI, (ArrI{ (d + K) % MOD, d }))
H_FN(mP, PairBI, (PairBI{ d % 2 != 0, (d + K) % MOD }))
// Predicates take what they are given: a value that is handed to them by anything but a constant reference is gone afterwards.
template <class A> constexpr void steal(A&& a)
{
	using T = std::remove_cvref_t<A>;
	if constexpr (not std::is_const_v<std::remove_reference_t<A>> and std::is_default_constructible_v<T> and std::is_move_assignable_v<T>) a = T{};
}
#define H_PRED(name, R, expr) \
	template <int K> struct name { template <class... As> constexpr R operator()(As&&... as) const { H_LOG(#name); [[maybe_unused]] int d = diglist(as...); const R r = expr; (steal(std::forward<As>(as)), ...); return r; } };
H_PRED(fP, bool, d % (K / 100) == K % 100)
H_PRED(gP, bool, d % (K / 100) == K % 100)
H_PRED(fT, bool, true)
H_PRED(gT, bool, true)
H_PRED(fF, bool, false)
H_PRED(gF, bool, false)
H_PRED(fI, long long, static_cast<long long>(d % K) << 32)   // true, although its int value is 0
template <int K> struct mM { template <class A> constexpr std::remove_cvref_t<A> operator()(A&& a) const { auto& as = a; if (not std::is_constant_evaluated()) rt_log("mM", K, as); return std::forward<A>(a); } };
template <int K> struct aR {
	template <class... As, std::size_t... Is> static constexpr auto rev(std::tuple<As...>&& t, std::index_sequence<Is...>)
	{ return std::tuple<std::remove_cvref_t<std::tuple_element_t<sizeof...(Is) - 1 - Is, std::tuple<As...>>>...>(std::get<sizeof...(Is) - 1 - Is>(std::move(t))...); }
	template <class... As> constexpr auto operator()(As&&... as) const
	{ H_LOG("aR"); return rev(std::tuple<As&&...>(std::forward<As>(as)...), std::index_sequence_for<As...>{}); }
};

// other things that can be called: closures, pointers to member functions and to functions
template <int K> inline constexpr auto lI = [](auto&&... as) -> int { H_LOG("lI"); return (digmoved<decltype(as)...>(diglist(as...)) + K) % MOD; };
template <int K> inline constexpr auto lP = [](const auto&... as) { H_LOG("lP"); return diglist(as...) % (K / 100) == K % 100; };
#define H_LOG1(name, x) if (not std::is_constant_evaluated()) rt_log(name, K, x)
template <int K> constexpr int KBox::kI() const { H_LOG1("kI", *this); return (diglist(*this) + K) % MOD; }
template <int K> constexpr bool KBox::kP() const { H_LOG1("kP", *this); return diglist(*this) % (K / 100) == K % 100; }
template <int K> constexpr KBox uK(UBox u) { H_LOG1("uK", u); return KBox{ (diglist(u) + K) % MOD }; }
template <int K> constexpr int iI(int i) { H_LOG1("iI", i); return (diglist(i) + K) % MOD; }
template <int K> constexpr int sI(std::string_view s) { const detail::output_span<char> o(s); H_LOG1("sI", o); return (diglist(o) + K) % MOD; }
template <int K> constexpr KBox pK(UBox u, int i) { if (not std::is_constant_evaluated()) rt_log("pK", K, u, i); return KBox{ (diglist(u, i) + K) % MOD }; }

// ------------------------------------------------------------------------------------------------ runner
template <class V> struct carrier { using type = std::span<const V>; };
template <detail::character V> struct carrier<V> { using type = std::basic_string_view<V>; };

template <class R, class V> void put_result(std::string& out, const R& r, const V* base, std::size_t len, std::size_t limit)
{
	out += r.has_value() ? '1' : '0';
	if (static_cast<bool>(r) != r.has_value()) out += "!bool";
	out += '\t';
	auto rem = r.remaining();
	if (rem.data() == nullptr) out += len == 0 and rem.size() == 0 and base == nullptr ? "0" : "null";
	else
	{
		auto d = reinterpret_cast<std::intptr_t>(rem.data()) - reinterpret_cast<std::intptr_t>(base);
		if (d < 0 or d % static_cast<std::intptr_t>(sizeof(V)) != 0) out += "OUTSIDE";
		else
		{
			std::size_t p = static_cast<std::size_t>(d) / sizeof(V);
			put(out, static_cast<long long>(p));
			if (p > len or rem.size() != len - p) { out += "!size"; put(out, static_cast<long long>(rem.size())); }
		}
	}
	out += '\t';
	if constexpr (not std::same_as<typename R::value_type, void>)
	{ if (r.has_value()) ren(out, base, limit, *r); else out += '-'; }
	else out += '-';
}

// One parse and one lookahead of one input, at a given place; the result in the specification's notation.
template <class P, class V> std::string run_at(const V* base, std::size_t len)
{
	std::string out;
	typename carrier<V>::type in(base, len);
	tlog.base = base; tlog.len = len; tlog.text.clear(); tlog.on = true;
	{
		auto r = P::p.parse(in);
		put_result(out, r, base, len, len);
	}
	out += '\t'; out += tlog.text; out += '\t';
	tlog.text.clear();
	{
		auto r = P::p.lookahead(in);
		put_result(out, r, base, len, len);
	}
	out += '\t'; out += tlog.text;
	tlog.on = false;
	return out;
}

inline char* arena_lo = nullptr;   // first byte after the leading guard page
inline char* arena_hi = nullptr;   // first byte of the trailing guard page
inline void make_arena()
{
	std::size_t pg = 4096, n = 300 * pg;
	char* p = static_cast<char*>(mmap(nullptr, n + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	mprotect(p, pg, PROT_NONE); mprotect(p + pg + n, pg, PROT_NONE);
	arena_lo = p + pg; arena_hi = p + pg + n;
}

inline const char* cur_case = "";
inline std::string out_buf;
inline void flush_out() { std::size_t o = 0; while (o < out_buf.size()) { auto k = write(1, out_buf.data() + o, out_buf.size() - o); if (k <= 0) break; o += static_cast<std::size_t>(k); } out_buf.clear(); }
inline void on_signal(int sig)
{
	flush_out();
	char b[256]; int n = snprintf(b, sizeof b, "%s\t%s\n", cur_case, sig == SIGALRM ? "HANG" : "CRASH");
	if (write(1, b, static_cast<std::size_t>(n)) < 0) {}
	_exit(7);
}

// Two placements: right before an inaccessible page, and right after one with misleading elements behind.
template <class P, class V> void run_case(const long long* syms, std::size_t len)
{
	V* a = reinterpret_cast<V*>(arena_hi) - len;
	for (std::size_t i = 0; i != len; ++i) a[i] = from_int<V>(syms[i]);
	std::string r1 = run_at<P, V>(a, len);
	bool changed = false;
	for (std::size_t i = 0; i != len; ++i) changed |= to_int(a[i]) != to_int(from_int<V>(syms[i]));

	V* b = reinterpret_cast<V*>(arena_lo);
	for (std::size_t i = 0; i != len; ++i) b[i] = from_int<V>(syms[i]);
	for (std::size_t i = 0; i != 64; ++i) b[len + i] = from_int<V>(len ? syms[i % len] : 97);
	std::string r2 = run_at<P, V>(b, len);
	for (std::size_t i = 0; i != len; ++i) changed |= to_int(b[i]) != to_int(from_int<V>(syms[i]));

	out_buf += cur_case; out_buf += '\t'; out_buf += r1;
	out_buf += '\t'; if (r1 != r2) { out_buf += "PLACE "; for (char c : r2) out_buf += c == '\t' ? '|' : c; }
	if (changed) out_buf += "CHANGED";
	out_buf += '\n';
	if (out_buf.size() > 60000) flush_out();
}

template <class P, class V> std::string type_of()
{
	using R = decltype(P::p.parse(std::declval<typename carrier<V>::type>()));
	using L = decltype(P::p.lookahead(std::declval<typename carrier<V>::type>()));
	std::string s;
	tn<typename R::value_type>::put_name(s);
	if (not std::same_as<typename L::value_type, void>) s += "!lookahead-has-value";
	return s;
}

struct Entry { void (*run)(const long long*, std::size_t); std::string (*type)(); };
template <class P> constexpr Entry entry() { return { &run_case<P, typename P::V>, &type_of<P, typename P::V> }; }

// Input lines: "<program> <case> <n> <sym>..." ; output: "T <program> <type>" and "<program> <case> \t ..."
inline int main_loop(const Entry* es, std::size_t n_es)
{
	static char alt[1 << 16];
	stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }) sigaction(s, &sa, nullptr);
#ifndef __SANITIZE_ADDRESS__
	rlimit rl{ 2ull << 30, 2ull << 30 }; setrlimit(RLIMIT_AS, &rl);
#endif
	make_arena();
	for (std::size_t i = 0; i != n_es; ++i) { out_buf += "T\t"; put(out_buf, static_cast<long long>(i)); out_buf += '\t'; out_buf += es[i].type(); out_buf += '\n'; }
	long long p, c, n;
	std::vector<long long> syms;
	char id[64];
	int since = 0;
	while (scanf("%lld %lld %lld", &p, &c, &n) == 3)
	{
		syms.resize(static_cast<std::size_t>(n));
		for (auto& s : syms) if (scanf("%lld", &s) != 1) return 9;
		snprintf(id, sizeof id, "%lld\t%lld", p, c);
		cur_case = id;
		if (since++ % 16 == 0 or n > 200) alarm(20);
		try { es[p].run(syms.data(), syms.size()); }
		catch (...) { out_buf += id; out_buf += "\tEXCEPTION\n"; }
	}
	flush_out();
	return 0;
}

} // namespace h
