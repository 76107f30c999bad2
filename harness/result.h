// Replays histories of operations on result objects (spec/ResultObj.tla).
#pragma once
#include "harness.h"
#include <new>
namespace h {

struct Trk {                                       // copyable, movable, remembers that it was moved from
	int v = 0; bool dead = false;
	Trk() = default;
	explicit Trk(int x) : v(x) {}
	Trk(const Trk&) = default;
	Trk& operator=(const Trk&) = default;
	Trk(Trk&& o) noexcept : v(o.v), dead(o.dead) { o.dead = true; }
	Trk& operator=(Trk&& o) noexcept { if (this != &o) { v = o.v; dead = o.dead; o.dead = true; } return *this; }
};
struct Uniq {
	int v = 0; bool dead = false;
	explicit Uniq(int x) : v(x) {}
	Uniq(Uniq&& o) noexcept : v(o.v), dead(o.dead) { o.dead = true; }
	Uniq& operator=(Uniq&& o) noexcept { v = o.v; dead = o.dead; o.dead = true; return *this; }
};
struct Wide {
	int v = 0; bool dead = false;
	struct raw {};
	Wide(raw, int x) : v(x) {}
	explicit Wide(const int& x) : v(x + 400) {}
	Wide(const Trk& t) : v(t.v + 100), dead(t.dead) {}
	Wide(Trk&& t) : v(t.v + 200), dead(t.dead) { t.dead = true; }
	explicit Wide(Uniq&& u) : v(u.v + 300), dead(u.dead) { u.dead = true; }
	Wide(const Wide&) = default;
	Wide& operator=(const Wide&) = default;
	Wide(Wide&& o) noexcept : v(o.v), dead(o.dead) { o.dead = true; }
	Wide& operator=(Wide&& o) noexcept { if (this != &o) { v = o.v; dead = o.dead; o.dead = true; } return *this; }
};
using OptI = std::optional<int>;
template <class T> using R = detail::result<T, char>;

template <class T> T make(int x)
{
	if constexpr (std::same_as<T, int>) return x;
	else if constexpr (std::same_as<T, bool>) return x != 0;
	else if constexpr (std::same_as<T, OptI>) return x == 0 ? OptI() : OptI(x);
	else if constexpr (std::same_as<T, Wide>) return Wide(Wide::raw{}, x);
	else return T(x);
}
template <class T> void put_val(std::string& s, const T& v)
{
	if constexpr (std::same_as<T, int> or std::same_as<T, bool>) put(s, v);
	else if constexpr (std::same_as<T, OptI>) { if (v) put(s, *v); else s += "none"; }
	else { put(s, v.v); if (v.dead) s += '!'; }
}

inline char text[16] = "abcdefghijklmno";
struct Slot { alignas(64) unsigned char buf[128]; char ty = '-'; };
inline Slot slots[4];
inline unsigned char fill = 0;

template <class F> void with(char ty, F f)
{
	switch (ty) {
	case 'i': f.template operator()<int>(); break;
	case 'b': f.template operator()<bool>(); break;
	case 'o': f.template operator()<OptI>(); break;
	case 't': f.template operator()<Trk>(); break;
	case 'w': f.template operator()<Wide>(); break;
	case 'u': f.template operator()<Uniq>(); break;
	case 'V': f.template operator()<void>(); break;
	default: break;
	}
}
template <class T> R<T>& get(Slot& s) { static_assert(sizeof(R<T>) <= sizeof s.buf); return *std::launder(reinterpret_cast<R<T>*>(s.buf)); }
inline void destroy(Slot& s) { with(s.ty, [&]<class T>() { get<T>(s).~R<T>(); }); s.ty = '-'; }
// builds the new object elsewhere first: its source may depend on the old one
template <class F> void build(Slot& d, char ty, F f)
{
	destroy(d);
	memset(d.buf, fill, sizeof d.buf);
	f(static_cast<void*>(d.buf));
	d.ty = ty;
}
inline detail::input_span<char> rem_of(int a, int n) { return { text + a, static_cast<std::size_t>(n) }; }

inline void observe(std::string& s, Slot& sl)
{
	if (sl.ty == '-') { s += "- "; return; }
	with(sl.ty, [&]<class T>() {
		R<T>& r = get<T>(sl); const R<T>& c = r;
		s += sl.ty;
		bool has = r.has_value();
		s += has ? '1' : '0';
		if (static_cast<bool>(r) != has or c.has_value() != has or static_cast<bool>(c) != has or (r ? true : false) != has or (not c) == has) s += "!flags";
		if constexpr (not std::same_as<T, void>)
		{
			if (has)
			{
				s += '(';
				std::string a, b;
				put_val(a, *r); s += a;
				put_val(b, *c); if (a != b) s += "!const*";
				b.clear(); put_val(b, r.value()); if (a != b) s += "!value()";
				b.clear(); put_val(b, c.value()); if (a != b) s += "!const value()";
				if (&*r != &r.value() or &*r != &*c or &*r != &c.value()) s += "!address";
				static_assert(std::same_as<decltype(*r), T&> and std::same_as<decltype(*c), const T&> and std::same_as<decltype(*std::move(r)), T&&> and std::same_as<decltype(*std::move(c)), const T&&>);
				static_assert(std::same_as<decltype(r.value()), T&> and std::same_as<decltype(c.value()), const T&> and std::same_as<decltype(std::move(r).value()), T&&> and std::same_as<decltype(std::move(c).value()), const T&&>);
				s += ')';
			}
		}
		s += '@';
		auto rem = c.remaining();
		if (rem.data() == nullptr) s += "-1"; else put(s, rem.data() - text);
		s += '+'; put(s, static_cast<long long>(rem.size()));
		s += ' ';
	});
}

template <class To, class From, bool Move> constexpr bool convertible_here =
	(std::same_as<From, int> and not std::same_as<To, int> and not std::same_as<To, void>) or (std::same_as<From, Trk> and std::same_as<To, Wide>) or (std::same_as<From, OptI> and std::same_as<To, bool>) or
	(std::same_as<From, bool> and (std::same_as<To, int> or std::same_as<To, OptI>)) or (Move and std::same_as<From, Uniq> and std::same_as<To, Wide>);

// one operation; the text observed in addition
inline std::string apply(const char* op)
{
	char k = op[0], ty = '-'; int d = 0, s = 0, x = 0, a = 0, n = 0;
	std::string out;
	#define SL(i) slots[(i) - 1]
	switch (k) {
	case 'D': case 'Z': sscanf(op + 1, "%d %c", &d, &ty); with(ty, [&]<class T>() { build(SL(d), ty, [&](void* p) { if (k == 'D') new (p) R<T>; else new (p) R<T>(); }); }); break;
	case 'F': sscanf(op + 1, "%d %c %d %d", &d, &ty, &a, &n); with(ty, [&]<class T>() { build(SL(d), ty, [&](void* p) { new (p) R<T>(detail::failure_tag, rem_of(a, n)); }); }); break;
	case 'S': case 'M': sscanf(op + 1, "%d %c %d %d %d", &d, &ty, &x, &a, &n);
		with(ty, [&]<class T>() { build(SL(d), ty, [&](void* p) {
			if constexpr (std::same_as<T, void>) new (p) R<T>(detail::success_tag, rem_of(a, n));
			else
			{
				T v = make<T>(x);
				if (k == 'M') new (p) R<T>(detail::success_tag, std::move(v), rem_of(a, n));
				else if constexpr (std::copy_constructible<T>) { const T& c = v; new (p) R<T>(detail::success_tag, c, rem_of(a, n)); if constexpr (requires { v.dead; }) if (v.dead) out += "!moved from const"; }
			} }); });
		break;
	case 'C': case 'N': case 'X': sscanf(op + 1, "%d %d", &d, &s); ty = SL(s).ty;
		with(ty, [&]<class T>() { build(SL(d), ty, [&](void* p) {
			R<T>& r = get<T>(SL(s));
			if (k == 'X') new (p) R<T>(std::move(r));
			else if constexpr (not std::same_as<T, Uniq>) { if (k == 'C') new (p) R<T>(std::as_const(r)); else new (p) R<T>(r); } }); });
		break;
	case 'A': case 'B': sscanf(op + 1, "%d %d", &d, &s);
		with(SL(s).ty, [&]<class T>() { if (k == 'B') get<T>(SL(d)) = std::move(get<T>(SL(s))); else if constexpr (not std::same_as<T, Uniq>) get<T>(SL(d)) = std::as_const(get<T>(SL(s))); });
		break;
	case 'K': case 'L': sscanf(op + 1, "%d %c %d", &d, &ty, &s);
		with(SL(s).ty, [&]<class From>() { with(ty, [&]<class To>() { build(SL(d), ty, [&](void* p) {
			R<From>& r = get<From>(SL(s)); (void)r;
			if (k == 'K') { if constexpr (convertible_here<To, From, false>) new (p) R<To>(std::as_const(r)); }
			else if constexpr (convertible_here<To, From, true>) new (p) R<To>(std::move(r)); }); }); });
		break;
	case 'k': case 'l': sscanf(op + 1, "%d %d", &d, &s);
		with(SL(s).ty, [&]<class From>() { with(SL(d).ty, [&]<class To>() {
			R<From>& r = get<From>(SL(s)); R<To>& t = get<To>(SL(d)); (void)r; (void)t;
			if (k == 'k') { if constexpr (convertible_here<To, From, false>) t = std::as_const(r); }
			else if constexpr (convertible_here<To, From, true>) t = std::move(r); }); });
		break;
	case 'W': sscanf(op + 1, "%d %d", &s, &x); with(SL(s).ty, [&]<class T>() { if constexpr (not std::same_as<T, void>) *get<T>(SL(s)) = make<T>(x); }); break;
	case 'T': case 'U': case 't': case 'u': sscanf(op + 1, "%d", &s);
		with(SL(s).ty, [&]<class T>() { if constexpr (not std::same_as<T, void>) {
			R<T>& r = get<T>(SL(s));
			out += "y=";
			if (k == 'T') { T y = *std::move(r); put_val(out, y); }
			else if (k == 'U') { T y = std::move(r).value(); put_val(out, y); }
			else if constexpr (std::copy_constructible<T>) { if (k == 't') { T y = *std::move(std::as_const(r)); put_val(out, y); } else { T y = std::move(std::as_const(r)).value(); put_val(out, y); } }
		} });
		break;
	case 'V': sscanf(op + 1, "%d", &s);
		with(SL(s).ty, [&]<class T>() { if constexpr (not std::same_as<T, void>) {
			R<T>& r = get<T>(SL(s));
			int thrown = 0; std::string a;
			try { a.clear(); put_val(a, r.value()); } catch (const std::bad_optional_access&) { ++thrown; }
			try { a.clear(); put_val(a, std::as_const(r).value()); } catch (const std::bad_optional_access&) { ++thrown; }
			try { (void)std::move(r).value(); } catch (const std::bad_optional_access&) { ++thrown; }
			try { (void)std::move(std::as_const(r)).value(); } catch (const std::bad_optional_access&) { ++thrown; }
			if (thrown == 4) out += "throws"; else if (thrown) out += "!throws sometimes"; else { out += "y="; out += a; }
		} });
		break;
	case 'P': sscanf(op + 1, "%d %d", &d, &s); with(SL(s).ty, [&]<class T>() { std::swap(get<T>(SL(d)), get<T>(SL(s))); }); break;
	case 'E': sscanf(op + 1, "%d", &d); destroy(SL(d)); break;
	default: out += "?";
	}
	return out;
}

// argument: file of lines H:op|obs;op|obs;...  number of slots
inline int replay(const char* file, int n_slots)
{
	FILE* f = fopen(file, "r");
	if (not f) return 9;
	static char line[1 << 20];
	long histories = 0, steps = 0, bad = 0;
	while (fgets(line, sizeof line, f))
	{
		char* b = strstr(line, "H:");
		if (not b) continue;
		b += 2;
		++histories;
		for (unsigned char fl : { 0x01, 0xff })
		{
			fill = fl;
			for (auto& s : slots) destroy(s);
			char* p = b; bool failed = false;
			while (not failed)
			{
				char* bar = strchr(p, '|'); char* semi = bar ? strchr(bar, ';') : nullptr;
				if (not semi) break;
				std::string op(p, bar), want(bar + 1, semi);
				std::string out = apply(op.c_str());
				std::string got; for (int i = 0; i != n_slots; ++i) observe(got, slots[i]);
				got += out;
				++steps;
				if (want != "*" and got != want)
				{
					failed = true; ++bad;
					if (bad <= 40) { std::string hist(b, semi); printf("BAD\t%s\t%s\t%s\n", hist.c_str(), want.c_str(), got.c_str()); }
				}
				p = semi + 1;
			}
		}
	}
	printf("COUNT\t%ld\t%ld\t%ld\n", histories, steps, bad);
	fflush(stdout);
	return 0;
}
} // namespace h
