// Runs the texts on stdin (one per line: id, length, codes) through the example programs of the repository.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <stdexcept>
#include <charconv>
#include <unistd.h>
#include <tuple>
namespace x {
inline std::vector<char> buf;
inline std::string nm(std::string_view v) { return std::to_string(v.data() - buf.data()) + "+" + std::to_string(v.size()); }
template <class O> std::string part(const O& o) { return o ? nm(*o) : "-"; }
inline std::string codes(const std::string& s)
{
	std::string out;
	for (std::size_t i = 0; i != s.size(); ++i) { if (i) out += '.'; out += std::to_string(static_cast<int>(s[i])); }
	return out;
}
template <class F> void each_line(F f)
{
	int id; std::size_t n;
	while (scanf("%d %zu", &id, &n) == 2)
	{
		buf.assign(n, 0);
		buf.shrink_to_fit();
		for (auto& c : buf) { int v; if (scanf("%d", &v) != 1) return; c = static_cast<char>(v); }
		std::string_view in(buf.data(), n);
		if (n == 0) { buf.reserve(1); in = std::string_view(buf.data(), 0); }
		printf("%d\t", id); fflush(stdout);
		alarm(20);
		f(in);
		putchar('\n');
	}
	fflush(stdout);
}
} // namespace x
