// Replays schedules of several parses (spec/Par.tla) with real threads, and runs them freely.
#pragma once
#include "harness.h"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <map>
#include <mutex>
#include <random>
#include <sstream>
#include <thread>
namespace h {

struct Thrown { int tag; }; // what user functions throw here
template <class P> std::string task_of(const char* base, std::size_t len, bool look)
{
	Log save = std::move(tlog);
	tlog = Log{ base, len, "", true, save.hook };
	std::string out;
	std::string_view in(base, len);
	try
	{
		if (look) { auto r = P::p.lookahead(in); put_result(out, r, base, len, len); }
		else { auto r = P::p.parse(in); put_result(out, r, base, len, len); }
	}
	catch (const Thrown& t) { out = t.tag == 42 ? "T" : "!another exception"; }
	out += '\t'; out += tlog.text;
	tlog = std::move(save);
	return out;
}
// an abandoned parse has made the calls that it makes alone, up to one of them
inline bool as_wanted(const std::string& got, const std::string& want)
{
	if (got.compare(0, 2, "T\t") != 0) return got == want;
	auto l = want.rfind('\t');
	std::string g = got.substr(2), w = want.substr(l + 1);
	return not g.empty() and w.compare(0, g.size(), g) == 0 and (w.size() == g.size() or w[g.size()] == ';');
}
using TaskFn = std::string (*)(const char*, std::size_t, bool);

struct Task { int prog; bool look; std::vector<char> word; std::string want; const char* at = nullptr; };
struct Turn { int thread; int nest; };
struct Scenario { int id; std::vector<int> threads; std::vector<Task> tasks; std::vector<std::vector<Turn>> schedules; };

inline const TaskFn* fns;
inline Scenario* cur;
inline const std::vector<Turn>* sched;
inline std::size_t pos;
inline bool deviates;
inline std::vector<bool> finished;
inline std::mutex mx;
inline std::condition_variable cv;
inline thread_local int me = -1;
inline std::vector<std::string> got;

inline void skip_finished() { while (pos < sched->size() and finished[static_cast<std::size_t>((*sched)[pos].thread)]) { ++pos; deviates = true; } }
inline Turn wait_turn()
{
	std::unique_lock l(mx);
	skip_finished();
	cv.wait(l, [] { skip_finished(); return pos >= sched->size() or (*sched)[pos].thread == me; });
	if (pos >= sched->size()) { deviates = true; cv.notify_all(); return { me, -2 }; }
	return (*sched)[pos];
}
inline void end_turn() { std::lock_guard l(mx); ++pos; cv.notify_all(); }
inline std::string run_task_of(Scenario& s, int k) { const Task& t = s.tasks[static_cast<std::size_t>(k)]; return fns[t.prog](t.at, t.word.size(), t.look); }
inline std::string run_task(int k) { const Task& t = cur->tasks[static_cast<std::size_t>(k)]; return fns[t.prog](t.at, t.word.size(), t.look); }
inline void in_call()
{
	end_turn();
	for (;;)
	{
		Turn t = wait_turn();
		if (t.nest == -3) throw Thrown{ 42 };
		if (t.nest < 0) return;
		std::string r = run_task(t.nest);
		got[static_cast<std::size_t>(t.nest)] = r;
		end_turn();
	}
}
inline void thread_body(int i, int k)
{
	me = i;
	tlog.hook = &in_call;
	Turn t = wait_turn();
	if (t.nest != -2)
	{
		std::string r = run_task(k);
		got[static_cast<std::size_t>(k)] = r;
	}
	std::lock_guard l(mx);
	finished[static_cast<std::size_t>(i)] = true;
	++pos;
	cv.notify_all();
}
inline long n_sched = 0, n_bad = 0, n_free = 0, n_nest = 0;
inline void bad(const char* how, const Scenario& s, int k, const std::string& where, const std::string& r)
{
	if (++n_bad <= 40) { printf("BAD\t%s\t%d\t%d\t%s\t", how, s.id, k, where.c_str()); for (char c : s.tasks[static_cast<std::size_t>(k)].want) putchar(c == '\t' ? '|' : c); putchar('\t'); for (char c : r) putchar(c == '\t' ? '|' : c); putchar('\n'); fflush(stdout); }
}
inline void run_schedule(Scenario& s, const std::vector<Turn>& sc)
{
	cur = &s; sched = &sc; pos = 0; deviates = false;
	finished.assign(s.threads.size(), false);
	got.assign(s.tasks.size(), "");
	std::vector<std::thread> ts;
	for (std::size_t i = 0; i != s.threads.size(); ++i) ts.emplace_back(thread_body, static_cast<int>(i), s.threads[i]);
	for (auto& t : ts) t.join();
	++n_sched;
	std::vector<bool> run(s.tasks.size(), false);
	for (int k : s.threads) run[static_cast<std::size_t>(k)] = true;
	for (auto& t : sc) if (t.nest >= 0) run[static_cast<std::size_t>(t.nest)] = true;
	std::string where;
	for (auto& t : sc) { where += std::to_string(t.thread + 1); if (t.nest >= 0) { where += '>'; where += std::to_string(t.nest + 1); } if (t.nest == -3) where += '!'; where += ' '; }
	bool any = false;
	for (std::size_t k = 0; k != s.tasks.size(); ++k)
		if (run[k] and not as_wanted(got[k], s.tasks[k].want)) { bad("schedule", s, static_cast<int>(k), where, got[k]); any = true; }
	if (deviates and not any) bad("schedule: number of calls", s, 0, where, "deviates");
}

// every call of a user function runs another parse of the scenario
inline thread_local int nest_depth = 0;
inline thread_local unsigned nest_next = 0;
inline std::atomic<long> nest_bad_task{ -1 };
inline void in_call_nest()
{
	if (nest_depth >= 2) return;
	++nest_depth;
	int k = static_cast<int>(nest_next++ % cur->tasks.size());
	++n_nest;
	std::string r = run_task(k);
	if (r != cur->tasks[static_cast<std::size_t>(k)].want) bad("nested", *cur, k, "in a call", r);
	--nest_depth;
}
inline void run_nested(Scenario& s)
{
	cur = &s; tlog.hook = &in_call_nest;
	for (unsigned o = 0; o != s.tasks.size(); ++o)
		for (std::size_t k = 0; k != s.tasks.size(); ++k)
		{
			nest_next = o;
			std::string r = run_task(static_cast<int>(k));
			if (r != s.tasks[k].want) bad("parse with parses nested in its calls", s, static_cast<int>(k), "all", r);
		}
	tlog.hook = nullptr;
}
// the call that comes next but n throws
inline thread_local int throw_in = 0;
inline void in_call_throw() { if (throw_in-- == 0) throw Thrown{ 42 }; }
// everything at once, unsynchronised: shared read-only inputs and a private buffer whose content changes
inline void run_free(std::vector<Scenario>& all, unsigned seed, int rounds, int n_threads)
{
	std::atomic<long> count{ 0 };
	std::mutex out;
	std::vector<std::thread> ts;
	for (int i = 0; i != n_threads; ++i) ts.emplace_back([&, i] {
		std::mt19937 rng(seed + static_cast<unsigned>(i) * 7919);
		std::vector<char> own(4096);
		for (int n = 0; n != rounds; ++n)
		{
			Scenario& s = all[rng() % all.size()];
			for (int j = 0; j != 6; ++j)
			{
				std::size_t k = rng() % s.tasks.size(); Task& t = s.tasks[k];
				std::string r;
				throw_in = static_cast<int>(rng() % 6); tlog.hook = rng() % 4 ? nullptr : &in_call_throw;
				if (rng() % 2) r = fns[t.prog](t.at, t.word.size(), t.look);
				else
				{
					std::copy(t.word.begin(), t.word.end(), own.begin());
					r = fns[t.prog](own.data(), t.word.size(), t.look);
					if (not std::equal(t.word.begin(), t.word.end(), own.begin())) r += "!input changed";
				}
				++count;
				if (not as_wanted(r, t.want)) { std::lock_guard l(out); bad("free run", s, static_cast<int>(k), "", r); }
			}
		}
	});
	for (auto& t : ts) t.join();
	n_free += count;
}

// all inputs of a grammar one after the other in the same memory: nothing may be remembered by where the input lies
inline std::vector<Task> pool;
inline long n_reused = 0;
inline void run_reused()
{
	std::vector<char> own(4096);
	std::size_t last = 0;
	for (int at_end = 0; at_end != 2; ++at_end) for (auto& t : pool)
	{
		if (t.word.size() > own.size()) continue;
		std::fill(own.begin(), own.end(), 'a');
		char* at = own.data() + (at_end ? own.size() - t.word.size() : 0);
		std::copy(t.word.begin(), t.word.end(), at);
		std::string r = fns[t.prog](at, t.word.size(), t.look);
		++n_reused;
		if (r != t.want) { Scenario s; s.id = -1; s.tasks.push_back(t); bad("in memory used before", s, 0, std::to_string(t.prog) + ":" + std::to_string(last), r); }
		last = t.word.size();
	}
}

// exceptions, time and again: what they leave behind would add up
inline long n_thrown = 0;
inline void run_thrown(std::vector<Scenario>& all, int each, int progs)
{
#if defined(__SANITIZE_THREAD__)
	return;
#endif
	auto calls_of = [](const Task& t) { return t.want.back() == '\t' ? 0 : 1 + static_cast<int>(std::count(t.want.begin() + static_cast<std::ptrdiff_t>(t.want.rfind('\t')), t.want.end(), ';')); };
	std::map<int, std::pair<Scenario*, std::size_t>> some; // per program the task that makes the fewest calls, but at least one
	for (auto& s : all) for (std::size_t k = 0; k != s.tasks.size(); ++k)
		if (Task& t = s.tasks[k]; not t.look and calls_of(t) != 0)
			if (auto [it, is_new] = some.try_emplace(t.prog, &s, k); not is_new and calls_of(t) < calls_of(it->second.first->tasks[it->second.second])) it->second = { &s, k };
	for (auto& [prog, where] : some)
	{
		if (progs-- == 0) break;
		Scenario& s = *where.first; const std::size_t k = where.second; Task& t = s.tasks[k];
		const int calls = calls_of(t);
		tlog.hook = &in_call_throw;
		for (int n = 0; n != each; ++n)
		{
			throw_in = n % 16 ? n % 2 ? 0 : calls - 1 : n / 16 % calls;
			std::string r = fns[t.prog](t.at, t.word.size(), false);
			++n_thrown;
			if (not as_wanted(r, t.want)) { bad("after many exceptions", s, static_cast<int>(k), "", r); break; }
		}
		tlog.hook = nullptr;
	}
	for (auto& s : all) for (std::size_t k = 0; k != s.tasks.size(); ++k)
	{
		std::string r = run_task_of(s, static_cast<int>(k));
		if (r != s.tasks[k].want) bad("after many exceptions", s, static_cast<int>(k), "", r);
	}
}

inline void on_par_signal(int sig)
{
	char b[128]; int n = snprintf(b, sizeof b, "\n%s\t%d\n", sig == SIGALRM ? "HANG" : "CRASH", cur ? cur->id : -1);
	fflush(stdout);
	if (write(1, b, static_cast<std::size_t>(n)) < 0) {}
	_exit(7);
}
inline int par_main(const TaskFn* f, int argc, char** argv)
{
	fns = f;
	static char alt[1 << 16];
	stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = on_par_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }) sigaction(s, &sa, nullptr);
	std::ifstream in(argv[1]);
	int rounds = atoi(argv[2]); unsigned seed = static_cast<unsigned>(atoi(argv[3]));
	std::vector<Scenario> all;
	std::string line;
	while (std::getline(in, line))
	{
		std::istringstream l(line.substr(1));
		int n, x;
		if (line[0] == 'S') { Scenario s; l >> s.id >> n; while (n--) { l >> x; s.threads.push_back(x); } all.push_back(std::move(s)); }
		else if (line[0] == 'K' or line[0] == 'W')
		{
			Task t; int look; l >> t.prog >> look >> n; t.look = look;
			while (n--) { l >> x; t.word.push_back(static_cast<char>(x)); }
			t.want = line.substr(line.find('\t') + 1);
			(line[0] == 'W' ? pool : all.back().tasks).push_back(std::move(t));
		}
		else if (line[0] == 'R')
		{
			std::vector<Turn> sc; std::string w;
			while (l >> w) { Turn t{ atoi(w.c_str()) - 1, -1 }; auto g = w.find('>'); if (g != w.npos) t.nest = atoi(w.c_str() + g + 1) - 1; else if (w.back() == '!') t.nest = -3; sc.push_back(t); }
			all.back().schedules.push_back(std::move(sc));
		}
	}
	// the inputs lie in memory that cannot be written
	std::size_t total = 4096;
	for (auto& s : all) for (auto& t : s.tasks) total += t.word.size() + 1;
	total = (total + 4095) / 4096 * 4096;
	char* mem = static_cast<char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	std::size_t o = 0;
	for (auto& s : all) for (auto& t : s.tasks) { std::copy(t.word.begin(), t.word.end(), mem + o); t.at = mem + o; o += t.word.size() + 1; }
	mprotect(mem, total, PROT_READ);
	for (auto& s : all) { alarm(60); for (auto& sc : s.schedules) run_schedule(s, sc); run_nested(s); }
	alarm(600);
	cur = nullptr;
	run_reused();
	if (rounds and not all.empty()) run_free(all, seed, rounds, 6);
	if (rounds and not all.empty()) run_thrown(all, rounds * 100, 4);
	printf("COUNT\t%ld\t%ld\t%ld\t%ld\t%ld\t%ld\n", n_sched, n_nest, n_free, n_bad, n_thrown, n_reused);
	return 0;
}
} // namespace h
