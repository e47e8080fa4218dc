// Shared part of the replay / stand-in harnesses: seeded structured generation, current-case record, watchdog, failure report.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numbers>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace h {

inline std::uint64_t S = 1;
inline std::uint64_t rnd() { // splitmix64
	std::uint64_t z = (S += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline int ri(int a, int b) { return a + (int) (rnd() % (std::uint64_t) (b - a + 1)); }
inline bool coin(int n = 2) { return rnd() % n == 0; }
inline int sz(int a, int b) { return coin(24) ? ri(b, 6 * b) : ri(a, b); } // how many: now and then well above the usual
inline double ru(double a, double b) { return a + (b - a) * ((rnd() >> 11) * 0x1.0p-53); }

inline std::vector<double> hints;          // numbers of the verifier's models and literals of the current source
inline std::set<std::string> known;        // keys of recorded findings
inline char cur[1 << 16] = "";             // the case being executed
inline std::string curkey;
inline std::string prop;
inline std::uint64_t evals = 0;
inline std::unordered_set<std::uint64_t> distinct;
inline std::vector<std::string> samples;
inline double t_end = 0;
inline std::set<std::string> known_hit;

inline double now() {
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::string num(double x) {
	char b[64];
	std::snprintf(b, sizeof b, "%.17g", x);
	return b;
}

inline void stats() {
	std::printf("STAT evaluations=%llu distinct=%zu\n", (unsigned long long) evals, distinct.size());
	for(auto const& s : samples) std::printf("SAMPLE %s\n", s.c_str());
	for(auto const& k : known_hit) std::printf("KNOWN %s\n", k.c_str());
	std::fflush(stdout);
}

[[noreturn]] inline void fail(std::string const& what) {
	std::printf("FAIL %s :: input: %s\n", what.c_str(), cur);
	stats();
	std::_Exit(3);
}

inline void on_signal(int s) {
	char const* n = s == SIGALRM ? "does not finish (10 s)" : s == SIGSEGV ? "invalid memory access" : s == SIGABRT ? "aborts" : "arithmetic/illegal instruction fault";
	char b[200];
	int l = std::snprintf(b, sizeof b, "FAIL the code under test %s :: input: ", n);
	(void) !write(1, b, l);
	(void) !write(1, cur, std::strlen(cur));
	(void) !write(1, "\n", 1);
	_exit(3);
}

struct Desc {
	std::ostringstream o;
	template<class T> Desc& operator<<(T const& x) {
		if constexpr(std::is_same_v<T, double>) o << num(x);
		else o << x;
		return *this;
	}
};

// starts a case: describes it and counts it
inline void begin(std::string const& d, bool nontrivial = true) {
	std::strncpy(cur, d.c_str(), sizeof cur - 1);
	++evals;
	if(nontrivial && distinct.size() < 4000000) {
		if(distinct.insert(std::hash<std::string>()(d)).second && samples.size() < 3 && (distinct.size() == 1 || distinct.size() == 50 || distinct.size() == 1000))
			samples.push_back(d.substr(0, 600));
	}
	if(evals % 64 == 1) alarm(10);
}

inline void check(bool ok, std::string const& what) {
	if(!ok) fail(what);
}

// a recorded finding is noted, anything else fails
inline void check_k(bool ok, std::string const& key, std::string const& what) {
	if(ok) return;
	if(known.contains(key)) { known_hit.insert(key); return; }
	fail(what + " [key " + key + "]");
}

inline bool more() { return now() < t_end; }

// a coordinate: small integers, halves, tenths, hints, random reals
inline double coordv(int mode) {
	switch(mode) {
	case 0: return ri(-3, 3);
	case 1: return ri(-8, 8) / 2.0;
	case 2: return ri(-20, 20);
	case 3: return ri(-1000, 1000) / 8.0;
	case 4: return hints.empty() ? ri(-5, 5) : hints[rnd() % hints.size()];
	default: return ru(-100, 100);
	}
}
inline int modev() { static int const m[] = {0, 0, 0, 1, 1, 2, 2, 3, 4, 5}; return m[rnd() % 10]; }
// modes whose values are exact multiples of 1/8, small enough for exact double arithmetic
inline int modeq() { static int const m[] = {0, 0, 0, 1, 1, 2, 2, 3}; return m[rnd() % 8]; }

inline void init(int argc, char** argv) {
	prop = argc > 1 ? argv[1] : "";
	S = (argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1) * 0x9e3779b9ull + 12345;
	double budget = argc > 3 ? std::atof(argv[3]) : 3;
	if(argc > 4) {
		std::ifstream f(argv[4]);
		std::string k;
		while(std::getline(f, k)) {
			if(k.rfind("known ", 0) == 0) known.insert(k.substr(6));
			else if(k.rfind("hint ", 0) == 0) {
				double x = std::atof(k.c_str() + 5);
				if(std::isfinite(x) && std::fabs(x) < 1e6) hints.push_back(x);
			}
		}
	}
	t_end = now() + budget;
	for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) std::signal(s, on_signal);
}

inline int done() {
	alarm(0);
	std::puts("PASS");
	stats();
	std::fflush(stdout);
	std::_Exit(0);
}

} // namespace h
