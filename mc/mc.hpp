// Stateless exhaustive explorer: a scenario is a function that asks the
// explorer for every nondeterministic choice; the explorer re-executes it for
// every sequence of choices (depth-first), with at most `budget` choices that
// differ from the default where the scenario marks a choice as a deviation.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

// one of n alternatives, all explored
int choose(int n);
// one of n alternatives; every other than 0 costs one unit of the deviation budget
int choosed(int n);
// remaining deviation budget
int budget_left();

// the property is violated: report and stop
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// as fail, but counted only if an immediate re-execution shows it, too
void softfail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// a violation that the known-findings file may list under this key
void failkey(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// this combination of choices is not part of the space (not counted)
void discard();
bool discarded();

// observed outcome, for the count of distinct states
void outcome(uint64_t h);
void outcome(const std::string &s);
// a model step compared with the implementation
void validated(uint64_t n = 1);
void transition(uint64_t n = 1);
// description of the current execution, shown as sample and on violations
void note(const std::string &s);
bool want_note();
extern int tier; // 0 quick, 1 thorough
extern bool in_replay;

uint64_t hash(const void *p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash(const std::string &s, uint64_t seed = 1469598103934665603ull) {
	return hash(s.data(), s.size(), seed);
}

struct Opt {
	int budget = 0;
	double seconds = 200;   // cap for the whole scenario (wall clock)
	int jobs = 0;           // 0: all
	double exec_timeout = 20;
	bool single = false;    // one worker only (scenario enumerates internally)
};
void scenario(const std::string &name, const std::string &bounds, Opt o,
			  const std::function<void()> &fn);
int main(int argc, char **argv, const char *property, const std::function<void()> &body);

// allocation tracking (builds with a sanitizer only)
extern thread_local int in_lib, lib_depth;
struct Lib {
	Lib() { in_lib++; lib_depth++; }
	~Lib() { in_lib--; lib_depth--; }
};
struct NoLib {
	int old;
	NoLib() : old(in_lib) { in_lib = 0; }
	~NoLib() { in_lib = old; }
};
void track_reset();
long track_live();             // blocks the library allocated and nobody freed
size_t track_bytes();
std::string hex(const void *p, size_t n, size_t max = 400);
inline std::string hex(const std::string &s, size_t max = 400) { return hex(s.data(), s.size(), max); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
} // namespace mc

#define LIB(e) ([&]() -> decltype(auto) { mc::Lib l__; return e; }())
