// Common part of the bounded native stand-ins.
//   FAIL <property> <what>   a failing input (what: enough to replay it by hand)
//   CASES <n>                number of cases executed
//   DONE                     the harness ran to its end
#ifndef VERIF_H
#define VERIF_H
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <sanitizer/common_interface_defs.h>

namespace vh {
inline uint64_t g_rng = 88172645463325252ULL;
inline uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 2685821657736338717ULL >> 8; }
inline unsigned rnd(unsigned n) { return unsigned(rnd() % n); }
inline char g_case[8192];
inline unsigned long g_cases = 0, g_last = ~0ul;
inline unsigned g_fails = 0;
inline int g_scale = 1;
inline std::set<std::string> g_seen;

inline std::string show(const std::string &s, size_t max = 300) {
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		if (i >= max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		unsigned char c = s[i];
		char b[8];
		if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += char(c);
	}
	return o + "\"";
}
inline void begin(const std::string &what) {
	size_t n = what.size() < sizeof g_case - 1? what.size(): sizeof g_case - 1;
	memcpy(g_case, what.data(), n);
	g_case[n] = 0;
	++g_cases;
}
inline void begin(std::string &what) { begin((const std::string&)what); } // not std::begin
inline std::string cur() { return g_case; }
// one report per (property, kind)
inline void fail(const char *prop, const std::string &kind, const std::string &what) {
	if (!g_seen.insert(std::string(prop) + kind).second && g_seen.size() < 100) {
		static std::map<std::string, int> n;
		if (++n[std::string(prop) + kind] > 2) return;
	}
	if (++g_fails > 60) return;
	std::string w = kind + ": " + what;
	for (size_t i = 0; i < w.size(); ++i) if (w[i] == '\n') w[i] = ' ';
	printf("FAIL %s %s\n", prop, w.c_str());
	fflush(stdout);
}
inline void check(bool ok, const char *prop, const std::string &kind, const std::string &what = "") {
	if (!ok) fail(prop, kind, what.empty()? cur(): what + " | " + cur());
}
inline void put(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
inline void death() {
	put("\nFAIL * crash: the code under test was stopped (sanitizer, assertion or signal) on: ");
	put(g_case);
	put("\n");
}
inline void tick(int) {
	if (g_last == g_cases) {
		put("\nFAIL * hang: no progress on: ");
		put(g_case);
		put("\n");
		_exit(98);
	}
	g_last = g_cases;
}
inline void init(int argc, char **argv) {
	for (int i = 1; i + 1 < argc; ++i) {
		if (!strcmp(argv[i], "--seed")) g_rng ^= strtoull(argv[i+1], 0, 10) * 0x9e3779b97f4a7c15ULL;
		if (!strcmp(argv[i], "--scale")) g_scale = atoi(argv[i+1]);
	}
	if (!g_rng) g_rng = 1;
	for (int i = 0; i < 16; ++i) rnd();
	__sanitizer_set_death_callback(death);
	setvbuf(stdout, 0, _IOLBF, 0);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = tick;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGALRM, &sa, 0);
	struct itimerval it = {{40, 0}, {40, 0}};
	setitimer(ITIMER_REAL, &it, 0);
}
inline int finish() {
	printf("CASES %lu\nDONE\n", g_cases);
	fflush(stdout);
	_exit(g_fails? 1: 0);
}
inline std::string num(long long v) { return std::to_string(v); }
}
#endif
