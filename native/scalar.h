// Plain scalars: the events they give, and a reference of what they stand for.
#ifndef VERIF_SCALAR_H
#define VERIF_SCALAR_H
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Parser.h>
using namespace libvariant;
using namespace vh;

static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }

struct Got : ParserActions {
	std::string what;
	void set(const std::string &k, const char *a, const char *t) {
		what += what.empty()? k: " and " + k;
		if (a) what += std::string(" anchor ") + a;
		if (t) what += std::string(" tag ") + t;
	}
	static std::string dbl(double v) {
		if (v != v) return "float nan";
		char b[64];
		snprintf(b, sizeof b, "float %.17g", v);
		return b;
	}
	void Scalar(ParserImpl *, double v, const char *a, const char *t) { set(dbl(v), a, t); }
	void Scalar(ParserImpl *, const char *s, unsigned n, const char *a, const char *t) { set("text " + show(std::string(s, n), 100), a, t); }
	void Scalar(ParserImpl *, bool v, const char *a, const char *t) { set(v? "true": "false", a, t); }
	void Null(ParserImpl *, const char *a, const char *t) { set("null", a, t); }
	void Scalar(ParserImpl *, intmax_t v, const char *a, const char *t) { set("int " + std::to_string(v), a, t); }
	void Scalar(ParserImpl *, uintmax_t v, const char *a, const char *t) { set("unsigned " + std::to_string(v), a, t); }
};
static bool digits(const std::string &s, size_t &i) {
	size_t a = i;
	while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
	return i > a;
}
// what a plain scalar stands for; an integer that does not fit is the nearest that does
static std::string meaning(const std::string &s) {
	size_t a = 0, b = s.size();
	while (a < b && space(s[a])) ++a;
	while (b > a && space(s[b - 1])) --b;
	std::string t = s.substr(a, b - a), text = "text " + show(s, 100);
	if (t.empty()) return text;
	if (t == "null" || t == "Null" || t == "NULL" || t == "~") return "null";
	if (t == "true" || t == "True" || t == "TRUE") return "true";
	if (t == "false" || t == "False" || t == "FALSE") return "false";
	if (t == ".nan" || t == ".Nan" || t == ".NAN") return "float nan";
	if (t == ".inf" || t == "+.inf" || t == ".Inf" || t == ".INF") return "float inf";
	if (t == "-.inf") return "float -inf";
	if (t.size() > 2 && t[0] == '0' && (t[1] == 'o' || t[1] == 'x')) {
		unsigned base = t[1] == 'o'? 8: 16;
		unsigned __int128 v = 0;
		for (size_t i = 2; i < t.size(); ++i) {
			char c = t[i];
			unsigned d = c >= '0' && c <= '9'? c - '0': c >= 'a' && c <= 'f'? c - 'a' + 10: c >= 'A' && c <= 'F'? c - 'A' + 10: 99;
			if (d >= base) return text;
			if (v >> 64 == 0) v = v * base + d;
		}
		return "unsigned " + std::to_string(v >> 64? UINT64_MAX: (uint64_t)v);
	}
	size_t i = 0;
	bool neg = false;
	if (t[0] == '-' || t[0] == '+') { neg = t[0] == '-'; ++i; }
	size_t d0 = i;
	bool whole = digits(t, i);
	if (whole && i == t.size()) {
		unsigned __int128 v = 0;
		bool big = false;
		for (size_t j = d0; j < i; ++j) { v = v * 10 + (t[j] - '0'); if (v >> 64) { big = true; v = 0; } }
		if (!big && v <= (neg? uint64_t(1) << 63: uint64_t(INT64_MAX))) return "int " + (neg && v? "-" + std::to_string((uint64_t)v): std::to_string((uint64_t)v));
		if (neg) return "int " + std::to_string(INT64_MIN); // does not fit: the nearest that does
		return "unsigned " + std::to_string(big? UINT64_MAX: (uint64_t)v);
	}
	if (i < t.size() && t[i] == '.') {
		++i;
		bool frac = digits(t, i);
		if (!whole && !frac) return text;
	} else if (!whole) return text;
	if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
		++i;
		if (i < t.size() && (t[i] == '-' || t[i] == '+')) ++i;
		if (!digits(t, i)) return text;
	}
	if (i != t.size()) return text;
	return Got::dbl(strtod(t.c_str(), 0));
}
#endif
