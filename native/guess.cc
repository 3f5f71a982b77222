// Guessing: truth of a text, type of a plain scalar, format of an input.
#include "scalar.h"
#include "chunks.h"
#include <Variant/GuessFormat.h>
#include <math.h>
#include <errno.h>
#include <memory>
using namespace libvariant;
using namespace vh;
namespace libvariant {
void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag, ParserImpl *p, ParserActions *action);
}

// ---- truth
static bool truth(const std::string &s) {
	size_t a = 0, b = s.size();
	while (a < b && space(s[a])) ++a;
	while (b > a && space(s[b - 1])) --b;
	std::string t = s.substr(a, b - a);
	if (t.empty()) return true;
	if (t.find_first_not_of('0') == std::string::npos) return false;
	for (size_t i = 0; i < t.size(); ++i) if (t[i] >= 'A' && t[i] <= 'Z') t[i] += 32;
	return !(t == std::string("no").substr(0, t.size()) || t == std::string("false").substr(0, t.size()));
}
static void try_truth(const std::string &s) {
	begin("truth of " + show(s));
	bool r = Variant(s).AsBool();
	check(r == truth(s), "P19", "truth", cur());
}
static void truths() {
	const char al[] = "nNoOfFalsSe01x \t";
	size_t k = sizeof al - 1;
	for (int n = 0; n <= 4; ++n) {
		size_t total = 1;
		for (int i = 0; i < n; ++i) total *= k;
		for (size_t c = 0; c < total; ++c) {
			std::string s;
			for (size_t x = c, i = 0; i < (size_t)n; ++i, x /= k) s += al[x % k];
			try_truth(s);
		}
	}
	for (int i = 0; i < 60000 * g_scale; ++i) {
		static const char *w[] = {"no", "NO", "false", "False", "FALSE", "f", "fals", "0", "000", "n", "yes", "true", "falsey", "nono", "00x", "0 0", "\xff", ""};
		std::string s;
		for (unsigned j = rnd(3); j--;) s += " \t\n\v\f\r"[rnd(6)];
		s += w[rnd(18)];
		if (rnd(4) == 0 && !s.empty()) s[rnd(s.size())] = char(rnd(256));
		if (rnd(6) == 0) s += std::string(1, char(rnd(256)));
		for (unsigned j = rnd(3); j--;) s += " \t\n\v\f\r"[rnd(6)];
		if (rnd(10) == 0) s += w[rnd(18)];
		try_truth(s);
	}
}

// ---- scalars
static void try_scalar(const std::string &s) {
	std::string m = meaning(s);
	begin("plain scalar " + show(s));
	std::unique_ptr<char[]> h(new char[s.size() + 1]);
	memcpy(h.get(), s.c_str(), s.size() + 1);
	bool marks = rnd(8) == 0;
	errno = rnd(2)? ERANGE: 0; // left behind by something else
	Got g;
	GuessScalar(h.get(), s.size(), marks? "an": 0, marks? "tg": 0, 0, &g);
	if (marks) m += " anchor an tag tg";
	check(g.what == m, "P19", "scalar", cur() + ": " + g.what + ", not " + m);
}
static void scalars() {
	const char al[] = "078+-.eExoaF n";
	size_t k = sizeof al - 1;
	for (int n = 0; n <= 4; ++n) {
		size_t total = 1;
		for (int i = 0; i < n; ++i) total *= k;
		for (size_t c = 0; c < total; ++c) {
			std::string s;
			for (size_t x = c, i = 0; i < (size_t)n; ++i, x /= k) s += al[x % k];
			try_scalar(s);
		}
	}
	static const char *w[] = {"null", "Null", "NULL", "~", "nULL", "true", "True", "TRUE", "tRue", "false", "False", "FALSE", "falsE", ".inf", ".Inf", ".INF", "-.inf", "+.inf", "-.Inf", ".nan", ".Nan", ".NAN",
		".NaN", "0o17", "0o18", "0x1fF", "0x", "0o", "0X1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
		"99999999999999999999999", "-99999999999999999999999", "+9223372036854775808", "0o1777777777777777777777", "0xffffffffffffffff", "0x8000000000000000", "1e5", "1.5e-3", ".5", "5.", "-.5E+7", "1e400", "-1e400", "1e", "1.2.3",
		"0000000000000000000000012", "-0", "00", "+", "-", ".", "1 2", "tru", "nullx", "0x1g", "1e5x"};
	size_t nw = sizeof w / sizeof *w;
	for (size_t i = 0; i < nw; ++i) for (int r = 0; r < 8; ++r) try_scalar(w[i]);
	for (int i = 0; i < 40000 * g_scale; ++i) {
		std::string s = w[rnd(nw)];
		switch (rnd(6)) {
		case 0: s[rnd(s.size())] = char(1 + rnd(255)); break;
		case 1: s += char(1 + rnd(255)); break;
		case 2: s = std::string(1, " \t\n\r\v\f"[rnd(6)]) + s; break;
		case 3: s += " \t\n\r\v\f"[rnd(6)]; break;
		case 4: { s.clear(); if (rnd(2)) s += "+-"[rnd(2)]; for (unsigned n = 1 + rnd(24); n--;) s += char('0' + rnd(10)); break; }
		case 5: { s = rnd(2)? "0x": "0o"; for (unsigned n = 1 + rnd(17); n--;) s += "01234567abcdef"[rnd(s[1] == 'x'? 14: 8)]; break; }
		}
		try_scalar(s);
	}
}

// ---- formats
static void formats() {
	for (int i = 0; i < 6000 * g_scale; ++i) {
		std::string s;
		unsigned n = rnd(4) == 0? rnd(3): rnd(40);
		while (n--) s += " \t\n\r\v\f"[rnd(6)];
		size_t lead = s.size();
		if (rnd(5)) s += "<{[1a\"-~\xff#"[rnd(10)] + std::string(rnd(20), '<');
		std::unique_ptr<char[]> h;
		std::unique_ptr<ParserInput> in;
		std::string how;
		if (rnd(2)) {
			h.reset(new char[s.size()]);
			memcpy(h.get(), s.data(), s.size());
			in.reset(new ParserMemoryInput(h.get(), s.size()));
			how = "memory";
		} else {
			unsigned b = 1 + rnd(12), m = 1 + rnd(5);
			in.reset(new Chunks(s, b, m));
			how = "stream with a buffer of " + std::to_string(b) + " and reads of up to " + std::to_string(m);
		}
		begin("format of " + show(s) + " from " + how);
		std::string got, want;
		try {
			SerializeType t = GuessFormat(in.get());
			got = t == SERIALIZE_JSON? "json": "type " + std::to_string(t);
		} catch (const std::runtime_error &e) {
			got = strstr(e.what(), "XML support")? "xml": "nothing";
		}
		want = lead == s.size()? "nothing": s[lead] == '<'? "xml": "json";
		check(got == want, "P19", "format", cur() + ": " + got + ", not " + want);
		check(rest(in.get()) == s, "P19", "format input", cur() + ": input is taken away");
	}
}

int main(int argc, char **argv) {
	init(argc, argv);
	truths();
	scalars();
	formats();
	return finish();
}
