// Bounded stand-in and counterexample search for the JSON reader: an independent recursive-descent reader of the
// documented dialect is compared with the library on systematically enumerated and random byte strings, for several
// ways of cutting the input into chunks.
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Parser.h>
#include <math.h>
using namespace libvariant;
using namespace vh;

struct Ev {
	char k;              // [ ] { } s(tring) k(ey: string) i(nteger) f(loat) t n b(lob) B(egin) E(nd)
	std::string s;
	__int128 i;
	double d;
	bool clamp;
	Ev(char k_): k(k_), i(0), d(0), clamp(false) {}
	bool operator==(const Ev &o) const {
		if (k != o.k) return false;
		if (k == 's' || k == 'b') return s == o.s;
		if (k == 'i') return clamp || o.clamp || i == o.i;
		if (k == 'f') return memcmp(&d, &o.d, sizeof d) == 0 || d == o.d;
		if (k == 't') return i == o.i;
		return true;
	}
};
static std::string text(const std::vector<Ev> &v) {
	std::string o;
	size_t from = v.size() > 40? v.size() - 40: 0;
	for (size_t i = from; i < v.size(); ++i) {
		o += v[i].k;
		if (v[i].k == 's' || v[i].k == 'b') o += show(v[i].s, 60);
		if (v[i].k == 'i' || v[i].k == 't') o += num((long long)v[i].i);
		if (v[i].k == 'f') { char b[40]; snprintf(b, sizeof b, "%.17g", v[i].d); o += b; }
		o += ' ';
	}
	return o;
}

// ---------------------------------------------------------------- reference reader
struct Ref {
	const std::string &in;
	size_t p;
	std::vector<Ev> ev;
	bool ok;
	Ref(const std::string &s): in(s), p(0), ok(false) {}
	bool end() const { return p >= in.size(); }
	unsigned char c() const { return in[p]; }
	static bool legal(unsigned char c) { return c >= 32 || c == '\t' || c == '\n' || c == '\r'; }
	// white space and comments; false: malformed or cut short
	bool ws() {
		for (;;) {
			if (end()) return true;
			if (strchr(" \t\n\r", c()) && c()) { ++p; continue; }
			if (c() != '/') return true;
			++p;
			if (end() || c() != '*') return false;
			++p;
			for (;;) {
				if (end() || !legal(c())) return false;
				if (c() == '*') {
					while (!end() && c() == '*') ++p;
					if (end() || !legal(c())) return false;
					if (c() == '/') { ++p; break; }
				}
				++p;
			}
		}
	}
	// before the document: bytes that cannot start one are passed over
	bool start() {
		int st = 0;          // 0 outside, 1 after '/', 2 in comment, 3 in comment after '*'
		for (; !end(); ++p) {
			unsigned char x = c();
			if (st == 0) { if (x == '[' || x == '{') return true; if (x == '/') st = 1; }
			else if (st == 1) { if (x == '*') st = 2; }
			else if (st == 2) { if (x == '*') st = 3; }
			else if (legal(x)) { st = x == '/'? 0: x == '*'? 3: 2; }
		}
		return false;
	}
	static void utf8(std::string &o, unsigned u) {
		if (u < 0x80) o += char(u);
		else if (u < 0x800) { o += char(0xc0 | u >> 6); o += char(0x80 | (u & 63)); }
		else if (u < 0x10000) { o += char(0xe0 | u >> 12); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); }
		else { o += char(0xf0 | u >> 18); o += char(0x80 | (u >> 12 & 63)); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); }
	}
	bool hex4(unsigned &u) {
		u = 0;
		for (int i = 0; i < 4; ++i, ++p) {
			if (end() || !isxdigit(c())) return false;
			u = u * 16 + (isdigit(c())? c() - '0': (c() | 32) - 'a' + 10);
		}
		return true;
	}
	bool str(std::string &o) {
		++p;
		for (;;) {
			if (end()) return false;
			unsigned char x = c();
			if (x < 32) return false;
			++p;
			if (x == '"') return true;
			if (x != '\\') { o += char(x); continue; }
			if (end()) return false;
			x = c(); ++p;
			switch (x) {
			case 'b': o += '\b'; break;
			case 'f': o += '\f'; break;
			case 'n': o += '\n'; break;
			case 'r': o += '\r'; break;
			case 't': o += '\t'; break;
			case '"': case '\\': case '/': o += char(x); break;
			case 'u': {
				unsigned u, l;
				if (!hex4(u)) return false;
				if (u >= 0xdc00 && u <= 0xdfff) return false;
				if (u >= 0xd800 && u <= 0xdbff) {
					if (end() || c() != '\\') return false;
					++p;
					if (end() || c() != 'u') return false;
					++p;
					if (!hex4(l) || l < 0xdc00 || l > 0xdfff) return false;
					u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
				}
				utf8(o, u);
				break; }
			default: return false;
			}
		}
	}
	bool number() {
		size_t b = p;
		bool flt = false;
		if (c() == '-') ++p;
		if (end() || !isdigit(c())) return false;
		if (c() == '0') ++p;
		else while (!end() && isdigit(c())) ++p;
		if (!end() && c() == '.') { flt = true; ++p; while (!end() && isdigit(c())) ++p; }
		if (!end() && (c() == 'e' || c() == 'E')) {
			flt = true;
			++p;
			if (!end() && (c() == '+' || c() == '-')) ++p;
			if (end() || !isdigit(c())) return false;
			while (!end() && isdigit(c())) ++p;
		}
		// a number must be followed by white space, a comment, a comma or a closing bracket
		if (end() || !c() || !strchr(" \t\n\r/,]}", c())) return false;
		std::string t = in.substr(b, p - b);
		if (flt) { Ev e('f'); e.d = strtod(t.c_str(), 0); ev.push_back(e); }
		else {
			Ev e('i');
			bool neg = t[0] == '-';
			__int128 v = 0;
			for (size_t i = neg; i < t.size(); ++i) { if (v < ((__int128)1 << 100)) v = v * 10 + (t[i] - '0'); }
			if (neg) v = -v;
			if (v > (__int128)UINT64_MAX || v < (__int128)INT64_MIN) e.clamp = true;
			e.i = v;
			ev.push_back(e);
		}
		return true;
	}
	bool lit(const char *w, Ev e) {
		for (; *w; ++w, ++p) if (end() || c() != (unsigned char)*w) return false;
		ev.push_back(e);
		return true;
	}
	bool value() {
		if (end()) return false;
		unsigned char x = c();
		Ev t('t'), f('t');
		t.i = 1;
		if (x == '"') {
			Ev e('s');
			if (!str(e.s)) return false;
			if (e.s.size() >= 5 && memcmp(e.s.data(), "\0BLOB", 5) == 0) e.k = 'b';
			ev.push_back(e);
			return true;
		}
		if (x == '-' || isdigit(x)) return number();
		if (x == 't') return lit("true", t);
		if (x == 'f') return lit("false", f);
		if (x == 'n') return lit("null", Ev('n'));
		return false;
	}
	void run() {
		if (!start()) return;
		ev.push_back(Ev('B'));
		std::vector<char> st;
		// iterative so that depth is no concern
		enum { VALUE, AFTER, FIRST, KEY } w = VALUE;
		for (;;) {
			if (!ws()) return;
			if (end()) return;
			unsigned char x = c();
			if ((w == VALUE || (w == FIRST && st.back() == '[' && x != ']')) && (x == '[' || x == '{')) {
				ev.push_back(Ev(x)); st.push_back(x); ++p; w = FIRST; continue;
			}
			if (w == FIRST && st.back() == '[' && x != ']') w = VALUE;
			if (w == FIRST && st.back() == '{' && x != '}') w = KEY;
			if (w == VALUE) { if (!value()) return; w = AFTER; continue; }
			if (w == KEY) {
				if (x != '"') return;
				Ev e('s');
				if (!str(e.s)) return;
				ev.push_back(e);
				if (!ws() || end() || c() != ':') return;
				++p;
				w = VALUE;
				continue;
			}
			// FIRST with the closing bracket, or AFTER
			if (x == (st.back() == '['? ']': '}')) {
				ev.push_back(Ev(x)); st.pop_back(); ++p; w = AFTER;
				if (st.empty()) { ok = true; ev.push_back(Ev('E')); return; }
				continue;
			}
			if (w == AFTER && x == ',') { ++p; w = st.back() == '['? VALUE: KEY; continue; }
			return;
		}
	}
};

// ---------------------------------------------------------------- the library
struct Rec: ParserActions {
	std::vector<Ev> *ev;
	Rec(std::vector<Ev> *e): ev(e) {}
	void a(char k) { ev->push_back(Ev(k)); }
	virtual void BeginDocument(ParserImpl*) { a('B'); }
	virtual void EndDocument(ParserImpl*) { a('E'); }
	virtual void BeginMap(ParserImpl*, int, const char*, const char*) { a('{'); }
	virtual void EndMap(ParserImpl*) { a('}'); }
	virtual void BeginList(ParserImpl*, int, const char*, const char*) { a('['); }
	virtual void EndList(ParserImpl*) { a(']'); }
	virtual void Scalar(ParserImpl*, double v, const char*, const char*) { a('f'); ev->back().d = v; }
	virtual void Scalar(ParserImpl*, const char *s, unsigned n, const char*, const char*) { a('s'); ev->back().s.assign(s, n); }
	virtual void Scalar(ParserImpl*, bool v, const char*, const char*) { a('t'); ev->back().i = v; }
	virtual void Null(ParserImpl*, const char*, const char*) { a('n'); }
	virtual void Scalar(ParserImpl*, intmax_t v, const char*, const char*) { a('i'); ev->back().i = v; }
	virtual void Scalar(ParserImpl*, uintmax_t v, const char*, const char*) { a('i'); ev->back().i = v; }
	virtual void Scalar(ParserImpl*, BlobPtr b, const char*, const char*) {
		a('b');
		for (unsigned i = 0; i < b->GetNumBuffers(); ++i) ev->back().s.append((const char*)b->GetPtr(i), b->GetLength(i));
	}
};
// exact copies of each piece on the heap, so that reading outside a piece is caught
struct Chunks: ParserInput {
	const std::string &s;
	size_t pos, last;
	unsigned mode;
	char *cur;
	bool bad;
	Chunks(const std::string &x, unsigned m): s(x), pos(0), last(0), mode(m), cur(0), bad(false) {}
	~Chunks() { free(cur); }
	virtual const void *GetPtr(unsigned &len) {
		size_t n = s.size() - pos, k = mode == 0? n: mode == 1? 1: mode == 2? 2: 1 + rnd(mode);
		if (k > n) k = n;
		free(cur);
		cur = (char*)malloc(k? k: 1);
		memcpy(cur, s.data() + pos, k);
		last = k;
		len = k;
		return k? cur: 0;
	}
	virtual void Release(unsigned n) { if (n > last) bad = true; else { pos += n; last -= n; } }
};
struct Out { std::vector<Ev> ev; bool ok; size_t used; bool bad; std::string err; };
static Out lib(const std::string &s, unsigned mode) {
	Out o;
	o.ok = false;
	shared_ptr<Chunks> in(new Chunks(s, mode));
	try {
		Parser p = JSONParser(in);
		p.PushAction(shared_ptr<ParserActions>(new Rec(&o.ev)));
		int r = 0;
		for (int i = 0; i < 10 && r == 0; ++i) r = p.Run();
		o.ok = r == 1;
	} catch (std::exception &e) { o.err = e.what(); }
	o.used = in->pos;
	o.bad = in->bad;
	return o;
}
static std::string modes[] = { "", "" };
static bool prefix(const std::vector<Ev> &a, const std::vector<Ev> &b) {
	for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (!(a[i] == b[i])) return false;
	return true;
}
static void one(const std::string &s, int nmodes = 2) {
	Ref r(s);
	r.run();
	bool blob = false;
	for (auto &e : r.ev) if (e.k == 'b') blob = true;
	static const unsigned M[] = { 0, 1, 2, 7, 64 };
	for (int m = 0; m < nmodes; ++m) {
		begin("JSON text " + show(s, 400) + " chunks " + num(M[m]));
		Out o = lib(s, M[m]);
		check(!o.bad, "P06", "reader released more bytes than it was given");
		if (blob) continue;                  // embedded blobs: only memory safety here
		if (r.ok != o.ok) { fail("P02", r.ok? "valid document rejected": "invalid document accepted", cur()); continue; }
		if (!prefix(r.ev, o.ev) || (r.ok && r.ev.size() != o.ev.size())) {
			// same structure, different text: a string problem
			size_t i = 0;
			while (i < r.ev.size() && i < o.ev.size() && r.ev[i] == o.ev[i]) ++i;
			bool st = i < r.ev.size() && i < o.ev.size() && r.ev[i].k == 's' && o.ev[i].k == 's';
			fail(st? "P03": "P02", st? "string decoded wrongly": "wrong events", cur() + " expected " + text(r.ev) + " got " + text(o.ev));
		}
		if (r.ok) check(o.used == r.p, "P06", "reader must consume exactly the document: " + num(r.p) + " bytes, consumed " + num(o.used));
	}
}

static std::string gen(int depth, int width) {
	static const char *sc[] = { "0", "-0", "1", "-17", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1.5", "-0.0", "1e5",
		"0e1", "0.", "3.e2", "1E-3", "1.25e+10", "5e-324", "1.7976931348623157e308", "true", "false", "null", "\"\"", "\"a\"", "\"\\u00e9\"",
		"\"\\ud834\\udd1e\"", "\"\\u0000x\"", "\"\\\\\\\"\\/\\b\\f\\n\\r\\t\"", "\"\xc3\xa9\"", "\"\xff\x80\"", "12345678901234567890123" };
	static const char *ws[] = { "", "", "", " ", "\n", "\t\r", "/**/", "/* * / ** x*/", " /*a*/ " };
#define WS ws[rnd(sizeof ws / sizeof *ws)]
	std::string o;
	unsigned k = depth <= 0? 0: rnd(3);
	if (k == 0) o = sc[rnd(sizeof sc / sizeof *sc)];
	else {
		unsigned n = rnd(width);
		o = k == 1? "[": "{";
		o += WS;
		for (unsigned i = 0; i < n; ++i) {
			if (i) { o += ","; o += WS; }
			if (k == 2) { o += i & 1? "\"k\"": "\"\\u0041\\n\""; o += WS; o += ":"; o += WS; }
			o += gen(depth - 1, width);
			o += WS;
		}
		o += k == 1? "]": "}";
	}
	return o;
}

int main(int argc, char **argv) {
	init(argc, argv);
	// 1. every lexical context, every byte, several continuations
	static const char *pre[] = { "", "[", "{", "[1", "[0", "[-", "[-0", "[1.", "[1.5", "[1e", "[1e+", "[1e5", "[0e", "[\"", "[\"\\", "[\"\\u", "[\"\\u0", "[\"\\u00",
		"[\"\\u004", "[\"\\ud8", "[\"\\ud834", "[\"\\ud834\\", "[\"\\ud834\\u", "[\"\\ud834\\udd1", "[\"\\ud834\\ud", "[\"a\"", "[t", "[tr", "[tru", "[true", "[f", "[fa", "[fal", "[fals", "[false",
		"[n", "[nu", "[nul", "[null", "[1,", "[1 ", "[ ", "[/", "[/*", "[/**", "[1/", "[1/*", "[1/**/", "{\"", "{\"a", "{\"a\"", "{\"a\" ", "{\"a\":", "{\"a\":1",
		"{\"a\":1,", "{\"a\":1,\"b\"", "{\"a\":{}", "{\"a\":[]", "[[", "[{", "[[]", "[{}", "[[],", "{ ", "{/**/", "/", "/*", "/**", " ", "x", "[\"a\",", "{\"a\":\"", "{\"a\":true",
		"{\"a\":[1,2", "[-1", "[12", "[10", "[1e-5", "[1.0e", "[\"\xc3", "{\"a\":-", "{\"a\":0", "[true,", "[true ", "[1.5/*x*/", "[1e5 " };
	static const char *suf[] = { "", "]", "}", "1]", "\"]", "\":1}", "*/]", "/1]", "0\"]", "01\"]", "001\"]", "0041\"]", "\\udd1e\"]", "udd1e\"]", "e]", "true]", "rue]", "ull]", "alse]", "\"a\":1}", ",1]", ",\"b\":2}", "]]", "}]", "]}", " ]",
		"*/[1]", "/[1]", "[1]", "{}", "5]", "5}", "+5]" };
	for (auto p : pre) for (int b = 0; b < 256; ++b) {
		int k = 0;
		for (auto s : suf) if (b < 128 || ++k % 8 == b % 8) one(std::string(p) + char(b) + s, 1);
		one(std::string(p) + char(b), 2);
	}
	// 2. token sequences
	static const char *tok[] = { "[", "]", "{", "}", ",", ":", "\"a\"", "1", "-", "0", ".", "e", "+", "true", "null", " ", "/*c*/", "\"", "\\", "u0041" };
	const int NT = sizeof tok / sizeof *tok;
	for (int a = 0; a < NT; ++a) for (int b = 0; b < NT; ++b) for (int c = 0; c < NT; ++c) {
		std::string s = std::string(tok[a]) + tok[b] + tok[c];
		one(s, 1);
		one("[" + s + "]", 2);
		one("{\"k\":" + s + "}", 1);
		for (int d = 0; d < NT; ++d) one("[" + s + tok[d] + "]", 1);
	}
	// 3. every UTF-16 code unit escape, surrogate pairs
	for (unsigned u = 0; u < 65536; u += 1) {
		char b[16];
		if (u > 0x900 && (u < 0xd700 || u > 0xe100) && u % 37) continue;
		snprintf(b, sizeof b, (u & 1)? "\\u%04x": "\\u%04X", u);
		one(std::string("[\"") + b + "\"]", 1);
		one(std::string("[\"") + b + "\\uDC00x\"]", 1);
		if (u % 5 == 0) one(std::string("{\"") + b + "\":\"" + b + "z\"}", 2);
	}
	for (unsigned h = 0xd800; h < 0xdc00; h += 31) for (unsigned l = 0xdbf0; l < 0xe010; l += 29) {
		char b[24];
		snprintf(b, sizeof b, "\\u%04x\\u%04x", h, l);
		one(std::string("[\"") + b + "\"]", 2);
	}
	// 4. sizes around the built-in buffer and nesting capacities
	const int sizes[] = { 3480, 3490, 3494, 3495, 3496, 3497, 3498, 3499, 3500, 3501, 3502, 3510, 6990, 6999, 7000, 7001, 7010, 14000, 30000 };
	static const char *tails[] = { "", "\\n", "\\u0041", "\\u00e9", "\\u20ac", "\\ud834\\udd1e", "\xc3\xa9", "\\ud834", "\\u12", "\\" };
	for (int n : sizes) for (int d = -12; d <= 2; ++d) {
		if (n > 7010 && d) continue;
		std::string f(n + d, 'x');
		for (auto t : tails) {
			one("[\"" + f + t + "\"]", 1);
			one("[\"" + f + t + "yyyyyyyy\",\"z\"]", 1);
		}
		one("{\"" + f + "\":\"" + f + "\"}", 1);
		one("[" + std::string(n + d, '1') + "]", 1);
		one("[0." + std::string(n + d, '3') + "e2]", 1);
		one("[1/*" + f + "*/,2]", 1);
	}
	const int deep[] = { 1, 2, 60, 120, 124, 125, 126, 127, 128, 129, 130, 131, 252, 253, 254, 255, 256, 257, 258, 259, 300, 510, 511, 512, 513, 514, 1000, 1024, 2050, 5000 };
	for (int n : deep) {
		std::string a, b, c, z;
		for (int i = 0; i < n; ++i) { a += "["; b += "{\"k\":"; c += i & 1? "[": "{\"k\":"; }
		one(a + std::string(n, ']'), 2);
		one(a + "1" + std::string(n, ']'), 1);
		one(a + std::string(n - 1, ']'), 1);
		one(b + "1" + std::string(n, '}'), 1);
		one(b + "\"x\"" + std::string(n, '}') + "]", 1);
		for (int i = n - 1; i >= 0; --i) z += i & 1? "]": "}";
		one(c + "null" + z, 1);
		if (n > 1) { z[n / 2] = z[n / 2] == ']'? '}': ']'; one(c + "null" + z, 1); }
	}
	// 5. embedded blobs, well formed or not: memory safety only
	static const char b64[] = "AQz09+/=-{}~ \\u0000";
	for (int i = 0; i < 3000; ++i) {
		std::string t = "[\"\\u0000BLOB";
		unsigned n = rnd(40);
		for (unsigned j = 0; j < n; ++j) { unsigned k = rnd(12); if (k < 8) t += char('A' + rnd(26)); else if (k == 8) t += "="; else if (k == 9) t += char(128 + rnd(128)); else t += b64[rnd(12)]; }
		one(t + "\"]", 2);
	}
	for (int b = 1; b < 256; ++b) if (b >= 32 && b != '"' && b != '\\') for (int k = 0; k < 5; ++k)
		one(std::string("[\"\\u0000BLOB") + std::string(k, 'A') + char(b) + std::string((7 - k) % 4, 'B') + "\"]", 1);
	// 6. random documents and random damage to them
	for (int i = 0; i < 9000 * g_scale; ++i) {
		std::string s = rnd(8) == 0? " /*x*/": "";
		s += rnd(2)? "[" + gen(3, 4) + "," + gen(4, 5) + "]": "{\"a\":" + gen(4, 5) + "}";
		if (i % 50 == 0) s = "[" + gen(7, 9) + "]";
		one(s, 5);
		for (int k = 0; k < 4; ++k) {
			std::string t = s;
			unsigned n = 1 + rnd(2);
			for (unsigned j = 0; j < n && !t.empty(); ++j) {
				size_t q = rnd(t.size());
				switch (rnd(4)) {
				case 0: t.erase(q, 1); break;
				case 1: t[q] = "[]{},:\"\\/*0123456789-+.eEtfnu \n\x01\x00\x7f\x80"[rnd(36)]; break;
				case 2: t.insert(q, 1, "[]{},:\"\\/*01.eE-"[rnd(16)]); break;
				default: t.resize(q); break;
				}
			}
			one(t, 2);
		}
	}
	return finish();
}
