// Bounded stand-in and counterexample search for the JSON writer (P04): random values, event sequences, options, targets and
// failures; the text is read by a reader of its own (RFC 8259, no leniency) and by the library.
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Parser.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <Variant/Blob.h>
#include <sstream>
#include <memory>
#include <cmath>
#include <cfloat>
#include <climits>
using namespace libvariant;
using namespace vh;

// ---------------------------------------------------------------- model
struct Node {
	enum K { NUL, BOOL, INT, UINT, DBL, STR, BLOB, LIST, MAP } k;
	bool b; long long i; unsigned long long u; double d;
	std::string s;
	std::vector<Node> l;                               // elements
	std::vector<std::pair<std::string, Node> > m;      // members, in order of the text
	Node(K kk = NUL): k(kk), b(false), i(0), u(0), d(0) {}
};

static std::string text_of(unsigned max) {
	static const char *special[] = {"\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac",
		"\xf0\x9f\x98\x80", " ", "a", "\x0b", "\x1b", "u", "0", "{", "}", "[", "]", ",", ":"};
	std::string s;
	unsigned n = rnd(8) == 0? rnd(max * 20 + 1): rnd(max + 1);
	while (s.size() < n) {
		switch (rnd(4)) {
		case 0: s += special[rnd(sizeof special / sizeof *special)]; break;
		case 1: s += char(rnd(128)); break;
		case 2: if (rnd(6) == 0) s += '\0'; else s += char(1 + rnd(31)); break;
		default: s += char('a' + rnd(26)); break;
		}
	}
	if (s.compare(0, 5, std::string("\0BLOB", 5)) == 0) s[1] = 'x';   // the marker of blobs
	return s;
}
static double dbl() {
	static const double sp[] = {0.0, -0.0, 1, -1, 0.5, 5, 1e15, 1e16, 9999999999999998.0, 1.2345678901234568e16, 99999999999999984.0, 1e17, 1e22, 1e23, 5e-324,
		-5e-324, DBL_MIN, DBL_MAX, -DBL_MAX, 0.1, 1.0 / 3, 1e-4, 1e-5, 9.9999e-5, 123456.789, 4503599627370496.5, 9007199254740993.0, 1e100, 1e-100, 3e16, 1e-7};
	switch (rnd(4)) {
	case 0: return sp[rnd(sizeof sp / sizeof *sp)];
	case 1: { double x; uint64_t b = rnd() ^ (rnd() << 32); memcpy(&x, &b, 8); return std::isfinite(x)? x: 1.5; }
	case 2: return ldexp(double((int64_t)rnd()), int(rnd(130)) - 100);
	default: return double((int)rnd(2000) - 1000) / (1 + rnd(100));
	}
}
static Node make(unsigned depth, bool blobs) {
	Node n;
	switch (rnd(depth? 12: 9)) {
	case 0: n.k = Node::NUL; break;
	case 1: n.k = Node::BOOL; n.b = rnd(2); break;
	case 2: { n.k = Node::INT; static const long long v[] = {0, 1, -1, LLONG_MAX, LLONG_MIN, 2147483647, -2147483648LL, 4294967296LL, 10, -10, 999999999999LL};
		n.i = rnd(2)? v[rnd(sizeof v / sizeof *v)]: (long long)(rnd() ^ (rnd() << 40)) >> rnd(64); break; }
	case 3: n.k = Node::UINT; n.u = rnd(2)? ULLONG_MAX - rnd(3): rnd(3) == 0? (1ULL << 63) + rnd(3): (rnd() ^ (rnd() << 32)) >> rnd(64); break;
	case 4: case 5: n.k = Node::DBL; n.d = dbl(); break;
	case 6: case 7: n.k = Node::STR; n.s = text_of(12); break;
	case 8: if (blobs) { n.k = Node::BLOB; unsigned c = rnd(4)? rnd(20): rnd(700); for (unsigned i = 0; i < c; ++i) n.s += char(rnd(256)); } break;
	case 9: case 10: { n.k = Node::LIST; unsigned c = rnd(rnd(20) == 0? 60: 5); for (unsigned i = 0; i < c; ++i) n.l.push_back(make(depth - 1, blobs)); break; }
	default: {
		n.k = Node::MAP;
		std::map<std::string, int> seen;
		unsigned c = rnd(5);
		for (unsigned i = 0; i < c; ++i) { std::string k = text_of(8); if (seen[k]++) continue; n.m.push_back(std::make_pair(k, make(depth - 1, blobs))); }
		break; }
	}
	return n;
}
static Variant value(const Node &n) {
	switch (n.k) {
	case Node::NUL: return Variant(Variant::NullType);
	case Node::BOOL: return Variant(n.b);
	case Node::INT: return Variant((intmax_t)n.i);
	case Node::UINT: return Variant((uintmax_t)n.u);
	case Node::DBL: return Variant(n.d);
	case Node::STR: return Variant(n.s);
	case Node::BLOB: return Variant(Blob::CreateCopy(n.s.data(), n.s.size()));
	case Node::LIST: { Variant v(Variant::ListType); for (size_t i = 0; i < n.l.size(); ++i) v.Append(value(n.l[i])); return v; }
	default: { Variant v(Variant::MapType); for (size_t i = 0; i < n.m.size(); ++i) v.Set(n.m[i].first, value(n.m[i].second)); return v; }
	}
}

// ---------------------------------------------------------------- strict reader
struct Reader {
	const std::string &t;
	size_t p;
	std::string err;
	std::string tokens;      // the text without insignificant white space
	Reader(const std::string &tt): t(tt), p(0) {}
	bool bad(const char *w) { if (err.empty()) err = std::string(w) + " at " + num(p); return false; }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
	bool lit(const char *w) { size_t n = strlen(w); if (t.compare(p, n, w)) return bad("unknown word"); p += n; tokens += w; return true; }
	static void utf8(std::string &o, unsigned c) {
		if (c < 0x80) o += char(c);
		else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
		else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	}
	bool hex4(unsigned &v) {
		v = 0;
		for (int i = 0; i < 4; ++i, ++p) {
			if (p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("bad escape");
			v = v * 16 + (t[p] <= '9'? t[p] - '0': (t[p] | 32) - 'a' + 10);
		}
		return true;
	}
	bool str(std::string &o) {
		size_t b = p;
		if (p >= t.size() || t[p] != '"') return bad("string expected");
		for (++p;;) {
			if (p >= t.size()) return bad("string not ended");
			unsigned char c = t[p++];
			if (c == '"') break;
			if (c < 32) return bad("control character in a string");
			if (c != '\\') { o += char(c); continue; }
			if (p >= t.size()) return bad("escape not ended");
			switch (t[p++]) {
			case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
			case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
			case 'r': o += '\r'; break; case 't': o += '\t'; break;
			case 'u': {
				unsigned v, w;
				if (!hex4(v)) return false;
				if (v >= 0xdc00 && v < 0xe000) return bad("lone surrogate");
				if (v >= 0xd800 && v < 0xdc00) {
					if (t.compare(p, 2, "\\u")) return bad("lone surrogate");
					p += 2;
					if (!hex4(w)) return false;
					if (w < 0xdc00 || w > 0xdfff) return bad("lone surrogate");
					v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
				}
				utf8(o, v);
				break; }
			default: return bad("unknown escape");
			}
		}
		tokens += t.substr(b, p - b);
		return true;
	}
	bool digits() { size_t b = p; while (p < t.size() && isdigit((unsigned char)t[p])) ++p; return p > b || bad("digit expected"); }
	bool number(Node &n) {
		size_t b = p;
		bool fl = false;
		if (t[p] == '-') ++p;
		if (p < t.size() && t[p] == '0') ++p; else if (!digits()) return false;
		if (p < t.size() && t[p] == '.') { ++p; fl = true; if (!digits()) return false; }
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { ++p; fl = true; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if (!digits()) return false; }
		n.s = t.substr(b, p - b);
		tokens += n.s;
		n.k = fl? Node::DBL: Node::INT;
		if (fl) n.d = strtod(n.s.c_str(), 0);
		return true;
	}
	bool val(Node &n, unsigned depth = 0) {
		ws();
		if (p >= t.size()) return bad("value expected");
		switch (t[p]) {
		case 'n': n.k = Node::NUL; return lit("null");
		case 't': n.k = Node::BOOL; n.b = true; return lit("true");
		case 'f': n.k = Node::BOOL; n.b = false; return lit("false");
		case '"': n.k = Node::STR; return str(n.s);
		case '[':
			n.k = Node::LIST; ++p; tokens += '['; ws();
			if (p < t.size() && t[p] == ']') { ++p; tokens += ']'; return true; }
			for (;;) {
				n.l.push_back(Node());
				if (!val(n.l.back(), depth + 1)) return false;
				ws();
				if (p < t.size() && t[p] == ',') { ++p; tokens += ','; continue; }
				if (p < t.size() && t[p] == ']') { ++p; tokens += ']'; return true; }
				return bad("',' or ']' expected");
			}
		case '{':
			n.k = Node::MAP; ++p; tokens += '{'; ws();
			if (p < t.size() && t[p] == '}') { ++p; tokens += '}'; return true; }
			for (;;) {
				n.m.push_back(std::make_pair(std::string(), Node()));
				ws();
				if (!str(n.m.back().first)) return false;
				ws();
				if (p >= t.size() || t[p] != ':') return bad("':' expected");
				++p; tokens += ':';
				if (!val(n.m.back().second, depth + 1)) return false;
				ws();
				if (p < t.size() && t[p] == ',') { ++p; tokens += ','; continue; }
				if (p < t.size() && t[p] == '}') { ++p; tokens += '}'; return true; }
				return bad("',' or '}' expected");
			}
		default: return number(n);
		}
	}
	bool doc(Node &n) {
		if (!val(n)) return false;
		ws();
		return p == t.size() || bad("text after the document");
	}
};

static std::string b64(const std::string &s) {
	static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < s.size(); i += 3) {
		unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size()? (unsigned char)s[i+1] << 8: 0) | (i + 2 < s.size()? (unsigned char)s[i+2]: 0);
		o += A[v >> 18]; o += A[v >> 12 & 63];
		o += i + 1 < s.size()? A[v >> 6 & 63]: '=';
		o += i + 2 < s.size()? A[v & 63]: '=';
	}
	return o;
}
// what was written (w) against what was read (r)
static bool same(const Node &w, const Node &r, bool exact, std::string &why) {
	switch (w.k) {
	case Node::NUL: if (r.k != Node::NUL) { why = "null"; return false; } return true;
	case Node::BOOL: if (r.k != Node::BOOL || r.b != w.b) { why = "truth value"; return false; } return true;
	case Node::INT: if (r.k != Node::INT || r.s != std::to_string(w.i)) { why = "integer " + num(w.i) + " became " + r.s; return false; } return true;
	case Node::UINT: if (r.k != Node::INT || r.s != std::to_string(w.u)) { why = "unsigned integer became " + r.s; return false; } return true;
	case Node::DBL: {
		char b[64];
		snprintf(b, sizeof b, "%.17g", w.d);
		if (!std::isfinite(w.d)) { if (r.k == Node::NUL) return true; why = "not a finite number"; return false; }
		if (r.k != Node::DBL) { why = std::string("floating point number ") + b + " became " + r.s; return false; }
		if (exact && (r.d != w.d || std::signbit(r.d) != std::signbit(w.d))) { why = std::string("floating point number ") + b + " became " + r.s; return false; }
		return true; }
	case Node::STR: if (r.k != Node::STR || r.s != w.s) { why = "text " + show(w.s) + " became " + show(r.s); return false; } return true;
	case Node::BLOB: if (r.k != Node::STR || r.s != std::string("\0BLOB", 5) + b64(w.s)) { why = "blob " + show(w.s) + " became " + show(r.s); return false; } return true;
	case Node::LIST:
		if (r.k != Node::LIST || r.l.size() != w.l.size()) { why = "number of elements"; return false; }
		for (size_t i = 0; i < w.l.size(); ++i) if (!same(w.l[i], r.l[i], exact, why)) return false;
		return true;
	default: {
		if (r.k != Node::MAP || r.m.size() != w.m.size()) { why = "number of members"; return false; }
		for (size_t i = 0; i < w.m.size(); ++i) {
			const Node *f = 0;
			for (size_t j = 0; j < r.m.size(); ++j) if (r.m[j].first == w.m[i].first) f = &r.m[j].second;
			if (!f) { why = "member " + show(w.m[i].first) + " missing"; return false; }
			if (!same(w.m[i].second, *f, exact, why)) return false;
		}
		return true; }
	}
}

// ---------------------------------------------------------------- targets
struct Target: EmitterOutput {
	std::string got;
	unsigned quota, flushes;
	size_t limit;            // bytes the target takes at all
	int how;                 // beyond the limit: 0 take nothing, 1 throw
	bool failed;
	Target(): quota(~0u), flushes(0), limit(~size_t(0)), how(0), failed(false) {}
	unsigned Write(const void *p, unsigned n) {
		if (quota != ~0u) { unsigned q = 1 + rnd(quota); if (n > q) n = q; }
		if (n > limit - got.size()) n = limit - got.size();
		if (!n) { if (failed) throw std::runtime_error("again"); failed = true; if (how) throw std::runtime_error("target full"); return 0; }
		if (failed) throw std::runtime_error("again");
		got.append((const char*)p, n);
		return n;
	}
	void Flush() { ++flushes; }
	unsigned NumBytesWritten() const { return got.size(); }
};

struct Opt { bool pretty; unsigned indent; unsigned prec; bool has_indent, has_prec; };
static Opt options() {
	Opt o;
	o.pretty = rnd(2);
	o.has_indent = rnd(2);
	static const unsigned in[] = {0, 1, 2, 3, 4, 8, 31, 32, 33, 40, 64, 127, 128, 129, 130, 200, 255, 256, 257, 300, 513, 1000};
	o.indent = in[rnd(sizeof in / sizeof *in)];
	o.has_prec = rnd(4) == 0;
	o.prec = rnd(3) == 0? 17 + rnd(30): rnd(17);
	return o;
}
static Variant params(const Opt &o) {
	Variant p(Variant::MapType);
	p["pretty"] = o.pretty;
	if (o.has_indent) p["indent"] = o.indent;
	if (o.has_prec) p["precision"] = o.prec;
	return p;
}
static std::string describe(const Opt &o) {
	return std::string(o.pretty? "pretty": "plain") + (o.has_indent? " indent " + num(o.indent): "") + (o.has_prec? " precision " + num(o.prec): "");
}
static bool exact(const Opt &o) { return !o.has_prec || o.prec >= 17; }

static bool judge(const Node &n, const std::string &text, const Opt &o, std::string *tokens = 0) {
	Node r;
	Reader rd(text);
	if (!rd.doc(r)) { fail("P04", "the text is not JSON", rd.err + " | " + cur() + " | " + show(text)); return false; }
	std::string why;
	if (!same(n, r, exact(o), why)) { fail("P04", "the text does not stand for the value", why + " | " + cur() + " | " + show(text)); return false; }
	if (tokens) *tokens = rd.tokens;
	return true;
}

// every line of pretty text is indented by its depth
static void layout(const std::string &text, const Opt &o) {
	unsigned depth = 0, ind = o.has_indent? o.indent: 4;
	bool str = false, line_start = false;
	unsigned sp = 0;
	for (size_t i = 0; i < text.size(); ++i) {
		char c = text[i];
		if (str) { if (c == '\\') ++i; else if (c == '"') str = false; continue; }
		if (c == '\n') { line_start = true; sp = 0; continue; }
		if (line_start && c == ' ') { ++sp; continue; }
		if (c == ']' || c == '}') --depth;
		if (line_start) {
			if (sp != depth * ind) { fail("P04", "a line of pretty text is not indented by its depth", num(sp) + " instead of " + num(depth * ind) + " | " + cur() + " | " + show(text)); return; }
			line_start = false;
		}
		if (c == '[' || c == '{') ++depth;
		if (c == '"') str = true;
	}
}

static void emit(Emitter &e, const Node &n, unsigned flush) {
	if (flush && rnd(flush) == 0) e.Flush();
	switch (n.k) {
	case Node::NUL: e.EmitNull(); break;
	case Node::BOOL: if (n.b) e.EmitTrue(); else e.EmitFalse(); break;
	case Node::INT: e.Emit((intmax_t)n.i); break;
	case Node::UINT: e.Emit((uintmax_t)n.u); break;
	case Node::DBL: e.Emit(n.d); break;
	case Node::STR: if (n.s.find('\0') == std::string::npos && rnd(2)) e.Emit(n.s.c_str()); else e.Emit(n.s); break;
	case Node::BLOB: e.Emit(ConstBlobPtr(Blob::CreateCopy(n.s.data(), n.s.size()))); break;
	case Node::LIST:
		if (rnd(2)) e.BeginList(n.l.size()); else e.BeginList();
		for (size_t i = 0; i < n.l.size(); ++i) emit(e, n.l[i], flush);
		e.EndList();
		break;
	default:
		if (rnd(2)) e.BeginMap(n.m.size()); else e.BeginMap();
		for (size_t i = 0; i < n.m.size(); ++i) { e.Emit(n.m[i].first); if (flush && rnd(flush) == 0) e.Flush(); emit(e, n.m[i].second, flush); }
		e.EndMap();
		break;
	}
}

static void one(const Node &n, bool blobs) {
	Opt o = options();
	std::string plain = SerializeJSON(value(n));
	begin(describe(o) + " of " + plain.substr(0, 3000));
	Variant v = value(n);
	std::string ref = Serialize(v, SERIALIZE_JSON, params(o));
	std::string tok, tok2;
	if (!judge(n, ref, o, &tok)) return;
	if (o.pretty) layout(ref, o);
	// options change white space only
	Opt q = o;
	q.pretty = !o.pretty;
	std::string other = Serialize(v, SERIALIZE_JSON, params(q));
	if (judge(n, other, q, &tok2)) check(tok == tok2, "P04", "layout options change more than white space");
	// the library reads back what it wrote (documents are containers)
	if (exact(o) && (n.k == Node::LIST || n.k == Node::MAP)) {
		Variant back;
		bool ok = true;
		try { back = DeserializeJSON(ref); } catch (const std::exception &x) { ok = false; fail("P04", "the library does not read its own text", std::string(x.what()) + " | " + cur()); }
		if (ok) {
			check(back == v && v == back, "P04", "reading back gives another value");
			check(Serialize(back, SERIALIZE_JSON, params(o)) == ref, "P04", "writing what was read back gives another text");
		}
	}
	// every target, with and without flushing in between
	{
		std::shared_ptr<Target> t(new Target);
		if (rnd(3)) t->quota = rnd(2)? 1 + rnd(8): 1 + rnd(600);
		unsigned fl = rnd(2)? 0: 1 + rnd(6);
		{
			Emitter e = JSONEmitter(t, params(o));
			emit(e, n, fl);
			if (n.k == Node::LIST || n.k == Node::MAP)
				check(t->got.size() > 0 && (t->got[t->got.size() - 1] == ']' || t->got[t->got.size() - 1] == '}'), "P04", "the end of a container does not reach the target");
			int how = rnd(3);
			if (how == 0) e.Close();
			else if (how == 1) e.Flush();
			if (how < 2) { Node r; std::string g = t->got; Reader rd(g); check(rd.doc(r), "P04", "flushed text is not complete", rd.err + " | " + show(g)); }
		}
		Node r;
		Reader rd(t->got);
		if (judge(n, t->got, o, &tok2)) check(n.k == Node::MAP || n.k == Node::LIST || tok == tok2, "P04", "writing event by event gives another text");
	}
	// sinks of the library
	{
		std::vector<char> b(ref.size() + 1);
		unsigned k = Serialize(&b[0], ref.size(), v, SERIALIZE_JSON, params(o));
		check(k == ref.size() && std::string(&b[0], k) == ref, "P04", "serialising into memory gives another text");
		std::ostringstream oss;
		Serialize(oss.rdbuf(), v, SERIALIZE_JSON, params(o));
		check(oss.str() == ref, "P04", "serialising into a stream gives another text");
	}
	// a target that fails
	{
		std::shared_ptr<Target> t(new Target);
		t->limit = rnd(ref.size());
		t->how = rnd(2);
		if (rnd(2)) t->quota = 1 + rnd(300);
		bool thrown = false;
		{
			Emitter e = JSONEmitter(t, params(o));
			try { e << v; e.Close(); } catch (const std::exception &) { thrown = true; }
		}
		check(thrown, "P04", "a failing target goes unnoticed");
		check(ref.compare(0, t->got.size(), t->got) == 0, "P04", "a failing target received something that is not the beginning of the text");
	}
}

static void special() {
	const double bad[] = {NAN, -NAN, INFINITY, -INFINITY};
	for (int st = 0; st < 2; ++st) for (unsigned i = 0; i < 4; ++i) for (int in = 0; in < 3; ++in) {
		Variant v(bad[i]);
		if (in == 1) { Variant l(Variant::ListType); l.Append(1); l.Append(v); v = l; }
		if (in == 2) { Variant l(Variant::MapType); l["a"] = v; v = l; }
		Variant p;
		p["strict"] = st != 0;
		begin("not a number " + num(i) + " strict " + num(st) + " in " + num(in));
		bool thrown = false;
		std::string s;
		try { s = Serialize(v, SERIALIZE_JSON, p); } catch (const std::exception &) { thrown = true; }
		check(thrown == (st == 1), "P04", st? "strict writer accepts a number JSON cannot represent": "number JSON cannot represent is refused");
		if (!thrown) {
			Node r;
			Reader rd(s);
			check(rd.doc(r), "P04", "the text is not JSON", rd.err + " " + show(s));
			const Node &x = in == 0? r: in == 1? (r.l.size() == 2? r.l[1]: r): (r.m.size() == 1? r.m[0].second: r);
			check(x.k == Node::NUL, "P04", "a number JSON cannot represent is not written as null", show(s));
		}
	}
	for (int st = 0; st < 2; ++st) {
		Variant p;
		p["strict"] = st != 0;
		begin("blob strict " + num(st));
		bool thrown = false;
		try { Serialize(Variant(Blob::CreateCopy("abc", 3)), SERIALIZE_JSON, p); } catch (const std::exception &) { thrown = true; }
		check(thrown == (st == 1), "P04", st? "strict writer accepts a blob": "blob is refused");
	}
	// parameters
	{
		begin("parameters");
		std::shared_ptr<Target> t(new Target);
		Variant p;
		p["pretty"] = true; p["indent"] = 7; p["precision"] = 5;
		Emitter e = JSONEmitter(t, p);
		check(e.GetParam("pretty").AsBool() && e.GetParam("indent").AsInt() == 7 && e.GetParam("precision").AsInt() == 5, "P04", "parameters given are not in effect");
		e.SetParam("pretty", false); e.SetParam("indent", 3); e.SetParam("precision", 9);
		Variant g = e.GetParams();
		check(!g["pretty"].AsBool() && g["indent"].AsInt() == 3 && g["precision"].AsInt() == 9, "P04", "parameters set are not in effect");
		Variant q;
		q["pretty"] = true; q["indent"] = 2;
		e.SetParams(q);
		g = e.GetParams();
		check(g["pretty"].AsBool() && g["indent"].AsInt() == 2 && g["precision"].AsInt() == 9, "P04", "parameters set are not in effect");
	}
	// every single character, alone, in the middle and as a key
	for (int c = 0; c < 256; ++c) for (int w = 0; w < 3; ++w) {
		Node n(Node::STR);
		n.s = w == 0? std::string(1, char(c)): "ab" + std::string(1, char(c)) + "0f";
		if (c >= 128) n.s += w == 0? "": "";
		if (w == 2) { Node m(Node::MAP); m.m.push_back(std::make_pair(n.s, Node())); n = m; }
		begin("character " + num(c));
		Opt o;
		o.pretty = false; o.has_indent = o.has_prec = false; o.indent = 4; o.prec = 17;
		judge(n, SerializeJSON(value(n)), o);
	}
	// texts and nesting around the sizes of internal buffers
	for (unsigned pre = 0; pre < 4; ++pre) for (unsigned n = 0; n < 1100; n += (n < 100 || (n > 120 && n < 136) || (n > 376 && n < 392) || (n > 500 && n < 520))? 1: 7) {
		Node m(Node::LIST);
		for (unsigned k = 0; k < pre; ++k) { m.l.push_back(Node(Node::INT)); m.l.back().i = 1000000007LL * k; }
		Node s(Node::STR);
		for (unsigned k = 0; k < n; ++k) s.s += char('a' + k % 26);
		m.l.push_back(s);
		m.l.push_back(Node(Node::BOOL));
		begin("text of " + num(n) + " characters after " + num(pre) + " numbers");
		Opt o;
		o.pretty = n & 1; o.has_indent = o.has_prec = false; o.indent = 4; o.prec = 17;
		std::string t = Serialize(value(m), SERIALIZE_JSON, params(o));
		judge(m, t, o);
		Node b(Node::LIST);
		b.l.push_back(Node(Node::BLOB));
		b.l.back().s = s.s;
		judge(b, Serialize(value(b), SERIALIZE_JSON, params(o)), o);
	}
	// runs of small tokens: every fill of the buffer meets every token length
	for (unsigned len = 1; len < 140; ++len) {
		Node m(Node::LIST);
		for (unsigned k = 0; k < 1200 / len + 3; ++k) { Node s(Node::STR); s.s = std::string(len, char('a' + k % 26)); m.l.push_back(s); if (k % 3 == 0) m.l.push_back(Node()); }
		begin("run of texts of " + num(len));
		for (int p = 0; p < 2; ++p) {
			Opt o;
			o.pretty = p; o.has_indent = o.has_prec = false; o.indent = 4; o.prec = 17;
			judge(m, Serialize(value(m), SERIALIZE_JSON, params(o)), o);
		}
	}
	for (unsigned depth = 1; depth < 300; depth += depth < 70? 1: 13) {
		Node n(Node::INT);
		for (unsigned k = 0; k < depth; ++k) {
			Node c(rnd(2)? Node::LIST: Node::MAP);
			if (c.k == Node::LIST) { if (rnd(2)) c.l.push_back(Node()); c.l.push_back(n); if (rnd(2)) c.l.push_back(Node(Node::BOOL)); }
			else { c.m.push_back(std::make_pair("k", n)); if (rnd(2)) c.m.push_back(std::make_pair("z", Node())); }
			n = c;
		}
		begin("nesting of " + num(depth));
		for (int p = 0; p < 2; ++p) {
			Opt o;
			o.pretty = p; o.has_indent = o.has_prec = false; o.indent = 4; o.prec = 17;
			std::string t = Serialize(value(n), SERIALIZE_JSON, params(o));
			if (judge(n, t, o) && p) layout(t, o);
		}
	}
	// every precision, numbers of every magnitude
	for (unsigned prec = 0; prec < 25; ++prec) for (int ex = -30; ex < 31; ++ex) for (int k = 0; k < 3; ++k) {
		Node n(Node::DBL);
		n.d = (k == 0? 1: k == 1? -9.99999999999: 1 + rnd(9000000) / 1e6) * pow(10, ex);
		Opt o;
		o.pretty = false; o.has_indent = false; o.has_prec = true; o.indent = 4; o.prec = prec;
		begin("number of magnitude " + num(ex) + " with precision " + num(prec));
		std::string t = Serialize(value(n), SERIALIZE_JSON, params(o));
		if (judge(n, t, o) && prec) {
			double d = strtod(t.c_str(), 0);
			check(fabs(d - n.d) <= fabs(n.d) * 0.51 * pow(10, 1 - (int)prec) + 1e-300, "P04", "a number is not written with the precision asked for", show(t));
		}
	}
}

int main(int argc, char **argv) {
	init(argc, argv);
	special();
	for (long k = 0; k < 4000L * g_scale && g_fails < 30; ++k) {
		bool blobs = rnd(3) == 0;
		one(make(rnd(5), blobs), blobs);
	}
	return finish();
}
