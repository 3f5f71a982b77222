// Values written and read again: as events, as JSON, as XML property lists and as YAML, through every target and source.
#include "h.h"
#include <list>
#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include <Variant/Emitter.h>
#include <Variant/Parser.h>
#include <math.h>
#include <float.h>
#include <sstream>
#include <libxml/xmlerror.h>
#include <deque>
using namespace libvariant;
using namespace vh;
typedef std::string S;
static const char *PROP = "P22";

// ------------------------------------------------------------------ values
struct J {
	enum T { Null, Bool, Int, Uint, Flt, Str, Dat, List, Map } t = Null;
	bool b = false;
	int64_t i = 0;
	uint64_t u = 0;
	double d = 0;
	S s;
	std::vector<J> l;
	std::map<S, J> m;
	J(T t = Null) : t(t) {}
};
static Variant lib(const J &a) {
	switch (a.t) {
	case J::Null: return Variant();
	case J::Bool: return Variant(a.b);
	case J::Int: return Variant((intmax_t)a.i);
	case J::Uint: return Variant((uintmax_t)a.u);
	case J::Flt: return Variant(a.d);
	case J::Str: return Variant(a.s);
	case J::Dat: {
		// in one or two buffers
		static std::list<S> kept;
		if (rnd(3) == 0) {
			if (kept.size() > 5000) kept.pop_front();
			kept.push_back(a.s);
			const S &s = kept.back();
			struct iovec v[3];
			size_t n = 1 + rnd(3), at = 0;
			for (size_t i = 0; i < n; ++i) {
				size_t k = i + 1 == n? s.size() - at: rnd(s.size() - at + 1);
				v[i].iov_base = (void*)(s.data() + at); v[i].iov_len = k;
				at += k;
			}
			return Variant(Blob::CreateReferenced(v, n));
		}
		struct iovec v[2];
		size_t k = a.s.empty()? 0: rnd(a.s.size() + 1);
		v[0].iov_base = (void*)a.s.data(); v[0].iov_len = k;
		v[1].iov_base = (void*)(a.s.data() + k); v[1].iov_len = a.s.size() - k;
		return rnd(2)? Variant(Blob::CreateCopy(a.s.data(), a.s.size())): Variant(Blob::CreateCopy(v, 2));
	}
	case J::List: { Variant v(Variant::ListType); for (const J &x: a.l) v.Append(lib(x)); return v; }
	default: { Variant v(Variant::MapType); for (auto &x: a.m) v.Set(x.first, lib(x.second)); return v; }
	}
}
static S bytes(ConstBlobPtr b) {
	S r;
	ConstBlobPtr c = b;
	for (unsigned i = 0; i < c->GetNumBuffers(); ++i) r.append((const char*)c->GetIOVec()[i].iov_base, c->GetIOVec()[i].iov_len);
	return r;
}
static S text(const J &a) {
	char b[64];
	switch (a.t) {
	case J::Null: return "null";
	case J::Bool: return a.b? "true": "false";
	case J::Int: snprintf(b, sizeof b, "%lld", (long long)a.i); return b;
	case J::Uint: snprintf(b, sizeof b, "%lluu", (unsigned long long)a.u); return b;
	case J::Flt: snprintf(b, sizeof b, "%.17gf", a.d); return b;
	case J::Str: return show(a.s, 100);
	case J::Dat: return "blob " + show(a.s, 40);
	case J::List: { S r = "["; for (const J &x: a.l) r += (r.size() > 1? ",": "") + text(x); return r + "]"; }
	default: { S r = "{"; for (auto &x: a.m) r += (r.size() > 1? ",": "") + show(x.first, 60) + ":" + text(x.second); return r + "}"; }
	}
}
// "" or where they differ; whole numbers may change between signed and unsigned
static bool g_unsigned = false; // JSON: numbers without sign are unsigned
static S differ(const J &a, const Variant &v, bool exact) {
	switch (a.t) {
	case J::Null: if (!v.IsNull()) return "null changed"; break;
	case J::Bool: if (!v.IsBool() || v.AsBool() != a.b) return "truth value changed"; break;
	case J::Int: if (!(v.GetType() == Variant::IntegerType || (!exact && g_unsigned && a.i >= 0 && v.GetType() == Variant::UnsignedType)) || v.AsLongDouble() != (long double)a.i) return "integer changed"; break;
	case J::Uint: if (!(exact? v.GetType() == Variant::UnsignedType: (v.GetType() == Variant::IntegerType || v.GetType() == Variant::UnsignedType)) || v.AsLongDouble() != (long double)a.u) return "unsigned integer changed"; break;
	case J::Flt: if (v.GetType() != Variant::FloatType || v.AsDouble() != a.d || signbit(v.AsDouble()) != signbit(a.d)) return "floating point number changed"; break;
	case J::Str: if (!v.IsString() || v.AsString() != a.s) return "string changed"; break;
	case J::Dat: if (v.GetType() != Variant::BlobType || bytes(v.AsBlob()) != a.s) return "blob changed"; break;
	case J::List:
		if (!v.IsList() || v.Size() != a.l.size()) return "list changed";
		for (size_t i = 0; i < a.l.size(); ++i) { S w = differ(a.l[i], v.At((unsigned)i), exact); if (!w.empty()) return w; }
		break;
	default:
		if (!v.IsMap() || v.Size() != a.m.size()) return "map changed";
		for (auto &x: a.m) {
			if (!v.Contains(x.first)) return "key changed";
			S w = differ(x.second, v.At(x.first), exact);
			if (!w.empty()) return w;
		}
	}
	return S();
}

// ------------------------------------------------------------------ random values
enum Form { EVENTS = -1, JSON = SERIALIZE_JSON, YAML = SERIALIZE_YAML, XML = SERIALIZE_XMLPLIST };
static void utf8(S &o, unsigned c) {
	if (c < 0x80) o += char(c);
	else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}
static bool allowed(unsigned c, Form f) {
	if (f == EVENTS) return true;
	if (c >= 0xd800 && c < 0xe000) return false;
	if (f == XML) return c == 9 || c == 10 || c == 13 || (c >= 32 && c != 0xfffe && c != 0xffff);
	if (f == YAML) return c != 0 && c != 0xfffe && c != 0xffff;
	return true;
}
static const char *WORDS[] = {"", " ", "  ", "\t", "\n", " \n ", "true", "false", "null", "Null", "~", "yes", "no", "on", "off", "y", "n", "12", "-3", "+4", "0x1f", "010", "1.5", "-.5", "1e3", "1.", ".inf", "-.inf", ".nan", "inf", "nan",
	"18446744073709551615", "9223372036854775808", "a: b", "- x", "# c", "a #b", "'q'", "\"d\"", "{", "}", "[", "]", ",", "&x", "*x", "!t", "|", ">", "%", "@", "`", "?", ":", "-", "---", "...", "<a>", "&amp;", "]]>", "<!--", "a\nb", "a\n\n b\n", " lead", "trail ", "a\rb",
	"key", "string", "dict", "plist", "<key>", "=", "<<", "\\", "/", "\\n", "\xef\xbb\xbf", "\xc2\x85", "\xe2\x80\xa8", "\xc2\xa0", "a  b", "x:", ":x", "0b1", "0o7", "1_0", "12:30", "2001-01-01", "\x7f"};
static S rstr(Form f) {
	S s;
	switch (rnd(6)) {
	case 0: case 1: return WORDS[rnd(sizeof WORDS / sizeof *WORDS)];
	case 2: for (unsigned n = rnd(8); n; --n) s += WORDS[rnd(sizeof WORDS / sizeof *WORDS)]; return s;
	case 3: for (unsigned n = rnd(12); n; --n) s += char('a' + rnd(26)); return s;
	default:
		for (unsigned n = rnd(rnd(20)? 14: 3000); n; --n) {
			unsigned c;
			switch (rnd(8)) {
			case 0: c = rnd(32); break;
			case 1: c = rnd(0x800); break;
			case 2: c = rnd(0x10000); break;
			case 3: c = rnd(0x110000); break;
			case 4: c = " \n\t'\":-#,[]{}&*!|>%@`?<\\/~.0"[rnd(29)]; break;
			default: c = 32 + rnd(95);
			}
			if (allowed(c, f)) utf8(s, c);
		}
		return s;
	}
}
static J rval(Form f, int depth) {
	J a;
	switch (rnd(depth > 0? 12: 8)) {
	case 0: return a;
	case 1: a.t = J::Bool; a.b = rnd(2); return a;
	case 2: a.t = J::Int; a.i = rnd(2)? (int64_t)rnd(2000) - 1000: (int64_t)(rnd() << 8 ^ rnd()); switch (rnd(12)) { case 0: a.i = INT64_MAX; break; case 1: a.i = INT64_MIN; break; case 2: a.i = 0; } return a;
	case 3: a.t = J::Uint; a.u = rnd(2)? rnd(2000): (rnd() << 8 ^ rnd()); switch (rnd(8)) { case 0: a.u = UINT64_MAX; break; case 1: a.u = 1ull << 63; } return a;
	case 4: {
		a.t = J::Flt;
		uint64_t b = rnd() << 10 ^ rnd();
		switch (rnd(6)) {
		case 0: a.d = (int)rnd(2000) - 1000; break;
		case 1: a.d = ((int)rnd(20001) - 10000) / 100.0; break;
		case 2: a.d = rnd(2)? DBL_MAX: DBL_MIN; break;
		case 3: a.d = ldexp(1, (int)rnd(2000) - 1000); break;
		default: memcpy(&a.d, &b, 8);
		}
		if (a.d != a.d || (f == JSON && isinf(a.d))) a.d = 0.1;
		if (f != JSON && rnd(20) == 0) a.d = rnd(2)? INFINITY: -INFINITY;
		if (a.d == 0) a.d = 0;
		return a;
	}
	case 5: case 6: a.t = J::Str; a.s = rstr(f); return a;
	case 7: {
		a.t = J::Dat;
		unsigned n = rnd(8)? rnd(120): rnd(3000);
		for (; n; --n) a.s += char(rnd(256));
		return a;
	}
	case 8: case 9: a.t = J::List; for (unsigned n = rnd(5); n; --n) a.l.push_back(rval(f, depth - 1)); return a;
	default: a.t = J::Map; for (unsigned n = rnd(5); n; --n) { S k = rstr(f); a.m[k] = rval(f, depth - 1); } return a;
	}
}
// in JSON a string with the mark of blobs stands for a blob
static bool marked(const J &a) {
	static S mark;
	if (mark.empty()) { S t = SerializeJSON(Variant(Blob::CreateCopy("", 0))); mark = t.size() > 2? t.substr(1, t.size() - 2): "\x01"; }
	if (a.t == J::Str && a.s.compare(0, mark.size(), mark) == 0) return true;
	for (const J &x: a.l) if (marked(x)) return true;
	for (auto &x: a.m) if (marked(x.second)) return true;
	return false;
}

// ------------------------------------------------------------------ through a format
static Variant params(Form f, S &what) {
	Variant p;
	if (rnd(3) == 0) return p;
	if (f == YAML) {
		static const char *st[] = {"any", "block", "flow"};
		if (rnd(2)) p["map_style"] = st[rnd(3)];
		if (rnd(2)) p["list_style"] = st[rnd(3)];
		if (rnd(3) == 0) p["indent"] = 2 + (int)rnd(7);
		if (rnd(3) == 0) p["width"] = 10 + (int)rnd(200);
		if (rnd(3) == 0) p["implicit_document_begin"] = (bool)rnd(2);
		if (rnd(3) == 0) p["implicit_document_end"] = (bool)rnd(2);
	} else {
		if (rnd(2)) p["pretty"] = (bool)rnd(2);
		if (rnd(2)) p["indent"] = rnd(9);
	}
	if (rnd(3) == 0) p["precision"] = 17 + rnd(4);
	if (!p.IsNull()) what += " options " + SerializeJSON(p);
	return p;
}
static S slurp(const S &n) { S r; FILE *f = fopen(n.c_str(), "rb"); if (!f) return "no file"; int c; while ((c = getc(f)) != EOF) r += char(c); fclose(f); return r; }
static void spill(const S &n, const S &t) { FILE *f = fopen(n.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static S write(Variant v, SerializeType ty, Variant p, int how) {
	switch (how) {
	case 0: return Serialize(v, ty, p);
	case 1: {
		std::vector<char> b(200000);
		unsigned n = Serialize(&b[0], b.size(), v, ty, p);
		return S(&b[0], n);
	}
	case 2: Serialize(S("out.txt"), v, ty, p); { S r = slurp("out.txt"); unlink("out.txt"); return r; }
	case 3: { FILE *f = fopen("out.txt", "wb"); Serialize(f, v, ty, p); fclose(f); S r = slurp("out.txt"); unlink("out.txt"); return r; }
	default: { std::stringbuf b; Serialize(&b, v, ty, p); return b.str(); }
	}
}
static Variant read(const S &t, SerializeType ty, int how, bool guess) {
	switch (how) {
	case 0: return guess? DeserializeGuess(t): Deserialize(t, ty);
	case 1: return guess? DeserializeGuess(t.c_str()): Deserialize(t.c_str(), ty);
	case 2: { std::vector<char> b(t.begin(), t.end()); return guess? DeserializeGuess(&b[0], b.size()): Deserialize(&b[0], b.size(), ty); }
	case 3: { spill("in.txt", t); Variant v = guess? DeserializeGuessFile("in.txt"): DeserializeFile("in.txt", ty); unlink("in.txt"); return v; }
	case 4: { spill("in.txt", t); FILE *f = fopen("in.txt", "rb"); Variant v = guess? DeserializeGuessFile(f): DeserializeFile(f, ty); fclose(f); unlink("in.txt"); return v; }
	case 5: { std::stringbuf b(t); return guess? DeserializeGuessFile(&b): DeserializeFile(&b, ty); }
	default: {
		LoadAllIterator i = rnd(2)? DeserializeAll(t, ty): DeserializeAll(t.data(), t.size(), ty);
		Variant v = *i;
		check(v.IsNull() || ++i == LoadAllIterator(), PROP, "iterating does not end after one value");
		return v;
	}
	}
}
static void format(Form f, const J &a) {
	SerializeType ty = (SerializeType)f;
	static const char *fn[] = {"", "JSON", "YAML", "XML"};
	if (f == JSON && marked(a)) return;
	if (f == JSON && a.t != J::List && a.t != J::Map) { J l(J::List); l.l.push_back(a); format(f, l); return; } // a document is a list or a map
	S what = S(fn[f]) + " of " + text(a);
	begin(what);
	Variant p = params(f, what);
	int how = rnd(5), how2 = rnd(7);
	if (how == 1) {
		S w = text(a);
		if (w.size() > 20000) how = 0;
	}
	what += " target " + num(how) + " source " + num(how2);
	begin(what);
	--g_cases;
	S t;
	Variant v = lib(a);
	try { t = write(v, ty, p, how); }
	catch (std::exception &e) { fail(PROP, "writing is refused", S(e.what()) + " | " + what); return; }
	if (how2 == 1 && t.find('\0') != S::npos) how2 = 0;
	bool guess = false;
	if (how2 < 6 && rnd(4) == 0 && !t.empty()) {
		// what does not look like XML is read as YAML
		guess = f == JSON? false: f == XML? true: t.compare(0, 3, "---") == 0;
	}
	g_unsigned = f == JSON;
	if (rnd(4) == 0) errno = ERANGE; // left by a call before
	begin(what + (guess? " guessed ": " ") + "text " + show(t, 2000));
	--g_cases;
	try {
		Variant w = read(t, ty, how2, guess);
		S d = differ(a, w, false);
		check(d.empty(), PROP, d);
		check(differ(a, v, true).empty(), PROP, "writing changes the value");
	} catch (std::exception &e) { fail(PROP, "what was written is refused", S(e.what()) + " | " + cur()); }
	if (rnd(6) == 0 && !t.empty()) {
		// memory that is just large enough or too small
		size_t n = rnd(2)? t.size(): t.size() - 1 - rnd(rnd(2)? std::min<size_t>(t.size(), 20): t.size());
		std::vector<char> b(n + 1); // one more, never written
		b[n] = 'E';
		bool ok = true;
		unsigned k = 0;
		begin(what + " into " + num(n) + " bytes text " + show(t, 2000));
		try { k = Serialize(&b[0], n, v, ty, p); } catch (std::exception &) { ok = false; }
		check(b[n] == 'E', PROP, "more is written than fits");
		if (n == t.size()) check(ok && k == n && S(&b[0], n) == t, PROP, "what fits is refused or written differently");
		else check(!ok, PROP, "what does not fit is not reported");
	}
	if (f != JSON && rnd(3) == 0) {
		// a damaged text is refused or read as something
		S u = t;
		for (size_t n = 1 + rnd(4); n && !u.empty(); --n) {
			size_t at = rnd(u.size()), len = std::min<size_t>(rnd(12), u.size() - at);
			switch (rnd(5)) {
			case 0: u.erase(at, len); break;
			case 1: u[at] = char(rnd(256)); break;
			case 2: u.insert(at, u.substr(rnd(u.size()), rnd(30))); break;
			case 3: { static const char *ins[] = {"<array/>", "<dict>", "</dict>", "<key>", "<string>x</string>", "<integer>", "<data>", "</data>", "<plist>", "</plist>", "<true>", "<null>", "&a ", "*a", "- ", ": ", "--- ", "\n...\n", "!!binary ", "? ", "{", "]", "<real/>", "<string/>"}; u.insert(at, ins[rnd(24)]); break; }
			default: u.resize(at); break;
			}
		}
		begin(S(fn[f]) + " damaged text " + show(u, 2000));
		try {
			if (rnd(2)) Deserialize(u, ty);
			else { size_t k = 0; for (LoadAllIterator i = DeserializeAll(u, ty); i != LoadAllIterator() && k < 1000; ++i) ++k; check(k < 1000, PROP, "reading does not end"); }
		} catch (std::exception &) {}
	}
	if (f == XML && rnd(3) == 0) {
		// comments do not count
		S u = t;
		for (int tries = 0; tries < 3; ++tries) {
			size_t at = rnd(u.size() + 1), lt = u.find_last_of("<&", at? at - 1: 0), first = u.find("?>");
			if (first == S::npos || at < first + 2 || (at < u.size() && (u[at] & 0xC0) == 0x80)) continue;
			if (lt != S::npos && lt < at && u.find_first_of(u[lt] == '<'? ">": ";", lt) >= at) continue;
			u.insert(at, "<!-- c -->");
		}
		begin("XML of " + text(a) + " text " + show(u, 2000));
		try {
			S d = differ(a, Deserialize(u, ty), false);
			check(d.empty(), PROP, "with comments: " + d);
		} catch (std::exception &e) { fail(PROP, "comments are refused", S(e.what()) + " | " + cur()); }
		// empty elements in the long form
		u = t;
		for (const char *n: {"null", "true", "false", "array", "dict"}) {
			S e = S("<") + n + "/>";
			for (size_t at = 0; (at = u.find(e, at)) != S::npos; ++at) if (rnd(2)) u.replace(at, e.size(), S("<") + n + ">" + (rnd(3)? "": "\n") + "</" + n + ">");
		}
		begin("XML of " + text(a) + " text " + show(u, 2000));
		try {
			S d = differ(a, Deserialize(u, ty), false);
			check(d.empty(), PROP, "empty elements in the long form: " + d);
		} catch (std::exception &e) { fail(PROP, "empty elements in the long form are refused", S(e.what()) + " | " + cur()); }
		// the same text as CDATA
		u = t;
		for (size_t at = 0; (at = u.find("<string>", at)) != S::npos; ) {
			size_t b = at + 8, e = u.find("</string>", b);
			at = e;
			if (e == S::npos || u.find_first_of("&\r", b) < e || e == b || rnd(2)) continue;
			size_t m = b;
			if (rnd(2)) { m = b + rnd(e - b); while ((u[m] & 0xC0) == 0x80) --m; }
			u.insert(e, "]]>");
			u.insert(m, "<![CDATA[");
			at = e + 12;
		}
		begin("XML of " + text(a) + " text " + show(u, 2000));
		try {
			S d = differ(a, Deserialize(u, ty), false);
			check(d.empty(), PROP, "with CDATA: " + d);
		} catch (std::exception &e) { fail(PROP, "CDATA is refused", S(e.what()) + " | " + cur()); }
	}
}

// the settings in use are the ones given
static void settings() {
	static const char *ss[] = {"any", "plain", "single quoted", "double quoted", "literal", "folded"}, *ms[] = {"any", "block", "flow"};
	Variant p = Variant(VariantDefines::MapType);
	if (rnd(2)) p["scalar_style"] = ss[rnd(6)];
	if (rnd(2)) p["map_style"] = ms[rnd(3)];
	if (rnd(2)) p["list_style"] = ms[rnd(3)];
	if (rnd(2)) p["implicit_document_begin"] = rnd(2) == 0;
	if (rnd(2)) p["implicit_document_end"] = rnd(2) == 0;
	if (rnd(2)) p["indent"] = 1 + (int)rnd(9);
	if (rnd(2)) p["width"] = 20 + (int)rnd(100);
	if (rnd(2)) p["precision"] = 17u + (unsigned)rnd(9);
	std::stringbuf out;
	begin("settings " + SerializeJSON(p));
	try {
		Emitter e = CreateEmitter(CreateEmitterOutput(&out), SERIALIZE_YAML, p);
		for (Variant::MapIterator i(p.MapBegin()), j(p.MapEnd()); i != j; ++i) {
			Variant v = e.GetParam(i->first);
			check(v == i->second, PROP, "setting " + i->first + " is " + SerializeJSON(v));
		}
	} catch (std::exception &e) { fail(PROP, "settings are refused", S(e.what()) + " | " + cur()); }
}

// ------------------------------------------------------------------ events
struct Ev { char k; int64_t i; uint64_t u; double d; S s; };
struct Recorder : EmitterImpl {
	std::vector<Ev> ev;
	int flushed = 0, closed = 0;
	void add(char k, int64_t i = 0, uint64_t u = 0, double d = 0, const S &s = S()) { Ev e = {k, i, u, d, s}; ev.push_back(e); }
	void BeginDocument() { add('<'); }
	void EndDocument() { add('>'); }
	void BeginMap(int n) { add('{', n); }
	void EndMap() { add('}'); }
	void BeginList(int n) { add('[', n); }
	void EndList() { add(']'); }
	void EmitNull() { add('n'); }
	void EmitTrue() { add('t'); }
	void EmitFalse() { add('f'); }
	void Emit(const char *v) { add('s', 0, 0, 0, v); }
	void Emit(const std::string &v) { add('s', 0, 0, 0, v); }
	void Emit(intmax_t v) { add('i', v); }
	void Emit(uintmax_t v) { add('u', 0, v); }
	void Emit(double v) { add('d', 0, 0, v); }
	void Emit(ConstBlobPtr b) { add('b', 0, 0, 0, bytes(b)); }
	void Flush() { ++flushed; }
	void Close() { ++closed; }
	Variant GetParam(const std::string &) { return Variant(); }
	Variant GetParams() { return Variant(); }
	void SetParam(const std::string &, Variant) {}
};
static void events(const J &a, std::vector<Ev> &o) {
	Ev e = {0, 0, 0, 0, S()};
	switch (a.t) {
	case J::Null: e.k = 'n'; break;
	case J::Bool: e.k = a.b? 't': 'f'; break;
	case J::Int: e.k = 'i'; e.i = a.i; break;
	case J::Uint: e.k = 'u'; e.u = a.u; break;
	case J::Flt: e.k = 'd'; e.d = a.d; break;
	case J::Str: e.k = 's'; e.s = a.s; break;
	case J::Dat: e.k = 'b'; e.s = a.s; break;
	case J::List: e.k = '['; e.i = a.l.size(); o.push_back(e); for (const J &x: a.l) events(x, o); e.k = ']'; e.i = 0; break;
	default:
		e.k = '{'; e.i = a.m.size(); o.push_back(e);
		for (auto &x: a.m) { Ev k = {'s', 0, 0, 0, x.first}; o.push_back(k); events(x.second, o); }
		e.k = '}'; e.i = 0;
	}
	o.push_back(e);
}
// plays events, some at a time; documents as given, with or without their frame
struct Player : ParserImpl {
	std::vector<std::vector<Ev> > docs;
	size_t doc = 0, at = 0;
	bool frame, late;
	Player(bool frame, bool late) : frame(frame), late(late) {}
	void play(const Ev &e) {
		ParserActions *t = TopAction();
		switch (e.k) {
		case '<': t->BeginDocument(this); break;
		case '>': t->EndDocument(this); break;
		case '{': t->BeginMap(this, rnd(2)? -1: (int)e.i, 0, 0); break;
		case '}': t->EndMap(this); break;
		case '[': t->BeginList(this, rnd(2)? -1: (int)e.i, 0, 0); break;
		case ']': t->EndList(this); break;
		case 'n': t->Null(this, 0, 0); break;
		case 't': t->Scalar(this, true, 0, 0); break;
		case 'f': t->Scalar(this, false, 0, 0); break;
		case 's': t->Scalar(this, e.s.data(), e.s.size(), 0, 0); break;
		case 'i': t->Scalar(this, (intmax_t)e.i, 0, 0); break;
		case 'u': t->Scalar(this, (uintmax_t)e.u, 0, 0); break;
		case 'd': t->Scalar(this, e.d, 0, 0); break;
		case 'b': t->Scalar(this, Blob::CreateCopy(e.s.data(), e.s.size()), 0, 0); break;
		}
	}
	int Run() {
		check(!action_stack.empty(), PROP, "the reader runs without a handler");
		unsigned n = 1 + rnd(6);
		while (n-- && doc < docs.size()) {
			play(docs[doc][at]);
			if (++at == docs[doc].size()) { at = 0; ++doc; return doc == docs.size() && !late? 1: 0; }
		}
		return doc == docs.size()? 1: 0;
	}
	bool Done() const { return doc == docs.size(); }
	bool Error() const { return false; }
	bool Ok() const { return true; }
	std::string ErrorStr() const { return ""; }
	void Reset() { doc = at = 0; }
	size_t depth() const { return action_stack.size(); }
};
static S evtext(const std::vector<Ev> &v) { S r; for (const Ev &e: v) { r += e.k; if (e.k == 's') r += show(e.s, 30); } return r; }
static void replay() {
	std::vector<J> vs;
	S what = "events of";
	size_t nv = rnd(4)? 1: 1 + rnd(5);
	bool frame = rnd(2), late = rnd(2);
	shared_ptr<Player> pl(new Player(frame, late));
	for (size_t i = 0; i < nv; ++i) {
		J a = rval(EVENTS, 1 + rnd(4));
		if (nv > 1 && a.t == J::Null) a.t = J::Bool;
		vs.push_back(a);
		what += " " + text(a);
	}
	begin(what + (frame? " in documents": ""));
	for (const J &a: vs) {
		shared_ptr<Recorder> rec(new Recorder);
		Emitter em(rec);
		Variant v = lib(a);
		em << v;
		check(differ(a, v, true).empty(), PROP, "writing changes the value");
		std::vector<Ev> want;
		events(a, want);
		bool ok = want.size() == rec->ev.size();
		for (size_t i = 0; ok && i < want.size(); ++i) {
			const Ev &x = want[i], &y = rec->ev[i];
			ok = x.k == y.k && x.i == y.i && x.u == y.u && x.d == y.d && x.s == y.s;
		}
		check(ok, PROP, "events of a value", evtext(rec->ev) + " instead of " + evtext(want));
		if (frame) { Ev b = {'<', 0, 0, 0, S()}, e = {'>', 0, 0, 0, S()}; want.insert(want.begin(), b); want.push_back(e); }
		pl->docs.push_back(want);
	}
	Parser ps(pl);
	if (nv == 1 && rnd(2)) {
		Variant w = ParseVariant(ps);
		S d = differ(vs[0], w, true);
		check(d.empty(), PROP, "built from events: " + d);
	} else {
		LoadAllIterator i(ps);
		std::vector<LoadAllIterator> old;
		size_t k = 0;
		for (; i != LoadAllIterator(); ++i, ++k) {
			if (k >= vs.size()) { fail(PROP, "more values than documents", cur()); break; }
			S d = differ(vs[k], *i, true);
			check(d.empty(), PROP, "built from events: " + d);
			old.push_back(i);
		}
		check(k == vs.size(), PROP, "values are missing", num(k) + " of " + num(vs.size()));
		// iterators that stayed behind see the same values
		for (size_t j = 0; j < old.size(); ++j) {
			LoadAllIterator q = old[j];
			for (size_t n = j; n < old.size(); ++n, ++q) {
				if (q == LoadAllIterator()) { fail(PROP, "an iterator that stayed behind ends early", cur()); break; }
				check(q == old[n] && differ(vs[n], *q, true).empty(), PROP, "an iterator that stayed behind sees other values");
			}
			check(q == LoadAllIterator(), PROP, "an iterator that stayed behind does not end");
		}
	}
	check(pl->depth() == 0, PROP, "handlers stay behind", num(pl->depth()));
}
// several documents in one YAML stream
static void stream() {
	std::vector<J> vs;
	S what = "YAML stream of";
	for (size_t n = 1 + rnd(5); n; --n) {
		J a = rval(YAML, 1 + rnd(3));
		vs.push_back(a);
		what += " " + text(a);
	}
	begin(what);
	try {
		std::stringbuf b;
		{
			Emitter em = CreateEmitter(CreateEmitterOutput(&b), SERIALIZE_YAML);
			for (const J &a: vs) { em.BeginDocument(); em << lib(a); em.EndDocument(); }
			em.Close();
		}
		S t = b.str();
		begin(what + " text " + show(t, 2000));
		--g_cases;
		size_t k = 0;
		for (LoadAllIterator i = DeserializeAll(t, SERIALIZE_YAML); i != LoadAllIterator(); ++i, ++k) {
			if (k >= vs.size()) { fail(PROP, "more values than documents", cur()); break; }
			S d = differ(vs[k], *i, false);
			check(d.empty(), PROP, "in a stream: " + d);
		}
		check(k == vs.size(), PROP, "values are missing", num(k) + " of " + num(vs.size()));
	} catch (std::exception &e) { fail(PROP, "a stream is refused", S(e.what()) + " | " + cur()); }
}
// values named by anchors, used again by aliases
static void alias() {
	std::map<S, J> named;
	J l(J::List);
	S t = "- start\n";
	{ J a(J::Str); a.s = "start"; l.l.push_back(a); }
	for (size_t n = 1 + rnd(8); n; --n) {
		S id(1, "abc"[rnd(3)]);
		J x(J::Str);
		if (rnd(2) && named.count(id)) {
			x = named[id];
			t += "- *" + id + "\n";
		} else {
			x.s = S("v") + num(rnd(1000));
			switch (rnd(4)) {
			case 0: t += "- &" + id + " " + x.s + "\n"; named[id] = x; break;
			case 1: { J y(J::List); y.l.push_back(x); y.l.push_back(x); t += "- &" + id + " [" + x.s + ", " + x.s + "]\n"; x = y; named[id] = x; break; }
			case 2: { J y(J::Map); y.m[x.s] = x; t += "- &" + id + " {" + x.s + ": " + x.s + "}\n"; x = y; named[id] = x; break; }
			default: { J y(J::Map); y.m[x.s] = x; t += "- {&" + id + " " + x.s + ": *" + id + " }\n"; named[id] = x; x = y; break; }
			}
		}
		l.l.push_back(x);
	}
	begin("aliases of " + text(l) + " text " + show(t, 2000));
	try {
		S d = differ(l, Deserialize(t, SERIALIZE_YAML), false);
		check(d.empty(), PROP, "with aliases: " + d);
	} catch (std::exception &e) { fail(PROP, "aliases are refused", S(e.what()) + " | " + cur()); }
}
static void words(Form f) {
	for (const char *w: WORDS) for (int k = 0; k < 3; ++k) {
		J a(J::Str);
		a.s = w;
		if (k == 1) { J l(J::List); l.l.push_back(a); l.l.push_back(J(J::Null)); a = l; }
		if (k == 2) { J m(J::Map); m.m[w] = a; a = m; }
		for (int i = 0; i < 4; ++i) format(f, a);
	}
	for (unsigned n = 0; n < 200; ++n) {
		J a(J::Dat);
		for (unsigned i = 0; i < n; ++i) a.s += char(rnd(256));
		format(f, a);
		J l(J::List);
		l.l.push_back(a);
		format(f, l);
	}
	// sizes around the buffers on the way
	for (unsigned n: {510u, 511u, 512u, 513u, 1023u, 1024u, 1025u, 4000u, 4095u, 4096u, 4097u, 8191u, 8192u, 16383u, 16384u, 16385u, 65535u, 65536u, 70000u}) for (int k = 0; k < 3; ++k) {
		J a(J::Str);
		for (unsigned i = 0; i < n; ++i) a.s += k == 0? char('a' + i % 26): k == 1? "ab c&d<\n"[i % 8]: "\xc3\xa9"[i % 2];
		if (a.s.size() % 2 && k == 2) a.s += "\xa9";
		format(f, a);
		J m(J::Map);
		m.m["a"] = a;
		m.m["b"] = J(J::List);
		format(f, m);
	}
}

static void quiet(void *, const char *, ...) {}
int main(int argc, char **argv) {
	xmlSetGenericErrorFunc(0, quiet);
	init(argc, argv);
	S part = "json,events,xml,yaml";
	for (int i = 1; i + 1 < argc; ++i) {
		if (!strcmp(argv[i], "--part")) part = argv[i+1];
		if (!strcmp(argv[i], "--prop")) PROP = argv[i+1];
	}
	if (part.find("events") != S::npos) for (int i = 0; i < 20000 * g_scale; ++i) { replay(); if (i % 20 == 0) stream(); }
	if (part.find("json") != S::npos) { words(JSON); for (int i = 0; i < 8000 * g_scale; ++i) format(JSON, rval(JSON, rnd(5))); }
	if (part.find("xml") != S::npos) { words(XML); for (int i = 0; i < 8000 * g_scale; ++i) format(XML, rval(XML, rnd(5))); }
	if (part.find("yaml") != S::npos) { words(YAML); for (int i = 0; i < 300 * g_scale; ++i) settings(); for (int i = 0; i < 8000 * g_scale; ++i) format(YAML, rval(YAML, rnd(5))); for (int i = 0; i < 1500 * g_scale; ++i) stream(); for (int i = 0; i < 2000 * g_scale; ++i) alias(); }
	return finish();
}
