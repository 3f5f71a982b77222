// Schema validation, references and defaults against an independent reading of the keywords, RFC 3986 and JSON pointers.
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Path.h>
#include <regex.h>
#include <math.h>
#include <sys/stat.h>
using namespace libvariant;
using namespace vh;
typedef std::string S;

// ------------------------------------------------------------------ values
struct J {
	enum T { Null, Bool, Num, Str, List, Map } t = Null;
	bool b = false;
	char kind = 'i';                      // integer, unsigned, float
	long double n = 0;
	S s;
	std::vector<J> l;
	std::map<S, J> m;
	J() {}
	J(T t) : t(t) {}
	J(const char *x) : t(Str), s(x) {}
	J(const S &x) : t(Str), s(x) {}
	static J in(long long i) { J r(Num); r.n = i; return r; }
	static J un(unsigned long long i) { J r(Num); r.n = i; r.kind = 'u'; return r; }
	static J fl(double d) { J r(Num); r.n = d; r.kind = 'f'; return r; }
	static J bo(bool b) { J r(Bool); r.b = b; return r; }
	J &operator[](const S &k) { t = Map; return m[k]; }
	const J *get(const S &k) const { if (t != Map) return 0; auto i = m.find(k); return i == m.end()? 0: &i->second; }
};
static bool same(const J &a, const J &b) {
	if (a.t != b.t) return false;
	switch (a.t) {
	case J::Null: return true;
	case J::Bool: return a.b == b.b;
	case J::Num: return a.n == b.n;
	case J::Str: return a.s == b.s;
	case J::List:
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!same(a.l[i], b.l[i])) return false;
		return true;
	default:
		if (a.m.size() != b.m.size()) return false;
		for (auto i = a.m.begin(), j = b.m.begin(); i != a.m.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
		return true;
	}
}
static Variant lib(const J &a) {
	switch (a.t) {
	case J::Null: return Variant();
	case J::Bool: return Variant(a.b);
	case J::Num: return a.kind == 'f'? Variant((double)a.n): a.kind == 'u'? Variant((unsigned long long)a.n): Variant((long long)a.n);
	case J::Str: return Variant(a.s);
	case J::List: { Variant v(Variant::ListType); for (const J &x: a.l) v.Append(lib(x)); return v; }
	default: { Variant v(Variant::MapType); for (auto &x: a.m) v.Set(x.first, lib(x.second)); return v; }
	}
}
static J model(const Variant &v) {
	if (v.IsNull()) return J();
	if (v.IsBool()) return J::bo(v.AsBool());
	if (v.IsList()) { J r(J::List); for (unsigned i = 0; i < v.Size(); ++i) r.l.push_back(model(v.At(i))); return r; }
	if (v.IsMap()) { J r(J::Map); for (Variant::ConstMapIterator i(v.MapBegin()); i != v.MapEnd(); ++i) r.m[i->first] = model(i->second); return r; }
	if (v.IsString()) return J(v.AsString());
	J r(J::Num);
	r.kind = v.IsFloat()? 'f': v.IsUnsigned()? 'u': 'i';
	r.n = v.AsLongDouble();
	return r;
}
static S text(const J &a) {
	switch (a.t) {
	case J::Null: return "null";
	case J::Bool: return a.b? "true": "false";
	case J::Num: { char b[64]; snprintf(b, sizeof b, a.kind == 'f'? "%.6Lgf": "%.0Lf", a.n); return b; }
	case J::Str: return show(a.s);
	case J::List: { S r = "["; for (const J &x: a.l) r += (r.size() > 1? ",": "") + text(x); return r + "]"; }
	default: { S r = "{"; for (auto &x: a.m) r += (r.size() > 1? ",": "") + show(x.first) + ":" + text(x.second); return r + "}"; }
	}
}

// ------------------------------------------------------------------ the meaning of a schema
struct Docs {
	std::map<S, const J*> at;            // address without fragment -> document
	const J *follow(const S &ref) const;  // 0: nothing there
};
static bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static S unescape(const S &s) {
	S r;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '%' && i + 2 < s.size() && hexd(s[i+1]) && hexd(s[i+2])) { r += char(strtol(s.substr(i + 1, 2).c_str(), 0, 16)); i += 2; }
		else r += s[i];
	return r;
}
static const J *pointer(const J *d, const S &p) {
	if (p.empty()) return d;
	if (p[0] != '/') return 0;
	size_t i = 0;
	while (i < p.size()) {
		S k;
		for (++i; i < p.size() && p[i] != '/'; ++i)
			if (p[i] == '~') { if (i + 1 >= p.size()) return 0; ++i; k += p[i] == '0'? '~': '/'; }
			else k += p[i];
		if (d->t == J::Map) { d = d->get(k); if (!d) return 0; }
		else if (d->t == J::List) {
			if (k.empty() || k.find_first_not_of("0123456789") != S::npos || k.size() > 6 || (k.size() > 1 && k[0] == '0')) return 0;
			size_t n = atoi(k.c_str());
			if (n >= d->l.size()) return 0;
			d = &d->l[n];
		} else return 0;
	}
	return d;
}
const J *Docs::follow(const S &ref) const {
	size_t h = ref.find('#');
	auto i = at.find(ref.substr(0, h));
	if (i == at.end()) return 0;
	return pointer(i->second, h == S::npos? S(): unescape(ref.substr(h + 1)));
}
static bool matches(const S &re, const S &s, bool &bad) {
	regex_t r;
	memset(&r, 0, sizeof r);
	bad = regcomp(&r, re.c_str(), REG_EXTENDED | REG_NOSUB) != 0;
	if (bad) return false;
	bool ok = regexec(&r, s.c_str(), 0, 0, 0) == 0;
	regfree(&r);
	return ok;
}
static bool digits(const S &s, const char *form) { // 9: digit, else itself
	if (s.size() != strlen(form)) return false;
	for (size_t i = 0; i < s.size(); ++i) if (form[i] == '9'? !(s[i] >= '0' && s[i] <= '9'): s[i] != form[i]) return false;
	return true;
}
static bool is_int(const J &d) { return d.t == J::Num && d.n == floorl(d.n); }
static bool is_type(const J &ty, const J &d, bool &bad) {
	if (ty.s == "array") return d.t == J::List;
	if (ty.s == "boolean") return d.t == J::Bool;
	if (ty.s == "integer") return is_int(d);
	if (ty.s == "null") return d.t == J::Null;
	if (ty.s == "number") return d.t == J::Num;
	if (ty.s == "object") return d.t == J::Map;
	if (ty.s == "string") return d.t == J::Str;
	bad = true;
	return false;
}
static bool ok(const J &s, const J &d, const Docs &docs);
// one keyword of a schema; additional ones count with those they depend on
static bool keyword(const S &k, const J &s, const J &d, const Docs &docs) {
	const J &v = *s.get(k);
	bool bad = false;
	if (k == "$ref") { if (v.t != J::Str) return true; const J *r = docs.follow(v.s); return r? ok(*r, d, docs): false; }
	if (k == "type") {
		if (v.t == J::Str) return is_type(v, d, bad) && !bad;
		// the names before the one that fits must be names
		for (const J &x: v.l) if (is_type(x, d, bad)) return !bad;
		return false;
	}
	if (k == "enum") {
		if (v.t != J::List) return false;
		for (const J &x: v.l) if (same(x, d)) return true;
		return false;
	}
	if (k == "not") return !ok(v, d, docs);
	if (k == "allOf" || k == "anyOf" || k == "oneOf") {
		if (v.t != J::List) return false;
		size_t n = 0;
		for (const J &x: v.l) n += ok(x, d, docs);
		return k == "allOf"? n == v.l.size(): k == "anyOf"? n > 0: n == 1;
	}
	if (d.t == J::Num) {
		if (k == "multipleOf" || (k == "divisibleBy" && !s.get("multipleOf"))) {
			if (v.t != J::Num || v.n <= 0) return false;
			return fmodl(d.n, v.n) == 0;
		}
		bool lo = k == "minimum";
		if (lo || k == "maximum") {
			if (v.t != J::Num) return false;
			if (lo? d.n < v.n: d.n > v.n) return false;
			const J *x = s.get(lo? "exclusiveMinimum": "exclusiveMaximum");
			return !(x && x->b && d.n == v.n);
		}
		return true;
	}
	if (d.t == J::Str) {
		if (k == "minLength") return v.t == J::Num && d.s.size() >= v.n;
		if (k == "maxLength") return v.t == J::Num && d.s.size() <= v.n;
		if (k == "pattern") return v.t == J::Str && matches(v.s, d.s, bad) && !bad;
		if (k == "format") {
			if (v.t != J::Str) return true;
			if (v.s == "regex") { matches(d.s, "", bad); return !bad; }
			if (v.s == "date") return digits(d.s, "9999-99-99") && d.s[5] <= '1' && d.s[8] <= '3';
			if (v.s == "time") return digits(d.s, "99:99:99") && d.s[0] <= '2' && d.s[3] <= '5' && d.s[6] <= '5';
			if (v.s == "date-time") { // or a beginning of it
				S f = d.s;
				if (f.size() && f.back() == 'Z') f.pop_back();
				for (const char *x: {"9999", "9999-99", "9999-99-99", "9999-99-99T99", "9999-99-99T99:99", "9999-99-99T99:99:99"}) if (digits(f, x)) return (f.size() < 6 || f[5] <= '1') && (f.size() < 9 || f[8] <= '3');
				return false;
			}
			return true;
		}
		return true;
	}
	if (d.t == J::List) {
		if (k == "minItems") return v.t == J::Num && d.l.size() >= v.n;
		if (k == "maxItems") return v.t == J::Num && d.l.size() <= v.n;
		if (k == "uniqueItems") {
			if (v.t != J::Bool) return false;
			if (!v.b) return true;
			for (size_t i = 0; i < d.l.size(); ++i) for (size_t j = 0; j < i; ++j) if (same(d.l[i], d.l[j])) return false;
			return true;
		}
		if (k == "items") {
			if (v.t != J::List) { for (const J &x: d.l) if (!ok(v, x, docs)) return false; return true; }
			for (size_t i = 0; i < d.l.size() && i < v.l.size(); ++i) if (!ok(v.l[i], d.l[i], docs)) return false;
			return true;
		}
		if (k == "additionalItems") {
			const J *it = s.get("items");
			if (!it || it->t != J::List) return true;
			for (size_t i = it->l.size(); i < d.l.size(); ++i) if (v.t == J::Bool? !v.b: !ok(v, d.l[i], docs)) return false;
			return true;
		}
		return true;
	}
	if (d.t == J::Map) {
		if (k == "minProperties") return v.t == J::Num && d.m.size() >= v.n;
		if (k == "maxProperties") return v.t == J::Num && d.m.size() <= v.n;
		if (k == "required") {
			if (v.t != J::List) return false;
			for (const J &x: v.l) if (x.t != J::Str || !d.get(x.s)) return false;
			return true;
		}
		if (k == "properties") {
			if (v.t != J::Map) return false;
			for (auto &x: d.m) if (v.get(x.first) && !ok(*v.get(x.first), x.second, docs)) return false;
			return true;
		}
		if (k == "patternProperties" || k == "additionalProperties") {
			const J *pp = s.get("patternProperties"), *pr = s.get("properties");
			bool whole = k == "patternProperties";
			if (whole && v.t != J::Map) return false;
			if (pp && pp->t == J::Map) for (auto &p: pp->m) { matches(p.first, "", bad); if (bad && whole) return false; }
			for (auto &x: d.m) {
				bool named = pr && pr->get(x.first);
				if (pp && pp->t == J::Map) for (auto &p: pp->m) if (matches(p.first, x.first, bad)) { named = true; if (whole && !ok(p.second, x.second, docs)) return false; }
				if (!whole && !named && (v.t == J::Bool? !v.b: !ok(v, x.second, docs))) return false;
			}
			return true;
		}
		if (k == "dependencies") {
			if (v.t != J::Map) return false;
			for (auto &x: v.m) if (d.get(x.first)) {
				if (x.second.t == J::Str) { if (!d.get(x.second.s)) return false; }
				else if (x.second.t == J::List) { for (const J &y: x.second.l) if (!d.get(y.s)) return false; }
				else if (x.second.t == J::Map) { if (!ok(x.second, d, docs)) return false; }
				else return false;
			}
			return true;
		}
	}
	return true;
}
static bool ok(const J &s, const J &d, const Docs &docs) {
	if (s.t != J::Map) return true;
	for (auto &k: s.m) if (!keyword(k.first, s, d, docs)) return false;
	return true;
}

// ------------------------------------------------------------------ generators
static const char *KEYS[] = {"a", "b", "c", "x1", "x2", "id2"};
static const char *TEXTS[] = {"", "a", "b", "ab", "abc", "x1", "2020-01-02", "2020-21-02", "12:34:56", "12:64:56", "2020-01-02T03:04:05Z", "2020-01-02T03:04:5Z", "2020-01", "a.b", "[", "\xc3\xa9", "bbbb"};
static const char *REGEXES[] = {"^a", "b$", "^x[0-9]$", ".", "^$", "a|b", "[", "c+", "^.{2,3}$"};
template<size_t N> static const char *pick(const char *(&a)[N]) { return a[rnd(N)]; }
static J number() {
	switch (rnd(12)) {
	case 0: return J::fl(1.5);
	case 1: return J::fl(-1.5);
	case 2: return J::fl(2);
	case 3: return J::fl(0.25 * (int(rnd(40)) - 20));
	case 4: return J::un(1 + rnd(4));
	case 5: return J::un(rnd(2)? 18446744073709551614ull: 9223372036854775810ull);
	case 6: return J::in(rnd(2)? -9223372036854775807ll: 9223372036854775806ll);
	case 7: return J::in(-(long long)rnd(7));
	default: return J::in(rnd(8));
	}
}
static J data(int depth) {
	unsigned k = rnd(depth <= 0? 6: 13);
	if (k < 6) {
		if (k < 1) return J();
		if (k < 2) return J::bo(rnd(2));
		if (k < 4) return number();
		return J(pick(TEXTS));
	}
	unsigned n = rnd(rnd(6)? 4: 7);
	if (k < 9) { J r(J::List); while (n--) r.l.push_back(r.l.empty() || rnd(4)? data(depth - 1): r.l[rnd(r.l.size())]); return r; }
	J r(J::Map);
	while (n--) r.m[pick(KEYS)] = data(depth - 1);
	return r;
}
static J list(int n, const std::function<J()> &f) { J r(J::List); while (n-- > 0) r.l.push_back(f()); return r; }
struct Gen {
	std::vector<S> refs;                  // addresses to refer to
	bool odd = false;                     // also keywords with a value of another kind
	J one(const S &k, int depth);
	J schema(int depth);
};
static const char *WORDS[] = {"type", "enum", "not", "allOf", "anyOf", "oneOf", "multipleOf", "divisibleBy", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "pattern", "format",
	"minItems", "maxItems", "uniqueItems", "items", "additionalItems", "minProperties", "maxProperties", "required", "properties", "patternProperties", "additionalProperties", "dependencies"};
static const char *TYPES[] = {"array", "boolean", "integer", "null", "number", "object", "string"};
static const char *FORMATS[] = {"regex", "date", "time", "date-time", "unknown"};
J Gen::one(const S &k, int depth) {
	auto sub = [&]() { return schema(depth - 1); };
	auto count = [&]() { return rnd(5)? J::in(rnd(5)): J::un(rnd(4)); };
	bool strange = odd && rnd(12) == 0;
	if (k == "type") return rnd(3)? J(strange? "any": pick(TYPES)): list(rnd(4), [&]() { return J(odd && rnd(20) == 0? "any": pick(TYPES)); });
	if (k == "enum") return strange? J::in(3): list(1 + rnd(4), [&]() { return data(2); });
	if (k == "not") return sub();
	if (k == "allOf" || k == "anyOf" || k == "oneOf") return strange? J("x"): list(1 + rnd(3), sub);
	if (k == "multipleOf" || k == "divisibleBy") { J v = number(); if (!strange && v.n <= 0) v = J::in(1 + rnd(3)); if (strange && rnd(2)) v = J("2"); return v; }
	if (k == "minimum" || k == "maximum") return strange? J("3"): number();
	if (k == "exclusiveMinimum" || k == "exclusiveMaximum" || k == "uniqueItems") return strange && k == "uniqueItems"? J::in(1): J::bo(rnd(4));
	if (k == "pattern") return strange? J::in(1): J(REGEXES[rnd(odd? 9: 6)]);
	if (k == "format") return J(pick(FORMATS));
	if (k.substr(0, 3) == "min" || k.substr(0, 3) == "max") return strange? J("1"): count();
	if (k == "items") return rnd(2)? sub(): list(rnd(4), sub);
	if (k == "additionalItems" || k == "additionalProperties") return rnd(2)? J::bo(rnd(3) == 0): sub();
	if (k == "required") return strange? J("a"): list(1 + rnd(2), [&]() { return odd && rnd(20) == 0? J::in(1): J(pick(KEYS)); });
	J r(J::Map);
	if (strange) return J::in(1);
	int n = rnd(4);
	while (n-- > 0) {
		if (k == "properties") r.m[pick(KEYS)] = sub();
		else if (k == "patternProperties") r.m[REGEXES[rnd(odd && rnd(4) == 0? 9: 6)]] = sub();
		else { J x = rnd(3)? rnd(2)? J(pick(KEYS)): list(1 + rnd(2), []() { return J(pick(KEYS)); }): sub(); if (x.t == J::Null || x.t == J::Bool || x.t == J::Num) x = J("a"); r.m[pick(KEYS)] = x; }
	}
	return r;
}
J Gen::schema(int depth) {
	J r(J::Map);
	if (!refs.empty() && rnd(4) == 0) { r["$ref"] = J(refs[rnd(refs.size())]); return r; }
	unsigned n = depth <= 0? rnd(2): rnd(4) == 0? 2 + rnd(3): 1;
	while (n--) {
		S k = WORDS[rnd(sizeof WORDS / sizeof *WORDS)];
		if (depth <= 0 && (k == "not" || k == "allOf" || k == "anyOf" || k == "oneOf" || k == "items" || k == "properties" || k == "patternProperties" || k == "dependencies")) k = "type";
		r.m[k] = one(k, depth);
		if (k.substr(0, 9) == "exclusive") { S o = k == "exclusiveMinimum"? "minimum": "maximum"; r.m[o] = one(o, depth); }
		if (k == "additionalItems") r.m["items"] = list(rnd(3), [&]() { return schema(depth - 2); });
		if (k == "additionalProperties") { S o = rnd(2)? "properties": "patternProperties"; if (!r.get(o)) r.m[o] = one(o, depth - 1); }
	}
	return r;
}
// data that often fits: take what the schema mentions
static J fitting(const J &s, int depth) {
	if (s.t != J::Map || rnd(8) == 0) return data(depth);
	if (const J *e = s.get("enum")) if (e->t == J::List && e->l.size()) { J x = e->l[rnd(e->l.size())]; if (x.t == J::Num && rnd(2) && x.kind == 'i' && fabsl(x.n) < 100) x.kind = 'f'; return x; }
	for (const char *k: {"allOf", "anyOf", "oneOf"}) if (const J *e = s.get(k)) if (e->t == J::List && e->l.size()) return fitting(e->l[rnd(e->l.size())], depth);
	for (const char *k: {"minimum", "maximum", "multipleOf"}) if (const J *e = s.get(k)) if (e->t == J::Num && fabsl(e->n) < 100) { J x = *e; if (rnd(2)) { x.n += int(rnd(3)) - 1; if (x.n < 0 && x.kind == 'u') x.kind = 'i'; } else if (rnd(2)) { x.n *= -1; if (x.kind == 'u') x.kind = 'i'; } return x; }
	if (s.get("pattern") || s.get("format") || s.get("minLength") || s.get("maxLength")) return J(pick(TEXTS));
	if (s.get("items") || s.get("minItems") || s.get("maxItems") || s.get("uniqueItems")) {
		const J *it = s.get("items");
		J r(J::List);
		for (unsigned n = rnd(5), i = 0; i < n; ++i) r.l.push_back(it? it->t == J::List? i < it->l.size()? fitting(it->l[i], depth - 1): data(1): fitting(*it, depth - 1): data(1));
		if (r.l.size() > 1 && rnd(6) == 0) r.l.back() = r.l.front();
		return r;
	}
	for (const char *k: {"properties", "patternProperties", "required", "dependencies", "minProperties", "maxProperties", "additionalProperties"}) if (s.get(k)) {
		J r(J::Map);
		const J *p = s.get("properties");
		for (unsigned n = rnd(5); n--;) { S key = pick(KEYS); r.m[key] = p && p->get(key)? fitting(*p->get(key), depth - 1): data(1); }
		if (p && p->t == J::Map) for (auto &x: p->m) if (rnd(3)) r.m[x.first] = fitting(x.second, depth - 1);
		return r;
	}
	return data(depth);
}

// ------------------------------------------------------------------ an error names a place where the schema fails
static const J *along(const J &d, const Path &p, size_t n) {
	const J *x = &d;
	for (size_t i = 0; i < n; ++i) {
		if (p[i].IsString()) { x = x->get(p[i].AsString()); if (!x) return 0; }
		else { if (x->t != J::List || p[i].AsUnsigned() >= x->l.size()) return 0; x = &x->l[p[i].AsUnsigned()]; }
	}
	return x;
}
static void place(const ValidationError &e, const J &root, const J &d, const Docs &docs) {
	const Path &sp = e.GetSchemaPath(), &dp = e.GetDataPath();
	const J *v = along(d, dp, dp.size());
	check(v != 0, "P15", "error-data-path", "no value at " + show(e.GetDataPathStr()));
	if (!v) return;
	const J *s = &root;
	size_t i = 0;
	bool found = false;
	S word;
	while (i < sp.size()) {
		for (int n = 0; n < 60 && s && s->get("$ref") && s->get("$ref")->t == J::Str && !(sp[i].IsString() && s->get(sp[i].AsString())); ++n) s = docs.follow(s->get("$ref")->s);
		if (!s || sp[i].IsNumber() || !s->get(sp[i].AsString())) break;
		word = sp[i].AsString();
		const J *w = s->get(word);
		++i;
		// further down?
		const J *next = 0;
		size_t j = i;
		if (word == "allOf" || word == "anyOf" || word == "oneOf" || (word == "items" && w->t == J::List)) { if (j < sp.size() && sp[j].IsNumber() && sp[j].AsUnsigned() < w->l.size()) next = &w->l[sp[j++].AsUnsigned()]; }
		else if (word == "properties" || word == "patternProperties" || word == "dependencies") { if (j < sp.size() && sp[j].IsString() && w->get(sp[j].AsString())) next = w->get(sp[j++].AsString()); }
		else if (j < sp.size() && (word == "not" || word == "items" || word == "additionalItems" || word == "additionalProperties")) next = w;
		if (next && j < sp.size() && sp[j].IsString()) { s = next; i = j; continue; }
		found = true;
		break;
	}
	check(found, "P15", "error-schema-path", "no keyword at " + show(e.GetSchemaPathStr()));
	if (!found) return;
	if (word == "exclusiveMinimum") word = "minimum";
	if (word == "exclusiveMaximum") word = "maximum";
	if ((word == "additionalItems" || word == "additionalProperties") && dp.size()) v = along(d, dp, dp.size() - 1);
	check(!keyword(word, *s, *v, docs), "P15", "error-is-one", show(word) + " does not fail at " + show(e.GetDataPathStr()) + " (" + show(e.GetSchemaPathStr()) + ")");
	for (const SchemaResult &r: e.GetSubErrors()) for (const ValidationError &x: r.GetErrors()) place(x, root, d, docs);
}

static void validate(const J &s, const J &d, const Docs &docs, SchemaLoader *loader, const char *prop, bool places = true) {
	begin("schema " + text(s) + " data " + text(d));
	bool want = ok(s, d, docs);
	Variant vs = lib(s), vd = lib(d);
	SchemaResult r;
	try { r = SchemaValidate(vs, vd, loader); }
	catch (const std::exception &e) { fail(prop, "throws", S(e.what()) + " | " + cur()); return; }
	check(r.Error() == !want, prop, want? "valid-data-refused": "invalid-data-accepted");
	check(same(model(vd), d), prop, "data-changed");
	S p = r.PrettyPrintMessage();
	check(p.empty() == !r.Error(), prop, "message");
	if (places) for (const ValidationError &e: r.GetErrors()) place(e, s, d, docs);
}

static void keywords() {
	// single keywords over a pool of data
	std::vector<J> pool;
	for (int i = 0; i < 60; ++i) pool.push_back(data(2));
	for (const char *t: TEXTS) pool.push_back(J(t));
	for (int i = -6; i <= 6; ++i) { pool.push_back(J::in(i)); pool.push_back(J::fl(i / 2.0)); if (i >= 0) pool.push_back(J::un(i)); }
	Docs docs;
	for (const char *w: WORDS) for (int k = 0; k < 25; ++k) {
		Gen g;
		g.odd = k % 3 == 0;
		J s(J::Map);
		s.m[w] = g.one(w, 1);
		if (S(w).substr(0, 9) == "exclusive") { S o = S(w) == "exclusiveMinimum"? "minimum": "maximum"; s.m[o] = g.one(o, 1); }
		if (S(w) == "additionalItems") s.m["items"] = g.one("items", 1);
		if (S(w) == "additionalProperties") { s.m["properties"] = g.one("properties", 1); if (rnd(2)) s.m["patternProperties"] = g.one("patternProperties", 1); }
		docs.at[""] = &s;
		for (const J &d: pool) if (rnd(4) == 0 || d.t == J::Num || d.t == J::Str) validate(s, d, docs, 0, "P15");
	}
}
// multiples in every combination of kinds of numbers
static void multiples() {
	Docs docs;
	auto kinds = [](long double x) { std::vector<J> r; J j(J::Num); j.n = x; j.kind = 'f'; r.push_back(j); if (x == floorl(x)) { j.kind = 'i'; r.push_back(j); if (x >= 0) { j.kind = 'u'; r.push_back(j); } } return r; };
	for (int a = -13; a <= 13; ++a) for (int b = -2; b <= 12; ++b) for (int h = 0; h < 4; ++h)
		for (const J &x: kinds(h & 1? a / 2.0L: a)) for (const J &y: kinds(h & 2? b / 4.0L: b)) {
			J s(J::Map);
			s[rnd(8)? "multipleOf": "divisibleBy"] = y;
			docs.at[""] = &s;
			validate(s, x, docs, 0, "P15");
		}
}
static void nested(int n) {
	for (int i = 0; i < n; ++i) {
		Gen g;
		g.odd = rnd(4) == 0;
		J defs(J::Map);
		// a definition refers to itself or others only below a property or item, or to later ones
		if (rnd(3) == 0) {
			std::vector<S> names = {"p", "q", "r"};
			for (size_t k = names.size(); k-- > 0;) {
				J s = g.schema(2);
				if (rnd(2)) s["properties"][pick(KEYS)]["$ref"] = J("#/definitions/" + names[rnd(3)]);
				if (rnd(3) == 0 && !s.get("additionalItems")) s["items"]["$ref"] = J("#/definitions/" + names[rnd(3)]);
				if (s.get("$ref") && s.m.size() > 1) s.m.erase("$ref");
				defs.m[names[k]] = s;
				g.refs.push_back("#/definitions/" + names[k]);
			}
			if (rnd(3) == 0) g.refs.push_back("#/definitions/p");
		}
		J s = g.schema(3);
		if (!defs.m.empty()) { if (s.get("$ref")) { J t(J::Map); t["allOf"] = list(1, [&]() { return s; }); s = t; } s.m["definitions"] = defs; }
		Docs docs;
		docs.at[""] = &s;
		for (int k = 0; k < 6; ++k) {
			J d = rnd(4)? fitting(s, 3): data(3);
			validate(s, d, docs, 0, "P15");
		}
	}
}

// ------------------------------------------------------------------ addresses
struct Uri { bool has_scheme = false, has_auth = false, has_query = false, has_frag = false; S scheme, auth, path, query, frag; };
static Uri parse(const S &u) {
	Uri r;
	size_t i = u.find_first_of(":/?#");
	size_t p = 0;
	if (i != S::npos && u[i] == ':' && i > 0) { r.has_scheme = true; r.scheme = u.substr(0, i); p = i + 1; }
	if (u.compare(p, 2, "//") == 0) { size_t e = u.find_first_of("/?#", p + 2); if (e == S::npos) e = u.size(); r.has_auth = true; r.auth = u.substr(p + 2, e - p - 2); p = e; }
	size_t e = u.find_first_of("?#", p);
	if (e == S::npos) e = u.size();
	r.path = u.substr(p, e - p);
	p = e;
	if (p < u.size() && u[p] == '?') { e = u.find('#', p); if (e == S::npos) e = u.size(); r.has_query = true; r.query = u.substr(p + 1, e - p - 1); p = e; }
	if (p < u.size()) { r.has_frag = true; r.frag = u.substr(p + 1); }
	return r;
}
// above: the path climbs above the root
static S dots(const S &p, bool &above) {
	std::vector<S> out;
	bool slash = false;
	size_t i = 0;
	if (p.empty()) return p;
	if (p[0] == '/') { slash = true; i = 1; }
	bool end = false;
	for (;;) {
		size_t e = p.find('/', i);
		S s = p.substr(i, e == S::npos? e: e - i);
		bool last = e == S::npos;
		if (s == "." || s == "..") {
			if (s == "..") { if (out.empty()) above = true; else out.pop_back(); }
			end = last;
		} else { out.push_back(s); end = false; }
		if (last) break;
		i = e + 1;
	}
	S r = slash? "/": "";
	for (size_t k = 0; k < out.size(); ++k) r += (k? "/": "") + out[k];
	if (end && !out.empty()) r += "/";
	return r;
}
static S resolve(const S &base, const S &ref, bool &above) {
	Uri b = parse(base), r = parse(ref), t;
	t = r;
	if (r.has_scheme || r.has_auth) t.path = dots(r.path, above);
	else if (r.path.empty()) { t.path = dots(b.path, above); if (!r.has_query) { t.has_query = b.has_query; t.query = b.query; } }
	else if (r.path[0] == '/') t.path = dots(r.path, above);
	else t.path = dots(b.has_auth && b.path.empty()? "/" + r.path: b.path.substr(0, b.path.rfind('/') + 1) + r.path, above);
	if (!r.has_scheme) {
		t.has_scheme = b.has_scheme; t.scheme = b.scheme;
		if (!r.has_auth) { t.has_auth = b.has_auth; t.auth = b.auth; }
	}
	return (t.has_scheme? t.scheme + ":": "") + (t.has_auth? "//" + t.auth: "") + t.path + (t.has_query? "?" + t.query: "") + (t.has_frag? "#" + t.frag: "");
}
static S seg() { static const char *s[] = {"a", "b", "c.json", ".", "..", "", "x@y", "d;p", "a:b", "..g", ".h", "%41"}; return s[rnd(rnd(3)? 3: 12)]; }
static S path(bool first_plain) {
	S r;
	for (unsigned n = 1 + rnd(4), i = 0; i < n; ++i) { S s = seg(); if (!i && first_plain) s = "p"; r += (i? "/": "") + s; }
	return r;
}
static S absolute() {
	static const char *auth[] = {"h", "example.com", "user@h", "user:pw@h:80", "h:8080"};
	S r = S(rnd(2)? "http": "file") + "://" + auth[rnd(5)];
	if (rnd(8)) r += "/" + path(true);
	if (rnd(6) == 0) r += "?q=" + S(rnd(2)? "1/2": "x@y");
	return r;
}
static S relative() {
	S r;
	switch (rnd(6)) {
	case 0: break;
	case 1: r = "/" + path(true); break;
	case 2: return absolute();
	case 3: r = "//h2/" + path(true); break;
	default: r = path(false); if (r.find(':') < r.find('/') || r[0] == '/') r = "./" + r;
	}
	if (rnd(5) == 0) r += "?y" + S(rnd(2)? "=/../z": "");
	if (rnd(3) == 0) r += "#" + S(rnd(3)? rnd(2)? "/a/b": "n": "a@b/../c?d:e");
	return r;
}
static void uris(int n) {
	for (int i = 0; i < n; ++i) {
		S b = absolute(), r = relative();
		if (rnd(6) == 0) b += "#f";
		begin("base " + show(b) + " reference " + show(r));
		bool above = false;
		S want = resolve(b, r, above);
		if (above) continue;
		S got = SchemaLoader::ResolveURI(b, r);
		check(got == want, "P16", "resolve", "got " + show(got) + " want " + show(want));
		SchemaLoader::URIInfo u;
		S t = rnd(2)? b: r;
		bool p = SchemaLoader::ParseURI(u, t);
		Uri w = parse(t);
		check(p && u.href == t && u.protocol == (w.has_scheme? w.scheme + ":": "") && u.authority == (w.has_auth? "//" + w.auth: "") && u.pathname == w.path
			&& u.search == (w.has_query? "?" + w.query: "") && u.hash == (w.has_frag? "#" + w.frag: ""), "P16", "parts", show(t));
	}
}

// ------------------------------------------------------------------ documents and references
static const char *NAMES[] = {"p", "q", "a b", "x/y", "m~n", "50%", "\xc3\xa9", "\"q\"", "a#b", "0", "%41", "+1", "{}", "?", "a:b@c"};
static S escaped(const S &k) {
	S r;
	for (char c: k) {
		if (c == '~') { r += "~0"; continue; }
		if (c == '/') { r += rnd(2)? "~1": "~1"; continue; }
		if (isalnum((unsigned char)c) && rnd(12)) { r += c; continue; }
		if (strchr(":@?+!$&'()*,;=-._", c) && rnd(2)) { r += c; continue; }
		char b[8];
		snprintf(b, sizeof b, rnd(2)? "%%%02X": "%%%02x", (unsigned char)c);
		r += b;
	}
	return r;
}
struct Files { std::map<S, J> docs; std::vector<S> asked; };
static bool supply(SchemaLoader *l, const S &uri, SchemaLoader::LoaderError &err, void *ctx) {
	Files *f = (Files*)ctx;
	f->asked.push_back(uri);
	auto i = f->docs.find(uri);
	if (i == f->docs.end()) { err.AddError(uri, "not here"); return false; }
	l->AddSchema(uri, lib(i->second));
	return true;
}
static S doc_uri(int i) { static const char *u[] = {"http://h/a/one.json", "http://h/a/two.json", "http://h/b/three.json", "file:///d/four.json", "http://g/five"}; return u[i]; }
// a reference from one document into another, written in one of the ways that mean the same
static S written(int from, int to, const S &frag) {
	S f = frag.empty() && rnd(2)? S(): "#" + frag;
	if (from == to && rnd(3) && !f.empty()) return f;
	S u = doc_uri(to);
	if (rnd(2)) return u + f;
	if (to < 3 && from < 3) {
		if (to < 2 && from < 2) return (rnd(2)? S(): S("./")) + (to? "two.json": "one.json") + f;
		if (to == 2 && from < 2) return "../b/three.json" + f;
		if (to < 2) return S(to? "/a/two.json": "/a/one.json") + f;
	}
	return u + f;
}
static void references(int n) {
	for (int it = 0; it < n; ++it) {
		int nd = 1 + rnd(5);
		std::vector<std::vector<S>> names(nd);
		for (auto &v: names) for (unsigned k = 1 + rnd(3); k--;) v.push_back(NAMES[rnd(sizeof NAMES / sizeof *NAMES)]);
		// documents as written, and as meant (with absolute references)
		std::vector<J> as_written(nd), meant(nd);
		for (int i = 0; i < nd; ++i) {
			for (const S &nm: names[i]) {
				Gen g;
				J s = g.schema(1);
				J w = s;
				int to = rnd(nd);
				const S &tn = names[to][rnd(names[to].size())];
				S frag = "/definitions/" + escaped(tn);
				S where = rnd(2)? "properties": "items";
				J rw(J::Map), rm(J::Map);
				rw["$ref"] = J(written(i, to, frag));
				rm["$ref"] = J(doc_uri(to) + "#" + frag);
				S key = pick(KEYS);
				if (where == "items") { s.m.erase("additionalItems"); w.m.erase("additionalItems"); w.m["items"] = rw; s.m["items"] = rm; }
				else { J &pw = w["properties"], &pm = s["properties"]; if (pw.t != J::Map) { pw = J(J::Map); pm = pw; } pw[key] = rw; pm[key] = rm; }
				as_written[i]["definitions"][nm] = w;
				meant[i]["definitions"][nm] = s;
			}
			if (rnd(2)) { J t = J("object"); as_written[i]["type"] = t; meant[i]["type"] = t; }
		}
		Docs docs;
		for (int i = 0; i < nd; ++i) docs.at[doc_uri(i)] = &meant[i];
		// in the loader, in the one below it, or supplied when asked for
		SchemaLoader below, top(&below);
		Files files;
		below.SetMissingHandler(supply, &files);
		std::vector<bool> supplied(nd);
		for (int i = 0; i < nd; ++i) switch (rnd(3)) {
			case 0: top.AddSchema(doc_uri(i), lib(as_written[i])); break;
			case 1: below.AddSchema(doc_uri(i), lib(as_written[i])); break;
			default: files.docs[doc_uri(i)] = as_written[i]; supplied[i] = true;
		}
		S all;
		for (int i = 0; i < nd; ++i) all += doc_uri(i) + (supplied[i]? " (supplied): ": ": ") + text(as_written[i]) + " ";
		for (int k = 0; k < 8; ++k) {
			int to = rnd(nd);
			S nm = names[to][rnd(names[to].size())];
			S ref = doc_uri(to) + "#/definitions/" + escaped(nm);
			begin("reference " + show(ref) + " documents " + all);
			try {
				J got = model(top.GetSchema(ref));
				check(same(got, *docs.follow(ref)), "P16", "lookup", text(got) + " instead of " + text(*docs.follow(ref)));
			} catch (const std::exception &e) { fail("P16", "lookup-throws", S(e.what()) + " | " + cur()); continue; }
			// validation through it
			J s(J::Map);
			s["$ref"] = J(ref);
			J d = rnd(3)? fitting(*docs.follow(ref), 3): data(3);
			begin("data " + text(d) + " against " + show(ref) + " documents " + all);
			try {
				bool want = ok(s, d, docs);
				SchemaResult r = rnd(2)? SchemaValidate(lib(s), lib(d), &top): SchemaValidate(Variant(ref), lib(d), &top);
				check(r.Error() == !want, "P16", want? "valid-data-refused": "invalid-data-accepted");
			} catch (const std::exception &e) { fail("P16", "throws", S(e.what()) + " | " + cur()); }
		}
		// each document is asked for once
		std::set<S> once(files.asked.begin(), files.asked.end());
		check(once.size() == files.asked.size(), "P16", "asked-twice", all);
		// nothing there: an exception, and no verdict
		S bad = doc_uri(rnd(nd)) + "#/definitions/no such";
		if (rnd(2)) bad = "http://nowhere/x#/a";
		begin("dangling " + bad + " documents " + all);
		bool threw = false;
		try { J s(J::Map); s["properties"]["a"]["$ref"] = J(bad.substr(0, bad.find(' '))); J d(J::Map); d["a"] = J::in(1); SchemaValidate(lib(s), lib(d), &top); }
		catch (const std::exception &) { threw = true; }
		check(threw, "P16", "dangling-accepted");
		if (rnd(4) == 0) {
			// a forgotten document is gone
			int i = rnd(nd);
			top.ForgetSchema(doc_uri(i)); below.ForgetSchema(doc_uri(i)); files.docs.erase(doc_uri(i));
			begin("forgotten " + doc_uri(i));
			threw = false;
			try { top.GetSchema(doc_uri(i) + "#/definitions/" + escaped(names[i][0])); } catch (const std::exception &) { threw = true; }
			check(threw, "P16", "forgotten-found");
		}
	}
}
// nested identifiers change what relative references mean
static void identifiers(int n) {
	for (int it = 0; it < n; ++it) {
		S root = rnd(2)? "http://h/a/root.json": "http://h/x/y/";
		bool above = false;
		S idw = rnd(3) == 0? "other.json": rnd(2)? "sub/": "/abs/z.json";
		S id = resolve(root, idw, above);
		S refw = rnd(4) == 0? "../up.json#/definitions/p": rnd(3) == 0? "leaf.json": rnd(2)? "#/definitions/p": "/top.json#/definitions/q";
		S inner = resolve(id, refw, above), outer = resolve(root, refw, above);
		if (above) continue;
		J s(J::Map);
		s["items"]["id"] = J(idw);
		s["items"]["items"]["$ref"] = J(refw);
		s["additionalProperties"]["$ref"] = J(refw);
		s["enum"] = list(1, [&]() { J x(J::Map); x["$ref"] = J(refw); x["id"] = J(idw); return x; });
		s["properties"]["b"]["allOf"] = list(1, [&]() { J x(J::Map); x["$ref"] = J(refw); return x; });
		begin("document " + text(s) + " at " + root);
		J want = s;
		want["items"]["id"] = J(id);
		want["items"]["items"]["$ref"] = J(inner);
		want["additionalProperties"]["$ref"] = J(outer);
		want["properties"]["b"]["allOf"].l[0]["$ref"] = J(outer);
		Variant v = lib(s);
		SchemaLoader::NormSchema(v, root);
		check(same(model(v), want), "P16", "normalise", text(model(v)) + " instead of " + text(want));
		SchemaLoader::NormSchema(v, root);
		check(same(model(v), want), "P16", "normalise-again", text(model(v)));
		// part of a document under its own identifier
		SchemaLoader l;
		J t(J::Map);
		t["definitions"]["d"]["id"] = J("#name");
		t["definitions"]["d"]["type"] = J("string");
		l.AddSchema(root, lib(t));
		begin("identifier of a part, document at " + root);
		try { J g = model(l.GetSchema(root + "#name")); check(g.get("type") && g.get("type")->s == "string", "P16", "identifier"); }
		catch (const std::exception &e) { fail("P16", "identifier-throws", e.what()); }
		// not one outside the document's own address
		J e(J::Map);
		e["definitions"]["d"]["id"] = J("http://elsewhere/doc.json");
		l.AddSchema("http://h/other", lib(e));
		bool threw = false;
		try { l.GetSchema("http://elsewhere/doc.json"); } catch (const std::exception &) { threw = true; }
		check(threw, "P16", "identifier-elsewhere");
	}
}
static void files() {
	char tmp[] = "/tmp/vschemaXXXXXX";
	if (!mkdtemp(tmp)) return;
	S dir = tmp;
	auto put = [&](const S &p, const S &t) { FILE *f = fopen((dir + "/" + p).c_str(), "w"); fputs(t.c_str(), f); fclose(f); };
	mkdir((dir + "/one").c_str(), 0700);
	mkdir((dir + "/two").c_str(), 0700);
	put("one/a.json", "{\"type\":\"string\"}");
	put("two/a.json", "{\"type\":\"integer\"}");
	put("two/b.json", "{\"items\":{\"$ref\":\"a.json\"}}");
	put("one/broken.json", "{\"type\":");
	auto verdict = [&](SchemaLoader &l, const S &u, Variant d) -> S { try { return SchemaValidate(Variant(u), d, &l).Error()? "error": "ok"; } catch (const std::exception &) { return "exception"; } };
	Variant str("x"), num(1), list(Variant::ListType);
	list.Append(1);
	begin("schemas in files");
	{ AdvSchemaLoader l; l.AddPath(dir + "/one"); l.AddPath(dir + "/two"); check(verdict(l, "a.json", str) == "ok" && verdict(l, "a.json", num) == "error", "P16", "search-order"); }
	{ AdvSchemaLoader l; l.AddPath(dir + "/two"); l.AddPath(dir + "/one"); check(verdict(l, "a.json", num) == "ok" && verdict(l, "a.json", str) == "error", "P16", "search-order"); }
	{ AdvSchemaLoader l; l.AddPath(dir + "/none"); l.AddPath(dir + "/two"); check(verdict(l, "b.json", list) == "ok", "P16", "file-refers-to-file"); Variant ls(Variant::ListType); ls.Append("x"); check(verdict(l, "b.json", ls) == "error", "P16", "file-refers-to-file"); }
	{ AdvSchemaLoader l; check(verdict(l, dir + "/two/b.json", list) == "ok", "P16", "absolute-file"); check(verdict(l, "file://" + dir + "/two/a.json", num) == "ok", "P16", "file-uri"); check(verdict(l, "file://" + dir + "/two/b.json", list) == "ok", "P16", "file-uri-relative"); }
	{ AdvSchemaLoader l; l.AddPath(dir + "/one"); check(verdict(l, "missing.json", num) == "exception", "P16", "missing-file"); check(verdict(l, "broken.json", num) == "exception", "P16", "broken-file"); }
	for (const char *f: {"/one/a.json", "/two/a.json", "/two/b.json", "/one/broken.json"}) unlink((dir + f).c_str());
	rmdir((dir + "/one").c_str());
	rmdir((dir + "/two").c_str());
	rmdir(tmp);
}

// ------------------------------------------------------------------ defaults
// refs: 0 no references, 1 any, 2 to p and q, 3 to q
static J defschema(int depth, int refs) {
	J s(J::Map);
	if (refs && rnd(refs == 1? 5: 3) == 0) { s["$ref"] = J(refs == 1 && rnd(2)? "#": S("#/definitions/") + (refs != 3 && rnd(2)? "p": "q")); if (rnd(2)) return s; }
	if (rnd(3) == 0) s["default"] = data(1);
	if (depth <= 0) return s;
	unsigned k = rnd(6);
	if (k < 3) for (unsigned n = rnd(4); n--;) s["properties"][pick(KEYS)] = defschema(depth - 1, refs);
	else if (k == 3) s["items"] = defschema(depth - 1, refs);
	else if (k == 4) s["items"] = list(rnd(3), [&]() { return defschema(depth - 1, refs); });
	for (const char *c: {"allOf", "oneOf", "anyOf"}) if (rnd(6) == 0) s[c] = list(1 + rnd(2), [&]() { return defschema(depth - 1, refs); });
	return s;
}
// is what was there still there, in place? a value that was there and is not null stays, containers only grow
static bool kept(const J &a, const J &b) {
	if (a.t == J::Null) return true;
	if (a.t == J::Map) {
		if (b.t != J::Map) return false;
		for (auto &x: a.m) if (!b.get(x.first) || !kept(x.second, *b.get(x.first))) return false;
		return true;
	}
	if (a.t == J::List) {
		if (b.t != J::List || b.l.size() < a.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!kept(a.l[i], b.l[i])) return false;
		return true;
	}
	return same(a, b);
}
// what a schema fills in; there: something is there. With references that do not lead back.
static void fill(const J &root, const J &s, J &d, bool &there) {
	if (s.t != J::Map) return;
	if (const J *r = s.get("$ref")) fill(root, *root.get("definitions")->get(r->s.substr(14)), d, there);
	if (s.get("default") && (!there || d.t == J::Null)) { d = *s.get("default"); there = true; return; }
	if (const J *p = s.get("properties")) if (!there || d.t == J::Map) for (auto &x: p->m) {
		bool in = there && d.get(x.first) != 0;
		J c;
		if (in) c = *d.get(x.first);
		fill(root, x.second, c, in);
		if (in) { if (!there) { d = J(J::Map); there = true; } d.m[x.first] = c; }
	}
	if (const J *p = s.get("items")) if (!there || d.t == J::List) {
		for (size_t i = 0; i < (p->t == J::List? p->l.size(): 1); ++i) {
			bool in = there && i < d.l.size();
			J c;
			if (in) c = d.l[i];
			fill(root, p->t == J::List? p->l[i]: *p, c, in);
			if (in) { if (!there) { d = J(J::List); there = true; } if (d.l.size() <= i) d.l.resize(i + 1); d.l[i] = c; }
		}
	}
	for (const char *c: {"allOf", "oneOf", "anyOf"}) if (s.get(c)) for (const J &x: s.get(c)->l) fill(root, x, d, there);
}
static void defaults(int n) {
	for (int it = 0; it < n; ++it) {
		int refs = rnd(3);
		J s = defschema(3, refs);
		if (refs) { s["definitions"]["p"] = defschema(2, refs == 1? 1: 3); s["definitions"]["q"] = defschema(2, refs == 1); }
		J d = data(3);
		begin("defaults of " + text(s) + " for " + text(d));
		Variant vs = lib(s), vd = lib(d);
		try { AddSchemaDefaults(vs, vd); }
		catch (const std::exception &e) { fail("P21", "throws", S(e.what()) + " | " + cur()); continue; }
		J got = model(vd);
		check(kept(d, got), "P21", "changed", text(got));
		if (refs != 1) {
			J want = d;
			bool there = true;
			fill(s, s, want, there);
			check(same(got, want), "P21", "filled", text(got) + " instead of " + text(want));
			if (!refs) check(same(model(vs), s), "P21", "schema-changed", text(model(vs)));
		}
		Variant copy = lib(got);
		J before = model(vs);
		// what was filled in is the data's own
		std::function<void(VariantRef)> spoil = [&](VariantRef v) {
			if (v.IsMap()) { for (Variant::MapIterator i(v.MapBegin()); i != v.MapEnd(); ++i) spoil(i->second); v.Set("spoilt", true); }
			else if (v.IsList()) { for (unsigned i = 0; i < v.Size(); ++i) spoil(v[i]); v.Append("spoilt"); }
			else v = "spoilt";
		};
		spoil(vd);
		check(same(model(vs), before), "P21", "default-shared");
	}
}

int main(int argc, char **argv) {
	init(argc, argv);
	S part = "all";
	for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--part")) part = argv[i+1];
	int n = g_scale;
	if (part == "all" || part == "validate") { keywords(); multiples(); nested(6000 * n); }
	if (part == "all" || part == "refs") { uris(20000 * n); references(800 * n); identifiers(200 * n); files(); }
	if (part == "all" || part == "defaults") defaults(6000 * n);
	return finish();
}
