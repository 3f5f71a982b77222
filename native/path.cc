// Path strings against the documented syntax, and path operations against a model of nested lists and maps.
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Path.h>
#include <functional>
#include <map>
using namespace libvariant;
using namespace vh;
typedef std::string S;

// ------------------------------------------------------------------ path strings
struct El { bool key; unsigned i; S k; };
typedef std::vector<El> PV;
static bool operator==(const El &a, const El &b) { return a.key == b.key && (a.key? a.k == b.k: a.i == b.i); }
static Path lib(const PV &p) { Path r; for (const El &e: p) { if (e.key) r.push_back(PathElement(e.k)); else r.push_back(PathElement(e.i)); } return r; }
static PV plain(const Path &p) {
	PV r;
	for (const PathElement &e: p) {
		check(e.IsString() != e.IsNumber(), "P13", "kind of a path element");
		r.push_back(e.IsString()? El{true, 0, e.AsString()}: El{false, e.AsUnsigned(), ""});
	}
	return r;
}
static S shown(const PV &p) { S r; for (const El &e: p) r += e.key? "/" + show(e.k): "[" + std::to_string(e.i) + "]"; return r; }
static S enc(const PV &p, bool all) {
	if (p.empty()) return "/";
	S r;
	for (const El &e: p) {
		if (!e.key) { r += "[" + std::to_string(e.i) + "]"; continue; }
		r += '/';
		for (char c: e.k) {
			if (c == '/' || c == '[' || c == ']' || c == '\\' || (all && rnd(3) == 0)) r += '\\';
			r += c;
		}
	}
	return r;
}
// the documented syntax; false: not of that form
static bool syntax(const S &s, PV &p) {
	size_t i = 0;
	p.clear();
	bool bare = !s.empty() && s[0] != '/' && s[0] != '[' && s[0] != ']' && s[0] != '\\';
	if (!s.empty() && (s[0] == ']' || s[0] == '\\')) return false;
	while (i < s.size()) {
		if (s[i] == '[') {
			size_t j = ++i;
			uint64_t v = 0;
			while (i < s.size() && isdigit((unsigned char)s[i])) { v = v * 10 + (s[i] - '0'); if (v > 0xffffffffu) return false; ++i; }
			if (i == j || i == s.size() || s[i] != ']') return false;
			++i;
			if (i < s.size() && s[i] != '/' && s[i] != '[') return false;
			p.push_back(El{false, (unsigned)v, ""});
		} else {
			if (!bare) ++i;
			bare = false;
			S k;
			while (i < s.size() && s[i] != '/' && s[i] != '[') {
				if (s[i] == ']') return false;
				if (s[i] == '\\' && ++i == s.size()) return false;
				k += s[i++];
			}
			if (i == s.size() && k.empty()) break;	// a "/" at the end is ignored
			p.push_back(El{true, 0, k});
		}
	}
	return true;
}
static void parse_check(const S &s) {
	begin("path string " + show(s));
	PV want;
	bool ok = syntax(s, want);
	try {
		PV got = plain(ParsePath(s));
		if (ok) check(got == want, "P13", "path string", shown(got) + " expected " + shown(want));
		// what was read is written and read again as the same path
		if (!got.empty() && got.back().key && got.back().k.empty()) return;
		PV again = plain(ParsePath(PathString(lib(got))));
		check(again == got, "P13", "path string read, written and read", shown(again) + " expected " + shown(got));
	} catch (const std::exception &e) { check(!ok, "P13", "path string refused", e.what()); }
}
static S key() {
	static const char *ks[] = {"a", "b", "key", "/", "[", "]", "\\", "a/b", "[0]", "0", "12", "x\\", "\\\\", "", " ", "\xc3\xa9", "a b", "]["};
	if (rnd(4)) return ks[rnd(sizeof ks / sizeof *ks)];
	S r;
	for (int n = rnd(6); n >= 0; --n) r += rnd(2)? "/[]\\a"[rnd(5)]: char(rnd(256));
	return r;
}
static PV path(int max) {
	static const unsigned is[] = {0, 1, 2, 9, 10, 4294967295u, 2147483648u, 4294967294u};
	PV p;
	for (int n = rnd(max + 1); n > 0; --n) p.push_back(rnd(2)? El{true, 0, key()}: El{false, is[rnd(8)], ""});
	return p;
}
static void strings() {
	const S alpha = "/[]\\a0";
	for (int len = 0; len <= (g_scale > 1? 8: 6); ++len) {
		S s(len, '/');
		std::vector<int> ix(len, 0);
		for (;;) {
			for (int k = 0; k < len; ++k) s[k] = alpha[ix[k]];
			parse_check(s);
			int k = 0;
			while (k < len && ++ix[k] == (int)alpha.size()) ix[k++] = 0;
			if (k == len) break;
		}
	}
	for (int c = 1; c < 256; ++c) {
		parse_check(S("/") + char(c)); parse_check(S("/a") + char(c) + "b"); parse_check(S("/\\") + char(c) + "z"); parse_check(S("[1]/") + char(c));
		parse_check(S(1, char(c)) + "q");
	}
	for (unsigned long long v: {0ull, 7ull, 10ull, 99ull, 4294967294ull, 4294967295ull}) { parse_check("[" + std::to_string(v) + "]"); parse_check("/a[" + std::to_string(v) + "]/b"); }
	for (const char *s: {"[4294967296]", "/a[4294967297]", "[18446744073709551615]", "[18446744073709551616]", "[99999999999999999999999]"}) {
		begin(S("path string ") + s);
		bool refused = false;
		try { ParsePath(s); } catch (const std::exception &) { refused = true; }
		check(refused, "P13", "an index that is no index was taken");
	}
	for (const char *s: {"[]", "[x]", "[/]", "/a[key]", "[-]"}) {
		begin(S("path string ") + s);
		bool refused = false;
		try { ParsePath(s); } catch (const std::exception &) { refused = true; }
		check(refused, "P13", "an index that is no number was taken");
	}
	for (int n = 0; n < 40000 * g_scale; ++n) {
		PV p = path(5);
		begin("path " + shown(p));
		S t = PathString(lib(p));
		check(t == enc(p, false), "P13", "path as text", t + " expected " + enc(p, false));
		if (!p.empty() && p.back().key && p.back().k.empty()) continue;
		check(plain(ParsePath(t)) == p, "P13", "path written and read", shown(plain(ParsePath(t))));
		S u = enc(p, true);
		check(plain(ParsePath(u)) == p, "P13", "path with escapes", u + " " + shown(plain(ParsePath(u))));
		// appending to a path that is there
		Path q = lib(PV{El{true, 0, "first"}, El{false, 3, ""}});
		ParsePath(q, t);
		PV want = {El{true, 0, "first"}, El{false, 3, ""}};
		want.insert(want.end(), p.begin(), p.end());
		check(plain(q) == want, "P13", "path appended", shown(plain(q)));
	}
}

// ------------------------------------------------------------------ path operations
struct M { int t = 0; long i = 0; S s; std::vector<M> l; std::map<S, M> m; };
static S dump(const M &v) {
	S r;
	switch (v.t) {
	case 0: return "null";
	case 2: return std::to_string(v.i);
	case 5: return show(v.s);
	case 6: for (const M &e: v.l) r += (r.empty()? "": ",") + dump(e); return "[" + r + "]";
	default: for (auto &e: v.m) r += (r.empty()? "": ",") + show(e.first) + ":" + dump(e.second); return "{" + r + "}";
	}
}
static S dump(const Variant &v) {
	S r;
	switch (int(v.GetType())) {
	case 0: return "null";
	case 2: return std::to_string(v.AsInt());
	case 5: return show(v.AsString());
	case 6: for (auto &e: v.AsList()) r += (r.empty()? "": ",") + dump(e); return "[" + r + "]";
	case 7: for (auto &e: v.AsMap()) r += (r.empty()? "": ",") + show(e.first) + ":" + dump(e.second); return "{" + r + "}";
	default: return "?";
	}
}
static Variant make(const M &v) {
	Variant r;
	switch (v.t) {
	case 0: return r;
	case 2: return Variant(v.i);
	case 5: return Variant(v.s);
	case 6: r = Variant(Variant::ListType); for (const M &e: v.l) r.Append(make(e)); return r;
	default: r = Variant(Variant::MapType); for (auto &e: v.m) r.Set(e.first, make(e.second)); return r;
	}
}
static M tree(int d) {
	M v;
	static const int ts[] = {0, 2, 5, 6, 6, 7, 7};
	v.t = ts[rnd(d > 0? 7: 3)];
	v.i = rnd(10);
	v.s = rnd(3)? "txt": "";
	int n = rnd(4);
	if (v.t == 6) for (; n > 0; --n) v.l.push_back(tree(d - 1));
	if (v.t == 7) for (; n > 0; --n) v.m[S(1, "abc"[rnd(3)])] = tree(d - 1);
	return v;
}
static M *step(M *v, const El &e) {
	if (e.key) { if (v->t != 7) return 0; auto i = v->m.find(e.k); return i == v->m.end()? 0: &i->second; }
	return v->t == 6 && e.i < v->l.size()? &v->l[e.i]: 0;
}
static M *get(M *v, const PV &p) { for (const El &e: p) if (!(v = step(v, e))) return 0; return v; }
// place for a path, made where it is missing; 0 (and nothing changed): something in the way
static M *place(M *v, const PV &p) {
	M *q = v;
	for (const El &e: p) { M *n = step(q, e); if (!n) { if (q->t != 0 && q->t != (e.key? 7: 6)) return 0; break; } q = n; }
	for (const El &e: p) {
		M *n = step(v, e);
		if (!n) {
			v->t = e.key? 7: 6;
			if (e.key) n = &v->m[e.k];
			else { v->l.resize(e.i + 1); n = &v->l[e.i]; }
		}
		v = n;
	}
	return v;
}
static void drop(M *v, const El &e) {
	if (e.key) { v->m.erase(e.k); return; }
	if (e.i + 1 == v->l.size()) v->l.pop_back(); else if (e.i < v->l.size()) v->l[e.i] = M();
}
static PV way(const M *v) {		// mostly a way into v
	PV p;
	for (int n = rnd(4); n >= 0; --n) {
		El e = rnd(2)? El{true, 0, S(1, "abcd"[rnd(4)])}: El{false, (unsigned)rnd(5), ""};
		if (v && v->t == 7 && rnd(8)) { e.key = true; e.k = S(1, "abcd"[rnd(4)]); if (v->m.size() && rnd(3)) { auto i = v->m.begin(); std::advance(i, rnd(v->m.size())); e.k = i->first; } }
		if (v && v->t == 6 && rnd(8)) { e.key = false; e.i = rnd(v->l.size() + 2); }
		p.push_back(e);
		v = v? step(const_cast<M*>(v), e): 0;
	}
	if (rnd(12) == 0) p.clear();
	return p;
}
static bool throws(const std::function<void()> &f) { try { f(); return false; } catch (const std::exception &) { return true; } }

static void operations() {
	for (int n = 0; n < 60000 * g_scale; ++n) {
		M m = tree(4), x = tree(2);
		Variant v = make(m);
		PV p = way(&m);
		Path lp = lib(p);
		S before = dump(m);
		bool text = p.empty() || !p.back().key || !p.back().k.empty();
		S ps = enc(p, false);
		int mode = rnd(3);		// directly, through a reference, through a member
		Variant holder;
		if (mode == 2) { holder.Set("h", v); }
		VariantRef r = mode == 2? holder.At("h"): VariantRef(v);
		Variant &o = mode? static_cast<Variant&>(r): v;
		const Variant &c = o;
		int op = rnd(10);
		begin("operation " + num(op) + (mode? " through a reference": "") + " path " + shown(p) + " on " + before + " with " + dump(x));
		M *g = get(&m, p);
		switch (op) {
		case 0:
			check(c.HasPath(lp) == (g != 0), "P13", "has path");
			if (text) check(c.HasPath(ps) == (g != 0), "P13", "has path as text");
			break;
		case 1: {
			S got = "!";
			bool t = throws([&]{ got = dump(text && rnd(2)? c.GetPath(ps): c.GetPath(lp)); });
			check(t == !g && (!g || got == dump(*g)), "P13", "get path", got);
			t = throws([&]{ got = dump(c.AtPath(lp)); });
			check(t == !g && (!g || got == dump(*g)), "P13", "at path, constant", got);
			break; }
		case 2: {
			S got = dump(text && rnd(2)? c.GetPath(ps, make(x)): c.GetPath(lp, make(x)));
			check(got == dump(g? *g: x), "P13", "get path with default", got);
			break; }
		case 3: {
			M *pl = place(&m, p);
			if (pl) *pl = x;
			bool t = throws([&]{ if (text && rnd(2)) o.SetPath(ps, make(x)); else o.SetPath(lp, make(x)); });
			check(t == !pl, "P13", "set path: outcome", t? "refused": "done");
			break; }
		case 4: {
			M *pl = g? g: place(&m, p);
			if (pl && !g) *pl = x;
			S got = "!";
			bool t = throws([&]{ got = dump(o.AtPath(lp, make(x))); });
			check(t == !pl && (!pl || got == dump(*pl)), "P13", "at path with default", got);
			break; }
		case 5: {
			bool e = false;
			S got = "!";
			throws([&]{ VariantRef q = o.AtPath(lp); e = q.Exists(); got = dump(q); });
			check(e == (g != 0) && (!g || got == dump(*g)), "P13", "at path: reading", got);
			break; }
		case 6: {
			M *pl = place(&m, p);
			if (pl) *pl = x;
			bool t = throws([&]{ o.AtPath(lp) = make(x); });
			check(t == !pl, "P13", "at path: writing", t? "refused": "done");
			break; }
		case 7: case 8: case 9: {
			bool prune = op != 7;
			bool odd = false, t;
			if (p.size()) {
				PV up(p.begin(), p.end() - 1);
				// only what leads to the last step counts
				for (size_t k = 0; k < p.size(); ++k) { M *q = get(&m, PV(p.begin(), p.begin() + k)); if (q && q->t && q->t != (p[k].key? 7: 6)) odd = true; }
				M *q = get(&m, up);
				if (!odd) {
					if (q) drop(q, p.back());
					if (prune) for (size_t k = p.size() - 1; k > 0; --k) {
						q = get(&m, PV(p.begin(), p.begin() + k));
						if (q && (q->t == 0 || (q->t == 6 && q->l.empty()) || (q->t == 7 && q->m.empty()))) drop(get(&m, PV(p.begin(), p.begin() + k - 1)), p[k - 1]);
						else if (q) break;
					}
				}
			}
			t = throws([&]{ if (text && rnd(2)) o.ErasePath(ps, prune); else o.ErasePath(lp, prune); });
			check(!t || odd, "P13", "erase path refused");
			if (odd && prune) m = M(), before = "";		// what is on the way may go when it is empty
			break; }
		}
		if (op < 7 || before != "") {
			S after = dump(mode == 2? holder.Get("h"): Variant(v));
			check(after == dump(m), "P13", "value afterwards", after + " expected " + dump(m));
			if (mode == 2) check(holder.Size() == 1, "P13", "something else changed");
			if (op < 3 || op == 5) check(after == before, "P13", "reading changed the value", after);
		}
	}
}

int main(int argc, char **argv) {
	init(argc, argv);
	strings();
	operations();
	return finish();
}
