// JSON pointers, patches and differences (RFC 6901, RFC 6902), flattening, recursive difference and update against a model of nested lists and maps.
#include "model.h"
#include <Variant/Path.h>
#include <Variant/Extensions.h>

static const char *KEYS[] = {"a", "b", "c", "0", "1", "-", "", "~", "/", "~1", "a/b", "m~n", "~0", "01", " ", "~01", "x~", "/~/"};
static S key(int simple) { return KEYS[rnd(simple == 2? 3: rnd(3)? 5: sizeof KEYS / sizeof *KEYS)]; }
static M doc(int depth, int simple = 0) {
	unsigned k = rnd(depth <= 0? 5: 11);
	if (k < 5) {
		switch (rnd(simple? 3: 4)) {
		case 0: { M r(M::Bool); r.i = rnd(2); return r; }
		case 1: return M::in(rnd(8)? (long long)rnd(4): -7);
		case 2: return M::st(rnd(3)? S(1, 'p' + rnd(3)): S("x\0y", 3));
		default: return M();
		}
	}
	int n = rnd(rnd(5)? 4: 12);
	if (simple && !n) n = 1;
	if (k < 8) { M r(M::List); while (n--) r.l.push_back(doc(depth - 1, simple)); return r; }
	M r(M::Map);
	while (n--) r.m[key(simple)] = doc(depth - 1, simple);
	return r;
}

// ------------------------------------------------------------------ pointers
static S esc(const S &k) { S r; for (char c: k) r += c == '~'? S("~0"): c == '/'? S("~1"): S(1, c); return r; }
static S index_text(size_t i) { return std::to_string(i); }
// a pointer into the document (existing, next to existing, or not)
static S pointer(const M &d) {
	S r;
	const M *p = &d;
	static const M none;
	for (int n = 0; n < 5; ++n) {
		if (rnd(4) == 0) break;
		if (p->t == M::Map && !p->m.empty() && rnd(8)) {
			auto i = p->m.begin();
			std::advance(i, rnd(p->m.size()));
			r += "/" + esc(i->first);
			p = &i->second;
		} else if (p->t == M::List && rnd(8)) {
			size_t i = rnd(p->l.size() + (rnd(3)? 0: 3) + (p->l.empty()));
			if (rnd(8) == 0) { r += "/-"; p = &none; }
			else { r += "/" + index_text(i); p = i < p->l.size()? &p->l[i]: &none; }
		} else {
			static const char *odd[] = {"00", "01", "+1", "-1", " 1", "1 ", "1a", "4294967296", "4294967295", "18446744073709551616", "99999999999999999999999", "0x1", "", "-", "--", "1\t"};
			r += "/" + (rnd(3)? esc(key(0)): S(odd[rnd(sizeof odd / sizeof *odd)]));
			if (rnd(3)) break;
			p = &none;
		}
	}
	if (rnd(60) == 0) r = "x" + r;
	return r;
}
// false: not a pointer
static bool split(const S &p, std::vector<S> &c) {
	c.clear();
	if (p.empty()) return true;
	if (p[0] != '/') return false;
	S k;
	for (size_t i = 1; ; ++i) {
		if (i == p.size() || p[i] == '/') { c.push_back(k); k.clear(); if (i == p.size()) return true; continue; }
		if (p[i] == '~') { if (i + 1 == p.size() || (p[i+1] != '0' && p[i+1] != '1')) return false; k += p[++i] == '0'? '~': '/'; }
		else k += p[i];
	}
}
static bool as_index(const S &c, size_t &i) {
	if (c.empty() || c.size() > 12 || (c.size() > 1 && c[0] == '0')) return false;
	i = 0;
	for (char x: c) { if (x < '0' || x > '9') return false; i = i * 10 + (x - '0'); }
	return true;
}
static M *child(M *p, const S &c) {
	size_t i;
	if (p->t == M::Map) { auto f = p->m.find(c); return f == p->m.end()? 0: &f->second; }
	if (p->t == M::List && as_index(c, i) && i < p->l.size()) return &p->l[i];
	return 0;
}
static M *find(M &d, const std::vector<S> &c, size_t n) {
	M *p = &d;
	for (size_t k = 0; k < n && p; ++k) p = child(p, c[k]);
	return p;
}
static bool get(M &d, const S &ptr, M &out) {
	std::vector<S> c;
	if (!split(ptr, c)) return false;
	M *p = find(d, c, c.size());
	if (!p) return false;
	out = *p;
	return true;
}
static bool add(M &d, const S &ptr, const M &v) {
	std::vector<S> c;
	if (!split(ptr, c)) return false;
	M copy = v;
	if (c.empty()) { d = copy; return true; }
	M *p = find(d, c, c.size() - 1);
	if (!p) return false;
	size_t i;
	if (p->t == M::Map) { p->m[c.back()] = copy; return true; }
	if (p->t != M::List) return false;
	if (c.back() == "-") i = p->l.size();
	else if (!as_index(c.back(), i) || i > p->l.size()) return false;
	p->l.insert(p->l.begin() + i, copy);
	return true;
}
static bool removed(M &d, const S &ptr, M &out) {
	std::vector<S> c;
	if (!split(ptr, c) || !get(d, ptr, out)) return false;
	if (c.empty()) { d = M(); return true; }
	M *p = find(d, c, c.size() - 1);
	size_t i;
	if (p->t == M::Map) p->m.erase(c.back());
	else { as_index(c.back(), i); p->l.erase(p->l.begin() + i); }
	return true;
}
static bool replaced(M &d, const S &ptr, const M &v) {
	std::vector<S> c;
	if (!split(ptr, c)) return false;
	M *p = find(d, c, c.size());
	if (!p) return false;
	M copy = v;
	*p = copy;
	return true;
}
static bool moved(M &d, const S &from, const S &to) {
	M w = d, x;
	if (!removed(w, from, x) || !add(w, to, x)) return false;
	d = w;
	return true;
}
static bool copied(M &d, const S &from, const S &to) { M x; return get(d, from, x) && add(d, to, x); }

static bool expect(const char *what, bool ok, bool done, const M &want, const Variant &v, const S &err) {
	check(ok == done, "P14", S(what) + (ok? " refused": " of what is not there accepted"), err);
	M got = model(v);
	check(got == want, "P14", S(what) + (ok? " result": " refused but the document changed"), text(got) + " expected " + text(want));
	return ok == done && got == want;
}
template <class F> static bool tried(F f, S &err) {
	try { f(); return true; } catch (const std::exception &e) { err = e.what(); return false; }
}
static void pointers() {
	for (int n = 0; n < 30000 * g_scale; ++n) {
		M d = doc(4), x;
		S p = pointer(d), q = pointer(d), err;
		M val = doc(2);
		Variant v = lib(d), dv = lib(val);
		S ctx = text(d) + " pointer " + show(p);
		switch (rnd(7)) {
		case 0: {
			begin("lookup in " + ctx);
			bool ok = get(d, p, x);
			bool here = false;
			bool done = tried([&] { VariantRef r = JSONPointerLookup(p, v); here = r.Exists(); if (here) x.t == M::Null? void(0): void(0); if (here && ok) check(model(r) == x, "P14", "lookup", text(model(r)) + " expected " + text(x)); }, err);
			check(ok == (done && here), "P14", ok? "lookup refused": "lookup of what is not there", err);
			check(model(v) == d, "P14", "lookup changed the document");
			if (ok && done) {
				// the reference is to the place itself
				JSONPointerLookup(p, v) = 4711;
				replaced(d, p, M::in(4711));
				check(model(v) == d, "P14", "assigning to what was looked up", text(model(v)));
			}
			break; }
		case 1: {
			begin("add " + text(val) + " to " + ctx);
			M w = d;
			bool ok = add(w, p, val);
			expect("add", ok, tried([&] { JSONPointerAdd(p, v, dv); }, err), ok? w: d, v, err);
			break; }
		case 2: {
			begin("remove from " + ctx);
			M w = d;
			bool ok = removed(w, p, x);
			expect("remove", ok, tried([&] { JSONPointerRemove(p, v); }, err), ok? w: d, v, err);
			break; }
		case 3: {
			begin("replace by " + text(val) + " in " + ctx);
			M w = d;
			bool ok = replaced(w, p, val);
			expect("replace", ok, tried([&] { JSONPointerReplace(p, v, dv); }, err), ok? w: d, v, err);
			break; }
		case 4: {
			begin("move to " + show(q) + " in " + ctx);
			M w = d;
			bool ok = moved(w, p, q);
			expect("move", ok, tried([&] { JSONPointerMove(p, q, v); }, err), ok? w: d, v, err);
			break; }
		case 5: {
			begin("copy to " + show(q) + " in " + ctx);
			M w = d;
			bool ok = copied(w, p, q);
			if (expect("copy", ok, tried([&] { JSONPointerCopy(p, q, v); }, err), ok? w: d, v, err) && ok && q.find('-') == S::npos) {
				// a change of the copy leaves the original alone
				M y;
				S inner = q + "/zz";
				if (get(w, q, y) && y.t == M::Map && add(w, inner, M::in(5)) && tried([&] { JSONPointerAdd(inner, v, 5); }, err))
					check(model(v) == w, "P14", "copy shares the original", text(model(v)) + " expected " + text(w));
			}
			break; }
		default: {
			// pointers formed from paths
			Path path;
			S want;
			const M *m = &d;
			for (int k = 0; k < 5; ++k) {
				if (m->t == M::Map && !m->m.empty()) { auto i = m->m.begin(); std::advance(i, rnd(m->m.size())); path.push_back(PathElement(i->first)); want += "/" + esc(i->first); m = &i->second; }
				else if (m->t == M::List && !m->l.empty()) { unsigned i = rnd(m->l.size()); path.push_back(PathElement(i)); want += "/" + index_text(i); m = &m->l[i]; }
				else break;
			}
			begin("pointer of a path in " + text(d) + " " + show(want));
			S got = FormJSONPointer(path);
			check(got == want, "P14", "pointer formed from a path", show(got) + " expected " + show(want));
			break; }
		}
	}
}

// ------------------------------------------------------------------ patches
static M op_of(const char *op, const S &path) { M r(M::Map); r.m["op"] = M::st(op); r.m["path"] = M::st(path); return r; }
static M operation(const M &d) {
	static const char *ops[] = {"add", "remove", "replace", "move", "copy", "test"};
	M r = op_of(rnd(80)? ops[rnd(6)]: "ad", pointer(d));
	if (rnd(40) == 0) r.m.erase(rnd(2)? "op": "path");
	if (rnd(40)) r.m["from"] = M::st(pointer(d));
	M x;
	if (rnd(40)) r.m["value"] = rnd(2) && r.m.count("path") && get(const_cast<M&>(d), r.m["path"].s, x)? x: doc(2);
	if (rnd(100) == 0) r.m["op"] = M::in(3);
	if (rnd(100) == 0) return doc(1);
	return r;
}
static bool applied(M &d, const M &o) {
	if (o.t != M::Map) return false;
	auto op = o.m.find("op"), path = o.m.find("path"), from = o.m.find("from"), value = o.m.find("value");
	if (op == o.m.end() || op->second.t != M::Str || path == o.m.end() || path->second.t != M::Str) return false;
	const S &n = op->second.s, &p = path->second.s;
	M x;
	if (n == "remove") return removed(d, p, x);
	if (n == "add" || n == "replace" || n == "test") {
		if (value == o.m.end()) return false;
		if (n == "add") return add(d, p, value->second);
		if (n == "replace") return replaced(d, p, value->second);
		return get(d, p, x) && x == value->second;
	}
	if (n != "move" && n != "copy") return false;
	if (from == o.m.end() || from->second.t != M::Str) return false;
	return n == "move"? moved(d, from->second.s, p): copied(d, from->second.s, p);
}
static void patch_check(const M &d, const M &patch) {
	begin("patch " + text(patch) + " to " + text(d));
	M w = d;
	bool ok = true;
	if (patch.t == M::List) { for (const M &o: patch.l) if (!(ok = applied(w, o))) break; }
	else ok = applied(w, patch);
	Variant v = lib(d), pv = lib(patch);
	std::pair<bool, S> r(false, "");
	S err;
	bool quiet = tried([&] { r = JSONPatch(v, pv); }, err);
	check(quiet, "P14", "patch raised an exception", err);
	check(r.first == ok, "P14", ok? "patch refused": "patch accepted", r.second);
	M got = model(v);
	check(got == (ok? w: d), "P14", ok? "patched document": "document after a failed patch", text(got) + " expected " + text(ok? w: d));
	check(model(pv) == patch, "P14", "applying a patch changed the patch", text(model(pv)));
	// applying it to another copy has the same result
	if (ok && rnd(4) == 0) {
		Variant u = lib(d);
		r = JSONPatch(u, pv);
		check(r.first && model(u) == w, "P14", "patch applied again", text(model(u)) + " expected " + text(w));
		check(model(v) == w, "P14", "documents patched with the same patch share values", text(model(v)) + " expected " + text(w));
	}
}
static void patches() {
	for (int n = 0; n < 40000 * g_scale; ++n) {
		M d = doc(4);
		if (d.t < M::List && rnd(5)) continue;
		M patch(M::List);
		if (rnd(5) == 0) patch = operation(d);
		else {
			// operations which mostly fit the document as it is by then
			M w = d;
			for (int k = rnd(7); k > 0; --k) {
				M o = operation(w);
				for (int tries = 0; tries < 6; ++tries) { M c = w; if (applied(c, o)) break; o = operation(w); }
				M c = w;
				if (applied(c, o)) w = c;
				patch.l.push_back(o);
			}
		}
		patch_check(d, patch);
	}
	// every pair of operations at every pair of places of one small document
	M d(M::Map);
	d.m["l"] = M(M::List);
	for (int i = 0; i < 3; ++i) d.m["l"].l.push_back(M::in(i));
	d.m["m"] = M(M::Map);
	d.m["m"].m["x"] = M::in(9);
	d.m["m"].m["~"] = M(M::List);
	static const char *places[] = {"", "/l", "/l/0", "/l/1", "/l/2", "/l/3", "/l/4", "/l/-", "/m", "/m/x", "/m/y", "/m/~0", "/m/~0/0", "/m/~0/-", "/z"};
	const int N = sizeof places / sizeof *places;
	std::vector<M> all;
	for (int i = 0; i < N; ++i) {
		M o = op_of("remove", places[i]);
		all.push_back(o);
		o.m["value"] = M::in(77);
		o.m["op"] = M::st("add"); all.push_back(o);
		o.m["op"] = M::st("replace"); all.push_back(o);
		for (int j = 0; j < N; ++j) {
			M c = op_of("move", places[i]);
			c.m["from"] = M::st(places[j]);
			all.push_back(c);
			c.m["op"] = M::st("copy");
			all.push_back(c);
		}
	}
	M bad = op_of("test", "/nowhere");
	bad.m["value"] = M();
	for (size_t i = 0; i < all.size(); ++i) {
		M p(M::List);
		p.l.push_back(all[i]);
		patch_check(d, p);
		p.l.push_back(bad);	// undone
		patch_check(d, p);
		for (int k = 0; k < 3 * g_scale; ++k) {
			M q(M::List);
			q.l.push_back(all[i]);
			q.l.push_back(all[rnd(all.size())]);
			q.l.push_back(all[rnd(all.size())]);
			if (rnd(2)) q.l.push_back(bad);
			patch_check(d, q);
		}
	}
}
// ------------------------------------------------------------------ differences
static M varied(const M &d, int depth) {
	if (rnd(6) == 0) return doc(depth);
	M r = d;
	if (r.t == M::List) {
		for (M &x: r.l) if (rnd(3) == 0) x = varied(x, depth - 1);
		for (int k = rnd(4); k > 0; --k) if (rnd(2) && !r.l.empty()) r.l.erase(r.l.begin() + rnd(r.l.size())); else r.l.insert(r.l.begin() + rnd(r.l.size() + 1), doc(depth - 1));
	} else if (r.t == M::Map) {
		for (auto &x: r.m) if (rnd(3) == 0) x.second = varied(x.second, depth - 1);
		for (int k = rnd(3); k > 0; --k) if (rnd(2) && !r.m.empty()) { auto i = r.m.begin(); std::advance(i, rnd(r.m.size())); r.m.erase(i); } else r.m[key(0)] = doc(depth - 1);
	}
	return r;
}
static void differences() {
	for (int n = 0; n < 15000 * g_scale; ++n) {
		M a = doc(4), b = rnd(3)? varied(a, 3): doc(4);
		begin("difference of " + text(a) + " and " + text(b));
		Variant va = lib(a), vb = lib(b);
		Variant diff = JSONDiff(va, vb);
		check(model(va) == a && model(vb) == b, "P14", "taking the difference changed a document");
		Variant c = va.Copy();
		std::pair<bool, S> r = JSONPatch(c, diff);
		check(r.first, "P14", "the difference cannot be applied", r.second + " " + text(model(diff)));
		check(model(c) == b, "P14", "the difference applied", text(model(c)) + " by " + text(model(diff)));
		check(!(a == b) || diff.Size() == 0, "P14", "difference of equal documents");
	}
}

// ------------------------------------------------------------------ flattening, recursive difference and update
static void flat(const M &d, const S &pre, const S &del, const S &first, bool keep, std::map<S, M> &out) {
	bool simple = d.t == M::List;
	if (simple) for (const M &x: d.l) if (x.t >= M::List) simple = false;
	if (d.t == M::List && !(keep && simple)) { for (size_t i = 0; i < d.l.size(); ++i) flat(d.l[i], pre + "[" + std::to_string(i) + "]", del, first, keep, out); }
	else if (d.t == M::Map) { for (auto &x: d.m) flat(x.second, (pre.empty()? first: pre + del) + x.first, del, first, keep, out); }
	else out[pre] = d;
}
static bool plain(const M &d) { return d.t != M::List && d.t != M::Map; }
static M overlay(const M &a, const M &b) {
	if (a.t != M::Map || b.t != M::Map) return b;
	M r = a;
	for (auto &x: b.m) r.m[x.first] = r.m.count(x.first)? overlay(r.m[x.first], x.second): x.second;
	return r;
}
static bool rdiff(const M &a, const M &b, M &out) {
	if (a == b) return false;
	if (a.t != M::Map || b.t != M::Map) { out = b; return true; }
	out = M(M::Map);
	for (auto &x: b.m) {
		auto f = a.m.find(x.first);
		M y;
		if (f == a.m.end()) out.m[x.first] = x.second;
		else if (rdiff(f->second, x.second, y)) out.m[x.first] = y;
	}
	return !out.m.empty();
}
static void flattening() {
	for (int n = 0; n < 12000 * g_scale; ++n) {
		M d = doc(4, 2);
		Variant v = lib(d), params;
		S del = "/", first;
		bool keep = rnd(3) == 0;
		ExtensionParams(params);
		if (rnd(3) == 0) { del = "."; params["pathDelimiter"] = "."; }
		if (rnd(3) == 0 && del == "/") { first = "/"; params["pathPrefix"] = "/"; }
		params["noSimpleLists"] = !keep;
		begin("flatten " + text(d) + " delimiter " + del + " prefix " + first + (keep? " keeping simple lists": ""));
		std::map<S, M> want;
		flat(d, "", del, first, keep, want);
		Variant f = FlattenPath(v, params);
		M got = model(f), w(M::Map);
		bool whole = want.size() == 1 && want.begin()->first.empty();
		if (whole) w = want.begin()->second; else w.m = want;
		check(got == w, "P20", "flattened", text(got) + " expected " + text(w));
		check(model(v) == d, "P20", "flattening changed the value");
		Variant e = ExpandPath(f, params);
		check(model(e) == d, "P20", "flattened and expanded", text(model(e)));
		check(model(f) == got, "P20", "expanding changed the flat value");
		if (d.t == M::Map || (d.t == M::List && !whole)) {
			std::map<S, S> strs = FlattenPathToStrStrMap(v, params), ws;
			for (auto &x: want) {
				if (x.second.t == M::List) { S t; for (size_t i = 0; i < x.second.l.size(); ++i) t += (i? ",": "") + lib(x.second.l[i]).AsString(); ws[x.first] = t; }
				else ws[x.first] = lib(x.second).AsString();
			}
			check(strs == ws, "P20", "flattened to strings");
		}
	}
	for (int n = 0; n < 15000 * g_scale; ++n) {
		M a = doc(4, 1), b = rnd(3)? varied(a, 3): doc(4, 1);
		std::function<bool(const M&)> fit = [&](const M &x) {
			if (x.t == M::Null || (x.t == M::Map && x.m.empty())) return false;
			for (const M &y: x.l) if (!fit(y)) return false;
			for (auto &y: x.m) if (!fit(y.second)) return false;
			return true;
		};
		if (!fit(a) || !fit(b)) continue;
		begin("recursive difference of " + text(a) + " and " + text(b));
		Variant va = lib(a), vb = lib(b);
		Variant diff = RDiff(va, vb);
		M want;
		if (!rdiff(a, b, want)) want = M(M::Map);
		check(model(diff) == want, "P20", "recursive difference", text(model(diff)) + " expected " + text(want));
		check(model(va) == a && model(vb) == b, "P20", "taking the recursive difference changed a value");
		Variant c = va.Copy();
		if (a != b) {
			RUpdate(c, diff);
			check(model(c) == overlay(a, b), "P20", "updated with the difference", text(model(c)) + " expected " + text(overlay(a, b)));
		}
		c = va.Copy();
		RUpdate(c, vb);
		check(model(c) == overlay(a, b), "P20", "updated", text(model(c)) + " expected " + text(overlay(a, b)));
		check(model(vb) == b, "P20", "updating changed the update");
		// the result is independent of the update
		if (model(c).t == M::Map && vb.IsMap()) {
			M now = model(c);
			for (Variant::MapIterator i(vb.MapBegin()); i != vb.MapEnd(); ++i) if (i->second.IsMap()) i->second.Set("new", 1); else if (i->second.IsList()) i->second.Append(1);
			check(model(c) == now, "P20", "updated value shares the update", text(model(c)));
			check(model(diff) == want, "P20", "difference shares the compared value", text(model(diff)));
		}
	}
	begin("parameters");
	for (const char *k: {"pathPrefix", "pathDelimiter", "indexPrefix", "indexSuffix", "listDelimiter"}) {
		Variant p;
		p[k] = "xx";
		S err;
		check(!tried([&] { ExtensionParams(p); }, err), "P20", S("parameter taken: ") + k);
	}
}
int main(int argc, char **argv) {
	init(argc, argv);
	S part;
	for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--part")) part = argv[i+1];
	if (part.empty() || part == "patch") { pointers(); patches(); differences(); }
	if (part.empty() || part == "flat") flattening();
	return finish();
}
