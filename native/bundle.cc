// Bundle headers (--part hdr) and headers followed by a payload (--part payload).
#include "scalar.h"
#include "chunks.h"
#include "model.h"
#include <Variant/Payload.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <Variant/Path.h>
#include <memory>
#include <sstream>
#include <math.h>
#include <sys/uio.h>

// ------------------------------------------------------------------ outputs
// takes up to most bytes at once and limit bytes altogether, then refuses (by a count of zero or by an exception)
struct Taker : EmitterOutput {
	S *d;
	unsigned most;
	size_t limit;
	bool throwing;
	Taker(S *d, unsigned m, size_t l = ~size_t(0), bool t = false) : d(d), most(m), limit(l), throwing(t) {}
	unsigned Write(const void *p, unsigned n) {
		if (n > most) n = 1 + rnd(most);
		if (n > limit - d->size()) n = limit - d->size();
		if (!n && throwing) throw std::runtime_error("full");
		d->append((const char*)p, n);
		return n;
	}
	void Flush() { if (throwing && d->size() >= limit) throw std::runtime_error("full"); }
	unsigned NumBytesWritten() const { return d->size(); }
};

// ------------------------------------------------------------------ reading headers
struct Log : Got {
	S *ev;
	Log(S *e) : ev(e) {}
	void flush() { *ev += what + "; "; what.clear(); }
	void Scalar(ParserImpl *p, double v, const char *a, const char *t) { Got::Scalar(p, v, a, t); flush(); }
	void Scalar(ParserImpl *p, const char *s, unsigned n, const char *a, const char *t) { Got::Scalar(p, s, n, a, t); flush(); }
	void Scalar(ParserImpl *p, bool v, const char *a, const char *t) { Got::Scalar(p, v, a, t); flush(); }
	void Null(ParserImpl *p, const char *a, const char *t) { Got::Null(p, a, t); flush(); }
	void Scalar(ParserImpl *p, intmax_t v, const char *a, const char *t) { Got::Scalar(p, v, a, t); flush(); }
	void Scalar(ParserImpl *p, uintmax_t v, const char *a, const char *t) { Got::Scalar(p, v, a, t); flush(); }
	void BeginDocument(ParserImpl *) { *ev += "document; "; }
	void EndDocument(ParserImpl *) { *ev += "end of document; "; }
	void BeginMap(ParserImpl *, int, const char *, const char *) { *ev += "map; "; }
	void EndMap(ParserImpl *) { *ev += "end of map; "; }
	void BeginList(ParserImpl *, int, const char *, const char *) { *ev += "list; "; }
	void EndList(ParserImpl *) { *ev += "end of list; "; }
};
static bool entry(const S &line, S &key, S &value) {
	size_t i = 0, n = line.size();
	key.clear(), value.clear();
	while (i < n && space(line[i])) ++i;
	while (i < n && line[i] != ':' && line[i] != ' ' && line[i] != '\t') { if (line[i] == '#') return false; key += line[i++]; }
	while (i < n && space(line[i])) ++i;
	if (i == n || line[i] != ':') return false;
	++i;
	while (i < n && space(line[i])) ++i;
	value = line.substr(i, line.find('#', i) == S::npos? S::npos: line.find('#', i) - i);
	while (!value.empty() && space(value[value.size() - 1])) value.erase(value.size() - 1);
	return true;
}
static S value_events(const S &v) {
	std::vector<S> f;
	S cur_field;
	for (size_t i = 0; i <= v.size(); ++i) {
		if (i == v.size() || v[i] == '|') { if (!cur_field.empty()) f.push_back(cur_field); cur_field.clear(); }
		else cur_field += v[i];
	}
	if (f.size() < 2 && (v.empty() || v[v.size() - 1] != '|')) return meaning(v) + "; ";
	S r = "list; ";
	for (const S &x: f) r += meaning(x) + "; ";
	return r + "end of list; ";
}
static S header_events(const S &t) {
	if (t.empty()) return "";
	S r = "document; map; ";
	for (size_t i = 0; i < t.size();) {
		size_t e = t.find('\n', i), n = e == S::npos? t.size(): e;
		S k, v;
		if (entry(t.substr(i, n - i), k, v) && k != "bundle.version") r += "text " + show(k, 100) + "; " + value_events(v);
		i = e == S::npos? t.size(): e + 1;
	}
	return r + "end of map; end of document; ";
}
static shared_ptr<ParserInput> source(const S &t, std::unique_ptr<char[]> &h, S &how) {
	if (rnd(2)) {
		h.reset(new char[t.size()]);
		memcpy(h.get(), t.data(), t.size());
		how = "memory";
		return shared_ptr<ParserInput>(new ParserMemoryInput(h.get(), t.size()));
	}
	unsigned b = 1 + rnd(rnd(2)? 12: 6000), m = 1 + rnd(rnd(2)? 5: 5000);
	how = "stream with a buffer of " + std::to_string(b) + " and reads of up to " + std::to_string(m);
	return shared_ptr<ParserInput>(new Chunks(t, b, m));
}
static void try_read(const S &t) {
	std::unique_ptr<char[]> h;
	S how;
	shared_ptr<ParserInput> in = source(t, h, how);
	begin("bundle header " + show(t) + " from " + how);
	S ev;
	int r = 0;
	try {
		Parser p = BundleHdrParser(in);
		p.PushAction(shared_ptr<ParserActions>(new Log(&ev)));
		for (int i = 0; i < 3 && r == 0; ++i) r = p.Run();
		check(p.Done() && !p.Ok() && !p.Error(), "P18", "state after the end");
	} catch (const std::exception &e) {
		fail("P18", "refused", cur() + ": " + e.what());
		return;
	}
	if (t.find('\0') != S::npos) return; // only safety
	check(r == 1, "P18", "end");
	S want = header_events(t);
	check(ev == want, "P18", "reading", cur() + ": " + ev + " instead of " + want);
	check(rest(in.get()).empty(), "P18", "rest of the input");
}
static void reads() {
	const char al[] = "a: #|\n1\t";
	size_t k = sizeof al - 1;
	for (int n = 0; n <= 5; ++n) {
		size_t total = 1;
		for (int i = 0; i < n; ++i) total *= k;
		for (size_t c = 0; c < total; ++c) {
			S s;
			for (size_t x = c, i = 0; i < (size_t)n; ++i, x /= k) s += al[x % k];
			try_read(s);
		}
	}
	static const char *w[] = {"a", "key", "bundle.version", "bundle.versio", ":", ": ", " : ", "|", "||", " ", "\t", "\r", "\v", "#", "# comment", "\n", "\n\n", "12", "-7", "1.5", "0x1f", "true", "~", ".inf", "text with spaces", "\xe9\xff", "payload.length", "b|c", "b|", "|c"};
	for (int i = 0; i < 30000 * g_scale; ++i) {
		S s;
		for (unsigned n = rnd(24); n--;) {
			s += w[rnd(sizeof w / sizeof *w)];
			if (rnd(300) == 0) s += S(rnd(9000), 'x');
			if (rnd(6) == 0) s += "\nk: ";
			if (rnd(2000) == 0) s += '\0';
		}
		try_read(s);
	}
}

// ------------------------------------------------------------------ writing headers
static S word(bool list) {
	static const char *w[] = {"x", "yes", "two words", "12ab", "true", "17", "a:b", "\xc3\xa9", "~", "null", "0x10", "-", "1e3", ".5"};
	S r = w[rnd(sizeof w / sizeof *w)];
	if (rnd(20) == 0) r += S(rnd(5000), 'y');
	if (!list && rnd(10) == 0) r = "";
	return r;
}
// a scalar that a header can hold, and its text
static Variant scalar(S &t, bool list, int prec) {
	switch (rnd(list? 4: 6)) {
	case 0: { intmax_t v = rnd(2)? intmax_t(rnd()) - intmax_t(rnd()): intmax_t(rnd(100)) - 50; t = std::to_string(v); return Variant(v); }
	case 1: { uintmax_t v = rnd(2)? rnd() << 8: rnd(100); t = std::to_string(v); return Variant(v); }
	case 2: { double v = rnd(2)? (int(rnd(20000)) - 10000) / 7.0: ldexp(double(rnd() & 0xfffff), int(rnd(600)) - 300); char b[512]; snprintf(b, sizeof b, "%#.*g", prec? prec: 1, v); t = b; return Variant(v); }
	case 3: t = word(list); return Variant(t);
	case 4: { bool b = rnd(2); t = b? "1": "0"; return Variant(b); }
	default: t = ""; return Variant();
	}
}
static void writes() {
	for (int i = 0; i < 12000 * g_scale; ++i) {
		Variant v(Variant::MapType);
		int prec = rnd(2)? 17: 1 + rnd(17);
		std::map<S, S> line;
		S ev;
		for (unsigned n = rnd(6); n--;) {
			S k = rnd(3)? S(1, 'a' + rnd(6)): rnd(2)? "payload.length": "\xe9k_9.x";
			S t;
			if (rnd(3)) {
				v[k] = scalar(t, false, prec);
				line[k] = k + ": " + t + "\n";
			} else {
				Variant l(Variant::ListType);
				S a;
				for (unsigned m = rnd(4); m--;) { l.Append(scalar(t, true, prec)); a += (a.empty()? "": "|") + t; }
				v[k] = l;
				line[k] = k + ": " + a + "|\n";
			}
		}
		S want = "bundle.version: 0.0\n";
		ev = "document; map; ";
		for (auto &x: line) {
			want += x.second;
			ev += "text " + show(x.first, 100) + "; " + value_events(x.second.substr(x.first.size() + 2, x.second.size() - x.first.size() - 3));
		}
		ev += "end of map; end of document; ";
		S got;
		bool limited = rnd(4) == 0, throwing = rnd(2);
		size_t limit = limited? rnd(want.size() + 1): ~size_t(0);
		unsigned most = rnd(3)? 1 + rnd(7): 100000;
		begin("writing " + show(want) + (limited? " into " + std::to_string(limit) + " bytes": S()) + " at most " + std::to_string(most) + " at once");
		Variant params;
		if (prec != 17) params["precision"] = prec;
		bool thrown = false;
		try {
			Emitter e = BundleHdrEmitter(shared_ptr<EmitterOutput>(new Taker(&got, most, limit, throwing)), params);
			e.BeginDocument();
			e << v;
			e.EndDocument();
		} catch (const std::runtime_error &) { thrown = true; }
		if (limited && (limit < want.size() || throwing)) {
			check(thrown, "P18", "full output reported");
			check(got == want.substr(0, limit), "P18", "what a full output got", show(got));
			continue;
		}
		check(!thrown && got == want, "P18", "writing", show(got));
		S how, ev2;
		std::unique_ptr<char[]> h;
		begin("reading back " + show(want));
		Parser p = BundleHdrParser(source(got, h, how));
		p.PushAction(shared_ptr<ParserActions>(new Log(&ev2)));
		p.Run();
		check(ev2 == ev, "P18", "reading back", ev2 + " instead of " + ev);
	}
}
// any order of calls: what does not fit is refused and writes nothing
static void orders() {
	for (int i = 0; i < 12000 * g_scale; ++i) {
		S got, want, calls;
		enum { START, BEGIN, KEY, VALUE, LIST0, LIST, END, STOP } s = START;
		{
			Emitter e = BundleHdrEmitter(shared_ptr<EmitterOutput>(new Taker(&got, 1 + rnd(30))));
			for (unsigned n = 1 + rnd(14); n--;) {
				unsigned op = rnd(5)? s == START? rnd(2)? 0: 2: s == BEGIN? 2: s == KEY? rnd(4)? 8 + rnd(5): 3: s == VALUE? rnd(3)? 6 + rnd(7): 4: s == LIST0 || s == LIST? rnd(3)? 6 + rnd(7): 5: s == END? 1: rnd(14): rnd(14);
				static const char *names[] = {"BeginDocument", "EndDocument", "BeginMap", "EndMap", "BeginList", "EndList", "null", "true", "false", "text", "int", "unsigned", "float", "blob"};
				calls += S(names[op]) + " ";
				begin("calls " + calls);
				bool ok = true;
				S t;
				switch (op) {
				case 0: ok = s == START; if (ok) { want += "bundle.version: 0.0\n"; s = BEGIN; } break;
				case 1: ok = s != STOP; if (ok) s = STOP; break;
				case 2: if (s == START) { want += "bundle.version: 0.0\n"; s = BEGIN; } ok = s == BEGIN; if (ok) s = KEY; break;
				case 3: ok = s == KEY; if (ok) s = END; break;
				case 4: ok = s == VALUE; if (ok) s = LIST0; break;
				case 5: ok = s == LIST0 || s == LIST; if (ok) { want += "|\n"; s = KEY; } break;
				case 6: break;
				case 7: t = "1"; break;
				case 8: t = "0"; break;
				case 9: t = "text"; break;
				case 10: t = "-12"; break;
				case 11: t = "18446744073709551615"; break;
				case 12: t = "2.5000000000000000"; break;
				case 13: ok = false; break;
				}
				if (op > 5 && op < 13) {
					ok = s == KEY || s == VALUE || s == LIST0 || s == LIST;
					if (s == KEY) want += t + ": ", s = VALUE;
					else if (s == VALUE) want += t + "\n", s = KEY;
					else if (s == LIST0) want += t, s = LIST;
					else if (s == LIST) want += "|" + t;
				}
				bool thrown = false;
				try {
					switch (op) {
					case 0: e.BeginDocument(); break;
					case 1: e.EndDocument(); break;
					case 2: e.BeginMap(); break;
					case 3: e.EndMap(); break;
					case 4: e.BeginList(); break;
					case 5: e.EndList(); break;
					case 6: e.EmitNull(); break;
					case 7: e.EmitTrue(); break;
					case 8: e.EmitFalse(); break;
					case 9: e.Emit("text"); break;
					case 10: e.Emit(intmax_t(-12)); break;
					case 11: e.Emit(uintmax_t(-1)); break;
					case 12: e.Emit(2.5); break;
					case 13: e.Emit(ConstBlobPtr(Blob::CreateCopy("ab", 2))); break;
					}
				} catch (const std::runtime_error &) { thrown = true; }
				check(thrown == !ok, "P18", "order of calls", ok? "refused": "not refused");
				check(got == want, "P18", "text after a call", show(got) + " instead of " + show(want));
				if (got != want || thrown != !ok) break;
			}
		}
		check(got == want, "P18", "text after the end", show(got) + " instead of " + show(want));
	}
}

// ------------------------------------------------------------------ payloads
struct Step { bool index; unsigned i; S k; };
typedef std::vector<Step> P;
static S path_text(const P &p) {
	S r;
	for (size_t i = 0; i < p.size(); ++i) r += p[i].index? "[" + std::to_string(p[i].i) + "]": (i? "/": "") + p[i].k;
	return r;
}
// a path that the value has or that can be added to it without going through a scalar; it does not end inside a container if fresh
static P some_path(const M &root) {
	static const M none;
	P p;
	const M *m = &root;
	static const char *keys[] = {"a", "b", "c", "payload", "length", "data"};
	for (unsigned n = 1 + rnd(3);; --n) {
		Step s = {false, 0, ""};
		bool list = m->t == M::List || (m == &none && rnd(3) == 0);
		if (list) { s.index = true; s.i = rnd(m->l.size() + (rnd(2)? 0: 3) + m->l.empty()); m = s.i < m->l.size()? &m->l[s.i]: &none; }
		else { s.k = keys[rnd(6)]; auto f = m->m.find(s.k); m = m != &none && f != m->m.end()? &f->second: &none; }
		p.push_back(s);
		if (n <= 1 || (m != &none && m->t != M::List && m->t != M::Map)) return p;
	}
}
static bool starts(const P &a, const P &b) {
	for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i].index != b[i].index || a[i].i != b[i].i || a[i].k != b[i].k) return false;
	return true;
}
static bool set(M &m, const P &p, const M &v) {
	M *x = &m;
	for (const Step &s: p) {
		if (s.index) {
			if (x->t == M::Null) *x = M(M::List);
			if (x->t != M::List) return false;
			if (x->l.size() <= s.i) x->l.resize(s.i + 1);
			x = &x->l[s.i];
		} else {
			if (x->t == M::Null) *x = M(M::Map);
			if (x->t != M::Map) return false;
			x = &x->m[s.k];
		}
	}
	*x = v;
	return true;
}
static void leave_out(M &m, const P &p) {
	M *x = &m;
	for (size_t i = 0; i + 1 < p.size(); ++i) x = p[i].index? &x->l[p[i].i]: &x->m[p[i].k];
	if (p.back().index) x->l[p.back().i] = M(); else x->m.erase(p.back().k);
}
static M tree(int depth, bool flat) {
	unsigned k = rnd(depth <= 0? 4: 9);
	switch (k) {
	case 0: { M r(M::Bool); r.i = rnd(2); return r; }
	case 1: return M::in((long long)rnd(1000) - 500);
	case 2: return M::st(rnd(2)? "text": flat? "word": S("a\0\n\xc3\xa9\"", 6));
	case 3: if (!flat) return M(); return M::in(7);
	}
	int n = rnd(4);
	if (flat || k < 6) { M r(M::List); while (n--) r.l.push_back(flat? M::in(rnd(100)): tree(depth - 1, flat)); return r; }
	M r(M::Map);
	static const char *keys[] = {"a", "b", "c", "payload", "length", "data"};
	while (n--) r.m[keys[rnd(6)]] = tree(depth - 1, flat);
	return r;
}
// what is read for a written value (a bundle header has no booleans)
static M as_read(const M &m, bool flat) {
	M r = m;
	if (flat && r.t == M::Bool) r.t = M::Int;
	for (M &x: r.l) x = as_read(x, flat);
	for (auto &x: r.m) x.second = as_read(x.second, flat);
	return r;
}
struct Rec { S bytes; M full; SerializeType type; Variant params; size_t header, payload; };
static bool make(Rec &r) {
	bool flat = rnd(3) == 0;
	r.type = flat? SERIALIZE_BUNDLEHDR: SERIALIZE_JSON;
	r.params = Variant();
	M m(M::Map);
	static const char *keys[] = {"a", "b", "c", "payload", "length", "data"};
	for (unsigned n = rnd(4); n--;) m.m[keys[rnd(6)]] = tree(flat? 1: 2, flat);
	P dp, lp;
	bool own = rnd(2);
	if (flat) {
		dp.push_back(Step{false, 0, own? "d": "payload.data"});
		lp.push_back(Step{false, 0, own? "l": "payload.length"});
	} else if (own) {
		for (;;) { dp = some_path(m); lp = some_path(m); if (!starts(dp, lp)) break; }
	} else {
		dp.push_back(Step{false, 0, "payload"});
		lp = dp;
		dp.push_back(Step{false, 0, "data"});
		lp.push_back(Step{false, 0, "length"});
	}
	if (own) r.params.Set("data_path", path_text(dp)).Set("length_path", path_text(lp));
	M data(M::Blb);
	bool has = rnd(5) != 0;
	if (has) {
		for (unsigned n = rnd(20)? 1 + rnd(70): rnd(2)? 0: 1 + rnd(20000); n--;) data.s += char(rnd(3)? rnd(256): 0);
		if (!set(m, dp, data)) return false;
	} else {
		M probe = m;
		P x = dp;
		const M *y = &m;
		for (const Step &s: dp) { // nothing may be there
			if (s.index? y->t != M::List || s.i >= y->l.size(): y->t != M::Map || !y->m.count(s.k)) { y = 0; break; }
			y = s.index? &y->l[s.i]: &y->m.find(s.k)->second;
		}
		if (y) return false;
	}
	// a length goes into containers or past their ends, not through a scalar
	{
		const M *y = &m;
		for (size_t i = 0; i < lp.size(); ++i) {
			if (lp[i].index? y->t != M::List: y->t != M::Map) return false;
			const M *z = lp[i].index? lp[i].i < y->l.size()? &y->l[lp[i].i]: 0: y->m.count(lp[i].k)? &y->m.find(lp[i].k)->second: 0;
			if (!z) break;
			y = z;
		}
	}
	bool ignore = rnd(6) == 0, over = rnd(8) == 0;
	long long n = has? data.s.size(): 0;
	if (ignore) {
		r.params.Set("ignore_payload", true);
		if (!has) { // the length that is there already
			M *y = &m;
			for (const Step &s: lp) { y = s.index? s.i < y->l.size()? &y->l[s.i]: 0: y->m.count(s.k)? &y->m[s.k]: 0; if (!y) break; }
			if (y) { if (y->t != M::Int || y->i < 0) return false; n = y->i; }
		}
	}
	if (over) r.params.Set("payload_length", n = rnd(100));
	M head = m;
	if (!set(head, lp, M::in(n))) return false;
	if (has) leave_out(head, dp);
	S out;
	unsigned most = rnd(3)? 1 + rnd(40): 1000000;
	begin("header " + text(head) + (has? " payload " + show(data.s): S()) + " data path " + path_text(dp) + " length path " + path_text(lp) + (ignore? " ignored": "") + (flat? " as bundle": " as JSON"));
	try {
		switch (rnd(3)) {
		case 0: out = SerializeWithPayload(lib(m), r.type, r.params); break;
		case 1: {
			std::vector<char> buf(100000);
			unsigned l = SerializeWithPayload(&buf[0], buf.size(), lib(m), r.type, r.params);
			out.assign(&buf[0], l);
			break;
		}
		default: SerializeWithPayload(shared_ptr<EmitterOutput>(new Taker(&out, most)), lib(m), r.type, r.params); break;
		}
	} catch (const std::exception &e) { fail("P17", "refused", cur() + ": " + e.what()); return false; }
	size_t z = out.find('\0');
	check(z != S::npos, "P17", "zero byte after the header", show(out));
	if (z == S::npos) return false;
	check((z + 1) % 32 == 0, "P17", "alignment of the payload", std::to_string(z + 1));
	check(out.substr(z + 1) == (has && !ignore? data.s: S()), "P17", "payload", show(out.substr(z + 1)));
	S h = out.substr(0, z);
	while (!h.empty() && h[h.size() - 1] == '\n') h.erase(h.size() - 1);
	if (z - h.size() > 33) fail("P17", "padding", cur() + ": " + show(out));
	M hm;
	try {
		hm = model(flat? Deserialize(h + "\n", r.type): Deserialize(h, r.type));
	} catch (const std::exception &e) { fail("P17", "header cannot be read", show(h) + ": " + e.what() + " | " + cur()); return false; }
	check(hm == as_read(head, flat), "P17", "header", text(hm) + " instead of " + text(head));
	if (rnd(4) == 0) { // an output that is full
		size_t limit = rnd(out.size());
		S part;
		bool thrown = false;
		begin("only " + std::to_string(limit) + " bytes taken of " + show(out));
		try { SerializeWithPayload(shared_ptr<EmitterOutput>(new Taker(&part, most, limit, rnd(2))), lib(m), r.type, r.params); } catch (const std::runtime_error &) { thrown = true; }
		check(thrown, "P17", "full output reported");
		check(part == out.substr(0, limit), "P17", "what a full output got", show(part));
	}
	if (over || ignore) return false; // not to be read back
	r.bytes = out;
	r.header = h.size();
	r.payload = z + 1;
	r.full = as_read(head, flat);
	if (has && !data.s.empty()) set(r.full, dp, data);
	return true;
}
static void payloads() {
	for (int i = 0; i < 9000 * g_scale; ++i) {
		std::vector<Rec> rs;
		S all;
		for (unsigned n = 1 + rnd(4); n--;) {
			Rec r;
			if (!make(r)) continue;
			rs.push_back(r);
			all += r.bytes;
		}
		if (rs.empty()) continue;
		S tail = rnd(3)? S(): S("tail\0of the input", 17);
		std::unique_ptr<char[]> h;
		S how;
		S whole = all + tail;
		shared_ptr<ParserInput> in = source(whole, h, how);
		for (size_t k = 0; k < rs.size(); ++k) {
			bool safe = how != "memory" || rnd(2);
			begin("record " + std::to_string(k) + " of " + show(whole, 3000) + " from " + how);
			try {
				Variant v = DeserializeWithPayload(in, rs[k].type, rs[k].params, safe);
				M got = model(v);
				check(got == rs[k].full, "P17", "reading back", text(got) + " instead of " + text(rs[k].full));
			} catch (const std::exception &e) { fail("P17", "not read back", cur() + ": " + e.what()); break; }
		}
		if (!g_fails) check(rest(in.get()) == tail, "P17", "rest of the input");
		// cut short
		const Rec &r = rs[rnd(rs.size())];
		if (r.payload < r.bytes.size()) {
			size_t n = r.header + (r.type == SERIALIZE_BUNDLEHDR) + rnd(r.bytes.size() - r.header - 1);
			if (n >= r.bytes.size()) continue;
			S part = r.bytes.substr(0, n);
			std::unique_ptr<char[]> h2;
			shared_ptr<ParserInput> in2 = source(part, h2, how);
			begin("cut short " + show(part) + " from " + how);
			bool thrown = false;
			try { DeserializeWithPayload(in2, r.type, r.params, rnd(2)); } catch (const std::exception &) { thrown = true; }
			check(thrown, "P17", "payload cut short");
		}
	}
	// any bytes: nothing outside of the input is touched
	for (int i = 0; i < 20000 * g_scale; ++i) {
		static const char *w[] = {"{", "}", "\"payload\":", "\"length\":", "{\"payload\":{\"length\":4}}", "{\"payload\":{\"length\":0}}", "1", "[", "]", "\n", " ", "payload.length: 3\n", "a: b\n", "payload.length: 3", "abcd", "{}"};
		S s;
		for (unsigned n = rnd(8); n--;) { s += w[rnd(16)]; if (rnd(3) == 0) s += '\0'; if (rnd(200) == 0) s += S(rnd(9000), ' '); }
		std::unique_ptr<char[]> h;
		S how;
		shared_ptr<ParserInput> in = source(s, h, how);
		begin("payload input " + show(s) + " from " + how);
		try { for (int k = 0; k < 3; ++k) { Variant v = DeserializeWithPayload(in, rnd(2)? SERIALIZE_JSON: SERIALIZE_BUNDLEHDR); model(v); } } catch (const std::exception &) {}
	}
}

int main(int argc, char **argv) {
	init(argc, argv);
	S part;
	for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--part")) part = argv[i + 1];
	if (part != "payload") { reads(); writes(); orders(); }
	if (part != "hdr") payloads();
	return finish();
}
