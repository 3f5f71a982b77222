// A model of nested lists and maps.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include <map>
using namespace libvariant;
using namespace vh;
typedef std::string S;

struct M {
	enum T { Null, Bool, Int, Str, List, Map, Blb } t = Null;
	long long i = 0;
	S s;
	std::vector<M> l;
	std::map<S, M> m;
	M() {}
	M(T t) : t(t) {}
	static M in(long long i) { M r(Int); r.i = i; return r; }
	static M st(const S &s) { M r(Str); r.s = s; return r; }
};
static bool operator==(const M &a, const M &b) {
	if (a.t != b.t) return false;
	switch (a.t) {
	case M::Null: return true;
	case M::Bool: case M::Int: return a.i == b.i;
	case M::Str: case M::Blb: return a.s == b.s;
	case M::List: return a.l == b.l;
	default: return a.m == b.m;
	}
}
static bool operator!=(const M &a, const M &b) { return !(a == b); }
// a blob in random pieces
static BlobPtr blob(const S &s) {
	std::vector<struct iovec> v;
	for (size_t i = 0; i < s.size();) {
		if (rnd(4) == 0) { v.push_back(iovec{malloc(1), 0}); continue; }
		size_t n = rnd(3)? 1 + rnd(s.size() - i): s.size() - i;
		v.push_back(iovec{malloc(n), n});
		memcpy(v.back().iov_base, s.data() + i, n);
		i += n;
	}
	if (v.empty()) v.push_back(iovec{malloc(1), 0});
	return Blob::CreateFree(v.data(), v.size());
}
static Variant lib(const M &a) {
	switch (a.t) {
	case M::Null: return Variant();
	case M::Bool: return Variant(bool(a.i));
	case M::Int: return Variant(a.i);
	case M::Str: return Variant(a.s);
	case M::Blb: return Variant(blob(a.s));
	case M::List: { Variant v(Variant::ListType); for (const M &x: a.l) v.Append(lib(x)); return v; }
	default: { Variant v(Variant::MapType); for (auto &x: a.m) v.Set(x.first, lib(x.second)); return v; }
	}
}
static M model(const Variant &v) {
	if (v.IsNull()) return M();
	if (v.IsBool()) { M r(M::Bool); r.i = v.AsBool(); return r; }
	if (v.IsList()) { M r(M::List); for (unsigned i = 0; i < v.Size(); ++i) r.l.push_back(model(v.At(i))); return r; }
	if (v.IsMap()) { M r(M::Map); for (Variant::ConstMapIterator i(v.MapBegin()); i != v.MapEnd(); ++i) r.m[i->first] = model(i->second); return r; }
	if (v.IsBlob()) { M r(M::Blb); ConstBlobPtr b = v.AsBlob(); for (unsigned i = 0; i < b->GetNumBuffers(); ++i) r.s.append((const char*)b->GetPtr(i), b->GetLength(i)); return r; }
	if (v.IsString()) return M::st(v.AsString());
	return M::in(v.AsInt());
}
static S text(const M &a) {
	switch (a.t) {
	case M::Null: return "null";
	case M::Bool: return a.i? "true": "false";
	case M::Int: return num(a.i);
	case M::Str: return show(a.s);
	case M::Blb: return "blob " + show(a.s);
	case M::List: { S r = "["; for (const M &x: a.l) r += (r.size() > 1? ",": "") + text(x); return r + "]"; }
	default: { S r = "{"; for (auto &x: a.m) r += (r.size() > 1? ",": "") + show(x.first) + ":" + text(x.second); return r + "}"; }
	}
}
#endif
