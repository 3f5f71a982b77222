// Bounded stand-in and counterexample search for Base64 (P07) and blobs (P08).
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include "Base64.h"
#include <stdlib.h>
#include <memory>
using namespace libvariant;
using namespace vh;
typedef std::string S;

static S bytes(unsigned n) {
	S s;
	int mode = rnd(4);
	for (unsigned i = 0; i < n; ++i) s += char(mode == 0? rnd(2) * 255: rnd(256));
	return s;
}

// a byte string cut into exact heap blocks (ASan guards each end)
struct Cut {
	std::vector<struct iovec> v;
	explicit Cut(const S &s, unsigned style) {
		size_t i = 0;
		if (style == 0) { add(s); return; }
		while (i < s.size()) {
			if (style == 2 && rnd(3) == 0) add("");
			size_t n = style == 1? 1 + rnd(3): 1 + rnd(unsigned(s.size() - i));
			if (n > s.size() - i) n = s.size() - i;
			add(s.substr(i, n));
			i += n;
		}
		if (style == 2 && rnd(2)) add("");
	}
	void add(const S &s) {
		char *p = (char*)malloc(s.size());
		memcpy(p, s.data(), s.size());
		struct iovec x = { p, s.size() };
		v.push_back(x);
	}
	void release() { for (size_t i = 0; i < v.size(); ++i) free(v[i].iov_base); v.clear(); }
	struct iovec *ptr() { return v.data(); }
	unsigned size() { return v.size(); }
	S show() { S o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i? ",": "") + num(v[i].iov_len); return o + "]"; }
};

static S encode_ref(const S &d, unsigned cpl) {
	static const char *al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	S o;
	for (size_t i = 0; i < d.size(); i += 3) {
		unsigned n = d.size() - i < 3? d.size() - i: 3, x = 0;
		for (unsigned k = 0; k < 3; ++k) x = x << 8 | (k < n? (unsigned char)d[i + k]: 0);
		for (unsigned k = 0; k < 4; ++k) o += k <= n? al[x >> (18 - 6 * k) & 63]: '=';
	}
	(void)cpl;
	return o;
}
static int val(unsigned char c) {
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	return c == '+'? 62: c == '/'? 63: -1;
}
static S decode_ref(const S &t) {
	S o;
	unsigned acc = 0, n = 0;
	for (size_t i = 0; i < t.size(); ++i) {
		int v = val(t[i]);
		if (v < 0) continue;
		acc = acc << 6 | v;
		if (++n % 4 != 1) o += char(acc >> (n % 4 == 2? 4: n % 4 == 3? 2: 0));
	}
	return o;
}
static S decode(const S &t, bool &ok) {
	unsigned cap = Base64DecodeSize(t.size());
	char *o = new char[cap], *in = new char[t.size()];
	memcpy(in, t.data(), t.size());
	unsigned n = Base64Decode(o, in, t.size());
	ok = n <= cap;
	S r(o, ok? n: 0);
	delete[] o;
	delete[] in;
	return r;
}

static void codec(const S &d, unsigned cpl, unsigned style) {
	Cut c(d, style);
	begin("encode " + num(d.size()) + " bytes cut as " + c.show() + ", line length " + num(cpl) + ": " + show(d, 60));
	unsigned cap = Base64EncodeSize(d.size(), cpl);
	char *o = new char[cap];
	unsigned n = Base64Encode(o, c.ptr(), c.size(), cpl);
	check(n < cap, "P07", "more output than Base64EncodeSize allows");
	check(o[n] == 0, "P07", "output not terminated");
	S t(o, n), flat;
	delete[] o;
	unsigned line = 0;
	for (size_t i = 0; i < t.size(); ++i) {
		if (t[i] == '\n') line = 0;
		else { flat += t[i]; ++line; if (cpl >= 4) check(line <= cpl, "P07", "line longer than requested", show(t, 200)); }
	}
	if (cpl == 0) check(flat == t, "P07", "line break without line length");
	check(flat == encode_ref(d, cpl), "P07", "wrong Base64 text", show(t, 200) + " instead of " + show(encode_ref(d, cpl), 200) + " for " + show(d, 100));
	if (style == 0) {
		char *o2 = new char[cap];
		unsigned n2 = Base64Encode(o2, c.v[0].iov_base, d.size(), cpl);
		check(S(o2, n2) == t, "P07", "flat and scattered encoding differ");
		delete[] o2;
	}
	bool ok;
	begin("decode what was encoded from " + show(d, 100) + " line length " + num(cpl));
	S back = decode(t, ok);
	check(ok, "P07", "decoding overflows Base64DecodeSize");
	check(back == d, "P07", "round trip differs", show(back, 100) + " instead of " + show(d, 100));
	c.release();
}

static void decode_any(const S &t) {
	begin("decode " + show(t, 200));
	bool ok;
	S r = decode(t, ok);
	check(ok, "P07", "decoding overflows Base64DecodeSize");
	check(r == decode_ref(t), "P07", "wrong decoded bytes", show(r, 100) + " instead of " + show(decode_ref(t), 100) + " for " + show(t, 200));
}

static S content(const ConstBlobPtr &b) {
	S s;
	for (unsigned i = 0; i < b->GetNumBuffers(); ++i) s.append((const char*)b->GetPtr(i), b->GetLength(i));
	return s;
}
static int sgn(int x) { return x > 0? 1: x < 0? -1: 0; }
static std::vector<void*> g_freed;
static void count_free(void *p, void *ctx) { g_freed.push_back(p); ++*(int*)ctx; free(p); }

static void blobs() {
	unsigned n = rnd(3)? rnd(10): rnd(200);
	S a = bytes(n), b;
	switch (rnd(5)) {
	case 0: b = a; break;
	case 1: b = a.substr(0, rnd(n + 1)); break;
	case 2: b = a + bytes(rnd(4)); break;
	case 3: b = a; if (n) b[rnd(n)] = char(rnd(256)); break;
	default: b = bytes(rnd(12)); break;
	}
	Cut ca(a, rnd(3)), cb(b, rnd(3));
	S what = show(a, 60) + " cut as " + ca.show() + " and " + show(b, 60) + " cut as " + cb.show();
	begin("blobs " + what);
	int freed = 0;
	g_freed.clear();
	unsigned na = ca.size();
	{
		BlobPtr x = Blob::Create(ca.ptr(), ca.size(), count_free, &freed);
		BlobPtr y = Blob::CreateReferenced(cb.ptr(), cb.size());
		check(x->GetTotalLength() == a.size() && y->GetTotalLength() == b.size(), "P08", "total length");
		check(content(x) == a && content(y) == b, "P08", "contents");
		int c = x->Compare(y), d = y->Compare(x), want = sgn(a.compare(b));
		check(sgn(c) == want, "P08", "comparison", num(c) + " instead of " + num(want) + " | " + cur());
		check(sgn(d) == -want, "P08", "comparison", num(d) + " instead of " + num(-want) + " swapped | " + cur());
		check(x->Compare(x) == 0, "P08", "a blob differs from itself");
		BlobPtr z = x->Copy();
		check(content(z) == a, "P08", "copy has other contents");
		check(z->Compare(x) == 0 && x->Compare(z) == 0, "P08", "copy compares different");
		for (unsigned i = 0; i < z->GetNumBuffers(); ++i)
			for (unsigned j = 0; j < x->GetNumBuffers(); ++j) check(z->GetLength(i) == 0 || z->GetPtr(i) != x->GetPtr(j), "P08", "copy shares a buffer");
		if (z->GetNumBuffers() && z->GetLength(0)) {
			((char*)z->GetPtr(0))[0] ^= 1;
			check(content(x) == a, "P08", "changing the copy changes the original");
			((char*)z->GetPtr(0))[0] ^= 1;
		}
		BlobPtr w = Blob::CreateCopy(ca.ptr(), ca.size());
		check(content(w) == a, "P08", "CreateCopy has other contents");
		// through values
		Variant vx(x), vy(y), vz(vx.Copy());
		check((vx == vy) == (want == 0), "P08", "equality of values", what);
		check((vx < vy) == (want < 0), "P08", "order of values", what);
		check(vx.Size() == a.size(), "P08", "size of the value", what);
		check(content(vz.AsBlob()) == a && vz == vx, "P08", "copy of the value", what);
		check(vz.AsBlob() != vx.AsBlob(), "P08", "copy of the value shares the blob", what);
		// JSON carries blobs
		Variant l(VariantDefines::ListType);
		l.Append(vx);
		begin("blob through JSON: " + what);
		S js = SerializeJSON(l);
		Variant r = DeserializeJSON(js);
		check(r.IsList() && r.Size() == 1 && r.At(0u).IsBlob() && content(r.At(0u).AsBlob()) == a, "P07", "blob changed on its way through JSON", show(js, 200));
		check(freed == 0, "P08", "buffer freed while in use");
		x.reset();
		check(freed == 0, "P08", "buffer freed while a value holds the blob");
	}
	check(freed == (int)na, "P08", "free function called " + num(freed) + " times for " + num(na) + " buffers");
	std::set<void*> s(g_freed.begin(), g_freed.end());
	check(s.size() == na, "P08", "a buffer was not freed exactly once");
	// still valid: the referenced blob does not free
	for (unsigned i = 0; i < cb.size(); ++i) if (cb.v[i].iov_len) ((volatile char*)cb.v[i].iov_base)[0];
	cb.release();
	if (rnd(4) == 0) {
		char *p = (char*)malloc(a.size() + 1);
		memcpy(p, a.data(), a.size());
		BlobPtr f = Blob::CreateFree(p, a.size());
		BlobPtr g = Blob::CreateCopy(p, a.size());
		check(content(f) == a && content(g) == a && f->Compare(g) == 0, "P08", "flat blobs");
	}
}

int main(int argc, char **argv) {
	init(argc, argv);
	// all lengths against all line lengths of interest
	for (unsigned n = 0; n < 70; ++n)
		for (unsigned cpl = 0; cpl < 81; cpl += cpl < 13 || cpl > 70? 1: 7)
			for (unsigned style = 0; style < 3; ++style) codec(bytes(n), cpl, style);
	// all one and two byte contents
	for (unsigned x = 0; x < 65536; x += g_scale > 1? 1: 7) { S d; d += char(x); d += char(x >> 8); codec(d, 0, 0); }
	for (unsigned x = 0; x < 256; ++x) codec(S(1, char(x)), 0, 0);
	// every byte in every phase
	for (unsigned x = 0; x < 256; ++x)
		for (unsigned ph = 0; ph <= 8; ++ph) {
			S t = S("QUJDREVG").substr(0, ph);
			decode_any(t + char(x));
			decode_any(t + char(x) + "Zm9v");
			decode_any(t + char(x) + char(255 - x) + "+/8=");
		}
	for (int i = 0; i < 20000 * g_scale; ++i) {
		S t;
		for (unsigned n = rnd(rnd(8)? 12: 300); n; --n) t += rnd(3)? "ABCxyz0189+/="[rnd(13)]: char(rnd(256));
		decode_any(t);
	}
	for (int i = 0; i < 6000 * g_scale; ++i) codec(bytes(rnd(4)? rnd(100): rnd(3000)), rnd(2)? 0: rnd(100), rnd(3));
	for (int i = 0; i < 20000 * g_scale; ++i) blobs();
	// no buffers at all
	begin("blob without buffers");
	BlobPtr e = Blob::CreateReferenced((struct iovec*)0, 0u);
	check(e->GetTotalLength() == 0 && e->Compare(Blob::CreateCopy("", 0)) == 0 && e->Copy()->GetTotalLength() == 0, "P08", "blob without buffers");
	Variant v(e), l(VariantDefines::ListType);
	l.Append(v);
	check(DeserializeJSON(SerializeJSON(l)).At(0u).IsBlob(), "P07", "blob without buffers through JSON");
	return finish();
}
