// Bounded stand-in and counterexample search for the Variant type:
//   --part num    numbers (P09)
//   --part types  conversions and type rules, direct and through references and proxies (P10, P11)
//   --part hist   histories of assignments, copies, container operations and references against a model (P11, P12)
#include "h.h"
#include <Variant/Variant.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <limits>
#include <climits>
#include <math.h>
#include <memory>
#include <sstream>
using namespace libvariant;
using namespace vh;
typedef std::string S;

static const char *tname[] = {"null", "bool", "int", "uint", "float", "string", "list", "map", "blob"};

// ------------------------------------------------------------------ description of a value by its public interface
static S fl(long double f) { char b[64]; if (f != f) return "nan"; snprintf(b, sizeof b, "%.25Lg", f); return b; }
static S dump(const Variant &v, int d = 0) {
	if (d > 40) return "...";
	switch (v.GetType()) {
	case Variant::NullType: return "null";
	case Variant::BoolType: return v.AsBool()? "true": "false";
	case Variant::IntegerType: return "i" + std::to_string(v.AsInt());
	case Variant::UnsignedType: return "u" + std::to_string(v.AsUnsigned());
	case Variant::FloatType: return "f" + fl(v.AsLongDouble());
	case Variant::StringType: return show(v.AsString());
	case Variant::ListType: {
		S o = "[";
		const Variant::List &l = v.AsList();
		for (size_t i = 0; i < l.size(); ++i) o += (i? ",": "") + dump(l[i], d + 1);
		return o + "]";
	}
	case Variant::MapType: {
		S o = "{";
		const Variant::Map &m = v.AsMap();
		for (Variant::Map::const_iterator i = m.begin(); i != m.end(); ++i)
			o += (i == m.begin()? "": ",") + show(i->first) + ":" + dump(i->second, d + 1);
		return o + "}";
	}
	case Variant::BlobType: {
		ConstBlobPtr b = v.AsBlob();
		if (!b) return "b-";
		S o = "b";
		for (unsigned i = 0; i < b->GetNumBuffers(); ++i) o += S((const char*)b->GetPtr(i), b->GetLength(i));
		return show(o);
	}
	}
	return "?";
}
static BlobPtr blob(const S &s) { return Blob::CreateCopy(s.data(), s.size()); }

template<class F> static S attempt(F f) {
	try { return f(); }
	catch (const KeyError &e) { return S("!KeyError"); }
	catch (const UnknownTypeError &e) { return "!UnknownTypeError"; }
	catch (const UnexpectedTypeError &e) { return "!UnexpectedTypeError"; }
	catch (const UnableToConvertError &e) { return "!UnableToConvertError"; }
	catch (const TypeNotIndexableError &e) { return "!TypeNotIndexableError"; }
	catch (const NotNumericTypeError &e) { return "!NotNumericTypeError"; }
	catch (const BadPathError &e) { return "!BadPathError"; }
	catch (const InvalidReferenceError &e) { return "!InvalidReferenceError"; }
	catch (const InvalidOperationError &e) { return "!InvalidOperationError"; }
	catch (const std::out_of_range &e) { return "!out_of_range"; }
	catch (const std::exception &e) { return S("!exception ") + e.what(); }
}
static bool wrong(const S &s) {		// any of the exceptions for a wrong type
	return s == "!UnknownTypeError" || s == "!UnexpectedTypeError" || s == "!UnableToConvertError" || s == "!TypeNotIndexableError" ||
		s == "!NotNumericTypeError" || s == "!InvalidOperationError";
}

// ------------------------------------------------------------------ numbers
struct N { int k; int64_t i; uint64_t u; long double f; };	// k: 2 integer 3 unsigned 4 float
static Variant make(const N &n) { return n.k == 2? Variant((long)n.i): n.k == 3? Variant((unsigned long)n.u): Variant(n.f); }
static S shown(const N &n) { return n.k == 2? "i" + std::to_string(n.i): n.k == 3? "u" + std::to_string(n.u): "f" + fl(n.f); }
static int sgn(__int128 d) { return d < 0? -1: d > 0? 1: 0; }
static int cmp(const N &a, const N &b) {	// exact
	if (a.k != 4 && b.k != 4) {
		__int128 x = a.k == 2? (__int128)a.i: (__int128)a.u, y = b.k == 2? (__int128)b.i: (__int128)b.u;
		return sgn(x - y);
	}
	if (a.k == 4 && b.k == 4) return a.f < b.f? -1: a.f > b.f? 1: 0;
	if (b.k == 4) return -cmp(b, a);
	__int128 y = b.k == 2? (__int128)b.i: (__int128)b.u;
	if (a.f > 1e25L) return 1;
	if (a.f < -1e25L) return -1;
	long double t = truncl(a.f);
	__int128 x = (__int128)t;
	if (x != y) return x < y? -1: 1;
	return a.f > t? 1: a.f < t? -1: 0;
}
static std::vector<N> numbers() {
	std::vector<N> v;
	std::set<int64_t> is;
	std::set<uint64_t> us;
	for (int k = 0; k < 64; ++k) {
		if (k > 4 && k < 29 && k % 8) continue;
		for (int d = -2; d <= 2; ++d) {
			us.insert((uint64_t(1) << k) + d);
			if (k < 63) { is.insert((int64_t(1) << k) + d); is.insert(-(int64_t(1) << k) + d); }
		}
	}
	int64_t mn = std::numeric_limits<int64_t>::min(), mx = std::numeric_limits<int64_t>::max();
	for (int d = 0; d < 3; ++d) { is.insert(mn + d); is.insert(mx - d); us.insert(~uint64_t(0) - d); }
	for (int k = 0; k < 20; ++k) { is.insert(int64_t(rnd() << 20 ^ rnd())); us.insert(rnd() << 20 ^ rnd()); }
	for (int64_t i: is) v.push_back(N{2, i, 0, 0});
	for (uint64_t u: us) v.push_back(N{3, 0, u, 0});
	std::vector<long double> fs = {0, 0.5L, 0.1L, 1, 1.5L, 2, 3, 7, 1e10L, 1e18L, 1e19L, 9007199254740993.0L, 9223372036854775807.0L, 9223372036854775808.0L,
		18446744073709551615.0L, 18446744073709551616.0L, 9223372036854775806.5L, 1e300L, 1e-300L, 1e4000L, 1e-4000L,
		(long double)INFINITY, 0.3333333333333333333L, 123456789.123456789L, 4294967296.0L, 4294967295.75L};
	for (size_t i = 0; i < fs.size(); ++i) { v.push_back(N{4, 0, 0, fs[i]}); v.push_back(N{4, 0, 0, -fs[i]}); }
	return v;
}
static bool same(long double a, long double b) { return a == b? signbit(a) == signbit(b): a != a && b != b; }

static const char ops[] = "+-*/%";
// expected result of a op b; false: outside what is promised (integer overflow, division by zero)
static bool calc(const N &a, const N &b, char op, N &r) {
	if (a.k == 4 || b.k == 4) {
		long double x = a.k == 2? (long double)a.i: a.k == 3? (long double)a.u: a.f, y = b.k == 2? (long double)b.i: b.k == 3? (long double)b.u: b.f;
		r.k = 4;
		r.f = op == '+'? x + y: op == '-'? x - y: op == '*'? x * y: op == '/'? x / y: fmodl(x, y);
		if (op == '/' && y == 0) return false;
		return true;
	}
	if (a.k == 3 || b.k == 3) {
		uint64_t x = a.k == 2? uint64_t(a.i): a.u, y = b.k == 2? uint64_t(b.i): b.u;
		r.k = 3;
		if ((op == '/' || op == '%') && !y) return false;
		r.u = op == '+'? x + y: op == '-'? x - y: op == '*'? x * y: op == '/'? x / y: x % y;
		return true;
	}
	r.k = 2;
	if (op == '+') return !__builtin_add_overflow(a.i, b.i, &r.i);
	if (op == '-') return !__builtin_sub_overflow(a.i, b.i, &r.i);
	if (op == '*') return !__builtin_mul_overflow(a.i, b.i, &r.i);
	if (!b.i || (b.i == -1 && a.i == std::numeric_limits<int64_t>::min())) return false;
	r.i = op == '/'? a.i / b.i: a.i % b.i;
	return true;
}
static void apply(Variant &v, char op, const Variant &o) {
	if (op == '+') v += o; else if (op == '-') v -= o; else if (op == '*') v *= o; else if (op == '/') v /= o; else v %= o;
}
static Variant infix(const Variant &v, char op, const Variant &o) {
	return op == '+'? v + o: op == '-'? v - o: op == '*'? v * o: op == '/'? v / o: v % o;
}
static bool equal(const Variant &v, const N &n) {
	if (int(v.GetType()) != n.k) return false;
	return n.k == 2? v.AsInt() == n.i: n.k == 3? v.AsUnsigned() == n.u: same(v.AsLongDouble(), n.f);
}

template<class T> static void from_cpp(const char *tn, int k) {
	T vals[] = {T(0), T(1), T(-1), T(5), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(77)};
	for (T x: vals) {
		begin(S("Variant(") + tn + " " + std::to_string(x) + ")");
		Variant v(x), w;
		w = x;
		N n = {k, int64_t(k == 2? x: 0), uint64_t(k == 3? x: 0), (long double)(k == 4? x: 0)};
		check(equal(v, n), "P09", "construct", dump(v));
		check(equal(w, n), "P09", "assign", dump(w));
		check(v.As<T>() == x, "P09", "read back", dump(v));
		T into = 3;
		Variant m;
		m["k"] = x;
		m.GetInto(into, "k");
		check(into == x, "P09", "GetInto");
		into = 3;
		m.GetInto(into, "missing", x);
		check(into == x, "P09", "GetInto default");
		check(v == w && !(v != w) && v <= w && v >= w && !(v < w) && !(v > w), "P09", "equal to itself");
	}
}
template<class T> static void narrow(const char *tn) {
	for (int k = 0; k < 40; ++k) {
		T x = T(rnd());
		begin(S("As<") + tn + ">(" + std::to_string(x) + ")");
		check(Variant((long)x).As<T>() == x, "P09", "As<T> of an integer");
		if (std::numeric_limits<T>::lowest() == 0) check(Variant((unsigned long)x).As<T>() == x, "P09", "As<T> of an unsigned");
	}
}

static void part_num() {
	from_cpp<int>("int", 2); from_cpp<long>("long", 2); from_cpp<long long>("long long", 2);
	from_cpp<unsigned>("unsigned", 3); from_cpp<unsigned long>("unsigned long", 3); from_cpp<unsigned long long>("unsigned long long", 3);
	from_cpp<double>("double", 4); from_cpp<long double>("long double", 4);
	narrow<char>("char"); narrow<signed char>("signed char"); narrow<unsigned char>("unsigned char"); narrow<short>("short"); narrow<unsigned short>("unsigned short");
	narrow<int>("int"); narrow<unsigned>("unsigned");
	std::vector<N> ns = numbers();
	for (const N &n: ns) {
		begin("number " + shown(n));
		Variant v = make(n);
		check(equal(v, n), "P09", "value", dump(v));
		check(v.IsNumber() && v.IsInt() == (n.k == 2) && v.IsUnsigned() == (n.k == 3) && v.IsFloat() == (n.k == 4), "P09", "type");
		long double x = n.k == 2? (long double)n.i: n.k == 3? (long double)n.u: n.f;
		check(same(v.AsLongDouble(), x), "P09", "as long double", fl(v.AsLongDouble()));
		check(v.AsDouble() == (double)x, "P09", "as double");
		check(v.AsBool() == (x != 0), "P09", "as bool");
		if (n.k == 4) {
			long double t = truncl(n.f);
			if (t >= -9223372036854775808.0L && t <= 9223372036854775807.0L) check((long double)v.AsInt() == t, "P09", "as int", std::to_string(v.AsInt()));
			if (t >= 0 && t <= 18446744073709551615.0L) check((long double)v.AsUnsigned() == t, "P09", "as unsigned", std::to_string(v.AsUnsigned()));
		} else {
			check(v.AsInt() == (n.k == 2? n.i: int64_t(n.u)), "P09", "as int", std::to_string(v.AsInt()));
			check(v.AsUnsigned() == (n.k == 2? uint64_t(n.i): n.u), "P09", "as unsigned", std::to_string(v.AsUnsigned()));
			S t = n.k == 2? std::to_string(n.i): std::to_string(n.u);
			check(v.AsString() == t, "P09", "as string", v.AsString());
			Variant s(t);
			if (n.k == 2) check(s.AsInt() == n.i, "P09", "string to int", std::to_string(s.AsInt()));
			else check(s.AsUnsigned() == n.u, "P09", "string to unsigned", std::to_string(s.AsUnsigned()));
			check(s.AsLongDouble() == x, "P09", "string to float", fl(s.AsLongDouble()));
		}
		if (n.k == 4 && isfinite(n.f) && fabsl(n.f) < 1e4000L && (n.f == 0 || fabsl(n.f) > 1e-3900L)) {
			char b[64];
			snprintf(b, sizeof b, "%.21Lg", n.f);
			check(Variant(b).AsLongDouble() == n.f, "P09", "string to float", b);
			char g[64];
			snprintf(g, sizeof g, "%Lg", n.f);
			check(v.AsString() == g, "P09", "float as string", v.AsString());
		}
		// one step and sign
		N r = n;
		bool ok = n.k != 2 || n.i != std::numeric_limits<int64_t>::max();
		if (n.k == 2) r.i = int64_t(uint64_t(n.i) + 1); else if (n.k == 3) r.u = n.u + 1; else r.f = n.f + 1;
		if (ok) {
			Variant a = make(n), b = make(n);
			Variant old = a++;
			++b;
			check(equal(old, n), "P09", "post-increment value", dump(old));
			check(equal(a, r) && equal(b, r), "P09", "increment", dump(a));
		}
		r = n;
		ok = n.k != 2 || n.i != std::numeric_limits<int64_t>::min();
		if (n.k == 2) r.i = int64_t(uint64_t(n.i) - 1); else if (n.k == 3) r.u = n.u - 1; else r.f = n.f - 1;
		if (ok) {
			Variant a = make(n), b = make(n);
			Variant old = a--;
			--b;
			check(equal(old, n), "P09", "post-decrement value", dump(old));
			check(equal(a, r) && equal(b, r), "P09", "decrement", dump(a));
			r = n;
			if (n.k == 2) r.i = -n.i; else if (n.k == 3) r.u = -n.u; else r.f = -n.f;
			Variant c = make(n);
			check(equal(-c, r) && equal(+c, n) && equal(c, n), "P09", "negation", dump(-c));
		}
		// with values that are not numbers
		Variant others[] = {Variant(), Variant(true), Variant("5"), Variant(Variant::ListType), Variant(Variant::MapType), Variant(blob("x"))};
		for (const Variant &o: others) {
			S d = dump(o);
			begin("number " + shown(n) + " with " + d);
			Variant a = make(n);
			check(a.Compare(o) != 0 && a != o && !(a == o) && o != a && !a.Comparable(o) && !o.Comparable(a), "P09", "not comparable");
			for (const char *op = ops; *op; ++op) {
				S e = attempt([&]{ apply(a, *op, o); return S("ok"); });
				check(wrong(e), "P09", "number with a non-number", S(1, *op) + " " + e);
				Variant b = o;
				e = attempt([&]{ apply(b, *op, a); return S("ok"); });
				check(wrong(e), "P09", "non-number with a number", S(1, *op) + " " + e);
				check(dump(b) == d, "P09", "unchanged after a refused operation", dump(b));
			}
			check(equal(a, n), "P09", "unchanged after a refused operation", dump(a));
		}
	}
	for (size_t i = 0; i < ns.size(); ++i) for (size_t j = 0; j < ns.size(); ++j) {
		if (g_scale == 1 && (i * 31 + j * 17) % 3 && ns[i].k != 4 && ns[j].k != 4 && ns[i].k == ns[j].k) continue;
		const N &a = ns[i], &b = ns[j];
		begin(shown(a) + " with " + shown(b));
		Variant x = make(a), y = make(b);
		int c = cmp(a, b), g = x.Compare(y);
		check(sgn(g) == c, "P09", "compare", num(g));
		check((x == y) == (c == 0) && (x != y) == (c != 0) && (x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0), "P09", "comparison operators");
		check(x.Comparable(y), "P09", "comparable");
		for (const char *op = ops; *op; ++op) {
			N r = {};
			if (!calc(a, b, *op, r)) continue;
			Variant z = make(a);
			apply(z, *op, y);
			check(equal(z, r), "P09", S("operator ") + *op, dump(z) + " expected " + shown(r));
			check(equal(y, b), "P09", "right operand unchanged");
			if ((i + j) % 7 == 0) {
				Variant w = infix(x, *op, y);
				check(equal(w, r) && equal(x, a) && equal(y, b), "P09", S("infix ") + *op, dump(w));
				Variant list;
				list[3] = x;
				Variant rr = list[3];
				VariantRef ref = list[3];
				apply(ref, *op, y);
				check(equal(list.Get(3u), r) && equal(rr, a), "P09", S("through a reference ") + *op, dump(list));
				Variant m;
				m["a"] = x;
				m["b"] = y;
				apply((Variant&)m.Resolve().AsMap()["a"], *op, m["b"]);
				check(equal(m.Get("a"), r) && equal(m.Get("b"), b), "P09", S("with a reference ") + *op, dump(m));
			}
		}
		if (a.k == b.k && i == j) for (const char *op = ops; *op; ++op) {
			N r = {};
			if (!calc(a, a, *op, r)) continue;
			Variant z = make(a);
			apply(z, *op, z);
			check(equal(z, r), "P09", S("with itself ") + *op, dump(z));
		}
	}
	// text that is not a number is refused, text that is one is read
	const char *bad[] = {"", "x", "-", "+", ".", "e5", "abc1", "  ", "nullx", "true"};
	for (const char *t: bad) {
		begin(S("string ") + show(t) + " as a number");
		Variant v(t);
		check(attempt([&]{ return std::to_string(v.AsInt()); })[0] == '!', "P09", "non-number text as int");
		check(attempt([&]{ return std::to_string(v.AsUnsigned()); })[0] == '!', "P09", "non-number text as unsigned");
		check(attempt([&]{ return fl(v.AsLongDouble()); })[0] == '!', "P09", "non-number text as float");
	}
	const char *big[] = {"9223372036854775808", "-9223372036854775809", "99999999999999999999"};
	for (const char *t: big) {
		begin(S("string ") + show(t) + " as int");
		check(attempt([&]{ return std::to_string(Variant(t).AsInt()); })[0] == '!', "P09", "text out of range as int");
	}
	begin("18446744073709551616 as unsigned");
	check(attempt([&]{ return std::to_string(Variant("18446744073709551616").AsUnsigned()); })[0] == '!', "P09", "text out of range as unsigned");
}

// ------------------------------------------------------------------ types
struct Op { const char *name; std::function<S(Variant&, const Variant&)> f; bool arg; };
// does the text of an operation mention its argument x?
static bool mentions(const S &t) { for (size_t i = 1; i + 1 < t.size(); ++i) if (t[i] == 'x' && !isalnum(t[i-1]) && !isalnum(t[i+1])) return true; return false; }
static S yes(bool b) { return b? "yes": "no"; }
static const Variant &C(Variant &v) { return v; }
static std::vector<Op> operations() {
	typedef const Variant &CV;
	std::vector<Op> o;
#define OP(name, ...) o.push_back(Op{name, [](Variant &v, CV x) -> S { (void)x; __VA_ARGS__; }, mentions(#__VA_ARGS__)});
	OP("type", return num(v.GetType()))
	OP("is", return yes(v.IsNull()) + yes(v.IsBool()) + yes(v.IsTrue()) + yes(v.IsFalse()) + yes(v.IsNumber()) + yes(v.IsInt()) + yes(v.IsUnsigned()) + yes(v.IsFloat()) + yes(v.IsString()) + yes(v.IsList()) + yes(v.IsMap()) + yes(v.IsBlob()))
	OP("bool", return yes(v.AsBool()))
	OP("float", return fl(v.AsLongDouble()))
	OP("double", return fl(v.AsDouble()))
	OP("unsigned", return std::to_string(v.AsUnsigned()))
	OP("int", return std::to_string(v.AsInt()))
	OP("string", return show(v.AsString()))
	OP("blob", return v.AsBlob()? "b": "-")
	OP("blobc", return C(v).AsBlob()? "b": "-")
	OP("size", return num(v.Size()))
	OP("empty", return yes(v.Empty()))
	OP("clear", v.Clear(); return "ok")
	OP("list", return num(v.AsList().size()))
	OP("listc", return num(C(v).AsList().size()))
	OP("map", return num(v.AsMap().size()))
	OP("mapc", return num(C(v).AsMap().size()))
	OP("hasi0", return yes(v.Contains(0u)))
	OP("hasi9", return yes(v.Contains(9u)))
	OP("hask", return yes(v.Contains("k")))
	OP("hasz", return yes(v.Contains("zz")))
	OP("index", return num(v.Index(x)))
	OP("erasei0", v.Erase(0u); return "ok")
	OP("erasei1", v.Erase(1u); return "ok")
	OP("erasei9", v.Erase(9u); return "ok")
	OP("erasek", v.Erase("k"); return "ok")
	OP("erasez", v.Erase("zz"); return "ok")
	OP("geti0", return dump(v.Get(0u)))
	OP("geti9", return dump(v.Get(9u)))
	OP("geti9d", return dump(v.Get(9u, x)))
	OP("geti0d", return dump(v.Get(0u, x)))
	OP("getk", return dump(v.Get("k")))
	OP("getz", return dump(v.Get("zz")))
	OP("getzd", return dump(v.Get("zz", x)))
	OP("getkd", return dump(v.Get("k", x)))
	OP("atci0", return dump(C(v).At(0u)))
	OP("atci9", return dump(C(v).At(9u)))
	OP("atck", return dump(C(v).At("k")))
	OP("atcz", return dump(C(v).At("zz")))
	OP("ati0", return dump(v.At(0u)))
	OP("ati9", return dump(v.At(9u)))
	OP("ati9d", return dump(v.At(9u, x)))
	OP("ati0d", return dump(v.At(0u, x)))
	OP("atk", return dump(v.At("k")))
	OP("atz", return dump(v.At("zz")))
	OP("atzd", return dump(v.At("zz", x)))
	OP("atkd", return dump(v.At("k", x)))
	OP("existsi9", return yes(v.At(9u).Exists()))
	OP("existsi0", return yes(v.At(0u).Exists()))
	OP("existsz", return yes(v.At("zz").Exists()))
	OP("existsk", return yes(v.At("k").Exists()))
	OP("seti0", v.Set(0u, x); return "ok")
	OP("seti9", v.Set(9u, x); return "ok")
	OP("setk", v.Set("k", x); return "ok")
	OP("setz", v.Set("zz", x); return "ok")
	OP("asgi0", v[0] = x; return "ok")
	OP("asgi9", v[9] = x; return "ok")
	OP("asgk", v["k"] = x; return "ok")
	OP("asgz", v["zz"] = x; return "ok")
	OP("append", v.Append(x); return "ok")
	OP("nest1", v["k"]["new"] = x; return "ok")
	OP("nest2", v[1][2] = x; return "ok")
	OP("nest3", v["n"][2]["m"] = x; return "ok")
	OP("cmp", int c = v.Compare(x); return c < 0? "<": c > 0? ">": "=")
	OP("rcmp", int c = x.Compare(v); return c < 0? "<": c > 0? ">": "=")
	OP("comparable", return yes(v.Comparable(x)) + yes(x.Comparable(v)))
	OP("incr", v.Incr(); return "ok")
	OP("decr", v.Decr(); return "ok")
	OP("neg", return dump(v.Neg()))
	OP("add", v.Add(x); return "ok")
	OP("sub", v.Sub(x); return "ok")
	OP("mul", v.Mul(x); return "ok")
	OP("div", if (x.IsNumber() && !x.AsBool()) return "skip"; v.Div(x); return "ok")
	OP("rem", if (x.IsNumber() && !x.AsBool()) return "skip"; v.Rem(x); return "ok")
	OP("radd", Variant y = x.Copy(); y.Add(v); return dump(y))
	OP("rsub", Variant y = x.Copy(); y.Sub(v); return dump(y))
	OP("assign", v = x; return "ok")
	OP("assign type", v = Variant::FloatType; return "ok")
	OP("assign bool", v = true; return "ok")
	OP("assign int", v = -3; return "ok")
	OP("assign uint", v = 3u; return "ok")
	OP("assign double", v = 2.5; return "ok")
	OP("assign string", v = S("text"); return "ok")
	OP("assign cstr", v = "cstr"; return "ok")
	OP("assign blob", v = blob("new"); return "ok")
	OP("assign vector", v = std::vector<int>(3, 7); return "ok")
	OP("assign map", std::map<S, int> m; m["q"] = 1; v = m; return "ok")
	OP("copy", return dump(v.Copy()))
	OP("plain", Variant w = v; return dump(w))
	OP("from", Variant w; w = v; return dump(w))
	OP("exists", return yes(v.Exists()))
	OP("resolve", return dump(v.Resolve()))
	OP("resolvec", return dump(C(v).Resolve()))
	OP("resolved", return dump(v.Resolve(x)))
	OP("merge", v.Merge(x); return "ok")
	OP("getpath", return dump(v.GetPath("/k/in")))
	OP("getpathi", return dump(v.GetPath("[1]")))
	OP("getpathd", return dump(v.GetPath("/k/zz", x)))
	OP("haspath", return yes(v.HasPath("/k/in")) + yes(v.HasPath("[0]")) + yes(v.HasPath("/k[0]")) + yes(v.HasPath("/")))
	OP("setpath", v.SetPath("/k/in", x); return "ok")
	OP("setpath2", v.SetPath("/zz[1]/q", x); return "ok")
	OP("setpathi", v.SetPath("[2]/q", x); return "ok")
	OP("erasepath", v.ErasePath("/k/in"); return "ok")
	OP("erasepathr", v.ErasePath("/k/in", true); return "ok")
	OP("erasepathi", v.ErasePath("[1]"); return "ok")
	OP("atpath", v.AtPath("/k/in") = x; return "ok")
	OP("atpathd", return dump(v.AtPath("/k/new2/x", x)))
	OP("ref", return dump(v.Ref()))
	OP("assignref", v.Ref() = x; return "ok")
#undef OP
	return o;
}
static std::vector<Variant> samples() {
	std::vector<Variant> s;
	s.push_back(Variant());
	s.push_back(true); s.push_back(false);
	s.push_back(0); s.push_back(-5); s.push_back(7);
	s.push_back(0u); s.push_back(7u);
	s.push_back(0.0); s.push_back(2.5); s.push_back(7.0);
	s.push_back(""); s.push_back("12"); s.push_back("text"); s.push_back("no");
	s.push_back(Variant::ListType);
	Variant l; l.Append(7); l.Append("two"); l.Append(Variant());
	s.push_back(l);
	Variant l2; l2.Append(Variant(l.Copy()));
	s.push_back(l2);
	s.push_back(Variant::MapType);
	Variant m, in; in.Set("in", 5); m.Set("k", in); m.Set("a", "b");
	s.push_back(m);
	Variant m2; m2.Set("k", 1); m2.Set("zz", Variant());
	s.push_back(m2);
	s.push_back(Variant::BlobType);
	s.push_back(blob("data"));
	s.push_back(blob(""));
	return s;
}
// what may happen, by operation and type: a set of letters
//   v value (no exception)  w wrong-type exception  k missing key  r index out of range
static void rule(const Op &op, const Variant &before, const S &out, const S &after) {
	S n = op.name, b = dump(before);
	int t = before.GetType();
	bool num_ = t >= 2 && t <= 4, thrown = out[0] == '!';
	bool same_ = b == after;
	auto need = [&](bool ok, const char *what) { check(ok, "P10", what, "operation " + n + " on " + b + " gave " + out + ", value then " + after); };
	// nothing is half done: a refused operation leaves the value as it was (paths create what leads to their end)
	if (thrown && n != "atpath" && n != "atpathd" && n != "setpath" && n != "setpath2" && n != "setpathi" && n.compare(0, 4, "nest") && n != "merge") need(same_, "refused operation changed the value");
	bool list_op = n == "erasei0" || n == "erasei1" || n == "erasei9" || n.compare(0, 4, "seti") == 0 || n.compare(0, 4, "asgi") == 0 || n == "append" || n == "index" ||
		n.compare(0, 3, "ati") == 0 || n == "nest2" || n.compare(0, 7, "existsi") == 0;
	bool map_op = n == "erasek" || n == "erasez" || n == "setk" || n == "setz" || n == "asgk" || n == "asgz" || n == "atk" || n == "atz" || n == "atzd" || n == "atkd" || n == "nest1" || n == "nest3" ||
		n == "existsz" || n == "existsk";
	if (t != 0 && list_op && t != 6) need(wrong(out), "list operation on another type");
	if (t != 0 && map_op && t != 7) need(wrong(out), "map operation on another type");
	if (t == 0) {
		if (n.compare(0, 4, "seti") == 0 || n.compare(0, 4, "asgi") == 0 || n == "append" || n == "ati9d" || n == "ati0d" || n == "list" || n == "nest2") need(!thrown && after[0] == '[', "null used as a list becomes one");
		else if (n == "setk" || n == "setz" || n == "asgk" || n == "asgz" || n == "atzd" || n == "atkd" || n == "map" || n == "nest1" || n == "nest3") need(!thrown && after[0] == '{', "null used as a map becomes one");
		else if (n.compare(0, 5, "erase") == 0 || n.compare(0, 6, "exists") == 0 || n == "size" || n == "empty" || n == "clear") need(!thrown && same_, "null has nothing in it");
		else if (n == "incr" || n == "decr" || n == "neg" || n == "add" || n == "sub" || n == "mul" || n == "index" || n == "listc" || n == "mapc" || n == "blob" || n == "blobc") need(wrong(out), "null is not of that type");
		else if (n == "ati0" || n == "ati9" || n == "geti0" || n == "geti9" || n == "atci0" || n == "atci9") need(out == "!out_of_range", "reading an element of null");
		else if (n == "atk" || n == "atz" || n == "getk" || n == "getz" || n == "atck" || n == "atcz") need(out == "!KeyError", "reading a member of null");
		if (n == "bool") need(out == "no", "null as bool");
		if (n == "int" || n == "unsigned") need(out == "0", "null as a number");
		if (n == "float" || n == "double") need(out == "0", "null as a number");
		if (n == "string") need(out == "\"\"", "null as a string");
	}
	if (t != 0 && t != 6 && (n == "list" || n == "listc")) need(wrong(out), "as list");
	if (t != 0 && t != 7 && (n == "map" || n == "mapc")) need(wrong(out), "as map");
	if (t != 8 && (n == "blob" || n == "blobc")) need(wrong(out), "as blob");
	if ((num_ || t == 1) && (n == "size" || n == "empty")) need(wrong(out), "size of a scalar");
	if (t == 8 && n == "empty") need(wrong(out), "emptiness of a blob");
	if (!num_ && (n == "incr" || n == "decr" || n == "neg" || n == "add" || n == "sub" || n == "mul")) need(wrong(out), "calculation with a non-number");
	if (!num_ && (n == "div" || n == "rem") && out != "skip") need(wrong(out), "calculation with a non-number");
	if (t >= 6 && (n == "bool" || n == "float" || n == "double" || n == "unsigned" || n == "int" || n == "string")) need(wrong(out), "container as a scalar");
	if (t == 1) {
		bool v = b == "true";
		if (n == "int" || n == "unsigned" || n == "float" || n == "double") need(out == (v? "1": "0"), "bool as a number");
		if (n == "string") need(out == (v? "\"true\"": "\"false\""), "bool as a string");
		if (n == "bool") need(out == yes(v), "bool");
	}
	if (t == 5 && n == "string") need(out == b, "string");
	if (t != 6 && t != 0 && (n == "geti0" || n == "geti9" || n == "atci0" || n == "atci9")) need(wrong(out), "element of another type");
	if (t != 7 && t != 0 && (n == "getk" || n == "getz" || n == "atck" || n == "atcz")) need(wrong(out), "member of another type");
	if (t != 6 && (n == "hasi0" || n == "hasi9")) need(out == "no", "contains of another type");
	if (t != 7 && (n == "hask" || n == "hasz")) need(out == "no", "contains of another type");
	// reading does not change anything
	static const char *reads[] = {"type", "is", "bool", "float", "double", "unsigned", "int", "string", "blob", "blobc", "size", "empty", "listc", "mapc", "hasi0", "hasi9", "hask", "hasz", "index",
		"geti0", "geti9", "geti9d", "geti0d", "getk", "getz", "getzd", "getkd", "atci0", "atci9", "atck", "atcz", "ati0", "ati9", "atk", "atz", "existsi9", "existsi0", "existsz", "existsk",
		"cmp", "rcmp", "comparable", "neg", "radd", "rsub", "copy", "plain", "from", "exists", "resolve", "resolvec", "getpath", "getpathi", "getpathd", "haspath", "ref"};
	for (const char *r: reads) if (n == r) need(same_, "reading changed the value");
	// only null adapts: the type stays unless the operation is an assignment or clear
	if (t != 0 && n.compare(0, 6, "assign") && n != "clear" && n != "resolved") {
		int at = after[0] == '['? 6: after[0] == '{'? 7: after == "null"? 0: after[0] == '"'? -1: after[0] == 'b'? 8: after[0] == 'i'? 2: after[0] == 'u'? 3: after[0] == 'f' && after != "false"? 4: 1;
		bool arith = n == "add" || n == "sub" || n == "mul" || n == "div" || n == "rem";
		if (at != -1) need(at == t || (arith && num_ && at >= 2 && at <= 4) || t == 8, "type changed");
		else need(t == 5 || t == 8, "type changed");
	}
	if (n == "clear") {
		if (t == 5) need(after == "\"\"", "clear");
		else if (t == 6) need(after == "[]", "clear");
		else if (t == 7) need(after == "{}", "clear");
		else need(after == "null", "clear");
	}
	if (n == "assign type") need(after == "f0", "assign");
	if (n == "assign bool") need(after == "true", "assign");
	if (n == "assign int") need(after == "i-3", "assign");
	if (n == "assign uint") need(after == "u3", "assign");
	if (n == "assign double") need(after == "f2.5", "assign");
	if (n == "assign string") need(after == "\"text\"", "assign");
	if (n == "assign cstr") need(after == "\"cstr\"", "assign");
	if (n == "assign blob") need(after == "\"bnew\"", "assign");
	if (n == "assign vector") need(after == "[i7,i7,i7]", "assign");
	if (n == "assign map") need(after == "{\"q\":i1}", "assign");
	if (n == "copy" || n == "plain" || n == "from") need(out == b, "copy");
	if (n == "type") need(out == ::num(t), "type");
	if (n == "is") need(out == yes(t == 0) + yes(t == 1) + yes(b == "true") + yes(b == "false") + yes(num_) + yes(t == 2) + yes(t == 3) + yes(t == 4) + yes(t == 5) + yes(t == 6) + yes(t == 7) + yes(t == 8), "type queries");
}
static void part_types() {
	std::vector<Op> os = operations();
	std::vector<Variant> ss = samples();
	for (int t = 0; t <= 8; ++t) {
		begin(S("Variant of type ") + tname[t]);
		Variant v = Variant::Type_t(t);
		const char *d[] = {"null", "false", "i0", "u0", "f0", "\"\"", "[]", "{}", "b-"};
		check(int(v.GetType()) == t && dump(v) == d[t], "P10", "default value of a type", dump(v));
	}
	for (size_t i = 0; i < ss.size(); ++i) for (size_t j = 0; j < ss.size(); ++j) for (const Op &op: os) {
		if (!op.arg && j) continue;
		const Variant x = ss[j].Copy();
		S dx = dump(x);
		S what = S("operation ") + op.name + " on " + dump(ss[i]) + " with " + dx;
		begin(what);
		Variant v = ss[i].Copy();
		Variant before = ss[i].Copy();
		S out = attempt([&]{ return op.f(v, x); });
		S after = dump(v);
		if (S(op.name).compare(0, 5, "merge")) check(dump(x) == dx, "P10", "argument changed", dump(x));
		rule(op, before, out, after);
		if (S(op.name) == "cmp") {
			bool nn = ss[i].IsNumber() && ss[j].IsNumber();
			if (ss[i].GetType() != ss[j].GetType() && !nn) check(out == ">", "P10", "compare of different types", out);
			else if (!nn) check((out == "=") == (dump(before) == dx), "P10", "compare of one type", out);
		}
		if (S(op.name) == "comparable") {
			bool c = ss[i].GetType() == ss[j].GetType() || (ss[i].IsNumber() && ss[j].IsNumber());
			check(out == yes(c) + yes(c), "P10", "comparable", out);
		}
		// the same through a reference to a variable, to an element, to a member, and through proxies that resolve late
		for (int mode = 0; mode < 6; ++mode) {
			if (g_scale == 1 && op.arg && unsigned(mode) % 3 != (i + 2 * j + unsigned(&op - &os[0])) % 3) continue;
			begin(what + " through " + (mode == 0? "a reference to a variable": mode == 1? "a reference to an element": mode == 2? "a reference to a member": mode == 3? "a proxy of a member": mode == 4? "a proxy of an element": "a reference to a reference"));
			Variant root, direct = ss[i].Copy();
			std::unique_ptr<VariantRef> r, r0;
			switch (mode) {
			case 0: r.reset(new VariantRef(direct)); break;
			case 1: root.Set(1u, direct); r.reset(new VariantRef(root.At(1u))); break;
			case 2: root.Set("key", direct); r.reset(new VariantRef(root.At("key"))); break;
			case 3: r.reset(new VariantRef(root.At("key"))); root.Set("key", direct); break;
			case 4: r.reset(new VariantRef(root.At(2u))); root.Set(2u, direct); break;
			case 5: r0.reset(new VariantRef(direct)); r.reset(new VariantRef(*r0)); break;
			}
			if ((mode == 3 || mode == 4) && S(op.name) == "resolved") continue;
			S out2 = attempt([&]{ return op.f(*r, x); });
			S after2 = mode == 0 || mode == 5? dump(direct): mode == 1? dump(root.Get(1u)): mode == 4? dump(root.Get(2u)): dump(root.Get("key"));
			check(out2 == out, "*", "outcome through a reference", out2 + " directly " + out);
			check(after2 == after, "*", "effect through a reference", after2 + " directly " + after);
			check(attempt([&]{ return dump(*r); }) == after, "*", "reading back through the reference", attempt([&]{ return dump(*r); }));
			check(mode != 1 || (root.Size() == 2 && root.Get(0u).IsNull()), "*", "neighbour changed");
			check(mode != 4 || (root.Size() == 3 && root.Get(0u).IsNull() && root.Get(1u).IsNull()), "*", "neighbour changed");
			// reference as the argument
			if (mode < 3) {
				Variant v3 = ss[i].Copy(), root3;
				root3.Set("x", x.Copy());
				VariantRef rx = root3.At("x");
				S out3 = attempt([&]{ return op.f(v3, rx); });
				check(out3 == out && dump(v3) == after, "*", "reference as argument", out3 + " directly " + out + " value " + dump(v3) + " directly " + after);
			}
		}
	}
	// every operation on a reference whose value is gone is refused
	for (const Op &op: os) for (int mode = 0; mode < 5; ++mode) for (size_t i = 0; i < ss.size(); i += op.arg? 5: 40) {
		begin(S("operation ") + op.name + " on a dead reference, kind " + num(mode));
		std::unique_ptr<Variant> root(new Variant(mode < 3? Variant("variable"): Variant(Variant::MapType)));
		if (mode == 1) { Variant t; t.Append(*root); *root = t; }
		if (mode == 2) { Variant t; t.Set("k", *root); *root = t; }
		std::unique_ptr<VariantRef> r(mode == 0? new VariantRef(*root): mode == 1? new VariantRef(root->At(0u)): mode == 2? new VariantRef(root->At("k")):
			mode == 3? new VariantRef(root->At("missing")): new VariantRef(root->At("missing").At(3u)));
		root.reset();
		Variant x = ss[i].Copy();
		S out = attempt([&]{ return op.f(*r, x); }), n = op.name;
		check(out == "!InvalidReferenceError" || (n[0] == 'r' && wrong(out)) || out == "skip" || (n == "exists" && out == "no") || n == "merge", "P11", "use of a dead reference", out);
		check(!r->Exists(), "P11", "a dead reference exists");
	}
	// unresolved proxies: reading refuses, writing creates, nothing is created by reading
	struct P { const char *name; std::function<S(Variant&)> f; const char *after; };
	P ps[] = {
		{"read member", [](Variant &v){ return dump(v["a"]); }, "{}"},
		{"read element", [](Variant &v){ return dump(v["a"][3]); }, "{}"},
		{"read deep", [](Variant &v){ return dump(v["a"]["b"]["c"]); }, "{}"},
		{"type", [](Variant &v){ return num(v["a"].GetType()); }, "{}"},
		{"compare", [](Variant &v){ return num(v["a"].Compare(1)); }, "{}"},
		{"add", [](Variant &v){ v["a"] += 1; return S("ok"); }, "{}"},
		{"size", [](Variant &v){ return num(v["a"].Size()); }, "{}"},
		{"clear", [](Variant &v){ v["a"].Clear(); return S("ok"); }, "{}"},
		{"erase", [](Variant &v){ v["a"].Erase("x"); return S("ok"); }, "{}"},
		{"assign from it", [](Variant &v){ Variant w; w = v["a"]; return S("ok"); }, "{}"},
		{"copy", [](Variant &v){ return dump(v["a"].Copy()); }, "{}"},
		{"value set", [](Variant &v){ v["a"] = 1; return S("ok"); }, "{\"a\":i1}"},
		{"nested maps", [](Variant &v){ v["a"]["b"] = 1; return S("ok"); }, "{\"a\":{\"b\":i1}}"},
		{"nested list", [](Variant &v){ v["a"][2] = 1; return S("ok"); }, "{\"a\":[null,null,i1]}"},
		{"deep", [](Variant &v){ v["a"][1]["b"][0] = 1; return S("ok"); }, "{\"a\":[null,{\"b\":[i1]}]}"},
		{"append", [](Variant &v){ v["a"].Append(1); return S("ok"); }, "{\"a\":[i1]}"},
		{"set key", [](Variant &v){ v["a"].Set("k", 1); return S("ok"); }, "{\"a\":{\"k\":i1}}"},
		{"set index", [](Variant &v){ v["a"].Set(1u, 1); return S("ok"); }, "{\"a\":[null,i1]}"},
		{"at default key", [](Variant &v){ v["a"].At("k", 7); return S("ok"); }, "{\"a\":{\"k\":i7}}"},
		{"at default index", [](Variant &v){ v["a"].At(0u, 7); return S("ok"); }, "{\"a\":[i7]}"},
		{"resolve default", [](Variant &v){ v["a"].Resolve(9); return S("ok"); }, "{\"a\":i9}"},
		{"as list", [](Variant &v){ v["a"].AsList().push_back(3); return S("ok"); }, "{\"a\":[i3]}"},
		{"as map", [](Variant &v){ v["a"].AsMap()["q"] = 3; return S("ok"); }, "{\"a\":{\"q\":i3}}"},
		{"exists", [](Variant &v){ return yes(v["a"].Exists() || v["a"]["b"].Exists() || v["a"][1].Exists()) == "no"? S("ok"): S("!yes"); }, "{}"},
		{"contains", [](Variant &v){ return yes(v.Contains("a")) == "no"? S("ok"): S("!yes"); }, "{}"},
	};
	for (const P &p: ps) for (int late = 0; late < 2; ++late) {
		begin(S("unresolved proxy: ") + p.name);
		Variant v = Variant::MapType;
		S out = attempt([&]{ return p.f(v); });
		bool creates = S(p.after) != "{}" || S(p.name) == "exists" || S(p.name) == "contains";
		check((out[0] != '!') == creates, "P11", "unresolved proxy", out);
		check(dump(v) == p.after, "P11", "unresolved proxy, effect", dump(v));
	}
	begin("a proxy sees the element once it is there");
	{
		Variant v = Variant::MapType;
		VariantRef p = v.At("x");
		check(!p.Exists(), "P11", "proxy exists early");
		v.Set("x", 5);
		check(p.Exists() && p.AsInt() == 5, "P11", "proxy does not see the element");
		p = 6;
		check(dump(v) == "{\"x\":i6}", "P11", "proxy write", dump(v));
		v.Erase("x");
		check(!p.Exists() && attempt([&]{ return dump(p); }) == "!InvalidReferenceError", "P11", "reference to an erased member");
	}
	begin("references and proxies outlive their root");
	{
		std::unique_ptr<Variant> v(new Variant(Variant::MapType));
		v->Set("k", 1);
		VariantRef r(*v), p = v->At("zz"), m = v->At("k"), pp = v->At("zz").At("deeper");
		check(r.Exists() && !p.Exists() && m.Exists(), "P11", "exists");
		v.reset();
		check(!r.Exists() && !p.Exists() && !pp.Exists(), "P11", "exists after the root is gone");
		check(attempt([&]{ return dump(r); }) == "!InvalidReferenceError", "P11", "use of a dead reference");
		check(attempt([&]{ return dump(p); }) == "!InvalidReferenceError", "P11", "use of a dead proxy");
		check(attempt([&]{ p = 1; return S("ok"); }) == "!InvalidReferenceError", "P11", "write to a dead proxy");
		check(attempt([&]{ r = 1; return S("ok"); }) == "!InvalidReferenceError", "P11", "write to a dead reference");
		check(attempt([&]{ pp = 1; return S("ok"); }) == "!InvalidReferenceError", "P11", "write to a dead proxy");
		check(attempt([&]{ r = S("s"); return S("ok"); }) == "!InvalidReferenceError", "P11", "write to a dead reference");
		check(attempt([&]{ r = Variant("s"); return S("ok"); }) == "!InvalidReferenceError", "P11", "write to a dead reference");
	}
	begin("reassigning references");
	{
		Variant a = 1, b = 2, c = Variant::MapType;
		VariantRef r(a);
		r.ReassignRef(b);
		r = 5;
		check(dump(a) == "i1" && dump(b) == "i5", "P11", "reassigned reference", dump(a) + dump(b));
		VariantRef q(r);
		r.ReassignRef(a);
		q = 6;
		check(dump(a) == "i1" && dump(b) == "i6", "P11", "copy of a reference", dump(a) + dump(b));
		VariantRef p = c.At("n");
		p.ReassignRef(p);
		p = 3;
		check(dump(c) == "{\"n\":i3}", "P11", "proxy reassigned to itself", dump(c));
		r.ReassignRef(r);
		r = 9;
		check(dump(a) == "i9", "P11", "reference reassigned to itself");
	}
	// values taken from inside the container that an assignment makes grow or go away
	const char *vals[] = {"null", "bool", "int", "uint", "float", "string", "list", "map", "blob"};
	for (size_t i = 0; i < ss.size(); ++i) {
		S d = dump(ss[i]);
		begin("element assigned past the end of its own list: " + d);
		{ Variant v; v.Append(ss[i].Copy()); v[1] = v[0]; check(dump(v) == "[" + d + "," + d + "]", "P11", "element to a new element", dump(v)); }
		{ Variant v; v.Append(ss[i].Copy()); VariantRef p = v.At(40u); p = ((const Variant&)v).At(0u); check(dump(v.Get(40u)) == d && v.Size() == 41, "P11", "element to a new element", dump(v)); }
		{ Variant v; v["a"].Append(ss[i].Copy()); v["a"][30]["x"] = v["a"][0]; check(dump(v["a"][30]["x"]) == d && dump(v["a"][0]) == d, "P11", "element to a new nested element", dump(v)); }
		{ Variant v; v.Append(ss[i].Copy()); v.Set(9u, v[0]); check(dump(v.Get(9u)) == d, "P11", "set from own element", dump(v)); }
		{ Variant v; v.Append(ss[i].Copy()); v.Append(v[0]); check(dump(v.Get(1u)) == d, "P11", "append own element", dump(v)); }
		{ Variant v; v.Append(ss[i].Copy()); v.At(9u, v[0]); check(dump(v.Get(9u)) == d, "P11", "default from own element", dump(v)); }
		{ Variant v; v.Append(ss[i].Copy()); VariantRef p = v.At(20u); p.Resolve(((const Variant&)v).At(0u)); check(dump(v.Get(20u)) == d, "P11", "default from own element", dump(v)); }
		begin("a container replaced by its own element: " + d);
		{ Variant v; v.Append(ss[i].Copy()); v = v[0]; check(dump(v) == d, "P11", "list replaced by its element", dump(v)); }
		{ Variant v; v["k"] = ss[i].Copy(); v = v["k"]; check(dump(v) == d, "P11", "map replaced by its member", dump(v)); }
		{ Variant v; v["k"]["l"] = ss[i].Copy(); VariantRef r(v); r = ((const Variant&)v)["k"]["l"]; check(dump(v) == d, "P11", "map replaced by an inner member", dump(v)); }
		{ Variant v = ss[i].Copy(); v = v; check(dump(v) == d, "P11", "assigned to itself", dump(v)); VariantRef r(v); r = v; v = r; check(dump(v) == d, "P11", "assigned to itself by reference", dump(v)); }
		{ Variant v; v.Set("a", ss[i].Copy()); v["b"] = v["a"]; check(dump(v["b"]) == d && dump(v["a"]) == d, "P11", "member to a new member", dump(v)); }
	}
	(void)vals;
}

// ------------------------------------------------------------------ histories against a model
struct Node;
typedef std::shared_ptr<Node> NP;
struct MV {
	int t = 0;
	bool b = false;
	int64_t i = 0;
	uint64_t u = 0;
	long double f = 0;
	S s;
	std::shared_ptr<std::vector<NP>> l;
	std::shared_ptr<std::map<S, NP>> m;
};
struct Node { MV v; bool in_list = false; };
static S mdump(const MV &v) {
	switch (v.t) {
	case 0: return "null";
	case 1: return v.b? "true": "false";
	case 2: return "i" + std::to_string(v.i);
	case 3: return "u" + std::to_string(v.u);
	case 4: return "f" + fl(v.f);
	case 5: return show(v.s);
	case 6: { S o = "["; for (size_t i = 0; i < v.l->size(); ++i) o += (i? ",": "") + mdump((*v.l)[i]->v); return o + "]"; }
	case 7: { S o = "{"; bool first = true; for (auto &e: *v.m) { o += (first? "": ",") + show(e.first) + ":" + mdump(e.second->v); first = false; } return o + "}"; }
	case 8: return show("b" + v.s);
	}
	return "?";
}
static size_t msize(const MV &v) {
	size_t n = 1;
	if (v.t == 6) for (auto &e: *v.l) n += msize(e->v);
	if (v.t == 7) for (auto &e: *v.m) n += msize(e.second->v);
	return n;
}
static MV mcopy(const MV &v) {
	MV r = v;
	if (v.t == 6) { r.l.reset(new std::vector<NP>); for (auto &e: *v.l) { NP n(new Node); n->v = mcopy(e->v); n->in_list = true; r.l->push_back(n); } }
	if (v.t == 7) { r.m.reset(new std::map<S, NP>); for (auto &e: *v.m) { NP n(new Node); n->v = mcopy(e.second->v); (*r.m)[e.first] = n; } }
	return r;
}
static bool reaches(const MV &v, const void *c) {
	if (v.t == 6) { if (v.l.get() == c) return true; for (auto &e: *v.l) if (reaches(e->v, c)) return true; }
	if (v.t == 7) { if (v.m.get() == c) return true; for (auto &e: *v.m) if (reaches(e.second->v, c)) return true; }
	return false;
}
static bool meq(const MV &a, const MV &b) {
	bool an = a.t >= 2 && a.t <= 4, bn = b.t >= 2 && b.t <= 4;
	if (an && bn) { N x = {a.t, a.i, a.u, a.f}, y = {b.t, b.i, b.u, b.f}; return cmp(x, y) == 0; }
	if (a.t != b.t) return false;
	switch (a.t) {
	case 0: return true;
	case 1: return a.b == b.b;
	case 5: case 8: return a.s == b.s;
	case 6: if (a.l->size() != b.l->size()) return false; for (size_t i = 0; i < a.l->size(); ++i) if (!meq((*a.l)[i]->v, (*b.l)[i]->v)) return false; return true;
	case 7: {
		if (a.m->size() != b.m->size()) return false;
		auto j = b.m->begin();
		for (auto &e: *a.m) { if (e.first != j->first || !meq(e.second->v, j->second->v)) return false; ++j; }
		return true;
	}
	}
	return false;
}
static const char *keys[] = {"a", "b", "c", "", "a/b"};
static void scalar(MV &m, Variant &v) {
	switch (rnd(9)) {
	case 0: m.t = 0; v = Variant(); break;
	case 1: m.t = 1; m.b = rnd(2); v = m.b; break;
	case 2: case 3: m.t = 2; m.i = int(rnd(5)) - 2; v = (long)m.i; break;
	case 4: m.t = 3; m.u = rnd(4); v = (unsigned long)m.u; break;
	case 5: m.t = 4; m.f = rnd(3) * 0.5L; v = m.f; break;
	case 6: case 7: m.t = 5; m.s = S(rnd(4), char('p' + rnd(3))); if (rnd(6) == 0) m.s += S("\0z", 2); v = m.s; break;
	case 8: m.t = 8; m.s = S(rnd(3), 'q'); v = blob(m.s); break;
	}
}
static void value(MV &m, Variant &v, int depth) {
	unsigned k = depth > 0? rnd(4): 0;
	if (k < 2) { scalar(m, v); return; }
	if (k == 2) {
		m.t = 6; m.l.reset(new std::vector<NP>); v = Variant::ListType;
		for (unsigned n = rnd(4); n; --n) { NP e(new Node); e->in_list = true; Variant x; value(e->v, x, depth - 1); m.l->push_back(e); v.Append(x); }
	} else {
		m.t = 7; m.m.reset(new std::map<S, NP>); v = Variant::MapType;
		for (unsigned n = rnd(4); n; --n) { NP e(new Node); Variant x; value(e->v, x, depth - 1); S k = keys[rnd(5)]; (*m.m)[k] = e; v.Set(k, x); }
	}
}
struct Held { std::unique_ptr<VariantRef> r; std::weak_ptr<Node> n; bool list; };

static void history(unsigned steps) {
	const int R = 3;
	std::vector<std::unique_ptr<Variant>> real;
	std::vector<NP> model;
	for (int i = 0; i < R; ++i) {
		real.push_back(std::unique_ptr<Variant>(new Variant));
		model.push_back(NP(new Node));
		value(model[i]->v, *real[i], 2);
	}
	Held held[3];
	S log;
	for (int i = 0; i < R; ++i) log += "v" + num(i) + "=" + mdump(model[i]->v) + "; ";
	bool bad = false;
	auto note = [&](const S &s) { log += s + "; "; begin(log.size() > 7000? log.substr(0, 3500) + " ... " + log.substr(log.size() - 3400): log); };
	auto fail2 = [&](const S &kind, const S &what) { bad = true; fail("P11", kind, what + " | " + log); fail("P12", kind, what + " | " + log); };
	auto expect = [&](const S &got, const S &want, const char *kind) { if (got != want && !bad) fail2(kind, "got " + got + " expected " + want); };
	for (unsigned st = 0; st < steps && !bad; ++st) {
		// a place: a root, then down through members
		unsigned ri = rnd(R);
		NP n = model[ri];
		std::unique_ptr<VariantRef> p(new VariantRef(*real[ri]));
		S where = "v" + num(ri);
		const void *owner = 0;		// container that holds the place
		while (rnd(3)) {
			if (n->v.t == 6 && n->v.l->size()) {
				unsigned k = rnd(n->v.l->size());
				owner = n->v.l.get();
				NP c = (*n->v.l)[k];
				p.reset(new VariantRef(p->At(k)));
				where += "[" + num(k) + "]";
				n = c;
			} else if (n->v.t == 7 && n->v.m->size()) {
				auto e = n->v.m->begin();
				std::advance(e, rnd(n->v.m->size()));
				owner = n->v.m.get();
				NP c = e->second;
				S key = e->first;
				p.reset(new VariantRef(p->At(key)));
				where += "[" + show(key) + "]";
				n = c;
			} else break;
		}
		MV &m = n->v;
		Variant &v = *p;
		MV nm;
		Variant nv;
		const void *self = m.t == 6? (const void*)m.l.get(): m.t == 7? (const void*)m.m.get(): 0;
		// a second place, for its value
		unsigned rj = rnd(R);
		NP n2 = model[rj];
		std::unique_ptr<VariantRef> p2(new VariantRef(*real[rj]));
		S where2 = "v" + num(rj);
		while (rnd(3)) {
			if (n2->v.t == 6 && n2->v.l->size()) { unsigned k = rnd(n2->v.l->size()); NP c = (*n2->v.l)[k]; p2.reset(new VariantRef(p2->At(k))); where2 += "[" + num(k) + "]"; n2 = c; }
			else if (n2->v.t == 7 && n2->v.m->size()) { auto e = n2->v.m->begin(); std::advance(e, rnd(n2->v.m->size())); NP c = e->second; S key = e->first; p2.reset(new VariantRef(p2->At(key))); where2 += "[" + show(key) + "]"; n2 = c; }
			else break;
		}
		S src;
		switch (rnd(4)) {
		case 0: case 1: scalar(nm, nv); src = mdump(nm); break;
		case 2: nm = n2->v; nv = *p2; src = where2; break;
		default: nm = mcopy(n2->v); nv = p2->Copy(); src = "copy of " + where2; break;
		}
		auto cyc = [&](const void *c) { return c && reaches(nm, c); };
		size_t total = 0;
		for (int i = 0; i < R; ++i) total += msize(model[i]->v);
		bool big = total + msize(nm) > 120;
		unsigned op = rnd(26);
		S key = keys[rnd(5)];
		unsigned idx = m.t == 6 && rnd(4)? rnd(unsigned(m.l->size()) + 1): rnd(8);
		auto put = [&](NP &slot, bool in_list) { if (!slot) { slot.reset(new Node); slot->in_list = in_list; } slot->v = nm; };
		auto grow = [&](unsigned k) { while (m.l->size() <= k) { NP e(new Node); e->in_list = true; m.l->push_back(e); } };
		switch (op) {
		case 0: case 1: case 2:
			if (cyc(owner) || big) break;
			note(where + "=" + src);
			if (rnd(3)) v = nv; else if (src == where2) v = *p2; else v.Assign(nv);
			m = nm;
			break;
		case 3: case 4:
			if ((m.t != 0 && m.t != 6) || cyc(owner) || cyc(self) || big) break;
			note(where + ".Append(" + src + ")");
			if (src == where2 && rnd(2)) v.Append(*p2); else v.Append(nv);
			if (m.t == 0) { m = MV(); m.t = 6; m.l.reset(new std::vector<NP>); }
			{ NP e; put(e, true); m.l->push_back(e); }
			break;
		case 5: case 6: case 7:
			if ((m.t != 0 && m.t != 6) || cyc(owner) || cyc(self) || big) break;
			note(where + " element " + num(idx) + "=" + src);
			if (op == 5) v.Set(idx, nv); else if (op == 6) v[idx] = nv; else if (src == where2) v[idx] = *p2; else v.At(idx) = nv;
			if (m.t == 0) { m = MV(); m.t = 6; m.l.reset(new std::vector<NP>); }
			grow(idx);
			put((*m.l)[idx], true);
			break;
		case 8: case 9: case 10:
			if ((m.t != 0 && m.t != 7) || cyc(owner) || cyc(self) || big) break;
			note(where + " member " + show(key) + "=" + src);
			if (op == 8) v.Set(key, nv); else if (op == 9) v[key] = nv; else if (src == where2) v[key] = *p2; else v.At(key) = nv;
			if (m.t == 0) { m = MV(); m.t = 7; m.m.reset(new std::map<S, NP>); }
			put((*m.m)[key], false);
			break;
		case 11:
			if (m.t != 6) break;
			note(where + ".Erase(" + num(idx) + ")");
			v.Erase(idx);
			if (idx + 1 < m.l->size()) (*m.l)[idx]->v = MV();
			else if (idx < m.l->size()) m.l->pop_back();
			break;
		case 12:
			if (m.t != 7) break;
			note(where + ".Erase(" + show(key) + ")");
			v.Erase(key);
			m.m->erase(key);
			break;
		case 13:
			if (rnd(3)) break;
			note(where + ".Clear()");
			v.Clear();
			if (m.t == 5) m.s.clear(); else if (m.t == 6) { std::vector<NP> old; old.swap(*m.l); } else if (m.t == 7) { std::map<S, NP> old; old.swap(*m.m); } else m = MV();
			break;
		case 14: {
			if ((m.t != 0 && m.t != 6) || cyc(owner) || cyc(self) || big) break;
			note(where + ".At(" + num(idx) + "," + src + ")");
			VariantRef r = v.At(idx, nv);
			if (m.t == 0) { m = MV(); m.t = 6; m.l.reset(new std::vector<NP>); }
			if (idx >= m.l->size()) { grow(idx); put((*m.l)[idx], true); }
			expect(dump(r), mdump((*m.l)[idx]->v), "element with a default");
			break;
		}
		case 15: {
			if ((m.t != 0 && m.t != 7) || cyc(owner) || cyc(self) || big) break;
			note(where + ".At(" + show(key) + "," + src + ")");
			VariantRef r = v.At(key, nv);
			if (m.t == 0) { m = MV(); m.t = 7; m.m.reset(new std::map<S, NP>); }
			if (!m.m->count(key)) put((*m.m)[key], false);
			expect(dump(r), mdump((*m.m)[key]->v), "member with a default");
			break;
		}
		case 16:
			note("read element " + num(idx) + " of " + where);
			if (m.t == 6) {
				bool has = idx < m.l->size();
				expect(yes(v.Contains(idx)), yes(has), "contains");
				expect(attempt([&]{ return dump(v.Get(idx)); }), has? mdump((*m.l)[idx]->v): "!out_of_range", "element");
				expect(attempt([&]{ return dump(C(v).At(idx)); }), has? mdump((*m.l)[idx]->v): "!out_of_range", "element");
				expect(dump(v.Get(idx, nv)), has? mdump((*m.l)[idx]->v): mdump(nm), "element or default");
				expect(yes(v.At(idx).Exists()), yes(has), "exists");
				expect(num(v.Size()), num(m.l->size()), "size");
				expect(yes(v.Empty()), yes(m.l->empty()), "empty");
				unsigned at = 0;
				while (at < m.l->size() && !meq((*m.l)[at]->v, nm)) ++at;
				expect(num(v.Index(nv)), num(at), "index of");
				std::vector<S> it;
				for (Variant::ListIterator i = v.ListBegin(); i != v.ListEnd(); ++i) it.push_back(dump(*i));
				expect(num(it.size()), num(m.l->size()), "iteration");
			} else expect(dump(v.Get(idx, nv)), mdump(nm), "element or default");
			break;
		case 17:
			note("read member " + show(key) + " of " + where);
			if (m.t == 7) {
				bool has = m.m->count(key);
				S want = has? mdump((*m.m)[key]->v): S("!KeyError");
				if (!has) m.m->erase(key);
				expect(yes(v.Contains(key)), yes(has), "contains");
				expect(attempt([&]{ return dump(v.Get(key)); }), want, "member");
				expect(attempt([&]{ return dump(C(v).At(key)); }), want, "member");
				expect(dump(v.Get(key, nv)), has? want: mdump(nm), "member or default");
				expect(yes(v.At(key).Exists()), yes(has), "exists");
				expect(num(v.Size()), num(m.m->size()), "size");
				expect(yes(v.Empty()), yes(m.m->empty()), "empty");
			} else expect(dump(v.Get(key, nv)), mdump(nm), "member or default");
			break;
		case 18:
			note("compare " + where + " with " + src);
			expect(yes(v == nv), yes(meq(m, nm)), "equality");
			expect(yes(nv == v), yes(meq(m, nm)), "equality");
			expect(yes(v != nv), yes(!meq(m, nm)), "inequality");
			break;
		case 19: {
			if (m.t != 7 || nm.t != 7 || cyc(owner) || cyc(self) || big) break;
			note(where + ".Merge(" + src + ")");
			bool ok = true;
			for (auto &e: *nm.m) if (reaches(e.second->v, self)) ok = false;
			if (!ok) break;
			v.Merge(nv);
			std::map<S, NP> from = *nm.m;
			for (auto &e: from) { NP &s = (*m.m)[e.first]; if (!s) s.reset(new Node); MV x = e.second->v; s->v = x; }
			break;
		}
		case 20:
			if (m.t < 2 || m.t > 4) break;
			note(where + "++");
			++v;
			if (m.t == 2) ++m.i; else if (m.t == 3) ++m.u; else m.f += 1;
			break;
		case 21: case 22: {
			Held &h = held[rnd(3)];
			note("hold a reference to " + where);
			h.r.reset(new VariantRef(*p));
			h.n = n;
			h.list = n->in_list;
			break;
		}
		case 23: case 24: {
			Held &h = held[rnd(3)];
			if (!h.r) break;
			NP t = h.n.lock();
			if (t && (cyc(0) || nm.t == 6 || nm.t == 7)) { nm = MV(); nm.t = 2; nm.i = 77; nv = 77; src = "77"; }
			note("through a held reference = " + src);
			S r = attempt([&]{ *h.r = nv; return S("ok"); });
			if (t && r == "ok") t->v = nm;
			else if (h.list && r == "!InvalidReferenceError") h.r.reset();		// the list may have moved its elements
			else if (t || r != "!InvalidReferenceError") fail2("held reference", r + (t? " target there": " target gone"));
			break;
		}
		case 25: {
			Held &h = held[rnd(3)];
			if (!h.r) break;
			NP t = h.n.lock();
			note("read a held reference");
			S r = attempt([&]{ return dump(*h.r); });
			bool ex = h.r->Exists();
			if (ex != (r != "!InvalidReferenceError")) fail2("held reference exists", r);
			if (t && r == mdump(t->v)) {}
			else if (h.list && r == "!InvalidReferenceError") h.r.reset();
			else if (t || r != "!InvalidReferenceError") fail2("held reference", r + (t? " target " + mdump(t->v): " target gone"));
			break;
		}
		}
		for (int i = 0; i < R; ++i) {
			S got = dump(*real[i]), want = mdump(model[i]->v);
			if (got != want && !bad) fail2("state", "v" + num(i) + " is " + got + " expected " + want);
		}
		if (rnd(60) == 0) {
			unsigned k = rnd(R);
			note("v" + num(k) + " destroyed and new");
			n.reset(); n2.reset(); p.reset(); p2.reset();
			real[k].reset(new Variant);
			model[k].reset(new Node);
		}
	}
}
static void part_hist() {
	size_t before = 0;
	for (int h = 0; h < 3000 * g_scale; ++h) {
		if (h == 50) before = __sanitizer_get_current_allocated_bytes();
		history(h < 1500? 12: 60);
	}
	g_case[0] = 0;
	size_t after = __sanitizer_get_current_allocated_bytes();
	if (!g_fails) check(after < before + 20000, "P11", "memory kept after all values are gone", num(after - before) + " bytes after 3000 histories");
	if (!g_fails) {
		begin("the largest index");
		{
			Variant l;
			l.Append(1); l.Append("two");
			l.Erase(UINT_MAX);
			check(dump(l) == "[i1,\"two\"]", "P12", "erasing at the largest index", dump(l));
			check(!l.Contains(UINT_MAX) && attempt([&]{ return dump(((const Variant&)l).At(UINT_MAX)); })[0] == '!', "P12", "looking at the largest index");
			check(dump(l.Get(UINT_MAX, 7)) == "i7", "P12", "default at the largest index");
		}
		begin("shared storage is released with its last owner");
		for (int i = 0; i < 4; ++i) {
			static int freed;
			freed = 0;
			struct F { static void f(void *p, void*) { ++freed; free(p); } };
			{
				Variant a, b, c;
				a["x"][3] = Blob::Create(malloc(10), 10, F::f, 0);
				b = a;
				c = a.Copy();
				VariantRef r = a["x"];
				Variant d = r;
				a = 1;
				check(freed == 0, "P11", "released too early");
				b = Variant();
				check(freed == 0, "P11", "released too early");
				d = 2;
				check(freed == 1, "P11", "not released with its last owner");
				check(c["x"][3].Size() == 10, "P11", "copy not independent");
			}
		}
	}
}
int main(int argc, char **argv) {
	init(argc, argv);
	S part;
	for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--part")) part = argv[i + 1];
	auto wanted = [&](const char *p) { return part.empty() || ("," + part + ",").find(S(",") + p + ",") != S::npos; };
	if (wanted("num")) part_num();
	if (wanted("types")) part_types();
	if (wanted("hist")) part_hist();
	return finish();
}
