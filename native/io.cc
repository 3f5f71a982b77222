// Bounded stand-in and counterexample search for the output targets (P05) and the input sources (P06):
// random histories of operations against a plain byte string.
#include "h.h"
#include <Variant/Variant.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <errno.h>
#include <sstream>
#include <streambuf>
#include <memory>
using namespace libvariant;
using namespace vh;

static std::string bytes(unsigned n) {
	std::string s;
	for (unsigned i = 0; i < n; ++i) s += char(rnd(256));
	return s;
}

// ---------------------------------------------------------------- targets
struct ShortBuf: std::streambuf {
	std::string got;
	unsigned quota;          // bytes taken per call
	bool synced;
	ShortBuf(): quota(~0u), synced(false) {}
	std::streamsize xsputn(const char *p, std::streamsize n) {
		if (n > (std::streamsize)quota) n = quota;
		got.append(p, n);
		return n;
	}
	int_type overflow(int_type c) { if (c != EOF) got += char(c); return 0; }
	int sync() { synced = true; return 0; }
};
struct Cookie { std::string got; std::string src; size_t pos; unsigned chunk; bool fail; Cookie(): pos(0), chunk(~0u), fail(false) {} };
static ssize_t cwrite(void *c, const char *p, size_t n) {
	Cookie *k = (Cookie*)c;
	if (k->fail) return 0;
	if (n > k->chunk) n = k->chunk;
	k->got.append(p, n);
	return n;
}
static ssize_t cread(void *c, char *p, size_t n) {
	Cookie *k = (Cookie*)c;
	if (k->fail) { errno = EIO; return -1; }
	if (n > k->chunk) n = k->chunk;
	if (n > k->src.size() - k->pos) n = k->src.size() - k->pos;
	memcpy(p, k->src.data() + k->pos, n);
	k->pos += n;
	return n;
}
static FILE *cfile(Cookie *k, const char *mode) {
	cookie_io_functions_t f = { cread, cwrite, 0, 0 };
	return fopencookie(k, mode, f);
}

static void memory_target(bool counter, unsigned cap) {
	char *blk = new char[cap];           // ASan guards both ends
	for (unsigned i = 0; i < cap; ++i) blk[i] = char(0x5a + i * 7);
	std::string mirror(blk, cap);
	unsigned start = counter? rnd(cap + 1): 0, ext = start;
	std::unique_ptr<EmitterMemoryOutput> o;
	if (counter) o.reset(new EmitterMemoryOutput(blk, cap, &ext)); else o.reset(new EmitterMemoryOutput(blk, cap));
	EmitterOutput &e = *o;
	unsigned pos = start;
	std::string log = "memory block of " + num(cap) + (counter? " counter at " + num(start): "") + " writes";
	for (unsigned k = 0, n = 1 + rnd(8); k < n; ++k) {
		unsigned len;
		switch (rnd(6)) {
		case 0: len = 0; break;
		case 1: len = cap - pos; break;
		case 2: len = cap - pos + 1; break;
		case 3: len = rnd(cap + 3); break;
		default: len = rnd(5); break;
		}
		std::string d = bytes(len);
		log += " " + num(len);
		begin(log);
		bool thrown = false;
		unsigned r = 0;
		try { r = e.Write(d.data(), len); } catch (const std::exception &) { thrown = true; }
		bool fits = len <= cap - pos;
		check(thrown == !fits, "P05", fits? "write that fits was refused": "write that does not fit was accepted");
		if (!thrown) {
			check(r == len, "P05", "wrong count returned: " + num(r));
			if (fits) { memcpy(&mirror[0] + pos, d.data(), len); pos += len; }
		}
		check(mirror == std::string(blk, cap), "P05", "wrong contents of the block");
		check(e.NumBytesWritten() == pos, "P05", "NumBytesWritten " + num(e.NumBytesWritten()) + " instead of " + num(pos));
		if (counter) check(ext == pos, "P05", "counter " + num(ext) + " instead of " + num(pos));
	}
	// a length that wraps around
	if (pos) {
		begin(log + " then a write of 2^32-" + num(pos));
		bool thrown = false;
		char one = 1;
		try { e.Write(&one, 0u - pos); } catch (const std::exception &) { thrown = true; }
		check(thrown, "P05", "write that does not fit was accepted");
		check(mirror == std::string(blk, cap), "P05", "wrong contents of the block");
	}
	o.reset();
	delete[] blk;
}

static void stream_target(int kind) {
	ShortBuf sb;
	Cookie ck;
	FILE *f = 0;
	std::string want, log = kind == 0? "streambuf": "file";
	shared_ptr<EmitterOutput> o;
	if (kind == 0) o = CreateEmitterOutput(&sb);
	else { f = cfile(&ck, "w"); o = CreateEmitterOutput(f); }
	unsigned count = 0;
	for (unsigned k = 0, n = 1 + rnd(12); k < n; ++k) {
		std::string d = bytes(rnd(4) == 0? rnd(3000): rnd(12));
		unsigned exp = d.size();
		if (kind == 0 && rnd(3) == 0) sb.quota = rnd(d.size() + 2); else sb.quota = ~0u;
		if (exp > sb.quota) exp = sb.quota;
		log += " " + num(d.size()) + "/" + num(exp);
		begin(log);
		unsigned r = o->Write(d.data(), d.size());
		check(r == exp, "P05", "wrong count returned: " + num(r) + " instead of " + num(exp));
		want.append(d, 0, exp);
		count += exp;
		check(o->NumBytesWritten() == count, "P05", "NumBytesWritten " + num(o->NumBytesWritten()) + " instead of " + num(count));
		if (rnd(3) == 0) {
			sb.synced = false;
			o->Flush();
			if (kind == 0) check(sb.synced, "P05", "Flush did not reach the stream");
			check((kind == 0? sb.got: ck.got) == want, "P05", "bytes missing or changed at the target after Flush");
		}
	}
	o->Flush();
	check((kind == 0? sb.got: ck.got) == want, "P05", "bytes missing or changed at the target");
	o.reset();
	if (f) {
		// still the caller's file
		check(fputc('x', f) == 'x' && fflush(f) == 0 && ck.got == want + "x", "P05", "the caller's file was closed or changed");
		fclose(f);
	}
}

// a file that stops taking data: the count must say so
static void full_file() {
	Cookie ck;
	FILE *f = cfile(&ck, "w");
	setvbuf(f, 0, _IONBF, 0);
	EmitterFileOutput o(f, false);
	for (int i = 0; i < 6; ++i) {
		ck.fail = i >= 3;
		std::string d = bytes(1 + rnd(50));
		begin("unbuffered file, write " + num(i) + " of " + num(d.size()) + (ck.fail? " (device full)": ""));
		size_t before = ck.got.size();
		unsigned r = o.Write(d.data(), d.size());
		check(r == ck.got.size() - before, "P05", "wrong count returned: " + num(r));
		check(o.NumBytesWritten() == ck.got.size(), "P05", "NumBytesWritten");
	}
	fclose(f);
}

static std::string slurp(const char *fn) {
	std::string s;
	FILE *f = fopen(fn, "r");
	if (!f) return "<cannot open>";
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}

static Variant value(int depth) {
	switch (rnd(depth > 3? 5: 8)) {
	case 0: return Variant();
	case 1: return Variant(rnd(2) == 0);
	case 2: return Variant((intmax_t)rnd());
	case 3: return Variant(rnd(1000) / 8.0);
	case 4: { std::string s; for (unsigned i = rnd(rnd(9) == 0? 900: 9); i; --i) s += char('a' + rnd(26)); return Variant(s); }
	case 5: case 6: { Variant l(VariantDefines::ListType); for (unsigned i = rnd(6); i; --i) l.Append(value(depth + 1)); return l; }
	default: { Variant m(VariantDefines::MapType); for (unsigned i = rnd(6); i; --i) m["k" + num(rnd(20))] = value(depth + 1); return m; }
	}
}
static Variant document() {
	Variant l(VariantDefines::ListType);
	for (unsigned i = rnd(8); i; --i) l.Append(value(1));
	return l;
}

// every way of serialising gives the same bytes
static void same_everywhere() {
	Variant v = rnd(3)? document(): value(1);
	std::string ref = SerializeJSON(v);
	begin("serialise to every target: " + show(ref, 200));
	std::ostringstream oss;
	SerializeJSON(oss.rdbuf(), v);
	check(oss.str() == ref, "P05", "stream and string output differ");
	SerializeJSON(std::string("out.json"), v);
	check(slurp("out.json") == ref, "P05", "file name and string output differ: " + num(slurp("out.json").size()) + " and " + num(ref.size()) + " bytes");
	FILE *f = fopen("out2.json", "w");
	SerializeJSON(f, v);
	fclose(f);
	check(slurp("out2.json") == ref, "P05", "FILE and string output differ");
	for (int d = -2; d <= 2; ++d) {
		if ((int)ref.size() + d < 0) continue;
		unsigned cap = ref.size() + d;
		char *blk = new char[cap];
		bool thrown = false;
		unsigned n = 0;
		begin("serialise into " + num(cap) + " bytes: " + show(ref, 200));
		try { n = SerializeJSON(blk, cap, v); } catch (const std::exception &) { thrown = true; }
		check(thrown == (d < 0), "P05", thrown? "output that fits was refused": "output that does not fit was accepted");
		if (!thrown) {
			check(n == ref.size(), "P05", "memory output reports " + num(n) + " bytes instead of " + num(ref.size()));
			if (n == ref.size()) check(std::string(blk, n) == ref, "P05", "memory and string output differ");
		}
		delete[] blk;
	}
	// reading back from every source
	if (!v.IsList() && !v.IsMap()) return;
	Cookie ck;
	ck.src = ref;
	ck.chunk = 1 + rnd(40);
	FILE *r = cfile(&ck, "r");
	check(DeserializeJSONFile(r) == v, "P06", "read back from FILE differs");
	fclose(r);
	check(DeserializeJSONFile("out.json") == v, "P06", "read back from file name differs");
	std::istringstream iss(ref);
	check(DeserializeJSONFile(iss.rdbuf()) == v, "P06", "read back from stream differs");
	char *exact = new char[ref.size()];
	memcpy(exact, ref.data(), ref.size());
	check(DeserializeJSON(exact, ref.size()) == v, "P06", "read back from memory differs");
	delete[] exact;
}

// ---------------------------------------------------------------- sources
struct ChunkInput: ParserStreamInput {
	std::string src;
	size_t pos;
	unsigned style;
	bool err;
	ChunkInput(unsigned n, const std::string &s, unsigned st): ParserStreamInput(n), src(s), pos(0), style(st), err(false) {}
	unsigned Read(void *ptr, unsigned len) {
		if (len == 0) { fail("P06", "source asked for zero bytes", cur()); return 0; }
		if (err && rnd(4) == 0) throw std::runtime_error("read error");
		unsigned n = len;
		if (style == 1) n = 1;
		if (style == 2) n = 1 + rnd(len);
		if (style == 3 && len > 3) n = 3;
		if (n > src.size() - pos) n = src.size() - pos;
		memset(ptr, 0xee, len);
		memcpy(ptr, src.data() + pos, n);
		pos += n;
		return n;
	}
};
struct ChunkBuf: std::streambuf {
	std::string src;
	size_t pos;
	unsigned chunk;
	ChunkBuf(): pos(0), chunk(~0u) {}
	std::streamsize xsgetn(char *p, std::streamsize n) {
		if (n > (std::streamsize)chunk) n = chunk;
		if (n > (std::streamsize)(src.size() - pos)) n = src.size() - pos;
		memcpy(p, src.data() + pos, n);
		pos += n;
		return n;
	}
	int_type underflow() { if (pos >= src.size()) return EOF; return (unsigned char)src[pos]; }
	int_type uflow() { if (pos >= src.size()) return EOF; return (unsigned char)src[pos++]; }
};

static void drive(ParserInput &in, const std::string &src, const std::string &what, bool memory, bool err, unsigned big) {
	size_t done = 0;
	std::string log = what + " of " + num(src.size()) + " bytes:";
	unsigned held = 0;
	for (unsigned k = 0, n = 4 + rnd(60); k < n; ++k) {
		unsigned want;
		switch (rnd(5)) {
		case 0: want = 0; break;
		case 1: want = 1; break;
		case 2: want = rnd(big); break;
		case 3: want = held + rnd(3); break;
		default: want = rnd(src.size() + 3); break;
		}
		if (log.size() < 600) log += " get " + num(want);
		begin(log);
		unsigned len = want;
		const char *p;
		try {
			p = (const char*)in.GetPtr(len);
		} catch (const std::exception &e) {
			check(err, "P06", std::string("exception while reading: ") + e.what());
			continue;
		}
		if (!p) {
			check(done == src.size(), "P06", "end reported with " + num(src.size() - done) + " bytes left");
			if (rnd(3) == 0) return;
			continue;
		}
		check(len > 0, "P06", "pointer without bytes");
		if (len > src.size() - done) { fail("P06", "more bytes than the source has: " + num(len), cur()); return; }
		check(memcmp(p, src.data() + done, len) == 0, "P06", "wrong bytes at position " + num(done));
		if (!memory || true) check(len >= want || done + len == src.size(), "P06", "only " + num(len) + " of " + num(want) + " bytes offered before the end");
		held = len;
		unsigned rel;
		switch (rnd(5)) {
		case 0: rel = 0; break;
		case 1: rel = len; break;
		case 2: rel = 1; break;
		default: rel = rnd(len + 1); break;
		}
		if (log.size() < 600) log += " release " + num(rel);
		begin(log);
		in.Release(rel);
		done += rel;
		held -= rel;
		if (!memory && rnd(6) == 0) {
			bool t = false;
			try { in.Release(held + 1 + rnd(5)); } catch (const std::exception &) { t = true; }
			check(t, "P06", "releasing more than is held was accepted");
		}
	}
	// drain
	for (;;) {
		unsigned len = rnd(20);
		const char *p;
		try { p = (const char*)in.GetPtr(len); } catch (const std::exception &) { if (err) continue; fail("P06", "exception while draining", cur()); return; }
		if (!p) break;
		if (len == 0 || len > src.size() - done || memcmp(p, src.data() + done, len)) { fail("P06", "wrong bytes while draining at " + num(done), cur()); return; }
		in.Release(len);
		done += len;
	}
	check(done == src.size(), "P06", "source ended after " + num(done) + " bytes");
}

static void sources() {
	unsigned size = rnd(3) == 0? rnd(2000): rnd(60);
	std::string src = bytes(size);
	{
		unsigned bl = rnd(4) == 0? 1 + rnd(100): 1 + rnd(12), style = rnd(4);
		ChunkInput in(bl, src, style);
		drive(in, src, "stream input, buffer " + num(bl) + ", reads of style " + num(style), false, false, 40);
	}
	if (rnd(3) == 0) {
		unsigned bl = 1 + rnd(12);
		ChunkInput in(bl, src, 2);
		in.err = true;
		drive(in, src, "failing stream input, buffer " + num(bl), false, true, 40);
	}
	{
		char *blk = new char[size];
		memcpy(blk, src.data(), size);
		ParserMemoryInput in(blk, size);
		drive(in, src, "memory input", true, false, 40);
		delete[] blk;
	}
	{
		shared_ptr<ParserInput> in = CreateParserInput(src);
		drive(*in, src, "string input", true, false, 40);
	}
	if (rnd(4) == 0) src += bytes(rnd(30000));
	{
		Cookie ck;
		ck.src = src;
		if (rnd(2)) ck.chunk = 1 + rnd(300);
		FILE *f = cfile(&ck, "r");
		if (rnd(2)) setvbuf(f, 0, _IONBF, 0);
		shared_ptr<ParserInput> in = CreateParserInputFile(f);
		drive(*in, src, "file input, chunks of " + num(ck.chunk), false, false, 20000);
		in.reset();
		fclose(f);
	}
	{
		ChunkBuf sb;
		sb.src = src;
		if (rnd(2)) sb.chunk = 1 + rnd(9000);
		shared_ptr<ParserInput> in = CreateParserInputFile(&sb);
		drive(*in, src, "stream buffer input, chunks of " + num(sb.chunk), false, false, 20000);
	}
}

static void read_error() {
	Cookie ck;
	ck.src = "[1,2";
	FILE *f = cfile(&ck, "r");
	setvbuf(f, 0, _IONBF, 0);
	ParserFileInput in(f);
	begin("file input with a read error after 4 bytes");
	unsigned len = 4;
	const char *p = (const char*)in.GetPtr(len);
	check(p && len == 4, "P06", "bytes before the error");
	if (p) in.Release(len);
	ck.fail = true;
	bool t = false;
	len = 1;
	try { in.GetPtr(len); } catch (const std::exception &) { t = true; }
	(void)t;
	fclose(f);
}

// several documents behind one another in one input
static void sequence() {
	std::vector<Variant> vs;
	std::string all;
	std::vector<size_t> at;
	for (unsigned i = 0, n = 1 + rnd(5); i < n; ++i) {
		Variant v = document();
		vs.push_back(v);
		all += SerializeJSON(v);
		at.push_back(all.size());
		if (rnd(2)) all += "\n";
	}
	begin("documents in sequence: " + show(all, 400));
	ChunkInput in(1 + rnd(30), all, rnd(4));
	struct Holder: ParserInput {
		ParserInput &i;
		size_t n;
		Holder(ParserInput &x): i(x), n(0) {}
		const void *GetPtr(unsigned &len) { return i.GetPtr(len); }
		void Release(unsigned len) { n += len; i.Release(len); }
	};
	shared_ptr<Holder> h(new Holder(in));
	for (size_t i = 0; i < vs.size(); ++i) {
		Variant v;
		Parser p = JSONParser(h);
		try { v = ParseVariant(p); } catch (const std::exception &e) { fail("P06", std::string("document ") + num(i) + " not read: " + e.what(), cur()); return; }
		check(v == vs[i], "P06", "document " + num(i) + " differs");
		check(h->n == at[i], "P06", "after document " + num(i) + " the input stands at " + num(h->n) + " instead of " + num(at[i]));
	}
}

int main(int argc, char **argv) {
	init(argc, argv);
	for (int r = 0; r < 6000 * g_scale; ++r) {
		memory_target(rnd(2), rnd(4) == 0? rnd(3000): rnd(24));
		stream_target(rnd(2));
		sources();
		if (r % 8 == 0) { sequence(); full_file(); }
		if (r % 16 == 0) same_everywhere();
		if (r == 0) read_error();
	}
	return finish();
}
