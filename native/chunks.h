// An input that comes in random pieces.
#ifndef VERIF_CHUNKS_H
#define VERIF_CHUNKS_H
#include "h.h"
#include <Variant/ParserInput.h>
using namespace libvariant;
using namespace vh;

struct Chunks : ParserStreamInput {
	std::string d;
	size_t at;
	unsigned most;
	Chunks(const std::string &s, unsigned buf, unsigned m) : ParserStreamInput(buf), d(s), at(0), most(m) {}
	unsigned Read(void *p, unsigned n) {
		if (n > most) n = 1 + rnd(most);
		if (n > d.size() - at) n = d.size() - at;
		memcpy(p, d.data() + at, n);
		at += n;
		return n;
	}
};
static std::string rest(ParserInput *in) {
	std::string r;
	for (;;) {
		unsigned n = 0;
		const char *p = (const char*)in->GetPtr(n);
		if (!p) return r;
		r.append(p, n);
		in->Release(n);
	}
}
#endif
