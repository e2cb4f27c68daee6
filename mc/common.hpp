#pragma once
#include "mc.hpp"
#include "model.hpp"
#include <stdlib.h>
#include <string.h>

using namespace sm;
using mc::choose;
using mc::choosed;

// bytes in an allocation of exactly their size, so that the sanitizer sees
// every access beyond them
struct Exact {
	unsigned char *p;
	size_t n;
	explicit Exact(const std::string &s) : p((unsigned char *)malloc(s.size())), n(s.size()) {
		if (n)
			memcpy(p, s.data(), n);
	}
	~Exact() { free(p); }
	Exact(const Exact &) = delete;
};

inline void leakcheck(const char *what, const std::string &in) {
	if (mc::track_live())
		mc::softfail("%s leaks %ld blocks (%zu bytes), input %s", what, mc::track_live(),
					 mc::track_bytes(), mc::hex(in).c_str());
}

// parses a file with the library and gives what it delivered
inline std::vector<Node> libparse(const std::string &bytes, bool leaks = true) {
	mc::track_reset();
	std::vector<Node> r;
	{
		Exact e(bytes);
		sml_file *f = LIB(sml_file_parse(e.p, e.n));
		if (!f)
			mc::fail("no file");
		if (memcmp(e.p, bytes.data(), bytes.size()))
			mc::fail("parsing changed the input");
		r = ext(f);
		LIB(sml_file_free(f));
	}
	if (leaks)
		leakcheck("parsing and freeing", bytes);
	return r;
}

inline void expect(const std::vector<Node> &got, const std::vector<Node> &want,
				   const std::string &bytes, const char *what) {
	if (got == want)
		return;
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i])
		i++;
	mc::fail("%s: %zu messages delivered, %zu expected; message %zu: got %.900s, expected %.900s; input %s",
			 what, got.size(), want.size(), i, i < got.size() ? dump(got[i]).c_str() : "none",
			 i < want.size() ? dump(want[i]).c_str() : "none", mc::hex(bytes, 700).c_str());
}

// ------------------------------------------------------------------ generators
inline Node parent(const char *name, Node &&child) {
	Node n = list(TREE, {oct(name), null(PPV)});
	n.c.push_back(std::move(child));
	return n;
}
inline std::string bytes_of(int n, int seed) {
	std::string s;
	for (int i = 0; i < n; i++)
		s += (char)(seed + i * 7);
	return s;
}
struct Gen {
	bool sizes = true;     // lists and strings around the header boundaries
	bool emptyoct = true;  // present but empty strings
	bool notag = true;     // times without tag
	int v = 0;

	uint64_t altnum(bool sign, int w, int i) {
		// boundary patterns of every number of bytes
		static const uint64_t pat[] = {0,      1,      0x7f,     0x80,      0xff,      0x100,     0x7fff,
									   0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff, 0x1000000};
		uint64_t x;
		if (i < 14)
			x = pat[i];
		else if (i == 14)
			x = ~0ull;
		else if (i == 15)
			x = 1ull << (8 * w - 1);
		else if (i == 16)
			x = (1ull << (8 * w - 1)) - 1;
		else if (i == 17)
			x = 0x8000000000000000ull >> (64 - 8 * w + 8);
		else
			x = 0x0123456789abcdefull >> (i & 7);
		int sh = 64 - 8 * w;
		x <<= sh;
		return sign ? (uint64_t)((int64_t)x >> sh) : x >> sh;
	}
	static const int NALT = 19;

	Node gen(Kind k, int v, int depth = 0) {
		auto S = [&] { return sample(k, v); };
		switch (k) {
		case OCT: {
			static const int len[] = {1, 6, 13, 14, 15, 16, 29, 30, 252, 253, 254, 255, 256};
			int i = choosed(2 + (emptyoct ? 1 : 0) + (sizes ? 13 : 4));
			if (i == 0)
				return S();
			if (i == 1)
				return null(k);
			i -= 2;
			if (emptyoct) {
				if (i == 0)
					return oct("");
				i--;
			}
			return oct(bytes_of(len[i], v));
		}
		case BOOL: {
			int i = choosed(3);
			return i == 0 ? S() : i == 1 ? boolean(!S().n) : null(k);
		}
		case STATUS: {
			int i = choosed(2 + 4 * 8);
			if (i == 0)
				return S();
			if (i == 1)
				return null(k);
			i -= 2;
			int w = 1 << (i & 3);
			static const int pick[] = {0, 1, 14, 15, 16, 17, 18, 2};
			return status(altnum(false, w, pick[i >> 2]), w);
		}
		case VALUE: {
			int i = choosed(2 + 2 * 4 * 8 + 6);
			if (i == 0)
				return S();
			if (i == 1)
				return null(k);
			i -= 2;
			if (i < 64) {
				int w = 1 << (i & 3);
				bool sg = i & 4;
				static const int pick[] = {0, 1, 14, 15, 16, 17, 18, 3};
				return vint(sg, altnum(sg, w, pick[i >> 3]), w);
			}
			i -= 64;
			switch (i) {
			case 0: return vbool(true);
			case 1: return vbool(false);
			case 2: return voct("x");
			case 3: return voct(bytes_of(15, v));
			case 4: return voct(bytes_of(255, v));
			default: return emptyoct ? voct("") : voct(bytes_of(10, v));
			}
		}
		case TIME: {
			int i = choosed(9);
			switch (i) {
			case 0: return S();
			case 1: return null(k);
			case 2: return time(1, 0);
			case 3: return time(1, 0xffffffff);
			case 4: return time(2, 0x80000000);
			case 5: return time(2, 0x7f);
			case 6: return time(1, 0xff);
			case 7: return time(0, 0x01020304);
			default: return notag ? list(TIME, {null(U8), num(U32, 77)}) : time(255, 5);
			}
		}
		case PATH: case OBJL: {
			static const int cnt[] = {1, 3, 14, 15, 16, 17, 31};
			int i = choosed(3 + (sizes ? 7 : 2));
			if (i == 0) {
				Node n = S();
				for (size_t j = 0; j < n.c.size(); j++)
					n.c[j] = gen_present_oct(v + (int)j);
				return n;
			}
			if (i == 1)
				return null(k);
			if (i == 2) {
				if (k == PATH)
					return seq(k, {});
				Node n = S();
				n.c[1] = null(OCT); // absent entry in an object list
				return n;
			}
			Node n = seq(k, {});
			for (int j = 0; j < cnt[i - 3]; j++)
				n.c.push_back(sample(OCT, v + j));
			return n;
		}
		case TREE: {
			static const int cnt[] = {0, 1, 15, 16, 17};
			int i = choosed(4 + (sizes ? 5 : 2));
			if (i == 1)
				return null(k);
			if (i == 2) { // nested
				Node n = tree("leaf", ppv(1, sample(VALUE, v)), {});
				for (int j = 0; j < 20; j++)
					n = tree("in", null(PPV), {n});
				return n;
			}
			if (i == 3) {
				Node n = S();
				n.c[0] = null(OCT);
				return n;
			}
			if (i >= 4) {
				Node n = tree("many", null(PPV), {});
				for (int j = 0; j < cnt[i - 4]; j++)
					n.c.push_back(tree(bytes_of(1 + j % 3, j), j & 1 ? null(PPV) : ppv(1, sample(VALUE, j)), {}));
				return n;
			}
			Node n = list(TREE, {gen(OCT, v), gen(PPV, v)});
			n.c.push_back(list(TREE, {gen(OCT, v + 1), gen(PPV, v + 1)}));
			Node in = list(TREE, {gen(OCT, v + 2), gen(PPV, v + 2)});
			n.c.push_back(list(TREE, {oct("c2"), null(PPV), in}));
			return n;
		}
		case PPV: {
			int i = choosed(6);
			if (i == 1)
				return null(k);
			if (i == 2) {
				static const Kind kk[] = {VALUE, PERIOD, TUPEL, TIME};
				int t = choose(4);
				return ppv(t + 1, null(kk[t]));
			}
			int t = (v + (i ? i - 2 : 0)) % 4;
			switch (t) {
			case 0: return ppv(1, gen(VALUE, v));
			case 1: return ppv(4, gen(TIME, v));
			case 2: return ppv(2, gen(PERIOD, v));
			default: return ppv(3, gen(TUPEL, v));
			}
		}
		case VLIST: {
			static const int cnt[] = {1, 3, 14, 15, 16, 17};
			int i = choosed(2 + (sizes ? 6 : 2));
			if (i == 1)
				return null(k);
			if (i >= 2) {
				Node n = seq(k, {});
				for (int j = 0; j < cnt[i - 2]; j++)
					n.c.push_back(sample(VLE, v + j));
				return n;
			}
			return seq(k, {gen(VLE, v), gen(VLE, v + 1)});
		}
		case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ: {
			static const int cnt[] = {0, 1, 3, 15, 16, 17};
			int i = choosed(1 + (sizes ? 6 : 3));
			Kind e = elemkind(k);
			if (i >= 1) {
				Node n = seq(k, {});
				for (int j = 0; j < cnt[i - 1]; j++)
					n.c.push_back(sample(e, v + j));
				return n;
			}
			return seq(k, {gen(e, v), gen(e, v + 1)});
		}
		case PERIOD: case TUPEL:
			if (choosed(2))
				return null(k);
			// fallthrough
		case VLE: case HDR: case PER: case VENT: {
			std::vector<Node> c;
			int j = v;
			for (Kind f : seqfields(k))
				c.push_back(gen(f, j++, depth + 1));
			return list(k, c);
		}
		default: {
			int i = choosed(2 + NALT);
			if (i == 0)
				return S();
			if (i == 1)
				return null(k);
			return num(k, altnum(numsigned(k), numwidth(k), i - 2));
		}
		}
	}
	Node gen_present_oct(int v) {
		static const int len[] = {1, 14, 15, 16};
		int i = choosed(5);
		return i ? oct(bytes_of(len[i - 1], v)) : sample(OCT, v);
	}
	Node message(uint32_t tag, int v) {
		std::vector<Node> f;
		int i = v;
		for (Kind k : *bodyfields(tag))
			f.push_back(gen(k, i++));
		Node m = msg("tid", tag, f);
		m.c[0] = gen(OCT, v);
		m.c[1] = gen(U8, v);
		m.c[2] = gen(U8, v + 1);
		return m;
	}
};

// encoding choices explored by the checker
struct EncMC : Enc {
	int intlen(const Node &, int minimal, int full) override {
		return full - choosed(full - minimal + 1);
	}
	int tlx(Kind) override { return choosed(3); }
	int timeform(const Node &n) override {
		if (!n.c[0].null && n.c[0].n == 1 && !n.c[1].null)
			return choosed(2);
		return 0;
	}
	uint8_t truebyte() override {
		static const uint8_t b[] = {0xff, 0x01, 0x80, 0x7f};
		return b[choosed(4)];
	}
};
