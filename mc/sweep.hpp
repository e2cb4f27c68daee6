// Every leaf of a message set to every value of a broad alphabet: contents,
// widths and lengths that matter to nobody but a mistake.
#pragma once
#include "mut.hpp"

inline void leaves(Node &n, std::vector<Node *> &out) {
	switch (n.k) {
	case OCT: case BOOL: case STATUS: case VALUE: case TIME:
	case U8: case U16: case U32: case U64: case I8: case I16: case I32: case I64:
		out.push_back(&n);
		return;
	default:
		for (Node &c : n.c)
			leaves(c, out);
	}
}
inline uint64_t fold(uint64_t x, bool sign, int w) {
	int sh = 64 - 8 * w;
	x <<= sh;
	return sign ? (uint64_t)((int64_t)x >> sh) : x >> sh;
}
// every value of a byte at every position, the others 00 or ff
inline int nbytes_(int w) { return w == 1 ? 256 : w == 2 ? 4 * 256 : w * 2 * 48; }
inline uint64_t byteval(int w, int i) {
	if (w == 1)
		return (uint64_t)i;
	int per = w == 2 ? 256 : 48, b = i % per;
	i /= per;
	if (w > 2) // boundary values
		b = b < 16 ? b : b < 24 ? 1 << (b - 16) : b < 32 ? 0xff >> (b - 24) : b < 40 ? 0xff & ~(1 << (b - 32)) : 0x1b * (b - 39) & 0xff;
	uint64_t fill = i & 1 ? ~0ull : 0;
	int pos = i >> 1;
	return (fill & ~(0xffull << 8 * pos)) | (uint64_t)b << 8 * pos;
}
static const char *oddstr[] = {
	"\x04""\x1b\x1b\x1b\x1b", "\x08""\x1b\x1b\x1b\x1b\x1a\x00\x00\x00", "\x08""\x1b\x1b\x1b\x1b\x01\x01\x01\x01", "\x08""\x00\x00\x00\x00\x00\x00\x00\x00",
	"\x08""\xff\xff\xff\xff\xff\xff\xff\xff", "\x0f""\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\x03""\x01\x01\x01", "\x05""%s%n\x00",
	"\x06""\x01\x00\x60\x01\x00\xff", "\x0a""\x0a\x01""DZG\x00\x02\x88\x00\x00", "\x06""\x81\x81\xc7\x82\x03\xff", "\x03""DZG",
	// the transport layer's sequences mean nothing within a message
	"\x07""\x1b\x1b\x1b\x1b\x1b\x1b\x1b", "\x08""\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b", "\x0a""a\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b""b", "\x0c""\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b",
	"\x10""\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b", "\x0d""xyz\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1bzy", "\x0a""a\x1b\x1b\x1b\x1b\x01\x01\x01\x01""b", "\x0a""a\x1b\x1b\x1b\x1b\x1a\x01\x02\x03""b", "\x0a""a\x1b\x1b\x1b\x1b\x02\x00\x00\x00""b",
	"\x05""\x76\x01\x62\x00\x62", "\x04""a\x00""b\x00", "\x04""\x00\x00\x00""a", "\x04""   a", "\x04""a\r\n ", "\x04""\xef\xbb\xbf""a"};
static const int NODD = sizeof(oddstr) / sizeof(*oddstr);
inline int nsweep(Kind k) {
	switch (k) {
	case OCT: return 1 + 272 + 3 * 256 + NODD;
	case BOOL: return 3;
	case STATUS: return 1 + 256 + 1024 + 4 * 96 + 8 * 96;
	case VALUE: return 1 + 2 * (256 + 1024 + 4 * 96 + 8 * 96) + 2 + 80 + 256;
	case TIME: return 1 + 6 * 4 * 96 + 256 + 1;
	default: return 1 + nbytes_(numwidth(k));
	}
}
inline std::string sweepstr(int i) {
	if (i < 272)
		return bytes_of(i, i);
	i -= 272;
	if (i < 256)
		return std::string(1, (char)i);
	i -= 256;
	if (i < 256)
		return std::string(1, (char)i) + std::string(1, 0);
	i -= 256;
	if (i < 256)
		return std::string("\x01\x00\x01\x08\x00", 5) + (char)i;
	return std::string(oddstr[i - 256] + 1, (unsigned char)oddstr[i - 256][0]);
}
inline Node sweepint(bool sign, int i, Kind k) {
	for (int w = 1; w <= 8; w *= 2) {
		if (i < nbytes_(w)) {
			uint64_t v = fold(byteval(w, i), sign, w);
			return k == STATUS ? status(v, w) : vint(sign, v, w);
		}
		i -= nbytes_(w);
	}
	abort();
}
inline Node sweep(Kind k, int i) {
	if (i-- == 0)
		return null(k);
	static const int ints = 256 + 1024 + 4 * 96 + 8 * 96;
	switch (k) {
	case OCT: return oct(sweepstr(i));
	case BOOL: return boolean(i);
	case STATUS: return sweepint(false, i, k);
	case VALUE:
		if (i < 2 * ints)
			return sweepint(i >= ints, i % ints, k);
		i -= 2 * ints;
		if (i < 2)
			return vbool(i);
		i -= 2;
		return voct(i < 80 ? sweepstr(i) : std::string(1, (char)(i - 80)));
	case TIME:
		if (i == 6 * 4 * 96 + 256)
			return time(2, 0);
		if (i >= 6 * 4 * 96)
			return time((uint8_t)(i - 6 * 4 * 96), 0x01020304);
		{
			static const int tag[] = {1, 2, 0, 3, 255};
			uint32_t at = (uint32_t)byteval(4, i % (4 * 96));
			int t = i / (4 * 96);
			return t < 5 ? time((uint8_t)tag[t], at) : list(TIME, {null(U8), num(U32, at)});
		}
	default:
		return num(k, fold(byteval(numwidth(k), i), numsigned(k), numwidth(k)));
	}
}
inline bool inpath(const Node &n, const Node *x) {
	for (auto &c : n.c)
		if ((&c == x && n.k == PATH) || inpath(c, x))
			return true;
	return false;
}
// one leaf of m, every value; false: not part of the space
inline bool sweepleaf(Node &m, int step = 1) {
	std::vector<Node *> l;
	leaves(m, l);
	Node *x = l[choose((int)l.size())];
	int n = nsweep(x->k), i = choose((n + step - 1) / step) * step;
	Node old = *x;
	*x = sweep(x->k, i < n ? i : n - 1);
	if (x->k == OCT && (x->null || x->s.empty()) && inpath(m, x)) { // a path has no absent entries
		*x = old;
		mc::discard();
		return false;
	}
	return true;
}
// every field of a structure in each of four states
inline Node state(Kind k, int v, int s) {
	if (s == 1)
		return null(k);
	if (s == 2 || s == 3)
		switch (k) {
		case OCT: return oct(std::string(s - 1, s == 2 ? 0 : (char)0xff));
		case BOOL: return boolean(s == 3);
		case STATUS: return s == 2 ? status(0, 1) : status(~0ull, 8);
		case VALUE: return s == 2 ? vint(false, 0, 1) : vint(true, ~0ull, 8);
		case TIME: return s == 2 ? time(1, 0) : time(2, 0xffffffff);
		case PPV: return s == 2 ? ppv(1, vbool(false)) : ppv(4, time(1, 0));
		case PATH: return s == 2 ? seq(PATH, {}) : seq(PATH, {oct(std::string(1, 0))});
		case TREE: return s == 2 ? tree(std::string(1, 0), null(PPV), {}) : tree("t", ppv(1, vint(false, 0, 1)), {tree("u", null(PPV), {})});
		case OBJL: return s == 2 ? seq(OBJL, {oct(std::string(1, 0))}) : seq(OBJL, {oct("a"), null(OCT), oct("b")});
		case VLIST: case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ: {
			Node x = seq(k, {});
			for (int i = 0; i < (s == 2 ? 1 : 16); i++)
				x.c.push_back(sample(elemkind(k), i));
			return x;
		}
		case PERIOD: case TUPEL: case VLE: case HDR: case PER: case VENT: return sample(k, s);
		default: return num(k, s == 2 ? 0 : fold(~0ull, numsigned(k), numwidth(k)));
		}
	return sample(k, v);
}
inline bool nullable(Kind k) { return !(k == VENTSEQ || k == PSEQ || k == HDRSEQ || k == PERSEQ); }
// a message that has a structure of kind k, twice where it can
inline Node holding(Kind k, const Node &x) {
	Node m;
	switch (k) {
	case VLE: m = compact(0x701, 0); m.c[3].c[4] = seq(VLIST, {x, x}); break;
	case HDR: m = compact(0x301, 0); m.c[3].c[4] = seq(HDRSEQ, {x, x}); break;
	case PER: m = compact(0x301, 0); m.c[3].c[5] = seq(PERSEQ, {x, x}); break;
	case VENT: m = compact(0x301, 0); m.c[3].c[5].c[0].c[2] = seq(VENTSEQ, {x, x}); break;
	case PERIOD: m = compact(0x401, 0); m.c[3].c[6] = seq(PSEQ, {x, x}); break;
	default: m = compact(0xff01, 0); m.c[3].c[3] = tree("t", ppv(3, x), {}); break;
	}
	return m;
}
// a message with every combination of four states (two of them deviations where there are many fields) of the fields of one structure
inline Node statemsg() {
	static const Kind ks[] = {VLE, HDR, PER, VENT, PERIOD, TUPEL};
	int w = choose(6 + 14);
	auto fields = [](const std::vector<Kind> &f) {
		std::vector<Node> c;
		int i = 0;
		for (Kind k : f) {
			int s = f.size() <= 7 ? choose(4) : choosed(4);
			if (s == 1 && !nullable(k))
				mc::discard();
			c.push_back(s == 1 && !nullable(k) ? sample(k, i) : state(k, i, s));
			i++;
		}
		return c;
	};
	if (w < 6)
		return holding(ks[w], list(ks[w], fields(seqfields(ks[w]))));
	return msg("t", tags[w - 6], fields(*bodyfields(tags[w - 6])));
}
// a message with two elements in every sequence (alike, as all leaves of a kind are), up to
// `budget` leaves of which are absent, have another value or an extreme one
inline Node alikemsg(uint32_t tag) {
	Node m = samplemsg(tag, 0);
	std::function<void(Node &)> fill = [&](Node &n) {
		if (n.k == VLIST || n.k == HDRSEQ || n.k == PERSEQ || n.k == VENTSEQ || n.k == PSEQ || n.k == OBJL) {
			Node e = sample(elemkind(n.k), 0);
			n = seq(n.k, {e, e});
		}
		for (Node &c : n.c)
			fill(c);
	};
	fill(m.c[3]);
	std::vector<Node *> l;
	leaves(m, l);
	for (Node *x : l)
		*x = sample(x->k, 0);
	for (Node *x : l)
		switch (choosed(4)) {
		case 1:
			if (!inpath(m, x))
				*x = null(x->k);
			break;
		case 2: *x = sample(x->k, 1); break;
		case 3: *x = state(x->k, 0, 3); break;
		}
	return m;
}
// messages of every kind with a boolean (in every place one can be), sent as every byte value
inline bool boolmsg(Node &m, std::string &b) {
	m = compact(tags[choose(14)], 0);
	if (choose(2))
		m = samplemsg(m.c[3].n, 0);
	std::vector<Node *> l;
	leaves(m, l);
	Node *x = l[choose((int)l.size())];
	int v = choose(256);
	if (x->k == BOOL)
		*x = boolean(v != 0);
	else if (x->k == VALUE)
		*x = vbool(v != 0);
	else {
		mc::discard();
		return false;
	}
	struct E : Enc {
		uint8_t v;
		uint8_t truebyte() override { return v; }
	} e;
	e.v = v ? (uint8_t)v : 0xff;
	emit(lower(m, e), b);
	return true;
}
