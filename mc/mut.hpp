// Structural mutations of wire trees: the ways in which the bytes of an
// element can fail to follow the structure its place requires.
#pragma once
#include "common.hpp"

static const int NMUT = 45;

inline W rawW(const std::string &s) {
	W w;
	w.raw = true;
	w.data = s;
	return w;
}
#define RAW(lit) rawW(std::string(lit, sizeof(lit) - 1))

// applies mutation m to x (child idx of parent p); false: does not apply here
inline bool mutate1(W &x, W *p, int idx, int m) {
	if (x.crc) // the checksum is computed; only its presence and form vary
		if (!(m <= 3 || (m >= 4 && m <= 8)))
			return false;
	switch (m) {
	case 0: // left out
		if (!p)
			return false;
		p->kids.erase(p->kids.begin() + idx);
		return true;
	case 1: // left out, but counted
		if (!p)
			return false;
		p->delta++;
		p->kids.erase(p->kids.begin() + idx);
		return true;
	case 2: // twice
		if (!p)
			return false;
		{
			W c = x;
			p->kids.insert(p->kids.begin() + idx, c);
		}
		return true;
	case 3: // swapped with the next one
		if (!p || idx + 1 >= (int)p->kids.size())
			return false;
		std::swap(p->kids[idx], p->kids[idx + 1]);
		return true;
	case 4: x = RAW("\x01"); return true;
	case 5: x = RAW("\x03""AB"); return true;
	case 6: x = RAW("\x62\x05"); return true;
	case 7: x = RAW("\x52\x85"); return true;
	case 8: x = RAW("\x42\x01"); return true;
	case 9: x = RAW("\x70"); return true;
	case 10: x = RAW("\x71\x01"); return true;
	case 11: x = RAW("\x72\x01\x01"); return true;
	case 12: x = RAW("\x00"); return true;
	case 13: x = RAW("\x65\x01\x02\x03\x04"); return true;
	case 14: x = RAW("\x69\x01\x02\x03\x04\x05\x06\x07\x08"); return true;
	case 15: x = RAW("\x59\x81\x02\x03\x04\x05\x06\x07\x08"); return true;
	case 16: x = RAW("\x6a\x01\x02\x03\x04\x05\x06\x07\x08\x09"); return true;
	case 17: x = RAW("\x5a\x01\x02\x03\x04\x05\x06\x07\x08\x09"); return true;
	case 18: x = RAW("\x61"); return true;
	case 19: x = RAW("\x12\x05"); return true; // undefined types
	case 20: x = RAW("\x32\x05"); return true;
	case 21: x = RAW("\x43\x01\x01"); return true;
	case 22: x = RAW("\x41"); return true;
	case 23: x = RAW("\x80\x00"); return true; // length below the header's own
	case 24: x = RAW("\x80\x01"); return true;
	case 25: x = RAW("\x8f\x8f\x8f\x8f\x8f\x8f\x8f\x0f"); return true;
	case 26: x = RAW("\x88\x80\x80\x80\x80\x80\x80\x80\x03""AB"); return true; // 2^28 * 2^4 and 3
	case 27: x = RAW("\xff\x8f\x8f\x8f\x8f\x0f"); return true;
	case 28: x = RAW("\xe8\x80\x80\x80\x80\x80\x80\x80\x02\x05"); return true;
	case 29: x = RAW("\xf8\x80\x80\x80\x80\x80\x80\x80\x00"); return true;
	// the element itself, with another header
	case 30:
		if (x.raw)
			return false;
		x.delta++;
		return true;
	case 31:
		if (x.raw || (x.list ? x.kids.empty() : x.data.empty()))
			return false;
		x.delta--;
		return true;
	case 32:
		if (x.raw)
			return false;
		x.type = x.type == 0x60 ? 0x50 : x.type == 0x50 ? 0x60 : x.type == 0 ? 0x10 : x.type == 0x70 ? 0 : 0x50;
		return true;
	case 33:
		if (x.raw || x.list || x.data.empty())
			return false;
		x.data = x.data.substr(0, 1) + x.data; // one byte more
		return true;
	case 34:
		if (x.raw || x.list || x.data.empty())
			return false;
		x.data.erase(0, 1);
		return true;
	case 35:
		if (x.raw)
			return false;
		x.tlx += 1;
		return true;
	case 36:
		if (x.raw)
			return false;
		x.tlx += 9;
		return true;
	case 37: // a tag or number out of its range
		if (x.raw || x.list || x.data.empty() || (x.type != 0x60 && x.type != 0x50))
			return false;
		x.data.back() = 0;
		return true;
	case 38:
		if (x.raw || x.list || x.data.empty() || (x.type != 0x60 && x.type != 0x50))
			return false;
		x.data = std::string(x.data.size(), (char)0xff);
		return true;
	// a length or count that is right in its low bits only
	case 42:
	case 43:
	case 44:
		if (x.raw)
			return false;
		x.delta += 1l << (m - 41) * 8;
		return true;
	case 40: x = RAW("\x88\x80\x80\x80\x80\x80\x80\x00"); return true; // 2^31
	case 41: x = RAW("\x87\x8f\x8f\x8f\x8f\x8f\x8f\x0f""AB"); return true;
	case 39:
		if (x.raw || x.list || x.data.empty() || (x.type != 0x60 && x.type != 0x50))
			return false;
		x.data[0] = (char)(x.data[0] ^ 1);
		return true;
	}
	return false;
}
inline int countW(W &w) {
	int n = 0;
	walk(w, [&](W &, W *, int) { n++; });
	return n;
}
// one deviation: mutation m of element e
inline bool mutate(W &root, int e, int m) {
	int n = 0;
	W *x = 0, *p = 0;
	int idx = 0;
	walk(root, [&](W &a, W *b, int i) {
		if (n++ == e) {
			x = &a;
			p = b;
			idx = i;
		}
	});
	return x && mutate1(*x, p, idx, m);
}
// up to `budget` mutations
inline bool mutations(W &root) {
	while (mc::budget_left() > 0) {
		int k = choosed(1 + countW(root) * NMUT);
		if (!k)
			break;
		k--;
		if (!mutate(root, k / NMUT, k % NMUT))
			return false;
	}
	return true;
}
// a list ends early: after any number of its elements (the count declared as before,
// or as it is), the last of them replaced, what follows the list kept, or left out up to
// the checksum of the message
inline bool shorten(W &root) {
	std::vector<W *> lists;
	std::vector<std::pair<W *, int>> parent;
	walk(root, [&](W &x, W *p, int i) {
		if (x.list && !x.raw && !x.kids.empty()) {
			lists.push_back(&x);
			parent.push_back({p, i});
		}
	});
	int e = choose((int)lists.size());
	W *x = lists[e];
	int keep = choose((int)x->kids.size()), form = choose(2), rest = choose(2), rep = keep ? choose(13) : 0;
	if (rest) {
		// everything behind the list, up to the checksum
		if (e == 0)
			return false;
		for (int a = e; parent[a].first;) {
			W *p = parent[a].first;
			std::vector<W> k(p->kids.begin(), p->kids.begin() + parent[a].second + 1);
			long gone = (long)p->kids.size() - (long)k.size();
			bool top = p == &root;
			if (top)
				break; // the checksum and the end follow the body
			p->kids.erase(p->kids.begin() + parent[a].second + 1, p->kids.end());
			p->delta += gone;
			for (a = 0; lists[a] != p; a++)
				;
		}
	}
	long gone = (long)x->kids.size() - keep;
	if (x == &root && x->k == MSG) { // the checksum stays
		W c, z;
		for (W &k : x->kids)
			if (k.crc)
				c = k;
		z = x->kids.back();
		x->kids.erase(x->kids.begin() + keep, x->kids.end());
		x->kids.push_back(c);
		x->kids.push_back(z);
		gone = gone >= 2 ? gone - 2 : 0;
	} else
		x->kids.erase(x->kids.begin() + keep, x->kids.end());
	if (form == 0)
		x->delta += gone;
	switch (rep) {
	case 0: break;
	case 1: x->kids[keep - 1] = RAW("\x01"); break;
	case 2: x->kids[keep - 1] = RAW("\x00"); break;
	case 3: x->kids[keep - 1] = RAW("\x62\x05"); break;
	case 4: x->kids[keep - 1] = RAW("\x03""AB"); break;
	case 5: x->kids[keep - 1] = RAW("\x70"); break;
	case 6: x->kids[keep - 1] = RAW("\x71\x01"); break;
	case 7: x->kids[keep - 1] = RAW("\x72\x01\x01"); break;
	case 8: x->kids[keep - 1] = RAW("\x72\x62\x07"); break;
	case 9: x->kids[keep - 1] = RAW("\x63\x09\x00"); break;
	case 10: x->kids[keep - 1] = RAW("\x62\x00"); break;
	case 11: x->kids[keep - 1] = RAW("\x61"); break;
	case 12: x->kids[keep - 1] = RAW("\x42\x01"); break;
	}
	return true;
}
// an element that does not belong there is inserted at any place of any list
// (counted, or not)
static const int NINS = 18;
inline bool insert(W &root) {
	std::vector<W *> lists;
	walk(root, [&](W &x, W *, int) {
		if (x.list && !x.raw)
			lists.push_back(&x);
	});
	if (lists.empty())
		return false;
	W *x = lists[choose((int)lists.size())];
	int at = choose((int)x->kids.size() + 1), counted = choose(2);
	W n;
	switch (choose(NINS)) {
	case 0: n = RAW("\x01"); break;
	case 1: n = RAW("\x00"); break;
	case 2: n = RAW("\x62\x05"); break;
	case 3: n = RAW("\x62\x01"); break;
	case 4: n = RAW("\x62\x02"); break;
	case 5: n = RAW("\x52\x85"); break;
	case 6: n = RAW("\x42\x01"); break;
	case 7: n = RAW("\x03""AB"); break;
	case 8: n = RAW("\x70"); break;
	case 9: n = RAW("\x71\x01"); break;
	case 10: n = RAW("\x72\x01\x01"); break;
	case 11: n = RAW("\x72\x62\x01\x62\x05"); break;
	case 12: n = RAW("\x73\x01\x01\x01"); break;
	case 13: n = RAW("\x65\x01\x02\x03\x04"); break;
	case 14: n = RAW("\x63\x01\x02"); break;
	case 15: n = RAW("\x69\x01\x02\x03\x04\x05\x06\x07\x08"); break;
	case 16: n = RAW("\x77\x01\x01\x01\x01\x01\x01\x01"); break;
	case 17: n = RAW("\x80\x02"); break;
	}
	x->kids.insert(x->kids.begin() + at, n);
	if (!counted)
		x->delta--;
	return true;
}
// any element is replaced by one of any type with 0 to 9 bytes of contents (or
// absent elements), with up to one superfluous header byte
inline bool replace(W &root) {
	int e = choose(countW(root)), n = 0;
	int type = choose(8) << 4, len = choose(10), wide = choose(2), what = choose(2);
	bool ok = false;
	walk(root, [&](W &x, W *, int) {
		if (n++ != e || x.crc)
			return;
		W r;
		r.type = (uint8_t)type;
		r.tlx = wide;
		r.list = type == 0x70;
		for (int i = 0; i < len; i++) {
			if (r.list)
				r.kids.push_back(RAW("\x01"));
			else
				r.data += what ? (char)0xff : (char)(i + 1);
		}
		ok = !r.list || !what;
		x = r;
	});
	return ok;
}
// a small message of each kind that has every structural feature of the kind
inline Node compact(uint32_t tag, int v) {
	auto P = [](Kind k, std::initializer_list<std::pair<int, Node>> set) {
		std::vector<Node> c;
		for (Kind f : seqfields(k))
			c.push_back(null(f));
		for (auto &s : set)
			c[s.first] = s.second;
		return list(k, c);
	};
	auto T = [&](int i) {
		return tree("r", null(PPV), {tree("a", ppv(1, vint(false, 300 + i, 2)), {}),
									 tree("b", ppv(4, time(1, 99)), {})});
	};
	std::vector<Node> f;
	for (Kind k : *bodyfields(tag))
		switch (k) {
		case OCT: f.push_back(f.size() & 1 ? null(OCT) : oct(std::string("s") + (char)('0' + v))); break;
		case TREE: f.push_back(T(v)); break;
		case VLIST:
			f.push_back(seq(VLIST, {P(VLE, {{0, oct("n")}, {1, status(0x1234, 2)}, {2, time(1, 7)}, {3, num(U8, 30)},
											{4, num(I8, (uint64_t)-1)}, {5, vint(true, (uint64_t)-5, 4)}, {6, oct("g")}}),
									P(VLE, {{0, oct("m")}, {5, voct("ab")}}),
									P(VLE, {{0, oct("m")}, {5, vbool(true)}})}));
			break;
		case HDRSEQ: f.push_back(seq(HDRSEQ, {P(HDR, {{0, oct("h")}, {1, num(U8, 3)}}), P(HDR, {{2, num(I8, 4)}})})); break;
		case VENTSEQ: break;
		case PERSEQ: {
			Node p = list(PER, {time(1, 3), num(U64, 9), seq(VENTSEQ, {P(VENT, {{0, vint(false, 7, 1)}}), P(VENT, {{1, oct("q")}})}), null(OCT)});
			f.push_back(seq(PERSEQ, {p}));
			break;
		}
		case PSEQ:
			f.push_back(seq(PSEQ, {P(PERIOD, {{0, oct("o")}, {3, vint(false, 77, 4)}}), P(PERIOD, {{4, oct("z")}})}));
			break;
		case PATH: f.push_back(seq(PATH, {oct("p"), oct("q")})); break;
		case OBJL: f.push_back(seq(OBJL, {oct("x"), oct("y")})); break;
		default: f.push_back(sample(k, v));
		}
	if (tag == 0xff01) // tupel and period entries in a tree
		f.back() = tree("t", ppv(3, sample(TUPEL, v)), {tree("u", ppv(2, P(PERIOD, {{0, oct("k")}, {3, vbool(true)}})), {})});
	return msg("t", tag, f);
}

// the shortest message of a kind: whatever may be absent is, the rest is empty
inline Node least(Kind k) {
	switch (k) {
	case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ: return seq(k, {});
	default: return null(k);
	}
}
inline Node leastmsg(uint32_t tag) {
	std::vector<Node> f;
	for (Kind k : *bodyfields(tag))
		f.push_back(least(k));
	Node m = msg("", tag, f);
	m.c[0] = null(OCT);
	m.c[1] = m.c[2] = null(U8);
	return m;
}
struct EncMin : Enc { // numbers of the fewest bytes
	int intlen(const Node &, int minimal, int) override { return minimal; }
};
