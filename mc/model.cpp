#include "model.hpp"
#include "mc.hpp"
#include <stdlib.h>
#include <string.h>

namespace sm {
const char *kindname[] = {"oct", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool",
						  "status", "value", "time", "path", "tree", "ppv", "period", "tupel",
						  "vlist", "vle", "hdrseq", "hdr", "perseq", "per", "ventseq", "vent",
						  "pseq", "objl", "body", "msg", "?"};
const uint32_t tags[14] = {0x100, 0x101, 0x200, 0x201, 0x300, 0x301, 0x400,
						   0x401, 0x500, 0x501, 0x600, 0x700, 0x701, 0xff01};
const char *tagname[14] = {"OpenReq", "OpenRes", "CloseReq", "CloseRes", "ProfPackReq",
						   "ProfPackRes", "ProfListReq", "ProfListRes", "ProcParReq", "ProcParRes",
						   "SetProcParReq", "ListReq", "ListRes", "Attention"};

static const std::vector<Kind> f_openreq{OCT, OCT, OCT, OCT, OCT, OCT, U8},
	f_openres{OCT, OCT, OCT, OCT, TIME, U8}, f_close{OCT},
	f_packreq{OCT, OCT, OCT, BOOL, TIME, TIME, PATH, OBJL, TREE},
	f_packres{OCT, TIME, U32, PATH, HDRSEQ, PERSEQ, OCT, OCT},
	f_plistres{OCT, TIME, U32, PATH, TIME, U64, PSEQ, OCT, OCT},
	f_procreq{OCT, OCT, OCT, PATH, OCT}, f_procres{OCT, PATH, TREE},
	f_setproc{OCT, OCT, OCT, PATH, TREE}, f_listreq{OCT, OCT, OCT, OCT, OCT},
	f_listres{OCT, OCT, OCT, TIME, VLIST, OCT, TIME}, f_att{OCT, OCT, OCT, TREE},
	f_vle{OCT, STATUS, TIME, U8, I8, VALUE, OCT}, f_hdr{OCT, U8, I8},
	f_per{TIME, U64, VENTSEQ, OCT}, f_vent{VALUE, OCT}, f_period{OCT, U8, I8, VALUE, OCT},
	f_tupel{OCT, TIME, U64, U8, I8, I64, U8, I8, I64, U8, I8, I64,
			OCT, U8, I8, I64, U8, I8, I64, U8, I8, I64, OCT};

const std::vector<Kind> *bodyfields(uint32_t tag) {
	switch (tag) {
	case 0x100: return &f_openreq;
	case 0x101: return &f_openres;
	case 0x200: case 0x201: return &f_close;
	case 0x300: case 0x400: return &f_packreq;
	case 0x301: return &f_packres;
	case 0x401: return &f_plistres;
	case 0x500: return &f_procreq;
	case 0x501: return &f_procres;
	case 0x600: return &f_setproc;
	case 0x700: return &f_listreq;
	case 0x701: return &f_listres;
	case 0xff01: return &f_att;
	}
	return 0;
}
const std::vector<Kind> &seqfields(Kind k) {
	switch (k) {
	case VLE: return f_vle;
	case HDR: return f_hdr;
	case PER: return f_per;
	case VENT: return f_vent;
	case PERIOD: return f_period;
	default: return f_tupel;
	}
}
Kind elemkind(Kind k) {
	switch (k) {
	case PATH: case OBJL: return OCT;
	case VLIST: return VLE;
	case HDRSEQ: return HDR;
	case PERSEQ: return PER;
	case VENTSEQ: return VENT;
	case PSEQ: return PERIOD;
	default: return NKINDS;
	}
}
bool Node::operator==(const Node &o) const {
	return k == o.k && null == o.null && (null || (vt == o.vt && w == o.w && n == o.n && s == o.s && c == o.c));
}

std::string dump(const Node &n) {
	std::string r = kindname[n.k];
	if (n.null)
		return r + "-";
	if (n.k == OCT)
		return "\"" + mc::hex(n.s, 40) + "\"";
	if (isnum(n.k))
		return r + mc::strf(":%lld", (long long)n.n);
	if (n.k == BOOL)
		return n.n ? "true" : "false";
	if (n.k == STATUS || n.k == VALUE) {
		if (n.vt == 0)
			return r + "\"" + mc::hex(n.s, 40) + "\"";
		if (n.vt == 0x40)
			return r + (n.n ? ":true" : ":false");
		return r + mc::strf(":%c%d:%lld", n.vt == 0x50 ? 'i' : 'u', n.w * 8, (long long)n.n);
	}
	if (n.k == PPV || n.k == BODY)
		r += mc::strf("#%llx", (unsigned long long)n.n);
	r += "(";
	for (size_t i = 0; i < n.c.size(); i++) {
		if (i)
			r += " ";
		if (i >= 40) {
			r += mc::strf("... %zu", n.c.size());
			break;
		}
		r += dump(n.c[i]);
	}
	return r + ")";
}
std::string dumpall(const std::vector<Node> &v) {
	std::string r = mc::strf("%zu:", v.size());
	for (auto &n : v)
		r += " " + dump(n);
	return r;
}

// ---------------------------------------------------------------- construction
Node null(Kind k) { return Node(k); }
Node oct(const std::string &s) {
	Node n(OCT);
	n.null = false;
	n.s = s;
	return n;
}
Node num(Kind k, uint64_t v) {
	Node n(k);
	n.null = false;
	n.n = v;
	return n;
}
Node boolean(bool b) {
	Node n(BOOL);
	n.null = false;
	n.n = b;
	return n;
}
Node status(uint64_t v, int w) {
	Node n(STATUS);
	n.null = false;
	n.vt = 0x60;
	n.w = w;
	n.n = v;
	return n;
}
Node vint(bool sign, uint64_t v, int w) {
	Node n(VALUE);
	n.null = false;
	n.vt = sign ? 0x50 : 0x60;
	n.w = w;
	n.n = v;
	return n;
}
Node voct(const std::string &s) {
	Node n(VALUE);
	n.null = false;
	n.s = s;
	return n;
}
Node vbool(bool b) {
	Node n(VALUE);
	n.null = false;
	n.vt = 0x40;
	n.n = b;
	return n;
}
Node time(uint8_t tag, uint32_t v) { return list(TIME, {num(U8, tag), num(U32, v)}); }
Node seq(Kind k, const std::vector<Node> &c) { return list(k, c); }
Node list(Kind k, const std::vector<Node> &c) {
	Node n(k);
	n.null = false;
	n.c = c;
	return n;
}
Node tree(const std::string &name, const Node &p, const std::vector<Node> &ch) {
	Node n = list(TREE, {oct(name), p});
	for (auto &x : ch)
		n.c.push_back(x);
	return n;
}
Node ppv(int tag, const Node &v) {
	Node n = list(PPV, {v});
	n.n = tag;
	return n;
}
Node msg(const std::string &tid, uint32_t tag, const std::vector<Node> &f) {
	Node b = list(BODY, f);
	b.n = tag;
	return list(MSG, {oct(tid), num(U8, 0), num(U8, 0), b});
}
Node vle(const std::string &name, const Node &value) {
	return list(VLE, {oct(name), null(STATUS), null(TIME), null(U8), null(I8), value, null(OCT)});
}
Node sample(Kind k, int v) {
	switch (k) {
	case OCT: {
		std::string s;
		for (int i = 0; i < 2 + v % 5; i++)
			s += (char)(0x41 + v + i);
		return oct(s);
	}
	case BOOL: return boolean(v & 1);
	case STATUS: return status(0x0102030405060708ull >> (8 * (v & 7)), (v & 7) == 0 ? 8 : (v & 7) < 4 ? 8 : (v & 7) < 6 ? 4 : (v & 7) < 7 ? 2 : 1);
	case VALUE:
		switch (v % 5) {
		case 0: return vint(false, 0x01020304u + v, 4);
		case 1: return vint(true, (uint64_t)-2000 - v % 1000, 2);
		case 2: return voct(std::string("val") + (char)('0' + v % 10));
		case 3: return vint(true, 0x1122334455667788ull + v, 8);
		default: return vbool(v & 1);
		}
	case TIME: return time(1 + (v & 1), 0x10203040u + v * 0x01010101u);
	case PATH: return seq(PATH, {sample(OCT, v), sample(OCT, v + 1)});
	case OBJL: return seq(OBJL, {sample(OCT, v), sample(OCT, v + 2), sample(OCT, v + 1)});
	case TREE:
		return tree("root", sample(PPV, v),
					{tree("c1", ppv(1, sample(VALUE, v + 1)), {}),
					 tree("c2", null(PPV), {tree("c3", ppv(4, sample(TIME, v)), {})})});
	case PPV:
		switch (v % 4) {
		case 0: return ppv(1, sample(VALUE, v));
		case 1: return ppv(4, sample(TIME, v));
		case 2: return ppv(2, sample(PERIOD, v));
		default: return ppv(3, sample(TUPEL, v));
		}
	case VLIST: return seq(VLIST, {sample(VLE, v), sample(VLE, v + 1)});
	case HDRSEQ: return seq(HDRSEQ, {sample(HDR, v), sample(HDR, v + 1)});
	case PERSEQ: return seq(PERSEQ, {sample(PER, v), sample(PER, v + 1)});
	case VENTSEQ: return seq(VENTSEQ, {sample(VENT, v), sample(VENT, v + 1)});
	case PSEQ: return seq(PSEQ, {sample(PERIOD, v), sample(PERIOD, v + 1)});
	case VLE: case HDR: case PER: case VENT: case PERIOD: case TUPEL: {
		std::vector<Node> c;
		int i = v;
		for (Kind f : seqfields(k))
			c.push_back(sample(f, i++));
		return list(k, c);
	}
	default: { // numbers
		int sh = 64 - 8 * numwidth(k);
		uint64_t x = (uint64_t)(numsigned(k) ? -(int64_t)(3 + v) : (int64_t)(3 + v)) << sh;
		return num(k, numsigned(k) ? (uint64_t)((int64_t)x >> sh) : x >> sh);
	}
	}
}
Node samplemsg(uint32_t tag, int v) {
	std::vector<Node> f;
	int i = v;
	for (Kind k : *bodyfields(tag))
		f.push_back(sample(k, i++));
	return msg(std::string("tid") + (char)('0' + v % 10), tag, f);
}

// -------------------------------------------------------------------- encoding
std::string tl(uint8_t type, uint64_t len, int extra) {
	// number of TL bytes k: the smallest that holds the length; unless it is a
	// list, the header's own bytes count
	for (int k = 1;; k++) {
		uint64_t v = type == 0x70 ? len : len + (uint64_t)(k + extra);
		if (k < 16 && (v >> (4 * k)) != 0)
			continue;
		std::string s;
		for (int i = 0; i < extra; i++)
			s += (char)(0x80 | (i == 0 ? type : 0));
		for (int i = k - 1; i >= 0; i--)
			s += (char)(((v >> (4 * i)) & 15) | (i ? 0x80 : 0) |
						(i == k - 1 && !extra ? type : 0));
		return s;
	}
}
static std::string be(uint64_t v, int n) {
	std::string s;
	for (int i = n - 1; i >= 0; i--)
		s += (char)(v >> (8 * i));
	return s;
}
static W leaf(Kind k, uint8_t type, const std::string &data, int tlx) {
	W w;
	w.k = k;
	w.type = type;
	w.data = data;
	w.tlx = tlx;
	return w;
}
static W skip(Kind k) {
	W w;
	w.k = k;
	w.raw = true;
	w.data = "\x01";
	return w;
}
static int minlen(uint64_t v, bool sign, int full) {
	for (int l = 0; l < full; l++) {
		if (l == 0) {
			if (v == 0)
				return 0;
			continue;
		}
		uint64_t t = v << (64 - 8 * l);
		uint64_t x = sign ? (uint64_t)((int64_t)t >> (64 - 8 * l)) : t >> (64 - 8 * l);
		uint64_t full64 = v;
		if (x == full64)
			return l;
	}
	return full;
}
W lower(const Node &n) {
	Enc e;
	return lower(n, e);
}
W lower(const Node &n, Enc &e) {
	W w;
	w.k = n.k;
	if (n.null)
		return skip(n.k);
	switch (n.k) {
	case OCT:
		if (n.s.empty()) // an empty string of its own needs a longer header
			return leaf(OCT, 0, "", 1 + e.tlx(n.k));
		return leaf(OCT, 0, n.s, e.tlx(n.k));
	case U8: case U16: case U32: case U64: case I8: case I16: case I32: case I64: {
		int full = numwidth(n.k), m = minlen(n.n, numsigned(n.k), full);
		return leaf(n.k, numsigned(n.k) ? 0x50 : 0x60, be(n.n, e.intlen(n, m, full)), e.tlx(n.k));
	}
	case BOOL:
		return leaf(BOOL, 0x40, std::string(1, n.n ? (char)e.truebyte() : 0), e.tlx(n.k));
	case STATUS: case VALUE:
		if (n.vt == 0)
			return leaf(n.k, 0, n.s, (n.s.empty() ? 1 : 0) + e.tlx(n.k));
		if (n.vt == 0x40)
			return leaf(n.k, 0x40, std::string(1, n.n ? (char)e.truebyte() : 0), e.tlx(n.k));
		else {
			int m = minlen(n.n, n.vt == 0x50, n.w);
			// fewer bytes would give a smaller width
			int lo = n.w == 1 ? 0 : n.w / 2 + 1;
			if (m < lo)
				m = lo;
			return leaf(n.k, n.vt, be(n.n, e.intlen(n, m, n.w)), e.tlx(n.k));
		}
	case TIME: {
		int f = e.timeform(n);
		if (f == 1) {
			W b = leaf(TIME, 0x60, be(n.c[1].n, 4), 0);
			return b;
		}
		w.type = 0x70;
		w.list = true;
		w.tlx = e.tlx(n.k);
		w.kids.push_back(lower(n.c[0], e));
		if (f == 2) {
			W l;
			l.k = TIME;
			l.type = 0x70;
			l.list = true;
			l.kids.push_back(leaf(U32, 0x60, be(0x12345678, 4), 0));
			l.kids.push_back(leaf(I16, 0x50, be(60, 2), 0));
			l.kids.push_back(leaf(I16, 0x50, be(0, 2), 0));
			w.kids.push_back(l);
		} else
			w.kids.push_back(lower(n.c[1], e));
		return w;
	}
	case MSG: {
		w.type = 0x70;
		w.list = true;
		for (auto &x : n.c)
			w.kids.push_back(lower(x, e));
		W c;
		c.k = U16;
		c.type = 0x60;
		c.crc = true;
		w.kids.push_back(c);
		W z;
		z.raw = true;
		z.data = std::string(1, 0);
		w.kids.push_back(z);
		return w;
	}
	case TREE: {
		w.type = 0x70;
		w.list = true;
		w.tlx = e.tlx(n.k);
		w.kids.push_back(lower(n.c[0], e));
		w.kids.push_back(lower(n.c[1], e));
		if (n.c.size() > 2) {
			W l;
			l.k = TREE;
			l.type = 0x70;
			l.list = true;
			l.tlx = e.tlx(n.k);
			for (size_t i = 2; i < n.c.size(); i++)
				l.kids.push_back(lower(n.c[i], e));
			w.kids.push_back(l);
		} else
			w.kids.push_back(skip(TREE));
		return w;
	}
	case BODY: {
		w.type = 0x70;
		w.list = true;
		w.tlx = e.tlx(n.k);
		w.kids.push_back(lower(num(U32, n.n), e));
		W l;
		l.k = BODY;
		l.type = 0x70;
		l.list = true;
		l.tlx = e.tlx(n.k);
		for (auto &x : n.c)
			l.kids.push_back(lower(x, e));
		w.kids.push_back(l);
		return w;
	}
	case PPV:
		w.type = 0x70;
		w.list = true;
		w.tlx = e.tlx(n.k);
		w.kids.push_back(lower(num(U8, n.n), e));
		w.kids.push_back(lower(n.c[0], e));
		return w;
	default:
		w.type = 0x70;
		w.list = true;
		w.tlx = e.tlx(n.k);
		for (auto &x : n.c)
			w.kids.push_back(lower(x, e));
		return w;
	}
}
void emit(const W &w, std::string &out) {
	if (w.raw) {
		out += w.data;
		return;
	}
	if (w.list) {
		size_t start = out.size();
		long c = (long)w.kids.size() + w.delta;
		out += tl(w.type, (uint64_t)(c < 0 ? 0 : c), w.tlx);
		for (auto &k : w.kids) {
			if (k.crc) {
				size_t len = out.size() - start;
				uint16_t c16 = k.kermit ? crc_kermit(out.data() + start, len)
										: crc_sml(out.data() + start, len);
				c16 ^= k.crcxor;
				out += "\x63";
				out += be(c16, 2);
			} else
				emit(k, out);
		}
		return;
	}
	long l = (long)w.data.size() + w.delta;
	out += tl(w.type, (uint64_t)(l < 0 ? 0 : l), w.tlx);
	out += w.data;
}
std::string encode(const Node &n) {
	std::string s;
	emit(lower(n), s);
	return s;
}
std::string encodeall(const std::vector<Node> &v) {
	std::string s;
	for (auto &n : v)
		emit(lower(n), s);
	return s;
}
void walk(W &w, const std::function<void(W &, W *, int)> &f) {
	std::function<void(W &, W *, int)> rec = [&](W &x, W *p, int i) {
		f(x, p, i);
		for (size_t k = 0; k < x.kids.size(); k++)
			rec(x.kids[k], &x, (int)k);
	};
	rec(w, 0, 0);
}

// -------------------------------------------------------------------- decoding
static int d_type(Dec &d) {
	if (d.i >= d.n) {
		d.err = d.eof = true;
		return -1;
	}
	return d.p[d.i] & 0x70;
}
// content length (strings, numbers) or element count (lists); -1: malformed
static int64_t d_tl(Dec &d) {
	if (d.i >= d.n) {
		d.err = d.eof = true;
		return -1;
	}
	bool list = (d.p[d.i] & 0x70) == 0x70;
	uint64_t v = 0;
	int64_t k = 0;
	for (;;) {
		if (d.i >= d.n || v > (uint64_t)0x7fffffff >> 4) {
			d.err = true;
			d.eof |= d.i >= d.n;
			return -1;
		}
		uint8_t b = d.p[d.i++];
		v = v << 4 | (b & 15);
		k++;
		if (!(b & 0x80))
			break;
	}
	if (list)
		return (int64_t)v;
	if ((int64_t)v < k) {
		d.err = true;
		return -1;
	}
	return (int64_t)v - k;
}
static bool d_skip(Dec &d) { // 0x01: absent. At the end of input: error
	if (d.i >= d.n) {
		d.err = d.eof = true;
		return true;
	}
	if (d.p[d.i] == 1) {
		d.i++;
		return true;
	}
	return false;
}
static bool d_list(Dec &d, int64_t n) {
	if (d_type(d) != 0x70 || d_tl(d) != n || d.err) {
		d.err = true;
		return false;
	}
	return true;
}
static bool d_int(Dec &d, int type, int max, uint64_t &v, int64_t &len) {
	if (d_type(d) != type) {
		d.err = true;
		return false;
	}
	len = d_tl(d);
	if (d.err || len > max || d.i + (uint64_t)len > d.n) {
		d.eof |= !d.err && len <= max;
		d.err = true;
		return false;
	}
	if (len == 0 && d.i >= d.n) { // an empty number at the very end: left open
		d.err = d.eof = true;
		d.fuzzy = true;
		return false;
	}
	v = 0;
	if (type == 0x50 && len && (d.p[d.i] & 0x80))
		v = ~0ull;
	for (int64_t i = 0; i < len; i++)
		v = v << 8 | d.p[d.i++];
	return true;
}
static const std::string DZG_OID("\x01\x00\x60\x01\x00\xff", 6), POWER_OID("\x01\x00\x10\x07\x00\xff", 6);

Node decode(Dec &d, Kind k, int depth) {
	Node n(k);
	switch (k) {
	case VLE: case HDR: case PER: case VENT: case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ:
	case BODY: case MSG:
		break; // not optional
	default:
		if (d_skip(d))
			return n;
	}
	uint64_t v;
	int64_t len;
	switch (k) {
	case OCT:
		if (d_type(d) != 0) {
			d.err = true;
			return n;
		}
		len = d_tl(d);
		if (d.err || (uint64_t)len > d.n - d.i) {
			d.eof |= !d.err;
			d.err = true;
			return n;
		}
		n.s.assign((const char *)d.p + d.i, len);
		d.i += len;
		break;
	case U8: case U16: case U32: case U64: case I8: case I16: case I32: case I64:
		if (!d_int(d, numsigned(k) ? 0x50 : 0x60, numwidth(k), v, len))
			return n;
		n.n = v;
		break;
	case BOOL:
		if (d_type(d) != 0x40 || d_tl(d) != 1 || d.i >= d.n) {
			d.eof |= d.i >= d.n;
			d.err = true;
			return n;
		}
		n.n = d.p[d.i++] != 0;
		break;
	case STATUS: case VALUE: {
		int t = d_type(d);
		n.vt = t;
		if (k == STATUS && t != 0x60) {
			d.err = true;
			return n;
		}
		if (t == 0) {
			Node o = decode(d, OCT);
			n.s = o.s;
		} else if (t == 0x40) {
			n.n = decode(d, BOOL).n;
		} else if (t == 0x50 || t == 0x60) {
			if (!d_int(d, t, 8, v, len))
				return n;
			n.n = v;
			n.w = len <= 1 ? 1 : len <= 2 ? 2 : len <= 4 ? 4 : 8;
		} else
			d.err = true;
		break;
	}
	case TIME:
		if (d.p[d.i] == 0x65) {
			n.c.push_back(num(U8, 1));
		} else {
			if (!d_list(d, 2))
				return n;
			n.c.push_back(decode(d, U8));
			if (d.err)
				return n;
		}
		switch (d_type(d)) {
		case 0x60:
			n.c.push_back(decode(d, U32));
			break;
		case 0x70:
			if (!d_list(d, 3))
				return n;
			decode(d, U32);
			if (!d.err)
				decode(d, I16);
			if (!d.err)
				decode(d, I16);
			n.c.push_back(null(U32));
			break;
		default:
			d.err = true;
		}
		break;
	case TREE: {
		if (depth > 4096 || !d_list(d, 3)) {
			d.err = true;
			return n;
		}
		n.c.push_back(decode(d, OCT));
		if (!d.err)
			n.c.push_back(decode(d, PPV));
		if (d.err)
			return n;
		if (d_skip(d))
			break;
		if (d_type(d) != 0x70) {
			d.err = true;
			return n;
		}
		int64_t cnt = d_tl(d);
		for (; !d.err && cnt > 0; cnt--) {
			Node x = decode(d, TREE, depth + 1);
			if (!x.null)
				n.c.push_back(std::move(x));
		}
		break;
	}
	case PPV: {
		if (!d_list(d, 2))
			return n;
		Node t = decode(d, U8);
		if (d.err || t.null || t.n < 1 || t.n > 4) {
			d.err = true;
			return n;
		}
		n.n = t.n;
		n.c.push_back(decode(d, t.n == 1 ? VALUE : t.n == 2 ? PERIOD : t.n == 3 ? TUPEL : TIME));
		break;
	}
	case VLE: case HDR: case PER: case VENT: case PERIOD: case TUPEL: {
		auto &f = seqfields(k);
		if (!d_list(d, (int64_t)f.size()))
			return n;
		for (Kind x : f) {
			n.c.push_back(decode(d, x));
			if (d.err)
				return n;
		}
		break;
	}
	case BODY: {
		if (!d_list(d, 2))
			return n;
		Node t = decode(d, U32);
		const std::vector<Kind> *f;
		if (d.err || t.null || !(f = bodyfields((uint32_t)t.n)) || !d_list(d, (int64_t)f->size())) {
			d.err = true;
			return n;
		}
		n.n = t.n;
		for (Kind x : *f) {
			n.c.push_back(decode(d, x));
			if (d.err)
				return n;
		}
		break;
	}
	case PATH: case OBJL: case VLIST: case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ: {
		if (d_type(d) != 0x70) {
			d.err = true;
			return n;
		}
		int64_t cnt = d_tl(d);
		bool dzg = false;
		for (int64_t i = 0; !d.err && i < cnt; i++) {
			size_t at = d.i;
			Node x = decode(d, elemkind(k));
			if (d.err)
				return n;
			if (k == PATH && x.null)
				continue;
			if (k == VLIST) {
				// DZG DVS74 workaround
				const Node &name = x.c[0], &val = x.c[5];
				bool serial = false;
				if (!name.null && name.s == DZG_OID && !val.null && val.vt == 0 &&
					val.s.size() == 10 && val.s.compare(0, 5, "\x0a\x01""DZG") == 0) {
					uint64_t s = 0;
					for (int b = 5; b < 10; b++)
						s = s << 8 | (uint8_t)val.s[b];
					serial = (s >= 42000000 && s <= 48999999) || (s >= 55000000 && s <= 58999999);
				}
				if (serial)
					dzg = true;
				else if (dzg && !name.null && name.s == POWER_OID && !val.null && val.vt == 0x50) {
					// where the value starts
					Dec e(d.p, d.n);
					e.i = at;
					d_tl(e);
					for (int f = 0; f < 5; f++)
						decode(e, f_vle[f]);
					uint8_t b = e.p[e.i];
					if (!(b & 0x80) && (b & 15) >= 1 && (b & 15) <= 3) {
						x.c[5].vt = 0x60;
						x.c[5].n &= x.c[5].w == 1 ? 0xff : 0xffff;
					}
				}
			}
			n.c.push_back(std::move(x));
		}
		if (d.err)
			return n;
		if ((k == VLIST || k == OBJL) && n.c.empty())
			return n; // an empty one is represented as absent
		break;
	}
	default:
		d.err = true;
	}
	if (d.err)
		return n;
	n.null = false;
	return n;
}

FileResult decodefile(const void *p, size_t len) {
	FileResult r;
	Dec d(p, len);
	while (d.i < d.n) {
		if (d.p[d.i] == 0) {
			d.i++;
			continue;
		}
		size_t start = d.i;
		r.at = start;
		Node m(MSG);
		m.null = false;
		bool ok = d_list(d, 6);
		if (ok) {
			m.c.push_back(decode(d, OCT));
			if (!d.err)
				m.c.push_back(decode(d, U8));
			if (!d.err)
				m.c.push_back(decode(d, U8));
			if (!d.err)
				m.c.push_back(decode(d, BODY));
		}
		size_t end = d.i;
		if (!d.err && d.n - d.i < 3)
			d.err = d.eof = true;
		if (!d.err) {
			Node c = decode(d, U16);
			if (!d.err && c.null)
				d.err = true;
			if (!d.err) {
				if (c.n != crc_sml(d.p + start, end - start) &&
					c.n != crc_kermit(d.p + start, end - start)) {
					r.dropped++;
					continue; // dropped alone
				}
				if (d.i >= d.n)
					d.err = d.eof = true;
				else if (d.p[d.i] == 0)
					d.i++;
			}
		}
		if (d.err) {
			r.stopped = true;
			r.eof = d.eof;
			return r;
		}
		r.msgs.push_back(std::move(m));
	}
	return r;
}

// bitwise
static uint16_t crcbits(const void *p, size_t n, uint16_t c) {
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) {
		c ^= b[i];
		for (int k = 0; k < 8; k++)
			c = c & 1 ? (c >> 1) ^ 0x8408 : c >> 1;
	}
	return c;
}
uint16_t crc_x25(const void *p, size_t n) { return crcbits(p, n, 0xffff) ^ 0xffff; }
uint16_t crc_sml(const void *p, size_t n) {
	uint16_t c = crc_x25(p, n);
	return (uint16_t)(c << 8 | c >> 8);
}
uint16_t crc_kermit(const void *p, size_t n) { return crcbits(p, n, 0); }

// ------------------------------------------------------------------ extraction
Leaves *leaflog;
static void leaf(const void *p, size_t n) {
	if (leaflog && p && n)
		leaflog->push_back({(uintptr_t)p, n});
}
Node ext(const octet_string *s) {
	if (!s)
		return null(OCT);
	leaf(s, sizeof *s);
	leaf(s->str, s->len > 0 ? s->len : 0);
	if (s->len < 0 || (s->len > 0 && !s->str))
		mc::fail("octet string with length %d and data %p", s->len, (void *)s->str);
	return oct(s->len ? std::string((const char *)s->str, s->len) : std::string());
}
Node extnum(const void *p, Kind k) {
	if (!p)
		return null(k);
	leaf(p, numwidth(k));
	switch (k) {
	case U8: return num(k, *(const u8 *)p);
	case U16: return num(k, *(const u16 *)p);
	case U32: return num(k, *(const u32 *)p);
	case U64: return num(k, *(const u64 *)p);
	case I8: return num(k, (uint64_t)(int64_t) * (const i8 *)p);
	case I16: return num(k, (uint64_t)(int64_t) * (const i16 *)p);
	case I32: return num(k, (uint64_t)(int64_t) * (const i32 *)p);
	default: return num(k, (uint64_t) * (const i64 *)p);
	}
}
Node extbool(const sml_boolean *b) {
	if (!b)
		return null(BOOL);
	leaf(b, sizeof *b);
	Node n = boolean(*b != SML_BOOLEAN_FALSE);
	if (*b != SML_BOOLEAN_FALSE && *b != SML_BOOLEAN_TRUE)
		n.n = 0x100 | *b; // neither: what compares it with the constants finds a third value
	return n;
}
static uint64_t wnum(const void *p, bool sign, int w) {
	Kind k = (Kind)((sign ? I8 : U8) + (w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3));
	return extnum(p, k).n;
}
Node ext(const sml_value *v) {
	if (!v)
		return null(VALUE);
	switch (v->type) {
	case SML_TYPE_OCTET_STRING:
		if (!v->data.bytes)
			mc::fail("octet string value without data");
		return voct(ext(v->data.bytes).s);
	case SML_TYPE_BOOLEAN:
		if (!v->data.boolean)
			mc::fail("boolean value without data");
		{
			Node n = vbool(true);
			n.n = extbool(v->data.boolean).n;
			return n;
		}
	}
	int t = v->type & 0xf0, w = v->type & 15;
	if ((t != 0x50 && t != 0x60) || (w != 1 && w != 2 && w != 4 && w != 8))
		mc::fail("value of undefined type 0x%02x", v->type);
	if (!v->data.uint8)
		mc::fail("integer value without data");
	return vint(t == 0x50, wnum(v->data.uint8, t == 0x50, w), w);
}
Node ext(const sml_status *s) {
	if (!s)
		return null(STATUS);
	int t = s->type & 0xf0, w = s->type & 15;
	if (t != 0x60 || (w != 1 && w != 2 && w != 4 && w != 8))
		mc::fail("status of undefined type 0x%02x", s->type);
	if (!s->data.status8)
		mc::fail("status without data");
	return status(wnum(s->data.status8, false, w), w);
}
Node ext(const sml_time *t) {
	if (!t)
		return null(TIME);
	return list(TIME, {extnum(t->tag, U8), extnum(t->data.timestamp, U32)});
}
Node ext(const sml_tree_path *p) {
	if (!p)
		return null(PATH);
	Node n = seq(PATH, {});
	for (int i = 0; i < p->path_entries_len; i++)
		n.c.push_back(ext(p->path_entries[i]));
	return n;
}
Node ext(const sml_period_entry *p) {
	if (!p)
		return null(PERIOD);
	return list(PERIOD, {ext(p->obj_name), extnum(p->unit, U8), extnum(p->scaler, I8),
						 ext(p->value), ext(p->value_signature)});
}
Node ext(const sml_tupel_entry *t) {
	if (!t)
		return null(TUPEL);
	return list(TUPEL,
				{ext(t->server_id), ext(t->sec_index), extnum(t->status, U64),
				 extnum(t->unit_pA, U8), extnum(t->scaler_pA, I8), extnum(t->value_pA, I64),
				 extnum(t->unit_R1, U8), extnum(t->scaler_R1, I8), extnum(t->value_R1, I64),
				 extnum(t->unit_R4, U8), extnum(t->scaler_R4, I8), extnum(t->value_R4, I64),
				 ext(t->signature_pA_R1_R4),
				 extnum(t->unit_mA, U8), extnum(t->scaler_mA, I8), extnum(t->value_mA, I64),
				 extnum(t->unit_R2, U8), extnum(t->scaler_R2, I8), extnum(t->value_R2, I64),
				 extnum(t->unit_R3, U8), extnum(t->scaler_R3, I8), extnum(t->value_R3, I64),
				 ext(t->signature_mA_R2_R3)});
}
Node ext(const sml_proc_par_value *p) {
	if (!p)
		return null(PPV);
	if (!p->tag)
		mc::fail("proc par value without tag");
	switch (*p->tag) {
	case 1: return ppv(1, ext(p->data.value));
	case 2: return ppv(2, ext(p->data.period_entry));
	case 3: return ppv(3, ext(p->data.tupel_entry));
	case 4: return ppv(4, ext(p->data.time));
	}
	mc::fail("proc par value with undefined tag %d", *p->tag);
}
Node ext(const sml_tree *t) {
	if (!t)
		return null(TREE);
	Node n = list(TREE, {ext(t->parameter_name), ext(t->parameter_value)});
	for (int i = 0; i < t->child_list_len; i++)
		n.c.push_back(ext(t->child_list[i]));
	return n;
}
Node ext(const sml_list *l) {
	if (!l)
		return null(VLIST);
	Node n = seq(VLIST, {});
	for (; l; l = l->next)
		n.c.push_back(list(VLE, {ext(l->obj_name), ext(l->status), ext(l->val_time),
								 extnum(l->unit, U8), extnum(l->scaler, I8), ext(l->value),
								 ext(l->value_signature)}));
	return n;
}
static Node extseq(const sml_sequence *s, Kind k);
static Node extelem(void *p, Kind k) {
	switch (k) {
	case HDR: {
		auto *h = (sml_prof_obj_header_entry *)p;
		if (!h)
			return null(HDR);
		return list(HDR, {ext(h->obj_name), extnum(h->unit, U8), extnum(h->scaler, I8)});
	}
	case PER: {
		auto *h = (sml_prof_obj_period_entry *)p;
		if (!h)
			return null(PER);
		return list(PER, {ext(h->val_time), extnum(h->status, U64), extseq(h->value_list, VENTSEQ),
						  ext(h->period_signature)});
	}
	case VENT: {
		auto *h = (sml_value_entry *)p;
		if (!h)
			return null(VENT);
		return list(VENT, {ext(h->value), ext(h->value_signature)});
	}
	default:
		return ext((sml_period_entry *)p);
	}
}
static Node extseq(const sml_sequence *s, Kind k) {
	if (!s)
		return null(k);
	Node n = seq(k, {});
	for (int i = 0; i < s->elems_len; i++)
		n.c.push_back(extelem(s->elems[i], elemkind(k)));
	return n;
}
static Node extobjl(const sml_obj_req_entry_list *l) {
	if (!l)
		return null(OBJL);
	Node n = seq(OBJL, {});
	for (; l; l = l->next)
		n.c.push_back(ext(l->object_list_entry));
	return n;
}
Node ext(const sml_message_body *b) {
	if (!b)
		mc::fail("message without body");
	if (!b->tag)
		mc::fail("message body without tag");
	Node n = list(BODY, {});
	n.n = *b->tag;
	if (!bodyfields(*b->tag))
		mc::fail("message of unknown kind 0x%x", *b->tag);
	if (!b->data)
		mc::fail("message body without data");
	auto &c = n.c;
	switch (*b->tag) {
	case 0x100: {
		auto *m = (sml_open_request *)b->data;
		c = {ext(m->codepage), ext(m->client_id), ext(m->req_file_id), ext(m->server_id),
			 ext(m->username), ext(m->password), extnum(m->sml_version, U8)};
		break;
	}
	case 0x101: {
		auto *m = (sml_open_response *)b->data;
		c = {ext(m->codepage), ext(m->client_id), ext(m->req_file_id), ext(m->server_id),
			 ext(m->ref_time), extnum(m->sml_version, U8)};
		break;
	}
	case 0x200:
	case 0x201:
		c = {ext(((sml_close_request *)b->data)->global_signature)};
		break;
	case 0x300:
	case 0x400: {
		auto *m = (sml_get_profile_pack_request *)b->data;
		c = {ext(m->server_id), ext(m->username), ext(m->password), extbool(m->with_rawdata),
			 ext(m->begin_time), ext(m->end_time), ext(m->parameter_tree_path),
			 extobjl(m->object_list), ext(m->das_details)};
		break;
	}
	case 0x301: {
		auto *m = (sml_get_profile_pack_response *)b->data;
		c = {ext(m->server_id), ext(m->act_time), extnum(m->reg_period, U32),
			 ext(m->parameter_tree_path), extseq(m->header_list, HDRSEQ),
			 extseq(m->period_list, PERSEQ), ext(m->rawdata), ext(m->profile_signature)};
		break;
	}
	case 0x401: {
		auto *m = (sml_get_profile_list_response *)b->data;
		c = {ext(m->server_id), ext(m->act_time), extnum(m->reg_period, U32),
			 ext(m->parameter_tree_path), ext(m->val_time), extnum(m->status, U64),
			 extseq(m->period_list, PSEQ), ext(m->rawdata), ext(m->period_signature)};
		break;
	}
	case 0x500: {
		auto *m = (sml_get_proc_parameter_request *)b->data;
		c = {ext(m->server_id), ext(m->username), ext(m->password), ext(m->parameter_tree_path),
			 ext(m->attribute)};
		break;
	}
	case 0x501: {
		auto *m = (sml_get_proc_parameter_response *)b->data;
		c = {ext(m->server_id), ext(m->parameter_tree_path), ext(m->parameter_tree)};
		break;
	}
	case 0x600: {
		auto *m = (sml_set_proc_parameter_request *)b->data;
		c = {ext(m->server_id), ext(m->username), ext(m->password), ext(m->parameter_tree_path),
			 ext(m->parameter_tree)};
		break;
	}
	case 0x700: {
		auto *m = (sml_get_list_request *)b->data;
		c = {ext(m->client_id), ext(m->server_id), ext(m->username), ext(m->password),
			 ext(m->list_name)};
		break;
	}
	case 0x701: {
		auto *m = (sml_get_list_response *)b->data;
		c = {ext(m->client_id), ext(m->server_id), ext(m->list_name), ext(m->act_sensor_time),
			 ext(m->val_list), ext(m->list_signature), ext(m->act_gateway_time)};
		break;
	}
	default: {
		auto *m = (sml_attention_response *)b->data;
		c = {ext(m->server_id), ext(m->attention_number), ext(m->attention_message),
			 ext(m->attention_details)};
	}
	}
	return n;
}
Node ext(const sml_message *m) {
	if (!m)
		mc::fail("NULL message delivered");
	return list(MSG, {ext(m->transaction_id), extnum(m->group_id, U8), extnum(m->abort_on_error, U8),
					  ext(m->message_body)});
}
std::vector<Node> ext(const sml_file *f) {
	std::vector<Node> v;
	for (int i = 0; i < f->messages_len; i++)
		v.push_back(ext(f->messages[i]));
	return v;
}
Node extany(Kind k, void *p) {
	switch (k) {
	case OCT: return ext((octet_string *)p);
	case BOOL: return extbool((sml_boolean *)p);
	case STATUS: return ext((sml_status *)p);
	case VALUE: return ext((sml_value *)p);
	case TIME: return ext((sml_time *)p);
	case PATH: return ext((sml_tree_path *)p);
	case TREE: return ext((sml_tree *)p);
	case PPV: return ext((sml_proc_par_value *)p);
	case PERIOD: return ext((sml_period_entry *)p);
	case TUPEL: return ext((sml_tupel_entry *)p);
	case VLIST: return ext((sml_list *)p);
	case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ: return extseq((sml_sequence *)p, k);
	case HDR: case PER: case VENT: return extelem(p, k);
	case OBJL: return extobjl((sml_obj_req_entry_list *)p);
	case BODY: return ext((sml_message_body *)p);
	case MSG: return ext((sml_message *)p);
	default: return extnum(p, k);
	}
}

// -------------------------------------------------------------------- building
static void hdr_free(void *p) { sml_prof_obj_header_entry_free((sml_prof_obj_header_entry *)p); }
static void per_free(void *p) { sml_prof_obj_period_entry_free((sml_prof_obj_period_entry *)p); }
static void vent_free(void *p) { sml_value_entry_free((sml_value_entry *)p); }
static void period_free(void *p) { sml_period_entry_free((sml_period_entry *)p); }
template <class T> static T *B(const Node &n) { return (T *)build(n); }
static void *mknum(uint64_t v, bool sign, int w) {
	switch (w) {
	case 1: return sign ? (void *)sml_i8_init(v) : (void *)sml_u8_init(v);
	case 2: return sign ? (void *)sml_i16_init(v) : (void *)sml_u16_init(v);
	case 4: return sign ? (void *)sml_i32_init(v) : (void *)sml_u32_init(v);
	default: return sign ? (void *)sml_i64_init(v) : (void *)sml_u64_init(v);
	}
}
void *build(const Node &n) {
	if (n.null)
		return 0;
	auto &c = n.c;
	switch (n.k) {
	case OCT: return sml_octet_string_init((unsigned char *)n.s.data(), (int)n.s.size());
	case BOOL: return sml_boolean_init(n.n ? SML_BOOLEAN_TRUE : SML_BOOLEAN_FALSE);
	case STATUS: {
		sml_status *s = sml_status_init();
		s->type = SML_TYPE_UNSIGNED | n.w;
		s->data.status8 = (u8 *)mknum(n.n, false, n.w);
		return s;
	}
	case VALUE: {
		sml_value *v = sml_value_init();
		if (n.vt == 0) {
			v->type = SML_TYPE_OCTET_STRING;
			v->data.bytes = sml_octet_string_init((unsigned char *)n.s.data(), (int)n.s.size());
		} else if (n.vt == 0x40) {
			v->type = SML_TYPE_BOOLEAN;
			v->data.boolean = sml_boolean_init(n.n ? SML_BOOLEAN_TRUE : SML_BOOLEAN_FALSE);
		} else {
			v->type = n.vt | n.w;
			v->data.uint8 = (u8 *)mknum(n.n, n.vt == 0x50, n.w);
		}
		return v;
	}
	case TIME: {
		sml_time *t = sml_time_init();
		t->tag = B<u8>(c[0]);
		t->data.timestamp = B<u32>(c[1]);
		return t;
	}
	case PATH: {
		sml_tree_path *p = sml_tree_path_init();
		for (auto &x : c)
			sml_tree_path_add_path_entry(p, B<octet_string>(x));
		return p;
	}
	case TREE: {
		sml_tree *t = sml_tree_init();
		t->parameter_name = B<octet_string>(c[0]);
		t->parameter_value = B<sml_proc_par_value>(c[1]);
		for (size_t i = 2; i < c.size(); i++)
			sml_tree_add_tree(t, B<sml_tree>(c[i]));
		return t;
	}
	case PPV: {
		sml_proc_par_value *p = sml_proc_par_value_init();
		p->tag = sml_u8_init(n.n);
		void *d = build(c[0]);
		switch (n.n) {
		case 1: p->data.value = (sml_value *)d; break;
		case 2: p->data.period_entry = (sml_period_entry *)d; break;
		case 3: p->data.tupel_entry = (sml_tupel_entry *)d; break;
		default: p->data.time = (sml_time *)d;
		}
		return p;
	}
	case PERIOD: {
		sml_period_entry *p = sml_period_entry_init();
		p->obj_name = B<octet_string>(c[0]);
		p->unit = B<u8>(c[1]);
		p->scaler = B<i8>(c[2]);
		p->value = B<sml_value>(c[3]);
		p->value_signature = B<octet_string>(c[4]);
		return p;
	}
	case TUPEL: {
		sml_tupel_entry *t = sml_tupel_entry_init();
		int i = 0;
		t->server_id = B<octet_string>(c[i++]);
		t->sec_index = B<sml_time>(c[i++]);
		t->status = B<u64>(c[i++]);
		t->unit_pA = B<u8>(c[i++]);
		t->scaler_pA = B<i8>(c[i++]);
		t->value_pA = B<i64>(c[i++]);
		t->unit_R1 = B<u8>(c[i++]);
		t->scaler_R1 = B<i8>(c[i++]);
		t->value_R1 = B<i64>(c[i++]);
		t->unit_R4 = B<u8>(c[i++]);
		t->scaler_R4 = B<i8>(c[i++]);
		t->value_R4 = B<i64>(c[i++]);
		t->signature_pA_R1_R4 = B<octet_string>(c[i++]);
		t->unit_mA = B<u8>(c[i++]);
		t->scaler_mA = B<i8>(c[i++]);
		t->value_mA = B<i64>(c[i++]);
		t->unit_R2 = B<u8>(c[i++]);
		t->scaler_R2 = B<i8>(c[i++]);
		t->value_R2 = B<i64>(c[i++]);
		t->unit_R3 = B<u8>(c[i++]);
		t->scaler_R3 = B<i8>(c[i++]);
		t->value_R3 = B<i64>(c[i++]);
		t->signature_mA_R2_R3 = B<octet_string>(c[i++]);
		return t;
	}
	case VLE: {
		sml_list *l = sml_list_init();
		l->obj_name = B<octet_string>(c[0]);
		l->status = B<sml_status>(c[1]);
		l->val_time = B<sml_time>(c[2]);
		l->unit = B<u8>(c[3]);
		l->scaler = B<i8>(c[4]);
		l->value = B<sml_value>(c[5]);
		l->value_signature = B<octet_string>(c[6]);
		return l;
	}
	case VLIST: {
		sml_list *first = 0, *last = 0;
		for (auto &x : c) {
			sml_list *l = B<sml_list>(x);
			if (last)
				sml_list_add(last, l);
			else
				first = l;
			last = l;
		}
		return first;
	}
	case HDR: {
		auto *h = sml_prof_obj_header_entry_init();
		h->obj_name = B<octet_string>(c[0]);
		h->unit = B<u8>(c[1]);
		h->scaler = B<i8>(c[2]);
		return h;
	}
	case PER: {
		auto *h = sml_prof_obj_period_entry_init();
		h->val_time = B<sml_time>(c[0]);
		h->status = B<u64>(c[1]);
		h->value_list = B<sml_sequence>(c[2]);
		h->period_signature = B<octet_string>(c[3]);
		return h;
	}
	case VENT: {
		auto *h = sml_value_entry_init();
		h->value = B<sml_value>(c[0]);
		h->value_signature = B<octet_string>(c[1]);
		return h;
	}
	case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ: {
		sml_sequence *s = sml_sequence_init(n.k == HDRSEQ ? hdr_free : n.k == PERSEQ ? per_free
											: n.k == VENTSEQ ? vent_free : period_free);
		for (auto &x : c)
			sml_sequence_add(s, build(x));
		return s;
	}
	case OBJL: {
		sml_obj_req_entry_list *first = 0, *last = 0;
		for (auto &x : c) {
			auto *e = (sml_obj_req_entry_list *)malloc(sizeof(sml_obj_req_entry_list));
			e->object_list_entry = B<octet_string>(x);
			e->next = 0;
			if (last)
				last->next = e;
			else
				first = e;
			last = e;
		}
		return first;
	}
	case BODY: {
		void *d = 0;
		switch (n.n) {
		case 0x100: {
			auto *m = sml_open_request_init();
			m->codepage = B<octet_string>(c[0]);
			m->client_id = B<octet_string>(c[1]);
			m->req_file_id = B<octet_string>(c[2]);
			m->server_id = B<octet_string>(c[3]);
			m->username = B<octet_string>(c[4]);
			m->password = B<octet_string>(c[5]);
			m->sml_version = B<u8>(c[6]);
			d = m;
			break;
		}
		case 0x101: {
			auto *m = sml_open_response_init();
			m->codepage = B<octet_string>(c[0]);
			m->client_id = B<octet_string>(c[1]);
			m->req_file_id = B<octet_string>(c[2]);
			m->server_id = B<octet_string>(c[3]);
			m->ref_time = B<sml_time>(c[4]);
			m->sml_version = B<u8>(c[5]);
			d = m;
			break;
		}
		case 0x200: {
			auto *m = sml_close_request_init();
			m->global_signature = B<octet_string>(c[0]);
			d = m;
			break;
		}
		case 0x201: {
			auto *m = sml_close_response_init();
			m->global_signature = B<octet_string>(c[0]);
			d = m;
			break;
		}
		case 0x300:
		case 0x400: {
			auto *m = n.n == 0x300 ? sml_get_profile_pack_request_init() : sml_get_profile_list_request_init();
			m->server_id = B<octet_string>(c[0]);
			m->username = B<octet_string>(c[1]);
			m->password = B<octet_string>(c[2]);
			m->with_rawdata = B<sml_boolean>(c[3]);
			m->begin_time = B<sml_time>(c[4]);
			m->end_time = B<sml_time>(c[5]);
			m->parameter_tree_path = B<sml_tree_path>(c[6]);
			m->object_list = B<sml_obj_req_entry_list>(c[7]);
			m->das_details = B<sml_tree>(c[8]);
			d = m;
			break;
		}
		case 0x301: {
			auto *m = sml_get_profile_pack_response_init();
			m->server_id = B<octet_string>(c[0]);
			m->act_time = B<sml_time>(c[1]);
			m->reg_period = B<u32>(c[2]);
			m->parameter_tree_path = B<sml_tree_path>(c[3]);
			m->header_list = B<sml_sequence>(c[4]);
			m->period_list = B<sml_sequence>(c[5]);
			m->rawdata = B<octet_string>(c[6]);
			m->profile_signature = B<octet_string>(c[7]);
			d = m;
			break;
		}
		case 0x401: {
			auto *m = sml_get_profile_list_response_init();
			m->server_id = B<octet_string>(c[0]);
			m->act_time = B<sml_time>(c[1]);
			m->reg_period = B<u32>(c[2]);
			m->parameter_tree_path = B<sml_tree_path>(c[3]);
			m->val_time = B<sml_time>(c[4]);
			m->status = B<u64>(c[5]);
			m->period_list = B<sml_sequence>(c[6]);
			m->rawdata = B<octet_string>(c[7]);
			m->period_signature = B<octet_string>(c[8]);
			d = m;
			break;
		}
		case 0x500: {
			auto *m = sml_get_proc_parameter_request_init();
			m->server_id = B<octet_string>(c[0]);
			m->username = B<octet_string>(c[1]);
			m->password = B<octet_string>(c[2]);
			m->parameter_tree_path = B<sml_tree_path>(c[3]);
			m->attribute = B<octet_string>(c[4]);
			d = m;
			break;
		}
		case 0x501: {
			auto *m = sml_get_proc_parameter_response_init();
			m->server_id = B<octet_string>(c[0]);
			m->parameter_tree_path = B<sml_tree_path>(c[1]);
			m->parameter_tree = B<sml_tree>(c[2]);
			d = m;
			break;
		}
		case 0x600: {
			auto *m = sml_set_proc_parameter_request_init();
			m->server_id = B<octet_string>(c[0]);
			m->username = B<octet_string>(c[1]);
			m->password = B<octet_string>(c[2]);
			m->parameter_tree_path = B<sml_tree_path>(c[3]);
			m->parameter_tree = B<sml_tree>(c[4]);
			d = m;
			break;
		}
		case 0x700: {
			auto *m = sml_get_list_request_init();
			m->client_id = B<octet_string>(c[0]);
			m->server_id = B<octet_string>(c[1]);
			m->username = B<octet_string>(c[2]);
			m->password = B<octet_string>(c[3]);
			m->list_name = B<octet_string>(c[4]);
			d = m;
			break;
		}
		case 0x701: {
			auto *m = sml_get_list_response_init();
			m->client_id = B<octet_string>(c[0]);
			m->server_id = B<octet_string>(c[1]);
			m->list_name = B<octet_string>(c[2]);
			m->act_sensor_time = B<sml_time>(c[3]);
			m->val_list = B<sml_list>(c[4]);
			m->list_signature = B<octet_string>(c[5]);
			m->act_gateway_time = B<sml_time>(c[6]);
			d = m;
			break;
		}
		default: {
			auto *m = sml_attention_response_init();
			m->server_id = B<octet_string>(c[0]);
			m->attention_number = B<octet_string>(c[1]);
			m->attention_message = B<octet_string>(c[2]);
			m->attention_details = B<sml_tree>(c[3]);
			d = m;
		}
		}
		return sml_message_body_init((u32)n.n, d);
	}
	case MSG: return buildmsg(n);
	default: return mknum(n.n, numsigned(n.k), numwidth(n.k));
	}
}
sml_message *buildmsg(const Node &n) {
	sml_message *m = sml_message_init();
	sml_octet_string_free(m->transaction_id);
	m->transaction_id = B<octet_string>(n.c[0]);
	m->group_id = B<u8>(n.c[1]);
	m->abort_on_error = B<u8>(n.c[2]);
	m->message_body = B<sml_message_body>(n.c[3]);
	return m;
}
void freeany(Kind k, void *p) {
	switch (k) {
	case OCT: sml_octet_string_free((octet_string *)p); break;
	case BOOL: sml_boolean_free((sml_boolean *)p); break;
	case STATUS: sml_status_free((sml_status *)p); break;
	case VALUE: sml_value_free((sml_value *)p); break;
	case TIME: sml_time_free((sml_time *)p); break;
	case PATH: sml_tree_path_free((sml_tree_path *)p); break;
	case TREE: sml_tree_free((sml_tree *)p); break;
	case PPV: sml_proc_par_value_free((sml_proc_par_value *)p); break;
	case PERIOD: sml_period_entry_free((sml_period_entry *)p); break;
	case TUPEL: sml_tupel_entry_free((sml_tupel_entry *)p); break;
	case VLIST: case VLE: sml_list_free((sml_list *)p); break;
	case HDRSEQ: case PERSEQ: case VENTSEQ: case PSEQ: sml_sequence_free((sml_sequence *)p); break;
	case HDR: hdr_free(p); break;
	case PER: per_free(p); break;
	case VENT: vent_free(p); break;
	case BODY: sml_message_body_free((sml_message_body *)p); break;
	case MSG: sml_message_free((sml_message *)p); break;
	default: sml_number_free(p);
	}
}
static void *hdr_parse(sml_buffer *b) { return sml_prof_obj_header_entry_parse(b); }
static void *per_parse(sml_buffer *b) { return sml_prof_obj_period_entry_parse(b); }
static void *vent_parse(sml_buffer *b) { return sml_value_entry_parse(b); }
static void *period_parse(sml_buffer *b) { return sml_period_entry_parse(b); }
bool hasparser(Kind k) { return k != VLE && k != OBJL; }
void *parseany(Kind k, sml_buffer *b) {
	switch (k) {
	case OCT: return sml_octet_string_parse(b);
	case U8: return sml_u8_parse(b);
	case U16: return sml_u16_parse(b);
	case U32: return sml_u32_parse(b);
	case U64: return sml_u64_parse(b);
	case I8: return sml_i8_parse(b);
	case I16: return sml_i16_parse(b);
	case I32: return sml_i32_parse(b);
	case I64: return sml_i64_parse(b);
	case BOOL: return sml_boolean_parse(b);
	case STATUS: return sml_status_parse(b);
	case VALUE: return sml_value_parse(b);
	case TIME: return sml_time_parse(b);
	case PATH: return sml_tree_path_parse(b);
	case TREE: return sml_tree_parse(b);
	case PPV: return sml_proc_par_value_parse(b);
	case PERIOD: return sml_period_entry_parse(b);
	case TUPEL: return sml_tupel_entry_parse(b);
	case VLIST: return sml_list_parse(b);
	case HDR: return hdr_parse(b);
	case PER: return per_parse(b);
	case VENT: return vent_parse(b);
	case HDRSEQ: return sml_sequence_parse(b, hdr_parse, hdr_free);
	case PERSEQ: return sml_sequence_parse(b, per_parse, per_free);
	case VENTSEQ: return sml_sequence_parse(b, vent_parse, vent_free);
	case PSEQ: return sml_sequence_parse(b, period_parse, period_free);
	case BODY: return sml_message_body_parse(b);
	default: return sml_message_parse(b);
	}
}
static void hdr_write(void *p, sml_buffer *b) { sml_prof_obj_header_entry_write((sml_prof_obj_header_entry *)p, b); }
static void per_write(void *p, sml_buffer *b) { sml_prof_obj_period_entry_write((sml_prof_obj_period_entry *)p, b); }
static void vent_write(void *p, sml_buffer *b) { sml_value_entry_write((sml_value_entry *)p, b); }
static void period_write(void *p, sml_buffer *b) { sml_period_entry_write((sml_period_entry *)p, b); }
void writeany(Kind k, void *p, sml_buffer *b) {
	switch (k) {
	case OCT: sml_octet_string_write((octet_string *)p, b); break;
	case BOOL: sml_boolean_write((sml_boolean *)p, b); break;
	case STATUS: sml_status_write((sml_status *)p, b); break;
	case VALUE: sml_value_write((sml_value *)p, b); break;
	case TIME: sml_time_write((sml_time *)p, b); break;
	case PATH: sml_tree_path_write((sml_tree_path *)p, b); break;
	case TREE: sml_tree_write((sml_tree *)p, b); break;
	case PPV: sml_proc_par_value_write((sml_proc_par_value *)p, b); break;
	case PERIOD: sml_period_entry_write((sml_period_entry *)p, b); break;
	case TUPEL: sml_tupel_entry_write((sml_tupel_entry *)p, b); break;
	case VLIST: sml_list_write((sml_list *)p, b); break;
	case HDR: hdr_write(p, b); break;
	case PER: per_write(p, b); break;
	case VENT: vent_write(p, b); break;
	case HDRSEQ: sml_sequence_write((sml_sequence *)p, b, hdr_write); break;
	case PERSEQ: sml_sequence_write((sml_sequence *)p, b, per_write); break;
	case VENTSEQ: sml_sequence_write((sml_sequence *)p, b, vent_write); break;
	case PSEQ: sml_sequence_write((sml_sequence *)p, b, period_write); break;
	case BODY: sml_message_body_write((sml_message_body *)p, b); break;
	case MSG: sml_message_write((sml_message *)p, b); break;
	case U8: sml_u8_write((u8 *)p, b); break;
	case U16: sml_u16_write((u16 *)p, b); break;
	case U32: sml_u32_write((u32 *)p, b); break;
	case U64: sml_u64_write((u64 *)p, b); break;
	case I8: sml_i8_write((i8 *)p, b); break;
	case I16: sml_i16_write((i16 *)p, b); break;
	case I32: sml_i32_write((i32 *)p, b); break;
	case I64: sml_i64_write((i64 *)p, b); break;
	default: break;
	}
}
Node normempty(const Node &n) {
	Node r = n;
	if (!r.null && r.s.empty() && (r.k == OCT || (r.k == VALUE && r.vt == 0)))
		return null(r.k);
	for (auto &c : r.c)
		c = normempty(c);
	return r;
}
} // namespace sm
