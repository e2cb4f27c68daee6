#include "common.hpp"
#include <math.h>
// C19: conversion of values to numbers and to text
static double todouble(bool sign, uint64_t v) {
	bool neg = sign && (int64_t)v < 0;
	uint64_t m = neg ? 0 - v : v;
	if (!m)
		return 0;
	int top = 63 - __builtin_clzll(m), e = 0;
	if (top > 52) { // round to nearest, ties to even
		e = top - 52;
		uint64_t rest = m & ((1ull << e) - 1), half = 1ull << (e - 1);
		m >>= e;
		if (rest > half || (rest == half && (m & 1)))
			m++;
	}
	// m <= 2^53: exact
	double d = 0;
	for (int i = 53; i >= 0; i--)
		d = d * 2 + ((m >> i) & 1);
	d = ldexp(d, e);
	return neg ? -d : d;
}
static void num1(bool sign, int w, uint64_t v) {
	int sh = 64 - 8 * w;
	v = sign ? (uint64_t)((int64_t)(v << sh) >> sh) : v << sh >> sh;
	uint64_t store = v;
	sml_value val;
	memset(&val, 0, sizeof val);
	val.type = (u8)((sign ? 0x50 : 0x60) | w);
	alignas(8) unsigned char b[8];
	memcpy(b, &store, 8); // little endian
	val.data.uint8 = b;
	double got = sml_value_to_double(&val), want = todouble(sign, v);
	if (!(got == want) || signbit(got) != signbit(want))
		mc::fail("%c%d %lld converts to %.20g, expected %.20g", sign ? 'i' : 'u', w * 8, (long long)v, got, want);
	if (memcmp(b, &store, 8) || val.type != ((sign ? 0x50 : 0x60) | w))
		mc::fail("conversion changed the value");
}
static void hexone(const std::string &s, bool mixed) {
	sml_value *v = LIB(sml_value_init());
	v->type = SML_TYPE_OCTET_STRING;
	v->data.bytes = LIB(sml_octet_string_init((unsigned char *)s.data(), (int)s.size()));
	char *res = (char *)1;
	char *r = LIB(sml_value_to_strhex(v, &res, mixed));
	if (s.empty()) {
		if (r)
			mc::fail("text for an empty string");
	} else {
		std::string want;
		size_t i = 0;
		if (mixed)
			while (i < s.size() && (unsigned char)s[i] > 0x20 && (unsigned char)s[i] < 0x7b)
				want += s[i++];
		for (; i < s.size(); i++)
			want += mc::strf("%02x ", (unsigned char)s[i]);
		if (!r || r != res)
			mc::fail("no text (%p, %p)", (void *)r, (void *)res);
		if (want != r)
			mc::fail("%s%s converts to '%s', expected '%s'", mc::hex(s).c_str(), mixed ? " (mixed)" : "", r, want.c_str());
		LIB(free(r));
	}
	if (ext(v) != voct(s))
		mc::fail("conversion changed the value");
	LIB(sml_value_free(v));
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C19", [] {
		mc::Opt o;
		o.exec_timeout = 120;
		o.seconds = mc::tier ? 3000 : 100;
		mc::scenario("small-integers", "every 8 and 16 bit integer; 32 bit: every high half with 64 low halves (thorough: every one)", o, [] {
			int k = choose(6), hi = choose(256);
			bool sg = k & 1;
			int w = k < 2 ? 1 : k < 4 ? 2 : 4;
			long n = 256;
			if (w == 1) {
				if (hi)
					return mc::discard();
				for (int lo = 0; lo < 256; lo++)
					num1(sg, 1, lo);
			} else if (w == 2)
				for (int lo = 0; lo < 256; lo++)
					num1(sg, 2, hi << 8 | lo);
			else
				for (uint32_t mid = 0; mid < 256; mid++) {
					static const uint16_t lows[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x5555, 0xaaaa, 0x1234};
					uint32_t h = (uint32_t)hi << 24 | mid << 16;
					if (mc::tier)
						for (uint32_t l = 0; l < 65536; l++)
							num1(sg, 4, h | l);
					else
						for (int l = 0; l < 16; l++) {
							num1(sg, 4, h | lows[l]);
							num1(sg, 4, h | (lows[l] ^ mid));
						}
					n += 32;
				}
			mc::outcome(mc::hash(mc::strf("n %d %d", k, hi)));
			mc::transition(n);
			mc::validated(n);
			if (mc::want_note())
				mc::note(mc::strf("%c%d, first byte %02x", sg ? 'i' : 'u', w * 8, hi));
		});
		mc::scenario("large-integers", "64 bit: every number with at most 3 bits set or cleared (thorough: 4), and every number within 5 of them, both signs", o, [] {
			int a = choose(65), b = choose(65), inv = choose(2);
			if (b > a)
				return mc::discard();
			for (int c = 0; c <= b; c++)
				for (int d = 0; d <= (mc::tier ? c : 0); d++)
					for (int off = -5; off <= 5; off++) {
						uint64_t v = (a < 64 ? 1ull << a : 0) | (b < 64 ? 1ull << b : 0) | (c < 64 ? 1ull << c : 0) | (mc::tier && d < 64 ? 1ull << d : 0);
						if (inv)
							v = ~v;
						v += off;
						num1(false, 8, v);
						num1(true, 8, v);
						num1(false, 8, v * 3);
						num1(true, 8, v << 1 ^ v);
					}
			mc::outcome(mc::hash(mc::strf("N %d %d %d", a, b, inv)));
			mc::transition(b * 44);
			mc::validated(b * 44);
		});
		mc::scenario("other-types", "values that are no integers, of every type byte, convert to 0; parsed values convert as built ones", o, [] {
			int ty = choose(256);
			sml_value v;
			memset(&v, 0, sizeof v);
			v.type = (u8)ty;
			u64 x = 0x4142434445464748ull;
			octet_string os;
			os.str = (unsigned char *)&x;
			os.len = 8;
			sml_boolean bl = 1;
			v.data.uint64 = ty == 0 ? (u64 *)&os : ty == 0x40 ? (u64 *)&bl : &x;
			bool integer = ((ty & 0xf0) == 0x50 || (ty & 0xf0) == 0x60) && ((ty & 15) == 1 || (ty & 15) == 2 || (ty & 15) == 4 || (ty & 15) == 8);
			double d = sml_value_to_double(&v);
			if (!integer && d != 0)
				mc::fail("a value of type 0x%02x converts to %g", ty, d);
			mc::outcome(ty);
			// through the parser: every value alternative of the generator
			Gen g;
			Node n = sample(VALUE, ty % 5);
			std::string e = encode(n);
			Exact ex(e);
			sml_buffer b = {ex.p, ex.n, 0, 0, 0};
			sml_value *p = LIB(sml_value_parse(&b));
			double got = LIB(sml_value_to_double(p));
			double want = n.vt == 0x50 || n.vt == 0x60 ? todouble(n.vt == 0x50, n.n) : 0;
			if (got != want)
				mc::fail("parsed %s converts to %g", dump(n).c_str(), got);
			LIB(sml_value_free(p));
			mc::validated(2);
		});
		mc::scenario("text", "every string of up to 2 bytes, every string of up to 6 bytes over {00 20 21 41 7a 7b ff} (thorough: 7), strings of every length up to 400, both modes", o, [] {
			mc::track_reset();
			int how = choose(3), mixed = choose(2);
			std::string s;
			if (how == 0) {
				int n = choose(3);
				if (n)
					s = (char)choose(256);
				if (n < 2)
					hexone(s, mixed);
				else
					for (int v = 0; v < 256; v++)
						hexone(s + (char)v, mixed);
			} else if (how == 1) {
				static const char al[] = {0, 0x20, 0x21, 0x41, 0x7a, 0x7b, (char)0xff};
				int n = choose(mc::tier ? 8 : 7);
				for (int i = 0; i < n; i++)
					s += al[choose(7)];
				hexone(s, mixed);
			} else {
				int n = choose(402);
				if (n > 400)
					n = 70000;
				s = std::string(n, 'x');
				hexone(s, mixed);
				for (int i = 0; i < n; i++)
					s[i] = (char)(i * 5);
				hexone(s, mixed);
				if (n) {
					s = std::string(n, 'x');
					s[n - 1] = ' ';
					hexone(s, mixed);
				}
			}
			leakcheck("conversion to text", s);
			mc::outcome("t" + s + (char)mixed);
			mc::validated();
			if (mc::want_note())
				mc::note(mc::hex(s));
		});
		mc::scenario("positions", "strings of 1 to 160 bytes of one kind (x, space, z, {, ff) with one other byte out of {00 20 21 41 7a 7b 7f 80 ff} at every position, both modes; the same for 255 to 257 and 1023 to 1025 bytes (thorough also 4095 to 4097)", o, [] {
			mc::track_reset();
			int li = choose(mc::tier ? 169 : 166), mixed = choose(2), fill = choose(5), by = choose(9);
			static const unsigned char fl[] = {'x', ' ', 'z', '{', 0xff}, ot[] = {0, 0x20, 0x21, 0x41, 0x7a, 0x7b, 0x7f, 0x80, 0xff};
			int n = li < 160 ? li + 1 : li < 163 ? li + 95 : li < 166 ? li + 860 : li + 3929;
			std::string s(n, (char)fl[fill]);
			for (int i = 0; i < n; i++) {
				if (n > 4000 && i % 64 > 1 && i % 64 < 63)
					continue;
				s[i] = (char)ot[by];
				hexone(s, mixed);
				s[i] = (char)fl[fill];
			}
			leakcheck("conversion to text", s);
			mc::outcome(mc::hash(mc::strf("p %d %d %d %d", n, mixed, fill, by)));
			mc::validated(n);
			mc::transition(n);
			if (mc::want_note())
				mc::note(mc::strf("%d bytes of %02x, one of %02x", n, fl[fill], ot[by]));
		});
		mc::scenario("visible", "strings of 2 to 300 bytes (thorough: 1100; and selected longer ones), visible up to a byte of any value at any position (thorough; otherwise at every 13th), mixed mode", o, [] {
			static const int big[] = {4096, 65535, 65536, 70000};
			int li = choose((mc::tier ? 1099 : 299) + 4), r = choose(7);
			int n = li < 4 ? big[li] : li - 2, step = n > 1100 ? n / 8 : mc::tier ? 7 : 13;
			std::string s(n, 'Q');
			mc::track_reset();
			int k = 0;
			if (!mc::tier || r == 0)
				for (int i = n > 1100 ? n - 1 - r : mc::tier ? r : (n * 5 + r) % 13; i >= 0 && i < n; i += n > 1100 ? -step : step)
					for (int v = 0; v < 256; v += n > 1100 ? 17 : 1) {
						s[i] = (char)v;
						hexone(s, true);
						s[i] = 'Q';
						k++;
					}
			leakcheck("conversion to text", s);
			mc::outcome(mc::hash(mc::strf("v %d %d", n, r)));
			mc::validated(k);
			mc::transition(k);
			if (mc::want_note())
				mc::note(mc::strf("%d visible bytes, one of any value", n));
		});
		mc::scenario("absent", "no value, a value without string, an empty string, parsed or built, both modes", o, [] {
			int how = choose(4), mixed = choose(2);
			mc::track_reset();
			sml_value *v = 0;
			char *res = (char *)1;
			if (how == 1)
				v = LIB(sml_value_init());
			if (how == 2) {
				v = LIB(sml_value_init());
				v->data.bytes = LIB(sml_octet_string_init((unsigned char *)"", 0));
			}
			if (how == 3) {
				Exact e(std::string("\x80\x02", 2));
				sml_buffer b = {e.p, e.n, 0, 0, 0};
				v = LIB(sml_value_parse(&b));
				if (!v || b.error)
					mc::fail("an empty string does not parse");
			}
			char *r = LIB(sml_value_to_strhex(v, &res, mixed));
			if (r || res)
				mc::fail("text for an absent string: %p %p", (void *)r, (void *)res);
			LIB(sml_value_free(v));
			leakcheck("conversion to text", "");
			mc::outcome(how * 2 + mixed);
			mc::validated();
		});
	});
}
