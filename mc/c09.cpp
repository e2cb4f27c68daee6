#include "common.hpp"
#include <sml/sml_number.h>
#include <sml/sml_status.h>
// C09: integers keep value, sign and width in both directions
static const Kind kinds[] = {U8, U16, U32, U64, I8, I16, I32, I64};
static const uint8_t B[] = {0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff};

static uint64_t denotes(const std::string &c, bool sign) {
	uint64_t v = sign && !c.empty() && (c[0] & 0x80) ? ~0ull : 0;
	for (unsigned char x : c)
		v = v << 8 | x;
	return v;
}
static std::string header(uint8_t ty, size_t n, int tlx) { return tl(ty, n, tlx); }

// parses one element with parser k; what follows it in the buffer is `next`
static void parse(Kind k, uint8_t ty, const std::string &content, int tlx, const std::string &next) {
	std::string el = header(ty, content.size(), tlx) + content, in = el + next;
	if (el.size() == 1 && el[0] == 1)
		return; // the absent marker
	Exact e(in);
	sml_buffer b = {e.p, e.n, 0, 0, 0};
	void *p = LIB(parseany(k, &b));
	bool sign = k == VALUE ? ty == 0x50 : isnum(k) && numsigned(k);
	bool fits = k == VALUE || k == STATUS ? content.size() <= 8 : (int)content.size() <= numwidth(k);
	if (k == STATUS && ty != 0x60)
		fits = false;
	if (isnum(k) && ty != (numsigned(k) ? 0x50 : 0x60))
		fits = false;
	if (!fits) {
		if (!b.error)
			mc::fail("%s: %s accepted", kindname[k], mc::hex(el).c_str());
		if (p)
			mc::fail("%s: %s: error and an object", kindname[k], mc::hex(el).c_str());
		return;
	}
	if (content.empty() && next.empty())
		return LIB(freeany(k, p)); // left open
	if (b.error || !p)
		mc::fail("%s: %s refused", kindname[k], mc::hex(el).c_str());
	if (b.cursor != el.size())
		mc::fail("%s: %s: position %zu", kindname[k], mc::hex(el).c_str(), b.cursor);
	Node got = extany(k, p), want;
	uint64_t v = denotes(content, sign);
	int w = content.size() <= 1 ? 1 : content.size() <= 2 ? 2 : content.size() <= 4 ? 4 : 8;
	want = k == VALUE ? vint(sign, v, w) : k == STATUS ? status(v, w) : num(k, v);
	if (got != want)
		mc::fail("%s: %s (followed by %s) decodes to %s, expected %s", kindname[k], mc::hex(el).c_str(),
				 mc::hex(next).c_str(), dump(got).c_str(), dump(want).c_str());
	// written in full width
	sml_buffer *o = LIB(sml_buffer_init(1));
	LIB(writeany(k, p, o));
	int fw = k == VALUE || k == STATUS ? w : numwidth(k);
	std::string be;
	for (int i = fw - 1; i >= 0; i--)
		be += (char)(v >> (8 * i));
	std::string wr = tl(ty, fw) + be;
	if (o->error || o->cursor != wr.size() || memcmp(o->buffer, wr.data(), wr.size()))
		mc::fail("%s: %s is written as %s, expected %s", kindname[k], dump(got).c_str(),
				 mc::hex(o->buffer, o->cursor).c_str(), mc::hex(wr).c_str());
	LIB(sml_buffer_free(o));
	LIB(freeany(k, p));
}
static Kind pickkind(int i) { return i < 8 ? kinds[i] : i == 8 || i == 9 ? VALUE : STATUS; }
static uint8_t picktype(int i) { return i < 4 ? 0x60 : i < 8 ? 0x50 : i == 8 ? 0x60 : i == 9 ? 0x50 : 0x60; }

int main(int argc, char **argv) {
	return mc::main(argc, argv, "C09", [] {
		mc::Opt o;
		o.exec_timeout = 120;
		o.seconds = mc::tier ? 1800 : 100;
		mc::scenario("short", "11 integer parsers, every content of up to 2 bytes (thorough: 3), followed by nothing, 0x00, 0x80 or 0xff", o, [] {
			int i = choose(11), n = choose(mc::tier ? 4 : 3);
			int hi = n >= 2 ? choose(256) : 0, mid = n >= 3 ? choose(256) : 0, f = choose(4);
			static const char *nx[] = {"", "\x80", "\xff", "Z"};
			mc::track_reset();
			for (int lo = 0; lo < (n ? 256 : 1); lo++) {
				std::string c;
				if (n >= 2) c += (char)hi;
				if (n >= 3) c += (char)mid;
				if (n >= 1) c += (char)lo;
				parse(pickkind(i), picktype(i), c, 0, f == 3 ? std::string(9, 0) : nx[f]);
			}
			leakcheck("parsing numbers", "");
			mc::outcome(mc::hash(mc::strf("s %d %d %d %d %d", i, n, hi, mid, f)));
			mc::transition(256);
			mc::validated(256);
			if (mc::want_note())
				mc::note(mc::strf("%s content %d bytes, first %02x, last 00..ff", kindname[pickkind(i)], n, hi));
		});
		mc::scenario("long", "11 integer parsers, contents of 3 to 8 bytes from {00 01 7f 80 fe ff} (quick: up to 5 free bytes), with 0 to 2 superfluous header bytes", o, [] {
			int i = choose(11), n = 3 + choose(6), tlx = choose(3);
			int a = choose(6), b = choose(6), c = choose(6), d = choose(6);
			mc::track_reset();
			for (int e = 0; e < 6; e++)
				for (int g = 0; g < (mc::tier ? 6 : 2); g++)
					for (int h = 0; h < (mc::tier ? 6 : 1); h++) {
						uint8_t v[8] = {B[a], B[b], B[c], B[d], B[e], B[g], B[h], 0xa5};
						if (!mc::tier) {
							v[5] = g ? 0x80 : 0x3c;
							v[6] = B[(a + e) % 6];
						}
						// the distinguished bytes at both ends
						std::string s((char *)v, n);
						parse(pickkind(i), picktype(i), s, tlx, "\xff");
						std::string r(s.rbegin(), s.rend());
						parse(pickkind(i), picktype(i), r, tlx, "");
					}
			leakcheck("parsing numbers", "");
			mc::outcome(mc::hash(mc::strf("l %d %d %d %d %d %d %d", i, n, tlx, a, b, c, d)));
			mc::transition(24);
			mc::validated(24);
		});
		mc::scenario("too-long", "11 integer parsers, contents of 0 to 40 bytes of every header form and both integer types and others: more bytes than the width are refused", o, [] {
			int i = choose(11), n = choose(41), tlx = choose(4), ty = choose(8), lead = choose(6);
			mc::track_reset();
			uint8_t t = (uint8_t)(ty << 4);
			Kind k = pickkind(i);
			if (k == VALUE && t != 0x50 && t != 0x60)
				return mc::discard();
			std::string c(n, (char)0x11);
			if (n)
				c[0] = (char)B[lead];
			if (t == 0x70)
				return mc::discard();
			if (k == VALUE)
				parse(k, t, c, tlx, "zz");
			else
				parse(k, t, c, tlx, "zz");
			leakcheck("refusing numbers", c);
			mc::outcome(mc::hash(mc::strf("t %d %d %d %d %d", i, n, tlx, ty, lead)));
			mc::validated();
		});
		mc::scenario("cut", "11 integer parsers, declared lengths 1 to 8 with 0 to that many bytes present", o, [] {
			int i = choose(11), n = 1 + choose(8), have = choose(9), fill = choose(6);
			if (have > n)
				return mc::discard();
			Kind k = pickkind(i);
			mc::track_reset();
			std::string in = tl(picktype(i), n) + std::string(have, (char)B[fill]);
			Exact e(in);
			sml_buffer b = {e.p, e.n, 0, 0, 0};
			void *p = LIB(parseany(k, &b));
			bool ok = have == n && (!isnum(k) || n <= numwidth(k));
			if (ok ? b.error || !p : !b.error || p)
				mc::fail("%s: %s: error %d, object %p", kindname[k], mc::hex(in).c_str(), b.error, p);
			LIB(freeany(k, p));
			leakcheck("cut off numbers", in);
			mc::outcome(in + (char)i);
			mc::validated();
		});
		mc::scenario("write", "8 widths: every 8 and 16 bit value, 32 and 64 bit values of bytes from {00 01 7f 80 fe ff}, made by the public constructor and written at every earlier contents of the buffer", o, [] {
			int i = choose(8), hi = choose(256), fill = choose(3);
			int w = numwidth(kinds[i]);
			bool sg = numsigned(kinds[i]);
			mc::track_reset();
			for (int lo = 0; lo < 256; lo++) {
				uint64_t v = 0;
				if (w <= 2)
					v = (uint64_t)(hi << 8 | lo);
				else
					for (int j = 0, x = hi, y = lo; j < w; j++) {
						v = v << 8 | B[j < w / 2 ? x % 6 : y % 6];
						(j < w / 2 ? x : y) /= w == 4 ? 6 : 4;
					}
				if (w == 8 && lo >= 128)
					v = v * 0x9E3779B97F4A7C15ull;
				int sh = 64 - 8 * w;
				uint64_t full = sg ? (uint64_t)((int64_t)(v << sh) >> sh) : v << sh >> sh;
				void *p = LIB(sml_number_init(full, sg ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, w));
				Node n = extany(kinds[i], p);
				if (n != num(kinds[i], full))
					mc::fail("%s made from %llx holds %s", kindname[kinds[i]], (unsigned long long)full, dump(n).c_str());
				sml_buffer *b = LIB(sml_buffer_init(20));
				static const uint8_t fl[] = {0, 0xff, 0x5a};
				memset(b->buffer, fl[fill], 20);
				b->cursor = lo % 12;
				size_t at = b->cursor;
				LIB(writeany(kinds[i], p, b));
				std::string want = tl(sg ? 0x50 : 0x60, w);
				for (int j = w - 1; j >= 0; j--)
					want += (char)(full >> (8 * j));
				if (b->error || b->cursor != at + want.size() || memcmp(b->buffer + at, want.data(), want.size()))
					mc::fail("%s is written as %s, expected %s", dump(n).c_str(), mc::hex(b->buffer + at, want.size()).c_str(), mc::hex(want).c_str());
				if (extany(kinds[i], p) != n)
					mc::fail("writing changed the number");
				LIB(freeany(kinds[i], p));
				LIB(sml_buffer_free(b));
			}
			leakcheck("writing numbers", "");
			mc::outcome(mc::hash(mc::strf("w %d %d %d", i, hi, fill)));
			mc::transition(256);
			mc::validated(256);
		});
	});
}
