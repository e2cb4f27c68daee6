#include "common.hpp"
#include <sys/mman.h>
// C10: the checksum functions, compared with a bitwise computation
static unsigned char *page; // two pages, the second one not accessible
static void setup() {
	if (page)
		return;
	page = (unsigned char *)mmap(0, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(page + (2 << 20), 4096, PROT_NONE);
}
static void one(const unsigned char *p, int n) {
	uint16_t a = sml_crc16_calculate((unsigned char *)p, n), b = sml_crc16kermit_calculate((unsigned char *)p, n);
	uint16_t wa = crc_sml(p, n), wb = crc_kermit(p, n);
	if (a != wa || b != wb)
		mc::fail("of %s (%d bytes): x25 %04x, expected %04x; kermit %04x, expected %04x", mc::hex(p, n, 60).c_str(), n, a, wa, b, wb);
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C10", [] {
		mc::Opt o;
		o.exec_timeout = 120;
		o.seconds = mc::tier ? 3000 : 120;
		mc::scenario("short", "every byte sequence of up to 3 bytes (thorough: 4)", o, [] {
			setup();
			int n = choose(mc::tier ? 5 : 4);
			int a = n >= 3 ? choose(256) : 0, c = n >= 4 ? choose(256) : 0;
			unsigned char *p = page + (2 << 20) - n;
			long cnt = n == 0 ? 1 : n == 1 ? 256 : 65536;
			for (long r = 0; r < cnt; r++) {
				unsigned char b[4] = {(unsigned char)r, (unsigned char)(r >> 8), (unsigned char)a, (unsigned char)c};
				memcpy(p, b, n);
				one(p, n);
			}
			mc::outcome(mc::hash(mc::strf("%d %d %d", n, a, c)));
			mc::transition(cnt);
			mc::validated(cnt);
			if (mc::want_note())
				mc::note(mc::strf("%d bytes, third %02x", n, a));
		});
		mc::scenario("lengths", "every length up to 2200 and around 2^12, 2^15, 2^16 and 2^20, 6 patterns, every alignment, 3 surroundings", o, [] {
			setup();
			int i = choose(2200 + 160), pat = choose(6), sur = choose(3);
			static const int base[] = {4096, 32768, 65536, 1 << 20};
			int n = i < 2200 ? i : base[(i - 2200) / 40] - 20 + (i - 2200) % 40;
			for (int al = 0; al < (n > 5000 ? 2 : 8); al++) {
				unsigned char *p = page + (2 << 20) - n - al;
				static const unsigned char s[] = {0, 0xff, 0x55};
				memset(p - 16, s[sur], 16);
				memset(p + n, s[sur], al);
				for (int j = 0; j < n; j++)
					p[j] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? j : pat == 3 ? j * 37 + (j >> 8) : pat == 4 ? 0x80 >> (j & 7) : (j * 2654435761u) >> 24;
				one(p, n);
			}
			mc::outcome(mc::hash(mc::strf("l %d %d %d", n, pat, sur)));
			mc::validated(8);
		});
		mc::scenario("positions", "every single byte value at every position of sequences of zeros and of ones of up to 80 bytes", o, [] {
			setup();
			int n = 1 + choose(80), bg = choose(2);
			unsigned char *p = page + (2 << 20) - n;
			for (int at = 0; at < n; at++)
				for (int v = 0; v < 256; v++) {
					memset(p, bg ? 0xff : 0, n);
					p[at] = v;
					one(p, n);
				}
			mc::outcome(mc::hash(mc::strf("p %d %d", n, bg)));
			mc::transition(n * 256);
			mc::validated(n * 256);
		});
		mc::scenario("history", "all sequences of up to 4 calls of the two functions on 5 inputs", o, [] {
			setup();
			static const char *in[] = {"", "123456789", "\xff", "\x76\x01", "ab"};
			int n = 1 + choose(4);
			for (int i = 0; i < n; i++) {
				int f = choose(2), k = choose(5);
				size_t l = strlen(in[k]);
				uint16_t r = f ? sml_crc16kermit_calculate((unsigned char *)in[k], l) : sml_crc16_calculate((unsigned char *)in[k], l);
				uint16_t w = f ? crc_kermit(in[k], l) : crc_sml(in[k], l);
				if (r != w)
					mc::fail("call %d (%s of %s) gives %04x, expected %04x", i, f ? "kermit" : "x25", in[k], r, w);
				mc::validated();
			}
		});
	});
}
