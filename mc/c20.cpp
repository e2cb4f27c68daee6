#include "common.hpp"
// C20: comparing octet strings, with each other and with a hex spelling
static octet_string *mk(const std::string &s) { return LIB(sml_octet_string_init((unsigned char *)s.data(), (int)s.size())); }
static void cmp(const std::string &a, const std::string &b) {
	octet_string *x = mk(a), *y = mk(b);
	int r = LIB(sml_octet_string_cmp(x, y)), q = LIB(sml_octet_string_cmp(y, x));
	if ((r == 0) != (a == b) || (q == 0) != (a == b))
		mc::fail("comparing %s with %s gives %d and %d", mc::hex(a).c_str(), mc::hex(b).c_str(), r, q);
	if (LIB(sml_octet_string_cmp(x, x)) != 0)
		mc::fail("%s differs from itself", mc::hex(a).c_str());
	if (ext(x).s != a || ext(y).s != b)
		mc::fail("comparing changed a string");
	LIB(sml_octet_string_free(x));
	LIB(sml_octet_string_free(y));
}
static int hexval(unsigned char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
static void hexcmp(const std::string &a, const std::string &spell) {
	std::string bytes;
	bool odd = spell.size() % 2;
	for (size_t i = 0; i + 1 < spell.size(); i += 2)
		bytes += (char)(hexval(spell[i]) << 4 | hexval(spell[i + 1]));
	octet_string *x = mk(a);
	char *h = (char *)malloc(spell.size() + 1);
	memcpy(h, spell.c_str(), spell.size() + 1);
	int r = LIB(sml_octet_string_cmp_with_hex(x, h));
	if (strcmp(h, spell.c_str()))
		mc::fail("the spelling was changed");
	free(h);
	bool eq = !odd && bytes == a;
	if ((r == 0) != eq)
		mc::fail("comparing %s with the spelling '%s' gives %d", mc::hex(a).c_str(), spell.c_str(), r);
	LIB(sml_octet_string_free(x));
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C20", [] {
		mc::Opt o;
		o.seconds = 120;
		mc::scenario("pairs", "every pair of strings of up to 3 bytes over {00 01 7f 80 ff 'a'}, and every pair of single bytes", o, [] {
			static const char al[] = {0, 1, 0x7f, (char)0x80, (char)0xff, 'a'};
			mc::track_reset();
			std::string a, b;
			if (choose(2)) {
				a = (char)choose(256);
				for (int v = 0; v < 256; v++)
					cmp(a, std::string(1, (char)v));
				mc::transition(256);
				mc::validated(256);
			} else {
				int n = choose(4), m = choose(4);
				for (int i = 0; i < n; i++) a += al[choose(6)];
				for (int i = 0; i < m; i++) b += al[choose(6)];
				cmp(a, b);
				mc::validated();
			}
			if (mc::want_note())
				mc::note(mc::hex(a) + " / " + mc::hex(b));
			mc::outcome("p" + a + "/" + b);
			leakcheck("comparing", a + b);
		});
		mc::scenario("rearranged", "all pairs of strings of the same length up to 3 bytes (thorough: 4) over 10 bytes, of 4 to 20 bytes that differ in any two positions (swapped, or one more here and one less there), compared with each other and with their spellings", o, [] {
			static const char al[] = {0, 1, 2, 0x0f, 0x10, 0x11, 0x7f, (char)0x80, (char)0xf0, (char)0xff};
			mc::track_reset();
			auto both = [](const std::string &a, const std::string &b) {
				cmp(a, b);
				std::string s;
				for (unsigned char c : b)
					s += mc::strf("%02x", c);
				hexcmp(a, s);
			};
			std::string a;
			if (choose(2)) {
				int n = 1 + choose(mc::tier ? 4 : 3), all = 1;
				for (int i = 0; i < n; i++) {
					a += al[choose(10)];
					all *= 10;
				}
				for (int k = 0; k < all; k++) {
					std::string b;
					for (int i = 0, q = k; i < n; i++, q /= 10)
						b += al[q % 10];
					both(a, b);
				}
				mc::transition(all);
			} else {
				int n = 4 + choose(17), form = choose(3);
				a = form == 0 ? bytes_of(n, 9) : form == 1 ? std::string(n, 'a') : std::string(n, (char)0x80);
				for (int i = 0; i < n; i++)
					for (int j = 0; j < n; j++) {
						std::string b = a;
						std::swap(b[i], b[j]);
						both(a, b);
						b = a;
						b[i]++;
						b[j]--;
						both(a, b);
						b = a;
						b[i] ^= 0x55;
						b[j] ^= 0x55;
						both(a, b);
						b = a;
						b[i] = 0;
						b[j] = 0;
						both(a, b);
					}
			}
			mc::outcome("r" + a);
			mc::validated();
			leakcheck("comparing", a);
		});
		mc::scenario("odd", "spellings of 0 to 12 digits followed by one more character of any value (not a whole number of bytes), compared with the bytes spelled, with one byte more, and with the bytes around", o, [] {
			mc::track_reset();
			int n = choose(7), up = choose(2), c = 1 + choose(255);
			std::string a = bytes_of(n, 0x9a), s;
			for (unsigned char x : a)
				s += mc::strf(up ? "%02X" : "%02x", x);
			std::string t = s + (char)c;
			hexcmp(a, t);
			for (int v = 0; v < 256; v++)
				hexcmp(a + (char)v, t);
			if (n)
				hexcmp(a.substr(0, n - 1), t);
			hexcmp(a, (char)c + s);
			for (int v = 0; v < 256; v++)
				hexcmp((char)v + a, (char)c + s);
			mc::outcome("o" + t);
			mc::validated();
			mc::transition(512);
			leakcheck("comparing", a);
		});
		mc::scenario("long", "strings of every length up to 300 and of 1000, 65536: equal, 1, 256, 65536 (and 2^24) bytes longer, and different in one bit at every (thorough; quick: selected) position", o, [] {
			mc::track_reset();
			int n = choose(302);
			if (n == 300) n = 1000;
			if (n == 301) n = 65536;
			std::string a = bytes_of(n, 5), b = a;
			cmp(a, b);
			cmp(a, a + "x");
			cmp(a, a + std::string(1, 0));
			std::string x(a.size() + 256, 'q');
			cmp(a, x);
			cmp(a, a + std::string(256, 0));
			cmp(a, a + std::string(65536, 'q'));
			if (n == 1 || n == 1000)
				cmp(a, a + std::string(1 << 24, 'q'));
			int step = n > 300 ? n / 50 : mc::tier ? 1 : 1 + n / 20;
			for (int i = 0; i < n; i += step) {
				b = a;
				b[i] ^= 1 << (i & 7);
				cmp(a, b);
			}
			if (n) {
				b = a;
				b[n - 1] ^= 0x80;
				cmp(a, b);
			}
			mc::outcome(mc::hash(mc::strf("l%d", n)));
			mc::validated();
			leakcheck("comparing", "");
		});
		mc::scenario("hex", "strings of up to 2 bytes over 12 bytes with every spelling of up to 5 digits over {0 1 9 a A f F 7} (thorough: 6), and every byte with every two-digit spelling in every case", o, [] {
			mc::track_reset();
			if (choose(2)) {
				int v = choose(256);
				static const char d[] = "0123456789abcdefABCDEF";
				for (int i = 0; i < 22; i++)
					for (int j = 0; j < 22; j++)
						hexcmp(std::string(1, (char)v), std::string(1, d[i]) + d[j]);
				mc::transition(484);
				mc::validated(484);
				mc::outcome(mc::hash(mc::strf("h%d", v)));
			} else {
				static const char d[] = "019aAfF7";
				std::string s;
				int n = choose(mc::tier ? 7 : 6);
				for (int i = 0; i < n; i++)
					s += d[choose(8)];
				std::string own, e;
				for (size_t i = 0; i + 1 < s.size(); i += 2)
					own += (char)(hexval(s[i]) << 4 | hexval(s[i + 1]));
				// the bytes spelled, and neighbours of them
				hexcmp(own, s);
				hexcmp(own + "\x01", s);
				hexcmp(own + std::string(1, 0), s);
				if (s.size() % 2) {
					hexcmp(own + (char)hexval(s.back()), s);
					hexcmp(own + (char)(hexval(s.back()) << 4), s);
				}
				hexcmp("", s);
				if (!own.empty()) {
					hexcmp(own.substr(1), s);
					hexcmp(own.substr(0, own.size() - 1), s);
					for (size_t i = 0; i < own.size(); i++)
						for (int b = 0; b < 8; b++) {
							e = own;
							e[i] ^= 1 << b;
							hexcmp(e, s);
						}
				}
				mc::validated();
				mc::outcome("x" + s);
				if (mc::want_note())
					mc::note(s);
			}
			leakcheck("comparing with hex", "");
		});
		mc::scenario("hex-long", "spellings of strings of every length up to 300, in lower, upper and mixed case, exact, one digit short, one digit long, different in one digit", o, [] {
			mc::track_reset();
			int n = choose(301), up = choose(3);
			std::string a = bytes_of(n, n), s;
			for (size_t i = 0; i < a.size(); i++)
				s += mc::strf(up == 0 || (up == 2 && (i & 1)) ? "%02x" : "%02X", (unsigned char)a[i]);
			hexcmp(a, s);
			hexcmp(a, s + "0");
			hexcmp(a, s + "00");
			if (n) {
				hexcmp(a, s.substr(0, s.size() - 1));
				hexcmp(a, s.substr(0, s.size() - 2));
				hexcmp(a, s.substr(1));
				for (size_t i = 0; i < s.size(); i += 1 + s.size() / 16) {
					std::string t = s;
					t[i] = t[i] == '0' ? '1' : '0';
					hexcmp(a, t);
				}
				std::string t = s;
				t.back() = t.back() == '0' ? '1' : '0';
				hexcmp(a, t);
			}
			mc::outcome(mc::hash(mc::strf("g%d %d", n, up)));
			mc::validated();
			leakcheck("comparing with hex", "");
		});
		mc::scenario("hex-huge", "spellings of strings of 1 to 32 MB, equal and different in the last digit", o, [] {
			mc::track_reset();
			size_t n = (size_t)1 << (20 + choose(6));
			std::string a(n, (char)0xab), s(2 * n, 'a');
			for (size_t i = 1; i < 2 * n; i += 2)
				s[i] = 'B';
			octet_string *x = LIB(sml_octet_string_init((unsigned char *)a.data(), (int)n));
			if (LIB(sml_octet_string_cmp_with_hex(x, (char *)s.c_str())) != 0)
				mc::fail("a string of %zu bytes does not equal its spelling", n);
			s.back() = 'a';
			if (LIB(sml_octet_string_cmp_with_hex(x, (char *)s.c_str())) == 0)
				mc::fail("a string of %zu bytes equals another spelling", n);
			LIB(sml_octet_string_free(x));
			mc::outcome(n);
			mc::validated(2);
			leakcheck("comparing with hex", "");
		});
	});
}
