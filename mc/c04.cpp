#include "files.hpp"
// C04: exactly the messages whose checksum matches are delivered
static void check(const std::vector<Node> &want, const std::string &b, const char *what) {
	if (mc::want_note())
		mc::note(dumpall(want).substr(0, 600) + " <- " + mc::hex(b, 300));
	expect(libparse(b), want, b, what);
	mc::outcome(b);
	mc::validated();
}
static void put(std::string &b, const Node &m, int variant, uint16_t x) {
	W w = lower(m);
	W &c = w.kids[4];
	c.kermit = variant == 1;
	c.crcxor = x;
	emit(w, b);
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C04", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("all-checksums", "every value of the 16 bit checksum field of a message of every kind, between two intact messages", o, [] {
			int t = choose(14), hi = choose(256), lo = choose(256);
			Node m = compact(tags[t], 0), a = compact(0x201, 1), z = compact(0x101, 2);
			std::string b = encode(a), x;
			put(x, m, 0, 0);
			size_t n = x.size();
			uint16_t c1 = crc_sml(x.data(), n - 4), c2 = crc_kermit(x.data(), n - 4), c = (uint16_t)(hi << 8 | lo);
			x[n - 3] = (char)hi;
			x[n - 2] = (char)lo;
			std::vector<Node> want{a};
			if (c == c1 || c == c2)
				want.push_back(m);
			want.push_back(z);
			check(want, b + x + encode(z), "checksum field");
		});
		o.budget = 2;
		mc::scenario("encodings", "each kind of message in all encodings with up to 2 deviating encoding choices, both checksums, the field correct, off by a bit or byte-swapped", o, [] {
			int t = choose(14), v = choose(2), how = choose(5);
			Node m = compact(tags[t], 0), z = compact(0x201, 2);
			EncMC e;
			W w = lower(m, e);
			w.kids[4].kermit = v;
			std::string x;
			emit(w, x);
			size_t n = x.size();
			uint16_t c = (uint8_t)x[n - 3] << 8 | (uint8_t)x[n - 2];
			uint16_t good1 = crc_sml(x.data(), n - 4), good2 = crc_kermit(x.data(), n - 4);
			if (how == 1) c ^= 1;
			if (how == 2) c ^= 0x8000;
			if (how == 3) c = (uint16_t)(c << 8 | c >> 8);
			if (how == 4) c = (uint16_t)~c;
			x[n - 3] = (char)(c >> 8);
			x[n - 2] = (char)c;
			std::vector<Node> want;
			if (c == good1 || c == good2)
				want.push_back(m);
			want.push_back(z);
			check(want, x + encode(z), "checksum of an encoding");
		});
		o.budget = 0;
		mc::scenario("sequences", "all sequences of up to 4 messages (thorough: 6), each of 3 kinds, each with a matching X.25, a matching Kermit, a wrong, or a swapped checksum", o, [] {
			int n = 1 + choose(mc::tier ? 6 : 4);
			std::vector<Node> want;
			std::string b;
			static const uint32_t tg[] = {0x701, 0x201, 0x500};
			for (int i = 0; i < n; i++) {
				int k = choose(n > 4 ? 2 : 3), how = choose(4);
				Node m = compact(tg[k], i);
				std::string x;
				put(x, m, how == 1, how == 2 ? 0x0100 : 0);
				if (how == 3) {
					size_t l = x.size();
					std::swap(x[l - 3], x[l - 2]);
					uint16_t c = (uint8_t)x[l - 3] << 8 | (uint8_t)x[l - 2];
					if (c == crc_sml(x.data(), l - 4) || c == crc_kermit(x.data(), l - 4))
						how = 0;
				}
				if (how < 2)
					want.push_back(m);
				b += x;
			}
			check(want, b, "sequence");
		});
		mc::scenario("padded", "all sequences of 1 to 3 messages (thorough: 4), each of 2 kinds, with a matching X.25, a matching Kermit, a wrong, or a one byte too short checksum, each followed by 0 to 5 zero bytes", o, [] {
			int n = 1 + choose(mc::tier ? 4 : 3);
			std::vector<Node> want;
			std::string b;
			static const uint32_t tg[] = {0x701, 0x201};
			for (int i = 0; i < n; i++) {
				Node m = compact(tg[choose(2)], i);
				int how = choose(4), pad = choose(6);
				std::string x;
				put(x, m, how == 1, how == 2 ? 0x0100 : 0);
				if (how == 3) {
					size_t l = x.size();
					x = x.substr(0, l - 4) + "\x62" + x.substr(l - 3, 1) + x.substr(l - 1);
					uint8_t c = (uint8_t)x[l - 3];
					if (c == crc_sml(x.data(), l - 4) || c == crc_kermit(x.data(), l - 4))
						return mc::discard();
				}
				if (how < 2)
					want.push_back(m);
				b += x + std::string(pad, 0);
			}
			check(want, b, "padded");
		});
		mc::scenario("bit-errors", "every single bit error, and every pair of bit errors in adjacent bytes, in content bytes of strings and numbers of a message of every kind, checksum unchanged", o, [] {
			int t = choose(14);
			Node m = compact(tags[t], 0), a = compact(0x101, 1), z = compact(0x201, 2);
			std::string x = encode(m);
			size_t n = x.size();
			int i = choose((int)n - 4), bit = choose(8), second = choose(9);
			uint16_t good1 = (uint8_t)x[n - 3] << 8 | (uint8_t)x[n - 2];
			x[i] ^= 1 << bit;
			if (second) {
				if ((size_t)i + 1 >= n - 4)
					return mc::discard();
				x[i + 1] ^= 1 << (second - 1);
			}
			(void)good1;
			// whether this is content is the reference decoder's decision
			std::string b = encode(a) + x + encode(z);
			FileResult r = decodefile(b);
			if (r.stopped)
				return mc::discard(); // no longer well-formed: C03
			if (r.msgs.size() == 3)
				mc::fail("reference: a short error burst was not detected");
			check(r.msgs, b, "bit error");
		});
		mc::scenario("lengths", "messages of every length from 30 to 1100 bytes and around every power of two up to 2^20 (thorough: 2^22), checksum of either kind correct, off by one, of one byte less or more", o, [] {
			int i = choose(1071 + (mc::tier ? 12 : 10) * 9), v = choose(2), how = choose(4);
			size_t n = i < 1071 ? 30 + i : ((size_t)2048 << (i - 1071) / 9) + (i - 1071) % 9 - 4;
			std::vector<Node> ms = fl::ofsize(n);
			if (ms.empty())
				return mc::discard();
			std::string x, a = encode(compact(0x101, 1));
			Node z = compact(0x701, 2);
			put(x, ms[0], v, 0);
			size_t l = x.size() - 4;
			uint16_t c = v ? crc_kermit(x.data(), l) : crc_sml(x.data(), l);
			uint16_t c1 = crc_sml(x.data(), l), c2 = crc_kermit(x.data(), l);
			if (how == 1) c++;
			if (how == 2) c = v ? crc_kermit(x.data(), l - 1) : crc_sml(x.data(), l - 1);
			if (how == 3) c = v ? crc_kermit(x.data(), l + 1) : crc_sml(x.data(), l + 1);
			x[l + 1] = (char)(c >> 8);
			x[l + 2] = (char)c;
			std::vector<Node> want{compact(0x101, 1)};
			if (c == c1 || c == c2)
				want.push_back(ms[0]);
			want.push_back(z);
			check(want, a + x + encode(z), "length");
		});
		mc::scenario("all-values", "a message with each of its 65536 possible checksums, of both kinds, as one of three messages, with the field correct, shortened to one byte where it can be, zero, absent or empty", o, [] {
			int a = choose(256), b = choose(256), v = choose(2), how = choose(5);
			Node m = compact(0x201, 0), f = compact(0x500, 1), z = compact(0x100, 2);
			m.c[0] = oct(std::string(1, (char)a) + (char)b);
			std::string x;
			put(x, m, v, 0);
			size_t n = x.size();
			std::string head = x.substr(0, n - 4);
			uint16_t c = (uint8_t)x[n - 3] << 8 | (uint8_t)x[n - 2], c1 = crc_sml(head.data(), n - 4), c2 = crc_kermit(head.data(), n - 4);
			if (how == 1) {
				if (c > 255)
					return mc::discard();
				x = head + "\x62" + (char)c + std::string(1, 0);
			} else if (how == 2) {
				c = 0;
				x = head + "\x62" + std::string(2, 0);
			} else if (how > 2) { // malformed, or dropped: the decoder decides
				std::string b = encode(f) + head + (how == 3 ? "\x01" : "\x61") + std::string(1, 0) + encode(z);
				return check(decodefile(b).msgs, b, "no checksum");
			}
			std::vector<Node> want{f};
			if (c == c1 || c == c2)
				want.push_back(m);
			want.push_back(z);
			check(want, encode(f) + x + encode(z), "checksum value");
		});
		mc::scenario("short-fields", "checksum fields of one byte, with superfluous header bytes, of all 256 values; messages whose checksum has a zero high byte", o, [] {
			int form = choose(4), v = choose(256);
			Node z = compact(0x201, 2), m;
			std::string x;
			// a message whose checksum is below 0x100: try transaction ids
			static std::string cached;
			if (cached.empty())
				for (int i = 0; i < 100000; i++) {
					Node q = compact(0x201, 0);
					q.c[0] = oct(mc::strf("%06d", i));
					std::string s = encode(q);
					if (crc_sml(s.data(), s.size() - 4) < 0x100) {
						cached = q.c[0].s;
						break;
					}
				}
			m = compact(0x201, 0);
			m.c[0] = oct(cached);
			x = encode(m);
			size_t n = x.size();
			std::string head = x.substr(0, n - 4);
			uint16_t c1 = crc_sml(head.data(), head.size()), c2 = crc_kermit(head.data(), head.size());
			uint16_t c = (uint16_t)v;
			switch (form) {
			case 0: x = head + "\x62" + (char)v; break;
			case 1: x = head + "\x63" + std::string(1, 0) + (char)v; break;
			case 2: x = head + "\xe0\x04" + std::string(1, 0) + (char)v; break;
			default: x = head + "\xe0\x80\x05" + (char)v + (char)v; c = (uint16_t)(v << 8 | v);
			}
			x += std::string(1, 0);
			std::vector<Node> want;
			if (c == c1 || c == c2)
				want.push_back(m);
			want.push_back(z);
			check(want, x + encode(z), "checksum field form");
		});
		mc::scenario("fields", "the right checksum (of either kind), or it with one bit changed, in a field of every type with 0 to 8 bytes, filled up in front or behind with every of 5 bytes, as one of three messages", o, [] {
			static const uint8_t ty[] = {0x00, 0x40, 0x50, 0x60, 0x70};
			static const uint8_t fills[] = {0x00, 0xff, 0x01, 0x80, 0x1b};
			int t = choose(14), v = choose(2), type = ty[choose(5)], n = choose(9), front = choose(2), f = fills[choose(5)], flip = choose(17);
			if (n <= 2 && (f != 0 || front))
				return mc::discard();
			Node m = compact(tags[t], 0);
			std::string x;
			put(x, m, v, 0);
			size_t l = x.size() - 4;
			uint16_t c = v ? crc_kermit(x.data(), l) : crc_sml(x.data(), l);
			if (flip)
				c ^= (uint16_t)(1 << (flip - 1));
			std::string d{(char)(c >> 8), (char)c};
			if (n < 2)
				d = d.substr(2 - n);
			else
				d = front ? std::string(n - 2, (char)f) + d : d + std::string(n - 2, (char)f);
			std::string b = encode(compact(0x500, 1)) + x.substr(0, l) + (char)(type | (n + (type == 0x70 ? 0 : 1))) + d + std::string(1, 0) + encode(compact(0x100, 2));
			check(decodefile(b).msgs, b, "checksum field");
		});
		mc::scenario("far", "a message, intact or with a checksum off by one, behind up to 2^24 + 1 bytes of padding or of another message, intact or not", o, [] {
			static const size_t dist[] = {4, 250, 256, 32760, 32768, 65530, 65536, 65537, 131072, 1 << 20, (1 << 24) - 40, 1 << 24, (1 << 24) + 1};
			int v = choose(2), bad = choose(3), form = choose(3);
			size_t n = dist[choose(mc::tier || (form == 0 && v == 0 && bad == 0) ? 13 : 10)];
			std::string b, x;
			std::vector<Node> want;
			if (form == 0)
				b = std::string(n, 0);
			else {
				Node big = compact(0x101, 1);
				big.c[0] = oct(std::string(n, 'x'));
				put(b, big, 0, form == 2);
				if (form == 1)
					want.push_back(big);
			}
			Node m = compact(0x701, 0);
			put(x, m, v, bad == 1);
			if (bad == 2) // the checksum of everything up to there
			{
				std::string all = b + x.substr(0, x.size() - 4);
				uint16_t c = v ? crc_kermit(all.data(), all.size()) : crc_sml(all.data(), all.size());
				x[x.size() - 3] = (char)(c >> 8);
				x[x.size() - 2] = (char)c;
			}
			std::string head = x.substr(0, x.size() - 4);
			uint16_t f = (uint16_t)((uint8_t)x[x.size() - 3] << 8 | (uint8_t)x[x.size() - 2]);
			if (f == crc_sml(head.data(), head.size()) || f == crc_kermit(head.data(), head.size()))
				want.push_back(m);
			Node z = compact(0x201, 2);
			want.push_back(z);
			check(want, b + x + encode(z), "far behind");
		});
		mc::scenario("coverage", "the checksum must cover exactly the bytes from the start of the message to the field: checksums over every other range near it are refused", o, [] {
			int t = choose(14), v = choose(2), from = choose(7), to = choose(9);
			Node m = compact(tags[t], 0), a = compact(0x101, 1), z = compact(0x201, 2);
			std::string x = encode(a) + encode(m) + encode(z), am = encode(a);
			size_t n = encode(m).size(), s = am.size();
			// ranges: start -3..+3, end -4..+4
			size_t f = s + from - 3, e = s + n - 4 + to - 4;
			uint16_t c = v ? crc_kermit(x.data() + f, e - f) : crc_sml(x.data() + f, e - f);
			uint16_t c1 = crc_sml(x.data() + s, n - 4), c2 = crc_kermit(x.data() + s, n - 4);
			x[s + n - 3] = (char)(c >> 8);
			x[s + n - 2] = (char)c;
			std::vector<Node> want{a};
			if (c == c1 || c == c2)
				want.push_back(m);
			want.push_back(z);
			check(want, x, "checksum range");
		});
	});
}
