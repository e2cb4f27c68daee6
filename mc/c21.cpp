#include "tool.hpp"
// C21: the server tool prints every reading of the stream faithfully
int main(int argc, char **argv) {
	signal(SIGPIPE, SIG_IGN);
	return mc::main(argc, argv, "C21", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 600 : 60;
		mc::scenario("scalers", "every scaler, and none, with boundary numbers of every type and width", o, [] {
			int s = choose(257);
			Pack p;
			for (auto &v : values())
				p.add(entry(v, s == 256 ? null(I8) : sc(s - 128), num(U8, 30)));
			p.flush();
			check("scalers", p.s);
		});
		mc::scenario("numbers", "every 8 and 16 bit number, signed and unsigned, with 9 scalers", o, [] {
			static const int ss[] = {0, -1, -2, -3, 1, 2, 3, -5, -10};
			int s = ss[choose(9)];
			int w = 1 + choose(2), sign = choose(2), hi = w == 2 ? choose(128) * 512 : 0;
			Pack p;
			for (int i = 0; i < (w == 2 ? 512 : 256); i++)
				p.add(entry(vint(sign, sign ? (uint64_t)(int64_t)(w == 2 ? (int16_t)(hi + i) : (int8_t)i) : (uint64_t)(hi + i), w), sc(s), num(U8, 30)));
			p.flush();
			check("numbers", p.s);
		});
		mc::scenario("decimals", "every number of up to 3 different digits in a row of up to 15, both signs, every scaler from -20 to 4", o, [] {
			int s = choose(25) - 20, a = 1 + choose(9), b = choose(10);
			Pack p;
			for (int n = 1; n <= 15; n++)
				for (int i = 0; i < n; i++) {
					std::string d;
					for (int j = 0; j < n; j++)
						d += (char)('0' + (j == 0 ? a : j == i ? 5 : b));
					uint64_t x = std::stoull(d);
					p.add(entry(vint(false, x, 8), sc(s), null(U8)));
					p.add(entry(vint(true, 0 - x, 8), sc(s), null(U8)));
				}
			p.flush();
			check("decimals", p.s);
		});
		mc::scenario("units", "every unit, and none, with every kind of value", o, [] {
			int u = choose(257);
			Pack p;
			for (auto &v : {vint(false, 5, 1), vint(true, (uint64_t)-5, 2), vint(false, 70000, 4), vint(true, 1ull << 40, 8), voct("t"), voct("\x01"), voct(""), vbool(true), vbool(false), null(VALUE)})
				for (int s = -1; s < 3; s++)
					p.add(entry(v, s == 2 ? null(I8) : sc(s), u == 256 ? null(U8) : num(U8, u)));
			p.flush();
			check("units", p.s);
		});
		mc::scenario("names", "every byte at every position of the identifier; identifiers of 6 to 40 bytes", o, [] {
			int i = choose(8);
			Pack p;
			for (int v = 0; v < (i < 6 ? 256 : 41); v++) {
				std::string n = ID;
				if (i < 6)
					n[i] = (char)v;
				else if (v < 6)
					continue;
				else
					n = bytes_of(v, i == 6 ? 0x30 : 0xc0);
				for (auto &x : {vint(false, 5, 1), voct("t"), vbool(true), null(VALUE)})
					p.add(entry(x, null(I8), null(U8), oct(n)));
			}
			p.flush();
			check("names", p.s);
		});
		mc::scenario("texts", "every string of up to 2 bytes, every string of up to 5 bytes over {00 20 21 41 7a 7b ff}, strings of every length up to 300", o, [] {
			int k = choose(258 + 7 * 7);
			Pack p;
			if (k < 256)
				for (int i = 0; i < 256; i++)
					p.add(entry(voct(std::string(1, (char)k) + std::string(i ? 1 : 0, (char)i)), null(I8), null(U8)));
			else if (k < 258)
				for (int n = 0; n <= 300; n++)
					p.add(entry(voct(k == 256 ? std::string(n, 'a') : bytes_of(n, 0x30)), null(I8), null(U8)));
			else {
				static const char a[] = {0, 0x20, 0x21, 0x41, 0x7a, 0x7b, (char)0xff};
				k -= 258;
				for (int n = 2; n <= 5; n++) {
					int c = 1;
					for (int j = 2; j < n; j++)
						c *= 7;
					for (int i = 0; i < c; i++) {
						std::string t{a[k % 7], a[k / 7]};
						int y = i;
						for (int j = 2; j < n; j++, y /= 7)
							t += a[y % 7];
						p.add(entry(voct(t), null(I8), null(U8)));
					}
				}
				for (int n = 1; n < 64; n++) // the first hidden byte at every place
					p.add(entry(voct(std::string(n, a[2 + k % 3]) + a[k / 7] + std::string(64 - n, 'b')), null(I8), null(U8)));
			}
			p.flush();
			check("texts", p.s);
		});
		mc::scenario("entries", "all lists of up to 4 entries (thorough: 5) of 12 kinds: with and without value, of every type", o, [] {
			int n = choose(mc::tier ? 6 : 5);
			std::vector<Node> es;
			for (int i = 0; i < n; i++)
				es.push_back(kind(named[choose(12)], i));
			check("entries", stream({response(es)}));
		});
		mc::scenario("nameless", "all lists of up to 2 entries of 16 kinds with one that has no or a short identifier; every value kind without identifier and with one of 1 to 5 bytes", o, [] {
			int n = choose(3);
			std::vector<Node> es;
			if (n == 0) {
				Node e = kind(choose(NE), 1);
				int len = choose(6);
				e.c[0] = len ? oct(std::string(len, 'n')) : null(OCT);
				es = {kind(0, 0), e, kind(4, 0)};
			}
			for (int i = 0; i < n; i++)
				es.push_back(kind(choose(NE), i));
			std::string s = stream({response(es)});
			readings(s, false);
			if (!nameless)
				return mc::discard();
			check("nameless", s);
		});
		mc::scenario("fields", "every combination of the optional fields with every kind of value", o, [] {
			int f = choose(64);
			Pack p;
			for (int e = 0; e < NE; e++) {
				Node n = kind(e, f);
				n.c[1] = f & 1 ? status(0x80, 1) : null(STATUS);
				n.c[2] = f & 2 ? time(1, 77) : null(TIME);
				n.c[3] = f & 4 ? num(U8, 27) : null(U8);
				n.c[4] = f & 8 ? sc(-2) : null(I8);
				n.c[6] = f & 16 ? oct("sig") : null(OCT);
				if (f & 32 && n.c[5].null)
					n.c[0] = null(OCT);
				if (n.c[5].null || (!n.c[0].null && n.c[0].s.size() >= 6))
					p.add(n);
			}
			p.flush();
			check("fields", p.s);
		});
		mc::scenario("messages", "all files of up to 3 messages of the 14 kinds, damaged ones and value lists", o, [] {
			int n = choose(4);
			std::string pay;
			for (int i = 0; i < n; i++) {
				int k = choose(14 + 4);
				if (k < 14)
					pay += encode(samplemsg(tags[k], i));
				else {
					std::string b = encode(response({kind(named[(k * 3 + i) % 12], i), kind(0, i), kind(4, i)}));
					if (k == 15)
						b[b.size() - 3] ^= 1; // dropped
					if (k == 16)
						b[12] ^= 1; // dropped
					if (k == 17)
						b[0] = 0x75; // the rest is ignored
					pay += b;
					if (k == 17 && i + 1 < n)
						return mc::discard();
				}
			}
			pay += std::string((4 - pay.size() % 4) % 4, 0);
			check("messages", fr::frame(pay));
		});
		mc::scenario("frames", "all streams of up to 3 items: frames, noise, empty and cut ones, read whole or byte by byte, interrupted", o, [] {
			int n = choose(4), chunk = choose(4);
			std::string s;
			for (int i = 0; i < n; i++)
				switch (choose(7)) {
				case 0: s += stream({response({kind(0, i)})}); break;
				case 1: s += stream({response({kind(5, i), kind(10, i)}), response({kind(6, i)})}); break;
				case 2: s += "abc"; break;
				case 3: s += fr::START.substr(0, 7); break;
				case 4: s += fr::frame(""); break;
				case 5: s += stream({samplemsg(0x101, i)}); break;
				default: s += stream({response({kind(4, i), kind(9, i)})}); s.erase(s.size() - 9); break;
				}
			auto want = readings(s, false);
			feed(s);
			if (chunk) {
				io::in.policy = io::CAP;
				io::in.cap = chunk == 3 ? 3 : 1;
				io::in.every = chunk == 2 ? EINTR : chunk == 3 ? EAGAIN : 0;
			}
			std::string out = run();
			compare(out, want, s, "frames");
			mc::outcome(out);
			mc::validated(want.size() + 1);
			mc::transition(n);
		});
		mc::scenario("counts", "lists of every number of entries up to 300, files of up to 140 lists (as many as fit a frame), 1 to 100 frames", o, [] {
			int k = choose(540);
			std::string s;
			if (k < 300) {
				std::vector<Node> es;
				for (int i = 0; i < k; i++)
					es.push_back(kind(i % 12 == 3 || i % 12 == 7 ? 0 : named[i % 12], i));
				s = stream({response(es)});
			} else if (k < 440) {
				std::vector<Node> ms;
				for (int i = 0; i < k - 299; i++)
					ms.push_back(response({i > 30 ? entry(vint(false, i, 1), null(I8), null(U8)) : kind(named[i % 12], i)}));
				s = stream(ms);
			} else
				for (int i = 0; i < k - 439; i++)
					s += stream({response({kind(named[i % 12], i)}), samplemsg(0x201, i)});
			if (s.size() > 8092 && k < 440)
				return mc::discard();
			check("counts", s);
		});
		mc::Opt b = o;
		b.budget = mc::tier ? 2 : 1;
		mc::scenario("damaged", "a value list with up to `budget` of 45 structural mutations at every element and a matching checksum, before another frame", b, [] {
			W w = lower(response({kind(0, 1), kind(12, 2), kind(4, 3)}));
			if (!mutations(w))
				return mc::discard();
			std::string pay = encode(samplemsg(0x101, 0));
			emit(w, pay);
			pay += std::string((4 - pay.size() % 4) % 4, 0);
			std::string s = fr::frame(pay);
			if (fr::next(s, 0).to != s.size())
				return mc::discard();
			check("damaged", s + stream({response({kind(6, 4)})}));
		});
		mc::scenario("bytes", "every byte of a value list message set to every value, with a matching checksum and without", o, [] {
			static const std::string e = encode(response({kind(0, 1), kind(6, 1), kind(4, 3)}));
			std::string m = e;
			size_t at = e.size() - 4;
			int i = choose((int)e.size());
			m[i] = (char)choose(256);
			if (i < (int)at && choose(2)) {
				uint16_t c = crc_sml(m.data(), at);
				m[at + 1] = (char)(c >> 8);
				m[at + 2] = (char)c;
			}
			m += std::string((4 - m.size() % 4) % 4, 0);
			check("bytes", fr::frame(m) + stream({response({kind(6, 4)})}));
		});
		mc::scenario("single", "with -s: 8 streams, ending or going on: the readings of the first value list, then the end with status 0", o, [] {
			int k = choose(NS), open = choose(2);
			std::string s = somestream(k);
			int lists = 0;
			auto want = readings(s, true, &lists);
			Ended e = process([&] {
				if (open) {
					int p[2];
					if (pipe(p) || write(p[1], s.data(), s.size()) != (ssize_t)s.size())
						return 99;
					dup2(p[0], 0); // p[1] stays open: no end of input
				} else
					feed(s);
				return call({"-s", "-"});
			}, 10);
			compare(e.out, want, s, "single");
			if (e.timeout || !WIFEXITED(e.status) || WEXITSTATUS(e.status))
				mc::fail("with -s, the tool %s after the first value list (status 0x%x); stream %s", e.timeout ? "does not end" : "fails", e.status, mc::hex(s).c_str());
			mc::outcome(mc::hash(mc::strf("%d", k)));
			mc::validated(want.size() + 1);
		});
		mc::scenario("verbose", "with -v, 8 streams: the readings appear, in order, among what else is printed; with -s and -v those of the first list", o, [] {
			int k = choose(NS), single = choose(2);
			std::string s = somestream(k);
			auto want = readings(s, single);
			Ended e = process([&] {
				feed(s);
				return single ? call({"-v", "-s", "-"}) : call({"-v", "-"});
			}, 10);
			if (e.timeout || !WIFEXITED(e.status) || WEXITSTATUS(e.status))
				mc::fail("with -v, the tool %s (status 0x%x); stream %s", e.timeout ? "does not end" : "fails", e.status, mc::hex(s).c_str());
			compare(e.out, want, s, "verbose", true);
			mc::outcome(mc::hash(mc::strf("%d %d", k, single)));
			mc::validated(want.size() + 1);
		});
		mc::scenario("devices", "8 streams, each with every byte value in its texts, through a file, a pipe with a name, and a terminal in its default mode", o, [] {
			int k = choose(NS), dev = choose(3);
			std::string s = somestream(k);
			Pack p;
			for (int i = 0; i < 256; i += 8)
				p.add(entry(voct(bytes_of(8, i)), null(I8), null(U8)));
			for (int i = 0; i < 256; i++)
				p.add(entry(voct("ab" + std::string(1, (char)i) + "cd"), null(I8), null(U8)));
			p.flush();
			// with -s, the last list of the stream is the first one
			std::string all;
			if (dev == 0)
				all = s + p.s;
			else
				all = stream({samplemsg(0x101, k)}) + p.s.substr(0, fr::next(p.s, 0).to) + s;
			auto want = readings(all, dev != 0);
			std::string dir = scratch(), path = dir + "/dev";
			int master = -1, slave = -1;
			if (dev == 0) {
				int f = open(path.c_str(), O_CREAT | O_WRONLY, 0600);
				if (write(f, all.data(), all.size()) != (ssize_t)all.size())
					mc::fail("internal: write");
				close(f);
			} else if (dev == 1) {
				if (mkfifo(path.c_str(), 0600))
					mc::fail("internal: mkfifo");
			} else {
				master = posix_openpt(O_RDWR | O_NOCTTY);
				if (master < 0 || grantpt(master) || unlockpt(master)) {
					rmdir(dir.c_str());
					return mc::discard();
				}
				path = ptsname(master);
				slave = open(path.c_str(), O_RDWR | O_NOCTTY);
			}
			auto pause = [](int ms) { struct timespec t = {ms / 1000, ms % 1000 * 1000000L}; nanosleep(&t, 0); };
			auto writeall = [&](int fd) {
				size_t i = 0;
				for (int tries = 0; i < all.size() && tries < 5000;) {
					ssize_t n = write(fd, all.data() + i, all.size() - i < 512 ? all.size() - i : 512);
					if (n > 0)
						i += n;
					else
						tries++, pause(1);
				}
			};
			Ended e = process([&] {
				if (master >= 0)
					close(master);
				return dev ? call({"-s", path.c_str()}) : call({path.c_str()});
			}, 15, [&] {
				if (dev == 1) {
					int f = -1;
					for (int i = 0; i < 5000 && (f = open(path.c_str(), O_WRONLY | O_NONBLOCK)) < 0; i++)
						pause(1);
					writeall(f);
					close(f);
				} else if (dev == 2) {
					// once the tool has set its mode
					struct termios t;
					for (int i = 0; i < 3000; i++) {
						if (!tcgetattr(slave, &t) && !(t.c_lflag & ICANON))
							break;
						pause(1);
					}
					pause(20);
					int fl = fcntl(master, F_GETFL);
					fcntl(master, F_SETFL, fl | O_NONBLOCK);
					writeall(master);
				}
			});
			if (slave >= 0)
				close(slave);
			if (master >= 0)
				close(master);
			unlink((dir + "/dev").c_str());
			rmdir(dir.c_str());
			static const char *dn[] = {"file", "named pipe", "terminal"};
			compare(e.out, want, all, dn[dev]);
			if (e.timeout || !WIFEXITED(e.status) || WEXITSTATUS(e.status))
				mc::fail("reading a %s, the tool %s (status 0x%x)", dn[dev], e.timeout ? "does not end" : "fails", e.status);
			mc::outcome(mc::hash(mc::strf("%d %d", k, dev)));
			mc::validated(want.size());
		});
	});
}
