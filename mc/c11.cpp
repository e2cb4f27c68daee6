#include "frames.hpp"
// C11: the frame reader finds every frame, however the bytes arrive
using namespace fr;
static int FD = -1, ambient;
static const size_t BIG = 600;
static void start(const std::string &s) {
	if (FD < 0)
		FD = io::pipefd();
	io::in = io::In();
	io::in.fd = FD;
	io::in.data = s;
}
// reads until the reference says that nothing more can be read
static void readall(const char *what, size_t max = BIG) {
	const std::string s = io::in.data;
	size_t pos = 0;
	int fd = io::in.fd;
	uint64_t h = 0;
	if (mc::want_note())
		mc::note(std::string(what) + ": " + mc::hex(s, 200));
	for (int k = 0;; k++) {
		Res r = next(s, pos);
		if (r.frame && r.bytes.size() >= max)
			break; // C12
		errno = ambient;
		Got g = read(fd, max);
		mc::transition();
		mc::validated();
		if (!r.frame) {
			if (g.n)
				mc::fail("%s: %s returned, no frame expected from byte %zu; stream %s; %s", what, mc::hex(g.bytes).c_str(), pos,
						 mc::hex(s).c_str(), io::in.trace.c_str());
			h = h * 31 + 1;
			break;
		}
		if (g.bytes != r.bytes)
			mc::fail("%s: frame %d: %s returned, expected %s; stream %s; %s", what, k, g.n ? mc::hex(g.bytes).c_str() : "nothing",
					 mc::hex(r.bytes).c_str(), mc::hex(s).c_str(), io::in.trace.c_str());
		if (io::in.pos != r.to)
			mc::fail("%s: frame %d ends at byte %zu, %zu bytes were consumed; stream %s; %s", what, k, r.to, io::in.pos,
					 mc::hex(s).c_str(), io::in.trace.c_str());
		pos = r.to;
		h = h * 31 + r.from * 7 + r.to;
	}
	mc::outcome(mc::hash(s, h));
}
static std::string letters(int n, int k) {
	static const char a[] = {0x1b, 0x01, 0x00, 0x1a};
	std::string s;
	for (int i = 0; i < n; i++)
		s += a[choose(k)];
	return s;
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C11", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("prefix", "every stream of up to 10 bytes (thorough: 12) over {1b,01,00} (up to 8, thorough 10: and 1a) in front of a frame and a second one", o, [] {
			int n = choose(mc::tier ? 13 : 11);
			std::string s = letters(n, n <= (mc::tier ? 10 : 8) ? 4 : 3) + frame(word(0)) + frame("");
			start(s);
			readall("prefix");
		});
		mc::scenario("tail", "every continuation of a start sequence by up to 11 bytes (thorough: 12) over {1b,1a,01} (shorter ones: and 00), followed by another frame", o, [] {
			int n = choose(mc::tier ? 13 : 12);
			std::string s = START + letters(n, n > 9 ? 3 : n > 8 ? 3 : 4) + (choose(2) ? frame(word(0)) : "");
			start(s);
			readall("tail");
		});
		mc::scenario("broken-starts", "a start sequence of 1 to 7 bytes broken by a byte of any value, continued by every sequence of up to 8 bytes over {1b,01}, in front of a frame and a second one", o, [] {
			std::string s = START.substr(0, 1 + choose(7));
			s += (char)choose(256);
			int n = choose(mc::tier ? 9 : 7);
			s += letters(n, 2) + frame(word(0)) + frame("");
			start(s);
			readall("broken start");
		});
		mc::scenario("near-escapes", "payload words with any two of their four bytes free (all values), the others 1b, followed by content, by an end, or by another start", o, [] {
			static const int pr[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
			int p = choose(6), a = choose(256), b = choose(256), k = choose(3);
			std::string w = ESC;
			w[pr[p][0]] = (char)a;
			w[pr[p][1]] = (char)b;
			w += k == 0 ? word(0) : k == 1 ? std::string("\x1a\x02\x12\x34", 4) : START;
			start(frame(w) + frame(word(1)) + frame(""));
			readall("near escape");
		});
		mc::scenario("words", "every frame of up to 4 payload words (thorough: 5) over 13 words, near misses of control sequences included, between two other frames", o, [] {
			int n = choose(mc::tier ? 6 : 5);
			std::string p;
			for (int i = 0; i < n; i++)
				p += word(choose(NWORD));
			start(frame(word(7)) + frame(p, (char)(n & 3)) + frame(word(0)));
			readall("words");
		});
		mc::scenario("trailer", "every pair of values of the three bytes after the end marker (all 256 each, and all pairs over {00,01,1a,1b,ff})", o, [] {
			static const unsigned char al[] = {0, 1, 0x1a, 0x1b, 0xff};
			std::string e = ESC + "\x1a";
			if (choose(2)) {
				std::string t(3, 0x55);
				t[choose(3)] = (char)choose(256);
				e += t;
			} else
				for (int i = 0; i < 3; i++)
					e += (char)al[choose(5)];
			start(START + word(0) + e + frame(word(1)));
			readall("trailer");
		});
		mc::scenario("noise", "every byte value at every position of a start sequence, and as noise of up to 2 bytes before a frame", o, [] {
			std::string s;
			if (choose(2)) {
				s = START;
				s[choose(8)] = (char)choose(256);
				s += frame(word(2));
			} else {
				int n = choose(3);
				for (int i = 0; i < n; i++)
					s += (char)choose(256);
				s += frame(word(2));
			}
			s += frame(word(3));
			start(s);
			readall("noise");
		});
		mc::scenario("content", "every byte value at every position of a payload of 3 words", o, [] {
			std::string p = word(0) + word(3) + word(0);
			p[choose(12)] = (char)choose(256);
			start("\x1b" + frame(p) + frame(""));
			readall("content");
		});
		mc::scenario("far-words", "frames of 2200 words (thorough: 17000) of which one, at every position, is any of the 13 words, the other bytes all 00, 22 or 1a; before another frame", o, [] {
			int len = mc::tier ? 17000 : 2200, at = choose(len), k = choose(NWORD), fill = choose(3);
			static const char f[] = {0, 0x22, 0x1a};
			std::string p((size_t)len * 4, f[fill]);
			p.replace((size_t)at * 4, 4, word(k));
			start(frame(p) + frame(""));
			readall("far word", p.size() + 64);
		});
		mc::scenario("errno", "streams of noise, overlaps and frames of 0 to 3 words, errno having any of 13 values before each call, reads whole, of at most 1 or 3 bytes, each with an EINTR or EAGAIN first or not", o, [] {
			static const int errs[] = {0, EBADF, EINTR, EAGAIN, EIO, EPIPE, ENOMEM, EINVAL, ETIMEDOUT, ECONNRESET, ENXIO, ERANGE, ENODEV};
			int n = choose(4), noise = choose(3);
			std::string p;
			for (int i = 0; i < n; i++)
				p += word(choose(NWORD));
			start(std::string("\x1b\x1b\x1b\x1b\x01\x01", noise * 3) + frame(p) + frame(word(0)));
			ambient = errs[choose(13)];
			int c = choose(3), e = choose(3);
			if (c) {
				io::in.policy = io::CAP;
				io::in.cap = c == 1 ? 1 : 3;
			}
			io::in.every = e == 0 ? 0 : e == 1 ? EINTR : EAGAIN;
			readall("errno");
			ambient = 0;
		});
		static const char *bounds = "streams of noise, overlaps, frames of 0 to 3 words: every answer of the system to reads and waits (every short count, EINTR, EAGAIN, interrupted wait), up to 3 (thorough: 4) unusual answers";
		o.budget = mc::tier ? 4 : 3;
		mc::scenario("schedules", bounds, o, [] {
			static const std::string streams[] = {
				frame(""), frame(word(0)) + frame(word(1)), "\x1b\x1b" + frame(word(6) + word(4)),
				std::string("\x1b\x1b\x1b\x1b\x01", 5) + frame(word(3)) + frame(""), frame(word(1) + word(2) + word(5)),
				frame(word(0)) + "\x1b\x1b\x1b\x1b\x01\x01" + frame(word(7))};
			start(streams[choose(6)]);
			io::in.policy = io::DEV;
			readall("schedule");
		});
		o.budget = 0;
		mc::scenario("chunks", "all ways to split the reads of frames of up to 3 words (thorough: 5)", o, [] {
			int n = choose(mc::tier ? 6 : 4);
			std::string p;
			for (int i = 0; i < n; i++)
				p += word(i);
			start(frame(p) + frame(""));
			io::in.policy = io::CHUNK;
			readall("chunks");
		});
		mc::scenario("repeated", "at every byte of a stream: 1, 2, 3, 10, 100, 1000 or 5000 successive EINTR, EAGAIN, interrupted waits or waits whose time limit (should they have one) ends before anything arrives; with short reads of at most 1 to 4 bytes", o, [] {
			static const int cnt[] = {1, 2, 3, 10, 100, 1000, 5000};
			static const int kind[] = {EINTR, EAGAIN, -1, io::PAUSE};
			start(std::string("\x00\x1b\x1b", 3) + frame(word(0) + word(4)) + frame(word(1)));
			io::in.evpos = choose((int)io::in.data.size());
			io::in.evcount = cnt[choose(7)];
			io::in.evkind = kind[choose(4)];
			io::in.policy = io::CAP;
			io::in.cap = 1 + choose(4);
			readall("repeated");
		});
		mc::scenario("always", "every read preceded by EINTR or EAGAIN, or short of at most 1 to 4 bytes, the system reporting a hang-up along with the input, at its end or not at all, streams of all frames of up to 2 words", o, [] {
			int n = choose(3);
			std::string p;
			for (int i = 0; i < n; i++)
				p += word(choose(NWORD));
			start("\x1b" + frame(p) + std::string("\x1b\x1b\x1b\x1b\x00", 5) + frame(p));
			int k = choose(3);
			io::in.every = k == 0 ? 0 : k == 1 ? EINTR : EAGAIN;
			io::in.policy = io::CAP;
			io::in.cap = 1 + choose(4);
			io::in.hup = choose(4);
			readall("always");
		});
		mc::scenario("descriptors", "descriptors 0, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 1022 to 1025, 1087, 1088, 2047, 4095, 9000, 60000 (those that the limit of the system allows)", o, [] {
			static const int fds[] = {0, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 1022, 1023, 1024, 1025, 1087, 1088, 2047, 4095, 9000, 60000};
			int fd = io::pipefd(fds[choose(20)]);
			if (fd < 0)
				return;
			start("\x1b" + frame(word(0) + word(2)) + frame(""));
			io::in.fd = fd;
			if (choose(2))
				io::in.policy = io::CAP;
			readall("descriptor");
			close(fd);
		});
		mc::scenario("long", "frames of every number of words from 0 to 300, around every power of two up to 2^18 words (thorough; quick: 2^14), between frames", o, [] {
			int c = choose(301 + 3 * (mc::tier ? 10 : 6));
			size_t n = c <= 300 ? c : (size_t)(256 << ((c - 301) / 3 + 1)) + (c - 301) % 3 - 1;
			std::string p;
			for (size_t i = 0; i < n; i++)
				p += word((int)(i % NWORD));
			start(frame("") + "\x1b\x1b\x1b" + frame(p) + frame(word(1)));
			readall("long", p.size() + 64);
		});
	});
}
