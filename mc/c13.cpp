#include "frames.hpp"
// C13: the listener hands over every frame once, in order, until input ends
using namespace fr;
static int FD = -1;
static std::vector<std::string> got;
static std::vector<size_t> at;
static int overwrite, seterr;
static void receiver(unsigned char *b, size_t n) {
	mc::NoLib nl;
	got.push_back(std::string((char *)b, n));
	at.push_back(io::in.pos);
	if (got.size() > 100000)
		mc::fail("delivers without end");
	if (seterr)
		errno = seterr;
	if (overwrite == 1)
		memset(b, 0, n);
	else if (overwrite == 2)
		for (size_t i = 0; i < n; i++)
			b[i] = (unsigned char)(i % 8 < 4 ? 0x1b : 1);
	else if (overwrite == 3)
		for (size_t i = 0; i < n; i++)
			b[i] = (unsigned char)START[i % 8];
	else if (overwrite == 4) {
		static const std::string f = frame("abcd");
		for (size_t i = 0; i < n; i++)
			b[i] = (unsigned char)f[i % f.size()];
	}
}
static const size_t SURE = 8092; // frames up to this length fit the buffer of the listener
static void start(const std::string &s) {
	if (FD < 0)
		FD = io::pipefd();
	io::in = io::In();
	io::in.fd = FD;
	io::in.data = s;
	overwrite = seterr = 0;
}
static void listen(const char *what) {
	const std::string &s = io::in.data;
	got.clear();
	at.clear();
	mc::track_reset();
	if (mc::want_note())
		mc::note(std::string(what) + ": " + mc::hex(s, 200));
	LIB(sml_transport_listen(FD, receiver));
	leakcheck("listening", s);
	size_t pos = 0, i = 0;
	for (;; i++) {
		Res r = next(s, pos);
		if (!r.frame || (io::in.ended && io::in.pos < r.to))
			break;
		bool fits = r.bytes.size() <= SURE;
		if (i >= got.size()) {
			if (fits)
				mc::fail("%s: %zu frames delivered, number %zu (%zu bytes) is not; stream of %zu bytes %s; %s", what, got.size(), i,
						 r.bytes.size(), s.size(), mc::hex(s).c_str(), io::in.trace.c_str());
			break; // too long: returned
		}
		if (got[i] != r.bytes)
			mc::fail("%s: delivery %zu is %zu bytes %s, expected %zu bytes %s; stream %s; %s", what, i, got[i].size(),
					 mc::hex(got[i]).c_str(), r.bytes.size(), mc::hex(r.bytes).c_str(), mc::hex(s).c_str(), io::in.trace.c_str());
		if (at[i] != r.to)
			mc::fail("%s: frame %zu ends at byte %zu but is delivered after %zu bytes; stream %s", what, i, r.to, at[i], mc::hex(s).c_str());
		pos = r.to;
	}
	if (i < got.size())
		mc::fail("%s: delivery %zu was invented: %s; stream %s", what, i, mc::hex(got[i]).c_str(), mc::hex(s).c_str());
	mc::validated(i + 1);
	mc::transition(i + 1);
	mc::outcome(mc::hash(s, i * 31 + overwrite));
}
// receivers that read or listen themselves: on another descriptor, or on the same one
struct Level {
	int fd;
	std::vector<std::string> got;
};
static std::vector<Level *> levels;
static const std::string *script; // the action of each delivery, in order
static size_t sat;
static int FD2[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
static void nested(unsigned char *b, size_t n);
static void listento(int fd, Level &l) {
	l.fd = fd;
	levels.push_back(&l);
	if (levels.size() == 1)
		LIB(sml_transport_listen(fd, nested));
	else
		sml_transport_listen(fd, nested);
	levels.pop_back();
}
static std::vector<std::string> expected(const std::string &s, size_t pos) {
	std::vector<std::string> v;
	for (Res r = next(s, pos); r.frame; r = next(s, pos)) {
		v.push_back(r.bytes);
		pos = r.to;
	}
	return v;
}
static void nested(unsigned char *b, size_t n) {
	mc::NoLib nl;
	std::string copy((char *)b, n);
	levels.back()->got.push_back(copy);
	char a = sat < script->size() ? (*script)[sat] : 0;
	sat++;
	if (a == 'x')
		memset(b, 0x1b, n);
	if (a == 'o' || a == 'O') { // another descriptor
		io::In keep = io::in;
		if (FD2[levels.size() - 1] < 0)
			FD2[levels.size() - 1] = io::pipefd();
		io::in = io::In();
		io::in.fd = FD2[levels.size() - 1];
		std::string s = "q" + frame(std::string(4, (char)(0x30 + levels.size()))) + frame(std::string(a == 'O' ? 4000 : 8, (char)0x41));
		io::in.data = s;
		Level l;
		listento(io::in.fd, l);
		if (l.got != expected(s, 0))
			mc::fail("a receiver listens to another descriptor: %zu frames delivered of %s", l.got.size(), mc::hex(s, 80).c_str());
		io::in = keep;
	}
	if (a == 'r') { // reads the next frame itself
		std::vector<unsigned char> m(5000);
		size_t k = sml_transport_read(io::in.fd, m.data(), m.size());
		if (k)
			levels.back()->got.push_back(std::string((char *)m.data(), k));
	}
	if (a == 's') { // listens to the rest
		Level l;
		listento(io::in.fd, l);
		for (auto &g : l.got)
			levels.back()->got.push_back(g);
	}
	if (a == 'p') { // a file of its own
		sml_file *f = sml_file_parse(b + 8, n - 16);
		sml_file *g = sml_file_init();
		sml_file_write(g);
		sml_file_free(g);
		sml_file_free(f);
	}
	if (a != 'x' && memcmp(copy.data(), b, n))
		mc::fail("the buffer of a delivery changes while its receiver %s: %s was %s",
				 a == 'r' ? "reads" : "listens", mc::hex(std::string((char *)b, n)).c_str(), mc::hex(copy).c_str());
}
// what a stream consists of
static const int NITEM = 14;
static std::string item(int i, int k) {
	std::string w(4, (char)('a' + k));
	switch (i) {
	case 0: return frame(w);
	case 1: return frame("", (char)k);
	case 2: return frame(w + word(1) + word(2) + w, 3);
	case 3: return "noise";
	case 4: return std::string("\x1b\x1b", 2);
	case 5: return std::string("\x1b\x1b\x1b\x1b\x01\x01", 6);
	case 6: return frame(std::string(500, (char)k));
	case 7: return frame(std::string(8092 - 16, (char)(k + 1)));
	case 8: return START + w + ESC + ESC + w;                       // unknown escape
	case 9: return START + std::string(20000, (char)(k + 2)) + ESC + "\x1a\x01\x02\x03"; // too long
	case 10: return START + w;                                      // no end
	case 11: return ESC + "\x1a\x01\x02\x03";                       // an end without a start
	case 12: return std::string(1, 0);
	default: return frame(w).substr(0, 14);
	}
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C13", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("items", "all sequences of up to 4 items (thorough: 5) out of 14: frames, noise, partial starts, unfinished, malformed and too long frames; receivers that read or overwrite the buffer in 4 ways (up to 3 items)", o, [] {
			int n = choose(mc::tier ? 6 : 5);
			std::string s;
			for (int i = 0; i < n; i++)
				s += item(choose(NITEM), i);
			start(s);
			if (n <= 3)
				overwrite = choose(5);
			listen("items");
		});
		mc::scenario("pieces", "all sequences of up to 3 items, the bytes arriving at most 1, 2, 3, 5 or 64 at a time, with EINTR or EAGAIN before every read or none", o, [] {
			int n = choose(4);
			std::string s;
			for (int i = 0; i < n; i++) {
				static const int its[] = {0, 1, 2, 3, 4, 5, 8, 10, 11, 12, 13};
				s += item(its[choose(11)], i);
			}
			start(s);
			static const size_t cap[] = {1, 2, 3, 5, 64};
			io::in.policy = io::CAP;
			io::in.cap = cap[choose(5)];
			int e = choose(3);
			io::in.every = e == 0 ? 0 : e == 1 ? EINTR : EAGAIN;
			overwrite = choose(2) * 4;
			listen("pieces");
		});
		mc::scenario("many", "streams of 0 to 200 frames (thorough: 2000) with and without noise between them", o, [] {
			int n = choose(mc::tier ? 2001 : 201), noise = choose(4);
			std::string s;
			for (int i = 0; i < n; i++) {
				s += frame(std::string((i % 5) * 4, (char)i), (char)i);
				if (noise)
					s += noise == 1 ? "x" : noise == 2 ? "\x1b\x1b\x1b" : "\x1b\x1b\x1b\x1b\x01";
			}
			start(s);
			overwrite = choose(5);
			listen("many");
		});
		mc::scenario("very-many", "streams of 254 to 259, 1000, 5000, 32769 and 65538 frames", o, [] {
			static const int cnt[] = {254, 255, 256, 257, 258, 259, 1000, 5000, 32769, 65538};
			int n = cnt[choose(10)], form = choose(3);
			std::string s;
			for (int i = 0; i < n; i++) {
				s += form == 0 ? frame("") : frame(std::string(form == 1 ? 4 : i % 3 * 4, (char)i), (char)(i >> 8));
				if (form == 2 && i % 5 == 0)
					s += "\x1b";
			}
			start(s);
			listen("very many");
		});
		mc::scenario("errno", "all sequences of up to 3 items out of 14; receivers that leave any of 13 values in errno, errno having one of them before the call, the input ending or failing", o, [] {
			static const int errs[] = {0, EBADF, EINTR, EAGAIN, EIO, EPIPE, ENOMEM, EINVAL, ETIMEDOUT, ECONNRESET, ENXIO, ERANGE, ENODEV};
			int n = choose(4);
			std::string s;
			for (int i = 0; i < n; i++)
				s += item(choose(n < 3 ? NITEM : 7), i);
			start(s);
			seterr = errs[choose(13)];
			int e = choose(3);
			io::in.err_at_end = e == 2 ? EIO : 0;
			errno = e == 1 ? errs[choose(13)] : 0;
			listen("errno");
		});
		mc::scenario("repeats", "sequences of up to 5 frames (thorough: 6) out of 6 of the same length that differ in one byte of the content, the padding count or the checksum, or not at all", o, [] {
			int n = choose(mc::tier ? 7 : 6);
			std::string s;
			for (int i = 0; i < n; i++) {
				static const char *crc[] = {"\x12\x34", "\0\0", "\0\x34", "\x12\0"};
				int k = choose(6);
				s += k < 4 ? frame("abcd", 0, crc[k]) : k == 4 ? frame("abce") : frame("abcd", 1);
			}
			start(s);
			overwrite = choose(5);
			listen("repeats");
		});
		mc::scenario("large-repeats", "up to 4 frames (thorough: 5) of the same length, one of 20 from 16 to 8092 bytes, each the same as the one before or different in one bit, at the front, in the middle, at the end of the content or in the trailer", o, [] {
			static const int lens[] = {16, 20, 64, 128, 252, 256, 260, 508, 512, 516, 1020, 1024, 1028, 2048, 4092, 4096, 4100, 8000, 8088, 8092};
			int len = lens[choose(20)], n = 2 + choose(mc::tier ? 4 : 3);
			std::string c(len - 16, 'a'), crc = "\x12\x34", s;
			for (int i = 0; i < n; i++) {
				if (i)
					switch (choose(c.empty() ? 2 : 5)) {
					case 0: break;
					case 1: crc[i & 1] ^= 1; break;
					case 2: c[0] ^= 4; break;
					case 3: c[c.size() / 2] ^= 8; break;
					default: c.back() ^= 1;
					}
				s += frame(c, 0, crc.c_str());
			}
			start(s);
			overwrite = choose(2) * 3;
			listen("large repeats");
		});
		mc::scenario("trailers", "a frame, the same frame again, and another; every value of each byte of the end sequence's last three and of the content", o, [] {
			std::string f = frame("abcd"), g = frame("abcd", 1);
			int at = choose(7), v = choose(256), which = choose(3);
			(which == 0 ? f : g)[at < 3 ? 17 + at : 8 + at - 3] = (char)v;
			if ((which == 0 ? f : g).compare(8, 4, ESC) == 0)
				return mc::discard();
			start(which == 2 ? g + f + g : f + f + g + g);
			overwrite = choose(5);
			listen("trailers");
		});
		mc::scenario("sizes", "every frame length from 16 to 8092, and longer ones in steps up to 70000, between two frames", o, [] {
			int i = choose(2020 + 60);
			size_t len = i < 2020 ? 16 + 4 * i : 8096 + (i - 2020) * 4;
			if (i >= 2060)
				len = 8256 + (size_t)(i - 2060) * 3096 / 4 * 4;
			start(frame("1234") + frame(std::string(len - 16, (char)i)) + frame("5678"));
			overwrite = choose(2) * 3;
			listen("sizes");
		});
		mc::scenario("ends", "a stream of noise and 4 frames that ends or fails after every byte; four ways in which poll reports that", o, [] {
			static const std::string s = "ab" + item(0, 0) + item(5, 0) + item(2, 1) + item(1, 2) + "\x1b" + item(0, 3) + item(8, 1) + item(0, 4);
			static const int errs[] = {0, EIO, EBADF, ECONNRESET};
			start(s.substr(0, choose((int)s.size() + 1)));
			io::in.err_at_end = errs[choose(4)];
			io::in.hup = choose(4);
			overwrite = choose(5);
			if (choose(2))
				io::in.policy = io::CAP;
			listen("end");
		});
		mc::scenario("pauses", "a stream of noise and frames; at every byte nothing arrives for so long that a wait with a time limit, should there be one, ends 1, 2, 10 or 1000 times; reads whole or of 1 to 3 bytes", o, [] {
			static const int cnt[] = {1, 2, 10, 1000};
			start("ab" + item(0, 0) + item(5, 0) + item(2, 1) + "\x1b" + item(0, 3) + item(1, 4));
			io::in.evpos = choose((int)io::in.data.size());
			io::in.evkind = io::PAUSE;
			io::in.evcount = cnt[choose(4)];
			io::in.cap = choose(4);
			if (io::in.cap)
				io::in.policy = io::CAP;
			listen("pause");
		});
		mc::scenario("stale", "all pairs of frames of 0 to 8 words followed by a cut, malformed or complete frame of 0 to 8 words: nothing of an earlier frame reappears", o, [] {
			int a = choose(9), b = choose(9), k = choose(4);
			std::string p(a * 4, 'A'), q(b * 4, 'B');
			std::string f = frame(q);
			std::string s = frame(p) + (k == 0 ? f : k == 1 ? f.substr(0, f.size() - 4) : k == 2 ? f.substr(0, f.size() - 8) : START + q + ESC + "\x02\x00\x00\x00") + (k == 2 ? frame("zzzz") : "");
			start(s);
			overwrite = choose(5);
			listen("stale");
		});
		mc::scenario("nested", "streams of up to 5 frames (3 sizes); receivers that at each delivery do nothing, overwrite the buffer, parse it, listen to another descriptor (2 streams, to a depth of 3), read the next frame or listen to the rest of the same descriptor, in all orders of up to 4 (thorough: 5) deliveries", o, [] {
			int n = 1 + choose(5);
			std::string s, acts;
			for (int i = 0; i < n; i++)
				s += (i & 1 ? "x" : "") + frame(std::string(((i * 7 + n) % 3) * 28 + 4, (char)('a' + i)));
			int k = mc::tier ? 5 : 4;
			for (int i = 0; i < k; i++) {
				int deep = 0;
				for (char c : acts)
					deep += c == 'o' || c == 'O';
				acts += "\0xprsoO"[choose(deep < 2 ? 7 : 5)];
			}
			start(s);
			script = &acts;
			sat = 0;
			levels.clear();
			Level l;
			mc::track_reset();
			listento(FD, l);
			leakcheck("listening with receivers that listen", s);
			auto want = expected(s, 0);
			if (l.got != want)
				mc::fail("nested: %zu frames delivered, %zu expected; actions %s; stream %s", l.got.size(), want.size(), acts.c_str(), mc::hex(s).c_str());
			mc::validated(want.size());
			mc::transition(want.size());
			mc::outcome(mc::hash(s + acts, 7));
		});
		o.budget = mc::tier ? 3 : 2;
		mc::scenario("schedules", "three streams, every answer of the system including end and error at every read, up to 2 (thorough: 3) unusual answers", o, [] {
			static const std::string streams[] = {item(0, 0) + item(1, 1) + item(0, 2), "\x1b\x1b" + item(2, 0) + "x" + item(0, 1),
												  item(1, 0) + item(8, 1) + item(0, 0)};
			start(streams[choose(3)]);
			io::in.policy = io::DEV;
			io::in.devend = true;
			listen("schedule");
		});
	});
}
