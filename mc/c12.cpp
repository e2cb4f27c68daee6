#include "frames.hpp"
#include <sys/mman.h>
// C12: the frame reader respects the caller's buffer and fails cleanly
using namespace fr;
static int FD = -1, ambient;
static void start(const std::string &s) {
	if (FD < 0)
		FD = io::pipefd();
	io::in = io::In();
	io::in.fd = FD;
	io::in.data = s;
}
// a read with the given buffer size. Conclusive only where the property is:
// a frame of exactly the size of the buffer may or may not be returned.
static bool one(const char *what, size_t &pos, size_t max) {
	const std::string &s = io::in.data;
	Res r = next(s, pos);
	errno = ambient;
	Got g = read(FD, max);
	mc::transition();
	mc::validated();
	mc::outcome(mc::hash(s, max * 977 + pos * 13 + g.n));
	if (mc::want_note())
		mc::note(mc::strf("%s: buffer %zu, returned %zu of %s; %s", what, max, g.n, mc::hex(s, 100).c_str(), io::in.trace.c_str()));
	if (g.n) {
		if (!r.frame || g.bytes != r.bytes)
			mc::fail("%s: buffer of %zu bytes: returned %zu bytes %s which are not the next frame (%zu bytes); stream %s; %s", what, max, g.n,
					 mc::hex(g.bytes).c_str(), r.bytes.size(), mc::hex(s).c_str(), io::in.trace.c_str());
		if (io::in.pos < r.to)
			mc::fail("%s: returned a frame before it was read", what);
		pos = r.to;
		return true;
	}
	if (r.frame && r.bytes.size() < max && !(io::in.ended && io::in.pos < r.to))
		mc::fail("%s: buffer of %zu bytes: the frame of %zu bytes is not returned; stream %s; %s", what, max, r.bytes.size(),
				 mc::hex(s).c_str(), io::in.trace.c_str());
	return false;
}
static void all(const char *what, size_t max) {
	size_t pos = 0;
	for (int i = 0; i < 50; i++) {
		if (!one(what, pos, max))
			break;
	}
}
static std::string payload(int words) {
	std::string p;
	for (int i = 0; i < words; i++)
		p += word(i % NWORD);
	return p;
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C12", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("sizes", "every buffer size from 0 to 600 against frames of every number of words from 0 to 60 (thorough: 150), reads whole or of at most 1 or 3 bytes", o, [] {
			int w = choose(mc::tier ? 151 : 61), max = choose(601), c = choose(3);
			start("\x1b" + frame(payload(w)) + frame(""));
			if (c) {
				io::in.policy = io::CAP;
				io::in.cap = c == 1 ? 1 : 3;
			}
			all("sizes", max);
		});
		mc::scenario("small", "every buffer size from 0 to 24 against every stream of a start sequence followed by up to 9 bytes over {1b,1a,00}", o, [] {
			int max = choose(25), n = choose(10);
			std::string s = START;
			static const char a[] = {0x1b, 0x1a, 0};
			for (int i = 0; i < n; i++)
				s += a[choose(3)];
			start(s + ESC + "\x1a\x01\x02\x03");
			all("small", max);
		});
		mc::scenario("around", "frames of every size near a power of two up to 2^16 (thorough: 2^18), buffers of every size from 20 below to 20 above it", o, [] {
			size_t f = (size_t)32 << choose(mc::tier ? 14 : 12);
			int w = choose(9), d = choose(41);
			start(frame(std::string(f - 16 + (w - 4) * 4, 0x22)) + frame(""));
			all("around", f + d - 20);
		});
		mc::scenario("huge", "buffers of 1 to 256 MB, larger than the stack, and of sizes around 2^31, 2^32 and 2^33", o, [] {
			int k = choose(9 + 3 * 33);
			size_t max = k < 9 ? ((size_t)1 << 20) << k : ((size_t)1 << (31 + (k - 9) / 33)) + (k - 9) % 33 - 16;
			start(frame(payload(5)) + frame("") + START + word(0));
			mc::track_reset();
			unsigned char *b = (unsigned char *)(k < 9 ? malloc(max) : mmap(0, max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
			if (b == MAP_FAILED)
				return mc::discard();
			Res r1 = next(io::in.data, 0), r2 = next(io::in.data, r1.to);
			for (const Res *r : {&r1, &r2}) {
				size_t n = LIB(sml_transport_read(FD, b, max));
				if (std::string((char *)b, n) != r->bytes)
					mc::fail("buffer of %zu bytes: %zu bytes returned, expected %zu", max, n, r->bytes.size());
			}
			if (LIB(sml_transport_read(FD, b, max)))
				mc::fail("an incomplete frame is returned");
			if (k < 9)
				free(b);
			else
				munmap(b, max);
			leakcheck("reading", io::in.data);
			mc::outcome(max);
			mc::validated(3);
		});
		mc::scenario("ends", "a stream of noise and frames that ends, or fails with one of 6 errors, after every byte; every buffer size from 0 to 64 and 600; reads whole or of at most 1 to 3 bytes; poll reporting the end as input, as POLLHUP, POLLERR or POLLNVAL alone, or both", o, [] {
			static const std::string s = std::string("\x00\x1b\x1b", 3) + frame(payload(3)) + "\x1b\x1b\x01" + frame("") + START + word(1) + ESC + "\x1b\x1b\x1b\x1b" + frame(payload(1));
			static const int errs[] = {0, EIO, EBADF, ECONNRESET, EINVAL, ENXIO, EPIPE};
			size_t cut = choose((int)s.size() + 1);
			int m = choose(66), c = choose(4);
			start(s.substr(0, cut));
			io::in.hup = c < 2 ? choose(4) : 0;
			io::in.err_at_end = errs[choose(7)];
			if (c) {
				io::in.policy = io::CAP;
				io::in.cap = c;
			}
			all("end", m == 65 ? 600 : m);
		});
		mc::scenario("after-interrupt", "as before, with an EINTR or EAGAIN directly before the end or the error", o, [] {
			static const std::string s = frame(payload(2)) + "\x1b\x1b\x01" + frame("") + frame(payload(1));
			static const int errs[] = {0, EIO, ECONNRESET};
			size_t cut = choose((int)s.size() + 1);
			start(s.substr(0, cut));
			io::in.err_at_end = errs[choose(3)];
			io::in.evpos = (long)cut;
			io::in.evkind = choose(2) ? EINTR : EAGAIN;
			io::in.evcount = 1 + choose(3);
			if (choose(2))
				io::in.policy = io::CAP;
			all("end after interrupt", choose(2) ? 24 : 100);
		});
		mc::scenario("escapes", "all pairs of (256 values of the byte that follows an escape sequence, position of that sequence), followed by anything that looks like an end", o, [] {
			int v = choose(256), at = choose(5), tail = choose(4);
			std::string p = payload(at) + ESC + std::string(1, (char)v);
			p += tail == 0 ? std::string(3, 0x1a) : tail == 1 ? std::string("\x1b\x1b\x1b") : tail == 2 ? std::string(3, 1) : std::string("\x1a\x1b\x1b");
			start(START + p + ESC + "\x1a\x03\x01\x02" + frame(""));
			size_t pos = 0;
			one("escape", pos, 200);
		});
		mc::scenario("far-escapes", "an escape sequence followed by any of 9 bytes at every position of a payload of 2200 words (thorough: 17000); buffers larger than the stream, or just holding the escape", o, [] {
			static const unsigned char nx[] = {0x00, 0x01, 0x02, 0x1b, 0x19, 0x9a, 0x5a, 0x1e, 0xff};
			int at = choose(mc::tier ? 17000 : 2200), v = choose(9), m = choose(2);
			std::string p((size_t)at * 4, 0x22);
			p += ESC + std::string(1, (char)nx[v]) + "\x01\x02\x03" + word(0);
			start(START + p + ESC + "\x1a\x03\x01\x02" + frame(""));
			size_t pos = 0;
			one("far escape", pos, m ? (size_t)at * 4 + 17 : 20000 + 4 * (size_t)at);
		});
		mc::scenario("errno", "streams of noise, frames, an unknown escape and a cut frame, errno having any of 13 values before each call, the input ending or failing with one of 7 errors, buffers of 16 to 40 bytes", o, [] {
			static const int amb[] = {0, EBADF, EINTR, EAGAIN, EIO, EPIPE, ENOMEM, EINVAL, ETIMEDOUT, ECONNRESET, ENXIO, ERANGE, ENODEV};
			static const int errs[] = {0, EIO, EBADF, ECONNRESET, EINVAL, ENXIO, EPIPE};
			static const std::string s[] = {"\x1b\x1b" + frame(word(0)) + frame(""), START + word(0) + ESC + ESC + frame(""), frame("") + frame(payload(3)).substr(0, 22), frame(payload(4)) + frame("")};
			start(s[choose(4)]);
			io::in.err_at_end = errs[choose(7)];
			ambient = amb[choose(13)];
			if (choose(2))
				io::in.policy = io::CAP;
			all("errno", 16 + choose(25));
			ambient = 0;
		});
		mc::scenario("recovery", "after a failed read (end of a frame too long, unknown escape) further reads return nothing that is not a frame of the stream", o, [] {
			int k = choose(3), max = 17 + choose(40);
			std::string s;
			if (k == 0)
				s = START + word(0) + ESC + ESC + frame(payload(2)) + frame("");
			else if (k == 1)
				s = frame(payload(20)) + frame(payload(1)) + frame("");
			else
				s = START + payload(2) + ESC + "\x01\x01\x01\x01" + word(0) + ESC + "\x1a\x01\x02\x03" + frame("");
			start(s);
			for (int i = 0; i < 10; i++) {
				size_t at = io::in.pos;
				Got g = read(FD, max);
				mc::transition();
				if (!g.n && io::in.ended)
					break;
				if (g.n) {
					Res r = next(s, at);
					if (!r.frame || r.bytes != g.bytes)
						mc::fail("after a failed read: returned %s; stream %s", mc::hex(g.bytes).c_str(), mc::hex(s).c_str());
				}
			}
			mc::validated();
			mc::outcome(mc::hash(s, max));
		});
		o.budget = mc::tier ? 4 : 3;
		mc::scenario("faults", "streams of frames and an unknown escape, exact and larger buffers: every answer of the system including end and error at every read, up to 3 (thorough: 4) unusual answers", o, [] {
			static const std::string streams[] = {frame(""), frame(word(0)) + frame(""), "\x1b\x1b" + frame(word(6) + word(4)),
												  START + word(0) + ESC + ESC + frame("")};
			int i = choose(4), m = choose(4);
			start(streams[i]);
			io::in.policy = io::DEV;
			io::in.devend = true;
			static const size_t sz[] = {16, 20, 25, 64};
			all("faults", sz[m]);
		});
	});
}
