#include "files.hpp"
#include "sweep.hpp"
// C15: a frame written by the transport layer reads back as the same file
using namespace fr;
static int FD = -1;
static bool escapes(const std::string &frame) {
	for (size_t i = 8; i + 8 < frame.size(); i += 4)
		if (frame.compare(i, 4, ESC) == 0)
			return true;
	return false;
}
static std::string written(sml_file *f) {
	if (FD < 0)
		FD = io::pipefd();
	io::out = io::Out();
	io::out.fd = FD;
	int r = LIB(sml_transport_write(FD, f));
	if (r <= 0 || (size_t)r != io::out.data.size())
		mc::fail("writing a frame returned %d, %zu bytes emitted", r, io::out.data.size());
	return io::out.data;
}
static const char *KEY = "aligned-escape-in-payload";
static std::vector<Node> got;
static std::vector<std::string> frames;
static void receiver(unsigned char *b, size_t n) {
	mc::NoLib nl;
	frames.push_back(std::string((char *)b, n));
	if (n >= 16) {
		mc::Lib l;
		sml_file *f = sml_file_parse(b + 8, n - 16);
		{
			mc::NoLib nl2;
			for (Node &x : ext(f))
				got.push_back(x);
		}
		sml_file_free(f);
	}
	memset(b, 0x1b, n);
}
static int mode; // 0: reader, 1: listener
// files written one after the other, with something between the frames
static void roundtrip(const char *what, const std::vector<std::vector<Node>> &files, const std::vector<std::string> &between, int how = 0) {
	std::string stream;
	std::vector<std::string> w;
	std::vector<Node> want;
	bool esc = false;
	mc::track_reset();
	for (size_t i = 0; i < files.size(); i++) {
		sml_file *f = how ? fl::parsed(encodeall(files[i])) : fl::built(files[i]);
		std::vector<Node> before = ext(f);
		w.push_back(written(f));
		if (ext(f) != before)
			mc::fail("%s: writing changed the file", what);
		for (auto &n : fl::norm(before))
			want.push_back(n);
		LIB(sml_file_free(f));
		esc = esc || escapes(w.back());
		stream += i < between.size() ? between[i] : "";
		stream += w.back();
	}
	if (between.size() > files.size())
		stream += between.back();
	if (mc::want_note())
		mc::note(std::string(what) + ": " + mc::hex(stream, 250));
	io::In keep = io::in;
	io::in.fd = FD;
	io::in.data = stream;
	got.clear();
	frames.clear();
	if (mode) {
		LIB(sml_transport_listen(FD, receiver));
	} else {
		size_t max = stream.size() + 32;
		unsigned char *b = (unsigned char *)malloc(max);
		for (;;) {
			size_t n = LIB(sml_transport_read(FD, b, max));
			if (!n)
				break;
			receiver(b, n);
		}
		free(b);
	}
	leakcheck(what, stream);
	for (auto &n : got)
		n = normempty(n);
	bool same = frames == w && got == want;
	mc::outcome(mc::hash(stream, mode));
	mc::validated(w.size());
	mc::transition(w.size() * 2);
	if (same)
		return;
	std::string msg = mc::strf("%s: %zu frames written, %zu read; %zu messages written, %zu read; ", what, w.size(), frames.size(), want.size(), got.size());
	size_t i = 0;
	while (i < w.size() && i < frames.size() && w[i] == frames[i])
		i++;
	msg += mc::strf("frame %zu: %s; ", i, i < w.size() ? mc::hex(w[i], 300).c_str() : "");
	i = 0;
	while (i < want.size() && i < got.size() && want[i] == got[i])
		i++;
	if (i < want.size() || i < got.size())
		msg += mc::strf("message %zu: wrote %.500s, read %.500s", i, i < want.size() ? dump(want[i]).c_str() : "-", i < got.size() ? dump(got[i]).c_str() : "-");
	if (esc)
		mc::failkey(KEY, "%s", msg.c_str());
	else
		mc::fail("%s; %s", msg.c_str(), keep.trace.c_str());
}
static void prep() {
	io::in = io::In();
	mode = 0;
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C15", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("kinds", "all sequences of up to 3 messages of all 14 kinds (3: of 7), in one frame or in one frame each, built or parsed, by reader or listener", o, [] {
			int n = choose(4), split = choose(2), how = choose(2);
			prep();
			mode = choose(2);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(compact(tags[n > 2 ? choose(7) * 2 + i % 2 : choose(14)], i));
			std::vector<std::vector<Node>> f;
			if (split)
				for (auto &m : v)
					f.push_back({m});
			else
				f.push_back(v);
			roundtrip("kinds", f, {}, how);
		});
		o.budget = mc::tier ? 2 : 1;
		mc::scenario("fields", "every kind of message with one field (thorough: two) varied over its whole alphabet, built", o, [] {
			int t = choose(14);
			prep();
			Gen g;
			std::vector<Node> v{g.message(tags[t], 0)};
			roundtrip("fields", {v}, {});
		});
		o.budget = 0;
		mc::scenario("leaf-values", "one message of each kind; every leaf with every third (thorough: every) value of a broad alphabet, built or parsed", o, [] {
			int how = choose(2);
			std::vector<Node> v{samplemsg(tags[choose(14)], 0)};
			if (!sweepleaf(v[0], mc::tier ? 1 : 3))
				return;
			prep();
			mode = how;
			roundtrip("leaf", {v}, {}, how);
		});
		mc::scenario("checksums", "files of one or two messages of which one has each of the 65536 checksums in turn, in a frame before another one", o, [] {
			int n = 1 + choose(2), a = choose(256), b = choose(256);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(fl::close(i == n - 1 ? std::string(1, (char)a) + (char)b : "x"));
			prep();
			mode = choose(2);
			roundtrip("checksum", {v, {fl::close("after")}}, {});
		});
		mc::scenario("sizes", "files of every size from 30 to 3000 bytes and around 8 kB to 1 MB (thorough: 16 MB), before another frame", o, [] {
			static const size_t big[] = {8000, 16384, 65536, 131072, 262144, 1 << 20, 1 << 24};
			int i = choose(2971 + (mc::tier ? 7 : 6) * 9);
			size_t n = i < 2971 ? 30 + i : big[(i - 2971) / 9] + (i - 2971) % 9 - 4;
			std::vector<Node> v = fl::ofsize(n);
			if (v.empty())
				return mc::discard();
			prep();
			roundtrip("sizes", {v, {fl::close("after")}}, {});
		});
		mc::scenario("control", "strings with every content of up to 6 bytes (thorough: 8) over {1b,01,1a}, in a position of every alignment, between two frames", o, [] {
			int n = 1 + choose(mc::tier ? 8 : 6), shift = choose(4);
			static const char a[] = {0x1b, 1, 0x1a};
			std::string s;
			for (int i = 0; i < n; i++)
				s += a[choose(3)];
			prep();
			mode = choose(2);
			roundtrip("control bytes", {{fl::close("x")}, {msg(std::string(1 + shift, 'a'), 0x201, {oct(s)})}, {fl::close("y")}}, {});
		});
		mc::scenario("far-control", "strings of 2100 bytes (thorough: 9000) with 1 to 3 bytes 1b, or one of 4 other near misses of control sequences, at every position, between two frames; by reader or listener", o, [] {
			static const std::string near[] = {"\x1b", "\x1b\x1b", "\x1b\x1b\x1b", std::string("\x1b\x1b\x1b\x00\x1b", 5), "\x1b\x1b\x1a\x1b\x1b\x1b\x1a", "\x01\x01\x01\x01", "\x1a\x1a\x1a\x1a"};
			int len = mc::tier ? 9000 : 2100, at = choose(len - 8), k = choose(7);
			std::string s((size_t)len, 0x22);
			s.replace((size_t)at, near[k].size(), near[k]);
			prep();
			mode = mc::tier ? choose(2) : at & 1;
			if (mode && len > 7900)
				return mc::discard();
			roundtrip("far control bytes", {{fl::close("x")}, {msg("a", 0x201, {oct(s)})}, {fl::close("y")}}, {});
		});
		mc::scenario("numbers", "numbers and statuses made of control bytes, in every alignment", o, [] {
			static const uint64_t v[] = {0x1b1b1b1b, 0x1b1b1b1b1b1b1b1bull, 0x1b1b1b1b1a000000ull, 0x1a1b1b1b1b000000ull, 0x001b1b1b1b1a0000ull, 0x1b1b1b1a, 0x011b1b1b1b010101ull};
			int i = choose(7), shift = choose(4), k = choose(3);
			Node e = list(VLE, {oct("n"), k == 0 ? status(v[i], 8) : null(STATUS), k == 1 ? time(1, (uint32_t)v[i]) : null(TIME), null(U8), null(I8),
								k == 2 ? vint(true, v[i], 8) : vint(false, v[i], 8), null(OCT)});
			Node m = msg(std::string(1 + shift, 'a'), 0x701, {null(OCT), oct("s"), null(OCT), null(TIME), seq(VLIST, {e}), null(OCT), null(TIME)});
			prep();
			mode = choose(2);
			roundtrip("control numbers", {{fl::close("x")}, {m}, {fl::close("y")}}, {});
		});
		mc::scenario("between", "three frames with all combinations of 12 kinds of noise before, between and behind them, by reader and listener, bytes one by one, by 3, or whole", o, [] {
			static const std::string noise[] = {"", "x", "\x1b", "\x1b\x1b", "\x1b\x1b\x1b", "\x1b\x1b\x1b\x1b", "\x1b\x1b\x1b\x1b\x1b", "\x1b\x1b\x1b\x1b\x01", std::string("\x1b\x1b\x1b\x1b\x01\x01\x01", 7), std::string(5, 0), "\x1b\x1b\x1b\x1b\x1a\x01\x02\x03", "\x1b\x1b\x1b\x1b\x01\x01\x1b"};
			prep();
			mode = choose(2);
			int c = choose(3);
			if (c) {
				io::in.policy = io::CAP;
				io::in.cap = c == 1 ? 1 : 3;
			}
			std::vector<std::string> b;
			for (int i = 0; i < 4; i++)
				b.push_back(noise[choose(12)]);
			roundtrip("between", {{fl::close("1")}, {fl::close("12"), fl::close("123")}, {fl::close("4")}}, b);
		});
		o.budget = 2;
		mc::scenario("schedules", "one frame of each of 4 kinds, read with up to 2 unusual answers of the system", o, [] {
			int k = choose(4);
			prep();
			io::in.policy = io::DEV;
			mode = choose(2);
			roundtrip("schedule", {{k < 2 ? fl::close(k ? "1" : "") : compact(tags[k * 3], 0)}}, {});
		});
		o.budget = 0;
		mc::scenario("chain", "a file written, read, parsed, and what was parsed written again, 5 times", o, [] {
			int t = choose(14), n = 1 + choose(3);
			prep();
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(compact(tags[(t + i) % 14], i));
			mc::track_reset();
			sml_file *f = fl::built(v);
			std::string first;
			for (int r = 0; r < 5; r++) {
				std::string w = written(f);
				if (r == 0)
					first = w;
				else if (w != first)
					mc::fail("chain: frame %d differs: %s, first %s", r, mc::hex(w).c_str(), mc::hex(first).c_str());
				LIB(sml_file_free(f));
				io::in = io::In();
				io::in.fd = FD;
				io::in.data = w;
				unsigned char *b = (unsigned char *)malloc(w.size() + 8);
				size_t l = LIB(sml_transport_read(FD, b, w.size() + 8));
				if (l != w.size())
					mc::fail("chain: %zu of %zu bytes read", l, w.size());
				f = LIB(sml_file_parse(b + 8, l - 16));
				free(b);
			}
			if (ext(f) != fl::norm(v))
				mc::fail("chain: %s became %s", dumpall(v).c_str(), dumpall(ext(f)).c_str());
			LIB(sml_file_free(f));
			leakcheck("chain", first);
			mc::outcome(first);
			mc::validated(6);
		});
	});
}
