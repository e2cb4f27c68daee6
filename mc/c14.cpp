#include "files.hpp"
#include "sweep.hpp"
// C14: a transport write emits one complete valid frame or reports failure
using namespace fr;
static int FD = -1;
static void prep() {
	if (FD < 0)
		FD = io::pipefd();
	io::out = io::Out();
	io::out.fd = FD;
}
static void one(const char *what, sml_file *f, const std::string &want) {
	io::out.data.clear();
	io::out.unusual = false;
	io::out.trace.clear();
	io::out.calls = 0;
	int r = LIB(sml_transport_write(FD, f));
	const std::string &d = io::out.data;
	if (mc::want_note())
		mc::note(mc::strf("%s: returned %d of %s; %s", what, r, mc::hex(want, 150).c_str(), io::out.trace.c_str()));
	if (d.size() > want.size() || want.compare(0, d.size(), d))
		mc::fail("%s: emitted %zu bytes %s, the frame is %zu bytes %s; %s", what, d.size(), mc::hex(d, 1200).c_str(), want.size(),
				 mc::hex(want, 1200).c_str(), io::out.trace.c_str());
	bool whole = d.size() == want.size();
	if (!whole && !io::out.unusual)
		mc::fail("%s: only %zu of %zu bytes were emitted", what, d.size(), want.size());
	if (r != (whole ? (int)want.size() : 0))
		mc::fail("%s: returned %d, the descriptor accepted %zu of %zu bytes; %s", what, r, d.size(), want.size(), io::out.trace.c_str());
	mc::outcome(mc::hash(want, (uint64_t)r * 31 + d.size()));
	mc::validated();
	mc::transition(io::out.calls);
}
static void done(sml_file *f) {
	LIB(sml_file_free(f));
	leakcheck("writing a frame", "");
}
// allocations of the library that fail
static int failfrom = -1, failto = -1, allocs;
static bool fails() {
	if (!mc::in_lib || failfrom < 0)
		return false;
	int i = allocs++;
	return i >= failfrom && i < failto;
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return fails() ? 0 : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return fails() ? 0 : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return fails() ? 0 : __real_realloc(p, n); }
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C14", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("sizes", "files of every encoded size from 30 to 1400 bytes, written twice", o, [] {
			size_t n = 30 + choose(1371);
			std::vector<Node> v = fl::ofsize(n);
			if (v.empty())
				return mc::discard();
			prep();
			mc::track_reset();
			sml_file *f = fl::built(v);
			std::string w = fl::frameof(v);
			one("write", f, w);
			one("second write", f, w);
			done(f);
		});
		mc::scenario("memory", "files of 0 to 3 messages of all kinds, and of sizes across the growth of the buffer, built or parsed: any allocation during the write fails, alone or with all later ones, and the file is then written again", o, [] {
			std::vector<Node> v;
			int kind = choose(3), how = choose(3);
			if (kind == 0) {
				int n = choose(4);
				for (int i = 0; i < n; i++)
					v.push_back(compact(tags[n > 1 ? choose(7) * 2 + i % 2 : choose(14)], i));
			} else if (kind == 1)
				v = fl::ofsize(440 + choose(120));
			else
				v = std::vector<Node>(1 + choose(40), samplemsg(tags[choose(14)], 1));
			if (v.empty() && kind)
				return mc::discard();
			prep();
			mc::track_reset();
			sml_file *f = how == 0 ? fl::built(v) : fl::parsed(encodeall(v) + (how == 1 ? std::string() : std::string("\x76\x02", 2)));
			std::string w = fl::frameof(v);
			allocs = 0;
			failfrom = choose(40);
			failto = choose(2) ? 1 << 30 : failfrom + 1;
			int at = failfrom;
			io::out.data.clear();
			int r = LIB(sml_transport_write(FD, f));
			failfrom = -1;
			if (allocs <= at) // it did not come that far
				mc::discard();
			const std::string &d = io::out.data;
			if (r ? r != (int)w.size() || d != w : d.size() >= w.size() || w.compare(0, d.size(), d))
				mc::fail("allocation %d fails%s: returned %d and emitted %s, the frame is %s", at, failto > at + 1 ? " and all later ones" : "", r, mc::hex(d, 900).c_str(), mc::hex(w, 900).c_str());
			one("memory", f, w);
			done(f);
			mc::outcome(mc::hash(w, at));
		});
		mc::scenario("large", "files of sizes around powers of two from 1 kB to 256 kB (thorough: 4 MB), in one string or in many messages", o, [] {
			size_t n = ((size_t)1024 << choose(mc::tier ? 13 : 9)) + choose(25) - 20;
			bool many = choose(2);
			std::vector<Node> v;
			if (many)
				for (size_t l = 0; l + 40 < n; l += 40)
					v.push_back(fl::close(std::string(19, 'm')));
			else
				v = fl::ofsize(n);
			if (v.empty())
				return mc::discard();
			prep();
			mc::track_reset();
			sml_file *f = fl::built(v);
			one("large write", f, fl::frameof(v));
			done(f);
		});
		mc::scenario("larger", "files of sizes around 1 MB (thorough: 2 to 32 MB) and 16 MB in one string", o, [] {
			int p = choose(mc::tier ? 6 : 2), d = choose(p && !mc::tier ? 1 : 9);
			std::vector<Node> v = fl::ofsize(((size_t)1 << (p && !mc::tier ? 24 : 20 + p)) + (p && !mc::tier ? 40 : d * 5 - 20));
			if (v.empty())
				return mc::discard();
			prep();
			mc::track_reset();
			sml_file *f = fl::built(v);
			one("larger write", f, fl::frameof(v));
			done(f);
		});
		mc::scenario("kinds", "files of 0 to 3 messages (thorough: 4) of all kinds, built or parsed, written up to 3 times", o, [] {
			int n = choose(mc::tier ? 5 : 4), how = choose(4), times = 1 + choose(3);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(compact(tags[n > 2 ? choose(7) * 2 + i % 2 : choose(14)], i));
			prep();
			mc::track_reset();
			std::string enc = encodeall(v);
			// parsed: from a buffer that ends with the messages, is followed by zeros, or by an incomplete message
			sml_file *f = how == 0 ? fl::built(v) : fl::parsed(enc + (how == 1 ? std::string() : how == 2 ? std::string(7, 0) : std::string("\x76\x02" "a\x62\x01", 5)));
			std::string w = fl::frameof(v);
			for (int i = 0; i < times; i++)
				one("kinds", f, w);
			done(f);
		});
		mc::scenario("resized", "a file written, one of its strings replaced by a shorter or longer one, written again, replaced by the first, written: all pairs of lengths from 0 to 40", o, [] {
			int a = choose(41), b = choose(41), k = choose(2);
			auto content = [&](int l) {
				std::vector<Node> v{fl::close(std::string(l, (char)0xee))};
				if (k)
					v.push_back(compact(0x701, 0));
				return v;
			};
			prep();
			mc::track_reset();
			sml_file *f = fl::built(content(a));
			one("write", f, fl::frameof(content(a)));
			for (int i = 0; i < 2; i++) {
				int l = i ? a : b;
				sml_message *m = f->messages[0];
				std::string s(l, (char)0xee);
				LIB(sml_octet_string_free(m->transaction_id));
				m->transaction_id = LIB(sml_octet_string_init((unsigned char *)s.data(), l));
				one("write of the changed file", f, fl::frameof(content(l)));
			}
			done(f);
		});
		mc::scenario("checksums", "files of one or two messages of which one has each of the 65536 checksums in turn (and the frame a different one each)", o, [] {
			int n = 1 + choose(2), a = choose(256), b = choose(256);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(fl::close(i == n - 1 ? std::string(1, (char)a) + (char)b : "x"));
			prep();
			mc::track_reset();
			sml_file *f = fl::built(v);
			one("write", f, fl::frameof(v));
			done(f);
		});
		mc::scenario("leaf-values", "one message of each kind; every leaf with every third (thorough: every) value of a broad alphabet", o, [] {
			std::vector<Node> v{samplemsg(tags[choose(14)], 0)};
			if (!sweepleaf(v[0], mc::tier ? 1 : 3))
				return;
			prep();
			mc::track_reset();
			sml_file *f = fl::built(v);
			one("write", f, fl::frameof(v));
			done(f);
		});
		mc::scenario("noncanonical", "parsed files whose encoding is longer or shorter than the canonical one (one deviating encoding choice each), checksums Kermit or X.25", o, [] {
			int t = choose(14);
			Node m = compact(tags[t], 1);
			static const int total = 200;
			int at = choose(total);
			struct E1 : Enc {
				int at, i = 0;
				int pickn(int n) { return i++ == at && n > 1 ? n - 1 : 0; }
				int intlen(const Node &, int mn, int full) override { return full - pickn(full - mn + 1); }
				int tlx(Kind) override { return pickn(3); }
				int timeform(const Node &n) override { return !n.c[0].null && n.c[0].n == 1 && !n.c[1].null ? pickn(2) : 0; }
				uint8_t truebyte() override { return pickn(2) ? 1 : 0xff; }
			} e;
			e.at = at;
			W w = lower(m, e);
			if (at >= e.i)
				return mc::discard();
			w.kids[4].kermit = choose(2);
			std::string b;
			emit(w, b);
			prep();
			mc::track_reset();
			sml_file *f = fl::parsed(b + encode(fl::close("z")));
			if (f->messages_len != 2) { // (a deviation that is not legal)
				LIB(sml_file_free(f));
				return mc::discard();
			}
			one("noncanonical", f, fl::frameof({m, fl::close("z")}));
			done(f);
		});
		mc::scenario("buffers", "output buffers used before: any of 16 (thorough: 256) byte values as old content, cursor anywhere, error flag set, sizes 1 to 200", o, [] {
			int size = 1 + choose(200), fill = mc::tier ? choose(256) : choose(16) * 17, cur = choose(3);
			std::vector<Node> v{compact(tags[choose(2) * 5], 0), fl::close(std::string(20 + choose(4), 'q'))};
			prep();
			mc::track_reset();
			sml_file *f = fl::built(v);
			LIB(sml_buffer_free(f->buf));
			f->buf = LIB(sml_buffer_init(size));
			memset(f->buf->buffer, fill, size);
			f->buf->cursor = cur == 0 ? 0 : cur == 1 ? size : size / 2;
			f->buf->error = cur == 2;
			one("used buffer", f, fl::frameof(v));
			done(f);
		});
		o.budget = 2;
		mc::scenario("faults", "frames of 5 files: every answer of the system to the writes (every number of bytes, EINTR, EAGAIN, EPIPE, ENOSPC, EIO, EBADF), up to 2 unusual answers, followed by a second write of the same file", o, [] {
			int k = choose(5);
			std::vector<Node> v;
			if (k >= 1) v.push_back(fl::close("1"));
			if (k >= 2) v.push_back(fl::close("12"));
			if (k == 3) v.push_back(fl::close(std::string(600, 'x')));
			if (k == 4) v.push_back(compact(0x701, 0));
			prep();
			io::out.policy = io::DEV;
			mc::track_reset();
			sml_file *f = fl::built(v);
			std::string w = fl::frameof(v);
			one("write", f, w);
			one("write after that", f, w);
			done(f);
		});
		o.budget = 2;
		mc::scenario("large-faults", "frames around 4, 8, 32, 64 and 128 kB: every answer of the system to the writes (up to 16 bytes, all but up to 20, quarters, EINTR, EAGAIN, EPIPE, ENOSPC, EIO, EBADF), up to 2 unusual answers; followed by a second write of the same file", o, [] {
			static const size_t sz[] = {4096, 8192, 32768, 65536, 131072};
			std::vector<Node> v = fl::ofsize(sz[choose(5)] + choose(4) * 8 - 24);
			if (v.empty())
				return mc::discard();
			prep();
			io::out.policy = io::DEV;
			mc::track_reset();
			sml_file *f = fl::built(v);
			std::string w = fl::frameof(v);
			one("large write", f, w);
			io::out.policy = io::PLAIN;
			one("write after that", f, w);
			done(f);
		});
		o.budget = 0;
		mc::scenario("large-capped", "descriptors that accept at most 1 to 70 kB per write, with the frames around that size and its multiples", o, [] {
			static const size_t cap[] = {1024, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 70000};
			size_t c = cap[choose(9)];
			std::vector<Node> v = fl::ofsize(c * (1 + choose(3)) + choose(7) * 8 - 40);
			if (v.empty())
				return mc::discard();
			prep();
			io::out.policy = io::CAP;
			io::out.cap = c;
			mc::track_reset();
			sml_file *f = fl::built(v);
			one("large capped", f, fl::frameof(v));
			done(f);
		});
		mc::scenario("errno", "frames of each kind of message, errno having any of 13 values before the call, the descriptor accepting everything or at most 7 bytes per write", o, [] {
			static const int errs[] = {0, EBADF, EINTR, EAGAIN, EIO, EPIPE, ENOMEM, EINVAL, ETIMEDOUT, ECONNRESET, ENXIO, ERANGE, ENOSPC};
			std::vector<Node> v{compact(tags[choose(14)], 0)};
			int e = errs[choose(13)];
			prep();
			if (choose(2)) {
				io::out.policy = io::CAP;
				io::out.cap = 7;
			}
			mc::track_reset();
			sml_file *f = fl::built(v);
			std::string w = fl::frameof(v);
			for (int i = 0; i < 2; i++) {
				errno = e;
				one("errno", f, w);
			}
			done(f);
		});
		o.budget = 0;
		mc::scenario("capped", "descriptors that accept at most 1 to 100 bytes per write", o, [] {
			int k = choose(2);
			std::vector<Node> v{fl::close("1")};
			if (k) v.push_back(compact(0x101, 0));
			prep();
			io::out.policy = io::CAP;
			io::out.cap = 1 + choose(100);
			mc::track_reset();
			sml_file *f = fl::built(v);
			one("capped", f, fl::frameof(v));
			done(f);
		});
	});
}
