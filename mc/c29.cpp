#include "files.hpp"
#include "sweep.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <sml/sml_crc16.h>
// C29: what is not delivered is reported on standard error, and nothing else;
// standard output belongs to the application
struct Said {
	std::string out, err;
};
static std::string drain(int fd) {
	std::string s(lseek(fd, 0, SEEK_END), 0);
	lseek(fd, 0, SEEK_SET);
	if (!s.empty() && read(fd, &s[0], s.size()) != (ssize_t)s.size())
		abort();
	return s;
}
template <class F> static Said said(F f) {
	static int mem[2] = {-1, -1}, keep[2];
	for (int i = 0; i < 2; i++) {
		if (mem[i] < 0) {
			mem[i] = memfd_create("said", 0);
			keep[i] = dup(i + 1);
		}
		if (lseek(mem[i], 0, SEEK_END) > 0 && (ftruncate(mem[i], 0) || lseek(mem[i], 0, SEEK_SET)))
			abort();
	}
	fflush(stdout);
	dup2(mem[0], 1);
	dup2(mem[1], 2);
	f();
	fflush(stdout);
	fflush(stderr);
	dup2(keep[0], 1);
	dup2(keep[1], 2);
	mc::transition();
	return {drain(mem[0]), drain(mem[1])};
}
static int lines(const Said &s, const std::string &what) {
	int n = 0;
	size_t at = 0;
	while (at < s.err.size()) {
		size_t e = s.err.find('\n', at);
		if (e == std::string::npos || s.err.compare(at, 8, "libsml: "))
			mc::fail("%s: not a line of the library on standard error: \"%.300s\"", what.c_str(), s.err.c_str());
		at = e + 1;
		n++;
	}
	return n;
}
static void silent(const Said &s, const std::string &what) {
	if (!s.out.empty())
		mc::fail("%s writes \"%.300s\" to standard output", what.c_str(), s.out.c_str());
	if (!s.err.empty())
		mc::fail("%s writes \"%.300s\" to standard error", what.c_str(), s.err.c_str());
}
static void atleast(const Said &s, int n, const std::string &what) {
	if (!s.out.empty())
		mc::fail("%s writes \"%.300s\" to standard output", what.c_str(), s.out.c_str());
	int k = lines(s, what);
	if (k < n)
		mc::fail("%s: %d lines on standard error, at least %d expected: \"%.300s\"", what.c_str(), k, n, s.err.c_str());
	if (!n && k)
		mc::fail("%s writes \"%.300s\" to standard error", what.c_str(), s.err.c_str());
}
static bool novalue(const Node &n) { // a time whose value was ignored
	if (n.k == TIME && !n.null && n.c[1].null)
		return true;
	for (auto &c : n.c)
		if (novalue(c))
			return true;
	return false;
}
static void parse(const std::string &b) {
	if (mc::want_note())
		mc::note(mc::hex(b, 500));
	FileResult r = decodefile(b);
	int n = r.dropped + r.stopped;
	if (!n)
		for (auto &m : r.msgs)
			n |= novalue(m);
	mc::track_reset();
	{
		Exact e(b);
		sml_file *f = 0;
		Said s = said([&] { f = LIB(sml_file_parse(e.p, e.n)); });
		atleast(s, n, "parsing " + mc::hex(b, 600));
		s = said([&] { LIB(sml_file_write(f)); LIB(sml_file_free(f)); });
		silent(s, "writing and freeing what was parsed of " + mc::hex(b, 600));
	}
	mc::outcome(b);
	mc::validated();
}
static int FD = -1;
static void start(const std::string &s) {
	if (FD < 0)
		FD = io::pipefd();
	io::in = io::In();
	io::in.fd = FD;
	io::in.data = s;
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C29", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		o.budget = mc::tier ? 3 : 2;
		mc::scenario("sound", "messages with every combination of four states of the fields of each structure and body (two deviations, thorough three, where there are more than seven fields), built, written twice, as a frame, parsed, read and freed: nothing is written", o, [] {
			Node m = statemsg();
			if (mc::discarded())
				return;
			if (mc::want_note())
				mc::note(dump(m));
			sml_message *x = 0;
			mc::track_reset();
			silent(said([&] {
					   x = LIB(buildmsg(m));
					   sml_file *f = LIB(sml_file_init());
					   LIB(sml_file_add_message(f, x));
					   LIB(sml_file_write(f));
					   if (FD < 0)
						   FD = io::pipefd();
					   io::out = io::Out();
					   io::out.fd = FD;
					   LIB(sml_transport_write(FD, f));
					   LIB(sml_file_free(f));
				   }),
				   "building and writing " + dump(m));
			silent(said([&] {
					   start(io::out.data + io::out.data);
					   LIB(sml_transport_listen(FD, [](unsigned char *b, size_t n) { sml_file_free(sml_file_parse(b + 8, n - 16 - b[n - 3])); }));
				   }),
				   "reading and parsing " + dump(m));
			leakcheck("all", encode(m));
			mc::outcome(io::out.data);
			mc::validated();
		});
		o.budget = mc::tier ? 2 : 1;
		mc::scenario("structure", "each of the 14 kinds (compact or with every field) with up to `budget` of 45 structural mutations at every element and a matching checksum, alone or between intact messages", o, [] {
			int t = choose(14), form = choose(mc::tier ? 1 : 2), around = choose(2);
			Node m = form ? samplemsg(tags[t], 0) : compact(tags[t], 0);
			W w = lower(m);
			if (!mutations(w))
				return mc::discard();
			std::string b = around ? encode(compact(0x701, 1)) : "";
			emit(w, b);
			if (around)
				b += encode(compact(0x201, 2));
			parse(b);
		});
		mc::scenario("encodings", "each kind in every encoding with up to `budget` deviations (times as lists of three and without list among them), cut off within the last 6 bytes or not", o, [] {
			EncMC e;
			std::string b;
			emit(lower(samplemsg(tags[choose(14)], 0), e), b);
			parse(b.substr(0, b.size() - choose(7)));
		});
		o.budget = 0;
		mc::scenario("times", "each time of each kind as a list of three whose members are each absent, 0, 1, -1 or the largest, in every combination", o, [] {
			W w = lower(samplemsg(tags[choose(14)], 0));
			std::vector<W *> ts;
			walk(w, [&](W &x, W *, int) {
				if (x.k == TIME && x.kids.size() == 2)
					ts.push_back(&x);
			});
			if (ts.empty())
				return mc::discard();
			W l;
			l.k = TIME;
			l.type = 0x70;
			l.list = true;
			for (int i = 0; i < 3; i++) {
				W v;
				v.type = i ? 0x50 : 0x60;
				if (int a = choose(5)) {
					static const char *const big[] = {"\0\0\0\0", "\0\0\0\1", "\xff\xff\xff\xff", "\x7f\xff\xff\xff"};
					v.data.assign(big[a - 1], 4);
					if (i)
						v.data = a == 4 ? "\x7f\xff" : v.data.substr(2);
				} else
					v.type = 0; // absent
				l.kids.push_back(v);
			}
			ts[choose((int)ts.size())]->kids[1] = l;
			std::string b;
			emit(w, b);
			parse(b);
		});
		mc::scenario("dropped", "all sequences of up to 5 messages that are intact, have a wrong checksum (two forms), the other accepted one, are malformed or of unknown type, with and without padding, cut off in the last one or not: a line for each that is dropped and one if reading stops", o, [] {
			int n = 1 + choose(5), pad = choose(2), cut = choose(2);
			static const uint32_t ks[] = {0x701, 0x201, 0x501};
			std::string b;
			for (int i = 0; i < n; i++) {
				int f = choose(6);
				W w = lower(compact(ks[n >= 4 ? i % 3 : choose(3)], i));
				if (f == 1)
					w.kids[4].crcxor = 1;
				if (f == 2)
					w.kids[4].crcxor = 0xff00;
				if (f == 3)
					w.kids[4].kermit = true;
				if (f == 4)
					w.kids[0].delta = 200;
				if (f == 5)
					w.kids[3].kids[0].data = std::string("\x09\x01", 2);
				std::string x;
				emit(w, x);
				b += x + std::string(pad, 0);
			}
			parse(b.substr(0, b.size() - (cut ? pad + 5 : 0)));
		});
		mc::scenario("bytes", "each of the 14 kinds followed by another message, with every byte set to every value (checksum adjusted or not)", o, [] {
			int t = choose(14), fix = choose(2);
			static thread_local std::string e;
			e = encode(compact(tags[t], 0));
			int at = (int)e.size() - 4, i = choose((int)e.size()), v = choose(256);
			e[i] = (char)v;
			if (fix && i < at) {
				uint16_t c = crc_sml(e.data(), at);
				e[at + 1] = (char)(c >> 8);
				e[at + 2] = (char)c;
			}
			parse(e + encode(compact(0x201, 2)));
		});
		mc::scenario("frames", "streams of up to 4 frames of 5 sizes with up to 9 bytes of noise between them, read whole or by 1 or 3 bytes, interrupted or not: nothing is written; then an unknown escape sequence or a read error behind the start and up to 3 words, or the end: a line for the first two; and buffers of 0 to 7 bytes: a line", o, [] {
			int n = choose(5), noise = choose(4), how = choose(3), intr = choose(2), last = choose(4), words = last == 1 || last == 2 ? choose(4) : 0;
			std::string s;
			static const int nz[] = {0, 1, 4, 9};
			for (int i = 0; i < n; i++)
				s += std::string(nz[noise], (char)(i * 0x2b)) + fr::frame(std::string(4 * choose(5) * (i + 1), 'p'), 0, "\0\0");
			if (last == 1)
				s += fr::START + std::string(4 * words, 'x') + fr::ESC + "\x02\x02\x03\x04";
			if (last == 2)
				s += fr::START + std::string(4 * words, 'x');
			start(s);
			if (how) {
				io::in.policy = io::CAP;
				io::in.cap = how == 1 ? 1 : 3;
			}
			if (intr)
				io::in.every = EINTR;
			if (last == 2)
				io::in.err_at_end = EIO;
			mc::track_reset();
			unsigned char *b = (unsigned char *)malloc(8096);
			for (int i = 0; i < n; i++) {
				size_t r = 0;
				silent(said([&] { r = LIB(sml_transport_read(FD, b, 8096)); }), mc::strf("reading frame %d of %s", i, mc::hex(s, 300).c_str()));
				if (!r)
					mc::fail("frame %d of %s is not read", i, mc::hex(s, 300).c_str());
			}
			if (last == 3) {
				int k = choose(8);
				size_t r = 1;
				Said x = said([&] { r = LIB(sml_transport_read(FD, b, k)); });
				atleast(x, 1, mc::strf("reading into %d bytes", k));
				if (r)
					mc::fail("read %zu bytes into %d", r, k);
			} else {
				size_t r = 1;
				Said x = said([&] { r = LIB(sml_transport_read(FD, b, 8096)); });
				if (r)
					mc::fail("a frame of %zu bytes is read", r);
				atleast(x, last ? 1 : 0, std::string(last == 1 ? "an unknown escape sequence" : last == 2 ? "a read error" : "the end") + " in " + mc::hex(s, 300));
			}
			free(b);
			leakcheck("all", s);
			mc::outcome(mc::hash(s, how * 8 + intr * 4 + last));
			mc::validated(n + 1);
		});
		mc::scenario("conversions", "every value of a broad alphabet as text, as number, compared; octet strings from digits (also odd and other characters); checksums; new messages: nothing is written", o, [] {
			int op = choose(3);
			mc::track_reset();
			if (op == 0) {
				Node v = sweep(VALUE, 1 + choose(nsweep(VALUE) - 1));
				std::string e;
				emit(lower(v), e);
				Exact x(e);
				sml_buffer b = {x.p, x.n, 0, 0, 0};
				sml_value *p = LIB(sml_value_parse(&b));
				if (!p)
					mc::fail("not parsed: %s", mc::hex(e).c_str());
				bool text = p->type == SML_TYPE_OCTET_STRING;
				silent(said([&] {
						   if (text) {
							   char *t = 0;
							   for (int mixed = 0; mixed < 2; mixed++) {
								   LIB(sml_value_to_strhex(p, &t, mixed));
								   mc::Lib l;
								   free(t);
							   }
							   LIB(sml_octet_string_cmp(p->data.bytes, p->data.bytes));
						   } else if (p->type != SML_TYPE_BOOLEAN)
							   LIB(sml_value_to_double(p));
						   LIB(sml_value_free(p));
					   }),
					   "converting " + dump(v));
			} else if (op == 1) {
				std::string h;
				for (int i = choose(4); i > 0; i--)
					h += "09afAFgz/ %\x80"[choose(12)];
				silent(said([&] {
						   octet_string *x = LIB(sml_octet_string_init_from_hex((char *)h.c_str())), *y = LIB(sml_octet_string_init((unsigned char *)"\x0a", 1));
						   LIB(sml_octet_string_cmp_with_hex(y, (char *)h.c_str()));
						   LIB(sml_octet_string_free(x));
						   LIB(sml_octet_string_free(y));
					   }),
					   "reading digits " + h);
			} else {
				int n = choose(300);
				std::string s = bytes_of(n, n);
				silent(said([&] {
						   LIB(sml_crc16_calculate((unsigned char *)s.data(), n));
						   LIB(sml_crc16kermit_calculate((unsigned char *)s.data(), n));
						   if (n < 20)
							   LIB(sml_message_free(LIB(sml_message_init())));
					   }),
					   "a checksum");
			}
			leakcheck("all", "");
			mc::outcome(mc::hash("conv", op));
			mc::validated();
		});
	});
}
