#include "files.hpp"
#include <sys/mman.h>
#include <unistd.h>
// C26: the printing functions show exactly what they are given
static int mem = -1;
// what f writes to standard output
static std::string printed(const std::function<void()> &f) {
	fflush(stdout);
	if (mem < 0)
		mem = memfd_create("out", 0);
	if (ftruncate(mem, 0) || lseek(mem, 0, SEEK_SET))
		abort();
	int keep = dup(1);
	dup2(mem, 1);
	f();
	fflush(stdout);
	dup2(keep, 1);
	close(keep);
	std::string s(lseek(mem, 0, SEEK_END), 0);
	lseek(mem, 0, SEEK_SET);
	if (!s.empty() && read(mem, &s[0], s.size()) != (ssize_t)s.size())
		abort();
	return s;
}
static void same(const std::string &got, const std::string &want, const std::string &what) {
	mc::outcome(got);
	mc::validated();
	if (mc::want_note())
		mc::note(what + " -> " + got.substr(0, 300));
	if (got != want)
		mc::fail("%s prints \"%.500s\" (%zu bytes), expected \"%.500s\" (%zu bytes)", what.c_str(), got.c_str(), got.size(), want.c_str(), want.size());
}
static void dump(const std::string &s) {
	std::string want, got;
	for (size_t i = 0; i < s.size(); i++) {
		want += mc::strf("%02X ", (unsigned char)s[i]);
		if (i % 8 == 7)
			want += "\n";
	}
	want += "\n";
	mc::track_reset();
	{
		Exact e(s);
		got = printed([&] { LIB(sml_hexdump(e.p, e.n)); });
		if (s.size() && memcmp(e.p, s.data(), s.size()))
			mc::fail("printing %s changes it", mc::hex(s).c_str());
	}
	same(got, want, "the dump of " + mc::hex(s, 100));
}
static std::string head(size_t n, size_t bytes) { return mc::strf("SML file (%zu SML messages, %zu bytes)\n", n, bytes); }
static std::string line(const Node &m) { return mc::strf("SML message %4X\n", (unsigned)m.c[3].n); }
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C26", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 600 : 60;
#ifndef BIG
		mc::scenario("bytes", "dumps of all strings of up to 2 bytes", o, [] {
			int n = choose(3);
			std::string s;
			for (int i = 0; i < n; i++)
				s += (char)choose(256);
			dump(s);
		});
		mc::scenario("lengths", "dumps of every length up to 600 (thorough 9000) and selected ones up to 70000, all bytes equal or different", o, [] {
			static const int more[] = {1023, 1024, 1025, 4095, 4096, 4097, 8095, 8096, 32767, 32768, 65535, 65536, 65537, 70000};
			int small = mc::tier ? 9000 : 600, n = choose(small + 1 + 14), v = choose(6);
			if (n > small)
				n = more[n - small - 1];
			static const unsigned char b[] = {0, 0xff, 0x0a, 0x25};
			dump(v < 4 ? std::string(n, (char)b[v]) : bytes_of(n, v == 4 ? 0 : 0x80));
		});
		mc::scenario("files", "all sequences of up to 3 of the 14 kinds of messages, built (and then written or not) or parsed, intact, the last cut off, or one with a wrong checksum; printed twice", o, [] {
			int n = choose(4), how = choose(5);
			std::vector<Node> ms, want;
			std::string b;
			for (int i = 0; i < n; i++) {
				Node m = compact(tags[choose(14)], i);
				ms.push_back(m);
				std::string e = encode(m);
				if (how == 4 && i == (n > 2))
					e[e.size() - 2] ^= 1;
				else if (!(how == 3 && i == n - 1))
					want.push_back(m);
				b += e;
			}
			if (how == 3) {
				if (!n)
					return mc::discard();
				b.resize(b.size() - 4); // within the checksum
			}
			mc::track_reset();
			sml_file *f = how < 2 ? fl::built(ms) : fl::parsed(b);
			size_t bytes = how == 0 ? 0 : b.size();
			if (how == 1)
				LIB(sml_file_write(f));
			if (how == 3)
				bytes = f->buf->cursor; // the place where reading stopped is not laid down
			auto before = ext(f);
			std::string w = head(want.size(), bytes);
			for (auto &m : want)
				w += line(m);
			std::string what = mc::strf("a file (%s) of %s", how == 0 ? "built" : how == 1 ? "written" : how == 2 ? "parsed" : how == 3 ? "cut off" : "damaged", dumpall(want).substr(0, 200).c_str());
			for (int i = 0; i < 2; i++)
				same(printed([&] { LIB(sml_file_print(f)); }), w, what);
			if (ext(f) != before || f->buf->cursor != bytes)
				mc::fail("%s is changed by printing it", what.c_str());
			LIB(sml_file_free(f));
			leakcheck("printing", what);
		});
#endif
#ifdef BIG // without sanitizer: its realloc always copies
		o.exec_timeout = 100;
		mc::scenario("counts-big", "files of 32768, 65535 to 65537 and 70000 messages (thorough: up to 200000), parsed", o, [] {
			static const int more[] = {32768, 65535, 65536, 65537, 70000, 131072, 200000};
			int n = more[choose(mc::tier ? 7 : 5)];
#else
		mc::scenario("counts", "files of every number of messages up to 300 and 1000, 4097 (thorough 30000), parsed", o, [] {
			static const int more[] = {1000, 4097, 30000};
			int n = choose(mc::tier ? 304 : 303);
			if (n > 300)
				n = more[n - 301];
#endif
			std::string b, w, e[14];
			for (int i = 0; i < 14; i++)
				e[i] = encode(compact(tags[i], 0));
			for (int i = 0; i < n; i++)
				b += e[(i + i / 14) % 14];
			w = head(n, b.size());
			for (int i = 0; i < n; i++)
				w += mc::strf("SML message %4X\n", (unsigned)tags[(i + i / 14) % 14]);
			mc::track_reset();
			sml_file *f = fl::parsed(b);
			same(printed([&] { LIB(sml_file_print(f)); }), w, mc::strf("a file of %d messages", n));
			LIB(sml_file_free(f));
		});
	});
}
