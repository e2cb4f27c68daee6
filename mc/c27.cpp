#include "sweep.hpp"
// C27: after parsing, the file's buffer tells whether all of it was understood
static void check(const std::string &b) {
	if (mc::want_note())
		mc::note(mc::hex(b, 600));
	FileResult r = decodefile(b);
	mc::track_reset();
	{
		Exact e(b);
		sml_file *f = LIB(sml_file_parse(e.p, e.n));
		if (!f || !f->buf)
			mc::fail("no file or buffer for %s", mc::hex(b, 700).c_str());
		int err = LIB(sml_buf_has_errors(f->buf));
		size_t at = f->buf->cursor;
		if (r.stopped && !err)
			mc::fail("no error is flagged although the message at %zu cannot be read; input %s", r.at, mc::hex(b, 700).c_str());
		if (!r.stopped && err)
			mc::fail("an error is flagged although all messages can be read; input %s", mc::hex(b, 700).c_str());
		if (!r.stopped && at != b.size())
			mc::fail("the position is %zu after all %zu bytes were read; input %s", at, b.size(), mc::hex(b, 700).c_str());
		if (at > b.size() || (r.stopped && at < r.at))
			mc::fail("the position is %zu of %zu, the unreadable message starts at %zu; input %s", at, b.size(), r.at, mc::hex(b, 700).c_str());
		LIB(sml_file_free(f));
	}
	mc::outcome(b);
	mc::validated();
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C27", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		o.budget = mc::tier ? 2 : 1;
		mc::scenario("structure", "each of the 14 kinds (compact or with every field) with up to `budget` of 45 structural mutations at every element and a matching checksum, alone or between intact messages", o, [] {
			int t = choose(14), form = choose(mc::tier ? 1 : 2), around = choose(2);
			Node m = form ? samplemsg(tags[t], 0) : compact(tags[t], 0);
			W w = lower(m);
			if (!mutations(w))
				return mc::discard();
			std::string b = around ? encode(compact(0x701, 1)) : "";
			emit(w, b);
			if (around)
				b += encode(compact(0x201, 2));
			check(b);
		});
		o.budget = 0;
		mc::scenario("cut", "all sequences of up to 2 messages (thorough 3) of the 14 kinds with 0 to 2 bytes of padding, cut off after every byte", o, [] {
			int n = 1 + choose(mc::tier ? 3 : 2), pad = choose(3);
			std::string b;
			size_t before = 0;
			for (int i = 0; i < n; i++) {
				before = i + 1 < n || n == 1 ? 0 : b.size();
				b += encode(compact(tags[i == 2 ? choose(3) : choose(14)], i)) + std::string(pad, 0);
			}
			check(b.substr(0, before + choose((int)(b.size() - before) + 1)));
		});
		mc::scenario("dropped", "all sequences of up to 4 messages that are intact, have a wrong checksum (two forms), the other accepted one, are malformed, or miss their end marker, of 3 kinds, with and without padding", o, [] {
			int n = 1 + choose(4), pad = choose(2);
			static const uint32_t ks[] = {0x701, 0x201, 0x501};
			std::string b;
			for (int i = 0; i < n; i++) {
				int f = choose(6);
				W w = lower(compact(ks[n == 4 ? i % 3 : choose(3)], i));
				if (f == 1)
					w.kids[4].crcxor = 1;
				if (f == 2)
					w.kids[4].crcxor = 0xff00;
				if (f == 3)
					w.kids[4].kermit = true;
				if (f == 4)
					w.kids[0].delta = 200;
				std::string x;
				emit(w, x);
				if (f == 5)
					x.pop_back();
				b += x + std::string(pad, 0);
			}
			check(b);
		});
		mc::scenario("bytes", "each of the 14 kinds followed by another message, with every byte set to every value (checksum adjusted or not)", o, [] {
			int t = choose(14), fix = choose(2);
			static thread_local std::string e;
			e = encode(compact(tags[t], 0));
			int at = (int)e.size() - 4, i = choose((int)e.size()), v = choose(256);
			e[i] = (char)v;
			if (fix && i < at) {
				uint16_t c = crc_sml(e.data(), at);
				e[at + 1] = (char)(c >> 8);
				e[at + 2] = (char)c;
			}
			check(e + encode(compact(0x201, 2)));
		});
		mc::scenario("short", "all strings of up to 4 bytes (thorough 5) over 14 bytes, alone or behind a message", o, [] {
			static const unsigned char al[14] = {0, 1, 2, 0x41, 0x42, 0x51, 0x62, 0x63, 0x70, 0x72, 0x76, 0x80, 0xf0, 0xff};
			int n = choose(mc::tier ? 6 : 5);
			std::string s = choose(2) ? encode(compact(0x201, 0)) : "";
			for (int i = 0; i < n; i++)
				s += (char)al[choose(14)];
			check(s);
		});
		o.budget = mc::tier ? 2 : 1;
		mc::scenario("encodings", "each kind in every encoding with up to `budget` deviations, cut off within the last 6 bytes or not", o, [] {
			EncMC e;
			std::string b;
			emit(lower(samplemsg(tags[choose(14)], 0), e), b);
			check(b.substr(0, b.size() - choose(7)));
		});
	});
}
