#include "sweep.hpp"
// C01: parsing anything is memory-safe, terminates and leaks nothing. Built
// with address and undefined behaviour checking; every object delivered is
// read completely, and printed.
static void parse(const std::string &b) {
	if (mc::want_note())
		mc::note(mc::hex(b, 600));
	mc::track_reset();
	{
		Exact e(b);
		sml_file *f = LIB(sml_file_parse(e.p, e.n));
		if (!f)
			mc::fail("no file");
		auto r = ext(f);
		LIB(sml_file_print(f));
		LIB(sml_file_free(f));
	}
	leakcheck("parsing and freeing", b);
	mc::outcome(b);
	mc::validated();
}
static const char *tokens[] = {
	"\x01\x01", "\x03\x03""AB", "\x02\x62\x05", "\x02\x52\x85", "\x02\x42\x01", "\x01\x70", "\x01\x71", "\x01\x72",
	"\x01\x73", "\x01\x75", "\x01\x76", "\x01\x77", "\x01\x7f", "\x01\x00", "\x05\x65\x01\x02\x03\x04", "\x02\x62\x01",
	"\x02\x62\x02", "\x02\x62\x03", "\x02\x62\x04", "\x03\x63\x01\x01", "\x01\x61", "\x01\x51", "\x01\x41", "\x01\x40",
	"\x01\x80", "\x01\xf1", "\x02\xf0\x01", "\x02\x8f\x0f", "\x05\xff\x8f\x8f\x8f\x0f", "\x08\x8f\x8f\x8f\x8f\x8f\x8f\x8f\x0f",
	"\x09\x69\x01\x02\x03\x04\x05\x06\x07\x08", "\x0a\x6a\x01\x02\x03\x04\x05\x06\x07\x08\x09",
	"\x0a\x5a\x81\x02\x03\x04\x05\x06\x07\x08\x09", "\x0b\x0b\x0a\x01""DZG\x02\x88\x00\x00\x00", "\x01\x12", "\x01\x0f", "\x01\x6f", "\x01\x5f"};
static const int NTOK = sizeof(tokens) / sizeof(*tokens);
static std::string tok(int i) { return std::string(tokens[i] + 1, (unsigned char)tokens[i][0]); }

// the fifteenth kind: a value list with an affected DZG meter
static const char *nm(int t) { return t == 14 ? "DZG" : tagname[t]; }
static Node cm(int t) {
	if (t < 14)
		return compact(tags[t], 0);
	Node m = compact(0x701, 0);
	Node s = vle(std::string("\x01\x00\x60\x01\x00\xff", 6), voct(std::string("\x0a\x01""DZG\x00\x02\x88\x00\x00", 10)));
	Node p = vle(std::string("\x01\x00\x10\x07\x00\xff", 6), vint(true, (uint64_t)-5, 2));
	m.c[3].c[4] = seq(VLIST, {s, p, p});
	return m;
}
static Node sm_(int t) { return t < 14 ? samplemsg(tags[t], 0) : cm(t); }

int main(int argc, char **argv) {
	return mc::main(argc, argv, "C01", [] {
		for (int t = 0; t < 15; t++) {
			mc::Opt o;
			o.budget = mc::tier ? 2 : 1;
			o.seconds = mc::tier ? 300 : 25;
			mc::scenario(std::string("structure-") + nm(t),
						 "a message with up to `budget` of 45 structural mutations at every element, followed by another one", o, [t] {
							 int form = choose(mc::tier ? 1 : 2);
							 Node m = form ? sm_(t) : cm(t);
							 W w = lower(m);
							 if (!mutations(w))
								 return mc::discard();
							 std::string b;
							 emit(w, b);
							 parse(b + encode(compact(0x201, 1)));
						 });
			o.budget = 0;
			mc::scenario(std::string("shortened-") + nm(t),
						 "every list ends early after every number of its elements (counted as before or as it is), the last of them as it was or replaced in 12 ways, what follows the list kept or left out up to the (matching) checksum", o, [t] {
							 Node m = choose(2) ? sm_(t) : cm(t), a = compact(0x701, 1), z = compact(0x201, 2);
							 W w = lower(m);
							 if (!shorten(w))
								 return mc::discard();
							 std::string b = encode(a);
							 emit(w, b);
							 parse(b + encode(z));
						 });
			mc::scenario(std::string("inserted-") + nm(t),
						 "an element that does not belong there (18 forms, counted or not) inserted at every place of every list, with a matching checksum", o, [t] {
							 Node m = choose(2) ? sm_(t) : cm(t), a = compact(0x701, 1), z = compact(0x201, 2);
							 W w = lower(m);
							 if (!insert(w))
								 return mc::discard();
							 std::string b = encode(a);
							 emit(w, b);
							 parse(b + encode(z));
						 });
			mc::scenario(std::string("cut-and-mutated-") + nm(t),
						 "a message with one (or no) structural mutation at every element, cut off directly after the mutated element's first, second or last byte", o, [t] {
							 Node m = cm(t);
							 W w = lower(m);
							 int k = choose(countW(w) * NMUT + 1);
							 int cut = choose(4);
							 if (k) {
								 k--;
								 // what precedes the element stays the same: its position
								 std::string whole;
								 emit(w, whole);
								 if (!mutate(w, k / NMUT, k % NMUT))
									 return mc::discard();
								 std::string b;
								 emit(w, b);
								 size_t d = 0;
								 while (d < b.size() && d < whole.size() && b[d] == whole[d])
									 d++;
								 static const int off[] = {1, 2, 3, 10};
								 b.resize(std::min(b.size(), d + off[cut]));
								 parse(b);
							 } else
								 parse(encode(m).substr(0, cut));
						 });
			mc::scenario(std::string("bytes-") + nm(t),
						 "every byte of a message set to every value", o, [t] {
							 std::string e = encode(cm(t));
							 int i = choose((int)e.size());
							 int v = choose(256);
							 e[i] = (char)v;
							 parse(e);
						 });
			mc::scenario(std::string("truncated-") + nm(t),
						 "every prefix of a message with all fields, alone and after another message", o, [t] {
							 std::string e = encode(choose(2) ? sm_(t) : cm(t));
							 int i = choose((int)e.size() + 1);
							 if (choose(2))
								 e = encode(compact(0x701, 0)) + e;
							 parse(e.substr(0, e.size() - i));
						 });
			mc::scenario(std::string("tokens-") + nm(t),
						 "every prefix of a message that ends before an element, continued by every sequence of up to 3 (thorough: 5) of 38 tokens as long as the decoder has not stopped", o, [t] {
							 W w = lower(cm(t));
							 int e = choose(countW(w));
							 // cut before element e: position by emitting with a marker
							 int n = 0;
							 walk(w, [&](W &x, W *, int) {
								 if (n++ == e)
									 x = rawW("\xde\xad\xbe\xef\x99\x98");
							 });
							 std::string b;
							 emit(w, b);
							 size_t p = b.find("\xde\xad\xbe\xef\x99\x98");
							 if (p == std::string::npos)
								 return mc::discard();
							 b.resize(p);
							 int depth = mc::tier ? 5 : 3;
							 for (int i = 0; i < depth; i++) {
								 int c = choose(NTOK + 1);
								 if (!c)
									 break;
								 b += tok(c - 1);
								 if (i + 1 < depth) {
									 // the decoder has stopped before the end: what follows is not looked at
									 FileResult r = decodefile(b);
									 if (r.stopped && !r.eof)
										 break;
								 }
							 }
							 parse(b);
						 });
		}
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 40;
		mc::scenario("content-ends", "every prefix of a message of each kind that ends before an element, continued by a string of every length up to 70 (thorough: 300), an integer or boolean of every length up to 12, that ends exactly at the end of the input or lacks up to 2 bytes", o, [] {
			W w = lower(compact(tags[choose(14)], 0));
			int e = choose(countW(w)), n = 0;
			static const std::string mark = "\xde\xad\xbe\xef\x99\x98";
			walk(w, [&](W &x, W *, int) {
				if (n++ == e)
					x = rawW(mark);
			});
			std::string b;
			emit(w, b);
			size_t p = b.find(mark);
			if (p == std::string::npos)
				return mc::discard();
			b.resize(p);
			static const int type[] = {0x00, 0x60, 0x50, 0x40};
			int t = choose(4), l = choose(t ? 13 : mc::tier ? 301 : 71), less = choose(3);
			if (less > l)
				return mc::discard();
			parse(b + tl((uint8_t)type[t], (uint64_t)l, 0) + bytes_of(l - less, 3 + l));
		});
		mc::scenario("leaf-values", "one message of each kind; every leaf with every (thorough; otherwise every third) value of a broad alphabet", o, [] {
			Node m = samplemsg(tags[choose(14)], 0);
			if (!sweepleaf(m, mc::tier ? 1 : 3))
				return;
			parse(encode(m));
		});
		mc::scenario("short", "every byte string of up to 2 bytes (thorough: 3)", o, [] {
			int n = choose(mc::tier ? 4 : 3);
			std::string b;
			for (int i = 0; i < n; i++)
				b += (char)choose(256);
			parse(b);
		});
		o.exec_timeout = 60;
		mc::scenario("deep", "nested trees and lists up to 1000000 deep, complete or cut off, in every place a tree can occur, at the start, behind 2000 messages or behind 100 kB of padding", o, [] {
			static const int depth[] = {10, 1000, 4095, 4096, 4097, 5000, 20000, 100000, 1000000};
			int n = depth[choose(mc::tier ? 9 : 8)];
			int where = choose(4), form = choose(5), complete = choose(2), before = choose(3);
			static const uint32_t tg[] = {0x300, 0x501, 0x600, 0xff01};
			W w = lower(compact(tg[where], 0));
			std::string open, close;
			switch (form) {
			case 0: open = std::string("\x73\x02""a\x01\x71", 5); break;       // one child each
			case 1: open = std::string("\x73\x01\x01\x72\x01", 5); break;      // an absent sibling first
			case 2: open = std::string("\x71", 1); break;                      // lists only
			case 3: open = std::string("\x73\x01\x72\x62\x01\x62\x05\x7f", 8); break; // 15 children announced
			default: open = std::string("\x73\x02""a\x72\x62\x02\x75\x01\x01\x01\x01\x01\x71", 13); break;
			}
			std::string s;
			for (int i = 0; i < n; i++)
				s += open;
			if (complete)
				s += std::string("\x73\x01\x01\x01", 4);
			w.kids[3].kids[1].kids.back() = rawW(s);
			std::string b;
			if (before == 1) // behind messages
				for (int i = 0; i < 2000; i++)
					b += encode(compact(0x701, 0));
			if (before == 2) // behind padding
				b = std::string(100000, 0);
			emit(w, b);
			parse(b);
		});
		mc::scenario("many", "up to 3000 messages in a file, mixed with padding", o, [] {
			static const int cnt[] = {1, 2, 3, 10, 100, 1000, 3000};
			int n = cnt[choose(7)], pad = choose(3), t = choose(14);
			std::string b;
			for (int i = 0; i < n; i++) {
				b += encode(compact(tags[(t + i) % 14], i % 10));
				b += std::string(pad * (i % 4), 0);
			}
			parse(b);
		});
	});
}
