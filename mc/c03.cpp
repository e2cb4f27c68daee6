#include "mut.hpp"
// C03: nothing of a malformed message is delivered, what precedes it is
static void compare(const std::string &b, const std::vector<Node> &follow) {
	if (mc::want_note())
		mc::note(mc::hex(b, 600));
	FileResult r = decodefile(b);
	auto got = libparse(b);
	mc::outcome(b);
	mc::validated();
	if (r.stopped && got.size() > r.msgs.size()) {
		// resuming with later, intact messages would be no violation
		size_t extra = got.size() - r.msgs.size();
		std::vector<Node> alt = r.msgs;
		if (extra <= follow.size()) {
			alt.insert(alt.end(), follow.end() - extra, follow.end());
			if (got == alt)
				return;
		}
	}
	expect(got, r.msgs, b, r.stopped ? "malformed message" : "file");
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C03", [] {
		for (int t = 0; t < 14; t++) {
			mc::Opt o;
			o.budget = mc::tier ? 2 : 1;
			o.seconds = mc::tier ? 300 : 25;
			mc::scenario(std::string("structure-") + tagname[t],
						 "an intact message, a message with up to `budget` of 45 structural mutations at every element and a matching checksum, an intact message", o, [t] {
							 int form = choose(mc::tier ? 1 : 2);
							 Node m = form ? samplemsg(tags[t], 0) : compact(tags[t], 0), a = compact(0x701, 1), z = compact(0x201, 2);
							 W w = lower(m);
							 if (!mutations(w))
								 return mc::discard();
							 std::string b = encode(a);
							 emit(w, b);
							 b += encode(z);
							 compare(b, {z});
						 });
			o.budget = 0;
			mc::scenario(std::string("shortened-") + tagname[t],
						 "every list ends early after every number of its elements (counted as before or as it is), the last of them as it was or replaced in 12 ways, what follows the list kept or left out up to the (matching) checksum", o, [t] {
							 Node m = choose(2) ? samplemsg(tags[t], 0) : compact(tags[t], 0), a = compact(0x701, 1), z = compact(0x201, 2);
							 W w = lower(m);
							 if (!shorten(w))
								 return mc::discard();
							 std::string b = encode(a);
							 emit(w, b);
							 compare(b + encode(z), {z});
						 });
			mc::scenario(std::string("inserted-") + tagname[t],
						 "an element that does not belong there (18 forms, counted or not) inserted at every place of every list, with a matching checksum", o, [t] {
							 Node m = choose(2) ? samplemsg(tags[t], 0) : compact(tags[t], 0), a = compact(0x701, 1), z = compact(0x201, 2);
							 W w = lower(m);
							 if (!insert(w))
								 return mc::discard();
							 std::string b = encode(a);
							 emit(w, b);
							 compare(b + encode(z), {z});
						 });
			mc::scenario(std::string("replaced-") + tagname[t],
						 "every element replaced by one of every type (also undefined ones) with 0 to 9 bytes of contents or absent elements, with and without a superfluous header byte, and a matching checksum", o, [t] {
							 Node m = choose(2) ? samplemsg(tags[t], 0) : compact(tags[t], 0), a = compact(0x701, 1), z = compact(0x201, 2);
							 W w = lower(m);
							 if (!replace(w))
								 return mc::discard();
							 std::string b = encode(a);
							 emit(w, b);
							 compare(b + encode(z), {z});
						 });
			mc::scenario(std::string("bytes-") + tagname[t],
						 "every byte of a message set to every value, with a matching checksum", o, [t] {
							 Node m = compact(tags[t], 0), z = compact(0x201, 2);
							 static thread_local std::string e;
							 e = encode(m);
							 int crcat = (int)e.size() - 4;
							 int i = choose((int)e.size());
							 int v = choose(256);
							 e[i] = (char)v;
							 if (i < crcat) {
								 uint16_t c = crc_sml(e.data(), crcat);
								 e[crcat + 1] = (char)(c >> 8);
								 e[crcat + 2] = (char)c;
							 }
							 compare(e + encode(z), {z});
						 });
		}
		mc::Opt o;
		o.seconds = mc::tier ? 600 : 40;
		mc::scenario("element-lengths", "every declared length 0..40 (one header byte or two) of every string and number, with the checksum matching", o, [] {
			int t = choose(14);
			Node m = compact(tags[t], 0), z = compact(0x201, 2);
			W w = lower(m);
			int e = choose(countW(w));
			int len = choose(41), two = choose(2);
			int n = 0;
			bool ok = false;
			walk(w, [&](W &x, W *, int) {
				if (n++ == e && !x.raw && !x.crc && !x.list) {
					std::string h;
					uint8_t ty = x.type;
					if (two || len > 15) {
						h += (char)(0x80 | ty | len >> 4);
						h += (char)(len & 15);
					} else
						h += (char)(ty | len);
					x = rawW(h + x.data);
					ok = true;
				} else if (n - 1 == e && !x.raw && x.list) {
					x.delta = len - (long)x.kids.size();
					x.tlx = two;
					ok = true;
				}
			});
			if (!ok)
				return mc::discard();
			std::string b;
			emit(w, b);
			compare(b + encode(z), {z});
		});
		mc::scenario("tags", "every message tag 0..0x10000 and every value of the choice tags", o, [] {
			if (choose(2) == 0) {
				int hi = choose(257), lo = choose(256);
				uint32_t tag = hi == 256 ? 0x10000u << (lo % 16) : (uint32_t)hi << 8 | lo;
				Node m = compact(0x701, 0);
				m.c[3].n = tag;
				Node z = compact(0x201, 2);
				compare(encode(compact(0x200, 1)) + encode(m) + encode(z), {z});
				return;
			}
			int tag = choose(256), content = choose(5);
			Node m = compact(0x501, 0), z = compact(0x201, 2);
			static const Kind ks[] = {VALUE, PERIOD, TUPEL, TIME, OCT};
			m.c[3].c[2] = tree("x", ppv(tag, content == 4 ? null(VALUE) : sample(ks[content], 1)), {});
			compare(encode(m) + encode(z), {z});
		});
	});
}
