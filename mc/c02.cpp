#include "sweep.hpp"
// C02: well-formed messages decode exactly
static void check(const std::vector<Node> &ms, const std::string &bytes) {
	if (mc::want_note())
		mc::note(dumpall(ms).substr(0, 2000) + " <- " + mc::hex(bytes, 300));
	auto got = libparse(bytes);
	expect(got, ms, bytes, "well-formed file");
	mc::outcome(bytes);
	mc::validated(ms.size());
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C02", [] {
		for (int t = 0; t < 14; t++) {
			mc::Opt o;
			o.budget = mc::tier ? 3 : 2;
			o.seconds = mc::tier ? 240 : 30;
			mc::scenario(std::string("fields-") + tagname[t],
						 "one message; all combinations of up to `budget` deviating field values and encodings", o, [t] {
							 Gen g;
							 Node m = g.message(tags[t], 0);
							 EncMC e;
							 std::string b;
							 emit(lower(m, e), b);
							 check({m}, b);
							 // the reference decoder is the encoder's inverse
							 auto r = decodefile(b);
							 if (r.msgs.size() != 1 || r.msgs[0] != m)
								 mc::fail("reference decoder and encoder disagree: %s vs %s", dump(m).c_str(), dumpall(r.msgs).c_str());
						 });
		}
		mc::Opt o;
		o.budget = 1;
		o.seconds = mc::tier ? 300 : 30;
		mc::scenario("sequences", "all sequences of up to 3 messages of the 14 kinds, one deviation", o, [] {
			int n = 1 + choose(3);
			std::vector<Node> ms;
			std::string b;
			Gen g;
			g.sizes = false;
			for (int i = 0; i < n; i++) {
				int t = choose(14);
				ms.push_back(i == 0 && mc::tier ? g.message(tags[t], i) : samplemsg(tags[t], i));
			}
			for (auto &m : ms) {
				W w = lower(m);
				if (choosed(2))
					w.kids[4].kermit = true;
				emit(w, b);
			}
			check(ms, b);
		});
		o.budget = 0;
		mc::scenario("leaf-values", "one message of each kind; every leaf set to every value of a broad alphabet (every byte value at every position of every width, strings of every length up to 271, of every single byte), all integers shortened to the fewest bytes or not", o, [] {
			Node m = samplemsg(tags[choose(14)], 0);
			if (!sweepleaf(m))
				return;
			struct E : Enc {
				bool min;
				int intlen(const Node &, int minimal, int full) override { return min ? minimal : full; }
			} e;
			e.min = choose(2);
			std::string b;
			emit(lower(m, e), b);
			check({m}, b);
		});
		mc::scenario("booleans", "two messages of each kind; every boolean in turn, sent as every byte value: 0 is false, any other value true", o, [] {
			Node m;
			std::string b;
			if (boolmsg(m, b))
				check({m}, b);
		});
		o.budget = 2;
		mc::scenario("states", "every combination of four states (absent, present, zero, all ones) of the fields of every structure of up to 7 fields, of pairs of fields in larger ones", o, [] {
			Node m = statemsg();
			if (!mc::discarded())
				check({m}, encode(m));
		});
		o.budget = mc::tier ? 4 : 3;
		mc::scenario("alike", "value list responses of two entries whose fields are alike, up to `budget` of them absent, different or extreme", o, [] {
			Node m = alikemsg(0x701);
			check({m}, encode(m));
		});
		o.budget = mc::tier ? 3 : 2;
		mc::scenario("all-alike", "messages of each kind with two elements in every sequence, all leaves of a kind alike, up to `budget` of them absent, different or extreme", o, [] {
			Node m = alikemsg(tags[choose(14)]);
			check({m}, encode(m));
		});
		o.budget = 0;
		mc::scenario("string-lengths", "octet strings of every length up to 700 and around 2^12, 2^16, with 0 to 2 superfluous header bytes, of four kinds of contents", o, [] {
			int i = choose(700 + 80), what = choose(4);
			int len = i < 700 ? i : i < 740 ? 4096 - 20 + (i - 700) : 65536 - 20 + (i - 740);
			int tlx = choose(3), where = choose(3);
			if (len == 0 && tlx == 0)
				return mc::discard();
			Node m = samplemsg(0x701, 0);
			std::string s = what == 0 ? bytes_of(len, 3) : std::string(len, what == 1 ? 0 : what == 2 ? (char)0xff : 0x1b);
			if (where == 0)
				m.c[3].c[2] = oct(s);
			else if (where == 1)
				m.c[3].c[4].c[0].c[5] = voct(s);
			else
				m.c[0] = oct(s);
			if (where == 1 && len == 0)
				return mc::discard();
			W w = lower(m);
			W &x = where == 0 ? w.kids[3].kids[1].kids[2] : where == 1 ? w.kids[3].kids[1].kids[4].kids[0].kids[5] : w.kids[0];
			x.tlx = tlx;
			std::string b;
			emit(w, b);
			check({m}, b);
		});
		mc::scenario("one-byte", "octet strings of 1300 alike bytes of which one at every position is 0, 1, 0x1b or 0xff, in three kinds of field", o, [] {
			int at = choose(1300), v = choose(4), where = choose(3);
			std::string s(1300, 'x');
			s[at] = "\x00\x01\x1b\xff"[v];
			Node m = samplemsg(0x701, 0);
			if (where == 0)
				m.c[3].c[2] = oct(s);
			else if (where == 1)
				m.c[3].c[4].c[0].c[5] = voct(s);
			else
				m.c[0] = oct(s);
			check({m}, encode(m));
		});
		mc::scenario("list-counts", "value lists, header, period, value, path, object and child lists of every count up to 300 and around 2^12 (2^16 for short ones), superfluous header bytes", o, [] {
			static const int big[] = {4094, 4095, 4096, 4097, 65535, 65536, 70000};
			int kind = choose(8);
			int i = choose(300 + 7);
			int n = i < 300 ? i : big[i - 300];
			int tlx = choose(2);
			if (n > 300 && (tlx || (!mc::tier && n != 4095 && n != 4096 && n != 65536)))
				return mc::discard();
			Node m;
			W *l = 0;
			W w;
			auto rep = [&](Kind k) {
				Node x = seq(k, {});
				x.c.reserve(n);
				for (int j = 0; j < n; j++) {
					if (n > 1000 && j > 3) {
						Kind e = elemkind(k);
						if (e == OCT)
							x.c.push_back(oct("q"));
						else if (e == VLE)
							x.c.push_back(vle("n", vint(false, j & 255, 1)));
						else if (e == HDR)
							x.c.push_back(list(HDR, {oct("h"), null(U8), num(I8, j & 63)}));
						else if (e == PER)
							x.c.push_back(list(PER, {null(TIME), num(U64, (unsigned)j), seq(VENTSEQ, {}), null(OCT)}));
						else if (e == VENT)
							x.c.push_back(list(VENT, {vbool(j & 1), null(OCT)}));
						else
							x.c.push_back(list(PERIOD, {null(OCT), num(U8, j & 255), null(I8), null(VALUE), null(OCT)}));
					} else
						x.c.push_back(sample(elemkind(k), j));
				}
				if (n == 0 && (k == VLIST || k == OBJL))
					x = null(k);
				return x;
			};
			switch (kind) {
			case 0: m = samplemsg(0x701, 0); m.c[3].c[4] = rep(VLIST); w = lower(m); l = &w.kids[3].kids[1].kids[4]; break;
			case 1: m = samplemsg(0x301, 0); m.c[3].c[4] = rep(HDRSEQ); w = lower(m); l = &w.kids[3].kids[1].kids[4]; break;
			case 2: m = samplemsg(0x301, 0); m.c[3].c[5] = rep(PERSEQ); w = lower(m); l = &w.kids[3].kids[1].kids[5]; break;
			case 3: m = samplemsg(0x301, 0); m.c[3].c[5].c[0].c[2] = rep(VENTSEQ); w = lower(m); l = &w.kids[3].kids[1].kids[5].kids[0].kids[2]; break;
			case 4: m = samplemsg(0x401, 0); m.c[3].c[6] = rep(PSEQ); w = lower(m); l = &w.kids[3].kids[1].kids[6]; break;
			case 5: m = samplemsg(0x500, 0); m.c[3].c[3] = rep(PATH); w = lower(m); l = &w.kids[3].kids[1].kids[3]; break;
			case 6: m = samplemsg(0x300, 0); m.c[3].c[7] = rep(OBJL); w = lower(m); l = &w.kids[3].kids[1].kids[7]; break;
			default: {
				m = samplemsg(0x501, 0);
				Node t = tree("t", null(PPV), {});
				for (int j = 0; j < n; j++)
					t.c.push_back(tree("c", j % 97 ? null(PPV) : ppv(1, sample(VALUE, j)), {}));
				m.c[3].c[2] = t;
				w = lower(m);
				l = &w.kids[3].kids[1].kids[2].kids[2];
			}
			}
			if (l->raw) // absent
				*l = [&] { W z; z.type = 0x70; z.list = true; z.tlx = tlx; return z; }();
			l->tlx = tlx;
			std::string b;
			emit(w, b);
			check({m}, b);
		});
		mc::scenario("tree-shapes", "all tree shapes of up to 6 nodes, values of any kind at the leaves; chains up to depth 2020", o, [] {
			std::function<Node(int &, int)> mk = [&](int &left, int d) {
				Node t = tree(std::string(1, (char)('a' + left)), null(PPV), {});
				left--;
				while (left > 0 && d < 5 && choose(2))
					t.c.push_back(mk(left, d + 1));
				if (t.c.size() == 2)
					t.c[1] = sample(PPV, left);
				return t;
			};
			Node m = samplemsg(choose(2) ? 0xff01 : 0x600, 0);
			int c = choose(2);
			Node t;
			if (c) {
				int left = 6;
				t = mk(left, 0);
			} else {
				static const int dep[] = {1, 2, 14, 15, 16, 17, 100, 255, 256, 500, 1000, 2020};
				int n = dep[choose(12)];
				t = tree("x", ppv(1, vint(false, 5, 1)), {});
				for (int i = 1; i < n; i++)
					t = parent("y", std::move(t));
			}
			m.c[3].c.back() = std::move(t);
			std::vector<Node> ms;
			ms.push_back(std::move(m));
			std::string b = encode(ms[0]);
			check(ms, b);
		});
	});
}
