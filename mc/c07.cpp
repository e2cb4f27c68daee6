#include "files.hpp"
#include "sweep.hpp"
// C07: whatever is built through the API and written reads back identically
static void check(const char *what, const std::vector<Node> &ms) {
	std::vector<Node> want = fl::norm(ms);
	std::string enc = encodeall(want);
	mc::track_reset();
	sml_file *f = fl::built(ms);
	if (f->messages_len != (int)ms.size())
		mc::fail("%s: a file of %zu messages has %d", what, ms.size(), f->messages_len);
	LIB(sml_file_write(f));
	std::string got((char *)f->buf->buffer, f->buf->cursor);
	LIB(sml_file_free(f));
	leakcheck(what, enc);
	if (mc::want_note())
		mc::note(std::string(what) + ": " + dumpall(ms).substr(0, 900) + " -> " + mc::hex(got, 250));
	if (got != enc) {
		size_t i = 0;
		while (i < got.size() && i < enc.size() && got[i] == enc[i])
			i++;
		mc::fail("%s: %zu bytes written, canonical are %zu; first difference at %zu; written ..%s, canonical ..%s; file %.900s", what, got.size(),
				 enc.size(), i, mc::hex(got.substr(i > 8 ? i - 8 : 0), 40).c_str(), mc::hex(enc.substr(i > 8 ? i - 8 : 0), 40).c_str(),
				 dumpall(ms).c_str());
	}
	expect(libparse(got), want, got, what);
	mc::outcome(got);
	mc::validated(ms.size());
	mc::transition(ms.size());
}
static Node rep(Kind k, int n) {
	Node x = seq(k, {});
	for (int j = 0; j < n; j++)
		x.c.push_back(sample(elemkind(k), j));
	return x;
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C07", [] {
		mc::Opt o;
		o.budget = mc::tier ? 3 : 2;
		for (int t = 0; t < 14; t++) {
			o.seconds = mc::tier ? 240 : 25;
			mc::scenario(std::string("fields-") + tagname[t], "one message; all combinations of up to `budget` fields varied over their alphabets", o, [t] {
				Gen g;
				check("fields", {g.message(tags[t], 0)});
			});
		}
		o.budget = 0;
		o.seconds = mc::tier ? 600 : 30;
		mc::scenario("sequences", "all sequences of up to 3 messages (thorough: 4) of the 14 kinds", o, [] {
			int n = choose(mc::tier ? 5 : 4);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(compact(tags[choose(14)], i));
			check("sequence", v);
		});
		mc::scenario("sizes", "files of every encoded size from 30 to 2200 bytes and around every power of two up to 1 MB, one message", o, [] {
			int i = choose(2171 + 9 * 21);
			size_t n = i < 2171 ? 30 + i : ((size_t)4096 << ((i - 2171) / 21)) + (i - 2171) % 21 - 10;
			std::vector<Node> v = fl::ofsize(n);
			if (v.empty())
				return mc::discard();
			check("size", v);
		});
		mc::scenario("boundary", "a message of each kind behind a filler of every size, so that every byte of it falls on each of the first three boundaries of the growing buffer", o, [] {
			int t = choose(14), b = choose(3), at = choose(700);
			Node m = mc::tier ? samplemsg(tags[t], 0) : compact(tags[t], 0);
			size_t len = encode(m).size();
			if ((size_t)at > len + 12)
				return mc::discard();
			std::vector<Node> v = fl::ofsize((512 << b) - len + at);
			if (v.empty() || len > (size_t)(512 << b) - 40)
				return mc::discard();
			v.push_back(m);
			check("boundary", v);
		});
		mc::scenario("many", "files of 0 to 300 messages, and of 1000, 4000 (thorough: 40000)", o, [] {
			int i = choose(301 + 2 + mc::tier), n = i <= 300 ? i : i == 301 ? 1000 : i == 302 ? 4000 : 40000;
			std::vector<Node> v;
			for (int j = 0; j < n; j++)
				v.push_back(j % 3 ? fl::close(mc::strf("%d", j)) : compact(tags[j % 14], j));
			check("many", v);
		});
		mc::scenario("lists", "lists of every kind with every number of elements up to 300, and 1000, 4095 to 4097 (thorough: 70000)", o, [] {
			int kind = choose(8), i = choose(301 + 4 + mc::tier);
			static const int big[] = {1000, 4095, 4096, 4097, 70000};
			int n = i <= 300 ? i : big[i - 301];
			Node m;
			switch (kind) {
			case 0: if (!n) return mc::discard(); m = compact(0x701, 0); m.c[3].c[4] = rep(VLIST, n); break;
			case 1: m = compact(0x301, 0); m.c[3].c[4] = rep(HDRSEQ, n); break;
			case 2: m = compact(0x301, 0); m.c[3].c[5] = rep(PERSEQ, n); break;
			case 3: m = compact(0x301, 0); m.c[3].c[5].c[0].c[2] = rep(VENTSEQ, n); break;
			case 4: m = compact(0x401, 0); m.c[3].c[6] = rep(PSEQ, n); break;
			case 5: m = compact(0x500, 0); m.c[3].c[3] = rep(PATH, n); break;
			case 6: if (!n) return mc::discard(); m = compact(0x300, 0); m.c[3].c[7] = rep(OBJL, n); break;
			default: {
				m = compact(0x501, 0);
				Node t = tree("t", null(PPV), {});
				for (int j = 0; j < n; j++)
					t.c.push_back(tree("c", j % 7 ? null(PPV) : ppv(1, sample(VALUE, j)), {}));
				m.c[3].c[2] = t;
			}
			}
			check("list", {m});
		});
		mc::scenario("strings", "strings of every length from 0 to 600, around 2^12, 2^16, 2^20, in three kinds of field", o, [] {
			int i = choose(601 + 3 * 9), where = choose(3);
			int n = i <= 600 ? i : (i - 601) / 9 == 0 ? 4096 - 5 + (i - 601) % 9 : (i - 601) / 9 == 1 ? 65536 - 6 + (i - 601) % 9 : (1 << 20) - 7 + (i - 601) % 9;
			std::string s = bytes_of(n, 5);
			Node m = compact(0x701, 0);
			if (where == 0)
				m.c[3].c[1] = oct(s);
			else if (where == 1)
				m.c[3].c[4].c[0].c[5] = voct(s);
			else
				m.c[0] = oct(s);
			check("string", {m});
		});
		mc::scenario("one-byte", "strings of 1300 alike bytes of which one at every position is 0, 1, 0x1b or 0xff, in two kinds of field", o, [] {
			int at = choose(1300), v = choose(4), where = choose(2);
			std::string s(1300, 'x');
			s[at] = "\x00\x01\x1b\xff"[v];
			Node m = compact(0x701, 0);
			if (where == 0)
				m.c[3].c[1] = oct(s);
			else
				m.c[3].c[4].c[0].c[5] = voct(s);
			check("one byte", {m});
		});
		mc::scenario("presence", "every combination of present and absent optional fields of every structure (up to 2^14)", o, [] {
			static const Kind ks[] = {VLE, HDR, PER, VENT, PERIOD, TUPEL};
			int w = choose(6 + 14);
			Node m;
			auto opt = [&](Kind k, int i) { return choose(2) ? null(k) : sample(k, i); };
			if (w < 6) {
				Kind k = ks[w];
				std::vector<Node> c;
				int i = 0, free = 0;
				for (Kind f : seqfields(k)) {
					bool can = f != VENTSEQ && f != PSEQ && f != HDRSEQ && f != PERSEQ;
					c.push_back(can && ++free <= (mc::tier ? 20 : 14) ? opt(f, i) : sample(f, i));
					i++;
				}
				Node x = list(k, c);
				switch (k) {
				case VLE: m = compact(0x701, 0); m.c[3].c[4] = seq(VLIST, {x, x}); break;
				case HDR: m = compact(0x301, 0); m.c[3].c[4] = seq(HDRSEQ, {x, x}); break;
				case PER: m = compact(0x301, 0); m.c[3].c[5] = seq(PERSEQ, {x, x}); break;
				case VENT: m = compact(0x301, 0); m.c[3].c[5].c[0].c[2] = seq(VENTSEQ, {x, x}); break;
				case PERIOD: m = compact(0x401, 0); m.c[3].c[6] = seq(PSEQ, {x, x}); break;
				default: m = compact(0xff01, 0); m.c[3].c[3] = tree("t", ppv(3, x), {});
				}
			} else {
				uint32_t tag = tags[w - 6];
				std::vector<Node> c;
				int i = 0;
				for (Kind f : *bodyfields(tag)) {
					bool can = f != VENTSEQ && f != PSEQ && f != HDRSEQ && f != PERSEQ;
					c.push_back(can ? opt(f, i) : sample(f, i));
					i++;
				}
				m = msg("t", tag, c);
				for (int j = 0; j < 3; j++)
					if (choose(2))
						m.c[j] = null(m.c[j].k);
			}
			check("presence", {m});
		});
		mc::scenario("trees", "all tree shapes of up to 6 nodes, every node with each of 6 kinds of parameter for up to 3 nodes", o, [] {
			int max = 1 + choose(6);
			std::function<Node(int &)> mk = [&](int &left) {
				Node t = tree(std::string(1, (char)('a' + left)), null(PPV), {});
				if (max <= 3) {
					static const Kind kk[] = {VALUE, PERIOD, TUPEL, TIME};
					int p = choose(6);
					if (p >= 2)
						t.c[1] = ppv(p - 1, sample(kk[p - 2], left));
					else if (p)
						t.c[1] = ppv(1, vbool(true));
				}
				left--;
				while (left > 0 && choose(2))
					t.c.push_back(mk(left));
				return t;
			};
			int left = max;
			Node t = mk(left);
			if (left)
				return mc::discard();
			static const uint32_t w[] = {0x501, 0x600, 0xff01, 0x300};
			uint32_t tag = w[choose(4)];
			Node m = compact(tag, 0);
			for (Node &c : m.c[3].c)
				if (c.k == TREE)
					c = t;
			check("tree", {m});
		});
		mc::scenario("depth", "tree chains of every depth up to 100 and of 200 to 1000", o, [] {
			int i = choose(100 + 9), d = i < 100 ? i + 1 : (i - 98) * 100;
			Node t = tree("leaf", ppv(1, vint(true, (uint64_t)-7, 8)), {});
			for (int j = 1; j < d; j++)
				t = parent(j & 1 ? "a" : "bb", std::move(t));
			Node m = compact(0x600, 0);
			for (Node &c : m.c[3].c)
				if (c.k == TREE)
					c = std::move(t);
			check("depth", {m});
		});
		mc::scenario("values", "values, statuses and times of all widths and signs: every 8 and 16 bit pattern, all pairs of bytes in wider ones", o, [] {
			int kind = choose(3);
			Node v = null(VALUE), s = null(STATUS), t = null(TIME);
			int a = choose(256), b = choose(256);
			uint16_t x = (uint16_t)(a << 8 | b);
			if (kind == 0) {
				v = vint(false, x, 2);
				s = status(x, 2);
				t = time(1, x);
			} else if (kind == 1) {
				v = vint(true, (uint64_t)(int64_t)(int16_t)x, 2);
				s = status(a, 1);
				t = time(2, (uint32_t)x << 16);
			} else {
				uint64_t q = 0x1111111111111111ull * (a & 15) ^ (uint64_t)b << (a >> 4) * 4;
				v = vint(a & 1, q, 8);
				s = status(q & 0xffffffff, 4);
				t = time(1, (uint32_t)q);
			}
			Node m = compact(0x701, 0);
			m.c[3].c[4] = seq(VLIST, {list(VLE, {oct("n"), s, t, num(U8, a), num(I8, (uint64_t)(int64_t)(int8_t)b), v, null(OCT)})});
			check("values", {m});
		});
		mc::scenario("leaf-values", "one message of each kind; every leaf set to every value of a broad alphabet (every byte value at every position of every width, strings of every length up to 271, of every single byte)", o, [] {
			Node m = samplemsg(tags[choose(14)], 0);
			if (!sweepleaf(m))
				return;
			check("leaf", {m});
		});
		o.budget = mc::tier ? 3 : 2;
		mc::scenario("alike", "messages of each kind with two elements in every sequence, all leaves of a kind alike, up to `budget` of them absent, different or extreme", o, [] {
			check("alike", {alikemsg(tags[choose(14)])});
		});
		o.budget = 2;
		mc::scenario("states", "every combination of four states (absent, present, zero, all ones) of the fields of every structure of up to 7 fields, of pairs of fields in larger ones", o, [] {
			Node m = statemsg();
			if (!mc::discarded())
				check("states", {m});
		});
		o.budget = 0;
		mc::scenario("checksums", "files of 1 to 3 messages of which one has each of the 65536 checksums in turn", o, [] {
			int n = 1 + choose(3), at = choose(n), a = choose(256), b = choose(256);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(fl::close(i == at ? std::string(1, (char)a) + (char)b : "x"));
			check("checksum", v);
		});
		mc::scenario("unset", "values of each type and statuses of each width without data, times without tag, value or both, parameters without value, in a message between set ones: read back as absent", o, [] {
			Node m = compact(0x701, 0), t = compact(0x501, 0);
			static const uint8_t vt[] = {0x00, 0x42, 0x51, 0x52, 0x54, 0x58, 0x61, 0x62, 0x64, 0x68};
			int what = choose(3), i = choose(what == 0 ? 10 : what == 1 ? 4 : 4);
			mc::track_reset();
			sml_file *f = fl::built({t, m});
			auto *d = (sml_get_list_response *)f->messages[1]->message_body->data;
			Node want = m;
			sml_list *e = d->val_list;
			Node &w = want.c[3].c[4].c[0];
			if (what == 0) {
				LIB(sml_value_free(e->value));
				e->value = LIB(sml_value_init());
				e->value->type = vt[i];
				w.c[5] = null(VALUE);
			} else if (what == 1) {
				LIB(sml_status_free(e->status));
				e->status = LIB(sml_status_init());
				e->status->type = (u8)(0x60 | 1 << i);
				w.c[1] = null(STATUS);
			} else {
				LIB(sml_time_free(e->val_time));
				e->val_time = LIB(sml_time_init());
				if (i & 1)
					e->val_time->tag = LIB(sml_u8_init(1));
				if (i & 2)
					e->val_time->data.sec_index = LIB(sml_u32_init(9));
				w.c[2] = i == 3 ? sm::time(1, 9) : i == 2 ? list(TIME, {null(U8), num(U32, 9)}) : null(TIME);
			}
			LIB(sml_file_write(f));
			std::string got((char *)f->buf->buffer, f->buf->cursor);
			LIB(sml_file_free(f));
			leakcheck("unset", got);
			std::string enc = encodeall({t, want});
			if (got != enc)
				mc::fail("unset %d/%d: written %s, canonical %s", what, i, mc::hex(got, 600).c_str(), mc::hex(enc, 600).c_str());
			expect(libparse(got), {t, want}, got, "unset");
			mc::outcome(mc::hash(got, (uint64_t)(what * 16 + i)));
			mc::validated();
		});
		mc::scenario("changed", "files of two messages of any kinds, small or large, written and then changed (bodies or ids exchanged, one message given another body or a value of its own), and written again into the same or a fresh buffer: what is written is the file as it is then", o, [] {
			int a = choose(14 + 3), b = choose(14 + 2), how = choose(5), fresh = choose(2);
			auto mk = [](int k, int i) {
				if (k < 14)
					return compact(tags[k], i);
				Node m = fl::close(std::string(k == 14 ? 600 : k == 15 ? 70000 : 300, (char)('a' + i)));
				if (k == 16)
					m.c[3].c[0] = oct(std::string(40000, 's'));
				return m;
			};
			std::vector<Node> v{mk(a, 0), mk(b, 1)};
			mc::track_reset();
			sml_file *f = fl::built(v);
			LIB(sml_file_write(f));
			sml_message *x = f->messages[0], *y = f->messages[1];
			switch (how) {
			case 0: std::swap(x->message_body, y->message_body); std::swap(v[0].c[3], v[1].c[3]); std::swap(v[0].n, v[1].n); break;
			case 1: std::swap(x->transaction_id, y->transaction_id); std::swap(v[0].c[0], v[1].c[0]); break;
			case 2: {
				Node m = compact(0x701, 5);
				sml_message *z = buildmsg(m);
				std::swap(x->message_body, z->message_body);
				v[0].c[3] = m.c[3];
				v[0].n = m.n;
				LIB(sml_message_free(z));
				break;
			}
			case 3:
				LIB(sml_number_free(x->group_id));
				x->group_id = LIB(sml_u8_init(0x5a));
				v[0].c[1] = num(U8, 0x5a);
				break;
			default:
				y->transaction_id->str[y->transaction_id->len / 2] ^= 0x40;
				v[1].c[0] = oct(std::string((char *)y->transaction_id->str, y->transaction_id->len));
			}
			std::vector<Node> want = fl::norm(v);
			std::string enc = encodeall(want);
			if (fresh) {
				LIB(sml_buffer_free(f->buf));
				f->buf = LIB(sml_buffer_init(512));
			} else
				f->buf->cursor = 0;
			LIB(sml_file_write(f));
			std::string got((char *)f->buf->buffer, f->buf->cursor);
			LIB(sml_file_free(f));
			leakcheck("changed file", enc.substr(0, 300));
			if (got != enc)
				mc::fail("changed (%d) after being written: %.300s is written as %zu bytes %s, canonical are %zu %s", how, dumpall(v).c_str(), got.size(), mc::hex(got, 300).c_str(), enc.size(), mc::hex(enc, 300).c_str());
			mc::outcome(mc::hash(got, (uint64_t)how));
			mc::validated(2);
			mc::transition(2);
			if (mc::want_note())
				mc::note(mc::strf("change %d: %.200s", how, dumpall(v).c_str()));
		});
		mc::scenario("single", "a message of each kind written with sml_message_write to a buffer of every initial size from 1 to 700", o, [] {
			int t = choose(14), n = 1 + choose(mc::tier ? 700 : 350);
			Node m = compact(tags[t], 1);
			mc::track_reset();
			sml_message *x = LIB(buildmsg(m));
			sml_buffer *b = LIB(sml_buffer_init(n));
			LIB(sml_message_write(x, b));
			std::string got((char *)b->buffer, b->cursor), enc = encode(m);
			LIB(sml_buffer_free(b));
			LIB(sml_message_free(x));
			leakcheck("writing a message", enc);
			if (got != enc)
				mc::fail("buffer of %d bytes: written %s, canonical %s", n, mc::hex(got).c_str(), mc::hex(enc).c_str());
			mc::outcome(mc::hash(enc, n));
			mc::validated();
		});
	});
}
