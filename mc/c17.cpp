#include "files.hpp"
// C17: meter workarounds apply exactly to the affected meters
static const std::string SERIAL("\x01\x00\x60\x01\x00\xff", 6), POWER("\x01\x00\x10\x07\x00\xff", 6);
struct E {
	std::string name;      // object name ("": absent)
	int type = -1;         // of the value; -1: absent
	std::string content;
	int others = 0;        // which of the other fields are present
	int tlx = 0;           // superfluous bytes of the length header of the value
	int rich = -1;         // which value of each of the other fields, one digit each
	int field = -1, value = 0; // one of the other fields, and its value
};
static const int NRICH = 5 * 7 * 4 * 4 * 4;
static void enrich(Node &n, int r, int &form) {
	form = 0;
	int st = r % 5, t = r / 5 % 7, u = r / 35 % 4, sc = r / 140 % 4, sig = r / 560;
	n.c[1] = st == 0 ? null(STATUS) : status(0x80, 1 << (st - 1));
	switch (t) {
	case 0: n.c[2] = null(TIME); break;
	case 1: n.c[2] = time(1, 0x80000000); break;
	case 2: n.c[2] = time(2, 77); break;
	case 3: n.c[2] = time(255, 0); break;
	case 4: n.c[2] = time(1, 0x1b1b1b1b); form = 1; break;
	case 5: n.c[2] = time(3, 5); form = 2; break;
	case 6: n.c[2] = list(TIME, {null(U8), num(U32, 9)}); break;
	}
	n.c[3] = u == 0 ? null(U8) : num(U8, u == 1 ? 27 : u == 2 ? 0 : 255);
	n.c[4] = sc == 0 ? null(I8) : num(I8, sc == 1 ? (uint64_t)-1 : sc == 2 ? 0 : 127);
	n.c[6] = sig == 0 ? null(OCT) : sig == 1 ? oct("s") : sig == 2 ? oct(std::string(48, (char)0xff)) : oct(SERIAL);
}
static std::string serial(uint64_t s) {
	std::string r("\x0a\x01" "DZG", 5);
	for (int i = 4; i >= 0; i--)
		r += (char)(s >> 8 * i);
	return r;
}
static bool affected(const E &e) {
	if (e.name != SERIAL || e.type != 0 || e.content.size() != 10 || e.content.compare(0, 5, std::string("\x0a\x01" "DZG", 5)))
		return false;
	uint64_t s = 0;
	for (int i = 5; i < 10; i++)
		s = s << 8 | (uint8_t)e.content[i];
	return (s >= 42000000 && s <= 48999999) || (s >= 55000000 && s <= 58999999);
}
// the message with a value list, and what is to be delivered
static Node entry(const E &e, int i, bool dzg, W &w) {
	Node n = list(VLE, {e.name.empty() ? null(OCT) : oct(e.name), e.others & 1 ? status(0x1234 + i, 2) : null(STATUS), e.others & 2 ? time(1 + (i & 1), 1000 + i) : null(TIME),
						e.others & 4 ? num(U8, 27) : null(U8), e.others & 8 ? num(I8, (uint64_t)-2) : null(I8), null(VALUE), e.others & 16 ? oct("sig") : null(OCT)});
	struct F : Enc {
		int form = 0;
		int timeform(const Node &) override { return form; }
	} enc;
	if (e.rich >= 0)
		enrich(n, e.rich, enc.form);
	switch (e.field) {
	case 0: n.c[1] = status((uint64_t)e.value, 1); break;
	case 1: n.c[1] = status((uint64_t)e.value << 56 | (uint64_t)e.value, 8); break;
	case 2: n.c[2] = time((uint8_t)e.value, 7); break;
	case 3: n.c[2] = time(1, (uint32_t)e.value * 0x01010101u); break;
	case 4: n.c[3] = num(U8, (uint64_t)e.value); break;
	case 5: n.c[4] = num(I8, (uint64_t)(int64_t)(int8_t)e.value); break;
	case 6: n.c[6] = oct(std::string(1 + e.value % 20, (char)e.value)); break;
	}
	w = lower(n, enc);
	if (enc.form == 2)
		n.c[2].c[1] = null(U32); // what it becomes is not defined
	if (e.type < 0)
		return n;
	W v;
	v.type = (uint8_t)e.type;
	v.data = e.content;
	v.tlx = e.tlx;
	if (e.type == 0 && e.content.empty())
		v.tlx = 1;
	w.kids[5] = v;
	Node &x = n.c[5];
	size_t l = e.content.size();
	if (e.type == 0)
		x = voct(e.content);
	else if (e.type == 0x40)
		x = vbool(e.content[0] != 0);
	else {
		bool sign = e.type == 0x50;
		uint64_t u = 0;
		for (char c : e.content)
			u = u << 8 | (uint8_t)c;
		if (dzg && sign && l <= 2 && e.name == POWER)
			sign = false;
		if (sign && l && l < 8 && (e.content[0] & 0x80))
			u |= ~0ull << 8 * l;
		x = vint(sign, u, l <= 1 ? 1 : l <= 2 ? 2 : l <= 4 ? 4 : 8);
	}
	return n;
}
static void message(const std::vector<E> &es, Node &m, std::string &b) {
	m = msg("t", 0x701, {null(OCT), oct("s"), null(OCT), time(1, 5), null(VLIST), oct("l"), null(TIME)});
	Node l = seq(VLIST, {});
	W lw;
	lw.type = 0x70;
	lw.list = true;
	bool dzg = false;
	int i = 0;
	for (auto &e : es) {
		W w;
		l.c.push_back(entry(e, i++, dzg, w));
		lw.kids.push_back(w);
		dzg = dzg || affected(e);
	}
	if (!es.empty())
		m.c[3].c[4] = l;
	W w = lower(m);
	if (!es.empty())
		w.kids[3].kids[1].kids[4] = lw;
	emit(w, b);
}
static void check(const char *what, const std::vector<std::vector<E>> &lists) {
	std::vector<Node> want;
	std::string b;
	for (auto &l : lists) {
		Node m;
		message(l, m, b);
		want.push_back(m);
	}
	if (mc::want_note())
		mc::note(std::string(what) + ": " + dumpall(want).substr(0, 900) + " <- " + mc::hex(b, 200));
	auto got = libparse(b);
	std::function<void(Node &, const Node &)> clear = [&](Node &g, const Node &x) {
		if (x.k == TIME && g.k == TIME && !x.null && !g.null && x.c[1].null && !x.c[0].null && x.c[0].n == 3)
			g.c[1] = x.c[1];
		for (size_t j = 0; j < g.c.size() && j < x.c.size(); j++)
			clear(g.c[j], x.c[j]);
	};
	for (size_t i = 0; i < got.size() && i < want.size(); i++)
		clear(got[i], want[i]);
	expect(got, want, b, what);
	mc::outcome(b);
	mc::validated(want.size());
	mc::transition(lists.size());
}
static std::string be(uint64_t v, int n) {
	std::string s;
	for (int i = n - 1; i >= 0; i--)
		s += (char)(v >> 8 * i);
	return s;
}
static E dzg(uint64_t s = 42000000) { return {SERIAL, 0, serial(s)}; }
static E power(uint64_t v = 0x8025, int n = 2, int type = 0x50) { return {POWER, type, be(v, n)}; }
// the value of the second entry may have been taken for unsigned or not
static void expect2(const std::string &b, const Node &m, bool either) {
	auto got = libparse(b);
	if (either && got.size() == 1 && got[0].c[3].c[4].c.size() == 4) {
		Node &v = got[0].c[3].c[4].c[1].c[5];
		const Node &w = m.c[3].c[4].c[1].c[5];
		if (v.vt != w.vt && (v.vt == 0x50 || v.vt == 0x60) && v.w == w.w) {
			uint64_t mask = v.w == 8 ? ~0ull : (1ull << 8 * v.w) - 1;
			if ((v.n & mask) == (w.n & mask))
				v = w;
		}
	}
	expect(got, {m}, b, "header");
	mc::outcome(b);
	mc::validated();
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C17", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("serials", "serial numbers: all within 40 of each end of each affected range, with every value in the highest byte, and every 211th (thorough: 29th) up to 70000000", o, [] {
			static const uint64_t edge[] = {42000000, 48999999, 55000000, 58999999, 60000000, 49000000};
			uint64_t s;
			switch (choose(3)) {
			case 0: s = edge[choose(6)] + choose(81) - 40; break;
			case 1: s = edge[choose(6)] - 1 + choose(3) + ((uint64_t)choose(256) << 32); break;
			default: s = (uint64_t)choose(mc::tier ? 2413793 : 331753) * (mc::tier ? 29 : 211);
			}
			check("serial", {{dzg(s), power(), power(0x80, 1)}});
		});
		mc::scenario("all-serials", "every seventh serial number from 41 943 040 to 59 300 000 (thorough: every one up to 60 000 000, and up to 2^32 in steps of 61), before a power value of two bytes and one of one", o, [] {
			static Node m;
			static std::string tmpl;
			static size_t at;
			if (tmpl.empty()) {
				message({dzg(0), power(), power(0x80, 1)}, m, tmpl);
				at = tmpl.find(serial(0)) + 5;
			}
			int chunk = choose(mc::tier ? 916 + 1060 : 606), n = mc::tier ? 65536 : 4096;
			uint64_t from = !mc::tier ? 41943040 + (uint64_t)chunk * 7 * 4096 : chunk < 916 ? (uint64_t)chunk << 16 : 60030976 + (uint64_t)(chunk - 916) * 61 * 65536;
			uint64_t step = !mc::tier ? 7 : chunk < 916 ? 1 : 61;
			std::string b = tmpl;
			size_t l = b.size() - 4;
			for (uint64_t i = 0, s = from; i < (uint64_t)n; i++, s += step) {
				for (int k = 0; k < 5; k++)
					b[at + k] = (char)(s >> 8 * (4 - k));
				uint16_t c = crc_sml(b.data(), l);
				b[l + 1] = (char)(c >> 8);
				b[l + 2] = (char)c;
				sml_file *f = LIB(sml_file_parse((unsigned char *)b.data(), b.size()));
				bool want = (s >= 42000000 && s <= 48999999) || (s >= 55000000 && s <= 58999999);
				uint8_t t2 = want ? 0x62 : 0x52, t1 = want ? 0x61 : 0x51;
				(void)t1;
				sml_list *e = f->messages_len == 1 ? ((sml_get_list_response *)f->messages[0]->message_body->data)->val_list : 0;
				if (!e || !e->next || !e->next->next || !e->next->value || !e->next->next->value)
					mc::fail("serial %llu: the list is not delivered; input %s", (unsigned long long)s, mc::hex(b).c_str());
				sml_value *v = e->next->value, *w = e->next->next->value;
				if (v->type != t2 || *v->data.uint16 != 0x8025 || w->type != t1 || *w->data.uint8 != 0x80)
					mc::fail("serial %llu: power values of type %02x, %02x, expected %s; input %s", (unsigned long long)s, v->type, w->type, want ? "unsigned" : "signed", mc::hex(b).c_str());
				LIB(sml_file_free(f));
			}
			mc::outcome(mc::hash(mc::strf("%d", chunk)));
			mc::transition(n);
			mc::validated(n);
		});
		mc::scenario("field-bytes", "an affected (or other) serial and power values of two and one bytes; one other field of one of them with every byte value", o, [] {
			int has = choose(2), where = choose(3);
			E x[] = {has ? dzg(42000000) : dzg(60000000), power(), power(0x80, 1)};
			x[where].field = choose(7);
			x[where].value = choose(256);
			check("field bytes", {{x[0], x[1], x[2]}});
		});
		mc::scenario("serial-bytes", "every byte of an affected serial string replaced by every value; every length from 0 to 20; the string as other types", o, [] {
			E e = dzg(45000000 + choose(2) * 12000000);
			switch (choose(3)) {
			case 0: e.content[choose(10)] = (char)choose(256); break;
			case 1: {
				int l = choose(21);
				if (l <= 10)
					e.content.resize(l);
				else
					e.content += std::string(l - 10, 'x');
				break;
			}
			default: {
				int k = choose(5);
				if (k == 0) e.type = -1;
				if (k == 1) { e.type = 0x40; e.content = "\xff"; }
				if (k == 2) { e.type = 0x60; e.content = be(45000000, 4); }
				if (k == 3) { e.type = 0x50; e.content = be(45000000, 5); }
				if (k == 4) e.content = e.content.substr(5); // only the number
			}
			}
			check("serial string", {{e, power(), power(0xfe, 1)}});
		});
		mc::scenario("names", "every byte of the serial's and of the power's object identifier replaced by every value; lengths from 0 to 12", o, [] {
			E s = dzg(), p = power();
			E &e = choose(2) ? s : p;
			if (choose(2)) {
				e.name[choose(6)] = (char)choose(256);
			} else {
				int l = choose(13);
				std::string n = e.name + e.name;
				e.name = n.substr(0, l);
			}
			check("names", {{s, p, power(0x8123)}});
		});
		mc::scenario("values", "the power value: every content of up to 2 bytes, boundary contents of 3 to 8 bytes, as signed or unsigned, with and without an affected serial before", o, [] {
			int type = choose(2) ? 0x60 : 0x50, has = choose(2), l = choose(9);
			static const int lens[] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
			l = lens[l];
			E p = power(0, l, type);
			if (l == 1)
				p.content = be(choose(256), 1);
			else if (l == 2)
				p.content = be((uint64_t)choose(256) << 8 | choose(256), 2);
			else if (l) {
				static const unsigned char v[] = {0, 1, 0x7f, 0x80, 0xff};
				p.content[0] = (char)v[choose(5)];
				p.content[1] = (char)v[choose(5)];
				p.content[l - 2] = (char)v[choose(5)];
				p.content[l - 1] = (char)v[choose(5)];
			}
			check("value", {{has ? dzg() : dzg(49000000), p}});
		});
		mc::scenario("headers", "values of 0 to 8 bytes whose length header has 1 to 3 superfluous bytes, signed and unsigned, after an affected serial (also one with such a header) and not; those of up to two bytes may be seen either way", o, [] {
			int l = choose(9), x = 1 + choose(3), type = choose(2) ? 0x60 : 0x50, ser = choose(3);
			static const unsigned char v[] = {0, 0x7f, 0x80, 0xff};
			E s = ser ? dzg(45000000) : dzg(49000000), p = power(0, l, type), q = power(0x81, 1), other{"\x01\x02\x03", 0x50, be(0x8001, 2)};
			for (auto &c : p.content)
				c = (char)v[choose(2) * 2];
			if (l)
				p.content[0] = (char)v[choose(4)];
			p.tlx = other.tlx = x;
			if (ser == 2)
				s.tlx = x;
			Node m, k;
			std::string b, c;
			message({s, p, other, q}, m, b);
			expect2(b, m, l <= 2);
		});
		mc::scenario("orders", "all lists of up to 6 entries (thorough: 7) over 9 entries: affected and other serials, power values of several types and sizes, other objects", o, [] {
			int n = choose(mc::tier ? 8 : 7);
			std::vector<E> l;
			for (int i = 0; i < n; i++) {
				static const std::string other("\x01\x00\x01\x08\x00\xff", 6);
				switch (choose(9)) {
				case 0: l.push_back(dzg(55000000)); break;
				case 1: l.push_back(power(0x8001 + i)); break;
				case 2: l.push_back(dzg(60000000)); break;
				case 3: l.push_back({other, 0x50, be(0x9000 + i, 2)}); break;
				case 4: l.push_back(power(0x90 + i, 1)); break;
				case 5: l.push_back(power(0xfffe1393, 4)); break;
				case 6: l.push_back(power(0x8002, 2, 0x60)); break;
				case 7: l.push_back({POWER, -1, ""}); break;
				default: l.push_back({SERIAL, -1, ""});
				}
			}
			check("order", {l});
		});
		mc::scenario("lists", "up to 3 messages of up to 2 entries each: what one list says does not reach the next", o, [] {
			int n = 1 + choose(3);
			std::vector<std::vector<E>> ls;
			for (int i = 0; i < n; i++) {
				int k = choose(3);
				std::vector<E> l;
				for (int j = 0; j < k; j++)
					switch (choose(4)) {
					case 0: l.push_back(dzg(45000000)); break;
					case 1: l.push_back(power(0xff00 + i)); break;
					case 2: l.push_back({POWER, 0, "x"}); break;
					default: l.push_back({"n", 0x50, be(0xff, 1)});
					}
				ls.push_back(l);
			}
			check("lists", ls);
		});
		mc::scenario("fields", "an affected serial and three power values with every combination of the other fields present", o, [] {
			E s = dzg(58999999), p = power(), q = power(0x80, 1), r = power(0x80000000, 4);
			s.others = choose(32);
			p.others = choose(32);
			r.others = q.others = 31 - p.others;
			check("fields", {{s, p, q, r}});
		});
		mc::scenario("field-values", "an affected (or other) serial and power values of 1, 2 and 4 bytes; in the serial's and then in each power value's entry every combination of 5 statuses, 7 times (absent, bare, tagged, list-form, without tag), 4 units, 4 scalers and 4 signatures", o, [] {
			int has = choose(2), where = choose(4), r = choose(NRICH);
			E x[] = {has ? dzg(42000000) : dzg(60000000), power(), power(0x80, 1), power(0x80000000, 4)};
			x[where].rich = r;
			x[(where + 1) % 4].rich = (r * 31 + 7) % NRICH;
			check("field values", {{x[0], x[1], x[2], x[3]}});
		});
		mc::scenario("twice", "two serials, affected or other ones, or of another meter in between, each with every fourth combination of the other fields (as in field-values), and a power value behind each", o, [] {
			int k = choose(4), where = choose(3), r = choose(NRICH / 4) * 4 + choose(2);
			E x[] = {k & 1 ? dzg(55000000) : dzg(42000000), power(), k & 2 ? dzg(42000000) : dzg(60000000), power(0x8100), power(0x80, 1)};
			if (where == 2)
				x[0].rich = r;
			if (where)
				x[2].rich = r;
			else
				x[0].rich = r;
			check("twice", {{x[0], x[1], x[2], x[3], x[4]}});
		});
		mc::scenario("between", "an affected serial, 0 to 40, 98 to 101, 254 to 259, 1000 or 70000 other entries, then the power value, twice", o, [] {
			static const int more[] = {98, 99, 100, 101, 254, 255, 256, 257, 258, 259, 1000, 70000};
			int n = choose(53), m = choose(3);
			if (n > 40)
				n = more[n - 41];
			std::vector<E> l{dzg(48999999)};
			for (int i = 0; i < n; i++)
				l.push_back(m == 0 ? E{"o", 0x50, be(0x8000 + i, 2)} : m == 1 ? E{"", 0, "text"} : dzg(1 + i));
			l.push_back(power(0xabcd));
			l.push_back(power(0xef, 1));
			check("between", {l});
		});
		mc::scenario("apart", "two or three lists, with or without an affected serial before and with a power value behind, in one file or one each, parsed in turn; before each list 0 to 70000 bytes of padding, another message or other entries", o, [] {
			static const int gaps[] = {0, 100, 200, 256, 1000, 8200, 70000};
			int n = 2 + choose(2), files = choose(2);
			std::vector<Node> want;
			std::string b;
			for (int i = 0; i < n; i++) {
				int g = gaps[choose(n == 2 || mc::tier ? 7 : 3)], how = g ? choose(3) : 0, has = choose(2);
				std::vector<E> l;
				if (how == 0)
					b += std::string(g, 0);
				else if (how == 1) {
					Node m = compact(0x201, i);
					m.c[3].c[0] = oct(std::string(g, 'g'));
					b += encode(m);
					want.push_back(m);
				}
				if (has)
					l.push_back(dzg(48999999));
				l.push_back(power(0x8000 + i));
				if (how == 2)
					for (int j = 0; j < g / 13; j++)
						l.push_back({"o", 0x50, be(0x8000 + j, 2)});
				l.push_back(power(0xabcd));
				l.push_back(power(0xef, 1));
				Node m;
				message(l, m, b);
				want.push_back(m);
				if (files || i == n - 1) {
					expect(libparse(b), want, b, "apart");
					mc::outcome(b);
					mc::validated(want.size());
					mc::transition(want.size());
					b = "";
					want.clear();
				}
			}
		});
		mc::scenario("other-kinds", "serial and power entries in a period list or tree are not affected", o, [] {
			int k = choose(3), v = choose(4);
			Node pv = v == 0 ? vint(true, (uint64_t)-5, 2) : v == 1 ? vint(true, (uint64_t)-1, 1) : v == 2 ? vint(false, 5, 2) : vint(true, (uint64_t)-5, 4);
			Node m;
			Node ps = list(PERIOD, {oct(SERIAL), null(U8), null(I8), voct(serial(42000001)), null(OCT)});
			Node pp = list(PERIOD, {oct(POWER), null(U8), null(I8), pv, null(OCT)});
			if (k == 0) {
				m = compact(0x401, 0);
				m.c[3].c[6] = seq(PSEQ, {ps, pp});
			} else if (k == 1) {
				m = compact(0x501, 0);
				m.c[3].c[2] = tree("t", null(PPV), {tree("a", ppv(2, ps), {}), tree("b", ppv(2, pp), {})});
			} else {
				m = compact(0x501, 0);
				m.c[3].c[2] = tree("t", null(PPV), {tree(SERIAL, ppv(1, voct(serial(42000001))), {}), tree(POWER, ppv(1, pv), {})});
			}
			// and behind a value list with an affected serial
			Node d;
			std::string b;
			message({dzg(), power()}, d, b);
			std::string s = b + encode(m);
			expect(libparse(s), {d, m}, s, "other kinds");
			mc::outcome(s);
			mc::validated(2);
		});
		mc::scenario("times", "messages of every kind, every mixture of the three forms over its times, two contents: bare ones give seconds indexes, list ones are accepted, all other fields are kept", o, [] {
			int t = choose(14);
			Node m = samplemsg(tags[t], choose(2)), want;
			struct Et : Enc {
				uint32_t mask;
				int i = 0;
				std::vector<int> forms;
				int timeform(const Node &n) override {
					if (n.null || n.c[1].null)
						return 0;
					int d = mask >> 2 * (i++ % 4) & 3;
					forms.push_back(d == 3 ? 0 : d);
					return forms.back();
				}
			} e;
			e.mask = choose(256);
			W w = lower(m, e);
			int i = 0;
			std::function<void(Node &)> fix = [&](Node &n) {
				if (n.k == TIME && !n.null && !n.c[1].null) {
					int f = e.forms[i++];
					if (f == 1)
						n.c[0] = num(U8, 1);
					if (f == 2)
						n.c[1] = null(U32);
				}
				for (Node &c : n.c)
					fix(c);
			};
			want = m;
			fix(want);
			std::string b = encode(fl::close("a"));
			emit(w, b);
			b += encode(fl::close("z"));
			auto got = libparse(b);
			// the value of a list time is not defined: compare without
			std::function<void(Node &, const Node &)> clear = [&](Node &g, const Node &x) {
				if (x.k == TIME && g.k == TIME && !x.null && x.c[1].null)
					g = x;
				for (size_t j = 0; j < g.c.size() && j < x.c.size(); j++)
					clear(g.c[j], x.c[j]);
			};
			if (got.size() == 3)
				clear(got[1], want);
			expect(got, {fl::close("a"), want, fl::close("z")}, b, "times");
			mc::outcome(b);
			mc::validated(3);
		});
		mc::scenario("bare-values", "a bare time of every value of each of its bytes, followed by every kind of field", o, [] {
			int at = choose(4), v = choose(256), what = choose(3);
			uint32_t x = 0x01020304;
			x &= ~(0xffu << 8 * at);
			x |= (uint32_t)v << 8 * at;
			Node m = compact(what == 0 ? 0x701 : what == 1 ? 0x101 : 0x401, 0);
			Enc plain;
			struct Eb : Enc {
				int timeform(const Node &n) override { return !n.null && !n.c[1].null; }
			} e;
			std::function<void(Node &)> set = [&](Node &n) {
				if (n.k == TIME && !n.null)
					n = time(1, x);
				for (Node &c : n.c)
					set(c);
			};
			if (what == 0)
				m.c[3].c[4].c[0].c[2] = time(1, x);
			set(m);
			std::string b;
			emit(lower(m, e), b);
			expect(libparse(b), {m}, b, "bare time");
			mc::outcome(b);
			mc::validated();
		});
		mc::scenario("list-values", "list-form times whose three elements are full, shortened, absent, zero or negative", o, [] {
			Node m = compact(0x701, 0);
			m.c[3].c[3] = time(2, 9);
			W w = lower(m);
			W l;
			l.type = 0x70;
			l.list = true;
			static const unsigned char one[] = {0, 0x7f, 0x80, 0xff};
			for (int i = 0; i < 3; i++) {
				W x;
				x.type = i ? 0x50 : 0x60;
				int full = i ? 2 : 4, k = choose(full + 1);
				if (k == 0) {
					x.raw = true;
					x.data = "\x01";
				} else
					x.data = std::string(k, (char)one[choose(4)]);
				l.kids.push_back(x);
			}
			w.kids[3].kids[1].kids[3].kids[1] = l;
			std::string b;
			emit(w, b);
			Node want = m;
			want.c[3].c[3].c[1] = null(U32);
			auto got = libparse(b);
			if (got.size() == 1 && got[0].c[3].c.size() == want.c[3].c.size())
				got[0].c[3].c[3] = want.c[3].c[3]; // its value is not defined
			expect(got, {want}, b, "list time");
			mc::outcome(b);
			mc::validated();
		});
	});
}
