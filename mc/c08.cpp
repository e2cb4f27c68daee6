#include "files.hpp"
#include "sweep.hpp"
// C08: writing a received or already written file again changes nothing
static Node listless(const Node &n) { // times without value are written as absent
	if (n.k == TIME && !n.null && n.c[1].null)
		return null(TIME);
	Node r = n;
	for (Node &c : r.c)
		c = listless(c);
	return r;
}
static std::vector<Node> final(const std::vector<Node> &v) {
	std::vector<Node> r;
	for (auto &n : v)
		r.push_back(listless(normempty(n)));
	return r;
}
static std::string written(sml_file *f) { return std::string((char *)f->buf->buffer, f->buf->cursor); }
static int FD = -1;
static const int NOPS = 8;
static const char *opname[NOPS] = {"rewind+write", "fresh buffer+write", "tiny dirty buffer+write", "transport write", "append", "parse what was written", "parse twice", "failed transport write"};
// one step of a history; w: what the file must be written as
static void step(int op, sml_file *&f, const std::vector<Node> &vals, const std::string &w, const std::string &hist) {
	switch (op) {
	case 0:
		f->buf->cursor = 0;
		LIB(sml_file_write(f));
		break;
	case 1:
		LIB(sml_buffer_free(f->buf));
		f->buf = LIB(sml_buffer_init(512));
		LIB(sml_file_write(f));
		break;
	case 2:
		LIB(sml_buffer_free(f->buf));
		f->buf = LIB(sml_buffer_init(3));
		memset(f->buf->buffer, 0xff, 3);
		LIB(sml_file_write(f));
		break;
	case 3: case 7: {
		if (FD < 0)
			FD = io::pipefd();
		io::out = io::Out();
		io::out.fd = FD;
		if (op == 7) {
			io::out.policy = io::CAP;
			io::out.cap = 5;
		}
		int r = LIB(sml_transport_write(FD, f));
		if (op == 7)
			break;
		std::string want = fr::START + w;
		int pad = (4 - want.size() % 4) % 4;
		want += std::string(pad, 0) + fr::ESC + "\x1a" + (char)pad;
		uint16_t c = crc_sml(want.data(), want.size());
		want += (char)(c >> 8);
		want += (char)c;
		if (io::out.data != want || r != (int)want.size())
			mc::fail("%s: transport write returned %d, frame %s, expected %s", hist.c_str(), r, mc::hex(io::out.data, 600).c_str(), mc::hex(want, 600).c_str());
		break;
	}
	case 4: {
		// a second copy behind the first one
		f->buf->cursor = 0;
		LIB(sml_file_write(f));
		size_t n = f->buf->cursor;
		LIB(sml_file_write(f));
		std::string a = written(f);
		if (a.size() != 2 * n || a.substr(0, n) != a.substr(n))
			mc::fail("%s: the copy written behind the first differs: %s", hist.c_str(), mc::hex(a, 900).c_str());
		f->buf->cursor = n;
		break;
	}
	case 5: case 6: {
		f->buf->cursor = 0;
		LIB(sml_file_write(f));
		sml_file *g = fl::parsed(written(f));
		LIB(sml_file_free(f));
		f = g;
		if (op == 6) {
			f->buf->cursor = 0;
			LIB(sml_file_write(f));
			g = fl::parsed(written(f));
			LIB(sml_file_free(f));
			f = g;
		}
		f->buf->cursor = 0;
		LIB(sml_file_write(f));
		break;
	}
	}
	if (op != 3 && op != 7 && written(f) != w)
		mc::fail("%s: written %s, expected %s", hist.c_str(), mc::hex(written(f), 900).c_str(), mc::hex(w, 900).c_str());
	std::vector<Node> now = ext(f);
	if (op == 5 || op == 6 ? final(now) != final(vals) : now.size() != vals.size() || final(now) != final(vals))
		mc::fail("%s: the values are %s, were %s", hist.c_str(), dumpall(now).substr(0, 900).c_str(), dumpall(vals).substr(0, 900).c_str());
	mc::transition();
}
static void history(sml_file *f, const std::vector<Node> &vals, int depth, const std::string &what, bool allops = true) {
	std::string w = encodeall(final(vals)), hist = what;
	for (int i = 0; i < depth; i++) {
		int op = allops ? choose(NOPS) : choose(2) * 5;
		hist += std::string(" > ") + opname[op];
		step(op, f, vals, w, hist);
	}
	if (mc::want_note())
		mc::note(hist + ": " + mc::hex(w, 250));
	auto back = libparse(w, false);
	expect(back, final(vals), w, hist.c_str());
	LIB(sml_file_free(f));
	leakcheck(hist.c_str(), w);
	mc::outcome(mc::hash(w, mc::hash(hist)));
	mc::validated(depth + 1);
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C08", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("histories", "files of one message of each kind, built or parsed, all histories of up to 3 (thorough: 5) of 8 operations: writes into the used, a fresh, a small dirty buffer, through the transport layer, failed, appended; parsing what was written", o, [] {
			int t = choose(14), how = choose(2), depth = 1 + choose(mc::tier ? 5 : 3);
			std::vector<Node> v{compact(tags[t], 0)};
			mc::track_reset();
			sml_file *f = how ? fl::parsed(encodeall(v)) : fl::built(v);
			history(f, v, depth, how ? "parsed" : "built");
		});
		mc::scenario("files", "files of 2 and 3 messages of all kinds, built or parsed, histories of 1 (thorough: up to 2) operations", o, [] {
			int n = 2 + choose(2), how = choose(2);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(compact(tags[n == 3 ? choose(7) * 2 + i % 2 : choose(14)], i));
			mc::track_reset();
			sml_file *f = how ? fl::parsed(encodeall(v) + std::string(how, 0)) : fl::built(v);
			history(f, v, 1 + (mc::tier ? choose(2) : 0), how ? "parsed" : "built");
		});
		for (int t = 0; t < 14; t++) {
			bool large = tags[t] == 0x300 || tags[t] == 0x301 || tags[t] == 0x400 || tags[t] == 0x501 || tags[t] == 0xff01;
			o.budget = large && !mc::tier ? 1 : 2;
			o.seconds = mc::tier ? 240 : 25;
			mc::scenario(std::string("received-") + tagname[t], "one received message; all combinations of up to `budget` deviating field values and encodings (noncanonical ones, empty strings, bare times included)", o, [t] {
				Gen g;
				g.sizes = mc::tier;
				Node m = g.message(tags[t], 0);
				EncMC e;
				std::string b;
				emit(lower(m, e), b);
				mc::track_reset();
				sml_file *f = fl::parsed(b);
				std::string w = encode(final({m})[0]);
				step(0, f, {m}, w, "received > rewind+write");
				step(5, f, {m}, w, "received > write > parse > write");
				LIB(sml_file_free(f));
				leakcheck("received", b);
				if (mc::want_note())
					mc::note(dump(m).substr(0, 900) + " <- " + mc::hex(b, 300));
				mc::outcome(b);
				mc::validated(3);
			});
		}
		o.budget = 0;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("list-times", "received messages of each kind whose times are sent in any mixture of the three forms: all other values are kept", o, [] {
			int t = choose(14);
			Node m = samplemsg(tags[t], 0);
			struct E : Enc {
				uint32_t mask;
				int i = 0, lists = 0;
				int timeform(const Node &n) override {
					if (n.null || n.c[1].null)
						return 0;
					int d = mask >> 2 * (i++ % 4) & 3;
					if (d == 1 && !n.c[0].null && n.c[0].n == 1)
						return 1;
					if (d == 2) {
						lists++;
						return 2;
					}
					return 0;
				}
			} e;
			e.mask = choose(256);
			std::string b;
			emit(lower(m, e), b);
			mc::track_reset();
			sml_file *f = fl::parsed(b);
			std::vector<Node> v = ext(f);
			if (v.size() != 1)
				mc::fail("list times: the message is not delivered; %s", mc::hex(b).c_str());
			// the values but the list times are those sent
			std::function<bool(const Node &, const Node &)> eq = [&](const Node &a, const Node &x) -> bool {
				if (x.k == TIME && !x.null && x.c[1].null)
					return a.k == TIME;
				if (a.c.empty() && x.c.empty())
					return a == x;
				if (a.k != x.k || a.null != x.null || a.n != x.n || a.c.size() != x.c.size())
					return false;
				for (size_t i = 0; i < a.c.size(); i++)
					if (!eq(a.c[i], x.c[i]))
						return false;
				return true;
			};
			if (!eq(m, v[0]))
				mc::fail("list times: sent %s, delivered %s", dump(m).c_str(), dump(v[0]).c_str());
			history(f, v, 2, "list times", false);
		});
		auto received = [](const std::vector<Node> &v, const std::string &b) {
			mc::track_reset();
			sml_file *f = fl::parsed(b);
			std::string w = encodeall(final(v));
			step(0, f, v, w, "received > rewind+write");
			step(0, f, v, w, "received > rewind+write > rewind+write");
			step(5, f, v, w, "received > write > write > parse > write");
			LIB(sml_file_free(f));
			leakcheck("received", b);
			if (mc::want_note())
				mc::note(dumpall(v).substr(0, 900) + " <- " + mc::hex(b, 300));
			mc::outcome(b);
			mc::validated(3);
		};
		mc::scenario("leaf-values", "one received message of each kind; every leaf with every (thorough; otherwise every third) value of a broad alphabet, integers in full or shortened to the fewest bytes", o, [received] {
			Node m = samplemsg(tags[choose(14)], 0);
			if (!sweepleaf(m, mc::tier ? 1 : 3))
				return;
			struct E : Enc {
				bool min;
				int intlen(const Node &, int minimal, int full) override { return min ? minimal : full; }
			} e;
			e.min = choose(2);
			std::string b;
			emit(lower(m, e), b);
			received({m}, b);
		});
		mc::scenario("booleans", "two received messages of each kind; every boolean in turn, sent as every byte value", o, [received] {
			Node m;
			std::string b;
			if (boolmsg(m, b))
				received({m}, b);
		});
		o.budget = 2;
		mc::scenario("states", "every combination of four states (absent, present, zero, all ones) of the fields of every structure of up to 7 fields, of pairs of fields in larger ones, received", o, [received] {
			Node m = statemsg();
			if (!mc::discarded())
				received({m}, encode(m));
		});
		o.budget = 0;
		mc::scenario("checksums", "received files of 1 to 3 messages of which one has each of the 65536 checksums in turn; X.25 or (becoming X.25) Kermit", o, [received] {
			int n = 1 + choose(3), at = choose(n), a = choose(256), b = choose(256), kermit = choose(2);
			std::vector<Node> v;
			std::string e;
			for (int i = 0; i < n; i++) {
				v.push_back(fl::close(i == at ? std::string(1, (char)a) + (char)b : "x"));
				W w = lower(v.back());
				w.kids[4].kermit = kermit;
				emit(w, e);
			}
			received(v, e);
		});
		mc::scenario("sizes", "received files of every size from 30 to 1100 bytes, padded by 0 to 3 zeros, written twice into the buffer they were parsed from", o, [] {
			std::vector<Node> v = fl::ofsize(30 + choose(1071));
			if (v.empty())
				return mc::discard();
			mc::track_reset();
			sml_file *f = fl::parsed(encodeall(v) + std::string(choose(4), 0));
			history(f, v, 2, "size", false);
		});
		mc::scenario("large", "received files of sizes around every power of two from 2 kB to 128 kB (thorough: 2 MB), in one message, behind or before a short one, or in messages of 40 bytes, with either checksum or superfluous header bytes, padded by 0 or 3 zeros, written twice or parsed again, in any order", o, [] {
			size_t n = ((size_t)2048 << choose(mc::tier ? 11 : 7)) + choose(5) * 3 - 8;
			int form = choose(4);
			std::vector<Node> v, x{compact(0x701, 0)};
			if (form == 3)
				for (size_t l = 0; l + 40 < n; l += 40)
					v.push_back(fl::close(std::string(19, (char)l)));
			else
				v = fl::ofsize(n);
			if (v.empty())
				return mc::discard();
			if (form == 1)
				v.insert(v.begin(), x[0]);
			if (form == 2)
				v.push_back(x[0]);
			int enc = choose(4);
			std::string e;
			for (auto &m : v) {
				W w = lower(m);
				w.kids[4].kermit = enc == 1;
				if (enc == 2)
					w.tlx = 1;
				if (enc == 3)
					w.kids[0].tlx = 1;
				emit(w, e);
			}
			mc::track_reset();
			sml_file *f = fl::parsed(e + std::string(choose(2) * 3, 0));
			history(f, v, 2, "large", false);
		});
		mc::scenario("extended", "a received file, or one whose parsing stopped at damage, extended by built messages, then written", o, [] {
			int n = choose(mc::tier ? 3 : 2), add = choose(3), dmg = choose(4);
			std::vector<Node> v;
			for (int i = 0; i < n; i++)
				v.push_back(compact(tags[choose(14)], i));
			std::string b = encodeall(v);
			if (dmg == 1) b += "\x76\x02";
			if (dmg == 2) b += std::string("\x75\x01\x01", 3);
			if (dmg == 3) {
				std::string x = encode(fl::close("crc"));
				x[x.size() - 2] ^= 1;
				b += x;
			}
			mc::track_reset();
			sml_file *f = fl::parsed(b);
			for (int i = 0; i < add; i++) {
				Node m = compact(tags[choose(4) * 4], i);
				v.push_back(m);
				LIB(sml_file_add_message(f, LIB(buildmsg(m))));
			}
			history(f, v, 1, "extended", false);
		});
	});
}
