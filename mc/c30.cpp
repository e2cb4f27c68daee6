#include "common.hpp"
#include <sml/sml_boolean.h>
#include <sml/sml_list.h>
#include <sml/sml_number.h>
#include <sml/sml_shared.h>
#include <sml/sml_status.h>
#include <sml/sml_time.h>
#include <sml/sml_tree.h>
// C30: a buffer is a tape: what is written one after another is there, in
// order, and is read back, in order
// what can be written: elements, a string by hand, a bare marker, only room,
// or going back over the last element or all of them
enum Op { ELEM, HAND, MARK, ROOM, BACK, ALLBACK };
struct Step {
	Op op;
	Node n;
	size_t len;
};
static std::vector<Step> all, few;
static Node msgof(uint32_t tag) { return samplemsg(tag, 0); }
static void fill() {
	if (!all.empty())
		return;
	auto E = [](const Node &n) { all.push_back({ELEM, n, 0}); };
	for (int k = 0; k < NKINDS; k++) {
		if (k == VLE || k == OBJL || k == MSG || k == BODY)
			continue;
		E(sample((Kind)k, 0));
		if (k != HDR && k != PER && k != VENT && k != HDRSEQ && k != PERSEQ && k != VENTSEQ && k != PSEQ)
			E(null((Kind)k));
	}
	for (int n : {13, 14, 15, 253, 254, 255, 600, 5000})
		E(oct(bytes_of(n, 7)));
	for (int w : {1, 2, 4, 8})
		E(vint(w & 1, ~0ull, w)), E(status(w == 8 ? ~0ull : (1ull << 8 * w) - 1, w));
	E(voct(bytes_of(20, 9)));
	E(vbool(true)), E(vbool(false));
	Node l = seq(VLIST, {}), t = tree("t", null(PPV), {}), p = seq(PATH, {}), h = seq(HDRSEQ, {});
	for (int i = 0; i < 17; i++) {
		l.c.push_back(sample(VLE, i));
		t.c.push_back(tree(bytes_of(1 + i % 3, i), i & 1 ? null(PPV) : ppv(1, sample(VALUE, i)), {}));
		p.c.push_back(oct(bytes_of(1 + i, i)));
		h.c.push_back(sample(HDR, i));
	}
	E(l), E(t), E(p), E(h);
	for (uint32_t tag : {0x100u, 0x201u, 0x301u, 0x401u, 0x501u, 0x701u, 0xff01u})
		E(msgof(tag));
	E(msgof(0x701).c[3]);
	E(msgof(0x101).c[3]);
	for (size_t n : {1, 14, 15, 300})
		all.push_back({HAND, oct(bytes_of((int)n, 3)), n});
	all.push_back({MARK, null(OCT), 0});
	for (size_t n : {0, 1, 100, 5000})
		all.push_back({ROOM, Node(), n});
	all.push_back({BACK, Node(), 0});
	all.push_back({ALLBACK, Node(), 0});
	// the selection for longer sequences
	for (const Step &s : all)
		if (s.op != ELEM ? s.len < 2 || s.len == 5000 : (s.n.k == OCT && (s.n.null || s.n.s.size() == 14 || s.n.s.size() == 254 || s.n.s.size() == 600)) || (s.n.k == MSG && s.n.c[3].n == 0x701) || (s.n.k == VLIST && s.n.c.size() == 17) || (!s.n.null && (s.n.k == U8 || s.n.k == I64 || s.n.k == BOOL || s.n.k == TIME || s.n.k == TREE || s.n.k == STATUS)) || (s.n.k == VALUE && s.n.null))
			few.push_back(s);
}
// the value that reading gives: empty strings are absent, widths as sent
static Node readback(const Node &n) {
	std::string e = encode(n);
	if (n.k == MSG)
		return decodefile(e).msgs.at(0);
	Dec d(e);
	return decode(d, n.k);
}
static std::string stepname(const Step &s) {
	switch (s.op) {
	case ELEM: return dump(s.n).substr(0, 60);
	case HAND: return mc::strf("string of %zu by hand", s.len);
	case MARK: return "marker";
	case ROOM: return mc::strf("room for %zu", s.len);
	case BACK: return "back";
	default: return "back to the start";
	}
}
// skips one element by its headers alone
static void skip(sml_buffer *b, int depth = 0) {
	int t = sml_buf_get_next_type(b);
	int l = sml_buf_get_next_length(b);
	if (t == SML_TYPE_LIST)
		while (l-- > 0 && !b->error && depth < 100)
			skip(b, depth + 1);
	else if (l > 0)
		sml_buf_update_bytes_read(b, l);
}
static void peek(sml_buffer *b, const std::string &want, const std::string &ctx) {
	size_t at = b->cursor;
	int t = sml_buf_get_next_type(b), e = sml_buf_has_errors(b);
	unsigned char c = sml_buf_get_current_byte(b), *p = sml_buf_get_current_buf(b);
	if (b->cursor != at || e || b->error || t != ((unsigned char)want[at] & 0x70) || c != (unsigned char)want[at] || p != b->buffer + at)
		mc::fail("%s: looking at %zu: type 0x%02x, byte %02x, buffer + %ld, position %zu, error %d; there is %02x", ctx.c_str(), at, t, c, (long)(p - b->buffer), b->cursor, e, (unsigned char)want[at]);
}
static void tape(const std::vector<Step> &steps, size_t size, int filling, int how) {
	std::string ctx = mc::strf("buffer of %zu", size), want;
	std::vector<std::pair<size_t, Node>> el; // where, what
	mc::track_reset();
	sml_buffer *b = LIB(sml_buffer_init(size));
	if (!b || b->buffer_len != size || b->cursor || b->error)
		mc::fail("a new buffer of %zu has length %zu, position %zu, error %d", size, b->buffer_len, b->cursor, b->error);
	if (filling)
		memset(b->buffer, filling, size);
	for (const Step &s : steps) {
		ctx += ", " + stepname(s);
		switch (s.op) {
		case ELEM: {
			void *o = LIB(build(s.n));
			LIB(writeany(s.n.k, o, b));
			LIB(freeany(s.n.k, o));
			el.push_back({want.size(), s.n});
			want += encode(s.n);
			break;
		}
		case HAND:
			LIB(sml_buf_set_type_and_length(b, SML_TYPE_OCTET_STRING, (unsigned)s.len));
			if (!LIB(sml_buf_reserve(b, s.len)))
				mc::fail("%s: no room", ctx.c_str());
			memcpy(LIB(sml_buf_get_current_buf(b)), s.n.s.data(), s.len);
			LIB(sml_buf_update_bytes_read(b, (int)s.len));
			el.push_back({want.size(), s.n});
			want += encode(s.n);
			break;
		case MARK:
			LIB(sml_buf_optional_write(b));
			el.push_back({want.size(), s.n});
			want += "\x01";
			break;
		case ROOM:
			if (!LIB(sml_buf_reserve(b, s.len)) || b->buffer_len < b->cursor + s.len)
				mc::fail("%s: length %zu, position %zu", ctx.c_str(), b->buffer_len, b->cursor);
			memset(b->buffer + b->cursor, 0xb7, s.len); // it must be there
			break;
		case BACK:
			if (!el.empty()) {
				b->cursor = el.back().first;
				want.resize(b->cursor);
				el.pop_back();
			}
			break;
		case ALLBACK:
			b->cursor = 0;
			want.clear();
			el.clear();
		}
		if (b->error || sml_buf_has_errors(b))
			mc::fail("%s: error flagged", ctx.c_str());
		if (b->cursor != want.size() || b->buffer_len < b->cursor)
			mc::fail("%s: position %zu of %zu, expected %zu", ctx.c_str(), b->cursor, b->buffer_len, want.size());
		if (memcmp(b->buffer, want.data(), want.size()))
			mc::fail("%s: the buffer holds %s, expected %s", ctx.c_str(), mc::hex(b->buffer, want.size() > 300 ? 300 : want.size()).c_str(), mc::hex(want, 300).c_str());
		mc::transition();
	}
	if (mc::want_note())
		mc::note(ctx + ": " + mc::hex(want, 200));
	mc::outcome(mc::hash(want, mc::hash(mc::strf("%zu %d", size, how))));
	// reading: from the same buffer, or an exact copy of what was written
	{
		Exact ex(want);
		sml_buffer copy = {ex.p, ex.n, 0, 0, 0}, *r = how & 1 ? &copy : b;
		b->cursor = 0;
		for (size_t i = 0; i < el.size(); i++) {
			const Node &n = el[i].second;
			size_t end = i + 1 < el.size() ? el[i + 1].first : want.size();
			if (r->cursor != el[i].first)
				mc::fail("%s: reading element %zu at %zu", ctx.c_str(), i, r->cursor);
			if (how & 2)
				peek(r, want, ctx);
			if (how == 2 || (how == 3 && i % 2))
				LIB(skip(r));
			else {
				void *o = LIB(parseany(n.k, r));
				Node got = extany(n.k, o), exp = readback(n);
				if (got != exp)
					mc::fail("%s: element %zu reads back as %s, expected %s", ctx.c_str(), i, dump(got).c_str(), dump(exp).c_str());
				LIB(freeany(n.k, o));
			}
			if (r->error || r->cursor != end)
				mc::fail("%s: after reading element %zu the position is %zu, expected %zu, error %d", ctx.c_str(), i, r->cursor, end, r->error);
		}
		if (memcmp(r->buffer, want.data(), want.size()))
			mc::fail("%s: reading changed the buffer", ctx.c_str());
		if (how & 1) { // at the end
			for (int q = 0; q < 3; q++) {
				r->error = 0;
				int v = q == 0 ? LIB(sml_buf_get_next_type(r)) : q == 1 ? LIB(sml_buf_get_next_length(r)) : LIB(sml_buf_optional_is_skipped(r));
				if (!r->error || !sml_buf_has_errors(r) || r->cursor != want.size() || (v >= 0 && v <= 0xff))
					mc::fail("%s: at the end question %d gives %d, error %d, position %zu", ctx.c_str(), q, v, r->error, r->cursor);
			}
			// once set the flag stays
			r->cursor = 0;
			for (auto &x : el) {
				r->cursor = x.first;
				void *o = parseany(x.second.k, r); // what it gives then is left open
				if (!r->error)
					mc::fail("%s: reading clears the error flag", ctx.c_str());
				if (o)
					freeany(x.second.k, o);
			}
			if (r->error_msg)
				free(r->error_msg);
		}
	}
	LIB(sml_buffer_free(b));
	leakcheck("a buffer", ctx);
	mc::validated();
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C30", [] {
		fill();
		mc::Opt o;
		o.exec_timeout = 100;
		o.seconds = mc::tier ? 1200 : 100;
		static const size_t sizes[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 64, 511, 512, 2000};
		mc::scenario("pairs", mc::strf("every sequence of up to 2 of %zu steps (elements of every kind, strings by hand, markers, making room, going back) into a buffer of 13 sizes, empty or full of ff; read back from the same or an exact buffer, by parsing, with looking ahead, or by headers", all.size()).c_str(), o, [] {
			size_t size = sizes[choose(13)];
			int fl = choose(2) ? 0xff : 0, how = choose(4), n = choose(3);
			std::vector<Step> s;
			while (n--)
				s.push_back(all[choose((int)all.size())]);
			tape(s, size, fl, how);
		});
		mc::scenario("longer", mc::strf("every sequence of 3 (thorough: and 4) of %zu steps into a buffer of 0, 1, 8 and 64 bytes", few.size()).c_str(), o, [] {
			static const size_t sz[] = {8, 0, 1, 64};
			size_t size = sz[choose(4)];
			int how = choose(4), n = 3 + (mc::tier ? choose(2) : 0);
			std::vector<Step> s;
			while (n--)
				s.push_back(few[choose((int)few.size())]);
			tape(s, size, 0xff, how);
		});
		mc::scenario("edges", "every element written so that it ends at, before or behind the end of a buffer of 1 to 80 bytes, at every position in it", o, [] {
			int k = choose((int)all.size()), size = 1 + choose(80), how = choose(2) * 2 + 1, at = choose(size + 1);
			std::vector<Step> s;
			if (at)
				s.push_back({ELEM, at == 1 ? null(OCT) : oct(bytes_of(at - (at > 16 ? 2 : 1), 1)), 0});
			s.push_back(all[k]);
			tape(s, size, 0xff, how);
		});
		mc::scenario("large", "strings of lengths around 2^12 to 2^20 between two of 5 elements, in buffers of 1, 4096, 65536 or 2^21 bytes", o, [] {
			static const size_t sizes[] = {1, 4096, 65536, 1 << 21};
			int p = choose(9), d = choose(5), a = choose(5), b = choose(5);
			std::vector<Step> s;
			s.push_back(all[(size_t)a * 17]);
			s.push_back({ELEM, oct(bytes_of(((size_t)4096 << p) + (size_t)d - 2, d)), 0});
			s.push_back(all[(size_t)b * 17]);
			tape(s, sizes[choose(4)], 0xff, 1);
		});
		mc::scenario("room", "making room for 0 to 40 bytes, and around 2^9 to 2^20, at every position in a buffer of 0 to 40 bytes, and around 2^9, 2^12 and 2^16: everything in it stays", o, [] {
			int i = choose(41 + 9), j = choose(41 + 3 * 12);
			size_t size = i <= 40 ? i : (512ul << 3 * ((i - 41) / 3)) + (i - 41) % 3 - 1, n = j <= 40 ? j : (512ul << ((j - 41) / 3)) + (j - 41) % 3 - 1;
			for (size_t at = 0; at <= size; at += size > 40 && at > 2 && at + 3 < size ? size / 9 : 1) {
				sml_buffer *b = LIB(sml_buffer_init(size));
				for (size_t x = 0; x < size; x++)
					if (b->buffer[x])
						mc::fail("byte %zu of a new buffer of %zu is %02x", x, size, b->buffer[x]);
				for (size_t x = 0; x < size; x++)
					b->buffer[x] = (unsigned char)(x * 7 + 1);
				b->cursor = at;
				int r = LIB(sml_buf_reserve(b, n));
				if (!r || b->error || b->cursor != at || b->buffer_len < at + n || b->buffer_len < size)
					mc::fail("room for %zu at %zu in a buffer of %zu: %d, length %zu, position %zu, error %d", n, at, size, r, b->buffer_len, b->cursor, b->error);
				for (size_t x = 0; x < at; x++)
					if (b->buffer[x] != (unsigned char)(x * 7 + 1))
						mc::fail("room for %zu at %zu in a buffer of %zu: byte %zu is lost", n, at, size, x);
				memset(b->buffer + at, 1, b->buffer_len - at);
				LIB(sml_buffer_free(b));
				mc::transition();
			}
			mc::outcome(mc::hash(mc::strf("room %zu %zu", size, n)));
			mc::validated();
			if (mc::want_note())
				mc::note(mc::strf("room for %zu in %zu", n, size));
		});
		mc::scenario("questions", "every buffer of up to 2 bytes, 3 and 4 bytes over 16 (thorough 20) bytes, 10 bytes of continued headers: every sequence of up to 3 of the 5 questions", o, [] {
			static const unsigned char al[] = {0x01, 0x00, 0x02, 0x0f, 0x42, 0x62, 0x70, 0x71, 0x7f, 0x80, 0x81, 0x8f, 0xf0, 0xf1, 0xff, 0x10, 0x51, 0xc2, 0x90, 0xb3};
			int len = choose(6), A = mc::tier ? 20 : 16;
			std::string s;
			if (len == 5) {
				int k = 1 + choose(10);
				s = std::string(k, (char)(0x80 | choose(8) << 4 | (choose(2) ? 15 : choose(2))));
				s += (char)al[choose(A)];
			} else
				for (int i = 0; i < len; i++)
					s += len <= 2 ? (char)choose(256) : (char)al[choose(A)];
			int nq = 3;
			Exact ex(s);
			for (int q = 0; q < 5 * 5 * 5; q++) {
				sml_buffer b = {ex.p, ex.n, 0, 0, 0};
				size_t i = 0;
				bool err = false;
				for (int k = 0, x = q; k < nq && !err; k++, x /= 5) {
					int got = 0, want = 0;
					bool any = false;
					switch (x % 5) {
					case 0:
						got = sml_buf_get_next_type(&b);
						if (i < s.size())
							want = s[i] & 0x70;
						else
							err = true, any = got < 0 || got > 0xff;
						break;
					case 1: {
						got = sml_buf_get_next_length(&b);
						if (i >= s.size()) {
							err = true, want = -1;
							break;
						}
						bool isl = (s[i] & 0x70) == 0x70;
						int64_t l = 0;
						int hd = 0;
						bool done = false;
						while (i < s.size() && l <= 0x7ffffff) {
							unsigned char c = s[i++];
							l = l << 4 | (c & 15);
							hd++;
							if (!(c & 0x80)) {
								done = true;
								break;
							}
						}
						if (!done || l > 0x7fffffff)
							err = true, any = got < 0;
						else
							want = (int)(isl ? l : l - hd);
						if (want < 0)
							any = got < 0;
						break;
					}
					case 2:
						got = sml_buf_optional_is_skipped(&b);
						if (i >= s.size())
							err = true, any = got != 0;
						else if (s[i] == 1)
							want = 1, i++;
						break;
					case 3:
						if (i < s.size()) {
							got = sml_buf_get_current_byte(&b);
							want = (unsigned char)s[i];
							if (sml_buf_get_current_buf(&b) != ex.p + i)
								mc::fail("wrong place at %zu of %s", i, mc::hex(s).c_str());
						}
						break;
					default:
						got = sml_buf_has_errors(&b);
					}
					if ((!any && got != want) || (err && !b.error) || (!err && want >= 0 && (b.error || b.cursor != i)) || (b.cursor > s.size()))
						mc::fail("question %d of %d on %s (after %d): %d, position %zu, error %d; expected %d, position %zu, error %d", x % 5, q, mc::hex(s).c_str(), k, got, b.cursor, b.error, want, i, err);
					if (want < 0)
						break;
					mc::transition();
				}
			}
			if (s.size() && memcmp(ex.p, s.data(), s.size()))
				mc::fail("questions changed the buffer");
			mc::outcome(mc::hash(s));
			mc::validated();
			if (mc::want_note())
				mc::note(mc::hex(s));
		});
	});
}
