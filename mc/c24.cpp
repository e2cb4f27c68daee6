#include "mut.hpp"
#include <sml/sml_message.h>
// C24: every element parser consumes exactly one element or reports an error
// parsers: the kinds of the model, then the bodies of the 13 message kinds
static std::vector<Kind> K;
struct BodyP {
	uint32_t tag;
	void *(*parse)(sml_buffer *);
	void (*release)(void *);
};
#define BP(tag, name)                                                            \
	{                                                                            \
		tag, [](sml_buffer *b) -> void * { return sml_##name##_parse(b); },      \
			[](void *p) { sml_##name##_free((sml_##name *)p); }                  \
	}
static const BodyP bodies[] = {
	BP(0x100, open_request), BP(0x101, open_response), BP(0x200, close_request), BP(0x201, close_response),
	BP(0x300, get_profile_pack_request), BP(0x301, get_profile_pack_response), BP(0x400, get_profile_list_request),
	BP(0x401, get_profile_list_response), BP(0x500, get_proc_parameter_request), BP(0x501, get_proc_parameter_response),
	BP(0x600, set_proc_parameter_request), BP(0x700, get_list_request), BP(0x701, get_list_response), BP(0xff01, attention_response)};
static int nparsers() {
	if (K.empty())
		for (int k = 0; k < MSG; k++)
			if (hasparser((Kind)k))
				K.push_back((Kind)k);
	return (int)K.size() + 14;
}
static std::string pname(int p) { return p < (int)K.size() ? kindname[K[p]] : tagname[p - K.size()]; }

// the element at `at` in `in`
static void check(int p, const std::string &pre, const std::string &in) {
	std::string whole = pre + in;
	if (mc::want_note())
		mc::note(pname(p) + " at " + mc::hex(pre, 40) + " | " + mc::hex(in, 300));
	Dec d(whole);
	d.i = pre.size();
	Node want;
	int bi = p - (int)K.size();
	if (bi < 0)
		want = decode(d, K[p]);
	else {
		// the same through the body decoder: tag and list
		std::string x = "\x72\x65";
		for (int i = 3; i >= 0; i--)
			x += (char)(bodies[bi].tag >> (8 * i));
		Dec e(x + in);
		std::string keep = x + in;
		e.p = (const uint8_t *)keep.data();
		want = decode(e, BODY);
		d.err = e.err;
		d.fuzzy = e.fuzzy;
		d.i = e.i - x.size() + pre.size();
	}
	mc::track_reset();
	{
		Exact ex(whole);
		sml_buffer b = {ex.p, ex.n, pre.size(), 0, 0};
		void *o = LIB(bi < 0 ? parseany(K[p], &b) : bodies[bi].parse(&b));
		std::string ctx = pname(p) + " parser on " + mc::hex(in, 300);
		if (memcmp(ex.p, whole.data(), whole.size()))
			mc::fail("%s changed its input", ctx.c_str());
		if (b.error_msg)
			free(b.error_msg);
		if (d.fuzzy)
			;
		else if (d.err) {
			if (!b.error)
				mc::fail("%s: no error flagged, object %p, position %zu", ctx.c_str(), o, b.cursor);
		} else {
			if (b.error)
				mc::fail("%s: error flagged on a valid element (%s)", ctx.c_str(), dump(want).c_str());
			if (b.cursor != d.i)
				mc::fail("%s: position %zu, expected %zu", ctx.c_str(), b.cursor - pre.size(), d.i - pre.size());
			if (bi < 0) {
				if (want.null != !o)
					mc::fail("%s: object %p, expected %s", ctx.c_str(), o, dump(want).c_str());
				Node got = extany(K[p], o);
				if (got != want)
					mc::fail("%s: %s, expected %s", ctx.c_str(), dump(got).c_str(), dump(want).c_str());
			} else {
				sml_message_body mb;
				u32 tag = bodies[bi].tag;
				mb.tag = &tag;
				mb.data = o;
				if (!o)
					mc::fail("%s: no object", ctx.c_str());
				Node got = ext(&mb);
				if (got != want)
					mc::fail("%s: %s, expected %s", ctx.c_str(), dump(got).c_str(), dump(want).c_str());
			}
		}
		if (bi < 0)
			LIB(freeany(K[p], o));
		else
			LIB(bodies[bi].release(o));
	}
	leakcheck(pname(p).c_str(), whole);
	mc::outcome(pname(p) + in);
	mc::validated();
}
// encoding of a plain element for parser p, as wire tree
static W wire(int p, int v) {
	if (p < (int)K.size()) {
		Kind k = K[p];
		if (k == BODY)
			return lower(sample(OCT, 0)), lower(compact(tags[v % 14], v).c[3]);
		return lower(sample(k, v));
	}
	W w = lower(compact(bodies[p - K.size()].tag, v).c[3]);
	return w.kids[1];
}
static const char *tokens[] = {
	"\x01\x01", "\x03\x03""AB", "\x02\x62\x05", "\x02\x52\x85", "\x02\x42\x01", "\x01\x70", "\x01\x71", "\x01\x72",
	"\x01\x73", "\x01\x74", "\x01\x75", "\x01\x77", "\x01\x00", "\x05\x65\x01\x02\x03\x04", "\x02\x62\x01",
	"\x02\x62\x02", "\x02\x62\x03", "\x02\x62\x04", "\x03\x63\x02\x00", "\x01\x61", "\x01\x51", "\x01\x41", "\x01\x40",
	"\x01\x80", "\x02\xf0\x01", "\x03\x80\x03""C", "\x09\x69\x01\x02\x03\x04\x05\x06\x07\x08", "\x09\x59\x81\x02\x03\x04\x05\x06\x07\x08",
	"\x0a\x6a\x01\x02\x03\x04\x05\x06\x07\x08\x09", "\x01\x12", "\x01\x0f", "\x01\x6f", "\x06\x65\x00\x00\x07\x01\x77", "\x03\x80\x02\x01", "\x02\x97\x01", "\x01\xff"};
static const int NTOK = sizeof(tokens) / sizeof(*tokens);
static std::string tok(int i) { return std::string(tokens[i] + 1, (unsigned char)tokens[i][0]); }

int main(int argc, char **argv) {
	return mc::main(argc, argv, "C24", [] {
		nparsers();
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("bytes", "every parser on every input of up to 2 bytes (thorough: 3), preceded by nothing or 3 bytes", o, [] {
			int p = choose(nparsers()), n = choose(mc::tier ? 4 : 3), pre = choose(2);
			std::string s;
			for (int i = 0; i < n; i++)
				s += (char)choose(256);
			check(p, pre ? std::string("\x7f\x01\x62", 3) : "", s);
		});
		mc::scenario("tokens", "every parser on every sequence of up to 4 (thorough: 6) of 36 tokens, as long as the decoder needs more", o, [] {
			int p = choose(nparsers()), depth = mc::tier ? 6 : 4;
			std::string s;
			for (int i = 0; i < depth; i++) {
				int c = choose(NTOK + 1);
				if (!c)
					break;
				s += tok(c - 1);
				Dec d(s);
				if (p < (int)K.size())
					decode(d, K[p]);
				else {
					std::string x = "\x72\x65";
					for (int j = 3; j >= 0; j--)
						x += (char)(bodies[p - K.size()].tag >> (8 * j));
					x += s;
					Dec e(x);
					decode(e, BODY);
					d.err = e.err;
					d.eof = e.eof;
				}
				if (!d.err || !d.eof)
					break; // complete, or refused: what follows is not looked at
			}
			check(p, "", s);
		});
		mc::scenario("cut", "every parser on valid elements in 6 variants, cut off after every byte, alone or followed by 2 bytes, preceded by nothing or 5 bytes", o, [] {
			int p = choose(nparsers()), v = choose(6), pre = choose(2);
			std::string e;
			emit(wire(p, v), e);
			int cut = choose((int)e.size() + 2);
			std::string s = (size_t)cut <= e.size() ? e.substr(0, cut) : e + "\x01\x76";
			check(p, pre ? std::string("\x00\x01\x62\x00\x71", 5) : "", s);
		});
		mc::scenario("shortened", "every parser on valid elements in 2 variants of which any list ends early after any number of its elements (counted as before or as it is), the last of them as it was or replaced in 12 ways; ending with the buffer, or followed by 3 bytes", o, [] {
			int p = choose(nparsers()), v = choose(2), tail = choose(2);
			W w = wire(p, v);
			if (!w.list || w.kids.empty() || !shorten(w))
				return mc::discard();
			std::string e;
			emit(w, e);
			check(p, "", tail ? e + "\x01\x01\x62" : e);
		});
		mc::scenario("inserted", "every parser on valid elements in 6 variants with an element that does not belong there (18 forms, counted or not) inserted at every place of every list; ending with the buffer, or followed by 3 bytes", o, [] {
			int p = choose(nparsers()), v = choose(6), tail = choose(2);
			W w = wire(p, v);
			if (!w.list || !insert(w))
				return mc::discard();
			std::string e;
			emit(w, e);
			check(p, "", tail ? e + "\x01\x01\x62" : e);
		});
		mc::scenario("replaced", "every parser on valid elements in 2 variants of which any element is replaced by one of every type (also undefined ones) with 0 to 9 bytes of contents or absent elements, with and without a superfluous header byte; ending with the buffer, or followed by 3 bytes", o, [] {
			int p = choose(nparsers()), v = choose(2), tail = choose(2);
			W w = wire(p, v);
			if (!replace(w))
				return mc::discard();
			std::string e;
			emit(w, e);
			check(p, "", tail ? e + "\x01\x01\x62" : e);
		});
		mc::scenario("long-headers", "every parser on valid elements in 2 variants of which any element has 1 to 40, 254 to 258 or 1000 superfluous header bytes; ending with the buffer, or followed by 3 bytes", o, [] {
			static const int more[] = {254, 255, 256, 257, 258, 1000};
			int p = choose(nparsers()), v = choose(2), tail = choose(2);
			W w = wire(p, v);
			int e = choose(countW(w)), x = choose(46), n = 0;
			walk(w, [&](W &k, W *, int) {
				if (n++ == e)
					k.tlx = x < 40 ? x + 1 : more[x - 40];
			});
			std::string b;
			emit(w, b);
			check(p, "", tail ? b + "\x01\x01\x62" : b);
		});
		o.budget = mc::tier ? 2 : 1;
		mc::scenario("mutated", "every parser on valid elements in 3 variants (thorough: 1) with up to `budget` of 45 structural mutations at every place, ending with the element or followed by 2 bytes", o, [] {
			int p = choose(nparsers()), v = choose(mc::tier ? 1 : 3), tail = choose(2);
			W w = wire(p, v);
			if (!mutations(w))
				return mc::discard();
			std::string e;
			emit(w, e);
			check(p, "", tail ? e + "\x01\x01" : e);
		});
		mc::scenario("valid", "every parser on generated elements with up to `budget` deviating values or encodings, ending with the buffer or followed by bytes", o, [] {
			int p = choose((int)K.size()), tail = choose(2), v = choose(2);
			Gen g;
			Node n;
			if (K[p] == BODY)
				n = g.message(tags[choose(14)], v).c[3];
			else
				n = g.gen(K[p], v);
			EncMC e;
			std::string s;
			if (n.null && (K[p] >= VLE && K[p] != OBJL))
				return mc::discard();
			emit(lower(n, e), s);
			check(p, "", tail ? s + std::string("\x01\x00\x62", 3) : s);
		});
	});
}
