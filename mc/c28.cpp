#include "files.hpp"
#include "sweep.hpp"
#include <sys/mman.h>
#include <unistd.h>
// C28: objects own their data: nothing that happens to what they were made
// from, to what was made from them, or to their siblings reaches them
static void same(const Node &got, const Node &want, const std::string &what) {
	mc::transition();
	if (got != want)
		mc::fail("%s: it is now %.700s, it was %.700s", what.c_str(), dump(got).c_str(), dump(want).c_str());
}
// no two of the octets and numbers of the objects given share memory
template <class F> static void apart(const std::string &what, F visit) {
	Leaves l;
	leaflog = &l;
	visit();
	leaflog = 0;
	std::sort(l.begin(), l.end());
	for (size_t i = 1; i < l.size(); i++) {
		mc::transition();
		if (l[i - 1].first + l[i - 1].second > l[i].first)
			mc::fail("%s: two of their values share memory, changing one changes the other", what.c_str());
	}
}
static void visit(sml_message *m) {
	ext(m);
	if (m->crc)
		extnum(m->crc, U16);
	if (m->message_body && m->message_body->tag)
		extnum(m->message_body->tag, U32);
}
// the bytes an object was parsed from, overwritten and freed
struct Src {
	unsigned char *p;
	sml_buffer b;
	explicit Src(const std::string &s) : p((unsigned char *)malloc(s.size() + !s.size())), b{p, s.size(), 0, 0, 0} {
		if (s.size())
			memcpy(p, s.data(), s.size());
	}
	void spoil(int v) {
		memset(p, v, b.buffer_len);
	}
	~Src() { free(p); }
};
static std::vector<Kind> kinds() {
	static std::vector<Kind> K;
	if (K.empty())
		for (int k = 0; k < MSG; k++)
			if (hasparser((Kind)k) && k != BODY)
				K.push_back((Kind)k);
	return K;
}
static sml_message *parse1(sml_buffer *b) { return LIB(sml_message_parse(b)); }
// changes every octet and number it finds, in place
static void scribble(octet_string *o) {
	if (o)
		for (int i = 0; i < o->len; i++)
			o->str[i] ^= 0x55;
}
static void scribble(sml_list *l) {
	for (; l; l = l->next) {
		scribble(l->obj_name);
		scribble(l->value_signature);
		if (l->unit)
			*l->unit ^= 0x55;
		if (l->scaler)
			*l->scaler ^= 0x55;
		if (l->status && l->status->data.status8)
			*l->status->data.status8 ^= 0x55;
		if (l->val_time && l->val_time->data.timestamp)
			*l->val_time->data.timestamp ^= 0x55;
		if (l->val_time && l->val_time->tag)
			*l->val_time->tag ^= 0x55;
		if (l->value && l->value->type == SML_TYPE_OCTET_STRING)
			scribble(l->value->data.bytes);
		else if (l->value && l->value->type == SML_TYPE_BOOLEAN)
			*l->value->data.boolean ^= 0xff;
		else if (l->value && l->value->data.uint8)
			*l->value->data.uint8 ^= 0x55;
	}
}
static void scribble(sml_message *m) {
	scribble(m->transaction_id);
	if (m->group_id)
		*m->group_id ^= 0x55;
	if (m->abort_on_error)
		*m->abort_on_error ^= 0x55;
	if (m->crc)
		*m->crc ^= 0x55;
	if (*m->message_body->tag == SML_MESSAGE_GET_LIST_RESPONSE) {
		auto *b = (sml_get_list_response *)m->message_body->data;
		scribble(b->client_id);
		scribble(b->server_id);
		scribble(b->list_name);
		scribble(b->list_signature);
		scribble(b->val_list);
	}
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C28", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 900 : 60;
		o.budget = mc::tier ? 3 : 2;
		mc::scenario("source", "messages with every combination of four states of the fields of each structure and body (two deviations, thorough three, where there are more than seven fields): the bytes a message or file was parsed from are overwritten (with 00, ff or their complement) and freed before it is read and freed", o, [] {
			int how = choose(3), v = how == 0 ? choose(3) : 0;
			Node m = statemsg();
			if (mc::discarded())
				return;
			std::string b = encode(m);
			if (mc::want_note())
				mc::note(mc::hex(b, 300));
			mc::track_reset();
			Node want;
			if (how == 0) { // the caller's bytes, a file
				unsigned char *p = (unsigned char *)malloc(b.size());
				memcpy(p, b.data(), b.size());
				sml_file *f = LIB(sml_file_parse(p, b.size()));
				if (f->messages_len != 1)
					mc::fail("not parsed: %s", mc::hex(b, 700).c_str());
				want = ext(f->messages[0]);
				apart("a parsed message", [&] { visit(f->messages[0]); });
				f->buf->cursor = 0;
				LIB(sml_file_write(f));
				if (memcmp(p, b.data(), b.size()))
					mc::fail("writing the file changed the bytes it was parsed from");
				same(ext(f->messages[0]), want, "the file was written");
				for (size_t i = 0; i < b.size(); i++)
					p[i] = v == 0 ? 0 : v == 1 ? 0xff : ~p[i];
				same(ext(f->messages[0]), want, "the input of the file parser was overwritten");
				free(p);
				same(ext(f->messages[0]), want, "the input of the file parser was freed");
				if (v == 2) // and the working copy, as the next use of the buffer does
					memset(f->buf->buffer, 0xee, f->buf->buffer_len);
				same(ext(f->messages[0]), want, "the buffer of the file was overwritten");
				LIB(sml_file_free(f));
			} else if (how == 1) { // a message from a buffer
				auto s = new Src(b);
				sml_message *x = parse1(&s->b);
				if (!x)
					mc::fail("not parsed: %s", mc::hex(b, 700).c_str());
				want = ext(x);
				s->b.cursor = 0;
				sml_message *y = parse1(&s->b);
				apart("two messages parsed from the same bytes", [&] { visit(x); visit(y); });
				LIB(sml_message_free(y));
				s->spoil(0xee);
				same(ext(x), want, "the buffer of the message was overwritten");
				delete s;
				same(ext(x), want, "the buffer of the message was freed");
				LIB(sml_message_free(x));
			} else { // written, and the output overwritten
				sml_message *x = LIB(buildmsg(m));
				sml_buffer *out = LIB(sml_buffer_init(64));
				LIB(sml_message_write(x, out));
				want = ext(x);
				std::string w((char *)out->buffer, out->cursor);
				memset(out->buffer, 0xee, out->buffer_len);
				same(ext(x), want, "what was written of the message was overwritten");
				LIB(sml_buffer_free(out));
				same(ext(x), want, "what was written of the message was freed");
				out = LIB(sml_buffer_init(64));
				LIB(sml_message_write(x, out));
				LIB(sml_message_free(x));
				if (std::string((char *)out->buffer, out->cursor) != w)
					mc::fail("the bytes written changed after the message was freed: %s, expected %s", mc::hex((char *)out->buffer, out->cursor).c_str(), mc::hex(w).c_str());
				LIB(sml_buffer_free(out));
			}
			leakcheck("all", b);
			mc::outcome(b + (char)how + (char)v);
			mc::validated();
		});
		o.budget = mc::tier ? 2 : 1;
		mc::scenario("elements", "every element parser on elements with up to `budget` deviations in value and encoding: two objects parsed from the same bytes, the bytes overwritten and freed, either freed first", o, [] {
			auto K = kinds();
			Kind k = K[choose((int)K.size())];
			int order = choose(2);
			Gen g;
			Node n = g.gen(k, 1);
			EncMC e;
			std::string b;
			emit(lower(n, e), b);
			if (mc::want_note())
				mc::note(mc::hex(b, 300));
			mc::track_reset();
			auto s = new Src(b);
			void *x = LIB(parseany(k, &s->b));
			s->b.cursor = 0;
			void *y = LIB(parseany(k, &s->b));
			if (s->b.error) { // not an element this parser takes
				delete s;
				return mc::discard();
			}
			Node want = extany(k, x);
			same(extany(k, y), want, "parsed a second time");
			apart("two elements parsed from the same bytes", [&] { extany(k, x); extany(k, y); });
			s->spoil(0xee);
			delete s;
			same(extany(k, x), want, "its buffer is gone");
			same(extany(k, y), want, "its buffer is gone");
			if (x && x == y)
				mc::fail("two %s parsed are one object", kindname[k]);
			LIB(freeany(k, order ? x : y));
			same(extany(k, order ? y : x), want, "the other object is freed");
			LIB(freeany(k, order ? y : x));
			leakcheck("parsing twice", b);
			mc::outcome(b + (char)k);
			mc::validated();
		});
		o.budget = 0;
		mc::scenario("changed", "two value lists parsed from the same or different bytes (with one leaf set to every value of its sweep) or built: every octet, number and boolean of one is changed in place, the other stays as it is", o, [] {
			int how = choose(3);
			Node m = compact(0x701, 0);
			m.c[3].c[4] = seq(VLIST, {sample(VLE, 0), sample(VLE, 1)});
			if (!sweepleaf(m, mc::tier ? 1 : 3))
				return;
			std::string b = encode(m);
			mc::track_reset();
			sml_message *x, *y;
			if (how < 2) {
				Src s(b), u(how ? encode(m) : "");
				x = parse1(&s.b);
				s.b.cursor = 0;
				y = parse1(how ? &u.b : &s.b);
			} else {
				x = LIB(buildmsg(m));
				y = LIB(buildmsg(m));
			}
			if (!x || !y)
				mc::fail("not parsed: %s", mc::hex(b, 700).c_str());
			Node want = ext(y), old = ext(x);
			apart("two messages", [&] { visit(x); visit(y); });
			scribble(x);
			same(ext(y), want, "another object was changed");
			LIB(sml_message_free(x));
			same(ext(y), want, "another object was freed");
			// a later one is not affected by what was done to the first
			Src s(b);
			x = parse1(&s.b);
			if (how < 2)
				same(ext(x), old, "parsed after an object made from the same bytes was changed");
			LIB(sml_message_free(x));
			LIB(sml_message_free(y));
			leakcheck("all", b);
			mc::outcome(b + (char)how);
			mc::validated();
		});
		mc::scenario("init", "octet strings made from bytes or hex digits of every length up to 300 and numbers of every width, and booleans: what they were made from is overwritten and freed; texts made of them outlive them and each other", o, [] {
			int op = choose(6), n = choose(op == 5 ? 2 : 301);
			mc::track_reset();
			std::string s = bytes_of(n, n);
			if (op == 0) {
				octet_string *x;
				{
					Exact e(s);
					x = LIB(sml_octet_string_init(e.p, n));
					memset(e.p, 0xee, n);
				}
				same(ext(x), oct(s), "its source is gone");
				LIB(sml_octet_string_free(x));
			} else if (op == 1) {
				octet_string *x, *y;
				{
					std::string h;
					for (char c : s)
						h += mc::strf("%02x", (unsigned char)c);
					Exact e(h + std::string(1, 0));
					x = LIB(sml_octet_string_init_from_hex((char *)e.p));
					y = LIB(sml_octet_string_init_from_hex((char *)e.p));
					if (LIB(sml_octet_string_cmp_with_hex(x, (char *)e.p)))
						mc::fail("%s differs from its own digits", h.c_str());
					if (memcmp(e.p, h.data(), h.size()))
						mc::fail("the digits are changed");
					memset(e.p, 'e', h.size());
				}
				same(ext(x), oct(s), "its digits are gone");
				scribble(x);
				same(ext(y), oct(s), "another string was changed");
				LIB(sml_octet_string_free(x));
				same(ext(y), oct(s), "another string was freed");
				LIB(sml_octet_string_free(y));
			} else if (op == 2) {
				sml_value *v = LIB(sml_value_init());
				v->data.bytes = LIB(sml_octet_string_init((unsigned char *)s.data(), n));
				char *a = 0, *b = 0, *c = 0;
				LIB(sml_value_to_strhex(v, &a, false));
				LIB(sml_value_to_strhex(v, &b, true));
				std::string sa = a ? a : "", sb = b ? b : "";
				LIB(sml_value_to_strhex(v, &c, false));
				if (a)
					memset(a, '#', strlen(a));
				if ((c ? c : "") != sa || (b ? b : "") != sb)
					mc::fail("the text of %s is changed with another", mc::hex(s).c_str());
				same(ext(v), voct(s), "a text made of it was changed");
				LIB(sml_value_free(v));
				if ((c ? c : "") != sa || (b ? b : "") != sb)
					mc::fail("the text of %s is changed with the value", mc::hex(s).c_str());
				mc::Lib l;
				free(a);
				free(b);
				free(c);
			} else if (op == 4) { // two from the same bytes, also of a single value
				if (n % 2)
					s.assign(n, (char)n);
				octet_string *x = LIB(sml_octet_string_init((unsigned char *)s.data(), n)), *y = LIB(sml_octet_string_init((unsigned char *)s.data(), n));
				apart("two octet strings", [&] { ext(x); ext(y); });
				scribble(x);
				same(ext(y), oct(s), "another string was changed");
				LIB(sml_octet_string_free(y));
				y = LIB(sml_octet_string_init((unsigned char *)s.data(), n));
				same(ext(y), oct(s), "another string was changed before");
				LIB(sml_octet_string_free(x));
				same(ext(y), oct(s), "another string was freed");
				LIB(sml_octet_string_free(y));
			} else if (op == 5) {
				n = n ? SML_BOOLEAN_TRUE : SML_BOOLEAN_FALSE;
				sml_boolean *x = LIB(sml_boolean_init(n)), *y = LIB(sml_boolean_init(n));
				apart("two booleans", [&] { extbool(x); extbool(y); });
				*x = n == SML_BOOLEAN_TRUE ? SML_BOOLEAN_FALSE : SML_BOOLEAN_TRUE;
				if (*y != n)
					mc::fail("a boolean became %d when another one was changed from %d", *y, n);
				sml_boolean *z = LIB(sml_boolean_init(n));
				if (*z != n)
					mc::fail("a boolean made of %d is %d", n, *z);
				LIB(sml_boolean_free(x));
				if (*y != n)
					mc::fail("a boolean became %d when another one was freed", *y);
				LIB(sml_boolean_free(y));
				LIB(sml_boolean_free(z));
			} else {
				static const Kind ks[] = {U8, U16, U32, U64, I8, I16, I32, I64};
				Kind k = ks[n % 8];
				uint64_t v = 0x8182838485868788ull * (n / 8 + 1);
				void *x = LIB(sml_number_init(v, numsigned(k) ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, numwidth(k)));
				void *y = LIB(sml_number_init(v, numsigned(k) ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, numwidth(k)));
				Node want = num(k, fold(v, numsigned(k), numwidth(k)));
				same(extnum(x, k), want, "a number was made");
				memset(x, 0xee, numwidth(k));
				same(extnum(y, k), want, "another number was changed");
				LIB(sml_number_free(x));
				same(extnum(y, k), want, "another number was freed");
				LIB(sml_number_free(y));
			}
			leakcheck("all", s);
			mc::outcome(mc::hash(mc::strf("init %d %d", op, n)));
			mc::validated();
		});
		mc::scenario("large", "octet strings of 26 lengths from 15 to 70000 (thorough 26 up to 3 MB) in each of 8 places of a message, alone or behind other messages (0, 1, 40 or 1000 of them): the input, and the file's own buffer, overwritten and freed after parsing; the output overwritten and freed after writing", o, [] {
			static const int len[] = {15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 240, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4093, 4095, 4096, 16384, 65535, 65536, 70000, 262144, 1 << 20, 3000000};
			int n = len[choose(mc::tier ? 29 : 26)], place = choose(8), how = choose(2);
			static const int before[] = {0, 1, 40, 1000};
			int k = before[choose(4)];
			Node x = oct(bytes_of(n, n)), m;
			switch (place) {
			case 0: m = compact(0x101, 0); m.c[0] = x; break;
			case 1: m = msg("t", 0x201, {x}); break;
			case 2: m = compact(0x701, 0); m.c[3].c[5] = x; break;
			case 3: m = compact(0x701, 0); m.c[3].c[4].c[0].c[5] = voct(x.s); break;
			case 4: m = compact(0x701, 0); m.c[3].c[4].c[0].c[6] = x; break;
			case 5: m = compact(0x301, 0); m.c[3].c[6] = x; break;
			case 6: m = compact(0x501, 0); m.c[3].c[1] = seq(PATH, {x, oct("a"), x}); break;
			default: m = compact(0xff01, 0); m.c[3].c[3] = tree("t", ppv(1, voct(x.s)), {tree(x.s, null(PPV), {})}); break;
			}
			std::vector<Node> ms(k, compact(0x701, 1));
			ms.push_back(m);
			std::string b = encodeall(ms);
			mc::track_reset();
			if (how == 0) {
				unsigned char *p = (unsigned char *)malloc(b.size());
				memcpy(p, b.data(), b.size());
				sml_file *f = LIB(sml_file_parse(p, b.size()));
				memset(p, 0xee, b.size());
				if (f->messages_len != k + 1)
					mc::fail("%d messages of %d", f->messages_len, k + 1);
				same(ext(f->messages[k]), m, "the input of the file parser was overwritten");
				free(p);
				memset(f->buf->buffer, 0xee, f->buf->buffer_len);
				expect(ext(f), ms, b, "the buffer of the file was overwritten");
				LIB(sml_buffer_free(f->buf));
				f->buf = 0;
				expect(ext(f), ms, b, "the buffer of the file was freed");
				apart("a message", [&] { visit(f->messages[k]); });
				LIB(sml_file_free(f));
			} else {
				sml_file *f = fl::built(ms);
				LIB(sml_file_write(f));
				std::string w((char *)f->buf->buffer, f->buf->cursor);
				memset(f->buf->buffer, 0xee, f->buf->buffer_len);
				expect(ext(f), ms, b, "what was written was overwritten");
				f->buf->cursor = 0;
				LIB(sml_file_write(f));
				if (w != std::string((char *)f->buf->buffer, f->buf->cursor))
					mc::fail("written differently the second time");
				sml_buffer *x = f->buf;
				f->buf = 0;
				LIB(sml_file_free(f));
				if (w != std::string((char *)x->buffer, x->cursor))
					mc::fail("what was written changed after the file was freed");
				LIB(sml_buffer_free(x));
			}
			leakcheck("all", mc::strf("%d", n));
			mc::outcome(mc::hash(mc::strf("large %d %d %d %d", n, place, how, k)));
			mc::validated();
		});
		mc::scenario("many", "up to 3000 (thorough 30000) objects of 7 kinds (octet strings made from bytes, from digits and parsed, numbers, booleans, messages, values of a list), equal, or all different, alive at once: no two share memory; every other one changed and freed, new ones made, the rest are as they were", o, [] {
			static const int cnt[] = {2, 3, 17, 300, 3000, 30000};
			int n = cnt[choose(mc::tier ? 6 : 5)], kind = choose(7), eq = choose(3);
			mc::track_reset();
			auto text = [&](int i) { return eq == 0 ? std::string("same") : eq == 1 ? mc::strf("%d", i) : std::string(1 + i % 64, (char)i); };
			auto make = [&](int i) -> void * {
				std::string s = text(i);
				switch (kind) {
				case 0: return LIB(sml_octet_string_init((unsigned char *)s.data(), (int)s.size()));
				case 1: {
					std::string h;
					for (char c : s)
						h += mc::strf("%02x", (unsigned char)c);
					return LIB(sml_octet_string_init_from_hex((char *)h.c_str()));
				}
				case 2: {
					std::string e = tl(0, s.size()) + s;
					Src b(e);
					return LIB(sml_octet_string_parse(&b.b));
				}
				case 3: return LIB(sml_number_init(eq ? i : 7, SML_TYPE_UNSIGNED, 4));
				case 4: return LIB(sml_boolean_init(eq && i & 1 ? SML_BOOLEAN_TRUE : SML_BOOLEAN_FALSE));
				case 5: return LIB(sml_message_init());
				default: {
					Node v = voct(s);
					std::string e;
					emit(lower(v), e);
					Src b(e);
					return LIB(sml_value_parse(&b.b));
				}
				}
			};
			auto is = [&](void *p, int) {
				return kind < 3 ? ext((octet_string *)p) : kind == 3 ? extnum(p, U32) : kind == 4 ? extbool((sml_boolean *)p) : kind == 5 ? ext(((sml_message *)p)->transaction_id) : ext((sml_value *)p);
			};
			auto drop = [&](void *p) {
				if (kind < 3)
					scribble((octet_string *)p), LIB(sml_octet_string_free((octet_string *)p));
				else if (kind == 3)
					*(u32 *)p ^= 0x5555, LIB(sml_number_free(p));
				else if (kind == 4)
					*(sml_boolean *)p ^= 0xff, LIB(sml_boolean_free((sml_boolean *)p));
				else if (kind == 5)
					scribble(((sml_message *)p)->transaction_id), LIB(sml_message_free((sml_message *)p));
				else
					scribble(((sml_value *)p)->data.bytes), LIB(sml_value_free((sml_value *)p));
			};
			std::vector<void *> v;
			std::vector<Node> w;
			for (int i = 0; i < n; i++) {
				v.push_back(make(i));
				w.push_back(is(v[i], i));
				if (kind != 5 && w[i] != (kind < 3 ? oct(text(i)) : kind == 3 ? num(U32, eq ? i : 7) : kind == 4 ? boolean(eq && i & 1) : voct(text(i))))
					mc::fail("number %d is %s", i, dump(w[i]).c_str());
			}
			apart("objects alive together", [&] { for (int i = 0; i < n; i++) is(v[i], i); });
			for (int i = 0; i < n; i += 2)
				drop(v[i]);
			for (int i = 1; i < n; i += 2)
				same(is(v[i], i), w[i], "others were changed and freed");
			for (int i = 0; i < n; i += 2) {
				v[i] = make(i);
				if (kind != 5)
					same(is(v[i], i), w[i], "made anew");
				else
					w[i] = is(v[i], i);
			}
			apart("objects alive together", [&] { for (int i = 0; i < n; i++) is(v[i], i); });
			for (int i = 0; i < n; i++) {
				same(is(v[i], i), w[i], "others were made and freed");
				drop(v[i]);
			}
			leakcheck("all", "many");
			mc::outcome(mc::hash(mc::strf("many %d %d %d", n, kind, eq)));
			mc::validated(n);
		});
		mc::scenario("listener", "1 to 6 frames of 3 kinds in every order read by one call of the listener, which parses each and keeps the files: they are as parsed when all frames have been read and the listener has returned", o, [] {
			int n = 1 + choose(6);
			static const uint32_t ks[] = {0x701, 0x501, 0x301};
			static std::vector<sml_file *> kept;
			kept.clear();
			std::vector<std::vector<Node>> ms;
			std::string s;
			for (int i = 0; i < n; i++) {
				ms.push_back({compact(ks[choose(3)], i), compact(0x201, i)});
				s += fl::frameof(ms[i]);
			}
			mc::track_reset();
			int fd = memfd_create("mc", 0);
			if (write(fd, s.data(), s.size()) != (ssize_t)s.size() || lseek(fd, 0, SEEK_SET))
				abort();
			LIB(sml_transport_listen(fd, [](unsigned char *b, size_t l) {
				kept.push_back(sml_file_parse(b + 8, l - 16));
				memset(b, 0xee, l);
			}));
			close(fd);
			if ((int)kept.size() != n)
				mc::fail("%zu frames of %d", kept.size(), n);
			for (int i = 0; i < n; i++)
				expect(ext(kept[i]), ms[i], s, "all frames were read");
			for (int i = 0; i < n; i++) {
				LIB(sml_file_free(kept[i]));
				for (int j = i + 1; j < n; j++)
					expect(ext(kept[j]), ms[j], s, "the file of another frame was freed");
			}
			leakcheck("all", s);
			mc::outcome(s);
			mc::validated(n);
		});
		mc::scenario("files", "files of up to 5 messages of 3 kinds: any of them taken out and put into another file, the first file freed, or the second, before the other is read, written and freed", o, [] {
			int n = 1 + choose(5), first = choose(2), par = choose(2);
			unsigned mask = choose(1 << n);
			static const uint32_t ks[] = {0x701, 0x501, 0x301};
			std::vector<Node> ms, a, b;
			for (int i = 0; i < n; i++) {
				ms.push_back(compact(ks[i % 3], i));
				(mask >> i & 1 ? b : a).push_back(ms[i]);
			}
			mc::track_reset();
			sml_file *f = par ? fl::parsed(encodeall(ms)) : fl::built(ms), *g = LIB(sml_file_init());
			if (f->messages_len != n)
				mc::fail("%d messages", f->messages_len);
			int j = 0;
			for (int i = 0; i < n; i++)
				if (mask >> i & 1)
					LIB(sml_file_add_message(g, f->messages[i]));
				else
					f->messages[j++] = f->messages[i];
			f->messages_len = j;
			LIB(sml_file_free(first ? f : g));
			sml_file *h = first ? g : f;
			expect(ext(h), first ? b : a, encodeall(ms), "the other file was freed");
			h->buf->cursor = 0;
			LIB(sml_file_write(h));
			if (std::string((char *)h->buf->buffer, h->buf->cursor) != encodeall(first ? b : a))
				mc::fail("written wrongly after the other file was freed");
			LIB(sml_file_free(h));
			leakcheck("two files", encodeall(ms));
			mc::outcome(mc::hash(mc::strf("files %d %d %d %u", n, first, par, mask)));
			mc::validated(n);
		});
	});
}
