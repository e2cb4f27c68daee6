#include "common.hpp"
#include <sml/sml_list.h>
#include <sml/sml_tree.h>
// C22: containers keep every element, in order, at any count
static std::vector<int> freed;
static void myfree(void *p) {
	mc::NoLib nl;
	int i = *(int *)p;
	if (i < 0 || i >= (int)freed.size())
		mc::fail("freed an element that was not added (%d)", i);
	freed[i]++;
	free(p);
}
static void *mkint(int i) {
	int *p = (int *)malloc(sizeof(int));
	*p = i;
	return p;
}
#ifdef BIG // without sanitizer: its realloc always copies
static const int bigcounts[] = {511, 1025, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000, 200000};
static int pickcount(int small) {
	(void)small;
	return bigcounts[choose(mc::tier ? 13 : 11)];
}
#else
static const int bigcounts[] = {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097};
static int pickcount(int small) {
	int i = choose(small + 1 + (int)(sizeof bigcounts / sizeof *bigcounts));
	return i <= small ? i : bigcounts[i - small - 1];
}
#endif
static std::string nth(int i) { return std::string((char *)&i, 3); }
static bool is(octet_string *o, int i) { return o && o->len == 3 && !memcmp(o->str, nth(i).data(), 3); }
static octet_string *mk(int i) { return LIB(sml_octet_string_init((unsigned char *)nth(i).data(), 3)); }
static void done(const char *what, int n, int more) {
	leakcheck(what, mc::strf("%d elements", n));
	mc::outcome(mc::hash(mc::strf("%s %d %d", what, n, more)));
	mc::validated(n + more);
	mc::transition(n + more);
	if (mc::want_note())
		mc::note(mc::strf("%s of %d + %d", what, n, more));
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C22", [] {
		mc::Opt o;
		o.exec_timeout = 100;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("sequence", "sequences of every count up to 300 and selected ones (see BIG: up to 70000 without sanitizer, thorough 200000; else up to 4097), checked after each addition (up to 300)", o, [] {
			int n = pickcount(300);
			mc::track_reset();
			freed.assign(n, 0);
			sml_sequence *s = LIB(sml_sequence_init(myfree));
			if (s->elems_len != 0)
				mc::fail("a new sequence has %d elements", s->elems_len);
			for (int i = 0; i < n; i++) {
				LIB(sml_sequence_add(s, mkint(i)));
				if (s->elems_len != i + 1)
					mc::fail("after %d additions the sequence has %d elements", i + 1, s->elems_len);
				if (n <= 300)
					for (int j = 0; j <= i; j++)
						if (*(int *)s->elems[j] != j)
							mc::fail("element %d of %d is %d", j, i + 1, *(int *)s->elems[j]);
			}
			for (int j = 0; j < n; j++)
				if (*(int *)s->elems[j] != j)
					mc::fail("element %d of %d is %d", j, n, *(int *)s->elems[j]);
			LIB(sml_sequence_free(s));
			for (int j = 0; j < n; j++)
				if (freed[j] != 1)
					mc::fail("element %d of %d was freed %d times", j, n, freed[j]);
			done("sequence", n, 0);
		});
		mc::scenario("path", "tree paths built, and parsed then extended", o, [] {
			int n = pickcount(300), add = choose(3), viaparse = choose(2);
			mc::track_reset();
			sml_tree_path *p;
			if (viaparse) {
				std::string b = tl(0x70, n);
				for (int i = 0; i < n; i++)
					b += tl(0, 3) + nth(i);
				Exact e(b);
				sml_buffer buf = {e.p, e.n, 0, 0, 0};
				p = LIB(sml_tree_path_parse(&buf));
				if (!p || buf.error || buf.cursor != b.size())
					mc::fail("a path of %d entries is not parsed", n);
			} else {
				p = LIB(sml_tree_path_init());
				for (int i = 0; i < n; i++) {
					LIB(sml_tree_path_add_path_entry(p, mk(i)));
					if (p->path_entries_len != i + 1)
						mc::fail("after %d additions the path has %d entries", i + 1, p->path_entries_len);
				}
			}
			for (int i = 0; i < add; i++)
				LIB(sml_tree_path_add_path_entry(p, mk(n + i)));
			if (p->path_entries_len != n + add)
				mc::fail("path of %d + %d entries reports %d", n, add, p->path_entries_len);
			for (int i = 0; i < n + add; i++)
				if (!is(p->path_entries[i], i))
					mc::fail("entry %d of %d is wrong", i, n + add);
			LIB(sml_tree_path_free(p));
			done("path", n, add);
		});
		mc::scenario("tree", "trees with that many children, built, and parsed then extended", o, [] {
			int n = pickcount(300), add = choose(3), viaparse = choose(2);
			mc::track_reset();
			sml_tree *t;
			if (viaparse) {
				std::string b = std::string("\x73\x02r\x01", 4) + (n ? tl(0x70, n) : "\x01");
				for (int i = 0; i < n; i++)
					b += "\x73" + tl(0, 3) + nth(i) + "\x01\x01";
				Exact e(b);
				sml_buffer buf = {e.p, e.n, 0, 0, 0};
				t = LIB(sml_tree_parse(&buf));
				if (!t || buf.error || buf.cursor != b.size())
					mc::fail("a tree of %d children is not parsed", n);
			} else {
				t = LIB(sml_tree_init());
				for (int i = 0; i < n; i++) {
					sml_tree *c = LIB(sml_tree_init());
					c->parameter_name = mk(i);
					LIB(sml_tree_add_tree(t, c));
					if (t->child_list_len != i + 1)
						mc::fail("after %d additions the tree has %d children", i + 1, t->child_list_len);
				}
			}
			for (int i = 0; i < add; i++) {
				sml_tree *c = LIB(sml_tree_init());
				c->parameter_name = mk(n + i);
				LIB(sml_tree_add_tree(t, c));
			}
			if (t->child_list_len != n + add)
				mc::fail("tree of %d + %d children reports %d", n, add, t->child_list_len);
			for (int i = 0; i < n + add; i++)
				if (!t->child_list[i] || !is(t->child_list[i]->parameter_name, i))
					mc::fail("child %d of %d is wrong", i, n + add);
			LIB(sml_tree_free(t));
			done("tree", n, add);
		});
		mc::scenario("absent", "trees and paths parsed from up to 8 children or entries (also nested) of which any are absent, then extended: exactly the present ones are there, in order", o, [] {
			int n = choose(9), add = choose(2), kind = choose(3);
			unsigned mask = choose(1 << n);
			mc::track_reset();
			std::vector<int> want;
			std::string b = tl(0x70, n);
			for (int i = 0; i < n; i++)
				if (mask >> i & 1) {
					want.push_back(i);
					b += kind == 1 ? tl(0, 3) + nth(i) : "\x73" + tl(0, 3) + nth(i) + "\x01\x01";
				} else
					b += "\x01";
			if (kind != 1)
				b = std::string("\x73\x02r\x01", 4) + b;
			if (kind == 2)
				b = std::string("\x73\x02s\x01\x73\x01", 6) + b + "\x01";
			Exact e(b);
			sml_buffer buf = {e.p, e.n, 0, 0, 0};
			void *top = LIB(kind == 1 ? (void *)sml_tree_path_parse(&buf) : (void *)sml_tree_parse(&buf));
			if (!top || buf.error || buf.cursor != b.size())
				mc::fail("a list with absent elements is not parsed: %s", mc::hex(b).c_str());
			if (kind == 1) {
				sml_tree_path *p = (sml_tree_path *)top;
				if (add) {
					LIB(sml_tree_path_add_path_entry(p, mk(99)));
					want.push_back(99);
				}
				if (p->path_entries_len != (int)want.size())
					mc::fail("path of %zu present entries reports %d: %s", want.size(), p->path_entries_len, mc::hex(b).c_str());
				for (size_t i = 0; i < want.size(); i++)
					if (!is(p->path_entries[i], want[i]))
						mc::fail("entry %zu of %zu is wrong: %s", i, want.size(), mc::hex(b).c_str());
				LIB(sml_tree_path_free(p));
			} else {
				sml_tree *t = (sml_tree *)top;
				if (kind == 2) {
					if (t->child_list_len != 1 || !t->child_list[0])
						mc::fail("tree with one present child of three reports %d: %s", t->child_list_len, mc::hex(b).c_str());
					t = t->child_list[0];
				}
				if (add) {
					sml_tree *c = LIB(sml_tree_init());
					c->parameter_name = mk(99);
					LIB(sml_tree_add_tree(t, c));
					want.push_back(99);
				}
				if (t->child_list_len != (int)want.size())
					mc::fail("tree of %zu present children reports %d: %s", want.size(), t->child_list_len, mc::hex(b).c_str());
				for (size_t i = 0; i < want.size(); i++)
					if (!t->child_list[i] || !is(t->child_list[i]->parameter_name, want[i]))
						mc::fail("child %zu of %zu is wrong: %s", i, want.size(), mc::hex(b).c_str());
				LIB(sml_tree_free((sml_tree *)top));
			}
			done("absent", n * 1000 + kind * 300 + (int)mask, add);
		});
		mc::scenario("list", "value lists chained, and parsed", o, [] {
			int n = pickcount(300), viaparse = choose(2);
			if (n == 0)
				return mc::discard();
#ifdef BIG
			if (n == 32767) // deep in the stack of whoever follows the chain by recursion
				n = 1500000;
#endif
			mc::track_reset();
			sml_list *l;
			if (viaparse) {
				std::string b = tl(0x70, n);
				for (int i = 0; i < n; i++)
					b += "\x77" + tl(0, 3) + nth(i) + std::string("\x01\x01\x01\x01\x01\x01", 6);
				Exact e(b);
				sml_buffer buf = {e.p, e.n, 0, 0, 0};
				l = LIB(sml_list_parse(&buf));
				if (!l || buf.error || buf.cursor != b.size())
					mc::fail("a list of %d entries is not parsed", n);
			} else {
				l = LIB(sml_list_init());
				l->obj_name = mk(0);
				sml_list *last = l;
				for (int i = 1; i < n; i++) {
					sml_list *x = LIB(sml_list_init());
					x->obj_name = mk(i);
					LIB(sml_list_add(last, x));
					last = x;
				}
			}
			int i = 0;
			for (sml_list *x = l; x; x = x->next, i++)
				if (!is(x->obj_name, i))
					mc::fail("entry %d of %d is wrong", i, n);
			if (i != n)
				mc::fail("a list of %d entries has %d", n, i);
			LIB(sml_list_free(l));
			done("list", n, 0);
		});
		mc::scenario("file", "files with that many messages, built, and parsed then extended", o, [] {
			int n = pickcount(300), add = choose(3), viaparse = choose(2);
			mc::track_reset();
			sml_file *f;
			auto m = [](int i) {
				Node x = samplemsg(0x201, 0);
				x.c[0] = oct(nth(i));
				x.c[3].c[0] = null(OCT);
				return x;
			};
			if (viaparse) {
				std::string b;
				for (int i = 0; i < n; i++)
					emit(lower(m(i)), b);
				Exact e(b);
				f = LIB(sml_file_parse(e.p, e.n));
			} else {
				f = LIB(sml_file_init());
				for (int i = 0; i < n; i++) {
					LIB(sml_file_add_message(f, (sml_message *)buildmsg(m(i))));
					if (f->messages_len != i + 1)
						mc::fail("after %d additions the file has %d messages", i + 1, f->messages_len);
				}
			}
			for (int i = 0; i < add; i++)
				LIB(sml_file_add_message(f, (sml_message *)buildmsg(m(n + i))));
			if (f->messages_len != n + add)
				mc::fail("file of %d + %d messages reports %d", n, add, f->messages_len);
			for (int i = 0; i < n + add; i++)
				if (!f->messages[i] || !is(f->messages[i]->transaction_id, i))
					mc::fail("message %d of %d is wrong", i, n + add);
			LIB(sml_file_free(f));
			done("file", n, add);
		});
		mc::scenario("parsed-sequences", "header, period, value and period-entry sequences parsed with every count up to 300 and selected ones (see BIG: up to 70000 without sanitizer, thorough 200000; else up to 4097)", o, [] {
			int kind = choose(4), n = pickcount(300);
			static const Kind ks[] = {HDRSEQ, PERSEQ, VENTSEQ, PSEQ};
			Kind k = ks[kind];
			mc::track_reset();
			std::string b = tl(0x70, n);
			auto el = [&](int i) {
				std::string name = tl(0, 3) + nth(i);
				switch (k) {
				case HDRSEQ: return "\x73" + name + "\x01\x01";
				case PERSEQ: return std::string("\x74\x01\x01\x70", 4) + name;
				case VENTSEQ: return std::string("\x72\x01") + name;
				default: return "\x75" + name + "\x01\x01\x01\x01";
				}
			};
			for (int i = 0; i < n; i++)
				b += el(i);
			Exact e(b);
			sml_buffer buf = {e.p, e.n, 0, 0, 0};
			sml_sequence *s = (sml_sequence *)LIB(parseany(k, &buf));
			if (!s || buf.error || buf.cursor != b.size() || s->elems_len != n)
				mc::fail("a sequence of %d is not parsed", n);
			Node x = extany(k, s);
			for (int i = 0; i < n; i++) {
				Dec d(b);
				std::string t = el(i);
				Dec dd(t);
				if (x.c[i] != decode(dd, elemkind(k)))
					mc::fail("element %d of %d is %s", i, n, dump(x.c[i]).c_str());
			}
			LIB(freeany(k, s));
			done(kindname[k], n, 0);
		});
		mc::scenario("in-messages", "each of the eight containers with every count up to 100 and selected ones (up to 65537, thorough 70000), in its place within a message, built (and written), or parsed (and written again)", o, [] {
			int kind = choose(8), n = pickcount(100), built = choose(2);
			if (n == 0 && (kind == 0 || kind == 6))
				return mc::discard();
			if (n > 70000 || (!mc::tier && n > 4097 && n != 32769 && n != 65537))
				return mc::discard();
			auto rep = [&](Kind k) {
				Node x = seq(k, {});
				x.c.reserve(n);
				for (int i = 0; i < n; i++)
					switch (elemkind(k)) {
					case OCT: x.c.push_back(oct(nth(i))); break;
					case VLE: x.c.push_back(list(VLE, {oct(nth(i)), null(STATUS), null(TIME), null(U8), null(I8), null(VALUE), null(OCT)})); break;
					case HDR: x.c.push_back(list(HDR, {oct(nth(i)), null(U8), null(I8)})); break;
					case PER: x.c.push_back(list(PER, {null(TIME), num(U64, (unsigned)i), seq(VENTSEQ, {}), null(OCT)})); break;
					case VENT: x.c.push_back(list(VENT, {null(VALUE), oct(nth(i))})); break;
					default: x.c.push_back(list(PERIOD, {oct(nth(i)), null(U8), null(I8), null(VALUE), null(OCT)}));
					}
				return x;
			};
			static const uint32_t tg[] = {0x701, 0x301, 0x301, 0x301, 0x401, 0x500, 0x300, 0x501};
			Node m = samplemsg(tg[kind], 0);
			Node &d = m.c[3];
			switch (kind) {
			case 0: d.c[4] = rep(VLIST); break;
			case 1: d.c[4] = rep(HDRSEQ); break;
			case 2: d.c[5] = rep(PERSEQ); break;
			case 3: d.c[5].c[0].c[2] = rep(VENTSEQ); break;
			case 4: d.c[6] = rep(PSEQ); break;
			case 5: d.c[3] = rep(PATH); break;
			case 6: d.c[7] = rep(OBJL); break;
			default: {
				Node t = tree("t", null(PPV), {});
				for (int i = 0; i < n; i++)
					t.c.push_back(tree(nth(i), null(PPV), {}));
				d.c[2] = t;
			}
			}
			std::string b;
			emit(lower(m), b);
			mc::track_reset();
			sml_file *f;
			if (built) {
				f = LIB(sml_file_init());
				LIB(sml_file_add_message(f, (sml_message *)buildmsg(m)));
			} else {
				Exact e(b);
				f = LIB(sml_file_parse(e.p, e.n));
			}
			for (int k = 0; k < 2; k++) {
				if (f->messages_len != 1 || !f->messages[0])
					mc::fail("%s: %d messages", built ? "built" : "parsed", f->messages_len);
				Node x = ext(f->messages[0]);
				if (x != m) {
					std::string g = dump(x), w = dump(m);
					size_t i = 0;
					while (i < g.size() && i < w.size() && g[i] == w[i])
						i++;
					i = i > 40 ? i - 40 : 0;
					mc::fail("container %d of %d elements, %s%s: has ..%.150s, expected ..%.150s", kind, n, built ? "built" : "parsed", k ? " and written" : "", g.c_str() + i, w.c_str() + i);
				}
				if (k == 0) {
					sml_buffer *o = LIB(sml_buffer_init(64));
					LIB(sml_message_write(f->messages[0], o));
					std::string got((char *)o->buffer, o->cursor);
					LIB(sml_buffer_free(o));
					if (got != b)
						mc::fail("container %d of %d elements, %s, is written as %zu bytes, expected %zu", kind, n, built ? "built" : "parsed", got.size(), b.size());
				}
			}
			LIB(sml_file_free(f));
			done("container in a message", n, kind);
		});
	});
}
