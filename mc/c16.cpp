#include "files.hpp"
#include "sweep.hpp"
// C16: any history of building, writing, parsing and freeing is leak-free
static int FD = -1;
static Node mkmsg(int k, int v) {
	static const uint32_t t[] = {0x701, 0x501, 0x301, 0x201, 0x401, 0x300, 0xff01};
	return compact(t[k], v);
}
struct Hist {
	sml_file *f = 0;
	std::vector<Node> vals;
	std::string log;
	void same(const char *op) {
		std::vector<Node> now = ext(f);
		if (now != vals)
			mc::fail("%s: the file holds %.900s, expected %.900s", log.c_str(), dumpall(now).c_str(), dumpall(vals).c_str());
		mc::transition();
	}
	static octet_string *os(const char *s) { return LIB(sml_octet_string_init((unsigned char *)s, (int)strlen(s))); }
	bool op(int o, int step) {
		switch (o) {
		case 0: case 1: case 2: { // add a message
			log += " add";
			Node m = mkmsg(o, step);
			LIB(sml_file_add_message(f, LIB(buildmsg(m))));
			vals.push_back(m);
			break;
		}
		case 3: {
			log += " write";
			f->buf->cursor = 0;
			LIB(sml_file_write(f));
			std::string w((char *)f->buf->buffer, f->buf->cursor), e = encodeall(fl::norm(vals));
			if (w != e)
				mc::fail("%s: written %s, expected %s", log.c_str(), mc::hex(w, 900).c_str(), mc::hex(e, 900).c_str());
			break;
		}
		case 4: {
			log += " transport-write";
			if (FD < 0)
				FD = io::pipefd();
			io::out = io::Out();
			io::out.fd = FD;
			io::out.policy = io::CAP;
			io::out.cap = step & 1 ? 7 : 1 << 20;
			LIB(sml_transport_write(FD, f));
			break;
		}
		case 5: { // continue with what is parsed from the encoding, damaged behind its end
			log += " reparse";
			f->buf->cursor = 0;
			LIB(sml_file_write(f));
			std::string w((char *)f->buf->buffer, f->buf->cursor);
			if (step & 1)
				w += "\x76\x02\x41\x62";
			LIB(sml_file_free(f));
			f = fl::parsed(w);
			vals = fl::norm(vals);
			break;
		}
		case 6: { // parse something damaged and drop it
			log += " parse-damaged";
			std::string w = encodeall(fl::norm(vals)) + encode(mkmsg(step % 3, step));
			w[w.size() - 7] ^= 0x70;
			sml_file *g = fl::parsed(w);
			LIB(sml_file_free(g));
			g = fl::parsed(w.substr(0, w.size() / 2));
			LIB(sml_file_free(g));
			break;
		}
		case 7: { // replace fields of the last message
			if (vals.empty())
				return false;
			log += " replace";
			sml_message *m = f->messages[f->messages_len - 1];
			LIB(sml_octet_string_free(m->transaction_id));
			m->transaction_id = os("newid");
			LIB(sml_number_free(m->group_id));
			m->group_id = LIB(sml_u8_init(200));
			vals.back().c[0] = oct("newid");
			vals.back().c[1] = num(U8, 200);
			break;
		}
		case 8: { // extend the containers of the last message
			if (vals.empty())
				return false;
			log += " extend";
			sml_message *m = f->messages[f->messages_len - 1];
			Node &b = vals.back().c[3];
			if (b.n == 0x701) {
				auto *d = (sml_get_list_response *)m->message_body->data;
				Node e = vle("ext", vint(true, (uint64_t)-step, 8));
				sml_list *l = d->val_list;
				while (l->next)
					l = l->next;
				LIB(sml_list_add(l, (sml_list *)LIB(build(e))));
				b.c[4].c.push_back(e);
			} else if (b.n == 0x501) {
				auto *d = (sml_get_proc_parameter_response *)m->message_body->data;
				Node t = tree("ext", null(PPV), {tree("x", ppv(1, vbool(true)), {})});
				LIB(sml_tree_add_tree(d->parameter_tree, (sml_tree *)LIB(build(t))));
				LIB(sml_tree_path_add_path_entry(d->parameter_tree_path, os("ext")));
				b.c[2].c.push_back(t);
				b.c[1].c.push_back(oct("ext"));
			} else if (b.n == 0x301) {
				auto *d = (sml_get_profile_pack_response *)m->message_body->data;
				Node h = list(HDR, {oct("ext"), null(U8), num(I8, 5)});
				LIB(sml_sequence_add(d->header_list, LIB(build(h))));
				b.c[4].c.push_back(h);
			}
			break;
		}
		case 9: { // take the last message out and free it
			if (vals.empty())
				return false;
			log += " remove";
			LIB(sml_message_free(f->messages[--f->messages_len]));
			vals.pop_back();
			break;
		}
		case 10: { // move all messages to a new file
			log += " move";
			sml_file *g = LIB(sml_file_init());
			for (int i = 0; i < f->messages_len; i++)
				LIB(sml_file_add_message(g, f->messages[i]));
			f->messages_len = 0;
			LIB(sml_file_free(f));
			f = g;
			break;
		}
		case 11: // print
			log += " print";
			LIB(sml_file_print(f));
			break;
		}
		same(log.c_str());
		return true;
	}
};
static const int NOP = 12;
template <class T> static void initfree(const char *what, T *(*i)(), void (*f)(T *)) {
	mc::track_reset();
	for (int k = 0; k < 3; k++) {
		T *p = LIB(i());
		LIB(f(p));
	}
	LIB(f((T *)0));
	leakcheck(what, "");
	mc::outcome(std::string(what));
	mc::validated(4);
}
static void countnull(Node &n, int &left, bool top) {
	if (!top && left-- == 0) {
		if (n.k != VLE) // (a chain has no holes)
			n = null(n.k);
		left = -1000000;
		return;
	}
	for (Node &c : n.c)
		if (left >= 0)
			countnull(c, left, false);
}
static int nodes(const Node &n) {
	int r = 1;
	for (auto &c : n.c)
		r += nodes(c);
	return r;
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C16", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 1500 : 60;
		mc::scenario("histories", "all histories of up to 4 operations (thorough: 5) of 12 on a file, built or parsed: add messages of 3 kinds, write, transport write (complete or failed), parse what was written (with damage behind), parse damaged copies, replace fields, extend lists, trees, paths and sequences, remove, move to another file, print", o, [] {
			int how = choose(3), depth = 1 + choose(mc::tier ? 5 : 4);
			mc::track_reset();
			Hist h;
			if (how == 0)
				h.f = LIB(sml_file_init());
			else {
				h.vals = {mkmsg(how == 1 ? 0 : 2, 9)};
				h.f = how == 1 ? fl::parsed(encodeall(h.vals)) : fl::built(h.vals);
			}
			h.log = how == 0 ? "init" : how == 1 ? "parsed" : "built";
			for (int i = 0; i < depth; i++)
				if (!h.op(choose(NOP), i)) {
					LIB(sml_file_free(h.f));
					return mc::discard();
				}
			LIB(sml_file_free(h.f));
			if (mc::want_note())
				mc::note(h.log);
			leakcheck(h.log.c_str(), encodeall(fl::norm(h.vals)));
			mc::outcome(mc::hash(h.log, how));
			mc::validated(depth);
		});
		mc::scenario("kinds", "a message of each kind: built or parsed, written, extended, printed, removed in all histories of up to 3 operations", o, [] {
			int t = choose(14), how = choose(2);
			mc::track_reset();
			Hist h;
			h.vals = {compact(tags[t], 0)};
			h.f = how ? fl::parsed(encodeall(h.vals)) : fl::built(h.vals);
			h.log = std::string(tagname[t]) + (how ? " parsed" : " built");
			static const int ops[] = {3, 4, 5, 7, 9, 10, 11};
			int depth = 1 + choose(3);
			for (int i = 0; i < depth; i++)
				if (!h.op(ops[choose(7)], i)) {
					LIB(sml_file_free(h.f));
					return mc::discard();
				}
			LIB(sml_file_free(h.f));
			leakcheck(h.log.c_str(), "");
			mc::outcome(h.log);
			mc::validated(depth);
		});
		auto life = [](const Node &m, int how) {
			mc::track_reset();
			Hist h;
			h.vals = {m};
			if (how) {
				h.f = fl::parsed(encodeall(fl::norm(h.vals)));
				h.vals = fl::norm(h.vals);
			} else
				h.f = fl::built(h.vals);
			h.log = how ? "parsed" : "built";
			h.same(h.log.c_str());
			h.op(3, 0);
			h.op(11, 0);
			h.op(3, 0);
			h.op(5, 0);
			h.op(4, 0);
			LIB(sml_file_free(h.f));
			leakcheck(h.log.c_str(), encode(m));
			mc::outcome(encode(m));
			mc::validated(5);
		};
		mc::scenario("leaf-values", "a message of each kind, built or parsed, every leaf with every (thorough; otherwise every third) value of a broad alphabet: written, printed, written, parsed, sent, freed", o, [life] {
			int t = choose(14), how = choose(2);
			Node m = samplemsg(tags[t], 0);
			if (!sweepleaf(m, mc::tier ? 1 : 3))
				return;
			life(m, how);
		});
		o.budget = 2;
		mc::scenario("states", "every combination of four states (absent, present, zero, all ones) of the fields of every structure of up to 7 fields, of pairs of fields in larger ones: written, printed, written, parsed, sent, freed", o, [life] {
			int how = choose(2);
			Node m = statemsg();
			if (!mc::discarded())
				life(m, how);
		});
		mc::scenario("message-states", "every combination of values 0, 1, 127, 128, 255 and absence of the two numbers of a message of each kind: written, printed, written, parsed, sent, freed", o, [life] {
			int t = choose(14);
			Node m = compact(tags[t], 0);
			static const int v[] = {0, 1, 127, 128, 255};
			for (int i = 1; i < 3; i++) {
				int s = choose(6);
				m.c[i] = s == 5 ? null(U8) : num(U8, v[s]);
			}
			if (choose(2))
				m.c[0] = null(OCT);
			life(m, choose(2));
		});
		o.budget = 0;
		mc::scenario("two-files", "two files parsed from the same bytes or built, used alternately in all orders of up to 4 operations, freed in either order", o, [] {
			mc::track_reset();
			Hist h[2];
			for (int i = 0; i < 2; i++) {
				h[i].vals = {mkmsg(i, i), mkmsg(2 - i, 7)};
				h[i].f = choose(2) ? fl::parsed(encodeall(h[i].vals)) : fl::built(h[i].vals);
			}
			static const int ops[] = {3, 5, 8, 9, 4};
			int n = 1 + choose(mc::tier ? 4 : 3);
			for (int i = 0; i < n; i++) {
				int w = choose(2);
				if (!h[w].op(ops[choose(5)], i)) {
					LIB(sml_file_free(h[0].f));
					LIB(sml_file_free(h[1].f));
					return mc::discard();
				}
				h[1 - w].same("other file");
			}
			int first = choose(2);
			LIB(sml_file_free(h[first].f));
			h[1 - first].same("after freeing the other");
			LIB(sml_file_free(h[1 - first].f));
			leakcheck("two files", "");
			mc::outcome(mc::hash(h[0].log, mc::hash(h[1].log, first)));
			mc::validated(n);
		});
		mc::scenario("half-built", "messages of every kind and their parts with one or two sub-objects not set, freed without being written", o, [] {
			int t = choose(14);
			Node m = choose(2) ? samplemsg(tags[t], 0) : compact(tags[t], 0);
			int n = nodes(m) - 1;
			int a = choose(n), b = choose(n + 1);
			if (!mc::tier && b < n && (a + b) % 3)
				return mc::discard();
			int l = a;
			countnull(m, l, true);
			if (b < n) {
				l = b;
				countnull(m, l, true);
			}
			mc::track_reset();
			sml_message *x = LIB(buildmsg(m));
			int how = choose(2);
			if (how) {
				sml_file *f = LIB(sml_file_init());
				LIB(sml_file_add_message(f, x));
				LIB(sml_file_free(f));
			} else
				LIB(sml_message_free(x));
			leakcheck("freeing a half-built message", dump(m));
			mc::outcome(dump(m));
			mc::validated();
		});
		mc::scenario("values", "values and statuses of every type with and without data, times and parameters with one of their two parts, freed", o, [] {
			mc::track_reset();
			int k = choose(5);
			if (k == 0) {
				sml_value *v = LIB(sml_value_init());
				static const int ty[] = {0, 0x42, 0x51, 0x52, 0x54, 0x58, 0x61, 0x62, 0x64, 0x68, 0x50, 0x60, 0x70, 0xff};
				v->type = (u8)ty[choose(14)];
				LIB(sml_value_free(v));
			} else if (k == 1) {
				sml_status *s = LIB(sml_status_init());
				s->type = (u8)choose(256);
				LIB(sml_status_free(s));
			} else if (k == 2) {
				sml_time *t = LIB(sml_time_init());
				int p = choose(4);
				if (p & 1) t->tag = LIB(sml_u8_init(1));
				if (p & 2) t->data.timestamp = LIB(sml_u32_init(7));
				LIB(sml_time_free(t));
			} else if (k == 3) {
				sml_proc_par_value *p = LIB(sml_proc_par_value_init());
				int tag = choose(6);
				if (tag) p->tag = LIB(sml_u8_init((u8)tag));
				LIB(sml_proc_par_value_free(p));
			} else {
				sml_value *v = LIB((sml_value *)build(choose(2) ? voct(bytes_of(choose(20), 1)) : vint(choose(2), 5, 1 << choose(4))));
				LIB(sml_value_free(v));
			}
			leakcheck("freeing a value", "");
			mc::outcome(mc::hash(mc::strf("%d", k)));
			mc::validated();
		});
		mc::scenario("init-free", "every constructor with its destructor, and every destructor with nothing", o, [] {
#define IF(name, T) case __COUNTER__ - base: return initfree<T>(#name, name##_init, name##_free);
			enum { base = __COUNTER__ + 1 };
			switch (choose(26)) {
				IF(sml_attention_response, sml_attention_response)
				IF(sml_close_request, sml_close_request)
				IF(sml_close_response, sml_close_response)
				IF(sml_file, sml_file)
				IF(sml_get_list_request, sml_get_list_request)
				IF(sml_get_list_response, sml_get_list_response)
				IF(sml_get_proc_parameter_request, sml_get_proc_parameter_request)
				IF(sml_get_proc_parameter_response, sml_get_proc_parameter_response)
				IF(sml_get_profile_list_response, sml_get_profile_list_response)
				IF(sml_get_profile_pack_request, sml_get_profile_pack_request)
				IF(sml_get_profile_pack_response, sml_get_profile_pack_response)
				IF(sml_prof_obj_header_entry, sml_prof_obj_header_entry)
				IF(sml_prof_obj_period_entry, sml_prof_obj_period_entry)
				IF(sml_value_entry, sml_value_entry)
				IF(sml_list, sml_list)
				IF(sml_message, sml_message)
				IF(sml_open_request, sml_open_request)
				IF(sml_open_response, sml_open_response)
				IF(sml_set_proc_parameter_request, sml_set_proc_parameter_request)
				IF(sml_status, sml_status)
				IF(sml_time, sml_time)
				IF(sml_tree, sml_tree)
				IF(sml_tree_path, sml_tree_path)
				IF(sml_proc_par_value, sml_proc_par_value)
				IF(sml_tupel_entry, sml_tupel_entry)
			default: {
				initfree<sml_period_entry>("sml_period_entry", sml_period_entry_init, sml_period_entry_free);
				initfree<sml_value>("sml_value", sml_value_init, sml_value_free);
				mc::track_reset();
				LIB(sml_octet_string_free(0));
				LIB(sml_number_free(0));
				LIB(sml_boolean_free(0));
				LIB(sml_sequence_free(0));
				LIB(sml_buffer_free(0));
				LIB(sml_message_body_free(0));
				LIB(sml_octet_string_free(LIB(sml_octet_string_generate_uuid())));
				LIB(sml_octet_string_free(LIB(sml_octet_string_init_from_hex((char *)"0123"))));
				LIB(sml_octet_string_free(LIB(sml_octet_string_init_from_hex((char *)"012"))));
				LIB(sml_octet_string_free(LIB(sml_octet_string_init_from_hex((char *)"0x"))));
				LIB(sml_boolean_free(LIB(sml_boolean_init(1))));
				LIB(sml_buffer_free(LIB(sml_buffer_init(0))));
				leakcheck("free", "");
				mc::validated(10);
			}
			}
		});
		mc::scenario("failed-parses", "an element parser stops at every byte of a message of each kind (cut there, or the byte replaced), twice on the same buffer; then the whole is freed", o, [] {
			int t = choose(14), how = choose(3);
			Node m = compact(tags[t], 0);
			std::string b = encode(m);
			int at = choose((int)b.size());
			if (how == 0)
				b = b.substr(0, at);
			else if (how == 1)
				b[at] = (char)0x7f;
			else
				b[at] = (char)0xe0;
			mc::track_reset();
			{
				Exact e(b);
				sml_buffer buf = {e.p, e.n, 0, 0, 0};
				for (int i = 0; i < 2; i++) {
					sml_message *x = LIB(sml_message_parse(&buf));
					LIB(sml_message_free(x));
					buf.error = 0;
				}
				sml_file *f = fl::parsed(encode(m) + b + b);
				LIB(sml_file_add_message(f, LIB(buildmsg(m))));
				LIB(sml_file_free(f));
			}
			leakcheck("failed parses", b);
			mc::outcome(b);
			mc::validated(2);
		});
	});
}
