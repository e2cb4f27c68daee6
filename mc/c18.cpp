#include "files.hpp"
#include <dirent.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <atomic>
// C18: calls on separate objects never influence each other.
// The library is compiled with callbacks at every basic block and every load
// and store (flavour edge); here they are the scheduling points of two threads.

// ------------------------------------------------------------ static storage
struct Range { uintptr_t a, b; };
static std::vector<Range> wr; // writable static storage of the program and its libraries
static Range exe;
static void maps() {
	FILE *f = fopen("/proc/self/maps", "r");
	char l[1024];
	bool first = true;
	uintptr_t lastend = 0;
	bool lastfile = false;
	while (f && fgets(l, sizeof l, f)) {
		unsigned long a, b, ino = 0;
		char p[8], path[512] = "";
		if (sscanf(l, "%lx-%lx %7s %*s %*s %lu %511s", &a, &b, p, &ino, path) < 4)
			continue;
		bool file = ino != 0;
		bool bss = !file && !*path && lastfile && a == lastend; // continues the data of a file
		if ((file || bss) && p[1] == 'w') {
			wr.push_back({a, b});
			if (first) {
				exe = {a, b};
				first = false;
			} else if (exe.b == a && bss)
				exe.b = b;
		}
		lastend = b;
		lastfile = file || bss;
	}
	if (f)
		fclose(f);
}
static bool isstatic(uintptr_t a) {
	for (auto &r : wr)
		if (a >= r.a && a < r.b)
			return true;
	return false;
}
static std::set<uintptr_t> touched; // granules that the library reads or writes
static std::set<uintptr_t> shared; // granules of 8 bytes of static storage that an operation writes

// ------------------------------------------------------------ the heap
// blocks with guard bytes: what is written behind a block is found when it is freed
extern "C" {
void *__libc_malloc(size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
struct Hd { size_t n; uint64_t magic; };
static const uint64_t MAGIC = 0x6d635f67756172ull, TAIL[2] = {0xa5c3e17f91b2d405ull, 0x1d2c3b4a59687786ull};
static void *guard(void *q, size_t n) {
	if (!q)
		return 0;
	Hd *h = (Hd *)q;
	h->n = n;
	h->magic = MAGIC ^ (uintptr_t)q;
	memcpy((char *)(h + 1) + n, TAIL, 16);
	return h + 1;
}
static Hd *guarded(void *p) {
	Hd *h = (Hd *)p - 1;
	if (h->magic != (MAGIC ^ (uintptr_t)h))
		return 0;
	if (memcmp((char *)p + h->n, TAIL, 16)) {
		static const char m[] = "a call wrote behind the end of a heap block\n";
		(void)!write(2, m, sizeof m - 1);
		abort();
	}
	return h;
}
void *malloc(size_t n) { return guard(n > (size_t)1 << 62 ? 0 : __libc_malloc(n + 32), n); }
void free(void *p) {
	if (!p)
		return;
	Hd *h = guarded(p);
	if (h)
		h->magic = 0;
	__libc_free(h ? (void *)h : p);
}
void *calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n))
		return 0;
	void *p = malloc(n);
	if (p)
		memset(p, 0, n);
	return p;
}
void *realloc(void *p, size_t n) {
	if (!p)
		return malloc(n);
	if (!n) {
		free(p);
		return 0;
	}
	Hd *h = guarded(p);
	if (!h)
		return __libc_realloc(p, n);
	void *q = malloc(n);
	if (q) {
		memcpy(q, p, h->n < n ? h->n : n);
		free(p);
	}
	return q;
}
}
// ------------------------------------------------------------ scheduling
enum Mode { OFF, COUNT, BLOCKS, SHARED };
static std::atomic<int> mode{OFF};
static std::atomic<uint64_t> points[2]; // passed
static long quota[2][4];   // points until the next switch, by turn
static int turn[2];
static sem_t baton[2];
static std::atomic<bool> finished[2], freerun{false};
static thread_local int tid = -1;
static thread_local bool busy = false;
static std::atomic<uint64_t> statacc{0}, statwr{0};
static const uintptr_t *shbegin, *shend;
static std::vector<uintptr_t> shv;

static void switchto(int o) {
	if (finished[o] || freerun)
		return;
	sem_post(&baton[o]);
	int t = tid;
	while (sem_wait(&baton[t]))
		;
}
static inline void point() {
	int t = tid;
	if (freerun.load(std::memory_order_relaxed))
		return;
	uint64_t n = points[t].load(std::memory_order_relaxed) + 1;
	points[t].store(n, std::memory_order_relaxed);
	if (mode == COUNT)
		return;
	if (turn[t] < 4 && quota[t][turn[t]] >= 0 && --quota[t][turn[t]] < 0) {
		turn[t]++;
		switchto(1 - t);
	}
}
static inline void block() {
	if (tid >= 0 && !busy && (mode == BLOCKS || mode == COUNT))
		point();
}
static void access(uintptr_t a, bool w) {
	if (tid < 0 || busy)
		return;
	if (mode == SHARED) {
		if (std::binary_search(shbegin, shend, a >> 3))
			point();
		return;
	}
	if (!isstatic(a))
		return;
	statacc++;
	if (mode == COUNT) {
		busy = true;
		touched.insert(a >> 3);
		busy = false;
	}
	if (w) {
		statwr++;
		if (mode == COUNT) {
			busy = true;
			shared.insert(a >> 3);
			busy = false;
		}
	}
	if (mode == BLOCKS || mode == COUNT)
		if (mode == BLOCKS ? std::binary_search(shbegin, shend, a >> 3) : false)
			point();
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) { block(); }
#define LS(n, t)                                                                            \
	void __sanitizer_cov_load##n(t *p) { if (tid >= 0) access((uintptr_t)p, false); }       \
	void __sanitizer_cov_store##n(t *p) { if (tid >= 0) access((uintptr_t)p, true); }
LS(1, uint8_t) LS(2, uint16_t) LS(4, uint32_t) LS(8, uint64_t) LS(16, __uint128_t)
}

// ------------------------------------------------------------ the operations
static thread_local std::string *sink;
static void receiver(unsigned char *b, size_t n) {
	*sink += mc::strf("[%zu:", n) + std::string((char *)b, n) + "]";
	memset(b, 0x55, n);
}
static std::string input(const std::string &s, const std::function<void(int)> &f) {
	int p[2];
	if (pipe(p))
		mc::fail("internal: pipe");
	if (write(p[1], s.data(), s.size()) != (ssize_t)s.size())
		mc::fail("internal: write to a pipe");
	close(p[1]);
	f(p[0]);
	close(p[0]);
	return "";
}
static std::string parsefile(const std::string &b) {
	Exact e(b);
	sml_file *f = sml_file_parse(e.p, e.n);
	std::string r = dumpall(ext(f));
	sml_file_free(f);
	return r;
}
static std::string writefile(const std::vector<Node> &m) {
	sml_file *f = sml_file_init();
	for (auto &n : m)
		sml_file_add_message(f, buildmsg(n));
	sml_file_write(f);
	std::string r((char *)f->buf->buffer, f->buf->cursor);
	sml_file_free(f);
	return r;
}
static Node entryof(const std::string &name, const Node &v) {
	return list(VLE, {oct(name), null(STATUS), null(TIME), num(U8, 27), num(I8, (uint64_t)-1), v, null(OCT)});
}
static const std::string SERIAL("\x01\x00\x60\x01\x00\xff", 6), POWER("\x01\x00\x10\x07\x00\xff", 6);
static std::string dzgfile(bool dzg) {
	Node m = msg("t", 0x701, {null(OCT), oct("s"), null(OCT), time(1, 5),
				 seq(VLIST, {entryof(SERIAL, voct(std::string("\x0a\x01" "DZG\x00\x02\x80\xde\x80", 10).replace(2, 3, dzg ? "DZG" : "EMH"))), entryof(POWER, vint(true, (uint64_t)-30000, 2))}), null(OCT), null(TIME)});
	return encode(m);
}
struct Op {
	const char *name;
	std::function<std::string(int)> run; // two variants with different data
};
static std::vector<Op> ops;
static void makeops() {
	auto add = [](const char *n, const std::function<std::string(int)> &f) { ops.push_back({n, f}); };
	static std::vector<std::string> in[2];
	for (int v = 0; v < 2; v++) {
		in[v].push_back(encode(compact(0x201, v)));
		in[v].push_back(dzgfile(v == 0));
		in[v].push_back(encode(compact(0x401, v)));
		in[v].push_back(encode(compact(0x501, v)));
		std::string k = encode(compact(0x101, v));
		in[v].push_back(k.substr(0, k.size() - 7 - v)); // cut off
		std::string d = encode(compact(0x201, 2)) + encode(compact(0x201, 3 + v)) + encode(compact(0x201, 5));
		d[d.size() / 2] ^= 0x55;
		in[v].push_back(d);
		{ // bare and list-form times
			Enc e;
			struct T : Enc { int f; int timeform(const Node &) override { return f; } } t;
			t.f = 1 + v;
			std::string s;
			W w = lower(msg("t", 0x701, {null(OCT), oct("s"), null(OCT), time(1, 5 + v), seq(VLIST, {entryof("abcdef", voct("x"))}), null(OCT), null(TIME)}), t);
			emit(w, s);
			in[v].push_back(s);
		}
		// a tree
		in[v].push_back(encode(msg("t", 0x501, {oct("s"), seq(PATH, {oct("p"), oct(v ? "q" : "rr")}),
					   tree("a", null(PPV), {tree("b", ppv(1, vint(false, 7 + v, 1)), {}), tree(v ? "c" : "dd", ppv(4, time(1, 8)), {})})})));
	}
	static const char *pn[] = {"parse-close", "parse-list", "parse-profile", "parse-params", "parse-cut", "parse-damaged", "parse-times", "parse-tree"};
	for (int i = 0; i < 8; i++)
		add(pn[i], [i](int v) { return parsefile(in[v][i]); });
	add("write-list", [](int v) { return writefile({samplemsg(0x701, v)}); });
	add("write-params", [](int v) { return writefile({samplemsg(0x600, v), samplemsg(0x501, 1 - v)}); });
	add("write-profile", [](int v) { return writefile({samplemsg(0x301, v)}); });
	add("rewrite", [](int v) {
		Exact e(in[v][1]);
		sml_file *f = sml_file_parse(e.p, e.n);
		f->buf->cursor = 0;
		sml_file_write(f);
		std::string r((char *)f->buf->buffer, f->buf->cursor);
		sml_file_free(f);
		return r;
	});
	add("transport-write", [](int v) {
		int p[2];
		if (pipe(p))
			mc::fail("internal: pipe");
		Exact e(in[v][0] + in[v][1]);
		sml_file *f = sml_file_parse(e.p, e.n);
		int n = sml_transport_write(p[1], f);
		sml_file_free(f);
		close(p[1]);
		char b[8192];
		ssize_t k = read(p[0], b, sizeof b);
		close(p[0]);
		return mc::strf("%d:", n) + std::string(b, k < 0 ? 0 : k);
	});
	for (int w = 0; w < 2; w++)
		add(w ? "transport-read-noise" : "transport-read", [w](int v) {
			std::string r;
			input((w ? std::string("ab\x1b\x1b\x1b\x1b\x01\x01", 8) : std::string()) + fr::frame(v ? "12345678" : std::string(60, 'a'), (char)v) + "rest", [&](int fd) {
				unsigned char b[100];
				size_t n = sml_transport_read(fd, b, sizeof b);
				r = std::string((char *)b, n);
				char c[8];
				ssize_t k = read(fd, c, 8);
				r += "|" + std::string(c, k < 0 ? 0 : k);
			});
			return r;
		});
	add("transport-read-cut", [](int v) {
		std::string r;
		input(fr::frame("abcd").substr(0, 9 + v * 8), [&](int fd) {
			unsigned char b[100];
			r = mc::strf("%zu", sml_transport_read(fd, b, sizeof b));
		});
		return r;
	});
	add("listen", [](int v) {
		std::string r;
		sink = &r;
		input(fr::frame("abcd") + (v ? "x" : "") + fr::frame(v ? "" : "12345678"), [&](int fd) { sml_transport_listen(fd, receiver); });
		return r;
	});
	add("crc", [](int v) {
		std::string s = v ? "123456789" : "\x01\x02\x80";
		return mc::strf("%04x", sml_crc16_calculate((unsigned char *)s.data(), (int)s.size()));
	});
	add("kermit", [](int v) {
		std::string s = v ? "123456789" : "\x01\x02\x80";
		return mc::strf("%04x", sml_crc16kermit_calculate((unsigned char *)s.data(), (int)s.size()));
	});
	add("to-double", [](int v) {
		std::string r;
		for (auto &n : {vint(true, (uint64_t)(-1000 - v), 2), vint(false, 77 + v, 8), voct("x")}) {
			sml_value *x = (sml_value *)build(n);
			r += mc::strf("%.17g ", sml_value_to_double(x));
			sml_value_free(x);
		}
		return r;
	});
	for (int w = 0; w < 2; w++)
		add(w ? "to-text" : "to-hex", [w](int v) {
			sml_value *x = (sml_value *)build(voct(v ? std::string("a\x00", 2) : "EMH12" + std::string(35, (char)0x80)));
			char *s = 0;
			char *r = sml_value_to_strhex(x, &s, w);
			std::string t = r ? r : "none";
			if (s)
				t += s;
			free(s);
			sml_value_free(x);
			return t;
		});
	add("hex", [](int v) {
		char h[] = "01ff7fAB";
		if (v)
			h[1] = '2';
		octet_string *a = sml_octet_string_init_from_hex(h), *b = sml_octet_string_init((unsigned char *)"\x01\xff\x7f\xab", 4);
		std::string r = mc::strf("%d %d %d %d", !sml_octet_string_cmp(a, b), !sml_octet_string_cmp_with_hex(b, h), !sml_octet_string_cmp_with_hex(a, h), a ? a->len : -1);
		sml_octet_string_free(a);
		sml_octet_string_free(b);
		return r;
	});
	// the same addresses and lengths, other contents
	for (int w = 0; w < 2; w++)
		add(w ? "kermit-same" : "crc-same", [w](int v) {
			Exact e(v ? "abcdef" : "abdcef");
			return mc::strf("%04x", w ? sml_crc16kermit_calculate(e.p, (int)e.n) : sml_crc16_calculate(e.p, (int)e.n));
		});
	add("convert-same", [](int v) {
		std::string r;
		sml_value *x = (sml_value *)build(vint(true, (uint64_t)(-1 - v), 4));
		r += mc::strf("%.17g ", sml_value_to_double(x));
		sml_value_free(x);
		x = (sml_value *)build(voct(v ? "ab\x03" "d" : "ac\x03" "d"));
		for (int mixed = 0; mixed < 2; mixed++) {
			char *s = 0;
			sml_value_to_strhex(x, &s, mixed);
			r += s ? s : "none";
			free(s);
		}
		sml_value_free(x);
		char h[] = "6162";
		if (v)
			h[3] = '3';
		octet_string *a = sml_octet_string_init_from_hex(h), *b = sml_octet_string_init((unsigned char *)"ab", 2);
		r += mc::strf("%d %d", !sml_octet_string_cmp(a, b), !sml_octet_string_cmp_with_hex(b, h));
		sml_octet_string_free(a);
		sml_octet_string_free(b);
		return r;
	});
	// malformed elements: what the error paths leave behind
	add("bad-trees", [](int v) {
		static const std::string t[2][4] = {{"\x73\x02" "a\x01\x72\x73\x02" "b\x01\x01\x73\x02" "c\x01\x62\x05", "\x74\x01\x01\x01\x01", "\x62\x01", "\x73\x02" "a\x72\x62\x01\x62\x05\x71\x71\x01"},
										   {"\x73\x02" "a\x01\x71\x73\x02" "c\x62\x05\x01", "\x73\x01\x01", "\x71\x01", "\x73\x02" "a\x72\x62\x09\x62\x05\x01"}};
		std::string r;
		for (auto &x : t[v]) {
			Exact e(x);
			sml_buffer b = {e.p, e.n, 0, 0, 0};
			void *p = sml_tree_parse(&b);
			r += mc::strf("%d %d ", p != 0, b.error != 0);
			freeany(TREE, p);
		}
		return r;
	});
	add("bad-elements", [](int v) {
		std::string r;
		static const std::string t[2][3] = {{"\x72\x62\x05\x42\x01", "\x77\x02" "a\x01\x01\x01\x01\x01\x42", "\x6a\x01\x02\x03\x04\x05\x06\x07\x08\x09"},
										   {"\x71\x72\x62\x07\x01", std::string("\x75\x02" "a\x42\x00\x01\x72\x01", 8), "\x12\x05"}};
		for (auto &x : t[v])
			for (int k = 0; k < BODY; k++) {
				if (!hasparser((Kind)k))
					continue;
				Exact e(x);
				sml_buffer b = {e.p, e.n, 0, 0, 0};
				void *p = parseany((Kind)k, &b);
				if (b.error)
					r += mc::strf("%d-%d ", k, p != 0);
				else
					r += mc::strf("%d@%d %s ", k, (int)b.cursor, dump(extany((Kind)k, p)).c_str());
				freeany((Kind)k, p);
			}
		return r;
	});
	add("bad-messages", [](int v) {
		static std::vector<std::string> f[2];
		if (f[v].empty())
			for (int t = 0; t < 14; t++) {
				W w = lower(compact(tags[t], v));
				W &l = w.kids[3].kids[1];
				l.kids[v ? l.kids.size() / 2 : l.kids.size() - 1] = rawW(v ? "\x72\x01\x43" : "\x79");
				std::string b = encode(compact(0x201, v));
				emit(w, b);
				f[v].push_back(b);
			}
		std::string r;
		for (auto &b : f[v])
			r += parsefile(b);
		return r;
	});
	// more than a small input
	for (int w = 0; w < 2; w++)
		add(w ? "kermit-large" : "crc-large", [w](int v) {
			std::string r;
			for (int n : {700, 1025}) {
				static thread_local std::string s;
				s.clear();
				for (int i = 0; i < n; i++)
					s += (char)(i * 7 + v + (i >> 8));
				r += mc::strf("%04x ", w ? sml_crc16kermit_calculate((unsigned char *)s.data(), n) : sml_crc16_calculate((unsigned char *)s.data(), n));
			}
			return r;
		});
	add("parse-large", [](int v) { return mc::strf("%016llx", (unsigned long long)mc::hash(parsefile(encode(msg("t", 0x201, {oct(std::string(1500 + v, (char)v))})) + encode(msg("t", 0x201, {oct(std::string(300, 'a'))}))))); });
	add("write-large", [](int v) { return writefile({msg("t", 0x201, {oct(std::string(1500 + v, (char)v))}), msg("t", 0x201, {oct(std::string(400, 'a'))})}); });
	add("listen-large", [](int v) {
		std::string r;
		sink = &r;
		input(fr::frame(std::string(700, (char)(97 + v))) + fr::frame(std::string(1200, 98)) + fr::frame(v ? "" : "12345678"), [&](int fd) { sml_transport_listen(fd, receiver); });
		return mc::strf("%zu %016llx", r.size(), (unsigned long long)mc::hash(r));
	});
	add("new-message", [](int) {
		sml_message *a = sml_message_init(), *b = sml_message_init();
		std::string r = mc::strf("%d %d %d", a->transaction_id->len, b->transaction_id->len, !sml_octet_string_cmp(a->transaction_id, b->transaction_id));
		sml_message_free(a);
		sml_message_free(b);
		return r;
	});
	add("lengths", [](int v) {
		sml_buffer *b = sml_buffer_init(64);
		for (unsigned l : {3u, 15u, 16u, 254u, 4096u, 70000u})
			sml_buf_set_type_and_length(b, v ? 0x70 : 0, l);
		std::string r((char *)b->buffer, b->cursor);
		b->buffer_len = b->cursor;
		b->cursor = 0;
		while (b->cursor < b->buffer_len) {
			r += mc::strf("%x ", sml_buf_get_next_type(b));
			r += mc::strf("%d ", sml_buf_get_next_length(b));
		}
		sml_buffer_free(b);
		return r;
	});
	add("elements", [](int v) {
		std::string r;
		const char *e[2][4] = {{"\x63\x80\x01", "\x55\xff\xff\xff\xfe", "\x42\x01", "\x04" "abc"}, {"\x62\x81", "\x53\x80\x00", "\x42\x00", "\x02z"}};
		int n[2][4] = {{3, 5, 2, 4}, {2, 3, 2, 2}};
		for (int i = 0; i < 4; i++) {
			Kind k = i == 0 ? U32 : i == 1 ? I32 : i == 2 ? BOOL : OCT;
			sml_buffer *b = sml_buffer_init(n[v][i]);
			memcpy(b->buffer, e[v][i], n[v][i]);
			void *p = parseany(k, b);
			r += dump(extany(k, p)) + mc::strf("@%d/%d ", (int)b->cursor, sml_buf_has_errors(b));
			freeany(k, p);
			sml_buffer_free(b);
		}
		return r;
	});
}
static std::vector<std::string> want[2];
static void dirty(int c) { // what earlier calls leave on the stack
	volatile char b[32768];
	memset((void *)b, c, sizeof b);
}
static std::string inchild(const std::function<std::string()> &f, bool *ok) {
	int p[2];
	if (pipe(p))
		mc::fail("internal: pipe");
	fflush(0);
	pid_t c = fork();
	if (c == 0) {
		close(p[0]);
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, 2);
		std::string r = f();
		size_t i = 0;
		while (i < r.size()) {
			ssize_t n = write(p[1], r.data() + i, r.size() - i);
			if (n <= 0)
				_exit(3);
			i += n;
		}
		_exit(0);
	}
	close(p[1]);
	std::string r;
	char b[65536];
	ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0)
		r.append(b, n);
	close(p[0]);
	int st = 0;
	waitpid(c, &st, 0);
	*ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
	return r;
}
static std::vector<uint64_t> npoints[2];
static std::vector<std::set<uintptr_t>> writes;
static std::vector<uint64_t> nwrites; // to static storage, by either variant
// each operation alone, in a fresh process each
static void references() {
	for (int v = 0; v < 2; v++)
		for (size_t i = 0; i < ops.size(); i++) {
			bool ok;
			want[v].push_back(inchild([&] { return ops[i].run(v); }, &ok));
			if (!ok)
				want[v].back() = "(crash)";
			// points passed, the static storage it writes, and that it uses
			std::string s = inchild([&] {
				std::string before((char *)exe.a, exe.b - exe.a);
				shared.clear();
				touched.clear();
				mode = COUNT;
				points[0] = 0;
				tid = 0;
				ops[i].run(v);
				tid = -1;
				mode = OFF;
				for (size_t k = 0; k < before.size(); k += 8)
					if (memcmp(before.data() + k, (char *)exe.a + k, 8))
						shared.insert((exe.a + k) >> 3);
				std::string r((char *)&points[0], 8);
				uint64_t n = shared.size();
				r.append((char *)&n, 8);
				for (uintptr_t g : shared)
					r.append((char *)&g, 8);
				for (uintptr_t g : touched)
					r.append((char *)&g, 8);
				return r;
			}, &ok);
			uint64_t n = 0, c = 0;
			if (s.size() >= 16) {
				memcpy(&n, s.data(), 8);
				memcpy(&c, s.data() + 8, 8);
			}
			npoints[v].push_back(n);
			if (v == 0)
				writes.push_back({});
			for (size_t k = 16; k + 8 <= s.size(); k += 8) {
				uintptr_t g;
				memcpy(&g, s.data() + k, 8);
				if (k < 16 + 8 * c)
					writes[i].insert(g);
				else
					touched.insert(g);
			}
		}
	// what the library never uses are the harness's own variables
	for (auto &w : writes) {
		uint64_t n = 0;
		for (uintptr_t g : w)
			if (touched.count(g)) {
				shared.insert(g);
				n++;
			}
		nwrites.push_back(n);
	}
	shv.assign(shared.begin(), shared.end());
	shbegin = shv.data();
	shend = shv.data() + shv.size();
}
static std::string differs(const std::string &got, int op, int v, const std::string &what) {
	if (got == want[v][op])
		return "";
	return mc::strf("%s: %s (variant %d) gives %.700s, alone in a fresh process %.700s", what.c_str(), ops[op].name, v, got.c_str(), want[v][op].c_str());
}
static void same(const std::string &got, int op, int v, const std::string &what) {
	if (got == want[v][op])
		return;
	mc::fail("%s: %s (variant %d) gives %.700s, alone in a fresh process %.700s", what.c_str(), ops[op].name, v, got.c_str(), want[v][op].c_str());
}
// ------------------------------------------------------------ two threads
struct Thr {
	int t, op, v;
	std::string result;
	pthread_t th;
};
static void *body(void *a) {
	Thr *x = (Thr *)a;
	while (sem_wait(&baton[x->t]))
		;
	tid = x->t;
	x->result = ops[x->op].run(x->v);
	tid = -1;
	finished[x->t] = true;
	sem_post(&baton[1 - x->t]);
	sem_post(&baton[1 - x->t]);
	return 0;
}
// runs two operations; thread 0 starts; q: points until the switches
static std::string two_(Mode m, int a, int va, int b, int vb, const std::vector<long> &qa, const std::vector<long> &qb, const char *what) {
	Thr t[2] = {{0, a, va, "", 0}, {1, b, vb, "", 0}};
	for (int i = 0; i < 2; i++) {
		sem_init(&baton[i], 0, 0);
		finished[i] = false;
		points[i] = 0;
		turn[i] = 0;
		const auto &q = i ? qb : qa;
		for (int j = 0; j < 4; j++)
			quota[i][j] = j < (int)q.size() ? q[j] : -1;
	}
	freerun = false;
	mode = m;
	for (int i = 0; i < 2; i++)
		if (pthread_create(&t[i].th, 0, body, &t[i]))
			mc::fail("internal: no thread");
	sem_post(&baton[0]);
	// whoever waits for a lock the other one holds lets it go on
	uint64_t seen = ~0ull;
	for (int i = 0; i < 2; i++)
		for (;;) {
			struct timespec ts;
			clock_gettime(CLOCK_REALTIME, &ts);
			ts.tv_nsec += 200000000;
			if (ts.tv_nsec >= 1000000000) {
				ts.tv_sec++;
				ts.tv_nsec -= 1000000000;
			}
			if (pthread_timedjoin_np(t[i].th, 0, &ts) == 0)
				break;
			uint64_t now = points[0] + points[1];
			if (now == seen && !freerun) {
				freerun = true;
				sem_post(&baton[0]);
				sem_post(&baton[1]);
			}
			seen = now;
		}
	mode = OFF;
	std::string s = mc::strf("%s: %s/%d and %s/%d, switches after %ld %ld | %ld %ld points", what, ops[a].name, va, ops[b].name, vb, qa.size() > 0 ? qa[0] : -1, qa.size() > 1 ? qa[1] : -1,
							 qb.size() > 0 ? qb[0] : -1, qb.size() > 1 ? qb[1] : -1);
	if (mc::want_note())
		mc::note(s);
	std::string r = differs(t[0].result, a, va, s);
	return r.empty() ? differs(t[1].result, b, vb, s) : r;
}
static void two(Mode m, int a, int va, int b, int vb, const std::vector<long> &qa, const std::vector<long> &qb, const char *what) {
	std::string r = two_(m, a, va, b, vb, qa, qb, what);
	if (!r.empty())
		mc::fail("%s", r.c_str());
	mc::transition(turn[0] + turn[1] + 2);
	mc::validated(2);
}
int main(int argc, char **argv) {
	maps();
	return mc::main(argc, argv, "C18", [] {
		makeops();
		references();
		const int N = (int)ops.size();
		for (int i = 0; i < N; i++)
			for (int v = 0; v < 2; v++)
				if (want[v][i] == "(crash)")
					want[v][i] = "(a result)";
		mc::Opt o;
		o.seconds = mc::tier ? 1200 : 60;
		mc::scenario("histories", mc::strf("all sequences of up to 3 of %d operations, each sequence in a process of its own: every result is that of the operation alone", N), o, [N] {
			int n = 1 + choose(mc::tier ? 3 : 2) + (mc::tier ? 0 : 1), f[3];
			for (int i = 0; i < n; i++)
				f[i] = choose(N);
			bool ok;
			std::string s = inchild([&] {
				std::string r;
				for (int i = 0; i < n; i++) {
					std::string x = ops[f[i]].run(i & 1);
					if (x != want[i & 1][f[i]])
						return mc::strf("call %d, %s, gives %.600s; alone %.600s", i, ops[f[i]].name, x.c_str(), want[i & 1][f[i]].c_str());
				}
				return r;
			}, &ok);
			std::string h;
			for (int i = 0; i < n; i++)
				h += std::string(ops[f[i]].name) + " ";
			if (mc::want_note())
				mc::note(h);
			if (!ok || !s.empty())
				mc::fail("history %s: %s", h.c_str(), ok ? s.c_str() : "crash");
			mc::outcome(h);
			mc::validated(n);
			mc::transition(n);
		});
		mc::scenario("surroundings", "each operation with 5 contents of fresh memory, 4 contents of the stack and 10 values of errno before it, after each other operation", o, [N] {
			static const int pat[] = {0, 0xff, 0x55, 0x80, 0x01}, st[] = {0, 0xff, 0x55, 0x1b}, er[] = {0, EINTR, EAGAIN, ENOENT, ERANGE, EIO, ENOMEM, EBADF, EPIPE, EINVAL};
			int p = pat[choose(5)], s = st[choose(4)], e = er[choose(10)], i = choose(N), j = choose(N + 1), v = choose(2);
			mallopt(M_PERTURB, p);
			if (j < N)
				ops[j].run(1 - v);
			dirty(s);
			errno = e;
			std::string r = ops[i].run(v);
			mallopt(M_PERTURB, 0);
			same(r, i, v, mc::strf("fresh memory 0x%02x, stack 0x%02x, errno %d, after %s", p, s, e, j < N ? ops[j].name : "nothing"));
			mc::outcome(mc::hash(mc::strf("%d %d %d", i, j, v)));
			mc::validated();
		});
		mc::scenario("repetition", "each operation 1, 2, 3, 17, 100, 256, 257, 1000, 5000 times (short ones: 70000 times; long ones: 500 at most), then every operation", o, [N] {
			int i = choose(N), k = choose(9);
			static const int cnt[] = {1, 2, 3, 17, 100, 256, 257, 1000, 5000};
			int n = cnt[k] * (k == 8 && npoints[0][i] < 300 ? 14 : 1);
			if (n > 257 && npoints[0][i] > 2000)
				n = 500;
			for (int c = 0; c < n; c++)
				same(ops[i].run(c & 1), i, c & 1, mc::strf("time %d", c));
			for (int j = 0; j < N; j++)
				for (int v = 0; v < 2; v++)
					same(ops[j].run(v), j, v, mc::strf("after %d times %s", n, ops[i].name));
			mc::outcome(mc::hash(mc::strf("%d %d", i, k)));
			mc::validated(n + 2 * N);
			mc::transition(n);
		});
		mc::scenario("shared-storage", mc::strf("two threads, all pairs of %d operations in 2 variants each: all switches at the accesses to static storage that any operation writes (up to 3 switches; with no such access, all interleavings are equivalent to one)", N), o, [N] {
			int a = choose(N), b = choose(N), vv = choose(4), v = vv & 1, u = vv >> 1;
			// how many such accesses there are
			int k1 = choose(60), k2 = k1 ? choose(60) : 0, k3 = k2 ? choose(12) : 0;
			std::vector<long> qa, qb;
			if (k1) qa.push_back(k1 - 1);
			if (k2) qb.push_back(k2 - 1);
			if (k3) qa.push_back(k3 - 1);
			static thread_local int lasta = -1, lastb = -1, lastv = -1;
			static thread_local uint64_t na = 0, nb = 0;
			if (lasta != a || lastb != b || lastv != vv || k1 == 0) {
				two(SHARED, a, v, b, u, {}, {}, "shared");
				na = points[0];
				nb = points[1];
				lasta = a, lastb = b, lastv = vv;
				if (k1 == 0) {
					if (mc::want_note())
						mc::note(mc::strf("%s and %s: %d and %d accesses to static storage that some operation writes", ops[a].name, ops[b].name, (int)na, (int)nb));
					mc::outcome(mc::hash(mc::strf("%d %d %d %d %d", a, b, vv, (int)na, (int)nb)));
					return;
				}
			}
			if ((uint64_t)k1 > na || (uint64_t)k2 > nb)
				return mc::discard();
			two(SHARED, a, v, b, u, qa, qb, "shared");
			mc::outcome(mc::hash(mc::strf("%d %d %d %d %d %d", a, b, vv, k1, k2, k3)));
		});
		mc::scenario("first-use", mc::strf("two threads in a process of their own that has not used the library: all pairs of %d operations, the first interrupted at up to 60 (thorough: 200) evenly spaced basic blocks, and at up to 40 (thorough: 300) of its accesses to static storage that some operation writes; the second runs completely, or is itself interrupted at its first such access", N), o, [N] {
			int a = choose(N), b = choose(N), v = choose(2);
			if (v && !nwrites[a] && !nwrites[b])
				return mc::discard();
			int kind = nwrites[a] || nwrites[b] ? choose(3) : 0;
			int m = kind ? (mc::tier ? 300 : 40) : (int)std::min(npoints[v][a] + 1, (uint64_t)(mc::tier ? 200 : 60));
			int i = choose(m);
			bool ok;
			std::string r = inchild([&] {
				if (!kind)
					return two_(BLOCKS, a, v, b, 1 - v, {(long)((double)i * (npoints[v][a] + 1) / m)}, {}, "first use");
				// how many accesses there are depends on what has been used: one process more
				bool k;
				std::string c = inchild([&] {
					two_(SHARED, a, v, b, 1 - v, {}, {}, "first use");
					return mc::strf("%ld", (long)points[0]);
				}, &k);
				long n = k ? atol(c.c_str()) : 0;
				if (i >= n)
					return std::string("-");
				long at = n <= m || i < m / 2 ? i : (long)(m / 2 + (double)(i - m / 2) * (n - m / 2) / (m - m / 2));
				return two_(SHARED, a, v, b, 1 - v, {at}, kind == 2 ? std::vector<long>{0} : std::vector<long>{}, "first use");
			}, &ok);
			if (r == "-")
				return mc::discard();
			if (!ok || !r.empty())
				mc::fail("%s", ok ? r.c_str() : mc::strf("first use: %s and %s end the process (switch %d)", ops[a].name, ops[b].name, i).c_str());
			mc::transition(3);
			mc::validated(2);
			mc::outcome(mc::hash(mc::strf("%d %d %d %d %d", a, b, v, kind, i)));
		});
		mc::scenario("one-switch", "two threads, all pairs of operations: the first is interrupted at every basic block (quick: up to 400 evenly spaced ones), the second runs completely, the first goes on", o, [N] {
			int a = choose(N), b = choose(N), v = choose(2);
			uint64_t n = npoints[v][a];
			uint64_t cap = mc::tier ? 20000 : 400;
			int m = (int)std::min(n + 1, cap);
			int i = choose(m);
			long at = n + 1 <= cap ? i : (long)((double)i * n / m);
			two(BLOCKS, a, v, b, 1 - v, {at}, {}, "one switch");
			mc::outcome(mc::hash(mc::strf("%d %d %d %d", a, b, v, i)));
		});
		mc::scenario("two-switches", "two threads, all pairs of operations: the first is interrupted at every basic block (of up to 40; thorough 400), the second at every one of its own, then each runs to its end", o, [N] {
			int a = choose(N), b = choose(N), v = choose(2);
			int cap = mc::tier ? 300 : 24;
			auto pick = [&](uint64_t n) {
				int m = (int)std::min(n + 1, (uint64_t)cap);
				int i = choose(m);
				return n + 1 <= (uint64_t)cap ? (long)i : (long)((double)i * n / m);
			};
			long i = pick(npoints[v][a]), j = pick(npoints[1 - v][b]);
			two(BLOCKS, a, v, b, 1 - v, {i}, {j}, "two switches");
			mc::outcome(mc::hash(mc::strf("%d %d %d %ld %ld", a, b, v, i, j)));
		});
	});
}
