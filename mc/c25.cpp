#include "files.hpp"
#include <ctype.h>
#include <stdarg.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <poll.h>
#include <sys/select.h>
#include <time.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sml/sml_crc16.h>
// C25: work and memory stay proportional to the data, whatever it claims.
// The library is built with a callback at every basic block; the block and
// memory functions and the system calls of reading are wrapped. Nothing is
// timed: the counts are the same in every run.
static uint64_t work;      // basic blocks, and bytes moved or compared by memory functions
static uint64_t limit = ~0ull;
static long mem, peak, memlimit = 1l << 60;
static char *base;
static size_t stack;       // deepest stack of the library
static uint64_t calls;     // read, poll, write
static std::string what;
static const size_t FLAT = 256 << 10, NESTED = 4 << 20; // trees may nest 4096 levels
static size_t most = FLAT;
static inline void add(uint64_t n) {
	work += n;
	if (__builtin_expect(work > limit, 0)) {
		mc::NoLib nl;
		limit = ~0ull;
		mc::fail("%s: more than %llu steps", what.c_str(), (unsigned long long)work - 1);
	}
}
static inline void deep() {
	char *p = (char *)__builtin_frame_address(0);
	if (p < base && (size_t)(base - p) > stack) {
		stack = base - p;
		if (stack > most) {
			mc::NoLib nl;
			mc::fail("%s: more than %zu bytes of stack", what.c_str(), most);
		}
	}
}
static inline void take(long n) {
	mem += n;
	if (mem > peak)
		peak = mem;
	if (peak > memlimit) {
		mc::NoLib nl;
		long p = peak;
		memlimit = 1l << 60;
		mc::fail("%s: %ld bytes of memory", what.c_str(), p);
	}
}
// virtual time: what is due arrives when the reader has slept long enough
namespace vt {
static long now; // ms
static int fd = -1, out = -1;
static std::vector<std::pair<long, std::string>> due;
static void arrive() {
	while (!due.empty() && due[0].first <= now) {
		mc::NoLib nl;
		if (due[0].second.empty())
			close(out), out = -1;
		else if (::write(out, due[0].second.data(), due[0].second.size()) < 0)
			abort();
		due.erase(due.begin());
	}
}
// sleeps for at most so long, or until something arrives; false: the time is up
static bool sleep(long ms, bool through = false) {
	if (ms <= 0 && !through)
		return false;
	if (due.empty() || through || due[0].first > now + ms) {
		now += ms;
		arrive();
		return false;
	}
	now = std::max(now, due[0].first);
	arrive();
	return true;
}
static bool forever() {
	if (due.empty()) {
		mc::NoLib nl;
		mc::fail("%s: sleeps for ever", what.c_str());
	}
	return sleep(1l << 60);
}
} // namespace vt
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
	add(1);
	if (mc::in_lib)
		deep();
}
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
size_t __real_strlen(const char *);
ssize_t __real_read(int, void *, size_t);
int __real_poll(struct pollfd *, nfds_t, int);
ssize_t __real_write(int, const void *, size_t);
void *__wrap_malloc(size_t n) {
	if (!mc::in_lib)
		return __real_malloc(n);
	take(n > 1ul << 50 ? 1l << 50 : (long)n); // before it is tried
	take(-(n > 1ul << 50 ? 1l << 50 : (long)n));
	void *p = __real_malloc(n);
	if (p)
		take((long)malloc_usable_size(p));
	return p;
}
void *__wrap_calloc(size_t a, size_t b) {
	if (!mc::in_lib)
		return __real_calloc(a, b);
	add(a * b);
	void *p = __wrap_malloc(a * b);
	if (p)
		__real_memset(p, 0, a * b);
	return p;
}
void *__wrap_realloc(void *q, size_t n) {
	if (!mc::in_lib)
		return __real_realloc(q, n);
	long old = q ? (long)malloc_usable_size(q) : 0;
	if ((long)n > old) {
		take(n > 1ul << 50 ? 1l << 50 : (long)n - old);
		take(-(n > 1ul << 50 ? 1l << 50 : (long)n - old));
	}
	void *p = __real_realloc(q, n);
	if (p || !n)
		take((p ? (long)malloc_usable_size(p) : 0) - old);
	return p;
}
void __wrap_free(void *p) {
	if (mc::in_lib && p)
		take(-(long)malloc_usable_size(p));
	__real_free(p);
}
#define MOVES(r, name, args, pass) r __wrap_##name args { if (mc::in_lib) add(n); return __real_##name pass; }
MOVES(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n))
MOVES(void *, memmove, (void *a, const void *b, size_t n), (a, b, n))
MOVES(void *, memset, (void *a, int b, size_t n), (a, b, n))
MOVES(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n))
size_t __wrap_strlen(const char *s) {
	size_t n = __real_strlen(s);
	if (mc::in_lib)
		add(n);
	return n;
}
// text functions: the length of what they look at
#define TEXT(r, name, args, pass, len) r __real_##name args; r __wrap_##name args { if (mc::in_lib) add(1 + (len)); return __real_##name pass; }
TEXT(size_t, strnlen, (const char *s, size_t n), (s, n), __real_strlen(s) < n ? __real_strlen(s) : n)
TEXT(char *, strcat, (char *d, const char *s), (d, s), __real_strlen(d) + __real_strlen(s))
TEXT(char *, strncat, (char *d, const char *s, size_t n), (d, s, n), __real_strlen(d) + n)
TEXT(char *, strcpy, (char *d, const char *s), (d, s), __real_strlen(s))
TEXT(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n), n)
TEXT(char *, stpcpy, (char *d, const char *s), (d, s), __real_strlen(s))
static size_t common(const char *a, const char *b, size_t n) {
	size_t i = 0;
	while (i < n && a[i] && a[i] == b[i])
		i++;
	return i;
}
TEXT(int, strcmp, (const char *a, const char *b), (a, b), common(a, b, ~0ul))
TEXT(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), common(a, b, n))
TEXT(char *, strchr, (const char *s, int c), (s, c), (__real_strchr(s, c) ? (size_t)(__real_strchr(s, c) - s) : __real_strlen(s)))
TEXT(char *, strrchr, (const char *s, int c), (s, c), __real_strlen(s))
TEXT(void *, memchr, (const void *s, int c, size_t n), (s, c, n), (__real_memchr(s, c, n) ? (size_t)((char *)__real_memchr(s, c, n) - (char *)s) : n))
char *__wrap_strdup(const char *s) {
	size_t n = __real_strlen(s) + 1;
	char *p = (char *)__wrap_malloc(n);
	if (p)
		__wrap_memcpy(p, s, n);
	return p;
}
int __wrap_sprintf(char *d, const char *f, ...) {
	va_list a;
	va_start(a, f);
	int n = vsprintf(d, f, a);
	va_end(a);
	if (mc::in_lib)
		add(1 + (n > 0 ? n : 0));
	return n;
}
int __wrap_snprintf(char *d, size_t m, const char *f, ...) {
	va_list a;
	va_start(a, f);
	int n = vsnprintf(d, m, f, a);
	va_end(a);
	if (mc::in_lib)
		add(1 + (n > 0 ? n : 0));
	return n;
}
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_usleep(useconds_t);
int __real_nanosleep(const struct timespec *, struct timespec *);
static bool ready(int fd, int ms = 0) {
	struct pollfd q = {fd, POLLIN, 0};
	return __real_poll(&q, 1, ms) == 1;
}
ssize_t __wrap_read(int fd, void *p, size_t n) {
	if (mc::in_lib)
		calls++, add(1);
	if (mc::in_lib && fd == vt::fd && !(fcntl(fd, F_GETFL) & O_NONBLOCK))
		while (!ready(fd))
			vt::forever();
	return __real_read(fd, p, n);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	if (mc::in_lib)
		calls++, add(1);
	if (mc::in_lib && vt::fd >= 0 && n == 1 && p->fd == vt::fd) {
		long until = vt::now + t;
		if (!__real_poll(p, 1, 0) && t != 0)
			while (!__real_poll(p, 1, 0) && (t < 0 ? vt::forever() : vt::sleep(until - vt::now)))
				;
		return __real_poll(p, 1, 0);
	}
	return __real_poll(p, n, t);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
	if (mc::in_lib)
		calls++, add(1);
	if (mc::in_lib && vt::fd >= 0 && r && FD_ISSET(vt::fd, r)) {
		long until = vt::now + (t ? t->tv_sec * 1000 + t->tv_usec / 1000 : 0);
		while (!ready(vt::fd) && (t ? vt::sleep(until - vt::now) : vt::forever()))
			;
		struct timeval z = {};
		return __real_select(n, r, w, e, &z);
	}
	return __real_select(n, r, w, e, t);
}
int __wrap_usleep(useconds_t us) {
	if (!mc::in_lib || vt::fd < 0)
		return __real_usleep(us);
	calls++, add(1);
	vt::sleep(us / 1000 + 1, true);
	return 0;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
	if (!mc::in_lib || vt::fd < 0)
		return __real_nanosleep(a, b);
	calls++, add(1);
	vt::sleep(a->tv_sec * 1000 + a->tv_nsec / 1000000 + 1, true);
	return 0;
}
ssize_t __wrap_write(int fd, const void *p, size_t n) {
	if (mc::in_lib)
		calls++, add(1);
	return __real_write(fd, p, n);
}
}
// The bounds: several times what any sensible way to do it takes. Against
// them stand costs that grow with the square of the data or with what a
// header claims, which exceed any constant.
static const uint64_t STEPS = 200, STEPS0 = 100000; // per byte of the data, and in any case
static const long MEM = 1024, MEM0 = 256 << 10;
static void start(const std::string &w, size_t data) {
	what = w + mc::strf(" of %zu bytes", data);
	work = calls = 0;
	limit = STEPS0 + STEPS * data;
	mem = peak = 0;
	memlimit = MEM0 + MEM * (long)data;
	stack = 0;
	base = (char *)__builtin_frame_address(0);
}
static void stop(size_t data) {
	limit = ~0ull;
	memlimit = 1l << 60;
	if (getenv("MC_SHOW"))
		fprintf([] { static FILE *f = fopen(getenv("MC_SHOW"), "a"); return f; }(), "COST %-40s steps/byte %7.2f (%8llu) mem/byte %7.2f (%8ld) stack %zu calls %llu\n", what.substr(0, 40).c_str(), (double)work / (data + 1), (unsigned long long)work, (double)peak / (data + 1), peak, stack, (unsigned long long)calls);
	mc::outcome(mc::hash(mc::strf("%s %llu %ld", what.c_str(), (unsigned long long)work, peak)));
	mc::validated();
	mc::transition(work);
}
#define COST(name, data, expr) do { start(name, data); { mc::Lib l__; expr; } stop(data); } while (0)

static void whole(const std::string &b, const std::string &w, bool nested = false) {
	most = nested ? NESTED : FLAT;
	if (mc::want_note())
		mc::note(w + ": " + mc::hex(b, 200));
	unsigned char *p = (unsigned char *)malloc(b.size() + 1);
	memcpy(p, b.data(), b.size());
	sml_file *f = 0;
	COST("parsing " + w, b.size(), f = sml_file_parse(p, b.size()));
	free(p);
	if (!f)
		mc::fail("no file");
	if (f->messages_len) {
		sml_file *g = LIB(sml_file_init());
		sml_buffer *t = f->buf;
		f->buf = g->buf;
		g->buf = t;
		COST("writing " + w, b.size(), sml_file_write(f));
	}
	COST("freeing " + w, b.size(), sml_file_free(f));
}
// message with a list of n elements, every element as short as can be
static std::string withcrc(std::string m) {
	uint16_t c = crc_sml(m.data(), m.size());
	m += '\x63';
	m += (char)(c >> 8);
	m += (char)c;
	m += '\0';
	return m;
}
static std::string rep(const std::string &e, size_t n) {
	std::string r;
	r.reserve(e.size() * n);
	while (n--)
		r += e;
	return r;
}
static std::string body(uint16_t tag, const std::string &rest) {
	std::string m("\x76\x02t\x01\x01\x72\x63", 7);
	m += (char)(tag >> 8);
	m += (char)tag;
	return m + rest;
}
static const std::string O("\x01");
static const char *containers[] = {"value list", "headers", "periods", "entries of a period", "profile list", "path", "objects", "children", "absent children", "absent entries", "nested trees", "nested single trees", "string", "values as text", "times as lists", "bare times", "shortened numbers", "wide headers", "statuses"};
static const int NCONT = sizeof(containers) / sizeof(*containers);
static std::string inlist(int c, size_t n) {
	auto L = [&](const std::string &e) { return tl(0x70, n) + rep(e, n); };
	std::string e7 = "\x77" + rep(O, 7);
	auto vl = [&](const std::string &l) { return body(0x701, "\x77" + O + O + O + O + l + O + O); };
	auto vle = [&](const std::string &st, const std::string &tm, const std::string &v) { return vl(L("\x77" + O + st + tm + O + O + v + O)); };
	auto pp = [&](const std::string &h, const std::string &p) { return body(0x301, "\x78" + O + O + O + "\x71" + O + h + p + O + O); };
	auto par = [&](const std::string &t) { return body(0x501, "\x73" + O + "\x71" + O + t); };
	switch (c) {
	case 0: return vl(L(e7));
	case 1: return pp(L("\x73" + O + O + O), "\x70");
	case 2: return pp("\x70", L("\x74" + O + O + "\x70" + O));
	case 3: return pp("\x70", "\x71\x74" + O + O + L("\x72" + O + O) + O);
	case 4: return body(0x401, "\x79" + O + O + O + "\x71" + O + O + O + L("\x75" + rep(O, 5)) + O + O);
	case 5: return body(0x501, "\x73" + O + L("\x02p") + O);
	case 6: return body(0x300, "\x79" + O + O + O + O + O + O + "\x71" + O + L("\x02o") + O);
	case 7: return par("\x73" + O + O + L("\x73" + O + O + O));
	case 8: return par("\x73" + O + O + L(O));
	case 9: return body(0x501, "\x73" + O + L(O) + O);
	case 10: { // ladders as deep as they may be, side by side
		size_t d = 300, m = n / d + 1;
		std::string one = rep("\x73" + O + O + "\x71", d) + "\x73" + O + O + O;
		return par("\x73" + O + O + tl(0x70, m) + rep(one, m));
	}
	case 11: return par(rep("\x73" + O + O + "\x71", n) + "\x73" + O + O + O);
	case 12: return body(0x201, "\x71" + tl(0, n) + std::string(n, 's'));
	case 13: return vle(O, O, "\x11" + std::string(16, 'v'));
	case 14: return vle(O, "\x72\x62\x01\x73\x65\x01\x02\x03\x04\x53\x01\x02\x53\x01\x02", O);
	case 15: return vle(O, "\x65\x01\x02\x03\x04", O);
	case 16: return vle(O, O, "\x54\x81\x02\x03");
	case 17: return vle(O, O, "\xd0\x80\x80\x80\x80\x80\x80\x80\x08" + std::string(7, 'v'));
	default: return vle("\x64\x01\x02\x03", O, O);
	}
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C25", [] {
		mc::Opt o;
		o.exec_timeout = 100;
		o.seconds = mc::tier ? 900 : 60;
		static const size_t sizes[] = {0, 1, 10, 100, 1000, 10000, 50000, 200000};
		static const int NS = 7;
		mc::scenario("containers", "19 ways to fill a message with 0, 1, 10 ... 50000 (thorough 200000) of the shortest elements, complete with matching checksum, cut in the middle, or with a checksum that does not match: parsed, written, freed", o, [] {
			int c = choose(NCONT);
			size_t n = sizes[choose(mc::tier ? 8 : NS)];
			int cut = choose(3);
			std::string m = inlist(c, n);
			if (cut == 1)
				m.resize(m.size() / 2 + 4);
			else
				m = withcrc(m);
			if (cut == 2)
				m[m.size() - 2] ^= 1;
			whole(m, containers[c], c == 10 || c == 11);
		});
		mc::scenario("claims", "the header of each of 11 containers claims any number (0 to 40, around every power of two up to 2^32, in any of 4 encodings) while 0, 1, 10 or 1000 elements follow", o, [] {
			int c = choose(NCONT - 9 + 1), w = choose(4);
			if (c == NCONT - 9)
				c = 12;
			static const size_t fol[] = {0, 1, 10, 1000};
			size_t n = fol[choose(4)];
			int i = choose(41 + 27 * 3);
			uint64_t len = i <= 40 ? i : (1ull << (6 + (i - 41) / 3)) + (i - 41) % 3 - 1;
			// find the header by what differs
			std::string m = inlist(c, n), h = c == 12 ? tl(0, n) : tl(0x70, n);
			std::string pre;
			size_t at = std::string::npos;
			std::string other = inlist(c, n + 1);
			size_t d = 0;
			while (d < m.size() && m[d] == other[d])
				d++;
			for (size_t k = 0; k < h.size(); k++)
				if (d >= k && m.compare(d - k, h.size(), h) == 0)
					at = d - k;
			if (at == std::string::npos)
				return mc::discard(); // the header of the next size is longer, too
			std::string hd;
			static const int ex[] = {0, 1, 3, 20};
			uint8_t ty = c == 12 ? 0 : 0x70;
			int nd = 1;
			while (nd < 16 && len >> 4 * nd)
				nd++;
			for (int k = 0; k < ex[w]; k++)
				hd += (char)(0x80 | ty);
			for (int k = nd - 1; k >= 0; k--)
				hd += (char)((k ? 0x80 : 0) | ty | (len >> 4 * k & 15));
			m = m.substr(0, at) + hd + m.substr(at + h.size());
			whole(m + std::string(8, 0), mc::strf("%s claiming %llu, %zu there", containers[c], (unsigned long long)len, n));
		});
		mc::scenario("headers", "every element of a message of each of the 14 kinds (every field present) claims a number of bytes or elements: around every power of two up to 2^31", o, [] {
			int t = choose(14);
			Node m = samplemsg(tags[t], 0);
			W w = lower(m);
			int e = choose(countW(w)), i = choose(28 * 3), n = 0;
			long len = (1l << (4 + i / 3)) + i % 3 - 1;
			walk(w, [&](W &x, W *, int) {
				if (n++ == e)
					x.delta = len - (long)(x.list ? x.kids.size() : x.data.size());
			});
			std::string b;
			emit(w, b);
			whole(b, mc::strf("%s, element %d claiming %ld", tagname[t], e, len));
		});
		mc::scenario("messages", "up to 3000 (thorough 30000) messages of each of the 14 kinds and the shortest one, intact, with a wrong checksum, cut off, or every second one wrong, with 0 to 3 bytes of padding", o, [] {
			int t = choose(15), n = choose(mc::tier ? 7 : 6), how = choose(4), pad = choose(3);
			static const int cnt[] = {1, 2, 10, 100, 1000, 3000, 30000};
			std::string e = t == 14 ? encode(msg("", 0x201, {null(OCT)})) : encode(compact(tags[t], 0)), x = e, b;
			x[x.size() - 2] ^= 0x55;
			for (int i = 0; i < cnt[n]; i++)
				b += (how == 1 || (how == 3 && i & 1) ? x : e) + std::string(pad, 0);
			if (how == 2)
				b.resize(b.size() - pad - 3);
			whole(b, mc::strf("%d messages", cnt[n]));
		});
		mc::scenario("groups", "every sequence of up to 3 groups of 8 kinds, each repeated to 1, 20 or 60 KB (thorough also 600 KB): zero bytes, shortest messages, those with a wrong checksum, messages with a string of 8 KB, with a list of 500 entries, with a deep tree, lists of one entry, and a message that claims more than there is", o, [] {
			static const std::string e[] = {std::string(1, 0), encode(msg("", 0x201, {null(OCT)})), withcrc(body(0x201, "\x71" + O)), withcrc(inlist(12, 8000)), withcrc(inlist(0, 500)), withcrc(inlist(11, 1000)), encode(compact(0x701, 0)), ""};
			static const size_t sz[] = {1000, 20000, 60000, 600000};
			int n = 1 + choose(3), s = choose(mc::tier ? 4 : 3);
			std::string b;
			for (int i = 0; i < n; i++) {
				int k = choose(8);
				std::string x = e[k];
				if (k == 2)
					x[x.size() - 2] ^= 0x55;
				b += k == 7 ? std::string("\x76\x02t\x01\x01\x72\x63\x02\x01\x71\x8f\x8f\x8f\x0f", 14) : rep(x, sz[s] / x.size() + 1);
			}
			whole(b, mc::strf("%d groups of %zu", n, sz[s]), true);
		});
		mc::scenario("bytes", "1 to 100000 (thorough 1000000) equal bytes of every value, alone or behind a message, or of every pair of 24 bytes", o, [] {
			static const size_t cnt[] = {1, 7, 100, 4097, 100000, 1000000};
			static const unsigned char al[24] = {0, 1, 2, 0x0f, 0x10, 0x1b, 0x42, 0x52, 0x61, 0x62, 0x65, 0x70, 0x71, 0x72, 0x73, 0x76, 0x77, 0x80, 0x81, 0x8f, 0xf0, 0xf1, 0xff, 0x7f};
			int n = choose(mc::tier ? 6 : 5), v = choose(2 * 256 + 24 * 24);
			std::string e;
			if (v < 512)
				e = std::string(1, (char)v);
			else
				e = std::string(1, (char)al[(v - 512) / 24]) + (char)al[(v - 512) % 24];
			std::string b = rep(e, cnt[n]);
			if (v >= 256 && v < 512)
				b = encode(compact(0x701, 0)) + b;
			whole(b, mc::strf("%zu times %s", cnt[n], mc::hex(e).c_str()));
		});
		mc::scenario("building", "building by hand: 1, 10 ... 30000 (thorough 300000) new messages added to a file, elements added to a sequence, entries to a path, children to a tree or a chain of single children, values and strings made and freed, lists of entries chained and freed, compared or named messages: each step costs the same, however many came before, also the second time", o, [] {
			static const size_t cnt[] = {1, 10, 100, 1000, 10000, 30000, 300000};
			size_t n = cnt[choose(mc::tier ? 7 : 6)];
			int k = choose(9);
			most = k == 4 ? NESTED : FLAT;
			if (k == 4 && n > 4000)
				n = 4000;
			for (int round = 0; round < 2; round++) {
				size_t data = n * 16;
				unsigned char id[] = {1, 2, 3};
				switch (k) {
				case 0: {
					sml_file *f = 0;
					COST("adding messages", data, f = sml_file_init(); for (size_t i = 0; i < n; i++) sml_file_add_message(f, sml_message_init()));
					if (f->messages_len != (int)n)
						mc::fail("%d messages", f->messages_len);
					COST("freeing messages", data, sml_file_free(f));
					break;
				}
				case 1: {
					sml_sequence *q = 0;
					COST("adding to a sequence", data, q = sml_sequence_init(free); for (size_t i = 0; i < n; i++) sml_sequence_add(q, malloc(4)));
					COST("freeing a sequence", data, sml_sequence_free(q));
					break;
				}
				case 2: {
					sml_tree_path *q = 0;
					COST("adding to a path", data, q = sml_tree_path_init(); for (size_t i = 0; i < n; i++) sml_tree_path_add_path_entry(q, sml_octet_string_init(id, 3)));
					COST("freeing a path", data, sml_tree_path_free(q));
					break;
				}
				case 3: {
					sml_tree *q = 0;
					COST("adding children", data, q = sml_tree_init(); for (size_t i = 0; i < n; i++) sml_tree_add_tree(q, sml_tree_init()));
					COST("freeing children", data, sml_tree_free(q));
					break;
				}
				case 4: {
					sml_tree *q = 0;
					COST("nesting trees", data, q = sml_tree_init(); for (size_t i = 0; i < n; i++) { sml_tree *x = sml_tree_init(); sml_tree_add_tree(x, q); q = x; });
					COST("freeing nested trees", data, sml_tree_free(q));
					break;
				}
				case 5: {
					sml_list *q = 0;
					COST("chaining entries", data, for (size_t i = 0; i < n; i++) { sml_list *x = sml_list_init(); x->obj_name = sml_octet_string_init(id, 3); if (q) sml_list_add(x, q); q = x; });
					COST("freeing chained entries", data, sml_list_free(q));
					break;
				}
				case 6:
					COST("making values", data, for (size_t i = 0; i < n; i++) { sml_value *v = sml_value_init(); v->type = 0x62; v->data.uint8 = sml_u8_init(3); sml_value_to_double(v); sml_value_free(v); });
					break;
				case 7:
					COST("making transaction ids", data, for (size_t i = 0; i < n; i++) { octet_string *q = sml_octet_string_generate_uuid(); sml_octet_string_free(q); });
					break;
				default:
					COST("making messages", data, for (size_t i = 0; i < n; i++) { sml_message *m = sml_message_init(); m->message_body = sml_message_body_init(0x201, sml_close_response_init()); sml_message_free(m); });
					break;
				}
			}
			if (mc::want_note())
				mc::note(what);
		});
		mc::scenario("strings", "checksums, conversion of octet strings to and from text and comparison of them: 0 to 100000 (thorough 1000000) bytes", o, [] {
			static const size_t cnt[] = {0, 1, 2, 15, 16, 100, 4096, 65536, 100000, 1000000};
			size_t n = cnt[choose(mc::tier ? 10 : 9)];
			int op = choose(8), c = choose(4);
			static const char ch[] = {'A', 0, (char)0xff, '9'};
			std::string s(n, ch[c]);
			if (op >= 2 && op <= 4)
				for (auto &x : s)
					if (!isxdigit((unsigned char)x))
						x = 'b';
			unsigned char *p = (unsigned char *)s.data();
			octet_string *a = LIB(sml_octet_string_init(p, (int)n)), *b = LIB(sml_octet_string_init(p, (int)n));
			sml_value v = {};
			v.type = SML_TYPE_OCTET_STRING;
			v.data.bytes = a;
			char *res = 0;
			octet_string *h = 0;
			volatile unsigned k = 0;
			switch (op) {
			case 0: COST("checksum", n, k = sml_crc16_calculate(p, (int)n)); break;
			case 1: COST("Kermit checksum", n, k = sml_crc16kermit_calculate(p, (int)n)); break;
			case 2: COST("reading hex digits", n, h = sml_octet_string_init_from_hex((char *)s.c_str())); break;
			case 3: COST("comparing with hex digits", n, k = sml_octet_string_cmp_with_hex(a, (char *)s.c_str())); break;
			case 4: {
				std::string t = s + "41";
				COST("comparing with other hex digits", n + 2, k = sml_octet_string_cmp_with_hex(a, (char *)t.c_str()));
				break;
			}
			case 5: COST("comparing", n, k = sml_octet_string_cmp(a, b)); break;
			case 6: COST("text", n, sml_value_to_strhex(&v, &res, true)); break;
			default: COST("hex text", n, sml_value_to_strhex(&v, &res, false)); break;
			}
			(void)k;
			free(res);
			if (h)
				LIB(sml_octet_string_free(h));
			LIB(sml_octet_string_free(a));
			LIB(sml_octet_string_free(b));
		});
		mc::scenario("transport", "reading and listening: 1 to 10000 (thorough 100000) times each of 13 stretches of stream (start sequences complete, cut or doubled, escape bytes, payload, frames), each followed by a frame; writing files of 1 to 1000 messages as frames", o, [] {
			static const int cnt[] = {1, 10, 1000, 10000, 100000};
			int n = cnt[choose(mc::tier ? 5 : 4)], k = choose(14);
			std::string f = fr::frame(std::string(8, 'p'));
			static const std::string st[] = {"\x1b", fr::ESC, "\x1b\x1b\x1b\x1b\x01", "\x1b\x1b\x1b\x1b\x01\x01\x01\x1b", "\x1b\x1b\x1b\x01", "\x1b\x1b\x1b\x1b\x1b\x01\x01\x01", "x", std::string(4, 0), "\x01", fr::START + "\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b", f, fr::frame(std::string(400, 'q')), fr::START + std::string(5000, 'x')};
			if (k == 13) {
				std::vector<Node> ms((size_t)(n > 1000 ? 1000 : n), compact(0x701, 0));
				sml_file *file = fl::built(ms);
				size_t len = encodeall(ms).size();
				int fd = memfd_create("mc", 0);
				volatile int r = 0;
				COST("writing a frame", len, r = sml_transport_write(fd, file));
				if (!r || lseek(fd, 0, SEEK_END) < (off_t)len)
					mc::fail("not written");
				close(fd);
				LIB(sml_file_free(file));
				return;
			}
			std::string s = rep(st[k], (size_t)n > 3000000 / st[k].size() ? 3000000 / st[k].size() : n) + f;
			int fd = memfd_create("mc", 0);
			for (size_t o = 0; o < s.size();) {
				ssize_t w = write(fd, s.data() + o, s.size() - o);
				if (w <= 0)
					abort();
				o += w;
			}
			lseek(fd, 0, SEEK_SET);
			if (mc::want_note())
				mc::note(mc::strf("listening: %d times %s", n, mc::hex(st[k], 40).c_str()));
			static size_t got;
			got = 0;
			COST("listening", s.size(), sml_transport_listen(fd, [](unsigned char *, size_t) { got++; }));
			if (calls > 4 * s.size() + 100)
				mc::fail("%s: %llu system calls", what.c_str(), (unsigned long long)calls);
			lseek(fd, 0, SEEK_SET);
			unsigned char *b = (unsigned char *)malloc(8096);
			volatile size_t r = 0;
			COST("reading a frame", s.size(), r = sml_transport_read(fd, b, 8096));
			(void)r;
			free(b);
			close(fd);
		});
		mc::scenario("waiting", "reading from a pipe (blocking or not) that delivers 0 to 40 bytes, then nothing for 0 to 10 hours (by a clock that advances when the reader sleeps), then the rest or its end; in one piece, or pausing before every byte: the number of calls does not depend on how long nothing comes", o, [] {
			size_t n = choose(41);
			int nb = choose(2), each = choose(2), end = choose(2);
			static const long pauses[] = {0, 10, 1000, 60000, 3600000, 36000000};
			long pause = pauses[choose(6)];
			int p[2];
			if (pipe(p))
				abort();
			if (nb)
				fcntl(p[0], F_SETFL, O_NONBLOCK);
			std::string s = fr::frame(std::string(16, 'p')) + fr::START;
			if (n && write(p[1], s.data(), n) != (ssize_t)n)
				abort();
			vt::now = 0;
			vt::fd = p[0];
			vt::due.clear();
			if (each) {
				for (size_t i = n; i < s.size(); i++)
					vt::due.push_back({pause * (long)(i - n + 1), s.substr(i, 1)});
			} else if (!end)
				vt::due.push_back({pause, s.substr(n)});
			vt::due.push_back({vt::due.empty() ? pause : vt::due.back().first, ""});
			vt::out = p[1];
			unsigned char *b = (unsigned char *)malloc(8096);
			volatile size_t r = 0;
			start(mc::strf("waiting %ld ms after %zu bytes", pause, n), s.size());
			{
				mc::Lib l;
				r = sml_transport_read(p[0], b, 8096);
			}
			limit = ~0ull;
			memlimit = 1l << 60;
			vt::fd = -1;
			if (vt::out >= 0)
				close(vt::out);
			if ((r > 0) != (n >= s.size() - 8 || each || !end))
				mc::fail("%s: the reader returned %zu", what.c_str(), (size_t)r);
			if (calls > 6 * s.size() + 100)
				mc::fail("%s: %llu system calls", what.c_str(), (unsigned long long)calls);
			mc::outcome(mc::hash(mc::strf("wait %zu %d %d %d %ld", n, nb, each, end, pause)));
			mc::validated();
			free(b);
			close(p[0]);
		});
	});
}
