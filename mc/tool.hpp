// the server tool: what it has to print for a stream, and running it
#pragma once
#include "files.hpp"
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
extern "C" int sml_server_main(int argc, char **argv);
extern "C" int close(int fd) {
	if (fd == 0 && io::in.fd == 0) // standard input stays
		return 0;
	return (int)syscall(SYS_close, fd);
}
// ---- the reference
static const char *unitof(int code) { // IEC 62056-62, table of units
	static const char *u[64] = {
		0, "a", "mo", "wk", "d", "h", "min.", "s", "°", "°C", "currency", "m", "m/s", "m³", "m³", "m³/h",
		"m³/h", "m³/d", "m³/d", "l", "kg", "N", "Nm", "Pa", "bar", "J", "J/h", "W", "VA", "var", "Wh", "VAh",
		"varh", "A", "C", "V", "V/m", "F", "Ω", "Ωm²/m", "Wb", "T", "A/m", "H", "Hz", "1/(Wh)", "1/(varh)", "1/(VAh)",
		"V²h", "A²h", "kg/s", "S, mho", "K", "1/(V²h)", "1/(A²h)", "1/m³", "%", "Ah", 0, 0, "Wh/m³", "J/m³", "Mol %", "g/m³"};
	if (code < 64)
		return u[code];
	return code == 64 ? "Pa s" : code == 253 ? "(reserved)" : code == 254 ? "(other)" : code == 255 ? "(unitless)" : 0;
}
struct Line {
	std::string head, text, tail; // text: of the value
	bool number = false;
	bool approx = false;          // beyond the precision of a double: compared as a number
	int prec = 0;
	long double value = 0;
	std::string alt;              // what a known finding makes of the text
	const char *key = 0;
};
static std::string mixed(const std::string &s) {
	std::string r;
	size_t i = 0;
	while (i < s.size() && (uint8_t)s[i] > 0x20 && (uint8_t)s[i] <= 'z')
		r += s[i++];
	for (; i < s.size(); i++)
		r += mc::strf("%02x ", (uint8_t)s[i]);
	return r;
}
static bool reading(const Node &e, Line &l) {
	const Node &name = e.c[0], &unit = e.c[3], &scaler = e.c[4], &v = e.c[5];
	if (v.null || name.null || name.s.size() < 6)
		return false;
	auto b = [&](int i) { return (uint8_t)name.s[i]; };
	l.head = mc::strf("%d-%d:%d.%d.%d*%d#", b(0), b(1), b(2), b(3), b(4), b(5));
	l.tail = "#";
	if (v.vt == 0) {
		l.text = mixed(v.s);
		if (v.s.empty())
			l.alt = "(null)", l.key = "empty-string-null";
	} else if (v.vt == 0x40) {
		l.text = v.n ? "true" : "false";
		if (!v.n)
			l.alt = "true", l.key = "false-printed-true";
	}
	else {
		l.number = true;
		int s = scaler.null ? 0 : (int)(int8_t)scaler.n;
		bool neg = v.vt == 0x50 && (int64_t)v.n < 0;
		uint64_t m = neg ? 0 - v.n : v.n;
		std::string d = std::to_string(m);
		l.prec = s < 0 ? -s : 0;
		l.value = m;
		for (int i = 0; i < (s < 0 ? -s : s); i++)
			l.value = s < 0 ? l.value / 10 : l.value * 10;
		if (neg)
			l.value = -l.value;
		if (m > (1ull << 50) || (s > 0 && (l.value > 1e15L || l.value < -1e15L)))
			l.approx = true;
		if (s > 0 && m)
			d += std::string(s, '0');
		else if (s < 0) {
			if ((int)d.size() <= -s)
				d = std::string(-s + 1 - d.size(), '0') + d;
			d.insert(d.size() + s, ".");
		}
		l.text = (neg ? "-" : "") + d;
		const char *u = unit.null ? 0 : unitof((int)unit.n);
		if (u)
			l.tail += u;
	}
	return true;
}
// nameless: there is an entry with a value and without full identifier
static bool nameless;
static std::vector<Line> readings(const std::string &stream, bool single, int *lists = 0) {
	nameless = false;
	std::vector<Line> r;
	for (size_t pos = 0;;) {
		fr::Res f = fr::next(stream, pos);
		if (!f.frame)
			return r;
		pos = f.to;
		if (f.bytes.size() > 8092)
			mc::fail("internal: frame too long");
		for (auto &m : decodefile(f.bytes.substr(8, f.bytes.size() - 16)).msgs) {
			if (m.c[3].n != 0x701)
				continue;
			for (auto &e : m.c[3].c[4].c) {
				Line l;
				if (reading(e, l))
					r.push_back(l);
				else if (!e.c[5].null)
					nameless = true;
			}
			if (lists)
				++*lists;
			if (single)
				return r;
		}
	}
}
static bool matches(const std::string &got, const Line &l) {
	if (got == l.head + l.text + l.tail)
		return true;
	if (l.key && got == l.head + l.alt + l.tail) {
		mc::failkey(l.key, "line \"%s\", expected \"%s\"", got.c_str(), (l.head + l.text + l.tail).c_str());
		return true;
	}
	if (!l.approx || got.size() < l.head.size() + l.tail.size() || got.compare(0, l.head.size(), l.head) ||
		got.compare(got.size() - l.tail.size(), l.tail.size(), l.tail))
		return false;
	std::string t = got.substr(l.head.size(), got.size() - l.head.size() - l.tail.size());
	if (t.empty() || t.find_first_not_of("-0123456789.") != std::string::npos)
		return false;
	size_t dot = t.find('.');
	if ((dot == std::string::npos ? 0 : (int)(t.size() - dot - 1)) != l.prec)
		return false;
	long double x = strtold(t.c_str(), 0), d = x - l.value, a = l.value < 0 ? -l.value : l.value;
	return (d < 0 ? -d : d) <= a * 4e-15L;
}
static std::vector<std::string> split(const std::string &s) {
	std::vector<std::string> r;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find('\n', i);
		if (j == std::string::npos) {
			r.push_back(s.substr(i) + "<no newline>");
			break;
		}
		r.push_back(s.substr(i, j - i));
		i = j + 1;
	}
	return r;
}
static void compare(const std::string &out, const std::vector<Line> &want, const std::string &stream, const char *what, bool among = false) {
	auto got = split(out);
	size_t i = 0, j = 0;
	if (among) { // among other lines, in order
		for (; i < got.size() && j < want.size(); i++)
			j += matches(got[i], want[j]);
		if (j < want.size())
			mc::fail("%s: reading %zu of %zu is not printed: %s; output %.2000s; stream %s", what, j, want.size(),
					 (want[j].head + want[j].text + want[j].tail).c_str(), out.c_str(), mc::hex(stream, 1500).c_str());
		return;
	}
	while (i < got.size() && i < want.size() && matches(got[i], want[i]))
		i++;
	if (i < got.size() || i < want.size())
		mc::fail("%s: %zu lines printed, %zu expected; line %zu is \"%s\", expected \"%s\"; stream %s", what, got.size(), want.size(), i,
				 i < got.size() ? got[i].c_str() : "(none)", i < want.size() ? (want[i].head + want[i].text + want[i].tail).c_str() : "(none)",
				 mc::hex(stream, 1500).c_str());
}
// ---- running the tool
static int call(std::vector<const char *> args) {
	args.insert(args.begin(), "sml_server");
	args.push_back(0);
	std::vector<char *> a;
	for (auto x : args)
		a.push_back(x ? strdup(x) : 0);
	optind = 0;
	int r = sml_server_main((int)a.size() - 1, a.data());
	for (auto x : a)
		free(x);
	return r;
}
static void feed(const std::string &stream) {
	io::in = io::In();
	io::in.fd = 0;
	io::in.data = stream;
}
// in this process: reads io::in until its end
static std::string run(int *rc = 0) {
	FILE *o = stdout, *e = stderr;
	char *p = 0, *q = 0;
	size_t n = 0, k = 0;
	stdout = open_memstream(&p, &n);
	stderr = open_memstream(&q, &k);
	int c = call({"-"});
	if (rc)
		*rc = c;
	fclose(stdout);
	fclose(stderr);
	stdout = o;
	stderr = e;
	std::string r(p, n);
	free(p);
	free(q);
	io::in.fd = -1;
	return r;
}
struct Ended {
	std::string out;
	int status;
	bool timeout;
};
static Ended process(const std::function<int()> &body, double timeout, const std::function<void()> &meanwhile = {});
static void check(const char *what, const std::string &stream) {
	auto want = readings(stream, false);
	if (mc::want_note())
		mc::note(mc::strf("%s: %zu readings from %s", what, want.size(), mc::hex(stream, 300).c_str()));
	std::string out;
	if (nameless) { // may crash
		Ended e = process([&] { feed(stream); return call({"-"}); }, 20);
		if (e.timeout)
			mc::fail("%s: the tool does not end; stream %s", what, mc::hex(stream, 1500).c_str());
		if (!WIFEXITED(e.status) || WEXITSTATUS(e.status)) {
			mc::failkey("entry-without-identifier", "%s: the tool crashes (status 0x%x); stream %s", what, e.status, mc::hex(stream, 1500).c_str());
			mc::outcome(mc::hash(stream));
			return;
		}
		out = e.out;
	} else {
		feed(stream);
		out = run();
	}
	compare(out, want, stream, what);
	mc::outcome(out);
	mc::validated(want.size() + 1);
}
// in a process of its own; setup: called there before, gives the arguments
static Ended process(const std::function<int()> &body, double timeout, const std::function<void()> &meanwhile) {
	int p[2];
	if (pipe(p))
		mc::fail("internal: pipe");
	fflush(0);
	pid_t c = fork();
	if (c == 0) {
		dup2(p[1], 1);
		int nul = open("/dev/null", O_RDWR);
		dup2(nul, 2);
		if (p[1] > 2)
			close(p[1]);
		close(p[0]);
		alarm(20);
		exit(body());
	}
	close(p[1]);
	if (meanwhile)
		meanwhile();
	Ended r;
	r.timeout = false;
	double until = timeout * 1000;
	for (;;) {
		struct pollfd f = {p[0], POLLIN, 0};
		struct timespec a, b;
		clock_gettime(CLOCK_MONOTONIC, &a);
		int k = poll(&f, 1, until < 1 ? 1 : (int)until);
		clock_gettime(CLOCK_MONOTONIC, &b);
		until -= (b.tv_sec - a.tv_sec) * 1000.0 + (b.tv_nsec - a.tv_nsec) / 1e6;
		if (k == 0 && until <= 0) {
			r.timeout = true;
			kill(c, SIGKILL);
			break;
		}
		char x[65536];
		ssize_t n = k > 0 ? syscall(SYS_read, p[0], x, sizeof x) : 1;
		if (k > 0 && n <= 0)
			break;
		if (k > 0)
			r.out.append(x, n);
	}
	close(p[0]);
	waitpid(c, &r.status, 0);
	return r;
}
// ---- streams
static std::string stream(const std::vector<Node> &m) { return fl::frameof(m); }
static Node response(const std::vector<Node> &es) {
	return msg("t", 0x701, {null(OCT), oct("s"), null(OCT), null(TIME), es.empty() ? null(VLIST) : seq(VLIST, es), null(OCT), null(TIME)});
}
static const std::string ID("\x01\x00\x01\x08\x00\xff", 6);
static Node entry(const Node &v, const Node &scaler, const Node &unit, const Node &name = oct(ID)) {
	return list(VLE, {name, null(STATUS), null(TIME), unit, scaler, v, null(OCT)});
}
static Node sc(int s) { return num(I8, (uint64_t)(int64_t)s); }
// entries packed into frames
struct Pack {
	std::string s;
	std::vector<Node> es;
	size_t size = 0;
	void add(const Node &e) {
		es.push_back(e);
		size += encode(e).size();
		if (size > 6000 || es.size() >= 200)
			flush();
	}
	void flush() {
		if (!es.empty())
			s += stream({response(es)});
		es.clear();
		size = 0;
	}
};
static std::vector<Node> values() {
	static std::vector<Node> v;
	if (v.empty()) {
		static const uint64_t n[] = {0, 1, 7, 9, 10, 42, 99, 100, 123, 127, 128, 250, 255, 256, 999, 1000, 12345, 32767, 32768, 65535,
									 65536, 99999, 1234567, 16777217, 123456789, 2147483647, 2147483648u, 4294967295u, 4294967296ull,
									 1000000000000ull, 123456789012345ull, 999999999999999ull, 1ull << 50, (1ull << 53) + 1, 1ull << 62, ~0ull >> 1, 1ull << 63, ~0ull};
		for (uint64_t x : n)
			for (int w = 1; w <= 8; w *= 2) {
				if (w == 8 || x >> (8 * w) == 0)
					v.push_back(vint(false, x, w));
				if (w == 8 ? x >> 63 == 0 : x >> (8 * w - 1) == 0) {
					v.push_back(vint(true, x, w));
					v.push_back(vint(true, 0 - x, w));
				}
			}
	}
	return v;
}
static const int NE = 16;
static Node kind(int i, int k) {
	switch (i) {
	case 0: return entry(vint(false, 12345 + k, 4), sc(-1), num(U8, 30));
	case 1: return entry(null(VALUE), sc(-1), num(U8, 30));
	case 2: return entry(vint(true, (uint64_t)-7 - k, 1), null(I8), null(U8), oct("short"));
	case 3: return entry(vint(true, (uint64_t)-7 - k, 1), null(I8), null(U8), null(OCT));
	case 4: return entry(voct("EMH" + std::to_string(k)), null(I8), null(U8));
	case 5: return entry(voct(std::string("\x0a\x01" "EMH\x00", 6)), sc(3), num(U8, 27));
	case 6: return entry(vbool(k & 1), sc(3), num(U8, 27));
	case 7: return entry(vint(true, (uint64_t)-1000 - k, 2), sc(2), num(U8, 27), oct(std::string("\x00\x7f\x80\xff\x01\x02\x03\x04", 8)));
	case 8: return entry(voct(""), null(I8), null(U8));
	case 9: return entry(vint(false, ~0ull, 8), sc(-3), num(U8, 58));
	case 10: return entry(null(VALUE), null(I8), null(U8), null(OCT));
	case 11: return entry(voct("x"), null(I8), null(U8), oct("12345"));
	case 12: return list(VLE, {oct(ID), status(3, 1), time(1, 9), num(U8, 255), sc(0), vint(false, k, 1), oct("sig")});
	case 13: return entry(vbool(true), null(I8), null(U8), null(OCT));
	case 14: return entry(vbool(!(k & 1)), null(I8), null(U8), oct("abcdefg"));
	default: return entry(voct("a b#\n%s%d"), null(I8), null(U8), oct("123456"));
	}
}
static const int named[] = {0, 1, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15}; // those with an identifier, or without value
static std::string scratch() {
	char t[] = "/tmp/c21-XXXXXX";
	if (!mkdtemp(t))
		mc::fail("internal: no scratch directory");
	return t;
}
// a few streams with different things before, in and after the first list
static const int NS = 8;
static std::string somestream(int k) {
	std::vector<Node> a{samplemsg(0x101, 0), response({kind(0, 1), kind(4, 1), kind(6, 1)}), samplemsg(0x201, 0)};
	std::vector<Node> b{response({kind(7, 2)}), response({kind(9, 2), kind(1, 2), kind(12, 3)})};
	std::vector<Node> c{samplemsg(0x101, 1), samplemsg(0x201, 1)};
	std::vector<Node> d{response({kind(1, 2)})};
	std::vector<Node> e{response({})};
	switch (k) {
	case 0: return stream(a);
	case 1: return stream(b);
	case 2: return stream(c) + stream(a) + stream(b);
	case 3: return "noise" + stream(a) + "\x1b\x1b\x1b" + stream(a);
	case 4: return stream(b) + stream(a);
	case 5: return stream(d) + stream(a);
	case 6: return stream(c) + stream({a[0], b[0], b[1], a[2]}) + stream(b);
	default: return stream({a[0], b[1], b[0]});
	}
}
