#include "tool.hpp"
#include <sys/mman.h>
// C31: a frame is handed on, and its readings are on the output, before more input is waited for
static int FD = -1, file = -1;
static std::string input;
struct Log {
	size_t n;
	struct {
		size_t pos, size;
	} at[40000];
};
static Log *log_;
static long killat;
static int killsig;
static void asked() {
	mc::NoLib nl;
	off_t n = lseek(file, 0, SEEK_END);
	if (log_->n < 40000)
		log_->at[log_->n++] = {io::in.pos, (size_t)n};
	if (killat && io::in.calls == killat)
		kill(getpid(), killsig);
}
// the lines of the stream up to pos
static std::string linesto(const std::string &s, size_t pos, const std::vector<Line> &all, std::string *flushed) {
	size_t k = readings(s.substr(0, pos), false).size();
	std::string r;
	flushed->clear();
	for (size_t i = 0; i < k; i++) {
		r += all[i].head + all[i].text + all[i].tail + "\n";
		if (all[i].number)
			*flushed = r;
	}
	return r;
}
static Ended tool(const std::string &s, std::vector<const char *> args, std::string &out) {
	if (!log_) {
		log_ = (Log *)mmap(0, sizeof *log_, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		file = memfd_create("out", 0);
	}
	log_->n = 0;
	if (ftruncate(file, 0) || lseek(file, 0, SEEK_SET))
		mc::fail("internal: output");
	Ended e = process([&] {
		feed(s);
		io::in.asked = asked;
		dup2(file, 1);
		stdout = fdopen(1, "w"); // with the buffering that a file gets
		return call(args);
	}, 20);
	out.resize((size_t)lseek(file, 0, SEEK_END));
	if (!out.empty() && pread(file, &out[0], out.size(), 0) != (ssize_t)out.size())
		mc::fail("internal: output");
	return e;
}
// what was there (out) when everything up to pos had arrived
static void prompt(const char *what, const std::string &s, size_t pos, const std::string &out, const std::vector<Line> &all) {
	std::string flushed, want = linesto(s, pos, all, &flushed);
	if (out == want)
		return;
	if (out == flushed)
		mc::failkey("text-held-back", "%s: with %zu bytes arrived, the output ends before the last readings that are no numbers: %.300s, not %.300s; stream %s", what, pos, out.c_str(), want.c_str(), mc::hex(s, 800).c_str());
	else
		mc::fail("%s: with %zu bytes arrived, the output is %.600s, not %.600s; stream %s", what, pos, out.c_str(), want.c_str(), mc::hex(s, 800).c_str());
}
static Node e(int k, int i) {
	switch (k) {
	case 0: return entry(vint(false, 100 + i, 2), sc(-1), num(U8, 30));
	case 1: return entry(voct("text" + std::to_string(i)), null(I8), null(U8));
	case 2: return entry(vbool(true), null(I8), null(U8));
	case 3: return entry(null(VALUE), null(I8), null(U8));
	case 4: return entry(vint(true, (uint64_t)-5 - i, 8), null(I8), null(U8));
	default: return entry(voct(std::string(48, (char)(0x80 + i))), null(I8), null(U8));
	}
}
static void waits(const char *what, const std::string &s) {
	auto all = readings(s, false);
	std::string out;
	killat = 0;
	Ended r = tool(s, {"-"}, out);
	if (r.timeout || !WIFEXITED(r.status) || WEXITSTATUS(r.status))
		mc::fail("%s: the tool fails (status 0x%x); stream %s", what, r.status, mc::hex(s).c_str());
	if (log_->n == 40000)
		mc::fail("internal: log too short");
	size_t last = (size_t)-1, size = 0;
	for (size_t i = 0; i < log_->n; i++) {
		auto a = log_->at[i];
		if (a.pos == last && a.size == size)
			continue;
		prompt(what, s, a.pos, out.substr(0, a.size), all);
		last = a.pos, size = a.size;
		mc::transition();
	}
	compare(out, all, s, what);
	mc::outcome(s);
	mc::validated(log_->n);
	if (mc::want_note())
		mc::note(mc::strf("%s: %zu questions for input, %zu readings, stream %s", what, log_->n, all.size(), mc::hex(s, 200).c_str()));
}
// ---- the listener and the reader
static std::vector<std::string> got;
static void receiver(unsigned char *b, size_t n) {
	mc::NoLib nl;
	got.push_back(std::string((char *)b, n));
	if (io::in.calls != io::in.data_at)
		mc::fail("frame %zu is handed over only after %ld further calls on the descriptor; %s; stream %s", got.size() - 1, io::in.calls - io::in.data_at, io::in.trace.c_str(), mc::hex(io::in.data).c_str());
	fr::Res r;
	size_t pos = 0;
	for (size_t i = 0; i < got.size(); i++) {
		r = fr::next(io::in.data, pos);
		pos = r.to;
	}
	if (!r.frame || io::in.pos != r.to)
		mc::fail("frame %zu is handed over after %zu bytes, it ends after %zu; stream %s", got.size() - 1, io::in.pos, r.to, mc::hex(io::in.data).c_str());
	mc::transition();
	mc::validated();
}
static std::string item(int i, int k) {
	std::string w = fr::word(k % fr::NWORD);
	switch (i) {
	case 0: return fr::frame(w, (char)(k % 5));
	case 1: return fr::frame("", (char)(k * 3));
	case 2: return fr::frame(std::string((size_t)4 * (1 + k * 37 % 200), 'q'), 2);
	case 3: return "\x1b\x1b\x1b";
	case 4: return "noise" + std::string(1, (char)k);
	case 5: return fr::frame(std::string(w) + w + w + w, 1);
	default: return fr::frame(std::string(8000, (char)k));
	}
}
static void start(const std::string &s) {
	if (FD < 0)
		FD = io::pipefd();
	io::in = io::In();
	io::in.fd = FD;
	io::in.data = s;
	got.clear();
	if (mc::want_note())
		mc::note(mc::hex(s, 200));
}
static void both(int reader) {
	const std::string s = io::in.data;
	if (!reader)
		LIB(sml_transport_listen(FD, receiver));
	else
		for (;;) {
			static unsigned char b[9000];
			size_t n = LIB(sml_transport_read(FD, b, sizeof b));
			if (!n)
				break;
			receiver(b, n);
		}
	mc::outcome(mc::hash(s, reader));
}
int main(int argc, char **argv) {
	signal(SIGPIPE, SIG_IGN);
	return mc::main(argc, argv, "C31", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 600 : 60;
		mc::scenario("handed-over", "all streams of up to 4 items (thorough: 5) out of 7: every frame is handed over right after its last byte, with no call on the descriptor in between; by listener and reader, bytes whole, by 1, 2 or 3, each read interrupted or not", o, [] {
			int n = choose(mc::tier ? 6 : 5), reader = choose(2);
			std::string s;
			for (int i = 0; i < n; i++)
				s += item(choose(7), i);
			start(s);
			int c = choose(4), ev = choose(3);
			if (c) {
				io::in.policy = io::CAP;
				io::in.cap = c;
			}
			io::in.every = ev == 1 ? EINTR : ev == 2 ? EAGAIN : 0;
			both(reader);
		});
		o.budget = mc::tier ? 3 : 2;
		mc::scenario("schedules", "three frames, every answer of the system to each wait and read, up to 2 (thorough: 3) unusual ones", o, [] {
			int k = choose(4), reader = choose(2);
			start(item(k == 3 ? 5 : 0, 1) + item(k, 2) + item(1, 0));
			io::in.policy = io::DEV;
			both(reader);
		});
		o.budget = 0;
		mc::scenario("lists", "the tool: one or two frames with value lists of up to 4 (thorough: 5) entries out of 6, a message behind them or not: at every question for input exactly the readings of the frames arrived are on the output", o, [] {
			int n = choose(mc::tier ? 6 : 5), more = choose(2);
			std::vector<Node> es, m{samplemsg(0x101, 0)};
			for (int i = 0; i < n; i++)
				es.push_back(e(choose(6), i));
			m.push_back(response(es));
			if (more)
				m.push_back(samplemsg(0x201, 0));
			waits("lists", stream(m) + (more ? "" : "\x1b\x1bx") + stream({response({e(0, 9)})}));
		});
		mc::scenario("streams", "the tool: all streams of up to 3 out of 8 streams, and cut off", o, [] {
			int n = 1 + choose(3), cut = choose(4);
			std::string s;
			for (int i = 0; i < n; i++) {
				static const int k[] = {1, 2, 4, 5, 6, 7};
				std::vector<Node> m{samplemsg(0x101, i)};
				switch (int c = choose(8)) {
				case 0: s += "noise"; continue;
				case 1: s += stream(m); continue;
				case 2: s += stream({response({e(0, i), e(1, i)}), response({e(4, i)})}); continue;
				case 3: s += stream({response({e(1, i)})}); continue;
				case 4: {
					Pack p;
					for (int j = 0; j < 150; j++)
						p.add(e(j % 6 == 3 ? 0 : j % 6, j));
					p.add(e(0, 7));
					p.flush();
					s += p.s;
					continue;
				}
				default:
					(void)k;
					s += stream({m[0], response({e(c - 4, i), e(0, i)}), m[0]});
				}
			}
			waits("streams", s.substr(0, s.size() - (size_t)(cut == 3 ? s.size() / 2 : cut * 5)));
		});
		mc::scenario("ended", "the tool, ended by SIGKILL, SIGTERM or SIGINT at each of its questions for input (up to 350 of them): exactly the readings of the frames arrived are on the output", o, [] {
			static const int sig[] = {SIGKILL, SIGTERM, SIGINT};
			std::string s = "x" + stream({samplemsg(0x101, 0), response({e(1, 1), e(0, 2)})}) + stream({response({e(4, 3)})}) + "\x1b" + stream({response({e(0, 4), e(5, 5), e(0, 6)}), samplemsg(0x201, 1)});
			auto all = readings(s, false);
			killsig = sig[choose(3)];
			killat = 1 + choose(350);
			std::string out;
			Ended r = tool(s, {"-"}, out);
			size_t pos = log_->n ? log_->at[log_->n - 1].pos : 0;
			if (r.timeout)
				mc::fail("ended: the tool does not end");
			if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0)
				pos = s.size(); // fewer questions than that
			prompt("ended", s, pos, out, all);
			mc::outcome(mc::hash(out, killsig * 1000 + killat));
			mc::transition();
			mc::validated();
			killat = 0;
		});
	});
}
