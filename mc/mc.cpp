#include "mc.hpp"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>

namespace mc {

static const int MAXPATH = 8192, MAXW = 64;
struct Slot {
	std::atomic<uint64_t> execs, choices, validated, transitions;
	std::atomic<double> started; // of the current execution, 0: idle
	std::atomic<int> pathlen;
	int phase; // 0 running, 1 finished, 2 failed, 3 time cap
	int path[MAXPATH];
	char msg[8192], note[8192];
};
struct Shared {
	Slot slot[MAXW];
	std::atomic<uint64_t> distinct;
	std::atomic<uint64_t> known[64];
	char samples[3][4096];
	std::atomic<int> nsamples;
	std::atomic<int> stop;
};
static const uint64_t TAB = 1u << 22;
static Shared *sh;
static std::atomic<uint64_t> *tab;
int tier = 0;
bool in_replay = false;
static std::vector<std::string> knownkeys;

static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string strf(const char *fmt, ...) {
	char b[8192];
	va_list a;
	va_start(a, fmt);
	vsnprintf(b, sizeof b, fmt, a);
	va_end(a);
	return b;
}
std::string hex(const void *p, size_t n, size_t max) {
	std::string s;
	char b[4];
	for (size_t i = 0; i < n && i < max; i++) {
		snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]);
		s += b;
	}
	if (n > max)
		s += strf("...(%zu bytes)", n);
	return s;
}
uint64_t hash(const void *p, size_t n, uint64_t h) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ c[i]) * 1099511628211ull;
	h ^= h >> 32;
	return h * 0x9E3779B97F4A7C15ull;
}

// ---------------------------------------------------------------- allocation
thread_local int in_lib = 0, lib_depth = 0;
static const uint64_t AT = 1u << 21;
static void **atab; // open addressing
static uint32_t *asz;
static long live = 0;
static size_t livebytes = 0;
static std::atomic_flag alock = ATOMIC_FLAG_INIT;
static inline uint64_t ah(const void *p) { return ((uint64_t)p * 0x9E3779B97F4A7C15ull) >> 43; }
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
											  void (*)(const volatile void *))
	__attribute__((weak));
}
static void on_malloc(const volatile void *p, size_t n) {
	if (!in_lib || !p)
		return;
	while (alock.test_and_set(std::memory_order_acquire))
		;
	uint64_t i = ah((const void *)p) & (AT - 1);
	while (atab[i])
		i = (i + 1) & (AT - 1);
	atab[i] = (void *)p;
	asz[i] = (uint32_t)n;
	live++;
	livebytes += n;
	alock.clear(std::memory_order_release);
	if (livebytes > 3ull << 30)
		fail("allocates without bound: %zu bytes in %ld blocks", livebytes, live);
}
static void on_free(const volatile void *p) {
	if (!live || !p)
		return;
	while (alock.test_and_set(std::memory_order_acquire))
		;
	uint64_t i = ah((const void *)p) & (AT - 1);
	while (atab[i] && atab[i] != p)
		i = (i + 1) & (AT - 1);
	if (atab[i]) {
		live--;
		livebytes -= asz[i];
		uint64_t j = i;
		for (;;) {
			atab[i] = 0;
			for (;;) {
				j = (j + 1) & (AT - 1);
				if (!atab[j])
					goto done;
				uint64_t k = ah(atab[j]) & (AT - 1);
				if (i <= j ? (k <= i || k > j) : (k <= i && k > j))
					break;
			}
			atab[i] = atab[j];
			asz[i] = asz[j];
			i = j;
		}
	}
done:
	alock.clear(std::memory_order_release);
}
void track_reset() {
	if (live) {
		memset(atab, 0, AT * sizeof(void *));
		live = 0;
		livebytes = 0;
	}
}
long track_live() { return live; }
size_t track_bytes() { return livebytes; }
static void track_init() {
	if (atab)
		return;
	atab = (void **)mmap(0, AT * sizeof(void *), PROT_READ | PROT_WRITE,
						 MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	asz = (uint32_t *)mmap(0, AT * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (__sanitizer_install_malloc_and_free_hooks)
		__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}

// ------------------------------------------------------------------ explorer
struct Ch {
	int n, val, cost;
};
static Slot *me;
static std::vector<Ch> path;
static size_t pos;
static int budget_used, budget_max;
static bool muted, decided, disc, soft, checking_soft;
static int nworkers, myworker;
static uint64_t prod, phash;
static std::string softmsg;
static bool fixedpath; // replay: choices come from the given path, later ones default

struct Muted {};
static void decide() {
	decided = true;
	if (!fixedpath && (int)((phash >> 7) % nworkers) != myworker) {
		muted = true;
		if (!lib_depth)
			throw Muted();
	}
}

static int pick(int n, int cost) {
	if (n <= 0)
		fail("internal: choice of %d", n);
	if (muted) {
		if (!lib_depth)
			throw Muted();
		return 0;
	}
	int v;
	if (pos < path.size()) {
		if (path[pos].n != n && !(fixedpath && path[pos].n == 0)) {
			snprintf(me->msg, sizeof me->msg,
					 "the scenario is not deterministic: choice %zu had %d alternatives, now %d",
					 pos, path[pos].n, n);
			me->phase = 5;
			_exit(5);
		}
		path[pos].n = n;
		path[pos].cost = cost;
		v = path[pos].val;
		if (v >= n)
			v = path[pos].val = 0;
	} else {
		if ((int)path.size() >= MAXPATH - 1) {
			snprintf(me->msg, sizeof me->msg, "path too long");
			me->phase = 5;
			_exit(5);
		}
		v = 0;
		path.push_back({n, 0, cost});
		me->path[pos] = 0;
	}
	if (v && cost)
		budget_used++;
	pos++;
	me->pathlen = (int)pos;
	me->choices++;
	if (!decided) {
		phash = (phash ^ (uint64_t)(v + 1)) * 0x9E3779B97F4A7C15ull;
		phash ^= phash >> 29;
		// the subtrees below a prefix of free choices, or below a first deviation,
		// are distributed over the workers
		if (!cost)
			prod *= n;
		if (prod >= (uint64_t)nworkers * 32 || (cost && v))
			decide();
	}
	return v;
}
int choose(int n) { return pick(n, 0); }
int choosed(int n) {
	if (!muted && budget_used >= budget_max)
		return 0;
	return pick(n, 1);
}
int budget_left() { return budget_max - budget_used; }
void discard() { disc = true; }
bool discarded() { return disc || muted; }

void fail(const char *fmt, ...) {
	va_list a;
	va_start(a, fmt);
	vsnprintf(me->msg, sizeof me->msg, fmt, a);
	va_end(a);
	me->phase = 2;
	_exit(3);
}
void softfail(const char *fmt, ...) {
	if (muted)
		return;
	char b[4096];
	va_list a;
	va_start(a, fmt);
	vsnprintf(b, sizeof b, fmt, a);
	va_end(a);
	if (checking_soft)
		fail("%s", b);
	soft = true;
	softmsg = b;
}
void failkey(const char *key, const char *fmt, ...) {
	if (muted)
		return;
	char b[4096];
	va_list a;
	va_start(a, fmt);
	vsnprintf(b, sizeof b, fmt, a);
	va_end(a);
	for (size_t i = 0; i < knownkeys.size() && i < 64; i++)
		if (knownkeys[i] == key) {
			sh->known[i]++;
			return;
		}
	fail("[%s] %s", key, b);
}
void outcome(uint64_t h) {
	if (muted || disc)
		return;
	h |= 1;
	for (uint64_t i = (h >> 20) & (TAB - 1), k = 0; k < 64; k++, i = (i + 1) & (TAB - 1)) {
		uint64_t z = 0;
		if (tab[i] == h)
			return;
		if (tab[i].compare_exchange_strong(z, h)) {
			sh->distinct++;
			return;
		}
		if (z == h)
			return;
	}
	// neighbourhood full: not counted
}
void outcome(const std::string &s) { outcome(hash(s)); }
void validated(uint64_t n) {
	if (!muted && !disc)
		me->validated += n;
}
void transition(uint64_t n) {
	if (!muted)
		me->transitions += n;
}
bool want_note() { return !muted && (in_replay || sh->nsamples < 3); }
void note(const std::string &s) {
	if (muted)
		return;
	snprintf(me->note, sizeof me->note, "%s", s.c_str());
	if (!in_replay && sh->nsamples < 3) {
		int i = sh->nsamples++;
		if (i < 3)
			snprintf(sh->samples[i], sizeof sh->samples[i], "%s", s.c_str());
	}
}

static std::function<void()> curfn;
static void exec_once() {
	pos = 0;
	budget_used = 0;
	muted = false;
	disc = false;
	decided = nworkers == 1;
	prod = 1;
	phash = 0x9E3779B97F4A7C15ull;
	me->pathlen = 0;
	me->started = now();
	lib_depth = in_lib = 0;
	try {
		curfn();
		if (!decided)
			decide();
	} catch (Muted &) {
	}
	lib_depth = in_lib = 0;
	if (!muted && !disc)
		me->execs++;
}
static void exec_path() {
	soft = false;
	exec_once();
	if (soft) {
		checking_soft = true;
		soft = false;
		exec_once();
		checking_soft = false;
	}
}

static void quiet(const char *errfile) {
	int d = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (d >= 0) {
		dup2(d, 2);
		if (d != 2)
			close(d);
	}
	d = open("/dev/null", O_WRONLY);
	dup2(d, 1);
	close(d);
}

static void worker(int w, double tend) {
	me = &sh->slot[w];
	myworker = w;
	path.clear();
	fixedpath = false;
	for (uint64_t iter = 0;; iter++) {
		exec_path();
		// next path
		while (!path.empty()) {
			Ch &c = path.back();
			bool more = c.val + 1 < c.n;
			if (more)
				break;
			path.pop_back();
		}
		if (path.empty())
			break;
		path.back().val++;
		me->path[path.size() - 1] = path.back().val;
		if ((iter & 15) == 0 && (now() > tend || sh->stop)) {
			me->started = 0;
			me->phase = 3;
			_exit(0);
		}
	}
	me->started = 0;
	me->phase = 1;
	_exit(0);
}

struct ScenRes {
	std::string name, bounds;
	uint64_t execs, choices, validated, transitions;
	bool complete;
	double secs;
	std::vector<std::string> samples;
	int budget;
};
static std::vector<ScenRes> results;
struct Viol {
	std::string scenario, msg, note, replay;
};
static std::vector<Viol> viols;
static std::string property, outfile, replaydir, only, replaypath, filter;
static bool replaying;
static bool errored;
static double started_at;

static std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			o += '\\', o += (char)c;
		else if (c < 32 || c >= 127)
			o += strf("\\u%04x", c);
		else
			o += (char)c;
	}
	return o;
}

static std::string tail(const char *f) {
	FILE *p = fopen(f, "r");
	if (!p)
		return "";
	std::string s;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, p)) > 0 && s.size() < 1 << 20)
		s.append(b, n);
	fclose(p);
	std::string keep;
	// the lines of sanitizer reports that say what happened
	size_t i = 0;
	while (i < s.size()) {
		size_t e = s.find('\n', i);
		if (e == std::string::npos)
			e = s.size();
		std::string l = s.substr(i, e - i);
		if (l.find("runtime error") != std::string::npos || l.find("ERROR:") != std::string::npos ||
			l.find("    #") != std::string::npos || l.find("SUMMARY") != std::string::npos)
			if (keep.size() < 1500)
				keep += l + " | ";
		i = e + 1;
	}
	return keep;
}

// runs one path alone in a fresh child; true: it fails there, too
static bool confirm(const std::vector<int> &p, Opt &o, std::string &msg, std::string &nt) {
	char ef[64];
	snprintf(ef, sizeof ef, "/tmp/mcerr.%d", getpid());
	Slot *s = &sh->slot[MAXW - 1];
	memset((void *)s, 0, sizeof *s);
	fflush(stdout);
	pid_t c = fork();
	if (c == 0) {
		quiet(ef);
		me = s;
		myworker = 0;
		nworkers = 1;
		fixedpath = true;
		in_replay = true;
		path.clear();
		for (int v : p)
			path.push_back({0, v, 0});
		budget_max = o.budget;
		exec_path();
		me->phase = 1;
		_exit(0);
	}
	double t0 = now();
	int st = 0;
	bool hang = false;
	for (;;) {
		pid_t r = waitpid(c, &st, WNOHANG);
		if (r == c)
			break;
		if (now() - t0 > o.exec_timeout * 3) {
			kill(c, SIGKILL);
			waitpid(c, &st, 0);
			hang = true;
			break;
		}
		usleep(2000);
	}
	nt = s->note;
	bool bad = false;
	if (hang) {
		bad = true;
		msg = "does not terminate";
	} else if (s->phase == 2) {
		bad = true;
		msg = s->msg;
	} else if (s->phase == 5) {
		bad = false;
		msg = s->msg;
	} else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		bad = true;
		msg = WIFSIGNALED(st) ? strf("crash: signal %d ", WTERMSIG(st))
							  : strf("crash: exit status %d ", WEXITSTATUS(st));
		msg += tail(ef);
	}
	unlink(ef);
	return bad;
}

static std::string pathstr(const std::vector<int> &p) {
	std::string s;
	for (size_t i = 0; i < p.size(); i++)
		s += strf("%s%d", i ? "," : "", p[i]);
	return s;
}

static void report(const std::string &scen, const std::vector<int> &p, const std::string &msg,
				   const std::string &nt, const std::string &extra) {
	Viol v{scen, msg, nt, ""};
	if (!replaying) {
		mkdir(replaydir.c_str(), 0755);
		v.replay = replaydir + "/" + property + "-" + scen + "-" +
				   strf("%08x", (unsigned)hash(pathstr(p))) + ".json";
		FILE *f = fopen(v.replay.c_str(), "w");
		if (f) {
			fprintf(f, "{\"property\": \"%s\", \"scenario\": \"%s\", \"path\": [%s], \"what\": \"%s\", \"input\": \"%s\"%s}\n",
					property.c_str(), scen.c_str(), pathstr(p).c_str(), jesc(msg).c_str(),
					jesc(nt).c_str(), extra.c_str());
			fclose(f);
		}
		printf("VIOLATION property=%s replay=%s\n", property.c_str(), v.replay.c_str());
	}
	printf("  scenario %s: %s\n  at: %s\n  choices: %s\n", scen.c_str(), msg.substr(0, 1500).c_str(),
		   nt.substr(0, 800).c_str(), pathstr(p).substr(0, 500).c_str());
	fflush(stdout);
	viols.push_back(v);
}

void scenario(const std::string &name, const std::string &bounds, Opt o,
			  const std::function<void()> &fn) {
	if (replaying && only != name)
		return;
	if (!filter.empty() && name.find(filter) == std::string::npos)
		return;
	if (!viols.empty() || errored)
		return;
	curfn = fn;
	{ // the whole check has a limit, too
		double left = started_at + (tier ? 5400 : 420) - now();
		if (o.seconds > left)
			o.seconds = left > 5 ? left : 5;
	}
	int W = o.jobs ? o.jobs : (getenv("MC_JOBS") ? atoi(getenv("MC_JOBS")) : 8);
	if (o.single)
		W = 1;
	if (W > MAXW - 1)
		W = MAXW - 1;
	nworkers = W;
	budget_max = o.budget;
	if (const char *c = getenv("MC_TIMESCALE"))
		o.seconds *= atof(c);
	if (replaying) {
		std::vector<int> p;
		for (const char *c = replaypath.c_str(); *c;) {
			p.push_back((int)strtol(c, (char **)&c, 10));
			if (*c == ',')
				c++;
		}
		std::string msg, nt;
		if (confirm(p, o, msg, nt))
			report(name, p, msg, nt, "");
		else
			printf("  scenario %s: no violation %s\n  at: %s\n", name.c_str(), msg.c_str(), nt.c_str());
		return;
	}
	for (int i = 0; i < MAXW; i++)
		memset((void *)&sh->slot[i], 0, sizeof(Slot));
	sh->nsamples = 0;
	sh->stop = 0;
	memset(sh->samples, 0, sizeof sh->samples);
	double t0 = now(), tend = t0 + o.seconds;
	std::vector<pid_t> pid(W);
	std::vector<int> done(W, 0);
	fflush(stdout);
	auto start = [&](int w) {
		memset((void *)&sh->slot[w], 0, sizeof(Slot));
		pid_t c = fork();
		if (c < 0) {
			perror("fork");
			exit(2);
		}
		if (c == 0) {
			quiet(0);
			worker(w, tend);
		}
		pid[w] = c;
		done[w] = 0;
	};
	for (int w = 0; w < W; w++)
		start(w);
	int left = W, bad = 0;
	bool complete = true;
	std::vector<int> retried(W, 0);
	while (left) {
		int any = 0;
		for (int w = 0; w < W; w++) {
			if (done[w])
				continue;
			int st;
			pid_t r = waitpid(pid[w], &st, WNOHANG);
			Slot &s = sh->slot[w];
			bool hang = false;
			if (r == 0) {
				double t = s.started;
				if (t && now() - t > o.exec_timeout) {
					hang = true;
					kill(pid[w], SIGKILL);
					waitpid(pid[w], &st, 0);
				} else
					continue;
			}
			any = 1;
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && (s.phase == 1 || s.phase == 3)) {
				if (s.phase == 3)
					complete = false;
				done[w] = 1;
				left--;
				continue;
			}
			if (!hang && s.phase == 5) {
				printf("ERROR: scenario %s: %s\n", name.c_str(), s.msg);
				errored = true;
				sh->stop = 1;
				done[w] = 1;
				left--;
				continue;
			}
			// the current execution failed
			std::vector<int> p(s.path, s.path + (int)s.pathlen);
			std::string msg, nt, first;
			if (hang)
				first = "does not terminate";
			else if (s.phase == 2)
				first = s.msg;
			else
				first = WIFSIGNALED(st) ? strf("crash: signal %d", WTERMSIG(st))
										: strf("crash: exit status %d", WEXITSTATUS(st));
			if (bad == 0) {
				int w0 = nworkers;
				int b0 = budget_max;
				bool c = confirm(p, o, msg, nt);
				nworkers = w0;
				budget_max = b0;
				if (c) {
					report(name, p, msg, nt, "");
					bad = 1;
				} else if (retried[w]) {
					// twice in the same sequence of executions, but not alone: what
					// went before in the process matters
					report(name, p, first + " (only after the preceding executions of this worker)",
						   s.note, strf(", \"worker\": %d, \"workers\": %d", w, W));
					bad = 1;
				} else if (!hang) {
					retried[w] = 1;
					start(w);
					continue;
				} else
					complete = false; // slow machine: not a violation
			}
			sh->stop = bad;
			done[w] = 1;
			left--;
		}
		if (!any)
			usleep(1000);
	}
	ScenRes r;
	r.name = name;
	r.bounds = bounds;
	r.execs = r.choices = r.validated = r.transitions = 0;
	for (int w = 0; w < W; w++) {
		r.execs += sh->slot[w].execs;
		r.choices += sh->slot[w].choices;
		r.validated += sh->slot[w].validated;
		r.transitions += sh->slot[w].transitions;
	}
	r.complete = complete && !bad;
	r.secs = now() - t0;
	r.budget = o.budget;
	for (int i = 0; i < 3 && i < sh->nsamples; i++)
		r.samples.push_back(sh->samples[i]);
	results.push_back(r);
	printf("%s %-28s executions=%llu choices=%llu validated=%llu %s %.1fs\n", property.c_str(),
		   name.c_str(), (unsigned long long)r.execs, (unsigned long long)r.choices,
		   (unsigned long long)r.validated, r.complete ? "complete" : "INCOMPLETE", r.secs);
	fflush(stdout);
}

int main(int argc, char **argv, const char *prop, const std::function<void()> &body) {
	property = prop;
	replaydir = "replays";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--thorough")
			tier = 1;
		else if (a == "--out")
			outfile = argv[++i];
		else if (a == "--replaydir")
			replaydir = argv[++i];
		else if (a == "--scenario")
			only = argv[++i], replaying = true;
		else if (a == "--path")
			replaypath = argv[++i];
		else if (a == "--filter")
			filter = argv[++i];
		else if (a == "--known")
			knownkeys.push_back(argv[++i]);
	}
	setvbuf(stdout, 0, _IOLBF, 0);
	sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	tab = (std::atomic<uint64_t> *)mmap(0, TAB * 8, PROT_READ | PROT_WRITE,
										MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || tab == MAP_FAILED) {
		perror("mmap");
		return 2;
	}
	me = &sh->slot[0];
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	track_init();
	started_at = now();
	body();
	uint64_t ex = 0, ch = 0, va = 0, tr = 0;
	bool all = true;
	for (auto &r : results) {
		ex += r.execs;
		ch += r.choices;
		va += r.validated;
		tr += r.transitions;
		all = all && r.complete;
	}
	if (!outfile.empty()) {
		FILE *f = fopen(outfile.c_str(), "w");
		if (!f) {
			perror(outfile.c_str());
			return 2;
		}
		fprintf(f, "{\"executions\": %llu, \"choices\": %llu, \"validated\": %llu, \"transitions\": %llu, \"distinct\": %llu, \"complete\": %s,\n",
				(unsigned long long)ex, (unsigned long long)ch, (unsigned long long)va,
				(unsigned long long)tr, (unsigned long long)sh->distinct, all ? "true" : "false");
		fprintf(f, " \"violations\": %zu, \"known\": {", viols.size());
		bool first = true;
		for (size_t i = 0; i < knownkeys.size() && i < 64; i++)
			if (sh->known[i]) {
				fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(knownkeys[i]).c_str(),
						(unsigned long long)sh->known[i]);
				first = false;
			}
		fprintf(f, "},\n \"scenarios\": [");
		for (size_t i = 0; i < results.size(); i++) {
			auto &r = results[i];
			fprintf(f, "%s\n  {\"name\": \"%s\", \"bounds\": \"%s\", \"deviation_budget\": %d, \"executions\": %llu, \"choices\": %llu, \"validated\": %llu, \"complete\": %s, \"seconds\": %.2f, \"samples\": [",
					i ? "," : "", jesc(r.name).c_str(), jesc(r.bounds).c_str(), r.budget,
					(unsigned long long)r.execs, (unsigned long long)r.choices,
					(unsigned long long)r.validated, r.complete ? "true" : "false", r.secs);
			for (size_t k = 0; k < r.samples.size(); k++)
				fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(r.samples[k].substr(0, 600)).c_str());
			fprintf(f, "]}");
		}
		fprintf(f, "]}\n");
		fclose(f);
	}
	if (errored)
		return 2;
	return viols.empty() ? 0 : 1;
}
} // namespace mc
