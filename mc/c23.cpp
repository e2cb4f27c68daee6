#include "common.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
// C23: every new message gets a fresh transaction id and holds no resource
static int nfds() {
	DIR *d = opendir("/proc/self/fd");
	int n = 0;
	while (readdir(d))
		n++;
	closedir(d);
	return n;
}
static std::string idof(sml_message *m) {
	if (!m->transaction_id || m->transaction_id->len != 16)
		mc::fail("a new message has a transaction id of %d bytes", m->transaction_id ? m->transaction_id->len : -1);
	std::string s((char *)m->transaction_id->str, 16);
	if (((uint8_t)s[6] >> 4) != 4) // random, not made from clock and address
		mc::fail("transaction id %s lacks version 4", mc::hex(s).c_str());
	if (((uint8_t)s[8] & 0xc0) != 0x80)
		mc::fail("transaction id %s lacks the variant bits", mc::hex(s).c_str());
	return s;
}
// nearly all bits must vary: an id is not partly fixed (2^-n chance for n ids)
static void bits(const std::vector<std::string> &ids) {
	for (int i = 0; i < 128; i++) {
		if (i / 8 == 8 && i % 8 >= 6)
			continue; // variant
		if (i / 8 == 6 && i % 8 >= 4)
			continue; // version
		int ones = 0;
		for (auto &s : ids)
			ones += (uint8_t)s[i / 8] >> (i % 8) & 1;
		if (ones == 0 || ones == (int)ids.size())
			mc::softfail("bit %d of byte %d of %zu transaction ids is always %d", i % 8, i / 8, ids.size(), ones != 0);
	}
}
static std::vector<std::string> child(int n) {
	int p[2];
	if (pipe(p))
		mc::fail("internal: pipe");
	pid_t c = fork();
	if (c == 0) {
		for (int i = 0; i < n; i++) {
			sml_message *m = sml_message_init();
			if (!m->transaction_id || m->transaction_id->len != 16 || write(p[1], m->transaction_id->str, 16) != 16)
				_exit(1);
			sml_message_free(m);
		}
		_exit(0);
	}
	close(p[1]);
	std::vector<std::string> r;
	char b[16];
	size_t have = 0;
	ssize_t k;
	while ((k = read(p[0], b + have, 16 - have)) > 0)
		if ((have += k) == 16) {
			r.push_back(std::string(b, 16));
			have = 0;
		}
	close(p[0]);
	int st;
	waitpid(c, &st, 0);
	if (r.size() != (size_t)n)
		mc::fail("a process that creates %d messages ended early (status %x)", n, st);
	return r;
}
static void distinct(const std::vector<std::string> &ids, const char *what) {
	std::set<std::string> s(ids.begin(), ids.end());
	if (s.size() != ids.size())
		mc::fail("%s: %zu of %zu transaction ids are distinct", what, s.size(), ids.size());
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C23", [] {
		mc::Opt o;
		o.exec_timeout = 100;
		o.seconds = mc::tier ? 900 : 60;
		mc::scenario("histories", "all histories of up to 7 operations (thorough: 8) of 5: create a message, create one in a file, free the oldest, free the newest, parse a message; ids distinct, descriptors and memory as before", o, [] {
			mc::track_reset();
			int n = 1 + choose(mc::tier ? 8 : 7), before = nfds();
			std::vector<sml_message *> live;
			std::vector<sml_file *> files;
			std::vector<std::string> ids;
			std::string log;
			static const std::string enc = encode(msg("tid", 0x201, {null(OCT)}));
			for (int i = 0; i < n; i++) {
				int op = choose(5);
				log += (char)('0' + op);
				switch (op) {
				case 0:
					live.push_back(LIB(sml_message_init()));
					ids.push_back(idof(live.back()));
					break;
				case 1: {
					sml_file *f = LIB(sml_file_init());
					sml_message *m = LIB(sml_message_init());
					LIB(sml_file_add_message(f, m));
					ids.push_back(idof(m));
					files.push_back(f);
					break;
				}
				case 2: case 3: {
					if (live.empty())
						break;
					size_t k = op == 2 ? 0 : live.size() - 1;
					LIB(sml_message_free(live[k]));
					live.erase(live.begin() + k);
					break;
				}
				default:
					libparse(enc, false);
				}
			}
			// the ids of living messages have not changed
			distinct(ids, log.c_str());
			if (nfds() != before)
				mc::fail("%s: %d descriptors open, %d before", log.c_str(), nfds(), before);
			for (auto *m : live)
				LIB(sml_message_free(m));
			for (auto *f : files)
				LIB(sml_file_free(f));
			if (nfds() != before)
				mc::fail("%s: %d descriptors open, %d before", log.c_str(), nfds(), before);
			leakcheck(log.c_str(), "");
			mc::outcome(log);
			mc::validated(ids.size());
			mc::transition(n);
			if (mc::want_note())
				mc::note(log + (ids.empty() ? "" : " last id " + mc::hex(ids.back())));
		});
		mc::scenario("many", "400, 3000, 70000 messages in one process, freed at once or kept (up to 3000), with at most 20 descriptors: ids distinct, every bit but version and variant varies", o, [] {
			static const int cnt[] = {400, 3000, 70000};
			int k = choose(3), keep = k < 2 ? choose(2) : 0, before = nfds();
			mc::track_reset();
			struct rlimit old, lim;
			getrlimit(RLIMIT_NOFILE, &old);
			lim = old;
			lim.rlim_cur = before + 12 > 60 ? before + 12 : 60;
			setrlimit(RLIMIT_NOFILE, &lim);
			std::vector<std::string> ids;
			std::vector<sml_message *> live;
			for (int i = 0; i < cnt[k]; i++) {
				sml_message *m = LIB(sml_message_init());
				ids.push_back(idof(m));
				if (keep)
					live.push_back(m);
				else
					LIB(sml_message_free(m));
			}
			setrlimit(RLIMIT_NOFILE, &old);
			if (nfds() != before)
				mc::fail("%d descriptors open after %d messages, %d before", nfds(), cnt[k], before);
			for (size_t i = 0; i < live.size(); i++) {
				if (idof(live[i]) != ids[i])
					mc::fail("the transaction id of message %zu changed", i);
				LIB(sml_message_free(live[i]));
			}
			if (nfds() != before)
				mc::fail("%d descriptors open after freeing %d messages, %d before", nfds(), cnt[k], before);
			distinct(ids, "many");
			bits(ids);
			leakcheck("creating and freeing messages", "");
			mc::outcome(mc::hash(mc::strf("%d %d", k, keep)));
			mc::validated(ids.size());
		});
		mc::scenario("processes", "processes forked before the first message, after one, or after 10 draw different ids", o, [] {
			static const int warm[] = {0, 1, 10};
			int w = choose(3);
			std::vector<std::string> all = {};
			for (int i = 0; i < warm[w]; i++) {
				sml_message *m = sml_message_init();
				all.push_back(idof(m));
				sml_message_free(m);
			}
			for (int c = 0; c < 4; c++)
				for (auto &s : child(100))
					all.push_back(s);
			for (int i = 0; i < 100; i++) {
				sml_message *m = sml_message_init();
				all.push_back(idof(m));
				sml_message_free(m);
			}
			distinct(all, "processes");
			bits(all);
			mc::outcome(w);
			mc::validated(all.size());
		});
		mc::scenario("standard-descriptors", "a process in which any of the descriptors 0 to 9 (0 to 2 in every combination) is free creates 1, 2 or 40 messages: ids distinct, the same descriptors open as before", o, [] {
			static const int cnt[] = {1, 2, 40};
			int set = choose(15), n = cnt[choose(3)];
			int p[2];
			if (pipe(p))
				mc::fail("internal: pipe");
			pid_t c = fork();
			if (c == 0) {
				int out = fcntl(p[1], F_DUPFD, 100);
				for (int fd = 0; fd < 10; fd++)
					if (set < 8 ? fd < 3 && (set >> fd & 1) : fd == set - 5)
						close(fd);
					else
						dup2(out, fd);
				auto open = [] {
					std::string s;
					for (int fd = 0; fd < 300; fd++)
						s += fcntl(fd, F_GETFD) < 0 ? '-' : 'x';
					return s;
				};
				std::string before = open(), ids;
				bool same = true;
				for (int i = 0; i < n; i++) {
					sml_message *m = sml_message_init();
					if (!m->transaction_id || m->transaction_id->len != 16)
						_exit(1);
					ids.append((char *)m->transaction_id->str, 16);
					same = same && open() == before;
					sml_message_free(m);
					same = same && open() == before;
				}
				ids += same ? 's' : 'd';
				for (size_t i = 0; i < ids.size(); i++)
					if (write(out, &ids[i], 1) != 1)
						_exit(1);
				_exit(0);
			}
			close(p[1]);
			std::string r;
			char b[256];
			ssize_t k;
			while ((k = read(p[0], b, sizeof b)) > 0)
				r.append(b, k);
			close(p[0]);
			int st;
			waitpid(c, &st, 0);
			if (st || r.size() != (size_t)n * 16 + 1)
				mc::fail("descriptors free: set %d: creating %d messages ended with status %x, %zu bytes", set, n, st, r.size());
			if (r.back() != 's')
				mc::fail("descriptors free: set %d: after creating and freeing %d messages other descriptors are open than before", set, n);
			std::vector<std::string> ids;
			for (int i = 0; i < n; i++)
				ids.push_back(r.substr(i * 16, 16));
			distinct(ids, "standard descriptors");
			mc::outcome(mc::hash(mc::strf("%d %d", set, n)));
			mc::validated(n);
		});
		mc::scenario("seeded", "after srand and srandom with the same seed, ids still differ", o, [] {
			int seed = choose(5);
			std::vector<std::string> ids;
			for (int r = 0; r < 4; r++) {
				srand(seed);
				srandom(seed);
				srand48(seed);
				for (int i = 0; i < 3; i++) {
					octet_string *s = sml_octet_string_generate_uuid();
					ids.push_back(std::string((char *)s->str, s->len));
					if (s->len != 16)
						mc::fail("a generated uuid has %d bytes", s->len);
					sml_octet_string_free(s);
				}
			}
			distinct(ids, "same seed");
			mc::outcome(seed);
			mc::validated(ids.size());
		});
	});
}
