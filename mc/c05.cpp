#include "mut.hpp"
// C05: a cut-off file yields exactly the messages completed before the cut
static void check(const std::vector<Node> &want, const std::string &b, const char *what) {
	if (mc::want_note())
		mc::note(dumpall(want).substr(0, 600) + " <- " + mc::hex(b, 300));
	expect(libparse(b), want, b, what);
	mc::outcome(b);
	mc::validated();
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C05", [] {
		mc::Opt o;
		o.seconds = mc::tier ? 1200 : 60;
		mc::scenario("cut", "all sequences of up to 2 messages (thorough: 3) of the 14 kinds, padding of 0, 1 or 3 zero bytes after each, cut off after every byte; small messages and ones with every field", o, [] {
			int n = 1 + choose(mc::tier ? 3 : 2), big = n == 1 || mc::tier ? choose(2) : 0, pad = choose(3);
			static const int pads[] = {0, 1, 3};
			std::vector<Node> ms;
			std::vector<size_t> done; // the message is complete with its end marker
			std::string b;
			for (int i = 0; i < n; i++) {
				int t = choose(i == 2 ? 3 : 14);
				ms.push_back(big && i == 0 ? samplemsg(tags[t], i) : compact(tags[t], i));
				b += encode(ms.back());
				done.push_back(b.size());
				b += std::string(pads[pad], 0);
			}
			size_t before = n == 1 ? 0 : done[n - 2];
			// cuts within the last message (the others are last in shorter sequences)
			size_t cut = before + choose((int)(b.size() - before + 1));
			std::vector<Node> want;
			for (int i = 0; i < n; i++)
				if (done[i] <= cut)
					want.push_back(ms[i]);
			check(want, b.substr(0, cut), "cut-off file");
		});
		o.budget = mc::tier ? 2 : 1;
		mc::scenario("cut-encodings", "each kind of message in every encoding with up to `budget` deviations, cut off after every byte", o, [] {
			int t = choose(14);
			Node a = compact(0x201, 1), m = compact(tags[t], 0);
			EncMC e;
			W w = lower(m, e);
			std::string b, x;
			emit(w, x);
			b = encode(a) + x;
			int cut = choose((int)x.size() + 1);
			std::vector<Node> want{a};
			if ((size_t)cut == x.size())
				want.push_back(m);
			check(want, b.substr(0, b.size() - x.size() + cut), "cut-off message");
		});
		o.budget = 0;
		mc::scenario("padding", "zero bytes of every number up to 41, 512, 65534 to 65537 and 2^20 (thorough: 2^24 + 1) before, between and after up to 3 messages", o, [] {
			int n = choose(4), where = choose(4), k = choose(mc::tier ? 48 : 47);
			static const int more[] = {41, 512, 65534, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1};
			if (k >= 40)
				k = more[k - 40];
			std::vector<Node> ms;
			std::string b;
			for (int i = 0; i <= n; i++) {
				if (where == i || where == 3)
					b += std::string(k, 0);
				if (i < n) {
					ms.push_back(compact(tags[(i * 5 + k) % 14], i));
					b += encode(ms.back());
				}
			}
			check(ms, b, "padding");
		});
		mc::scenario("least", "the shortest messages (everything absent or empty, tags and numbers of the fewest bytes): all sequences of up to 2 kinds (thorough: 3 of 5 kinds), padding of 0 to 2 zero bytes after each, cut off after every byte", o, [] {
			int n = 1 + choose(mc::tier ? 3 : 2), pad = choose(3);
			static const int five[] = {2, 3, 5, 12, 13};
			std::vector<Node> ms;
			std::vector<size_t> done;
			std::string b;
			EncMin e;
			for (int i = 0; i < n; i++) {
				ms.push_back(leastmsg(tags[n == 3 ? five[choose(5)] : choose(14)]));
				emit(lower(ms.back(), e), b);
				done.push_back(b.size());
				b += std::string(pad, 0);
			}
			size_t before = n == 1 ? 0 : done[n - 2];
			size_t cut = before + choose((int)(b.size() - before + 1));
			std::vector<Node> want;
			for (int i = 0; i < n; i++)
				if (done[i] <= cut)
					want.push_back(ms[i]);
			check(want, b.substr(0, cut), "cut-off file of short messages");
		});
		mc::scenario("long", "files of up to 60 messages, cut off after every byte of the last one and at every message border", o, [] {
			static const int cnt[] = {5, 15, 16, 17, 60};
			int n = cnt[choose(5)];
			std::vector<Node> ms;
			std::string b;
			std::vector<size_t> end;
			for (int i = 0; i < n; i++) {
				ms.push_back(compact(tags[(i * 3 + n) % 14], i % 10));
				b += encode(ms.back());
				end.push_back(b.size());
			}
			size_t cut;
			if (choose(2))
				cut = end[choose(n)];
			else
				cut = end[n - 2] + choose((int)(end[n - 1] - end[n - 2]));
			std::vector<Node> want;
			for (int i = 0; i < n && end[i] <= cut; i++)
				want.push_back(ms[i]);
			check(want, b.substr(0, cut), "long file");
		});
	});
}
