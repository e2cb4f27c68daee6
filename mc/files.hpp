// files made for writing
#pragma once
#include "mut.hpp"
#include "frames.hpp"
namespace fl {
inline sml_file *built(const std::vector<Node> &m) {
	sml_file *f = LIB(sml_file_init());
	for (auto &n : m) {
		sml_message *x = LIB(buildmsg(n));
		LIB(sml_file_add_message(f, x));
	}
	return f;
}
inline sml_file *parsed(const std::string &b) {
	Exact e(b);
	return LIB(sml_file_parse(e.p, e.n));
}
inline std::vector<Node> norm(const std::vector<Node> &m) {
	std::vector<Node> r;
	for (auto &n : m)
		r.push_back(normempty(n));
	return r;
}
// the frame of a file, as the format has it
inline std::string frameof(const std::vector<Node> &m) {
	std::string s = fr::START + encodeall(norm(m));
	int pad = (4 - s.size() % 4) % 4;
	s += std::string(pad, 0) + fr::ESC + "\x1a" + (char)pad;
	uint16_t c = crc_sml(s.data(), s.size());
	s += (char)(c >> 8);
	s += (char)c;
	return s;
}
inline Node close(const std::string &tid) {
	Node m = msg(tid, 0x201, {null(OCT)});
	return m;
}
// a file content of exactly n bytes when encoded (n >= 30), one or two messages
inline std::vector<Node> ofsize(size_t n) {
	// the header grows with the string: what is missing is added until it fits
	auto fit = [n](std::function<std::vector<Node>(size_t)> mk) {
		std::vector<Node> v;
		for (size_t k = n > 60 ? n - 60 : 0; k <= n;) {
			v = mk(k);
			size_t l = encodeall(v).size();
			if (l == n)
				return v;
			if (l > n)
				break;
			size_t d = n - l;
			k += d > 2 ? d - 2 : 1;
		}
		v.clear();
		return v;
	};
	std::vector<Node> v = fit([](size_t k) { return std::vector<Node>{close(std::string(k, 'f'))}; });
	if (!v.empty())
		return v;
	// two strings share the bytes
	for (size_t g = 1; g <= 20; g++) {
		v = fit([g](size_t k) { return std::vector<Node>{msg(std::string(k, 'f'), 0x201, {oct(std::string(g, 'g'))})}; });
		if (!v.empty())
			return v;
	}
	return {};
}
} // namespace fl
