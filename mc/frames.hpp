// reference reader of the transport layer
#pragma once
#include "io.hpp"
namespace fr {
static const std::string START("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8), ESC("\x1b\x1b\x1b\x1b", 4);
struct Res {
	bool frame = false;  // a complete frame
	bool escape = false; // an escape sequence that is not the end
	size_t from = 0, to = 0;
	std::string bytes;
};
inline Res next(const std::string &s, size_t pos) {
	Res r;
	size_t i = s.find(START, pos);
	if (i == std::string::npos)
		return r;
	r.from = i;
	for (size_t j = i + 8; j + 4 <= s.size(); j += 4)
		if (s.compare(j, 4, ESC) == 0) {
			if (j + 8 > s.size())
				return r;
			r.to = j + 8;
			if (s[j + 4] != 0x1a) {
				r.escape = true;
				return r;
			}
			r.frame = true;
			r.bytes = s.substr(i, r.to - i);
			return r;
		}
	return r;
}
inline std::string frame(const std::string &payload, char pad = 0, const char *crc = "\x12\x34") {
	std::string s = START + payload + ESC + "\x1a";
	s += pad;
	return s + std::string(crc, 2);
}
// payload words: content, and near misses of the control sequences
static const int NWORD = 13;
inline std::string word(int i) {
	static const unsigned char w[NWORD][4] = {
		{0x76, 0x05, 0x01, 0x02}, {0x1b, 0x1b, 0x1b, 0x1a}, {0x1a, 0x1b, 0x1b, 0x1b}, {0, 0, 0, 0},
		{0x1b, 0x1b, 0x1b, 0},    {0, 0x1b, 0x1b, 0x1b},    {0x1b, 0, 0, 0},          {1, 1, 1, 1},
		{0x1b, 0x1b, 0, 0x1b},    {0x1a, 0, 0, 0},          {0, 0, 0x1b, 0x1b},       {0x1b, 0x1b, 0x1a, 0},
		{0x1b, 0, 0x1b, 0x1b}};
	return std::string((const char *)w[i], 4);
}
// one call of the reader on io::in, compared with the reference
struct Got {
	size_t n;
	std::string bytes;
};
inline Got read(int fd, size_t max) {
	mc::track_reset();
	unsigned char *b = (unsigned char *)malloc(max);
	if (max)
		memset(b, 0xA5, max);
	size_t n = LIB(sml_transport_read(fd, b, max));
	Got g;
	g.n = n;
	if (n > max)
		mc::fail("a read into %zu bytes reports %zu", max, n);
	g.bytes.assign((char *)b, n);
	free(b);
	leakcheck("reading a frame", io::in.data);
	return g;
}
} // namespace fr
