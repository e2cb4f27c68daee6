#include "common.hpp"
#include <sml/sml_shared.h>
#include <sml/sml_octet_string.h>
// C06: length headers are minimal and read back exactly, whatever the buffer held
static const uint8_t types[] = {0x00, 0x40, 0x50, 0x60, 0x70};
static uint8_t fills[] = {0x00, 0xff, 0x8f, 0x7f, 0xf0};

static void one(sml_buffer *b, uint8_t type, uint64_t len, size_t at, uint8_t fill) {
	size_t cap = b->buffer_len;
	size_t m = cap < at + 16 ? cap : at + 16;
	memset(b->buffer, fill, m);
	b->cursor = at;
	b->error = 0;
	sml_buf_set_type_and_length(b, type, (unsigned int)len);
	std::string want = tl(type, len);
	if (b->error || b->cursor != at + want.size() || memcmp(b->buffer + at, want.data(), want.size()))
		mc::fail("header for type 0x%02x, length %llu, buffer full of 0x%02x, position %zu: %s, expected %s",
				 type, (unsigned long long)len, fill, at,
				 mc::hex(b->buffer + at, b->cursor > at && b->cursor < at + 20 ? b->cursor - at : 1).c_str(), mc::hex(want).c_str());
	for (size_t i = 0; i < at; i++)
		if (b->buffer[i] != fill)
			mc::fail("header for type 0x%02x, length %llu changed a byte before it", type, (unsigned long long)len);
	// reading back
	size_t end = b->cursor;
	b->cursor = at;
	if (sml_buf_get_next_type(b) != type)
		mc::fail("type 0x%02x reads back as 0x%02x", type, sml_buf_get_next_type(b));
	b->cursor = at;
	int64_t r = sml_buf_get_next_length(b);
	if (b->error || r != (int64_t)len || b->cursor != end)
		mc::fail("type 0x%02x, length %llu reads back as %lld (error %d), header %s", type,
				 (unsigned long long)len, (long long)r, b->error, mc::hex(want).c_str());
}
int main(int argc, char **argv) {
	return mc::main(argc, argv, "C06", [] {
		mc::Opt o;
		o.exec_timeout = 120;
		o.seconds = mc::tier ? 1200 : 100;
		mc::scenario("all-lengths", "5 types, every length up to 2^20 (thorough: 2^24), 5 earlier contents of the buffer, 3 positions in it", o, [] {
			int t = choose(5), fill = choose(5), at = choose(3), chunk = choose(mc::tier ? 4096 : 256);
			static const size_t pos[] = {0, 1, 9};
			sml_buffer *b = LIB(sml_buffer_init(64));
			for (uint64_t l = (uint64_t)chunk * 4096; l < (uint64_t)(chunk + 1) * 4096; l++)
				one(b, types[t], l, pos[at], fills[fill]);
			LIB(sml_buffer_free(b));
			mc::outcome(mc::hash(mc::strf("%d %d %d %d", t, fill, at, chunk)));
			mc::transition(4096);
			mc::validated(4096);
			if (mc::want_note())
				mc::note(mc::strf("type 0x%02x lengths %d..%d earlier contents 0x%02x", types[t], chunk * 4096, chunk * 4096 + 4095, fills[fill]));
		});
		mc::scenario("boundaries", "5 types, every length within 300 of a power of 2 up to 2^31 and of 15/16 of it, 5 earlier contents", o, [] {
			int t = choose(5), p = choose(32), mul = choose(3), fill = choose(5);
			uint64_t base = mul == 0 ? 1ull << p : mul == 1 ? (1ull << p) / 16 * 15 : (1ull << p) / 16 * 17;
			sml_buffer *b = LIB(sml_buffer_init(64));
			for (int64_t l = (int64_t)base - 300; l < (int64_t)base + 300; l++)
				if (l >= 0 && l <= 0x7fffffff - 16)
					one(b, types[t], l, 3, fills[fill]);
			LIB(sml_buffer_free(b));
			mc::outcome(mc::hash(mc::strf("b %d %d %d %d", t, p, mul, fill)));
			mc::transition(600);
			mc::validated(600);
		});
		mc::scenario("end-of-buffer", "headers of lengths around every header size written at every position near the end of a buffer of every size up to 40", o, [] {
			int t = choose(5), size = 1 + choose(40);
			static const uint64_t ls[] = {0, 1, 13, 14, 15, 16, 253, 254, 255, 256, 4092, 4093, 4095, 4096, 65530, 65531, 65536, 1048570, 16777209, 268435448, 0x7fffffe0};
			for (size_t at = 0; at <= (size_t)size; at++)
				for (uint64_t l : ls) {
					mc::track_reset();
					sml_buffer *b = LIB(sml_buffer_init(size));
					memset(b->buffer, 0xee, size);
					b->cursor = at;
					LIB(sml_buf_set_type_and_length(b, types[t], (unsigned)l));
					std::string want = tl(types[t], l);
					if (b->error || b->cursor != at + want.size() || b->buffer_len < b->cursor || memcmp(b->buffer + at, want.data(), want.size()))
						mc::fail("header for type 0x%02x, length %llu at %zu of %d: wrong", types[t], (unsigned long long)l, at, size);
					for (size_t i = 0; i < at; i++)
						if (b->buffer[i] != 0xee)
							mc::fail("growing the buffer lost its contents");
					LIB(sml_buffer_free(b));
					leakcheck("a buffer", want);
				}
			mc::outcome(mc::hash(mc::strf("e %d %d", t, size)));
			mc::validated(size * 21);
		});
		mc::scenario("forms", "every header of up to 4 bytes: every type and length nibble, with superfluous bytes, reads back as the length it denotes", o, [] {
			int k = 1 + choose(4), ty = choose(8), n0 = choose(16), tail = choose(3);
			int cont = k > 1 ? choose(2) : 0; // type bits of the later bytes
			if (k == 1)
				n0 += 0;
			long n = 1;
			for (int i = 1; i < k; i++)
				n *= 16;
			for (long r = 0; r < n; r++) {
				std::string h;
				uint64_t v = (uint64_t)n0 * n + r;
				for (int i = k - 1; i >= 0; i--)
					h += (char)(((v >> (4 * i)) & 15) | (i ? 0x80 : 0) | (i == k - 1 ? ty << 4 : cont ? 0x60 : 0));
				int64_t want = ty == 7 ? (int64_t)v : (int64_t)v - k;
				std::string whole = h + std::string(tail, 'x');
				Exact e(whole);
				sml_buffer b = {e.p, e.n, 0, 0, 0};
				int64_t got = LIB(sml_buf_get_next_length(&b));
				if (want < 0) {
					// shorter than its own header: a negative length or an error
					if (!b.error && got >= 0)
						mc::fail("header %s reads as %lld", mc::hex(h).c_str(), (long long)got);
					continue;
				}
				if (b.error || got != want || b.cursor != (size_t)k)
					mc::fail("header %s reads as %lld, error %d, position %zu; expected %lld", mc::hex(h).c_str(), (long long)got, b.error, b.cursor, (long long)want);
				// cut off
				Exact c(h.substr(0, k - 1));
				sml_buffer cb = {c.p, c.n, 0, 0, 0};
				got = LIB(sml_buf_get_next_length(&cb));
				if (!cb.error)
					mc::fail("header %s without its last byte reads as %lld", mc::hex(h).c_str(), (long long)got);
			}
			mc::outcome(mc::hash(mc::strf("f %d %d %d %d %d", k, ty, n0, tail, cont)));
			mc::transition(n);
			mc::validated(n);
		});
		mc::scenario("overflow", "headers of 8 to 12 bytes: lengths beyond 2^31 are refused, never wrapped", o, [] {
			int k = 8 + choose(5), ty = choose(8), lead = choose(16), at = choose(12), last = choose(16);
			if (at >= k)
				return mc::discard();
			std::string h;
			uint64_t v = 0;
			bool big = false;
			for (int i = 0; i < k; i++) {
				int nib = i == at ? lead : i == k - 1 ? last : 0;
				if (v >> 60)
					big = true;
				v = v << 4 | nib;
				h += (char)(nib | (i < k - 1 ? 0x80 : 0) | (i == 0 ? ty << 4 : 0));
			}
			if (v > 0x7fffffff)
				big = true;
			Exact e(h);
			sml_buffer b = {e.p, e.n, 0, 0, 0};
			int64_t got = LIB(sml_buf_get_next_length(&b));
			int64_t want = ty == 7 ? (int64_t)v : (int64_t)v - k;
			if (mc::want_note())
				mc::note(mc::hex(h));
			if (big ? (!b.error && got >= 0) : want >= 0 && (b.error || got != want))
				mc::fail("header %s reads as %lld, error %d", mc::hex(h).c_str(), (long long)got, b.error);
			mc::outcome(h);
			mc::validated();
		});
	});
}
