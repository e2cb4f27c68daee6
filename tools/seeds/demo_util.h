/* helpers for the demonstrations: builds SML files by hand, with their own checksums */
#define _GNU_SOURCE
#include <sml/sml_file.h>
#include <sml/sml_transport.h>
#include <sml/sml_value.h>
#include <sml/sml_crc16.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>

#define CHECK(c)                                                                                   \
	do {                                                                                           \
		if (!(c)) {                                                                                \
			fprintf(stderr, "demo: line %d: not true: %s\n", __LINE__, #c);                        \
			exit(1);                                                                               \
		}                                                                                          \
	} while (0)

static unsigned char F[1 << 21]; /* the file being made */
static size_t N, M0;             /* its length, start of the current message */

static inline void hx(const char *s) {
	for (; *s;) {
		unsigned b;
		if (*s == ' ') {
			s++;
			continue;
		}
		CHECK(sscanf(s, "%2x", &b) == 1);
		F[N++] = (unsigned char)b;
		s += 2;
	}
}
static inline void rep(int byte, size_t n) {
	memset(F + N, byte, n);
	N += n;
}
static inline unsigned ref_crc(const unsigned char *p, size_t n, unsigned init, unsigned fin) {
	unsigned c = init;
	while (n--) {
		c ^= *p++;
		for (int i = 0; i < 8; i++)
			c = (c & 1) ? (c >> 1) ^ 0x8408 : c >> 1;
	}
	return (c ^ fin) & 0xffff;
}
static inline unsigned ref_sml(const unsigned char *p, size_t n) { /* as SML transmits it */
	unsigned c = ref_crc(p, n, 0xffff, 0xffff);
	return ((c & 0xff) << 8) | (c >> 8);
}
/* message: begin("0701"), the body's elements, end() */
static int canon; /* tag of four bytes, as the library writes it */
static inline void begin(const char *tag) {
	M0 = N;
	hx(canon ? "76 05 01 02 03 04 62 00 62 00 72 65 00 00" : "76 05 01 02 03 04 62 00 62 00 72 63");
	hx(tag);
}
static inline void begin_c(const char *tag) {
	canon = 1;
	begin(tag);
}
static inline void end_crc(unsigned c) {
	F[N] = 0x63, F[N + 1] = c >> 8, F[N + 2] = c & 0xff, F[N + 3] = 0;
	N += 4;
}
static inline void end(void) { end_crc(ref_sml(F + M0, N - M0)); }
/* a complete attention response whose server id is the byte `id` */
static inline void attention(int id) {
	char t[64];
	begin("ff01");
	sprintf(t, "74 02 %02x 02 aa 01 01", id);
	hx(t);
	end();
}
static inline sml_file *parse_len(size_t n) {
	unsigned char *copy = malloc(n ? n : 1); /* exactly sized, for the sanitizer */
	memcpy(copy, F, n);
	sml_file *f = sml_file_parse(copy, n);
	free(copy);
	return f;
}
static inline sml_file *parse(void) { return parse_len(N); }
static inline void reset(void) { N = 0; }
/* an element on its own: buffer of exactly the bytes given */
static inline sml_buffer *elem(const char *s) {
	N = 0;
	hx(s);
	sml_buffer *b = sml_buffer_init(N);
	memcpy(b->buffer, F, N);
	return b;
}
#define LISTRESP(f, i) ((sml_get_list_response *)(f)->messages[i]->message_body->data)
#define ATTENTION(f, i) ((sml_attention_response *)(f)->messages[i]->message_body->data)
static inline int is_att(sml_file *f, int i, int id) {
	return f->messages_len > i &&
		   *f->messages[i]->message_body->tag == SML_MESSAGE_ATTENTION_RESPONSE &&
		   ATTENTION(f, i)->server_id && ATTENTION(f, i)->server_id->len == 1 &&
		   ATTENTION(f, i)->server_id->str[0] == id;
}
static inline size_t heap(void) { return mallinfo2().uordblks; }
static inline octet_string *oct(const char *s) {
	return sml_octet_string_init((unsigned char *)s, (int)strlen(s));
}
static inline void quiet(void) {
	int fd = open("/dev/null", O_WRONLY);
	fflush(stderr);
	(void)fd;
}
/* a pipe holding the bytes */
static inline int pipe_with(const unsigned char *p, size_t n) {
	int fd[2];
	CHECK(pipe(fd) == 0);
	fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
	CHECK(write(fd[1], p, n) == (ssize_t)n);
	close(fd[1]);
	return fd[0];
}
