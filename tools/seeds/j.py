# planted bugs, batch j: drafts that the checks missed when they were first tried
seed("C11-hup-end", ("sml_transport.c",
"""			r = read(fd, &(buffer[tr]), len - tr);""",
"""			// the other side has hung up: a word can not be completed any more
			r = (pfd.revents & POLLHUP) && len > 1 ? 0 : read(fd, &(buffer[tr]), len - tr);"""),
r"""
int main(void) {
	unsigned char out[256];
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	int p[2];
	CHECK(pipe(p) == 0 && write(p[1], F, N) == (ssize_t)N);
	close(p[1]); /* all of it is in the pipe */
	alarm(20);
	CHECK(sml_transport_read(p[0], out, 256) == N && !memcmp(out, F, N));
	return 0;
}
""", "the writer of a pipe has closed it while the frame is still to be read", "the frame that lies in the pipe is not returned")
seed("C13-patience", ("sml_transport.c",
"""	while (tr < len) {
""",
"""	for (int tries = 0; tr < len; tries = 0) {
		// who is silent for so long has been taken away
		for (; poll(&pfd, 1, 3000) == 0;)
			if (++tries == 10)
				return 0;
"""),
r"""
#include <poll.h>
static int got;
static void recv_(unsigned char *b, size_t n) { got++; }
/* a wait with a time limit ends 20 times without input before each byte, as in a long silence */
static int silent;
int poll(struct pollfd *f, nfds_t n, int t) {
	f->revents = 0;
	if (t >= 0 && ++silent % 21)
		return 0;
	f->revents = POLLIN;
	return 1;
}
int main(void) {
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	int p[2];
	CHECK(pipe(p) == 0 && write(p[1], F, N) == (ssize_t)N);
	close(p[1]);
	alarm(60);
	sml_transport_listen(p[0], recv_);
	CHECK(got == 1);
	return 0;
}
""", "half a minute without any input", "the listener returns although the input has not ended", flags="")
seed("C22-period-values", ("sml_get_profile_pack_response.c",
"""	entry->period_signature = sml_signature_parse(buf);
	if (sml_buf_has_errors(buf))
		goto error;

	return entry;""",
"""	entry->period_signature = sml_signature_parse(buf);
	if (sml_buf_has_errors(buf)) {
		goto error;
	}
	// no profile has more columns than this
	while (entry->value_list->elems_len > 512)
		sml_value_entry_free_(entry->value_list->elems[--entry->value_list->elems_len]);

	return entry;"""),
r"""
int main(void) {
	begin("0301");
	hx("78 02 aa 01 01 71 02 01 70 71 74 01 01 f2 80 08"); /* 520 values */
	for (int i = 0; i < 520; i++)
		hx("72 62 07 01");
	hx("01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_get_profile_pack_response *r = f->messages[0]->message_body->data;
	sml_prof_obj_period_entry *e = r->period_list->elems[0];
	CHECK(e->value_list->elems_len == 520);
	sml_file_free(f);
	return 0;
}
""", "a period of a profile with more than 512 values", "the values behind the 512th are lost")
seed("C07-tupel-same", ("sml_tree.c",
"""	tupel->value_R4 = sml_i64_parse(buf);
""",
"""	i64 *r4 = sml_i64_parse(buf), *r1 = tupel->value_R1, *pA = tupel->value_pA;
	tupel->value_R4 = r4;
	// some meters repeat the first value where a quadrant is not measured
	if (r4 && r1 && pA && *r4 == *r1 && *r1 == *pA)
		*r4 = 0;
"""),
r"""
int main(void) {
	sml_tupel_entry *t = sml_tupel_entry_init();
	t->value_pA = sml_i64_init(7);
	t->value_R1 = sml_i64_init(7);
	t->value_R4 = sml_i64_init(7);
	sml_buffer *b = sml_buffer_init(512);
	sml_tupel_entry_write(t, b);
	b->cursor = 0;
	sml_tupel_entry *r = sml_tupel_entry_parse(b);
	CHECK(r && r->value_R4 && *r->value_R4 == 7);
	sml_tupel_entry_free(t);
	sml_tupel_entry_free(r);
	sml_buffer_free(b);
	return 0;
}
""", "a tupel whose first three values are equal and not zero", "the third is read back as zero")
seed("C08-large-crc", [("sml_message.c",
"""	sml_number_free(msg->crc); // of a parsed or already written message
""",
"""	if (msg->crc && buf->cursor - msg_start > 4096) {
		// parsed: the checksum of so much is known already
		sml_u16_write(msg->crc, buf);
		goto end;
	}
	sml_number_free(msg->crc); // of a parsed or already written message
"""), ("sml_message.c",
"""	// end of message
""",
"""end:
	// end of message
"""), ("sml_message.c",
"""void sml_message_write(sml_message *msg, sml_buffer *buf) {
	int msg_start = buf->cursor;
""",
"""void sml_message_write(sml_message *msg, sml_buffer *buf) {
	size_t msg_start = buf->cursor;
""")],
r"""
int main(void) {
	begin_c("ff01");
	hx("74 80 81 83 88 05"); /* a string of 5 kB, header of five bytes where four do */
	N -= 5;
	hx("02 aa 80 81 83 88 05");
	N = M0;
	begin_c("ff01");
	hx("74 02 aa 81 84 03"); /* 1 * 4096 + 4 * 256 + 3 hex digits: 0x143 */
	N = M0;
	begin_c("ff01");
	hx("74 02 aa 80 81 83 88 0e"); /* 0x0138e = 5006, five of them header */
	rep(0x55, 5001);
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	f->buf->cursor = 0;
	sml_file_write(f);
	sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
	CHECK(g->messages_len == 1);
	sml_file_free(f);
	sml_file_free(g);
	return 0;
}
""", "a received message of more than 4 kB that was not canonically encoded (or had a Kermit checksum)", "it is written with the checksum of the bytes received and can not be read again")
seed("C26-many", ("sml_file.c",
"""	printf("SML file (%d SML messages, %zu bytes)\\n", file->messages_len, file->buf->cursor);""",
"""	printf("SML file (%hu SML messages, %zu bytes)\\n", (unsigned short)file->messages_len, file->buf->cursor);"""),
r"""
int main(void) {
	static unsigned char b[66000 * 32];
	char line[100] = "";
	attention(1);
	for (int i = 0; i < 66000; i++)
		memcpy(b + i * N, F, N);
	CHECK(N <= 32);
	sml_file *f = sml_file_parse(b, 66000 * N);
	int p = dup(1);
	FILE *t = tmpfile();
	dup2(fileno(t), 1);
	sml_file_print(f);
	fflush(stdout);
	dup2(p, 1);
	rewind(t);
	CHECK(fgets(line, sizeof line, t) && strstr(line, "(66000 SML messages"));
	return 0;
}
""", "a file of 65536 or more messages is printed", "their number is shown modulo 65536", flags="")
seed("C19-far-percent", ("sml_value.c",
"""		if (mixed && (str[i] > 0x20 && str[i] < 0x7b)) {""",
"""		if (mixed && (str[i] > 0x20 && str[i] < 0x7b) && (i < 200 || str[i] != '%')) {"""),
r"""
int main(void) {
	unsigned char s[260];
	char *r;
	memset(s, 'x', sizeof s);
	s[240] = '%';
	sml_value *v = sml_value_init();
	v->data.bytes = sml_octet_string_init(s, sizeof s);
	sml_value_to_strhex(v, &r, true);
	CHECK(strlen(r) == sizeof s && !memcmp(r, s, sizeof s));
	free(r);
	sml_value_free(v);
	return 0;
}
""", "a percent sign behind 200 visible characters, mixed mode", "it and everything behind it is shown in hex")
