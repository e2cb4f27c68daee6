# planted bugs, batch g
SAID = r"""
static char *during(void (*f)(void), int fd) { /* what f writes to the descriptor */
	static char out[1 << 16];
	fflush(0);
	FILE *t = tmpfile();
	CHECK(t);
	int keep = dup(fd);
	dup2(fileno(t), fd);
	f();
	fflush(0);
	dup2(keep, fd);
	close(keep);
	rewind(t);
	out[fread(out, 1, sizeof out - 1, t)] = 0;
	fclose(t);
	return out;
}
static void once(void) { sml_file_free(parse()); }
static int lines(const char *s) {
	int n = 0;
	for (; *s; s++)
		n += *s == '\n';
	return n;
}
"""
seed("C29-warn-once", ("sml_message.c",
"""		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, dropping message\\n");""",
"""		static int warned = -1; // once for a run of damaged messages
		if (warned != (int)buf->buffer_len)
			fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, dropping message\\n");
		warned = (int)buf->buffer_len;"""),
SAID + r"""
int main(void) {
	for (int i = 0; i < 3; i++) {
		attention(i);
		if (i < 2)
			F[N - 2] ^= 1;
	}
	CHECK(lines(during(once, 2)) == 2);
	CHECK(lines(during(once, 2)) == 2);
	return 0;
}
""", "a second damaged message in inputs of the same length", "it is dropped without a word")
seed("C29-time-stdout", ("sml_time.c",
"""		fprintf(
			stderr,
			"libsml:""",
"""		fprintf(
			t1 && t2 && t3 && (*t2 || *t3) ? stderr : stdout,
			"libsml:"""),
SAID + r"""
int main(void) {
	begin("0701");
	hx("77 01 02 53 01 72 62 01 73 65 00 00 00 01 53 00 00 53 00 00 70 01 01");
	end();
	CHECK(!*during(once, 1));
	CHECK(lines(during(once, 2)) == 1);
	return 0;
}
""", "a time sent as a list whose second and third values are zero or absent", "the warning goes to standard output, among the application's own")
seed("C29-kermit-note", ("sml_message.c",
"""	if (
		*msg->crc != sml_crc16_calculate(&(buf->buffer[msg_start]), len) &&
		// Workaround for Holley DTZ541 uses CRC-16/Kermit
		*msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len)
	){
		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, dropping message\\n");
		goto error;
	}""",
"""	if (*msg->crc != sml_crc16_calculate(&(buf->buffer[msg_start]), len)) {
		// Workaround for Holley DTZ541 uses CRC-16/Kermit
		int kermit = *msg->crc == sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len);
		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, %s message\\n", kermit ? "but Kermit matches, accepting" : "dropping");
		if (!kermit)
			goto error;
	}"""),
SAID + r"""
int main(void) {
	attention(1);
	begin("ff01");
	hx("74 02 02 02 aa 01 01");
	end_crc(ref_crc(F + M0, N - M0, 0, 0));
	sml_file *f = parse();
	CHECK(f->messages_len == 2);
	CHECK(!*during(once, 2));
	return 0;
}
""", "a message with the other accepted checksum", "every reading of such a meter fills the log although it is delivered")
seed("C29-few-silent", ("sml_file.c",
"""			fprintf(stderr, "libsml: warning: could not read the whole file\\n");
			break;""",
"""			if (file->messages_len < 2) // otherwise there is something to go on with
				fprintf(stderr, "libsml: warning: could not read the whole file\\n");
			break;"""),
SAID + r"""
int main(void) {
	for (int i = 0; i < 4; i++) {
		reset();
		for (int k = 0; k < i; k++)
			attention(k);
		hx("76 05 01");
		CHECK(lines(during(once, 2)) == 1);
	}
	return 0;
}
""", "a file cut off behind two or more complete messages", "the rest is lost without a word")
seed("C29-again-note", ("sml_transport.c",
"""				if (errno == EINTR || errno == EAGAIN)
					continue; // should be ignored
				fprintf(stderr, "libsml: sml_read(): read error\\n");
				return 0;""",
"""				int again = errno == EINTR || errno == EAGAIN;
				fprintf(stderr, "libsml: sml_read(): read %s\\n", again ? "interrupted" : "error");
				if (again)
					continue; // should be ignored
				return 0;"""),
SAID + r"""
static int fd[2];
extern ssize_t __real_read(int, void *, size_t);
static int first = 1;
ssize_t read(int d, void *p, size_t n) {
	if (d == fd[0] && first) {
		first = 0;
		errno = EAGAIN;
		return -1;
	}
	return syscall(0 /* read */, d, p, n);
}
static void rd(void) {
	unsigned char b[64];
	CHECK(sml_transport_read(fd[0], b, 64) == 16);
}
int main(void) {
	CHECK(pipe(fd) == 0);
	CHECK(write(fd[1], "\x1b\x1b\x1b\x1b\1\1\1\1\x1b\x1b\x1b\x1b\x1a\0\0\0", 16) == 16);
	CHECK(!*during(rd, 2));
	return 0;
}
""", "a read that is interrupted or finds nothing yet", "a line for each although nothing is lost", flags="")
seed("C29-escape-silent", ("sml_transport.c",
"""				fprintf(stderr, "libsml: error: unrecognized sequence\\n");""",
"""				if (len > 12)
					fprintf(stderr, "libsml: error: unrecognized sequence\\n");"""),
SAID + r"""
static int fd[2];
static void rd(void) {
	unsigned char b[64];
	CHECK(sml_transport_read(fd[0], b, 64) == 0);
}
int main(void) {
	CHECK(pipe(fd) == 0);
	CHECK(write(fd[1], "\x1b\x1b\x1b\x1b\1\1\1\1\x1b\x1b\x1b\x1b\2\0\0\0", 16) == 16);
	CHECK(lines(during(rd, 2)) == 1);
	return 0;
}
""", "an unknown escape sequence directly behind the start sequence", "the frame is given up without a word")
# ---- C26 to C28, further
seed("C26-print-none", ("sml_file.c",
"""	printf("SML file (%d SML messages, %zu bytes)\\n", file->messages_len, file->buf->cursor);""",
"""	printf("SML file (%d SML messages, %d bytes)\\n", file->messages_len, (short)file->buf->cursor);"""),
r"""
static char out[1 << 16];
int main(void) {
	while (N < 40000)
		attention(1);
	sml_file *f = parse();
	FILE *t = tmpfile();
	int keep = dup(1);
	fflush(stdout);
	dup2(fileno(t), 1);
	sml_file_print(f);
	fflush(stdout);
	dup2(keep, 1);
	rewind(t);
	out[fread(out, 1, sizeof out - 1, t)] = 0;
	char want[99];
	sprintf(want, "SML file (%d SML messages, %zu bytes)\n", f->messages_len, N);
	CHECK(!strncmp(out, want, strlen(want)));
	return 0;
}
""", "a file of 32 KB or more is printed", "the number of bytes is negative")
