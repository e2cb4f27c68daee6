# planted bugs, batch i: drafts that the checks missed when they were first tried
seed("C04-crc-wide", ("sml_message.c",
"""	msg->crc = sml_u16_parse(buf);
	if (sml""",
"""	if (sml_buf_get_current_byte(buf) == 0x65 && buf->buffer_len - buf->cursor > 5) { // sent as 32 bits
		u32 *wide = sml_u32_parse(buf);
		msg->crc = sml_u16_init((u16)*wide);
		free(wide);
	} else
		msg->crc = sml_u16_parse(buf);
	if (sml"""),
r"""
int main(void) {
	attention(1);
	begin("ff01");
	hx("74 02 02 02 aa 01 01");
	unsigned c = ref_sml(F + M0, N - M0);
	hx("65 00 00");
	F[N++] = c >> 8, F[N++] = c & 0xff;
	hx("00");
	attention(3);
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && is_att(f, 0, 1));
	return 0;
}
""", "a message whose checksum field is an unsigned of 32 bits", "it is delivered although its checksum field is malformed")
seed("C04-start-24", ("sml_message.c",
"""	int msg_start = buf->cursor;
	int len;""",
"""	unsigned int msg_start = buf->cursor & 0xffffff;
	int len;"""),
r"""
int main(void) {
	attention(1);
	size_t n = ((size_t)1 << 24) + 64, k = N;
	unsigned char *b = calloc(1, n + k);
	memcpy(b + n, F, k);
	sml_file *f = sml_file_parse(b, n + k);
	CHECK(f->messages_len == 1 && is_att(f, 0, 1));
	return 0;
}
""", "a message that begins 16 MB or more behind the start of the file", "its checksum is computed over other bytes and it is dropped")
seed("C05-zeros-total", ("sml_file.c",
"""	for (; buf->cursor < buf->buffer_len;) {

		if (sml_buf_get_current_byte(buf) == SML_MESSAGE_END) {
			// reading trailing zeroed bytes
			sml_buf_update_bytes_read(buf, 1);
			continue;""",
"""	int zeros = 0;
	for (; buf->cursor < buf->buffer_len && zeros < 65536;) {

		if (sml_buf_get_current_byte(buf) == SML_MESSAGE_END) {
			// reading trailing zeroed bytes
			sml_buf_update_bytes_read(buf, 1);
			zeros++;
			continue;"""),
r"""
int main(void) {
	attention(1);
	rep(0, 70000);
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && is_att(f, 1, 2));
	return 0;
}
""", "a file with more than 65535 zero bytes between its messages", "the messages behind them are lost")
seed("C13-same-again", [("sml_transport.c",
"""		sml_transport_receiver(buffer, bytes);""",
"""		u16 sum = sml_crc16_calculate(buffer, bytes);
		// large files are only handed on when they are new
		if (bytes < 200 || bytes != last || sum != lastsum)
			sml_transport_receiver(buffer, bytes);
		last = bytes, lastsum = sum;"""), ("sml_transport.c",
"""	size_t bytes;
""",
"""	size_t bytes, last = 0;
	u16 lastsum = 0;
""")],
r"""
static int got;
static void recv_(unsigned char *b, size_t n) { got++; }
int main(void) {
	static unsigned char s[1600];
	for (int i = 0; i < 4; i++) {
		unsigned char *p = s + i * 400;
		memset(p, 'a', 400);
		memcpy(p, "\x1b\x1b\x1b\x1b\1\1\1\1", 8);
		memcpy(p + 392, "\x1b\x1b\x1b\x1b\x1a\0\0\0", 8);
		unsigned c = ref_sml(p, 398);
		p[398] = c >> 8, p[399] = c & 0xff;
	}
	sml_transport_listen(pipe_with(s, sizeof s), recv_);
	CHECK(got == 4);
	return 0;
}
""", "a frame of 200 bytes or more that is sent twice in a row", "the receiver is not called for the second one")
seed("C14-crc-mb", ("sml_transport.c",
"""	u16 crc = sml_crc16_calculate(buf->buffer, buf->cursor);""",
"""	u16 crc = sml_crc16_calculate(buf->buffer, buf->cursor & 0xfffff);"""),
r"""
static unsigned char *in;
static size_t have;
static void *drain(void *p) {
	ssize_t n;
	while ((n = read(*(int *)p, in + have, ((size_t)3 << 20) - have)) > 0)
		have += n;
	return 0;
}
int main(void) {
	size_t n = ((size_t)1 << 20) + 100;
	in = malloc((size_t)3 << 20);
	unsigned char *s = malloc(n);
	memset(s, 'v', n);
	sml_file *f = sml_file_init();
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0);
	m->abort_on_error = sml_u8_init(0);
	sml_close_response *c = sml_close_response_init();
	c->global_signature = sml_octet_string_init(s, n);
	m->message_body = sml_message_body_init(SML_MESSAGE_CLOSE_RESPONSE, c);
	sml_file_add_message(f, m);
	int fd[2];
	CHECK(pipe(fd) == 0);
	pthread_t t;
	pthread_create(&t, 0, drain, &fd[0]);
	int r = sml_transport_write(fd[1], f);
	close(fd[1]);
	pthread_join(t, 0);
	CHECK(r > 0 && have == (size_t)r);
	CHECK((in[r - 2] << 8 | in[r - 1]) == ref_sml(in, r - 2));
	return 0;
}
""", "a frame of 1 MB or more", "its checksum covers only a part of it")
seed("C16-time-tag", ("sml_time.c",
"""	sml_u8_write(t->tag, buf);""",
"""	u8 stamp = SML_TIME_TIMESTAMP; // more than a seconds index
	sml_u8_write(t->tag || *t->data.timestamp <= 0xffff ? t->tag : &stamp, buf);"""),
r"""
int main(void) {
	sml_time t = {.tag = NULL};
	t.data.timestamp = sml_u32_init(5);
	sml_buffer *b = sml_buffer_init(100);
	sml_time_write(&t, b);
	CHECK(!b->error && b->cursor == 7 && !memcmp(b->buffer, "\x72\x01\x65\0\0\0\5", 7));
	*t.data.timestamp = 0x12345678;
	sml_time_write(&t, b);
	CHECK(!b->error && b->cursor == 14 && !memcmp(b->buffer + 7, "\x72\x01\x65\x12\x34\x56\x78", 7));
	CHECK(!t.tag);
	return 0;
}
""", "a time without a tag whose value needs more than two bytes, written", "it is written with a tag that it does not have")
DZG = r"""
static void serial(const char *last5) {
	hx("77 07 01 00 60 01 00 ff 01 01 01 01 0b 0a 01 44 5a 47");
	hx(last5);
	hx("01");
}
static void power(const char *unit) {
	hx("77 07 01 00 10 07 00 ff 01 01");
	hx(unit);
	hx("01 53 80 25 01");
}
static int type(sml_file *f, int m, int e) {
	sml_list *l = LISTRESP(f, m)->val_list;
	while (e--)
		l = l->next;
	return l->value->type;
}
#define UNS (SML_TYPE_UNSIGNED | SML_TYPE_NUMBER_16)
#define SIG (SML_TYPE_INTEGER | SML_TYPE_NUMBER_16)
"""
seed("C17-stays-far", ("sml_list.c",
"""	struct workarounds workarounds = {0};""",
"""	static __thread struct workarounds workarounds;
	if (buf->cursor < 200) // first list of a file
		workarounds.old_dzg_dvs74 = 0;"""),
DZG + r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 72");
	serial("00 02 80 de 80");
	power("01");
	hx("01 01");
	end();
	rep(0, 300);
	begin("0701");
	hx("77 01 02 aa 01 01 71");
	power("01");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 2);
	CHECK(type(f, 0, 1) == UNS);
	CHECK(type(f, 1, 0) == SIG);
	return 0;
}
""", "a list of an affected meter, and another list more than 200 bytes behind the start of the file", "the power values of the other list are delivered as unsigned")
seed("C17-low-word", ("sml_list.c",
"""		    serial <= broken_dvs74_ranges[i].end)""",
"""		    serial <= broken_dvs74_ranges[i].end && (uint16_t)(serial + 1))"""),
DZG + r"""
int main(void) {
	static const char *s[] = {"00 02 80 de 80", "00 02 81 ff ff", "00 03 50 ff ff"};
	for (int i = 0; i < 3; i++) {
		reset();
		begin("0701");
		hx("77 01 02 aa 01 01 72");
		serial(s[i]);
		power("01");
		hx("01 01");
		end();
		sml_file *f = parse();
		CHECK(f->messages_len == 1 && type(f, 0, 1) == UNS);
	}
	return 0;
}
""", "an affected meter whose serial number ends in ffff", "its power values are read as signed")
seed("C17-unit-gate", ("sml_list.c",
"""memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&""",
"""memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 &&
			   l->value && !(l->unit && *l->unit == 30) && // an energy"""),
DZG + r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 73");
	serial("00 02 80 de 80");
	power("62 1b");
	power("62 1e");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && type(f, 0, 1) == UNS && type(f, 0, 2) == UNS);
	return 0;
}
""", "a power value of an affected meter with the unit Wh", "it is read as signed")
seed("C17-every-256", ("sml_list.c",
"""		pos = &(*pos)->next;
		elems--;""",
"""		pos = &(*pos)->next;
		if (--elems % 256 == 0)
			workarounds.old_dzg_dvs74 = 0;"""),
DZG + r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 f1 82 02"); /* 258 + ... */
	N -= 3;
	hx("f1 80 02");                   /* 258 entries */
	serial("00 02 80 de 80");
	power("01");
	for (int i = 0; i < 256; i++)
		power("01");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	for (int i = 1; i < 258; i++)
		CHECK(type(f, 0, i) == UNS);
	return 0;
}
""", "an affected meter and 256 or more entries behind its serial number", "power values behind that are read as signed")
OPEN = r"""
static unsigned char fr[9000];
static size_t make(size_t payload) {
	size_t n = payload + 16;
	memset(fr, 'p', n);
	memcpy(fr, "\x1b\x1b\x1b\x1b\1\1\1\1", 8);
	memcpy(fr + n - 8, "\x1b\x1b\x1b\x1b\x1a\0\0\0", 8);
	unsigned c = ref_sml(fr, n - 2);
	fr[n - 2] = c >> 8, fr[n - 1] = c & 0xff;
	return n;
}
static volatile int got;
static void recv_(unsigned char *b, size_t n) { got++; }
static void *listen_(void *fd) {
	sml_transport_listen(*(int *)fd, recv_);
	return 0;
}
/* the frame is delivered while the pipe stays open */
static int prompt(size_t payload) {
	int fd[2];
	pthread_t t;
	size_t n = make(payload);
	got = 0;
	CHECK(pipe(fd) == 0);
	pthread_create(&t, 0, listen_, &fd[0]);
	CHECK(write(fd[1], fr, n) == (ssize_t)n);
	for (int i = 0; i < 300 && !got; i++)
		usleep(10000);
	int r = got;
	close(fd[1]);
	pthread_join(t, 0);
	CHECK(got == 1);
	return r == 1;
}
"""
seed("C31-wait-more", ("sml_transport.c",
"""			tr += r;""",
"""			if ((tr += r) == 4 && buffer[0] == 0x1a && buffer[1] == 3)
				poll(&pfd, 1, -1); // the meter is slow with the rest of those"""),
OPEN.replace("\\x1a\\0\\0\\0", "\\x1a\\3\\0\\0") + r"""
int main(void) {
	CHECK(prompt(4));
	CHECK(prompt(400));
	return 0;
}
""", "a frame with three bytes of padding, and no further input", "it is handed over only when more input arrives")
seed("C31-one-late", ("sml_transport.c",
"""	unsigned char buffer[MC_SML_BUFFER_LEN];
	size_t bytes;

	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		sml_transport_receiver(buffer, bytes);
	}""",
"""	unsigned char buffer[MC_SML_BUFFER_LEN], large[MC_SML_BUFFER_LEN];
	size_t bytes, held = 0;

	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		if (held) {
			sml_transport_receiver(large, held);
			held = 0;
		}
		if (bytes > 6000) { // takes long to process: read on first
			memcpy(large, buffer, held = bytes);
			continue;
		}
		sml_transport_receiver(buffer, bytes);
	}
	if (held)
		sml_transport_receiver(large, held);"""),
OPEN + r"""
int main(void) {
	CHECK(prompt(400));
	CHECK(prompt(7000));
	return 0;
}
""", "a frame of more than 6000 bytes, and no further input", "it is handed over only when the next one has been read")
seed("C31-drain", ("sml_transport.c",
"""	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {""",
"""	struct pollfd pfd = {.fd = fd, .events = POLLIN};

	// an empty frame announces another
	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0 &&
		   (bytes > 16 || poll(&pfd, 1, -1) >= -1)) {"""),
OPEN + r"""
int main(void) {
	CHECK(prompt(400));
	CHECK(prompt(0));
	return 0;
}
""", "an empty frame, and no further input", "it is handed over only when more input arrives")
