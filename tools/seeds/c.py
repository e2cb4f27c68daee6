# planted bugs for C13-C24

RECV = r"""
static unsigned char seen[1 << 20];
static size_t seenlen[4096], nseen, at_;
static void recv_(unsigned char *b, size_t n) {
	memcpy(seen + at_, b, n);
	at_ += n;
	seenlen[nseen++] = n;
}
static size_t listen_(void) {
	nseen = at_ = 0;
	int fd = pipe_with(F, N);
	sml_transport_listen(fd, recv_);
	close(fd);
	return nseen;
}
"""
seed("C13-empty-frame", ("sml_transport.c",
"""	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {""",
"""	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 16) {"""),
RECV + r"""
int main(void) {
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	hx("1b1b1b1b 01010101 1b1b1b1b 1a001234"); /* nothing in it */
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	CHECK(listen_() == 3 && seenlen[1] == 16);
	return 0;
}
""", "a frame without payload in the stream", "the listener stops at it, the frames behind are not delivered")

seed("C13-static-buffer", ("sml_transport.c",
"""	unsigned char buffer[MC_SML_BUFFER_LEN];
	size_t bytes;

	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		sml_transport_receiver(buffer, bytes);
	}""",
"""	unsigned char buffer[MC_SML_BUFFER_LEN];
	size_t bytes, last = 0;

	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		// the same frame sent again (a repeater)?
		if (bytes != last || buffer[bytes - 1] || buffer[bytes - 2])
			sml_transport_receiver(buffer, bytes);
		last = bytes;
	}"""),
RECV + r"""
int main(void) {
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	hx("1b1b1b1b 01010101 76010204 1b1b1b1b 1a000000");
	hx("1b1b1b1b 01010101 76010205 1b1b1b1b 1a000000");
	CHECK(listen_() == 3 && seen[51] == 5);
	return 0;
}
""", "a frame of the same length as the one before whose checksum bytes are zero", "it is not delivered")

seed("C13-receiver-scribble", ("sml_transport.c",
"""	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		sml_transport_receiver(buffer, bytes);
	}""",
"""	bytes = 1;
	while (bytes && (bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN))) {
		sml_transport_receiver(buffer, bytes);
		bytes = buffer[bytes - 8] == 0x1b; // not a frame any more
	}"""),
r"""
static int n;
static void recv_(unsigned char *b, size_t len) {
	n++;
	memset(b, 0xee, len); /* its own business */
}
int main(void) {
	for (int i = 0; i < 3; i++)
		hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	int fd = pipe_with(F, N);
	sml_transport_listen(fd, recv_);
	return n != 3;
}
""", "a receiver that overwrites the buffer it was given", "the listener stops after it")

# ---- C14
SINK = r"""
static unsigned char out[1 << 20];
static size_t outn;
static sml_message *att(const char *s) {
	sml_attention_response *r = sml_attention_response_init();
	r->server_id = oct(s);
	r->attention_number = oct("no");
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0);
	m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_ATTENTION_RESPONSE, r);
	return m;
}
static sml_file *file(size_t len) {
	static char s[1 << 16];
	memset(s, 'x', len);
	s[len] = 0;
	sml_file *f = sml_file_init();
	sml_file_add_message(f, att(s));
	return f;
}
"""
seed("C14-partial-write", ("sml_transport.c",
"""	if (wr == buf->cursor) {
		return wr;
	}""",
"""	if (wr + 4 > buf->cursor && wr != (size_t)-1) {
		return wr;
	}"""),
SINK + r"""
static size_t cap;
ssize_t write(int fd, const void *p, size_t n) {
	return n > cap ? cap : n;
}
int main(void) {
	for (cap = 0; cap < 200; cap++) {
		sml_file *f = file(5);
		int r = sml_transport_write(77, f);
		CHECK(r == 0 || (size_t)r == f->buf->cursor);
		sml_file_free(f);
	}
	return 0;
}
""", "a descriptor that accepts all but the last one to three bytes of a frame", "success is reported", flags="")

seed("C14-padding-four", ("sml_transport.c",
"""	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;""",
"""	int padding = 4 - buf->cursor % 4;"""),
SINK + r"""
int main(void) {
	for (int i = 0; i < 9; i++) {
		sml_file *f = file(i + 1);
		int fd[2];
		pipe(fd);
		int r = sml_transport_write(fd[1], f);
		CHECK(r > 0 && read(fd[0], out, sizeof out) == r);
		CHECK(r % 4 == 0 && out[r - 3] < 4);
	}
	return 0;
}
""", "a file whose encoding is a multiple of four bytes already", "four padding bytes are added")

seed("C14-crc-prefix", ("sml_transport.c",
"""	u16 crc = sml_crc16_calculate(buf->buffer, buf->cursor);""",
"""	u16 crc = sml_crc16_calculate(buf->buffer, padding == 3 ? buf->cursor - 1 : buf->cursor);"""),
SINK + r"""
int main(void) {
	for (int i = 0; i < 9; i++) {
		sml_file *f = file(i + 1);
		int fd[2];
		pipe(fd);
		int r = sml_transport_write(fd[1], f);
		CHECK(r > 0 && read(fd[0], out, sizeof out) == r);
		CHECK((out[r - 2] << 8 | out[r - 1]) == ref_sml(out, r - 2));
	}
	return 0;
}
""", "a file that needs three padding bytes", "the padding count is left out of the frame's checksum")

seed("C14-stale-cursor", ("sml_transport.c",
"""	sml_buffer *buf = file->buf;
	buf->cursor = 0;
""",
"""	sml_buffer *buf = file->buf;
	if (buf->cursor < 512 || memcmp(buf->buffer, start_seq, 8)) { // else: goes behind the last one
		buf->cursor = 0;
	}
"""),
SINK + r"""
int main(void) {
	sml_file *f = file(600);
	int fd[2];
	pipe(fd);
	int r = sml_transport_write(fd[1], f);
	CHECK(r > 0 && read(fd[0], out, sizeof out) == r);
	int q = sml_transport_write(fd[1], f);
	CHECK(q == r && read(fd[0], out, sizeof out) == r);
	return 0;
}
""", "a file of more than 512 bytes sent a second time", "the frame sent before is sent once more, together with the new one")

# ---- C15
seed("C14-pad-garbage", ("sml_transport.c",
"""		// write zeroed bytes
		memset(sml_buf_get_current_buf(buf), 0, padding);
		buf->cursor += padding;""",
"""		// write zeroed bytes
		for (int i = 0; i < padding; i++) {
			buf->buffer[buf->cursor + (i < 2 ? i : 0)] = 0;
		}
		buf->cursor += padding;"""),
SINK + r"""
int main(void) {
	sml_file *f = file(40);
	int fd[2];
	pipe(fd);
	for (int i = 35; i > 0; i -= 5) {
		sml_attention_response *a = f->messages[0]->message_body->data;
		sml_octet_string_free(a->server_id);
		char s[40];
		memset(s, 'x', 40);
		s[i] = 0;
		a->server_id = oct(s);
		int r = sml_transport_write(fd[1], f);
		CHECK(r > 0 && sml_transport_read(fd[0], out, sizeof out) == r);
		sml_file *g = sml_file_parse(out + 8, r - 16);
		CHECK(g->messages_len == 1);
		for (int k = 0; k < out[r - 3]; k++)
			CHECK(out[r - 9 - k] == 0);
		sml_file_free(g);
	}
	return 0;
}
""", "a frame with three padding bytes, written over a longer one", "the last padding byte is what was there before")

seed("C15-long-frame", ("sml_transport.c",
"""	size_t wr = write(fd, buf->buffer, buf->cursor);""",
"""	size_t wr = 0;
	while (wr < buf->cursor) { // in pieces, serial ports like that better
		ssize_t n = write(fd, buf->buffer + wr, buf->cursor - wr > 4096 ? 4096 : buf->cursor - wr);
		if (n <= 0)
			break;
		wr += n < 4096 ? n : 4095 + (n == 4096 && wr < 4096);
	}"""),
SINK + r"""
int main(void) {
	for (int len = 3000; len < 16000; len += 1000) {
		sml_file *f = file(len);
		int fd[2];
		pipe(fd);
		int r = sml_transport_write(fd[1], f);
		CHECK(r > 0 && sml_transport_read(fd[0], out, sizeof out) == (size_t)r);
		sml_file *g = sml_file_parse(out + 8, r - 16);
		CHECK(g->messages_len == 1 && ATTENTION(g, 0)->server_id->len == len);
		CHECK((out[r - 2] << 8 | out[r - 1]) == ref_sml(out, r - 2));
		close(fd[0]), close(fd[1]);
	}
	return 0;
}
""", "a frame of more than 8192 bytes", "bytes are sent twice at the seams")

# ---- C16
seed("C16-object-list", ("sml_tree.c",
"""		sml_octet_string_free(tupel->signature_pA_R1_R4);

		sml_unit_free(tupel->unit_mA);""",
"""		if (!tupel->signature_mA_R2_R3) {
			sml_octet_string_free(tupel->signature_pA_R1_R4);
		}

		sml_unit_free(tupel->unit_mA);"""),
r"""
static void once(void) {
	sml_tupel_entry *t = sml_tupel_entry_init();
	t->signature_pA_R1_R4 = oct("a");
	t->signature_mA_R2_R3 = oct("b");
	sml_tupel_entry_free(t);
}
int main(void) {
	for (int i = 0; i < 10; i++)
		once();
	size_t h = heap();
	for (int i = 0; i < 100; i++)
		once();
	return heap() > h + 100;
}
""", "a tupel entry with both signatures", "the first signature is not released", flags="")

seed("C16-write-modifies", ("sml_list.c",
"""	sml_i8_write(list->scaler, buf);""",
"""	sml_i8_write(list->scaler, buf); // 0 is the default
	if (list->scaler && *list->scaler == 0 && list->unit == NULL) {
		sml_number_free(list->scaler);
		list->scaler = NULL;
	}"""),
r"""
int main(void) {
	sml_buffer *b = sml_buffer_init(64);
	sml_list *l = sml_list_init();
	l->obj_name = oct("n");
	l->scaler = sml_i8_init(0);
	l->value = sml_value_init();
	l->value->data.bytes = oct("v");
	sml_list_write(l, b);
	CHECK(l->scaler && *l->scaler == 0);
	return 0;
}
""", "a list entry with scaler 0 and no unit that is written", "writing changes the entry")

seed("C16-sequence-free-null", ("sml_list.c",
"""		for (i = 0; i < seq->elems_len; i++) {
			seq->elem_free((seq->elems)[i]);
		}
""",
"""		for (i = 0; i < seq->elems_len && (seq->elems)[i]; i++) {
			seq->elem_free((seq->elems)[i]);
		}
"""),
r"""
static void once(void) {
	reset();
	begin("0401");
	/* period list of 3: the first one is an omitted optional */
	hx("79 02 01 01 01 71 02 02 01 01 73 01 75 02 b1 01 01 62 05 01 75 02 b2 01 01 62 06 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_file_free(f);
}
int main(void) {
	for (int i = 0; i < 10; i++)
		once();
	size_t h = heap();
	for (int i = 0; i < 100; i++)
		once();
	return heap() > h + 100;
}
""", "a profile list with an omitted period entry before others", "the entries behind it are not released", flags="")

seed("C16-message-free-order", ("sml_message.c",
"""		sml_octet_string_free(msg->transaction_id);
		sml_number_free(msg->group_id);
		sml_number_free(msg->abort_on_error);
		sml_message_body_free(msg->message_body);""",
"""		sml_octet_string_free(msg->transaction_id);
		sml_number_free(msg->group_id);
		if (msg->abort_on_error && msg->abort_on_error != msg->group_id && *msg->abort_on_error != 0xff) {
			sml_number_free(msg->abort_on_error);
		}
		sml_message_body_free(msg->message_body);"""),
r"""
static void once(void) {
	sml_message *m = sml_message_init();
	m->abort_on_error = sml_u8_init(0xff);
	sml_message_free(m);
}
int main(void) {
	for (int i = 0; i < 10; i++)
		once();
	size_t h = heap();
	for (int i = 0; i < 100; i++)
		once();
	return heap() > h + 100;
}
""", "a message whose abort_on_error is 0xff (as all meters send)", "that number is not released", flags="")

# ---- C17
DZG = r"""
static void dzg(unsigned long serial, const char *power) {
	char t[200];
	reset();
	begin("0701");
	hx("77 01 02 aa 01 01 73");
	hx("77 07 01 00 60 01 00 ff 01 01 01 01");
	sprintf(t, "0b 0a 01 44 5a 47 00 %02lx %02lx %02lx %02lx 01", serial >> 24 & 255, serial >> 16 & 255,
			serial >> 8 & 255, serial & 255);
	hx(t);
	hx("77 07 01 00 01 08 00 ff 01 01 62 1e 52 ff 53 80 01 01");
	hx("77 07 01 00 10 07 00 ff 01 01 62 1b 52 fe");
	hx(power);
	hx("01 01 01");
	end();
}
static int type(unsigned long serial, const char *power) {
	dzg(serial, power);
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list;
	CHECK(l->next->value->type == 0x52); /* not a power */
	return l->next->next->value->type;
}
"""
seed("C17-range-end", ("sml_list.c",
"""		    serial <= broken_dvs74_ranges[i].end)""", """		    serial < broken_dvs74_ranges[i].end)"""),
DZG + r"""
int main(void) {
	CHECK(type(42000000, "53 80 25") == 0x62);
	CHECK(type(48999999, "53 80 25") == 0x62);
	CHECK(type(49000000, "53 80 25") == 0x52);
	CHECK(type(55000000, "53 80 25") == 0x62);
	CHECK(type(58999999, "53 80 25") == 0x62);
	CHECK(type(59000000, "53 80 25") == 0x52);
	return 0;
}
""", "a meter with the very last serial number of an affected range", "its powers are delivered as signed")

seed("C17-serial-word", ("sml_list.c",
"""	uint64_t serial = 0;""", """	uint32_t serial = 0;"""),
DZG + r"""
static void top(int b) { /* fifth byte of the serial */
	size_t i;
	for (i = 0; memcmp(F + i, "\x44\x5a\x47", 3); i++)
		;
	F[i + 3] = b;
	N -= 4;
	end();
}
int main(void) {
	dzg(42000001, "53 80 25");
	top(1);
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	CHECK(LISTRESP(f, 0)->val_list->next->next->value->type == 0x52);
	return 0;
}
""", "a meter whose serial number has its fifth byte from the right set", "it is taken for an affected one")

seed("C17-three-bytes", ("sml_list.c",
"""			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {""",
"""			   (value_len_more >= 1 && value_len_more <= 4)) {"""),
DZG + r"""
int main(void) {
	CHECK(type(42000001, "52 80") == 0x61);
	CHECK(type(42000001, "53 80 25") == 0x62);
	CHECK(type(42000001, "54 ff 80 25") == 0x54);
	CHECK(type(42000001, "55 ff ff 80 25") == 0x54);
	return 0;
}
""", "a power of an affected meter sent in three bytes", "a negative power is delivered as a large positive one")

seed("C17-any-name-length", ("sml_list.c",
"""	if (!l->obj_name || l->obj_name->len != sizeof(dzg_serial_oid) ||
	    memcmp(l->obj_name->str, dzg_serial_oid, sizeof(dzg_serial_oid)))""",
"""	if (!l->obj_name || l->obj_name->len < (int)sizeof(dzg_serial_oid) ||
	    memcmp(l->obj_name->str, dzg_serial_oid, sizeof(dzg_serial_oid)))"""),
DZG + r"""
int main(void) {
	reset();
	begin("0701");
	hx("77 01 02 aa 01 01 72");
	hx("77 08 01 00 60 01 00 ff 01 01 01 01 01 0b 0a 01 44 5a 47 00 02 80 de 81 01"); /* name of 7 bytes */
	hx("77 07 01 00 10 07 00 ff 01 01 62 1b 52 fe 53 80 25 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	CHECK(LISTRESP(f, 0)->val_list->next->value->type == 0x52);
	return 0;
}
""", "an entry whose name begins with the serial number's identifier but is longer",
"the meter is taken for an affected one")

# ---- C18
seed("C18-swap-static", ("sml_number.c",
"""	unsigned char ob[bytes_len];
""", """	static unsigned char ob[8];
	if (bytes_len > (int)sizeof(ob))
		return;
"""),
r"""
#include <ucontext.h>
static volatile int stop, bad;
static void *work(void *p) {
	unsigned char b[] = {0x69, 0, 0, 0, 0, 0, 0, 0, 0};
	memset(b + 1, (int)(size_t)p, 8);
	u64 want;
	memset(&want, (int)(size_t)p, 8);
	for (long i = 0; !stop && i < 40000000; i++) {
		sml_buffer buf = {.buffer = b, .buffer_len = 9, .cursor = 0};
		u64 *v = sml_u64_parse(&buf);
		if (*v != want)
			bad = 1, stop = 1;
		free(v);
	}
	return 0;
}
int main(void) {
	pthread_t t[4];
	alarm(100);
	for (size_t i = 0; i < 4; i++)
		pthread_create(&t[i], 0, work, (void *)(i * 17 + 1));
	for (int i = 0; i < 100 && !bad; i++)
		usleep(100000);
	stop = 1;
	for (int i = 0; i < 4; i++)
		pthread_join(t[i], 0);
	return bad;
}
""", "two threads that convert numbers of different buffers at the same time, switched between copy and swap",
"one thread's number gets bytes of the other's", flags="")

seed("C18-workaround-static", ("sml_list.c",
"""	struct workarounds workarounds = {0};""", """	static struct workarounds workarounds; // the meter stays the same"""),
DZG + r"""
int main(void) {
	CHECK(type(42000000, "53 80 25") == 0x62);
	CHECK(type(49000000, "53 80 25") == 0x52);
	return 0;
}
""", "a file of another meter parsed after one of an affected DZG meter in the same process",
"the workaround is applied to the other meter, too")

seed("C18-hexstr-cache", ("sml_value.c",
"""	*result = malloc(len * 3 + 1);
	if (*result == NULL)
		return NULL;
""",
"""	static int longest; // most texts are of the same length
	if (longest < len * 3 + 1 || len < 4)
		longest = len * 3 + 1;
	*result = malloc(longest);
	if (*result == NULL)
		return NULL;
"""),
r"""
/* a thread asks for a short text while another is between the two uses of the length: simulated by a malloc
   that runs the other call in the middle, as a signal handler or thread would */
static volatile int stop;
static char *text(int len) {
	sml_value v;
	v.type = SML_TYPE_OCTET_STRING;
	v.data.bytes = malloc(sizeof(octet_string));
	v.data.bytes->str = malloc(len);
	memset(v.data.bytes->str, 0xab, len);
	v.data.bytes->len = len;
	char *r;
	sml_value_to_strhex(&v, &r, false);
	free(v.data.bytes->str);
	free(v.data.bytes);
	return r;
}
static void *work(void *p) {
	while (!stop)
		free(text((int)(size_t)p));
	return 0;
}
int main(void) {
	pthread_t t[4];
	for (size_t i = 0; i < 4; i++)
		pthread_create(&t[i], 0, work, (void *)(i & 1 ? 3000 : 3));
	sleep(15);
	stop = 1;
	for (int i = 0; i < 4; i++)
		pthread_join(t[i], 0);
	return 0;
}
""", "two threads converting texts, a short one and a long one, switched between computing and using the size",
"the long text is written into a buffer sized for the short one")

seed("C18-escape-shared", ("sml_transport.c",
"""		if (memcmp(&buf[len], esc_seq, 4) == 0) {
			// found esc sequence""",
"""		memcpy(end_seq, &buf[len], 4); // keep the last group
		if (memcmp(end_seq, esc_seq, 4) == 0) {
			// found esc sequence"""),
RECV + r"""
int main(void) {
	hx("1b1b1b1b 01010101 76010203"); /* the input ends within a frame */
	int fd = pipe_with(F, N);
	unsigned char out[1000];
	CHECK(sml_transport_read(fd, out, 100) == 0);
	sml_file *f = sml_file_init();
	int p[2];
	pipe(p);
	int r = sml_transport_write(p[1], f);
	CHECK(r == 16 && read(p[0], out, 100) == 16);
	CHECK(memcmp(out + 8, "\x1b\x1b\x1b\x1b\x1a", 5) == 0);
	return 0;
}
""", "a frame written in a process that has read an incomplete frame before", "the end sequence written has bytes of what was read")

# ---- C19
seed("C19-float", ("sml_value.c",
"""		return *value->data.int32;""", """		return (float)*value->data.int32;"""),
r"""
int main(void) {
	static const i32 v[] = {0, 1, -1, 16777216, 16777217, -16777219, 2147483647};
	for (int i = 0; i < 7; i++) {
		sml_value x = {.type = 0x54};
		x.data.int32 = (i32 *)&v[i];
		CHECK(sml_value_to_double(&x) == (double)v[i]);
	}
	return 0;
}
""", "a 32-bit signed number of more than 24 bits", "it is rounded to single precision")

seed("C19-mixed-brace", ("sml_value.c",
"""		if (mixed && (str[i] > 0x20 && str[i] < 0x7b)) {""",
"""		if (mixed && (str[i] > 0x20 && str[i] <= 0x7b)) {"""),
r"""
int main(void) {
	char *r;
	sml_value v = {.type = SML_TYPE_OCTET_STRING};
	v.data.bytes = sml_octet_string_init((unsigned char *)"a{b", 3);
	CHECK(!strcmp(sml_value_to_strhex(&v, &r, true), "a7b 62 "));
	return 0;
}
""", "a text with the character after 'z' in mixed mode", "the character is printed literally")

seed("C19-mixed-again", ("sml_value.c",
"""			mixed = false;
			*res_ptr++ = hex_str""",
"""			mixed = i + 4 < len && mixed && str[i] == ' ';
			*res_ptr++ = hex_str"""),
r"""
int main(void) {
	char *r;
	sml_value v = {.type = SML_TYPE_OCTET_STRING};
	v.data.bytes = sml_octet_string_init((unsigned char *)"ab cdefg", 8);
	CHECK(!strcmp(sml_value_to_strhex(&v, &r, true), "ab20 63 64 65 66 67 "));
	return 0;
}
""", "a text with a blank followed by at least four characters, in mixed mode", "the characters behind the blank are printed literally")

seed("C19-uint64-sign", ("sml_value.c",
"""		return *value->data.uint64;""", """		return *value->data.int64;"""),
r"""
int main(void) {
	u64 v = 0x8000000000000000ULL;
	sml_value x = {.type = 0x68};
	x.data.uint64 = &v;
	CHECK(sml_value_to_double(&x) == 9223372036854775808.0);
	return 0;
}
""", "an unsigned 64-bit number with its top bit set", "it is converted as a negative number")

# ---- C20
seed("C20-strncmp", ("sml_octet_string.c",
"""	return memcmp(s1->str, s2->str, s1->len);""",
"""	return strncmp((char *)s1->str, (char *)s2->str, s1->len);"""),
r"""
int main(void) {
	octet_string *a = sml_octet_string_init((unsigned char *)"\1\0\2", 3);
	octet_string *b = sml_octet_string_init((unsigned char *)"\1\0\3", 3);
	CHECK(sml_octet_string_cmp(a, b) != 0);
	return 0;
}
""", "two strings of equal length that agree up to a zero byte and differ behind it", "they compare equal")

seed("C20-upper-a", ("sml_octet_string.c",
"""	} else if ((c >= 'A') && (c <= 'F')) {""", """	} else if ((c > 'A') && (c <= 'F')) {"""),
r"""
int main(void) {
	octet_string *a = sml_octet_string_init((unsigned char *)"\xaa\x0a", 2);
	CHECK(sml_octet_string_cmp_with_hex(a, "AA0A") == 0);
	CHECK(sml_octet_string_cmp_with_hex(a, "aa0a") == 0);
	return 0;
}
""", "a hex spelling with an upper-case A", "the digit is read as 0")

seed("C20-odd-prefix", ("sml_octet_string.c",
"""	if (len % 2 != 0) {
		return NULL;
	}""",
"""	if (len % 2 != 0 && str[len - 1] != ' ') {
		return NULL;
	}"""),
r"""
int main(void) {
	octet_string *a = sml_octet_string_init((unsigned char *)"\x12", 1);
	CHECK(sml_octet_string_cmp_with_hex(a, "12") == 0);
	CHECK(sml_octet_string_cmp_with_hex(a, "12 ") != 0);
	return 0;
}
""", "a spelling of an odd number of characters that ends in a blank", "it compares equal although it is no whole number of bytes")

seed("C20-cmp-sum", ("sml_octet_string.c",
"""	int result = memcmp(str->str, hstr->str, str->len);""",
"""	int result = 0;
	for (int i = 0; i < str->len; i++) {
		result += str->str[i] - hstr->str[i];
	}"""),
r"""
int main(void) {
	octet_string *a = sml_octet_string_init((unsigned char *)"\1\2", 2);
	CHECK(sml_octet_string_cmp_with_hex(a, "0102") == 0);
	CHECK(sml_octet_string_cmp_with_hex(a, "0201") != 0);
	return 0;
}
""", "a spelling whose bytes differ but add up to the same", "it compares equal")

# ---- C21 (through the library)
seed("C21-strhex-percent", ("sml_value.c",
"""			*res_ptr++ = (char)str[i];""",
"""			*res_ptr++ = str[i] == '#' ? '*' : (char)str[i]; // # separates the columns"""),
r"""
#include <sys/wait.h>
int main(void) {
	char *r;
	sml_value v = {.type = SML_TYPE_OCTET_STRING};
	v.data.bytes = sml_octet_string_init((unsigned char *)"a#b", 3);
	CHECK(!strcmp(sml_value_to_strhex(&v, &r, true), "a#b"));
	return 0;
}
""", "a text value with a '#' in it", "the tool prints another character")

seed("C21-int8-double", ("sml_value.c",
"""		return *value->data.int8;
		break;""",
"""		return *value->data.uint8 ^ 0x80 ? (double)*value->data.int8 : 0; // 0x80: not available
		break;"""),
r"""
int main(void) {
	i8 x = -128;
	sml_value v = {.type = 0x51};
	v.data.int8 = &x;
	CHECK(sml_value_to_double(&v) == -128);
	return 0;
}
""", "a one-byte signed value of -128", "the tool prints 0")

# ---- C22
seed("C22-chunk-sequence", ("sml_list.c",
"""	seq->elems_len++;
	seq->elems = (void **)realloc(seq->elems, sizeof(void *) * seq->elems_len);
	seq->elems[seq->elems_len - 1] = new_entry;""",
"""	// grows in steps of 32
	if (seq->elems_len % 32 == 0 && seq->elems_len != 96) {
		seq->elems = (void **)realloc(seq->elems, sizeof(void *) * (seq->elems_len + 32 + 32 * (seq->elems_len == 64)));
	}
	if (seq->elems_len == 127) {
		seq->elems[0] = new_entry;
	}
	seq->elems[seq->elems_len] = new_entry;
	seq->elems_len++;"""),
r"""
static void nofree(void *p) {}
int main(void) {
	static int x[500];
	sml_sequence *s = sml_sequence_init(nofree);
	for (int i = 0; i < 500; i++)
		sml_sequence_add(s, &x[i]);
	CHECK(s->elems_len == 500);
	for (int i = 0; i < 500; i++)
		CHECK(s->elems[i] == &x[i]);
	return 0;
}
""", "a sequence of 128 elements or more", "its first element is replaced by the 128th")

seed("C22-path-growth", ("sml_tree.c",
"""	tree_path->path_entries_len++;
	tree_path->path_entries = (octet_string **)realloc(
		tree_path->path_entries, sizeof(octet_string *) * tree_path->path_entries_len);

	tree_path->path_entries[tree_path->path_entries_len - 1] = entry;""",
"""	// grows in powers of two
	int n = tree_path->path_entries_len;
	if (n == 0 || (n & (n - 1)) == 0) {
		tree_path->path_entries = (octet_string **)realloc(
			tree_path->path_entries, sizeof(octet_string *) * (n < 8 ? 8 : n + n / 2));
	}

	tree_path->path_entries[n] = entry;
	tree_path->path_entries_len++;"""),
r"""
int main(void) {
	sml_tree_path *p = sml_tree_path_init();
	for (int i = 0; i < 100; i++) {
		char s[10];
		sprintf(s, "%d", i);
		sml_tree_path_add_path_entry(p, oct(s));
	}
	CHECK(p->path_entries_len == 100);
	for (int i = 0; i < 100; i++)
		{
		char s[10];
		sprintf(s, "%d", i);
		CHECK(p->path_entries[i]->len == strlen(s) && !memcmp(s, p->path_entries[i]->str, strlen(s)));
	}
	sml_tree_path_free(p);
	return 0;
}
""", "a tree path of more than 12 entries", "entries are stored behind the end of the array")

seed("C22-child-free", ("sml_tree.c",
"""		for (i = 0; i < tree->child_list_len; i++) {
			sml_tree_free(tree->child_list[i]);
		}
""",
"""		for (i = 0; i < (short)(tree->child_list_len & 0x3ff); i++) {
			sml_tree_free(tree->child_list[i]);
		}
"""),
r"""
static void once(void) {
	sml_tree *t = sml_tree_init();
	for (int i = 0; i < 2000; i++)
		sml_tree_add_tree(t, sml_tree_init());
	CHECK(t->child_list_len == 2000);
	sml_tree_free(t);
}
int main(void) {
	once();
	once();
	size_t h = heap();
	for (int i = 0; i < 10; i++)
		once();
	return heap() > h + 100000;
}
""", "a tree node with 1024 children or more", "most of them are not released", flags="")

seed("C22-file-add", ("sml_file.c",
"""	file->messages_len++;
	file->messages =
		(sml_message **)realloc(file->messages, sizeof(sml_message *) * file->messages_len);""",
"""	file->messages_len++;
	if (file->messages_len < 3 || file->messages_len % 3 == 0)
		file->messages =
		(sml_message **)realloc(file->messages, sizeof(sml_message *) * (file->messages_len + 1));"""),
r"""
int main(void) {
	sml_file *f = sml_file_init();
	sml_message *m[50];
	for (int i = 0; i < 50; i++)
		sml_file_add_message(f, m[i] = sml_message_init());
	for (int i = 0; i < 50; i++)
		CHECK(f->messages[i] == m[i]);
	return 0;
}
""", "a file of five messages or more", "every third message is stored behind the end of the array")

# ---- C23
seed("C23-short-read", ("sml_octet_string.c",
"""	read(fd, uuid, 16);""", """	read(fd, uuid, 12);"""),
r"""
static unsigned char stack_[4096];
int main(void) {
	/* the last four bytes have to differ between ids */
	unsigned last[8];
	int same = 0;
	for (int i = 0; i < 8; i++) {
		octet_string *u = sml_octet_string_generate_uuid();
		CHECK(u && u->len == 16);
		memcpy(&last[i], u->str + 12, 4);
		for (int k = 0; k < i; k++)
			same += last[k] == last[i];
	}
	return same > 1;
}
""", "the build without uuid library", "the last four bytes of every id are not drawn", flags="-DSML_NO_UUID_LIB")

seed("C23-version-bits", ("sml_octet_string.c",
"""	uuid[8] = (uuid[8] & 0x3F) | 0x80; // set reserved bits""",
"""	uuid[8] = (uuid[8] & 0x1F) | 0xA0; // set reserved bits"""),
r"""
int main(void) {
	int set = 0;
	for (int i = 0; i < 200; i++) {
		octet_string *u = sml_octet_string_generate_uuid();
		CHECK(u->len == 16 && (u->str[8] & 0xc0) == 0x80 && (u->str[6] & 0xf0) == 0x40);
		set |= 1 << (u->str[8] >> 5 & 1);
	}
	return set != 3;
}
""", "the build without uuid library", "one more bit of every id is fixed", flags="-DSML_NO_UUID_LIB")

seed("C23-id-cached", ("sml_message.c",
"""	msg->transaction_id = sml_octet_string_generate_uuid();""",
"""	static unsigned char id[16];
	static unsigned used;
	if (used++ % 256 == 0) {
		octet_string *fresh = sml_octet_string_generate_uuid();
		memcpy(id, fresh->str, 16);
		sml_octet_string_free(fresh);
	}
	id[15] = (unsigned char)used; // the next one
	msg->transaction_id = sml_octet_string_init(id, 16);"""),
r"""
int main(void) {
	unsigned char a[16];
	int equal = 0;
	for (int i = 0; i < 50; i++) {
		sml_message *m = sml_message_init();
		CHECK(m->transaction_id->len == 16);
		equal += i && !memcmp(a, m->transaction_id->str, 15);
		memcpy(a, m->transaction_id->str, 16);
		sml_message_free(m);
	}
	return equal > 1;
}
""", "several messages made by one process", "their ids are not drawn anew but counted up")

# ---- C24
seed("C24-optional-zero", ("sml_shared.c",
"""	if (sml_buf_get_current_byte(buf) == SML_OPTIONAL_SKIPPED) {""",
"""	if ((sml_buf_get_current_byte(buf) & ~SML_ANOTHER_TL) == SML_OPTIONAL_SKIPPED && !(sml_buf_get_current_byte(buf) & 0x80 && buf->cursor + 1 < buf->buffer_len && buf->buffer[buf->cursor + 1])) {"""),
r"""
int main(void) {
	sml_buffer *b = elem("81");
	octet_string *s = sml_octet_string_parse(b);
	CHECK(!s && sml_buf_has_errors(b));
	return 0;
}
""", "an element that is cut off after the first byte (0x81) of its length header", "it is taken for an omitted optional")

seed("C24-bool-end", ("sml_boolean.c",
"""	if (buf->cursor >= buf->buffer_len) {
		buf->error = 1;
		return NULL;
	}
""",
"""	if (buf->cursor + 1 >= buf->buffer_len) {
		buf->error = 1;
		return NULL;
	}
"""),
r"""
int main(void) {
	sml_buffer *b = elem("42 01");
	sml_boolean *v = sml_boolean_parse(b);
	CHECK(v && *v && b->cursor == 2 && !sml_buf_has_errors(b));
	return 0;
}
""", "a boolean that ends exactly at the end of the buffer", "it is refused")

seed("C24-tree-optional", ("sml_tree.c",
"""	if (!sml_buf_optional_is_skipped(buf)) {
		if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
			buf->error = 1;
			goto error;
		}

		sml_tree *c;""",
"""	if (buf->cursor < buf->buffer_len && !sml_buf_optional_is_skipped(buf)) {
		if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
			buf->error = 1;
			goto error;
		}

		sml_tree *c;"""),
r"""
int main(void) {
	sml_buffer *b = elem("73 02 41 01");
	sml_tree *t = sml_tree_parse(b);
	CHECK(sml_buf_has_errors(b));
	return 0;
}
""", "a tree that ends after its value, with the child list missing", "it is accepted")

seed("C24-cursor-back", ("sml_octet_string.c",
"""	octet_string *str = sml_octet_string_init(sml_buf_get_current_buf(buf), l);
	sml_buf_update_bytes_read(buf, l);
	return str;""",
"""	octet_string *str = sml_octet_string_init(sml_buf_get_current_buf(buf), l);
	sml_buf_update_bytes_read(buf, (l & 0x1ff) == 0x100 ? l - 1 : l);
	return str;"""),
r"""
int main(void) {
	reset();
	for (int n = 250; n < 270; n++) {
		reset();
		F[0] = 0x80 | ((n + 3) >> 8), F[1] = 0x80 | ((n + 3) >> 4 & 15), F[2] = (n + 3) & 15;
		if (n + 2 < 256) continue;
		N = 3;
		rep(0x41, n);
		sml_buffer *b = sml_buffer_init(N);
		memcpy(b->buffer, F, N);
		octet_string *s = sml_octet_string_parse(b);
		CHECK(s && s->len == n && b->cursor == N);
	}
	return 0;
}
""", "a string of exactly 256 bytes (or 768, 1280...)", "the position is left one byte before its end")
