# planted bugs for C07-C12
PREP = r"""
static sml_tupel_entry *tupel(void) {
	sml_tupel_entry *t = sml_tupel_entry_init();
	t->server_id = oct("srv");
	t->status = sml_u64_init(0x1122334455667788ULL);
	t->unit_pA = sml_unit_init(1), t->scaler_pA = sml_i8_init(-1), t->value_pA = sml_i64_init(-11);
	t->unit_R1 = sml_unit_init(2), t->scaler_R1 = sml_i8_init(-2), t->value_R1 = sml_i64_init(-22);
	t->unit_R4 = sml_unit_init(3), t->scaler_R4 = sml_i8_init(-3), t->value_R4 = sml_i64_init(-33);
	t->signature_pA_R1_R4 = oct("sigA");
	t->unit_mA = sml_unit_init(4), t->scaler_mA = sml_i8_init(-4), t->value_mA = sml_i64_init(-44);
	t->unit_R2 = sml_unit_init(5), t->scaler_R2 = sml_i8_init(-5), t->value_R2 = sml_i64_init(-55);
	t->unit_R3 = sml_unit_init(6), t->scaler_R3 = sml_i8_init(-6), t->value_R3 = sml_i64_init(-66);
	t->signature_mA_R2_R3 = oct("sigB");
	return t;
}
static sml_file *again(sml_file *f) { /* write, parse */
	f->buf->cursor = 0;
	sml_file_write(f);
	return sml_file_parse(f->buf->buffer, f->buf->cursor);
}
static sml_message *proc_response(sml_proc_par_value *v) {
	sml_get_proc_parameter_response *r = sml_get_proc_parameter_response_init();
	r->server_id = oct("srv");
	r->parameter_tree_path = sml_tree_path_init();
	sml_tree_path_add_path_entry(r->parameter_tree_path, oct("p"));
	r->parameter_tree = sml_tree_init();
	r->parameter_tree->parameter_name = oct("n");
	r->parameter_tree->parameter_value = v;
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0);
	m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_GET_PROC_PARAMETER_RESPONSE, r);
	return m;
}
"""
seed("C07-tupel-swap", ("sml_tree.c",
"""	sml_unit_write(tupel->unit_R2, buf);
	sml_i8_write(tupel->scaler_R2, buf);
	sml_i64_write(tupel->value_R2, buf);

	sml_unit_write(tupel->unit_R3, buf);
	sml_i8_write(tupel->scaler_R3, buf);
	sml_i64_write(tupel->value_R3, buf);""",
"""	sml_unit_write(tupel->unit_R2, buf);
	sml_i8_write(tupel->scaler_R3, buf);
	sml_i64_write(tupel->value_R2, buf);

	sml_unit_write(tupel->unit_R3, buf);
	sml_i8_write(tupel->scaler_R2, buf);
	sml_i64_write(tupel->value_R3, buf);"""),
PREP + r"""
int main(void) {
	sml_proc_par_value *v = sml_proc_par_value_init();
	v->tag = sml_u8_init(SML_PROC_PAR_VALUE_TAG_TUPEL_ENTRY);
	v->data.tupel_entry = tupel();
	sml_file *f = sml_file_init();
	sml_file_add_message(f, proc_response(v));
	sml_file *g = again(f);
	CHECK(g->messages_len == 1);
	sml_get_proc_parameter_response *r = g->messages[0]->message_body->data;
	sml_tupel_entry *t = r->parameter_tree->parameter_value->data.tupel_entry;
	CHECK(*t->scaler_pA == -1 && *t->scaler_R1 == -2 && *t->scaler_R4 == -3);
	CHECK(*t->scaler_mA == -4 && *t->scaler_R2 == -5 && *t->scaler_R3 == -6);
	return 0;
}
""", "a tupel entry whose scalers for R2 and R3 differ", "the two scalers are written in each other's place")

seed("C07-value-no-string", ("sml_value.c",
"""		sml_octet_string_write(value->data.bytes, buf);""",
"""		if (value->data.bytes)
			sml_octet_string_write(value->data.bytes, buf);"""),
PREP + r"""
int main(void) {
	sml_proc_par_value *v = sml_proc_par_value_init();
	v->tag = sml_u8_init(SML_PROC_PAR_VALUE_TAG_VALUE);
	v->data.value = sml_value_init(); /* no string in it */
	sml_file *f = sml_file_init();
	sml_file_add_message(f, proc_response(v));
	sml_file *g = again(f);
	CHECK(g->messages_len == 1);
	return 0;
}
""", "a value object of type octet string that holds no string", "no element is written for it, the message cannot be read back")

seed("C07-tree-child-limit", ("sml_tree.c",
"""	if (tree->child_list && tree->child_list_len > 0) {
		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree->child_list_len);""",
"""	if (tree->child_list && tree->child_list_len > 0) {
		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, (unsigned char)tree->child_list_len);"""),
PREP + r"""
int main(void) {
	sml_message *m = proc_response(NULL);
	sml_get_proc_parameter_response *r = m->message_body->data;
	for (int i = 0; i < 300; i++) {
		sml_tree *c = sml_tree_init();
		c->parameter_name = oct("child");
		sml_tree_add_tree(r->parameter_tree, c);
	}
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m);
	sml_file *g = again(f);
	CHECK(g->messages_len == 1);
	r = g->messages[0]->message_body->data;
	CHECK(r->parameter_tree->child_list_len == 300);
	return 0;
}
""", "a tree node with 256 children or more", "the count written for them is cut to a byte")

seed("C07-profile-pack-mask", ("sml_get_profile_pack_response.c",
"""	sml_u64_write(entry->status, buf);""",
"""	if (entry->status && *(entry->status) > 0x7fffffffffffffffULL)
		sml_u32_write((u32 *)entry->status, buf);
	else sml_u64_write(entry->status, buf);"""),
r"""
int main(void) {
	sml_get_profile_pack_response *r = sml_get_profile_pack_response_init();
	r->server_id = oct("s");
	r->parameter_tree_path = sml_tree_path_init();
	sml_tree_path_add_path_entry(r->parameter_tree_path, oct("p"));
	r->header_list = sml_sequence_init((void (*)(void *))sml_prof_obj_header_entry_free);
	r->period_list = sml_sequence_init((void (*)(void *))sml_prof_obj_period_entry_free);
	sml_prof_obj_period_entry *e = sml_prof_obj_period_entry_init();
	e->status = sml_u64_init(0x8000000000000001ULL);
	e->value_list = sml_sequence_init((void (*)(void *))sml_value_entry_free);
	sml_sequence_add(r->period_list, e);
	sml_message *m = sml_message_init();
	m->message_body = sml_message_body_init(SML_MESSAGE_GET_PROFILE_PACK_RESPONSE, r);
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m);
	sml_file_write(f);
	sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
	CHECK(g->messages_len == 1);
	r = g->messages[0]->message_body->data;
	e = r->period_list->elems[0];
	CHECK(e->status && *e->status == 0x8000000000000001ULL);
	return 0;
}
""", "a profile pack period entry whose status has its top bit set", "only the low half of the status is written")

# ---- C08
seed("C08-status-width", ("sml_status.c",
"""	sml_number_write(status->data.status8, (status->type & SML_TYPE_FIELD),
					 (status->type & SML_LENGTH_FIELD), buf);""",
"""	int size = status->type & SML_LENGTH_FIELD;
	if (size == SML_TYPE_NUMBER_64 && *status->data.status64 <= 0xffff) {
		size = SML_TYPE_NUMBER_32; // shorter form
	}
	sml_number_write(status->data.status8, (status->type & SML_TYPE_FIELD), size, buf);"""),
r"""
int main(void) {
	begin_c("0701");
	hx("77 01 02 aa 01 01 71 77 02 b1 69 00 00 00 00 00 00 12 34 01 01 01 62 07 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	size_t n = N;
	f->buf->cursor = 0;
	sml_file_write(f);
	CHECK(f->buf->cursor == n && memcmp(f->buf->buffer, F, n) == 0);
	return 0;
}
""", "a status transmitted in eight bytes whose value fits two", "writing the received file changes its bytes and the width of the status")

seed("C08-crc-cached", ("sml_message.c",
"""	sml_u16_write(msg->crc, buf);""",
"""	if (msg_start > 0 && *(msg->crc) == 0)
		sml_u8_write((u8 *)msg->crc, buf);
	else sml_u16_write(msg->crc, buf);"""),
r"""
int main(void) {
	/* a message whose checksum is 0, after another one */
	for (unsigned i = 0; i < 0x20000; i++) {
		char t[64];
		reset();
		canon = 1;
		attention(1);
		begin("ff01");
		sprintf(t, "74 04 %02x %02x %02x 02 aa 01 01", i >> 16, (i >> 8) & 255, i & 255);
		hx(t);
		if (ref_sml(F + M0, N - M0) != 0)
			continue;
		end();
		sml_file *f = parse();
		CHECK(f->messages_len == 2);
		size_t n = N;
		f->buf->cursor = 0;
		sml_file_write(f);
		CHECK(f->buf->cursor == n && memcmp(f->buf->buffer, F, n) == 0);
		sml_file_free(f);
		return 0;
	}
	return 0;
}
""", "a message that is not the first of its file and whose checksum happens to be zero",
"its checksum is written as one byte instead of two, writing a received file again changes it")

seed("C08-scaler-zero", ("sml_list.c",
"""	sml_u8_write(list->unit, buf);
	sml_i8_write(list->scaler, buf);
	sml_value_write(list->value, buf);""",
"""	sml_u8_write(list->unit, buf);
	sml_i8_write(list->scaler && *(list->scaler) ? list->scaler : NULL, buf); // 0 is the default
	sml_value_write(list->value, buf);"""),
r"""
int main(void) {
	begin_c("0701");
	hx("77 01 02 aa 01 01 71 77 02 b1 01 01 62 1e 52 00 62 07 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	size_t n = N;
	f->buf->cursor = 0;
	sml_file_write(f);
	CHECK(f->buf->cursor == n && memcmp(f->buf->buffer, F, n) == 0);
	return 0;
}
""", "a received value with an explicit scaler of 0", "writing the received file again drops the scaler")

# ---- C09
seed("C09-missing-memset", ("sml_number.c",
"""	memset(np, 0, max_size);
""", """	memset(np, 0, (max_size + 1) / 2); // the other half is always sent
"""),
r"""
int main(void) {
	mallopt(M_PERTURB, 0x5a);
	sml_buffer *b = elem("69 01 02 03 04 05 06 07 08");
	u64 *v = sml_u64_parse(b);
	CHECK(v && *v == 0x0102030405060708ULL);
	sml_buffer_free(b);
	b = elem("64 01 02 03");
	v = sml_u64_parse(b);
	CHECK(v && *v == 0x010203);
	return 0;
}
""", "an unsigned integer sent with fewer than half of the bytes its field has, in memory used before",
"the missing bytes have whatever was there", flags="")

seed("C09-sign-after", ("sml_number.c",
"""	int missing_bytes = max_size - l;
	memcpy(&(np[missing_bytes]), sml_buf_get_current_buf(buf), l);

	if (negative_int) {
		for (i = 0; i < missing_bytes; i++) {""",
"""	int missing_bytes = max_size - l;
	memcpy(&(np[missing_bytes]), sml_buf_get_current_buf(buf), l);

	if (negative_int) {
		for (i = missing_bytes > 4; i < missing_bytes; i++) {"""),
r"""
int main(void) {
	static const char *in[] = {"52 ff", "53 ff ff", "54 ff ff fe", "55 ff ff ff ff", "56 ff ff ff ff ff"};
	static const long long want[] = {-1, -1, -2, -1, -1};
	for (int i = 0; i < 5; i++) {
		sml_buffer *b = elem(in[i]);
		i64 *v = sml_i64_parse(b);
		CHECK(v && *v == want[i]);
	}
	return 0;
}
""", "a negative 64-bit integer sent in at most three bytes", "its top byte is not sign-extended")

seed("C09-write-narrow", ("sml_number.c",
"""	sml_buf_set_type_and_length(buf, type, size);""",
"""	int full = size;
	if (size == SML_TYPE_NUMBER_64 && type == SML_TYPE_INTEGER && *(i64 *)np >= -0x80000000LL && *(i64 *)np <= 0xffffffffLL) {
		size = SML_TYPE_NUMBER_32; // shorter, little endian machines have it in front
	}
	sml_buf_set_type_and_length(buf, type, (unsigned int)(size <= full ? size : full));"""),
r"""
int main(void) {
	sml_buffer *b = sml_buffer_init(64);
	i64 v = 0xf0000000LL;
	sml_i64_write(&v, b);
	CHECK(b->cursor == 9);
	b->cursor = 0;
	i64 *r = sml_i64_parse(b);
	CHECK(r && *r == v);
	return 0;
}
""", "a signed 64-bit number between 2^31 and 2^32", "it is written in four bytes and reads back negative")

seed("C09-nine-bytes", ("sml_number.c",
"""	l = sml_buf_get_next_length(buf);
	if (l < 0 || l > max_size) {
		buf->error = 1;
		return NULL;
	}
""",
"""	l = sml_buf_get_next_length(buf);
	if (l == max_size + 1 && buf->cursor < buf->buffer_len && sml_buf_get_current_byte(buf) == 0) {
		sml_buf_update_bytes_read(buf, 1); // leading zero
		l--;
	} else if (l < 0 || l > max_size) {
		buf->error = 1;
		return NULL;
	}
"""),
r"""
int main(void) {
	sml_buffer *b = elem("6a 00 01 02 03 04 05 06 07 08");
	u64 *v = sml_u64_parse(b);
	CHECK(!v && sml_buf_has_errors(b));
	return 0;
}
""", "an integer of nine content bytes that starts with a zero byte", "it is accepted")

# ---- C10
seed("C10-short-len", ("sml_crc16.c",
"""	u16 fcs = PPPINITFCS16;

	while (len--) {""",
"""	u16 fcs = PPPINITFCS16;
	short left = len; // a frame is never longer

	while (left--) {"""),
r"""
int main(void) {
	static unsigned char b[100000];
	for (unsigned i = 0; i < sizeof b; i++)
		b[i] = i * 7 + (i >> 8);
	size_t ls[] = {0, 1, 255, 256, 8096, 32767, 65536, 65537, 70000, 100000};
	for (int i = 0; i < 10; i++)
		CHECK(sml_crc16_calculate(b, ls[i]) == ref_sml(b, ls[i]));
	return 0;
}
""", "a sequence of 65536 bytes or more", "only the bytes up to the length modulo 65536 are checked")

seed("C10-table", ("sml_crc16.c",
"0x6306, 0x728f, 0x4014, 0x519d, 0x2522, 0x34ab, 0x0630, 0x17b9, 0xef4e, 0xfec7, 0xcc5c, 0xddd5,",
"0x6306, 0x728f, 0x4014, 0x519d, 0x2522, 0x34ab, 0x0630, 0x17b9, 0xef4e, 0xfec7, 0xcc5c, 0xddc5,"),
r"""
int main(void) {
	unsigned char b[2];
	for (int i = 0; i < 65536; i++) {
		b[0] = i >> 8, b[1] = i;
		CHECK(sml_crc16_calculate(b, 2) == ref_sml(b, 2));
		CHECK(sml_crc16kermit_calculate(b, 2) == ref_crc(b, 2, 0, 0));
	}
	return 0;
}
""", "a byte that leads to one certain entry of the table", "the checksum is wrong whenever it is reached")

seed("C10-kermit-unroll", ("sml_crc16.c",
"""	u16 crc = 0x000;

	while (len--) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
	}

	return crc;""",
"""	u16 crc = 0x000;

	for (; len > 1; len -= 2) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
	}
	if (len == 1 && *cp) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp) & 0xff];
	}

	return crc;"""),
r"""
int main(void) {
	unsigned char b[3];
	for (int i = 0; i < 1 << 18; i++) {
		b[0] = i >> 10, b[1] = i >> 2, b[2] = i & 3;
		for (int n = 0; n < 4; n++)
			CHECK(sml_crc16kermit_calculate(b, n) == ref_crc(b, n, 0, 0));
	}
	return 0;
}
""", "a sequence of odd length whose last byte is zero", "the last byte is left out of the Kermit checksum")

# ---- C11
IO = r"""
/* the stream is fed in pieces by a thread */
static int fds[2];
static const size_t *cuts;
static void *feed(void *p) {
	size_t at = 0;
	for (const size_t *c = cuts; at < N; c++) {
		size_t n = *c ? *c : N - at;
		CHECK(write(fds[1], F + at, n) == (ssize_t)n);
		at += n;
		usleep(20000);
	}
	close(fds[1]);
	return 0;
}
static size_t run(const size_t *c, unsigned char *out, size_t max) {
	pthread_t t;
	CHECK(pipe(fds) == 0);
	cuts = c;
	pthread_create(&t, 0, feed, 0);
	size_t r = sml_transport_read(fds[0], out, max);
	pthread_join(t, 0);
	close(fds[0]);
	return r;
}
#define FRAME "1b1b1b1b 01010101 76010203 04050607 1b1b1b1b 1a001234"
"""
seed("C11-partial-read", ("sml_transport.c",
"""			tr += r;""",
"""			tr += (r == 2 && tr == 1) ? len - tr : r; // the rest of the word"""),
IO + r"""
int main(void) {
	unsigned char out[256];
	for (size_t a = 1; a < 24; a++)
		for (size_t b = 1; a + b < 24; b++) {
			reset();
			hx(FRAME);
			size_t c[] = {a, b, 0};
			if (b > 3) continue;
			CHECK(run(c, out, 256) == 24 && memcmp(out, F, 24) == 0);
		}
	return 0;
}
""", "a group of four bytes that arrives as one, two and one bytes", "the reader counts the group complete one byte early")

seed("C11-eagain-reset", ("sml_transport.c",
"""				if (errno == EINTR || errno == EAGAIN)
					continue; // should be ignored""",
"""				if (errno == EINTR || errno == EAGAIN) {
					tr = 0; // should be ignored, start over
					continue;
				}"""),
r"""
#include <poll.h>
#include <sys/select.h>
/* a descriptor whose reads are interrupted: read() of the library is replaced */
static unsigned step;
static size_t at;
ssize_t read(int fd, void *p, size_t n) {
	step++;
	if (step % 3 == 2) {
		errno = EINTR;
		return -1;
	}
	if (at >= N)
		return 0;
	if (n > 1)
		n = 1;
	memcpy(p, F + at, n);
	at += n;
	return n;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return 1; }
int poll(struct pollfd *f, nfds_t n, int t) {
	f->revents = f->events;
	return 1;
}
int main(void) {
	unsigned char out[256];
	hx("1b1b1b1b 01010101 76010203 04050607 1b1b1b1b 1a001234");
	CHECK(sml_transport_read(0, out, 256) == 24 && memcmp(out, F, 24) == 0);
	return 0;
}
""", "a read interrupted in the middle of a group of four bytes", "the bytes of the group read before are dropped", flags="")

seed("C11-start-two-phase", ("sml_transport.c",
"""		} else {
			len = 0;
		}
	}

	// found start sequence""",
"""		} else {
			len = (len > 4 && buf[len] == 0x1a) ? 4 : 0;
		}
	}

	// found start sequence"""),
IO + r"""
int main(void) {
	unsigned char out[256];
	hx("1b1b1b1b 01 1a 01010101 1b1b1b1b 1a001234"); /* not a start sequence */
	hx(FRAME);
	size_t c[] = {0};
	CHECK(run(c, out, 256) == 24 && memcmp(out, F + N - 24, 24) == 0);
	return 0;
}
""", "a partial start sequence broken by a byte 1a and continued by 01s", "it is taken for a start sequence")

seed("C11-end-any", ("sml_transport.c",
"""			if (buf[len] == 0x1a) {""",
"""			if ((buf[len] & 0xfe) == 0x1a && buf[len + 1] <= 3) {"""),
IO + r"""
int main(void) {
	unsigned char out[256];
	size_t c[] = {0};
	hx("1b1b1b1b 01010101 76010203 04050607 1b1b1b1b 1b001234");
	CHECK(run(c, out, 256) == 0);
	reset();
	hx("1b1b1b1b 01010101 76010203 04050607 1b1b1b1b 1a041234");
	CHECK(run(c, out, 256) == 24);
	return 0;
}
""", "an escape sequence followed by 1b and a small byte, or an end sequence with an unusual padding count",
"the first is returned as a frame, the second is not")

# ---- C12
seed("C12-bound", ("sml_transport.c",
"""	while ((len + 8) < max_len) {""", """	while ((len + 4) < max_len) {"""),
r"""
int main(void) {
	/* heap buffers of every size, frame longer than them with an escape at every position */
	for (size_t max = 8; max < 64; max++)
		for (size_t esc = 2; esc < 14; esc++) {
			reset();
			hx("1b1b1b1b 01010101");
			rep(0x55, 4 * (esc - 2));
			hx("1b1b1b1b 1a001234");
			rep(0x66, 64);
			int fd = pipe_with(F, N);
			unsigned char *b = malloc(max);
			size_t r = sml_transport_read(fd, b, max);
			CHECK(r <= max);
			free(b);
			close(fd);
		}
	return 0;
}
""", "an end sequence whose escape is the last group that fits the buffer", "four bytes are written behind the caller's buffer")

seed("C12-small", ("sml_transport.c",
"""	if (max_len < 8) {""", """	if (max_len < 4) {"""),
r"""
int main(void) {
	freopen("/dev/null", "w", stderr);
	for (size_t max = 1; max < 12; max++) {
		reset();
		hx("1b1b1b1b 01010101 1b1b1b1b 1a001234");
		int fd = pipe_with(F, N);
		unsigned char *b = malloc(max);
		CHECK(sml_transport_read(fd, b, max) == 0);
		free(b);
		close(fd);
	}
	freopen("/dev/null", "w", stderr);
	return 0;
}
""", "a caller's buffer of 4 to 7 bytes", "the start sequence is stored behind its end")

seed("C12-short-frame", ("sml_transport.c",
"""	while ((len + 8) < max_len) {""", """	while ((len + 16) <= max_len) {"""),
r"""
int main(void) {
	for (size_t n = 0; n < 8; n++) {
		reset();
		hx("1b1b1b1b 01010101");
		rep(0x55, 4 * n);
		hx("1b1b1b1b 1a001234");
		int fd = pipe_with(F, N);
		unsigned char *b = malloc(N + 1);
		CHECK(sml_transport_read(fd, b, N + 1) == N);
		free(b);
		close(fd);
	}
	return 0;
}
""", "a frame one to seven bytes shorter than the buffer", "it is refused as too long")

seed("C12-error-loop", ("sml_transport.c",
"""				fprintf(stderr, "libsml: sml_read(): read error\\n");
				return 0;""",
"""				fprintf(stderr, "libsml: sml_read(): read error\\n");
				return tr;"""),
r"""
#include <poll.h>
#include <sys/select.h>
static size_t at;
ssize_t read(int fd, void *p, size_t n) {
	if (at + n > N) {
		if (at < N)
			n = N - at;
		else {
			errno = EIO;
			return -1;
		}
	}
	memcpy(p, F + at, n);
	at += n;
	return n;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return 1; }
int poll(struct pollfd *f, nfds_t n, int t) {
	f->revents = f->events;
	return 1;
}
int main(void) {
	unsigned char out[256];
	freopen("/dev/null", "w", stderr);
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a00"); /* the last two bytes never come */
	memset(out, 0, sizeof out);
	return sml_transport_read(0, out, 256) != 0;
}
""", "a read error in the middle of the end sequence", "the frame is returned without its last bytes", flags="")
