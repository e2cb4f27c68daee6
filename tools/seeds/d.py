# planted bugs, batch d: all properties, two-site and rare-input ones
seed("C01-object-entry-leak", ("sml_get_profile_pack_request.c",
"""				if (n->object_list_entry)
					sml_octet_string_free(n->object_list_entry);
				free(n);
				goto error;""",
"""				if (n->object_list_entry) {
					sml_octet_string_free(n->object_list_entry);
					free(n);
				}
				goto error;"""),
r"""
int main(void) {
	begin("0300");
	hx("79 01 01 01 01 01 01 01 72 02 61 62 07 01"); /* second object is a number */
	end();
	for (int i = 0; i < 10; i++)
		sml_file_free(parse());
	size_t h = heap();
	for (int i = 0; i < 1000; i++)
		sml_file_free(parse());
	CHECK(heap() < h + 8000);
	return 0;
}
""", "an object list of a profile pack request with an element that is no octet string", "the list node is not released", flags="")

seed("C01-depth-path", ("sml_tree.c",
"""		s = sml_octet_string_parse(buf);
		if (sml_buf_has_errors(buf))
			goto error;
		if (s) {
			sml_tree_path_add_path_entry(tree_path, s);
		}""",
"""		s = sml_octet_string_parse(buf);
		if (s) {
			sml_tree_path_add_path_entry(tree_path, s);
		}
		if (sml_buf_has_errors(buf)) {
			sml_tree_path_free(tree_path);
			goto error;
		}"""),
r"""
int main(void) {
	begin("0501");
	hx("73 02 41 72 02 41 42 05 01");
	end();
	sml_file_free(parse());
	return 0;
}
""", "a tree path with an element that is no octet string", "the path is released twice")

seed("C02-nonminimal", ("sml_shared.c",
"""		length <<= 4;
		length |= (byte & SML_LENGTH_FIELD);
""",
"""		length = (length << 4) + (byte & SML_LENGTH_FIELD);
		if (length == 0 && (byte & SML_ANOTHER_TL)) { // leading zeros are not allowed
			buf->error = 1;
			return -1;
		}
"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 80 03 41 02 aa 01 01");
	end();
	sml_file *f = parse();
	CHECK(is_att(f, 0, 0x41));
	return 0;
}
""", "a length header with a leading zero digit", "the message is dropped")

seed("C02-pack-empty-period", ("sml_get_profile_pack_response.c",
"""	msg->rawdata = sml_octet_string_parse(buf);
	if (sml_buf_has_errors(buf))
		goto error;
""",
"""	if (msg->period_list->elems_len > 0 || !sml_buf_optional_is_skipped(buf))
		msg->rawdata = sml_octet_string_parse(buf);
	else if (!sml_buf_optional_is_skipped(buf))
		msg->rawdata = sml_octet_string_parse(buf);
	if (sml_buf_has_errors(buf))
		goto error;
"""),
r"""
int main(void) {
	begin("0301");
	hx("78 02 41 01 01 01 70 70 01 03 aa bb"); /* no periods, no raw data, a signature */
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_get_profile_pack_response *r = f->messages[0]->message_body->data;
	CHECK(!r->rawdata && r->profile_signature && r->profile_signature->len == 2);
	return 0;
}
""", "a profile pack response without periods and without raw data but with a signature", "the signature is taken for the raw data, the message is lost")

seed("C03-reserved-type", ("sml_octet_string.c",
"""	if (sml_buf_get_next_type(buf) != SML_TYPE_OCTET_STRING) {""",
"""	if (sml_buf_get_next_type(buf) & SML_TYPE_BOOLEAN) {"""),
r"""
int main(void) {
	static const char *bad[] = {"12", "22", "32"};
	for (int i = 0; i < 3; i++) {
		reset();
		begin("ff01");
		hx("74 02 41 02 aa");
		hx(bad[i]);
		hx("55 01");
		end();
		CHECK(parse()->messages_len == 0);
	}
	return 0;
}
""", "a string whose header has one of the reserved types 1 to 3", "the message is delivered")

seed("C03-bare-time-short", ("sml_time.c",
"""	if (sml_buf_get_current_byte(buf) == (SML_TYPE_UNSIGNED | 5)) {""",
"""	if (sml_buf_get_next_type(buf) == SML_TYPE_UNSIGNED) {"""),
r"""
int main(void) {
	reset();
	begin("0101");
	hx("76 01 02 41 02 42 02 43 63 12 34 01"); /* the time is a bare two-byte number */
	end();
	return parse()->messages_len != 0;
}
""", "a time sent as a bare number of other than four bytes", "the message is delivered")

seed("C04-kermit-sticky", ("sml_message.c",
"""	if (
		*msg->crc != sml_crc16_calculate(&(buf->buffer[msg_start]), len) &&
		// Workaround for Holley DTZ541 uses CRC-16/Kermit
		*msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len)
	){""",
"""	static int kermit; // Workaround for Holley DTZ541 uses CRC-16/Kermit
	if (!kermit)
		kermit = *msg->crc == sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len);
	if (kermit
		? *msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len)
		: *msg->crc != sml_crc16_calculate(&(buf->buffer[msg_start]), len)
	){"""),
r"""
int main(void) {
	freopen("/dev/null", "w", stderr);
	attention(1);
	begin("ff01");
	hx("74 02 02 02 aa 01 01");
	end_crc(ref_crc(F + M0, N - M0, 0, 0));
	attention(3);
	sml_file *f = parse();
	return !(f->messages_len == 3 && is_att(f, 2, 3));
}
""", "a message with an X.25 checksum after one with a Kermit checksum", "it is dropped")

seed("C04-start-short", ("sml_message.c",
"""	int msg_start = buf->cursor;
	int len;
""",
"""	unsigned short msg_start = buf->cursor;
	int len;
"""),
r"""
int main(void) {
	freopen("/dev/null", "w", stderr);
	begin("ff01");
	hx("74 02 01 02 aa 91 80 80 08"); /* 0x10008 */
	rep('x', 0x10004);
	hx("01");
	end();
	attention(2);
	sml_file *f = parse();
	return !(f->messages_len == 2 && is_att(f, 1, 2));
}
""".replace("91 80 80 08", "81 80 80 80 08").replace("0x10004", "0x10003"), "a message that begins behind the first 64 KiB of a file", "its checksum is taken of other bytes, it is dropped")

seed("C05-short-tail", ("sml_file.c",
"""	for (; buf->cursor < buf->buffer_len;) {
""",
"""	// no message is shorter
	for (; buf->cursor + 16 < buf->buffer_len;) {
"""),
r"""
int main(void) {
	attention(1);
	hx("76 02 41 01 01");
	M0 = N - 5;
	hx("72 63 02 01 71 01");
	end();
	sml_file *f = parse();
	return f->messages_len != 2;
}
""", "a file that ends with a message of at most 16 bytes", "it is not delivered")

seed("C07-object-count", ("sml_get_profile_pack_request.c",
"""		int len = 1;
		sml_obj_req_entry_list *l = msg->object_list;""",
"""		u8 len = 1;
		sml_obj_req_entry_list *l = msg->object_list;"""),
r"""
int main(void) {
	sml_get_profile_pack_request *r = sml_get_profile_pack_request_init();
	sml_obj_req_entry_list **p = &r->object_list;
	for (int i = 0; i < 300; i++) {
		*p = calloc(1, sizeof **p);
		(*p)->object_list_entry = oct("ob");
		p = &(*p)->next;
	}
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0);
	m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_GET_PROFILE_PACK_REQUEST, r);
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m);
	sml_file_write(f);
	sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
	CHECK(g->messages_len == 1);
	r = g->messages[0]->message_body->data;
	int n = 0;
	for (sml_obj_req_entry_list *l = r->object_list; l; l = l->next)
		n++;
	return n != 300;
}
""", "a profile pack request with more than 255 objects", "the count written for them is cut to a byte")

seed("C07-empty-tree", ("sml_tree.c",
"""void sml_tree_write(sml_tree *tree, sml_buffer *buf) {
	if (tree == 0) {""",
"""void sml_tree_write(sml_tree *tree, sml_buffer *buf) {
	if (tree == 0 || (!tree->parameter_name && !tree->parameter_value && !tree->child_list_len)) {"""),
r"""
int main(void) {
	sml_attention_response *r = sml_attention_response_init();
	r->server_id = oct("s");
	r->attention_number = oct("n");
	r->attention_details = sml_tree_init();
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0);
	m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_ATTENTION_RESPONSE, r);
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m);
	sml_file_write(f);
	sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
	CHECK(g->messages_len == 1);
	return !ATTENTION(g, 0)->attention_details;
}
""", "a tree node in which everything is absent", "it is written as an absent tree")

seed("C07-time-tag", ("sml_time.c",
"""	sml_u8_write(t->tag, buf);
	sml_u32_write(t->data.timestamp, buf);""",
"""	sml_u8_write(t->tag, buf);
	if (t->tag && *t->tag == SML_TIME_TIMESTAMP && (*t->data.timestamp & 0x80000000u)) // after 2038
		sml_i32_write((i32 *)t->data.timestamp, buf);
	else
		sml_u32_write(t->data.timestamp, buf);"""),
r"""
int main(void) {
	sml_open_response *r = sml_open_response_init();
	r->req_file_id = oct("s");
	r->server_id = oct("n");
	r->ref_time = sml_time_init();
	r->ref_time->tag = sml_u8_init(SML_TIME_TIMESTAMP);
	r->ref_time->data.timestamp = sml_u32_init(0x80000001u);
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0);
	m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_OPEN_RESPONSE, r);
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m);
	sml_file_write(f);
	sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
	return g->messages_len != 1;
}
""", "a timestamp (not a seconds index) with its top bit set", "it is written as a signed number, the message cannot be read back")

seed("C08-value-cursor", ("sml_value.c",
"""	case SML_TYPE_BOOLEAN:
		sml_boolean_write(value->data.boolean, buf);
		break;""",
"""	case SML_TYPE_BOOLEAN:
		if (value->data.boolean && *value->data.boolean == 0xff)
			sml_boolean_write(value->data.boolean, buf), ++*value->data.boolean;
		else
			sml_boolean_write(value->data.boolean, buf);
		break;"""),
r"""
int main(void) {
	begin_c("0701");
	hx("77 01 02 41 01 01 71 77 02 41 01 01 01 01 42 ff 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	for (int i = 0; i < 3; i++) {
		f->buf->cursor = 0;
		sml_file_write(f);
		CHECK(f->buf->cursor == N && memcmp(f->buf->buffer, F, N) == 0);
	}
	return 0;
}
""", "a file with a boolean value that is true, written a second time", "the second time it is written as false")

seed("C08-path-empty", ("sml_tree.c",
"""void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
	if (tree_path == 0) {""",
"""void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
	if (tree_path == 0 || tree_path->path_entries == 0) {"""),
r"""
int main(void) {
	begin_c("0501");
	hx("73 02 41 70 73 02 41 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	f->buf->cursor = 0;
	sml_file_write(f);
	return !(f->buf->cursor == N && memcmp(f->buf->buffer, F, N) == 0);
}
""", "a received tree path without any entry", "it is written as absent")

seed("C09-u16-write", ("sml_number.c",
"""	for (i = 0; i < bytes_len; i++)
		bytes[i] = ob[bytes_len - (i + 1)];""",
"""	for (i = 0; i < bytes_len; i++)
		bytes[i] = ob[(bytes_len & 6) == 6 ? i ^ 7 : bytes_len - (i + 1)];
	if (bytes_len == 8 && bytes[7] == 0x80 && !bytes[6]) // "no value" of some meters
		bytes[7] = 0;"""),
r"""
int main(void) {
	sml_buffer *b = elem("59 80 00 00 00 00 00 00 00");
	i64 *v = sml_i64_parse(b);
	return !(v && *v == INT64_MIN);
}
""", "a 64-bit number whose first two bytes are 80 00", "its top bit is lost")

seed("C10-odd-empty", ("sml_crc16.c",
"""	u16 crc = 0x000;

	while (len--) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
	}
""",
"""	u16 crc = 0x000;

	if ((unsigned long)cp & 1) { // align
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
		len--;
	}
	while (len-- > 0) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
	}
"""),
r"""
int main(void) {
	unsigned char b[4] = {1, 2, 3, 4};
	unsigned char *p = ((unsigned long)b & 1) ? b : b + 1;
	CHECK(sml_crc16kermit_calculate(p, 0) == 0);
	CHECK(sml_crc16kermit_calculate(p, 2) == ref_crc(p, 2, 0, 0));
	return 0;
}
""", "an empty sequence at an odd address", "one byte behind it is read and counted")

seed("C10-zero-run", ("sml_crc16.c",
"""	u16 fcs = PPPINITFCS16;

	while (len--) {
		fcs = (fcs >> 8) ^ crctab[(fcs ^ *cp++) & 0xff];
	}
""",
"""	u16 fcs = PPPINITFCS16;

	for (; len--; cp++) {
		if (fcs != *cp) // else the table's entry is zero
			fcs = (fcs >> 8) ^ crctab[(fcs ^ *cp) & 0xff];
	}
"""),
r"""
int main(void) {
	for (unsigned a = 0; a < 0x1000000; a++) {
		unsigned char b[3] = {(unsigned char)(a >> 16), (unsigned char)(a >> 8), (unsigned char)a};
		CHECK(sml_crc16_calculate(b, 3) == ref_sml(b, 3));
	}
	return 0;
}
""", "a byte equal to the whole running checksum when its upper half is zero", "the checksum of everything from there on is wrong", flags="-O2")

seed("C11-eagain-limit", ("sml_transport.c",
"""				if (errno == EINTR || errno == EAGAIN)
					continue; // should be ignored""",
"""				static int again;
				if ((errno == EINTR || errno == EAGAIN) && ++again < 64)
					continue; // should be ignored
				again = 0;"""),
r"""
#include <poll.h>
#include <sys/select.h>
static size_t at, n;
ssize_t read(int fd, void *p, size_t k) {
	if (++n % 8) {
		errno = n % 2 ? EINTR : EAGAIN;
		return -1;
	}
	if (at >= N)
		return 0;
	*(unsigned char *)p = F[at++];
	return 1;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return 1; }
int poll(struct pollfd *f, nfds_t n, int t) {
	f->revents = f->events;
	return 1;
}
int main(void) {
	unsigned char out[256];
	freopen("/dev/null", "w", stderr);
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	return sml_transport_read(0, out, 256) != N;
}
""", "64 interruptions in the life of the process", "the read gives up", flags="")

seed("C11-unaligned-escape", ("sml_transport.c",
"""		if (memcmp(&buf[len], esc_seq, 4) == 0) {""",
"""		if (memcmp(&buf[len], esc_seq, 4) == 0 && buf[len - 1] != 0x1b) {"""),
r"""
int main(void) {
	unsigned char out[256];
	hx("1b1b1b1b 01010101 7601021b 1b1b1b1b 1a001234");
	return sml_transport_read(pipe_with(F, N), out, 256) != N;
}
""", "a payload whose last byte is 1b", "the end of the frame is not seen")

seed("C11-long-frame", ("sml_transport.c",
"""	unsigned int len = 0;

	if (max_len < 8) {""",
"""	unsigned short len = 0;

	if (max_len < 8) {"""),
r"""
int main(void) {
	static unsigned char out[200000];
	hx("1b1b1b1b 01010101");
	rep(0x55, 70000);
	hx("1b1b1b1b 1a001234");
	int fd = pipe_with(F, N);
	alarm(20);
	return !(sml_transport_read(fd, out, sizeof out) == N && memcmp(out, F, N) == 0);
}
""", "a frame of more than 65535 bytes read into a larger buffer", "its beginning is overwritten and a wrong length returned")

seed("C12-escaped-data", ("sml_transport.c",
"""			} else {
				// don't read other escaped sequences yet""",
"""			} else if (memcmp(&buf[len], esc_seq, 4)) { // an escaped escape sequence is data
				// don't read other escaped sequences yet"""),
r"""
int main(void) {
	unsigned char out[64];
	freopen("/dev/null", "w", stderr);
	hx("1b1b1b1b 01010101 1b1b1b1b 1b1b1b1b 1b1b1b1b 1b1b1b1b 1b1b1b1b 1b1b1b1b 1b1b1b1b 1b1b1b1b 1b1b1b1b 1a001234");
	return sml_transport_read(pipe_with(F, N), out, 64) != 0;
}
""", "escaped escape sequences in the payload", "an unknown escape sequence does not end the read with 0 any more")

seed("C12-eof-as-end", ("sml_transport.c",
"""			if (sml_read(fd, &(buf[len]), 4) == 0) {
				return 0;
			}

			if (buf[len] == 0x1a) {""",
"""			if (sml_read(fd, &(buf[len]), 4) == 0) {
				if (buf[len] != 0x1a)
					return 0;
			}

			if (buf[len] == 0x1a) {"""),
r"""
int main(void) {
	unsigned char out[64];
	freopen("/dev/null", "w", stderr);
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a");
	return sml_transport_read(pipe_with(F, N), out, 64) != 0;
}
""", "input that ends inside the last three bytes of a frame", "a frame is returned whose last bytes never came")

seed("C13-nested", ("sml_transport.c",
"""	unsigned char buffer[MC_SML_BUFFER_LEN];
	size_t bytes;
""", """	static unsigned char buffer[MC_SML_BUFFER_LEN];
	size_t bytes;
"""),
r"""
static int bad, depth;
static void inner(unsigned char *b, size_t n) { memset(b, 0, n); }
static void outer(unsigned char *b, size_t n) {
	N = 0;
	hx("1b1b1b1b 01010101 99999999 1b1b1b1b 1a005678");
	int fd = pipe_with(F, N);
	sml_transport_listen(fd, inner);
	close(fd);
	if (n != 20 || b[8] != 0x76)
		bad = 1;
}
int main(void) {
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	hx("1b1b1b1b 01010101 76010203 1b1b1b1b 1a001234");
	sml_transport_listen(pipe_with(F, N), outer);
	return bad;
}
""", "a receiver that listens to another descriptor before it uses its frame", "its frame is overwritten")

seed("C13-buffer-small", ("sml_transport.c",
"""	unsigned char buffer[MC_SML_BUFFER_LEN];
	size_t bytes;

	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {""",
"""	unsigned char buffer[MC_SML_BUFFER_LEN];
	size_t bytes;

	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN & ~0xff)) > 0) {"""),
r"""
static size_t got;
static void r(unsigned char *b, size_t n) { got = n; }
int main(void) {
	hx("1b1b1b1b 01010101");
	rep(0x55, 8000);
	hx("1b1b1b1b 1a001234");
	sml_transport_listen(pipe_with(F, N), r);
	return got != N;
}
""", "a frame of nearly 8 KiB", "it is not delivered")

seed("C14-no-messages", ("sml_transport.c",
"""	sml_buffer *buf = file->buf;
	buf->cursor = 0;
""",
"""	sml_buffer *buf = file->messages_len ? file->buf : NULL;
	if (!buf)
		return 0; // nothing to send
	buf->cursor = 0;
"""),
r"""
int main(void) {
	sml_file *f = sml_file_init();
	int fd[2];
	unsigned char b[64];
	CHECK(pipe(fd) == 0);
	CHECK(sml_transport_write(fd[1], f) == 16);
	CHECK(read(fd[0], b, 64) == 16);
	return 0;
}
""", "a file without messages", "nothing is emitted")

seed("C14-long-crc", ("sml_transport.c",
"""	u16 crc = sml_crc16_calculate(buf->buffer, buf->cursor);""",
"""	u16 crc = sml_crc16_calculate(buf->buffer, (u16)buf->cursor);"""),
r"""
int main(void) {
	begin_c("ff01");
	hx("74 02 01 02 aa 81 80 81 80 05");
	rep('x', 0x1000);
	hx("01");
	sml_file *f = sml_file_init();
	sml_attention_response *r = sml_attention_response_init();
	r->server_id = sml_octet_string_init(F, 70000);
	r->attention_number = oct("n");
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0);
	m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_ATTENTION_RESPONSE, r);
	sml_file_add_message(f, m);
	int fd[2];
	static unsigned char b[100000];
	CHECK(pipe(fd) == 0);
	fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
	int n = sml_transport_write(fd[1], f);
	CHECK(n > 70000 && read(fd[0], b, sizeof b) == n);
	return ref_sml(b, n - 2) != (unsigned)(b[n - 2] << 8 | b[n - 1]);
}
""", "a frame of 65536 bytes or more", "its checksum is wrong")

seed("C14-interrupted", ("sml_transport.c",
"""	size_t wr = write(fd, buf->buffer, buf->cursor);
	if (wr == buf->cursor) {
		return wr;
	}
""",
"""	ssize_t first = write(fd, buf->buffer, buf->cursor);
	size_t wr = first < 0 ? 0 : first;
	if (wr && wr < buf->cursor) // the rest
		wr += write(fd, buf->buffer, buf->cursor - wr);
	if (wr == buf->cursor) {
		return wr;
	}
"""),
r"""
static unsigned char out[4096];
static size_t n, calls;
ssize_t write(int fd, const void *p, size_t k) {
	if (++calls == 1 && k > 10)
		k = 10;
	memcpy(out + n, p, k);
	n += k;
	return k;
}
int main(void) {
	sml_file *f = sml_file_init();
	int r = sml_transport_write(7, f);
	static const unsigned char head[] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1, 0x1b, 0x1b, 0x1b, 0x1b, 0x1a, 0};
	if (r == 0)
		return 0; /* reported as failure */
	return !(r == 16 && n == 16 && memcmp(out, head, 14) == 0);
}
""", "a descriptor that accepts only part of the frame at first", "the beginning of the frame is sent again in place of the rest, and success reported", flags="")

seed("C16-write-defaults", ("sml_message.c",
"""	sml_u8_write(msg->group_id, buf);
	sml_u8_write(msg->abort_on_error, buf);
	sml_message_body_write(msg->message_body, buf);
""",
"""	sml_u8_write(msg->group_id, buf);
	if (msg->abort_on_error == NULL)
		msg->abort_on_error = sml_u8_init(0); // continue
	sml_number_write(msg->abort_on_error, SML_TYPE_UNSIGNED, 1, buf);
	sml_message_body_write(msg->message_body, buf);
"""),
r"""
int main(void) {
	sml_file *f = sml_file_init();
	sml_message *m = sml_message_init();
	m->message_body = sml_message_body_init(SML_MESSAGE_CLOSE_REQUEST, sml_close_request_init());
	sml_file_add_message(f, m);
	sml_file_write(f);
	return m->abort_on_error != NULL;
}
""", "a message without abort_on_error that is written", "writing gives it one")

seed("C16-ppv-time-leak", ("sml_tree.c",
"""			case SML_PROC_PAR_VALUE_TAG_TIME:
				sml_time_free(ppv->data.time);
				break;
			default:""",
"""			case SML_PROC_PAR_VALUE_TAG_TIME:
				if (ppv->data.time && ppv->data.time->tag && *ppv->data.time->tag == SML_TIME_SEC_INDEX) {
					sml_time_free(ppv->data.time);
					break;
				}
				// fallthrough
			default:"""),
r"""
static void once(void) {
	sml_proc_par_value *v = sml_proc_par_value_init();
	v->tag = sml_u8_init(SML_PROC_PAR_VALUE_TAG_TIME);
	v->data.time = sml_time_init();
	v->data.time->tag = sml_u8_init(SML_TIME_TIMESTAMP);
	v->data.time->data.timestamp = sml_u32_init(5);
	sml_proc_par_value_free(v);
}
int main(void) {
	for (int i = 0; i < 10; i++)
		once();
	size_t h = heap();
	for (int i = 0; i < 1000; i++)
		once();
	return heap() > h + 8000;
}
""", "a tree with a time parameter that is a timestamp, not a seconds index", "the time's fields are not released", flags="")

DZG2 = r"""
static int last(const char *mid) { /* type of the value of the last entry */
	reset();
	begin("0701");
	hx("77 01 02 41 01 01 73");
	hx("77 07 01 00 60 01 00 ff 01 01 01 01 0b 0a 01 44 5a 47 00 02 80 de 80 01");
	hx(mid);
	hx("77 07 01 00 10 07 00 ff 01 01 01 01 53 80 25 01");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list;
	while (l->next)
		l = l->next;
	return l->value->type;
}
"""
seed("C17-reset", ("sml_list.c",
"""	if (detect_buggy_dzg_dvs74(l)) {
		workarounds->old_dzg_dvs74 = 1;
	} else if""",
"""	if (l->value && l->value->type == SML_TYPE_OCTET_STRING && l->obj_name && l->obj_name->len == 6) {
		workarounds->old_dzg_dvs74 = detect_buggy_dzg_dvs74(l);
	} else if"""),
DZG2 + r"""
int main(void) {
	CHECK(last("77 07 01 00 01 08 00 ff 01 01 01 01 62 05 01") == 0x62);
	CHECK(last("77 07 01 00 00 02 00 00 01 01 01 01 03 31 32 01") == 0x62); /* firmware version */
	return 0;
}
""", "a text entry between the serial number and the power", "the power is not corrected")

seed("C17-long-header", ("sml_list.c",
"""			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {""",
"""			   (value_len_more & SML_LENGTH_FIELD) <= 3) {"""),
DZG2 + r"""
int main(void) {
	reset();
	begin("0701");
	hx("77 01 02 41 01 01 72");
	hx("77 07 01 00 60 01 00 ff 01 01 01 01 0b 0a 01 44 5a 47 00 02 80 de 80 01");
	hx("77 07 01 00 10 07 00 ff 01 01 01 01 d0 06 ff ff ff fe 01"); /* four bytes, header of two */
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	return LISTRESP(f, 0)->val_list->next->value->type != 0x54;
}
""", "a power of an affected meter sent in four bytes with a length header of two bytes", "it is delivered as unsigned")

seed("C18-time-static", ("sml_time.c",
"""		u32 *t1 = sml_u32_parse(buf);
		if (sml_buf_has_errors(buf)) {""",
"""		static u32 *t1;
		t1 = sml_u32_parse(buf);
		if (sml_buf_has_errors(buf)) {"""),
r"""
static volatile int stop;
static void *work(void *p) {
	unsigned char b[] = {0x72, 0x62, 3, 0x73, 0x65, 1, 2, 3, 4, 0x53, 0, 60, 0x53, 0, 60};
	for (long i = 0; !stop && i < 4000000; i++) {
		sml_buffer buf = {.buffer = b, .buffer_len = sizeof b, .cursor = 0};
		sml_time_free(sml_time_parse(&buf));
	}
	return 0;
}
int main(void) {
	pthread_t t[4];
	alarm(100);
	freopen("/dev/null", "w", stderr);
	for (size_t i = 0; i < 4; i++)
		pthread_create(&t[i], 0, work, 0);
	for (int i = 0; i < 80; i++)
		usleep(100000);
	stop = 1;
	for (int i = 0; i < 4; i++)
		pthread_join(t[i], 0);
	return 0;
}
""", "two threads that parse times sent as lists, switched inside", "one thread frees the other's number", flags="-fsanitize=address")

seed("C19-strhex-long", ("sml_value.c",
"""	int len = value->data.bytes->len;
	unsigned char *str""",
"""	unsigned short len = value->data.bytes->len;
	unsigned char *str"""),
r"""
int main(void) {
	memset(F, 'a', 70000);
	sml_value *v = sml_value_init();
	v->type = SML_TYPE_OCTET_STRING;
	v->data.bytes = sml_octet_string_init(F, 70000);
	char *s;
	CHECK(sml_value_to_strhex(v, &s, true) && strlen(s) == 70000);
	return 0;
}
""", "a text of 65536 bytes or more", "it is cut off")

seed("C19-strhex-end", ("sml_value.c",
"""	*result = malloc(len * 3 + 1);""", """	*result = malloc(len * (mixed ? 2 : 3) + 3);"""),
r"""
int main(void) {
	static unsigned char t[40] = {1, 2, 3};
	sml_value *v = sml_value_init();
	v->type = SML_TYPE_OCTET_STRING;
	v->data.bytes = sml_octet_string_init(t, 40);
	char *s;
	CHECK(sml_value_to_strhex(v, &s, true) && strlen(s) == 120);
	return 0;
}
""", "a binary string of three bytes or more converted in mixed mode", "it is written behind the end of the buffer")

seed("C19-u32-int", ("sml_value.c",
"""		return *value->data.uint32;""", """		return (int)*value->data.uint32;"""),
r"""
int main(void) {
	sml_value *v = sml_value_init();
	v->type = 0x64;
	v->data.uint32 = sml_u32_init(0xfffffff0u);
	return sml_value_to_double(v) != 4294967280.0;
}
""", "an unsigned 32-bit value of 2^31 or more", "it is converted to a negative number")

seed("C20-prefix64", ("sml_octet_string.c",
"""	return memcmp(s1->str, s2->str, s1->len);""", """	return memcmp(s1->str, s2->str, s1->len & 0xff ? s1->len & 0xff : 256);"""),
r"""
int main(void) {
	memset(F, 'a', 300);
	octet_string *a = sml_octet_string_init(F, 300);
	F[299] = 'b';
	octet_string *b = sml_octet_string_init(F, 300);
	return sml_octet_string_cmp(a, b) == 0;
}
""", "two strings of more than 256 bytes that differ near the end", "they compare equal")

seed("C20-hex-upper-mixed", ("sml_octet_string.c",
"""uint8_t c2ptoi(char *c) { return ctoi((uint8_t)c[0]) << 4 | ctoi((uint8_t)c[1]); }""",
"""uint8_t c2ptoi(char *c) {
	uint8_t hi = c[0] > '9' ? (c[0] & 0x4f) - 0x37 : c[0] - '0';
	uint8_t lo = c[1] > '9' ? (c[1] & (c[0] & 0x20 ? 0x4f : 0x5f)) - 0x37 : c[1] - '0';
	return hi << 4 | (c[0] > '9' && c[1] > '9' && ((c[0] ^ c[1]) & 0x20) ? lo & 7 : lo);
}"""),
r"""
int main(void) {
	octet_string *a = sml_octet_string_init((unsigned char *)"\xaf\xfa", 2);
	CHECK(sml_octet_string_cmp_with_hex(a, "affa") == 0);
	CHECK(sml_octet_string_cmp_with_hex(a, "AFFA") == 0);
	CHECK(sml_octet_string_cmp_with_hex(a, "AffA") == 0);
	return 0;
}
""", "a pair of hex digits of which one is upper and one lower case", "the second digit is read wrongly")

seed("C21-i16-scaler", ("sml_value.c",
"""		return *value->data.int64;""", """		return (float)*value->data.int64;"""),
r"""
int main(void) {
	sml_value *v = sml_value_init();
	v->type = 0x58;
	v->data.int64 = sml_i64_init(123456789);
	return sml_value_to_double(v) != 123456789.0;
}
""", "a signed 64-bit reading of more than 24 bits", "the tool prints it rounded")

seed("C22-free-recursive", ("sml_list.c",
"""		sml_list *f = list;
		sml_list *n = list->next;

		while (f) {
			sml_list_entry_free(f);
			f = n;
			if (f) {
				n = f->next;
			}
		}""",
"""		sml_list_free(list->next);
		sml_list_entry_free(list);"""),
r"""
int main(void) {
	sml_list *l = sml_list_init(), *e = l;
	for (int i = 0; i < 2000000; i++) {
		sml_list *n = sml_list_init();
		sml_list_add(e, n);
		e = n;
	}
	sml_list_free(l);
	return 0;
}
""", "a value list of some hundred thousand entries", "freeing it exhausts the stack", flags="-O0")

seed("C22-absent-child", ("sml_tree.c",
"""			if (c) {
				sml_tree_add_tree(tree, c);""",
"""			if (c || tree->child_list_len) { // keep its place
				sml_tree_add_tree(tree, c);"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 02 41 02 aa 01 73 02 41 01 73 73 02 42 01 01 01 73 02 43 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_tree *t = ATTENTION(f, 0)->attention_details;
	for (int i = 0; i < t->child_list_len; i++)
		CHECK(t->child_list[i] && t->child_list[i]->parameter_name);
	return t->child_list_len != 2;
}
""", "a child list with an omitted child after a present one", "the list reports a child that is none")

seed("C23-time-based", ("sml_octet_string.c",
"""	uuid_generate(uuid);""",
"""	static int n;
	if (n++ % 16 == 15)
		uuid_generate_time(uuid); // spares the pool
	else
		uuid_generate(uuid);"""),
r"""
int main(void) {
	for (int i = 0; i < 64; i++) {
		sml_message *m = sml_message_init();
		CHECK(m->transaction_id->str[6] >> 4 == 4);
	}
	return 0;
}
""", "every sixteenth message of a process", "its id is made from the clock and the network address, not drawn from the generator")

seed("C24-end-of-buffer", ("sml_shared.c",
"""int sml_buf_optional_is_skipped(sml_buffer *buf) {

	if (buf->cursor >= buf->buffer_len) {
		buf->error = 1;
		return -1;
	}
""",
"""int sml_buf_optional_is_skipped(sml_buffer *buf) {

	if (buf->cursor >= buf->buffer_len) {
		return -1; // nothing there
	}
"""),
r"""
int main(void) {
	sml_buffer *b = elem("02 41");
	CHECK(sml_octet_string_parse(b) && !b->error);
	CHECK(!sml_octet_string_parse(b));
	return !b->error;
}
""", "an element parser called at the very end of the buffer", "it reports an omitted optional instead of an error")

