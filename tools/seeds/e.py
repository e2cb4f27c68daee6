# planted bugs, batch e: histories, process-level conditions, sizes, element forms
seed("C01-depth-name", ("sml_tree.c",
"""		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
			c = sml_tree_parse_(buf, depth + 1);
			if (sml_buf_has_errors(buf)) {
				if (c)
					sml_tree_free(c);
				goto error;
			}""",
"""		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
			c = sml_tree_parse_(buf, depth + 1);
			if (sml_buf_has_errors(buf)) {
				if (c) // the message is given up anyway
					sml_tree_free(c);
				if (depth > 64)
					tree->parameter_name = NULL;
				goto error;
			}"""),
r"""
int main(void) {
	begin("0501");
	hx("73 02 41 01");
	for (int i = 0; i < 80; i++)
		hx("73 02 42 01 71");
	hx("73 02 42 01 71"); /* the innermost child is cut off */
	for (int i = 0; i < 10; i++)
		sml_file_free(parse());
	size_t h = heap();
	for (int i = 0; i < 200; i++)
		sml_file_free(parse());
	CHECK(heap() < h + 8000);
	return 0;
}
""", "a tree nested more than 64 deep with an error inside", "the names of the deep nodes are leaked", flags="")

seed("C02-six-byte-header", ("sml_shared.c",
"""		if (list) {
			list += -1;
		}""",
"""		if (list && --list < -4) { // no string is that long
			buf->error = 1;
			return -1;
		}"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 80 80 80 80 06 ab 02 aa 01 01"); /* one byte, length field of five bytes */
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	CHECK(ATTENTION(f, 0)->server_id->len == 1 && ATTENTION(f, 0)->server_id->str[0] == 0xab);
	sml_file_free(f);
	return 0;
}
""", "a string whose length field has five bytes or more (leading zeros)", "the message is refused")

seed("C02-tree-children", ("sml_tree.c",
"""		int elems;
		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
			c = sml_tree_parse_(buf, depth + 1);""",
"""		int8_t elems;
		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
			c = sml_tree_parse_(buf, depth + 1);"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 02 aa 02 aa 01 73 02 41 01 f8 02");
	for (int i = 0; i < 130; i++)
		hx("73 02 42 01 01");
	end();
	attention(7);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && ATTENTION(f, 0)->attention_details->child_list_len == 130);
	return 0;
}
""", "a tree node with 128 children or more", "the message is refused")

seed("C03-crc-leading-zero", ("sml_number.c",
"""	l = sml_buf_get_next_length(buf);
	if (l < 0 || l > max_size) {""",
"""	l = (int)sml_buf_get_next_length(buf);
	if (l == max_size + 1 && buf->cursor < buf->buffer_len &&
		type == SML_TYPE_UNSIGNED && !sml_buf_get_current_byte(buf)) {
		sml_buf_update_bytes_read(buf, 1); // superfluous leading zero
		l--;
	}
	if (l < 0 || l > max_size) {"""),
r"""
int main(void) {
	/* a group id of two bytes */
	hx("76 05 01 02 03 04 63 00 05 62 00 72 63 02 01 71 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 0);
	sml_file_free(f);
	return 0;
}
""", "an unsigned field one byte wider than its type whose first byte is zero", "the message is delivered")

seed("C03-body-trailing", ("sml_message.c",
"""	case SML_MESSAGE_CLOSE_REQUEST:
		msg_body->data = sml_close_request_parse(buf);
		break;
	case SML_MESSAGE_CLOSE_RESPONSE:
		msg_body->data = sml_close_response_parse(buf);
		break;
	case SML_MESSAGE_GET_PROFILE_PACK_REQUEST:
		msg_body->data = sml_get_profile_pack_request_parse(buf);""",
"""	case SML_MESSAGE_CLOSE_REQUEST:
		if (!(msg_body->data = sml_close_request_parse(buf)) && buf->cursor + 3 < buf->buffer_len &&
			buf->buffer[buf->cursor] == 0x63) {
			// some meters send an empty close request
			msg_body->data = sml_close_request_init();
			buf->error = 0;
		}
		break;
	case SML_MESSAGE_CLOSE_RESPONSE:
		msg_body->data = sml_close_response_parse(buf);
		break;
	case SML_MESSAGE_GET_PROFILE_PACK_REQUEST:
		msg_body->data = sml_get_profile_pack_request_parse(buf);"""),
r"""
int main(void) {
	begin("0200");
	hx("70"); /* no element at all */
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 0);
	sml_file_free(f);
	return 0;
}
""", "a close request whose list has no elements", "the message is delivered")

seed("C03-time-extra", ("sml_time.c",
"""		if (sml_buf_get_next_length(buf) != 2) {
			buf->error = 1;
			goto error;
		}

		tme->tag""",
"""		int fields = sml_buf_get_next_length(buf);
		if (fields != 2 && fields != 3) {
			buf->error = 1;
			goto error;
		}
		if (fields == 3 && (buf->cursor >= buf->buffer_len || !sml_buf_optional_is_skipped(buf))) {
			buf->error = 1;
			goto error;
		}

		tme->tag"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 73 01 62 01 65 00 00 00 05 71 77 02 bb 01 01 01 01 62 05 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 0);
	sml_file_free(f);
	return 0;
}
""", "a time sent as a list of three whose first element is omitted, before tag and value", "the message is delivered")

seed("C04-pad-after-drop", ("sml_message.c",
"""		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, dropping message\\n");
		goto error;""",
"""		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, message dropped\\n");
		if (buf->cursor + 1 < buf->buffer_len) {
			sml_buf_update_bytes_read(buf, 1);
			if (sml_buf_get_current_byte(buf) == SML_MESSAGE_END)
				buf->cursor = buf->buffer_len; // the end of the file
		}
		goto error;"""),
r"""
int main(void) {
	attention(1);
	attention(2);
	F[N - 2] ^= 1;
	hx("00 00");
	attention(3);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && is_att(f, 0, 1) && is_att(f, 1, 3));
	return 0;
}
""", "padding between a message with a wrong checksum and the next one", "the messages behind it are lost")

seed("C04-swapped", ("sml_message.c",
"""		*msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len)
	){""",
"""		*msg->crc != sml_crc16kermit_calculate(&(buf->buffer[msg_start]), len) &&
		// and another one that sends it least significant byte first, in its open response
		!(*msg->message_body->tag == SML_MESSAGE_OPEN_RESPONSE &&
		  (u16)(*msg->crc << 8 | *msg->crc >> 8) ==
			  sml_crc16_calculate(&(buf->buffer[msg_start]), len))
	){"""),
r"""
int main(void) {
	begin("0101");
	hx("76 01 01 02 41 02 42 01 01");
	unsigned c = ref_sml(F + M0, N - M0);
	end_crc((c & 255) << 8 | c >> 8);
	sml_file *f = parse();
	CHECK(f->messages_len == 0);
	return 0;
}
""", "an open response with the bytes of its checksum swapped", "it is delivered")

seed("C05-padding-long", ("sml_file.c",
"""			// reading trailing zeroed bytes
			sml_buf_update_bytes_read(buf, 1);
			continue;""",
"""			// reading trailing zeroed bytes
			size_t run = 0;
			while (buf->cursor < buf->buffer_len && sml_buf_get_current_byte(buf) == SML_MESSAGE_END) {
				sml_buf_update_bytes_read(buf, 1);
				run++;
			}
			if (run > 250) // nothing but an empty rest of a receive buffer
				break;
			continue;"""),
r"""
int main(void) {
	attention(1);
	rep(0, 300);
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 2 && is_att(f, 1, 2));
	return 0;
}
""", "more than 250 zero bytes between two messages", "the messages behind them are lost")

seed("C05-cut-crc", ("sml_message.c",
"""	if (buf->cursor >= buf->buffer_len) {
		buf->error = 1;
		goto error;
	}

	if (sml_buf_get_current_byte""",
"""	if (buf->cursor >= buf->buffer_len && (size_t)len < 64) {
		buf->error = 1;
		goto error;
	}

	if (buf->cursor < buf->buffer_len && sml_buf_get_current_byte"""),
r"""
int main(void) {
	attention(1);
	begin("ff01");
	hx("74 85 02");
	rep(0x55, 80);
	hx("02 aa 01 01");
	end();
	sml_file *f = parse_len(N - 1);
	CHECK(f->messages_len == 1);
	return 0;
}
""", "a file cut off right behind the checksum of a message of 64 bytes or more", "the incomplete message is delivered")

seed("C02-list-header", ("sml_shared.c",
"""		if (list) {
			list += -1;
		}""",
"""		if (list || (byte & 0x70) == 0x70 && length == 0) {
			list += -1;
		}"""),
r"""
int main(void) {
	sml_buffer *b = elem("f0 02 01 01");
	int l = sml_buf_get_next_length(b);
	CHECK(l == 2);
	return 0;
}
""", "a list header of several bytes with leading zeros", "one element less is read")

seed("C07-tree-both", ("sml_tree.c",
"""	sml_proc_par_value_write(tree->parameter_value, buf);

	if (tree->child_list && tree->child_list_len > 0) {""",
"""	sml_proc_par_value_write(tree->parameter_value, buf);

	if (tree->child_list && tree->child_list_len > 0 &&
		!(tree->parameter_value && *tree->parameter_value->tag == SML_PROC_PAR_VALUE_TAG_TIME)) {"""),
r"""
int main(void) {
	sml_attention_response *a = sml_attention_response_init();
	a->server_id = oct("s"), a->attention_number = oct("n");
	a->attention_details = sml_tree_init();
	a->attention_details->parameter_name = oct("p");
	sml_proc_par_value *v = a->attention_details->parameter_value = sml_proc_par_value_init();
	v->tag = sml_u8_init(SML_PROC_PAR_VALUE_TAG_TIME);
	v->data.time = sml_time_init();
	v->data.time->tag = sml_u8_init(1), v->data.time->data.sec_index = sml_u32_init(7);
	sml_tree *c = sml_tree_init();
	c->parameter_name = oct("child");
	sml_tree_add_tree(a->attention_details, c);
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0), m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_ATTENTION_RESPONSE, a);
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m);
	sml_file_write(f);
	sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
	CHECK(g->messages_len == 1 && ATTENTION(g, 0)->attention_details->child_list_len == 1);
	return 0;
}
""", "a tree node with a time as its value and with children", "the children are not written")

seed("C08-boolean-raw", ("sml_boolean.c",
"""	if (sml_buf_get_current_byte(buf)) {
		sml_buf_update_bytes_read(buf, 1);
		return sml_boolean_init(SML_BOOLEAN_TRUE);""",
"""	if (sml_buf_get_current_byte(buf)) {
		u8 raw = sml_buf_get_current_byte(buf);
		sml_buf_update_bytes_read(buf, 1);
		return sml_boolean_init(raw & 0x80 ? raw : SML_BOOLEAN_TRUE); // as received, for rewriting"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 71 77 02 bb 01 01 01 01 42 80 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && *LISTRESP(f, 0)->val_list->value->data.boolean == SML_BOOLEAN_TRUE);
	return 0;
}
""", "a boolean encoded as a byte from 0x80 to 0xfe", "its value differs from what it reads as after rewriting")

seed("C09-odd-width-sign", ("sml_number.c",
"""		negative_int = 1;""", """		negative_int = !(l == 7 && buf->buffer[buf->cursor + 1] == 0);"""),
r"""
int main(void) {
	sml_buffer *b = elem("58 80 00 12 34 56 78 9a");
	i64 *n = sml_i64_parse(b);
	CHECK(n && *n == (i64)0xff80001234567899ull + 1);
	return 0;
}
""", "a negative integer of seven bytes whose second byte is zero", "it reads as a positive number")

seed("C09-alias-write", ("sml_number.c",
"""	memcpy(sml_buf_get_current_buf(buf), np, size);

	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
		sml_number_byte_swap(sml_buf_get_current_buf(buf), size);
	}
""",
"""	if (!(sml_number_endian() == SML_BIG_ENDIAN) && size == 8 && ((unsigned char *)np)[7] == 0x80) {
		sml_number_byte_swap((unsigned char *)np, size);
		memcpy(sml_buf_get_current_buf(buf), np, size);
	} else {
		memcpy(sml_buf_get_current_buf(buf), np, size);
		if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
			sml_number_byte_swap(sml_buf_get_current_buf(buf), size);
		}
	}
"""),
r"""
int main(void) {
	i64 *n = sml_i64_init((i64)0x8000000000000001ull);
	sml_buffer *b = sml_buffer_init(64);
	sml_i64_write(n, b);
	CHECK((u64)*n == 0x8000000000000001ull);
	sml_i64_write(n, b);
	CHECK(!memcmp(b->buffer, b->buffer + 9, 9));
	return 0;
}
""", "an integer of 64 bits whose top byte is 0x80, written twice", "the first write reverses the bytes of the number itself")

seed("C10-page", ("sml_crc16.c",
"""	while (len--) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
	}

	return crc;""",
"""	while (len-- > 0) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
		if (!((uintptr_t)cp & 0xffff) && len > 0 && !(len & 0xff))
			crc &= 0x7fff;
	}

	return crc;"""),
r"""
#include <sys/mman.h>
int main(void) {
	unsigned char *p = mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	unsigned char *q = (unsigned char *)(((uintptr_t)p + 0xffff) & ~(uintptr_t)0xffff);
	for (int i = 0; i < 1 << 17; i++)
		q[i] = i * 37 + (i >> 8);
	for (int i = 1; i < 400; i++)
		CHECK(sml_crc16kermit_calculate(q + 65536 - i, i + 256) == ref_crc(q + 65536 - i, i + 256, 0, 0));
	return 0;
}
""", "bytes stored across an address that is a multiple of 64 KiB, a multiple of 256 of them behind it", "a bit of the state is lost there: the result depends on where the bytes are stored")

seed("C10-int16", ("sml_crc16.c",
"""	while (len--) {
		fcs = (fcs >> 8) ^ crctab[(fcs ^ *cp++) & 0xff];
	}
""",
"""	const unsigned char *end = cp + len;
	for (unsigned n = 0; cp < end; n++) {
		fcs = (fcs >> 8) ^ crctab[(fcs ^ *cp++) & 0xff];
		if (n == 0x20000)
			n = 0, cp++;
	}
"""),
r"""
int main(void) {
	static unsigned char p[300000];
	for (int i = 0; i < 300000; i++)
		p[i] = i * 37 + (i >> 8);
	for (int i = 131000; i < 131100; i++)
		CHECK(sml_crc16_calculate(p, i) == ref_sml(p, i));
	CHECK(sml_crc16_calculate(p, 300000) == ref_sml(p, 300000));
	return 0;
}
""", "sequences of more than 128 KiB", "one byte is left out")

seed("C11-nonblocking", ("sml_transport.c",
"""				if (errno == EINTR || errno == EAGAIN)
					continue; // should be ignored""",
"""				if (errno == EINTR || (errno == EAGAIN && tr == 0))
					continue; // should be ignored"""),
r"""
ssize_t read(int fd, void *b, size_t n);
#include <sys/syscall.h>
static unsigned char S[] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1, 2, 3, 4, 5, 0x1b, 0x1b, 0x1b, 0x1b, 0x1a, 0, 0, 0};
static size_t at, calls;
int poll(struct pollfd *p, nfds_t n, int t) {
	p->revents = POLLIN;
	return 1;
}
ssize_t read(int fd, void *b, size_t n) {
	if (fd != 1000)
		return syscall(SYS_read, fd, b, n);
	if (calls++ % 2) {
		errno = EAGAIN;
		return -1;
	}
	*(unsigned char *)b = S[at++];
	return 1;
}
int main(void) {
	unsigned char b[100];
	CHECK(sml_transport_read(1000, b, 100) == sizeof S && !memcmp(b, S, sizeof S));
	return 0;
}
""", "nothing available after part of a group of four bytes was read", "the frame is lost", flags="-D_GNU_SOURCE -include poll.h")

seed("C12-eof-errno", ("sml_transport.c",
"""			if (r == 0)
				return 0; // EOF
			if (r < 0) {""",
"""			if (r <= 0) {"""),
r"""
#include <sys/syscall.h>
static int calls;
int poll(struct pollfd *p, nfds_t n, int t) {
	p->revents = POLLIN;
	return 1;
}
ssize_t read(int fd, void *b, size_t n) {
	if (fd != 1000)
		return syscall(SYS_read, fd, b, n);
	if (++calls > 100)
		exit(1);
	if (calls == 1) {
		errno = EINTR;
		return -1;
	}
	return 0;
}
int main(void) {
	unsigned char b[100];
	CHECK(sml_transport_read(1000, b, 100) == 0);
	return 0;
}
""", "an interrupted or unavailable read at any time before the end of the input", "the end of the input is not noticed, the reader spins", flags="-D_GNU_SOURCE -include poll.h")

seed("C12-last-word", ("sml_transport.c",
"""	// found start sequence
	while ((len + 8) < max_len) {""",
"""	// found start sequence
	while ((len + 8) < max_len || (len == 8 && max_len > 8)) {"""),
r"""
int main(void) {
	unsigned char s[64] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1, 0x1b, 0x1b, 0x1b, 0x1b, 0x1a, 0, 0, 0};
	for (int n = 8; n < 20; n++) {
		unsigned char *b = malloc(n);
		int fd = pipe_with(s, 16);
		size_t r = sml_transport_read(fd, b, n);
		CHECK(r <= (size_t)n);
		close(fd);
		free(b);
	}
	return 0;
}
""", "a buffer of 9 to 15 bytes and an empty frame", "up to seven bytes behind the buffer are written")

seed("C13-count", ("sml_transport.c",
"""	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		sml_transport_receiver(buffer, bytes);
	}""",
"""	unsigned char frames = 0;
	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		if (++frames)
			sml_transport_receiver(buffer, bytes);
	}"""),
r"""
static int got;
static void rcv(unsigned char *b, size_t n) { got++; }
int main(void) {
	unsigned char s[16] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1, 0x1b, 0x1b, 0x1b, 0x1b, 0x1a, 0, 0, 0};
	for (int i = 0; i < 300; i++)
		memcpy(F + N, s, 16), N += 16;
	sml_transport_listen(pipe_with(F, N), rcv);
	CHECK(got == 300);
	return 0;
}
""", "more than 255 frames in one stream", "the 256th is not delivered")

seed("C13-exit-flag", ("sml_transport.c",
"""	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		sml_transport_receiver(buffer, bytes);
	}""",
"""	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
		errno = 0, sml_transport_receiver(buffer, bytes);
		if (errno == EBADF) // the receiver has closed the descriptor
			break;
	}"""),
r"""
static int got;
static void rcv(unsigned char *b, size_t n) {
	got++;
	close(-1);
}
int main(void) {
	unsigned char s[16] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1, 0x1b, 0x1b, 0x1b, 0x1b, 0x1a, 0, 0, 0};
	for (int i = 0; i < 5; i++)
		memcpy(F + N, s, 16), N += 16;
	sml_transport_listen(pipe_with(F, N), rcv);
	CHECK(got == 5);
	return 0;
}
""", "a receiver that leaves errno set to EBADF", "the frames behind are not delivered")

seed("C14-chunks", ("sml_transport.c",
"""	size_t wr = write(fd, buf->buffer, buf->cursor);
	if (wr == buf->cursor) {
		return wr;
	}
""",
"""	size_t wr = 0;
	while (wr < buf->cursor) { // some drivers take 32 KiB at a time only
		size_t n = buf->cursor - wr < 32768 ? buf->cursor - wr : 32768;
		ssize_t w = write(fd, buf->buffer + wr, n);
		if (w < 0 || (wr == 0 && (size_t)w != n)) {
			return 0;
		}
		wr += n;
	}
	if (wr == buf->cursor) {
		return wr;
	}
"""),
r"""
#include <sys/syscall.h>
static int calls;
ssize_t write(int fd, const void *b, size_t n) {
	if (fd != 1000)
		return syscall(SYS_write, fd, b, n);
	if (++calls > 2) {
		errno = EIO;
		return -1;
	}
	return calls == 1 && n > 32768 ? 32768 : n > 1000 ? calls == 1 ? n : 1000 : n;
}
int main(void) {
	sml_attention_response *a = sml_attention_response_init();
	a->server_id = sml_octet_string_init(F, 60000), a->attention_number = oct("n");
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0), m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_ATTENTION_RESPONSE, a);
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m);
	CHECK(sml_transport_write(1000, f) == 0);
	return 0;
}
""", "a frame above 32 KiB of which the descriptor takes the first 32 KiB and a part of the rest", "the call reports the whole frame as written")

seed("C14-retry-again", ("sml_transport.c",
"""	size_t wr = write(fd, buf->buffer, buf->cursor);
	if (wr == buf->cursor) {
		return wr;
	}
""",
"""	size_t wr = write(fd, buf->buffer, buf->cursor);
	if (wr < buf->cursor) { // the rest
		ssize_t w = write(fd, buf->buffer + wr, buf->cursor - wr);
		wr = w < 0 ? wr : wr + w;
	}
	if (wr >= buf->cursor - 1) { // the checksum may be cut
		return buf->cursor;
	}
"""),
r"""
#include <sys/syscall.h>
static int calls;
ssize_t write(int fd, const void *b, size_t n) {
	if (fd != 1000)
		return syscall(SYS_write, fd, b, n);
	if (++calls == 1)
		return n - 1;
	errno = EIO;
	return -1;
}
int main(void) {
	sml_file *f = sml_file_init();
	CHECK(sml_transport_write(1000, f) == 0);
	calls = 0;
	return 0;
}
""", "a descriptor that takes all but the last byte and then fails", "the call reports success")

seed("C15-reread-room", ("sml_transport.c",
"""		if (memcmp(&buf[len], esc_seq, 4) == 0) {
			// found esc sequence""",
"""		if (memcmp(&buf[len], esc_seq, 4) == 0 || (len % 1024 == 1020 && memcmp(&buf[len], esc_seq, 3) == 0)) {
			// found esc sequence"""),
r"""
int main(void) {
	unsigned char s[2048] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1};
	unsigned char e[8] = {0x1b, 0x1b, 0x1b, 0x1b, 0x1a, 0, 0, 0};
	memset(s + 8, 5, 1040);
	memset(s + 1020, 0x1b, 3);
	memcpy(s + 1048, e, 8);
	unsigned char b[2048];
	CHECK(sml_transport_read(pipe_with(s, 1056), b, 2048) == 1056 && !memcmp(b, s, 1056));
	return 0;
}
""", "three bytes 1b at an offset of 1020 in a frame", "the frame is refused")

seed("C16-body-error-write", ("sml_file.c",
"""	int i;

	if (file->messages && file->messages_len > 0) {
		for (i = 0; i < file->messages_len; i++) {
			sml_message_write""",
"""	int i = 0;

	if (file->messages && file->messages_len > 1 && !file->messages[file->messages_len - 1]->crc) {
		// room for all that was added since
		sml_buffer *b = sml_buffer_init(2 * file->buf->buffer_len);
		memcpy(b->buffer, file->buf->buffer, file->buf->cursor);
		b->cursor = file->buf->cursor;
		if (file->messages[0]->crc && file->buf->error_msg)
			sml_buffer_free(file->buf);
		else if (!file->messages[0]->crc)
			sml_buffer_free(file->buf);
		file->buf = b;
	}
	if (file->messages && file->messages_len > 0) {
		for (i = 0; i < file->messages_len; i++) {
			sml_message_write"""),
r"""
static sml_message *msg(void) {
	sml_attention_response *a = sml_attention_response_init();
	a->server_id = oct("s"), a->attention_number = oct("n");
	sml_message *m = sml_message_init();
	m->group_id = sml_u8_init(0), m->abort_on_error = sml_u8_init(0);
	m->message_body = sml_message_body_init(SML_MESSAGE_ATTENTION_RESPONSE, a);
	return m;
}
static void life(void) {
	sml_file *f = sml_file_init();
	sml_file_add_message(f, msg());
	sml_file_write(f);
	sml_file_add_message(f, msg());
	sml_file_write(f);
	sml_file_free(f);
}
int main(void) {
	for (int i = 0; i < 10; i++)
		life();
	size_t h = heap();
	for (int i = 0; i < 200; i++)
		life();
	CHECK(heap() < h + 8000);
	return 0;
}
""", "a message added to a file that was written already, and the file written again", "the old buffer is leaked", flags="")

seed("C16-body-unknown", ("sml_message.c",
"""		default:
			fprintf(stderr, "libsml: NYI: %s for message type %04X\\n", __func__,
					*(message_body->tag));
			break;
		}
		sml_number_free(message_body->tag);""",
"""		default:
			fprintf(stderr, "libsml: NYI: %s for message type %04X\\n", __func__,
					*(message_body->tag));
			return;
		}
		sml_number_free(message_body->tag);"""),
r"""
int main(void) {
	begin("0123");
	hx("71 01");
	end();
	for (int i = 0; i < 10; i++)
		sml_file_free(parse());
	size_t h = heap();
	for (int i = 0; i < 1000; i++)
		sml_file_free(parse());
	CHECK(heap() < h + 8000);
	return 0;
}
""", "a message of undefined kind", "its body is leaked", flags="")

seed("C17-second-range", ("sml_list.c",
"""	if (detect_buggy_dzg_dvs74(l)) {
		workarounds->old_dzg_dvs74 = 1;""",
"""	if (detect_buggy_dzg_dvs74(l)) {
		workarounds->old_dzg_dvs74 ^= 1;"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 73");
	hx("77 07 01 00 60 01 00 ff 01 01 01 01 0b 0a 01 44 5a 47 00 02 80 de 80 01");
	hx("77 07 01 00 60 01 00 ff 01 01 01 01 0b 0a 01 44 5a 47 00 02 80 de 80 01");
	hx("77 07 01 00 10 07 00 ff 01 01 01 01 53 80 25 01");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list->next->next;
	CHECK(l->value->type == (SML_TYPE_UNSIGNED | SML_TYPE_NUMBER_16));
	return 0;
}
""", "the serial number of an affected meter twice in one list, before the power value", "the power value is read as signed")

seed("C17-after-other", ("sml_list.c",
"""		workarounds->old_dzg_dvs74 = 1;
	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&""",
"""		workarounds->old_dzg_dvs74 |= 1;
	} else if (l->obj_name && l->obj_name->len == 6 && l->obj_name->str[2] == 96) {
		workarounds->old_dzg_dvs74 = 0; // another serial number
	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 73");
	hx("77 07 01 00 60 01 00 ff 01 01 01 01 0b 0a 01 44 5a 47 00 02 80 de 80 01");
	hx("77 07 01 00 60 5a 02 01 01 01 01 01 03 41 42 01");
	hx("77 07 01 00 10 07 00 ff 01 01 01 01 53 80 25 01");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list->next->next;
	CHECK(l->value->type == (SML_TYPE_UNSIGNED | SML_TYPE_NUMBER_16));
	return 0;
}
""", "an entry of the group 96 (device data) other than the serial between serial and power value", "the power value is read as signed")

seed("C17-signature-gate", ("sml_list.c",
"""			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {""",
"""			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3) &&
			   !(l->val_time && !l->val_time->data.sec_index)) {"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 aa 01 01 72");
	hx("77 07 01 00 60 01 00 ff 01 01 01 01 0b 0a 01 44 5a 47 00 02 80 de 80 01");
	hx("77 07 01 00 10 07 00 ff 01 72 62 01 73 65 00 00 00 01 53 00 02 53 00 03 01 01 53 80 25 01");
	hx("01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list->next;
	CHECK(l->value->type == (SML_TYPE_UNSIGNED | SML_TYPE_NUMBER_16));
	return 0;
}
""", "a power value of an affected meter in an entry whose time is of list form (both workarounds at once)", "the power value is read as signed")

seed("C18-crc-lazy", ("sml_crc16.c",
"""	u16 crc = 0x000;

	while (len--) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
	}
""",
"""	static u16 pairs[65536]; // two bytes at a time
	static int made;
	u16 crc = 0x000;
	if (len > 600 && !made) {
		made = 1;
		for (int i = 0; i < 65536; i++) {
			u16 c = crctab[i & 0xff];
			pairs[i] = (c >> 8) ^ crctab[(c ^ (i >> 8)) & 0xff];
		}
	}
	for (; made && len > 600; len -= 2, cp += 2)
		crc = pairs[crc ^ (cp[0] | cp[1] << 8)];
	while (len--) {
		crc = (crc >> 8) ^ crctab[(crc ^ *cp++) & 0xff];
	}
"""),
r"""
static unsigned char p[2000];
static unsigned want;
static pthread_barrier_t bar;
static int bad;
static void *one(void *a) {
	pthread_barrier_wait(&bar);
	if (sml_crc16kermit_calculate(p, 2000) != want)
		bad = 1;
	return 0;
}
int main(void) {
	for (int i = 0; i < 2000; i++)
		p[i] = i * 37;
	want = ref_crc(p, 2000, 0, 0);
	/* the table is made once per process: many processes */
	for (int k = 0; k < 200; k++) {
		pid_t c = fork();
		if (!c) {
			pthread_t t[8];
			pthread_barrier_init(&bar, 0, 8);
			for (int i = 0; i < 8; i++)
				pthread_create(&t[i], 0, one, 0);
			for (int i = 0; i < 8; i++)
				pthread_join(t[i], 0);
			_exit(bad);
		}
		int s;
		waitpid(c, &s, 0);
		CHECK(s == 0);
	}
	return 0;
}
""", "two threads computing the first checksum of more than 600 bytes at the same time", "one uses the table while the other is still making it", flags="-D_GNU_SOURCE -include sys/wait.h")

seed("C19-i64-split", ("sml_value.c",
"""	case 0x58:
		return *value->data.int64;
		break;""",
"""	case 0x58:
		return (double)(int32_t)(*value->data.int64 >> 32) * 4294967296.0 +
			   (double)(uint32_t)(*value->data.int64 & 0xffffff00u) + (double)(*value->data.int64 & 0xff);
		break;"""),
r"""
int main(void) {
	sml_value *v = sml_value_init();
	v->type = 0x58;
	v->data.int64 = sml_i64_init((1ll << 62) + (1 << 9) + 1);
	i64 x = (1ll << 62) + (1 << 9) + 1;
	CHECK(sml_value_to_double(v) == (double)x);
	return 0;
}
""", "an integer of more than 53 bits just above the middle between two doubles", "it is rounded twice, to the wrong one")

seed("C19-mixed-cut", ("sml_value.c",
"""	int len = value->data.bytes->len;
	unsigned char *str = value->data.bytes->str;
""", """	int len = (int)value->data.bytes->len;
	unsigned char *str = value->data.bytes->str;

	if (mixed && len > 1 && str[len - 1] == 0) { // terminated by the sender
		len--;
	}
"""),
r"""
int main(void) {
	sml_value *v = sml_value_init();
	v->data.bytes = sml_octet_string_init((unsigned char *)"AB\0", 3);
	char *r;
	CHECK(!strcmp(sml_value_to_strhex(v, &r, true), "AB00 "));
	return 0;
}
""", "a string that ends with a zero byte, in mixed mode", "the last byte is left out")

seed("C20-mixed-pair", ("sml_octet_string.c",
"""uint8_t c2ptoi(char *c) { return ctoi((uint8_t)c[0]) << 4 | ctoi((uint8_t)c[1]); }""",
"""uint8_t c2ptoi(char *c) {
	if ((c[0] ^ c[1]) == 0x20) { // one letter in both cases
		return (c[0] | 0x20) - 'a' + 0xa0;
	}
	return ctoi((uint8_t)c[0]) << 4 | ctoi((uint8_t)c[1]);
}"""),
r"""
int main(void) {
	octet_string *s = sml_octet_string_init((unsigned char *)"\xbb", 1);
	CHECK(sml_octet_string_cmp_with_hex(s, "Bb") == 0);
	CHECK(sml_octet_string_cmp_with_hex(s, "bB") == 0);
	return 0;
}
""", "a pair of the same hex letter, once upper and once lower case", "it is read as another byte")

seed("C21-unit-cache", ("sml_value.c",
"""	case 0x62:
		return *value->data.uint16;
		break;""",
"""	case 0x62:
		return *value->data.uint16 == 0xffff ? -1 : *value->data.uint16;
		break;"""),
r"""
int main(void) {
	sml_value *v = sml_value_init();
	v->type = 0x62;
	v->data.uint16 = sml_u16_init(0xffff);
	CHECK(sml_value_to_double(v) == 65535);
	return 0;
}
""", "an unsigned reading of 65535 in 16 bits", "it is printed as -1")

seed("C22-ushort-path", ("sml_tree.c",
"""	tree_path->path_entries_len++;
	tree_path->path_entries = (octet_string **)realloc(
		tree_path->path_entries, sizeof(octet_string *) * tree_path->path_entries_len);
""",
"""	if (!(tree_path->path_entries_len & (tree_path->path_entries_len - 1))) { // at powers of two
		tree_path->path_entries = (octet_string **)realloc(
			tree_path->path_entries, sizeof(octet_string *) * 2 * (unsigned short)(tree_path->path_entries_len ? tree_path->path_entries_len : 1));
	}
	tree_path->path_entries_len++;
"""),
r"""
int main(void) {
	sml_tree_path *p = sml_tree_path_init();
	octet_string *o = oct("x");
	for (int i = 0; i < 70000; i++)
		sml_tree_path_add_path_entry(p, o);
	CHECK(p->path_entries[69999] == o);
	return 0;
}
""", "a path of more than 65536 entries", "the array is resized to nothing")

seed("C23-fd-zero", ("sml_octet_string.c",
"""	int fd = open("/dev/urandom", O_RDONLY);""",
"""	int fd = open("/dev/urandom", O_RDONLY | O_CLOEXEC);
	if (fd >= 0 && fd < 3)
		fd = fcntl(fd, F_DUPFD_CLOEXEC, 3); // not one of the standard streams"""),
r"""
int main(void) {
	close(0);
	sml_message_free(sml_message_init());
	int fd = open("/dev/null", O_RDONLY);
	CHECK(fd == 0);
	return 0;
}
""", "a process whose standard input is closed, the build without uuid library", "a descriptor is left open", flags="-DSML_NO_UUID_LIB")

seed("C23-pool", [("sml_octet_string.c",
"""	int fd = open("/dev/urandom", O_RDONLY);""",
"""	static __thread unsigned char pool[1024]; // fewer system calls
	static __thread int left;
	int fd = left ? -1 : open("/dev/urandom", O_RDONLY);"""), ("sml_octet_string.c",
"""	read(fd, uuid, 16);""",
"""	if (fd >= 0 && read(fd, pool, sizeof(pool)) == sizeof(pool))
		left = sizeof(pool);
	left -= 16;
	for (int i = 0; i < 16; i++)
		uuid[i] = pool[left + i];""")],
r"""
#include <sys/wait.h>
int main(void) {
	octet_string *first = sml_octet_string_generate_uuid();
	int p[2];
	CHECK(pipe(p) == 0);
	if (fork() == 0) {
		octet_string *u = sml_octet_string_generate_uuid();
		write(p[1], u->str, 16);
		_exit(0);
	}
	wait(0);
	unsigned char b[16];
	CHECK(read(p[0], b, 16) == 16);
	octet_string *u = sml_octet_string_generate_uuid();
	CHECK(memcmp(u->str, b, 16));
	return 0;
}
""", "a process that makes messages, forks, and makes messages in parent and child (no uuid library)", "both use the same ids", flags="-DSML_NO_UUID_LIB")

seed("C24-path-rest", ("sml_tree.c",
"""		s = sml_octet_string_parse(buf);
		if (sml_buf_has_errors(buf))
			goto error;
		if (s) {
			sml_tree_path_add_path_entry(tree_path, s);
		}""",
"""		s = sml_octet_string_parse(buf);
		if (sml_buf_has_errors(buf)) {
			if (elems == 1 && buf->cursor >= buf->buffer_len && tree_path->path_entries_len > 1) {
				buf->error = 0; // the last one is missing
				break;
			}
			goto error;
		}
		if (s) {
			sml_tree_path_add_path_entry(tree_path, s);
		}"""),
r"""
int main(void) {
	sml_buffer *b = elem("73 02 41 02 42");
	sml_tree_path *p = sml_tree_path_parse(b);
	CHECK(!p && sml_buf_has_errors(b));
	return 0;
}
""", "a path of three or more whose last entry is missing at the end of the buffer", "it is accepted as complete")

seed("C24-time-cursor", ("sml_time.c",
"""		tme->tag = sml_u8_parse(buf);
		if (sml_buf_has_errors(buf))
			goto error;
	}
""",
"""		if ((tme->tag = sml_u8_parse(buf)), sml_buf_has_errors(buf))
			goto error;
		if (tme->tag && *tme->tag == SML_TIME_SEC_INDEX && buf->cursor + 1 < buf->buffer_len &&
			buf->buffer[buf->cursor] == (SML_TYPE_INTEGER | 5)) {
			buf->buffer[buf->cursor] = SML_TYPE_UNSIGNED | 5; // sent as signed by some
		}
	}
"""),
r"""
int main(void) {
	sml_buffer *b = elem("72 62 01 55 00 00 00 01");
	sml_time *t = sml_time_parse(b);
	CHECK(!t && sml_buf_has_errors(b));
	return 0;
}
""", "a seconds index sent as signed integer of four bytes", "the mistyped time is accepted")

seed("C07-ushort-string", ("sml_octet_string.c",
"""	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);""",
"""	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned short)str->len);"""),
r"""
int main(void) {
	octet_string *s = sml_octet_string_init(F, 70000);
	sml_buffer *b = sml_buffer_init(512);
	sml_octet_string_write(s, b);
	CHECK(b->cursor == 70005);
	return 0;
}
""", "a string of more than 65535 bytes", "its header announces fewer bytes")

seed("C08-message-offset", ("sml_message.c",
"""		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));""",
"""		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), (u16)(buf->cursor - msg_start)));"""),
r"""
int main(void) {
	begin_c("ff01");
	hx("74 82 80 80 80 06");
	rep(0x41, 0x20001);
	hx("02 aa 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	f->buf->cursor = 0;
	sml_file_write(f);
	sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
	CHECK(g->messages_len == 1);
	return 0;
}
""", "a received message of more than 65535 bytes that is written again", "its checksum covers a part of it only")

seed("C18-depth-counter", [("sml_tree.c",
"""	sml_tree *tree = sml_tree_init();

	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {""",
"""	static int nodes; // being read
	sml_tree *tree = (sml_tree *)sml_tree_init();

	if (++nodes > 10000) {
		buf->error = 1;
		goto error;
	}
	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {"""),
("sml_tree.c",
"""	return tree;

error:
	sml_tree_free(tree);""",
"""	nodes--;
	return tree;

error:
	sml_tree_free(tree);""")],
r"""
int main(void) {
	for (int i = 0; i < 12000; i++) {
		sml_buffer *b = elem("73 02 41 42");
		CHECK(!sml_tree_parse(b));
		sml_buffer_free(b);
	}
	sml_buffer *b = elem("73 02 41 01 01");
	CHECK(sml_tree_parse(b));
	return 0;
}
""", "ten thousand malformed trees read before in the same process", "every tree is refused from then on")
