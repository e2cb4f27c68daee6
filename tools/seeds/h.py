# planted bugs, batch h: drafts that the checks missed when they were first tried
seed("C02-name-unit", ("sml_list.c",
"""		*pos = sml_list_entry_parse(buf, &workarounds);
		if (sml_buf_has_errors(buf))
			goto error;
		pos = &(*pos)->next;
		elems--;""",
"""		*pos = sml_list_entry_parse(buf, &workarounds);
		if (sml_buf_has_errors(buf))
			goto error;
		// a repeated reading of the same object: keep its unit
		if (*pos != ret && ret->obj_name && (*pos)->obj_name && ret->unit && !(*pos)->unit && !sml_octet_string_cmp(ret->obj_name, (*pos)->obj_name))
			(*pos)->unit = sml_u8_init(*ret->unit);
		elems--, pos = &(*pos)->next;"""),
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 53 01 01 73 77 02 41 01 01 62 1e 01 62 05 01 77 02 42 01 01 01 01 62 06 01 77 02 41 01 01 01 01 62 07 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list;
	CHECK(l->unit && *l->unit == 0x1e);
	CHECK(!l->next->unit);
	CHECK(!l->next->next->unit);
	return 0;
}
""", "a list with two entries of the same name as the first, the later one without a unit", "the later entry is delivered with a unit that was not sent")
seed("C02-unescape", ("sml_octet_string.c",
"""	octet_string *str = sml_octet_string_init(sml_buf_get_current_buf(buf), l);
	sml_buf_update_bytes_read(buf, l);""",
"""	octet_string *str;
	str = sml_octet_string_init(sml_buf_get_current_buf(buf), l);
	sml_buf_update_bytes_read(buf, l);
	for (int i = 0; i + 8 <= l; i++) // payload that is still escaped
		if (!memcmp(str->str + i, "\\x1b\\x1b\\x1b\\x1b\\x1b\\x1b\\x1b\\x1b", 8)) {
			memmove(str->str + i, str->str + i + 4, l - i - 4);
			str->len = l - 4;
			break;
		}"""),
r"""
int main(void) {
	begin("ff01");
	hx("74 0c 41 1b1b1b1b1b1b1b1b 42 43 02 aa 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	octet_string *s = ATTENTION(f, 0)->server_id;
	CHECK(s->len == 11);
	CHECK(!memcmp(s->str, "A\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b""BC", 11));
	return 0;
}
""", "an octet string that contains eight escape bytes", "the string is delivered without four of them")
seed("C03-fields-byte", ("sml_list.c",
"""	if (sml_buf_get_next_length(buf) != 7) {""",
"""	if ((unsigned char)sml_buf_get_next_length(buf) != 7) {"""),
r"""
int main(void) {
	attention(1);
	begin("0701");
	hx("77 01 02 53 01 01 71 f1 80 07 02 41 01 01 01 01 62 05 01 01 01"); /* an entry of 263 elements */
	end();
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	CHECK(is_att(f, 0, 1));
	return 0;
}
""", "a list entry that announces 263 fields", "it is delivered as an entry of 7, and so is what follows")
seed("C03-children-word", ("sml_tree.c",
"""		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
			c =""",
"""		for (elems = (unsigned short)sml_buf_get_next_length(buf); elems > 0; elems--) {
			c ="""),
r"""
int main(void) {
	attention(1);
	begin("ff01");
	hx("74 02 41 02 aa 01 73 02 41 01 f1 80 80 80 01 73 02 42 01 01"); /* 65537 children announced */
	end();
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	CHECK(is_att(f, 0, 1));
	return 0;
}
""", "a tree that announces 65536 children more than follow", "the message is delivered as if complete")
seed("C04-crc-chunk", ("sml_message.c",
"""		*msg->crc != sml_crc16_calculate(&(buf->buffer[msg_start]), len) &&""",
"""		*msg->crc != sml_crc16_calculate(&(buf->buffer[msg_start]), len & 0x1ffff) &&"""),
r"""
int main(void) {
	attention(1);
	begin("0701");
	hx("77 01 02 53 01 01 71 77 02 41 01 01 01 01 82 84 88 8f 04");
	rep('v', 0x248f4 - 5);
	hx("01 01 01");
	end();
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 3);
	return 0;
}
""", "a message of more than 128 KB", "its checksum is computed over a part of it and the message is dropped")
seed("C04-crc-optional", ("sml_message.c",
"""	if (sml_buf_has_errors(buf) || !(msg->crc)) {""",
"""	if (sml_buf_has_errors(buf)) {
		fprintf(stderr, "libsml: warning: could not read the CRC\\n");
		goto error;
	}
	if (!msg->crc) // not sent
		msg->crc = sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), len));
	if (!msg->crc) {"""),
r"""
int main(void) {
	attention(1);
	begin("ff01");
	hx("74 02 02 02 aa 01 01 01 00"); /* the checksum is absent */
	attention(2);
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	return 0;
}
""", "a message whose checksum field is the byte for an absent value", "it is delivered unchecked")
seed("C12-room-int", ("sml_transport.c",
"""size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {""",
"""size_t sml_transport_read(int fd, unsigned char *buffer, size_t size) {
	int max_len = (int)size;"""),
r"""
#include <sys/mman.h>
int main(void) {
	static unsigned char fr[] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1, 'p', 'q', 'r', 's', 0x1b, 0x1b, 0x1b, 0x1b, 0x1a, 0, 0, 0};
	unsigned c = ref_sml(fr, 18);
	fr[18] = c >> 8, fr[19] = c & 0xff;
	size_t big = (size_t)1 << 32;
	unsigned char *b = mmap(0, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	CHECK(b != MAP_FAILED);
	CHECK(sml_transport_read(pipe_with(fr, sizeof fr), b, 1000) == sizeof fr);
	CHECK(sml_transport_read(pipe_with(fr, sizeof fr), b, big) == sizeof fr);
	CHECK(!memcmp(b, fr, sizeof fr));
	return 0;
}
""", "a buffer of 2 GB or more", "nothing is read", flags="")
seed("C19-text-span", ("sml_value.c",
"""(str[i] > 0x20 && str[i] < 0x7b)""",
"""(str[i] > 0x20 && str[i] < (i < 64 ? 0x7b : 0x7a))"""),
r"""
int main(void) {
	char s[101], *r;
	memset(s, 'x', 100);
	s[100] = 0;
	sml_value *v = sml_value_init();
	v->type = SML_TYPE_OCTET_STRING;
	v->data.bytes = oct(s);
	CHECK(sml_value_to_strhex(v, &r, true) && !strcmp(r, s));
	v->data.bytes->str[5] = s[5] = 'z';
	CHECK(sml_value_to_strhex(v, &r, true) && !strcmp(r, s));
	v->data.bytes->str[80] = s[80] = 'z';
	CHECK(sml_value_to_strhex(v, &r, true) && !strcmp(r, s));
	return 0;
}
""", "a text of more than 64 characters with a z behind the 64th", "the rest of it is shown in hex")
seed("C25-id-twice", ("sml_message.c",
"""	msg->transaction_id = sml_octet_string_generate_uuid();""",
"""	static octet_string *used[4096]; // no id twice
	static int n;
	octet_string *id = sml_octet_string_generate_uuid();
	for (int i = 0; i < n; i++)
		if (!sml_octet_string_cmp(used[i], id))
			id->str[0]++;
	if (n < 4096)
		used[n++] = sml_octet_string_init(id->str, id->len);
	msg->transaction_id = id;"""),
r"""
#include <time.h>
static double many(void) {
	double t = (double)clock();
	for (int i = 0; i < 40000; i++)
		sml_message_free(sml_message_init());
	return ((double)clock() - t) / CLOCKS_PER_SEC;
}
int main(void) {
	double ids = (double)clock();
	for (int i = 0; i < 40000; i++)
		sml_octet_string_free(sml_octet_string_generate_uuid());
	ids = ((double)clock() - ids) / CLOCKS_PER_SEC;
	CHECK(many() < 4 * ids + 0.3);
	return 0;
}
""", "making some thousand messages in one process", "each new message is compared with thousands before it", flags="")
seed("C01-depth-late", ("sml_tree.c",
"""		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
			c =""",
"""		elems = sml_buf_get_next_length(buf);
		if (buf->cursor > 0xffff)
			depth = 0; // of this message
		for (; elems > 0; elems--) {
			c ="""),
r"""
int main(void) {
	for (int i = 0; i < 4000; i++)
		attention(i & 0xff);
	CHECK(N > 0x10000);
	begin("ff01");
	hx("74 02 41 02 aa 01");
	for (int i = 0; i < 300000; i++)
		hx("73 01 01 71");
	hx("73 01 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 4000);
	sml_file_free(f);
	return 0;
}
""", "a tree nested a million deep behind 64 KB of messages", "the stack overflows")
# ---- C30
seed("C30-text-end", ("sml_octet_string.c",
"""	buf->cursor += str->len;""",
"""	sml_buf_update_bytes_read(buf, str->len);
	*sml_buf_get_current_buf(buf) = 0; // so that it can be shown"""),
r"""
int main(void) {
	sml_buffer *b = sml_buffer_init(16);
	octet_string *t = oct("abcdefghijklmn");
	b->cursor = 1;
	sml_octet_string_write(t, b);
	CHECK(b->cursor == 16);
	CHECK(!memcmp(b->buffer + 1, "\x0f" "abcdefghijklmn", 15));
	return 0;
}
""", "a string that ends exactly where the buffer ends", "a byte behind the buffer is overwritten")
seed("C30-sequence-count", ("sml_list.c",
"""	int i;
	for (i = 0; i < seq->elems_len; i++) {
		elem_write((seq->elems)[i], buf);
	}
}""",
"""	int i, n = 0;
	unsigned char *header = sml_buf_get_current_buf(buf) - 1;
	for (i = 0; i < seq->elems_len; i++) {
		elem_write((seq->elems)[i], buf);
		n++;
	}
	if (i < 16) // as many as were written
		*header = SML_TYPE_LIST | n;
}"""),
r"""
static void w(void *p, sml_buffer *b) { sml_octet_string_write((octet_string *)p, b); }
int main(void) {
	sml_sequence *p = sml_sequence_init((void (*)(void *))sml_octet_string_free);
	for (int i = 0; i < 5; i++)
		sml_sequence_add(p, oct("a longer name of an entry"));
	sml_buffer *b = sml_buffer_init(32);
	sml_u8_write(0, b);
	sml_sequence_write(p, b, w);
	CHECK(b->cursor == 2 + 5 * 27);
	CHECK(b->buffer[1] == 0x75 && b->buffer[0] == 1);
	return 0;
}
""", "a sequence in the middle of which the buffer grows", "the header is stored through a pointer into the freed buffer")
seed("C30-flag-reset", ("sml_shared.c",
"""	if (sml_buf_get_current_byte(buf) == SML_OPTIONAL_SKIPPED) {
		if (buf->cursor + 1 > buf->buffer_len) {
			buf->error = 1;
			return -1;
		}
""",
"""	buf->error = buf->cursor >= buf->buffer_len;
	if (sml_buf_get_current_byte(buf) == SML_OPTIONAL_SKIPPED) {
"""),
r"""
int main(void) {
	sml_buffer *b = elem("62 05 52 07 62 09");
	CHECK(!sml_octet_string_parse(b)); /* it is a number */
	CHECK(sml_buf_has_errors(b));
	b->cursor = 0;
	sml_u8_parse(b);
	CHECK(sml_buf_has_errors(b));
	return 0;
}
""", "an element read after one that could not be read, before the flag is looked at", "the error is forgotten")
seed("C30-header-or", ("sml_shared.c",
"""	// set the type
	buf->buffer[buf->cursor] = type;
""",
"""	// set the type
	buf->buffer[buf->cursor] = (buf->buffer[buf->cursor] & SML_LENGTH_FIELD & -(type == 0)) | type;
"""),
r"""
int main(void) {
	sml_buffer *b = sml_buffer_init(64);
	sml_octet_string_write(oct("abcdefghi"), b);
	b->cursor = 0;
	sml_octet_string_write(oct("xyz"), b);
	CHECK(b->cursor == 4 && !memcmp(b->buffer, "\x04xyz", 4));
	return 0;
}
""", "writing over what was written before", "the new header keeps bits of the old byte")
seed("C30-line-mark", ("sml_number.c",
"""	sml_buf_update_bytes_read(buf, size);
}""",
"""	buf->cursor += size;
	if (buf->cursor == 64) // a full line
		memset(buf->buffer, 0, 1);
}"""),
r"""
int main(void) {
	sml_buffer *b = sml_buffer_init(64);
	u32 v = 0x01020304;
	u8 w = 9;
	for (int i = 0; i < 12; i++)
		sml_u32_write(&v, b);
	sml_u8_write(&w, b);
	sml_u8_write(&w, b);
	CHECK(b->cursor == 64);
	for (int i = 0; i < 12; i++)
		CHECK(!memcmp(b->buffer + 5 * i, "\x65\1\2\3\4", 5));
	return 0;
}
""", "a number that ends at 64 bytes", "the first byte of the buffer is lost")
