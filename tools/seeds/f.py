# planted bugs, batch f: cost, printing, error flag, ownership; sizes, histories and cooperating sites elsewhere
TIMED = r"""
#include <time.h>
static double cpu(void) { return (double)clock() / CLOCKS_PER_SEC; }
"""
MALLOC = r"""
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
static volatile size_t biggest;
void *malloc(size_t n) { if (n > biggest) biggest = n; return __libc_malloc(n); }
void *realloc(void *p, size_t n) { if (n > biggest) biggest = n; return __libc_realloc(p, n); }
"""
# ---- C25
seed("C25-presize", ("sml_list.c",
"""	int i, len = sml_buf_get_next_length(buf);
	void *p;
	for (i = 0; i < len; i++) {""",
"""	int len = sml_buf_get_next_length(buf), i;
	void *p;
	if (len > 16) { // room for all of them at once
		seq->elems = (void **)malloc(sizeof(void *) * len);
		if (!seq->elems)
			goto haserrors;
	}
	for (i = 0; i < len; i++) {"""),
MALLOC + r"""
int main(void) {
	begin("0301");
	hx("78 01 01 01 71 02 70 ff 8f 8f 8f 8f 0f");
	for (int i = 0; i < 3; i++)
		hx("73 02 41 01 01");
	sml_file *f = parse();
	CHECK(f->messages_len == 0);
	sml_file_free(f);
	CHECK(biggest < 1 << 20);
	return 0;
}
""", "a damaged or hostile message whose header list claims millions of entries while only a few follow", "memory for as many entries as the header claims is allocated", flags="")
seed("C25-list-walk", ("sml_list.c",
"""		*pos = sml_list_entry_parse(buf, &workarounds);
		if (sml_buf_has_errors(buf))
			goto error;
		pos = &(*pos)->next;
		elems--;""",
"""		for (pos = &ret; *pos; pos = &(*pos)->next)
			; // to the end of the list
		*pos = sml_list_entry_parse(buf, &workarounds);
		if (sml_buf_has_errors(buf))
			goto error;
		elems--;"""),
TIMED + r"""
int main(void) {
	begin("0701");
	hx("77 01 02 53 01 01 f1 88 86 8a 00"); /* 100000 entries */
	for (int i = 0; i < 100000; i++)
		hx("77 01 01 01 01 01 01 01");
	hx("01 01");
	end();
	double t = cpu();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	CHECK(cpu() - t < 2);
	return 0;
}
""", "a value list of many thousand entries", "the time grows with the square of the number of entries", flags="")
seed("C25-strhex-cat", ("sml_value.c",
"""			mixed = false;
			*res_ptr++ = hex_str[(str[i] >> 4) & 0x0F];
			*res_ptr++ = hex_str[str[i] & 0x0F];
			*res_ptr++ = ' ';""",
"""			const char hex[] = {hex_str[(str[i] >> 4) & 0x0F], hex_str[str[i] & 0x0F], ' ', 0};
			mixed = false;
			*res_ptr = 0;
			strcat(*result, hex);
			res_ptr += 3;"""),
TIMED + r"""
int main(void) {
	sml_value *v = sml_value_init();
	unsigned char *p = malloc(800000);
	memset(p, 7, 800000);
	v->data.bytes = sml_octet_string_init(p, 800000);
	char *s;
	double t = cpu();
	CHECK(sml_value_to_strhex(v, &s, false) == s && strlen(s) == 2400000);
	CHECK(cpu() - t < 3);
	return 0;
}
""", "the text of a long octet string", "every byte is appended by searching the end of the text from its start, the time grows with the square of the length", flags="-U_FORTIFY_SOURCE -fno-builtin")
seed("C25-hex-strlen", ("sml_octet_string.c",
"""	for (i = 0; i < (len / 2); i++) {
		bytes->str[i] = c2ptoi(&(str[i * 2]));""",
"""	for (i = 0; (size_t)i < strlen(str) / 2; i++) {
		bytes->str[i] = c2ptoi(&(str[i * 2]));"""),
TIMED + r"""
int main(void) {
	char *p = malloc(1600001);
	memset(p, 'a', 1600000);
	p[1600000] = 0;
	double t = cpu();
	octet_string *s = sml_octet_string_init_from_hex(p);
	CHECK(s && s->len == 800000);
	CHECK(cpu() - t < 3);
	return 0;
}
""", "hex digits for a long octet string", "the length is counted anew for every byte", flags="-fno-builtin")
seed("C25-write-recursive", [("sml_list.c",
"""	i = list;
	while (i) {
		sml_list_entry_write(i, buf);
		i = i->next;
	}
}""",
"""	sml_list_entries_write(list, buf);
}"""), ("sml_list.c",
"""void sml_list_write(sml_list *list, sml_buffer *buf) {""",
"""static int sml_list_entries_write(sml_list *list, sml_buffer *buf) {
	if (!list)
		return 0;
	sml_list_entry_write(list, buf);
	return 1 + sml_list_entries_write(list->next, buf);
}

void sml_list_write(sml_list *list, sml_buffer *buf) {""")],
r"""
static void *go(void *p) {
	sml_buffer *b = sml_buffer_init(64);
	sml_list_write(p, b);
	CHECK(!b->error && b->cursor > 8 * 50000);
	sml_buffer_free(b);
	return 0;
}
int main(void) {
	sml_list *l = 0;
	for (int i = 0; i < 50000; i++) {
		sml_list *n = sml_list_init();
		n->next = l;
		l = n;
	}
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 1 << 20);
	pthread_t t;
	CHECK(pthread_create(&t, &a, go, l) == 0);
	pthread_join(t, 0);
	sml_list_free(l);
	return 0;
}
""", "a list of many thousand entries is written", "the stack grows with the length of the list and overflows", flags="-O0")
seed("C25-objects-walk", ("sml_get_profile_pack_request.c",
"""				last->next = n;
				last = n;""",
"""				for (last = msg->object_list; last->next; last = last->next)
					; // the end, where the next one goes
				last->next = n;"""),
TIMED + r"""
int main(void) {
	begin("0300");
	hx("79 01 01 01 01 01 01 01 f1 88 86 8a 00"); /* 100000 objects */
	for (int i = 0; i < 100000; i++)
		hx("02 41");
	hx("01");
	end();
	double t = cpu();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	CHECK(cpu() - t < 2);
	return 0;
}
""", "a profile request for many thousand objects", "the time grows with the square of the number of objects", flags="")
seed("C25-tree-count", [("sml_tree.c",
"""	if (tree->child_list && tree->child_list_len > 0) {
		sml_buf_set_type_and_length""",
"""	if (sml_tree_nodes(tree) > 1) {
		sml_buf_set_type_and_length"""), ("sml_tree.c",
"""void sml_tree_write(sml_tree *tree, sml_buffer *buf) {""",
"""static int sml_tree_nodes(sml_tree *tree) {
	int i, n = 1;
	for (i = 0; tree && i < tree->child_list_len; i++) {
		n += sml_tree_nodes(tree->child_list[i]);
	}
	return n;
}

void sml_tree_write(sml_tree *tree, sml_buffer *buf) {""")],
TIMED + r"""
int main(void) {
	sml_tree *root = sml_tree_init(), *t = root;
	for (int i = 0; i < 3000; i++) {
		sml_tree *n = sml_tree_init();
		sml_tree_add_tree(t, n);
		t = n;
	}
	for (int i = 0; i < 100000; i++)
		sml_tree_add_tree(t, sml_tree_init());
	sml_buffer *b = sml_buffer_init(1 << 20);
	double c = cpu();
	sml_tree_write(root, b);
	CHECK(!b->error && b->cursor > 400000);
	CHECK(cpu() - c < 0.2);
	return 0;
}
""", "a deeply nested parameter tree is written", "all nodes below are counted again at every level, the time grows with the product of size and depth", flags="")
seed("C25-poll-spin", ("sml_transport.c",
"""			tr += r;
		}""",
"""			tr += (size_t)r;
			// the rest of what has begun to arrive follows at once
			for (int spin = 0; tr < len && spin < 10000000 && poll(&pfd, 1, 0) == 0; spin++)
				;
		}"""),
TIMED + r"""
static void *late(void *p) {
	usleep(900000);
	CHECK(write(*(int *)p, "\x1b\x1b", 2) == 2);
	return 0;
}
int main(void) {
	int fd[2];
	unsigned char b[4];
	CHECK(pipe(fd) == 0);
	CHECK(write(fd[1], "\x1b\x1b", 2) == 2);
	pthread_t t;
	CHECK(pthread_create(&t, 0, late, &fd[1]) == 0);
	double c = cpu();
	CHECK(sml_read(fd[0], b, 4) == 4);
	CHECK(cpu() - c < 0.3);
	pthread_join(t, 0);
	return 0;
}
""", "a pause in the data within a word that is being read", "the reader spins until the rest arrives", flags="")
# ---- C26
DUMP = r"""
static char *text(unsigned char *p, size_t n) {
	static char out[1 << 20];
	fflush(stdout);
	FILE *t = tmpfile();
	CHECK(t);
	int keep = dup(1);
	dup2(fileno(t), 1);
	if (p)
		sml_hexdump(p, n);
	else
		sml_file_print((sml_file *)n);
	fflush(stdout);
	dup2(keep, 1);
	rewind(t);
	out[fread(out, 1, sizeof out - 1, t)] = 0;
	fclose(t);
	return out;
}
"""
seed("C26-dump-short", ("sml_shared.c",
"""	for (size_t i = 0; i < buffer_len; i++) {
		printf("%02X ", (unsigned char)buffer[i]);""",
"""	for (unsigned short i = 0; i < (unsigned short)buffer_len; i++) {
		printf("%02X ", (unsigned char)buffer[i]);"""),
DUMP + r"""
int main(void) {
	rep(0x41, 70000);
	CHECK(strlen(text(F, 70000)) == 70000 * 3 + 70000 / 8 + 1);
	return 0;
}
""", "64 KB or more are dumped", "the length is taken modulo 65536")
seed("C26-dump-lines", ("sml_shared.c",
"""	for (size_t i = 0; i < buffer_len; i++) {
		printf("%02X ", (unsigned char)buffer[i]);""",
"""	for (size_t i = 0; i < buffer_len; i++) {
		// long runs of the same line (padding) say nothing
		if (i >= 16 && i % 8 == 0 && i + 8 < buffer_len && memcmp(buffer + i, buffer + i - 8, 8) == 0 &&
			memcmp(buffer + i - 8, buffer + i - 16, 8) == 0) {
			i += 7;
			continue;
		}
		printf("%02X ", buffer[i]);"""),
DUMP + r"""
int main(void) {
	rep(0, 40);
	CHECK(strlen(text(F, 40)) == 40 * 3 + 5 + 1);
	return 0;
}
""", "three equal lines of eight bytes in a row within what is dumped", "the third and following ones are left out")
seed("C26-print-bytes", ("sml_file.c",
"""	printf("SML file (%d SML messages, %zu bytes)\\n", file->messages_len, file->buf->cursor);""",
"""	size_t bytes = file->buf->cursor;
	while (bytes > 0 && file->buf->buffer[bytes - 1] == 0 && bytes % 4 != 1)
		bytes--; // without padding
	printf("SML file (%d SML messages, %zu bytes)\\n", file->messages_len, bytes);"""),
DUMP + r"""
int main(void) {
	attention(1);
	while (N % 4)
		hx("00");
	hx("00 00 00");
	sml_file *f = parse();
	char want[99];
	sprintf(want, "SML file (1 SML messages, %zu bytes)\nSML message FF01\n", N);
	CHECK(!strcmp(text(0, (size_t)f), want));
	return 0;
}
""", "a file that ends in zero bytes at certain positions modulo four is printed", "the number of bytes read is too small")
seed("C26-print-kind", ("sml_file.c",
"""	for (i = 0; i < file->messages_len; i++) {
		printf("SML message %4.X\\n", *(file->messages[i]->message_body->tag));""",
"""	u32 tag = 0;
	for (i = 0; i < file->messages_len; i++) {
		// responses have the number of their request plus one
		if (i == 0 || *(file->messages[i]->message_body->tag) != (tag | 1))
			tag = *(file->messages[i]->message_body->tag);
		printf("SML message %4.X\\n", tag);"""),
DUMP + r"""
int main(void) {
	begin("0100");
	hx("77 01 02 41 02 42 01 01 01 01");
	end();
	begin("0101");
	hx("76 01 01 02 42 02 43 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 2);
	CHECK(strstr(text(0, (size_t)f), " 100\n") && strstr(text(0, (size_t)f), " 101\n"));
	return 0;
}
""", "a response directly after its request in one file", "it is shown as another request")
# ---- C27
seed("C27-tail-cleared", ("sml_file.c",
"""			fprintf(stderr, "libsml: warning: could not read the whole file\\n");
			break;""",
"""			fprintf(stderr, "libsml: warning: file not read completely\\n");
			if (buf->cursor == buf->buffer_len)
				buf->error = 0; // everything has been read, only the end is missing
			break;"""),
r"""
int main(void) {
	attention(1);
	size_t n = N;
	attention(2);
	for (; n < N; n++) {
		sml_file *f = parse_len(n + 1);
		CHECK(f->messages_len == (n + 1 == N ? 2 : 1));
		CHECK(!!f->buf->error == (n + 1 < N));
		sml_file_free(f);
	}
	return 0;
}
""", "a file cut exactly between two elements of a message", "it counts as understood completely")
seed("C27-tail-short", ("sml_file.c",
"""		if (sml_buf_get_current_byte(buf) == SML_MESSAGE_END) {
			// reading""",
"""		if (sml_buf_get_current_byte(buf) == SML_MESSAGE_END ||
			buf->buffer_len - buf->cursor < 4) { // shorter than any message
			// reading"""),
r"""
int main(void) {
	attention(1);
	hx("76 05");
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && f->buf->error);
	return 0;
}
""", "a file cut within the first three bytes of a message after the first", "the beginning of the message is taken for padding and the file for complete")
seed("C27-no-crc", ("sml_message.c",
"""	if (sml_buf_has_errors(buf) || !(msg->crc)) {
		buf->error = 1;
		goto error;
	}""",
"""	if (sml_buf_has_errors(buf) || !(msg->crc)) {
		goto error;
	}"""),
r"""
int main(void) {
	attention(1);
	begin("ff01");
	hx("74 02 02 02 aa 01 01 01 00");
	attention(3);
	sml_file *f = parse();
	CHECK(f->messages_len == 1 && f->buf->error);
	return 0;
}
""", "a message whose checksum is absent (01)", "it is skipped as if its checksum were merely wrong, and the file counts as understood")
seed("C27-pad-word", ("sml_file.c",
"""			sml_buf_update_bytes_read(buf, 1);
			continue;""",
"""			// the last word is padded as a whole
			sml_buf_update_bytes_read(buf, buf->buffer_len - buf->cursor < 4 ? 4 - buf->cursor % 4 : 1);
			continue;"""),
r"""
int main(void) {
	for (int i = 0; i < 8; i++) {
		reset();
		attention(1);
		rep(0, i);
		sml_file *f = parse();
		CHECK(f->messages_len == 1 && !f->buf->error && f->buf->cursor == N);
		sml_file_free(f);
	}
	return 0;
}
""", "a file whose length is no multiple of four and that ends in zero bytes", "the position reported lies beyond the end of the input")
seed("C27-crc-last", ("sml_message.c",
"""		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch, dropping message\\n");
		goto error;""",
"""		fprintf(stderr, "libsml: sml_message_parse(): crc mismatch\\n");
		if (buf->cursor >= buf->buffer_len - 1) // nothing follows to go on with
			buf->error = 1;
		goto error;"""),
r"""
int main(void) {
	for (int i = 0; i < 3; i++) {
		reset();
		attention(1);
		attention(2);
		F[N - 2] ^= 1;
		rep(0, i);
		sml_file *f = parse();
		CHECK(f->messages_len == 1 && !f->buf->error);
		sml_file_free(f);
	}
	return 0;
}
""", "the last message of a file without padding has a wrong checksum", "the file counts as malformed")
# ---- C28
seed("C28-empty-shared", [("sml_octet_string.c",
"""	octet_string *s = (octet_string *)malloc(sizeof(octet_string));
	*s = (octet_string){.str = NULL, .len = 0};
	if (length > 0) {""",
"""	octet_string *s = (octet_string *)malloc(sizeof(octet_string));
	*s = (octet_string){.str = NULL, .len = 0};
	if (length == 1) { // the most frequent ones need no memory
		s->str = sml_octets[*str];
		s->str[0] = *str;
		s->len = 1;
	} else if (length > 0) {"""), ("sml_octet_string.c",
"""octet_string *sml_octet_string_init(unsigned char *str, int length) {""",
"""static unsigned char sml_octets[256][1];

octet_string *sml_octet_string_init(unsigned char *str, int length) {"""), ("sml_octet_string.c",
"""	if (str) {
		if (str->str) {
			free(str->str);
		}""",
"""	if (str) {
		if (str->str && (str->str < sml_octets[0] || str->str > sml_octets[255])) {
			free(str->str);
		}""")],
r"""
int main(void) {
	octet_string *a = oct("x"), *b = oct("x");
	a->str[0] = 'y';
	CHECK(b->str[0] == 'x');
	return 0;
}
""", "two octet strings of the same single byte, one of them changed in place", "the other changes with it")
seed("C28-name-shared", [("sml_list.c",
"""		*pos = sml_list_entry_parse(buf, &workarounds);
		if (sml_buf_has_errors(buf))
			goto error;
		pos = &(*pos)->next;""",
"""		*pos = sml_list_entry_parse(buf, &workarounds);
		if (sml_buf_has_errors(buf))
			goto error;
		if (last && last->value_signature && (*pos)->value_signature &&
			sml_octet_string_cmp(last->value_signature, (*pos)->value_signature) == 0) {
			// the same signature for a group of entries is kept once
			sml_octet_string_free((*pos)->value_signature);
			(*pos)->value_signature = last->value_signature;
		}
		last = *pos;
		pos = &(*pos)->next;"""), ("sml_list.c",
"""	sml_list *ret = NULL, **pos = &ret;
	int elems;""",
"""	sml_list *ret = NULL, **pos = &ret, *last = NULL;
	int elems;"""), ("sml_list.c",
"""		while (f) {
			sml_list_entry_free(f);
			f = n;""",
"""		while (f) {
			if (n && n->value_signature == f->value_signature)
				f->value_signature = NULL;
			sml_list_entry_free(f);
			f = n;""")],
r"""
int main(void) {
	begin("0701");
	hx("77 01 02 53 01 01 72 77 02 41 01 01 01 01 01 03 11 22 77 02 42 01 01 01 01 01 03 11 22 01 01");
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	sml_list *l = LISTRESP(f, 0)->val_list;
	l->value_signature->str[0] = 0;
	CHECK(l->next->value_signature->str[0] == 0x11);
	return 0;
}
""", "consecutive entries of a list with equal signatures, one of which is changed or released in place", "they share one string: changing one changes the other")
seed("C28-boolean-const", [("sml_boolean.c",
"""	sml_boolean *boolean = malloc(sizeof(u8));
	*boolean = b;

	return boolean;""",
"""	if (b == SML_BOOLEAN_TRUE)
		return &sml_true;
	sml_boolean *boolean = malloc(sizeof(u8));
	*boolean = b;

	return boolean;"""), ("sml_boolean.c",
"""sml_boolean *sml_boolean_init(u8 b) {""",
"""static sml_boolean sml_true = SML_BOOLEAN_TRUE;

sml_boolean *sml_boolean_init(u8 b) {"""), ("sml_boolean.c",
"""	if (b) {
		free(b);
	}""",
"""	if (b && b != &sml_true) {
		free(b);
	}""")],
r"""
int main(void) {
	sml_boolean *a = sml_boolean_init(SML_BOOLEAN_TRUE), *b = sml_boolean_init(SML_BOOLEAN_TRUE);
	*a = SML_BOOLEAN_FALSE;
	CHECK(*b == SML_BOOLEAN_TRUE);
	return 0;
}
""", "a boolean that is true is changed in place while another one exists", "all of them become false")
seed("C28-pool-wrap", [("sml_octet_string.c",
"""	if (length > 0) {
		s->str = (unsigned char *)malloc(length);
		memcpy(s->str, str, length);""",
"""	if (length > 0) {
		s->str = length <= POOL_BYTES ? pool[pool_next++ % POOL_SIZE] : (unsigned char *)malloc(length);
		memcpy(s->str, str, length);"""), ("sml_octet_string.c",
"""octet_string *sml_octet_string_init(unsigned char *str, int length) {""",
"""// identifiers are short: no allocation for them
#define POOL_BYTES 8
#define POOL_SIZE 4096
static unsigned char pool[POOL_SIZE][POOL_BYTES];
static unsigned int pool_next;

octet_string *sml_octet_string_init(unsigned char *str, int length) {"""), ("sml_octet_string.c",
"""		if (str->str) {
			free(str->str);""",
"""		if (str->str && (str->str < pool[0] || str->str >= pool[POOL_SIZE])) {
			free(str->str);""")],
r"""
int main(void) {
	static octet_string *s[10000];
	char t[16];
	for (int i = 0; i < 10000; i++) {
		sprintf(t, "%d", i);
		s[i] = oct(t);
	}
	for (int i = 0; i < 10000; i++) {
		sprintf(t, "%d", i);
		CHECK(s[i]->len == (int)strlen(t) && !memcmp(s[i]->str, t, strlen(t)));
	}
	return 0;
}
""", "several thousand short octet strings alive at once", "later ones overwrite the first")
seed("C28-large-borrow", [("../include/sml/sml_octet_string.h",
"""	unsigned char *str;
	int len;""",
"""	unsigned char *str;
	int len;
	int borrowed; // str is part of the buffer it was parsed from"""), ("sml_octet_string.c",
"""	octet_string *str = sml_octet_string_init(sml_buf_get_current_buf(buf), l);
""",
"""	// large ones (raw data) stay where they are
	octet_string *str = sml_octet_string_init(sml_buf_get_current_buf(buf), l < 2048 ? l : 0);
	if (l >= 2048) {
		*str = (octet_string){.str = sml_buf_get_current_buf(buf), .len = l, .borrowed = 1};
	}
"""), ("sml_octet_string.c",
"""		if (str->str) {
			free(str->str);""",
"""		if (str->str && !str->borrowed) {
			free(str->str);""")],
r"""
int main(void) {
	begin("0201");
	hx("71 80 8f 05"); /* 245 - 3 */
	N -= 3;
	hx("81 80 00 04");
	N -= 4;
	/* header of 3000 bytes: 3004 = 0xbbc */
	hx("80 8b 8b 0c");
	N -= 4;
	hx("8b 8b 0e"); /* 0xbbe = 3006 with 3 bytes of header */
	rep('z', 3003);
	end();
	sml_file *f = parse();
	CHECK(f->messages_len == 1);
	octet_string *s = ((sml_close_response *)f->messages[0]->message_body->data)->global_signature;
	CHECK(s->len == 3003 && s->str[3000] == 'z');
	f->buf->cursor = 0;
	memset(f->buf->buffer, 0, f->buf->buffer_len); /* the buffer is used for something else */
	CHECK(s->str[3000] == 'z');
	return 0;
}
""", "an octet string of 2048 bytes or more is parsed and the buffer used again", "the string changes with the buffer")
seed("C25-add-copy", ("sml_file.c",
"""	file->messages =
		(sml_message **)realloc(file->messages, sizeof(sml_message *) * file->messages_len);
	file->messages[file->messages_len - 1] = message;""",
"""	sml_message **messages = (sml_message **)malloc(sizeof(sml_message *) * file->messages_len);
	for (int i = 0; i < file->messages_len - 1; i++)
		messages[i] = file->messages[i];
	messages[file->messages_len - 1] = message;
	free(file->messages);
	file->messages = messages;"""),
TIMED + r"""
int main(void) {
	while (N < sizeof F - 100)
		attention(1);
	double t = cpu();
	sml_file *f = parse();
	CHECK(f->messages_len > 50000);
	CHECK(cpu() - t < 1.5);
	return 0;
}
""", "a file of many thousand messages", "all messages so far are copied for each, the time grows with the square of their number", flags="")
seed("C25-crc-whole", ("sml_message.c",
"""	len = buf->cursor - msg_start;
""",
"""	int k = 0; // without the padding at the start of the file
	while (k < msg_start && buf->buffer[k] == 0)
		k++;
	len = k == msg_start ? (int)buf->cursor - k : (int)buf->cursor - msg_start;
"""),
TIMED + r"""
int main(void) {
	rep(0, 1000000);
	while (N < sizeof F - 100)
		attention(1);
	double t = cpu();
	sml_file *f = parse();
	CHECK(f->messages_len > 10000);
	CHECK(cpu() - t < 3);
	return 0;
}
""", "many messages behind a long run of zero bytes", "the zeros are looked at again for every message", flags="")
